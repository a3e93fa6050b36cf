#!/usr/bin/env python3
"""run.py check ID [quick|thorough] | replay FILE | setup | all [tier]"""
import sys, os, json, time, subprocess, re, tempfile, shutil, signal
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'engine')); sys.path.insert(0, V)
import build as B
import checks as C

NPROC = int(os.environ.get('MC_PROCS', '8'))
RE_KNOWN = re.compile(r'^known: property=(\S+) model=(\S+) sig=(\S+) :: (.*)$')

def known_findings():
    out = []
    p = os.path.join(V, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = RE_KNOWN.match(l.strip())
            if m: out.append(dict(property=m[1], model=m[2], sig=m[3], text=m[4]))
    return out

def launch(so, job, work, tag):
    job = dict(job); job['result'] = os.path.join(work, tag + '.json'); job['plog'] = os.path.join(work, tag + '.plog')
    for f in (job['result'],):
        if os.path.exists(f): os.remove(f)
    e = dict(os.environ); e['MC_JOB'] = spec = json.dumps(job); e.pop('NODE_OPTIONS', None)
    if len(spec) > 60000: # too long for an environment variable
        e['MC_JOB'] = '@' + os.path.join(work, tag + '.spec'); open(e['MC_JOB'][1:], 'w').write(spec)
    if 'replay' in job: e['MC_LIVE'] = '1'
    err = open(os.path.join(work, tag + '.err'), 'wb')
    cmd = ['node'] + job.get('node_args', []) + ['-e', f"process.dlopen({{exports:{{}}}}, {json.dumps(so)})"]
    p = subprocess.Popen(cmd, env=e, cwd=work, stdout=err, stderr=err, stdin=subprocess.DEVNULL, start_new_session=True)
    return dict(p=p, job=job, tag=tag, t0=time.time(), errf=os.path.join(work, tag + '.err'))

def tail(f, n=3000):
    try: return open(f, 'rb').read()[-n:].decode('utf8', 'replace')
    except OSError: return ''

def read_plog(f):
    import struct
    try: d = open(f, 'rb').read()
    except OSError: return []
    n = struct.unpack_from('<H', d, 0)[0]
    return list(struct.unpack_from('<%dH' % n, d, 2))

def kill(r):
    try: os.killpg(r['p'].pid, signal.SIGKILL)
    except OSError: pass
    r['p'].wait()

def run_to_end(so, job, work, tag, limit):
    r = launch(so, job, work, tag)
    try: r['p'].wait(timeout=limit)
    except subprocess.TimeoutExpired:
        kill(r); return 'timeout', None, r
    res = None
    if os.path.exists(r['job']['result']):
        try: res = json.load(open(r['job']['result']))
        except ValueError: res = None
    return r['p'].returncode, res, r

class EngineError(Exception): pass

def save_replay(prop, job, viol):
    d = os.path.join(V, 'replays'); os.makedirs(d, exist_ok=True)
    f = os.path.join(d, f"{prop}-{job['model']}-{re.sub(r'[^A-Za-z0-9]+', '-', viol['sig'])[:40]}.json")
    json.dump(dict(property=prop, model=job['model'], params=job['params'], bound=job['bound'], sig=viol['sig'], msg=viol['msg'],
                   choices=viol['choices'], labels=viol.get('labels', []), events=viol.get('events', []),
                   node_args=job.get('node_args', []), harness=job.get('harness', 'default'), shard=job.get('shard') if viol.get('series') else None, series=viol.get('series', False)), open(f, 'w'), indent=1)
    return f

def check(prop, tier):
    t0 = time.time()
    spec = C.PROPS[prop]
    models = spec['quick'] if tier == 'quick' else spec.get('thorough', spec['quick'])
    kf = [k for k in known_findings() if k['property'] == prop]
    sos = {}
    for h in sorted({m.get('harness', 'default') for m in models}):
        so = B.build(h)
        if so is None:
            print('ENGINE: the harness does not build against this tree', file=sys.stderr); return 2
        sos[h] = so
    t_build = time.time() - t0
    work = tempfile.mkdtemp(prefix='mc-', dir=B.B)
    jobs = []
    for mi, m in enumerate(models):
        n = m.get('shards', 1)
        for s in range(n):
            j = dict(model=m['model'], params=m.get('params', {}), bound=m.get('bound', 0), time_cap=m.get('cap', 240 if tier == 'quick' else 3600),
                     exec_limit=m.get('exec_limit', 60), known=[k['sig'] for k in kf if k['model'] == m['model']], node_args=m.get('node_args', []), harness=m.get('harness', 'default'), mi=mi)
            if n > 1: j['shard'] = [s, n, m.get('sdepth', 3)]
            jobs.append((j, f'{mi}-{s}'))
    running, results, viol, stuck = [], [], None, None
    queue = list(jobs)
    try:
        while (queue or running) and viol is None:
            while queue and len(running) < NPROC:
                j, tag = queue.pop(0)
                running.append(launch(sos[j['harness']], j, work, tag))
            time.sleep(0.02)
            for r in list(running):
                limit = r['job']['time_cap'] * 1.5 + 60
                rc = r['p'].poll()
                if rc is None:
                    if time.time() - r['t0'] > limit: kill(r); rc = 'timeout'
                    else: continue
                running.remove(r)
                res = None
                if os.path.exists(r['job']['result']):
                    try: res = json.load(open(r['job']['result']))
                    except ValueError: pass
                if rc == 0 and res: results.append((r['job'], res)); continue
                if rc == 1 and res and 'violation' in res:
                    viol = confirm(sos, r, res['violation'], work); continue
                if rc == 3 or (res and 'engine_error' in res):
                    raise EngineError(f"{r['job']['model']}: {(res or {}).get('engine_error', '')} {tail(r['errf'])}")
                # crash or hang of the process: replay the logged choices before believing it
                ch = read_plog(r['job']['plog'])
                what = 'hang' if rc in (4, 'timeout') else 'crash'
                try: viol = crash(sos, r, ch, what, rc, work)
                except EngineError as ex: stuck = ex
        if viol is None and stuck: raise stuck
    except EngineError as ex:
        for r in running: kill(r)
        print(f'ENGINE-ERROR property={prop}: {ex}', file=sys.stderr); return 2
    finally:
        for r in running: kill(r)
        keep = os.environ.get('MC_KEEP')
        if not keep: shutil.rmtree(work, ignore_errors=True)
    known_hits = {}
    for j, res in results:
        for s, v in res.get('known', {}).items():
            k = next(k for k in kf if k['sig'] == s and k['model'] == j['model'])
            known_hits.setdefault(s, [k, 0, v['first']]); known_hits[s][1] += v['count']
    write_evidence(prop, tier, models, results, viol, time.time() - t0, t_build, known_hits)
    for s, (k, n, first) in sorted(known_hits.items()):
        print(f"KNOWN-FINDING: property={prop} {k['text']} [{n} explored histories, e.g. {first}]")
    if viol:
        job, v = viol
        f = save_replay(prop, job, v)
        print(f"{v['sig']}: {v['msg']}")
        for l in v.get('events', [])[:60]: print('   ', l)
        print(f'VIOLATION property={prop} replay={f}')
        return 1
    ex = sum(r['execs'] for _, r in results)
    print(f'OK property={prop} tier={tier} executions={ex} wall={time.time()-t0:.1f}s (build {t_build:.1f}s)')
    return 0

def confirm(sos, r, v, work):
    """A violation counts only if replaying its choices reproduces it."""
    j = {k: x for k, x in r['job'].items() if k not in ('shard', 'result', 'plog')}
    j['replay'] = v['choices']; j['known'] = []
    # what a broken build does may depend on the seeds of its hash maps, which differ between processes
    for i in range(8):
        rc, res, rr = run_to_end(sos[j['harness']], j, work, f'confirm{i}', 180)
        if rc == 1 and res and res.get('violation', {}).get('sig') is not None:
            return (r['job'], v)
    raise EngineError(f"violation {v['sig']} ({v['msg']}) does not replay: rc={rc} {res} {tail(rr['errf'])}")

def crash(sos, r, ch, what, rc, work):
    j = {k: x for k, x in r['job'].items() if k not in ('shard', 'result', 'plog')}
    j['replay'] = ch; j['known'] = []
    first = tail(r['errf'], 1500)
    n = 0
    # where the collector of garbage stands differs between processes; an abort (not a hang, not a kill) needs to happen once more
    need = 1 if rc in (-4, -5, -6, -7, -11) else 2
    for i in range(8 if need == 1 else 2):
        rc2, res, rr = run_to_end(sos[j['harness']], j, work, f'confirm{i}', r['job']['exec_limit'] * 2 + 30)
        if rc2 == 1 and res and 'violation' in res:
            return (r['job'], res['violation'])
        if rc2 == 3: raise EngineError(tail(rr['errf']))
        if rc2 != 0: n += 1
        last = tail(rr['errf'], 900)
        if n == need: break
    if n == need:
        return (r['job'], dict(sig=what, msg=f'the process died or hung (status {rc}) in this execution, reproducibly: {last}', choices=ch))
    if need == 1:
        # does it take what ran before in this process (sizes the heap learned, compiled code)? Then the whole series is the replay
        j = {k: x for k, x in r['job'].items() if k not in ('result', 'plog')}
        rc2, res, rr = run_to_end(sos[j['harness']], j, work, 'confirm-all', 600)
        if rc2 in (-4, -5, -6, -7, -11) and read_plog(rr['job']['plog']) == ch:
            return (r['job'], dict(sig=what, msg=f'the process died (status {rc}) in this execution after those that precede it, reproducibly: {tail(rr["errf"], 900)}', choices=ch, series=True))
    raise EngineError(f'process ended with {rc} and the execution {r["job"]["params"]} {ch} does not reproduce it: {first}')

def write_evidence(prop, tier, models, results, viol, wall, t_build, known_hits):
    per = []
    outs = set(); samples = []
    for mi, m in enumerate(models):
        rs = [r for j, r in results if j['mi'] == mi]
        if not rs: continue
        o = set().union(*[set(r['outcomes']) for r in rs]) if rs else set()
        outs |= {(mi, x) for x in o}
        b = min(r['completed_bound'] for r in rs); cap = any(r['capped'] for r in rs)
        per.append(dict(model=m['model'], params=m.get('params', {}), deviation_bound=m.get('bound', 0),
                        completed_bound=('unbounded: nothing was pruned' if b > 10**6 else b), capped=cap, processes=len(rs),
                        executions=sum(r['execs'] for r in rs), choice_tree_nodes=sum(r['nodes'] for r in rs), choice_steps=sum(r['steps'] for r in rs),
                        max_depth=max(r['max_depth'] for r in rs), distinct_outcomes=len(o), what=m.get('what', '')))
        for r in rs:
            if len([s for s in samples if s.startswith(m['model'])]) < 2: samples += [m['model'] + ': ' + s for s in r['samples'][:1]]
    ex = sum(p['executions'] for p in per)
    if viol: samples.append(f"violation {viol[1]['sig']}: {viol[1]['msg']}")
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
              coverage=dict(states=sum(p['choice_tree_nodes'] for p in per), transitions=sum(p['choice_steps'] for p in per),
                            traces_validated_against_impl=ex, distinct_outcomes=len(outs), samples=samples[:12] or ['(none)'],
                            exhaustive=bool(per) and not any(p['capped'] for p in per) and not viol,
                            explanation='Stateless model checking of the real code: every execution explored is an execution of the implementation. '
                                        'states = nodes of the choice tree (distinct histories of environment/schedule choices) visited at the largest bound; '
                                        'transitions = choices and synchronization steps executed, replays included; traces = complete executions of the implementation, each judged by the oracle.',
                            models=per, known_findings={s: dict(executions=n, first=f) for s, (k, n, f) in known_hits.items()},
                            build_s=round(t_build, 1)),
              assumptions=C.PROPS[prop].get('assumptions', C.ASSUME), wall_s=round(wall, 2), violations=1 if viol else 0)
    d = os.path.join(V, 'evidence'); os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + '.json'), 'w'), indent=1)

def replay(f):
    d = json.load(open(f))
    so = B.build(d.get('harness', 'default'))
    work = tempfile.mkdtemp(prefix='mc-', dir=B.B)
    j = dict(model=d['model'], params=d['params'], bound=d['bound'], node_args=d.get('node_args', []), exec_limit=120)
    if not d.get('series'): j['replay'] = d['choices']
    else: j.update(time_cap=600, known=[])
    if d.get('shard'): j['shard'] = d['shard']
    rc, res, r = run_to_end(so, j, work, 'replay', 600)
    v = (res or {}).get('violation')
    print(json.dumps(v, indent=1) if v else f'status {rc}: no violation\n{tail(r["errf"])}')
    shutil.rmtree(work, ignore_errors=True)
    return 1 if rc != 0 else 0

def main():
    a = sys.argv[1:]
    if a[0] == 'setup':
        for h in B.HARNESSES:
            if B.build(h) is None: return 2
        return 0
    if a[0] == 'check': return check(a[1], a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    if a[0] == 'replay': return replay(a[1])
    if a[0] == 'all':
        bad = 0
        for p in C.PROPS:
            rc = check(p, a[1] if len(a) > 1 else 'quick'); bad |= rc
        return bad
    return 2
sys.exit(main())
