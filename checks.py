"""Which models decide which property, and within which bounds."""
ASSUME = [
 'openworkers-core, ICU data and the V8 build are stand-ins: a type-compatible stub of the core crate, and the V8 12.4 inside node behind a C ABI shim (engine/v8shim) instead of V8 14.6',
 'interleavings are explored at synchronization operations / task polls under sequential consistency; weaker memory orderings are not modelled',
]
def M(model, bound=0, shards=1, sdepth=3, what='', **params):
    extra = {k[1:]: params.pop(k) for k in list(params) if k.startswith('_')}
    return dict(model=model, bound=bound, shards=shards, sdepth=sdepth, params=params, what=what, **extra)

NA = {}
PROPS = {}
def S(alphabet, depth, hwm=1, streams=1, shards=1):
    return M('stream_ops', shards=shards, sdepth=2, depth=depth, alphabet=alphabet, hwm=hwm, streams=streams)
PROPS['C01'] = dict(
  quick=[S('wdc', 6), S('wdeD', 6, 2, 1, 4), S('wxt', 6, 2, 1, 4), S('wdcl', 6, 1, 2), S('wdct', 5, 2, 2)],
  thorough=[S('wdc', 8, 1, 1, 8), S('wdeD', 7, 2, 1, 8), S('wxt', 8, 2, 1, 8), S('wdcl', 7, 1, 2, 8), S('wdct', 7, 2, 2, 8), S('wdeDctx', 6, 1, 1, 8)])
PROPS['C02'] = dict(
  quick=[S('wc', 7, 1, 1, 2), S('wxc', 6, 2, 1, 2), S('wtd', 6, 2, 1, 4), S('wdcl', 6, 2, 2, 4), S('w', 7, 3, 1, 2)],
  thorough=[S('wc', 9, 1, 1, 8), S('wxc', 8, 2, 1, 8), S('wtd', 7, 2, 1, 8), S('wdcl', 7, 2, 2, 8), S('w', 9, 3, 1, 8)])
PROPS['C03'] = dict(
  quick=[S('wcls', 6, 1, 2, 4), S('clst', 6, 1, 2), S('dcls', 6, 1, 3, 2), S('wxcl', 6, 1, 2, 4)],
  thorough=[S('wcls', 8, 1, 2, 8), S('clst', 8, 1, 2, 8), S('dcls', 7, 1, 3, 8), S('wxcls', 7, 1, 2, 8)])
PROPS['C04'] = dict(quick=[M('pump', 3, items=4)], thorough=[M('pump', 5, items=5, max_hwm=3, shards=8)])
PROPS['C05'] = dict(
  quick=[M('waiter_threads', 3, threads=3, rounds=1, shards=6), M('waiter_threads', 3, threads=2, rounds=2), M('waiter_ops', depth=12, tasks=3, cancel=True, spurious=True), M('waiter_ops', depth=12, tasks=4)],
  thorough=[M('waiter_threads', 4, threads=3, rounds=1, shards=8), M('waiter_threads', 4, threads=2, rounds=2, shards=8), M('waiter_ops', depth=18, tasks=3, cancel=True, spurious=True), M('waiter_ops', depth=18, tasks=4)])
PROPS['C06'] = dict(
  quick=[M('waiter_ops', depth=12, tasks=4, order=True), M('waiter_ops', depth=11, tasks=3, cancel=True, order=True), M('waiter_ops', depth=11, tasks=3, spurious=True, order=True)],
  thorough=[M('waiter_ops', depth=17, tasks=4, order=True, shards=8), M('waiter_ops', depth=15, tasks=3, cancel=True, order=True, shards=8), M('waiter_ops', depth=15, tasks=3, spurious=True, order=True, shards=8)])
PROPS['C07'] = dict(
  quick=[M('allocator_ops', depth=4), M('allocator_threads', 2)],
  thorough=[M('allocator_ops', depth=5, shards=8, sdepth=2), M('allocator_threads', 4, shards=8)])
PROPS['C08'] = PROPS['C07']
PROPS['C09'] = dict(
  quick=[M('extmem_ops', depth=6, guards=2), M('extmem_ops', depth=8, guards=1), M('extmem_threads', 2)],
  thorough=[M('extmem_ops', depth=8, guards=2, shards=8), M('extmem_threads', 4, shards=8)])
PROPS['C10'] = dict(
  quick=[M('deferred', 2), M('deferred', 3, per=1), M('deferred', 2, threads=3, per=1)],
  thorough=[M('deferred', 3, shards=8), M('deferred', 4, per=1, shards=8), M('deferred', 3, threads=3, per=1, shards=8)])
PROPS['C11'] = dict(quick=[M('trace_sizes'), M('tracked_ops', depth=4)], thorough=[M('trace_sizes'), M('tracked_ops', depth=7, shards=4)])
PROPS['C12'] = dict(
  quick=[M('timeout_guard', 2), M('timeout_guard', 1, two=True, steps=2), M('timeout_guard', 3, eager=True)],
  thorough=[M('timeout_guard', 3, shards=4), M('timeout_guard', 2, two=True, steps=3, shards=8), M('timeout_guard', 2, two=True, eager=True, steps=2, shards=8)])
PROPS['C13'] = dict(
  quick=[M('cpu_ops', depth=4), M('cpu_ops', depth=3, reset=True), M('cpu_drop_race', points=12), M('cpu_burst', max=8)],
  thorough=[M('cpu_ops', depth=5, shards=4), M('cpu_ops', depth=5, reset=True, shards=4), M('cpu_drop_race', points=25), M('cpu_burst', max=14)])
def J(name, shards=1, sdepth=2, bound=0, **params): return M('js_' + name, bound, shards, sdepth, **params)
PROPS['C33'] = dict(
  quick=[J('readable', 4, mode='push', depth=5, alphabet='egrlcxkKz'), J('readable', mode='push', depth=7, alphabet='egrlc'), J('readable', mode='pull'), J('readable', mode='tee', chunks=2, depth=5, cancel=True, both=True)],
  thorough=[J('readable', 8, mode='push', depth=7, alphabet='egrlcxkKz'), J('readable', 8, mode='push', depth=9, alphabet='egrlc'), J('readable', mode='pull'), J('readable', 4, mode='tee', chunks=3, depth=7, cancel=True, both=True)])
PROPS['C31'] = dict(
  quick=[J('text', 2, mode='decode', len=3), J('text', mode='views', len=3), J('text', mode='stream', len=2), J('text', mode='encode', len=3), J('text', mode='labels'), J('text', mode='btoa', len=4), J('text', 4, mode='atob', len=5), J('text', 2, mode='long')],
  thorough=[J('text', 8, mode='decode', len=4), J('text', 8, mode='views', len=4), J('text', mode='stream', len=4), J('text', 8, mode='encode', len=5), J('text', mode='labels'), J('text', 2, mode='btoa', len=5), J('text', 8, mode='atob', len=6), J('text', 2, mode='long')])

def H(model, bound=0, shards=1, hosts=('worker', 'pinned'), **params):
    return [M(model, bound, shards, 2, host=h, **params) for h in hosts]
PROPS['C15'] = dict(
  quick=H('load', 1) + H('load', 1, pre=True) + H('load', 1, 1, ('pinned',), trap=True) + H('term', 1, 2) + H('term', 0, 1, task=True) + H('term', 0, 1, ('pinned',), warm=True) + H('term', 0, 1, nowall=True) + H('term', 0, 1, nocpu=True),
  thorough=H('load', 2, 4) + H('load', 2, 4, pre=True) + H('load', 2, 4, ('pinned',), trap=True) + H('load', 1, 1, nowall=True) + H('load', 1, 1, nocpu=True) + H('term', 2, 8) + H('term', 1, 4, task=True) + H('term', 1, 4, ('pinned',), warm=True) + H('term', 1, 4, nowall=True) + H('term', 1, 4, nocpu=True))
PROPS['C26'] = dict(
  quick=[M('bundle', 0, 2, len=2)] + H('not_a_bundle') + H('precompiled') + H('precompiled', task=True) + H('precompiled', rounds=2) + H('precompiled', what='header', script='classic') + H('precompiled', what='grown', script='module') + H('precompiled', 0, 4, what='cut', script='rejects'),
  thorough=[M('bundle', 0, 8, len=3)] + H('not_a_bundle') + H('precompiled') + H('precompiled', task=True, rounds=2) + H('precompiled', rounds=3) + H('precompiled', 0, 2, what='header') + H('precompiled', 0, 2, what='grown') + H('precompiled', 0, 8, what='cut', script='classic') + H('precompiled', 0, 8, what='cut', script='module'))
PROPS['C14'] = dict(
  quick=H('heap', 1) + H('heap', 1, 1, task=True) + H('heap', 1, 1, ('pinned',), warm=True) + H('heap', 1, 1, load=True) + H('heap', 0, 1, rounds=2) + H('heap', 0, 4, real=True) + H('heap', 0, 4, ('pinned',), real=True, load=True),
  thorough=H('heap', 2, 8) + H('heap', 2, 4, task=True) + H('heap', 2, 4, ('pinned',), warm=True) + H('heap', 2, 4, load=True) + H('heap', 1, 4, rounds=3) + H('heap', 0, 8, real=True) + H('heap', 0, 4, real=True, load=True) + H('heap', 0, 8, ('pinned',), real=True, warm=True, rounds=2))
PROPS['C18'] = dict(
  quick=H('resp') + H('resp', 1, 2, body='text,timed', x='none') + H('resp', warm=True, body='text,timed', x='none'),
  thorough=H('resp', 1, 8) + H('resp', 2, 8, body='text,timed', x='none') + H('resp', 0, 1, warm=True))
PROPS['C19'] = dict(quick=H('stream', 1, 2) + H('stream', 1, 2, buffer=2), thorough=H('stream', 2, 8) + H('stream', 2, 8, buffer=2) + H('stream', 1, 2, buffer=3))
PROPS['C20'] = dict(quick=H('wait') + H('wait', 1, 4, what='resp', max=1), thorough=H('wait', 1, 8) + H('wait', 2, 8, what='resp', max=1))
PROPS['C21'] = dict(quick=H('gone', 1, 2), thorough=H('gone', 2, 8))
PROPS['C37'] = dict(quick=H('forward', 1, 4), thorough=H('forward', 2, 8))
INFEW = dict(body='bytes:a str:a,,bc str:a,b!lost', paced=True)
INMETA = dict(meta=True, body='- bytes:a str:a')
PROPS['C27'] = dict(
  quick=H('incoming', paced=True, rounds=2) + H('incoming', module=True, preempt=True) + H('incoming', 1, 4, **INFEW) + H('incoming', 0, 4, how='text rewrap clone echo fwd fwdclone fwdinit', **INMETA),
  thorough=H('incoming', 1, 8, rounds=2) + H('incoming', 1, 8, paced=True, preempt=True) + H('incoming', 1, 4, module=True) + H('incoming', 2, 8, **INFEW) + H('incoming', 0, 8, **INMETA))
TIMERS = 'T0,T5,T10,I5,I7,T5x,T5t0,T5c1,T10c2,c0,A,M,I5s,I7x,T5o5,T0m5,T10r'
PROPS['C16'] = dict(
  quick=H('delays') + H('timers', 1, 2, alphabet=TIMERS, depth=2) + H('timers', 0, 4, alphabet=TIMERS, depth=3) + H('timers', 0, 1, ('pinned',), alphabet='T0,T5,I5,c0,T5x,I7', depth=2, again=True),
  thorough=H('delays') + H('timers', 2, 8, alphabet=TIMERS, depth=2) + H('timers', 1, 8, alphabet=TIMERS, depth=3) + H('timers', 0, 8, alphabet='T0,T5,I5,T5x,T5c1,c0,A,M,I5s', depth=4))
OPK = 'fetch,sget,kget,db,sfetch'
PROPS['C17'] = dict(
  quick=H('ops', 1, 2, mode='all', max=1) + H('ops', 1, 2, mode='all', max=1, buffer=1) + H('ops', 0, 2, mode='all', max=2, few=True)
   + H('ops', 0, 1, mode='seq', max=1, few=True) + H('ops', 0, 1, mode='timer', max=1, few=True) + H('ops', 0, 1, mode='handler', max=1, few=True)
   + H('ops', 1, 2, ('pinned',), mode='leave', max=1, few=True, kinds=OPK)
   + [x for w in ('fetch', 'assets', 'worker', 'others', 'odd') for x in H('opargs', what=w)] + H('opvals'),
  thorough=H('ops', 2, 8, mode='all', max=1) + H('ops', 1, 8, mode='all', max=2, few=True) + H('ops', 1, 4, mode='seq', max=1)
   + H('ops', 1, 4, mode='timer', max=1) + H('ops', 1, 4, mode='handler', max=1) + H('ops', 1, 8, ('pinned',), mode='leave', max=1, few=True)
   + [x for w in ('fetch', 'assets', 'worker', 'others', 'odd') for x in H('opargs', what=w)] + H('opvals') + H('opvals', buffer=1))
PROPS['C22'] = dict(
  quick=H('leftover') + H('leftover', 1, 2, how='ok,now', kinds='i7,fetch,read,kv,ws,chain') + H('leftover', 0, 2, max=2, how='ok,stream', second=True),
  thorough=H('leftover', 1, 8) + H('leftover', 0, 8, max=2, second=True) + H('leftover', 2, 8, how='ok,now', kinds='i7,fetch,read,kv'))
PROPS['C39'] = dict(
  quick=[J('hostile', 2), J('hostile', 2, fewer=True)] + H('sabotage', 0, 1, set='odd') + H('sabotage', 0, 2, set='extra') + H('sabotage', 0, 6, set='names'),
  thorough=[J('hostile', 2), J('hostile', 2, fewer=True), J('hostile', 8, two=True)] + H('sabotage', 0, 1, set='odd') + H('sabotage', 0, 8, set='extra', leave=True) + H('sabotage', 0, 8, set='names') + H('sabotage', 1, 8, set='extra'))
def P(alphabet, depth, shards=1, bound=0, threads=1, owner=0, cached=2, reuses=3, **p):
    return M('pool', bound, shards, 2, alphabet=alphabet, depth=depth, threads=threads, owner=owner, cached=cached, reuses=reuses, **p)
TENANTS = 'Aw10o,Bw10o,Av10o,Aw20o,Aw11o,Aw10x,Aw90s'
PROPS['C23'] = dict(
  quick=[P(TENANTS, 4, 8), P('Aw10o,Bw10o,Aw20o,Aw10h,Bw10h,f,F', 5, 8, threads=2), P('Aw10o,Av10b,Aw10b,f,d', 4, 2, 1, preempt=True)],
  thorough=[P(TENANTS, 5, 16, threads=2, cached=1), P('Aw10o,Bw10o,Aw20o,Aw11o,Aw10h,Bw10h,f,F', 6, 16, threads=2), P('Aw10o,Av10b,Aw10b,Bw10h,f,d,t', 5, 16, 1, preempt=True)])
REUSE = 'Aw10o,Aw10h,Aw10b,Aw20o,Aw11o,f,t,d,e'
PROPS['C24'] = dict(
  quick=[P(REUSE, 4, 4), P(REUSE, 4, 4, cached=1, reuses=2), P('Aw10o,Aw10x,Aw20o,Aw10h,f', 4, 2, cached=0), P('Aw10o,Aw20o,Aw30o,Av10o', 5, 6), P('Aw10o,Aw20o', 7, 1, reuses=1, cached=1)],
  thorough=[P(REUSE, 5, 16), P(REUSE, 5, 16, cached=1, reuses=2), P(REUSE, 5, 8, cached=0), P('Aw10o,Aw20o,Aw30o,Av10o', 7, 16), P('Aw10o,Aw20o,Aw10h,f,d', 7, 16, reuses=2, cached=1)])
PROPS['C25'] = dict(
  quick=[P('Aw10h,Bw10h,Aw10o,f,F,d', 5, 6), P('Aw10h,Bw10h,Cw10o,f,F,D', 5, 6, threads=2, owner=1), P('Aw10h,Bw10h,f,d,t,e', 5, 6, threads=2, owner=2), P('Aw10h,Aw10b,f,D', 4, 2, 1, threads=1, owner=1, preempt=True)],
  thorough=[P('Aw10h,Bw10h,Aw10o,f,F,d', 7, 16), P('Aw10h,Bw10h,Cw10o,f,F,D', 7, 16, threads=2, owner=1), P('Aw10h,Bw10h,f,d,t,e', 7, 16, threads=2, owner=2), P('Aw10h,Aw10b,Bw10h,f,D', 5, 16, 1, threads=1, owner=1, preempt=True), P('Aw10h,Bw10h,Cw10h,Dw10h,f,F,d', 6, 16, threads=3)])
PROPS['C32'] = dict(
  quick=[J('multimap', 2, mode='ops', kind=k, depth=3) for k in ('headers', 'params', 'form')] + [J('multimap', 3, mode='ops', kind=k, depth=5, names=n) for k, n in (('headers', 'Set-Cookie,a'), ('params', 'a,b'), ('form', 'a,b'))] + [J('multimap', mode='init', kind=k) for k in ('headers', 'params')] + [J('multimap', 2, mode='parse', len=3), J('multimap', 2, mode='serialize', len=2)],
  thorough=[J('multimap', 8, mode='ops', kind=k, depth=4) for k in ('headers', 'params', 'form')] + [J('multimap', 8, mode='ops', kind=k, depth=6, names=n) for k, n in (('headers', 'Set-Cookie,a'), ('params', 'a,b'), ('form', 'a,b'))] + [J('multimap', mode='init', kind=k) for k in ('headers', 'params')] + [J('multimap', 8, mode='parse', len=5, tokens=14), J('multimap', 4, mode='serialize', len=2)])
PROPS['C40'] = dict(
  quick=[J('url', 2, mode='parts', full=True), J('url', 4, mode='relative'), J('url', 4, mode='change', depth=3)],
  thorough=[J('url', 2, mode='parts', full=True), J('url', 4, mode='relative'), J('url', 8, mode='change', depth=4), J('url', 8, mode='change', depth=6, only='pathname,search,href,append,delete,host')])
_tam = dict(tamper=1, kinds=['u8'])
PROPS['C30'] = dict(
  quick=[J('crypto', 2, part='digest'), J('crypto', part='digest', upto=140, kinds=['u8part']), J('crypto', part='unknown'), J('crypto', 3, part='hmac', lens=[0, 55, 128]), J('crypto', part='hmac', keys=[1, 65], lens=[0, 9], **_tam),
         J('crypto', 2, part='pbkdf2', pw=[0, 1, 65], salt=[0, 16, 61], iter=[1, 3], bits=[8, 160, 520]), J('crypto', part='pbkdf2', bits=[0, 4, 12, None, -8], iter=[0, -1, 1.5, '2', None], pw=[3], salt=[3]),
         J('crypto', 2, part='rsa'), J('crypto', part='rsa', tamper=7, kinds=['u8']), J('crypto', 2, part='ecdsa'), J('crypto', 2, part='ecdsa', **_tam), J('crypto', part='confusion'), J('crypto', 2, part='history', depth=4), J('crypto', part='random'), J('crypto', part='refused'), J('crypto', part='quota'), J('crypto', part='uuid')],
  thorough=[J('crypto', 8, part='digest', upto=300), J('crypto', part='unknown'), J('crypto', 8, part='hmac'), J('crypto', 8, part='hmac', keys=[1, 63, 64, 65, 129], lens=[0, 5, 64], **_tam),
         J('crypto', 8, part='pbkdf2'), J('crypto', part='pbkdf2', bits=[0, 4, 12, None, -8], iter=[0, -1, 1.5, '2', None], pw=[3], salt=[3]),
         J('crypto', 4, part='rsa'), J('crypto', 8, part='rsa', **_tam), J('crypto', 4, part='ecdsa'), J('crypto', 8, part='ecdsa', tamper=1, kinds=['u8', 'u8part']), J('crypto', part='confusion'), J('crypto', 8, part='history', depth=6), J('crypto', part='random'), J('crypto', part='refused'), J('crypto', part='quota'), J('crypto', part='uuid')])
TFEW = dict(style='listen,module,module-scheduled', answer='v42,rfail,terror,rthrow,tnoproto')
PROPS['C38'] = dict(
  quick=H('task', 0, 1, when='now') + H('task', unhandled=True) + H('task', given=True, answer='v42', when='now') + H('task', 0, 1, when='op', answer='nothing,v42,rok,terror', rounds=2) + H('task', 1, 4, work=1, **TFEW),
  thorough=H('task', 1, 4) + H('task', 1, unhandled=True) + H('task', 0, 2, given=True, answer='v42,rok') + H('task', 1, 4, rounds=2, answer='nothing,v42,rok,terror') + H('task', 1, 16, work=1) + H('task', 2, 16, work=2, style='listen,module', answer='v42,rfail,terror,rthrow', when='now,op'))
PROPS['C28'] = dict(
  quick=H('envs', vars=1, bindings=0, attacks=0) + H('envs', vars=0, bindings=1, attacks=0) + H('envs', 0, 4, vars=1, names=3, values=1, bindings=1),
  thorough=H('envs', 0, 2, vars=1, bindings=0, attacks=1) + H('envs', 0, 2, vars=0, bindings=1, attacks=1) + H('envs', 0, 8, vars=2, bindings=2, names=3, values=1, attacks=0) + H('envs', 0, 16, vars=1, names=3, values=1, bindings=1, attacks=2))
PROPS['C34'] = dict(
  quick=[J('clone', depth=1, views=True, bad=True), J('clone', depth=2, views=True), J('clone', 2, depth=2, wide=True, leaves='8,16,9', bad=True), J('clone', depth=3, leaves='8')],
  thorough=[J('clone', depth=2, views=True, bad=True), J('clone', 8, depth=2, wide=True, views=True, leaves='8'), J('clone', 8, depth=4, leaves='8'), J('clone', 8, depth=2, wide=True, leaves='8,16,9,2', bad=True)])
PROPS['C35'] = dict(
  quick=[J('abort', 4, depth=4)] + H('timers', 1, 2, alphabet='S0,S5,S10,T5,A', depth=2),
  thorough=[J('abort', 8, depth=5)] + H('timers', 1, 4, alphabet='S0,S5,S10,T5,A,M', depth=3))
PROPS['C36'] = dict(
  quick=[J('body', 2, mode='kinds'), J('body', mode='nothing'), J('body', 2, mode='streams', chunks=3), J('body', 2, mode='blobs', parts=3), J('body', 2, mode='forms', fields=3), J('body', mode='urlencoded', fields=2), J('body', mode='meta')],
  thorough=[J('body', 2, mode='kinds'), J('body', mode='nothing'), J('body', 8, mode='streams', chunks=4), J('body', 8, mode='blobs', parts=4), J('body', 8, mode='forms', fields=4), J('body', 4, mode='urlencoded', fields=3), J('body', mode='meta')])
def X(bound=0, shards=1, hosts=('', 'mux'), **p): return [M('multi', bound, shards, 2, **(dict(_harness=h) if h else {}), **p) for h in hosts]
SERVE = dict(first='op,stream,bg', second='op,timer,piped')
HOG = dict(first='spins,op,spin', second='spins,op,stream')
PROPS['C41'] = dict(
  quick=X(same=True) + X(hosts=('mux',), warm=True) + X(1, 2, ('mux',), same=True, **SERVE) + X(1, 2, ('mux',), leave=True, **SERVE) + X(1, 2, ('mux',), drop=True, same=True, **SERVE)
    + X(0, 2, wall=True, **HOG) + X(0, 2, cpu=True, **HOG) + X(0, 1, ('mux',), first='memory', second='op,stream,bg,timer'),
  thorough=X(1, 8, same=True) + X(1, 8, warm=True) + X(1, 8, leave=True) + X(1, 8, drop=True, same=True) + X(1, 8, wall=True, **HOG) + X(1, 8, cpu=True, **HOG) + X(1, 4, first='memory')
    + X(0, 8, n=3) + X(0, 4, ('mux',), n=3, per=2, same=True) + X(2, 16, ('mux',), same=True, **SERVE))
PROPS['C29'] = dict(
  quick=H('ws', 0, 3) + H('ws', 1, 2, ('worker',), preempt=True, how='new', style='on', when='later') + H('ws', 1, 2, ('pinned',), preempt=True, how='fetch', style='listen', when='message') + H('ws', 0, 1, rounds=2, style='on', when='now'),
  thorough=H('ws', 1, 16, preempt=True) + H('ws', 0, 8, rounds=2) + H('ws', 2, 8, preempt=True, how='new', style='on', when='message', act='nothing,sendclose,text', peer='two,closes,drops'))
PROPS['C42'] = dict(
  quick=H('console', 0, 1, mode='value') + H('console', 0, 2, mode='order') + H('console', 1, 1, mode='end') + H('console', 0, 1, ('worker',), mode='args', args=2),
  thorough=H('console', 0, 1, mode='value') + H('console', 1, 8, mode='order', preempt=True) + H('console', 0, 8, mode='order', calls=4) + H('console', 2, 4, mode='end', preempt=True) + H('console', 0, 8, mode='args', args=3))
