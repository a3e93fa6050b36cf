//! JavaScript drivers: run inside the runtime's own context, with the explorer's
//! primitives as natives (mc.choose, mc.fail, ...).
use openworkers_runtime_v8 as rt;
use std::cell::RefCell;
use std::pin::pin;

fn arg_str(scope: &mut v8::PinScope, v: v8::Local<v8::Value>) -> String {
    v.to_string(scope).map(|s| s.to_rust_string_lossy(scope)).unwrap_or_default()
}
fn n_choose(scope: &mut v8::PinScope, a: v8::FunctionCallbackArguments, mut rv: v8::ReturnValue) {
    let n = a.get(0).uint32_value(scope).unwrap_or(1).max(1) as usize;
    rv.set(v8::Number::new(scope, mc::free(n, "js") as f64).into());
}
fn n_foreign(scope: &mut v8::PinScope, _a: v8::FunctionCallbackArguments, mut rv: v8::ReturnValue) {
    rv.set(v8::Boolean::new(scope, mc::foreign()).into());
}
fn n_fail(scope: &mut v8::PinScope, a: v8::FunctionCallbackArguments, _rv: v8::ReturnValue) {
    let s = arg_str(scope, a.get(0));
    let m = arg_str(scope, a.get(1));
    mc::violation(&s, m);
}
fn n_event(scope: &mut v8::PinScope, a: v8::FunctionCallbackArguments, _rv: v8::ReturnValue) {
    mc::event(arg_str(scope, a.get(0)));
}
fn n_outcome(scope: &mut v8::PinScope, a: v8::FunctionCallbackArguments, _rv: v8::ReturnValue) {
    mc::outcome(arg_str(scope, a.get(0)));
}
const PRELUDE: &str = include_str!("../js/prelude.js");

pub fn install(isolate: &mut v8::Isolate, context: &v8::Global<v8::Context>) {
    let scope = pin!(v8::HandleScope::new(isolate));
    let mut scope = scope.init();
    let ctx = v8::Local::new(&scope, context);
    let scope = &mut v8::ContextScope::new(&mut scope, ctx);
    let g = ctx.global(scope);
    macro_rules! reg {
        ($n:expr, $f:ident) => {
            let f = v8::Function::new(scope, $f).unwrap();
            let k = v8::String::new(scope, $n).unwrap();
            g.set(scope, k.into(), f.into());
        };
    }
    reg!("__mc_choose", n_choose);
    reg!("__mc_foreign", n_foreign);
    reg!("__mc_fail", n_fail);
    reg!("__mc_event", n_event);
    reg!("__mc_outcome", n_outcome);
}
pub fn get_num(isolate: &mut v8::Isolate, context: &v8::Global<v8::Context>, name: &str) -> f64 {
    let scope = pin!(v8::HandleScope::new(isolate));
    let mut scope = scope.init();
    let ctx = v8::Local::new(&scope, context);
    let scope = &mut v8::ContextScope::new(&mut scope, ctx);
    let g = ctx.global(scope);
    let k = v8::String::new(scope, name).unwrap();
    g.get(scope, k.into()).and_then(|v| v.number_value(scope)).unwrap_or(f64::NAN)
}
pub fn eval(r: &mut rt::Runtime, code: &str) {
    if let Err(e) = r.evaluate(&openworkers_core::WorkerCode::JavaScript(code.to_string())) {
        mc::violation("script", format!("a driver script failed: {e}"));
    }
}

struct Held {
    key: String,
    rt: rt::Runtime,
    uses: u32,
    _keep: Box<dyn std::any::Any>,
}
thread_local! { static HELD: RefCell<Option<Held>> = const { RefCell::new(None) }; }

/// Run `mcRun()` of a driver once, in a context of the runtime that this process
/// keeps (drivers leave nothing behind in it); everything must settle within microtasks.
pub fn run_pure(key: &str, code: &str, params: &serde_json::Value, renew: u32) {
    HELD.with(|h| {
        let mut h = h.borrow_mut();
        if h.as_ref().is_some_and(|x| x.key != key || x.uses >= renew) {
            *h = None;
        }
        let x = h.get_or_insert_with(|| {
            mc::off(|| {
                let limits = openworkers_core::RuntimeLimits { max_cpu_time_ms: 0, max_wall_clock_time_ms: 0, ..Default::default() };
                let (mut r, srx, ctx, notify) = rt::Runtime::new(Some(limits), std::sync::Arc::new(|_l, m: String| mc::event(format!("console: {m}"))));
                install(&mut r.isolate, &r.context);
                eval(&mut r, PRELUDE);
                eval(&mut r, &format!("globalThis.params = {params};"));
                eval(&mut r, code);
                Held { key: key.to_string(), rt: r, uses: 0, _keep: Box::new((srx, ctx, notify)) }
            })
        });
        x.uses += 1;
        eval(&mut x.rt, "__mcStart()");
        for _ in 0..3 {
            x.rt.pump_and_checkpoint();
            if get_num(&mut x.rt.isolate, &x.rt.context, "__mcDone") != 0.0 {
                return;
            }
        }
        mc::violation("stalled", "a promise of the driver never settles".to_string());
        *h = None;
    });
}
