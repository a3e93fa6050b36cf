use crate::ModelFn;
mod cpu;
mod jsapi;
mod sec;
mod streams;
mod heap;
mod term;
mod cache;
mod incoming;
mod timers;
mod ops;
mod resp;
mod leftover;
mod pool;
mod sabotage;
mod envs;
mod multi;
mod ws;
mod console;
mod task;
mod wk;
pub fn all() -> Vec<(&'static str, ModelFn)> {
    let mut v: Vec<(&'static str, ModelFn)> = vec![];
    v.extend(streams::models());
    v.extend(sec::models());
    v.extend(cpu::models());
    v.extend(jsapi::models());
    v.extend(wk::models());
    v.extend(term::models());
    v.extend(cache::models());
    v.extend(incoming::models());
    v.extend(heap::models());
    v.extend(resp::models());
    v.extend(ops::models());
    v.extend(timers::models());
    v.extend(sabotage::models());
    v.extend(leftover::models());
    v.extend(pool::models());
    v.extend(envs::models());
    v.extend(multi::models());
    v.extend(ws::models());
    v.extend(console::models());
    v.extend(task::models());
    v
}
