//! All model-checking drivers. Loaded into node (whose binary carries V8) and run
//! on a std thread; MC_JOB describes the model, the bounds and where to report.
#![allow(clippy::all)]
pub mod env;
pub mod js;
pub mod shim;
pub mod util;
mod models;

use std::ffi::c_void;
use std::time::Duration;

pub type ModelFn = fn(&Params);
#[derive(Clone, Debug)]
pub struct Params(pub serde_json::Value);
impl Params {
    pub fn u(&self, k: &str, d: usize) -> usize {
        self.0.get(k).and_then(|v| v.as_u64()).map(|v| v as usize).unwrap_or(d)
    }
    pub fn s(&self, k: &str) -> String {
        self.0.get(k).and_then(|v| v.as_str()).unwrap_or("").to_string()
    }
    pub fn b(&self, k: &str) -> bool {
        self.0.get(k).and_then(|v| v.as_bool()).unwrap_or(false)
    }
}

fn main_thread() {
    let mut spec = std::env::var("MC_JOB").expect("MC_JOB");
    if let Some(f) = spec.strip_prefix('@') {
        spec = std::fs::read_to_string(f).expect("MC_JOB file");
    }
    let job: serde_json::Value = serde_json::from_str(&spec).expect("MC_JOB json");
    let name = job["model"].as_str().unwrap().to_string();
    let p = Params(job["params"].clone());
    let f = models::all().into_iter().find(|(n, _)| *n == name).unwrap_or_else(|| panic!("no model {name}")).1;
    let cfg = mc::Config {
        name: name.clone(),
        bound: job["bound"].as_u64().unwrap_or(0) as u32,
        shard: job["shard"].as_array().map(|a| (a[0].as_u64().unwrap() as u32, a[1].as_u64().unwrap() as u32, a[2].as_u64().unwrap() as u32)),
        time_cap: Duration::from_secs(job["time_cap"].as_u64().unwrap_or(600)),
        max_execs: job["max_execs"].as_u64().unwrap_or(u64::MAX),
        exec_limit: Duration::from_secs(job["exec_limit"].as_u64().unwrap_or(30)),
        known: job["known"].as_array().map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default(),
        result_path: job["result"].as_str().map(|s| s.to_string()),
        replay: job["replay"].as_array().map(|a| a.iter().map(|v| v.as_u64().unwrap() as u32).collect()),
    };
    if let Some(l) = job["plog"].as_str() {
        mc::set_prefix_log(l);
    }
    env::install_hooks();
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        mc::event(format!("panic: {m}"));
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{m}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
    let r = mc::explore(cfg, || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&p)));
        if let Err(e) = r {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into());
            mc::violation("panic", format!("the code under test panicked: {m}"));
        }
    });
    let code = match r {
        Ok(st) => {
            if job["print"].as_bool().unwrap_or(false) {
                eprintln!(
                    "{name}: execs {} nodes {} steps {} depth {} outcomes {} bound {} capped {} wall {:.2}",
                    st.execs, st.nodes, st.steps, st.max_depth, st.outcomes.len(), st.completed_bound, st.capped, st.wall
                );
                for s in &st.samples {
                    eprintln!("  sample {s}");
                }
                eprintln!("  labels {:?} known {:?}", st.labels, st.known_hits);
            }
            0
        }
        Err((s, m)) => {
            eprintln!("VIOLATION-FOUND {s}: {m}");
            1
        }
    };
    unsafe { libc::_exit(code) }
}

unsafe extern "C" {
    fn shim_init_platform();
}

#[unsafe(no_mangle)]
pub extern "C" fn napi_register_module_v1(_env: *mut c_void, exports: *mut c_void) -> *mut c_void {
    unsafe {
        shim_init_platform();
    }
    let r = std::thread::Builder::new().stack_size(64 << 20).spawn(main_thread).unwrap().join();
    if r.is_err() {
        eprintln!("ENGINE-ERROR: harness thread panicked");
        unsafe { libc::_exit(3) }
    }
    exports
}
