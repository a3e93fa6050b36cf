pub use ::std::thread::*;
use ::std::io;
use ::std::time::Duration;
use mc::sched;

pub struct JoinHandle<T> {
    h: ::std::thread::JoinHandle<T>,
    tid: Option<usize>,
}
impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        if let Some(t) = self.tid {
            if sched::controlled() {
                sched::join(t);
            }
        }
        self.h.join()
    }
    pub fn thread(&self) -> &Thread {
        self.h.thread()
    }
    pub fn is_finished(&self) -> bool {
        match self.tid {
            Some(t) if sched::controlled() => {
                sched::point("is_finished");
                sched::finished(t)
            }
            _ => self.h.is_finished(),
        }
    }
}
pub struct Builder {
    b: ::std::thread::Builder,
    name: Option<String>,
}
impl Default for Builder {
    fn default() -> Self {
        Self::new()
    }
}
impl Builder {
    pub fn new() -> Self {
        Builder { b: ::std::thread::Builder::new(), name: None }
    }
    pub fn name(mut self, n: String) -> Self {
        self.name = Some(n);
        self
    }
    pub fn stack_size(mut self, n: usize) -> Self {
        self.b = self.b.stack_size(n);
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        if sched::controlled() {
            let (tid, h) = sched::spawn(self.name, f);
            sched::point("spawn");
            return Ok(JoinHandle { h, tid: Some(tid) });
        }
        let b = match self.name {
            Some(n) => self.b.name(n),
            None => self.b,
        };
        if let Some(id) = sched::clock::spawning() {
            struct End(usize);
            impl Drop for End {
                fn drop(&mut self) {
                    sched::clock::leave(self.0)
                }
            }
            let h = b.spawn(move || {
                let _end = End(id);
                sched::clock::enter(id);
                f()
            })?;
            sched::clock::spawned(id);
            return Ok(JoinHandle { h, tid: None });
        }
        b.spawn(f).map(|h| JoinHandle { h, tid: None })
    }
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}
pub fn sleep(d: Duration) {
    if sched::controlled() {
        sched::sleep(d.as_nanos().min(u64::MAX as u128) as u64)
    } else {
        ::std::thread::sleep(d)
    }
}
pub fn yield_now() {
    if sched::controlled() {
        sched::point("yield")
    } else {
        ::std::thread::yield_now()
    }
}
