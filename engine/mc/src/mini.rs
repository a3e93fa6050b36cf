//! A minimal executor whose poll order is decided by the explorer: among the
//! woken tasks, any may be polled next (free choice), tasks can be dropped
//! (cancelled) mid-way, and it stops when nothing is woken.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub struct Flag(pub AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}
struct Task<'a> {
    fut: Option<Pin<Box<dyn Future<Output = ()> + 'a>>>,
    flag: Arc<Flag>,
    pub name: String,
}
#[derive(Default)]
pub struct Mini<'a> {
    tasks: Vec<Task<'a>>,
    /// extra spurious polls (of un-woken tasks) allowed, each a deviation
    pub spurious: bool,
    pub polls: u64,
}
impl<'a> Mini<'a> {
    pub fn new() -> Self {
        Mini { tasks: vec![], spurious: false, polls: 0 }
    }
    pub fn spawn(&mut self, name: impl Into<String>, f: impl Future<Output = ()> + 'a) -> usize {
        self.tasks.push(Task { fut: Some(Box::pin(f)), flag: Arc::new(Flag(AtomicBool::new(true))), name: name.into() });
        self.tasks.len() - 1
    }
    pub fn woken(&self) -> Vec<usize> {
        (0..self.tasks.len()).filter(|i| self.tasks[*i].fut.is_some() && self.tasks[*i].flag.0.load(Ordering::SeqCst)).collect()
    }
    pub fn live(&self) -> Vec<usize> {
        (0..self.tasks.len()).filter(|i| self.tasks[*i].fut.is_some()).collect()
    }
    pub fn name(&self, i: usize) -> &str {
        &self.tasks[i].name
    }
    pub fn is_done(&self, i: usize) -> bool {
        self.tasks[i].fut.is_none()
    }
    pub fn poll(&mut self, i: usize) -> bool {
        let t = &mut self.tasks[i];
        let Some(f) = t.fut.as_mut() else { return true };
        t.flag.0.store(false, Ordering::SeqCst);
        let w = Waker::from(t.flag.clone());
        let mut cx = Context::from_waker(&w);
        self.polls += 1;
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(()) => {
                t.fut = None;
                true
            }
            Poll::Pending => false,
        }
    }
    pub fn cancel(&mut self, i: usize) {
        self.tasks[i].fut = None;
    }
    /// Run until no task is woken; poll order is a free choice.
    pub fn run(&mut self) {
        let mut steps = 0;
        loop {
            let w = self.woken();
            if w.is_empty() {
                return;
            }
            let c = crate::free(w.len(), "poll");
            self.poll(w[c]);
            steps += 1;
            if steps > 100_000 {
                crate::fatal("livelock", "tasks never become quiescent".into());
            }
        }
    }
    /// One step; returns false when quiescent.
    pub fn step(&mut self) -> bool {
        let w = self.woken();
        if w.is_empty() {
            return false;
        }
        let c = crate::free(w.len(), "poll");
        self.poll(w[c]);
        true
    }
}
