//! `std::sync::mpsc` over the instrumented Mutex/Condvar.
pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use super::{Condvar, Mutex};
use ::std::collections::VecDeque;
use ::std::sync::Arc;
use ::std::time::Duration;

struct Q<T> {
    q: VecDeque<T>,
    senders: usize,
    rx: bool,
    cap: Option<usize>,
}
struct Sh<T> {
    m: Mutex<Q<T>>,
    cv: Condvar,
}
pub struct Sender<T>(Arc<Sh<T>>);
pub struct SyncSender<T>(Arc<Sh<T>>);
pub struct Receiver<T>(Arc<Sh<T>>);

fn mk<T>(cap: Option<usize>) -> Arc<Sh<T>> {
    Arc::new(Sh { m: Mutex::new(Q { q: VecDeque::new(), senders: 1, rx: true, cap }), cv: Condvar::new() })
}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let s = mk(None);
    (Sender(s.clone()), Receiver(s))
}
/// Rendezvous channels (bound 0) are treated as bound 1.
pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
    let s = mk(Some(n.max(1)));
    (SyncSender(s.clone()), Receiver(s))
}
macro_rules! sender {
    ($s:ident) => {
        impl<T> Clone for $s<T> {
            fn clone(&self) -> Self {
                self.0.m.lock().unwrap().senders += 1;
                $s(self.0.clone())
            }
        }
        impl<T> Drop for $s<T> {
            fn drop(&mut self) {
                let mut g = self.0.m.lock().unwrap_or_else(|e| e.into_inner());
                g.senders -= 1;
                let z = g.senders == 0;
                drop(g);
                if z {
                    self.0.cv.notify_all();
                }
            }
        }
        impl<T> $s<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                let mut g = self.0.m.lock().unwrap();
                loop {
                    if !g.rx {
                        return Err(SendError(t));
                    }
                    if g.cap.map_or(true, |c| g.q.len() < c) {
                        break;
                    }
                    g = self.0.cv.wait(g).unwrap();
                }
                g.q.push_back(t);
                drop(g);
                self.0.cv.notify_all();
                Ok(())
            }
        }
    };
}
sender!(Sender);
sender!(SyncSender);
impl<T> SyncSender<T> {
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        let mut g = self.0.m.lock().unwrap();
        if !g.rx {
            return Err(TrySendError::Disconnected(t));
        }
        if g.cap.map_or(false, |c| g.q.len() >= c) {
            return Err(TrySendError::Full(t));
        }
        g.q.push_back(t);
        drop(g);
        self.0.cv.notify_all();
        Ok(())
    }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        let mut g = self.0.m.lock().unwrap();
        loop {
            if let Some(t) = g.q.pop_front() {
                drop(g);
                self.0.cv.notify_all();
                return Ok(t);
            }
            if g.senders == 0 {
                return Err(RecvError);
            }
            g = self.0.cv.wait(g).unwrap();
        }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let mut g = self.0.m.lock().unwrap();
        if let Some(t) = g.q.pop_front() {
            drop(g);
            self.0.cv.notify_all();
            return Ok(t);
        }
        Err(if g.senders == 0 { TryRecvError::Disconnected } else { TryRecvError::Empty })
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        let g = self.0.m.lock().unwrap();
        let (mut g, r) = self
            .0
            .cv
            .wait_timeout_while(g, d, |q| q.q.is_empty() && q.senders > 0)
            .unwrap();
        if let Some(t) = g.q.pop_front() {
            drop(g);
            self.0.cv.notify_all();
            return Ok(t);
        }
        if g.senders == 0 {
            return Err(RecvTimeoutError::Disconnected);
        }
        let _ = r;
        Err(RecvTimeoutError::Timeout)
    }
    pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
        ::std::iter::from_fn(|| self.recv().ok())
    }
    pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
        ::std::iter::from_fn(|| self.try_recv().ok())
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let mut g = self.0.m.lock().unwrap_or_else(|e| e.into_inner());
        g.rx = false;
        g.q.clear();
        drop(g);
        self.0.cv.notify_all();
    }
}
