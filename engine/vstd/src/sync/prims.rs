use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::sync as real;
use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
use ::std::time::Duration;
use mc::sched;

fn addr<T: ?Sized>(t: &T) -> usize {
    t as *const T as *const () as usize
}

#[derive(Default)]
pub struct Mutex<T: ?Sized> {
    inner: real::Mutex<T>,
}
pub struct MutexGuard<'a, T: ?Sized> {
    g: Option<real::MutexGuard<'a, T>>,
    m: &'a Mutex<T>,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { inner: real::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn acquire(&self) -> LockResult<MutexGuard<'_, T>> {
        if sched::controlled() {
            loop {
                match self.inner.try_lock() {
                    Ok(g) => return Ok(MutexGuard { g: Some(g), m: self }),
                    Err(TryLockError::Poisoned(p)) => {
                        return Err(PoisonError::new(MutexGuard { g: Some(p.into_inner()), m: self }))
                    }
                    Err(TryLockError::WouldBlock) => {
                        sched::block(addr(self), None, "mutex");
                    }
                }
            }
        }
        match self.inner.lock() {
            Ok(g) => Ok(MutexGuard { g: Some(g), m: self }),
            Err(p) => Err(PoisonError::new(MutexGuard { g: Some(p.into_inner()), m: self })),
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        sched::point("lock");
        self.acquire()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        sched::point("try_lock");
        match self.inner.try_lock() {
            Ok(g) => Ok(MutexGuard { g: Some(g), m: self }),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(p)) => {
                Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { g: Some(p.into_inner()), m: self })))
            }
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.deref().fmt(f)
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if self.g.take().is_some() {
            sched::wake_all(addr(self.m));
        }
    }
}

// ------------------------------------------------------------------ RwLock
#[derive(Default)]
pub struct RwLock<T: ?Sized> {
    inner: real::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    g: Option<real::RwLockReadGuard<'a, T>>,
    a: usize,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    g: Option<real::RwLockWriteGuard<'a, T>>,
    a: usize,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { inner: real::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
macro_rules! rw {
    ($real:ident, $try:ident, $guard:ident, $name:literal) => {
        pub fn $real(&self) -> LockResult<$guard<'_, T>> {
            sched::point($name);
            let a = addr(self);
            if sched::controlled() {
                loop {
                    match self.inner.$try() {
                        Ok(g) => return Ok($guard { g: Some(g), a }),
                        Err(TryLockError::Poisoned(p)) => {
                            return Err(PoisonError::new($guard { g: Some(p.into_inner()), a }))
                        }
                        Err(TryLockError::WouldBlock) => {
                            sched::block(a, None, $name);
                        }
                    }
                }
            }
            match self.inner.$real() {
                Ok(g) => Ok($guard { g: Some(g), a }),
                Err(p) => Err(PoisonError::new($guard { g: Some(p.into_inner()), a })),
            }
        }
        pub fn $try(&self) -> TryLockResult<$guard<'_, T>> {
            sched::point($name);
            let a = addr(self);
            match self.inner.$try() {
                Ok(g) => Ok($guard { g: Some(g), a }),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                Err(TryLockError::Poisoned(p)) => {
                    Err(TryLockError::Poisoned(PoisonError::new($guard { g: Some(p.into_inner()), a })))
                }
            }
        }
    };
}
impl<T: ?Sized> RwLock<T> {
    rw!(read, try_read, RwLockReadGuard, "rwlock.read");
    rw!(write, try_write, RwLockWriteGuard, "rwlock.write");
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.g.take();
        sched::wake_all(self.a);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.g.take();
        sched::wake_all(self.a);
    }
}

// ------------------------------------------------------------------ Condvar
#[derive(Default, Debug)]
pub struct Condvar {
    inner: real::Condvar,
    _pad: u8, // non-zero address space of its own
}
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { inner: real::Condvar::new(), _pad: 0 }
    }
    fn id(&self) -> usize {
        addr(self)
    }
    pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = g.m;
        if sched::controlled() {
            drop(g);
            sched::block(self.id(), None, "condvar");
            return m.acquire();
        }
        let rg = g.g.take().unwrap();
        match self.inner.wait(rg) {
            Ok(g) => Ok(MutexGuard { g: Some(g), m }),
            Err(p) => Err(PoisonError::new(MutexGuard { g: Some(p.into_inner()), m })),
        }
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut c: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let m = g.m;
        if sched::controlled() {
            drop(g);
            let to = sched::block(self.id(), Some(d.as_nanos().min(u64::MAX as u128) as u64), "condvar");
            return match m.acquire() {
                Ok(g) => Ok((g, WaitTimeoutResult(to))),
                Err(p) => Err(PoisonError::new((p.into_inner(), WaitTimeoutResult(to)))),
            };
        }
        if sched::clock::begin(d) {
            let mut rg = g.g.take().unwrap();
            loop {
                let (g, r) = self.inner.wait_timeout(rg, Duration::from_micros(500)).unwrap_or_else(|e| e.into_inner());
                rg = g;
                let to = sched::clock::expired();
                if !r.timed_out() || to {
                    sched::clock::end();
                    return Ok((MutexGuard { g: Some(rg), m }, WaitTimeoutResult(to)));
                }
            }
        }
        let rg = g.g.take().unwrap();
        match self.inner.wait_timeout(rg, d) {
            Ok((g, r)) => Ok((MutexGuard { g: Some(g), m }, WaitTimeoutResult(r.timed_out()))),
            Err(p) => {
                let (g, r) = p.into_inner();
                Err(PoisonError::new((MutexGuard { g: Some(g), m }, WaitTimeoutResult(r.timed_out()))))
            }
        }
    }
    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
        mut c: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        if sched::controlled() {
            let end = sched::now_ns().saturating_add(d.as_nanos().min(u64::MAX as u128) as u64);
            loop {
                if !c(&mut *g) {
                    return Ok((g, WaitTimeoutResult(false)));
                }
                let now = sched::now_ns();
                if now >= end {
                    return Ok((g, WaitTimeoutResult(true)));
                }
                g = match self.wait_timeout(g, Duration::from_nanos(end - now)) {
                    Ok((g, _)) => g,
                    Err(p) => return Err(p),
                };
            }
        }
        if sched::clock::begin(d) {
            let m = g.m;
            loop {
                let to = sched::clock::expired();
                if !c(&mut *g) || to {
                    sched::clock::end();
                    return Ok((g, WaitTimeoutResult(to)));
                }
                let (rg, _) = self.inner.wait_timeout(g.g.take().unwrap(), Duration::from_micros(500)).unwrap_or_else(|e| e.into_inner());
                g = MutexGuard { g: Some(rg), m };
            }
        }
        let start = ::std::time::Instant::now();
        loop {
            if !c(&mut *g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            let left = match d.checked_sub(start.elapsed()) {
                Some(l) => l,
                None => return Ok((g, WaitTimeoutResult(true))),
            };
            g = match self.wait_timeout(g, left) {
                Ok((g, _)) => g,
                Err(p) => return Err(p),
            };
        }
    }
    pub fn notify_one(&self) {
        sched::point("notify_one");
        sched::wake_one(self.id());
        self.inner.notify_one()
    }
    pub fn notify_all(&self) {
        sched::point("notify_all");
        sched::wake_all(self.id());
        self.inner.notify_all()
    }
}
