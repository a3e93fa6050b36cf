//! Access to the recording hooks of the V8 shim.
use std::ffi::c_void;
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Rec {
    pub kind: i64,
    pub p: *mut c_void,
    pub v: i64,
    pub tid: i64,
}
unsafe impl Send for Rec {}
pub const RESET: i64 = 1;
pub const ADJUST: i64 = 2;
pub const TERMINATE: i64 = 3;
pub const CANCEL_TERMINATE: i64 = 4;
unsafe extern "C" {
    fn shim_log_start(watch: *mut c_void, no_terminate: bool);
    fn shim_log_stop();
    fn shim_log_take(out: *mut Rec, cap: usize) -> usize;
    pub fn shim_allocator_allocate(a: *mut c_void, n: usize) -> *mut u8;
    pub fn shim_allocator_allocate_uninit(a: *mut c_void, n: usize) -> *mut u8;
    pub fn shim_allocator_free(a: *mut c_void, p: *mut u8, n: usize);
    pub fn shim_allocator_delete(a: *mut c_void);
}
pub fn log_start(watch: *mut c_void, no_terminate: bool) {
    unsafe { shim_log_start(watch, no_terminate) }
}
pub fn log_stop() {
    unsafe { shim_log_stop() }
}
pub fn log_take() -> Vec<Rec> {
    let mut v = Vec::new();
    loop {
        let mut b = [Rec { kind: 0, p: std::ptr::null_mut(), v: 0, tid: 0 }; 64];
        let n = unsafe { shim_log_take(b.as_mut_ptr(), 64) };
        v.extend_from_slice(&b[..n]);
        if n < 64 {
            return v;
        }
    }
}
unsafe extern "C" {
    #[link_name = "__real_v8__Isolate__TerminateExecution"]
    fn real_terminate(i: *mut c_void);
}
/// The signal thread may be held up just before it terminates an isolate.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __wrap_v8__Isolate__TerminateExecution(i: *mut c_void) {
    // (a gate for foreign threads, a scheduling point for controlled ones)
    mc::sched::point("terminate");
    unsafe { real_terminate(i) }
}
// --- isolates are numbered in the order they are created
static ISOLATES: std::sync::Mutex<(usize, Vec<(usize, usize)>)> = std::sync::Mutex::new((0, vec![]));
unsafe extern "C" {
    #[link_name = "__real_v8__Isolate__New"]
    fn real_isolate_new(p: *mut c_void) -> *mut c_void;
    fn v8__Isolate__GetCurrent() -> *mut c_void;
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __wrap_v8__Isolate__New(p: *mut c_void) -> *mut c_void {
    let i = unsafe { real_isolate_new(p) };
    let mut v = ISOLATES.lock().unwrap();
    let n = v.0;
    v.0 += 1;
    v.1.retain(|x| x.0 != i as usize);
    HEAPS.lock().unwrap().retain(|h| h.isolate != i as usize);
    v.1.push((i as usize, n));
    i
}
pub fn new_isolate_numbers() {
    *ISOLATES.lock().unwrap() = (0, vec![]);
}
// --- what an isolate does when its heap is nearly full; the explorer decides that it is
struct Heap {
    isolate: usize,
    cb: usize,
    data: usize,
    limit: usize,
}
const HEAP0: usize = 16 << 20;
static HEAPS: std::sync::Mutex<Vec<Heap>> = std::sync::Mutex::new(vec![]);
unsafe extern "C" {
    #[link_name = "__real_v8__Isolate__AddNearHeapLimitCallback"]
    fn real_add_heap(i: *mut c_void, cb: usize, data: usize);
    #[link_name = "__real_v8__Isolate__RemoveNearHeapLimitCallback"]
    fn real_remove_heap(i: *mut c_void, cb: usize, limit: usize);
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __wrap_v8__Isolate__AddNearHeapLimitCallback(i: *mut c_void, cb: usize, data: usize) {
    unsafe { real_add_heap(i, cb, data) };
    let mut h = HEAPS.lock().unwrap();
    match h.iter_mut().find(|h| h.isolate == i as usize) {
        // (the limit is what it was, unless this is a new isolate)
        Some(x) if x.cb == 0 => (x.cb, x.data) = (cb, data),
        Some(x) => *x = Heap { isolate: i as usize, cb, data, limit: HEAP0 },
        None => h.push(Heap { isolate: i as usize, cb, data, limit: HEAP0 }),
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __wrap_v8__Isolate__RemoveNearHeapLimitCallback(i: *mut c_void, cb: usize, limit: usize) {
    unsafe { real_remove_heap(i, cb, limit) };
    if let Some(x) = HEAPS.lock().unwrap().iter_mut().find(|h| h.isolate == i as usize) {
        x.cb = 0;
        if limit > 0 {
            x.limit = x.limit.min(limit.max(HEAP0 / 16));
        }
    }
}
/// the heap of the isolate this thread is in can be said to be full
pub fn has_heap() -> bool {
    let p = unsafe { v8__Isolate__GetCurrent() } as usize;
    p != 0 && HEAPS.lock().unwrap().iter().any(|h| h.isolate == p && h.cb != 0)
}
/// its heap limit: (at first, now)
pub fn heap_limit() -> (usize, usize) {
    let p = unsafe { v8__Isolate__GetCurrent() } as usize;
    (HEAP0, HEAPS.lock().unwrap().iter().find(|h| h.isolate == p).map(|h| h.limit).unwrap_or(HEAP0))
}
/// The heap of the isolate this thread is in is nearly full. Says how much room V8 is given.
pub fn fill_heap() -> isize {
    let p = unsafe { v8__Isolate__GetCurrent() } as usize;
    let (cb, data, limit) = HEAPS.lock().unwrap().iter().find(|h| h.isolate == p).map(|h| (h.cb, h.data, h.limit)).unwrap();
    let f: unsafe extern "C" fn(usize, usize, usize) -> usize = unsafe { std::mem::transmute(cb) };
    let new = unsafe { f(data, limit, HEAP0) };
    if let Some(x) = HEAPS.lock().unwrap().iter_mut().find(|h| h.isolate == p) {
        x.limit = x.limit.max(new);
    }
    new as isize - limit as isize
}
/// the number of the isolate this thread is in
pub fn current_isolate() -> usize {
    let p = unsafe { v8__Isolate__GetCurrent() } as usize;
    ISOLATES.lock().unwrap().1.iter().find(|x| x.0 == p).map(|x| x.1).unwrap_or(usize::MAX)
}
