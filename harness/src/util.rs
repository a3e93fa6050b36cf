use bytes::Bytes;
pub fn b(s: &str) -> Bytes {
    Bytes::copy_from_slice(s.as_bytes())
}
/// Run `f` on a fresh OS thread (fresh thread-locals) under explorer control.
pub fn on_fresh_thread<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            mc::set_active(true);
            let r = f();
            mc::set_active(false);
            r
        })
        .unwrap();
    match h.join() {
        Ok(r) => r,
        Err(p) => std::panic::resume_unwind(p),
    }
}
