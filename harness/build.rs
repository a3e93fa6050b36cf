fn main() {
    let d = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("../.build/shim.o");
    println!("cargo:rustc-link-arg={}", d.display());
    println!("cargo:rerun-if-changed={}", d.display());
    // V8 functions that the shim lacks matter only when they are called
    println!("cargo:rustc-link-arg=-Wl,-z,lazy");
    for f in ["timer_create", "timer_settime", "timer_delete", "v8__Isolate__TerminateExecution", "v8__Isolate__New", "v8__Isolate__AddNearHeapLimitCallback", "v8__Isolate__RemoveNearHeapLimitCallback"] {
        println!("cargo:rustc-link-arg=-Wl,--wrap={f}");
    }
}
