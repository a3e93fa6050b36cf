//! Pure JavaScript APIs of the runtime, driven from harness/js.
use crate::js::run_pure;
use crate::{ModelFn, Params};

macro_rules! drivers {
    ($($n:ident $f:literal $renew:literal),*) => {
        pub fn models() -> Vec<(&'static str, ModelFn)> {
            vec![$((stringify!($n), $n as ModelFn)),*]
        }
        $(fn $n(p: &Params) {
            run_pure(stringify!($n), include_str!(concat!("../../js/", $f)), &p.0, $renew);
        })*
    };
}
drivers!(js_readable "readable.js" 20_000, js_multimap "multimap.js" 20_000, js_url "url.js" 20_000, js_body "body.js" 20_000, js_clone "clone.js" 20_000, js_abort "abort.js" 20_000, js_text "text.js" 20_000, js_hostile "hostile.js" 500, js_crypto "crypto.js" 20_000);
