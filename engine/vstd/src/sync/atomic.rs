pub use ::std::sync::atomic::{compiler_fence, fence, Ordering};
use ::std::sync::atomic as real;
use ::std::fmt;
use mc::sched::point;

macro_rules! base {
    ($name:ident, $t:ty $(, $g:ident)?) => {
        #[repr(transparent)]
        pub struct $name $(<$g>)? (real::$name $(<$g>)?);
        impl $(<$g>)? $name $(<$g>)? {
            pub const fn new(v: $t) -> Self { Self(real::$name::new(v)) }
            pub fn load(&self, o: Ordering) -> $t { point("atomic.load"); self.0.load(o) }
            pub fn store(&self, v: $t, o: Ordering) { point("atomic.store"); self.0.store(v, o) }
            pub fn swap(&self, v: $t, o: Ordering) -> $t { point("atomic.swap"); self.0.swap(v, o) }
            pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                point("atomic.cas"); self.0.compare_exchange(a, b, s, f)
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                point("atomic.cas"); self.0.compare_exchange(a, b, s, f)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                let mut prev = self.load(f);
                while let Some(next) = g(prev) {
                    match self.compare_exchange_weak(prev, next, s, f) { Ok(x) => return Ok(x), Err(p) => prev = p }
                }
                Err(prev)
            }
            pub fn try_update(&self, s: Ordering, f: Ordering, g: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> { self.fetch_update(s, f, g) }
            pub fn update(&self, s: Ordering, f: Ordering, mut g: impl FnMut($t) -> $t) -> $t {
                match self.fetch_update(s, f, |x| Some(g(x))) { Ok(x) | Err(x) => x }
            }
            pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
            pub fn into_inner(self) -> $t { self.0.into_inner() }
            pub fn as_ptr(&self) -> *mut $t { self.0.as_ptr() }
        }
        impl $(<$g>)? fmt::Debug for $name $(<$g>)? {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.0, f) }
        }
        impl $(<$g>)? From<$t> for $name $(<$g>)? { fn from(v: $t) -> Self { Self::new(v) } }
    };
}
macro_rules! ops { ($name:ident, $t:ty, $($op:ident),*) => { impl $name { $(
    pub fn $op(&self, v: $t, o: Ordering) -> $t { point("atomic.rmw"); self.0.$op(v, o) }
)* } } }
macro_rules! int { ($($name:ident $t:ty;)*) => { $(
    base!($name, $t);
    ops!($name, $t, fetch_add, fetch_sub, fetch_and, fetch_nand, fetch_or, fetch_xor, fetch_max, fetch_min);
    impl Default for $name { fn default() -> Self { Self::new(0) } }
)* } }
int! { AtomicU8 u8; AtomicU16 u16; AtomicU32 u32; AtomicU64 u64; AtomicUsize usize;
       AtomicI8 i8; AtomicI16 i16; AtomicI32 i32; AtomicI64 i64; AtomicIsize isize; }
base!(AtomicBool, bool);
ops!(AtomicBool, bool, fetch_and, fetch_nand, fetch_or, fetch_xor);
impl Default for AtomicBool {
    fn default() -> Self {
        Self::new(false)
    }
}
base!(AtomicPtr, *mut T, T);
