//! Primitives understood by the symbolic executor. The replay binary supplies
//! native definitions that return the recorded concrete inputs instead.

mod raw {
    extern "C" {
        pub fn sym_f64(name: *const u8, len: usize, lo: f64, hi: f64) -> f64;
        pub fn sym_int(name: *const u8, len: usize, lo: u64, hi: u64) -> u64;
        pub fn sym_bool(name: *const u8, len: usize) -> bool;
        pub fn sym_assume(c: bool);
        pub fn sym_check(c: bool, name: *const u8, len: usize);
        pub fn sym_cover(c: bool, name: *const u8, len: usize);
        pub fn sym_note(name: *const u8, len: usize, v: f64);
        pub fn sym_concretize(v: u64) -> u64;
    }
}

/// An arbitrary finite float in `[lo, hi]`.
pub fn f64(name: &str, lo: f64, hi: f64) -> f64 {
    unsafe { raw::sym_f64(name.as_ptr(), name.len(), lo, hi) }
}

/// An arbitrary integer in `[lo, hi]`.
pub fn int(name: &str, lo: u64, hi: u64) -> u64 {
    unsafe { raw::sym_int(name.as_ptr(), name.len(), lo, hi) }
}

/// An arbitrary integer in `[lo, hi]`; the executor explores each value separately.
pub fn choice(name: &str, lo: u64, hi: u64) -> usize {
    unsafe { raw::sym_concretize(raw::sym_int(name.as_ptr(), name.len(), lo, hi)) as usize }
}

/// An arbitrary boolean.
pub fn bool(name: &str) -> bool {
    unsafe { raw::sym_bool(name.as_ptr(), name.len()) }
}

/// Restricts the inputs considered from here on.
pub fn assume(c: bool) {
    unsafe { raw::sym_assume(c) }
}

/// The assertion to be decided for every input that reaches it.
pub fn check(c: bool, name: &str) {
    unsafe {
        raw::sym_note(name.as_ptr(), name.len(), c as u8 as f64);
        raw::sym_check(c, name.as_ptr(), name.len())
    }
}

/// Reachability witness: some input must get here with `c` true.
pub fn cover(c: bool, name: &str) {
    unsafe { raw::sym_cover(c, name.as_ptr(), name.len()) }
}

/// Observation used to compare the executor with native execution.
pub fn note(name: &str, v: f64) {
    unsafe { raw::sym_note(name.as_ptr(), name.len(), v) }
}

/// Defines exported harness functions and the table used for replay.
#[macro_export]
macro_rules! harnesses {
    ($(fn $name:ident() $body:block)*) => {
        $(#[no_mangle] pub extern "C-unwind" fn $name() $body)*
        pub const LIST: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name)),*];
    };
}
