//! Runs one harness natively, against the real crate, on recorded inputs.
//!
//! `replay HARNESS INPUTS` prints every observation and check; the exit status
//! is 0 if all checks held, 1 if one failed or the code panicked, 3 if an
//! assumption was not met and 4 if an input is missing.

use std::collections::HashMap;
use std::sync::Mutex;

struct Run {
    inputs: HashMap<String, String>,
    counts: HashMap<String, usize>,
    failed: bool,
}

static RUN: Mutex<Option<Run>> = Mutex::new(None);

unsafe fn text(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}

/// The n-th request for the same name is recorded as `name#n`.
fn input(name: String) -> String {
    let mut g = RUN.lock().unwrap();
    let r = g.as_mut().unwrap();
    let k = r.counts.entry(name.clone()).or_insert(0);
    *k += 1;
    let key = if *k == 1 { name.clone() } else { format!("{}#{}", name, k) };
    match r.inputs.get(&key) {
        Some(v) => v.clone(),
        None => {
            println!("missing {}", key);
            std::process::exit(4)
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn sym_f64(p: *const u8, n: usize, _lo: f64, _hi: f64) -> f64 {
    let v = input(text(p, n));
    f64::from_bits(u64::from_str_radix(v.strip_prefix("f:").expect("float input"), 16).unwrap())
}

#[no_mangle]
pub unsafe extern "C" fn sym_int(p: *const u8, n: usize, _lo: u64, _hi: u64) -> u64 {
    input(text(p, n)).strip_prefix("i:").expect("integer input").parse().unwrap()
}

#[no_mangle]
pub unsafe extern "C" fn sym_bool(p: *const u8, n: usize) -> bool {
    input(text(p, n)) == "b:1"
}

#[no_mangle]
pub extern "C" fn sym_concretize(v: u64) -> u64 {
    v
}

#[no_mangle]
pub extern "C" fn sym_assume(c: bool) {
    if !c {
        println!("assumption not met");
        let f = RUN.lock().unwrap().as_ref().unwrap().failed;
        std::process::exit(if f { 1 } else { 3 })
    }
}

#[no_mangle]
pub unsafe extern "C" fn sym_check(c: bool, p: *const u8, n: usize) {
    println!("check {} {}", text(p, n), if c { "ok" } else { "FAIL" });
    if !c {
        RUN.lock().unwrap().as_mut().unwrap().failed = true;
    }
}

#[no_mangle]
pub unsafe extern "C" fn sym_cover(c: bool, p: *const u8, n: usize) {
    if c {
        println!("cover {}", text(p, n));
    }
}

#[no_mangle]
pub unsafe extern "C" fn sym_note(p: *const u8, n: usize, v: f64) {
    println!("note {} {:016x} {:?}", text(p, n), v.to_bits(), v);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let inputs = std::fs::read_to_string(&a[2])
        .expect("inputs file")
        .lines()
        .filter(|l| !l.starts_with('#'))
        .filter_map(|l| l.rsplit_once('='))
        .map(|(n, v)| (n.to_string(), v.to_string()))
        .collect();
    *RUN.lock().unwrap() = Some(Run { inputs, counts: HashMap::new(), failed: false });
    let f = harness::all().into_iter().find(|(n, _)| *n == a[1]).expect("unknown harness").1;
    let r = std::panic::catch_unwind(|| f());
    if let Err(e) = r {
        let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
        println!("panic {}", msg.unwrap_or_default().replace('\n', " "));
        std::process::exit(1)
    }
    std::process::exit(RUN.lock().unwrap().as_ref().unwrap().failed as i32)
}
