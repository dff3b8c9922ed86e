//! Runs one harness natively on concrete input bytes: `replay ENTRY PARAM HEX`, or, with no
//! arguments, one `ENTRY PARAM HEX` per line of standard input (each in a child process).
//! Prints observations (`obs HEX`), reached marks (`cover N`) and `OK`, or `FAIL what`.
#![allow(clippy::all, dead_code)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
include!(concat!(env!("OUT_DIR"), "/gen.rs"));

static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicBool = AtomicBool::new(false);
struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { grow(l.size()); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { grow(l.size()); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { shrink(l.size()); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { grow(n); shrink(l.size()); System.realloc(p, l, n) }
}
fn grow(n: usize) {
    if !ON.load(Relaxed) { return }
    let live = LIVE.fetch_add(n, Relaxed).saturating_add(n);
    let lim = LIMIT.load(Relaxed);
    if n > lim || live > lim.saturating_mul(2) {
        ON.store(false, Relaxed);
        fail(&format!("alloc: {n} bytes asked for, limit {lim}"));
    }
}
fn shrink(n: usize) { if ON.load(Relaxed) { let l = LIVE.load(Relaxed); LIVE.store(l.saturating_sub(n), Relaxed) } }
#[global_allocator]
static A: Alloc = Alloc;

static mut INPUT: Vec<u8> = Vec::new();
static mut POS: usize = 0;
fn end(code: i32) -> ! { let _ = std::io::stdout().flush(); std::process::exit(code) }
fn fail(s: &str) -> ! { ON.store(false, Relaxed); println!("FAIL {s}"); end(10) }
#[no_mangle]
pub extern "C" fn sym_bytes(p: *mut u8, n: usize) {
    unsafe {
        for i in 0..n {
            let q = &raw const INPUT;
            *p.add(i) = if POS < (*q).len() { (&*q)[POS] } else { 0 };
            POS += 1;
        }
    }
}
#[no_mangle]
pub extern "C" fn sym_assume(b: bool) { if !b { ON.store(false, Relaxed); println!("ASSUME"); end(3) } }
#[no_mangle]
pub extern "C" fn sym_assert(b: bool, id: u32) { if !b { fail(&format!("assert {id}")) } }
#[no_mangle]
pub extern "C" fn sym_cover(id: u32) { let on = ON.swap(false, Relaxed); println!("cover {id}"); ON.store(on, Relaxed) }
#[no_mangle]
pub extern "C" fn sym_observe(p: *const u8, n: usize) {
    let on = ON.swap(false, Relaxed);
    let s: String = unsafe { std::slice::from_raw_parts(p, n) }.iter().map(|b| format!("{b:02x}")).collect();
    println!("obs {s}");
    ON.store(on, Relaxed)
}
#[no_mangle]
pub extern "C" fn sym_alloc_limit(n: usize) { LIMIT.store(n, Relaxed) }
#[no_mangle]
pub extern "C" fn sym_fork(v: u64) -> u64 { v }
#[no_mangle]
pub extern "C" fn sym_opaque_numbers(_: bool) {}

fn run(name: &str, param: u32, hex: &str) -> ! {
    let Some((_, f)) = ENTRIES.iter().find(|e| e.0 == name) else { println!("NOENTRY"); end(4) };
    unsafe { INPUT = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).expect("hex")).collect() };
    std::panic::set_hook(Box::new(|i| {
        ON.store(false, Relaxed);
        fail(&format!("panic {}", i.to_string().replace('\n', " ")))
    }));
    LIMIT.store(1 << 20, Relaxed);
    ON.store(true, Relaxed);
    f(param);
    ON.store(false, Relaxed);
    println!("OK");
    end(0)
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 4 {
        // the main thread's stack is the default 8 MB
        run(&a[1], a[2].parse().expect("number"), &a[3])
    }
    for e in ENTRIES { println!("{}", e.0) }
}
