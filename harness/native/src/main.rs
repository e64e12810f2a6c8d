//! Runs a harness natively, for given inputs.
//!
//! replay ENTRY ARGS MODELHEX        one input; says what happened
//! replay --batch ENTRY ARGS FILE    each line: MODELHEX and the expected outcome hash
//!
//! ARGS is a comma-separated list, or `-`.

#[path = "../../src/lib.rs"]
mod harness;
mod race;

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        race::pause(|| { LIVE.fetch_add(1, Relaxed); System.alloc(l) })
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        race::pause(|| {
            LIVE.fetch_sub(1, Relaxed);
            // So that a use after this is seen.
            std::ptr::write_bytes(p, 0xa5, l.size());
            System.dealloc(p, l)
        })
    }
}

#[global_allocator]
static A: Counting = Counting;

thread_local! {
    static MODEL: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static NEXT: Cell<usize> = const { Cell::new(0) };
    static NOTES: Cell<bool> = const { Cell::new(false) };
    static HASH: Cell<u64> = const { Cell::new(0) };
}

fn out(msg: &str, code: i32) -> ! {
    println!("{msg}");
    std::process::exit(code)
}

#[no_mangle]
pub extern "C" fn sym_bytes(p: *mut u8, n: usize) {
    MODEL.with(|m| {
        let m = m.borrow();
        for i in 0..n {
            let k = NEXT.get();
            NEXT.set(k + 1);
            unsafe { *p.add(i) = m.get(k).copied().unwrap_or(0) }
        }
    })
}
#[no_mangle]
pub extern "C" fn sym_assume(c: bool) { if !c { out("ASSUME", 77) } }
#[no_mangle]
pub extern "C" fn sym_check(c: bool, id: u32) { if !c { out(&format!("CHECK {id}"), 66) } }
#[no_mangle]
pub extern "C" fn sym_cover(_: u32) {}
#[no_mangle]
pub extern "C" fn sym_observe(v: u64) {
    let mut h = HASH.get();
    for b in v.to_le_bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3) }
    HASH.set(h);
}
#[no_mangle]
pub extern "C" fn sym_concretize(v: u64) -> u64 { v }
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_depth() -> usize {
    let x = 0u8;
    // The stack grows down; no frame is smaller than this.
    (usize::MAX / 2 - std::hint::black_box(&x) as *const u8 as usize / 2) / 8
}
#[no_mangle]
pub extern "C" fn sym_note(p: *const u8, n: usize) {
    if NOTES.get() { eprintln!("input: {:?}", String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) })) }
}
#[no_mangle]
pub extern "C" fn sym_heap() -> usize { LIVE.load(Relaxed) }

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" { return vec![] }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn run(f: fn(&[usize]), args: &[usize], model: Vec<u8>) -> u64 {
    MODEL.with(|m| *m.borrow_mut() = model);
    NEXT.set(0);
    HASH.set(0xcbf29ce484222325);
    f(args);
    HASH.get()
}

fn main() {
    // Parsing recurses on nests, with large frames in a dev build.
    let mb = std::env::var("STACK_MB").ok().and_then(|s| s.parse().ok()).unwrap_or(256);
    let t = std::thread::Builder::new().stack_size(mb << 20).spawn(work).unwrap();
    if t.join().is_err() { std::process::exit(101) }
}

fn work() {
    let mut a: Vec<String> = std::env::args().skip(1).collect();
    let trace = a.first().is_some_and(|s| s == "--trace");
    let batch = trace || a.first().is_some_and(|s| s == "--batch");
    if batch { a.remove(0); }
    let [entry, args, what] = &a[..] else { out("usage", 2) };
    let args: Vec<usize> = if args == "-" { vec![] } else { args.split(',').map(|s| s.parse().unwrap()).collect() };
    let Some((_, f)) = harness::entries().into_iter().find(|(n, _)| n == entry) else { out("no such entry", 2) };
    if batch {
        let text = std::fs::read_to_string(what).unwrap();
        let mut n = 0;
        for l in text.lines() {
            let (m, h) = l.split_once(' ').unwrap();
            if trace { println!("AT {m}") }
            let got = run(f, &args, unhex(m));
            if format!("{got:016x}") != h { out(&format!("MISMATCH {m}"), 65) }
            n += 1;
        }
        println!("MATCH {n}");
    } else {
        NOTES.set(true);
        race::step();
        let h = run(f, &args, unhex(what));
        if race::copied() { std::process::exit(0) }
        println!("HELD {h:016x}");
    }
}
