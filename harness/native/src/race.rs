//! Another thread's doings, at any moment.
//!
//! A replay goes through the instructions one by one.  Before each, a copy of
//! the process is made in which the other thread acts at this moment; if it
//! fails there, so does the replay.

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

thread_local! {
    /// Whether to look at every moment, or at the end only.
    static STEP: Cell<bool> = const { Cell::new(false) };
}
type Other = (extern "C" fn(*mut u8), *mut u8);
static mut OTHER: Option<Other> = None;
static DONE: AtomicBool = AtomicBool::new(false);
/// In the memory allocator, whose locks are taken.
static PAUSED: AtomicUsize = AtomicUsize::new(0);

pub fn pause<R>(f: impl FnOnce() -> R) -> R {
    PAUSED.fetch_add(1, Relaxed);
    let r = f();
    PAUSED.fetch_sub(1, Relaxed);
    r
}

#[no_mangle]
pub extern "C" fn sym_race_begin(f: extern "C" fn(*mut u8), data: *mut u8, _: u64) {
    DONE.store(false, Relaxed);
    if STEP.get() { unsafe { OTHER = Some((f, data)); step::on() } }
}
#[no_mangle]
pub extern "C" fn sym_race_end() -> bool {
    if STEP.get() { step::off() }
    DONE.load(Relaxed)
}

/// Look at every moment.
pub fn step() {
    step::hook();
    STEP.set(true)
}

/// Whether this is a copy of the process, in which the other has acted.
pub fn copied() -> bool { STEP.get() && DONE.load(Relaxed) }

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod step {
    use super::*;
    use std::arch::asm;

    extern "C" {
        fn sigaction(n: i32, new: *const Action, old: *mut Action) -> i32;
        fn syscall(n: i64, ...) -> i64;
        fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
        fn ualarm(us: u32, again: u32) -> u32;
        fn _exit(code: i32) -> !;
    }
    #[repr(C)]
    struct Action { handler: extern "C" fn(i32, *mut u8, *mut u64), mask: [u64; 16], flags: i32, restorer: usize }
    const SIGTRAP: i32 = 5;
    const SIGALRM: i32 = 14;
    const SA_SIGINFO: i32 = 4;
    const FORK: i64 = 57;
    const TRAP_FLAG: u64 = 0x100;
    /// Of the flags in the saved context, in words.
    const EFL: usize = 5 + 17;

    /// Panics end the thread, but not a copied process.
    pub fn hook() {
        let hook = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| { hook(i); if DONE.load(Relaxed) { unsafe { _exit(101) } } }));
    }
    pub unsafe fn on() {
        let a = Action { handler: trap, mask: [0; 16], flags: SA_SIGINFO, restorer: 0 };
        sigaction(SIGTRAP, &a, std::ptr::null_mut());
        asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
    #[inline(never)]
    pub fn off() { unsafe { asm!("pushfq", "and qword ptr [rsp], ~0x100", "popfq") } }

    extern "C" fn trap(_: i32, _: *mut u8, context: *mut u64) {
        unsafe {
            let Some((f, data)) = OTHER else { return };
            if PAUSED.load(Relaxed) > 0 { return }
            let pid = syscall(FORK) as i32;
            if pid == 0 {
                *context.add(EFL) &= !TRAP_FLAG;
                DONE.store(true, Relaxed);
                // One that gets stuck shows nothing.
                ualarm(200_000, 0);
                f(data);
                return;
            }
            let mut status = 0;
            if pid < 0 || waitpid(pid, &mut status, 0) != pid { crate::out("no copy of the process", 2) }
            let (signal, code) = (status & 0x7f, status >> 8 & 0xff);
            match (signal, code) {
                (0, 0) | (SIGALRM, _) => (),
                (0, c) => _exit(c),
                (s, _) => { *context.add(EFL) &= !TRAP_FLAG; crate::out(&format!("SIGNAL {s}"), 101) }
            }
        }
    }
}
#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
mod step {
    pub fn hook() {}
    pub unsafe fn on() {}
    pub fn off() {}
}
