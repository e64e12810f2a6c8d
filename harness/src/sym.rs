//! What a harness may ask of whatever runs it: the symbolic executor, which
//! intercepts these, or the native replay, which implements them for one
//! concrete input.

mod ext {
    extern "C" {
        /// Fill with the next input bytes.
        pub fn sym_bytes(p: *mut u8, n: usize);
        /// Only inputs for which `c` holds are of interest.
        pub fn sym_assume(c: bool);
        /// `c` must hold for all inputs that get here.
        pub fn sym_check(c: bool, id: u32);
        /// Some input must get here, else the harness is vacuous.
        pub fn sym_cover(id: u32);
        /// Part of the observable outcome, compared between executor and native.
        pub fn sym_observe(v: u64);
        /// Split on the possible values of `v`.
        pub fn sym_concretize(v: u64) -> u64;
        /// How deep the call stack is, in a unit of the runner's.
        pub fn sym_depth() -> usize;
        /// Tells a person who looks at a replay what the input is.
        pub fn sym_note(p: *const u8, n: usize);
        /// How many heap blocks are live.
        pub fn sym_heap() -> usize;
        /// From here on, another thread will make a call, at some time.
        pub fn sym_race_begin(f: extern "C" fn(*mut u8), data: *mut u8, at: u64);
        /// Whether it has.
        pub fn sym_race_end() -> bool;
    }
}

pub fn assume(c: bool) { unsafe { ext::sym_assume(c) } }
pub fn check(id: u32, c: bool) { unsafe { ext::sym_check(c, id) } }
pub fn cover(id: u32) { unsafe { ext::sym_cover(id) } }
pub fn observe(v: u64) { unsafe { ext::sym_observe(v) } }
pub fn concretize(v: u64) -> u64 { unsafe { ext::sym_concretize(v) } }
pub fn depth() -> usize { unsafe { ext::sym_depth() } }
pub fn heap() -> usize { unsafe { ext::sym_heap() } }

/// Do something, while another thread does something else at any moment: before
/// any one of the atomic accesses (by the executor), or before any one of the
/// instructions (natively), or after all.
/// Says whether it was before the end.
pub fn race<F: FnMut()>(mut other: F, body: impl FnOnce()) -> bool {
    extern "C" fn call<F: FnMut()>(f: *mut u8) { unsafe { (*f.cast::<F>())() } }
    let at = u8();
    unsafe { ext::sym_race_begin(call::<F>, (&raw mut other).cast(), at as u64) }
    body();
    let meanwhile = unsafe { ext::sym_race_end() };
    if !meanwhile { other() }
    meanwhile
}

pub fn note(s: &str) { unsafe { ext::sym_note(s.as_ptr(), s.len()) } }

pub fn fill(b: &mut [u8]) { unsafe { ext::sym_bytes(b.as_mut_ptr(), b.len()) } }

pub fn u8() -> u8 {
    let mut b = [0u8; 1];
    fill(&mut b);
    b[0]
}

pub fn bool() -> bool {
    let b = u8();
    assume(b < 2);
    b == 1
}

/// Any number below `n`, with one path for each.
pub fn pick(n: usize) -> usize {
    if n == 1 { return 0 }
    let b = u8();
    assume((b as usize) < n);
    concretize(b as u64) as usize
}

/// Any number below `n`, without a path for each.
pub fn below(n: u8) -> u8 {
    let b = u8();
    assume(b < n);
    b
}

pub fn char() -> char {
    let mut b = [0u8; 3];
    fill(&mut b);
    let u = u32::from_le_bytes([b[0], b[1], b[2], 0]);
    let c = char::from_u32(u);
    assume(c.is_some());
    c.unwrap_or('?')
}

/// A heap copy, so that nothing about its length is known to the compiler.
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v);
    v
}

/// Any valid UTF-8 of `n` bytes.
pub fn utf8(n: usize) -> String {
    match String::from_utf8(bytes(n)) {
        Ok(s) => s,
        Err(_) => { assume(false); String::new() }
    }
}

/// Any ASCII of `n` bytes.
pub fn ascii(n: usize) -> String {
    let v = bytes(n);
    for &b in &v { assume(b < 0x80) }
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => { assume(false); String::new() }
    }
}

/// Any string of `n` characters of the alphabet.
pub fn over(alphabet: &[char], n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n { s.push(alphabet[pick(alphabet.len())]) }
    s
}

/// Defines the entry points of a property, and the table by which the native
/// replay finds them.
macro_rules! entries {
    ($($(#[$a:meta])* fn $name:ident($($p:ident),*) $body:block)*) => {
        $(
            $(#[$a])*
            #[no_mangle]
            pub extern "C" fn $name($($p: usize),*) $body
        )*
        #[allow(unused_mut, unused_variables, unused_assignments, clippy::all)]
        pub const ENTRIES: &[(&str, fn(&[usize]))] = &[$(
            (stringify!($name), |a: &[usize]| {
                let mut i = 0;
                $(let $p = a[i]; i += 1;)*
                $name($($p),*)
            })
        ),*];
    };
}
pub(crate) use entries;
