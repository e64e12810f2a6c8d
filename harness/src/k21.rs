//! The classifier decides which characters are delimiters.

use super::{combs::*, model::*, sources::*, sym};
use kul::parser::*;
use kul::source_stream::{to_rc_string, CharIterSourceStream, StrishIterSourceStream};
use kul::text::{chunk::{PosStr, PosStrish}, TextVec};
use kul::{Datum, Parser, Text};
use std::rc::Rc;

/// The role of each character of an alphabet: none, start, end, escape or
/// whitespace.  Others have none.
#[derive(Clone)]
struct Roles(Vec<(char, u8)>);
impl Roles {
    fn any(alphabet: &[char]) -> Self { Roles(alphabet.iter().map(|&c| (c, sym::below(5))).collect()) }
    fn of(&self, c: char) -> u8 {
        for &(d, r) in &self.0 { if c == d { return r } }
        0
    }
}
impl Class for Roles {
    fn start(&self, c: char) -> bool { self.of(c) == 1 }
    fn end(&self, c: char) -> bool { self.of(c) == 2 }
    fn esc(&self, c: char) -> bool { self.of(c) == 3 }
    fn ws(&self, c: char) -> bool { self.of(c) == 4 }
}
impl CharClassifier for Roles {
    fn is_nest_start(&self, c: char) -> bool { self.of(c) == 1 }
    fn is_nest_end(&self, c: char) -> bool { self.of(c) == 2 }
    fn is_nest_escape(&self, c: char) -> bool { self.of(c) == 3 }
    fn is_whitespace(&self, c: char) -> bool { self.of(c) == 4 }
}

type TV = TextVec<PosStr<'static>>;

fn parse(s: &'static str, roles: Roles, bound: bool) {
    sym::note(s);
    let src: Vec<char> = s.chars().collect();
    let keys = if bound { vec![(text("o"), true), (text("a"), false)] } else { vec![] };
    let (items, calls) = expect(&src, roles.clone(), Script { keys, free: 0, rest: 0, calls: vec![] });
    covers(&items, &calls);
    if bound {
        let w = Watch::new(calls, Anywhere);
        let pairs = vec![
            (Datum::Text(TV::from_str("o")), Watch::combiner::<BoxDatumAllocator<TV, u64>>(&w, true)),
            (Datum::Text(TV::from_str("a")), Watch::combiner::<BoxDatumAllocator<TV, u64>>(&w, false)),
        ];
        let mut p = Parser { classifier: roles, allocator: BoxDatumAllocator::default(), bindings: PairOperatorBindings::new(pairs) };
        agrees(&mut p, TV::from_str(s).iter(), &items, &Anywhere, Some(&*w));
    } else {
        let mut p = Parser { classifier: roles, allocator: BoxDatumAllocator::<TV, u64>::default(), bindings: PairOperatorBindings::<_, _, Box<kul::combiner::OpFn<_, u64>>, Box<kul::combiner::ApFn<_, u64>>, u64>::new(vec![]) };
        agrees(&mut p, TV::from_str(s).iter(), &items, &Anywhere, None::<&Watch<Anywhere>>);
    }
}

/// The same from a stream of strings, in pieces, or of characters.
fn streamed(s: &'static str, roles: Roles, chars: bool) {
    type TS = TextVec<PosStrish<Rc<String>>>;
    sym::note(s);
    let src: Vec<char> = s.chars().collect();
    let keys = vec![(text("o"), true), (text("a"), false)];
    let (items, calls) = expect(&src, roles.clone(), Script { keys, free: 0, rest: 0, calls: vec![] });
    covers(&items, &calls);
    let w = Watch::new(calls, Anywhere);
    let pairs = vec![
        (Datum::Text(TS::from_str("o")), Watch::combiner::<RcDatumAllocator<TS, u64>>(&w, true)),
        (Datum::Text(TS::from_str("a")), Watch::combiner::<RcDatumAllocator<TS, u64>>(&w, false)),
    ];
    let mut p = Parser { classifier: roles, allocator: RcDatumAllocator::default(), bindings: PairOperatorBindings::new(pairs) };
    if chars {
        agrees(&mut p, CharIterSourceStream::new(s.chars(), to_rc_string), &items, &Anywhere, Some(&*w));
    } else {
        let v: Vec<Rc<String>> = divide(s, 2).into_iter().map(|r| Rc::new(s[r].to_string())).collect();
        agrees(&mut p, StrishIterSourceStream::new(v), &items, &Anywhere, Some(&*w));
    }
}

const WIDE: [char; 5] = ['x', '{', 'λ', '\u{10348}', ' '];

/// The characters that have the White_Space property.
fn white(c: char) -> bool {
    matches!(c as u32, 9..=13 | 32 | 0x85 | 0xA0 | 0x1680 | 0x2000..=0x200A | 0x2028 | 0x2029 | 0x202F | 0x205F | 0x3000)
}

sym::entries! {
    /// Any text over an alphabet, any roles.
    fn k21_roles(letters, n) { let r = Roles::any(&WIDE[..letters]); parse(leak(sym::over(&WIDE[..letters], n)), r, false) }
    /// Any text of ASCII characters, four of which have any roles.
    fn k21_ascii(n) { let r = Roles::any(&['x', '}', '\\', '\n']); parse(leak(sym::ascii(n)), r, false) }
    /// Each character is another, so that roles are all that matter.
    fn k21_free(n) {
        const A: [char; 10] = ['\u{10FFFF}', '}', 'λ', '\u{3000}', '{', ' ', 'o', '\\', '\u{0}', 'z'];
        let r = Roles::any(&A[..n]);
        parse(leak(A[..n].iter().collect()), r, false)
    }
    /// Operators in between.
    fn k21_bound(n) {
        const A: [char; 8] = ['(', '[', '<', ';', ')', ']', '>', '~'];
        let op = ['o', 'a'][sym::pick(2)];
        let r = Roles::any(&A[..n]);
        let mut s = String::new();
        for (i, c) in A[..n].iter().enumerate() { if i == 1 { s.push(op) } s.push(*c) }
        parse(leak(s), r, true)
    }
    /// From streams, operators in between.
    fn k21_stream(chars, n) {
        const A: [char; 8] = ['λ', '[', '\u{10348}', ';', '}', '\u{2003}', '>', '~'];
        let op = ['o', 'a'][sym::pick(2)];
        let r = Roles::any(&A[..n]);
        let mut s = String::new();
        for (i, c) in A[..n].iter().enumerate() { if i == 1 { s.push(op) } s.push(*c) }
        streamed(leak(s), r, chars > 0)
    }
    /// The default, for every character.
    fn k21_default() {
        let c = sym::char();
        let d = DefaultCharClassifier;
        sym::check(30, d.is_nest_start(c) == (c == '{'));
        sym::check(31, d.is_nest_end(c) == (c == '}'));
        sym::check(32, d.is_nest_escape(c) == (c == '\\'));
        sym::check(33, d.is_whitespace(c) == white(c));
        if c == '{' { sym::cover(60) }
        if c == '}' { sym::cover(61) }
        if c == '\\' { sym::cover(62) }
        if white(c) { sym::cover(63); if c as u32 > 0x7f { sym::cover(64) } }
        sym::observe(white(c) as u64);
    }
}
