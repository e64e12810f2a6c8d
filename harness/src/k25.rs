//! How deep calls get depends on how deep nests are, not on how much there is.

use super::{sources::*, sym};
use kul::combiner::{ApFn, OpFn};
use kul::parser::*;
use kul::source_stream::{CharIterSourceStream, StrishIterSourceStream};
use kul::text::{chunk::{PosStr, PosStrish, StrPos}, TextVec};
use kul::{Combiner, Datum, DerefTryMut, Parser, SourceStream, Text, TextBase, TextConcat};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static DEEP: AtomicUsize = AtomicUsize::new(0);
fn probe() { DEEP.store(DEEP.load(Relaxed).max(sym::depth()), Relaxed) }
/// The deepest that anything asks from.
fn deepest(f: impl FnOnce()) -> usize {
    DEEP.store(0, Relaxed);
    f();
    DEEP.load(Relaxed)
}

/// Everything that parsing asks of others says how deep it is asked.
struct Asked<T>(T);
impl CharClassifier for Asked<DefaultCharClassifier> {
    fn is_nest_start(&self, c: char) -> bool { probe(); self.0.is_nest_start(c) }
    fn is_nest_end(&self, c: char) -> bool { probe(); self.0.is_nest_end(c) }
    fn is_nest_escape(&self, c: char) -> bool { probe(); self.0.is_nest_escape(c) }
    fn is_whitespace(&self, c: char) -> bool { probe(); self.0.is_whitespace(c) }
}
impl<DA: DatumAllocator, B: OperatorBindings<DA>> OperatorBindings<DA> for Asked<B> {
    type OR = B::OR;
    type AR = B::AR;
    type CE = B::CE;
    fn lookup(&self, o: &Datum<DA::TT, DA::ET, DA::DR>) -> Option<&Combiner<B::OR, B::AR>> { probe(); self.0.lookup(o) }
}
impl<I: Iterator> Iterator for Asked<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { probe(); self.0.next() }
}

/// A user's own type of text.
pub struct Chain(Vec<PosStr<'static>>);
#[repr(transparent)]
pub struct Links([PosStr<'static>]);
fn links<'l>(l: &'l [PosStr<'static>]) -> &'l Links { unsafe { &*(l as *const [PosStr<'static>] as *const Links) } }
impl kul::text::iter::chunks::State for Links {
    type Chunk = PosStr<'static>;
    fn next(&self) -> Option<(&PosStr<'static>, Option<&Self>)> {
        probe();
        let (c, l) = self.0.split_first()?;
        Some((c, if l.is_empty() { None } else { Some(links(l)) }))
    }
}
impl From<PosStr<'static>> for Chain { fn from(c: PosStr<'static>) -> Self { Chain(vec![c]) } }
impl TextBase for Chain {
    type Pos = StrPos<'static>;
    fn empty() -> Self { Chain(vec![]) }
    fn is_empty(&self) -> bool { self.0.iter().all(|c| c.val.is_empty()) }
}
impl Text for Chain {
    type Chunk = PosStr<'static>;
    type IterChunksState = Links;
    fn iter_chunks_state(&self) -> Option<&Links> { if self.0.is_empty() { None } else { Some(links(&self.0)) } }
}
impl<DA> TextConcat<DA> for Chain {
    fn concat(mut self, other: Self, _: &mut DA) -> Result<Self, AllocError> {
        probe();
        self.0.extend(other.0);
        Ok(self)
    }
}
impl PartialEq for Chain { fn eq(&self, o: &Self) -> bool { Text::eq(self, o) } }

type Op<DA> = Box<OpFn<DA, u64>>;
type Ap<DA> = Box<ApFn<DA, u64>>;

/// What combiners make of their nests: nothing, the operands, or an error.
fn run<DA, S>(da: DA, source: S, back: usize)
    where DA: DatumAllocator<ET = u64> + 'static, DA::TT: Text + TextConcat<DA>, <DA::TT as Text>::Chunk: From<&'static str>,
          DA::DR: DerefTryMut<Target = Datum<DA::TT, u64, DA::DR>>, S: SourceStream<DA>,
          Datum<DA::TT, u64, DA::DR>: PartialEq,
{
    let pairs: Vec<(Datum<DA::TT, u64, DA::DR>, Combiner<Op<DA>, Ap<DA>>)> = vec![
        (Datum::Text(DA::TT::from_str("o")), Combiner::Operative(Box::new(move |_, t, _| {
            probe();
            match back { 0 => Ok(None), 1 => Ok(Some(Datum::Text(t))), _ => Err(kul::Error::FailedCombiner(1)) }
        }))),
        (Datum::Text(DA::TT::from_str("a")), Combiner::Applicative(Box::new(move |_, l, _| {
            probe();
            match back { 0 => Ok(None), 1 => Ok(Some(l)), _ => Err(kul::Error::FailedCombiner(2)) }
        }))),
    ];
    let mut p = Parser { classifier: Asked(DefaultCharClassifier), allocator: da, bindings: Asked(PairOperatorBindings::new(pairs)) };
    let mut n = 0;
    for r in p.parse(source) {
        n += 1;
        // Dropping is another matter.
        std::mem::forget(r);
    }
    sym::observe(n);
}

/// Of each part, and empty ones after them.
fn parts(pre: &str, motif: &str, n: usize, post: &str, empties: usize) -> (&'static str, Vec<std::ops::Range<usize>>) {
    let mut s = String::from(pre);
    let mut v = vec![0..s.len()];
    for i in 0..n {
        let at = s.len();
        s.push_str(motif);
        v.push(at..s.len());
        for _ in 0..empties { v.push(s.len()..s.len()) }
        // Many of them in one place.
        if i == n / 2 { for _ in 0..n { v.push(s.len()..s.len()) } }
    }
    let at = s.len();
    s.push_str(post);
    v.push(at..s.len());
    (leak(s), v)
}

fn by(kind: usize, s: &'static str, v: &[std::ops::Range<usize>], back: usize) -> usize {
    match kind {
        // In memory, whole.
        0 => { let t = TextVec::<PosStr<'static>>::from_str(s); deepest(|| run(BoxDatumAllocator::default(), leaked(t).iter(), back)) }
        // In chunks of a user's text.
        1 => { let t = Chain(chunks(s, v)); deepest(|| run(RcDatumAllocator::default(), leaked(t).iter(), back)) }
        // With all in a slice.
        2 => {
            let t = ListText::from_str(s);
            let da = SliceDatumAllocator::new(slots(4 * s.len() + 8));
            deepest(|| run(da, leaked(t).iter(), back))
        }
        // Streams.
        3 => {
            let c: Vec<char> = s.chars().collect();
            deepest(|| run(ArcDatumAllocator::<TextVec<PosStrish<Rc<str>>>, u64>::default(), CharIterSourceStream::new(Asked(c.into_iter()), kul::source_stream::to_rc_str), back))
        }
        4 => {
            let p: Vec<Rc<str>> = v.iter().map(|r| Rc::from(&s[r.clone()])).collect();
            deepest(|| run(BoxDatumAllocator::default(), StrishIterSourceStream::<_, TextVec<PosStrish<Rc<str>>>>::new(Asked(p.into_iter())), back))
        }
        // In chunks of the premade text types.
        5 => { let t = strish_text::<Rc<String>>(strish_chunks(s, v)); deepest(|| run(BoxDatumAllocator::default(), leaked(t).iter(), back)) }
        _ => {
            let mut da = SliceDatumAllocator::new(slots(8 * s.len() + v.len() + 8));
            let mut t = ListText::empty();
            for c in chunks(s, v) { match t.concat(c.into(), &mut da) { Ok(u) => t = u, Err(_) => { sym::check(90, false); return 0 } } }
            deepest(|| run(da, leaked(t).iter(), back))
        }
    }
}
fn leaked<T>(t: T) -> &'static T { Box::leak(Box::new(t)) }

/// The most nests that are open at once.
fn nesting(s: &str) -> usize {
    let (mut now, mut most) = (0usize, 0);
    let mut esc = false;
    for c in s.chars() {
        if esc { esc = false; continue }
        match c { '\\' => esc = true, '{' => { now += 1; most = most.max(now) } '}' => now = now.saturating_sub(1), _ => () }
    }
    most
}

fn grows(kind: usize, n: usize, motif: &str, back: usize, within: usize, empties: usize) {
    const PRE: [&str; 7] = ["", "{x", "{a ", "{o ", "{{x}", "{o{", "{"];
    const POST: [&str; 7] = ["", "}", "}", "}", "", "y}}", "z w}"];
    let of = |n| parts(PRE[within], motif, n, POST[within], empties);
    let (s, v) = of(n);
    let (t, w) = of(2 * n);
    sym::note(s);
    // Else it is deeper for a reason.
    if nesting(s) != nesting(t) { sym::cover(2); return }
    let (a, b) = (by(kind, s, &v, back), by(kind, t, &w, back));
    sym::check(1, a > 0 && b < a + n / 2);
    sym::cover(1);
    if nesting(motif) > 0 { sym::cover(3); if back == 0 { sym::cover(4) } }
    for c in motif.chars() { if c == '\\' { sym::cover(5) } else if c == '}' && nesting(motif) == 0 { sym::cover(6) } else if c == ' ' { sym::cover(7) } }
}

sym::entries! {
    /// Any piece over and over.
    fn k25_ascii(kind, n, len, within, empties) {
        let motif = sym::ascii(len);
        let back = sym::pick(3);
        grows(kind, n, &motif, back, within, empties)
    }
    /// Pieces with nests of all kinds in them.
    fn k25_nests(kind, n, len, empties) {
        const PARTS: [&str; 8] = ["{a x}", "{o y}", "{}", "{{o}", "}", "{x {", "\\", " é"];
        let mut motif = String::new();
        for _ in 0..len { motif.push_str(PARTS[sym::pick(8)]) }
        let within = sym::pick(7);
        grows(kind, n, &motif, sym::pick(3), within, empties)
    }
    /// Reading, comparing, hashing and encoding texts of many chunks.
    fn k25_text(n, len) {
        let piece = sym::utf8(1 + sym::pick(len));
        let empties = sym::pick(3);
        let last = sym::u8();
        sym::assume(last < 0x80);
        let mut deep = [[0; 6]; 2];
        for (k, n) in [n, 2 * n].into_iter().enumerate() {
            let (s, v) = parts("", &piece, n, "z", empties);
            let (t, w) = parts("", &piece, n, std::str::from_utf8(&[last]).unwrap_or("z"), 0);
            let (x, y) = (Chain(chunks(s, &v)), Chain(chunks(t, &w)));
            let mut buf = vec![0; s.len()];
            deep[k] = [
                deepest(|| sym::check(2, Text::eq(&x, &y) == (last == b'z'))),
                deepest(|| sym::check(3, Text::cmp(&x, &y) == b'z'.cmp(&last))),
                deepest(|| { let mut r = Rec::default(); Text::hash(&x, &mut r); sym::check(4, !r.0.is_empty()) }),
                deepest(|| sym::check(5, x.chars().eq(s.chars()))),
                deepest(|| sym::check(6, x.encode_utf8(&mut buf) == Ok(s))),
                deepest(|| sym::check(7, x.iter_chunks().count() == v.len())),
            ];
            std::mem::forget((x, y));
        }
        for i in 0..6 { sym::check(8, deep[0][i] > 0 && deep[1][i] < deep[0][i] + n / 2) }
        if last == b'z' { sym::cover(1) } else { sym::cover(2) }
        if empties > 0 { sym::cover(3) }
        sym::observe(last as u64);
    }
    /// Lists of many operands, and texts of many chunks, in the results: what
    /// is read is asked of the chunks one by one.
    fn k25_result(n, len) {
        let motif = sym::ascii(len);
        let mut deep = [0; 2];
        for (k, n) in [n, 2 * n].into_iter().enumerate() {
            let (s, v) = parts("{x ", &motif, n, "}", 1);
            if nesting(s) != nesting(parts("{x ", &motif, 2 * n, "}", 1).0) { sym::cover(2); return }
            let t = leaked(Chain(chunks(s, &v)));
            let mut p = Parser { classifier: DefaultCharClassifier, allocator: BoxDatumAllocator::<Chain, u64>::default(), bindings: EmptyOperatorBindings };
            let x: Vec<_> = p.parse(t.iter()).collect();
            let y: Vec<_> = p.parse(t.iter()).collect();
            deep[k] = deepest(|| { probe(); sym::check(9, x.iter().zip(&y).all(|(x, y)| match (x, y) { (Ok(x), Ok(y)) => x == y, (Err(_), Err(_)) => true, _ => false })) });
            sym::observe(x.len() as u64);
            std::mem::forget((x, y));
        }
        sym::check(10, deep[0] > 0 && deep[1] < deep[0] + n / 2);
        sym::cover(1);
    }
}
