//! Parsers keep nothing from one parse to the next.

use super::{combs::*, model::*, sources::*, sym};
use kul::combiner::{ApFn, OpFn};
use kul::parser::*;
use kul::source_stream::{CharIterSourceStream, StrishIterSourceStream};
use kul::text::{chunk::{CharPos, PosStr, PosStrish, StrPos}, TextVec};
use kul::{Combiner, Datum, DerefTryMut, Parser, SourceStream, Text, TextConcat};
use std::collections::HashMap;
use std::rc::Rc;

pub struct At;
impl View<StrPos<'_>> for At { fn at(&self, p: &StrPos<'_>, i: usize) -> bool { p.char_pos == i } }
impl View<CharPos> for At { fn at(&self, p: &CharPos, i: usize) -> bool { p.0 == i } }

type P = TextVec<PosStr<'static>>;
type R = TextVec<PosStrish<Rc<str>>>;
type Op<DA> = Box<OpFn<DA, u64>>;
type Ap<DA> = Box<ApFn<DA, u64>>;

fn script(free: usize) -> Script { Script { rest: 3, ..Script::new(free) } }

/// Some of the items of each source, one source after the other: what is left
/// of a source that isn't iterated to its end has no effect.
fn series<DA, S>(srcs: &[&'static str], free: usize, da: DA, within: bool, source: impl Fn(&'static str) -> S)
    where DA: DatumAllocator<ET = u64> + 'static, DA::TT: Text + TextConcat<DA>, <DA::TT as Text>::Chunk: From<&'static str>,
          DA::DR: DerefTryMut<Target = Datum<DA::TT, u64, DA::DR>>, S: SourceStream<DA>, At: View<<DA::TT as kul::TextBase>::Pos>,
          Datum<DA::TT, u64, DA::DR>: PartialEq,
{
    let mut plan: Vec<(Vec<Result<M, MErr>>, bool)> = vec![];
    let mut sc = script(free);
    for (i, s) in srcs.iter().enumerate() {
        sym::note(s);
        let src: Vec<char> = s.chars().collect();
        let mut r = Reader::new(&src, Default, sc);
        let mut items = vec![];
        // How many are asked for, if not all.
        let some = match srcs.len() - i { 1 => 3, 2 | 3 => sym::pick(4), _ => i % 4 };
        let mut all = false;
        while some == 3 || items.len() < some {
            match r.top() { Some(m) => items.push(m), None => { all = true; break } }
        }
        if !all && r.i < src.len() { sym::cover(12) }
        if !all && items.last().map_or(false, |m| m.is_err()) { sym::cover(13) }
        if all && i > 0 && !items.is_empty() { sym::cover(14) }
        sc = r.binds;
        plan.push((items, all));
    }
    for p in &plan { covers(&p.0, &sc.calls) }
    let w = Watch::new(sc.calls, At);
    let (w1, w2) = (w.clone(), w.clone());
    // What a combiner parses on its own is right too.
    let inner = move || if within {
        let s = "{a x}} {y";
        let src: Vec<char> = s.chars().collect();
        let (items, _) = expect(&src, Default, Script { keys: vec![], free: 0, rest: 0, calls: vec![] });
        let mut p = Parser { classifier: DefaultCharClassifier, allocator: BoxDatumAllocator::<P, u64>::default(), bindings: PairOperatorBindings::<_, _, Op<_>, Ap<_>, u64>::new(vec![]) };
        agrees(&mut p, P::from_str(s).iter(), &items, &At, None::<&Watch<At>>);
    };
    let pairs: Vec<(Datum<DA::TT, u64, DA::DR>, Combiner<Op<DA>, Ap<DA>>)> = vec![
        (Datum::Text(DA::TT::from_str("o")), Combiner::Operative(Box::new(move |o, t, a| { inner(); w1.op::<DA>(o, t, a) }))),
        (Datum::Text(DA::TT::from_str("a")), Combiner::Applicative(Box::new(move |o, l, a| { inner(); w2.ap::<DA>(o, l, a) }))),
    ];
    let mut p = Parser { classifier: DefaultCharClassifier, allocator: da, bindings: PairOperatorBindings::new(pairs) };
    let mut kept = vec![];
    for (s, (items, all)) in srcs.iter().zip(&plan) {
        let mut it = p.parse(source(s));
        for m in items {
            let got = it.next();
            sym::check(1, got.is_some());
            if let Some(got) = got {
                sym::check(2, same_item(&got, m, &At));
                kept.push((got, m));
            }
        }
        if *all { sym::check(3, it.next().is_none()) }
    }
    sym::check(4, w.done.get() == w.calls.len());
    // What earlier ones gave stays what it is.
    for (got, m) in &kept { sym::check(5, same_item(got, m, &At)); observe(m) }
}

fn memory<T: Text>(n: usize) -> SliceDatumAllocator<'static, T, u64> {
    let v: Vec<kul::datum::MutRefDatum<'static, T, u64>> = (0..8 + 8 * n).map(|_| Datum::EmptyNest).collect();
    SliceDatumAllocator::new(Box::leak(v.into_boxed_slice()))
}

fn by(kind: usize, srcs: &[&'static str], free: usize, within: bool) {
    let n = srcs.iter().map(|s| s.len()).sum();
    let text = |s: &'static str| Box::leak(Box::new(P::from_str(s))).iter();
    let list = |s: &'static str| Box::leak(Box::new(ListText::from_str(s))).iter();
    let stream = |s: &'static str| StrishIterSourceStream::<_, R>::new([Rc::<str>::from(s)]);
    let chars = |s: &'static str| CharIterSourceStream::new(s.chars(), kul::source_stream::to_rc_str);
    match kind {
        0 => series(srcs, free, BoxDatumAllocator::<P, u64>::default(), within, text),
        1 => series(srcs, free, RcDatumAllocator::<P, u64>::default(), within, text),
        2 => series(srcs, free, ArcDatumAllocator::<P, u64>::default(), within, text),
        3 => series(srcs, free, memory::<ListText>(n), within, list),
        4 => series(srcs, free, BoxDatumAllocator::<R, u64>::default(), within, stream),
        _ => series(srcs, free, RcDatumAllocator::<R, u64>::default(), within, chars),
    }
}

/// One character for each role.
#[derive(Clone, Copy)]
struct Set([char; 4]);
impl Class for Set {
    fn start(&self, c: char) -> bool { c == self.0[0] }
    fn end(&self, c: char) -> bool { c == self.0[1] }
    fn esc(&self, c: char) -> bool { c == self.0[2] }
    fn ws(&self, c: char) -> bool { c == self.0[3] }
}
impl CharClassifier for Set {
    fn is_nest_start(&self, c: char) -> bool { c == self.0[0] }
    fn is_nest_end(&self, c: char) -> bool { c == self.0[1] }
    fn is_nest_escape(&self, c: char) -> bool { c == self.0[2] }
    fn is_whitespace(&self, c: char) -> bool { c == self.0[3] }
}

sym::entries! {
    /// Any two inputs.
    fn k24_two(kind, n, m, free) { by(kind, &[leak(sym::ascii(n)), leak(sym::ascii(m))], free, false) }
    /// An unfinished or failed one and then any.
    fn k24_after(kind, n, free) {
        const FIRST: [&str; 8] = ["{", "{x", "}", "a\\", "{a {x y}", "b{o {}c}{a}", "{o {", "{{{"];
        by(kind, &[FIRST[sym::pick(FIRST.len())], leak(sym::ascii(n))], free, false)
    }
    /// Several.
    fn k24_three(kind, n, free) {
        by(kind, &[leak(sym::ascii(n)), leak(sym::over(&['{', '}', 'a', ' '], n)), leak(sym::ascii(n))], free, false)
    }
    /// Combiners that parse.
    fn k24_within(kind, n, free) {
        let s = format!("{{x{{a {}}}", sym::ascii(n));
        by(kind, &[leak(s), leak(sym::ascii(1))], free, true)
    }
    /// Many.
    fn k24_many(kind, count, n) {
        const PARTS: [&str; 5] = ["{a x}{", "}", "{o \\{}y", "{x", "\\"];
        let mut v: Vec<&'static str> = (0..count).map(|i| PARTS[i % 5]).collect();
        v.push(leak(sym::ascii(n)));
        by(kind, &v, 0, false)
    }
    /// The delimiters and what is bound change between parses.
    fn k24_change(n, m, map) {
        let first = Set(['{', '}', '\\', ' ']);
        let second = Set(['a', ' ', '{', '}']);
        let (x, y) = (leak(sym::ascii(n)), leak(sym::ascii(m)));
        let swap = map == 0 && sym::bool();
        let (c, d) = if swap { (second, first) } else { (first, second) };
        let a: Vec<char> = x.chars().collect();
        let b: Vec<char> = y.chars().collect();
        let keys = |s: &str, op| vec![(text(s), op)];
        let (k1, k2) = match sym::pick(3) {
            0 => (keys("o", true), keys("o", false)),
            1 => (keys("p", false), vec![]),
            _ => (keys("o", false), keys("p", true)),
        };
        sym::note(x);
        sym::note(y);
        let (i1, c1) = expect(&a, c, Script { keys: k1.clone(), free: 0, rest: 3, calls: vec![] });
        let (i2, c2) = expect(&b, d, Script { keys: k2.clone(), free: 0, rest: 3, calls: vec![] });
        covers(&i1, &c1);
        covers(&i2, &c2);
        type DA = BoxDatumAllocator<P, u64>;
        let bind = |keys: &[(M, bool)], w: &Rc<Watch<At>>| -> Vec<(Datum<P, u64, _>, Combiner<Op<DA>, Ap<DA>>)> {
            keys.iter().map(|(k, op)| {
                let M::Text(t) = k else { return (Datum::EmptyNest, Watch::combiner::<DA>(w, *op)) };
                (Datum::Text(P::from_str(if t[0].0 == 'o' { "o" } else { "p" })), Watch::combiner::<DA>(w, *op))
            }).collect()
        };
        let (w1, w2) = (Watch::new(c1, At), Watch::new(c2, At));
        if map == 1 {
            let mut p = Parser { classifier: c, allocator: DA::default(), bindings: HashMapOperatorBindings::<DA, Op<DA>, Ap<DA>, u64, Same>::new(HashMap::with_hasher(Same)) };
            // None are bound yet.
            p.parse(P::from_str("{o}{p}{}").iter()).for_each(drop);
            p.bindings.hashmap.extend(bind(&k1, &w1));
            agrees(&mut p, P::from_str(x).iter(), &i1, &At, Some(&*w1));
            p.classifier = d;
            p.bindings.hashmap.clear();
            p.bindings.hashmap.extend(bind(&k2, &w2));
            agrees(&mut p, P::from_str(y).iter(), &i2, &At, Some(&*w2));
        } else {
            let mut p = Parser { classifier: c, allocator: DA::default(), bindings: PairOperatorBindings::new(bind(&k1, &w1)) };
            agrees(&mut p, P::from_str(x).iter(), &i1, &At, Some(&*w1));
            p.classifier = d;
            p.bindings.pairs = bind(&k2, &w2);
            agrees(&mut p, P::from_str(y).iter(), &i2, &At, Some(&*w2));
        }
        if swap { sym::cover(12) } else { sym::cover(13) }
    }
}
