//! Who keeps what: nothing is held that nothing refers to, and all is given
//! back.

use super::{combs::*, model::*, sources::*, sym};
use kul::parser::*;
use kul::source_stream::{to_arc_str, to_rc_string, CharIterSourceStream, StrishIterSourceStream};
use kul::text::{chunk::PosStrish, TextVec};
use kul::{Datum, DerefTryMut, Parser, SourceStream, Text, TextConcat};
use std::{rc::Rc, sync::Arc};

/// Strings of which it can be told whether they are still there.
trait Held: Strish + 'static {
    type Weak;
    fn weak(&self) -> Self::Weak;
    fn held(w: &Self::Weak) -> bool;
}
impl<T: ?Sized + 'static> Held for Rc<T> where Rc<T>: Strish {
    type Weak = std::rc::Weak<T>;
    fn weak(&self) -> Self::Weak { Rc::downgrade(self) }
    fn held(w: &Self::Weak) -> bool { w.strong_count() > 0 }
}
impl<T: ?Sized + 'static> Held for Arc<T> where Arc<T>: Strish {
    type Weak = std::sync::Weak<T>;
    fn weak(&self) -> Self::Weak { Arc::downgrade(self) }
    fn held(w: &Self::Weak) -> bool { w.strong_count() > 0 }
}

/// The items, and how much of the source each leaves behind.
fn items(s: &str, free: usize) -> (Vec<(Result<M, MErr>, usize)>, Vec<Call>) {
    let src: Vec<char> = s.chars().collect();
    let mut r = Reader::new(&src, Default, Script::new(free));
    let mut v = vec![];
    while let Some(m) = r.top() { v.push((m, r.i)) }
    (v, r.binds.calls)
}

/// The pieces that characters of a datum are from.
fn mark(m: &M, of: &[usize], used: &mut [bool]) {
    match m {
        M::Text(t) => for c in t { used[of[c.1]] = true },
        M::Comb(o, l) => { mark(o, of, used); for m in l { mark(m, of, used) } }
        M::List(l) => for m in l { mark(m, of, used) },
        _ => (),
    }
}

fn bound<DA>(w: &Rc<Watch<Anywhere>>) -> PairOperatorBindings<Vec<(Datum<DA::TT, u64, DA::DR>, kul::Combiner<Op<DA>, Ap<DA>>)>, DA, Op<DA>, Ap<DA>, u64>
    where DA: DatumAllocator<ET = u64>, DA::DR: DerefTryMut<Target = Datum<DA::TT, u64, DA::DR>>, DA::TT: Text, <DA::TT as Text>::Chunk: From<&'static str>,
{
    PairOperatorBindings::new(vec![
        (Datum::Text(DA::TT::from_str("o")), Watch::combiner::<DA>(w, true)),
        (Datum::Text(DA::TT::from_str("a")), Watch::combiner::<DA>(w, false)),
    ])
}
type Op<DA> = Box<kul::combiner::OpFn<DA, u64>>;
type Ap<DA> = Box<kul::combiner::ApFn<DA, u64>>;

/// A parse up to any step; of the pieces, those are there that the stream has
/// not gone past, and those that results refer to.
fn pieces_of<S, DA>(s: &str, p: &[std::ops::Range<usize>], da: DA)
    where S: Held, DA: DatumAllocator<TT = TextVec<PosStrish<S>>, ET = u64>, DA::DR: DerefTryMut<Target = Datum<DA::TT, u64, DA::DR>>,
          Datum<DA::TT, u64, DA::DR>: PartialEq,
{
    let (items, calls) = items(s, 1);
    let before = sym::heap();
    {
        // Of each character.
        let mut of = vec![];
        for (i, r) in p.iter().enumerate() { for _ in 0..count(&s[r.clone()]) { of.push(i) } }
        let v: Vec<S> = p.iter().map(|r| S::make(&s[r.clone()])).collect();
        let weak: Vec<S::Weak> = v.iter().map(S::weak).collect();
        let w = Watch::new(calls.clone(), Anywhere);
        let mut parser = Parser { classifier: DefaultCharClassifier, allocator: da, bindings: bound(&w) };
        let keep = sym::pick(2) == 1;
        let steps = sym::pick(items.len() + 1);
        let mut results = vec![];
        let mut used = vec![false; p.len()];
        {
            let mut it = parser.parse(StrishIterSourceStream::new(v.into_iter()));
            // The piece that the item before ends in.
            let mut past = 0;
            for (m, n) in &items[..steps] {
                let Some(got) = it.next() else { sym::check(1, false); break };
                sym::check(2, same_item(&got, m, &Anywhere));
                if keep { if let Ok(m) = m { mark(m, &of, &mut used) } results.push(got) } else { drop(got) }
                for i in 0..past {
                    sym::check(3, S::held(&weak[i]) == used[i]);
                    if used[i] { sym::cover(1) } else { sym::cover(2) }
                }
                past = of[n - 1];
                if m.is_err() { sym::cover(4) }
            }
            if steps < items.len() { sym::cover(5) }
        }
        // The results alone.
        for i in 0..p.len() { sym::check(4, S::held(&weak[i]) == used[i]); if used[i] { sym::cover(3) } }
        drop(parser);
        for i in 0..p.len() { sym::check(5, S::held(&weak[i]) == used[i]) }
        drop(results);
        for w in &weak { sym::check(6, !S::held(w)) }
    }
    sym::check(7, sym::heap() == before);
    sym::observe(items.len() as u64);
}

/// Texts made from a text in memory keep its pieces, when it is gone itself.
fn outlive<S: Held>(s: &str, p: &[std::ops::Range<usize>]) {
    let (items, calls) = items(s, 1);
    let mut of = vec![];
    for (i, r) in p.iter().enumerate() { for _ in 0..count(&s[r.clone()]) { of.push(i) } }
    let before = sym::heap();
    {
        let v: Vec<S> = p.iter().map(|r| S::make(&s[r.clone()])).collect();
        let weak: Vec<S::Weak> = v.iter().map(S::weak).collect();
        let mut t = TextVec::<PosStrish<S>>::from_str("");
        let mut from = 0;
        for (x, r) in v.into_iter().zip(p) {
            let c = PosStrish::new(x, kul::text::chunk::CharPos(from));
            from += count(&s[r.clone()]);
            match t.concat(TextVec::from(c), &mut BoxDatumAllocator::<TextVec<PosStrish<S>>, u64>::default()) { Ok(u) => t = u, Err(_) => { sym::check(1, false); return } }
        }
        let w = Watch::new(calls.clone(), Anywhere);
        let mut used = vec![false; p.len()];
        let results: Vec<_> = {
            let mut parser = Parser { classifier: DefaultCharClassifier, allocator: BoxDatumAllocator::default(), bindings: bound(&w) };
            let r = parser.parse(t.iter()).collect();
            r
        };
        sym::check(2, results.len() == items.len());
        // Any of them.
        let only = sym::pick(items.len() + 1);
        let mut left = vec![];
        for (i, (got, (m, _))) in results.into_iter().zip(&items).enumerate() {
            sym::check(3, same_item(&got, m, &Anywhere));
            if i == only || only == items.len() { if let Ok(m) = m { mark(m, &of, &mut used) } left.push(got) }
        }
        for (i, r) in p.iter().enumerate() { if !r.is_empty() { sym::check(4, S::held(&weak[i])) } }
        drop(t);
        for i in 0..p.len() { sym::check(5, S::held(&weak[i]) == used[i]); if used[i] { sym::cover(1) } else { sym::cover(2) } }
        drop(left);
        for w in &weak { sym::check(6, !S::held(w)) }
    }
    sym::check(7, sym::heap() == before);
    sym::observe(items.len() as u64);
}

/// Characters are kept by the texts made of them only.
fn chars<DA, S>(s: &str, da: DA, source: S)
    where S: SourceStream<DA>, DA: DatumAllocator<ET = u64>, DA::DR: DerefTryMut<Target = Datum<DA::TT, u64, DA::DR>>, DA::TT: TextConcat<DA>, <DA::TT as Text>::Chunk: From<&'static str>,
          Datum<DA::TT, u64, DA::DR>: PartialEq,
{
    let (items, calls) = items(s, 1);
    let before = sym::heap();
    {
        let w = Watch::new(calls.clone(), Anywhere);
        let mut parser = Parser { classifier: DefaultCharClassifier, allocator: da, bindings: bound(&w) };
        let steps = sym::pick(items.len() + 1);
        let mut results = vec![];
        let mut it = parser.parse(source);
        for (m, _) in &items[..steps] {
            let Some(got) = it.next() else { sym::check(1, false); break };
            sym::check(2, same_item(&got, m, &Anywhere));
            results.push(got);
        }
        if steps == items.len() { sym::cover(1) } else { sym::cover(2) }
        drop(it);
        drop(parser);
        for (got, (m, _)) in results.iter().zip(&items) { sym::check(3, same_item(got, m, &Anywhere)); if m.is_ok() { sym::cover(3) } else { sym::cover(4) } }
    }
    sym::check(4, sym::heap() == before);
    sym::observe(items.len() as u64);
}

/// What is held when so much has been read, with nothing but the stream and
/// the parser to hold it.
fn held<DA, S>(da: DA, source: S, back: usize) -> usize
    where S: SourceStream<DA>, DA: DatumAllocator<ET = u64>, DA::DR: DerefTryMut<Target = Datum<DA::TT, u64, DA::DR>>, DA::TT: TextConcat<DA>, <DA::TT as Text>::Chunk: From<&'static str>,
          Datum<DA::TT, u64, DA::DR>: PartialEq,
{
    let pairs: Vec<(Datum<DA::TT, u64, DA::DR>, kul::Combiner<Op<DA>, Ap<DA>>)> = vec![
        (Datum::Text(DA::TT::from_str("o")), kul::Combiner::Operative(Box::new(move |o, _, _| Ok(if back == 0 { None } else { Some(o) })))),
        (Datum::Text(DA::TT::from_str("a")), kul::Combiner::Applicative(Box::new(move |_, l, _| match back { 0 => Ok(None), 1 => Ok(Some(l)), _ => Err(kul::Error::FailedCombiner(1)) }))),
    ];
    let mut parser = Parser { classifier: DefaultCharClassifier, allocator: da, bindings: PairOperatorBindings::new(pairs) };
    let mut it = parser.parse(source);
    // The last character is a text of its own.
    let mut last = sym::heap();
    while let Some(got) = it.next() { let ok = got.is_ok(); drop(got); if ok { last = sym::heap() } }
    drop(it);
    last
}

fn grows(kind: usize, motif: &str, n: usize, back: usize) {
    let held = [n, 2 * n].map(|n| {
        let mut s = String::new();
        let mut p = vec![];
        for _ in 0..n { let at = s.len(); s.push_str(motif); p.push(at..s.len()) }
        p.push(s.len()..s.len() + 2);
        s.push_str("{}");
        let before = sym::heap();
        let h = match kind {
            0 => held(BoxDatumAllocator::<TextVec<PosStrish<Rc<String>>>, u64>::default(), CharIterSourceStream::new(s.chars(), to_rc_string), back),
            1 => held(RcDatumAllocator::<TextVec<PosStrish<Arc<str>>>, u64>::default(), CharIterSourceStream::new(s.chars(), to_arc_str), back),
            2 => held(BoxDatumAllocator::<TextVec<PosStrish<Rc<str>>>, u64>::default(), StrishIterSourceStream::new(p.iter().map(|r| Rc::<str>::make(&s[r.clone()]))), back),
            _ => held(ArcDatumAllocator::<TextVec<PosStrish<Arc<String>>>, u64>::default(), StrishIterSourceStream::new(p.iter().map(|r| Arc::<String>::make(&s[r.clone()]))), back),
        };
        sym::check(1, sym::heap() == before);
        h - before
    });
    sym::check(2, held[1] < held[0] + n / 2);
    sym::cover(1);
    sym::observe(motif.len() as u64);
}

fn by(kind: usize, s: String, p: impl Fn(&str) -> Vec<std::ops::Range<usize>>) {
    sym::note(&s);
    let s = &*s;
    let p = || p(s);
    match kind {
        0 => pieces_of::<Rc<str>, _>(s, &p(), BoxDatumAllocator::default()),
        1 => pieces_of::<Rc<String>, _>(s, &p(), RcDatumAllocator::default()),
        2 => pieces_of::<Rc<Box<str>>, _>(s, &p(), ArcDatumAllocator::default()),
        3 => pieces_of::<Arc<str>, _>(s, &p(), BoxDatumAllocator::default()),
        4 => pieces_of::<Arc<String>, _>(s, &p(), RcDatumAllocator::default()),
        5 => pieces_of::<Arc<Box<str>>, _>(s, &p(), BoxDatumAllocator::default()),
        6 => outlive::<Rc<str>>(s, &p()),
        7 => outlive::<Arc<String>>(s, &p()),
        8 => chars(s, BoxDatumAllocator::<TextVec<PosStrish<Rc<String>>>, u64>::default(), CharIterSourceStream::new(s.chars(), to_rc_string)),
        _ => chars(s, ArcDatumAllocator::<TextVec<PosStrish<Arc<str>>>, u64>::default(), CharIterSourceStream::new(s.chars(), to_arc_str)),
    }
}

sym::entries! {
    fn k26_ascii(kind, n, empties) { by(kind, sym::ascii(n), |s| pieces(s, empties)) }
    /// In nests.
    fn k26_within(kind, n) {
        let mut s = String::from(["{x ", "{o ", "{a y{}"][sym::pick(3)]);
        s += &sym::ascii(n);
        s += "} z";
        by(kind, s, |s| divide(s, 2))
    }
    /// Over and over.
    fn k26_many(kind, n, len) {
        let motif = sym::ascii(len);
        grows(kind, &motif, n, sym::pick(3))
    }
}
