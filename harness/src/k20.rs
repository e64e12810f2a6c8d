//! How far the source is read.

use super::{combs::*, model::*, sources::*, sym};
use kul::parser::*;
use kul::source_stream::*;
use kul::text::{chunk::{PosStr, PosStrish}, TextVec};
use kul::{Datum, Parser, SourceIterItem, SourceStream, Text, TextBase, TextConcat};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::Arc;

/// A source that notes how far into it anything has looked.
struct Noting<S> { inner: S, taken: usize, seen: Rc<Cell<usize>> }
impl<S> Noting<S> {
    fn at(&self, n: usize) { if n > self.seen.get() { self.seen.set(n) } }
}
impl<S: Iterator> Iterator for Noting<S> {
    type Item = S::Item;
    fn next(&mut self) -> Option<S::Item> {
        self.taken += 1;
        self.at(self.taken);
        self.inner.next()
    }
}
impl<DA: DatumAllocator, S: SourceStream<DA>> SourceStream<DA> for Noting<S> {
    fn peek(&mut self) -> Option<&S::Item> { self.at(self.taken + 1); self.inner.peek() }
    fn next_accum(&mut self, da: &mut DA) -> Result<Option<S::Item>, AllocError> {
        self.taken += 1;
        self.at(self.taken);
        self.inner.next_accum(da)
    }
    fn accum_done(&mut self, da: &mut DA) -> Result<DA::TT, AllocError> { self.inner.accum_done(da) }
}

/// An iterator that notes what is taken from it.
struct Taken<I> { inner: I, n: Rc<Cell<usize>> }
impl<I: Iterator> Iterator for Taken<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.n.set(self.n.get() + 1); self.inner.next() }
}

/// How much of the source each step needs: a nest to its end, a text to the
/// character after it, an error to where it shows.
fn needs(src: &[char], script: Script) -> (Vec<(Result<M, MErr>, usize)>, Vec<Call>) {
    let mut r = Reader::new(src, Default, script);
    let mut v = vec![];
    loop {
        let Some(m) = r.top() else { break };
        let n = match &m {
            // Unless it is what came of a nest.
            Ok(M::Text(t)) if src[r.i - 1] != '}' || t.last().map_or(false, |c| c.1 == r.i - 1) => r.i + 1,
            Err(MErr::Missing) => src.len() + 1,
            _ => r.i,
        };
        v.push((m, n));
    }
    (v, r.binds.calls)
}

/// `looked` tells how much of the source has been read.
fn steps<T, S>(s: &str, source: S, looked: impl Fn() -> usize, allow: impl Fn(usize) -> usize)
    where T: Text + TextConcat<BoxDatumAllocator<T, u64>> + PartialEq, T::Chunk: From<&'static str>,
          S: SourceStream<BoxDatumAllocator<T, u64>>,
{
    let src: Vec<char> = s.chars().collect();
    let (items, calls) = needs(&src, Script::new(1));
    let w = Watch::new(calls, Anywhere);
    let pairs = vec![
        (Datum::Text(T::from_str("o")), Watch::combiner::<BoxDatumAllocator<T, u64>>(&w, true)),
        (Datum::Text(T::from_str("a")), Watch::combiner::<BoxDatumAllocator<T, u64>>(&w, false)),
    ];
    let mut p = Parser { classifier: DefaultCharClassifier, allocator: BoxDatumAllocator::default(), bindings: PairOperatorBindings::new(pairs) };
    let mut it = p.parse(source);
    // Nothing that the first step doesn't need anyway.
    sym::check(1, looked() <= allow(1));
    for (m, n) in &items {
        let Some(got) = it.next() else { sym::check(2, false); return };
        sym::check(3, same_item(&got, m, &Anywhere));
        sym::check(4, looked() <= allow(*n));
        if *n < src.len() { sym::cover(1); if matches!(m, Ok(M::Text(_))) { sym::cover(2) } else if m.is_ok() { sym::cover(3) } else { sym::cover(4) } }
        observe(m);
    }
    sym::check(5, it.next().is_none());
}

fn strings<S: Strish>(s: &'static str, p: &[std::ops::Range<usize>]) {
    let n = Rc::new(Cell::new(0));
    let v: Vec<S> = p.iter().map(|r| S::make(&s[r.clone()])).collect();
    // How many pieces it takes to get at so many characters.
    let sizes: Vec<usize> = p.iter().map(|r| count(&s[r.clone()])).collect();
    let allow = move |k: usize| {
        let mut sum = 0;
        for (i, n) in sizes.iter().enumerate() { sum += n; if sum >= k { return i + 1 } }
        usize::MAX
    };
    let taken = Taken { inner: v.into_iter(), n: n.clone() };
    let source = StrishIterSourceStream::new(taken);
    steps::<TextVec<PosStrish<S>>, _>(s, source, move || n.get(), allow)
}

fn by(kind: usize, s: &'static str, empties: usize) {
    sym::note(s);
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    let p = || match empties { 2 => divide(s, 2), 3 => sized(s), e => pieces(s, e) };
    match kind {
        0 => {
            let t = TextVec::<PosStr<'static>>::from_str(s);
            steps::<TextVec<PosStr<'static>>, _>(s, Noting { inner: t.iter(), taken: 0, seen: n }, move || m.get(), |k| if k > count(s) { usize::MAX } else { k })
        }
        1 => steps::<TextVec<PosStrish<Rc<String>>>, _>(s, CharIterSourceStream::new(Taken { inner: s.chars(), n }, to_rc_string), move || m.get(), |k| if k > count(s) { usize::MAX } else { k }),
        2 => steps::<TextVec<PosStrish<Arc<str>>>, _>(s, CharIterSourceStream::new(Taken { inner: s.chars(), n }, to_arc_str), move || m.get(), |k| if k > count(s) { usize::MAX } else { k }),
        3 => strings::<Rc<String>>(s, &p()),
        4 => strings::<Arc<str>>(s, &p()),
        _ => strings::<Rc<Box<str>>>(s, &p()),
    }
}

/// Any use of a stream by itself.
fn uses<S: Strish>(s: &'static str, calls: usize, empties: usize) {
    sym::note(s);
    type T<S> = TextVec<PosStrish<S>>;
    let p = pieces(s, empties);
    let n = Rc::new(Cell::new(0));
    let sizes: Vec<usize> = p.iter().map(|r| count(&s[r.clone()])).collect();
    let allow = move |k: usize| {
        let mut sum = 0;
        for (i, n) in sizes.iter().enumerate() { sum += n; if sum >= k { return i + 1 } }
        usize::MAX
    };
    let v: Vec<S> = p.iter().map(|r| S::make(&s[r.clone()])).collect();
    let mut it: StrishIterSourceStream<_, T<S>> = StrishIterSourceStream::new(Taken { inner: v.into_iter(), n: n.clone() });
    let mut da = BoxDatumAllocator::<T<S>, u64>::default();
    sym::check(10, n.get() <= allow(1));
    let (mut taken, mut seen) = (0, 1);
    for _ in 0..calls {
        match sym::pick(4) {
            0 => { seen = seen.max(taken + 1); let _ = SourceStream::<BoxDatumAllocator<T<S>, u64>>::peek(&mut it); }
            1 => { taken += 1; seen = seen.max(taken); let _ = it.next(); }
            2 => { taken += 1; seen = seen.max(taken); let _ = it.next_accum(&mut da); }
            _ => { let _ = it.accum_done(&mut da); }
        }
        sym::check(11, n.get() <= allow(seen));
        if n.get() < p.len() && taken > 1 { sym::cover(5) }
        sym::observe(n.get() as u64);
    }
}

sym::entries! {
    fn k20_ascii(kind, n, empties) { by(kind, leak(sym::ascii(n)), empties) }
    fn k20_within(kind, n) {
        let mut s = String::from(["{o ", "{a{} ", "{x "][sym::pick(3)]);
        s += &sym::ascii(n);
        s += "}yz{}";
        by(kind, leak(s), 2)
    }
    fn k20_uses(kind, n, calls, empties) {
        let s = leak(sym::ascii(n));
        if kind == 0 { uses::<Rc<String>>(s, calls, empties) } else { uses::<Arc<str>>(s, calls, empties) }
    }
    /// Long ones; there is always more than needed.
    fn k20_long(kind, n) {
        let mut s = String::new();
        for i in 0..n { s += ["{x {y} z}", "w", "{}", "\\}", "{o {}}"][i % 5] }
        s += &sym::ascii(2);
        s += "{}";
        let s = leak(s);
        sym::note(s);
        let size = [1, 3, 16][sym::pick(3)];
        let at: Vec<usize> = (0..s.len()).step_by(size).chain([s.len()]).collect();
        let p: Vec<std::ops::Range<usize>> = at.windows(2).map(|w| w[0]..w[1]).collect();
        match kind { 0 => strings::<Rc<String>>(s, &p), 1 => strings::<Arc<Box<str>>>(s, &p), k => by(k - 2, s, 0) }
    }
    /// Any numbers of the same, at any depth, in pieces of any one size.
    fn k20_runs(kind, depth, count, most, n) { by(kind, leak(runs(&["{x ", "{o ", "{a{"], depth, count, most, n)), 3) }
}
