//! Memory that runs out, and lists that others refer to.

use super::{combs::*, model::*, sources::*, sym};
use kul::combiner::{ApFn, OpFn};
use kul::datum::{DatumRc, RcDatum};
use kul::parser::*;
use kul::source_stream::StrishIterSourceStream;
use kul::text::{chunk::{PosStr, PosStrish}, TextDatumList, TextVec};
use kul::{Combiner, Datum, Error, Parser, SourceStream, Text, TextConcat};
use std::cell::Cell;
use std::rc::Rc;

/// How often it was asked, and how often it refused.
#[derive(Clone, std::default::Default)]
pub struct Tally(Rc<(Cell<usize>, Cell<usize>)>);
impl Tally {
    fn calls(&self) -> usize { self.0.0.get() }
    fn fired(&self) -> usize { self.0.1.get() }
}

/// Fails at one request, or from then on.
pub struct Faulty<A> {
    inner: A,
    at: usize,
    forever: bool,
    tally: Tally,
}
fn faulty<A>(inner: A, at: usize, forever: bool) -> Faulty<A> { Faulty { inner, at, forever, tally: Tally::default() } }
impl<A: DatumAllocator> DatumAllocator for Faulty<A> {
    type TT = A::TT;
    type ET = A::ET;
    type DR = A::DR;
    fn new_datum(&mut self, from: Datum<A::TT, A::ET, A::DR>) -> Result<A::DR, AllocError> {
        let k = self.tally.calls();
        self.tally.0.0.set(k + 1);
        if k == self.at || (self.forever && k > self.at) {
            self.tally.0.1.set(self.tally.fired() + 1);
            return Err(AllocError::AllocExhausted)
        }
        self.inner.new_datum(from)
    }
}

/// `o` makes a combination of its operands, and needs memory for that; `a`
/// gives its arguments.
struct Making;
impl Binds for Making {
    fn kind(&self, o: &M) -> Kind {
        if alike(o, &text("o")) { Kind::Op } else if alike(o, &text("a")) { Kind::Ap } else { Kind::None }
    }
    fn op(&mut self, o: M, t: Vec<(char, usize)>) -> Result<Option<M>, MErr> { Ok(Some(M::Comb(Box::new(o), vec![M::Text(t)]))) }
    fn ap(&mut self, _: M, l: Vec<M>) -> Result<Option<M>, MErr> { Ok(Some(M::List(l))) }
}

type D<DA> = Datum<<DA as DatumAllocator>::TT, <DA as DatumAllocator>::ET, <DA as DatumAllocator>::DR>;
type Pairs<DA> = Vec<(D<DA>, Combiner<Box<OpFn<DA, u64>>, Box<ApFn<DA, u64>>>)>;

fn pairs<DA: DatumAllocator<ET = u64>>(o: DA::TT, a: DA::TT) -> Pairs<DA> {
    vec![
        (Datum::Text(o), Combiner::Operative(Box::new(|o, t, da| Ok(Some({
            let elem = da.new_datum(Datum::Text(t))?;
            let next = da.new_datum(Datum::EmptyList)?;
            Datum::Combination { operator: da.new_datum(o)?, operands: da.new_datum(Datum::List { elem, next })? }
        }))))),
        (Datum::Text(a), Combiner::Applicative(Box::new(|_, l, _| Ok(Some(l))))),
    ]
}

fn items(src: &[char]) -> Vec<Result<M, MErr>> {
    let mut r = Reader::new(src, Default, Making);
    let mut v = vec![];
    while let Some(m) = r.top() { v.push(m) }
    v
}

/// All steps, with an allocator that may refuse.
fn steps<A, S>(s: &str, da: Faulty<A>, o: A::TT, a: A::TT, source: S)
    where A: DatumAllocator<ET = u64>, A::TT: TextConcat<Faulty<A>> + PartialEq, S: SourceStream<Faulty<A>>,
          D<A>: PartialEq,
{
    let tally = da.tally.clone();
    let src: Vec<char> = s.chars().collect();
    let items = items(&src);
    let mut p = Parser { classifier: DefaultCharClassifier, allocator: da, bindings: PairOperatorBindings::new(pairs::<Faulty<A>>(o, a)) };
    let mut it = p.parse(source);
    let mut n = 0;
    let mut intact = true;
    loop {
        let before = tally.fired();
        let got = it.next();
        let refused = tally.fired() > before;
        if refused { sym::cover(1) }
        match got {
            None => {
                sym::check(1, !refused);
                if intact { sym::check(2, n == items.len()) }
                break;
            }
            Some(got) => {
                if refused {
                    sym::check(3, matches!(got, Err(Error::FailedAlloc(AllocError::AllocExhausted))));
                    if n > 0 && intact { sym::cover(2) }
                    if !intact { sym::cover(3) }
                    intact = false;
                } else {
                    sym::check(4, !matches!(got, Err(Error::FailedAlloc(_)) | Err(Error::FailedDerefTryMut)));
                    if intact {
                        sym::check(5, n < items.len());
                        if n < items.len() { sym::check(6, same_item(&got, &items[n], &Anywhere)); observe(&items[n]) }
                    } else { sym::cover(4) }
                }
                n += 1;
                // Every step takes some of the source.
                sym::check(7, n <= src.len() + 1);
                if n > src.len() + 1 { return }
            }
        }
    }
    sym::check(8, it.next().is_none());
    sym::observe(n as u64);
}

/// Takes memory for each character it accumulates, and for each accumulation.
struct Paying<S>(S, bool);
impl<S: Iterator> Iterator for Paying<S> {
    type Item = S::Item;
    fn next(&mut self) -> Option<S::Item> { self.1 = false; self.0.next() }
}
impl<S: SourceStream<DA>, DA: DatumAllocator> SourceStream<DA> for Paying<S> {
    fn peek(&mut self) -> Option<&S::Item> { self.0.peek() }
    fn next_accum(&mut self, da: &mut DA) -> Result<Option<S::Item>, AllocError> {
        if self.0.peek().is_some() {
            match da.new_datum(Datum::EmptyNest) { Ok(_) => self.1 = true, Err(e) => { let _ = self.next(); return Err(e) } }
        }
        self.0.next_accum(da)
    }
    fn accum_done(&mut self, da: &mut DA) -> Result<DA::TT, AllocError> {
        let t = self.0.accum_done(da)?;
        if std::mem::replace(&mut self.1, false) { let _ = da.new_datum(Datum::EmptyNest)?; }
        Ok(t)
    }
}

type LT<C> = TextDatumList<'static, C, u64>;
fn slice<C: kul::TextChunk>(n: usize) -> SliceDatumAllocator<'static, LT<C>, u64> {
    let v: Vec<kul::datum::MutRefDatum<'static, LT<C>, u64>> = (0..n).map(|_| Datum::EmptyNest).collect();
    SliceDatumAllocator::new(Box::leak(v.into_boxed_slice()))
}

/// A text in pieces, as a list.
fn list_of(s: &'static str, p: &[std::ops::Range<usize>]) -> LT<PosStr<'static>> {
    let mut da = slice(p.len());
    let mut t = LT::from_str("");
    for c in chunks(s, p) {
        match t.concat(LT::from(c), &mut da) { Ok(u) => t = u, Err(_) => { sym::check(90, false); return LT::from_str("") } }
    }
    t
}

/// By one kind of parser, with up to `most` requests that go well first.
fn by(kind: usize, s: &'static str, most: usize, split: usize) {
    sym::note(s);
    let at = sym::pick(most + 1);
    let forever = sym::pick(2) == 1;
    let at = if at == most && forever { usize::MAX - 1 } else { at };
    let p = || divide(s, split);
    let room = 8 + 8 * s.len();
    match kind {
        0 => {
            type T = TextVec<PosStr<'static>>;
            steps(s, faulty(BoxDatumAllocator::default(), at, forever), T::from_str("o"), T::from_str("a"), text_vec::<u64>(chunks(s, &p())).iter())
        }
        1 => {
            type T = LT<PosStr<'static>>;
            steps(s, faulty(slice(room), at, forever), T::from_str("o"), T::from_str("a"), list_of(s, &p()).iter())
        }
        2 => {
            type T = LT<PosStrish<Rc<str>>>;
            let v: Vec<Rc<str>> = p().into_iter().map(|r| Rc::<str>::make(&s[r])).collect();
            steps(s, faulty(slice(room), at, forever), T::from_str("o"), T::from_str("a"), StrishIterSourceStream::new(v))
        }
        4 => {
            type T = TextVec<PosStr<'static>>;
            steps(s, faulty(BoxDatumAllocator::default(), at, forever), T::from_str("o"), T::from_str("a"), Paying(text_vec::<u64>(chunks(s, &p())).iter(), false))
        }
        5 => {
            type T = TextVec<PosStrish<Rc<str>>>;
            let v: Vec<Rc<str>> = p().into_iter().map(|r| Rc::<str>::make(&s[r])).collect();
            steps(s, faulty(BoxDatumAllocator::default(), at, forever), T::from_str("o"), T::from_str("a"), Paying(StrishIterSourceStream::new(v), false))
        }
        _ => {
            type T = TextVec<PosStrish<Rc<String>>>;
            let v: Vec<Rc<String>> = p().into_iter().map(|r| Rc::<String>::make(&s[r])).collect();
            steps(s, faulty(RcDatumAllocator::default(), at, forever), T::from_str("o"), T::from_str("a"), StrishIterSourceStream::new(v))
        }
    }
}

/// As much memory as it takes, or less, or more.
fn amounts(s: &'static str, split: usize, most: usize) {
    sym::note(s);
    type T = LT<PosStr<'static>>;
    let src: Vec<char> = s.chars().collect();
    let items = items(&src);
    let p = divide(s, split);
    let t = list_of(s, &p);
    // What each step takes when there is plenty.
    let mut takes = vec![];
    {
        let da = faulty(slice(8 + 8 * s.len()), usize::MAX - 1, true);
        let tally = da.tally.clone();
        let mut p = Parser { classifier: DefaultCharClassifier, allocator: da, bindings: PairOperatorBindings::new(pairs(T::from_str("o"), T::from_str("a"))) };
        let mut it = p.parse(t.iter());
        while let Some(_) = it.next() { takes.push(tally.calls()) }
    }
    let m = sym::pick(most);
    let mut p = Parser { classifier: DefaultCharClassifier, allocator: slice::<PosStr<'static>>(m), bindings: PairOperatorBindings::new(pairs(T::from_str("o"), T::from_str("a"))) };
    let mut it = p.parse(t.iter());
    let mut n = 0;
    let mut short = false;
    while let Some(got) = it.next() {
        if !short && n < takes.len() && takes[n] > m {
            short = true;
            sym::check(1, matches!(got, Err(Error::FailedAlloc(AllocError::AllocExhausted))));
            if n > 0 { sym::cover(2) }
        } else if !short {
            sym::check(2, n < items.len());
            if n < items.len() { sym::check(3, same_item(&got, &items[n], &Anywhere)) }
            observe(&items[n]);
        }
        n += 1;
        sym::check(4, n <= src.len() + 1);
        if n > src.len() + 1 { return }
    }
    if !short {
        sym::check(5, n == items.len());
        if takes.last() == Some(&m) { sym::cover(3) }
        if takes.last().map_or(true, |&k| k < m) { sym::cover(4) }
    }
    sym::check(6, it.next().is_none());
}

/// Keeps a reference to some of what it allocates.
pub struct Keeping<T: Text> {
    kept: Vec<(DatumRc<T, u64>, bool)>,
    first: usize,
    rest: bool,
    calls: usize,
    /// Of lists that are empty so far, and kept or not.
    ends: Rc<[Cell<usize>; 2]>,
    weak: bool,
}
impl<T: Text> DatumAllocator for Keeping<T> {
    type TT = T;
    type ET = u64;
    type DR = DatumRc<T, u64>;
    fn new_datum(&mut self, from: RcDatum<T, u64>) -> Result<DatumRc<T, u64>, AllocError> {
        let end = matches!(from, Datum::EmptyList);
        let r = DatumRc::new(from);
        let keep = if self.calls < self.first { sym::pick(2) == 1 } else { self.rest };
        self.calls += 1;
        if end { let e = &self.ends[keep as usize]; e.set(e.get() + 1) }
        if keep {
            if self.weak { std::mem::forget(Rc::downgrade(&r.0)) } else { self.kept.push((DatumRc(Rc::clone(&r.0)), end)) }
        }
        Ok(r)
    }
}
/// Has any operands or arguments in it.
fn operands(m: &M) -> bool {
    match m { M::Comb(o, l) => !l.is_empty() || operands(o), M::List(l) => !l.is_empty(), _ => false }
}

fn shared(s: &'static str, first: usize) {
    sym::note(s);
    type T = TextVec<PosStr<'static>>;
    let src: Vec<char> = s.chars().collect();
    let mut r = Reader::new(&src, Default, NoBinds);
    let mut items = vec![];
    while let Some(m) = r.top() { items.push(m) }
    let count = Rc::new([Cell::new(0), Cell::new(0)]);
    let da = Keeping { kept: vec![], first, rest: sym::pick(2) == 1, calls: 0, ends: count.clone(), weak: sym::pick(2) == 1 };
    let mut p = Parser { classifier: DefaultCharClassifier, allocator: da, bindings: EmptyOperatorBindings };
    let ends = || [count[0].get(), count[1].get()];
    let t = T::from_str(s);
    {
        let mut it = p.parse(t.iter());
        let mut failed = false;
        for m in &items {
            let before = ends();
            let got = it.next();
            let (free, held) = (ends()[0] - before[0], ends()[1] - before[1]);
            let Some(got) = got else { sym::check(1, false); return };
            let err = matches!(got, Err(Error::FailedDerefTryMut));
            // Only because of a list end that is referred to.
            sym::check(2, !err || held > 0);
            if let Ok(m) = m { sym::check(3, err || !operands(m) || free > 0) }
            if err { failed = true; sym::cover(1); break }
            sym::check(4, match (&got, m) { (Ok(d), Ok(m)) => same(d, m, &Anywhere), (Err(Error::MissingEndChar), Err(MErr::Missing)) => true, (Err(Error::UnbalancedEndChar(_)), Err(MErr::Unbalanced(_))) => true, _ => false });
            observe(m);
            if held > 0 { sym::cover(2) }
        }
        let mut n = 0;
        while it.next().is_some() {
            n += 1;
            sym::check(5, failed && n <= src.len() + 1);
            if n > src.len() + 1 { return }
        }
    }
    // Nobody changed what others refer to.
    for (r, end) in &p.allocator.kept { if *end { sym::check(6, matches!(&**r, Datum::EmptyList | Datum::List { .. })) } }
    sym::observe(p.allocator.kept.len() as u64);
}

sym::entries! {
    fn k16_ascii(kind, n, most, split) { by(kind, leak(sym::ascii(n)), most, split) }
    fn k16_over(kind, n, most, split) { by(kind, leak(sym::over(&['{', '}', '\\', ' ', 'o', 'a'], n)), most, split) }
    fn k16_within(kind, n, most, split) {
        let mut s = String::from(["{x ", "{o ", "{a y{}"][sym::pick(3)]);
        s += &sym::ascii(n);
        s += "} z";
        by(kind, leak(s), most, split)
    }
    fn k16_amounts(n, split, most) {
        let mut s = String::from(["", "{x ", "{o ", "{a "][sym::pick(4)]);
        s += &sym::ascii(n);
        s += "}";
        amounts(leak(s), split, most)
    }
    fn k16_shared(n, first) {
        let mut s = String::from(["", "{x ", "{{} {y z}"][sym::pick(3)]);
        s += &sym::ascii(n);
        s += "}z";
        shared(leak(s), first)
    }
    /// Any numbers of the same, at any depth, and any point of failure.
    fn k16_runs(kind, depth, most, n, points) { by(kind, leak(runs(&["{x ", "{o ", "{a{"], depth, 1, most, n)), points, 0) }
}
