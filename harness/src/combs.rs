//! Combiners whose outcomes are symbolic, for the model and for the code under
//! test alike.

use super::{model::*, sym};
use kul_core::{Combiner, Datum, DerefTryMut, Error, ParseIter, Parser, SourceStream, Text, TextBase, TextConcat};
use kul_core::combiner::{ApFn, OpFn};
use kul_core::parser::{AllocError, CharClassifier, DatumAllocator, OperatorBindings};
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone)]
pub enum Args { Op(Vec<(char, usize)>), Ap(Vec<M>) }

/// A call that has to be made, and what comes of it.
#[derive(Clone)]
pub struct Call {
    pub operator: M,
    pub args: Args,
    pub out: usize,
}

/// What a combiner may do: substitute an extra, remove the nest, fail,
/// substitute its operands, substitute its operator, substitute a new datum
/// that it makes of both.
pub const OUTCOMES: usize = 6;
/// Ways to fail other than with an error of its own.
const ERRORS: [usize; 4] = [2, 6, 7, 8];

/// The bound operators, the model's calls of them, and how many calls have a
/// symbolic outcome.
pub struct Script {
    pub keys: Vec<(M, bool)>,
    pub free: usize,
    /// The outcome of the other calls.
    pub rest: usize,
    pub calls: Vec<Call>,
}

pub fn text(s: &str) -> M { M::Text(s.chars().map(|c| (c, 0)).collect()) }

/// Equality but for positions.
pub fn alike(a: &M, b: &M) -> bool {
    match (a, b) {
        (M::Text(t), M::Text(u)) => t.len() == u.len() && t.iter().zip(u).all(|(x, y)| x.0 == y.0),
        (M::Comb(o, l), M::Comb(p, k)) => alike(o, p) && alike_list(l, k),
        (M::Nest, M::Nest) => true,
        (M::List(l), M::List(k)) => alike_list(l, k),
        (M::Extra(x), M::Extra(y)) => x == y,
        _ => false,
    }
}
pub fn alike_list(l: &[M], k: &[M]) -> bool { l.len() == k.len() && l.iter().zip(k).all(|(a, b)| alike(a, b)) }

impl Script {
    /// `o` is an operative and `a` an applicative.
    pub fn new(free: usize) -> Self { Script { keys: vec![(text("o"), true), (text("a"), false)], free, rest: 0, calls: vec![] } }

    fn call(&mut self, operator: M, args: Args) -> Result<Option<M>, MErr> {
        let k = self.calls.len();
        let mut out = if k < self.free { sym::pick(OUTCOMES) } else { self.rest };
        if out == 2 && k == 0 && k < self.free { out = ERRORS[sym::pick(4)] }
        let res = match out {
            0 => Ok(Some(M::Extra(100 + k as u64))),
            1 => Ok(None),
            2 => Err(MErr::Combiner(k as u64)),
            3 => Ok(Some(match &args { Args::Op(t) => M::Text(t.clone()), Args::Ap(l) => M::List(l.clone()) })),
            4 => Ok(Some(operator.clone())),
            5 => Ok(Some(match &args {
                Args::Op(t) => M::List(vec![operator.clone(), M::Text(t.clone())]),
                Args::Ap(l) => M::Comb(Box::new(operator.clone()), l.clone()),
            })),
            6 => Err(MErr::Missing),
            7 => Err(MErr::Alloc),
            _ => Err(MErr::Access),
        };
        self.calls.push(Call { operator, args, out });
        res
    }
}

impl Binds for Script {
    fn kind(&self, operator: &M) -> Kind {
        match self.keys.iter().find(|(k, _)| alike(k, operator)) {
            Some((_, true)) => Kind::Op,
            Some((_, false)) => Kind::Ap,
            None => Kind::None,
        }
    }
    fn op(&mut self, operator: M, t: Vec<(char, usize)>) -> Result<Option<M>, MErr> { self.call(operator, Args::Op(t)) }
    fn ap(&mut self, operator: M, l: Vec<M>) -> Result<Option<M>, MErr> { self.call(operator, Args::Ap(l)) }
}

/// Everything the model says iteration gives.
pub fn expect<C: Class>(src: &[char], class: C, script: Script) -> (Vec<Result<M, MErr>>, Vec<Call>) {
    let mut r = Reader::new(src, class, script);
    let mut items = vec![];
    while let Some(m) = r.top() { items.push(m) }
    (items, r.binds.calls)
}

/// Up to the first error.
pub fn expect_ok<C: Class>(src: &[char], class: C, script: Script) -> (Vec<Result<M, MErr>>, Vec<Call>) {
    let mut r = Reader::new(src, class, script);
    let mut items = vec![];
    while let Some(m) = r.top() {
        let stop = m.is_err();
        items.push(m);
        if stop { break }
    }
    (items, r.binds.calls)
}

/// Checks the calls that are made against those that have to be.
pub struct Watch<V> {
    pub calls: Vec<Call>,
    pub done: Cell<usize>,
    pub view: V,
}

type D<DA> = Datum<<DA as DatumAllocator>::TT, <DA as DatumAllocator>::ET, <DA as DatumAllocator>::DR>;
type P<DA> = <<DA as DatumAllocator>::TT as TextBase>::Pos;
type R<DA> = Result<Option<D<DA>>, Error<P<DA>, u64>>;

fn failed<P>(out: usize) -> Error<P, u64> {
    match out {
        6 => Error::MissingEndChar,
        7 => Error::FailedAlloc(AllocError::AllocExhausted),
        _ => Error::FailedDerefTryMut,
    }
}

impl<V> Watch<V> {
    pub fn new(calls: Vec<Call>, view: V) -> Rc<Self> { Rc::new(Watch { calls, done: Cell::new(0), view }) }

    fn begin<DA>(&self, operator: &D<DA>) -> (usize, Option<&Call>)
        where DA: DatumAllocator<ET = u64>, V: View<P<DA>>,
              DA::DR: DerefTryMut<Target = D<DA>>,
    {
        let k = self.done.get();
        self.done.set(k + 1);
        let c = self.calls.get(k);
        // No more calls than there have to be, and in the right order.
        sym::check(20, c.is_some());
        if let Some(c) = c { sym::check(21, same(operator, &c.operator, &self.view)) }
        (k, c)
    }

    pub fn op<DA>(&self, operator: D<DA>, operands: DA::TT, da: &mut DA) -> R<DA>
        where DA: DatumAllocator<ET = u64>, V: View<P<DA>>,
              DA::DR: DerefTryMut<Target = D<DA>>,
    {
        let (k, c) = self.begin::<DA>(&operator);
        let Some(c) = c else { return Ok(None) };
        sym::check(22, matches!(&c.args, Args::Op(t) if same_text(&operands, t, &self.view)));
        match c.out {
            0 => Ok(Some(Datum::Extra(100 + k as u64))),
            1 => Ok(None),
            2 => Err(Error::FailedCombiner(k as u64)),
            3 => Ok(Some(Datum::Text(operands))),
            4 => Ok(Some(operator)),
            5 => {
                let end = da.new_datum(Datum::EmptyList)?;
                let elem = da.new_datum(Datum::Text(operands))?;
                let next = da.new_datum(Datum::List { elem, next: end })?;
                Ok(Some(Datum::List { elem: da.new_datum(operator)?, next }))
            }
            n => Err(failed(n)),
        }
    }

    pub fn ap<DA>(&self, operator: D<DA>, operands: D<DA>, da: &mut DA) -> R<DA>
        where DA: DatumAllocator<ET = u64>, V: View<P<DA>>,
              DA::DR: DerefTryMut<Target = D<DA>>,
    {
        let (k, c) = self.begin::<DA>(&operator);
        let Some(c) = c else { return Ok(None) };
        sym::check(23, matches!(&c.args, Args::Ap(l) if same_list(&operands, l, &self.view)));
        match c.out {
            0 => Ok(Some(Datum::Extra(100 + k as u64))),
            1 => Ok(None),
            2 => Err(Error::FailedCombiner(k as u64)),
            3 => Ok(Some(operands)),
            4 => Ok(Some(operator)),
            5 => Ok(Some(Datum::Combination { operands: da.new_datum(operands)?, operator: da.new_datum(operator)? })),
            n => Err(failed(n)),
        }
    }

    pub fn combiner<DA>(w: &Rc<Self>, op: bool) -> Combiner<Box<OpFn<DA, u64>>, Box<ApFn<DA, u64>>>
        where DA: DatumAllocator<ET = u64>, V: View<P<DA>> + 'static,
              DA::DR: DerefTryMut<Target = D<DA>>,
    {
        let w = w.clone();
        if op {
            Combiner::Operative(Box::new(move |o, t, a| w.op::<DA>(o, t, a)))
        } else {
            Combiner::Applicative(Box::new(move |o, l, a| w.ap::<DA>(o, l, a)))
        }
    }
}

/// Every item, that the end stays reached, and that all calls were made.
pub fn agrees<CC, DA, OB, S, V, W>(p: &mut Parser<CC, DA, OB>, source: S, items: &[Result<M, MErr>], view: &V, watch: Option<&Watch<W>>)
    where CC: CharClassifier, DA: DatumAllocator<ET = u64>, DA::TT: TextConcat<DA>,
          DA::DR: DerefTryMut<Target = D<DA>>,
          OB: OperatorBindings<DA, CE = u64>, S: SourceStream<DA>, V: View<P<DA>>,
{
    let mut it = p.parse(source);
    for m in items {
        let got = it.next();
        sym::check(10, got.is_some());
        if let Some(got) = &got { sym::check(11, same_item(got, m, view)) }
        observe(m);
    }
    sym::check(12, it.next().is_none());
    sym::check(13, it.next().is_none());
    if let Some(w) = watch { sym::check(24, w.done.get() == w.calls.len()) }
}

/// Says which kinds of outcomes an input has.
pub fn covers(items: &[Result<M, MErr>], calls: &[Call]) {
    for m in items {
        match m {
            Ok(M::Text(_)) => sym::cover(1),
            Ok(M::Nest) => sym::cover(2),
            Ok(M::Comb(..)) => sym::cover(3),
            Ok(M::Extra(_)) => sym::cover(6),
            Ok(M::List(_)) => sym::cover(7),
            Err(MErr::Missing) => sym::cover(4),
            Err(MErr::Unbalanced(_)) => sym::cover(5),
            Err(MErr::Combiner(_)) => sym::cover(8),
            Err(MErr::Alloc | MErr::Access) => sym::cover(11),
        }
    }
    for c in calls {
        match c.args { Args::Op(_) => sym::cover(30 + c.out as u32), Args::Ap(_) => sym::cover(40 + c.out as u32) }
    }
    if calls.len() > 1 { sym::cover(50) }
}
