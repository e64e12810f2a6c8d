//! How much stack, and how many steps, dropping takes.

use super::sym;
use kul::datum::*;
use kul::drop::{algo1, Algo1DatumRef};
use kul::{Datum, DerefTryMut};
use std::cell::Cell;
use std::ops::Deref;
use std::rc::Rc;
use std::sync::Arc;

thread_local! {
    static DEEP: Cell<usize> = const { Cell::new(0) };
    static COUNT: Cell<usize> = const { Cell::new(0) };
    static MADE: Cell<usize> = const { Cell::new(0) };
    static CALLS: Cell<usize> = const { Cell::new(0) };
}

/// Records how deep the stack is when it is dropped.
pub struct Probe;
impl Drop for Probe {
    fn drop(&mut self) {
        DEEP.set(DEEP.get().max(sym::depth()));
        COUNT.set(COUNT.get() + 1);
    }
}

pub trait Link: DerefTryMut<Target = Datum<Probe, u64, Self>> + Sized {
    fn new(d: Datum<Probe, u64, Self>) -> Self;
    /// Another reference to the same, if there can be.
    fn share(&self) -> Option<Self>;
    /// A weak reference, kept for good.
    fn weak(&self) {}
}
impl Link for DatumBox<Probe, u64> {
    fn new(d: BoxDatum<Probe, u64>) -> Self { DatumBox::new(d) }
    fn share(&self) -> Option<Self> { None }
}
impl Link for DatumRc<Probe, u64> {
    fn new(d: RcDatum<Probe, u64>) -> Self { DatumRc::new(d) }
    fn share(&self) -> Option<Self> { Some(DatumRc(Rc::clone(&self.0))) }
    fn weak(&self) { std::mem::forget(Rc::downgrade(&self.0)) }
}
impl Link for DatumArc<Probe, u64> {
    fn new(d: ArcDatum<Probe, u64>) -> Self { DatumArc::new(d) }
    fn share(&self) -> Option<Self> { Some(DatumArc(Arc::clone(&self.0))) }
    fn weak(&self) { std::mem::forget(Arc::downgrade(&self.0)) }
}

/// A type of a user's, that counts what dropping asks of it.
pub struct Counting(Rc<Datum<Probe, u64, Counting>>);
impl Deref for Counting { type Target = Datum<Probe, u64, Counting>; fn deref(&self) -> &Self::Target { &self.0 } }
impl DerefTryMut for Counting { fn get_mut(this: &mut Self) -> Option<&mut Self::Target> { Rc::get_mut(&mut this.0) } }
impl Algo1DatumRef for Counting {
    fn try_replace(this: &mut Self, val: Self::Target) -> Result<Self::Target, Self::Target> {
        CALLS.set(CALLS.get() + 1);
        match Rc::get_mut(&mut this.0) { Some(d) => Ok(std::mem::replace(d, val)), None => Err(val) }
    }
    fn set(this: &mut Self, val: Self::Target) {
        CALLS.set(CALLS.get() + 1);
        if let Some(d) = Rc::get_mut(&mut this.0) { *d = val } else { sym::check(6, false) }
    }
}
impl Drop for Counting { fn drop(&mut self) { algo1(self) } }
impl Link for Counting {
    fn new(d: Datum<Probe, u64, Counting>) -> Self { Counting(Rc::new(d)) }
    fn share(&self) -> Option<Self> { Some(Counting(Rc::clone(&self.0))) }
}

fn leaf<R: Link>() -> R {
    MADE.set(MADE.get() + 1);
    R::new(Datum::Text(Probe))
}
fn branch<R: Link>(list: bool, a: R, b: R) -> R {
    R::new(if list { Datum::List { elem: a, next: b } } else { Datum::Combination { operator: a, operands: b } })
}

/// How one more branch is put around what there is: on which side that goes,
/// what is on the other, and which kind of branch it is.
#[derive(Clone, Copy)]
struct Step { left: bool, other: usize, list: bool }
/// Others are, with 3: leaf, branch, shared branch; with 4: a larger branch as
/// well; with 5: something from outside referring to it as well; with 9: the
/// end of a list, empty nest, extra as well.
fn motif(n: usize, others: usize) -> Vec<Step> {
    (0..n).map(|i| {
        let left = sym::pick(2) == 1;
        // Of both kinds, in any order, with the last kind.
        Step { left, other: sym::pick(others), list: if others > 5 { sym::pick(2) == 1 } else { i % 2 == 0 } }
    }).collect()
}

/// The motif again and again.
fn chain<R: Link>(m: &[Step], n: usize, shared: &R, weak: bool, keep: &mut Vec<R>) -> R {
    let mut d = leaf::<R>();
    for i in 0..n {
        let s = m[i % m.len()];
        let list = if m.len() % 2 == 1 && !s.list { i % 2 == 0 } else { s.list };
        let small = || branch(list, leaf(), leaf());
        let other = match s.other {
            0 => leaf(),
            1 => small(),
            2 => shared.share().unwrap_or_else(|| branch(list, small(), leaf())),
            3 => branch(list, leaf(), small()),
            // Something from outside refers to it.
            4 => { if let Some(s) = d.share() { keep.push(s) } leaf() }
            5 => R::new(Datum::EmptyList),
            6 => R::new(Datum::EmptyNest),
            7 => R::new(Datum::Extra(1)),
            _ => branch(list, leaf(), R::new(Datum::EmptyList)),
        };
        d = if s.left { branch(list, d, other) } else { branch(list, other, d) };
        if weak { d.weak() }
    }
    d
}

/// How deep dropping gets, and with how many steps.
fn measure<R: Link>(m: &[Step], m2: &[Step], n: usize, weak: bool, order: usize) -> (usize, usize) {
    DEEP.set(0);
    COUNT.set(0);
    MADE.set(0);
    CALLS.set(0);
    let shared = branch(true, leaf::<R>(), leaf());
    let mut keep = vec![];
    let mut d = chain(m, n, &shared, weak, &mut keep);
    if !m2.is_empty() { d = branch(n % 2 == 0, d, chain(m2, n, &shared, weak, &mut keep)) }
    match order {
        0 => { drop(shared); drop(d); for k in keep { drop(k) } }
        1 => { for k in keep { drop(k) } drop(d); drop(shared) }
        _ => { drop(d); while let Some(k) = keep.pop() { drop(k) } drop(shared) }
    }
    sym::check(1, COUNT.get() == MADE.get());
    (DEEP.get(), CALLS.get())
}

fn bounded<R: Link>(p: usize, p2: usize, others: usize, n: usize, weak: bool, orders: usize) {
    let m = motif(p, others);
    let m2 = motif(p2, others);
    let order = sym::pick(orders);
    if m.iter().any(|s| s.left) && m.iter().any(|s| !s.left) { sym::cover(1) }
    if m.iter().any(|s| s.other == 2) { sym::cover(2) }
    if m.iter().any(|s| s.other == 4) { sym::cover(3) }
    if m.iter().any(|s| s.other == 5) { sym::cover(4) }
    let (_, c1) = measure::<R>(&m, &m2, n, weak, order);
    let (d2, c2) = measure::<R>(&m, &m2, 2 * n, weak, order);
    let (d4, c4) = measure::<R>(&m, &m2, 4 * n, weak, order);
    // Not in proportion to the size.
    sym::check(2, d4 < d2 + n / 2);
    // In proportion to the size.
    sym::check(3, c4 - c2 <= 2 * (c2 - c1) + 2 * n);
    sym::observe(m.len() as u64);
}

sym::entries! {
    /// Every motif of p steps, repeated n, 2n and 4n times.
    fn k14_chain(kind, p, n, others, weak) {
        match kind {
            0 => bounded::<DatumBox<Probe, u64>>(p, 0, others, n, weak == 1, 1),
            1 => bounded::<DatumRc<Probe, u64>>(p, 0, others, n, weak == 1, if others > 4 { 3 } else { 2 }),
            2 => bounded::<DatumArc<Probe, u64>>(p, 0, others, n, weak == 1, if others > 4 { 3 } else { 2 }),
            _ => bounded::<Counting>(p, 0, others, n, weak == 1, if others > 4 { 3 } else { 2 }),
        }
    }
    /// Two chains side by side.
    fn k14_two(kind, p, q, n, others) {
        match kind {
            0 => bounded::<DatumBox<Probe, u64>>(p, q, others, n, false, 1),
            1 => bounded::<DatumRc<Probe, u64>>(p, q, others, n, false, 2),
            2 => bounded::<DatumArc<Probe, u64>>(p, q, others, n, false, 2),
            _ => bounded::<Counting>(p, q, others, n, false, 2),
        }
    }
}
