//! What dropping releases.

use super::sym;
use kul::datum::*;
use kul::drop::{algo1, Algo1DatumRef};
use kul::{Datum, DerefTryMut};
use std::cell::RefCell;
use std::ops::Deref;
use std::rc::{self, Rc};
use std::sync::{self, Arc};

thread_local! { static DROPS: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) } }

/// A text or extra that counts how often it is dropped.
pub struct Tok(usize);
impl Tok {
    fn new() -> Tok { DROPS.with_borrow_mut(|d| { d.push(0); Tok(d.len() - 1) }) }
}
impl Drop for Tok {
    fn drop(&mut self) { DROPS.with_borrow_mut(|d| d[self.0] += 1) }
}
fn drops(k: usize) -> u8 { DROPS.with_borrow(|d| d[k]) }

/// References that can be shared.
pub trait Shared: DerefTryMut<Target = Datum<Tok, Tok, Self>> + Sized {
    type Weak;
    fn new(d: Datum<Tok, Tok, Self>) -> Self;
    fn share(&self) -> Self;
    fn weak(&self) -> Self::Weak;
    /// Whether it can be upgraded.
    fn up(w: &Self::Weak) -> Option<Self>;
}
impl Shared for DatumRc<Tok, Tok> {
    type Weak = rc::Weak<RcDatum<Tok, Tok>>;
    fn new(d: RcDatum<Tok, Tok>) -> Self { DatumRc::new(d) }
    fn share(&self) -> Self { DatumRc(Rc::clone(&self.0)) }
    fn weak(&self) -> Self::Weak { Rc::downgrade(&self.0) }
    fn up(w: &Self::Weak) -> Option<Self> { w.upgrade().map(DatumRc) }
}
impl Shared for DatumArc<Tok, Tok> {
    type Weak = sync::Weak<ArcDatum<Tok, Tok>>;
    fn new(d: ArcDatum<Tok, Tok>) -> Self { DatumArc::new(d) }
    fn share(&self) -> Self { DatumArc(Arc::clone(&self.0)) }
    fn weak(&self) -> Self::Weak { Arc::downgrade(&self.0) }
    fn up(w: &Self::Weak) -> Option<Self> { w.upgrade().map(DatumArc) }
}

/// A node of the model.
struct Node { comb: bool, kids: [usize; 2] }
/// Leaves come after these.
const LEAF: usize = 100;

/// Is this what the model says, all the way down?
fn intact<R: Shared>(d: &Datum<Tok, Tok, R>, id: usize, g: &[Node]) -> bool {
    if id >= LEAF {
        return match d { Datum::Text(t) | Datum::Extra(t) => t.0 == id - LEAF, _ => false }
    }
    let (l, r) = match (d, g[id].comb) {
        (Datum::Combination { operator, operands }, true) => (operator, operands),
        (Datum::List { elem, next }, false) => (elem, next),
        _ => return false,
    };
    intact(&**l, g[id].kids[0], g) && intact(&**r, g[id].kids[1], g)
}

fn reach(id: usize, g: &[Node], nodes: &mut [bool], toks: &mut [bool]) {
    if id >= LEAF { toks[id - LEAF] = true; return }
    if nodes[id] { return }
    nodes[id] = true;
    for k in g[id].kids { reach(k, g, nodes, toks) }
}

/// Any graph of n branches, each referred to from outside, of which some are
/// weakly referred to; the outside references go in any order, all but one or
/// all at first.
fn graph<R: Shared>(n: usize, weak_all: usize) {
    let before = sym::heap();
    {
        let mut g: Vec<Node> = vec![];
        let mut hold: Vec<Option<R>> = vec![];
        let kind = sym::pick(2) == 1;
        for i in 0..n {
            let comb = kind == (i % 2 == 0);
            let mut kids = [0; 2];
            let mut refs: Vec<R> = vec![];
            for kid in &mut kids {
                let k = sym::pick(i + 1);
                if k == i {
                    let t = Tok::new();
                    *kid = LEAF + t.0;
                    refs.push(R::new(if comb { Datum::Text(t) } else { Datum::Extra(t) }));
                } else {
                    *kid = k;
                    match &hold[k] { Some(r) => refs.push(r.share()), None => return }
                }
            }
            let (Some(b), Some(a)) = (refs.pop(), refs.pop()) else { return };
            hold.push(Some(R::new(if comb { Datum::Combination { operator: a, operands: b } } else { Datum::List { elem: a, next: b } })));
            g.push(Node { comb, kids });
        }
        let weaks: Vec<Option<R::Weak>> = {
            // None, one, or all of them.
            let w = if weak_all == 1 { n + 1 } else { sym::pick(n + 2) };
            hold.iter().enumerate().map(|(i, h)| if i == w || w == n + 1 { h.as_ref().map(|h| h.weak()) } else { None }).collect()
        };
        if weaks.iter().any(|w| w.is_some()) { sym::cover(1) }
        let keep = sym::pick(n + 1);
        // In any order.
        let mut left: Vec<usize> = (0..n).filter(|&i| i != keep).collect();
        let ntoks = DROPS.with_borrow(|d| d.len());
        let check = |alive: &[usize], hold: &[Option<R>]| {
            let (mut nodes, mut toks) = (vec![false; n], vec![false; ntoks]);
            for &k in alive { reach(k, &g, &mut nodes, &mut toks) }
            for (t, &live) in toks.iter().enumerate() { sym::check(1, drops(t) == !live as u8) }
            for &k in alive { sym::check(2, matches!(&hold[k], Some(r) if intact(&**r, k, &g))) }
            for (k, w) in weaks.iter().enumerate() {
                let Some(w) = w else { continue };
                match R::up(w) {
                    Some(r) => { sym::check(3, nodes[k]); sym::check(4, intact(&*r, k, &g)) }
                    None => sym::check(5, !nodes[k]),
                }
            }
            if nodes.iter().filter(|x| **x).count() > alive.len() { sym::cover(2) }
        };
        while !left.is_empty() {
            let i = left.remove(sym::pick(left.len()));
            drop(hold[i].take());
            let mut alive = left.clone();
            if keep < n { alive.push(keep) }
            check(&alive, &hold);
        }
        if keep < n {
            sym::cover(3);
            drop(hold[keep].take());
            check(&[], &hold);
        }
        for w in weaks.iter().flatten() { sym::check(6, R::up(w).is_none()) }
        DROPS.with_borrow(|d| for &k in d { sym::check(7, k == 1) });
        sym::observe(ntoks as u64);
        DROPS.with_borrow_mut(|d| *d = Vec::new());
    }
    // Nothing leaks.
    sym::check(8, sym::heap() == before);
}

/// An owning reference that may refuse to give its datum.
struct Refusing { d: Box<Datum<Tok, Tok, Refusing>>, taken: bool }
thread_local! { static REFUSALS: RefCell<usize> = const { RefCell::new(0) } }
impl Deref for Refusing { type Target = Datum<Tok, Tok, Refusing>; fn deref(&self) -> &Self::Target { &self.d } }
impl DerefTryMut for Refusing { fn get_mut(this: &mut Self) -> Option<&mut Self::Target> { Some(&mut this.d) } }
impl Algo1DatumRef for Refusing {
    fn try_replace(this: &mut Self, val: Self::Target) -> Result<Self::Target, Self::Target> {
        let asked = REFUSALS.with_borrow_mut(|r| if *r > 0 { *r -= 1; true } else { false });
        if asked && sym::bool() { sym::cover(4); return Err(val) }
        this.taken = true;
        Ok(std::mem::replace(&mut this.d, val))
    }
    fn set(this: &mut Self, val: Self::Target) {
        // Only after it was taken.
        sym::check(9, this.taken);
        *this.d = val
    }
}
impl Drop for Refusing { fn drop(&mut self) { algo1(self) } }

trait Owning: DerefTryMut<Target = Datum<Tok, Tok, Self>> + Sized { fn new(d: Datum<Tok, Tok, Self>) -> Self; }
impl Owning for Refusing { fn new(d: Datum<Tok, Tok, Self>) -> Self { Refusing { d: Box::new(d), taken: false } } }
impl Owning for DatumBox<Tok, Tok> { fn new(d: BoxDatum<Tok, Tok>) -> Self { DatumBox::new(d) } }
impl Owning for DatumRc<Tok, Tok> { fn new(d: RcDatum<Tok, Tok>) -> Self { DatumRc::new(d) } }
impl Owning for DatumArc<Tok, Tok> { fn new(d: ArcDatum<Tok, Tok>) -> Self { DatumArc::new(d) } }

/// Any tree of n branches.
fn shape<R: Owning>(n: usize, kind: &mut usize) -> R {
    *kind += 1;
    let list = *kind % 3 == 0;
    R::new(if n == 0 {
        match *kind % 4 { 0 => Datum::Text(Tok::new()), 1 => Datum::Extra(Tok::new()), 2 => Datum::EmptyNest, _ => Datum::Text(Tok::new()) }
    } else {
        let k = sym::pick(n);
        let a = shape(k, kind);
        let b = shape(n - 1 - k, kind);
        if list { Datum::List { elem: a, next: b } } else { Datum::Combination { operator: a, operands: b } }
    })
}
fn tree<R: Owning>(n: usize) {
    let before = sym::heap();
    {
        let mut kind = sym::pick(3);
        let t = shape::<R>(n, &mut kind);
        DROPS.with_borrow(|d| for &k in d { sym::check(10, k == 0) });
        drop(t);
        DROPS.with_borrow(|d| { for &k in d { sym::check(11, k == 1) } sym::observe(d.len() as u64) });
        DROPS.with_borrow_mut(|d| *d = Vec::new());
        sym::cover(5);
    }
    sym::check(12, sym::heap() == before);
}

sym::entries! {
    fn k13_graph(kind, n, weak_all) {
        match kind { 0 => graph::<DatumRc<Tok, Tok>>(n, weak_all), _ => graph::<DatumArc<Tok, Tok>>(n, weak_all) }
    }
    fn k13_tree(kind, n) {
        match kind { 0 => tree::<DatumBox<Tok, Tok>>(n), 1 => tree::<DatumRc<Tok, Tok>>(n), _ => tree::<DatumArc<Tok, Tok>>(n) }
    }
    /// Any of the first `refusals` times that a datum is to be taken, it may be refused.
    fn k13_refuse(n, refusals) {
        REFUSALS.with_borrow_mut(|r| *r = refusals);
        tree::<Refusing>(n)
    }
}
