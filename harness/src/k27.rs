//! References that several threads share.

use super::{sym, trees::*};
use kul::datum::*;
use kul::drop::Algo1DatumRef;
use kul::{Datum, DerefTryMut};
use std::sync::{Arc, Weak};

type D = ArcDatum<V, u64>;
type R = DatumArc<V, u64>;

/// Any shape of up to this depth; the leaves all differ.
fn shape(depth: usize, n: &mut u64) -> Tree {
    *n += 1;
    match if depth == 0 { 0 } else { sym::pick(3) } {
        0 => if *n % 3 == 0 { Tree::Text("t") } else { Tree::Extra(*n) },
        1 => { let a = shape(depth - 1, n); Tree::Comb(Box::new(a), Box::new(shape(depth - 1, n))) }
        _ => { let a = shape(depth - 1, n); Tree::List(Box::new(a), Box::new(shape(depth - 1, n))) }
    }
}

/// Long in one direction or zigzag, with leaves or short branches beside it.
fn chain(n: usize, turn: usize, beside: usize) -> Tree {
    let mut t = Tree::Extra(0);
    for i in 0..n as u64 {
        let side = match beside { 0 => Tree::Extra(i), 1 => Tree::Text("t"), _ => Tree::List(Box::new(Tree::Extra(i)), Box::new(Tree::Empty)) };
        let left = match turn { 0 => true, 1 => false, _ => i % 2 == 0 };
        t = if left { Tree::Comb(Box::new(t), Box::new(side)) } else { Tree::List(Box::new(side), Box::new(t)) };
    }
    t
}

/// The datum, and a reference to the one at a place.
fn build(t: &Tree, k: &mut isize, found: &mut Option<Arc<D>>) -> R {
    let here = *k == 0;
    *k -= 1;
    let d = match t {
        Tree::Comb(a, b) => { let operator = build(a, k, found); Datum::Combination { operator, operands: build(b, k, found) } }
        Tree::List(a, b) => { let elem = build(a, k, found); Datum::List { elem, next: build(b, k, found) } }
        t => R::build(t),
    };
    let r = R::new(d);
    if here { *found = Some(Arc::clone(&r.0)) }
    r
}

fn is(d: &D, t: &Tree) -> bool {
    match (d, t) {
        (Datum::Text(a), Tree::Text(b)) => *a == V::from(kul::text::chunk::PosStr::from(*b)),
        (Datum::Extra(a), Tree::Extra(b)) => a == b,
        (Datum::EmptyNest, Tree::Nest) | (Datum::EmptyList, Tree::Empty) => true,
        (Datum::Combination { operator: a, operands: b }, Tree::Comb(c, d)) | (Datum::List { elem: a, next: b }, Tree::List(c, d)) => is(a, c) && is(b, d),
        _ => false,
    }
}

/// What the other thread has, and does.
struct Other {
    strong: Option<R>,
    weak: Option<Weak<D>>,
    does: usize,
    /// Whether there was a datum to be had.
    got: Option<bool>,
    /// Whether it could change the datum.
    changed: bool,
}
impl Other {
    fn act(&mut self) {
        let up = |s: &mut Self| {
            let r = s.weak.as_ref().and_then(Weak::upgrade).map(DatumArc);
            s.got = Some(r.is_some());
            r
        };
        match self.does {
            // Keep it from now on, with or without the weak one.
            0 => self.strong = up(self),
            1 => { self.strong = up(self); self.weak = None }
            // For a short time.
            2 => drop(up(self)),
            3 => self.weak = None,
            4 => self.strong = None,
            5 => { self.weak = self.strong.as_ref().map(|s| Arc::downgrade(&s.0)); self.strong = None }
            // The last one, perhaps.
            6 => { self.strong = None; self.strong = up(self) }
            7 => { let s = self.strong.as_ref().map(|s| DatumArc(Arc::clone(&s.0))); drop(self.strong.take()); self.strong = s; self.weak = self.strong.as_ref().map(|s| Arc::downgrade(&s.0)) }
            // As the only one, perhaps.
            8 => if let Some(d) = self.strong.as_mut().and_then(R::get_mut) { self.changed = true; *d = Datum::Extra(2000) },
            _ => if let Some(r) = &mut self.strong {
                match R::try_replace(r, Datum::Extra(1999)) {
                    Ok(old) => { self.changed = true; R::set(r, Datum::Extra(2000)); drop(old) }
                    Err(given) => self.changed = !matches!(given, Datum::Extra(1999)),
                }
            },
        }
    }
    /// Whether what it has, if anything, is what it must be.
    fn right(&self, t: &Tree) -> bool {
        self.strong.as_ref().map_or(true, |s| if self.changed { matches!(**s, Datum::Extra(2000)) } else { is(s, t) })
    }
}

fn meet(mut t: Tree, at: usize, does: usize, what: usize) {
    let sub = t.at(at).clone();
    let before = sym::heap();
    {
        let mut found = None;
        let mut root = Some(build(&t, &mut (at as isize), &mut found));
        let Some(found) = found else { sym::check(1, false); return };
        let weak = if does < 4 || does == 6 { Some(Arc::downgrade(&found)) } else { None };
        let mut o = Other { strong: if does < 4 { None } else { Some(DatumArc(Arc::clone(&found))) }, weak, does, got: None, changed: false };
        drop(found);
        // What was taken, if it could be.
        let mut taken = None;
        let during = sym::race(|| o.act(), || match what {
            0 => root = None,
            1 => taken = root.as_mut().map(|r| {
                let got = R::try_replace(r, Datum::Extra(1000));
                if got.is_ok() { R::set(r, Datum::Extra(1001)) }
                got
            }),
            2 => if let Some(d) = root.as_mut().and_then(R::get_mut) { *d = Datum::Extra(1001) },
            _ => { let again = root.as_ref().map(|r| DatumArc(Arc::clone(&r.0))); root = None; drop(again) }
        });
        if during { sym::cover(1) }
        match o.got { Some(true) => sym::cover(2), Some(false) => sym::cover(3), None => sym::cover(4) }
        // Whoever has it has all of it.
        sym::check(2, o.right(&sub));
        if o.changed { sym::cover(9) }
        match (&taken, &root) {
            (Some(Ok(d)), Some(r)) => {
                sym::check(3, is(d, &t) && matches!(**r, Datum::Extra(1001)));
                // Nobody else has it.
                if at == 0 { sym::check(4, o.strong.is_none()) }
                sym::cover(5)
            }
            (Some(Err(given)), Some(r)) => {
                sym::check(5, is(r, &t) && matches!(given, Datum::Extra(1000)));
                // Somebody else had it.
                sym::check(6, at == 0 && (does > 3 || o.got == Some(true)));
                sym::cover(6)
            }
            (_, Some(r)) => {
                let mine = matches!(**r, Datum::Extra(1001));
                sym::check(7, mine || is(r, &t));
                if mine { if at == 0 { sym::check(8, o.strong.is_none()) } sym::cover(7) } else { sym::check(9, at == 0); sym::cover(8) }
            }
            _ => (),
        }
        drop(taken);
        drop(root);
        sym::check(10, o.right(&sub));
        if let (Some(w), None) = (&o.weak, &o.strong) { sym::check(11, w.strong_count() == 0) }
    }
    sym::check(12, sym::heap() == before);
    sym::observe(t.size() as u64);
}

sym::entries! {
    fn k27_any(what, depth) {
        let t = shape(depth, &mut 0);
        let at = sym::pick(t.size());
        meet(t, at, sym::pick(10), what)
    }
    /// Deeper, where dropping has to restructure.
    fn k27_chain(what, n) {
        let t = chain(1 + sym::pick(n), sym::pick(3), sym::pick(3));
        let at = sym::pick(t.size());
        meet(t, at, sym::pick(10), what)
    }
}
