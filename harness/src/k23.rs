//! Mutable access to datums, and taking them.

use super::{sources::*, sym, trees::*};
use kul::datum::*;
use kul::drop::Algo1DatumRef;
use kul::{Datum, DerefTryMut};
use std::rc::{self, Rc};
use std::sync::{self, Arc};

/// Reference-counted ones.
trait Counted: Refs + Algo1DatumRef {
    type Weak: Clone;
    fn share(&self) -> Self;
    fn weak(&self) -> Self::Weak;
    fn up(w: &Self::Weak) -> Option<Self>;
}
impl Counted for DatumRc<V, u64> {
    type Weak = rc::Weak<RcDatum<V, u64>>;
    fn share(&self) -> Self { DatumRc(Rc::clone(&self.0)) }
    fn weak(&self) -> Self::Weak { Rc::downgrade(&self.0) }
    fn up(w: &Self::Weak) -> Option<Self> { w.upgrade().map(DatumRc) }
}
impl Counted for DatumArc<V, u64> {
    type Weak = sync::Weak<ArcDatum<V, u64>>;
    fn share(&self) -> Self { DatumArc(Arc::clone(&self.0)) }
    fn weak(&self) -> Self::Weak { Arc::downgrade(&self.0) }
    fn up(w: &Self::Weak) -> Option<Self> { w.upgrade().map(DatumArc) }
}

/// What a datum holds now: a number, in one of several forms.
fn make<R: Refs>(k: u64, form: usize) -> Datum<R::TT, u64, R> {
    match form {
        0 => Datum::Extra(k),
        1 => Datum::List { elem: R::new(Datum::Extra(k)), next: R::new(Datum::EmptyList) },
        _ => Datum::Combination { operator: R::new(Datum::EmptyNest), operands: R::new(Datum::Extra(k)) },
    }
}
fn is<R: Refs>(d: &Datum<R::TT, u64, R>, k: u64, form: usize) -> bool {
    match (d, form) {
        (Datum::Extra(x), 0) => *x == k,
        (Datum::List { elem, next }, 1) => matches!((&**elem, &**next), (Datum::Extra(x), Datum::EmptyList) if *x == k),
        (Datum::Combination { operator, operands }, 2) => matches!((&**operator, &**operands), (Datum::EmptyNest, Datum::Extra(x)) if *x == k),
        _ => false,
    }
}

/// Any history of references to one datum, or two.
fn history<R: Counted>(steps: usize) {
    let form = sym::pick(3);
    // The strong and weak references there are, and to which datum.
    let mut strong: Vec<(usize, R)> = vec![(0, R::new(make(0, form)))];
    let mut weak: Vec<(usize, R::Weak)> = vec![];
    let mut now: Vec<(u64, usize)> = vec![(0, form)];
    for i in 1..=steps {
        if strong.is_empty() { break }
        let j = if strong.len() > 1 { sym::pick(strong.len()) } else { 0 };
        let id = strong[j].0;
        let strongs = strong.iter().filter(|s| s.0 == id).count();
        let weaks = weak.iter().filter(|w| w.0 == id).count();
        match sym::pick(7) {
            0 => { let s = strong[j].1.share(); strong.push((id, s)) }
            1 => { let w = strong[j].1.weak(); weak.push((id, w)) }
            2 => { strong.remove(j); }
            3 => if !weak.is_empty() {
                let k = sym::pick(weak.len());
                let (id, w) = weak.remove(k);
                let live = strong.iter().any(|s| s.0 == id);
                let up = R::up(&w);
                sym::check(1, up.is_some() == live);
                if let Some(s) = up { strong.push((id, s)) }
            },
            // Writing.
            4 => {
                let got = R::get_mut(&mut strong[j].1);
                sym::check(2, got.is_some() == (strongs == 1 && weaks == 0));
                match got {
                    Some(d) => {
                        sym::check(3, is::<R>(d, now[id].0, now[id].1));
                        *d = make::<R>(i as u64, i % 3);
                        now[id] = (i as u64, i % 3);
                        sym::cover(1);
                    }
                    None => { if strongs == 1 { sym::cover(3) } else { sym::cover(2) } }
                }
            }
            // Taking.
            5 => {
                let got = R::try_replace(&mut strong[j].1, make::<R>(i as u64, i % 3));
                sym::check(4, got.is_ok() == (strongs == 1));
                match got {
                    Ok(old) => {
                        sym::check(5, is::<R>(&old, now[id].0, now[id].1));
                        // It may be that the datum lives elsewhere now, and
                        // weak references to it don't follow.
                        now[id] = (i as u64, i % 3);
                        let (_, r) = strong.remove(j);
                        let id2 = now.len();
                        now.push(now[id]);
                        let moved = weak.iter().filter(|w| w.0 == id).all(|w| R::up(&w.1).is_none());
                        if moved || weaks == 0 { strong.push((id2, r)); if weaks > 0 { sym::cover(5) } } else { strong.push((id, r)) }
                        sym::cover(4);
                    }
                    Err(given) => {
                        sym::check(6, is::<R>(&given, i as u64, i % 3));
                        sym::cover(6);
                    }
                }
            }
            // What was taken can be put back, or something else.
            _ => if strongs == 1 && weaks == 0 {
                let old = R::try_replace(&mut strong[j].1, Datum::EmptyList);
                sym::check(7, old.is_ok());
                if old.is_ok() {
                    R::set(&mut strong[j].1, make::<R>(i as u64, (i + 1) % 3));
                    now[id] = (i as u64, (i + 1) % 3);
                    sym::cover(7);
                }
            },
        }
        for (id, s) in &strong { sym::check(8, is::<R>(s, now[*id].0, now[*id].1)) }
        for (id, w) in &weak {
            if let Some(s) = R::up(w) { sym::check(9, is::<R>(&s, now[*id].0, now[*id].1)) }
        }
    }
    sym::observe(strong.len() as u64);
    sym::observe(weak.len() as u64);
}

/// Those that own alone, or borrow.
fn sole<R: Refs>(steps: usize) {
    let mut form = sym::pick(3);
    let mut r = R::new(make(0, form));
    let mut k = 0;
    for i in 1..=steps as u64 {
        match sym::pick(3) {
            0 => sym::check(20, is::<R>(&r, k, form)),
            1 => match R::get_mut(&mut r) {
                Some(d) => { sym::check(21, is::<R>(d, k, form)); k = i; form = (i % 3) as usize; *d = make::<R>(k, form); sym::cover(1) }
                None => sym::check(22, false),
            },
            _ => match R::get_mut(&mut r) {
                // In place.
                Some(Datum::Extra(x)) => { k += 100; *x = k }
                Some(Datum::List { elem, .. }) => { if let Some(Datum::Extra(x)) = R::get_mut(elem) { k += 100; *x = k } else { sym::check(23, false) } }
                Some(Datum::Combination { operands, .. }) => { if let Some(Datum::Extra(x)) = R::get_mut(operands) { k += 100; *x = k } else { sym::check(23, false) } }
                _ => sym::check(22, false),
            }
        }
    }
    sym::check(24, is::<R>(&r, k, form));
    sym::observe(k);
}

/// The inner reference is what is written through.
fn direct(steps: usize) {
    let mut b = DatumBox::<V, u64>::new(Datum::Extra(0));
    let mut m = DatumMutRef::<'static, V, u64>(Box::leak(Box::new(Datum::Extra(0))));
    let mut k = 0;
    for i in 1..=steps as u64 {
        match sym::pick(3) {
            0 => { *b = Datum::Extra(i); *m = Datum::Extra(i); k = i }
            1 => { *b.0 = Datum::Extra(i); *m.0 = Datum::Extra(i); k = i }
            _ => { if let (Datum::Extra(x), Datum::Extra(y)) = (&mut *b, &mut *m) { *x += 5; *y += 5; k += 5 } }
        }
        sym::check(30, matches!(&*b, Datum::Extra(x) if *x == k));
        sym::check(31, matches!(&*m, Datum::Extra(x) if *x == k));
        let old = DatumBox::try_replace(&mut b, Datum::EmptyNest);
        sym::check(32, matches!(old, Ok(Datum::Extra(x)) if x == k));
        sym::check(33, matches!(&*b, Datum::EmptyNest));
        DatumBox::set(&mut b, Datum::Extra(k));
        sym::check(34, matches!(&*b, Datum::Extra(x) if *x == k));
    }
    sym::cover(1);
    sym::observe(k);
}

sym::entries! {
    fn k23_history(kind, steps) { if kind == 0 { history::<DatumRc<V, u64>>(steps) } else { history::<DatumArc<V, u64>>(steps) } }
    fn k23_sole(kind, steps) {
        match kind {
            0 => sole::<DatumBox<V, u64>>(steps),
            1 => sole::<DatumMutRef<'static, V, u64>>(steps),
            2 => sole::<DatumMutRef<'static, ListText, u64>>(steps),
            // Not shared.
            3 => sole::<DatumRc<V, u64>>(steps),
            _ => sole::<DatumArc<V, u64>>(steps),
        }
    }
    fn k23_direct(steps) { direct(steps) }
}
