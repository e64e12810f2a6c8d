//! Comparing, hashing and cloning datums and errors.

use super::{sources::*, sym, trees::*};
use kul::datum::*;
use kul::parser::AllocError;
use kul::text::chunk::{CharPos, StrPos};
use kul::{Datum, Error};
use std::hash::Hash;

type B = DatumBox<V, u64>;
type R = DatumRc<V, u64>;
type A = DatumArc<V, u64>;
type M = DatumMutRef<'static, V, u64>;
type L = DatumMutRef<'static, ListText, u64>;

/// Two datums, built from trees.
fn pair<X: Refs, Y: Refs>(s: &Tree, t: &Tree) where X::TT: PartialEq<Y::TT> + Hash, Y::TT: PartialEq<X::TT> + Hash, X: Hash, Y: Hash {
    let a = X::build(s);
    let b = Y::build(t);
    let want = s.same(t);
    sym::check(1, (a == b) == want);
    sym::check(2, (b == a) == want);
    sym::check(3, (a != b) != want);
    if want {
        sym::check(4, rec(&a) == rec(&b));
        sym::cover(1);
    } else {
        sym::cover(2);
        if s.size() == t.size() { sym::cover(3) }
    }
    sym::observe(want as u64);
    sym::observe(s.size() as u64);
}

fn by(p: usize, s: &Tree, t: &Tree) {
    match p {
        0 => pair::<B, B>(s, t),
        1 => pair::<B, R>(s, t),
        2 => pair::<R, A>(s, t),
        3 => pair::<A, M>(s, t),
        4 => pair::<M, L>(s, t),
        5 => pair::<L, B>(s, t),
        6 => pair::<R, R>(s, t),
        7 => pair::<L, L>(s, t),
        _ => pair::<A, A>(s, t),
    }
}

/// Two references.
fn refs<X: Refs + PartialEq + Clone + Hash>(s: &Tree, t: &Tree) where X::TT: PartialEq + Hash + Clone {
    let a = X::new(X::build(s));
    let b = X::new(X::build(t));
    let want = s.same(t);
    let shared = sym::pick(4);
    let keep = (if shared % 2 == 1 { sym::cover(3); Some(a.clone()) } else { None }, if shared / 2 == 1 { Some(b.clone()) } else { None });
    // All the way down.
    let deep = if shared > 0 { Some(((*a).clone(), (*b).clone())) } else { None };
    sym::check(10, (a == b) == want);
    sym::check(11, (b != a) != want);
    sym::check(12, *a == *b || !want);
    if want { sym::check(13, rec(&a) == rec(&b)); sym::cover(1) } else { sym::cover(2) }
    if let (Some(c), d) = &keep {
        sym::check(14, a == *c && (b == *c) == want);
        if let Some(d) = d { sym::check(15, (c == d) == want) }
    }
    if let Some((c, d)) = deep {
        sym::check(16, *a == c && *b == d && (c == d) == want);
        drop((a, b, keep));
        sym::check(17, (c == d) == want && c == X::build(s));
    }
    sym::observe(want as u64);
}

/// A text that records how deep it is compared.
#[derive(Clone, Hash, Eq)]
struct Probe(u64);
static DEEP: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
use std::sync::atomic::Ordering::Relaxed;
impl PartialEq for Probe {
    fn eq(&self, o: &Probe) -> bool {
        DEEP.store(DEEP.load(Relaxed).max(sym::depth()), Relaxed);
        self.0 == o.0
    }
}
type PD = Datum<Probe, u64, PR>;
/// Not dropped, so that only comparing matters.
struct PR(&'static mut PD);
impl std::ops::Deref for PR { type Target = PD; fn deref(&self) -> &PD { self.0 } }
impl kul::DerefTryMut for PR { fn get_mut(this: &mut Self) -> Option<&mut PD> { Some(this.0) } }
fn pr(d: PD) -> PR { PR(Box::leak(Box::new(d))) }

/// A long list or deep nest with this many parts.
fn long(shape: usize, n: usize, last: u64) -> PD {
    let part = |k: usize| -> PD {
        match shape % 3 {
            0 => Datum::Text(Probe(k as u64)),
            1 => Datum::Combination { operator: pr(Datum::Text(Probe(k as u64))), operands: pr(Datum::EmptyList) },
            _ => Datum::List { elem: pr(Datum::Text(Probe(k as u64))), next: pr(Datum::List { elem: pr(Datum::EmptyNest), next: pr(Datum::EmptyList) }) },
        }
    };
    let mut d = if shape < 6 { Datum::List { elem: pr(Datum::Text(Probe(last))), next: pr(Datum::EmptyList) } } else { Datum::Text(Probe(last)) };
    for k in 0..n {
        d = match shape / 3 {
            // A list.
            0 => Datum::List { elem: pr(part(k)), next: pr(d) },
            // A nest in the head.
            1 => Datum::Combination { operator: pr(d), operands: pr(part(k)) },
            // A nest in the head, around a list at the half.
            _ => if k * 2 < n { Datum::List { elem: pr(part(k)), next: pr(d) } } else { Datum::Combination { operator: pr(d), operands: pr(part(k)) } },
        };
    }
    d
}

fn error(k: usize, x: u64) -> Error<CharPos, u64> {
    match k {
        0 => Error::UnbalancedEndChar(CharPos(x as usize)),
        1 => Error::MissingEndChar,
        2 => Error::FailedAlloc(AllocError::AllocExhausted),
        3 => Error::FailedDerefTryMut,
        _ => Error::FailedCombiner(x),
    }
}

sym::entries! {
    /// Any two trees.
    fn k12_pairs(refs, da, db, kinds) {
        let s = any(da, kinds);
        let t = any(db, kinds);
        by(refs, &s, &t)
    }
    /// Any tree and the same with something else at one place.
    fn k12_changed(refs, depth, other, kinds) {
        let s = any(depth, kinds);
        let mut t = s.clone();
        let k = sym::pick(s.size());
        *t.at(k) = any(other, 4);
        by(refs, &s, &t)
    }
    /// Clones.
    fn k12_clone(depth, kinds) {
        let s = any(depth, kinds);
        let b = B::build(&s);
        let r = R::build(&s);
        let a = A::build(&s);
        let (b2, r2, a2) = (b.clone(), r.clone(), a.clone());
        sym::check(5, b == b2 && r == r2 && a == a2);
        sym::check(6, rec(&b) == rec(&b2) && rec(&r) == rec(&r2) && rec(&a) == rec(&a2));
        drop((b, r, a));
        let b = B::build(&s);
        sym::check(7, b == b2 && b == r2 && b == a2);
        sym::observe(s.size() as u64);
        if s.size() > 1 { sym::cover(1) } else { sym::cover(2) }
    }
    /// The references themselves, which something else may refer to as well.
    fn k12_refs(kind, da, db, kinds) {
        let s = any(da, kinds);
        let t = if sym::bool() { s.clone() } else { any(db, kinds) };
        match kind {
            0 => refs::<B>(&s, &t),
            1 => refs::<R>(&s, &t),
            _ => refs::<A>(&s, &t),
        }
    }
    /// How deep the stack gets must not depend on how long lists and how deep
    /// nests are.
    fn k12_long(shape, n) {
        let x = sym::u8() as u64;
        let y = sym::u8() as u64;
        let mut deep = [0; 2];
        for (i, m) in [n, 2 * n].into_iter().enumerate() {
            let a = long(shape, m, x);
            let b = long(shape, m, y);
            DEEP.store(0, Relaxed);
            let got = a == b;
            deep[i] = DEEP.load(Relaxed);
            sym::check(8, got == (x == y));
            std::mem::forget((a, b));
        }
        sym::check(9, deep[0] > 0 && deep[1] < deep[0] + n / 2);
        if x == y { sym::cover(1) } else { sym::cover(2) }
        sym::observe((x == y) as u64);
    }
    fn k12_errors() {
        let (i, j) = (sym::pick(5), sym::pick(5));
        let (x, y) = (sym::u8() as u64, sym::u8() as u64);
        let (a, b) = (error(i, x), error(j, y));
        let want = i == j && (i != 0 && i != 4 || x == y);
        sym::check(10, (a == b) == want && (a != b) != want);
        let c = a;
        sym::check(11, c == a && (c == b) == want);
        sym::observe(want as u64);
        if want { sym::cover(1) } else { sym::cover(2); if i == j { sym::cover(3) } }
    }
    /// Positions in strings.
    fn k12_positions() {
        let s = "abc";
        let p = |a: u64, b: u64| StrPos { src: s, byte_pos: a as usize, char_pos: b as usize };
        let (w, x, y, z) = (sym::u8() as u64, sym::u8() as u64, sym::u8() as u64, sym::u8() as u64);
        let a: Error<StrPos<'_>, ()> = Error::UnbalancedEndChar(p(w, x));
        let b: Error<StrPos<'_>, ()> = Error::UnbalancedEndChar(p(y, z));
        let want = w == y && x == z;
        sym::check(12, (a == b) == want);
        sym::observe(want as u64);
        if want { sym::cover(1) } else { sym::cover(2) }
    }
}
