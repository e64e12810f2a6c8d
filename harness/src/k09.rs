//! Comparing and hashing texts.

use super::{sources::*, sym};
use kul::text::{chunk::{PosStr, PosStrish}, TextVec};
use kul::Text;
use std::cmp::Ordering;
use std::hash::Hash;
use std::rc::Rc;
use std::sync::Arc;

fn compare<A: Build, B: Build>(s: &'static str, t: &'static str, empties: usize)
    where A: PartialEq<B> + PartialOrd<B>, B: PartialEq<A> + PartialOrd<A>,
{
    sym::note(s);
    sym::note(t);
    let p = pieces(s, empties);
    let q = pieces(t, empties);
    let a = A::build(s, &p);
    let b = B::build(t, &q);
    let want = s.chars().cmp(t.chars());
    let eq = want == Ordering::Equal;
    sym::check(1, Text::eq(&a, &b) == eq);
    sym::check(2, (a == b) == eq && (a != b) != eq && (b == a) == eq);
    sym::check(3, Text::cmp(&a, &b) == want && Text::cmp(&b, &a) == want.reverse());
    sym::check(4, a.partial_cmp(&b) == Some(want) && b.partial_cmp(&a) == Some(want.reverse()));
    if eq {
        sym::check(5, rec(&a) == rec(&b));
        let (mut x, mut y) = (Rec::default(), Rec::default());
        Text::hash(&a, &mut x);
        Text::hash(&b, &mut y);
        sym::check(6, x.0 == y.0);
        if !s.is_empty() { sym::cover(1) }
        if p.len() != q.len() { sym::cover(4) }
    }
    match want { Ordering::Less => sym::cover(2), Ordering::Greater => sym::cover(3), _ => () }
    if s.starts_with(t) && !eq { sym::cover(5) }
    sym::observe(want as u64);
}

/// The total order of one type.
fn order<A: Build>(s: &'static str, t: &'static str) {
    let a = A::build(s, &pieces(s, 0));
    let b = A::build(t, &pieces(t, 0));
    let want = s.chars().cmp(t.chars());
    sym::check(7, Ord::cmp(&a, &b) == want);
    match want { Ordering::Less => sym::cover(2), Ordering::Greater => sym::cover(3), _ => sym::cover(1) }
    sym::observe(want as u64);
}

/// A hash that is quick to compute.
#[derive(std::default::Default, PartialEq)]
struct Last(u64, u64);
impl std::hash::Hasher for Last {
    fn write(&mut self, b: &[u8]) { for &b in b { self.0 = self.0.wrapping_mul(31).wrapping_add(b as u64); self.1 += 1 } }
    fn finish(&self) -> u64 { self.0 }
}

type V = TextVec<PosStr<'static>>;
type R = TextVec<PosStrish<Rc<String>>>;
type S = TextVec<PosStrish<Arc<str>>>;
type L = ListText;

fn any(n: usize) -> &'static str { leak(sym::utf8(sym::pick(n + 1))) }

sym::entries! {
    /// Any two texts of up to n bytes.
    fn k09_compare(pair, n, empties) {
        let (s, t) = (any(n), any(n));
        match pair {
            0 => compare::<V, V>(s, t, empties),
            1 => compare::<V, R>(s, t, empties),
            2 => compare::<R, S>(s, t, empties),
            3 => compare::<L, V>(s, t, empties),
            4 => compare::<L, L>(s, t, empties),
            5 => compare::<L, R>(s, t, empties),
            6 => compare::<R, R>(s, t, empties),
            7 => compare::<Own, Own>(s, t, empties),
            // The premade types compare with any.
            _ => compare::<Own, V>(s, t, empties),
        }
    }
    fn k09_order(kind, n) {
        let (s, t) = (any(n), any(n));
        match kind {
            0 => order::<V>(s, t),
            1 => order::<R>(s, t),
            2 => order::<L>(s, t),
            _ => order::<Own>(s, t),
        }
    }
    /// More characters than fit sixteen bits, in a few pieces.
    fn k09_huge(len) {
        let mut s = String::new();
        for i in 0..len { s.push(['a', 'λ', '\u{3000}', '\u{10348}'][i % 4]) }
        let mut t = s.clone();
        s += &sym::over(&['a', 'b'], 1);
        t += &sym::over(&['a', 'c'], 1);
        let (s, t) = (leak(s), leak(t));
        let cut = |s: &str, k: usize| {
            let at: Vec<usize> = s.char_indices().map(|x| x.0).step_by(k).chain([s.len()]).collect();
            at.windows(2).map(|w| w[0]..w[1]).collect::<Vec<_>>()
        };
        let (a, b) = (V::build(s, &cut(s, len / 3)), R::build(t, &cut(t, len / 2)));
        let want = s.chars().cmp(t.chars());
        sym::check(8, (a == b) == (want == Ordering::Equal) && a.partial_cmp(&b) == Some(want));
        if want == Ordering::Equal {
            let (mut x, mut y) = (Last::default(), Last::default());
            Hash::hash(&a, &mut x);
            Hash::hash(&b, &mut y);
            sym::check(9, x == y);
            let mut z = Last::default();
            Hash::hash(&V::build(s, &[0..s.len()]), &mut z);
            sym::check(9, x == z);
            sym::cover(1)
        } else { sym::cover(2) }
        sym::observe(want as u64);
    }
    /// Long texts with one place where they may differ, or one being longer.
    fn k09_long(pair, len) {
        let mut s = String::new();
        for i in 0..len { s.push(['a', 'λ', '\u{3000}', '\u{10348}'][i % 4]) }
        let mut t = s.clone();
        s += &sym::utf8(1 + sym::pick(2));
        t += &sym::utf8(1 + sym::pick(2));
        if sym::bool() { s += "x" }
        if sym::bool() { t += "y" }
        let (s, t) = (leak(s), leak(t));
        let step = |s: &str, k: usize| {
            let at: Vec<usize> = s.char_indices().map(|x| x.0).step_by(k).chain([s.len()]).collect();
            at.windows(2).map(|w| w[0]..w[1]).collect::<Vec<_>>()
        };
        let (j, k) = ([1, 7, 2 * len][sym::pick(3)], [2, 3, 150, 2 * len][sym::pick(4)]);
        fn go<A: Build + PartialEq<B> + PartialOrd<B>, B: Build>(a: A, b: B, s: &str, t: &str) {
            let want = s.chars().cmp(t.chars());
            sym::check(8, (a == b) == (want == Ordering::Equal) && a.partial_cmp(&b) == Some(want));
            if want == Ordering::Equal { sym::check(9, rec(&a) == rec(&b)); sym::cover(1) } else { sym::cover(2) }
            sym::observe(want as u64);
        }
        match pair {
            0 => go(V::build(s, &step(s, j)), R::build(t, &step(t, k)), s, t),
            1 => go(R::build(s, &step(s, j)), V::build(t, &step(t, k)), s, t),
            _ => go(S::build(s, &step(s, j)), V::build(t, &step(t, k)), s, t),
        }
    }
}
