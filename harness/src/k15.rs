//! Allocating from a slice.

use super::{sources::leak, sym, trees::V};
use kul::datum::{DatumMutRef, MutRefDatum};
use kul::parser::{AllocError, DatumAllocator, SliceDatumAllocator};
use kul::{Datum, Text};
use std::cell::RefCell;

thread_local! { static DROPS: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) } }

/// Counts how often it is dropped.
pub struct Tok(usize);
impl Tok {
    fn new() -> Tok { DROPS.with_borrow_mut(|d| { d.push(0); Tok(d.len() - 1) }) }
}
impl Drop for Tok {
    fn drop(&mut self) { DROPS.with_borrow_mut(|d| d[self.0] += 1) }
}
fn drops(k: usize) -> u8 { DROPS.with_borrow(|d| d[k]) }

type D = MutRefDatum<'static, V, Tok>;
type R = DatumMutRef<'static, V, Tok>;

/// What a slot has to hold.
#[derive(Clone, Copy)]
enum Val { Text(&'static str), Extra(usize), Nest, List(usize, usize), Comb(usize, usize), Empty }

fn holds(d: &D, id: usize, vals: &[Val]) -> bool {
    match (d, vals[id]) {
        (Datum::Text(t), Val::Text(s)) => t.partial_eq(s),
        (Datum::Extra(t), Val::Extra(k)) => t.0 == k && drops(k) == 0,
        (Datum::EmptyNest, Val::Nest) | (Datum::EmptyList, Val::Empty) => true,
        (Datum::List { elem: a, next: b }, Val::List(x, y)) | (Datum::Combination { operator: a, operands: b }, Val::Comb(x, y)) =>
            holds(a, x, vals) & holds(b, y, vals),
        _ => false,
    }
}
trait Eq2 { fn partial_eq(&self, s: &str) -> bool; }
impl Eq2 for V {
    fn partial_eq(&self, s: &str) -> bool {
        let mut it = self.iter();
        let mut ok = true;
        for c in s.chars() { match it.next() { Some(x) => ok &= x.ch == c, None => return false } }
        ok & it.next().is_none()
    }
}

/// Any number of slots, then `calls` allocations of anything, the datums that
/// are there so far being used in the later ones or changed.
fn history(max: usize, calls: usize, kinds: usize) {
    let n = sym::pick(max + 1);
    let mut v: Vec<D> = vec![];
    let mut before = vec![];
    for i in 0..n {
        v.push(match i % 3 {
            0 => { let t = Tok::new(); before.push(Some(t.0)); Datum::Extra(t) }
            1 => { before.push(None); Datum::Text(V::from_str("q")) }
            _ => { before.push(None); Datum::EmptyList }
        })
    }
    let slots: &'static mut [D] = Box::leak(v.into_boxed_slice());
    let base = slots.as_ptr() as usize;
    let size = std::mem::size_of::<D>();
    let mut da = SliceDatumAllocator::new(slots);
    let mut vals: Vec<Val> = vec![];
    let mut refs: Vec<Option<R>> = vec![];
    let mut used = vec![false; n];
    let mut slot_of: Vec<usize> = vec![];
    let mut given = 0;
    for _ in 0..calls {
        let roots: Vec<usize> = (0..refs.len()).filter(|&i| refs[i].is_some()).collect();
        let (from, val, tok) = match sym::pick(kinds) {
            0 => { let s = leak(sym::ascii(1)); (Datum::Text(V::from_str(s)), Val::Text(s), None) }
            1 => { let t = Tok::new(); let k = t.0; (Datum::Extra(t), Val::Extra(k), Some(k)) }
            k @ (2 | 3) if roots.len() >= 2 => {
                let x = roots[sym::pick(roots.len())];
                let y = *roots.iter().find(|&&y| y != x).unwrap();
                let (Some(a), Some(b)) = (refs[x].take(), refs[y].take()) else { return };
                if k == 2 { (Datum::List { elem: a, next: b }, Val::List(x, y), None) }
                else { (Datum::Combination { operator: a, operands: b }, Val::Comb(x, y), None) }
            }
            4 if !roots.is_empty() => {
                // The owner of one changes it.
                let x = roots[sym::pick(roots.len())];
                if let Some(r) = &mut refs[x] { *r.0 = Datum::EmptyList }
                if let Val::Extra(k) = vals[x] { sym::check(9, drops(k) == 1) }
                vals[x] = Val::Empty;
                sym::cover(4);
                continue;
            }
            _ => (Datum::EmptyNest, Val::Nest, None),
        };
        match da.new_datum(from) {
            Ok(r) => {
                sym::check(1, given < n);
                let p = &*r as *const D as usize;
                // One of the slots, and not one handed out before.
                let k = p.wrapping_sub(base) / size;
                sym::check(2, k < n && p == base + k * size);
                if k >= n { return }
                sym::check(3, !used[k]);
                used[k] = true;
                slot_of.push(k);
                if let Some(t) = before[k] { sym::check(4, drops(t) == 1) }
                given += 1;
                vals.push(val);
                refs.push(Some(r));
                if given == n { sym::cover(1) }
            }
            Err(e) => {
                sym::check(5, given == n);
                sym::check(6, e == AllocError::AllocExhausted);
                if let Some(t) = tok { sym::check(7, drops(t) == 1) }
                // What was given with it went with it.
                vals.push(Val::Nest);
                refs.push(None);
                sym::cover(2);
            }
        }
    }
    for i in 0..refs.len() {
        if let Some(r) = &refs[i] { sym::check(8, holds(r, i, &vals)) }
    }
    let failed = vals.len() > given;
    let rest = da.unused();
    if !failed {
        match rest {
            None => sym::check(10, given == n),
            Some(s) => {
                sym::check(11, s.len() == n - given);
                for d in s.iter() {
                    let k = (d as *const D as usize).wrapping_sub(base) / size;
                    sym::check(12, k < n && !used[k]);
                    if k >= n { return }
                    used[k] = true;
                }
                if !s.is_empty() {
                    sym::cover(3);
                    // They can serve again.
                    let mut again = SliceDatumAllocator::new(s);
                    for i in given..n + 1 { sym::check(13, again.new_datum(Datum::EmptyNest).is_ok() == (i < n)) }
                }
            }
        }
    }
    for i in 0..refs.len() {
        if let Some(r) = &refs[i] { sym::check(14, holds(r, i, &vals)) }
    }
    sym::observe(given as u64);
}

sym::entries! {
    fn k15_history(slots, calls, kinds) { history(slots, calls, kinds) }
    /// Many slots, nearly all used.
    fn k15_many(n) {
        let more = sym::pick(4);
        let v: Vec<D> = (0..n).map(|_| Datum::EmptyList).collect();
        let slots: &'static mut [D] = Box::leak(v.into_boxed_slice());
        let base = slots.as_ptr() as usize;
        let size = std::mem::size_of::<D>();
        let mut da = SliceDatumAllocator::new(slots);
        let mut used = vec![false; n];
        let s = leak(sym::ascii(1));
        let mut kept = vec![];
        for i in 0..n + more - 2 {
            match da.new_datum(Datum::Text(V::from_str(s))) {
                Ok(r) => {
                    let k = (&*r as *const D as usize).wrapping_sub(base) / size;
                    sym::check(1, i < n && k < n);
                    if k >= n { return }
                    sym::check(2, !used[k]);
                    used[k] = true;
                    kept.push(r);
                }
                Err(_) => { sym::check(3, i >= n); sym::cover(2) }
            }
        }
        for r in &kept { sym::check(4, matches!(&**r, Datum::Text(t) if t.partial_eq(s))) }
        sym::check(5, kept.len() == (n + more - 2).min(n));
        if more < 2 {
            sym::check(6, da.unused().map_or(0, |s| s.len()) == 2 - more);
            sym::cover(1);
        }
        sym::observe(kept.len() as u64);
    }
}
