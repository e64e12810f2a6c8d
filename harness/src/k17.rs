//! Looking up what an operator is bound to.

use super::{sources::*, sym, trees::*};
use kul::combiner::{ApFn, OpFn};
use kul::datum::*;
use kul::parser::*;
use kul::text::{chunk::{PosStr, PosStrish}, TextVec};
use kul::{Combiner, Datum, Text};
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::Deref;
use std::rc::Rc;

/// A combiner that has a number.
pub struct Op<DA: DatumAllocator>(usize, Box<OpFn<DA, u64>>);
pub struct Ap<DA: DatumAllocator>(usize, Box<ApFn<DA, u64>>);
impl<DA: DatumAllocator> Deref for Op<DA> { type Target = OpFn<DA, u64>; fn deref(&self) -> &Self::Target { &*self.1 } }
impl<DA: DatumAllocator> Deref for Ap<DA> { type Target = ApFn<DA, u64>; fn deref(&self) -> &Self::Target { &*self.1 } }

type C<DA> = Combiner<Op<DA>, Ap<DA>>;
fn combiner<DA: DatumAllocator>(k: usize) -> C<DA> {
    if k % 2 == 0 { Combiner::Operative(Op(k, Box::new(|_, _, _| Ok(None)))) } else { Combiner::Applicative(Ap(k, Box::new(|_, _, _| Ok(None)))) }
}
fn number<DA: DatumAllocator>(c: Option<&C<DA>>) -> Option<usize> {
    c.map(|c| match c {
        Combiner::Operative(o) => { sym::check(8, o.0 % 2 == 0); o.0 }
        Combiner::Applicative(a) => { sym::check(8, a.0 % 2 == 1); a.0 }
    })
}

/// The first one in order.
fn pair<R: Refs, DA>(keys: &[Tree], head: &Tree) where DA: DatumAllocator<TT = R::TT, ET = u64, DR = R>, R::TT: Text, Datum<R::TT, u64, R>: PartialEq {
    let v: Vec<_> = keys.iter().enumerate().map(|(i, t)| (R::build(t), combiner::<DA>(i))).collect();
    let b = PairOperatorBindings::<_, DA, _, _, u64>::new(v);
    let want = keys.iter().position(|k| k.same(head));
    let d = R::build(head);
    sym::check(1, number(b.lookup(&d)) == want);
    // Looking doesn't change anything.
    sym::check(2, number(b.lookup(&d)) == want);
    seen(keys, head, want);
}

fn seen(keys: &[Tree], head: &Tree, want: Option<usize>) {
    match want {
        None => sym::cover(1),
        Some(0) => sym::cover(2),
        Some(_) => sym::cover(3),
    }
    if keys.iter().filter(|k| k.same(head)).count() > 1 { sym::cover(4) }
    sym::observe(want.map_or(99, |k| k as u64));
}

/// Any hash function, as far as it is used: each content gets any of a few
/// values.
#[derive(Clone)]
pub struct AnyHash(Rc<(usize, RefCell<Vec<(Vec<u8>, u64)>>)>);
pub struct AnyHasher(AnyHash, Vec<u8>);
impl BuildHasher for AnyHash {
    type Hasher = AnyHasher;
    fn build_hasher(&self) -> AnyHasher { AnyHasher(self.clone(), vec![]) }
}
impl Hasher for AnyHasher {
    fn write(&mut self, b: &[u8]) { self.1.extend_from_slice(b) }
    fn finish(&self) -> u64 {
        let mut known = self.0.0.1.borrow_mut();
        for (b, h) in known.iter() { if *b == self.1 { return *h } }
        // They differ in the low bits, in the high bits, or don't.
        let h = [0, u64::MAX, 1, 1 << 63][sym::pick(self.0.0.0)];
        known.push((self.1.clone(), h));
        h
    }
}

/// No two keys are equal, the map sees to that; the last one counts.
fn map<R: Refs, DA>(keys: &[Tree], head: &Tree, hashes: usize)
    where DA: DatumAllocator<TT = R::TT, ET = u64, DR = R>, R::TT: Text + Hash + Eq, R: Hash + Eq, Datum<R::TT, u64, R>: Hash + Eq,
{
    let mut m: HashMap<Datum<R::TT, u64, R>, C<DA>, AnyHash> = HashMap::with_hasher(AnyHash(Rc::new((hashes, RefCell::default()))));
    for (i, t) in keys.iter().enumerate() { m.insert(R::build(t), combiner::<DA>(i)); }
    let b = HashMapOperatorBindings::<DA, _, _, u64, _>::new(m);
    let want = keys.iter().rposition(|k| k.same(head));
    let d = R::build(head);
    sym::check(3, number(b.lookup(&d)) == want);
    sym::check(4, number(b.lookup(&d)) == want);
    seen(keys, head, want);
}

type BX = DatumBox<V, u64>;
type RC = DatumRc<V, u64>;
type AR = DatumArc<V, u64>;
type MV = DatumMutRef<'static, V, u64>;
type ML = DatumMutRef<'static, ListText, u64>;

/// The chunking of a text doesn't matter.
fn chunked<T: Build>(n: usize, hashes: usize) where Datum<T, u64, DatumBox<T, u64>>: Hash + Eq, T: Eq {
    type DA<T> = BoxDatumAllocator<T, u64>;
    let key = leak(sym::utf8(n));
    let head = leak(if sym::pick(2) == 0 { key.to_string() } else { sym::utf8(n) });
    let (p, q) = (pieces(key, 0), pieces(head, 0));
    let d = Datum::Text(T::build(head, &q));
    let same = key == head;
    let v = vec![(Datum::Text(T::build(key, &p)), combiner::<DA<T>>(0))];
    let b = PairOperatorBindings::<_, DA<T>, _, _, u64>::new(v);
    sym::check(5, number(b.lookup(&d)) == same.then_some(0));
    let mut m: HashMap<Datum<T, u64, DatumBox<T, u64>>, C<DA<T>>, AnyHash> = HashMap::with_hasher(AnyHash(Rc::new((hashes, RefCell::default()))));
    m.insert(Datum::Text(T::build(key, &p)), combiner(0));
    let b = HashMapOperatorBindings::<DA<T>, _, _, u64, _>::new(m);
    sym::check(6, number(b.lookup(&d)) == same.then_some(0));
    if same && p.len() != q.len() { sym::cover(5) }
    if !same { sym::cover(6) }
    sym::observe(same as u64);
}

fn long<T: Build>(len: usize, n: usize) where Datum<T, u64, DatumBox<T, u64>>: Hash + Eq, T: Eq {
    type DA<T> = BoxDatumAllocator<T, u64>;
    let start: String = ['u', '\u{e9}', 'v', '\u{20ac}', 'w'].iter().cycle().take(len).collect();
    let key = leak(start.clone() + &sym::ascii(n));
    let head = leak(start + &sym::ascii(sym::pick(n + 1)));
    let cut = |s: &'static str| -> Vec<std::ops::Range<usize>> {
        let mut v: Vec<_> = s.char_indices().map(|(i, c)| i..i + c.len_utf8()).collect();
        match sym::pick(3) {
            0 => v = vec![0..s.len()],
            1 => { let k = v[len / 2].end; v = vec![0..k, k..s.len()] }
            _ => {}
        }
        v
    };
    let (p, q) = (cut(key), cut(head));
    let d = Datum::Text(T::build(head, &q));
    let same = key == head;
    let b = PairOperatorBindings::<_, DA<T>, _, _, u64>::new(vec![(Datum::Text(T::build(key, &p)), combiner::<DA<T>>(0))]);
    sym::check(5, number(b.lookup(&d)) == same.then_some(0));
    let mut m: HashMap<Datum<T, u64, DatumBox<T, u64>>, C<DA<T>>, AnyHash> = HashMap::with_hasher(AnyHash(Rc::new((2, RefCell::default()))));
    m.insert(Datum::Text(T::build(key, &p)), combiner(0));
    let b = HashMapOperatorBindings::<DA<T>, _, _, u64, _>::new(m);
    sym::check(6, number(b.lookup(&d)) == same.then_some(0));
    if same && p.len() != q.len() { sym::cover(5) }
    if !same { sym::cover(6) }
    sym::observe(same as u64);
}

sym::entries! {
    /// Any keys and any operator.
    fn k17_pair(refs, n, depth, kinds) {
        let keys: Vec<Tree> = (0..n).map(|_| any(depth, kinds)).collect();
        let head = any(depth, kinds);
        match refs {
            0 => pair::<BX, BoxDatumAllocator<V, u64>>(&keys, &head),
            1 => pair::<RC, RcDatumAllocator<V, u64>>(&keys, &head),
            2 => pair::<AR, ArcDatumAllocator<V, u64>>(&keys, &head),
            3 => pair::<MV, SliceDatumAllocator<'static, V, u64>>(&keys, &head),
            _ => pair::<ML, SliceDatumAllocator<'static, ListText, u64>>(&keys, &head),
        }
    }
    fn k17_map(refs, n, depth, kinds, hashes) {
        let keys: Vec<Tree> = (0..n).map(|_| any(depth, kinds)).collect();
        let head = any(depth, kinds);
        match refs {
            0 => map::<BX, BoxDatumAllocator<V, u64>>(&keys, &head, hashes),
            1 => map::<RC, RcDatumAllocator<V, u64>>(&keys, &head, hashes),
            2 => map::<AR, ArcDatumAllocator<V, u64>>(&keys, &head, hashes),
            3 => map::<MV, SliceDatumAllocator<'static, V, u64>>(&keys, &head, hashes),
            _ => map::<ML, SliceDatumAllocator<'static, ListText, u64>>(&keys, &head, hashes),
        }
    }
    /// An operator of any shape is found by one of the same shape.
    fn k17_deep(refs, depth, kinds) {
        let key = any(depth, kinds);
        let head = key.clone();
        let keys = if sym::pick(2) == 0 { vec![key] } else { vec![Tree::Extra(77), key] };
        match refs {
            0 => { pair::<BX, BoxDatumAllocator<V, u64>>(&keys, &head); map::<BX, BoxDatumAllocator<V, u64>>(&keys, &head, 1) }
            1 => { pair::<RC, RcDatumAllocator<V, u64>>(&keys, &head); map::<RC, RcDatumAllocator<V, u64>>(&keys, &head, 1) }
            2 => { pair::<AR, ArcDatumAllocator<V, u64>>(&keys, &head); map::<AR, ArcDatumAllocator<V, u64>>(&keys, &head, 1) }
            3 => { pair::<MV, SliceDatumAllocator<'static, V, u64>>(&keys, &head); map::<MV, SliceDatumAllocator<'static, V, u64>>(&keys, &head, 1) }
            _ => { pair::<ML, SliceDatumAllocator<'static, ListText, u64>>(&keys, &head); map::<ML, SliceDatumAllocator<'static, ListText, u64>>(&keys, &head, 1) }
        }
    }
    /// Very many, looked up near the ends and beside them.
    fn k17_crowd(n, kind) {
        type DA = BoxDatumAllocator<V, u64>;
        let k = [0, 1, n / 2, n - 2, n - 1, n][sym::pick(6)];
        let (d, want) = (Datum::Extra(k as u64), (k < n).then_some(k));
        let all = (0..n).map(|i| (Datum::Extra(i as u64), combiner::<DA>(i)));
        let got = if kind == 0 {
            number(PairOperatorBindings::<_, DA, _, _, u64>::new(all.collect::<Vec<_>>()).lookup(&d))
        } else {
            number(HashMapOperatorBindings::<DA, _, _, u64>::new(all.collect()).lookup(&d))
        };
        sym::check(7, got == want);
        seen(&[], &Tree::Empty, want);
    }
    /// Many keys, of which one is the one, if any.
    fn k17_many(n) {
        let texts: Vec<&'static str> = (0..n).map(|i| leak(format!("{}", i / 2))).collect();
        let at = sym::pick(5);
        let k = [0, 1, n / 2, n - 1, n + 7][at];
        let head = Tree::Text(leak(format!("{}", k / 2)));
        let keys: Vec<Tree> = texts.iter().enumerate().map(|(i, t)| {
            let t = Tree::Text(t);
            if i % 2 == 0 { t } else { Tree::Comb(Box::new(t), Box::new(Tree::Empty)) }
        }).collect();
        let head = if k % 2 == 0 { head } else { Tree::Comb(Box::new(head), Box::new(Tree::Empty)) };
        pair::<BX, BoxDatumAllocator<V, u64>>(&keys, &head);
        map::<BX, BoxDatumAllocator<V, u64>>(&keys, &head, 1);
    }
    fn k17_chunked(text, n, hashes) {
        match text {
            0 => chunked::<TextVec<PosStr<'static>>>(n, hashes),
            _ => chunked::<TextVec<PosStrish<Rc<str>>>>(n, hashes),
        }
    }
    /// Long texts, of which the last characters may differ.
    fn k17_long(text, len, n) {
        match text {
            0 => long::<TextVec<PosStr<'static>>>(len, n),
            _ => long::<TextVec<PosStrish<Rc<str>>>>(len, n),
        }
    }
    /// Nothing is bound, whatever the operator.
    fn k17_empty(depth) {
        let t = any(depth, 4);
        let b = EmptyOperatorBindings;
        let d = BX::build(&t);
        sym::check(7, OperatorBindings::<BoxDatumAllocator<V, u64>>::lookup(&b, &d).is_none());
        let d = ML::build(&t);
        sym::check(7, OperatorBindings::<SliceDatumAllocator<'static, ListText, u64>>::lookup(&b, &d).is_none());
        let d = BX::build(&t);
        let p: PairOperatorBindings<Vec<_>, BoxDatumAllocator<V, u64>, Op<_>, Ap<_>, u64> = std::default::Default::default();
        sym::check(7, p.lookup(&d).is_none());
        let p: PairOperatorBindings<[_; 0], BoxDatumAllocator<V, u64>, Op<_>, Ap<_>, u64> = PairOperatorBindings::new([]);
        sym::check(7, p.lookup(&d).is_none());
        if t.size() > 1 { sym::cover(1) }
        sym::observe(t.size() as u64);
    }
    /// The bindings change.
    fn k17_change(steps) {
        let mut b: PairOperatorBindings<Vec<_>, BoxDatumAllocator<V, u64>, Op<_>, Ap<_>, u64> = std::default::Default::default();
        let mut m = HashMapOperatorBindings::<BoxDatumAllocator<V, u64>, Op<_>, Ap<_>, u64, AnyHash>::new(HashMap::with_hasher(AnyHash(Rc::new((2, RefCell::default())))));
        let mut keys: Vec<(usize, usize)> = vec![];
        let mut last: [Option<usize>; 3] = [None; 3];
        let tree = |k: usize| match k { 0 => Tree::Text("p"), 1 => Tree::Nest, _ => Tree::Extra(3) };
        for i in 0..steps {
            let k = sym::pick(3);
            match sym::pick(3) {
                0 => {
                    b.pairs.push((BX::build(&tree(k)), combiner(i)));
                    keys.push((k, i));
                    m.hashmap.insert(BX::build(&tree(k)), combiner(i));
                    last[k] = Some(i);
                    sym::cover(1);
                }
                1 => {
                    if let Some(j) = keys.iter().position(|e| e.0 == k) { keys.remove(j); b.pairs.remove(j); sym::cover(2) }
                    m.hashmap.remove(&BX::build(&tree(k)));
                    last[k] = None;
                }
                _ => {
                    b.pairs.insert(0, (BX::build(&tree(k)), combiner(i)));
                    keys.insert(0, (k, i));
                }
            }
            for k in 0..3 {
                let d = BX::build(&tree(k));
                sym::check(9, number(b.lookup(&d)) == keys.iter().find(|e| e.0 == k).map(|e| e.1));
                sym::check(10, number(m.lookup(&d)) == last[k]);
            }
        }
        sym::observe(keys.len() as u64);
    }
}
