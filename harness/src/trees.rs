//! Datums of any shape and kind of reference.

use super::{sources::*, sym};
use kul::datum::*;
use kul::text::{chunk::PosStr, TextVec};
use kul::{Datum, DerefTryMut, Text};

/// A datum, independently of the code under test.
#[derive(Clone)]
pub enum Tree {
    Text(&'static str),
    Extra(u64),
    Nest,
    Empty,
    Comb(Box<Tree>, Box<Tree>),
    List(Box<Tree>, Box<Tree>),
}
use Tree::*;

impl Tree {
    /// Same shape, same leaves.
    pub fn same(&self, o: &Tree) -> bool {
        match (self, o) {
            (Text(s), Text(t)) => s == t,
            (Extra(x), Extra(y)) => x == y,
            (Nest, Nest) | (Empty, Empty) => true,
            (Comb(a, b), Comb(c, d)) | (List(a, b), List(c, d)) => a.same(c) && b.same(d),
            _ => false,
        }
    }
    pub fn size(&self) -> usize {
        match self { Comb(a, b) | List(a, b) => 1 + a.size() + b.size(), _ => 1 }
    }
    /// The node at a place, counted from the top.
    pub fn at(&mut self, k: usize) -> &mut Tree {
        if k == 0 { return self }
        match self {
            Comb(a, b) | List(a, b) => if k <= a.size() { a.at(k - 1) } else { let n = a.size(); b.at(k - 1 - n) },
            _ => self,
        }
    }
}

/// Any leaf of the first `kinds` kinds, with any content.
pub fn leaf(kinds: usize) -> Tree {
    match sym::pick(kinds) {
        0 => Text(leak(sym::ascii(1))),
        1 => Empty,
        2 => Extra(sym::u8() as u64),
        _ => Nest,
    }
}

/// Any tree of up to this depth.
pub fn any(depth: usize, kinds: usize) -> Tree {
    if depth == 0 { return leaf(kinds) }
    match sym::pick(3) {
        0 => leaf(kinds),
        1 => { let a = any(depth - 1, kinds); Comb(Box::new(a), Box::new(any(depth - 1, kinds))) }
        _ => { let a = any(depth - 1, kinds); List(Box::new(a), Box::new(any(depth - 1, kinds))) }
    }
}

/// A kind of reference and of text.
pub trait Refs: DerefTryMut<Target = Datum<Self::TT, u64, Self>> + Sized {
    type TT;
    fn text(s: &'static str) -> Self::TT;
    fn new(d: Datum<Self::TT, u64, Self>) -> Self;
    fn build(t: &Tree) -> Datum<Self::TT, u64, Self> {
        match t {
            Text(s) => Datum::Text(Self::text(s)),
            Extra(x) => Datum::Extra(*x),
            Nest => Datum::EmptyNest,
            Empty => Datum::EmptyList,
            Comb(a, b) => Datum::Combination { operator: Self::new(Self::build(a)), operands: Self::new(Self::build(b)) },
            List(a, b) => Datum::List { elem: Self::new(Self::build(a)), next: Self::new(Self::build(b)) },
        }
    }
}
pub type V = TextVec<PosStr<'static>>;
impl Refs for DatumBox<V, u64> {
    type TT = V;
    fn text(s: &'static str) -> V { V::from_str(s) }
    fn new(d: BoxDatum<V, u64>) -> Self { DatumBox::new(d) }
}
impl Refs for DatumRc<V, u64> {
    type TT = V;
    fn text(s: &'static str) -> V { V::from_str(s) }
    fn new(d: RcDatum<V, u64>) -> Self { DatumRc::new(d) }
}
impl Refs for DatumArc<V, u64> {
    type TT = V;
    fn text(s: &'static str) -> V { V::from_str(s) }
    fn new(d: ArcDatum<V, u64>) -> Self { DatumArc::new(d) }
}
impl Refs for DatumMutRef<'static, V, u64> {
    type TT = V;
    fn text(s: &'static str) -> V { V::from_str(s) }
    fn new(d: MutRefDatum<'static, V, u64>) -> Self { DatumMutRef(Box::leak(Box::new(d))) }
}
impl Refs for DatumMutRef<'static, ListText, u64> {
    type TT = ListText;
    fn text(s: &'static str) -> ListText { ListText::from_str(s) }
    fn new(d: ListDatum) -> Self { DatumMutRef(Box::leak(Box::new(d))) }
}
