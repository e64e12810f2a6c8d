//! Parsing a string slice, with positions and combiners.

use super::{combs::*, model::*, sources::*, sym};
use kul::parser::{BoxDatumAllocator, DefaultCharClassifier, PairOperatorBindings};
use kul::text::{chunk::{PosStr, StrPos}, TextVec};
use kul::datum::{BoxDatum, DatumBox};
use kul::{Datum, Parser, Text};

pub type TT<'s> = TextVec<PosStr<'s>>;
pub type DA<'s> = BoxDatumAllocator<TT<'s>, u64>;

/// All items of `s`, with combiners of which `free` have any outcome.
pub fn whole(s: &str, keys: Vec<(M, bool)>, free: usize) { whole_at(s, keys, free, 0, |_| Anywhere) }

/// And all positions.
pub fn whole_at<V, F>(s: &str, keys: Vec<(M, bool)>, free: usize, rest: usize, view: F)
    where F: Fn(&str) -> V, V: for<'s> View<StrPos<'s>> + 'static,
{
    sym::note(s);
    let src: Vec<char> = s.chars().collect();
    let (items, calls) = expect(&src, Default, Script { keys: keys.clone(), free, rest, calls: vec![] });
    sym::check(1, items.len() <= src.len() + 1);
    covers(&items, &calls);
    let mut seen_err = false;
    for m in &items {
        if seen_err && m.is_ok() { sym::cover(9) }
        if m.is_err() { if seen_err { sym::cover(10) } seen_err = true }
    }
    let w = Watch::new(calls, view(s));
    let mut pairs = vec![];
    for (k, op) in &keys { pairs.push((datum(k), Watch::combiner::<DA<'_>>(&w, *op))) }
    let mut p = Parser {
        classifier: DefaultCharClassifier,
        allocator: DA::default(),
        bindings: PairOperatorBindings::new(pairs),
    };
    agrees(&mut p, TT::from_str(s).iter(), &items, &view(s), Some(&*w));
}

/// The ways there are of advancing more than once do what as many single steps
/// do.
pub fn strides(s: &str) {
    sym::note(s);
    let src: Vec<char> = s.chars().collect();
    let (items, calls) = expect(&src, Default, Script { keys: usual(), free: 0, rest: 0, calls: vec![] });
    let w = Watch::new(calls, Anywhere);
    let mut pairs = vec![];
    for (k, op) in &usual() { pairs.push((datum(k), Watch::combiner::<DA<'_>>(&w, *op))) }
    let mut p = Parser { classifier: DefaultCharClassifier, allocator: DA::default(), bindings: PairOperatorBindings::new(pairs) };
    let text = TT::from_str(s);
    let mut it = p.parse(text.iter());
    let first = sym::pick(2);
    if first == 1 { it.next(); }
    let left = items.len().saturating_sub(first);
    let (least, most) = it.size_hint();
    sym::check(30, least <= left && most.map_or(true, |m| left <= m));
    let same = |got: Option<&_>, k: usize| match (got, items.get(k)) {
        (Some(g), Some(m)) => same_item(g, m, &Anywhere),
        (None, None) => true,
        _ => false,
    };
    match sym::pick(4) {
        0 => sym::check(31, it.count() == left),
        1 => sym::check(32, same(it.last().as_ref(), if left == 0 { items.len() } else { items.len() - 1 })),
        2 => {
            let k = sym::pick(left + 1);
            sym::check(33, same(it.nth(k).as_ref(), (first + k).min(items.len())));
            sym::check(34, same(it.next().as_ref(), (first + k + 1).min(items.len())));
            if k + 1 < left { sym::cover(12) }
        }
        _ => {
            let v: Vec<_> = it.collect();
            sym::check(35, v.len() == left && v.iter().enumerate().all(|(k, g)| same(Some(g), first + k)));
        }
    }
    if left > 1 { sym::cover(13) }
    sym::observe(left as u64);
}

fn datum<'s>(m: &M) -> BoxDatum<TT<'s>, u64> {
    let list = |l: &[M]| l.iter().rev().fold(Datum::EmptyList, |d, m| Datum::List { elem: DatumBox::new(datum(m)), next: DatumBox::new(d) });
    match m {
        M::Text(t) if t.len() > 1 => Datum::Text(TextVec::from_str(leak(t.iter().map(|c| c.0).collect()))),
        M::Text(t) => Datum::Text(TextVec::from_str(match t[0].0 { 'o' => "o", 'a' => "a", 'x' => "x", 'y' => "y", _ => "p" })),
        M::Comb(o, l) => Datum::Combination { operator: DatumBox::new(datum(o)), operands: DatumBox::new(list(l)) },
        M::List(l) => list(l),
        M::Nest => Datum::EmptyNest,
        M::Extra(x) => Datum::Extra(*x),
    }
}

/// Operators of `len` characters and about one more, any of which are escaped
/// or none; the one of them is an operative, the other one an applicative.
pub fn long(len: usize, n: usize, free: usize) {
    let escaped = sym::pick(3);
    let (mut s, mut name) = (String::from("{"), String::new());
    for i in 0..len {
        if escaped == 1 || escaped == 2 && i + 1 == len { s += "\\" }
        let c = ['u', '\u{e9}', 'v', '\u{20ac}', 'w'][i % 5];
        s.push(c);
        name.push(c);
    }
    s += &sym::ascii(n);
    s += " b}";
    whole(&s, vec![(text(&(name.clone() + "o")), true), (text(&(name.clone() + "a")), false), (text(&name), false)], free)
}

/// What is removed before the operator or instead of it.
pub fn removed(count: usize, ap: bool) {
    let mut s = String::from("{");
    for _ in 0..count { s += if ap { "{a y} " } else { "{o y} " } }
    s += &sym::ascii(1);
    s += " b}c";
    whole_at(&s, usual(), 0, 1, |_| Anywhere)
}

pub fn usual() -> Vec<(M, bool)> { vec![(text("o"), true), (text("a"), false)] }
