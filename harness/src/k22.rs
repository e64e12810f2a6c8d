//! All parsers agree.

use super::{combs::*, model::*, sources::*, sym};
use kul::combiner::{ApFn, OpFn};
use kul::parser::*;
use kul::text::{chunk::{PosStr, PosStrish}, TextVec};
use kul::{Combiner, Datum, DerefTryMut, Parser, SourceStream, Text, TextConcat};
use std::hash::Hash;
use std::rc::Rc;

type Op<DA> = Box<OpFn<DA, u64>>;
type Ap<DA> = Box<ApFn<DA, u64>>;

/// With one kind of allocator, text and bindings.
fn one<DA, S>(s: &str, script: Script, da: DA, source: S, map: bool)
    where DA: DatumAllocator<ET = u64>, DA::TT: Text + TextConcat<DA> + Hash + Eq, <DA::TT as Text>::Chunk: From<&'static str>,
          DA::DR: Hash + Eq, S: SourceStream<DA>, Anywhere: View<<DA::TT as kul::TextBase>::Pos>,
          Datum<DA::TT, u64, DA::DR>: Hash + Eq,
{
    let src: Vec<char> = s.chars().collect();
    let (items, calls) = expect(&src, Default, script);
    covers(&items, &calls);
    let w = Watch::new(calls, Anywhere);
    let pairs: Vec<(_, Combiner<Op<DA>, Ap<DA>>)> = vec![
        (Datum::Text(DA::TT::from_str("o")), Watch::combiner::<DA>(&w, true)),
        (Datum::Text(DA::TT::from_str("a")), Watch::combiner::<DA>(&w, false)),
        (Datum::EmptyNest, Watch::combiner::<DA>(&w, false)),
        (Datum::Extra(100), Watch::combiner::<DA>(&w, true)),
    ];
    if map {
        let mut m = std::collections::HashMap::with_hasher(Same);
        for (k, v) in pairs { m.insert(k, v); }
        let mut p = Parser { classifier: DefaultCharClassifier, allocator: da, bindings: HashMapOperatorBindings::<DA, Op<DA>, Ap<DA>, u64, Same>::new(m) };
        agrees(&mut p, source, &items, &Anywhere, Some(&*w));
    } else {
        let mut p = Parser { classifier: DefaultCharClassifier, allocator: da, bindings: PairOperatorBindings::new(pairs) };
        agrees(&mut p, source, &items, &Anywhere, Some(&*w));
    }
}

fn by(kind: usize, map: bool, s: &'static str, free: usize) {
    sym::note(s);
    type P = TextVec<PosStr<'static>>;
    type R = TextVec<PosStrish<Rc<str>>>;
    let script = Script { keys: vec![(text("o"), true), (text("a"), false), (M::Nest, false), (M::Extra(100), true)], free, rest: 4, calls: vec![] };
    fn memory<T: Text>(s: &str) -> SliceDatumAllocator<'static, T, u64> {
        let v: Vec<kul::datum::MutRefDatum<'static, T, u64>> = (0..8 + 8 * s.len()).map(|_| Datum::EmptyNest).collect();
        SliceDatumAllocator::new(Box::leak(v.into_boxed_slice()))
    }
    let all = [0..s.len()];
    match kind {
        0 => one(s, script, BoxDatumAllocator::default(), P::from_str(s).iter(), map),
        1 => one(s, script, RcDatumAllocator::default(), P::from_str(s).iter(), map),
        2 => one(s, script, ArcDatumAllocator::default(), P::from_str(s).iter(), map),
        3 => one(s, script, memory::<P>(s), P::from_str(s).iter(), map),
        4 => one(s, script, memory::<ListText>(s), ListText::from_str(s).iter(), map),
        5 => one(s, script, BoxDatumAllocator::default(), R::build(s, &all).iter(), map),
        6 => one(s, script, RcDatumAllocator::default(), R::build(s, &all).iter(), map),
        7 => one(s, script, ArcDatumAllocator::default(), R::build(s, &all).iter(), map),
        8 => one(s, script, memory::<R>(s), R::build(s, &all).iter(), map),
        _ => one(s, script, memory::<kul::text::TextDatumList<'static, PosStrish<Rc<str>>, u64>>(s),
                 kul::text::TextDatumList::from_str(s).iter(), map),
    }
}

sym::entries! {
    fn k22_ascii(kind, map, n, free) { by(kind, map == 1, leak(sym::ascii(n)), free) }
    fn k22_nested(kind, map, n, free) {
        let mut s = String::from(["{a{", "{{}", "{o{", "{x{a ", "{{a "][sym::pick(5)]);
        s += &sym::ascii(n);
        s += "}}";
        by(kind, map == 1, leak(s), free)
    }
    /// Long ones.
    fn k22_long(kind, map, n) {
        let mut s = String::new();
        for i in 0..n {
            s += ["{a {x y}z}", "w\\{", "{}", "{o {} \\}}", "{{a} b}"][i % 5];
            if i == n / 2 { s += &sym::ascii(2) }
        }
        by(kind, map == 1, leak(s), 0)
    }
    /// Any numbers of the same, at any depth.
    fn k22_runs(kind, map, depth, most, n) { by(kind, map == 1, leak(runs(&["{x ", "{o ", "{a{"], depth, 1, most, n)), 0) }
}
