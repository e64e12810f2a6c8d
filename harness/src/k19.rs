//! Texts are parts of the source.

use super::{combs::*, model::*, sources::*, sym};
use kul::parser::*;
use kul::source_stream::StrishIterSourceStream;
use kul::text::{chunk::{PosStr, PosStrish}, TextVec};
use kul::{Datum, Parser, SourceStream, Text, TextConcat};
use std::rc::Rc;
use std::sync::Arc;

/// Where the source is: the address and the piece of each character.
struct Place { at: Vec<(usize, usize)>, len: Vec<usize> }
fn place(s: &str, p: &[std::ops::Range<usize>], base: &[usize]) -> Place {
    let mut r = Place { at: vec![], len: vec![] };
    for (k, p) in p.iter().enumerate() {
        for (i, c) in s[p.clone()].char_indices() { r.at.push((base[k] + i, k)); r.len.push(c.len_utf8()) }
    }
    r
}

/// The chunks are the runs, and are where the source is.
fn in_place<T>(t: &T, m: &[(char, usize)], pl: &Place) where T: Text, T::Chunk: Piece {
    let mut n = 0;
    let mut k = 0;
    for c in t.iter_chunks() {
        let c = c.str();
        if c.is_empty() { continue }
        k += 1;
        sym::check(1, n < m.len());
        if n >= m.len() { return }
        let (addr, piece) = pl.at[m[n].1];
        sym::check(2, c.as_ptr() as usize == addr);
        // As far as the run goes.
        let mut end = n + 1;
        let mut bytes = pl.len[m[n].1];
        while end < m.len() && m[end].1 == m[end - 1].1 + 1 && pl.at[m[end].1].1 == piece {
            bytes += pl.len[m[end].1];
            end += 1;
        }
        sym::check(3, c.len() == bytes);
        if end - n > 1 { sym::cover(3) }
        n = end;
    }
    sym::check(4, n == m.len());
    if k > 1 { sym::cover(1) }
    if k > 2 { sym::cover(2) }
}

fn parse<T, S, DA>(s: &str, da: DA, source: S, pl: &Place)
    where DA: DatumAllocator<TT = T, ET = u64>, T: Text + TextConcat<DA> + PartialEq, T::Chunk: Piece + From<&'static str>, S: SourceStream<DA>,
          Datum<T, u64, DA::DR>: PartialEq, Anywhere: View<T::Pos>,
{
    let src: Vec<char> = s.chars().collect();
    // The operative gives its text.
    let (items, calls) = expect(&src, Default, Script { rest: 3, ..Script::new(0) });
    if calls.iter().any(|c| matches!(&c.args, Args::Op(t) if t.len() > 1)) { sym::cover(4) }
    let w = Watch::new(calls, Anywhere);
    let pairs = vec![
        (Datum::Text(T::from_str("o")), Watch::combiner::<DA>(&w, true)),
        (Datum::Text(T::from_str("a")), Watch::combiner::<DA>(&w, false)),
    ];
    let mut p = Parser { classifier: DefaultCharClassifier, allocator: da, bindings: PairOperatorBindings::new(pairs) };
    let mut it = p.parse(source);
    for m in &items {
        let Some(got) = it.next() else { sym::check(5, false); return };
        match (&got, m) {
            (Ok(d), Ok(m)) => texts(d, m, pl),
            (Err(_), Err(_)) => (),
            _ => sym::check(6, false),
        }
        observe(m);
    }
}

fn texts<T, R>(d: &Datum<T, u64, R>, m: &M, pl: &Place) where T: Text, T::Chunk: Piece, R: kul::DerefTryMut<Target = Datum<T, u64, R>> {
    match (d, m) {
        (Datum::Text(t), M::Text(u)) => in_place(t, u, pl),
        (Datum::Combination { operator, operands }, M::Comb(o, l)) => { texts(operator, o, pl); list(operands, l, pl) }
        (Datum::List { .. } | Datum::EmptyList, M::List(l)) => list(d, l, pl),
        (Datum::EmptyNest, M::Nest) => (),
        _ => sym::check(7, false),
    }
}
fn list<T, R>(mut d: &Datum<T, u64, R>, l: &[M], pl: &Place) where T: Text, T::Chunk: Piece, R: kul::DerefTryMut<Target = Datum<T, u64, R>> {
    for m in l {
        let Datum::List { elem, next } = d else { sym::check(7, false); return };
        texts(elem, m, pl);
        d = next;
    }
}

/// The strings have addresses of their own.
fn strings<S: Strish>(s: &str, p: &[std::ops::Range<usize>], chunked: bool) {
    let v: Vec<S> = p.iter().map(|r| S::make(&s[r.clone()])).collect();
    let base: Vec<usize> = v.iter().map(|x| x.str().as_ptr() as usize).collect();
    let pl = place(s, p, &base);
    type T<S> = TextVec<PosStrish<S>>;
    if chunked {
        let mut n = 0;
        let chunks = v.into_iter().zip(p).map(|(x, r)| { let c = PosStrish::new(x, kul::text::chunk::CharPos(n)); n += count(&s[r.clone()]); c }).collect();
        let t = strish_text::<S>(chunks);
        parse::<T<S>, _, _>(s, BoxDatumAllocator::default(), t.iter(), &pl)
    } else {
        parse::<T<S>, _, _>(s, RcDatumAllocator::default(), StrishIterSourceStream::new(v), &pl)
    }
}

fn by(kind: usize, s: &'static str, p: Vec<std::ops::Range<usize>>) {
    sym::note(s);
    if p.len() > 1 { sym::cover(5) }
    let base: Vec<usize> = p.iter().map(|r| s.as_ptr() as usize + r.start).collect();
    match kind {
        0 => parse::<TextVec<PosStr<'static>>, _, _>(s, BoxDatumAllocator::default(), text_vec::<u64>(chunks(s, &p)).iter(), &place(s, &p, &base)),
        1 => {
            let t = ListText::build(s, &p);
            parse::<ListText, _, _>(s, SliceDatumAllocator::new(slots(8 + 8 * s.len())), t.iter(), &place(s, &p, &base))
        }
        2 => strings::<Rc<String>>(s, &p, false),
        3 => strings::<Rc<str>>(s, &p, false),
        4 => strings::<Rc<Box<str>>>(s, &p, false),
        5 => strings::<Arc<String>>(s, &p, false),
        6 => strings::<Arc<str>>(s, &p, false),
        7 => strings::<Arc<Box<str>>>(s, &p, false),
        8 => strings::<Rc<str>>(s, &p, true),
        _ => strings::<Arc<String>>(s, &p, true),
    }
}

sym::entries! {
    fn k19_whole(kind, n) { let s = leak(sym::utf8(n)); by(kind, s, vec![0..s.len()]) }
    fn k19_ascii(kind, n) { let s = leak(sym::ascii(n)); by(kind, s, pieces(s, 0)) }
    fn k19_wide(kind, n) { let s = leak(sym::over(&['{', '}', '\\', 'λ', '\u{10348}'], n)); by(kind, s, pieces(s, 0)) }
    fn k19_operative(kind, n) {
        let mut s = String::from("{o ");
        s += &sym::ascii(n);
        s += "}";
        let s = leak(s);
        by(kind, s, pieces(s, 0))
    }
    /// Long runs.
    fn k19_long(kind, n) {
        let mut s = String::new();
        let at = sym::pick(3);
        for i in 0..n {
            s += ["λ", "x", "\u{10348}"][i % 3];
            if i == [0, n / 2, n - 1][at] { s += &sym::ascii(2) }
        }
        let s = leak(s);
        let size = [1000, 7, 1][sym::pick(3)];
        let at: Vec<usize> = s.char_indices().map(|(i, _)| i).step_by(size).chain([s.len()]).collect();
        by(kind, s, at.windows(2).map(|w| w[0]..w[1]).collect())
    }
    /// Any numbers of the same, at any depth, in pieces of any one size.
    fn k19_runs(kind, depth, count, most, n) { let s = leak(runs(&["{x ", "{o ", "{a{"], depth, count, most, n)); by(kind, s, sized(s)) }
}
