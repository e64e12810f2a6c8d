//! Positions.

use super::{combs::*, inmem::*, model::*, sources::*, sym};
use kul::parser::{BoxDatumAllocator, DefaultCharClassifier, EmptyOperatorBindings, PairOperatorBindings, DatumAllocator};
use kul::source_stream::*;
use kul::text::{chunk::{CharPos, PosStr, PosStrish, StrPos}, TextVec};
use kul::{Combiner, Datum, Parser, SourceStream, Text, TextChunk, TextConcat, DerefTryMut};
use std::rc::Rc;
use std::sync::Arc;

/// Positions of a text within another: where each of its characters is.
pub struct Within<V>(pub Vec<usize>, pub V);
impl<P, V: View<P>> View<P> for Within<V> {
    fn at(&self, p: &P, i: usize) -> bool { i < self.0.len() && self.1.at(p, self.0[i]) }
}

/// All items with an operative, the text of which is parsed again, and the
/// positions of characters and chunks.
fn positions<T, S, V>(s: &str, source: S, view: impl Fn() -> V)
    where T: Text + TextConcat<BoxDatumAllocator<T, u64>> + PartialEq + 'static, T::Chunk: Piece + From<&'static str>,
          S: SourceStream<BoxDatumAllocator<T, u64>>, V: View<T::Pos> + 'static,
{
    sym::note(s);
    let src: Vec<char> = s.chars().collect();
    let (items, calls) = expect(&src, Default, Script { keys: vec![(text("o"), true)], free: 0, rest: 0, calls: vec![] });
    let want = calls.clone();
    let n = Rc::new(std::cell::Cell::new(0));
    let k = n.clone();
    let v = view();
    let f: Box<kul::combiner::OpFn<BoxDatumAllocator<T, u64>, u64>> = Box::new(move |o, t, _| {
        let i = k.get();
        k.set(i + 1);
        sym::check(5, i < want.len());
        if i >= want.len() { return Ok(None) }
        let Args::Op(m) = &want[i].args else { return Ok(None) };
        sym::check(6, same(&o, &want[i].operator, &v));
        sym::check(7, same_text(&t, m, &v));
        sym::check(8, chunks_at(&t, m, &v));
        if t.iter_chunks().count() > 1 { sym::cover(20) }
        // Parsed again, as a source of its own.
        let again: Vec<char> = m.iter().map(|x| x.0).collect();
        let (inner, _) = expect(&again, Default, Script { keys: vec![], free: 0, rest: 0, calls: vec![] });
        let w = Within(m.iter().map(|x| x.1).collect(), &v);
        let mut p = Parser { classifier: DefaultCharClassifier, allocator: BoxDatumAllocator::<T, u64>::default(), bindings: NoOps::<T>::new(vec![]) };
        let mut it = p.parse(t.iter());
        for m in &inner {
            let got = it.next();
            sym::check(9, matches!(&got, Some(g) if same_item(g, m, &w)));
            if let (Some(Ok(d)), Ok(m)) = (&got, m) {
                each_text(d, m, &mut |t, u| sym::check(4, chunks_at(t, u, &w)));
            }
            if m.is_err() { sym::cover(21) }
        }
        sym::check(3, it.next().is_none());
        Ok(Some(Datum::Extra(100 + i as u64)))
    });
    let op: T = T::from_str("o");
    let pairs: Vec<(_, Comb<T>)> = vec![(Datum::Text(op), Combiner::Operative(f))];
    let mut p = Parser { classifier: DefaultCharClassifier, allocator: BoxDatumAllocator::<T, u64>::default(), bindings: PairOperatorBindings::new(pairs) };
    let v = view();
    let mut it = p.parse(source);
    for m in &items {
        let got = it.next();
        sym::check(1, matches!(&got, Some(g) if same_item(g, m, &v)));
        if let (Some(Ok(d)), Ok(m)) = (&got, m) {
            each_text(d, m, &mut |t, u| sym::check(2, chunks_at(t, u, &v)));
        }
        observe(m);
    }
    covers(&items, &calls);
    sym::check(10, it.next().is_none());
    sym::check(11, n.get() == calls.len());
}
type Comb<T> = Combiner<Box<kul::combiner::OpFn<BoxDatumAllocator<T, u64>, u64>>, Box<kul::combiner::ApFn<BoxDatumAllocator<T, u64>, u64>>>;
type NoOps<T> = PairOperatorBindings<Vec<(kul::datum::BoxDatum<T, u64>, Comb<T>)>, BoxDatumAllocator<T, u64>,
    Box<kul::combiner::OpFn<BoxDatumAllocator<T, u64>, u64>>, Box<kul::combiner::ApFn<BoxDatumAllocator<T, u64>, u64>>, u64>;

/// So that the types are simple; harnesses end soon.
fn leak(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }

fn content(kind: usize, n: usize) -> String {
    match kind {
        0 => sym::ascii(n),
        1 => sym::utf8(n),
        2 => { let mut s = String::from("{oλ"); s += &sym::ascii(n); s += "}"; s }
        3 => { let mut s = String::from("{o \u{1f600}"); s += &sym::utf8(n); s += "}"; s }
        _ => sym::over(&['{', '}', '\\', '\u{3000}', 'λ', 'o'], n),
    }
}

fn by_pieces(s: &'static str, stream: usize, empties: usize) {
    type RS = Rc<String>;
    let view = || InStream;
    let p = || if empties == 2 { sized(s) } else { pieces(s, empties) };
    match stream {
        0 => {
            let t = TextVec::<PosStr<'static>>::from_str(s);
            positions::<TextVec<PosStr<'static>>, _, _>(s, t.iter(), || InStr::new(s));
        }
        1 => {
            let t = text_vec::<u64>(chunks(s, &p()));
            positions::<TextVec<PosStr<'static>>, _, _>(s, t.iter(), || InStr::new(s));
        }
        2 => {
            let v: Vec<RS> = p().into_iter().map(|r| RS::make(&s[r])).collect();
            positions::<TextVec<PosStrish<RS>>, _, _>(s, StrishIterSourceStream::new(v), view);
        }
        3 => positions::<TextVec<PosStrish<RS>>, _, _>(s, CharIterSourceStream::new(s.chars(), to_rc_string), view),
        4 => {
            let t = strish_text::<Arc<str>>(strish_chunks(s, &p()));
            positions::<TextVec<PosStrish<Arc<str>>>, _, _>(s, t.iter(), view);
        }
        5 => {
            let v: Vec<Arc<str>> = p().into_iter().map(|r| s[r].into()).collect();
            positions::<TextVec<PosStrish<Arc<str>>>, _, _>(s, StrishIterSourceStream::new(v), view);
        }
        7 => {
            let t = Own::build(s, &p());
            positions::<Own, _, _>(s, t.iter(), || InOwn::new(&t));
        }
        _ => positions::<TextVec<PosStrish<Arc<str>>>, _, _>(s, CharIterSourceStream::new(s.chars(), to_arc_str), view),
    }
}

sym::entries! {
    /// Any content, stream and division into pieces.
    fn k06_positions(stream, kind, n, empties) { by_pieces(leak(content(kind, n)), stream, empties) }
    /// More than fit sixteen bits.
    fn k06_huge(stream, len) {
        let mut s = String::new();
        for i in 0..len { s += ["λ", "b", "\u{10348}", "c"][i % 4] }
        s += &sym::over(&['}', '\\', '{'], 1);
        s += "o }λ}";
        let s = leak(s);
        match stream {
            1 => {
                let v: Vec<char> = s.chars().collect();
                let v: Vec<Rc<String>> = v.chunks(len / 8).map(|c| Rc::new(c.iter().collect())).collect();
                positions::<TextVec<PosStrish<Rc<String>>>, _, _>(s, StrishIterSourceStream::new(v), || InStream)
            }
            k => by_pieces(s, k, 0),
        }
    }
    /// A long text of wide characters and anything in it.
    fn k06_long(stream, len, n) {
        let mut s = String::new();
        for i in 0..len {
            s += ["λ", "ab", "\\\\", "{x λ}", "\u{10348}"][i % 5];
            if i == len - 2 { s += "{o \\{}" }
            if i == len / 2 { s += &sym::ascii(n) }
        }
        let s = leak(s);
        match stream {
            0 => by_pieces(s, 0, 0),
            1 => {
                // Pieces of five characters.
                let v: Vec<char> = s.chars().collect();
                let v: Vec<Rc<String>> = v.chunks(5).map(|c| Rc::new(c.iter().collect())).collect();
                positions::<TextVec<PosStrish<Rc<String>>>, _, _>(s, StrishIterSourceStream::new(v), || InStream)
            }
            _ => by_pieces(s, 3, 0),
        }
    }
    /// Any numbers of the same, at any depth.
    fn k06_runs(stream, depth, count, most, n) { by_pieces(leak(runs(&["{x ", "{o ", "{a{"], depth, count, most, n)), stream, 2) }
}
