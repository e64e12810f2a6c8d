//! How the input is delivered makes no difference.

use super::{combs::*, model::*, sources::*, sym};
use kul::parser::{BoxDatumAllocator, DatumAllocator, DefaultCharClassifier, PairOperatorBindings, SliceDatumAllocator, EmptyOperatorBindings};
use kul::source_stream::*;
use kul::text::{chunk::{CharPos, PosStr, PosStrish, StrPos}, TextDatumList, TextVec};
use kul::{Datum, DerefTryMut, Parser, SourceStream, Text, TextConcat};
use std::rc::Rc;
use std::sync::Arc;

/// Only the number of the character, which all kinds of positions have.
pub struct Index;
impl View<CharPos> for Index { fn at(&self, p: &CharPos, i: usize) -> bool { p.0 == i } }
impl View<StrPos<'_>> for Index { fn at(&self, p: &StrPos<'_>, i: usize) -> bool { p.char_pos == i } }

/// The same when some characters of the source are gone already.
pub struct After(usize);
impl<P> View<P> for After where Index: View<P> { fn at(&self, p: &P, i: usize) -> bool { Index.at(p, self.0 + i) } }

/// With the usual operators bound.
fn delivered<T, S>(s: &str, source: S)
    where T: Text + TextConcat<BoxDatumAllocator<T, u64>> + PartialEq, T::Chunk: From<&'static str>, Index: View<T::Pos>,
          S: SourceStream<BoxDatumAllocator<T, u64>>,
{
    rest(s, source, 0)
}

/// The rest of it when so many characters have been taken from the source, by
/// any calls.
fn rest<T, S>(s: &str, mut source: S, taken: usize)
    where T: Text + TextConcat<BoxDatumAllocator<T, u64>> + PartialEq, T::Chunk: From<&'static str>, Index: View<T::Pos>,
          S: SourceStream<BoxDatumAllocator<T, u64>>,
{
    let mut a = BoxDatumAllocator::default();
    let mut pending = false;
    for _ in 0..taken {
        match sym::pick(4) {
            0 => { source.next(); pending = false }
            1 => { source.peek(); source.next(); pending = false }
            2 => { sym::check(3, source.next_accum(&mut a).is_ok()); pending = true }
            _ => {
                sym::check(3, source.next_accum(&mut a).is_ok());
                sym::check(4, source.accum_done(&mut a).is_ok());
                pending = false;
            }
        }
    }
    if pending { sym::check(5, source.accum_done(&mut a).is_ok()) }
    let src: Vec<char> = s.chars().skip(taken).collect();
    if taken > 0 && src.len() > 0 { sym::cover(63) }
    let (items, calls) = expect(&src, Default, Script::new(0));
    covers(&items, &calls);
    let view = || After(taken);
    let w = Watch::new(calls, view());
    let pairs = vec![
        (Datum::Text(T::from_str("o")), Watch::combiner::<BoxDatumAllocator<T, u64>>(&w, true)),
        (Datum::Text(T::from_str("a")), Watch::combiner::<BoxDatumAllocator<T, u64>>(&w, false)),
    ];
    let mut p = Parser { classifier: DefaultCharClassifier, allocator: BoxDatumAllocator::default(), bindings: PairOperatorBindings::new(pairs) };
    agrees(&mut p, source, &items, &view(), Some(&*w));
}

fn strings<S: Strish>(s: &str, p: &[std::ops::Range<usize>]) {
    let v: Vec<S> = p.iter().map(|r| S::make(&s[r.clone()])).collect();
    delivered::<TextVec<PosStrish<S>>, _>(s, StrishIterSourceStream::new(v));
}

/// The types are leaked texts, to have simple lifetimes; harnesses end soon.
fn leak(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }

pub fn by(stream: usize, s: &'static str, empties: usize) {
    sym::note(s);
    if stream >= 9 && stream < 15 {
        return match stream {
            9 => delivered::<TextVec<PosStrish<Rc<String>>>, _>(s, CharIterSourceStream::new(s.chars(), to_rc_string)),
            10 => delivered::<TextVec<PosStrish<Rc<str>>>, _>(s, CharIterSourceStream::new(s.chars(), to_rc_str)),
            11 => delivered::<TextVec<PosStrish<Rc<Box<str>>>>, _>(s, CharIterSourceStream::new(s.chars(), to_rc_box_str)),
            12 => delivered::<TextVec<PosStrish<Arc<String>>>, _>(s, CharIterSourceStream::new(s.chars(), to_arc_string)),
            13 => delivered::<TextVec<PosStrish<Arc<str>>>, _>(s, CharIterSourceStream::new(s.chars(), to_arc_str)),
            _ => delivered::<TextVec<PosStrish<Arc<Box<str>>>>, _>(s, CharIterSourceStream::new(s.chars(), to_arc_box_str)),
        }
    }
    let p = pieces(s, empties);
    if p.len() > 1 { sym::cover(60) }
    if p.iter().any(|r| r.is_empty()) { sym::cover(61) }
    on(stream, s, &p)
}

fn on(stream: usize, s: &'static str, p: &[std::ops::Range<usize>]) {
    match stream {
        0 => delivered::<TextVec<PosStr<'static>>, _>(s, text_vec::<u64>(chunks(s, p)).iter()),
        1 => delivered::<TextVec<PosStrish<Rc<str>>>, _>(s, strish_text::<Rc<str>>(strish_chunks(s, p)).iter()),
        2 => strings::<Rc<String>>(s, p),
        3 => strings::<Rc<str>>(s, p),
        4 => strings::<Rc<Box<str>>>(s, p),
        5 => strings::<Arc<String>>(s, p),
        6 => strings::<Arc<str>>(s, p),
        7 => strings::<Arc<Box<str>>>(s, p),
        15 => delivered::<Own, _>(s, Own::build(s, p).iter()),
        _ => list(s, p),
    }
}

/// A text that is a linked list of chunks, parsed with memory from a slice.
fn list(s: &'static str, p: &[std::ops::Range<usize>]) {
    type LT = TextDatumList<'static, PosStr<'static>, u64>;
    type LD = kul::datum::MutRefDatum<'static, LT, u64>;
    fn slots(n: usize) -> &'static mut [LD] {
        let v: Vec<LD> = (0..n).map(|_| Datum::EmptyNest).collect();
        Box::leak(v.into_boxed_slice())
    }
    let src: Vec<char> = s.chars().collect();
    let (items, calls) = expect(&src, Default, Script::new(0));
    covers(&items, &calls);
    let mut da = SliceDatumAllocator::new(slots(p.len()));
    let mut t = LT::from_str("");
    for c in chunks(s, p) {
        match t.concat(LT::from(c), &mut da) {
            Ok(u) => t = u,
            Err(_) => { sym::check(90, false); return }
        }
    }
    let w = Watch::new(calls, Index);
    let pairs = vec![
        (Datum::Text(LT::from_str("o")), Watch::combiner::<SliceDatumAllocator<'static, LT, u64>>(&w, true)),
        (Datum::Text(LT::from_str("a")), Watch::combiner::<SliceDatumAllocator<'static, LT, u64>>(&w, false)),
    ];
    let mut parser = Parser {
        classifier: DefaultCharClassifier,
        allocator: SliceDatumAllocator::new(slots(8 + 8 * s.len())),
        bindings: PairOperatorBindings::new(pairs),
    };
    agrees(&mut parser, t.iter(), &items, &Index, Some(&*w));
}

sym::entries! {
    fn k07_ascii(stream, n, empties) { by(stream, leak(sym::ascii(n)), empties) }
    fn k07_utf8(stream, n, empties) { by(stream, leak(sym::utf8(n)), empties) }
    fn k07_wide(stream, n, empties) { by(stream, leak(sym::over(&['{', '}', '\\', '\u{3000}', 'λ', 'o'], n)), empties) }
    /// Text that crosses pieces in an operative.
    fn k07_operative(stream, n, empties) {
        let mut s = String::from("{o ");
        s += &sym::ascii(n);
        s += "}";
        by(stream, leak(s), empties)
    }
    /// Many empty pieces.
    fn k07_empty(stream, len) {
        let mut s = String::from("a{b");
        s += &sym::ascii(1);
        s += "\\{c}";
        let s = leak(s);
        sym::note(s);
        let at = [0, 1, 4, 6, s.len()];
        let here = sym::pick(5);
        let mut p = vec![];
        for (i, w) in at.windows(2).enumerate() {
            if i == here { for _ in 0..len { p.push(w[0]..w[0]) } }
            p.push(w[0]..w[1]);
        }
        if here == 4 { for _ in 0..len { p.push(s.len()..s.len()) } }
        match stream {
            0 => delivered::<TextVec<PosStr<'static>>, _>(s, text_vec::<u64>(chunks(s, &p)).iter()),
            2 => strings::<Rc<String>>(s, &p),
            6 => strings::<Arc<str>>(s, &p),
            _ => delivered::<Own, _>(s, Own::build(s, &p).iter()),
        }
    }
    /// Long input in pieces of any one size, with anything in it.
    fn k07_long(stream, len, n) {
        let size = [1, 2, 3, 4, usize::MAX][sym::pick(5)];
        let mut s: String = (0..2 * len).map(|i| ['λ', 'b', ' '][i % 3]).collect();
        for i in 0..len {
            s += ["λ ", "{o \\{ {x} }", "{a {a b}}", "\u{10348}{}"][i % 4];
            if i == len / 2 { s += &sym::ascii(n) }
        }
        let s = leak(s);
        sym::note(s);
        let at: Vec<usize> = s.char_indices().map(|(i, _)| i).step_by(size).chain([s.len()]).collect();
        let p: Vec<std::ops::Range<usize>> = at.windows(2).map(|w| w[0]..w[1]).collect();
        match stream {
            0 => delivered::<TextVec<PosStr<'static>>, _>(s, text_vec::<u64>(chunks(s, &p)).iter()),
            1 => delivered::<TextVec<PosStrish<Rc<str>>>, _>(s, strish_text::<Rc<str>>(strish_chunks(s, &p)).iter()),
            2 => strings::<Rc<String>>(s, &p),
            3 => delivered::<TextVec<PosStrish<Rc<String>>>, _>(s, CharIterSourceStream::new(s.chars(), to_rc_string)),
            _ => list(s, &p),
        }
    }
    /// Any numbers of the same, at any depth, in pieces of any one size.
    fn k07_runs(stream, depth, count, most, n) {
        let s = leak(runs(&["{x ", "{o ", "{a{"], depth, count, most, n));
        if stream >= 9 && stream < 15 { return by(stream, s, 0) }
        sym::note(s);
        on(stream, s, &sized(s))
    }
    /// A source that is not at its beginning.
    fn k07_taken(stream, n, most) {
        let mut s = String::from(["", "λ", "y\u{10348}", "{o "][sym::pick(4)]);
        s += &sym::ascii(n);
        s += "z}y";
        let s = leak(s);
        sym::note(s);
        let k = sym::pick(most + 1);
        let p = divide(s, 2);
        match stream {
            0 => rest::<TextVec<PosStr<'static>>, _>(s, text_vec::<u64>(chunks(s, &p)).iter(), k),
            1 => rest::<TextVec<PosStrish<Rc<str>>>, _>(s, strish_text::<Rc<str>>(strish_chunks(s, &p)).iter(), k),
            2 => rest::<TextVec<PosStrish<Arc<str>>>, _>(s, StrishIterSourceStream::new(p.iter().map(|r| Arc::<str>::make(&s[r.clone()])).collect::<Vec<_>>()), k),
            _ => rest::<TextVec<PosStrish<Rc<String>>>, _>(s, CharIterSourceStream::new(s.chars(), to_rc_string), k),
        }
    }
}
