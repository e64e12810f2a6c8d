//! What streams promise about peeking and accumulating.

use super::{combs::*, model::*, sources::*, sym};
use kul::parser::{BoxDatumAllocator, DatumAllocator, SliceDatumAllocator};
use kul::source_stream::*;
use kul::text::{self, chunk::{CharPos, PosStr, PosStrish, StrPos}, TextDatumList, TextVec};
use kul::{Datum, SourceIterItem, SourceStream, Text, TextBase, TextChunk, TextConcat};
use std::rc::Rc;
use std::sync::Arc;

/// Calls that accumulate, and then any.
#[derive(Clone, Copy)]
struct Steps { accum: usize, any: usize }

/// Any calls, of a stream that is to give these characters.
fn protocol<DA, S, V>(src: &[char], mut s: S, da: &mut DA, steps: Steps, view: &V)
    where DA: DatumAllocator, S: SourceStream<DA>, V: View<<DA::TT as TextBase>::Pos>, DA::TT: Text,
{
    let mut i = 0;
    let mut acc: Vec<(char, usize)> = vec![];
    let same = |it: Option<&S::Item>, i: usize| match (it, src.get(i)) {
        (Some(it), Some(&c)) => it.ch == c && view.at(&it.pos, i),
        (None, None) => true,
        _ => false,
    };
    for k in 0..steps.accum + steps.any {
        match if k < steps.accum { 2 } else { sym::pick(4) } {
            0 => {
                sym::check(1, same(s.peek(), i));
                if !acc.is_empty() { sym::cover(1) }
            }
            1 => {
                let it = s.next();
                sym::check(2, same(it.as_ref(), i));
                if !acc.is_empty() { sym::cover(2) }
                acc.clear();
                i = src.len().min(i + 1);
            }
            2 => {
                let it = s.next_accum(da);
                sym::check(3, matches!(&it, Ok(it) if same(it.as_ref(), i)));
                if i < src.len() {
                    acc.push((src[i], i));
                    i += 1;
                } else if !acc.is_empty() { sym::cover(3) }
            }
            _ => {
                let t = s.accum_done(da);
                match &t {
                    Ok(t) => {
                        sym::check(4, same_text(t, &acc, view));
                        sym::check(5, t.is_empty() == acc.is_empty());
                        if t.iter_chunks().count() > 1 { sym::cover(5) }
                    }
                    Err(_) => sym::check(6, false),
                }
                if acc.is_empty() { sym::cover(6) }
                acc.clear();
            }
        }
        if i == src.len() { sym::cover(4) }
        sym::observe(i as u64);
        sym::observe(acc.len() as u64);
    }
    // What's left is what is expected to be.
    sym::check(7, same(s.peek(), i));
    let t = s.accum_done(da);
    sym::check(8, matches!(&t, Ok(t) if same_text(t, &acc, view)));
    while i < src.len() {
        sym::check(9, same(s.next().as_ref(), i));
        i += 1;
    }
    sym::check(10, s.next().is_none());
    sym::check(11, s.peek().is_none());
}

/// The ways there are of advancing more than once, after any few calls, do what
/// as many single steps do.
fn strides<DA, S, V>(src: &[char], mut s: S, da: &mut DA, view: &V)
    where DA: DatumAllocator, S: SourceStream<DA>, V: View<<DA::TT as TextBase>::Pos>, DA::TT: Text,
{
    let same = |it: Option<&S::Item>, i: usize| match (it, src.get(i)) {
        (Some(it), Some(&c)) => it.ch == c && view.at(&it.pos, i),
        (None, None) => true,
        _ => false,
    };
    let mut i = 0;
    for _ in 0..2 {
        match sym::pick(4) {
            0 => { s.peek(); }
            1 => { s.next(); i += 1 }
            2 => { sym::check(20, s.next_accum(da).is_ok()); i += 1 }
            _ => (),
        }
    }
    let i = i.min(src.len());
    let left = src.len() - i;
    let (least, most) = s.size_hint();
    sym::check(21, least <= left && most.map_or(true, |m| left <= m));
    match sym::pick(5) {
        0 => sym::check(22, s.count() == left),
        1 => sym::check(23, same(s.last().as_ref(), if left == 0 { src.len() } else { src.len() - 1 })),
        2 => {
            let k = sym::pick(left + 2);
            sym::check(24, same(s.nth(k).as_ref(), src.len().min(i + k)));
            sym::check(25, same(s.peek(), src.len().min(i + k + 1)));
            // Nothing accumulated is left.
            sym::check(27, matches!(&s.accum_done(da), Ok(t) if t.is_empty()));
            sym::check(26, same(s.next().as_ref(), src.len().min(i + k + 1)));
            if k < left { sym::cover(21) }
        }
        3 => {
            let mut j = i;
            s.for_each(|it| { sym::check(28, same(Some(&it), j)); j += 1 });
            sym::check(29, j == src.len());
        }
        _ => {
            let v: Vec<S::Item> = s.collect();
            sym::check(30, v.len() == left && v.iter().enumerate().all(|(k, it)| same(Some(it), i + k)));
        }
    }
    if left > 1 { sym::cover(20) }
    sym::observe(left as u64);
}

/// The same of the stream of one chunk.
fn chunk<C, V>(src: &[char], c: &C, steps: Steps, view: &V)
    where C: TextChunk + Piece, V: View<C::Pos>,
{
    use kul::text::chunk::SourceStream;
    let mut s = c.src_strm();
    let mut i = 0;
    let mut acc: Vec<(char, usize)> = vec![];
    let same = |it: Option<&SourceIterItem<C::Pos>>, i: usize| match (it, src.get(i)) {
        (Some(it), Some(&c)) => it.ch == c && view.at(&it.pos, i),
        (None, None) => true,
        _ => false,
    };
    let same_chunk = |c: &C, acc: &[(char, usize)]| {
        let mut n = 0;
        for ch in c.str().chars() {
            if n == acc.len() || ch != acc[n].0 { return false }
            n += 1;
        }
        n == acc.len() && (n == 0 || view.at(c.pos(), acc[0].1))
    };
    for k in 0..steps.accum + steps.any {
        match if k < steps.accum { 2 } else { sym::pick(4) } {
            0 => {
                sym::check(1, same(s.peek(), i));
                if !acc.is_empty() { sym::cover(1) }
            }
            1 => {
                let it = s.next();
                sym::check(2, same(it.as_ref(), i));
                if !acc.is_empty() { sym::cover(2) }
                acc.clear();
                i = src.len().min(i + 1);
            }
            2 => {
                let it = s.next_accum();
                sym::check(3, same(it.as_ref(), i));
                if i < src.len() {
                    acc.push((src[i], i));
                    i += 1;
                } else if !acc.is_empty() { sym::cover(3) }
            }
            _ => {
                let c = s.accum_done();
                sym::check(4, same_chunk(&c, &acc));
                sym::check(5, c.is_empty() == acc.is_empty());
                if acc.is_empty() { sym::cover(6) }
                acc.clear();
            }
        }
        if i == src.len() { sym::cover(4) }
        sym::observe(i as u64);
        sym::observe(acc.len() as u64);
    }
    sym::check(7, same(s.peek(), i));
    let c = s.accum_done();
    sym::check(8, same_chunk(&c, &acc));
}

struct From0(usize, InStr);
impl View<StrPos<'_>> for From0 { fn at(&self, p: &StrPos<'_>, i: usize) -> bool { self.1.at(p, self.0 + i) } }
struct From1(usize);
impl View<CharPos> for From1 { fn at(&self, p: &CharPos, i: usize) -> bool { p.0 == self.0 + i } }

type RC = Rc<str>;

fn strings<S: Strish>(s: &str, p: &[std::ops::Range<usize>], src: &[char], steps: Steps) {
    let v: Vec<S> = p.iter().map(|r| S::make(&s[r.clone()])).collect();
    let mut da = BoxDatumAllocator::<TextVec<PosStrish<S>>, u64>::default();
    protocol(src, StrishIterSourceStream::new(v), &mut da, steps, &InStream)
}

fn chars<S: Strish>(s: &str, src: &[char], f: fn(String) -> S, steps: Steps) {
    let mut da = BoxDatumAllocator::<TextVec<PosStrish<S>>, u64>::default();
    protocol(src, CharIterSourceStream::new(s.chars(), f), &mut da, steps, &InStream)
}

fn at_char(s: &str, i: usize) -> usize { s.char_indices().nth(i).map_or(s.len(), |x| x.0) }

fn by(stream: usize, s: &str, steps: Steps, empties: usize) {
    sym::note(s);
    let src: Vec<char> = s.chars().collect();
    match stream {
        10 => return chars::<Rc<String>>(s, &src, to_rc_string, steps),
        11 => return chars::<Rc<str>>(s, &src, to_rc_str, steps),
        12 => return chars::<Rc<Box<str>>>(s, &src, to_rc_box_str, steps),
        13 => return chars::<Arc<String>>(s, &src, to_arc_string, steps),
        14 => return chars::<Arc<str>>(s, &src, to_arc_str, steps),
        15 => return chars::<Arc<Box<str>>>(s, &src, to_arc_box_str, steps),
        // A chunk that is any part of the source.
        20 | 21 => {
            let n = src.len();
            let from = sym::pick(n + 1);
            let to = from + sym::pick(n - from + 1);
            let at = |i: usize| s.char_indices().nth(i).map_or(s.len(), |x| x.0);
            return if stream == 20 {
                let c = PosStr { val: &s[at(from)..at(to)], pos: StrPos { src: s, byte_pos: at(from), char_pos: from } };
                chunk(&src[from..to], &c, steps, &From0(from, InStr::new(s)))
            } else {
                // As accumulated from the whole.
                use kul::text::chunk::SourceStream;
                let whole = PosStrish::<RC>::new(RC::make(s), CharPos(7));
                let mut it = whole.src_strm();
                for _ in 0..from { it.next(); }
                for _ in from..to { it.next_accum(); }
                chunk(&src[from..to], &it.accum_done(), steps, &From1(if to > from { 7 + from } else { 0 }))
            }
        }
        _ => (),
    }
    let p = if empties < 9 { pieces(s, empties) } else if empties > 9 {
        // Many empty ones in one place.
        let k = at_char(s, sym::pick(src.len() + 1));
        [0..k].into_iter().chain((0..empties).map(|_| k..k)).chain([k..s.len()]).collect()
    } else {
        let at: Vec<usize> = s.char_indices().map(|x| x.0).step_by([1, 7, 13, usize::MAX][sym::pick(4)]).chain([s.len()]).collect();
        at.windows(2).map(|w| w[0]..w[1]).collect()
    };
    match stream {
        0 => {
            let t = text_vec::<u64>(chunks(s, &p));
            let mut da = BoxDatumAllocator::<TextVec<PosStr<'_>>, u64>::default();
            protocol(&src, t.iter(), &mut da, steps, &InStr::new(s))
        }
        1 => {
            let t = strish_text::<RC>(strish_chunks(s, &p));
            let mut da = BoxDatumAllocator::<TextVec<PosStrish<RC>>, u64>::default();
            protocol(&src, t.iter(), &mut da, steps, &InStream)
        }
        2 => strings::<Rc<String>>(s, &p, &src, steps),
        3 => strings::<Rc<str>>(s, &p, &src, steps),
        4 => strings::<Rc<Box<str>>>(s, &p, &src, steps),
        5 => strings::<Arc<String>>(s, &p, &src, steps),
        6 => strings::<Arc<str>>(s, &p, &src, steps),
        7 => strings::<Arc<Box<str>>>(s, &p, &src, steps),
        9 => {
            let t = Own::build(Box::leak(String::from(s).into_boxed_str()), &p);
            let mut da = BoxDatumAllocator::<Own, u64>::default();
            protocol(&src, t.iter(), &mut da, steps, &InOwn::new(&t))
        }
        _ => {
            let s: &'static str = Box::leak(String::from(s).into_boxed_str());
            type LT = TextDatumList<'static, PosStr<'static>, u64>;
            let v: Vec<kul::datum::MutRefDatum<'static, LT, u64>> = (0..40 + 3 * s.len()).map(|_| Datum::EmptyNest).collect();
            let mut da = SliceDatumAllocator::new(Box::leak(v.into_boxed_slice()));
            let mut t = LT::from_str("");
            for c in chunks(s, &p) {
                match t.concat(LT::from(c), &mut da) {
                    Ok(u) => t = u,
                    Err(_) => { sym::check(90, false); return }
                }
            }
            protocol(&src, t.iter(), &mut da, steps, &InStr::new(s))
        }
    }
}

sym::entries! {
    /// Any content of n bytes, any calls.
    fn k08_any(stream, n, steps, empties) { by(stream, &sym::utf8(n), Steps { accum: 0, any: steps }, empties) }
    /// Given content of n characters of all widths, any calls.
    fn k08_fixed(stream, n, steps, empties) {
        let s: String = "aλ\u{3000}\u{10348}bcdefghijk".chars().take(n).collect();
        by(stream, &s, Steps { accum: 0, any: steps }, empties)
    }
    /// Much accumulated, in pieces of a few characters, then any calls.
    fn k08_long(stream, len, steps) {
        let s: String = (0..len + 3).map(|i| ['a', 'λ', '\u{3000}', '\u{10348}'][i % 4]).collect();
        by(stream, &s, Steps { accum: len, any: steps }, 9)
    }
    /// Taking many at a time.
    fn k08_strides(stream, n) {
        let s: &'static str = leak("aλ\u{3000}\u{10348}bcdefghijk".chars().take(n).collect());
        let src: Vec<char> = s.chars().collect();
        let p = pieces(s, 1);
        match stream {
            0 => strides(&src, text_vec::<u64>(chunks(s, &p)).iter(), &mut BoxDatumAllocator::<TextVec<PosStr<'_>>, u64>::default(), &InStr::new(s)),
            1 => strides(&src, strish_text::<RC>(strish_chunks(s, &p)).iter(), &mut BoxDatumAllocator::<TextVec<PosStrish<RC>>, u64>::default(), &InStream),
            2 => {
                let v: Vec<RC> = p.iter().map(|r| RC::make(&s[r.clone()])).collect();
                strides(&src, StrishIterSourceStream::new(v), &mut BoxDatumAllocator::<TextVec<PosStrish<RC>>, u64>::default(), &InStream)
            }
            _ => strides(&src, CharIterSourceStream::new(s.chars(), to_rc_str), &mut BoxDatumAllocator::<TextVec<PosStrish<RC>>, u64>::default(), &InStream),
        }
    }
}
