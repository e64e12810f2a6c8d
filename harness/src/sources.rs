//! The source streams, and what positions mean in each.

use super::{model::*, sym};
use kul::text::{chunk::{CharPos, PosStr, PosStrish, StrPos}, TextVec};
use kul::parser::BoxDatumAllocator;
use kul::{Text, TextConcat};

/// Positions in a string slice.
pub struct InStr {
    src: *const u8,
    len: usize,
    /// Of each character, and the end.
    byte: Vec<usize>,
}
impl InStr {
    pub fn new(s: &str) -> Self {
        let mut byte: Vec<usize> = s.char_indices().map(|(i, _)| i).collect();
        byte.push(s.len());
        InStr { src: s.as_ptr(), len: s.len(), byte }
    }
}
impl View<StrPos<'_>> for InStr {
    fn at(&self, p: &StrPos<'_>, i: usize) -> bool {
        p.src.as_ptr() == self.src && p.src.len() == self.len && i < self.byte.len() && p.byte_pos == self.byte[i] && p.char_pos == i
    }
}

/// Positions as numbers of characters.
pub struct InStream;
impl View<CharPos> for InStream {
    fn at(&self, p: &CharPos, i: usize) -> bool { p.0 == i }
}

/// A division of a string into pieces: any boundaries, and up to `empties`
/// empty pieces anywhere.
pub fn pieces(s: &str, empties: usize) -> Vec<std::ops::Range<usize>> {
    let mut v = vec![];
    let mut from = 0;
    let mut left = empties;
    let mut rest = s.char_indices();
    let mut first = true;
    loop {
        let at = rest.next().map(|(i, _)| i);
        let here = at.unwrap_or(s.len());
        if !first && at.is_some() && sym::pick(2) == 1 {
            v.push(from..here);
            from = here;
        }
        // An empty piece can only be where a boundary is.
        if left > 0 && (from == here || at.is_none()) && sym::pick(2) == 1 {
            if at.is_none() && from < here { v.push(from..here); from = here }
            v.push(here..here);
            left -= 1;
        }
        if at.is_none() { break }
        first = false;
    }
    if from < s.len() { v.push(from..s.len()) }
    v
}

/// Of characters; one by one, so that no sum over symbolic bytes comes up.
pub fn count(s: &str) -> usize {
    let mut n = 0;
    for _ in s.chars() { n += 1 }
    n
}

/// The pieces as chunks that know where in `s` they are.
pub fn chunks<'s>(s: &'s str, pieces: &[std::ops::Range<usize>]) -> Vec<PosStr<'s>> {
    pieces.iter().map(|r| PosStr {
        val: &s[r.clone()],
        pos: StrPos { src: s, byte_pos: r.start, char_pos: count(&s[..r.start]) },
    }).collect()
}

pub fn text_vec<'s, ET>(chunks: Vec<PosStr<'s>>) -> TextVec<PosStr<'s>> {
    let mut da = BoxDatumAllocator::<TextVec<PosStr<'s>>, ET>::default();
    let mut t = TextVec::from_str("");
    for c in chunks {
        match t.concat(TextVec::from(c), &mut da) {
            Ok(u) => t = u,
            Err(_) => { sym::check(90, false); return TextVec::from_str("") }
        }
    }
    t
}

/// What is public of chunks.
pub trait Piece: kul::TextChunk {
    fn str(&self) -> &str;
    fn pos(&self) -> &Self::Pos;
}
impl Piece for PosStr<'_> {
    fn str(&self) -> &str { self.val }
    fn pos(&self) -> &Self::Pos { &self.pos }
}
impl<S: kul::text::chunk::RefCntStrish> Piece for PosStrish<S> {
    fn str(&self) -> &str { self.val.as_ref() }
    fn pos(&self) -> &Self::Pos { &self.pos }
}

/// Each chunk is at the position of its first character.
pub fn chunks_at<T>(t: &T, m: &[(char, usize)], v: &impl View<T::Pos>) -> bool
    where T: Text, T::Chunk: Piece,
{
    let mut ok = true;
    let mut n = 0;
    for c in t.iter_chunks() {
        if c.str().is_empty() { continue }
        if n >= m.len() { return false }
        ok &= v.at(c.pos(), m[n].1);
        n += count(c.str());
    }
    ok & (n == m.len())
}

/// Every text of a datum.
pub fn each_text<T, X, R>(d: &kul::Datum<T, X, R>, m: &M, f: &mut impl FnMut(&T, &[(char, usize)]))
    where R: kul::DerefTryMut<Target = kul::Datum<T, X, R>>,
{
    use kul::Datum;
    match (d, m) {
        (Datum::Text(t), M::Text(u)) => f(t, u),
        (Datum::Combination { operator, operands }, M::Comb(o, l)) => {
            each_text(&**operator, o, f);
            let mut d = &**operands;
            for m in l {
                let Datum::List { elem, next } = d else { return };
                each_text(&**elem, m, f);
                d = &**next;
            }
        }
        _ => (),
    }
}

/// A reference-counted string of each kind.
pub trait Strish: kul::text::chunk::RefCntStrish { fn make(s: &str) -> Self; fn str(&self) -> &str; }
use std::{rc::Rc, sync::Arc};
impl Strish for Rc<String> { fn make(s: &str) -> Self { Rc::new(s.into()) } fn str(&self) -> &str { self } }
impl Strish for Rc<Box<str>> { fn make(s: &str) -> Self { Rc::new(s.into()) } fn str(&self) -> &str { self } }
impl Strish for Rc<str> { fn make(s: &str) -> Self { s.into() } fn str(&self) -> &str { self } }
impl Strish for Arc<String> { fn make(s: &str) -> Self { Arc::new(s.into()) } fn str(&self) -> &str { self } }
impl Strish for Arc<Box<str>> { fn make(s: &str) -> Self { Arc::new(s.into()) } fn str(&self) -> &str { self } }
impl Strish for Arc<str> { fn make(s: &str) -> Self { s.into() } fn str(&self) -> &str { self } }

/// The pieces as chunks that share ownership of them.
pub fn strish_chunks<S: Strish>(s: &str, pieces: &[std::ops::Range<usize>]) -> Vec<PosStrish<S>> {
    pieces.iter().map(|r| PosStrish::new(S::make(&s[r.clone()]), CharPos(count(&s[..r.start])))).collect()
}

pub fn strish_text<S: Strish>(chunks: Vec<PosStrish<S>>) -> TextVec<PosStrish<S>> {
    let mut da = BoxDatumAllocator::<TextVec<PosStrish<S>>, u64>::default();
    let mut t = TextVec::from_str("");
    for c in chunks {
        match t.concat(TextVec::from(c), &mut da) {
            Ok(u) => t = u,
            Err(_) => { sym::check(90, false); return TextVec::from_str("") }
        }
    }
    t
}

pub type ListText = kul::text::TextDatumList<'static, PosStr<'static>, u64>;
pub type ListDatum = kul::datum::MutRefDatum<'static, ListText, u64>;
pub type ListAlloc = kul::parser::SliceDatumAllocator<'static, ListText, u64>;

/// Memory that lives to the end of the run.
pub fn slots(n: usize) -> &'static mut [ListDatum] {
    let v: Vec<ListDatum> = (0..n).map(|_| kul::Datum::EmptyNest).collect();
    Box::leak(v.into_boxed_slice())
}
/// Harnesses end soon.
pub fn leak(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }

/// Texts of each premade type.
pub trait Build: Text + TextConcat<Self::DA> + Ord + std::hash::Hash {
    type DA: kul::parser::DatumAllocator<TT = Self>;
    fn alloc() -> Self::DA;
    fn chunk(s: &'static str, r: std::ops::Range<usize>) -> Self;
    /// Of pieces of the source, put together one by one.
    fn build(s: &'static str, p: &[std::ops::Range<usize>]) -> Self {
        let mut da = Self::alloc();
        let mut t = Self::empty();
        for r in p {
            match t.concat(Self::chunk(s, r.clone()), &mut da) {
                Ok(u) => t = u,
                Err(_) => { sym::check(90, false); return Self::empty() }
            }
        }
        t
    }
}
impl Build for TextVec<PosStr<'static>> {
    type DA = BoxDatumAllocator<Self, u64>;
    fn alloc() -> Self::DA { BoxDatumAllocator::default() }
    fn chunk(s: &'static str, r: std::ops::Range<usize>) -> Self { Self::from(chunks(s, &[r]).remove(0)) }
}
impl<S: Strish> Build for TextVec<PosStrish<S>> {
    type DA = BoxDatumAllocator<Self, u64>;
    fn alloc() -> Self::DA { BoxDatumAllocator::default() }
    fn chunk(s: &'static str, r: std::ops::Range<usize>) -> Self { Self::from(strish_chunks::<S>(s, &[r]).remove(0)) }
}
impl Build for ListText {
    type DA = ListAlloc;
    fn alloc() -> Self::DA { kul::parser::SliceDatumAllocator::new(slots(400)) }
    fn chunk(s: &'static str, r: std::ops::Range<usize>) -> Self { Self::from(chunks(s, &[r]).remove(0)) }
}

use std::hash::{Hash, Hasher};
/// Records what is fed to it.
#[derive(std::default::Default)]
pub struct Rec(pub Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
    fn finish(&self) -> u64 { 0 }
}
pub fn rec<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut r = Rec::default();
    t.hash(&mut r);
    r.0
}
use std::hash::BuildHasher;
/// A hash function that is of no help at all.
#[derive(Clone, Copy)]
pub struct Same;
impl BuildHasher for Same { type Hasher = Same; fn build_hasher(&self) -> Same { Same } }
impl Hasher for Same { fn write(&mut self, _: &[u8]) {} fn finish(&self) -> u64 { 7 } }

/// Pieces of any one size up to three characters, the first perhaps shorter.
pub fn sized(s: &str) -> Vec<std::ops::Range<usize>> {
    let at: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
    let (first, size) = (sym::pick(2), 1 + sym::pick(3));
    let mut p = vec![];
    let mut i = 0;
    while i + 1 < at.len() {
        let j = (i + if i == 0 { size - first.min(size - 1) } else { size }).min(at.len() - 1);
        p.push(at[i]..at[j]);
        i = j;
    }
    p
}

/// Any numbers of the same after any number of openings, then anything, then
/// about as many ends.
pub fn runs(open: &[&str], depth: usize, runs: usize, most: usize, n: usize) -> String {
    const PARTS: [&str; 7] = [" ", "y", "\\", "{}", "\u{3000}", "{", "}"];
    let (o, d) = (open[sym::pick(open.len())], sym::pick(depth + 1));
    let mut s = o.repeat(d);
    for _ in 0..runs { s += &PARTS[sym::pick(7)].repeat(1 + sym::pick(most)) }
    s += &sym::ascii(n);
    if runs > 0 { s += &"}".repeat((d + sym::pick(3)).saturating_sub(1)) }
    s
}

/// Whole, in any pieces, or in two pieces or by the character.
pub fn divide(s: &str, split: usize) -> Vec<std::ops::Range<usize>> {
    let at: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
    match split {
        0 => vec![0..s.len()],
        1 => pieces(s, 0),
        _ => match sym::pick(at.len()) {
            0 => at.windows(2).map(|w| w[0]..w[1]).collect(),
            k => [0..at[k], at[k]..s.len()].into_iter().filter(|r| !r.is_empty()).collect(),
        }
    }
}

/// A user's own type of text: chunks as they come, also empty ones, each with
/// a source of its own.
#[derive(Clone, Debug)]
pub struct Own(pub Vec<PosStr<'static>>);
impl From<PosStr<'static>> for Own { fn from(c: PosStr<'static>) -> Self { Own(vec![c]) } }
impl kul::TextBase for Own {
    type Pos = StrPos<'static>;
    fn empty() -> Self { Own(vec![]) }
    fn is_empty(&self) -> bool { self.0.iter().all(|c| c.val.is_empty()) }
}
impl Text for Own {
    type Chunk = PosStr<'static>;
    type IterChunksState = [PosStr<'static>];
    fn iter_chunks_state(&self) -> Option<&[PosStr<'static>]> { if self.0.is_empty() { None } else { Some(&self.0) } }
}
impl<DA> TextConcat<DA> for Own {
    fn concat(mut self, other: Self, _: &mut DA) -> Result<Self, kul::parser::AllocError> {
        self.0.extend(other.0);
        Ok(self)
    }
}
impl<T: Text> PartialEq<T> for Own { fn eq(&self, o: &T) -> bool { Text::eq(self, o) } }
impl Eq for Own {}
impl<T: Text> PartialOrd<T> for Own { fn partial_cmp(&self, o: &T) -> Option<std::cmp::Ordering> { Some(Text::cmp(self, o)) } }
impl Ord for Own { fn cmp(&self, o: &Self) -> std::cmp::Ordering { Text::cmp(self, o) } }
impl Hash for Own { fn hash<H: Hasher>(&self, h: &mut H) { Text::hash(self, h) } }
impl Build for Own {
    type DA = BoxDatumAllocator<Self, u64>;
    fn alloc() -> Self::DA { BoxDatumAllocator::default() }
    fn chunk(s: &'static str, r: std::ops::Range<usize>) -> Self {
        let char_pos = count(&s[..r.start]);
        // Some start where their source does, some end where it does.
        let (before, after) = if char_pos % 2 == 0 { ("é", "z") } else { ("", if r.len() % 2 == 0 { "" } else { "z" }) };
        let src = leak(format!("{before}{}{after}", &s[r.clone()]));
        let byte_pos = before.len();
        Own(vec![PosStr { val: &src[byte_pos..byte_pos + r.len()], pos: StrPos { src, byte_pos, char_pos } }])
    }
}
/// Positions in the sources of the chunks.
pub struct InOwn(Vec<(*const u8, usize, usize)>);
impl InOwn {
    pub fn new(t: &Own) -> Self {
        let mut v = vec![];
        for c in &t.0 {
            for (i, _) in c.val.char_indices() { v.push((c.pos.src.as_ptr(), c.pos.src.len(), c.pos.byte_pos + i)) }
        }
        InOwn(v)
    }
}
impl View<StrPos<'_>> for InOwn {
    fn at(&self, p: &StrPos<'_>, i: usize) -> bool {
        i < self.0.len() && self.0[i] == (p.src.as_ptr(), p.src.len(), p.byte_pos) && p.char_pos == i
    }
}
