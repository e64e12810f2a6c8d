//! Reading out what is in texts.

use super::{model::*, sources::*, sym};
use kul::text::{chunk::{PosStr, PosStrish}, TextVec};
use kul::Text;
use std::rc::Rc;
use std::sync::Arc;

fn read<T: Build>(s: &'static str, p: &[std::ops::Range<usize>]) where T::Chunk: Piece {
    sym::note(s);
    let t = T::build(s, p);
    let src: Vec<char> = s.chars().collect();
    let mut n = 0;
    for c in t.chars() {
        sym::check(1, n < src.len() && src[n] == c);
        n += 1;
        if n > src.len() { break }
    }
    sym::check(2, n == src.len());
    sym::check(3, same_text(&t, &src.iter().map(|&c| (c, 0)).collect::<Vec<_>>(), &Anywhere));
    let mut all = String::new();
    let mut chunks = 0;
    for c in t.iter_chunks() { all += c.str(); chunks += 1; if chunks > 100 { break } }
    sym::check(4, all == s);
    if chunks > 1 { sym::cover(1) }
    // Iterating again starts again, and a clone of the iteration goes its own way.
    let mut it = t.iter_chunks();
    it.next();
    let rest: String = it.clone().map(|c| c.str()).collect();
    let rest2: String = it.map(|c| c.str()).collect();
    sym::check(5, rest == rest2 && all.ends_with(&rest));
    // Many steps at a time.
    let bounds = |(least, most): (usize, Option<usize>), n: usize| least <= n && most.map_or(true, |m| n <= m);
    sym::check(10, bounds(t.iter_chunks().size_hint(), chunks) && t.iter_chunks().count() == chunks);
    sym::check(11, t.iter_chunks().last().map_or(s.is_empty(), |c| s.ends_with(c.str())));
    let mut it = t.iter_chunks();
    let second: String = it.nth(1).into_iter().chain(it).map(|c| c.str()).collect();
    sym::check(12, chunks == 0 || second == rest);
    sym::check(13, bounds(t.chars().size_hint(), n) && t.chars().count() == n && t.chars().last() == src.last().copied());
    sym::check(14, bounds(t.iter().size_hint(), n) && t.iter().nth(n / 2).map(|it| it.ch) == src.get(n / 2).copied());
    sym::observe(n as u64);
}

fn encode<T: Build>(s: &'static str, p: &[std::ops::Range<usize>], size: usize) {
    sym::note(s);
    let t = T::build(s, p);
    let mut buf = vec![0xffu8; size];
    let got = t.encode_utf8(&mut buf);
    // The longest prefix of whole characters that fits.
    let mut end = 0;
    for c in s.chars() {
        if end + c.len_utf8() > size { break }
        end += c.len_utf8();
    }
    let fits = end == s.len();
    sym::check(6, got.is_ok() == fits);
    let (Ok(g) | Err(g)) = got;
    sym::check(7, g.len() == end);
    sym::check(8, g == &s[..end]);
    for (i, &b) in buf.iter().enumerate() {
        sym::check(9, b == if i < end { s.as_bytes()[i] } else { 0xff });
    }
    if fits { sym::cover(2) } else { sym::cover(3) }
    if !fits && end < size { sym::cover(4) }
    sym::observe(end as u64);
}

type V = TextVec<PosStr<'static>>;
type R = TextVec<PosStrish<Rc<String>>>;
type L = ListText;

fn long(len: usize) -> &'static str {
    let mut s = String::new();
    for i in 0..len {
        s.push(['a', 'λ', '\u{3000}', '\u{10348}'][i % 4]);
        if i == (if len > 100 { len - 2 } else { len / 2 }) { s += &sym::utf8(1 + sym::pick(4)) }
    }
    leak(s)
}
fn every(s: &str, k: usize) -> Vec<std::ops::Range<usize>> {
    let at: Vec<usize> = s.char_indices().map(|x| x.0).step_by(k).chain([s.len()]).collect();
    at.windows(2).map(|w| w[0]..w[1]).collect()
}

sym::entries! {
    /// Any text of up to n bytes in any pieces.
    fn k10_read(kind, n, empties) {
        let s = leak(sym::utf8(sym::pick(n + 1)));
        let p = pieces(s, empties);
        match kind { 0 => read::<V>(s, &p), 1 => read::<R>(s, &p), 2 => read::<L>(s, &p), _ => read::<Own>(s, &p) }
    }
    /// Any text of up to n bytes, any buffer.
    fn k10_encode(kind, n, size) {
        let s = leak(sym::utf8(sym::pick(n + 1)));
        let p = pieces(s, (kind == 3) as usize);
        let size = sym::pick(size + 1);
        match kind { 0 => encode::<V>(s, &p, size), 1 => encode::<R>(s, &p, size), 2 => encode::<L>(s, &p, size), _ => encode::<Own>(s, &p, size) }
    }
    /// A long text with any character in it, in pieces of a few characters,
    /// and a buffer that is about large enough.
    fn k10_long(kind, len) {
        let s = long(len);
        let p = every(s, 1 + 16 * sym::pick(3));
        let size = s.len() + 2 - sym::pick(8);
        match kind {
            0 => { read::<V>(s, &p[..p.len().min(20)].iter().cloned().chain(p.get(20).map(|r| r.start..s.len())).collect::<Vec<_>>()); encode::<V>(s, &p, size) }
            _ => encode::<R>(s, &p, size),
        }
    }
    /// More than fit sixteen bits.
    fn k10_huge(kind, len) {
        let mut s = String::new();
        for i in 0..len { s.push(['a', 'λ', '\u{3000}', '\u{10348}'][i % 4]) }
        s += &sym::utf8(1);
        let s = leak(s);
        let p = every(s, len / 3);
        let size = s.len() + 1 - sym::pick(3);
        match kind { 0 => encode::<V>(s, &p, size), _ => encode::<R>(s, &p, size) }
    }
    /// From a string.
    fn k10_from_str(n) {
        let s = leak(sym::utf8(n));
        let src: Vec<(char, usize)> = s.chars().enumerate().map(|(i, c)| (c, i)).collect();
        sym::check(10, same_text(&V::from_str(s), &src, &InStr::new(s)));
        sym::check(11, same_text(&R::from_str(s), &src, &InStream));
        sym::check(12, same_text(&TextVec::<PosStrish<Arc<str>>>::from_str(s), &src, &InStream));
        sym::check(13, same_text(&TextVec::<PosStrish<Rc<str>>>::from_str(s), &src, &InStream));
        sym::check(14, same_text(&TextVec::<PosStrish<Rc<Box<str>>>>::from_str(s), &src, &InStream));
        sym::check(15, same_text(&TextVec::<PosStrish<Arc<Box<str>>>>::from_str(s), &src, &InStream));
        sym::check(16, same_text(&TextVec::<PosStrish<Arc<String>>>::from_str(s), &src, &InStream));
        sym::check(17, same_text(&L::from_str(s), &src, &InStr::new(s)));
        sym::observe(src.len() as u64);
        sym::cover(1);
    }
}
