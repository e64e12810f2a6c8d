//! Concatenation.

use super::{model::*, sources::*, sym};
use kul::parser::{AllocError, DatumAllocator, SliceDatumAllocator};
use kul::text::{chunk::{PosStr, PosStrish}, TextVec};
use kul::{Text, TextBase, TextConcat, TextChunk};
use std::rc::Rc;

static SRC: &str = "aλ\u{3000}bcdefghijklmnopqrstuvwxyz0123456789";

/// A text of any chunks, next in the source, and what it has to be.
fn leaf<T: Build>(at: &mut usize, long: usize) -> (T, Vec<(char, usize)>) {
    let n = sym::pick(long + 1);
    let byte = |i: usize| SRC.char_indices().nth(i).map_or(SRC.len(), |x| x.0);
    let m = SRC.chars().enumerate().skip(*at).take(n).map(|(i, c)| (c, i)).collect();
    let t = if n == 0 && sym::pick(2) == 1 { T::empty() } else { T::chunk(SRC, byte(*at)..byte(*at + n)) };
    *at += n;
    (t, m)
}

/// Any way of putting `n` texts together.
fn put<T: Build, V: View<T::Pos>>(n: usize, at: &mut usize, long: usize, da: &mut T::DA, v: &V) -> (T, Vec<(char, usize)>)
    where T::Chunk: Piece,
{
    if n == 1 { return leaf::<T>(at, long) }
    let k = 1 + sym::pick(n - 1);
    let (a, mut m) = put::<T, V>(k, at, long, da, v);
    let (b, o) = put::<T, V>(n - k, at, long, da, v);
    if m.is_empty() && !o.is_empty() { sym::cover(1) }
    if !m.is_empty() && o.is_empty() { sym::cover(2) }
    if m.is_empty() && o.is_empty() { sym::cover(3) }
    if m.len() > long && o.len() > long { sym::cover(4) }
    m.extend(o);
    match a.concat(b, da) {
        Ok(t) => {
            sym::check(1, same_text(&t, &m, v));
            sym::check(2, t.is_empty() == m.is_empty());
            sym::check(3, chunks_at(&t, &m, v));
            (t, m)
        }
        Err(_) => { sym::check(4, false); (T::empty(), m) }
    }
}

type V = TextVec<PosStr<'static>>;
type R = TextVec<PosStrish<Rc<String>>>;
type L = ListText;

/// How much of the slice allocator is used.
fn memory(n: usize, room: usize, long: usize) {
    let mut da = SliceDatumAllocator::new(slots(room));
    let mut at = 0;
    let mut left = room;
    let (mut t, mut m) = leaf::<L>(&mut at, long);
    for _ in 1..n {
        let (u, o) = leaf::<L>(&mut at, long);
        let needs = !m.is_empty() && !o.is_empty();
        m.extend(o);
        match t.concat(u, &mut da) {
            Ok(x) => {
                sym::check(5, !needs || left > 0);
                if needs { left -= 1; sym::cover(5) } else { sym::cover(6) }
                t = x;
                sym::check(6, same_text(&t, &m, &InStr::new(SRC)));
            }
            Err(e) => {
                // Only when memory is both needed and exhausted.
                sym::check(7, needs && left == 0 && e == AllocError::AllocExhausted);
                sym::cover(7);
                return
            }
        }
    }
    sym::observe(left as u64);
    // What concatenating took is what is gone.
    if left > 0 { sym::check(8, da.unused().map_or(0, |s| s.len()) == left) }
}

sym::entries! {
    /// Any way of putting n texts of up to `long` characters together.
    fn k11_concat(kind, n, long) {
        let mut at = 0;
        let m = match kind {
            0 => put::<V, _>(n, &mut at, long, &mut V::alloc(), &InStr::new(SRC)).1,
            1 => put::<R, _>(n, &mut at, long, &mut R::alloc(), &InStream).1,
            _ => put::<L, _>(n, &mut at, long, &mut L::alloc(), &InStr::new(SRC)).1,
        };
        sym::observe(m.len() as u64);
    }
    fn k11_memory(n, room, long) {
        let room = sym::pick(room + 1);
        memory(n, room, long)
    }
    /// Emptiness of a text with any chunks.
    fn k11_empty(n) {
        let s = leak(sym::utf8(sym::pick(n + 1)));
        sym::check(9, V::from_str(s).is_empty() == s.is_empty());
        sym::check(10, R::from_str(s).is_empty() == s.is_empty());
        sym::check(11, L::from_str(s).is_empty() == s.is_empty());
        sym::check(12, PosStr::from(s).is_empty() == s.is_empty());
        sym::check(13, PosStrish::<Rc<str>>::from(s).is_empty() == s.is_empty());
        sym::check(14, V::empty().is_empty() && R::empty().is_empty() && L::empty().is_empty());
        sym::check(15, <PosStr<'_> as TextBase>::empty().is_empty() && <PosStrish<Rc<str>> as TextBase>::empty().is_empty());
        sym::check(16, V::empty().chars().next().is_none() && R::empty().chars().next().is_none() && L::empty().chars().next().is_none());
        sym::observe(s.len() as u64);
        if s.is_empty() { sym::cover(1) } else { sym::cover(2) }
    }
    /// Very many texts from the left.
    fn k11_crowd(kind, n) {
        fn go<T: Build>(n: usize, v: &impl View<T::Pos>) where T::Chunk: Piece {
            let mut da = T::alloc();
            let more = sym::pick(2);
            let mut t = T::empty();
            let mut m = vec![];
            for i in 0..n + more {
                // One is empty.
                let k = if i == n / 2 { 0 } else { 1 };
                m.extend(SRC.chars().enumerate().take(k).map(|(i, c)| (c, i)));
                match t.concat(T::chunk(SRC, 0..k), &mut da) {
                    Ok(x) => t = x,
                    Err(_) => { sym::check(20, false); return }
                }
            }
            sym::check(21, same_text(&t, &m, v));
            sym::cover(1 + more as u32);
            sym::observe(m.len() as u64);
        }
        match kind {
            0 => go::<V>(n, &InStr::new(SRC)),
            _ => go::<R>(n, &InStream),
        }
    }
    /// Many texts in a row, put together in some ways.
    fn k11_many(kind, n) {
        fn go<T: Build>(n: usize, v: &impl View<T::Pos>, da: &mut T::DA) where T::Chunk: Piece {
            let way = sym::pick(5);
            let mut left = if way == 4 { [2, 6, n / 2, n - 6][sym::pick(4)] } else { 0 };
            let mut at = 0;
            let hole = [0, n / 2, n - 1][sym::pick(3)];
            let mut q: Vec<(T, Vec<(char, usize)>)> = vec![];
            let byte = |i: usize| SRC.char_indices().nth(i).map_or(SRC.len(), |x| x.0);
            for i in 0..n {
                // All but one have a character.
                let k = i % 20;
                q.push(if i == hole { (T::empty(), vec![]) } else {
                    (T::chunk(SRC, byte(k)..byte(k + 1)), SRC.chars().nth(k).map(|c| (c, k)).into_iter().collect())
                });
            }
            while q.len() > 1 {
                let k = match way {
                    0 => 0,
                    1 => q.len() - 2,
                    2 => (q.len() - 1) / 2,
                    // Pairs, then pairs of them.
                    3 => { if at + 1 >= q.len() { at = 0 } at += 1; at - 1 }
                    // Some of them, the others, then both.
                    _ => if left > 1 { left -= 1; 0 } else { 1.min(q.len() - 2) },
                };
                let (b, o) = q.remove(k + 1);
                let (a, mut m) = q.remove(k);
                m.extend(o);
                match a.concat(b, da) {
                    Ok(t) => q.insert(k, (t, m)),
                    Err(_) => { sym::check(17, false); return }
                }
            }
            let Some((t, m)) = q.pop() else { return };
            sym::check(18, same_text(&t, &m, v));
            sym::check(19, chunks_at(&t, &m, v));
            sym::cover(1 + way as u32);
            sym::observe(m.len() as u64);
        }
        match kind {
            0 => go::<V>(n, &InStr::new(SRC), &mut V::alloc()),
            1 => go::<R>(n, &InStream, &mut R::alloc()),
            _ => go::<L>(n, &InStr::new(SRC), &mut SliceDatumAllocator::new(slots(n))),
        }
    }
}
