//! What is written with escapes is parsed back unchanged.

use super::{combs::*, inmem::*, model::*, sym};
use kul::common::inmem::parse_str;
use kul::parser::{DefaultCharClassifier, PairOperatorBindings};
use kul::text::TextVec;
use kul::{Combiner, Datum, Parser, Text};
use std::cell::Cell;
use std::rc::Rc;

fn special(c: char) -> bool { c == '{' || c == '}' || c == '\\' }

/// Written with escapes where they are needed, and with `more` at any other
/// places as well.
fn write(t: &str, ws: bool, more: bool) -> String {
    let mut s = String::new();
    for c in t.chars() {
        if special(c) || (ws && c.is_whitespace()) || (more && sym::bool()) { s.push('\\') }
        s.push(c);
    }
    s
}

fn model(t: &str) -> Vec<(char, usize)> { t.chars().map(|c| (c, 0)).collect() }

fn parses_to(s: &str, m: &[M]) {
    sym::note(s);
    let got = parse_str(s);
    sym::check(1, got.len() == m.len());
    for (g, m) in got.iter().zip(m) {
        sym::check(2, matches!(g, Ok(d) if same(d, m, &Anywhere)));
        observe(&Ok(m.clone()));
    }
}

/// At top level, as the head, and as an operand.
fn everywhere(t: &str, more: bool) {
    let m = M::Text(model(t));
    if t.is_empty() { return }
    for c in t.chars() { if special(c) { sym::cover(1) } if !c.is_ascii() { sym::cover(2) } if c.is_whitespace() { sym::cover(3) } }
    match sym::pick(4) {
        0 => { let s = write(t, false, more); sym::cover(4); parses_to(&s, &[m]) }
        1 => { let s = write(t, true, more); sym::cover(5); parses_to(&format_nest("", &s, ""), &[M::Comb(Box::new(m), vec![])]) }
        2 => { let s = write(t, false, more); sym::cover(6); parses_to(&format_nest("h ", &s, ""), &[M::Comb(Box::new(text("h")), vec![m])]) }
        _ => {
            let s = write(t, false, more);
            sym::cover(7);
            parses_to(&format_nest("{}{}", &s, "{}"), &[M::Comb(Box::new(M::Nest), vec![M::Nest, m, M::Nest])])
        }
    }
}

fn format_nest(a: &str, b: &str, c: &str) -> String {
    let mut s = String::from("{");
    s += a;
    s += b;
    s += c;
    s += "}";
    s
}

/// As the text that an operative gets.
fn operative(t: &str, more: bool) {
    let s = format_nest("o ", &write(t, false, more), "");
    sym::note(&s);
    let n = Rc::new(Cell::new(0));
    let want = model(t);
    let k = n.clone();
    let f: Box<kul::combiner::OpFn<DA<'_>, u64>> = Box::new(move |_, t, _| {
        k.set(k.get() + 1);
        sym::check(3, same_text(&t, &want, &Anywhere));
        Ok(None)
    });
    type Ap<'s> = Box<kul::combiner::ApFn<DA<'s>, u64>>;
    let pairs: Vec<(_, Combiner<_, Ap<'_>>)> = vec![(Datum::Text(TextVec::from_str("o")), Combiner::Operative(f))];
    let mut p = Parser { classifier: DefaultCharClassifier, allocator: DA::default(), bindings: PairOperatorBindings::new(pairs) };
    sym::check(4, p.parse(TT::from_str(&s).iter()).next().is_none());
    sym::check(5, n.get() == 1);
    sym::cover(1);
}

/// Any tree, with texts of one or two characters.
fn tree(depth: usize, width: usize, texts: &mut usize) -> M {
    match if depth == 0 { sym::pick(2) } else { sym::pick(3) } {
        0 => M::Nest,
        1 => {
            let n = if *texts > 0 { *texts -= 1; 1 + sym::pick(2) } else { 0 };
            if n == 0 { return text("t") }
            M::Text(sym::ascii(n).chars().map(|c| (c, 0)).collect())
        }
        _ => {
            let head = tree(depth - 1, width, texts);
            let n = sym::pick(width + 1);
            let mut l: Vec<M> = vec![];
            for _ in 0..n {
                let m = tree(depth - 1, width, texts);
                // Two texts in a row are one text.
                if matches!((l.last(), &m), (Some(M::Text(_)), M::Text(_))) { sym::assume(false) }
                l.push(m);
            }
            M::Comb(Box::new(head), l)
        }
    }
}

fn written(m: &M, head: bool, s: &mut String) {
    match m {
        M::Text(t) => for &(c, _) in t {
            if special(c) || (head && c.is_whitespace()) { s.push('\\') }
            s.push(c);
        },
        M::Nest => s.push_str("{}"),
        M::Comb(h, l) => {
            s.push('{');
            written(h, true, s);
            if !l.is_empty() { s.push(' ') }
            for m in l { written(m, false, s) }
            s.push('}');
        }
        _ => (),
    }
}

sym::entries! {
    /// Any text of n bytes of UTF-8, escaped where needed.
    fn k03_text(n) { everywhere(&sym::utf8(n), false) }
    /// Any text of n bytes of ASCII, escaped anywhere.
    fn k03_more(n) { everywhere(&sym::ascii(n), true) }
    /// Any text of up to n bytes of UTF-8, escaped anywhere.
    fn k03_more_utf8(n) { everywhere(&sym::utf8(1 + sym::pick(n)), true) }
    fn k03_operative_more_utf8(n) { operative(&sym::utf8(1 + sym::pick(n)), true) }
    fn k03_operative(n) { operative(&sym::utf8(n), false) }
    fn k03_operative_more(n) { operative(&sym::ascii(n), true) }
    /// Any tree of nests.
    fn k03_tree(depth, width, texts) {
        let mut texts = texts;
        let m = tree(depth, width, &mut texts);
        let mut s = String::new();
        written(&m, false, &mut s);
        if let M::Comb(..) = m { sym::cover(1) }
        parses_to(&s, &[m]);
    }
    /// A long text with escapes in any of three patterns, and anything within.
    fn k03_long(len, n) {
        let kind = sym::pick(3);
        let mut t = String::new();
        for i in 0..len {
            t.push(match kind { 0 => '{', 1 => if i % 2 == 0 { '}' } else { 'x' }, _ => if i % 3 == 0 { '\\' } else { 'λ' } });
            if i == len / 2 { t += &sym::ascii(n) }
        }
        everywhere(&t, false);
        operative(&t, false)
    }
}
