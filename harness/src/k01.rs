//! Parsing without bound operators gives the forms that the notation defines.

use super::{model::*, sources::runs, sym};
use kul::common::inmem::{self, parse_str};
use kul::Text as _;

fn grammar(s: &str) {
    sym::note(s);
    let src: Vec<char> = s.chars().collect();
    let got = parse_str(s);
    let mut r = Reader::new(&src, Default, NoBinds);
    let mut n = 0;
    loop {
        let m = r.top();
        sym::check(1, (n < got.len()) == m.is_some());
        let Some(m) = m else { break };
        sym::check(2, same_item(&got[n], &m, &Anywhere));
        observe(&m);
        match &m {
            Ok(M::Text(_)) => sym::cover(1),
            Ok(M::Nest) => sym::cover(2),
            Ok(M::Comb(..)) => sym::cover(3),
            Err(MErr::Missing) => sym::cover(4),
            Err(MErr::Unbalanced(_)) => sym::cover(5),
            _ => (),
        }
        n += 1;
        if m.is_err() { break }
    }
    sym::check(3, n == got.len());
    // What comes after errors.
    if got.last().map_or(false, |r| r.is_err()) {
        let t = inmem::Text::from_str(s);
        let mut p: inmem::Parser<'_> = inmem::parser(inmem::OperatorBindings::default());
        let mut it = p.parse(t.iter());
        for _ in 0..n { it.next(); }
        loop {
            let (m, g) = (r.top(), it.next());
            sym::check(4, g.is_some() == m.is_some());
            let (Some(m), Some(g)) = (m, g) else { break };
            sym::check(5, same_item(&g, &m, &Anywhere));
            observe(&m);
            sym::cover(6);
        }
    }
}

sym::entries! {
    /// Any UTF-8 of n bytes.
    fn k01_utf8(n) { grammar(&sym::utf8(n)) }
    /// Any ASCII of n bytes.
    fn k01_ascii(n) { grammar(&sym::ascii(n)) }
    /// Within nests.
    fn k01_within(n) {
        const BEFORE: [&str; 6] = ["{", "{{", "{x", "{x {", "{ {}", "t{\\ y {}"];
        let mut s = String::from(BEFORE[sym::pick(BEFORE.len())]);
        s += &sym::ascii(n);
        grammar(&s)
    }
    /// Long, with anything in the middle.
    fn k01_long(len, wide) {
        const PARTS: [[&str; 2]; 4] = [["\u{3000}", "λ"], ["\\", "x"], ["{}", "ab"], ["{y ", "\u{10348}}"]];
        let p = PARTS[sym::pick(4)];
        let mut s = String::new();
        for i in 0..len { s += p[i % 2] }
        s += &if wide > 0 { let n = 1 + sym::pick(4); sym::utf8(n) } else { sym::ascii(2) };
        for i in 0..len { s += p[i % 2] }
        grammar(&s)
    }
    /// More than fit sixteen bits.
    fn k01_huge(len) {
        let mut s = String::new();
        for i in 0..len { s += ["λ", "b", "c"][i % 3] }
        s += &sym::over(&['}', '\\', '{'], 1);
        s += "}\u{3000}";
        grammar(&s)
    }
    /// Much whitespace before the head, and after it.
    fn k01_space(len) {
        const SPACE: [[&str; 2]; 3] = [[" ", " "], ["\n", "\r"], ["\u{3000}", "\t"]];
        let p = SPACE[sym::pick(3)];
        let mut s = String::from("{{");
        for i in 0..len { s += p[i % 2] }
        s += &sym::ascii(1);
        for i in 0..len { s += p[i % 2] }
        s += "}}";
        grammar(&s)
    }
    /// Deep, with anything in the middle.
    fn k01_deep(depth, n) {
        let form = sym::pick(3);
        let mut s = String::new();
        for _ in 0..depth { s += ["{", "{x ", "{ {}"][form] }
        s += &sym::ascii(n);
        let more = sym::pick(4);
        for _ in 0..depth + more - 2 { s += "}" }
        grammar(&s)
    }
    /// Very many forms in a nest, or outside of any.
    fn k01_crowd(len) {
        let mut s = String::from(["", "{h "][sym::pick(2)]);
        for _ in 0..len { s += "{}" }
        s += &sym::over(&['x', '{', '}'], 1);
        s += "}";
        grammar(&s)
    }
    /// Wide, with anything in the middle or at the end.
    fn k01_wide(len, n) {
        let end = sym::bool();
        let form = sym::pick(3);
        let mut s = String::from("{h ");
        for i in 0..len {
            s += [["{}", "{}"], ["{x y}", "z"], ["{{}}", "\\{"]][form][i % 2];
            if !end && i == len / 2 { s += &sym::ascii(n) }
        }
        if end { s += &sym::ascii(n) }
        s += "}";
        grammar(&s)
    }
    /// Any number of the same, at any depth.
    fn k01_runs(depth, count, most, n) { grammar(&runs(&["{", "{x "], depth, count, most, n)) }
}
