//! Operatives.

use super::{combs::*, inmem::*, model::*, sources::runs, sym};

/// What may come before the nest, and after it.
pub fn within(inner: &str, free: usize, keys: Vec<(M, bool)>) {
    const BEFORE: [&str; 8] = ["", "{", "{x ", "{a ", "{a{", "{x y{}", "{o ", "w{\u{a0}"];
    const AFTER: [&str; 5] = ["", "}", " z}", "{}}", "}}"];
    let mut s = String::from(BEFORE[sym::pick(BEFORE.len())]);
    s += inner;
    s += AFTER[sym::pick(AFTER.len())];
    whole(&s, keys, free)
}

sym::entries! {
    /// Anything after the operator.
    fn k04_any(n, free) {
        let mut s = String::from("{o");
        s += &sym::ascii(n);
        whole(&s, usual(), free)
    }
    /// An operative nest in any of some contexts, with any text in it.
    fn k04_within(n, free) {
        let mut s = String::from("{o");
        s += &sym::ascii(n);
        s += "}";
        within(&s, free, usual())
    }
    /// Any UTF-8 as the operands.
    fn k04_utf8(n) {
        let mut s = String::from("{o");
        s += &sym::utf8(n);
        s += "}";
        whole(&s, usual(), 0)
    }
    /// Nests within the operands, which aren't parsed, and about as many ends.
    fn k04_raw(depth, n) {
        let mut s = String::from("{o ");
        for _ in 0..depth { s += "{o " }
        s += &sym::ascii(n);
        let more = sym::pick(4);
        for _ in 0..depth + more { s += "}" }
        s += "y";
        whole(&s, usual(), 1)
    }
    /// An operative deep within nests of all kinds.
    fn k04_deep(depth, n) {
        let mut s = String::new();
        for i in 0..depth { s += ["{x ", "{", "{a y", "{ z {}"][i % 4] }
        s += "{o ";
        s += &sym::ascii(n);
        s += "}";
        let more = sym::pick(3);
        for _ in 0..depth - 1 + more { s += "}" }
        s += "y";
        whole(&s, usual(), 1)
    }
    /// More than fit sixteen bits.
    fn k04_huge(depth) {
        let mut s = String::from("{o ");
        for _ in 0..depth { s += "{" }
        s += &sym::over(&['b', '}', '{'], 1);
        for _ in 0..depth { s += "}" }
        s += &"}}"[sym::pick(2)..];
        s += "y";
        whole(&s, usual(), 0)
    }
    /// Operators that aren't texts: what an inner nest gives is the operator.
    fn k04_head(n, free) {
        let mut s = String::from("{{");
        s += &sym::ascii(n);
        s += " b}";
        whole(&s, vec![(text("o"), true), (M::Nest, true), (M::Extra(100), true)], free)
    }
    /// Many operatives one after another, with one that differs.
    fn k04_many(count, n) {
        let mut s = String::new();
        for i in 0..count { s += if i % 2 == 0 { "{o x}" } else { "{y{o}}" } }
        s += "{o ";
        s += &sym::ascii(n);
        s += "}";
        whole(&s, usual(), 0)
    }
    /// Long operators, also in many chunks.
    fn k04_long(len, n, free) { long(len, n, free) }
    /// Many operatives that remove themselves, before the head.
    fn k04_removed(count) { removed(count, false) }
    /// Any number of the same, at any depth.
    fn k04_runs(depth, count, most, n) { whole_at(&(runs(&["{x{", "{a "], depth, 0, 0, 0) + "{o" + &runs(&["{"], depth, count, most, n)), usual(), 0, 3, |_| Anywhere) }
}
