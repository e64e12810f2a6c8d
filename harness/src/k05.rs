//! Applicatives.

use super::{combs::*, inmem::*, model::*, sources::runs, sym};

sym::entries! {
    /// Anything after the operator.
    fn k05_any(n, free) {
        let mut s = String::from("{a");
        s += &sym::ascii(n);
        whole(&s, usual(), free)
    }
    /// An applicative nest in any of some contexts, with anything in it.
    fn k05_within(n, free) {
        const BEFORE: [&str; 8] = ["", "{", "{x ", "{a ", "{a{", "{x y{}", "{o ", "w{\u{a0}"];
        const AFTER: [&str; 5] = ["", "}", " z}", "{}}", "}}"];
        let mut s = String::from(BEFORE[sym::pick(BEFORE.len())]);
        s += "{a";
        s += &sym::ascii(n);
        s += "}";
        s += AFTER[sym::pick(AFTER.len())];
        whole(&s, usual(), free)
    }
    fn k05_utf8(n) {
        let mut s = String::from("{a");
        s += &sym::utf8(n);
        s += "}";
        whole(&s, usual(), 0)
    }
    /// Nests of applicatives and operatives with any outcomes of all of them:
    /// each of `slots` places in a skeleton is one of some parts.
    fn k05_nested(slots, free) {
        const PARTS: [&str; 7] = ["{a", "{o", "{x", "}", " ", "t", "{}"];
        let mut s = String::from("{a");
        for _ in 0..slots { s += PARTS[sym::pick(PARTS.len())] }
        s += "}";
        whole(&s, usual(), free)
    }
    /// Operators that aren't texts: what an inner nest gives is the operator.
    fn k05_head(n, free) {
        let mut s = String::from("{{");
        s += &sym::ascii(n);
        s += " b}";
        whole(&s, vec![(text("a"), false), (M::Nest, false), (M::Extra(100), false)], free)
    }
    /// Deep applicatives around anything.
    fn k05_deep(depth, n) {
        let mut s = String::new();
        for i in 0..depth { s += if i % 2 == 0 { "{a " } else { "{x{a}" } }
        s += &sym::ascii(n);
        let more = sym::pick(3);
        for _ in 0..depth + more - 1 { s += "}" }
        whole(&s, usual(), 1)
    }
    /// Many operands, each removed or not.
    fn k05_many(count, free) {
        let mut s = String::from("{x ");
        for _ in 0..count { s += "{a y}" }
        s += "z}";
        whole(&s, usual(), free)
    }
    /// An applicative with very many operands.
    fn k05_crowd(count) {
        let mut s = String::from("{a ");
        for _ in 0..count { s += "{}" }
        s += &sym::over(&['x', '{', '}'], 1);
        s += "}";
        whole(&s, usual(), 1)
    }
    /// Long operators, also in many chunks.
    fn k05_long(len, n, free) { long(len, n, free) }
    /// Many applicatives that remove themselves, before the head.
    fn k05_removed(count) { removed(count, true) }
    /// Heads that are nests or what comes of them, of which some are operators.
    fn k05_nests(slots, free) {
        const PARTS: [&str; 6] = ["x", " ", "{", "}", "y", "{}"];
        let mut s = String::from(["{{", "{{a "][sym::pick(2)]);
        for _ in 0..slots { s += PARTS[sym::pick(PARTS.len())] }
        s += "} {a b}}";
        let one = |l: Vec<M>| M::Comb(Box::new(text("x")), l);
        whole(&s, vec![
            (text("a"), false), (M::Nest, true),
            (one(vec![]), false), (one(vec![text("y")]), true), (M::Comb(Box::new(M::Nest), vec![]), false),
            (M::List(vec![]), true), (M::List(vec![text("x")]), false), (M::List(vec![text("x"), M::Nest]), true),
        ], free)
    }
    /// Any number of the same, at any depth.
    fn k05_runs(depth, count, most, n) { whole_at(&runs(&["{a ", "{x{a ", "{{o x}"], depth, count, most, n), usual(), 0, 3, |_| Anywhere) }
}
