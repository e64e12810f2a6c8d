//! Iteration ends, doesn't panic, and resumes after errors.

use super::{inmem::*, model::Anywhere, sym};

sym::entries! {
    /// Any UTF-8 of n bytes, nothing bound.
    fn k02_utf8(n) { whole(&sym::utf8(n), vec![], 0) }
    /// Any ASCII of n bytes, with an operative and an applicative.
    fn k02_bound(n, free) { whole(&sym::ascii(n), usual(), free) }
    /// An applicative nest in a nest, then anything.
    fn k02_nested(n) {
        let mut s = String::from("{x{a");
        s += &sym::ascii(n);
        whole(&s, usual(), 1)
    }
    /// Deep in nests, then anything, then about as many ends.
    fn k02_deep(depth, n, form) {
        let mut s = String::new();
        for _ in 0..depth { s += if form == 0 { "{" } else { "{x " } }
        s += &sym::ascii(n);
        let more = sym::pick(4);
        for _ in 0..depth + more - 2 { s += "}" }
        s += "y";
        whole(&s, usual(), 0)
    }
    /// Very many errors.
    fn k02_crowd(count) {
        let mut s = String::new();
        for i in 0..count { s += ["}", "x}"][i % 2] }
        s += &sym::over(&['x', '{', '}', ' '], 1);
        whole(&s, usual(), 0)
    }
    /// Many errors, with anything in between.
    fn k02_errors(count, n) {
        let mut s = String::new();
        for i in 0..count {
            s += ["}", "x}", "{a}", "{y {a}}"][i % 4];
            if i == count / 2 { s += &sym::ascii(n) }
        }
        s += "{";
        let rest = sym::pick(3);
        whole_at(&s, usual(), 1, rest, |_| Anywhere)
    }
    /// Taking many at a time.
    fn k02_strides(n) { strides(&sym::ascii(n)) }
}
