//! The functions that parse all of an input.

use super::{combs::*, model::*, sources::*, sym};
use kul::common::{inmem, stream};
use kul::source_stream::StrishIterSourceStream;
use kul::text::{chunk::{CharPos, StrPos}, TextVec};
use kul::{Combiner, Datum, Text};
use kul_core::premade::inmem as core_inmem;
use std::cell::Cell;
use std::rc::Rc;

struct Anyhow;
impl View<StrPos<'_>> for Anyhow { fn at(&self, p: &StrPos<'_>, i: usize) -> bool { p.char_pos == i } }
impl View<CharPos> for Anyhow { fn at(&self, p: &CharPos, i: usize) -> bool { p.0 == i } }

/// Says what an input has in it.
fn seen(all: &[Result<M, MErr>], ok: &[Result<M, MErr>], calls: usize, made: usize) {
    if ok.iter().all(|m| m.is_ok()) { sym::cover(1) }
    if all.len() > ok.len() { sym::cover(2) }
    if ok.len() > 1 && ok.last().map_or(false, |m| m.is_err()) { sym::cover(3) }
    if made > calls { sym::cover(4) }
    if ok.last().map_or(false, |m| matches!(m, Err(MErr::Combiner(_)))) { sym::cover(5) }
}

fn equal<T, X: AsExtra, R, P, CE: AsExtra>(got: &[Result<Datum<T, X, R>, kul::Error<P, CE>>], want: &[Result<M, MErr>], v: &impl View<P>)
    where T: Text<Pos = P>, R: kul::DerefTryMut<Target = Datum<T, X, R>>
{
    sym::check(1, got.len() == want.len());
    for (g, w) in got.iter().zip(want) { sym::check(2, same_item(g, w, v)); observe(w) }
}

/// A string, nothing bound.
fn string(s: &str) {
    sym::note(s);
    let src: Vec<char> = s.chars().collect();
    let none = || Script { keys: vec![], free: 0, rest: 0, calls: vec![] };
    let (want, _) = expect_ok(&src, Default, none());
    seen(&expect(&src, Default, none()).0, &want, 0, 0);
    equal(&inmem::parse_str(s), &want, &Anyhow);
}

/// A string, with combiners.
fn string_with(s: &str, free: usize, rest: usize) {
    sym::note(s);
    let src: Vec<char> = s.chars().collect();
    let (want, calls) = expect_ok(&src, Default, Script { rest, ..Script::new(free) });
    let outs: Vec<usize> = calls.iter().map(|c| c.out).collect();
    seen(&want, &want, outs.len(), outs.len());
    let n = calls.len();
    let w = Watch::new(calls, Anyhow);
    type DA<'s> = inmem::DatumAllocator<'s, u64>;
    let b: inmem::OperatorBindings<'_, u64, u64> = inmem::OperatorBindings::new([
        (Datum::Text(TextVec::from_str("o")), Watch::combiner::<DA<'_>>(&w, true)),
        (Datum::Text(TextVec::from_str("a")), Watch::combiner::<DA<'_>>(&w, false)),
    ].into_iter().collect());
    equal(&inmem::parse_str_with(s, b), &want, &Anyhow);
    sym::check(3, w.done.get() == n);
}

/// Counts what is taken from it.
struct Taken<'s> { s: &'s str, p: std::vec::IntoIter<std::ops::Range<usize>>, n: Rc<Cell<usize>> }
impl Iterator for Taken<'_> {
    type Item = String;
    fn next(&mut self) -> Option<String> {
        self.n.set(self.n.get() + 1);
        self.p.next().map(|r| self.s[r].to_string())
    }
}
/// Cut up, and a function that makes an iterator over that.
fn cut<'s>(s: &'s str, split: usize) -> impl Fn() -> (Taken<'s>, Rc<Cell<usize>>) {
    let p = match split {
        0 => pieces(s, 1),
        _ => {
            let at: Vec<usize> = s.char_indices().map(|(i, _)| i).step_by(split).chain([s.len()]).collect();
            at.windows(2).map(|w| w[0]..w[1]).collect()
        }
    };
    move || {
        let n = Rc::new(Cell::new(0));
        (Taken { s, p: p.clone().into_iter(), n: n.clone() }, n)
    }
}

fn streamed(s: &str, split: usize) {
    sym::note(s);
    let src: Vec<char> = s.chars().collect();
    let none = || Script { keys: vec![], free: 0, rest: 0, calls: vec![] };
    let (want, _) = expect_ok(&src, Default, none());
    seen(&expect(&src, Default, none()).0, &want, 0, 0);
    let make = cut(s, split);
    let (it, n) = make();
    equal(&stream::parse_stream(it), &want, &Anyhow);
    // As much as it takes to get that far.
    let (it, m) = make();
    let mut p: stream::Parser = stream::parser(stream::OperatorBindings::default());
    let mut it = p.parse(StrishIterSourceStream::new(it.map(Rc::new)));
    loop { match it.next() { Some(Ok(_)) => (), _ => break } }
    sym::check(4, n.get() <= m.get());
    if m.get() <= make().0.p.len() { sym::cover(6) }
}

fn streamed_with(s: &str, split: usize, free: usize, rest: usize) {
    sym::note(s);
    let src: Vec<char> = s.chars().collect();
    let (want, calls) = expect_ok(&src, Default, Script { rest, ..Script::new(free) });
    seen(&want, &want, calls.len(), calls.len());
    let make = cut(s, split);
    let n_calls = calls.len();
    let w = Watch::new(calls, Anyhow);
    type DA = stream::DatumAllocator<u64>;
    let b = |w: &Rc<Watch<Anyhow>>| -> stream::OperatorBindings<u64, u64> { stream::OperatorBindings::new([
        (Datum::Text(TextVec::from_str("o")), Watch::combiner::<DA>(w, true)),
        (Datum::Text(TextVec::from_str("a")), Watch::combiner::<DA>(w, false)),
    ].into_iter().collect()) };
    let (it, n) = make();
    equal(&stream::parse_stream_with(it, b(&w)), &want, &Anyhow);
    sym::check(3, w.done.get() == n_calls);
    w.done.set(0);
    let (it, m) = make();
    let mut p = stream::parser(b(&w));
    let mut it = p.parse(StrishIterSourceStream::new(it.map(Rc::new)));
    loop { match it.next() { Some(Ok(_)) => (), _ => break } }
    sym::check(4, n.get() <= m.get());
    if m.get() <= make().0.p.len() { sym::cover(6) }
}

/// Memory of the caller's.
fn core(s: &'static str, free: usize, rest: usize) {
    sym::note(s);
    let src: Vec<char> = s.chars().collect();
    let (want, calls) = expect_ok(&src, Default, Script { rest, ..Script::new(free) });
    seen(&want, &want, calls.len(), calls.len());
    let n = calls.len();
    let w = Watch::new(calls, Anyhow);
    type DA = core_inmem::DatumAllocator<'static, 'static, u64>;
    let memory = || -> core_inmem::DatumSlice<'static, 'static, u64> {
        let v: Vec<core_inmem::DatumType<'static, 'static, u64>> = (0..8 + 8 * s.len()).map(|_| Datum::EmptyNest).collect();
        Box::leak(v.into_boxed_slice())
    };
    let (w1, w2) = (w.clone(), w.clone());
    let op: Box<kul::combiner::OpFn<DA, u64>> = Box::new(move |o, t, a| w1.op::<DA>(o, t, a));
    let ap: Box<kul::combiner::ApFn<DA, u64>> = Box::new(move |o, l, a| w2.ap::<DA>(o, l, a));
    let (op, ap): (core_inmem::OperativeRef<'static, 'static, 'static, u64, u64>, core_inmem::ApplicativeRef<'static, 'static, 'static, u64, u64>) = (Box::leak(op), Box::leak(ap));
    type T = core_inmem::Text<'static, 'static, u64>;
    let pairs: [core_inmem::BindingsPair<'static, 'static, 'static, u64, u64>; 2] = [
        (Datum::Text(T::from_str("o")), Combiner::Operative(op)),
        (Datum::Text(T::from_str("a")), Combiner::Applicative(ap)),
    ];
    let pairs = Box::leak(Box::new(pairs));
    let t = T::from_str(s);
    let mut p = core_inmem::parser(memory(), &pairs[..]);
    let mut it = core_inmem::parse_text_with(&t, &mut p);
    for m in &want {
        let got = it.next();
        sym::check(5, got.is_some());
        if let Some(g) = &got { sym::check(2, same_item(g, m, &Anyhow)) }
        observe(m);
    }
    sym::check(6, it.next().is_none());
    sym::check(7, it.next().is_none());
    sym::check(3, w.done.get() == n);
    let left = p.allocator.unused().map_or(0, |s| s.len());
    w.done.set(0);
    let mut p = core_inmem::parser(memory(), &pairs[..]);
    let mut it = p.parse(t.iter());
    loop { match it.next() { Some(Ok(_)) => (), _ => break } }
    sym::check(8, left == p.allocator.unused().map_or(0, |s| s.len()));
}

fn core_no_bind(s: &'static str) {
    sym::note(s);
    let src: Vec<char> = s.chars().collect();
    let none = || Script { keys: vec![], free: 0, rest: 0, calls: vec![] };
    let (want, _) = expect_ok(&src, Default, none());
    seen(&expect(&src, Default, none()).0, &want, 0, 0);
    let v: Vec<core_inmem::DatumType<'static, 'static>> = (0..8 + 8 * s.len()).map(|_| Datum::EmptyNest).collect();
    let mut p = core_inmem::parser_no_bind(Box::leak(v.into_boxed_slice()));
    let t = core_inmem::Text::from_str(s);
    let mut it = core_inmem::parse_text_with(&t, &mut p);
    for m in &want {
        let got = it.next();
        sym::check(5, got.is_some());
        if let Some(g) = &got { sym::check(2, same_item(g, m, &Anyhow)) }
        observe(m);
    }
    for _ in 0..3 { sym::check(6, it.next().is_none()) }
}

const SIX: [char; 6] = ['{', '}', '\\', ' ', 'o', 'a'];
/// Two nests with combiners in them, and what follows.
fn calls(n: usize) -> String {
    let mut s = String::from(["{a}", "{x {a} }", "y{o }", "{a {o }}"][sym::pick(4)]);
    s += &sym::over(&SIX, n);
    s += ["{o}", "{a}z", "{x{o}}{a}"][sym::pick(3)];
    s
}

sym::entries! {
    fn k18_str(n) { string(&sym::utf8(n)) }
    fn k18_stream(n, split) { streamed(&sym::ascii(n), split) }
    fn k18_stream_wide(n, split) { streamed(&sym::utf8(n), split) }
    fn k18_core(n) { core_no_bind(leak(sym::utf8(n))) }
    fn k18_str_with(n, free) { string_with(&sym::over(&SIX, n), free, 2) }
    fn k18_str_calls(n, free) { string_with(&calls(n), free, sym::pick(OUTCOMES)) }
    fn k18_stream_with(n, free, split) { streamed_with(&calls(n), split, free, sym::pick(3)) }
    fn k18_core_with(n, free) { core(leak(sym::ascii(n)), free, 2) }
    fn k18_core_calls(n, free) {
        let mut s = String::from(["{a}", "{x {a} }", "y{o }", "{a {o }}"][sym::pick(4)]);
        s += &sym::ascii(n);
        s += ["{o}", "{a}z", "{x{o}}{a}"][sym::pick(3)];
        core(leak(s), free, sym::pick(3))
    }
    /// An error after or before much else.
    /// Very many forms.
    fn k18_crowd(way, n) {
        let mut s = String::new();
        for _ in 0..n { s += "{}" }
        s += &sym::over(&['x', '{', '}'], 1);
        s += "}";
        match way {
            0 => string(&s),
            1 => streamed(&s, 1000),
            _ => core_no_bind(leak(s)),
        }
    }
    fn k18_long(n) {
        let mut s = String::new();
        let at = sym::pick(3);
        for i in 0..n {
            if i == [0, n / 2, n - 1][at] { s += &sym::ascii(2) }
            s += ["λ{x y}", "{}z", "{\\{{ }}"][i % 3];
        }
        string(&s);
        streamed(&s, 5);
        core_no_bind(leak(s));
    }
    /// Any numbers of the same, at any depth.
    fn k18_runs(way, depth, count, most, n) {
        let s = runs(&["{x ", "{{}"], depth, count, most, n);
        match way {
            0 => string(&s),
            1 => streamed(&s, 2),
            _ => core_no_bind(leak(s)),
        }
    }
}
