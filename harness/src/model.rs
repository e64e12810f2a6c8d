//! What parsing is supposed to give, said without any of the code under test.

use kul_core::{Datum, DerefTryMut, Error, Text, SourcePosition};
use kul_core::parser::AllocError;
use std::ops::Deref;

/// A form.  Each character has its index in the source.
#[derive(Clone)]
pub enum M {
    Text(Vec<(char, usize)>),
    Comb(Box<M>, Vec<M>),
    Nest,
    List(Vec<M>),
    Extra(u64),
}

#[derive(Clone, Copy, PartialEq)]
pub enum MErr {
    /// Of the end delimiter at this index.
    Unbalanced(usize),
    Missing,
    Combiner(u64),
    /// Of an allocation, or of access for changing, that a combiner reports.
    Alloc,
    Access,
}

/// Which characters are delimiters.
pub trait Class {
    fn start(&self, c: char) -> bool;
    fn end(&self, c: char) -> bool;
    fn esc(&self, c: char) -> bool;
    fn ws(&self, c: char) -> bool;
}

pub struct Default;
impl Class for Default {
    fn start(&self, c: char) -> bool { c == '{' }
    fn end(&self, c: char) -> bool { c == '}' }
    fn esc(&self, c: char) -> bool { c == '\\' }
    fn ws(&self, c: char) -> bool { c.is_whitespace() }
}

pub enum Kind { Op, Ap, None }
type Res = Result<Option<M>, MErr>;

/// What operators are bound to.
pub trait Binds {
    fn kind(&self, operator: &M) -> Kind;
    fn op(&mut self, operator: M, operands: Vec<(char, usize)>) -> Res;
    fn ap(&mut self, operator: M, operands: Vec<M>) -> Res;
}

pub struct NoBinds;
impl Binds for NoBinds {
    fn kind(&self, _: &M) -> Kind { Kind::None }
    fn op(&mut self, _: M, _: Vec<(char, usize)>) -> Res { Ok(None) }
    fn ap(&mut self, _: M, _: Vec<M>) -> Res { Ok(None) }
}

/// A reading of the source text, at index `i`.
pub struct Reader<'s, C, B> {
    pub src: &'s [char],
    pub i: usize,
    pub class: C,
    pub binds: B,
}

impl<'s, C: Class, B: Binds> Reader<'s, C, B> {
    pub fn new(src: &'s [char], class: C, binds: B) -> Self { Reader { src, i: 0, class, binds } }

    fn cur(&self) -> Option<char> { self.src.get(self.i).copied() }

    /// At an escape: the character after it, if any, whatever it is.
    fn escaped(&mut self, t: &mut Vec<(char, usize)>) {
        self.i += 1;
        if let Some(c) = self.cur() {
            t.push((c, self.i));
            self.i += 1;
        }
    }

    /// The next top-level form or error.
    pub fn top(&mut self) -> Option<Result<M, MErr>> {
        loop {
            let c = self.cur()?;
            if self.class.start(c) {
                match self.nest() {
                    Ok(None) => continue,
                    Ok(Some(m)) => return Some(Ok(m)),
                    Err(e) => return Some(Err(e)),
                }
            }
            let mut t = vec![];
            while let Some(c) = self.cur() {
                if self.class.start(c) { break }
                if self.class.esc(c) { self.escaped(&mut t); continue }
                self.i += 1;
                if self.class.end(c) { return Some(Err(MErr::Unbalanced(self.i - 1))) }
                t.push((c, self.i - 1));
            }
            return Some(Ok(M::Text(t)));
        }
    }

    /// At a start delimiter: the nest, if its combiner doesn't remove it.
    fn nest(&mut self) -> Res {
        self.i += 1;
        let head = loop {
            while let Some(c) = self.cur() {
                if !self.class.ws(c) { break }
                self.i += 1;
            }
            let c = self.cur().ok_or(MErr::Missing)?;
            if self.class.end(c) { self.i += 1; return Ok(Some(M::Nest)) }
            if self.class.start(c) {
                if let Some(m) = self.nest()? { break m }
                continue;
            }
            let mut t = vec![];
            while let Some(c) = self.cur() {
                if self.class.ws(c) || self.class.start(c) || self.class.end(c) { break }
                if self.class.esc(c) { self.escaped(&mut t); continue }
                self.i += 1;
                t.push((c, self.i - 1));
            }
            break M::Text(t);
        };
        if let Some(c) = self.cur() {
            if self.class.ws(c) { self.i += 1 }
        }
        match self.binds.kind(&head) {
            Kind::Op => {
                let t = self.raw()?;
                self.binds.op(head, t)
            }
            Kind::Ap => {
                let l = self.forms()?;
                self.binds.ap(head, l)
            }
            Kind::None => {
                let l = self.forms()?;
                Ok(Some(M::Comb(Box::new(head), l)))
            }
        }
    }

    /// The text up to the end of the nest, with nests in it as text.
    fn raw(&mut self) -> Result<Vec<(char, usize)>, MErr> {
        let mut t = vec![];
        let mut level = 0;
        loop {
            let c = self.cur().ok_or(MErr::Missing)?;
            if self.class.esc(c) { self.escaped(&mut t); continue }
            self.i += 1;
            if self.class.end(c) {
                if level == 0 { return Ok(t) }
                level -= 1;
            } else if self.class.start(c) {
                level += 1;
            }
            t.push((c, self.i - 1));
        }
    }

    /// The forms up to the end of the nest.
    fn forms(&mut self) -> Result<Vec<M>, MErr> {
        let mut l = vec![];
        loop {
            let c = self.cur().ok_or(MErr::Missing)?;
            if self.class.end(c) { self.i += 1; return Ok(l) }
            if self.class.start(c) {
                if let Some(m) = self.nest()? { l.push(m) }
                continue;
            }
            let mut t = vec![];
            while let Some(c) = self.cur() {
                if self.class.start(c) || self.class.end(c) { break }
                if self.class.esc(c) { self.escaped(&mut t); continue }
                self.i += 1;
                t.push((c, self.i - 1));
            }
            l.push(M::Text(t));
        }
    }
}

/// How the code under test shows what the model talks about.
pub trait View<P> {
    /// Is this the position of the character at this index?
    fn at(&self, pos: &P, index: usize) -> bool;
}

/// Doesn't look at positions.
pub struct Anywhere;
impl<P> View<P> for Anywhere { fn at(&self, _: &P, _: usize) -> bool { true } }

impl<P, V: View<P>> View<P> for &V { fn at(&self, p: &P, i: usize) -> bool { (**self).at(p, i) } }

pub trait AsExtra { fn value(&self) -> u64; }
impl AsExtra for () { fn value(&self) -> u64 { 0 } }
impl AsExtra for u64 { fn value(&self) -> u64 { *self } }

pub fn same_text<T: Text>(t: &T, m: &[(char, usize)], v: &impl View<T::Pos>) -> bool {
    let mut ok = true;
    let mut n = 0;
    for it in t.iter() {
        if n == m.len() { return false }
        ok &= it.ch == m[n].0;
        ok &= v.at(&it.pos, m[n].1);
        n += 1;
    }
    ok & (n == m.len())
}

pub fn same<T, X, R, V>(d: &Datum<T, X, R>, m: &M, v: &V) -> bool
    where T: Text, X: AsExtra, R: DerefTryMut<Target = Datum<T, X, R>>, V: View<T::Pos>,
{
    match (d, m) {
        (Datum::Text(t), M::Text(u)) => same_text(t, u, v),
        (Datum::Combination { operator, operands }, M::Comb(o, l)) => same(&**operator, o, v) && same_list(&**operands, l, v),
        (Datum::EmptyNest, M::Nest) => true,
        (Datum::List { .. } | Datum::EmptyList, M::List(l)) => same_list(d, l, v),
        (Datum::Extra(x), M::Extra(y)) => x.value() == *y,
        _ => false,
    }
}

pub fn same_list<T, X, R, V>(mut d: &Datum<T, X, R>, l: &[M], v: &V) -> bool
    where T: Text, X: AsExtra, R: DerefTryMut<Target = Datum<T, X, R>>, V: View<T::Pos>,
{
    for m in l {
        let Datum::List { elem, next } = d else { return false };
        if !same(&**elem, m, v) { return false }
        d = &**next;
    }
    matches!(d, Datum::EmptyList)
}

pub fn same_err<P>(e: &Error<P, impl AsExtra>, m: &MErr, v: &impl View<P>) -> bool {
    match (e, m) {
        (Error::UnbalancedEndChar(p), MErr::Unbalanced(i)) => v.at(p, *i),
        (Error::MissingEndChar, MErr::Missing) => true,
        (Error::FailedCombiner(x), MErr::Combiner(y)) => x.value() == *y,
        (Error::FailedAlloc(_), MErr::Alloc) => true,
        (Error::FailedDerefTryMut, MErr::Access) => true,
        _ => false,
    }
}

pub fn same_item<T, X, R, P, CE, V>(r: &Result<Datum<T, X, R>, Error<P, CE>>, m: &Result<M, MErr>, v: &V) -> bool
    where T: Text<Pos = P>, X: AsExtra, CE: AsExtra, R: DerefTryMut<Target = Datum<T, X, R>>, V: View<P>,
{
    match (r, m) {
        (Ok(d), Ok(m)) => same(d, m, v),
        (Err(e), Err(m)) => same_err(e, m, v),
        _ => false,
    }
}

/// Adds the model's result to the observable outcome.
pub fn observe(m: &Result<M, MErr>) {
    fn form(m: &M) {
        match m {
            M::Text(t) => { crate_sym::observe(1); for &(c, i) in t { crate_sym::observe(c as u64); crate_sym::observe(i as u64) } }
            M::Comb(o, l) => { crate_sym::observe(2); form(o); list(l) }
            M::Nest => crate_sym::observe(3),
            M::List(l) => { crate_sym::observe(4); list(l) }
            M::Extra(x) => { crate_sym::observe(5); crate_sym::observe(*x) }
        }
    }
    fn list(l: &[M]) { for m in l { form(m) } crate_sym::observe(6) }
    match m {
        Ok(m) => form(m),
        Err(MErr::Unbalanced(i)) => { crate_sym::observe(7); crate_sym::observe(*i as u64) }
        Err(MErr::Missing) => crate_sym::observe(8),
        Err(MErr::Alloc) => crate_sym::observe(10),
        Err(MErr::Access) => crate_sym::observe(11),
        Err(MErr::Combiner(x)) => { crate_sym::observe(9); crate_sym::observe(*x) }
    }
}

use super::sym as crate_sym;
