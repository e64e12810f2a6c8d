//! Hash-consed bit-vector expressions over symbolic input bytes.
//!
//! Every node carries its width, the set of input bytes it depends on and an
//! unsigned upper bound; the constructors fold constants and apply local
//! rewrites, so that anything that is concrete on a path stays concrete.

use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type E = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);

impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) {
        for &x in b { self.write_u64(u64::from(x)) }
    }
    fn write_u8(&mut self, x: u8) { self.write_u64(u64::from(x)) }
    fn write_u16(&mut self, x: u16) { self.write_u64(u64::from(x)) }
    fn write_u32(&mut self, x: u32) { self.write_u64(u64::from(x)) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
}

pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    Eq, Ult, Slt, Ite, Concat, Extract, ZExt, SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Key { op: Op, w: u32, a: E, b: E, c: E, k: u128 }

#[derive(Clone, Copy)]
pub struct Node { pub op: Op, pub w: u32, pub a: E, pub b: E, pub c: E, pub k: u128,
                  pub vars: u128, pub umax: u128 }

/// A value of a register or of memory: concrete, symbolic, or an aggregate.
#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(E),
    A(Rc<Vec<V>>),
}

impl V {
    pub fn is_conc(&self) -> bool { matches!(self, V::C(_)) }
    pub fn conc(&self) -> Option<u128> { if let V::C(c) = self { Some(*c) } else { None } }
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<Key, E>,
    memo: Vec<(u32, u128)>,
    stamp: u32,
}

thread_local! {
    pub static ARENA: RefCell<Arena> = RefCell::new(Arena {
        nodes: Vec::new(), map: FxMap::default(), memo: Vec::new(), stamp: 0,
    });
}

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub fn node(e: E) -> Node { ARENA.with(|a| a.borrow().nodes[e as usize]) }
pub fn width(e: E) -> u32 { node(e).w }
pub fn vars(e: E) -> u128 { node(e).vars }

fn mk(op: Op, w: u32, a: E, b: E, c: E, k: u128) -> E {
    ARENA.with(|ar| {
        let mut ar = ar.borrow_mut();
        let key = Key { op, w, a, b, c, k };
        if let Some(&e) = ar.map.get(&key) { return e }
        let n = ar.nodes.len() as E;
        let get = |i: E| ar.nodes[i as usize];
        let m = mask(w);
        let (vars, umax) = match op {
            Op::Const => (0, k),
            Op::Var => (1u128 << k, 0xff),
            Op::Add => {
                let (x, y) = (get(a), get(b));
                let u = x.umax.checked_add(y.umax).filter(|s| *s <= m).unwrap_or(m);
                (x.vars | y.vars, u)
            }
            Op::Mul => {
                let (x, y) = (get(a), get(b));
                let u = x.umax.checked_mul(y.umax).filter(|s| *s <= m).unwrap_or(m);
                (x.vars | y.vars, u)
            }
            Op::And => (get(a).vars | get(b).vars, get(a).umax.min(get(b).umax)),
            Op::Or | Op::Xor => {
                let (x, y) = (get(a), get(b));
                let top = 128 - (x.umax | y.umax).leading_zeros();
                (x.vars | y.vars, mask(top).min(m))
            }
            Op::Shl => {
                let (x, y) = (get(a), get(b));
                let u = if y.op == Op::Const && y.k < u128::from(w)
                    && x.umax.leading_zeros() as u128 >= y.k && (x.umax << y.k) <= m {
                    x.umax << y.k } else { m };
                (x.vars | y.vars, u)
            }
            Op::LShr => {
                let (x, y) = (get(a), get(b));
                let u = if y.op == Op::Const && y.k < 128 { x.umax >> y.k } else { x.umax };
                (x.vars | y.vars, u)
            }
            Op::URem => {
                let (x, y) = (get(a), get(b));
                let u = if y.op == Op::Const && y.k > 0 { (y.k - 1).min(x.umax) } else { x.umax };
                (x.vars | y.vars, u)
            }
            Op::UDiv => {
                let (x, y) = (get(a), get(b));
                let u = if y.op == Op::Const && y.k > 0 { x.umax / y.k } else { m };
                (x.vars | y.vars, u)
            }
            Op::Eq | Op::Ult | Op::Slt => (get(a).vars | get(b).vars, 1),
            Op::Ite => (get(a).vars | get(b).vars | get(c).vars, get(b).umax.max(get(c).umax)),
            Op::Concat => {
                let (x, y) = (get(a), get(b));
                (x.vars | y.vars, (x.umax << y.w) | y.umax)
            }
            Op::Extract => {
                let x = get(a);
                (x.vars, (x.umax >> k).min(m))
            }
            Op::ZExt => (get(a).vars, get(a).umax),
            Op::SExt => {
                let x = get(a);
                (x.vars, if x.umax < (1u128 << (x.w - 1)) { x.umax } else { m })
            }
            Op::Sub | Op::SDiv | Op::SRem | Op::AShr => (get(a).vars | get(b).vars, m),
        };
        ar.nodes.push(Node { op, w, a, b, c, k, vars, umax });
        ar.map.insert(key, n);
        n
    })
}

pub fn cst(w: u32, k: u128) -> E { mk(Op::Const, w, 0, 0, 0, k & mask(w)) }
pub fn var(i: u32) -> E { mk(Op::Var, 8, 0, 0, 0, u128::from(i)) }

pub fn as_const(e: E) -> Option<u128> {
    let n = node(e);
    if n.op == Op::Const { Some(n.k) } else { None }
}

/// Turns an expression into a value, making constants concrete.
pub fn val(e: E) -> V { match as_const(e) { Some(k) => V::C(k), None => V::S(e) } }
pub fn ex(v: &V, w: u32) -> E {
    match v {
        V::C(k) => cst(w, *k),
        V::S(e) => { debug_assert_eq!(width(*e), w); *e }
        V::A(_) => panic!("aggregate used as scalar"),
    }
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => if b == 0 { m } else { (sext(a, w).wrapping_div(sext(b, w)) as u128) & m },
        Op::SRem => if b == 0 { a } else { (sext(a, w).wrapping_rem(sext(b, w)) as u128) & m },
        Op::Shl => if b >= u128::from(w) { 0 } else { (a << b) & m },
        Op::LShr => if b >= u128::from(w) { 0 } else { a >> b },
        Op::AShr => {
            let s = if b >= u128::from(w) { u128::from(w - 1) } else { b };
            ((sext(a, w) >> s) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => u128::from(a == b),
        Op::Ult => u128::from(a < b),
        Op::Slt => u128::from(sext(a, w) < sext(b, w)),
        _ => unreachable!(),
    }
}

pub fn not(e: E) -> E { bin(Op::Xor, e, cst(1, 1)) }

/// Binary operation (for comparisons the result has width 1).
pub fn bin(op: Op, a: E, b: E) -> E {
    let (na, nb) = (node(a), node(b));
    let w = na.w;
    let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
    if na.op == Op::Const && nb.op == Op::Const {
        return cst(rw, fold(op, w, na.k, nb.k));
    }
    // Constants to the right for commutative operations.
    if na.op == Op::Const && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
        return bin(op, b, a);
    }
    let m = mask(w);
    match op {
        Op::Add => {
            if nb.op == Op::Const {
                if nb.k == 0 { return a }
                if na.op == Op::Add {
                    if let Some(k) = as_const(na.b) {
                        return bin(Op::Add, na.a, cst(w, k.wrapping_add(nb.k)));
                    }
                }
                if na.op == Op::Ite {
                    if let (Some(x), Some(y)) = (as_const(na.b), as_const(na.c)) {
                        return ite(na.a, cst(w, x.wrapping_add(nb.k)), cst(w, y.wrapping_add(nb.k)));
                    }
                }
            }
        }
        Op::Sub => {
            if a == b { return cst(w, 0) }
            if nb.op == Op::Const { return bin(Op::Add, a, cst(w, nb.k.wrapping_neg())) }
        }
        Op::Mul => {
            if nb.op == Op::Const {
                if nb.k == 0 { return b }
                if nb.k == 1 { return a }
                if nb.k.is_power_of_two() {
                    return bin(Op::Shl, a, cst(w, u128::from(nb.k.trailing_zeros())));
                }
            }
        }
        Op::UDiv if nb.op == Op::Const && nb.k.is_power_of_two() =>
            return bin(Op::LShr, a, cst(w, u128::from(nb.k.trailing_zeros()))),
        Op::URem if nb.op == Op::Const && nb.k.is_power_of_two() =>
            return bin(Op::And, a, cst(w, nb.k - 1)),
        Op::Shl | Op::LShr | Op::AShr => {
            if nb.op == Op::Const {
                if nb.k == 0 { return a }
                if op != Op::AShr && nb.k >= u128::from(w) { return cst(w, 0) }
                let s = nb.k as u32;
                if op == Op::LShr {
                    // Make the surviving bits explicit.
                    return zext(extract(a, s, w - s), w);
                }
                if op == Op::Shl {
                    return concat(extract(a, 0, w - s), cst(s, 0));
                }
            }
        }
        Op::And => {
            if a == b { return a }
            if nb.op == Op::Const {
                if nb.k == 0 { return b }
                if nb.k == m { return a }
                // Mask that covers everything the value can be.
                let top = 128 - na.umax.leading_zeros();
                if nb.k & mask(top) == mask(top) { return a }
                if (nb.k + 1).is_power_of_two() {
                    let s = (nb.k + 1).trailing_zeros();
                    return zext(extract(a, 0, s), w);
                }
                if na.op == Op::And {
                    if let Some(k) = as_const(na.b) { return bin(Op::And, na.a, cst(w, k & nb.k)) }
                }
                if na.op == Op::ZExt && w > width(na.a) {
                    let iw = width(na.a);
                    return zext(bin(Op::And, na.a, cst(iw, nb.k)), w);
                }
                if na.op == Op::Ite {
                    if let (Some(x), Some(y)) = (as_const(na.b), as_const(na.c)) {
                        return ite(na.a, cst(w, x & nb.k), cst(w, y & nb.k));
                    }
                }
            }
        }
        Op::Or => {
            if a == b { return a }
            if nb.op == Op::Const {
                if nb.k == 0 { return a }
                if nb.k == m { return b }
            }
            if w == 1 && nb.op == Op::Xor && nb.a == a && as_const(nb.b) == Some(1) { return cst(1, 1) }
        }
        Op::Xor => {
            if a == b { return cst(w, 0) }
            if nb.op == Op::Const {
                if nb.k == 0 { return a }
                if na.op == Op::Xor {
                    if let Some(k) = as_const(na.b) { return bin(Op::Xor, na.a, cst(w, k ^ nb.k)) }
                }
                if na.op == Op::Ite && w == 1 {
                    if as_const(na.b).is_some() || as_const(na.c).is_some() {
                        return ite(na.a, bin(Op::Xor, na.b, b), bin(Op::Xor, na.c, b));
                    }
                }
            }
        }
        Op::Eq => {
            if a == b { return cst(1, 1) }
            if nb.op == Op::Const {
                if nb.k > na.umax { return cst(1, 0) }
                if w == 1 { return if nb.k == 1 { a } else { not(a) } }
                match na.op {
                    Op::ZExt => {
                        let iw = width(na.a);
                        return bin(Op::Eq, na.a, cst(iw, nb.k));
                    }
                    Op::SExt => {
                        let iw = width(na.a);
                        let t = nb.k & mask(iw);
                        return if (sext(t, iw) as u128) & m == nb.k { bin(Op::Eq, na.a, cst(iw, t)) }
                               else { cst(1, 0) };
                    }
                    Op::Add => if let Some(k) = as_const(na.b) {
                        return bin(Op::Eq, na.a, cst(w, nb.k.wrapping_sub(k)));
                    },
                    Op::Xor => if let Some(k) = as_const(na.b) {
                        return bin(Op::Eq, na.a, cst(w, nb.k ^ k));
                    },
                    Op::Ite => {
                        let (x, y) = (as_const(na.b), as_const(na.c));
                        match (x, y) {
                            (Some(x), Some(y)) => return match (x == nb.k, y == nb.k) {
                                (true, true) => cst(1, 1),
                                (false, false) => cst(1, 0),
                                (true, false) => na.a,
                                (false, true) => not(na.a),
                            },
                            (Some(_), None) | (None, Some(_)) =>
                                return ite(na.a, bin(Op::Eq, na.b, b), bin(Op::Eq, na.c, b)),
                            _ => (),
                        }
                    }
                    Op::Concat => {
                        let lw = width(na.b);
                        let hi = bin(Op::Eq, na.a, cst(w - lw, nb.k >> lw));
                        let lo = bin(Op::Eq, na.b, cst(lw, nb.k));
                        return bin(Op::And, hi, lo);
                    }
                    _ => (),
                }
            }
            if na.op == Op::ZExt && nb.op == Op::ZExt && width(na.a) == width(nb.a) {
                return bin(Op::Eq, na.a, nb.a);
            }
            if a > b { return mk(Op::Eq, 1, b, a, 0, 0) }
        }
        Op::Ult => {
            if a == b { return cst(1, 0) }
            if nb.op == Op::Const {
                if na.umax < nb.k { return cst(1, 1) }
                if nb.k == 0 { return cst(1, 0) }
                if nb.k == 1 { return bin(Op::Eq, a, cst(w, 0)) }
                if na.op == Op::ZExt {
                    let iw = width(na.a);
                    return bin(Op::Ult, na.a, cst(iw, nb.k));
                }
            }
            if na.op == Op::Const {
                if nb.umax <= na.k { return cst(1, 0) }
                if nb.op == Op::ZExt {
                    let iw = width(nb.a);
                    return bin(Op::Ult, cst(iw, na.k), nb.a);
                }
            }
            for (x, y) in [(na, nb)] {
                if x.op == Op::Ite && y.op == Op::Const {
                    if let (Some(p), Some(q)) = (as_const(x.b), as_const(x.c)) {
                        return ite(x.a, cst(1, u128::from(p < y.k)), cst(1, u128::from(q < y.k)));
                    }
                }
            }
        }
        Op::Slt => {
            if a == b { return cst(1, 0) }
            let half = 1u128 << (w - 1);
            if na.umax < half && nb.umax < half { return bin(Op::Ult, a, b) }
        }
        _ => (),
    }
    mk(op, rw, a, b, 0, 0)
}

pub fn ite(c: E, a: E, b: E) -> E {
    if a == b { return a }
    if let Some(k) = as_const(c) { return if k == 1 { a } else { b } }
    let w = width(a);
    let nc = node(c);
    if nc.op == Op::Xor && as_const(nc.b) == Some(1) { return ite(nc.a, b, a) }
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(Op::Or, c, b),
            (Some(0), None) => return bin(Op::And, not(c), b),
            (None, Some(0)) => return bin(Op::And, c, a),
            (None, Some(1)) => return bin(Op::Or, not(c), a),
            _ => (),
        }
    }
    mk(Op::Ite, w, c, a, b, 0)
}

pub fn zext(a: E, w: u32) -> E {
    let n = node(a);
    if n.w == w { return a }
    match n.op {
        Op::Const => cst(w, n.k),
        Op::ZExt => zext(n.a, w),
        Op::Ite if as_const(n.b).is_some() && as_const(n.c).is_some() =>
            ite(n.a, zext(n.b, w), zext(n.c, w)),
        _ => mk(Op::ZExt, w, a, 0, 0, 0),
    }
}

pub fn sext_e(a: E, w: u32) -> E {
    let n = node(a);
    if n.w == w { return a }
    if n.op == Op::Const { return cst(w, sext(n.k, n.w) as u128) }
    if n.w > 1 && n.umax < (1u128 << (n.w - 1)) { return zext(a, w) }
    mk(Op::SExt, w, a, 0, 0, 0)
}

/// Bits `lo .. lo+w` of `a`.
pub fn extract(a: E, lo: u32, w: u32) -> E {
    let n = node(a);
    if lo == 0 && w == n.w { return a }
    match n.op {
        Op::Const => return cst(w, n.k >> lo),
        Op::Extract => return extract(n.a, lo + n.k as u32, w),
        Op::ZExt => {
            let iw = width(n.a);
            if lo >= iw { return cst(w, 0) }
            if lo + w <= iw { return extract(n.a, lo, w) }
            return zext(extract(n.a, lo, iw - lo), w);
        }
        Op::SExt => {
            let iw = width(n.a);
            if lo + w <= iw { return extract(n.a, lo, w) }
        }
        Op::Concat => {
            let lw = width(n.b);
            if lo >= lw { return extract(n.a, lo - lw, w) }
            if lo + w <= lw { return extract(n.b, lo, w) }
            return concat(extract(n.a, 0, lo + w - lw), extract(n.b, lo, lw - lo));
        }
        Op::And | Op::Or | Op::Xor =>
            return bin(n.op, extract(n.a, lo, w), extract(n.b, lo, w)),
        Op::Add | Op::Sub | Op::Mul if lo == 0 =>
            return bin(n.op, extract(n.a, 0, w), extract(n.b, 0, w)),
        Op::Ite if as_const(n.b).is_some() || as_const(n.c).is_some() =>
            return ite(n.a, extract(n.b, lo, w), extract(n.c, lo, w)),
        _ => (),
    }
    if lo < 128 && (n.umax >> lo) == 0 { return cst(w, 0) }
    mk(Op::Extract, w, a, 0, 0, u128::from(lo))
}

/// `a` on the high side, `b` on the low side.
pub fn concat(a: E, b: E) -> E {
    let (na, nb) = (node(a), node(b));
    let w = na.w + nb.w;
    if na.op == Op::Const {
        if nb.op == Op::Const { return cst(w, (na.k << nb.w) | nb.k) }
        if na.k == 0 { return zext(b, w) }
    }
    if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a
        && na.k == nb.k + u128::from(nb.w) {
        return extract(na.a, nb.k as u32, w);
    }
    if na.op == Op::ZExt {
        return zext(concat(na.a, b), w);
    }
    mk(Op::Concat, w, a, b, 0, 0)
}

/// Evaluates under an assignment of the input bytes.
pub fn eval(e: E, model: &[u8]) -> u128 {
    ARENA.with(|ar| {
        let mut ar = ar.borrow_mut();
        let n = ar.nodes.len();
        if ar.memo.len() < n { ar.memo.resize(n, (0, 0)) }
        ar.stamp += 1;
        eval_rec(&mut ar, e, model)
    })
}

fn eval_rec(ar: &mut Arena, e: E, model: &[u8]) -> u128 {
    let n = ar.nodes[e as usize];
    match n.op {
        Op::Const => return n.k,
        Op::Var => return u128::from(model.get(n.k as usize).copied().unwrap_or(0)),
        _ => (),
    }
    let (st, v) = ar.memo[e as usize];
    if st == ar.stamp { return v }
    let r = match n.op {
        Op::Ite => if eval_rec(ar, n.a, model) == 1 { eval_rec(ar, n.b, model) }
                   else { eval_rec(ar, n.c, model) },
        Op::Concat => {
            let lw = ar.nodes[n.b as usize].w;
            (eval_rec(ar, n.a, model) << lw) | eval_rec(ar, n.b, model)
        }
        Op::Extract => (eval_rec(ar, n.a, model) >> n.k) & mask(n.w),
        Op::ZExt => eval_rec(ar, n.a, model),
        Op::SExt => {
            let iw = ar.nodes[n.a as usize].w;
            (sext(eval_rec(ar, n.a, model), iw) as u128) & mask(n.w)
        }
        op => {
            let iw = ar.nodes[n.a as usize].w;
            let x = eval_rec(ar, n.a, model);
            let y = eval_rec(ar, n.b, model);
            fold(op, iw, x, y)
        }
    };
    ar.memo[e as usize] = (ar.stamp, r);
    r
}

// ---- operations on values

pub fn vbin(op: Op, w: u32, a: &V, b: &V) -> V {
    match (a, b) {
        (V::C(x), V::C(y)) => V::C(fold(op, w, *x, *y)),
        _ => val(bin(op, ex(a, w), ex(b, w))),
    }
}
pub fn vnot(a: &V) -> V { vbin(Op::Xor, 1, a, &V::C(1)) }
pub fn vite(w: u32, c: &V, a: &V, b: &V) -> V {
    match c {
        V::C(1) => a.clone(),
        V::C(_) => b.clone(),
        V::S(c) => val(ite(*c, ex(a, w), ex(b, w))),
        V::A(_) => panic!("aggregate condition"),
    }
}
