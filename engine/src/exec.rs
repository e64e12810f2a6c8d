//! Path-wise symbolic execution of the IR.
//!
//! A path is a `State`: call frames, memory, the path condition and one input
//! assignment that satisfies it.  Where a branch, an address or a size depends
//! on the inputs, the solver says which outcomes are possible and the state is
//! split into one successor per possible outcome.

use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;

use crate::expr::*;
use crate::ir::*;
use crate::solver::Solver;
use crate::{Shared, Violation, Work};

const NOE: E = u32::MAX;
/// Marks a decision that had only one possible outcome.
const FORCED: u128 = 1 << 127;
pub const MAX_VARS: usize = 128;

pub struct Obj { data: Vec<u8>, sym: Vec<E>, freed: bool, ro: bool }

impl Clone for Obj {
    fn clone(&self) -> Self {
        Obj { data: self.data.clone(), sym: self.sym.clone(), freed: self.freed, ro: self.ro }
    }
}

impl Obj {
    fn new(n: usize) -> Self { Obj { data: vec![0; n], sym: vec![], freed: false, ro: false } }
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    bb: u32,
    ip: usize,
    regs: Vec<V>,
    mark: usize,
    dst: Option<u32>,
    next: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    heap: Vec<Rc<Obj>>,
    stack: Vec<Rc<Obj>>,
    gl: FxMap<u32, Rc<Obj>>,
    pc: Vec<E>,
    known: FxMap<E, u128>,
    model: Vec<u8>,
    nvars: usize,
    obs: Vec<(V, u32)>,
    trail: Vec<u128>,
    /// Decisions still to be followed (a work item taken from another thread).
    script: Rc<Vec<u128>>,
    steps: u64,
    covers: Vec<u64>,
    race: Option<Race>,
    /// How many frames there were when the other thread began, while it runs.
    other: Option<usize>,
}

/// What another thread will do: call this, before the `at`th atomic access.
#[derive(Clone)]
struct Race {
    f: u32,
    data: V,
    at: V,
    n: u64,
}

pub enum Stop {
    /// Path is a violation.
    Bad(String, String),
    /// Path does not exist (assumption is false on it).
    Dead,
    /// The machinery cannot continue.
    Err(String),
}
type R<T> = Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> R<T> { Err(Stop::Err(s.into())) }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi {
    None, Nop, Assume, MemCpy, MemMove, MemSet, Umin, Umax, Smin, Smax, Abs, UaddSat, UsubSat,
    Uadd, Usub, Umul, Sadd, Ssub, Smul, Ctlz, Cttz, Ctpop, Bswap, BitRev, Fshl, Fshr, Ucmp, Scmp,
    IsConst, TlsAddr, Trap, Bcmp, Memcmp, Strlen, Malloc, Calloc, Realloc, Free, Memalign, RandKeys,
    Panic, SymBytes, SymAssume, SymCheck, SymCover, SymObserve, SymConc, SymDepth, SymHeap, RaceBegin, RaceEnd, Spin, VecRed, Ident, AtExit,
}

fn builtin(f: &Func) -> Bi {
    let n = f.name.as_str();
    if let Some(r) = n.strip_prefix("llvm.") {
        let st = |p: &str| r.starts_with(p);
        return if st("assume") { Bi::Assume }
            else if st("x86.sse2.pause") { Bi::Spin }
            else if st("lifetime") || st("experimental.noalias") || st("dbg") || st("invariant")
                || st("prefetch") || st("donothing") || st("sideeffect") { Bi::Nop }
            else if st("memcpy") { Bi::MemCpy } else if st("memmove") { Bi::MemMove } else if st("memset") { Bi::MemSet }
            else if st("umin") { Bi::Umin } else if st("umax") { Bi::Umax }
            else if st("smin") { Bi::Smin } else if st("smax") { Bi::Smax } else if st("abs") { Bi::Abs }
            else if st("uadd.sat") { Bi::UaddSat } else if st("usub.sat") { Bi::UsubSat }
            else if st("uadd.with") { Bi::Uadd } else if st("usub.with") { Bi::Usub } else if st("umul.with") { Bi::Umul }
            else if st("sadd.with") { Bi::Sadd } else if st("ssub.with") { Bi::Ssub } else if st("smul.with") { Bi::Smul }
            else if st("ctlz") { Bi::Ctlz } else if st("cttz") { Bi::Cttz } else if st("ctpop") { Bi::Ctpop }
            else if st("bswap") { Bi::Bswap } else if st("bitreverse") { Bi::BitRev }
            else if st("fshl") { Bi::Fshl } else if st("fshr") { Bi::Fshr }
            else if st("ucmp") { Bi::Ucmp } else if st("scmp") { Bi::Scmp }
            else if st("is.constant") { Bi::IsConst } else if st("threadlocal.address") { Bi::TlsAddr }
            else if st("trap") || st("ubsantrap") { Bi::Trap }
            else if st("vector.reduce") { Bi::VecRed }
            else if st("expect") || st("ssa.copy") || st("launder") || st("strip") { Bi::Ident }
            else { Bi::None };
    }
    match n {
        "bcmp" => Bi::Bcmp, "memcmp" => Bi::Memcmp, "strlen" => Bi::Strlen,
        "malloc" => Bi::Malloc, "calloc" => Bi::Calloc, "realloc" => Bi::Realloc, "free" => Bi::Free,
        "posix_memalign" => Bi::Memalign, "abort" => Bi::Trap,
        "memcpy" => Bi::MemCpy, "memmove" => Bi::MemMove, "memset" => Bi::MemSet,
        "__cxa_thread_atexit_impl" => Bi::AtExit,
        "sym_bytes" => Bi::SymBytes, "sym_assume" => Bi::SymAssume, "sym_check" | "sym_assert" => Bi::SymCheck,
        "sym_cover" => Bi::SymCover, "sym_observe" => Bi::SymObserve, "sym_concretize" => Bi::SymConc,
        "sym_note" => Bi::Nop, "sym_depth" => Bi::SymDepth, "sym_heap" => Bi::SymHeap,
        "sym_race_begin" => Bi::RaceBegin, "sym_race_end" => Bi::RaceEnd,
        _ if n.contains("4core9panicking") => Bi::Panic,
        _ if n.contains("rust_begin_unwind") || n.contains("handle_alloc_error") => Bi::Panic,
        _ if n.contains("hashmap_random_keys") => Bi::RandKeys,
        _ => Bi::None,
    }
}

pub struct Exec<'s> {
    m: Module,
    bi: Vec<Bi>,
    base: Vec<Rc<Obj>>,
    pub solver: Solver,
    work: Vec<State>,
    sh: &'s Shared,
    pub paths: u64,
    pub dead: u64,
    pub forks: u64,
    pub steps: u64,
    pub max_frames: usize,
    pub covers: BTreeMap<u64, Vec<u8>>,
    pub used: Vec<bool>,
    pub checks: u64,
    pub samples: Vec<(Vec<u8>, u64)>,
}

fn fnv(h: u64, v: u64) -> u64 {
    let mut h = h;
    for k in 0..8 { h = (h ^ (v >> (8 * k) & 0xff)).wrapping_mul(0x100000001b3) }
    h
}
const FNV0: u64 = 0xcbf29ce484222325;

fn to_op(b: BinOp) -> Op {
    match b {
        BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv,
        BinOp::SDiv => Op::SDiv, BinOp::URem => Op::URem, BinOp::SRem => Op::SRem, BinOp::Shl => Op::Shl,
        BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr, BinOp::And => Op::And, BinOp::Or => Op::Or,
        BinOp::Xor => Op::Xor,
    }
}

fn icmp(p: Pred, w: u32, a: &V, b: &V) -> V {
    match p {
        Pred::Eq => vbin(Op::Eq, w, a, b),
        Pred::Ne => vnot(&vbin(Op::Eq, w, a, b)),
        Pred::Ult => vbin(Op::Ult, w, a, b),
        Pred::Ugt => vbin(Op::Ult, w, b, a),
        Pred::Ule => vnot(&vbin(Op::Ult, w, b, a)),
        Pred::Uge => vnot(&vbin(Op::Ult, w, a, b)),
        Pred::Slt => vbin(Op::Slt, w, a, b),
        Pred::Sgt => vbin(Op::Slt, w, b, a),
        Pred::Sle => vnot(&vbin(Op::Slt, w, b, a)),
        Pred::Sge => vnot(&vbin(Op::Slt, w, a, b)),
    }
}

fn lanes(v: &V) -> Rc<Vec<V>> {
    match v { V::A(x) => x.clone(), _ => panic!("vector expected") }
}

fn lane_bits(t: &Ty) -> u32 { match t { Ty::Vector(_, e) => e.bits(), t => t.bits() } }

fn map1(t: &Ty, a: &V, f: impl Fn(u32, &V) -> V) -> V {
    match t {
        Ty::Vector(_, e) => V::A(Rc::new(lanes(a).iter().map(|x| f(e.bits(), x)).collect())),
        _ => f(t.bits(), a),
    }
}
fn map2(t: &Ty, a: &V, b: &V, f: impl Fn(u32, &V, &V) -> V) -> V {
    match t {
        Ty::Vector(_, e) => V::A(Rc::new(lanes(a).iter().zip(lanes(b).iter()).map(|(x, y)| f(e.bits(), x, y)).collect())),
        _ => f(t.bits(), a, b),
    }
}

fn vext(a: &V, from: u32, lo: u32, w: u32) -> V {
    match a {
        V::C(c) => V::C(c >> lo & mask(w)),
        _ => val(extract(ex(a, from), lo, w)),
    }
}
fn vzext(a: &V, from: u32, to: u32) -> V {
    if from == to { return a.clone() }
    match a { V::C(_) => a.clone(), _ => val(zext(ex(a, from), to)) }
}
fn vsext(a: &V, from: u32, to: u32) -> V {
    match a { V::C(c) => V::C(sext(*c, from) as u128 & mask(to)), _ => val(sext_e(ex(a, from), to)) }
}
/// hi ++ lo
fn vcat(hi: &V, wh: u32, lo: &V, wl: u32) -> V {
    match (hi, lo) {
        (V::C(h), V::C(l)) => V::C(h << wl | l),
        _ => val(concat(ex(hi, wh), ex(lo, wl))),
    }
}

fn to_bits(t: &Ty, v: &V) -> (V, u32) {
    match t {
        Ty::Vector(_, e) => {
            let mut acc = V::C(0);
            let mut w = 0;
            for x in lanes(v).iter() {
                acc = if w == 0 { x.clone() } else { vcat(x, e.bits(), &acc, w) };
                w += e.bits();
            }
            (acc, w)
        }
        _ => (v.clone(), t.bits()),
    }
}
fn from_bits(t: &Ty, v: &V, w: u32) -> V {
    match t {
        Ty::Vector(n, e) => V::A(Rc::new((0..*n as u32).map(|i| vext(v, w, i * e.bits(), e.bits())).collect())),
        _ => v.clone(),
    }
}

fn get_path(v: &V, path: &[usize]) -> V {
    let mut v = v.clone();
    for &i in path { v = match &v { V::A(a) => a[i].clone(), _ => panic!("aggregate") } }
    v
}
fn set_path(v: &V, path: &[usize], x: V) -> V {
    if path.is_empty() { return x }
    let V::A(a) = v else { panic!("aggregate") };
    let mut a = (**a).clone();
    a[path[0]] = set_path(&a[path[0]], &path[1..], x);
    V::A(Rc::new(a))
}

impl<'s> Exec<'s> {
    pub fn new(m: Module, sh: &'s Shared) -> Self {
        let bi = m.funcs.iter().map(|f| builtin(f)).collect();
        let base = m.globals.iter().map(|g| Rc::new(Obj { data: g.data.clone(), sym: vec![], freed: false, ro: g.constant })).collect();
        let used = vec![false; m.funcs.len()];
        let mut solver = Solver::new(sh.cfg.query_ms);
        if sh.cfg.dump.is_some() { solver.log = Some(vec![]) }
        Exec { m, bi, base, solver, work: vec![], sh, paths: 0, dead: 0, forks: 0, steps: 0, max_frames: 0,
               covers: BTreeMap::new(), used, checks: 0, samples: vec![] }
    }

    pub fn used_names(&self) -> Vec<String> {
        self.m.funcs.iter().zip(&self.used).filter(|(f, u)| **u && !f.decl).map(|(f, _)| f.name.clone()).collect()
    }

    fn initial(&self, w: &Work) -> R<State> {
        let fid = match self.m.fn_ids.get(&self.sh.cfg.entry) {
            Some(&f) if !self.m.funcs[f as usize].decl => f,
            _ => return err(format!("entry function {} not found", self.sh.cfg.entry)),
        };
        let f = self.m.funcs[fid as usize].clone();
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (p, v) in f.params.iter().zip(&self.sh.cfg.args) { regs[*p as usize] = V::C(u128::from(*v)) }
        if f.params.len() != self.sh.cfg.args.len() { return err("number of entry arguments") }
        let fr = Frame { f, bb: 0, ip: 0, regs, mark: 0, dst: None, next: None };
        let mut model = w.model.clone();
        model.resize(MAX_VARS, 0);
        Ok(State { frames: vec![Rc::new(fr)], heap: vec![], stack: vec![], gl: FxMap::default(), pc: vec![],
            known: FxMap::default(), model, nvars: 0, obs: vec![], trail: vec![], script: Rc::new(w.script.clone()),
            steps: 0, covers: vec![], race: None, other: None })
    }

    /// Explore everything below the given work item.
    pub fn explore(&mut self, w: &Work) -> Result<(), String> {
        match self.initial(w) {
            Ok(s) => self.work.push(s),
            Err(Stop::Err(e)) => return Err(e),
            Err(_) => unreachable!(),
        }
        while let Some(st) = self.work.pop() {
            if self.sh.stop.load(Relaxed) { self.work.clear(); return Ok(()) }
            self.path(st)?;
        }
        Ok(())
    }

    fn donate(&mut self) {
        if self.sh.hungry.load(Relaxed) == 0 || self.work.len() < 2 { return }
        let mut q = self.sh.queue.lock().unwrap();
        let n = self.sh.hungry.load(Relaxed).min(self.work.len() / 2).max(1);
        // The shallowest states stand first.
        for st in self.work.drain(..n) {
            q.push(Work { script: st.trail, model: st.model });
        }
        drop(q);
        self.sh.cond.notify_all();
    }

    fn path(&mut self, mut st: State) -> Result<(), String> {
        let r = self.run(&mut st);
        match r {
            Ok(()) => {
                if self.scripted(&st).is_some() { return Err("split work item does not replay".into()) }
                self.paths += 1;
                let t = self.sh.paths.fetch_add(1, Relaxed);
                for &c in &st.covers {
                    if !self.covers.contains_key(&c) { self.covers.insert(c, st.model[..st.nvars].to_vec()); }
                }
                if t % self.sh.cfg.sample_every == 0 {
                    let mut h = FNV0;
                    for (v, w) in &st.obs {
                        let x = match v { V::C(c) => *c, v => eval(ex(v, *w), &st.model) };
                        h = fnv(h, x as u64);
                    }
                    self.samples.push((st.model[..st.nvars].to_vec(), h));
                }
                if t + 1 >= self.sh.cfg.max_paths { return Err(format!("more than {} paths", self.sh.cfg.max_paths)) }
            }
            Err(Stop::Dead) => self.dead += 1,
            Err(Stop::Bad(kind, wh)) => { self.paths += 1; self.violation(&st, kind, wh, &st.model.clone()) }
            Err(Stop::Err(e)) => {
                let tr: Vec<String> = st.frames.iter().rev().take(6).map(|f| f.f.name.clone()).collect();
                return Err(format!("{e} [in {}] inputs {}", tr.join(" <- "), hex(&st.model[..st.nvars])));
            }
        }
        if self.sh.deadline < std::time::Instant::now() { return Err("time limit".into()) }
        Ok(())
    }

    fn violation(&mut self, st: &State, kind: String, wh: String, model: &[u8]) {
        let mut v = self.sh.violations.lock().unwrap();
        let weight = if kind == "limit" { 6 } else { 1 };
        let same = v.iter().filter(|x: &&Violation| x.kind == kind).count();
        if same < self.sh.cfg.per_kind {
            let tr: Vec<String> = st.frames.iter().rev().take(5).map(|f| f.f.name.clone()).collect();
            v.push(Violation { kind, what: wh, model: model[..st.nvars].to_vec(), at: tr.join(" <- ") });
        }
        // Ones without an end take long.
        let n = self.sh.found.fetch_add(weight, Relaxed) + weight;
        if n >= self.sh.cfg.max_violations { self.sh.stop.store(true, Relaxed); self.sh.cond.notify_all() }
    }

    // ----- decisions -----

    fn with(&self, st: &State, part: &crate::solver::Part) -> Vec<u8> {
        let mut m = st.model.clone();
        for &(i, b) in part.iter() { m[i as usize] = b }
        let _ = self;
        m
    }

    fn scripted(&self, st: &State) -> Option<u128> { st.script.get(st.trail.len()).copied() }

    fn push_pc(st: &mut State, e: E) {
        if as_const(e) == Some(1) { return }
        let n = node(e);
        st.known.insert(e, 1);
        st.known.insert(not(e), 0);
        // Keep conjunctions apart so that slicing sees the parts.
        if n.op == Op::And && n.w == 1 { Self::push_pc(st, n.a); Self::push_pc(st, n.b); return }
        if !st.pc.contains(&e) { st.pc.push(e) }
        if n.op == Op::Eq {
            if let Some(k) = as_const(n.b) { st.known.insert(n.a, k); }
            else if let Some(k) = as_const(n.a) { st.known.insert(n.b, k); }
        }
    }

    /// Decide a 1-bit condition.  On return the state has the condition (or
    /// its negation) in its path condition; a clone for the other outcome, if
    /// possible, is queued with the instruction not yet executed.
    fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = as_const(c) { return Ok(k == 1) }
        if let Some(&k) = st.known.get(&c) { return Ok(k == 1) }
        if let Some(k) = self.scripted(st) {
            // Following a work item: its decisions are known.
            st.trail.push(k);
            let b = k & !FORCED == 1;
            if (eval(c, &st.model) == 1) != b { return err("split work item does not replay") }
            if k & FORCED != 0 { Self::push_known(st, c, b) } else { Self::push_pc(st, if b { c } else { not(c) }) }
            return Ok(b);
        }
        let b = eval(c, &st.model) == 1;
        let (yes, no) = if b { (c, not(c)) } else { (not(c), c) };
        match self.solver.check(&st.pc, no).map_err(Stop::Err)? {
            None => { st.trail.push(FORCED | u128::from(b)); Self::push_known(st, c, b); Ok(b) }
            Some(part) => {
                self.forks += 1;
                let mut o = st.clone();
                o.model = self.with(st, &part);
                o.trail.push(u128::from(!b));
                Self::push_pc(&mut o, no);
                self.work.push(o);
                self.donate();
                st.trail.push(u128::from(b));
                Self::push_pc(st, yes);
                Ok(b)
            }
        }
    }

    fn push_known(st: &mut State, c: E, b: bool) { st.known.insert(c, u128::from(b)); }

    /// Make a value concrete, splitting on every possible value.
    fn conc(&mut self, st: &mut State, v: &V, w: u32) -> R<u128> {
        let e = match v { V::C(c) => return Ok(*c), v => ex(v, w) };
        if let Some(k) = as_const(e) { return Ok(k) }
        if let Some(&k) = st.known.get(&e) { return Ok(k) }
        if let Some(k) = self.scripted(st) {
            st.trail.push(k);
            let (forced, k) = (k & FORCED != 0, k & !FORCED);
            if eval(e, &st.model) != k { return err("split work item does not replay") }
            if !forced { Self::push_pc(st, bin(Op::Eq, e, cst(w, k))) }
            st.known.insert(e, k);
            return Ok(k);
        }
        // All possible values, starting with the one of the model at hand.
        let k0 = eval(e, &st.model);
        let mut found: Vec<(u128, Vec<u8>)> = vec![(k0, st.model.clone())];
        let mut q = not(bin(Op::Eq, e, cst(w, k0)));
        while let Some(p) = self.solver.check(&st.pc, q).map_err(Stop::Err)? {
            let m = self.with(st, &p);
            let k = eval(e, &m);
            q = bin(Op::And, q, not(bin(Op::Eq, e, cst(w, k))));
            if found.iter().any(|f| f.0 == k) { return err("enumeration of values") }
            found.push((k, m));
            if found.len() > self.sh.cfg.max_values { return err(format!("more than {} values at an address or size", self.sh.cfg.max_values)) }
        }
        if found.len() == 1 { st.trail.push(FORCED | k0); st.known.insert(e, k0); return Ok(k0) }
        found[1..].sort_by_key(|f| f.0);
        for (k, m) in found[1..].iter() {
            self.forks += 1;
            let mut o = st.clone();
            o.model = m.clone();
            o.trail.push(*k);
            Self::push_pc(&mut o, bin(Op::Eq, e, cst(w, *k)));
            o.known.insert(e, *k);
            self.work.push(o);
        }
        self.donate();
        let k = found[0].0;
        st.trail.push(k);
        Self::push_pc(st, bin(Op::Eq, e, cst(w, k)));
        st.known.insert(e, k);
        Ok(k)
    }

    // ----- memory -----

    fn obj<'a>(&'a self, st: &'a State, a: u64, n: u64) -> R<(&'a Rc<Obj>, usize)> {
        let (r, id, off) = (a >> 56, (a >> OFF_BITS & 0xffff_ffff) as usize, (a & ((1 << OFF_BITS) - 1)) as usize);
        let o = match r {
            REGION_GLOBAL => match st.gl.get(&(id as u32)) { Some(o) => Some(o), None => self.base.get(id) },
            REGION_HEAP => st.heap.get(id),
            REGION_STACK => st.stack.get(id),
            _ => None,
        };
        match o {
            None => Err(Stop::Bad("memory".into(), format!("access to invalid address {a:#x}"))),
            Some(o) if o.freed => Err(Stop::Bad("memory".into(), format!("use after free at {a:#x}"))),
            Some(o) if off as u64 + n > o.data.len() as u64 =>
                Err(Stop::Bad("memory".into(), format!("out of bounds: {off}+{n} of {}", o.data.len()))),
            Some(o) => Ok((o, off)),
        }
    }

    fn obj_mut<'a>(&self, st: &'a mut State, a: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        self.obj(st, a, n)?;
        let (r, id, off) = (a >> 56, (a >> OFF_BITS & 0xffff_ffff) as usize, (a & ((1 << OFF_BITS) - 1)) as usize);
        let rc = match r {
            REGION_GLOBAL => {
                if self.base[id].ro { return Err(Stop::Bad("memory".into(), "write to a constant".into())) }
                let b = &self.base[id];
                st.gl.entry(id as u32).or_insert_with(|| b.clone())
            }
            REGION_HEAP => &mut st.heap[id],
            _ => &mut st.stack[id],
        };
        Ok((Rc::make_mut(rc), off))
    }

    fn read_int(o: &Obj, off: usize, n: usize) -> V {
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|&e| e == NOE) {
            let mut k = 0u128;
            for i in (0..n).rev() { k = k << 8 | u128::from(o.data[off + i]) }
            return V::C(k);
        }
        let by = |i: usize| -> E { if o.sym[off + i] == NOE { cst(8, u128::from(o.data[off + i])) } else { o.sym[off + i] } };
        let mut e = by(n - 1);
        for i in (0..n - 1).rev() { e = concat(e, by(i)) }
        val(e)
    }

    fn write_int(o: &mut Obj, off: usize, n: usize, v: &V, w: u32) {
        match v {
            V::C(k) => {
                for i in 0..n { o.data[off + i] = (k >> (8 * i)) as u8 }
                if !o.sym.is_empty() { for i in 0..n { o.sym[off + i] = NOE } }
            }
            v => {
                let e = zext(ex(v, w), n as u32 * 8);
                if o.sym.is_empty() { o.sym = vec![NOE; o.data.len()] }
                for i in 0..n {
                    let b = extract(e, i as u32 * 8, 8);
                    match as_const(b) {
                        Some(k) => { o.data[off + i] = k as u8; o.sym[off + i] = NOE }
                        None => o.sym[off + i] = b,
                    }
                }
            }
        }
    }

    fn load(&self, st: &State, a: u64, t: &Ty) -> R<V> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let n = t.store_size();
                let (o, off) = self.obj(st, a, n)?;
                let v = Self::read_int(o, off, n as usize);
                let w = t.bits();
                Ok(if w % 8 != 0 { vext(&v, n as u32 * 8, 0, w) } else { v })
            }
            Ty::Vector(..) if lane_bits(t) % 8 != 0 => err("load of a bit vector"),
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let mut vs = vec![];
                for i in 0..t.fields() {
                    let (o, ft) = t.field(i);
                    vs.push(self.load(st, a.wrapping_add(o), &ft)?);
                }
                Ok(V::A(Rc::new(vs)))
            }
            _ => err("load type"),
        }
    }

    fn store(&self, st: &mut State, a: u64, t: &Ty, v: &V) -> R<()> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let n = t.store_size();
                let (o, off) = self.obj_mut(st, a, n)?;
                Self::write_int(o, off, n as usize, v, t.bits());
                Ok(())
            }
            Ty::Vector(..) if lane_bits(t) % 8 != 0 => err("store of a bit vector"),
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let V::A(vs) = v else { return err("store of aggregate") };
                for (i, x) in vs.iter().enumerate() {
                    let (o, ft) = t.field(i);
                    self.store(st, a.wrapping_add(o), &ft, x)?;
                }
                Ok(())
            }
            _ => err("store type"),
        }
    }

    /// Load through a symbolic address: table look-up as one expression when
    /// the address stays in a small constant table, else split.
    fn load_sym(&mut self, st: &mut State, p: &V, t: &Ty) -> R<V> {
        let e = ex(p, 64);
        if let Some(&k) = st.known.get(&e) { return self.load(st, k as u64, t) }
        if t.is_scalar() && t.bits() % 8 == 0 {
            let n = t.store_size();
            let part = self.solver.check(&st.pc, not(bin(Op::Eq, e, cst(64, 0)))).map_err(Stop::Err)?;
            if let Some(part) = part {
                let a0 = eval(e, &self.with(st, &part)) as u64;
                let base = a0 >> OFF_BITS << OFF_BITS;
                if let Ok((o, _)) = self.obj(st, a0, n) {
                    let o = o.clone();
                    let len = o.data.len() as u64;
                    if o.ro && len <= 4096 && len >= n {
                        let off = bin(Op::Sub, e, cst(64, u128::from(base)));
                        let out = bin(Op::Ult, cst(64, u128::from(len - n)), off);
                        if self.solver.check(&st.pc, out).map_err(Stop::Err)?.is_none() {
                            let low = (0..8u32).rev().find(|k| (1u64 << k) <= n && n % (1u64 << k) == 0).unwrap_or(0);
                            let mut step = 1u64 << low;
                            if step > 1 {
                                let mis = not(bin(Op::Eq, extract(off, 0, low), cst(low, 0)));
                                if self.solver.check(&st.pc, mis).map_err(Stop::Err)?.is_some() { step = 1 }
                            }
                            let mut groups: BTreeMap<u128, Vec<u64>> = BTreeMap::new();
                            let mut k = 0;
                            while k + n <= len {
                                if let V::C(c) = Self::read_int(&o, k as usize, n as usize) { groups.entry(c).or_default().push(k) }
                                k += step;
                            }
                            let mut gs: Vec<(u128, Vec<u64>)> = groups.into_iter().collect();
                            gs.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
                            let mut r = cst(t.bits(), gs[0].0);
                            for (c, ks) in gs[1..].iter() {
                                let mut any = cst(1, 0);
                                // consecutive offsets as ranges
                                let mut i = 0;
                                while i < ks.len() {
                                    let mut j = i;
                                    while j + 1 < ks.len() && ks[j + 1] == ks[j] + step { j += 1 }
                                    let cnd = if i == j { bin(Op::Eq, off, cst(64, u128::from(ks[i]))) } else {
                                        bin(Op::And, not(bin(Op::Ult, off, cst(64, u128::from(ks[i])))),
                                            not(bin(Op::Ult, cst(64, u128::from(ks[j])), off))) };
                                    any = bin(Op::Or, any, cnd);
                                    i = j + 1;
                                }
                                r = ite(any, cst(t.bits(), *c), r);
                            }
                            return Ok(val(r));
                        }
                    }
                }
            }
        }
        let a = self.conc(st, p, 64)? as u64;
        self.load(st, a, t)
    }

    fn malloc(st: &mut State, n: u64) -> R<u64> {
        if n >= 1 << OFF_BITS { return err(format!("allocation of {n} bytes")) }
        let id = st.heap.len() as u64;
        st.heap.push(Rc::new(Obj::new(n as usize)));
        Ok(addr(REGION_HEAP, id))
    }

    fn free(&self, st: &mut State, p: u64) -> R<()> {
        if p == 0 { return Ok(()) }
        if p >> 56 != REGION_HEAP || p & ((1 << OFF_BITS) - 1) != 0 {
            return Err(Stop::Bad("memory".into(), "free of a non-heap pointer".into()));
        }
        self.obj(st, p, 0)?;
        let id = (p >> OFF_BITS & 0xffff_ffff) as usize;
        st.heap[id] = Rc::new(Obj { data: vec![], sym: vec![], freed: true, ro: false });
        Ok(())
    }

    fn copy(&self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()) }
        let (o, off) = self.obj(st, s, n)?;
        let (off, n) = (off, n as usize);
        let bytes = o.data[off..off + n].to_vec();
        let sy = if o.sym.is_empty() { vec![] } else { o.sym[off..off + n].to_vec() };
        let any = sy.iter().any(|&e| e != NOE);
        let (o, off) = self.obj_mut(st, d, n as u64)?;
        o.data[off..off + n].copy_from_slice(&bytes);
        if any {
            if o.sym.is_empty() { o.sym = vec![NOE; o.data.len()] }
            o.sym[off..off + n].copy_from_slice(&sy);
        } else if !o.sym.is_empty() {
            for e in &mut o.sym[off..off + n] { *e = NOE }
        }
        Ok(())
    }

    // ----- instructions -----

    fn run(&mut self, st: &mut State) -> R<()> {
        loop {
            if st.frames.is_empty() { return Ok(()) }
            let f = st.frames.last().unwrap().f.clone();
            let depth = st.frames.len();
            loop {
                st.steps += 1;
                self.steps += 1;
                if st.steps > self.sh.cfg.max_steps {
                    return Err(Stop::Bad("limit".into(), format!("more than {} instructions on one path", self.sh.cfg.max_steps)));
                }
                if st.steps & 0xffff == 0 && self.sh.deadline < std::time::Instant::now() { return err("time limit") }
                if st.steps & 0xffff == 0 && self.sh.stop.load(Relaxed) { return Err(Stop::Dead) }
                let fr = st.frames.last().unwrap();
                let blk = &f.blocks[fr.bb as usize];
                let Some(i) = blk.insts.get(fr.ip) else { return err("end of block") };
                if self.step(st, i)? && st.frames.len() != depth { break }
            }
        }
    }

    fn o<'a>(fr: &'a Frame, o: &'a Opnd) -> &'a V {
        match o { Opnd::Reg(r) => &fr.regs[*r as usize], Opnd::K(v) => v }
    }
    fn ov(st: &State, o: &Opnd) -> V { Self::o(st.frames.last().unwrap(), o).clone() }

    fn set(st: &mut State, d: u32, v: V) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.regs[d as usize] = v;
        fr.ip += 1;
    }
    fn adv(st: &mut State) { Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1 }

    fn goto(st: &mut State, b: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let f = fr.f.clone();
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let vs: Vec<V> = blk.phis.iter().map(|p| {
                let (_, o) = p.inc.iter().find(|(l, _)| *l == fr.bb).expect("phi edge");
                Self::o(fr, o).clone()
            }).collect();
            for (p, v) in blk.phis.iter().zip(vs) { fr.regs[p.d as usize] = v }
        }
        fr.bb = b;
        fr.ip = 0;
    }

    /// Address operand; loads handle symbolic ones themselves.
    fn addr(&mut self, st: &mut State, p: &Opnd) -> R<u64> {
        let v = Self::ov(st, p);
        Ok(self.conc(st, &v, 64)? as u64)
    }

    /// Returns true when the frame stack may have changed.
    fn step(&mut self, st: &mut State, i: &Inst) -> R<bool> {
        match i {
            Inst::Load { d, ty, p } => {
                let pv = Self::ov(st, p);
                let v = match &pv {
                    V::C(a) => self.load(st, *a as u64, ty)?,
                    _ => self.load_sym(st, &pv, ty)?,
                };
                Self::set(st, *d, v);
            }
            Inst::Store { ty, v, p } => {
                let a = self.addr(st, p)?;
                let v = Self::ov(st, v);
                self.store(st, a, ty, &v)?;
                Self::adv(st);
            }
            Inst::Gep { d, base, off, idx } => {
                let fr = st.frames.last().unwrap();
                let mut a = Self::o(fr, base).clone();
                if *off != 0 { a = vbin(Op::Add, 64, &a, &V::C(u128::from(*off))) }
                for (o, w, sz) in idx {
                    let x = vsext(Self::o(fr, o), *w, 64);
                    let x = if *sz == 1 { x } else { vbin(Op::Mul, 64, &x, &V::C(u128::from(*sz))) };
                    a = vbin(Op::Add, 64, &a, &x);
                }
                Self::set(st, *d, a);
            }
            Inst::Bin { d, op, ty, a, b } => {
                let (a, b) = (Self::ov(st, a), Self::ov(st, b));
                let o = to_op(*op);
                let v = map2(ty, &a, &b, |w, x, y| vbin(o, w, x, y));
                Self::set(st, *d, v);
            }
            Inst::Icmp { d, p, ty, a, b } => {
                let (a, b) = (Self::ov(st, a), Self::ov(st, b));
                let v = map2(ty, &a, &b, |w, x, y| icmp(*p, w, x, y));
                Self::set(st, *d, v);
            }
            Inst::Cast { d, k, from, to, a } => {
                let a = Self::ov(st, a);
                let tw = lane_bits(to);
                let v = map1(from, &a, |w, x| match k {
                    Cast::Trunc => vext(x, w, 0, tw),
                    Cast::ZExt => vzext(x, w, tw),
                    Cast::SExt => vsext(x, w, tw),
                    Cast::Same => x.clone(),
                });
                Self::set(st, *d, v);
            }
            Inst::Bitcast { d, from, to, a } => {
                let a = Self::ov(st, a);
                let (b, w) = to_bits(from, &a);
                Self::set(st, *d, from_bits(to, &b, w));
            }
            Inst::Select { d, cty, ty, c, a, b } => {
                let (c, a, b) = (Self::ov(st, c), Self::ov(st, a), Self::ov(st, b));
                let v = match cty {
                    Ty::Vector(..) => {
                        let (c, a, b) = (lanes(&c), lanes(&a), lanes(&b));
                        V::A(Rc::new((0..c.len()).map(|i| vite(lane_bits(ty), &c[i], &a[i], &b[i])).collect()))
                    }
                    _ => match &c {
                        V::C(1) => a,
                        V::C(_) => b,
                        V::S(e) => match st.known.get(e) {
                            Some(1) => a,
                            Some(_) => b,
                            None => match (ty, &a, &b) {
                                (Ty::Int(_), _, _) => vite(ty.bits(), &c, &a, &b),
                                (_, V::C(x), V::C(y)) if x == y => a,
                                _ => if self.branch(st, *e)? { a } else { b },
                            },
                        },
                        V::A(_) => return err("select"),
                    },
                };
                Self::set(st, *d, v);
            }
            Inst::Move { d, a } => { let v = Self::ov(st, a); Self::set(st, *d, v) }
            Inst::ExtractValue { d, a, path } => {
                let v = get_path(Self::o(st.frames.last().unwrap(), a), path);
                Self::set(st, *d, v);
            }
            Inst::InsertValue { d, ty: _, a, v, path } => {
                let fr = st.frames.last().unwrap();
                let r = set_path(Self::o(fr, a), path, Self::o(fr, v).clone());
                Self::set(st, *d, r);
            }
            Inst::ExtractElem { d, n, a, i } => {
                let iv = Self::ov(st, i);
                let k = self.conc(st, &iv, 64)? as usize;
                if k as u64 >= *n { return err("extractelement index") }
                let v = lanes(&Self::ov(st, a))[k].clone();
                Self::set(st, *d, v);
            }
            Inst::InsertElem { d, n, a, v, i } => {
                let iv = Self::ov(st, i);
                let k = self.conc(st, &iv, 64)? as usize;
                if k as u64 >= *n { return err("insertelement index") }
                let mut l = (*lanes(&Self::ov(st, a))).clone();
                l[k] = Self::ov(st, v);
                Self::set(st, *d, V::A(Rc::new(l)));
            }
            Inst::Shuffle { d, n, a, b, m } => {
                let (a, b) = (lanes(&Self::ov(st, a)), lanes(&Self::ov(st, b)));
                let m = lanes(&Self::ov(st, m));
                let n = *n as usize;
                let mut r = vec![];
                for k in m.iter() {
                    let k = k.conc().unwrap_or(0) as usize;
                    r.push(if k < n { a[k].clone() } else { b[k - n].clone() });
                }
                Self::set(st, *d, V::A(Rc::new(r)));
            }
            Inst::Alloca { d, size, n } => {
                let nv = Self::ov(st, n);
                let k = self.conc(st, &nv, 64)? as u64 * size;
                if k >= 1 << OFF_BITS { return err("alloca size") }
                let id = st.stack.len() as u64;
                st.stack.push(Rc::new(Obj::new(k as usize)));
                Self::set(st, *d, V::C(u128::from(addr(REGION_STACK, id))));
            }
            Inst::Br(b) => { Self::goto(st, *b) }
            Inst::CondBr(c, t, f) => {
                let b = match Self::ov(st, c) {
                    V::C(k) => k == 1,
                    V::S(e) => self.branch(st, e)?,
                    V::A(_) => return err("br"),
                };
                Self::goto(st, if b { *t } else { *f });
            }
            Inst::Switch { ty, v, def, cases } => {
                let x = Self::ov(st, v);
                let w = ty.bits();
                let tgt = match &x {
                    V::C(k) => cases.iter().find(|c| c.0 == *k).map_or(*def, |c| c.1),
                    _ => {
                        let e = ex(&x, w);
                        if let Some(&k) = st.known.get(&e) {
                            cases.iter().find(|c| c.0 == k).map_or(*def, |c| c.1)
                        } else {
                            // One decision per distinct target, in order of appearance.
                            let mut order: Vec<u32> = vec![];
                            for (_, t) in cases { if *t != *def && !order.contains(t) { order.push(*t) } }
                            let mut tgt = *def;
                            for t in order {
                                let mut any = cst(1, 0);
                                for (k, _) in cases.iter().filter(|c| c.1 == t) {
                                    any = bin(Op::Or, any, bin(Op::Eq, e, cst(w, *k)));
                                }
                                if self.branch(st, any)? { tgt = t; break }
                            }
                            tgt
                        }
                    }
                };
                Self::goto(st, tgt);
            }
            Inst::Ret(v) => {
                let v = v.as_ref().map(|v| Self::ov(st, v));
                let fr = st.frames.pop().unwrap();
                st.stack.truncate(fr.mark);
                if !st.frames.is_empty() {
                    if let (Some(d), Some(v)) = (fr.dst, v) {
                        let c = Rc::make_mut(st.frames.last_mut().unwrap());
                        c.regs[d as usize] = v;
                    }
                    match fr.next { Some(b) => Self::goto(st, b), None => Self::adv(st) }
                }
                return Ok(true);
            }
            Inst::Call { d, f, args, ret, next } => return self.call(st, *d, f, args, ret, *next),
            Inst::AtomicRmw { d, op, ty, p, v } => {
                let a = self.addr(st, p)?;
                let old = self.load(st, a, ty)?;
                let v = Self::ov(st, v);
                let w = ty.bits();
                let new = match op.as_str() {
                    "add" => vbin(Op::Add, w, &old, &v), "sub" => vbin(Op::Sub, w, &old, &v),
                    "and" => vbin(Op::And, w, &old, &v), "or" => vbin(Op::Or, w, &old, &v),
                    "xor" => vbin(Op::Xor, w, &old, &v), "xchg" => v,
                    "umax" => vite(w, &vbin(Op::Ult, w, &old, &v), &v, &old),
                    "umin" => vite(w, &vbin(Op::Ult, w, &old, &v), &old, &v),
                    _ => return err(format!("atomicrmw {op}")),
                };
                self.store(st, a, ty, &new)?;
                Self::set(st, *d, old);
            }
            Inst::CmpXchg { d, ty, p, c, n } => {
                let a = self.addr(st, p)?;
                let old = self.load(st, a, ty)?;
                let (c, n) = (Self::ov(st, c), Self::ov(st, n));
                let eq = vbin(Op::Eq, ty.bits(), &old, &c);
                let ok = match eq { V::C(k) => k == 1, V::S(e) => self.branch(st, e)?, V::A(_) => unreachable!() };
                if ok { self.store(st, a, ty, &n)? }
                Self::set(st, *d, V::A(Rc::new(vec![old, V::C(u128::from(ok))])));
            }
            Inst::Race => {
                if let Some(Race { f, data, at, n }) = st.race.clone() {
                    let c = vbin(Op::Eq, 64, &at, &V::C(u128::from(n)));
                    let now = match c { V::C(k) => k == 1, V::S(e) => self.branch(st, e)?, V::A(_) => unreachable!() };
                    st.race.as_mut().unwrap().n += 1;
                    if now {
                        st.race = None;
                        st.other = Some(st.frames.len());
                        return self.enter(st, f, vec![data], None, None);
                    }
                } else if st.other == Some(st.frames.len()) {
                    st.other = None;
                }
                Self::adv(st);
            }
            Inst::Nop => Self::adv(st),
            Inst::Unreachable => return Err(Stop::Bad("unreachable".into(), "unreachable code reached".into())),
            Inst::Unsupported(s) => return err(format!("unsupported: {s}")),
        }
        Ok(false)
    }

    fn call(&mut self, st: &mut State, d: Option<u32>, f: &Callee, args: &[(Ty, Opnd)], ret: &Ty, next: Option<u32>) -> R<bool> {
        let fid = match f {
            Callee::Fn(i) => *i,
            Callee::AsmNop => {
                if let Some(d) = d {
                    // `asm` with an empty body passes its operand through (black_box).
                    if *ret != Ty::Void { return err("inline asm with a result") }
                    let _ = d;
                }
                return self.done(st, d, None, next);
            }
            Callee::Ind(o) => {
                let v = Self::ov(st, o);
                let a = self.conc(st, &v, 64)? as u64;
                if a >> 56 != REGION_FN { return Err(Stop::Bad("memory".into(), format!("call of non-function {a:#x}"))) }
                (a >> OFF_BITS & 0xffff_ffff) as u32
            }
        };
        let b = self.bi[fid as usize];
        if b == Bi::None {
            let fr = st.frames.last().unwrap();
            let av = args.iter().map(|a| Self::o(fr, &a.1).clone()).collect();
            return self.enter(st, fid, av, d, next);
        }
        let tys: Vec<&Ty> = args.iter().map(|a| &a.0).collect();
        let av: Vec<V> = args.iter().map(|a| Self::ov(st, &a.1)).collect();
        let r = self.builtin(st, b, fid, &av, &tys, ret)?;
        self.done(st, d, r, next)
    }

    fn enter(&mut self, st: &mut State, fid: u32, av: Vec<V>, d: Option<u32>, next: Option<u32>) -> R<bool> {
        let f = self.m.funcs[fid as usize].clone();
        if f.decl { return err(format!("call of external function {}", f.name)) }
        self.used[fid as usize] = true;
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (p, a) in f.params.iter().zip(av) { regs[*p as usize] = a }
        if st.frames.len() >= self.sh.cfg.max_frames {
            return Err(Stop::Bad("stack".into(), format!("more than {} nested calls", self.sh.cfg.max_frames)));
        }
        let mark = st.stack.len();
        st.frames.push(Rc::new(Frame { f, bb: 0, ip: 0, regs, mark, dst: d, next }));
        self.max_frames = self.max_frames.max(st.frames.len());
        Ok(true)
    }

    fn done(&mut self, st: &mut State, d: Option<u32>, r: Option<V>, next: Option<u32>) -> R<bool> {
        if let Some(d) = d {
            let c = Rc::make_mut(st.frames.last_mut().unwrap());
            c.regs[d as usize] = r.unwrap_or(V::C(0));
        }
        match next { Some(b) => Self::goto(st, b), None => Self::adv(st) }
        Ok(false)
    }

    fn cstr(&self, st: &State, p: u64, n: u64) -> String {
        match self.obj(st, p, n) {
            Ok((o, off)) => String::from_utf8_lossy(&o.data[off..off + n as usize]).into_owned(),
            Err(_) => String::new(),
        }
    }

    fn panic_place(&self, st: &State, av: &[V]) -> String {
        // The last argument of the panic entry points is a `&Location`.
        for a in av.iter().rev() {
            if let V::C(a) = a {
                let a = *a as u64;
                if a >> 56 == REGION_GLOBAL {
                    let g = |o: u64, t: &Ty| self.load(st, a + o, t).ok().and_then(|v| v.conc());
                    if let (Some(p), Some(n), Some(l)) = (g(0, &Ty::Ptr), g(8, &Ty::Int(64)), g(16, &Ty::Int(32))) {
                        if n < 400 {
                            let s = self.cstr(st, p as u64, n as u64);
                            if s.contains(".rs") { return format!("{}:{l}", s.trim_end_matches('\0')) }
                        }
                    }
                }
            }
        }
        String::new()
    }

    fn builtin(&mut self, st: &mut State, b: Bi, fid: u32, av: &[V], tys: &[&Ty], ret: &Ty) -> R<Option<V>> {
        let t0 = tys.first().copied().cloned().unwrap_or(Ty::Void);
        let w = lane_bits(&t0);
        let pair = |a: V, b: V| Ok(Some(V::A(Rc::new(vec![a, b]))));
        match b {
            Bi::None => unreachable!(),
            Bi::Nop => Ok(None),
            Bi::Ident => Ok(Some(av[0].clone())),
            Bi::Assume => match &av[0] {
                V::C(0) => Err(Stop::Bad("ub".into(), "compiler assumption is false".into())),
                V::S(e) => {
                    // An assumption of the compiler is something to verify.
                    let e = *e;
                    if !self.branch(st, e)? { return Err(Stop::Bad("ub".into(), "compiler assumption is false".into())) }
                    Ok(None)
                }
                _ => Ok(None),
            },
            Bi::MemCpy | Bi::MemMove => {
                let n = self.conc(st, &av[2], 64)? as u64;
                let d = self.conc(st, &av[0], 64)? as u64;
                let s = self.conc(st, &av[1], 64)? as u64;
                self.copy(st, d, s, n)?;
                Ok(Some(av[0].clone()))
            }
            Bi::MemSet => {
                let n = self.conc(st, &av[2], 64)? as u64;
                let d = self.conc(st, &av[0], 64)? as u64;
                let w = tys[1].bits();
                let v = vext(&av[1], w, 0, 8);
                if n > 0 {
                    let (o, off) = self.obj_mut(st, d, n)?;
                    for i in 0..n as usize { Self::write_int(o, off + i, 1, &v, 8) }
                }
                Ok(Some(av[0].clone()))
            }
            Bi::Umin => Ok(Some(map2(&t0, &av[0], &av[1], |w, a, b| vite(w, &vbin(Op::Ult, w, a, b), a, b)))),
            Bi::Umax => Ok(Some(map2(&t0, &av[0], &av[1], |w, a, b| vite(w, &vbin(Op::Ult, w, a, b), b, a)))),
            Bi::Smin => Ok(Some(map2(&t0, &av[0], &av[1], |w, a, b| vite(w, &vbin(Op::Slt, w, a, b), a, b)))),
            Bi::Smax => Ok(Some(map2(&t0, &av[0], &av[1], |w, a, b| vite(w, &vbin(Op::Slt, w, a, b), b, a)))),
            Bi::Abs => Ok(Some(map1(&t0, &av[0], |w, a| vite(w, &vbin(Op::Slt, w, a, &V::C(0)), &vbin(Op::Sub, w, &V::C(0), a), a)))),
            Bi::UaddSat => Ok(Some(map2(&t0, &av[0], &av[1], |w, a, b| {
                let s = vbin(Op::Add, w, a, b);
                vite(w, &vbin(Op::Ult, w, &s, a), &V::C(mask(w)), &s)
            }))),
            Bi::UsubSat => Ok(Some(map2(&t0, &av[0], &av[1], |w, a, b| {
                vite(w, &vbin(Op::Ult, w, a, b), &V::C(0), &vbin(Op::Sub, w, a, b))
            }))),
            Bi::Uadd => { let s = vbin(Op::Add, w, &av[0], &av[1]); let o = vbin(Op::Ult, w, &s, &av[0]); pair(s, o) }
            Bi::Usub => { let s = vbin(Op::Sub, w, &av[0], &av[1]); let o = vbin(Op::Ult, w, &av[0], &av[1]); pair(s, o) }
            Bi::Umul | Bi::Sadd | Bi::Ssub | Bi::Smul => {
                if w > 64 { return err("wide checked arithmetic") }
                let sg = b != Bi::Umul;
                let x = |v: &V| if sg { vsext(v, w, 2 * w) } else { vzext(v, w, 2 * w) };
                let (p, q) = (x(&av[0]), x(&av[1]));
                let op = match b { Bi::Sadd => Op::Add, Bi::Ssub => Op::Sub, _ => Op::Mul };
                let full = vbin(op, 2 * w, &p, &q);
                let lo = vext(&full, 2 * w, 0, w);
                let back = if sg { vsext(&lo, w, 2 * w) } else { vzext(&lo, w, 2 * w) };
                let o = vnot(&vbin(Op::Eq, 2 * w, &full, &back));
                pair(lo, o)
            }
            Bi::Ctlz => Ok(Some(map1(&t0, &av[0], |w, a| {
                if let V::C(c) = a { return V::C(u128::from(c.leading_zeros() - (128 - w))) }
                let mut r = V::C(u128::from(w));
                for i in 0..w { r = vite(w, &vext(a, w, i, 1), &V::C(u128::from(w - 1 - i)), &r) }
                r
            }))),
            Bi::Cttz => Ok(Some(map1(&t0, &av[0], |w, a| {
                if let V::C(c) = a { return V::C(u128::from(if *c == 0 { w } else { c.trailing_zeros() })) }
                let mut r = V::C(u128::from(w));
                for i in (0..w).rev() { r = vite(w, &vext(a, w, i, 1), &V::C(u128::from(i)), &r) }
                r
            }))),
            Bi::Ctpop => Ok(Some(map1(&t0, &av[0], |w, a| {
                if let V::C(c) = a { return V::C(u128::from(c.count_ones())) }
                let mut r = V::C(0);
                for i in 0..w { r = vbin(Op::Add, w, &r, &vzext(&vext(a, w, i, 1), 1, w)) }
                r
            }))),
            Bi::Bswap => Ok(Some(map1(&t0, &av[0], |w, a| {
                let n = w / 8;
                let mut r = vext(a, w, 0, 8);
                for i in 1..n { r = vcat(&r, 8 * i, &vext(a, w, 8 * i, 8), 8) }
                r
            }))),
            Bi::BitRev => Ok(Some(map1(&t0, &av[0], |w, a| {
                let mut r = vext(a, w, 0, 1);
                for i in 1..w { r = vcat(&r, i, &vext(a, w, i, 1), 1) }
                r
            }))),
            Bi::Fshl | Bi::Fshr => {
                if w > 64 { return err("wide funnel shift") }
                let cat = vcat(&av[0], w, &av[1], w);
                let s = vbin(Op::URem, w, &av[2], &V::C(u128::from(w)));
                let s = vzext(&s, w, 2 * w);
                Ok(Some(if b == Bi::Fshl { vext(&vbin(Op::Shl, 2 * w, &cat, &s), 2 * w, w, w) }
                        else { vext(&vbin(Op::LShr, 2 * w, &cat, &s), 2 * w, 0, w) }))
            }
            Bi::Ucmp | Bi::Scmp => {
                let op = if b == Bi::Ucmp { Op::Ult } else { Op::Slt };
                let rw = ret.bits();
                let lt = vbin(op, w, &av[0], &av[1]);
                let gt = vbin(op, w, &av[1], &av[0]);
                Ok(Some(vite(rw, &lt, &V::C(mask(rw)), &vite(rw, &gt, &V::C(1), &V::C(0)))))
            }
            Bi::IsConst => Ok(Some(V::C(0))),
            Bi::TlsAddr => Ok(Some(av[0].clone())),
            Bi::VecRed => {
                let n = self.m.funcs[fid as usize].name.clone();
                let op = if n.contains(".add.") { Op::Add } else if n.contains(".or.") { Op::Or }
                    else if n.contains(".and.") { Op::And } else if n.contains(".xor.") { Op::Xor }
                    else if n.contains(".mul.") { Op::Mul } else { return err(n) };
                let l = lanes(&av[0]);
                let mut r = l[0].clone();
                for x in &l[1..] { r = vbin(op, w, &r, x) }
                Ok(Some(r))
            }
            Bi::Trap => Err(Stop::Bad("abort".into(), "process aborts".into())),
            Bi::Panic => {
                let p = self.panic_place(st, av);
                Err(Stop::Bad("panic".into(), format!("panic at {p}")))
            }
            Bi::Bcmp | Bi::Memcmp => {
                let n = self.conc(st, &av[2], 64)? as u64;
                let p = self.conc(st, &av[0], 64)? as u64;
                let q = self.conc(st, &av[1], 64)? as u64;
                let mut r = V::C(0);
                for i in (0..n).rev() {
                    let a = self.load(st, p + i, &Ty::Int(8))?;
                    let c = self.load(st, q + i, &Ty::Int(8))?;
                    let eq = vbin(Op::Eq, 8, &a, &c);
                    let df = vbin(Op::Sub, 32, &vzext(&a, 8, 32), &vzext(&c, 8, 32));
                    r = vite(32, &eq, &r, &df);
                }
                Ok(Some(r))
            }
            Bi::Strlen => {
                let p = self.conc(st, &av[0], 64)? as u64;
                let mut n = 0;
                loop {
                    match self.load(st, p + n, &Ty::Int(8))? { V::C(0) => break, V::C(_) => n += 1, _ => return err("strlen") }
                }
                Ok(Some(V::C(u128::from(n))))
            }
            Bi::Malloc => {
                let n = self.conc(st, &av[0], 64)? as u64;
                Ok(Some(V::C(u128::from(Self::malloc(st, n)?))))
            }
            Bi::Calloc => {
                let n = self.conc(st, &av[0], 64)? as u64;
                let m = self.conc(st, &av[1], 64)? as u64;
                Ok(Some(V::C(u128::from(Self::malloc(st, n * m)?))))
            }
            Bi::Memalign => {
                let n = self.conc(st, &av[2], 64)? as u64;
                let p = self.conc(st, &av[0], 64)? as u64;
                let a = Self::malloc(st, n)?;
                self.store(st, p, &Ty::Ptr, &V::C(u128::from(a)))?;
                Ok(Some(V::C(0)))
            }
            Bi::Realloc => {
                let n = self.conc(st, &av[1], 64)? as u64;
                let p = self.conc(st, &av[0], 64)? as u64;
                let a = Self::malloc(st, n)?;
                if p != 0 {
                    let old = self.obj(st, p, 0)?.0.data.len() as u64;
                    self.copy(st, a, p, old.min(n))?;
                    self.free(st, p)?;
                }
                Ok(Some(V::C(u128::from(a))))
            }
            Bi::Free => {
                let p = self.conc(st, &av[0], 64)? as u64;
                self.free(st, p)?;
                Ok(None)
            }
            Bi::RandKeys => pair(V::C(0x0706050403020100), V::C(0x0f0e0d0c0b0a0908)),
            Bi::AtExit => Ok(Some(V::C(0))),
            Bi::SymBytes => {
                let p = self.conc(st, &av[0], 64)? as u64;
                let n = self.conc(st, &av[1], 64)? as u64;
                for i in 0..n {
                    if st.nvars >= MAX_VARS { return err("too many symbolic bytes") }
                    let e = var(st.nvars as u32);
                    st.nvars += 1;
                    let (o, off) = self.obj_mut(st, p + i, 1)?;
                    Self::write_int(o, off, 1, &V::S(e), 8);
                }
                Ok(None)
            }
            Bi::SymAssume => match &av[0] {
                V::C(k) => if *k & 1 == 1 { Ok(None) } else { Err(Stop::Dead) },
                V::S(e) => {
                    let e = *e;
                    if let Some(&k) = st.known.get(&e) { return if k == 1 { Ok(None) } else { Err(Stop::Dead) } }
                    if eval(e, &st.model) == 1 { Self::push_pc(st, e); return Ok(None) }
                    match self.solver.check(&st.pc, e).map_err(Stop::Err)? {
                        None => Err(Stop::Dead),
                        Some(p) => {
                            st.model = self.with(st, &p);
                            Self::push_pc(st, e);
                            Ok(None)
                        }
                    }
                }
                V::A(_) => err("assume"),
            },
            Bi::SymCheck => {
                let id = av.get(1).and_then(V::conc).unwrap_or(0);
                self.checks += 1;
                match &av[0] {
                    V::C(k) => if *k & 1 == 1 { Ok(None) } else { Err(Stop::Bad(format!("check-{id}"), "assertion is false".into())) },
                    V::S(e) => {
                        let e = *e;
                        if let Some(&k) = st.known.get(&e) {
                            return if k == 1 { Ok(None) } else { Err(Stop::Bad(format!("check-{id}"), "assertion is false".into())) }
                        }
                        // Already decided by the thread that split this item off.
                        if self.scripted(st).is_some() { Self::push_pc(st, e); return Ok(None) }
                        // The solver decides whether any input on this path
                        // makes the assertion false.
                        match self.solver.check(&st.pc, not(e)).map_err(Stop::Err)? {
                            None => { st.known.insert(e, 1); Ok(None) }
                            Some(p) => {
                                let m = self.with(st, &p);
                                self.violation(st, format!("check-{id}"), "assertion is false".into(), &m);
                                match self.solver.check(&st.pc, e).map_err(Stop::Err)? {
                                    None => Err(Stop::Dead),
                                    Some(p) => { st.model = self.with(st, &p); Self::push_pc(st, e); Ok(None) }
                                }
                            }
                        }
                    }
                    V::A(_) => err("check"),
                }
            }
            Bi::SymCover => {
                let id = av[0].conc().unwrap_or(0) as u64;
                if !st.covers.contains(&id) { st.covers.push(id) }
                Ok(None)
            }
            Bi::SymObserve => { st.obs.push((av[0].clone(), 64)); Ok(None) }
            Bi::SymConc => { let k = self.conc(st, &av[0], 64)?; Ok(Some(V::C(k))) }
            Bi::SymDepth => Ok(Some(V::C(st.frames.len() as u128))),
            Bi::RaceBegin => {
                let a = self.conc(st, &av[0], 64)? as u64;
                if a >> 56 != REGION_FN { return err("not a function") }
                st.race = Some(Race { f: (a >> OFF_BITS & 0xffff_ffff) as u32, data: av[1].clone(), at: av[2].clone(), n: 0 });
                Ok(None)
            }
            // The other thread has to wait for this one: it will have acted later.
            Bi::Spin => if st.other.is_some() { Err(Stop::Dead) } else { Ok(None) },
            Bi::RaceEnd => Ok(Some(V::C(u128::from(st.race.take().is_none())))),
            Bi::SymHeap => Ok(Some(V::C(st.heap.iter().filter(|o| !o.freed).count() as u128))),
        }
    }
}

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
