//! Symbolic execution of the compiled IR.
use crate::expr::{self, *};
use crate::ext;
use crate::ir::*;
use crate::mem::Mem;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

#[derive(Clone, Copy)]
pub struct Frame { pub f: u32, pub pc: u32, pub base: u32, pub dst: R, pub inv: Option<(u32, u32)>, pub stack: u32 }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Status { Run, Futex { addr: u64, timed: bool, woken: bool }, Join(usize), Done }

#[derive(Clone)]
pub struct Thread {
    pub regs: Vec<V>, pub frames: Vec<Frame>, pub status: Status, pub exn: u64, pub dtors: Vec<(u64, u64)>, pub keys: BTreeMap<u64, u64>,
    pub exiting: bool, pub futex_ret: Option<i64>,
    /// May this thread be preempted?
    pub region: bool,
}
impl Thread {
    pub fn new() -> Thread { Thread { regs: vec![], frames: vec![], status: Status::Run, exn: 0, dtors: vec![], keys: BTreeMap::new(), exiting: false, futex_ret: None, region: false } }
}

#[derive(Clone)]
pub struct Var { pub w: u32, pub label: u32 }

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub pc: Vec<E>,
    pub known: BTreeMap<u32, u128>,
    pub vars: Vec<Var>,
    pub model: Vec<u64>,
    pub logs: Vec<(u32, V)>,
    pub covers: BTreeSet<u32>,
    pub instrs: u64,
    pub forks: u32,
    pub preempt: u32,
    pub pend: Option<E>,
    pub forced: bool,
    pub tls: BTreeMap<(u32, u64), u64>,
    pub rand: u64,
    pub clock: u64,
    pub nkeys: u64,
    pub stderr: Vec<u8>,
    pub errno: u64,
    pub key_dtors: BTreeMap<u64, u64>,
    pub env: BTreeMap<Vec<u8>, u64>,
}

pub enum Stop { Done, Killed, Fail(String, String), Unsupported(String), Budget }
pub type X<T> = Result<T, Stop>;

pub struct Violation { pub kind: String, pub label: String, pub values: Vec<u64>, pub labels: Vec<String>, pub logs: Vec<(String, u64)>, pub stack: Vec<String>, pub stderr: String, pub threads: usize }
pub struct Sample { pub values: Vec<u64>, pub labels: Vec<String>, pub logs: Vec<(String, u64)>, pub covers: Vec<String>, pub threads: usize }

pub struct Config { pub max_secs: f64, pub max_instrs: u64, pub max_violations: usize, pub samples: usize, pub preempt: u32, pub max_paths: u64, pub skip: Vec<String> }

pub struct Queue { pub stack: Vec<State>, pub active: usize }
pub struct Engine {
    pub m: Module,
    pub cfg: Config,
    pub sh: Arc<Shared>,
    pub q: Mutex<Queue>,
    pub cv: Condvar,
    pub start: Instant,
    pub timed_out: AtomicBool,
    pub paths: AtomicU64,
    pub killed: AtomicU64,
    pub states: AtomicU64,
    pub instrs: AtomicU64,
    pub max_path_instrs: AtomicU64,
    pub max_vars: AtomicUsize,
    pub checks: Mutex<BTreeMap<String, (u64, u64)>>, // label -> (concrete, symbolic)
    pub covers: Mutex<BTreeMap<String, u64>>,
    pub viol: Mutex<Vec<Violation>>,
    pub nviol: AtomicU64,
    pub unsupported: Mutex<BTreeMap<String, u64>>,
    pub sampled: Mutex<BTreeMap<String, u64>>,
    pub budget: AtomicU64,
    pub budget_sample: Mutex<Option<Violation>>,
    pub unknown: AtomicU64,
    pub samples: Mutex<Vec<(u64, Sample)>>,
    pub labels: Mutex<(Vec<String>, HashMap<String, u32>)>,
    pub executed: Mutex<Vec<bool>>,
    pub peak_queue: AtomicUsize,
}

impl Engine {
    pub fn label(&self, s: &str) -> u32 {
        let mut l = self.labels.lock().unwrap();
        if let Some(i) = l.1.get(s) { return *i; }
        let i = l.0.len() as u32;
        l.0.push(s.to_string());
        l.1.insert(s.to_string(), i);
        i
    }
    pub fn label_name(&self, i: u32) -> String { self.labels.lock().unwrap().0[i as usize].clone() }

    pub fn worker(self: &Arc<Self>) {
        let mut w = Worker { eng: self.clone(), m: unsafe { &*(&self.m as *const Module) }, solver: Solver::new(self.sh.clone()), executed: vec![false; self.m.fns.len()], checks: BTreeMap::new(), covers: BTreeMap::new() };
        loop {
            let st = {
                let mut q = self.q.lock().unwrap();
                loop {
                    if self.timed_out.load(Relaxed) { q.stack.clear(); }
                    if let Some(s) = q.stack.pop() { q.active += 1; break Some(s); }
                    if q.active == 0 { self.cv.notify_all(); break None; }
                    q = self.cv.wait(q).unwrap();
                }
            };
            let Some(st) = st else { break };
            w.run_path(st);
            let mut q = self.q.lock().unwrap();
            q.active -= 1;
            if q.active == 0 && q.stack.is_empty() { self.cv.notify_all(); }
        }
        let mut ex = self.executed.lock().unwrap();
        for (i, b) in w.executed.iter().enumerate() { if *b { ex[i] = true; } }
        let mut c = self.checks.lock().unwrap();
        for (k, v) in w.checks { let e = c.entry(self.label_name(k)).or_default(); e.0 += v.0; e.1 += v.1; }
        let mut c = self.covers.lock().unwrap();
        for (k, v) in w.covers { *c.entry(self.label_name(k)).or_default() += v; }
    }
}

pub struct Worker { pub eng: Arc<Engine>, pub m: &'static Module, pub solver: Solver, pub executed: Vec<bool>, pub checks: BTreeMap<u32, (u64, u64)>, pub covers: BTreeMap<u32, u64> }

fn pred_fold(p: Pred, w: u32, a: u128, b: u128) -> bool {
    match p {
        Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ult => a < b, Pred::Ule => a <= b, Pred::Ugt => a > b, Pred::Uge => a >= b,
        Pred::Slt => sext(a, w) < sext(b, w), Pred::Sle => sext(a, w) <= sext(b, w), Pred::Sgt => sext(a, w) > sext(b, w), Pred::Sge => sext(a, w) >= sext(b, w),
    }
}
fn icmp(p: Pred, w: u32, a: &V, b: &V) -> V {
    if let (V::I(x), V::I(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let r = match p {
            Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y,
            _ => pred_fold(p, w, x as u128, y as u128),
        };
        return V::I(r as u64);
    }
    if let (V::A(x), V::A(y)) = (a, b) { return V::A(Arc::new(x.iter().zip(y.iter()).map(|(x, y)| icmp(p, w, x, y)).collect())); }
    if let (Some(x), Some(y)) = (a.con(), b.con()) { return V::I(pred_fold(p, w, x, y) as u64); }
    let (x, y) = (a.to_e(w), b.to_e(w));
    V::of(match p {
        Pred::Eq => bin(Op::Eq, &x, &y), Pred::Ne => not1(&bin(Op::Eq, &x, &y)),
        Pred::Ult => bin(Op::Ult, &x, &y), Pred::Ule => bin(Op::Ule, &x, &y), Pred::Ugt => bin(Op::Ult, &y, &x), Pred::Uge => bin(Op::Ule, &y, &x),
        Pred::Slt => bin(Op::Slt, &x, &y), Pred::Sle => bin(Op::Sle, &x, &y), Pred::Sgt => bin(Op::Slt, &y, &x), Pred::Sge => bin(Op::Sle, &y, &x),
    })
}
// Integers of 129 to 256 bits (multiplication of 128-bit integers): constants only, kept as [low, high].
fn wide(v: &V) -> Option<(u128, u128)> { match v { V::A(x) => Some((x[0].con()?, x[1].con()?)), v => Some((v.con()?, 0)) } }
fn of_wide((l, h): (u128, u128), w: u32) -> V { V::A(Arc::new(vec![V::from128(l, 128), V::from128(h & mask(w - 128), 128)])) }
fn wide_bin(op: Op, w: u32, a: &V, b: &V) -> X<V> {
    let no = || Stop::Unsupported(format!("{op:?} on {w}-bit integers"));
    let (Some((al, ah)), Some((bl, bh))) = (wide(a), wide(b)) else { return Err(no()) };
    if w > 256 { return Err(no()); }
    Ok(of_wide(match op {
        Op::And => (al & bl, ah & bh),
        Op::Or => (al | bl, ah | bh),
        Op::Xor => (al ^ bl, ah ^ bh),
        Op::Add => { let (l, c) = al.overflowing_add(bl); (l, ah.wrapping_add(bh).wrapping_add(c as u128)) }
        Op::Sub => { let (l, c) = al.overflowing_sub(bl); (l, ah.wrapping_sub(bh).wrapping_sub(c as u128)) }
        Op::Mul => {
            let m = u64::MAX as u128;
            let (a0, a1, b0, b1) = (al & m, al >> 64, bl & m, bl >> 64);
            let (p00, p01, p10, p11) = (a0 * b0, a0 * b1, a1 * b0, a1 * b1);
            let mid = (p00 >> 64) + (p01 & m) + (p10 & m);
            let (l, h) = ((p00 & m) | (mid << 64), p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64));
            (l, h.wrapping_add(al.wrapping_mul(bh)).wrapping_add(ah.wrapping_mul(bl)))
        }
        Op::LShr if bh == 0 && bl < w as u128 => { let k = bl as u32; if k == 0 { (al, ah) } else if k >= 128 { (ah >> (k - 128), 0) } else { ((al >> k) | (ah << (128 - k)), ah >> k) } }
        Op::Shl if bh == 0 && bl < w as u128 => { let k = bl as u32; if k == 0 { (al, ah) } else if k >= 128 { (0, al << (k - 128)) } else { (al << k, (ah << k) | (al >> (128 - k))) } }
        _ => return Err(no()),
    }, w))
}
fn wide_cast(k: Cast, fw: u32, tw: u32, a: &V) -> X<V> {
    let no = || Stop::Unsupported(format!("a cast of {fw}-bit to {tw}-bit integers"));
    let Some((l, h)) = wide(a) else { return Err(no()) };
    match k {
        Cast::ZExt if tw <= 256 => Ok(of_wide((l, h), tw)),
        Cast::Trunc if tw <= 128 => Ok(V::from128(l & mask(tw), tw)),
        Cast::Trunc if tw <= 256 => Ok(of_wide((l, h), tw)),
        _ => Err(no()),
    }
}
pub fn vbin(op: Op, w: u32, a: &V, b: &V) -> V {
    if let (V::I(x), V::I(y)) = (a, b) {
        if w <= 64 {
            let m = if w == 64 { !0 } else { (1u64 << w) - 1 };
            let (x, y) = (*x, *y);
            let r = match op {
                Op::Add => x.wrapping_add(y), Op::Sub => x.wrapping_sub(y), Op::Mul => x.wrapping_mul(y), Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
                Op::Shl => if y >= w as u64 { 0 } else { x << y }, Op::LShr => if y >= w as u64 { 0 } else { x >> y },
                _ => fold(op, w, x as u128, y as u128) as u64,
            };
            return V::I(r & m);
        }
    }
    if let (V::A(x), V::A(y)) = (a, b) { return V::A(Arc::new(x.iter().zip(y.iter()).map(|(x, y)| vbin(op, w, x, y)).collect())); }
    if let (Some(x), Some(y)) = (a.con(), b.con()) { return V::from128(fold(op, w, x, y), w); }
    V::of(bin(op, &a.to_e(w), &b.to_e(w)))
}
fn vcast(k: Cast, fw: u32, tw: u32, a: &V) -> X<V> {
    Ok(match a {
        V::A(x) => { let mut v = vec![]; for y in x.iter() { v.push(vcast(k, fw, tw, y)?); } V::A(Arc::new(v)) }
        V::S(e) => match k {
            Cast::Trunc => V::of(extract(e, 0, tw)),
            Cast::ZExt => V::of(zext(e, tw)),
            Cast::SExt => V::of(sext_e(e, tw)),
            Cast::Bit => a.clone(),
            _ => return Err(Stop::Unsupported("symbolic floating point".into())),
        },
        _ => {
            let c = a.con().unwrap();
            let f = |c: u128, w: u32| if w == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) };
            let g = |x: f64, w: u32| if w == 32 { V::I((x as f32).to_bits() as u64) } else { V::I(x.to_bits()) };
            match k {
                Cast::Trunc => V::from128(c & mask(tw), tw),
                Cast::ZExt | Cast::Bit => V::from128(c, tw),
                Cast::SExt => V::from128(sext(c, fw) as u128 & mask(tw), tw),
                Cast::FpExt | Cast::FpTrunc => g(f(c, fw), tw),
                Cast::UiToFp => if tw == 32 { V::I((c as f32).to_bits() as u64) } else { V::I((c as f64).to_bits()) },
                Cast::SiToFp => g(sext(c, fw) as f64, tw),
                Cast::FpToUi => V::from128((f(c, fw) as u128) & mask(tw), tw),
                Cast::FpToSi => V::from128((f(c, fw) as i128 as u128) & mask(tw), tw),
            }
        }
    })
}
pub fn to_bits(v: &V, t: &Ty) -> V {
    match (v, t) {
        (V::A(x), Ty::Vec(_, e)) => {
            let w = e.bits();
            if x.iter().all(|y| y.con().is_some()) && x.len() as u32 * w <= 128 {
                let mut r = 0u128;
                for (i, y) in x.iter().enumerate() { r |= y.con().unwrap() << (i as u32 * w); }
                return V::from128(r, x.len() as u32 * w);
            }
            let mut acc = x[0].to_e(w);
            for y in &x[1..] { acc = concat(&y.to_e(w), &acc); }
            V::of(acc)
        }
        _ => v.clone(),
    }
}
pub fn from_bits(v: &V, t: &Ty) -> V {
    match t {
        Ty::Vec(n, e) => {
            let w = e.bits();
            V::A(Arc::new((0..*n).map(|i| match v.con() { Some(c) => V::from128((c >> (i * w)) & mask(w), w), None => V::of(extract(&v.to_e(n * w), i * w, w)) }).collect()))
        }
        _ => v.clone(),
    }
}

/// Replace variables by their values in the model, everywhere.
fn pin(st: &mut State, vars: &[u32]) {
    let pins: HashMap<u32, u64> = vars.iter().map(|v| (*v, st.model[*v as usize])).collect();
    let mut supp = [0u64; 2];
    for v in vars { let b = (*v % 128) as usize; supp[b / 64] |= 1 << (b % 64); }
    let get = |v: u32| pins.get(&v).copied();
    let mut memo = HashMap::new();
    let touches = |e: &E| e.supp[0] & supp[0] | e.supp[1] & supp[1] != 0;
    let mut f = |e: &E| subst(e, &supp, &get, &mut memo);
    let pc: Vec<E> = st.pc.iter().map(|c| f(c)).filter(|c| c.c() != Some(1)).collect();
    fn value(v: &V, f: &mut dyn FnMut(&E) -> E) -> V {
        match v { V::S(e) => V::of(f(e)), V::A(x) => V::A(Arc::new(x.iter().map(|v| value(v, f)).collect())), v => v.clone() }
    }
    for t in &mut st.threads { for r in &mut t.regs { if matches!(r, V::S(_) | V::A(_)) { *r = value(r, &mut f); } } }
    for l in &mut st.logs { l.1 = value(&l.1, &mut f); }
    st.pend = st.pend.as_ref().map(|e| f(e));
    st.mem.rewrite(&touches, &mut f);
    st.pc = pc;
    let widths: Vec<u32> = st.vars.iter().map(|v| v.w).collect();
    for &v in vars { let w = widths[v as usize]; st.pc.push(bin(Op::Eq, &var(v, w), &cst(pins[&v] as u128, w))); }
}
/// The values in the file named by VH_FOLLOW.
fn follow() -> Option<&'static Vec<u64>> {
    static F: std::sync::OnceLock<Option<Vec<u64>>> = std::sync::OnceLock::new();
    F.get_or_init(|| std::env::var("VH_FOLLOW").ok().map(|p| std::fs::read_to_string(p).unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect())).as_ref()
}
/// Add a constraint; a variable it leaves only one value for is replaced by that value.
pub fn assume(st: &mut State, c: E) {
    let f = fixes(&c);
    st.pc.push(c);
    let Some((v, m, _)) = f else { return };
    let w = st.vars[v as usize].w;
    let k = st.known.entry(v).or_insert(0);
    *k |= m;
    if *k == mask(w) { st.known.remove(&v); pin(st, &[v]); }
}

impl Worker {
    pub fn fail<T>(&self, kind: &str, label: impl Into<String>) -> X<T> { Err(Stop::Fail(kind.into(), label.into())) }
    pub fn me<T>(&self, r: Result<T, String>) -> X<T> { r.map_err(|e| Stop::Fail("memory".into(), e)) }

    fn run_path(&mut self, mut st: State) {
        let i0 = st.instrs;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.exec(&mut st)));
        let stop = match r { Ok(s) => s, Err(p) => Stop::Unsupported(format!("engine panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) };
        let eng = self.eng.clone();
        eng.instrs.fetch_add(st.instrs - i0, Relaxed);
        eng.max_path_instrs.fetch_max(st.instrs, Relaxed);
        eng.max_vars.fetch_max(st.vars.len(), Relaxed);
        for c in &st.covers { *self.covers.entry(*c).or_default() += 1; }
        match stop {
            Stop::Done => {
                let n = eng.paths.fetch_add(1, Relaxed);
                // deterministic reservoir of sample traces
                let h = st.pc.iter().fold(n.wrapping_mul(0), |h, e| h.wrapping_mul(31).wrapping_add(e.h as u64)).wrapping_mul(0x9e3779b97f4a7c15);
                let mut s = eng.samples.lock().unwrap();
                let cap = eng.cfg.samples;
                if cap > 0 && (s.len() < cap || s.iter().any(|x| x.0 > h)) {
                    let (values, labels, logs) = self.trace(&st);
                    let covers = st.covers.iter().map(|c| eng.label_name(*c)).collect();
                    s.push((h, Sample { values, labels, logs, covers, threads: st.threads.len() }));
                    s.sort_by_key(|x| x.0);
                    s.truncate(cap);
                }
                drop(s);
                if n + 1 >= eng.cfg.max_paths { eng.timed_out.store(true, Relaxed); }
            }
            Stop::Killed => { eng.killed.fetch_add(1, Relaxed); }
            Stop::Fail(kind, label) => {
                eng.paths.fetch_add(1, Relaxed);
                let v = self.violation(&st, kind, label);
                self.report(v);
            }
            Stop::Unsupported(s) => {
                let top = self.stack(&st);
                let mut u = eng.unsupported.lock().unwrap();
                *u.entry(format!("{s} in {}", top.first().cloned().unwrap_or_default())).or_default() += 1;
                if u.len() == 1 { eprintln!("engine: unsupported: {s}\n  {}", top.join("\n  ")); }
            }
            Stop::Budget => {
                if eng.timed_out.load(Relaxed) && st.instrs < eng.cfg.max_instrs { return; }
                eng.budget.fetch_add(1, Relaxed);
                let v = self.violation(&st, "budget".into(), "instruction budget exhausted (no progress)".into());
                let mut b = eng.budget_sample.lock().unwrap();
                if b.is_none() { *b = Some(v); }
            }
        }
    }
    pub fn report(&self, v: Violation) {
        let eng = &self.eng;
        if v.kind == "check" && eng.cfg.skip.iter().any(|k| v.label.contains(k.as_str())) { return; }
        eng.nviol.fetch_add(1, Relaxed);
        let mut vs = eng.viol.lock().unwrap();
        if vs.len() < eng.cfg.max_violations && vs.iter().filter(|x| x.kind == v.kind && x.label == v.label).count() < 3 { vs.push(v); }
        if eng.nviol.load(Relaxed) >= 400 { eng.timed_out.store(true, Relaxed); }
    }
    fn trace(&self, st: &State) -> (Vec<u64>, Vec<String>, Vec<(String, u64)>) {
        let m = |v: u32| st.model[v as usize];
        let logs = st.logs.iter().map(|(l, v)| (self.eng.label_name(*l), match v { V::S(e) => eval(e, &m) as u64, v => v.con().unwrap_or(0) as u64 })).collect();
        (st.model.clone(), st.vars.iter().map(|v| self.eng.label_name(v.label)).collect(), logs)
    }
    fn stack(&self, st: &State) -> Vec<String> {
        st.threads[st.cur].frames.iter().rev().map(|f| self.m.fns[f.f as usize].demangled.to_string()).collect()
    }
    pub fn violation(&self, st: &State, kind: String, label: String) -> Violation {
        let (values, labels, logs) = self.trace(st);
        Violation { kind, label, values, labels, logs, stack: self.stack(st), stderr: String::from_utf8_lossy(&st.stderr).into_owned(), threads: st.threads.len() }
    }

    // ---------------------------------------------------------------- symbolic decisions

    pub fn push_state(&mut self, st: State) {
        let eng = &self.eng;
        eng.states.fetch_add(1, Relaxed);
        let mut q = eng.q.lock().unwrap();
        q.stack.push(st);
        eng.peak_queue.fetch_max(q.stack.len(), Relaxed);
        drop(q);
        eng.cv.notify_one();
    }
    fn implied(&self, st: &State, e: &E) -> bool { e.c() == Some(1) || st.pc.iter().any(|c| same(c, e)) }
    /// Is `goal` possible here? Leaves an updated model.
    pub fn possible(&mut self, st: &State, goal: &E) -> Option<Vec<u64>> {
        if goal.c() == Some(0) { return None; }
        if self.implied(st, &not1(goal)) { return None; }
        match self.solver.check(&st.pc, goal) {
            Ans::Unsat => None,
            Ans::Sat(m) => { let mut md = st.model.clone(); for (i, v) in m { md[i as usize] = v; } Some(md) }
            Ans::Unknown => { self.eng.unknown.fetch_add(1, Relaxed); None }
        }
    }
    /// Fork off the part of the state space where `stay` does not hold (re-executing the current instruction there); assume `stay` here.
    pub fn split(&mut self, st: &mut State, stay: &E) {
        if self.implied(st, stay) { return; }
        let other = not1(stay);
        if let Some(md) = self.possible(st, &other) {
            let mut o = st.clone();
            o.model = md;
            assume(&mut o, other);
            o.forks += 1;
            st.forks += 1;
            self.push_state(o);
            assume(st, stay.clone());
        } else if fixes(stay).is_some() { assume(st, stay.clone()); }
    }
    pub fn mval(&self, st: &State, e: &E) -> u128 { eval(e, &|v| st.model[v as usize]) }
    pub fn decide(&mut self, st: &mut State, c: &E) -> bool {
        let b = self.mval(st, c) == 1;
        let stay = if b { c.clone() } else { not1(c) };
        self.split(st, &stay);
        b
    }
    pub fn concretize(&mut self, st: &mut State, v: &V) -> X<u64> {
        match v {
            V::I(x) => Ok(*x),
            V::W(x) => Ok(**x as u64),
            V::A(_) => Err(Stop::Unsupported("aggregate used as a scalar".into())),
            V::S(e) => {
                let x = self.mval(st, e);
                let stay = bin(Op::Eq, e, &cst(x, e.w));
                self.split(st, &stay);
                Ok(x as u64)
            }
        }
    }
    /// Continue with one value only (arithmetic on symbolic floating-point numbers): reported as a sample, not as all values.
    pub fn sample(&mut self, st: &mut State, v: &V, what: &str) -> V {
        let V::S(e) = v else { return v.clone() };
        let x = self.mval(st, e);
        let mut vars = vec![];
        vars_of(e, &mut vars, &mut Default::default());
        pin(st, &vars);
        let top = self.stack(st);
        *self.eng.sampled.lock().unwrap().entry(format!("{what} in {}", top.first().cloned().unwrap_or_default())).or_default() += 1;
        V::from128(x, e.w)
    }
    pub fn new_var(&mut self, st: &mut State, w: u32, label: &str) -> E {
        let i = st.vars.len() as u32;
        st.vars.push(Var { w, label: self.eng.label(label) });
        st.model.push(0);
        let v = var(i, w);
        if let Some(f) = follow() {
            // debugging: execute only the path with these values
            let x = f.get(i as usize).copied().unwrap_or(0);
            *st.model.last_mut().unwrap() = x;
            st.pc.push(bin(Op::Eq, &v, &cst(x as u128, w)));
            eprintln!("{i} {label} = {x} in thread {} {:?}", st.cur, &self.stack(st).iter().take(6).collect::<Vec<_>>());
        }
        v
    }
    /// A symbolic value in 0..n.
    pub fn new_choice(&mut self, st: &mut State, n: u64, label: &str) -> E {
        let w = (64 - (n - 1).leading_zeros()).max(1);
        let v = self.new_var(st, w, label);
        if !n.is_power_of_two() { st.pc.push(bin(Op::Ult, &v, &cst(n as u128, w))); }
        v
    }

    // ---------------------------------------------------------------- calls

    pub fn enter(&mut self, st: &mut State, fid: u32, args: &[V], dst: R, inv: Option<(u32, u32)>) -> X<()> {
        let f = self.m.func(fid).unwrap();
        self.executed[fid as usize] = true;
        // the tables that decide how a character outside ASCII is shown in a message: one character per path
        let mut sampled = vec![];
        let args = if f.sample && args.iter().any(|a| matches!(a, V::S(_))) { for a in args { sampled.push(self.sample(st, a, f.demangled)); } &sampled[..] } else { args };
        let stack = if f.frame > 0 { st.mem.frame(f.frame) } else { 0 };
        let t = &mut st.threads[st.cur];
        if t.frames.len() > 2000 { return Err(Stop::Fail("stack".into(), "stack overflow".into())); }
        let base = t.regs.len() as u32;
        if args.len() < f.nparams as usize { return Err(Stop::Unsupported(format!("call of {} with {} arguments", f.demangled, args.len()))); }
        t.regs.reserve(f.nregs as usize);
        for a in &args[..f.nparams as usize] { t.regs.push(a.clone()); }
        t.regs.resize(base as usize + f.nregs as usize, V::I(0));
        t.frames.push(Frame { f: fid, pc: 0, base, dst, inv, stack });
        Ok(())
    }
    fn pop(&self, st: &mut State) -> Frame {
        let t = &mut st.threads[st.cur];
        let fr = t.frames.pop().unwrap();
        t.regs.truncate(fr.base as usize);
        if fr.stack != 0 { st.mem.pop_frame(fr.stack); }
        fr
    }
    fn take_edge(&self, st: &mut State, e: u32) {
        let t = &mut st.threads[st.cur];
        let fr = t.frames.last_mut().unwrap();
        let f = self.m.func(fr.f).unwrap();
        let ed = &f.edges[e as usize];
        edge_moves(f, ed, &mut t.regs, fr.base as usize);
        fr.pc = ed.pc;
    }
    /// Return `v` from the top frame to its caller.
    fn ret(&mut self, st: &mut State, v: Option<V>) {
        let fr = self.pop(st);
        let t = &mut st.threads[st.cur];
        if let Some(c) = t.frames.last() {
            if fr.dst != NONE { if let Some(v) = v { let i = (c.base + fr.dst) as usize; t.regs[i] = v; } }
            match fr.inv { Some((n, _)) => self.take_edge(st, n), None => {} }
        }
    }
    /// Unwind with exception `exn` starting at the top frame's current call site; `own` is the invoke of the call being executed in the top frame.
    pub fn unwind(&mut self, st: &mut State, exn: u64, own: Option<(u32, u32)>) -> X<()> {
        // search for a handler first: no handler means abort
        let t = &st.threads[st.cur];
        let mut site = own;
        let mut target = None;
        for (i, fr) in t.frames.iter().enumerate().rev() {
            if let Some((_, u)) = site { target = Some((i, u)); break; }
            site = fr.inv;
        }
        let Some((depth, u)) = target else { return self.fail("panic", format!("uncaught panic: {}", last_lines(&st.stderr))); };
        while st.threads[st.cur].frames.len() > depth + 1 { self.pop(st); }
        st.threads[st.cur].exn = exn;
        self.take_edge(st, u);
        Ok(())
    }

    // ---------------------------------------------------------------- threads

    fn runnable(&self, st: &State) -> Vec<usize> {
        (0..st.threads.len()).filter(|i| match st.threads[*i].status {
            Status::Run => true,
            Status::Futex { woken, .. } => woken,
            Status::Join(j) => st.threads[j].status == Status::Done,
            Status::Done => false,
        }).collect()
    }
    /// Choose the next thread. Returns false if the instruction must be retried after a fork (never).
    fn switch(&mut self, st: &mut State, forced: bool) -> X<()> {
        let mut run = self.runnable(st);
        if run.is_empty() {
            // time passes: a timed waiter gives up
            run = (0..st.threads.len()).filter(|i| matches!(st.threads[*i].status, Status::Futex { timed: true, .. })).collect();
            if run.is_empty() { return self.fail("deadlock", "deadlock: every thread is blocked"); }
        }
        // the current thread first, so that choice 0 continues it
        run.sort_by_key(|i| if *i == st.cur && !forced { 0 } else { *i + 1 });
        if forced && run.len() > 1 { run.retain(|i| *i != st.cur || st.threads[*i].status != Status::Run); }
        let k = if run.len() == 1 { 0 } else {
            let e = match st.pend.clone() { Some(e) => e, None => { let e = self.new_choice(st, run.len() as u64, "sched"); st.pend = Some(e.clone()); e } };
            let k = self.concretize(st, &V::of(e))?;
            st.pend = None;
            k as usize
        };
        let n = run[k];
        if n != st.cur && !forced { st.preempt -= 1; }
        st.cur = n;
        let t = &mut st.threads[n];
        match t.status {
            Status::Futex { woken, .. } => { t.futex_ret = Some(if woken { 0 } else { -110 }); t.status = Status::Run; }
            Status::Join(_) => t.status = Status::Run,
            _ => {}
        }
        Ok(())
    }
    /// The current thread cannot go on now.
    pub fn block(&mut self, st: &mut State, s: Status) { let c = st.cur; st.threads[c].status = s; st.forced = true; }

    fn thread_exit(&mut self, st: &mut State) -> X<bool> {
        // run TLS destructors, then mark the thread as done; true: the whole path is complete
        if st.cur == 0 { return Ok(true); }
        let c = st.cur;
        st.threads[c].exiting = true;
        if let Some((f, obj)) = st.threads[c].dtors.pop() {
            self.call_ptr(st, f, &[V::I(obj)])?;
            return Ok(false);
        }
        let key = st.threads[c].keys.iter().find(|(k, v)| **v != 0 && st.key_dtors.get(k).copied().unwrap_or(0) != 0).map(|(k, v)| (*k, *v));
        if let Some((k, v)) = key {
            st.threads[c].keys.insert(k, 0);
            let f = st.key_dtors[&k];
            self.call_ptr(st, f, &[V::I(v)])?;
            return Ok(false);
        }
        st.threads[c].status = Status::Done;
        st.forced = true;
        Ok(false)
    }
    pub fn call_ptr(&mut self, st: &mut State, f: u64, args: &[V]) -> X<()> {
        let id = self.fn_of(f)?;
        self.enter(st, id, args, NONE, None)
    }
    fn fn_of(&self, p: u64) -> X<u32> {
        let id = (p >> OBJ_SHIFT).wrapping_sub(FN_BASE);
        if p & 0xffff_ffff == 0 && id < self.m.fns.len() as u64 { Ok(id as u32) } else { self.fail("memory", format!("call through invalid function pointer {p:#x}")) }
    }

    // ---------------------------------------------------------------- main loop

    pub fn exec(&mut self, st: &mut State) -> Stop {
        loop {
            match self.steps(st) { Ok(true) => return Stop::Done, Ok(false) => {} Err(s) => return s }
        }
    }

    /// Execute until a control transfer between functions, a fork or the end. true: path complete.
    fn steps(&mut self, st: &mut State) -> X<bool> {
        if st.forced {
            self.switch(st, true)?;
            st.forced = false;
        }
        if st.threads[st.cur].frames.is_empty() { return self.thread_exit(st); }
        if st.instrs > self.eng.cfg.max_instrs { return Err(Stop::Budget); }
        if self.eng.timed_out.load(Relaxed) { return Err(Stop::Budget); }
        if self.eng.start.elapsed().as_secs_f64() > self.eng.cfg.max_secs { self.eng.timed_out.store(true, Relaxed); self.eng.cv.notify_all(); return Err(Stop::Budget); }
        let m = self.m;
        let cur = st.cur;
        let fr = *st.threads[cur].frames.last().unwrap();
        let f = m.func(fr.f).unwrap();
        let base = fr.base as usize;
        let mut pc = fr.pc as usize;
        let mut count = 0u64;
        macro_rules! regs { () => { st.threads[cur].regs } }
        macro_rules! get { ($o:expr) => {{ let o = $o; if o & CONST != 0 { &f.consts[(o & !CONST) as usize] } else { &st.threads[cur].regs[base + o as usize] } }} }
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; regs!()[base + $d as usize] = v; }} }
        // make the program counter visible (before forking, calling or stopping)
        macro_rules! sync { () => {{ st.instrs += count; count = 0; st.threads[cur].frames.last_mut().unwrap().pc = pc as u32; }} }
        macro_rules! conc { ($o:expr) => {{ match get!($o) { V::I(x) => *x, v => { let v = v.clone(); sync!(); self.concretize(st, &v)? } } }} }
        macro_rules! goto { ($e:expr) => {{ let ed = &f.edges[$e as usize]; edge_moves(f, ed, &mut regs!(), base); pc = ed.pc as usize; continue; }} }
        loop {
            count += 1;
            if count & 0xfffff == 0 { sync!(); return Ok(false); }
            match &f.code[pc] {
                Ins::Bin { op, w, d, a, b } if *w > 128 => { let v = wide_bin(*op, *w, get!(*a), get!(*b)); if v.is_err() { sync!(); } let v = v?; set!(*d, v); }
                Ins::Cast { k, fw, tw, d, a } if *fw > 128 || *tw > 128 => {
                    let mut x = get!(*a).clone();
                    if let V::S(_) = x { sync!(); x = self.sample(st, &x, "arithmetic on integers wider than 128 bits"); }
                    let v = wide_cast(*k, *fw, *tw, &x);
                    if v.is_err() { sync!(); }
                    let v = v?;
                    set!(*d, v);
                }
                Ins::Bin { op, w, d, a, b } => {
                    let (x, y) = (get!(*a), get!(*b));
                    if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && y.con() == Some(0) { sync!(); return self.fail("memory", "division by zero"); }
                    let v = vbin(*op, *w, x, y);
                    set!(*d, v);
                }
                Ins::ICmp { w, .. } | Ins::LoadI { w, .. } | Ins::StoreI { w, .. } if *w > 128 => { sync!(); return Err(Stop::Unsupported(format!("{w}-bit integers"))); }
                Ins::ICmp { p, w, d, a, b } => { let v = icmp(*p, *w, get!(*a), get!(*b)); set!(*d, v); }
                Ins::Cast { k, fw, tw, d, a } => {
                    let mut v = vcast(*k, *fw, *tw, get!(*a));
                    if v.is_err() {
                        let x = get!(*a).clone();
                        sync!();
                        if let V::S(_) = x { let x = self.sample(st, &x, "symbolic floating point"); v = vcast(*k, *fw, *tw, &x); }
                    }
                    let v = v?;
                    set!(*d, v);
                }
                Ins::Mov { d, a } => { let v = get!(*a).clone(); set!(*d, v); }
                Ins::Gep1 { d, base: bo, off } => {
                    let v = match get!(*bo) { V::I(x) => V::I(x.wrapping_add(*off)), v => vbin(Op::Add, 64, v, &V::I(*off)) };
                    set!(*d, v);
                }
                Ins::Gep { d, base: bo, off, idx } => {
                    let mut v = match get!(*bo) { V::I(x) => V::I(x.wrapping_add(*off)), v => vbin(Op::Add, 64, v, &V::I(*off)) };
                    for (o, w, sz) in idx.iter() {
                        let i = get!(*o);
                        let t = match i {
                            V::I(x) => { let x = if *w < 64 { sext(*x as u128, *w) as u64 } else { *x }; V::I(x.wrapping_mul(*sz)) }
                            i => vbin(Op::Mul, 64, &if *w < 64 { V::of(sext_e(&i.to_e(*w), 64)) } else { i.clone() }, &V::I(*sz)),
                        };
                        v = vbin(Op::Add, 64, &v, &t);
                    }
                    set!(*d, v);
                }
                Ins::LoadI { d, p, n, w } => {
                    let v = match get!(*p) {
                        V::I(a) => match st.mem.load(m, *a, *n, *w) { Ok(v) => v, Err(e) => { sync!(); return self.fail("memory", e); } },
                        pv => {
                            let pv = pv.clone();
                            sync!();
                            match self.table_load(st, &pv, *n, *w)? { Some(v) => v, None => { let a = self.concretize(st, &pv)?; let r = st.mem.load(m, a, *n, *w); self.me(r)? } }
                        }
                    };
                    set!(*d, v);
                }
                Ins::StoreI { v, p, n, w } => {
                    let a = conc!(*p);
                    let r = { let v = get!(*v); match v { V::I(x) => st.mem.store(a, *n, *w, &V::I(*x)), v => { let v = v.clone(); st.mem.store(a, *n, *w, &v) } } };
                    if let Err(e) = r { sync!(); return self.fail("memory", e); }
                }
                Ins::LoadT { d, p, ty } => {
                    let a = conc!(*p);
                    let r = st.mem.load_ty(m, a, ty);
                    if r.is_err() { sync!(); }
                    let v = self.me(r)?;
                    set!(*d, v);
                }
                Ins::StoreT { v, p, ty } => {
                    let a = conc!(*p);
                    let v = get!(*v).clone();
                    let r = st.mem.store_ty(a, ty, &v);
                    if r.is_err() { sync!(); }
                    self.me(r)?;
                }
                Ins::Rmw { k, d, p, v, n, w } => {
                    let a = conc!(*p);
                    let r = st.mem.load(m, a, *n, *w);
                    if r.is_err() { sync!(); }
                    let old = self.me(r)?;
                    let v = get!(*v).clone();
                    let pick = |pr: Pred| -> V { match icmp(pr, *w, &old, &v).con() { Some(1) => old.clone(), Some(_) => v.clone(), None => V::of(ite(&icmp(pr, *w, &old, &v).to_e(1), &old.to_e(*w), &v.to_e(*w))) } };
                    let new = match k {
                        Rmw::Add => vbin(Op::Add, *w, &old, &v), Rmw::Sub => vbin(Op::Sub, *w, &old, &v), Rmw::And => vbin(Op::And, *w, &old, &v), Rmw::Or => vbin(Op::Or, *w, &old, &v), Rmw::Xor => vbin(Op::Xor, *w, &old, &v),
                        Rmw::Xchg => v.clone(),
                        Rmw::Nand => vbin(Op::Xor, *w, &vbin(Op::And, *w, &old, &v), &V::from128(mask(*w), *w)),
                        Rmw::UMax => pick(Pred::Ugt), Rmw::UMin => pick(Pred::Ult), Rmw::Max => pick(Pred::Sgt), Rmw::Min => pick(Pred::Slt),
                    };
                    let r = st.mem.store(a, *n, *w, &new);
                    if r.is_err() { sync!(); }
                    self.me(r)?;
                    if *d != NONE { set!(*d, old); }
                }
                Ins::CmpXchg { d, p, c, v, n, w } => {
                    let a = conc!(*p);
                    let r = st.mem.load(m, a, *n, *w);
                    if r.is_err() { sync!(); }
                    let old = self.me(r)?;
                    let eq = icmp(Pred::Eq, *w, &old, get!(*c));
                    let eq = match eq { V::I(x) => x == 1, V::S(e) => { sync!(); self.decide(st, &e) } _ => unreachable!() };
                    if eq { let v = get!(*v).clone(); let r = st.mem.store(a, *n, *w, &v); if r.is_err() { sync!(); } self.me(r)?; }
                    if *d != NONE { set!(*d, V::A(Arc::new(vec![old, V::I(eq as u64)]))); }
                }
                Ins::Sched => {
                    if st.preempt > 0 && st.threads[cur].region && st.threads.len() > 1 {
                        let run = self.runnable(st);
                        if run.len() > 1 {
                            sync!();
                            self.switch(st, false)?; // may fork: the fork re-executes this instruction
                            st.threads[cur].frames.last_mut().unwrap().pc = pc as u32 + 1;
                            if st.cur != cur { return Ok(false); }
                        }
                    }
                }
                Ins::Alloca { d, off } => { let a = ((fr.stack as u64) << OBJ_SHIFT) | *off as u64; set!(*d, V::I(a)); }
                Ins::Jmp { e } => goto!(*e),
                Ins::Br { c, t, f: fe } => {
                    let b = match get!(*c) { V::I(x) => *x & 1 == 1, V::S(e) => { let e = e.clone(); sync!(); self.decide(st, &e) } _ => unreachable!() };
                    goto!(if b { *t } else { *fe })
                }
                Ins::Switch { v, w, cases, d } => {
                    let x = match get!(*v) {
                        V::I(x) => *x,
                        V::W(x) => **x as u64,
                        V::S(e) => {
                            let e = e.clone();
                            sync!();
                            let x = self.mval(st, &e) as u64;
                            let tgt = cases.iter().find(|c| c.0 == x).map(|c| c.1);
                            let key = |ed: u32| f.edges[ed as usize].pc;
                            let stay = match tgt {
                                Some(t) if f.edges[t as usize].moves.is_empty() => cases.iter().filter(|c| key(c.1) == key(t) && f.edges[c.1 as usize].moves.is_empty()).fold(cst(0, 1), |acc, c| bin(Op::Or, &acc, &bin(Op::Eq, &e, &cst(c.0 as u128, *w)))),
                                Some(_) => bin(Op::Eq, &e, &cst(x as u128, *w)),
                                None => cases.iter().fold(cst(1, 1), |acc, c| bin(Op::And, &acc, &not1(&bin(Op::Eq, &e, &cst(c.0 as u128, *w))))),
                            };
                            self.split(st, &stay);
                            x
                        }
                        V::A(_) => unreachable!(),
                    };
                    let e = if cases.len() > 8 && false { 0 } else { cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*d) };
                    goto!(e)
                }
                Ins::Select { d, c, a, b, w } => {
                    let v = match get!(*c) {
                        V::I(x) => get!(if *x & 1 == 1 { *a } else { *b }).clone(),
                        V::S(e) => {
                            let e = e.clone();
                            let (x, y) = (get!(*a), get!(*b));
                            if matches!(x, V::A(_)) || *w == 0 { sync!(); if self.decide(st, &e) { get!(*a).clone() } else { get!(*b).clone() } }
                            else { V::of(ite(&e, &x.to_e(*w), &y.to_e(*w))) }
                        }
                        V::A(cs) => {
                            let (V::A(x), V::A(y)) = (get!(*a), get!(*b)) else { panic!("vector select") };
                            V::A(Arc::new((0..cs.len()).map(|i| match &cs[i] { V::I(1) => x[i].clone(), V::I(_) => y[i].clone(), c => V::of(ite(&c.to_e(1), &x[i].to_e(*w), &y[i].to_e(*w))) }).collect()))
                        }
                        V::W(_) => unreachable!(),
                    };
                    set!(*d, v);
                }
                Ins::Call(ci) => {
                    let id = match ci.callee {
                        Callee::Fn(id) => id,
                        Callee::Ind(o) => { let p = conc!(o); match self.fn_of(p) { Ok(i) => i, Err(e) => { sync!(); return Err(e); } } }
                    };
                    if m.fns[id as usize].ext == ext::Ext::None {
                        pc += 1;
                        sync!();
                        // direct register copies
                        let args: smallargs::Args = ci.args.iter().map(|o| get!(*o).clone()).collect();
                        self.enter(st, id, &args, ci.dst, ci.inv)?;
                        return Ok(false);
                    }
                    sync!();
                    let args: Vec<V> = ci.args.iter().map(|o| get!(*o).clone()).collect();
                    match self.external(st, m.fns[id as usize].ext, id, &args, ci.inv)? {
                        ext::Ret::Val(v) => {
                            if ci.dst != NONE { set!(ci.dst, v); }
                            match ci.inv { Some((n, _)) => goto!(n), None => pc += 1 }
                            if st.forced { // blocked: resume after the call
                                sync!();
                                return Ok(false);
                            }
                            continue;
                        }
                        // the callee was entered in place of the external: its frame returns past this call
                        ext::Ret::Call(fid, args) => {
                            pc += 1;
                            sync!();
                            self.enter(st, fid, &args, ci.dst, ci.inv)?;
                            return Ok(false);
                        }
                        ext::Ret::Jumped => return Ok(false),
                        // blocked: the call is executed again when the thread is resumed
                        ext::Ret::Block => return Ok(false),
                        ext::Ret::Exit => return Ok(true),
                    }
                }
                Ins::Ret { v } => {
                    let v = get!(*v).clone();
                    sync!();
                    self.ret(st, Some(v));
                    return Ok(false);
                }
                Ins::RetVoid => { sync!(); self.ret(st, None); return Ok(false); }
                Ins::Intr { k, w, d, args } => {
                    let vs: smallargs::Args = args.iter().map(|o| get!(*o).clone()).collect();
                    sync!();
                    let v = self.intrinsic(st, *k, *w, &vs)?;
                    if *d != NONE { if let Some(v) = v { set!(*d, v); } }
                    if st.forced { pc += 1; sync!(); return Ok(false); }
                }
                Ins::Extract { d, a, path } => {
                    let mut v = get!(*a);
                    for i in path.iter() { match v { V::A(x) => v = &x[*i as usize], _ => panic!("extractvalue of a scalar") } }
                    let v = v.clone();
                    set!(*d, v);
                }
                Ins::Insert { d, a, v, path } => {
                    let x = get!(*v).clone();
                    let mut agg = get!(*a).clone();
                    insert(&mut agg, &path[..], x);
                    set!(*d, agg);
                }
                Ins::ExtractEl { d, a, i } => { let i = conc!(*i) as usize; let V::A(x) = get!(*a) else { panic!() }; let v = x[i].clone(); set!(*d, v); }
                Ins::InsertEl { d, a, v, i } => { let i = conc!(*i) as usize; let x = get!(*v).clone(); let V::A(a) = get!(*a) else { panic!() }; let mut a = (**a).clone(); a[i] = x; set!(*d, V::A(Arc::new(a))); }
                Ins::Shuffle { d, a, b, m } => {
                    let (V::A(x), V::A(y)) = (get!(*a), get!(*b)) else { panic!() };
                    let v = m.iter().map(|i| if (*i as usize) < x.len() { x[*i as usize].clone() } else { y[*i as usize - x.len()].clone() }).collect();
                    set!(*d, V::A(Arc::new(v)));
                }
                Ins::BitCast { from, to, d, a } => { let v = from_bits(&to_bits(get!(*a), from), to); set!(*d, v); }
                Ins::FBin { op, w, d, a, b } => {
                    let (mut xv, mut yv) = (get!(*a).clone(), get!(*b).clone());
                    if let V::S(_) = xv { sync!(); xv = self.sample(st, &xv, "symbolic floating point"); }
                    if let V::S(_) = yv { sync!(); yv = self.sample(st, &yv, "symbolic floating point"); }
                    let (Some(x), Some(y)) = (xv.con(), yv.con()) else { sync!(); return Err(Stop::Unsupported("symbolic floating point".into())) };
                    let v = if *w == 32 { let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); (match op { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, 5 => -x, _ => x % y }).to_bits() as u64 }
                        else { let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64)); (match op { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, 5 => -x, _ => x % y }).to_bits() };
                    set!(*d, V::I(v));
                }
                Ins::FCmp { p, w, d, a, b } => {
                    let (mut xv, mut yv) = (get!(*a).clone(), get!(*b).clone());
                    if let V::S(_) = xv { sync!(); xv = self.sample(st, &xv, "symbolic floating point"); }
                    if let V::S(_) = yv { sync!(); yv = self.sample(st, &yv, "symbolic floating point"); }
                    let (Some(x), Some(y)) = (xv.con(), yv.con()) else { sync!(); return Err(Stop::Unsupported("symbolic floating point".into())) };
                    let (x, y) = if *w == 32 { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x as u64), f64::from_bits(y as u64)) };
                    let bit = match x.partial_cmp(&y) { Some(std::cmp::Ordering::Less) => 1, Some(std::cmp::Ordering::Equal) => 2, Some(_) => 4, None => 8 };
                    set!(*d, V::I((p & bit != 0) as u64));
                }
                Ins::LandingPad { d, .. } => { let e = st.threads[cur].exn; if *d != NONE { set!(*d, V::A(Arc::new(vec![V::I(e), V::I(1)]))); } }
                Ins::Resume { a } => {
                    let V::A(x) = get!(*a) else { panic!() };
                    let e = x[0].con().unwrap() as u64;
                    sync!();
                    let fr = self.pop(st);
                    if st.threads[cur].frames.is_empty() { return self.fail("panic", "exception reached the top of the stack"); }
                    self.unwind(st, e, fr.inv)?;
                    return Ok(false);
                }
                Ins::Asm { d, cpuid } => { if *cpuid && *d != NONE { set!(*d, V::A(Arc::new(vec![V::I(0); 4]))); } else if *d != NONE { sync!(); return Err(Stop::Unsupported("inline assembly".into())); } }
                Ins::Unreachable => { sync!(); return self.fail("memory", "unreachable code reached"); }
            }
            pc += 1;
        }
    }

    /// Read of a constant table at a symbolic index: one if-then-else over the (solver-bounded) index instead of a fork per entry.
    fn table_load(&mut self, st: &mut State, p: &V, n: u32, w: u32) -> X<Option<V>> {
        let V::S(e) = p else { return Ok(None) };
        let x = self.mval(st, e) as u64;
        let id = x >> OBJ_SHIFT;
        if id == 0 || id >= FN_BASE { return Ok(None); }
        let Some(d) = self.m.consts.get(id as usize) else { return Ok(None) };
        let len = d.len() as u64;
        if len > 2048 { return Ok(None); }
        // all feasible addresses must be inside the object
        let b = id << OBJ_SHIFT;
        let inb = bin(Op::Ult, &bin(Op::Sub, e, &cst(b as u128, 64)), &cst((len - n as u64 + 1) as u128, 64));
        if self.possible(st, &not1(&inb)).is_some() { return Ok(None); }
        let off = bin(Op::Sub, e, &cst(b as u128, 64));
        let mut groups: BTreeMap<u128, Vec<u64>> = BTreeMap::new();
        let step = n as u64;
        let mut aligned = true;
        if step > 1 {
            let rem = bin(Op::And, &off, &cst(step as u128 - 1, 64));
            aligned = step.is_power_of_two() && self.possible(st, &not1(&bin(Op::Eq, &rem, &cst(0, 64)))).is_none();
        }
        if !aligned { return Ok(None); }
        let mut o = 0;
        while o + step <= len {
            let mut k = [0u8; 16];
            k[..n as usize].copy_from_slice(&d[o as usize..(o + step) as usize]);
            groups.entry(u128::from_le_bytes(k) & mask(w)).or_default().push(o);
            o += step;
        }
        // the most frequent value is the default; the others as unions of ranges
        let dflt = *groups.iter().max_by_key(|(_, v)| v.len()).unwrap().0;
        let mut acc = cst(dflt, w);
        for (val, offs) in &groups {
            if *val == dflt { continue; }
            let mut c = cst(0, 1);
            let mut i = 0;
            while i < offs.len() {
                let mut j = i;
                while j + 1 < offs.len() && offs[j + 1] == offs[j] + step { j += 1; }
                let lo = offs[i];
                let hi = offs[j];
                let r = if lo == hi { bin(Op::Eq, &off, &cst(lo as u128, 64)) } else { bin(Op::And, &bin(Op::Ule, &cst(lo as u128, 64), &off), &bin(Op::Ule, &off, &cst(hi as u128, 64))) };
                c = bin(Op::Or, &c, &r);
                i = j + 1;
            }
            acc = ite(&c, &cst(*val, w), &acc);
        }
        Ok(Some(V::of(acc)))
    }

    fn intrinsic(&mut self, st: &mut State, k: Intr, w: u32, a: &[V]) -> X<Option<V>> {
        let m = self.m;
        // lane-wise on vectors
        if !matches!(k, Intr::Memcpy | Intr::Memset) {
            if let Some(V::A(x)) = a.first() {
                let mut out = vec![];
                for i in 0..x.len() {
                    let lane: Vec<V> = a.iter().map(|v| match v { V::A(y) => y[i].clone(), v => v.clone() }).collect();
                    out.push(self.intrinsic(st, k, w, &lane)?.unwrap());
                }
                return Ok(Some(V::A(Arc::new(out))));
            }
        }
        let sampled: Vec<V>;
        let a = if matches!(k, Intr::Fabs | Intr::Copysign | Intr::Pow | Intr::Float(_) | Intr::FpToUiSat { .. } | Intr::FpToSiSat { .. }) { let mut v = vec![]; for x in a { v.push(self.sample(st, x, "symbolic floating point")); } sampled = v; &sampled[..] } else { a };
        let all_con = a.iter().all(|v| v.con().is_some());
        let c = |i: usize| a[i].con().unwrap();
        let e = |i: usize| a[i].to_e(w);
        Ok(Some(match k {
            Intr::Nop => return Ok(None),
            Intr::Memcpy => {
                let n = self.concretize(st, &a[2])?;
                let (d, s) = (self.concretize(st, &a[0])?, self.concretize(st, &a[1])?);
                let r = st.mem.copy(m, d, s, n);
                self.me(r)?;
                return Ok(None);
            }
            Intr::Memset => {
                let n = self.concretize(st, &a[2])?;
                let d = self.concretize(st, &a[0])?;
                let r = st.mem.set(d, &a[1], n);
                self.me(r)?;
                return Ok(None);
            }
            Intr::TlsAddr => {
                let p = c(0) as u64;
                let (id, off) = (p >> OBJ_SHIFT, p & 0xffff_ffff);
                let key = (st.cur as u32, id);
                let base = match st.tls.get(&key) { Some(b) => *b, None => {
                    let img = &m.tls[(id - TLS_BASE) as usize];
                    let b = st.mem.alloc(img.len() as u64, false);
                    st.mem.write_bytes(b, img).unwrap();
                    st.tls.insert(key, b);
                    b
                } };
                V::I(base + off)
            }
            Intr::Ctlz | Intr::Cttz | Intr::Ctpop if all_con => {
                let x = c(0);
                V::from128(match k { Intr::Ctlz => (x.leading_zeros() - (128 - w)).min(w) as u128, Intr::Cttz => x.trailing_zeros().min(w) as u128, _ => x.count_ones() as u128 }, w)
            }
            Intr::Ctlz => { let x = e(0); let mut r = cst(w as u128, w); for i in 0..w { r = ite(&extract(&x, i, 1), &cst((w - 1 - i) as u128, w), &r); } V::of(r) }
            Intr::Cttz => { let x = e(0); let mut r = cst(w as u128, w); for i in (0..w).rev() { r = ite(&extract(&x, i, 1), &cst(i as u128, w), &r); } V::of(r) }
            Intr::Ctpop => { let x = e(0); let mut r = cst(0, w); for i in 0..w { r = bin(Op::Add, &r, &zext(&extract(&x, i, 1), w)); } V::of(r) }
            Intr::Bswap => {
                if all_con { let x = c(0); let mut r = 0u128; for i in 0..w / 8 { r |= ((x >> (8 * i)) & 0xff) << (w - 8 - 8 * i); } V::from128(r, w) }
                else { let x = e(0); let mut r = extract(&x, 0, 8); for i in 1..w / 8 { r = concat(&r, &extract(&x, 8 * i, 8)); } V::of(r) }
            }
            Intr::Bitreverse => {
                if all_con { V::from128(c(0).reverse_bits() >> (128 - w), w) }
                else { let x = e(0); let mut r = extract(&x, 0, 1); for i in 1..w { r = concat(&r, &extract(&x, i, 1)); } V::of(r) }
            }
            Intr::UMin | Intr::UMax | Intr::SMin | Intr::SMax => {
                let p = match k { Intr::UMin => Pred::Ult, Intr::UMax => Pred::Ugt, Intr::SMin => Pred::Slt, _ => Pred::Sgt };
                match icmp(p, w, &a[0], &a[1]) { V::I(1) => a[0].clone(), V::I(_) => a[1].clone(), cnd => V::of(ite(&cnd.to_e(1), &e(0), &e(1))) }
            }
            Intr::USubSat => match icmp(Pred::Ult, w, &a[0], &a[1]) { V::I(1) => V::from128(0, w), V::I(_) => vbin(Op::Sub, w, &a[0], &a[1]), cnd => V::of(ite(&cnd.to_e(1), &cst(0, w), &bin(Op::Sub, &e(0), &e(1)))) },
            Intr::UAddSat => {
                let s = vbin(Op::Add, w, &a[0], &a[1]);
                match icmp(Pred::Ult, w, &s, &a[0]) { V::I(1) => V::from128(mask(w), w), V::I(_) => s, cnd => V::of(ite(&cnd.to_e(1), &cst(mask(w), w), &s.to_e(w))) }
            }
            Intr::UAddO => { let s = vbin(Op::Add, w, &a[0], &a[1]); let o = icmp(Pred::Ult, w, &s, &a[0]); V::A(Arc::new(vec![s, o])) }
            Intr::USubO => { let s = vbin(Op::Sub, w, &a[0], &a[1]); let o = icmp(Pred::Ult, w, &a[0], &a[1]); V::A(Arc::new(vec![s, o])) }
            Intr::UMulO => {
                if all_con {
                    let (s, o) = if w == 128 { c(0).overflowing_mul(c(1)) } else if w > 64 { return Err(Stop::Unsupported("umul".into())) } else { let p = c(0) * c(1); (p & mask(w), p > mask(w)) };
                    V::A(Arc::new(vec![V::from128(s, w), V::I(o as u64)]))
                } else {
                    if w > 64 { return Err(Stop::Unsupported("symbolic 128-bit multiplication".into())); }
                    let p = bin(Op::Mul, &zext(&e(0), 2 * w), &zext(&e(1), 2 * w));
                    V::A(Arc::new(vec![V::of(extract(&p, 0, w)), V::of(not1(&bin(Op::Eq, &extract(&p, w, w), &cst(0, w))))]))
                }
            }
            Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let op = match k { Intr::SAddO => Op::Add, Intr::SSubO => Op::Sub, _ => Op::Mul };
                if w > 64 { return Err(Stop::Unsupported("128-bit signed overflow".into())); }
                let p = bin(op, &sext_e(&e(0), 2 * w), &sext_e(&e(1), 2 * w));
                let lo = extract(&p, 0, w);
                let o = not1(&bin(Op::Eq, &sext_e(&lo, 2 * w), &p));
                V::A(Arc::new(vec![V::of(lo), V::of(o)]))
            }
            Intr::Ucmp | Intr::Scmp => {
                let (lt, gt) = if k == Intr::Ucmp { (icmp(Pred::Ult, w, &a[0], &a[1]), icmp(Pred::Ugt, w, &a[0], &a[1])) } else { (icmp(Pred::Slt, w, &a[0], &a[1]), icmp(Pred::Sgt, w, &a[0], &a[1])) };
                V::of(ite(&lt.to_e(1), &cst(0xff, 8), &zext(&gt.to_e(1), 8)))
            }
            Intr::Abs => { let n = vbin(Op::Sub, w, &V::from128(0, w), &a[0]); match icmp(Pred::Slt, w, &a[0], &V::from128(0, w)) { V::I(1) => n, V::I(_) => a[0].clone(), cnd => V::of(ite(&cnd.to_e(1), &n.to_e(w), &e(0))) } }
            Intr::Fshl | Intr::Fshr => {
                let Some(s) = a[2].con() else { return Err(Stop::Unsupported("symbolic funnel shift".into())) };
                let s = (s % w as u128) as u32;
                if s == 0 { if k == Intr::Fshl { a[0].clone() } else { a[1].clone() } }
                else {
                    let (l, r) = if k == Intr::Fshl { (s, w - s) } else { (w - s, s) };
                    vbin(Op::Or, w, &vbin(Op::Shl, w, &a[0], &V::from128(l as u128, w)), &vbin(Op::LShr, w, &a[1], &V::from128(r as u128, w)))
                }
            }
            Intr::IsConst => V::I(0),
            Intr::Expect => a[0].clone(),
            Intr::Trap => return self.fail("panic", format!("abort: {}", last_lines(&st.stderr))),
            Intr::Fabs => V::I((c(0) as u64) & ((1u64 << (w - 1)) - 1)),
            Intr::Copysign => { let m = (1u64 << (w - 1)) - 1; V::I((c(0) as u64) & m | (c(1) as u64) & (m + 1)) }
            Intr::Pow | Intr::Float(_) => {
                let f = |i: usize| if w == 32 { f32::from_bits(c(i) as u32) as f64 } else { f64::from_bits(c(i) as u64) };
                use Fl::*;
                let r = match k {
                    Intr::Float(o) => match o {
                        Sqrt => f(0).sqrt(), Floor => f(0).floor(), Ceil => f(0).ceil(), Trunc => f(0).trunc(), Round => f(0).round(), Even => f(0).round_ties_even(),
                        Exp => f(0).exp(), Exp2 => f(0).exp2(), Ln => f(0).ln(), Log2 => f(0).log2(), Log10 => f(0).log10(), Sin => f(0).sin(), Cos => f(0).cos(),
                        Min => f(0).min(f(1)), Max => f(0).max(f(1)), Powi => f(0).powi(c(1) as i32),
                        Fma if w == 32 => f32::mul_add(f32::from_bits(c(0) as u32), f32::from_bits(c(1) as u32), f32::from_bits(c(2) as u32)) as f64, Fma => f(0).mul_add(f(1), f(2)),
                    },
                    _ => f(0).powf(f(1)),
                };
                V::I(if w == 32 { (r as f32).to_bits() as u64 } else { r.to_bits() })
            }
            Intr::FpToUiSat { src32 } => { let x = if src32 { f32::from_bits(c(0) as u32) as f64 } else { f64::from_bits(c(0) as u64) }; V::from128((x as u128).min(mask(w)), w) }
            Intr::FpToSiSat { src32 } => {
                let x = if src32 { f32::from_bits(c(0) as u32) as f64 } else { f64::from_bits(c(0) as u64) };
                let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                V::from128((x as i128).clamp(lo, hi) as u128 & mask(w), w)
            }
            Intr::Pause => { if st.threads.len() > 1 && self.runnable(st).len() > 1 { st.forced = true; } return Ok(None); }
            Intr::Unsupported => return Err(Stop::Unsupported("intrinsic".into())),
        }))
    }
    pub fn others_runnable(&self, st: &State) -> bool { self.runnable(st).iter().any(|i| *i != st.cur) }
}

fn insert(v: &mut V, path: &[u32], x: V) {
    if path.is_empty() { *v = x; return; }
    match v { V::A(a) => insert(&mut Arc::make_mut(a)[path[0] as usize], &path[1..], x), _ => panic!("insertvalue into a scalar") }
}
#[inline]
fn edge_moves(f: &Func, ed: &Edge, regs: &mut [V], base: usize) {
    let get = |regs: &[V], o: O| -> V { if o & CONST != 0 { f.consts[(o & !CONST) as usize].clone() } else { regs[base + o as usize].clone() } };
    match ed.moves.len() {
        0 => {}
        1 => { let (d, o) = ed.moves[0]; let v = get(regs, o); regs[base + d as usize] = v; }
        _ => {
            let tmp: smallargs::Args = ed.moves.iter().map(|(_, o)| get(regs, *o)).collect();
            for ((d, _), v) in ed.moves.iter().zip(tmp.into_iter()) { regs[base + *d as usize] = v; }
        }
    }
}
pub fn last_lines(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let l: Vec<&str> = s.lines().filter(|l| !l.is_empty() && !l.starts_with("note:")).collect();
    l[l.len().saturating_sub(3)..].join(" | ")
}
pub mod smallargs { pub type Args = Vec<crate::ir::V>; }
#[allow(unused)]
fn _unused() { let _ = expr::mask(1); }
