//! SMT back end: slicing, canonical query cache, one incremental solver process per worker.
use crate::expr::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub enum Ans { Sat(Vec<(u32, u64)>), Unsat, Unknown }

#[derive(Default)]
pub struct Shared {
    cache: Vec<Mutex<HashMap<u128, Option<Vec<u64>>>>>,
    pub queries: AtomicU64,
    pub hits: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    pub nanos: AtomicU64,
    pub max_nanos: AtomicU64,
    pub cmd: Vec<String>,
    pub timeout_ms: u64,
}
impl Shared {
    pub fn new(cmd: Vec<String>, timeout_ms: u64) -> Shared {
        Shared { cache: (0..64).map(|_| Mutex::new(HashMap::new())).collect(), cmd, timeout_ms, ..Default::default() }
    }
}

pub struct Solver { sh: Arc<Shared>, proc: Option<(Child, ChildStdin, BufReader<ChildStdout>)> }

struct Canon { order: Vec<(u32, u32)>, map: HashMap<u32, u32>, memo: HashMap<*const Expr, u128> }
impl Canon {
    fn hash(&mut self, e: &E) -> u128 {
        if let Some(h) = self.memo.get(&Arc::as_ptr(e)) { return *h; }
        let h = match e.op {
            Op::Var => {
                let v = e.k as u32;
                let n = self.map.len() as u32;
                let i = *self.map.entry(v).or_insert_with(|| { self.order.push((v, e.w)); n });
                hash_mix(hash_mix(3, i as u64), e.w as u64)
            }
            _ => {
                let mut h = hash_mix(hash_mix(hash_mix(hash_mix(e.op as u128 + 9, e.w as u64), e.k as u64), (e.k >> 64) as u64), 5);
                for a in &e.a { let x = self.hash(a); h = hash_mix(hash_mix(h, x as u64), (x >> 64) as u64); }
                h
            }
        };
        self.memo.insert(Arc::as_ptr(e), h);
        h
    }
}

/// Constraints (transitively) sharing variables with `goal`.
pub fn slice<'a>(pc: &'a [E], goal: &E) -> Vec<&'a E> {
    let mut s = goal.supp;
    let mut used = vec![false; pc.len()];
    loop {
        let mut changed = false;
        for (i, c) in pc.iter().enumerate() {
            if !used[i] && (c.supp[0] & s[0] | c.supp[1] & s[1]) != 0 {
                used[i] = true;
                changed = true;
                s[0] |= c.supp[0];
                s[1] |= c.supp[1];
            }
        }
        if !changed { break; }
    }
    pc.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, c)| c).collect()
}

impl Solver {
    pub fn new(sh: Arc<Shared>) -> Solver { Solver { sh, proc: None } }

    /// Is `pc` (assumed satisfiable) together with `goal` satisfiable?
    pub fn check(&mut self, pc: &[E], goal: &E) -> Ans {
        if let Some(c) = goal.c() { return if c == 1 { Ans::Sat(vec![]) } else { Ans::Unsat }; }
        let sl = slice(pc, goal);
        let mut cn = Canon { order: vec![], map: HashMap::new(), memo: HashMap::new() };
        let mut key = cn.hash(goal);
        for c in &sl { let x = cn.hash(c); key = hash_mix(hash_mix(key, x as u64), (x >> 64) as u64); }
        let shard = (key as usize) % 64;
        self.sh.queries.fetch_add(1, Relaxed);
        if let Some(r) = self.sh.cache[shard].lock().unwrap().get(&key) {
            self.sh.hits.fetch_add(1, Relaxed);
            return match r { None => Ans::Unsat, Some(v) => Ans::Sat(cn.order.iter().zip(v).map(|((i, _), x)| (*i, *x)).collect()) };
        }
        let t = Instant::now();
        let r = self.run(&sl, goal, &cn);
        let dt = t.elapsed().as_nanos() as u64;
        self.sh.nanos.fetch_add(dt, Relaxed);
        self.sh.max_nanos.fetch_max(dt, Relaxed);
        match &r {
            Ans::Sat(m) => {
                self.sh.sat.fetch_add(1, Relaxed);
                let d: HashMap<u32, u64> = m.iter().cloned().collect();
                let v = cn.order.iter().map(|(i, _)| d.get(i).copied().unwrap_or(0)).collect();
                self.sh.cache[shard].lock().unwrap().insert(key, Some(v));
            }
            Ans::Unsat => { self.sh.unsat.fetch_add(1, Relaxed); self.sh.cache[shard].lock().unwrap().insert(key, None); }
            Ans::Unknown => { self.sh.unknown.fetch_add(1, Relaxed); }
        }
        r
    }

    fn run(&mut self, sl: &[&E], goal: &E, cn: &Canon) -> Ans {
        let mut out = String::from("(push 1)\n");
        for (i, (_, w)) in cn.order.iter().enumerate() { let _ = writeln!(out, "(declare-const v{i} (_ BitVec {w}))"); }
        let mut names: HashMap<*const Expr, String> = HashMap::new();
        for c in sl.iter().copied().chain(std::iter::once(goal)) {
            let n = emit(c, cn, &mut names, &mut out);
            let _ = writeln!(out, "(assert (= {n} #b1))");
        }
        out.push_str("(check-sat)\n");
        let t = Instant::now();
        let r = self.ask(&out, sl, goal, cn);
        if let (Ok(d), true) = (std::env::var("VH_SLOW"), t.elapsed().as_secs() >= 2) { let _ = std::fs::write(format!("{d}/q{}.smt2", self.sh.queries.load(Relaxed)), &out); }
        r
    }
    fn ask(&mut self, out: &str, sl: &[&E], goal: &E, cn: &Canon) -> Ans {
        for attempt in 0..2 {
            match self.talk(out, cn) {
                Ok(r) => {
                    // never trust an assignment that does not satisfy the query
                    if let Ans::Sat(m) = &r {
                        let d: HashMap<u32, u64> = m.iter().cloned().collect();
                        let f = |v: u32| d.get(&v).copied().unwrap_or(0);
                        for c in sl.iter().copied().chain(std::iter::once(goal)) {
                            if eval(c, &f) != 1 { eprintln!("engine: solver model does not satisfy the query"); return Ans::Unknown; }
                        }
                    }
                    return r;
                }
                Err(e) => {
                    eprintln!("engine: solver error ({attempt}): {e}");
                    if let Some((mut c, _, _)) = self.proc.take() { let _ = c.kill(); let _ = c.wait(); }
                }
            }
        }
        Ans::Unknown
    }

    fn talk(&mut self, q: &str, cn: &Canon) -> Result<Ans, String> {
        if self.proc.is_none() {
            let cmd = &self.sh.cmd;
            let mut c = Command::new(&cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().map_err(|e| e.to_string())?;
            let mut i = c.stdin.take().unwrap();
            let o = BufReader::new(c.stdout.take().unwrap());
            let pre = if cmd[0].contains("z3") { format!("(set-option :timeout {})\n(set-logic QF_BV)\n", self.sh.timeout_ms) }
                else { format!("(set-option :tlimit-per {})\n(set-option :produce-models true)\n(set-logic QF_BV)\n", self.sh.timeout_ms) };
            i.write_all(pre.as_bytes()).map_err(|e| e.to_string())?;
            self.proc = Some((c, i, o));
        }
        let (_, i, o) = self.proc.as_mut().unwrap();
        i.write_all(q.as_bytes()).map_err(|e| e.to_string())?;
        i.flush().map_err(|e| e.to_string())?;
        let mut line = String::new();
        o.read_line(&mut line).map_err(|e| e.to_string())?;
        let r = match line.trim() {
            "sat" => {
                let mut m = vec![];
                if !cn.order.is_empty() {
                    let mut s = String::from("(get-value (");
                    for k in 0..cn.order.len() { let _ = write!(s, "v{k} "); }
                    s.push_str("))\n");
                    i.write_all(s.as_bytes()).map_err(|e| e.to_string())?;
                    i.flush().map_err(|e| e.to_string())?;
                    let mut depth = 0i32;
                    let mut text = String::new();
                    loop {
                        let mut l = String::new();
                        if o.read_line(&mut l).map_err(|e| e.to_string())? == 0 { return Err("eof".into()); }
                        for ch in l.chars() { if ch == '(' { depth += 1 } else if ch == ')' { depth -= 1 } }
                        text.push_str(&l);
                        if depth <= 0 { break; }
                    }
                    if text.contains("error") { return Err(text); }
                    let toks: Vec<&str> = text.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|s| !s.is_empty()).collect();
                    for p in toks.chunks(2) {
                        if p.len() != 2 { return Err(text.clone()); }
                        let k: usize = p[0][1..].parse().map_err(|_| text.clone())?;
                        let v = if let Some(h) = p[1].strip_prefix("#x") { u64::from_str_radix(h, 16).map_err(|_| text.clone())? }
                            else if let Some(b) = p[1].strip_prefix("#b") { u64::from_str_radix(b, 2).map_err(|_| text.clone())? }
                            else { return Err(text.clone()); };
                        m.push((cn.order[k].0, v));
                    }
                }
                Ans::Sat(m)
            }
            "unsat" => Ans::Unsat,
            "unknown" | "timeout" => Ans::Unknown,
            x => return Err(x.to_string()),
        };
        i.write_all(b"(pop 1)\n").map_err(|e| e.to_string())?;
        Ok(r)
    }
}
impl Drop for Solver {
    fn drop(&mut self) { if let Some((mut c, _, _)) = self.proc.take() { let _ = c.kill(); let _ = c.wait(); } }
}

fn lit(v: u128, w: u32) -> String { format!("#b{:0width$b}", v, width = w as usize) }
fn emit(e: &E, cn: &Canon, names: &mut HashMap<*const Expr, String>, out: &mut String) -> String {
    match e.op {
        Op::Const => return lit(e.k, e.w),
        Op::Var => return format!("v{}", cn.map[&(e.k as u32)]),
        _ => {}
    }
    if let Some(n) = names.get(&Arc::as_ptr(e)) { return n.clone(); }
    let a: Vec<String> = e.a.iter().map(|x| emit(x, cn, names, out)).collect();
    let w = e.w;
    let s = match e.op {
        Op::Add => format!("(bvadd {} {})", a[0], a[1]),
        Op::Sub => format!("(bvsub {} {})", a[0], a[1]),
        Op::Mul => format!("(bvmul {} {})", a[0], a[1]),
        Op::UDiv => format!("(bvudiv {} {})", a[0], a[1]),
        Op::URem => format!("(bvurem {} {})", a[0], a[1]),
        Op::SDiv => format!("(bvsdiv {} {})", a[0], a[1]),
        Op::SRem => format!("(bvsrem {} {})", a[0], a[1]),
        Op::And => format!("(bvand {} {})", a[0], a[1]),
        Op::Or => format!("(bvor {} {})", a[0], a[1]),
        Op::Xor => format!("(bvxor {} {})", a[0], a[1]),
        Op::Shl => format!("(bvshl {} {})", a[0], a[1]),
        Op::LShr => format!("(bvlshr {} {})", a[0], a[1]),
        Op::AShr => format!("(bvashr {} {})", a[0], a[1]),
        Op::Eq => format!("(ite (= {} {}) #b1 #b0)", a[0], a[1]),
        Op::Ult => format!("(ite (bvult {} {}) #b1 #b0)", a[0], a[1]),
        Op::Ule => format!("(ite (bvule {} {}) #b1 #b0)", a[0], a[1]),
        Op::Slt => format!("(ite (bvslt {} {}) #b1 #b0)", a[0], a[1]),
        Op::Sle => format!("(ite (bvsle {} {}) #b1 #b0)", a[0], a[1]),
        Op::Ite => format!("(ite (= {} #b1) {} {})", a[0], a[1], a[2]),
        Op::Concat => format!("(concat {} {})", a[0], a[1]),
        Op::Extract => format!("((_ extract {} {}) {})", e.k as u32 + w - 1, e.k, a[0]),
        Op::ZExt => format!("((_ zero_extend {}) {})", w - e.a[0].w, a[0]),
        Op::SExt => format!("((_ sign_extend {}) {})", w - e.a[0].w, a[0]),
        Op::Const | Op::Var => unreachable!(),
    };
    let n = format!("n{}", names.len());
    let _ = writeln!(out, "(define-fun {n} () (_ BitVec {w}) {s})");
    names.insert(Arc::as_ptr(e), n.clone());
    n
}
