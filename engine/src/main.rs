//! Symbolic executor for the harness binary's LLVM IR.
mod exec;
mod expr;
mod ext;
mod ir;
mod mem;
mod solver;

use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::sync::atomic::{Ordering::*, *};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}
fn arr<T>(v: &[T], f: impl Fn(&T) -> String) -> String { format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(",")) }
fn viol_json(v: &Violation) -> String {
    format!("{{\"kind\":{},\"label\":{},\"values\":{},\"labels\":{},\"logs\":{},\"stack\":{},\"stderr\":{},\"threads\":{}}}", js(&v.kind), js(&v.label), arr(&v.values, |x| x.to_string()), arr(&v.labels, |x| js(x)),
        arr(&v.logs, |(l, x)| format!("[{},{}]", js(l), x)), arr(&v.stack[..v.stack.len().min(40)], |x| js(x)), js(&v.stderr), v.threads)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let ll = get("--ll").expect("--ll FILE");
    let threads: usize = get("--threads").map(|x| x.parse().unwrap()).unwrap_or(8);
    let secs: f64 = get("--secs").map(|x| x.parse().unwrap()).unwrap_or(60.0);
    let max_instrs: u64 = get("--instrs").map(|x| x.parse().unwrap()).unwrap_or(60_000_000);
    let preempt: u32 = get("--preempt").map(|x| x.parse().unwrap()).unwrap_or(0);
    let max_paths: u64 = get("--paths").map(|x| x.parse().unwrap()).unwrap_or(u64::MAX);
    let samples: usize = get("--samples").map(|x| x.parse().unwrap()).unwrap_or(6);
    let timeout: u64 = get("--solver-timeout").map(|x| x.parse().unwrap()).unwrap_or(20_000);
    let solver = get("--solver").unwrap_or("z3 -in".into());
    let out = get("--out");
    let total: f64 = get("--total").map(|x| x.parse().unwrap()).unwrap_or(1e9);
    let skip: Vec<String> = get("--skip").map(|x| x.split(';').filter(|x| !x.is_empty()).map(String::from).collect()).unwrap_or_default();
    let harnesses: Vec<String> = args.iter().skip(1).scan(false, |skip, a| { let r = if *skip { *skip = false; Some(None) } else if a.starts_with("--") { *skip = true; Some(None) } else { Some(Some(a.clone())) }; r }).flatten().collect();
    let t0 = Instant::now();
    let m = ir::Module::load(&ll);
    let load = t0.elapsed().as_secs_f64();
    let mut m = Some(m);
    let mut json = String::from("{\"harnesses\":[");
    // one harness per process keeps the reported numbers separate; several are run in sequence
    for (hi, spec) in harnesses.iter().enumerate() {
        // name[:secs[:preempt]]
        let mut parts = spec.split(':');
        let h = parts.next().unwrap();
        let secs = parts.next().and_then(|x| x.parse().ok()).unwrap_or(secs);
        let secs = secs.min((total - t0.elapsed().as_secs_f64()).max(1.0));
        let preempt = parts.next().and_then(|x| x.parse().ok()).unwrap_or(preempt);
        let module = m.take().unwrap();
        let entry = *module.fmap.get(format!("h_{h}").as_str()).unwrap_or_else(|| { eprintln!("engine: no harness {h}"); std::process::exit(2) });
        let nf = module.fns.len();
        let sh = Arc::new(solver::Shared::new(solver.split_whitespace().map(String::from).collect(), timeout));
        let eng = Arc::new(Engine {
            cfg: Config { max_secs: secs, max_instrs, max_violations: 40, samples, preempt, max_paths, skip: skip.clone() },
            sh: sh.clone(), q: Mutex::new(Queue { stack: vec![], active: 0 }), cv: Condvar::new(), start: Instant::now(),
            timed_out: AtomicBool::new(false), paths: 0.into(), killed: 0.into(), states: 1.into(), instrs: 0.into(), max_path_instrs: 0.into(), max_vars: AtomicUsize::new(0),
            checks: Mutex::new(BTreeMap::new()), covers: Mutex::new(BTreeMap::new()), viol: Mutex::new(vec![]), nviol: 0.into(), unsupported: Mutex::new(BTreeMap::new()), sampled: Mutex::new(BTreeMap::new()),
            budget: 0.into(), budget_sample: Mutex::new(None), unknown: 0.into(), samples: Mutex::new(vec![]), labels: Mutex::new((vec![], HashMap::new())), executed: Mutex::new(vec![false; nf]), peak_queue: AtomicUsize::new(0),
            m: module,
        });
        {
            let mut w = Worker { eng: eng.clone(), m: unsafe { &*(&eng.m as *const ir::Module) }, solver: solver::Solver::new(sh.clone()), executed: vec![false; nf], checks: BTreeMap::new(), covers: BTreeMap::new() };
            let mut st = State {
                mem: mem::Mem::new(&eng.m), threads: vec![Thread::new()], cur: 0, pc: vec![], known: BTreeMap::new(), vars: vec![], model: vec![], logs: vec![], covers: BTreeSet::new(), instrs: 0, forks: 0, preempt,
                pend: None, forced: false, tls: BTreeMap::new(), rand: 1, clock: 0, nkeys: 0, stderr: vec![], errno: 0, key_dtors: BTreeMap::new(), env: BTreeMap::new(),
            };
            if w.enter(&mut st, entry, &[], ir::NONE, None).is_err() { panic!("entry"); }
            eng.q.lock().unwrap().stack.push(st);
        }
        let hs: Vec<_> = (0..threads).map(|_| { let e = eng.clone(); std::thread::Builder::new().stack_size(512 << 20).spawn(move || e.worker()).unwrap() }).collect();
        for t in hs { t.join().unwrap(); }
        let el = eng.start.elapsed().as_secs_f64();
        let timed = eng.timed_out.load(Relaxed);
        let unsupported = eng.unsupported.lock().unwrap();
        let unknown = eng.unknown.load(Relaxed) + sh.unknown.load(Relaxed);
        let exhaustive = !timed && unsupported.is_empty() && eng.sampled.lock().unwrap().is_empty() && unknown == 0 && eng.budget.load(Relaxed) == 0;
        let fns: Vec<String> = eng.executed.lock().unwrap().iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| eng.m.fns[i].demangled.to_string()).collect();
        let pf: Vec<&String> = fns.iter().filter(|f| f.contains("paladin")).collect();
        if hi > 0 { json.push(','); }
        let _ = write!(json, "{{\"harness\":{},\"exhaustive\":{exhaustive},\"timed_out\":{timed},\"paths\":{},\"killed\":{},\"states\":{},\"instructions\":{},\"max_path_instructions\":{},\"max_vars\":{},\"secs\":{:.3},\"load_secs\":{:.3},\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_secs\":{:.3},\"max_query_secs\":{:.3},\"budget\":{},\"violations_total\":{},\"peak_queue\":{},\"preempt\":{preempt},",
            js(h), eng.paths.load(Relaxed), eng.killed.load(Relaxed), eng.states.load(Relaxed), eng.instrs.load(Relaxed), eng.max_path_instrs.load(Relaxed), eng.max_vars.load(Relaxed), el, load,
            sh.queries.load(Relaxed), sh.hits.load(Relaxed), sh.sat.load(Relaxed), sh.unsat.load(Relaxed), unknown, sh.nanos.load(Relaxed) as f64 / 1e9, sh.max_nanos.load(Relaxed) as f64 / 1e9, eng.budget.load(Relaxed), eng.nviol.load(Relaxed), eng.peak_queue.load(Relaxed));
        let sampled = eng.sampled.lock().unwrap().clone();
        let _ = write!(json, "\"sampled\":{{{}}},", sampled.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","));
        let _ = write!(json, "\"unsupported\":{{{}}},", unsupported.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","));
        let _ = write!(json, "\"checks\":{{{}}},", eng.checks.lock().unwrap().iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(","));
        let _ = write!(json, "\"covers\":{{{}}},", eng.covers.lock().unwrap().iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","));
        let _ = write!(json, "\"violations\":{},", arr(&eng.viol.lock().unwrap(), viol_json));
        let _ = write!(json, "\"budget_sample\":{},", eng.budget_sample.lock().unwrap().as_ref().map(viol_json).unwrap_or("null".into()));
        let _ = write!(json, "\"samples\":{},", arr(&eng.samples.lock().unwrap(), |(_, s)| format!("{{\"values\":{},\"labels\":{},\"logs\":{},\"covers\":{},\"threads\":{}}}", arr(&s.values, |x| x.to_string()), arr(&s.labels, |x| js(x)), arr(&s.logs, |(l, x)| format!("[{},{}]", js(l), x)), arr(&s.covers, |x| js(x)), s.threads)));
        let _ = write!(json, "\"functions_total\":{},\"functions\":{}}}", fns.len(), arr(&pf, |x| js(x)));
        eprintln!("engine: {h}: paths={} killed={} states={} instrs={} queries={} (hits {}) solver={:.1}s wall={el:.1}s exhaustive={exhaustive} violations={} unsupported={} budget={}", eng.paths.load(Relaxed), eng.killed.load(Relaxed), eng.states.load(Relaxed), eng.instrs.load(Relaxed), sh.queries.load(Relaxed), sh.hits.load(Relaxed), sh.nanos.load(Relaxed) as f64 / 1e9, eng.nviol.load(Relaxed), unsupported.len(), eng.budget.load(Relaxed));
        drop(unsupported);
        match Arc::try_unwrap(eng) { Ok(e) => m = Some(e.m), Err(_) => panic!("engine still shared") }
    }
    json.push_str("]}\n");
    match out { Some(p) => std::fs::write(p, json).unwrap(), None => print!("{json}") }
    std::process::exit(0);
}
