//! External functions: engine intrinsics (vh_*) and the C library surface that std uses.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;

pub enum Ret { Val(V), #[allow(dead_code)] Call(u32, Vec<V>), Jumped, Block, Exit }

macro_rules! exts { ($($id:ident = $name:expr),* $(,)?) => {
    #[derive(Clone, Copy, PartialEq, Debug)]
    pub enum Ext { None, Unknown, $($id),* }
    pub fn lookup(name: &str) -> Ext { match name { $($name => Ext::$id,)* _ => Ext::Unknown } }
} }
exts! {
    Sym = "vh_sym", Choice = "vh_choice", Assume = "vh_assume", Check = "vh_check", Cover = "vh_cover", Log = "vh_log", IsSym = "vh_is_symbolic", Concrete = "vh_concrete", Region = "vh_region", Advance = "vh_advance", Live = "vh_live", Dlsym = "dlsym",
    Malloc = "malloc", Calloc = "calloc", Realloc = "realloc", Free = "free", Memalign = "posix_memalign",
    Memcmp = "memcmp", Bcmp = "bcmp", Strlen = "strlen",
    Getenv = "getenv", Setenv = "setenv", Unsetenv = "unsetenv", Clock = "clock_gettime", ClockSleep = "clock_nanosleep", Nanosleep = "nanosleep", Getrandom = "getrandom", Syscall = "syscall", Sysconf = "sysconf", Affinity = "sched_getaffinity", Yield = "sched_yield",
    Errno = "__errno_location", Write = "write", Writev = "writev", Abort = "abort", ExitF = "exit",
    Raise = "_Unwind_RaiseException", DeleteExc = "_Unwind_DeleteException", Backtrace = "_Unwind_Backtrace",
    Atexit = "__cxa_thread_atexit_impl", Gettid = "gettid", KeyCreate = "pthread_key_create", KeyDelete = "pthread_key_delete", SetSpecific = "pthread_setspecific", GetSpecific = "pthread_getspecific",
    Create = "pthread_create", Join = "pthread_join", Detach = "pthread_detach", SelfF = "pthread_self", AttrInit = "pthread_attr_init", AttrDestroy = "pthread_attr_destroy", AttrStack = "pthread_attr_setstacksize", SetName = "pthread_setname_np",
    Atfork = "pthread_atfork", DlIter = "dl_iterate_phdr", MLock = "pthread_mutex_lock", MUnlock = "pthread_mutex_unlock", Getcwd = "getcwd", Open64 = "open64", Open = "open", Stat = "stat64", 
}
pub fn intercept(_name: &str, _demangled: &str) -> Ext { Ext::None }

pub fn next_rand(x: &mut u64) -> u8 { *x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (*x >> 56) as u8 }

impl Worker {
    fn strlen(&mut self, st: &mut State, p: u64) -> X<u64> {
        let mut n = 0;
        loop {
            let b = st.mem.byte(self.m, p + n);
            let zero = match self.me(b)? { V::S(e) => self.decide(st, &bin(Op::Eq, &e, &cst(0, 8))), b => b.con() == Some(0) };
            if zero { return Ok(n); }
            n += 1;
        }
    }
    fn label_arg(&mut self, st: &mut State, p: &V, n: &V) -> X<String> {
        let (p, n) = (self.concretize(st, p)?, self.concretize(st, n)?);
        Ok(st.mem.bytes(self.m, p, n).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default())
    }
    fn errno(&mut self, st: &mut State) -> u64 {
        let key = (st.cur as u32, u64::MAX);
        if let Some(a) = st.tls.get(&key) { return *a; }
        let a = st.mem.alloc(4, false);
        st.tls.insert(key, a);
        a
    }
    fn heap(&mut self, st: &mut State, n: u64) -> X<V> {
        if n > 1 << 28 { return Ok(V::I(0)); }
        Ok(V::I(st.mem.alloc(n, true)))
    }
    fn fill_random(&mut self, st: &mut State, p: u64, n: u64) -> X<()> {
        let mut r = st.rand;
        let b: Vec<u8> = (0..n).map(|_| next_rand(&mut r)).collect();
        st.rand = r;
        let r = st.mem.write_bytes(p, &b);
        self.me(r)
    }

    pub fn external(&mut self, st: &mut State, k: Ext, id: u32, a: &[V], inv: Option<(u32, u32)>) -> X<Ret> {
        macro_rules! c { ($i:expr) => { self.concretize(st, &a[$i])? } }
        macro_rules! val { ($x:expr) => { Ok(Ret::Val(V::I($x as u64))) } }
        let m = self.m;
        match k {
            Ext::None | Ext::Unknown => Err(Stop::Unsupported(format!("external function {}", m.fns[id as usize].name))),
            Ext::Sym => {
                let w = c!(0) as u32;
                let l = self.label_arg(st, &a[1], &a[2])?;
                let v = self.new_var(st, w, &l);
                Ok(Ret::Val(V::of(zext(&v, 64))))
            }
            Ext::Choice => {
                let n = c!(0);
                if n <= 1 { return val!(0); }
                let l = self.label_arg(st, &a[1], &a[2])?;
                let v = self.new_choice(st, n, &l);
                Ok(Ret::Val(V::of(zext(&v, 32))))
            }
            Ext::Assume => {
                let cond = not1(&bin(Op::Eq, &a[0].to_e(32), &cst(0, 32)));
                match cond.c() {
                    Some(1) => return val!(0),
                    Some(_) => return Err(Stop::Killed),
                    None => {}
                }
                if self.mval(st, &cond) != 1 {
                    match self.possible(st, &cond) { Some(md) => st.model = md, None => return Err(Stop::Killed) }
                }
                crate::exec::assume(st, cond);
                val!(0)
            }
            Ext::Check => {
                let l = self.label_arg(st, &a[1], &a[2])?;
                let li = self.eng.label(&l);
                let cond = not1(&bin(Op::Eq, &a[0].to_e(32), &cst(0, 32)));
                let e = self.checks.entry(li).or_default();
                match cond.c() {
                    Some(1) => { e.0 += 1; return val!(0); }
                    Some(_) => { e.0 += 1; return self.fail("check", l); }
                    None => e.1 += 1,
                }
                let neg = not1(&cond);
                if self.mval(st, &cond) != 1 {
                    // violated under the current model
                    let v = self.violation(st, "check".into(), l);
                    self.report(v);
                    match self.possible(st, &cond) { Some(md) => st.model = md, None => return Err(Stop::Killed) }
                    crate::exec::assume(st, cond);
                } else if let Some(md) = self.possible(st, &neg) {
                    let keep = std::mem::replace(&mut st.model, md);
                    let v = self.violation(st, "check".into(), l);
                    self.report(v);
                    st.model = keep;
                    crate::exec::assume(st, cond);
                }
                val!(0)
            }
            Ext::Region => { let on = c!(0) != 0; let cur = st.cur; st.threads[cur].region = on; val!(0) }
            Ext::Cover => { let l = self.label_arg(st, &a[0], &a[1])?; st.covers.insert(self.eng.label(&l)); val!(0) }
            Ext::Log => { let l = self.label_arg(st, &a[0], &a[1])?; let i = self.eng.label(&l); st.logs.push((i, a[2].clone())); val!(0) }
            Ext::Concrete => val!(c!(0)),
            Ext::IsSym => val!(a[0].con().is_none()),

            Ext::Malloc => { let n = c!(0); Ok(Ret::Val(self.heap(st, n)?)) }
            Ext::Calloc => { let n = c!(0); let k = c!(1); Ok(Ret::Val(self.heap(st, n.saturating_mul(k))?)) }
            Ext::Memalign => { let n = c!(2); let p = self.heap(st, n)?; let o = c!(0); let r = st.mem.store(o, 8, 64, &p); self.me(r)?; val!(if p.con() == Some(0) { 12 } else { 0 }) }
            Ext::Realloc => {
                let p = c!(0);
                let n = c!(1);
                if p == 0 { return Ok(Ret::Val(self.heap(st, n)?)); }
                let Some(old) = st.mem.size_of(p) else { return self.fail("memory", "realloc of an invalid pointer") };
                let q = self.heap(st, n)?;
                let q = q.con().unwrap() as u64;
                if q == 0 { return val!(0); }
                let r = st.mem.copy(m, q, p, old.min(n));
                self.me(r)?;
                let r = st.mem.free(p);
                self.me(r)?;
                val!(q)
            }
            Ext::Free => { let p = c!(0); if p != 0 { let r = st.mem.free(p); self.me(r)?; } val!(0) }
            Ext::Memcmp | Ext::Bcmp => {
                let n = c!(2);
                let (p, q) = (c!(0), c!(1));
                let mut r = cst(0, 32);
                let mut pairs = vec![];
                for i in 0..n { let x = st.mem.byte(m, p + i); let x = self.me(x)?; let y = st.mem.byte(m, q + i); let y = self.me(y)?; pairs.push((x, y)); }
                // from the last byte backwards; concrete difference decides everything behind it
                for (x, y) in pairs.iter().rev() {
                    match (x.con(), y.con()) {
                        (Some(x), Some(y)) => if x != y { r = cst(if k == Ext::Bcmp || x > y { 1 } else { 0xffff_ffff }, 32); },
                        _ => {
                            let (x, y) = (x.to_e(8), y.to_e(8));
                            let d = if k == Ext::Bcmp { cst(1, 32) } else { ite(&bin(Op::Ult, &x, &y), &cst(0xffff_ffff, 32), &cst(1, 32)) };
                            r = ite(&bin(Op::Eq, &x, &y), &r, &d);
                        }
                    }
                }
                Ok(Ret::Val(V::of(r)))
            }
            Ext::Strlen => { let p = c!(0); let n = self.strlen(st, p)?; val!(n) }
            Ext::Getenv => { let p = c!(0); let n = self.strlen(st, p)?; let k = st.mem.bytes(m, p, n); let k = self.me(k)?; val!(st.env.get(&k).copied().unwrap_or(0)) }
            Ext::Unsetenv => { let p = c!(0); let n = self.strlen(st, p)?; let k = st.mem.bytes(m, p, n); let k = self.me(k)?; st.env.remove(&k); val!(0) }
            Ext::Setenv => {
                let (p, v, over) = (c!(0), c!(1), c!(2));
                let (n, l) = (self.strlen(st, p)?, self.strlen(st, v)?);
                let k = st.mem.bytes(m, p, n);
                let k = self.me(k)?;
                if over != 0 || !st.env.contains_key(&k) {
                    let q = st.mem.alloc(l + 1, false);
                    let r = st.mem.copy(m, q, v, l);
                    self.me(r)?;
                    st.env.insert(k, q);
                }
                val!(0)
            }
            Ext::Getcwd => val!(0),
            Ext::Advance => { let n = c!(0); st.clock += n; val!(0) }
            Ext::Live => val!(st.mem.live),
            Ext::Clock => {
                st.clock += 1000;
                let t = st.clock;
                let p = c!(1);
                let r = st.mem.store(p, 8, 64, &V::I(1_000_000 + t / 1_000_000_000));
                self.me(r)?;
                let r = st.mem.store(p + 8, 8, 64, &V::I(t % 1_000_000_000));
                self.me(r)?;
                val!(0)
            }
            Ext::ClockSleep | Ext::Nanosleep => {
                let (abs, p) = if k == Ext::Nanosleep { (false, c!(0)) } else { (c!(1) & 1 == 1, c!(2)) };
                let r = st.mem.load(self.m, p, 8, 64); let s = self.me(r)?;
                let r = st.mem.load(self.m, p + 8, 8, 64); let n = self.me(r)?;
                let (s, n) = (self.concretize(st, &s)?, self.concretize(st, &n)?);
                let t = if abs { s.saturating_sub(1_000_000) } else { s }.saturating_mul(1_000_000_000).saturating_add(n);
                st.clock = if abs { st.clock.max(t) } else { st.clock.saturating_add(t) };
                val!(0)
            }
            // no files
            Ext::Open64 | Ext::Open | Ext::Stat => { let e = self.errno(st); let r = st.mem.store(e, 4, 32, &V::I(2)); self.me(r)?; val!(0xffff_ffffu64) }
            Ext::Getrandom => { let (p, n) = (c!(0), c!(1)); self.fill_random(st, p, n)?; val!(n) }
            Ext::Sysconf => val!(match c!(0) { 30 => 4096, 84 => 4, _ => -1i64 as u64 }),
            Ext::Affinity => { let e = self.errno(st); let r = st.mem.store(e, 4, 32, &V::I(38)); self.me(r)?; val!(0xffff_ffffu64) }
            Ext::Yield => { if self.others_runnable(st) { st.forced = true; } val!(0) }
            Ext::Errno => { let e = self.errno(st); val!(e) }
            Ext::Write => { let (fd, p, n) = (c!(0), c!(1), c!(2)); let b = st.mem.bytes(m, p, n); let b = self.me(b)?; out(st, fd, &b); val!(n) }
            Ext::Writev => {
                let (fd, p, n) = (c!(0), c!(1), c!(2));
                let mut tot = 0;
                for i in 0..n {
                    let q = st.mem.load(m, p + 16 * i, 8, 64); let q = self.me(q)?.con().unwrap_or(0) as u64;
                    let l = st.mem.load(m, p + 16 * i + 8, 8, 64); let l = self.me(l)?.con().unwrap_or(0) as u64;
                    let b = st.mem.bytes(m, q, l); let b = self.me(b)?;
                    out(st, fd, &b);
                    tot += l;
                }
                val!(tot)
            }
            Ext::Abort => self.fail("panic", format!("abort: {}", last_lines(&st.stderr))),
            Ext::ExitF => Ok(Ret::Exit),
            Ext::Raise => { let e = c!(0); self.unwind(st, e, inv)?; Ok(Ret::Jumped) }
            Ext::DeleteExc => val!(0),
            Ext::Backtrace => val!(5),
            Ext::Atexit => { let (f, o) = (c!(0), c!(1)); let cur = st.cur; st.threads[cur].dtors.push((f, o)); val!(0) }
            Ext::Gettid => val!(st.cur + 1),
            Ext::KeyCreate => {
                st.nkeys += 1;
                let k = st.nkeys;
                let p = c!(0);
                let d = c!(1);
                st.key_dtors.insert(k, d);
                let r = st.mem.store(p, 4, 32, &V::I(k));
                self.me(r)?;
                val!(0)
            }
            Ext::KeyDelete => val!(0),
            Ext::SetSpecific => { let (k, v) = (c!(0), c!(1)); let cur = st.cur; st.threads[cur].keys.insert(k, v); val!(0) }
            Ext::GetSpecific => { let k = c!(0); val!(st.threads[st.cur].keys.get(&k).copied().unwrap_or(0)) }
            Ext::Create => {
                let (out, f, arg) = (c!(0), c!(2), c!(3));
                let n = st.threads.len();
                st.threads.push(Thread::new());
                let r = st.mem.store(out, 8, 64, &V::I(n as u64 + 1));
                self.me(r)?;
                let cur = st.cur;
                st.cur = n;
                let r = self.call_ptr(st, f, &[V::I(arg)]);
                st.cur = cur;
                r?;
                val!(0)
            }
            Ext::Join => {
                let j = c!(0) as usize - 1;
                if st.threads[j].status == Status::Done { val!(0) } else { self.block(st, Status::Join(j)); Ok(Ret::Block) }
            }
            Ext::SelfF => val!(st.cur + 1),
            Ext::Detach | Ext::Dlsym | Ext::AttrInit | Ext::AttrDestroy | Ext::AttrStack | Ext::SetName | Ext::Atfork | Ext::DlIter | Ext::MLock | Ext::MUnlock => val!(0),
            Ext::Syscall => {
                let n = c!(0);
                match n {
                    186 => val!(st.cur + 1),
                    318 => { let (p, n) = (c!(1), c!(2)); self.fill_random(st, p, n)?; val!(n) }
                    202 => {
                        let (addr, op, v) = (c!(1), c!(2) & 0x7f, c!(3) & 0xffff_ffff);
                        match op {
                            0 | 9 => { // FUTEX_WAIT, FUTEX_WAIT_BITSET
                                let cur = st.cur;
                                if let Some(r) = st.threads[cur].futex_ret.take() {
                                    if r < 0 { let e = self.errno(st); let r = st.mem.store(e, 4, 32, &V::I(110)); self.me(r)?; return val!(-1i64); }
                                    return val!(0);
                                }
                                let x = st.mem.load(m, addr, 4, 32);
                                let x = self.me(x)?;
                                let x = self.concretize(st, &x)?;
                                if x != v { let e = self.errno(st); let r = st.mem.store(e, 4, 32, &V::I(11)); self.me(r)?; return val!(-1i64); }
                                let timed = c!(4) != 0;
                                self.block(st, Status::Futex { addr, timed, woken: false });
                                Ok(Ret::Block)
                            }
                            1 | 10 => { // FUTEX_WAKE
                                let mut k = 0;
                                for t in st.threads.iter_mut() {
                                    if k >= v { break; }
                                    if let Status::Futex { addr: a2, woken, .. } = &mut t.status { if *a2 == addr && !*woken { *woken = true; k += 1; } }
                                }
                                val!(k)
                            }
                            _ => Err(Stop::Unsupported(format!("futex operation {op}"))),
                        }
                    }
                    _ => Err(Stop::Unsupported(format!("system call {n}"))),
                }
            }
        }
    }
}
fn out(st: &mut State, fd: u64, b: &[u8]) {
    if fd == 2 && st.stderr.len() < 4000 { st.stderr.extend_from_slice(b); }
}
