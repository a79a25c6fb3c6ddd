//! Interface between the harnesses (and environment models) and the symbolic executor.
//! The `vh_*` externs are intercepted by the engine; natively they are implemented in vh.c,
//! which takes the values from a replay file.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU32, AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

extern "C" {
    fn vh_sym(bits: u32, label: *const u8, len: usize) -> u64;
    fn vh_choice(n: u32, label: *const u8, len: usize) -> u32;
    fn vh_assume(c: u32);
    fn vh_check(c: u32, label: *const u8, len: usize);
    fn vh_cover(label: *const u8, len: usize);
    fn vh_log(label: *const u8, len: usize, v: u64);
    fn vh_is_symbolic(v: u64) -> u32;
    fn vh_concrete(v: u64) -> u64;
    fn vh_region(on: u32);
    fn vh_advance(ns: u64);
    fn vh_live() -> u64;
}

pub fn u8(label: &str) -> u8 { unsafe { vh_sym(8, label.as_ptr(), label.len()) as u8 } }
pub fn u16(label: &str) -> u16 { unsafe { vh_sym(16, label.as_ptr(), label.len()) as u16 } }
pub fn u32(label: &str) -> u32 { unsafe { vh_sym(32, label.as_ptr(), label.len()) as u32 } }
pub fn u64(label: &str) -> u64 { unsafe { vh_sym(64, label.as_ptr(), label.len()) } }
pub fn bool(label: &str) -> bool { choice(2, label) == 1 }
/// A value in 0..n, decided by the explorer (all values are explored).
pub fn choice(n: u32, label: &str) -> u32 {
    if n <= 1 { return 0; }
    unsafe { vh_choice(n, label.as_ptr(), label.len()) }
}
/// The same, with one path for each value instead of a symbolic one (for table lookups, lengths and the like).
pub fn decide(n: u32, label: &str) -> u32 { let v = choice(n, label); unsafe { vh_concrete(v as u64) as u32 } }
pub fn concrete(v: u64) -> u64 { unsafe { vh_concrete(v) } }
/// Let the system clock (`std::time`) advance; the virtual time of the executor is separate.
pub fn advance(ns: u64) { unsafe { vh_advance(ns) } }
/// How much heap memory is in use (objects in the engine, bytes natively): only whether it grows means anything.
pub fn live() -> u64 { unsafe { vh_live() } }
/// Run `f` such that the thread may be preempted before any of its atomic operations.
pub fn preemptible<T>(f: impl FnOnce() -> T) -> T { unsafe { vh_region(1) }; let r = f(); unsafe { vh_region(0) }; r }
pub fn assume(c: bool) { unsafe { vh_assume(c as u32) } }
#[inline(always)]
pub fn check(c: bool, label: &str) { unsafe { vh_check(c as u32, label.as_ptr(), label.len()) } }
/// Reachability witness: the check only counts if every cover point it names is reached on some path.
pub fn cover(label: &str) { unsafe { vh_cover(label.as_ptr(), label.len()) } }
/// Observation, compared between the engine and native replays.
pub fn log(label: &str, v: u64) { unsafe { vh_log(label.as_ptr(), label.len(), v) } }
pub fn is_symbolic(v: u64) -> bool { unsafe { vh_is_symbolic(v) != 0 } }

// ---------------------------------------------------------------- environment events

struct Ev { id: u32, prio: u32, fired: Arc<AtomicBool>, waker: Option<Waker> }
static EVENTS: Mutex<Vec<Ev>> = Mutex::new(Vec::new());
static NEXT: AtomicU32 = AtomicU32::new(0);
static DELAYS: AtomicU32 = AtomicU32::new(0);
static EAGER: AtomicU32 = AtomicU32::new(0);
static RNG: AtomicU32 = AtomicU32::new(0);
static FIRED: AtomicU32 = AtomicU32::new(0);

/// A future that completes when the environment decides so: whenever nothing is runnable, one of the
/// pending events is chosen (symbolically) and completed.
pub struct Event { id: u32, prio: u32, fired: Arc<AtomicBool>, registered: bool }
pub fn event() -> Event { event_prio(0) }
/// Events with a higher prio value only fire when no event with a lower one is pending.
pub fn event_prio(prio: u32) -> Event {
    Event { id: NEXT.fetch_add(1, Ordering::SeqCst), prio, fired: Arc::new(AtomicBool::new(false)), registered: false }
}
impl Future for Event {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.fired.load(Ordering::SeqCst) { return Poll::Ready(()); }
        let mut evs = EVENTS.lock().unwrap();
        if !self.registered {
            evs.push(Ev { id: self.id, prio: self.prio, fired: self.fired.clone(), waker: Some(cx.waker().clone()) });
            drop(evs);
            self.registered = true;
        } else {
            for e in evs.iter_mut() { if e.id == self.id { e.waker = Some(cx.waker().clone()); } }
        }
        Poll::Pending
    }
}
impl Drop for Event {
    fn drop(&mut self) {
        if self.registered {
            let id = self.id;
            let removed = { let mut evs = EVENTS.lock().unwrap();
                evs.iter().position(|e| e.id == id).map(|i| evs.remove(i)) };
            drop(removed);
        }
    }
}
pub fn pending_events() -> usize { EVENTS.lock().unwrap().len() }
pub fn events_fired() -> u32 { FIRED.load(Ordering::SeqCst) }
/// Complete one pending event; false if there is none.
pub fn fire_one() -> bool {
    let ev = {
        let mut evs = EVENTS.lock().unwrap();
        if evs.is_empty() { return false; }
        let min = evs.iter().map(|e| e.prio).min().unwrap();
        let n = evs.iter().filter(|e| e.prio == min).count();
        let k = choice(n as u32, "event") as usize;
        let idx = evs.iter().enumerate().filter(|(_, e)| e.prio == min).nth(k).unwrap().0;
        evs.remove(idx)
    };
    FIRED.fetch_add(1, Ordering::SeqCst);
    ev.fired.store(true, Ordering::SeqCst);
    if let Some(w) = ev.waker { w.wake(); }
    true
}
/// Allow the scheduler to deviate from FIFO order `n` times on a path.
pub fn set_delays(n: u32) { DELAYS.store(n, Ordering::SeqCst); }
/// Called by the patched scheduler: index of the runnable task to run next.
pub fn pick(len: usize) -> usize {
    if len < 2 { return 0; }
    let d = DELAYS.load(Ordering::SeqCst);
    if d == 0 { return 0; }
    let k = choice(len.min(4) as u32, "task") as usize;
    if k != 0 { DELAYS.store(d - 1, Ordering::SeqCst); }
    k
}
/// Allow up to `n` events to fire while tasks are still runnable (see `util::run`).
pub fn set_eager(n: u32) { EAGER.store(n, Ordering::SeqCst); }
pub fn eager() -> u32 { EAGER.load(Ordering::SeqCst) }
/// Start offset used by `tokio::select!` (fixed for a path, chosen by the harness).
pub fn set_rng(v: u32) { RNG.store(v, Ordering::SeqCst); }
pub fn rng(n: u32) -> u32 { if n == 0 { 0 } else { RNG.load(Ordering::SeqCst) % n } }
