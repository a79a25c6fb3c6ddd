//! C15: retries.
use crate::util::*;
use paladin::operation::{FatalError, FatalStrategy, OperationError, Result, RetryStrategy, TransientError};
use std::num::NonZeroU32;
use std::sync::Mutex;

fn fatal() -> FatalStrategy { if (vh::decide(2, "ignore") == 1) { FatalStrategy::Ignore } else { FatalStrategy::Terminate } }
fn same(a: FatalStrategy, b: FatalStrategy) -> bool { matches!((a, b), (FatalStrategy::Ignore, FatalStrategy::Ignore) | (FatalStrategy::Terminate, FatalStrategy::Terminate)) }
/// An immediate or delayed strategy with up to `max` retries: (strategy, retries, delay in ms)
fn strategy(max: u32, huge: bool) -> (RetryStrategy, u32, u64) {
    let n = if huge && vh::bool("huge") { u32::MAX } else { 1 + vh::decide(max, "max retries") };
    let max_retries = NonZeroU32::new(n).unwrap();
    if (vh::decide(2, "after") == 1) {
        let ms = [0, 1, 250, 90_000][vh::decide(4, "duration") as usize];
        (RetryStrategy::After { max_retries, duration: Duration::from_millis(ms) }, n, ms)
    } else { (RetryStrategy::Immediate { max_retries }, n, 0) }
}
async fn ms() -> tokio::time::Instant { tokio::time::Instant::now() }

/// A future run under a strategy: number of runs, outcome, time and traced errors.
fn plain(max: u32, slow: bool) {
    let (s, n, d) = strategy(max, true);
    let fails = vh::decide(max + 2, "failures");
    let value = vh::u64("value");
    let runs = Arc::new(AtomicU32::new(0));
    let times: Arc<Mutex<Vec<tokio::time::Instant>>> = Default::default();
    let traced: Arc<Mutex<Vec<u32>>> = Default::default();
    let trace = vh::bool("trace");
    let r = run_with(|| { vh::fire_one(); }, 10_000_000, async {
        let f = || {
            let runs = runs.clone();
            let times = times.clone();
            async move {
                let k = runs.fetch_add(1, Ordering::SeqCst);
                times.lock().unwrap().push(ms().await);
                if slow { vh::event().await; }
                if k < fails { Err(k) } else { Ok(value) }
            }
        };
        if trace { let t = traced.clone(); s.retry_trace(f, move |e| t.lock().unwrap().push(e)).await } else { s.retry(f).await }
    });
    let Some(r) = r else { return vh::check(false, "retrying never ends") };
    let runs = runs.load(Ordering::SeqCst);
    let expect = if fails < 1 + n.min(1000) { fails + 1 } else { n + 1 };
    vh::check(runs >= fails.min(n) + 1, "a failure is not retried although retries are left");
    vh::check(runs <= expect, if fails < expect { "execution does not stop at the first success" } else { "more retries than configured" });
    match r {
        Ok(v) => { vh::check(fails < expect && v == value, "the value of the successful run is not returned"); vh::cover("success"); }
        Err(e) => { vh::check(fails >= expect, "an error is returned although a run succeeded"); vh::check(e == runs - 1, "the last error is not returned"); vh::cover("exhausted"); }
    }
    let times = times.lock().unwrap();
    for w in times.windows(2) { vh::check((w[1] - w[0]).as_millis() as u64 == d, "a retry does not wait the configured time"); }
    if trace {
        let t = traced.lock().unwrap();
        let upto = if fails >= expect { runs - 1 } else { fails };
        vh::check(t.len() as u32 == upto && t.iter().enumerate().all(|(i, e)| *e == i as u32), "the retried errors are not reported in order");
    }
}
fn error(kind: u32, k: u32, s: RetryStrategy, f: FatalStrategy) -> OperationError {
    let m = format!("boom-{k}");
    if kind == 0 { TransientError::from_str(&m, s, f).into() } else { FatalError::from_str(&m, f).into() }
}
/// Retrying an operation error.
fn of_error(max: u32) {
    let (s, n, d) = strategy(max, false);
    let f = fatal();
    let f2 = fatal();
    let fails = vh::decide(max + 3, "failures");
    let value = vh::u64("value");
    let runs = Arc::new(AtomicU32::new(0));
    let is_fatal = (vh::decide(2, "fatal") == 1);
    // what later runs fail with must not change the strategy being followed
    let later = RetryStrategy::Immediate { max_retries: NonZeroU32::new(7).unwrap() };
    let start = error(is_fatal as u32, 100, s, f);
    let r = run_with(|| {}, 10_000_000, async {
        let t0 = ms().await;
        let f = || { let k = runs.fetch_add(1, Ordering::SeqCst); async move { if k < fails { Err(error(0, k, later, f2)) } else { Ok(value) } } };
        let r: Result<u64> = if vh::bool("trace") { start.retry_trace(f, |_| {}).await } else { start.retry(f).await };
        (r, (ms().await - t0).as_millis() as u64)
    });
    let Some((r, t)) = r else { return vh::check(false, "retrying never ends") };
    let runs = runs.load(Ordering::SeqCst);
    if is_fatal {
        vh::check(runs == 0, "a fatal error is retried");
        vh::check(matches!(&r, Err(e @ OperationError::Fatal { err, strategy }) if same(*strategy, f) && same(e.fatal_strategy(), f) && err.to_string() == "boom-100"), "a fatal error is not returned as it is");
        vh::cover("fatal");
        return;
    }
    let expect = fails.min(n) + 1;
    vh::check(runs <= expect, if fails < n + 1 { "execution does not stop at the first success" } else { "more retries than configured" });
    vh::check(runs >= expect, "a failure is not retried although retries are left");
    vh::check(t == d * (runs as u64 - 1), "a retry does not wait the configured time");
    match r {
        Ok(v) => { vh::check(fails <= n && v == value, "the value of the successful run is not returned"); vh::cover("success"); }
        Err(OperationError::Fatal { err, strategy }) => {
            vh::check(fails > n, "an error is returned although a run succeeded");
            vh::check(err.to_string() == format!("boom-{}", runs - 1), "the last error is not returned");
            vh::check(same(strategy, f), "the exhausted error does not carry the fatal strategy of the error being retried");
            vh::cover("exhausted");
        }
        Err(_) => vh::check(false, "an exhausted error is not fatal"),
    }
}
/// Exponential backoff: stops at the first success, waits at least something, gives up after the maximum time.
fn exponential() {
    let fails = vh::decide(4, "failures");
    let value = vh::u64("value");
    let runs = Arc::new(AtomicU32::new(0));
    let give_up = vh::bool("short");
    let s = if give_up { RetryStrategy::Exponential { min_duration: Duration::from_secs(60), max_duration: Duration::from_millis(1) } } else { RetryStrategy::Exponential { min_duration: Duration::from_millis(100), max_duration: Duration::from_secs(100_000) } };
    let f = fatal();
    let r = run_with(|| {}, 10_000_000, async {
        let t0 = ms().await;
        let r: Result<u64> = error(0, 100, s, f).retry(|| { let k = runs.fetch_add(1, Ordering::SeqCst); async move { if k < fails { Err(error(0, k, s, f)) } else { Ok(value) } } }).await;
        (r, (ms().await - t0).as_millis() as u64)
    });
    let Some((r, t)) = r else { return vh::check(false, "retrying never ends") };
    let runs = runs.load(Ordering::SeqCst);
    if give_up && fails > 0 {
        vh::check(runs == 1, "a run is retried although its maximum time does not allow it");
        vh::check(matches!(r, Err(OperationError::Fatal { err, strategy }) if err.to_string() == "boom-0" && same(strategy, f)), "the last error is not returned");
        vh::cover("exhausted");
    } else {
        vh::check(runs == fails + 1, "execution does not stop at the first success");
        vh::check(matches!(r, Ok(v) if v == value), "the value of the successful run is not returned");
        // the interval is at least half of the minimum (randomisation) and grows
        vh::check(t >= 50 * fails as u64, "a retry does not wait the configured time");
        vh::cover("success");
    }
}

/// Exponential backoff of runs that take time, all of which fail: the time they take counts.
fn exponential_slow() {
    let (ms, expect) = [(300, 4), (450, 3), (600, 2), (5_000, 1)][vh::decide(4, "duration of a run") as usize];
    let s = RetryStrategy::Exponential { min_duration: Duration::from_millis(1), max_duration: Duration::from_secs(1) };
    let f = fatal();
    let runs = Arc::new(AtomicU32::new(0));
    let how = vh::decide(3, "how");
    let r = run_with(|| {}, 10_000_000, async {
        let f2 = || { let k = runs.fetch_add(1, Ordering::SeqCst); vh::advance(ms * 1_000_000); async move { Err::<u64, _>(error(0, k, s, f)) } };
        match how { 0 => s.retry(f2).await, 1 => s.retry_trace(f2, |_| {}).await, _ => error(0, 100, s, f).retry(f2).await }
    });
    let Some(r) = r else { return vh::check(false, "retrying never ends") };
    let runs = runs.load(Ordering::SeqCst);
    vh::check(runs >= expect, "a run is not retried although its maximum time allows it");
    vh::check(runs <= expect, "a run is retried although its maximum time does not allow it");
    vh::check(r.is_err_and(|e| e.as_err().to_string() == format!("boom-{}", runs - 1)), "the last error is not returned");
    vh::cover("exhausted");
}

// ------------------------------------------------------------------ a worker executing a failing operation
static RUNS: AtomicU32 = AtomicU32::new(0);
#[derive(serde::Serialize, serde::Deserialize, RemoteExecute)]
struct Flaky { fails: u32, max: u32, delay: u64, ignore: bool, fatal_at: u32 }
impl Operation for Flaky {
    type Input = u64;
    type Output = u64;
    fn execute(&self, x: u64, _: AbortSignal) -> Result<u64> {
        let k = RUNS.fetch_add(1, Ordering::SeqCst);
        let f = if self.ignore { FatalStrategy::Ignore } else { FatalStrategy::Terminate };
        if k == self.fatal_at { return FatalError::from_str(&format!("boom-{k}"), f).into(); }
        if k < self.fails {
            let max_retries = NonZeroU32::new(self.max).unwrap();
            let s = if self.delay > 0 { RetryStrategy::After { max_retries, duration: Duration::from_millis(self.delay) } } else { RetryStrategy::Immediate { max_retries } };
            return TransientError::from_str(&format!("boom-{k}"), s, f).into();
        }
        Ok(x.wrapping_add(1))
    }
}
fn remote() {
    use paladin::task::Task;
    let max = 1 + vh::decide(3, "max retries");
    let fails = vh::decide(max + 3, "failures");
    let fatal_first = (vh::decide(2, "fatal") == 1);
    let op = Flaky { fails, max, delay: if (vh::decide(2, "after") == 1) { 20 } else { 0 }, ignore: (vh::decide(2, "ignore") == 1), fatal_at: if fatal_first { 0 } else { 99 } };
    let x = vh::u64("x");
    let r = run(async {
        let t = Task { routing_key: "k".into(), metadata: 1u8, op: &op, input: x }.as_any_task(Default::default()).unwrap();
        let t0 = ms().await;
        let r = t.remote_execute(None).await;
        (r, (ms().await - t0).as_millis() as u64)
    });
    let Some((r, t)) = r else { return vh::check(false, "retrying never ends") };
    let runs = RUNS.load(Ordering::SeqCst);
    if fatal_first {
        vh::check(runs == 1, "a fatal error is retried");
        vh::check(matches!(r, Err(e) if err_text(&e) == "boom-0" && same(e.fatal_strategy(), if op.ignore { FatalStrategy::Ignore } else { FatalStrategy::Terminate })), "a fatal error is not returned as it is");
        vh::cover("fatal");
        return;
    }
    // the failed run, the run that retries it, and as many retries of that as configured
    let expect = fails.min(max + 1) + 1;
    vh::check(runs <= expect, if fails < max + 2 { "execution does not stop at the first success" } else { "more retries than configured" });
    vh::check(runs >= expect, "a failure is not retried although retries are left");
    vh::check(t == op.delay * (runs as u64).saturating_sub(2), "a retry does not wait the configured time");
    match r {
        Ok(o) => { vh::check(fails < max + 2, "the value of the successful run is not returned"); let v: u64 = o.serializer.from_bytes(&o.output).unwrap(); vh::check(v == x.wrapping_add(1), "the value of the successful run is not returned"); vh::cover("success"); }
        Err(e) => {
            vh::check(fails >= max + 2, "an error is returned although a run succeeded");
            vh::check(matches!(&e, OperationError::Fatal { .. }) && err_text(&e) == format!("boom-{}", runs - 1), "the last error is not returned");
            vh::check(same(e.fatal_strategy(), if op.ignore { FatalStrategy::Ignore } else { FatalStrategy::Terminate }), "the exhausted error does not carry the fatal strategy of the error being retried");
            vh::cover("exhausted");
        }
    }
}
fn err_text(e: &OperationError) -> String { e.as_err().to_string() }

harness! {
    retry_plain { plain(3, false) }
    retry_plain6 { plain(6, false) }
    retry_slow { plain(3, true) }
    retry_error { of_error(3) }
    retry_error6 { of_error(6) }
    retry_exponential { exponential() }
    retry_exponential_slow { exponential_slow() }
    retry_remote { remote() }
}
