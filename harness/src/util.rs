#[allow(unused_imports)]
pub use std::future::Future;
#[allow(unused_imports)]
pub use std::pin::Pin;
#[allow(unused_imports)]
pub use std::sync::atomic::{AtomicU32, AtomicBool, Ordering};
#[allow(unused_imports)]
pub use std::sync::Arc;
#[allow(unused_imports)]
pub use std::task::{Context, Poll, Wake, Waker};
#[allow(unused_imports)]
pub use std::time::Duration;
#[allow(unused_imports)]
pub use futures::{FutureExt, Stream, StreamExt, TryStreamExt, SinkExt};
#[allow(unused_imports)]
pub use paladin::{operation::Operation, RemoteExecute, AbortSignal};

/// Run `f` on the deterministic executor. `None`: it did not complete although the environment completed
/// everything it was asked to and virtual time advanced far beyond every timer of the code under test.
pub fn run<F: Future>(f: F) -> Option<F::Output> { run_with(|| { vh::fire_one(); }, 300, f) }

pub fn run_with<F: Future>(park: impl Fn() + Send + Sync + 'static, secs: u64, f: F) -> Option<F::Output> {
    let rt = executor_with(park);
    let r = rt.block_on(async move {
        let n = vh::eager();
        if n > 0 {
            tokio::spawn(async move {
                let mut left = n;
                for _ in 0..4 * n + 8 {
                    if vh::pending_events() > 0 && vh::choice(2, "eager") == 1 { vh::fire_one(); left -= 1; if left == 0 { break; } }
                    tokio::task::yield_now().await;
                }
            });
        }
        tokio::time::timeout(Duration::from_secs(secs), OnlyWoken::new(f)).await.ok()
    });
    drop(rt);
    r
}

#[allow(dead_code)]
pub fn executor() -> tokio::runtime::Runtime { executor_with(|| { vh::fire_one(); }) }

fn executor_with(park: impl Fn() + Send + Sync + 'static) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .event_interval(100_000)
        .on_thread_park(park)
        .build()
        .unwrap()
}

/// Polls `f` only when `f` itself asked for it: the surrounding timeout must not rescue a lost wake-up.
pub struct OnlyWoken<F> { f: Pin<Box<F>>, own: Arc<OwnWaker> }
struct OwnWaker { woken: AtomicBool, outer: std::sync::Mutex<Option<Waker>> }
impl Wake for OwnWaker {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
        let w = self.outer.lock().unwrap().clone();
        if let Some(w) = w { w.wake(); }
    }
}
impl<F: Future> OnlyWoken<F> {
    pub fn new(f: F) -> Self { OnlyWoken { f: Box::pin(f), own: Arc::new(OwnWaker { woken: AtomicBool::new(true), outer: Default::default() }) } }
}
impl<F: Future> Future for OnlyWoken<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        *self.own.outer.lock().unwrap() = Some(cx.waker().clone());
        if !self.own.woken.swap(false, Ordering::SeqCst) { return Poll::Pending; }
        let w = Waker::from(self.own.clone());
        self.f.as_mut().poll(&mut Context::from_waker(&w))
    }
}

/// Poll `f` until nothing is runnable any more (the executor went idle `n` times).
pub async fn settle() {
    // Virtual time only advances when nothing else is runnable and no event is left to fire.
    tokio::time::sleep(Duration::from_millis(1)).await;
}

/// Let `n` seconds pass, on the executor's clock and on the system clock alike.
pub async fn seconds(n: u32) {
    for _ in 0..n { tokio::time::sleep(Duration::from_secs(1)).await; vh::advance(1_000_000_000); }
}

/// Watches the heap over many repetitions of the same thing: caches fill up and garbage waits for its collector, but a
/// leak adds at least one object each time.
pub struct Growth { seen: Vec<u64> }
impl Growth {
    pub fn new() -> Self { Growth { seen: vec![] } }
    pub fn sample(&mut self) { let n = vh::live(); self.seen.push(n); }
    pub fn leaks(&self) -> bool { let n = self.seen.len(); self.seen[n - 1] >= self.seen[n / 2] + (n - 1 - n / 2) as u64 }
}

pub async fn yield_now() { tokio::task::yield_now().await }

/// A waker that counts how often it is woken.
pub struct CountWaker(pub AtomicU32);
impl CountWaker {
    pub fn new() -> (Arc<Self>, Waker) { let c = Arc::new(CountWaker(AtomicU32::new(0))); let w = Waker::from(c.clone()); (c, w) }
    pub fn count(&self) -> u32 { self.0.load(Ordering::SeqCst) }
    pub fn take(&self) -> u32 { self.0.swap(0, Ordering::SeqCst) }
}
impl Wake for CountWaker {
    fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); }
    fn wake_by_ref(self: &Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); }
}

/// Run a future that must complete without waiting.
pub fn now<F: Future>(f: F) -> F::Output {
    let (_c, w) = CountWaker::new();
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut cx) {
        Poll::Ready(v) => v,
        Poll::Pending => { vh::check(false, "a future that cannot wait is pending"); panic!("pending") }
    }
}
/// Poll a stream once with the given waker.
pub fn poll_stream<S: Stream + Unpin>(s: &mut S, w: &Waker) -> Poll<Option<S::Item>> {
    Pin::new(s).poll_next(&mut Context::from_waker(w))
}

/// Items in an order chosen by the environment, each arriving when the environment says so
/// (`delay` of them at most; the rest are immediately available), and the end likewise.
pub fn arriving<T: Send + 'static>(mut items: Vec<T>, mut delays: u32, end_delay: bool, shuffle: bool) -> impl Stream<Item = T> + Send + Unpin {
    let (mut tx, rx) = futures::channel::mpsc::unbounded();
    tokio::spawn(async move {
        while !items.is_empty() {
            let k = if shuffle { vh::choice(items.len() as u32, "arrival") as usize } else { 0 };
            let it = items.remove(k);
            if delays > 0 { delays -= 1; vh::event().await; }
            if tx.send(it).await.is_err() { return; }
        }
        if end_delay { vh::event().await; }
        drop(tx);
    });
    rx
}

pub fn flag() -> Arc<AtomicBool> { Arc::new(AtomicBool::new(false)) }
pub fn err_has(e: &anyhow::Error, s: &str) -> bool { format!("{e:#}").contains(s) }
pub async fn in_memory(workers: usize) -> paladin::runtime::Runtime {
    let config = paladin::config::Config { runtime: paladin::config::Runtime::InMemory, num_workers: Some(workers), ..Default::default() };
    paladin::runtime::Runtime::from_config(&config, paladin::operation::marker::Marker).await.unwrap()
}
