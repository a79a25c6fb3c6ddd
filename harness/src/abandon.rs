//! C26: abandoning directives and runtimes.
use crate::util::*;
use paladin::{directive::{Directive, IndexedStream, Literal}, operation::{Monoid, Result}};
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU32, Ordering};

static RUNS: AtomicU32 = AtomicU32::new(0);

#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Cat;
impl Monoid for Cat {
    type Elem = Vec<u8>;
    fn empty(&self) -> Vec<u8> { vec![] }
    fn combine(&self, mut a: Vec<u8>, b: Vec<u8>, _: AbortSignal) -> Result<Vec<u8>> { RUNS.fetch_add(1, Ordering::SeqCst); a.extend(b); Ok(a) }
}
#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Neg;
impl Operation for Neg {
    type Input = u8;
    type Output = u8;
    fn execute(&self, x: u8, _: AbortSignal) -> Result<u8> { RUNS.fetch_add(1, Ordering::SeqCst); Ok(!x) }
}
fn stream<T: Send + 'static>(items: Vec<T>, delays: u32, end: bool) -> IndexedStream<'static, T> {
    IndexedStream::new(arriving(items.into_iter().enumerate().map(Ok).collect(), delays, end, false))
}
fn bytes(n: usize) -> Vec<u8> { (0..n).map(|_| vh::u8("elem")).collect() }

async fn check_alive(rt: &paladin::runtime::Runtime) {
    let d = bytes(2);
    let Ok(v) = Directive::fold(stream(d.iter().map(|b| vec![*b]).collect(), 0, false), &Cat).run(rt).await else { return vh::check(false, "a fold after an abandoned directive fails") };
    vh::check(v == d, "a fold after an abandoned directive yields a wrong result");
    let x = vh::u8("x");
    let Ok(s) = Directive::map(stream(vec![x], 0, false), &Neg).run(rt).await else { return vh::check(false, "a map after an abandoned directive fails") };
    let Ok(v) = s.try_collect::<Vec<_>>().await else { return vh::check(false, "a map after an abandoned directive yields an error") };
    vh::check(v == vec![(0, !x)], "a map after an abandoned directive yields a wrong result");
}
fn go<F: std::future::Future>(f: F) { let r = run(f); vh::check(r.is_some(), "a directive after an abandoned one hangs"); vh::cover("done"); }

/// Tasks alive once everything that can run has run.
async fn alive() -> usize { settle().await; tokio::runtime::Handle::current().metrics().num_alive_tasks() }

harness! {
    abandon_fold { go(async {
        let rt = in_memory(2).await;
        let d = bytes(3).iter().map(|b| vec![*b]).collect();
        { let f = Directive::fold(stream(d, 1, true), &Cat).run(&rt); tokio::select! { biased; _ = vh::event() => vh::cover("dropped"), _ = f => vh::cover("finished") } }
        check_alive(&rt).await;
    }) }
    abandon_map { go(async {
        let rt = in_memory(2).await;
        {
            let Ok(mut s) = Directive::map(stream(bytes(3), 1, true), &Neg).run(&rt).await else { return vh::check(false, "a map fails") };
            let take = vh::choice(4, "take");
            for _ in 0..take { tokio::select! { biased; _ = vh::event() => { vh::cover("dropped"); break }, _ = s.next() => {} } }
        }
        check_alive(&rt).await;
    }) }
    abandon_literal { go(async {
        let rt = in_memory(1).await;
        { let f = Directive::map(Literal(vh::u8("v")), &Neg).run(&rt); tokio::select! { biased; _ = vh::event() => vh::cover("dropped"), _ = f => vh::cover("finished") } }
        check_alive(&rt).await;
    }) }
    /// Dropped after any number of scheduling steps, not only when idle.
    abandon_steps { go(async {
        let rt = in_memory(2).await;
        let d = bytes(2).iter().map(|b| vec![*b]).collect();
        {
            let mut f = Box::pin(Directive::fold(stream(d, 1, true), &Cat).run(&rt));
            let steps = vh::choice(8, "steps");
            for _ in 0..steps { if futures::poll!(&mut f).is_ready() { break; } tokio::task::yield_now().await; }
        }
        check_alive(&rt).await;
    }) }
    abandon_map_steps { go(async {
        let rt = in_memory(2).await;
        {
            let mut f = Box::pin(async { let mut s = Directive::map(stream(bytes(2), 1, true), &Neg).run(&rt).await.unwrap(); while s.next().await.is_some() {} });
            let steps = vh::choice(8, "steps");
            for _ in 0..steps { if futures::poll!(&mut f).is_ready() { break; } tokio::task::yield_now().await; }
        }
        check_alive(&rt).await;
    }) }
    /// A dropped runtime leaves no worker, nor anything workers spawned, behind.
    abandon_runtime { go(async {
        let before = alive().await;
        let rt = in_memory(1 + vh::choice(3, "workers") as usize).await;
        let busy = vh::choice(3, "busy");
        if busy > 0 {
            let d = bytes(2).iter().map(|b| vec![*b]).collect();
            let mut f = Box::pin(Directive::fold(stream(d, 0, false), &Cat).run(&rt));
            let steps = if busy == 1 { vh::choice(8, "steps") } else { 100 };
            for _ in 0..steps { if futures::poll!(&mut f).is_ready() { break; } if busy == 1 { tokio::task::yield_now().await } else { settle().await } }
        }
        drop(rt);
        let runs = RUNS.load(Ordering::SeqCst);
        let _ = runs;
        vh::check(alive().await == before, "a dropped runtime leaves tasks running");
    }) }
    /// A dropped runtime frees what it held, whatever was going on.
    abandon_memory { go(async {
        let mut heap = Growth::new();
        let x = vh::u8("x");
        let steps = vh::decide(8, "steps");
        for _ in 0..40 {
            let rt = in_memory(1).await;
            {
                // a map: what a fold stores is only freed once enough garbage has piled up
                let mut f = Box::pin(async { let mut s = Directive::map(IndexedStream::from([x, 2, 3]), &Neg).run(&rt).await.unwrap(); while s.next().await.is_some() {} });
                for _ in 0..steps { if futures::poll!(&mut f).is_ready() { break; } if steps == 7 { settle().await } else { tokio::task::yield_now().await } }
            }
            drop(rt);
            settle().await;
            heap.sample();
        }
        vh::check(!heap.leaks(), "a dropped runtime keeps its memory");
    }) }
    /// Dropped by code that is not running on the executor: synchronous code around it, or another thread, also after the executor is gone.
    abandon_outside {
        let rt = executor();
        let x = bytes(3);
        let (paladin, mut s) = rt.block_on(async {
            let paladin = in_memory(1 + vh::choice(2, "workers") as usize).await;
            let s = Directive::map(stream(x, 0, false), &Neg).run(&paladin).await.unwrap();
            (paladin, s)
        });
        rt.block_on(async { for _ in 0..vh::decide(4, "take") { let _ = s.next().await; } });
        match vh::decide(4, "where") {
            0 => { drop(s); rt.block_on(check_alive(&paladin)); vh::cover("synchronous") }
            1 => { std::thread::spawn(move || drop(s)).join().unwrap(); rt.block_on(check_alive(&paladin)); vh::cover("thread") }
            2 => { drop(paladin); drop(rt); drop(s); vh::cover("afterwards") }
            _ => { drop(rt); drop(s); drop(paladin); vh::cover("runtime last") }
        }
    }
}
