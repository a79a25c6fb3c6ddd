//! C01-C06 over AMQP: a leader and its workers, each with a connection of its own, and a broker that takes its time.
use crate::util::*;
use lapin::model;
use paladin::{config::{self, Config}, directive::{Directive, IndexedStream, Literal}, operation::{marker::Marker, FatalError, FatalStrategy, Monoid, Result},
    runtime::{Runtime, WorkerRuntime, COMMAND_IPC_ROUTING_KEY}};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Tag;
impl Operation for Tag {
    type Input = u8;
    type Output = (u8, u8);
    fn execute(&self, x: u8, _: AbortSignal) -> Result<(u8, u8)> { Ok((x, x.wrapping_mul(3) ^ 0x55)) }
}
#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Fails { bad: u8 }
impl Operation for Fails {
    type Input = u8;
    type Output = u8;
    fn execute(&self, x: u8, _: AbortSignal) -> Result<u8> { if x == self.bad { FatalError::from_str("boom-fatal", FatalStrategy::Terminate).into() } else { Ok(x) } }
}
#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Cat;
impl Monoid for Cat {
    type Elem = Vec<u8>;
    fn empty(&self) -> Vec<u8> { vec![] }
    fn combine(&self, mut a: Vec<u8>, b: Vec<u8>, _: AbortSignal) -> Result<Vec<u8>> { a.extend(b); Ok(a) }
}

const TASKS: &str = "sys-tasks";
/// Elements; of long streams, ones whose encodings have the same length.
fn elements(n: usize) -> Vec<u8> { (0..n).map(|_| { let d = vh::u8("elem"); if n > 5 { vh::assume(d < 24); } d }).collect() }
struct System { leader: Runtime, workers: Vec<tokio::task::JoinHandle<anyhow::Result<()>>> }
impl System {
    async fn new(workers: usize) -> System {
        vh::set_rng(vh::decide(2, "select"));
        let serializer = if vh::decide(2, "cbor") == 1 { config::Serializer::Cbor } else { config::Serializer::Postcard };
        let config = Config { runtime: config::Runtime::Amqp, serializer, amqp_uri: Some("amqp://host".into()), task_bus_routing_key: Some(TASKS.into()), ..Default::default() };
        let leader = Runtime::from_config(&config, Marker).await.unwrap();
        let mut hs = vec![];
        for _ in 0..workers {
            let w = WorkerRuntime::from_config(&config, Marker).await.unwrap();
            hs.push(tokio::spawn(async move { w.main_loop().await }));
        }
        settle().await;
        model::slow(vh::decide(2, "slow broker") == 1);
        System { leader, workers: hs }
    }
    /// What a directive leaves behind when it is over: nothing.
    async fn clean(&self, what: &'static str) {
        tokio::time::sleep(Duration::from_secs(5)).await;
        vh::check(model::queue_names().iter().all(|q| q == TASKS || q == COMMAND_IPC_ROUTING_KEY), what);
        vh::check(model::ready(TASKS).is_some_and(|r| r.is_empty()) && model::unacked() == 0, "messages remain unacknowledged after the directive");
        vh::check(model::with(|b| b.disposed.iter().all(|d| d.1 == model::Disp::Ack)), "a result is rejected although it was used");
        vh::check(self.workers.iter().all(|w| !w.is_finished()), "a worker stops although nothing was aborted");
    }
}
const LEFT: &str = "a directive's result queue remains";
fn go(f: impl Future<Output = ()>) { if run(f).is_none() { vh::check(false, "a directive over AMQP hangs") } vh::cover("done"); }

fn literal(workers: usize) {
    go(async move {
        let s = System::new(workers).await;
        let x = vh::u8("value");
        match Directive::map(Literal(x), &Tag).run(&s.leader).await {
            Ok(Literal((a, b))) => vh::check(a == x && b == x.wrapping_mul(3) ^ 0x55, "the result is not the operation applied to the value"),
            Err(_) => vh::check(false, "mapping a literal fails although nothing failed"),
        }
        s.clean(LEFT).await;
        // a result is settled by the one who received it
        vh::check(settled_results() == 1, "a received result is not acknowledged");
    })
}
/// How many acknowledged messages were not tasks.
fn settled_results() -> usize {
    model::with(|b| b.disposed.len()) - model::with(|b| b.published.iter().filter(|p| p.routing_key == TASKS).count())
}
fn map(n: usize, workers: usize, delays: u32, slow: bool) {
    go(async move {
        let s = System::new(workers).await;
        let data = elements(n);
        let items: Vec<anyhow::Result<(usize, u8)>> = data.iter().enumerate().map(|(i, d)| Ok((i, *d))).collect();
        let Ok(mut out) = Directive::map(IndexedStream::new(arriving(items, delays, delays > 0, false)), &Tag).run(&s.leader).await else { return vh::check(false, "the map fails although nothing failed") };
        let mut seen = vec![false; n];
        while let Some(item) = out.next().await {
            let Ok((i, (x, y))) = item else { return vh::check(false, "the map yields an error although nothing failed") };
            vh::check(i < n && !seen[i], "an input has two outputs");
            vh::check(x == data[i] && y == x.wrapping_mul(3) ^ 0x55, "an output is not the operation applied to the input at its index");
            seen[i] = true;
            if slow { vh::event().await; }
        }
        vh::check(seen.iter().all(|s| *s), "the output stream ends before every input has its output");
        drop(out);
        s.clean(LEFT).await;
        vh::check(settled_results() == n, "a received result is not acknowledged");
    })
}
fn fold(n: usize, workers: usize, delays: u32, shuffle: bool) {
    go(async move {
        let s = System::new(workers).await;
        let data = elements(n);
        let items: Vec<anyhow::Result<(usize, Vec<u8>)>> = data.iter().enumerate().map(|(i, d)| Ok((i, vec![*d]))).collect();
        match Directive::fold(IndexedStream::new(arriving(items, delays, delays > 0, shuffle)), &Cat).run(&s.leader).await {
            Ok(v) => {
                vh::check(v.len() == n, "the result does not consist of every element exactly once");
                for i in 0..n { vh::check(v[i] == data[i], "the elements are not combined in index order"); }
            }
            Err(_) => vh::check(false, "the fold fails although nothing failed"),
        }
        s.clean(LEFT).await;
    })
}
/// A task that cannot be published, or an operation that fails.
fn failing(n: usize, workers: usize) {
    go(async move {
        let s = System::new(workers).await;
        let kind = vh::decide(3, "directive");
        let publishing = kind == 2 || vh::decide(2, "publishing") == 1;
        let n = if kind == 0 { 1 } else { n };
        let at = vh::decide((if kind == 2 { n - 1 } else { n }) as u32, "at") as usize;
        if publishing { model::fail_publish_to(TASKS, at as u32); }
        let data = elements(n);
        for i in 0..n { vh::assume(i == at || data[i] != data[at]); }
        let op = Fails { bad: data[at] };
        let r: anyhow::Result<()> = async {
            match kind {
                0 => { if publishing { Directive::map(Literal(data[0]), &Tag).run(&s.leader).await?; } else { Directive::map(Literal(data[0]), &op).run(&s.leader).await?; } }
                1 => {
                    let items: Vec<anyhow::Result<(usize, u8)>> = data.iter().enumerate().map(|(i, d)| Ok((i, *d))).collect();
                    let input = IndexedStream::new(arriving(items, 0, false, false));
                    if publishing { let mut o = Directive::map(input, &Tag).run(&s.leader).await?; while let Some(x) = o.next().await { x?; } }
                    else { let mut o = Directive::map(input, &op).run(&s.leader).await?; while let Some(x) = o.next().await { x?; } }
                }
                _ => {
                    let items: Vec<anyhow::Result<(usize, Vec<u8>)>> = data.iter().enumerate().map(|(i, d)| Ok((i, vec![*d]))).collect();
                    Directive::fold(IndexedStream::new(arriving(items, 0, false, false)), &Cat).run(&s.leader).await?;
                }
            }
            Ok(())
        }.await;
        match r {
            Ok(()) => vh::check(false, "a directive yields a result although a piece failed"),
            Err(e) => vh::check(err_has(&e, if publishing { "publish failed" } else { "boom-fatal" }), "a directive's error does not carry the cause"),
        }
        if publishing { tokio::time::sleep(Duration::from_secs(5)).await; vh::check(s.workers.iter().all(|w| !w.is_finished()), "a worker stops although nothing was aborted"); }
    })
}
/// Two directives at a time.
fn two(workers: usize) {
    go(async move {
        let s = System::new(workers).await;
        let (x, v) = (vh::u8("value"), [vh::u8("elem"), vh::u8("elem"), vh::u8("elem")]);
        let fold = async {
            let items: Vec<anyhow::Result<(usize, Vec<u8>)>> = v.iter().enumerate().map(|(i, d)| Ok((i, vec![*d]))).collect();
            Directive::fold(IndexedStream::new(arriving(items, 0, false, false)), &Cat).run(&s.leader).await
        };
        let (a, b) = futures::join!(Directive::map(Literal(x), &Tag).run(&s.leader), fold);
        vh::check(matches!(a, Ok(Literal(p)) if p == (x, x.wrapping_mul(3) ^ 0x55)), "a directive's result is not its own");
        vh::check(b.is_ok_and(|b| b == v), "a directive's result is not its own");
        s.clean(LEFT).await;
    })
}
/// A directive is dropped after a number of polls; the broker, the workers and the next directive do not mind.
fn abandoned(kind: u32, polls: u32, workers: usize) {
    go(async move {
        let s = System::new(workers).await;
        let v = [vh::u8("elem"), vh::u8("elem"), vh::u8("elem")];
        let items = move || { let i: Vec<anyhow::Result<(usize, Vec<u8>)>> = v.iter().enumerate().map(|(i, d)| Ok((i, vec![*d]))).collect(); arriving(i, 1, true, false) };
        {
            let mut d: Pin<Box<dyn Future<Output = ()> + Send + '_>> = match kind {
                0 => Box::pin(async { _ = Directive::map(Literal(v[0]), &Tag).run(&s.leader).await; }),
                1 => Box::pin(async { _ = Directive::fold(IndexedStream::new(items()), &Cat).run(&s.leader).await; }),
                _ => Box::pin(async { let i = IndexedStream::new(items().map_ok(|(i, x)| (i, x[0]))); if let Ok(mut o) = Directive::map(i, &Tag).run(&s.leader).await { while o.next().await.is_some() {} } }),
            };
            let n = 1 + vh::decide(polls, "polls");
            for _ in 0..n {
                let w = futures::task::noop_waker();
                if d.as_mut().poll(&mut Context::from_waker(&w)).is_ready() { break; }
                if vh::decide(2, "between") == 1 { for _ in 0..4 { yield_now().await; } } else { settle().await; }
            }
        }
        vh::check(matches!(Directive::map(Literal(v[0]), &Tag).run(&s.leader).await, Ok(Literal(p)) if p == (v[0], v[0].wrapping_mul(3) ^ 0x55)), "a later directive is disturbed");
        tokio::time::sleep(Duration::from_secs(5)).await;
        vh::check(s.workers.iter().all(|w| !w.is_finished()), "a worker stops although nothing was aborted");
        vh::check(model::ready(TASKS).is_some_and(|r| r.is_empty()) && model::unacked_from(TASKS) == 0, "a task remains without disposition");
    })
}
/// The outputs of a map dropped by a thread that knows nothing of the executor.
fn outside() {
    go(async move {
        let s = System::new(1).await;
        let x = vh::u8("value");
        let Ok(mut o) = Directive::map(IndexedStream::from([x]), &Tag).run(&s.leader).await else { return vh::check(false, "a map fails although nothing failed") };
        let all = vh::decide(3, "outputs");
        for _ in 0..all { _ = o.next().await; }
        if all == 0 { settle().await; }
        std::thread::spawn(move || drop(o)).join().unwrap();
        tokio::time::sleep(Duration::from_secs(5)).await;
        vh::check(model::queue_names().iter().all(|q| q == TASKS || q == COMMAND_IPC_ROUTING_KEY), LEFT);
    })
}
/// Closing a runtime closes its connection, and only its own.
fn closing() {
    go(async move {
        let s = System::new(1).await;
        let x = vh::u8("value");
        vh::check(Directive::map(Literal(x), &Tag).run(&s.leader).await.is_ok(), "mapping a literal fails although nothing failed");
        settle().await;
        vh::check(s.leader.close().await.is_ok(), "closing a runtime fails");
        vh::check(model::closed_connections() == 1, "closing a runtime does not close its connection");
        settle().await;
        vh::check(model::num_consumers(TASKS) == 1 && !s.workers[0].is_finished(), "closing a runtime closes another connection");
        match tokio::time::timeout(Duration::from_secs(5), Directive::map(Literal(x), &Tag).run(&s.leader)).await {
            Ok(r) => vh::check(r.is_err(), "a directive succeeds on a closed runtime"),
            Err(_) => vh::check(false, "a directive hangs on a closed runtime"),
        }
    })
}

harness! {
    sys_literal1 { literal(1) }
    sys_literal2 { literal(2) }
    sys_map2 { map(2, 2, 0, false) }
    sys_map3 { map(3, 2, 0, false) }
    sys_map3_late { map(3, 2, 2, true) }
    sys_map12 { map(12, 2, 0, false) }
    sys_fold1 { fold(1, 1, 1, false) }
    sys_fold2 { fold(2, 1, 1, true) }
    sys_fold3 { fold(3, 2, 0, true) }
    sys_fold3_late { fold(3, 2, 3, false) }
    sys_fold4 { fold(4, 3, 0, false) }
    sys_fold12 { fold(12, 2, 0, false) }
    sys_failing2 { failing(2, 2) }
    sys_failing3 { failing(3, 2) }
    sys_two { two(2) }
    sys_two_one { two(1) }
    sys_fold4_late { fold(4, 2, 4, true) }
    sys_fold5_late { fold(5, 2, 5, true) }
    sys_abandon_literal { abandoned(0, 5, 1) }
    sys_abandon_fold { abandoned(1, 6, 2) }
    sys_abandon_map { abandoned(2, 4, 2) }
    sys_outside { outside() }
    sys_close { closing() }
}
