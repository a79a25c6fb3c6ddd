//! C21: the runtime uses what it was configured with.
use crate::util::*;
use lapin::model;
use paladin::{config::{self, Config}, directive::{Directive, IndexedStream, Literal}, operation::{marker::Marker, Monoid, Result}, runtime::{Runtime, WorkerRuntime}, serializer::Serializer, task::{AnyTask, AnyTaskResult, Task}};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Xor { k: u8 }
impl Operation for Xor { type Input = u16; type Output = (u8, u16); fn execute(&self, x: u16, _: AbortSignal) -> Result<(u8, u16)> { Ok((self.k, x ^ self.k as u16)) } }
#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Cat;
impl Monoid for Cat { type Elem = Vec<u8>; fn empty(&self) -> Vec<u8> { vec![] } fn combine(&self, mut a: Vec<u8>, b: Vec<u8>, _: AbortSignal) -> Result<Vec<u8>> { a.extend(b); Ok(a) } }

const NAMES: [Option<&str>; 6] = [None, Some("q"), Some("task-ipc-routing-key"), Some("Q"), Some(" q"), Some("Über/queue.\n")];
fn queue_name(n: usize) -> &'static str { NAMES[n].unwrap_or(paladin::runtime::TASK_IPC_ROUTING_KEY) }
fn serializers() -> (config::Serializer, Serializer) { if vh::decide(2, "cbor") == 1 { (config::Serializer::Cbor, Serializer::Cbor) } else { (config::Serializer::Postcard, Serializer::Postcard) } }
fn amqp(serializer: config::Serializer, uri: &str, name: usize, num_workers: Option<usize>) -> Config {
    Config { runtime: config::Runtime::Amqp, serializer, amqp_uri: Some(uri.into()), task_bus_routing_key: NAMES[name].map(|s| s.into()), num_workers }
}
fn go(f: impl Future<Output = ()>) { if run(f).is_none() { vh::check(false, "a configured runtime hangs") } vh::cover("done"); }

/// Where and how a leader's tasks travel.
fn leader() {
    go(async {
        let (cs, s) = serializers();
        let name = vh::decide(6, "name") as usize;
        let uri = ["amqp://host:5672", "amqps://user:pw@other/%2f"][vh::decide(2, "uri") as usize];
        let workers = [None, Some(0), Some(2)][vh::decide(3, "workers") as usize];
        let rt = Runtime::from_config(&amqp(cs, uri, name, workers), Marker).await.unwrap();
        vh::check(model::with(|b| b.uris == [uri.to_string()]), "the configured URI is not the one connected to");
        let (key, sender, mut results) = rt.lease_coordinated_task_channel::<Xor, u8>().await.unwrap();
        let (x, m, k) = (vh::u16("input"), vh::u8("meta"), vh::u8("op"));
        let op = &*Box::leak(Box::new(Xor { k }));
        vh::check(sender.publish(&Task { routing_key: key.clone(), metadata: m, op, input: x }).await.is_ok(), "publishing a task fails");
        let p = model::with(|b| b.published.clone());
        vh::check(p.len() == 1 && p[0].exchange.is_empty() && p[0].routing_key == queue_name(name) && p[0].routed == 1, "a task does not appear on the configured queue");
        vh::check(model::ready(queue_name(name)).is_some_and(|r| r.len() == 1), "somebody else than a worker consumes the tasks");
        let Ok(t) = s.from_bytes::<AnyTask>(&p[0].data) else { return vh::check(false, "a task is not in the configured format") };
        vh::check(std::mem::discriminant(&t.serializer) == std::mem::discriminant(&s), "a task does not record the configured format");
        vh::check(s.from_bytes::<u16>(&t.input).is_ok_and(|v| v == x) && s.from_bytes::<u8>(&t.metadata).is_ok_and(|v| v == m) && s.from_bytes::<Xor>(&t.op).is_ok_and(|v| v.k == k), "the parts of a task are not in the configured format");
        vh::check(t.routing_key == key, "a task does not name its result channel");
        // a worker implemented by somebody else
        let r = t.remote_execute(None).await.unwrap();
        model::inject(&key, &s.to_bytes(&AnyTaskResult::Ok(r)).unwrap());
        sender.close().await.unwrap();
        match results.next().await {
            Some((Ok(o), acker)) => { vh::check(o.metadata == m && o.output == (k, x ^ k as u16), "the result does not come back"); acker.ack().await.unwrap(); }
            _ => vh::check(false, "the result does not come back"),
        }
    })
}
/// A worker elsewhere, on the same or another queue.
fn separate(kind: u32) {
    go(async move {
        let (cs, _) = serializers();
        let (a, b) = (vh::decide(6, "leader queue") as usize, vh::decide(6, "worker queue") as usize);
        let same = queue_name(a) == queue_name(b);
        let worker = WorkerRuntime::from_config(&amqp(cs, "amqp://host", b, None), Marker).await.unwrap();
        let h = tokio::spawn(async move { worker.main_loop().await });
        let rt = Runtime::from_config(&amqp(cs, "amqp://host", a, None), Marker).await.unwrap();
        let (x, k) = (vh::u16("input"), vh::u8("op"));
        let y = vh::u16("second");
        let ok = tokio::time::timeout(Duration::from_secs(20), async {
            match kind {
                0 => { let op = Xor { k }; let r = Directive::map(Literal(x), &op).run(&rt).await; vh::check(matches!(r, Ok(Literal(o)) if o == (k, x ^ k as u16)), "a separate worker's result is wrong"); }
                1 => {
                    let op = Xor { k };
                    let s = Directive::map(IndexedStream::from([x, y]), &op).run(&rt).await.unwrap();
                    let Ok(v) = s.into_values_sorted().await else { return vh::check(false, "a separate worker's result is wrong") };
                    vh::check(v.into_iter().collect::<Vec<_>>() == [(k, x ^ k as u16), (k, y ^ k as u16)], "a separate worker's result is wrong");
                }
                _ => {
                    let r = Directive::fold(IndexedStream::from([vec![x as u8], vec![k], vec![y as u8]]), &Cat).run(&rt).await;
                    vh::check(r.is_ok_and(|v| v == [x as u8, k, y as u8]), "a separate worker's result is wrong");
                }
            }
        }).await.is_ok();
        vh::check(ok == same, if same { "a separate worker on the same queue does not serve the tasks" } else { "a worker on another queue serves the tasks" });
        if same { vh::cover("served"); } else { vh::cover("not served"); vh::check(model::ready(queue_name(a)).is_some_and(|r| r.len() >= 1), "a task on a queue without a worker is lost"); }
        vh::check(!h.is_finished(), "a worker stops");
    })
}
/// How many tasks run at once.
fn workers(tasks: usize) {
    go(async move {
        let n = vh::decide(6, "workers") as usize;
        served(n, n == 5, tasks).await
    })
}
/// More workers than a machine has cores.
fn many_workers(counts: &'static [usize]) {
    go(async move {
        let n = counts[vh::decide(counts.len() as u32, "workers") as usize];
        served(n, false, n + 2).await
    })
}
async fn served(n: usize, shortcut: bool, tasks: usize) {
    let (cs, _) = serializers();
    let name = vh::decide(2, "name") as usize;
    let rt = if shortcut { Runtime::in_memory().await.unwrap() } else {
        Runtime::from_config(&Config { runtime: config::Runtime::InMemory, serializer: cs, num_workers: if n == 0 { None } else { Some(n) }, task_bus_routing_key: NAMES[name].map(|s| s.into()), ..Default::default() }, Marker).await.unwrap()
    };
    let expect = if n == 0 || shortcut { 3 } else { n };
    vh::check(model::with(|b| b.uris.is_empty()), "an in-memory runtime connects to a broker");
    let op = &Xor { k: 7 };
    let (key, sender, results) = rt.lease_coordinated_task_channel::<Xor, u8>().await.unwrap();
    for i in 0..tasks { sender.publish(&Task { routing_key: key.clone(), metadata: i as u8, op, input: i as u16 }).await.unwrap(); }
    for _ in 0..30 + 10 * tasks { yield_now().await; }
    vh::check(vh::pending_events() == expect.min(tasks), "not the configured number of tasks run at once");
    if expect < tasks { vh::cover("limited"); }
    if n > 5 { return; }
    sender.close().await.unwrap();
    let mut got = vec![0; tasks];
    let mut results = results;
    while let Some((r, acker)) = results.next().await {
        acker.ack().await.unwrap();
        let Ok(o) = r else { vh::check(false, "a task fails"); continue };
        vh::check(o.output == (7, o.metadata as u16 ^ 7), "a result is wrong");
        got[o.metadata as usize] += 1;
    }
    vh::check(got.iter().all(|c| *c == 1), "not every task is served once");
}
/// Workers elsewhere: a task does not wait for a busy worker while another one is free.
fn balanced() {
    go(async {
        let (cs, _) = serializers();
        let mut hs = vec![];
        for _ in 0..2 {
            let worker = WorkerRuntime::from_config(&amqp(cs, "amqp://host", 0, None), Marker).await.unwrap();
            hs.push(tokio::spawn(async move { worker.main_loop().await }));
        }
        let rt = Runtime::from_config(&amqp(cs, "amqp://host", 0, None), Marker).await.unwrap();
        let (key, sender, mut results) = rt.lease_coordinated_task_channel::<Xor, u8>().await.unwrap();
        let op = &Xor { k: 7 };
        let tasks = 3 + vh::decide(2, "tasks") as usize;
        for _ in 0..20 { yield_now().await; }
        for i in 0..tasks { sender.publish(&Task { routing_key: key.clone(), metadata: i as u8, op, input: i as u16 }).await.unwrap(); }
        for left in (0..tasks).rev() {
            for _ in 0..60 { yield_now().await; }
            vh::check(vh::pending_events() == 2.min(left + 1), "a task waits although a worker is free");
            vh::fire_one();
            match results.next().await {
                Some((Ok(_), acker)) => acker.ack().await.unwrap(),
                _ => vh::check(false, "a result does not come back"),
            }
        }
    })
}
/// Configurations that cannot work are reported.
fn refused() {
    go(async {
        let (cs, _) = serializers();
        model::fail_connect(true);
        vh::check(Runtime::from_config(&amqp(cs, "amqp://host", 0, None), Marker).await.is_err(), "a failed connection is not reported");
        vh::check(WorkerRuntime::from_config(&amqp(cs, "amqp://host", 0, None), Marker).await.is_err(), "a failed connection is not reported");
        model::fail_connect(false);
        let rt = Runtime::from_config(&amqp(cs, "amqp://host", 0, None), Marker).await.unwrap();
        vh::check(rt.close().await.is_ok() && model::with(|b| b.conns_closed) == 1, "closing a runtime does not close its connection");
    })
}
harness! {
    config_leader { leader() }
    config_separate_literal { separate(0) }
    config_separate_map { separate(1) }
    config_separate_fold { separate(2) }
    config_workers2 { workers(2) }
    config_workers4 { workers(4) }
    config_workers5 { workers(5) }
    config_workers_many { many_workers(&[6, 7, 8, 9, 16, 17, 24, 33]) }
    config_balanced { balanced() }
    config_refused { refused() }
}
