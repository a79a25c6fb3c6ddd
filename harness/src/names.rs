//! C12: queue identity, channels and leases.
use crate::util::*;
use paladin::{acker::NoopAcker, channel::{Channel, ChannelFactory, ChannelType, LeaseGuard, queue::QueueChannelFactory}, queue::{Connection, DeliveryMode, Publisher, QueueDurability, QueueHandle, QueueOptions, SyndicationMode, in_memory::{InMemoryConnection, InMemoryConsumer, InMemoryQueueHandle}}, serializer::{Serializable, Serializer}};
use std::collections::VecDeque;
use std::sync::atomic::AtomicI32;

const NAMES: [&str; 4] = ["q", "q2", "Q", ""];

/// Everything that can be received from a consumer right now.
fn take_all(c: &mut InMemoryConsumer<u8>) -> Vec<u8> {
    let (_n, w) = CountWaker::new();
    let mut v = vec![];
    while let Poll::Ready(Some((x, _))) = poll_stream(c, &w) { v.push(x); }
    v
}

/// Declarations, deletions, publications and consumption by name, on several clones of one connection.
fn by_name(steps: u32, names: u32, held: bool) {
    let conns: Vec<InMemoryConnection> = { let c = InMemoryConnection::new(Serializer::default()); vec![c.clone(), c] };
    let other = InMemoryConnection::new(Serializer::default());
    let o = QueueOptions::default();
    let mut model: Vec<VecDeque<u8>> = vec![VecDeque::new(); names as usize];
    let mut handles: Vec<(usize, InMemoryQueueHandle)> = vec![];
    for s in 0..steps {
        let conn = &conns[(s % 2) as usize];
        let n = vh::decide(names, "name") as usize;
        match vh::choice(if held { 5 } else { 3 }, "step") {
            0 => {
                let v = vh::u8("payload");
                vh::check(now(now(conn.declare_queue(NAMES[n], o)).unwrap().publish(&v)).is_ok(), "publishing fails");
                model[n].push_back(v);
            }
            1 => {
                let mut c = now(now(conn.declare_queue(NAMES[n], o)).unwrap().declare_consumer::<u8>("c")).unwrap();
                let got = take_all(&mut c);
                vh::check(got.len() == model[n].len() && got.iter().eq(model[n].iter()), "a queue does not hold exactly what was published under its name");
                model[n].clear();
                vh::cover("received");
            }
            2 => {
                vh::check(now(conn.delete_queue(NAMES[n])).is_ok(), "deleting a queue fails");
                if !model[n].is_empty() { vh::cover("deleted"); }
                model[n].clear();
                handles.retain(|(k, _)| *k != n);
            }
            3 => handles.push((n, now(conn.declare_queue(NAMES[n], o)).unwrap())),
            _ => {
                vh::assume(handles.iter().any(|(k, _)| *k == n));
                let h = &handles.iter().find(|(k, _)| *k == n).unwrap().1;
                let v = vh::u8("payload");
                vh::check(now(h.publish(&v)).is_ok(), "publishing fails");
                model[n].push_back(v);
            }
        }
    }
    for n in 0..names as usize {
        let mut c = now(now(conns[0].declare_queue(NAMES[n], o)).unwrap().declare_consumer::<u8>("c")).unwrap();
        let got = take_all(&mut c);
        vh::check(got.len() == model[n].len() && got.iter().eq(model[n].iter()), "a queue does not hold exactly what was published under its name");
        let mut c = now(now(other.declare_queue(NAMES[n], o)).unwrap().declare_consumer::<u8>("c")).unwrap();
        vh::check(take_all(&mut c).is_empty(), "two connections share a queue");
    }
    vh::cover("done");
}

/// A name means the same queue with whatever options it is declared again.
fn other_options() {
    let o = |l: &str| {
        let k = vh::decide(8, l);
        QueueOptions {
            syndication_mode: if k & 1 == 1 { SyndicationMode::Broadcast } else { SyndicationMode::ExactlyOnce },
            delivery_mode: if k & 2 == 2 { DeliveryMode::Ephemeral } else { DeliveryMode::Persistent },
            durability: if k & 4 == 4 { QueueDurability::Durable } else { QueueDurability::NonDurable },
        }
    };
    let conn = InMemoryConnection::new(Serializer::default());
    let a = now(conn.declare_queue("q", o("options"))).unwrap();
    let mut c = now(a.declare_consumer::<u8>("c")).unwrap();
    let v = [vh::u8("payload"), vh::u8("payload"), vh::u8("payload")];
    now(a.publish(&v[0])).unwrap();
    let b = now(conn.declare_queue("q", o("other options"))).unwrap();
    now(b.publish(&v[1])).unwrap();
    now(a.publish(&v[2])).unwrap();
    let got = match vh::decide(2, "consumer") { 0 => take_all(&mut c), _ => take_all(&mut now(b.declare_consumer::<u8>("c")).unwrap()) };
    vh::check(got == v, "declaring a queue again yields another queue");
    vh::cover("done");
}

/// Closing a connection or dropping handles loses nothing that was published.
fn survive() {
    let conn = InMemoryConnection::new(if vh::bool("cbor") { Serializer::Cbor } else { Serializer::Postcard });
    let broadcast = vh::bool("broadcast");
    let o = QueueOptions { syndication_mode: if broadcast { SyndicationMode::Broadcast } else { SyndicationMode::ExactlyOnce }, ..Default::default() };
    let h = now(conn.declare_queue("q", o)).unwrap();
    let v = vh::u8("payload");
    now(h.publish(&v)).unwrap();
    if vh::bool("close") { vh::check(now(conn.close()).is_ok(), "closing a connection fails"); }
    if vh::bool("drop") { drop(h); }
    let mut c = now(now(conn.declare_queue("q", o)).unwrap().declare_consumer::<u8>("c")).unwrap();
    vh::check(take_all(&mut c) == [v], "a queue does not hold exactly what was published under its name");
    vh::cover("done");
}

/// Channels obtained from a factory by identifier.
fn channels(mode: ChannelType) {
    let ok = run(async move {
        let f = QueueChannelFactory::new(InMemoryConnection::new(Serializer::default()));
        let g = f.clone();
        let a = f.get("id".into(), mode).await.unwrap();
        let b = g.get("id".into(), mode).await.unwrap();
        let c = g.get("id2".into(), mode).await.unwrap();
        let (i1, x) = f.issue(mode).await.unwrap();
        let (i2, y) = g.issue(mode).await.unwrap();
        let x2 = g.get(i1.clone(), mode).await.unwrap();
        vh::check(i1 != i2 && i1 != "id" && i2 != "id" && !i1.is_empty(), "an issued channel is not fresh");
        let (v, w, u) = (vh::u8("v"), vh::u8("w"), vh::u8("u"));
        let before = vh::bool("receiver first");
        let mut r1 = if before { Some(b.receiver::<u8>().await.unwrap()) } else { None };
        let mut r2 = if before { Some(x2.receiver::<u8>().await.unwrap()) } else { None };
        a.sender::<u8>().await.unwrap().publish(&v).await.unwrap();
        b.sender::<u8>().await.unwrap().publish(&w).await.unwrap();
        x.sender::<u8>().await.unwrap().publish(&u).await.unwrap();
        if r1.is_none() { r1 = Some(b.receiver::<u8>().await.unwrap()); }
        if r2.is_none() { r2 = Some(x2.receiver::<u8>().await.unwrap()); }
        vh::check(take_all(&mut r1.unwrap()) == [v, w], "channels of one identifier are not connected");
        vh::check(take_all(&mut r2.unwrap()) == [u], "channels of one identifier are not connected");
        let mut rc = c.receiver::<u8>().await.unwrap();
        vh::check(take_all(&mut rc).is_empty(), "channels of different identifiers are connected");
        vh::check(take_all(&mut y.receiver::<u8>().await.unwrap()).is_empty(), "an issued channel is not fresh");
        // releasing a channel gives up its queue and no other
        a.sender::<u8>().await.unwrap().publish(&v).await.unwrap();
        c.sender::<u8>().await.unwrap().publish(&w).await.unwrap();
        b.release();
        settle().await;
        vh::check(take_all(&mut a.receiver::<u8>().await.unwrap()).is_empty(), "a released channel is still there");
        vh::check(take_all(&mut rc) == [w], "releasing a channel releases another");
        vh::cover("done");
    });
    vh::check(ok.is_some(), "hangs");
}
/// Receivers of one channel: exactly-once splits the messages, broadcast copies them.
fn receivers() {
    let broadcast = vh::bool("broadcast");
    let mode = if broadcast { ChannelType::Broadcast } else { ChannelType::ExactlyOnce };
    let ok = run(async move {
        let f = QueueChannelFactory::new(InMemoryConnection::new(Serializer::default()));
        let c = f.get("id".into(), mode).await.unwrap();
        let (v, w) = (vh::u8("v"), vh::u8("w"));
        let early = vh::bool("published before");
        if early { c.sender::<u8>().await.unwrap().publish(&v).await.unwrap(); }
        let mut r1 = c.receiver::<u8>().await.unwrap();
        let mut r2 = c.receiver::<u8>().await.unwrap();
        if !early { c.sender::<u8>().await.unwrap().publish(&v).await.unwrap(); }
        c.sender::<u8>().await.unwrap().publish(&w).await.unwrap();
        let a = take_all(&mut r1);
        let b = take_all(&mut r2);
        vh::check(a == [v, w], "a receiver does not get what was sent");
        vh::check(b == if !broadcast { vec![] } else if early { vec![w] } else { vec![v, w] }, "receivers of one channel do not share it as its type says");
        vh::cover("done");
    });
    vh::check(ok.is_some(), "hangs");
}

// ------------------------------------------------------------------ leases
#[derive(Clone)]
struct Counting(Arc<AtomicI32>);
struct Nop;
#[paladin::async_trait]
impl<T: Sync> Publisher<T> for Nop { async fn publish(&self, _: &T) -> anyhow::Result<()> { Ok(()) } async fn close(&self) -> anyhow::Result<()> { Ok(()) } }
struct Empty<T>(std::marker::PhantomData<T>);
impl<T> Stream for Empty<T> { type Item = (T, NoopAcker); fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> { Poll::Ready(None) } }
#[paladin::async_trait]
impl Channel for Counting {
    type Sender<'a, T: Serializable + 'a> = Nop;
    type Acker = NoopAcker;
    type Receiver<'a, T: Serializable + 'a> = Empty<T>;
    async fn close(&self) -> anyhow::Result<()> { Ok(()) }
    async fn sender<'a, T: Serializable + 'a>(&self) -> anyhow::Result<Nop> { Ok(Nop) }
    async fn receiver<'a, T: Serializable + 'a>(&self) -> anyhow::Result<Empty<T>> { Ok(Empty(std::marker::PhantomData)) }
    fn release(&self) { self.0.fetch_add(1, Ordering::SeqCst); }
}
fn guard() {
    let n = Arc::new(AtomicI32::new(0));
    let items: Vec<u8> = (0..vh::choice(4, "items")).map(|_| vh::u8("v")).collect();
    let mut g = LeaseGuard::new(Counting(n.clone()), futures::stream::iter(items.clone()));
    let released = || n.load(Ordering::SeqCst);
    vh::check(released() == 0, "a lease is released while it is held");
    let polls = vh::choice(6, "polls");
    let (_c, w) = CountWaker::new();
    let mut got = vec![];
    for _ in 0..polls { if let Poll::Ready(Some(v)) = poll_stream(&mut g, &w) { got.push(v); } vh::check(released() == 0, "a lease is released while it is held"); }
    vh::check(got.len() == (polls as usize).min(items.len()) && got.iter().zip(&items).all(|(a, b)| a == b), "a leased stream does not yield its items");
    match vh::choice(4, "how") {
        0 => drop(g),
        1 => { let b: Box<dyn Stream<Item = u8>> = Box::new(g); vh::check(released() == 0, "a lease is released while it is held"); drop(b); }
        2 => { let moved = vec![g]; vh::check(released() == 0, "a lease is released while it is held"); drop(moved); }
        _ => { let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let _g = g; std::panic::resume_unwind(Box::new(())) })); vh::check(r.is_err(), "unreachable"); }
    }
    vh::check(released() == 1, "a dropped lease is not released exactly once");
    vh::cover("done");
}
/// A runtime's lease over a broker: the queue lives exactly as long as the lease.
fn leased() {
    use lapin::model;
    use paladin::{config, operation::Result};
    #[derive(serde::Serialize, serde::Deserialize, RemoteExecute)]
    struct Id;
    impl Operation for Id { type Input = u8; type Output = u8; fn execute(&self, x: u8, _: AbortSignal) -> Result<u8> { Ok(x) } }
    let ok = run(async {
        let config = config::Config { runtime: config::Runtime::Amqp, amqp_uri: Some("amqp://x".into()), ..Default::default() };
        let rt = paladin::runtime::Runtime::from_config(&config, paladin::operation::marker::Marker).await.unwrap();
        let (i1, s1, r1) = rt.lease_coordinated_task_channel::<Id, u8>().await.unwrap();
        let (i2, s2, r2) = rt.lease_coordinated_task_channel::<Id, u8>().await.unwrap();
        vh::check(i1 != i2, "an issued channel is not fresh");
        let first = vh::bool("sender first");
        if first { drop(s1); settle().await; }
        vh::check(model::has_queue(&i1) && model::has_queue(&i2), "a lease is released while it is held");
        drop(r1);
        settle().await;
        vh::check(!model::has_queue(&i1), "a dropped lease is not released");
        vh::check(model::has_queue(&i2), "releasing a channel releases another");
        drop((r2, s2));
        settle().await;
        vh::check(!model::has_queue(&i2), "a dropped lease is not released");
        vh::check(model::has_queue(paladin::runtime::TASK_IPC_ROUTING_KEY), "releasing a channel releases another");
        vh::cover("done");
    });
    vh::check(ok.is_some(), "hangs");
}

/// Directives that are over, and leases that are dropped, leave no memory behind: what is in use does not grow with each.
fn memory(what: u32, times: u32) {
    use paladin::{directive::{Directive, IndexedStream, Literal}, operation::{Monoid, Result}};
    #[derive(serde::Serialize, serde::Deserialize, RemoteExecute)]
    struct Id;
    impl Operation for Id { type Input = u8; type Output = u8; fn execute(&self, x: u8, _: AbortSignal) -> Result<u8> { Ok(x) } }
    #[derive(serde::Serialize, serde::Deserialize, RemoteExecute)]
    struct Or;
    impl Monoid for Or { type Elem = u8; fn empty(&self) -> u8 { 0 } fn combine(&self, a: u8, b: u8, _: AbortSignal) -> Result<u8> { Ok(a | b) } }
    let ok = run(async {
        let rt = in_memory(1).await;
        let mut heap = Growth::new();
        let x = vh::u8("x");
        let first = vh::decide(2, "sender first") == 1;
        for k in 0..times {
            match what {
                0 => { let (_, s, r) = rt.lease_coordinated_task_channel::<Id, u8>().await.unwrap(); if (k & 1 == 0) == first { drop(r); drop(s) } else { drop(s); drop(r) } }
                1 => { let Ok(Literal(v)) = Directive::map(Literal(x), &Id).run(&rt).await else { return vh::check(false, "a map fails") }; vh::check(v == x, "a map yields a wrong result"); }
                2 => { let Ok(s) = Directive::map(IndexedStream::from([x, 2]), &Id).run(&rt).await else { return vh::check(false, "a map fails") }; vh::check(s.count().await == 2, "a map yields a wrong result"); }
                _ => { let Ok(v) = Directive::fold(IndexedStream::from([x, 2]), &Or).run(&rt).await else { return vh::check(false, "a fold fails") }; vh::check(v == x | 2, "a fold yields a wrong result"); }
            }
            settle().await;
            heap.sample();
        }
        vh::check(!heap.leaks(), "a channel that is no longer leased keeps its memory");
        vh::cover("done");
    });
    vh::check(ok.is_some(), "hangs");
}

/// Many channels are issued.
fn fresh() {
    let ok = run(async {
        let mut f = vec![QueueChannelFactory::new(InMemoryConnection::new(Serializer::default()))];
        f.push(f[0].clone());
        let mut seen = std::collections::HashSet::new();
        for i in 0..400 {
            let (id, _) = f[i % 2].issue(if i & 2 == 0 { ChannelType::ExactlyOnce } else { ChannelType::Broadcast }).await.unwrap();
            vh::check(!id.is_empty() && seen.insert(id), "an issued channel is not fresh");
        }
        vh::cover("done");
    });
    vh::check(ok.is_some(), "issuing a channel hangs");
}

harness! {
    names_options { other_options() }
    names_4 { by_name(4, 2, true) }
    names_5 { by_name(5, 2, true) }
    names_6 { by_name(6, 2, false) }
    names_four { by_name(4, 4, false) }
    names_survive { survive() }
    names_channels_once { channels(ChannelType::ExactlyOnce) }
    names_channels_cast { channels(ChannelType::Broadcast) }
    names_receivers { receivers() }
    names_guard { guard() }
    names_leased { leased() }
    names_fresh { fresh() }
    names_memory_lease { memory(0, 100) }
    names_memory_literal { memory(1, 100) }
    names_memory_map { memory(2, 100) }
    names_memory_fold { memory(3, 400) }
}
