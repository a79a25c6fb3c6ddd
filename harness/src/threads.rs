//! C13: in-memory channels used from several threads. Preemption is possible before every atomic operation.
use crate::util::*;
use paladin::{acker::Acker, channel::coordinated_channel::{coordinated_channel, coordinated_publisher::CoordinatedPublisher}, contiguous::{Contiguous, ContiguousQueue},
    queue::{Connection, DeliveryMode, Publisher, QueueHandle, QueueOptions, SyndicationMode, in_memory::{InMemoryConnection, InMemoryConsumer, InMemoryQueueHandle}}, serializer::Serializer};
use std::thread::{spawn, JoinHandle};

fn thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> JoinHandle<T> { spawn(move || vh::preemptible(f)) }
/// Run a future on this thread. Woken while polling, it lets others run before polling again.
fn block_on<F: Future>(f: F) -> F::Output {
    struct W(std::thread::Thread, AtomicBool);
    impl Wake for W { fn wake(self: Arc<Self>) { self.1.store(true, Ordering::SeqCst); self.0.unpark(); } }
    let w = Arc::new(W(std::thread::current(), AtomicBool::new(false)));
    let k = Waker::from(w.clone());
    let mut f = std::pin::pin!(f);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&k)) { return v; }
        if w.1.load(Ordering::SeqCst) { std::thread::yield_now(); }
        while !w.1.swap(false, Ordering::SeqCst) { std::thread::park(); }
    }
}
fn options(m: SyndicationMode, persistent: bool) -> QueueOptions { QueueOptions { syndication_mode: m, delivery_mode: if persistent { DeliveryMode::Persistent } else { DeliveryMode::Ephemeral }, ..Default::default() } }
fn queue(m: SyndicationMode, persistent: bool) -> InMemoryQueueHandle { now(InMemoryConnection::new(Serializer::default()).declare_queue("q", options(m, persistent))).unwrap() }
fn consumer(q: &InMemoryQueueHandle, name: &str) -> InMemoryConsumer<u8> { now(q.declare_consumer::<u8>(name)).unwrap() }
fn publish(q: &InMemoryQueueHandle, v: u8) { vh::check(now(q.publisher::<u8>().publish(&v)).is_ok(), "publishing fails"); }
/// Whatever is there without waiting.
fn poll(c: &mut InMemoryConsumer<u8>, times: usize) -> Vec<u8> {
    let mut out = vec![];
    for _ in 0..times { if let Some(Some((v, a))) = c.next().now_or_never() { _ = now(Acker::ack(&a)); out.push(v); } }
    out
}
fn wait(c: &mut InMemoryConsumer<u8>, n: usize) -> Vec<u8> { (0..n).map(|_| block_on(c.next()).unwrap().0).collect() }
fn drain(c: &mut InMemoryConsumer<u8>) -> Vec<u8> { let mut all = vec![]; loop { let v = poll(c, 1); if v.is_empty() { return all; } all.extend(v); } }
/// The same values, in any order.
fn same(mut got: Vec<u8>, want: &[u8], what: &str) {
    let mut ok = got.len() == want.len();
    if ok { got.sort_unstable(); let mut w = want.to_vec(); w.sort_unstable(); ok = got == w; }
    vh::check(ok, what);
}
const EXACTLY: &str = "a message is lost or delivered twice";
fn two() -> (u8, u8) { let a = vh::u8("a"); (a & 0x7f, vh::u8("b") | 0x80) }
fn cat(a: Vec<u8>, b: Vec<u8>) -> Vec<u8> { [a, b].concat() }

struct Piece { from: usize, to: usize }
impl Contiguous for Piece {
    type Key = usize;
    fn is_contiguous(&self, o: &Self) -> bool { self.to + 1 == o.from || o.to + 1 == self.from }
    fn key(&self) -> &usize { &self.from }
}
type Pieces = Arc<ContiguousQueue<Piece>>;
/// Join `p` with whatever adjoins it until nothing does.
fn join(q: &ContiguousQueue<Piece>, mut p: Piece, n: usize) -> Option<(usize, usize)> {
    loop {
        if p.from == 0 && p.to == n - 1 { return Some((p.from, p.to)); }
        let (a, b) = q.acquire_contiguous_pair_or_queue(p)?;
        vh::check(a.to + 1 == b.from, "a pair is not adjacent");
        p = Piece { from: a.from, to: b.to };
    }
}
fn rest(q: &ContiguousQueue<Piece>, n: usize, done: &[Option<(usize, usize)>]) {
    let mut seen = vec![0; n];
    for d in done.iter().flatten() { for i in d.0..=d.1 { seen[i] += 1; } }
    for k in 0..n { if let Some(p) = q.dequeue(&k) { for i in p.from..=p.to { if i < n { seen[i] += 1; } } } }
    vh::check(seen.iter().all(|s| *s == 1), "an element is lost or duplicated");
}
type Chan = (Arc<CoordinatedPublisher<u8, paladin::queue::in_memory::InMemoryPublisher<u8>>>, paladin::channel::coordinated_channel::coordinated_stream::CoordinatedStream<Inner>);
/// Without the queue's own (no-op) acknowledgement.
struct Inner(InMemoryConsumer<u8>);
impl Stream for Inner {
    type Item = u8;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u8>> { self.0.poll_next_unpin(cx).map(|x| x.map(|x| x.0)) }
}
fn acknowledge(k: &impl Acker) { vh::check(now(k.ack()).is_ok(), "acknowledging fails"); }
fn coordinated() -> Chan {
    let q = queue(SyndicationMode::ExactlyOnce, false);
    let (p, s) = coordinated_channel(q.publisher::<u8>(), Inner(consumer(&q, "c")));
    (Arc::new(p), s)
}
const ENDED: &str = "a message whose publication succeeded is not received before the channel ends";

harness! {
    // two publishers, one consumer
    thr_once_publish {
        let q = queue(SyndicationMode::ExactlyOnce, false);
        let mut c = consumer(&q, "c");
        let (a, b) = two();
        let q2 = q.clone();
        let t = thread(move || publish(&q2, a));
        let got = vh::preemptible(|| { publish(&q, b); poll(&mut c, 2) });
        t.join().unwrap();
        same(cat(got, drain(&mut c)), &[a, b], EXACTLY);
        vh::cover("done");
    }
    // two consumers
    thr_once_consume {
        let q = queue(SyndicationMode::ExactlyOnce, false);
        let (mut c, mut d) = (consumer(&q, "c"), consumer(&q, "d"));
        let (a, b) = two();
        publish(&q, a);
        publish(&q, b);
        let t = thread(move || poll(&mut d, 2));
        let got = vh::preemptible(|| poll(&mut c, 2));
        let got = cat(got, t.join().unwrap());
        same(cat(got, drain(&mut consumer(&q, "e"))), &[a, b], EXACTLY);
        vh::cover("done");
    }
    // a consumer waiting while a message is published
    thr_once_wait {
        let q = queue(SyndicationMode::ExactlyOnce, false);
        let mut c = consumer(&q, "c");
        let (a, b) = two();
        let q2 = q.clone();
        let t = thread(move || wait(&mut c, 2));
        vh::preemptible(|| { publish(&q2, a); publish(&q2, b); });
        vh::check(t.join().unwrap() == [a, b], "messages are reordered");
        vh::cover("done");
    }
    // two consumers waiting for one message each
    thr_once_wait2 {
        let q = queue(SyndicationMode::ExactlyOnce, false);
        let (mut c, mut d) = (consumer(&q, "c"), consumer(&q, "d"));
        let (a, b) = two();
        let (t, u) = (thread(move || wait(&mut c, 1)), thread(move || wait(&mut d, 1)));
        vh::preemptible(|| { publish(&q, a); publish(&q, b); });
        same(cat(t.join().unwrap(), u.join().unwrap()), &[a, b], EXACTLY);
        vh::cover("done");
    }
    thr_cast_publish {
        let q = queue(SyndicationMode::Broadcast, vh::decide(2, "persistent") == 1);
        let (mut c, mut d) = (consumer(&q, "c"), consumer(&q, "d"));
        let (a, b) = two();
        let q2 = q.clone();
        let t = thread(move || publish(&q2, a));
        let got = vh::preemptible(|| { publish(&q, b); poll(&mut c, 2) });
        t.join().unwrap();
        same(cat(got, drain(&mut c)), &[a, b], EXACTLY);
        same(drain(&mut d), &[a, b], EXACTLY);
        vh::cover("done");
    }
    // a consumer declared while a message is published
    thr_cast_declare {
        let persistent = vh::decide(2, "persistent") == 1;
        let q = queue(SyndicationMode::Broadcast, persistent);
        let (a, b) = two();
        let before = vh::decide(2, "one before") == 1;
        if before { publish(&q, b); }
        let q2 = q.clone();
        let t = thread(move || publish(&q2, a));
        let (mut c, got) = vh::preemptible(|| { let mut c = consumer(&q, "c"); let got = poll(&mut c, 1); (c, got) });
        t.join().unwrap();
        let got = cat(got, drain(&mut c));
        let all = if before { vec![a, b] } else { vec![a] };
        if persistent { same(got, &all, EXACTLY); } else { vh::check(got.is_empty() || got == [a], EXACTLY); }
        vh::cover("done");
    }
    thr_cast_declare2 {
        let persistent = vh::decide(2, "persistent") == 1;
        let q = queue(SyndicationMode::Broadcast, persistent);
        let a = vh::u8("a");
        let (q2, q3) = (q.clone(), q.clone());
        let (t, u) = (thread(move || consumer(&q2, "c")), thread(move || consumer(&q3, "d")));
        vh::preemptible(|| publish(&q, a));
        let (x, y) = (drain(&mut t.join().unwrap()), drain(&mut u.join().unwrap()));
        for v in [&x, &y] { vh::check(v.is_empty() || *v == [a], EXACTLY); }
        if persistent { vh::check(x.len() + y.len() > 0, EXACTLY); }
        vh::cover("done");
    }
    thr_cast_wait {
        let q = queue(SyndicationMode::Broadcast, vh::decide(2, "persistent") == 1);
        let mut c = consumer(&q, "c");
        let (a, b) = two();
        let t = thread(move || wait(&mut c, 2));
        vh::preemptible(|| { publish(&q, a); publish(&q, b); });
        vh::check(t.join().unwrap() == [a, b], "messages are reordered");
        vh::cover("done");
    }
    // the same name declared by two threads
    thr_declare {
        let conn = InMemoryConnection::new(Serializer::default());
        let m = [SyndicationMode::ExactlyOnce, SyndicationMode::Broadcast][vh::decide(2, "mode") as usize];
        let (a, b) = two();
        let c2 = conn.clone();
        let go = move |c: &InMemoryConnection, v: u8| { let q = now(c.declare_queue("q", options(m, true))).unwrap(); publish(&q, v); };
        let t = thread(move || go(&c2, a));
        vh::preemptible(|| go(&conn, b));
        t.join().unwrap();
        let q = now(conn.declare_queue("q", options(m, true))).unwrap();
        same(drain(&mut consumer(&q, "c")), &[a, b], "a queue declared twice at a time is not one queue");
        vh::cover("done");
    }
    // publishing while another thread closes the channel
    thr_coord_close {
        let (p, mut s) = coordinated();
        let a = vh::u8("a");
        let p2 = p.clone();
        let t = thread(move || now(p2.publish(&a)).is_ok());
        let u = thread(move || { let mut got = vec![]; while let Some((v, k)) = block_on(s.next()) { acknowledge(&k); got.push(v); } got });
        vh::preemptible(|| { vh::check(now(p.close()).is_ok(), "closing fails"); });
        let ok = t.join().unwrap();
        let got = u.join().unwrap();
        vh::check(if ok { got == [a] } else { got.is_empty() }, ENDED);
        vh::cover(if ok { "published" } else { "refused" });
    }
    // acknowledgements from other threads than the receiver's
    thr_coord_ack {
        let (p, mut s) = coordinated();
        let (a, b) = two();
        now(p.publish(&a)).unwrap();
        now(p.publish(&b)).unwrap();
        let (x, k) = block_on(s.next()).unwrap();
        let (y, l) = block_on(s.next()).unwrap();
        vh::check(x == a && y == b, "messages are reordered");
        let done = Arc::new(AtomicU32::new(0));
        let (d2, d3) = (done.clone(), done.clone());
        let t = thread(move || { d2.fetch_add(1, Ordering::SeqCst); acknowledge(&k); });
        let u = thread(move || { d3.fetch_add(1, Ordering::SeqCst); acknowledge(&l); });
        let n = vh::preemptible(|| { _ = now(p.close()); vh::check(block_on(s.next()).is_none(), "a message is invented"); done.load(Ordering::SeqCst) });
        vh::check(n == 2, "a channel ends before the last acknowledgement");
        t.join().unwrap();
        u.join().unwrap();
        vh::cover("done");
    }
    // the receiver goes to sleep while the last message is acknowledged and the channel closed
    thr_coord_end {
        let (p, mut s) = coordinated();
        let a = vh::u8("a");
        now(p.publish(&a)).unwrap();
        let (x, k) = block_on(s.next()).unwrap();
        vh::check(x == a, "messages are reordered");
        let t = thread(move || block_on(s.next()).is_none());
        let u = thread(move || acknowledge(&k));
        vh::preemptible(|| drop(p));
        vh::check(t.join().unwrap(), "a message is invented");
        u.join().unwrap();
        vh::cover("done");
    }
    // the same message acknowledged twice at a time
    thr_coord_ack_twice {
        let (p, mut s) = coordinated();
        let (a, b) = two();
        now(p.publish(&a)).unwrap();
        now(p.publish(&b)).unwrap();
        let k = Arc::new(block_on(s.next()).unwrap().1);
        let k2 = k.clone();
        now(p.close()).unwrap();
        let t = thread(move || acknowledge(&*k2));
        vh::preemptible(|| acknowledge(&*k));
        t.join().unwrap();
        let Some((v, l)) = block_on(s.next()) else { return vh::check(false, ENDED) };
        vh::check(v == b, "messages are reordered");
        vh::check(s.next().now_or_never().is_none(), "a channel ends before the last acknowledgement");
        acknowledge(&l);
        vh::check(matches!(s.next().now_or_never(), Some(None)), "a channel does not end");
        vh::cover("done");
    }
    thr_asm_two {
        let q: Pieces = Default::default();
        let q2 = q.clone();
        let t = thread(move || join(&q2, Piece { from: 0, to: 0 }, 2));
        let x = vh::preemptible(|| join(&q, Piece { from: 1, to: 1 }, 2));
        let y = t.join().unwrap();
        rest(&q, 2, &[x, y]);
        vh::cover(if x.is_some() || y.is_some() { "joined" } else { "both queued" });
    }
    thr_asm_three {
        let q: Pieces = Default::default();
        q.queue(Piece { from: 1, to: 1 });
        let q2 = q.clone();
        let t = thread(move || join(&q2, Piece { from: 0, to: 0 }, 3));
        let x = vh::preemptible(|| join(&q, Piece { from: 2, to: 2 }, 3));
        let y = t.join().unwrap();
        rest(&q, 3, &[x, y]);
        vh::cover("done");
    }
    thr_asm_find {
        let q: Pieces = Default::default();
        q.queue(Piece { from: 1, to: 1 });
        let q2 = q.clone();
        let t = thread(move || q2.find_contiguous(&Piece { from: 0, to: 0 }).is_some());
        let x = vh::preemptible(|| match q.find_contiguous(&Piece { from: 2, to: 2 }) { Some(_) => true, None => q.dequeue(&1).is_some() });
        vh::check(t.join().unwrap() != x, "an element is lost or duplicated");
        vh::cover("done");
    }
}
