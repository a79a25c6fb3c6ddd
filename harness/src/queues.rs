//! C10, C11: in-memory queues against a reference model.
use crate::util::*;
use paladin::{queue::{Connection, DeliveryMode, Publisher, QueueHandle, QueueOptions, SyndicationMode, in_memory::{InMemoryConnection, InMemoryConsumer, InMemoryQueueHandle}}, serializer::Serializer};
use std::collections::VecDeque;

/// A consumer together with what the model knows: which backlog it reads, and with which waker it waits.
struct Reader { c: InMemoryConsumer<u8>, backlog: usize, waiting: Option<(Arc<CountWaker>, Waker)> }

struct World { readers: Vec<Reader>, backlogs: Vec<VecDeque<u8>> }
impl World {
    fn woken(&self, b: usize) -> usize { self.readers.iter().filter(|r| r.backlog == b && r.waiting.as_ref().is_some_and(|(c, _)| c.count() > 0)).count() }
    fn waiting(&self, b: usize) -> usize { self.readers.iter().filter(|r| r.backlog == b && r.waiting.is_some()).count() }
    fn poll(&mut self, j: usize, fresh: bool) {
        let (c, w) = match (&self.readers[j].waiting, fresh) { (Some((c, w)), false) => (c.clone(), w.clone()), _ => CountWaker::new() };
        c.take();
        self.readers[j].waiting = None;
        let b = self.readers[j].backlog;
        match poll_stream(&mut self.readers[j].c, &w) {
            Poll::Ready(Some((v, a))) => {
                vh::check(now(paladin::acker::Acker::ack(&a)).is_ok(), "acknowledging fails");
                match self.backlogs[b].pop_front() {
                    None => vh::check(false, "a message is delivered that was not published (or a second time)"),
                    Some(x) => vh::check(x == v, "the message delivered is not the oldest outstanding one"),
                }
                vh::cover("delivered");
            }
            Poll::Ready(None) => vh::check(false, "a consumer ends"),
            Poll::Pending => {
                // A message may only be withheld for another consumer that was woken for it and has not come back yet.
                vh::check(self.backlogs[b].len() <= self.woken(b), "a consumer waits although a message is outstanding");
                self.readers[j].waiting = Some((c, w));
            }
        }
    }
    fn wakes(&self) {
        for b in 0..self.backlogs.len() {
            let need = self.backlogs[b].len().min(self.waiting(b));
            if need > 0 { vh::cover("woken"); }
            vh::check(self.woken(b) >= need, "a waiting consumer is not woken for a message");
        }
    }
    /// Everything outstanding can be received by whoever is still there.
    fn drain(&mut self) {
        for b in 0..self.backlogs.len() {
            let rs: Vec<usize> = (0..self.readers.len()).filter(|j| self.readers[*j].backlog == b).collect();
            if rs.is_empty() { continue; }
            // Those woken come back; then every message has been taken.
            for _ in 0..self.backlogs[b].len() + 1 { for j in &rs { if self.readers[*j].waiting.as_ref().map_or(true, |(c, _)| c.count() > 0) { self.poll(*j, false); } } }
            vh::check(self.backlogs[b].is_empty(), "a published message is lost");
        }
    }
}
fn queue(o: QueueOptions) -> (InMemoryConnection, InMemoryQueueHandle) {
    let conn = InMemoryConnection::new(Serializer::default());
    let q = now(conn.declare_queue("q", o)).unwrap();
    (conn, q)
}
/// Publish through one of several handles of the same queue.
fn publish(conn: &InMemoryConnection, q: &InMemoryQueueHandle, o: QueueOptions, route: u32, v: u8) {
    let r = match route {
        0 => now(q.publish(&v)),
        1 => now(q.clone().publisher::<u8>().publish(&v)),
        _ => now(now(conn.clone().declare_queue("q", o)).unwrap().publisher::<u8>().publish(&v)),
    };
    vh::check(r.is_ok(), "publishing fails");
}

fn exactly_once(steps: u32, routes: bool, max_readers: usize, drops: bool, wakers: bool) {
    let o = QueueOptions { syndication_mode: SyndicationMode::ExactlyOnce, delivery_mode: if vh::bool("ephemeral") { DeliveryMode::Ephemeral } else { DeliveryMode::Persistent }, ..Default::default() };
    let (conn, q) = queue(o);
    let mut w = World { readers: vec![], backlogs: vec![VecDeque::new()] };
    for _ in 0..steps {
        match vh::choice(if drops { 4 } else { 3 }, "step") {
            0 => {
                let v = vh::u8("payload");
                publish(&conn, &q, o, if routes { vh::choice(3, "route") } else { 0 }, v);
                w.backlogs[0].push_back(v);
            }
            1 => {
                vh::assume(w.readers.len() < max_readers);
                // same or different consumer names
                let name = if routes && vh::bool("same name") { "c".to_string() } else { format!("c{}", w.readers.len()) };
                let c = now(q.declare_consumer::<u8>(&name));
                vh::check(c.is_ok(), "declaring a consumer fails");
                w.readers.push(Reader { c: c.unwrap(), backlog: 0, waiting: None });
            }
            2 => {
                vh::assume(!w.readers.is_empty());
                let j = vh::choice(w.readers.len() as u32, "which") as usize;
                let fresh = wakers && w.readers[j].waiting.is_some() && vh::bool("new waker");
                w.poll(j, fresh);
            }
            _ => {
                vh::assume(!w.readers.is_empty());
                w.readers.remove(vh::choice(w.readers.len() as u32, "which") as usize);
            }
        }
        w.wakes();
    }
    if w.readers.is_empty() {
        let c = now(q.declare_consumer::<u8>("last")).unwrap();
        w.readers.push(Reader { c, backlog: 0, waiting: None });
    }
    w.drain();
    vh::cover("done");
}

fn broadcast(steps: u32, names: usize, max_readers: usize, drops: bool) {
    let persistent = !vh::bool("ephemeral");
    let o = QueueOptions { syndication_mode: SyndicationMode::Broadcast, delivery_mode: if persistent { DeliveryMode::Persistent } else { DeliveryMode::Ephemeral }, ..Default::default() };
    let (conn, q) = queue(o);
    let mut w = World { readers: vec![], backlogs: vec![] };
    let mut known: Vec<usize> = vec![]; // consumer name of each backlog
    let mut history: VecDeque<u8> = VecDeque::new();
    for _ in 0..steps {
        match vh::choice(if drops { 4 } else { 3 }, "step") {
            0 => {
                let v = vh::u8("payload");
                publish(&conn, &q, o, 0, v);
                for b in &mut w.backlogs { b.push_back(v); }
                if w.backlogs.is_empty() && persistent { history.push_back(v); }
            }
            1 => {
                vh::assume(w.readers.len() < max_readers);
                let name = vh::choice(names as u32, "name") as usize;
                let c = now(q.declare_consumer::<u8>(["a", "b", "c"][name]));
                vh::check(c.is_ok(), "declaring a consumer fails");
                let b = match known.iter().position(|n| *n == name) {
                    Some(b) => { vh::cover("shared"); b }
                    None => {
                        if !history.is_empty() { vh::cover("replayed"); }
                        known.push(name);
                        w.backlogs.push(std::mem::take(&mut history));
                        known.len() - 1
                    }
                };
                w.readers.push(Reader { c: c.unwrap(), backlog: b, waiting: None });
            }
            2 => {
                vh::assume(!w.readers.is_empty());
                let j = vh::choice(w.readers.len() as u32, "which") as usize;
                w.poll(j, false);
            }
            _ => {
                vh::assume(!w.readers.is_empty());
                w.readers.remove(vh::choice(w.readers.len() as u32, "which") as usize);
            }
        }
        w.wakes();
    }
    w.drain();
    vh::cover("done");
}

/// Long backlogs.
fn bulk(mode: SyndicationMode) {
    let o = QueueOptions { syndication_mode: mode, ..Default::default() };
    let (conn, q) = queue(o);
    let cast = mode == SyndicationMode::Broadcast;
    let early = vh::bool("consumers first");
    let mut w = World { readers: vec![], backlogs: if cast { vec![] } else { vec![VecDeque::new()] } };
    let add = |w: &mut World, k: usize, first: VecDeque<u8>| {
        let c = now(q.declare_consumer::<u8>(["a", "b"][k])).unwrap();
        if cast { w.backlogs.push(first); }
        w.readers.push(Reader { c, backlog: if cast { k } else { 0 }, waiting: None });
    };
    let mut history = VecDeque::new();
    if early { for k in 0..2 { add(&mut w, k, VecDeque::new()); } }
    let sizes = [1, 30, 31, 32, 33, 65];
    for burst in 0..2 {
        for i in 0..sizes[vh::decide(6, "burst") as usize] {
            let v = if i == 0 { vh::u8("payload") } else { (burst * 100 + i) as u8 };
            publish(&conn, &q, o, 0, v);
            for b in &mut w.backlogs { b.push_back(v); }
            if cast && w.backlogs.is_empty() { history.push_back(v); }
        }
        if w.readers.is_empty() { for k in 0..2 { add(&mut w, k, std::mem::take(&mut history)); } }
        for _ in 0..[0, 1, 31, 34][vh::decide(4, "take") as usize] { for j in 0..2 { w.poll(j, false); } }
        w.wakes();
    }
    w.drain();
    vh::cover("done");
}

/// Structured payloads, either wire format.
fn payloads(mode: SyndicationMode) {
    #[derive(serde::Serialize, serde::Deserialize, PartialEq, Clone)]
    enum P { A, B(u64), C { s: String, o: Option<u8> } }
    let ser = if vh::bool("cbor") { Serializer::Cbor } else { Serializer::Postcard };
    let conn = InMemoryConnection::new(ser);
    let q = now(conn.declare_queue("q", QueueOptions { syndication_mode: mode, ..Default::default() })).unwrap();
    let mut cs: Vec<InMemoryConsumer<P>> = (0..2).map(|i| now(q.declare_consumer::<P>(&format!("c{i}"))).unwrap()).collect();
    let vals: Vec<P> = (0..2).map(|_| match vh::choice(3, "variant") {
        0 => P::A,
        1 => P::B(vh::u64("b")),
        _ => P::C { s: { let c = vh::u8("s"); vh::assume(c < 128); let mut s = String::from("x"); s.push(c as char); s }, o: if vh::bool("some") { Some(vh::u8("o")) } else { None } },
    }).collect();
    for v in &vals { vh::check(now(q.publish(v)).is_ok(), "publishing fails"); }
    let (_c, w) = CountWaker::new();
    if mode == SyndicationMode::Broadcast {
        for c in &mut cs { for v in &vals { match poll_stream(c, &w) { Poll::Ready(Some((x, _))) => vh::check(x == *v, "the message delivered is not the oldest outstanding one"), _ => vh::check(false, "a consumer waits although a message is outstanding") } } }
    } else {
        for v in &vals { let k = vh::choice(2, "consumer") as usize; match poll_stream(&mut cs[k], &w) { Poll::Ready(Some((x, _))) => vh::check(x == *v, "the message delivered is not the oldest outstanding one"), _ => vh::check(false, "a consumer waits although a message is outstanding") } }
    }
    for c in &mut cs { vh::check(poll_stream(c, &w).is_pending(), "a message is delivered that was not published (or a second time)"); }
    vh::cover("done");
}

/// Publishers and consumers as tasks of one executor: everything is received once, in order per publisher.
fn tasks(broadcast: bool, sched: u32) {
    vh::set_delays(sched);
    let data: Vec<Vec<u8>> = (0..2).map(|_| (0..2).map(|_| vh::u8("payload")).collect()).collect();
    let d2 = data.clone();
    let ok = run(async move {
        let o = QueueOptions { syndication_mode: if broadcast { SyndicationMode::Broadcast } else { SyndicationMode::ExactlyOnce }, ..Default::default() };
        let (_, q) = queue(o);
        let got: Arc<std::sync::Mutex<Vec<(usize, u8)>>> = Default::default();
        for k in 0..2usize {
            let mut c = q.declare_consumer::<(u8, u8)>(&k.to_string()).await.unwrap();
            let got = got.clone();
            tokio::spawn(async move { while let Some(((id, v), _)) = c.next().await { got.lock().unwrap().push((k * 16 + id as usize, v)); } });
        }
        for (p, vs) in data.into_iter().enumerate() {
            let q = q.clone();
            tokio::spawn(async move { for (i, v) in vs.into_iter().enumerate() { q.publish(&((p * 4 + i) as u8, v)).await.unwrap(); vh::event().await; } });
        }
        settle().await;
        let got = got.lock().unwrap().clone();
        for p in 0..2 { for i in 0..2 {
            let hits: Vec<_> = got.iter().filter(|(id, _)| id % 16 == p * 4 + i).collect();
            vh::check(hits.len() == if broadcast { 2 } else { 1 }, "a message is not delivered exactly as often as it should be");
            for h in &hits { vh::check(h.1 == d2[p][i], "a message is altered"); }
            if hits.len() == 2 { vh::check(hits[0].0 / 16 != hits[1].0 / 16, "a message is not delivered exactly as often as it should be"); }
        } }
        for k in 0..2 { for p in 0..2 {
            let ids: Vec<usize> = got.iter().map(|g| g.0).filter(|id| id / 16 == k && id % 16 / 4 == p).collect();
            vh::check(ids.windows(2).all(|w| w[0] < w[1]), "a consumer receives messages out of order");
        } }
        vh::cover("done");
    });
    vh::check(ok.is_some(), "the consumers never finish");
}

harness! {
    once_5 { exactly_once(5, false, 3, true, true) }
    once_6 { exactly_once(6, false, 3, true, true) }
    once_7 { exactly_once(7, false, 3, true, false) }
    once_8 { exactly_once(8, false, 3, true, false) }
    once_routes { exactly_once(5, true, 2, false, false) }
    once_routes6 { exactly_once(6, true, 2, false, false) }
    once_payloads { payloads(SyndicationMode::ExactlyOnce) }
    once_tasks { tasks(false, 0) }
    once_tasks_sched { tasks(false, 2) }
    cast_5 { broadcast(5, 3, 3, true) }
    cast_6 { broadcast(6, 2, 3, true) }
    cast_7 { broadcast(7, 2, 3, false) }
    cast_8 { broadcast(8, 2, 3, false) }
    once_bulk { bulk(SyndicationMode::ExactlyOnce) }
    cast_bulk { bulk(SyndicationMode::Broadcast) }
    cast_payloads { payloads(SyndicationMode::Broadcast) }
    cast_tasks { tasks(true, 0) }
    cast_tasks_sched { tasks(true, 2) }
}
