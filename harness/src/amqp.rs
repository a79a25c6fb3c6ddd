//! C24: the AMQP backend against a model of the broker and its client library.
use crate::util::*;
use lapin::model::{self, Disp};
use paladin::{acker::Acker, queue::{Connection, DeliveryMode, Publisher, QueueDurability, QueueHandle, QueueOptions, SyndicationMode, amqp::{AMQPAcker, AMQPConnection, AMQPConnectionOptions, AMQPConsumer}}, serializer::Serializer};
use std::collections::VecDeque;

fn format() -> Serializer { if vh::decide(2, "cbor") == 1 { Serializer::Cbor } else { Serializer::Postcard } }
fn connect(qos: Option<u16>, serializer: Serializer) -> AMQPConnection { now(AMQPConnection::new(AMQPConnectionOptions { uri: "amqp://host", qos, serializer })).unwrap() }
fn options(mode: SyndicationMode) -> QueueOptions {
    QueueOptions { syndication_mode: mode,
        delivery_mode: if vh::decide(2, "ephemeral") == 1 { DeliveryMode::Ephemeral } else { DeliveryMode::Persistent },
        durability: if vh::decide(2, "durable") == 1 { QueueDurability::Durable } else { QueueDurability::NonDurable } }
}
/// Inside an executor (the code under test may spawn).
fn rt(f: impl Future<Output = ()>) { if run(f).is_none() { vh::check(false, "an AMQP operation hangs") } }
fn take(c: &mut AMQPConsumer<(u8, u8)>) -> Option<((u8, u8), AMQPAcker)> {
    let (_n, w) = CountWaker::new();
    match poll_stream(c, &w) { Poll::Ready(Some(x)) => Some(x), Poll::Ready(None) => { vh::check(false, "a consumer ends"); None } Poll::Pending => None }
}

/// Publications, deliveries and their dispositions, in every order.
fn exactly_once(steps: u32, qos: Option<u16>, consumers: usize) {
    rt(async move {
        let o = options(SyndicationMode::ExactlyOnce);
        let ser = format();
        let conns = [connect(qos, ser), connect(qos, ser)];
        let mut handles = vec![];
        for c in &conns { handles.push(c.declare_queue("q", o).await.unwrap()); }
        let mut cs: Vec<AMQPConsumer<(u8, u8)>> = vec![];
        let shared = consumers > 1 && vh::decide(2, "same connection") == 1;
        for i in 0..consumers {
            match handles[if shared { 0 } else { i % 2 }].declare_consumer(&format!("c{i}")).await { Ok(c) => cs.push(c), Err(_) => return vh::check(false, "consumers of different names on one connection fail") }
        }
        let limit = qos.unwrap_or(1) as usize;
        let mut sent: Vec<u8> = vec![];
        let mut seen = [false; 8];
        // (message, acker, already settled)
        let mut held: Vec<VecDeque<(u8, AMQPAcker)>> = (0..consumers).map(|_| VecDeque::new()).collect();
        let mut settled: Vec<(u8, bool, AMQPAcker)> = vec![];
        for _ in 0..steps {
            match vh::decide(4, "step") {
                0 => {
                    let v = vh::u8("payload");
                    vh::check(handles[vh::decide(2, "connection") as usize].publish(&(sent.len() as u8, v)).await.is_ok(), "publishing fails");
                    sent.push(v);
                }
                1 => {
                    let j = if consumers > 1 { vh::decide(consumers as u32, "consumer") as usize } else { 0 };
                    if let Some(((id, v), a)) = take(&mut cs[j]) {
                        vh::check((id as usize) < sent.len() && sent[id as usize] == v, "a delivered payload is altered");
                        vh::check(!seen[id as usize], "a message is delivered to two consumers");
                        seen[id as usize] = true;
                        held[j].push_back((id, a));
                        vh::cover("delivered");
                    }
                }
                2 => {
                    let j = if consumers > 1 { vh::decide(consumers as u32, "consumer") as usize } else { 0 };
                    vh::assume(!held[j].is_empty());
                    let k = if held[j].len() > 1 { vh::decide(held[j].len() as u32, "which") as usize } else { 0 };
                    let (id, a) = held[j].remove(k).unwrap();
                    let ack = vh::decide(2, "ack") == 1;
                    vh::check(if ack { a.ack().await } else { a.nack().await }.is_ok(), "settling a delivery fails");
                    settled.push((id, ack, a));
                }
                _ => {
                    // a second disposition of the same delivery affects nothing
                    vh::assume(!settled.is_empty());
                    let a = &settled[settled.len() - 1].2;
                    let (before, un) = (model::with(|b| b.disposed.len()), model::unacked());
                    _ = if vh::decide(2, "ack") == 1 { a.ack().await } else { a.nack().await };
                    vh::check(model::with(|b| b.disposed.len()) == before && model::unacked() == un, "a second disposition has an effect");
                }
            }
            // the broker saw exactly these dispositions, in this order (message ids count publications from 1)
            let d = model::with(|b| b.disposed.clone());
            vh::check(d.len() == settled.len(), "a disposition is lost or invented");
            for (x, (id, ack, _)) in d.iter().zip(&settled) {
                vh::check(x.0 == *id as u64 + 1, "a disposition affects another delivery");
                vh::check(if *ack { x.1 == Disp::Ack } else { matches!(x.1, Disp::Nack { .. }) }, "a message is acknowledged although it was rejected, or the other way round");
            }
            for h in &held { vh::check(h.len() <= limit, "more unacknowledged messages than the prefetch limit"); }
        }
        // everything else is still deliverable
        loop {
            let mut any = false;
            for j in 0..consumers {
                while let Some((_, a)) = held[j].pop_front() { vh::check(a.ack().await.is_ok(), "settling a delivery fails"); any = true; }
                while let Some(((id, v), a)) = take(&mut cs[j]) {
                    vh::check((id as usize) < sent.len() && sent[id as usize] == v, "a delivered payload is altered");
                    vh::check(!seen[id as usize], "a message is delivered to two consumers");
                    seen[id as usize] = true;
                    held[j].push_back((id, a));
                }
            }
            if !any && held.iter().all(|h| h.is_empty()) { break; }
        }
        for i in 0..sent.len() { vh::check(seen[i], "a published message is not delivered"); }
        vh::cover("done");
    })
}
/// Queues, exchanges and messages carry what the options say; names and deletions.
fn marks() {
    rt(async {
        let mode = if vh::decide(2, "broadcast") == 1 { SyndicationMode::Broadcast } else { SyndicationMode::ExactlyOnce };
        let o = options(mode);
        let ser = format();
        let conn = connect(None, ser);
        let c2 = conn.clone();
        let q = conn.declare_queue("name", o).await.unwrap();
        vh::check(c2.declare_queue("name", o).await.is_ok(), "a queue cannot be declared again");
        let other = conn.declare_queue("other", o).await.unwrap();
        let durable = o.durability == QueueDurability::Durable;
        vh::check(model::with(|b| b.queues.get("name").map(|q| q.options.durable)) == Some(durable), "a queue is not declared as durable as its options say");
        vh::check(model::with(|b| b.queues["name"].arguments.contains_key("x-expires")) != durable, "a queue does not expire as its durability says");
        if mode == SyndicationMode::Broadcast {
            vh::check(model::with(|b| b.exchanges.get("name").is_some_and(|e| e.kind == lapin::ExchangeKind::Fanout && e.options.durable == durable)), "a broadcast queue has no fanout exchange of its durability");
        }
        let v = (vh::u8("a"), vh::u8("b"));
        vh::check(match vh::decide(2, "how") { 0 => q.publish(&v).await, _ => q.clone().publisher::<(u8, u8)>().publish(&v).await }.is_ok(), "publishing fails");
        let p = model::with(|b| b.published.clone());
        vh::check(p.len() == 1 && p[0].routed == 1, "a publication does not reach exactly its queue");
        vh::check(*p[0].properties.delivery_mode() == if o.delivery_mode == DeliveryMode::Persistent { Some(2) } else { None } || o.delivery_mode == DeliveryMode::Ephemeral && *p[0].properties.delivery_mode() == Some(1), "a message is not marked as persistent as its options say");
        vh::check(ser.from_bytes::<(u8, u8)>(&p[0].data).is_ok_and(|w| w == v), "a message is not written in the connection's format");
        vh::check(other.publisher::<(u8, u8)>().close().await.is_ok(), "closing a publisher fails");
        let (victim, rest) = if vh::decide(2, "delete") == 1 { ("name", "other") } else { ("other", "name") };
        vh::check(c2.delete_queue(victim).await.is_ok(), "deleting a queue fails");
        vh::check(!model::has_queue(victim) && model::has_queue(rest), "deleting a queue does not delete exactly that queue");
        vh::check(mode != SyndicationMode::Broadcast || !model::has_exchange(victim) && model::has_exchange(rest), "deleting a queue does not delete exactly that queue");
        vh::check(conn.declare_queue(victim, o).await.is_ok(), "a queue cannot be declared again");
        let mut c = conn.declare_queue(victim, o).await.unwrap().declare_consumer::<(u8, u8)>("c").await.unwrap();
        vh::check(take(&mut c).is_none(), "a deleted queue keeps its messages");
        vh::cover("done");
    })
}
/// Connection parameters and failures of the client library.
fn failures() {
    rt(async {
        let ser = format();
        model::fail_connect(true);
        vh::check(AMQPConnection::new(AMQPConnectionOptions { uri: "amqp://a", qos: None, serializer: ser }).await.is_err(), "a failed connection is not reported");
        model::fail_connect(false);
        model::reset();
        let qos = [None, Some(1), Some(7)][vh::decide(3, "qos") as usize];
        let conn = AMQPConnection::new(AMQPConnectionOptions { uri: "amqp://a", qos, serializer: ser }).await.unwrap();
        vh::check(model::with(|b| b.uris == ["amqp://a"] && b.qos == [qos.unwrap_or(1)]), "the connection parameters are not used");
        let q = conn.declare_queue("q", QueueOptions::default()).await.unwrap();
        model::fail_next_publishes(1);
        let v = (vh::u8("a"), 0u8);
        vh::check(q.publish(&v).await.is_err(), "a failed publish is not reported");
        vh::check(q.publish(&v).await.is_ok(), "publishing fails");
        vh::check(model::ready("q").is_some_and(|r| r.len() == 1), "a failed publish delivers something");
        model::fail_consume(true);
        vh::check(q.declare_consumer::<(u8, u8)>("c").await.is_err(), "a failed consumer declaration is not reported");
        model::fail_consume(false);
        let mut c = q.declare_consumer::<(u8, u8)>("c").await.unwrap();
        vh::check(take(&mut c).is_some_and(|(x, _)| x == v), "a published message is not delivered");
        vh::check(conn.close().await.is_ok(), "closing a connection fails");
        vh::check(q.publish(&v).await.is_err(), "a failed publish is not reported");
        vh::check(matches!(poll_stream(&mut c, &CountWaker::new().1), Poll::Ready(None)), "a consumer of a closed connection does not end");
        vh::cover("done");
    })
}
/// Undecodable messages and delivery errors between good messages, consumed as a stream.
fn bad(n: usize, errors: bool) {
    let ser = format();
    let vals: Vec<u8> = (0..n).map(|_| vh::u8("payload")).collect();
    let kinds: Vec<u32> = (0..n).map(|_| vh::decide(if errors { 3 } else { 2 }, "kind")).collect();
    let goods: Vec<u8> = (0..n).filter(|i| kinds[*i] == 0).map(|i| vals[i]).collect();
    let expect = goods.clone();
    let qos = [Some(1), Some(3)][vh::decide(2, "qos") as usize];
    let early = vh::decide(2, "consumer first") == 1;
    let r = run(async move {
        let conn = connect(qos, ser);
        let q = conn.declare_queue("q", QueueOptions::default()).await.unwrap();
        let mut c: Option<AMQPConsumer<(u8, u8)>> = None;
        if early || errors { c = Some(q.declare_consumer("c").await.unwrap()); }
        let feed = async {
            for i in 0..n {
                match kinds[i] {
                    0 => q.publish(&(vals[i], 7u8)).await.unwrap(),
                    // (both formats reject a lone tag byte where a pair is expected)
                    1 => { model::inject("q", &[0xff]); }
                    _ => model::inject_error("q"),
                }
                if early { vh::event().await; }
            }
        };
        if !early { feed.await; if c.is_none() { c = Some(q.declare_consumer("c").await.unwrap()); } let mut c = c.unwrap(); return receive(&mut c, goods.len()).await; }
        let mut c = c.unwrap();
        futures::future::join(feed, receive(&mut c, goods.len())).await.1
    });
    match r {
        None => vh::check(false, "a bad message or delivery error stalls the messages behind it"),
        Some(got) => { vh::check(got == expect, "the good messages are not delivered unaltered and in order"); vh::cover("done"); }
    }
}
async fn receive(c: &mut AMQPConsumer<(u8, u8)>, n: usize) -> Vec<u8> {
    let mut got = vec![];
    while got.len() < n { match c.next().await { Some(((v, _), a)) => { a.ack().await.unwrap(); got.push(v); } None => break } }
    got
}
/// A broadcast queue with one consumer: it gets everything, also what was published before.
fn broadcast_one() {
    rt(async {
        let o = options(SyndicationMode::Broadcast);
        let ser = format();
        let (a, b) = (connect(Some(3), ser), connect(Some(3), ser));
        let (qa, qb) = (a.declare_queue("q", o).await.unwrap(), b.declare_queue("q", o).await.unwrap());
        let vals = [vh::u8("v"), vh::u8("v"), vh::u8("v")];
        let early = vh::decide(3, "before");
        for i in 0..early { qa.publish(&(i as u8, vals[i as usize])).await.unwrap(); }
        let mut c = qb.declare_consumer::<(u8, u8)>("c").await.unwrap();
        for i in early..3 { qa.publish(&(i as u8, vals[i as usize])).await.unwrap(); }
        for i in 0..3 { match take(&mut c) {
            Some(((k, v), a)) => { vh::check(k == i && v == vals[i as usize], "a broadcast message is lost, repeated or altered"); vh::check(a.ack().await.is_ok(), "settling a delivery fails"); }
            None => vh::check(o.delivery_mode == DeliveryMode::Ephemeral && (i as u32) < early, "a broadcast message is lost, repeated or altered"),
        } }
        vh::check(take(&mut c).is_none(), "a broadcast message is lost, repeated or altered");
        vh::cover("done");
    })
}
/// A broadcast queue with several consumers: each gets every message.
fn broadcast_all() {
    rt(async {
        let o = options(SyndicationMode::Broadcast);
        let ser = format();
        let n = 2 + vh::decide(2, "consumers") as usize;
        let mut cs = vec![];
        let mut conns = vec![];
        for i in 0..n {
            let conn = connect(Some(3), ser);
            cs.push(conn.declare_queue("q", o).await.unwrap().declare_consumer::<(u8, u8)>(&format!("c{i}")).await.unwrap());
            conns.push(conn);
        }
        let v = vh::u8("v");
        conns[0].declare_queue("q", o).await.unwrap().publish(&(1u8, v)).await.unwrap();
        let got: Vec<_> = cs.iter_mut().map(take).collect();
        for g in &got { if let Some((x, _)) = g { vh::check(*x == (1, v), "a delivered payload is altered"); } }
        let reached = got.iter().filter(|g| g.is_some()).count();
        vh::check(reached >= 1, "a broadcast message reaches no consumer");
        for c in &mut cs { vh::check(take(c).is_none(), "a broadcast message reaches a consumer twice"); }
        vh::cover("done");
        vh::check(reached == n, "a broadcast message does not reach every consumer");
    })
}
/// Two operations on one connection at a time, while the broker takes its time.
fn concurrent() {
    rt(async {
        let o = options(if vh::decide(2, "broadcast") == 1 { SyndicationMode::Broadcast } else { SyndicationMode::ExactlyOnce });
        let ser = format();
        let conn = connect(Some(3), ser);
        let a = conn.declare_queue("a", o).await.unwrap();
        let b = conn.declare_queue("b", o).await.unwrap();
        model::slow(true);
        let v = (vh::u8("v"), 1);
        let names = ["a", "b"];
        let (x, y) = (vh::decide(2, "first") as usize, vh::decide(2, "second") as usize);
        match vh::decide(4, "operations") {
            0 => {
                let (r, s) = futures::join!(conn.delete_queue(names[x]), conn.delete_queue(names[y]));
                vh::check(r.is_ok() && s.is_ok(), "deleting a queue fails");
                for i in 0..2 { vh::check(model::has_queue(names[i]) == (x != i && y != i), "deleting a queue does not delete exactly that queue"); }
            }
            1 => {
                vh::assume(x != y);
                let (r, s) = futures::join!(conn.delete_queue(names[x]), conn.declare_queue(names[y], o));
                vh::check(r.is_ok() && s.is_ok(), "a queue cannot be declared again");
                for i in 0..2 { vh::check(model::has_queue(names[i]) == (x != i), "deleting a queue does not delete exactly that queue"); }
            }
            2 => {
                vh::assume(x != y);
                let h = if y == 0 { &a } else { &b };
                let (r, s) = futures::join!(conn.delete_queue(names[x]), h.publish(&v));
                vh::check(r.is_ok() && s.is_ok(), "publishing fails");
                let mut c = h.declare_consumer::<(u8, u8)>("c").await.unwrap();
                vh::check(take(&mut c).is_some_and(|(w, _)| w == v), "a published message is not delivered");
            }
            _ => {
                let (r, s) = futures::join!(conn.declare_queue(names[x], o), conn.declare_queue("c", o));
                let (r, s) = (r.unwrap(), s.unwrap());
                let (p, q) = futures::join!(r.publish(&v), s.declare_consumer::<(u8, u8)>("t"));
                vh::check(p.is_ok(), "publishing fails");
                let mut q = q.unwrap();
                vh::check(take(&mut q).is_none(), "a message reaches another queue");
                vh::check(model::ready(names[x]).is_some_and(|r| r.len() == 1), "a published message is not delivered");
            }
        }
        vh::cover("done");
    })
}

harness! {
    amqp_once4 { exactly_once(4, Some(1), 2) }
    amqp_once5 { exactly_once(5, None, 1) }
    amqp_once5_two { exactly_once(5, Some(1), 2) }
    amqp_once6 { exactly_once(6, Some(2), 1) }
    amqp_marks { marks() }
    amqp_failures { failures() }
    amqp_bad { bad(3, false) }
    amqp_errors { bad(3, true) }
    amqp_bad4 { bad(4, true) }
    amqp_concurrent { concurrent() }
    amqp_broadcast_one { broadcast_one() }
    amqp_broadcast { broadcast_all() }
}
