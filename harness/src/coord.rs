//! C07, C08: coordinated channels.
use crate::util::*;
use paladin::{acker::Acker, channel::coordinated_channel::{coordinated_channel, coordinated_publisher::CoordinatedPublisherError}, queue::{Connection, Publisher, QueueHandle, QueueOptions}};
use std::collections::VecDeque;
use std::sync::Mutex;

/// The pipe between sender and receiver: what is published can be received; publishing may fail.
#[derive(Default)]
struct Pipe { items: VecDeque<u8>, waker: Option<Waker>, fail: bool, closes: u32, ended: bool, slow: u8, go: bool }
#[derive(Clone, Default)]
struct End(Arc<Mutex<Pipe>>);
/// A publish takes time before, or after, its message can be received.
const BEFORE: u8 = 1;
const AFTER: u8 = 2;
impl End {
    fn push(&self, v: u8) -> anyhow::Result<()> {
        let w = { let mut g = self.0.lock().unwrap(); if g.fail { anyhow::bail!("boom-publish"); } g.items.push_back(v); g.waker.take() };
        if let Some(w) = w { w.wake(); }
        Ok(())
    }
}
#[paladin::async_trait]
impl Publisher<u8> for End {
    async fn publish(&self, p: &u8) -> anyhow::Result<()> {
        let slow = self.0.lock().unwrap().slow;
        if slow == AFTER { self.push(*p)? }
        if slow != 0 { std::future::poll_fn(|_| if self.0.lock().unwrap().go { Poll::Ready(()) } else { Poll::Pending }).await; }
        if slow != AFTER { self.push(*p)? }
        Ok(())
    }
    async fn close(&self) -> anyhow::Result<()> { self.0.lock().unwrap().closes += 1; Ok(()) }
}
impl Stream for End {
    type Item = u8;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u8>> {
        let mut g = self.0.lock().unwrap();
        match g.items.pop_front() {
            Some(v) => Poll::Ready(Some(v)),
            None if g.ended => Poll::Ready(None),
            None => { g.waker = Some(cx.waker().clone()); Poll::Pending }
        }
    }
}

/// Every sequence of `steps` operations on a coordinated channel against its specification.
fn sequence(steps: u32, failing: bool, ending: bool) {
    let pipe = End::default();
    let (tx, mut rx) = coordinated_channel(pipe.clone(), pipe.clone());
    let mut tx = Some(tx);
    let mut sent: VecDeque<u8> = VecDeque::new();     // published, not received
    let mut unacked: Vec<Box<dyn Acker>> = vec![];    // received, not acknowledged
    let mut acked: Vec<Box<dyn Acker>> = vec![];      // acknowledged already
    let mut closed = false;
    let mut inner_ended = false;
    // The receiver's last poll was pending: it waits with this waker.
    let mut waiting: Option<(Arc<CountWaker>, Waker)> = None;
    for _ in 0..steps {
        match vh::choice(if ending { 8 } else { 7 }, "step") {
            0 => { // publish
                let Some(t) = &tx else { vh::assume(false); return };
                vh::assume(!inner_ended);
                let v = vh::u8("payload");
                let fail = failing && vh::bool("publish fails");
                pipe.0.lock().unwrap().fail = fail;
                let r = now(t.publish(&v));
                if closed {
                    vh::check(r.as_ref().is_err_and(|e| matches!(e.downcast_ref(), Some(CoordinatedPublisherError::PublisherClosed))), "a publish on a closed sender is not rejected");
                } else if fail {
                    vh::check(r.as_ref().is_err_and(|e| format!("{e:#}").contains("boom-publish")), "a failed publish does not report the failure");
                    vh::cover("failed publish");
                } else {
                    vh::check(r.is_ok(), "a publish fails although nothing failed");
                    sent.push_back(v);
                }
            }
            1 => { // close
                let Some(t) = &tx else { vh::assume(false); return };
                vh::check(now(t.close()).is_ok(), "closing fails");
                closed = true;
            }
            2 => { // drop the sender
                vh::assume(tx.is_some());
                tx = None;
                closed = true;
            }
            3 => { // acknowledge or reject some message
                vh::assume(!unacked.is_empty());
                let a = unacked.remove(vh::choice(unacked.len() as u32, "which") as usize);
                let r = if vh::bool("ack") { now(a.ack()) } else { now(a.nack()) };
                vh::check(r.is_ok(), "acknowledging fails");
                acked.push(a);
            }
            4 => { // acknowledge again
                vh::assume(!acked.is_empty());
                let a = &acked[vh::choice(acked.len() as u32, "again") as usize];
                let r = if vh::bool("ack") { now(a.ack()) } else { now(a.nack()) };
                vh::check(r.is_ok(), "acknowledging twice fails");
            }
            7 => { vh::assume(!inner_ended); inner_ended = true; let w = { let mut g = pipe.0.lock().unwrap(); g.ended = true; g.waker.take() }; if let Some(w) = w { w.wake(); } }
            k => { // poll the receiver, from the same task as before or from another one
                let (c, w) = match (&waiting, k) { (Some((c, w)), 5) => (c.clone(), w.clone()), _ => CountWaker::new() };
                c.take();
                waiting = None;
                let outstanding = !sent.is_empty() || !unacked.is_empty();
                match poll_stream(&mut rx, &w) {
                    Poll::Ready(Some((v, a))) => {
                        vh::check(sent.front() == Some(&v), "the received message is not the next one published");
                        sent.pop_front();
                        unacked.push(Box::new(a));
                    }
                    Poll::Ready(None) => {
                        vh::check(!outstanding, "the receiver ends while a message is outstanding");
                        vh::check(closed || inner_ended, "the receiver ends although the sender is open");
                        vh::cover("ended");
                        return;
                    }
                    Poll::Pending => {
                        vh::check(sent.is_empty(), "the receiver does not yield a message that was published");
                        vh::check(outstanding || !(closed || inner_ended), "the receiver does not end although closed and fully acknowledged");
                        waiting = Some((c, w));
                    }
                }
            }
        }
        if let Some((c, _)) = &waiting {
            let outstanding = !sent.is_empty() || !unacked.is_empty();
            if !sent.is_empty() { vh::check(c.count() > 0, "a waiting receiver is not woken for a message"); vh::cover("woken for message"); }
            if (closed || inner_ended) && !outstanding { vh::check(c.count() > 0, "a waiting receiver is not woken for the end"); vh::cover("woken for end"); }
        }
    }
    vh::cover("done");
    if closed && sent.is_empty() && unacked.is_empty() && !inner_ended {
        let (_c, w) = CountWaker::new();
        vh::check(matches!(poll_stream(&mut rx, &w), Poll::Ready(None)), "the receiver does not end although closed and fully acknowledged");
    }
}

/// Publishing takes time: what happens while one publish is in progress.
fn slow_sequence(steps: u32, failing: bool) {
    let pipe = End::default();
    let (tx, mut rx) = coordinated_channel(pipe.clone(), pipe.clone());
    let tx = Arc::new(tx);
    let mut sent: VecDeque<u8> = VecDeque::new();
    let mut unacked: Vec<Box<dyn Acker>> = vec![];
    let mut closed = false;
    let mut publishing: Option<(Pin<Box<dyn Future<Output = anyhow::Result<()>>>>, u8, u8)> = None;
    let mut waiting: Option<(Arc<CountWaker>, Waker)> = None;
    let (_c0, w0) = CountWaker::new();
    for _ in 0..steps {
        match vh::choice(6, "step") {
            0 => { // begin to publish
                vh::assume(publishing.is_none());
                let v = vh::u8("payload");
                let mode = vh::choice(3, "slow") as u8;
                { let mut g = pipe.0.lock().unwrap(); g.slow = mode; g.go = false; g.fail = false; }
                let t = tx.clone();
                let mut f: Pin<Box<dyn Future<Output = anyhow::Result<()>>>> = Box::pin(async move { t.publish(&v).await });
                match f.as_mut().poll(&mut Context::from_waker(&w0)) {
                    Poll::Ready(r) if closed => vh::check(r.as_ref().is_err_and(|e| matches!(e.downcast_ref(), Some(CoordinatedPublisherError::PublisherClosed))), "a publish on a closed sender is not rejected"),
                    Poll::Ready(r) => {
                        vh::check(mode == 0 && r.is_ok(), "a publish fails although nothing failed");
                        sent.push_back(v);
                    }
                    Poll::Pending => {
                        vh::check(!closed, "a publish on a closed sender is not rejected");
                        if mode == AFTER { sent.push_back(v); }
                        publishing = Some((f, mode, v));
                    }
                }
            }
            1 => { // the publish in progress ends
                let Some((mut f, mode, v)) = publishing.take() else { vh::assume(false); return };
                let fail = failing && mode == BEFORE && vh::bool("publish fails");
                { let mut g = pipe.0.lock().unwrap(); g.go = true; g.fail = fail; }
                // a message that is published can be received at once
                let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&w0)) else { return vh::check(false, "a publish does not end") };
                if fail {
                    vh::check(r.as_ref().is_err_and(|e| format!("{e:#}").contains("boom-publish")), "a failed publish does not report the failure");
                    vh::cover("failed publish");
                } else {
                    vh::check(r.is_ok(), "a publish fails although nothing failed");
                    if mode == BEFORE { sent.push_back(v); }
                    if closed { vh::cover("published across closing"); }
                }
            }
            2 => { vh::check(now(tx.close()).is_ok(), "closing fails"); closed = true; }
            3 => { // acknowledge or reject some message
                vh::assume(!unacked.is_empty());
                let a = unacked.remove(vh::choice(unacked.len() as u32, "which") as usize);
                let r = if vh::bool("ack") { now(a.ack()) } else { now(a.nack()) };
                vh::check(r.is_ok(), "acknowledging fails");
            }
            k => {
                let (c, w) = match (&waiting, k) { (Some((c, w)), 4) => (c.clone(), w.clone()), _ => CountWaker::new() };
                c.take();
                waiting = None;
                let outstanding = !sent.is_empty() || !unacked.is_empty() || publishing.as_ref().is_some_and(|p| p.1 == BEFORE);
                match poll_stream(&mut rx, &w) {
                    Poll::Ready(Some((v, a))) => {
                        vh::check(sent.front() == Some(&v), "the received message is not the next one published");
                        sent.pop_front();
                        unacked.push(Box::new(a));
                    }
                    Poll::Ready(None) => {
                        vh::check(!outstanding, "the receiver ends while a message is outstanding");
                        vh::check(closed, "the receiver ends although the sender is open");
                        vh::cover("ended");
                        return;
                    }
                    Poll::Pending => {
                        vh::check(sent.is_empty(), "the receiver does not yield a message that was published");
                        // until the publish returns the message may still count as outstanding
                        vh::check(outstanding || publishing.is_some() || !closed, "the receiver does not end although closed and fully acknowledged");
                        waiting = Some((c, w));
                    }
                }
            }
        }
        if let Some((c, _)) = &waiting {
            if !sent.is_empty() { vh::check(c.count() > 0, "a waiting receiver is not woken for a message"); vh::cover("woken for message"); }
            if closed && sent.is_empty() && unacked.is_empty() && publishing.is_none() { vh::check(c.count() > 0, "a waiting receiver is not woken for the end"); vh::cover("woken for end"); }
        }
    }
    vh::cover("done");
    if closed && sent.is_empty() && unacked.is_empty() && publishing.is_none() {
        let (_c, w) = CountWaker::new();
        vh::check(matches!(poll_stream(&mut rx, &w), Poll::Ready(None)), "the receiver does not end although closed and fully acknowledged");
    }
}

/// Sender and receiver as tasks over an in-memory queue; acknowledgements happen late and out of order.
fn tasks(n: u32, sched: u32, eager: u32, broadcast: bool) {
    vh::set_delays(sched);
    vh::set_eager(eager);
    let data: Vec<u8> = (0..n).map(|_| vh::u8("payload")).collect();
    let d2 = data.clone();
    let ok = run(async move {
        let conn = paladin::queue::in_memory::InMemoryConnection::new(Default::default());
        let mut o = QueueOptions::default();
        if broadcast { o.syndication_mode = paladin::queue::SyndicationMode::Broadcast; }
        let q = conn.declare_queue("q", o).await.unwrap();
        let consumer = q.declare_consumer::<u8>("c").await.unwrap();
        let (tx, mut rx) = coordinated_channel(q.publisher::<u8>(), consumer);
        let acked = Arc::new(AtomicU32::new(0));
        let closed = flag();
        let c2 = closed.clone();
        tokio::spawn(async move {
            for v in &d2 { tx.publish(v).await.unwrap(); vh::event().await; }
            c2.store(true, Ordering::SeqCst);
            if vh::bool("close") { tx.close().await.unwrap(); vh::event().await; }
            drop(tx);
        });
        let mut got = 0;
        while let Some(((v, _), a)) = rx.next().await {
            vh::check(got < data.len() && data[got] == v, "the received message is not the next one published");
            got += 1;
            let acked = acked.clone();
            tokio::spawn(async move {
                vh::event().await;
                acked.fetch_add(1, Ordering::SeqCst);
                if vh::bool("nack") { Acker::nack(&a).await.unwrap() } else { Acker::ack(&a).await.unwrap() }
            });
        }
        vh::check(closed.load(Ordering::SeqCst), "the receiver ends although the sender is open");
        vh::check(got == n as usize && acked.load(Ordering::SeqCst) == n, "the receiver ends while a message is outstanding");
        vh::cover("done");
    });
    vh::check(ok.is_some(), "the receiver never ends");
}

/// The channel the runtime leases for a directive.
fn leased() {
    use paladin::{operation::Result, task::Task};
    #[derive(serde::Serialize, serde::Deserialize, RemoteExecute)]
    struct Id;
    impl Operation for Id { type Input = u8; type Output = u8; fn execute(&self, x: u8, _: AbortSignal) -> Result<u8> { Ok(x) } }
    let n = vh::choice(3, "n") as usize;
    let data: Vec<u8> = (0..n).map(|_| vh::u8("payload")).collect();
    let ok = run(async move {
        let op = Id;
        let rt = in_memory(2).await;
        let (id, tx, mut rx) = rt.lease_coordinated_task_channel::<Id, u8>().await.unwrap();
        let closer = async {
            for v in &data { tx.publish(&Task { routing_key: id.clone(), metadata: *v, op: &op, input: *v }).await.unwrap(); }
            vh::event().await;
            tx.close().await.unwrap();
            vh::check(tx.publish(&Task { routing_key: id.clone(), metadata: 0, op: &op, input: 0 }).await.is_err(), "a publish on a closed sender is not rejected");
        };
        let reader = async {
            let mut left = data.clone();
            while let Some((r, a)) = rx.next().await {
                let Ok(r) = r else { return vh::check(false, "a result is an error although nothing failed") };
                vh::check(r.metadata == r.output, "the result is not the task's");
                let k = left.iter().position(|v| *v == r.output);
                vh::check(k.is_some(), "a result is delivered twice");
                if let Some(k) = k { left.remove(k); }
                vh::event().await;
                a.ack().await.unwrap();
            }
            vh::check(left.is_empty(), "the receiver ends while a message is outstanding");
        };
        tokio::join!(closer, reader);
        vh::cover("done");
    });
    vh::check(ok.is_some(), "the receiver never ends");
}

harness! {
    coord_seq4 { sequence(4, false, false) }
    coord_seq5 { sequence(5, false, false) }
    coord_seq6 { sequence(6, false, false) }
    coord_seq7 { sequence(7, false, false) }
    coord_fail4 { sequence(4, true, false) }
    coord_fail5 { sequence(5, true, false) }
    coord_fail6 { sequence(6, true, false) }
    coord_fail7 { sequence(7, true, false) }
    coord_seq8 { sequence(8, false, false) }
    coord_seq9 { sequence(9, false, false) }
    coord_fail8 { sequence(8, true, false) }
    coord_end5 { sequence(5, false, true) }
    coord_end6 { sequence(6, false, true) }
    coord_slow4 { slow_sequence(4, false) }
    coord_slow5 { slow_sequence(5, false) }
    coord_slow6 { slow_sequence(6, false) }
    coord_slow7 { slow_sequence(7, false) }
    coord_slow8 { slow_sequence(8, false) }
    coord_slow_fail5 { slow_sequence(5, true) }
    coord_slow_fail6 { slow_sequence(6, true) }
    coord_tasks { tasks(2, 0, 0, false) }
    coord_tasks3 { tasks(3, 0, 0, vh::bool("broadcast")) }
    coord_tasks_sched { tasks(2, 2, 0, false) }
    coord_tasks_eager { tasks(2, 0, 3, false) }
    coord_tasks_deep { tasks(2, 2, 2, false) }
    coord_leased { leased() }
}
