//! C09: acknowledgements.
use crate::util::*;
use paladin::{acker::{Acker, ComposedAcker, NoopAcker}, channel::coordinated_channel::{coordinated_channel, coordinated_stream::CoordinatedAcker}, queue::Publisher};
use std::sync::Mutex;

type Log = Arc<Mutex<Vec<(u8, bool)>>>;
/// Records its calls, completes when polled a second time if asked to, and may fail.
struct Rec { id: u8, log: Log, fail: bool, slow: bool }
impl Rec {
    async fn call(&self, ack: bool) -> anyhow::Result<()> {
        if self.slow { let mut first = true; futures::future::poll_fn(move |cx| if std::mem::take(&mut first) { cx.waker().wake_by_ref(); Poll::Pending } else { Poll::Ready(()) }).await; }
        self.log.lock().unwrap().push((self.id, ack));
        if self.fail { anyhow::bail!("boom-{}", self.id) }
        Ok(())
    }
}
#[paladin::async_trait]
impl Acker for Rec {
    async fn ack(&self) -> anyhow::Result<()> { self.call(true).await }
    async fn nack(&self) -> anyhow::Result<()> { self.call(false).await }
}
fn drive<F: Future>(f: F) -> F::Output {
    let (c, w) = CountWaker::new();
    let mut f = Box::pin(f);
    for _ in 0..20 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&w)) { return v; }
        vh::check(c.take() > 0, "an acknowledgement waits without being woken");
    }
    vh::check(false, "an acknowledgement never completes");
    panic!()
}
fn rec(id: u8, log: &Log) -> Rec { Rec { id, log: log.clone(), fail: vh::bool("fails"), slow: vh::bool("slow") } }

/// What a composition of `parts` (in order, with their failures) must have done for one verb.
fn expect(parts: &[(u8, bool)], ack: bool, r: anyhow::Result<()>, log: &Log) {
    let got = std::mem::take(&mut *log.lock().unwrap());
    let mut want = vec![];
    let mut fail = None;
    for (id, f) in parts { want.push((*id, ack)); if *f { fail = Some(*id); break; } }
    vh::check(got == want, "a composed acknowledger does not perform its parts in order with the same verb, up to the first failure");
    match (r, fail) {
        (Ok(()), None) => vh::cover("ok"),
        (Err(e), Some(id)) => { vh::check(err_has(&e, &format!("boom-{id}")), "a composed acknowledger reports another failure"); vh::cover("err"); }
        _ => vh::check(false, "a composed acknowledger does not report a failure of its parts, or reports one without"),
    }
}
fn go(a: &dyn Acker, ack: bool) -> anyhow::Result<()> { if ack { drive(a.ack()) } else { drive(a.nack()) } }

struct Sink;
#[paladin::async_trait]
impl Publisher<u8> for Sink {
    async fn publish(&self, _: &u8) -> anyhow::Result<()> { Ok(()) }
    async fn close(&self) -> anyhow::Result<()> { Ok(()) }
}

harness! {
    acker_pair {
        let log = Log::default();
        let (a, b) = (rec(1, &log), rec(2, &log));
        let p = [(1, a.fail), (2, b.fail)];
        let c = ComposedAcker::new(a, b);
        for _ in 0..2 { let ack = vh::bool("ack"); let r = go(&c, ack); expect(&p, ack, r, &log); }
    }
    acker_nested {
        let log = Log::default();
        let (a, b, c) = (rec(1, &log), rec(2, &log), rec(3, &log));
        let p = [(1, a.fail), (2, b.fail), (3, c.fail)];
        let t: Box<dyn Acker> = if vh::bool("left") { Box::new(ComposedAcker::new(ComposedAcker::new(a, b), c)) } else { Box::new(ComposedAcker::new(a, ComposedAcker::new(b, c))) };
        let ack = vh::bool("ack");
        let r = go(&t, ack);
        expect(&p, ack, r, &log);
    }
    acker_wrapped {
        let log = Log::default();
        let a = rec(1, &log);
        let p = [(1, a.fail)];
        let ack = vh::bool("ack");
        let r = match vh::choice(5, "wrapper") {
            0 => go(&Box::new(a), ack),
            1 => go(&(Box::new(a) as Box<dyn Acker>), ack),
            2 => go(&Arc::new(a), ack),
            3 => go(&(Arc::new(a) as Arc<dyn Acker>), ack),
            _ => go(&Arc::new(Box::new(a) as Box<dyn Acker>), ack),
        };
        expect(&p, ack, r, &log);
        let n = NoopAcker::new();
        vh::check(go(&n, ack).is_ok(), "the no-op acknowledger fails");
    }
    /// One message, acknowledged many times in any mix through any of its handles.
    acker_once {
        let (tx, rx) = futures::channel::mpsc::unbounded::<u8>();
        let (p, mut s) = coordinated_channel(Sink, rx);
        let n = 2;
        for i in 0..n { now(p.publish(&i)).unwrap(); tx.unbounded_send(i).unwrap(); }
        now(p.close()).unwrap();
        let (c, w) = CountWaker::new();
        let mut ackers: Vec<Arc<CoordinatedAcker>> = vec![];
        for _ in 0..n { match poll_stream(&mut s, &w) { Poll::Ready(Some((_, a))) => ackers.push(Arc::new(a)), _ => vh::check(false, "a published message is not received") } }
        vh::check(poll_stream(&mut s, &w).is_pending(), "the receiver ends while messages are outstanding");
        c.take();
        let mut done = [false; 2];
        for _ in 0..5 {
            let k = vh::choice(n as u32, "message") as usize;
            match vh::choice(4, "how") {
                0 => { now(Acker::ack(&*ackers[k])).unwrap() }
                1 => { now(Acker::nack(&*ackers[k])).unwrap() }
                2 => { now(ackers[k].clone().ack()).unwrap() }
                _ => { now((Box::new(ackers[k].clone()) as Box<dyn Acker>).nack()).unwrap() }
            }
            done[k] = true;
            let all = done == [true, true];
            vh::check(!all || c.count() > 0, "the receiver is not woken by the last acknowledgement");
            if vh::bool("poll") {
                c.take();
                match poll_stream(&mut s, &w) {
                    Poll::Ready(None) => { vh::check(all, "repeated acknowledgements of one message count for another"); vh::cover("ended"); return; }
                    Poll::Pending => vh::check(!all, "the receiver does not end although everything is acknowledged"),
                    Poll::Ready(Some(_)) => vh::check(false, "a message is received twice"),
                }
            }
        }
        vh::cover("done");
    }
    /// The composition the runtime uses: the original acknowledgement first, the channel's only if it succeeds.
    acker_channel {
        let (tx, rx) = futures::channel::mpsc::unbounded::<u8>();
        let (p, mut s) = coordinated_channel(Sink, rx);
        now(p.publish(&1)).unwrap();
        tx.unbounded_send(1).unwrap();
        drop(p);
        let (_c, w) = CountWaker::new();
        let Poll::Ready(Some((_, a))) = poll_stream(&mut s, &w) else { return vh::check(false, "a published message is not received") };
        let log = Log::default();
        let r = rec(1, &log);
        let fail = r.fail;
        let c = ComposedAcker::new(Box::new(r) as Box<dyn Acker>, a);
        let ack = vh::bool("ack");
        vh::check(go(&c, ack).is_err() == fail, "a composed acknowledger does not report the failure of its first part");
        vh::check(matches!(poll_stream(&mut s, &w), Poll::Ready(None)) != fail, "the message counts as acknowledged exactly when its original acknowledgement succeeded");
        vh::cover("done");
    }
}
