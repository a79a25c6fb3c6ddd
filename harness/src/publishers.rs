//! C23: publisher combinators.
use crate::util::*;
use paladin::queue::{Publisher, PublisherExt};
use std::sync::Mutex;

/// Records what is published; a publish takes as long as the environment likes and may fail.
#[derive(Default)]
struct Log { started: Vec<u8>, done: Vec<u8>, in_flight: u32, max: u32, closes: u32, failed: bool, after_error: u32 }
#[derive(Clone, Default)]
struct Sink { log: Arc<Mutex<Log>>, fails: Option<u8>, slow: bool, close_fails: bool }
#[paladin::async_trait]
impl Publisher<(u8, u8)> for Sink {
    async fn publish(&self, p: &(u8, u8)) -> anyhow::Result<()> {
        { let mut l = self.log.lock().unwrap(); l.started.push(p.0); l.in_flight += 1; l.max = l.max.max(l.in_flight); if l.failed { l.after_error += 1; } }
        if self.slow { vh::event().await; }
        let mut l = self.log.lock().unwrap();
        l.in_flight -= 1;
        if self.fails == Some(p.0) { l.failed = true; anyhow::bail!("boom-publish"); }
        l.done.push(p.1);
        Ok(())
    }
    async fn close(&self) -> anyhow::Result<()> { self.log.lock().unwrap().closes += 1; if self.close_fails { anyhow::bail!("boom-close") } Ok(()) }
}
/// `n` items with payloads; at most one stream error and one publish error.
fn all(n: usize, delays: u32, slow: bool, errors: bool) {
    let limit = [None, Some(1), Some(2), Some(3)][vh::decide(4, "limit") as usize];
    let bad_item = if errors { vh::decide(n as u32 + 1, "stream error at") as usize } else { n };
    let bad_publish = if errors { vh::decide(n as u32 + 1, "publish error at") as usize } else { n };
    let data: Vec<u8> = (0..n).map(|_| vh::u8("payload")).collect();
    // what the stream has yielded so far
    let items: Vec<anyhow::Result<(u8, u8)>> = (0..n).map(|i| if i == bad_item { Err(anyhow::anyhow!("boom-stream")) } else { Ok((i as u8, data[i])) }).collect();
    let sink = Sink { fails: (bad_publish < n).then_some(bad_publish as u8), slow, ..Default::default() };
    let s = sink.clone();
    let r = run(async move { s.publish_all(arriving(items, delays, delays > 0, false), limit).await });
    let Some(r) = r else { return vh::check(false, "publishing a stream hangs") };
    let l = sink.log.lock().unwrap();
    vh::check(limit.map_or(true, |m| l.max <= m as u32), "more publishes run at once than stated");
    for i in 0..n { vh::check(l.started.iter().filter(|s| **s as usize == i).count() <= 1, "an item is published twice"); }
    vh::check(l.started.iter().all(|s| (*s as usize) < bad_item), "an item is published that comes after the stream's error");
    vh::check(l.after_error == 0, "an item is published after a publish failed");
    match r {
        Ok(()) => {
            vh::check(bad_item == n && bad_publish == n, "an error is swallowed");
            let mut d = l.done.clone();
            vh::check(l.started.len() == n && d.len() == n, "an item is not published");
            if !slow { vh::check(d == data, "an item is altered"); } else {
                // finished in any order: the same multiset
                for x in &data { if let Some(k) = d.iter().position(|y| y == x) { d.remove(k); } }
                vh::check(d.is_empty(), "an item is altered");
            }
            vh::cover("ok");
        }
        Err(e) => {
            let t = e.to_string();
            vh::check(t == "boom-stream" && bad_item < n || t == "boom-publish" && bad_publish < bad_item, "an error is invented");
            if t == "boom-publish" { vh::check(l.failed, "an error is invented"); vh::cover("publish error"); } else { vh::cover("stream error"); }
            // one at a time: the first error in stream order
            if limit == Some(1) && bad_publish < bad_item { vh::check(t == "boom-publish", "the first error is not the one returned"); }
        }
    }
}
/// Mapping publishers, alone, nested and behind wrappers.
fn with() {
    let sink = Sink { close_fails: vh::decide(2, "close fails") == 1, fails: if vh::decide(2, "publish fails") == 1 { Some(1) } else { None }, ..Default::default() };
    let refuse = vh::decide(2, "refuse") == 1;
    let calls = Arc::new(AtomicU32::new(0));
    let c = calls.clone();
    let f = move |x: &u8| { c.fetch_add(1, Ordering::SeqCst); if refuse { anyhow::bail!("boom-map") } Ok((1u8, x.wrapping_mul(3))) };
    let x = vh::u8("x");
    let nested = vh::decide(2, "nested") == 1;
    let p: Box<dyn Publisher<u8> + Send + Sync> = if nested { Box::new(sink.clone().with(f).with(|x: &u8| Ok(x.wrapping_add(1)))) } else { Box::new(sink.clone().with(f)) };
    let r = now(p.publish(&x));
    let mapped = if nested { x.wrapping_add(1) } else { x }.wrapping_mul(3);
    vh::check(calls.load(Ordering::SeqCst) == 1, "a mapping is not applied exactly once");
    {
        let l = sink.log.lock().unwrap();
        if refuse {
            vh::check(r.as_ref().is_err_and(|e| e.to_string() == "boom-map"), "a mapping's error is not returned");
            vh::check(l.started.is_empty(), "something is published although the mapping failed");
        } else if sink.fails.is_some() {
            vh::check(r.as_ref().is_err_and(|e| e.to_string() == "boom-publish"), "a publish error is not returned");
            vh::check(l.started.len() == 1, "a mapped value is not published exactly once");
        } else {
            vh::check(r.is_ok(), "an error is invented");
            vh::check(l.done == [mapped], "a mapped value is not published exactly once");
        }
        vh::check(l.closes == 0, "close is called although it was not asked for");
    }
    let r = now(p.close());
    vh::check(sink.log.lock().unwrap().closes == 1, "close is not forwarded");
    vh::check(r.is_err() == sink.close_fails, "close is not forwarded");
    drop(p);
    vh::check(sink.log.lock().unwrap().closes == 1, "close is called although it was not asked for");
    vh::cover("done");
}
fn wrapped() {
    let sink = Sink { close_fails: vh::decide(2, "close fails") == 1, fails: if vh::decide(2, "publish fails") == 1 { Some(1) } else { None }, ..Default::default() };
    let s = sink.clone();
    let p: Box<dyn Publisher<(u8, u8)> + Send + Sync + Unpin> = match vh::decide(4, "wrapper") {
        0 => Box::new(s),
        1 => Box::new(Box::new(s)),
        2 => Box::new(Box::pin(s)),
        _ => Box::new(Box::pin(Box::new(s) as Box<dyn Publisher<(u8, u8)> + Send + Sync + Unpin>)),
    };
    let x = vh::u8("x");
    let r = now(p.publish(&(1, x)));
    vh::check(r.is_err() == sink.fails.is_some(), "a wrapper changes the outcome of a publish");
    { let l = sink.log.lock().unwrap(); vh::check(l.started == [1] && (sink.fails.is_some() || l.done == [x]), "a wrapper does not forward a publish exactly once"); vh::check(l.closes == 0, "close is called although it was not asked for"); }
    let r = now(p.close());
    vh::check(r.is_err() == sink.close_fails && sink.log.lock().unwrap().closes == 1, "close is not forwarded");
    vh::check(sink.log.lock().unwrap().started.len() == 1, "a wrapper does not forward a publish exactly once");
    vh::cover("done");
}
/// Publishing a whole stream through a mapping publisher.
fn with_all(n: usize) {
    let sink = Sink { slow: true, ..Default::default() };
    let refuse = vh::decide(n as u32 + 1, "refuse") as u8;
    let data: Vec<u8> = (0..n).map(|_| vh::u8("payload")).collect();
    let p = sink.clone().with(move |x: &(u8, u8)| if x.0 == refuse { anyhow::bail!("boom-map") } else { Ok((x.0, x.1 ^ 0x55)) });
    let items: Vec<anyhow::Result<(u8, u8)>> = data.iter().enumerate().map(|(i, x)| Ok((i as u8, *x))).collect();
    let r = run(async move { p.publish_all(arriving(items, 1, true, false), 1).await });
    let Some(r) = r else { return vh::check(false, "publishing a stream hangs") };
    let l = sink.log.lock().unwrap();
    let expect: Vec<u8> = data.iter().take(refuse as usize).map(|x| x ^ 0x55).collect();
    vh::check(l.done == expect, "a mapped value is not published exactly once");
    vh::check(r.is_ok() == (refuse as usize == n), "a mapping's error is not returned");
    vh::cover("done");
}

harness! {
    pub_all2 { all(2, 2, true, true) }
    pub_all3 { all(3, 1, true, true) }
    pub_all4 { all(4, 0, true, true) }
    pub_all4_late { all(4, 4, true, false) }
    pub_all5 { all(5, 0, true, false) }
    pub_fast6 { all(6, 1, false, true) }
    pub_with { with() }
    pub_wrapped { wrapped() }
    pub_with_all { with_all(3) }
}
