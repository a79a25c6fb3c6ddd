//! C06: directives sharing a runtime.
use crate::util::*;
use paladin::{directive::{Directive, IndexedStream, Literal}, operation::{Monoid, Result}, runtime::Runtime};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Cat;
impl Monoid for Cat {
    type Elem = Vec<u8>;
    fn empty(&self) -> Vec<u8> { vec![] }
    fn combine(&self, mut a: Vec<u8>, b: Vec<u8>, _: AbortSignal) -> Result<Vec<u8>> { a.extend(b); Ok(a) }
}
/// Same input and output types for both, so that a result delivered to the wrong directive would decode.
#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Xor { k: u8 }
impl Operation for Xor {
    type Input = u8;
    type Output = Vec<u8>;
    fn execute(&self, x: u8, _: AbortSignal) -> Result<Vec<u8>> { Ok(vec![x ^ self.k, x]) }
}
#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Sum;
impl Operation for Sum {
    type Input = Vec<u8>;
    type Output = u8;
    fn execute(&self, x: Vec<u8>, _: AbortSignal) -> Result<u8> { Ok(x.iter().fold(0, |a, b| a.wrapping_add(*b))) }
}

fn stream<T: Send + 'static>(items: Vec<T>, delays: u32, end: bool) -> IndexedStream<'static, T> {
    IndexedStream::new(arriving(items.into_iter().enumerate().map(Ok).collect(), delays, end, false))
}
async fn map(rt: &Runtime, d: Vec<u8>, k: u8, delays: u32) {
    let op = Xor { k };
    let Ok(s) = Directive::map(stream(d.clone(), delays, delays > 0), &op).run(rt).await else { return vh::check(false, "a map fails") };
    let Ok(v) = s.try_collect::<Vec<_>>().await else { return vh::check(false, "a map yields an error") };
    vh::check(v.len() == d.len(), "a map sharing the runtime yields the wrong number of outputs");
    let mut seen = vec![false; d.len()];
    for (i, o) in v {
        vh::check(i < d.len() && !seen[i], "a map sharing the runtime yields a foreign index");
        seen[i] = true;
        vh::check(o.len() == 2 && o[0] == d[i] ^ k && o[1] == d[i], "a map sharing the runtime yields a foreign output");
    }
}
async fn fold(rt: &Runtime, d: Vec<u8>, delays: u32) {
    let items = d.iter().map(|b| vec![*b]).collect();
    let Ok(v) = Directive::fold(stream(items, delays, delays > 0), &Cat).run(rt).await else { return vh::check(false, "a fold fails") };
    vh::check(v == d, "a fold sharing the runtime yields a foreign result");
}
async fn literal(rt: &Runtime, x: u8, k: u8) {
    let op = Xor { k };
    let Ok(Literal(v)) = Directive::map(Literal(x), &op).run(rt).await else { return vh::check(false, "a literal map fails") };
    vh::check(v.len() == 2 && v[0] == x ^ k && v[1] == x, "a literal map sharing the runtime yields a foreign result");
}
fn bytes(n: usize) -> Vec<u8> { (0..n).map(|_| vh::u8("elem")).collect() }
fn go<F: std::future::Future>(f: F) { let r = run(f); vh::check(r.is_some(), "a directive sharing the runtime hangs"); vh::cover("done"); }

harness! {
    multi_maps { go(async { let rt = in_memory(2).await; tokio::join!(map(&rt, bytes(2), 1, 0), map(&rt, bytes(1), 2, 1)); }) }
    multi_map_fold { go(async { let rt = in_memory(2).await; tokio::join!(map(&rt, bytes(2), 1, 0), fold(&rt, bytes(3), 0)); }) }
    multi_folds { go(async { let rt = in_memory(2).await; tokio::join!(fold(&rt, bytes(2), 0), fold(&rt, bytes(3), 1)); }) }
    multi_literals { go(async { let rt = in_memory(2).await; tokio::join!(literal(&rt, vh::u8("a"), 1), literal(&rt, vh::u8("b"), 2), literal(&rt, vh::u8("c"), 3)); }) }
    multi_sequence { go(async { let rt = in_memory(2).await; map(&rt, bytes(2), 1, 1).await; fold(&rt, bytes(2), 1).await; literal(&rt, vh::u8("a"), 9).await; map(&rt, bytes(1), 3, 1).await; }) }
    multi_chain { go(async {
        let rt = in_memory(2).await;
        let (d, k) = (bytes(3), vh::u8("k"));
        let op = Xor { k };
        let m = Directive::map(stream(d.clone(), 1, true), &op);
        let Ok(v) = Directive::fold(m, &Cat).run(&rt).await else { return vh::check(false, "a chain fails") };
        let want: Vec<u8> = d.iter().flat_map(|x| [x ^ k, *x]).collect();
        vh::check(v == want, "a chain's result is not the composition of its stages");
    }) }
    multi_chain3 { go(async {
        let rt = in_memory(2).await;
        let (d, k) = (bytes(2), vh::u8("k"));
        let op = Xor { k };
        let m = Directive::map(Directive::map(Directive::map(stream(d.clone(), 1, true), &op), &Sum), &op);
        let Ok(v) = Directive::fold(m, &Cat).run(&rt).await else { return vh::check(false, "a chain fails") };
        let want: Vec<u8> = d.iter().flat_map(|x| { let s = (x ^ k).wrapping_add(*x); [s ^ k, s] }).collect();
        vh::check(v == want, "a chain's result is not the composition of its stages");
    }) }
    multi_sched { vh::set_delays(2); go(async { let rt = in_memory(2).await; tokio::join!(map(&rt, bytes(1), 1, 0), fold(&rt, bytes(2), 0)); }) }
    multi_three { go(async { let rt = in_memory(3).await; tokio::join!(map(&rt, bytes(2), 1, 1), fold(&rt, bytes(2), 1), literal(&rt, vh::u8("a"), 5)); }) }
    /// Two runtimes in one process.
    multi_runtimes { go(async { let (a, b) = (in_memory(1).await, in_memory(1).await); tokio::join!(map(&a, bytes(2), 1, 1), fold(&b, bytes(3), 0)); }) }
}
