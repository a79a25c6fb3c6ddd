//! C01, C02: folds.
use crate::util::*;
use paladin::{directive::{Directive, IndexedStream}, operation::{Monoid, Result}};
use serde::{Deserialize, Serialize};

/// Concatenation: associative, not commutative, and loses nothing.
#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Cat;
impl Monoid for Cat {
    type Elem = Vec<u8>;
    fn empty(&self) -> Vec<u8> { vec![] }
    fn combine(&self, mut a: Vec<u8>, b: Vec<u8>, _: AbortSignal) -> Result<Vec<u8>> { a.extend(b); Ok(a) }
}

pub struct Case { n: usize, workers: usize, delays: u32, end: bool, shuffle: bool, base: bool, sched: u32, eager: u32 }
const BASIC: Case = Case { n: 3, workers: 3, delays: 0, end: false, shuffle: false, base: false, sched: 0, eager: 0 };

fn fold(c: Case) {
    let n = c.n;
    vh::set_delays(c.sched);
    vh::set_eager(c.eager);
    let base = if c.base { let b = vh::u64("first index"); vh::assume(b <= u64::MAX - (n as u64).saturating_sub(1)); b as usize } else { 0 };
    let data: Vec<u8> = (0..n).map(|_| vh::u8("elem")).collect();
    let items: Vec<anyhow::Result<(usize, Vec<u8>)>> = data.iter().enumerate().map(|(i, b)| Ok((base + i, vec![*b]))).collect();
    let r = run(async {
        let runtime = in_memory(c.workers).await;
        Directive::fold(IndexedStream::new(arriving(items, c.delays, c.end, c.shuffle)), &Cat).run(&runtime).await
    });
    vh::cover("done");
    match r {
        None => vh::check(false, "the fold never completes"),
        Some(Err(_)) => vh::check(false, "the fold fails although nothing failed"),
        Some(Ok(v)) => {
            vh::check(v.len() == n, "the result does not consist of every element exactly once");
            for i in 0..n { vh::check(v[i] == data[i], "the elements are not combined in index order"); vh::log("v", v[i] as u64); }
        }
    }
}

harness! {
    /// The empty stream and the one-element stream.
    fold_tiny { fold(Case { n: vh::choice(2, "n") as usize, delays: vh::choice(2, "late") , end: vh::bool("late end"), base: true, ..BASIC }) }
    /// Two elements at any pair of adjacent indices.
    fold_two { fold(Case { n: 2, delays: vh::choice(3, "late"), end: vh::bool("late end"), shuffle: true, base: true, ..BASIC }) }
    /// Three elements in every arrival order, everything available at once.
    fold_three { fold(Case { n: 3, shuffle: true, base: true, workers: 1 + vh::choice(2, "workers") as usize, ..BASIC }) }
    /// Three elements, arrivals and the end of the stream interleaved with combinations.
    fold_three_late { fold(Case { n: 3, delays: 3, end: true, shuffle: true, workers: 1 + vh::choice(3, "workers") as usize, ..BASIC }) }
    fold_four { fold(Case { n: 4, shuffle: true, ..BASIC }) }
    fold_four_late { fold(Case { n: 4, delays: 4, end: true, shuffle: true, ..BASIC }) }
    fold_five { fold(Case { n: 5, delays: 5, end: true, ..BASIC }) }
    fold_five_late { fold(Case { n: 5, delays: 5, end: true, shuffle: true, ..BASIC }) }
    fold_six { fold(Case { n: 6, workers: 2, shuffle: true, ..BASIC }) }
    fold_seven { fold(Case { n: 7, workers: 3, end: true, ..BASIC }) }
    /// More elements than the fold's internal concurrency limits and buffers.
    fold_many { fold(Case { n: 24, workers: 1, end: vh::bool("late end"), ..BASIC }) }
    fold_sched { fold(Case { n: 3, workers: 2, sched: 1, end: true, ..BASIC }) }
    fold_sched2 { fold(Case { n: 4, workers: 2, sched: 2, end: true, ..BASIC }) }
    fold_sched3 { fold(Case { n: 4, workers: 3, sched: 3, delays: 2, end: true, ..BASIC }) }
    fold_eager { fold(Case { n: 3, workers: 2, delays: 3, end: true, eager: 2, ..BASIC }) }
    fold_eager2 { fold(Case { n: 4, workers: 2, delays: 4, end: true, shuffle: true, eager: 2, ..BASIC }) }
    fold_rng { vh::set_rng(vh::choice(4, "select")); fold(Case { n: 3, workers: 2, delays: 3, end: true, ..BASIC }) }
}
