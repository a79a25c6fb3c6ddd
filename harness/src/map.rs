//! C03: maps over indexed streams.
use crate::util::*;
use paladin::{directive::{Directive, IndexedStream}, operation::Result};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Tag;
impl Operation for Tag {
    type Input = u8;
    type Output = (u8, u8);
    fn execute(&self, x: u8, _: AbortSignal) -> Result<(u8, u8)> { Ok((x, x.wrapping_mul(3) ^ 0x55)) }
}

struct Case { n: usize, workers: usize, delays: u32, end: bool, shuffle: bool, idx: u32, slow: bool, sched: u32, eager: u32 }
const BASIC: Case = Case { n: 3, workers: 3, delays: 0, end: false, shuffle: false, idx: 0, slow: false, sched: 0, eager: 0 };

fn map(c: Case) {
    let n = c.n;
    vh::set_delays(c.sched);
    vh::set_eager(c.eager);
    let data: Vec<u8> = (0..n).map(|_| vh::u8("elem")).collect();
    // Indices: input positions, or arbitrary distinct ones.
    let idx: Vec<usize> = (0..n).map(|i| if c.idx == 0 { i } else { vh::u64("index") as usize }).collect();
    if c.idx == 1 { for i in 0..n { for j in 0..i { vh::assume(idx[i] != idx[j]); } } }
    let items: Vec<anyhow::Result<(usize, u8)>> = (0..n).map(|i| Ok((idx[i], data[i]))).collect();
    let ok = run(async {
        let runtime = in_memory(c.workers).await;
        let out = Directive::map(IndexedStream::new(arriving(items, c.delays, c.end, c.shuffle)), &Tag).run(&runtime).await;
        let Ok(mut out) = out else { vh::check(false, "the map fails although nothing failed"); return };
        let mut seen = vec![false; n];
        let mut count = 0;
        while let Some(item) = out.next().await {
            let Ok((i, (x, y))) = item else { vh::check(false, "the map yields an error although nothing failed"); return };
            let Some(k) = (0..n).find(|k| idx[*k] == i) else { vh::check(false, "an output carries an index no input had"); return };
            vh::check(!seen[k], "an input has two outputs");
            vh::check(x == data[k] && y == data[k].wrapping_mul(3) ^ 0x55, "an output is not the operation applied to the input at its index");
            vh::log("out", x as u64);
            seen[k] = true;
            count += 1;
            if c.slow { vh::event().await; }
        }
        vh::check(count == n, "the output stream ends before every input has its output");
        vh::cover("done");
    });
    vh::check(ok.is_some(), "the output stream never ends");
}

harness! {
    map_tiny { map(Case { n: vh::choice(2, "n") as usize, idx: 1, delays: vh::choice(2, "late"), end: vh::bool("late end"), ..BASIC }) }
    map_two { map(Case { n: 2, idx: 1, delays: 2, end: vh::bool("late end"), shuffle: true, ..BASIC }) }
    map_three { map(Case { workers: 1 + vh::choice(3, "workers") as usize, end: vh::bool("late end"), ..BASIC }) }
    map_three_late { map(Case { delays: 3, end: true, shuffle: true, workers: 2, ..BASIC }) }
    map_slow { map(Case { delays: 1, end: true, slow: true, workers: 2, ..BASIC }) }
    map_four { map(Case { n: 4, end: true, workers: 4, ..BASIC }) }
    map_five { map(Case { n: 5, end: true, workers: 5, ..BASIC }) }
    map_four_late { map(Case { n: 4, delays: 4, end: true, shuffle: true, workers: 3, ..BASIC }) }
    map_many { map(Case { n: 24, workers: 1, end: vh::bool("late end"), ..BASIC }) }
    map_sched { map(Case { n: 2, workers: 2, sched: 2, end: true, ..BASIC }) }
    map_sched2 { map(Case { n: 3, workers: 2, sched: 3, end: true, ..BASIC }) }
    map_eager { map(Case { n: 3, workers: 2, delays: 2, end: true, eager: 2, ..BASIC }) }
    map_rng { vh::set_rng(vh::choice(4, "select")); map(Case { n: 3, workers: 2, delays: 1, end: true, ..BASIC }) }
}
