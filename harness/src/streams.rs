//! C22: numbering and sorting of indexed streams.
use crate::util::*;
use paladin::directive::{IndexedStream, indexed_stream::{from_into_iterator, try_from_into_iterator}};

fn collect<T>(s: IndexedStream<'_, T>) -> Vec<anyhow::Result<(usize, T)>> { now(s.collect::<Vec<_>>()) }
fn numbered(max: u32) {
    let v: Vec<u32> = (0..vh::decide(max + 1, "n")).map(|_| vh::u32("item")).collect();
    let got = match vh::decide(5, "how") {
        0 => collect(IndexedStream::from(v.clone())),
        1 => collect(from_into_iterator(v.clone())),
        2 => collect(try_from_into_iterator(v.clone().into_iter().map(Ok))),
        3 => collect(from_into_iterator(v.iter().copied().filter(|_| true))),
        _ => collect(IndexedStream::from(v.iter().copied().take(100))),
    };
    vh::check(got.len() == v.len(), "a stream does not have one item for each item of its sequence");
    for (k, g) in got.iter().enumerate() { vh::check(matches!(g, Ok((i, x)) if *i == k && *x == v[k]), "an item is not numbered by its position"); }
    vh::cover("done");
}
fn with_errors(max: u32) {
    let n = vh::decide(max + 1, "n");
    let v: Vec<Result<u32, u32>> = (0..n).map(|i| if vh::decide(2, "error") == 1 { Err(i) } else { Ok(vh::u32("item")) }).collect();
    let got = collect(try_from_into_iterator(v.iter().map(|r| r.map_err(|i| anyhow::anyhow!("boom-{i}")))));
    vh::check(got.len() == v.len(), "a stream does not have one item for each item of its sequence");
    for (k, g) in got.iter().enumerate() {
        match (g, &v[k]) {
            (Ok((i, x)), Ok(y)) => vh::check(*i == k && x == y, "an item is not numbered by its position"),
            (Err(e), Err(i)) => { vh::check(e.to_string() == format!("boom-{i}"), "an error item is not kept in place"); vh::cover("error"); }
            _ => vh::check(false, "an error item is not kept in place"),
        }
    }
    vh::cover("done");
}
/// Distinct indices in any order.
fn sorted(n: usize, delays: u32, fail: bool, wide: bool) {
    // any index, or any 16 of its bits in several places
    let shift = if wide { 0 } else { [0, 40][vh::decide(2, "shift") as usize] };
    let items: Vec<(usize, u32)> = (0..n).map(|_| (if wide { vh::u64("index") as usize } else { (vh::u16("index") as usize) << shift }, vh::u32("item"))).collect();
    for i in 0..n { for j in 0..i { vh::assume(items[i].0 != items[j].0); } }
    let at = if fail { vh::decide(n as u32, "failing") as usize } else { n };
    let stream: Vec<anyhow::Result<(usize, u32)>> = items.iter().enumerate().map(|(k, it)| if k == at { Err(anyhow::anyhow!("boom-first")) } else if k > at && k % 2 == 0 { Err(anyhow::anyhow!("boom-later")) } else { Ok(*it) }).collect();
    let r = run(async move { IndexedStream::new(arriving(stream, delays, delays > 0, false)).into_values_sorted().await.map(|v| v.into_iter().collect::<Vec<u32>>()) });
    match r {
        None => vh::check(false, "collecting hangs"),
        Some(Err(e)) => { vh::check(fail && e.to_string() == "boom-first", "collecting does not return the first error"); vh::cover("error"); }
        Some(Ok(v)) => {
            vh::check(!fail, "collecting does not return the first error");
            vh::check(v.len() == n, "collecting loses or repeats items");
            for it in &items {
                // its position is the number of smaller indices
                let rank = items.iter().filter(|o| o.0 < it.0).count();
                vh::check(v.get(rank) == Some(&it.1), "the values are not in index order");
            }
            vh::cover("sorted");
        }
    }
}
/// Items may share an index: none is lost, and they are in order all the same.
fn repeated(n: usize) {
    let items: Vec<(usize, usize)> = (0..n).map(|k| (vh::u64("index") as usize, k)).collect();
    let v: Vec<usize> = now(IndexedStream::new(futures::stream::iter(items.clone().into_iter().map(anyhow::Ok))).into_values_sorted()).unwrap().into_iter().collect();
    vh::check(v.len() == n && (0..n).all(|k| v.iter().filter(|x| **x == k).count() == 1), "collecting loses or repeats items");
    for w in v.windows(2) { vh::check(items[w[0]].0 <= items[w[1]].0, "the values are not in index order"); }
    vh::cover("done");
}
/// Many items in a rotated or reversed order.
fn many() {
    let n = [20usize, 21, 33, 50, 64][vh::decide(5, "n") as usize];
    let base = [0usize, 1, 255, u32::MAX as usize - 9, usize::MAX - 100][vh::decide(5, "base") as usize];
    let shift = vh::decide(4, "shift") as usize * n / 4;
    let reverse = vh::decide(2, "reverse") == 1;
    let x = vh::u32("item");
    let mut items: Vec<anyhow::Result<(usize, u32)>> = (0..n).map(|i| { let i = (i + shift) % n; Ok((base + i, if i == 3 { x } else { i as u32 })) }).collect();
    if reverse { items.reverse(); }
    let v: Vec<u32> = now(IndexedStream::new(futures::stream::iter(items)).into_values_sorted()).unwrap().into_iter().collect();
    vh::check(v.len() == n, "collecting loses or repeats items");
    for (i, y) in v.iter().enumerate() { vh::check(*y == if i == 3 { x } else { i as u32 }, "the values are not in index order"); }
    vh::cover("done");
}

harness! {
    streams_numbered { numbered(4) }
    streams_errors { with_errors(4) }
    streams_errors6 { with_errors(6) }
    streams_sorted2 { sorted(2, 1, false, true) }
    streams_sorted3 { sorted(3, 1, false, true) }
    streams_sorted4 { sorted(4, 0, false, true) }
    streams_sorted5 { sorted(5, 0, false, false) }
    streams_failing { sorted(4, 1, true, false) }
    streams_repeated { repeated(4) }
    streams_many { many() }
}
