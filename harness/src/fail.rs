//! C04: failures of the input or of an operation surface as errors of the directive.
use crate::util::*;
use paladin::{directive::{Directive, IndexedStream, Literal}, operation::{FatalError, FatalStrategy, Monoid, Result, RetryStrategy, TransientError}};
use serde::{Deserialize, Serialize};
use std::num::NonZeroU32;

const FATAL: u8 = 1;
const PANIC: u8 = 2;
const TRANSIENT: u8 = 3;

fn misbehave(kind: u8) -> Result<()> {
    match kind {
        FATAL => FatalError::from_str("boom-fatal", FatalStrategy::Terminate).into(),
        PANIC => panic!("boom-panic"),
        TRANSIENT => TransientError::from_str("boom-transient", RetryStrategy::Immediate { max_retries: NonZeroU32::new(1).unwrap() }, FatalStrategy::Terminate).into(),
        _ => Ok(()),
    }
}
fn message(kind: u8) -> &'static str {
    match kind { 0 => "boom-input", FATAL => "boom-fatal", PANIC => "panicked", _ => "boom-transient" }
}

#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct MayFail;
impl Operation for MayFail {
    type Input = (u8, u8);
    type Output = u8;
    fn execute(&self, (v, kind): (u8, u8), _: AbortSignal) -> Result<u8> { misbehave(kind)?; Ok(v) }
}
#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct MayFailCat;
impl Monoid for MayFailCat {
    type Elem = Vec<(u8, u8)>;
    fn empty(&self) -> Self::Elem { vec![] }
    fn combine(&self, mut a: Self::Elem, b: Self::Elem, _: AbortSignal) -> Result<Self::Elem> {
        for e in a.iter().chain(b.iter()) { misbehave(e.1)?; }
        a.extend(b);
        Ok(a)
    }
}

/// `n` inputs of which the one at a chosen position is an error (kind 0) or makes the operation fail.
fn items(n: usize, kind: u8, at: usize) -> Vec<anyhow::Result<(usize, (u8, u8))>> {
    (0..n).map(|i| if i != at { Ok((i, (vh::u8("elem"), 0))) } else if kind == 0 { Err(anyhow::anyhow!("boom-input")) } else { Ok((i, (vh::u8("elem"), kind))) }).collect()
}

fn fold(n: usize, workers: usize, delays: u32, end: bool, shuffle: bool, sched: u32) {
    vh::set_delays(sched);
    let kind = vh::choice(4, "kind") as u8;
    let at = vh::choice(n as u32, "at") as usize;
    // A fold over one element never runs the operation.
    if n == 1 { vh::assume(kind == 0); }
    let items: Vec<_> = items(n, kind, at).into_iter().map(|r| r.map(|(i, e)| (i, vec![e]))).collect();
    let r = run(async {
        let runtime = in_memory(workers).await;
        Directive::fold(IndexedStream::new(arriving(items, delays, end, shuffle)), &MayFailCat).run(&runtime).await
    });
    match r {
        None => vh::check(false, "the fold hangs although a piece failed"),
        Some(Ok(_)) => vh::check(false, "the fold yields a result although a piece failed"),
        Some(Err(e)) => { vh::check(err_has(&e, message(kind)), "the fold's error does not carry the cause"); vh::cover("done"); }
    }
}
fn map(n: usize, workers: usize, delays: u32, end: bool, shuffle: bool, sched: u32) {
    vh::set_delays(sched);
    let kind = vh::choice(4, "kind") as u8;
    let at = vh::choice(n as u32, "at") as usize;
    let items = items(n, kind, at);
    let r = run(async {
        let runtime = in_memory(workers).await;
        let mut s = Directive::map(IndexedStream::new(arriving(items, delays, end, shuffle)), &MayFail).run(&runtime).await?;
        let mut count = 0;
        while let Some(r) = s.next().await {
            let (i, _) = r?;
            vh::check(i != at, "the map yields an output for the piece that failed");
            count += 1;
        }
        Ok::<_, anyhow::Error>(count)
    });
    match r {
        None => vh::check(false, "the map hangs although a piece failed"),
        Some(Ok(_)) => vh::check(false, "the map's stream ends without an error although a piece failed"),
        Some(Err(e)) => { vh::check(err_has(&e, message(kind)), "the map's error does not carry the cause"); vh::cover("done"); }
    }
}
/// Map, then fold: the failure happens in either stage.
fn chain(n: usize, workers: usize, delays: u32) {
    let kind = vh::choice(4, "kind") as u8;
    let at = vh::choice(n as u32, "at") as usize;
    let items = items(n, kind, at);
    let r = run(async {
        let runtime = in_memory(workers).await;
        let m = Directive::map(IndexedStream::new(arriving(items, delays, true, false)), &MayFail);
        Directive::fold(Directive::map(m, &Wrap), &MayFailCat).run(&runtime).await
    });
    match r {
        None => vh::check(false, "the chain hangs although a piece failed"),
        Some(Ok(_)) => vh::check(false, "the chain yields a result although a piece failed"),
        Some(Err(e)) => { vh::check(err_has(&e, message(kind)), "the chain's error does not carry the cause"); vh::cover("done"); }
    }
}
#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Wrap;
impl Operation for Wrap {
    type Input = u8;
    type Output = Vec<(u8, u8)>;
    fn execute(&self, v: u8, _: AbortSignal) -> Result<Self::Output> { Ok(vec![(v, 0)]) }
}
fn collect_sorted(n: usize, workers: usize, delays: u32) {
    let kind = vh::choice(4, "kind") as u8;
    let at = vh::choice(n as u32, "at") as usize;
    let items = items(n, kind, at);
    let r = run(async {
        let runtime = in_memory(workers).await;
        let s = Directive::map(IndexedStream::new(arriving(items, delays, true, false)), &MayFail).run(&runtime).await?;
        Ok::<_, anyhow::Error>(s.into_values_sorted().await?.into_iter().count())
    });
    match r {
        None => vh::check(false, "collecting hangs although a piece failed"),
        Some(Ok(_)) => vh::check(false, "collecting yields values although a piece failed"),
        Some(Err(e)) => { vh::check(err_has(&e, message(kind)), "the error does not carry the cause"); vh::cover("done"); }
    }
}
/// A failure with a long message.
#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Verbose;
fn text((narrow, wide): (u16, u16)) -> String { format!("{}{}!", "a".repeat(narrow as usize), "\u{df}".repeat(wide as usize)) }
impl Operation for Verbose {
    type Input = (u16, u16);
    type Output = u8;
    fn execute(&self, x: (u16, u16), _: AbortSignal) -> Result<u8> {
        if x.0 & 1 == 1 { return FatalError::from_str(&text(x), FatalStrategy::Terminate).into(); }
        TransientError::from_str(&text(x), RetryStrategy::Immediate { max_retries: NonZeroU32::new(1).unwrap() }, FatalStrategy::Terminate).into()
    }
}
fn long() {
    let x = ([0u16, 1, 2, 3, 254, 255, 1022, 1023][vh::decide(8, "narrow") as usize], [0u16, 1, 100, 600, 1500][vh::decide(5, "wide") as usize]);
    let r = run(async {
        let runtime = in_memory(1).await;
        Directive::map(Literal(x), &Verbose).run(&runtime).await.map(|x| x.0)
    });
    match r {
        None => vh::check(false, "a directive hangs although its operation failed"),
        Some(Ok(_)) => vh::check(false, "a directive yields a result although its operation failed"),
        Some(Err(e)) => { vh::check(err_has(&e, &text(x)), "the error does not carry the cause"); vh::cover("done"); }
    }
}

/// A value that cannot be written (`0`) or read (`1`).
#[derive(Clone, Debug, PartialEq)]
pub struct Fragile(u8);
impl Serialize for Fragile {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        if self.0 == 0 { return Err(serde::ser::Error::custom("boom-write")); }
        s.serialize_u8(self.0)
    }
}
impl<'de> Deserialize<'de> for Fragile {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        let x = u8::deserialize(d)?;
        if x == 1 { return Err(serde::de::Error::custom("boom-read")); }
        Ok(Fragile(x))
    }
}
#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Unpack;
impl Operation for Unpack {
    type Input = Fragile;
    type Output = Fragile;
    fn execute(&self, x: Fragile, _: AbortSignal) -> Result<Fragile> { Ok(Fragile(x.0 - 2)) }
}
#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Least;
impl Monoid for Least {
    type Elem = Fragile;
    fn empty(&self) -> Fragile { Fragile(255) }
    fn combine(&self, a: Fragile, b: Fragile, _: AbortSignal) -> Result<Fragile> { Ok(Fragile(a.0.min(b.0) - 2)) }
}
/// One of the values handed to or returned by the operation cannot be written or read: it is 0 or 1 (as input) or 2 or 3 (its output is).
fn codec(n: usize, delays: u32, folding: bool) {
    let at = vh::decide(n as u32, "at") as usize;
    let kind = vh::decide(4, "kind") as u8;
    let items: Vec<_> = (0..n).map(|i| Ok((i, Fragile(if i == at { kind } else { 100 + vh::choice(100, "elem") as u8 })))).collect();
    let r = run(async {
        let runtime = in_memory(2).await;
        let s = IndexedStream::new(arriving(items, delays, true, true));
        if folding { return Directive::fold(s, &Least).run(&runtime).await.map(|_| ()); }
        let mut s = Directive::map(s, &Unpack).run(&runtime).await?;
        while let Some(r) = s.next().await { vh::check(r?.0 != at, "the map yields an output for the piece that failed"); }
        Ok(())
    });
    match r {
        None => vh::check(false, "a directive hangs although a value cannot be encoded or decoded"),
        Some(Ok(_)) => vh::check(false, "a directive yields a complete result although a value cannot be encoded or decoded"),
        Some(Err(e)) => { _ = e; vh::cover(if kind % 2 == 0 { "not written" } else { "not read" }); }
    }
}
fn codec_literal() {
    let kind = vh::choice(4, "kind") as u8;
    let r = run(async {
        let runtime = in_memory(1).await;
        Directive::map(Literal(Fragile(kind)), &Unpack).run(&runtime).await.map(|x| x.0)
    });
    match r {
        None => vh::check(false, "a directive hangs although a value cannot be encoded or decoded"),
        Some(Ok(_)) => vh::check(false, "a directive yields a complete result although a value cannot be encoded or decoded"),
        Some(Err(_)) => vh::cover("done"),
    }
}

harness! {
    fail_long { long() }
    fail_codec_map2 { codec(2, 1, false) }
    fail_codec_map3 { codec(3, 1, false) }
    fail_codec_fold2 { codec(2, 1, true) }
    fail_codec_fold3 { codec(3, 1, true) }
    fail_codec_literal { codec_literal() }
    fail_fold_two { fold(1 + vh::choice(2, "n") as usize, 2, 2, true, true, 0) }
    fail_fold_three { fold(3, 2, 1, true, true, 0) }
    fail_fold_four { fold(4, 3, 4, true, true, 0) }
    fail_fold_many { fold(14, 1, 0, vh::bool("late end"), false, 0) }
    fail_fold_sched { fold(3, 2, 0, true, false, 2) }
    fail_map_two { map(1 + vh::choice(2, "n") as usize, 2, 2, true, true, 0) }
    fail_map_three { map(3, 2, 1, true, true, 0) }
    fail_map_four { map(4, 3, 2, true, true, 0) }
    fail_map_many { map(14, 1, 0, vh::bool("late end"), false, 0) }
    fail_map_sched { map(3, 2, 0, true, false, 2) }
    fail_chain { chain(3, 2, 2) }
    fail_collect { collect_sorted(3, 2, 2) }
}
