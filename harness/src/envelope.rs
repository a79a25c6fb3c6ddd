//! C18: a task travels as bytes and comes back as its own result.
use crate::util::*;
use paladin::{operation::{FatalError, FatalStrategy, Monoid, Result, RetryStrategy, TransientError}, serializer::{Serializable, Serializer}, task::{AnyTask, AnyTaskResult, Task, TaskOutput}};
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::num::NonZeroU32;

fn format() -> Serializer { if vh::decide(2, "cbor") == 1 { Serializer::Cbor } else { Serializer::Postcard } }

#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Add { by: u64 }
impl Operation for Add { type Input = u64; type Output = u64; fn execute(&self, x: u64, _: AbortSignal) -> Result<u64> { Ok(x.wrapping_add(self.by)) } }
#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Xor(u32, Option<u8>);
impl Operation for Xor { type Input = (u32, Option<u8>); type Output = (Option<u8>, u32); fn execute(&self, x: Self::Input, _: AbortSignal) -> Result<Self::Output> { Ok((x.1.map(|b| b ^ self.1.unwrap_or(0)).or(self.1), x.0 ^ self.0)) } }
#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Cat;
impl Monoid for Cat { type Elem = Vec<u8>; fn empty(&self) -> Vec<u8> { vec![] } fn combine(&self, mut a: Vec<u8>, b: Vec<u8>, _: AbortSignal) -> Result<Vec<u8>> { a.extend(b); Ok(a) } }
#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Unit;
impl Operation for Unit { type Input = (); type Output = (); fn execute(&self, _: (), _: AbortSignal) -> Result<()> { Ok(()) } }
#[derive(Serialize, Deserialize, RemoteExecute)]
pub enum Pick { First, Second { n: u8 } }
impl Operation for Pick { type Input = Vec<u16>; type Output = Option<u16>; fn execute(&self, x: Vec<u16>, _: AbortSignal) -> Result<Option<u16>> { Ok(match self { Pick::First => x.first().copied(), Pick::Second { n } => x.get(1).map(|v| v ^ *n as u16) }) } }
#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Bad(u8);
impl Operation for Bad {
    type Input = u8;
    type Output = u8;
    fn execute(&self, x: u8, _: AbortSignal) -> Result<u8> {
        match self.0 {
            0 => FatalError::from_str("boom-fatal", FatalStrategy::Ignore).into(),
            1 => panic!("boom-panic"),
            2 => TransientError::from_str("boom-transient", RetryStrategy::Immediate { max_retries: NonZeroU32::new(2).unwrap() }, FatalStrategy::Terminate).into(),
            3 => FatalError::new(std::io::Error::other("boom-io"), Default::default()).into(),
            _ => Ok(x),
        }
    }
}
/// What a worker does with a task and a leader with its result, over the wire in `outer` format.
async fn round<O: Operation, M: Serializable + Clone + PartialEq + Debug>(op: &O, input: O::Input, meta: M, key: &str, wire: bool, abort: AbortSignal) -> Option<paladin::task::TaskResult<O, M>> {
    let (inner, outer) = (format(), if wire { Some(format()) } else { None });
    let t = Task { routing_key: key.to_string(), metadata: meta.clone(), op, input };
    let Ok(a) = t.as_any_task(inner) else { vh::check(false, "a task cannot be turned into its wire form"); return None };
    let a: AnyTask = match outer { Some(s) => s.from_bytes(&s.to_bytes(&a).unwrap()).unwrap(), None => a };
    vh::check(a.routing_key == key, "the routing key changes");
    let r = match a.remote_execute(abort).await { Ok(o) => AnyTaskResult::Ok(o), Err(e) => AnyTaskResult::Err(e.to_string()) };
    let r: AnyTaskResult = match outer { Some(s) => s.from_bytes(&s.to_bytes(&r).unwrap()).unwrap(), None => r };
    Some(r.into_task_result::<O, M>())
}
fn good<O: Operation + 'static>(op: O, input: O::Input, expect: O::Output, wire: bool) where O::Output: PartialEq {
    let meta = (vh::u16("meta"), if vh::decide(2, "some") == 1 { Some(vh::u8("meta2")) } else { None });
    let m2 = meta.clone();
    let key = ["", "k", "a-long-routing-key"][vh::decide(3, "key") as usize];
    let r = run(async move { round(&op, input, m2, key, wire, None).await });
    match r {
        None => vh::check(false, "a remote execution hangs"),
        Some(None) => {}
        Some(Some(Ok(TaskOutput { metadata, output }))) => {
            vh::check(metadata == meta, "the metadata changes");
            vh::check(output == expect, "the result is not that of the task's operation and input");
            vh::cover("done");
        }
        Some(Some(Err(_))) => vh::check(false, "a successful execution yields an error"),
    }
}
fn each(wire: bool) {
    match vh::decide(6, "operation") {
        0 => { let (a, x) = (vh::u64("by"), vh::u64("x")); good(Add { by: a }, x, x.wrapping_add(a), wire) }
        1 => { let (a, b, x, y) = (vh::u16("a") as u32, vh::u8("b"), vh::u16("x") as u32, vh::u8("y"));
               let (so, si) = (vh::decide(2, "op some") == 1, vh::decide(2, "in some") == 1);
               good(Xor(a, so.then_some(b)), (x, si.then_some(y)), (if si { Some(if so { y ^ b } else { y }) } else if so { Some(b) } else { None }, x ^ a), wire) }
        2 => { let a: Vec<u8> = (0..vh::decide(3, "len a")).map(|_| vh::u8("a")).collect(); let b: Vec<u8> = (0..vh::decide(3, "len b")).map(|_| vh::u8("b")).collect();
               let mut c = a.clone(); c.extend(&b); good(Cat, (a, b), c, wire) }
        3 => good(Unit, (), (), wire),
        4 => { let v: Vec<u16> = (0..vh::decide(3, "len")).map(|_| vh::u16("v")).collect(); let e = v.first().copied(); good(Pick::First, v, e, wire) }
        _ => { let v: Vec<u16> = (0..vh::decide(3, "len")).map(|_| vh::u8("v") as u16).collect(); let n = vh::u8("n"); let e = v.get(1).map(|x| x ^ n as u16); good(Pick::Second { n }, v, e, wire) }
    }
}
fn failing() {
    let kind = vh::decide(5, "kind") as u8;
    let x = vh::u8("x");
    let r = run(async move { round(&Bad(kind), x, 7u8, "k", vh::decide(2, "wire") == 1, None).await });
    let Some(Some(r)) = r else { return vh::check(false, "a remote execution hangs") };
    match r {
        Ok(o) => { vh::check(kind == 4 && o.output == x, "a failing execution yields a result"); vh::cover("ok"); }
        Err(e) => { vh::check(kind < 4, "a successful execution yields an error"); vh::check(err_has(&e, ["boom-fatal", "panicked", "boom-transient", "boom-io"][kind as usize % 4]), "the error does not carry the failure's text"); vh::cover("error"); }
    }
}
/// The abort signal the worker passes is the one the operation sees.
#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Sees;
impl Operation for Sees { type Input = (); type Output = Option<bool>; fn execute(&self, _: (), a: AbortSignal) -> Result<Option<bool>> { Ok(a.map(|a| a.load(Ordering::SeqCst))) } }
fn abort() {
    let (given, set) = (vh::decide(2, "given") == 1, vh::decide(2, "set") == 1);
    let a: AbortSignal = given.then(|| Arc::new(AtomicBool::new(set)));
    let r = run(async move { round(&Sees, (), (), "k", false, a).await });
    let Some(Some(Ok(o))) = r else { return vh::check(false, "a remote execution hangs") };
    vh::check(o.output == given.then_some(set), "an operation does not see the abort signal it is given");
    vh::cover("done");
}
/// Several tasks in flight at once.
fn many() {
    let n = 3;
    let xs: Vec<u64> = (0..n).map(|_| vh::u64("x")).collect();
    let ys = xs.clone();
    let r = run(async move {
        let f = ys.iter().enumerate().map(|(i, x)| { let x = *x; async move { round(&Add { by: i as u64 }, x, i as u8, "k", false, None).await } });
        futures::future::join_all(f).await
    });
    let Some(r) = r else { return vh::check(false, "a remote execution hangs") };
    for (i, r) in r.into_iter().enumerate() {
        let Some(Ok(o)) = r else { return vh::check(false, "a successful execution yields an error") };
        vh::check(o.metadata == i as u8, "the metadata changes");
        vh::check(o.output == xs[i].wrapping_add(i as u64), "the result is not that of the task's operation and input");
    }
    vh::cover("done");
}

harness! {
    env_each { each(false) }
    env_wire { each(true) }
    env_failing { failing() }
    env_abort { abort() }
    env_many { many() }
}
