//! C27: arbitrary bytes.
use crate::util::*;
use bytes::Bytes;
use paladin::{operation::{FatalStrategy, Monoid, OperationError, Result}, runtime::CommandIpc, serializer::{Serializable, Serializer}, task::{AnyTask, AnyTaskOutput, AnyTaskResult, Task, TaskOutput}};
use serde::{Deserialize, Serialize};
use std::sync::Mutex;

fn format(cbor: bool) -> Serializer { if cbor { Serializer::Cbor } else { Serializer::Postcard } }
fn any_bytes(n: usize) -> Vec<u8> { (0..n).map(|_| vh::u8("byte")).collect() }
/// Any string of up to `n` bytes.
fn up_to(n: usize) -> Vec<u8> { let k = vh::decide(n as u32 + 1, "length") as usize; any_bytes(k) }

/// Any bytes at all, as a value of T.
fn decode<T: Serializable>(n: usize, cbor: bool) {
    let b = up_to(n);
    let s = format(cbor);
    match s.from_bytes::<T>(&b) {
        // what was decoded is a proper value
        Ok(v) => { vh::check(s.to_bytes(&v).is_ok(), "a decoded value cannot be encoded"); vh::cover("value"); }
        Err(e) => { vh::check(!e.to_string().is_empty(), "a decoding error says nothing"); vh::cover("error"); }
    }
}
/// A valid encoding with any one byte (or two neighbouring ones) replaced by anything, and possibly cut off.
fn corrupt<T: Serializable>(v: &T, cbor: bool, wide: bool) {
    let s = format(cbor);
    let mut b = s.to_bytes(v).unwrap().to_vec();
    let at = vh::decide(b.len() as u32, "position") as usize;
    b[at] = vh::u8("byte");
    if wide && at + 1 < b.len() { b[at + 1] = vh::u8("byte"); }
    if vh::decide(2, "cut") == 1 { b.truncate(at + 1); }
    match s.from_bytes::<T>(&b) {
        Ok(v) => { vh::check(s.to_bytes(&v).is_ok(), "a decoded value cannot be encoded"); vh::cover("value"); }
        Err(_) => vh::cover("error"),
    }
}
fn task() -> AnyTask { Task { routing_key: "k".into(), metadata: 7u8, op: &Not, input: true }.as_any_task(Serializer::Postcard).unwrap() }
fn output() -> AnyTaskOutput { AnyTaskOutput { metadata: Bytes::from_static(&[1]), output: Bytes::from_static(&[2, 3]), serializer: Serializer::Cbor } }

static RAN: Mutex<Vec<u32>> = Mutex::new(Vec::new());
fn ran(v: u32) { RAN.lock().unwrap().push(v) }
#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Not;
impl Operation for Not { type Input = bool; type Output = bool; fn execute(&self, x: bool, _: AbortSignal) -> Result<bool> { ran(x as u32); Ok(!x) } }
#[derive(Serialize, Deserialize, RemoteExecute)]
pub enum Choose { A, B(u8), C { s: String } }
impl Operation for Choose { type Input = (char, Option<u8>); type Output = u32; fn execute(&self, x: (char, Option<u8>), _: AbortSignal) -> Result<u32> { ran(x.0 as u32); Ok(x.0 as u32 + match self { Choose::A => 0, Choose::B(n) => *n as u32, Choose::C { s } => s.len() as u32 }) } }
#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Cat;
impl Monoid for Cat { type Elem = Vec<u16>; fn empty(&self) -> Vec<u16> { vec![] } fn combine(&self, mut a: Vec<u16>, b: Vec<u16>, _: AbortSignal) -> Result<Vec<u16>> { ran(0); a.extend(b); Ok(a) } }

/// A worker given a task made of arbitrary parts, and the leader given its result.
fn execute<O: Operation, M: Serializable>(op: Vec<u8>, input: Vec<u8>, metadata: Vec<u8>, s: Serializer) -> Option<paladin::task::TaskResult<O, M>> {
    let t = AnyTask { routing_key: "k".into(), metadata: metadata.into(), op: op.into(), operation_id: O::ID, input: input.into(), serializer: s };
    let r = run(async move { t.remote_execute(None).await });
    let Some(r) = r else { vh::check(false, "a malformed task hangs a worker"); return None };
    Some(match r {
        Ok(o) => AnyTaskResult::Ok(o),
        Err(e) => {
            vh::check(!e.to_string().is_empty(), "the error of a malformed task says nothing");
            vh::check(matches!(e, OperationError::Fatal { strategy: FatalStrategy::Terminate, .. }), "a malformed task is retried or ignored");
            AnyTaskResult::Err(e.to_string())
        }
    }.into_task_result::<O, M>())
}
fn not(n: usize, what: u32) {
    let s = format(vh::decide(2, "cbor") == 1);
    let cbor = matches!(s, Serializer::Cbor);
    let (good_op, good_in, good_meta) = (s.to_bytes(&Not).unwrap().to_vec(), s.to_bytes(&true).unwrap().to_vec(), s.to_bytes(&5u8).unwrap().to_vec());
    let b = up_to(n);
    let (op, input, meta) = match what { 0 => (b.clone(), good_in, good_meta), 1 => (good_op, b.clone(), good_meta), _ => (good_op, good_in, b.clone()) };
    let Some(r) = execute::<Not, u8>(op, input, meta, s) else { return };
    let runs = RAN.lock().unwrap().clone();
    match r {
        Ok(TaskOutput { metadata, output }) => {
            vh::check(runs.len() == 1 && (runs[0] == 0) == output, "the output is not that of the decoded input");
            if what == 1 && !cbor { vh::check(!b.is_empty() && b[0] <= 1 && output == (b[0] == 0), "malformed input is accepted"); }
            if what == 1 && cbor { vh::check(!b.is_empty() && ((b[0] == 0xf4) == output || b[0] >> 5 == 6 || b[0] == 0xf8), "malformed input is accepted"); }
            if what != 1 { vh::check(!output, "the output is not that of the input"); }
            if what != 2 { vh::check(metadata == 5, "the metadata changes"); } else if !cbor { vh::check(!b.is_empty() && b[0] == metadata, "malformed metadata is accepted"); }
            vh::cover("value");
        }
        Err(e) => {
            vh::check(!e.to_string().is_empty(), "the error of a malformed task says nothing");
            if what == 1 { vh::check(runs.is_empty(), "an operation runs on malformed input"); vh::check(cbor || b.is_empty() || b[0] > 1, "well-formed input is refused"); }
            if what == 0 { vh::check(runs.is_empty(), "a malformed operation runs"); vh::check(cbor, "a well-formed operation is refused"); }
            if what == 2 && !cbor { vh::check(b.is_empty(), "well-formed metadata is refused"); }
            vh::cover("error");
        }
    }
}
fn parts<O: Operation>(op: &O, input: O::Input, n: usize, what: u32) {
    let s = format(vh::decide(2, "cbor") == 1);
    let b = up_to(n);
    let (o, i) = if what == 0 { (b, s.to_bytes(&input).unwrap().to_vec()) } else { (s.to_bytes(op).unwrap().to_vec(), b) };
    match execute::<O, ()>(o, i, s.to_bytes(&()).unwrap().to_vec(), s) {
        None => {}
        Some(Ok(_)) => { vh::check(RAN.lock().unwrap().len() == 1, "an output without an execution"); vh::cover("value") }
        Some(Err(_)) => { vh::check(RAN.lock().unwrap().is_empty(), "an operation runs on malformed bytes"); vh::cover("error") }
    }
}
/// Any operation identifier.
fn identifier() {
    let mut t = task();
    t.operation_id = vh::u8("operation");
    let known = t.operation_id <= 2;
    let r = run(async move { t.remote_execute(None).await });
    match r {
        None => vh::check(false, "an unknown operation hangs a worker"),
        Some(Ok(_)) => { vh::check(known, "an unknown operation is executed"); vh::cover("value") }
        Some(Err(e)) => { vh::check(!e.to_string().is_empty(), "the error of a malformed task says nothing"); vh::cover("error") }
    }
}
/// A whole message of arbitrary bytes reaches a worker; the next good task is served.
fn wire(n: usize) {
    use paladin::{config::{self, Config}, operation::marker::Marker, runtime::WorkerRuntime};
    let r = run(async move {
        let config = Config { runtime: config::Runtime::Amqp, serializer: if vh::decide(2, "cbor") == 1 { config::Serializer::Cbor } else { config::Serializer::Postcard }, amqp_uri: Some("amqp://host".into()), task_bus_routing_key: Some("tasks".into()), ..Default::default() };
        let s = Serializer::from(&config);
        let w = WorkerRuntime::from_config(&config, Marker).await.unwrap();
        let h = tokio::spawn(async move { w.main_loop().await });
        settle().await;
        let to = ["tasks", paladin::runtime::COMMAND_IPC_ROUTING_KEY][vh::decide(2, "queue") as usize];
        lapin::model::inject(to, &up_to(n));
        settle().await;
        let mut next = task();
        next.routing_key = "another".into();
        let id = lapin::model::inject_id("tasks", &s.to_bytes(&next).unwrap()).unwrap();
        settle().await;
        vh::check(!h.is_finished(), "a malformed message stops a worker");
        vh::check(lapin::model::with(|b| b.disposed.iter().any(|d| d.0 == id && d.1 == lapin::model::Disp::Ack)), "a malformed message keeps a worker from serving the next task");
        vh::check(lapin::model::unacked() == 0, "a malformed message is never settled");
    });
    vh::check(r.is_some(), "a worker hangs");
    vh::cover("done");
}
/// A leader given arbitrary result bytes.
fn result(n: usize) {
    let s = format(vh::decide(2, "cbor") == 1);
    let b = up_to(n);
    let first = b.first().copied();
    let o = if vh::decide(2, "metadata") == 1 { AnyTaskOutput { metadata: b.into(), output: s.to_bytes(&true).unwrap(), serializer: s } } else { AnyTaskOutput { metadata: s.to_bytes(&true).unwrap(), output: b.into(), serializer: s } };
    match AnyTaskResult::Ok(o).into_task_result::<Not, bool>() {
        Ok(_) => { vh::check(match s { Serializer::Postcard => first.is_some_and(|x| x <= 1), Serializer::Cbor => first.is_some() }, "a malformed result is accepted"); vh::cover("value") }
        Err(_) => { vh::check(!matches!((s, first), (Serializer::Postcard, Some(0 | 1)) | (Serializer::Cbor, Some(0xf4 | 0xf5))), "a well-formed result is refused"); vh::cover("error") }
    }
}
macro_rules! both { ($t:ty, $n:expr) => { decode::<$t>($n, vh::decide(2, "cbor") == 1) } }

harness! {
    bad_ints { both!((u8, u16, i64), 4) }
    bad_text { both!(String, 4) }
    bad_bytes { both!(Bytes, 2) }
    bad_options { both!(Option<(bool, char)>, 4) }
    bad_seqs { both!(Vec<u16>, 2) }
    bad_text5 { both!(String, 5) }
    bad_ints6 { both!((u8, u16, i64), 6) }
    bad_options6 { both!(Option<(bool, char)>, 6) }
    bad_postcard_seqs { decode::<Vec<u16>>(6, false) }
    bad_postcard_bytes { decode::<Bytes>(6, false) }
    bad_postcard_task { decode::<AnyTask>(6, false) }
    bad_postcard_result { decode::<AnyTaskResult>(6, false) }
    bad_postcard_command { decode::<CommandIpc>(6, false) }
    bad_cbor_task { decode::<AnyTask>(4, true) }
    bad_cbor_result { decode::<AnyTaskResult>(4, true) }
    bad_cbor_command { decode::<CommandIpc>(4, true) }
    bad_corrupt_task { corrupt(&task(), vh::decide(2, "cbor") == 1, false) }
    bad_corrupt_output { corrupt(&AnyTaskResult::Ok(output()), vh::decide(2, "cbor") == 1, false) }
    bad_corrupt_error { corrupt(&AnyTaskResult::Err("err".into()), vh::decide(2, "cbor") == 1, false) }
    bad_corrupt_command { corrupt(&CommandIpc::Abort { routing_key: "key".into() }, vh::decide(2, "cbor") == 1, false) }
    bad_op { not(3, 0) }
    bad_input { not(3, 1) }
    bad_meta { not(3, 2) }
    bad_choose_op { parts(&Choose::B(1), ('x', None), 3, 0) }
    bad_choose_input { parts(&Choose::B(1), ('x', None), 3, 1) }
    bad_cat_input { parts(&Cat, (vec![], vec![]), 3, 1) }
    bad_identifier { identifier() }
    bad_wire { wire(2) }
    bad_corrupt_task2 { corrupt(&task(), vh::decide(2, "cbor") == 1, true) }
    bad_corrupt_output2 { corrupt(&AnyTaskResult::Ok(output()), vh::decide(2, "cbor") == 1, true) }
    bad_corrupt_error2 { corrupt(&AnyTaskResult::Err("err".into()), vh::decide(2, "cbor") == 1, true) }
    bad_corrupt_command2 { corrupt(&CommandIpc::Abort { routing_key: "key".into() }, vh::decide(2, "cbor") == 1, true) }
    bad_output { result(3) }
}
