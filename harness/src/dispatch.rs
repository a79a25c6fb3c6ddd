//! C25: operations all over a program (and over two crates with the feature `crates`).
use crate::util::*;
use paladin::{operation::{Monoid, Result}, serializer::Serializer, task::{AnyTask, Task}};
use serde::{Deserialize, Serialize};
#[macro_use]
mod op;
// declared in an order that is neither alphabetical nor that of the text below
mod late;
op! { Z9 10, A1 11 }
mod early;
op! { M5 12 }

#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Join;
impl Monoid for Join { type Elem = Vec<u8>; fn empty(&self) -> Vec<u8> { vec![] } fn combine(&self, mut a: Vec<u8>, b: Vec<u8>, _: AbortSignal) -> Result<Vec<u8>> { a.push(99); a.extend(b); Ok(a) } }
fn in_function() -> (u8, fn(u8, u8) -> AnyTask, u32) {
    op! { Local 13 }
    (<Local as paladin::operation::RemoteExecute>::ID, |n, x| task(&Local { n }, x), 13)
}
fn format() -> Serializer { if vh::decide(2, "cbor") == 1 { Serializer::Cbor } else { Serializer::Postcard } }
fn task<O: Operation<Input = u8>>(op: &O, x: u8) -> AnyTask { Task { routing_key: "k".into(), metadata: (), op, input: x }.as_any_task(format()).unwrap() }
macro_rules! table { ($($p:path: $tag:literal),* $(,)?) => { vec![$((<$p as paladin::operation::RemoteExecute>::ID, (|n, x| { type O = $p; task(&O { n }, x) }) as fn(u8, u8) -> AnyTask, $tag)),*] } }
type Entry = (u8, fn(u8, u8) -> AnyTask, u32);
fn all() -> Vec<Entry> {
    let mut t: Vec<Entry> = table! { Z9: 10, A1: 11, M5: 12, late::L1: 20, late::L2: 21, late::L3: 22, late::nested::L4: 23, late::nested::Same: 24, late::nested::deeper::L5: 25,
        early::E1: 30, early::E2: 31, early::E3: 32, early::Same: 33 };
    t.push(in_function());
    t.push((<early::Either as paladin::operation::RemoteExecute>::ID, |n, x| task(&early::Either::Left { n }, x), 34));
    #[cfg(feature = "crates")]
    t.extend(table! { ops::Library: 1000, ops::inner::Nested: 1001 });
    t
}
fn execute(t: AnyTask) -> Option<u32> {
    match run(async move { t.remote_execute(None).await }) {
        None => { vh::check(false, "a remote execution hangs"); None }
        Some(Err(_)) => { vh::check(false, "a task executes no operation"); None }
        Some(Ok(o)) => match o.serializer.from_bytes::<u32>(&o.output) { Ok(v) => Some(v), Err(_) => { vh::check(false, "a task executes another operation than its own"); None } },
    }
}
fn travel(t: AnyTask) -> AnyTask { if vh::decide(2, "wire") == 1 { let s = format(); s.from_bytes(&s.to_bytes(&t).unwrap()).unwrap() } else { t } }
fn clash(all: &[Entry], i: usize) -> bool { all.iter().enumerate().any(|(j, e)| j != i && e.0 == all[i].0) }
/// Any of the operations with any input.
fn each(all: Vec<Entry>) {
    let i = vh::decide(all.len() as u32, "operation") as usize;
    let (n, x) = (vh::u8("n"), vh::u8("x"));
    if clash(&all, i) { vh::check(false, "operations of two crates have the same identifier"); return; }
    let Some(r) = execute(travel(all[i].1(n, x))) else { return };
    vh::check(r == all[i].2 << 16 | (n as u32) << 8 | x as u32, "a task executes another operation than its own");
    vh::cover("done");
}

harness! {
    dispatch_modules { each(all()) }
    // the identifiers are symbolic: one task, looked up under any of the identifiers
    dispatch_identifier {
        let all = all();
        let n = all.len() as u32;
        let i = vh::choice(n, "operation") as usize;
        let (k, x) = (vh::u8("n"), vh::u8("x"));
        let mut t = all[0].1(k, x);
        // all of these are encoded alike
        let (mut id, mut tag) = (0, 0);
        for (j, e) in all.iter().enumerate().take(13) { if j == i { id = e.0; tag = e.2; } }
        if i >= 13 { return; }
        t.operation_id = id;
        let Some(r) = execute(t) else { return };
        vh::check(r == tag << 16 | (k as u32) << 8 | x as u32, "a task executes another operation than its own");
        vh::cover("done");
    }
    // two tasks of different operations, one after the other
    dispatch_two {
        let all = all();
        let i = vh::decide(all.len() as u32, "first") as usize;
        let j = (i + 1 + vh::decide(all.len() as u32 - 1, "second") as usize) % all.len();
        let x = vh::u8("x");
        let (Some(a), Some(b)) = (execute(all[i].1(1, x)), execute(all[j].1(2, x))) else { return };
        vh::check(a == all[i].2 << 16 | 1 << 8 | x as u32 && b == all[j].2 << 16 | 2 << 8 | x as u32, "a task executes another operation than its own");
        vh::cover("done");
    }
    dispatch_monoid {
        let (a, b) = (vh::u8("a"), vh::u8("b"));
        let t = travel(Task { routing_key: "k".into(), metadata: (), op: &Join, input: (vec![a], vec![b]) }.as_any_task(format()).unwrap());
        match run(async move { t.remote_execute(None).await }) {
            Some(Ok(o)) => { vh::check(o.serializer.from_bytes::<Vec<u8>>(&o.output).ok() == Some(vec![a, 99, b]), "a task executes another operation than its own"); vh::cover("done") }
            _ => vh::check(false, "a task executes no operation"),
        }
    }
    // the identifiers of a program's operations are all different
    dispatch_distinct {
        let all = all();
        let i = vh::choice(all.len() as u32, "first") as usize;
        let j = vh::choice(all.len() as u32, "second") as usize;
        if i == j { return; }
        vh::check(all[i].0 != all[j].0, "two operations have the same identifier");
        vh::cover("done");
    }
    crates_each { each(all()) }
}
