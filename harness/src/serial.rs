//! C17: both wire formats round-trip every value.
use crate::util::*;
use bytes::Bytes;
use paladin::{runtime::CommandIpc, serializer::{Serializable, Serializer}, task::{AnyTask, AnyTaskOutput, AnyTaskResult, TaskOutput}};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

fn format() -> Serializer { if vh::decide(2, "cbor") == 1 { Serializer::Cbor } else { Serializer::Postcard } }
fn same_format(a: Serializer, b: Serializer) -> bool { matches!((a, b), (Serializer::Cbor, Serializer::Cbor) | (Serializer::Postcard, Serializer::Postcard)) }
/// Encode, decode, compare; encoding the decoded value again gives the same bytes.
fn trip<T: Serializable>(v: &T, same: impl Fn(&T, &T) -> bool) {
    let s = format();
    let b = match s.to_bytes(v) { Ok(b) => b, Err(_) => return vh::check(false, "a value cannot be encoded") };
    match s.from_bytes::<T>(&b) {
        Ok(w) => { vh::check(same(v, &w), "the decoded value differs from the encoded one"); vh::cover("done"); }
        Err(_) => vh::check(false, "an encoded value cannot be decoded"),
    }
}
fn rt<T: Serializable + PartialEq>(v: T) { trip(&v, |a, b| a == b) }

fn len(n: u32) -> usize { vh::decide(n + 1, "len") as usize }
fn bytes(n: u32) -> Vec<u8> { (0..len(n)).map(|_| vh::u8("byte")).collect() }
fn chr() -> char { let c = vh::u32("char"); vh::assume(c < 0xd800 || (0xe000..0x110000).contains(&c)); char::from_u32(c).unwrap_or('?') }
fn text(n: u32) -> String { (0..len(n)).map(|_| chr()).collect() }
fn ascii(n: u32) -> String {
    let v: Vec<u8> = (0..len(n)).map(|_| { let c = vh::u8("ascii"); vh::assume(c < 128); c }).collect();
    // (all bytes are ASCII; `from_utf8` would do the same with many more paths)
    unsafe { String::from_utf8_unchecked(v) }
}

#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
enum Shape { Unit, New(u32), Tuple(u8, i16), Struct { a: Option<u64>, b: Vec<u8> }, Nested(Box<Shape>) }
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
struct Rec { id: u64, name: String, shape: Shape, pair: (bool, i32), rest: Option<Vec<Option<u16>>> }
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
struct Unit;
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
struct Wrap(Vec<(u16, Unit)>);
fn shape(depth: u32) -> Shape {
    match vh::decide(if depth > 0 { 5 } else { 4 }, "variant") {
        0 => Shape::Unit,
        1 => Shape::New(vh::u32("new")),
        2 => Shape::Tuple(vh::u8("t0"), vh::u16("t1") as i16),
        3 => Shape::Struct { a: if vh::decide(2, "some") == 1 { Some(vh::u64("a")) } else { None }, b: bytes(2) },
        _ => Shape::Nested(Box::new(shape(depth - 1))),
    }
}

macro_rules! named { ($t:ident, $e:ident, $name:literal) => {
    #[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
    struct $t { #[serde(rename = $name)] field: u32, other: Option<u8> }
    #[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
    enum $e { #[serde(rename = $name)] Unit, #[serde(rename = "Newtype")] New(u8), #[serde(rename = "struct_like")] Fields { #[serde(rename = $name)] field: u16 } }
} }
named!(T17, E17, "field_name_field_");
named!(T40, E40, "field_name_field_name_field_name_field_n");
named!(T100, E100, "field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_f");
named!(T300, E300, "field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_fie");
named!(T1000, E1000, "field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name_field_name");
/// Names of fields and variants of any length.
fn names() {
    macro_rules! go { ($t:ident, $e:ident) => { match vh::decide(4, "what") {
        0 => rt($t { field: vh::u32("v"), other: if vh::decide(2, "some") == 1 { Some(vh::u8("o")) } else { None } }),
        1 => rt($e::Unit),
        2 => rt($e::New(vh::u8("v"))),
        _ => rt(vec![$e::Fields { field: vh::u16("v") }, $e::Unit]),
    } } }
    match vh::decide(5, "length") { 0 => go!(T17, E17), 1 => go!(T40, E40), 2 => go!(T100, E100), 3 => go!(T300, E300), _ => go!(T1000, E1000) }
}
/// Types of the standard library.
fn std_types() {
    use std::{collections::{BTreeSet, HashMap, VecDeque}, net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr}, num::NonZeroU32, ops::{Bound, Range, RangeInclusive}, time::Duration};
    let flag = |n| vh::decide(n, "variant");
    match vh::decide(14, "type") {
        0 => { let n = vh::u32("nanos"); vh::assume(n < 1_000_000_000); rt(Duration::new(vh::u64("secs"), n)) }
        1 => rt(if flag(2) == 0 { Ok(vh::u16("v")) } else { Err::<u16, i8>(vh::u8("v") as i8) }),
        2 => rt(Range { start: vh::u64("a"), end: vh::u64("b") }),
        3 => rt(RangeInclusive::new(vh::u64("a") as usize, vh::u64("b") as usize)),
        4 => rt(match flag(3) { 0 => Bound::Included(vh::u8("b")), 1 => Bound::Excluded(vh::u8("b")), _ => Bound::Unbounded }),
        5 => { let v = vh::u32("nz"); vh::assume(v != 0); rt(NonZeroU32::new(v).unwrap()) }
        6 => rt(match flag(2) { 0 => IpAddr::V4(Ipv4Addr::from(vh::u32("ip"))), _ => IpAddr::V6(Ipv6Addr::from([vh::u16("a"), 0, 1, vh::u16("b"), 0, 0, 0, 7])) }),
        7 => rt(SocketAddr::new(IpAddr::V4(Ipv4Addr::from(vh::u32("ip"))), vh::u16("port"))),
        8 => rt([vh::u16("a"), vh::u16("b"), vh::u16("c")]),
        9 => rt((0..len(3)).map(|_| vh::u8("v")).collect::<VecDeque<_>>()),
        10 => rt((0..len(2)).map(|i| i as u8 * 100 + vh::decide(3, "e") as u8).collect::<BTreeSet<_>>()),
        11 => rt((0..len(2)).map(|i| (i as u8, vh::u16("v"))).collect::<HashMap<_, _>>()),
        12 => rt((Box::new(vh::u8("b")), Arc::<str>::from("shared").to_string(), ())),
        _ => rt(if flag(2) == 0 { None } else { Some(if flag(2) == 0 { None } else { Some(vh::u8("deep")) }.unwrap_or(3)) }),
    }
}

fn ints() {
    match vh::decide(10, "type") {
        0 => rt(vh::u8("v")),
        1 => rt(vh::u8("v") as i8),
        2 => rt(vh::u16("v")),
        3 => rt(vh::u16("v") as i16),
        4 => rt(vh::u32("v")),
        5 => rt(vh::u32("v") as i32),
        6 => rt(vh::u64("v")),
        7 => rt(vh::u64("v") as i64),
        8 => rt(vh::u64("v") as usize),
        _ => rt(vh::bool("v")),
    }
}
fn wide() {
    let v = (vh::u64("hi") as u128) << 64 | vh::u64("lo") as u128;
    if vh::decide(2, "signed") == 1 { rt(v as i128) } else { rt(v) }
}
fn floats() {
    const F: [f64; 9] = [0.0, -0.0, 1.0, -1.5, 3.141592653589793, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY];
    let f = F[vh::decide(9, "float") as usize];
    if vh::decide(2, "single") == 1 { trip(&(f as f32), |a, b| a.to_bits() == b.to_bits()) } else { trip(&f, |a, b| a.to_bits() == b.to_bits()) }
}
fn maps() {
    let mut m = BTreeMap::new();
    for _ in 0..len(3) { m.insert(vh::u16("key"), if vh::decide(2, "some") == 1 { Some(vh::u8("val")) } else { None }); }
    rt(m)
}
/// Long sequences: lengths around the boundaries of the length prefixes.
fn long(of_text: bool) {
    let n = [0usize, 1, 22, 23, 24, 25, 127, 128, 129, 255, 256, 257, 300][vh::decide(13, "length") as usize];
    let at = if n > 0 { [0, n / 2, n - 1][vh::decide(3, "at") as usize] } else { 0 };
    if of_text {
        let s: String = (0..n).map(|i| if i == at { let c = vh::u8("c"); vh::assume(c < 128); c as char } else { (b'a' + (i % 26) as u8) as char }).collect();
        rt(s)
    } else {
        let v: Vec<u8> = (0..n).map(|i| if i == at { vh::u8("b") } else { i as u8 }).collect();
        if vh::decide(2, "bytes") == 1 { rt(Bytes::from(v)) } else { rt(v) }
    }
}
/// Large payloads, alone and inside the library's messages.
fn large() {
    let n = [4095usize, 4096, 16383, 16384, 32768, 65535, 65536, 100_000][vh::decide(8, "length") as usize];
    let at = [0, n - 1][vh::decide(2, "at") as usize];
    let mut v = vec![0x61u8; n];
    v[at] = vh::u8("b");
    match vh::decide(4, "what") {
        0 => rt(v),
        1 => { vh::assume(v[at] < 128); rt(String::from_utf8(v).unwrap()) }
        2 => trip(&AnyTaskResult::Ok(AnyTaskOutput { metadata: Bytes::new(), output: Bytes::from(v), serializer: format() }), |a, b| matches!((a, b), (AnyTaskResult::Ok(a), AnyTaskResult::Ok(b)) if same_output(a, b))),
        _ => trip(&AnyTask { routing_key: ascii(2), metadata: Bytes::new(), op: Bytes::new(), operation_id: 3, input: Bytes::from(v), serializer: format() }, |a, b| a.routing_key == b.routing_key && a.input == b.input && same_format(a.serializer, b.serializer)),
    }
}
fn task() -> AnyTask {
    AnyTask { routing_key: ascii(2), metadata: Bytes::from(bytes(2)), op: Bytes::from(bytes(2)), operation_id: vh::u8("id"), input: Bytes::from(bytes(2)), serializer: format() }
}
fn output() -> AnyTaskOutput { AnyTaskOutput { metadata: Bytes::from(bytes(3)), output: Bytes::from(bytes(3)), serializer: format() } }
fn same_output(a: &AnyTaskOutput, b: &AnyTaskOutput) -> bool { a.metadata == b.metadata && a.output == b.output && same_format(a.serializer, b.serializer) }
fn message(kind: u32) {
    match kind {
        0 => trip(&task(), |a, b| a.routing_key == b.routing_key && a.metadata == b.metadata && a.op == b.op && a.operation_id == b.operation_id && a.input == b.input && same_format(a.serializer, b.serializer)),
        1 => trip(&AnyTaskResult::Ok(output()), |a, b| matches!((a, b), (AnyTaskResult::Ok(a), AnyTaskResult::Ok(b)) if same_output(a, b))),
        2 => trip(&AnyTaskResult::Err(text(3)), |a, b| matches!((a, b), (AnyTaskResult::Err(a), AnyTaskResult::Err(b)) if a == b)),
        _ => trip(&CommandIpc::Abort { routing_key: text(3) }, |CommandIpc::Abort { routing_key: a }, CommandIpc::Abort { routing_key: b }| a == b),
    }
}
/// A result is read in the format it was written in, whatever format carries it.
fn recorded() {
    #[derive(Serialize, Deserialize, RemoteExecute)]
    struct Id;
    impl Operation for Id { type Input = (); type Output = (u64, Option<u16>); fn execute(&self, _: (), _: AbortSignal) -> paladin::operation::Result<Self::Output> { Ok((0, None)) } }
    let (inner, outer) = (format(), format());
    let value = (vh::u64("value"), if vh::decide(2, "some") == 1 { Some(vh::u16("opt")) } else { None });
    let meta = (vh::u32("meta"), ascii(1));
    let r = AnyTaskResult::Ok(AnyTaskOutput { metadata: inner.to_bytes(&meta).unwrap(), output: inner.to_bytes(&value).unwrap(), serializer: inner });
    let r: AnyTaskResult = outer.from_bytes(&outer.to_bytes(&r).unwrap()).unwrap();
    match r.into_task_result::<Id, (u32, String)>() {
        Ok(TaskOutput { metadata, output }) => { vh::check(metadata == meta && output == value, "a result is not read in the format recorded in it"); vh::cover("done"); }
        Err(_) => vh::check(false, "a result is not read in the format recorded in it"),
    }
}

harness! {
    ser_ints { ints() }
    ser_wide { wide() }
    ser_floats { floats() }
    ser_text { rt(text(2)) }
    ser_text3 { rt(text(3)) }
    ser_char { rt((chr(), Some(chr()))) }
    ser_options { rt((if vh::decide(2, "some") == 1 { Some(vh::u64("v")) } else { None }, if vh::decide(2, "some2") == 1 { Some(Some(vh::u8("w"))) } else { Some(None::<u8>).filter(|_| false) }, Unit, ())) }
    ser_tuples { rt((vh::u8("a"), vh::u16("b") as i16, (vh::u32("c"), [vh::u8("d"), vh::u8("e")]), vh::bool("f"))) }
    ser_seqs { rt((0..len(2)).map(|_| vh::u32("item")).collect::<Vec<u32>>()) }
    ser_seqs3 { rt((0..len(3)).map(|_| vh::u16("item") as i16).collect::<Vec<i16>>()) }
    ser_bytes { rt(Bytes::from(bytes(6))) }
    ser_enums { rt(shape(2)) }
    ser_record { rt(Rec { id: vh::u16("id") as u64, name: ascii(1), shape: shape(0), pair: (vh::bool("flag"), vh::u8("i") as i8 as i32), rest: if vh::decide(2, "rest") == 1 { Some((0..len(2)).map(|_| if vh::decide(2, "some") == 1 { Some(vh::u8("r") as u16) } else { None }).collect()) } else { None } }) }
    ser_wrap { rt(Wrap((0..len(2)).map(|_| (vh::u16("w"), Unit)).collect())) }
    ser_names { names() }
    ser_std { std_types() }
    ser_maps { maps() }
    ser_long_bytes { long(false) }
    ser_large { large() }
    ser_long_text { long(true) }
    ser_task { message(0) }
    ser_ok { message(1) }
    ser_err { message(2) }
    ser_command { message(3) }
    ser_recorded { recorded() }
}
