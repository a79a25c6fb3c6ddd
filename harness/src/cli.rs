//! C21: the command line and the environment say what the configuration is.
use clap::Parser;
use paladin::config::{Config, Runtime, Serializer};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;

#[derive(Parser, Debug)]
struct Cli {
    #[command(flatten)]
    options: Config,
    /// An argument of the program's own.
    #[arg(long)]
    own: Option<u8>,
}

/// Where an option's value is given.
#[derive(Clone, Copy, PartialEq)]
enum At { Nowhere, Long, Joined, Short, Env, Both }
const LONG: [&str; 5] = ["--serializer", "--runtime", "--num-workers", "--amqp-uri", "--task-bus-routing-key"];
const SHORT: [&str; 3] = ["-s", "-r", "-n"];
const ENV: [&str; 5] = ["PALADIN_SERIALIZER", "PALADIN_RUNTIME", "PALADIN_NUM_WORKERS", "PALADIN_AMQP_URI", "PALADIN_TASK_BUS_ROUTING_KEY"];

struct Line { args: Vec<OsString> }
fn os(b: &[u8]) -> OsString { OsString::from_vec(b.to_vec()) }
impl Line {
    fn new() -> Line { for e in ENV { std::env::remove_var(e); } Line { args: vec!["program".into()] } }
    /// Give `option` the value `v`; if it is given twice, the environment says `other`.
    fn give(&mut self, option: usize, at: At, v: &[u8], other: &[u8]) {
        match at {
            At::Nowhere => {}
            At::Long | At::Both => { self.args.push(LONG[option].into()); self.args.push(os(v)); }
            At::Joined => self.args.push(os(&[LONG[option].as_bytes(), b"=", v].concat())),
            At::Short => { self.args.push(SHORT[option].into()); self.args.push(os(v)); }
            At::Env => std::env::set_var(ENV[option], os(v)),
        }
        if at == At::Both { std::env::set_var(ENV[option], os(other)); }
    }
    fn parse(self) -> Option<Config> { Cli::try_parse_from(self.args).ok().map(|c| c.options) }
}
fn at(option: usize, label: &str) -> At {
    let all = [At::Nowhere, At::Long, At::Env, At::Both, At::Joined, At::Short];
    all[vh::decide(if option < 3 { 6 } else { 5 }, label) as usize]
}
/// Printable text that is not taken for an option.
fn text(n: usize, label: &str) -> Vec<u8> { (0..n).map(|i| { let c = vh::u8(label); vh::assume(c >= 0x20 && c < 0x7f && (i > 0 || c != b'-')); c }).collect() }

fn formats() {
    let mut l = Line::new();
    let (s, r) = (at(0, "serializer"), at(1, "runtime"));
    let (cbor, memory) = (s != At::Nowhere && vh::decide(2, "cbor") == 1, r != At::Nowhere && vh::decide(2, "in memory") == 1);
    let names: [&[u8]; 2] = [b"postcard", b"cbor"];
    l.give(0, s, names[cbor as usize], names[!cbor as usize]);
    let names: [&[u8]; 2] = [b"amqp", b"in-memory"];
    l.give(1, r, names[memory as usize], names[!memory as usize]);
    let uri = vh::decide(2, "uri") == 1;
    if uri { l.args.push("--amqp-uri=amqp://h".into()); }
    match l.parse() {
        Some(c) => {
            vh::check(c.serializer == if cbor { Serializer::Cbor } else { Serializer::Postcard }, "the serializer is not the one given, nor the default");
            vh::check(c.runtime == if memory { Runtime::InMemory } else { Runtime::Amqp }, "the runtime is not the one given, nor the default");
            vh::check(c.num_workers.is_none() && c.task_bus_routing_key.is_none() && c.amqp_uri.as_deref() == uri.then_some("amqp://h"), "an option that was not given has a value");
            vh::cover("parsed");
        }
        // an explicit choice of AMQP needs a broker
        None => { vh::check(!uri && r != At::Nowhere && !memory, "a valid command line is refused"); vh::cover("refused"); }
    }
}
fn workers() {
    let mut l = Line::new();
    let a = at(2, "workers");
    let n = vh::u16("number");
    vh::assume(n < 1000);
    l.give(2, a, n.to_string().as_bytes(), b"7");
    let Some(c) = l.parse() else { return vh::check(false, "a valid command line is refused") };
    vh::check(c.num_workers == (a != At::Nowhere).then_some(n as usize), "the number of workers is not the one given");
    vh::cover("parsed");
}
fn texts(n: usize) {
    let mut l = Line::new();
    let (u, k) = (at(3, "uri"), at(4, "key"));
    let (uri, key) = (text(n, "uri"), text(n, "key"));
    l.give(3, u, &uri, b"amqp://environment");
    l.give(4, k, &key, b"environment");
    let Some(c) = l.parse() else { return vh::check(false, "a valid command line is refused") };
    vh::check(c.amqp_uri.as_deref().map(str::as_bytes) == (u != At::Nowhere).then_some(&uri[..]), "the URI is not the one given");
    vh::check(c.task_bus_routing_key.as_deref().map(str::as_bytes) == (k != At::Nowhere).then_some(&key[..]), "the queue name is not the one given");
    vh::cover("parsed");
}
/// What is not a value is refused, not replaced by the default.
fn invalid() {
    let mut l = Line::new();
    let option = vh::decide(3, "option") as usize;
    let a = at(option, "where");
    let v: &[u8] = [&[b"yaml".as_slice(), b"Cbor", b"", b"cborx"], &[b"memory".as_slice(), b"AMQP", b"", b"in_memory"], &[b"x".as_slice(), b"-1", b"", b"1.5"]][option][vh::decide(4, "value") as usize];
    l.give(option, a, v, b"");
    let valid = a == At::Nowhere;
    vh::check(l.parse().is_some() == valid, "an invalid value is accepted");
    vh::cover("done");
}

harness! {
    cli_formats { formats() }
    cli_workers { workers() }
    cli_texts { texts(4) }
    cli_invalid { invalid() }
}
