#![allow(dead_code, private_interfaces)]
pub type H = extern "C" fn();
/// Entry points: `name { body }` becomes the exported symbol `h_name` and a table entry.
macro_rules! harness { ($($(#[$a:meta])* $name:ident $body:block)*) => {
    $($(#[$a])* #[export_name = concat!("h_", stringify!($name))] pub extern "C" fn $name() { $body })*
    pub const TABLE: &[(&str, crate::H)] = &[$((stringify!($name), $name as crate::H)),*];
} }
mod util;
macro_rules! groups { ($($feature:literal $m:ident),* $(,)?) => {
    $(#[cfg(feature = $feature)] mod $m;)*
    fn tables() -> Vec<&'static [(&'static str, H)]> { vec![$(#[cfg(feature = $feature)] $m::TABLE),*] }
} }
groups! {
    "fold" fold, "map" map, "fail" fail, "literal" literal, "multi" multi, "abandon" abandon, "coord" coord, "acker" acker,
    "queues" queues, "names" names, "threads" threads, "assembler" assembler, "retry" retry, "errors" errors, "serial" serial,
    "envelope" envelope, "worker" worker, "config" config, "streams" streams, "publishers" publishers, "amqp" amqp,
    "dispatch" dispatch, "malformed" malformed, "wrap" wrap, "system" system, "misc" misc, "cli" cli,
}

fn main() {
    let name = std::env::args().nth(1).unwrap_or_default();
    for (n, f) in tables().into_iter().flatten() {
        if *n == name {
            f();
            println!("VH-DONE");
            return;
        }
    }
    for (n, _) in tables().into_iter().flatten() { println!("{n}"); }
    std::process::exit(64);
}
