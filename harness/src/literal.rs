//! C05: maps over literals.
use crate::util::*;
use paladin::{directive::{Directive, Literal}, operation::{FatalError, FatalStrategy, Result}};
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU32, Ordering};

static RUNS: AtomicU32 = AtomicU32::new(0);

#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Mul { pub k: u8 }
impl Operation for Mul {
    type Input = u32;
    type Output = u32;
    fn execute(&self, x: u32, _: AbortSignal) -> Result<u32> {
        RUNS.fetch_add(1, Ordering::SeqCst);
        Ok(x.rotate_left(3) ^ self.k as u32)
    }
}
#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Show;
impl Operation for Show {
    type Input = u32;
    type Output = (u8, Vec<u8>);
    fn execute(&self, x: u32, _: AbortSignal) -> Result<Self::Output> {
        RUNS.fetch_add(1, Ordering::SeqCst);
        Ok((x as u8, x.to_be_bytes().to_vec()))
    }
}
#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Odd;
impl Operation for Odd {
    type Input = u8;
    type Output = u8;
    fn execute(&self, x: u8, _: AbortSignal) -> Result<u8> {
        RUNS.fetch_add(1, Ordering::SeqCst);
        if x & 1 == 1 { return FatalError::from_str("odd-input", FatalStrategy::Terminate).into(); }
        Ok(x >> 1)
    }
}

fn runs() -> u32 { RUNS.swap(0, Ordering::SeqCst) }

harness! {
    literal_one {
        let (x, k) = (vh::u32("value"), vh::u8("op field"));
        let r = run(async { let rt = in_memory(1 + vh::choice(2, "workers") as usize).await; Directive::map(Literal(x), &Mul { k }).run(&rt).await });
        match r {
            Some(Ok(Literal(v))) => { vh::check(v == x.rotate_left(3) ^ k as u32, "the result is not the operation applied to the value"); vh::cover("done"); vh::log("v", v as u64); }
            Some(Err(_)) => vh::check(false, "mapping a literal fails although nothing failed"),
            None => vh::check(false, "mapping a literal hangs"),
        }
        vh::check(runs() == 1, "the operation is not executed exactly once");
    }
    literal_chain {
        let (x, k) = (vh::u32("value"), vh::u8("op field"));
        let r = run(async { let rt = in_memory(2).await; let m = Mul { k }; Directive::map(Directive::map(Directive::map(Literal(x), &Mul { k: 7 }), &m), &Show).run(&rt).await });
        let want = (x.rotate_left(3) ^ 7).rotate_left(3) ^ k as u32;
        match r {
            Some(Ok(Literal((a, b)))) => { vh::check(a == want as u8 && b.len() == 4 && b[..] == want.to_be_bytes()[..], "the chain's result is not the composition of its operations"); vh::cover("done"); }
            Some(Err(_)) => vh::check(false, "mapping a literal fails although nothing failed"),
            None => vh::check(false, "mapping a literal hangs"),
        }
        vh::check(runs() == 3, "an operation of the chain is not executed exactly once");
    }
    literal_fail {
        let x = vh::u8("value");
        vh::set_delays(vh::choice(2, "sched"));
        let r = run(async { let rt = in_memory(2).await; Directive::map(Directive::map(Literal(x), &Odd), &Odd).run(&rt).await });
        match r {
            Some(Ok(Literal(v))) => { vh::check(x & 3 == 0 && v == x >> 2, "the result is not the operation applied to the value"); vh::cover("ok"); }
            Some(Err(e)) => { vh::check(x & 3 != 0 && err_has(&e, "odd-input"), "the error is not the operation's failure"); vh::cover("err"); }
            None => vh::check(false, "mapping a literal hangs"),
        }
        vh::check(runs() == 1 + (x & 1 == 0) as u32, "an operation of the chain is not executed exactly once");
    }
    literal_sched {
        let x = vh::u8("value");
        vh::set_delays(3);
        let r = run(async { let rt = in_memory(2).await; Directive::map(Literal(x), &Odd).run(&rt).await });
        match r {
            Some(Ok(Literal(v))) => { vh::check(x & 1 == 0 && v == x >> 1, "the result is not the operation applied to the value"); vh::cover("ok"); }
            Some(Err(e)) => { vh::check(x & 1 != 0 && err_has(&e, "odd-input"), "the error is not the operation's failure"); vh::cover("err"); }
            None => vh::check(false, "mapping a literal hangs"),
        }
        vh::check(runs() == 1, "an operation is not executed exactly once");
    }
}
