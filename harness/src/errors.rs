//! C16: error conversions.
use crate::util::*;
use paladin::operation::{FatalError, FatalStrategy, OperationError, Result, RetryStrategy, TransientError};
use std::num::NonZeroU32;

fn fatal() -> FatalStrategy { if vh::bool("ignore") { FatalStrategy::Ignore } else { FatalStrategy::Terminate } }
fn same_f(a: FatalStrategy, b: FatalStrategy) -> bool { matches!((a, b), (FatalStrategy::Ignore, FatalStrategy::Ignore) | (FatalStrategy::Terminate, FatalStrategy::Terminate)) }
fn nz() -> NonZeroU32 { let n = vh::u32("max retries"); vh::assume(n != 0); NonZeroU32::new(n).unwrap() }
fn dur() -> Duration { let n = vh::u32("nanos"); vh::assume(n < 1_000_000_000); Duration::new(vh::u64("secs"), n) }
fn strategy() -> RetryStrategy {
    match vh::choice(3, "strategy") {
        0 => RetryStrategy::Immediate { max_retries: nz() },
        1 => RetryStrategy::After { max_retries: nz(), duration: dur() },
        _ => RetryStrategy::Exponential { min_duration: dur(), max_duration: dur() },
    }
}
fn same_r(a: RetryStrategy, b: RetryStrategy) -> bool {
    match (a, b) {
        (RetryStrategy::Immediate { max_retries: x }, RetryStrategy::Immediate { max_retries: y }) => x == y,
        (RetryStrategy::After { max_retries: x, duration: d }, RetryStrategy::After { max_retries: y, duration: e }) => (x == y) & (d == e),
        (RetryStrategy::Exponential { min_duration: x, max_duration: d }, RetryStrategy::Exponential { min_duration: y, max_duration: e }) => (x == y) & (d == e),
        _ => false,
    }
}
/// A message of up to three arbitrary ASCII characters.
fn message() -> String {
    let n = vh::choice(4, "length");
    (0..n).map(|_| { let c = vh::u8("char"); vh::assume(c < 128); c as char }).collect()
}
#[derive(Debug, Clone)]
struct Custom(String);
impl std::fmt::Display for Custom { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Custom {}

/// An error with a cause.
#[derive(Debug)]
struct Caused(String, Option<Box<Caused>>);
impl std::fmt::Display for Caused { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Caused { fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { self.1.as_deref().map(|c| c as &(dyn std::error::Error + 'static)) } }

/// The messages of an error and its causes, outermost first.
fn check_causes(e: &anyhow::Error, want: &[String]) {
    vh::check(e.to_string() == want[0], "the message is not preserved");
    let got: Vec<String> = e.chain().map(|c| c.to_string()).collect();
    vh::check(got == want, "the causes are not preserved");
}

fn check_transient(e: OperationError, m: &str, r: RetryStrategy, f: FatalStrategy) {
    vh::check(same_f(e.fatal_strategy(), f), "the fatal strategy reported is not the error's own");
    vh::check(e.as_err().to_string() == m, "the message is not preserved");
    match &e {
        OperationError::Transient { err, retry_strategy, fatal_strategy } => {
            vh::check(err.to_string() == m, "the message is not preserved");
            vh::check(same_r(*retry_strategy, r), "the retry strategy is not preserved");
            vh::check(same_f(*fatal_strategy, f), "the fatal strategy is not preserved");
        }
        _ => return vh::check(false, "a transient error turns into another kind"),
    }
    vh::check(e.to_string().ends_with(m), "the message is not preserved");
    if vh::bool("into fatal") { check_fatal(e.into_fatal(), m, f) } else { vh::check(e.into_err().to_string() == m, "the message is not preserved"); }
}
fn check_fatal(e: OperationError, m: &str, f: FatalStrategy) {
    vh::check(same_f(e.fatal_strategy(), f), "the fatal strategy reported is not the error's own");
    vh::check(e.as_err().to_string() == m, "the message is not preserved");
    match &e {
        OperationError::Fatal { err, strategy } => {
            vh::check(err.to_string() == m, "the message is not preserved");
            vh::check(same_f(*strategy, f), "the fatal strategy is not preserved");
        }
        _ => return vh::check(false, "a fatal error turns into another kind"),
    }
    vh::check(e.to_string().ends_with(m), "the message is not preserved");
    if vh::bool("into fatal") { let e = e.into_fatal(); vh::check(same_f(e.fatal_strategy(), f) && matches!(e, OperationError::Fatal { .. }), "a fatal error turns into another kind"); vh::check(e.into_err().to_string() == m, "the message is not preserved"); }
    else { vh::check(e.into_err().to_string() == m, "the message is not preserved"); }
}

harness! {
    err_transient {
        let (m, r, f) = (message(), strategy(), fatal());
        let t = match vh::choice(3, "constructor") {
            0 => TransientError::new(Custom(m.clone()), r, f),
            1 => TransientError::from_anyhow(anyhow::anyhow!(Custom(m.clone())), r, f),
            _ => TransientError::from_str(&m, r, f),
        };
        let e = if vh::bool("as result") {
            let x: Result<u8> = t.into();
            match x { Err(e) => e, Ok(_) => return vh::check(false, "an error turns into a success") }
        } else { t.into() };
        check_transient(e, &m, r, f);
        vh::cover("done");
    }
    err_fatal {
        let (m, f) = (message(), fatal());
        let t = match vh::choice(3, "constructor") {
            0 => FatalError::new(Custom(m.clone()), f),
            1 => FatalError::from_anyhow(anyhow::anyhow!(Custom(m.clone())), f),
            _ => FatalError::from_str(&m, f),
        };
        let e = if vh::bool("as result") {
            let x: Result<u8> = t.into();
            match x { Err(e) => e, Ok(_) => return vh::check(false, "an error turns into a success") }
        } else { t.into() };
        check_fatal(e, &m, f);
        vh::cover("done");
    }
    /// Errors with causes and context.
    err_causes {
        let depth = vh::choice(3, "causes") as usize;
        let mut want: Vec<String> = (0..depth + 1).map(|i| format!("{i}{}", (b'a' + (vh::u8("char") & 15)) as char)).collect();
        let by_context = vh::bool("context");
        let caused = |w: &[String]| { let mut it = w.iter().rev(); let mut e = Caused(it.next().unwrap().clone(), None); for m in it { e = Caused(m.clone(), Some(Box::new(e))); } e };
        let chained = |w: &[String]| { let mut it = w.iter().rev(); let mut e = anyhow::Error::msg(it.next().unwrap().clone()); for m in it { e = e.context(m.clone()); } e };
        let any = |w: &[String]| if by_context { chained(w) } else { anyhow::Error::new(caused(w)) };
        let (r, f) = (strategy(), fatal());
        let (mut given, mut transient) = (true, true);
        let e: OperationError = match vh::choice(6, "how") {
            0 => TransientError::new(caused(&want), r, f).into(),
            1 => TransientError::from_anyhow(any(&want), r, f).into(),
            2 => { given = false; TransientError::from(caused(&want)).into() }
            3 => { transient = false; FatalError::new(caused(&want), f).into() }
            4 => { transient = false; FatalError::from_anyhow(any(&want), f).into() }
            _ => { transient = false; given = false; FatalError::from(caused(&want)).into() }
        };
        check_causes(e.as_err(), &want);
        vh::check(same_f(e.fatal_strategy(), if given { f } else { FatalStrategy::Terminate }), "the fatal strategy reported is not the error's own");
        vh::check(matches!(e, OperationError::Transient { .. }) == transient, "an error turns into another kind");
        vh::check(e.to_string().ends_with(&want[0]), "the message is not preserved");
        let e = if vh::bool("into fatal") { e.into_fatal() } else { e };
        check_causes(e.as_err(), &want);
        let e = e.into_err();
        check_causes(&e, &want);
        want.insert(0, "more".to_string());
        check_causes(&e.context("more"), &want);
        vh::cover("done");
    }
    /// Any other error, converted by `?`.
    err_default {
        let m = message();
        fn fails(m: &str) -> std::result::Result<u8, Custom> { Err(Custom(m.to_string())) }
        fn t(m: &str) -> std::result::Result<u8, TransientError> { Ok(fails(m)?) }
        fn f(m: &str) -> std::result::Result<u8, FatalError> { Ok(fails(m)?) }
        fn ot(m: &str) -> Result<u8> { Ok(t(m)?) }
        fn of(m: &str) -> Result<u8> { Ok(f(m)?) }
        if vh::bool("fatal") {
            let Err(e) = of(&m) else { return vh::check(false, "an error turns into a success") };
            check_fatal(e, &m, FatalStrategy::Terminate);
        } else {
            let Err(e) = ot(&m) else { return vh::check(false, "an error turns into a success") };
            check_transient(e, &m, RetryStrategy::Immediate { max_retries: NonZeroU32::new(3).unwrap() }, FatalStrategy::Terminate);
        }
        vh::check(matches!(FatalStrategy::default(), FatalStrategy::Terminate), "the default fatal strategy is not to terminate");
        vh::check(same_r(RetryStrategy::default(), RetryStrategy::Immediate { max_retries: NonZeroU32::new(3).unwrap() }), "the default retry strategy is not three immediate retries");
        vh::cover("done");
    }
    /// Only an exponential strategy has a backoff, with its own bounds.
    err_backoff {
        let k = vh::choice(3, "strategy");
        let (lo, hi) = (Duration::from_millis([1, 250, 60_000][vh::choice(3, "min") as usize]), Duration::from_millis([5, 1000, 900_000][vh::choice(3, "max") as usize]));
        let s = match k { 0 => RetryStrategy::Immediate { max_retries: NonZeroU32::new(2).unwrap() }, 1 => RetryStrategy::After { max_retries: NonZeroU32::new(2).unwrap(), duration: lo }, _ => RetryStrategy::Exponential { min_duration: lo, max_duration: hi } };
        match s.into_backoff() {
            Ok(b) => { vh::check(k == 2, "a strategy without backoff has one"); vh::check(b.initial_interval == lo && b.current_interval == lo, "the first interval is not the one configured"); vh::check(b.max_elapsed_time == Some(hi), "the maximum time is not the one configured"); }
            Err(_) => vh::check(k != 2, "an exponential strategy has no backoff"),
        }
        vh::cover("done");
    }
}
