//! C19: what a worker does with each task. C20: aborting every worker.
use crate::util::*;
use lapin::model::{self, Disp};
use paladin::{config::{self, Config}, operation::{marker::Marker, FatalError, FatalStrategy, Result, RetryStrategy, TransientError},
    runtime::{CommandIpc, WorkerRuntime, COMMAND_IPC_ABORT_ALL_KEY, COMMAND_IPC_ROUTING_KEY}, serializer::Serializer, task::{AnyTaskResult, Task, TaskOutput}};
use serde::{Deserialize, Serialize};
use std::num::NonZeroU32;
use std::sync::Mutex;

const OK: u8 = 0;
const TERMINATE: u8 = 1;
const IGNORE: u8 = 2;
const PANIC: u8 = 3;
const EXHAUSTED: u8 = 4;
const SECOND: u8 = 5;
const EXHAUSTED_IGNORE: u8 = 6;
fn terminates(k: u8) -> bool { matches!(k, TERMINATE | PANIC | EXHAUSTED) }
fn ignored(k: u8) -> bool { matches!(k, IGNORE | EXHAUSTED_IGNORE) }
/// How often the operation of a task runs when nothing interrupts it.
fn runs_of(k: u8) -> usize { match k { EXHAUSTED | EXHAUSTED_IGNORE => 3, SECOND => 2, _ => 1 } }

/// (task, its abort signal was raised, an abort had been broadcast) for every run of an operation
static RAN: Mutex<Vec<(u8, bool, bool)>> = Mutex::new(Vec::new());
static ABORTED: AtomicBool = AtomicBool::new(false);
fn ran(id: u8) -> usize { RAN.lock().unwrap().iter().filter(|r| r.0 == id).count() }

#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Step { kind: u8, id: u8 }
impl Operation for Step {
    type Input = u8;
    type Output = u8;
    fn execute(&self, x: u8, abort: AbortSignal) -> Result<u8> {
        let before = ran(self.id);
        RAN.lock().unwrap().push((self.id, abort.is_some_and(|a| a.load(Ordering::SeqCst)), ABORTED.load(Ordering::SeqCst)));
        let transient = |s| TransientError::from_str(&format!("boom-{}", self.id), RetryStrategy::Immediate { max_retries: NonZeroU32::new(1).unwrap() }, s).into();
        match self.kind {
            TERMINATE => FatalError::from_str(&format!("boom-{}", self.id), FatalStrategy::Terminate).into(),
            IGNORE => FatalError::from_str(&format!("boom-{}", self.id), FatalStrategy::Ignore).into(),
            PANIC => panic!("boom"),
            EXHAUSTED => transient(FatalStrategy::Terminate),
            SECOND if before == 0 => transient(FatalStrategy::Terminate),
            EXHAUSTED_IGNORE => transient(FatalStrategy::Ignore),
            _ => Ok(x ^ 0x5a),
        }
    }
}
fn format(cbor: bool) -> Serializer { if cbor { Serializer::Cbor } else { Serializer::Postcard } }
const JOBS: [&str; 2] = ["job-a", "job-ab"];
struct Sent { msg: u64, id: u8, job: usize, kind: u8, input: u8 }
struct Env { wire: Serializer, sent: Vec<Sent> }
impl Env {
    async fn new(workers: usize) -> (Env, Vec<tokio::task::JoinHandle<anyhow::Result<()>>>) {
        let cbor = vh::decide(2, "cbor") == 1;
        vh::set_rng(vh::decide(2, "select"));
        let config = Config { runtime: config::Runtime::Amqp, serializer: if cbor { config::Serializer::Cbor } else { config::Serializer::Postcard }, amqp_uri: Some("amqp://host".into()), task_bus_routing_key: Some("tasks".into()), ..Default::default() };
        let mut hs = vec![];
        for _ in 0..workers {
            let w = WorkerRuntime::from_config(&config, Marker).await.unwrap();
            hs.push(tokio::spawn(async move { w.main_loop().await }));
        }
        settle().await;
        (Env { wire: format(cbor), sent: vec![] }, hs)
    }
    fn send(&mut self, kind: u8, job: usize) {
        let id = self.sent.len() as u8;
        let input = vh::u8("input");
        let inner = if self.sent.is_empty() { format(vh::decide(2, "inner cbor") == 1) } else { Serializer::Postcard };
        let t = Task { routing_key: JOBS[job].to_string(), metadata: id, op: &Step { kind, id }, input }.as_any_task(inner).unwrap();
        let msg = model::inject_id("tasks", &self.wire.to_bytes(&t).unwrap()).expect("the worker declares the task queue");
        self.sent.push(Sent { msg, id, job, kind, input });
    }
    fn command(&self, key: &str) { model::inject(COMMAND_IPC_ROUTING_KEY, &self.wire.to_bytes(&CommandIpc::Abort { routing_key: key.to_string() }).unwrap()); }
    /// What was sent to each job's channel: outputs (task, value) and error texts.
    fn results(&self) -> ([Vec<(u8, u8)>; 2], [Vec<String>; 2]) {
        let (mut oks, mut errs) = ([vec![], vec![]], [vec![], vec![]]);
        for p in model::with(|b| b.published.clone()) {
            let Some(j) = JOBS.iter().position(|j| p.exchange.is_empty() && p.routing_key == *j) else {
                vh::check(p.exchange == COMMAND_IPC_ROUTING_KEY, "something is published neither to a job's channel nor to the command channel");
                continue;
            };
            let Ok(r) = self.wire.from_bytes::<AnyTaskResult>(&p.data) else { vh::check(false, "a result is not in the configured format"); continue };
            match r.into_task_result::<Step, u8>() {
                Ok(TaskOutput { metadata, output }) => oks[j].push((metadata, output)),
                Err(e) => errs[j].push(e.to_string()),
            }
        }
        (oks, errs)
    }
    fn aborts(&self) -> usize {
        model::with(|b| b.published.clone()).iter().filter(|p| p.exchange == COMMAND_IPC_ROUTING_KEY).filter(|p| match self.wire.from_bytes::<CommandIpc>(&p.data) {
            Ok(CommandIpc::Abort { routing_key }) => { vh::check(routing_key == COMMAND_IPC_ABORT_ALL_KEY, "a worker aborts something else than everything"); true }
            Err(_) => { vh::check(false, "a command cannot be decoded"); false }
        }).count()
    }
    fn dispositions(&self, s: &Sent) -> Vec<Disp> { model::with(|b| b.disposed.iter().filter(|d| d.0 == s.msg).map(|d| d.1).collect()) }
    fn waiting(&self) -> usize { model::ready("tasks").unwrap().len() }

    /// Task `s` ran to its end undisturbed.
    fn completed(&self, s: &Sent) {
        let (oks, errs) = self.results();
        let d = self.dispositions(s);
        vh::check(d.len() == 1, "a delivered task does not get exactly one disposition");
        let n = ran(s.id);
        vh::check(n == runs_of(s.kind), "a task is not executed exactly once (and as often as its retries say)");
        let mine: Vec<_> = oks.iter().enumerate().flat_map(|(j, v)| v.iter().map(move |o| (j, *o))).filter(|(_, o)| o.0 == s.id).collect();
        let failed = d.first().is_some_and(|d| matches!(d, Disp::Nack { .. }));
        if terminates(s.kind) {
            vh::check(failed, "a task that failed is acknowledged");
            vh::check(mine.is_empty(), "a task that failed yields an output");
            let text = if s.kind == PANIC { "panicked".to_string() } else { format!("boom-{}", s.id) };
            vh::check(errs[s.job].iter().filter(|e| e.contains(&text)).count() == 1, "the error of a terminating failure is not sent to the task's channel");
            vh::check(self.aborts() == 1, "a terminating failure does not broadcast exactly one abort");
            vh::cover("terminated");
        } else if ignored(s.kind) {
            vh::check(failed, "a task that failed is acknowledged");
            vh::check(mine.is_empty(), "a task that failed yields an output");
            vh::check(!errs.iter().flatten().any(|e| e.contains(&format!("boom-{}", s.id))), "the error of an ignored failure is sent");
            vh::cover("ignored");
        } else {
            vh::check(d.first() == Some(&Disp::Ack), "a task that succeeded is not acknowledged");
            vh::check(mine.len() == 1 && mine[0].0 == s.job && mine[0].1 .1 == s.input ^ 0x5a, "a successful task's own result is not sent once, to its own channel");
            vh::cover("succeeded");
        }
    }
    /// Task `s` belongs to a terminated job.
    fn skipped(&self, s: &Sent) {
        let d = self.dispositions(s);
        vh::check(d.len() == 1 && matches!(d[0], Disp::Nack { .. }), "a task of a terminated job is not rejected once");
        vh::check(ran(s.id) == 0, "a task of a terminated job is executed");
        vh::check(!self.results().0.iter().flatten().any(|o| o.0 == s.id), "a task of a terminated job yields an output");
        vh::cover("skipped");
    }
    /// Whatever a concurrent abort did to task `s`, it did not get two dispositions or a wrong one.
    fn consistent(&self, s: &Sent) {
        let (oks, errs) = self.results();
        let d = self.dispositions(s);
        vh::check(d.len() <= 1, "a task gets two dispositions");
        let mine: Vec<_> = oks.iter().enumerate().flat_map(|(j, v)| v.iter().map(move |o| (j, *o))).filter(|(_, o)| o.0 == s.id).collect();
        let err = errs.iter().flatten().filter(|e| e.contains(&format!("boom-{}", s.id))).count();
        match d.first() {
            Some(Disp::Ack) => vh::check(s.kind == OK || s.kind == SECOND, "a task that failed is acknowledged"),
            Some(_) => vh::check(mine.is_empty(), "a rejected task yields an output"),
            None => vh::check(mine.is_empty() && err == 0, "a task without disposition yields a result"),
        }
        if d.first() == Some(&Disp::Ack) { vh::check(mine.len() == 1 && mine[0].0 == s.job && mine[0].1 .1 == s.input ^ 0x5a, "a successful task's own result is not sent once, to its own channel"); }
        vh::check(err <= 1, "an error is sent twice");
        vh::check(err == 0 || terminates(s.kind), "an error is sent for a task that did not terminate the job");
    }
    fn no_more_than_these(&self, oks: usize, errs: usize) {
        let (o, e) = self.results();
        vh::check(o.iter().map(|v| v.len()).sum::<usize>() == oks, "outputs are invented");
        vh::check(e.iter().map(|v| v.len()).sum::<usize>() == errs, "errors are invented");
    }
}
fn go(f: impl Future<Output = ()>) { if run(f).is_none() { vh::check(false, "a worker hangs") } vh::cover("done"); }

/// One worker, tasks of every kind.
fn one(n: usize, kinds: &'static [u8], two_jobs: bool) {
    go(async move {
        let (mut env, _h) = Env::new(1).await;
        for _ in 0..n {
            let k = kinds[vh::decide(kinds.len() as u32, "kind") as usize];
            let j = if two_jobs { vh::decide(2, "job") as usize } else { 0 };
            env.send(k, j);
        }
        tokio::time::sleep(Duration::from_secs(30)).await;
        let f = env.sent.iter().position(|s| terminates(s.kind));
        for (i, s) in env.sent.iter().enumerate() {
            match f {
                None => env.completed(s),
                Some(f) if i <= f => env.completed(s),
                Some(f) => {
                    env.consistent(s);
                    if s.job == env.sent[f].job { vh::check(ran(s.id) == 0, "a task of a terminated job is executed"); }
                    // the tasks right behind it in the same job are rejected while the worker goes on
                    if env.sent[f..=i].iter().all(|x| x.job == env.sent[f].job) { env.skipped(s); }
                }
            }
        }
        if f.is_none() {
            vh::check(env.aborts() == 0, "an abort is broadcast although nothing terminated");
            env.no_more_than_these(env.sent.iter().filter(|s| !ignored(s.kind)).count(), 0);
            vh::check(RAN.lock().unwrap().iter().all(|r| !r.1), "the abort signal is raised although nothing was aborted");
        }
    });
}
/// Several workers share the queue.
fn shared(n: usize, workers: usize, kinds: &'static [u8]) {
    go(async move {
        let (mut env, _h) = Env::new(workers).await;
        for _ in 0..n {
            let k = kinds[vh::decide(kinds.len() as u32, "kind") as usize];
            let j = vh::decide(2, "job") as usize;
            env.send(k, j);
        }
        tokio::time::sleep(Duration::from_secs(30)).await;
        let quiet = !env.sent.iter().any(|s| terminates(s.kind));
        for s in &env.sent { if quiet { env.completed(s) } else { env.consistent(s) } }
        if quiet { vh::check(env.aborts() == 0, "an abort is broadcast although nothing terminated"); }
        else {
            // the first one to fail is undisturbed
            vh::check(RAN.lock().unwrap().iter().any(|r| terminates(env.sent[r.0 as usize].kind)), "no task is executed");
            vh::check(env.aborts() >= 1 && env.results().1.iter().flatten().count() == env.aborts(), "a terminating failure does not send one error and broadcast one abort");
        }
        let r = RAN.lock().unwrap().clone();
        vh::check(r.iter().all(|r| env.sent[r.0 as usize].kind != OK || ran(r.0) == 1), "a task is executed twice");
    });
}
/// A job terminated by a command: tasks running go on, later ones are rejected; other jobs are unaffected.
fn job_command(before: usize, after: usize, kinds: &'static [u8]) {
    go(async move {
        let (mut env, h) = Env::new(1).await;
        let terminated = vh::decide(2, "terminated") as usize;
        let kind = || kinds[vh::decide(kinds.len() as u32, "kind") as usize];
        for _ in 0..before { let k = kind(); let j = vh::decide(2, "job") as usize; env.send(k, j); }
        if vh::decide(2, "while running") == 0 { settle().await; } else { for _ in 0..40 { yield_now().await; } }
        let started = vh::pending_events();
        env.command(JOBS[terminated]);
        if started > 0 { for _ in 0..40 { yield_now().await; } }
        settle().await;
        for _ in 0..after { let k = kind(); let j = vh::decide(2, "job") as usize; env.send(k, j); }
        tokio::time::sleep(Duration::from_secs(30)).await;
        for (i, s) in env.sent.iter().enumerate() {
            // whatever was delivered before the command (one task at a time) completes
            if s.job != terminated || (i < before && (started == 0 || i == 0)) { env.completed(s) } else { env.skipped(s) }
        }
        vh::check(env.aborts() == 0, "an abort is broadcast although nothing terminated");
        vh::check(RAN.lock().unwrap().iter().all(|r| !r.1), "the abort signal is raised although no abort of everything was broadcast");
        vh::check(!h[0].is_finished(), "a worker stops although nothing was aborted");
    });
}
/// A job is terminated, by a command or a failing task, `start` seconds after the worker was started; tasks of it that come in the seconds
/// after that are still rejected.
fn job_later(start: u32) {
    go(async move {
        let (mut env, h) = Env::new(1).await;
        seconds(start).await;
        let by_failure = vh::decide(2, "by failure") == 1;
        let terminated = if by_failure { 0 } else { vh::decide(2, "terminated") as usize };
        if by_failure { env.send(TERMINATE, 0); } else { env.command(JOBS[terminated]); }
        settle().await;
        for _ in 0..2 {
            seconds(1 + 4 * vh::decide(2, "seconds")).await;
            // after a failure everything is aborted with the next task the worker takes
            env.send(CALM[vh::decide(2, "kind") as usize], if by_failure { 0 } else { vh::decide(2, "job") as usize });
        }
        tokio::time::sleep(Duration::from_secs(5)).await;
        for s in &env.sent { if s.job != terminated || s.kind == TERMINATE { env.completed(s) } else { env.skipped(s) } }
        vh::check(!h[0].is_finished(), "a worker stops although nothing was aborted");
    });
}
/// Everything is aborted while a worker over AMQP runs a task.
/// `burst`: other jobs are terminated right before or after.
fn abort_amqp(n: usize, burst: bool) {
    go(async move {
        let (mut env, h) = Env::new(1).await;
        let late = vh::decide(2, "late") == 1;
        for _ in 0..n { env.send(OK, 0); }
        let cmd = { let w = env.wire; tokio::spawn(async move {
            vh::event().await;
            ABORTED.store(true, Ordering::SeqCst);
            let all = if burst { vh::decide(3, "place") as usize } else { 0 };
            let mut keys = vec![];
            if burst { for _ in 0..2 { keys.push(["job-a", "job-c", "job-d"][vh::decide(3, "other job") as usize]); } }
            keys.insert(all, COMMAND_IPC_ABORT_ALL_KEY);
            let apart = burst && vh::decide(2, "apart") == 1;
            for k in keys {
                // the worker may see the one before this one comes
                if apart { for _ in 0..20 { yield_now().await; } }
                model::inject(COMMAND_IPC_ROUTING_KEY, &w.to_bytes(&CommandIpc::Abort { routing_key: k.to_string() }).unwrap());
            }
        }) };
        tokio::time::sleep(Duration::from_secs(30)).await;
        vh::check(cmd.is_finished(), "the environment never fires");
        if late { env.send(OK, 1); tokio::time::sleep(Duration::from_secs(30)).await; }
        let r = RAN.lock().unwrap().clone();
        for (id, raised, aborted) in &r {
            vh::check(*aborted || !*raised, "the abort signal is raised although nothing was aborted");
            vh::check(!*aborted || *raised, "a task that is running when everything is aborted does not see its abort signal");
            if *aborted {
                vh::check(env.dispositions(&env.sent[*id as usize]).len() == 1, "an aborted task is not rejected once");
                vh::check(!env.results().0.iter().flatten().any(|o| o.0 == *id), "an aborted task's result is sent");
            } else { env.completed(&env.sent[*id as usize]); }
        }
        let aborted = r.iter().filter(|x| x.2).count();
        vh::check(aborted <= 1, "a worker takes another task after it was aborted");
        if aborted == 1 { vh::check(h[0].is_finished(), "an aborted worker does not stop"); vh::cover("aborted while running"); }
        for s in &env.sent { env.consistent(s); if aborted == 1 && ran(s.id) == 0 { vh::check(!env.results().0.iter().flatten().any(|o| o.0 == s.id), "a task that never ran yields an output"); } }
    });
}
/// Everything is aborted while the workers of an in-memory runtime run tasks: by a command, or by a failing task.
fn abort_memory(workers: usize, n: usize, by_failure: bool, late: bool) {
    go(async move {
        vh::set_rng(vh::decide(2, "select"));
        let rt = in_memory(workers).await;
        let (key, sender, mut results) = rt.lease_coordinated_task_channel::<Step, u8>().await.unwrap();
        let bad = if by_failure { vh::decide(n as u32, "failing") as u8 } else { 255 };
        let mut inputs = vec![];
        let mut ops = vec![];
        for id in 0..n as u8 { ops.push(&*Box::leak(Box::new(Step { kind: if id == bad { TERMINATE } else { OK }, id }))); inputs.push(vh::u8("input")); }
        let last = &*Box::leak(Box::new(Step { kind: OK, id: n as u8 }));
        for (id, op) in ops.into_iter().enumerate() { sender.publish(&Task { routing_key: key.clone(), metadata: id as u8, op, input: inputs[id] }).await.unwrap(); }
        // how many tasks were running when the abort went out
        let running = Arc::new(AtomicU32::new(0));
        let ipc = rt.get_command_ipc_sender().await.unwrap();
        let r2 = running.clone();
        if !by_failure { for _ in 0..60 { yield_now().await; } }
        let cmd = async {
            if by_failure { return }
            vh::event().await;
            r2.store(vh::pending_events() as u32, Ordering::SeqCst);
            ABORTED.store(true, Ordering::SeqCst);
            ipc.publish(&CommandIpc::Abort { routing_key: COMMAND_IPC_ABORT_ALL_KEY.to_string() }).await.unwrap();
        };
        let mut oks: Vec<(u8, u8)> = vec![];
        let mut errs: Vec<String> = vec![];
        let collect = async {
            _ = tokio::time::timeout(Duration::from_secs(30), async {
                while let Some((r, acker)) = results.next().await {
                    acker.ack().await.unwrap();
                    match r { Ok(TaskOutput { metadata, output }) => oks.push((metadata, output)), Err(e) => errs.push(e.to_string()) }
                }
            }).await;
        };
        tokio::join!(cmd, collect);
        let before = RAN.lock().unwrap().len();
        if late {
            sender.publish(&Task { routing_key: key.clone(), metadata: n as u8, op: last, input: 0 }).await.unwrap();
            tokio::time::sleep(Duration::from_secs(30)).await;
        }
        let r = RAN.lock().unwrap().clone();
        let fail_at = r.iter().position(|x| x.0 == bad);
        let after = |k: usize, x: &(u8, bool, bool)| if by_failure { fail_at.is_some_and(|f| k > f) } else { x.2 };
        for (k, x) in r[..before].iter().enumerate() {
            vh::check(ran(x.0) == 1, "a task is executed twice");
            let out = oks.iter().filter(|o| o.0 == x.0).count();
            if after(k, x) {
                vh::check(x.1, "a task that is running when everything is aborted does not see its abort signal");
                vh::check(out == 0, "an aborted task's result is sent");
                vh::cover("aborted while running");
            } else {
                vh::check(!x.1, "the abort signal is raised although nothing was aborted");
                if x.0 == bad { vh::check(errs.len() == 1 && errs[0].contains(&format!("boom-{bad}")), "the error of a terminating failure is not sent"); }
                else { vh::check(oks.contains(&(x.0, inputs[x.0 as usize] ^ 0x5a)) && out == 1, "a task that ended before everything was aborted does not yield its result"); }
            }
        }
        let started_after = r.iter().enumerate().filter(|(k, x)| after(*k, x)).count();
        if !by_failure {
            let running = running.load(Ordering::SeqCst) as usize;
            // workers that were running a task take no further one; an idle worker may still take one
            if running == workers { vh::check(started_after == running, "an aborted worker takes another task, or a task that was running vanishes"); vh::check(r.len() == before, "an aborted worker takes another task"); vh::cover("all running"); }
            else { vh::check(started_after <= workers, "an aborted worker takes another task"); }
        } else {
            vh::check(started_after <= workers, "an aborted worker takes another task");
        }
        vh::check(errs.len() <= 1, "more than one error is sent");
    });
}
const SIMPLE: &[u8] = &[OK, TERMINATE, IGNORE];
const ALL: &[u8] = &[OK, TERMINATE, IGNORE, PANIC, EXHAUSTED, SECOND, EXHAUSTED_IGNORE];
const CALM: &[u8] = &[OK, IGNORE];

harness! {
    worker_one { one(1, ALL, true) }
    worker_two { one(2, ALL, true) }
    worker_three { one(3, SIMPLE, true) }
    worker_four_calm { one(4, CALM, true) }
    worker_shared2 { shared(2, 2, SIMPLE) }
    worker_shared3 { shared(3, 2, SIMPLE) }
    worker_shared4 { shared(4, 3, CALM) }
    worker_command1 { job_command(1, 1, SIMPLE_CALM) }
    worker_later_fresh { job_later(0) }
    worker_later_reaped { job_later(56) }
    worker_command2 { job_command(2, 2, CALM) }
    abort_amqp1 { abort_amqp(1, false) }
    abort_amqp2 { abort_amqp(2, false) }
    abort_amqp3 { abort_amqp(3, false) }
    abort_burst1 { abort_amqp(1, true) }
    abort_burst2 { abort_amqp(2, true) }
    abort_memory1 { abort_memory(1, 1, false, true) }
    abort_memory1_2 { abort_memory(1, 2, false, true) }
    abort_memory2 { abort_memory(2, 2, false, true) }
    abort_memory2_3 { abort_memory(2, 3, false, true) }
    abort_memory3 { abort_memory(3, 3, false, true) }
    abort_memory3_2 { abort_memory(3, 2, false, true) }
    abort_failure2 { abort_memory(2, 2, true, false) }
    abort_failure3 { abort_memory(3, 3, true, false) }
    abort_failure2_3 { abort_memory(2, 3, true, false) }
}
const SIMPLE_CALM: &[u8] = &[OK, IGNORE, SECOND];
