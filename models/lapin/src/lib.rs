//! Model of the `lapin` AMQP client together with the broker behind it (AMQP 0-9-1 / RabbitMQ semantics,
//! in memory). It offers the API surface of lapin 2.5 that a client of queues, exchanges, consumers and
//! acknowledgements uses; `model` is the view harnesses have of the broker.
use std::collections::{BTreeMap, VecDeque};
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Waker};

pub mod types {
    use std::collections::BTreeMap;
    #[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct ShortString(String);
    impl ShortString { pub fn as_str(&self) -> &str { &self.0 } }
    impl From<String> for ShortString { fn from(s: String) -> Self { Self(s) } }
    impl From<&str> for ShortString { fn from(s: &str) -> Self { Self(s.to_owned()) } }
    impl std::borrow::Borrow<str> for ShortString { fn borrow(&self) -> &str { &self.0 } }
    impl std::fmt::Display for ShortString {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) }
    }
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct LongString(Vec<u8>);
    impl LongString { pub fn as_bytes(&self) -> &[u8] { &self.0 } }
    impl<B: Into<Vec<u8>>> From<B> for LongString { fn from(b: B) -> Self { Self(b.into()) } }
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct FieldArray(Vec<AMQPValue>);
    impl From<Vec<AMQPValue>> for FieldArray { fn from(v: Vec<AMQPValue>) -> Self { Self(v) } }
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct FieldTable(BTreeMap<ShortString, AMQPValue>);
    impl FieldTable {
        pub fn insert(&mut self, k: ShortString, v: AMQPValue) { self.0.insert(k, v); }
        pub fn contains_key(&self, k: &str) -> bool { self.0.contains_key(k) }
        pub fn inner(&self) -> &BTreeMap<ShortString, AMQPValue> { &self.0 }
    }
    impl From<BTreeMap<ShortString, AMQPValue>> for FieldTable { fn from(m: BTreeMap<ShortString, AMQPValue>) -> Self { Self(m) } }
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct ByteArray(Vec<u8>);
    #[derive(Clone, Debug, PartialEq)]
    pub enum AMQPValue {
        Boolean(bool), ShortShortInt(i8), ShortShortUInt(u8), ShortInt(i16), ShortUInt(u16), LongInt(i32), LongUInt(u32),
        LongLongInt(i64), Float(f32), Double(f64), ShortString(ShortString), LongString(LongString), FieldArray(FieldArray),
        Timestamp(u64), FieldTable(FieldTable), ByteArray(ByteArray), Void,
    }
    macro_rules! from { ($($t:ty => $v:ident),*) => { $(impl From<$t> for AMQPValue { fn from(v: $t) -> Self { AMQPValue::$v(v) } })* } }
    from!(bool => Boolean, i8 => ShortShortInt, u8 => ShortShortUInt, i16 => ShortInt, u16 => ShortUInt, i32 => LongInt,
          u32 => LongUInt, i64 => LongLongInt, f32 => Float, f64 => Double, ShortString => ShortString, LongString => LongString,
          FieldArray => FieldArray, FieldTable => FieldTable);
    pub type DeliveryTag = u64;
    pub type ChannelId = u16;
    pub type ReplyCode = u16;
    pub type MessageCount = u32;
}
use types::*;

pub mod options {
    macro_rules! opts { ($($n:ident { $($f:ident),* })*) => { $(
        #[derive(Copy, Clone, Debug, Default, PartialEq, Eq)]
        pub struct $n { $(pub $f: bool),* }
    )* } }
    opts! {
        BasicAckOptions { multiple }
        BasicNackOptions { multiple, requeue }
        BasicRejectOptions { requeue }
        BasicConsumeOptions { no_local, no_ack, exclusive, nowait }
        BasicCancelOptions { nowait }
        BasicPublishOptions { mandatory, immediate }
        BasicQosOptions { global }
        BasicGetOptions { no_ack }
        BasicRecoverOptions { requeue }
        ConfirmSelectOptions { nowait }
        ExchangeDeclareOptions { passive, durable, auto_delete, internal, nowait }
        ExchangeDeleteOptions { if_unused, nowait }
        QueueDeclareOptions { passive, durable, exclusive, auto_delete, nowait }
        QueueDeleteOptions { if_unused, if_empty, nowait }
        QueueBindOptions { nowait }
        QueuePurgeOptions { nowait }
    }
}
use options::*;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub enum ExchangeKind { Custom(String), #[default] Direct, Fanout, Headers, Topic }

#[derive(Clone, Debug, Default, PartialEq)]
pub struct BasicProperties {
    content_type: Option<ShortString>, content_encoding: Option<ShortString>, headers: Option<FieldTable>,
    delivery_mode: Option<u8>, priority: Option<u8>, correlation_id: Option<ShortString>, reply_to: Option<ShortString>,
    expiration: Option<ShortString>, message_id: Option<ShortString>, timestamp: Option<u64>, kind: Option<ShortString>,
}
macro_rules! props { ($($w:ident $f:ident $t:ty),*) => { impl BasicProperties { $(
    #[must_use] pub fn $w(mut self, v: $t) -> Self { self.$f = Some(v); self }
    pub fn $f(&self) -> &Option<$t> { &self.$f } )* } } }
props!(with_content_type content_type ShortString, with_content_encoding content_encoding ShortString, with_headers headers FieldTable,
       with_delivery_mode delivery_mode u8, with_priority priority u8, with_correlation_id correlation_id ShortString,
       with_reply_to reply_to ShortString, with_expiration expiration ShortString, with_message_id message_id ShortString,
       with_timestamp timestamp u64, with_type kind ShortString);

pub mod protocol {
    pub type AMQPSoftCode = u16;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct AMQPError { pub code: u16, pub message: String }
    pub mod basic { pub use crate::BasicProperties as AMQPProperties; }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Error {
    InvalidChannel(u16), InvalidChannelState(String), InvalidConnectionState(String), ProtocolError(protocol::AMQPError), ChannelsLimitReached,
    MissingHeartbeatError,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::ProtocolError(e) => write!(f, "protocol error: {} {}", e.code, e.message),
            Error::InvalidChannel(_) => f.write_str("invalid channel"),
            Error::InvalidChannelState(s) => write!(f, "invalid channel state: {s}"),
            Error::InvalidConnectionState(s) => write!(f, "invalid connection state: {s}"),
            _ => f.write_str("error"),
        }
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
fn perr<T>(code: u16, m: &str) -> Result<T> { Err(Error::ProtocolError(protocol::AMQPError { code, message: m.to_string() })) }

// ------------------------------------------------------------------ broker
pub mod model {
    use super::*;
    #[derive(Clone, Debug)]
    pub struct Msg { pub id: u64, pub data: Vec<u8>, pub exchange: String, pub routing_key: String, pub properties: BasicProperties, pub redelivered: bool }
    #[derive(Debug)]
    pub struct Queue {
        pub options: QueueDeclareOptions, pub arguments: FieldTable, pub ready: VecDeque<Msg>,
        pub(super) consumers: Vec<u64>, pub(super) rr: usize,
    }
    #[derive(Debug)]
    pub struct Exchange { pub kind: ExchangeKind, pub options: ExchangeDeclareOptions, pub arguments: FieldTable, pub bindings: Vec<(String, String)> }
    pub(super) struct Cons {
        pub queue: String, pub channel: u16, pub tag: String, pub no_ack: bool, pub prefetch: u16, pub unacked: usize,
        pub buf: VecDeque<Result<Delivery>>, pub waker: Option<Waker>, pub cancelled: bool,
    }
    pub(super) struct Unacked { pub tag: u64, pub queue: String, pub cons: u64, pub msg: Msg }
    pub(super) struct Chan { pub conn: u32, pub prefetch: u16, pub open: bool, pub next_tag: u64, pub unacked: Vec<Unacked> }
    /// One completed disposition of a delivery.
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Disp { Ack, Nack { requeue: bool }, Auto }
    #[derive(Clone, Debug)]
    pub struct Published { pub exchange: String, pub routing_key: String, pub data: Vec<u8>, pub properties: BasicProperties, pub routed: usize }
    #[derive(Default)]
    pub struct Broker {
        pub queues: BTreeMap<String, Queue>, pub exchanges: BTreeMap<String, Exchange>,
        pub published: Vec<Published>,
        /// (message id, disposition) in order
        pub disposed: Vec<(u64, Disp)>,
        pub uris: Vec<String>,
        pub qos: Vec<u16>,
        pub conns_closed: u32,
        pub(super) cons: BTreeMap<u64, Cons>, pub(super) chans: BTreeMap<u16, Chan>,
        pub(super) next_msg: u64, pub(super) next_cons: u64, pub(super) next_chan: u16, pub(super) next_conn: u32,
        pub(super) fail_connect: bool, pub(super) fail_publish: u32, pub(super) fail_consume: bool, pub(super) slow: bool,
        pub(super) fail_at: Option<(String, u32)>,
    }
    static BROKER: Mutex<Option<Broker>> = Mutex::new(None);
    pub fn with<R>(f: impl FnOnce(&mut Broker) -> R) -> R {
        let mut g: MutexGuard<Option<Broker>> = match BROKER.lock() { Ok(g) => g, Err(p) => p.into_inner() };
        f(g.get_or_insert_with(Broker::default))
    }
    pub fn reset() { let old = { let mut g = match BROKER.lock() { Ok(g) => g, Err(p) => p.into_inner() }; g.take() }; drop(old); }
    /// Run `f` on the broker, then wake what it made ready (outside the lock).
    pub(super) fn step<R>(f: impl FnOnce(&mut Broker, &mut Vec<Waker>) -> R) -> R {
        let mut w = Vec::new();
        let r = with(|b| f(b, &mut w));
        for x in w { x.wake(); }
        r
    }
    /// Put a raw message on a queue, as any other client of the broker could.
    pub fn inject(queue: &str, data: &[u8]) -> bool { inject_id(queue, data).is_some() }
    /// The same, giving the message's id.
    pub fn inject_id(queue: &str, data: &[u8]) -> Option<u64> {
        step(|b, w| {
            let id = b.new_id();
            let m = Msg { id, data: data.to_vec(), exchange: String::new(), routing_key: queue.to_string(), properties: Default::default(), redelivered: false };
            match b.queues.get_mut(queue) { Some(q) => { q.ready.push_back(m); b.dispatch(queue, w); Some(id) } None => None }
        })
    }
    /// Make every consumer of the queue see a (non-terminal) delivery error next.
    pub fn inject_error(queue: &str) {
        step(|b, w| {
            let ids = b.queues.get(queue).map(|q| q.consumers.clone()).unwrap_or_default();
            for c in ids { if let Some(c) = b.cons.get_mut(&c) {
                c.buf.push_back(Err(Error::ProtocolError(protocol::AMQPError { code: 320, message: "injected delivery error".into() })));
                w.extend(c.waker.take());
            } }
        })
    }
    /// The broker's replies take time from now on.
    pub fn slow(v: bool) { with(|b| b.slow = v) }
    pub fn fail_next_publishes(n: u32) { with(|b| b.fail_publish = n) }
    /// The publication to this routing key that comes after `n` others fails.
    pub fn fail_publish_to(rk: &str, n: u32) { with(|b| b.fail_at = Some((rk.into(), n))) }
    pub fn closed_connections() -> u32 { with(|b| b.conns_closed) }
    /// All of a connection's channels are closed.
    pub fn open_channels() -> usize { with(|b| b.chans.values().filter(|c| c.open).count()) }
    pub fn queue_names() -> Vec<String> { with(|b| b.queues.keys().cloned().collect()) }
    pub fn fail_connect(v: bool) { with(|b| b.fail_connect = v) }
    pub fn fail_consume(v: bool) { with(|b| b.fail_consume = v) }
    /// Deliveries from this queue that wait for their disposition.
    pub fn unacked_from(queue: &str) -> usize { with(|b| b.chans.values().map(|c| c.unacked.iter().filter(|u| u.queue == queue).count()).sum()) }
    pub fn unacked() -> usize { with(|b| b.chans.values().map(|c| c.unacked.len()).sum()) }
    pub fn ready(queue: &str) -> Option<Vec<Vec<u8>>> { with(|b| b.queues.get(queue).map(|q| q.ready.iter().map(|m| m.data.clone()).collect())) }
    pub fn has_queue(q: &str) -> bool { with(|b| b.queues.contains_key(q)) }
    pub fn has_exchange(q: &str) -> bool { with(|b| b.exchanges.contains_key(q)) }
    pub fn num_consumers(q: &str) -> usize { with(|b| b.queues.get(q).map_or(0, |q| q.consumers.len())) }
    impl Broker {
        pub(super) fn new_id(&mut self) -> u64 { self.next_msg += 1; self.next_msg }
        /// Hand ready messages to consumers with room, round robin.
        pub(super) fn dispatch(&mut self, queue: &str, w: &mut Vec<Waker>) {
            let Some(q) = self.queues.get_mut(queue) else { return };
            while !q.ready.is_empty() && !q.consumers.is_empty() {
                let n = q.consumers.len();
                let mut target = None;
                for i in 0..n {
                    let k = (q.rr + i) % n;
                    let id = q.consumers[k];
                    let c = &self.cons[&id];
                    if c.no_ack || c.prefetch == 0 || c.unacked < c.prefetch as usize { target = Some((k, id)); break; }
                }
                let Some((k, id)) = target else { return };
                q.rr = (k + 1) % n;
                let m = q.ready.pop_front().unwrap();
                let c = self.cons.get_mut(&id).unwrap();
                let ch = self.chans.get_mut(&c.channel).unwrap();
                ch.next_tag += 1;
                let tag = ch.next_tag;
                if c.no_ack { self.disposed.push((m.id, Disp::Auto)); } else {
                    c.unacked += 1;
                    ch.unacked.push(Unacked { tag, queue: queue.to_string(), cons: id, msg: m.clone() });
                }
                c.buf.push_back(Ok(Delivery {
                    delivery_tag: tag, exchange: m.exchange.as_str().into(), routing_key: m.routing_key.as_str().into(),
                    redelivered: m.redelivered, properties: m.properties, data: m.data,
                    acker: acker::Acker { channel: c.channel, tag, used: Arc::new(AtomicBool::new(false)) },
                }));
                w.extend(c.waker.take());
            }
        }
        pub(super) fn settle(&mut self, chan: u16, tag: u64, multiple: bool, d: Disp, w: &mut Vec<Waker>) -> Result<()> {
            let Some(ch) = self.chans.get_mut(&chan) else { return perr(504, "no channel") };
            if !ch.open { return Err(Error::InvalidChannelState("Closed".into())); }
            let mut done = Vec::new();
            let mut i = 0;
            while i < ch.unacked.len() {
                let t = ch.unacked[i].tag;
                if t == tag || (multiple && (tag == 0 || t < tag)) { done.push(ch.unacked.remove(i)); } else { i += 1; }
            }
            if done.is_empty() && !multiple {
                // the broker closes the channel asynchronously; the client call itself succeeds
                self.close_chan(chan, w);
                return Ok(());
            }
            for u in done.iter().rev() {
                self.disposed.push((u.msg.id, d));
                if let Disp::Nack { requeue: true } = d {
                    let mut m = u.msg.clone();
                    m.redelivered = true;
                    if let Some(q) = self.queues.get_mut(&u.queue) { q.ready.push_front(m); }
                }
                if let Some(c) = self.cons.get_mut(&u.cons) { c.unacked -= 1; }
            }
            for u in &done { self.dispatch(&u.queue, w); }
            Ok(())
        }
        pub(super) fn close_chan(&mut self, chan: u16, w: &mut Vec<Waker>) {
            let Some(ch) = self.chans.get_mut(&chan) else { return };
            if !ch.open { return; }
            ch.open = false;
            let un = std::mem::take(&mut ch.unacked);
            let mine: Vec<u64> = self.cons.iter().filter(|(_, c)| c.channel == chan).map(|(i, _)| *i).collect();
            for id in mine { self.cancel(id, w); }
            for u in un.into_iter().rev() {
                let mut m = u.msg; m.redelivered = true;
                if let Some(q) = self.queues.get_mut(&u.queue) { q.ready.push_front(m); self.dispatch(&u.queue, w); }
            }
        }
        pub(super) fn cancel(&mut self, id: u64, w: &mut Vec<Waker>) {
            let Some(c) = self.cons.get_mut(&id) else { return };
            if c.cancelled { return; }
            c.cancelled = true;
            w.extend(c.waker.take());
            let qn = c.queue.clone();
            let mut auto = None;
            if let Some(q) = self.queues.get_mut(&qn) {
                q.consumers.retain(|x| *x != id);
                q.rr = 0;
                if q.options.auto_delete && q.consumers.is_empty() { auto = Some(qn.clone()); }
            }
            if let Some(q) = auto { self.queues.remove(&q); for e in self.exchanges.values_mut() { e.bindings.retain(|(b, _)| *b != q); } }
        }
        pub(super) fn publish(&mut self, exchange: &str, rk: &str, data: &[u8], p: BasicProperties, w: &mut Vec<Waker>) -> Result<usize> {
            let targets: Vec<String> = if exchange.is_empty() {
                if self.queues.contains_key(rk) { vec![rk.to_string()] } else { vec![] }
            } else {
                let Some(e) = self.exchanges.get(exchange) else { return perr(404, "NOT_FOUND - no exchange") };
                let mut t = Vec::new();
                for (q, key) in &e.bindings {
                    let m = match e.kind { ExchangeKind::Fanout => true, _ => key == rk };
                    if m && !t.contains(q) { t.push(q.clone()); }
                }
                t
            };
            self.published.push(Published { exchange: exchange.into(), routing_key: rk.into(), data: data.to_vec(), properties: p.clone(), routed: targets.len() });
            for t in &targets {
                let id = self.new_id();
                let q = self.queues.get_mut(t).unwrap();
                q.ready.push_back(Msg { id, data: data.to_vec(), exchange: exchange.into(), routing_key: rk.into(), properties: p.clone(), redelivered: false });
                self.dispatch(t, w);
            }
            Ok(targets.len())
        }
    }
}
use model::{step, Disp};
/// What a method of the protocol waits for.
async fn reply() {
    let mut left = if model::with(|b| b.slow) { 1 } else { 0 };
    std::future::poll_fn(move |cx| if left == 0 { Poll::Ready(()) } else { left -= 1; cx.waker().wake_by_ref(); Poll::Pending }).await
}

// ------------------------------------------------------------------ client API
#[derive(Clone, Default)]
pub struct ConnectionProperties { pub locale: String, pub client_properties: FieldTable }
impl ConnectionProperties {
    #[must_use] pub fn with_connection_name(mut self, n: LongString) -> Self { self.client_properties.insert("connection_name".into(), AMQPValue::LongString(n)); self }
    #[must_use] pub fn with_executor<E: Send + Sync + 'static>(self, _: E) -> Self { self }
    #[must_use] pub fn with_reactor<R: Send + Sync + 'static>(self, _: R) -> Self { self }
}

pub struct Connection { id: u32 }
impl fmt::Debug for Connection { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Connection") } }
impl Connection {
    pub async fn connect(uri: &str, _o: ConnectionProperties) -> Result<Connection> {
        model::with(|b| {
            if b.fail_connect { return perr(320, "connection refused"); }
            b.uris.push(uri.to_string());
            b.next_conn += 1;
            Ok(Connection { id: b.next_conn })
        })
    }
    pub async fn create_channel(&self) -> Result<Channel> {
        model::with(|b| {
            b.next_chan += 1;
            b.chans.insert(b.next_chan, model::Chan { conn: self.id, prefetch: 0, open: true, next_tag: 0, unacked: Vec::new() });
            Ok(Channel { inner: Arc::new(ChanInner { id: b.next_chan }) })
        })
    }
    pub async fn close(&self, _c: u16, _t: &str) -> Result<()> {
        step(|b, w| {
            b.conns_closed += 1;
            let ids: Vec<u16> = b.chans.iter().filter(|(_, c)| c.conn == self.id).map(|(i, _)| *i).collect();
            for i in ids { b.close_chan(i, w); }
            Ok(())
        })
    }
}

struct ChanInner { id: u16 }
#[derive(Clone)]
pub struct Channel { inner: Arc<ChanInner> }
impl fmt::Debug for Channel { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Channel") } }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Queue { name: ShortString, message_count: u32, consumer_count: u32 }
impl Queue {
    pub fn name(&self) -> &ShortString { &self.name }
    pub fn message_count(&self) -> u32 { self.message_count }
    pub fn consumer_count(&self) -> u32 { self.consumer_count }
}

pub mod publisher_confirm {
    use super::*;
    #[derive(Debug, PartialEq)]
    pub enum Confirmation { Ack(Option<()>), Nack(Option<()>), NotRequested }
    impl Confirmation { pub fn is_ack(&self) -> bool { matches!(self, Confirmation::Ack(_)) } pub fn is_nack(&self) -> bool { matches!(self, Confirmation::Nack(_)) } }
    pub struct PublisherConfirm(pub(super) Option<Result<Confirmation>>);
    impl std::future::Future for PublisherConfirm {
        type Output = Result<Confirmation>;
        fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> { Poll::Ready(self.0.take().expect("polled after completion")) }
    }
}
use publisher_confirm::*;

impl Channel {
    pub fn id(&self) -> u16 { self.inner.id }
    fn open(&self, b: &mut model::Broker) -> Result<()> {
        if b.chans.get(&self.inner.id).map_or(false, |c| c.open) { Ok(()) } else { Err(Error::InvalidChannelState("Closed".into())) }
    }
    pub async fn close(&self, _c: u16, _t: &str) -> Result<()> {
        step(|b, w| { self.open(b)?; b.close_chan(self.inner.id, w); Ok(()) })
    }
    pub async fn basic_qos(&self, n: u16, _o: BasicQosOptions) -> Result<()> {
        model::with(|b| { self.open(b)?; b.qos.push(n); b.chans.get_mut(&self.inner.id).unwrap().prefetch = n; Ok(()) })
    }
    pub async fn confirm_select(&self, _o: ConfirmSelectOptions) -> Result<()> { Ok(()) }
    pub async fn exchange_declare(&self, name: &str, kind: ExchangeKind, options: ExchangeDeclareOptions, arguments: FieldTable) -> Result<()> {
        let r = step(|b, w| {
            self.open(b)?;
            if let Some(e) = b.exchanges.get(name) {
                if !options.passive && (e.kind != kind || e.options.durable != options.durable || e.options.auto_delete != options.auto_delete || e.arguments != arguments) {
                    b.close_chan(self.inner.id, w);
                    return perr(406, "PRECONDITION_FAILED - inequivalent arg for exchange");
                }
                return Ok(());
            }
            if options.passive || name.is_empty() { b.close_chan(self.inner.id, w); return perr(404, "NOT_FOUND - no exchange"); }
            b.exchanges.insert(name.to_string(), model::Exchange { kind, options, arguments, bindings: Vec::new() });
            Ok(())
        });
        reply().await;
        r
    }
    pub async fn exchange_delete(&self, name: &str, _o: ExchangeDeleteOptions) -> Result<()> {
        let r = model::with(|b| { self.open(b)?; b.exchanges.remove(name); Ok(()) });
        reply().await;
        r
    }
    pub async fn queue_declare(&self, name: &str, options: QueueDeclareOptions, arguments: FieldTable) -> Result<Queue> {
        let r = step(|b, w| {
            self.open(b)?;
            let mut name = name.to_string();
            if name.is_empty() { let id = b.new_id(); name = format!("amq.gen-{id}"); }
            if let Some(q) = b.queues.get(&name) {
                if !options.passive && (q.options.durable != options.durable || q.options.exclusive != options.exclusive
                    || q.options.auto_delete != options.auto_delete || q.arguments != arguments) {
                    b.close_chan(self.inner.id, w);
                    return perr(406, "PRECONDITION_FAILED - inequivalent arg for queue");
                }
            } else {
                if options.passive { b.close_chan(self.inner.id, w); return perr(404, "NOT_FOUND - no queue"); }
                b.queues.insert(name.clone(), model::Queue { options, arguments, ready: VecDeque::new(), consumers: Vec::new(), rr: 0 });
            }
            let q = &b.queues[&name];
            Ok(Queue { name: name.as_str().into(), message_count: q.ready.len() as u32, consumer_count: q.consumers.len() as u32 })
        });
        reply().await;
        r
    }
    pub async fn queue_bind(&self, queue: &str, exchange: &str, rk: &str, _o: QueueBindOptions, _a: FieldTable) -> Result<()> {
        let r = step(|b, w| {
            self.open(b)?;
            if !b.queues.contains_key(queue) || !b.exchanges.contains_key(exchange) { b.close_chan(self.inner.id, w); return perr(404, "NOT_FOUND"); }
            let e = b.exchanges.get_mut(exchange).unwrap();
            let k = (queue.to_string(), rk.to_string());
            if !e.bindings.contains(&k) { e.bindings.push(k); }
            Ok(())
        });
        reply().await;
        r
    }
    pub async fn queue_unbind(&self, queue: &str, exchange: &str, rk: &str, _a: FieldTable) -> Result<()> {
        model::with(|b| { self.open(b)?; if let Some(e) = b.exchanges.get_mut(exchange) { e.bindings.retain(|(q, k)| q != queue || k != rk); } Ok(()) })
    }
    pub async fn queue_purge(&self, queue: &str, _o: QueuePurgeOptions) -> Result<u32> {
        model::with(|b| { self.open(b)?; Ok(b.queues.get_mut(queue).map_or(0, |q| { let n = q.ready.len(); q.ready.clear(); n as u32 })) })
    }
    pub async fn queue_delete(&self, name: &str, o: QueueDeleteOptions) -> Result<u32> {
        let r = step(|b, w| {
            self.open(b)?;
            let Some(q) = b.queues.get(name) else { return Ok(0) };
            if (o.if_unused && !q.consumers.is_empty()) || (o.if_empty && !q.ready.is_empty()) {
                b.close_chan(self.inner.id, w);
                return perr(406, "PRECONDITION_FAILED - queue in use or not empty");
            }
            let q = b.queues.remove(name).unwrap();
            for e in b.exchanges.values_mut() { e.bindings.retain(|(b, _)| b != name); }
            for c in q.consumers { if let Some(c) = b.cons.get_mut(&c) { c.cancelled = true; w.extend(c.waker.take()); } }
            Ok(q.ready.len() as u32)
        });
        reply().await;
        r
    }
    pub async fn basic_publish(&self, exchange: &str, rk: &str, _o: BasicPublishOptions, payload: &[u8], p: BasicProperties) -> Result<PublisherConfirm> {
        let r = step(|b, w| {
            self.open(b)?;
            if b.fail_publish > 0 { b.fail_publish -= 1; return perr(311, "publish failed"); }
            if let Some((k, n)) = &mut b.fail_at { if k == rk { if *n == 0 { b.fail_at = None; return perr(311, "publish failed"); } *n -= 1; } }
            match b.publish(exchange, rk, payload, p, w) {
                Ok(_) => Ok(PublisherConfirm(Some(Ok(Confirmation::NotRequested)))),
                // the broker closes the channel asynchronously
                Err(_) => { b.close_chan(self.inner.id, w); Ok(PublisherConfirm(Some(Ok(Confirmation::NotRequested)))) }
            }
        });
        reply().await;
        r
    }
    pub async fn basic_consume(&self, queue: &str, tag: &str, o: BasicConsumeOptions, _a: FieldTable) -> Result<Consumer> {
        let r = step(|b, w| {
            self.open(b)?;
            if b.fail_consume { return perr(404, "consume failed"); }
            if !b.queues.contains_key(queue) { b.close_chan(self.inner.id, w); return perr(404, "NOT_FOUND - no queue"); }
            let mut tag = tag.to_string();
            if tag.is_empty() { let id = b.new_id(); tag = format!("ctag-{id}"); }
            if b.cons.values().any(|c| c.channel == self.inner.id && c.tag == tag && !c.cancelled) {
                b.close_chan(self.inner.id, w);
                return perr(530, "NOT_ALLOWED - attempt to reuse consumer tag");
            }
            if o.exclusive && !b.queues[queue].consumers.is_empty() { b.close_chan(self.inner.id, w); return perr(403, "ACCESS_REFUSED - queue in exclusive use"); }
            b.next_cons += 1;
            let id = b.next_cons;
            let prefetch = b.chans[&self.inner.id].prefetch;
            b.cons.insert(id, model::Cons { queue: queue.into(), channel: self.inner.id, tag: tag.clone(), no_ack: o.no_ack, prefetch, unacked: 0,
                buf: VecDeque::new(), waker: None, cancelled: false });
            b.queues.get_mut(queue).unwrap().consumers.push(id);
            b.dispatch(queue, w);
            Ok(Consumer { inner: Arc::new(ConsInner { id }), queue: queue.into(), tag: tag.as_str().into() })
        });
        reply().await;
        r
    }
    pub async fn basic_cancel(&self, tag: &str, _o: BasicCancelOptions) -> Result<()> {
        step(|b, w| {
            self.open(b)?;
            let id = b.cons.iter().find(|(_, c)| c.channel == self.inner.id && c.tag == tag && !c.cancelled).map(|(i, _)| *i);
            if let Some(id) = id { b.cancel(id, w); }
            Ok(())
        })
    }
    pub async fn basic_ack(&self, t: u64, o: BasicAckOptions) -> Result<()> { step(|b, w| b.settle(self.inner.id, t, o.multiple, Disp::Ack, w)) }
    pub async fn basic_nack(&self, t: u64, o: BasicNackOptions) -> Result<()> { step(|b, w| b.settle(self.inner.id, t, o.multiple, Disp::Nack { requeue: o.requeue }, w)) }
    pub async fn basic_reject(&self, t: u64, o: BasicRejectOptions) -> Result<()> { step(|b, w| b.settle(self.inner.id, t, false, Disp::Nack { requeue: o.requeue }, w)) }
}

struct ConsInner { id: u64 }
impl Drop for ConsInner {
    fn drop(&mut self) {
        let old = step(|b, w| { b.cancel(self.id, w); b.cons.remove(&self.id) });
        drop(old);
    }
}
#[derive(Clone)]
pub struct Consumer { inner: Arc<ConsInner>, queue: ShortString, tag: ShortString }
impl fmt::Debug for Consumer { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Consumer") } }
impl Consumer { pub fn tag(&self) -> ShortString { self.tag.clone() } pub fn queue(&self) -> ShortString { self.queue.clone() } }
impl futures_core::Stream for Consumer {
    type Item = Result<message::Delivery>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let id = self.inner.id;
        model::with(|b| {
            let Some(c) = b.cons.get_mut(&id) else { return Poll::Ready(None) };
            match c.buf.pop_front() {
                Some(d) => Poll::Ready(Some(d)),
                None if c.cancelled => Poll::Ready(None),
                None => { c.waker = Some(cx.waker().clone()); Poll::Pending }
            }
        })
    }
}

pub mod acker {
    use super::*;
    #[derive(Clone, Debug)]
    pub struct Acker { pub(super) channel: u16, pub(super) tag: u64, pub(super) used: Arc<AtomicBool> }
    impl Acker {
        fn claim(&self) -> Result<()> {
            if self.used.swap(true, Ordering::SeqCst) { return perr(406, "Attempted to use an already used Acker"); }
            Ok(())
        }
        pub async fn ack(&self, o: BasicAckOptions) -> Result<()> { self.claim()?; step(|b, w| b.settle(self.channel, self.tag, o.multiple, Disp::Ack, w)) }
        pub async fn nack(&self, o: BasicNackOptions) -> Result<()> { self.claim()?; step(|b, w| b.settle(self.channel, self.tag, o.multiple, Disp::Nack { requeue: o.requeue }, w)) }
        pub async fn reject(&self, o: BasicRejectOptions) -> Result<()> { self.claim()?; step(|b, w| b.settle(self.channel, self.tag, false, Disp::Nack { requeue: o.requeue }, w)) }
        pub fn used(&self) -> bool { self.used.load(Ordering::SeqCst) }
    }
    impl PartialEq for Acker { fn eq(&self, o: &Acker) -> bool { self.channel == o.channel && self.tag == o.tag } }
}
pub mod message {
    use super::*;
    pub type DeliveryResult = Result<Option<Delivery>>;
    #[derive(Debug, PartialEq)]
    pub struct Delivery {
        pub delivery_tag: DeliveryTag, pub exchange: ShortString, pub routing_key: ShortString, pub redelivered: bool,
        pub properties: BasicProperties, pub data: Vec<u8>, pub acker: acker::Acker,
    }
    impl Deref for Delivery { type Target = acker::Acker; fn deref(&self) -> &acker::Acker { &self.acker } }
    impl DerefMut for Delivery { fn deref_mut(&mut self) -> &mut acker::Acker { &mut self.acker } }
}
use message::Delivery;
pub mod queue { pub use super::Queue; }
