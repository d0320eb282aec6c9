@@ module root
@@ top
/// Stand-ins for tokio, std::sync, std::time and rand, with the contracts assumed about them.
///
/// A task of socket.rs or server.rs is verified alone.  What other tasks may do in between is part of the contracts:
/// a lock hands out *any* value its owners leave behind (trait Shared), a semaphore may have been closed by anyone,
/// a channel delivers anything or ends, an atomic holds any value.  So a contract proved here holds for every schedule
/// at the locks, channels, sockets and atomics.  Each object logs what this task did to it.
pub mod net {
use vstd::prelude::*;
use super::shim::*;
use std::net::SocketAddr;

/// how one round of a task ends
/// (Return: the whole task ends, what follows its loop does not run)
pub enum Flow { Continue, Break, Return }
/// which branch of a select is ready, whether a timeout strikes
#[verifier::external_body]
pub fn vx_choice() -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_drop<T>(x: T) { unimplemented!() }

#[allow(inconsistent_fields)]
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
pub struct AtomicBool { pub stored: Ghost<Seq<bool>>, pub may_be_set: Ghost<bool> }
impl Clone for AtomicBool {
    /// (Arc) another handle
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl AtomicBool {
    #[verifier::external_body]
    pub fn new(v: bool) -> (r: Self) ensures r.stored@.len() == 0, !v ==> !r.may_be_set@ { unimplemented!() }
    /// true only where something stored true
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> (r: bool) ensures r ==> self.may_be_set@ { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&mut self, v: bool, o: Ordering) ensures final(self).stored@ == old(self).stored@.push(v) { unimplemented!() }
}
pub struct AtomicU8 { pub stored: Ghost<Seq<u8>> }
impl Clone for AtomicU8 {
    /// (Arc) another handle
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl AtomicU8 {
    #[verifier::external_body]
    pub fn new(v: u8) -> (r: Self) ensures r.stored@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> (r: u8) { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&mut self, v: u8, o: Ordering) ensures final(self).stored@ == old(self).stored@.push(v) { unimplemented!() }
}
/// a clock value shared between tasks
pub struct AtomicI64 { pub stored: Ghost<Seq<i64>>, pub loaded: Ghost<Seq<i64>> }
impl Clone for AtomicI64 {
    /// (Arc) another handle
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl AtomicI64 {
    #[verifier::external_body]
    pub fn new(v: i64) -> (r: Self) ensures r.stored@.len() == 0, r.loaded@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&mut self, o: Ordering) -> (r: i64)
        ensures 0 <= r, final(self).loaded@ == old(self).loaded@.push(r), final(self).stored == old(self).stored
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&mut self, v: i64, o: Ordering)
        ensures final(self).stored@ == old(self).stored@.push(v), final(self).loaded == old(self).loaded
    { unimplemented!() }
}
/// a semaphore without permits: only its being closed matters.  closed: seen closed by this task (any task may close it, nobody opens it again);
/// shut: how often this task closed it
pub struct Semaphore { pub closed: Ghost<bool>, pub shut: Ghost<nat> }
impl Clone for Semaphore {
    /// (Arc) another handle
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Semaphore {
    #[verifier::external_body]
    pub fn new(n: usize) -> (r: Self) requires n == 0 ensures !r.closed@, r.shut@ == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_closed(&mut self) -> (r: bool)
        ensures r == final(self).closed@, old(self).closed@ ==> final(self).closed@, final(self).shut == old(self).shut
    { unimplemented!() }
    #[verifier::external_body]
    pub fn close(&mut self) ensures final(self).closed@, final(self).shut@ == old(self).shut@ + 1 { unimplemented!() }
    /// no permit is ever added: it ends only when the semaphore is closed
    #[verifier::external_body]
    pub async fn acquire(&mut self) -> (r: ()) ensures final(self).closed@, final(self).shut == old(self).shut { unimplemented!() }
}
pub struct Notify { pub notified: Ghost<nat>, pub waited: Ghost<nat> }
impl Clone for Notify {
    /// (Arc) another handle
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Notify {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.notified@ == 0, r.waited@ == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn notify_one(&mut self) ensures final(self).notified@ == old(self).notified@ + 1, final(self).waited == old(self).waited { unimplemented!() }
    /// wakes only who waits right now: nothing is kept for who comes later
    #[verifier::external_body]
    pub fn notify_waiters(&mut self) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub async fn notified(&mut self) -> (r: ()) ensures final(self).waited@ == old(self).waited@ + 1, final(self).notified == old(self).notified { unimplemented!() }
}
pub struct SendError;
#[verifier::reject_recursive_types(T)]
/// looks: what was found when asking for room
pub struct Sender<T> { pub id: Ghost<int>, pub sent: Ghost<Seq<(T, bool)>>, pub looks: Ghost<Seq<usize>> }
#[verifier::reject_recursive_types(T)]
pub struct Receiver<T> { pub id: Ghost<int>, pub got: Ghost<Seq<T>>, pub ended: Ghost<bool>, pub closed: Ghost<bool> }
impl<T> Clone for Sender<T> {
    /// another handle to the same channel
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<T> Sender<T> {
    /// handed to the channel, or refused because nobody receives any more
    #[verifier::external_body]
    pub async fn send(&mut self, v: T) -> (r: std::result::Result<(), SendError>)
        ensures final(self).id == old(self).id, final(self).looks == old(self).looks, final(self).sent@ == old(self).sent@.push((v, r is Ok))
    { unimplemented!() }
}
impl<T> Sender<T> {
    /// refused also when the channel is full: then nobody was asked
    #[verifier::external_body]
    pub fn try_send(&mut self, v: T) -> (r: std::result::Result<(), SendError>)
        ensures final(self).id == old(self).id, final(self).looks == old(self).looks, final(self).sent@ == old(self).sent@.push((v, r is Ok)) || (r is Err && final(self).sent == old(self).sent)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_closed(&self) -> (r: bool) { unimplemented!() }
    /// how many more fit now (receivers make room, other senders take it)
    #[verifier::external_body]
    pub fn capacity(&mut self) -> (r: usize)
        ensures *final(self) == (Sender { looks: final(self).looks, ..*old(self) }), final(self).looks@ == old(self).looks@.push(r)
    { unimplemented!() }
}
impl<T> Receiver<T> {
    /// senders are refused from now on; what was sent before can still be received
    #[verifier::external_body]
    pub fn close(&mut self)
        ensures *final(self) == (Receiver { closed: Ghost(true), ..*old(self) })
    { unimplemented!() }
    /// none: the channel is empty now, or has ended
    #[verifier::external_body]
    pub fn try_recv(&mut self) -> (r: std::result::Result<T, SendError>)
        ensures final(self).id == old(self).id, final(self).ended == old(self).ended, final(self).closed == old(self).closed,
            match r { Ok(v) => final(self).got@ == old(self).got@.push(v), Err(_) => final(self).got == old(self).got }
    { unimplemented!() }
    #[verifier::external_body]
    pub async fn recv(&mut self) -> (r: Option<T>)
        ensures final(self).id == old(self).id, final(self).closed == old(self).closed,
            match r { Some(v) => final(self).got@ == old(self).got@.push(v) && final(self).ended == old(self).ended, None => final(self).got == old(self).got && final(self).ended@ }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn channel<T>(n: usize) -> (r: (Sender<T>, Receiver<T>))
    requires n > 0,
    ensures r.0.id == r.1.id, r.0.sent@.len() == 0, r.1.got@.len() == 0, !r.1.ended@, !r.1.closed@,
{ unimplemented!() }

pub type IoResult<T> = std::result::Result<T, IoError>;
pub trait ToAddr: Sized { spec fn target(self) -> SocketAddr; }
impl ToAddr for SocketAddr { open spec fn target(self) -> SocketAddr { self } }
impl ToAddr for &SocketAddr { open spec fn target(self) -> SocketAddr { *self } }
impl ToAddr for &mut SocketAddr { open spec fn target(self) -> SocketAddr { *self } }
/// a datagram socket: what was sent where, what was received from where
pub struct UdpSocket { pub sent: Ghost<Seq<(Seq<u8>, SocketAddr)>>, pub got: Ghost<Seq<(Seq<u8>, SocketAddr)>>, pub addr: Ghost<SocketAddr> }
impl Clone for UdpSocket {
    /// (Arc) another handle
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl UdpSocket {
    #[verifier::external_body]
    pub async fn send_to<A: ToAddr>(&mut self, buf: &[u8], a: A) -> (r: IoResult<usize>)
        ensures final(self).sent@ == old(self).sent@.push((buf@, a.target())), final(self).got == old(self).got, final(self).addr == old(self).addr
    { unimplemented!() }
    /// a datagram (cut to the buffer) or an error; what lay in the buffer behind it stays
    #[verifier::external_body]
    pub async fn recv_from<const N: usize>(&mut self, buf: &mut [u8; N]) -> (r: IoResult<(usize, SocketAddr)>)
        ensures final(self).sent == old(self).sent, final(self).addr == old(self).addr,
            match r {
                Ok(p) => p.0 <= N && final(self).got@ == old(self).got@.push((final(buf)@.take(p.0 as int), p.1)) && final(buf)@.skip(p.0 as int) == old(buf)@.skip(p.0 as int),
                Err(_) => final(self).got == old(self).got,
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn local_addr(&self) -> (r: IoResult<SocketAddr>) ensures r is Ok, r->Ok_0 == self.addr@ { unimplemented!() }
    #[verifier::external_body]
    pub async fn bind<A>(a: A) -> (r: IoResult<UdpSocket>) ensures r is Ok ==> r->Ok_0.sent@.len() == 0 && r->Ok_0.got@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_std(a: StdUdpSocket) -> (r: IoResult<UdpSocket>) ensures r is Ok ==> r->Ok_0.sent@.len() == 0 && r->Ok_0.got@.len() == 0 { unimplemented!() }
}
pub struct StdUdpSocket;
impl StdUdpSocket {
    /// assumed not to fail on a socket the caller holds
    #[verifier::external_body]
    pub fn set_nonblocking(&self, b: bool) -> (r: IoResult<()>) ensures r is Ok { unimplemented!() }
}
/// what every owner of a lock leaves behind
pub trait Shared: Sized { spec fn inv(&self) -> bool; }
/// past: the sections of this task, each with the value found and the value left; v: what it was made with
pub struct Mutex<T> { pub v: T, pub past: Ghost<Seq<(T, T)>> }
impl<T> Clone for Mutex<T> {
    /// (Arc<Mutex<T>>) another handle
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<T: Shared> Mutex<T> {
    #[verifier::external_body]
    pub async fn lock(&mut self) -> (r: &mut T)
        ensures r.inv(), final(self).v == old(self).v, final(self).past@ == old(self).past@.push((*r, *final(r)))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new(v: T) -> (r: Self) ensures r.past@.len() == 0, r.v == v { unimplemented!() }
}
pub struct RwLock<T> { pub v: T, pub past: Ghost<Seq<(T, T)>> }
impl<T> Clone for RwLock<T> {
    /// (Arc<RwLock<T>>) another handle
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<T: Shared> RwLock<T> {
    #[verifier::external_body]
    pub async fn write(&mut self) -> (r: &mut T)
        ensures r.inv(), final(self).v == old(self).v, final(self).past@ == old(self).past@.push((*r, *final(r)))
    { unimplemented!() }
    #[verifier::external_body]
    pub async fn read(&mut self) -> (r: &T)
        ensures r.inv(), final(self).v == old(self).v, final(self).past@ == old(self).past@.push((*r, *r))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new(v: T) -> (r: Self) ensures r.past@.len() == 0, r.v == v { unimplemented!() }
}
/// a blocking lock; nobody panics while holding it (assumed: it is never poisoned)
#[derive(Debug)]
pub struct Poison;
pub struct StdRwLock<T> { pub v: T, pub past: Ghost<Seq<(T, T)>> }
impl<T> Clone for StdRwLock<T> {
    /// (Arc<std::sync::RwLock<T>>) another handle
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<T: Shared> StdRwLock<T> {
    #[verifier::external_body]
    pub fn write(&mut self) -> (r: std::result::Result<&mut T, Poison>)
        ensures r is Ok, r->Ok_0.inv(), final(self).v == old(self).v, final(self).past@ == old(self).past@.push((*r->Ok_0, *final(r->Ok_0)))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&mut self) -> (r: std::result::Result<&T, Poison>)
        ensures r is Ok, r->Ok_0.inv(), final(self).v == old(self).v, final(self).past@ == old(self).past@.push((*r->Ok_0, *r->Ok_0))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new(v: T) -> (r: Self) ensures r.past@.len() == 0, r.v == v { unimplemented!() }
}
impl Shared for String { open spec fn inv(&self) -> bool { true } }
impl<T> Shared for Sender<T> { open spec fn inv(&self) -> bool { true } }
impl<T> Shared for Receiver<T> { open spec fn inv(&self) -> bool { true } }
impl<K, V> Shared for std::collections::HashMap<K, V> { open spec fn inv(&self) -> bool { true } }
/// SocketAddr and String hash and compare as values
pub broadcast axiom fn addr_key()
    ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<SocketAddr>();
pub broadcast axiom fn string_key()
    ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<String>();
pub broadcast group group_keys { addr_key, string_key }
#[verifier::external_body]
pub fn hm_index_mut<'a, K, V>(m: &'a mut std::collections::HashMap<K, V>, k: &K) -> (r: &'a mut V)
    requires old(m)@.contains_key(*k),
    ensures *r == old(m)@[*k], final(m)@ == old(m)@.insert(*k, *final(r)),
{ unimplemented!() }
/// the text of an address
pub uninterp spec fn addr_text(a: SocketAddr) -> String;
pub trait TextExt { fn to_string_(&self) -> String; }
impl TextExt for SocketAddr {
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) ensures r == addr_text(*self) { unimplemented!() }
}
pub trait ContainsExt { fn contains_(&self, x: &u8) -> bool; }
impl ContainsExt for [u8] {
    fn contains_(&self, x: &u8) -> (r: bool)
        ensures r == self@.contains(*x)
    {
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self.len(), forall|j: int| 0 <= j < i ==> self@[j] != *x,
            decreases self.len() - i,
        {
            if self[i] == *x { assert(self@[i as int] == *x); return true; }
            i += 1;
        }
        false
    }
}
#[verifier::external_body]
pub fn vx_format() -> String { unimplemented!() }
/// how many handles are left: any number; only a count of one says that no other handle was left
pub uninterp spec fn alone<T>(x: T) -> bool;
#[verifier::external_body]
pub fn strong_count<T>(x: &T) -> (r: usize)
    ensures r >= 1, r == 1 ==> alone(*x)
{ unimplemented!() }

pub struct Duration;
impl Duration {
    #[verifier::external_body]
    pub fn from_millis(n: u64) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn from_secs(n: u64) -> Self { unimplemented!() }
}
#[verifier::external_body]
pub async fn sleep(d: Duration) { unimplemented!() }
pub struct Elapsed;
pub struct ThreadRng;
#[verifier::external_body]
pub fn thread_rng() -> ThreadRng { unimplemented!() }
impl ThreadRng {
    #[verifier::external_body]
    pub fn gen_range<T>(&mut self, r: std::ops::Range<T>) -> T { unimplemented!() }
}
#[verifier::external_body]
pub fn random<T>() -> T { unimplemented!() }
}
@@ module socket drop-use=std::sync drop-use=tokio drop-use=rand drop-use=std::time drop-use=crate::raknet_log_error drop-use=crate::raknet_log_info drop-use=crate::raknet_log_debug drop-use=std::net
@@ top
use super::shim::*;
use super::wire::*;
use super::net::*;
use std::net::SocketAddr;

impl Shared for SendQ {
    /// well formed, and far from the end of the 24-bit number space (scope: fewer than 9 million datagrams and messages so far)
    open spec fn inv(&self) -> bool {
        self.wf() && self.sequence_number + count_true(self.sent_packet@) + self.packets@.len() + 0x700000 <= 0x1000000
            && self.reliable_frame_index + 0x700000 <= 0x1000000 && self.sequenced_frame_index + 0x700000 <= 0x1000000 && self.ordered_frame_index + 0x700000 <= 0x1000000
    }
}
impl Shared for RecvQ {
    /// nothing is left lying between two datagrams
    open spec fn inv(&self) -> bool { self.wf() && self.packets@ == Map::<u32, FrameSetPacket>::empty() && self.sequence_number_ackset.ack@.len() == 0 }
}
// ---- sending a datagram
/// d went to peer once, or (loss simulation switched on) not at all
pub open spec fn sent_once(a: UdpSocket, b: UdpSocket, d: Seq<u8>, peer: SocketAddr, lossy: bool) -> bool {
    &&& b.got == a.got && b.addr == a.addr
    &&& b.sent@ == a.sent@.push((d, peer)) || (lossy && b.sent@ == a.sent@)
}
@@ fn RaknetSocket::sendto
    ensures r is Ok, sent_once(*old(s), *final(s), buf@, *target, enable_loss),
@@ top
// ---- what a message that comes out of the receive queue does
/// sections on the send queue, messages handed to the user, notifications so far
pub struct Effects { pub q: Seq<(SendQ, SendQ)>, pub u: Seq<(Vec<u8>, bool)>, pub n: nat }
pub open spec fn effects(q: RwLock<SendQ>, u: Sender<Vec<u8>>, n: Notify) -> Effects { Effects { q: q.past@, u: u.sent@, n: n.notified@ } }
pub open spec fn one_more<T>(a: Seq<T>, b: Seq<T>) -> bool { b == a.push(b.last()) }
/// the reply to a connection request: the requester's address, its time echoed
pub open spec fn accept_reply(d: Seq<u8>, peer: SocketAddr, b: Seq<u8>) -> bool {
    exists|p: ConnectionRequestAccepted, q: ConnectionRequest| #![auto] b == enc_ConnectionRequestAccepted(p) && at_ConnectionRequest(d, q)
        && p.client_address == peer && p.request_timestamp == q.time && p.system_index == 0
}
/// the reply to an accepted connection request
pub open spec fn incoming_reply(d: Seq<u8>, local: SocketAddr, b: Seq<u8>) -> bool {
    exists|p: NewIncomingConnection, q: ConnectionRequestAccepted| #![auto] b == enc_NewIncomingConnection(p) && at_ConnectionRequestAccepted(d, q)
        && p.server_address == local && p.request_timestamp == q.request_timestamp
}
pub open spec fn pong_reply(d: Seq<u8>, b: Seq<u8>) -> bool {
    exists|p: ConnectedPong, q: ConnectedPing| #![auto] b == enc_ConnectedPong(p) && at_ConnectedPing(d, q) && p.client_timestamp == q.client_timestamp
}
pub open spec fn ping_msg(b: Seq<u8>) -> bool { exists|p: ConnectedPing| #![auto] b == enc_ConnectedPing(p) }
/// one message m of kind rel joined the send queue
pub open spec fn queued(s: (SendQ, SendQ), rel: Reliability, m: Seq<u8>) -> bool { s.0.inv() && s.1.wf() && queue_step(s.0, s.1, rel, m) }
pub open spec fn accepts(d: Seq<u8>, peer: SocketAddr, s: (SendQ, SendQ)) -> bool { exists|m: Seq<u8>| #![auto] accept_reply(d, peer, m) && queued(s, Reliability::ReliableOrdered, m) }
pub open spec fn pongs(d: Seq<u8>, s: (SendQ, SendQ)) -> bool { exists|m: Seq<u8>| #![auto] pong_reply(d, m) && queued(s, Reliability::Unreliable, m) }
pub open spec fn joins_by(d: Seq<u8>, local: SocketAddr, s: (SendQ, SendQ), m: Seq<u8>, c: SendQ, p: Seq<u8>) -> bool {
    incoming_reply(d, local, m) && queue_step(s.0, c, Reliability::ReliableOrdered, m) && ping_msg(p) && queue_step(c, s.1, Reliability::Unreliable, p)
}
/// new-incoming-connection, then a ping
pub open spec fn joins(d: Seq<u8>, local: SocketAddr, s: (SendQ, SendQ)) -> bool {
    s.0.inv() && s.1.wf() && exists|m: Seq<u8>, c: SendQ, p: Seq<u8>| #[trigger] joins_by(d, local, s, m, c, p)
}
/// d: a message out of the receive queue; r: what handle answers; a, b: effects before and after
pub open spec fn handled(d: Seq<u8>, peer: SocketAddr, local: SocketAddr, r: Result<bool>, a: Effects, b: Effects) -> bool {
    if d.len() == 0 || !pid_known(d[0]) { r is Err && b == a }
    else if d[0] == 0x09 {
        if fits_ConnectionRequest(d) { r == Result::<bool>::Ok(true) && one_more(a.q, b.q) && accepts(d, peer, b.q.last()) && b.u == a.u && b.n == a.n } else { r is Err && b == a }
    } else if d[0] == 0x10 {
        if fits_ConnectionRequestAccepted(d) { r == Result::<bool>::Ok(true) && one_more(a.q, b.q) && joins(d, local, b.q.last()) && b.u == a.u && b.n == a.n + 1 } else { r is Err && b == a }
    } else if d[0] == 0x13 {
        b == a && r == (if fits_NewIncomingConnection(d) { Result::<bool>::Ok(true) } else { r }) && (!fits_NewIncomingConnection(d) ==> r is Err)
    } else if d[0] == 0x00 {
        if fits_ConnectedPing(d) { r == Result::<bool>::Ok(true) && one_more(a.q, b.q) && pongs(d, b.q.last()) && b.u == a.u && b.n == a.n } else { r is Err && b == a }
    } else if d[0] == 0x03 { r == Result::<bool>::Ok(true) && b == a }
    else if d[0] == 0x15 { r == Result::<bool>::Ok(false) && b == a }
    else {
        // anything else goes to the user, byte for byte
        &&& b.q == a.q && b.n == a.n && one_more(a.u, b.u) && b.u.last().0@ == d
        &&& r == Result::<bool>::Ok(b.u.last().1)
    }
}
pub proof fn rep_len(a: SocketAddr, n: nat)
    requires enc_addr(a).len() == 7,
    ensures rep_addr(a, n).len() == 7 * n,
    decreases n,
{ if n > 0 { rep_len(a, (n - 1) as nat); } }
pub proof fn addr_short(a: SocketAddr)
    ensures enc_addr(a).len() <= 29,
{ broadcast use group_addr; }
pub proof fn accept_short(p: ConnectionRequestAccepted)
    ensures enc_ConnectionRequestAccepted(p).len() <= 118,
{ fillers(); rep_len(any_addr(), 10); addr_short(p.client_address); }
pub proof fn incoming_short(p: NewIncomingConnection)
    ensures enc_NewIncomingConnection(p).len() <= 116,
{ fillers(); rep_len(zero_addr(), 10); addr_short(p.server_address); }
/// far from the end of the number space, a message of n bytes finds room
pub proof fn room_for(q: SendQ, n: int)
    requires q.wf(), 0 <= n < 0x600000, q.reliable_frame_index + 0x600002 < 0x1000000,
    ensures q.reliable_frame_index + n / (q.mtu - 60) + 1 < 0x1000000, 0 <= n / (q.mtu - 60) <= n,
{ assert(0 <= n / (q.mtu - 60) <= n) by (nonlinear_arith) requires n >= 0, q.mtu - 60 >= 1; }
/// room_for with the length of buf and the queue found, for use before insert
pub proof fn room_any(n: int)
    requires 0 <= n < 0x600000,
    ensures forall|q: SendQ| #[trigger] q.inv() ==> q.reliable_frame_index + n / (q.mtu - 60) + 1 < 0x1000000,
{ assert forall|q: SendQ| #[trigger] q.inv() implies q.reliable_frame_index + n / (q.mtu - 60) + 1 < 0x1000000 by { room_for(q, n); } }
@@ fn RaknetSocket::handle attr=#[verifier::rlimit(40)]
    ensures handled(frame.data@, *peer_addr, *local_addr, r, effects(*old(sendq), *old(user_data_sender), *old(incomming_notify)), effects(*final(sendq), *final(user_data_sender), *final(incomming_notify))),
@@@ after `let buf = write_packet_connection_request_accepted`
    proof { accept_short(packet_reply); room_any(buf@.len() as int); }
@@@ after `.insert(Reliability::ReliableOrdered`#0
    proof { assert(accept_reply(frame.data@, *peer_addr, buf@)); assert(queued(sendq.past@.last(), Reliability::ReliableOrdered, buf@)); }
@@@ after `.insert(Reliability::Unreliable`#1
    proof { assert(pong_reply(frame.data@, buf@)); assert(queued(sendq.past@.last(), Reliability::Unreliable, buf@)); }
@@@ after `let buf = write_packet_new_incomming_connection`
    let ghost m1 = buf@;
    let ghost q0 = *sendq;
    proof { incoming_short(packet_reply); room_for(*sendq, buf@.len() as int); }
@@@ after `let buf = write_packet_connected_ping`
    let ghost q1 = *sendq;
    proof { room_for(*sendq, buf@.len() as int); }
@@@ before `incomming_notify.notify_one`
    proof {
        assert(incoming_reply(frame.data@, *local_addr, m1));
        assert(ping_msg(buf@));
        assert(joins_by(frame.data@, *local_addr, (q0, *sendq), m1, q1, buf@));
        assert(joins(frame.data@, *local_addr, (q0, *sendq)));
    }
@@@ after `let buf = write_packet_connected_pong`
    proof { room_any(buf@.len() as int); }
@@@ inside `Ok(_) => {`
    proof { assert(user_data_sender.sent@.last().0@ =~= frame.data@); }
@@@ inside `Err(_) => {`
    proof { assert(user_data_sender.sent@.last().0@ =~= frame.data@); }
@@ top
// ---- the receiver task, one round
/// these messages were dealt with one after the other; h: effects before, between and after
pub open spec fn handled_all(outs: Seq<FrameSetPacket>, h: Seq<Effects>, peer: SocketAddr, local: SocketAddr) -> bool {
    h.len() == outs.len() + 1 && forall|i: int| 0 <= i < outs.len() ==> dealt(#[trigger] outs[i], peer, local, h[i], h[i + 1])
}
pub open spec fn dealt(f: FrameSetPacket, peer: SocketAddr, local: SocketAddr, a: Effects, b: Effects) -> bool { exists|r: Result<bool>| #[trigger] handled(f.data@, peer, local, r, a, b) }
/// a message that ends the session: a disconnect, or one the user no longer takes
pub open spec fn refused(f: FrameSetPacket, b: Effects) -> bool {
    let d = f.data@;
    d.len() > 0 && pid_known(d[0]) && (d[0] == 0x15 || (for_user(d[0]) && !b.u.last().1))
}
pub open spec fn for_user(id: u8) -> bool { id != 0x09 && id != 0x10 && id != 0x13 && id != 0x00 && id != 0x03 && id != 0x15 }
pub open spec fn any_refused(outs: Seq<FrameSetPacket>, h: Seq<Effects>) -> bool { exists|i: int| 0 <= i < outs.len() && i + 1 < h.len() && refused(#[trigger] outs[i], h[i + 1]) }
pub proof fn any_refused_step(outs: Seq<FrameSetPacket>, h: Seq<Effects>, f: FrameSetPacket, b: Effects)
    requires h.len() == outs.len() + 1,
    ensures any_refused(outs.push(f), h.push(b)) <==> any_refused(outs, h) || refused(f, b),
{
    let o2 = outs.push(f); let h2 = h.push(b);
    if any_refused(outs, h) { let i = choose|i: int| 0 <= i < outs.len() && i + 1 < h.len() && refused(#[trigger] outs[i], h[i + 1]); assert(refused(o2[i], h2[i + 1])); }
    if refused(f, b) { assert(refused(o2[outs.len() as int], h2[outs.len() as int + 1])); }
    if any_refused(o2, h2) { let i = choose|i: int| 0 <= i < o2.len() && i + 1 < h2.len() && refused(#[trigger] o2[i], h2[i + 1]); if i < outs.len() { assert(refused(outs[i], h[i + 1])); } }
}
pub proof fn handled_all_step(outs: Seq<FrameSetPacket>, h: Seq<Effects>, f: FrameSetPacket, b: Effects, peer: SocketAddr, local: SocketAddr)
    requires handled_all(outs, h, peer, local), dealt(f, peer, local, h.last(), b),
    ensures handled_all(outs.push(f), h.push(b), peer, local), h.push(b)[0] == h[0],
{
    let o2 = outs.push(f); let h2 = h.push(b);
    assert forall|i: int| 0 <= i < o2.len() implies dealt(#[trigger] o2[i], peer, local, h2[i], h2[i + 1]) by {
        if i < outs.len() { assert(outs[i] == o2[i]); assert(dealt(outs[i], peer, local, h[i], h[i + 1])); }
    }
}
pub proof fn frames_in_step(fs: Seq<FrameSetPacket>, q: Seq<RecvQ>, m: Seq<RecvQ>, os: Seq<Seq<FrameSetPacket>>, f: FrameSetPacket, mm: RecvQ, qq: RecvQ, o: Seq<FrameSetPacket>)
    requires frames_in(fs, q, m, os), insert_step(q.last(), mm, f), flush_step(mm, qq, o),
    ensures frames_in(fs.push(f), q.push(qq), m.push(mm), os.push(o)), flat(os.push(o)) == flat(os) + o, q.push(qq)[0] == q[0],
{
    hide(insert_step); hide(flush_step);
    let f2 = fs.push(f); let q2 = q.push(qq); let m2 = m.push(mm); let o2 = os.push(o);
    assert forall|i: int| 0 <= i < f2.len() implies insert_step(q2[i], m2[i], #[trigger] f2[i]) && flush_step(m2[i], q2[i + 1], o2[i]) by {
        if i < fs.len() { assert(fs[i] == f2[i]); assert(insert_step(q[i], m[i], fs[i]) && flush_step(m[i], q[i + 1], os[i])); assert(q2[i] == q[i] && q2[i + 1] == q[i + 1] && m2[i] == m[i] && o2[i] == os[i]); }
        else { assert(q2[i] == q.last() && q2[i + 1] == qq && m2[i] == mm && o2[i] == o && f2[i] == f); }
    }
    assert(o2.drop_last() =~= os);
}
/// all that came out so far, z, is y and what came out from a to b
pub open spec fn out_of(a: RecvQ, b: RecvQ, y: Seq<FrameSetPacket>, z: Seq<FrameSetPacket>) -> bool { exists|o: Seq<FrameSetPacket>| #[trigger] flush_step(a, b, o) && z == y + o.take(o.len() as int) }
/// a frame of a well-formed datagram: known reliability, 24-bit numbers, the number of the datagram
pub proof fn frame_of(d: Seq<u8>, v: FrameVec, i: int)
    requires datagram_ok(d), datagram_is(d, v), 0 <= i < v.frames@.len(),
    ensures frame24(v.frames@[i]), rel_code(v.frames@[i].flags) <= 4, v.frames@[i].sequence_number == v.sequence_number,
{
    chain_ends(d, 4, i);
    assert(frame_at(d, chain(d, 4)->Some_0[i], v.frames@[i]));
    le24_inj(v.frames@[i].sequence_number, v.sequence_number);
}
pub proof fn chain_ends(d: Seq<u8>, off: int, i: int)
    requires 0 <= off, chain(d, off) is Some, 0 <= i < chain(d, off)->Some_0.len(),
    ensures frame_end(d, chain(d, off)->Some_0[i]) is Some,
    decreases d.len() - off,
{
    if i > 0 { let e = frame_end(d, off)->Some_0; assert(chain(d, off)->Some_0 =~= seq![off] + chain(d, e)->Some_0); chain_ends(d, e, i - 1); }
}
pub proof fn refused_iff(f: FrameSetPacket, peer: SocketAddr, local: SocketAddr, r: Result<bool>, a: Effects, b: Effects)
    requires handled(f.data@, peer, local, r, a, b),
    ensures refused(f, b) <==> r == Result::<bool>::Ok(false), dealt(f, peer, local, a, b),
{}
/// frames fs joined receive queue q[0] one after the other; after each one everything that became due came out
pub open spec fn frames_in(fs: Seq<FrameSetPacket>, q: Seq<RecvQ>, m: Seq<RecvQ>, os: Seq<Seq<FrameSetPacket>>) -> bool {
    q.len() == fs.len() + 1 && m.len() == fs.len() && os.len() == fs.len()
        && forall|i: int| 0 <= i < fs.len() ==> insert_step(q[i], m[i], #[trigger] fs[i]) && flush_step(m[i], q[i + 1], os[i])
}
pub open spec fn flat(os: Seq<Seq<FrameSetPacket>>) -> Seq<FrameSetPacket>
    decreases os.len(),
{ if os.len() == 0 { Seq::empty() } else { flat(os.drop_last()) + os.last() } }
pub open spec fn acked_some(a: SendQ, b: SendQ, n: u32) -> bool { exists|t: i64| 0 <= t && #[trigger] acked_step(a, b, n, t) }
pub open spec fn nacked_some(a: SendQ, b: SendQ, n: u32) -> bool { exists|t: i64| 0 <= t && #[trigger] nack_step(a.sent_packet@, b.sent_packet@, a.sequence_number, n, t) && a.keeps(b) }
/// the numbers ns are reported one after the other
pub open spec fn acks_in(st: Seq<SendQ>, ns: Seq<u32>) -> bool { st.len() == ns.len() + 1 && forall|i: int| 0 <= i < ns.len() ==> acked_some(st[i], st[i + 1], #[trigger] ns[i]) }
pub open spec fn nacks_in(st: Seq<SendQ>, ns: Seq<u32>) -> bool { st.len() == ns.len() + 1 && forall|i: int| 0 <= i < ns.len() ==> nacked_some(st[i], st[i + 1], #[trigger] ns[i]) }
/// ns are numbers that the ranges contain, among them every number given out so far that they contain
pub open spec fn names(rs: Seq<(u32, u32)>, ns: Seq<u32>, next: u32) -> bool {
    (forall|i: int| 0 <= i < ns.len() ==> covers(rs, #[trigger] ns[i] as int)) && (forall|x: u32| covers(rs, x as int) && x < next ==> #[trigger] ns.contains(x))
}
pub open spec fn ack_section(s: (SendQ, SendQ), rs: Seq<(u32, u32)>) -> bool {
    s.0.inv() && s.1.wf() && exists|st: Seq<SendQ>, ns: Seq<u32>| #[trigger] acks_in(st, ns) && st[0] == s.0 && st.last() == s.1 && names(rs, ns, s.0.sequence_number)
}
pub open spec fn nack_section(s: (SendQ, SendQ), rs: Seq<(u32, u32)>) -> bool {
    s.0.inv() && s.1.wf() && exists|st: Seq<SendQ>, ns: Seq<u32>| #[trigger] nacks_in(st, ns) && st[0] == s.0 && st.last() == s.1 && names(rs, ns, s.0.sequence_number)
}
pub open spec fn list_of(d: Seq<u8>, rs: Seq<(u32, u32)>) -> bool { exists|n: u16| list_ok(d, n, rs) }
/// ack datagram d: its ranges are acknowledged in one section; a malformed one changes nothing
pub open spec fn ack_round(d: Seq<u8>, a: Effects, b: Effects) -> bool {
    &&& b.u == a.u && b.n == a.n
    &&& if fits_list(d) { one_more(a.q, b.q) && exists|rs: Seq<(u32, u32)>| #[trigger] list_of(d, rs) && ack_section(b.q.last(), rs) }
        else { b.q == a.q || (one_more(a.q, b.q) && b.q.last().1 == b.q.last().0) }
}
pub open spec fn nack_round(d: Seq<u8>, a: Effects, b: Effects) -> bool {
    &&& b.u == a.u && b.n == a.n
    &&& if fits_list(d) { one_more(a.q, b.q) && exists|rs: Seq<(u32, u32)>| #[trigger] list_of(d, rs) && nack_section(b.q.last(), rs) }
        else { b.q == a.q || (one_more(a.q, b.q) && b.q.last().1 == b.q.last().0) }
}
/// b acknowledges datagram number n and nothing else
pub open spec fn acks_only(b: Seq<u8>, n: u32, most: int) -> bool {
    exists|rs: Seq<(u32, u32)>| b == #[trigger] enc_list(0xc0, rs.len() as u16, rs) && 0 < rs.len() <= most && ranges_ok(rs) && forall|x: int| #[trigger] covers(rs, x) <==> x == n
}
/// data datagram d: its frames join the receive queue in one section, what comes out is dealt with, its number is acknowledged
pub open spec fn data_round(d: Seq<u8>, s: (RecvQ, RecvQ), peer: SocketAddr, local: SocketAddr, a: Effects, b: Effects, sent0: Seq<(Seq<u8>, SocketAddr)>, sent1: Seq<(Seq<u8>, SocketAddr)>, lossy: bool, over: bool) -> bool {
    exists|v: FrameVec, k: int, q: Seq<RecvQ>, m: Seq<RecvQ>, os: Seq<Seq<FrameSetPacket>>, h: Seq<Effects>|
        #[trigger] data_round_by(d, s, peer, local, a, b, sent0, sent1, lossy, over, v, k, q, m, os, h)
}
/// the first k frames of d joined (all, unless the session is over), q/m: the queue around each of them
pub open spec fn data_round_by(d: Seq<u8>, s: (RecvQ, RecvQ), peer: SocketAddr, local: SocketAddr, a: Effects, b: Effects, sent0: Seq<(Seq<u8>, SocketAddr)>, sent1: Seq<(Seq<u8>, SocketAddr)>, lossy: bool, over: bool,
    v: FrameVec, k: int, q: Seq<RecvQ>, m: Seq<RecvQ>, os: Seq<Seq<FrameSetPacket>>, h: Seq<Effects>) -> bool
{
    &&& datagram_is(d, v) && 0 <= k <= v.frames@.len() && frames_in(v.frames@.take(k), q, m, os) && q[0] == s.0
    &&& handled_all(flat(os), h, peer, local) && h[0] == a && h.last() == b
    &&& over <==> any_refused(flat(os), h)
    &&& !over ==> k == v.frames@.len()
    &&& s.1.inv() && s.1 == (RecvQ { sequence_number_ackset: s.1.sequence_number_ackset, ..q.last() })
    &&& s.1.sequence_number_ackset.nack@ == q.last().sequence_number_ackset.nack@ && s.1.sequence_number_ackset.last_max == q.last().sequence_number_ackset.last_max
    &&& if k == 0 { sent1 == sent0 } else { acked_back(v.sequence_number, k, peer, sent0, sent1) || (lossy && sent1 == sent0) }
}
pub open spec fn acked_back(n: u32, most: int, peer: SocketAddr, sent0: Seq<(Seq<u8>, SocketAddr)>, sent1: Seq<(Seq<u8>, SocketAddr)>) -> bool {
    exists|w: Seq<u8>| #[trigger] acks_only(w, n, most) && sent1 == sent0.push((w, peer))
}
/// one round of the receiver for a datagram d that is not empty; over: the round closed the session
pub open spec fn datagram_round(d: Seq<u8>, rq0: Seq<(RecvQ, RecvQ)>, rq1: Seq<(RecvQ, RecvQ)>, peer: SocketAddr, local: SocketAddr, a: Effects, b: Effects,
    sent0: Seq<(Seq<u8>, SocketAddr)>, sent1: Seq<(Seq<u8>, SocketAddr)>, lossy: bool, over: bool) -> bool
{
    if d[0] == 0x15 { over && rq1 == rq0 && b == a && sent1 == sent0 }
    else if d[0] == 0xc0 { !over && rq1 == rq0 && ack_round(d, a, b) && sent1 == sent0 }
    else if d[0] == 0xa0 { !over && rq1 == rq0 && nack_round(d, a, b) && sent1 == sent0 }
    else if 0x80 <= d[0] <= 0x8d && datagram_ok(d) { one_more(rq0, rq1) && data_round(d, rq1.last(), peer, local, a, b, sent0, sent1, lossy, over) }
    else { !over && rq1 == rq0 && b == a && sent1 == sent0 }
}
/// what is still due when the session is closed is dealt with
pub open spec fn drain(s: (RecvQ, RecvQ), peer: SocketAddr, local: SocketAddr, a: Effects, b: Effects) -> bool {
    exists|outs: Seq<FrameSetPacket>, h: Seq<Effects>| flush_step(s.0, s.1, outs) && #[trigger] handled_all(outs, h, peer, local) && h[0] == a && h.last() == b
}
pub proof fn list_records(d: Seq<u8>, n: u16, rs: Seq<(u32, u32)>)
    requires list_ok(d, n, rs),
    ensures rs.len() == n, recs24(rs), list_of(d, rs),
{ recs_bound(d, 3, n as nat); recs_24(d, 3, n as nat); }
pub proof fn names_one(rs: Seq<(u32, u32)>, k: int, ns0: Seq<u32>, next: u32)
    requires 0 <= k < rs.len(), names(rs.take(k), ns0, next), rs[k].0 == rs[k].1,
    ensures names(rs.take(k + 1), ns0.push(rs[k].0), next),
{
    let ns = ns0.push(rs[k].0);
    covers_take(rs, k);
    push_contains(ns0, rs[k].0);
    assert forall|i: int| 0 <= i < ns.len() implies covers(rs.take(k + 1), #[trigger] ns[i] as int) by { if i < ns0.len() { assert(ns[i] == ns0[i]); assert(covers(rs.take(k), ns0[i] as int)); } }
    assert forall|x: u32| covers(rs.take(k + 1), x as int) && x < next implies #[trigger] ns.contains(x) by { if x != rs[k].0 { assert(covers(rs.take(k), x as int)); assert(ns0.contains(x)); } }
}
pub proof fn names_range(rs: Seq<(u32, u32)>, k: int, ns0: Seq<u32>, ns: Seq<u32>, next: u32, cnt: int)
    requires 0 <= k < rs.len(), names(rs.take(k), ns0, next), ns0.len() <= ns.len(), ns.take(ns0.len() as int) == ns0, ns.len() == ns0.len() + cnt,
        rs[k].0 + cnt <= 0x1000000, cnt >= 0, rs[k].0 < 0x1000000,
        forall|j: int| ns0.len() <= j < ns.len() ==> #[trigger] ns[j] == rs[k].0 + (j - ns0.len()),
        cnt > 0 ==> rs[k].0 + cnt <= rs[k].1 + 1 && (rs[k].0 + cnt == rs[k].1 + 1 || rs[k].0 + cnt == next),
        cnt == 0 ==> rs[k].0 > rs[k].1 || rs[k].0 >= next,
    ensures names(rs.take(k + 1), ns, next),
{
    covers_take(rs, k);
    let l = ns0.len() as int;
    assert forall|i: int| 0 <= i < ns.len() implies covers(rs.take(k + 1), #[trigger] ns[i] as int) by {
        if i < l { assert(ns[i] == ns.take(l)[i]); assert(covers(rs.take(k), ns0[i] as int)); }
    }
    assert forall|x: u32| covers(rs.take(k + 1), x as int) && x < next implies #[trigger] ns.contains(x) by {
        if covers(rs.take(k), x as int) { assert(ns0.contains(x)); let i = choose|i: int| 0 <= i < ns0.len() && ns0[i] == x; assert(ns[i] == ns.take(l)[i]); }
        else { assert(ns[l + (x - rs[k].0)] == x); }
    }
}
pub proof fn le24_small(a: u8, b: u8, c: u8)
    ensures (a as u32) | ((b as u32) << 8) | ((c as u32) << 16) < 0x1000000,
{ assert((a as u32) | ((b as u32) << 8) | ((c as u32) << 16) < 0x1000000) by (bit_vector); }
pub proof fn recs_24(d: Seq<u8>, off: int, n: nat)
    requires recs(d, off, n) is Some,
    ensures recs24(recs(d, off, n)->Some_0.0),
    decreases n,
{
    if n > 0 {
        recs_24(d, off, (n - 1) as nat);
        assert forall|x: Seq<u8>| #[trigger] le24_val(x) < 0x1000000 by { le24_small(x[0], x[1], x[2]); }
    }
}
/// one more range
pub proof fn covers_take(rs: Seq<(u32, u32)>, k: int)
    requires 0 <= k < rs.len(),
    ensures forall|x: int| #[trigger] covers(rs.take(k + 1), x) <==> covers(rs.take(k), x) || rs[k].0 <= x <= rs[k].1,
{
    let a = rs.take(k); let b = rs.take(k + 1);
    assert forall|x: int| #[trigger] covers(b, x) <==> covers(a, x) || rs[k].0 <= x <= rs[k].1 by {
        if covers(a, x) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 <= x <= a[i].1; assert(b[i] == a[i]); }
        if rs[k].0 <= x <= rs[k].1 { assert(b[k] == rs[k]); }
        if covers(b, x) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 <= x <= b[i].1; if i < k { assert(a[i] == b[i]); } }
    }
}
@@ fn RaknetSocket::start_receiver__step attr=#[verifier::rlimit(200)]#[verifier::spinoff_prover]
    ensures
        final(receiver).id == old(receiver).id, final(s).got == old(s).got,
        // the round ends the task only when the session is closed
        flow is Break ==> final(connected).closed@,
        ({
            let e0 = effects(*old(sendq), *old(user_data_sender), *old(incomming_notify));
            let e1 = effects(*final(sendq), *final(user_data_sender), *final(incomming_notify));
            let took = final(receiver).got@.len() > old(receiver).got@.len();
            let d = final(receiver).got@.last()@;
            let over = final(connected).shut@ > old(connected).shut@;
            if took {
                &&& one_more(old(receiver).got@, final(receiver).got@)
                &&& if d.len() == 0 { flow is Continue && !over && e1 == e0 && final(recvq).past == old(recvq).past && final(s).sent == old(s).sent && final(last_heartbeat_time).stored == old(last_heartbeat_time).stored }
                    else {
                        &&& final(last_heartbeat_time).stored@.len() == old(last_heartbeat_time).stored@.len() + 1
                        &&& datagram_round(d, old(recvq).past@, final(recvq).past@, peer_addr, local_addr, e0, e1, old(s).sent@, final(s).sent@, old(enable_loss).may_be_set@, over)
                        &&& flow is Break <==> d[0] == 0x15
                    }
            } else {
                &&& flow is Break && final(receiver).got == old(receiver).got && final(s).sent == old(s).sent && final(last_heartbeat_time).stored == old(last_heartbeat_time).stored
                &&& (final(connected).shut == old(connected).shut && one_more(old(recvq).past@, final(recvq).past@) && drain(final(recvq).past@.last(), peer_addr, local_addr, e0, e1))
                    || (final(receiver).ended@ && final(recvq).past == old(recvq).past && e1 == e0)
            }
        }),
@@@ sig
pub async fn start_receiver__step(
    connected: &mut Semaphore, peer_addr: SocketAddr, local_addr: SocketAddr, sendq: &mut RwLock<SendQ>, recvq: &mut Mutex<RecvQ>,
    last_heartbeat_time: &mut AtomicI64, incomming_notify: &mut Notify, s: &mut UdpSocket, enable_loss: &mut AtomicBool, loss_rate: &mut AtomicU8,
    receiver: &mut Receiver<Vec<u8>>, user_data_sender: &mut Sender<Vec<u8>>) -> (flow: Flow)
@@@ wiring
connected = self.close_notifier
peer_addr = self.peer_addr
local_addr = self.local_addr
sendq = self.sendq
recvq = self.recvq
last_heartbeat_time = self.last_heartbeat_time
incomming_notify = self.incomming_notifier
s = s
enable_loss = self.enable_loss
loss_rate = self.loss_rate
@@@ loops for for for for for for for
@@@ loop 1 before
    let ghost s0 = *sendq;
    let ghost rs = ack.sequences@;
    let ghost mut st: Seq<SendQ> = seq![s0];
    let ghost mut ns: Seq<u32> = Seq::empty();
    proof { list_records(buf@, ack.record_count, rs); assert(rs.take(0) =~= Seq::empty()); }
@@@ loop 1 bind it
@@@ loop 1 inv
    invariant it.seq().len() == ack.record_count, ack.sequences@ == rs, rs.len() == ack.record_count, recs24(rs), next == s0.sequence_number,
        s0.inv(), sendq.wf(), sendq.room(), acks_in(st, ns), st[0] == s0, st.last() == *sendq, names(rs.take(i as int), ns, next),
@@@ loop 1 body-start
    let ghost k = i as int;
    let ghost b0 = *sendq;
    let ghost ns0 = ns;
    let ghost st0 = st;
    proof { assert(rs[k].0 < 0x1000000 && rs[k].1 < 0x1000000); covers_take(rs, k); }
@@@ after `sendq.ack(ack.sequences`
    proof { assert(acked_some(b0, *sendq, rs[k].0)); st = st0.push(*sendq); ns = ns0.push(rs[k].0); names_one(rs, k, ns0, next); }
@@@ loop 2 before
    let ghost top = if rs[k].1 + 1 < next { rs[k].1 + 1 } else { next as int };
    let ghost cnt = if rs[k].0 < top { top - rs[k].0 } else { 0 };
@@@ loop 2 bind jt
@@@ loop 2 inv
    invariant ack.sequences@ == rs, 0 <= k < rs.len(), s0.inv(), sendq.wf(), sendq.room(), acks_in(st, ns), st[0] == s0, st.last() == *sendq,
        rs[k].0 < 0x1000000 && rs[k].1 < 0x1000000, next == s0.sequence_number,
        names(rs.take(k), ns0, next), ns0.len() <= ns.len(), ns.take(ns0.len() as int) == ns0,
        jt.seq().len() == cnt, 0 <= cnt, rs[k].0 + cnt <= 0x1000000,
        forall|j: int| 0 <= j < jt.seq().len() ==> #[trigger] jt.seq()[j] == rs[k].0 + j,
        ns.len() == ns0.len() + jt.index@, forall|j: int| ns0.len() <= j < ns.len() ==> #[trigger] ns[j] == rs[k].0 + (j - ns0.len()),
    ensures ns.len() == ns0.len() + cnt,
@@@ loop 2 body-start
    let ghost c0 = *sendq;
    let ghost ns1 = ns;
    let ghost st1 = st;
    proof { assert(i == jt.seq()[jt.index@]); }
@@@ loop 2 body-end
    proof { assert(acked_some(c0, *sendq, i)); st = st1.push(*sendq); ns = ns1.push(i); assert(ns.take(ns0.len() as int) =~= ns0); }
@@@ loop 2 after
    proof { names_range(rs, k, ns0, ns, next, cnt); }
@@@ loop 1 body-end
    proof { assert(names(rs.take(k + 1), ns, next)); }
@@@ loop 1 after
    proof { assert(rs.take(rs.len() as int) =~= rs); assert(list_of(buf@, rs)); }
@@@ loop 3 before
    let ghost s0 = *sendq;
    let ghost rs = nack.sequences@;
    let ghost mut st: Seq<SendQ> = seq![s0];
    let ghost mut ns: Seq<u32> = Seq::empty();
    proof { list_records(buf@, nack.record_count, rs); assert(rs.take(0) =~= Seq::empty()); }
@@@ loop 3 bind it
@@@ loop 3 inv
    invariant it.seq().len() == nack.record_count, nack.sequences@ == rs, rs.len() == nack.record_count, recs24(rs), next == s0.sequence_number,
        s0.inv(), sendq.wf(), sendq.room(), nacks_in(st, ns), st[0] == s0, st.last() == *sendq, names(rs.take(i as int), ns, next),
@@@ loop 3 body-start
    let ghost k = i as int;
    let ghost b0 = *sendq;
    let ghost ns0 = ns;
    let ghost st0 = st;
    proof { assert(rs[k].0 < 0x1000000 && rs[k].1 < 0x1000000); covers_take(rs, k); }
@@@ after `sendq.nack(nack.sequences`
    proof { assert(nacked_some(b0, *sendq, rs[k].0)); st = st0.push(*sendq); ns = ns0.push(rs[k].0); names_one(rs, k, ns0, next); }
@@@ loop 4 before
    let ghost top = if rs[k].1 + 1 < next { rs[k].1 + 1 } else { next as int };
    let ghost cnt = if rs[k].0 < top { top - rs[k].0 } else { 0 };
@@@ loop 4 bind jt
@@@ loop 4 inv
    invariant nack.sequences@ == rs, 0 <= k < rs.len(), s0.inv(), sendq.wf(), sendq.room(), nacks_in(st, ns), st[0] == s0, st.last() == *sendq,
        rs[k].0 < 0x1000000 && rs[k].1 < 0x1000000, next == s0.sequence_number,
        names(rs.take(k), ns0, next), ns0.len() <= ns.len(), ns.take(ns0.len() as int) == ns0,
        jt.seq().len() == cnt, 0 <= cnt, rs[k].0 + cnt <= 0x1000000,
        forall|j: int| 0 <= j < jt.seq().len() ==> #[trigger] jt.seq()[j] == rs[k].0 + j,
        ns.len() == ns0.len() + jt.index@, forall|j: int| ns0.len() <= j < ns.len() ==> #[trigger] ns[j] == rs[k].0 + (j - ns0.len()),
    ensures ns.len() == ns0.len() + cnt,
@@@ loop 4 body-start
    let ghost c0 = *sendq;
    let ghost ns1 = ns;
    let ghost st1 = st;
    proof { assert(i == jt.seq()[jt.index@]); }
@@@ loop 4 body-end
    proof { assert(nacked_some(c0, *sendq, i)); st = st1.push(*sendq); ns = ns1.push(i); assert(ns.take(ns0.len() as int) =~= ns0); }
@@@ loop 4 after
    proof { names_range(rs, k, ns0, ns, next, cnt); }
@@@ loop 3 body-end
    proof { assert(names(rs.take(k + 1), ns, next)); }
@@@ loop 3 after
    proof { assert(rs.take(rs.len() as int) =~= rs); assert(list_of(buf@, rs)); }
@@@ loop 0 bind it
@@@ before `recvq.flush(`
    let ghost rqa = *recvq;
@@@ loop 0 before
    let ghost e0 = effects(*sendq, *user_data_sender, *incomming_notify);
    let ghost mut oz: Seq<FrameSetPacket> = Seq::empty();
    let ghost mut h: Seq<Effects> = seq![e0];
@@@ loop 0 inv
    invariant oz == it.seq().take(it.index@), flush_step(rqa, *recvq, it.seq()), recvq.wf(), h[0] == e0, h.last() == effects(*sendq, *user_data_sender, *incomming_notify), handled_all(oz, h, peer_addr, local_addr),
    ensures out_of(rqa, *recvq, Seq::empty(), oz),
@@@ loop 0 body-start
    let ghost a0 = effects(*sendq, *user_data_sender, *incomming_notify);
    let ghost h0 = h;
    proof { assert(f == it.seq()[it.index@]); }
@@@ loop 0 body-end
    proof {
        let b0 = effects(*sendq, *user_data_sender, *incomming_notify);
        assert forall|r: Result<bool>| #[trigger] handled(f.data@, peer_addr, local_addr, r, a0, b0) implies dealt(f, peer_addr, local_addr, a0, b0) by {}
        handled_all_step(oz, h0, f, b0, peer_addr, local_addr);
        h = h0.push(b0);
        assert(it.seq().take(it.index@ + 1) =~= it.seq().take(it.index@).push(f));
        oz = oz.push(f);
    }
@@@ loop 0 after
    proof {
        let o = choose|o: Seq<FrameSetPacket>| #[trigger] flush_step(rqa, *recvq, o) && oz == Seq::empty() + o.take(o.len() as int);
        assert(o =~= oz);
        assert(handled_all(o, h, peer_addr, local_addr));
        assert(drain((rqa, *recvq), peer_addr, local_addr, e0, h.last()));
    }
@@@ loop 5 before
    let ghost v0 = frames;
    let ghost rq0 = *recvq;
    let ghost e0 = effects(*sendq, *user_data_sender, *incomming_notify);
    let ghost shut0 = connected.shut@;
    let ghost mut k: int = 0;
    let ghost mut q: Seq<RecvQ> = seq![rq0];
    let ghost mut m: Seq<RecvQ> = Seq::empty();
    let ghost mut os: Seq<Seq<FrameSetPacket>> = Seq::empty();
    let ghost mut h: Seq<Effects> = seq![e0];
    proof { assert(v0.frames@.take(0) =~= Seq::empty()); assert(flat(os) =~= Seq::empty()); }
@@@ loop 5 bind it
@@@ loop 5 inv
    invariant_except_break k == it.index@, !is_break,
    invariant it.seq() == v0.frames@, datagram_ok(buf@), datagram_is(buf@, v0), recvq.wf(), recvq.packets@ == Map::<u32, FrameSetPacket>::empty(),
        0 <= k <= v0.frames@.len(), frames_in(v0.frames@.take(k), q, m, os), q[0] == rq0, q.last() == *recvq,
        handled_all(flat(os), h, peer_addr, local_addr), h[0] == e0, h.last() == effects(*sendq, *user_data_sender, *incomming_notify),
        is_break <==> any_refused(flat(os), h), connected.shut@ >= shut0, is_break <==> connected.shut@ > shut0,
        recvq.sequence_number_ackset.ack@.len() <= k,
        forall|x: int| #[trigger] covers(recvq.sequence_number_ackset.ack@, x) <==> k > 0 && x == v0.sequence_number,
    ensures is_break || k == v0.frames@.len(),
@@@ loop 5 body-start
    let ghost q0 = *recvq;
    proof { assert(frame == v0.frames@[k]); frame_of(buf@, v0, k); }
@@@ before `recvq.flush(`#1
    let ghost m0 = *recvq;
@@@ loop 6 before
    let ghost mut oz: Seq<FrameSetPacket> = flat(os);
@@@ loop 6 bind jt
@@@ loop 6 inv
    invariant oz == flat(os) + jt.seq().take(jt.index@), handled_all(oz, h, peer_addr, local_addr), h[0] == e0, h.last() == effects(*sendq, *user_data_sender, *incomming_notify),
        is_break <==> any_refused(oz, h), connected.shut@ >= shut0, is_break <==> connected.shut@ > shut0,
        flush_step(m0, *recvq, jt.seq()), recvq.wf(),
    ensures out_of(m0, *recvq, flat(os), oz),
@@@ loop 6 body-start
    let ghost a0 = effects(*sendq, *user_data_sender, *incomming_notify);
    let ghost br0 = is_break;
    let ghost outs = jt.seq();
    proof { assert(f == jt.seq()[jt.index@]); }
@@@ loop 6 body-end
    proof {
        let b0 = effects(*sendq, *user_data_sender, *incomming_notify);
        assert forall|r: Result<bool>| #[trigger] handled(f.data@, peer_addr, local_addr, r, a0, b0) implies
            dealt(f, peer_addr, local_addr, a0, b0) && (refused(f, b0) <==> r == Result::<bool>::Ok(false)) by { refused_iff(f, peer_addr, local_addr, r, a0, b0); }
        assert(dealt(f, peer_addr, local_addr, a0, b0));
        handled_all_step(oz, h, f, b0, peer_addr, local_addr);
        any_refused_step(oz, h, f, b0);
        h = h.push(b0);
        oz = oz.push(f);
        assert(outs.take(jt.index@ + 1) =~= outs.take(jt.index@).push(f));
        assert(oz =~= flat(os) + outs.take(jt.index@ + 1));
    }
@@@ before `if is_break`
    proof {
        let outs0 = choose|o: Seq<FrameSetPacket>| #[trigger] flush_step(m0, *recvq, o) && oz == flat(os) + o.take(o.len() as int);
        assert(outs0.take(outs0.len() as int) =~= outs0);
        frames_in_step(v0.frames@.take(k), q, m, os, frame, m0, *recvq, outs0);
        assert(v0.frames@.take(k + 1) =~= v0.frames@.take(k).push(frame));
        q = q.push(*recvq); m = m.push(m0); os = os.push(outs0); k = k + 1;
    }
@@@ before `recvq.get_ack(`
    let ghost q9 = *recvq;
@@@ after `recvq.get_ack(`
    let ghost acks0 = acks@;
    proof { assert(recvq.inv()); assert(*recvq == (RecvQ { sequence_number_ackset: recvq.sequence_number_ackset, ..q9 })); }
@@@ after `if !acks.is_empty()`
    proof {
        assert(k > 0 <==> acks0.len() > 0) by { if k > 0 { assert(covers(acks0, v0.sequence_number as int)); } }
        assert(data_round_by(buf@, (rq0, *recvq), peer_addr, local_addr, e0, h.last(), old(s).sent@, s.sent@, old(enable_loss).may_be_set@, is_break, v0, k, q, m, os, h));
    }
@@@ after `let buf = write_packet_ack`
    proof { assert(acks_only(buf@, v0.sequence_number, k)); }
@@ fn RaknetSocket::start_sender__step
    ensures final(s).got == old(s).got, final(receiver).id == old(receiver).id,
        match flow {
            Flow::Continue => one_more(old(receiver).got@, final(receiver).got@) && ({
                let p = final(receiver).got@.last();
                sent_once(*old(s), *final(s), p.0@, p.1, p.2)
            }),
            // it stops only when nobody sends any more or the session is closed, and never with a datagram in hand
            Flow::Break => final(s).sent == old(s).sent && final(receiver).got == old(receiver).got && (final(receiver).ended@ || final(connected).closed@),
            Flow::Return => false,
        },
        final(connected).shut == old(connected).shut,
@@@ sig
pub async fn start_sender__step(receiver: &mut Receiver<(Vec<u8>, SocketAddr, bool, u8)>, connected: &mut Semaphore, s: &mut UdpSocket) -> (flow: Flow)
@@@ wiring
connected = self.close_notifier
s = s
@@ top
// ---- the ticker task, one round
pub open spec fn to_peer(outs: Seq<FrameSetPacket>, peer: SocketAddr) -> Seq<(Seq<u8>, SocketAddr)> { Seq::new(outs.len(), |i: int| (enc_frame(outs[i]), peer)) }
/// the missing numbers are reported once, in one datagram
pub open spec fn nack_part(nk: Seq<(u32, u32)>, peer: SocketAddr) -> Seq<(Seq<u8>, SocketAddr)> { if nk.len() == 0 { Seq::empty() } else { seq![(enc_list(0xa0, nk.len() as u16, nk), peer)] } }
pub open spec fn byes(n: nat, peer: SocketAddr) -> Seq<(Seq<u8>, SocketAddr)> { Seq::new(n, |i: int| (seq![0x15u8], peer)) }
/// reported numbers leave the bookkeeping, nothing else changes
pub open spec fn nacks_taken(s: (RecvQ, RecvQ)) -> bool {
    let a = s.0.sequence_number_ackset; let b = s.1.sequence_number_ackset;
    s.0.inv() && s.1.inv() && s.1 == (RecvQ { sequence_number_ackset: b, ..s.0 }) && b.nack@.len() == 0 && b.last_max == a.last_max
}
/// everything a round sends: the missing numbers, what the send queue hands out, n disconnects
pub open spec fn tick_sent(nk: Seq<(u32, u32)>, s: (SendQ, SendQ), peer: SocketAddr, n: nat, sent0: Seq<(Seq<u8>, SocketAddr)>, sent1: Seq<(Seq<u8>, SocketAddr)>, lossy: bool) -> bool {
    s.0.inv() && s.1.wf() && exists|outs: Seq<FrameSetPacket>| #[trigger] flushed_some(s.0, s.1, outs) && (lossy || sent1 == sent0 + nack_part(nk, peer) + to_peer(outs, peer) + byes(n, peer))
}
/// with disconnects
pub open spec fn tick_bye(nk: Seq<(u32, u32)>, s: (SendQ, SendQ), peer: SocketAddr, sent0: Seq<(Seq<u8>, SocketAddr)>, sent1: Seq<(Seq<u8>, SocketAddr)>, lossy: bool) -> bool {
    exists|n: nat| n > 0 && #[trigger] tick_sent(nk, s, peer, n, sent0, sent1, lossy)
}
pub open spec fn flushed_some(a: SendQ, b: SendQ, outs: Seq<FrameSetPacket>) -> bool { exists|t: i64| 0 <= t && #[trigger] flush_out(a, b, outs, t) }
pub open spec fn flushed_all(a: SendQ, b: SendQ, outs: Seq<FrameSetPacket>) -> bool { exists|o: Seq<FrameSetPacket>| #[trigger] flushed_some(a, b, o) && outs == o.take(o.len() as int) }
pub open spec fn silent_for(t: i64, ms: int) -> bool { exists|now: i64| #[trigger] clock_read(now) && now - t > ms }
pub open spec fn heard_within(t: i64, ms: int) -> bool { exists|now: i64| #[trigger] clock_read(now) && now - t <= ms }
/// what a flush hands out can be put on the wire
pub proof fn outs_fit(a: SendQ, b: SendQ, r: Seq<FrameSetPacket>, tick: i64)
    requires a.wf(), b.wf(), b.mtu == a.mtu, flush_out(a, b, r, tick),
    ensures forall|k: int| 0 <= k < r.len() ==> frame_out(#[trigger] r[k], a.mtu),
{
    assert forall|k: int| 0 <= k < r.len() implies frame_out(#[trigger] r[k], a.mtu) by {
        if a.sent_packet@.len() > 0 {
            let p = choose|p: Seq<int>| resend_by(a, b, r, tick, p);
            assert(is_one_of(a.sent_packet@, b.sent_packet@, p, a.rto, tick, r[k]));
        } else {
            assert(r[k] == renum(a.packets@[k], (a.sequence_number + k) as u32));
            assert(frame_out(a.packets@[k], a.mtu));
        }
    }
}
@@ fn RaknetSocket::start_tick__step attr=#[verifier::rlimit(60)]
    requires last_monitor_tick0 >= 0,
    ensures final(s).got == old(s).got, final(last_heartbeat_time).stored == old(last_heartbeat_time).stored,
        one_more(old(recvq).past@, final(recvq).past@), nacks_taken(final(recvq).past@.last()),
        one_more(old(sendq).past@, final(sendq).past@), one_more(old(last_heartbeat_time).loaded@, final(last_heartbeat_time).loaded@),
        ({
            let nk = final(recvq).past@.last().0.sequence_number_ackset.nack@;
            let ss = final(sendq).past@.last();
            let lossy = old(enable_loss).may_be_set@;
            let heard = final(last_heartbeat_time).loaded@.last();
            let shut = final(connected).shut@ - old(connected).shut@;
            // the round ends the task exactly when the session is closed
            &&& flow is Break <==> final(connected).closed@
            // it closes the session only when nothing came for 60 s
            &&& shut == 0 || (shut == 1 && flow is Break && silent_for(heard, 60000) && tick_sent(nk, ss, peer_addr, 0, old(s).sent@, final(s).sent@, lossy))
            &&& flow is Continue ==> heard_within(heard, 60000) && tick_sent(nk, ss, peer_addr, 0, old(s).sent@, final(s).sent@, lossy)
            // a session closed otherwise: the peer is told
            &&& flow is Break && shut == 0 ==> tick_bye(nk, ss, peer_addr, old(s).sent@, final(s).sent@, lossy)
        }),
@@@ sig
pub async fn start_tick__step(connected: &mut Semaphore, s: &mut UdpSocket, peer_addr: SocketAddr, sendq: &mut RwLock<SendQ>, recvq: &mut Mutex<RecvQ>, last_monitor_tick0: i64,
    enable_loss: &mut AtomicBool, loss_rate: &mut AtomicU8, last_heartbeat_time: &mut AtomicI64) -> (flow: Flow)
@@@ wiring
connected = self.close_notifier
s = s
peer_addr = self.peer_addr
sendq = self.sendq
recvq = self.recvq
enable_loss = self.enable_loss
loss_rate = self.loss_rate
last_heartbeat_time = self.last_heartbeat_time
last_monitor_tick = cur_timestamp_millis()
@@@ start
    let mut last_monitor_tick = last_monitor_tick0;
@@@ loops for for
@@@ before `recvq.get_nack(`
    let ghost rq0 = *recvq;
    let ghost sent0 = s.sent@;
@@@ before `sendq.write(`
    let ghost rq1 = *recvq;
    let ghost nk = rq0.sequence_number_ackset.nack@;
    let ghost sent1 = s.sent@;
    let ghost lossy = enable_loss.may_be_set@;
    proof { assert(nacks_taken((rq0, rq1))); assert(lossy || sent1 =~= sent0 + nack_part(nk, peer_addr)); }
@@@ before `sendq.flush(`
    let ghost sq0 = *sendq;
@@@ loop 0 before
    let ghost shut0 = connected.shut@;
    let ghost mut outs: Seq<FrameSetPacket> = Seq::empty();
@@@ loop 0 bind it
@@@ loop 0 inv
    invariant outs == it.seq().take(it.index@), sq0.inv(), sendq.wf(), sendq.mtu == sq0.mtu, flushed_some(sq0, *sendq, it.seq()), enable_loss.may_be_set@ == lossy,
        lossy || s.sent@ == sent1 + to_peer(outs, peer_addr), s.got == old(s).got, connected.shut@ == shut0,
    ensures flushed_all(sq0, *sendq, outs),
@@@ loop 0 body-start
    proof {
        let r = it.seq();
        let t = choose|t: i64| 0 <= t && #[trigger] flush_out(sq0, *sendq, r, t);
        outs_fit(sq0, *sendq, r, t);
        assert(frame_out(r[it.index@], sq0.mtu));
        assert(f == r[it.index@]);
    }
@@@ loop 0 body-end
    proof {
        assert(it.seq().take(it.index@ + 1) =~= it.seq().take(it.index@).push(f));
        outs = outs.push(f);
        assert(lossy || s.sent@ =~= sent1 + to_peer(outs, peer_addr));
    }
@@@ loop 0 after
    let ghost sq1 = *sendq;
    let ghost sent2 = s.sent@;
    proof {
        let o = choose|o: Seq<FrameSetPacket>| #[trigger] flushed_some(sq0, sq1, o) && outs == o.take(o.len() as int);
        assert(outs =~= o);
        assert(flushed_some(sq0, sq1, outs));
        assert(byes(0, peer_addr) =~= Seq::empty());
        assert(lossy || sent2 =~= sent0 + nack_part(nk, peer_addr) + to_peer(outs, peer_addr) + byes(0, peer_addr));
        assert(sq0.inv()); assert(sq1.wf());
        let ss = (sq0, sq1);
        assert(ss.0.inv() && ss.1.wf());
        assert(flushed_some(ss.0, ss.1, outs));
        assert(tick_sent(nk, (sq0, sq1), peer_addr, 0, sent0, sent2, lossy));
    }
@@@ loop 1 before
    let ghost mut n: nat = 0;
@@@ loop 1 bind jt
@@@ loop 1 inv
    invariant n == jt.index@, jt.seq().len() == 10, enable_loss.may_be_set@ == lossy, s.got == old(s).got, connected.shut@ == shut0,
        lossy || s.sent@ == sent2 + byes(n, peer_addr),
    ensures n == 10,
@@@ loop 1 body-end
    proof { n = n + 1; assert(lossy || s.sent@.last().0 =~= seq![0x15u8]); assert(lossy || s.sent@ =~= sent2 + byes(n, peer_addr)); }
@@@ loop 1 after
    proof {
        assert(lossy || s.sent@ =~= sent0 + nack_part(nk, peer_addr) + to_peer(outs, peer_addr) + byes(n, peer_addr));
        assert(tick_sent(nk, (sq0, sq1), peer_addr, n, sent0, s.sent@, lossy));
        assert(tick_bye(nk, (sq0, sq1), peer_addr, sent0, s.sent@, lossy));
    }
@@ fn RaknetSocket::start_tick__end
    ensures match collecter {
            // whoever watches the session learns that it is over
            Some(p) => one_more(p.past@, final(p).past@) && final(p).past@.last().1.sent@.len() == final(p).past@.last().0.sent@.len() + 1 && final(p).past@.last().1.sent@.last().0 == peer_addr,
            None => true,
        },
@@@ sig
pub async fn start_tick__end(collecter: Option<&mut Mutex<Sender<SocketAddr>>>, peer_addr: SocketAddr) -> (r: ())
@@@ wiring
peer_addr = self.peer_addr
@@ fn RaknetSocket::drop_watcher__task
    ensures final(drop_notifier).waited@ == old(drop_notifier).waited@ + 1, final(close_notifier).closed@,
@@@ sig
pub async fn drop_watcher__task(close_notifier: &mut Semaphore, drop_notifier: &mut Notify) -> (r: ())
@@@ wiring
close_notifier = self.close_notifier
drop_notifier = self.drop_notifier
@@ fn RaknetSocket::from ret=res
    ensures res.peer_addr == *addr, res.local_addr == old(s).addr@, res.raknet_version == raknet_version, res.fresh(mtu), *final(s) == *old(s),
@@ top
/// a datagram that is a first reply, with its mtu
pub open spec fn offered(mtu: u16) -> bool { exists|b: Seq<u8>, p: OpenConnectionReply1| #![auto] at_OpenConnectionReply1(b, p) && p.mtu_size == mtu }
pub open spec fn asked(s: (SendQ, SendQ)) -> bool { exists|p: ConnectionRequest| #![auto] queued(s, Reliability::ReliableOrdered, enc_ConnectionRequest(p)) }
/// a connected socket: for the address and version asked for, messages cut for the mtu the listener offered, a connection request queued
/// first, and handed out only after the peer accepted (or, never heard of again, was accepted by nobody: connect keeps waiting)
pub open spec fn connected_to(r: Result<RaknetSocket>, addr: SocketAddr, version: u8) -> bool {
    match r {
        Ok(x) => {
            &&& x.peer_addr == addr && x.raknet_version == version && x.incomming_notifier.waited@ == 1 && !x.enable_loss.may_be_set@
            &&& exists|mtu: u16| #[trigger] offered(mtu) && x.sendq.v.mtu == (if mtu < 400 { 400 } else if mtu > 1500 { 1500 } else { mtu })
            &&& x.sendq.past@.len() == 1 && asked(x.sendq.past@[0])
        }
        Err(e) => e == RaknetError::BindAdressError || e == RaknetError::NotSupportVersion || e == RaknetError::PacketParseError,
    }
}
pub proof fn request_short(p: ConnectionRequest)
    ensures enc_ConnectionRequest(p).len() <= 18,
{ }
@@ fn RaknetSocket::connect
    ensures connected_to(r, *addr, 10),
// ---- the task that reads the client's socket, one round
@@ fn RaknetSocket::connect_with_version__step
    ensures final(recv_s).sent == old(recv_s).sent,
        if final(recv_s).got@.len() > old(recv_s).got@.len() {
            // every datagram goes to the session, unchanged; the task goes on unless nobody takes it
            &&& one_more(old(recv_s).got@, final(recv_s).got@) && one_more(old(sender).sent@, final(sender).sent@)
            &&& final(sender).sent@.last().0@ == final(recv_s).got@.last().0 && (flow is Continue <==> final(sender).sent@.last().1)
        } else { final(sender).sent == old(sender).sent },
        // it stops only with the session closed
        flow is Break ==> final(connected_s).closed@,
@@@ sig
pub async fn connect_with_version__step(buf0: [u8; 2048], connected_s: &mut Semaphore, recv_s: &mut UdpSocket, sender: &mut Sender<Vec<u8>>) -> (flow: Flow)
@@@ wiring
recv_s = s
connected_s = connected
buf = [0u8; 2048]
@@@ start
    let mut buf = buf0;
@@ fn RaknetSocket::connect_with_version attr=#[verifier::exec_allows_no_decreases_clause]
    ensures connected_to(r, *addr, raknet_version),
@@@ loops loop loop
@@@ loop 0 inv
    invariant true,
    ensures reply1_size <= 2048,
@@@ loop 1 inv
    invariant true,
@@@ before `let packet = OpenConnectionRequest2`
    proof { assert(offered(reply1.mtu_size)); }
@@@ before `sendq1.insert`
    let ghost sq0 = *sendq1;
    proof { request_short(packet); room_for(sq0, buf@.len() as int); }
@@@ before `std::mem::drop`
    proof { assert(queued((sq0, *sendq1), Reliability::ReliableOrdered, buf@)); }
@@ fn RaknetSocket::start_receiver
    // the task serves this session's channel
    requires user_data_sender.id == old(self).user_data_receiver.v.id,
    ensures *final(self) == *old(self), *final(s) == *old(s),
@@ fn RaknetSocket::start_sender
    // the task serves this session's channel
    requires receiver.id == old(self).sender.id,
    ensures *final(self) == *old(self), *final(s) == *old(s),
@@ fn RaknetSocket::start_tick
    ensures *final(self) == *old(self), *final(s) == *old(s),
@@ fn RaknetSocket::close
    ensures r is Ok, final(self).close_notifier.closed@, final(self).only_closed(*old(self)),
        // the first to close queues one disconnect message, reliably; closing again does nothing
        (final(self).close_notifier.shut == old(self).close_notifier.shut && final(self).sendq.past == old(self).sendq.past)
            || (final(self).close_notifier.shut@ == old(self).close_notifier.shut@ + 1 && one_more(old(self).sendq.past@, final(self).sendq.past@)
                && queued(final(self).sendq.past@.last(), Reliability::Reliable, seq![0x15u8])),
        old(self).close_notifier.closed@ ==> final(self).close_notifier.shut == old(self).close_notifier.shut,
@@@ start
    proof { room_any(1); }
@@@ after `.insert(Reliability::Reliable`
    proof {
        let s = self.sendq.past@.last();
        assert(forall|b: Seq<u8>| b.len() == 1 && b[0] == 0x15 ==> #[trigger] queue_step(s.0, s.1, Reliability::Reliable, b) ==> b =~= seq![0x15u8]);
        assert(queued(s, Reliability::Reliable, seq![0x15u8]));
    }
@@ top
impl RaknetSocket {
    /// apart from the send queue, the channel to the sender task and the closing nothing of the socket changed
    pub open spec fn only_closed(&self, a: RaknetSocket) -> bool {
        &&& self.local_addr == a.local_addr && self.peer_addr == a.peer_addr && self.user_data_receiver == a.user_data_receiver && self.recvq == a.recvq
        &&& self.last_heartbeat_time == a.last_heartbeat_time && self.enable_loss == a.enable_loss && self.loss_rate == a.loss_rate && self.incomming_notifier == a.incomming_notifier
        &&& self.sender == a.sender && self.drop_notifier == a.drop_notifier && self.raknet_version == a.raknet_version
    }
    /// a new session: nothing sent or received yet, messages cut for this mtu, loss simulation off
    pub open spec fn fresh(&self, mtu: u16) -> bool {
        &&& self.sendq.v.wf() && self.sendq.v.mtu == (if mtu < 400 { 400 } else if mtu > 1500 { 1500 } else { mtu })
        &&& self.sendq.v.packets@.len() == 0 && self.sendq.v.sent_packet@.len() == 0 && self.sendq.v.sequence_number == 0 && self.sendq.v.rto == 50
        &&& self.recvq.v.inv() && self.user_data_receiver.past@.len() == 0 && self.sender.sent@.len() == 0
        &&& !self.close_notifier.closed@ && self.close_notifier.shut@ == 0 && !self.enable_loss.may_be_set@ && self.incomming_notifier.notified@ == 0
    }
    pub open spec fn only_sent(&self, a: RaknetSocket) -> bool {
        self.only_closed(RaknetSocket { sender: self.sender, ..a }) && self.close_notifier.shut == a.close_notifier.shut
    }
}
pub type Job = ((Vec<u8>, SocketAddr, bool, u8), bool);
/// the first n frames of outs went to the sender task, for peer
pub open spec fn jobs(a: Seq<Job>, b: Seq<Job>, outs: Seq<FrameSetPacket>, n: int, peer: SocketAddr, lossy: bool) -> bool {
    &&& 0 <= n <= outs.len() && b.len() == a.len() + n && b.take(a.len() as int) == a
    &&& forall|k: int| 0 <= k < n ==> job(#[trigger] b[a.len() + k], outs[k], peer, lossy)
}
pub open spec fn job(x: Job, f: FrameSetPacket, peer: SocketAddr, lossy: bool) -> bool { x.0.0@ == enc_frame(f) && x.0.1 == peer && (x.0.2 ==> lossy) }
pub proof fn jobs_step(a: Seq<Job>, b: Seq<Job>, outs: Seq<FrameSetPacket>, n: int, peer: SocketAddr, lossy: bool, x: Job)
    requires jobs(a, b, outs, n, peer, lossy), n < outs.len(), job(x, outs[n], peer, lossy),
    ensures jobs(a, b.push(x), outs, n + 1, peer, lossy),
{
    let c = b.push(x);
    assert(c.take(a.len() as int) =~= a) by { assert(b.take(a.len() as int) =~= a); assert forall|i: int| 0 <= i < a.len() implies c[i] == a[i] by { assert(b.take(a.len() as int)[i] == b[i]); } }
    assert forall|k: int| 0 <= k < n + 1 implies job(#[trigger] c[a.len() + k], outs[k], peer, lossy) by { if k < n { assert(job(b[a.len() + k], outs[k], peer, lossy)); } }
}
pub proof fn cat_long(fs: Seq<FrameSetPacket>)
    requires forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).data@.len() > 0,
    ensures cat_data(fs).len() >= fs.len(),
    decreases fs.len(),
{ if fs.len() > 0 { assert(forall|i: int| 0 <= i < fs.drop_last().len() ==> fs.drop_last()[i] == fs[i]); cat_long(fs.drop_last()); } }
/// far from the end of the number space a queue with one more message can be flushed
pub proof fn room_after(a: SendQ, b: SendQ, rel: Reliability, m: Seq<u8>)
    requires a.inv(), queue_step(a, b, rel, m), m.len() < 0x600000,
    ensures b.room(),
{
    let n = b.packets@.len() - a.packets@.len();
    let fs = b.packets@.skip(a.packets@.len() as int);
    if pieces(fs, a, rel, m) {
        assert forall|i: int| 0 <= i < fs.len() implies (#[trigger] fs[i]).data@.len() > 0 by { assert(piece(fs[i], a, rel, i, fs.len() as int)); }
        cat_long(fs);
    }
}
/// the message joined the queue and everything the queue hands out went to the sender task (some of it if that task is gone)
pub open spec fn sent_off(s: (SendQ, SendQ), rel: Reliability, m: Seq<u8>, a: Seq<Job>, b: Seq<Job>, peer: SocketAddr, lossy: bool, all: bool) -> bool {
    s.0.inv() && s.1.wf() && exists|c: SendQ, outs: Seq<FrameSetPacket>, n: int| #[trigger] sent_off_by(s, rel, m, a, b, peer, lossy, all, c, outs, n)
}
pub open spec fn sent_off_by(s: (SendQ, SendQ), rel: Reliability, m: Seq<u8>, a: Seq<Job>, b: Seq<Job>, peer: SocketAddr, lossy: bool, all: bool, c: SendQ, outs: Seq<FrameSetPacket>, n: int) -> bool {
    queue_step(s.0, c, rel, m) && flushed_some(c, s.1, outs) && jobs(a, b, outs, n, peer, lossy) && (all ==> n == outs.len())
}
pub open spec fn sent_all(c: SendQ, d: SendQ, a: Seq<Job>, b: Seq<Job>, peer: SocketAddr, lossy: bool) -> bool {
    exists|o: Seq<FrameSetPacket>| #[trigger] flushed_some(c, d, o) && jobs(a, b, o, o.len() as int, peer, lossy)
}
/// what send answers and does
pub open spec fn send_result(m: Seq<u8>, rel: Reliability, r: Result<()>, a: RaknetSocket, b: RaknetSocket) -> bool {
    if m.len() == 0 || m[0] != 0xfe { r == Result::<()>::Err(RaknetError::PacketHeaderError) && b == a }
    else if b.sendq.past == a.sendq.past { r == Result::<()>::Err(RaknetError::ConnectionClosed) && b.close_notifier.closed@ && b.sender == a.sender }
    else {
        let s = b.sendq.past@.last();
        &&& one_more(a.sendq.past@, b.sendq.past@) && s.0.inv() && s.1.wf() && !b.close_notifier.closed@
        &&& if too_big(s.0, rel, m) { r == Result::<()>::Err(RaknetError::PacketSizeExceedMTU) && s.1 == s.0 && b.sender == a.sender }
            else {
                &&& r == Result::<()>::Ok(()) || r == Result::<()>::Err(RaknetError::ConnectionClosed)
                &&& sent_off(s, rel, m, a.sender.sent@, b.sender.sent@, a.peer_addr, a.enable_loss.may_be_set@, r is Ok)
            }
    }
}
@@ top
/// a datagram that is a pong, with its message of the day
pub open spec fn pong_motd(motd: Seq<char>) -> bool { exists|b: Seq<u8>, p: PacketUnconnectedPong| #![auto] at_PacketUnconnectedPong(b, p) && p.motd@ == motd }
@@ fn RaknetSocket::ping attr=#[verifier::exec_allows_no_decreases_clause]
    ensures match r { Ok(p) => pong_motd(p.1@), Err(e) => e == RaknetError::BindAdressError || e == RaknetError::SocketError },
@@@ loops loop
@@ fn RaknetSocket::send ret=res attr=#[verifier::rlimit(80)] attr=#[verifier::loop_isolation(false)]
    requires buf@.len() < 0x600000,
    ensures send_result(buf@, r, res, *old(self), *final(self)), final(self).only_sent(*old(self)),
@@@ loops for
@@@ before `sendq.insert`
    let ghost sq0 = *sendq;
    proof { room_for(sq0, buf@.len() as int); }
@@@ loop 0 before
    let ghost mid = *sendq;
    let ghost jobs0 = sender.sent@;
    let ghost lossy = self.enable_loss.may_be_set@;
    let ghost peer = self.peer_addr;
    let ghost mut n: int = 0;
    proof { assert(jobs0.take(jobs0.len() as int) =~= jobs0); room_after(sq0, mid, r, buf@); }
@@@ loop 0 bind it
@@@ loop 0 inv
    invariant n == it.index@, mid.wf(), sendq.wf(), sendq.mtu == mid.mtu, flushed_some(mid, *sendq, it.seq()), jobs(jobs0, sender.sent@, it.seq(), n, peer, lossy),
        self.enable_loss.may_be_set@ == lossy, self.peer_addr == peer, queue_step(sq0, mid, r, buf@), sq0.inv(),
    ensures sent_all(mid, *sendq, jobs0, sender.sent@, peer, lossy),
@@@ loop 0 body-start
    let ghost b0 = sender.sent@;
    let ghost outs = it.seq();
    proof {
        let t = choose|t: i64| 0 <= t && #[trigger] flush_out(mid, *sendq, outs, t);
        outs_fit(mid, *sendq, outs, t);
        assert(frame_out(outs[n], mid.mtu));
        assert(f == outs[n]);
        assert forall|x: Job| job(x, f, peer, lossy) implies #[trigger] jobs(jobs0, b0.push(x), outs, n + 1, peer, lossy) by { jobs_step(jobs0, b0, outs, n, peer, lossy, x); }
        assert forall|x: Job| job(x, f, peer, lossy) implies sent_off((sq0, *sendq), r, buf@, jobs0, #[trigger] b0.push(x), peer, lossy, false) by {
            assert(jobs(jobs0, b0.push(x), outs, n + 1, peer, lossy));
            assert(sent_off_by((sq0, *sendq), r, buf@, jobs0, b0.push(x), peer, lossy, false, mid, outs, n + 1));
        }
    }
@@@ loop 0 body-end
    proof {
        n = n + 1;
        assert(b0.push(sender.sent@.last()) == sender.sent@);
        assert(jobs(jobs0, sender.sent@, outs, n, peer, lossy));
    }
@@@ loop 0 after
    proof {
        let o = choose|o: Seq<FrameSetPacket>| #[trigger] flushed_some(mid, *sendq, o) && jobs(jobs0, sender.sent@, o, o.len() as int, peer, lossy);
        assert(sent_off_by((sq0, *sendq), r, buf@, jobs0, sender.sent@, peer, lossy, true, mid, o, o.len() as int));
    }
@@ fn RaknetSocket::flush attr=#[verifier::exec_allows_no_decreases_clause]
    ensures final(self).only_closed(*old(self)), final(self).close_notifier.shut == old(self).close_notifier.shut,
        // success: the queue was seen with nothing waiting to be sent or acknowledged
        r is Ok ==> final(self).sendq.past@.len() > old(self).sendq.past@.len() && final(self).sendq.past@.last().0.packets@.len() == 0 && final(self).sendq.past@.last().0.sent_packet@.len() == 0,
        r is Err ==> r == Result::<()>::Err(RaknetError::ConnectionClosed) && final(self).close_notifier.closed@,
        old(self).close_notifier.closed@ ==> r is Err,
@@@ loops loop
@@@ loop 0 inv
    invariant self.only_closed(*old(self)), self.close_notifier.shut == old(self).close_notifier.shut, self.sendq.past@.len() >= old(self).sendq.past@.len(),
        old(self).close_notifier.closed@ ==> self.close_notifier.closed@,
@@ fn RaknetSocket::recv
    ensures one_more(old(self).user_data_receiver.past@, final(self).user_data_receiver.past@), final(self).sendq == old(self).sendq, final(self).sender == old(self).sender,
        final(self).close_notifier.shut == old(self).close_notifier.shut,
        ({
            let s = final(self).user_data_receiver.past@.last();
            match r {
                // the next message handed up
                Ok(m) => s.1.got@ == s.0.got@.push(m),
                // none is left and none can come
                Err(e) => s.1.ended@ && s.1.got == s.0.got && (e == RaknetError::ConnectionClosed <==> final(self).close_notifier.closed@),
            }
        }),
@@ fn RaknetSocket::peer_addr
    ensures r is Ok, r->Ok_0 == old(self).peer_addr, *final(self) == *old(self),
@@ fn RaknetSocket::local_addr
    ensures r is Ok, r->Ok_0 == old(self).local_addr, *final(self) == *old(self),
@@ fn RaknetSocket::raknet_version
    ensures r is Ok, r->Ok_0 == old(self).raknet_version, *final(self) == *old(self),
@@ fn RaknetSocket::set_loss_rate
@@ fn RaknetSocket::drop_watcher ret=r
    ensures *final(self) == *old(self),
@@ fn RaknetSocket::drop
    // the drop watcher is told, once; it closes what is not closed yet
    ensures final(self).drop_notifier.notified@ == old(self).drop_notifier.notified@ + 1,
        *final(self) == (RaknetSocket { drop_notifier: final(self).drop_notifier, ..*old(self) }),
