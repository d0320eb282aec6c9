@@ module server drop-use=std::sync drop-use=tokio drop-use=rand drop-use=std::time drop-use=crate::raknet_log_error drop-use=crate::raknet_log_info drop-use=crate::raknet_log_debug drop-use=std::net
@@ top
use super::shim::*;
use super::wire::*;
use super::net::*;
use std::net::SocketAddr;
broadcast use group_keys;
impl RaknetListener {
    /// a new listener: nothing listened to, no session, no message of the day, accept receives what listen offers
    pub open spec fn idle(&self) -> bool {
        &&& self.socket is Some && !self.listened && self.motd.v@.len() == 0 && !self.close_notifier.closed@ && self.close_notifier.shut@ == 0
        &&& self.connection_sender.id == self.connection_receiver.id && self.sessions.v@ == Map::<SocketAddr, SessionSender>::empty() && self.version_map.v@ == Map::<String, u8>::empty()
    }
}
@@ fn RaknetListener::bind
    ensures match r { Ok(l) => l.idle(), Err(e) => e == RaknetError::BindAdressError },
@@ fn RaknetListener::from_std
    ensures match r { Ok(l) => l.idle(), Err(e) => e == RaknetError::SetRaknetRawSocketError },
@@ fn RaknetListener::start_session_collect ret=r
    ensures *final(self) == *old(self), *final(socket) == *old(socket), *final(sessions) == *old(sessions),
@@ top
// ---- the session collector
/// the session of an ended ticker is forgotten, and its peer told so
pub open spec fn collected(m0: Map<SocketAddr, SessionSender>, m1: Map<SocketAddr, SessionSender>, addr: SocketAddr, a: Seq<(Seq<u8>, SocketAddr)>, b: Seq<(Seq<u8>, SocketAddr)>) -> bool {
    m1 == m0.remove(addr) && b == (if m0.contains_key(addr) { a.push((seq![0x15u8], addr)) } else { a })
}
pub broadcast proof fn one_byte(a: [u8; 1])
    ensures #[trigger] a@ == seq![a@[0]],
{ assert(a@ =~= seq![a@[0]]); }
@@ fn RaknetListener::start_session_collect__step
    ensures
        if final(collect_receiver).got@.len() > old(collect_receiver).got@.len() {
            &&& flow is Continue && one_more(old(collect_receiver).got@, final(collect_receiver).got@) && one_more(old(sessions).past@, final(sessions).past@)
            &&& collected(final(sessions).past@.last().0@, final(sessions).past@.last().1@, final(collect_receiver).got@.last(), old(socket).sent@, final(socket).sent@)
        } else {
            // it stops when the listener is closed, or when nobody reports any more
            flow is Break && (final(close_notifier).closed@ || final(collect_receiver).ended@) && final(sessions).past == old(sessions).past && final(socket).sent == old(socket).sent
        },
        final(close_notifier).shut == old(close_notifier).shut,
@@@ sig
pub async fn start_session_collect__step(collect_receiver: &mut Receiver<SocketAddr>, close_notifier: &mut Semaphore, sessions: &mut Mutex<Sessions>, socket: &mut UdpSocket) -> (flow: Flow)
@@@ wiring
sessions = sessions
socket = socket
close_notifier = self.close_notifier
@@@ start
    broadcast use one_byte;
    proof { assert(forall|x: SocketAddr, m: Map<SocketAddr, SessionSender>| !m.contains_key(x) ==> #[trigger] m.remove(x) =~= m); }
@@ top
/// when the listener is closed: everybody who has a session is told so, and then no session is left and the closer is notified once
pub open spec fn told(sent: Seq<(Seq<u8>, SocketAddr)>, x: SocketAddr) -> bool { exists|k: int| 0 <= k < sent.len() && #[trigger] sent[k] == (seq![0x15u8], x) }
/// the session itself is asked to end, through the channel its datagrams come by (asked, or refused because it has ended)
pub open spec fn asked(sent: Seq<(Vec<u8>, bool)>) -> bool { exists|k: int| 0 <= k < sent.len() && (#[trigger] sent[k]).0@ == seq![0x15u8] }
/// the session has reported its end since
pub open spec fn reported(a: Seq<SocketAddr>, b: Seq<SocketAddr>, x: SocketAddr) -> bool { exists|k: int| a.len() <= k < b.len() && #[trigger] b[k] == x }
pub open spec fn extends(a: Seq<(Seq<u8>, SocketAddr)>, b: Seq<(Seq<u8>, SocketAddr)>) -> bool { a.len() <= b.len() && a =~= b.take(a.len() as int) }
@@ fn RaknetListener::start_session_collect__end attr=#[verifier::exec_allows_no_decreases_clause]
    ensures one_more(old(sessions).past@, final(sessions).past@), final(sessions).past@.last().1@ == Map::<SocketAddr, SessionSender>::empty(),
        final(all_session_closed_notifier).notified@ == old(all_session_closed_notifier).notified@ + 1,
        forall|x: SocketAddr| final(sessions).past@.last().0@.contains_key(x) ==> #[trigger] told(final(socket).sent@, x),
        // the closer waits until every session has ended (or none is left that could report it)
        final(collect_receiver).ended@ || (forall|x: SocketAddr| final(sessions).past@.last().0@.contains_key(x) ==> #[trigger] reported(old(collect_receiver).got@, final(collect_receiver).got@, x)),
@@@ sig
pub async fn start_session_collect__end(collect_receiver: &mut Receiver<SocketAddr>, all_session_closed_notifier: &mut Notify, sessions: &mut Mutex<Sessions>, socket: &mut UdpSocket) -> (r: ())
@@@ wiring
sessions = sessions
socket = socket
all_session_closed_notifier = self.all_session_closed_notifier
@@@ loops for while
@@@ loop 0 before
    let ghost m0 = sessions@;
    let ghost mut n: int = 0;
@@@ loop 0 bind it
@@@ loop 0 inv
    invariant n == it.index@, it.seq().to_set() == m0.dom(), sessions@.dom() == m0.dom(), forall|k: int| 0 <= k < n ==> told(socket.sent@, #[trigger] it.seq()[k]),
        forall|k: int| 0 <= k < n ==> asked(sessions@[#[trigger] it.seq()[k]].1.sent@),
    ensures forall|x: SocketAddr| m0.contains_key(x) ==> #[trigger] told(socket.sent@, x),
        sessions@.dom() == m0.dom(), forall|x: SocketAddr| m0.contains_key(x) ==> asked(#[trigger] sessions@[x].1.sent@),
@@@ loop 0 body-start
    let ghost s0 = socket.sent@;
    let ghost q0 = sessions@;
    let ghost ks = it.seq();
    proof { assert(ks.to_set().contains(ks[n])); assert(m0.dom().contains(vx_k)); }
@@@ loop 0 body-end
    proof {
        assert(socket.sent@[s0.len() as int] == (seq![0x15u8], vx_k));
        assert forall|x: SocketAddr| told(s0, x) implies #[trigger] told(socket.sent@, x) by {
            let k = choose|k: int| 0 <= k < s0.len() && #[trigger] s0[k] == (seq![0x15u8], x);
            assert(socket.sent@[k] == s0[k]);
        }
        let q1 = sessions@;
        let e0 = q0[vx_k].1.sent@;
        let e1 = q1[vx_k].1.sent@;
        assert(e1[e0.len() as int].0@ =~= seq![0x15u8]);
        assert(asked(e1));
        assert forall|k: int| 0 <= k < n implies asked(q1[#[trigger] ks[k]].1.sent@) by { assert(asked(q0[ks[k]].1.sent@)); }
        n = n + 1;
    }
@@@ loop 1 inv
    invariant forall|x: SocketAddr| m0.contains_key(x) ==> sessions@.contains_key(x) || #[trigger] reported(old(collect_receiver).got@, collect_receiver.got@, x), old(collect_receiver).got@.len() <= collect_receiver.got@.len(),
        forall|x: SocketAddr| m0.contains_key(x) ==> #[trigger] told(socket.sent@, x),
    ensures forall|x: SocketAddr| m0.contains_key(x) ==> #[trigger] told(socket.sent@, x),
        collect_receiver.ended@ || (forall|x: SocketAddr| m0.contains_key(x) ==> #[trigger] reported(old(collect_receiver).got@, collect_receiver.got@, x)),
@@@ loop 1 body-start
    let ghost s1 = socket.sent@;
    let ghost q1 = sessions@;
    let ghost g1 = collect_receiver.got@;
@@@ loop 1 body-end
    proof {
        let g2 = collect_receiver.got@;
        assert forall|x: SocketAddr| m0.contains_key(x) implies sessions@.contains_key(x) || #[trigger] reported(old(collect_receiver).got@, g2, x) by {
            if reported(old(collect_receiver).got@, g1, x) {
                let k = choose|k: int| old(collect_receiver).got@.len() <= k < g1.len() && #[trigger] g1[k] == x;
                assert(g2[k] == x);
            } else if !sessions@.contains_key(x) { assert(g2[g1.len() as int] == x); }
        }
        assert forall|x: SocketAddr| told(s1, x) implies #[trigger] told(socket.sent@, x) by {
            let k = choose|k: int| 0 <= k < s1.len() && #[trigger] s1[k] == (seq![0x15u8], x);
            assert(socket.sent@[k] == s1[k]);
        }
    }
@@ top
pub open spec fn defaulted(a: Seq<(String, String)>, b: Seq<(String, String)>) -> bool {
    if b.len() == a.len() + 1 { b == a.push(b.last()) && b.last().0 == b.last().1 && b.last().0@.len() > 0 }
    else { b == a.push(b[a.len() as int]).push(b.last()) && b[a.len() as int].0@.len() == 0 && b[a.len() as int].0 == b[a.len() as int].1 }
}
@@ fn RaknetListener::listen ret=r
    requires old(self).socket is Some || old(self).close_notifier.closed@,
    ensures final(self).guid == old(self).guid && final(self).socket == old(self).socket && final(self).connection_receiver == old(self).connection_receiver,
        // closed or listening already: nothing
        old(self).close_notifier.closed@ || old(self).listened ==> final(self).listened == old(self).listened && final(self).motd == old(self).motd,
        // otherwise it listens from now on; a message of the day of its own is set only where there is none
        !final(self).close_notifier.closed@ && !old(self).listened ==> final(self).listened && defaulted(old(self).motd.past@, final(self).motd.past@),
@@ top
pub type Sessions = std::collections::HashMap<SocketAddr, SessionSender>;
pub type Versions = std::collections::HashMap<String, u8>;
// ---- the listen worker, one datagram
/// what it did so far: datagrams sent, sections on the sessions and on the versions, connections handed to accept
pub struct Lst { pub sent: Seq<(Seq<u8>, SocketAddr)>, pub sess: Seq<(Sessions, Sessions)>, pub ver: Seq<(Versions, Versions)>, pub conn: Seq<(RaknetSocket, bool)>, pub looks: Seq<usize>, pub motd: Seq<(String, String)> }
pub open spec fn lst(s: UdpSocket, m: Mutex<Sessions>, v: Mutex<Versions>, c: Sender<RaknetSocket>, t: StdRwLock<String>) -> Lst { Lst { sent: s.sent@, sess: m.past@, ver: v.past@, conn: c.sent@, looks: c.looks@, motd: t.past@ } }
/// one datagram went out, to the address, nothing else changed
pub open spec fn answered(a: Lst, b: Lst, m: Seq<u8>, to: SocketAddr) -> bool { b.sent == a.sent.push((m, to)) }
pub open spec fn pong_of(guid: u64, motd: Seq<char>, m: Seq<u8>) -> bool { exists|p: PacketUnconnectedPong| #![auto] m == enc_PacketUnconnectedPong(p) && p.guid == guid && p.motd@ == motd }
pub open spec fn reply1_of(guid: u64, m: Seq<u8>) -> bool { exists|p: OpenConnectionReply1| #![auto] m == enc_OpenConnectionReply1(p) && p.guid == guid && p.use_encryption == 0 }
pub open spec fn incompatible_of(guid: u64, m: Seq<u8>) -> bool { exists|p: IncompatibleProtocolVersion| #![auto] m == enc_IncompatibleProtocolVersion(p) && p.server_guid == guid && p.server_protocol == 10 }
pub open spec fn already_of(guid: u64, m: Seq<u8>) -> bool { exists|p: AlreadyConnected| #![auto] m == enc_AlreadyConnected(p) && p.guid == guid }
/// the requested mtu and the requester's address
pub open spec fn reply2_of(guid: u64, addr: SocketAddr, d: Seq<u8>, m: Seq<u8>) -> bool {
    exists|p: OpenConnectionReply2| #![auto] m == enc_OpenConnectionReply2(p) && p.guid == guid && p.address == addr && p.encryption_enabled == 0 && asks_mtu(d, p.mtu)
}
pub open spec fn asks_mtu(d: Seq<u8>, mtu: u16) -> bool { be16(mtu) == cut(d, 17 + addr_len(d[17]), 2) }
pub open spec fn supported(v: u8) -> bool { v == 10 || v == 11 }
/// the version the address announced, 10 if none
pub open spec fn version_of(v: Map<String, u8>, addr: SocketAddr) -> u8 { if v.contains_key(addr_text(addr)) { v[addr_text(addr)] } else { 10 } }
/// the session of the address got d (or is gone); every other session is as it was
pub open spec fn forwarded(m0: Map<SocketAddr, SessionSender>, m1: Map<SocketAddr, SessionSender>, addr: SocketAddr, d: Seq<u8>) -> bool {
    &&& m1.dom() == m0.dom()
    &&& forall|x: SocketAddr| m0.contains_key(x) && x != addr ==> #[trigger] m1[x] == m0[x]
    &&& m0.contains_key(addr) ==> m1[addr].1.id == m0[addr].1.id && one_more(m0[addr].1.sent@, m1[addr].1.sent@) && m1[addr].1.sent@.last().0@ == d
}
/// exactly one session was opened, for addr, with the asked mtu and the announced version, and offered to accept
pub open spec fn opened(m0: Map<SocketAddr, SessionSender>, m1: Map<SocketAddr, SessionSender>, addr: SocketAddr, d: Seq<u8>, version: u8, a: Seq<(RaknetSocket, bool)>, b: Seq<(RaknetSocket, bool)>) -> bool {
    &&& m1.contains_key(addr) && m1 == m0.insert(addr, m1[addr]) && m1[addr].1.sent@.len() == 0
    &&& one_more(a, b) && b.last().0.peer_addr == addr && b.last().0.raknet_version == version
    &&& exists|mtu: u16| #[trigger] be16(mtu) == cut(d, 17 + addr_len(d[17]), 2) && b.last().0.fresh(mtu)
}
pub open spec fn listened(d: Seq<u8>, addr: SocketAddr, guid: u64, a: Lst, b: Lst) -> bool {
    if d.len() == 0 || !pid_known(d[0]) { b == a }
    else if d[0] == 0x01 || d[0] == 0x02 {
        if fits_PacketUnconnectedPing(d) {
            // the message of the day at this moment
            &&& one_more(a.motd, b.motd) && b.motd.last().1 == b.motd.last().0
            &&& pong_of(guid, b.motd.last().0@, b.sent.last().0) && b == (Lst { sent: a.sent.push((b.sent.last().0, addr)), motd: b.motd, ..a })
        } else { b == a }
    } else if d[0] == 0x05 {
        if !fits_OpenConnectionRequest1(d) { b == a }
        else if !supported(d[17]) { incompatible_of(guid, b.sent.last().0) && b == (Lst { sent: a.sent.push((b.sent.last().0, addr)), ..a }) }
        else {
            &&& reply1_of(guid, b.sent.last().0) && b == (Lst { sent: a.sent.push((b.sent.last().0, addr)), ver: b.ver, ..a })
            &&& one_more(a.ver, b.ver) && b.ver.last().1@ == b.ver.last().0@.insert(addr_text(addr), d[17])
        }
    } else if d[0] == 0x07 {
        if !fits_OpenConnectionRequest2(d) { b == a }
        else {
            let m0 = b.sess.last().0@; let m1 = b.sess.last().1@;
            &&& one_more(a.sess, b.sess)
            &&& if m0.contains_key(addr) { already_of(guid, b.sent.last().0) && b == (Lst { sent: a.sent.push((b.sent.last().0, addr)), sess: b.sess, ..a }) && m1 == m0 }
                else if one_more(a.looks, b.looks) && b.looks.last() == 0 {
                    // no room for another session that waits to be accepted: not answered, not opened
                    b == (Lst { sess: b.sess, looks: b.looks, ..a }) && m1 == m0
                } else {
                    &&& reply2_of(guid, addr, d, b.sent.last().0) && b.sent == a.sent.push((b.sent.last().0, addr))
                    &&& one_more(a.ver, b.ver) && b.ver.last().1 == b.ver.last().0
                    &&& opened(m0, m1, addr, d, version_of(b.ver.last().0@, addr), a.conn, b.conn)
                }
        }
    } else {
        // anything else: to the session of its address, unchanged
        let m0 = b.sess.last().0@; let m1 = b.sess.last().1@;
        &&& one_more(a.sess, b.sess) && b == (Lst { sess: b.sess, ..a })
        &&& forwarded(m0, m1, addr, d)
    }
}
pub broadcast proof fn insert_dom(m: Map<SocketAddr, SessionSender>, a: SocketAddr, v: SessionSender)
    requires m.contains_key(a),
    ensures #[trigger] m.insert(a, v).dom() == m.dom(),
{ assert(m.insert(a, v).dom() =~= m.dom()); }
pub proof fn versions()
    ensures forall|v: u8| #[trigger] RAKNET_PROTOCOL_VERSION_LIST@.contains(v) <==> supported(v),
{
    assert(RAKNET_PROTOCOL_VERSION_LIST@ =~= seq![10u8, 11u8]);
    assert forall|v: u8| #[trigger] RAKNET_PROTOCOL_VERSION_LIST@.contains(v) <==> supported(v) by {
        assert(RAKNET_PROTOCOL_VERSION_LIST@[0] == 10 && RAKNET_PROTOCOL_VERSION_LIST@[1] == 11);
    }
}
@@ fn RaknetListener::listen__step attr=#[verifier::rlimit(100)]#[verifier::spinoff_prover]
    ensures
        ({
            let a = lst(*old(socket), *old(sessions), *old(version_map), *old(connection_sender), *old(motd));
            let b = lst(*final(socket), *final(sessions), *final(version_map), *final(connection_sender), *final(motd));
            // a datagram of any content is dealt with and the worker goes on; it ends when the listener is closed or its socket fails
            if final(socket).got@.len() > old(socket).got@.len() {
                &&& flow is Continue && one_more(old(socket).got@, final(socket).got@)
                &&& listened(final(socket).got@.last().0, final(socket).got@.last().1, guid, a, b)
            } else { flow is Break && b == a }
        }),
@@@ sig
pub async fn listen__step(buf0: [u8; 2048], socket: &mut UdpSocket, guid: u64, sessions: &mut Mutex<Sessions>, connection_sender: &mut Sender<RaknetSocket>, motd: &mut StdRwLock<String>,
    collect_sender: &mut Mutex<Sender<SocketAddr>>, close_notify: &mut Semaphore, version_map: &mut Mutex<Versions>) -> (flow: Flow)
@@@ wiring
socket = self.socket.as_ref().unwrap()
guid = self.guid
sessions = self.sessions
connection_sender = self.connection_sender
motd = self.motd
collect_sender = Arc::new(Mutex::new(collect_sender))
close_notify = self.close_notifier
version_map = self.version_map
buf = [0u8; 2048]
@@@ start
    broadcast use insert_dom;
    proof { versions(); }
    let mut buf = buf0;
@@ fn RaknetListener::accept
    ensures match r {
            // the next opened session
            Ok(s) => old(self).listened && final(self).connection_receiver.got@ == old(self).connection_receiver.got@.push(s),
            Err(e) => e == RaknetError::NotListen && final(self).connection_receiver.got == old(self).connection_receiver.got
                && (!old(self).listened || final(self).close_notifier.closed@ || final(self).connection_receiver.ended@),
        },
@@ fn RaknetListener::set_motd ret=r
    ensures *final(self) == (RaknetListener { motd: final(self).motd, ..*old(self) }), one_more(old(self).motd.past@, final(self).motd.past@), final(self).motd.v == old(self).motd.v,
@@ fn RaknetListener::set_full_motd ret=r
    ensures r is Ok, *final(self) == (RaknetListener { motd: final(self).motd, ..*old(self) }),
        one_more(old(self).motd.past@, final(self).motd.past@) && final(self).motd.past@.last().1 == motd && final(self).motd.v == old(self).motd.v,
@@ fn RaknetListener::get_motd
    ensures *final(self) == (RaknetListener { motd: final(self).motd, ..*old(self) }), final(self).motd.v == old(self).motd.v,
        one_more(old(self).motd.past@, final(self).motd.past@) && final(self).motd.past@.last().1 == final(self).motd.past@.last().0 && r@ == final(self).motd.past@.last().0@,
@@ fn RaknetListener::local_addr
    ensures *final(self) == *old(self),
        match r { Ok(a) => old(self).socket is Some && a == old(self).socket->Some_0.addr@, Err(e) => old(self).socket is None && e == RaknetError::NotListen },
@@ fn RaknetListener::close attr=#[verifier::exec_allows_no_decreases_clause]
    requires old(self).socket is Some || old(self).close_notifier.closed@,
    ensures r is Ok, final(self).close_notifier.closed@,
        // the closer: gives up the sessions nobody accepted, waits for the collector to finish, then gives up the socket
        final(self).close_notifier.shut@ > old(self).close_notifier.shut@ ==> final(self).socket is None && !final(self).listened && final(self).connection_receiver.closed@ && final(self).connection_receiver.ended@ && alone(old(self).socket->0)
            && final(self).all_session_closed_notifier.waited@ == old(self).all_session_closed_notifier.waited@ + (if old(self).listened { 1int } else { 0 }),
        final(self).close_notifier.shut@ <= old(self).close_notifier.shut@ ==> old(self).close_notifier.shut@ == final(self).close_notifier.shut@ && *final(self) == (RaknetListener { close_notifier: final(self).close_notifier, ..*old(self) }),
@@@ loops while while
@@@ loop 0 inv
    invariant self.socket is Some, self.close_notifier.closed@, self.all_session_closed_notifier == old(self).all_session_closed_notifier, self.close_notifier.shut@ > old(self).close_notifier.shut@, self.listened == old(self).listened, self.connection_receiver.closed@, self.socket == old(self).socket,
    ensures self.connection_receiver.ended@,
@@@ loop 1 inv
    invariant self.connection_receiver.closed@, self.connection_receiver.ended@, self.socket == old(self).socket, self.socket is Some, self.close_notifier.closed@, self.all_session_closed_notifier.waited@ == old(self).all_session_closed_notifier.waited@ + (if old(self).listened { 1int } else { 0 }), self.close_notifier.shut@ > old(self).close_notifier.shut@,
@@ fn RaknetListener::get_peer_raknet_version
    ensures one_more(old(self).version_map.past@, final(self).version_map.past@), r == Result::<u8>::Ok(version_of(final(self).version_map.past@.last().0@, *peer)),
        final(self).version_map.past@.last().1 == final(self).version_map.past@.last().0,
@@ fn RaknetListener::drop_watcher__task
    ensures final(close_notifier).closed@, final(drop_notifier).waited@ == old(drop_notifier).waited@ + 1,
@@@ sig
pub async fn drop_watcher__task(close_notifier: &mut Semaphore, drop_notifier: &mut Notify) -> (r: ())
@@@ wiring
close_notifier = self.close_notifier
drop_notifier = self.drop_notifier
@@ fn RaknetListener::drop_watcher ret=r
    ensures *final(self) == *old(self),
@@ fn RaknetListener::drop
    // the drop watcher is told, once; it closes what is not closed yet
    ensures final(self).drop_notifier.notified@ == old(self).drop_notifier.notified@ + 1,
        *final(self) == (RaknetListener { drop_notifier: final(self).drop_notifier, ..*old(self) }),
