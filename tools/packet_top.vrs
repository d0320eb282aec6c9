use super::shim::*;
use super::wire::*;
use super::datatype::*;
use std::net::SocketAddr;

/// message ids of the protocol
pub open spec fn pid_value(p: PacketID) -> u8 {
    match p {
        PacketID::ConnectedPing => 0x00, PacketID::UnconnectedPing1 => 0x01, PacketID::UnconnectedPing2 => 0x02,
        PacketID::ConnectedPong => 0x03, PacketID::UnconnectedPong => 0x1c, PacketID::OpenConnectionRequest1 => 0x05,
        PacketID::OpenConnectionReply1 => 0x06, PacketID::OpenConnectionRequest2 => 0x07, PacketID::OpenConnectionReply2 => 0x08,
        PacketID::ConnectionRequest => 0x09, PacketID::ConnectionRequestAccepted => 0x10, PacketID::AlreadyConnected => 0x12,
        PacketID::NewIncomingConnection => 0x13, PacketID::Disconnect => 0x15, PacketID::IncompatibleProtocolVersion => 0x19,
        PacketID::FrameSetPacketBegin => 0x80, PacketID::FrameSetPacketEnd => 0x8d, PacketID::Nack => 0xa0, PacketID::Ack => 0xc0,
        PacketID::Game => 0xfe,
    }
}
/// ids 0x80..=0x8d all mean "data datagram"
pub open spec fn pid_matches(id: u8, p: PacketID) -> bool {
    if 0x80 <= id <= 0x8d { p == PacketID::FrameSetPacketBegin } else { pid_value(p) == id }
}
pub open spec fn pid_known(id: u8) -> bool {
    0x80 <= id <= 0x8d || id <= 3 || id == 0x1c || 5 <= id <= 9 || id == 0x10 || id == 0x12 || id == 0x13 || id == 0x15
        || id == 0x19 || id == 0xa0 || id == 0xc0 || id == 0xfe
}
pub broadcast proof fn seq_cat(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{ assert((a + b) + c =~= a + (b + c)); }

// ---- record lists of ack and nack
pub open spec fn le24_val(s: Seq<u8>) -> u32 { (s[0] as u32) | ((s[1] as u32) << 8) | ((s[2] as u32) << 16) }
pub broadcast proof fn le24_val_of(v: u32)
    requires v < 0x1000000,
    ensures le24_val(#[trigger] le24(v)) == v,
{
    assert(v < 0x1000000 ==> ((v & 0xff) as u8 as u32) | ((((v >> 8) & 0xff) as u8 as u32) << 8) | ((((v >> 16) & 0xff) as u8 as u32) << 16) == v) by (bit_vector);
}
pub open spec fn enc_rec(x: (u32, u32)) -> Seq<u8> {
    if x.0 == x.1 { seq![1u8] + le24(x.0) } else { seq![0u8] + le24(x.0) + le24(x.1) }
}
pub open spec fn enc_recs(s: Seq<(u32, u32)>) -> Seq<u8>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { enc_recs(s.drop_last()) + enc_rec(s.last()) } }
/// the n records that start at off: (records, offset behind them), None when they are cut short
pub open spec fn recs(d: Seq<u8>, off: int, n: nat) -> Option<(Seq<(u32, u32)>, int)>
    decreases n,
{
    if n == 0 { Some((Seq::empty(), off)) } else {
        match recs(d, off, (n - 1) as nat) {
            None => None,
            Some((s, e)) =>
                if e + 4 > d.len() { None }
                else if d[e] == 1 { Some((s.push((le24_val(cut(d, e + 1, 3)), le24_val(cut(d, e + 1, 3)))), e + 4)) }
                else if e + 7 > d.len() { None }
                else { Some((s.push((le24_val(cut(d, e + 1, 3)), le24_val(cut(d, e + 4, 3)))), e + 7)) },
        }
    }
}
pub proof fn recs_none(d: Seq<u8>, off: int, k: nat, n: nat)
    requires k <= n, recs(d, off, k) is None,
    ensures recs(d, off, n) is None,
    decreases n,
{ if n > k { recs_none(d, off, k, (n - 1) as nat); } }
pub proof fn recs_bound(d: Seq<u8>, off: int, n: nat)
    requires 0 <= off <= d.len(),
    ensures recs(d, off, n) is Some ==> off <= recs(d, off, n)->Some_0.1 <= d.len() && recs(d, off, n)->Some_0.0.len() == n,
    decreases n,
{ if n > 0 { recs_bound(d, off, (n - 1) as nat); } }
/// one more record is needed than is there: the whole list is cut short
pub proof fn list_step(d: Seq<u8>, count: u16, k: nat)
    requires k < count, d.len() >= 3, be16(count) == cut(d, 1, 2), recs(d, 3, k) is Some,
    ensures recs(d, 3, (k + 1) as nat) is None ==> !fits_list(d),
        recs(d, 3, (k + 1) as nat) == ({
            let s = recs(d, 3, k)->Some_0.0;
            let e = recs(d, 3, k)->Some_0.1;
            if e + 4 > d.len() { None }
            else if d[e] == 1 { Some((s.push((le24_val(cut(d, e + 1, 3)), le24_val(cut(d, e + 1, 3)))), e + 4)) }
            else if e + 7 > d.len() { None }
            else { Some((s.push((le24_val(cut(d, e + 1, 3)), le24_val(cut(d, e + 4, 3)))), e + 7)) }
        }),
{
    if recs(d, 3, (k + 1) as nat) is None {
        recs_none(d, 3, (k + 1) as nat, count as nat);
        assert forall|n: u16| #[trigger] be16(n) == cut(d, 1, 2) implies recs(d, 3, n as nat) is None by { be16_inj(n, count); }
    }
}
pub open spec fn recs24(s: Seq<(u32, u32)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 < 0x1000000 && s[i].1 < 0x1000000 }
pub proof fn recs_of_enc(d: Seq<u8>, off: int, s: Seq<(u32, u32)>)
    requires recs24(s), 0 <= off, off + enc_recs(s).len() <= d.len(), cut(d, off, enc_recs(s).len() as int) == enc_recs(s),
    ensures recs(d, off, s.len()) == Some((s, off + enc_recs(s).len())),
    decreases s.len(),
{
    if s.len() > 0 {
        let a = enc_recs(s.drop_last());
        let b = enc_rec(s.last());
        let x = s.last();
        assert(x == s[s.len() - 1]);
        let w = cut(d, off, enc_recs(s).len() as int);
        assert(cut(d, off, a.len() as int) =~= w.subrange(0, a.len() as int));
        assert(w.subrange(0, a.len() as int) =~= a);
        recs_of_enc(d, off, s.drop_last());
        let e = off + a.len();
        assert(cut(d, e, b.len() as int) =~= w.subrange(a.len() as int, w.len() as int));
        assert(w.subrange(a.len() as int, w.len() as int) =~= b);
        let v = cut(d, e, b.len() as int);
        assert(v[0] == d[e]);
        assert(cut(d, e + 1, 3) =~= v.subrange(1, 4));
        le24_val_of(x.0);
        le24_val_of(x.1);
        if x.0 == x.1 {
            assert(b.subrange(1, 4) =~= le24(x.0));
            assert(s.drop_last().push((x.0, x.0)) =~= s);
        } else {
            assert(b.subrange(1, 4) =~= le24(x.0));
            assert(cut(d, e + 4, 3) =~= v.subrange(4, 7));
            assert(b.subrange(4, 7) =~= le24(x.1));
            assert(s.drop_last().push((x.0, x.1)) =~= s);
        }
    } else {
        assert(s =~= Seq::empty());
    }
}
pub open spec fn enc_list(id: u8, count: u16, s: Seq<(u32, u32)>) -> Seq<u8> { seq![id] + be16(count) + enc_recs(s.take(count as int)) }
pub open spec fn list_ok(d: Seq<u8>, count: u16, s: Seq<(u32, u32)>) -> bool {
    d.len() >= 3 && be16(count) == cut(d, 1, 2) && recs(d, 3, count as nat) is Some && recs(d, 3, count as nat)->Some_0.0 == s
}
pub open spec fn fits_list(d: Seq<u8>) -> bool {
    d.len() >= 3 && exists|n: u16| #[trigger] be16(n) == cut(d, 1, 2) && recs(d, 3, n as nat) is Some
}
/// an encoded record list decodes to the same records
pub proof fn roundtrip_list(id: u8, count: u16, s: Seq<(u32, u32)>, rc: u16, rs: Seq<(u32, u32)>)
    requires s.len() == count, recs24(s),
    ensures fits_list(enc_list(id, count, s)), list_ok(enc_list(id, count, s), rc, rs) ==> rc == count && rs == s,
{
    let d = enc_list(id, count, s);
    assert(s.take(count as int) =~= s);
    assert(cut(d, 1, 2) =~= be16(count));
    be16_inj(rc, count);
    assert(cut(d, 3, enc_recs(s).len() as int) =~= enc_recs(s));
    recs_of_enc(d, 3, s);
}

// ---- the first open-connection request
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
pub open spec fn enc_OpenConnectionRequest1(p: OpenConnectionRequest1) -> Seq<u8> {
    seq![0x05u8] + raknet_magic() + seq![p.protocol_version] + zeros((p.mtu_size - 46) as nat)
}
pub open spec fn fits_OpenConnectionRequest1(d: Seq<u8>) -> bool { d.len() >= 18 }
pub open spec fn at_OpenConnectionRequest1(d: Seq<u8>, r: OpenConnectionRequest1) -> bool {
    r.magic == (cut(d, 1, 16) == raknet_magic()) && r.protocol_version == d[17] && r.mtu_size == d.len() + 28
}
pub proof fn roundtrip_OpenConnectionRequest1(p: OpenConnectionRequest1, r: OpenConnectionRequest1)
    requires p.mtu_size >= 46,
    ensures fits_OpenConnectionRequest1(enc_OpenConnectionRequest1(p)),
        enc_OpenConnectionRequest1(p).len() + 28 == p.mtu_size,
        at_OpenConnectionRequest1(enc_OpenConnectionRequest1(p), r) ==> r.magic && r.protocol_version == p.protocol_version && r.mtu_size == p.mtu_size,
{
    let d = enc_OpenConnectionRequest1(p);
    assert(cut(d, 1, 16) =~= raknet_magic());
}

// ---- messages with ten internal addresses
pub open spec fn any_addr() -> SocketAddr { parse_of::<SocketAddr>("255.255.255.255:19132"@)->Ok_0 }
pub open spec fn zero_addr() -> SocketAddr { parse_of::<SocketAddr>("0.0.0.0:0"@)->Ok_0 }
pub open spec fn rep_addr(a: SocketAddr, n: nat) -> Seq<u8>
    decreases n,
{ if n == 0 { Seq::empty() } else { rep_addr(a, (n - 1) as nat) + enc_addr(a) } }
pub open spec fn v4_bytes(a: u8, b: u8, c: u8, d: u8, port: u16) -> Seq<u8> { seq![4u8] + inv4(seq![a, b, c, d]) + be16(port) }
pub open spec fn enc_ConnectionRequestAccepted(p: ConnectionRequestAccepted) -> Seq<u8> {
    seq![0x10u8] + enc_addr(p.client_address) + be16(p.system_index) + rep_addr(any_addr(), 10)
        + be64(p.request_timestamp as u64) + be64(p.accepted_timestamp as u64)
}
pub open spec fn enc_NewIncomingConnection(p: NewIncomingConnection) -> Seq<u8> {
    seq![0x13u8] + enc_addr(p.server_address) + rep_addr(zero_addr(), 10)
        + be64(p.request_timestamp as u64) + be64(p.accepted_timestamp as u64)
}
/// where the n addresses that start at off end; None when they are cut short
pub open spec fn addrs_end(d: Seq<u8>, off: int, n: nat) -> Option<int>
    decreases n,
{
    if n == 0 { Some(off) } else {
        match addrs_end(d, off, (n - 1) as nat) {
            None => None,
            Some(e) => if addr_fits(d, e) { Some(e + addr_len(d[e])) } else { None },
        }
    }
}
pub proof fn addrs_none(d: Seq<u8>, off: int, k: nat, n: nat)
    requires k <= n, addrs_end(d, off, k) is None,
    ensures addrs_end(d, off, n) is None,
    decreases n,
{ if n > k { addrs_none(d, off, k, (n - 1) as nat); } }
pub open spec fn fits_ConnectionRequestAccepted(d: Seq<u8>) -> bool { addr_fits(d, 1) && d.len() >= 3 + addr_len(d[1]) }
pub open spec fn at_ConnectionRequestAccepted(d: Seq<u8>, r: ConnectionRequestAccepted) -> bool {
    addr_at(d, 1, r.client_address) && be16(r.system_index) == cut(d, 1 + addr_len(d[1]), 2)
}
pub open spec fn fits_NewIncomingConnection(d: Seq<u8>) -> bool {
    addrs_end(d, 1, 11) is Some && d.len() >= addrs_end(d, 1, 11)->Some_0 + 16
}
pub open spec fn at_NewIncomingConnection(d: Seq<u8>, r: NewIncomingConnection) -> bool {
    addr_at(d, 1, r.server_address)
        && be64(r.request_timestamp as u64) == cut(d, addrs_end(d, 1, 11)->Some_0, 8)
        && be64(r.accepted_timestamp as u64) == cut(d, addrs_end(d, 1, 11)->Some_0 + 8, 8)
}
pub proof fn roundtrip_ConnectionRequestAccepted(p: ConnectionRequestAccepted, r: ConnectionRequestAccepted)
    ensures fits_ConnectionRequestAccepted(enc_ConnectionRequestAccepted(p)),
        at_ConnectionRequestAccepted(enc_ConnectionRequestAccepted(p), r) ==>
            sa_ip(r.client_address) == sa_ip(p.client_address) && sa_port(r.client_address) == sa_port(p.client_address)
            && r.system_index == p.system_index,
{
    broadcast use group_addr;
    let d = enc_ConnectionRequestAccepted(p);
    let e = enc_addr(p.client_address);
    assert(cut(d, 1, e.len() as int) =~= e);
    addr_roundtrip(d, 1, p.client_address, r.client_address);
    assert(cut(d, 1 + addr_len(d[1]), 2) =~= be16(p.system_index));
    be16_inj(p.system_index, r.system_index);
}
/// the internal addresses written are the ones the protocol uses as fillers
pub proof fn fillers()
    ensures enc_addr(any_addr()) == v4_bytes(255, 255, 255, 255, 19132), enc_addr(zero_addr()) == v4_bytes(0, 0, 0, 0, 0),
{ parse_lits(); }
pub proof fn rep_addr_at(d: Seq<u8>, off: int, a: SocketAddr, off0: int, k: nat, n: nat)
    requires enc_addr(a).len() == 7, enc_addr(a)[0] == 4, 0 <= off, off + rep_addr(a, n).len() <= d.len(),
        cut(d, off, rep_addr(a, n).len() as int) == rep_addr(a, n),
        addrs_end(d, off0, k) == Some(off),
    ensures addrs_end(d, off0, k + n) == Some(off + 7 * n), rep_addr(a, n).len() == 7 * n,
    decreases n,
{
    if n > 0 {
        let m = (n - 1) as nat;
        let w = rep_addr(a, n);
        let u = rep_addr(a, m);
        assert(cut(d, off, u.len() as int) =~= cut(d, off, w.len() as int).subrange(0, u.len() as int));
        assert(w.subrange(0, u.len() as int) =~= u);
        rep_addr_at(d, off, a, off0, k, m);
        let e = off + 7 * m;
        assert(d[e] == cut(d, off, w.len() as int)[7 * m as int]);
        assert(w[7 * m as int] == enc_addr(a)[0]);
        assert((k + n) as nat - 1 == k + m);
    }
}
pub proof fn roundtrip_NewIncomingConnection(p: NewIncomingConnection, r: NewIncomingConnection)
    ensures fits_NewIncomingConnection(enc_NewIncomingConnection(p)),
        at_NewIncomingConnection(enc_NewIncomingConnection(p), r) ==>
            sa_ip(r.server_address) == sa_ip(p.server_address) && sa_port(r.server_address) == sa_port(p.server_address)
            && r.request_timestamp == p.request_timestamp && r.accepted_timestamp == p.accepted_timestamp,
{
    broadcast use group_addr;
    fillers();
    let d = enc_NewIncomingConnection(p);
    let e = enc_addr(p.server_address);
    let z = rep_addr(zero_addr(), 10);
    assert(cut(d, 1, e.len() as int) =~= e);
    addr_roundtrip(d, 1, p.server_address, r.server_address);
    assert(addrs_end(d, 1, 0) == Some(1int));
    assert(addrs_end(d, 1, 1) == Some(1 + e.len() as int));
    assert(cut(d, 1 + e.len() as int, z.len() as int) =~= z);
    rep_addr_at(d, 1 + e.len() as int, zero_addr(), 1, 1, 10);
    let o = 1 + e.len() as int + 70;
    assert(cut(d, o, 8) =~= be64(p.request_timestamp as u64));
    assert(cut(d, o + 8, 8) =~= be64(p.accepted_timestamp as u64));
    be64_inj(p.request_timestamp as u64, r.request_timestamp as u64);
    be64_inj(p.accepted_timestamp as u64, r.accepted_timestamp as u64);
    i64_as_u64_injective(p.request_timestamp, r.request_timestamp);
    i64_as_u64_injective(p.accepted_timestamp, r.accepted_timestamp);
}

// ---- the tables
