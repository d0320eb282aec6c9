@@ module packet drop-use=std::net
@@ top
use super::shim::*;
use super::wire::*;
use super::datatype::*;
use std::net::SocketAddr;

/// message ids of the protocol
pub open spec fn pid_value(p: PacketID) -> u8 {
    match p {
        PacketID::ConnectedPing => 0x00, PacketID::UnconnectedPing1 => 0x01, PacketID::UnconnectedPing2 => 0x02,
        PacketID::ConnectedPong => 0x03, PacketID::UnconnectedPong => 0x1c, PacketID::OpenConnectionRequest1 => 0x05,
        PacketID::OpenConnectionReply1 => 0x06, PacketID::OpenConnectionRequest2 => 0x07, PacketID::OpenConnectionReply2 => 0x08,
        PacketID::ConnectionRequest => 0x09, PacketID::ConnectionRequestAccepted => 0x10, PacketID::AlreadyConnected => 0x12,
        PacketID::NewIncomingConnection => 0x13, PacketID::Disconnect => 0x15, PacketID::IncompatibleProtocolVersion => 0x19,
        PacketID::FrameSetPacketBegin => 0x80, PacketID::FrameSetPacketEnd => 0x8d, PacketID::Nack => 0xa0, PacketID::Ack => 0xc0,
        PacketID::Game => 0xfe,
    }
}
/// ids 0x80..=0x8d all mean "data datagram"
pub open spec fn pid_matches(id: u8, p: PacketID) -> bool {
    if 0x80 <= id <= 0x8d { p == PacketID::FrameSetPacketBegin } else { pid_value(p) == id }
}
pub open spec fn pid_known(id: u8) -> bool {
    0x80 <= id <= 0x8d || id <= 3 || id == 0x1c || 5 <= id <= 9 || id == 0x10 || id == 0x12 || id == 0x13 || id == 0x15
        || id == 0x19 || id == 0xa0 || id == 0xc0 || id == 0xfe
}
pub broadcast proof fn seq_cat(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{ assert((a + b) + c =~= a + (b + c)); }

// ---- record lists of ack and nack
pub open spec fn le24_val(s: Seq<u8>) -> u32 { (s[0] as u32) | ((s[1] as u32) << 8) | ((s[2] as u32) << 16) }
pub broadcast proof fn le24_val_of(v: u32)
    requires v < 0x1000000,
    ensures le24_val(#[trigger] le24(v)) == v,
{
    assert(v < 0x1000000 ==> ((v & 0xff) as u8 as u32) | ((((v >> 8) & 0xff) as u8 as u32) << 8) | ((((v >> 16) & 0xff) as u8 as u32) << 16) == v) by (bit_vector);
}
pub open spec fn enc_rec(x: (u32, u32)) -> Seq<u8> {
    if x.0 == x.1 { seq![1u8] + le24(x.0) } else { seq![0u8] + le24(x.0) + le24(x.1) }
}
pub open spec fn enc_recs(s: Seq<(u32, u32)>) -> Seq<u8>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { enc_recs(s.drop_last()) + enc_rec(s.last()) } }
/// the n records that start at off: (records, offset behind them), None when they are cut short
pub open spec fn recs(d: Seq<u8>, off: int, n: nat) -> Option<(Seq<(u32, u32)>, int)>
    decreases n,
{
    if n == 0 { Some((Seq::empty(), off)) } else {
        match recs(d, off, (n - 1) as nat) {
            None => None,
            Some((s, e)) =>
                if e + 4 > d.len() { None }
                else if d[e] == 1 { Some((s.push((le24_val(cut(d, e + 1, 3)), le24_val(cut(d, e + 1, 3)))), e + 4)) }
                else if e + 7 > d.len() { None }
                else { Some((s.push((le24_val(cut(d, e + 1, 3)), le24_val(cut(d, e + 4, 3)))), e + 7)) },
        }
    }
}
pub proof fn recs_none(d: Seq<u8>, off: int, k: nat, n: nat)
    requires k <= n, recs(d, off, k) is None,
    ensures recs(d, off, n) is None,
    decreases n,
{ if n > k { recs_none(d, off, k, (n - 1) as nat); } }
pub proof fn recs_bound(d: Seq<u8>, off: int, n: nat)
    requires 0 <= off <= d.len(),
    ensures recs(d, off, n) is Some ==> off <= recs(d, off, n)->Some_0.1 <= d.len() && recs(d, off, n)->Some_0.0.len() == n,
    decreases n,
{ if n > 0 { recs_bound(d, off, (n - 1) as nat); } }
/// one more record is needed than is there: the whole list is cut short
pub proof fn list_step(d: Seq<u8>, count: u16, k: nat)
    requires k < count, d.len() >= 3, be16(count) == cut(d, 1, 2), recs(d, 3, k) is Some,
    ensures recs(d, 3, (k + 1) as nat) is None ==> !fits_list(d),
        recs(d, 3, (k + 1) as nat) == ({
            let s = recs(d, 3, k)->Some_0.0;
            let e = recs(d, 3, k)->Some_0.1;
            if e + 4 > d.len() { None }
            else if d[e] == 1 { Some((s.push((le24_val(cut(d, e + 1, 3)), le24_val(cut(d, e + 1, 3)))), e + 4)) }
            else if e + 7 > d.len() { None }
            else { Some((s.push((le24_val(cut(d, e + 1, 3)), le24_val(cut(d, e + 4, 3)))), e + 7)) }
        }),
{
    if recs(d, 3, (k + 1) as nat) is None {
        recs_none(d, 3, (k + 1) as nat, count as nat);
        assert forall|n: u16| #[trigger] be16(n) == cut(d, 1, 2) implies recs(d, 3, n as nat) is None by { be16_inj(n, count); }
    }
}
pub open spec fn recs24(s: Seq<(u32, u32)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 < 0x1000000 && s[i].1 < 0x1000000 }
pub proof fn recs_of_enc(d: Seq<u8>, off: int, s: Seq<(u32, u32)>)
    requires recs24(s), 0 <= off, off + enc_recs(s).len() <= d.len(), cut(d, off, enc_recs(s).len() as int) == enc_recs(s),
    ensures recs(d, off, s.len()) == Some((s, off + enc_recs(s).len())),
    decreases s.len(),
{
    if s.len() > 0 {
        let a = enc_recs(s.drop_last());
        let b = enc_rec(s.last());
        let x = s.last();
        assert(x == s[s.len() - 1]);
        let w = cut(d, off, enc_recs(s).len() as int);
        assert(cut(d, off, a.len() as int) =~= w.subrange(0, a.len() as int));
        assert(w.subrange(0, a.len() as int) =~= a);
        recs_of_enc(d, off, s.drop_last());
        let e = off + a.len();
        assert(cut(d, e, b.len() as int) =~= w.subrange(a.len() as int, w.len() as int));
        assert(w.subrange(a.len() as int, w.len() as int) =~= b);
        let v = cut(d, e, b.len() as int);
        assert(v[0] == d[e]);
        assert(cut(d, e + 1, 3) =~= v.subrange(1, 4));
        le24_val_of(x.0);
        le24_val_of(x.1);
        if x.0 == x.1 {
            assert(b.subrange(1, 4) =~= le24(x.0));
            assert(s.drop_last().push((x.0, x.0)) =~= s);
        } else {
            assert(b.subrange(1, 4) =~= le24(x.0));
            assert(cut(d, e + 4, 3) =~= v.subrange(4, 7));
            assert(b.subrange(4, 7) =~= le24(x.1));
            assert(s.drop_last().push((x.0, x.1)) =~= s);
        }
    } else {
        assert(s =~= Seq::empty());
    }
}
pub open spec fn enc_list(id: u8, count: u16, s: Seq<(u32, u32)>) -> Seq<u8> { seq![id] + be16(count) + enc_recs(s.take(count as int)) }
pub open spec fn list_ok(d: Seq<u8>, count: u16, s: Seq<(u32, u32)>) -> bool {
    d.len() >= 3 && be16(count) == cut(d, 1, 2) && recs(d, 3, count as nat) is Some && recs(d, 3, count as nat)->Some_0.0 == s
}
pub open spec fn fits_list(d: Seq<u8>) -> bool {
    d.len() >= 3 && exists|n: u16| #[trigger] be16(n) == cut(d, 1, 2) && recs(d, 3, n as nat) is Some
}
/// an encoded record list decodes to the same records
pub proof fn roundtrip_list(id: u8, count: u16, s: Seq<(u32, u32)>, rc: u16, rs: Seq<(u32, u32)>)
    requires s.len() == count, recs24(s),
    ensures fits_list(enc_list(id, count, s)), list_ok(enc_list(id, count, s), rc, rs) ==> rc == count && rs == s,
{
    let d = enc_list(id, count, s);
    assert(s.take(count as int) =~= s);
    assert(cut(d, 1, 2) =~= be16(count));
    be16_inj(rc, count);
    assert(cut(d, 3, enc_recs(s).len() as int) =~= enc_recs(s));
    recs_of_enc(d, 3, s);
}

// ---- the first open-connection request
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
pub open spec fn enc_OpenConnectionRequest1(p: OpenConnectionRequest1) -> Seq<u8> {
    seq![0x05u8] + raknet_magic() + seq![p.protocol_version] + zeros((p.mtu_size - 46) as nat)
}
pub open spec fn fits_OpenConnectionRequest1(d: Seq<u8>) -> bool { d.len() >= 18 }
pub open spec fn at_OpenConnectionRequest1(d: Seq<u8>, r: OpenConnectionRequest1) -> bool {
    r.magic == (cut(d, 1, 16) == raknet_magic()) && r.protocol_version == d[17] && r.mtu_size == d.len() + 28
}
pub proof fn roundtrip_OpenConnectionRequest1(p: OpenConnectionRequest1, r: OpenConnectionRequest1)
    requires p.mtu_size >= 46,
    ensures fits_OpenConnectionRequest1(enc_OpenConnectionRequest1(p)),
        enc_OpenConnectionRequest1(p).len() + 28 == p.mtu_size,
        at_OpenConnectionRequest1(enc_OpenConnectionRequest1(p), r) ==> r.magic && r.protocol_version == p.protocol_version && r.mtu_size == p.mtu_size,
{
    let d = enc_OpenConnectionRequest1(p);
    assert(cut(d, 1, 16) =~= raknet_magic());
}

// ---- messages with ten internal addresses
pub open spec fn any_addr() -> SocketAddr { parse_of::<SocketAddr>("255.255.255.255:19132"@)->Ok_0 }
pub open spec fn zero_addr() -> SocketAddr { parse_of::<SocketAddr>("0.0.0.0:0"@)->Ok_0 }
pub open spec fn rep_addr(a: SocketAddr, n: nat) -> Seq<u8>
    decreases n,
{ if n == 0 { Seq::empty() } else { rep_addr(a, (n - 1) as nat) + enc_addr(a) } }
pub open spec fn v4_bytes(a: u8, b: u8, c: u8, d: u8, port: u16) -> Seq<u8> { seq![4u8] + inv4(seq![a, b, c, d]) + be16(port) }
pub open spec fn enc_ConnectionRequestAccepted(p: ConnectionRequestAccepted) -> Seq<u8> {
    seq![0x10u8] + enc_addr(p.client_address) + be16(p.system_index) + rep_addr(any_addr(), 10)
        + be64(p.request_timestamp as u64) + be64(p.accepted_timestamp as u64)
}
pub open spec fn enc_NewIncomingConnection(p: NewIncomingConnection) -> Seq<u8> {
    seq![0x13u8] + enc_addr(p.server_address) + rep_addr(zero_addr(), 10)
        + be64(p.request_timestamp as u64) + be64(p.accepted_timestamp as u64)
}
/// where the n addresses that start at off end; None when they are cut short
pub open spec fn addrs_end(d: Seq<u8>, off: int, n: nat) -> Option<int>
    decreases n,
{
    if n == 0 { Some(off) } else {
        match addrs_end(d, off, (n - 1) as nat) {
            None => None,
            Some(e) => if addr_fits(d, e) { Some(e + addr_len(d[e])) } else { None },
        }
    }
}
pub proof fn addrs_none(d: Seq<u8>, off: int, k: nat, n: nat)
    requires k <= n, addrs_end(d, off, k) is None,
    ensures addrs_end(d, off, n) is None,
    decreases n,
{ if n > k { addrs_none(d, off, k, (n - 1) as nat); } }
pub open spec fn fits_ConnectionRequestAccepted(d: Seq<u8>) -> bool { addr_fits(d, 1) && d.len() >= 3 + addr_len(d[1]) }
pub open spec fn at_ConnectionRequestAccepted(d: Seq<u8>, r: ConnectionRequestAccepted) -> bool {
    addr_at(d, 1, r.client_address) && be16(r.system_index) == cut(d, 1 + addr_len(d[1]), 2)
}
pub open spec fn fits_NewIncomingConnection(d: Seq<u8>) -> bool {
    addrs_end(d, 1, 11) is Some && d.len() >= addrs_end(d, 1, 11)->Some_0 + 16
}
pub open spec fn at_NewIncomingConnection(d: Seq<u8>, r: NewIncomingConnection) -> bool {
    addr_at(d, 1, r.server_address)
        && be64(r.request_timestamp as u64) == cut(d, addrs_end(d, 1, 11)->Some_0, 8)
        && be64(r.accepted_timestamp as u64) == cut(d, addrs_end(d, 1, 11)->Some_0 + 8, 8)
}
pub proof fn roundtrip_ConnectionRequestAccepted(p: ConnectionRequestAccepted, r: ConnectionRequestAccepted)
    ensures fits_ConnectionRequestAccepted(enc_ConnectionRequestAccepted(p)),
        at_ConnectionRequestAccepted(enc_ConnectionRequestAccepted(p), r) ==>
            sa_ip(r.client_address) == sa_ip(p.client_address) && sa_port(r.client_address) == sa_port(p.client_address)
            && r.system_index == p.system_index,
{
    broadcast use group_addr;
    let d = enc_ConnectionRequestAccepted(p);
    let e = enc_addr(p.client_address);
    assert(cut(d, 1, e.len() as int) =~= e);
    addr_roundtrip(d, 1, p.client_address, r.client_address);
    assert(cut(d, 1 + addr_len(d[1]), 2) =~= be16(p.system_index));
    be16_inj(p.system_index, r.system_index);
}
/// the internal addresses written are the ones the protocol uses as fillers
pub proof fn fillers()
    ensures enc_addr(any_addr()) == v4_bytes(255, 255, 255, 255, 19132), enc_addr(zero_addr()) == v4_bytes(0, 0, 0, 0, 0),
{ parse_lits(); }
pub proof fn rep_addr_at(d: Seq<u8>, off: int, a: SocketAddr, off0: int, k: nat, n: nat)
    requires enc_addr(a).len() == 7, enc_addr(a)[0] == 4, 0 <= off, off + rep_addr(a, n).len() <= d.len(),
        cut(d, off, rep_addr(a, n).len() as int) == rep_addr(a, n),
        addrs_end(d, off0, k) == Some(off),
    ensures addrs_end(d, off0, k + n) == Some(off + 7 * n), rep_addr(a, n).len() == 7 * n,
    decreases n,
{
    if n > 0 {
        let m = (n - 1) as nat;
        let w = rep_addr(a, n);
        let u = rep_addr(a, m);
        assert(cut(d, off, u.len() as int) =~= cut(d, off, w.len() as int).subrange(0, u.len() as int));
        assert(w.subrange(0, u.len() as int) =~= u);
        rep_addr_at(d, off, a, off0, k, m);
        let e = off + 7 * m;
        assert(d[e] == cut(d, off, w.len() as int)[7 * m as int]);
        assert(w[7 * m as int] == enc_addr(a)[0]);
        assert((k + n) as nat - 1 == k + m);
    }
}
pub proof fn roundtrip_NewIncomingConnection(p: NewIncomingConnection, r: NewIncomingConnection)
    ensures fits_NewIncomingConnection(enc_NewIncomingConnection(p)),
        at_NewIncomingConnection(enc_NewIncomingConnection(p), r) ==>
            sa_ip(r.server_address) == sa_ip(p.server_address) && sa_port(r.server_address) == sa_port(p.server_address)
            && r.request_timestamp == p.request_timestamp && r.accepted_timestamp == p.accepted_timestamp,
{
    broadcast use group_addr;
    fillers();
    let d = enc_NewIncomingConnection(p);
    let e = enc_addr(p.server_address);
    let z = rep_addr(zero_addr(), 10);
    assert(cut(d, 1, e.len() as int) =~= e);
    addr_roundtrip(d, 1, p.server_address, r.server_address);
    assert(addrs_end(d, 1, 0) == Some(1int));
    assert(addrs_end(d, 1, 1) == Some(1 + e.len() as int));
    assert(cut(d, 1 + e.len() as int, z.len() as int) =~= z);
    rep_addr_at(d, 1 + e.len() as int, zero_addr(), 1, 1, 10);
    let o = 1 + e.len() as int + 70;
    assert(cut(d, o, 8) =~= be64(p.request_timestamp as u64));
    assert(cut(d, o + 8, 8) =~= be64(p.accepted_timestamp as u64));
    be64_inj(p.request_timestamp as u64, r.request_timestamp as u64);
    be64_inj(p.accepted_timestamp as u64, r.accepted_timestamp as u64);
    i64_as_u64_injective(p.request_timestamp, r.request_timestamp);
    i64_as_u64_injective(p.accepted_timestamp, r.accepted_timestamp);
}

// ---- the tables
/// PacketUnconnectedPing: id 0x01; time:i64, magic:magic, guid:u64
pub open spec fn enc_PacketUnconnectedPing(p: PacketUnconnectedPing) -> Seq<u8> { seq![0x01u8] + be64(p.time as u64) + raknet_magic() + be64(p.guid) }
pub open spec fn fits_PacketUnconnectedPing(d: Seq<u8>) -> bool { d.len() >= 33 }
pub open spec fn at_PacketUnconnectedPing(d: Seq<u8>, r: PacketUnconnectedPing) -> bool { be64(r.time as u64) == cut(d, 1, 8) && r.magic == (cut(d, 9, 16) == raknet_magic()) && be64(r.guid) == cut(d, 25, 8) }
pub proof fn roundtrip_PacketUnconnectedPing(p: PacketUnconnectedPing, r: PacketUnconnectedPing)
    ensures fits_PacketUnconnectedPing(enc_PacketUnconnectedPing(p)),
        at_PacketUnconnectedPing(enc_PacketUnconnectedPing(p), r) ==> r.time == p.time && r.magic && r.guid == p.guid,
{
    let d = enc_PacketUnconnectedPing(p);
    assert(cut(d, 1, 8) =~= be64(p.time as u64));
    be64_inj(p.time as u64, r.time as u64); i64_as_u64_injective(p.time, r.time);
    assert(cut(d, 9, 16) =~= raknet_magic());
    assert(cut(d, 25, 8) =~= be64(p.guid));
    be64_inj(p.guid, r.guid);
}
/// PacketUnconnectedPong: id 0x1c; time:i64, guid:u64, magic:magic, motd:str
pub open spec fn enc_PacketUnconnectedPong(p: PacketUnconnectedPong) -> Seq<u8> { seq![0x1cu8] + be64(p.time as u64) + be64(p.guid) + raknet_magic() + be16(utf8(p.motd@).len() as u16) + utf8(p.motd@) }
pub open spec fn fits_PacketUnconnectedPong(d: Seq<u8>) -> bool { d.len() >= 33 + 2 && (exists|n: u16| #[trigger] be16(n) == cut(d, 33, 2) && d.len() >= 33 + 2 + n && is_utf8(cut(d, (33 + 2) as int, n as int))) }
pub open spec fn at_PacketUnconnectedPong(d: Seq<u8>, r: PacketUnconnectedPong) -> bool { be64(r.time as u64) == cut(d, 1, 8) && be64(r.guid) == cut(d, 9, 8) && r.magic == (cut(d, 17, 16) == raknet_magic()) && be16(utf8(r.motd@).len() as u16) == cut(d, 33, 2) && utf8(r.motd@).len() <= 65535 && utf8(r.motd@) == cut(d, (33 + 2) as int, utf8(r.motd@).len() as int) }
pub proof fn roundtrip_PacketUnconnectedPong(p: PacketUnconnectedPong, r: PacketUnconnectedPong)
    requires utf8(p.motd@).len() <= 65535,
    ensures fits_PacketUnconnectedPong(enc_PacketUnconnectedPong(p)),
        at_PacketUnconnectedPong(enc_PacketUnconnectedPong(p), r) ==> r.time == p.time && r.guid == p.guid && r.magic && r.motd@ == p.motd@,
{
    let d = enc_PacketUnconnectedPong(p);
    assert(cut(d, 1, 8) =~= be64(p.time as u64));
    be64_inj(p.time as u64, r.time as u64); i64_as_u64_injective(p.time, r.time);
    assert(cut(d, 9, 8) =~= be64(p.guid));
    be64_inj(p.guid, r.guid);
    assert(cut(d, 17, 16) =~= raknet_magic());
    let u = utf8(p.motd@); assert(cut(d, 33, 2) =~= be16(u.len() as u16)); assert(cut(d, (33 + 2) as int, u.len() as int) =~= u);
    utf8_injective(p.motd@, r.motd@); be16_inj(u.len() as u16, utf8(r.motd@).len() as u16);
}
/// OpenConnectionRequest2: id 0x07; magic:magic, address:addr, mtu:u16, guid:u64
pub open spec fn enc_OpenConnectionRequest2(p: OpenConnectionRequest2) -> Seq<u8> { seq![0x07u8] + raknet_magic() + enc_addr(p.address) + be16(p.mtu) + be64(p.guid) }
pub open spec fn fits_OpenConnectionRequest2(d: Seq<u8>) -> bool { addr_fits(d, 17) && d.len() >= 27 + addr_len(d[17]) }
pub open spec fn at_OpenConnectionRequest2(d: Seq<u8>, r: OpenConnectionRequest2) -> bool { r.magic == (cut(d, 1, 16) == raknet_magic()) && addr_at(d, 17, r.address) && be16(r.mtu) == cut(d, 17 + addr_len(d[17]), 2) && be64(r.guid) == cut(d, 19 + addr_len(d[17]), 8) }
pub proof fn roundtrip_OpenConnectionRequest2(p: OpenConnectionRequest2, r: OpenConnectionRequest2)
    ensures fits_OpenConnectionRequest2(enc_OpenConnectionRequest2(p)),
        at_OpenConnectionRequest2(enc_OpenConnectionRequest2(p), r) ==> r.magic && sa_ip(r.address) == sa_ip(p.address) && sa_port(r.address) == sa_port(p.address) && r.mtu == p.mtu && r.guid == p.guid,
{
    let d = enc_OpenConnectionRequest2(p);
    broadcast use group_addr;
    assert(cut(d, 1, 16) =~= raknet_magic());
    let e = enc_addr(p.address); assert(cut(d, 17, e.len() as int) =~= e); addr_roundtrip(d, 17, p.address, r.address);
    assert(cut(d, 17 + addr_len(d[17]), 2) =~= be16(p.mtu));
    be16_inj(p.mtu, r.mtu);
    assert(cut(d, 19 + addr_len(d[17]), 8) =~= be64(p.guid));
    be64_inj(p.guid, r.guid);
}
/// OpenConnectionReply1: id 0x06; magic:magic, guid:u64, use_encryption:u8, mtu_size:u16
pub open spec fn enc_OpenConnectionReply1(p: OpenConnectionReply1) -> Seq<u8> { seq![0x06u8] + raknet_magic() + be64(p.guid) + seq![p.use_encryption] + be16(p.mtu_size) }
pub open spec fn fits_OpenConnectionReply1(d: Seq<u8>) -> bool { d.len() >= 28 }
pub open spec fn at_OpenConnectionReply1(d: Seq<u8>, r: OpenConnectionReply1) -> bool { r.magic == (cut(d, 1, 16) == raknet_magic()) && be64(r.guid) == cut(d, 17, 8) && r.use_encryption == d[25] && be16(r.mtu_size) == cut(d, 26, 2) }
pub proof fn roundtrip_OpenConnectionReply1(p: OpenConnectionReply1, r: OpenConnectionReply1)
    ensures fits_OpenConnectionReply1(enc_OpenConnectionReply1(p)),
        at_OpenConnectionReply1(enc_OpenConnectionReply1(p), r) ==> r.magic && r.guid == p.guid && r.use_encryption == p.use_encryption && r.mtu_size == p.mtu_size,
{
    let d = enc_OpenConnectionReply1(p);
    assert(cut(d, 1, 16) =~= raknet_magic());
    assert(cut(d, 17, 8) =~= be64(p.guid));
    be64_inj(p.guid, r.guid);
    assert(d[25] == p.use_encryption);
    assert(cut(d, 26, 2) =~= be16(p.mtu_size));
    be16_inj(p.mtu_size, r.mtu_size);
}
/// OpenConnectionReply2: id 0x08; magic:magic, guid:u64, address:addr, mtu:u16, encryption_enabled:u8
pub open spec fn enc_OpenConnectionReply2(p: OpenConnectionReply2) -> Seq<u8> { seq![0x08u8] + raknet_magic() + be64(p.guid) + enc_addr(p.address) + be16(p.mtu) + seq![p.encryption_enabled] }
pub open spec fn fits_OpenConnectionReply2(d: Seq<u8>) -> bool { addr_fits(d, 25) && d.len() >= 28 + addr_len(d[25]) }
pub open spec fn at_OpenConnectionReply2(d: Seq<u8>, r: OpenConnectionReply2) -> bool { r.magic == (cut(d, 1, 16) == raknet_magic()) && be64(r.guid) == cut(d, 17, 8) && addr_at(d, 25, r.address) && be16(r.mtu) == cut(d, 25 + addr_len(d[25]), 2) && r.encryption_enabled == d[27 + addr_len(d[25])] }
pub proof fn roundtrip_OpenConnectionReply2(p: OpenConnectionReply2, r: OpenConnectionReply2)
    ensures fits_OpenConnectionReply2(enc_OpenConnectionReply2(p)),
        at_OpenConnectionReply2(enc_OpenConnectionReply2(p), r) ==> r.magic && r.guid == p.guid && sa_ip(r.address) == sa_ip(p.address) && sa_port(r.address) == sa_port(p.address) && r.mtu == p.mtu && r.encryption_enabled == p.encryption_enabled,
{
    let d = enc_OpenConnectionReply2(p);
    broadcast use group_addr;
    assert(cut(d, 1, 16) =~= raknet_magic());
    assert(cut(d, 17, 8) =~= be64(p.guid));
    be64_inj(p.guid, r.guid);
    let e = enc_addr(p.address); assert(cut(d, 25, e.len() as int) =~= e); addr_roundtrip(d, 25, p.address, r.address);
    assert(cut(d, 25 + addr_len(d[25]), 2) =~= be16(p.mtu));
    be16_inj(p.mtu, r.mtu);
    assert(d[27 + addr_len(d[25])] == p.encryption_enabled);
}
/// AlreadyConnected: id 0x12; magic:magic, guid:u64
pub open spec fn enc_AlreadyConnected(p: AlreadyConnected) -> Seq<u8> { seq![0x12u8] + raknet_magic() + be64(p.guid) }
pub open spec fn fits_AlreadyConnected(d: Seq<u8>) -> bool { d.len() >= 25 }
pub open spec fn at_AlreadyConnected(d: Seq<u8>, r: AlreadyConnected) -> bool { r.magic == (cut(d, 1, 16) == raknet_magic()) && be64(r.guid) == cut(d, 17, 8) }
pub proof fn roundtrip_AlreadyConnected(p: AlreadyConnected, r: AlreadyConnected)
    ensures fits_AlreadyConnected(enc_AlreadyConnected(p)),
        at_AlreadyConnected(enc_AlreadyConnected(p), r) ==> r.magic && r.guid == p.guid,
{
    let d = enc_AlreadyConnected(p);
    assert(cut(d, 1, 16) =~= raknet_magic());
    assert(cut(d, 17, 8) =~= be64(p.guid));
    be64_inj(p.guid, r.guid);
}
/// IncompatibleProtocolVersion: id 0x19; server_protocol:u8, magic:magic, server_guid:u64
pub open spec fn enc_IncompatibleProtocolVersion(p: IncompatibleProtocolVersion) -> Seq<u8> { seq![0x19u8] + seq![p.server_protocol] + raknet_magic() + be64(p.server_guid) }
pub open spec fn fits_IncompatibleProtocolVersion(d: Seq<u8>) -> bool { d.len() >= 26 }
pub open spec fn at_IncompatibleProtocolVersion(d: Seq<u8>, r: IncompatibleProtocolVersion) -> bool { r.server_protocol == d[1] && r.magic == (cut(d, 2, 16) == raknet_magic()) && be64(r.server_guid) == cut(d, 18, 8) }
pub proof fn roundtrip_IncompatibleProtocolVersion(p: IncompatibleProtocolVersion, r: IncompatibleProtocolVersion)
    ensures fits_IncompatibleProtocolVersion(enc_IncompatibleProtocolVersion(p)),
        at_IncompatibleProtocolVersion(enc_IncompatibleProtocolVersion(p), r) ==> r.server_protocol == p.server_protocol && r.magic && r.server_guid == p.server_guid,
{
    let d = enc_IncompatibleProtocolVersion(p);
    assert(d[1] == p.server_protocol);
    assert(cut(d, 2, 16) =~= raknet_magic());
    assert(cut(d, 18, 8) =~= be64(p.server_guid));
    be64_inj(p.server_guid, r.server_guid);
}
/// ConnectionRequest: id 0x09; guid:u64, time:i64, use_encryption:u8
pub open spec fn enc_ConnectionRequest(p: ConnectionRequest) -> Seq<u8> { seq![0x09u8] + be64(p.guid) + be64(p.time as u64) + seq![p.use_encryption] }
pub open spec fn fits_ConnectionRequest(d: Seq<u8>) -> bool { d.len() >= 18 }
pub open spec fn at_ConnectionRequest(d: Seq<u8>, r: ConnectionRequest) -> bool { be64(r.guid) == cut(d, 1, 8) && be64(r.time as u64) == cut(d, 9, 8) && r.use_encryption == d[17] }
pub proof fn roundtrip_ConnectionRequest(p: ConnectionRequest, r: ConnectionRequest)
    ensures fits_ConnectionRequest(enc_ConnectionRequest(p)),
        at_ConnectionRequest(enc_ConnectionRequest(p), r) ==> r.guid == p.guid && r.time == p.time && r.use_encryption == p.use_encryption,
{
    let d = enc_ConnectionRequest(p);
    assert(cut(d, 1, 8) =~= be64(p.guid));
    be64_inj(p.guid, r.guid);
    assert(cut(d, 9, 8) =~= be64(p.time as u64));
    be64_inj(p.time as u64, r.time as u64); i64_as_u64_injective(p.time, r.time);
    assert(d[17] == p.use_encryption);
}
/// ConnectedPing: id 0x00; client_timestamp:i64
pub open spec fn enc_ConnectedPing(p: ConnectedPing) -> Seq<u8> { seq![0x00u8] + be64(p.client_timestamp as u64) }
pub open spec fn fits_ConnectedPing(d: Seq<u8>) -> bool { d.len() >= 9 }
pub open spec fn at_ConnectedPing(d: Seq<u8>, r: ConnectedPing) -> bool { be64(r.client_timestamp as u64) == cut(d, 1, 8) }
pub proof fn roundtrip_ConnectedPing(p: ConnectedPing, r: ConnectedPing)
    ensures fits_ConnectedPing(enc_ConnectedPing(p)),
        at_ConnectedPing(enc_ConnectedPing(p), r) ==> r.client_timestamp == p.client_timestamp,
{
    let d = enc_ConnectedPing(p);
    assert(cut(d, 1, 8) =~= be64(p.client_timestamp as u64));
    be64_inj(p.client_timestamp as u64, r.client_timestamp as u64); i64_as_u64_injective(p.client_timestamp, r.client_timestamp);
}
/// ConnectedPong: id 0x03; client_timestamp:i64, server_timestamp:i64
pub open spec fn enc_ConnectedPong(p: ConnectedPong) -> Seq<u8> { seq![0x03u8] + be64(p.client_timestamp as u64) + be64(p.server_timestamp as u64) }
pub open spec fn fits_ConnectedPong(d: Seq<u8>) -> bool { d.len() >= 17 }
pub open spec fn at_ConnectedPong(d: Seq<u8>, r: ConnectedPong) -> bool { be64(r.client_timestamp as u64) == cut(d, 1, 8) && be64(r.server_timestamp as u64) == cut(d, 9, 8) }
pub proof fn roundtrip_ConnectedPong(p: ConnectedPong, r: ConnectedPong)
    ensures fits_ConnectedPong(enc_ConnectedPong(p)),
        at_ConnectedPong(enc_ConnectedPong(p), r) ==> r.client_timestamp == p.client_timestamp && r.server_timestamp == p.server_timestamp,
{
    let d = enc_ConnectedPong(p);
    assert(cut(d, 1, 8) =~= be64(p.client_timestamp as u64));
    be64_inj(p.client_timestamp as u64, r.client_timestamp as u64); i64_as_u64_injective(p.client_timestamp, r.client_timestamp);
    assert(cut(d, 9, 8) =~= be64(p.server_timestamp as u64));
    be64_inj(p.server_timestamp as u64, r.server_timestamp as u64); i64_as_u64_injective(p.server_timestamp, r.server_timestamp);
}
@@ fn PacketID::to_u8
    ensures r == pid_value(self),
@@ fn PacketID::from
    ensures r is Ok <==> pid_known(id), r is Ok ==> pid_matches(id, r->Ok_0),
@@ fn write_packet_connection_open_request_1
    requires packet.mtu_size >= 46,
    ensures r is Ok, r->Ok_0@ == enc_OpenConnectionRequest1(*packet),
@@@ before `Ok(cursor`
    proof { assert(cursor.w() =~= enc_OpenConnectionRequest1(*packet)); }
@@ fn read_packet_connection_open_request_1
    requires buf@.len() <= 65507,
    ensures r is Ok <==> fits_OpenConnectionRequest1(buf@), r is Ok ==> at_OpenConnectionRequest1(buf@, r->Ok_0),
@@ fn write_packet_nack
    requires packet.record_count <= packet.sequences@.len(),
    ensures r is Ok, r->Ok_0@ == enc_list(0xa0, packet.record_count, packet.sequences@),
@@@ loops for
@@@ loop 0 inv
    invariant packet.record_count <= packet.sequences@.len(),
        cursor.w() == seq![0xa0u8] + be16(packet.record_count) + enc_recs(packet.sequences@.take(i as int)),
@@@ loop 0 body-end
    proof {
        assert(packet.sequences@.take(i as int + 1).drop_last() =~= packet.sequences@.take(i as int));
        assert(cursor.w() =~= seq![0xa0u8] + be16(packet.record_count) + enc_recs(packet.sequences@.take(i as int + 1)));
    }
@@ fn write_packet_ack
    requires packet.record_count <= packet.sequences@.len(),
    ensures r is Ok, r->Ok_0@ == enc_list(0xc0, packet.record_count, packet.sequences@),
@@@ loops for
@@@ loop 0 inv
    invariant packet.record_count <= packet.sequences@.len(),
        cursor.w() == seq![0xc0u8] + be16(packet.record_count) + enc_recs(packet.sequences@.take(i as int)),
@@@ loop 0 body-end
    proof {
        assert(packet.sequences@.take(i as int + 1).drop_last() =~= packet.sequences@.take(i as int));
        assert(cursor.w() =~= seq![0xc0u8] + be16(packet.record_count) + enc_recs(packet.sequences@.take(i as int + 1)));
    }
@@ fn read_packet_nack
    ensures r is Ok <==> fits_list(buf@), r is Ok ==> list_ok(buf@, r->Ok_0.record_count, r->Ok_0.sequences@),
@@@ loops for
@@@ loop 0 bind it
@@@ loop 0 inv
    invariant cursor.d() == buf@, buf@.len() >= 3, be16(record_count) == cut(buf@, 1, 2),
        recs(buf@, 3, it.index@ as nat) == Some((s@, cursor.p())), 3 <= cursor.p() <= buf@.len(),
@@@ loop 0 body-start
    broadcast use le24_val_of;
    proof { list_step(buf@, record_count, it.index@ as nat); }
@@ fn read_packet_ack
    ensures r is Ok <==> fits_list(buf@), r is Ok ==> list_ok(buf@, r->Ok_0.record_count, r->Ok_0.sequences@),
@@@ loops for
@@@ loop 0 bind it
@@@ loop 0 inv
    invariant cursor.d() == buf@, buf@.len() >= 3, be16(record_count) == cut(buf@, 1, 2),
        recs(buf@, 3, it.index@ as nat) == Some((s@, cursor.p())), 3 <= cursor.p() <= buf@.len(),
@@@ loop 0 body-start
    broadcast use le24_val_of;
    proof { list_step(buf@, record_count, it.index@ as nat); }
@@ fn read_packet_connection_request_accepted
    ensures r is Ok <==> fits_ConnectionRequestAccepted(buf@), r is Ok ==> at_ConnectionRequestAccepted(buf@, r->Ok_0),
@@ fn write_packet_connection_request_accepted
    ensures r is Ok, r->Ok_0@ == enc_ConnectionRequestAccepted(*packet),
@@@ start
    proof { parse_lits(); }
@@@ loops for
@@@ loop 0 bind it
@@@ loop 0 inv
    invariant cursor.w() == seq![0x10u8] + enc_addr(packet.client_address) + be16(packet.system_index) + rep_addr(any_addr(), it.index@ as nat),
        tmp_address == any_addr(),
@@ fn read_packet_new_incomming_connection
    ensures r is Ok <==> fits_NewIncomingConnection(buf@), r is Ok ==> at_NewIncomingConnection(buf@, r->Ok_0),
@@@ start
    proof {
        assert(addrs_end(buf@, 1, 0) == Some(1int));
        assert(addrs_end(buf@, 1, 1) == (if addr_fits(buf@, 1) { Some(1 + addr_len(buf@[1])) } else { None::<int> }));
        if !addr_fits(buf@, 1) { addrs_none(buf@, 1, 1, 11); }
    }
@@@ loops for
@@@ loop 0 bind it
@@@ loop 0 inv
    invariant cursor.d() == buf@, addrs_end(buf@, 1, (it.index@ + 1) as nat) == Some(cursor.p()), cursor.p() <= buf@.len(),
@@@ loop 0 before
    proof { assert(addrs_end(buf@, 1, 0) == Some(1int)); assert(addrs_end(buf@, 1, 1) == Some(cursor.p())); }
@@@ loop 0 body-start
    proof {
        let k = (it.index@ + 2) as nat;
        assert(addrs_end(buf@, 1, k) == (if addr_fits(buf@, cursor.p()) { Some(cursor.p() + addr_len(buf@[cursor.p()])) } else { None::<int> }));
        if addrs_end(buf@, 1, k) is None { addrs_none(buf@, 1, k, 11); }
    }
@@ fn write_packet_new_incomming_connection
    ensures r is Ok, r->Ok_0@ == enc_NewIncomingConnection(*packet),
@@@ start
    proof { parse_lits(); }
@@@ loops for
@@@ loop 0 bind it
@@@ loop 0 inv
    invariant cursor.w() == seq![0x13u8] + enc_addr(packet.server_address) + rep_addr(zero_addr(), it.index@ as nat),
        tmp_address == zero_addr(),
@@ fn write_packet_ping
    ensures r is Ok, r->Ok_0@ == enc_PacketUnconnectedPing(*packet),
@@@ start
    broadcast use seq_cat;
@@ fn read_packet_ping
    ensures r is Ok <==> fits_PacketUnconnectedPing(buf@), r is Ok ==> at_PacketUnconnectedPing(buf@, r->Ok_0),
@@ fn write_packet_pong
    ensures r is Ok, r->Ok_0@ == enc_PacketUnconnectedPong(*packet),
@@@ start
    broadcast use seq_cat;
@@ fn read_packet_pong
    ensures r is Ok <==> fits_PacketUnconnectedPong(buf@), r is Ok ==> at_PacketUnconnectedPong(buf@, r->Ok_0),
@@ fn write_packet_connection_open_request_2
    ensures r is Ok, r->Ok_0@ == enc_OpenConnectionRequest2(*packet),
@@@ start
    broadcast use seq_cat;
@@ fn read_packet_connection_open_request_2
    ensures r is Ok <==> fits_OpenConnectionRequest2(buf@), r is Ok ==> at_OpenConnectionRequest2(buf@, r->Ok_0),
@@ fn write_packet_connection_open_reply_1
    ensures r is Ok, r->Ok_0@ == enc_OpenConnectionReply1(*packet),
@@@ start
    broadcast use seq_cat;
@@ fn read_packet_connection_open_reply_1
    ensures r is Ok <==> fits_OpenConnectionReply1(buf@), r is Ok ==> at_OpenConnectionReply1(buf@, r->Ok_0),
@@ fn write_packet_connection_open_reply_2
    ensures r is Ok, r->Ok_0@ == enc_OpenConnectionReply2(*packet),
@@@ start
    broadcast use seq_cat;
@@ fn read_packet_connection_open_reply_2
    ensures r is Ok <==> fits_OpenConnectionReply2(buf@), r is Ok ==> at_OpenConnectionReply2(buf@, r->Ok_0),
@@ fn write_packet_already_connected
    ensures r is Ok, r->Ok_0@ == enc_AlreadyConnected(*packet),
@@@ start
    broadcast use seq_cat;
@@ fn _read_packet_already_connected
    ensures r is Ok <==> fits_AlreadyConnected(buf@), r is Ok ==> at_AlreadyConnected(buf@, r->Ok_0),
@@ fn write_packet_incompatible_protocol_version
    ensures r is Ok, r->Ok_0@ == enc_IncompatibleProtocolVersion(*packet),
@@@ start
    broadcast use seq_cat;
@@ fn read_packet_incompatible_protocol_version
    ensures r is Ok <==> fits_IncompatibleProtocolVersion(buf@), r is Ok ==> at_IncompatibleProtocolVersion(buf@, r->Ok_0),
@@ fn write_packet_connection_request
    ensures r is Ok, r->Ok_0@ == enc_ConnectionRequest(*packet),
@@@ start
    broadcast use seq_cat;
@@ fn read_packet_connection_request
    ensures r is Ok <==> fits_ConnectionRequest(buf@), r is Ok ==> at_ConnectionRequest(buf@, r->Ok_0),
@@ fn write_packet_connected_ping
    ensures r is Ok, r->Ok_0@ == enc_ConnectedPing(*packet),
@@@ start
    broadcast use seq_cat;
@@ fn read_packet_connected_ping
    ensures r is Ok <==> fits_ConnectedPing(buf@), r is Ok ==> at_ConnectedPing(buf@, r->Ok_0),
@@ fn write_packet_connected_pong
    ensures r is Ok, r->Ok_0@ == enc_ConnectedPong(*packet),
@@@ start
    broadcast use seq_cat;
@@ fn _read_packet_connected_pong
    ensures r is Ok <==> fits_ConnectedPong(buf@), r is Ok ==> at_ConnectedPong(buf@, r->Ok_0),
