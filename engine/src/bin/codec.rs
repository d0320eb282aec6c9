//! C01 round trip, C02 layout, C03 arbitrary bytes (control messages), C04 data datagrams
use engine::refc::*;
use engine::*;
use rust_raknet::verif::*;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

fn gen_addr(r: &mut Rng) -> SocketAddr {
    let port = r.int(16) as u16;
    let ip = if r.chance(1, 2) {
        let o: Vec<u8> = (0..4).map(|_| r.int(8) as u8).collect();
        IpAddr::V4(Ipv4Addr::new(o[0], o[1], o[2], o[3]))
    } else {
        let mut o = [0u8; 16];
        let mode = r.below(3);
        for b in o.iter_mut() { *b = match mode { 0 => 0, 1 => r.next() as u8, _ => r.int(8) as u8 }; }
        if mode == 0 { o[r.below(16) as usize] = r.next() as u8; }
        IpAddr::V6(Ipv6Addr::from(o))
    };
    SocketAddr::new(ip, port)
}
fn gen_string(r: &mut Rng) -> String {
    let n = match r.below(8) { 0 => 0, 1 => 1, 2 => 65535, 3 => 65534, 4 => 255 + r.below(3), _ => r.below(120) } as usize;
    let mut s = String::new();
    if r.chance(1, 2) {
        while s.len() + 4 <= n { s.push(*r.pick(&['a', ';', 'é', '漢', '\u{1f600}', '\u{0}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{ffff}', '\u{10ffff}'])); }
    }
    while s.len() < n { s.push((b'a' + r.below(26) as u8) as char); }
    s
}
fn gen_records(r: &mut Rng, thorough: bool) -> Vec<(u32, u32)> {
    let n = match r.below(10) { 0 => 0, 1 => 1, 2 if thorough => 65535, 3 => 255 + r.below(3), 4 => 300 + r.below(200), _ => r.below(8) };
    (0..n).map(|_| {
        let a = r.int(24) as u32;
        match r.below(4) { 0 => (a, a), 1 => (a, (a + 1 + r.below(5) as u32).min(0xffffff)), 2 => (a, r.int(24) as u32), _ => (a.min(0xfffffe), (a.min(0xfffffe)) + 1) }
    }).collect()
}
/// (bytes, reference bytes, read-back check)
const KINDS: &[&str] = &["ping", "pong", "open_request_1", "open_request_2", "open_reply_1", "open_reply_2", "already_connected", "incompatible",
    "nack", "ack", "connection_request", "connection_request_accepted", "new_incoming", "connected_ping", "connected_pong"];
fn e<T>(r: std::result::Result<T, rust_raknet::error::RaknetError>, what: &str) -> Result<T, String> { r.map_err(|x| format!("{what} returned {x:?}")) }

/// encodes one message of the kind; decode its encoding back and compare (C01); compare with the reference layout (C02)
fn message(k: &str, r: &mut Rng, thorough: bool) -> Result<(Vec<u8>, Vec<u8>, R), String> {
    macro_rules! eq { ($($f:ident),* ; $a:expr, $b:expr) => {{ let mut x: R = Ok(()); $( if x.is_ok() && $a.$f != $b.$f { x = Err(format!("{k}: field {} read back as {:?}, written {:?}", stringify!($f), $a.$f, $b.$f)); } )* x }} }
    macro_rules! rb { ($rd:ident, $bytes:expr, $m:expr; $($f:ident),*) => { match $rd(&$bytes) { Ok(x) => eq!($($f),*; x, $m), Err(z) => Err(format!("{k}: decoding the encoded message returned {z:?}")) } } }
    let (t, t2, g) = (r.int(64) as i64, r.int(64) as i64, r.int(64));
    Ok(match k {
        "ping" => { let m = PacketUnconnectedPing { time: t, magic: true, guid: g }; note!("{k} time={t} guid={g}");
            let b = e(write_packet_ping(&m), k)?; let x = rb!(read_packet_ping, b, m; time, magic, guid); (b, cat(&[&[1], &be64(t as u64), &MAGIC, &be64(g)]), x) }
        "pong" => { let m = PacketUnconnectedPong { time: t, magic: true, guid: g, motd: gen_string(r) }; note!("{k} time={t} guid={g} motd={} bytes {:?}", m.motd.len(), m.motd.chars().take(20).collect::<String>());
            let b = e(write_packet_pong(&m), k)?; let x = rb!(read_packet_pong, b, m; time, magic, guid, motd);
            (b, cat(&[&[0x1c], &be64(t as u64), &be64(g), &MAGIC, &be16(m.motd.len() as u16), m.motd.as_bytes()]), x) }
        "open_request_1" => { let m = OpenConnectionRequest1 { magic: true, protocol_version: r.int(8) as u8, mtu_size: *r.pick(&[46, 47, 64, 400, 576, 1400, 1492, 1500, 65535, 65534, 46 + (g % 65000) as u16]) }; note!("{k} v={} mtu={}", m.protocol_version, m.mtu_size);
            let b = e(write_packet_connection_open_request_1(&m), k)?; let x = rb!(read_packet_connection_open_request_1, b, m; magic, protocol_version, mtu_size);
            (b, cat(&[&[5], &MAGIC, &[m.protocol_version], &vec![0u8; m.mtu_size as usize - 46]]), x) }
        "open_request_2" => { let m = OpenConnectionRequest2 { magic: true, address: gen_addr(r), mtu: r.int(16) as u16, guid: g }; note!("{k} addr={} mtu={} guid={g}", m.address, m.mtu);
            let b = e(write_packet_connection_open_request_2(&m), k)?; let x = rb!(read_packet_connection_open_request_2, b, m; magic, address, mtu, guid);
            (b, cat(&[&[7], &MAGIC, &addr(&m.address), &be16(m.mtu), &be64(g)]), x) }
        "open_reply_1" => { let m = OpenConnectionReply1 { magic: true, guid: g, use_encryption: r.int(8) as u8, mtu_size: r.int(16) as u16 }; note!("{k} guid={g} enc={} mtu={}", m.use_encryption, m.mtu_size);
            let b = e(write_packet_connection_open_reply_1(&m), k)?; let x = rb!(read_packet_connection_open_reply_1, b, m; magic, guid, use_encryption, mtu_size);
            (b, cat(&[&[6], &MAGIC, &be64(g), &[m.use_encryption], &be16(m.mtu_size)]), x) }
        "open_reply_2" => { let m = OpenConnectionReply2 { magic: true, guid: g, address: gen_addr(r), mtu: r.int(16) as u16, encryption_enabled: r.int(8) as u8 }; note!("{k} guid={g} addr={} mtu={} enc={}", m.address, m.mtu, m.encryption_enabled);
            let b = e(write_packet_connection_open_reply_2(&m), k)?; let x = rb!(read_packet_connection_open_reply_2, b, m; magic, guid, address, mtu, encryption_enabled);
            (b, cat(&[&[8], &MAGIC, &be64(g), &addr(&m.address), &be16(m.mtu), &[m.encryption_enabled]]), x) }
        "already_connected" => { let m = AlreadyConnected { magic: true, guid: g }; note!("{k} guid={g}");
            let b = e(write_packet_already_connected(&m), k)?; let x = rb!(_read_packet_already_connected, b, m; magic, guid); (b, cat(&[&[0x12], &MAGIC, &be64(g)]), x) }
        "incompatible" => { let m = IncompatibleProtocolVersion { server_protocol: r.int(8) as u8, magic: true, server_guid: g }; note!("{k} v={} guid={g}", m.server_protocol);
            let b = e(write_packet_incompatible_protocol_version(&m), k)?; let x = rb!(read_packet_incompatible_protocol_version, b, m; server_protocol, magic, server_guid);
            (b, cat(&[&[0x19], &[m.server_protocol], &MAGIC, &be64(g)]), x) }
        "nack" => { let l = gen_records(r, thorough); note!("{k} {:?}", &l[..l.len().min(20)]); let m = Nack { record_count: l.len() as u16, sequences: l.clone() };
            let b = e(write_packet_nack(&m), k)?; let x = rb!(read_packet_nack, b, m; record_count, sequences); (b, records(0xa0, &l), x) }
        "ack" => { let l = gen_records(r, thorough); note!("{k} {:?}", &l[..l.len().min(20)]); let m = Ack { record_count: l.len() as u16, sequences: l.clone() };
            let b = e(write_packet_ack(&m), k)?; let x = rb!(read_packet_ack, b, m; record_count, sequences); (b, records(0xc0, &l), x) }
        "connection_request" => { let m = ConnectionRequest { guid: g, time: t, use_encryption: r.int(8) as u8 }; note!("{k} guid={g} time={t} enc={}", m.use_encryption);
            let b = e(write_packet_connection_request(&m), k)?; let x = rb!(read_packet_connection_request, b, m; guid, time, use_encryption);
            (b, cat(&[&[9], &be64(g), &be64(t as u64), &[m.use_encryption]]), x) }
        "connection_request_accepted" => { let m = ConnectionRequestAccepted { client_address: gen_addr(r), system_index: r.int(16) as u16, request_timestamp: t, accepted_timestamp: t2 }; note!("{k} addr={} idx={} t={t} t2={t2}", m.client_address, m.system_index);
            let b = e(write_packet_connection_request_accepted(&m), k)?; let x = rb!(read_packet_connection_request_accepted, b, m; client_address, system_index);
            let i = addr(&"255.255.255.255:19132".parse().unwrap()).repeat(10);
            (b, cat(&[&[0x10], &addr(&m.client_address), &be16(m.system_index), &i, &be64(t as u64), &be64(t2 as u64)]), x) }
        "new_incoming" => { let m = NewIncomingConnection { server_address: gen_addr(r), request_timestamp: t, accepted_timestamp: t2 }; note!("{k} addr={} t={t} t2={t2}", m.server_address);
            let b = e(write_packet_new_incomming_connection(&m), k)?; let x = rb!(read_packet_new_incomming_connection, b, m; server_address, request_timestamp, accepted_timestamp);
            let i = addr(&"0.0.0.0:0".parse().unwrap()).repeat(10);
            (b, cat(&[&[0x13], &addr(&m.server_address), &i, &be64(t as u64), &be64(t2 as u64)]), x) }
        "connected_ping" => { let m = ConnectedPing { client_timestamp: t }; note!("{k} t={t}");
            let b = e(write_packet_connected_ping(&m), k)?; let x = rb!(read_packet_connected_ping, b, m; client_timestamp); (b, cat(&[&[0], &be64(t as u64)]), x) }
        _ => { let m = ConnectedPong { client_timestamp: t, server_timestamp: t2 }; note!("{k} t={t} t2={t2}");
            let b = e(write_packet_connected_pong(&m), k)?; let x = rb!(_read_packet_connected_pong, b, m; client_timestamp, server_timestamp); (b, cat(&[&[3], &be64(t as u64), &be64(t2 as u64)]), x) }
    })
}
/// decode `b` as kind k: Ok(true) = a value, Ok(false) = an error; contents are compared with the layout by `value_ok`
fn decode(k: &str, b: &[u8]) -> std::result::Result<Option<String>, String> {
    macro_rules! d { ($rd:ident; $($f:ident),*) => { match $rd(b) { Ok(x) => Ok(Some(vec![$(format!("{}={:?}", stringify!($f), x.$f)),*].join(","))), Err(_) => Ok(None) } } }
    match k {
        "ping" => d!(read_packet_ping; time, magic, guid),
        "pong" => d!(read_packet_pong; time, guid, magic, motd),
        "open_request_1" => d!(read_packet_connection_open_request_1; magic, protocol_version, mtu_size),
        "open_request_2" => d!(read_packet_connection_open_request_2; magic, address, mtu, guid),
        "open_reply_1" => d!(read_packet_connection_open_reply_1; magic, guid, use_encryption, mtu_size),
        "open_reply_2" => d!(read_packet_connection_open_reply_2; magic, guid, address, mtu, encryption_enabled),
        "already_connected" => d!(_read_packet_already_connected; magic, guid),
        "incompatible" => d!(read_packet_incompatible_protocol_version; server_protocol, magic, server_guid),
        "nack" => d!(read_packet_nack; record_count, sequences),
        "ack" => d!(read_packet_ack; record_count, sequences),
        "connection_request" => d!(read_packet_connection_request; guid, time, use_encryption),
        "connection_request_accepted" => d!(read_packet_connection_request_accepted; client_address, system_index),
        "new_incoming" => d!(read_packet_new_incomming_connection; server_address, request_timestamp, accepted_timestamp),
        "connected_ping" => d!(read_packet_connected_ping; client_timestamp),
        _ => d!(_read_packet_connected_pong; client_timestamp, server_timestamp),
    }
}
/// number of leading bytes the fields read back occupy in b; None = b stops before the last of them
fn need(k: &str, b: &[u8]) -> Option<usize> {
    let fixed = |n: usize| if b.len() >= n { Some(n) } else { None };
    match k {
        "ping" => fixed(33),
        "pong" => { let n = b.get(33..35)?; fixed(35 + ((n[0] as usize) << 8 | n[1] as usize)) }
        "open_request_1" => fixed(18),
        "open_request_2" => { let a = addr_len(b, 17)?; fixed(17 + a + 10) }
        "open_reply_1" => fixed(28),
        "open_reply_2" => { let a = addr_len(b, 25)?; fixed(25 + a + 3) }
        "already_connected" => fixed(25),
        "incompatible" => fixed(26),
        "nack" | "ack" => { let l = read_records(b)?; fixed(3 + l.iter().count()) }
        "connection_request" => fixed(18),
        "connection_request_accepted" => { let a = addr_len(b, 1)?; fixed(1 + a + 2) }
        "new_incoming" => { let mut i = 1; for _ in 0..11 { i += addr_len(b, i)?; } fixed(i + 16) }
        "connected_ping" => fixed(9),
        _ => fixed(17),
    }
}
fn gen_frame(r: &mut Rng, max: usize) -> F {
    let rl = r.below(5) as u8;
    let frag = r.chance(1, 3);
    let n = match r.below(6) { 0 => 0, 1 => 1, 2 => max, _ => r.below(max as u64 + 1) as usize };
    let data = r.bytes(n);
    F { flags: rl << 5 | if frag { 16 } else { 0 } | (r.below(16) as u8 & *r.pick(&[0, 15, 8])),
        reliable: if has_reliable(rl) { r.int(24) as u32 } else { 0 }, sequenced: if has_sequenced(rl) { r.int(24) as u32 } else { 0 },
        ordered: if has_ordered(rl) { r.int(24) as u32 } else { 0 }, channel: if has_ordered(rl) { r.int(8) as u8 } else { 0 },
        csize: if frag { r.int(32) as u32 } else { 0 }, cid: if frag { r.int(16) as u16 } else { 0 }, findex: if frag { r.int(32) as u32 } else { 0 }, data }
}
fn to_f(p: &FrameSetPacket) -> F {
    F { flags: p.flags, reliable: p.reliable_frame_index, sequenced: p.sequenced_frame_index, ordered: p.ordered_frame_index, channel: p.order_channel,
        csize: p.compound_size, cid: p.compound_id, findex: p.fragment_index, data: p.data.clone() }
}
fn from_f(f: &F, n: u32) -> FrameSetPacket {
    let rl = match rel(f.flags) { 0 => Reliability::Unreliable, 1 => Reliability::UnreliableSequenced, 2 => Reliability::Reliable, 3 => Reliability::ReliableOrdered, _ => Reliability::ReliableSequenced };
    let mut p = FrameSetPacket::new(rl, f.data.clone());
    p.sequence_number = n; p.flags = f.flags; p.reliable_frame_index = f.reliable; p.sequenced_frame_index = f.sequenced; p.ordered_frame_index = f.ordered;
    p.order_channel = f.channel; p.compound_size = f.csize; p.compound_id = f.cid; p.fragment_index = f.findex;
    p
}
fn show(f: &F) -> String { format!("F{{flags={:#04x} rel={} seq={} ord={} ch={} cs={} cid={} fi={} len={}}}", f.flags, f.reliable, f.sequenced, f.ordered, f.channel, f.csize, f.cid, f.findex, f.data.len()) }
/// the datagram parses into exactly what the reference parser says
fn parse_case(b: &[u8]) -> Result<bool, String> {
    let want = dec_datagram(b);
    let got = FrameVec::new(b.to_vec());
    match (want, got) {
        (None, Err(_)) => Ok(false),
        (None, Ok(v)) => Err(format!("a malformed datagram was accepted as {} frames", v.frames.len())),
        (Some(w), Err(z)) => Err(format!("a well-formed datagram of {} frames was refused: {z:?}", w.2.len())),
        (Some((id, n, fs)), Ok(v)) => {
            ensure!(v.id == id && v.sequence_number == n, "header read as id={:#x} number={}, sent id={id:#x} number={n}", v.id, v.sequence_number);
            ensure!(v.frames.len() == fs.len(), "{} frames parsed, {} sent", v.frames.len(), fs.len());
            for (i, (p, f)) in v.frames.iter().zip(&fs).enumerate() {
                ensure!(to_f(p) == *f, "frame {i} parsed as {} sent as {}", show(&to_f(p)), show(f));
                ensure!(p.sequence_number == n, "frame {i} carries datagram number {} instead of {n}", p.sequence_number);
                let r = rel(f.flags);
                ensure!(p.is_fragment() == (f.flags & 16 != 0), "is_fragment is {} for flags {:#x}", p.is_fragment(), f.flags);
                ensure!(p.is_reliable().ok() == Some(has_reliable(r)), "is_reliable wrong for reliability {r}");
                ensure!(p.is_sequenced().ok() == Some(has_sequenced(r)), "is_sequenced wrong for reliability {r}");
                ensure!(p.is_ordered().ok() == Some(has_ordered(r)), "is_ordered wrong for reliability {r}");
                ensure!(p.reliability().ok().map(|x| x.to_u8()) == Some(r), "reliability() wrong for {r}");
            }
            Ok(true)
        }
    }
}
fn main() {
    let mut c = Ctx::from_args();
    let th = c.thorough;
    if c.is("C01") {
        for k in KINDS {
            c.run(&format!("roundtrip_{k}"), "random message with boundary-biased fields, encoded and decoded by the real code", 1500, 0.06, |r, _| {
                let (b, _, x) = message(k, r, th)?; x?; Ok(format!("{} bytes {:02x?}", b.len(), &b[..b.len().min(40)])) });
        }
        c.run("prim", "writer/reader primitives", 4000, 0.05, |r, _| {
            let (a, b, d, f, g) = (r.int(16) as u16, r.int(24) as u32, r.int(32) as u32, r.int(64), r.int(8) as u8);
            note!("{a} {b} {d} {f} {g}");
            for le in [false, true] {
                let en = || if le { Endian::Little } else { Endian::Big };
                let mut w = RaknetWriter::new();
                w.write_u8(g).ok(); w.write_u16(a, en()).ok(); w.write_u24(b, en()).ok(); w.write_u32(d, en()).ok(); w.write_u64(f, en()).ok(); w.write_i64(f as i64, en()).ok();
                let mut q = RaknetReader::new(w.get_raw_payload());
                ensure!(q.read_u8().ok() == Some(g) && q.read_u16(en()).ok() == Some(a) && q.read_u24(en()).ok() == Some(b) && q.read_u32(en()).ok() == Some(d)
                    && q.read_u64(en()).ok() == Some(f) && q.read_i64(en()).ok() == Some(f as i64), "integers read back differently (little endian: {le})");
            }
            Ok(format!("{a} {b} {d} {f} {g}")) });
    } else if c.is("C02") {
        for k in KINDS {
            c.run(&format!("layout_{k}"), "random message, encoding compared byte for byte with an independent encoder", 1500, 0.05, |r, _| {
                let (b, w, _) = message(k, r, th)?;
                if b != w {
                    let i = b.iter().zip(&w).position(|(x, y)| x != y).unwrap_or(b.len().min(w.len()));
                    return Err(format!("{k}: encoding differs from the RakNet layout at byte {i}: {:02x?} instead of {:02x?} (lengths {} and {})", b.get(i), w.get(i), b.len(), w.len()));
                }
                Ok(format!("{} bytes {:02x?}", b.len(), &b[..b.len().min(40)])) });
        }
        c.run("layout_frame", "random data frame, encoding compared byte for byte with an independent encoder", 6000, 0.2, |r, _| {
            let mut f = gen_frame(r, 8191); f.flags &= 0xf0;
            let n = r.int(24) as u32;
            note!("number={n} {}", show(&f));
            let b = e(from_f(&f, n).serialize(), "serialize")?;
            let id = 0x84 | if f.flags & 16 != 0 && f.findex != 0 { 8 } else { 0 };
            let w = enc_datagram(id, n, &[f.clone()]);
            let i = b.iter().zip(&w).position(|(x, y)| x != y).unwrap_or(b.len().min(w.len()));
            ensure!(b == w, "frame encoding differs from the RakNet layout at byte {i}: {:02x?} instead of {:02x?} (lengths {} and {})", b.get(i), w.get(i), b.len(), w.len());
            Ok(format!("{n} {}", show(&f))) });
        c.run("packet_ids", "all 256 message ids", 256, 0.01, |_, i| {
            let id = i as u8;
            if let Ok(p) = PacketID::from(id) {
                let back = p.to_u8();
                ensure!(back == id || ((0x80..=0x8d).contains(&id) && back == 0x80), "message id {id:#x} reads as {back:#x}");
            } else {
                ensure!(![0u8, 1, 2, 3, 0x1c, 5, 6, 7, 8, 9, 0x10, 0x12, 0x13, 0x15, 0x19, 0xa0, 0xc0, 0xfe].contains(&id) && !(0x80..=0x8d).contains(&id), "message id {id:#x} is unknown");
            }
            Ok(format!("{id}")) });
    } else if c.is("C03") {
        for k in KINDS {
            c.run(&format!("bytes_{k}"), "valid messages cut, extended, mutated, and random bytes up to 65507 bytes: decoding returns, and what stops early is an error", 2500, 0.055, |r, _| {
                let mut b = match r.below(10) {
                    0 => { let n = r.below(80) as usize; r.bytes(n) }
                    1 => { let n = match r.below(4) { 0 => 65507, 1 => 1500, _ => r.below(3000) } as usize; let mut b = r.bytes(n); if r.chance(1, 2) { for x in b.iter_mut().take(64) { *x &= 7; } } b }
                    _ => message(k, r, false)?.1,
                };
                if r.chance(2, 3) { let n = match r.below(3) { 0 => r.below(b.len() as u64 + 1) as usize, 1 => (b.len()).saturating_sub(r.below(12) as usize), _ => r.below(40).min(b.len() as u64) as usize }; b.truncate(n); }
                if r.chance(1, 3) { for _ in 0..r.range(1, 4) { if !b.is_empty() { let i = if r.chance(1, 2) { r.below(b.len().min(40) as u64) } else { r.below(b.len() as u64) } as usize; b[i] = r.int(8) as u8; } } }
                b.truncate(65507);
                note!("decode as {k}: {} bytes {:02x?}", b.len(), &b[..b.len().min(300)]);
                let v = decode(k, &b)?;
                match (need(k, &b), v) {
                    (None, Some(v)) => Err(format!("{k}: a message of {} bytes that stops before its last field was accepted as {v}", b.len())),
                    (Some(n), Some(v)) => {
                        // nothing behind the last field may matter (except the datagram length of the first open request)
                        if k != &"open_request_1" && k != &"nack" && k != &"ack" {
                            let w = decode(k, &b[..n])?;
                            ensure!(w.as_deref() == Some(v.as_str()), "{k}: contents depend on bytes behind the last field: {v} / {w:?}");
                        }
                        if k == &"nack" || k == &"ack" {
                            let l = read_records(&b).unwrap();
                            ensure!(v == format!("record_count={:?},sequences={:?}", l.len(), l), "{k}: read as {}", v.chars().take(200).collect::<String>());
                        }
                        Ok(format!("{k} {:02x?}", &b[..b.len().min(40)]))
                    }
                    _ => Ok(format!("{k} {:02x?}", &b[..b.len().min(40)])),
                } });
        }
        c.run("bytes_datagram", "random, cut and mutated data datagrams", 12000, 0.15, |r, _| { let b = hostile_datagram(r); note!("datagram {} bytes {:02x?}", b.len(), &b[..b.len().min(300)]);
            if FrameVec::new(b.clone()).is_ok() { ensure!(dec_datagram(&b).is_some(), "a malformed or truncated datagram was accepted"); }
            Ok(format!("{:02x?}", &b[..b.len().min(40)])) });
        c.run("short_all", "every byte string of length 0 to 2, and every length up to 80 of zeros and 0xff, as every message", 66000, 0.1, |_, i| {
            let b = if i == 0 { vec![] } else if i < 257 { vec![(i - 1) as u8] } else if i < 257 + 160 { vec![if i % 2 == 0 { 0 } else { 255u8 }; ((i - 257) / 2) as usize] } else { vec![(i >> 8) as u8, i as u8] };
            note!("{:02x?}", b);
            for k in KINDS { if decode(k, &b)?.is_some() { ensure!(need(k, &b).is_some(), "{k}: {} bytes accepted", b.len()); } }
            if FrameVec::new(b.clone()).is_ok() { ensure!(dec_datagram(&b).is_some(), "data datagram: {} bytes accepted", b.len()); }
            Ok(format!("{b:?}")) });
    } else if c.is("C04") {
        c.run("list", "datagram of up to 12 random frames encoded by the reference encoder, parsed by the real code", 5000, 0.3, |r, _| {
            let n = match r.below(4) { 0 => 0, 1 => 1, _ => r.below(12) };
            let fs: Vec<F> = (0..n).map(|_| { let m = *r.pick(&[0usize, 1, 8, 100, 1400, 8191]); gen_frame(r, m) }).collect();
            let (id, num) = (r.range(0x80, 0x8d) as u8, r.int(24) as u32);
            note!("id={id:#x} number={num} {:?}", fs.iter().map(show).collect::<Vec<_>>());
            ensure!(parse_case(&enc_datagram(id, num, &fs))?, "not parsed");
            Ok(format!("{num} {:?}", fs.iter().map(show).collect::<Vec<_>>())) });
        c.run("roundtrip", "random frame serialized and parsed by the real code", 5000, 0.3, |r, _| {
            let mut f = gen_frame(r, 8191); f.flags &= 0xf0; let num = r.int(24) as u32;
            note!("number={num} {}", show(&f));
            let b = e(from_f(&f, num).serialize(), "serialize")?;
            let v = e(FrameVec::new(b), "parsing a serialized frame")?;
            ensure!(v.sequence_number == num && v.frames.len() == 1 && to_f(&v.frames[0]) == f, "a serialized frame was parsed as number {} and {:?}", v.sequence_number, v.frames.iter().map(|p| show(&to_f(p))).collect::<Vec<_>>());
            Ok(show(&f)) });
        c.run("hostile", "cut, mutated and random datagrams: the same verdict and frames as the reference parser", 12000, 0.4, |r, _| {
            let b = hostile_datagram(r); note!("{} bytes {:02x?}", b.len(), &b[..b.len().min(300)]);
            parse_case(&b)?; Ok(format!("{:02x?}", &b[..b.len().min(40)])) });
    }
    c.done();
}
fn hostile_datagram(r: &mut Rng) -> Vec<u8> {
    let n = r.below(6);
    let fs: Vec<F> = (0..n).map(|_| { let m = *r.pick(&[0usize, 1, 8, 40]); gen_frame(r, m) }).collect();
    let mut b = if r.chance(1, 8) { let n = r.below(60) as usize; r.bytes(n) } else { enc_datagram(0x84, r.int(24) as u32, &fs) };
    if r.chance(1, 2) { let n = r.below(b.len() as u64 + 1) as usize; b.truncate(n); }
    if r.chance(1, 3) && !b.is_empty() { let i = r.below(b.len() as u64) as usize; b[i] = r.next() as u8; }
    if r.chance(1, 10) { let n = r.below(5) as usize; let t = r.bytes(n); b.extend(t); }
    b
}
