//! The wire format written down independently of the code under test.
use std::net::{IpAddr, SocketAddr};
pub const MAGIC: [u8; 16] = [0x00, 0xff, 0xff, 0x00, 0xfe, 0xfe, 0xfe, 0xfe, 0xfd, 0xfd, 0xfd, 0xfd, 0x12, 0x34, 0x56, 0x78];
pub fn cat(parts: &[&[u8]]) -> Vec<u8> { parts.concat() }
pub fn be16(v: u16) -> [u8; 2] { [(v >> 8) as u8, v as u8] }
pub fn be32(v: u32) -> [u8; 4] { [(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8] }
pub fn be64(v: u64) -> [u8; 8] {
    let mut o = [0; 8];
    for (i, b) in o.iter_mut().enumerate() { *b = (v >> (56 - 8 * i)) as u8; }
    o
}
pub fn le24(v: u32) -> [u8; 3] { [v as u8, (v >> 8) as u8, (v >> 16) as u8] }
pub fn addr(a: &SocketAddr) -> Vec<u8> {
    match a.ip() {
        IpAddr::V4(ip) => {
            let mut o = vec![4];
            o.extend(ip.octets().iter().map(|b| !b));
            o.extend(be16(a.port()));
            o
        }
        IpAddr::V6(ip) => cat(&[&[6], &[23, 0], &be16(a.port()), &[0; 4], &ip.octets(), &[0; 4]]),
    }
}
pub fn records(id: u8, l: &[(u32, u32)]) -> Vec<u8> {
    let mut o = vec![id];
    o.extend(be16(l.len() as u16));
    for (a, b) in l {
        if a == b { o.push(1); o.extend(le24(*a)); } else { o.push(0); o.extend(le24(*a)); o.extend(le24(*b)); }
    }
    o
}
/// None: the message stops before its last field
pub fn read_records(b: &[u8]) -> Option<Vec<(u32, u32)>> {
    let g24 = |i: usize| -> Option<u32> { let s = b.get(i..i + 3)?; Some(s[0] as u32 | (s[1] as u32) << 8 | (s[2] as u32) << 16) };
    let n = b.get(1..3)?;
    let n = (n[0] as usize) << 8 | n[1] as usize;
    let mut i = 3;
    let mut v = vec![];
    for _ in 0..n {
        let one = *b.get(i)? == 1;
        let a = g24(i + 1)?;
        i += 4;
        let z = if one { a } else { i += 3; g24(i - 3)? };
        v.push((a, z));
    }
    Some(v)
}
/// length of the address at b[i..], None if it is cut short
pub fn addr_len(b: &[u8], i: usize) -> Option<usize> {
    let n = if *b.get(i)? == 4 { 7 } else { 29 };
    if i + n <= b.len() { Some(n) } else { None }
}
#[derive(Clone, Debug, PartialEq)]
pub struct F {
    pub flags: u8,
    pub reliable: u32,
    pub sequenced: u32,
    pub ordered: u32,
    pub channel: u8,
    pub csize: u32,
    pub cid: u16,
    pub findex: u32,
    pub data: Vec<u8>,
}
pub fn rel(flags: u8) -> u8 { flags >> 5 }
pub fn has_reliable(r: u8) -> bool { r == 2 || r == 3 || r == 4 }
pub fn has_sequenced(r: u8) -> bool { r == 1 || r == 4 }
pub fn has_ordered(r: u8) -> bool { r == 1 || r == 3 || r == 4 }
pub fn enc_frame(f: &F) -> Vec<u8> {
    let r = rel(f.flags);
    let mut o = vec![f.flags];
    o.extend(be16((f.data.len() * 8) as u16));
    if has_reliable(r) { o.extend(le24(f.reliable)); }
    if has_sequenced(r) { o.extend(le24(f.sequenced)); }
    if has_ordered(r) { o.extend(le24(f.ordered)); o.push(f.channel); }
    if f.flags & 16 != 0 { o.extend(be32(f.csize)); o.extend(be16(f.cid)); o.extend(be32(f.findex)); }
    o.extend(&f.data);
    o
}
pub fn enc_datagram(id: u8, n: u32, fs: &[F]) -> Vec<u8> {
    let mut o = vec![id];
    o.extend(le24(n));
    for f in fs { o.extend(enc_frame(f)); }
    o
}
/// reference parser: None = error
pub fn dec_datagram(b: &[u8]) -> Option<(u8, u32, Vec<F>)> {
    let id = *b.first()?;
    let mut i = 1;
    fn take<'a>(b: &'a [u8], i: &mut usize, n: usize) -> Option<&'a [u8]> { let s = b.get(*i..*i + n)?; *i += n; Some(s) }
    fn le(s: &[u8]) -> u32 { s.iter().rev().fold(0, |a, x| a << 8 | *x as u32) }
    fn be(s: &[u8]) -> u32 { s.iter().fold(0, |a, x| a << 8 | *x as u32) }
    let n = le(take(b, &mut i, 3)?);
    let mut v = vec![];
    while i < b.len() {
        let flags = take(b, &mut i, 1)?[0];
        let len = be(take(b, &mut i, 2)?) as usize / 8;
        let r = rel(flags);
        if r > 4 { return None; }
        let mut f = F { flags, reliable: 0, sequenced: 0, ordered: 0, channel: 0, csize: 0, cid: 0, findex: 0, data: vec![] };
        if has_reliable(r) { f.reliable = le(take(b, &mut i, 3)?); }
        if has_sequenced(r) { f.sequenced = le(take(b, &mut i, 3)?); }
        if has_ordered(r) { f.ordered = le(take(b, &mut i, 3)?); f.channel = take(b, &mut i, 1)?[0]; }
        if flags & 16 != 0 { f.csize = be(take(b, &mut i, 4)?); f.cid = be(take(b, &mut i, 2)?) as u16; f.findex = be(take(b, &mut i, 4)?); }
        f.data = take(b, &mut i, len)?.to_vec();
        v.push(f);
    }
    Some((id, n, v))
}
