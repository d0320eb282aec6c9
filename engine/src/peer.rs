//! A RakNet peer written against the wire format only (refc), on a real UDP socket: what the library's listener and sessions talk to.
use crate::refc::*;
use crate::{note, R};
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;
use std::time::{Duration, Instant};
use tokio::net::UdpSocket;

pub const LONG: u64 = 20_000;
pub fn ping(t: i64, g: u64) -> Vec<u8> { cat(&[&[1], &be64(t as u64), &MAGIC, &be64(g)]) }
pub fn request1(v: u8, mtu: usize) -> Vec<u8> { cat(&[&[5], &MAGIC, &[v], &vec![0u8; mtu - 46]]) }
pub fn request2(a: &SocketAddr, mtu: u16, g: u64) -> Vec<u8> { cat(&[&[7], &MAGIC, &addr(a), &be16(mtu), &be64(g)]) }
pub fn connection_request(g: u64, t: i64) -> Vec<u8> { cat(&[&[9], &be64(g), &be64(t as u64), &[0]]) }
pub fn accepted(a: &SocketAddr, t: i64, t2: i64) -> Vec<u8> {
    let i = addr(&"255.255.255.255:19132".parse().unwrap()).repeat(10);
    cat(&[&[0x10], &addr(a), &be16(0), &i, &be64(t as u64), &be64(t2 as u64)])
}
pub fn new_incoming(a: &SocketAddr, t: i64, t2: i64) -> Vec<u8> {
    let i = addr(&"0.0.0.0:0".parse().unwrap()).repeat(10);
    cat(&[&[0x13], &addr(a), &i, &be64(t as u64), &be64(t2 as u64)])
}
pub fn connected_ping(t: i64) -> Vec<u8> { cat(&[&[0], &be64(t as u64)]) }

pub fn frame(rel: u8, reliable: u32, sequenced: u32, ordered: u32, data: Vec<u8>) -> F {
    F { flags: rel << 5, reliable: if has_reliable(rel) { reliable } else { 0 }, sequenced: if has_sequenced(rel) { sequenced } else { 0 }, ordered: if has_ordered(rel) { ordered } else { 0 },
        channel: 0, csize: 0, cid: 0, findex: 0, data }
}
pub fn to_ranges(s: &BTreeSet<u32>) -> Vec<(u32, u32)> {
    let mut v: Vec<(u32, u32)> = vec![];
    for n in s { match v.last_mut() { Some(x) if x.1 + 1 == *n => x.1 = *n, _ => v.push((*n, *n)) } }
    v
}

pub struct Peer {
    pub s: UdpSocket,
    pub remote: SocketAddr,
    pub me: SocketAddr,
    pub tag: String,
    /// next datagram number, reliable index, order index this peer uses
    pub num: u32,
    pub ri: u32,
    pub oi: u32,
    /// acknowledgement and missing lists of the library
    pub acks: Vec<(u32, u32)>,
    pub nacks: Vec<(u32, u32)>,
    /// data datagrams of the library
    pub nums: BTreeSet<u32>,
    pub reliable: BTreeMap<u32, F>,
    pub times: BTreeMap<u32, Vec<u32>>,
    pub when: BTreeMap<u32, Instant>,
    pub unreliable: Vec<F>,
    pub pending: BTreeSet<u32>,
    pub offline: Vec<Vec<u8>>,
    pub disconnects: u32,
    /// 0..=100: chance to leave a datagram unacknowledged, chance to ignore it altogether
    pub skip_ack: u64,
    pub lose: u64,
    /// 0: not checked
    pub mtu: usize,
    pub rng: crate::Rng,
    /// contract breaches seen in what the library sends: (property, text)
    pub bad: Vec<(&'static str, String)>,
}
impl Peer {
    pub async fn new(remote: SocketAddr, seed: u64, tag: &str) -> Result<Peer, String> {
        let s = UdpSocket::bind("127.0.0.1:0").await.map_err(|e| format!("SKIP bind {e}"))?;
        let me = s.local_addr().unwrap();
        Ok(Peer { s, remote, me, tag: tag.into(), num: 0, ri: 0, oi: 0, acks: vec![], nacks: vec![], nums: BTreeSet::new(), reliable: BTreeMap::new(), times: BTreeMap::new(), when: BTreeMap::new(),
            unreliable: vec![], pending: BTreeSet::new(), offline: vec![], disconnects: 0, skip_ack: 0, lose: 0, mtu: 0, rng: crate::Rng::new(seed), bad: vec![] })
    }
    pub async fn raw(&self, b: &[u8]) { let _ = self.s.send_to(b, self.remote).await; }
    /// a data datagram with the next number
    pub async fn frames(&mut self, fs: &[F]) -> u32 {
        let n = self.num;
        self.num += 1;
        let b = enc_datagram(0x84, n, fs);
        self.raw(&b).await;
        n
    }
    pub async fn ordered(&mut self, data: Vec<u8>) -> u32 {
        let f = frame(3, self.ri, 0, self.oi, data);
        self.ri += 1;
        self.oi += 1;
        self.frames(&[f]).await
    }
    pub async fn unrel(&mut self, data: Vec<u8>) -> u32 { self.frames(&[frame(0, 0, 0, 0, data)]).await }
    pub async fn send_acks(&mut self) {
        if self.pending.is_empty() { return; }
        let l = to_ranges(&std::mem::take(&mut self.pending));
        for c in l.chunks(150) { let b = records(0xc0, c); self.raw(&b).await; }
    }
    pub fn absorb(&mut self, b: &[u8]) {
        let Some(id) = b.first() else { return };
        match id {
            0x80..=0x8d => {
                let Some((_, n, fs)) = dec_datagram(b) else { self.bad.push(("C02", format!("the library sent a data datagram that can not be parsed: {:02x?}", &b[..b.len().min(40)]))); return };
                if self.mtu > 0 && b.len() + 28 > self.mtu { self.bad.push(("C05", format!("a data datagram of {} bytes plus 28 exceeds the mtu {}", b.len(), self.mtu))); }
                if !self.nums.insert(n) { self.bad.push(("C12", format!("datagram number {n} was used twice"))); }
                if self.lose > 0 && fs.iter().all(|f| has_reliable(rel(f.flags))) && self.rng.below(100) < self.lose { return; }
                if !(self.skip_ack > 0 && self.rng.below(100) < self.skip_ack) { self.pending.insert(n); }
                for f in fs {
                    if has_reliable(rel(f.flags)) {
                        self.times.entry(f.reliable).or_default().push(n);
                        self.when.insert(f.reliable, Instant::now());
                        match self.reliable.get(&f.reliable) {
                            Some(g) => if *g != f { let t = format!("reliable index {} was sent as {:02x?} and later as {:02x?}", f.reliable, (g.flags, g.sequenced, g.ordered, g.csize, g.cid, g.findex, g.data.len()), (f.flags, f.sequenced, f.ordered, f.csize, f.cid, f.findex, f.data.len())); self.bad.push(("C12", t)); },
                            None => { self.reliable.insert(f.reliable, f); }
                        }
                    } else { self.unreliable.push(f); }
                }
            }
            0xc0 => match read_records(b) { Some(l) => self.acks.extend(l), None => self.bad.push(("C02", "the library sent an acknowledgement that can not be parsed".into())) },
            0xa0 => match read_records(b) { Some(l) => self.nacks.extend(l), None => self.bad.push(("C02", "the library sent a negative acknowledgement that can not be parsed".into())) },
            0x15 => self.disconnects += 1,
            _ => self.offline.push(b.to_vec()),
        }
    }
    pub fn acked(&self, n: u32) -> bool { self.acks.iter().any(|(a, b)| *a <= n && n <= *b) }
    /// receive (and acknowledge) until `done`, at most `ms`; was it done?
    pub async fn until(&mut self, ms: u64, mut done: impl FnMut(&Peer) -> bool) -> bool {
        let end = Instant::now() + Duration::from_millis(ms);
        let mut buf = [0u8; 4096];
        loop {
            while let Ok((n, from)) = self.s.try_recv_from(&mut buf) { if from == self.remote { self.absorb(&buf[..n]); } }
            self.send_acks().await;
            if done(self) { return true; }
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() { return false; }
            let _ = tokio::time::timeout(left, self.s.readable()).await;
        }
    }
    pub async fn pump(&mut self, ms: u64) { self.until(ms, |_| false).await; }
    /// the offline part of the handshake, as a client; returns the second reply
    pub async fn offline_handshake(&mut self, version: u8, mtu: u16) -> Result<(), String> {
        for try_ in 0..10 {
            self.offline.clear();
            self.raw(&request1(version, 1400)).await;
            if !self.until(LONG / 10, |p| p.offline.iter().any(|b| b[0] == 6)).await { note!("{} no first reply (try {try_})", self.tag); continue; }
            let g = self.rng.next();
            let b = request2(&self.remote, mtu, g);
            self.raw(&b).await;
            if self.until(LONG / 10, |p| p.offline.iter().any(|b| b[0] == 8 || b[0] == 0x12)).await {
                if self.offline.iter().any(|b| b[0] == 8) { return Ok(()); }
                self.pump(100).await;
            }
        }
        Err("the listener does not complete the offline handshake (10 tries, 2 s each)".into())
    }
    /// connection request and the answer to it
    pub async fn online_handshake(&mut self) -> R {
        let t = self.rng.next() as i64;
        let n = self.ordered(connection_request(7, t)).await;
        if !self.until(LONG, |p| p.reliable.values().any(|f| f.data.first() == Some(&0x10))).await { return Err(format!("the connection request in datagram {n} is not answered within {LONG} ms")); }
        let f = self.reliable.values().find(|f| f.data[0] == 0x10).unwrap().data.clone();
        let w = accepted(&self.me, t, 0);
        if f.len() != w.len() || f[..w.len() - 8] != w[..w.len() - 8] { return Err(format!("the acceptance is {f:02x?}, expected {w:02x?} (the last 8 bytes may differ)")); }
        let b = new_incoming(&self.remote, t, 1);
        self.ordered(b).await;
        Ok(())
    }
}
