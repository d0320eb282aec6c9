//! The real listener and sessions on real UDP sockets (loopback) against a peer written from the wire format alone:
//! C14 refusals, C15 robustness, C16 answers and hand-up, C17 offline handshake, C18 closing, and the wire view of C05-C13.
//! Only absence of an answer is timed (20 s each, in lockstep with at most one datagram on its way), so load does not make it fail.
use engine::peer::*;
use engine::refc::*;
use engine::*;
use rust_raknet::error::RaknetError;
use rust_raknet::verif::{FrameVec, PacketID, RecvQ};
use rust_raknet::{RaknetListener, RaknetSocket, Reliability};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::net::SocketAddr;
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::sync::Mutex;
use tokio::time::timeout;

/// a breach and the properties it is a breach of
struct Bad(Vec<&'static str>, String);
type S<T> = Result<T, Bad>;
fn bad<T>(p: &[&'static str], t: String) -> S<T> { Err(Bad(p.to_vec(), t)) }
macro_rules! must { ($c:expr, $p:expr, $($a:tt)*) => { if !($c) { return Err(Bad($p.to_vec(), format!($($a)*))); } } }
fn ms(n: u64) -> Duration { Duration::from_millis(n) }
fn rel_of(k: u8) -> Reliability {
    match k { 0 => Reliability::Unreliable, 1 => Reliability::UnreliableSequenced, 2 => Reliability::Reliable, 3 => Reliability::ReliableOrdered, _ => Reliability::ReliableSequenced }
}
const ANY: &[&str] = &["C15", "C16", "C17", "C18", "C19"];

struct Hub { addr: SocketAddr, motd: String, got: Arc<Mutex<HashMap<SocketAddr, VecDeque<RaknetSocket>>>>, task: tokio::task::JoinHandle<()> }
impl Hub {
    async fn new(motd: &str, accept: bool) -> S<Hub> {
        let mut l = match RaknetListener::bind(&"127.0.0.1:0".parse().unwrap()).await { Ok(l) => l, Err(e) => return bad(&[], format!("bind {e:?}")) };
        if !motd.is_empty() { l.set_full_motd(motd.to_string()).unwrap(); }
        l.listen().await;
        let motd = l.get_motd().await;
        let addr = l.local_addr().unwrap();
        let got: Arc<Mutex<HashMap<SocketAddr, VecDeque<RaknetSocket>>>> = Default::default();
        let g = got.clone();
        let task = tokio::spawn(async move {
            if !accept { std::future::pending::<()>().await; }
            while let Ok(s) = l.accept().await { let a = s.peer_addr().unwrap(); g.lock().await.entry(a).or_default().push_back(s); }
        });
        Ok(Hub { addr, motd, got, task })
    }
    async fn take(&self, a: SocketAddr, wait: u64) -> Option<RaknetSocket> {
        let end = Instant::now() + ms(wait);
        loop {
            if let Some(s) = self.got.lock().await.get_mut(&a).and_then(|q| q.pop_front()) { return Some(s); }
            if Instant::now() > end { return None; }
            tokio::time::sleep(ms(1)).await;
        }
    }
}
impl Drop for Hub { fn drop(&mut self) { self.task.abort(); } }

/// what the peer's datagrams must bring about
struct Sess {
    p: Peer, lib: Arc<RaknetSocket>, mirror: RecvQ, user: VecDeque<(u8, bool, Vec<u8>)>, pongs: Vec<i64>, accepts: usize, incomings: usize,
    sent: BTreeSet<u32>, gaps: Vec<(u32, u32)>, max: u32, past: Vec<(u32, Vec<u8>)>, server: bool,
}
impl Sess {
    /// a session the listener accepted from us
    async fn server(h: &Hub, r: &mut Rng, tag: &str) -> S<Sess> {
        let mut p = match Peer::new(h.addr, r.next(), tag).await { Ok(p) => p, Err(e) => return bad(&[], e) };
        let v = *r.pick(&[10u8, 11]);
        let mtu = *r.pick(&[1400u16, 576, 1492, 400]);
        if let Err(e) = p.offline_handshake(v, mtu).await { return bad(&["C15", "C17"], format!("{tag}: {e}")); }
        p.mtu = mtu as usize;
        let Some(lib) = h.take(p.me, LONG).await else { return bad(&["C17", "C15"], format!("{tag}: no connection from {} is accepted after its handshake", p.me)) };
        must!(lib.raknet_version().unwrap() == v, ["C17"], "{tag}: the session of a version {v} client says version {}", lib.raknet_version().unwrap());
        must!(lib.peer_addr().unwrap() == p.me, ["C17"], "{tag}: the session's peer is {}", lib.peer_addr().unwrap());
        let mut s = Sess { p, lib: Arc::new(lib), mirror: RecvQ::new(), user: VecDeque::new(), pongs: vec![], accepts: 0, incomings: 0, sent: BTreeSet::new(), gaps: vec![], max: 0, past: vec![], server: true };
        let t = r.next() as i64;
        s.ordered(connection_request(7, t)).await?;
        s.accept_answer(t).await?;
        let b = new_incoming(&h.addr, t, 1);
        s.ordered(b).await?;
        Ok(s)
    }
    async fn accept_answer(&mut self, t: i64) -> S<()> {
        let n = self.accepts;
        let w = accepted(&self.p.me, t, 0);
        let like = |f: &F| f.flags & 0x10 == 0 && f.data.first() == Some(&0x10); // a whole message: a fragment's bytes may begin with anything
        must!(self.p.until(LONG, |p| p.reliable.values().filter(|f| like(f)).count() >= n).await, ["C16"], "{}: a connection request with time {t} is not answered", self.p.tag);
        let f = self.p.reliable.values().filter(|f| like(f)).last().unwrap();
        must!(f.data.len() == w.len() && f.data[..w.len() - 8] == w[..w.len() - 8] && f.flags == 3 << 5, ["C16"], "{}: the acceptance is {:02x?} (flags {}), expected {w:02x?} up to the last 8 bytes", self.p.tag, f.data, f.flags);
        Ok(())
    }
    /// a session the library opened to us
    async fn client(r: &mut Rng, tag: &str) -> S<Sess> {
        let mut p = match Peer::new("127.0.0.1:1".parse().unwrap(), r.next(), tag).await { Ok(p) => p, Err(e) => return bad(&[], e) };
        let me = p.me;
        let lib = tokio::spawn(async move { RaknetSocket::connect(&me).await });
        let mut buf = [0u8; 4096];
        let Ok(Ok((n, from))) = timeout(ms(LONG), p.s.recv_from(&mut buf)).await else { return bad(&["C16"], format!("{tag}: connect sends nothing")) };
        let w = cat(&[&[5], &MAGIC, &[10], &[0u8; 1400 - 46]]);
        must!(buf[..n] == w[..], ["C02", "C16"], "{tag}: first request of {n} bytes {:02x?}", &buf[..n.min(30)]);
        p.remote = from;
        let mtu = *r.pick(&[1400u16, 576, 1492, 400]);
        p.mtu = mtu as usize;
        p.raw(&cat(&[&[6], &MAGIC, &be64(9), &[0], &be16(mtu)])).await;
        must!(p.until(LONG, |p| p.offline.iter().any(|b| b[0] == 7)).await, ["C16"], "{tag}: connect does not send the second request");
        let b = p.offline.iter().find(|b| b[0] == 7).unwrap();
        let w = cat(&[&[7], &MAGIC, &addr(&me), &be16(mtu)]);
        must!(b.len() == w.len() + 8 && b[..w.len()] == w[..], ["C02", "C16"], "{tag}: second request {b:02x?}, expected {w:02x?} and an id");
        p.raw(&cat(&[&[8], &MAGIC, &be64(9), &addr(&from), &be16(mtu), &[0]])).await;
        must!(p.until(LONG, |p| p.reliable.values().any(|f| f.data.first() == Some(&9))).await, ["C16"], "{tag}: connect does not send a connection request");
        let f = p.reliable.values().find(|f| f.data[0] == 9).unwrap().clone();
        must!(f.data.len() == 18, ["C02", "C16"], "{tag}: connection request {:02x?}", f.data);
        let t = i64::from_be_bytes(f.data[9..17].try_into().unwrap());
        // the acceptance, before the session object exists
        let data = accepted(&from, t, t + 1);
        let fr = frame(3, 0, 0, 0, data);
        let b = enc_datagram(0x84, 0, &[fr]);
        p.raw(&b).await;
        (p.num, p.ri, p.oi) = (1, 1, 1);
        must!(p.until(LONG, |p| p.reliable.values().any(|f| f.data.first() == Some(&0x13))).await, ["C16"], "{tag}: the connection acceptance is not answered with a new-incoming-connection");
        let lib = match timeout(ms(LONG), lib).await { Ok(Ok(Ok(l))) => l, Ok(Ok(Err(e))) => return bad(&["C16"], format!("{tag}: connect failed: {e:?}")), _ => return bad(&["C16"], format!("{tag}: connect does not return after the acceptance")) };
        let mut mirror = RecvQ::new();
        for f in FrameVec::new(b.clone()).unwrap().frames { mirror.insert(f).unwrap(); mirror.flush(&me); }
        Ok(Sess { p, lib: Arc::new(lib), mirror, user: VecDeque::new(), pongs: vec![], accepts: 0, incomings: 1, sent: [0].into(), gaps: vec![], max: 0, past: vec![(0, b)], server: false })
    }
    /// one datagram from the peer: send it and work out what it has to bring about
    async fn deliver(&mut self, b: Vec<u8>) {
        let mut num = None;
        if let Ok(fv) = FrameVec::new(b.clone()) {
            for f in fv.frames {
                let n = f.sequence_number;
                num = Some(n);
                self.sent.insert(n);
                if n > self.max { if n > self.max + 1 { self.gaps.push((self.max + 1, n - 1)); } self.max = n; }
                let frag = f.flags & 16 != 0;
                if self.mirror.insert(f).is_err() { continue; }
                for f in self.mirror.flush(&self.p.remote) { self.hand_up(f.flags >> 5, frag, f.data); }
            }
        }
        if let Some(n) = num { self.past.push((n, b.clone())); }
        self.p.raw(&b).await;
    }
    fn hand_up(&mut self, rel: u8, frag: bool, d: Vec<u8>) {
        if d.is_empty() || PacketID::from(d[0]).is_err() { return; }
        match d[0] {
            9 => if d.len() >= 18 { self.accepts += 1; },
            0x10 => if addr_len(&d, 1).map_or(false, |a| d.len() >= 1 + a + 2) { self.incomings += 1; },
            0 => if d.len() >= 9 { self.pongs.push(i64::from_be_bytes(d[1..9].try_into().unwrap())); },
            0x13 | 3 => {}
            _ => self.user.push_back((rel, frag, d)),
        }
    }
    async fn acked(&mut self, n: u32) -> S<()> {
        must!(self.p.until(LONG, |p| p.acked(n)).await, ["C09", "C16"], "{}: the datagram with number {n} is not acknowledged within {LONG} ms", self.p.tag);
        Ok(())
    }
    async fn ordered(&mut self, data: Vec<u8>) -> S<()> {
        let f = frame(3, self.p.ri, 0, self.p.oi, data);
        self.p.ri += 1;
        self.p.oi += 1;
        self.datagram(&[f]).await
    }
    async fn datagram(&mut self, fs: &[F]) -> S<()> {
        let n = self.p.num;
        self.p.num += 1;
        self.deliver(enc_datagram(0x80 + (n % 14) as u8, n, fs)).await;
        self.acked(n).await
    }
    /// the application reads what has to have been handed up
    async fn read(&mut self) -> S<()> {
        while let Some((k, frag, w)) = self.user.pop_front() {
            let mut pr = vec!["C16"];
            if k == 3 { pr.push("C07") } else { pr.push("C08") }
            if frag { pr.push("C06") }
            match timeout(ms(LONG), self.lib.recv()).await {
                Ok(Ok(d)) => if d != w { return Err(Bad(pr, format!("{}: recv returned {:02x?} ({} bytes), the next message handed up is {:02x?} ({} bytes, reliability {k})", self.p.tag, &d[..d.len().min(24)], d.len(), &w[..w.len().min(24)], w.len()))); },
                Ok(Err(e)) => { pr.push("C15"); return Err(Bad(pr, format!("{}: recv failed ({e:?}) with a message waiting", self.p.tag))) }
                Err(_) => return Err(Bad(pr, format!("{}: recv does not return the message {:02x?} ({} bytes, reliability {k}) although it arrived and was acknowledged", self.p.tag, &w[..w.len().min(24)], w.len()))),
            }
        }
        Ok(())
    }
    async fn no_more(&mut self) -> S<()> {
        if let Ok(r) = timeout(ms(15), self.lib.recv()).await { return bad(&["C16", "C07", "C08"], format!("{}: recv returned {r:02x?}, nothing is waiting", self.p.tag)); }
        Ok(())
    }
    /// the datagrams of the library up to now
    fn wire(&mut self) -> S<()> {
        if let Some((p, t)) = self.p.bad.first() { return bad(&[p], format!("{}: {t}", self.p.tag)); }
        for (a, b) in &self.p.acks {
            must!(a <= b && b - a < 1_000_000 && (*a..=*b).all(|n| self.sent.contains(&n)), ["C09"], "{}: acknowledgement range {a}..{b} has numbers that were never sent", self.p.tag);
        }
        let mut seen = BTreeSet::new();
        for (a, b) in &self.p.nacks {
            must!(a <= b && b - a < 1_000_000, ["C10"], "{}: missing range {a}..{b}", self.p.tag);
            for n in *a..=*b {
                must!(self.gaps.iter().any(|g| g.0 <= n && n <= g.1), ["C10"], "{}: number {n} is reported missing but was never skipped", self.p.tag);
                must!(seen.insert(n), ["C10"], "{}: number {n} is reported missing twice", self.p.tag);
            }
        }
        Ok(())
    }
}

/// the reliable messages in the order they were queued: (kind, order index, sequenced index, data); None: not all fragments here yet
fn assemble(p: &Peer) -> S<Vec<(u8, u32, u32, Vec<u8>)>> {
    let mut v = vec![];
    let mut i = 0;
    while let Some(f) = p.reliable.get(&i) {
        let k = rel(f.flags);
        if f.flags & 16 == 0 { v.push((k, f.ordered, f.sequenced, f.data.clone())); i += 1; continue; }
        let mut d = vec![];
        must!(f.findex == 0 && f.csize > 0, ["C05"], "{}: reliable index {i} is fragment {} of {}, the first was expected", p.tag, f.findex, f.csize);
        for j in 0..f.csize {
            let Some(g) = p.reliable.get(&(i + j)) else { return Ok(v) };
            must!(g.flags == f.flags && g.findex == j && g.csize == f.csize && g.cid == f.cid && g.ordered == f.ordered, ["C05"], "{}: reliable index {}: fragment {}/{} of {}, order index {}, expected {j}/{} of {}, {}", p.tag, i + j, g.findex, g.csize, g.cid, g.ordered, f.csize, f.cid, f.ordered);
            d.extend(&g.data);
        }
        v.push((k, f.ordered, f.sequenced, d));
        i += f.csize;
    }
    Ok(v)
}
fn text(r: &mut Rng, n: usize, tag: u64) -> Vec<u8> {
    let mut v = vec![0xfe, tag as u8, (tag >> 8) as u8];
    v.extend(r.bytes(n.max(3) - 3));
    v.truncate(n.max(1));
    v
}

async fn session(h: Option<&Hub>, r: &mut Rng, tag: &str, steps: u64) -> S<String> {
    let mut s = match h { Some(h) => Sess::server(h, r, tag).await?, None => Sess::client(r, tag).await? };
    s.p.skip_ack = *r.pick(&[0, 0, 20, 50]);
    s.p.lose = *r.pick(&[0, 0, 20]);
    let cap = s.p.mtu - 60;
    let mut said: Vec<(u8, Vec<u8>)> = vec![];
    let mut quiet: Vec<Vec<u8>> = vec![];
    let (mut si, mut cid) = (0u32, 0u16);
    let mut held: Vec<Vec<u8>> = vec![];
    for step in 0..steps {
        match r.below(12) {
            0..=4 => { // a datagram of the peer
                if r.chance(1, 8) { s.p.num += 1 + r.below(3) as u32; }
                let mut fs = vec![];
                for _ in 0..if r.chance(1, 3) { r.range(1, 3) } else { 1 } {
                    let n = match r.below(4) { 0 => 1, 1 => r.range(1, 60), 2 => r.range(1, 400), _ => r.range(1, 20) } as usize;
                    let mut d = text(r, n, step);
                    if r.chance(1, 6) { d[0] = *r.pick(&[1u8, 2, 0x1c, 5, 6, 7, 8, 0x12, 0x19, 0x80, 0x84, 0x8d, 0xa0, 0xc0, 0xfe, 0x70, 0xff, 3, 0x13]); }
                    if r.chance(1, 30) { d.clear(); }
                    let k = *r.pick(&[0u8, 1, 2, 3, 3, 4]);
                    let f = match k {
                        3 => { let o = if r.chance(1, 6) { s.p.oi.saturating_sub(r.below(3) as u32) } else { s.p.oi += 1; s.p.oi - 1 }; frame(3, s.p.ri, 0, o, d) }
                        1 | 4 => { let x = if r.chance(1, 4) { si.saturating_sub(r.below(3) as u32) } else { si += 1; si }; frame(k, s.p.ri, x, 0, d) }
                        _ => frame(k, s.p.ri, 0, 0, d),
                    };
                    if has_reliable(k) { s.p.ri += 1; }
                    fs.push(f);
                }
                note!("{tag} -> datagram {} with {} frames", s.p.num, fs.len());
                if r.chance(1, 12) { let b = enc_datagram(0x84, s.p.num, &fs); s.p.num += 1; held.push(b); } else { s.datagram(&fs).await?; }
            }
            5 => { // an ordered message in fragments, in any order, some again
                let n = r.range(2, 6) as u32; let o = s.p.oi; s.p.oi += 1; cid = cid.wrapping_add(1);
                let mut v: Vec<F> = (0..n).map(|i| { let x = r.range(1, 300) as usize; let mut f = frame(3, s.p.ri + i, 0, o, r.bytes(x)); if i == 0 { f.data[0] = 0xfe; } f.flags |= 16; f.csize = n; f.cid = cid; f.findex = i; f }).collect();
                s.p.ri += n;
                r.shuffle(&mut v);
                if r.chance(1, 2) { let x = r.pick(&v).clone(); v.push(x); }
                note!("{tag} -> message in {n} fragments, order {:?}", v.iter().map(|f| f.findex).collect::<Vec<_>>());
                for f in v { s.datagram(&[f]).await?; }
            }
            6 => { // a connected ping
                let t = r.next() as i64;
                let k = r.below(2) as u8 * 2;
                let ri = s.p.ri; if k == 2 { s.p.ri += 1; }
                let lose = std::mem::replace(&mut s.p.skip_ack, 0);
                s.datagram(&[frame(k, ri, 0, 0, connected_ping(t))]).await?;
                let w = be64(t as u64);
                must!(s.p.until(LONG, |p| p.unreliable.iter().any(|f| f.data.len() == 17 && f.data[0] == 3 && f.data[1..9] == w)).await, ["C16"], "{tag}: no pong that echoes the timestamp {t}");
                s.p.skip_ack = lose;
            }
            7 => { // an old datagram again, or one held back
                if !held.is_empty() && r.chance(1, 2) { let b = held.remove(0); let n = u32::from_le_bytes([b[1], b[2], b[3], 0]); note!("{tag} -> late datagram {n}"); s.deliver(b).await; s.acked(n).await?; }
                else if !s.past.is_empty() { let (n, b) = r.pick(&s.past).clone(); s.p.acks.clear(); note!("{tag} -> datagram {n} again"); s.deliver(b).await; s.acked(n).await?; }
            }
            8 if s.server => { let t = r.int(63) as i64; let had = s.accepts; s.ordered(connection_request(1, t)).await?; s.read().await?; let (l, a) = (s.p.lose, s.p.skip_ack); (s.p.lose, s.p.skip_ack) = (0, 0); if s.accepts == had + 1 { s.accept_answer(t).await?; } (s.p.lose, s.p.skip_ack) = (l, a); }
            9 if r.chance(1, 3) => { // refused
                let st: (Vec<u8>, &str) = match r.below(3) { 0 => (vec![], "empty"), 1 => { let n = r.range(1, 50) as usize; let mut d = text(r, n, step); d[0] = *r.pick(&[0u8, 0xff, 0xfd, 0x15]); (d, "header") } _ => { let n = cap + 1 + r.below(3) as usize; (text(r, n, step), "size") } };
                let k = if st.1 == "size" { *r.pick(&[0u8, 1, 2, 4]) } else { r.below(5) as u8 };
                let x = s.lib.send(&st.0, rel_of(k)).await;
                note!("{tag} send refused ({}) {x:?}", st.1);
                must!(match st.1 { "size" => matches!(x, Err(RaknetError::PacketSizeExceedMTU)), _ => matches!(x, Err(RaknetError::PacketHeaderError)) }, ["C14"], "{tag}: sending {:02x?} ({} bytes, reliability {k}, mtu {}) gave {x:?}", &st.0[..st.0.len().min(8)], st.0.len(), s.p.mtu);
            }
            _ => { // the application sends
                let k = *r.pick(&[0u8, 1, 2, 3, 3, 4]);
                let n = match r.below(5) { 0 => 1, 1 => cap, 2 => r.range(1, cap as u64) as usize, 3 if k == 3 => r.range(1, 12 * cap as u64) as usize, _ => r.range(1, 40) as usize };
                let d = text(r, n, step);
                note!("{tag} send {n} bytes reliability {k}");
                let x = s.lib.send(&d, rel_of(k)).await;
                must!(x.is_ok(), ["C14", "C15"], "{tag}: sending {n} bytes with reliability {k} on an mtu of {} gave {x:?}", s.p.mtu);
                if has_reliable(k) { said.push((k, d)) } else { quiet.push(d) }
                if r.chance(1, 2) { s.p.pump(1).await; }
                if r.chance(1, 6) { let l: Vec<u32> = s.p.nums.iter().copied().collect(); if !l.is_empty() { let n = *r.pick(&l); if !s.p.acked(n) { s.p.raw(&records(0xa0, &[(n, n)])).await; } } }
            }
        }
        s.read().await?;
        s.wire()?;
    }
    for b in held.drain(..) { let n = u32::from_le_bytes([b[1], b[2], b[3], 0]); s.deliver(b).await; s.acked(n).await?; }
    s.read().await?;
    (s.p.skip_ack, s.p.lose) = (0, 0);
    // everything reliable arrives, in the order and with the indexes it was sent with
    let want = said.len() + s.accepts + s.incomings + if s.server { 0 } else { 1 };
    let all = s.p.until(LONG, |p| assemble(p).map_or(true, |v| v.len() >= want)).await;
    let v = assemble(&s.p)?;
    must!(all, ["C05", "C11"], "{tag}: {} of {want} reliable messages arrived within {LONG} ms", v.len());
    let got: Vec<(u8, Vec<u8>)> = v.iter().filter(|m| m.3.first() == Some(&0xfe)).map(|m| (m.0, m.3.clone())).collect();
    for (i, w) in said.iter().enumerate() { must!(got.get(i) == Some(w), ["C05", "C11"], "{tag}: message {i} sent with reliability {} and {} bytes arrived as {:?}", w.0, w.1.len(), got.get(i).map(|g| (g.0, g.1.len()))); }
    must!(got.len() == said.len() && v.len() == want, ["C05", "C14", "C16"], "{tag}: {} reliable messages arrived, {want} were sent", v.len());
    must!(v.iter().filter(|m| m.3.first() == Some(&0x10)).count() == s.accepts, ["C16"], "{tag}: {} acceptances for {} connection requests", v.iter().filter(|m| m.3.first() == Some(&0x10)).count(), s.accepts);
    must!(v.iter().filter(|m| m.3.first() == Some(&0x13)).count() == s.incomings, ["C16"], "{tag}: new-incoming-connection sent {} times for {} acceptances", v.iter().filter(|m| m.3.first() == Some(&0x13)).count(), s.incomings);
    for (i, m) in v.iter().filter(|m| m.0 == 3).enumerate() { must!(m.1 == i as u32, ["C05", "C14"], "{tag}: ordered message {i} has order index {}", m.1); }
    for f in s.p.unreliable.iter().filter(|f| f.data.first() == Some(&0xfe)) { must!(quiet.contains(&f.data), ["C05"], "{tag}: an unreliable message of {} bytes was never sent", f.data.len()); }
    let sq: Vec<u32> = v.iter().filter(|m| m.0 == 4).map(|m| m.2).collect();
    must!(sq.windows(2).all(|w| w[0] < w[1]), ["C05", "C14"], "{tag}: sequenced indexes {sq:?}");
    // acknowledged: drained, and never sent again
    let lib = s.lib.clone();
    let fl = tokio::spawn(async move { timeout(ms(LONG), lib.flush()).await });
    while !fl.is_finished() { s.p.pump(5).await; }
    match fl.await.unwrap() { Ok(Ok(())) => {} x => return bad(&["C11", "C18"], format!("{tag}: everything was acknowledged but flush gave {x:?}")) }
    s.p.pump(30).await;
    let top = s.p.nums.iter().max().copied().unwrap_or(0);
    s.p.pump(130).await;
    if let Some((i, t)) = s.p.times.iter().find(|(_, t)| t.iter().any(|n| *n > top)) { return bad(&["C11"], format!("{tag}: reliable index {i} was acknowledged and sent again, as {t:?}")); }
    // what was skipped is reported, once
    let gaps: BTreeSet<u32> = s.gaps.iter().flat_map(|g| g.0..=g.1).collect();
    must!(s.p.until(LONG, |p| p.nacks.iter().map(|(a, b)| (b - a + 1) as usize).sum::<usize>() >= gaps.len()).await, ["C10"], "{tag}: the skipped numbers {gaps:?} are not all reported missing: {:?}", s.p.nacks);
    s.wire()?;
    let n = s.pongs.len();
    let pongs = s.p.unreliable.iter().filter(|f| f.data.first() == Some(&3)).count();
    must!(pongs == n, ["C16"], "{tag}: {pongs} pongs for {n} pings");
    s.no_more().await?;
    Ok(format!("steps {steps} mtu {} peer datagrams {} library datagrams {} messages {} gaps {} pings {n}", s.p.mtu, s.sent.len(), s.p.nums.len(), want, gaps.len()))
}

/// acknowledgement and negative acknowledgement lists take effect for every number of every range
async fn lists(h: &Hub, r: &mut Rng, tag: &str) -> S<String> {
    let mut s = Sess::server(h, r, tag).await?;
    s.p.until(500, |_| false).await;
    s.p.skip_ack = 100;
    let n = r.range(3, 14) as usize * 2;
    let big = text(r, (s.p.mtu - 60) * n - 5, 1);
    let base = s.p.reliable.len() as u32;
    must!(s.lib.send(&big, Reliability::ReliableOrdered).await.is_ok(), ["C14"], "{tag}: send refused");
    let first: u32 = s.p.nums.iter().max().map_or(0, |x| x + 1);
    must!(s.p.until(LONG, |p| p.reliable.keys().filter(|k| **k >= base).count() >= n).await, ["C11"], "{tag}: {n} fragments sent, {} arrived", s.p.reliable.len() as u32 - base);
    // leave out one message: acknowledge all numbers seen of the others, in ranges
    let left = base + r.below(n as u64) as u32;
    let late = s.lib.clone();
    let fl = tokio::spawn(async move { late.flush().await });
    let end = Instant::now() + ms(LONG);
    let mut quiet_since: Option<Instant> = None;
    loop {
        let keep: BTreeSet<u32> = s.p.times[&left].iter().copied().collect();
        let set: BTreeSet<u32> = s.p.nums.iter().copied().filter(|x| *x >= first && !keep.contains(x)).collect();
        let mut l = to_ranges(&set);
        if r.chance(1, 2) { r.shuffle(&mut l); }
        let before = s.p.nums.iter().max().copied().unwrap();
        for c in l.chunks(100) { s.p.raw(&records(0xc0, c)).await; }
        s.p.pump(60).await;
        let others: Vec<u32> = s.p.times.iter().filter(|(i, t)| **i != left && **i >= base && t.iter().any(|x| *x > before)).map(|(i, _)| *i).collect();
        if others.is_empty() { if quiet_since.get_or_insert(Instant::now()).elapsed() > ms(700) { break; } } else { quiet_since = None; }
        must!(Instant::now() < end, ["C16", "C11"], "{tag}: {n} fragments, all numbers of all but one were acknowledged in ranges, but reliable indexes {others:?} are still sent");
    }
    must!(!fl.is_finished(), ["C11", "C18"], "{tag}: waiting for everything to be acknowledged returned with reliable index {left} unacknowledged");
    let c = s.p.times[&left].len();
    must!(s.p.until(LONG, |p| p.times[&left].len() > c).await, ["C11", "C16"], "{tag}: the unacknowledged message is not sent again");
    s.p.skip_ack = 0;
    s.p.pending = s.p.times[&left].iter().copied().collect();
    s.p.until(LONG, |_| fl.is_finished()).await;
    must!(fl.is_finished(), ["C11", "C16"], "{tag}: everything is acknowledged but flush does not return");
    Ok(format!("{n} {left}"))
}

/// a negative acknowledgement brings a retransmission long before the timeout does
async fn nack_live(h: &Hub, r: &mut Rng, tag: &str) -> S<String> {
    let mut s = Sess::server(h, r, tag).await?;
    s.p.until(300, |_| false).await;
    s.p.skip_ack = 100;
    let n = r.range(4, 9) as usize;
    let base = s.p.reliable.len() as u32;
    let big = text(r, (s.p.mtu - 60) * n - 5, 1);
    must!(s.lib.send(&big, Reliability::ReliableOrdered).await.is_ok(), ["C14"], "{tag}: send refused");
    // keep it unacknowledged until the timeout has grown past 6 s
    must!(s.p.until(LONG, |p| p.times.keys().filter(|k| **k >= base).count() >= n).await, ["C11"], "{tag}: not all fragments sent");
    s.p.until(45_000, |p| p.times.iter().filter(|(i, _)| **i >= base).all(|(_, t)| t.len() >= 13)).await;
    must!(s.p.times.iter().filter(|(i, _)| **i >= base).all(|(_, t)| t.len() >= 13), ["C11"], "{tag}: fewer than 13 transmissions of an unacknowledged message in 45 s");
    let cur: BTreeSet<u32> = s.p.times.iter().filter(|(i, _)| **i >= base).map(|(_, t)| *t.last().unwrap()).collect();
    let c: BTreeMap<u32, usize> = s.p.times.iter().map(|(i, t)| (*i, t.len())).collect();
    let l = to_ranges(&cur);
    note!("{tag} reports missing {l:?}");
    s.p.raw(&records(0xa0, &l)).await;
    let ok = s.p.until(2500, |p| p.times.iter().filter(|(i, _)| **i >= base).all(|(i, t)| t.len() > c[i])).await;
    let miss: Vec<u32> = s.p.times.iter().filter(|(i, t)| **i >= base && t.len() <= c[i]).map(|(i, _)| *i).collect();
    must!(ok, ["C16", "C13"], "{tag}: the numbers {l:?} were reported missing; reliable indexes {miss:?} (of {base}..{}) were not sent again within 2.5 s (their timeout is above 6 s)", base + n as u32);
    Ok(format!("{n}"))
}

async fn handshake(r: &mut Rng, tag: &str) -> S<String> {
    let n = r.below(60) as usize;
    let motd: String = (0..n).map(|_| *r.pick(&['M', ';', '1', 'é', '漢', ' '])).collect();
    let h = Hub::new(&motd, true).await?;
    must!(motd.is_empty() || h.motd == motd, ["C17"], "{tag}: get_motd gives {:?}", h.motd);
    let mut ps = vec![];
    for i in 0..4 { ps.push(Peer::new(h.addr, r.next(), &format!("{tag}.{i}")).await.map_err(|e| Bad(vec![], e))?); }
    let mut open: Vec<Option<RaknetSocket>> = vec![None, None, None, None];
    let mut said: Vec<VecDeque<Vec<u8>>> = vec![VecDeque::new(); 4];
    let mut ver = [10u8; 4];
    let mut used: Vec<BTreeSet<u32>> = vec![BTreeSet::new(); 4];
    let mut guid: Option<[u8; 8]> = None;
    let mut log = vec![];
    for step in 0..r.range(6, 30) {
        let i = r.below(4) as usize;
        let me = ps[i].me;
        ps[i].offline.clear();
        let mut gchk = |g: &[u8], what: &str| -> S<()> { let g: [u8; 8] = g.try_into().unwrap(); if *guid.get_or_insert(g) != g { return bad(&["C17"], format!("{tag}: the listener's id changed in {what}")); } Ok(()) };
        macro_rules! reply { ($id:expr, $what:expr) => {{
            let id: u8 = $id;
            if !ps[i].until(LONG, |p| !p.offline.is_empty()).await { return bad(&["C17", "C15"], format!("{tag}: no reply to {}", $what)); }
            let b = ps[i].offline[0].clone();
            must!(b[0] == id, ["C17"], "{tag}: {} is answered with message {:#04x}, expected {id:#04x}", $what, b[0]);
            b
        }} }
        let t = r.next() as i64;
        let what;
        match r.below(9) {
            0 => {
                what = "a ping".to_string(); note!("{tag}.{i} {what}");
                let mut b = ping(t, r.next()); b[0] = *r.pick(&[1, 2]);
                ps[i].raw(&b).await;
                let b = reply!(0x1c, what);
                let w = cat(&[&MAGIC, &be16(h.motd.len() as u16), h.motd.as_bytes()]);
                must!(b.len() == 17 + w.len() && b[17..] == w[..], ["C17", "C02"], "{tag}: the pong is {b:02x?}, after 17 bytes {w:02x?} is expected");
                gchk(&b[9..17], "a pong")?;
            }
            1 | 2 => {
                let v = match r.below(3) { 0 => 10, 1 => 11, _ => r.int(8) as u8 };
                what = format!("a first request with version {v}"); note!("{tag}.{i} {what}");
                let m = r.range(46, 1464) as usize;
                ps[i].raw(&request1(v, m)).await;
                if v == 10 || v == 11 {
                    let b = reply!(6, what);
                    must!(b.len() == 28 && b[1..17] == MAGIC && b[25] == 0 && b[26..] == be16(1400), ["C17", "C02"], "{tag}: first reply {b:02x?}");
                    gchk(&b[17..25], "a first reply")?;
                    ver[i] = v;
                } else {
                    let b = reply!(0x19, what);
                    must!(b.len() == 26 && b[1] == 10 && b[2..18] == MAGIC, ["C17", "C02"], "{tag}: incompatible-version message {b:02x?}");
                    gchk(&b[18..], "an incompatible-version message")?;
                }
            }
            3 | 4 => {
                let m = match r.below(3) { 0 => 1400, 1 => r.int(16) as u16, _ => r.range(400, 1500) as u16 };
                what = format!("a second request with mtu {m} (session open: {})", open[i].is_some()); note!("{tag}.{i} {what}");
                ps[i].raw(&request2(&h.addr, m, r.next())).await;
                if open[i].is_some() {
                    let b = reply!(0x12, what);
                    must!(b.len() == 25 && b[1..17] == MAGIC, ["C17", "C02"], "{tag}: already-connected message {b:02x?}");
                    gchk(&b[17..], "an already-connected message")?;
                } else {
                    let b = reply!(8, what);
                    let w = cat(&[&addr(&me), &be16(m), &[0]]);
                    must!(b.len() == 25 + w.len() && b[1..17] == MAGIC && b[25..] == w[..], ["C17", "C02"], "{tag}: second reply {b:02x?}, after the id {w:02x?} is expected");
                    gchk(&b[17..25], "a second reply")?;
                    let Some(s) = h.take(me, LONG).await else { return bad(&["C17"], format!("{tag}: {what} opens no session")) };
                    must!(s.peer_addr().unwrap() == me && s.raknet_version().unwrap() == ver[i], ["C17"], "{tag}: the session of {me} (version {}) has peer {} and version {}", ver[i], s.peer_addr().unwrap(), s.raknet_version().unwrap());
                    open[i] = Some(s);
                    (ps[i].num, used[i]) = (0, BTreeSet::new());
                }
            }
            5 => { // nothing of this may be answered by the listener or open a session
                let b = match r.below(5) { 0 => vec![], 1 => { let x = *r.pick(&[0x04u8, 0x70, 0xff, 0x0a]); let mut v = vec![x]; v.extend(r.bytes(20)); v } 2 => { let f = ping(t, 1); f[..r.range(1, 32) as usize].to_vec() }
                    3 => { let f = request1(10, 100); f[..r.range(1, 17) as usize].to_vec() } _ => { let f = request2(&h.addr, 1400, 5); f[..r.range(1, f.len() as u64 - 1) as usize].to_vec() } };
                what = format!("{:02x?}", &b[..b.len().min(40)]); note!("{tag}.{i} {what}");
                ps[i].raw(&b).await;
            }
            6 if open[i].is_none() => { // connected messages without a session
                let b = match r.below(4) { 0 => vec![0x15], 1 => records(0xc0, &[(0, 3)]), 2 => records(0xa0, &[(0, 3)]), _ => enc_datagram(0x84, 0, &[frame(0, 0, 0, 0, vec![0xfe, 1])]) };
                what = format!("{:02x?} without a session", b); note!("{tag}.{i} {what}");
                ps[i].raw(&b).await;
                must!(h.take(me, 3).await.is_none(), ["C17"], "{tag}: {what} opened a session");
            }
            7 if open[i].is_some() && r.chance(1, 3) => { // gone, then free again
                what = "a disconnect".to_string(); note!("{tag}.{i} {what}");
                ps[i].raw(&[0x15]).await;
                open[i] = None; said[i].clear();
                let mut ok = false;
                for _ in 0..200 {
                    ps[i].offline.clear();
                    ps[i].raw(&request2(&h.addr, 1400, 1)).await;
                    let _ = ps[i].until(LONG, |p| !p.offline.is_empty()).await;
                    if ps[i].offline.first().map(|b| b[0]) == Some(8) { ok = true; break; }
                    ps[i].pump(50).await;
                }
                must!(ok, ["C17", "C18"], "{tag}: no new session for {me} within 10 s of a disconnect");
                let Some(s) = h.take(me, LONG).await else { return bad(&["C17", "C18"], format!("{tag}: a second reply after a disconnect, but no session")) };
                open[i] = Some(s);
                (ps[i].num, used[i]) = (0, BTreeSet::new());
            }
            _ if open[i].is_some() => { // reaches the session of its address and no other
                let n = match r.below(3) { 0 => r.range(4, 1900), _ => r.range(4, 60) } as usize;
                let d = text(r, n, step);
                what = format!("a message of {n} bytes"); note!("{tag}.{i} {what}");
                ps[i].unrel(d.clone()).await;
                match timeout(ms(LONG), open[i].as_ref().unwrap().recv()).await { Ok(Ok(x)) => must!(x == d, ["C17", "C16"], "{tag}: {what} for the session of {me} was handed up there as {:02x?}, expected {:02x?}", &x[..x.len().min(20)], &d[..20.min(d.len())]), e => return bad(&["C17", "C16"], format!("{tag}: {what} does not reach the session of its address: {e:?}")) }
            }
            _ => { what = String::new(); }
        }
        // nothing else was answered
        if !what.is_empty() && r.chance(1, 2) {
            ps[i].offline.clear();
            ps[i].raw(&ping(1, 1)).await;
            must!(ps[i].until(LONG, |p| !p.offline.is_empty()).await, ["C15", "C17"], "{tag}: after {what} a ping is not answered");
            must!(ps[i].offline.len() == 1 && ps[i].offline[0][0] == 0x1c, ["C17"], "{tag}: after {what} there are more answers: {:02x?}", ps[i].offline.iter().map(|b| b[0]).collect::<Vec<_>>());
        }
        log.push(what);
        let _ = (&said, &used);
    }
    for i in 0..4 {
        must!(h.take(ps[i].me, 0).await.is_none(), ["C17"], "{tag}: a second session was opened for {}", ps[i].me);
        if let Some(s) = &open[i] { if let Ok(x) = timeout(ms(3), s.recv()).await { return bad(&["C17"], format!("{tag}: the session of {} hands up {x:02x?}, which was not sent to it", ps[i].me)); } }
    }
    Ok(log.join(", ").chars().take(300).collect())
}

fn closed<T: std::fmt::Debug>(r: &Result<T, RaknetError>) -> bool { matches!(r, Err(RaknetError::ConnectionClosed)) }
async fn close(h: &Hub, server: bool, r: &mut Rng, tag: &str) -> S<String> {
    let mut s = if server { Sess::server(h, r, tag).await? } else { Sess::client(r, tag).await? };
    let busy = r.chance(1, 3);
    if r.chance(1, 2) { let n = r.range(1, 3000) as usize; let d = text(r, n, 3); must!(s.lib.send(&d, Reliability::ReliableOrdered).await.is_ok(), ["C14"], "{tag}: send failed on an open connection"); }
    if busy { s.p.skip_ack = 100; }
    let k = r.below(60);
    for i in 0..k { let d = vec![0xfe, i as u8, 7]; let n = s.p.num; let f = match i % 3 { 0 => frame(0, 0, 0, 0, d), 1 => { s.p.ri += 1; frame(2, s.p.ri - 1, 0, 0, d) } _ => { s.p.ri += 1; s.p.oi += 1; frame(3, s.p.ri - 1, 0, s.p.oi - 1, d) } }; s.datagram(&[f]).await?; let _ = n; }
    let how = r.below(4);
    note!("{tag}: {k} messages handed up, then {}", ["local close", "disconnect datagram", "disconnect message", "drop"][how as usize]);
    let before = s.p.disconnects;
    let known = |p: &Peer| p.disconnects > before || p.reliable.values().any(|f| f.data == [0x15]);
    let (peer_end, tag) = (how == 1 || how == 2, tag.to_string());
    match how {
        0 => {
            let x = s.lib.close().await;
            must!(x.is_ok(), ["C18"], "{tag}: close gave {x:?}");
            must!(closed(&s.lib.send(&[0xfe], rel_of(r.below(5) as u8)).await), ["C18", "C14"], "{tag}: send right after close is not refused as closed");
            must!(closed(&s.lib.flush().await), ["C18"], "{tag}: flush right after close is not refused as closed");
            must!(s.lib.close().await.is_ok(), ["C18"], "{tag}: a second close failed");
        }
        1 => s.p.raw(&[0x15]).await,
        2 => { s.ordered(vec![0x15]).await.ok(); }
        _ => {}
    }
    if peer_end {
        let end = Instant::now() + ms(LONG);
        loop {
            let x = s.lib.send(&[0xfe, 1], Reliability::Reliable).await;
            if closed(&x) { break; }
            must!(x.is_ok(), ["C18", "C14"], "{tag}: send after the peer disconnected gave {x:?}");
            must!(Instant::now() < end, ["C18"], "{tag}: the peer disconnected {LONG} ms ago and send still succeeds");
            s.p.pump(5).await;
        }
        must!(closed(&s.lib.flush().await), ["C18"], "{tag}: flush on a closed connection is not refused as closed");
    }
    if how == 3 {
        let l = std::mem::replace(&mut s.lib, Arc::new(match Sess::client(r, &format!("{tag}x")).await { Ok(x) => Arc::try_unwrap(x.lib).ok().unwrap(), Err(e) => return Err(e) }));
        drop(l);
        must!(s.p.until(LONG, known).await, ["C18"], "{tag}: the socket was dropped and the peer is not told within {LONG} ms");
    } else {
        for i in 0..k {
            match timeout(ms(LONG), s.lib.recv()).await { Ok(Ok(d)) => must!(d == [0xfe, i as u8, 7], ["C18", "C16"], "{tag}: message {i} handed up before the close reads {d:02x?}"), x => return bad(&["C18"], format!("{tag}: message {i} of {k}, handed up before the close, is not readable: {x:?}")) }
        }
        if how == 0 { must!(s.p.until(LONG, known).await, ["C18"], "{tag}: the connection was closed and the peer is not told within {LONG} ms"); }
        let lib = s.lib.clone();
        let rx = tokio::spawn(async move { timeout(ms(LONG), lib.recv()).await });
        while !rx.is_finished() { s.p.pump(10).await; }
        match rx.await.unwrap() { Ok(Err(RaknetError::ConnectionClosed)) => {} x => return bad(&["C18"], format!("{tag}: recv on a closed connection with nothing left to read gave {x:?}")) }
        for _ in 0..3 { must!(closed(&s.lib.send(&[0xfe, 2], rel_of(r.below(5) as u8)).await) && closed(&s.lib.flush().await), ["C18"], "{tag}: a closed connection accepts a send or flush again"); }
    }
    if server {
        // the same address again, at once or later; the new session is not disturbed by the end of the old one
        if r.chance(1, 2) { s.p.pump(r.below(150)).await; }
        let me = s.p.me;
        let seed = r.next();
        let mut p = s.p;
        p.skip_ack = 0;
        p.pending.clear();
        if let Err(e) = p.offline_handshake(10, 1400).await { return bad(&["C18", "C17"], format!("{tag}: reconnecting from the same address: {e}")); }
        let Some(lib) = h.take(me, LONG).await else { return bad(&["C18", "C17"], format!("{tag}: reconnected from the same address but no session is accepted")) };
        (p.num, p.ri, p.oi) = (0, 0, 0);
        (p.acks, p.nums, p.reliable, p.times, p.unreliable) = Default::default();
        p.rng = Rng::new(seed);
        for i in 0..4u8 {
            let n = p.unrel(vec![0xfe, 0x99, i]).await;
            must!(p.until(LONG, |p| p.acked(n)).await, ["C18", "C15"], "{tag}: the session opened from the same address after the end of the old one does not acknowledge message {i}, sent {} ms after it opened", i as u32 * 60);
            match timeout(ms(LONG), lib.recv()).await { Ok(Ok(d)) if d == [0xfe, 0x99, i] => {} x => return bad(&["C18", "C15"], format!("{tag}: the session opened from the same address after the end of the old one hands up {x:02x?} for message {i}")) }
            p.pump(60).await;
        }
        let x = lib.send(&[0xfe, 5], Reliability::Reliable).await;
        must!(x.is_ok() && p.until(LONG, |p| p.reliable.values().any(|f| f.data == [0xfe, 5])).await, ["C18", "C15"], "{tag}: the session opened from the same address after the end of the old one does not send: {x:?}");
    }
    Ok(format!("{server} {how} {k} {busy}"))
}

fn garbage_datagram(r: &mut Rng, h: SocketAddr, me: SocketAddr) -> Vec<u8> {
    let fr = |r: &mut Rng| { let k = r.below(5) as u8; let n = r.below(40) as usize; let mut f = frame(k, r.int(24) as u32, r.int(24) as u32, r.int(24) as u32, r.bytes(n));
        if r.chance(1, 2) && !f.data.is_empty() { f.data[0] = *r.pick(&[0u8, 1, 2, 3, 5, 6, 7, 8, 9, 0x10, 0x12, 0x13, 0x19, 0x1c, 0x80, 0x8d, 0xa0, 0xc0, 0xfe]); }
        if r.chance(1, 3) { f.flags |= 16; f.csize = *r.pick(&[0, 1, 2, 3, 0xffff_ffff, 1000]); f.cid = r.below(3) as u16; f.findex = *r.pick(&[0, 1, 2, 0xffff_ffff, 5]); } f };
    let mut b = match r.below(14) {
        0 => { let n = r.below(2048) as usize; r.bytes(n) }
        1 => { let n = r.below(30) as usize; r.bytes(n) }
        2 => vec![*r.pick(&[0u8, 1, 2, 3, 5, 6, 7, 8, 9, 0x10, 0x12, 0x13, 0x19, 0x1c, 0x80, 0x84, 0x8d, 0xa0, 0xc0, 0xfe, 0xff])],
        3 => ping(r.next() as i64, r.next()),
        4 => request1(r.int(8) as u8, r.range(46, 1400) as usize),
        5 => request2(&h, r.int(16) as u16, r.next()),
        6 => { let n = r.below(290) as usize; let l: Vec<(u32, u32)> = (0..n).map(|_| (r.int(24) as u32, r.int(24) as u32)).collect(); records(*r.pick(&[0xa0, 0xc0]), &l) }
        7 => { let l: Vec<(u32, u32)> = (0..r.range(1, 290)).map(|_| (r.below(3) as u32, 0xffffff)).collect(); records(*r.pick(&[0xa0, 0xc0]), &l) }
        8 => { let mut b = records(*r.pick(&[0xa0, 0xc0]), &[(1, 5), (7, 7)]); let x = r.below(3) as usize; b[x.max(1)] = r.int(8) as u8; b }
        9 | 10 => { let fs: Vec<F> = (0..r.range(1, 4)).map(|_| fr(r)).collect(); enc_datagram(*r.pick(&[0x80, 0x84, 0x8d]), r.int(24) as u32, &fs) }
        11 => { let d = match r.below(3) { 0 => accepted(&me, 1, 2), 1 => new_incoming(&me, 1, 2), _ => connection_request(1, 2) }; let n = r.range(1, d.len() as u64) as usize; enc_datagram(0x84, r.int(24) as u32, &[frame(0, 0, 0, 0, d[..n].to_vec())]) }
        12 => cat(&[&[6], &MAGIC, &be64(9), &[0], &be16(r.int(16) as u16)]),
        _ => { let fs = [fr(r)]; let mut b = enc_datagram(0x84, r.below(40) as u32, &fs); let l = b.len(); b[5 + r.below(2) as usize] = r.int(8) as u8; b.truncate(l); b }
    };
    if r.chance(1, 4) && !b.is_empty() { let n = r.range(1, b.len() as u64) as usize; b.truncate(n); }
    if r.chance(1, 4) && !b.is_empty() { let i = r.below(b.len() as u64) as usize; b[i] ^= 1 << r.below(8); }
    // disconnects of an established peer legitimately end its session
    if b.first() == Some(&0x15) { b[0] = 0x16; }
    if let Some((_, _, fs)) = dec_datagram(&b) { if fs.iter().any(|f| f.data.first() == Some(&0x15)) { b[0] = 0x7f; } }
    b
}
async fn garbage(r: &mut Rng, tag: &str) -> S<String> {
    let h = Hub::new("", true).await?;
    let mut ss = vec![];
    let mut heard: Vec<Arc<Mutex<BTreeSet<Vec<u8>>>>> = vec![];
    for i in 0..3 {
        let s = Sess::server(&h, r, &format!("{tag}.{i}")).await?;
        let (l, q) = (s.lib.clone(), Arc::new(Mutex::new(BTreeSet::new())));
        let qq = q.clone();
        // the application keeps receiving
        tokio::spawn(async move { while let Ok(d) = l.recv().await { qq.lock().await.insert(d); } });
        heard.push(q);
        ss.push(s);
    }
    let mut strangers = vec![];
    for i in 0..3 { strangers.push(Peer::new(h.addr, r.next(), &format!("{tag}.s{i}")).await.map_err(|e| Bad(vec![], e))?); }
    let rounds = r.range(2, 4);
    let mut sent = 0;
    for round in 0..rounds {
        let mut last = vec![];
        for i in 0..r.range(10, 80) {
            let w = r.below(6) as usize;
            let p = if w < 3 { &mut strangers[w] } else { &mut ss[w % 2].p }; // sessions 0 and 1 misbehave, 2 does not
            let b = garbage_datagram(r, h.addr, p.me);
            p.raw(&b).await;
            sent += 1;
            last.push(format!("{}:{:02x?}({})", if w < 3 { "stranger" } else { "session" }, &b[..b.len().min(12)], b.len()));
            if i % 8 == 7 { tokio::time::sleep(ms(1)).await; for p in strangers.iter_mut() { p.until(0, |_| true).await; } }
        }
        for l in &last { note!("{l}"); }
        // alive?
        let mut q = Peer::new(h.addr, r.next(), tag).await.map_err(|e| Bad(vec![], e))?;
        let mut pong = false;
        for _ in 0..10 { q.raw(&ping(1, 2)).await; if q.until(LONG / 10, |p| p.offline.iter().any(|b| b[0] == 0x1c)).await { pong = true; break; } }
        must!(pong, ["C15"], "{tag}: after {sent} datagrams the listener does not answer a ping within {LONG} ms");
        for i in 0..3 {
            let s = &mut ss[i];
            let d = vec![0xfe, 0x77, round as u8, i as u8, 0x33];
            // twice: an arbitrary datagram may have carried the same number before
            for t in 0..2u32 { s.p.num = 0x300000 + round as u32 * 64 + t; s.p.acks.clear(); let n = s.p.unrel(d.clone()).await;
                let mut ok = false;
                for _ in 0..10 { if s.p.until(LONG / 10, |p| p.acked(n)).await { ok = true; break; } s.p.num = n; s.p.unrel(d.clone()).await; }
                must!(ok, ["C15"], "{tag}: after {sent} datagrams session {i} does not acknowledge its peer's datagram {n} within {LONG} ms"); }
            let end = Instant::now() + ms(LONG);
            while !heard[i].lock().await.contains(&d) { must!(Instant::now() < end, ["C15"], "{tag}: after {sent} datagrams session {i} does not hand up its peer's message"); tokio::time::sleep(ms(1)).await; }
            let d = vec![0xfe, 0x78, round as u8, i as u8];
            let x = s.lib.send(&d, Reliability::ReliableOrdered).await;
            must!(x.is_ok(), ["C15"], "{tag}: after {sent} datagrams sending on session {i} gives {x:?}");
            // sessions 0 and 1 may have acknowledged the message before it was sent
            if i == 2 { must!(s.p.until(LONG, |p| p.reliable.values().any(|f| f.data == d)).await, ["C15"], "{tag}: after {sent} datagrams session {i} does not send"); }
            must!(!closed(&s.lib.send(&[0xfe], Reliability::Unreliable).await), ["C15"], "{tag}: session {i} was closed by datagrams that are no disconnect");
        }
        let _ = Sess::server(&h, r, &format!("{tag}.new{round}")).await.map_err(|e| Bad(vec!["C15"], e.1))?;
    }
    if let Some(p) = panicked() { return bad(&["C15", "C03"], format!("{tag}: a task of the library panicked: {p}")); }
    Ok(format!("{rounds} {sent}"))
}
/// reproduces the known finding: a session whose application does not receive stops the listener
async fn stalled_reader(r: &mut Rng) -> S<bool> {
    let h = Hub::new("", true).await?;
    let mut s = Sess::server(&h, r, "k").await?;
    for i in 0..160u32 { s.p.unrel(vec![0xfe, i as u8]).await; if i % 8 == 0 { s.p.pump(2).await; } }
    s.p.pump(300).await;
    let mut q = Peer::new(h.addr, 3, "q").await.map_err(|e| Bad(vec![], e))?;
    q.raw(&ping(1, 2)).await;
    let ok = q.until(2500, |p| !p.offline.is_empty()).await;
    drop(s);
    Ok(!ok)
}

/// an application that accepts late: up to ten sessions wait, requests beyond are not answered until one is accepted
async fn unaccepted(r: &mut Rng, tag: &str) -> S<String> {
    let any: SocketAddr = "127.0.0.1:0".parse().unwrap();
    let l = if r.chance(1, 2) { RaknetListener::bind(&any).await } else { RaknetListener::from_std(std::net::UdpSocket::bind(any).unwrap()).await };
    let mut l = l.map_err(|e| Bad(vec![], format!("{e:?}")))?;
    l.listen().await;
    let at = l.local_addr().unwrap();
    let n = r.range(1, 14);
    let (mut ps, mut open) = (vec![], vec![]);
    for i in 0..n {
        let mut p = Peer::new(at, r.next(), &format!("{tag}.{i}")).await.map_err(|e| Bad(vec![], e))?;
        if i < 9 {
            if let Err(e) = p.offline_handshake(10, 1400).await { return bad(&["C17", "C15"], format!("{tag}: {i} sessions wait to be accepted and another one is not opened: {e}")); }
            open.push(i as usize);
        } else { for _ in 0..r.range(1, 3) { p.raw(&request2(&at, 1400, r.next())).await; p.pump(5).await; } }
        ps.push(p);
    }
    let mut q = Peer::new(at, r.next(), &format!("{tag}.q")).await.map_err(|e| Bad(vec![], e))?;
    q.raw(&ping(1, 2)).await;
    must!(q.until(LONG, |p| !p.offline.is_empty()).await, ["C15"], "{tag}: {n} requests and no accept: a ping is not answered within {LONG} ms");
    // established sessions go on, accepted or not
    for &i in &open {
        let p = &mut ps[i];
        p.raw(&enc_datagram(0x84, 0, &[frame(0, 0, 0, 0, vec![0xfe, i as u8])])).await;
        must!(p.until(LONG, |p| p.acks.iter().any(|&(a, _)| a == 0)).await, ["C15"], "{tag}: {n} requests and no accept: session {i} does not acknowledge within {LONG} ms");
    }
    // the application accepts: every session that was opened, then new ones
    let mut got = vec![];
    loop {
        match timeout(ms(if got.len() < open.len() { LONG } else { 100 }), l.accept()).await {
            Ok(Ok(s)) => got.push(s),
            Err(_) if got.len() >= open.len() => break,
            x => return bad(&["C15", "C17"], format!("{tag}: {n} requests, {} sessions accepted, then {}", got.len(), if x.is_ok() { "an error" } else { "nothing" })),
        }
        if r.chance(1, 3) {
            let mut p = Peer::new(at, r.next(), &format!("{tag}.n{}", got.len())).await.map_err(|e| Bad(vec![], e))?;
            p.raw(&request2(&at, 1400, r.next())).await;
            p.pump(5).await;
            ps.push(p);
        }
        must!(got.len() < 200, ["C17"], "{tag}: {n} requests and 200 sessions");
        if got.len() > 40 { break; }
    }
    for &i in &open {
        let s = match got.iter().find(|s| s.peer_addr().ok() == Some(ps[i].me)) { Some(s) => s, None => return bad(&["C17", "C15"], format!("{tag}: the session of {} was opened and is not accepted", ps[i].me)) };
        match timeout(ms(LONG), s.recv()).await { Ok(Ok(b)) => must!(b == [0xfe, i as u8], ["C15"], "{tag}: session {i} received {b:?}"), x => return bad(&["C15"], format!("{tag}: session {i}: {x:?}")) }
    }
    let mut q = Peer::new(at, r.next(), &format!("{tag}.z")).await.map_err(|e| Bad(vec![], e))?;
    if let Err(e) = q.offline_handshake(10, 1400).await { return bad(&["C15", "C17"], format!("{tag}: everything was accepted and a new connection is not opened: {e}")); }
    must!(matches!(timeout(ms(LONG), l.accept()).await, Ok(Ok(_))), ["C15"], "{tag}: a new connection is not accepted");
    Ok(format!("{n} requests, {} accepted", got.len()))
}

/// the listener from beginning to end
async fn listener(r: &mut Rng, tag: &str) -> S<String> {
    let any: SocketAddr = "127.0.0.1:0".parse().unwrap();
    let mut l = if r.chance(1, 2) { match RaknetListener::bind(&any).await { Ok(l) => l, Err(e) => return bad(&["C19"], format!("{tag}: bind gave {e:?}")) } }
        else { match RaknetListener::from_std(std::net::UdpSocket::bind(any).unwrap()).await { Ok(l) => l, Err(e) => return bad(&["C19"], format!("{tag}: from_std gave {e:?}")) } };
    let at = match l.local_addr() { Ok(a) => a, Err(e) => return bad(&["C19", "C17"], format!("{tag}: local_addr gave {e:?}")) };
    let listen = !r.chance(1, 5);
    let how = r.below(3);
    let mut log = format!("listen {listen}, end {how}");
    match timeout(ms(LONG), l.accept()).await { Ok(Err(RaknetError::NotListen)) => {} x => return bad(&["C19"], format!("{tag}: accept before listen gave {}", if x.is_ok() { "something else than NotListen" } else { "nothing" })) }
    let (mut ps, mut libs, mut gone, mut fresh) = (vec![], vec![], vec![], vec![]);
    let mut behind = None;
    if listen {
        let mut motd = String::new();
        if r.chance(1, 2) { motd = format!("m{}", r.below(1000)); l.set_full_motd(motd.clone()).unwrap(); }
        l.listen().await;
        if r.chance(1, 3) { l.listen().await; }
        let n = r.below(5);
        for i in 0..n {
            let mut p = Peer::new(at, r.next(), &format!("{tag}.{i}")).await.map_err(|e| Bad(vec![], e))?;
            if r.chance(1, 2) {
                motd = format!("n{}", r.below(1000));
                l.set_full_motd(motd.clone()).unwrap();
                p.raw(&ping(1, 1)).await;
                must!(p.until(LONG, |p| !p.offline.is_empty()).await, ["C17", "C15"], "{tag}: a ping is not answered");
                let b = p.offline.remove(0);
                must!(b.len() > 35 && &b[35..] == motd.as_bytes(), ["C17"], "{tag}: the message of the day was set to {motd:?} and the pong carries {:?}", String::from_utf8_lossy(&b[35.min(b.len())..]));
                must!(l.get_motd().await == motd, ["C17"], "{tag}: get_motd after set_full_motd({motd:?}) gives another text");
            }
            if let Err(e) = p.offline_handshake(10, 1400).await { return bad(&["C17"], format!("{tag}: {e}")); }
            let lib = match timeout(ms(LONG), l.accept()).await { Ok(Ok(s)) => s, _ => return bad(&["C17"], format!("{tag}: no session is accepted after the handshake")) };
            match r.below(5) {
                0 => { drop(lib); note!("{tag}.{i} dropped at once"); gone.push(p); continue; }
                1 => { if lib.close().await.is_err() { return bad(&["C18"], format!("{tag}: close failed")); } note!("{tag}.{i} closed at once"); gone.push(p); continue; }
                2 => { let n = r.range(1, 4000) as usize; let d = text(r, n, 1); lib.send(&d, Reliability::ReliableOrdered).await.ok(); p.skip_ack = 100; }
                3 => { p.raw(&enc_datagram(0x84, 0, &[frame(0, 0, 0, 0, vec![0xfe, 1])])).await; }
                _ => fresh.push(libs.len()),
            }
            ps.push(p);
            libs.push(Arc::new(lib));
        }
        for p in gone.iter_mut() { must!(p.until(LONG, |p| p.disconnects > 0 || p.reliable.values().any(|f| f.data == [0x15])).await, ["C18"], "{tag}: the session of {} was closed or dropped right after accept and the peer is not told within {LONG} ms", p.me); }
        log += &format!(", {} sessions", libs.len());
        if !fresh.is_empty() && r.chance(2, 3) { // an application behind with reading; 111 messages is what a session has room for
            let (i, n, shut, later) = (*r.pick(&fresh), *r.pick(&[103u32, 111, 111]), r.chance(1, 2), *r.pick(&[300u64, 1500]));
            for k in 0..n { ps[i].raw(&enc_datagram(0x84, k, &[frame(0, 0, 0, 0, vec![0xfe, 1])])).await; if k % 8 == 7 { ps[i].pump(3).await; tokio::time::sleep(ms(3)).await; } }
            tokio::time::sleep(ms(100)).await;
            if shut { must!(matches!(timeout(ms(LONG), libs[i].close()).await, Ok(Ok(()))), ["C18"], "{tag}: close of a session with {n} unread messages does not return"); }
            behind = Some((libs[i].clone(), later));
            log += &format!(", one with {n} unread messages{}, read from after {later} ms", if shut { " and closed" } else { "" });
        }
    }
    if listen && r.chance(1, 2) { // sessions that nobody accepts, more than the listener has room for
        let (n, m, more) = (*r.pick(&[1u64, 2, 9, 9, 9]), *r.pick(&[0u32, 0, 3, 150]), *r.pick(&[0, 0, 1, 3]));
        let mut us = vec![];
        for i in 0..n {
            let mut p = Peer::new(at, r.next(), &format!("{tag}.u{i}")).await.map_err(|e| Bad(vec![], e))?;
            if let Err(e) = p.offline_handshake(10, 1400).await { return bad(&["C17"], format!("{tag}: {e}")); }
            us.push(p);
        }
        for p in us.iter_mut() { for k in 0..m { p.raw(&enc_datagram(0x84, k, &[frame(0, 0, 0, 0, vec![0xfe, 1])])).await; if k % 20 == 0 { p.pump(1).await; } } }
        for i in 0..more { // one of them may still be opened, the others find no room
            let mut p = Peer::new(at, r.next(), &format!("{tag}.v{i}")).await.map_err(|e| Bad(vec![], e))?;
            p.raw(&request2(&at, 1400, 7)).await;
            p.pump(5).await;
            if !p.offline.is_empty() { us.push(p); }
        }
        log += &format!(", {n} unaccepted with {m} messages, {more} more requests");
        ps.append(&mut us);
    }
    note!("{tag}: {log}");
    if let Some((s, later)) = behind { tokio::spawn(async move { tokio::time::sleep(ms(later)).await; while s.recv().await.is_ok() {} }); }
    if how == 0 { drop(l); } else {
        let c = tokio::spawn(async move { let x = timeout(ms(2 * LONG), l.close()).await; (x, l) });
        while !c.is_finished() { for p in ps.iter_mut() { p.pump(2).await; } tokio::time::sleep(ms(2)).await; }
        let (x, mut l) = c.await.map_err(|e| Bad(vec!["C19"], format!("{tag}: close panicked: {e}")))?;
        must!(matches!(x, Ok(Ok(()))), ["C19"], "{tag}: close of a listener ({log}) gives {x:?} (an error, or no return within {} ms)", 2 * LONG);
        must!(matches!(timeout(ms(LONG), l.accept()).await, Ok(Err(RaknetError::NotListen))), ["C19"], "{tag}: accept after close is not refused");
        let x = timeout(ms(LONG), l.close()).await;
        must!(matches!(x, Ok(Ok(()))), ["C19"], "{tag}: a second close gives {x:?}");
        let x = tokio::spawn(async move { let a = l.local_addr(); l.listen().await; (a, l.accept().await.is_err()) }).await;
        must!(matches!(x, Ok((Err(_), true))), ["C19"], "{tag}: local_addr, listen and accept after close: {x:?}");
        let x = std::net::UdpSocket::bind(at);
        must!(x.is_ok(), ["C19"], "{tag}: the address is not free after close returned: {x:?}");
    }
    let known = |p: &Peer| p.disconnects > 0;
    for p in ps.iter_mut() { must!(p.until(LONG, known).await, ["C19"], "{tag}: the listener was {} and the peer {} of an open session is not told within {LONG} ms", if how == 0 { "dropped" } else { "closed" }, p.me); }
    for s in &libs {
        let end = Instant::now() + ms(LONG);
        while !closed(&s.send(&[0xfe, 1], Reliability::Reliable).await) { must!(Instant::now() < end, ["C19"], "{tag}: the listener ended {LONG} ms ago and its session still sends"); tokio::time::sleep(ms(5)).await; }
        must!(closed(&s.flush().await), ["C19", "C18"], "{tag}: flush on a session of an ended listener is not refused");
        loop { match timeout(ms(LONG), s.recv()).await { Ok(Ok(_)) => {} Ok(Err(RaknetError::ConnectionClosed)) => break, x => return bad(&["C19", "C18"], format!("{tag}: recv on a session of an ended listener gives {x:?}")) } }
    }
    let end = Instant::now() + ms(LONG);
    while std::net::UdpSocket::bind(at).is_err() { must!(Instant::now() < end, ["C19"], "{tag}: the listener ended {LONG} ms ago and its address is still in use"); tokio::time::sleep(ms(20)).await; }
    Ok(log)
}

/// peers that send only datagrams of one kind, or none, for longer than a session may be silent
async fn idle(r: &mut Rng, tag: &str, long: bool) -> S<String> {
    let h = Hub::new("", true).await?;
    let mut l2 = match RaknetListener::bind(&"127.0.0.1:0".parse().unwrap()).await { Ok(l) => l, Err(e) => return bad(&[], format!("bind {e:?}")) };
    l2.listen().await;
    let at2 = l2.local_addr().unwrap();
    let quiet = if long { r.range(40, 52) } else { 12 };
    let open = |at: SocketAddr, tag: String, g: u64| async move {
        let mut p = Peer::new(at, g, &tag).await.map_err(|e| Bad(vec![], e))?;
        if let Err(e) = p.offline_handshake(10, 1400).await { return bad(&["C17"], format!("{tag}: {e}")); }
        Ok(p)
    };
    let mut mute = vec![];
    let mut keep = vec![];
    for i in 0..3 {
        mute.push(open(at2, format!("{tag}.m{i}"), r.next()).await?);
        match timeout(ms(LONG), l2.accept()).await { Ok(Ok(s)) => keep.push(s), _ => return bad(&["C17"], format!("{tag}: no session is accepted after the handshake")) }
    }
    // acknowledgements, reports, pings, undecodable datagrams; silent ones: to the end, closed, dropped, heard of again
    let (mut ps, mut libs) = (vec![], vec![]);
    for i in 0..8u32 {
        let p = open(h.addr, format!("{tag}.p{i}"), r.next()).await?;
        let Some(s) = h.take(p.me, LONG).await else { return bad(&["C17"], format!("{tag}: no session is accepted after the handshake")) };
        ps.push(p);
        libs.push(Some(s));
    }
    for p in ps.iter_mut() { p.pump(20).await; }
    let t0 = Instant::now();
    let talk = |k: u32, n: u32| -> Vec<u8> { match k { 0 => records(0xc0, &[(n, n)]), 1 => records(0xa0, &[(n, n + 1)]), 2 => enc_datagram(0x84, n, &[frame(0, 0, 0, 0, connected_ping(n as i64))]), _ => vec![0x84, n as u8, 0, 0, 0xff, 1, 2] } };
    let talkers = async |ps: &mut Vec<Peer>, n: &mut u32, until: u64| {
        let mut next = Instant::now();
        while t0.elapsed() < ms(until) {
            if Instant::now() >= next { for k in 0..4 { ps[k].raw(&talk(k as u32, *n)).await; ps[k].pump(1).await; } *n += 1; next += ms(2000); }
            tokio::time::sleep(ms(50)).await;
        }
    };
    let mut n = 0;
    talkers(&mut ps, &mut n, quiet * 1000).await;
    note!("{tag}: silent for {quiet} s");
    // the end of a listener whose peers have been silent
    let c = tokio::spawn(async move { let x = timeout(ms(LONG), l2.close()).await; (x, l2) });
    for p in mute.iter_mut() { must!(p.until(LONG, |p| p.disconnects > 0).await, ["C19"], "{tag}: the listener was closed and the peer {} of an open session, silent for {quiet} s, is not told within {LONG} ms", p.me); }
    let (x, _l2) = c.await.map_err(|e| Bad(vec!["C19"], format!("{tag}: close panicked: {e}")))?;
    must!(matches!(x, Ok(Ok(()))), ["C19"], "{tag}: close of a listener whose peers are silent for {quiet} s gives {x:?}");
    for s in &keep { must!(closed(&s.send(&[0xfe, 1], Reliability::Reliable).await) && closed(&s.flush().await), ["C19"], "{tag}: the listener was closed and its session still sends"); }
    if !long { return Ok(format!("peers silent for {quiet} s")); }
    // the end of a session whose peer has been silent, which is still there
    for k in [5usize, 6, 7] {
        let x = libs[k].as_ref().unwrap().send(&[0xfe, 9], Reliability::Unreliable).await;
        must!(!closed(&x), ["C15", "C18"], "{tag}: the peer {} is silent for {quiet} s (limit 60 s) and its session is closed", ps[k].me);
    }
    must!(libs[5].as_ref().unwrap().close().await.is_ok(), ["C18"], "{tag}: close failed");
    drop(libs[6].take());
    for k in [5usize, 6] { must!(ps[k].until(LONG / 4, |p| p.disconnects > 0 || p.reliable.values().any(|f| f.data == [0x15])).await, ["C18"], "{tag}: the session of {} was {} and the peer is not told within {} ms", ps[k].me, if k == 5 { "closed" } else { "dropped" }, LONG / 4); }
    let d = text(r, 30, 7);
    ps[7].ordered(d.clone()).await;
    let x = timeout(ms(LONG / 4), libs[7].as_ref().unwrap().recv()).await;
    must!(matches!(&x, Ok(Ok(y)) if *y == d), ["C15"], "{tag}: a message after {quiet} s of silence is not delivered: {:?}", x.map(|y| y.map(|z| z.len())));
    // beyond the limit
    talkers(&mut ps, &mut n, 66_000).await;
    for k in 0..4 {
        let x = libs[k].as_ref().unwrap().send(&[0xfe, 9], Reliability::Unreliable).await;
        must!(!closed(&x), ["C15"], "{tag}: the peer {} sent a datagram every 2 s ({}) and its session is closed after 66 s", ps[k].me, ["acknowledgements", "reports", "pings", "undecodable ones"][k]);
        let d = text(r, 30, 8);
        let b = enc_datagram(0x84, 3000, &[frame(3, 0, 0, 0, d.clone())]);
        ps[k].raw(&b).await;
        let x = timeout(ms(LONG / 4), libs[k].as_ref().unwrap().recv()).await;
        must!(matches!(&x, Ok(Ok(y)) if *y == d), ["C15"], "{tag}: a message after 66 s of {} is not delivered: {:?}", ["acknowledgements", "reports", "pings", "undecodable datagrams"][k], x.map(|y| y.map(|z| z.len())));
    }
    // the one that stayed silent
    let end = Instant::now() + ms(12_000);
    while !closed(&libs[4].as_ref().unwrap().send(&[0xfe, 9], Reliability::Unreliable).await) { if Instant::now() > end { return Ok("a silent peer is not given up".into()); } tokio::time::sleep(ms(50)).await; }
    must!(closed(&libs[4].as_ref().unwrap().flush().await), ["C18"], "{tag}: flush on a session that timed out is not refused");
    let x = timeout(ms(LONG), libs[4].as_ref().unwrap().recv()).await;
    must!(matches!(x, Ok(Err(RaknetError::ConnectionClosed))), ["C18"], "{tag}: recv on a session that timed out gives {x:?}");
    tokio::time::sleep(ms(200)).await;
    let w = timeout(ms(12_000), ps[4].offline_handshake(10, 1400)).await;
    must!(matches!(w, Ok(Ok(()))), ["C18"], "{tag}: the session of {} timed out and the listener does not accept a new connection from there: {:?}", ps[4].me, w.map_err(|_| "no second reply within 12 s"));
    must!(h.take(ps[4].me, LONG / 4).await.is_some(), ["C18"], "{tag}: the session of {} timed out and no new session is accepted from there", ps[4].me);
    Ok(format!("peers silent for {quiet} s, four talking, one given up"))
}

fn main() {
    let mut c = Ctx::from_args();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(6).enable_all().build().unwrap();
    let prop: &'static str = Box::leak(c.prop.clone().into_boxed_str());
    let mine = move |r: S<String>| -> Result<String, String> {
        match r {
            Ok(d) => Ok(d),
            Err(Bad(p, t)) if p.contains(&prop) => { let x = panicked().map(|p| format!(" [a task panicked: {p}]")).unwrap_or_default(); Err(t + &x) }
            Err(Bad(p, t)) => { if std::env::var("LIVE_ALL").is_ok() { println!("other {p:?}: {t}"); } Ok(String::new()) }
        }
    };
    // w sub-sessions side by side, each from its own random stream
    macro_rules! many { ($w:expr, $r:expr, $h:ident, |$q:ident, $k:ident| $f:expr) => {{
        let seeds: Vec<u64> = (0..$w).map(|_| $r.next()).collect();
        rt.block_on(async {
            let mut js = tokio::task::JoinSet::new();
            for (n, s) in seeds.into_iter().enumerate() { let $h = $h.clone(); js.spawn(async move { let _ = &$h; let mut rr = Rng::new(s); let ($q, $k) = (&mut rr, n); $f.await }); }
            let mut out = String::new();
            while let Some(x) = js.join_next().await { match mine(match x { Ok(x) => x, Err(e) => bad(ANY, format!("harness task: {e}")) }) { Ok(d) => { out += &d; out += " | "; } Err(e) => return Err(e) } }
            Ok(out)
        })
    }} }
    let none = ();
    if prop == "C19" {
        c.run("idle", "a listener closed while its peers have been silent for 12 s", 1, 1.0, |r, _| mine(rt.block_on(idle(r, "i", false))));
    }
    let args: Vec<String> = std::env::args().collect();
    if ["C15", "C18", "C19"].contains(&prop) && args.iter().any(|a| a == "--slow" || a == "idle_long") {
        c.run("idle_long", "peers that send only acknowledgements, reports, pings or undecodable datagrams every 2 s, and silent ones, up to and beyond the 60 s limit: who stays, who is told, who may come back", 1, 1.0, |r, _| mine(rt.block_on(idle(r, "i", true))));
    }
    if ["C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C14", "C16"].contains(&prop) {
        c.run("session", "eight sessions side by side (accepted by the listener, or opened by connect), up to 40 steps each: datagrams of every kind with gaps, repeated and late ones, fragments, pings, sends of every reliability and size, refused sends, withheld and lost acknowledgements", 3, 0.5, |r, _| {
            let h = match rt.block_on(Hub::new("", true)) { Ok(h) => Arc::new(h), Err(e) => return mine(Err(e)) };
            many!(8, r, h, |r, k| async { let n = r.range(5, 40); session(if k % 4 == 3 { None } else { Some(&h) }, r, &format!("s{k}"), n).await }) });
    }
    if ["C11", "C16"].contains(&prop) {
        c.run("lists", "a message in many fragments, all but one acknowledged in ranges of any shape: only that one is sent again, and waiting for acknowledgement ends only after it", 1, 0.3, |r, _| {
            let h = match rt.block_on(Hub::new("", true)) { Ok(h) => Arc::new(h), Err(e) => return mine(Err(e)) };
            many!(8, r, h, |r, k| lists(&h, r, &format!("l{k}"))) });
    }
    if ["C16"].contains(&prop) {
        c.run("nack_live", "messages left unacknowledged until their timeout is above 6 s, then reported missing in a list", if c.thorough { 4 } else { 1 }, 1.0, |r, _| {
            let h = match rt.block_on(Hub::new("", true)) { Ok(h) => Arc::new(h), Err(e) => return mine(Err(e)) };
            many!(6, r, h, |r, k| nack_live(&h, r, &format!("n{k}"))) });
    }
    if prop == "C17" {
        c.run("handshake", "six listeners side by side, four addresses each, up to 30 datagrams: pings, first and second requests of every version and mtu, repeated, truncated and unknown ones, messages, disconnects", 6, 0.8, |r, _| {
            many!(6, r, none, |r, k| handshake(r, &format!("h{k}"))) });
    }
    if ["C18", "C14"].contains(&prop) {
        c.run("close", "eight sessions side by side: up to 60 messages handed up, then closed locally, by a disconnect datagram, by a disconnect message, or dropped; then a new session from the same address", 3, 0.6, |r, _| {
            let h = match rt.block_on(Hub::new("", true)) { Ok(h) => Arc::new(h), Err(e) => return mine(Err(e)) };
            many!(8, r, h, |r, k| close(&h, k % 4 != 3, r, &format!("c{k}"))) });
    }
    if ["C17", "C18", "C19"].contains(&prop) {
        c.run("listener", "eight listeners side by side, from binding to the end: never listening or with up to four sessions, some dropped or closed right after being accepted, the message of the day set at any time; then closed or dropped, and its address bound again", 4, 0.5, |r, _| {
            many!(8, r, none, |r, k| listener(r, &format!("e{k}"))) });
    }
    if prop == "C18" {
        c.run("lists", "waiting for everything to be acknowledged with one of many messages unacknowledged", 1, 0.3, |r, _| {
            let h = match rt.block_on(Hub::new("", true)) { Ok(h) => Arc::new(h), Err(e) => return mine(Err(e)) };
            many!(8, r, h, |r, k| lists(&h, r, &format!("l{k}"))) });
    }
    if ["C15", "C17"].contains(&prop) {
        c.run("unaccepted", "eight listeners side by side whose application accepts late: up to 14 requests, pings and messages meanwhile, then everything is accepted, with requests in between", 2, 0.3, |r, _| {
            many!(8, r, none, |r, k| unaccepted(r, &format!("u{k}"))) });
    }
    if prop == "C15" {
        c.run("garbage", "six listeners side by side with three sessions each (two of them misbehaving) and three strangers: up to 240 arbitrary, truncated and mutated datagrams of every kind, then everything is tried", 4, 0.8, |r, _| {
            many!(6, r, none, |r, k| garbage(r, &format!("g{k}"))) });
        let mut hit = false;
        c.run("stalled_reader", "reproduces a known finding", 1, 0.3, |r, _| { match rt.block_on(stalled_reader(r)) { Ok(x) => { hit = x; Ok(format!("{x}")) } Err(e) => mine(Err(e)) } });
        if hit { c.known.insert("stalled_reader".to_string(), 1); }
    }
    rt.shutdown_timeout(Duration::from_millis(200));
    c.done();
}
