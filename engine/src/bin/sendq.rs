//! C05 splitting and indexes, C11 kept until acknowledged, C12 fresh numbers, C13 timing, C14 refused messages (send queue part)
use engine::refc;
use engine::*;
use rust_raknet::verif::*;
use std::collections::{BTreeSet, VecDeque};

fn rel(k: u8) -> Reliability {
    match k { 0 => Reliability::Unreliable, 1 => Reliability::UnreliableSequenced, 2 => Reliability::Reliable, 3 => Reliability::ReliableOrdered, _ => Reliability::ReliableSequenced }
}
fn peer() -> std::net::SocketAddr { "127.0.0.1:1".parse().unwrap() }
fn show(p: &FrameSetPacket) -> String {
    format!("{{num={} rel={} ri={} si={} oi={}{} len={}}}", p.sequence_number, p.flags >> 5, p.reliable_frame_index, p.sequenced_frame_index, p.ordered_frame_index,
        if p.flags & 16 != 0 { format!(" frag {}/{} of {}", p.fragment_index, p.compound_size, p.compound_id) } else { String::new() }, p.data.len())
}
type Key = (u8, u16, u32, u32, u32, u8, u32, u16, u32, Vec<u8>);
fn key(p: &FrameSetPacket) -> Key {
    (p.flags, p.length_in_bytes, p.reliable_frame_index, p.sequenced_frame_index, p.ordered_frame_index, p.order_channel, p.compound_size, p.compound_id, p.fragment_index, p.data.clone())
}
struct Msg { k: u8, data: Vec<u8>, si: u32, oi: u32 }
/// a reliable frame that was sent and not acknowledged
struct Fly { key: Key, nums: BTreeSet<u32>, cur: Option<u32>, last: i64, times: u32, pending: bool }
struct H {
    q: SendQ, mtu: usize, prop: String, err: Option<String>,
    queued: VecDeque<Msg>, ri: u32, si: u32, oi: u32, cids: Vec<u16>,
    fly: Vec<Fly>, top: Option<u32>, all: Vec<u32>, next: u32, last_ack: u32, t: i64, flushes: u64, resends: u64,
}
macro_rules! check { ($h:expr, $p:expr, $c:expr, $($a:tt)*) => { if $h.prop == $p && $h.err.is_none() && !($c) { $h.err = Some(format!($($a)*)); } } }
impl H {
    fn new(prop: &str, mtu: u16, t: i64) -> H {
        note!("SendQ::new({mtu}) t={t}");
        H { q: SendQ::new(mtu), mtu: (mtu as usize).clamp(400, 1500), prop: prop.to_string(), err: None, queued: VecDeque::new(), ri: 0, si: 0, oi: 0, cids: vec![],
            fly: vec![], top: None, all: vec![], next: 0, last_ack: 0, t, flushes: 0, resends: 0 }
    }
    fn res(&mut self) -> R { match self.err.take() { Some(e) => Err(e), None => Ok(()) } }
    fn state(&mut self) -> R {
        let rto = self.q.get_rto();
        check!(self, "C13", (50..=12000).contains(&rto), "the retransmission timeout is {rto} ms");
        let (e, w) = (self.q.is_empty(), self.queued.is_empty() && self.fly.is_empty());
        check!(self, "C11", e == w, "the queue reports drained = {e}, {} messages wait to be sent and {} for an acknowledgement", self.queued.len(), self.fly.len());
        self.res()
    }
    fn send(&mut self, k: u8, data: Vec<u8>) -> R {
        note!("insert rel={k} len={}", data.len());
        let big = k != 3 && data.len() > self.mtu - 60;
        let r = self.q.insert(rel(k), &data);
        if big {
            check!(self, "C14", matches!(r, Err(rust_raknet::error::RaknetError::PacketSizeExceedMTU)), "a message of {} bytes on an mtu of {} (reliability {k}) gave {:?}", data.len(), self.mtu, r);
            if r.is_ok() { return Err("STOP".into()); }
        } else {
            check!(self, "C14", r.is_ok(), "a message of {} bytes on an mtu of {} (reliability {k}) was refused: {:?}", data.len(), self.mtu, r);
            check!(self, "C05", r.is_ok(), "a message of {} bytes on an mtu of {} (reliability {k}) was refused: {:?}", data.len(), self.mtu, r);
            if r.is_err() { self.res()?; return Err("STOP".into()); }
            self.queued.push_back(Msg { k, data, si: self.si, oi: self.oi });
            if k == 1 || k == 4 { self.si += 1; }
            if k == 3 { self.oi += 1; }
        }
        self.state()
    }
    fn flush(&mut self, dt: i64) -> Result<Vec<FrameSetPacket>, String> {
        self.t += dt;
        let rto = self.q.get_rto();
        let due = |f: &Fly| -> bool { if f.pending { return true; } let mut r = rto; for _ in 0..f.times { r += r / 2; } self.t - f.last >= r };
        let want: Vec<usize> = (0..self.fly.len()).filter(|i| due(&self.fly[*i])).collect();
        let pend = self.fly.iter().filter(|f| f.pending).count();
        let out = self.q.flush(self.t, &peer());
        let pend = pend.min(out.len());
        self.flushes += 1;
        note!("flush t={} rto={rto} -> {:?}", self.t, out.iter().map(show).collect::<Vec<_>>());
        let mut seen = vec![];
        let mut fresh: VecDeque<&FrameSetPacket> = VecDeque::new();
        for p in &out {
            check!(self, "C12", self.top.map_or(true, |t| p.sequence_number > t), "datagram number {} handed out after {}", p.sequence_number, self.top.unwrap());
            self.top = Some(self.top.map_or(p.sequence_number, |t| t.max(p.sequence_number)));
            self.all.push(p.sequence_number);
            match p.serialize() {
                Ok(b) => check!(self, "C05", b.len() + 28 <= self.mtu, "a datagram of {} bytes plus 28 exceeds the mtu of {}: {}", b.len(), self.mtu, show(p)),
                Err(e) => check!(self, "C05", false, "a frame handed out can not be serialized: {e:?}"),
            }
            if let Some(i) = self.fly.iter().position(|f| f.key == key(p)) {
                check!(self, "C13", !seen.contains(&i), "message handed out twice by one flush: {}", show(p));
                seen.push(i);
                self.resends += 1;
            } else {
                // neither waiting for an acknowledgement as it is, nor (checked below) next in the queue
                let alike = self.fly.iter().find(|f| f.key.2 == p.reliable_frame_index && refc::has_reliable(p.flags >> 5));
                check!(self, "C12", alike.is_none(), "a retransmission differs from the original: {}, sent as {:?}", show(p), alike.map(|f| (f.key.0, f.key.1, f.key.2, f.key.3, f.key.4, f.key.5, f.key.6, f.key.7, f.key.8, f.key.9.len())));
                fresh.push_back(p);
            }
        }
        let miss: Vec<_> = want.iter().filter(|i| !seen.contains(i)).collect();
        let early: Vec<_> = seen.iter().filter(|i| !want.contains(i)).collect();
        check!(self, "C13", miss.is_empty(), "message with reliable index {} was last sent at {} and {} times again or reported missing, timeout {rto}, is due at {} (reported missing: {}) and was not retransmitted", self.fly[*miss[0]].key.2, self.fly[*miss[0]].last, self.fly[*miss[0]].times, self.t, self.fly[*miss[0]].pending);
        check!(self, "C13", early.is_empty(), "message with reliable index {} was last sent at {} and {} times again or reported missing, timeout {rto}, was retransmitted too early at {}", self.fly[*early[0]].key.2, self.fly[*early[0]].last, self.fly[*early[0]].times, self.t);
        for p in &out {
            if let Some(f) = self.fly.iter_mut().find(|f| f.key == key(p)) { f.nums.insert(p.sequence_number); f.cur = Some(p.sequence_number); f.last = self.t; f.times += 1; f.pending = false; }
        }
        // what is sent for the first time
        let had_fly = !self.fly.is_empty();
        let first: Vec<FrameSetPacket> = fresh.iter().map(|p| (*p).clone()).collect();
        while let Some(p) = fresh.pop_front() {
            let Some(m) = self.queued.pop_front() else {
                for pr in ["C05", "C11"] { check!(self, pr, false, "handed out {} but nothing like it is waiting (already acknowledged, already sent, or made up)", show(p)); }
                break;
            };
            let w = format!("message rel={} len={} on mtu {}", m.k, m.data.len(), self.mtu);
            if !refc::has_reliable(m.k) || m.k != 3 || p.flags & 16 == 0 {
                check!(self, "C05", p.flags == m.k << 5 && p.data == m.data, "{w} was handed out as {} ({})", show(p), if p.data == m.data { "payload equal" } else { "payload differs" });
                check!(self, "C05", p.length_in_bytes as usize == m.data.len(), "{w}: frame length field {}", p.length_in_bytes);
                check!(self, "C05", m.data.len() + 60 <= self.mtu, "{w} went out in one frame");
                self.indexes(&m, p, &w);
                if refc::has_reliable(m.k) { self.ri += 1; }
            } else {
                let n = p.compound_size;
                check!(self, "C05", m.data.len() + 60 >= self.mtu, "{w} fits one frame but was split");
                check!(self, "C05", n > 0 && n as usize <= m.data.len(), "{w}: {n} fragments");
                let mut data: Vec<u8> = vec![]; let mut q = p; let mut i = 0;
                let recent = self.cids.iter().rev().take(1000).any(|c| *c == p.compound_id);
                check!(self, "C05", !recent, "{w}: compound id {} was used before", p.compound_id);
                self.cids.push(p.compound_id);
                loop {
                    check!(self, "C05", q.flags == 3 << 5 | 16 && q.fragment_index == i && q.compound_size == n && q.compound_id == p.compound_id && q.ordered_frame_index == p.ordered_frame_index,
                        "{w}: fragment {i} handed out as {} after {}", show(q), show(p));
                    check!(self, "C05", !q.data.is_empty() && q.length_in_bytes as usize == q.data.len(), "{w}: fragment {i} is {} bytes, length field {}", q.data.len(), q.length_in_bytes);
                    check!(self, "C05", q.reliable_frame_index == self.ri + i && q.ordered_frame_index == m.oi, "{w}: fragment {i} has reliable index {} (next is {}) and order index {} (next is {})", q.reliable_frame_index, self.ri + i, q.ordered_frame_index, m.oi);
                    data.extend(&q.data);
                    i += 1;
                    if i >= n { break; }
                    match fresh.pop_front() { Some(x) => q = x, None => { check!(self, "C05", false, "{w}: only {i} of {n} fragments were handed out"); break; } }
                }
                check!(self, "C05", data == m.data, "{w}: the fragments concatenate to {} bytes{}", data.len(), if data.len() == m.data.len() { " that differ" } else { "" });
                self.ri += i;
            }
        }
        for p in first { if refc::has_reliable(p.flags >> 5) { self.fly.push(Fly { key: key(&p), nums: [p.sequence_number].into(), cur: Some(p.sequence_number), last: self.t, times: 0, pending: false }); } }
        if !had_fly {
            check!(self, "C05", self.queued.is_empty(), "nothing awaits an acknowledgement, but {} accepted messages were not handed out", self.queued.len());
            check!(self, "C11", self.queued.is_empty(), "nothing awaits an acknowledgement, but {} accepted messages were not handed out", self.queued.len());
        }
        self.next = (self.next + (out.len() - pend) as u32).max(self.top.map_or(0, |t| t + 1));
        self.state()?;
        Ok(out)
    }
    fn indexes(&mut self, m: &Msg, p: &FrameSetPacket, w: &str) {
        let bad = if refc::has_reliable(m.k) && p.reliable_frame_index != self.ri { Some(("reliable", p.reliable_frame_index, self.ri)) }
            else if refc::has_sequenced(m.k) && p.sequenced_frame_index != m.si { Some(("sequenced", p.sequenced_frame_index, m.si)) }
            else if m.k == 3 && p.ordered_frame_index != m.oi { Some(("order", p.ordered_frame_index, m.oi)) } else { None };
        for pr in ["C05", "C14"] { check!(self, pr, bad.is_none(), "{w} got {} index {}, the next one is {}", bad.unwrap().0, bad.unwrap().1, bad.unwrap().2); }
    }
    fn model_nack(&mut self, n: u32) {
        for f in self.fly.iter_mut() { if !f.pending && f.cur == Some(n) { f.pending = true; f.cur = None; f.last = self.t; f.times += 1; self.next += 1; } }
    }
    fn nack(&mut self, n: u32) -> R { note!("nack {n} t={}", self.t); self.q.nack(n, self.t); self.model_nack(n); self.state() }
    fn ack(&mut self, n: u32) -> R {
        note!("ack {n} t={}", self.t);
        self.q.ack(n, self.t);
        // numbers given to messages but not handed out yet are only known to the queue: histories do not acknowledge those
        if self.top.map_or(false, |t| n <= t) {
            if n != 0 { for i in self.last_ack + 1..n { self.model_nack(i); } }
            self.last_ack = n;
            if let Some(i) = self.fly.iter().position(|f| f.nums.contains(&n)) { self.fly.remove(i); }
        }
        self.state()
    }
    fn finish(&mut self, r: &mut Rng) -> R {
        for round in 0..60 {
            if self.fly.is_empty() && self.queued.is_empty() { break; }
            let want: Vec<Key> = self.fly.iter().map(|f| f.key.clone()).collect();
            let out = self.flush(100_000_000_000_000)?;
            if !want.is_empty() {
                for k in &want { check!(self, "C11", out.iter().any(|p| key(p) == *k), "the message with reliable index {} was never acknowledged and is no longer retransmitted", k.2); }
                for p in &out { check!(self, "C11", want.iter().any(|k| key(p) == *k), "{} is retransmitted although it was acknowledged", show(p)); }
                self.res()?;
            }
            if round % 2 == 0 || round > 20 {
                let ns: Vec<u32> = self.fly.iter().map(|f| *r.pick(&f.nums.iter().copied().collect::<Vec<_>>())).collect();
                for n in ns { self.ack(n)?; }
            }
        }
        check!(self, "C11", self.fly.is_empty() && self.queued.is_empty(), "the queue never drains");
        let out = self.flush(1)?;
        check!(self, "C11", out.is_empty() && self.q.is_empty(), "after everything was acknowledged {} frames are handed out, drained = {}", out.len(), self.q.is_empty());
        self.res()
    }
}
fn payload(r: &mut Rng, n: usize, tag: u64) -> Vec<u8> {
    let mut v = vec![0xfe, tag as u8, (tag >> 8) as u8];
    let s = r.next();
    while v.len() < n { v.push((s as usize).wrapping_mul(v.len() | 1).wrapping_add(v.len() >> 8) as u8); }
    v.truncate(n);
    v
}
fn len(r: &mut Rng, mtu: usize, big: bool) -> usize {
    let cap = mtu - 60;
    match r.below(if big { 9 } else { 6 }) {
        0 => 1, 1 => cap - r.below(3) as usize, 2 => cap, 3 => 3 + r.below(20) as usize, 4 => cap + 1 + r.below(2) as usize, 5 => r.range(1, cap as u64) as usize,
        6 => cap * r.range(2, 5) as usize + [0, 1, cap - 1][r.below(3) as usize], 7 => r.range(1, 6 * cap as u64) as usize, _ => cap * r.range(2, 3) as usize,
    }
}
fn mtu(r: &mut Rng) -> u16 { match r.below(6) { 0 => r.int(16) as u16, 1 => 1400, 2 => 1492, 3 => r.range(400, 1500) as u16, 4 => *r.pick(&[0, 59, 60, 61, 87, 88, 399, 400, 401, 1499, 1500, 1501, 8191, 8251, 65535]), _ => 576 } }
fn stop(r: Result<String, String>) -> Result<String, String> { match r { Err(e) if e == "STOP" => Ok(String::new()), x => x } }

fn history(prop: &str, r: &mut Rng, steps: u64) -> Result<String, String> {
    let m = mtu(r);
    let t0 = *r.pick(&[0i64, 1, 1000, 1_700_000_000_000]);
    let mut h = H::new(prop, m, t0);
    let pace = r.below(5);
    let kinds: &[u8] = match r.below(4) { 0 => &[3], 1 => &[2, 4], _ => &[0, 1, 2, 3, 3, 4] };
    for s in 0..steps {
        match r.below(14) {
            0..=2 => { let big = prop == "C05" || r.chance(1, 4); let n = len(r, h.mtu, big); let k = *r.pick(kinds); let d = payload(r, n, s); h.send(k, d)?; }
            3..=6 => { let rto = h.q.get_rto(); let dt = match pace { 0 => 0, 1 => r.below(60) as i64, 2 => *r.pick(&[rto - 1, rto, rto + 1, rto * 3 / 2, rto * 3 / 2 - 1, rto * 9 / 4, rto * 9 / 4 - 1]), 3 => r.below(30_000) as i64, _ => if r.chance(1, 8) { r.below(1 << 40) as i64 } else { r.below(200) as i64 } };
                h.flush(dt)?; }
            7..=9 if !h.all.is_empty() => { // acknowledge: newest, one in flight, an old number, a run
                match r.below(6) {
                    0 => { let n = h.top.unwrap(); h.ack(n)?; }
                    1 | 2 if !h.fly.is_empty() => { let f = r.below(h.fly.len() as u64) as usize; let v: Vec<u32> = h.fly[f].nums.iter().copied().collect(); let n = *r.pick(&v); h.ack(n)?; }
                    3 => { let n = *r.pick(&h.all.clone()); h.ack(n)?; }
                    4 => { let a = *r.pick(&h.all.clone()); for n in a..=(a + r.below(4) as u32).min(h.top.unwrap()) { h.ack(n)?; } }
                    _ => { let ns: Vec<u32> = h.fly.iter().map(|f| *f.nums.iter().last().unwrap()).collect(); for n in ns { if r.chance(3, 4) { h.ack(n)?; } } }
                }
            }
            10 if !h.all.is_empty() => { let n = if r.chance(1, 2) && !h.fly.is_empty() { let f = &h.fly[r.below(h.fly.len() as u64) as usize]; f.cur.unwrap_or(0) } else { *r.pick(&h.all.clone()) }; h.nack(n)?; }
            11 => { let a = r.below(h.next as u64 + 2) as u32; for n in a..a + 1 + r.below(4) as u32 { h.nack(n)?; } }
            12 => { // a number that was never given to a message
                let n = h.next + if r.chance(1, 2) { 0 } else { r.below(3) as u32 };
                if r.chance(1, 2) { h.ack(n)?; } else { h.nack(n)?; } }
            _ => { h.t += r.below(100) as i64; }
        }
    }
    h.finish(r)?;
    Ok(format!("mtu {m} flushes {} retransmissions {} numbers {}", h.flushes, h.resends, h.all.len()))
}
fn main() {
    let mut c = Ctx::from_args();
    let prop = c.prop.clone();
    let p = prop.as_str();
    c.run("history", "random histories of sends of every kind and size, flushes at any times, acknowledgements and negative acknowledgements of current, superseded, released and never-given numbers", 6000, 0.5, |r, i| { let n = r.range(4, if i % 25 == 0 { 300 } else { 45 }); stop(history(p, r, n)) });
    c.run("large", "one message of 200 to 700 fragments, each round reported missing, timed out or acknowledged in part", 10, 0.3, |r, _| stop((|| {
        let mut h = H::new(p, 400, 7); let n = (r.range(200, 700) * 340) as usize - r.below(340) as usize;
        h.send(2, payload(r, 9, 0))?; h.send(3, payload(r, n, 1))?; h.flush(1)?;
        for _ in 0..r.range(2, 5) {
            let ns: Vec<u32> = h.fly.iter().filter_map(|f| f.cur).collect();
            for n in ns { match r.below(8) { 0 => h.ack(n)?, 1..=5 => h.nack(n)?, _ => {} } }
            let dt = if r.chance(1, 3) { 40_000 } else { r_dt(r) }; h.flush(dt)?;
        }
        h.finish(r)?; Ok(format!("{n}")) })()));
    if p == "C14" {
        c.run("every_mtu", "every 16-bit mtu: the largest accepted size and the smallest refused one, for each reliability", 65536, 0.3, |_, i| {
            let cap = (i as usize).clamp(400, 1500) - 60;
            for k in [0u8, 1, 2, 4] { let mut q = SendQ::new(i as u16);
                ensure!(q.insert(rel(k), &vec![0xfe; cap + 1]).is_err(), "mtu {i}: {} bytes accepted (reliability {k})", cap + 1);
                ensure!(q.insert(rel(k), &vec![0xfe; cap]).is_ok(), "mtu {i}: {cap} bytes refused (reliability {k})"); }
            Ok(String::new()) });
    }
    if p == "C05" || p == "C14" {
        c.run("sizes", "one message of each reliability at every size around the limits, every kind of mtu, between two small ones; then a second time", 6000, 0.4, |r, i| stop((|| {
            let m = mtu(r); let mut h = H::new(p, m, 0);
            for round in 0..2 {
                let cap = h.mtu - 60;
                h.send(2, payload(r, 5, 1))?;
                let n = match i % 5 { 0 => cap - 2 + r.below(5) as usize, 1 => cap * r.range(1, 6) as usize - 1 + r.below(3) as usize, 2 => r.range(1, 70_000) as usize, 3 => r.range(1, cap as u64) as usize, _ => (cap * cap) / 7 + r.below(3) as usize };
                let k = if round == 0 { 3 } else { r.below(5) as u8 };
                h.send(k, payload(r, n, 2))?;
                h.send(*r.pick(&[0u8, 1, 2, 3, 4]), payload(r, 7, 3))?;
                h.flush(1)?;
                let ns: Vec<u32> = h.fly.iter().map(|f| f.cur.unwrap()).collect();
                for n in ns { h.ack(n)?; }
            }
            h.finish(r)?; Ok(format!("mtu {m} {:?}", h.cids)) })()));
        c.run("compound_wrap", "70000 fragmented messages on one queue: the 16-bit compound id wraps", 1, 0.3, |r, _| stop((|| {
            let mut q = SendQ::new(400); let d = payload(r, 700, 1); let mut last: Option<u16> = None;
            for i in 0..70_000u32 {
                q.insert(Reliability::ReliableOrdered, &d).map_err(|e| format!("message {i} refused: {e:?}"))?;
                let o = q.flush(i as i64, &peer());
                ensure!(o.len() == 3 && o.iter().all(|f| f.compound_id == o[0].compound_id) && last != Some(o[0].compound_id), "message {i} handed out as {:?}", o.iter().map(show).collect::<Vec<_>>());
                last = Some(o[0].compound_id);
                for f in o { q.ack(f.sequence_number, i as i64); }
            }
            Ok("70000".into()) })()));
    }
    if p == "C13" {
        c.run("rto", "one message at a time acknowledged after chosen round-trip times", 3000, 0.4, |r, _| stop((|| {
            let mut h = H::new(p, 1400, r.int(40) as i64);
            for s in 0..r.range(1, 40) {
                h.send(2, payload(r, 4, s))?; h.flush(0)?;
                let rtt = match r.below(6) { 0 => 0, 1 => r.below(60) as i64, 2 => r.below(20_000) as i64, 3 => r.int(45) as i64, 4 => 8000, _ => r.below(500) as i64 };
                h.t += rtt;
                if r.chance(1, 6) { h.t -= rtt; h.t = (h.t - r.below(5000) as i64).max(0); }
                let n = h.top.unwrap(); h.ack(n)?;
            }
            Ok(format!("{}", h.q.get_rto())) })()));
        c.run("backoff", "one message retransmitted up to 20 times: not a millisecond before the timeout, and by the flush at the timeout", 600, 0.3, |r, _| stop((|| {
            let mut h = H::new(p, 1400, 5);
            // set some rto
            for s in 0..r.below(6) { h.send(2, payload(r, 4, s))?; h.flush(0)?; h.t += r.below(9000) as i64; let n = h.top.unwrap(); h.ack(n)?; }
            h.send(*r.pick(&[2u8, 3, 4]), payload(r, 9, 1))?; h.flush(0)?;
            for _ in 0..r.range(2, 20) {
                if r.chance(1, 4) { let n = h.top.unwrap(); h.nack(n)?; let o = h.flush(r_dt(r))?; ensure!(o.len() == 1, "a message reported missing is not retransmitted by the next flush"); continue; }
                let mut cur = h.q.get_rto(); for _ in 0..h.fly[0].times { cur += cur / 2; }
                if cur > 1 { h.flush(cur - 1)?; }
                h.flush(1)?;
            }
            h.finish(r)?; Ok(format!("{}", h.t)) })()));
    }
    c.done();
}
fn r_dt(r: &mut Rng) -> i64 { r.below(30) as i64 }
