//! C06 reassembly, C07 ordered delivery, C08 sequenced and unordered delivery, C09 acknowledgements, C10 negative acknowledgements
use engine::*;
use rust_raknet::verif::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

fn rel(k: u8) -> Reliability {
    match k { 0 => Reliability::Unreliable, 1 => Reliability::UnreliableSequenced, 2 => Reliability::Reliable, 3 => Reliability::ReliableOrdered, _ => Reliability::ReliableSequenced }
}
fn frame(num: u32, k: u8, idx: u32, data: Vec<u8>) -> FrameSetPacket {
    let mut p = FrameSetPacket::new(rel(k), data);
    p.id = 0x84;
    p.sequence_number = num;
    if k == 3 { p.ordered_frame_index = idx; }
    if k == 1 || k == 4 { p.sequenced_frame_index = idx; }
    p
}
fn fragment(num: u32, ord: u32, cid: u16, size: u32, i: u32, data: Vec<u8>) -> FrameSetPacket {
    let mut p = frame(num, 3, ord, data);
    p.flags |= 16;
    p.compound_id = cid;
    p.compound_size = size;
    p.fragment_index = i;
    p
}
fn show(p: &FrameSetPacket) -> String {
    format!("{{num={} rel={} ord={} seq={}{} data={:02x?}({})}}", p.sequence_number, p.flags >> 5, p.ordered_frame_index, p.sequenced_frame_index,
        if p.flags & 16 != 0 { format!(" frag {}/{} of {}", p.fragment_index, p.compound_size, p.compound_id) } else { String::new() }, &p.data[..p.data.len().min(8)], p.data.len())
}
fn peer() -> std::net::SocketAddr { "127.0.0.1:1".parse().unwrap() }
fn ins(q: &mut RecvQ, p: FrameSetPacket) -> R { note!("insert {}", show(&p)); q.insert(p).map_err(|e| format!("insert of a valid frame returned {e:?}")) }
fn flush(q: &mut RecvQ) -> Vec<FrameSetPacket> { let r = q.flush(&peer()); note!("flush -> {:?}", r.iter().map(show).collect::<Vec<_>>()); r }

/// C07 oracle: what has been handed up is the run 0.. of first payloads, all of the arrived prefix
struct Ordered { first: BTreeMap<u32, Vec<u8>>, next: u32 }
impl Ordered {
    fn new() -> Self { Ordered { first: BTreeMap::new(), next: 0 } }
    fn arrive(&mut self, i: u32, d: &[u8]) { self.first.entry(i).or_insert_with(|| d.to_vec()); }
    fn read(&mut self, out: &[FrameSetPacket]) -> R {
        for p in out.iter().filter(|p| p.flags >> 5 == 3) {
            ensure!(p.ordered_frame_index == self.next, "ordered message {} handed up when {} is next", p.ordered_frame_index, self.next);
            let d = self.first.get(&self.next);
            ensure!(d.is_some(), "ordered message {} handed up but it never arrived", self.next);
            ensure!(d.unwrap() == &p.data, "ordered message {} handed up with payload {:02x?} instead of {:02x?}", self.next, &p.data[..p.data.len().min(20)], &d.unwrap()[..d.unwrap().len().min(20)]);
            self.next += 1;
        }
        ensure!(!self.first.contains_key(&self.next), "ordered message {} has arrived, is next, and was not handed up by the read-out", self.next);
        Ok(())
    }
}
/// C08 oracle
struct Unord { waiting: BTreeMap<u32, (u8, Vec<u8>)>, newest: Option<u32> }
impl Unord {
    fn new() -> Self { Unord { waiting: BTreeMap::new(), newest: None } }
    fn arrive(&mut self, p: &FrameSetPacket) {
        let k = p.flags >> 5;
        if self.waiting.contains_key(&p.sequence_number) { return; }
        match k {
            0 | 2 => { self.waiting.insert(p.sequence_number, (k, p.data.clone())); }
            1 | 4 => {
                if self.newest.map_or(true, |n| p.sequenced_frame_index > n) { self.newest = Some(p.sequenced_frame_index); self.waiting.insert(p.sequence_number, (k, p.data.clone())); }
            }
            _ => {}
        }
    }
    fn read(&mut self, out: &[FrameSetPacket]) -> R {
        let mut w = std::mem::take(&mut self.waiting);
        for p in out.iter().filter(|p| p.flags >> 5 != 3) {
            match w.remove(&p.sequence_number) {
                None => return Err(format!("{} handed up although it was not accepted or was handed up before", show(p))),
                Some((k, d)) => ensure!(k == p.flags >> 5 && d == p.data, "{} handed up altered", show(p)),
            }
        }
        ensure!(w.is_empty(), "accepted messages in datagrams {:?} not handed up by the read-out", w.keys().collect::<Vec<_>>());
        Ok(())
    }
}
fn ranges(l: &[(u32, u32)], what: &str) -> Result<BTreeSet<u32>, String> {
    let mut s = BTreeSet::new();
    for (a, b) in l {
        ensure!(a <= b, "{what} range ({a},{b}) is empty or descending");
        ensure!(b - a < 2_000_000, "{what} range ({a},{b}) is absurd");
        for n in *a..=*b { s.insert(n); }
    }
    Ok(s)
}
/// the same without expanding: sorted, merged
fn merged(mut l: Vec<(u32, u32)>) -> Vec<(u32, u32)> {
    l.sort();
    let mut o: Vec<(u32, u32)> = vec![];
    for (a, b) in l { match o.last_mut() { Some(x) if a <= x.1.saturating_add(1) => x.1 = x.1.max(b), _ => o.push((a, b)) } }
    o
}
struct Acks { pending: BTreeSet<u32> }
impl Acks { fn read(&mut self, l: &[(u32, u32)]) -> R {
    let s = ranges(l, "acknowledgement")?;
    let w = std::mem::take(&mut self.pending);
    ensure!(s == w, "acknowledged {:?}, received since the last hand-out {:?}", s.difference(&w).chain(w.difference(&s)).take(10).collect::<Vec<_>>(), w.iter().take(30).collect::<Vec<_>>());
    Ok(())
} }
struct Nacks { max: u32, gaps: Vec<(u32, u32)> }
impl Nacks {
    fn arrive(&mut self, n: u32) { if n > self.max { if n > self.max + 1 { self.gaps.push((self.max + 1, n - 1)); } self.max = n; } }
    fn read(&mut self, l: &[(u32, u32)]) -> R {
        for (a, b) in l { ensure!(a <= b, "missing range ({a},{b}) is empty or descending"); }
        let mut t = l.to_vec(); t.sort();
        for w in t.windows(2) { ensure!(w[0].1 < w[1].0, "numbers reported missing twice: {:?} and {:?}", w[0], w[1]); }
        let (s, w) = (merged(l.to_vec()), merged(std::mem::take(&mut self.gaps)));
        ensure!(s == w, "reported missing {s:?}, the gaps are {w:?}");
        Ok(())
    }
}
fn number(r: &mut Rng, near: u32, used: &HashSet<u32>) -> u32 {
    match r.below(10) {
        0 => near + 2 + r.below(4) as u32,
        1 if near > 3 => near - r.below(3) as u32,
        2 if !used.is_empty() => { let mut v: Vec<_> = used.iter().copied().collect(); v.sort(); *r.pick(&v) }
        3 => r.below(near as u64 + 4) as u32,
        _ => near + 1,
    }
}
fn main() {
    let mut c = Ctx::from_args();
    if c.is("C06") {
        c.run("compounds", "up to 6 messages cut into fragments, arriving permuted, interleaved and repeated, read out after each arrival", 12000, 0.5, |r, i| compounds(r, if i % 50 == 0 { 400 } else if i % 10 == 0 { 40 } else { 7 }));
        c.run("exhaustive", "2 messages of 2 and 3 fragments: every arrival order, each with a repetition at every place", 120 * 36, 0.2, |_, i| {
            let mut items: Vec<(u32, u32)> = vec![(0, 0), (0, 1), (1, 0), (1, 1), (1, 2)];
            let mut k = i % 120; let mut ord = vec![];
            for n in (1..=5u64).rev() { ord.push(items.remove((k % n) as usize)); k /= n; }
            let d = i / 120; let dup = ord[(d % 5).min(4) as usize]; let at = ((d / 5) as usize).min(5);
            ord.insert(at, dup);
            deliver(&[vec![vec![1], vec![2, 3]], vec![vec![4], vec![], vec![5]]], &[7, 8], &ord, 1)?; Ok(format!("{ord:?}")) });
        c.run("large", "one message of up to 6000 fragments beside a small one, in order, reversed or shuffled", 12, 0.2, |r, i| {
            let n = match i % 6 { 0 => 513, 1 => 700, 2 => r.range(256, 1100) as u32, 3 => 4097, 4 => r.range(1025, 2100) as u32, _ => r.range(2000, 6000) as u32 };
            let msgs: Vec<Vec<Vec<u8>>> = vec![(0..n).map(|i| vec![i as u8, (i >> 8) as u8, 1]).collect(), vec![vec![1], vec![2]]];
            let mut ord: Vec<(u32, u32)> = (0..n).map(|f| (0, f)).chain([(1, 0), (1, 1)]).collect();
            match r.below(3) { 0 => {} 1 => ord.reverse(), _ => r.shuffle(&mut ord) }
            deliver(&msgs, &[r.int(16) as u16, 77], &ord, 6100)?; Ok(format!("{n} {:?}", &ord[..4])) });
        c.run("reuse", "one compound id used again for a later message, after the earlier one is complete", 3000, 0.2, |r, _| {
            let mut q = RecvQ::new(); let mut num = 0; let mut up = vec![]; let mut want = vec![];
            let id = r.int(16) as u16;
            for m in 0..4u32 {
                let n = r.range(2, 6) as u32; let mut o: Vec<u32> = (0..n).collect(); r.shuffle(&mut o);
                want.push((0..n).flat_map(|i| vec![m as u8, i as u8]).collect::<Vec<u8>>());
                for i in o { ins(&mut q, fragment(num, m, id, n, i, vec![m as u8, i as u8]))?; num += 1; up.extend(flush(&mut q).into_iter().map(|p| p.data)); }
            }
            ensure!(up == want, "handed up {up:02x?} instead of {want:02x?}"); Ok(format!("{id} {num}")) });
    }
    if c.is("C07") {
        c.run("exhaustive", "every sequence of up to 6 arrivals over 4 ordered indexes (5 arrivals in the quick tier), read out after every subset of arrivals", if c.thorough { 4u64.pow(6) * 64 } else { 4u64.pow(5) * 32 }, 0.3, |_, i| {
            let len = if c_len(i) { 6 } else { 5 };
            let mut k = i; let mut q = RecvQ::new(); let mut o = Ordered::new();
            let mask = k % (1 << len); k >>= len;
            for s in 0..len { let x = (k % 4) as u32; k /= 4; ins(&mut q, frame(s, 3, x, vec![x as u8, s as u8]))?; o.arrive(x, &[x as u8, s as u8]); if mask >> s & 1 == 1 { o.read(&flush(&mut q))?; } }
            o.read(&flush(&mut q))?; Ok(format!("{i}")) });
        c.run("history", "up to 120 arrivals of ordered messages, shuffled within windows, repeated (also after delivery, with other payloads), whole or in fragments, mixed with unordered ones", 8000, 0.5, |r, _| ordered_history(r));
        c.run("long", "long reordering: 2000 messages arriving in reverse or shuffled", 20, 0.2, |r, i| {
            let n = 2000; let mut v: Vec<u32> = (0..n).collect(); if i % 2 == 0 { v.reverse(); } else { r.shuffle(&mut v); }
            let mut q = RecvQ::new(); let mut o = Ordered::new();
            for (s, x) in v.iter().enumerate() { let d = x.to_le_bytes().to_vec(); o.arrive(*x, &d); q.insert(frame(s as u32, 3, *x, d)).map_err(|e| format!("{e:?}"))?; if s % 97 == 0 { o.read(&q.flush(&peer()))?; } }
            o.read(&q.flush(&peer()))?; ensure!(o.next == n, "only {} of {n} messages handed up", o.next); Ok(format!("{i}")) });
    }
    if c.is("C08") {
        c.run("history", "up to 100 arrivals of unordered and sequenced messages of both kinds with read-outs in between", 12000, 0.6, |r, _| {
            let mut q = RecvQ::new(); let mut u = Unord::new(); let mut num = 0; let mut used = HashSet::new(); let mut top = 0u32; let mut n = 0;
            for s in 0..r.range(1, 100) {
                num = number(r, num, &used); used.insert(num);
                let k = *r.pick(&[0u8, 1, 2, 4, 1, 4, 3]);
                let idx = match r.below(6) { 0 => top, 1 => top.saturating_sub(r.below(4) as u32), 2 => r.below(top as u64 + 3) as u32, 3 => (top + r.int(23) as u32).min(0xfffffe), _ => top + 1 }.min(0xffffff);
                if k == 1 || k == 4 { top = top.max(idx); }
                let p = frame(num, k, idx, vec![s as u8, k, 0xaa]);
                u.arrive(&p); ins(&mut q, p)?;
                if r.chance(1, 2) { u.read(&flush(&mut q))?; n += 1; }
            }
            u.read(&flush(&mut q))?; Ok(format!("{num} {n} {top}")) });
        c.run("exhaustive", "every sequence of 5 arrivals over sequenced indexes 0..3 of both sequenced kinds, read out after each arrival", 8u64.pow(5), 0.4, |_, i| {
            let mut k = i; let mut q = RecvQ::new(); let mut u = Unord::new();
            for s in 0..5u32 { let x = k % 8; k /= 8; let p = frame(s, if x < 4 { 1 } else { 4 }, (x % 4) as u32, vec![s as u8]); u.arrive(&p); ins(&mut q, p)?; u.read(&flush(&mut q))?; }
            Ok(format!("{i}")) });
    }
    if c.is("C09") || c.is("C10") {
        let nine = c.is("C09");
        c.run("ackset", "up to 150 arrivals of datagram numbers (ascending with gaps, late, repeated, jumps), hand-outs in between", 12000, 0.3, |r, i| {
            let mut s = ACKSet::new(); let mut a = Acks { pending: BTreeSet::new() }; let mut k = Nacks { max: 0, gaps: vec![] }; let mut num = 0; let mut used = HashSet::new();
            let jump = i % 3 == 0;
            for _ in 0..r.range(1, if i % 20 == 0 { 1500 } else { 150 }) {
                if used.is_empty() && r.chance(1, 2) { num = 0 } else { num = number(r, num, &used); if jump && r.chance(1, 30) { num = r.int(24) as u32; } }
                num = num.min(0xffffff);
                used.insert(num); note!("insert {num}"); s.insert(num); a.pending.insert(num); k.arrive(num);
                if r.chance(1, 6) { let l = s.get_ack(); note!("get_ack -> {l:?}"); if nine { a.read(&l)?; } }
                if r.chance(1, 6) { let l = s.get_nack(); note!("get_nack -> {:?}", &l[..l.len().min(20)]); if !nine { k.read(&l)?; } }
            }
            let l = s.get_ack(); note!("get_ack -> {l:?}"); if nine { a.read(&l)?; ensure!(s.get_ack().is_empty(), "a second hand-out is not empty"); }
            let l = s.get_nack(); note!("get_nack -> {:?}", &l[..l.len().min(20)]); if !nine { k.read(&l)?; ensure!(s.get_nack().is_empty(), "a second hand-out is not empty"); }
            Ok(format!("{num} {}", used.len())) });
        c.run("exhaustive", "every sequence of 6 numbers out of 0..5 with hand-outs after every third", 6u64.pow(6), 0.3, |_, i| {
            let mut s = ACKSet::new(); let mut a = Acks { pending: BTreeSet::new() }; let mut k = Nacks { max: 0, gaps: vec![] }; let mut x = i;
            for n in 0..6 { let v = (x % 6) as u32; x /= 6; note!("insert {v}"); s.insert(v); a.pending.insert(v); k.arrive(v);
                if n % 3 == 2 { let (l, m) = (s.get_ack(), s.get_nack()); note!("{l:?} {m:?}"); if nine { a.read(&l)?; } else { k.read(&m)?; } } }
            Ok(format!("{i}")) });
        c.run("scattered", "up to 3000 separate ranges between two hand-outs", 30, 0.2, |r, i| {
            let mut s = ACKSet::new(); let mut a = Acks { pending: BTreeSet::new() }; let mut k = Nacks { max: 0, gaps: vec![] };
            let n = match i % 5 { 0 => r.range(60, 140), 1 => r.range(120, 300), 2 => r.range(500, 1100), 3 => 3000, _ => r.range(20, 70) };
            let step = r.range(2, 5) as u32; let mut v: Vec<u32> = (0..n as u32).map(|x| x * step + 1).collect();
            let w = *r.pick(&[1usize, 1, 3, 4000]); for i in 0..v.len() { let j = (i + r.below(w as u64) as usize).min(v.len() - 1); v.swap(i, j); }
            note!("insert {:?} ...", &v[..8]);
            for x in &v { s.insert(*x); a.pending.insert(*x); k.arrive(*x); }
            let (l, m) = (s.get_ack(), s.get_nack()); note!("{} ranges acknowledged, {} missing", l.len(), m.len());
            if nine { a.read(&l)?; ensure!(s.get_ack().is_empty(), "a second hand-out is not empty"); } else { k.read(&m)?; ensure!(s.get_nack().is_empty(), "a second hand-out is not empty"); }
            Ok(format!("{n} {step} {w}")) });
        c.run("recvq", "arrivals of frames of every kind (stale, repeated, fragments, late duplicates), read out after each frame", 6000, 0.3, |r, _| {
            let mut q = RecvQ::new(); let mut a = Acks { pending: BTreeSet::new() }; let mut k = Nacks { max: 0, gaps: vec![] }; let mut num = 0; let mut used = HashSet::new();
            for _ in 0..r.range(1, 80) {
                if !(used.is_empty() && r.chance(1, 2)) { num = number(r, num, &used); }
                used.insert(num);
                for _ in 0..if r.chance(1, 6) { 2 } else { 1 } {
                    let (kd, idx) = (r.below(5) as u8, r.below(8) as u32);
                    let p = if kd == 3 && r.chance(1, 3) { fragment(num, idx, idx as u16, 3, r.below(3) as u32, vec![1]) } else { frame(num, kd, idx, vec![2]) };
                    a.pending.insert(num); k.arrive(num);
                    ins(&mut q, p)?; flush(&mut q);
                }
                if r.chance(1, 4) { let l = q.get_ack(); note!("get_ack -> {l:?}"); if nine { a.read(&l)?; } }
                if r.chance(1, 4) { let l = q.get_nack(); note!("get_nack -> {l:?}"); if !nine { k.read(&l)?; } }
            }
            let (l, m) = (q.get_ack(), q.get_nack()); note!("{l:?} {m:?}"); if nine { a.read(&l)?; } else { k.read(&m)?; }
            Ok(format!("{num} {}", used.len())) });
    }
    c.done();
}
fn c_len(i: u64) -> bool { i >= 4u64.pow(5) * 32 }
/// deliver fragments (message, fragment) in the given order, one datagram each; the messages use order indexes 0.. in turn
fn deliver(msgs: &[Vec<Vec<u8>>], ids: &[u16], order: &[(u32, u32)], flush_every: usize) -> R {
    let mut q = RecvQ::new();
    let mut have: HashMap<u32, HashSet<u32>> = HashMap::new();
    let mut up: Vec<u32> = vec![];
    let mut first: HashMap<(u32, u32), u32> = HashMap::new();
    for (s, (m, f)) in order.iter().enumerate() {
        // a repetition is the same datagram again, or the fragment in a new one
        let n = *first.entry((*m, *f)).or_insert(s as u32);
        let p = fragment(if s % 2 == 0 { n } else { s as u32 }, *m, ids[*m as usize], msgs[*m as usize].len() as u32, *f, msgs[*m as usize][*f as usize].clone());
        ins(&mut q, p)?;
        have.entry(*m).or_default().insert(*f);
        if (s + 1) % flush_every == 0 || s + 1 == order.len() {
            for p in flush(&mut q) {
                let i = p.ordered_frame_index;
                ensure!((i as usize) < msgs.len(), "a message with order index {i} was made up");
                ensure!(have.get(&i).map_or(0, |x| x.len()) == msgs[i as usize].len(), "message {i} handed up after {} of its {} fragments", have.get(&i).map_or(0, |x| x.len()), msgs[i as usize].len());
                ensure!(p.data == msgs[i as usize].concat(), "message {i} rebuilt as {:02x?} ({} bytes) instead of {:02x?} ({} bytes)", &p.data[..p.data.len().min(30)], p.data.len(), &msgs[i as usize].concat()[..msgs[i as usize].concat().len().min(30)], msgs[i as usize].concat().len());
                ensure!(!up.contains(&i), "message {i} rebuilt twice");
                up.push(i);
            }
        }
    }
    for m in 0..msgs.len() as u32 {
        let complete = (0..=m).all(|x| have.get(&x).map_or(0, |h| h.len()) == msgs[x as usize].len());
        ensure!(complete == up.contains(&m), "message {m}: all fragments up to it arrived: {complete}, handed up: {}", up.contains(&m));
    }
    Ok(())
}
fn compounds(r: &mut Rng, maxfrag: u64) -> Result<String, String> {
    let n = r.range(1, 6) as usize;
    let mut ids: Vec<u16> = vec![];
    while ids.len() < n { let i = if r.chance(1, 2) { ids.len() as u16 } else { r.int(16) as u16 }; if !ids.contains(&i) { ids.push(i); } }
    let msgs: Vec<Vec<Vec<u8>>> = (0..n).map(|m| { let k = r.range(1, maxfrag); (0..k).map(|i| { let l = r.below(4) as usize; let mut d = vec![m as u8, i as u8, (i >> 8) as u8]; d.extend(r.bytes(l)); if r.chance(1, 10) { d.clear(); } d }).collect() }).collect();
    let mut order: Vec<(u32, u32)> = vec![];
    for (m, fs) in msgs.iter().enumerate() { for f in 0..fs.len() { order.push((m as u32, f as u32)); } }
    match r.below(4) { 0 => {} 1 => order.reverse(), _ => r.shuffle(&mut order) }
    let lost = r.chance(1, 5);
    if lost && order.len() > 1 { let i = r.below(order.len() as u64) as usize; order.remove(i); }
    for _ in 0..r.below(order.len() as u64 + 1) { let x = *r.pick(&order.clone()); let at = r.below(order.len() as u64 + 1) as usize; order.insert(at, x); }
    let fe = *r.pick(&[1usize, 1, 1, 3, 1000]);
    note!("messages {:?} ids {ids:?} read out every {fe}", msgs.iter().map(|m| m.len()).collect::<Vec<_>>());
    deliver(&msgs, &ids, &order, fe)?;
    Ok(format!("{ids:?} {:?}", &order[..order.len().min(12)]))
}
fn ordered_history(r: &mut Rng) -> Result<String, String> {
    let mut q = RecvQ::new();
    let mut o = Ordered::new();
    let n = r.range(1, 60) as u32;
    // arrivals: (index, fragment or none), shuffled within a window, with repetitions
    let mut ev: Vec<(u32, Option<(u32, u32)>)> = vec![];
    for i in 0..n { if r.chance(1, 5) { let k = r.range(1, 4) as u32; for f in 0..k { ev.push((i, Some((f, k)))); } } else { ev.push((i, None)); } }
    let w = *r.pick(&[1usize, 2, 5, 20, 200]);
    for i in 0..ev.len() { let j = (i + r.below(w as u64) as usize).min(ev.len() - 1); ev.swap(i, j); }
    if r.chance(1, 4) && ev.len() > 2 { let i = r.below(ev.len() as u64) as usize; ev.remove(i); }
    for _ in 0..r.below(ev.len() as u64 + 2) { let x = *r.pick(&ev.clone()); let at = r.below(ev.len() as u64 + 1) as usize; ev.insert(at, x); }
    let fl = r.range(1, 6);
    let mut frs: HashMap<u32, BTreeMap<u32, Vec<u8>>> = HashMap::new();
    let mut num = 0u32;
    for (s, (i, f)) in ev.iter().enumerate() {
        num += 1 + r.below(2) as u32;
        match f {
            None => { let d = vec![*i as u8, s as u8, 0xee]; o.arrive(*i, &d); ins(&mut q, frame(num, 3, *i, d))?; }
            Some((f, k)) => {
                let d = vec![*i as u8, *f as u8, 0xdd];
                let e = frs.entry(*i).or_default(); e.insert(*f, d.clone());
                if e.len() == *k as usize { let whole: Vec<u8> = e.values().flatten().copied().collect(); o.arrive(*i, &whole); }
                ins(&mut q, fragment(num, *i, *i as u16, *k, *f, d))?;
            }
        }
        if r.chance(1, 8) { num += 1; ins(&mut q, frame(num, *r.pick(&[0u8, 2]), 0, vec![9]))?; }
        if r.chance(1, fl) { o.read(&flush(&mut q))?; }
    }
    o.read(&flush(&mut q))?;
    Ok(format!("{n} {w} {:?}", &ev[..ev.len().min(16)]))
}
