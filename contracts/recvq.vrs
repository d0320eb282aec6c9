@@ module arq
@@ top
use super::fragment::*;

// ---- acknowledgement bookkeeping ---------------------------------------------------------------
/// x lies in one of the ranges
pub open spec fn covers(v: Seq<(u32, u32)>, x: int) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 <= x <= v[i].1 }
pub open spec fn ranges_ok(v: Seq<(u32, u32)>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 <= v[i].1 < 0x1000000 }
impl ACKSet {
    pub open spec fn wf(&self) -> bool { ranges_ok(self.ack@) && ranges_ok(self.nack@) && self.last_max < 0x1000000 }
}
/// what receiving datagram number s does to the bookkeeping
pub open spec fn ack_step(a: ACKSet, b: ACKSet, s: u32) -> bool {
    &&& b.ack@.len() <= a.ack@.len() + 1
    &&& forall|x: int| #[trigger] covers(b.ack@, x) <==> covers(a.ack@, x) || x == s
    &&& b.last_max == (if s > a.last_max { s } else { a.last_max })
    &&& b.nack@ == (if s > a.last_max + 1 { a.nack@.push(((a.last_max + 1) as u32, (s - 1) as u32)) } else { a.nack@ })
}
pub open spec fn in_range(r: (u32, u32), x: u32) -> bool { r.0 <= x <= r.1 }
/// C10: every received number is at most last_max, so a new gap never contains one
pub proof fn gap_is_new(a: ACKSet, b: ACKSet, s: u32, received: Set<u32>)
    requires a.wf(), s < 0x1000000, ack_step(a, b, s), forall|x: u32| #[trigger] received.contains(x) ==> x <= a.last_max,
    ensures forall|x: u32| #[trigger] received.insert(s).contains(x) ==> x <= b.last_max,
        // the numbers newly reported are exactly those skipped by s: above everything seen, below s
        forall|x: u32| b.nack@.len() > a.nack@.len() && #[trigger] in_range(b.nack@.last(), x) <==> a.last_max < x < s,
        forall|x: u32| b.nack@.len() > a.nack@.len() && #[trigger] in_range(b.nack@.last(), x) ==> !received.insert(s).contains(x),
        b.nack@.len() > a.nack@.len() ==> b.nack@ == a.nack@.push(b.nack@.last()) && b.nack@.last().0 <= b.nack@.last().1,
        b.nack@.len() <= a.nack@.len() ==> b.nack@ == a.nack@,
{}
pub proof fn covers_push(v: Seq<(u32, u32)>, s: u32)
    ensures forall|x: int| #[trigger] covers(v.push((s, s)), x) <==> covers(v, x) || x == s,
{
    let w = v.push((s, s));
    assert forall|x: int| #[trigger] covers(w, x) <==> covers(v, x) || x == s by {
        if covers(v, x) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 <= x <= v[i].1; assert(w[i] == v[i]); }
        if x == s { assert(w[v.len() as int] == (s, s)); }
        if covers(w, x) && x != s { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).0 <= x <= w[i].1; assert(v[i] == w[i]); }
    }
}
/// growing range k of v by exactly the number s
pub proof fn covers_grow(v: Seq<(u32, u32)>, k: int, w: Seq<(u32, u32)>, s: u32)
    requires 0 <= k < v.len(), w.len() == v.len(), forall|i: int| 0 <= i < v.len() && i != k ==> v[i] == w[i],
        v[k].0 <= v[k].1,
        (w[k].0 == s && s + 1 == v[k].0 && w[k].1 == v[k].1) || (w[k].1 == s && s == v[k].1 + 1 && w[k].0 == v[k].0),
    ensures forall|x: int| #[trigger] covers(w, x) <==> covers(v, x) || x == s,
{
    assert forall|x: int| #[trigger] covers(w, x) <==> covers(v, x) || x == s by {
        if covers(v, x) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 <= x <= v[i].1; assert(w[i].0 <= x <= w[i].1); }
        if x == s { assert(w[k].0 <= x <= w[k].1); }
        if covers(w, x) && x != s { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).0 <= x <= w[i].1; assert(v[i].0 <= x <= v[i].1); }
    }
}

@@ fn ACKSet::new
    ensures r.wf(), r.ack@.len() == 0, r.nack@.len() == 0, r.last_max == 0,
@@ fn ACKSet::insert
    requires old(self).wf(), s < 0x1000000,
    ensures final(self).wf(), ack_step(*old(self), *final(self), s),
@@@ loops for
@@@ loop 0 inv
    invariant self.ack@ == old(self).ack@, ranges_ok(self.nack@), self.last_max < 0x1000000, ranges_ok(old(self).ack@), s < 0x1000000,
        self.last_max == (if s > old(self).last_max { s } else { old(self).last_max }),
        self.nack@ == (if s > old(self).last_max + 1 { old(self).nack@.push(((old(self).last_max + 1) as u32, (s - 1) as u32)) } else { old(self).nack@ }),
@@@ before `return`#0
    proof { covers_grow(old(self).ack@, i as int, self.ack@, s); }
@@@ before `return`#1
    proof { covers_grow(old(self).ack@, i as int, self.ack@, s); }
@@@ before `self.ack.push`
    proof { covers_push(self.ack@, s); }
@@ fn ACKSet::get_ack
    requires old(self).wf(),
    ensures final(self).wf(), r@ == old(self).ack@, final(self).ack@.len() == 0, final(self).nack@ == old(self).nack@, final(self).last_max == old(self).last_max,
@@@ start
    broadcast use pair_clone;
@@@ before `self.ack.clear`
    proof { assert(ret@ =~= old(self).ack@); }
@@ fn ACKSet::get_nack
    requires old(self).wf(),
    ensures final(self).wf(), r@ == old(self).nack@, final(self).nack@.len() == 0, final(self).ack@ == old(self).ack@, final(self).last_max == old(self).last_max,
@@@ start
    broadcast use pair_clone;
@@@ before `self.nack.clear`
    proof { assert(ret@ =~= old(self).nack@); }
@@ top

// ---- receive queue -----------------------------------------------------------------------------
/// numbers of a frame that came off the wire are 24-bit
pub open spec fn frame24(f: FrameSetPacket) -> bool {
    f.sequence_number < 0x1000000 && f.sequenced_frame_index < 0x1000000 && f.ordered_frame_index < 0x1000000
}
impl RecvQ {
    pub open spec fn wf(&self) -> bool {
        &&& self.sequence_number_ackset.wf()
        &&& self.sequenced_frame_index <= 0x1000000
        &&& forall|k: u32| #[trigger] self.packets@.contains_key(k) ==> self.packets@[k].sequence_number == k
        &&& forall|k: u32| #[trigger] self.ordered_packets@.contains_key(k) ==> k < 0x1000000 && self.ordered_packets@[k].ordered_frame_index == k
        &&& self.fragment_queue.wf()
        &&& forall|k: u16| #[trigger] self.fragment_queue.fragments@.contains_key(k) ==> {
                let a = self.fragment_queue.fragments@[k];
                rel_code(a.flags) == 3 && a.ordered_frame_index < 0x1000000 && !a.is_full()
            }
    }
    pub open spec fn parts(&self) -> Map<u16, Fragment> { self.fragment_queue.fragments@ }
}
/// fragments collected for f's compound once f is added
pub open spec fn parts_with(a: Map<u16, Fragment>, f: FrameSetPacket) -> Map<u32, FrameSetPacket> {
    let id = f.compound_id;
    if !a.contains_key(id) { Map::empty().insert(f.fragment_index, f) }
    else if f.compound_size != a[id].compound_size || a[id].frames@.contains_key(f.fragment_index) { a[id].frames@ }
    else { a[id].frames@.insert(f.fragment_index, f) }
}
pub open spec fn parts_size(a: Map<u16, Fragment>, f: FrameSetPacket) -> u32 { if a.contains_key(f.compound_id) { a[f.compound_id].compound_size } else { f.compound_size } }
pub open spec fn parts_index(a: Map<u16, Fragment>, f: FrameSetPacket) -> u32 { if a.contains_key(f.compound_id) { a[f.compound_id].ordered_frame_index } else { f.ordered_frame_index } }
pub open spec fn or_insert(m: Map<u32, FrameSetPacket>, k: u32, v: FrameSetPacket) -> Map<u32, FrameSetPacket> { if m.contains_key(k) { m } else { m.insert(k, v) } }
/// what a fragment does: it joins its compound; the compound that becomes complete leaves as one message
pub open spec fn fragment_step(a: RecvQ, b: RecvQ, f: FrameSetPacket) -> bool {
    let id = f.compound_id;
    &&& forall|k: u16| #![trigger b.parts().contains_key(k)] #![trigger b.parts()[k]] k != id ==>
            (b.parts().contains_key(k) <==> a.parts().contains_key(k)) && (a.parts().contains_key(k) ==> b.parts()[k] == a.parts()[k])
    &&& if f.compound_size == 0 {
            b.parts() == a.parts() && b.ordered_packets@ == a.ordered_packets@
        } else if parts_with(a.parts(), f).len() == parts_size(a.parts(), f) {
            &&& !b.parts().contains_key(id)
            &&& completes(a, b.ordered_packets@, f)
        } else {
            &&& b.parts().contains_key(id)
            &&& b.parts()[id].frames@ == parts_with(a.parts(), f) && b.parts()[id].compound_size == parts_size(a.parts(), f)
                && b.parts()[id].ordered_frame_index == parts_index(a.parts(), f)
            &&& b.ordered_packets@ == a.ordered_packets@
        }
}
/// p is the message that f's compound becomes when f completes it
pub open spec fn rebuilt(a: Map<u16, Fragment>, f: FrameSetPacket, p: FrameSetPacket) -> bool {
    p.data@ == joined(parts_with(a, f)) && p.ordered_frame_index == parts_index(a, f) && rel_code(p.flags) == 3 && !frag_bit(p.flags)
}
/// the message f completes waits for its turn (unless a message with its number is already waiting)
pub open spec fn completes(a: RecvQ, om: Map<u32, FrameSetPacket>, f: FrameSetPacket) -> bool {
    exists|p: FrameSetPacket| #[trigger] rebuilt(a.parts(), f, p) && om == or_insert(a.ordered_packets@, parts_index(a.parts(), f), p)
}
pub open spec fn ordered_step(a: RecvQ, b: RecvQ, f: FrameSetPacket) -> bool {
    &&& b.packets@ == a.packets@ && b.sequenced_frame_index == a.sequenced_frame_index && b.last_ordered_index == a.last_ordered_index
    &&& if f.ordered_frame_index < a.last_ordered_index || a.ordered_packets@.contains_key(f.ordered_frame_index) {
            b.ordered_packets@ == a.ordered_packets@ && b.parts() == a.parts()
        } else if frag_bit(f.flags) { fragment_step(a, b, f) }
        else { b.ordered_packets@ == a.ordered_packets@.insert(f.ordered_frame_index, f) && b.parts() == a.parts() }
}
pub open spec fn insert_step(a: RecvQ, b: RecvQ, f: FrameSetPacket) -> bool {
    let c = rel_code(f.flags);
    if a.packets@.contains_key(f.sequence_number) { b == a }
    else {
        &&& ack_step(a.sequence_number_ackset, b.sequence_number_ackset, f.sequence_number)
        &&& if c == 3 { ordered_step(a, b, f) } else {
                &&& b.ordered_packets@ == a.ordered_packets@ && b.parts() == a.parts() && b.last_ordered_index == a.last_ordered_index
                &&& if c == 0 || c == 2 {
                        b.packets@ == a.packets@.insert(f.sequence_number, f) && b.sequenced_frame_index == a.sequenced_frame_index
                    } else if (c == 1 || c == 4) && f.sequenced_frame_index >= a.sequenced_frame_index {
                        b.packets@ == a.packets@.insert(f.sequence_number, f) && b.sequenced_frame_index == f.sequenced_frame_index + 1
                    } else {
                        b.packets@ == a.packets@ && b.sequenced_frame_index == a.sequenced_frame_index
                    }
            }
    }
}
/// the queue right after f was added, before complete compounds leave
pub open spec fn frags_step(a: Map<u16, Fragment>, b: Map<u16, Fragment>, f: FrameSetPacket) -> bool {
    let id = f.compound_id;
    &&& forall|k: u16| #![trigger b.contains_key(k)] #![trigger b[k]] k != id ==> (b.contains_key(k) <==> a.contains_key(k)) && (a.contains_key(k) ==> b[k] == a[k])
    &&& if f.compound_size == 0 { b == a } else {
            b.contains_key(id) && rel_code(b[id].flags) == 3 && b[id].frames@ == parts_with(a, f) && b[id].compound_size == parts_size(a, f)
                && b[id].ordered_frame_index == parts_index(a, f)
        }
}
/// complete compounds leave: only id can be one
pub open spec fn flush_is(m: Map<u16, Fragment>, id: u16, r: Seq<FrameSetPacket>) -> bool {
    if m.contains_key(id) && m[id].is_full() { r.len() == 1 && merged(m[id], r[0]) } else { r.len() == 0 }
}
pub proof fn flush_one(m: Map<u16, Fragment>, id: u16)
    requires forall|k: u16| #[trigger] m.contains_key(k) && k != id ==> !m[k].is_full(),
    ensures forall|r: Seq<FrameSetPacket>| #[trigger] is_flush(m, r) ==> flush_is(m, id, r),
{
    assert forall|r: Seq<FrameSetPacket>| #[trigger] is_flush(m, r) implies flush_is(m, id, r) by {
        let ids = choose|ids: Seq<u16>| flushed(ids, m, r);
        assert forall|j: int| 0 <= j < ids.len() implies ids[j] == id by { assert(ids.contains(ids[j])); }
        if ids.len() > 1 { assert(ids[0] == ids[1]); }
        if m.contains_key(id) && m[id].is_full() { assert(ids.contains(id)); }
        if ids.len() == 1 { assert(ids.contains(ids[0])); }
    }
}
@@ fn RecvQ::new
    ensures r.wf(), super::history::rx_new(r),
@@@ start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
@@ fn RecvQ::insert
    requires old(self).wf(), frame24(frame),
    ensures final(self).wf(), insert_step(*old(self), *final(self), frame),
        r is Ok <==> rel_code(frame.flags) <= 4 || old(self).packets@.contains_key(frame.sequence_number),
@@@ start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
@@@ loops for
@@@ before `self.fragment_queue.insert`
    let ghost f = frame;
@@@ after `self.fragment_queue.insert`
    let ghost q1 = self.fragment_queue.fragments@;
    proof { flush_one(q1, f.compound_id); }
@@@ loop 0 bind it
@@@ loop 0 inv
    invariant old(self).wf(), frame24(f), f == frame, rel_code(f.flags) == 3,
        self.packets@ == old(self).packets@, self.sequenced_frame_index == old(self).sequenced_frame_index,
        self.last_ordered_index == old(self).last_ordered_index,
        self.sequence_number_ackset.wf(), ack_step(old(self).sequence_number_ackset, self.sequence_number_ackset, f.sequence_number),
        flush_is(q1, f.compound_id, it.seq()),
        frags_step(old(self).parts(), q1, f), self.fragment_queue.wf(),
        forall|k: u16| #[trigger] self.fragment_queue.fragments@.contains_key(k) <==> q1.contains_key(k) && !q1[k].is_full(),
        forall|k: u16| #[trigger] self.fragment_queue.fragments@.contains_key(k) ==> self.fragment_queue.fragments@[k] == q1[k],
        forall|k: u32| #[trigger] self.ordered_packets@.contains_key(k) ==> k < 0x1000000 && self.ordered_packets@[k].ordered_frame_index == k,
        it.index@ == 0 ==> self.ordered_packets@ == old(self).ordered_packets@,
        it.index@ > 0 ==> completes(*old(self), self.ordered_packets@, f),
@@@ loop 0 body-end
    proof {
        let p = it.seq()[it.index@];
        assert(it.index@ == 0);
        assert(q1.contains_key(f.compound_id) && q1[f.compound_id].is_full());
        assert(rebuilt(old(self).parts(), f, p));
        assert(self.ordered_packets@ =~= or_insert(old(self).ordered_packets@, parts_index(old(self).parts(), f), p));
    }
@@@ loop 0 after
    proof {
        let a = old(self).parts();
        let id = f.compound_id;
        if f.compound_size == 0 {
            assert(q1 == a);
            assert(self.parts() =~= a);
        } else if parts_with(a, f).len() == parts_size(a, f) {
            assert(q1[id].is_full());
            assert(!self.parts().contains_key(id));
            assert(completes(*old(self), self.ordered_packets@, f));
        } else {
            assert(!q1[id].is_full());
            assert(self.parts().contains_key(id));
        }
        assert forall|k: u16| #![trigger self.parts().contains_key(k)] #![trigger self.parts()[k]] k != id implies
            (self.parts().contains_key(k) <==> a.contains_key(k)) && (a.contains_key(k) ==> self.parts()[k] == a[k]) by {
            assert(q1.contains_key(k) <==> a.contains_key(k));
            if a.contains_key(k) { assert(q1[k] == a[k]); assert(!q1[k].is_full()); assert(self.parts().contains_key(k)); }
        }
        assert(fragment_step(*old(self), *self, f));
    }
@@ top
/// the n ordered messages numbered l, l+1, ...
pub open spec fn run(m: Map<u32, FrameSetPacket>, l: u32, n: nat) -> Seq<FrameSetPacket> { Seq::new(n, |j: int| m[(l + j) as u32]) }
/// the frames of m in ascending datagram number order
pub open spec fn in_order(m: Map<u32, FrameSetPacket>) -> Seq<FrameSetPacket> { asc(m.dom()).map_values(|k: u32| m[k]) }
pub open spec fn in_run(l: u32, h: u32, k: u32) -> bool { l <= k < h }
/// handing up: the ordered messages that are due, once each, in order, no gap; then everything unordered
pub open spec fn flush_step(a: RecvQ, b: RecvQ, r: Seq<FrameSetPacket>) -> bool {
    let l = a.last_ordered_index; let h = b.last_ordered_index;
    &&& l <= h
    &&& r == run(a.ordered_packets@, l, (h - l) as nat) + in_order(a.packets@)
    &&& forall|k: u32| #[trigger] in_run(l, h, k) ==> a.ordered_packets@.contains_key(k)
    &&& !a.ordered_packets@.contains_key(h)
    &&& forall|k: u32| #[trigger] b.ordered_packets@.contains_key(k) <==> a.ordered_packets@.contains_key(k) && !in_run(l, h, k)
    &&& forall|k: u32| #[trigger] b.ordered_packets@.contains_key(k) ==> b.ordered_packets@[k] == a.ordered_packets@[k]
    &&& b.packets@ == Map::<u32, FrameSetPacket>::empty()
    &&& b.sequenced_frame_index == a.sequenced_frame_index && b.fragment_queue == a.fragment_queue && b.sequence_number_ackset == a.sequence_number_ackset
}
@@ fn RecvQ::flush
    requires old(self).wf(),
    ensures final(self).wf(), flush_step(*old(self), *final(self), r@),
@@@ start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
@@@ loops for for
@@@ loop 0 bind it
@@@ loop 0 before
    let ghost ks = ordered_keys@;
@@@ loop 0 inv
    invariant old(self).wf(), self.wf(), it.seq() == ks, is_asc(ks, old(self).ordered_packets@.dom()),
        old(self).last_ordered_index <= self.last_ordered_index,
        ret@ == run(old(self).ordered_packets@, old(self).last_ordered_index, (self.last_ordered_index - old(self).last_ordered_index) as nat),
        forall|k: u32| #[trigger] in_run(old(self).last_ordered_index, self.last_ordered_index, k) ==> old(self).ordered_packets@.contains_key(k),
        forall|k: u32| #[trigger] self.ordered_packets@.contains_key(k) <==> old(self).ordered_packets@.contains_key(k) && !in_run(old(self).last_ordered_index, self.last_ordered_index, k),
        forall|k: u32| #[trigger] self.ordered_packets@.contains_key(k) ==> self.ordered_packets@[k] == old(self).ordered_packets@[k],
        forall|j: int| 0 <= j < it.index@ ==> #[trigger] ks[j] != self.last_ordered_index,
        self.packets == old(self).packets, self.sequenced_frame_index == old(self).sequenced_frame_index,
        self.fragment_queue == old(self).fragment_queue, self.sequence_number_ackset == old(self).sequence_number_ackset,
@@@ loop 0 body-start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost l0 = self.last_ordered_index;
    let ghost r0 = ret@;
    proof { assert(ks.to_set().contains(ks[it.index@])); assert(old(self).ordered_packets@.contains_key(i)); }
@@@ loop 0 body-end
    proof {
        if i == l0 {
            let l = old(self).last_ordered_index;
            assert(self.last_ordered_index == l0 + 1);
            assert(ret@ =~= run(old(self).ordered_packets@, l, (l0 + 1 - l) as nat));
            assert forall|k: u32| #[trigger] in_run(l, self.last_ordered_index, k) implies old(self).ordered_packets@.contains_key(k) by {
                assert(in_run(l, l0, k) || k == l0);
            }
            assert forall|k: u32| #[trigger] self.ordered_packets@.contains_key(k) <==> old(self).ordered_packets@.contains_key(k) && !in_run(l, self.last_ordered_index, k) by {
                assert(in_run(l, self.last_ordered_index, k) <==> in_run(l, l0, k) || k == l0);
            }
        }
    }
@@@ loop 0 after
    proof {
        let h = self.last_ordered_index;
        if old(self).ordered_packets@.contains_key(h) {
            assert(ks.to_set().contains(h));
            let j = choose|j: int| 0 <= j < ks.len() && ks[j] == h;
            assert(false);
        }
    }
    let ghost r1 = ret@;
@@@ loop 1 bind it
@@@ loop 1 before
    let ghost ps = packets_keys@;
    proof { asc_is(ps, self.packets@.dom()); }
@@@ loop 1 inv
    invariant it.seq() == ps, is_asc(ps, self.packets@.dom()),
        ret@ == r1 + ps.take(it.index@).map_values(|k: u32| self.packets@[k]),
@@@ loop 1 body-start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { assert(ps.to_set().contains(ps[it.index@])); }
@@@ loop 1 body-end
    proof { assert(ps.take(it.index@ + 1) =~= ps.take(it.index@).push(ps[it.index@]));
        assert(ret@ =~= r1 + ps.take(it.index@ + 1).map_values(|k: u32| self.packets@[k])); }
@@@ loop 1 after
    proof { take_all(ps); }
@@ fn RecvQ::get_ack
    requires old(self).wf(),
    ensures final(self).wf(), super::history::acks_out(*old(self), *final(self), r@),
@@@ start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
@@ fn RecvQ::get_nack
    requires old(self).wf(),
    ensures final(self).wf(), super::history::nacks_out(*old(self), *final(self), r@),
@@@ start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
@@ fn RecvQ::get_ordered_packet
    ensures r == self.ordered_packets@.len(),
@@@ start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
@@ fn RecvQ::get_fragment_queue_size
    ensures r == self.parts().len(),
@@@ start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
@@ fn RecvQ::get_ordered_keys
    ensures r@.no_duplicates(), r@.to_set() == self.ordered_packets@.dom(),
@@@ start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
@@ fn RecvQ::get_size
    ensures r == self.packets@.len(),
@@@ start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
