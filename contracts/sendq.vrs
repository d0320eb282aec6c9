@@ module arq
@@ top

// ---- send queue --------------------------------------------------------------------------------
/// a message waiting for its acknowledgement: frame (with the number it was last given), has that number been sent,
/// time of the last transmission or negative acknowledgement, times sent again, every number it was given
pub type Item = (FrameSetPacket, bool, i64, u32, Vec<u32>);
pub open spec fn renum(f: FrameSetPacket, n: u32) -> FrameSetPacket { FrameSetPacket { sequence_number: n, ..f } }
/// a frame that fits a datagram of an mtu-limited path
pub open spec fn frame_out(f: FrameSetPacket, mtu: u16) -> bool { frame_wf(f) && f.data@.len() + 60 <= mtu }
pub proof fn frame_out_fits(f: FrameSetPacket, mtu: u16)
    requires frame_out(f, mtu),
    ensures enc_frame(f).len() + 28 <= mtu,
{ enc_body_len(f); }
pub open spec fn reliable(f: FrameSetPacket) -> bool { code_rel(rel_code(f.flags)) }
pub open spec fn item_ok(x: Item, mtu: u16, next: u32) -> bool {
    &&& frame_out(x.0, mtu) && reliable(x.0) && x.2 >= 0
    &&& x.4@.len() > 0 && x.4@.last() == x.0.sequence_number && x.0.sequence_number < next && x.4@.len() <= x.0.sequence_number + 1
    &&& forall|i: int, j: int| 0 <= i < j < x.4@.len() ==> x.4@[i] < x.4@[j]
    &&& x.3 <= 2 * x.4@.len() - (if x.1 { 2int } else { 3int })
}
pub open spec fn apart(x: Item, y: Item) -> bool { forall|n: u32| !(x.4@.contains(n) && #[trigger] y.4@.contains(n)) }
pub open spec fn all_apart(s: Seq<Item>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> apart(#[trigger] s[i], #[trigger] s[j]) }
pub open spec fn items_ok(s: Seq<Item>, mtu: u16, next: u32) -> bool {
    all_apart(s) && forall|i: int| 0 <= i < s.len() ==> item_ok(#[trigger] s[i], mtu, next)
}
pub open spec fn count_true(s: Seq<Item>) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else { count_true(s.drop_last()) + (if s.last().1 { 1int } else { 0 }) } }
pub proof fn count_le(s: Seq<Item>)
    ensures 0 <= count_true(s) <= s.len(),
    decreases s.len(),
{ if s.len() > 0 { count_le(s.drop_last()); } }
pub proof fn count_drop(s: Seq<Item>, t: Seq<Item>, i: int)
    requires s.len() == t.len(), 0 <= i < s.len(), forall|j: int| 0 <= j < s.len() && j != i ==> s[j] == t[j], s[i].1, !t[i].1,
    ensures count_true(t) + 1 == count_true(s), count_true(t) >= 0,
    decreases s.len(),
{
    count_le(t);
    if i == s.len() - 1 { assert(s.drop_last() =~= t.drop_last()); }
    else { count_drop(s.drop_last(), t.drop_last(), i); }
}
pub proof fn count_remove(s: Seq<Item>, k: int)
    requires 0 <= k < s.len(),
    ensures count_true(s.remove(k)) <= count_true(s),
    decreases s.len(),
{
    let r = s.remove(k);
    if k == s.len() - 1 { assert(r =~= s.drop_last()); }
    else { assert(r.drop_last() =~= s.drop_last().remove(k)); assert(r.last() == s.last()); count_remove(s.drop_last(), k); }
}
impl SendQ {
    pub open spec fn wf(&self) -> bool {
        &&& 400 <= self.mtu <= 1500
        &&& 50 <= self.rto <= 12000
        &&& self.sequence_number <= 0x1000000 && self.ack_sequence_number < 0x1000000
        &&& self.reliable_frame_index <= 0x1000000 && self.sequenced_frame_index <= 0x1000000 && self.ordered_frame_index <= 0x1000000
        &&& forall|i: int| 0 <= i < self.packets@.len() ==> frame_out(#[trigger] self.packets@[i], self.mtu)
        &&& items_ok(self.sent_packet@, self.mtu, self.sequence_number)
    }
    /// there are datagram numbers left (24 bit) for everything queued
    pub open spec fn room(&self) -> bool { self.sequence_number + count_true(self.sent_packet@) + self.packets@.len() <= 0x1000000 }
    pub open spec fn keeps(&self, b: SendQ) -> bool {
        &&& b.mtu == self.mtu && b.ack_sequence_number == self.ack_sequence_number && b.packets == self.packets
        &&& b.reliable_frame_index == self.reliable_frame_index && b.sequenced_frame_index == self.sequenced_frame_index
        &&& b.ordered_frame_index == self.ordered_frame_index && b.compound_id == self.compound_id && b.rto == self.rto && b.srtt == self.srtt
    }
}
/// y is x under a fresh number that is not sent yet
pub open spec fn renumbered(x: Item, y: Item, next: u32) -> bool {
    &&& y.0 == renum(x.0, y.0.sequence_number) && y.0.sequence_number >= next
    &&& y.1 == false && y.4@ == x.4@.push(y.0.sequence_number)
}
pub open spec fn nacked(x: Item, y: Item, next: u32, tick: i64) -> bool { renumbered(x, y, next) && y.2 == tick && y.3 == x.3 + 1 }
pub open spec fn hit(x: Item, s: u32) -> bool { x.1 && x.0.sequence_number == s }
pub open spec fn nack_item(x: Item, y: Item, next: u32, s: u32, tick: i64) -> bool { if hit(x, s) { nacked(x, y, next, tick) } else { y == x } }
pub open spec fn nack_step(a: Seq<Item>, b: Seq<Item>, next: u32, s: u32, tick: i64) -> bool {
    b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> nack_item(a[i], #[trigger] b[i], next, s, tick)
}
/// timeout after n retransmissions
pub open spec fn backoff(rto: i64, n: int) -> i64
    decreases n,
{ if n <= 0 { rto } else { scaled(backoff(rto, n - 1), 15, 10) } }
pub open spec fn due(x: Item, rto: i64, tick: i64) -> bool { x.1 && tick - x.2 >= backoff(rto, x.3 as int) }
pub open spec fn timed(x: Item, y: Item, next: u32) -> bool { renumbered(x, y, next) && y.2 == x.2 && y.3 == x.3 }
pub open spec fn tick_item(x: Item, y: Item, next: u32, rto: i64, tick: i64) -> bool { if due(x, rto, tick) { timed(x, y, next) } else { y == x } }
pub open spec fn tick_step(a: Seq<Item>, b: Seq<Item>, next: u32, rto: i64, tick: i64) -> bool {
    b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> tick_item(a[i], #[trigger] b[i], next, rto, tick)
}
/// giving item i the fresh number n keeps the list in order
pub proof fn renumber_ok(a: Seq<Item>, b: Seq<Item>, i: int, mtu: u16, next: u32)
    requires items_ok(a, mtu, next), a.len() == b.len(), 0 <= i < a.len(), forall|j: int| 0 <= j < a.len() && j != i ==> a[j] == b[j],
        renumbered(a[i], b[i], next), b[i].0.sequence_number == next, next < 0x1000000, a[i].1, b[i].2 >= 0, a[i].3 <= b[i].3 <= a[i].3 + 1,
    ensures items_ok(b, mtu, (next + 1) as u32), count_true(b) + 1 == count_true(a), count_true(b) >= 0,
{
    count_drop(a, b, i);
    let x = a[i]; let y = b[i];
    push_contains(x.4@, next);
    assert forall|k: int| 0 <= k < b.len() implies item_ok(#[trigger] b[k], mtu, (next + 1) as u32) by { assert(item_ok(a[k], mtu, next)); }
    assert forall|j: int| 0 <= j < b.len() && j != i implies apart(#[trigger] b[j], y) && apart(y, b[j]) by {
        assert(apart(a[j], a[i]) && apart(a[i], a[j]));
        assert(item_ok(a[j], mtu, next));
        assert(!a[j].4@.contains(next)) by { numbers_below(a[j], mtu, next); }
    }
    assert forall|j: int, k: int| 0 <= j < b.len() && 0 <= k < b.len() && j != k implies apart(#[trigger] b[j], #[trigger] b[k]) by {
        if j != i && k != i { assert(apart(a[j], a[k])); }
    }
}
pub proof fn numbers_below(x: Item, mtu: u16, next: u32)
    requires item_ok(x, mtu, next),
    ensures forall|n: u32| #[trigger] x.4@.contains(n) ==> n <= x.0.sequence_number < next, x.4@.contains(x.0.sequence_number),
{
    assert(x.4@[x.4@.len() - 1] == x.0.sequence_number);
    assert forall|n: u32| #[trigger] x.4@.contains(n) implies n <= x.0.sequence_number by {
        let k = choose|k: int| 0 <= k < x.4@.len() && x.4@[k] == n;
        if k < x.4@.len() - 1 { assert(x.4@[k] < x.4@[x.4@.len() - 1]); }
    }
}
/// two different items never carry the same current number
pub proof fn current_apart(s: Seq<Item>, i: int, j: int, mtu: u16, next: u32)
    requires items_ok(s, mtu, next), 0 <= i < s.len(), 0 <= j < s.len(), i != j,
    ensures s[i].0.sequence_number != s[j].0.sequence_number,
{ numbers_below(s[i], mtu, next); numbers_below(s[j], mtu, next); assert(apart(s[i], s[j])); }

@@ fn SendQ::new
    ensures r.wf(), super::history::tx_new(r), r.mtu == (if mtu < 400 { 400 } else if mtu > 1500 { 1500 } else { mtu }), r.packets@.len() == 0, r.sent_packet@.len() == 0,
        r.sequence_number == 0, r.reliable_frame_index == 0, r.sequenced_frame_index == 0, r.ordered_frame_index == 0, r.rto == 50,
@@ fn SendQ::update_rto
    ensures 50 <= final(self).rto <= 12000,
        final(self).mtu == old(self).mtu, final(self).ack_sequence_number == old(self).ack_sequence_number, final(self).sequence_number == old(self).sequence_number,
        final(self).reliable_frame_index == old(self).reliable_frame_index, final(self).sequenced_frame_index == old(self).sequenced_frame_index,
        final(self).ordered_frame_index == old(self).ordered_frame_index, final(self).compound_id == old(self).compound_id,
        final(self).packets == old(self).packets, final(self).sent_packet == old(self).sent_packet,
@@ fn SendQ::get_rto
    requires self.wf(),
    ensures r == self.rto, 50 <= r <= 12000,
@@ fn SendQ::nack
    requires old(self).wf(), 0 <= tick, old(self).sequence_number + count_true(old(self).sent_packet@) <= 0x1000000,
    ensures final(self).wf(), old(self).keeps(*final(self)), old(self).sequence_number <= final(self).sequence_number,
        super::history::tx_step(*old(self), super::history::Tx::Nack(sequence, tick), *final(self)),
        nack_step(old(self).sent_packet@, final(self).sent_packet@, old(self).sequence_number, sequence, tick),
        final(self).sequence_number + count_true(final(self).sent_packet@) == old(self).sequence_number + count_true(old(self).sent_packet@),
@@@ start
    let ghost mut h: int = -1;
@@@ loops for
@@@ loop 0 inv
    invariant old(self).wf(), self.wf(), old(self).keeps(*self), 0 <= tick, -1 <= h < i,
        self.sent_packet@.len() == old(self).sent_packet@.len(),
        old(self).sequence_number + count_true(old(self).sent_packet@) <= 0x1000000,
        self.sequence_number + count_true(self.sent_packet@) == old(self).sequence_number + count_true(old(self).sent_packet@),
        self.sequence_number == old(self).sequence_number + (if h >= 0 { 1int } else { 0 }),
        h >= 0 ==> hit(old(self).sent_packet@[h], sequence),
        forall|j: int| i <= j < self.sent_packet@.len() ==> self.sent_packet@[j] == #[trigger] old(self).sent_packet@[j],
        forall|j: int| 0 <= j < i ==> nack_item(old(self).sent_packet@[j], #[trigger] self.sent_packet@[j], old(self).sequence_number, sequence, tick),
        forall|j: int| 0 <= j < i && j != h ==> !hit(#[trigger] old(self).sent_packet@[j], sequence),
@@@ loop 0 body-start
    let ghost s0 = self.sent_packet@;
    let ghost n0 = self.sequence_number;
    proof {
        count_le(s0);
        assert(s0[i as int] == old(self).sent_packet@[i as int]);
        assert(item_ok(s0[i as int], self.mtu, n0));
        if hit(s0[i as int], sequence) {
            if h >= 0 { current_apart(old(self).sent_packet@, h, i as int, self.mtu, old(self).sequence_number); }
            if n0 + count_true(s0) == 0x1000000 {
                if count_true(s0) == 0 { count_pos(s0, i as int); }
            }
            count_pos(s0, i as int);
        }
    }
@@@ loop 0 body-end
    proof {
        if hit(s0[i as int], sequence) {
            h = i as int;
            assert(nack_item(old(self).sent_packet@[i as int], self.sent_packet@[i as int], old(self).sequence_number, sequence, tick));
            assert forall|j: int| 0 <= j < i implies self.sent_packet@[j] == s0[j] by {}
            renumber_ok(s0, self.sent_packet@, i as int, self.mtu, n0);
        } else {
            assert(self.sent_packet@ =~= s0);
        }
    }
@@ top
pub proof fn count_pos(s: Seq<Item>, i: int)
    requires 0 <= i < s.len(), s[i].1,
    ensures count_true(s) >= 1,
    decreases s.len(),
{ count_le(s.drop_last()); if i < s.len() - 1 { count_pos(s.drop_last(), i); } }
@@ fn SendQ::tick
    requires old(self).wf(), 0 <= tick, old(self).sequence_number + count_true(old(self).sent_packet@) <= 0x1000000,
    ensures final(self).wf(), old(self).keeps(*final(self)), old(self).sequence_number <= final(self).sequence_number,
        super::history::tx_step(*old(self), super::history::Tx::Tick(tick), *final(self)),
        tick_step(old(self).sent_packet@, final(self).sent_packet@, old(self).sequence_number, old(self).rto, tick),
        final(self).sequence_number + count_true(final(self).sent_packet@) == old(self).sequence_number + count_true(old(self).sent_packet@),
@@@ loops for for
@@@ loop 0 inv
    invariant old(self).wf(), self.wf(), old(self).keeps(*self), 0 <= tick, old(self).sequence_number <= self.sequence_number,
        self.sent_packet@.len() == old(self).sent_packet@.len(),
        old(self).sequence_number + count_true(old(self).sent_packet@) <= 0x1000000,
        self.sequence_number + count_true(self.sent_packet@) == old(self).sequence_number + count_true(old(self).sent_packet@),
        forall|j: int| i <= j < self.sent_packet@.len() ==> self.sent_packet@[j] == #[trigger] old(self).sent_packet@[j],
        forall|j: int| 0 <= j < i ==> tick_item(old(self).sent_packet@[j], #[trigger] self.sent_packet@[j], old(self).sequence_number, old(self).rto, tick),
@@@ loop 0 body-start
    let ghost s0 = self.sent_packet@;
    let ghost n0 = self.sequence_number;
    proof {
        count_le(s0);
        assert(s0[i as int] == old(self).sent_packet@[i as int]);
        assert(item_ok(s0[i as int], self.mtu, n0));
        if s0[i as int].1 { count_pos(s0, i as int); }
    }
@@@ loop 1 bind it
@@@ loop 1 inv
    invariant cur_rto == backoff(old(self).rto, it.index@ as int), *p == s0[i as int],
@@@ loop 0 body-end
    proof {
        if due(s0[i as int], old(self).rto, tick) {
            assert(tick_item(old(self).sent_packet@[i as int], self.sent_packet@[i as int], old(self).sequence_number, old(self).rto, tick));
            assert forall|j: int| 0 <= j < i implies self.sent_packet@[j] == s0[j] by {}
            renumber_ok(s0, self.sent_packet@, i as int, self.mtu, n0);
        } else {
            assert(self.sent_packet@ =~= s0);
        }
    }
@@ top
/// the messages of a given again: those due and those already waiting under a fresh number
pub open spec fn goes(x: Item, rto: i64, tick: i64) -> bool { due(x, rto, tick) || !x.1 }
/// y is x after being handed out for sending at tick (or untouched)
pub open spec fn resent(x: Item, y: Item, next: u32, rto: i64, tick: i64) -> bool {
    if goes(x, rto, tick) {
        &&& y.1 && y.2 == tick && y.3 == x.3 + 1 && y.0 == renum(x.0, y.0.sequence_number)
        &&& if due(x, rto, tick) { y.0.sequence_number >= next && y.4@ == x.4@.push(y.0.sequence_number) } else { y.0 == x.0 && y.4@ == x.4@ }
    } else { y == x }
}
pub open spec fn ascending(r: Seq<FrameSetPacket>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).sequence_number < (#[trigger] r[j]).sequence_number }
/// handing out retransmissions; p says where each waiting message was before
pub open spec fn resend_by(a: SendQ, b: SendQ, r: Seq<FrameSetPacket>, tick: i64, p: Seq<int>) -> bool {
    let s = a.sent_packet@; let t = b.sent_packet@;
    &&& is_perm(p, s.len()) && t.len() == s.len()
    &&& forall|i: int| 0 <= i < t.len() ==> resent(s[p[i]], #[trigger] t[i], a.sequence_number, a.rto, tick)
    &&& ascending(r)
    &&& forall|k: int| 0 <= k < r.len() ==> is_one_of(s, t, p, a.rto, tick, #[trigger] r[k])
    &&& forall|i: int| 0 <= i < t.len() && goes(s[p[i]], a.rto, tick) ==> r.contains((#[trigger] t[i]).0)
}
pub open spec fn is_one_of(s: Seq<Item>, t: Seq<Item>, p: Seq<int>, rto: i64, tick: i64, f: FrameSetPacket) -> bool {
    exists|i: int| 0 <= i < t.len() && goes(s[p[i]], rto, tick) && f == (#[trigger] t[i]).0
}
pub open spec fn resend_step(a: SendQ, b: SendQ, r: Seq<FrameSetPacket>, tick: i64) -> bool {
    b.packets == a.packets && exists|p: Seq<int>| resend_by(a, b, r, tick, p)
}
/// sending what is queued for the first time
pub open spec fn send_step(a: SendQ, b: SendQ, r: Seq<FrameSetPacket>, tick: i64) -> bool {
    let rel = r.filter(|f: FrameSetPacket| reliable(f));
    &&& b.packets@.len() == 0 && b.sequence_number == a.sequence_number + r.len()
    &&& r.len() == a.packets@.len()
    &&& forall|k: int| 0 <= k < r.len() ==> #[trigger] r[k] == renum(a.packets@[k], (a.sequence_number + k) as u32)
    &&& b.sent_packet@.len() == rel.len()
    &&& forall|j: int| 0 <= j < rel.len() ==> fresh_item(#[trigger] b.sent_packet@[j], rel[j], tick)
}
pub open spec fn fresh_item(x: Item, f: FrameSetPacket, tick: i64) -> bool {
    x.0 == f && x.1 && x.2 == tick && x.3 == 0 && x.4@ == seq![f.sequence_number]
}
pub open spec fn flush_out(a: SendQ, b: SendQ, r: Seq<FrameSetPacket>, tick: i64) -> bool {
    if a.sent_packet@.len() > 0 { resend_step(a, b, r, tick) } else { send_step(a, b, r, tick) }
}
pub proof fn perm_ok(a: Seq<Item>, b: Seq<Item>, p: Seq<int>, mtu: u16, next: u32)
    requires items_ok(a, mtu, next), is_perm(p, a.len()), b.len() == a.len(), forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[p[i]],
    ensures items_ok(b, mtu, next),
{
    assert forall|i: int| 0 <= i < b.len() implies item_ok(#[trigger] b[i], mtu, next) by { assert(item_ok(a[p[i]], mtu, next)); }
    assert forall|j: int, k: int| 0 <= j < b.len() && 0 <= k < b.len() && j != k implies apart(#[trigger] b[j], #[trigger] b[k]) by {
        assert(p[j] != p[k]) by { if j < k { assert(p[j] != p[k]); } else { assert(p[k] != p[j]); } }
        assert(apart(a[p[j]], a[p[k]]));
    }
}
/// marking item i as sent keeps the list in order
pub proof fn mark_ok(a: Seq<Item>, b: Seq<Item>, i: int, mtu: u16, next: u32)
    requires items_ok(a, mtu, next), a.len() == b.len(), 0 <= i < a.len(), forall|j: int| 0 <= j < a.len() && j != i ==> a[j] == b[j],
        b[i].0 == a[i].0, b[i].4@ == a[i].4@, b[i].1, !a[i].1, b[i].2 >= 0, b[i].3 == a[i].3 + 1,
    ensures items_ok(b, mtu, next),
{
    assert forall|k: int| 0 <= k < b.len() implies item_ok(#[trigger] b[k], mtu, next) by { assert(item_ok(a[k], mtu, next)); }
    assert forall|j: int, k: int| 0 <= j < b.len() && 0 <= k < b.len() && j != k implies apart(#[trigger] b[j], #[trigger] b[k]) by { assert(apart(a[j], a[k])); }
}
/// a message sent for the first time
pub proof fn add_ok(a: Seq<Item>, x: Item, mtu: u16, next: u32)
    requires items_ok(a, mtu, next), next < 0x1000000, frame_out(x.0, mtu), reliable(x.0), x.0.sequence_number == next, x.1, x.2 >= 0, x.3 == 0, x.4@ == seq![next],
    ensures items_ok(a.push(x), mtu, (next + 1) as u32),
{
    let b = a.push(x);
    assert forall|k: int| 0 <= k < b.len() implies item_ok(#[trigger] b[k], mtu, (next + 1) as u32) by { if k < a.len() { assert(item_ok(a[k], mtu, next)); } }
    assert forall|j: int, k: int| 0 <= j < b.len() && 0 <= k < b.len() && j != k implies apart(#[trigger] b[j], #[trigger] b[k]) by {
        if j < a.len() { numbers_below(a[j], mtu, next); assert(item_ok(a[j], mtu, next)); }
        if k < a.len() { numbers_below(a[k], mtu, next); assert(item_ok(a[k], mtu, next)); }
        if j < a.len() && k < a.len() { assert(apart(a[j], a[k])); }
        assert(forall|n: u32| x.4@.contains(n) ==> n == next);
    }
}
pub proof fn next_up(a: Seq<Item>, mtu: u16, n: u32, m: u32)
    requires items_ok(a, mtu, n), n <= m,
    ensures items_ok(a, mtu, m),
{ assert forall|i: int| 0 <= i < a.len() implies item_ok(#[trigger] a[i], mtu, m) by { assert(item_ok(a[i], mtu, n)); } }
@@ fn SendQ::flush
    requires old(self).wf(), old(self).room(), 0 <= tick,
    ensures final(self).wf(), super::history::tx_step(*old(self), super::history::Tx::Out(r@, tick), *final(self)), flush_out(*old(self), *final(self), r@, tick),
        final(self).mtu == old(self).mtu, final(self).rto == old(self).rto, final(self).srtt == old(self).srtt, final(self).ack_sequence_number == old(self).ack_sequence_number,
        final(self).reliable_frame_index == old(self).reliable_frame_index, final(self).sequenced_frame_index == old(self).sequenced_frame_index,
        final(self).ordered_frame_index == old(self).ordered_frame_index, final(self).compound_id == old(self).compound_id,
        final(self).sequence_number >= old(self).sequence_number,
@@@ start
    proof { count_le(old(self).sent_packet@); }
@@@ loops for for
@@@ before `let mut ret`
    let ghost mid = *self;
    let ghost mut pm: Seq<int> = Seq::empty();
    let ghost mut ix: Seq<int> = Seq::empty();
@@@ loop 0 before
    let ghost srt = self.sent_packet@;
    proof {
        pm = choose|p: Seq<int>| sorted_by(mid.sent_packet@, srt, vx_key, p);
        perm_ok(mid.sent_packet@, srt, pm, self.mtu, self.sequence_number);
        assert forall|i: int, j: int| 0 <= i < j < srt.len() implies (#[trigger] srt[i]).0.sequence_number < (#[trigger] srt[j]).0.sequence_number by {
            current_apart(srt, i, j, self.mtu, self.sequence_number);
            assert(vx_key(srt[i]) <= vx_key(srt[j]));
        }
    }
@@@ loop 0 bind it
@@@ loop 0 inv
    invariant it.seq().len() == srt.len(), self.wf(), 0 <= tick, mid.keeps(*self), self.sequence_number == mid.sequence_number,
        self.sent_packet@.len() == srt.len(),
        forall|i: int, j: int| 0 <= i < j < srt.len() ==> (#[trigger] srt[i]).0.sequence_number < (#[trigger] srt[j]).0.sequence_number,
        forall|j: int| i <= j < srt.len() ==> self.sent_packet@[j] == #[trigger] srt[j],
        forall|j: int| 0 <= j < i ==> marked(srt[j], #[trigger] self.sent_packet@[j], tick),
        ix.len() == ret@.len(),
        forall|k: int| 0 <= k < ix.len() ==> 0 <= #[trigger] ix[k] < i && !srt[ix[k]].1 && ret@[k] == srt[ix[k]].0,
        forall|k: int, l: int| 0 <= k < l < ix.len() ==> ix[k] < ix[l],
        forall|j: int| 0 <= j < i && !(#[trigger] srt[j]).1 ==> ix.contains(j),
@@@ loop 0 body-start
    let ghost s0 = self.sent_packet@;
    let ghost ix0 = ix;
    proof {
        assert(s0[i as int] == srt[i as int]);
        assert(item_ok(s0[i as int], self.mtu, self.sequence_number));
    }
@@@ loop 0 body-end
    proof {
        if !srt[i as int].1 {
            mark_ok(s0, self.sent_packet@, i as int, self.mtu, self.sequence_number);
            ix = ix.push(i as int);
            push_contains(ix0, i as int);
            assert forall|j: int| 0 <= j < i implies self.sent_packet@[j] == s0[j] by {}
        } else {
            assert(self.sent_packet@ =~= s0);
        }
    }
@@@ before `return ret`
    proof {
        let a = old(self).sent_packet@;
        let t = self.sent_packet@;
        assert forall|i: int| 0 <= i < t.len() implies resent(a[pm[i]], #[trigger] t[i], old(self).sequence_number, old(self).rto, tick)
            && (goes(a[pm[i]], old(self).rto, tick) <==> !srt[i].1) && t[i].0 == srt[i].0 by {
            assert(tick_item(a[pm[i]], mid.sent_packet@[pm[i]], old(self).sequence_number, old(self).rto, tick));
            assert(srt[i] == mid.sent_packet@[pm[i]]);
            assert(marked(srt[i], t[i], tick));
        }
        assert forall|k: int| 0 <= k < ret@.len() implies is_one_of(a, t, pm, old(self).rto, tick, #[trigger] ret@[k]) by {
            assert(t[ix[k]].0 == srt[ix[k]].0);
        }
        assert forall|i: int| 0 <= i < t.len() && goes(a[pm[i]], old(self).rto, tick) implies ret@.contains((#[trigger] t[i]).0) by {
            assert(t[i].0 == srt[i].0);
            assert(!srt[i].1);
            assert(ix.contains(i));
            let k = choose|k: int| 0 <= k < ix.len() && ix[k] == i;
            assert(ret@[k] == t[i].0);
        }
        assert forall|k: int, l: int| 0 <= k < l < ret@.len() implies (#[trigger] ret@[k]).sequence_number < (#[trigger] ret@[l]).sequence_number by {
            assert(ix[k] < ix[l]);
            assert(srt[ix[k]].0.sequence_number < srt[ix[l]].0.sequence_number);
        }
        assert(resend_by(*old(self), *self, ret@, tick, pm));
    }
@@@ loop 1 before
    let ghost pk = self.packets@;
    let ghost n0 = self.sequence_number;
@@@ loop 1 bind it
@@@ loop 1 inv
    invariant it.seq().len() == pk.len(), self.wf(), mid.wf(), 0 <= tick, pk == mid.packets@, n0 == mid.sequence_number, n0 + pk.len() <= 0x1000000, mid.sent_packet@.len() == 0,
        self.mtu == mid.mtu, self.rto == mid.rto, self.srtt == mid.srtt, self.ack_sequence_number == mid.ack_sequence_number,
        self.reliable_frame_index == mid.reliable_frame_index, self.sequenced_frame_index == mid.sequenced_frame_index,
        self.ordered_frame_index == mid.ordered_frame_index, self.compound_id == mid.compound_id,
        self.sequence_number == n0 + i, self.packets@.len() == pk.len(), ret@.len() == i,
        forall|k: int| i <= k < pk.len() ==> self.packets@[k] == #[trigger] pk[k],
        forall|k: int| 0 <= k < i ==> #[trigger] ret@[k] == renum(pk[k], (n0 + k) as u32),
        self.sent_packet@.len() == ret@.filter(|f: FrameSetPacket| reliable(f)).len(),
        forall|j: int| 0 <= j < self.sent_packet@.len() ==> fresh_item(#[trigger] self.sent_packet@[j], ret@.filter(|f: FrameSetPacket| reliable(f))[j], tick),
@@@ loop 1 body-start
    let ghost r0 = ret@;
    let ghost st0 = self.sent_packet@;
    proof { assert(frame_out(pk[i as int], self.mtu)) by { assert(mid.packets@[i as int] == pk[i as int]); }
        next_up(st0, self.mtu, self.sequence_number, (self.sequence_number + 1) as u32); }
@@@ loop 1 body-end
    proof {
        let fl = |f: FrameSetPacket| reliable(f);
        let f = renum(pk[i as int], (n0 + i) as u32);
        assert(ret@ == r0.push(f));
        reveal(Seq::filter);
        assert(ret@.drop_last() =~= r0);
        assert(ret@.filter(fl) == (if fl(f) { r0.filter(fl).push(f) } else { r0.filter(fl) }));
        if reliable(f) {
            assert(self.sent_packet@.last().4@ =~= seq![f.sequence_number]);
            add_ok(st0, self.sent_packet@.last(), self.mtu, (n0 + i) as u32);
            assert(self.sent_packet@ =~= st0.push(self.sent_packet@.last()));
        }
    }
@@ top
/// handed out (if it was waiting) or untouched
pub open spec fn marked(x: Item, y: Item, tick: i64) -> bool {
    if x.1 { y == x } else { y.0 == x.0 && y.1 && y.2 == tick && y.3 == x.3 + 1 && y.4@ == x.4@ }
}
@@ top
pub open spec fn holds(x: Item, s: u32) -> bool { x.4@.contains(s) }
/// reported missing because the peer acknowledged s after last
pub open spec fn skipped(x: Item, last: u32, s: u32) -> bool { x.1 && last < x.0.sequence_number < s }
pub open spec fn ack_item(x: Item, y: Item, next: u32, last: u32, s: u32, tick: i64) -> bool { if skipped(x, last, s) { nacked(x, y, next, tick) } else { y == x } }
pub open spec fn gaps(a: Seq<Item>, b: Seq<Item>, next: u32, last: u32, s: u32, tick: i64) -> bool {
    b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> ack_item(a[i], #[trigger] b[i], next, last, s, tick)
}
/// m without the one message that was given number s, if there is one
pub open spec fn released(m: Seq<Item>, b: Seq<Item>, s: u32) -> bool {
    ||| b == m && forall|i: int| 0 <= i < m.len() ==> !holds(#[trigger] m[i], s)
    ||| exists|k: int| 0 <= k < m.len() && holds(#[trigger] m[k], s) && b == m.remove(k) && forall|i: int| 0 <= i < m.len() && i != k ==> !holds(#[trigger] m[i], s)
}
pub open spec fn ack_by(a: SendQ, b: SendQ, s: u32, tick: i64, m: Seq<Item>) -> bool {
    gaps(a.sent_packet@, m, a.sequence_number, a.ack_sequence_number, s, tick) && released(m, b.sent_packet@, s)
}
pub open spec fn acked_step(a: SendQ, b: SendQ, s: u32, tick: i64) -> bool {
    if s >= a.sequence_number { b == a } else {
        &&& b.ack_sequence_number == s && b.packets == a.packets && b.mtu == a.mtu && b.compound_id == a.compound_id
        &&& b.reliable_frame_index == a.reliable_frame_index && b.sequenced_frame_index == a.sequenced_frame_index && b.ordered_frame_index == a.ordered_frame_index
        &&& a.sequence_number <= b.sequence_number
        &&& exists|m: Seq<Item>| ack_by(a, b, s, tick, m)
    }
}
pub proof fn holds_iff(s: Seq<Item>, k: int, mtu: u16, next: u32, n: u32)
    requires items_ok(s, mtu, next), 0 <= k < s.len(), holds(s[k], n),
    ensures forall|i: int| 0 <= i < s.len() && i != k ==> !holds(#[trigger] s[i], n), items_ok(s.remove(k), mtu, next),
{
    assert forall|i: int| 0 <= i < s.len() && i != k implies !holds(#[trigger] s[i], n) by { assert(apart(s[k], s[i])); }
    let b = s.remove(k);
    assert forall|j: int| 0 <= j < b.len() implies item_ok(#[trigger] b[j], mtu, next) by { assert(item_ok(s[if j < k { j } else { j + 1 }], mtu, next)); }
    assert forall|j: int, l: int| 0 <= j < b.len() && 0 <= l < b.len() && j != l implies apart(#[trigger] b[j], #[trigger] b[l]) by {
        assert(apart(s[if j < k { j } else { j + 1 }], s[if l < k { l } else { l + 1 }]));
    }
}
@@ fn SendQ::ack
    requires old(self).wf(), old(self).room(), 0 <= tick,
    ensures final(self).wf(), super::history::tx_step(*old(self), super::history::Tx::Ack(sequence, tick), *final(self)), acked_step(*old(self), *final(self), sequence, tick),
        old(self).room() ==> final(self).room(),
@@@ start
    proof { count_le(old(self).sent_packet@); }
@@@ loops for for for
@@@ loop 0 bind it
@@@ loop 0 inv
    invariant old(self).wf(), self.wf(), old(self).keeps(*self), 0 <= tick, old(self).sequence_number <= self.sequence_number,
        sequence < old(self).sequence_number, old(self).ack_sequence_number < 0x1000000,
        old(self).sequence_number + count_true(old(self).sent_packet@) <= 0x1000000,
        self.sequence_number + count_true(self.sent_packet@) == old(self).sequence_number + count_true(old(self).sent_packet@),
        it.seq().len() == (if sequence > old(self).ack_sequence_number + 1 { sequence - old(self).ack_sequence_number - 1 } else { 0 }),
        forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == old(self).ack_sequence_number + 1 + k,
        gaps(old(self).sent_packet@, self.sent_packet@, old(self).sequence_number, old(self).ack_sequence_number, (old(self).ack_sequence_number + 1 + it.index@) as u32, tick),
@@@ loop 0 body-start
    proof { assert(i == it.seq()[it.index@]); }
    let ghost s0 = self.sent_packet@;
    let ghost n0 = self.sequence_number;
@@@ loop 0 body-end
    proof {
        let a = old(self).sent_packet@;
        assert forall|j: int| 0 <= j < a.len() implies ack_item(a[j], #[trigger] self.sent_packet@[j], old(self).sequence_number, old(self).ack_sequence_number, (i + 1) as u32, tick) by {
            assert(ack_item(a[j], s0[j], old(self).sequence_number, old(self).ack_sequence_number, i, tick));
            assert(nack_item(s0[j], self.sent_packet@[j], n0, i, tick));
        }
    }
@@@ before `self.ack_sequence_number = sequence`
    proof {
        let a = old(self).sent_packet@;
        assert forall|j: int| 0 <= j < a.len() implies ack_item(a[j], #[trigger] self.sent_packet@[j], old(self).sequence_number, old(self).ack_sequence_number, sequence, tick) by {}
        count_le(self.sent_packet@);
    }
    let ghost mid = *self;
@@@ loop 1 bind it
@@@ loop 1 inv
    invariant_except_break self.sent_packet@ == mid.sent_packet@, it.seq().len() == mid.sent_packet@.len(),
        forall|j: int| 0 <= j < i ==> !holds(#[trigger] mid.sent_packet@[j], sequence),
    invariant self.wf(), mid.wf(), 0 <= tick, self.ack_sequence_number == sequence,
        self.packets == mid.packets, self.mtu == mid.mtu, self.compound_id == mid.compound_id, self.reliable_frame_index == mid.reliable_frame_index,
        self.sequenced_frame_index == mid.sequenced_frame_index, self.ordered_frame_index == mid.ordered_frame_index, self.sequence_number == mid.sequence_number,
        count_true(self.sent_packet@) <= count_true(mid.sent_packet@),
    ensures released(mid.sent_packet@, self.sent_packet@, sequence),
@@@ loop 1 body-start
    proof {
        assert(item_ok(mid.sent_packet@[i as int], self.mtu, self.sequence_number));
        numbers_below(mid.sent_packet@[i as int], self.mtu, self.sequence_number);
        if holds(mid.sent_packet@[i as int], sequence) { holds_iff(mid.sent_packet@, i as int, self.mtu, self.sequence_number, sequence); }
    }
@@@ loop 1 body-end
    proof { assert(self.sent_packet@ =~= mid.sent_packet@); }
@@@ before `self.sent_packet.remove`
    proof { assert(self.sent_packet@ =~= mid.sent_packet@); }
@@@ before `break`
    proof { assert(self.sent_packet@ == mid.sent_packet@.remove(i as int)); count_remove(mid.sent_packet@, i as int); }
@@@ loop 2 before
    let ghost mid2 = *self;
    proof { assert(ack_by(*old(self), *self, sequence, tick, mid.sent_packet@)); }
@@@ loop 2 inv
    invariant self.wf(), self.packets == mid2.packets, self.mtu == mid2.mtu, self.compound_id == mid2.compound_id, self.reliable_frame_index == mid2.reliable_frame_index,
        self.sequenced_frame_index == mid2.sequenced_frame_index, self.ordered_frame_index == mid2.ordered_frame_index, self.sequence_number == mid2.sequence_number,
        self.sent_packet == mid2.sent_packet, self.ack_sequence_number == mid2.ack_sequence_number,
@@@ loop 2 after
    proof { assert(ack_by(*old(self), *self, sequence, tick, mid.sent_packet@)); }
@@ top
/// payloads of consecutive frames
pub open spec fn cat_data(fs: Seq<FrameSetPacket>) -> Seq<u8>
    decreases fs.len(),
{ if fs.len() == 0 { Seq::empty() } else { cat_data(fs.drop_last()) + fs.last().data@ } }
/// the header of the i-th frame of a message sent with kind rel by queue a
pub open spec fn numbered(f: FrameSetPacket, a: SendQ, rel: Reliability, i: int) -> bool {
    let c = rel_num(rel);
    &&& rel_code(f.flags) == c && f.id == 0 && f.sequence_number == 0 && f.order_channel == 0
    &&& f.reliable_frame_index == (if code_rel(c) { a.reliable_frame_index + i } else { 0 })
    &&& f.sequenced_frame_index == (if code_seq(c) { a.sequenced_frame_index as int } else { 0 })
    &&& f.ordered_frame_index == (if code_ord(c) { a.ordered_frame_index as int } else { 0 })
}
pub open spec fn whole(f: FrameSetPacket, a: SendQ, rel: Reliability, buf: Seq<u8>) -> bool {
    numbered(f, a, rel, 0) && !frag_bit(f.flags) && f.data@ == buf && f.compound_size == 0 && f.compound_id == 0 && f.fragment_index == 0
}
pub open spec fn piece(f: FrameSetPacket, a: SendQ, rel: Reliability, i: int, n: int) -> bool {
    &&& numbered(f, a, rel, i) && frag_bit(f.flags) && f.compound_size == n && f.compound_id == a.compound_id && f.fragment_index == i
    &&& 0 < f.data@.len() <= a.mtu - 60
}
pub open spec fn pieces(fs: Seq<FrameSetPacket>, a: SendQ, rel: Reliability, buf: Seq<u8>) -> bool {
    fs.len() > 0 && cat_data(fs) == buf && forall|i: int| 0 <= i < fs.len() ==> piece(#[trigger] fs[i], a, rel, i, fs.len() as int)
}
pub open spec fn too_big(a: SendQ, rel: Reliability, buf: Seq<u8>) -> bool { rel_num(rel) != 3 && buf.len() > a.mtu - 60 }
pub open spec fn queue_step(a: SendQ, b: SendQ, rel: Reliability, buf: Seq<u8>) -> bool {
    let c = rel_num(rel);
    let n = (b.packets@.len() - a.packets@.len()) as nat;
    let fs = b.packets@.skip(a.packets@.len() as int);
    &&& b.packets@.len() > a.packets@.len() && b.packets@.take(a.packets@.len() as int) == a.packets@
    &&& (n == 1 && whole(fs[0], a, rel, buf) && b.compound_id == a.compound_id)
        || (c == 3 && buf.len() >= a.mtu - 60 && pieces(fs, a, rel, buf) && b.compound_id == (if a.compound_id == 0xffff { 0int } else { a.compound_id + 1 }))
    &&& b.reliable_frame_index == a.reliable_frame_index + (if code_rel(c) { n as int } else { 0 })
    &&& b.sequenced_frame_index == a.sequenced_frame_index + (if code_seq(c) { 1int } else { 0 })
    &&& b.ordered_frame_index == a.ordered_frame_index + (if c == 3 { 1int } else { 0 })
    &&& b.sent_packet == a.sent_packet && b.mtu == a.mtu && b.sequence_number == a.sequence_number && b.ack_sequence_number == a.ack_sequence_number && b.rto == a.rto && b.srtt == a.srtt
}
pub proof fn kind_flags(r: Reliability, x: u8)
    requires x == rel_num(r) << 5,
    ensures rel_code(x) == rel_num(r), !frag_bit(x), rel_code(x | 16) == rel_num(r), frag_bit(x | 16),
{
    let c = rel_num(r);
    assert(c <= 4 ==> (((c << 5) & 224) >> 5) == c && ((c << 5) & 16) == 0 && ((((c << 5) | 16) & 224) >> 5) == c && (((c << 5) | 16) & 16) != 0) by (bit_vector);
}
pub proof fn cat_data_push(fs: Seq<FrameSetPacket>, f: FrameSetPacket)
    ensures cat_data(fs.push(f)) == cat_data(fs) + f.data@,
{ assert(fs.push(f).drop_last() =~= fs); }
/// fragment boundaries: n pieces of at most max bytes, all but the last full, the last not empty
pub proof fn cut_points(len: int, max: int, n: int, i: int)
    requires max > 0, len >= max, n == len / max + (if len % max != 0 { 1int } else { 0 }), 0 <= i < n,
    ensures 0 <= max * i < len, i < n - 1 ==> max * (i + 1) <= len, i == n - 1 ==> len - max * i <= max, max * (i + 1) == max * i + max, n <= len,
{
    let q = len / max; let r = len % max;
    assert(len == max * q + r) by (nonlinear_arith) requires q == len / max, r == len % max, max > 0;
    assert(0 <= r < max) by (nonlinear_arith) requires r == len % max, max > 0;
    assert(max * (i + 1) == max * i + max) by (nonlinear_arith);
    assert(0 <= max * i) by (nonlinear_arith) requires max > 0, i >= 0;
    assert(i < n - 1 ==> max * (i + 1) <= max * (n - 1)) by (nonlinear_arith) requires max > 0;
    assert(max * i <= max * (n - 1)) by (nonlinear_arith) requires max > 0, i <= n - 1;
    assert(max * (n - 1) == max * n - max) by (nonlinear_arith);
    if r != 0 { assert(n - 1 == q); assert(max * (n - 1) == max * q); } else { assert(n == q); assert(max * n == max * q); }
    assert(n <= len) by (nonlinear_arith) requires len == max * q + r, 0 <= r < max, max > 0, n == q + (if r != 0 { 1int } else { 0 }), q >= 0, len >= max;
}
@@ fn SendQ::insert
    requires old(self).wf(), buf@.len() < 0x80000000,
        // 24-bit index space: room for every piece
        old(self).reliable_frame_index + buf@.len() / (old(self).mtu - 60) as nat + 1 < 0x1000000,
        old(self).sequenced_frame_index + 1 < 0x1000000, old(self).ordered_frame_index + 1 < 0x1000000,
    ensures final(self).wf(),
        r == (if too_big(*old(self), reliability, buf@) { Result::<()>::Err(RaknetError::PacketSizeExceedMTU) } else { Ok(()) }),
        r is Err ==> *final(self) == *old(self),
        r is Ok ==> queue_step(*old(self), *final(self), reliability, buf@) && super::history::tx_step(*old(self), super::history::Tx::Put(reliability, buf@), *final(self)),
@@@ start
    let ghost rel = reliability;
    let ghost pk = self.packets@;
    proof { kind_flags(rel, rel_num(rel) << 5); }
@@@ loops for
@@@ loop 0 before
    let ghost len = buf@.len() as int;
    proof {
        assert(buf@.subrange(0, 0) =~= Seq::<u8>::empty());
        assert(len / (max as int) >= 1) by (nonlinear_arith) requires len >= max, max > 0;
        assert(max * 0 == 0);
        assert(self.packets@.skip(pk.len() as int) =~= Seq::<FrameSetPacket>::empty());
    }
@@@ loop 0 bind it
@@@ loop 0 inv
    invariant it.seq().len() == compound_size, old(self).wf(), self.wf(), max == old(self).mtu - 60, len == buf@.len(), len >= max, len < 0x80000000, rel_num(rel) == 3, rel == reliability,
        compound_size == len / (max as int) + (if len % (max as int) != 0 { 1int } else { 0 }), compound_size > 0,
        old(self).reliable_frame_index + compound_size < 0x1000000, old(self).ordered_frame_index < 0x1000000,
        self.reliable_frame_index == old(self).reliable_frame_index + i,
        self.mtu == old(self).mtu, self.compound_id == old(self).compound_id, self.sequenced_frame_index == old(self).sequenced_frame_index,
        self.ordered_frame_index == old(self).ordered_frame_index, self.sent_packet == old(self).sent_packet, self.sequence_number == old(self).sequence_number,
        self.ack_sequence_number == old(self).ack_sequence_number, self.rto == old(self).rto, self.srtt == old(self).srtt,
        pk == old(self).packets@, self.packets@.len() == pk.len() + i, self.packets@.take(pk.len() as int) == pk,
        forall|k: int| 0 <= k < i ==> piece(#[trigger] self.packets@.skip(pk.len() as int)[k], *old(self), rel, k, compound_size as int),
        cat_data(self.packets@.skip(pk.len() as int)) == buf@.subrange(0, if i == compound_size { len } else { max * i }),
@@@ loop 0 body-start
    let ghost p0 = self.packets@;
    proof {
        kind_flags(rel, rel_num(rel) << 5);
        cut_points(len, max as int, compound_size as int, i as int);
    }
@@@ loop 0 body-end
    proof {
        let f = self.packets@.last();
        let d = p0.skip(pk.len() as int);
        assert(self.packets@ =~= p0.push(f));
        assert(self.packets@.skip(pk.len() as int) =~= d.push(f));
        assert(self.packets@.take(pk.len() as int) =~= pk) by { assert(p0.take(pk.len() as int) =~= pk); }
        cat_data_push(d, f);
        assert(buf@.subrange(0, max * i) + buf@.subrange(begin as int, end as int) =~= buf@.subrange(0, end as int));
        assert(piece(f, *old(self), rel, i as int, compound_size as int));
    }
@@@ loop 0 after
    proof { assert(buf@.subrange(0, len) =~= buf@); }
@@@ before `Ok(())`
    proof {
        let fs = self.packets@.skip(pk.len() as int);
        assert(self.packets@.take(pk.len() as int) =~= pk);
        assert(rel_num(rel) != 3 || buf@.len() < old(self).mtu - 60 ==> fs[0] == self.packets@.last());
        assert(queue_step(*old(self), *self, rel, buf@));
    }
@@ fn SendQ::is_empty
    ensures r == (self.packets@.len() == 0 && self.sent_packet@.len() == 0),
@@ fn SendQ::get_reliable_queue_size
    ensures r == self.packets@.len(),
@@ fn SendQ::get_sent_queue_size
    ensures r == self.sent_packet@.len(),
@@ fn SendQ::next_sequence_number
    ensures r == self.sequence_number,
