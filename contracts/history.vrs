@@ module root
@@ top
pub mod history {
use vstd::prelude::*;
use super::wire::*;
use super::shim::*;
use super::fragment::*;
use super::arq::*;
use super::utils::*;

// ---- histories of a connection's receive queue ---------------------------------------------------------------------------
// The contracts of RecvQ say what one call does, from any well-formed state; the lemmas here follow any number of calls in any
// order from a new queue (induction over the length). rx_step is made of the very predicates the functions are verified against.
pub enum Rx { In(FrameSetPacket), Up(Seq<FrameSetPacket>), Acks(Seq<(u32, u32)>), Nacks(Seq<(u32, u32)>) }
pub open spec fn acks_out(a: RecvQ, b: RecvQ, r: Seq<(u32, u32)>) -> bool {
    &&& r == a.sequence_number_ackset.ack@ && b.sequence_number_ackset.ack@.len() == 0
    &&& b.sequence_number_ackset.nack@ == a.sequence_number_ackset.nack@ && b.sequence_number_ackset.last_max == a.sequence_number_ackset.last_max && rest_same(a, b)
}
pub open spec fn nacks_out(a: RecvQ, b: RecvQ, r: Seq<(u32, u32)>) -> bool {
    &&& r == a.sequence_number_ackset.nack@ && b.sequence_number_ackset.nack@.len() == 0
    &&& b.sequence_number_ackset.ack@ == a.sequence_number_ackset.ack@ && b.sequence_number_ackset.last_max == a.sequence_number_ackset.last_max && rest_same(a, b)
}
pub open spec fn rest_same(a: RecvQ, b: RecvQ) -> bool {
    b.packets == a.packets && b.ordered_packets == a.ordered_packets && b.fragment_queue == a.fragment_queue
        && b.sequenced_frame_index == a.sequenced_frame_index && b.last_ordered_index == a.last_ordered_index
}
pub open spec fn rx_new(q: RecvQ) -> bool {
    q.packets@ == Map::<u32, FrameSetPacket>::empty() && q.ordered_packets@ == Map::<u32, FrameSetPacket>::empty() && q.parts() == Map::<u16, Fragment>::empty()
        && q.last_ordered_index == 0 && q.sequenced_frame_index == 0
        && q.sequence_number_ackset.ack@.len() == 0 && q.sequence_number_ackset.nack@.len() == 0 && q.sequence_number_ackset.last_max == 0
}
pub open spec fn rx_step(a: RecvQ, e: Rx, b: RecvQ) -> bool {
    b.wf() && match e {
        Rx::In(f) => frame24(f) && insert_step(a, b, f),
        Rx::Up(r) => flush_step(a, b, r),
        Rx::Acks(r) => acks_out(a, b, r),
        Rx::Nacks(r) => nacks_out(a, b, r),
    }
}
/// q[i] is the queue before event i, q[n] the queue now
pub open spec fn rx_history(q: Seq<RecvQ>, e: Seq<Rx>) -> bool {
    q.len() == e.len() + 1 && rx_new(q[0]) && forall|i: int| 0 <= i < e.len() ==> rx_step(q[i], #[trigger] e[i], q[i + 1])
}
pub proof fn rx_shorter(q: Seq<RecvQ>, e: Seq<Rx>)
    requires rx_history(q, e), e.len() > 0,
    ensures rx_history(q.drop_last(), e.drop_last()), rx_step(q[e.len() - 1], e.last(), q.last()), q.drop_last().last() == q[e.len() - 1],
{
    let e1 = e.drop_last(); let q1 = q.drop_last();
    assert forall|i: int| 0 <= i < e1.len() implies rx_step(q1[i], #[trigger] e1[i], q1[i + 1]) by { assert(e1[i] == e[i]); }
    assert(e.last() == e[e.len() - 1]);
}
pub open spec fn is_ord(f: FrameSetPacket) -> bool { rel_code(f.flags) == 3 }
pub open spec fn rx_inv(q: RecvQ) -> bool {
    &&& forall|k: u32| #[trigger] q.ordered_packets@.contains_key(k) ==> is_ord(q.ordered_packets@[k]) && q.ordered_packets@[k].ordered_frame_index == k
    &&& forall|k: u32| #[trigger] q.packets@.contains_key(k) ==> !is_ord(q.packets@[k]) && q.packets@[k].sequence_number == k
    &&& q.packets@.dom().finite()
}
pub proof fn rx_inv_step(a: RecvQ, e: Rx, b: RecvQ)
    requires rx_inv(a), rx_step(a, e, b),
    ensures rx_inv(b),
{
    if let Rx::In(f) = e { if is_ord(f) && !a.packets@.contains_key(f.sequence_number) { ordered_gain(a, b, f); } }
}
/// what waits for its turn after an ordered frame arrived: what waited before, and at most one new message
pub proof fn ordered_gain(a: RecvQ, b: RecvQ, f: FrameSetPacket)
    requires ordered_step(a, b, f), is_ord(f),
    ensures b.ordered_packets@ == a.ordered_packets@ || (exists|p: FrameSetPacket| is_ord(p) && #[trigger] gained(a, b, p)),
{
    if f.ordered_frame_index < a.last_ordered_index || a.ordered_packets@.contains_key(f.ordered_frame_index) {}
    else if frag_bit(f.flags) {
        if f.compound_size != 0 && parts_with(a.parts(), f).len() == parts_size(a.parts(), f) {
            let p = choose|p: FrameSetPacket| #[trigger] rebuilt(a.parts(), f, p) && b.ordered_packets@ == or_insert(a.ordered_packets@, parts_index(a.parts(), f), p);
            if !a.ordered_packets@.contains_key(parts_index(a.parts(), f)) { assert(gained(a, b, p)); }
        }
    } else { assert(gained(a, b, f)); }
}
pub open spec fn gained(a: RecvQ, b: RecvQ, p: FrameSetPacket) -> bool {
    !a.ordered_packets@.contains_key(p.ordered_frame_index) && b.ordered_packets@ == a.ordered_packets@.insert(p.ordered_frame_index, p)
}
pub proof fn rx_inv_all(q: Seq<RecvQ>, e: Seq<Rx>)
    requires rx_history(q, e),
    ensures forall|i: int| 0 <= i < q.len() ==> rx_inv(#[trigger] q[i]),
    decreases e.len(),
{
    if e.len() > 0 {
        rx_shorter(q, e);
        rx_inv_all(q.drop_last(), e.drop_last());
        assert(rx_inv(q.drop_last()[e.len() - 1]));
        rx_inv_step(q[e.len() - 1], e.last(), q.last());
        assert forall|i: int| 0 <= i < q.len() implies rx_inv(#[trigger] q[i]) by { if i < e.len() { assert(q.drop_last()[i] == q[i]); } }
    }
}

// ---- C07: ordered messages
/// the ordered messages handed up so far
pub open spec fn ordered_up(e: Seq<Rx>) -> Seq<FrameSetPacket>
    decreases e.len(),
{
    if e.len() == 0 { Seq::empty() } else {
        match e.last() { Rx::Up(r) => ordered_up(e.drop_last()) + ord_part(r), _ => ordered_up(e.drop_last()) }
    }
}
pub open spec fn ord_part(r: Seq<FrameSetPacket>) -> Seq<FrameSetPacket> { r.filter(|f: FrameSetPacket| is_ord(f)) }
pub proof fn filter_split(s: Seq<FrameSetPacket>, t: Seq<FrameSetPacket>)
    requires forall|i: int| 0 <= i < s.len() ==> is_ord(#[trigger] s[i]), forall|i: int| 0 <= i < t.len() ==> !is_ord(#[trigger] t[i]),
    ensures ord_part(s + t) == s,
    decreases s.len() + t.len(),
{
    reveal(Seq::filter);
    let u = s + t;
    if t.len() > 0 {
        assert(u.drop_last() =~= s + t.drop_last());
        assert(u.last() == t.last());
        filter_split(s, t.drop_last());
    } else if s.len() > 0 {
        assert(u =~= s);
        assert(u.drop_last() =~= s.drop_last() + t);
        assert(u.last() == s.last());
        filter_split(s.drop_last(), t);
        assert(s =~= s.drop_last().push(s.last()));
    } else { assert(u =~= s); }
}
/// the ordered part of a read-out is the run of messages that were due
pub proof fn up_is_run(a: RecvQ, b: RecvQ, r: Seq<FrameSetPacket>)
    requires rx_inv(a), flush_step(a, b, r),
    ensures ord_part(r) == run(a.ordered_packets@, a.last_ordered_index, (b.last_ordered_index - a.last_ordered_index) as nat),
{
    let l = a.last_ordered_index; let h = b.last_ordered_index;
    let s = run(a.ordered_packets@, l, (h - l) as nat); let t = in_order(a.packets@);
    assert forall|i: int| 0 <= i < s.len() implies is_ord(#[trigger] s[i]) by { assert(in_run(l, h, (l + i) as u32)); }
    in_order_is(a);
    filter_split(s, t);
}
pub proof fn in_order_is(a: RecvQ)
    requires rx_inv(a),
    ensures forall|i: int| 0 <= i < in_order(a.packets@).len() ==> !is_ord(#[trigger] in_order(a.packets@)[i]) && a.packets@.contains_key(in_order(a.packets@)[i].sequence_number)
            && a.packets@[in_order(a.packets@)[i].sequence_number] == in_order(a.packets@)[i],
        forall|k: u32| #[trigger] a.packets@.contains_key(k) ==> in_order(a.packets@).contains(a.packets@[k]),
{
    let m = a.packets@; let t = in_order(m);
    asc_exists(m.dom());
    let ks = asc(m.dom());
    assert forall|i: int| 0 <= i < t.len() implies !is_ord(#[trigger] t[i]) && m.contains_key(t[i].sequence_number) && m[t[i].sequence_number] == t[i] by {
        assert(ks.to_set().contains(ks[i]));
        assert(m.contains_key(ks[i]));
    }
    assert forall|k: u32| #[trigger] m.contains_key(k) implies t.contains(m[k]) by {
        assert(ks.to_set().contains(k));
        let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
        assert(t[i] == m[k]);
    }
}
/// every finite set can be listed in ascending order
pub proof fn asc_exists(s: Set<u32>)
    requires s.finite(),
    ensures is_asc(asc(s), s),
    decreases s.len(),
{
    if s.len() == 0 {
        assert(s =~= Set::empty());
        assert(is_asc(Seq::<u32>::empty(), s)) by { assert(Seq::<u32>::empty().to_set() =~= s); }
    } else {
        let x = top_of(s);
        top_exists(s);
        asc_exists(s.remove(x));
        let a = asc(s.remove(x));
        let b = a.push(x);
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies b[i] < b[j] by {
            assert(a.to_set().contains(a[i]));
            if j < a.len() { assert(a[i] < a[j]); }
        }
        assert forall|y: u32| #[trigger] b.to_set().contains(y) <==> s.contains(y) by {
            if s.contains(y) {
                if y == x { assert(b[a.len() as int] == x); } else { assert(a.to_set().contains(y)); let i = choose|i: int| 0 <= i < a.len() && a[i] == y; assert(b[i] == y); }
            }
            if b.contains(y) && y != x { let i = choose|i: int| 0 <= i < b.len() && b[i] == y; assert(a[i] == y); assert(a.to_set().contains(y)); }
        }
        assert(b.to_set() =~= s);
        assert(is_asc(b, s));
    }
}
pub open spec fn is_top(s: Set<u32>, x: u32) -> bool { s.contains(x) && forall|y: u32| #[trigger] s.contains(y) ==> y <= x }
pub open spec fn top_of(s: Set<u32>) -> u32 { choose|x: u32| is_top(s, x) }
pub proof fn top_exists(s: Set<u32>)
    requires s.finite(), s.len() > 0,
    ensures is_top(s, top_of(s)),
    decreases s.len(),
{
    let c = s.choose();
    assert(s.contains(c));
    if s.len() == 1 {
        assert forall|y: u32| #[trigger] s.contains(y) implies y <= c by { if y != c { assert(s.remove(c).contains(y)); assert(s.remove(c).len() == 0); } }
        assert(is_top(s, c));
    } else {
        let t = s.remove(c);
        top_exists(t);
        let m = top_of(t);
        assert(t.contains(m));
        if m < c { assert forall|y: u32| #[trigger] s.contains(y) implies y <= c by { if y != c { assert(t.contains(y)); } } assert(is_top(s, c)); }
        else { assert forall|y: u32| #[trigger] s.contains(y) implies y <= m by { if y != c { assert(t.contains(y)); } } assert(is_top(s, m)); }
    }
}
pub open spec fn in_turn(o: Seq<FrameSetPacket>, n: int) -> bool {
    o.len() == n && forall|k: int| 0 <= k < o.len() ==> is_ord(#[trigger] o[k]) && o[k].ordered_frame_index == k
}
pub open spec fn up_part(e: Rx) -> Seq<FrameSetPacket> { match e { Rx::Up(r) => ord_part(r), _ => Seq::empty() } }
pub open spec fn stays(q: RecvQ, o: Seq<FrameSetPacket>, k: u32, p: FrameSetPacket) -> bool {
    if k < o.len() { o[k as int] == p } else { q.ordered_packets@.contains_key(k) && q.ordered_packets@[k] == p }
}
pub proof fn in_keeps(a: RecvQ, f: FrameSetPacket, b: RecvQ)
    requires insert_step(a, b, f),
    ensures b.last_ordered_index == a.last_ordered_index,
        forall|k: u32| #[trigger] a.ordered_packets@.contains_key(k) ==> b.ordered_packets@.contains_key(k) && b.ordered_packets@[k] == a.ordered_packets@[k],
{ if is_ord(f) && !a.packets@.contains_key(f.sequence_number) { ordered_gain(a, b, f); } }
pub proof fn run_turn(m: Map<u32, FrameSetPacket>, l: u32, h: u32, o: Seq<FrameSetPacket>)
    requires l <= h, in_turn(o, l as int), forall|k: u32| #[trigger] in_run(l, h, k) ==> m.contains_key(k) && is_ord(m[k]) && m[k].ordered_frame_index == k,
    ensures in_turn(o + run(m, l, (h - l) as nat), h as int),
        forall|k: u32| k < l ==> (o + run(m, l, (h - l) as nat))[k as int] == #[trigger] o[k as int],
        forall|k: u32| #[trigger] in_run(l, h, k) ==> (o + run(m, l, (h - l) as nat))[k as int] == m[k],
{
    hide(is_ord);
    let s = run(m, l, (h - l) as nat);
    let t = o + s;
    assert forall|k: int| 0 <= k < t.len() implies is_ord(#[trigger] t[k]) && t[k].ordered_frame_index == k by {
        if k < l { assert(t[k] == o[k]); } else { assert(t[k] == s[k - l]); assert(in_run(l, h, k as u32)); }
    }
    assert forall|k: u32| #[trigger] in_run(l, h, k) implies t[k as int] == m[k] by { assert(t[k as int] == s[k - l]); }
}
pub proof fn up_moves(a: RecvQ, r: Seq<FrameSetPacket>, b: RecvQ, o: Seq<FrameSetPacket>)
    requires rx_inv(a), flush_step(a, b, r), in_turn(o, a.last_ordered_index as int),
    ensures in_turn(o + ord_part(r), b.last_ordered_index as int),
        forall|k: u32, p: FrameSetPacket| #[trigger] stays(a, o, k, p) ==> stays(b, o + ord_part(r), k, p),
        !b.ordered_packets@.contains_key(b.last_ordered_index),
{
    hide(in_order); hide(ord_part); hide(is_ord); hide(run);
    up_is_run(a, b, r);
    let l = a.last_ordered_index; let h = b.last_ordered_index;
    assert forall|k: u32| #[trigger] in_run(l, h, k) implies a.ordered_packets@.contains_key(k) && is_ord(a.ordered_packets@[k]) && a.ordered_packets@[k].ordered_frame_index == k by {
        assert(a.ordered_packets@.contains_key(k));
    }
    run_turn(a.ordered_packets@, l, h, o);
    let t = o + ord_part(r);
    assert(t.len() == h);
    assert forall|k: u32, p: FrameSetPacket| #[trigger] stays(a, o, k, p) implies stays(b, t, k, p) by {
        if k < l { assert(t[k as int] == o[k as int]); }
        else if k < h { assert(in_run(l, h, k)); }
        else { assert(!in_run(l, h, k)); assert(a.ordered_packets@.contains_key(k)); assert(b.ordered_packets@.contains_key(k)); }
    }
}
pub proof fn ordered_one(a: RecvQ, e: Rx, b: RecvQ, o: Seq<FrameSetPacket>)
    requires rx_inv(a), rx_step(a, e, b), in_turn(o, a.last_ordered_index as int),
    ensures in_turn(o + up_part(e), b.last_ordered_index as int),
        forall|k: u32, p: FrameSetPacket| #[trigger] stays(a, o, k, p) ==> stays(b, o + up_part(e), k, p),
        e is Up ==> !b.ordered_packets@.contains_key(b.last_ordered_index),
{
    hide(flush_step); hide(insert_step); hide(ord_part); hide(rx_inv); hide(is_ord);
    match e {
        Rx::In(f) => { assert(o + up_part(e) =~= o); in_keeps(a, f, b); }
        Rx::Up(r) => { up_moves(a, r, b, o); }
        _ => { assert(o + up_part(e) =~= o); }
    }
}
pub open spec fn waits(q: RecvQ, k: u32) -> bool { q.ordered_packets@.contains_key(k) && k >= q.last_ordered_index }
/// C07, for every history: the ordered messages handed up are number 0, 1, 2, ... without gap or repetition; a message keeps the
/// payload with which it first waited for its turn; and after a read-out the next message due is one that has not arrived
pub proof fn ordered_history(q: Seq<RecvQ>, e: Seq<Rx>)
    requires rx_history(q, e),
    ensures in_turn(ordered_up(e), q.last().last_ordered_index as int),
        forall|j: int, k: u32| 0 <= j < q.len() && #[trigger] waits(q[j], k) ==> stays(q.last(), ordered_up(e), k, q[j].ordered_packets@[k]),
        e.len() > 0 && e.last() is Up ==> !q.last().ordered_packets@.contains_key(q.last().last_ordered_index),
    decreases e.len(),
{
    hide(rx_step); hide(rx_inv);
    if e.len() > 0 {
        let n = e.len() - 1;
        let q1 = q.drop_last(); let e1 = e.drop_last();
        rx_shorter(q, e);
        rx_inv_all(q, e);
        ordered_history(q1, e1);
        let o1 = ordered_up(e1); let o = ordered_up(e);
        assert(rx_inv(q[n]));
        assert(q1.last() == q[n]);
        ordered_one(q[n], e.last(), q.last(), o1);
        assert(o =~= o1 + up_part(e.last()));
        assert forall|j: int, k: u32| 0 <= j < q.len() && #[trigger] waits(q[j], k) implies stays(q.last(), o, k, q[j].ordered_packets@[k]) by {
            if j <= n { assert(q1[j] == q[j]); assert(waits(q1[j], k)); assert(stays(q1.last(), o1, k, q[j].ordered_packets@[k])); }
        }
    }
}

// ---- C09, C10: which datagram numbers are acknowledged and reported missing
/// the frame changes the bookkeeping (it does not repeat the number of a message that waits for the next read-out)
pub open spec fn counts(q: RecvQ, e: Rx) -> bool { e is In && !q.packets@.contains_key(e->In_0.sequence_number) }
/// x was received since acknowledgements were last handed out
pub open spec fn to_ack(q: Seq<RecvQ>, e: Seq<Rx>, x: int) -> bool
    decreases e.len(),
{
    e.len() > 0 && {
        let s = to_ack(q.drop_last(), e.drop_last(), x);
        if counts(q[e.len() - 1], e.last()) { s || x == e.last()->In_0.sequence_number } else { !(e.last() is Acks) && s }
    }
}
pub open spec fn skipped(a: RecvQ, e: Rx, x: int) -> bool { counts(a, e) && a.sequence_number_ackset.last_max < x < e->In_0.sequence_number }
/// x was skipped since gaps were last handed out
pub open spec fn to_nack(q: Seq<RecvQ>, e: Seq<Rx>, x: int) -> bool
    decreases e.len(),
{
    e.len() > 0 && {
        let s = to_nack(q.drop_last(), e.drop_last(), x);
        if counts(q[e.len() - 1], e.last()) { s || skipped(q[e.len() - 1], e.last(), x) } else { !(e.last() is Nacks) && s }
    }
}
pub proof fn covers_more(a: Seq<(u32, u32)>, lo: u32, hi: u32, x: int)
    ensures covers(a.push((lo, hi)), x) <==> covers(a, x) || lo <= x <= hi,
{
    let b = a.push((lo, hi));
    if covers(a, x) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 <= x <= a[i].1; assert(b[i] == a[i]); }
    if lo <= x <= hi { assert(b[a.len() as int] == (lo, hi)); }
    if covers(b, x) && !(lo <= x <= hi) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 <= x <= b[i].1; assert(a[i] == b[i]); }
}
pub proof fn ranges_one(a: RecvQ, e: Rx, b: RecvQ)
    requires rx_step(a, e, b),
    ensures forall|x: int| #[trigger] covers(b.sequence_number_ackset.ack@, x) <==> if counts(a, e) { covers(a.sequence_number_ackset.ack@, x) || x == e->In_0.sequence_number } else { !(e is Acks) && covers(a.sequence_number_ackset.ack@, x) },
        forall|x: int| #[trigger] covers(b.sequence_number_ackset.nack@, x) <==> if counts(a, e) { covers(a.sequence_number_ackset.nack@, x) || skipped(a, e, x) } else { !(e is Nacks) && covers(a.sequence_number_ackset.nack@, x) },
        b.sequence_number_ackset.last_max == (if counts(a, e) && e->In_0.sequence_number > a.sequence_number_ackset.last_max { e->In_0.sequence_number } else { a.sequence_number_ackset.last_max }),
{
    hide(ordered_step); hide(flush_step);
    if counts(a, e) {
        let n = e->In_0.sequence_number;
        assert(ack_step(a.sequence_number_ackset, b.sequence_number_ackset, n));
        let m = a.sequence_number_ackset.last_max;
        assert forall|x: int| #[trigger] covers(b.sequence_number_ackset.nack@, x) <==> covers(a.sequence_number_ackset.nack@, x) || skipped(a, e, x) by {
            if n > m + 1 { covers_more(a.sequence_number_ackset.nack@, (m + 1) as u32, (n - 1) as u32, x); }
        }
    } else {
        match e { Rx::In(f) => { assert(b == a); } Rx::Up(r) => { reveal(flush_step); } _ => {} }
    }
}
/// C09 and C10, for every history: the ranges waiting to be handed out cover exactly the numbers received, and the numbers skipped,
/// since they were last handed out (so does a list handed out, which is what was waiting)
pub proof fn ranges_history(q: Seq<RecvQ>, e: Seq<Rx>)
    requires rx_history(q, e),
    ensures forall|x: int| #[trigger] covers(q.last().sequence_number_ackset.ack@, x) <==> to_ack(q, e, x),
        forall|x: int| #[trigger] covers(q.last().sequence_number_ackset.nack@, x) <==> to_nack(q, e, x),
    decreases e.len(),
{
    hide(rx_step); hide(covers);
    if e.len() > 0 {
        rx_shorter(q, e);
        ranges_history(q.drop_last(), e.drop_last());
        ranges_one(q[e.len() - 1], e.last(), q.last());
    } else {
        reveal(covers);
        assert(q.last() == q[0]);
    }
}
/// C09: a list of acknowledgements handed out at event j covers exactly what was received since the one before, in ascending ranges; likewise gaps (C10)
pub proof fn handed_out(q: Seq<RecvQ>, e: Seq<Rx>, j: int)
    requires rx_history(q, e), 0 <= j < e.len(),
    ensures e[j] is Acks ==> ranges_ok(e[j]->Acks_0) && forall|x: int| #[trigger] covers(e[j]->Acks_0, x) <==> to_ack(q.take(j + 1), e.take(j), x),
        e[j] is Nacks ==> ranges_ok(e[j]->Nacks_0) && forall|x: int| #[trigger] covers(e[j]->Nacks_0, x) <==> to_nack(q.take(j + 1), e.take(j), x),
{
    hide(covers);
    let q1 = q.take(j + 1); let e1 = e.take(j);
    assert forall|i: int| 0 <= i < e1.len() implies rx_step(q1[i], #[trigger] e1[i], q1[i + 1]) by { assert(e1[i] == e[i]); }
    ranges_history(q1, e1);
    assert(q1.last() == q[j]);
    assert(rx_step(q[j], e[j], q[j + 1]));
    if j > 0 { assert(rx_step(q[j - 1], e[j - 1], q[j])); }
}
/// a connection reads out after every message
pub open spec fn read_each(e: Seq<Rx>) -> bool { forall|i: int| 0 <= i < e.len() - 1 && (#[trigger] e[i]) is In ==> e[i + 1] is Up }
/// C09: then every message counts, repeated, stale and dropped ones too
pub proof fn all_count(q: Seq<RecvQ>, e: Seq<Rx>)
    requires rx_history(q, e), read_each(e),
    ensures forall|i: int| 0 <= i < e.len() && (#[trigger] e[i]) is In ==> counts(q[i], e[i]),
        e.len() == 0 || !(e.last() is In) ==> q.last().packets@ == Map::<u32, FrameSetPacket>::empty(),
    decreases e.len(),
{
    if e.len() > 0 {
        let n = e.len() - 1;
        let e1 = e.drop_last(); let q1 = q.drop_last();
        rx_shorter(q, e);
        assert forall|i: int| 0 <= i < e1.len() - 1 && (#[trigger] e1[i]) is In implies e1[i + 1] is Up by { assert(e1[i] == e[i]); assert(e1[i + 1] == e[i + 1]); }
        all_count(q1, e1);
        if n > 0 { assert(e1.last() == e[n - 1]); }
        assert forall|i: int| 0 <= i < e.len() && (#[trigger] e[i]) is In implies counts(q[i], e[i]) by { if i < n { assert(e1[i] == e[i]); assert(q1[i] == q[i]); } }
    }
}
pub proof fn max_seen(q: Seq<RecvQ>, e: Seq<Rx>, i: int, j: int)
    requires rx_history(q, e), 0 <= i <= j < q.len(),
    ensures q[i].sequence_number_ackset.last_max <= q[j].sequence_number_ackset.last_max,
        i < j && counts(q[i], e[i]) ==> e[i]->In_0.sequence_number <= q[j].sequence_number_ackset.last_max,
    decreases j - i,
{
    if i < j {
        assert(rx_step(q[j - 1], e[j - 1], q[j]));
        ranges_one(q[j - 1], e[j - 1], q[j]);
        max_seen(q, e, i, j - 1);
    }
}
/// C10, for every history: a number is reported in at most one gap, and never after it was received
pub proof fn gaps_history(q: Seq<RecvQ>, e: Seq<Rx>, i: int, j: int, x: int)
    requires rx_history(q, e), 0 <= i < j < e.len(), skipped(q[j], e[j], x),
    ensures !skipped(q[i], e[i], x), counts(q[i], e[i]) ==> e[i]->In_0.sequence_number != x,
{ max_seen(q, e, i, j); }

// ---- C08: the other messages
pub open spec fn is_seq(f: FrameSetPacket) -> bool { rel_code(f.flags) == 1 || rel_code(f.flags) == 4 }
pub open spec fn is_free(f: FrameSetPacket) -> bool { rel_code(f.flags) == 0 || rel_code(f.flags) == 2 }
/// it will be handed up by the next read-out
pub open spec fn taken(a: RecvQ, e: Rx) -> bool { counts(a, e) && (is_free(e->In_0) || is_seq(e->In_0) && e->In_0.sequenced_frame_index >= a.sequenced_frame_index) }
pub proof fn seq_one(a: RecvQ, e: Rx, b: RecvQ)
    requires rx_step(a, e, b),
    ensures a.sequenced_frame_index <= b.sequenced_frame_index,
        taken(a, e) && is_seq(e->In_0) ==> b.sequenced_frame_index == e->In_0.sequenced_frame_index + 1,
        taken(a, e) ==> b.packets@ == a.packets@.insert(e->In_0.sequence_number, e->In_0),
        !taken(a, e) && !(e is Up) ==> b.packets@ == a.packets@,
{}
pub proof fn seq_after(q: Seq<RecvQ>, e: Seq<Rx>, i: int, j: int)
    requires rx_history(q, e), 0 <= i <= j < q.len(),
    ensures q[i].sequenced_frame_index <= q[j].sequenced_frame_index,
    decreases j - i,
{ if i < j { assert(rx_step(q[j - 1], e[j - 1], q[j])); seq_one(q[j - 1], e[j - 1], q[j]); seq_after(q, e, i, j - 1); } }
/// C08, for every history: of two sequenced messages accepted, the later one has the higher index
pub proof fn sequenced_history(q: Seq<RecvQ>, e: Seq<Rx>, i: int, j: int)
    requires rx_history(q, e), 0 <= i < j < e.len(), taken(q[i], e[i]), is_seq(e[i]->In_0), taken(q[j], e[j]), is_seq(e[j]->In_0),
    ensures e[i]->In_0.sequenced_frame_index < e[j]->In_0.sequenced_frame_index,
{ assert(rx_step(q[i], e[i], q[i + 1])); seq_one(q[i], e[i], q[i + 1]); seq_after(q, e, i + 1, j); }
pub open spec fn no_up(e: Seq<Rx>, i: int, j: int) -> bool { forall|k: int| i <= k < j ==> !((#[trigger] e[k]) is Up) }
/// f waits for the next read-out since event i
pub open spec fn since(q: Seq<RecvQ>, e: Seq<Rx>, j: int, i: int, f: FrameSetPacket) -> bool { 0 <= i < j && e[i] == Rx::In(f) && taken(q[i], e[i]) && no_up(e, i, j) }
pub proof fn waiting_is(q: Seq<RecvQ>, e: Seq<Rx>, j: int)
    requires rx_history(q, e), 0 <= j <= e.len(),
    ensures forall|i: int, f: FrameSetPacket| #[trigger] since(q, e, j, i, f) ==> q[j].packets@.contains_key(f.sequence_number) && q[j].packets@[f.sequence_number] == f,
        forall|k: u32| #[trigger] q[j].packets@.contains_key(k) ==> exists|i: int| #[trigger] since(q, e, j, i, q[j].packets@[k]),
    decreases j,
{
    if j > 0 {
        let a = q[j - 1]; let b = q[j]; let v = e[j - 1];
        waiting_is(q, e, j - 1);
        assert(rx_step(a, v, b));
        seq_one(a, v, b);
        assert forall|i: int, f: FrameSetPacket| #[trigger] since(q, e, j, i, f) implies b.packets@.contains_key(f.sequence_number) && b.packets@[f.sequence_number] == f by {
            assert(!(v is Up));
            if i < j - 1 { assert(since(q, e, j - 1, i, f)); }
        }
        assert forall|k: u32| #[trigger] b.packets@.contains_key(k) implies exists|i: int| #[trigger] since(q, e, j, i, b.packets@[k]) by {
            assert(!(v is Up));
            if taken(a, v) && v->In_0.sequence_number == k { assert(since(q, e, j, j - 1, b.packets@[k])); }
            else {
                assert(a.packets@.contains_key(k));
                let i = choose|i: int| #[trigger] since(q, e, j - 1, i, a.packets@[k]);
                assert(since(q, e, j, i, b.packets@[k]));
            }
        }
    }
}
/// C08, for every history: a read-out hands up every message taken since the last one, unchanged; and besides ordered messages nothing else
pub proof fn unordered_history(q: Seq<RecvQ>, e: Seq<Rx>, j: int, r: Seq<FrameSetPacket>)
    requires rx_history(q, e), 0 <= j < e.len(), e[j] == Rx::Up(r),
    ensures forall|i: int, f: FrameSetPacket| #[trigger] since(q, e, j, i, f) ==> r.contains(f),
        forall|k: int| 0 <= k < r.len() && !is_ord(#[trigger] r[k]) ==> exists|i: int| #[trigger] since(q, e, j, i, r[k]),
{
    hide(in_order); hide(since);
    let a = q[j]; let b = q[j + 1];
    rx_inv_all(q, e);
    waiting_is(q, e, j);
    assert(rx_step(a, e[j], b));
    assert(rx_inv(a));
    in_order_is(a);
    let s = run(a.ordered_packets@, a.last_ordered_index, (b.last_ordered_index - a.last_ordered_index) as nat); let t = in_order(a.packets@);
    assert(r == s + t);
    assert forall|i: int, f: FrameSetPacket| #[trigger] since(q, e, j, i, f) implies r.contains(f) by {
        let x = choose|x: int| 0 <= x < t.len() && t[x] == f;
        assert(r[s.len() + x] == f);
    }
    assert forall|k: int| 0 <= k < r.len() && !is_ord(#[trigger] r[k]) implies exists|i: int| #[trigger] since(q, e, j, i, r[k]) by {
        if k < s.len() { run_is_ord(a, b, k); }
        else { assert(r[k] == t[k - s.len()]); assert(a.packets@.contains_key(t[k - s.len()].sequence_number)); }
    }
}
pub proof fn run_is_ord(a: RecvQ, b: RecvQ, k: int)
    requires rx_inv(a), a.last_ordered_index <= b.last_ordered_index, 0 <= k < b.last_ordered_index - a.last_ordered_index, forall|k: u32| #[trigger] in_run(a.last_ordered_index, b.last_ordered_index, k) ==> a.ordered_packets@.contains_key(k),
    ensures is_ord(run(a.ordered_packets@, a.last_ordered_index, (b.last_ordered_index - a.last_ordered_index) as nat)[k]),
{ assert(in_run(a.last_ordered_index, b.last_ordered_index, (a.last_ordered_index + k) as u32)); }

// ---- C06, C07: what is handed up is what was sent
/// what the peer's application sent, by order index: the whole message, and its pieces if it was split
pub struct Sent { pub msg: spec_fn(u32) -> Seq<u8>, pub parts: spec_fn(u32) -> Seq<Seq<u8>> }
pub open spec fn flat(p: Seq<Seq<u8>>) -> Seq<u8>
    decreases p.len(),
{ if p.len() == 0 { Seq::empty() } else { flat(p.drop_last()) + p.last() } }
pub open spec fn split_ok(w: Sent) -> bool { forall|n: u32| (#[trigger] (w.parts)(n)).len() > 0 ==> flat((w.parts)(n)) == (w.msg)(n) }
/// an ordered frame carries its message or one of its pieces; no two messages that are not complete yet share a compound id
pub open spec fn honest(w: Sent, a: RecvQ, f: FrameSetPacket) -> bool {
    let n = f.ordered_frame_index; let p = (w.parts)(n);
    is_ord(f) ==> if frag_bit(f.flags) {
        &&& p.len() == f.compound_size && f.fragment_index < p.len() && f.data@ == p[f.fragment_index as int]
        &&& a.parts().contains_key(f.compound_id) ==> a.parts()[f.compound_id].ordered_frame_index == n
    } else { f.data@ == (w.msg)(n) }
}
pub open spec fn pieces_of(p: Seq<Seq<u8>>, m: Map<u32, FrameSetPacket>) -> bool { forall|k: u32| #[trigger] m.contains_key(k) ==> k < p.len() && m[k].data@ == p[k as int] }
pub open spec fn genuine(w: Sent, q: RecvQ) -> bool {
    &&& forall|id: u16| #[trigger] q.parts().contains_key(id) ==> {
            let a = q.parts()[id]; let p = (w.parts)(a.ordered_frame_index);
            a.compound_size == p.len() && p.len() > 0 && pieces_of(p, a.frames@)
        }
    &&& forall|k: u32| #[trigger] q.ordered_packets@.contains_key(k) ==> q.ordered_packets@[k].data@ == (w.msg)(k)
}
pub proof fn at_most(s: Set<u32>, n: u32)
    requires s.finite(), forall|x: u32| #[trigger] s.contains(x) ==> x < n,
    ensures s.len() <= n,
    decreases n,
{
    if n == 0 { if s.len() > 0 { assert(s.contains(s.choose())); } else {} }
    else {
        let t = s.remove((n - 1) as u32);
        assert forall|x: u32| #[trigger] t.contains(x) implies x < n - 1 by { assert(s.contains(x)); }
        at_most(t, (n - 1) as u32);
    }
}
pub proof fn all_there(s: Set<u32>, n: u32)
    requires s.finite(), s.len() == n, forall|x: u32| #[trigger] s.contains(x) ==> x < n,
    ensures forall|x: u32| x < n ==> #[trigger] s.contains(x),
{
    assert forall|x: u32| x < n implies #[trigger] s.contains(x) by {
        if !s.contains(x) {
            // move the largest number into the hole: n numbers below n - 1
            let top = (n - 1) as u32;
            if s.contains(top) {
                let t = s.remove(top).insert(x);
                assert forall|y: u32| #[trigger] t.contains(y) implies y < top by { if y != x { assert(s.contains(y)); } else { assert(x != top); } }
                at_most(t, top);
            } else {
                assert forall|y: u32| #[trigger] s.contains(y) implies y < top by { assert(y != top); }
                at_most(s, top);
            }
        }
    }
}
pub open spec fn upto(n: nat) -> Seq<u32> { Seq::new(n, |i: int| i as u32) }
pub proof fn cat_flat(m: Map<u32, FrameSetPacket>, p: Seq<Seq<u8>>, n: nat)
    requires pieces_of(p, m), n <= p.len() <= u32::MAX, forall|x: u32| x < p.len() ==> #[trigger] m.contains_key(x),
    ensures cat(upto(n), m) == flat(p.take(n as int)),
    decreases n,
{
    if n > 0 {
        cat_flat(m, p, (n - 1) as nat);
        assert(upto(n).drop_last() =~= upto((n - 1) as nat));
        assert(upto(n).last() == (n - 1) as u32);
        assert(p.take(n as int).drop_last() =~= p.take(n - 1));
        assert(p.take(n as int).last() == p[n - 1]);
        assert(m.contains_key((n - 1) as u32));
    } else { assert(p.take(0).len() == 0); }
}
/// C06: all the pieces of a message, joined by index, are the message
pub proof fn complete_is_whole(m: Map<u32, FrameSetPacket>, p: Seq<Seq<u8>>)
    requires pieces_of(p, m), m.dom().finite(), m.len() == p.len(), p.len() <= u32::MAX,
    ensures joined(m) == flat(p),
{
    let n = p.len();
    assert forall|x: u32| #[trigger] m.dom().contains(x) implies x < n by { assert(m.contains_key(x)); }
    all_there(m.dom(), n as u32);
    assert forall|x: u32| x < n implies #[trigger] m.contains_key(x) by { assert(m.dom().contains(x)); }
    let ks = upto(n);
    assert forall|x: u32| #[trigger] ks.to_set().contains(x) <==> m.dom().contains(x) by {
        if m.dom().contains(x) { assert(ks[x as int] == x); }
        if ks.contains(x) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == x; assert(x == i as u32); }
    }
    assert(ks.to_set() =~= m.dom());
    assert(is_asc(ks, m.dom()));
    asc_is(ks, m.dom());
    cat_flat(m, p, n);
    assert(p.take(n as int) =~= p);
}
pub proof fn genuine_fragment(w: Sent, a: RecvQ, f: FrameSetPacket, b: RecvQ)
    requires split_ok(w), genuine(w, a), a.wf(), honest(w, a, f), is_ord(f), frag_bit(f.flags), fragment_step(a, b, f),
    ensures genuine(w, b),
{
    let id = f.compound_id; let n = f.ordered_frame_index; let p = (w.parts)(n);
    let m = parts_with(a.parts(), f);
    assert(f.compound_size != 0);
    assert(parts_index(a.parts(), f) == n && parts_size(a.parts(), f) == p.len());
    assert(pieces_of(p, m)) by { if a.parts().contains_key(id) { assert(pieces_of(p, a.parts()[id].frames@)); } }
    assert(m.dom().finite()) by { if a.parts().contains_key(id) { assert(a.parts()[id].wf()); } }
    if m.len() == p.len() {
        complete_is_whole(m, p);
        let x = choose|x: FrameSetPacket| #[trigger] rebuilt(a.parts(), f, x) && b.ordered_packets@ == or_insert(a.ordered_packets@, n, x);
        assert(x.data@ == (w.msg)(n));
        assert forall|k: u32| #[trigger] b.ordered_packets@.contains_key(k) implies b.ordered_packets@[k].data@ == (w.msg)(k) by { if k != n || a.ordered_packets@.contains_key(k) { assert(a.ordered_packets@.contains_key(k)); } }
    } else {
        assert forall|k: u32| #[trigger] b.ordered_packets@.contains_key(k) implies b.ordered_packets@[k].data@ == (w.msg)(k) by { assert(a.ordered_packets@.contains_key(k)); }
    }
    assert forall|j: u16| #[trigger] b.parts().contains_key(j) implies {
        let c = b.parts()[j]; let p = (w.parts)(c.ordered_frame_index);
        c.compound_size == p.len() && p.len() > 0 && pieces_of(p, c.frames@)
    } by { if j != id { assert(a.parts().contains_key(j)); } }
}
/// nothing collected and nothing in hand that was not there before
pub proof fn genuine_less(w: Sent, a: RecvQ, b: RecvQ)
    requires genuine(w, a), b.parts() == a.parts(), forall|k: u32| #[trigger] b.ordered_packets@.contains_key(k) ==> a.ordered_packets@.contains_key(k) && b.ordered_packets@[k] == a.ordered_packets@[k],
    ensures genuine(w, b),
{
    assert forall|k: u32| #[trigger] b.ordered_packets@.contains_key(k) implies b.ordered_packets@[k].data@ == (w.msg)(k) by { assert(a.ordered_packets@.contains_key(k)); }
    assert forall|id: u16| #[trigger] b.parts().contains_key(id) implies {
        let c = b.parts()[id]; let p = (w.parts)(c.ordered_frame_index);
        c.compound_size == p.len() && p.len() > 0 && pieces_of(p, c.frames@)
    } by { assert(a.parts().contains_key(id)); }
}
pub proof fn genuine_in(w: Sent, a: RecvQ, f: FrameSetPacket, b: RecvQ)
    requires split_ok(w), genuine(w, a), a.wf(), insert_step(a, b, f), honest(w, a, f),
    ensures genuine(w, b),
{
    hide(joined);
    let n = f.ordered_frame_index;
    if a.packets@.contains_key(f.sequence_number) { genuine_less(w, a, b); }
    else if !is_ord(f) { genuine_less(w, a, b); }
    else {
        assert(ordered_step(a, b, f));
        if n < a.last_ordered_index || a.ordered_packets@.contains_key(n) { genuine_less(w, a, b); }
        else if frag_bit(f.flags) { genuine_fragment(w, a, f, b); }
        else {
            assert(b.parts() == a.parts());
            assert forall|k: u32| #[trigger] b.ordered_packets@.contains_key(k) implies b.ordered_packets@[k].data@ == (w.msg)(k) by { if k != n { assert(a.ordered_packets@.contains_key(k)); } }
            assert forall|id: u16| #[trigger] b.parts().contains_key(id) implies {
                let c = b.parts()[id]; let p = (w.parts)(c.ordered_frame_index);
                c.compound_size == p.len() && p.len() > 0 && pieces_of(p, c.frames@)
            } by { assert(a.parts().contains_key(id)); }
        }
    }
}
pub proof fn genuine_one(w: Sent, a: RecvQ, e: Rx, b: RecvQ)
    requires split_ok(w), genuine(w, a), a.wf(), rx_step(a, e, b), e is In ==> honest(w, a, e->In_0),
    ensures genuine(w, b),
{
    hide(honest); hide(genuine); hide(insert_step);
    match e {
        Rx::In(f) => { genuine_in(w, a, f, b); }
        Rx::Up(r) => { genuine_less(w, a, b); }
        Rx::Acks(r) => { genuine_less(w, a, b); }
        Rx::Nacks(r) => { genuine_less(w, a, b); }
    }
}
pub proof fn genuine_up(w: Sent, a: RecvQ, r: Seq<FrameSetPacket>, b: RecvQ)
    requires genuine(w, a), rx_inv(a), flush_step(a, b, r),
    ensures ord_part(r).len() == b.last_ordered_index - a.last_ordered_index, forall|k: int| 0 <= k < ord_part(r).len() ==> (#[trigger] ord_part(r)[k]).data@ == (w.msg)((a.last_ordered_index + k) as u32),
{
    up_is_run(a, b, r);
    let l = a.last_ordered_index; let h = b.last_ordered_index;
    let s = run(a.ordered_packets@, l, (h - l) as nat);
    assert(ord_part(r) == s);
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).data@ == (w.msg)((l + k) as u32) by { assert(in_run(l, h, (l + k) as u32)); assert(a.ordered_packets@.contains_key((l + k) as u32)); }
}
pub open spec fn as_sent(w: Sent, o: Seq<FrameSetPacket>) -> bool { forall|k: int| 0 <= k < o.len() ==> (#[trigger] o[k]).data@ == (w.msg)(k as u32) }
/// C06 and C07, for every history: whatever the order, repetition and interleaving in which messages and pieces arrive, what is handed up
/// is message 0, 1, 2, ... exactly as sent
pub proof fn original_history(w: Sent, q: Seq<RecvQ>, e: Seq<Rx>)
    requires split_ok(w), rx_history(q, e), q[0].wf(), forall|i: int| 0 <= i < e.len() && (#[trigger] e[i]) is In ==> honest(w, q[i], e[i]->In_0),
    ensures genuine(w, q.last()), q.last().wf(), as_sent(w, ordered_up(e)), in_turn(ordered_up(e), q.last().last_ordered_index as int),
    decreases e.len(),
{
    hide(honest); hide(genuine); hide(flush_step); hide(insert_step); hide(rx_inv); hide(ord_part); hide(is_ord);
    ordered_history(q, e);
    if e.len() > 0 {
        let n = e.len() - 1;
        let q1 = q.drop_last(); let e1 = e.drop_last();
        rx_shorter(q, e);
        rx_inv_all(q, e);
        assert forall|i: int| 0 <= i < e1.len() && (#[trigger] e1[i]) is In implies honest(w, q1[i], e1[i]->In_0) by { assert(e1[i] == e[i]); assert(q1[i] == q[i]); }
        original_history(w, q1, e1);
        assert(e.last() == e[n]);
        assert(rx_step(q[n], e[n], q[n + 1]));
        genuine_one(w, q[n], e[n], q.last());
        if e.last() is Up {
            let r = e.last()->Up_0;
            assert(rx_inv(q[n]));
            genuine_up(w, q[n], r, q.last());
            let o1 = ordered_up(e1); let o = ordered_up(e);
            assert(o == o1 + ord_part(r));
            assert(o1.len() == q[n].last_ordered_index);
            assert forall|k: int| 0 <= k < o.len() implies (#[trigger] o[k]).data@ == (w.msg)(k as u32) by { if k < o1.len() { assert(o[k] == o1[k]); } else { assert(o[k] == ord_part(r)[k - o1.len()]); } }
        } else { assert(ordered_up(e) == ordered_up(e1)); }
    } else {
        reveal(genuine);
        assert(q.last() == q[0]);
    }
}

// ---- histories of a connection's send queue --------------------------------------------------------------------------------
pub enum Tx { Put(Reliability, Seq<u8>), Nack(u32, i64), Ack(u32, i64), Tick(i64), Out(Seq<FrameSetPacket>, i64) }
pub open spec fn tx_new(q: SendQ) -> bool { q.wf() && q.packets@.len() == 0 && q.sent_packet@.len() == 0 && q.sequence_number == 0 }
pub open spec fn tx_step(a: SendQ, e: Tx, b: SendQ) -> bool {
    a.wf() && b.wf() && match e {
        Tx::Put(rel, buf) => queue_step(a, b, rel, buf),
        Tx::Nack(s, t) => a.keeps(b) && a.sequence_number <= b.sequence_number && nack_step(a.sent_packet@, b.sent_packet@, a.sequence_number, s, t),
        Tx::Ack(s, t) => acked_step(a, b, s, t),
        Tx::Tick(t) => a.keeps(b) && a.sequence_number <= b.sequence_number && tick_step(a.sent_packet@, b.sent_packet@, a.sequence_number, a.rto, t),
        Tx::Out(r, t) => a.sequence_number <= b.sequence_number && flush_out(a, b, r, t),
    }
}
pub open spec fn tx_history(q: Seq<SendQ>, e: Seq<Tx>) -> bool {
    q.len() == e.len() + 1 && tx_new(q[0]) && forall|i: int| 0 <= i < e.len() ==> tx_step(q[i], #[trigger] e[i], q[i + 1])
}
pub proof fn tx_shorter(q: Seq<SendQ>, e: Seq<Tx>)
    requires tx_history(q, e), e.len() > 0,
    ensures tx_history(q.drop_last(), e.drop_last()), q.drop_last().last() == q[e.len() - 1], tx_step(q[e.len() - 1], e.last(), q.last()),
{
    let n = e.len() - 1;
    assert(tx_step(q[n], e[n], q[n + 1]));
    assert forall|i: int| 0 <= i < e.drop_last().len() implies tx_step(q.drop_last()[i], #[trigger] e.drop_last()[i], q.drop_last()[i + 1]) by { assert(tx_step(q[i], e[i], q[i + 1])); }
}
/// everything handed out, in order
pub open spec fn sent_all(e: Seq<Tx>) -> Seq<FrameSetPacket>
    decreases e.len(),
{ if e.len() == 0 { Seq::empty() } else { match e.last() { Tx::Out(r, t) => sent_all(e.drop_last()) + r, _ => sent_all(e.drop_last()) } } }
/// everything handed out is older than what the queue hands out next
pub open spec fn newer(q: SendQ, h: Seq<FrameSetPacket>) -> bool {
    &&& forall|k: int| 0 <= k < h.len() ==> (#[trigger] h[k]).sequence_number < q.sequence_number
    &&& forall|i: int, k: int| 0 <= i < q.sent_packet@.len() && 0 <= k < h.len() && !(#[trigger] q.sent_packet@[i]).1 ==> (#[trigger] h[k]).sequence_number < q.sent_packet@[i].0.sequence_number
}
pub proof fn newer_items(a: SendQ, b: SendQ, h: Seq<FrameSetPacket>)
    requires newer(a, h), a.sequence_number <= b.sequence_number,
        forall|j: int| 0 <= j < b.sent_packet@.len() && !(#[trigger] b.sent_packet@[j]).1 ==> b.sent_packet@[j].0.sequence_number >= a.sequence_number || a.sent_packet@.contains(b.sent_packet@[j]),
    ensures newer(b, h),
{
    assert forall|i: int, k: int| 0 <= i < b.sent_packet@.len() && 0 <= k < h.len() && !(#[trigger] b.sent_packet@[i]).1 implies (#[trigger] h[k]).sequence_number < b.sent_packet@[i].0.sequence_number by {
        let y = b.sent_packet@[i];
        if y.0.sequence_number < a.sequence_number { let j = a.sent_packet@.index_of(y); assert(a.sent_packet@[j] == y); }
    }
}
pub proof fn ack_from(a: SendQ, b: SendQ, s: u32, t: i64, m: Seq<Item>, j: int) -> (i: int)
    requires a.wf(), s < a.sequence_number, ack_by(a, b, s, t, m), 0 <= j < b.sent_packet@.len(),
    ensures 0 <= i < a.sent_packet@.len(), ack_item(a.sent_packet@[i], b.sent_packet@[j], a.sequence_number, a.ack_sequence_number, s, t), b.sent_packet@[j] == m[i],
{
    if b.sent_packet@ == m && (forall|i: int| 0 <= i < m.len() ==> !holds(#[trigger] m[i], s)) { j }
    else {
        let k = choose|k: int| 0 <= k < m.len() && holds(#[trigger] m[k], s) && b.sent_packet@ == m.remove(k) && forall|i: int| 0 <= i < m.len() && i != k ==> !holds(#[trigger] m[i], s);
        if j < k { j } else { j + 1 }
    }
}
pub proof fn newer_one(a: SendQ, e: Tx, b: SendQ, h: Seq<FrameSetPacket>)
    requires tx_step(a, e, b), newer(a, h), ascending(h),
    ensures newer(b, match e { Tx::Out(r, t) => h + r, _ => h }), ascending(match e { Tx::Out(r, t) => h + r, _ => h }),
{
    hide(item_ok); hide(all_apart);
    let s = a.sent_packet@; let t = b.sent_packet@;
    match e {
        Tx::Put(rel, buf) => { assert(t == s); newer_items(a, b, h); }
        Tx::Nack(n, tick) => {
            assert forall|j: int| 0 <= j < t.len() && !(#[trigger] t[j]).1 implies t[j].0.sequence_number >= a.sequence_number || s.contains(t[j]) by { assert(nack_item(s[j], t[j], a.sequence_number, n, tick)); }
            newer_items(a, b, h);
        }
        Tx::Tick(tick) => {
            assert forall|j: int| 0 <= j < t.len() && !(#[trigger] t[j]).1 implies t[j].0.sequence_number >= a.sequence_number || s.contains(t[j]) by { assert(tick_item(s[j], t[j], a.sequence_number, a.rto, tick)); }
            newer_items(a, b, h);
        }
        Tx::Ack(n, tick) => {
            if n < a.sequence_number {
                let m = choose|m: Seq<Item>| ack_by(a, b, n, tick, m);
                assert forall|j: int| 0 <= j < t.len() && !(#[trigger] t[j]).1 implies t[j].0.sequence_number >= a.sequence_number || s.contains(t[j]) by { let i = ack_from(a, b, n, tick, m, j); assert(s[i] == s[i]); }
                newer_items(a, b, h);
            }
        }
        Tx::Out(r, tick) => { newer_out(a, r, tick, b, h); }
    }
}
pub proof fn newer_out(a: SendQ, r: Seq<FrameSetPacket>, tick: i64, b: SendQ, h: Seq<FrameSetPacket>)
    requires tx_step(a, Tx::Out(r, tick), b), newer(a, h), ascending(h),
    ensures newer(b, h + r), ascending(h + r),
{
    let s = a.sent_packet@; let t = b.sent_packet@; let o = h + r;
    if s.len() > 0 {
        let p = choose|p: Seq<int>| resend_by(a, b, r, tick, p);
        assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]).sequence_number < b.sequence_number && forall|l: int| 0 <= l < h.len() ==> (#[trigger] h[l]).sequence_number < r[k].sequence_number by {
            assert(is_one_of(s, t, p, a.rto, tick, r[k]));
            let i = choose|i: int| 0 <= i < t.len() && goes(s[p[i]], a.rto, tick) && r[k] == (#[trigger] t[i]).0;
            assert(resent(s[p[i]], t[i], a.sequence_number, a.rto, tick));
            assert(item_ok(t[i], b.mtu, b.sequence_number));
        }
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).1 by { assert(resent(s[p[i]], t[i], a.sequence_number, a.rto, tick)); }
    } else {
        let rel = r.filter(|f: FrameSetPacket| reliable(f));
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).1 by { assert(fresh_item(t[i], rel[i], tick)); }
    }
    assert forall|k: int| 0 <= k < o.len() implies (#[trigger] o[k]).sequence_number < b.sequence_number by { if k >= h.len() { assert(o[k] == r[k - h.len()]); } }
    assert forall|i: int, j: int| 0 <= i < j < o.len() implies (#[trigger] o[i]).sequence_number < (#[trigger] o[j]).sequence_number by {
        if j >= h.len() { assert(o[j] == r[j - h.len()]); if i >= h.len() { assert(o[i] == r[i - h.len()]); } else { assert(o[i] == h[i]); } }
        else { assert(o[i] == h[i] && o[j] == h[j]); }
    }
}
/// C12: over any history of sends, acknowledgements, reports, timeouts and flushes, the numbers handed out rise strictly
pub proof fn fresh_history(q: Seq<SendQ>, e: Seq<Tx>)
    requires tx_history(q, e),
    ensures ascending(sent_all(e)), newer(q.last(), sent_all(e)),
    decreases e.len(),
{
    hide(tx_step); hide(newer); hide(ascending);
    if e.len() > 0 {
        tx_shorter(q, e);
        fresh_history(q.drop_last(), e.drop_last());
        newer_one(q[e.len() - 1], e.last(), q.last(), sent_all(e.drop_last()));
    } else { reveal(newer); reveal(ascending); assert(q.last() == q[0]); }
}
/// everything ever queued, in order, before it was given a number
pub open spec fn put_all(q: Seq<SendQ>, e: Seq<Tx>) -> Seq<FrameSetPacket>
    decreases e.len(),
{
    if e.len() == 0 || q.len() != e.len() + 1 { Seq::empty() }
    else {
        let h = put_all(q.drop_last(), e.drop_last());
        match e.last() { Tx::Put(rel, buf) => h + q.last().packets@.skip(q[e.len() - 1].packets@.len() as int), _ => h }
    }
}
/// everything sent for the first time, in order
pub open spec fn first_all(q: Seq<SendQ>, e: Seq<Tx>) -> Seq<FrameSetPacket>
    decreases e.len(),
{
    if e.len() == 0 || q.len() != e.len() + 1 { Seq::empty() }
    else {
        let h = first_all(q.drop_last(), e.drop_last());
        match e.last() { Tx::Out(r, t) => if q[e.len() - 1].sent_packet@.len() == 0 { h + r } else { h }, _ => h }
    }
}
pub open spec fn but_number(f: FrameSetPacket, g: FrameSetPacket) -> bool { g == renum(f, g.sequence_number) }
pub open spec fn was_put(h: Seq<FrameSetPacket>, g: FrameSetPacket) -> bool { exists|k: int| 0 <= k < h.len() && but_number(#[trigger] h[k], g) }
pub open spec fn all_put(h: Seq<FrameSetPacket>, o: Seq<FrameSetPacket>) -> bool { forall|i: int| 0 <= i < o.len() ==> was_put(h, #[trigger] o[i]) }
/// first transmissions f and queued frames p are together what was put, in order
pub open spec fn once_each(h: Seq<FrameSetPacket>, f: Seq<FrameSetPacket>, p: Seq<FrameSetPacket>) -> bool {
    &&& f.len() + p.len() == h.len()
    &&& forall|k: int| 0 <= k < f.len() ==> but_number(h[k], #[trigger] f[k])
    &&& forall|k: int| 0 <= k < p.len() ==> #[trigger] p[k] == h[f.len() + k]
}
/// C11, C12: every frame put is sent for the first time once, in order, and changed in nothing but its number
pub proof fn once_history(q: Seq<SendQ>, e: Seq<Tx>)
    requires tx_history(q, e),
    ensures once_each(put_all(q, e), first_all(q, e), q.last().packets@),
    decreases e.len(),
{
    hide(items_ok);
    if e.len() > 0 {
        tx_shorter(q, e);
        let q1 = q.drop_last(); let e1 = e.drop_last(); let a = q[e.len() - 1]; let b = q.last();
        once_history(q1, e1);
        let h = put_all(q1, e1); let f = first_all(q1, e1);
        let h2 = put_all(q, e); let f2 = first_all(q, e);
        match e.last() {
            Tx::Put(rel, buf) => {
                let n = b.packets@.skip(a.packets@.len() as int);
                assert(b.packets@ =~= a.packets@ + n) by { assert(b.packets@.take(a.packets@.len() as int) == a.packets@); assert(b.packets@ =~= b.packets@.take(a.packets@.len() as int) + n); }
                assert forall|k: int| 0 <= k < b.packets@.len() implies #[trigger] b.packets@[k] == h2[f2.len() + k] by { if k >= a.packets@.len() { assert(h2[f2.len() + k] == n[k - a.packets@.len()]); } else { assert(a.packets@[k] == h[f.len() + k]); } }
            }
            Tx::Out(r, t) => {
                if a.sent_packet@.len() == 0 {
                    assert forall|k: int| 0 <= k < f2.len() implies but_number(h2[k], #[trigger] f2[k]) by { if k >= f.len() { assert(f2[k] == r[k - f.len()]); assert(a.packets@[k - f.len()] == h[k]); } else { assert(f2[k] == f[k]); } }
                }
            }
            Tx::Ack(s, t) => {}
            _ => {}
        }
    }
}
/// every waiting message is one that was put
pub open spec fn items_put(h: Seq<FrameSetPacket>, s: Seq<Item>) -> bool { forall|i: int| 0 <= i < s.len() ==> was_put(h, (#[trigger] s[i]).0) }
pub proof fn put_more(h: Seq<FrameSetPacket>, n: Seq<FrameSetPacket>, g: FrameSetPacket)
    requires was_put(h, g),
    ensures was_put(h + n, g),
{ let k = choose|k: int| 0 <= k < h.len() && but_number(#[trigger] h[k], g); assert((h + n)[k] == h[k]); }
pub proof fn put_again(h: Seq<FrameSetPacket>, f: FrameSetPacket, g: FrameSetPacket)
    requires was_put(h, f), but_number(f, g),
    ensures was_put(h, g),
{ let k = choose|k: int| 0 <= k < h.len() && but_number(#[trigger] h[k], f); assert(but_number(h[k], g)); }
pub proof fn same_one(a: SendQ, e: Tx, b: SendQ, h: Seq<FrameSetPacket>, f: Seq<FrameSetPacket>)
    requires tx_step(a, e, b), items_put(h, a.sent_packet@), once_each(h, f, a.packets@), !(e is Put),
    ensures items_put(h, b.sent_packet@), e is Out ==> all_put(h, e->Out_0) && (a.sent_packet@.len() > 0 ==> forall|k: int| 0 <= k < e->Out_0.len() ==> reliable(#[trigger] e->Out_0[k])),
{
    hide(all_apart); hide(was_put);
    let s = a.sent_packet@; let t = b.sent_packet@;
    match e {
        Tx::Nack(n, tick) => {
            assert forall|j: int| 0 <= j < t.len() implies was_put(h, (#[trigger] t[j]).0) by { assert(nack_item(s[j], t[j], a.sequence_number, n, tick)); put_again(h, s[j].0, t[j].0); }
        }
        Tx::Tick(tick) => {
            assert forall|j: int| 0 <= j < t.len() implies was_put(h, (#[trigger] t[j]).0) by { assert(tick_item(s[j], t[j], a.sequence_number, a.rto, tick)); put_again(h, s[j].0, t[j].0); }
        }
        Tx::Ack(n, tick) => {
            if n < a.sequence_number {
                let m = choose|m: Seq<Item>| ack_by(a, b, n, tick, m);
                assert forall|j: int| 0 <= j < t.len() implies was_put(h, (#[trigger] t[j]).0) by { let i = ack_from(a, b, n, tick, m, j); put_again(h, s[i].0, t[j].0); }
            }
        }
        Tx::Out(r, tick) => {
            if s.len() > 0 {
                let p = choose|p: Seq<int>| resend_by(a, b, r, tick, p);
                assert forall|j: int| 0 <= j < t.len() implies was_put(h, (#[trigger] t[j]).0) && reliable(t[j].0) by {
                    assert(resent(s[p[j]], t[j], a.sequence_number, a.rto, tick)); put_again(h, s[p[j]].0, t[j].0);
                    assert(item_ok(t[j], b.mtu, b.sequence_number));
                }
                assert forall|k: int| 0 <= k < r.len() implies was_put(h, #[trigger] r[k]) && reliable(r[k]) by { assert(is_one_of(s, t, p, a.rto, tick, r[k])); }
            } else {
                assert forall|k: int| 0 <= k < r.len() implies was_put(h, #[trigger] r[k]) by { assert(a.packets@[k] == h[f.len() + k]); assert(but_number(h[f.len() + k], r[k])); reveal(was_put); }
                let rel = r.filter(|f: FrameSetPacket| reliable(f));
                assert forall|j: int| 0 <= j < t.len() implies was_put(h, (#[trigger] t[j]).0) by { assert(fresh_item(t[j], rel[j], tick)); r.lemma_filter_contains_rev(|f: FrameSetPacket| reliable(f), rel[j]); }
            }
        }
        Tx::Put(rel, buf) => {}
    }
}
/// C12: whatever is handed out, ever, differs from what was put in its number alone; C11: only reliable messages are sent again
pub proof fn same_history(q: Seq<SendQ>, e: Seq<Tx>)
    requires tx_history(q, e),
    ensures all_put(put_all(q, e), sent_all(e)), items_put(put_all(q, e), q.last().sent_packet@),
    decreases e.len(),
{
    hide(was_put); hide(once_each);
    if e.len() > 0 {
        tx_shorter(q, e);
        let q1 = q.drop_last(); let e1 = e.drop_last(); let a = q[e.len() - 1]; let b = q.last();
        same_history(q1, e1);
        once_history(q1, e1);
        let h = put_all(q1, e1); let h2 = put_all(q, e); let o = sent_all(e1);
        match e.last() {
            Tx::Put(rel, buf) => {
                let n = b.packets@.skip(a.packets@.len() as int);
                assert forall|i: int| 0 <= i < o.len() implies was_put(h2, #[trigger] o[i]) by { put_more(h, n, o[i]); }
                assert forall|i: int| 0 <= i < b.sent_packet@.len() implies was_put(h2, (#[trigger] b.sent_packet@[i]).0) by { assert(b.sent_packet@ == a.sent_packet@); put_more(h, n, a.sent_packet@[i].0); }
            }
            Tx::Out(r, t) => {
                same_one(a, e.last(), b, h, first_all(q1, e1));
                let o2 = sent_all(e);
                assert forall|i: int| 0 <= i < o2.len() implies was_put(h2, #[trigger] o2[i]) by { if i < o.len() { assert(o2[i] == o[i]); } else { assert(o2[i] == r[i - o.len()]); } }
            }
            _ => { same_one(a, e.last(), b, h, first_all(q1, e1)); }
        }
    }
}
/// y is the same message as x, later
pub open spec fn follows(x: Item, y: Item) -> bool { but_number(x.0, y.0) && forall|n: u32| #[trigger] x.4@.contains(n) ==> y.4@.contains(n) }
pub open spec fn there(x: Item, s: Seq<Item>) -> bool { exists|j: int| 0 <= j < s.len() && follows(x, #[trigger] s[j]) }
/// an acknowledgement of one of x's numbers
pub open spec fn answers(x: Item, a: SendQ, e: Tx) -> bool { e is Ack && exists|i: int| 0 <= i < a.sent_packet@.len() && follows(x, #[trigger] a.sent_packet@[i]) && holds(a.sent_packet@[i], e->Ack_0) }
pub proof fn push_keeps(x: Item, y: Item, n: u32)
    requires y.4@ == x.4@.push(n),
    ensures forall|k: u32| #[trigger] x.4@.contains(k) ==> y.4@.contains(k), forall|k: u32| #[trigger] y.4@.contains(k) ==> x.4@.contains(k) || k == n,
{ push_contains(x.4@, n); }
pub proof fn kept_one(a: SendQ, e: Tx, b: SendQ, i: int)
    requires tx_step(a, e, b), 0 <= i < a.sent_packet@.len(), !(e is Ack && holds(a.sent_packet@[i], e->Ack_0)),
    ensures there(a.sent_packet@[i], b.sent_packet@),
{
    hide(items_ok);
    let s = a.sent_packet@; let t = b.sent_packet@; let x = s[i];
    match e {
        Tx::Put(rel, buf) => { assert(follows(x, t[i])); }
        Tx::Nack(n, tick) => { assert(nack_item(x, t[i], a.sequence_number, n, tick)); if hit(x, n) { push_keeps(x, t[i], t[i].0.sequence_number); } assert(follows(x, t[i])); }
        Tx::Tick(tick) => { assert(tick_item(x, t[i], a.sequence_number, a.rto, tick)); if due(x, a.rto, tick) { push_keeps(x, t[i], t[i].0.sequence_number); } assert(follows(x, t[i])); }
        Tx::Ack(n, tick) => {
            if n < a.sequence_number {
                let m = choose|m: Seq<Item>| ack_by(a, b, n, tick, m);
                let y = m[i];
                assert(ack_item(x, y, a.sequence_number, a.ack_sequence_number, n, tick));
                if super::arq::skipped(x, a.ack_sequence_number, n) { push_keeps(x, y, y.0.sequence_number); }
                assert(follows(x, y) && !holds(y, n));
                if t == m && (forall|i: int| 0 <= i < m.len() ==> !holds(#[trigger] m[i], n)) { assert(follows(x, t[i])); }
                else {
                    let k = choose|k: int| 0 <= k < m.len() && holds(#[trigger] m[k], n) && t == m.remove(k) && forall|i: int| 0 <= i < m.len() && i != k ==> !holds(#[trigger] m[i], n);
                    assert(i != k);
                    if i < k { assert(t[i] == y); } else { assert(t[i - 1] == y); }
                }
            } else { assert(follows(x, t[i])); }
        }
        Tx::Out(r, tick) => {
            let p = choose|p: Seq<int>| resend_by(a, b, r, tick, p);
            assert(p.contains(i)); let j = p.index_of(i);
            assert(resent(s[p[j]], t[j], a.sequence_number, a.rto, tick));
            if due(x, a.rto, tick) { push_keeps(x, t[j], t[j].0.sequence_number); }
            assert(follows(x, t[j]));
        }
    }
}
/// C11: a message once sent is still there unless one of the numbers it was given was acknowledged meanwhile
pub proof fn kept_history(q: Seq<SendQ>, e: Seq<Tx>, i: int, x: Item, j: int)
    requires tx_history(q, e), 0 <= i <= j <= e.len(), q[i].sent_packet@.contains(x), forall|k: int| i <= k < j ==> !answers(x, q[k], #[trigger] e[k]),
    ensures there(x, q[j].sent_packet@),
    decreases j - i,
{
    hide(tx_step);
    if i == j { let k = q[i].sent_packet@.index_of(x); assert(follows(x, q[i].sent_packet@[k])); }
    else {
        kept_history(q, e, i, x, j - 1);
        let a = q[j - 1]; let b = q[j];
        let k = choose|k: int| 0 <= k < a.sent_packet@.len() && follows(x, #[trigger] a.sent_packet@[k]);
        let y = a.sent_packet@[k];
        assert(tx_step(q[j - 1], e[j - 1], q[j - 1 + 1]));
        assert(!answers(x, q[j - 1], e[j - 1]));
        kept_one(a, e[j - 1], b, k);
        let l = choose|l: int| 0 <= l < b.sent_packet@.len() && follows(y, #[trigger] b.sent_packet@[l]);
        assert(follows(x, b.sent_packet@[l]));
    }
}
pub open spec fn none_holds(q: SendQ, s: u32) -> bool { s < q.sequence_number && forall|i: int| 0 <= i < q.sent_packet@.len() ==> !holds(#[trigger] q.sent_packet@[i], s) }
pub proof fn gone_one(a: SendQ, e: Tx, b: SendQ, s: u32)
    requires tx_step(a, e, b), s < a.sequence_number, none_holds(a, s) || (e is Ack && e->Ack_0 == s),
    ensures none_holds(b, s),
{
    hide(items_ok);
    let o = a.sent_packet@; let t = b.sent_packet@;
    match e {
        Tx::Put(rel, buf) => {}
        Tx::Nack(n, tick) => { assert forall|i: int| 0 <= i < t.len() implies !holds(#[trigger] t[i], s) by { assert(nack_item(o[i], t[i], a.sequence_number, n, tick)); if hit(o[i], n) { push_keeps(o[i], t[i], t[i].0.sequence_number); } } }
        Tx::Tick(tick) => { assert forall|i: int| 0 <= i < t.len() implies !holds(#[trigger] t[i], s) by { assert(tick_item(o[i], t[i], a.sequence_number, a.rto, tick)); if due(o[i], a.rto, tick) { push_keeps(o[i], t[i], t[i].0.sequence_number); } } }
        Tx::Ack(n, tick) => {
            if n < a.sequence_number {
                let m = choose|m: Seq<Item>| ack_by(a, b, n, tick, m);
                assert forall|j: int| 0 <= j < t.len() implies !holds(#[trigger] t[j], s) by {
                    let i = ack_from(a, b, n, tick, m, j);
                    if super::arq::skipped(o[i], a.ack_sequence_number, n) { push_keeps(o[i], t[j], t[j].0.sequence_number); }
                    if n == s { gone_ack(a, b, n, tick, m, j); }
                }
            }
        }
        Tx::Out(r, tick) => {
            if o.len() > 0 {
                let p = choose|p: Seq<int>| resend_by(a, b, r, tick, p);
                assert forall|i: int| 0 <= i < t.len() implies !holds(#[trigger] t[i], s) by { assert(resent(o[p[i]], t[i], a.sequence_number, a.rto, tick)); if due(o[p[i]], a.rto, tick) { push_keeps(o[p[i]], t[i], t[i].0.sequence_number); } }
            } else {
                let rel = r.filter(|f: FrameSetPacket| reliable(f));
                assert forall|i: int| 0 <= i < t.len() implies !holds(#[trigger] t[i], s) by {
                    assert(fresh_item(t[i], rel[i], tick));
                    r.lemma_filter_contains_rev(|f: FrameSetPacket| reliable(f), rel[i]);
                    let k = r.index_of(rel[i]);
                    assert(r[k] == rel[i]);
                    assert(r[k] == renum(a.packets@[k], (a.sequence_number + k) as u32));
                }
            }
        }
    }
}
pub proof fn gone_ack(a: SendQ, b: SendQ, s: u32, t: i64, m: Seq<Item>, j: int)
    requires ack_by(a, b, s, t, m), 0 <= j < b.sent_packet@.len(),
    ensures !holds(b.sent_packet@[j], s),
{
    if b.sent_packet@ == m && (forall|i: int| 0 <= i < m.len() ==> !holds(#[trigger] m[i], s)) {}
    else {
        let k = choose|k: int| 0 <= k < m.len() && holds(#[trigger] m[k], s) && b.sent_packet@ == m.remove(k) && forall|i: int| 0 <= i < m.len() && i != k ==> !holds(#[trigger] m[i], s);
        assert(b.sent_packet@[j] == m[if j < k { j } else { j + 1 }]);
    }
}
/// C11: an acknowledged number is gone for good: no message waits under it again
pub proof fn gone_history(q: Seq<SendQ>, e: Seq<Tx>, i: int, s: u32, j: int)
    requires tx_history(q, e), 0 <= i < j <= e.len(), e[i] is Ack, e[i]->Ack_0 == s, s < q[i].sequence_number,
    ensures none_holds(q[j], s),
    decreases j - i,
{
    hide(tx_step); hide(none_holds);
    assert(tx_step(q[j - 1], e[j - 1], q[j - 1 + 1]));
    if j == i + 1 { gone_one(q[i], e[i], q[j], s); }
    else { gone_history(q, e, i, s, j - 1); reveal(none_holds); gone_one(q[j - 1], e[j - 1], q[j], s); }
}
}
