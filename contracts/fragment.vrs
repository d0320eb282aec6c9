@@ module fragment drop-use=std::collections
@@ top
use super::shim::*;
use super::wire::*;
use super::arq::*;
use std::collections::HashMap;
broadcast use vstd::std_specs::hash::group_hash_axioms;

/// ks lists s in strictly ascending order
pub open spec fn is_asc(ks: Seq<u32>, s: Set<u32>) -> bool {
    (forall|i: int, j: int| 0 <= i < j < ks.len() ==> ks[i] < ks[j]) && ks.to_set() == s
}
pub open spec fn asc(s: Set<u32>) -> Seq<u32> { choose|ks: Seq<u32>| is_asc(ks, s) }
pub proof fn asc_unique(a: Seq<u32>, b: Seq<u32>, s: Set<u32>)
    requires is_asc(a, s), is_asc(b, s),
    ensures a == b,
    decreases a.len(),
{
    assert(a.no_duplicates());
    assert(b.no_duplicates());
    a.unique_seq_to_set();
    b.unique_seq_to_set();
    assert(a.len() == b.len());
    if a.len() > 0 {
        let n = a.len() as int;
        assert(s.contains(a[n - 1])) by { assert(a.to_set().contains(a[n - 1])); }
        assert(s.contains(b[n - 1])) by { assert(b.to_set().contains(b[n - 1])); }
        assert(b.contains(a[n - 1])) by { assert(b.to_set().contains(a[n - 1])); }
        assert(a.contains(b[n - 1])) by { assert(a.to_set().contains(b[n - 1])); }
        assert(a[n - 1] == b[n - 1]);
        let s2 = s.remove(a[n - 1]);
        let a2 = a.drop_last();
        let b2 = b.drop_last();
        assert forall|x: u32| #[trigger] a2.to_set().contains(x) <==> s2.contains(x) by {
            if a2.contains(x) { let i = choose|i: int| 0 <= i < a2.len() && a2[i] == x; assert(a[i] == x); assert(a.to_set().contains(x)); }
            if s2.contains(x) { assert(a.to_set().contains(x)); let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(a2[i] == x); }
        }
        assert forall|x: u32| #[trigger] b2.to_set().contains(x) <==> s2.contains(x) by {
            if b2.contains(x) { let i = choose|i: int| 0 <= i < b2.len() && b2[i] == x; assert(b[i] == x); assert(b.to_set().contains(x)); }
            if s2.contains(x) { assert(b.to_set().contains(x)); let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(b2[i] == x); }
        }
        assert(a2.to_set() =~= s2);
        assert(b2.to_set() =~= s2);
        asc_unique(a2, b2, s2);
        assert(a =~= a2.push(a[n - 1]));
        assert(b =~= b2.push(b[n - 1]));
    } else {
        assert(a =~= b);
    }
}
pub proof fn asc_is(ks: Seq<u32>, s: Set<u32>)
    requires is_asc(ks, s),
    ensures asc(s) == ks,
{ asc_unique(asc(s), ks, s); }
/// payloads in the order of ks
pub open spec fn cat(ks: Seq<u32>, m: Map<u32, FrameSetPacket>) -> Seq<u8>
    decreases ks.len(),
{ if ks.len() == 0 { Seq::empty() } else { cat(ks.drop_last(), m) + m[ks.last()].data@ } }
/// all payloads in ascending fragment index order
pub open spec fn joined(m: Map<u32, FrameSetPacket>) -> Seq<u8> { cat(asc(m.dom()), m) }

impl Fragment {
    pub open spec fn wf(&self) -> bool {
        &&& forall|k: u32| #[trigger] self.frames@.contains_key(k) ==> self.frames@[k].fragment_index == k && self.frames@[k].compound_size == self.compound_size
        &&& self.frames@.dom().finite()
        &&& self.frames@.len() <= self.compound_size
    }
    pub open spec fn is_full(&self) -> bool { self.frames@.len() == self.compound_size }
}
/// p is the message rebuilt from compound a
pub open spec fn merged(a: Fragment, p: FrameSetPacket) -> bool {
    &&& p.data@ == joined(a.frames@)
    &&& p.ordered_frame_index == a.ordered_frame_index
    &&& rel_code(p.flags) == rel_code(a.flags) && !frag_bit(p.flags)
}
@@ fn Fragment::new
    ensures r.flags == flags, r.compound_size == compound_size, r.ordered_frame_index == ordered_frame_index,
        r.frames@ == Map::<u32, FrameSetPacket>::empty(),
@@ fn Fragment::full
    requires self.frames@.dom().finite(),
    ensures r == self.is_full(),
@@ fn Fragment::insert
    requires old(self).wf(),
    ensures final(self).wf(), final(self).flags == old(self).flags, final(self).compound_size == old(self).compound_size,
        final(self).ordered_frame_index == old(self).ordered_frame_index,
        final(self).frames@ == (
            if old(self).is_full() || frame.compound_size != old(self).compound_size || old(self).frames@.contains_key(frame.fragment_index) { old(self).frames@ }
            else { old(self).frames@.insert(frame.fragment_index, frame) }),
@@ fn Fragment::merge
    requires old(self).wf(), old(self).frames@.len() > 0,
    ensures *final(self) == *old(self), r is Ok <==> rel_code(old(self).flags) <= 4,
        r is Ok ==> merged(*old(self), r->Ok_0),
@@@ loops for
@@@ loop 0 bind it
@@@ loop 0 inv
    invariant self.frames@ == old(self).frames@, is_asc(it.seq(), self.frames@.dom()),
        buf@ == cat(it.seq().take(it.index@), self.frames@),
@@@ loop 0 body-start
    proof {
        let ks = it.seq();
        let n = it.index@;
        assert(ks.take(n + 1).drop_last() =~= ks.take(n));
        assert(ks.to_set().contains(ks[n]));
    }
@@@ loop 0 before
    proof {
        assert(is_asc(keys@, self.frames@.dom()));
        asc_is(keys@, self.frames@.dom());
        assert(keys@.take(keys@.len() as int) =~= keys@);
    }
@@ top
impl FragmentQ {
    pub open spec fn wf(&self) -> bool {
        forall|k: u16| #[trigger] self.fragments@.contains_key(k) ==> self.fragments@[k].wf() && self.fragments@[k].compound_size > 0
    }
    /// every compound in the queue has a known reliability
    pub open spec fn known(&self) -> bool {
        forall|k: u16| #[trigger] self.fragments@.contains_key(k) ==> rel_code(self.fragments@[k].flags) <= 4
    }
}
/// ids lists exactly the complete compounds of m
pub open spec fn full_ids(ids: Seq<u16>, m: Map<u16, Fragment>) -> bool {
    &&& ids.no_duplicates()
    &&& forall|k: u16| #[trigger] ids.contains(k) <==> m.contains_key(k) && m[k].is_full()
}
pub open spec fn flushed(ids: Seq<u16>, m: Map<u16, Fragment>, r: Seq<FrameSetPacket>) -> bool {
    full_ids(ids, m) && r.len() == ids.len() && forall|j: int| 0 <= j < r.len() ==> merged(m[ids[j]], #[trigger] r[j])
}
pub open spec fn is_flush(m: Map<u16, Fragment>, r: Seq<FrameSetPacket>) -> bool { exists|ids: Seq<u16>| flushed(ids, m, r) }
@@ fn FragmentQ::new
    ensures r.fragments@ == Map::<u16, Fragment>::empty(),
@@ fn FragmentQ::insert
    requires old(self).wf(),
    ensures final(self).wf(),
        // other compounds are untouched
        forall|k: u16| #![trigger final(self).fragments@.contains_key(k)] #![trigger final(self).fragments@[k]] k != frame.compound_id ==>
            (final(self).fragments@.contains_key(k) <==> old(self).fragments@.contains_key(k))
            && (old(self).fragments@.contains_key(k) ==> final(self).fragments@[k] == old(self).fragments@[k]),
        ({
            let id = frame.compound_id;
            let a = old(self).fragments@;
            let b = final(self).fragments@;
            if frame.compound_size == 0 { b == a }
            else if a.contains_key(id) {
                &&& b.contains_key(id) && b[id].flags == a[id].flags && b[id].compound_size == a[id].compound_size
                &&& b[id].ordered_frame_index == a[id].ordered_frame_index
                &&& b[id].frames@ == (if a[id].is_full() || frame.compound_size != a[id].compound_size || a[id].frames@.contains_key(frame.fragment_index) { a[id].frames@ }
                        else { a[id].frames@.insert(frame.fragment_index, frame) })
            } else {
                &&& b.contains_key(id) && b[id].flags == frame.flags && b[id].compound_size == frame.compound_size
                &&& b[id].ordered_frame_index == frame.ordered_frame_index
                &&& b[id].frames@ == Map::<u32, FrameSetPacket>::empty().insert(frame.fragment_index, frame)
            }
        }),
@@ fn FragmentQ::flush
    requires old(self).wf(), old(self).known(),
    ensures final(self).wf(), final(self).known(), r is Ok,
        is_flush(old(self).fragments@, r->Ok_0@),
        forall|k: u16| #[trigger] final(self).fragments@.contains_key(k) <==> old(self).fragments@.contains_key(k) && !old(self).fragments@[k].is_full(),
        forall|k: u16| #[trigger] final(self).fragments@.contains_key(k) ==> final(self).fragments@[k] == old(self).fragments@[k],
@@@ start
    let ghost mut ids: Seq<u16> = Seq::empty();
@@@ loops for
@@@ loop 0 bind it
@@@ loop 0 before
    let ghost ks = keys@;
@@@ loop 0 inv
    invariant it.seq() == ks, it.seq().no_duplicates(), it.seq().to_set() == old(self).fragments@.dom(),
        old(self).wf(), old(self).known(),
        ids.no_duplicates(), ret@.len() == ids.len(),
        forall|k: u16| #[trigger] ids.contains(k) <==> it.seq().take(it.index@).contains(k) && old(self).fragments@[k].is_full(),
        forall|j: int| 0 <= j < ret@.len() ==> merged(old(self).fragments@[ids[j]], #[trigger] ret@[j]),
        forall|k: u16| #[trigger] self.fragments@.contains_key(k) <==> old(self).fragments@.contains_key(k) && !ids.contains(k),
        forall|k: u16| #[trigger] self.fragments@.contains_key(k) ==> self.fragments@[k] == old(self).fragments@[k],
@@@ loop 0 body-start
    let ghost n = it.index@;
    proof {
        assert(it.seq().to_set().contains(it.seq()[n]));
        take_step(it.seq(), n);
    }
@@@ loop 0 body-end
    proof {
        if old(self).fragments@[i].is_full() {
            let ids0 = ids;
            ids = ids.push(i);
            push_contains(ids0, i);
        }
    }
@@@ loop 0 after
    proof {
        take_all(ks);
        assert forall|k: u16| #[trigger] ids.contains(k) <==> old(self).fragments@.contains_key(k) && old(self).fragments@[k].is_full() by {
            assert(ks.contains(k) <==> ks.to_set().contains(k));
        }
        assert(flushed(ids, old(self).fragments@, ret@));
        assert(is_flush(old(self).fragments@, ret@));
    }
@@ fn FragmentQ::size
    ensures r == self.fragments@.len(),
