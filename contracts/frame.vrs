@@ module arq drop-use=std::net drop-use=std::collections drop-use=crate::raknet_log_debug
@@ top
use super::shim::*;
use super::wire::*;
use std::net::SocketAddr;
use std::collections::HashMap;

// ---- data frames -----------------------------------------------------------------------------
pub open spec fn rel_code(flags: u8) -> u8 { (flags & 224) >> 5 }
pub open spec fn rel_num(r: Reliability) -> u8 {
    match r {
        Reliability::Unreliable => 0, Reliability::UnreliableSequenced => 1, Reliability::Reliable => 2,
        Reliability::ReliableOrdered => 3, Reliability::ReliableSequenced => 4,
    }
}
pub open spec fn code_rel(c: u8) -> bool { c == 2 || c == 3 || c == 4 }
pub open spec fn code_seq(c: u8) -> bool { c == 1 || c == 4 }
pub open spec fn code_ord(c: u8) -> bool { c == 1 || c == 3 || c == 4 }
pub open spec fn frag_bit(flags: u8) -> bool { (flags & 16) != 0 }
pub open spec fn opt(b: bool, s: Seq<u8>) -> Seq<u8> { if b { s } else { Seq::empty() } }
/// one frame inside a data datagram
pub open spec fn enc_body(f: FrameSetPacket) -> Seq<u8> {
    seq![f.flags] + be16((f.length_in_bytes * 8) as u16)
        + opt(code_rel(rel_code(f.flags)), le24(f.reliable_frame_index))
        + opt(code_seq(rel_code(f.flags)), le24(f.sequenced_frame_index))
        + opt(code_ord(rel_code(f.flags)), le24(f.ordered_frame_index) + seq![f.order_channel])
        + opt(frag_bit(f.flags), be32(f.compound_size) + be16(f.compound_id) + be32(f.fragment_index))
        + f.data@
}
pub open spec fn enc_head(f: FrameSetPacket) -> Seq<u8> {
    seq![if frag_bit(f.flags) && f.fragment_index != 0 { 0x8cu8 } else { 0x84u8 }] + le24(f.sequence_number)
}
/// a whole data datagram with one frame
pub open spec fn enc_frame(f: FrameSetPacket) -> Seq<u8> { enc_head(f) + enc_body(f) }
pub open spec fn hdr_len(flags: u8) -> int {
    3 + (if code_rel(rel_code(flags)) { 3int } else { 0 }) + (if code_seq(rel_code(flags)) { 3int } else { 0 })
        + (if code_ord(rel_code(flags)) { 4int } else { 0 }) + (if frag_bit(flags) { 10int } else { 0 })
}
pub open spec fn be16_val(s: Seq<u8>) -> u16 { ((s[0] as u16) << 8) | (s[1] as u16) }
pub broadcast proof fn be16_val_of(v: u16)
    ensures be16_val(#[trigger] be16(v)) == v,
{ assert(((((v >> 8) & 0xff) as u8 as u16) << 8) | ((v & 0xff) as u8 as u16) == v) by (bit_vector); }
/// where the frame that starts at off ends; None: unknown reliability or cut short
pub open spec fn frame_end(d: Seq<u8>, off: int) -> Option<int> {
    if off < 0 || off + 3 > d.len() || rel_code(d[off]) > 4 { None } else {
        let e = off + hdr_len(d[off]) + (be16_val(cut(d, off + 1, 2)) / 8) as int;
        if e > d.len() { None } else { Some(e) }
    }
}
/// frame f is what stands at off (whole datagram d)
pub open spec fn frame_at(d: Seq<u8>, off: int, f: FrameSetPacket) -> bool {
    let fl = d[off];
    let c = rel_code(fl);
    let o1 = off + 3;
    let o2 = o1 + (if code_rel(c) { 3int } else { 0 });
    let o3 = o2 + (if code_seq(c) { 3int } else { 0 });
    let o4 = o3 + (if code_ord(c) { 4int } else { 0 });
    let o5 = o4 + (if frag_bit(fl) { 10int } else { 0 });
    &&& f.id == d[0]
    &&& le24(f.sequence_number) == cut(d, 1, 3) && f.sequence_number < 0x1000000
    &&& f.flags == fl
    &&& f.length_in_bytes == be16_val(cut(d, off + 1, 2)) / 8
    &&& if code_rel(c) { le24(f.reliable_frame_index) == cut(d, o1, 3) && f.reliable_frame_index < 0x1000000 } else { f.reliable_frame_index == 0 }
    &&& if code_seq(c) { le24(f.sequenced_frame_index) == cut(d, o2, 3) && f.sequenced_frame_index < 0x1000000 } else { f.sequenced_frame_index == 0 }
    &&& if code_ord(c) {
            le24(f.ordered_frame_index) == cut(d, o3, 3) && f.ordered_frame_index < 0x1000000 && f.order_channel == d[o3 + 3]
        } else { f.ordered_frame_index == 0 && f.order_channel == 0 }
    &&& if frag_bit(fl) {
            be32(f.compound_size) == cut(d, o4, 4) && be16(f.compound_id) == cut(d, o4 + 4, 2) && be32(f.fragment_index) == cut(d, o4 + 6, 4)
        } else { f.compound_size == 0 && f.compound_id == 0 && f.fragment_index == 0 }
    &&& f.data@ == cut(d, o5, f.length_in_bytes as int)
}
/// start offsets of the frames from off to the end of the datagram; None: some frame is not well formed
pub open spec fn chain(d: Seq<u8>, off: int) -> Option<Seq<int>>
    decreases d.len() - off when 0 <= off
{
    if off >= d.len() { Some(Seq::empty()) } else {
        match frame_end(d, off) {
            None => None,
            Some(e) => match chain(d, e) { None => None, Some(s) => Some(seq![off] + s) },
        }
    }
}
pub open spec fn datagram_ok(d: Seq<u8>) -> bool { d.len() >= 4 && chain(d, 4) is Some }
pub open spec fn datagram_is(d: Seq<u8>, v: FrameVec) -> bool {
    &&& v.id == d[0] && le24(v.sequence_number) == cut(d, 1, 3) && v.sequence_number < 0x1000000
    &&& v.frames@.len() == chain(d, 4)->Some_0.len()
    &&& forall|i: int| 0 <= i < v.frames@.len() ==> frame_at(d, chain(d, 4)->Some_0[i], #[trigger] v.frames@[i])
}
/// a frame that can travel: known reliability, 24-bit numbers, length field and payload agree
pub open spec fn frame_wf(f: FrameSetPacket) -> bool {
    &&& rel_code(f.flags) <= 4
    &&& f.length_in_bytes == f.data@.len() && f.length_in_bytes * 8 <= 65535
    &&& f.sequence_number < 0x1000000 && f.reliable_frame_index < 0x1000000 && f.sequenced_frame_index < 0x1000000 && f.ordered_frame_index < 0x1000000
}
/// the fields a frame of its kind transports are the same
pub open spec fn same_frame(a: FrameSetPacket, b: FrameSetPacket) -> bool {
    let c = rel_code(a.flags);
    &&& a.flags == b.flags && a.length_in_bytes == b.length_in_bytes && a.data@ == b.data@
    &&& code_rel(c) ==> a.reliable_frame_index == b.reliable_frame_index
    &&& code_seq(c) ==> a.sequenced_frame_index == b.sequenced_frame_index
    &&& code_ord(c) ==> a.ordered_frame_index == b.ordered_frame_index && a.order_channel == b.order_channel
    &&& frag_bit(a.flags) ==> a.compound_size == b.compound_size && a.compound_id == b.compound_id && a.fragment_index == b.fragment_index
}
pub proof fn enc_body_len(f: FrameSetPacket)
    ensures enc_body(f).len() == hdr_len(f.flags) + f.data@.len(), enc_body(f)[0] == f.flags, hdr_len(f.flags) <= 23,
        enc_frame(f).len() <= 27 + f.data@.len(),
{}
/// a well-formed frame standing at off in d is read back field by field
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
pub proof fn body_roundtrip(d: Seq<u8>, off: int, f: FrameSetPacket, r: FrameSetPacket)
    requires frame_wf(f), 4 <= off, off + enc_body(f).len() <= d.len(), cut(d, off, enc_body(f).len() as int) == enc_body(f),
    ensures frame_end(d, off) == Some(off + enc_body(f).len()), frame_at(d, off, r) ==> same_frame(f, r),
{
    let b = enc_body(f);
    let w = cut(d, off, b.len() as int);
    let fl = f.flags;
    let c = rel_code(fl);
    enc_body_len(f);
    assert(d[off] == w[0]);
    assert(cut(d, off + 1, 2) =~= w.subrange(1, 3));
    assert(b.subrange(1, 3) =~= be16((f.length_in_bytes * 8) as u16));
    be16_val_of((f.length_in_bytes * 8) as u16);
    let o1 = 3int;
    let o2 = o1 + (if code_rel(c) { 3int } else { 0 });
    let o3 = o2 + (if code_seq(c) { 3int } else { 0 });
    let o4 = o3 + (if code_ord(c) { 4int } else { 0 });
    let o5 = o4 + (if frag_bit(fl) { 10int } else { 0 });
    if frame_at(d, off, r) {
        if code_rel(c) {
            assert(cut(d, off + o1, 3) =~= w.subrange(o1, o1 + 3));
            assert(b.subrange(o1, o1 + 3) =~= le24(f.reliable_frame_index));
            le24_inj(f.reliable_frame_index, r.reliable_frame_index);
        }
        if code_seq(c) {
            assert(cut(d, off + o2, 3) =~= w.subrange(o2, o2 + 3));
            assert(b.subrange(o2, o2 + 3) =~= le24(f.sequenced_frame_index));
            le24_inj(f.sequenced_frame_index, r.sequenced_frame_index);
        }
        if code_ord(c) {
            assert(cut(d, off + o3, 3) =~= w.subrange(o3, o3 + 3));
            assert(b.subrange(o3, o3 + 3) =~= le24(f.ordered_frame_index));
            le24_inj(f.ordered_frame_index, r.ordered_frame_index);
            assert(d[off + o3 + 3] == w[o3 + 3]);
            assert(b[o3 + 3] == f.order_channel);
        }
        if frag_bit(fl) {
            assert(cut(d, off + o4, 4) =~= w.subrange(o4, o4 + 4));
            assert(b.subrange(o4, o4 + 4) =~= be32(f.compound_size));
            be32_inj(f.compound_size, r.compound_size);
            assert(cut(d, off + o4 + 4, 2) =~= w.subrange(o4 + 4, o4 + 6));
            assert(b.subrange(o4 + 4, o4 + 6) =~= be16(f.compound_id));
            be16_inj(f.compound_id, r.compound_id);
            assert(cut(d, off + o4 + 6, 4) =~= w.subrange(o4 + 6, o4 + 10));
            assert(b.subrange(o4 + 6, o4 + 10) =~= be32(f.fragment_index));
            be32_inj(f.fragment_index, r.fragment_index);
        }
        assert(cut(d, off + o5, f.length_in_bytes as int) =~= w.subrange(o5, b.len() as int));
        assert(b.subrange(o5, b.len() as int) =~= f.data@);
    }
}
pub open spec fn enc_bodies(fs: Seq<FrameSetPacket>) -> Seq<u8>
    decreases fs.len(),
{ if fs.len() == 0 { Seq::empty() } else { enc_body(fs[0]) + enc_bodies(fs.drop_first()) } }
/// C04: a header followed by any frames parses into exactly those frames, in order
pub proof fn bodies_roundtrip(d: Seq<u8>, off: int, fs: Seq<FrameSetPacket>, rs: Seq<FrameSetPacket>)
    requires forall|i: int| 0 <= i < fs.len() ==> frame_wf(#[trigger] fs[i]),
        4 <= off, d.len() == off + enc_bodies(fs).len(), d.subrange(off, d.len() as int) == enc_bodies(fs),
    ensures chain(d, off) is Some, chain(d, off)->Some_0.len() == fs.len(),
        rs.len() == fs.len() && (forall|i: int| 0 <= i < rs.len() ==> frame_at(d, chain(d, off)->Some_0[i], #[trigger] rs[i]))
            ==> forall|i: int| 0 <= i < fs.len() ==> #[trigger] same_frame(fs[i], rs[i]),
    decreases fs.len(),
{
    if fs.len() > 0 {
        let b = enc_body(fs[0]);
        let t = fs.drop_first();
        assert(cut(d, off, b.len() as int) =~= d.subrange(off, d.len() as int).subrange(0, b.len() as int));
        assert(enc_bodies(fs).subrange(0, b.len() as int) =~= b);
        enc_body_len(fs[0]);
        let e = off + b.len();
        assert(d.subrange(e, d.len() as int) =~= d.subrange(off, d.len() as int).subrange(b.len() as int, d.len() - off));
        assert(enc_bodies(fs).subrange(b.len() as int, enc_bodies(fs).len() as int) =~= enc_bodies(t));
        assert forall|i: int| 0 <= i < t.len() implies frame_wf(#[trigger] t[i]) by { assert(t[i] == fs[i + 1]); }
        let r0 = if rs.len() > 0 { rs[0] } else { fs[0] };
        body_roundtrip(d, off, fs[0], r0);
        let rt = if rs.len() > 0 { rs.drop_first() } else { rs };
        bodies_roundtrip(d, e, t, rt);
        let ch = chain(d, off)->Some_0;
        assert(ch == seq![off] + chain(d, e)->Some_0);
        if rs.len() == fs.len() && (forall|i: int| 0 <= i < rs.len() ==> frame_at(d, ch[i], #[trigger] rs[i])) {
            assert(frame_at(d, ch[0], rs[0]));
            assert forall|i: int| 0 <= i < rt.len() implies frame_at(d, chain(d, e)->Some_0[i], #[trigger] rt[i]) by {
                assert(rt[i] == rs[i + 1]);
                assert(ch[i + 1] == chain(d, e)->Some_0[i]);
            }
            assert forall|i: int| 0 <= i < fs.len() implies #[trigger] same_frame(fs[i], rs[i]) by {
                if i > 0 { assert(same_frame(t[i - 1], rt[i - 1])); }
            }
        }
    }
}
/// C04: parsing what serialize produced gives the frame back
pub proof fn frame_roundtrip(f: FrameSetPacket, v: FrameVec)
    requires frame_wf(f), datagram_ok(enc_frame(f)) ==> datagram_is(enc_frame(f), v),
    ensures datagram_ok(enc_frame(f)), v.frames@.len() == 1, same_frame(f, v.frames@[0]),
        v.sequence_number == f.sequence_number, v.frames@[0].sequence_number == f.sequence_number,
{
    let d = enc_frame(f);
    let fs = seq![f];
    assert(fs.drop_first() =~= Seq::empty());
    assert(enc_bodies(fs.drop_first()) =~= Seq::<u8>::empty());
    assert(enc_bodies(fs) =~= enc_body(f));
    assert(d.subrange(4, d.len() as int) =~= enc_body(f));
    bodies_roundtrip(d, 4, fs, v.frames@);
    assert(cut(d, 1, 3) =~= le24(f.sequence_number));
    le24_inj(f.sequence_number, v.sequence_number);
    assert(frame_at(d, chain(d, 4)->Some_0[0], v.frames@[0]));
    le24_inj(f.sequence_number, v.frames@[0].sequence_number);
    assert(same_frame(fs[0], v.frames@[0]));
}

@@ fn Reliability::to_u8
    ensures r == rel_num(*self),
@@ fn Reliability::from
    ensures r is Ok <==> flags <= 4, r is Ok ==> rel_num(r->Ok_0) == flags,
@@ fn FrameSetPacket::new ret=f
    ensures f.data == data, f.length_in_bytes == data@.len() as u16, f.flags == rel_num(r) << 5, rel_code(f.flags) == rel_num(r),
        !frag_bit(f.flags),
        f.id == 0, f.sequence_number == 0, f.reliable_frame_index == 0, f.sequenced_frame_index == 0, f.ordered_frame_index == 0,
        f.order_channel == 0, f.compound_size == 0, f.compound_id == 0, f.fragment_index == 0,
@@@ start
    proof {
        assert(forall|x: u8| x <= 4 ==> #[trigger] (((x << 5) & 224) >> 5) == x && (x << 5) & 16 == 0) by (bit_vector);
        assert(rel_num(r) <= 4);
    }
@@ fn FrameSetPacket::serialize
    requires self.length_in_bytes * 8 <= 65535,
    ensures r is Ok <==> rel_code(self.flags) <= 4, r is Ok ==> r->Ok_0@ == enc_frame(*self),
@@@ start
    broadcast use fseq_cat;
    proof { assert(0x80u8 | 4u8 == 0x84u8 && 0x84u8 | 8u8 == 0x8cu8) by (bit_vector); }
@@@ before `Ok(writer.get_raw_payload())`
    proof { assert(writer.w() =~= enc_frame(*self)); }
@@ fn FrameSetPacket::is_fragment
    ensures r == frag_bit(self.flags),
@@ fn FrameSetPacket::is_reliable
    ensures r is Ok <==> rel_code(self.flags) <= 4, r is Ok ==> r->Ok_0 == code_rel(rel_code(self.flags)),
@@ fn FrameSetPacket::is_ordered
    ensures r is Ok <==> rel_code(self.flags) <= 4, r is Ok ==> r->Ok_0 == code_ord(rel_code(self.flags)),
@@ fn FrameSetPacket::is_sequenced
    ensures r is Ok <==> rel_code(self.flags) <= 4, r is Ok ==> r->Ok_0 == code_seq(rel_code(self.flags)),
@@ fn FrameSetPacket::reliability
    ensures r is Ok <==> rel_code(self.flags) <= 4, r is Ok ==> rel_num(r->Ok_0) == rel_code(self.flags),
@@ fn FrameVec::new attr=#[verifier::spinoff_prover]#[verifier::rlimit(100)]
    ensures r is Ok <==> datagram_ok(buf@), r is Ok ==> datagram_is(buf@, r->Ok_0),
@@@ start
    let ghost d = buf@;
    let ghost mut starts: Seq<int> = Seq::empty();
    broadcast use be16_val_of;
    proof { le24_all(); }
@@@ loops while
@@@ loop 0 inv
    invariant d == buf@, reader.d() == d, d.len() == size, 4 <= reader.p() <= d.len(), d.len() <= usize::MAX,
        ret.id == d[0], le24(ret.sequence_number) == cut(d, 1, 3), ret.sequence_number < 0x1000000,
        starts.len() == ret.frames@.len(),
        (chain(d, 4) is Some <==> chain(d, reader.p()) is Some),
        chain(d, 4) is Some ==> chain(d, 4)->Some_0 == starts + chain(d, reader.p())->Some_0,
        forall|i: int| 0 <= i < ret.frames@.len() ==> frame_at(d, starts[i], #[trigger] ret.frames@[i]),
    decreases d.len() - reader.p(),
@@@ loop 0 body-start
    let ghost off = reader.p();
    let ghost starts0 = starts;
    let ghost frames0 = ret.frames@;
    broadcast use be16_val_of;
    proof { lemma_chain_step(d, off); }
@@@ loop 0 body-end
    proof {
        assert(frame_end(d, off) == Some(reader.p()));
        starts = starts.push(off);
        assert(starts0 + (seq![off] + chain(d, reader.p())->Some_0) =~= starts + chain(d, reader.p())->Some_0);
        assert forall|i: int| 0 <= i < ret.frames@.len() implies frame_at(d, starts[i], #[trigger] ret.frames@[i]) by {
            if i < frames0.len() { assert(ret.frames@[i] == frames0[i]); }
        }
    }
@@ top
pub broadcast proof fn fseq_cat(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{ assert((a + b) + c =~= a + (b + c)); }
pub proof fn le24_all() ensures true {}
pub proof fn lemma_chain_step(d: Seq<u8>, off: int)
    requires 0 <= off < d.len(),
    ensures frame_end(d, off) is None ==> chain(d, off) is None,
        frame_end(d, off) is Some ==> off + 3 <= frame_end(d, off)->Some_0 <= d.len()
            && (chain(d, off) is Some <==> chain(d, frame_end(d, off)->Some_0) is Some)
            && (chain(d, off) is Some ==> chain(d, off)->Some_0 == seq![off] + chain(d, frame_end(d, off)->Some_0)->Some_0),
{}
