@@ module error
@@ module utils
@@ top
/// the clock showed t some time during the run
pub uninterp spec fn clock_read(t: i64) -> bool;
@@ fn cur_timestamp_millis mode=external_body
    ensures 0 <= r < 0x4000000000000000, clock_read(r),
@@ fn _is_timeout mode=external_body
@@ module datatype drop-use=bytes drop-use=std::io
@@ top
use super::shim::*;
use super::wire::*;
use std::io::Cursor;
impl RaknetReader {
    /// the whole input
    pub open spec fn d(&self) -> Seq<u8> { self.buf.data() }
    /// read position
    pub open spec fn p(&self) -> int { self.buf.cpos() as int }
    pub open spec fn rem(&self) -> int { rem_of(self.d().len(), self.p() as nat) as int }
    /// the position is inside the input (holds for every reader this crate builds)
    pub open spec fn wf(&self) -> bool { self.p() <= self.d().len() }
}
impl RaknetWriter {
    pub open spec fn w(&self) -> Seq<u8> { self.buf@ }
}
pub open spec fn enc16(n: Endian, v: u16) -> Seq<u8> { match n { Endian::Big => be16(v), Endian::Little => le16(v) } }
pub open spec fn enc24(n: Endian, v: u32) -> Seq<u8> { match n { Endian::Big => be24(v), Endian::Little => le24(v) } }
pub open spec fn enc32(n: Endian, v: u32) -> Seq<u8> { match n { Endian::Big => be32(v), Endian::Little => le32(v) } }
pub open spec fn enc64(n: Endian, v: u64) -> Seq<u8> { match n { Endian::Big => be64(v), Endian::Little => le64(v) } }

@@ fn RaknetWriter::new
    ensures r.w() == Seq::<u8>::empty(),
@@ fn RaknetWriter::write
    ensures r is Ok, final(self).w() == old(self).w() + v@,
@@ fn RaknetWriter::write_u8
    ensures r is Ok, final(self).w() == old(self).w() + seq![v],
@@ fn RaknetWriter::write_i16
    ensures r is Ok, final(self).w() == old(self).w() + enc16(n, v as u16),
@@ fn RaknetWriter::write_u16
    ensures r is Ok, final(self).w() == old(self).w() + enc16(n, v),
@@ fn RaknetWriter::write_u24
    ensures r is Ok, final(self).w() == old(self).w() + enc24(n, v),
@@@ before `Ok(())`
    proof {
        assert(be32(v)[1] == be24(v)[0] && be32(v)[2] == be24(v)[1] && be32(v)[3] == be24(v)[2]);
        assert(self.w() =~= old(self).w() + enc24(n, v));
    }
@@ fn RaknetWriter::write_u32
    ensures r is Ok, final(self).w() == old(self).w() + enc32(n, v),
@@ fn RaknetWriter::write_i32
    ensures r is Ok, final(self).w() == old(self).w() + enc32(n, v as u32),
@@ fn RaknetWriter::write_i64
    ensures r is Ok, final(self).w() == old(self).w() + enc64(n, v as u64),
@@ fn RaknetWriter::write_magic
    ensures r is Ok, final(self).w() == old(self).w() + raknet_magic(),
@@@ before `Ok(`
    proof { assert(self.w() =~= old(self).w() + raknet_magic()); }
@@ fn RaknetWriter::write_u64
    ensures r is Ok, final(self).w() == old(self).w() + enc64(n, v),
@@ fn RaknetWriter::write_string
    ensures r is Ok, final(self).w() == old(self).w() + be16(utf8(body@).len() as u16) + utf8(body@),
@@ fn RaknetWriter::write_address
    ensures r is Ok, final(self).w() == old(self).w() + enc_addr(address),
@@@ start
    broadcast use group_addr;
@@@ before `Ok(())`#0
    proof { assert(self.w() =~= old(self).w() + enc_addr(address)); }
@@@ before `Ok(())`#1
    proof {
        assert(23i16 as u16 == 23) by (bit_vector);
        assert(0i32 as u32 == 0) by (bit_vector);
        assert(self.w() =~= old(self).w() + enc_addr(address));
    }
@@ fn RaknetWriter::get_raw_payload
    ensures r@ == self.w(),
@@ fn RaknetWriter::_pos
    ensures r == self.w().len(),
@@ fn RaknetReader::new
    ensures r.d() == buf@, r.p() == 0,
@@ fn RaknetReader::read
    ensures final(self).d() == old(self).d(), final(buf)@.len() == old(buf)@.len(),
        r is Ok <==> old(self).rem() >= old(buf)@.len(),
        r is Ok ==> final(self).p() == old(self).p() + old(buf)@.len()
            && final(buf)@ == cut(old(self).d(), old(self).p(), old(buf)@.len() as int),
@@ fn RaknetReader::read_u8
    ensures final(self).d() == old(self).d(), r is Ok <==> old(self).rem() >= 1,
        r is Ok ==> final(self).p() == old(self).p() + 1 && r->Ok_0 == old(self).d()[old(self).p()],
        r is Err ==> final(self).p() == old(self).p(),
@@ fn RaknetReader::read_u16
    ensures final(self).d() == old(self).d(), r is Ok <==> old(self).rem() >= 2,
        r is Ok ==> final(self).p() == old(self).p() + 2 && enc16(n, r->Ok_0) == cut(old(self).d(), old(self).p(), 2),
        r is Err ==> final(self).p() == old(self).p(),
@@ fn RaknetReader::read_u24
    ensures final(self).d() == old(self).d(), r is Ok <==> old(self).rem() >= 3,
        r is Ok ==> final(self).p() == old(self).p() + 3 && enc24(n, r->Ok_0) == cut(old(self).d(), old(self).p(), 3)
            && r->Ok_0 < 0x1000000,
        r is Err ==> final(self).p() == old(self).p(),
@@@ before `Ok(ret)`#0
    proof {
        assert(be32(ret)[0] == 0 && be32(ret)[1] == a && be32(ret)[2] == b && be32(ret)[3] == c);
        assert(((ret >> 24) & 0xff) as u8 == 0 ==> ret < 0x1000000) by (bit_vector);
        assert(be24(ret) =~= cut(old(self).d(), old(self).p(), 3));
    }
@@@ before `Ok(ret)`#1
    proof {
        assert(le32(ret)[3] == 0 && le32(ret)[0] == a && le32(ret)[1] == b && le32(ret)[2] == c);
        assert(((ret >> 24) & 0xff) as u8 == 0 ==> ret < 0x1000000) by (bit_vector);
        assert(le24(ret) =~= cut(old(self).d(), old(self).p(), 3));
    }
@@ fn RaknetReader::read_u32
    ensures final(self).d() == old(self).d(), r is Ok <==> old(self).rem() >= 4,
        r is Ok ==> final(self).p() == old(self).p() + 4 && enc32(n, r->Ok_0) == cut(old(self).d(), old(self).p(), 4),
        r is Err ==> final(self).p() == old(self).p(),
@@ fn RaknetReader::read_u64
    ensures final(self).d() == old(self).d(), r is Ok <==> old(self).rem() >= 8,
        r is Ok ==> final(self).p() == old(self).p() + 8 && enc64(n, r->Ok_0) == cut(old(self).d(), old(self).p(), 8),
        r is Err ==> final(self).p() == old(self).p(),
@@ fn RaknetReader::read_i64
    ensures final(self).d() == old(self).d(), r is Ok <==> old(self).rem() >= 8,
        r is Ok ==> final(self).p() == old(self).p() + 8 && enc64(n, r->Ok_0 as u64) == cut(old(self).d(), old(self).p(), 8),
        r is Err ==> final(self).p() == old(self).p(),
@@ fn RaknetReader::read_string
    ensures final(self).d() == old(self).d(),
        // the length prefix n and then n bytes of valid UTF-8
        r is Ok <==> old(self).rem() >= 2 && exists|n: u16| #[trigger] be16(n) == cut(old(self).d(), old(self).p(), 2)
            && old(self).rem() >= 2 + n && is_utf8(cut(old(self).d(), old(self).p() + 2, n as int)),
        r is Ok ==> be16(utf8(r->Ok_0@).len() as u16) == cut(old(self).d(), old(self).p(), 2)
            && utf8(r->Ok_0@) == cut(old(self).d(), old(self).p() + 2, utf8(r->Ok_0@).len() as int)
            && utf8(r->Ok_0@).len() <= 65535 && old(self).rem() >= 2 + utf8(r->Ok_0@).len()
            && final(self).p() == old(self).p() + 2 + utf8(r->Ok_0@).len(),
@@@ after `let size =`
    proof {
        assert forall|n: u16| be16(n) == cut(old(self).d(), old(self).p(), 2) implies n == size by { be16_inj(n, size); }
    }
@@ fn RaknetReader::read_magic
    ensures final(self).d() == old(self).d(), r is Ok <==> old(self).rem() >= 16,
        r is Ok ==> final(self).p() == old(self).p() + 16 && r->Ok_0 == (cut(old(self).d(), old(self).p(), 16) == raknet_magic()),
@@@ before `Ok(`
    proof {
        assert(offline_magic@ =~= raknet_magic());
        assert(magic@ =~= offline_magic@ <==> (forall|i: int| 0 <= i < 16 ==> magic@[i] == offline_magic@[i]));
    }
@@ fn RaknetReader::read_address
    ensures final(self).d() == old(self).d(),
        old(self).wf() ==> (r is Ok <==> addr_fits(old(self).d(), old(self).p())),
        old(self).wf() && r is Ok ==> addr_at(old(self).d(), old(self).p(), r->Ok_0)
            && final(self).p() == old(self).p() + addr_len(old(self).d()[old(self).p()]),
@@@ start
    broadcast use {group_addr, lemma_v6_words};
    proof { cursor_len(self.buf); }
@@@ before `Ok(`#0
    proof {
        assert(inv4(v4_octets(ip)) =~= cut(old(self).d(), old(self).p() + 1, 4));
    }
@@ fn RaknetReader::next
    requires old(self).p() + n <= u64::MAX,
    ensures final(self).d() == old(self).d(), final(self).p() == old(self).p() + n,
@@ fn RaknetReader::pos
    ensures r == self.p(),
