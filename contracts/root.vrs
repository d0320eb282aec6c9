@@ module root
@@ top
/// Wire-level vocabulary: what the RakNet layout means, byte by byte.
pub mod wire {
use vstd::prelude::*;
pub open spec fn be16(v: u16) -> Seq<u8> { seq![((v >> 8) & 0xff) as u8, (v & 0xff) as u8] }
pub open spec fn le16(v: u16) -> Seq<u8> { seq![(v & 0xff) as u8, ((v >> 8) & 0xff) as u8] }
pub open spec fn be24(v: u32) -> Seq<u8> { seq![((v >> 16) & 0xff) as u8, ((v >> 8) & 0xff) as u8, (v & 0xff) as u8] }
pub open spec fn le24(v: u32) -> Seq<u8> { seq![(v & 0xff) as u8, ((v >> 8) & 0xff) as u8, ((v >> 16) & 0xff) as u8] }
pub open spec fn be32(v: u32) -> Seq<u8> {
    seq![((v >> 24) & 0xff) as u8, ((v >> 16) & 0xff) as u8, ((v >> 8) & 0xff) as u8, (v & 0xff) as u8] }
pub open spec fn le32(v: u32) -> Seq<u8> {
    seq![(v & 0xff) as u8, ((v >> 8) & 0xff) as u8, ((v >> 16) & 0xff) as u8, ((v >> 24) & 0xff) as u8] }
pub open spec fn be64(v: u64) -> Seq<u8> {
    seq![((v >> 56) & 0xff) as u8, ((v >> 48) & 0xff) as u8, ((v >> 40) & 0xff) as u8, ((v >> 32) & 0xff) as u8,
         ((v >> 24) & 0xff) as u8, ((v >> 16) & 0xff) as u8, ((v >> 8) & 0xff) as u8, (v & 0xff) as u8] }
pub open spec fn le64(v: u64) -> Seq<u8> {
    seq![(v & 0xff) as u8, ((v >> 8) & 0xff) as u8, ((v >> 16) & 0xff) as u8, ((v >> 24) & 0xff) as u8,
         ((v >> 32) & 0xff) as u8, ((v >> 40) & 0xff) as u8, ((v >> 48) & 0xff) as u8, ((v >> 56) & 0xff) as u8] }
pub open spec fn raknet_magic() -> Seq<u8> {
    seq![0x00u8, 0xff, 0xff, 0x00, 0xfe, 0xfe, 0xfe, 0xfe, 0xfd, 0xfd, 0xfd, 0xfd, 0x12, 0x34, 0x56, 0x78] }
pub open spec fn cut(d: Seq<u8>, off: int, n: int) -> Seq<u8> { d.subrange(off, off + n) }

/// two's complement: an i64 travels as the u64 with the same bits
pub proof fn i64_as_u64_injective(a: i64, b: i64)
    ensures a as u64 == b as u64 ==> a == b,
{ assert(a as u64 == b as u64 ==> a == b) by (bit_vector); }

pub proof fn be16_inj(a: u16, b: u16)
    ensures be16(a) == be16(b) ==> a == b,
{
    if be16(a) == be16(b) {
        assert(be16(a)[0] == be16(b)[0] && be16(a)[1] == be16(b)[1]);
        assert(((a >> 8) & 0xff) as u8 == ((b >> 8) & 0xff) as u8 && (a & 0xff) as u8 == (b & 0xff) as u8 ==> a == b) by (bit_vector);
    }
}
pub proof fn le24_inj(a: u32, b: u32)
    requires a < 0x1000000, b < 0x1000000,
    ensures le24(a) == le24(b) ==> a == b,
{
    if le24(a) == le24(b) {
        assert(le24(a)[0] == le24(b)[0] && le24(a)[1] == le24(b)[1] && le24(a)[2] == le24(b)[2]);
        assert(a < 0x1000000 && b < 0x1000000 && (a & 0xff) as u8 == (b & 0xff) as u8 && ((a >> 8) & 0xff) as u8 == ((b >> 8) & 0xff) as u8
            && ((a >> 16) & 0xff) as u8 == ((b >> 16) & 0xff) as u8 ==> a == b) by (bit_vector);
    }
}
pub proof fn be32_inj(a: u32, b: u32)
    ensures be32(a) == be32(b) ==> a == b,
{
    if be32(a) == be32(b) {
        assert(be32(a)[0] == be32(b)[0] && be32(a)[1] == be32(b)[1] && be32(a)[2] == be32(b)[2] && be32(a)[3] == be32(b)[3]);
        assert((a & 0xff) as u8 == (b & 0xff) as u8 && ((a >> 8) & 0xff) as u8 == ((b >> 8) & 0xff) as u8
            && ((a >> 16) & 0xff) as u8 == ((b >> 16) & 0xff) as u8 && ((a >> 24) & 0xff) as u8 == ((b >> 24) & 0xff) as u8 ==> a == b) by (bit_vector);
    }
}
pub proof fn be64_inj(a: u64, b: u64)
    ensures be64(a) == be64(b) ==> a == b,
{
    if be64(a) == be64(b) {
        assert(be64(a)[0] == be64(b)[0] && be64(a)[1] == be64(b)[1] && be64(a)[2] == be64(b)[2] && be64(a)[3] == be64(b)[3]);
        assert(be64(a)[4] == be64(b)[4] && be64(a)[5] == be64(b)[5] && be64(a)[6] == be64(b)[6] && be64(a)[7] == be64(b)[7]);
        assert((a & 0xff) as u8 == (b & 0xff) as u8 && ((a >> 8) & 0xff) as u8 == ((b >> 8) & 0xff) as u8
            && ((a >> 16) & 0xff) as u8 == ((b >> 16) & 0xff) as u8 && ((a >> 24) & 0xff) as u8 == ((b >> 24) & 0xff) as u8
            && ((a >> 32) & 0xff) as u8 == ((b >> 32) & 0xff) as u8 && ((a >> 40) & 0xff) as u8 == ((b >> 40) & 0xff) as u8
            && ((a >> 48) & 0xff) as u8 == ((b >> 48) & 0xff) as u8 && ((a >> 56) & 0xff) as u8 == ((b >> 56) & 0xff) as u8
            ==> a == b) by (bit_vector);
    }
}
}

/// Assumed contracts on std and on the `bytes` crate (the dependency boundary).
/// Everything here is trusted by the proofs; the Kani harnesses in /verif/kani (thorough tier) check those on integers, buffers and the factor 1.5
/// against the real `bytes`/std code for all values, and the replay engine samples the rest.
pub mod shim {
use vstd::prelude::*;
use super::wire::*;
use std::io::Cursor;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
pub trait MinExt: Sized {
    spec fn least(self, o: Self) -> Self;
    spec fn most(self, o: Self) -> Self;
    fn min_(self, o: Self) -> (r: Self) ensures r == self.least(o);
    fn max_(self, o: Self) -> (r: Self) ensures r == self.most(o);
}
impl MinExt for u8 {
    open spec fn least(self, o: u8) -> u8 { if o < self { o } else { self } }
    open spec fn most(self, o: u8) -> u8 { if o > self { o } else { self } }
    fn min_(self, o: u8) -> (r: u8) { if o < self { o } else { self } }
    fn max_(self, o: u8) -> (r: u8) { if o > self { o } else { self } }
}
impl MinExt for u16 {
    open spec fn least(self, o: u16) -> u16 { if o < self { o } else { self } }
    open spec fn most(self, o: u16) -> u16 { if o > self { o } else { self } }
    fn min_(self, o: u16) -> (r: u16) { if o < self { o } else { self } }
    fn max_(self, o: u16) -> (r: u16) { if o > self { o } else { self } }
}
impl MinExt for u32 {
    open spec fn least(self, o: u32) -> u32 { if o < self { o } else { self } }
    open spec fn most(self, o: u32) -> u32 { if o > self { o } else { self } }
    fn min_(self, o: u32) -> (r: u32) { if o < self { o } else { self } }
    fn max_(self, o: u32) -> (r: u32) { if o > self { o } else { self } }
}
impl MinExt for u64 {
    open spec fn least(self, o: u64) -> u64 { if o < self { o } else { self } }
    open spec fn most(self, o: u64) -> u64 { if o > self { o } else { self } }
    fn min_(self, o: u64) -> (r: u64) { if o < self { o } else { self } }
    fn max_(self, o: u64) -> (r: u64) { if o > self { o } else { self } }
}
impl MinExt for usize {
    open spec fn least(self, o: usize) -> usize { if o < self { o } else { self } }
    open spec fn most(self, o: usize) -> usize { if o > self { o } else { self } }
    fn min_(self, o: usize) -> (r: usize) { if o < self { o } else { self } }
    fn max_(self, o: usize) -> (r: usize) { if o > self { o } else { self } }
}
impl MinExt for i32 {
    open spec fn least(self, o: i32) -> i32 { if o < self { o } else { self } }
    open spec fn most(self, o: i32) -> i32 { if o > self { o } else { self } }
    fn min_(self, o: i32) -> (r: i32) { if o < self { o } else { self } }
    fn max_(self, o: i32) -> (r: i32) { if o > self { o } else { self } }
}
impl MinExt for i64 {
    open spec fn least(self, o: i64) -> i64 { if o < self { o } else { self } }
    open spec fn most(self, o: i64) -> i64 { if o > self { o } else { self } }
    fn min_(self, o: i64) -> (r: i64) { if o < self { o } else { self } }
    fn max_(self, o: i64) -> (r: i64) { if o > self { o } else { self } }
}
pub trait BufMut: Sized {
    spec fn bview(&self) -> Seq<u8>;
    fn put_u8(&mut self, v: u8) ensures final(self).bview() == old(self).bview() + seq![v];
    fn put_slice(&mut self, v: &[u8]) ensures final(self).bview() == old(self).bview() + v@;
    fn put_u16(&mut self, v: u16) ensures final(self).bview() == old(self).bview() + be16(v);
    fn put_u16_le(&mut self, v: u16) ensures final(self).bview() == old(self).bview() + le16(v);
    fn put_i16(&mut self, v: i16) ensures final(self).bview() == old(self).bview() + be16(v as u16);
    fn put_i16_le(&mut self, v: i16) ensures final(self).bview() == old(self).bview() + le16(v as u16);
    fn put_u32(&mut self, v: u32) ensures final(self).bview() == old(self).bview() + be32(v);
    fn put_u32_le(&mut self, v: u32) ensures final(self).bview() == old(self).bview() + le32(v);
    fn put_i32(&mut self, v: i32) ensures final(self).bview() == old(self).bview() + be32(v as u32);
    fn put_i32_le(&mut self, v: i32) ensures final(self).bview() == old(self).bview() + le32(v as u32);
    fn put_u64(&mut self, v: u64) ensures final(self).bview() == old(self).bview() + be64(v);
    fn put_u64_le(&mut self, v: u64) ensures final(self).bview() == old(self).bview() + le64(v);
    fn put_i64(&mut self, v: i64) ensures final(self).bview() == old(self).bview() + be64(v as u64);
    fn put_i64_le(&mut self, v: i64) ensures final(self).bview() == old(self).bview() + le64(v as u64);
}
impl BufMut for Vec<u8> {
    open spec fn bview(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn put_u8(&mut self, v: u8) { unimplemented!() }
    #[verifier::external_body] fn put_slice(&mut self, v: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn put_u16(&mut self, v: u16) { unimplemented!() }
    #[verifier::external_body] fn put_u16_le(&mut self, v: u16) { unimplemented!() }
    #[verifier::external_body] fn put_i16(&mut self, v: i16) { unimplemented!() }
    #[verifier::external_body] fn put_i16_le(&mut self, v: i16) { unimplemented!() }
    #[verifier::external_body] fn put_u32(&mut self, v: u32) { unimplemented!() }
    #[verifier::external_body] fn put_u32_le(&mut self, v: u32) { unimplemented!() }
    #[verifier::external_body] fn put_i32(&mut self, v: i32) { unimplemented!() }
    #[verifier::external_body] fn put_i32_le(&mut self, v: i32) { unimplemented!() }
    #[verifier::external_body] fn put_u64(&mut self, v: u64) { unimplemented!() }
    #[verifier::external_body] fn put_u64_le(&mut self, v: u64) { unimplemented!() }
    #[verifier::external_body] fn put_i64(&mut self, v: i64) { unimplemented!() }
    #[verifier::external_body] fn put_i64_le(&mut self, v: i64) { unimplemented!() }
}
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExCursor<T>(std::io::Cursor<T>);
pub uninterp spec fn cur_inner<T>(c: Cursor<T>) -> T;
pub uninterp spec fn cur_pos<T>(c: Cursor<T>) -> u64;
pub proof fn cursor_len(c: Cursor<Vec<u8>>)
    ensures c.data().len() <= usize::MAX,
{ assert(cur_inner(c).len() as int == cur_inner(c)@.len()); }
pub assume_specification<T> [Cursor::<T>::new](v: T) -> (r: Cursor<T>)
    ensures cur_inner(r) == v, cur_pos(r) == 0;
pub assume_specification<T> [Cursor::<T>::position](c: &Cursor<T>) -> (r: u64)
    ensures r == cur_pos(*c);
pub assume_specification<T> [Cursor::<T>::set_position](c: &mut Cursor<T>, p: u64)
    ensures cur_inner(*final(c)) == cur_inner(*old(c)), cur_pos(*final(c)) == p;

pub open spec fn rem_of(len: nat, pos: nat) -> nat { if pos <= len { (len - pos) as nat } else { 0 } }
pub struct IoError;
#[verifier::external]
impl std::fmt::Debug for IoError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
pub trait Buf: Sized {
    spec fn data(&self) -> Seq<u8>;
    spec fn cpos(&self) -> nat;
    fn remaining(&self) -> (r: usize) ensures r == rem_of(self.data().len(), self.cpos());
    fn has_remaining(&self) -> (r: bool) ensures r == (rem_of(self.data().len(), self.cpos()) > 0);
    fn get_u8(&mut self) -> (r: u8)
        requires rem_of(old(self).data().len(), old(self).cpos()) >= 1,
        ensures final(self).data() == old(self).data(), final(self).cpos() == old(self).cpos() + 1,
            r == old(self).data()[old(self).cpos() as int];
    fn get_u16(&mut self) -> (r: u16)
        requires rem_of(old(self).data().len(), old(self).cpos()) >= 2,
        ensures final(self).data() == old(self).data(), final(self).cpos() == old(self).cpos() + 2,
            be16(r) == cut(old(self).data(), old(self).cpos() as int, 2);
    fn get_u16_le(&mut self) -> (r: u16)
        requires rem_of(old(self).data().len(), old(self).cpos()) >= 2,
        ensures final(self).data() == old(self).data(), final(self).cpos() == old(self).cpos() + 2,
            le16(r) == cut(old(self).data(), old(self).cpos() as int, 2);
    fn get_u32(&mut self) -> (r: u32)
        requires rem_of(old(self).data().len(), old(self).cpos()) >= 4,
        ensures final(self).data() == old(self).data(), final(self).cpos() == old(self).cpos() + 4,
            be32(r) == cut(old(self).data(), old(self).cpos() as int, 4);
    fn get_u32_le(&mut self) -> (r: u32)
        requires rem_of(old(self).data().len(), old(self).cpos()) >= 4,
        ensures final(self).data() == old(self).data(), final(self).cpos() == old(self).cpos() + 4,
            le32(r) == cut(old(self).data(), old(self).cpos() as int, 4);
    fn get_u64(&mut self) -> (r: u64)
        requires rem_of(old(self).data().len(), old(self).cpos()) >= 8,
        ensures final(self).data() == old(self).data(), final(self).cpos() == old(self).cpos() + 8,
            be64(r) == cut(old(self).data(), old(self).cpos() as int, 8);
    fn get_u64_le(&mut self) -> (r: u64)
        requires rem_of(old(self).data().len(), old(self).cpos()) >= 8,
        ensures final(self).data() == old(self).data(), final(self).cpos() == old(self).cpos() + 8,
            le64(r) == cut(old(self).data(), old(self).cpos() as int, 8);
    fn get_i64(&mut self) -> (r: i64)
        requires rem_of(old(self).data().len(), old(self).cpos()) >= 8,
        ensures final(self).data() == old(self).data(), final(self).cpos() == old(self).cpos() + 8,
            be64(r as u64) == cut(old(self).data(), old(self).cpos() as int, 8);
    fn get_i64_le(&mut self) -> (r: i64)
        requires rem_of(old(self).data().len(), old(self).cpos()) >= 8,
        ensures final(self).data() == old(self).data(), final(self).cpos() == old(self).cpos() + 8,
            le64(r as u64) == cut(old(self).data(), old(self).cpos() as int, 8);
    fn read_exact(&mut self, b: &mut [u8]) -> (r: std::result::Result<(), IoError>)
        ensures final(self).data() == old(self).data(), final(b)@.len() == old(b)@.len(),
            r is Ok <==> rem_of(old(self).data().len(), old(self).cpos()) >= old(b)@.len(),
            r is Ok ==> final(self).cpos() == old(self).cpos() + old(b)@.len()
                && final(b)@ == cut(old(self).data(), old(self).cpos() as int, old(b)@.len() as int);
}
impl Buf for Cursor<Vec<u8>> {
    open spec fn data(&self) -> Seq<u8> { cur_inner(*self)@ }
    open spec fn cpos(&self) -> nat { cur_pos(*self) as nat }
    #[verifier::external_body] fn remaining(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn has_remaining(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn get_u8(&mut self) -> (r: u8) { unimplemented!() }
    #[verifier::external_body] fn get_u16(&mut self) -> (r: u16) { unimplemented!() }
    #[verifier::external_body] fn get_u16_le(&mut self) -> (r: u16) { unimplemented!() }
    #[verifier::external_body] fn get_u32(&mut self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn get_u32_le(&mut self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn get_u64(&mut self) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn get_u64_le(&mut self) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn get_i64(&mut self) -> (r: i64) { unimplemented!() }
    #[verifier::external_body] fn get_i64_le(&mut self) -> (r: i64) { unimplemented!() }
    #[verifier::external_body] fn read_exact(&mut self, b: &mut [u8]) -> (r: std::result::Result<(), IoError>) { unimplemented!() }
}
// std integer <-> byte array conversions (rewrite int_bytes: Verus cannot name their array length constant)
pub trait IntBytes<const N: usize>: Sized {
    spec fn be_sp(self) -> Seq<u8>;
    spec fn le_sp(self) -> Seq<u8>;
    fn to_be_bytes_(self) -> (r: [u8; N]) ensures r@ == self.be_sp();
    fn to_le_bytes_(self) -> (r: [u8; N]) ensures r@ == self.le_sp();
    fn from_be_bytes_(b: [u8; N]) -> (r: Self) ensures r.be_sp() == b@;
    fn from_le_bytes_(b: [u8; N]) -> (r: Self) ensures r.le_sp() == b@;
}
impl IntBytes<2> for u16 {
    open spec fn be_sp(self) -> Seq<u8> { be16(self) }
    open spec fn le_sp(self) -> Seq<u8> { le16(self) }
    #[verifier::external_body] fn to_be_bytes_(self) -> (r: [u8; 2]) { unimplemented!() }
    #[verifier::external_body] fn to_le_bytes_(self) -> (r: [u8; 2]) { unimplemented!() }
    #[verifier::external_body] fn from_be_bytes_(b: [u8; 2]) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn from_le_bytes_(b: [u8; 2]) -> (r: Self) { unimplemented!() }
}
impl IntBytes<4> for u32 {
    open spec fn be_sp(self) -> Seq<u8> { be32(self) }
    open spec fn le_sp(self) -> Seq<u8> { le32(self) }
    #[verifier::external_body] fn to_be_bytes_(self) -> (r: [u8; 4]) { unimplemented!() }
    #[verifier::external_body] fn to_le_bytes_(self) -> (r: [u8; 4]) { unimplemented!() }
    #[verifier::external_body] fn from_be_bytes_(b: [u8; 4]) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn from_le_bytes_(b: [u8; 4]) -> (r: Self) { unimplemented!() }
}
impl IntBytes<8> for u64 {
    open spec fn be_sp(self) -> Seq<u8> { be64(self) }
    open spec fn le_sp(self) -> Seq<u8> { le64(self) }
    #[verifier::external_body] fn to_be_bytes_(self) -> (r: [u8; 8]) { unimplemented!() }
    #[verifier::external_body] fn to_le_bytes_(self) -> (r: [u8; 8]) { unimplemented!() }
    #[verifier::external_body] fn from_be_bytes_(b: [u8; 8]) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn from_le_bytes_(b: [u8; 8]) -> (r: Self) { unimplemented!() }
}
pub assume_specification<T: Clone> [<[T]>::to_vec](s: &[T]) -> (r: Vec<T>) ensures r@ == s@;
pub assume_specification<T, A: std::alloc::Allocator> [Vec::<T, A>::into_boxed_slice](v: Vec<T, A>) -> (r: Box<[T], A>) ensures (*r)@ == v@;

pub proof fn push_contains<T>(s: Seq<T>, x: T)
    ensures forall|k: T| #[trigger] s.push(x).contains(k) <==> s.contains(k) || k == x,
{
    assert forall|k: T| #[trigger] s.push(x).contains(k) <==> s.contains(k) || k == x by {
        if s.contains(k) { let j = choose|j: int| 0 <= j < s.len() && s[j] == k; assert(s.push(x)[j] == k); }
        assert(s.push(x)[s.len() as int] == x);
        if s.push(x).contains(k) && k != x { let j = choose|j: int| 0 <= j < s.len() + 1 && #[trigger] s.push(x)[j] == k; assert(s[j] == k); }
    }
}
/// walking through a sequence without repetitions
pub proof fn take_step<T>(s: Seq<T>, n: int)
    requires s.no_duplicates(), 0 <= n < s.len(),
    ensures !s.take(n).contains(s[n]), s.take(n + 1) == s.take(n).push(s[n]), s.contains(s[n]), s.to_set().contains(s[n]),
        forall|k: T| #[trigger] s.take(n + 1).contains(k) <==> s.take(n).contains(k) || k == s[n],
{
    assert(s.take(n + 1) =~= s.take(n).push(s[n]));
    push_contains(s.take(n), s[n]);
    if s.take(n).contains(s[n]) { let j = choose|j: int| 0 <= j < n && s.take(n)[j] == s[n]; assert(s[j] == s[n]); }
}
pub proof fn take_all<T>(s: Seq<T>)
    ensures s.take(s.len() as int) == s,
{ assert(s.take(s.len() as int) =~= s); }

/// Clone of a pair of integers is the pair
pub broadcast axiom fn pair_clone(a: (u32, u32), b: (u32, u32))
    ensures #[trigger] vstd::pervasive::cloned::<(u32, u32)>(a, b) ==> a == b;
// hash maps: what vstd does not cover
pub trait HmExt<K, V> {
    spec fn hm(&self) -> Map<K, V>;
    fn get_mut_<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures match r {
            Some(v) => old(self).hm().contains_key(*k) && *v == old(self).hm()[*k] && final(self).hm() == old(self).hm().insert(*k, *final(v)),
            None => !old(self).hm().contains_key(*k) && final(self).hm() == old(self).hm(),
        };
}
impl<K, V> HmExt<K, V> for std::collections::HashMap<K, V> {
    open spec fn hm(&self) -> Map<K, V> { self@ }
    #[verifier::external_body]
    fn get_mut_<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>) { unimplemented!() }
}
#[verifier::external_body]
pub fn hm_index<'a, K, V>(m: &'a std::collections::HashMap<K, V>, k: &K) -> (r: &'a V)
    requires m@.contains_key(*k),
    ensures *r == m@[*k],
{ unimplemented!() }
/// the keys, each once, in any order
#[verifier::external_body]
pub fn hm_keys_vec<K, V>(m: &std::collections::HashMap<K, V>) -> (r: Vec<K>)
    ensures r@.no_duplicates(), r@.to_set() == m@.dom(), m@.dom().finite(), r@.len() == m@.dom().len(),
{ unimplemented!() }
// sorting of integer vectors
pub trait IntOrd { spec fn iv(&self) -> int; }
impl IntOrd for u32 { open spec fn iv(&self) -> int { *self as int } }
impl IntOrd for u16 { open spec fn iv(&self) -> int { *self as int } }
pub trait VecSort<T: IntOrd> {
    spec fn sv(&self) -> Seq<T>;
    fn sort_unstable(&mut self)
        ensures final(self).sv().len() == old(self).sv().len(), final(self).sv().to_set() == old(self).sv().to_set(),
            old(self).sv().no_duplicates() ==> final(self).sv().no_duplicates(),
            forall|i: int, j: int| 0 <= i < j < final(self).sv().len() ==> (#[trigger] final(self).sv()[i]).iv() <= (#[trigger] final(self).sv()[j]).iv();
    fn sort(&mut self)
        ensures final(self).sv().len() == old(self).sv().len(), final(self).sv().to_set() == old(self).sv().to_set(),
            old(self).sv().no_duplicates() ==> final(self).sv().no_duplicates(),
            forall|i: int, j: int| 0 <= i < j < final(self).sv().len() ==> (#[trigger] final(self).sv()[i]).iv() <= (#[trigger] final(self).sv()[j]).iv();
    fn contains(&self, x: &T) -> (r: bool) ensures r == self.sv().contains(*x);
}
impl<T: IntOrd> VecSort<T> for Vec<T> {
    open spec fn sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn sort_unstable(&mut self) { unimplemented!() }
    #[verifier::external_body] fn sort(&mut self) { unimplemented!() }
    #[verifier::external_body] fn contains(&self, x: &T) -> (r: bool) { unimplemented!() }
}

// sorting by a key: the same elements, each once, keys ascending
pub open spec fn is_perm(p: Seq<int>, n: nat) -> bool {
    p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && (forall|i: int, j: int| 0 <= i < j < n ==> p[i] != p[j])
        && (forall|k: int| 0 <= k < n ==> #[trigger] p.contains(k))
}
pub open spec fn sorted_by<T>(a: Seq<T>, b: Seq<T>, key: spec_fn(T) -> int, p: Seq<int>) -> bool {
    is_perm(p, a.len()) && b.len() == a.len() && (forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[p[i]])
        && (forall|i: int, j: int| 0 <= i < j < b.len() ==> key(b[i]) <= key(b[j]))
}
#[verifier::external_body]
pub fn vx_sort_by_key<T>(v: &mut Vec<T>, key: Ghost<spec_fn(T) -> int>)
    ensures exists|p: Seq<int>| sorted_by(old(v)@, final(v)@, key@, p),
{ unimplemented!() }
// binary64 products `(x as f64 * LIT) as i64`; exact for the factor 1.5 and |x| < 2^51 (checked by Kani), unknown otherwise
pub uninterp spec fn f64_scaled(x: i64, num: int, den: int) -> i64;
pub open spec fn scaled(x: i64, num: int, den: int) -> i64 {
    if 0 <= x < 0x8000000000000 && num * 2 == den * 3 { (x + x / 2) as i64 } else { f64_scaled(x, num, den) }
}
#[verifier::external_body]
pub fn vx_f64_scale(x: i64, num: Ghost<int>, den: Ghost<int>) -> (r: i64)
    ensures r == scaled(x, num@, den@),
{ unimplemented!() }
/// any other binary64 expression cast to i64: some value
#[verifier::external_body]
pub fn vx_f64_any() -> (r: i64) { unimplemented!() }
pub trait ClampExt: Sized { fn clamp_(self, lo: Self, hi: Self) -> (r: Self); }
impl ClampExt for u16 {
    fn clamp_(self, lo: u16, hi: u16) -> (r: u16)
        ensures lo <= hi ==> r == (if self < lo { lo } else if self > hi { hi } else { self }),
    { if self < lo { lo } else if self > hi { hi } else { self } }
}

// strings: utf8(s) is the UTF-8 encoding of a character sequence
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub open spec fn is_utf8(b: Seq<u8>) -> bool { vstd::utf8::valid_utf8(b) }
pub proof fn utf8_injective(a: Seq<char>, b: Seq<char>)
    ensures utf8(a) == utf8(b) ==> a == b, is_utf8(utf8(a)),
{ vstd::utf8::encode_utf8_decode_utf8(a); vstd::utf8::encode_utf8_decode_utf8(b); vstd::utf8::encode_utf8_valid_utf8(a); }
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub assume_specification [String::from_utf8](v: Vec<u8>) -> (r: std::result::Result<String, std::string::FromUtf8Error>)
    ensures r is Ok <==> is_utf8(v@), r is Ok ==> utf8(r->Ok_0@) == v@;

// addresses
#[verifier::external_type_specification]
pub struct ExSocketAddr(SocketAddr);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExV4(std::net::SocketAddrV4);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExV6(std::net::SocketAddrV6);
#[verifier::external_type_specification]
pub struct ExIp(IpAddr);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIpv4(Ipv4Addr);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIpv6(Ipv6Addr);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExAddrParseError(std::net::AddrParseError);
pub open spec fn ip4(a: IpAddr) -> Ipv4Addr { match a { IpAddr::V4(x) => x, _ => arbitrary() } }
pub open spec fn ip6(a: IpAddr) -> Ipv6Addr { match a { IpAddr::V6(x) => x, _ => arbitrary() } }
pub uninterp spec fn v4_octets(a: Ipv4Addr) -> Seq<u8>;
pub uninterp spec fn v6_octets(a: Ipv6Addr) -> Seq<u8>;
pub uninterp spec fn sa_ip(a: SocketAddr) -> IpAddr;
pub uninterp spec fn sa_port(a: SocketAddr) -> u16;
pub broadcast axiom fn v4_len(a: Ipv4Addr) ensures #[trigger] v4_octets(a).len() == 4;
pub broadcast axiom fn v6_len(a: Ipv6Addr) ensures #[trigger] v6_octets(a).len() == 16;
pub broadcast axiom fn v4_ext(a: Ipv4Addr, b: Ipv4Addr) ensures #[trigger] v4_octets(a) == #[trigger] v4_octets(b) ==> a == b;
pub broadcast axiom fn v6_ext(a: Ipv6Addr, b: Ipv6Addr) ensures #[trigger] v6_octets(a) == #[trigger] v6_octets(b) ==> a == b;
pub broadcast group group_addr { v4_len, v6_len, v4_ext, v6_ext }
pub assume_specification [SocketAddr::ip](a: &SocketAddr) -> (r: IpAddr) ensures r == sa_ip(*a);
pub assume_specification [SocketAddr::port](a: &SocketAddr) -> (r: u16) ensures r == sa_port(*a);
pub assume_specification [SocketAddr::is_ipv4](a: &SocketAddr) -> (r: bool) ensures r == (sa_ip(*a) is V4);
pub assume_specification [SocketAddr::is_ipv6](a: &SocketAddr) -> (r: bool) ensures r == (sa_ip(*a) is V6);
pub assume_specification [SocketAddr::new](ip: IpAddr, port: u16) -> (r: SocketAddr) ensures sa_ip(r) == ip, sa_port(r) == port;
pub assume_specification [Ipv4Addr::octets](a: &Ipv4Addr) -> (r: [u8; 4]) ensures r@ == v4_octets(*a);
pub assume_specification [Ipv6Addr::octets](a: &Ipv6Addr) -> (r: [u8; 16]) ensures r@ == v6_octets(*a);
pub assume_specification [Ipv4Addr::new](a: u8, b: u8, c: u8, d: u8) -> (r: Ipv4Addr) ensures v4_octets(r) == seq![a, b, c, d];
pub assume_specification [Ipv6Addr::new](a: u16, b: u16, c: u16, d: u16, e: u16, f: u16, g: u16, h: u16) -> (r: Ipv6Addr)
    ensures be16(a) == cut(v6_octets(r), 0, 2), be16(b) == cut(v6_octets(r), 2, 2), be16(c) == cut(v6_octets(r), 4, 2),
        be16(d) == cut(v6_octets(r), 6, 2), be16(e) == cut(v6_octets(r), 8, 2), be16(f) == cut(v6_octets(r), 10, 2),
        be16(g) == cut(v6_octets(r), 12, 2), be16(h) == cut(v6_octets(r), 14, 2);
#[verifier::external_trait_specification]
pub trait ExFromStr: Sized {
    type ExternalTraitSpecificationFor: std::str::FromStr;
    type Err;
}
pub uninterp spec fn parse_of<F: std::str::FromStr>(s: Seq<char>) -> std::result::Result<F, <F as std::str::FromStr>::Err>;
pub assume_specification<F: std::str::FromStr> [str::parse::<F>](s: &str) -> (r: std::result::Result<F, <F as std::str::FromStr>::Err>)
    ensures r == parse_of::<F>(s@);
/// the two address literals in the source mean what they say
pub axiom fn parse_lits()
    ensures
        parse_of::<SocketAddr>("255.255.255.255:19132"@) is Ok,
        sa_ip(parse_of::<SocketAddr>("255.255.255.255:19132"@)->Ok_0) is V4,
        v4_octets(ip4(sa_ip(parse_of::<SocketAddr>("255.255.255.255:19132"@)->Ok_0))) == seq![255u8, 255, 255, 255],
        sa_port(parse_of::<SocketAddr>("255.255.255.255:19132"@)->Ok_0) == 19132,
        parse_of::<SocketAddr>("0.0.0.0:0"@) is Ok,
        sa_ip(parse_of::<SocketAddr>("0.0.0.0:0"@)->Ok_0) is V4,
        v4_octets(ip4(sa_ip(parse_of::<SocketAddr>("0.0.0.0:0"@)->Ok_0))) == seq![0u8, 0, 0, 0],
        sa_port(parse_of::<SocketAddr>("0.0.0.0:0"@)->Ok_0) == 0;

/// RakNet address form.  v4: 4, inverted octets, port BE (7 bytes).
/// v6: 6, AF_INET6 (23) LE, port BE, flow info 0, 16 octets, scope id 0 (29 bytes).
pub open spec fn inv4(o: Seq<u8>) -> Seq<u8> {
    seq![(0xff - o[0]) as u8, (0xff - o[1]) as u8, (0xff - o[2]) as u8, (0xff - o[3]) as u8]
}
pub open spec fn enc_addr(a: SocketAddr) -> Seq<u8> {
    match sa_ip(a) {
        IpAddr::V4(ip) => seq![4u8] + inv4(v4_octets(ip)) + be16(sa_port(a)),
        IpAddr::V6(ip) => seq![6u8] + le16(23) + be16(sa_port(a)) + be32(0) + v6_octets(ip) + be32(0),
    }
}
/// length of the address form that starts with version byte v
pub open spec fn addr_len(v: u8) -> int { if v == 4 { 7 } else { 29 } }
/// a complete address form starts at offset off of d
pub open spec fn addr_fits(d: Seq<u8>, off: int) -> bool {
    0 <= off < d.len() && off + addr_len(d[off]) <= d.len()
}
/// the address form at offset off of d denotes address a
pub open spec fn addr_at(d: Seq<u8>, off: int, a: SocketAddr) -> bool {
    if d[off] == 4 {
        sa_ip(a) is V4 && inv4(v4_octets(ip4(sa_ip(a)))) == cut(d, off + 1, 4) && be16(sa_port(a)) == cut(d, off + 5, 2)
    } else {
        sa_ip(a) is V6 && v6_octets(ip6(sa_ip(a))) == cut(d, off + 9, 16) && be16(sa_port(a)) == cut(d, off + 3, 2)
    }
}
/// sixteen bytes are determined by their eight two-byte words
pub broadcast proof fn lemma_v6_words(x: Seq<u8>, d: Seq<u8>)
    requires x.len() == 16, d.len() == 16,
        cut(x, 0, 2) == cut(d, 0, 2), cut(x, 2, 2) == cut(d, 2, 2), cut(x, 4, 2) == cut(d, 4, 2), cut(x, 6, 2) == cut(d, 6, 2),
        cut(x, 8, 2) == cut(d, 8, 2), cut(x, 10, 2) == cut(d, 10, 2), cut(x, 12, 2) == cut(d, 12, 2),
        #[trigger] cut(x, 14, 2) == #[trigger] cut(d, 14, 2),
    ensures x == d,
{
    assert forall|i: int| 0 <= i < 16 implies x[i] == d[i] by {
        let k = (i / 2) * 2;
        assert(cut(x, k, 2) == cut(d, k, 2)) by {
            assert(k == 0 || k == 2 || k == 4 || k == 6 || k == 8 || k == 10 || k == 12 || k == 14);
        }
        assert(cut(x, k, 2)[i - k] == x[i] && cut(d, k, 2)[i - k] == d[i]);
    }
    assert(x =~= d);
}
pub proof fn inv4_inj(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == 4, b.len() == 4,
    ensures inv4(a) == inv4(b) ==> a == b,
{
    if inv4(a) == inv4(b) {
        assert(inv4(a)[0] == inv4(b)[0] && inv4(a)[1] == inv4(b)[1] && inv4(a)[2] == inv4(b)[2] && inv4(a)[3] == inv4(b)[3]);
        assert(a =~= b);
    }
}
/// what was encoded at off is what is found at off: same IP, same port
pub proof fn addr_roundtrip(d: Seq<u8>, off: int, a: SocketAddr, r: SocketAddr)
    requires 0 <= off, off + enc_addr(a).len() <= d.len(), cut(d, off, enc_addr(a).len() as int) == enc_addr(a),
    ensures addr_fits(d, off), addr_len(d[off]) == enc_addr(a).len(),
        addr_at(d, off, r) ==> sa_ip(r) == sa_ip(a) && sa_port(r) == sa_port(a),
{
    broadcast use group_addr;
    let e = enc_addr(a);
    let s = cut(d, off, e.len() as int);
    assert(d[off] == s[0] && s[0] == e[0]);
    if d[off] == 4 {
        assert(sa_ip(a) is V4);
        assert(cut(d, off + 1, 4) =~= e.subrange(1, 5)) by { assert(s.subrange(1, 5) =~= cut(d, off + 1, 4)); }
        assert(e.subrange(1, 5) =~= inv4(v4_octets(ip4(sa_ip(a)))));
        assert(cut(d, off + 5, 2) =~= e.subrange(5, 7)) by { assert(s.subrange(5, 7) =~= cut(d, off + 5, 2)); }
        assert(e.subrange(5, 7) =~= be16(sa_port(a)));
        be16_inj(sa_port(a), sa_port(r));
        if addr_at(d, off, r) { inv4_inj(v4_octets(ip4(sa_ip(a))), v4_octets(ip4(sa_ip(r)))); }
    } else {
        assert(sa_ip(a) is V6);
        assert(cut(d, off + 9, 16) =~= e.subrange(9, 25)) by { assert(s.subrange(9, 25) =~= cut(d, off + 9, 16)); }
        assert(e.subrange(9, 25) =~= v6_octets(ip6(sa_ip(a))));
        assert(cut(d, off + 3, 2) =~= e.subrange(3, 5)) by { assert(s.subrange(3, 5) =~= cut(d, off + 3, 2)); }
        assert(e.subrange(3, 5) =~= be16(sa_port(a)));
        be16_inj(sa_port(a), sa_port(r));
    }
}
}
