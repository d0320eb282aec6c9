//! Written by gen.py.  Kani proves these for every value; the lengths of the buffers around them are bounded as stated.
#![allow(unused)]
use bytes::{Buf, BufMut};
use std::io::{Cursor, Read};

/// a vector with up to 2 arbitrary bytes in it
#[cfg(kani)]
fn some_vec() -> (Vec<u8>, usize) {
    let n: usize = kani::any();
    kani::assume(n <= 2);
    let a: [u8; 2] = kani::any();
    (a[..n].to_vec(), n)
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(12)]
fn put_u8() {
    let v: u8 = kani::any();
    let (mut b, k) = some_vec();
    let a = b.clone();
    b.put_u8(v);
    let w: [u8; 1] = [v];
    assert!(b.len() == k + 1 && b[..k] == a[..] && b[k..] == w);
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(12)]
fn put_u16() {
    let v: u16 = kani::any();
    let (mut b, k) = some_vec();
    let a = b.clone();
    b.put_u16(v);
    let w: [u8; 2] = [(((v as u16) >> 8) & 0xff) as u8, (((v as u16) >> 0) & 0xff) as u8];
    assert!(b.len() == k + 2 && b[..k] == a[..] && b[k..] == w);
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(12)]
fn put_u16_le() {
    let v: u16 = kani::any();
    let (mut b, k) = some_vec();
    let a = b.clone();
    b.put_u16_le(v);
    let w: [u8; 2] = [(((v as u16) >> 0) & 0xff) as u8, (((v as u16) >> 8) & 0xff) as u8];
    assert!(b.len() == k + 2 && b[..k] == a[..] && b[k..] == w);
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(12)]
fn put_i16() {
    let v: i16 = kani::any();
    let (mut b, k) = some_vec();
    let a = b.clone();
    b.put_i16(v);
    let w: [u8; 2] = [(((v as u16) >> 8) & 0xff) as u8, (((v as u16) >> 0) & 0xff) as u8];
    assert!(b.len() == k + 2 && b[..k] == a[..] && b[k..] == w);
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(12)]
fn put_i16_le() {
    let v: i16 = kani::any();
    let (mut b, k) = some_vec();
    let a = b.clone();
    b.put_i16_le(v);
    let w: [u8; 2] = [(((v as u16) >> 0) & 0xff) as u8, (((v as u16) >> 8) & 0xff) as u8];
    assert!(b.len() == k + 2 && b[..k] == a[..] && b[k..] == w);
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(12)]
fn put_u32() {
    let v: u32 = kani::any();
    let (mut b, k) = some_vec();
    let a = b.clone();
    b.put_u32(v);
    let w: [u8; 4] = [(((v as u32) >> 24) & 0xff) as u8, (((v as u32) >> 16) & 0xff) as u8, (((v as u32) >> 8) & 0xff) as u8, (((v as u32) >> 0) & 0xff) as u8];
    assert!(b.len() == k + 4 && b[..k] == a[..] && b[k..] == w);
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(12)]
fn put_u32_le() {
    let v: u32 = kani::any();
    let (mut b, k) = some_vec();
    let a = b.clone();
    b.put_u32_le(v);
    let w: [u8; 4] = [(((v as u32) >> 0) & 0xff) as u8, (((v as u32) >> 8) & 0xff) as u8, (((v as u32) >> 16) & 0xff) as u8, (((v as u32) >> 24) & 0xff) as u8];
    assert!(b.len() == k + 4 && b[..k] == a[..] && b[k..] == w);
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(12)]
fn put_i32() {
    let v: i32 = kani::any();
    let (mut b, k) = some_vec();
    let a = b.clone();
    b.put_i32(v);
    let w: [u8; 4] = [(((v as u32) >> 24) & 0xff) as u8, (((v as u32) >> 16) & 0xff) as u8, (((v as u32) >> 8) & 0xff) as u8, (((v as u32) >> 0) & 0xff) as u8];
    assert!(b.len() == k + 4 && b[..k] == a[..] && b[k..] == w);
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(12)]
fn put_i32_le() {
    let v: i32 = kani::any();
    let (mut b, k) = some_vec();
    let a = b.clone();
    b.put_i32_le(v);
    let w: [u8; 4] = [(((v as u32) >> 0) & 0xff) as u8, (((v as u32) >> 8) & 0xff) as u8, (((v as u32) >> 16) & 0xff) as u8, (((v as u32) >> 24) & 0xff) as u8];
    assert!(b.len() == k + 4 && b[..k] == a[..] && b[k..] == w);
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(12)]
fn put_u64() {
    let v: u64 = kani::any();
    let (mut b, k) = some_vec();
    let a = b.clone();
    b.put_u64(v);
    let w: [u8; 8] = [(((v as u64) >> 56) & 0xff) as u8, (((v as u64) >> 48) & 0xff) as u8, (((v as u64) >> 40) & 0xff) as u8, (((v as u64) >> 32) & 0xff) as u8, (((v as u64) >> 24) & 0xff) as u8, (((v as u64) >> 16) & 0xff) as u8, (((v as u64) >> 8) & 0xff) as u8, (((v as u64) >> 0) & 0xff) as u8];
    assert!(b.len() == k + 8 && b[..k] == a[..] && b[k..] == w);
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(12)]
fn put_u64_le() {
    let v: u64 = kani::any();
    let (mut b, k) = some_vec();
    let a = b.clone();
    b.put_u64_le(v);
    let w: [u8; 8] = [(((v as u64) >> 0) & 0xff) as u8, (((v as u64) >> 8) & 0xff) as u8, (((v as u64) >> 16) & 0xff) as u8, (((v as u64) >> 24) & 0xff) as u8, (((v as u64) >> 32) & 0xff) as u8, (((v as u64) >> 40) & 0xff) as u8, (((v as u64) >> 48) & 0xff) as u8, (((v as u64) >> 56) & 0xff) as u8];
    assert!(b.len() == k + 8 && b[..k] == a[..] && b[k..] == w);
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(12)]
fn put_i64() {
    let v: i64 = kani::any();
    let (mut b, k) = some_vec();
    let a = b.clone();
    b.put_i64(v);
    let w: [u8; 8] = [(((v as u64) >> 56) & 0xff) as u8, (((v as u64) >> 48) & 0xff) as u8, (((v as u64) >> 40) & 0xff) as u8, (((v as u64) >> 32) & 0xff) as u8, (((v as u64) >> 24) & 0xff) as u8, (((v as u64) >> 16) & 0xff) as u8, (((v as u64) >> 8) & 0xff) as u8, (((v as u64) >> 0) & 0xff) as u8];
    assert!(b.len() == k + 8 && b[..k] == a[..] && b[k..] == w);
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(12)]
fn put_i64_le() {
    let v: i64 = kani::any();
    let (mut b, k) = some_vec();
    let a = b.clone();
    b.put_i64_le(v);
    let w: [u8; 8] = [(((v as u64) >> 0) & 0xff) as u8, (((v as u64) >> 8) & 0xff) as u8, (((v as u64) >> 16) & 0xff) as u8, (((v as u64) >> 24) & 0xff) as u8, (((v as u64) >> 32) & 0xff) as u8, (((v as u64) >> 40) & 0xff) as u8, (((v as u64) >> 48) & 0xff) as u8, (((v as u64) >> 56) & 0xff) as u8];
    assert!(b.len() == k + 8 && b[..k] == a[..] && b[k..] == w);
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(14)]
fn get_u8() {
    let a: [u8; 3] = kani::any();
    let p: usize = kani::any();
    kani::assume(p <= 2);
    let mut c = Cursor::new(a.to_vec());
    c.set_position(p as u64);
    assert!(c.remaining() == 3 - p && c.has_remaining());
    let r = c.get_u8();
    let w: [u8; 1] = [r];
    assert!(c.position() == (p + 1) as u64 && c.get_ref()[..] == a[..] && a[p..p + 1] == w);
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(14)]
fn get_u16() {
    let a: [u8; 4] = kani::any();
    let p: usize = kani::any();
    kani::assume(p <= 2);
    let mut c = Cursor::new(a.to_vec());
    c.set_position(p as u64);
    assert!(c.remaining() == 4 - p && c.has_remaining());
    let r = c.get_u16();
    let w: [u8; 2] = [(((r as u16) >> 8) & 0xff) as u8, (((r as u16) >> 0) & 0xff) as u8];
    assert!(c.position() == (p + 2) as u64 && c.get_ref()[..] == a[..] && a[p..p + 2] == w);
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(14)]
fn get_u16_le() {
    let a: [u8; 4] = kani::any();
    let p: usize = kani::any();
    kani::assume(p <= 2);
    let mut c = Cursor::new(a.to_vec());
    c.set_position(p as u64);
    assert!(c.remaining() == 4 - p && c.has_remaining());
    let r = c.get_u16_le();
    let w: [u8; 2] = [(((r as u16) >> 0) & 0xff) as u8, (((r as u16) >> 8) & 0xff) as u8];
    assert!(c.position() == (p + 2) as u64 && c.get_ref()[..] == a[..] && a[p..p + 2] == w);
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(14)]
fn get_u32() {
    let a: [u8; 6] = kani::any();
    let p: usize = kani::any();
    kani::assume(p <= 2);
    let mut c = Cursor::new(a.to_vec());
    c.set_position(p as u64);
    assert!(c.remaining() == 6 - p && c.has_remaining());
    let r = c.get_u32();
    let w: [u8; 4] = [(((r as u32) >> 24) & 0xff) as u8, (((r as u32) >> 16) & 0xff) as u8, (((r as u32) >> 8) & 0xff) as u8, (((r as u32) >> 0) & 0xff) as u8];
    assert!(c.position() == (p + 4) as u64 && c.get_ref()[..] == a[..] && a[p..p + 4] == w);
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(14)]
fn get_u32_le() {
    let a: [u8; 6] = kani::any();
    let p: usize = kani::any();
    kani::assume(p <= 2);
    let mut c = Cursor::new(a.to_vec());
    c.set_position(p as u64);
    assert!(c.remaining() == 6 - p && c.has_remaining());
    let r = c.get_u32_le();
    let w: [u8; 4] = [(((r as u32) >> 0) & 0xff) as u8, (((r as u32) >> 8) & 0xff) as u8, (((r as u32) >> 16) & 0xff) as u8, (((r as u32) >> 24) & 0xff) as u8];
    assert!(c.position() == (p + 4) as u64 && c.get_ref()[..] == a[..] && a[p..p + 4] == w);
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(14)]
fn get_u64() {
    let a: [u8; 10] = kani::any();
    let p: usize = kani::any();
    kani::assume(p <= 2);
    let mut c = Cursor::new(a.to_vec());
    c.set_position(p as u64);
    assert!(c.remaining() == 10 - p && c.has_remaining());
    let r = c.get_u64();
    let w: [u8; 8] = [(((r as u64) >> 56) & 0xff) as u8, (((r as u64) >> 48) & 0xff) as u8, (((r as u64) >> 40) & 0xff) as u8, (((r as u64) >> 32) & 0xff) as u8, (((r as u64) >> 24) & 0xff) as u8, (((r as u64) >> 16) & 0xff) as u8, (((r as u64) >> 8) & 0xff) as u8, (((r as u64) >> 0) & 0xff) as u8];
    assert!(c.position() == (p + 8) as u64 && c.get_ref()[..] == a[..] && a[p..p + 8] == w);
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(14)]
fn get_u64_le() {
    let a: [u8; 10] = kani::any();
    let p: usize = kani::any();
    kani::assume(p <= 2);
    let mut c = Cursor::new(a.to_vec());
    c.set_position(p as u64);
    assert!(c.remaining() == 10 - p && c.has_remaining());
    let r = c.get_u64_le();
    let w: [u8; 8] = [(((r as u64) >> 0) & 0xff) as u8, (((r as u64) >> 8) & 0xff) as u8, (((r as u64) >> 16) & 0xff) as u8, (((r as u64) >> 24) & 0xff) as u8, (((r as u64) >> 32) & 0xff) as u8, (((r as u64) >> 40) & 0xff) as u8, (((r as u64) >> 48) & 0xff) as u8, (((r as u64) >> 56) & 0xff) as u8];
    assert!(c.position() == (p + 8) as u64 && c.get_ref()[..] == a[..] && a[p..p + 8] == w);
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(14)]
fn get_i64() {
    let a: [u8; 10] = kani::any();
    let p: usize = kani::any();
    kani::assume(p <= 2);
    let mut c = Cursor::new(a.to_vec());
    c.set_position(p as u64);
    assert!(c.remaining() == 10 - p && c.has_remaining());
    let r = c.get_i64();
    let w: [u8; 8] = [(((r as u64) >> 56) & 0xff) as u8, (((r as u64) >> 48) & 0xff) as u8, (((r as u64) >> 40) & 0xff) as u8, (((r as u64) >> 32) & 0xff) as u8, (((r as u64) >> 24) & 0xff) as u8, (((r as u64) >> 16) & 0xff) as u8, (((r as u64) >> 8) & 0xff) as u8, (((r as u64) >> 0) & 0xff) as u8];
    assert!(c.position() == (p + 8) as u64 && c.get_ref()[..] == a[..] && a[p..p + 8] == w);
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(14)]
fn get_i64_le() {
    let a: [u8; 10] = kani::any();
    let p: usize = kani::any();
    kani::assume(p <= 2);
    let mut c = Cursor::new(a.to_vec());
    c.set_position(p as u64);
    assert!(c.remaining() == 10 - p && c.has_remaining());
    let r = c.get_i64_le();
    let w: [u8; 8] = [(((r as u64) >> 0) & 0xff) as u8, (((r as u64) >> 8) & 0xff) as u8, (((r as u64) >> 16) & 0xff) as u8, (((r as u64) >> 24) & 0xff) as u8, (((r as u64) >> 32) & 0xff) as u8, (((r as u64) >> 40) & 0xff) as u8, (((r as u64) >> 48) & 0xff) as u8, (((r as u64) >> 56) & 0xff) as u8];
    assert!(c.position() == (p + 8) as u64 && c.get_ref()[..] == a[..] && a[p..p + 8] == w);
}

#[cfg(kani)]
#[kani::proof]
fn u16_be_bytes() {
    let v: u16 = kani::any();
    let w: [u8; 2] = [(((v as u16) >> 8) & 0xff) as u8, (((v as u16) >> 0) & 0xff) as u8];
    assert!(v.to_be_bytes() == w);
    let a: [u8; 2] = kani::any();
    let r = u16::from_be_bytes(a);
    let x: [u8; 2] = [(((r as u16) >> 8) & 0xff) as u8, (((r as u16) >> 0) & 0xff) as u8];
    assert!(x == a);
}

#[cfg(kani)]
#[kani::proof]
fn u16_le_bytes() {
    let v: u16 = kani::any();
    let w: [u8; 2] = [(((v as u16) >> 0) & 0xff) as u8, (((v as u16) >> 8) & 0xff) as u8];
    assert!(v.to_le_bytes() == w);
    let a: [u8; 2] = kani::any();
    let r = u16::from_le_bytes(a);
    let x: [u8; 2] = [(((r as u16) >> 0) & 0xff) as u8, (((r as u16) >> 8) & 0xff) as u8];
    assert!(x == a);
}

#[cfg(kani)]
#[kani::proof]
fn u32_be_bytes() {
    let v: u32 = kani::any();
    let w: [u8; 4] = [(((v as u32) >> 24) & 0xff) as u8, (((v as u32) >> 16) & 0xff) as u8, (((v as u32) >> 8) & 0xff) as u8, (((v as u32) >> 0) & 0xff) as u8];
    assert!(v.to_be_bytes() == w);
    let a: [u8; 4] = kani::any();
    let r = u32::from_be_bytes(a);
    let x: [u8; 4] = [(((r as u32) >> 24) & 0xff) as u8, (((r as u32) >> 16) & 0xff) as u8, (((r as u32) >> 8) & 0xff) as u8, (((r as u32) >> 0) & 0xff) as u8];
    assert!(x == a);
}

#[cfg(kani)]
#[kani::proof]
fn u32_le_bytes() {
    let v: u32 = kani::any();
    let w: [u8; 4] = [(((v as u32) >> 0) & 0xff) as u8, (((v as u32) >> 8) & 0xff) as u8, (((v as u32) >> 16) & 0xff) as u8, (((v as u32) >> 24) & 0xff) as u8];
    assert!(v.to_le_bytes() == w);
    let a: [u8; 4] = kani::any();
    let r = u32::from_le_bytes(a);
    let x: [u8; 4] = [(((r as u32) >> 0) & 0xff) as u8, (((r as u32) >> 8) & 0xff) as u8, (((r as u32) >> 16) & 0xff) as u8, (((r as u32) >> 24) & 0xff) as u8];
    assert!(x == a);
}

#[cfg(kani)]
#[kani::proof]
fn u64_be_bytes() {
    let v: u64 = kani::any();
    let w: [u8; 8] = [(((v as u64) >> 56) & 0xff) as u8, (((v as u64) >> 48) & 0xff) as u8, (((v as u64) >> 40) & 0xff) as u8, (((v as u64) >> 32) & 0xff) as u8, (((v as u64) >> 24) & 0xff) as u8, (((v as u64) >> 16) & 0xff) as u8, (((v as u64) >> 8) & 0xff) as u8, (((v as u64) >> 0) & 0xff) as u8];
    assert!(v.to_be_bytes() == w);
    let a: [u8; 8] = kani::any();
    let r = u64::from_be_bytes(a);
    let x: [u8; 8] = [(((r as u64) >> 56) & 0xff) as u8, (((r as u64) >> 48) & 0xff) as u8, (((r as u64) >> 40) & 0xff) as u8, (((r as u64) >> 32) & 0xff) as u8, (((r as u64) >> 24) & 0xff) as u8, (((r as u64) >> 16) & 0xff) as u8, (((r as u64) >> 8) & 0xff) as u8, (((r as u64) >> 0) & 0xff) as u8];
    assert!(x == a);
}

#[cfg(kani)]
#[kani::proof]
fn u64_le_bytes() {
    let v: u64 = kani::any();
    let w: [u8; 8] = [(((v as u64) >> 0) & 0xff) as u8, (((v as u64) >> 8) & 0xff) as u8, (((v as u64) >> 16) & 0xff) as u8, (((v as u64) >> 24) & 0xff) as u8, (((v as u64) >> 32) & 0xff) as u8, (((v as u64) >> 40) & 0xff) as u8, (((v as u64) >> 48) & 0xff) as u8, (((v as u64) >> 56) & 0xff) as u8];
    assert!(v.to_le_bytes() == w);
    let a: [u8; 8] = kani::any();
    let r = u64::from_le_bytes(a);
    let x: [u8; 8] = [(((r as u64) >> 0) & 0xff) as u8, (((r as u64) >> 8) & 0xff) as u8, (((r as u64) >> 16) & 0xff) as u8, (((r as u64) >> 24) & 0xff) as u8, (((r as u64) >> 32) & 0xff) as u8, (((r as u64) >> 40) & 0xff) as u8, (((r as u64) >> 48) & 0xff) as u8, (((r as u64) >> 56) & 0xff) as u8];
    assert!(x == a);
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(8)]
fn put_slice() {
    let s: [u8; 3] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 3);
    let (mut b, k) = some_vec();
    let a = b.clone();
    b.put_slice(&s[..n]);
    assert!(b.len() == k + n && b[..k] == a[..] && b[k..] == s[..n]);
}

#[cfg(kani)]
#[kani::proof]
fn remaining_any_position() {
    let c0 = vec![1u8, 2, 3];
    let mut c = Cursor::new(c0);
    let p: u64 = kani::any();
    c.set_position(p);
    assert!(c.position() == p && c.remaining() as u64 == if p <= 3 { 3 - p } else { 0 } && c.has_remaining() == (p < 3));
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(8)]
fn read_exact() {
    let a: [u8; 4] = kani::any();
    let mut c = Cursor::new(a.to_vec());
    let p: u64 = kani::any();
    c.set_position(p);
    let n: usize = kani::any();
    kani::assume(n <= 4);
    let mut b = vec![0u8; n];
    let left = if p <= 4 { 4 - p as usize } else { 0 };
    let r = c.read_exact(&mut b);
    assert!(r.is_ok() == (left >= n) && b.len() == n && c.get_ref()[..] == a[..]);
    if r.is_ok() && n > 0 { assert!(c.position() == p + n as u64 && b[..] == a[p as usize..p as usize + n]); }
    if r.is_ok() && n == 0 { assert!(c.position() == p); }
}

/// the retransmission timeout times 1.5, for every timeout the code can hold between 0 and 2^20 ms
#[cfg(kani)]
#[kani::proof]
fn times_one_and_a_half() {
    let x: i64 = kani::any();
    kani::assume(0 <= x && x < 0x8000000000000);
    assert!((x as f64 * 1.5) as i64 == x + x / 2);
}

#[cfg(kani)]
#[kani::proof]
fn clamp_u16() {
    let (v, lo, hi): (u16, u16, u16) = (kani::any(), kani::any(), kani::any());
    kani::assume(lo <= hi);
    assert!(v.clamp(lo, hi) == if v < lo { lo } else if v > hi { hi } else { v });
    assert!(v.min(lo) == if lo < v { lo } else { v } && v.max(lo) == if lo > v { lo } else { v });
}
