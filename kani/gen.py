#!/usr/bin/env python3
"""Writes src/lib.rs: one Kani harness per assumed contract on `bytes` and std integers that contracts/root.vrs states.

The expected bytes are spelled with shifts and masks exactly as the specification functions be16..le64 spell them."""
import os
o = ['''//! Written by gen.py.  Kani proves these for every value; the lengths of the buffers around them are bounded as stated.
#![allow(unused)]
use bytes::{Buf, BufMut};
use std::io::{Cursor, Read};

/// a vector with up to 2 arbitrary bytes in it
#[cfg(kani)]
fn some_vec() -> (Vec<u8>, usize) {
    let n: usize = kani::any();
    kani::assume(n <= 2);
    let a: [u8; 2] = kani::any();
    (a[..n].to_vec(), n)
}
''']
def want(t, v, order):
    n = {"u8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8}[t]
    u = "u" + t[1:]
    sh = [8 * i for i in range(n)]
    if order == "be":
        sh = sh[::-1]
    return n, "[" + ", ".join(f"((({v} as {u}) >> {s}) & 0xff) as u8" if n > 1 else v for s in sh) + "]"
puts = [("put_u8", "u8", "be")] + [(f"put_{t}{'_le' if e == 'le' else ''}", t, e) for t in ("u16", "i16", "u32", "i32", "u64", "i64") for e in ("be", "le") if not (t == "i64" and False)]
for f, t, e in puts:
    n, w = want(t, "v", e)
    o.append(f'''
#[cfg(kani)]
#[kani::proof]
#[kani::unwind(12)]
fn {f}() {{
    let v: {t} = kani::any();
    let (mut b, k) = some_vec();
    let a = b.clone();
    b.{f}(v);
    let w: [u8; {n}] = {w};
    assert!(b.len() == k + {n} && b[..k] == a[..] && b[k..] == w);
}}
''')
gets = [("get_u8", "u8", "be")] + [(f"get_{t}{'_le' if e == 'le' else ''}", t, e) for t in ("u16", "u32", "u64", "i64") for e in ("be", "le")]
for f, t, e in gets:
    n, w = want(t, "r", e)
    o.append(f'''
#[cfg(kani)]
#[kani::proof]
#[kani::unwind(14)]
fn {f}() {{
    let a: [u8; {n + 2}] = kani::any();
    let p: usize = kani::any();
    kani::assume(p <= 2);
    let mut c = Cursor::new(a.to_vec());
    c.set_position(p as u64);
    assert!(c.remaining() == {n + 2} - p && c.has_remaining());
    let r = c.{f}();
    let w: [u8; {n}] = {w};
    assert!(c.position() == (p + {n}) as u64 && c.get_ref()[..] == a[..] && a[p..p + {n}] == w);
}}
''')
for t in ("u16", "u32", "u64"):
    for e in ("be", "le"):
        n, w = want(t, "v", e)
        n, x = want(t, f"{t}::from_{e}_bytes(a)", e)
        o.append(f'''
#[cfg(kani)]
#[kani::proof]
fn {t}_{e}_bytes() {{
    let v: {t} = kani::any();
    let w: [u8; {n}] = {w};
    assert!(v.to_{e}_bytes() == w);
    let a: [u8; {n}] = kani::any();
    let r = {t}::from_{e}_bytes(a);
    let x: [u8; {n}] = {want(t, "r", e)[1]};
    assert!(x == a);
}}
''')
o.append('''
#[cfg(kani)]
#[kani::proof]
#[kani::unwind(8)]
fn put_slice() {
    let s: [u8; 3] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 3);
    let (mut b, k) = some_vec();
    let a = b.clone();
    b.put_slice(&s[..n]);
    assert!(b.len() == k + n && b[..k] == a[..] && b[k..] == s[..n]);
}

#[cfg(kani)]
#[kani::proof]
fn remaining_any_position() {
    let c0 = vec![1u8, 2, 3];
    let mut c = Cursor::new(c0);
    let p: u64 = kani::any();
    c.set_position(p);
    assert!(c.position() == p && c.remaining() as u64 == if p <= 3 { 3 - p } else { 0 } && c.has_remaining() == (p < 3));
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(8)]
fn read_exact() {
    let a: [u8; 4] = kani::any();
    let mut c = Cursor::new(a.to_vec());
    let p: u64 = kani::any();
    c.set_position(p);
    let n: usize = kani::any();
    kani::assume(n <= 4);
    let mut b = vec![0u8; n];
    let left = if p <= 4 { 4 - p as usize } else { 0 };
    let r = c.read_exact(&mut b);
    assert!(r.is_ok() == (left >= n) && b.len() == n && c.get_ref()[..] == a[..]);
    if r.is_ok() && n > 0 { assert!(c.position() == p + n as u64 && b[..] == a[p as usize..p as usize + n]); }
    if r.is_ok() && n == 0 { assert!(c.position() == p); }
}

/// the retransmission timeout times 1.5, for every timeout the code can hold between 0 and 2^20 ms
#[cfg(kani)]
#[kani::proof]
fn times_one_and_a_half() {
    let x: i64 = kani::any();
    kani::assume(0 <= x && x < 0x8000000000000);
    assert!((x as f64 * 1.5) as i64 == x + x / 2);
}

#[cfg(kani)]
#[kani::proof]
fn clamp_u16() {
    let (v, lo, hi): (u16, u16, u16) = (kani::any(), kani::any(), kani::any());
    kani::assume(lo <= hi);
    assert!(v.clamp(lo, hi) == if v < lo { lo } else if v > hi { hi } else { v });
    assert!(v.min(lo) == if lo < v { lo } else { v } && v.max(lo) == if lo > v { lo } else { v });
}
''')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "src", "lib.rs"), "w").write("".join(o))
