//! Byte streams through a chunk or a ring buffer.
use crate::q::*;
use crate::seq::ok;
use crate::sym::*;
use crate::*;
use std::io::{IoSlice, IoSliceMut, Read, Write};
const FILE: u32 = 2500000;

macro_rules! done { ($r:expr, $n:expr) => { match $r { Ok(k) => check!(k == $n), Err(e) => { core::mem::forget(e); check!(false) } } } }
/// some bytes
#[inline(always)]
fn bytes<const M: usize>() -> [u8; M] { let mut b = [0; M]; for i in 0..M { b[i] = any_u8() } b }
pub fn write<Q: Deq<A = u8> + Write, const M: usize>() {
    let (mut q, s) = Q::any(0);
    let b = bytes::<M>();
    let n = upto(M);
    let k = if n < Q::CAP - s.len { n } else { Q::CAP - s.len };
    done!(q.write(&b[..n]), k);
    check!(ok(&q, s.len + k, |j| if j < s.len { s.at(j) } else { b[j - s.len] }));
    match q.flush() { Ok(()) => (), Err(e) => { core::mem::forget(e); check!(false) } }
    check!(ok(&q, s.len + k, |j| if j < s.len { s.at(j) } else { b[j - s.len] }));
}
pub fn read<Q: Deq<A = u8> + Read, const M: usize>() {
    let (mut q, s) = Q::any(0);
    let mut b = [222u8; M];
    let n = upto(M);
    let k = if n < s.len { n } else { s.len };
    done!(q.read(&mut b[..n]), k);
    let j = below(M);
    check!(b[j] == if j < k { s.at(j) } else { 222 });
    check!(ok(&q, s.len - k, |j| s.at(j + k)));
}
/// what goes in comes out, in order, whatever the sizes of the pieces
pub fn pipe<Q: Deq<A = u8> + Read + Write, const M: usize, const K: usize>() {
    let (mut q, s) = Q::any(0);
    let (mut put, mut got) = (s.base as usize + s.len, s.base as usize);
    for _ in 0..K {
        let n = upto(M);
        if any_bool() {
            let mut b = [0u8; M];
            for i in 0..M { b[i] = (put + i) as u8 }
            let room = Q::CAP - (put - got);
            let k = if n < room { n } else { room };
            done!(q.write(&b[..n]), k);
            put += k;
        } else {
            let mut b = [222u8; M];
            let k = if n < put - got { n } else { put - got };
            done!(q.read(&mut b[..n]), k);
            for i in 0..M { check!(b[i] == if i < k { (got + i) as u8 } else { 222 }) }
            got += k;
        }
    }
    check!(ok(&q, put - got, |j| (got + j) as u8));
}
/// the ways of writing that come with `Write`
pub fn write_ways<Q: Deq<A = u8> + Write, const M: usize>() {
    let (mut q, s) = Q::any(0);
    let b = bytes::<M>();
    let (m, n) = (upto(M), upto(M));
    assume(m <= n);
    let room = Q::CAP - s.len;
    let k = match below(2) {
        0 => {
            let r = q.write_all(&b[..n]);
            check!(r.is_ok() == (n <= room));
            core::mem::forget(r);
            if n < room { n } else { room }
        }
        // as much of the pieces, in order, as it says
        _ => match q.write_vectored(&[IoSlice::new(&b[..m]), IoSlice::new(&b[m..n])]) {
            Ok(k) => { check!(k <= n && k <= room && (k > 0 || n == 0 || room == 0)); k }
            Err(e) => { core::mem::forget(e); check!(false); 0 }
        }
    };
    check!(ok(&q, s.len + k, |j| if j < s.len { s.at(j) } else { b[j - s.len] }));
}
/// the ways of reading that come with `Read`
pub fn read_ways<Q: Deq<A = u8> + Read, const M: usize>() {
    let (mut q, s) = Q::any(0);
    let mut b = [222u8; M];
    let (m, n) = (upto(M), upto(M));
    assume(m <= n);
    let j = below(M);
    if any_bool() {
        let r = q.read_exact(&mut b[..n]);
        check!(r.is_ok() == (n <= s.len));
        // nothing is said about what happens to the bytes when there are too few
        if r.is_ok() { check!(b[j] == if j < n { s.at(j) } else { 222 }); check!(ok(&q, s.len - n, |j| s.at(j + n))); }
        core::mem::forget(r);
    } else {
        let (x, y) = b[..n].split_at_mut(m);
        match q.read_vectored(&mut [IoSliceMut::new(x), IoSliceMut::new(y)]) {
            Ok(k) => {
                check!(k <= n && k <= s.len && (k > 0 || n == 0 || s.len == 0));
                check!(b[j] == if j < k { s.at(j) } else { 222 });
                check!(ok(&q, s.len - k, |j| s.at(j + k)));
            }
            Err(e) => { core::mem::forget(e); check!(false) }
        }
    }
}
/// everything to the end
pub fn read_all<Q: Deq<A = u8> + Read>() {
    let (mut q, s) = Q::any(0);
    let mut v = Vec::with_capacity(if any_bool() { Q::CAP + 1 } else { 0 });
    v.push(77);
    done!(q.read_to_end(&mut v), s.len);
    check!(v.len() == s.len + 1 && v[0] == 77);
    let j = below(Q::CAP);
    check!(j >= s.len || v[1 + j] == s.at(j));
    check!(q.len() == 0);
    core::mem::forget(v);
}
/// pieces much longer than there is room or anything to read, longer than a byte can count
pub fn long<Q: Deq<A = u8> + Read + Write>() {
    const M: usize = 600;
    static B: [u8; M] = { let mut b = [0; M]; let mut i = 0; while i < M { b[i] = i as u8 ^ 85; i += 1 } b };
    let (mut q, s) = Q::any(0);
    let n = upto(M);
    if any_bool() {
        let k = if n < Q::CAP - s.len { n } else { Q::CAP - s.len };
        done!(q.write(&B[..n]), k);
        check!(ok(&q, s.len + k, |j| if j < s.len { s.at(j) } else { B[j - s.len] }));
    } else {
        let mut b = [222u8; M];
        let k = if n < s.len { n } else { s.len };
        done!(q.read(&mut b[..n]), k);
        let j = below(M);
        check!(b[j] == if j < k { s.at(j) } else { 222 });
        check!(ok(&q, s.len - k, |j| s.at(j + k)));
    }
}
