//! Capacities that do not fit a byte: nothing is narrowed on the way.
use crate::sym::*;
use crate::*;
use array_ops::{Array, ArrayMut, HasLength};
use bitmaps::{Bits, BitsImpl};
use sized_chunks::*;
const FILE: u32 = 3800000;

// the element at position k of the full container is k
pub fn chunk<const N: usize, const L: usize, const R: usize>() {
    let mut c: Chunk<u16, N> = Chunk::new();
    for i in 0..N { c.push_back(i as u16) }
    check!(c.is_full() && c.len() == N);
    c.drop_right(R);
    c.drop_left(L);
    let (l, n) = (L, R - L);
    let (i, j) = (upto(N), upto(N));
    // (length, what was position 0, seen from j) after the call
    let at = |k: usize| (l + k) as u16;
    macro_rules! now { ($len:expr, $f:expr) => { { check!(c.len() == $len); check!(c.is_empty() == ($len == 0) && c.is_full() == ($len == N)); if j < $len { check!(c[j] == $f(j)) } } } }
    match below(10) {
        0 => { assume(n < N); c.push_back(9999); now!(n + 1, |j| if j < n { at(j) } else { 9999 }) }
        1 => { assume(n < N); c.push_front(9999); now!(n + 1, |j| if j > 0 { at(j - 1) } else { 9999 }) }
        2 => { assume(n > 0); check!(c.pop_back() == at(n - 1)); now!(n - 1, at) }
        3 => { assume(n > 0); check!(c.pop_front() == at(0)); now!(n - 1, |j| at(j + 1)) }
        4 => { assume(i <= n); let d = c.split_off(i); now!(i, at); check!(d.len() == n - i); if j < n - i { check!(d[j] == at(i + j)) } }
        5 => { assume(i <= n); c.drop_left(i); now!(n - i, |j| at(i + j)) }
        6 => { assume(i <= n); c.drop_right(i); now!(i, at) }
        7 => { let mut it = c.into_iter(); check!(it.size_hint() == (n, Some(n)) && it.len() == n); if n > 0 { check!(it.next_back() == Some(at(n - 1))); check!(it.len() == n - 1) } }
        8 => { let mut d = c.drain(); check!(d.len() == n); if n > 0 { check!(d.next() == Some(at(0))); check!(d.len() == n - 1) } }
        _ => { check!(c.get(i).copied() == if i < n { Some(at(i)) } else { None }); now!(n, at) }
    }
}
/// starting at `o`, `n` elements
pub fn ring<const N: usize, const O: usize, const LEN: usize>() {
    let mut c: RingBuffer<u16, N> = RingBuffer::new();
    let (o, n) = (O, LEN);
    for _ in 0..o { c.push_back(7777) }
    c.drop_left(o);
    for i in 0..n { c.push_back(i as u16) }
    check!(c.is_full() == (n == N) && c.len() == n);
    let (i, j) = (upto(N), upto(N));
    let at = |k: usize| k as u16;
    macro_rules! now { ($len:expr, $f:expr) => { { check!(c.len() == $len); check!(c.is_empty() == ($len == 0) && c.is_full() == ($len == N)); if j < $len { check!(c[j] == $f(j)) } } } }
    match below(9) {
        0 => { assume(n < N); c.push_back(9999); now!(n + 1, |j| if j < n { at(j) } else { 9999 }) }
        1 => { assume(n < N); c.push_front(9999); now!(n + 1, |j| if j > 0 { at(j - 1) } else { 9999 }) }
        2 => { check!(c.pop_back() == Some(at(n - 1))); now!(n - 1, at) }
        3 => { check!(c.pop_front() == Some(at(0))); now!(n - 1, |j| at(j + 1)) }
        4 => { let mut it = c.into_iter(); check!(it.size_hint() == (n, Some(n)) && it.len() == n); check!(it.next_back() == Some(at(n - 1))); check!(it.len() == n - 1) }
        5 => { let mut it = c.iter(); check!(it.len() == n); check!(it.next_back() == Some(&at(n - 1)) && it.next() == Some(&0)); check!(it.len() == n - 2) }
        6 => { let mut it = c.iter_mut(); check!(it.len() == n); check!(it.next_back() == Some(&mut at(n - 1)) && it.next() == Some(&mut 0)); check!(it.len() == n - 2) }
        7 => { assume(i < j && j <= n); let v = c.slice(i..j); check!(v.len() == j - i); check!(v.first() == Some(&at(i)) && v.last() == Some(&at(j - 1))); check!(v.iter().next() == Some(&at(i)) && v.iter().next_back() == Some(&at(j - 1))) }
        _ => { check!(c.get(i).copied() == if i < n { Some(at(i)) } else { None }); now!(n, at) }
    }
}
pub fn sparse<const N: usize, const K: usize>() where BitsImpl<N>: Bits {
    let mut c: SparseChunk<u16, N> = SparseChunk::new();
    let (i, k, j) = (below(N), below(N), any_usize());
    assume(i <= k);
    check!(c.insert(i, i as u16).is_none());
    check!(c.insert(k, k as u16) == if i == k { Some(i as u16) } else { None });
    let n = 1 + (i != k) as usize;
    check!(c.len() == n && !c.is_full() && c.first_index() == Some(i));
    check!(c.get(j).copied() == if j == i || j == k { Some(j as u16) } else { None });
    macro_rules! two { ($it:expr, $a:expr, $b:expr) => { { let mut it = $it; check!(it.next() == Some($a)); if i != k { check!(it.next() == Some($b)) } check!(it.next().is_none()) } } }
    match K {
        0 => two!(c.iter(), &(i as u16), &(k as u16)),
        1 => two!(c.iter_mut(), &mut (i as u16), &mut (k as u16)),
        2 => two!(c.indices(), i, k),
        3 => two!(c.entries(), (i, &(i as u16)), (k, &(k as u16))),
        4 => two!(c.drain(), i as u16, k as u16),
        5 => { check!(c.pop() == Some(i as u16)); check!(c.len() == n - 1 && c.first_index() == if i == k { None } else { Some(k) }) }
        6 => { check!(c.remove(k) == Some(k as u16)); check!(c.len() == n - 1 && c.first_index() == if i == k { None } else { Some(i) }) }
        _ => (),
    }
}
/// one position after the other
pub fn every<const N: usize>() where BitsImpl<N>: Bits {
    let mut c: SparseChunk<u16, N> = SparseChunk::new();
    let i = below(N);
    c.insert(i, i as u16);
    macro_rules! all { ($it:expr, $v:expr) => { { let mut it = $it; for j in 0..N { check!(it.size_hint() == (N - j, Some(N - j))); match it.next() { Some(Some(x)) => check!(j == i && x == $v), Some(None) => check!(j != i), None => check!(false) } } check!(it.next().is_none()) } } }
    match below(3) {
        0 => all!(c.option_iter(), &(i as u16)),
        1 => all!(c.option_iter_mut(), &mut (i as u16)),
        _ => all!(c.option_drain(), i as u16),
    }
}
pub fn inline<T>() {
    let cap = InlineArray::<u16, T>::CAPACITY;
    let mut c: InlineArray<u16, T> = InlineArray::new();
    for i in 0..cap { c.push(i as u16) }
    check!(c.is_full() && c.len() == cap);
    let r = upto(cap);
    let d = c.split_off(r);
    let (i, j) = (upto(cap), upto(cap));
    check!(d.len() == cap - r);
    if j < cap - r { check!(d[j] == (r + j) as u16) }
    let at = |k: usize| k as u16;
    macro_rules! now { ($len:expr, $f:expr) => { { check!(c.len() == $len); check!(c.is_empty() == ($len == 0) && c.is_full() == ($len == cap)); if j < $len { check!(c[j] == $f(j)) } } } }
    match below(4) {
        0 => { assume(r < cap); c.push(9999); now!(r + 1, |j| if j < r { at(j) } else { 9999 }) }
        1 => { assume(r > 0); check!(c.pop() == Some(at(r - 1))); now!(r - 1, at) }
        2 => { let mut it = c.into_iter(); check!(it.len() == r); if r > 0 { check!(it.next_back() == Some(at(r - 1))); check!(it.len() == r - 1) } }
        _ => { check!(c.get(i).copied() == if i < r { Some(at(i)) } else { None }); now!(r, at) }
    }
}

pub trait W: Clone + PartialEq + PartialOrd { fn w(v: usize) -> Self; fn v(&self) -> usize; }
impl W for u16 { #[inline(always)] fn w(v: usize) -> u16 { v as u16 } #[inline(always)] fn v(&self) -> usize { *self as usize } }
/// 24 bytes, all of which say the same
#[derive(Clone, PartialEq, PartialOrd)] pub struct B3(u64, u64, u64);
impl W for B3 { #[inline(always)] fn w(v: usize) -> B3 { B3(v as u64, !(v as u64), v as u64) } #[inline(always)] fn v(&self) -> usize { if self.0 == self.2 && self.1 == !self.0 { self.0 as usize } else { 777777 } } }
/// counts the releases of one of them
#[derive(PartialEq, PartialOrd)] pub struct Dr(u16);
static mut WATCHED: u16 = 0;
static mut RELEASED: usize = 0;
impl Drop for Dr { #[inline(always)] fn drop(&mut self) { unsafe { RELEASED += (self.0 == WATCHED) as usize } } }
impl Clone for Dr { #[inline(always)] fn clone(&self) -> Dr { Dr(self.0 + 5000) } }
impl W for Dr { #[inline(always)] fn w(v: usize) -> Dr { Dr(v as u16) } #[inline(always)] fn v(&self) -> usize { self.0 as usize } }
fn watched() -> usize { let w = below(20000); unsafe { WATCHED = w as u16; RELEASED = 0; } w }
fn released() -> usize { unsafe { RELEASED } }

macro_rules! bulk { ($C:ident) => {
    use super::*;
    pub type C<A, const N: usize> = $C<A, N>;
    // of n elements base.. , the first at slot l
    #[inline(always)]
    pub fn new<A: W, const N: usize>(l: usize, n: usize, base: usize) -> C<A, N> {
        let mut c = C::new();
        for _ in 0..l { c.push_back(A::w(60000)) }
        c.drop_left(l);
        for i in 0..n { c.push_back(A::w(base + i)) }
        c
    }
    /// everything that moves a run of elements
    pub fn bulk<A: W, const N: usize, const L: usize, const LEN: usize, const OP: usize>() {
        let mut c = new::<A, N>(L, LEN, 0);
        let (i, j) = (upto(N), upto(N));
        let (rest, far) = (N - LEN, N - LEN - 3);
        macro_rules! is { ($c:expr, $len:expr, $g:expr) => { { let len: usize = $len; check!($c.len() == len && $c.is_empty() == (len == 0) && $c.is_full() == (len == N)); if j < len { check!($c[j].v() == $g(j)) } } } }
        match OP {
            0 => { assume(LEN < N && i <= LEN); c.insert(i, A::w(9999)); is!(c, LEN + 1, |j: usize| if j < i { j } else if j == i { 9999 } else { j - 1 }) }
            1 => { assume(i < LEN); check!(c.remove(i).v() == i); is!(c, LEN - 1, |j: usize| if j < i { j } else { j + 1 }) }
            2 => { let mut d = new::<A, N>(far, rest, 1000); assume(i <= rest); c.drain_from_front(&mut d, i); is!(c, LEN + i, |j: usize| if j < LEN { j } else { 1000 + j - LEN }); is!(d, rest - i, |j: usize| 1000 + i + j) }
            3 => { let mut d = new::<A, N>(far, rest, 1000); assume(i <= rest); c.drain_from_back(&mut d, i); is!(c, LEN + i, |j: usize| if j < i { 1000 + rest - i + j } else { j - i }); is!(d, rest - i, |j: usize| 1000 + j) }
            4 => { let mut d = new::<A, N>(far, rest, 1000); c.append(&mut d); is!(c, N, |j: usize| if j < LEN { j } else { 1000 + j - LEN }); is!(d, 0, |_| 0) }
            5 => { assume(i <= LEN); let d = C::<A, N>::from_front(&mut c, i); is!(d, i, |j: usize| j); is!(c, LEN - i, |j: usize| i + j) }
            6 => { assume(i <= LEN); let d = C::<A, N>::from_back(&mut c, i); is!(d, i, |j: usize| LEN - i + j); is!(c, LEN - i, |j: usize| j) }
            7 => { assume(i <= LEN); c.insert_from(i, (1000..1000 + rest).map(A::w)); is!(c, N, |j: usize| if j < i { j } else if j < i + rest { 1000 + j - i } else { j - rest }) }
            8 => { let d = c.clone(); c.clear(); is!(c, 0, |_| 0); is!(d, LEN, |j: usize| A::w(j).clone().v()) }
            9 => { c.extend((1000..1000 + rest).map(A::w)); is!(c, N, |j: usize| if j < LEN { j } else { 1000 + j - LEN }) }
            10 => { assume(i <= LEN); let d = c.split_off(i); is!(d, LEN - i, |j: usize| i + j); is!(c, i, |j: usize| j) }
            11 => { let mut it = (0..2 * N).map(A::w); let d = C::<A, N>::collect_from(&mut it, LEN); is!(d, LEN, |j: usize| j); check!(it.next().map(|x| x.v()) == Some(LEN)) }
            _ => { let k = upto(N); assume(i < LEN && k < LEN); c.swap(i, k); is!(c, LEN, |j: usize| if j == i { k } else if j == k { i } else { j }) }
        }
    }
    /// the same, and who is released
    pub fn owned<const N: usize, const L: usize, const LEN: usize, const OP: usize>() {
        let mut c = new::<Dr, N>(L, LEN, 0);
        let rest = N - LEN;
        let (i, w) = (upto(N), watched());
        let mine = w < LEN;
        macro_rules! gone { ($e:expr) => { check!(released() == ($e) as usize) } }
        match OP {
            0 => { assume(i <= LEN); c.drop_left(i); gone!(w < i); drop(c); gone!(mine) }
            1 => { assume(i <= LEN); c.drop_right(i); gone!(w >= i && mine); drop(c); gone!(mine) }
            2 => { c.clear(); gone!(mine); drop(c); gone!(mine) }
            3 => { let mut d = new::<Dr, N>(rest - 3, rest, 1000); assume(i <= rest); c.drain_from_front(&mut d, i); gone!(false); drop(c); gone!(mine || (w >= 1000 && w < 1000 + i)); drop(d); gone!(mine || (w >= 1000 && w < 1000 + rest)) }
            4 => { assume(i < LEN); let x = c.remove(i); gone!(false); drop(c); gone!(mine && w != i); drop(x); gone!(mine) }
            5 => { assume(i <= LEN && LEN < N); c.insert(i, Dr(9999)); gone!(false); drop(c); gone!(mine || w == 9999) }
            6 => { let d = c.clone(); gone!(false); drop(d); gone!(w >= 5000 && w < 5000 + LEN); drop(c); gone!(mine || w >= 5000 && w < 5000 + LEN) }
            7 => { let mut it = c.into_iter(); check!(it.next().is_some()); check!(it.next_back().is_some()); gone!(w == 0 || w == LEN - 1); drop(it); gone!(mine) }
            8 => { { let mut it = c.drain(); check!(it.next().is_some()); check!(it.next_back().is_some()); gone!(w == 0 || w == LEN - 1); } drop(c); gone!(mine) }
            9 => { assume(i <= LEN); let d = c.split_off(i); gone!(false); drop(d); gone!(w >= i && mine); drop(c); gone!(mine) }
            _ => { c.extend((1000..1000 + rest).map(Dr::w)); gone!(false); drop(c); gone!(mine || (w >= 1000 && w < 1000 + rest)) }
        }
    }
    /// two that differ in one place, if at all
    pub fn compared<const N: usize, const L: usize, const M: usize, const LEN: usize>() {
        let mut c = new::<u16, N>(L, LEN, 0);
        let d = new::<u16, N>(M, LEN, 0);
        let (i, v) = (below(LEN), any_u8() as u16);
        c[i] = v;
        let o = v.cmp(&(i as u16));
        match below(3) { 0 => check!((c == d) == o.is_eq() && (c != d) == o.is_ne()), 1 => check!(c.partial_cmp(&d) == Some(o)), _ => check!(d.cmp(&c) == o.reverse()) }
    }
    /// into every other of 0, 2, 4 ..
    pub fn ordered<const N: usize, const L: usize, const LEN: usize>() {
        let mut c: C<u16, N> = C::new();
        for _ in 0..L { c.push_back(60000) }
        c.drop_left(L);
        for i in 0..LEN { c.push_back(2 * i as u16) }
        let (v, j) = (upto(2 * LEN + 1), below(LEN + 1));
        c.insert_ordered(v as u16);
        check!(c.len() == LEN + 1);
        let k = if v < 2 * LEN { (v + 1) / 2 } else { LEN };
        check!(c[j] as usize == if j < k { 2 * j } else if j == k { v } else { 2 * (j - 1) });
    }
    /// skipping from either end
    pub fn skipped<const N: usize, const L: usize, const LEN: usize, const OP: usize>() {
        let mut c = new::<u16, N>(L, LEN, 0);
        let (i, back) = (upto(N), any_bool());
        macro_rules! go { ($it:expr) => { {
            let mut it = $it;
            let x = if back { it.nth_back(i) } else { it.nth(i) };
            let left = if i < LEN { LEN - i - 1 } else { 0 };
            check!(x.map(|x| x.v()) == if i >= LEN { None } else if back { Some(LEN - 1 - i) } else { Some(i) });
            check!(it.len() == left && it.size_hint() == (left, Some(left)));
            let (a, z) = if back { (0, left.wrapping_sub(1)) } else { (LEN - left, LEN - 1) };
            if any_bool() { check!(it.next().map(|x| x.v()) == if left == 0 { None } else { Some(a) }) } else { check!(it.next_back().map(|x| x.v()) == if left == 0 { None } else { Some(z) }) }
        } } }
        match OP { 0 => go!(c.iter()), 1 => go!(c.iter_mut()), 2 => go!(c.into_iter()), _ => go!(c.drain()) }
    }
} }
pub mod c { bulk!(Chunk); }
pub mod r { bulk!(RingBuffer);
    /// views of it
    pub fn view<const N: usize, const L: usize, const LEN: usize, const OP: usize>() {
        let mut c = new::<u16, N>(L, LEN, 0);
        let (a, b, k) = (upto(N), upto(N), upto(N));
        assume(a <= b && b <= LEN);
        let n = b - a;
        match OP {
            0 => { let v = c.slice(a..b); check!(v.len() == n && v.get(k).copied() == if k < n { Some((a + k) as u16) } else { None }) }
            1 => { assume(k <= n); let (x, y) = c.slice(a..b).split_at(k); check!(x.len() == k && y.len() == n - k); if k < n { check!(y[0] as usize == a + k && y[n - k - 1] as usize == b - 1) } if k > 0 { check!(x[k - 1] as usize == a + k - 1 && x[0] as usize == a) } }
            2 => { assume(k < n); { let mut v = c.slice_mut(a..b); v[k] = 9999; } let j = below(LEN); check!(c[j] as usize == if j == a + k { 9999 } else { j }) }
            3 => { assume(k < n); { let mut v = c.slice_mut(a..b); check!(v.set(k, 9999).map(|x| x as usize) == Some(a + k)); } let j = below(LEN); check!(c[j] as usize == if j == a + k { 9999 } else { j }) }
            4 => { let m = upto(N); assume(k <= m && m <= n); let v = c.slice(a..b).slice(k..m); check!(v.len() == m - k && v.first().copied() == if k < m { Some((a + k) as u16) } else { None } && v.last().copied() == if k < m { Some((a + m - 1) as u16) } else { None }) }
            5 => { assume(k < n); { let mut v = c.slice_mut(a..b); for (i, x) in v.iter_mut().enumerate() { if i == k { *x = 9999 } } } let j = below(LEN); check!(c[j] as usize == if j == a + k { 9999 } else { j }) }
            _ => { assume(n <= 20); let d = c.slice(a..b).to_owned(); check!(d.len() == n); if k < n { check!(d[k] as usize == a + k) } }
        }
    }
}
