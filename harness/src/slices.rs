//! What slices can be asked and told, of the container itself, with any arguments.
#![allow(dead_code)]
pub trait Count { fn count_up(&self) -> usize; }
impl<A> Count for [A] { fn count_up(&self) -> usize { let mut n = 0; for _ in self { n += 1 } n } }
#[macro_export]
macro_rules! slice_ask { ($c:ident, $s:ident, $A:ty, $N:expr) => { {
    let (i, j) = (any_usize(), any_usize());
    let n = $s.len;
    let is = |x: Option<&$A>, k: usize| match x { Some(x) => k < n && x.id() == $s.at(k), None => k >= n };
    let last = if n > 0 { n - 1 } else { $N };
    let mut good = true;
    let mut no = false;
    let what = below(12);
    let p = panics(|| match what {
        0 => good = is($c.first(), 0) && is($c.last(), last),
        1 => good = is($c.first_mut().map(|x| &*x), 0) && is($c.last_mut().map(|x| &*x), last),
        2 => { no = i > n; let (x, y) = $c.split_at(i); good = x.len() == i && y.len() == n - i && is(y.first(), i) && is(x.last(), if i > 0 { i - 1 } else { $N }) }
        3 => { no = i > n; let (x, y) = $c.split_at_mut(i); good = x.len() == i && y.len() == n - i && is(y.first(), i) && is(x.last(), if i > 0 { i - 1 } else { $N }) }
        4 => good = match $c.split_first() { Some((x, y)) => is(Some(x), 0) && y.len() == n - 1, None => n == 0 },
        5 => good = match $c.split_last() { Some((x, y)) => is(Some(x), last) && y.len() == n - 1, None => n == 0 },
        6 => { let v = any_u8(); let mut w = false; for k in 0..$N { w |= k < n && $s.at(k) == <$A>::mk(v).id() } good = $c.contains(&<$A>::mk(v)) == w }
        7 => { assume(i <= $N); let w: [$A; $N] = core::array::from_fn(|k| <$A>::mk($s.at(k))); good = $c.starts_with(&w[..i]) == (i <= n) && (n == 0 || $c.starts_with(&w[1..2]) == false) }
        8 => { assume(i <= n); let w: [$A; $N] = core::array::from_fn(|k| <$A>::mk($s.at(k))); good = $c.ends_with(&w[i..n]) }
        9 => { let mut k = 0; for x in $c.iter() { good &= is(Some(x), k); k += 1 } good &= k == n; for x in $c.iter_mut().rev() { k -= 1; good &= is(Some(x), k) } }
        10 => { let r = $c.get(i..j); good = match r { Some(r) => i <= j && j <= n && r.len() == j - i && is(r.first(), if i < j { i } else { $N }), None => i > j || j > n } }
        _ => good = $c.len() == n && $c.is_empty() == (n == 0) && $c.count_up() == n,
    });
    check!(p == no && good);
} } }
#[macro_export]
macro_rules! slice_tell { ($c:ident, $s:ident, $A:ty, $N:expr, $same:ident) => { {
    let (i, j) = (any_usize(), any_usize());
    let n = $s.len;
    let what = below(8);
    let no = match what { 0 => i >= n || j >= n, 1 | 2 => i > n, 3 => i != n, 4 => i >= n, 5 => i > n || j > n - i, _ => false };
    if what == 3 { assume(i <= $N) }
    if what == 5 { assume(i <= n || i > $N) }
    let w: [$A; $N] = core::array::from_fn(|k| <$A>::mk(200 + k as u8));
    let p = panics(|| match what {
        0 => $c.swap(i, j),
        1 => $c.rotate_left(i),
        2 => $c.rotate_right(i),
        3 => $c.copy_from_slice(&w[..i]),
        4 => $c[i] = w[0],
        5 => $c.copy_within(i.., if j <= $N { j } else { 0 }),
        6 => $c.fill(w[0]),
        _ => $c.reverse(),
    });
    if what == 5 { assume(j <= $N); let m = if i <= n { n - i } else { 0 }; check!(p == (i > n || j > n - m)); check!($c.len() == n); if !p { check!($same!(n, |k| if k >= j && k < j + m { $s.at(i + k - j) } else { $s.at(k) })) } return }
    check!(p == no);
    check!($same!(n, |k| if p { $s.at(k) } else { match what {
        0 => if k == i { $s.at(j) } else if k == j { $s.at(i) } else { $s.at(k) },
        1 => $s.at(if k + i < n { k + i } else { k + i - n }),
        2 => $s.at(if k >= i { k - i } else { k + n - i }),
        3 => 200 + k as u8,
        4 => if k == i { 200 } else { $s.at(k) },
        6 => 200,
        _ => $s.at(n - 1 - k),
    } }));
} } }
