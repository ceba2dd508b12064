@@ top
// Increasing sequences of indices, one after the other.
pub mod vxcombos {
use vstd::prelude::*;
use crate::vxrules::*;

/// the increasing sequence of r numbers in lo..n at position k
pub open spec fn unrank(k: int, r: int, lo: int, n: int) -> Seq<int>
    decreases n - lo
{
    if r <= 0 { Seq::empty() } else if lo >= n { Seq::new(r as nat, |i: int| 0int) }
    else if k < nc(n - lo - 1, r - 1) { seq![lo] + unrank(k, r - 1, lo + 1, n) }
    else { unrank(k - nc(n - lo - 1, r - 1), r, lo + 1, n) }
}
pub proof fn lemma_unrank(k: int, r: int, lo: int, n: int)
    requires 0 <= r, lo <= n, 0 <= k < nc(n - lo, r),
    ensures unrank(k, r, lo, n).len() == r, inc(unrank(k, r, lo, n), lo, n), pos(unrank(k, r, lo, n), lo, n) == k,
    decreases n - lo
{
    if r > 0 && lo < n {
        let c = nc(n - lo - 1, r - 1);
        if k < c {
            let t = unrank(k, r - 1, lo + 1, n);
            lemma_unrank(k, r - 1, lo + 1, n);
            let u = seq![lo] + t;
            assert(u.drop_first() =~= t);
            assert forall|i: int| 0 <= i < u.len() implies lo <= #[trigger] u[i] < n by { if i > 0 { assert(u[i] == t[i - 1]); } }
            assert forall|i: int, j: int| 0 <= i < j < u.len() implies #[trigger] u[i] < #[trigger] u[j] by { assert(u[j] == t[j - 1]); if i > 0 { assert(u[i] == t[i - 1]); } }
        } else {
            lemma_unrank(k - c, r, lo + 1, n);
            let u = unrank(k - c, r, lo + 1, n);
            assert(u[0] != lo);
        }
    }
}
pub proof fn lemma_unrank_pos(c: Seq<int>, lo: int, n: int)
    requires inc(c, lo, n), lo <= n,
    ensures unrank(pos(c, lo, n), c.len() as int, lo, n) =~= c,
    decreases n - lo
{
    lemma_inc_len(c, lo, n);
    if c.len() > 0 {
        lemma_inc_tail(c, lo, n);
        let t = c.drop_first();
        if c[0] == lo {
            lemma_pos_bounds(t, lo + 1, n);
            lemma_unrank_pos(t, lo + 1, n);
            assert(c =~= seq![lo] + t);
        } else {
            lemma_pos_bounds(c, lo + 1, n);
            lemma_unrank_pos(c, lo + 1, n);
        }
    }
}
/// the last one: n-r, ..., n-1
pub open spec fn is_last(c: Seq<int>, n: int) -> bool { forall|j: int| 0 <= j < c.len() ==> #[trigger] c[j] == n - c.len() + j }
pub proof fn lemma_pos_last(c: Seq<int>, lo: int, n: int)
    requires is_last(c, n), lo <= n - c.len(),
    ensures pos(c, lo, n) == nc(n - lo, c.len() as int) - 1, inc(c, lo, n),
    decreases n - lo
{
    if c.len() > 0 {
        let t = c.drop_first();
        assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j] == n - t.len() + j by { assert(t[j] == c[j + 1]); }
        if c[0] == lo {
            lemma_pos_last(t, lo + 1, n);
            lemma_nc_full(n - lo);
            lemma_nc_full(n - lo - 1);
        } else { lemma_pos_last(c, lo + 1, n); }
    }
}
proof fn lemma_nc_full(m: int)
    requires m >= 0,
    ensures nc(m, m) == 1, nc(m, m + 1) == 0,
    decreases m
{
    if m > 0 { lemma_nc_full(m - 1); }
}
pub proof fn lemma_pos_first(c: Seq<int>, lo: int, n: int)
    requires forall|j: int| 0 <= j < c.len() ==> #[trigger] c[j] == lo + j,
    ensures pos(c, lo, n) == 0,
    decreases c.len()
{
    if c.len() > 0 && lo < n {
        let t = c.drop_first();
        assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j] == lo + 1 + j by { assert(t[j] == c[j + 1]); }
        lemma_pos_first(t, lo + 1, n);
    }
}
/// `d` follows `c`: the entry at i is the last that can still grow
pub open spec fn follows(c: Seq<int>, d: Seq<int>, i: int, n: int) -> bool {
    d.len() == c.len() && 0 <= i < c.len() && c[i] < n - c.len() + i
    && (forall|j: int| 0 <= j < i ==> #[trigger] d[j] == c[j])
    && (forall|j: int| i < j < c.len() ==> #[trigger] c[j] == n - c.len() + j)
    && (forall|j: int| i <= j < c.len() ==> #[trigger] d[j] == c[i] + 1 + j - i)
}
pub proof fn lemma_follows(c: Seq<int>, d: Seq<int>, i: int, lo: int, n: int)
    requires inc(c, lo, n), follows(c, d, i, n), lo <= n,
    ensures pos(d, lo, n) == pos(c, lo, n) + 1, inc(d, lo, n),
    decreases n - lo
{
    lemma_inc_tail(c, lo, n);
    assert(inc(d, lo, n)) by {
        assert forall|j: int| 0 <= j < d.len() implies lo <= #[trigger] d[j] < n by { assert(lo <= c[j]); assert(lo <= c[i]); }
        assert forall|j: int, k: int| 0 <= j < k < d.len() implies #[trigger] d[j] < #[trigger] d[k] by {
            if k < i { assert(c[j] < c[k]); } else if j < i { assert(c[j] < c[i]); }
        }
    }
    let (s, t) = (c.drop_first(), d.drop_first());
    if c[0] == lo {
        if i == 0 {
            assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] == n - s.len() + j by { assert(s[j] == c[j + 1]); }
            lemma_pos_last(s, lo + 1, n);
            lemma_pos_first(d, lo + 1, n);
        } else {
            assert forall|j: int| 0 <= j < i - 1 implies #[trigger] t[j] == s[j] by { assert(t[j] == d[j + 1] && s[j] == c[j + 1]); }
            assert forall|j: int| i - 1 < j < s.len() implies #[trigger] s[j] == n - s.len() + j by { assert(s[j] == c[j + 1]); }
            assert forall|j: int| i - 1 <= j < s.len() implies #[trigger] t[j] == s[i - 1] + 1 + j - (i - 1) by { assert(t[j] == d[j + 1]); }
            assert(d[0] == c[0]);
            lemma_follows(s, t, i - 1, lo + 1, n);
        }
    } else {
        assert(d[0] > lo) by { if i > 0 { assert(d[0] == c[0]); } }
        lemma_follows(c, d, i, lo + 1, n);
    }
}
/// the array with the given elements
pub open spec fn arr_of<T, const N: usize>(s: Seq<T>) -> [T; N] { choose|a: [T; N]| a@ == s }
pub open spec fn pick<T>(data: Seq<T>, c: Seq<int>) -> Seq<T> { Seq::new(c.len(), |i: int| data[c[i]]) }
/// all selections of N elements, in lexicographic order of their indices, from position k on
pub open spec fn combos_from<T, const N: usize>(data: Seq<T>, k: int) -> Seq<[T; N]> {
    Seq::new((nc(data.len() as int, N as int) - k) as nat, |j: int| arr_of::<T, N>(pick(data, unrank(k + j, N as int, 0, data.len() as int))))
}
pub proof fn lemma_arr_of2<T>(s: Seq<T>)
    requires s.len() == 2,
    ensures arr_of::<T, 2>(s)@ == s,
{ let a: [T; 2] = [s[0], s[1]]; assert(a@ =~= s); }
pub proof fn lemma_arr_of3<T>(s: Seq<T>)
    requires s.len() == 3,
    ensures arr_of::<T, 3>(s)@ == s,
{ let a: [T; 3] = [s[0], s[1], s[2]]; assert(a@ =~= s); }
pub proof fn lemma_arr_of5<T>(s: Seq<T>)
    requires s.len() == 5,
    ensures arr_of::<T, 5>(s)@ == s,
{ let a: [T; 5] = [s[0], s[1], s[2], s[3], s[4]]; assert(a@ =~= s); }
}
