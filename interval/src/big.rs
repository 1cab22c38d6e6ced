//! Sizes: trees of many intervals, at every size up to a bound and around the powers of two beyond.
use engine::{suite, Ch, Stats, Suite, Tier, Verdict};
use plotline_plugin_interval::{Interval, IntervalSearchTree};
use std::cmp::Ordering;
use std::fmt::Debug;

type Suites = Vec<Box<dyn Suite>>;

/// A type of bounds, in the order of the numbers they are made of.
trait B: Copy + Ord + Debug + 'static {
    fn mk(k: u32) -> Self;
}
impl B for u32 {
    fn mk(k: u32) -> Self {
        k
    }
}
impl B for i64 {
    fn mk(k: u32) -> Self {
        (k as i64 - 100) << 33
    }
}
impl B for (i8, char) {
    fn mk(k: u32) -> Self {
        ((k / 40) as i8 - 100, char::from_u32('a' as u32 + k % 40).expect("harness: bound"))
    }
}
/// Ordered against its representation.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Down(u32);
impl PartialOrd for Down {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Down {
    fn cmp(&self, o: &Self) -> Ordering {
        o.0.cmp(&self.0)
    }
}
impl B for Down {
    fn mk(k: u32) -> Self {
        Down(u32::MAX - k)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Iv<T> {
    lo: T,
    hi: T,
    at: (u32, u32),
    tag: u32,
}
impl<T: B> Interval for Iv<T> {
    type Bound = T;
    fn lo(&self) -> T {
        self.lo
    }
    fn hi(&self) -> T {
        self.hi
    }
}
fn iv<T: B>(lo: u32, hi: u32, tag: u32) -> Iv<T> {
    Iv { lo: T::mk(lo), hi: T::mk(hi), at: (lo, hi), tag }
}

fn sizes(every: usize, most: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=every).collect();
    let mut p = 1;
    while p <= most {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    v.extend([500, 1000, 2000].into_iter().filter(|n| *n <= most));
    v.retain(|n| *n <= most);
    v.sort();
    v.dedup();
    v
}

/// n numbers in one of 5 orders.
fn order(n: u32, how: usize) -> Vec<u32> {
    let mut v: Vec<u32> = (0..n).collect();
    match how {
        0 => {}
        1 => v.reverse(),
        // from the outside in
        2 => v = (0..n).map(|k| if k % 2 == 0 { k / 2 } else { n - 1 - k / 2 }).collect(),
        3 => v.sort_by_key(|k| k.wrapping_mul(2654435761)),
        // from the middle out
        _ => v.sort_by_key(|k| (k.abs_diff(n / 2), *k)),
    }
    v
}
/// The k-th of n intervals.
fn span<T: B>(how: usize, k: u32, n: u32) -> Iv<T> {
    match how {
        0 => iv(2 * k, 2 * k, 0),
        1 => iv(2 * k, 2 * k + 1 + k.wrapping_mul(2654435761) % (n / 4 + 1), 0),
        // nested
        2 => iv(k, 2 * n - k, 0),
        // many with equal lower bounds
        3 => iv(k % 5, k % 5 + k / 5, 0),
        // equal bounds, some of them the very same
        4 => iv(n / 2, n / 2 + 1, k % 3),
        // few long ones among points
        _ => iv(2 * k, if k % 17 == 3 { 2 * n } else { 2 * k }, 0),
    }
}
const SPANS: usize = 6;

fn compare<T: B>(t: &IntervalSearchTree<Iv<T>>, list: &[Iv<T>], n: u32, many: bool) -> Verdict {
    let mut queries = vec![(0, 4 * n + 9), (3 * n + 1, 4 * n), (0, 0), (1, 1), (n / 2, n / 2), (n, n), (2 * n, 2 * n), (n / 2 + 1, n / 2 + 2), (2, n / 3 + 3)];
    for k in 0..if many { 24 } else { 4 } {
        let lo = (n as u64 * 2 * k / 24) as u32 + 1;
        queries.extend([(lo, lo), (lo, lo + n / 9)]);
    }
    for (lo, hi) in queries {
        let q = iv(lo, hi, 9);
        let mut want: Vec<(u32, u32, u32)> = list.iter().filter(|i| i.at.0 <= hi && lo <= i.at.1).map(|i| (i.at.0, i.at.1, i.tag)).collect();
        want.sort();
        let mut got = vec![];
        t.for_each_intersection(&q, |i| got.push((i.at.0, i.at.1, i.tag)));
        got.sort();
        if got != want {
            let at = got.iter().zip(&want).position(|(a, b)| a != b);
            return Err(format!("[{lo},{hi}] overlaps {} intervals, expected {}; the first difference is at {at:?}", got.len(), want.len()));
        }
        if t.intersects(&q) == want.is_empty() {
            return Err(format!("whether something overlaps [{lo},{hi}]: {}, {} do", want.is_empty(), want.len()));
        }
    }
    Ok(())
}

fn inserted<T: B>(n: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let n = n as u32;
    let (o, s) = (ch.pick(5), ch.pick(SPANS));
    let list: Vec<Iv<T>> = order(n, o).into_iter().map(|k| span(s, k, n)).collect();
    let mut t = IntervalSearchTree::default();
    let asked = n <= 64 && ch.flag();
    for (k, i) in list.iter().enumerate() {
        t.insert(*i);
        if asked {
            compare(&t, &list[..=k], n, false).map_err(|e| format!("{} of {n} intervals (selection {s}) inserted in order {o}: {e}", k + 1))?;
        }
    }
    ch.steps(n as u64);
    st.state(&(n, o, s));
    st.outcome(&(n, s));
    compare(&t, &list, n, true).map_err(|e| format!("{n} intervals (selection {s}) inserted in order {o}: {e}"))
}

fn deleted<T: B>(n: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let n = n as u32;
    let (o, s, d, which) = (ch.pick(5), ch.pick(SPANS), ch.pick(5), ch.pick(3));
    let list: Vec<Iv<T>> = order(n, o).into_iter().map(|k| span(s, k, n)).collect();
    let mut t = IntervalSearchTree::default();
    for i in &list {
        t.insert(*i);
    }
    let mut left = list.clone();
    let gone: Vec<u32> = order(n, d)
        .into_iter()
        .filter(|k| match which {
            0 => true,
            1 => k % 2 == 1,
            _ => *k < 3 || *k + 3 > n,
        })
        .collect();
    let what = |k: usize| format!("{n} intervals (selection {s}) inserted in order {o}, {k} deleted in order {d} (choice {which})");
    // Asked nothing, now and then or all the way.
    let asked = if n <= 64 { ch.pick(3) } else { ch.pick(2) };
    for (k, g) in gone.iter().enumerate() {
        let i = span::<T>(s, *g, n);
        t.delete(&i);
        // What is not there cannot be deleted.
        t.delete(&Iv { tag: 7, ..i });
        let p = left.iter().position(|x| *x == i).ok_or("harness: interval")?;
        left.swap_remove(p);
        if asked == 2 || asked == 1 && (k < 2 || k.is_power_of_two() || k + 3 > gone.len()) {
            compare(&t, &left, n, false).map_err(|e| format!("{}: {e}", what(k + 1)))?;
        }
        ch.step();
    }
    compare(&t, &left, n, true).map_err(|e| format!("{}: {e}", what(gone.len())))?;
    for g in gone.iter().rev() {
        t.insert(span(s, *g, n));
        left.push(span(s, *g, n));
    }
    st.state(&(n, o, s, d, which));
    st.outcome(&(n, s, which));
    compare(&t, &left, n, true).map_err(|e| format!("{}, then inserted again: {e}", what(gone.len())))
}

macro_rules! by_type {
    ($f:ident, $n:expr, $ch:expr, $st:expr) => {
        match $n % 8 {
            3 => $f::<i64>($n, $ch, $st),
            5 => $f::<(i8, char)>($n, $ch, $st),
            6 => $f::<Down>($n, $ch, $st),
            _ => $f::<u32>($n, $ch, $st),
        }
    };
}

pub fn c20(t: Tier) -> Suites {
    let (every, most) = t.pick((300, 2049), (600, 2049));
    vec![suite(
        "sizes",
        format!("n intervals for every n up to {every} and the neighbours of the powers of two up to {most}: 6 selections (points, of different lengths, nested, with equal lower bounds, all equal, few long ones) in 5 orders, 57 queries, up to 64 also after each insertion; 4 types of bounds in turn"),
        sizes(every, most),
        |n: &usize, ch, st| by_type!(inserted, *n, ch, st),
    )]
}
pub fn c21(t: Tier) -> Suites {
    let (every, most) = t.pick((130, 513), (260, 1025));
    vec![suite(
        "sizes",
        format!("n intervals for every n up to {every} and the neighbours of the powers of two up to {most}: 6 selections in 5 orders; all, every other one or those at the ends deleted in 5 orders, then inserted again; no queries, some or (up to 64) after each step; 4 types of bounds in turn"),
        sizes(every, most),
        |n: &usize, ch, st| by_type!(deleted, *n, ch, st),
    )]
}
