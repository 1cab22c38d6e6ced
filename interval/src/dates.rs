//! C22: dates.
use engine::{suite, Ch, Stats, Suite, Tier, Verdict};
use plotline_plugin_interval::date::{BigEndianDate, LittleEndianDate};
use plotline_plugin_interval::{Interval, IntervalSearchTree};
use std::cmp::Ordering;
use std::fmt::Debug;

type Suites = Vec<Box<dyn Suite>>;

/// How the components of two dates compare, most significant first.
fn model<T: Ord>(a: &[T], b: &[T], little: bool) -> Ordering {
    let mut r = Ordering::Equal;
    for k in 0..a.len() {
        let i = if little { a.len() - 1 - k } else { k };
        if r == Ordering::Equal {
            r = a[i].cmp(&b[i]);
        }
    }
    r
}

fn relations<D: Ord + Copy + Debug>(a: D, b: D, want: Ordering) -> Verdict {
    let bad = |what: &str| Err(format!("{what} of {a:?} and {b:?} is wrong, they compare as {want:?}"));
    if a.cmp(&b) != want {
        return bad("cmp");
    }
    if a.partial_cmp(&b) != Some(want) {
        return bad("partial_cmp");
    }
    if (a == b) != want.is_eq() || (a != b) == want.is_eq() {
        return bad("==");
    }
    if (a < b) != want.is_lt() || (a <= b) != want.is_le() || (a > b) != want.is_gt() || (a >= b) != want.is_ge() {
        return bad("an operator");
    }
    if a.max(b) != if want.is_gt() { a } else { b } || a.min(b) != if want.is_gt() { b } else { a } {
        return bad("max or min");
    }
    Ok(())
}

fn interval<D: Interval<Bound = D> + Ord + Copy + Debug>(a: D, b: D) -> Verdict {
    if a.lo() != a || a.hi() != a {
        return Err(format!("{a:?} as an interval reaches from {:?} to {:?}", a.lo(), a.hi()));
    }
    let t = IntervalSearchTree::default().with_interval(a);
    let mut n = 0;
    t.for_each_intersection(&b, |_| n += 1);
    if t.intersects(&b) != (a == b) || n != (a == b) as i32 {
        return Err(format!("whether {a:?} and {b:?} overlap"));
    }
    Ok(())
}

fn three<const N: usize, T: Copy + Ord + Debug>(v: [[T; N]; 3], little: bool) -> Verdict {
    let [a, b, c] = v;
    let m = |x: &[T; N], y: &[T; N]| model(x, y, little);
    fn go<const N: usize, T, D>(v: [[T; N]; 3], d: [D; 3], m: impl Fn(&[T; N], &[T; N]) -> Ordering) -> Verdict
    where
        D: Interval<Bound = D> + Ord + Copy + Debug,
    {
        for i in 0..3 {
            for j in 0..3 {
                relations(d[i], d[j], m(&v[i], &v[j]))?;
                interval(d[i], d[j])?;
            }
        }
        let mut s = d;
        s.sort();
        let mut w: Vec<usize> = vec![0, 1, 2];
        w.sort_by(|i, j| m(&v[*i], &v[*j]));
        if (0..3).any(|k| s[k] != d[w[k]]) {
            return Err(format!("{d:?} are sorted as {s:?}"));
        }
        // Among several: a tree of the first two.
        let t = IntervalSearchTree::default().with_interval(d[0]).with_interval(d[1]);
        let want = (d[0] == d[2]) as i32 + (d[1] == d[2]) as i32;
        let mut n = 0;
        t.for_each_intersection(&d[2], |_| n += 1);
        if n != want || t.intersects(&d[2]) != (want > 0) {
            return Err(format!("{:?} overlaps {n} of {:?}, expected {want}", d[2], &d[..2]));
        }
        Ok(())
    }
    if little {
        go(v, [a, b, c].map(LittleEndianDate::<N, T>::from), m)
    } else {
        go(v, [a, b, c].map(BigEndianDate::<N, T>::from), m)
    }
}

#[derive(Clone, Debug)]
struct Root {
    components: usize,
    values: Vec<i64>,
    little: bool,
    text: bool,
}

fn one(r: &Root, ch: &mut Ch, st: &mut Stats) -> Verdict {
    fn dates<const N: usize>(r: &Root, ch: &mut Ch, st: &mut Stats) -> Verdict {
        let v: [[i64; N]; 3] = std::array::from_fn(|_| std::array::from_fn(|_| *ch.of(&r.values)));
        ch.steps(9);
        ch.log(|| format!("{v:?}"));
        st.state(&(r.little, r.text, N, v));
        st.outcome(&(r.little, model(&v[0], &v[1], r.little), model(&v[1], &v[2], r.little), N));
        if r.text {
            const NAMES: [&str; 6] = ["", "1", "10", "2", "a", "é"];
            three(v.map(|d| d.map(|c| NAMES[c as usize])), r.little)
        } else {
            three(v, r.little)
        }
    }
    match r.components {
        0 => dates::<0>(r, ch, st),
        1 => dates::<1>(r, ch, st),
        2 => dates::<2>(r, ch, st),
        3 => dates::<3>(r, ch, st),
        4 => dates::<4>(r, ch, st),
        _ => dates::<5>(r, ch, st),
    }
}

pub fn c22(t: Tier) -> Suites {
    let mut roots = vec![];
    for little in [true, false] {
        let mut add = |components, values: &[i64], text| roots.push(Root { components, values: values.to_vec(), little, text });
        add(0, &[0], false);
        add(1, &[i64::MIN, -1, 0, 1, 2, 255, 256, i64::MAX], false);
        add(2, &[-1, 0, 1, 2, 300], false);
        add(3, &[0, 1, 2], false);
        add(4, &[0, 1, 2], false);
        add(5, t.pick(&[0, 1], &[0, 1, 2]), false);
        add(2, &[0, 1, 2, 3, 4, 5], true);
        add(3, &[0, 1, 2, 3], true);
        if t.thorough() {
            add(2, &[i64::MIN, -1, 0, 1, 2, 3, 255, 256, i64::MAX], false);
            add(3, &[-1, 0, 1, 2, 256], false);
        }
    }
    vec![many(t), suite("triples", "every triple of dates of 0 to 5 components over 2 to 9 values (numbers and texts), both formats: every comparison operator, sorting, and the overlap in a tree", roots, one)]
}

/// Three values of each type of components, ascending.
trait Comp: Copy + Ord + Debug + 'static {
    const V: [Self; 3];
}
macro_rules! comp {
    ($($t:ty: $a:expr, $b:expr, $c:expr;)*) => { $(impl Comp for $t { const V: [Self; 3] = [$a, $b, $c]; })* };
}
comp! {
    u8: 0, 128, 255;
    i8: -128, 0, 127;
    u16: 255, 256, 65535;
    i32: i32::MIN, -1, i32::MAX;
    u64: 1, 1 << 32, u64::MAX;
    i128: i128::MIN, 0, i128::MAX;
    char: '\0', 'z', '\u{10ffff}';
    &'static str: "", "10", "9";
    (u8, &'static str): (1, "z"), (2, ""), (2, "a");
    Option<u8>: None, Some(0), Some(9);
    std::cmp::Reverse<u8>: std::cmp::Reverse(3), std::cmp::Reverse(2), std::cmp::Reverse(1);
    [i8; 3]: [-1, 5, 5], [0, -1, 9], [0, 0, 0];
}

#[derive(Clone, Copy, Debug)]
struct Wide {
    components: usize,
    little: bool,
    kind: usize,
}
const KINDS: usize = 12;
const WIDE: [usize; 24] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 257];

/// Dates that are equal but for up to three components.
fn many(t: Tier) -> Box<dyn Suite> {
    let most = t.pick(65, 257);
    let mut roots = vec![];
    for components in WIDE.into_iter().filter(|n| *n <= most) {
        for little in [false, true] {
            for kind in (0..KINDS).filter(|k| components <= 4 || [1, 7].contains(k)) {
                roots.push(Wide { components, little, kind });
            }
        }
    }
    fn go<const N: usize, T: Comp>(r: &Wide, ch: &mut Ch, st: &mut Stats) -> Verdict {
        let [lo, mid, hi] = T::V;
        let places = |of: usize| -> Vec<usize> {
            let mut v: Vec<usize> = (0..N).filter(|k| N <= 12 || [0, 1, 7, 8, 15, 16, 31, 32, 63, 64, N / 2, N - 2, N - 1, of, of.saturating_sub(1), of + 1].contains(k)).collect();
            v.dedup();
            v
        };
        let i = *ch.of(&places(0));
        let j = *ch.of(&places(i));
        let base = if N > 12 { mid } else { [mid, lo, hi][ch.pick(3)] };
        let mut v = [[base; N]; 3];
        v[0][i] = *ch.of(&T::V);
        v[1][j] = *ch.of(&T::V);
        v[1][i] = *ch.of(&T::V);
        v[2][j] = *ch.of(&T::V);
        ch.steps(9);
        ch.log(|| format!("{r:?}: places {i} and {j}"));
        st.state(&(r.little, r.kind, N, i, j, v.map(|d| d.map(|c| T::V.iter().position(|x| *x == c)))));
        st.outcome(&(r.little, model(&v[0], &v[1], r.little), model(&v[1], &v[2], r.little), N));
        three(v, r.little)
    }
    fn kinds<const N: usize>(r: &Wide, ch: &mut Ch, st: &mut Stats) -> Verdict {
        match r.kind {
            0 => go::<N, u8>(r, ch, st),
            1 => go::<N, i8>(r, ch, st),
            2 => go::<N, u16>(r, ch, st),
            3 => go::<N, i32>(r, ch, st),
            4 => go::<N, u64>(r, ch, st),
            5 => go::<N, i128>(r, ch, st),
            6 => go::<N, char>(r, ch, st),
            7 => go::<N, &'static str>(r, ch, st),
            8 => go::<N, (u8, &'static str)>(r, ch, st),
            9 => go::<N, Option<u8>>(r, ch, st),
            10 => go::<N, std::cmp::Reverse<u8>>(r, ch, st),
            _ => go::<N, [i8; 3]>(r, ch, st),
        }
    }
    fn few<const N: usize>(r: &Wide, ch: &mut Ch, st: &mut Stats) -> Verdict {
        match r.kind {
            1 => go::<N, i8>(r, ch, st),
            _ => go::<N, &'static str>(r, ch, st),
        }
    }
    macro_rules! widths {
        ($r:ident, $ch:ident, $st:ident; $($n:literal)*; $($m:literal)*) => {
            match $r.components { $($n => kinds::<$n>($r, $ch, $st),)* $($m => few::<$m>($r, $ch, $st),)* _ => panic!("harness: width") }
        };
    }
    suite(
        "widths",
        format!("three dates of n components (every n up to 12, and around powers of two up to {most}) of {KINDS} types of components (2 types beyond 4 components), equal but for two components at every pair of places (up to 12 components; else at places around powers of two, the ends and next to each other), every combination of 3 values there, among which the least and greatest of the type: every comparison operator, sorting, and the overlap in a tree"),
        roots,
        |r: &Wide, ch, st| widths!(r, ch, st; 1 2 3 4; 5 6 7 8 9 10 11 12 15 16 17 31 32 33 63 64 65 100 128 257),
    )
}
