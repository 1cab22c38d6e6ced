//! C20 and C21: the search tree compared with a plain list of intervals.
use engine::{suite, Ch, Stats, Suite, Tier, Verdict};
use plotline_plugin_interval::{Interval, IntervalSearchTree};

type Suites = Vec<Box<dyn Suite>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Iv {
    lo: u8,
    hi: u8,
    tag: u8,
}
impl Interval for Iv {
    type Bound = u8;
    fn lo(&self) -> u8 {
        self.lo
    }
    fn hi(&self) -> u8 {
        self.hi
    }
}
const fn iv(lo: u8, hi: u8, tag: u8) -> Iv {
    Iv { lo, hi, tag }
}

/// All intervals over the bounds 1 to n.
fn all(n: u8) -> Vec<Iv> {
    (1..=n).flat_map(|lo| (lo..=n).map(move |hi| iv(lo, hi, 0))).collect()
}

/// Two intervals share a point.
fn overlap(a: &Iv, b: &Iv) -> bool {
    a.lo.max(b.lo) <= a.hi.min(b.hi)
}

/// Compares every answer of the tree with those of the list.
fn compare(tree: &IntervalSearchTree<Iv>, list: &[Iv], n: u8, st: &mut Stats) -> Verdict {
    let mut outcome = vec![];
    for lo in 0..=n + 1 {
        for hi in lo..=n + 1 {
            let q = iv(lo, hi, 99);
            let mut want: Vec<Iv> = list.iter().filter(|i| overlap(i, &q)).copied().collect();
            want.sort();
            let mut got = vec![];
            tree.for_each_intersection(&q, |i| got.push(*i));
            got.sort();
            if got != want {
                return Err(format!("the overlaps of [{lo},{hi}] are {got:?}, expected {want:?}"));
            }
            if tree.intersects(&q) == want.is_empty() {
                return Err(format!("whether something overlaps [{lo},{hi}]: {}, the overlaps are {want:?}", want.is_empty()));
            }
            outcome.push(want.len());
        }
    }
    st.outcome(&outcome);
    Ok(())
}

#[derive(Clone, Copy, Debug)]
struct Ins {
    bounds: u8,
    len: usize,
    /// Through `with_interval` rather than `insert`.
    builder: bool,
}

fn build(list: &[Iv], builder: bool) -> IntervalSearchTree<Iv> {
    let mut t = IntervalSearchTree::default();
    for i in list {
        if builder {
            t = t.with_interval(*i);
        } else {
            t.insert(*i);
        }
    }
    t
}

fn insert(r: &Ins, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let u = all(r.bounds);
    let list: Vec<Iv> = (0..r.len).map(|_| *ch.of(&u)).collect();
    ch.steps(r.len as u64);
    ch.log(|| format!("inserted {list:?}"));
    let t = build(&list, r.builder);
    st.state(&list);
    compare(&t, &list, r.bounds, st).map_err(|m| format!("inserted {list:?}: {m}"))
}

/// Every order of a set of intervals with distinct lower bounds (every shape of tree) and every
/// pattern of upper bounds.
#[derive(Clone, Debug)]
struct Shape {
    size: u8,
    /// Different upper bounds to choose from, per interval.
    uppers: u8,
    deletes: usize,
    /// Queries before the deletions or not, by choice.
    asked: bool,
}

fn shapes(r: &Shape, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let n = r.size;
    let mut left: Vec<u8> = (1..=n).collect();
    let mut list = vec![];
    while !left.is_empty() {
        let lo = left.remove(ch.pick(left.len()));
        let k = (n - lo + 1).min(r.uppers);
        // The nearest upper bound, the farthest, and what is between.
        let hi = match ch.pick(k as usize) {
            0 => lo,
            1 => n,
            i => lo + i as u8 - 1,
        };
        list.push(iv(lo, hi, 0));
    }
    ch.steps(n as u64);
    let mut t = build(&list, false);
    let mut ops = vec![];
    let whole = list.clone();
    for _ in 0..r.deletes {
        if r.asked && ch.flag() {
            ask(&t, &list, n, 1, st).map_err(|m| format!("inserted {whole:?}, deleted {ops:?}: {m}"))?;
        }
        let i = ch.pick(list.len());
        let d = list.remove(i);
        t.delete(&d);
        ops.push(d);
        ch.step();
    }
    ch.log(|| format!("inserted {whole:?}, deleted {ops:?}"));
    st.state(&(&whole, &ops));
    compare(&t, &list, n, st).map_err(|m| format!("inserted {whole:?}, deleted {ops:?}: {m}"))
}

/// What is asked of the tree between two changes of it.
fn ask(tree: &IntervalSearchTree<Iv>, list: &[Iv], n: u8, how: usize, st: &mut Stats) -> Verdict {
    match how {
        0 => Ok(()),
        1 => compare(tree, list, n, st),
        _ => {
            let want = list.iter().any(|i| overlap(i, &iv(n, n, 99)));
            if tree.intersects(&iv(n, n, 99)) == want {
                Ok(())
            } else {
                Err(format!("whether something overlaps [{n},{n}]: {}", !want))
            }
        }
    }
}

/// As `insert`, with or without queries between the insertions.
fn asked(r: &Ins, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let u = all(r.bounds);
    let steps: Vec<(Iv, usize)> = (0..r.len).map(|_| (*ch.of(&u), ch.pick(if r.builder { 2 } else { 3 }))).collect();
    ch.log(|| format!("{steps:?} (0 nothing, 1 every query, 2 one query)"));
    let mut t = IntervalSearchTree::default();
    let mut list = vec![];
    for (i, how) in &steps {
        if r.builder {
            t = t.with_interval(*i);
        } else {
            t.insert(*i);
        }
        list.push(*i);
        ch.step();
        ask(&t, &list, r.bounds, *how, st).map_err(|m| format!("in {steps:?} after {}: {m}", list.len()))?;
    }
    st.state(&list);
    compare(&t, &list, r.bounds, st).map_err(|m| format!("after {steps:?}: {m}"))
}

pub fn c20(t: Tier) -> Suites {
    let mut roots = vec![];
    for builder in [false, true] {
        roots.extend((0..=t.pick(6, 7)).map(|len| Ins { bounds: 4, len, builder }));
        roots.extend((0..=t.pick(5, 6)).map(|len| Ins { bounds: 5, len, builder }));
        roots.extend((0..=t.pick(4, 5)).map(|len| Ins { bounds: 7, len, builder }));
        roots.extend((6..=t.pick(10, 12)).map(|len| Ins { bounds: 2, len, builder }));
    }
    vec![
        suite(
            "insertions",
            format!("every sequence of up to {} intervals over 4 bounds, {} over 5, {} over 7 and {} over 2, then every query within and beyond the bounds", t.pick(6, 7), t.pick(5, 6), t.pick(4, 5), t.pick(10, 12)),
            roots,
            insert,
        ),
        suite(
            "shapes",
            format!("every order of insertion of {} intervals with different lower bounds, with up to 3 upper bounds each, and every query", t.pick("5 and 6", "5 to 8")),
            t.pick(vec![(5, 3), (6, 3)], vec![(5, 5), (6, 6), (7, 3), (8, 2)]).into_iter().map(|(size, uppers)| Shape { size, uppers, deletes: 0, asked: false }).collect(),
            shapes,
        ),
        suite(
            "asked-in-between",
            format!("every sequence of up to {} insertions over 2 and {} over 3 bounds, with each choice of asking nothing, everything or one question after each", t.pick(5, 6), t.pick(4, 5)),
            [false, true].into_iter().flat_map(|builder| (0..=t.pick(5, 6)).map(move |len| Ins { bounds: 2, len, builder }).chain((0..=t.pick(4, 5)).map(move |len| Ins { bounds: 3, len, builder }))).collect(),
            asked,
        ),
    ]
}

#[derive(Clone, Debug)]
struct Mix {
    len: usize,
    set: usize,
    /// Queries between the steps or not, by choice.
    asked: bool,
}

/// Sets of intervals whose members collide in different ways.
fn sets() -> Vec<Vec<Iv>> {
    vec![
        // equal lower bounds, equal bounds with different identity
        vec![iv(2, 2, 0), iv(2, 2, 1), iv(2, 4, 0), iv(1, 5, 0), iv(3, 3, 0)],
        // nested and disjoint ones
        vec![iv(1, 1, 0), iv(1, 5, 0), iv(2, 3, 0), iv(4, 4, 0), iv(5, 5, 0)],
        // all the same lower bound
        vec![iv(3, 3, 0), iv(3, 4, 0), iv(3, 5, 0), iv(3, 5, 1)],
    ]
}

fn mix(r: &Mix, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let u = &sets()[r.set];
    let mut t = IntervalSearchTree::default();
    let mut list: Vec<Iv> = vec![];
    let mut ops = String::new();
    for _ in 0..r.len {
        let k = ch.pick(2 * u.len());
        let i = u[k % u.len()];
        if k < u.len() {
            t.insert(i);
            list.push(i);
        } else {
            t.delete(&i);
            if let Some(p) = list.iter().position(|x| *x == i) {
                list.remove(p);
            }
        }
        ops.push_str(&format!("{}[{},{}]{} ", if k < u.len() { "+" } else { "-" }, i.lo, i.hi, if i.tag > 0 { "'" } else { "" }));
        ch.step();
        if r.asked {
            let how = ch.pick(2);
            ops.push_str(["", "? "][how]);
            ask(&t, &list, 5, how, st).map_err(|m| format!("after {ops}: {m}"))?;
        }
    }
    ch.log(|| ops.clone());
    let mut sorted = list.clone();
    sorted.sort();
    st.state(&(r.set, sorted));
    compare(&t, &list, 5, st).map_err(|m| format!("after {ops}: {m}"))
}

/// A tree of many, from which some are deleted, others inserted again.
#[derive(Clone, Debug)]
struct Again {
    size: u8,
    steps: usize,
}

fn again(r: &Again, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let n = r.size;
    let mut left: Vec<u8> = (1..=n).collect();
    let mut list = vec![];
    while !left.is_empty() {
        let lo = left.remove(ch.pick(left.len()));
        // A fixed pattern of upper bounds that makes maxima matter.
        list.push(iv(lo, if lo % 3 == 1 { n } else { lo }, 0));
    }
    let whole = list.clone();
    let mut t = build(&list, false);
    let mut ops = vec![];
    for _ in 0..r.steps {
        let i = whole[ch.pick(whole.len())];
        // Deletes what is there, inserts what is not.
        if let Some(p) = list.iter().position(|x| *x == i) {
            t.delete(&i);
            list.remove(p);
            ops.push(format!("-{}", i.lo));
        } else {
            t.insert(i);
            list.push(i);
            ops.push(format!("+{}", i.lo));
        }
        // Deleting what is not there changes nothing.
        t.delete(&iv(i.lo, i.hi, 7));
        ch.step();
    }
    ch.log(|| format!("inserted {whole:?}, then {ops:?}"));
    let mut sorted = list.clone();
    sorted.sort();
    st.state(&sorted);
    compare(&t, &list, n, st).map_err(|m| format!("inserted {whole:?}, then {ops:?}: {m}"))
}

pub fn c21(t: Tier) -> Suites {
    let depth = t.pick(7, 8);
    let mut roots = vec![];
    for set in 0..sets().len() {
        roots.extend((0..=depth).map(|len| Mix { len, set, asked: false }));
    }
    vec![
        suite("histories", format!("every sequence of up to {depth} insertions and deletions out of three sets of 4 or 5 colliding intervals (equal lower bounds, equal bounds with different identity, nested), then every query"), roots, mix),
        suite(
            "shapes",
            "every order of insertion of 4 to 6 (thorough: 7) intervals with different lower bounds and up to 3 upper bounds each, then every sequence of up to 3 deletions, then every query",
            t.pick(vec![(4, 3, 1), (4, 3, 2), (4, 3, 3), (4, 3, 4), (5, 3, 1), (5, 3, 2), (5, 3, 3), (6, 3, 1), (6, 2, 2)], vec![(4, 4, 4), (5, 5, 1), (5, 5, 2), (5, 5, 3), (5, 3, 5), (6, 3, 1), (6, 3, 2), (6, 3, 3), (7, 3, 1), (7, 2, 2)])
                .into_iter()
                .map(|(size, uppers, deletes)| Shape { size, uppers, deletes, asked: false })
                .collect(),
            shapes,
        ),
        suite(
            "deletions-and-insertions",
            "every order of insertion of 5 to 7 (thorough: 8) intervals, then every sequence of deleting present and re-inserting deleted ones",
            t.pick(vec![(5, 3), (5, 5), (6, 4), (7, 2)], vec![(5, 7), (6, 6), (7, 4), (8, 2)]).into_iter().map(|(size, steps)| Again { size, steps }).collect(),
            again,
        ),
        suite(
            "asked-in-between",
            format!("every sequence of up to {} insertions and deletions out of the three sets, with each choice of asking nothing or everything after each", t.pick(5, 6)),
            (0..sets().len()).flat_map(|set| (0..=t.pick(5, 6)).map(move |len| Mix { len, set, asked: true })).collect(),
            mix,
        ),
        suite(
            "shapes-asked-in-between",
            "every order of insertion of 4 and 5 (thorough: 6) intervals, then every sequence of up to 4 deletions, with each choice of asking nothing or everything before each",
            t.pick(vec![(4, 3, 3), (4, 2, 4), (5, 3, 1), (5, 2, 2)], vec![(4, 4, 4), (5, 3, 3), (5, 2, 5), (6, 3, 2)]).into_iter().map(|(size, uppers, deletes)| Shape { size, uppers, deletes, asked: true }).collect(),
            shapes,
        ),
    ]
}
