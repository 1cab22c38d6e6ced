//! Sizes: the same properties at every size up to a bound and around the powers of two and ten
//! beyond it, where limits, batches, caches and counters of an implementation would show.
use engine::{inject, suite, Ch, Stats, Suite, Tier, Verdict};
use plotline::deref::{TryDeref, With, WithMut};
use plotline::document::lazy::LazyDocument;
use plotline::document::DocumentRepository;
use plotline::graph::{Graph, NodeProxy, Source};
use plotline::id::Identify;
use plotline::property::Property;
use plotline::schema::ops::delete::{AfterDelete, BeforeDelete, Delete};
use plotline::schema::ops::save::{AfterSave, BeforeSave, Save};
use plotline::schema::plugin::Plugin;
use plotline::schema::resource::{Res, ResourceSet};
use plotline::schema::transaction::{Context, Ctx, Target, Transaction};
use plotline::schema::trigger::Trigger;
use plotline::schema::{Error, Schema};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

type Suites = Vec<Box<dyn Suite>>;

/// A large space of ids.
trait Id: Ord + Clone + Debug + 'static {
    fn mk(k: u32) -> Self;
}
impl Id for u32 {
    fn mk(k: u32) -> u32 {
        k
    }
}
impl Id for String {
    fn mk(k: u32) -> String {
        format!("node {k}")
    }
}
impl Id for (u16, char) {
    fn mk(k: u32) -> Self {
        ((k / 7) as u16, char::from(b'a' + (k % 7) as u8))
    }
}

#[derive(Clone, Debug, PartialEq)]
struct W<I> {
    id: I,
    val: u32,
    edges: Vec<I>,
}
impl<I> Identify for W<I> {
    type Id = I;
    fn id(&self) -> &I {
        &self.id
    }
}
fn w<I: Id>(k: u32, val: u32) -> W<I> {
    W { id: I::mk(k), val, edges: vec![] }
}
struct Edge<I>(I);
impl<I> Identify for Edge<I> {
    type Id = I;
    fn id(&self) -> &I {
        &self.0
    }
}
impl<I: Id> Property<W<I>> for Edge<I> {
    fn all(n: &W<I>) -> Vec<Self> {
        n.edges.iter().cloned().map(Edge).collect()
    }
}

type Model<I> = BTreeMap<I, u32>;

fn content<I: Id>(g: &Graph<W<I>>) -> Vec<(I, u32)> {
    g.into_iter().map(|n| (n.id.clone(), n.val)).collect()
}
fn same<I: Id>(g: &Graph<W<I>>, m: &Model<I>) -> Verdict {
    let got = content(g);
    if got.len() != m.len() || got.iter().zip(m).any(|(a, b)| a.0 != *b.0 || a.1 != *b.1) {
        let diff = got.iter().zip(m).position(|(a, b)| a.0 != *b.0 || a.1 != *b.1);
        return Err(format!("the graph has {} nodes, expected {}; they differ first at position {diff:?}", got.len(), m.len()));
    }
    Ok(())
}

fn holds<I: Id>(s: &Schema<W<I>>, m: &Model<I>) -> Verdict {
    same(&s.read(), m)
}

/// Every size up to `every`, then the neighbours of the powers of two and ten up to `most`.
fn sizes(every: usize, most: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=every).collect();
    let mut p = 1;
    while p <= most {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    p = 1;
    while p <= most {
        v.extend([p - 1, p, p + 1, 5 * p, 5 * p + 1]);
        p *= 10;
    }
    v.retain(|n| *n <= most);
    v.sort();
    v.dedup();
    v
}
fn told(every: usize, most: usize) -> String {
    format!("every n up to {every} and the neighbours of the powers of two and ten up to {most}")
}

#[derive(Clone, Copy, Debug)]
enum Chg {
    Save(u32, u32),
    Del(u32),
}
const PATTERNS: usize = 6;
/// The k-th of n changes.
fn change(pattern: usize, k: usize, n: usize) -> Chg {
    let v = 1000 + k as u32;
    let (k, n) = (k as u32, n as u32);
    match pattern {
        0 => Chg::Save(k, v),
        1 => Chg::Save(n - 1 - k, v),
        2 => Chg::Save(k % 3, v),
        3 if k % 2 == 0 => Chg::Save(k / 2, v),
        3 => Chg::Del(k / 2),
        4 if k < n / 2 => Chg::Save(k, v),
        4 => Chg::Del(k - n / 2),
        // All over the place, a third of it deletions.
        _ if k % 3 == 2 => Chg::Del(k.wrapping_mul(2654435761) % (n / 2 + 1)),
        _ => Chg::Save(k.wrapping_mul(2654435761) % (n / 2 + 1), v),
    }
}
fn register<I: Id>(c: &Context<'_, W<I>>, x: Chg) {
    match x {
        Chg::Save(k, v) => c.save(w(k, v)),
        Chg::Del(k) => c.delete(I::mk(k)),
    }
}
fn apply<I: Id>(m: &mut Model<I>, x: Chg) {
    match x {
        Chg::Save(k, v) => {
            m.insert(I::mk(k), v);
        }
        Chg::Del(k) => {
            m.remove(&I::mk(k));
        }
    }
}
fn initial<I: Id>(n: usize) -> (Schema<W<I>>, Model<I>) {
    // Something below, among and beyond the changes.
    let ids = [1, n as u32 / 2, n as u32 + 2];
    let m: Model<I> = ids.iter().map(|k| (I::mk(*k), 7)).collect();
    (Graph::from_iter(ids.iter().map(|k| w(*k, 7))).into(), m)
}
fn same_result(got: &Result<u32, Error>, want: &Result<u32, Error>) -> bool {
    match (got, want) {
        (Ok(a), Ok(b)) => a == b,
        (Err(Error::Noop), Err(Error::Noop)) => true,
        (Err(Error::Noop), _) | (_, Err(Error::Noop)) => false,
        (Err(a), Err(b)) => a.to_string() == b.to_string(),
        _ => false,
    }
}
fn result(k: usize) -> Result<u32, Error> {
    match k {
        0 => Ok(41),
        1 => Err(Error::custom("own")),
        _ => Err(Error::Noop),
    }
}

/// One transaction, or one sub-transaction, of n changes.
fn changes<I: Id>(n: usize, sub: bool, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let pattern = ch.pick(PATTERNS);
    let end = ch.pick(3);
    let (schema, mut m) = initial::<I>(n);
    ch.steps(n as u64);
    let what = format!("a {}transaction of {n} changes (pattern {pattern}) with outcome {end}", if sub { "sub-" } else { "" });
    ch.log(|| what.clone());
    let got = schema.transaction().with(|c| {
        if !sub {
            (0..n).for_each(|k| register(&c, change(pattern, k, n)));
            return result(end);
        }
        c.save(w(0, 1));
        let r = c.transaction().with(|c| {
            (0..n).for_each(|k| register(&c, change(pattern, k, n)));
            result(end)
        });
        c.save(w(n as u32 + 5, 2));
        match r {
            Ok(v) => Ok(v),
            Err(Error::Noop) => Ok(100),
            Err(_) => Ok(101),
        }
    });
    let want = match (sub, end) {
        (false, _) | (true, 0) => result(end),
        (true, 2) => Ok(100),
        _ => Ok(101),
    };
    if !same_result(&got, &want) {
        return Err(format!("{what}: wrong result {got:?}"));
    }
    if sub {
        m.insert(I::mk(0), 1);
    }
    if end == 0 {
        (0..n).for_each(|k| apply(&mut m, change(pattern, k, n)));
    }
    if sub {
        m.insert(I::mk(n as u32 + 5), 2);
    }
    holds(&schema, &m).map_err(|e| format!("{what}: {e}"))?;
    // Another one afterwards.
    schema.transaction().with(|c| Ok(register(&c, Chg::Save(3, 5)))).map_err(|e| e.to_string())?;
    apply(&mut m, Chg::Save(3, 5));
    st.state(&(n, pattern, end));
    st.outcome(&m.len());
    holds(&schema, &m).map_err(|e| format!("{what}, and another one: {e}"))
}

/// n transactions, or sub-transactions of one, in a row; compared after each of the sizes.
fn row(n: usize, kinds: &[usize], sub: bool, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let rot = ch.pick(kinds.len());
    let (schema, mut m) = initial::<u32>(50);
    let marks = sizes(16, n);
    let one = |c: Context<'_, W<u32>>, k: usize, kind: usize| {
        register(&c, change(5, k, 200));
        if kind == 3 {
            inject(1);
        }
        register(&c, Chg::Save(300, k as u32));
        result(kind)
    };
    let what = |k: usize| format!("after {} {}transactions in a row (outcomes {kinds:?} from {rot})", k + 1, if sub { "sub-" } else { "" });
    let mut out = Ok(());
    let mut step = |k: usize, m: &mut Model<u32>, r: Result<Result<u32, Error>, ()>, kind: usize| -> Verdict {
        let fine = match (&r, kind) {
            (Err(()), 3) => true,
            (Ok(r), k) if k < 3 => same_result(r, &result(k)),
            (Ok(Ok(99)), 4) => true,
            _ => false,
        };
        if !fine {
            return Err(format!("{}: wrong result {r:?}", what(k)));
        }
        if kind == 0 {
            apply(m, change(5, k, 200));
            apply(m, Chg::Save(300, k as u32));
        }
        ch.step();
        Ok(())
    };
    if sub {
        let _ = schema.transaction().with(|c| {
            for k in 0..n {
                let kind = kinds[(k + rot) % kinds.len()];
                let r = match kind {
                    4 => {
                        let t = c.transaction();
                        let x = Context::from(&t);
                        register(&x, Chg::Save(400, 1));
                        Ok(Ok(99))
                    }
                    _ => catch_unwind(AssertUnwindSafe(|| c.transaction().with(|c| one(c, k, kind)))).map_err(|_| ()),
                };
                out = step(k, &mut m, r, kind);
                if out.is_err() {
                    break;
                }
                if marks.contains(&k) {
                    for id in [1, 50, 100, 101, 300, 400, k as u32 % 101] {
                        if c.get(&id).map(|n| n.val) != m.get(&id).copied() || c.contains(&id) != m.contains_key(&id) {
                            out = Err(format!("{}: looking up {id} in the parent yields {:?}, expected {:?}", what(k), c.get(&id), m.get(&id)));
                        }
                    }
                }
            }
            Ok(())
        });
        out?;
        return holds(&schema, &m).map_err(|e| format!("{}: {e}", what(n)));
    }
    for k in 0..n {
        let kind = kinds[(k + rot) % kinds.len()];
        let r = match kind {
            4 => {
                let t = schema.transaction();
                let x = Context::from(&t);
                register(&x, Chg::Save(400, 1));
                Ok(Ok(99))
            }
            _ => catch_unwind(AssertUnwindSafe(|| schema.transaction().with(|c| one(c, k, kind)))).map_err(|_| ()),
        };
        step(k, &mut m, r, kind)?;
        if marks.contains(&k) {
            holds(&schema, &m).map_err(|e| format!("{}: {e}", what(k)))?;
            st.state(&(k, rot));
        }
    }
    st.outcome(&m.len());
    holds(&schema, &m).map_err(|e| format!("{}: {e}", what(n)))
}

pub fn c01(t: Tier) -> Suites {
    let (every, most) = t.pick((2100, 100001), (4200, 300001));
    let runs = t.pick(70000, 300000);
    vec![
        suite(
            "sizes",
            format!("one transaction of n changes for {}, 6 patterns of ids, every outcome, 3 types of ids in turn; another transaction afterwards", told(every, most)),
            sizes(every, most),
            |n: &usize, ch, st| match n % 8 {
                6 => changes::<String>(*n, false, ch, st),
                3 => changes::<(u16, char)>(*n, false, ch, st),
                _ => changes::<u32>(*n, false, ch, st),
            },
        ),
        suite(
            "many-in-a-row",
            format!("{runs} transactions in a row, every one or only some succeeding, the others failing, having nothing to do, or prepared and dropped; compared at the sizes"),
            vec![vec![0], vec![0, 1], vec![0, 2, 4], vec![1, 1, 2, 0]],
            move |kinds: &Vec<usize>, ch, st| row(runs, kinds, false, ch, st),
        ),
    ]
}

/// What n pending changes look like from inside.
fn pending(n: usize, sub: bool, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let pattern = ch.pick(PATTERNS);
    let (schema, m0) = initial::<u32>(n);
    let mut m = m0.clone();
    let mut out = Ok(());
    ch.steps(n as u64);
    let look = |c: &Context<'_, W<u32>>, m: &Model<u32>, k: usize| -> Verdict {
        let n = n as u32;
        for id in [0, 1, 2, k as u32, k as u32 / 2, n / 2, n.saturating_sub(1), n.saturating_sub(1 + k as u32), n + 2, n + 9] {
            let want = m.get(&id).copied();
            let h = c.node(id);
            let got = c.get(&id).map(|x| x.val);
            if got != want || c.contains(&id) != want.is_some() || h.is_virtual() != want.is_none() || h.try_deref().map(|x| x.val) != want {
                return Err(format!("with {k} of {n} changes pending (pattern {pattern}, in a sub-transaction: {sub}), id {id} is {got:?} (contained: {}, virtual: {}), expected {want:?}", c.contains(&id), h.is_virtual()));
            }
        }
        Ok(())
    };
    let marks = sizes(8, n);
    let body = |c: &Context<'_, W<u32>>, m: &mut Model<u32>| -> Verdict {
        for k in 0..=n {
            if k == n || marks.binary_search(&k).is_ok() {
                look(c, m, k)?;
            }
            if k < n {
                register(c, change(pattern, k, n));
                apply(m, change(pattern, k, n));
            }
        }
        Ok(())
    };
    let _ = schema.transaction().with(|c| {
        if sub {
            let _ = c.transaction().with(|c| {
                out = body(&c, &mut m);
                Ok(())
            });
        } else {
            out = body(&c, &mut m);
        }
        let r = c.transaction().with(|c| look(&c, &m, n).map_err(Error::custom));
        if out.is_ok() {
            out = r.map_err(|e| format!("from a sub-transaction: {e}"));
        }
        Result::<(), Error>::Err(Error::Noop)
    });
    out?;
    st.state(&(n, pattern));
    st.outcome(&m.len());
    holds(&schema, &m0)
}

/// Nested transactions of depth d; each saves an id of its own and a shared one. Levels listed in
/// `fails` do not succeed.
fn depth(d: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let after = ch.flag();
    let fail = match ch.pick(5) {
        0 => usize::MAX,
        1 => 0,
        2 => 1,
        3 => d / 2,
        _ => d,
    };
    let how = ch.pick(3);
    let schema: Schema<W<u32>> = Graph::from_iter([w(0, 7)]).into();
    struct P {
        d: usize,
        after: bool,
        fail: usize,
        how: usize,
    }
    fn look(c: &Context<'_, W<u32>>, m: &Model<u32>, l: usize, d: usize) -> Verdict {
        for id in [0, 1, 2, l as u32, l as u32 / 2, l as u32 + 1, l as u32 + 2, d as u32] {
            let want = m.get(&id).copied();
            if c.get(&id).map(|x| x.val) != want || c.contains(&id) != want.is_some() {
                return Err(format!("id {id} looked up at level {l} is {:?}, expected {want:?}", c.get(&id).map(|x| x.val)));
            }
        }
        Ok(())
    }
    fn level(c: &Context<'_, W<u32>>, l: usize, p: &P, m: &mut Model<u32>) -> Result<u32, Error> {
        let before = m.clone();
        let save = |k: u32, v: u32, m: &mut Model<u32>| {
            c.save(w(k, v));
            m.insert(k, v);
        };
        save(l as u32 + 1, l as u32, m);
        if !p.after {
            save(0, 100 + l as u32, m);
        }
        look(c, m, l, p.d).map_err(Error::custom)?;
        if l < p.d {
            let r = match p.how {
                2 if p.fail == l + 1 => catch_unwind(AssertUnwindSafe(|| c.transaction().with(|c| level(&c, l + 1, p, m)))).unwrap_or(Ok(0)),
                _ => c.transaction().with(|c| level(&c, l + 1, p, m)),
            };
            match r {
                Err(Error::Noop) | Ok(_) => {}
                Err(e) if e.to_string() == "own" => {}
                Err(e) => return Err(e),
            }
        }
        if p.after {
            save(0, 100 + l as u32, m);
        }
        look(c, m, l, p.d).map_err(Error::custom)?;
        if p.fail == l {
            *m = before;
            if p.how == 2 && l > 0 {
                inject(1);
            }
            return result(1 + p.how % 2);
        }
        Ok(41)
    }
    let p = P { d, after, fail, how };
    let mut m: Model<u32> = [(0, 7)].into();
    ch.steps(d as u64);
    let what = || format!("transactions nested {d} deep, the shared id saved {} the next level, level {} failing in way {how}", if after { "after" } else { "before" }, fail as isize);
    ch.log(what);
    let r = schema.transaction().with(|c| level(&c, 0, &p, &mut m));
    let want = if fail == 0 { result(1 + how % 2) } else { Ok(41) };
    if !same_result(&r, &want) {
        return Err(format!("{}: {r:?}", what()));
    }
    st.state(&(d, after, fail, how));
    st.outcome(&m.len());
    holds(&schema, &m).map_err(|e| format!("{}: {e}", what()))
}

pub fn c02(t: Tier) -> Suites {
    let (every, most) = t.pick((1100, 65537), (2100, 100001));
    let deep = t.pick(130, 260);
    let deepest = t.pick(513, 1025);
    vec![
        suite(
            "sizes",
            format!("n pending changes for {}, 6 patterns of ids, in a transaction and in a sub-transaction, looked up at all sizes on the way, and from a further sub-transaction", told(every, most)),
            sizes(every, most).into_iter().flat_map(|n| [(n, false), (n, true)]).collect(),
            |(n, sub): &(usize, bool), ch, st| pending(*n, *sub, ch, st),
        ),
        suite(
            "depths",
            format!("transactions nested n deep for {}, each saving an id of its own and a shared one before or after the next; one level or none fails; looked up at every level", told(deep, deepest)),
            sizes(deep, deepest),
            |d: &usize, ch, st| depth(*d, ch, st),
        ),
    ]
}

pub fn c03(t: Tier) -> Suites {
    let (every, most) = t.pick((2100, 100001), (4200, 300001));
    let deep = t.pick(130, 260);
    let deepest = t.pick(513, 1025);
    let runs = t.pick(4200, 17000);
    vec![
        suite(
            "sizes",
            format!("one sub-transaction of n changes for {}, 6 patterns of ids, every outcome, between changes of its parent", told(every, most)),
            sizes(every, most),
            |n: &usize, ch, st| if n % 8 == 6 { changes::<String>(*n, true, ch, st) } else { changes::<u32>(*n, true, ch, st) },
        ),
        suite(
            "depths",
            format!("transactions nested n deep for {}, as for C02; one level or none fails, has nothing to do or panics", told(deep, deepest)),
            sizes(deep, deepest),
            |d: &usize, ch, st| depth(*d, ch, st),
        ),
        suite(
            "many-in-a-row",
            format!("{runs} sub-transactions in a row, every one or only some succeeding, the others failing, having nothing to do, panicking, or prepared and dropped; looked up at the sizes"),
            vec![vec![0], vec![0, 1], vec![0, 2, 4], vec![1, 1, 2, 0], vec![3, 0, 4]],
            move |kinds: &Vec<usize>, ch, st| row(runs, kinds, true, ch, st),
        ),
    ]
}

/// A panic at change k of n, in the transaction or in a sub-transaction whose panic is caught.
fn panic_at(n: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let caught = ch.flag();
    let again = 1 + ch.pick(3);
    let at = [0, n / 2, n][ch.pick(3)];
    let (schema, mut m) = initial::<u32>(n);
    let what = format!("{again} panics after change {at} of {n} (caught in the parent: {caught})");
    ch.steps(n as u64);
    for _ in 0..again {
        let body = |c: &Context<'_, W<u32>>| {
            for k in 0..n {
                if k == at {
                    inject(1);
                }
                register(c, change(5, k, n));
            }
            inject(1);
        };
        let r = catch_unwind(AssertUnwindSafe(|| {
            schema.transaction().with(|c| {
                c.save(w(n as u32 + 5, 1));
                if caught {
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        c.transaction().with(|c| {
                            body(&c);
                            Ok(())
                        })
                    }));
                    c.save(w(n as u32 + 6, 2));
                    return Ok(r.is_err());
                }
                body(&c);
                Ok(false)
            })
        }));
        match (caught, &r) {
            (true, Ok(Ok(true))) => {
                m.insert(n as u32 + 5, 1);
                m.insert(n as u32 + 6, 2);
            }
            (false, Err(_)) => {}
            _ => return Err(format!("{what}: the panic got lost")),
        }
        holds(&schema, &m).map_err(|e| format!("{what}: {e}"))?;
    }
    schema.transaction().with(|c| Ok((0..n).for_each(|k| register(&c, change(5, k, n))))).map_err(|e| e.to_string())?;
    (0..n).for_each(|k| apply(&mut m, change(5, k, n)));
    st.state(&(n, caught, again, at));
    st.outcome(&m.len());
    holds(&schema, &m).map_err(|e| format!("{what}, then all {n} changes: {e}"))
}

pub fn c05(t: Tier) -> Suites {
    let (every, most) = t.pick((600, 65537), (1100, 100001));
    let runs = t.pick(2100, 20000);
    vec![
        suite(
            "sizes",
            format!("1 to 3 panics at the beginning, the middle or the end of n changes for {}, in a transaction or caught in the parent of a sub-transaction", told(every, most)),
            sizes(every, most),
            |n: &usize, ch, st| panic_at(*n, ch, st),
        ),
        suite(
            "many-in-a-row",
            format!("{runs} transactions, or sub-transactions of one, in a row, some or all of which panic; compared at the sizes"),
            vec![(vec![3], false), (vec![3, 0], false), (vec![3, 1, 0, 3, 2, 4], false), (vec![3, 3, 3, 0], true), (vec![3], true)],
            move |(kinds, sub): &(Vec<usize>, bool), ch, st| row(runs, kinds, *sub, ch, st),
        ),
    ]
}

// ------------------------------------------------------------------------------------------------
// operations and triggers

/// n saves or deletes in one transaction, or in one each.
fn operations(n: usize, del: bool, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let each = ch.flag();
    let fail = match ch.pick(4) {
        0 => usize::MAX,
        1 => 0,
        2 => n / 2,
        _ => n.saturating_sub(1),
    };
    let seen: Rc<RefCell<Vec<(u8, u32)>>> = Default::default();
    let mut schema: Schema<W<u32>> = Graph::from_iter((0..if del { n as u32 } else { 2 }).map(|k| w(k, 7))).into();
    let push = |ev: u8| {
        let seen = seen.clone();
        move |_: Ctx<W<u32>>, t: Target<W<u32>>| {
            let n = t.with(|t| (t.id, t.val)).ok_or(Error::custom("no target"))?;
            seen.borrow_mut().push((ev, n.0));
            if ev == 0 {
                t.with_mut(|t| t.val += 1);
            }
            if ev % 2 == 1 && n.0 == fail as u32 {
                return Err(Error::custom("own"));
            }
            Ok(())
        }
    };
    schema = schema.with_trigger(BeforeSave, push(0)).with_trigger(AfterSave, push(1)).with_trigger(BeforeDelete, push(2)).with_trigger(AfterDelete, push(3));
    let mut m: Model<u32> = content(&schema.read()).into_iter().collect();
    let mut want = vec![];
    let op = |c: &Context<'_, W<u32>>, k: u32| if del { Delete::new(k).execute(c.transaction()) } else { Save::new(w(k, 100 + k)).execute(c.transaction()) };
    let what = format!("{n} {}s {}, number {} failing", if del { "delete" } else { "save" }, if each { "in a transaction each" } else { "in one transaction" }, fail as isize);
    ch.steps(n as u64);
    ch.log(|| what.clone());
    let mut wrong = None;
    let mut one = |k: u32, r: Result<(), Error>, m: &mut Model<u32>| {
        let fails = k as usize == fail;
        let ok = match &r {
            Ok(()) => !fails,
            Err(e) => fails && e.to_string() == "own",
        };
        if !ok && wrong.is_none() {
            wrong = Some(format!("{what}: number {k} yields {r:?}"));
        }
        want.extend(if del { [(2, k), (3, k)] } else { [(0, k), (1, k)] });
        if !fails {
            if del {
                m.remove(&k);
            } else {
                m.insert(k, 101 + k);
            }
        }
    };
    if each {
        for k in 0..n as u32 {
            let r = if del { Delete::new(k).execute(schema.transaction()) } else { Save::new(w(k, 100 + k)).execute(schema.transaction()) };
            one(k, r, &mut m);
        }
    } else {
        let r = schema.transaction().with(|c| {
            for k in 0..n as u32 {
                let r = op(&c, k);
                one(k, r, &mut m);
            }
            Ok(())
        });
        r.map_err(|e| format!("{what}: {e}"))?;
    }
    if let Some(e) = wrong {
        return Err(e);
    }
    if *seen.borrow() != want {
        let at = seen.borrow().iter().zip(&want).position(|(a, b)| a != b);
        return Err(format!("{what}: {} triggers ran, expected {}; the first difference is at {at:?}", seen.borrow().len(), want.len()));
    }
    st.state(&(n, each, fail));
    st.outcome(&m.len());
    holds(&schema, &m).map_err(|e| format!("{what}: {e}"))
}

/// An operation with n triggers of its events, one of which fails, or none.
fn triggers_of_op(n: usize, del: bool, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let split = [0, n / 2, n][ch.pick(3)];
    let fail = match ch.pick(4) {
        0 => usize::MAX,
        1 => 0,
        2 => n / 2,
        _ => n.saturating_sub(1),
    };
    let noop = ch.flag();
    let sub = ch.flag();
    let seen: Rc<RefCell<Vec<usize>>> = Default::default();
    let mut schema: Schema<W<u32>> = Graph::from_iter([w(0, 7), w(1, 8)]).into();
    for k in 0..n {
        let seen = seen.clone();
        let f = move |c: Ctx<W<u32>>, t: Target<W<u32>>| {
            seen.borrow_mut().push(k);
            t.with_mut(|t| t.val += 1);
            if sub {
                c.transaction().with(|c| Ok(c.save(w(10 + k as u32, 1))))?;
            }
            match k == fail {
                true if noop => Err(Error::Noop),
                true => Err(Error::custom("own")),
                false => Ok(()),
            }
        };
        schema = match (k < split, del) {
            (true, false) => schema.with_trigger(BeforeSave, f),
            (false, false) => schema.with_trigger(AfterSave, f),
            (true, true) => schema.with_trigger(BeforeDelete, f),
            (false, true) => schema.with_trigger(AfterDelete, f),
        };
    }
    let mut m: Model<u32> = content(&schema.read()).into_iter().collect();
    let r = if del { Delete::new(0).execute(schema.transaction()) } else { Save::new(w(0, 100)).execute(schema.transaction()) };
    ch.steps(n as u64);
    let what = format!("a {} with {split} triggers before and {} after it, number {} failing", if del { "delete" } else { "save" }, n - split, fail as isize);
    let fails = fail < n;
    let ok = match &r {
        Ok(()) => !fails,
        Err(Error::Noop) => fails && noop,
        Err(e) => fails && !noop && e.to_string() == "own",
    };
    if !ok {
        return Err(format!("{what}: it yields {r:?}"));
    }
    let ran = if fails { fail + 1 } else { n };
    if *seen.borrow() != (0..ran).collect::<Vec<_>>() {
        return Err(format!("{what}: {} triggers ran, expected the first {ran} in order", seen.borrow().len()));
    }
    if !fails {
        if del {
            m.remove(&0);
        } else {
            m.insert(0, 100 + split as u32);
        }
        if sub {
            m.extend((0..n as u32).map(|k| (10 + k, 1)));
        }
    }
    st.state(&(n, split, fail));
    st.outcome(&m.len());
    holds(&schema, &m).map_err(|e| format!("{what}: {e}"))
}

/// A save fired by a trigger of a save, d deep.
fn reentrant(d: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    // The event that fires the next one, what is fired, and the level that fails.
    let after = ch.flag();
    let del = ch.flag();
    let fail = match ch.pick(4) {
        0 => usize::MAX,
        1 => 0,
        2 => d / 2,
        _ => d,
    };
    let tolerate = ch.flag();
    let level = Rc::new(Cell::new(0usize));
    let seen: Rc<RefCell<Vec<(u8, u32, bool, bool)>>> = Default::default();
    let mut schema: Schema<W<u32>> = Graph::from_iter((0..=d as u32).map(|k| w(k, 7))).into();
    let op = move |k: u32| (k, del && k % 2 == 1);
    // A trigger that notes what it sees, one that fires the next level, one that notes again.
    for which in 0..3u8 {
        for ev in 0..4u8 {
            let fires = (ev % 2 == 1) == after;
            let seen = seen.clone();
            let level = level.clone();
            let f = move |c: Ctx<W<u32>>, t: Target<W<u32>>| {
                let k = t.with(|t| t.id).ok_or(Error::custom("no target"))?;
                if which != 1 {
                    let there = c.transaction().with(|c| Ok(c.contains(&k)))?;
                    let next = c.transaction().with(|c| Ok(c.get(&(k + 1)).is_some_and(|n| n.val != 7)))?;
                    seen.borrow_mut().push((ev * 10 + which, k, there, next));
                    if which == 2 && fires && k as usize == fail {
                        return Err(Error::custom("own"));
                    }
                    return Ok(());
                }
                if !fires || level.get() >= d {
                    return Ok(());
                }
                level.set(level.get() + 1);
                let (k, del) = op(k + 1);
                let r = if del { Delete::new(k).execute(c.transaction()) } else { Save::new(w(k, 100 + k)).execute(c.transaction()) };
                match r {
                    Err(_) if tolerate => Ok(()),
                    r => r,
                }
            };
            schema = match ev {
                0 => schema.with_trigger(BeforeSave, f),
                1 => schema.with_trigger(AfterSave, f),
                2 => schema.with_trigger(BeforeDelete, f),
                _ => schema.with_trigger(AfterDelete, f),
            };
        }
    }
    let r = Save::new(w(0, 100)).execute(schema.transaction());
    // The model: what happens from level k on.
    fn model(k: usize, d: usize, after: bool, del: bool, fail: usize, tolerate: bool, m: &mut Model<u32>, want: &mut Vec<(u8, u32, bool, bool)>) -> Result<(), ()> {
        let before = m.clone();
        let id = k as u32;
        let del_k = del && k % 2 == 1;
        for phase in 0..2u8 {
            let ev = if del_k { 2 + phase } else { phase };
            if phase == 1 {
                if del_k {
                    m.remove(&id);
                } else {
                    m.insert(id, 100 + id);
                }
            }
            let note = |m: &Model<u32>, which: u8, want: &mut Vec<_>| want.push((ev * 10 + which, id, m.contains_key(&id), m.get(&(id + 1)).is_some_and(|v| *v != 7)));
            note(m, 0, want);
            let fires = (phase == 1) == after;
            if fires && k < d {
                let r = model(k + 1, d, after, del, fail, tolerate, m, want);
                if r.is_err() && !tolerate {
                    *m = before;
                    return Err(());
                }
            }
            note(m, 2, want);
            if fires && k == fail {
                *m = before;
                return Err(());
            }
        }
        Ok(())
    }
    let mut m: Model<u32> = (0..=d as u32).map(|k| (k, 7)).collect();
    let mut want = vec![];
    let wr = model(0, d, after, del, fail, tolerate, &mut m, &mut want);
    ch.steps(d as u64);
    let what = format!("operations fired from {} triggers {d} deep (deletes among them: {del}), level {} failing, tolerated: {tolerate}", if after { "after" } else { "before" }, fail as isize);
    ch.log(|| what.clone());
    if r.is_ok() != wr.is_ok() {
        return Err(format!("{what}: the outermost yields {r:?}"));
    }
    if *seen.borrow() != want {
        let at = seen.borrow().iter().zip(&want).position(|(a, b)| a != b).unwrap_or(want.len().min(seen.borrow().len()));
        return Err(format!("{what}: observation {at} (event, id, present, next changed) is {:?}, expected {:?}", seen.borrow().get(at), want.get(at)));
    }
    st.state(&(d, after, del, fail, tolerate));
    st.outcome(&m.len());
    holds(&schema, &m).map_err(|e| format!("{what}: {e}"))
}

fn ops(t: Tier, del: bool) -> Suites {
    let (every, most) = t.pick((600, 65537), (1100, 100001));
    let (tevery, tmost) = t.pick((1100, 65537), (2100, 100001));
    vec![
        suite(
            "sizes",
            format!("n operations for {}, in one transaction or in one each, one of them failing or none", told(every, most)),
            sizes(every, most),
            move |n: &usize, ch, st| operations(*n, del, ch, st),
        ),
        suite(
            "many-triggers-at-sizes",
            format!("n triggers before and after an operation for {}, one of them failing or none, changing the target and maybe the graph", told(tevery, tmost)),
            sizes(tevery, tmost),
            move |n: &usize, ch, st| triggers_of_op(*n, del, ch, st),
        ),
    ]
}
pub fn c06(t: Tier) -> Suites {
    ops(t, false)
}
pub fn c07(t: Tier) -> Suites {
    ops(t, true)
}
fn reentrancy(t: Tier) -> Box<dyn Suite> {
    let (every, most) = t.pick((40, 129), (65, 257));
    suite(
        "depths",
        format!("operations fired from triggers of operations, n deep for {}; from the triggers before or after them; saves, or saves and deletes in turn; one level or none fails, tolerated or passed on", told(every, most)),
        sizes(every, most),
        |d: &usize, ch, st| reentrant(*d, ch, st),
    )
}
pub fn c09(t: Tier) -> Suites {
    vec![reentrancy(t)]
}

struct Ev<const K: usize>;
struct Ev2<const A: usize, const B: usize>;
struct Unused;
impl From<&Context<'_, W<u32>>> for Unused {
    fn from(_: &Context<'_, W<u32>>) -> Self {
        BUILT.with(|b| b.set(b.get() + 1));
        Unused
    }
}
thread_local! {
    static BUILT: Cell<usize> = const { Cell::new(0) };
}

/// n triggers on one event among triggers of others, executed, one failing or none.
fn triggers(n: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let every = 1 + ch.pick(3);
    let plugin = ch.flag();
    let fail = match ch.pick(4) {
        0 => usize::MAX,
        1 => 0,
        2 => n / 2,
        _ => n.saturating_sub(1),
    };
    struct P(Vec<(usize, usize)>, Rc<RefCell<Vec<usize>>>, usize);
    impl Plugin<W<u32>> for P {
        fn install(self, mut s: Schema<W<u32>>) -> Schema<W<u32>> {
            for (k, ev) in self.0 {
                let seen = self.1.clone();
                let fail = self.2;
                let f = move |_: Ctx<W<u32>>, _: Unused| {
                    seen.borrow_mut().push(k);
                    if k == fail {
                        Err(Error::custom("own"))
                    } else {
                        Ok(())
                    }
                };
                s = match ev {
                    0 => s.with_trigger(Ev::<0>, f),
                    1 => s.with_trigger(Ev::<1>, f),
                    _ => s.with_trigger(Ev::<2>, f),
                };
            }
            s
        }
    }
    let seen: Rc<RefCell<Vec<usize>>> = Default::default();
    let regs: Vec<(usize, usize)> = (0..n).map(|k| (k, k % every)).collect();
    let mut schema: Schema<W<u32>> = Graph::default().into();
    if plugin {
        for chunk in regs.chunks(3) {
            schema = schema.install(P(chunk.to_vec(), seen.clone(), fail));
        }
    } else {
        schema = schema.install(P(regs.clone(), seen.clone(), fail));
    }
    ch.steps(n as u64);
    for round in 0..2 {
        for ev in 0..3 {
            seen.borrow_mut().clear();
            BUILT.with(|b| b.set(0));
            let r = schema.transaction().with(|c| match ev {
                0 => c.triggers().select(Ev::<0>).execute(&c),
                1 => c.triggers().select(Ev::<1>).execute(&c),
                _ => c.triggers().select(Ev::<2>).execute(&c),
            });
            let mut want: Vec<usize> = regs.iter().filter(|r| r.1 == ev).map(|r| r.0).collect();
            let fails = want.contains(&fail);
            if fails {
                want.retain(|k| *k <= fail);
            }
            let what = format!("{n} triggers over {every} events, number {} failing, round {round}, event {ev}", fail as isize);
            if *seen.borrow() != want {
                return Err(format!("{what}: {} ran, expected {}", seen.borrow().len(), want.len()));
            }
            if r.is_ok() == fails {
                return Err(format!("{what}: {r:?}"));
            }
            if BUILT.with(|b| b.get()) != want.len() {
                return Err(format!("{what}: {} parameters were built", BUILT.with(|b| b.get())));
            }
        }
    }
    st.state(&(n, every, fail));
    st.outcome(&n);
    Ok(())
}

/// The same triggers executed many times, also within each other.
fn executions(n: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let one = ch.flag();
    let seen: Rc<Cell<[u32; 3]>> = Default::default();
    let mut schema: Schema<W<u32>> = Graph::default().into();
    for k in 0..3 {
        let seen = seen.clone();
        let f = move |_: Ctx<W<u32>>, _: Unused| {
            let mut s = seen.get();
            s[k] += 1;
            seen.set(s);
            Ok(())
        };
        schema = if k == 1 { schema.with_trigger(Ev::<1>, f) } else { schema.with_trigger(Ev::<0>, f) };
    }
    BUILT.with(|b| b.set(0));
    let run = |k: usize, c: &Context<'_, W<u32>>| -> Verdict {
        if k % 5 == 4 { c.triggers().select(Ev::<1>).execute(c) } else { c.triggers().select(Ev::<0>).execute(c) }.map_err(|e| e.to_string())?;
        let b = (k / 5 + (k % 5 == 4) as usize) as u32;
        let a = k as u32 + 1 - b;
        if seen.get() != [a, b, a] || BUILT.with(|b| b.get()) as u32 != 2 * a + b {
            return Err(format!("after {} executions the triggers ran {:?} times, expected {:?}; {} parameters", k + 1, seen.get(), [a, b, a], BUILT.with(|b| b.get())));
        }
        Ok(())
    };
    ch.steps(n as u64);
    st.state(&one);
    st.outcome(&n);
    let mut out = Ok(());
    if one {
        let _ = schema.transaction().with(|c| {
            out = (0..n).try_for_each(|k| run(k, &c));
            Ok(())
        });
        return out;
    }
    for k in 0..n {
        let _ = schema.transaction().with(|c| {
            out = run(k, &c);
            Ok(())
        });
        out.clone()?;
    }
    Ok(())
}

/// An event executed from its own triggers, d deep, of three triggers each.
fn own_event(d: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let two = ch.flag();
    let fail = match ch.pick(3) {
        0 => usize::MAX,
        1 => d,
        _ => d / 2,
    };
    let seen: Rc<RefCell<Vec<(usize, usize)>>> = Default::default();
    let level = Rc::new(Cell::new(0usize));
    let mut schema: Schema<W<u32>> = Graph::default().into();
    // With two events, each fires the other.
    for ev in 0..2usize {
        for k in 0..3usize {
            let (seen, level) = (seen.clone(), level.clone());
            let f = move |c: Ctx<W<u32>>, _: Unused| {
                let l = level.get();
                seen.borrow_mut().push((l, ev * 10 + k));
                if k == 1 && l < d {
                    level.set(l + 1);
                    let r = c.transaction().with(|c| if two == (ev == 0) { c.triggers().select(Ev::<1>).execute(&c) } else { c.triggers().select(Ev::<0>).execute(&c) });
                    level.set(l);
                    r?;
                }
                if k == 1 && l == fail {
                    return Err(Error::custom("own"));
                }
                Ok(())
            };
            schema = if ev == 0 { schema.with_trigger(Ev::<0>, f) } else { schema.with_trigger(Ev::<1>, f) };
        }
    }
    let r = schema.transaction().with(|c| c.triggers().select(Ev::<0>).execute(&c));
    let mut want = vec![];
    for l in 0..=d {
        let ev = if two { l % 2 } else { 0 };
        want.push((l, ev * 10));
        want.push((l, ev * 10 + 1));
    }
    let last = if fail <= d { fail } else { usize::MAX };
    for l in (0..=d).rev() {
        if last != usize::MAX && l <= last {
            break;
        }
        let ev = if two { l % 2 } else { 0 };
        want.push((l, ev * 10 + 2));
    }
    ch.steps(d as u64);
    let what = format!("an event executed from its own triggers {d} deep (two events in turn: {two}), level {} failing", fail as isize);
    if *seen.borrow() != want {
        let at = seen.borrow().iter().zip(&want).position(|(a, b)| a != b).unwrap_or(want.len().min(seen.borrow().len()));
        return Err(format!("{what}: step {at} (level, trigger) is {:?}, expected {:?}", seen.borrow().get(at), want.get(at)));
    }
    if r.is_ok() != (fail > d) {
        return Err(format!("{what}: {r:?}"));
    }
    st.state(&(d, two, fail));
    st.outcome(&want.len());
    Ok(())
}

macro_rules! both {
    ($m:ident) => {
        both!(@ $m; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
    };
    (@ $m:ident; $($a:literal)*) => { $( both!(@@ $m; $a; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15); )* };
    (@@ $m:ident; $a:literal; $($b:literal)*) => { $( $m!($a, $b); )* };
}

/// 256 events, of which each of the first n has a trigger.
fn events(n: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let seen: Rc<RefCell<Vec<usize>>> = Default::default();
    let mut s: Option<Schema<W<u32>>> = Some(Graph::default().into());
    let rounds = 1 + ch.pick(2);
    for r in 0..rounds {
        macro_rules! reg {
            ($a:literal, $b:literal) => {
                let k = $a * 16 + $b;
                if k < n {
                    let seen = seen.clone();
                    s = s.map(|s| {
                        s.with_trigger(Ev2::<$a, $b>, move |_: Ctx<W<u32>>, _: Unused| {
                            seen.borrow_mut().push(r * 1000 + k);
                            Ok(())
                        })
                    });
                }
            };
        }
        both!(reg);
    }
    let schema = s.expect("harness: schema");
    let mut out = Ok(());
    let _ = schema.transaction().with(|c| {
        macro_rules! run {
            ($a:literal, $b:literal) => {
                let k: usize = $a * 16 + $b;
                seen.borrow_mut().clear();
                let r = c.triggers().select(Ev2::<$a, $b>).execute(&c);
                let want: Vec<usize> = (0..if k < n { rounds } else { 0 }).map(|r| r * 1000 + k).collect();
                if out.is_ok() && (r.is_err() || *seen.borrow() != want) {
                    out = Err(format!("with {n} events, event {k} ran triggers {:?}, expected {want:?}; {r:?}", seen.borrow()));
                }
            };
        }
        both!(run);
        Ok(())
    });
    ch.steps(256);
    st.state(&n);
    st.outcome(&n);
    out
}

pub fn c08(t: Tier) -> Suites {
    let (every, most) = t.pick((1100, 65537), (2100, 100001));
    let runs = t.pick(70000, 300000);
    let deep = t.pick(130, 260);
    let deepest = t.pick(513, 1025);
    vec![
        suite(
            "sizes",
            format!("n triggers for {}, over 1 to 3 events in turn, registered directly or by plugins, one failing or none; all events executed twice", told(every, most)),
            sizes(every, most),
            |n: &usize, ch, st| triggers(*n, ch, st),
        ),
        suite("many-executions", format!("{runs} executions in a row of the triggers of two events, in one transaction or in one each"), vec![runs], |n: &usize, ch, st| executions(*n, ch, st)),
        suite("many-events", "1 or 2 triggers on each of the first n of 256 events for every n; all events executed", (0..=256usize).collect(), |n: &usize, ch, st| events(*n, ch, st)),
        suite(
            "event-within-itself",
            format!("an event executed from its own trigger (or two events from each other's), n deep for {}, one level failing or none", told(deep, deepest)),
            sizes(deep, deepest),
            |d: &usize, ch, st| own_event(*d, ch, st),
        ),
        reentrancy(t),
    ]
}

// ------------------------------------------------------------------------------------------------
// resources

struct R2<const A: usize, const B: usize>(u32);

/// The first n of 256 types registered, maybe twice; all read and written.
fn types(n: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let rounds = 1 + ch.pick(2);
    let mut set = ResourceSet::default();
    let mut schema: Option<Schema<W<u32>>> = Some(Graph::default().into());
    let by_schema = ch.flag();
    for r in 0..rounds as u32 {
        macro_rules! reg {
            ($a:literal, $b:literal) => {
                let k: usize = $a * 16 + $b;
                if k < n {
                    let v = R2::<$a, $b>(k as u32 + 1000 * r);
                    if by_schema {
                        schema = schema.map(|s| s.with_resource(v));
                    } else {
                        set = set.with_resource(v);
                    }
                }
            };
        }
        both!(reg);
    }
    let schema = schema.expect("harness: schema");
    let set = if by_schema { schema.resources() } else { &set };
    let last = 1000 * (rounds as u32 - 1);
    macro_rules! write {
        ($a:literal, $b:literal) => {
            let k: usize = $a * 16 + $b;
            let want = (k < n).then_some(k as u32 + last);
            let h = Res::<R2<$a, $b>>::from(set);
            let got = h.with(|x| x.0);
            if got != want || h.exists() != want.is_some() {
                return Err(format!("with {n} types registered, type {k} reads {got:?}, expected {want:?}"));
            }
            if h.with_mut(|x| x.0 += 5).is_some() != want.is_some() {
                return Err(format!("with {n} types registered, writing type {k}"));
            }
        };
    }
    both!(write);
    macro_rules! read {
        ($a:literal, $b:literal) => {
            let k: usize = $a * 16 + $b;
            let want = (k < n).then_some(k as u32 + last + 5);
            let got = Res::<R2<$a, $b>>::from(set).with(|x| x.0);
            if got != want {
                return Err(format!("with {n} types registered, type {k} reads {got:?} after writes, expected {want:?}"));
            }
        };
    }
    both!(read);
    ch.steps(512);
    st.state(&(n, rounds));
    st.outcome(&n);
    Ok(())
}

/// n writes and reads through n handles that all stay; every fourth registration anew.
fn handles(n: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let mut set = ResourceSet::default().with_resource(R2::<0, 0>(0)).with_resource(R2::<0, 1>(1));
    let fresh = ch.flag();
    let mut kept = vec![];
    for k in 0..n as u32 {
        if fresh && k % 4 == 3 {
            set = set.with_resource(R2::<0, 0>(k));
            kept.clear();
        } else {
            let h = Res::<R2<0, 0>>::from(&set);
            if h.with_mut(|x| x.0 = k).is_none() {
                return Err(format!("write {k} did not run"));
            }
            kept.push(h);
        }
        let first = kept.first().map(|h: &Res<R2<0, 0>>| h.with(|x| x.0));
        let now = Res::<R2<0, 0>>::from(&set).with(|x| x.0);
        if now != Some(k) || first.is_some_and(|f| f != now) {
            return Err(format!("after {} writes it reads {now:?}, through the first handle {first:?}", k + 1));
        }
        ch.step();
    }
    for h in &kept {
        if h.with(|x| x.0) != Some(n as u32 - 1) {
            return Err(format!("with {} handles, one of them reads {:?}", kept.len(), h.with(|x| x.0)));
        }
    }
    if Res::<R2<0, 1>>::from(&set).with(|x| x.0) != Some(1) {
        return Err("the other resource changed".into());
    }
    st.state(&(n, fresh));
    st.outcome(&n);
    Ok(())
}

/// Reads of one resource within each other, d deep, through one handle or several.
fn reads(d: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let set = ResourceSet::default().with_resource(R2::<0, 0>(5)).with_resource(R2::<0, 1>(1));
    let several = ch.flag();
    let r = Res::<R2<0, 0>>::from(&set);
    fn go(d: usize, set: &ResourceSet, r: &Res<R2<0, 0>>, several: bool) -> Verdict {
        let own = Res::<R2<0, 0>>::from(set);
        let h = if several { &own } else { r };
        if !h.exists() {
            return Err(format!("with {d} levels to go, the resource does not exist"));
        }
        if !Res::<R2<0, 1>>::from(set).exists() || Res::<R2<0, 2>>::from(set).exists() {
            return Err(format!("with {d} levels to go, the existence of other resources is wrong"));
        }
        match h.with(|x| (x.0, if d == 0 { Ok(()) } else { go(d - 1, set, r, several) })) {
            Some((5, r)) => r,
            x => Err(format!("with {d} levels to go, the read yields {:?}", x.map(|x| x.0))),
        }
    }
    ch.steps(d as u64);
    st.state(&(d, several));
    st.outcome(&d);
    go(d, &set, &r, several).map_err(|e| format!("reads within reads, {d} deep: {e}"))?;
    match r.with_mut(|x| x.0 += 1) {
        Some(()) => Ok(()),
        None => Err(format!("after reads within reads, {d} deep, it cannot be written")),
    }
}

pub fn c10(t: Tier) -> Suites {
    let (every, most) = t.pick((1100, 65537), (2100, 100001));
    let (deep, deepest) = t.pick((130, 513), (260, 1025));
    vec![
        suite("many-types", "the first n of 256 types registered, once or twice, for every n; all read and written", (0..=256usize).collect(), |n: &usize, ch, st| types(*n, ch, st)),
        suite(
            "many-handles",
            format!("n writes through n handles for {}, none or every fourth of them a registration anew", told(every, most)),
            sizes(every, most),
            |n: &usize, ch, st| handles(*n, ch, st),
        ),
        suite(
            "reads-within-reads",
            format!("reads of one resource and questions for its existence within each other, n deep for {}, through one handle or several", told(deep, deepest)),
            sizes(deep, deepest),
            |d: &usize, ch, st| reads(*d, ch, st),
        ),
    ]
}

// ------------------------------------------------------------------------------------------------
// graphs, handles, documents

/// A list of n nodes, repeated ids included, built in three ways; then half of it removed.
fn list<I: Id>(n: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let way = ch.pick(3);
    let pattern = ch.pick(4);
    let id = |k: u32| match pattern {
        0 => k,
        1 => n as u32 - k,
        2 => k / 2 + 3 * (k % 2),
        _ => k.wrapping_mul(2654435761) % (n as u32 / 3 + 1),
    };
    let mut m: Model<I> = BTreeMap::new();
    let nodes: Vec<W<I>> = (0..n as u32).map(|k| w(id(k), k)).collect();
    let mut displaced = Ok(());
    let g = match way {
        0 => Graph::from_iter(nodes.clone()),
        1 => nodes.iter().cloned().fold(Graph::default(), |g, n| g.with_node(n)),
        _ => {
            let mut g = Graph::default();
            let mut m: Model<I> = BTreeMap::new();
            for n in &nodes {
                let got = g.insert(n.clone()).map(|n| n.val);
                let want = m.insert(n.id.clone(), n.val);
                if got != want {
                    displaced = Err(format!("insertion {} displaced {got:?}, expected {want:?}", n.val));
                }
            }
            g
        }
    };
    let mut g: Graph<W<I>> = g;
    displaced?;
    for n in &nodes {
        m.insert(n.id.clone(), n.val);
    }
    ch.steps(n as u64);
    let what = format!("a list of {n} nodes (pattern {pattern}, built in way {way})");
    same(&g, &m).map_err(|e| format!("{what}: {e}"))?;
    let check = |g: &Graph<W<I>>, m: &Model<I>| -> Verdict {
        for k in [0, 1, n as u32 / 3, n as u32 / 2, n as u32, n as u32 + 1].into_iter().chain((0..n as u32).step_by(n / 40 + 1)) {
            let want = m.get(&I::mk(k)).copied();
            let got = g.get(&I::mk(k)).map(|n| n.val);
            if got != want || g.contains(&I::mk(k)) != want.is_some() || g.node(I::mk(k)).is_virtual() != want.is_none() {
                return Err(format!("id {k} is {got:?}, expected {want:?}"));
            }
        }
        Ok(())
    };
    check(&g, &m).map_err(|e| format!("{what}: {e}"))?;
    for k in (0..n as u32 + 2).step_by(2) {
        let got = g.remove(&I::mk(k)).map(|n| n.val);
        let want = m.remove(&I::mk(k));
        if got != want {
            return Err(format!("{what}: removing {k} yields {got:?}, expected {want:?}"));
        }
    }
    st.state(&(n, way, pattern));
    st.outcome(&m.len());
    check(&g, &m).map_err(|e| format!("{what}, every other id removed: {e}"))?;
    same(&g, &m).map_err(|e| format!("{what}, every other id removed: {e}"))
}

pub fn c12(t: Tier) -> Suites {
    let (every, most) = t.pick((1100, 100001), (2100, 300001));
    vec![suite(
        "sizes",
        format!("lists of n nodes for {}, 4 patterns of ids, repeated ones included, built in 3 ways, then every other id removed; 3 types of ids in turn", told(every, most)),
        sizes(every, most),
        |n: &usize, ch, st| match n % 8 {
            6 => list::<String>(*n, ch, st),
            3 => list::<(u16, char)>(*n, ch, st),
            _ => list::<u32>(*n, ch, st),
        },
    )]
}

/// A node with n edges, a chain of n nodes, clones of clones.
fn handle<I: Id>(n: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let shape = ch.pick(4);
    let n32 = n as u32;
    let edges = |k: u32| -> Vec<u32> {
        match shape {
            // a star: everyone, in ascending, descending or repeating order
            0 if k == 0 => (0..n32).collect(),
            1 if k == 0 => (0..n32).rev().map(|e| e / 2).collect(),
            2 if k == 0 => (0..n32).map(|e| e % 3 + 1).collect(),
            // a chain that ends in an absent node
            3 => vec![k + 1],
            _ => vec![0],
        }
    };
    let nodes: Vec<W<I>> = (0..if shape == 3 { n32 } else { n32 / 2 + 1 }).map(|k| W { id: I::mk(k), val: k, edges: edges(k).into_iter().map(I::mk).collect() }).collect();
    let count = nodes.len() as u32;
    let in_tx = ch.flag();
    ch.steps(n as u64);
    st.state(&(n, shape, in_tx));
    st.outcome(&(n, shape));
    fn check<S: Source<Node = W<I>>, I: Id>(h: NodeProxy<'_, S>, n: u32, shape: usize, count: u32, edges: &dyn Fn(u32) -> Vec<u32>) -> Verdict {
        if shape == 3 {
            let mut h = h;
            for k in 0..n {
                if *h.id() != I::mk(k) || h.is_virtual() {
                    return Err(format!("step {k} along a chain of {n} reached {:?} (virtual: {})", h.id(), h.is_virtual()));
                }
                if k % 3 == 1 {
                    h = h.clone();
                }
                h = h.successors::<Edge<I>>().into_iter().next().ok_or(format!("the chain of {n} ends after {k}"))?;
            }
            if *h.id() != I::mk(n) || !h.is_virtual() || h.try_deref().is_some() || !h.successors::<Edge<I>>().is_empty() {
                return Err(format!("the end of a chain of {n} is {:?}", h.id()));
            }
            return Ok(());
        }
        let want: Vec<I> = edges(0).into_iter().map(I::mk).collect();
        for pass in 0..2 {
            let s = h.successors::<Edge<I>>();
            let got: Vec<I> = s.iter().map(|h| h.id().clone()).collect();
            if got != want {
                let at = got.iter().zip(&want).position(|(a, b)| a != b);
                return Err(format!("look {pass} at {n} successors yields {} of them, the first difference is at {at:?}", got.len()));
            }
            for (h, e) in s.iter().zip(edges(0)) {
                if h.is_virtual() != (e >= count) || h.try_deref().map(|n| n.val) != (e < count).then_some(e) {
                    return Err(format!("the successor {e} of {n} is wrong"));
                }
            }
        }
        // clones of clones
        let mut c = h.clone();
        for k in 0..n {
            if c.try_deref().map(|n| n.val) != Some(0) || c.is_virtual() {
                return Err(format!("the {k}th clone of a clone is {:?}", c.try_deref()));
            }
            c = c.clone();
        }
        Ok(())
    }
    if in_tx {
        let schema: Schema<W<I>> = Graph::default().into();
        let mut out = Ok(());
        let _ = schema.transaction().with(|c| {
            nodes.iter().for_each(|n| c.save(n.clone()));
            out = check(c.node(I::mk(0)), n32, shape, count, &edges);
            Ok(())
        });
        out
    } else {
        let g = Graph::from_iter(nodes);
        if n == 0 && shape == 3 {
            return Ok(());
        }
        check(g.node(I::mk(0)), n32, shape, count, &edges)
    }
}

pub fn c13(t: Tier) -> Suites {
    let (every, most) = t.pick((1100, 16385), (2100, 65537));
    vec![suite(
        "sizes",
        format!("a node with n edges (ascending, descending in pairs, repeating) and a chain of n nodes for {}, in a graph and in a transaction; clones of clones; 2 types of ids in turn", told(every, most)),
        sizes(every, most),
        |n: &usize, ch, st| if n % 8 == 6 { handle::<String>(*n, ch, st) } else { handle::<u32>(*n, ch, st) },
    )]
}

#[derive(Clone, Debug, PartialEq)]
struct Doc(u32);
impl Identify for Doc {
    type Id = u32;
    fn id(&self) -> &u32 {
        &self.0
    }
}
/// Has every document from the k-th question on; counts the questions per id.
#[derive(Default)]
struct Repo {
    asked: RefCell<Vec<u32>>,
    from: usize,
}
impl DocumentRepository for Repo {
    type Document = Doc;
    fn find_by_id(&self, id: &u32) -> Option<Doc> {
        let mut a = self.asked.borrow_mut();
        a.push(*id);
        (a.iter().filter(|x| *x == id).count() > self.from).then_some(Doc(*id))
    }
}

/// n documents of one repository, each asked for some times, in different orders.
fn documents(n: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let from = ch.pick(3);
    let order = ch.pick(3);
    let graph = ch.flag();
    let repo = Arc::new(Repo { from, ..Default::default() });
    let build = LazyDocument::builder(repo.clone());
    let docs: Vec<LazyDocument<Repo>> = (0..n as u32).map(&build).collect();
    let g: Graph<LazyDocument<Repo>> = if graph { Graph::from_iter((0..n as u32).map(&build)) } else { Graph::default() };
    let all: Vec<&LazyDocument<Repo>> = if graph { g.into_iter().collect() } else { docs.iter().collect() };
    if all.len() != n || all.iter().zip(0..).any(|(d, k)| *d.id() != k) {
        return Err(format!("{n} documents identify themselves wrongly"));
    }
    if !repo.asked.borrow().is_empty() {
        return Err(format!("creating and identifying {n} documents asked the repository"));
    }
    let mut want: Vec<u32> = vec![];
    for round in 0..5 {
        for k in 0..n {
            let k = match order {
                0 => k,
                1 => n - 1 - k,
                _ if n % 2 == 1 => (2 * k) % n,
                _ => k ^ 1,
            };
            if round <= from {
                want.push(k as u32);
            }
            let got = all[k].try_deref().cloned();
            if got != (round >= from).then_some(Doc(k as u32)) {
                return Err(format!("access {round} to document {k} of {n}, which the repository has from question {from} on, yields {got:?}"));
            }
            ch.step();
        }
        if *repo.asked.borrow() != want {
            return Err(format!("after {} accesses to each of {n} documents there were {} questions, expected {}", round + 1, repo.asked.borrow().len(), want.len()));
        }
    }
    st.state(&(n, from, order));
    st.outcome(&want.len());
    Ok(())
}

/// n absent answers, then n accesses.
fn patience(n: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let repo = Arc::new(Repo { from: n, ..Default::default() });
    let mut d = LazyDocument::builder(repo.clone())(7);
    let clones = ch.flag();
    for k in 0..2 * n + 2 {
        let got = d.try_deref().cloned();
        if got != (k >= n).then_some(Doc(7)) || repo.asked.borrow().len() != (k + 1).min(n + 1) {
            return Err(format!("access {k}, with the document there from question {n} on, yields {got:?} after {} questions", repo.asked.borrow().len()));
        }
        if clones {
            d = d.clone();
        }
        ch.step();
    }
    st.state(&(n, clones));
    st.outcome(&n);
    Ok(())
}

pub fn c15(t: Tier) -> Suites {
    let (every, most) = t.pick((260, 1025), (600, 4097));
    let (pevery, pmost) = t.pick((1100, 65537), (2100, 100001));
    vec![
        suite(
            "many-documents",
            format!("n documents of one repository for {}, alone or in a graph, accessed 5 times each in 3 orders, there from the first, second or third question on", told(every, most)),
            sizes(every, most),
            |n: &usize, ch, st| documents(*n, ch, st),
        ),
        suite(
            "many-accesses",
            format!("n absent answers, then n accesses, for {}, through one document or clones of clones", told(pevery, pmost)),
            sizes(pevery, pmost),
            |n: &usize, ch, st| patience(*n, ch, st),
        ),
    ]
}
