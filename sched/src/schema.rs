//! C04: concurrent accesses to a schema.
use crate::sched::{point, run};
use engine::{suite, Ch, Stats, Suite, Tier, Verdict};
use plotline::deref::{TryDeref, With, WithMut};
use plotline::graph::{Graph, Source};
use plotline::id::Identify;
use plotline::schema::ops::delete::{AfterDelete, BeforeDelete, Delete};
use plotline::schema::ops::save::{AfterSave, BeforeSave, Save};
use plotline::schema::resource::Res;
use plotline::schema::transaction::{Context, Ctx, Target, Transaction};
use plotline::schema::{Error, Schema};
use std::cell::{RefCell, UnsafeCell};
use std::collections::{BTreeMap, BTreeSet};

type Suites = Vec<Box<dyn Suite>>;
type V = u32;
type K = u16;

#[derive(Clone, Debug, PartialEq)]
struct N {
    id: K,
    val: V,
}
impl Identify for N {
    type Id = K;
    fn id(&self) -> &K {
        &self.id
    }
}

/// Something done in a transaction. New values are made of the thread's number and old values.
#[derive(Clone, Debug, PartialEq)]
enum T {
    /// Looks at an id: existence, fetched node and handle.
    Look(K),
    Save(K),
    Del(K),
    /// Reads an id and saves a value computed from it.
    Incr(K),
    Sub(Vec<T>, bool),
    SaveOp(K),
    DelOp(K),
    /// Panics, caught at the top.
    Panic,
}

/// One access of a thread to the schema.
#[derive(Clone, Debug, PartialEq)]
enum Acc {
    /// Everything, through one read guard.
    Read,
    /// Inserts and removes through one write guard.
    Write(Vec<T>),
    Tx(Vec<T>, bool),
    /// Changes registered ahead through a context, then run.
    Staged(Vec<T>, Vec<T>, bool),
    /// The same, the context made ahead staying alive until the end.
    Kept(Vec<T>, Vec<T>, bool),
    /// A transaction prepared and dropped, with changes registered.
    Dropped(Vec<T>),
    SaveOp(K),
    DelOp(K),
    /// Reads and writes a shared resource.
    Count,
}

#[derive(Clone)]
struct Case {
    threads: Vec<Vec<Acc>>,
    triggers: bool,
    budget: usize,
    /// How many ids are looked at by reads.
    ids: K,
}
impl std::fmt::Debug for Case {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.ids > IDS {
            let kinds: Vec<String> = self.threads.iter().flatten().map(|a| format!("{a:?}").chars().take(60).collect()).collect();
            return write!(f, "{} ids: {kinds:?}; at most {} preemptions", self.ids, self.budget);
        }
        for (i, t) in self.threads.iter().enumerate() {
            write!(f, "thread {i}: {t:?}; ")?;
        }
        write!(f, "{}at most {} preemptions", if self.triggers { "with triggers; " } else { "" }, self.budget)
    }
}

const IDS: K = 3;
type Obs = Vec<(K, Option<V>)>;
const RES: K = 30_000; // observations that are results
const CNT: K = 30_001; // observations of the resource
const FIRED: K = 40_000; // observations of triggers (plus id)

fn init() -> Vec<(K, V)> {
    vec![(0, 1), (1, 2)]
}
fn mix(old: Option<V>, tid: usize) -> V {
    old.unwrap_or(9).wrapping_mul(10).wrapping_add(tid as V + 3) % 1_000_003
}
fn fresh(tid: usize, id: K) -> V {
    50 + 10_000 * tid as V + id as V
}

// --- the model: accesses one at a time

#[derive(Clone)]
struct World {
    g: BTreeMap<K, V>,
    count: V,
}

struct Seq<'a> {
    tid: usize,
    obs: &'a mut Obs,
    count: &'a mut V,
    triggers: bool,
}

impl Seq<'_> {
    fn body(&mut self, g: &mut BTreeMap<K, V>, b: &[T]) -> Result<(), ()> {
        for t in b {
            match t {
                T::Look(id) => self.obs.push((*id, g.get(id).copied())),
                T::Save(id) => {
                    g.insert(*id, fresh(self.tid, *id));
                }
                T::Del(id) => {
                    g.remove(id);
                }
                T::Incr(id) => {
                    let old = g.get(id).copied();
                    self.obs.push((*id, old));
                    g.insert(*id, mix(old, self.tid));
                }
                T::Sub(b, ok) => {
                    let mut h = g.clone();
                    self.body(&mut h, b)?;
                    if *ok {
                        *g = h;
                    }
                }
                T::SaveOp(id) => self.save(g, *id),
                T::DelOp(id) => self.del(g, *id),
                T::Panic => return Err(()),
            }
        }
        Ok(())
    }
    fn save(&mut self, g: &mut BTreeMap<K, V>, id: K) {
        let v = fresh(self.tid, id);
        self.fire(g, id);
        g.insert(id, v);
        self.fire(g, id);
        self.obs.push((RES, Some(1)));
    }
    fn del(&mut self, g: &mut BTreeMap<K, V>, id: K) {
        if !g.contains_key(&id) {
            self.obs.push((RES, None));
            return;
        }
        self.fire(g, id);
        g.remove(&id);
        self.fire(g, id);
        self.obs.push((RES, Some(2)));
    }
    fn fire(&mut self, g: &BTreeMap<K, V>, id: K) {
        if self.triggers {
            self.obs.push((FIRED + id, g.get(&id).copied()));
            *self.count += 1;
        }
    }
    fn acc(&mut self, w: &mut BTreeMap<K, V>, ids: K, a: &Acc) {
        match a {
            Acc::Read => {
                for id in 0..ids {
                    self.obs.push((id, w.get(&id).copied()));
                }
            }
            Acc::Write(b) => {
                let _ = self.body(w, b);
            }
            Acc::Tx(b, ok) => {
                let mut h = w.clone();
                let r = self.body(&mut h, b);
                self.obs.push((RES, (r.is_ok() && *ok).then_some(0)));
                if r.is_ok() && *ok {
                    *w = h;
                }
            }
            Acc::Staged(pre, b, ok) | Acc::Kept(pre, b, ok) => {
                let mut h = w.clone();
                let _ = self.body(&mut h, pre);
                let r = self.body(&mut h, b);
                self.obs.push((RES, (r.is_ok() && *ok).then_some(0)));
                if r.is_ok() && *ok {
                    *w = h;
                }
            }
            Acc::Dropped(b) => {
                let _ = self.body(&mut w.clone(), b);
            }
            Acc::SaveOp(id) => self.save(w, *id),
            Acc::DelOp(id) => self.del(w, *id),
            Acc::Count => {
                self.obs.push((CNT, None));
                *self.count += 1;
            }
        }
    }
}

type Outcome = (Vec<Obs>, Vec<(K, V)>, V);

/// The outcomes of all orders of the accesses.
fn serial(c: &Case) -> BTreeSet<Outcome> {
    fn rec(c: &Case, next: &mut Vec<usize>, w: &World, obs: &mut Vec<Obs>, out: &mut BTreeSet<Outcome>) {
        let mut any = false;
        for t in 0..c.threads.len() {
            if next[t] == c.threads[t].len() {
                continue;
            }
            any = true;
            let mut w2 = w.clone();
            let len = obs[t].len();
            let World { g, count } = &mut w2;
            Seq { tid: t, obs: &mut obs[t], count, triggers: c.triggers }.acc(g, c.ids, &c.threads[t][next[t]]);
            next[t] += 1;
            rec(c, next, &w2, obs, out);
            next[t] -= 1;
            obs[t].truncate(len);
        }
        if !any {
            out.insert((obs.clone(), w.g.iter().map(|(k, v)| (*k, *v)).collect(), w.count));
        }
    }
    let mut out = BTreeSet::new();
    let w = World { g: init().into_iter().collect(), count: 0 };
    rec(c, &mut vec![0; c.threads.len()], &w, &mut vec![vec![]; c.threads.len()], &mut out);
    out
}

// --- the code

struct Count(V);
thread_local! {
    static OBS: RefCell<Obs> = const { RefCell::new(vec![]) };
}
fn see(id: K, v: Option<V>) {
    OBS.with(|o| o.borrow_mut().push((id, v)));
}

/// A schema is not meant to cross threads because resources and triggers may be anything; those
/// used here may.
struct Shared<X>(X);
unsafe impl<X> Sync for Shared<X> {}
unsafe impl<X> Send for Shared<X> {}

fn value(ctx: &Context<'_, N>, id: K) -> Option<V> {
    let fetched = ctx.get(&id).map(|n| n.val);
    let exists = ctx.contains(&id);
    let h = ctx.node(id);
    let seen = h.try_deref().map(|n| n.val);
    if exists != fetched.is_some() || seen != fetched || h.is_virtual() == exists {
        return Some(999_999);
    }
    fetched
}

fn body(ctx: &Context<'_, N>, b: &[T], tid: usize) {
    for t in b {
        match t {
            T::Look(id) => see(*id, value(ctx, *id)),
            T::Save(id) => ctx.save(N { id: *id, val: fresh(tid, *id) }),
            T::Del(id) => ctx.delete(*id),
            T::Incr(id) => {
                let old = value(ctx, *id);
                see(*id, old);
                ctx.save(N { id: *id, val: mix(old, tid) });
            }
            T::Sub(b, ok) => {
                let _ = ctx.transaction().with(|c| {
                    body(&c, b, tid);
                    if *ok {
                        Ok(())
                    } else {
                        Err(Error::custom("no"))
                    }
                });
            }
            T::SaveOp(id) => {
                let r = Save::new(N { id: *id, val: fresh(tid, *id) }).execute(ctx.transaction());
                see(RES, r.ok().map(|_| 1));
            }
            T::DelOp(id) => {
                let r = Delete::<N>::new(*id).execute(ctx.transaction());
                see(RES, r.ok().map(|_| 2));
            }
            T::Panic => engine::inject(1),
        }
    }
}

fn acc(s: &Schema<N>, a: &Acc, tid: usize, ids: K) {
    match a {
        Acc::Read => {
            let g = s.read();
            let listed: BTreeMap<K, V> = g.into_iter().map(|n| (n.id, n.val)).collect();
            for id in 0..ids {
                let v = g.get(&id).map(|n| n.val);
                let odd = listed.get(&id).copied() != v || g.contains(&id) != v.is_some();
                see(id, if odd { Some(999_998) } else { v });
            }
        }
        Acc::Write(b) => {
            let mut g = s.write();
            for t in b {
                match t {
                    T::Look(id) => see(*id, g.get(id).map(|n| n.val)),
                    T::Save(id) => {
                        g.insert(N { id: *id, val: fresh(tid, *id) });
                    }
                    T::Del(id) => {
                        g.remove(id);
                    }
                    T::Incr(id) => {
                        let old = g.get(id).map(|n| n.val);
                        see(*id, old);
                        point();
                        g.insert(N { id: *id, val: mix(old, tid) });
                    }
                    _ => panic!("harness: not through a guard"),
                }
            }
        }
        Acc::Tx(b, ok) => {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                s.transaction().with(|c| {
                    body(&c, b, tid);
                    if *ok {
                        Ok(())
                    } else {
                        Err(Error::custom("no"))
                    }
                })
            }));
            match r {
                Ok(r) => see(RES, r.ok().map(|_| 0)),
                Err(p) if p.is::<engine::Injected>() => see(RES, None),
                Err(p) => std::panic::resume_unwind(p),
            }
        }
        Acc::Staged(pre, b, ok) | Acc::Kept(pre, b, ok) => {
            let tx = s.transaction();
            let c = Context::from(&tx);
            body(&c, pre, tid);
            let _kept = if matches!(a, Acc::Kept(..)) { Some(c) } else { drop(c); None };
            point();
            let r = tx.with(|c| {
                body(&c, b, tid);
                if *ok {
                    Ok(())
                } else {
                    Err(Error::custom("no"))
                }
            });
            see(RES, r.ok().map(|_| 0));
        }
        Acc::Dropped(b) => {
            let tx = s.transaction();
            let c = Context::from(&tx);
            body(&c, b, tid);
        }
        Acc::SaveOp(id) => {
            let r = Save::new(N { id: *id, val: fresh(tid, *id) }).execute(s.transaction());
            see(RES, r.ok().map(|_| 1));
        }
        Acc::DelOp(id) => {
            let r = Delete::<N>::new(*id).execute(s.transaction());
            see(RES, r.ok().map(|_| 2));
        }
        Acc::Count => {
            see(CNT, None);
            Res::<Count>::from(s.resources()).with_mut(|c| {
                let old = c.0;
                point();
                c.0 = old + 1;
            });
        }
    }
}

fn watch(ctx: Ctx<N>, target: Target<N>, count: Res<Count>) -> Result<(), Error> {
    let id = target.with(|n| n.id).unwrap_or(99);
    let _ = ctx.transaction().with(|c| {
        see(FIRED.wrapping_add(id), value(&c, id));
        Result::<(), Error>::Err(Error::Noop)
    });
    count.with_mut(|c| c.0 += 1);
    Ok(())
}

fn one(c: &Case, allowed: &BTreeSet<Outcome>, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let g = Graph::from_iter(init().into_iter().map(|(id, val)| N { id, val }));
    let mut s: Schema<N> = g.into();
    s = s.with_resource(Count(0));
    if c.triggers {
        s = s.with_trigger(BeforeSave, watch).with_trigger(AfterSave, watch).with_trigger(BeforeDelete, watch).with_trigger(AfterDelete, watch);
    }
    let s = Shared(s);
    let obs: Vec<Shared<UnsafeCell<Obs>>> = (0..c.threads.len()).map(|_| Shared(UnsafeCell::new(vec![]))).collect();
    let mut jobs: Vec<Box<dyn FnOnce() + '_>> = vec![];
    for (t, prog) in c.threads.iter().enumerate() {
        let (s, obs) = (&s, &obs[t]);
        jobs.push(Box::new(move || {
            OBS.with(|o| o.borrow_mut().clear());
            for a in prog {
                acc(&s.0, a, t, c.ids);
            }
            let mine = OBS.with(|o| std::mem::take(&mut *o.borrow_mut()));
            unsafe { *obs.0.get() = mine };
        }));
    }
    let ran = match run(ch, c.budget, jobs) {
        Ok(r) => r,
        Err(e) => {
            // The threads may still hold on to the schema.
            std::mem::forget(s);
            return Err(format!("{c:?}: {e}"));
        }
    };
    ch.steps(ran.points);
    let obs: Vec<Obs> = obs.into_iter().map(|o| o.0.into_inner()).collect();
    let fin: Vec<(K, V)> = s.0.read().into_iter().map(|n| (n.id, n.val)).collect();
    let count = Res::<Count>::from(s.0.resources()).with(|c| c.0).unwrap_or(V::MAX);
    let out: Outcome = (obs, fin, count);
    ch.log(|| format!("{c:?}: {} points, {} preemptions, {} waits; observed {:?}, at last {:?}, resource {}", ran.points, ran.preemptions, ran.waits, out.0, out.1, out.2));
    st.state(&(format!("{c:?}"), &out, ran.waits));
    st.outcome(&out);
    if !allowed.contains(&out) {
        return Err(format!(
            "{c:?}: observed {:?}, at last {:?}, resource {}: this is the outcome of no order of the accesses ({} such outcomes)",
            out.0,
            out.1,
            out.2,
            allowed.len()
        ));
    }
    Ok(())
}

fn alphabet() -> Vec<Acc> {
    use T::*;
    vec![
        Acc::Read,
        Acc::Write(vec![Save(0), Del(1)]),
        Acc::Write(vec![Incr(0)]),
        Acc::Tx(vec![Save(0), Save(2)], true),
        Acc::Tx(vec![Incr(0), Incr(1)], true),
        Acc::Tx(vec![Look(0), Del(0), Look(1)], true),
        Acc::Tx(vec![Save(0), Save(2)], false),
        Acc::Tx(vec![Incr(0), Panic], true),
        Acc::Tx(vec![Save(2), Sub(vec![Incr(0), Del(1)], true), Look(1)], true),
        Acc::Tx(vec![Sub(vec![Save(0), Look(0)], false), Incr(0)], true),
        Acc::Tx(vec![SaveOp(0), DelOp(1)], true),
        Acc::Staged(vec![Save(0)], vec![Incr(1)], true),
        Acc::Dropped(vec![Save(0), Del(1)]),
        Acc::SaveOp(0),
        Acc::DelOp(0),
        Acc::Count,
        Acc::Kept(vec![Save(0)], vec![Incr(1)], true),
    ]
}

pub fn c04(t: Tier) -> Suites {
    let al = alphabet();
    let n = al.len();
    // two threads, one access each
    let mut pairs = vec![];
    for i in 0..n {
        for j in i..n {
            for triggers in [false, true] {
                pairs.push(Case { threads: vec![vec![al[i].clone()], vec![al[j].clone()]], triggers, budget: t.pick(3, 4), ids: IDS });
            }
        }
    }
    // two threads, two accesses each
    let mut twos = vec![];
    let small: Vec<&Acc> = [0, 2, 4, 8, 13, 14].iter().map(|i| &al[*i]).collect();
    for a in &small {
        for b in &small {
            for c in &small {
                for d in &small {
                    let v = |x: &Acc, y: &Acc| vec![x.clone(), y.clone()];
                    twos.push(Case { threads: vec![v(a, b), v(c, d)], triggers: false, budget: t.pick(1, 2), ids: IDS });
                }
            }
        }
    }
    // three threads
    let mut threes = vec![];
    let mid: Vec<&Acc> = t.pick(vec![0, 1, 4, 9, 13, 14], vec![0, 1, 4, 5, 7, 9, 10, 11, 13, 14]).iter().map(|i| &al[*i]).collect();
    for (i, a) in mid.iter().enumerate() {
        for (j, b) in mid.iter().enumerate().skip(i) {
            for c in mid.iter().skip(j) {
                threes.push(Case { threads: vec![vec![(*a).clone()], vec![(*b).clone()], vec![(*c).clone()]], triggers: false, budget: t.pick(2, 2), ids: IDS });
            }
        }
    }
    // four threads
    let mut fours = vec![];
    let few: Vec<&Acc> = t.pick(vec![0, 4, 13, 14], vec![0, 1, 4, 9, 13, 14]).iter().map(|i| &al[*i]).collect();
    for a in 0..few.len() {
        for b in a..few.len() {
            for c in b..few.len() {
                for d in c..few.len() {
                    fours.push(Case { threads: [a, b, c, d].iter().map(|i| vec![few[*i].clone()]).collect(), triggers: false, budget: 1, ids: IDS });
                }
            }
        }
    }
    // transactions of many changes
    let mut large = vec![];
    let sizes: Vec<K> = t.pick(
        (3..=20).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129]).collect(),
        (3..=70).chain([127, 128, 129, 200, 255, 256, 257, 511, 512, 513]).collect(),
    );
    for n in sizes {
        use T::*;
        let saves: Vec<T> = (0..n).map(Save).collect();
        let incrs: Vec<T> = (0..n).map(Incr).collect();
        let dels: Vec<T> = (0..n).map(Del).collect();
        let mixed: Vec<T> = (0..n).map(|k| if k % 3 == 2 { Del(k / 2) } else { Save(k) }).collect();
        let m = n / 2;
        let sub = vec![Sub((0..m).map(Save).collect(), true), Sub((m..n).map(Incr).collect(), true)];
        let kinds = [
            Acc::Tx(saves.clone(), true),
            Acc::Tx(incrs, true),
            Acc::Tx(mixed, true),
            Acc::Tx(sub, true),
            Acc::Staged((0..m).map(Save).collect(), (m..n).map(Save).collect(), true),
            Acc::Kept((0..m).map(Save).collect(), (m..n).map(Save).collect(), true),
            Acc::Write(saves),
            Acc::Tx(dels, true),
        ];
        for (i, kind) in kinds.iter().enumerate() {
            let others = [Acc::Read, Acc::Tx(vec![Look(0), Look(n - 1), Look(n / 2), Look(0)], true), kinds[(i + n as usize) % 7].clone()];
            for other in others {
                large.push(Case { threads: vec![vec![kind.clone()], vec![other]], triggers: false, budget: 1, ids: n });
            }
        }
    }
    let mk = |name: &str, what: &str, cases: Vec<Case>| {
        let b = cases[0].budget;
        let roots: Vec<(Case, BTreeSet<Outcome>)> = cases.into_iter().map(|c| (c.clone(), serial(&c))).collect();
        struct Root(Case, BTreeSet<Outcome>);
        impl std::fmt::Debug for Root {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{:?}", self.0)
            }
        }
        let roots: Vec<Root> = roots.into_iter().map(|(a, b)| Root(a, b)).collect();
        suite(
            name,
            format!("{what}; every interleaving with at most {b} preemptions; outcomes compared with those of every order of the accesses"),
            roots,
            |r: &Root, ch, st| one(&r.0, &r.1, ch, st),
        )
    };
    vec![
        mk("two-threads", "2 threads with one access each, out of 17 kinds (read, write guard, transactions reading, writing, failing, panicking, with sub-transactions and operations, staged ahead, dropped; operations; a resource), with and without triggers", pairs),
        mk("three-threads", "3 threads with one access each", threes),
        mk("four-threads", "4 threads with one access each, out of a few kinds", fours),
        mk("two-accesses-each", "2 threads with two accesses each out of 6 kinds", twos),
        mk("large", "2 threads, one with a transaction (saves, increments, saves and deletes, sub-transactions, staged ahead, deletes) or a write guard of n changes for every listed n, the other with a read of everything, a transaction that looks or another such transaction", large),
    ]
}
