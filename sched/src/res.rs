//! C10, C11: resources accessed by several threads, alone and jointly.
use crate::sched::{point, run};
use engine::{suite, Ch, Stats, Suite, Tier, Verdict};
use plotline::deref::{ReadOnly, ReadWrite, TryDeref, TryDerefMut, With, WithMut};
use plotline::graph::Graph;
use plotline::id::Identify;
use plotline::schema::resource::Res;
use plotline::schema::transaction::{Ctx, Transaction};
use plotline::schema::trigger::Trigger;
use plotline::schema::{Error, Schema};
use std::cell::{RefCell, UnsafeCell};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Suites = Vec<Box<dyn Suite>>;
type V = u32;

struct N(u8);
impl Identify for N {
    type Id = u8;
    fn id(&self) -> &u8 {
        &self.0
    }
}
/// The registered resources, in the order in which they are acquired.
struct A(V);
struct B(V);
struct C(V);
/// Never registered.
struct X(V);
struct Ev;

#[derive(Clone, Copy, Debug, PartialEq)]
enum R {
    Read(u8),
    Incr(u8),
    Exists(u8),
    /// Through a guard, looked at twice.
    Guard(u8),
    GuardMut(u8),
    /// A trigger that gets the resource as a parameter changes it.
    ByTrigger,
    /// The function panics.
    Panic(u8),
    /// Reads one while another is being changed, and the other way round.
    ReadInChange,
    ChangeInRead,
    Joint,
    JointMut,
    Joint3,
    JointMut3,
    /// With one that is absent.
    JointAbsent,
    JointMutAbsent,
    JointPanic,
}

type Obs = Vec<Option<V>>;
type State = [V; 3];
type Outcome = (Vec<Obs>, State);

fn mix(old: V, with: V, tid: usize) -> V {
    (old * 10 + with + 3 * tid as V + 1) % 1_000_003
}

#[derive(Clone)]
struct Case {
    threads: Vec<Vec<R>>,
    budget: usize,
}
impl std::fmt::Debug for Case {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for (i, t) in self.threads.iter().enumerate() {
            write!(f, "thread {i}: {t:?}; ")?;
        }
        write!(f, "at most {} preemptions", self.budget)
    }
}

fn model(s: &mut State, r: R, tid: usize, obs: &mut Obs) {
    match r {
        R::Read(i) => obs.push(Some(s[i as usize])),
        R::Guard(i) => obs.extend([Some(s[i as usize]); 2]),
        R::Exists(_) => obs.push(Some(1)),
        R::Incr(i) | R::GuardMut(i) => {
            let i = i as usize;
            obs.push(Some(s[i]));
            s[i] = mix(s[i], 0, tid);
        }
        R::ByTrigger => {
            obs.push(Some(s[0]));
            s[0] = mix(s[0], 0, tid);
        }
        R::Panic(_) | R::JointPanic => obs.push(Some(9)),
        R::ReadInChange => {
            obs.push(Some(s[1]));
            s[0] = mix(s[0], s[1], tid);
        }
        R::ChangeInRead => {
            obs.push(Some(s[1]));
            s[1] = mix(s[1], s[0], tid);
        }
        R::Joint => obs.extend([Some(s[0]), Some(s[1])]),
        R::Joint3 => obs.extend([Some(s[0]), Some(s[1]), Some(s[2])]),
        R::JointMut => {
            obs.extend([Some(s[0]), Some(s[1])]);
            let (a, b) = (s[0], s[1]);
            s[0] = mix(a, b, tid);
            s[1] = mix(b, a, tid);
        }
        R::JointMut3 => {
            obs.extend([Some(s[0]), Some(s[1]), Some(s[2])]);
            let [a, b, c] = *s;
            *s = [mix(a, b, tid), mix(b, c, tid), mix(c, a, tid)];
        }
        R::JointAbsent | R::JointMutAbsent => obs.push(None),
    }
}

fn serial(c: &Case) -> BTreeSet<Outcome> {
    fn rec(c: &Case, next: &mut Vec<usize>, s: State, obs: &mut Vec<Obs>, out: &mut BTreeSet<Outcome>) {
        let mut any = false;
        for t in 0..c.threads.len() {
            if next[t] == c.threads[t].len() {
                continue;
            }
            any = true;
            let mut s2 = s;
            let len = obs[t].len();
            model(&mut s2, c.threads[t][next[t]], t, &mut obs[t]);
            next[t] += 1;
            rec(c, next, s2, obs, out);
            next[t] -= 1;
            obs[t].truncate(len);
        }
        if !any {
            out.insert((obs.clone(), s));
        }
    }
    let mut out = BTreeSet::new();
    rec(c, &mut vec![0; c.threads.len()], INIT, &mut vec![vec![]; c.threads.len()], &mut out);
    out
}

const INIT: State = [1, 2, 3];
thread_local! {
    static OBS: RefCell<Obs> = const { RefCell::new(vec![]) };
    static TID: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
fn see(v: Option<V>) {
    OBS.with(|o| o.borrow_mut().push(v));
}

struct Shared<T>(T);
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}

fn panics(f: impl FnOnce()) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => see(None),
        Err(p) if p.is::<engine::Injected>() => see(Some(9)),
        Err(p) => std::panic::resume_unwind(p),
    }
}

/// Calls the body with the resource of that number.
macro_rules! which {
    ($s:ident, $i:expr, |$r:ident| $b:expr) => {
        match $i {
            0 => {
                let $r = Res::<A>::from($s.resources());
                $b
            }
            1 => {
                let $r = Res::<B>::from($s.resources());
                $b
            }
            _ => {
                let $r = Res::<C>::from($s.resources());
                $b
            }
        }
    };
}

fn real(s: &Schema<N>, r: R, tid: usize) {
    let a = || Res::<A>::from(s.resources());
    let b = || Res::<B>::from(s.resources());
    let c = || Res::<C>::from(s.resources());
    let x = || Res::<X>::from(s.resources());
    match r {
        R::Read(i) => which!(s, i, |r| see(r.with(|v| v.0))),
        R::Exists(i) => which!(s, i, |r| see(Some(r.exists() as V))),
        R::Guard(i) => which!(s, i, |r| {
            let g = r.read();
            see(g.try_deref().map(|v| v.0));
            point();
            see(g.try_deref().map(|v| v.0));
        }),
        R::Incr(i) => which!(s, i, |r| {
            if r.with_mut(|v| {
                let old = v.0;
                see(Some(old));
                point();
                v.0 = mix(old, 0, tid);
            })
            .is_none()
            {
                see(None)
            }
        }),
        R::GuardMut(i) => which!(s, i, |r| {
            let mut g = r.write();
            let old = g.try_deref().map(|v| v.0);
            see(old);
            point();
            if let (Some(v), Some(old)) = (g.try_deref_mut(), old) {
                v.0 = mix(old, 0, tid);
            }
        }),
        R::ByTrigger => {
            let _ = s.transaction().with(|ctx| s.triggers().select(Ev).execute(&ctx));
        }
        R::Panic(i) => which!(s, i, |r| panics(|| {
            r.with(|_| engine::inject(1));
        })),
        R::JointPanic => panics(|| {
            (a(), b()).with(|_| engine::inject(1));
        }),
        R::ReadInChange => {
            let done = a().with_mut(|a| {
                let old = a.0;
                let seen = b().with(|b| b.0);
                see(seen);
                point();
                a.0 = mix(old, seen.unwrap_or(77), tid);
            });
            if done.is_none() {
                see(None)
            }
        }
        R::ChangeInRead => {
            let done = a().with(|a| {
                if b().with_mut(|b| {
                    let old = b.0;
                    see(Some(old));
                    point();
                    b.0 = mix(old, a.0, tid);
                })
                .is_none()
                {
                    see(None)
                }
            });
            if done.is_none() {
                see(None)
            }
        }
        R::Joint => match (a(), b()).with(|(a, b)| {
            let x = a.0;
            point();
            (x, b.0)
        }) {
            Some((x, y)) => {
                see(Some(x));
                see(Some(y));
            }
            None => see(None),
        },
        R::Joint3 => match (a(), b(), c()).with(|(a, b, c)| {
            let x = a.0;
            point();
            let y = b.0;
            point();
            (x, y, c.0)
        }) {
            Some((x, y, z)) => {
                see(Some(x));
                see(Some(y));
                see(Some(z));
            }
            None => see(None),
        },
        R::JointMut => match (a(), b()).with_mut(|(a, b)| {
            let (x, y) = (a.0, b.0);
            point();
            a.0 = mix(x, y, tid);
            point();
            b.0 = mix(y, x, tid);
            (x, y)
        }) {
            Some((x, y)) => {
                see(Some(x));
                see(Some(y));
            }
            None => see(None),
        },
        R::JointMut3 => match (a(), b(), c()).with_mut(|(a, b, c)| {
            let (x, y, z) = (a.0, b.0, c.0);
            a.0 = mix(x, y, tid);
            point();
            b.0 = mix(y, z, tid);
            c.0 = mix(z, x, tid);
            (x, y, z)
        }) {
            Some((x, y, z)) => {
                see(Some(x));
                see(Some(y));
                see(Some(z));
            }
            None => see(None),
        },
        R::JointAbsent => see((a(), x()).with(|(a, _)| a.0)),
        R::JointMutAbsent => see((a(), x(), b()).with_mut(|(a, x, b)| {
            a.0 += 1000;
            b.0 += 1000;
            x.0
        })),
    }
}

fn bump(_: Ctx<N>, a: Res<A>) -> Result<(), Error> {
    let tid = TID.with(|t| t.get());
    if a.with_mut(|v| {
        let old = v.0;
        see(Some(old));
        point();
        v.0 = mix(old, 0, tid);
    })
    .is_none()
    {
        see(None)
    }
    Ok(())
}

fn one(c: &Case, allowed: &BTreeSet<Outcome>, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let s: Schema<N> = Graph::default().into();
    let s = s.with_resource(A(INIT[0])).with_resource(B(INIT[1])).with_resource(C(INIT[2])).with_trigger(Ev, bump);
    let s = Shared(s);
    let obs: Vec<Shared<UnsafeCell<Obs>>> = c.threads.iter().map(|_| Shared(UnsafeCell::new(vec![]))).collect();
    let mut jobs: Vec<Box<dyn FnOnce() + '_>> = vec![];
    for (t, prog) in c.threads.iter().enumerate() {
        let (s, obs) = (&s, &obs[t]);
        jobs.push(Box::new(move || {
            OBS.with(|o| o.borrow_mut().clear());
            TID.with(|x| x.set(t));
            for r in prog {
                real(&s.0, *r, t);
            }
            let mine = OBS.with(|o| std::mem::take(&mut *o.borrow_mut()));
            unsafe { *obs.0.get() = mine };
        }));
    }
    let ran = match run(ch, c.budget, jobs) {
        Ok(r) => r,
        Err(e) => {
            std::mem::forget(s);
            return Err(format!("{c:?}: {e}"));
        }
    };
    ch.steps(ran.points);
    let obs: Vec<Obs> = obs.into_iter().map(|o| o.0.into_inner()).collect();
    let set = s.0.resources();
    let end = |v: Option<V>| v.unwrap_or(V::MAX);
    let fin: State = [end(Res::<A>::from(set).with(|v| v.0)), end(Res::<B>::from(set).with(|v| v.0)), end(Res::<C>::from(set).with(|v| v.0))];
    let out: Outcome = (obs, fin);
    ch.log(|| format!("{c:?}: {} points, {} preemptions, {} waits; observed {:?}, at last {:?}", ran.points, ran.preemptions, ran.waits, out.0, out.1));
    st.state(&(format!("{c:?}"), &out, ran.waits));
    st.outcome(&out);
    if !allowed.contains(&out) {
        return Err(format!("{c:?}: observed {:?}, at last {:?}: this is the outcome of no order of the accesses ({} such outcomes)", out.0, out.1, allowed.len()));
    }
    Ok(())
}

struct Root(Case, BTreeSet<Outcome>);
impl std::fmt::Debug for Root {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
fn mk(name: &str, what: String, cases: Vec<Vec<Vec<R>>>, budget: usize) -> Box<dyn Suite> {
    let roots: Vec<Root> = cases
        .into_iter()
        .map(|threads| {
            let c = Case { threads, budget };
            let o = serial(&c);
            Root(c, o)
        })
        .collect();
    suite(name, format!("{what}; every interleaving with at most {budget} preemptions; outcomes compared with those of every order of the accesses"), roots, |r: &Root, ch, st| one(&r.0, &r.1, ch, st))
}

fn suites(kinds: &[R], few: &[R], what: &str, t: Tier) -> Suites {
    let mut pairs = vec![];
    for (i, a) in kinds.iter().enumerate() {
        for b in &kinds[i..] {
            pairs.push(vec![vec![*a], vec![*b]]);
        }
    }
    let mut threes = vec![];
    for (i, a) in kinds.iter().enumerate() {
        for (j, b) in kinds.iter().enumerate().skip(i) {
            for c in &kinds[j..] {
                threes.push(vec![vec![*a], vec![*b], vec![*c]]);
            }
        }
    }
    let mut twos = vec![];
    for a in few {
        for b in few {
            for c in few {
                for d in few {
                    twos.push(vec![vec![*a, *b], vec![*c, *d]]);
                }
            }
        }
    }
    let mut threads3 = vec![];
    for a in few {
        for b in few {
            for c in few {
                for d in few {
                    threads3.push(vec![vec![*a, *b], vec![*c], vec![*d]]);
                }
            }
        }
    }
    let mut v = vec![
        mk("two-threads", format!("2 threads with one access each, out of {} kinds ({what})", kinds.len()), pairs, t.pick(5, 7)),
        mk("three-threads", format!("3 threads with one access each, out of {} kinds", kinds.len()), threes, t.pick(2, 3)),
        mk("two-accesses-each", format!("2 threads with two accesses each out of {} kinds", few.len()), twos, t.pick(2, 3)),
    ];
    if matches!(t, Tier::Thorough) {
        v.push(mk("two-one-one", format!("3 threads with two, one and one accesses out of {} kinds", few.len()), threads3, 2));
    }
    v
}

pub fn c10(t: Tier) -> Suites {
    use R::*;
    suites(
        &[Read(0), Incr(0), Incr(1), Exists(0), Guard(0), GuardMut(0), ByTrigger, Panic(0), ReadInChange, ChangeInRead],
        &[Read(0), Incr(0), Incr(1), GuardMut(0), ByTrigger],
        "reads, changes, existence, guards, triggers, panicking reads, accesses to one resource within accesses to another",
        t,
    )
}

pub fn c11(t: Tier) -> Suites {
    use R::*;
    suites(
        &[Joint, JointMut, Joint3, JointMut3, JointAbsent, JointMutAbsent, JointPanic, Incr(0), Incr(1), ByTrigger],
        &[Joint, JointMut, JointMut3, JointMutAbsent, Incr(1)],
        "joint accesses to two and three values, shared, mutable, with an absent one, panicking; single changes",
        t,
    )
}
