//! C11: histories of joint accesses to groups of anything that can be accessed.
use engine::{inject, suite, Ch, Injected, Stats, Suite, Tier, Verdict};
use plotline::deref::{ReadOnly, ReadWrite, TryDeref, TryDerefMut, With, WithMut};
use plotline::schema::resource::{Res, ResourceSet};
use plotline::schema::transaction::Target;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

type Suites = Vec<Box<dyn Suite>>;

/// A value of a group: its number, and something on the heap that must stay intact.
#[derive(Clone, Debug, PartialEq)]
struct Val<const K: usize> {
    n: u32,
    text: String,
}
impl<const K: usize> Val<K> {
    fn new(n: u32) -> Self {
        Val { n, text: format!("{K}:{n}") }
    }
    fn intact(&self) -> bool {
        self.text == format!("{K}:{}", self.n)
    }
}

/// A value of the user's own, which knows who holds it.
struct Own<const K: usize> {
    value: RefCell<Option<Val<K>>>,
    held: Cell<u32>,
}
struct OwnRead<'a, const K: usize>(std::cell::Ref<'a, Option<Val<K>>>, &'a Cell<u32>);
struct OwnWrite<'a, const K: usize>(std::cell::RefMut<'a, Option<Val<K>>>, &'a Cell<u32>);
impl<const K: usize> Drop for OwnRead<'_, K> {
    fn drop(&mut self) {
        self.1.set(self.1.get() - 1)
    }
}
impl<const K: usize> Drop for OwnWrite<'_, K> {
    fn drop(&mut self) {
        self.1.set(self.1.get() - 1)
    }
}

enum Any<const K: usize> {
    Res(Res<Val<K>>),
    Target(Target<Val<K>>),
    Own(Own<K>),
}
enum AnyRead<'a, const K: usize> {
    Res(<Res<Val<K>> as ReadOnly>::Guard<'a>),
    Target(<Target<Val<K>> as ReadOnly>::Guard<'a>),
    Own(OwnRead<'a, K>),
}
enum AnyWrite<'a, const K: usize> {
    Res(<Res<Val<K>> as ReadWrite>::Guard<'a>),
    Target(<Target<Val<K>> as ReadWrite>::Guard<'a>),
    Own(OwnWrite<'a, K>),
}
impl<const K: usize> TryDeref for AnyRead<'_, K> {
    type Target = Val<K>;
    fn try_deref(&self) -> Option<&Val<K>> {
        match self {
            AnyRead::Res(g) => g.try_deref(),
            AnyRead::Target(g) => g.try_deref(),
            AnyRead::Own(g) => g.0.as_ref(),
        }
    }
}
impl<const K: usize> TryDeref for AnyWrite<'_, K> {
    type Target = Val<K>;
    fn try_deref(&self) -> Option<&Val<K>> {
        match self {
            AnyWrite::Res(g) => g.try_deref(),
            AnyWrite::Target(g) => g.try_deref(),
            AnyWrite::Own(g) => g.0.as_ref(),
        }
    }
}
impl<const K: usize> TryDerefMut for AnyWrite<'_, K> {
    fn try_deref_mut(&mut self) -> Option<&mut Val<K>> {
        match self {
            AnyWrite::Res(g) => g.try_deref_mut(),
            AnyWrite::Target(g) => g.try_deref_mut(),
            AnyWrite::Own(g) => g.0.as_mut(),
        }
    }
}
impl<const K: usize> ReadOnly for Any<K> {
    type Target = Val<K>;
    type Guard<'a> = AnyRead<'a, K>;
    fn read(&self) -> AnyRead<'_, K> {
        match self {
            Any::Res(r) => AnyRead::Res(r.read()),
            Any::Target(t) => AnyRead::Target(t.read()),
            Any::Own(o) => {
                o.held.set(o.held.get() + 1);
                AnyRead::Own(OwnRead(o.value.borrow(), &o.held))
            }
        }
    }
}
impl<const K: usize> ReadWrite for Any<K> {
    type Target = Val<K>;
    type Guard<'a> = AnyWrite<'a, K>;
    fn write(&self) -> AnyWrite<'_, K> {
        match self {
            Any::Res(r) => AnyWrite::Res(r.write()),
            Any::Target(t) => AnyWrite::Target(t.write()),
            Any::Own(o) => {
                o.held.set(o.held.get() + 1);
                AnyWrite::Own(OwnWrite(o.value.borrow_mut(), &o.held))
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
    Res,
    Target,
    Own,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Member {
    kind: Kind,
    present: bool,
}
const MEMBERS: [Member; 6] = [
    Member { kind: Kind::Res, present: true },
    Member { kind: Kind::Target, present: true },
    Member { kind: Kind::Own, present: true },
    Member { kind: Kind::Res, present: false },
    Member { kind: Kind::Target, present: false },
    Member { kind: Kind::Own, present: false },
];

impl<const K: usize> Any<K> {
    fn new(m: Member) -> Self {
        let v = || Val::new(10 + K as u32);
        match m.kind {
            Kind::Res => {
                let mut set = ResourceSet::default();
                if m.present {
                    set = set.with_resource(v());
                }
                Any::Res(Res::from(&set))
            }
            Kind::Target => {
                let mut t = Target::default();
                if m.present {
                    t.set(v());
                }
                Any::Target(t)
            }
            Kind::Own => Any::Own(Own { value: RefCell::new(m.present.then(v)), held: Cell::new(0) }),
        }
    }
    /// What the value alone reads; whether it is intact, and held by nobody.
    fn look(&self) -> (Option<u32>, bool) {
        let mut whole = true;
        if let Any::Own(o) = self {
            whole = o.held.get() == 0;
        }
        let v = self.with(|v| {
            whole &= v.intact();
            v.n
        });
        (v, whole)
    }
    /// Whether somebody holds it.
    fn held(&self) -> bool {
        match self {
            Any::Own(o) => o.held.get() > 0,
            _ => true,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Step {
    Shared,
    Mut,
    SharedPanic,
    MutPanic,
    /// A change of the member alone.
    Alone(usize),
    /// The member alone, panicking while being read.
    AlonePanic(usize),
    /// A joint shared access within the other.
    Nested,
}

struct Did {
    calls: u32,
    args: Vec<u32>,
    held: bool,
    intact: bool,
    ret: Result<Option<u32>, u32>,
}

fn caught(f: impl FnOnce() -> Option<u32>) -> Result<Option<u32>, u32> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => match p.downcast_ref::<Injected>() {
            Some(i) => Err(i.0),
            None => resume_unwind(p),
        },
    }
}

macro_rules! joint {
    ($name:ident; $($k:tt $a:ident),*) => {
        fn $name(ms: &[Member], len: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
            let n = ms.len();
            let g = ($(Any::<$k>::new(ms[$k]),)*);
            // What each value alone reads.
            let mut now: Vec<Option<u32>> = vec![];
            for (k, (v, whole)) in [$(g.$k.look()),*].into_iter().enumerate() {
                if v != ms[k].present.then_some(10 + k as u32) || !whole {
                    return Err(format!("{ms:?}: at first member {k} reads {v:?}"));
                }
                now.push(v);
            }
            let mut done = vec![];
            for i in 0..len {
                let c = ch.pick(5 + 2 * n);
                let step = match c {
                    0 => Step::Shared,
                    1 => Step::Mut,
                    2 => Step::SharedPanic,
                    3 => Step::MutPanic,
                    4 => Step::Nested,
                    c if c < 5 + n => Step::Alone(c - 5),
                    c => Step::AlonePanic(c - 5 - n),
                };
                ch.step();
                done.push(step);
                let all = now.iter().all(|v| v.is_some());
                let mut did = Did { calls: 0, args: vec![], held: true, intact: true, ret: Ok(None) };
                let Did { calls, args, held, intact, .. } = &mut did;
                let ret = match step {
                    Step::Shared | Step::SharedPanic => caught(|| g.with(|($($a,)*)| {
                        *calls += 1;
                        $(args.push($a.n); *intact &= $a.intact(); *held &= g.$k.held();)*
                        if step == Step::SharedPanic { inject(7) }
                        77
                    })),
                    Step::Nested => caught(|| g.with(|($($a,)*)| {
                        *calls += 1;
                        $(args.push($a.n); *intact &= $a.intact(); *held &= g.$k.held();)*
                        let inner = g.with(|($($a,)*)| [$($a.n),*].to_vec());
                        *intact &= inner.as_ref() == Some(args);
                        77
                    })),
                    Step::Mut | Step::MutPanic => caught(|| g.with_mut(|($($a,)*)| {
                        *calls += 1;
                        $(args.push($a.n); *intact &= $a.intact(); *held &= g.$k.held(); *$a = Val::new($a.n + 50);)*
                        if step == Step::MutPanic { inject(7) }
                        77
                    })),
                    Step::Alone(m) => {
                        let mut r = None;
                        $(if m == $k { r = g.$k.with_mut(|v| { *v = Val::new(v.n + 200); 77 }); })*
                        Ok(r)
                    }
                    Step::AlonePanic(m) => caught(|| {
                        let mut r = None;
                        $(if m == $k { r = g.$k.with(|_| -> u32 { inject(7) }); })*
                        r
                    }),
                };
                did.ret = ret;
                let what = || format!("{ms:?}, after {done:?}");
                // What it must have done.
                let panics = matches!(step, Step::SharedPanic | Step::MutPanic | Step::AlonePanic(_));
                let runs = match step {
                    Step::Alone(m) | Step::AlonePanic(m) => now[m].is_some(),
                    _ => all,
                };
                let want = if !runs { Ok(None) } else if panics { Err(7) } else { Ok(Some(77)) };
                if did.ret != want {
                    return Err(format!("{}: result {:?}, expected {want:?}", what(), did.ret));
                }
                if !matches!(step, Step::Alone(_) | Step::AlonePanic(_)) {
                    let args: Vec<u32> = if all { now.iter().map(|v| v.unwrap()).collect() } else { vec![] };
                    if did.calls != all as u32 || did.args != args || !did.held || !did.intact {
                        return Err(format!(
                            "{}: the function ran {} times with {:?}, expected {args:?}; every value held meanwhile: {}, intact: {}",
                            what(), did.calls, did.args, did.held, did.intact
                        ));
                    }
                }
                let before = now.clone();
                if runs {
                    match step {
                        Step::Mut | Step::MutPanic => now.iter_mut().for_each(|v| *v = v.map(|v| v + 50)),
                        Step::Alone(m) => now[m] = now[m].map(|v| v + 200),
                        _ => {}
                    }
                }
                // What is left of it. After a panic while it was mutable a value may be unusable.
                for (k, (v, whole)) in [$(g.$k.look()),*].into_iter().enumerate() {
                    let doubt = step == Step::MutPanic && runs;
                    if (v != now[k] && !(doubt && v.is_none())) || (!whole) {
                        return Err(format!("{}: member {k} reads {v:?} (before: {:?}), expected {:?}; whole and free: {whole}", what(), before[k], now[k]));
                    }
                    now[k] = v;
                }
                // All are free, or these accesses would wait for ever.
                let free = [$(g.$k.with_mut(|v| v.n)),*];
                if free[..] != now[..] {
                    return Err(format!("{}: mutable accesses to each alone yield {free:?}, expected {now:?}", what()));
                }
                st.state(&(ms, i, step, &now));
            }
            ch.log(|| format!("{ms:?}: {done:?} leaves {now:?}"));
            st.outcome(&now);
            Ok(())
        }
    };
}
joint!(j2; 0 a, 1 b);
joint!(j3; 0 a, 1 b, 2 c);
joint!(j4; 0 a, 1 b, 2 c, 3 d);
joint!(j5; 0 a, 1 b, 2 c, 3 d, 4 e);
joint!(j6; 0 a, 1 b, 2 c, 3 d, 4 e, 5 f);

pub fn c11(t: Tier) -> Suites {
    let lens = t.pick([0, 0, 4, 3, 2, 2, 1], [0, 0, 5, 4, 3, 3, 2]);
    vec![suite(
        "mixed-groups",
        format!(
            "every group of 2 to 6 out of resources, targets and values of the user's own, each present or absent; every sequence of {} accesses (2 values) to {} (6 values): joint ones shared, mutable, panicking, nested in each other, and such to single values; everything read and written alone after each",
            lens[2], lens[6]
        ),
        (2..=6usize).flat_map(|n| (0..6usize.pow(2)).map(move |x| (n, x))).collect(),
        move |(n, x), ch, st| {
            let mut ms = vec![MEMBERS[x % 6], MEMBERS[x / 6]];
            while ms.len() < *n {
                ms.push(*ch.of(&MEMBERS));
            }
            let len = lens[*n];
            match n {
                2 => j2(&ms, len, ch, st),
                3 => j3(&ms, len, ch, st),
                4 => j4(&ms, len, ch, st),
                5 => j5(&ms, len, ch, st),
                _ => j6(&ms, len, ch, st),
            }
        },
    )]
}
