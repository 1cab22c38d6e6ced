//! C10, C11: resources and joint access.
use crate::real::N;
use engine::{inject, suite, Ch, Injected, Stats, Suite, Tier, Verdict};
use plotline::deref::{With, WithMut};
use plotline::graph::Graph;
use plotline::schema::plugin::Plugin;
use plotline::schema::resource::{Res, ResourceSet};
use plotline::schema::transaction::{Context, Ctx, Target, Transaction};
use plotline::schema::trigger::Trigger;
use plotline::schema::{Error, Schema};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

type Suites = Vec<Box<dyn Suite>>;
type Node = N<u8>;
type Sch = Schema<Node>;

/// A type of resources holding a number.
trait R: Sized + 'static {
    fn mk(v: u32) -> Self;
    fn get(&self) -> u32;
    fn put(&mut self, v: u32) {
        *self = Self::mk(v)
    }
    /// What remains of a number stored in it.
    fn keep(v: u32) -> u32 {
        Self::mk(v).get()
    }
}
impl R for u32 {
    fn mk(v: u32) -> Self {
        v
    }
    fn get(&self) -> u32 {
        *self
    }
}
/// Shaped like the number itself.
struct Same(u32);
impl R for Same {
    fn mk(v: u32) -> Self {
        Same(v)
    }
    fn get(&self) -> u32 {
        self.0
    }
}
/// Without any size.
struct Unit;
impl R for Unit {
    fn mk(_: u32) -> Self {
        Unit
    }
    fn get(&self) -> u32 {
        1
    }
}
struct Unit2;
impl R for Unit2 {
    fn mk(_: u32) -> Self {
        Unit2
    }
    fn get(&self) -> u32 {
        2
    }
}
impl R for String {
    fn mk(v: u32) -> Self {
        v.to_string()
    }
    fn get(&self) -> u32 {
        self.parse().expect("harness: resource")
    }
}
struct Gen<T>(u32, std::marker::PhantomData<T>);
impl<T: 'static> R for Gen<T> {
    fn mk(v: u32) -> Self {
        Gen(v, Default::default())
    }
    fn get(&self) -> u32 {
        self.0
    }
}
/// A resource that looks like the library's own storage.
impl R for Box<dyn Any> {
    fn mk(v: u32) -> Self {
        Box::new(v)
    }
    fn get(&self) -> u32 {
        *self.downcast_ref::<u32>().expect("harness: resource")
    }
}

/// Types that only the compiler tells apart: their names are the same, paths included.
trait Hidden {
    type T: R;
}
struct H<const K: usize>;
macro_rules! twin {
    ($k:literal, $t:ty, $get:expr, $mk:expr) => {
        const _: () = {
            struct Twin($t);
            impl R for Twin {
                fn mk(v: u32) -> Self {
                    #[allow(clippy::redundant_closure_call)]
                    Twin(($mk)(v))
                }
                fn get(&self) -> u32 {
                    #[allow(clippy::redundant_closure_call)]
                    ($get)(&self.0)
                }
            }
            impl Hidden for H<$k> {
                type T = Twin;
            }
        };
    };
}
twin!(0, u32, |v: &u32| *v, |v| v);
twin!(1, u32, |v: &u32| *v, |v| v);
twin!(2, (), |_: &()| 4, |_| ());
twin!(3, (), |_: &()| 5, |_| ());

/// Calls something generic with the k-th type of resources.
macro_rules! by_type {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k {
            0 => $f::<u32>($($a),*),
            1 => $f::<Same>($($a),*),
            2 => $f::<Unit>($($a),*),
            3 => $f::<String>($($a),*),
            4 => $f::<Gen<u8>>($($a),*),
            5 => $f::<Gen<u16>>($($a),*),
            6 => $f::<Unit2>($($a),*),
            7 => $f::<Box<dyn Any>>($($a),*),
            8 => $f::<<H<0> as Hidden>::T>($($a),*),
            9 => $f::<<H<1> as Hidden>::T>($($a),*),
            10 => $f::<<H<2> as Hidden>::T>($($a),*),
            _ => $f::<<H<3> as Hidden>::T>($($a),*),
        }
    };
}
const TYPES: usize = 12;

struct Install<T>(T);
impl<T: R> Plugin<Node> for Install<T> {
    fn install(self, schema: Sch) -> Sch {
        schema.with_resource(self.0)
    }
}

fn add<T: R>(s: Sch, v: u32, plugin: bool) -> Sch {
    if plugin {
        s.install(Install(T::mk(v)))
    } else {
        s.with_resource(T::mk(v))
    }
}
fn keep<T: R>(v: u32) -> u32 {
    T::keep(v)
}

struct Ev;
struct EvW;
thread_local! {
    static SEEN: RefCell<Vec<Option<u32>>> = const { RefCell::new(vec![]) };
    static TO_WRITE: Cell<Option<u32>> = const { Cell::new(None) };
}

/// A trigger that reads, and maybe writes, its resource.
fn with_trigger<T: R>(s: Sch) -> Sch {
    s.with_trigger(Ev, |_: Ctx<Node>, r: Res<T>| {
        SEEN.with(|s| s.borrow_mut().push(r.with(|x| x.get())));
        if let Some(v) = TO_WRITE.with(|w| w.get()) {
            r.with_mut(|x| x.put(v));
        }
        Ok(())
    })
}
/// A handle, kept by its type's number.
struct Kept {
    read: Box<dyn Fn() -> Option<u32>>,
    write: Box<dyn Fn(u32) -> Option<()>>,
    exists: Box<dyn Fn() -> bool>,
    /// Whether it ran.
    during_read: Box<dyn Fn(&dyn Fn()) -> bool>,
    during_write: Box<dyn Fn(&dyn Fn()) -> bool>,
}
fn kept<T: R>(set: &ResourceSet) -> Kept {
    let r = std::rc::Rc::new(Res::<T>::from(set));
    let (a, b, c, d) = (r.clone(), r.clone(), r.clone(), r.clone());
    Kept {
        read: Box::new(move || a.with(|x| x.get())),
        write: Box::new(move |v| b.with_mut(|x| x.put(v))),
        exists: Box::new(move || r.exists()),
        during_read: Box::new(move |f| c.with(|_| f()).is_some()),
        during_write: Box::new(move |f| d.with_mut(|_| f()).is_some()),
    }
}
fn from_context<T: R>(c: &Context<'_, Node>) -> Option<u32> {
    Res::<T>::from(c).with(|x| x.get())
}

/// Reads everything, in several ways.
fn observe(s: &Sch, early: &[Kept], what: &[usize]) -> Vec<(usize, Option<u32>)> {
    let mut v = vec![];
    for (i, k) in what.iter().enumerate() {
        let h = by_type!(*k, kept(s.resources()));
        v.push((*k, (h.read)()));
        v.push((*k, (h.exists)().then(|| (early[i].read)().unwrap_or(u32::MAX))));
        v.push((*k, (early[i].exists)().then(|| (h.read)().unwrap_or(u32::MAX))));
        let _ = s.transaction().with(|ctx| {
            v.push((*k, by_type!(*k, from_context(&ctx))));
            ctx.transaction().with(|c| {
                v.push((*k, by_type!(*k, from_context(&c))));
                Ok(())
            })
        });
    }
    v
}

/// Types used by a history: a window of three.
fn window(root: usize) -> [usize; 3] {
    [[0, 1, 3], [2, 6, 4], [4, 5, 0], [7, 0, 2], [3, 5, 7], [8, 9, 1], [11, 10, 2]][root]
}
const WINDOWS: usize = 7;

/// What is known of the value of a type.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Known {
    Absent,
    Is(u32),
    /// A mutable access panicked: this value, or unusable.
    Maybe(u32),
}

/// Registrations between accesses, also accesses that panic and registrations during accesses.
fn c10_evolving(root: usize, len: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    use Known::*;
    let what = window(root);
    let mut m = [Absent; 3];
    let mut s: Sch = Graph::from_iter([Node::new(0, 10)]).into();
    // Triggers exist before anything is registered.
    for t in what {
        s = by_type!(t, with_trigger(s));
    }
    // Handles to the values registered at present.
    let mut held: Vec<(usize, Kept)> = vec![];
    let mut script: Vec<String> = vec![];
    for k in 0..len {
        let i = ch.pick(3);
        let t = what[i];
        let v = 100 + k as u32;
        let stored = by_type!(t, keep(v));
        let h = by_type!(t, kept(s.resources()));
        let here = m[i] != Absent;
        let mut ran = None;
        match ch.pick(8) {
            0 => {
                script.push(format!("register(type{t}={v})"));
                s = by_type!(t, add(s, v, k % 2 == 1));
                m[i] = Is(stored);
                held.retain(|x| x.0 != i);
            }
            how @ (1 | 2) => {
                // While the old value is being read or written.
                script.push(format!("register-while-{}(type{t}={v})", if how == 1 { "reading" } else { "writing" }));
                let slot = Cell::new(Some(s));
                let f = || {
                    let old = slot.take().expect("harness: schema");
                    slot.set(Some(by_type!(t, add(old, v, false))));
                };
                let done = if how == 1 { (h.during_read)(&f) } else { (h.during_write)(&f) };
                s = slot.into_inner().expect("harness: schema");
                if done {
                    m[i] = Is(stored);
                    held.retain(|x| x.0 != i);
                }
                ran = Some(done);
            }
            3 => {
                script.push(format!("write(type{t}={v})"));
                ran = Some((h.write)(v).is_some());
                if ran == Some(true) {
                    m[i] = Is(stored);
                }
            }
            how @ (4 | 5) => {
                script.push(format!("{}(type{t}={v}) panics", if how == 4 { "read" } else { "write" }));
                let entered = Cell::new(false);
                let f = || {
                    entered.set(true);
                    inject(1);
                };
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if how == 4 {
                        (h.during_read)(&f)
                    } else {
                        (h.during_write)(&f)
                    }
                }));
                if r.is_err() != entered.get() {
                    return Err(format!("{}: the panic got lost", script.join(" ")));
                }
                ran = Some(entered.get());
                if how == 5 {
                    if let Is(v) = m[i] {
                        m[i] = Maybe(v);
                    }
                }
            }
            6 => {
                script.push(format!("keep-handle(type{t})"));
                if here {
                    held.push((i, h));
                } else if (h.exists)() {
                    return Err(format!("{}: it exists", script.join(" ")));
                }
            }
            _ => {
                script.push(format!("write-in-failing-tx(type{t}={v})"));
                let _ = s.transaction().with(|ctx| -> Result<(), Error> {
                    ctx.save(Node::new(0, v));
                    ran = Some((by_type!(t, kept(ctx.resources())).write)(v).is_some());
                    Err(Error::Noop)
                });
                if ran == Some(true) {
                    m[i] = Is(stored);
                }
            }
        }
        match (m[i], ran) {
            (Absent, Some(true)) => return Err(format!("{}: the access ran", script.join(" "))),
            (Is(_), Some(false)) => return Err(format!("{}: the access did not run", script.join(" "))),
            _ => {}
        }
        ch.step();
        st.state(&m);
        let agrees = |i: usize, got: Option<u32>| match m[i] {
            Absent => got.is_none(),
            Is(v) => got == Some(v),
            Maybe(v) => got.is_none() || got == Some(v),
        };
        let bad = |i: usize, via: &str, got: Option<u32>| Err(format!("{}: resource of type {} read through {via} is {got:?}, expected {:?}", script.join(" "), what[i], m[i]));
        let mut alone = [None; 3];
        for i in 0..3 {
            let h = by_type!(what[i], kept(s.resources()));
            alone[i] = (h.read)();
            if !agrees(i, alone[i]) {
                return bad(i, "a new handle", alone[i]);
            }
            if (h.exists)() != alone[i].is_some() {
                return Err(format!("{}: existence of type {} disagrees with reading it", script.join(" "), what[i]));
            }
        }
        for (i, h) in &held {
            let got = (h.read)();
            if got != alone[*i] {
                return bad(*i, "a kept handle", got);
            }
        }
        SEEN.with(|s| s.borrow_mut().clear());
        let _ = s.transaction().with(|ctx| s.triggers().select(Ev).execute(&ctx));
        let got = SEEN.with(|s| s.borrow().clone());
        for i in 0..3 {
            if got.get(i) != Some(&alone[i]) {
                return bad(i, "a trigger's parameter", got.get(i).copied().flatten());
            }
        }
    }
    ch.log(|| script.join(" "));
    st.outcome(&m);
    Ok(())
}

fn c10_history(root: usize, nreg: usize, nops: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let what = window(root);
    let mut m: [Option<u32>; TYPES] = [None; TYPES];
    let mut s: Sch = Graph::from_iter([Node::new(0, 10)]).into();
    let other: Sch = Graph::default().into();
    let mut script = vec![];
    for k in 0..nreg {
        let c = ch.pick(4);
        if c == 3 {
            continue;
        }
        let t = what[c];
        let v = 10 + k as u32;
        script.push(format!("register(type{t}={v})"));
        s = by_type!(t, add(s, v, k % 2 == 1));
        m[t] = Some(by_type!(t, keep(v)));
    }
    for t in what {
        s = by_type!(t, with_trigger(s));
    }
    let early: Vec<Kept> = what.iter().map(|t| by_type!(*t, kept(s.resources()))).collect();
    let check = |m: &[Option<u32>; TYPES], script: &[String], s: &Sch| -> Verdict {
        for (t, got) in observe(s, &early, &what) {
            if got != m[t] {
                return Err(format!("{}: resource of type {t} reads {got:?}, expected {:?}", script.join(" "), m[t]));
            }
        }
        for t in what {
            let h = by_type!(t, kept(other.resources()));
            if (h.read)().is_some() || (h.exists)() {
                return Err(format!("{}: another schema has a resource of type {t}", script.join(" ")));
            }
        }
        Ok(())
    };
    check(&m, &script, &s)?;
    for k in 0..nops {
        let v = 100 + k as u32;
        let i = ch.pick(3);
        let t = what[i];
        let expect = m[t].is_some().then_some(());
        let mut did = None;
        match ch.pick(6) {
            0 => {
                script.push(format!("write(type{t}={v})"));
                did = (by_type!(t, kept(s.resources())).write)(v);
            }
            1 => {
                script.push(format!("write-early-handle(type{t}={v})"));
                did = (early[i].write)(v);
            }
            how @ (2 | 3) => {
                // inside a transaction that succeeds or fails
                script.push(format!("write-in-tx(type{t}={v}, {})", if how == 2 { "success" } else { "failure" }));
                let _ = s.transaction().with(|ctx| {
                    ctx.save(Node::new(0, v));
                    did = (by_type!(t, kept(ctx.resources())).write)(v);
                    if how == 2 {
                        Ok(())
                    } else {
                        Err(Error::Noop)
                    }
                });
            }
            _ => {
                script.push(format!("triggers(all={v})"));
                SEEN.with(|s| s.borrow_mut().clear());
                TO_WRITE.with(|w| w.set(Some(v)));
                let _ = s.transaction().with(|ctx| s.triggers().select(Ev).execute(&ctx));
                TO_WRITE.with(|w| w.set(None));
                let got = SEEN.with(|s| s.borrow().clone());
                let want: Vec<Option<u32>> = what.iter().map(|t| m[*t]).collect();
                if got != want {
                    return Err(format!("{}: triggers see {got:?}, expected {want:?}", script.join(" ")));
                }
                for t in what {
                    if m[t].is_some() {
                        m[t] = Some(by_type!(t, keep(v)));
                    }
                }
                did = expect;
            }
        }
        if did != expect {
            return Err(format!("{}: the access ran: {}, expected {}", script.join(" "), did.is_some(), expect.is_some()));
        }
        if m[t].is_some() {
            m[t] = Some(by_type!(t, keep(v)));
        }
        ch.step();
        st.state(&m);
        check(&m, &script, &s)?;
    }
    ch.log(|| script.join(" "));
    st.outcome(&m);
    Ok(())
}

/// Accesses within accesses of other types.
fn c10_nested(order: &[usize], present: &[bool], muts: &[bool], ch: &mut Ch, st: &mut Stats) -> Verdict {
    let mut s: Sch = Graph::default().into();
    for (k, t) in order.iter().enumerate() {
        if present[k] {
            s = by_type!(*t, add(s, 10 + k as u32, false));
        }
    }
    fn go<T: R>(s: &Sch, order: &[usize], present: &[bool], muts: &[bool], k: usize) -> Result<u32, String> {
        let r = Res::<T>::from(s.resources());
        let want = present[k].then(|| T::keep(10 + k as u32));
        let inner = || {
            if k + 1 < order.len() {
                by_type!(order[k + 1], go(s, order, present, muts, k + 1))
            } else {
                Ok(0)
            }
        };
        let mut n = Ok(0);
        let got = if muts[k] {
            r.with_mut(|x| {
                n = inner();
                let v = x.get();
                x.put(90 + k as u32);
                v
            })
        } else {
            r.with(|x| {
                n = inner();
                // reading once more while reading
                if r.with(|y| y.get()) != Some(x.get()) {
                    return u32::MAX;
                }
                x.get()
            })
        };
        if got != want {
            return Err(format!("nested access {k} yields {got:?}, expected {want:?}"));
        }
        if muts[k] && present[k] && r.with(|x| x.get()) != Some(T::keep(90 + k as u32)) {
            return Err(format!("the value written by nested access {k} is lost"));
        }
        n.map(|n| n + 1)
    }
    ch.steps(order.len() as u64);
    ch.log(|| format!("types {order:?} registered {present:?} mutable {muts:?}"));
    let n = by_type!(order[0], go(&s, order, present, muts, 0)).map_err(|e| format!("types {order:?} registered {present:?} mutable {muts:?}: {e}"))?;
    st.state(&(order, present, muts));
    st.outcome(&n);
    Ok(())
}

/// Many registrations of one type between others.
struct Num<const K: usize>(u32);
fn c10_many(n: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let mut s: Sch = Graph::default().into();
    let pat = ch.pick(3);
    let mut m = [None; 6];
    for k in 0..n {
        let t = match pat {
            0 => k % 6,
            1 => (k * k) % 5,
            _ => (k / 4) % 6,
        };
        let v = k as u32;
        m[t] = Some(v);
        s = match t {
            0 => s.with_resource(Num::<0>(v)),
            1 => s.with_resource(Num::<1>(v)),
            2 => s.with_resource(Num::<2>(v)),
            3 => s.with_resource(Num::<3>(v)),
            4 => s.with_resource(Num::<4>(v)),
            _ => s.with_resource(Num::<5>(v)),
        };
        ch.step();
    }
    let set = s.resources();
    let got = [
        Res::<Num<0>>::from(set).with(|x| x.0),
        Res::<Num<1>>::from(set).with(|x| x.0),
        Res::<Num<2>>::from(set).with(|x| x.0),
        Res::<Num<3>>::from(set).with(|x| x.0),
        Res::<Num<4>>::from(set).with(|x| x.0),
        Res::<Num<5>>::from(set).with(|x| x.0),
    ];
    st.state(&(n, pat));
    st.outcome(&got);
    if got != m {
        return Err(format!("after {n} registrations (pattern {pat}) the resources are {got:?}, expected {m:?}"));
    }
    Ok(())
}

pub fn c10(t: Tier) -> Suites {
    let (nreg, nops) = t.pick((3, 3), (3, 4));
    let len = t.pick(4, 5);
    vec![
        suite(
            "histories",
            format!("every sequence of up to {nreg} registrations (directly or by a plugin) and {nops} accesses over {WINDOWS} selections of 3 of {TYPES} resource types (equal in shape, without size, generic instances, boxed values, equal in name): writes through fresh and early handles, in succeeding and failing transactions, by triggers; all types read through handles of every origin after every step"),
            (0..WINDOWS).collect(),
            move |root, ch, st| c10_history(*root, nreg, nops, ch, st),
        ),
        suite(
            "registering-between-accesses",
            format!("every sequence of {len} steps over {WINDOWS} selections of 3 of {TYPES} resource types: registrations (also while the old value is read or written), writes (also in a failing transaction), reads and writes that panic, handles kept; after every step all types read through new and kept handles and by triggers scheduled at the beginning"),
            (0..WINDOWS).collect(),
            move |root, ch, st| c10_evolving(*root, len, ch, st),
        ),
        suite(
            "nested-access",
            format!("accesses to 3 of {TYPES} types nested in each other, every order, each registered or not, each mutable or not, reads repeated while reading"),
            (0..TYPES).collect(),
            move |root: &usize, ch, st| {
                let mut left: Vec<usize> = (0..TYPES).filter(|t| t != root).collect();
                let mut order = vec![*root];
                for _ in 0..2 {
                    order.push(left.remove(ch.pick(left.len())));
                }
                let present: Vec<bool> = (0..3).map(|_| ch.flag()).collect();
                let muts: Vec<bool> = (0..3).map(|_| ch.flag()).collect();
                c10_nested(&order, &present, &muts, ch, st)
            },
        ),
        suite(
            "many-registrations",
            "n registrations over 6 types for every n up to 100, 3 orders",
            (0..=100usize).collect(),
            move |n, ch, st| c10_many(*n, ch, st),
        ),
    ]
}

// ------------------------------------------------------------------------------------------------

/// The k-th value of a group.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum State {
    Present,
    Absent,
    Unusable,
}
const STATES: [State; 3] = [State::Present, State::Absent, State::Unusable];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
struct Val<const K: usize>(u32);

fn make_unusable(f: impl FnOnce()) {
    let _ = catch_unwind(AssertUnwindSafe(f));
}

/// The value of a single one: `None` if absent or unusable.
fn peek<const K: usize, X>(x: &X) -> Option<u32>
where
    X: for<'a> With<Target<'a> = &'a Val<K>>,
{
    x.with(|v: &Val<K>| v.0)
}

/// The k-th member of a group of resources.
fn res<const K: usize>(s: State) -> Res<Val<K>> {
    let set = match s {
        State::Absent => ResourceSet::default(),
        _ => ResourceSet::default().with_resource(Val::<K>(10 + K as u32)),
    };
    let r = Res::<Val<K>>::from(&set);
    if s == State::Unusable {
        make_unusable(|| {
            r.with_mut(|_| inject(1));
        });
    }
    r
}
fn target<const K: usize>(s: State) -> Target<Val<K>> {
    let mut t = Target::default();
    if s != State::Absent {
        t.set(Val::<K>(10 + K as u32));
    }
    if s == State::Unusable {
        make_unusable(|| {
            t.with_mut(|_| inject(1));
        });
    }
    t
}

/// What a joint access did: how often the function ran, with which values, what it returned.
#[derive(Debug, PartialEq)]
struct Did {
    calls: u32,
    args: Vec<u32>,
    ret: Result<Option<u32>, u32>,
    after: Vec<Option<u32>>,
    writable: Vec<bool>,
}

macro_rules! group {
    ($name:ident; $($k:tt $a:ident $b:ident),*) => {
        /// `kinds`: bit k set for a target instead of a resource. `mutable`: joint mutable access.
        fn $name(states: &[State], kind: usize, mutable: bool, panics: bool) -> (Vec<bool>, Did) {
            macro_rules! go {
                ($mk:ident) => {{
                    let g = ($($mk::<$k>(states[$k]),)*);
                    let usable = vec![$(peek::<$k, _>(&g.$k).is_some()),*];
                    let mut calls = 0;
                    let mut args = vec![];
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        if mutable {
                            g.with_mut(|($($a,)*)| {
                                calls += 1;
                                $(args.push($a.0); $a.0 += 50;)*
                                if panics { inject(7) }
                                77u32
                            })
                        } else {
                            g.with(|($($a,)*)| {
                                calls += 1;
                                $(args.push($a.0);)*
                                if panics { inject(7) }
                                77u32
                            })
                        }
                    }));
                    let ret = match r {
                        Ok(v) => Ok(v),
                        Err(p) => match p.downcast_ref::<Injected>() { Some(i) => Err(i.0), None => resume_unwind(p) },
                    };
                    // Each must be free: these accesses would wait for ever otherwise.
                    let after = vec![$(peek::<$k, _>(&g.$k)),*];
                    let writable = vec![$(g.$k.with_mut(|$b: &mut Val<$k>| $b.0 += 0).is_some()),*];
                    (usable, Did { calls, args, ret, after, writable })
                }};
            }
            if kind == 0 { go!(res) } else { go!(target) }
        }
    };
}
group!(g2; 0 a x, 1 b y);
group!(g3; 0 a x, 1 b y, 2 c z);
group!(g4; 0 a x, 1 b y, 2 c z, 3 d u);
group!(g5; 0 a x, 1 b y, 2 c z, 3 d u, 4 e v);
group!(g6; 0 a x, 1 b y, 2 c z, 3 d u, 4 e v, 5 f w);

fn c11_one(states: &[State], kind: usize, mutable: bool, panics: bool, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let n = states.len();
    let what = format!("joint {} access to {} {states:?}, {}", if mutable { "mutable" } else { "shared" }, ["resources", "targets"][kind], if panics { "panicking" } else { "returning" });
    ch.log(|| what.clone());
    ch.steps(n as u64);
    let (usable, did) = match n {
        2 => g2(states, kind, mutable, panics),
        3 => g3(states, kind, mutable, panics),
        4 => g4(states, kind, mutable, panics),
        5 => g5(states, kind, mutable, panics),
        _ => g6(states, kind, mutable, panics),
    };
    for (k, s) in states.iter().enumerate() {
        // What is unusable is decided by looking at it alone.
        if *s != State::Unusable && usable[k] != (*s == State::Present) {
            return Err(format!("{what}: member {k} alone is usable: {}", usable[k]));
        }
    }
    let all = usable.iter().all(|u| *u);
    let vals: Vec<u32> = (0..n).map(|k| 10 + k as u32).collect();
    if did.calls != all as u32 {
        return Err(format!("{what}: the function ran {} times", did.calls));
    }
    let ret = match (all, panics) {
        (false, _) => Ok(None),
        (true, false) => Ok(Some(77)),
        (true, true) => Err(7),
    };
    if did.ret != ret {
        return Err(format!("{what}: result {:?}, expected {ret:?}", did.ret));
    }
    if all && did.args != vals {
        return Err(format!("{what}: the function got {:?}, expected {vals:?}", did.args));
    }
    for k in 0..n {
        let free_of_doubt = !(all && panics && mutable);
        let want = usable[k].then(|| vals[k] + if all && mutable { 50 } else { 0 });
        if free_of_doubt && (did.after[k] != want || did.writable[k] != usable[k]) {
            return Err(format!("{what}: afterwards member {k} reads {:?} and is writable: {}; expected {want:?}", did.after[k], did.writable[k]));
        }
        // After a panic in a mutable access a value may be unusable, but never half changed back.
        if !free_of_doubt && did.after[k].is_some_and(|v| v != vals[k] + 50) {
            return Err(format!("{what}: afterwards member {k} reads {:?}", did.after[k]));
        }
    }
    st.state(&(states, kind, mutable, panics));
    st.outcome(&(did.calls, &did.after));
    Ok(())
}

/// Joint access inside triggers and to the same value through several handles.
fn c11_shared(ch: &mut Ch, st: &mut Stats) -> Verdict {
    let set = ResourceSet::default().with_resource(Val::<0>(10)).with_resource(Val::<1>(11));
    let a = || Res::<Val<0>>::from(&set);
    let b = || Res::<Val<1>>::from(&set);
    let n = 1 + ch.pick(3);
    let mut want = 10;
    for k in 0..n {
        ch.step();
        match ch.pick(4) {
            0 => {
                let got = (a(), a()).with(|(x, y)| (x.0, y.0));
                if got != Some((want, want)) {
                    return Err(format!("step {k}: joint shared access to one value twice yields {got:?}"));
                }
            }
            1 => {
                let got = (a(), b(), a()).with(|(x, y, z)| (x.0, y.0, z.0));
                if got != Some((want, 11, want)) {
                    return Err(format!("step {k}: joint shared access yields {got:?}"));
                }
            }
            2 => {
                (a(), b()).with_mut(|(x, y)| x.0 += y.0);
                want += 11;
            }
            _ => {
                (b(), a()).with_mut(|(y, x)| x.0 += 2 * y.0);
                want += 22;
            }
        }
        if a().with(|x| x.0) != Some(want) {
            return Err(format!("step {k}: the value is {:?}, expected {want}", a().with(|x| x.0)));
        }
    }
    st.state(&want);
    st.outcome(&want);
    Ok(())
}

/// Triggers with a target and a resource, accessed jointly.
fn c11_trigger(ch: &mut Ch, st: &mut Stats) -> Verdict {
    let registered = ch.flag();
    let targeted = ch.flag();
    let mutable = ch.flag();
    let panics = ch.flag();
    ch.step();
    thread_local! { static RAN: Cell<u32> = const { Cell::new(0) } }
    RAN.with(|r| r.set(0));
    let mut s: Sch = Graph::default().into();
    if registered {
        s = s.with_resource(Val::<0>(10));
    }
    s = s.with_trigger(EvW, move |_: Ctx<Node>, t: Target<Node>, r: Res<Val<0>>| {
        let g = (r, t);
        let got = if mutable {
            g.with_mut(|(r, t)| {
                RAN.with(|x| x.set(x.get() + 1));
                r.0 += t.val;
                t.val += 1;
                if panics {
                    inject(3)
                }
            })
        } else {
            g.with(|(_, _)| {
                RAN.with(|x| x.set(x.get() + 1));
                if panics {
                    inject(3)
                }
            })
        };
        got.ok_or(Error::custom("absent"))
    });
    let mut inside = None;
    let r = catch_unwind(AssertUnwindSafe(|| {
        s.transaction().with(|ctx| {
            let ctx = if targeted { ctx.with_target(Node::new(1, 5)) } else { ctx };
            let r = s.triggers().select(EvW).execute(&ctx);
            inside = ctx.target().with(|t| t.val);
            r
        })
    }));
    let all = registered && targeted;
    let what = format!("trigger with resource (registered: {registered}) and target (set: {targeted}), mutable: {mutable}, panics: {panics}");
    if RAN.with(|r| r.get()) != all as u32 {
        return Err(format!("{what}: ran {} times", RAN.with(|r| r.get())));
    }
    match (&r, all && panics) {
        (Err(_), true) => {}
        (Ok(Ok(())), false) if all => {}
        (Ok(Err(_)), false) if !all => {}
        _ => return Err(format!("{what}: unexpected outcome")),
    }
    if !panics {
        let want = registered.then_some(if all && mutable { 15 } else { 10 });
        let got = Res::<Val<0>>::from(s.resources()).with(|x| x.0);
        let want_t = targeted.then_some(if all && mutable { 6 } else { 5 });
        if got != want || inside != want_t {
            return Err(format!("{what}: resource {got:?} target {inside:?}, expected {want:?} {want_t:?}"));
        }
    }
    st.state(&(registered, targeted, mutable, panics));
    st.outcome(&inside);
    Ok(())
}

pub fn c11(_: Tier) -> Suites {
    vec![
        suite(
            "all-groups",
            "every group of 2 to 6 resources, and of 2 to 6 targets, each present, absent or made unusable by an earlier panic; shared and mutable joint access; the function returns or panics",
            (2..=6usize).collect(),
            move |n, ch, st| {
                let states: Vec<State> = (0..*n).map(|_| *ch.of(&STATES)).collect();
                let (kind, mutable, panics) = (ch.pick(2), ch.flag(), ch.flag());
                c11_one(&states, kind, mutable, panics, ch, st)
            },
        ),
        suite("shared-values", "every sequence of up to 3 joint accesses through several handles of the same values, in both orders", vec![0u8], |_, ch, st| c11_shared(ch, st)),
        suite("in-triggers", "a trigger accessing a resource and its target jointly: each there or not, shared or mutable, returning or panicking", vec![0u8], |_, ch, st| c11_trigger(ch, st)),
    ]
}
