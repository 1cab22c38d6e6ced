//! C08: trigger dispatch.
use crate::real::N;
use engine::{suite, Ch, Suite, Tier, Verdict};
use plotline::deref::With;
use plotline::graph::Graph;
use plotline::id::Identify;
use plotline::schema::ops::save::{AfterSave, BeforeSave, Save};
use plotline::schema::plugin::Plugin;
use plotline::schema::transaction::{Context, Ctx, Transaction};
use plotline::schema::trigger::Trigger;
use plotline::schema::{Error, Schema};
use std::cell::{Cell, RefCell};

type Suites = Vec<Box<dyn Suite>>;
type Node = N<u8>;

// Events, among them instances of one generic type and a type carrying a value.
struct E0;
struct Gen<T>(std::marker::PhantomData<T>);
mod inner {
    pub struct E0;
}
const EVENTS: usize = 9;
/// Events that only the compiler tells apart: their names are the same, paths included.
trait Hidden {
    type T: Default + 'static;
}
struct H<const K: usize>;
macro_rules! twin {
    ($k:literal) => {
        const _: () = {
            #[derive(Default)]
            struct Twin;
            impl Hidden for H<$k> {
                type T = Twin;
            }
        };
    };
}
twin!(0);
twin!(1);
type Twin<const K: usize> = <H<K> as Hidden>::T;

thread_local! {
    static BUILT: Cell<u32> = const { Cell::new(0) };
    static FIRED: RefCell<Vec<(u32, Vec<(usize, u32, u32)>)>> = const { RefCell::new(vec![]) };
}

/// A parameter: its position's type, its serial number and the target it was built with.
struct P<const K: usize> {
    serial: u32,
    target: u32,
}
impl<const K: usize> From<&Context<'_, Node>> for P<K> {
    fn from(ctx: &Context<'_, Node>) -> Self {
        let serial = BUILT.with(|b| {
            b.set(b.get() + 1);
            b.get()
        });
        P { serial, target: ctx.target().with(|n| n.val).unwrap_or(0) }
    }
}

/// Success, an own error, the nothing-to-do error, or a failure from the k-th execution on.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Out {
    Ok,
    Err,
    Noop,
    SecondTime,
}

#[derive(Clone, Debug)]
struct Reg {
    ev: usize,
    arity: usize,
    out: Out,
}

fn outcome(no: u32, out: Out, times: &Cell<u32>) -> Result<(), Error> {
    times.set(times.get() + 1);
    match out {
        Out::Ok => Ok(()),
        Out::Err => Err(Error::custom(format!("e{no}"))),
        Out::Noop => Err(Error::Noop),
        Out::SecondTime if times.get() >= 2 => Err(Error::custom(format!("e{no}"))),
        Out::SecondTime => Ok(()),
    }
}

/// Registers trigger number `no` on an event.
fn register(s: Schema<Node>, no: u32, r: &Reg) -> Schema<Node> {
    match r.ev {
        0 => arity(s, E0, no, r),
        1 => arity(s, BeforeSave, no, r),
        2 => arity(s, Gen::<u8>(Default::default()), no, r),
        3 => arity(s, Gen::<u16>(Default::default()), no, r),
        4 => arity(s, inner::E0, no, r),
        5 => arity(s, AfterSave, no, r),
        6 => arity(s, (), no, r),
        7 => arity(s, Twin::<0>::default(), no, r),
        _ => arity(s, Twin::<1>::default(), no, r),
    }
}

macro_rules! trigger {
    ($s:expr, $ev:expr, $no:expr, $out:expr, $times:expr; $($k:literal $p:ident),*) => {
        $s.with_trigger($ev, move |_: Ctx<Node>, $($p: P<$k>),*| {
            #[allow(unused_mut)]
            let mut v = vec![];
            $(v.push(($k, $p.serial, $p.target));)*
            FIRED.with(|f| f.borrow_mut().push(($no, v)));
            outcome($no, $out, &$times)
        })
    };
}

fn arity<S: 'static>(s: Schema<Node>, ev: S, no: u32, r: &Reg) -> Schema<Node> {
    let out = r.out;
    let times = Cell::new(0);
    match r.arity {
        0 => trigger!(s, ev, no, out, times;),
        1 => trigger!(s, ev, no, out, times; 0 a),
        2 => trigger!(s, ev, no, out, times; 0 a, 1 b),
        3 => trigger!(s, ev, no, out, times; 0 a, 1 b, 2 c),
        4 => trigger!(s, ev, no, out, times; 0 a, 1 b, 2 c, 3 d),
        5 => trigger!(s, ev, no, out, times; 0 a, 1 b, 2 c, 3 d, 4 e),
        6 => trigger!(s, ev, no, out, times; 0 a, 1 b, 2 c, 3 d, 4 e, 5 f),
        7 => trigger!(s, ev, no, out, times; 0 a, 1 b, 2 c, 3 d, 4 e, 5 f, 6 g),
        _ => trigger!(s, ev, no, out, times; 0 a, 1 b, 2 c, 3 d, 4 e, 5 f, 6 g, 7 h),
    }
}

/// Registers some triggers, the rest through a plugin it installs itself.
struct Plug {
    regs: Vec<(u32, Reg)>,
    nested_from: usize,
}
impl Plugin<Node> for Plug {
    fn install(self, mut schema: Schema<Node>) -> Schema<Node>
    where
        Node: Identify,
    {
        let Plug { regs, nested_from } = self;
        let k = nested_from.min(regs.len());
        for (no, r) in &regs[..k] {
            schema = register(schema, *no, r);
        }
        if k < regs.len() {
            schema = schema.install(Plug { regs: regs[k..].to_vec(), nested_from: usize::MAX });
        }
        schema
    }
}

fn execute(schema: &Schema<Node>, ev: usize, ctx: &Context<'_, Node>) -> Result<(), Error> {
    let t = schema.triggers();
    match ev {
        0 => t.select(E0).execute(ctx),
        1 => t.select(BeforeSave).execute(ctx),
        2 => t.select(Gen::<u8>(Default::default())).execute(ctx),
        3 => t.select(Gen::<u16>(Default::default())).execute(ctx),
        4 => t.select(inner::E0).execute(ctx),
        5 => t.select(AfterSave).execute(ctx),
        6 => t.select(()).execute(ctx),
        7 => t.select(Twin::<0>::default()).execute(ctx),
        _ => t.select(Twin::<1>::default()).execute(ctx),
    }
}

fn describe(r: &Result<(), Error>) -> String {
    match r {
        Ok(()) => "success".into(),
        Err(Error::Noop) => "nothing to do".into(),
        Err(e) => format!("error {e}"),
    }
}

/// `how`: 0 directly, 1 by one plugin, 2 by a plugin installing a plugin, 3 alternating.
fn run(regs: &[Reg], how: usize, events: &[usize], ch: &mut Ch, st: &mut engine::Stats) -> Verdict {
    ch.log(|| format!("registered {regs:?} (way {how}); executed {events:?}"));
    FIRED.with(|f| f.borrow_mut().clear());
    let mut schema: Schema<Node> = Graph::from_iter([N::new(1, 11)]).into();
    let all: Vec<(u32, Reg)> = regs.iter().cloned().enumerate().map(|(i, r)| (i as u32, r)).collect();
    match how {
        0 => {
            for (no, r) in &all {
                schema = register(schema, *no, r);
            }
        }
        1 => schema = schema.install(Plug { regs: all.clone(), nested_from: usize::MAX }),
        2 => schema = schema.install(Plug { regs: all.clone(), nested_from: all.len() / 2 }),
        _ => {
            for (no, r) in &all {
                schema = if no % 2 == 0 {
                    schema.install(Plug { regs: vec![(*no, r.clone())], nested_from: usize::MAX })
                } else {
                    register(schema, *no, r)
                };
            }
        }
    }
    let mut times = vec![0; regs.len()];
    for (k, ev) in events.iter().enumerate() {
        // The model.
        let mut want = vec![];
        let mut want_res: Result<(), Error> = Ok(());
        for (i, r) in regs.iter().enumerate() {
            if r.ev != *ev {
                continue;
            }
            want.push(i as u32);
            let t = Cell::new(times[i]);
            let res = outcome(i as u32, r.out, &t);
            times[i] = t.get();
            if res.is_err() {
                want_res = res;
                break;
            }
        }
        st.state(&(k, *ev, &times));
        ch.steps(1 + want.len() as u64);
        // The code.
        FIRED.with(|f| f.borrow_mut().clear());
        let target = 70 + k as u32;
        let before = BUILT.with(|b| b.get());
        let mut res = Ok(());
        let _ = schema.transaction().with(|ctx| {
            let ctx = ctx.with_target(N::new(2, target));
            res = execute(&schema, *ev, &ctx);
            Ok(())
        });
        let fired = FIRED.with(|f| f.borrow().clone());
        ch.log(|| format!("execution {k} of event {ev}: fired {fired:?}, {}", describe(&res)));
        let who: Vec<u32> = fired.iter().map(|f| f.0).collect();
        if who != want {
            return Err(format!("triggers {regs:?} (way {how}), executions {events:?}: execution {k} of event {ev} ran triggers {who:?}, expected {want:?}"));
        }
        if describe(&res) != describe(&want_res) {
            return Err(format!("triggers {regs:?} (way {how}), executions {events:?}: execution {k} of event {ev} returned {}, expected {}", describe(&res), describe(&want_res)));
        }
        let mut serials: Vec<u32> = vec![];
        for (no, params) in &fired {
            let want: Vec<usize> = (0..regs[*no as usize].arity).collect();
            let got: Vec<usize> = params.iter().map(|p| p.0).collect();
            if got != want || params.iter().any(|p| p.2 != target || p.1 <= before) {
                return Err(format!("triggers {regs:?} (way {how}): trigger {no} got parameters {params:?}, expected positions {want:?} built for target {target}"));
            }
            serials.extend(params.iter().map(|p| p.1));
        }
        let n = serials.len();
        serials.sort();
        serials.dedup();
        if serials.len() != n {
            return Err(format!("triggers {regs:?}: a parameter was handed out twice"));
        }
        st.outcome(&(who, describe(&res)));
    }
    Ok(())
}

/// A plugin that executes an event before and after it registers a trigger for it.
struct Busy {
    no: u32,
    reg: Reg,
    seen: std::rc::Rc<RefCell<Vec<(Vec<u32>, String)>>>,
}
impl Plugin<Node> for Busy {
    fn install(self, mut schema: Schema<Node>) -> Schema<Node>
    where
        Node: Identify,
    {
        self.seen.borrow_mut().push(fire(&schema, self.reg.ev));
        schema = register(schema, self.no, &self.reg);
        self.seen.borrow_mut().push(fire(&schema, self.reg.ev));
        schema
    }
}

/// Executes an event in a transaction of its own; who ran, and the result.
fn fire(schema: &Schema<Node>, ev: usize) -> (Vec<u32>, String) {
    FIRED.with(|f| f.borrow_mut().clear());
    let mut res = Ok(());
    let _ = schema.transaction().with(|ctx| {
        res = execute(schema, ev, &ctx);
        Ok(())
    });
    (FIRED.with(|f| f.borrow().iter().map(|f| f.0).collect()), describe(&res))
}

/// What executing events, one after the other until one fails, should do.
fn expect(regs: &[Reg], times: &mut Vec<u32>, evs: &[usize]) -> (Vec<u32>, String) {
    times.resize(regs.len(), 0);
    let mut who = vec![];
    for ev in evs {
        for (i, r) in regs.iter().enumerate().filter(|(_, r)| r.ev == *ev) {
            who.push(i as u32);
            let t = Cell::new(times[i]);
            let res = outcome(i as u32, r.out, &t);
            times[i] = t.get();
            if res.is_err() {
                return (who, describe(&res));
            }
        }
    }
    (who, describe(&Ok(())))
}

const BETWEEN: [usize; 3] = [1, 5, 7];

/// Registrations and executions in turn.
fn between(n: usize, first: usize, ch: &mut Ch, st: &mut engine::Stats) -> Verdict {
    let mut schema: Schema<Node> = Graph::from_iter([N::new(1, 11)]).into();
    let mut regs: Vec<Reg> = vec![];
    let mut times = vec![];
    let mut script: Vec<String> = vec![];
    for k in 0..n {
        let alt = if k == 0 { first } else { ch.pick(BETWEEN_STEPS) };
        let mut seen = vec![];
        let mut want = vec![];
        if alt < 18 {
            let (ev, out, way) = (BETWEEN[alt % 3], if alt / 3 % 2 == 0 { Out::Ok } else { Out::SecondTime }, alt / 6);
            let r = Reg { ev, arity: [0, 1, 3][k % 3], out };
            let no = regs.len() as u32;
            script.push(format!("{} trigger {no} of event {ev} ({out:?})", ["register", "install a plugin with", "install a plugin that executes the event before and after registering"][way]));
            match way {
                0 => schema = register(schema, no, &r),
                1 => schema = schema.install(Plug { regs: vec![(no, r.clone())], nested_from: usize::MAX }),
                _ => {
                    let log = std::rc::Rc::new(RefCell::new(vec![]));
                    want.push(expect(&regs, &mut times, &[ev]));
                    schema = schema.install(Busy { no, reg: r.clone(), seen: log.clone() });
                    seen = log.take();
                }
            }
            regs.push(r);
            if way == 2 {
                want.push(expect(&regs, &mut times, &[ev]));
            }
        } else if alt < 21 {
            let ev = BETWEEN[alt - 18];
            script.push(format!("execute event {ev}"));
            want.push(expect(&regs, &mut times, &[ev]));
            seen.push(fire(&schema, ev));
        } else if alt < 24 {
            // One selection is executed twice, by contexts of one transaction.
            let ev = BETWEEN[alt - 21];
            script.push(format!("select event {ev}, execute twice"));
            for _ in 0..2 {
                want.push(expect(&regs, &mut times, &[ev]));
            }
            let t = schema.triggers();
            let mut twice = |sel: &dyn Trigger<Node, ()>| {
                let _ = schema.transaction().with(|ctx| {
                    for _ in 0..2 {
                        FIRED.with(|f| f.borrow_mut().clear());
                        let res = ctx.transaction().with(|c| sel.execute(&c));
                        seen.push((FIRED.with(|f| f.borrow().iter().map(|f| f.0).collect()), describe(&res)));
                    }
                    Ok(())
                });
            };
            match ev {
                1 => twice(&t.select(BeforeSave)),
                5 => twice(&t.select(AfterSave)),
                _ => twice(&t.select(Twin::<0>::default())),
            }
        } else {
            script.push("save a node".into());
            want.push(expect(&regs, &mut times, &[1, 5]));
            FIRED.with(|f| f.borrow_mut().clear());
            let res = Save::new(N::new(1, 12)).execute(schema.transaction());
            seen.push((FIRED.with(|f| f.borrow().iter().map(|f| f.0).collect()), describe(&res)));
        }
        ch.steps(1 + want.len() as u64);
        st.state(&(&regs.iter().map(|r| (r.ev, r.out == Out::Ok)).collect::<Vec<_>>(), &times));
        if seen != want {
            return Err(format!("{}: ran {seen:?}, expected {want:?}", script.join("; ")));
        }
        st.outcome(&want);
    }
    ch.log(|| script.join("; "));
    Ok(())
}
const BETWEEN_STEPS: usize = 25;

pub fn c08(t: Tier) -> Suites {
    let big = t.pick(80, 160);
    vec![
        suite(
            "two-triggers",
            "2 triggers of any of 9 events (two instances of one generic type, types of the same name in different and in the same module, the unit type, library events), any of the arities 0 to 8 and 4 outcomes (success, error, nothing to do, failing from the second execution on), registered directly, by plugins or mixed; each event executed twice with fresh contexts",
            (0..EVENTS * 4).collect(),
            move |root: &usize, ch, st| {
                let regs: Vec<Reg> = (0..2)
                    .map(|k| Reg {
                        ev: if k == 0 { root % EVENTS } else { ch.pick(EVENTS) },
                        arity: ch.pick(9),
                        out: *ch.of(&[Out::Ok, Out::Err, Out::Noop, Out::SecondTime]),
                    })
                    .collect();
                let evs: Vec<usize> = (0..2 * EVENTS).map(|e| e % EVENTS).collect();
                run(&regs, root / EVENTS, &evs, ch, st)
            },
        ),
        suite(
            "registration-orders",
            format!("every sequence of {} registrations over 3 events and 2 outcomes, registered in 4 ways; every sequence of 2 executions", t.pick(6, 7)),
            (0..4usize).collect(),
            move |root: &usize, ch, st| {
                let n = t.pick(6, 7);
                let regs: Vec<Reg> = (0..n)
                    .map(|k| Reg { ev: [7, 2, 8][ch.pick(3)], arity: [0, 2, 1][k % 3], out: if ch.flag() { Out::Err } else { Out::Ok } })
                    .collect();
                let evs: Vec<usize> = (0..2).map(|_| [7, 2, 8][ch.pick(3)]).collect();
                run(&regs, *root, &evs, ch, st)
            },
        ),
        suite(
            "many-triggers",
            format!("n triggers for every n up to {big} over up to 9 events in 5 interleavings, any position failing or none, all arities, registered in 4 ways; every event executed twice"),
            (0..=big * 4).collect(),
            move |root: &usize, ch, st| {
                let n = root / 4;
                let inter = ch.pick(5);
                let fail = ch.pick(n + 1);
                let regs: Vec<Reg> = (0..n)
                    .map(|k| Reg {
                        ev: match inter {
                            0 => 0,
                            1 => k % EVENTS,
                            2 => k * EVENTS / n.max(1),
                            3 => k % 2,
                            _ => (k * k + k / 3) % EVENTS,
                        },
                        arity: k % 9,
                        out: if k == fail { Out::Err } else { Out::Ok },
                    })
                    .collect();
                let evs: Vec<usize> = (0..2 * EVENTS).map(|e| (e * 3) % EVENTS).collect();
                run(&regs, root % 4, &evs, ch, st)
            },
        ),
        suite(
            "between-executions",
            format!("every sequence of {} steps: registrations of a trigger for one of 3 events (directly, by a plugin, by a plugin that executes the event before and after), succeeding or failing from the second execution on; executions of the event, of one selection twice, and by a save operation", t.pick(5, 6)),
            (0..BETWEEN_STEPS).collect(),
            move |root: &usize, ch, st| between(t.pick(5, 6), *root, ch, st),
        ),
        suite(
            "executions",
            format!("every sequence of {} executions over 4 events with triggers that begin to fail at their second execution", t.pick(7, 9)),
            (0..4usize).collect(),
            move |root: &usize, ch, st| {
                let regs: Vec<Reg> = [(0, Out::Ok), (1, Out::SecondTime), (0, Out::SecondTime), (2, Out::Noop), (1, Out::Ok), (0, Out::Ok), (2, Out::Ok)]
                    .iter()
                    .enumerate()
                    .map(|(k, (ev, out))| Reg { ev: *ev, arity: k, out: *out })
                    .collect();
                let evs: Vec<usize> = (0..t.pick(7, 9)).map(|_| ch.pick(4)).collect();
                run(&regs, *root, &evs, ch, st)
            },
        ),
    ]
}
