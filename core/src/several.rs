//! C01, C02, C05: transactions on several schemas, inside each other, prepared early and run late.
use crate::real::N;
use engine::{inject, suite, Ch, Injected, Stats, Suite, Tier, Verdict};
use plotline::deref::{TryDeref, With};
use plotline::graph::{Graph, Source};
use plotline::schema::ops::delete::Delete;
use plotline::schema::ops::save::{AfterSave, Save};
use plotline::schema::transaction::{Background, Context, Ctx, Target, Transaction};
use plotline::schema::{Error, Schema};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

type V = u32;
type Node = N<u8>;
type Cx = Context<'static, Node>;
type Map = BTreeMap<u8, V>;
const IDS: u8 = 2;
const ALL: usize = 2;
/// What a trigger of the first schema adds to the value it stores in the second.
const ECHO: V = 5000;

thread_local! {
    /// Whether a transaction has the second schema, which the trigger of the first then leaves alone.
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Ok,
    Err,
    Panic,
}

#[derive(Clone, Copy)]
enum Step {
    /// Prepares a transaction on a schema.
    Begin(usize),
    Run(usize),
    Drop(usize),
    /// Changes a schema through its guard.
    Insert(usize),
    Remove(usize),
    /// An operation with a transaction of its own.
    Op(usize),
    DelOp(usize),
    /// Through a context.
    Save(usize),
    Del(usize),
    CtxOp(usize),
    CtxDelOp(usize),
    Sub(usize),
}

/// The body of a transaction that is running.
struct Body {
    ctx: *const Cx,
    schema: usize,
    /// The index of the body of the transaction it is part of.
    above: Option<usize>,
    ops: Vec<(u8, Option<V>)>,
}

struct World<'c> {
    ch: &'c mut Ch,
    st: &'c mut Stats,
    schemas: [&'static Schema<Node>; ALL],
    graphs: [Map; ALL],
    /// Prepared, by schema.
    ready: Vec<(usize, Background<'static, Node>)>,
    bodies: Vec<Body>,
    budget: usize,
    echo: bool,
    look: bool,
    val: V,
    script: Vec<String>,
    wrong: Option<String>,
}

fn apply(g: &mut Map, ops: &[(u8, Option<V>)]) {
    for (id, v) in ops {
        match v {
            Some(v) => g.insert(*id, *v),
            None => g.remove(id),
        };
    }
}

impl World<'_> {
    fn free(&self, schema: usize) -> bool {
        self.bodies.iter().all(|b| b.schema != schema)
    }

    fn view(&self, body: usize) -> Map {
        let b = &self.bodies[body];
        let mut g = match b.above {
            Some(a) => self.view(a),
            None => self.graphs[b.schema].clone(),
        };
        apply(&mut g, &b.ops);
        g
    }

    fn wrong(&mut self, what: String) {
        if self.wrong.is_none() {
            self.wrong = Some(format!("{}: {what}", self.script.join(" ")));
        }
    }

    fn observe(&mut self) {
        if self.wrong.is_some() {
            return;
        }
        self.ch.step();
        let views: Vec<Map> = (0..self.bodies.len()).map(|i| self.view(i)).collect();
        self.st.state(&(&self.graphs, &views, self.ready.iter().map(|r| r.0).collect::<Vec<_>>()));
        if !self.look {
            return;
        }
        for (i, want) in views.iter().enumerate() {
            let c = unsafe { &*self.bodies[i].ctx };
            for id in 0..IDS {
                let (got, exists, seen) = (c.get(&id).map(|n| n.val), c.contains(&id), c.node(id).try_deref().map(|n| n.val));
                let want = want.get(&id).copied();
                if got != want || exists != want.is_some() || seen != want {
                    return self.wrong(format!("the context of body {i} shows {got:?} (exists: {exists}, through a handle: {seen:?}) for n{id}, expected {want:?}"));
                }
            }
        }
        for s in 0..ALL {
            if self.free(s) {
                self.compare(s);
            }
        }
    }

    fn compare(&mut self, s: usize) {
        let got: Map = self.schemas[s].read().into_iter().map(|n| (n.id, n.val)).collect();
        if got != self.graphs[s] {
            self.wrong(format!("the graph of schema {s} is {got:?}, expected {:?}", self.graphs[s]));
        }
    }

    fn steps(&mut self, body: bool) -> End {
        loop {
            self.observe();
            if self.wrong.is_some() {
                return End::Err;
            }
            let mut alts = vec![];
            if self.budget > 0 {
                for s in 0..ALL {
                    if self.ready.len() < 2 {
                        alts.push(Step::Begin(s));
                    }
                    if self.free(s) {
                        alts.extend([Step::Insert(s), Step::Remove(s), Step::Op(s), Step::DelOp(s)]);
                    }
                }
                for (i, (s, _)) in self.ready.iter().enumerate() {
                    if self.free(*s) {
                        alts.push(Step::Run(i));
                    }
                    alts.push(Step::Drop(i));
                }
                for b in 0..self.bodies.len() {
                    alts.extend([Step::Save(b), Step::Del(b), Step::CtxOp(b), Step::CtxDelOp(b), Step::Sub(b)]);
                }
            }
            let k = self.ch.pick(alts.len() + 1);
            if k == 0 {
                let end = if body { *self.ch.of(&[End::Ok, End::Err, End::Panic]) } else { End::Ok };
                if body {
                    self.script.push(format!("{end:?}]"));
                }
                return end;
            }
            self.budget -= 1;
            self.step(alts[k - 1]);
        }
    }

    /// What the save operation on the first schema does to the second.
    fn echoed(&mut self, schema: usize, id: u8, val: V) {
        if self.echo && schema == 0 && self.free(1) {
            self.graphs[1].insert(id, val + ECHO);
        }
    }

    fn step(&mut self, s: Step) {
        self.val += 1;
        let val = self.val;
        match s {
            Step::Begin(s) => {
                self.script.push(format!("s{s}.prepare"));
                self.ready.push((s, self.schemas[s].transaction()));
            }
            Step::Drop(i) => {
                self.script.push(format!("drop(prepared {i})"));
                drop(self.ready.remove(i));
            }
            Step::Insert(s) => {
                self.script.push(format!("s{s}.insert(n0={val})"));
                let old = self.schemas[s].write().insert(N::new(0, val)).map(|n| n.val);
                let want = self.graphs[s].insert(0, val);
                if old != want {
                    self.wrong(format!("inserting displaced {old:?}, expected {want:?}"));
                }
            }
            Step::Remove(s) => {
                self.script.push(format!("s{s}.remove(n0)"));
                let old = self.schemas[s].write().remove(&0).map(|n| n.val);
                let want = self.graphs[s].remove(&0);
                if old != want {
                    self.wrong(format!("removing gave {old:?}, expected {want:?}"));
                }
            }
            Step::Op(s) => {
                self.script.push(format!("s{s}.SaveOp(n1={val})"));
                BUSY.set(!self.free(1));
                let r = Save::new(N::new(1, val)).execute(self.schemas[s].transaction());
                self.echoed(s, 1, val);
                self.graphs[s].insert(1, val);
                if r.is_err() {
                    self.wrong(format!("the save operation returned {r:?}"));
                }
            }
            Step::DelOp(s) => {
                self.script.push(format!("s{s}.DeleteOp(n1)"));
                let r = Delete::<Node>::new(1).execute(self.schemas[s].transaction());
                let there = self.graphs[s].remove(&1).is_some();
                if r.is_ok() != there {
                    self.wrong(format!("the delete operation returned {r:?}"));
                }
            }
            Step::Save(b) => {
                self.script.push(format!("body{b}.save(n0={val})"));
                unsafe { &*self.bodies[b].ctx }.save(N::new(0, val));
                self.bodies[b].ops.push((0, Some(val)));
            }
            Step::Del(b) => {
                self.script.push(format!("body{b}.delete(n0)"));
                unsafe { &*self.bodies[b].ctx }.delete(0);
                self.bodies[b].ops.push((0, None));
            }
            Step::CtxOp(b) => {
                self.script.push(format!("body{b}.SaveOp(n1={val})"));
                BUSY.set(!self.free(1));
                let r = Save::new(N::new(1, val)).execute(unsafe { &*self.bodies[b].ctx }.transaction());
                self.echoed(self.bodies[b].schema, 1, val);
                self.bodies[b].ops.push((1, Some(val)));
                if r.is_err() {
                    self.wrong(format!("the save operation returned {r:?}"));
                }
            }
            Step::CtxDelOp(b) => {
                self.script.push(format!("body{b}.DeleteOp(n1)"));
                let r = Delete::<Node>::new(1).execute(unsafe { &*self.bodies[b].ctx }.transaction());
                let there = self.view(b).contains_key(&1);
                if there {
                    self.bodies[b].ops.push((1, None));
                }
                if r.is_ok() != there {
                    self.wrong(format!("the delete operation returned {r:?}"));
                }
            }
            Step::Run(i) => {
                let (s, tx) = self.ready.remove(i);
                self.script.push(format!("s{s}.run(prepared {i})["));
                self.run(s, None, tx);
            }
            Step::Sub(b) => {
                self.script.push(format!("body{b}.sub["));
                let tx = unsafe { &*self.bodies[b].ctx }.transaction();
                self.run(self.bodies[b].schema, Some(b), tx);
            }
        }
    }

    fn run(&mut self, schema: usize, above: Option<usize>, tx: impl Transaction<Target = Node>) {
        let token = self.val + 1000;
        let depth = self.bodies.len();
        let mut done = None;
        let r = {
            let me: *mut Self = self;
            let done = &mut done;
            catch_unwind(AssertUnwindSafe(|| {
                tx.with(|c| {
                    let w = unsafe { &mut *me };
                    w.bodies.push(Body { ctx: (&c as *const Context<'_, Node>).cast(), schema, above, ops: vec![] });
                    let e = w.steps(true);
                    let b = w.bodies.pop().expect("harness: body");
                    *done = Some((e, b.ops));
                    match e {
                        End::Ok => Ok(token),
                        End::Err => Err(Error::custom(format!("e{token}"))),
                        End::Panic => inject(token),
                    }
                })
            }))
        };
        self.bodies.truncate(depth);
        let (e, ops) = match &r {
            Err(p) if !p.is::<Injected>() => resume_unwind(r.unwrap_err()),
            _ => done.expect("harness: the body did not run"),
        };
        let right = match (&r, e) {
            (Ok(Ok(v)), End::Ok) => *v == token,
            (Ok(Err(Error::Noop)), _) => false,
            (Ok(Err(err)), End::Err) => err.to_string() == format!("e{token}"),
            (Err(_), End::Panic) => true,
            _ => false,
        };
        if !right {
            self.wrong(format!("the transaction returned {:?}", r.map_err(|_| "a panic")));
        }
        if e == End::Ok {
            match above {
                Some(a) => self.bodies[a].ops.extend(ops),
                None => apply(&mut self.graphs[schema], &ops),
            }
        }
    }
}

#[derive(Clone, Debug)]
struct Root {
    init: [Vec<(u8, V)>; ALL],
    echo: bool,
}

fn one(r: &Root, budget: usize, look: bool, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let make = |i: usize| -> Schema<Node> { Graph::from_iter(r.init[i].iter().map(|(i, v)| N::new(*i, *v))).into() };
    let second = make(1);
    let to: &'static Schema<Node> = unsafe { &*(&second as *const _) };
    let mut first = make(0);
    if r.echo {
        first = first.with_trigger(AfterSave, move |_: Ctx<Node>, target: Target<Node>| -> Result<(), Error> {
            if BUSY.get() {
                return Ok(());
            }
            let node = target.with(|n| N::new(n.id, n.val + ECHO)).ok_or_else(|| Error::custom("no target"))?;
            Save::new(node).execute(to.transaction())
        });
    }
    let from: &'static Schema<Node> = unsafe { &*(&first as *const _) };
    let mut w = World {
        ch,
        st,
        schemas: [from, to],
        graphs: [0, 1].map(|i: usize| r.init[i].iter().copied().collect()),
        ready: vec![],
        bodies: vec![],
        budget,
        echo: r.echo,
        look,
        val: 100,
        script: vec![],
        wrong: None,
    };
    w.steps(false);
    w.ready.clear();
    if w.wrong.is_none() {
        (0..ALL).for_each(|s| w.compare(s));
    }
    let (script, wrong, graphs) = (std::mem::take(&mut w.script), w.wrong.take(), w.graphs.clone());
    drop(w);
    ch.log(|| format!("{}: the graphs are {graphs:?}", script.join(" ")));
    st.outcome(&(script.len(), &graphs));
    match wrong {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

fn roots() -> Vec<Root> {
    let inits: [[Vec<(u8, V)>; ALL]; 3] = [[vec![], vec![]], [vec![(0, 10), (1, 11)], vec![(0, 20)]], [vec![(1, 11)], vec![(0, 20), (1, 21)]]];
    inits.into_iter().flat_map(|init| [false, true].map(|echo| Root { init: init.clone(), echo })).collect()
}

const STEPS: &str = "each of: prepare a transaction on one of two schemas, run a prepared one (with any further steps in its body, which succeeds, fails or panics) or drop it, insert or remove through the schema's guard, a save or delete operation of its own; and in bodies, through the context of any that is running: save, delete, save or delete operation, a sub-transaction with any further steps; with and without a trigger of the first schema that saves into the second";

/// The results, and the graphs at the end.
pub fn outcomes(t: Tier) -> Vec<Box<dyn Suite>> {
    let n = t.pick(5, 6);
    vec![suite("two-schemas", format!("every sequence of {n} steps, {STEPS}; the result of every transaction and both graphs at the end"), roots(), move |r, ch, st| one(r, n, false, ch, st))]
}

/// What is to be seen after every step.
pub fn looks(t: Tier) -> Vec<Box<dyn Suite>> {
    let n = t.pick(5, 6);
    vec![suite("two-schemas", format!("every sequence of {n} steps, {STEPS}; every context, and every graph that is free, looked at after every step"), roots(), move |r, ch, st| one(r, n, true, ch, st))]
}
