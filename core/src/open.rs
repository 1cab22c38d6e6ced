//! C03: transactions prepared, used and run in any order, with contexts that stay alive.
use crate::real::N;
use engine::{inject, suite, Ch, Injected, Stats, Suite, Tier, Verdict};
use plotline::deref::TryDeref;
use plotline::graph::{Graph, Source};
use plotline::schema::ops::delete::Delete;
use plotline::schema::ops::save::Save;
use plotline::schema::transaction::{Background, Context, Foreground, Transaction};
use plotline::schema::{Error, Schema};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

type V = u32;
type Node = N<u8>;
type Cx = Context<'static, Node>;
const IDS: u8 = 2;

enum Tx {
    Root(Box<Background<'static, Node>>),
    Sub(Box<Foreground<'static, Node>>),
}

/// A context at hand and the transaction, if it has not been run yet, it was made of.
struct Slot {
    ctx: *mut Cx,
    owned: bool,
    tx: Option<Tx>,
    /// Whether safe code could still use it: its transaction has not been moved, nor any above.
    usable: bool,
    frame: usize,
    above: Option<usize>,
    /// How many of the running transactions are below: they borrow this one.
    pins: usize,
}

/// The model: the pending changes of a transaction.
struct Frame {
    parent: Option<usize>,
    ops: Vec<(u8, Option<V>)>,
}

struct World<'c> {
    ch: &'c mut Ch,
    st: &'c mut Stats,
    slots: Vec<Slot>,
    frames: Vec<Frame>,
    graph: BTreeMap<u8, V>,
    budget: usize,
    max: usize,
    look: bool,
    val: V,
    script: Vec<String>,
    wrong: Option<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Ok,
    Err,
    Panic,
}

#[derive(Clone, Copy, Debug)]
enum Step {
    Prepare(usize),
    Save(usize),
    Del(usize),
    Op(usize),
    DelOp(usize),
    Run(usize),
    Drop(usize),
}

fn apply(g: &mut BTreeMap<u8, V>, ops: &[(u8, Option<V>)]) {
    for (id, v) in ops {
        match v {
            Some(v) => g.insert(*id, *v),
            None => g.remove(id),
        };
    }
}

impl World<'_> {
    fn view(&self, frame: usize) -> BTreeMap<u8, V> {
        let mut chain = vec![frame];
        while let Some(p) = self.frames[*chain.last().unwrap()].parent {
            chain.push(p);
        }
        let mut g = self.graph.clone();
        for f in chain.into_iter().rev() {
            apply(&mut g, &self.frames[f].ops);
        }
        g
    }

    fn ctx(&self, slot: usize) -> &'static Cx {
        assert!(self.slots[slot].usable, "harness: unusable context");
        unsafe { &*self.slots[slot].ctx }
    }

    /// Compares what every context shows.
    fn observe(&mut self) {
        if self.wrong.is_some() {
            return;
        }
        self.ch.step();
        if !self.look {
            let at: Vec<_> = self.slots.iter().map(|s| s.usable.then(|| self.view(s.frame))).collect();
            self.st.state(&(&self.graph, at, self.frames.iter().map(|f| (f.parent, f.ops.len())).collect::<Vec<_>>()));
            return;
        }
        let mut all = vec![];
        for i in 0..self.slots.len() {
            if !self.slots[i].usable {
                continue;
            }
            let c = self.ctx(i);
            let want = self.view(self.slots[i].frame);
            for id in 0..IDS {
                let got = c.get(&id).map(|n| n.val);
                let exists = c.contains(&id);
                let seen = c.node(id).try_deref().map(|n| n.val);
                let want = want.get(&id).copied();
                if got != want || exists != want.is_some() || seen != want {
                    self.wrong = Some(format!(
                        "{}: context {i} shows {got:?} (exists: {exists}, through a handle: {seen:?}) for n{id}, expected {want:?}",
                        self.script.join(" ")
                    ));
                    return;
                }
                all.push(want);
            }
        }
        self.st.state(&(&self.graph, &all, self.frames.iter().map(|f| (f.parent, f.ops.len())).collect::<Vec<_>>()));
    }

    fn wrong(&mut self, what: String) {
        if self.wrong.is_none() {
            self.wrong = Some(format!("{}: {what}", self.script.join(" ")));
        }
    }

    /// Everything made of a context, directly or not, becomes unusable.
    fn retire(&mut self, slot: usize) {
        self.slots[slot].usable = false;
        for i in slot + 1..self.slots.len() {
            if self.slots[i].above == Some(slot) {
                self.retire(i);
            }
        }
    }

    fn pin(&mut self, mut slot: usize, by: isize) {
        while let Some(up) = self.slots[slot].above {
            self.slots[up].pins = self.slots[up].pins.checked_add_signed(by).expect("harness: pins");
            slot = up;
        }
    }

    fn free(&mut self, from: usize) {
        while self.slots.len() > from {
            let s = self.slots.pop().unwrap();
            drop(s.tx);
            if s.owned && !s.ctx.is_null() {
                drop(unsafe { Box::from_raw(s.ctx) });
            }
        }
    }

    /// Does things until it is enough; how the body, if it is one, ends.
    fn steps(&mut self, body: bool) -> End {
        loop {
            self.observe();
            if self.wrong.is_some() {
                return End::Err;
            }
            let mut alts = vec![];
            if self.budget > 0 {
                for (i, s) in self.slots.iter().enumerate().filter(|(_, s)| s.usable) {
                    alts.push(Step::Save(i));
                    alts.push(Step::Del(i));
                    alts.push(Step::Op(i));
                    alts.push(Step::DelOp(i));
                    if self.slots.len() < self.max {
                        alts.push(Step::Prepare(i));
                    }
                    if s.tx.is_some() && s.pins == 0 {
                        alts.push(Step::Run(i));
                        alts.push(Step::Drop(i));
                    }
                }
            }
            let k = self.ch.pick(alts.len() + 1);
            if k == 0 {
                let end = if body { *self.ch.of(&[End::Ok, End::Err, End::Panic]) } else { End::Ok };
                if body {
                    self.script.push(format!("{end:?}]"));
                }
                return end;
            }
            self.budget -= 1;
            self.step(alts[k - 1]);
        }
    }

    fn step(&mut self, s: Step) {
        self.val += 1;
        let val = self.val;
        match s {
            Step::Save(i) => {
                self.script.push(format!("c{i}.save(n0={val})"));
                self.ctx(i).save(N::new(0, val));
                let f = self.slots[i].frame;
                self.frames[f].ops.push((0, Some(val)));
            }
            Step::Del(i) => {
                self.script.push(format!("c{i}.delete(n0)"));
                self.ctx(i).delete(0);
                let f = self.slots[i].frame;
                self.frames[f].ops.push((0, None));
            }
            Step::Op(i) => {
                self.script.push(format!("c{i}.SaveOp(n1={val})"));
                let r = Save::new(N::new(1, val)).execute(self.ctx(i).transaction());
                let f = self.slots[i].frame;
                self.frames[f].ops.push((1, Some(val)));
                if r.is_err() {
                    self.wrong("the save operation failed".into());
                }
            }
            Step::DelOp(i) => {
                self.script.push(format!("c{i}.DeleteOp(n1)"));
                let r = Delete::<Node>::new(1).execute(self.ctx(i).transaction());
                let f = self.slots[i].frame;
                let there = self.view(f).contains_key(&1);
                if there {
                    self.frames[f].ops.push((1, None));
                }
                if r.is_ok() != there {
                    self.wrong(format!("the delete operation returned {r:?}"));
                }
            }
            Step::Prepare(i) => {
                let k = self.slots.len();
                self.script.push(format!("c{k}=prepared(c{i})"));
                let tx = Box::new(self.ctx(i).transaction());
                let r: &'static Foreground<'static, Node> = unsafe { &*(&*tx as *const _) };
                let ctx = Box::into_raw(Box::new(Context::from(r)));
                self.frames.push(Frame { parent: Some(self.slots[i].frame), ops: vec![] });
                let frame = self.frames.len() - 1;
                self.slots.push(Slot { ctx, owned: true, tx: Some(Tx::Sub(tx)), usable: true, frame, above: Some(i), pins: 0 });
            }
            Step::Drop(i) => {
                let keep = self.ch.flag();
                self.script.push(format!("drop(tx{i}{})", if keep { ", its context stays" } else { "" }));
                self.retire(i);
                let tx = self.slots[i].tx.take();
                if keep {
                    drop(tx);
                } else {
                    let c = std::mem::replace(&mut self.slots[i].ctx, std::ptr::null_mut());
                    drop(unsafe { Box::from_raw(c) });
                    drop(tx);
                }
            }
            Step::Run(i) => self.run(i),
        }
    }

    fn run(&mut self, i: usize) {
        let how = self.ch.pick(3);
        self.script.push(format!("run(tx{i}{})[", ["", ", its context stays", ", its context stays, the body's is forgotten"][how]));
        self.retire(i);
        let tx = self.slots[i].tx.take().expect("harness: run");
        if how == 0 {
            let c = std::mem::replace(&mut self.slots[i].ctx, std::ptr::null_mut());
            drop(unsafe { Box::from_raw(c) });
        }
        let frame = self.slots[i].frame;
        let from = self.slots.len();
        let token = self.val + 1000;
        self.pin(i, 1);
        let mut end = None;
        let r = {
            let me: *mut Self = self;
            let end = &mut end;
            let body = move |mut c: Context<'_, Node>| -> Result<V, Error> {
                let w = unsafe { &mut *me };
                w.slots.push(Slot { ctx: (&mut c as *mut Context<'_, Node>).cast(), owned: false, tx: None, usable: true, frame, above: None, pins: 0 });
                let e = w.steps(true);
                *end = Some(e);
                w.free(from);
                if how == 2 {
                    std::mem::forget(c);
                }
                match e {
                    End::Ok => Ok(token),
                    End::Err => Err(Error::custom(format!("e{token}"))),
                    End::Panic => inject(token),
                }
            };
            catch_unwind(AssertUnwindSafe(|| match tx {
                Tx::Root(tx) => tx.with(body),
                Tx::Sub(tx) => tx.with(body),
            }))
        };
        // Left behind if something of the code panicked in the body.
        self.free(from);
        self.pin(i, -1);
        let e = match &r {
            Err(p) if !p.is::<Injected>() => resume_unwind(r.unwrap_err()),
            _ => end.expect("harness: the body did not run"),
        };
        let right = match (&r, e) {
            (Ok(Ok(v)), End::Ok) => *v == token,
            (Ok(Err(Error::Noop)), _) => false,
            (Ok(Err(err)), End::Err) => err.to_string() == format!("e{token}"),
            (Err(_), End::Panic) => true,
            _ => false,
        };
        if !right {
            self.wrong(format!("the transaction returned {:?}", r.map_err(|_| "a panic")));
        }
        if e == End::Ok {
            let ops = std::mem::take(&mut self.frames[frame].ops);
            match self.frames[frame].parent {
                Some(p) => self.frames[p].ops.extend(ops),
                None => apply(&mut self.graph, &ops),
            }
        }
    }
}

fn one(init: &[(u8, V)], budget: usize, max: usize, look: bool, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let schema: Schema<Node> = Graph::from_iter(init.iter().map(|(i, v)| N::new(*i, *v))).into();
    let still: &'static Schema<Node> = unsafe { &*(&schema as *const _) };
    let tx = Box::new(still.transaction());
    let r: &'static Background<'static, Node> = unsafe { &*(&*tx as *const _) };
    let ctx = Box::into_raw(Box::new(Context::from(r)));
    let mut w = World {
        ch,
        st,
        slots: vec![Slot { ctx, owned: true, tx: Some(Tx::Root(tx)), usable: true, frame: 0, above: None, pins: 0 }],
        frames: vec![Frame { parent: None, ops: vec![] }],
        graph: init.iter().copied().collect(),
        budget,
        max,
        look,
        val: 100,
        script: vec![],
        wrong: None,
    };
    w.steps(false);
    let wrong = w.wrong.take();
    let script = std::mem::take(&mut w.script);
    let want: Vec<(u8, V)> = w.graph.iter().map(|(k, v)| (*k, *v)).collect();
    // The contexts that stay are there while the graph is looked at, the transaction is not.
    for s in &mut w.slots {
        s.tx = None;
    }
    let got: Vec<(u8, V)> = schema.read().into_iter().map(|n| (n.id, n.val)).collect();
    w.free(0);
    w.ch.log(|| format!("{}: the graph is {got:?}", script.join(" ")));
    if let Some(e) = wrong {
        return Err(e);
    }
    if got != want {
        return Err(format!("{}: the graph is {got:?}, expected {want:?}", script.join(" ")));
    }
    st.outcome(&(script.len(), &want));
    Ok(())
}

fn roots() -> Vec<Vec<(u8, V)>> {
    vec![vec![], vec![(0, 10)], vec![(0, 10), (1, 11)]]
}

const STEPS: &str = "each made through any of the contexts at hand: save, delete, save or delete operation, prepare a sub-transaction and its context, run a prepared one (its context being dropped before or staying alive, the body's context being dropped or leaked) with any further steps in its body, which succeeds, fails or panics, or drop a prepared one; up to 4 contexts";

/// The outcome and what is in the graph at the end.
pub fn outcomes(t: Tier) -> Vec<Box<dyn Suite>> {
    let n = t.pick(5, 6);
    vec![suite(
        "any-order",
        format!("every sequence of {n} steps, {STEPS}; the result of every transaction, and the graph at the end"),
        roots(),
        move |init, ch, st| one(init, n, 4, false, ch, st),
    )]
}

pub fn c03(t: Tier) -> Vec<Box<dyn Suite>> {
    let n = t.pick(5, 6);
    vec![suite(
        "any-order",
        format!("every sequence of {n} steps, {STEPS}; every context looked at after every step"),
        roots(),
        move |init, ch, st| one(init, n, 4, true, ch, st),
    )]
}
