//! Runs transaction programs on the real code.
use crate::prog::*;
use engine::{inject, Injected};
use plotline::deref::{TryDeref, With, WithMut};
use plotline::graph::{Graph, Source};
use plotline::id::Identify;
use plotline::property::Property;
use plotline::schema::ops::delete::{AfterDelete, BeforeDelete, Delete};
use plotline::schema::ops::save::{AfterSave, BeforeSave, Save};
use plotline::schema::transaction::{Context, Ctx, Target, Transaction};
use plotline::schema::{Error, Schema};
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// Types of ids.
pub trait IdT: Ord + Clone + Debug + 'static {
    const NAME: &'static str;
    fn mk(i: u8) -> Self;
    fn no(&self) -> u8;
}
impl IdT for u8 {
    const NAME: &'static str = "u8";
    fn mk(i: u8) -> Self {
        i
    }
    fn no(&self) -> u8 {
        *self
    }
}
impl IdT for String {
    const NAME: &'static str = "String";
    fn mk(i: u8) -> Self {
        // ids that are prefixes of each other, up to 26, then distinct
        if i < 26 {
            "x".repeat(i as usize + 1)
        } else {
            format!("y{i:03}")
        }
    }
    fn no(&self) -> u8 {
        if self.starts_with('x') {
            self.len() as u8 - 1
        } else {
            self[1..].parse().expect("harness: id")
        }
    }
}
impl IdT for std::path::PathBuf {
    const NAME: &'static str = "PathBuf";
    fn mk(i: u8) -> Self {
        std::path::PathBuf::from(format!("d{}/f{:03}", i % 3, i))
    }
    fn no(&self) -> u8 {
        self.file_name().unwrap().to_str().unwrap()[1..].parse().expect("harness: id")
    }
}
/// An id ordered the other way round.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Rev(pub u8);
impl PartialOrd for Rev {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rev {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        o.0.cmp(&self.0)
    }
}
impl IdT for Rev {
    const NAME: &'static str = "reversed";
    fn mk(i: u8) -> Self {
        Rev(i)
    }
    fn no(&self) -> u8 {
        self.0
    }
}

thread_local! {
    /// Panics when it reaches zero on copying a node.
    pub static FUSE: Cell<u32> = const { Cell::new(0) };
}
thread_local! {
    /// Whether a fuse has blown since this was reset.
    pub static BLOWN: Cell<bool> = const { Cell::new(false) };
}
pub const FUSE_TAG: u32 = u32::MAX;

#[derive(Debug, PartialEq)]
pub struct N<I> {
    pub id: I,
    pub val: V,
    pub edges: Vec<I>,
}
impl<I: Clone> Clone for N<I> {
    fn clone(&self) -> Self {
        FUSE.with(|f| {
            let n = f.get();
            if n > 0 {
                f.set(n - 1);
                if n == 1 {
                    inject(FUSE_TAG);
                }
            }
        });
        N { id: self.id.clone(), val: self.val, edges: self.edges.clone() }
    }
}
impl<I> Identify for N<I> {
    type Id = I;
    fn id(&self) -> &I {
        &self.id
    }
}
impl<I: IdT> N<I> {
    pub fn new(id: u8, val: V) -> Self {
        N { id: I::mk(id), val, edges: vec![I::mk((val % 7) as u8), I::mk(id)] }
    }
}
pub struct Edge<I>(pub I);
impl<I> Identify for Edge<I> {
    type Id = I;
    fn id(&self) -> &I {
        &self.0
    }
}
impl<I: Clone> Property<N<I>> for Edge<I> {
    fn all(n: &N<I>) -> Vec<Self> {
        n.edges.iter().cloned().map(Edge).collect()
    }
}

struct Link<'a, I: IdT> {
    ctx: &'a Context<'a, N<I>>,
    below: Option<&'a Link<'a, I>>,
}
impl<'a, I: IdT> Link<'a, I> {
    fn up(&self, n: usize) -> &Context<'a, N<I>> {
        let mut l = self;
        for _ in 0..n {
            l = l.below.expect("harness: up");
        }
        l.ctx
    }
}

pub struct Env {
    p: Prog,
    pub log: RefCell<Vec<L>>,
    fire_depth: Cell<usize>,
    /// Whether the target of the operation being run has been poisoned, per nested operation.
    poisoned: RefCell<Vec<bool>>,
}

fn tok_err(t: V) -> Error {
    Error::custom(format!("e{t}"))
}

fn res_of<T>(r: &Result<T, Error>, ok: impl FnOnce(&T) -> V) -> Res {
    match r {
        Ok(v) => Res::Ok(ok(v)),
        Err(Error::Noop) => Res::Noop,
        Err(e) => match e.to_string().strip_prefix('e').and_then(|x| x.parse().ok()) {
            Some(t) => Res::Err(t),
            None => Res::LibErr,
        },
    }
}

fn look_ctx<I: IdT>(env: &Env, frame: u8, ctx: &Context<'_, N<I>>) {
    for i in 0..env.p.nid {
        let id = I::mk(i);
        let h = ctx.node(id.clone());
        let fetched = ctx.get(&id).map(|n| n.val);
        let exists = ctx.contains(&id);
        let is_virtual = h.is_virtual();
        let handle = h.try_deref().map(|n| n.val);
        let next = h.successors::<Edge<I>>();
        let mut succ = [None; 2];
        for (k, n) in next.iter().enumerate() {
            let there = n.try_deref().map(|n| n.val);
            if k < 2 {
                succ[k] = Some((n.id().no(), there));
            } else {
                succ[0] = None; // more successors than edges
            }
        }
        env.log.borrow_mut().push(L::Seen { frame, id: i, fetched, exists, handle, is_virtual, succ });
    }
}

fn look<I: IdT>(env: &Env, l: &Link<'_, I>) {
    if env.p.quiet {
        return;
    }
    fn rec<I: IdT>(env: &Env, l: &Link<'_, I>) -> u8 {
        let f = l.below.map_or(0, |b| rec(env, b));
        look_ctx(env, f, l.ctx);
        f + 1
    }
    rec(env, l);
}

fn acts<'a, I: IdT>(env: &'a Rc<Env>, l: &'a Link<'_, I>, a: &'a [Act]) -> Result<(), Error> {
    let mut deferred = Deferred { env, l, acts: vec![] };
    for x in a {
        if let Act::Defer(x) = x {
            deferred.acts.push(x);
            continue;
        }
        act(env, l, x)?;
        if env.p.look {
            look(env, l);
        }
    }
    Ok(())
}

/// Acts on being dropped.
struct Deferred<'a, 'b, I: IdT> {
    env: &'a Rc<Env>,
    l: &'a Link<'b, I>,
    acts: Vec<&'a Act>,
}
impl<I: IdT> Drop for Deferred<'_, '_, I> {
    fn drop(&mut self) {
        while let Some(a) = self.acts.pop() {
            let _ = act(self.env, self.l, a);
            if self.env.p.look {
                look(self.env, self.l);
            }
        }
    }
}

struct OnDrop<F: FnMut()>(F);
impl<F: FnMut()> Drop for OnDrop<F> {
    fn drop(&mut self) {
        self.0()
    }
}

fn body<I: IdT>(env: &Rc<Env>, l: &Link<'_, I>, b: &[Act], end: End, tok: V) -> Result<V, Error> {
    look(env, l);
    acts(env, l, b)?;
    if !env.p.look {
        look(env, l);
    }
    match end {
        End::Ok => Ok(tok),
        End::Err => Err(tok_err(tok)),
        End::Noop => Err(Error::Noop),
    }
}

/// Runs something nested and deals with its outcome as the program says.
fn nested<T>(env: &Env, mode: Mode, ok: impl FnOnce(&T) -> V, f: impl FnOnce() -> Result<T, Error>) -> Result<(), Error> {
    let r = if mode == Mode::Catch {
        let depth = env.fire_depth.get();
        let pois = env.poisoned.borrow().len();
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(p) => {
                env.fire_depth.set(depth);
                env.poisoned.borrow_mut().truncate(pois);
                match p.downcast_ref::<Injected>() {
                    Some(i) => {
                        env.log.borrow_mut().push(L::Ret(Res::Panic(i.0)));
                        return Ok(());
                    }
                    None => resume_unwind(p),
                }
            }
        }
    } else {
        f()
    };
    env.log.borrow_mut().push(L::Ret(res_of(&r, ok)));
    match mode {
        Mode::Propagate => r.map(|_| ()),
        _ => Ok(()),
    }
}

fn staged<I: IdT>(env: &Env, l: &Link<'_, I>, a: &[Act]) {
    for x in a {
        match x {
            Act::Save { id, val, .. } => l.ctx.save(N::new(*id, *val)),
            Act::Del { id, .. } => l.ctx.delete(I::mk(*id)),
            _ => panic!("harness: only saves and deletes can be staged"),
        }
        look(env, l);
    }
}

fn act<I: IdT>(env: &Rc<Env>, l: &Link<'_, I>, a: &Act) -> Result<(), Error> {
    match a {
        Act::Save { up, id, val } => {
            l.up(*up).save(N::new(*id, *val));
            Ok(())
        }
        Act::Del { up, id } => {
            l.up(*up).delete(I::mk(*id));
            Ok(())
        }
        Act::Sub { up, pre, body: b, end, mode, tok } => {
            let parent = l.up(*up);
            nested(
                env,
                *mode,
                |v| *v,
                || {
                    let tx = parent.transaction();
                    if !pre.is_empty() {
                        let c = Context::from(&tx);
                        staged(env, &Link { ctx: &c, below: Some(l) }, pre);
                    }
                    tx.with(|c| body(env, &Link { ctx: &c, below: Some(l) }, b, *end, *tok))
                },
            )
        }
        Act::Dropped { up, acts } => {
            let parent = l.up(*up);
            let tx = parent.transaction();
            let c = Context::from(&tx);
            staged(env, &Link { ctx: &c, below: Some(l) }, acts);
            Ok(())
        }
        Act::SaveOp { up, id, val, mode } => {
            let parent = l.up(*up);
            nested(env, *mode, |_| 0, || save_op(env, N::<I>::new(*id, *val), parent.transaction()))
        }
        Act::DelOp { up, id, mode } => {
            let parent = l.up(*up);
            nested(env, *mode, |_| 0, || del_op::<I>(env, *id, parent.transaction()))
        }
        Act::Peek { up, id, how } => {
            let c = l.up(*up);
            let i = I::mk(*id);
            let val = match how {
                0 => c.get(&i).map(|n| n.val),
                1 => c.contains(&i).then_some(1),
                _ => c.node(i).try_deref().map(|n| n.val),
            };
            env.log.borrow_mut().push(L::Peek { how: *how, id: *id, val });
            Ok(())
        }
        Act::Panic { tag } => inject(*tag),
        Act::FuseLook { n } => {
            let keep = env.log.borrow().len();
            FUSE.with(|f| f.set(*n));
            let r = catch_unwind(AssertUnwindSafe(|| look(env, l)));
            FUSE.with(|f| f.set(0));
            env.log.borrow_mut().truncate(keep);
            if let Err(p) = r {
                BLOWN.with(|b| b.set(true));
                resume_unwind(p);
            }
            Ok(())
        }
        Act::Defer(_) => panic!("harness: deferred acts are run by their body"),
    }
}

fn save_op<I: IdT>(env: &Env, n: N<I>, tx: impl Transaction<Target = N<I>>) -> Result<(), Error> {
    env.poisoned.borrow_mut().push(false);
    let r = Save::new(n).execute(tx);
    env.poisoned.borrow_mut().pop();
    r
}

fn del_op<I: IdT>(env: &Env, id: u8, tx: impl Transaction<Target = N<I>>) -> Result<(), Error> {
    env.poisoned.borrow_mut().push(false);
    let r = Delete::new(I::mk(id)).execute(tx);
    env.poisoned.borrow_mut().pop();
    r
}

fn fire<I: IdT>(env: &Rc<Env>, i: usize, ctx: &Ctx<'_, N<I>>, target: &Target<N<I>>) -> Result<(), Error> {
    let pois = *env.poisoned.borrow().last().expect("harness: poisoned");
    let seen = if pois { None } else { target.with(|n| (n.id.no(), n.val)) };
    env.log.borrow_mut().push(L::Fire { trig: i as u8, target: seen, depth: env.fire_depth.get() as u8 });
    if env.p.trig_look {
        trig_look(env, ctx);
    }
    if env.fire_depth.get() >= env.p.trig_depth {
        return Ok(());
    }
    env.fire_depth.set(env.fire_depth.get() + 1);
    let r = tacts(env, &env.p.trigs[i].acts, ctx, target);
    env.fire_depth.set(env.fire_depth.get() - 1);
    r
}

fn trig_look<I: IdT>(env: &Env, ctx: &Ctx<'_, N<I>>) {
    let _ = ctx.transaction().with(|c| {
        look_ctx(env, 0, &c);
        Result::<(), Error>::Err(Error::Noop)
    });
}

fn tacts<I: IdT>(env: &Rc<Env>, a: &[TAct], ctx: &Ctx<'_, N<I>>, target: &Target<N<I>>) -> Result<(), Error> {
    for x in a {
        match x {
            TAct::Edit { val } => {
                target.with_mut(|n| {
                    n.val = *val;
                    n.edges[0] = I::mk((*val % 7) as u8);
                });
            }
            TAct::EditId { id } => {
                target.with_mut(|n| {
                    n.id = I::mk(*id);
                    n.edges[1] = I::mk(*id);
                });
            }
            TAct::Poison => {
                let _ = catch_unwind(AssertUnwindSafe(|| target.with_mut(|_| inject(0))));
                if let Some(p) = env.poisoned.borrow_mut().last_mut() {
                    *p = true;
                }
            }
            TAct::PanicInTarget { tag } => {
                target.with_mut(|_| inject(*tag));
            }
            TAct::PanicReadingTarget { tag } => {
                target.with(|_| inject(*tag));
            }
            TAct::Do(a) => trig_do(env, a, ctx)?,
            TAct::Fail { tok } => return Err(tok_err(*tok)),
            TAct::FailNoop => return Err(Error::Noop),
            TAct::Panic { tag } => inject(*tag),
        }
        if env.p.trig_look {
            trig_look(env, ctx);
        }
    }
    Ok(())
}

fn trig_do<I: IdT>(env: &Rc<Env>, a: &Act, ctx: &Ctx<'_, N<I>>) -> Result<(), Error> {
    match a {
        Act::Sub { body: b, end, mode, tok, .. } => nested(
            env,
            *mode,
            |v| *v,
            || ctx.transaction().with(|c| body(env, &Link { ctx: &c, below: None }, b, *end, *tok)),
        ),
        Act::SaveOp { id, val, mode, .. } => nested(env, *mode, |_| 0, || save_op(env, N::<I>::new(*id, *val), ctx.transaction())),
        Act::DelOp { id, mode, .. } => nested(env, *mode, |_| 0, || del_op::<I>(env, *id, ctx.transaction())),
        _ => panic!("harness: not possible in a trigger"),
    }
}

/// Runs the program; returns the log, or why the run itself was wrong.
pub struct Run<I: IdT> {
    pub env: Rc<Env>,
    schema: Schema<N<I>>,
}

impl<I: IdT> Run<I> {
    pub fn new(p: &Prog) -> Self {
        let env = Rc::new(Env { p: p.clone(), log: RefCell::new(vec![]), fire_depth: Cell::new(0), poisoned: RefCell::new(vec![]) });
        let graph = Graph::from_iter(p.init.iter().map(|(i, v)| N::<I>::new(*i, *v)));
        let mut schema = Schema::from(graph);
        for (i, t) in p.trigs.iter().enumerate() {
            let e = env.clone();
            let f = move |ctx: Ctx<N<I>>, target: Target<N<I>>| fire(&e, i, &ctx, &target);
            schema = match t.ev {
                Ev::BeforeSave => schema.with_trigger(BeforeSave, f),
                Ev::AfterSave => schema.with_trigger(AfterSave, f),
                Ev::BeforeDelete => schema.with_trigger(BeforeDelete, f),
                Ev::AfterDelete => schema.with_trigger(AfterDelete, f),
            };
        }
        Run { env, schema }
    }

    pub fn top(&self, t: &Top) {
        let env = &self.env;
        let push = |l| env.log.borrow_mut().push(l);
        let settle = |f: &mut dyn FnMut() -> Result<V, Error>| {
            let r = match catch_unwind(AssertUnwindSafe(f)) {
                Ok(r) => res_of(&r, |v| *v),
                Err(p) => match p.downcast_ref::<Injected>() {
                    Some(i) => Res::Panic(i.0),
                    None => resume_unwind(p),
                },
            };
            env.fire_depth.set(0);
            env.poisoned.borrow_mut().clear();
            push(L::TopRet(r));
        };
        match t {
            Top::Unwinding(t) => {
                // A panic that leaves the destructor ends the process; it is kept instead.
                let mut inner = Ok(());
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let _d = OnDrop(|| inner = catch_unwind(AssertUnwindSafe(|| self.top(t))));
                    inject(0)
                }));
                if let Err(p) = inner {
                    resume_unwind(p);
                }
                if let Err(p) = r.map(|()| ()) {
                    if !p.is::<Injected>() {
                        resume_unwind(p);
                    }
                }
                return;
            }
            Top::Tx { pre, body: b, end, tok } => settle(&mut || {
                let tx = self.schema.transaction();
                if !pre.is_empty() {
                    let c = Context::from(&tx);
                    staged(env, &Link { ctx: &c, below: None }, pre);
                }
                tx.with(|c| body(env, &Link { ctx: &c, below: None }, b, *end, *tok))
            }),
            Top::Dropped { acts } => {
                let tx = self.schema.transaction();
                let c = Context::from(&tx);
                staged(env, &Link { ctx: &c, below: None }, acts);
            }
            Top::SaveOp { id, val } => settle(&mut || save_op(env, N::<I>::new(*id, *val), self.schema.transaction()).map(|_| 0)),
            Top::DelOp { id } => settle(&mut || del_op::<I>(env, *id, self.schema.transaction()).map(|_| 0)),
            Top::Insert { id, val } => {
                let o = self.schema.write().insert(N::new(*id, *val));
                push(L::Displaced(o.map(|n| n.val)));
            }
            Top::Look { how: 0, .. } => {
                let mut nodes: Vec<(u8, V)> = self.schema.read().into_iter().map(|n| (n.id.no(), n.val)).collect();
                nodes.sort();
                for (id, val) in nodes {
                    push(L::Node { id, val });
                }
            }
            Top::Look { how, id } => {
                let i = I::mk(*id);
                let val = match how {
                    1 => self.schema.read().get(&i).map(|n| n.val),
                    2 => self.schema.read().contains(&i).then_some(1),
                    _ => {
                        let mut seen = None;
                        let _ = self.schema.transaction().with(|c| {
                            seen = c.get(&i).map(|n| n.val);
                            Result::<(), Error>::Err(Error::Noop)
                        });
                        seen
                    }
                };
                push(L::Peek { how: *how, id: *id, val });
            }
            Top::Remove { id } => {
                let o = self.schema.write().remove(&I::mk(*id));
                push(L::Displaced(o.map(|n| n.val)));
            }
        }
        if env.p.quiet {
            return;
        }
        let g = self.schema.read();
        // sorted by number, because the model does not know the order of the id type
        let mut nodes: Vec<(u8, V)> = g.into_iter().map(|n| (n.id.no(), n.val)).collect();
        nodes.sort();
        for (id, val) in nodes {
            push(L::Node { id, val });
        }
        for i in 0..env.p.nid {
            let id = I::mk(i);
            push(L::Committed { id: i, fetched: g.get(&id).map(|n| n.val), exists: g.contains(&id) });
        }
        push(L::EndGraph);
    }

    /// The committed graph.
    pub fn graph(&self) -> std::collections::BTreeMap<u8, V> {
        self.schema.read().into_iter().map(|n| (n.id.no(), n.val)).collect()
    }
}
