//! The reference model: the semantics of transaction programs, written down as plainly as possible.
use crate::prog::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
struct Frame {
    parent: Option<usize>,
    ops: Vec<(u8, Option<V>)>,
}

/// Why a body stopped early.
enum Stop {
    Err(Res),
    Panic(V),
}
type Flow = Result<(), Stop>;

struct Tgt {
    id: u8,
    val: V,
    poisoned: bool,
}

pub struct Model<'p> {
    p: &'p Prog,
    pub graph: BTreeMap<u8, V>,
    frames: Vec<Frame>,
    pub log: Vec<L>,
    fire_depth: usize,
    pub states: Vec<u64>,
    pub steps: u64,
    track: bool,
    /// Points at which the real run blew a fuse (for programs with FuseLook).
    pub fuse_blown: bool,
}

fn apply(g: &mut BTreeMap<u8, V>, ops: &[(u8, Option<V>)]) {
    for (id, v) in ops {
        match v {
            Some(v) => g.insert(*id, *v),
            None => g.remove(id),
        };
    }
}

impl<'p> Model<'p> {
    pub fn new(p: &'p Prog, track: bool) -> Self {
        Model {
            p,
            graph: p.init.iter().cloned().collect(),
            frames: vec![],
            log: vec![],
            fire_depth: 0,
            states: vec![],
            steps: 0,
            track,
            fuse_blown: false,
        }
    }

    /// The graph as seen from an open transaction.
    fn view(&self, f: usize) -> BTreeMap<u8, V> {
        let mut chain = vec![f];
        while let Some(p) = self.frames[*chain.last().unwrap()].parent {
            chain.push(p);
        }
        let mut g = self.graph.clone();
        for f in chain.into_iter().rev() {
            apply(&mut g, &self.frames[f].ops);
        }
        g
    }

    fn open(&mut self, parent: Option<usize>) -> usize {
        self.frames.push(Frame { parent, ops: vec![] });
        self.frames.len() - 1
    }

    fn close(&mut self, commit: bool) {
        let f = self.frames.pop().unwrap();
        if commit {
            match f.parent {
                Some(p) => self.frames[p].ops.extend(f.ops),
                None => apply(&mut self.graph, &f.ops),
            }
        }
    }

    fn look(&mut self, base: usize) {
        if self.track {
            self.states.push(engine::hash_of(&(&self.graph, &self.frames)));
        }
        if self.p.quiet {
            return;
        }
        for f in base..self.frames.len() {
            let v = self.view(f);
            for id in 0..self.p.nid {
                let x = v.get(&id).copied();
                let succ = match x {
                    Some(val) => [(val % 7) as u8, id].map(|e| Some((e, v.get(&e).copied()))),
                    None => [None; 2],
                };
                self.log.push(L::Seen { frame: (f - base) as u8, id, fetched: x, exists: x.is_some(), handle: x, is_virtual: x.is_none(), succ });
            }
        }
    }

    fn acts(&mut self, base: usize, acts: &[Act]) -> Flow {
        let mut deferred = vec![];
        let r = (|| {
            for a in acts {
                if let Act::Defer(a) = a {
                    deferred.push(a);
                    continue;
                }
                self.act(base, a)?;
                if self.p.look {
                    self.look(base);
                }
            }
            Ok(())
        })();
        for a in deferred.into_iter().rev() {
            let _ = self.act(base, a);
            if self.p.look {
                self.look(base);
            }
        }
        r
    }

    /// Runs a body in the innermost frame, which is closed afterwards.
    fn body(&mut self, base: usize, body: &[Act], end: End, tok: V) -> Res {
        self.look(base);
        let r = self.acts(base, body);
        let r = match r {
            Ok(()) => {
                if !self.p.look {
                    self.look(base);
                }
                match end {
                    End::Ok => Res::Ok(tok),
                    End::Err => Res::Err(tok),
                    End::Noop => Res::Noop,
                }
            }
            Err(Stop::Err(e)) => e,
            Err(Stop::Panic(t)) => Res::Panic(t),
        };
        self.close(matches!(r, Res::Ok(_)));
        r
    }

    fn settle(&mut self, r: Res, mode: Mode) -> Flow {
        self.settle_quiet(r, mode, true)
    }
    fn settle_quiet(&mut self, r: Res, mode: Mode, log: bool) -> Flow {
        if let Res::Panic(t) = r {
            if mode == Mode::Catch {
                if log {
                    self.log.push(L::Ret(r));
                }
                return Ok(());
            }
            return Err(Stop::Panic(t));
        }
        if log {
            self.log.push(L::Ret(r));
        }
        match (r, mode) {
            (Res::Ok(_), _) | (_, Mode::Tolerate | Mode::Catch) => Ok(()),
            (e, Mode::Propagate) => Err(Stop::Err(e)),
        }
    }

    fn act(&mut self, base: usize, a: &Act) -> Flow {
        self.steps += 1;
        let at = |m: &Self, up: usize| m.frames.len() - 1 - up;
        match a {
            Act::Save { up, id, val } => {
                let f = at(self, *up);
                self.frames[f].ops.push((*id, Some(*val)));
                Ok(())
            }
            Act::Del { up, id } => {
                let f = at(self, *up);
                self.frames[f].ops.push((*id, None));
                Ok(())
            }
            Act::Sub { up, pre, body, end, mode, tok } => {
                let f = at(self, *up);
                self.open(Some(f));
                self.staged(base, pre);
                let r = self.body(base, body, *end, *tok);
                self.settle(r, *mode)
            }
            Act::Dropped { up, acts } => {
                let f = at(self, *up);
                self.open(Some(f));
                self.staged(base, acts);
                self.close(false);
                Ok(())
            }
            Act::SaveOp { up, id, val, mode } => {
                let f = at(self, *up);
                let r = self.save_op(Some(f), *id, *val);
                self.settle(r, *mode)
            }
            Act::DelOp { up, id, mode } => {
                let f = at(self, *up);
                let r = self.del_op(Some(f), *id);
                self.settle(r, *mode)
            }
            Act::Peek { up, id, how } => {
                let f = at(self, *up);
                let x = self.view(f).get(id).copied();
                self.log.push(L::Peek { how: *how, id: *id, val: if *how == 1 { x.map(|_| 1) } else { x } });
                Ok(())
            }
            Act::Panic { tag } => Err(Stop::Panic(*tag)),
            Act::FuseLook { .. } => {
                if self.fuse_blown {
                    Err(Stop::Panic(u32::MAX))
                } else {
                    Ok(())
                }
            }
            Act::Defer(_) => panic!("harness: deferred acts are run by their body"),
        }
    }

    /// Saves and deletes made through a context created ahead of the run.
    fn staged(&mut self, base: usize, acts: &[Act]) {
        for a in acts {
            self.steps += 1;
            let top = self.frames.len() - 1;
            match a {
                Act::Save { id, val, .. } => self.frames[top].ops.push((*id, Some(*val))),
                Act::Del { id, .. } => self.frames[top].ops.push((*id, None)),
                _ => panic!("harness: only saves and deletes can be staged"),
            }
            self.look(base);
        }
    }

    fn trigs(&mut self, f: usize, ev: Ev, t: &mut Tgt) -> Flow {
        let _ = f;
        let p = self.p;
        for (i, tr) in p.trigs.iter().enumerate() {
            if tr.ev == ev {
                self.fire(i, tr, t)?;
            }
        }
        Ok(())
    }

    fn fire(&mut self, i: usize, tr: &Trig, t: &mut Tgt) -> Flow {
        self.steps += 1;
        let target = if t.poisoned { None } else { Some((t.id, t.val)) };
        self.log.push(L::Fire { trig: i as u8, target, depth: self.fire_depth as u8 });
        if self.p.trig_look {
            self.trig_look();
        }
        if self.fire_depth >= self.p.trig_depth {
            return Ok(());
        }
        self.fire_depth += 1;
        let r = self.tacts(&tr.acts, t);
        self.fire_depth -= 1;
        r
    }

    fn trig_look(&mut self) {
        // A trigger looks through a sub-transaction of its context.
        let f = self.frames.len() - 1;
        let b = self.open(Some(f));
        self.look(b);
        self.close(false);
    }

    fn tacts(&mut self, acts: &[TAct], t: &mut Tgt) -> Flow {
        for a in acts {
            self.steps += 1;
            match a {
                TAct::Edit { val } => {
                    if !t.poisoned {
                        t.val = *val
                    }
                }
                TAct::EditId { id } => {
                    if !t.poisoned {
                        t.id = *id
                    }
                }
                TAct::Poison => t.poisoned = true,
                TAct::PanicInTarget { tag } | TAct::PanicReadingTarget { tag } => {
                    if !t.poisoned {
                        return Err(Stop::Panic(*tag));
                    }
                }
                TAct::Do(act) => self.trig_do(act)?,
                TAct::Fail { tok } => return Err(Stop::Err(Res::Err(*tok))),
                TAct::FailNoop => return Err(Stop::Err(Res::Noop)),
                TAct::Panic { tag } => return Err(Stop::Panic(*tag)),
            }
            if self.p.trig_look {
                self.trig_look();
            }
        }
        Ok(())
    }

    fn trig_do(&mut self, a: &Act) -> Flow {
        let f = self.frames.len() - 1;
        match a {
            Act::Sub { body, end, mode, tok, .. } => {
                let b = self.open(Some(f));
                let r = self.body(b, body, *end, *tok);
                self.settle(r, *mode)
            }
            Act::SaveOp { id, val, mode, .. } => {
                let r = self.save_op(Some(f), *id, *val);
                self.settle(r, *mode)
            }
            Act::DelOp { id, mode, .. } => {
                let r = self.del_op(Some(f), *id);
                self.settle(r, *mode)
            }
            _ => panic!("harness: not possible in a trigger"),
        }
    }

    fn save_op(&mut self, parent: Option<usize>, id: u8, val: V) -> Res {
        let f = self.open(parent);
        let mut t = Tgt { id, val, poisoned: false };
        let r = (|| {
            self.trigs(f, Ev::BeforeSave, &mut t)?;
            if t.poisoned {
                return Err(Stop::Err(Res::LibErr));
            }
            self.frames[f].ops.push((t.id, Some(t.val)));
            self.trigs(f, Ev::AfterSave, &mut t)
        })();
        self.op_end(r)
    }

    fn del_op(&mut self, parent: Option<usize>, id: u8) -> Res {
        let f = self.open(parent);
        let Some(val) = self.view(f).get(&id).copied() else {
            self.close(false);
            return Res::Noop;
        };
        let mut t = Tgt { id, val, poisoned: false };
        let r = (|| {
            self.trigs(f, Ev::BeforeDelete, &mut t)?;
            self.frames[f].ops.push((id, None));
            self.trigs(f, Ev::AfterDelete, &mut t)
        })();
        self.op_end(r)
    }

    fn op_end(&mut self, r: Flow) -> Res {
        let r = match r {
            Ok(()) => Res::Ok(0),
            Err(Stop::Err(e)) => e,
            Err(Stop::Panic(t)) => Res::Panic(t),
        };
        self.close(matches!(r, Res::Ok(_)));
        r
    }

    pub fn top(&mut self, t: &Top) {
        self.steps += 1;
        match t {
            // Why it is done makes no difference.
            Top::Unwinding(t) => return self.top(t),
            Top::Tx { pre, body, end, tok } => {
                self.open(None);
                self.staged(0, pre);
                let r = self.body(0, body, *end, *tok);
                self.log.push(L::TopRet(r));
            }
            Top::Dropped { acts } => {
                self.open(None);
                self.staged(0, acts);
                self.close(false);
            }
            Top::SaveOp { id, val } => {
                let r = self.save_op(None, *id, *val);
                self.log.push(L::TopRet(r));
            }
            Top::DelOp { id } => {
                let r = self.del_op(None, *id);
                self.log.push(L::TopRet(r));
            }
            Top::Insert { id, val } => {
                let o = self.graph.insert(*id, *val);
                self.log.push(L::Displaced(o));
            }
            Top::Remove { id } => {
                let o = self.graph.remove(id);
                self.log.push(L::Displaced(o));
            }
            Top::Look { how: 0, .. } => {
                for (id, val) in &self.graph {
                    self.log.push(L::Node { id: *id, val: *val });
                }
            }
            Top::Look { how, id } => {
                let x = self.graph.get(id).copied();
                self.log.push(L::Peek { how: *how, id: *id, val: if *how == 2 { x.map(|_| 1) } else { x } });
            }
        }
        if !self.p.quiet {
            self.graph_log();
        }
        if self.track {
            self.states.push(engine::hash_of(&(&self.graph, &self.frames)));
        }
    }

    fn graph_log(&mut self) {
        for (id, val) in &self.graph {
            self.log.push(L::Node { id: *id, val: *val });
        }
        for id in 0..self.p.nid {
            let x = self.graph.get(&id).copied();
            self.log.push(L::Committed { id, fetched: x, exists: x.is_some() });
        }
        self.log.push(L::EndGraph);
    }
}
