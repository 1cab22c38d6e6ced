//! Enumerates transaction programs, and runs them on the model and on the real code.
use crate::model::Model;
use crate::prog::*;
use crate::real::{self, IdT, Rev, Run};
use engine::{Ch, Stats, Verdict};

/// What programs are made of.
#[derive(Clone)]
pub struct Feat {
    pub nid: u8,
    /// Deepest nesting of transactions; 1 for none.
    pub depth: usize,
    /// Whether enclosing transactions are used from inside nested ones.
    pub up: bool,
    pub dropped: bool,
    pub staged: bool,
    /// Save and delete operations.
    pub ops: bool,
    pub panics: bool,
    /// Panics at the n-th copy of a node, up to this n.
    pub fuse: u32,
    /// Acts of destructors.
    pub defer: bool,
    /// Single lookups.
    pub peek: bool,
    pub ends: &'static [End],
    pub modes: &'static [Mode],
}

pub const OK: &[End] = &[End::Ok];
pub const ENDS: &[End] = &[End::Ok, End::Err, End::Noop];
pub const TOL: &[Mode] = &[Mode::Tolerate];
pub const TOL_PROP: &[Mode] = &[Mode::Tolerate, Mode::Propagate];
pub const CATCH: &[Mode] = &[Mode::Catch];
pub const CATCH_PROP: &[Mode] = &[Mode::Catch, Mode::Propagate];

pub const FLAT: Feat =
    Feat { nid: 2, depth: 1, up: false, dropped: false, staged: false, ops: false, panics: false, fuse: 0, defer: false, peek: false, ends: ENDS, modes: TOL };

pub struct Gen<'c> {
    pub ch: &'c mut Ch,
    pub f: Feat,
    /// The next fresh value, error or panic tag.
    pub val: V,
    pub budget: usize,
    fused: bool,
}

#[derive(Clone, Copy)]
enum Alt {
    Save,
    Del,
    Sub,
    Dropped,
    SaveOp,
    DelOp,
    Panic,
    Fuse,
    Defer,
    Peek,
}

impl<'c> Gen<'c> {
    pub fn new(ch: &'c mut Ch, f: Feat, budget: usize) -> Self {
        Gen { ch, f, val: 100, budget, fused: false }
    }
    pub fn fresh(&mut self) -> V {
        self.val += 1;
        self.val
    }
    pub fn id(&mut self) -> u8 {
        self.ch.pick(self.f.nid as usize) as u8
    }
    fn up(&mut self, depth: usize) -> usize {
        if self.f.up {
            self.ch.pick(depth)
        } else {
            0
        }
    }
    fn mode(&mut self) -> Mode {
        *self.ch.of(self.f.modes)
    }
    pub fn end(&mut self) -> End {
        *self.ch.of(self.f.ends)
    }
    /// A save or a delete in the innermost transaction.
    fn plain(&mut self) -> Act {
        let id = self.id();
        if self.ch.flag() {
            Act::Del { up: 0, id }
        } else {
            Act::Save { up: 0, id, val: self.fresh() }
        }
    }
    fn staged(&mut self) -> Vec<Act> {
        if self.f.staged && self.budget > 0 && self.ch.flag() {
            self.budget -= 1;
            vec![self.plain()]
        } else {
            vec![]
        }
    }
    /// The acts of a body running with `depth` open transactions.
    pub fn acts(&mut self, depth: usize) -> Vec<Act> {
        let mut v = vec![];
        let f = self.f.clone();
        while self.budget > 0 {
            let mut alts = vec![Alt::Save, Alt::Del];
            if depth < f.depth {
                alts.push(Alt::Sub);
                if f.dropped {
                    alts.push(Alt::Dropped);
                }
            }
            if f.ops {
                alts.push(Alt::SaveOp);
                alts.push(Alt::DelOp);
            }
            if f.panics {
                alts.push(Alt::Panic);
            }
            if f.fuse > 0 && !self.fused {
                alts.push(Alt::Fuse);
            }
            if f.defer {
                alts.push(Alt::Defer);
            }
            if f.peek {
                alts.push(Alt::Peek);
            }
            let k = self.ch.pick(alts.len() + 1);
            if k == 0 {
                break;
            }
            self.budget -= 1;
            let a = match alts[k - 1] {
                Alt::Save => Act::Save { up: self.up(depth), id: self.id(), val: self.fresh() },
                Alt::Del => Act::Del { up: self.up(depth), id: self.id() },
                Alt::Sub => {
                    let up = self.up(depth);
                    let pre = self.staged();
                    let body = self.acts(depth + 1);
                    let end = self.end();
                    // How failures are dealt with matters where there can be one.
                    let may_fail = end != End::Ok || f.panics || f.ops || f.fuse > 0 || body.iter().any(passes_on);
                    let mode = if may_fail { self.mode() } else { f.modes[0] };
                    Act::Sub { up, pre, body, end, mode, tok: self.fresh() }
                }
                Alt::Dropped => Act::Dropped { up: self.up(depth), acts: vec![self.plain()] },
                Alt::SaveOp => Act::SaveOp { up: self.up(depth), id: self.id(), val: self.fresh(), mode: self.mode() },
                Alt::DelOp => Act::DelOp { up: self.up(depth), id: self.id(), mode: self.mode() },
                Alt::Peek => Act::Peek { up: self.up(depth), id: self.id(), how: self.ch.pick(3) as u8 },
                Alt::Panic => {
                    v.push(Act::Panic { tag: self.fresh() });
                    break;
                }
                Alt::Fuse => {
                    self.fused = true;
                    Act::FuseLook { n: 1 + self.ch.pick(f.fuse as usize) as u32 }
                }
                Alt::Defer => {
                    let up = self.up(depth);
                    let save = Act::Save { up: 0, id: self.id(), val: self.fresh() };
                    Act::Defer(Box::new(match self.ch.pick(4) {
                        0 => Act::Save { up, id: self.id(), val: self.fresh() },
                        1 => Act::Del { up, id: self.id() },
                        2 => Act::Sub { up, pre: vec![], body: vec![save], end: self.end(), mode: Mode::Tolerate, tok: self.fresh() },
                        _ => Act::SaveOp { up, id: self.id(), val: self.fresh(), mode: Mode::Tolerate },
                    }))
                }
            };
            v.push(a);
        }
        v
    }
    pub fn tx(&mut self) -> Top {
        let pre = self.staged();
        let body = self.acts(1);
        let end = self.end();
        Top::Tx { pre, body, end, tok: self.fresh() }
    }
    /// A subset of the ids as the initial graph.
    pub fn init(&mut self) -> Vec<(u8, V)> {
        (0..self.f.nid).filter(|_| self.ch.flag()).map(|i| (i, 10 + i as V)).collect()
    }
}

fn passes_on(a: &Act) -> bool {
    matches!(a, Act::Sub { mode: Mode::Propagate, .. })
}

/// What a property compares.
pub type Filter = fn(&L) -> bool;
pub fn everything(_: &L) -> bool {
    true
}
pub fn results_and_graph(l: &L) -> bool {
    !matches!(l, L::Seen { .. } | L::Ret(_) | L::Fire { .. })
}
pub fn lookups(l: &L) -> bool {
    matches!(l, L::Seen { .. } | L::Peek { .. })
}

/// Runs a program on the model and on the real code; compares what the filter lets through.
pub fn check<I: IdT>(p: &Prog, ch: &mut Ch, st: &mut Stats, filter: Filter, resync: bool) -> Verdict {
    ch.log(|| format!("ids of type {}; {p:?}", I::NAME));
    let run = Run::<I>::new(p);
    let mut model = Model::new(p, true);
    let mut out = vec![];
    for (i, t) in p.tops.iter().enumerate() {
        real::BLOWN.with(|b| b.set(false));
        run.env.log.borrow_mut().clear();
        run.top(t);
        model.fuse_blown = real::BLOWN.with(|b| b.get());
        model.log.clear();
        model.top(t);
        let got: Vec<L> = run.env.log.borrow().iter().copied().filter(filter).collect();
        let want: Vec<L> = model.log.iter().copied().filter(filter).collect();
        if ch.tracing() {
            ch.log(|| format!("{t:?}: model observes {want:?}"));
        }
        if got != want {
            let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return Err(format!(
                "ids of type {}; {p:?}: in step {i} ({t:?}), observation {k} is {:?}, expected {:?}",
                I::NAME,
                got.get(k),
                want.get(k)
            ));
        }
        out.push(engine::hash_of(&want));
        if resync {
            model.graph = run.graph();
        }
    }
    ch.steps(model.steps);
    for s in &model.states {
        st.state(s);
    }
    st.outcome(&out);
    Ok(())
}

/// Runs it with the ty-th type of ids.
pub fn check_ty(ty: u8, p: &Prog, ch: &mut Ch, st: &mut Stats, filter: Filter, resync: bool) -> Verdict {
    match ty {
        0 => check::<u8>(p, ch, st, filter, resync),
        1 => check::<String>(p, ch, st, filter, resync),
        2 => check::<std::path::PathBuf>(p, ch, st, filter, resync),
        _ => check::<Rev>(p, ch, st, filter, resync),
    }
}

pub fn plain_prog(nid: u8, init: Vec<(u8, V)>, tops: Vec<Top>, look: bool) -> Prog {
    Prog { init, trigs: vec![], trig_depth: 0, tops, nid, trig_look: false, look, quiet: false }
}

/// Nothing is looked at but where the program says so.
pub fn quiet_prog(nid: u8, init: Vec<(u8, V)>, tops: Vec<Top>) -> Prog {
    Prog { quiet: true, ..plain_prog(nid, init, tops, false) }
}
