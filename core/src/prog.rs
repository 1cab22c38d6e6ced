//! Transaction programs: data describing what user code does to a schema.
use std::fmt;

pub type V = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum End {
    /// The body returns success.
    Ok,
    /// The body returns an error of its own.
    Err,
    /// The body returns the library's "nothing to do" error.
    Noop,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Mode {
    /// An error of the sub-transaction is ignored by its parent.
    Tolerate,
    /// An error of the sub-transaction fails its parent.
    Propagate,
    /// Errors and panics of the sub-transaction are ignored by its parent.
    Catch,
}

/// What code inside a transaction does. `up` selects the open transaction it does it to: 0 is the
/// innermost one, 1 the one opened before, and so on.
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Act {
    Save { up: usize, id: u8, val: V },
    Del { up: usize, id: u8 },
    /// A sub-transaction opened from `up`; `pre` is done through a context made before it runs.
    Sub { up: usize, pre: Vec<Act>, body: Vec<Act>, end: End, mode: Mode, tok: V },
    /// A sub-transaction that is prepared and dropped.
    Dropped { up: usize, acts: Vec<Act> },
    SaveOp { up: usize, id: u8, val: V, mode: Mode },
    DelOp { up: usize, id: u8, mode: Mode },
    Panic { tag: V },
    /// Looks at everything while the n-th copy of a node panics.
    FuseLook { n: u32 },
    /// A single lookup of an id: 0 fetches the node, 1 asks for its existence, 2 uses a handle.
    Peek { up: usize, id: u8, how: u8 },
    /// Something a destructor does when the body ends, in whatever way. It must not panic.
    Defer(Box<Act>),
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Top {
    Tx { pre: Vec<Act>, body: Vec<Act>, end: End, tok: V },
    Dropped { acts: Vec<Act> },
    SaveOp { id: u8, val: V },
    DelOp { id: u8 },
    Insert { id: u8, val: V },
    Remove { id: u8 },
    /// Looks at the graph, 0 iterating, 1 fetching an id, 2 asking for its existence, 3 inside a transaction.
    Look { how: u8, id: u8 },
    /// Something a destructor does while the thread unwinds from a panic.
    Unwinding(Box<Top>),
}

/// What a trigger does, in order.
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum TAct {
    /// Changes the value of the target.
    Edit { val: V },
    /// Changes the id of the target.
    EditId { id: u8 },
    /// Panics while changing the target, and catches that.
    Poison,
    /// Panics while changing the target.
    PanicInTarget { tag: V },
    /// Panics while reading the target.
    PanicReadingTarget { tag: V },
    /// Acts on a sub-transaction of its context (`up` must be 0).
    Do(Act),
    /// Fails.
    Fail { tok: V },
    FailNoop,
    Panic { tag: V },
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Ev {
    BeforeSave,
    AfterSave,
    BeforeDelete,
    AfterDelete,
}
pub const EVS: [Ev; 4] = [Ev::BeforeSave, Ev::AfterSave, Ev::BeforeDelete, Ev::AfterDelete];

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Trig {
    pub ev: Ev,
    pub acts: Vec<TAct>,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Prog {
    /// Initial graph.
    pub init: Vec<(u8, V)>,
    pub trigs: Vec<Trig>,
    /// Triggers act only in operations nested less deep than this in other triggers.
    pub trig_depth: usize,
    pub tops: Vec<Top>,
    /// Number of ids looked at.
    pub nid: u8,
    /// Whether triggers look at the graph.
    pub trig_look: bool,
    /// Whether to look at everything after every act, or only at the end of transactions.
    pub look: bool,
    /// Nothing is looked at but by acts that look.
    pub quiet: bool,
}

fn list(f: &mut fmt::Formatter<'_>, a: &[Act]) -> fmt::Result {
    for (i, x) in a.iter().enumerate() {
        if i > 0 {
            write!(f, " ")?;
        }
        write!(f, "{x:?}")?;
    }
    Ok(())
}

fn at(up: usize) -> String {
    if up == 0 {
        String::new()
    } else {
        format!("@up{up}")
    }
}

impl fmt::Debug for Act {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Act::Save { up, id, val } => write!(f, "save{}(n{id}={val})", at(*up)),
            Act::Del { up, id } => write!(f, "delete{}(n{id})", at(*up)),
            Act::Sub { up, pre, body, end, mode, .. } => {
                write!(f, "sub{}[", at(*up))?;
                if !pre.is_empty() {
                    write!(f, "staged{{")?;
                    list(f, pre)?;
                    write!(f, "}} ")?;
                }
                list(f, body)?;
                write!(f, "]->{end:?}/{mode:?}")
            }
            Act::Dropped { up, acts } => {
                write!(f, "dropped{}[", at(*up))?;
                list(f, acts)?;
                write!(f, "]")
            }
            Act::SaveOp { up, id, val, mode } => write!(f, "SaveOp{}(n{id}={val})/{mode:?}", at(*up)),
            Act::DelOp { up, id, mode } => write!(f, "DeleteOp{}(n{id})/{mode:?}", at(*up)),
            Act::Panic { tag } => write!(f, "panic({tag})"),
            Act::FuseLook { n } => write!(f, "look-with-panic-at-copy({n})"),
            Act::Peek { up, id, how } => write!(f, "{}{}(n{id})", ["get", "contains", "handle"][*how as usize], at(*up)),
            Act::Defer(a) => write!(f, "at-end({a:?})"),
        }
    }
}

impl fmt::Debug for Top {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Top::Tx { pre, body, end, .. } => {
                write!(f, "tx[")?;
                if !pre.is_empty() {
                    write!(f, "staged{{")?;
                    list(f, pre)?;
                    write!(f, "}} ")?;
                }
                list(f, body)?;
                write!(f, "]->{end:?}")
            }
            Top::Dropped { acts } => {
                write!(f, "dropped-tx[")?;
                list(f, acts)?;
                write!(f, "]")
            }
            Top::SaveOp { id, val } => write!(f, "SaveOp(n{id}={val})"),
            Top::DelOp { id } => write!(f, "DeleteOp(n{id})"),
            Top::Insert { id, val } => write!(f, "insert(n{id}={val})"),
            Top::Remove { id } => write!(f, "remove(n{id})"),
            Top::Look { how, id } => write!(f, "look[{}](n{id})", ["iterate", "get", "contains", "in-tx"][*how as usize]),
            Top::Unwinding(t) => write!(f, "unwinding({t:?})"),
        }
    }
}

impl fmt::Debug for TAct {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            TAct::Edit { val } => write!(f, "target.val={val}"),
            TAct::EditId { id } => write!(f, "target.id=n{id}"),
            TAct::Poison => write!(f, "poison-target"),
            TAct::PanicInTarget { tag } => write!(f, "panic-in-target({tag})"),
            TAct::PanicReadingTarget { tag } => write!(f, "panic-reading-target({tag})"),
            TAct::Do(a) => write!(f, "{a:?}"),
            TAct::Fail { tok } => write!(f, "fail({tok})"),
            TAct::FailNoop => write!(f, "fail-noop"),
            TAct::Panic { tag } => write!(f, "panic({tag})"),
        }
    }
}

impl fmt::Debug for Trig {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}:{:?}", self.ev, self.acts)
    }
}

impl fmt::Debug for Prog {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "init={:?} ", self.init)?;
        if !self.trigs.is_empty() {
            write!(f, "triggers={:?} (acting to depth {}) ", self.trigs, self.trig_depth)?;
        }
        write!(f, "do={:?}", self.tops)
    }
}

/// The result of something that was run.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Res {
    Ok(V),
    /// The error with this message.
    Err(V),
    Noop,
    /// An error made by the library, whose text is not specified.
    LibErr,
    Panic(V),
}

/// One observation.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum L {
    /// A lookup of an id in the frame-th open transaction.
    Seen { frame: u8, id: u8, fetched: Option<V>, exists: bool, handle: Option<V>, is_virtual: bool, succ: [Option<(u8, Option<V>)>; 2] },
    /// A single lookup.
    Peek { how: u8, id: u8, val: Option<V> },
    /// A sub-transaction or nested operation returned.
    Ret(Res),
    /// A top-level transaction or operation returned.
    TopRet(Res),
    /// A direct insertion or removal displaced this.
    Displaced(Option<V>),
    /// A trigger started and saw this target. `None`: not looked at.
    Fire { trig: u8, target: Option<(u8, V)>, depth: u8 },
    /// The committed graph holds this (as iterated).
    Node { id: u8, val: V },
    /// The committed graph answers this lookup.
    Committed { id: u8, fetched: Option<V>, exists: bool },
    EndGraph,
}
