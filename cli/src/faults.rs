//! C19: storage that fails while it is listed and loaded.
use crate::inter::{self, Fault};
use crate::scratch::{self, os, Entry, Kind};
use engine::{suite, Ch, Stats, Suite, Tier, Verdict};
use plotline::deref::TryDeref;
use plotline::document::lazy::LazyDocument;
use plotline::document::DocumentRepository;
use plotline::id::Identify;
use plotline_cli::repository::LocalDocumentRepository;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;

type Suites = Vec<Box<dyn Suite>>;
type Repo = LocalDocumentRepository;

// ---------------------------------------------------------------------------------------------
// faults of single calls

const ERRNOS: &[i32] = &[libc::EACCES, libc::EIO, libc::ENOENT];
const MORE_ERRNOS: &[i32] = &[libc::EACCES, libc::EIO, libc::ENOENT, libc::EMFILE, libc::ESTALE, libc::ELOOP, libc::ENOTDIR, libc::ENOMEM];

#[derive(Clone, Debug)]
struct Calls {
    faults: usize,
    many: bool,
    tree: usize,
    /// Faults in the listing, in the loading, or both.
    list: bool,
    load: bool,
}

fn tree(n: usize) -> Vec<Entry> {
    let f = |p: &str, c: &[u8]| Entry { path: os(p), kind: Kind::File(c.to_vec()) };
    let big: Vec<u8> = (0..70_000u32).map(|i| (i % 251) as u8).collect();
    match n {
        0 => vec![f("a.md", b"alpha"), f("d/b.md", b"beta"), f("z.md", b"")],
        1 => vec![f("a.md", &big), f("d/b.c.md", b"beta"), f("d/e/f.md", b"phi"), f("d.md/x.md", b"xi"), f("z.txt", b"no")],
        _ => vec![f("a.md", b"alpha"), f("b.md", b"beta")],
    }
}

fn below(doc: &Path, fault: &Path) -> bool {
    // Fault paths may be spelled with `.` or trailing slashes; components do not show those.
    doc.starts_with(fault)
}

fn show(faults: &[Fault]) -> String {
    faults.iter().map(|f| format!("{} of {:?} fails with {}", f.call, f.path, if f.errno == inter::SHORT { "a short count".into() } else { std::io::Error::from_raw_os_error(f.errno).to_string() })).collect::<Vec<_>>().join(", ")
}

fn calls(c: &Calls, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let t = tree(c.tree);
    let scratch = scratch::mine();
    let base = scratch.join("base");
    scratch::make(&base, &t);
    let before = scratch::snap(&base);
    let repo = Arc::new(Repo { context: base.clone(), extension: "md".into() });
    let docs = scratch::documents(&t, "md");
    let want = |id: &Path| docs.get(id).map(|e| scratch::content(&t, e));
    let file = |id: &Path| base.join(&docs[id].path);
    let errnos = if c.many { MORE_ERRNOS } else { ERRNOS };
    let mut left = c.faults;

    let (listed, s) = inter::observed(Some((ch, if c.list { left } else { 0 }, errnos, &base)), vec![], || repo.all().collect::<Vec<LazyDocument<Repo>>>());
    if c.list {
        left = s.budget;
    }
    ch.steps(s.calls);
    let in_list = s.faults;
    ch.log(|| format!("{c:?}; listing: {}", show(&in_list)));
    let mut ids: Vec<PathBuf> = listed.iter().map(|d| d.id().clone()).collect();
    ids.sort();
    ch.log(|| format!("listed {ids:?}"));
    let what = |m: String| Err(format!("tree {t:?}, while listing {}: {m}", show(&in_list)));
    for w in ids.windows(2) {
        if w[0] == w[1] {
            return what(format!("{:?} is listed twice", w[0]));
        }
    }
    for id in &ids {
        if !docs.contains_key(id) {
            return what(format!("{id:?} is listed, there is no such document"));
        }
    }
    for id in docs.keys() {
        let affected = in_list.iter().any(|f| below(&file(id), &f.path));
        if !affected && !ids.contains(id) {
            return what(format!("{id:?} is not listed, though nothing failed on its way"));
        }
    }
    // Every document, listed or not; listed ones through their handle.
    let mut seen = vec![];
    for id in docs.keys() {
        let handle = listed.iter().find(|d| d.id() == id);
        let load = || match handle {
            Some(d) => d.try_deref().map(|x| (x.path.clone(), x.bytes.clone())),
            None => repo.find_by_id(id).map(|x| (x.path, x.bytes)),
        };
        let (got, s) = inter::observed(Some((ch, if c.load { left } else { 0 }, errnos, &base)), vec![], load);
        if c.load {
            left = s.budget;
        }
        ch.steps(s.calls);
        let faults = s.faults;
        ch.log(|| format!("loading {id:?}: {}; {}", show(&faults), got.is_some()));
        let what = |m: String| Err(format!("tree {t:?}, while listing {}, while loading {id:?} {}: {m}", show(&in_list), show(&faults)));
        let affected = faults.iter().any(|f| below(&file(id), &f.path) && f.errno != libc::EINTR && f.errno != inter::SHORT);
        match &got {
            Some((p, b)) => {
                if p != id || Some(&b[..]) != want(id) {
                    return what(format!("it is {p:?} with {} bytes instead of {}", b.len(), want(id).unwrap_or_default().len()));
                }
            }
            None if affected => {}
            None => return what("it is reported absent, though nothing failed on its way".into()),
        }
        seen.push(got.is_some());
    }
    st.state(&(c.tree, in_list.iter().map(|f| (f.call, f.errno, f.path.strip_prefix(&scratch).map(|p| p.to_owned()).ok())).collect::<Vec<_>>(), &ids, &seen));
    st.outcome(&(&ids, &seen));
    // Once the faults are gone, everything is as it should be.
    for id in docs.keys() {
        let handle = listed.iter().find(|d| d.id() == id);
        let ok = |p: &Path, b: &[u8]| p == id && Some(b) == want(id);
        if !handle.is_none_or(|d| d.try_deref().is_some_and(|x| ok(&x.path, &x.bytes))) {
            return what(format!("{id:?} does not load after the faults are gone"));
        }
        if !repo.find_by_id(id).is_some_and(|x| ok(&x.path, &x.bytes)) {
            return what(format!("{id:?} is not found after the faults are gone"));
        }
    }
    let mut again: Vec<PathBuf> = repo.all().map(|d| d.id().clone()).collect();
    again.sort();
    if again != docs.keys().cloned().collect::<Vec<_>>() {
        return what(format!("listed {again:?} after the faults are gone"));
    }
    if scratch::snap(&base) != before {
        return what("files were changed".into());
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// histories of faults and repairs

/// What is at a document's path.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum At {
    File(u8),
    Missing,
    Dir,
    Dangling,
    Unreadable,
    /// A pipe nobody writes to.
    Fifo,
    /// A link to the file of another document.
    LinkTo(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Place {
    There,
    Away,
    /// A file stands in its place.
    File,
    Unreadable,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Doc(usize, At),
    Sub(Place),
    Base(Place),
    List,
    Load(usize),
    Find(usize),
}

const DOCS: [(&str, &str); 3] = [("a", "a.md"), ("d/b", "d/b.md"), ("c.x", "c.x.md")];

struct World {
    scratch: PathBuf,
    docs: [At; 3],
    sub: Place,
    base: Place,
}

fn body(doc: usize, version: u8) -> Vec<u8> {
    format!("document {doc} version {version}").into_bytes()
}

impl World {
    /// Where the base directory is now.
    fn home(&self) -> PathBuf {
        self.scratch.join(if matches!(self.base, Place::Away | Place::File) { "gone" } else { "base" })
    }
    fn sub_home(&self) -> PathBuf {
        self.home().join(if matches!(self.sub, Place::Away | Place::File) { ".dgone" } else { "d" })
    }
    fn file(&self, d: usize) -> PathBuf {
        if d == 1 {
            self.sub_home().join("b.md")
        } else {
            self.home().join(DOCS[d].1)
        }
    }
    fn set_doc(&mut self, d: usize, at: At) {
        use std::fs;
        let p = self.file(d);
        scratch::wipe(&p);
        let e = |r: std::io::Result<()>| r.expect("harness: fault");
        match at {
            At::File(v) => e(fs::write(&p, body(d, v))),
            At::Missing => {}
            At::Dir => e(fs::create_dir(&p)),
            At::Dangling => e(std::os::unix::fs::symlink("nowhere", &p)),
            At::Unreadable => e(fs::write(&p, body(d, 9))),
            At::Fifo => {
                let c = std::ffi::CString::new(std::os::unix::ffi::OsStrExt::as_bytes(p.as_os_str())).expect("harness: path");
                assert!(unsafe { libc::mkfifo(c.as_ptr(), 0o644) } == 0, "harness: mkfifo");
            }
            At::LinkTo(o) => e(std::os::unix::fs::symlink(self.scratch.join("base").join(DOCS[o].1), &p)),
        }
        self.docs[d] = at;
    }
    fn place(old: Place, new: Place, here: &Path, away: &Path) {
        use std::fs;
        let e = |r: std::io::Result<()>| r.expect("harness: fault");
        match old {
            Place::Away => e(fs::rename(away, here)),
            Place::File => {
                e(fs::remove_file(here));
                e(fs::rename(away, here));
            }
            _ => {}
        }
        match new {
            Place::Away => e(fs::rename(here, away)),
            Place::File => {
                e(fs::rename(here, away));
                e(fs::write(here, b"in the way"));
            }
            _ => {}
        }
    }
    fn set_sub(&mut self, p: Place) {
        let h = self.home();
        Self::place(self.sub, p, &h.join("d"), &h.join(".dgone"));
        // The one moved away is hidden.
        self.sub = p;
    }
    fn set_base(&mut self, p: Place) {
        Self::place(self.base, p, &self.scratch.join("base"), &self.scratch.join("gone"));
        self.base = p;
    }
    /// Paths below which nothing can be read.
    fn denied(&self) -> Vec<PathBuf> {
        let b = self.scratch.join("base");
        let mut v = vec![];
        if self.base == Place::Unreadable {
            v.push(b.clone());
        }
        if self.sub == Place::Unreadable {
            v.push(b.join("d"));
        }
        for (i, d) in self.docs.iter().enumerate() {
            // Calls are refused by the path they name, so links are refused like their target.
            if *d == At::Unreadable || matches!(*d, At::LinkTo(o) if self.docs[o] == At::Unreadable) {
                v.push(b.join(DOCS[i].1));
            }
        }
        v
    }
    fn reachable(&self, d: usize) -> bool {
        self.base == Place::There && (d != 1 || self.sub == Place::There)
    }
    fn listed(&self, d: usize) -> bool {
        self.reachable(d)
            && match self.docs[d] {
                At::File(_) | At::Unreadable => true,
                At::LinkTo(o) => self.listed(o),
                _ => false,
            }
    }
    fn content(&self, d: usize) -> Option<Vec<u8>> {
        if !self.reachable(d) {
            return None;
        }
        match self.docs[d] {
            At::File(v) => Some(body(d, v)),
            At::LinkTo(o) => self.content(o),
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
struct Hist {
    depth: usize,
    first: usize,
}

fn ops() -> Vec<Op> {
    let mut v = vec![Op::List];
    for d in 0..3 {
        v.push(Op::Load(d));
    }
    for d in 0..2 {
        for a in [At::Missing, At::Dir, At::Dangling, At::Unreadable, At::Fifo, At::File(0), At::File(1)] {
            v.push(Op::Doc(d, a));
        }
    }
    v.push(Op::Doc(2, At::LinkTo(0)));
    v.push(Op::Doc(2, At::Missing));
    v.push(Op::Find(0));
    v.push(Op::Find(1));
    for p in [Place::Away, Place::File, Place::Unreadable, Place::There] {
        v.push(Op::Sub(p));
    }
    for p in [Place::Away, Place::File, Place::Unreadable, Place::There] {
        v.push(Op::Base(p));
    }
    v
}

fn hist(h: &Hist, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let scratch = scratch::mine();
    let all = ops();
    let mut w = World { scratch: scratch.clone(), docs: [At::File(0); 3], sub: Place::There, base: Place::There };
    std::fs::create_dir_all(scratch.join("base/d")).expect("harness: base");
    for d in 0..3 {
        w.set_doc(d, At::File(0));
    }
    let repo = Arc::new(Repo { context: scratch.join("base"), extension: "md".into() });
    // The documents last listed, with what each was loaded as.
    let mut handles: BTreeMap<usize, (LazyDocument<Repo>, Option<Vec<u8>>)> = BTreeMap::new();
    let mut done: Vec<Op> = vec![];
    let mut plan: Vec<Option<Op>> = vec![Some(Op::List), Some(all[h.first])];
    plan.extend((1..h.depth).map(|_| None));
    plan.extend([0, 1, 2].map(|d| Some(Op::Load(d))));
    // Everything is repaired, and must be as if nothing had happened.
    plan.extend([Op::Base(Place::There), Op::Sub(Place::There), Op::Doc(0, At::File(2)), Op::Doc(1, At::File(2)), Op::Doc(2, At::File(2))].map(Some));
    plan.extend([Op::Load(0), Op::Load(1), Op::Load(2), Op::List, Op::Load(0), Op::Load(1), Op::Load(2)].map(Some));
    for op in plan {
        let op = match op {
            Some(o) => o,
            None => *ch.of(&all),
        };
        // Nothing of the tree can be changed while the directory is away or in the way of itself.
        let possible = match op {
            Op::Doc(d, a) => matches!(w.base, Place::There | Place::Unreadable) && (d != 1 || matches!(w.sub, Place::There | Place::Unreadable)) && w.docs[d] != a,
            Op::Sub(p) => matches!(w.base, Place::There | Place::Unreadable) && w.sub != p,
            Op::Base(p) => w.base != p,
            _ => true,
        };
        if !possible {
            if done.len() <= h.depth {
                return Ok(()); // Explored as a shorter history.
            }
            continue;
        }
        done.push(op);
        ch.step();
        let what = |m: String| Err(format!("after {done:?}: {m}"));
        match op {
            Op::Doc(d, a) => w.set_doc(d, a),
            Op::Sub(p) => w.set_sub(p),
            Op::Base(p) => w.set_base(p),
            Op::List => {
                let before = scratch::snap(&scratch);
                let (docs, _) = inter::observed(None, w.denied(), || repo.all().collect::<Vec<LazyDocument<Repo>>>());
                let mut ids: Vec<PathBuf> = docs.iter().map(|d| d.id().clone()).collect();
                ids.sort();
                let mut want: Vec<PathBuf> = (0..3).filter(|d| w.listed(*d)).map(|d| DOCS[d].0.into()).collect();
                want.sort();
                ch.log(|| format!("{op:?}: {ids:?}"));
                if ids != want {
                    return what(format!("listed {ids:?}, the documents are {want:?}"));
                }
                handles.clear();
                for d in docs {
                    let i = DOCS.iter().position(|x| Path::new(x.0) == d.id().as_path()).expect("harness: id");
                    handles.insert(i, (d, None));
                }
                if scratch::snap(&scratch) != before {
                    return what("files were changed".into());
                }
            }
            Op::Load(d) => {
                let Some((h, was)) = handles.get_mut(&d) else { continue };
                let (got, _) = inter::observed(None, w.denied(), || h.try_deref().map(|x| (x.path.clone(), x.bytes.clone())));
                // A document once loaded stays as it was.
                let want = was.clone().or_else(|| w.content(d));
                ch.log(|| format!("{op:?}: {got:?}"));
                if got.as_ref().map(|x| &x.1) != want.as_ref() || got.as_ref().is_some_and(|x| x.0 != Path::new(DOCS[d].0)) {
                    return what(format!("document {:?} is {:?}, expected {:?}", DOCS[d].0, got.map(|x| (x.0, String::from_utf8_lossy(&x.1).into_owned())), want.map(|x| String::from_utf8_lossy(&x).into_owned())));
                }
                *was = want;
            }
            Op::Find(d) => {
                let (got, _) = inter::observed(None, w.denied(), || repo.find_by_id(&DOCS[d].0.into()));
                let want = w.content(d);
                if got.as_ref().map(|x| &x.bytes) != want.as_ref() || got.as_ref().is_some_and(|x| x.path != Path::new(DOCS[d].0)) {
                    return what(format!("found {:?} as {got:?}", DOCS[d].0));
                }
            }
        }
        st.state(&(w.docs, w.sub, w.base, handles.iter().map(|(k, v)| (*k, v.1.clone())).collect::<Vec<_>>()));
    }
    st.outcome(&handles.iter().map(|(k, v)| (*k, v.1.clone())).collect::<Vec<_>>());
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// many documents, many faults

/// n documents, each in the base directory or in a directory of its own, many of them failing.
fn crowd(n: &usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let scratch = scratch::mine();
    let base = scratch.join("base");
    let dirs = ch.pick(3); // none, one each, two levels each
    let pattern = ch.pick(6);
    let fault = ch.pick(5);
    let bad = |i: usize| match pattern {
        0 => true,
        1 => i % 2 == 0,
        2 => i < n / 2,
        3 => i >= n / 2,
        4 => i + 1 < *n,
        _ => i > 0,
    };
    let rel = |i: usize| match dirs {
        0 => format!("f{i}.md"),
        1 => format!("d{i}/f.md"),
        _ => format!("d{}/e{i}/f.md", i / 3),
    };
    let entries: Vec<Entry> = (0..*n).map(|i| Entry { path: os(rel(i)), kind: Kind::File(format!("content {i}").into_bytes()) }).collect();
    std::fs::create_dir_all(&base).expect("harness: base");
    scratch::make(&base, &entries);
    let repo = Arc::new(Repo { context: base.clone(), extension: "md".into() });
    let id = |i: usize| PathBuf::from(rel(i)).with_extension("");
    // What the bad ones suffer from: an unreadable directory or file while listing, or the file being
    // unreadable, gone or a directory when it is loaded.
    let listing_denied: Vec<PathBuf> = match fault {
        0 if dirs > 0 => (0..*n).filter(|i| bad(*i)).map(|i| base.join(rel(i)).parent().expect("harness: parent").to_owned()).collect(),
        0 => return Ok(()),
        _ => vec![],
    };
    let listed: BTreeMap<PathBuf, LazyDocument<Repo>> = inter::observed(None, listing_denied, || repo.all().map(|d| (d.id().clone(), d)).collect()).0;
    let what = |m: String| Err(format!("{n} documents (layout {dirs}), pattern {pattern} of fault {fault}: {m}"));
    for i in 0..*n {
        if !(fault == 0 && bad(i)) && !listed.contains_key(&id(i)) {
            return what(format!("{:?} is not listed, though nothing failed on its way", id(i)));
        }
    }
    if listed.len() > *n {
        return what(format!("{} documents listed", listed.len()));
    }
    let mut denied = vec![];
    for i in (0..*n).filter(|i| bad(*i)) {
        let p = base.join(rel(i));
        match fault {
            1 => denied.push(p),
            2 => scratch::wipe(&p),
            3 => {
                scratch::wipe(&p);
                std::fs::create_dir(&p).expect("harness: fault");
            }
            4 if dirs > 0 => scratch::wipe(p.parent().expect("harness: parent")),
            _ => {}
        }
    }
    let hurt = |i: usize| bad(i) && (matches!(fault, 1..=3) || fault == 4 && dirs > 0);
    for (i, id) in (0..*n).map(|i| (i, id(i))) {
        ch.step();
        let Some(d) = listed.get(&id) else { continue };
        let (got, _) = inter::observed(None, denied.clone(), || d.try_deref().map(|x| x.bytes.clone()));
        let want = (!hurt(i)).then(|| format!("content {i}").into_bytes());
        if got != want {
            return what(format!("{id:?} is {:?}, expected {:?}", got.map(|b| String::from_utf8_lossy(&b).into_owned()), want.map(|b| String::from_utf8_lossy(&b).into_owned())));
        }
    }
    // Repaired, everything is there.
    for i in (0..*n).filter(|i| hurt(*i)) {
        scratch::wipe(&base.join(rel(i)));
    }
    scratch::make(&base, &entries);
    for (i, id) in (0..*n).map(|i| (i, id(i))) {
        let via = match listed.get(&id) {
            Some(d) => d.try_deref().map(|x| x.bytes.clone()),
            None => repo.find_by_id(&id).map(|x| x.bytes),
        };
        if via != Some(format!("content {i}").into_bytes()) {
            return what(format!("{id:?} does not load after the faults are gone"));
        }
    }
    let again = repo.all().count();
    if again != *n {
        return what(format!("{again} documents are listed after the faults are gone"));
    }
    st.state(&(n, dirs, pattern, fault));
    st.outcome(&(listed.len(), fault));
    Ok(())
}

pub fn c19(t: Tier) -> Suites {
    let mut roots = vec![];
    for tree in 0..3 {
        for (list, load) in [(true, false), (false, true), (true, true)] {
            let faults = if t.thorough() && tree == 2 { 3 } else { 2 };
            roots.push(Calls { faults, many: false, tree, list, load });
            roots.push(Calls { faults: t.pick(1, 2), many: true, tree, list, load });
        }
    }
    let depth = t.pick(4, 5);
    vec![
        suite(
            "calls",
            "every set of up to 2 (thorough: 3) failing calls among all open, read, stat, opendir and readdir calls made by listing a tree and loading its documents, each with several error codes, interrupted and short reads",
            roots,
            calls,
        ),
        suite(
            "many-faults",
            format!("n documents in 3 layouts, with the first, the last, every other, all but one or all of them failing in 5 ways (while listing or between listing and loading), then repaired: every n up to {}, and 100, 256 and 1000", t.pick(24, 100)),
            (1..=t.pick(24usize, 100)).chain([100, 256, 1000]).rev().collect(),
            crowd,
        ),
        suite(
            "histories",
            format!("every history of {depth} steps out of {} (listing, loading, files deleted, replaced by a directory or a link, unreadable, rewritten; directories moved away, replaced by a file, unreadable; repairs), then everything repaired", ops().len()),
            (0..ops().len()).map(|first| Hist { depth, first }).collect(),
            hist,
        ),
    ]
}
