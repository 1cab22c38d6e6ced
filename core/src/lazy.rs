//! C15: histories of lazy documents.
use engine::{suite, Ch, Stats, Suite, Tier, Verdict};
use plotline::deref::TryDeref;
use plotline::document::lazy::LazyDocument;
use plotline::document::DocumentRepository;
use plotline::graph::{Graph, Source};
use plotline::id::Identify;
use plotline::schema::ops::delete::Delete;
use plotline::schema::ops::save::Save;
use plotline::schema::transaction::Transaction;
use plotline::schema::{Error, Schema};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

type Suites = Vec<Box<dyn Suite>>;

#[derive(Clone, Debug, PartialEq)]
struct Doc {
    id: String,
    version: u32,
}
impl Identify for Doc {
    type Id = String;
    fn id(&self) -> &String {
        &self.id
    }
}

/// Answers as scripted; remembers what it was asked.
#[derive(Default)]
struct Repo {
    asked: RefCell<Vec<String>>,
    /// Whether the next answers are documents. Each document provided has a version of its own.
    answer: RefCell<bool>,
    versions: RefCell<u32>,
    /// Whether documents provided identify themselves otherwise than they were asked for.
    odd: bool,
}
impl DocumentRepository for Repo {
    type Document = Doc;
    fn find_by_id(&self, id: &String) -> Option<Doc> {
        self.asked.borrow_mut().push(id.clone());
        if !*self.answer.borrow() {
            return None;
        }
        *self.versions.borrow_mut() += 1;
        let id = if self.odd { format!("not {id}") } else { id.clone() };
        Some(Doc { id, version: *self.versions.borrow() })
    }
}
type Lazy = LazyDocument<Repo>;

const IDS: [&str; 2] = ["a", "a/b.txt"];

struct H {
    doc: Lazy,
    id: String,
    loaded: Option<Doc>,
    /// The address its document was first seen at.
    at: Option<usize>,
}

fn access(h: &mut H, repo: &Repo, yes: bool) -> Verdict {
    *repo.answer.borrow_mut() = yes;
    let before = repo.asked.borrow().len();
    let versions = *repo.versions.borrow();
    let got = h.doc.try_deref().cloned();
    let asked: Vec<String> = repo.asked.borrow()[before..].to_vec();
    let (want, want_asked) = match &h.loaded {
        Some(d) => (Some(d.clone()), vec![]),
        None if yes => {
            let id = if repo.odd { format!("not {}", h.id) } else { h.id.clone() };
            (Some(Doc { id, version: versions + 1 }), vec![h.id.clone()])
        }
        None => (None, vec![h.id.clone()]),
    };
    if got != want {
        return Err(format!("access yields {got:?}, expected {want:?}"));
    }
    if asked != want_asked {
        return Err(format!("access asked the repository for {asked:?}, expected {want_asked:?}"));
    }
    h.loaded = want;
    // It is the very same copy each time, and looking at it asks for nothing.
    if h.loaded.is_some() {
        let n = repo.asked.borrow().len();
        let at = h.doc.try_deref().map(|d| d as *const Doc as usize);
        if at.is_none() || h.at.is_some() && at != h.at {
            return Err("a later access yields another copy".into());
        }
        if repo.asked.borrow().len() != n {
            return Err("a later access asks the repository again".into());
        }
        h.at = at;
    }
    Ok(())
}

fn histories(odd: bool, len: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let repo = Arc::new(Repo { odd, ..Default::default() });
    let build = Lazy::builder(repo.clone());
    let mut hs: Vec<Box<H>> = vec![];
    let mut script = vec![];
    for k in 0..len {
        let n = hs.len();
        let c = ch.pick(4 + 5 * n);
        let before = repo.asked.borrow().len();
        ch.step();
        let mut silent = true;
        let mut r = Ok(());
        match c {
            0 | 1 => {
                script.push(format!("d{n}=lazy({})", IDS[c]));
                hs.push(Box::new(H { doc: build(IDS[c].into()), id: IDS[c].into(), loaded: None, at: None }));
            }
            2 | 3 => {
                let d = Doc { id: IDS[c - 2].into(), version: 1000 + k as u32 };
                script.push(format!("d{n}=with-content({})", IDS[c - 2]));
                hs.push(Box::new(H { doc: Lazy::new(repo.clone(), d.clone()), id: IDS[c - 2].into(), loaded: Some(d), at: None }));
            }
            _ => {
                let i = (c - 4) % n;
                match (c - 4) / n {
                    w @ (0 | 1) => {
                        silent = false;
                        script.push(format!("access(d{i}, repository has {})", if w == 0 { "it" } else { "nothing" }));
                        r = access(&mut hs[i], &repo, w == 0);
                    }
                    2 => {
                        script.push(format!("id(d{i})"));
                        if *hs[i].doc.id() != hs[i].id {
                            r = Err(format!("identifies itself as {}", hs[i].doc.id()));
                        }
                    }
                    3 => {
                        script.push(format!("d{n}=clone(d{i})"));
                        let doc = hs[i].doc.clone();
                        let (id, loaded) = (hs[i].id.clone(), hs[i].loaded.clone());
                        hs.push(Box::new(H { doc, id, loaded, at: None }));
                    }
                    _ => {
                        script.push(format!("drop(d{i})"));
                        hs.remove(i);
                    }
                }
            }
        }
        if silent && repo.asked.borrow().len() != before {
            r = Err("asked the repository".into());
        }
        if let Err(e) = r {
            return Err(format!("{}: {e}", script.join(" ")));
        }
        st.state(&hs.iter().map(|h| (h.id.clone(), h.loaded.as_ref().map(|d| d.version))).collect::<Vec<_>>());
    }
    // At last everything is looked at once more.
    for (i, h) in hs.iter_mut().enumerate() {
        if *h.doc.id() != h.id {
            return Err(format!("{}: at last d{i} identifies itself as {}", script.join(" "), h.doc.id()));
        }
        access(h, &repo, false).map_err(|e| format!("{}: at last, d{i}: {e}", script.join(" ")))?;
        access(h, &repo, true).map_err(|e| format!("{}: at last, d{i}: {e}", script.join(" ")))?;
        access(h, &repo, false).map_err(|e| format!("{}: at last, d{i}: {e}", script.join(" ")))?;
    }
    ch.log(|| script.join(" "));
    st.outcome(&repo.asked.borrow().clone());
    Ok(())
}

/// Lazy documents as the nodes of a graph and a schema.
fn in_graph(len: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let repo = Arc::new(Repo::default());
    let build = Lazy::builder(repo.clone());
    *repo.answer.borrow_mut() = true;
    let init = ch.pick(4);
    let mut g = Graph::default();
    let mut there = [false; 2];
    let mut loaded: [Option<u32>; 2] = [None; 2];
    for i in 0..2 {
        if init >> i & 1 == 1 {
            g.insert(build(IDS[i].into()));
            there[i] = true;
        }
    }
    let schema: Schema<Lazy> = g.into();
    let mut script = vec![];
    for k in 0..len {
        let i = ch.pick(2);
        let id = IDS[i].to_string();
        let before = repo.asked.borrow().len();
        let mut expect = 0;
        ch.step();
        match ch.pick(8) {
            0 => {
                script.push(format!("save({id})"));
                Save::new(build(id)).execute(schema.transaction()).map_err(|e| e.to_string())?;
                there[i] = true;
                loaded[i] = None;
            }
            1 => {
                script.push(format!("save-content({id})"));
                let d = Doc { id, version: 500 + k as u32 };
                Save::new(Lazy::new(repo.clone(), d)).execute(schema.transaction()).map_err(|e| e.to_string())?;
                there[i] = true;
                loaded[i] = Some(500 + k as u32);
            }
            2 => {
                script.push(format!("delete({id})"));
                let _ = Delete::<Lazy>::new(id).execute(schema.transaction());
                there[i] = false;
                loaded[i] = None;
            }
            3 => {
                script.push("list".to_string());
                let n: Vec<String> = schema.read().into_iter().map(|d| d.id().clone()).collect();
                if n.len() != there.iter().filter(|t| **t).count() {
                    return Err(format!("{}: {n:?}", script.join(" ")));
                }
            }
            4 => {
                script.push(format!("look-up({id})"));
                let g = schema.read();
                if g.contains(&id) != there[i] || g.get(&id).is_some() != there[i] || g.node(id).try_deref().is_some() != there[i] {
                    return Err(format!("{}: wrong answer", script.join(" ")));
                }
            }
            5 => {
                // Loading a copy leaves the one in the graph alone.
                script.push(format!("load-copy({id})"));
                let c = schema.read().get(&id);
                if let Some(c) = c {
                    let got = c.try_deref().map(|d| d.version);
                    expect = loaded[i].is_none() as usize;
                    if got.is_none() || loaded[i].is_some() && got != loaded[i] {
                        return Err(format!("{}: loaded {got:?}, expected {:?}", script.join(" "), loaded[i]));
                    }
                }
            }
            6 => {
                // Loading the one in the graph.
                script.push(format!("load({id})"));
                let g = schema.read();
                for d in &*g {
                    if *d.id() == id {
                        let got = d.try_deref().map(|d| d.version);
                        expect = loaded[i].is_none() as usize;
                        if loaded[i].is_some() && got != loaded[i] {
                            return Err(format!("{}: loaded {got:?}, expected {:?}", script.join(" "), loaded[i]));
                        }
                        loaded[i] = got;
                    }
                }
            }
            _ => {
                script.push(format!("transaction({id})"));
                let _ = schema.transaction().with(|ctx| {
                    let n = ctx.node(id.clone());
                    let c = ctx.get(&id);
                    ctx.save(build("other".into()));
                    let _ = (n.is_virtual(), n.try_deref().is_some(), c.map(|c| c.id().clone()));
                    Result::<(), Error>::Err(Error::Noop)
                });
            }
        }
        let asked = repo.asked.borrow().len() - before;
        if asked != expect {
            return Err(format!("{}: asked the repository {asked} times, expected {expect}", script.join(" ")));
        }
        if expect == 1 && repo.asked.borrow().last().map(|s| s.as_str()) != Some(IDS[i]) {
            return Err(format!("{}: asked for {:?}", script.join(" "), repo.asked.borrow().last()));
        }
        st.state(&(there, loaded));
    }
    ch.log(|| script.join(" "));
    st.outcome(&repo.asked.borrow().clone());
    Ok(())
}

/// Many absent answers before the document appears, many clones of clones.
fn long(n: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let repo = Arc::new(Repo::default());
    let build = Lazy::builder(repo.clone());
    let mut h = H { doc: build("x".into()), id: "x".into(), loaded: None, at: None };
    let clones = ch.flag();
    for k in 0..n {
        access(&mut h, &repo, false).map_err(|e| format!("absent answer {k}: {e}"))?;
        ch.step();
        if clones {
            let doc = h.doc.clone();
            h.doc = doc;
        }
    }
    access(&mut h, &repo, true).map_err(|e| format!("after {n} absent answers: {e}"))?;
    for k in 0..n {
        if clones {
            let doc = h.doc.clone();
            h = H { doc, id: h.id, loaded: h.loaded, at: None };
        }
        access(&mut h, &repo, k % 2 == 0).map_err(|e| format!("access {k} after it was loaded: {e}"))?;
    }
    st.state(&n);
    st.outcome(&repo.asked.borrow().len());
    Ok(())
}

/// Documents whose repository may panic, and may take, clone or list other documents before it
/// answers.
struct Deep {
    asked: RefCell<Vec<usize>>,
    /// The documents, and the version loaded into each.
    docs: RefCell<Vec<Rc<LazyDocument<Deep>>>>,
    loaded: RefCell<Vec<Option<u32>>>,
    /// The accesses going on.
    going: RefCell<Vec<usize>>,
    answered: Cell<u32>,
    wrong: RefCell<Option<String>>,
    script: RefCell<Vec<String>>,
    ch: Cell<*mut Ch>,
    left: Cell<usize>,
}
#[derive(Clone, Debug)]
struct Numbered {
    id: usize,
    version: u32,
}
impl Identify for Numbered {
    type Id = usize;
    fn id(&self) -> &usize {
        &self.id
    }
}
impl Deep {
    fn pick(&self, n: usize) -> usize {
        unsafe { (*self.ch.get()).pick(n) }
    }
    fn wrong(&self, m: impl FnOnce() -> String) {
        self.wrong.borrow_mut().get_or_insert_with(m);
    }
    /// One access; whether it panicked.
    fn access(&self, i: usize) {
        unsafe { (*self.ch.get()).step() };
        let d = self.docs.borrow()[i].clone();
        let had = self.loaded.borrow()[i];
        let asked = self.asked.borrow().iter().filter(|a| **a == i).count();
        let depth = self.going.borrow().len();
        self.script.borrow_mut().push(format!("{}access(d{i})", " ".repeat(depth)));
        self.going.borrow_mut().push(i);
        let r = catch_unwind(AssertUnwindSafe(|| d.try_deref().map(|d| d.version)));
        self.going.borrow_mut().truncate(depth);
        let asked = self.asked.borrow().iter().filter(|a| **a == i).count() - asked;
        if asked != had.is_none() as usize {
            self.wrong(|| format!("an access of d{i} asks for it {asked} times, loaded before: {had:?}"));
        }
        let want = self.loaded.borrow()[i];
        match r {
            Ok(got) if got == want => {}
            Err(_) if had.is_none() && want.is_none() && self.script.borrow().last().is_some_and(|l| l.ends_with("panic")) => {}
            r => self.wrong(|| format!("an access of d{i} yields {:?}, expected {want:?}", r.map_err(|_| "a panic"))),
        }
    }
    fn clone_of(&self, i: usize) {
        self.script.borrow_mut().push(format!("{}clone(d{i})", " ".repeat(self.going.borrow().len())));
        let d = (*self.docs.borrow()[i]).clone();
        let (v, n) = (self.loaded.borrow()[i], self.asked.borrow().len());
        // An unloaded clone is dropped unseen; a loaded one asks for nothing.
        if v.is_some() && (d.try_deref().map(|d| d.version) != v || self.asked.borrow().len() != n) {
            self.wrong(|| format!("a clone of d{i} does not carry over what was loaded"));
        }
    }
}
impl DocumentRepository for Deep {
    type Document = Numbered;
    fn find_by_id(&self, id: &usize) -> Option<Numbered> {
        self.asked.borrow_mut().push(*id);
        let depth = self.going.borrow().len();
        let say = |m: String| self.script.borrow_mut().push(format!("{}{m}", " ".repeat(depth)));
        if self.going.borrow().last() != Some(id) || self.loaded.borrow()[*id].is_some() {
            self.wrong(|| format!("the repository is asked for d{id} out of turn"));
        }
        // Something else first.
        while self.left.get() > 0 {
            let n = self.docs.borrow().len();
            let c = self.pick(1 + 2 * n);
            if c == 0 {
                break;
            }
            self.left.set(self.left.get() - 1);
            let i = (c - 1) % n;
            match (c - 1) / n {
                0 if !self.going.borrow().contains(&i) => self.access(i),
                0 => {}
                _ => self.clone_of(i),
            }
        }
        match self.pick(3) {
            0 => {
                let version = self.answered.get() + 1;
                self.answered.set(version);
                self.loaded.borrow_mut()[*id] = Some(version);
                say(format!("d{id} is version {version}"));
                Some(Numbered { id: *id, version })
            }
            1 => {
                say(format!("d{id} is absent"));
                None
            }
            _ => {
                say("panic".into());
                engine::inject(1)
            }
        }
    }
}

fn deep((docs, len, inner): &(usize, usize, usize), ch: &mut Ch, st: &mut Stats) -> Verdict {
    let repo = Arc::new(Deep {
        asked: Default::default(),
        docs: Default::default(),
        loaded: RefCell::new(vec![None; *docs]),
        going: Default::default(),
        answered: Cell::new(0),
        wrong: Default::default(),
        script: Default::default(),
        ch: Cell::new(ch as *mut Ch),
        left: Cell::new(0),
    });
    let build = LazyDocument::builder(repo.clone());
    *repo.docs.borrow_mut() = (0..*docs).map(|k| Rc::new(build(k))).collect();
    for _ in 0..*len {
        repo.left.set(*inner);
        match repo.pick(2 * docs) {
            c if c < *docs => repo.access(c),
            c => {
                // The clone takes the place of the document.
                let i = c - docs;
                repo.script.borrow_mut().push(format!("d{i}=clone(d{i})"));
                let d = (*repo.docs.borrow()[i]).clone();
                repo.docs.borrow_mut()[i] = Rc::new(d);
            }
        }
        st.state(&*repo.loaded.borrow());
        if repo.wrong.borrow().is_some() {
            break;
        }
    }
    let script = repo.script.borrow().join("; ");
    st.outcome(&*repo.asked.borrow());
    let wrong = repo.wrong.borrow().clone();
    repo.docs.borrow_mut().clear();
    ch.log(|| script.clone());
    match wrong {
        Some(m) => Err(format!("{script}: {m}")),
        None => Ok(()),
    }
}

pub fn c15(t: Tier) -> Suites {
    let len = t.pick(6, 7);
    let glen = t.pick(5, 6);
    vec![
        suite(
            "histories",
            format!("every sequence of {len} steps over lazy documents of 2 ids: create lazily or with content, access while the repository has or lacks the document, identify, clone, drop; every document provided is another version; repositories whose documents identify themselves as asked, or otherwise"),
            vec![false, true],
            move |odd, ch, st| histories(*odd, len, ch, st),
        ),
        suite(
            "in-schemas",
            format!("every sequence of {glen} steps on a schema of lazy documents of 2 ids: save and delete operations, listing, look-ups, transactions, loading a copy or the stored one; 4 initial graphs"),
            vec![0u8],
            move |_, ch, st| in_graph(glen, ch, st),
        ),
        suite(
            "nested",
            "every sequence of n accesses and clones of d documents whose repository answers each question with a document, that there is none, or a panic, after up to k accesses or clones of other documents".to_string() + t.pick(" (d, n, k: 2, 3, 2; 2, 4, 1; 3, 2, 1)", " (d, n, k: 2, 3, 2; 2, 5, 1; 3, 3, 1; 3, 2, 2)"),
            t.pick(vec![(2, 3, 2), (2, 4, 1), (3, 2, 1)], vec![(2, 3, 2), (2, 5, 1), (3, 3, 1), (3, 2, 2)]),
            deep,
        ),
        suite("long", "n absent answers, then n further accesses, for every n up to 60, through one document or clones of clones", (0..=60usize).collect(), |n, ch, st| long(*n, ch, st)),
    ]
}
