//! C14: lazy documents shared by threads.
use crate::sched::{point, run};
use engine::{suite, Ch, Stats, Suite, Tier, Verdict};
use plotline::deref::TryDeref;
use plotline::document::lazy::LazyDocument;
use plotline::document::DocumentRepository;
use plotline::graph::Graph;
use plotline::id::Identify;
use std::cell::{Cell, UnsafeCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

type Suites = Vec<Box<dyn Suite>>;

#[derive(Clone, Debug)]
struct Doc {
    id: u8,
    version: u32,
    /// Written last, so that a document published too early shows.
    seal: u32,
}
impl Identify for Doc {
    type Id = u8;
    fn id(&self) -> &u8 {
        &self.id
    }
}

/// Only one thread of a group runs at a time.
struct Shared<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}
impl<T> Shared<T> {
    #[allow(clippy::mut_from_ref)]
    fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

thread_local! {
    /// What the repository answered to the access of this thread: asked, provided.
    static ANSWER: Cell<(u32, Option<u32>)> = const { Cell::new((0, None)) };
}

struct Repo {
    /// Whether the n-th question is answered with a document.
    answers: Vec<bool>,
    asked: Shared<u32>,
    wrong_id: Shared<bool>,
}
impl DocumentRepository for Repo {
    type Document = Doc;
    fn find_by_id(&self, id: &u8) -> Option<Doc> {
        point();
        let n = self.asked.get();
        let k = *n as usize;
        *n += 1;
        if *id != 7 {
            *self.wrong_id.get() = true;
        }
        let yes = self.answers.get(k).copied().unwrap_or(true);
        let v = yes.then_some(100 + k as u32);
        ANSWER.with(|a| a.set((a.get().0 + 1, v)));
        point();
        v.map(|version| Doc { id: *id, version, seal: version ^ 0xabcd })
    }
}

/// One access of a thread.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Saw {
    doc: Option<(u32, bool, usize)>,
    asked: u32,
    provided: Option<u32>,
}

#[derive(Clone, Debug)]
struct Case {
    threads: usize,
    accesses: usize,
    /// A clone is taken by one thread while others access.
    cloner: bool,
    budget: usize,
}

fn look(d: &LazyDocument<Repo>) -> Saw {
    ANSWER.with(|a| a.set((0, None)));
    let doc = d.try_deref().map(|d| (d.version, d.seal == d.version ^ 0xabcd && d.id == 7, d as *const Doc as usize));
    let (asked, provided) = ANSWER.with(|a| a.get());
    Saw { doc, asked, provided }
}

fn one(c: &Case, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let questions = (c.threads * c.accesses).min(4);
    let answers: Vec<bool> = (0..questions).map(|_| !ch.flag()).collect();
    ch.log(|| format!("{c:?}, the repository answers {answers:?}"));
    let repo = Arc::new(Repo { answers: answers.clone(), asked: Shared(UnsafeCell::new(0)), wrong_id: Shared(UnsafeCell::new(false)) });
    let doc = LazyDocument::builder(repo.clone())(7);
    let saw: Vec<Shared<Vec<Saw>>> = (0..c.threads).map(|_| Shared(UnsafeCell::new(vec![]))).collect();
    let order: Shared<Vec<(usize, Saw)>> = Shared(UnsafeCell::new(vec![]));
    let cloned: Shared<Vec<Saw>> = Shared(UnsafeCell::new(vec![]));
    let mut jobs: Vec<Box<dyn FnOnce() + '_>> = vec![];
    for t in 0..c.threads {
        let (doc, saw, order) = (&doc, &saw[t], &order);
        let n = c.accesses;
        jobs.push(Box::new(move || {
            for _ in 0..n {
                let s = look(doc);
                saw.get().push(s.clone());
                order.get().push((t, s));
                point();
            }
        }));
    }
    if c.cloner {
        let (doc, cloned) = (&doc, &cloned);
        jobs.push(Box::new(move || {
            let d = doc.clone();
            point();
            cloned.get().push(look(&d));
            cloned.get().push(look(&d));
        }));
    }
    let what = || format!("{c:?}, answers {answers:?}: completed accesses in order {:?}", order.get());
    let ran = run(ch, c.budget, jobs).map_err(|e| format!("{}; {e}", what()))?;
    ch.steps(ran.points);
    ch.log(|| format!("{:?}; {} points, {} preemptions, {} waits", order.get(), ran.points, ran.preemptions, ran.waits));
    if *repo.wrong_id.get() {
        return Err(format!("{}; the repository was asked for another id", what()));
    }
    let mut copy: Option<(u32, usize)> = None;
    for (t, s) in order.get().iter() {
        match s.doc {
            Some((v, sound, at)) => {
                if !sound || v < 100 || !answers.get(v as usize - 100).copied().unwrap_or(true) {
                    return Err(format!("{}; thread {t} got a document that was never provided", what()));
                }
                if copy.is_some_and(|c| c != (v, at)) {
                    return Err(format!("{}; two copies of the document", what()));
                }
                copy = Some((v, at));
            }
            None => {
                if s.asked == 0 || s.provided.is_some() {
                    return Err(format!("{}; thread {t} was told the document is absent, the repository answered {:?} to it", what(), s.provided));
                }
            }
        }
    }
    // Once an access completed with the document, every access that begins later has it without
    // asking; in particular all those made now.
    let last = look(&doc);
    if let Some((v, at)) = copy {
        if last.doc.map(|d| (d.0, d.2)) != Some((v, at)) || last.asked != 0 {
            return Err(format!("{}; a later access sees {last:?}", what()));
        }
    }
    for t in 0..c.threads {
        let mut had = false;
        for s in saw[t].get().iter() {
            if had && (s.asked != 0 || s.doc.is_none()) {
                return Err(format!("{}; thread {t} had the document and asked again", what()));
            }
            had |= s.doc.is_some();
        }
    }
    if c.cloner {
        let k = cloned.get();
        let bad = |s: &Saw| match s.doc {
            Some((v, sound, _)) => !sound || s.asked > 0 && s.provided != Some(v),
            None => s.asked == 0 || s.provided.is_some(),
        };
        if k.iter().any(bad) || k[0].doc.is_some() && (k[1].doc != k[0].doc || k[1].asked > 0) {
            return Err(format!("{}; the clone saw {k:?}", what()));
        }
    }
    // Only what does not depend on addresses.
    let view = |s: &Saw| (s.doc.map(|d| d.0), s.asked, s.provided);
    let out: Vec<_> = order.get().iter().map(|(t, s)| (*t, view(s))).collect();
    st.state(&(&answers, &out, ran.waits));
    st.outcome(&(out, cloned.get().iter().map(view).collect::<Vec<_>>()));
    Ok(())
}

/// How the repository takes a question.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Answer {
    Document,
    Absent,
    Panic,
}

/// Several documents of one repository. Its answers may be panics, and providing a document may
/// take another one (`link`: document 0 takes document 1).
#[derive(Clone, Debug)]
struct Many {
    /// What each thread accesses.
    plans: Vec<Vec<usize>>,
    kinds: &'static [Answer],
    questions: usize,
    link: bool,
    /// Whether the documents are nodes of a graph.
    graph: bool,
    budget: usize,
}

struct Repos {
    answers: Vec<Answer>,
    asked: Shared<usize>,
    other: Shared<Option<*const LazyDocument<Repos>>>,
    log: Shared<Vec<(usize, Seen)>>,
    wrong: Shared<bool>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Seen {
    doc: Option<(u32, bool, usize)>,
    panicked: bool,
    /// The questions asked, and the last one's answer.
    asked: u32,
    answer: Option<(Answer, u32)>,
}
thread_local! {
    /// The access going on: the document, how often it was asked for, the last answer.
    static ACCESS: Cell<(usize, u32, Option<(Answer, u32)>)> = const { Cell::new((9, 0, None)) };
}
impl DocumentRepository for Repos {
    type Document = Doc;
    fn find_by_id(&self, id: &u8) -> Option<Doc> {
        point();
        let k = *self.asked.get();
        *self.asked.get() += 1;
        let a = self.answers.get(k).copied().unwrap_or(Answer::Document);
        let v = 100 + k as u32;
        let (doc, n, _) = ACCESS.get();
        if doc != *id as usize {
            *self.wrong.get() = true;
        }
        ACCESS.set((doc, n + 1, Some((a, v))));
        if let (0, Some(d)) = (doc, *self.other.get()) {
            let seen = see(unsafe { &*d }, 1);
            self.log.get().push((1, seen));
        }
        point();
        match a {
            Answer::Document => Some(Doc { id: *id, version: v, seal: v ^ 0xabcd }),
            Answer::Absent => None,
            Answer::Panic => engine::inject(1),
        }
    }
}

fn see(d: &LazyDocument<Repos>, k: usize) -> Seen {
    let outer = ACCESS.replace((k, 0, None));
    let r = catch_unwind(AssertUnwindSafe(|| d.try_deref().map(|d| (d.version, d.seal == d.version ^ 0xabcd && d.id == k as u8, d as *const Doc as usize))));
    let (_, asked, answer) = ACCESS.replace(outer);
    Seen { panicked: r.is_err(), doc: r.unwrap_or(None), asked, answer }
}

fn many(c: &Many, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let answers: Vec<Answer> = (0..c.questions).map(|_| *ch.of(c.kinds)).collect();
    ch.log(|| format!("{c:?}, the repository answers {answers:?}"));
    let repo = Arc::new(Repos { answers: answers.clone(), asked: Shared(UnsafeCell::new(0)), other: Shared(UnsafeCell::new(None)), log: Shared(UnsafeCell::new(vec![])), wrong: Shared(UnsafeCell::new(false)) });
    let build = LazyDocument::builder(repo.clone());
    let loose = [build(0), build(1)];
    let graph = Graph::from_iter([build(0), build(1)]);
    let docs: Vec<&LazyDocument<Repos>> = if c.graph { (&graph).into_iter().collect() } else { loose.iter().collect() };
    if c.link {
        *repo.other.get() = Some(docs[1]);
    }
    let per: Vec<Shared<Vec<(usize, Seen)>>> = c.plans.iter().map(|_| Shared(UnsafeCell::new(vec![]))).collect();
    let mut jobs: Vec<Box<dyn FnOnce() + '_>> = vec![];
    for (plan, per) in c.plans.iter().zip(&per) {
        let (docs, log) = (&docs, &repo.log);
        jobs.push(Box::new(move || {
            for k in plan {
                let s = see(docs[*k], *k);
                per.get().push((*k, s.clone()));
                log.get().push((*k, s));
                point();
            }
        }));
    }
    let what = || format!("{c:?}, answers {answers:?}: completed accesses in order {:?}", repo.log.get());
    let ran = run(ch, c.budget, jobs).map_err(|e| format!("{}; {e}", what()))?;
    ch.steps(ran.points);
    ch.log(|| format!("{:?}; {} points, {} preemptions, {} waits", repo.log.get(), ran.points, ran.preemptions, ran.waits));
    if *repo.wrong.get() {
        return Err(format!("{}; the repository was asked for another id", what()));
    }
    for k in [0, 1] {
        let mut copy: Option<(u32, usize)> = None;
        for (_, s) in repo.log.get().iter().filter(|l| l.0 == k) {
            match s.doc {
                _ if s.panicked => {
                    if !matches!(s.answer, Some((Answer::Panic, _))) {
                        return Err(format!("{}; an access of document {k} panicked, but not in the repository", what()));
                    }
                }
                Some((v, sound, at)) => {
                    if !sound || v < 100 || answers.get(v as usize - 100).is_some_and(|a| *a != Answer::Document) {
                        return Err(format!("{}; an access of document {k} got a document that was never provided", what()));
                    }
                    if copy.is_some_and(|c| c != (v, at)) {
                        return Err(format!("{}; two copies of document {k}", what()));
                    }
                    copy = Some((v, at));
                }
                None => {
                    if !matches!(s.answer, Some((Answer::Absent, _))) {
                        return Err(format!("{}; an access was told document {k} is absent, the repository answered {:?} to it", what(), s.answer));
                    }
                }
            }
        }
        for per in &per {
            let mut had = false;
            for (_, s) in per.get().iter().filter(|p| p.0 == k) {
                if had && (s.asked != 0 || s.doc.is_none()) {
                    return Err(format!("{}; a thread had document {k} and asked again", what()));
                }
                had |= s.doc.is_some();
            }
        }
        // What comes after the panics.
        let before = *repo.asked.get();
        let last = see(docs[k], k);
        let fine = match (copy, last.doc) {
            (Some(c), Some(d)) => c == (d.0, d.2) && last.asked == 0 && *repo.asked.get() == before,
            (Some(_), None) => false,
            (None, Some(_)) => last.asked == 1,
            (None, None) => last.panicked || matches!(last.answer, Some((Answer::Absent, _))),
        };
        if !fine {
            return Err(format!("{}; a later access of document {k} sees {last:?}", what()));
        }
    }
    let out: Vec<_> = repo.log.get().iter().map(|(k, s)| (*k, s.doc.map(|d| d.0), s.panicked, s.asked)).collect();
    st.state(&(&answers, &out, ran.waits));
    st.outcome(&out);
    Ok(())
}

fn more(t: Tier) -> Suites {
    const YES: &[Answer] = &[Answer::Document, Answer::Absent];
    const ALL: &[Answer] = &[Answer::Document, Answer::Absent, Answer::Panic];
    let mut out: Suites = vec![];
    let plans2: Vec<Vec<Vec<usize>>> = {
        let seqs: Vec<Vec<usize>> = vec![vec![0, 1], vec![1, 0], vec![0, 0], vec![1, 1]];
        let mut v = vec![];
        for (i, a) in seqs.iter().enumerate() {
            for b in &seqs[i..] {
                v.push(vec![a.clone(), b.clone()]);
            }
        }
        v
    };
    let case = |plans: Vec<Vec<usize>>, kinds, questions, link, graph, budget| Many { plans, kinds, questions, link, graph, budget };
    let b = t.pick(3, 5);
    out.push(suite(
        "panicking-repository",
        format!("2 threads accessing one document once under every interleaving, twice with at most {} preemptions, 3 threads once with at most {b}; the repository answers each of the first 3 questions with a document, that there is none, or a panic", b + 1),
        vec![
            case(vec![vec![1]; 2], ALL, 2, false, false, 99),
            case(vec![vec![1, 1]; 2], ALL, 3, false, false, b + 1),
            case(vec![vec![1]; 3], ALL, 3, false, false, b),
        ],
        many,
    ));
    out.push(suite(
        "two-documents",
        format!("2 threads with 2 accesses each of two documents of one repository, all plans, and 3 threads with one, for every pattern of answers to the first 3 questions; every interleaving with at most {b} preemptions"),
        plans2.iter().map(|p| case(p.clone(), YES, 3, false, false, b)).chain([vec![0, 0, 1], vec![0, 1, 1]].map(|p| case(p.into_iter().map(|k| vec![k]).collect(), YES, 3, false, false, b))).collect(),
        many,
    ));
    out.push(suite(
        "linked-documents",
        format!("the same, and one thread or two with one access, where providing the first document takes the second one; every interleaving with at most {} preemptions", b),
        plans2
            .iter()
            .cloned()
            .chain([vec![vec![0], vec![0]], vec![vec![0], vec![1]], vec![vec![0], vec![0], vec![1]]])
            .map(|p| case(p, ALL, 2, true, false, b))
            .collect(),
        many,
    ));
    out.push(suite(
        "in-a-graph",
        format!("2 threads with 2 accesses each of two documents that are nodes of one graph, all plans; every interleaving with at most {b} preemptions"),
        plans2.iter().map(|p| case(p.clone(), YES, 2, false, true, b)).collect(),
        many,
    ));
    out
}

pub fn c14(t: Tier) -> Suites {
    let cases = t.pick(
        vec![(2, 1, false, 99), (2, 2, false, 4), (2, 3, false, 3), (3, 1, false, 3), (3, 2, false, 2), (3, 3, false, 1), (4, 1, false, 2), (2, 1, true, 4), (2, 2, true, 2), (3, 1, true, 2)],
        vec![(2, 1, false, 99), (2, 2, false, 7), (2, 3, false, 6), (3, 1, false, 6), (3, 2, false, 4), (3, 3, false, 3), (4, 1, false, 4), (2, 1, true, 5), (2, 2, true, 4), (3, 1, true, 3)],
    );
    cases
        .into_iter()
        .map(|(threads, accesses, cloner, budget)| {
            let pre = if budget == 99 { "every interleaving".to_string() } else { format!("every interleaving with at most {budget} preemptions") };
            suite(
                &format!("{threads}-threads-x{accesses}{}", if cloner { "-cloned" } else { "" }),
                format!(
                    "{threads} threads accessing one lazy document {accesses} times each{}, for every pattern of answers of the repository (to the first {} questions), under {pre}",
                    if cloner { " and another thread cloning it and accessing the clone" } else { "" },
                    (threads * accesses).min(4)
                ),
                vec![Case { threads, accesses, cloner, budget }],
                one,
            )
        })
        .chain(more(t))
        .collect()
}
