//! C23: the index of the interval plugin compared with the intervals of the graph's nodes.
use engine::{known_finding, suite, Ch, Prop, Stats, Suite, Tier, Verdict};
use plotline::deref::WithMut;
use plotline::graph::{Graph, Source};
use plotline::id::Identify;
use plotline::property::Extractor;
use plotline::schema::ops::delete::{AfterDelete, BeforeDelete, Delete};
use plotline::schema::ops::save::{AfterSave, BeforeSave, Save};
use plotline::schema::transaction::{Ctx, Target, Transaction};
use plotline::schema::Schema;
use plotline_plugin_interval::{overlapping, Interval, IntervalPlugin};
use std::collections::BTreeMap;
use std::fmt::Debug;

type Suites = Vec<Box<dyn Suite>>;

/// Intervals of two types.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Iv<const K: usize> {
    lo: u8,
    hi: u8,
}
impl<const K: usize> Interval for Iv<K> {
    type Bound = u8;
    fn lo(&self) -> u8 {
        self.lo
    }
    fn hi(&self) -> u8 {
        self.hi
    }
}

trait IdT: Clone + Ord + Debug + 'static {
    fn mk(i: u8) -> Self;
}
impl IdT for u8 {
    fn mk(i: u8) -> Self {
        i
    }
}
impl IdT for String {
    fn mk(i: u8) -> Self {
        "x".repeat(i as usize)
    }
}

/// A node: its bounds, as they are for the first type of intervals, mirrored for the second.
#[derive(Clone, Debug)]
struct Node<I> {
    id: I,
    spans: Vec<(u8, u8)>,
}
impl<I> Identify for Node<I> {
    type Id = I;
    fn id(&self) -> &I {
        &self.id
    }
}
const TOP: u8 = 4;
fn spans_of<const K: usize>(s: &[(u8, u8)]) -> Vec<Iv<K>> {
    s.iter()
        .map(|(lo, hi)| if K == 0 { Iv { lo: *lo, hi: *hi } } else { Iv { lo: TOP - hi, hi: TOP - lo } })
        .collect()
}
struct Ext<const K: usize>;
impl<I, const K: usize> Extractor<Node<I>> for Ext<K> {
    type Target = Iv<K>;
    fn all(&self, n: &Node<I>) -> Vec<Iv<K>> {
        spans_of(&n.spans)
    }
}

const LISTS: &[&[(u8, u8)]] = &[&[(1, 2)], &[], &[(2, 4)], &[(1, 2), (3, 3)], &[(2, 2), (2, 2)], &[(0, 4)]];

/// What a trigger besides the plugin's does.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Extra {
    None,
    /// Before a save, gives the node other intervals.
    Edit,
    /// After a save of node 0, saves node 2 (or 1), in an operation of its own.
    SaveOther,
    /// After a save of node 0, deletes node 1.
    DeleteOther,
    /// Before a deletion of node 0, deletes node 1.
    DeleteFirst,
    /// Looks at the target after an operation.
    Look,
    /// Changes the target of a save after it was stored, or that of a deletion before or after it
    /// happens: of no consequence for the graph.
    EditStored,
    EditDoomed,
    EditDeleted,
    /// Panics with the target in its hands, but lets nobody know; at the same places.
    PoisonStored,
    PoisonDoomed,
    PoisonDeleted,
}
const EXTRAS: [Extra; 12] = [Extra::None, Extra::Edit, Extra::SaveOther, Extra::DeleteOther, Extra::DeleteFirst, Extra::Look, Extra::EditStored, Extra::EditDoomed, Extra::EditDeleted, Extra::PoisonStored, Extra::PoisonDoomed, Extra::PoisonDeleted];
const EDITED: &[(u8, u8)] = &[(3, 4), (0, 0)];

fn with_extra<I: IdT>(s: Schema<Node<I>>, e: Extra) -> Schema<Node<I>> {
    fn edit<I: IdT>(_: Ctx<Node<I>>, t: Target<Node<I>>) -> plotline::schema::Result<()> {
        t.with_mut(|n: &mut Node<I>| n.spans = EDITED.to_vec());
        Ok(())
    }
    fn poison<I: IdT>(_: Ctx<Node<I>>, t: Target<Node<I>>) -> plotline::schema::Result<()> {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.with_mut(|_: &mut Node<I>| engine::inject(1))));
        Ok(())
    }
    match e {
        Extra::None => s,
        Extra::PoisonStored => s.with_trigger(AfterSave, poison::<I>),
        Extra::PoisonDoomed => s.with_trigger(BeforeDelete, poison::<I>),
        Extra::PoisonDeleted => s.with_trigger(AfterDelete, poison::<I>),
        Extra::EditStored => s.with_trigger(AfterSave, edit::<I>),
        Extra::EditDoomed => s.with_trigger(BeforeDelete, edit::<I>),
        Extra::EditDeleted => s.with_trigger(AfterDelete, edit::<I>),
        Extra::Edit => s.with_trigger(BeforeSave, |_: Ctx<Node<I>>, t: Target<Node<I>>| {
            t.with_mut(|n: &mut Node<I>| n.spans = EDITED.to_vec());
            Ok(())
        }),
        Extra::SaveOther => s.with_trigger(AfterSave, |c: Ctx<Node<I>>, t: Target<Node<I>>| {
            if is(&t, 0) {
                Save::new(Node { id: I::mk(2), spans: vec![(1, 1), (0, 3)] }).execute(c.transaction())?;
            }
            Ok(())
        }),
        Extra::DeleteOther => s.with_trigger(AfterSave, |c: Ctx<Node<I>>, t: Target<Node<I>>| {
            if is(&t, 0) {
                let _ = Delete::new(I::mk(1)).execute(c.transaction());
            }
            Ok(())
        }),
        Extra::DeleteFirst => s.with_trigger(BeforeDelete, |c: Ctx<Node<I>>, t: Target<Node<I>>| {
            if is(&t, 0) {
                let _ = Delete::new(I::mk(1)).execute(c.transaction());
            }
            Ok(())
        }),
        Extra::Look => s
            .with_trigger(AfterSave, |_: Ctx<Node<I>>, t: Target<Node<I>>| {
                is(&t, 0);
                Ok(())
            })
            .with_trigger(AfterDelete, |_: Ctx<Node<I>>, t: Target<Node<I>>| {
                is(&t, 0);
                Ok(())
            }),
    }
}
fn is<I: IdT>(t: &Target<Node<I>>, i: u8) -> bool {
    use plotline::deref::With;
    t.with(|n: &Node<I>| n.id == I::mk(i)).unwrap_or(false)
}

#[derive(Clone, Debug)]
enum Op {
    Save(u8, Vec<(u8, u8)>),
    Del(u8),
}

type Spans = Vec<(u8, u8)>;

/// The reference: the graph's nodes, and what an index that keeps overwritten intervals holds.
#[derive(Default, Clone, Hash)]
struct Model {
    nodes: BTreeMap<u8, Spans>,
    keeping: BTreeMap<(u8, (u8, u8)), i32>,
}
impl Model {
    /// `seen` is what the plugin's trigger finds in the target.
    fn save(&mut self, id: u8, spans: &[(u8, u8)], seen: &[(u8, u8)]) {
        self.nodes.insert(id, spans.to_vec());
        for s in seen {
            *self.keeping.entry((id, *s)).or_default() += 1;
        }
    }
    fn del(&mut self, id: u8, seen: Option<&[(u8, u8)]>) -> bool {
        let Some(spans) = self.nodes.remove(&id) else { return false };
        for s in seen.unwrap_or(&spans) {
            if let Some(n) = self.keeping.get_mut(&(id, *s)) {
                *n = (*n - 1).max(0);
            }
        }
        true
    }
    /// `did` is what the operation reported.
    fn op(&mut self, op: &Op, extra: Extra, first: bool, did: bool) -> bool {
        // An operation whose target is beyond reach for the plugin may fail, which changes nothing.
        let (saved, deleted) = match extra {
            Extra::PoisonStored => (first, false),
            Extra::PoisonDoomed => (false, true),
            Extra::PoisonDeleted => (false, first),
            _ => (false, false),
        };
        if !did && if let Op::Save(..) = op { saved } else { deleted } {
            return false;
        }
        let doomed = (extra == Extra::EditDoomed || extra == Extra::EditDeleted && first).then_some(EDITED);
        match op {
            Op::Save(id, spans) => {
                let spans = if extra == Extra::Edit { EDITED } else { spans };
                self.save(*id, spans, if extra == Extra::EditStored && first { EDITED } else { spans });
                match extra {
                    Extra::SaveOther if *id == 0 => self.save(2, &[(1, 1), (0, 3)], &[(1, 1), (0, 3)]),
                    Extra::DeleteOther if *id == 0 => {
                        self.del(1, None);
                    }
                    _ => {}
                }
                true
            }
            Op::Del(id) => {
                if self.nodes.contains_key(id) && extra == Extra::DeleteFirst && *id == 0 {
                    self.del(1, None);
                }
                self.del(*id, doomed)
            }
        }
    }
    fn ideal(&self) -> Vec<(u8, (u8, u8))> {
        self.nodes.iter().flat_map(|(i, s)| s.iter().map(|s| (*i, *s))).collect::<Vec<_>>()
    }
    fn kept(&self) -> Vec<(u8, (u8, u8))> {
        self.keeping.iter().flat_map(|(k, n)| std::iter::repeat(*k).take((*n).max(0) as usize)).collect()
    }
}

/// All intervals overlapping a query, by definition.
fn naive<I: IdT, const K: usize>(all: &[(u8, (u8, u8))], lo: u8, hi: u8) -> Vec<(I, Iv<K>)> {
    let mut v: Vec<(I, Iv<K>)> = all
        .iter()
        .map(|(i, s)| (I::mk(*i), spans_of::<K>(&[*s])[0]))
        .filter(|(_, s)| s.lo <= hi && lo <= s.hi)
        .collect();
    v.sort();
    v
}

fn compare<I: IdT, const K: usize>(s: &Schema<Node<I>>, m: &Model, extra: Extra) -> Verdict {
    let look = |lo, hi| -> Result<(bool, Vec<(I, Iv<K>)>), String> {
        let (any, mut v) = overlapping::<I, Iv<K>>(s.resources(), I::mk(9), Iv { lo, hi }).ok_or("there is no index")?;
        v.sort();
        Ok((any, v))
    };
    let whole = look(0, TOP)?.1;
    let finding = match extra {
        Extra::EditStored | Extra::EditDoomed | Extra::EditDeleted => "target-edited-later",
        _ => "overwritten-intervals-stay",
    };
    let ideal = m.ideal();
    let mut all = &ideal;
    let kept = m.kept();
    if whole != naive::<I, K>(&ideal, 0, TOP) {
        if whole == naive::<I, K>(&kept, 0, TOP) && known_finding("C23", finding) {
            all = &kept;
        } else {
            return Err(format!("the index holds {whole:?}, the graph's intervals are {:?}", naive::<I, K>(&ideal, 0, TOP)));
        }
    }
    for lo in 0..=TOP {
        for hi in lo..=TOP {
            let want = naive::<I, K>(all, lo, hi);
            let (any, got) = look(lo, hi)?;
            if got != want || any == want.is_empty() {
                return Err(format!("asked for [{lo},{hi}] the index yields {got:?} (any: {any}), expected {want:?}"));
            }
        }
    }
    Ok(())
}

/// How operations are grouped: each on the schema, or several in a transaction, or those in a
/// sub-transaction of it.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Group {
    Alone,
    Tx,
    Nested,
}

fn perform<I: IdT>(op: &Op, tx: impl Transaction<Target = Node<I>>) -> bool {
    match op {
        Op::Save(id, spans) => Save::new(Node { id: I::mk(*id), spans: spans.clone() }).execute(tx).is_ok(),
        Op::Del(id) => Delete::new(I::mk(*id)).execute(tx).is_ok(),
    }
}

struct Setup {
    both: bool,
    extra: Extra,
    extra_first: bool,
    compare_all: bool,
    /// After which groups the index is queried, besides the last one.
    looks: u32,
}

fn history<I: IdT>(set: &Setup, groups: &[(Group, Vec<Op>)], ch: &mut Ch, st: &mut Stats) -> Verdict {
    let mut s: Schema<Node<I>> = Graph::default().into();
    if set.extra_first {
        s = with_extra(s, set.extra);
    }
    s = s.install(IntervalPlugin::from(Ext::<0>));
    if set.both {
        s = s.install(IntervalPlugin::from(Ext::<1>));
    }
    if !set.extra_first {
        s = with_extra(s, set.extra);
    }
    let mut m = Model::default();
    let what = || format!("trigger {:?}{}; {groups:?}", set.extra, if set.extra_first { " before the plugin" } else { "" });
    ch.log(what);
    for (k, (g, ops)) in groups.iter().enumerate() {
        let mut did = vec![];
        match g {
            Group::Alone => {
                for op in ops {
                    did.push(perform(op, s.transaction()));
                }
            }
            Group::Tx => s
                .transaction()
                .with(|c| {
                    did.extend(ops.iter().map(|op| perform(op, c.transaction())));
                    Ok(())
                })
                .map_err(|e| e.to_string())?,
            Group::Nested => s
                .transaction()
                .with(|c| {
                    c.transaction().with(|c| {
                        did.extend(ops.iter().map(|op| perform(op, c.transaction())));
                        Ok(())
                    })
                })
                .map_err(|e| e.to_string())?,
        }
        for (op, did) in ops.iter().zip(did) {
            ch.step();
            if m.op(op, set.extra, set.extra_first, did) != did {
                return Err(format!("{}: {op:?} in group {k} reports {did}", what()));
            }
            st.state(&m);
        }
        if set.compare_all || k + 1 == groups.len() || set.looks >> k & 1 != 0 {
            let ids: Vec<bool> = (0..4).map(|i| s.read().contains(&I::mk(i))).collect();
            if (0..4).any(|i| ids[i as usize] != m.nodes.contains_key(&i)) {
                return Err(format!("{}: after group {k} the graph is not as expected", what()));
            }
            compare::<I, 0>(&s, &m, set.extra).map_err(|e| format!("{}: after group {k}: {e}", what()))?;
            if set.both {
                compare::<I, 1>(&s, &m, set.extra).map_err(|e| format!("{}: after group {k}, second index: {e}", what()))?;
            }
        }
    }
    st.outcome(&m);
    Ok(())
}

fn op(ch: &mut Ch, ids: usize, lists: usize) -> Op {
    let id = ch.pick(ids) as u8;
    match ch.pick(lists + 1) {
        0 => Op::Del(id),
        k => Op::Save(id, LISTS[k - 1].to_vec()),
    }
}

fn c23(t: Tier) -> Suites {
    let len = t.pick(6, 7);
    let glen = t.pick(4, 5);
    let tlen = t.pick(5, 6);
    let big = t.pick(100, 250);
    let wide = t.pick(300, 1100);
    vec![
        suite(
            "histories",
            format!("every history of {len} saves and deletes of 2 ids with 4 lists of intervals, and of {} with 3 ids and 6 lists; the index queried for all bounds after every operation; 2 types of ids", t.pick(4, 5)),
            (0..4usize).collect(),
            move |root, ch, st| {
                let set = Setup { both: false, extra: Extra::None, extra_first: false, compare_all: true, looks: 0 };
                let (n, ids, lists) = if root & 1 == 0 { (len, 2, 4) } else { (t.pick(4, 5), 3, 6) };
                let groups: Vec<_> = (0..n).map(|_| (Group::Alone, vec![op(ch, ids, lists)])).collect();
                if root & 2 == 0 {
                    history::<u8>(&set, &groups, ch, st)
                } else {
                    history::<String>(&set, &groups, ch, st)
                }
            },
        ),
        suite(
            "transactions",
            format!("every history of up to {glen} saves and deletes of 2 ids with 3 lists, in every grouping into transactions and sub-transactions; two plugins with different types of intervals"),
            vec![0u8],
            move |_, ch, st| {
                let set = Setup { both: true, extra: Extra::None, extra_first: false, compare_all: false, looks: 0 };
                let mut groups: Vec<(Group, Vec<Op>)> = vec![];
                for k in 0..glen {
                    let g = if k > 0 && ch.flag() { None } else { Some([Group::Alone, Group::Tx, Group::Nested][ch.pick(3)]) };
                    let o = op(ch, 2, 3);
                    match g {
                        None => groups.last_mut().expect("harness: group").1.push(o),
                        Some(g) => groups.push((g, vec![o])),
                    }
                }
                history::<u8>(&set, &groups, ch, st)
            },
        ),
        suite(
            "looks-by-choice",
            format!("every history of {tlen} saves and deletes of 2 ids with 3 lists, alone or (the first two and the last two) in transactions, the index queried or not after each"),
            (0..2usize).collect(),
            move |root, ch, st| {
                let mut groups: Vec<_> = (0..tlen).map(|_| (Group::Alone, vec![op(ch, 2, 3)])).collect();
                if *root == 1 {
                    let last = groups.remove(tlen - 1).1[0].clone();
                    groups[tlen - 2] = (Group::Tx, vec![groups[tlen - 2].1[0].clone(), last]);
                    let second = groups.remove(1).1[0].clone();
                    groups[0] = (Group::Tx, vec![groups[0].1[0].clone(), second]);
                }
                let looks = ch.pick(1 << (groups.len() - 1)) as u32;
                let set = Setup { both: false, extra: Extra::None, extra_first: false, compare_all: false, looks };
                history::<u8>(&set, &groups, ch, st)
            },
        ),
        suite(
            "other-triggers",
            format!("every history of {tlen} saves and deletes of 2 ids with 3 lists, next to a trigger (scheduled before or after the plugin's) that edits what is saved, before or after it is stored, edits what is deleted, makes the target inaccessible at those places, or saves or deletes another node"),
            (0..EXTRAS.len() * 2).collect(),
            move |root, ch, st| {
                let set = Setup { both: root % 3 == 0, extra: EXTRAS[root / 2], extra_first: root & 1 == 1, compare_all: true, looks: 0 };
                let groups: Vec<_> = (0..tlen).map(|k| ([Group::Alone, Group::Tx][k % 2], vec![op(ch, 2, 3)])).collect();
                history::<u8>(&set, &groups, ch, st)
            },
        ),
        suite(
            "many-nodes",
            format!("n nodes saved for every n up to {big} in 3 orders with 5 choices of intervals, then deleted in 3 orders, the index queried after every tenth"),
            (0..=big).collect(),
            move |n: &u8, ch, st| {
                let n = *n;
                let (a, l, b) = (ch.pick(3), ch.pick(5), ch.pick(3));
                let order = |how: usize| -> Vec<u8> {
                    let mut v: Vec<u8> = (0..n).collect();
                    match how {
                        0 => {}
                        1 => v.reverse(),
                        _ => v.sort_by_key(|i| (i % 3, i % 7, *i)),
                    }
                    v
                };
                let list = |i: u8| LISTS[match l { 0 => 0, 1 => i as usize % LISTS.len(), 2 => 4, 3 => 3, _ => (i as usize * i as usize + 1) % LISTS.len() }].to_vec();
                let ops: Vec<Op> = order(a).into_iter().map(|i| Op::Save(i, list(i))).chain(order(b).into_iter().map(Op::Del)).collect();
                let groups: Vec<_> = ops.chunks(10).map(|c| (Group::Alone, c.to_vec())).collect();
                let set = Setup { both: false, extra: Extra::None, extra_first: false, compare_all: true, looks: 0 };
                history::<u8>(&set, &groups, ch, st)
            },
        ),
        suite(
            "many-intervals",
            format!("3 nodes of n intervals each for every n up to {wide} in 4 selections, saved, one deleted, saved with one interval less, all deleted, the index queried after each"),
            (0..=wide).rev().collect(),
            move |n: &usize, ch, st| {
                let sel = ch.pick(4);
                let spans = |n: usize, id: usize| -> Spans {
                    (0..n)
                        .map(|k| match sel {
                            0 => (1, 3),
                            1 => (((k + id) % 5) as u8, TOP),
                            2 => ((k % 3) as u8, (2 + (k / 3) % 3) as u8),
                            _ => (TOP - (k % 5) as u8, TOP - (k % 5) as u8),
                        })
                        .collect()
                };
                let save = |id: u8, n: usize| (Group::Alone, vec![Op::Save(id, spans(n, id as usize))]);
                let del = |id: u8| (Group::Alone, vec![Op::Del(id)]);
                let groups = vec![save(0, *n), save(1, *n), save(2, *n / 2), del(1), save(1, n.saturating_sub(1)), del(0), del(2), del(1), save(0, 1)];
                let set = Setup { both: false, extra: Extra::None, extra_first: false, compare_all: true, looks: 0 };
                history::<u8>(&set, &groups, ch, st).map_err(|m| format!("{n} intervals: {}", m.chars().rev().take(900).collect::<Vec<_>>().into_iter().rev().collect::<String>()))
            },
        ),
    ]
}

const IDX: &[&str] = &[
    "executions within the bounds listed per suite",
    "the graph is empty when the plugin is installed, and only changed by save and delete operations whose transactions succeed",
    "the plugin's crate is compiled as it is, with a stand-in for the trait `property::Extractor` that the library lacks",
];

fn main() {
    engine::main(&[Prop { id: "C23", suites: c23, assumptions: IDX, level: "model_checking" }])
}
