//! C06, C07, C09: save and delete operations and what triggers do in them.
use crate::gen::*;
use crate::prog::*;
use engine::{suite, Ch, Suite, Tier};

type Suites = Vec<Box<dyn Suite>>;

fn sub(body: Vec<Act>, end: End, mode: Mode) -> TAct {
    TAct::Do(Act::Sub { up: 0, pre: vec![], body, end, mode, tok: 21 })
}

/// Where an operation is run: on the schema, in a transaction that has changed something, in a
/// sub-transaction of one.
pub const PLACES: usize = 9;
fn place(k: usize, op: Act) -> Vec<Top> {
    let tx = |body: Vec<Act>, end| vec![Top::Tx { pre: vec![], body, end, tok: 50 }];
    let id = match op {
        Act::SaveOp { id, .. } | Act::DelOp { id, .. } => id,
        _ => unreachable!(),
    };
    let pending = Act::Save { up: 0, id, val: 60 };
    let gone = Act::Del { up: 0, id };
    let other = Act::Save { up: 0, id: 3, val: 61 };
    match k {
        0 => vec![match op {
            Act::SaveOp { id, val, .. } => Top::SaveOp { id, val },
            Act::DelOp { id, .. } => Top::DelOp { id },
            _ => unreachable!(),
        }],
        1 => tx(vec![other, op], End::Ok),
        2 => tx(vec![pending, op], End::Ok),
        3 => tx(vec![gone, op], End::Ok),
        4 => tx(vec![other, op], End::Err),
        5 => tx(
            vec![
                pending,
                Act::Sub { up: 0, pre: vec![], body: vec![op, other], end: End::Ok, mode: Mode::Tolerate, tok: 51 },
            ],
            End::Ok,
        ),
        7 => tx(vec![pending, op], End::Noop),
        k => tx(
            vec![
                other,
                Act::Sub { up: 0, pre: vec![], body: vec![gone, op], end: if k == 6 { End::Err } else { End::Noop }, mode: Mode::Tolerate, tok: 51 },
            ],
            End::Ok,
        ),
    }
}

fn with_mode(op: Act, m: Mode) -> Act {
    match op {
        Act::SaveOp { up, id, val, .. } => Act::SaveOp { up, id, val, mode: m },
        Act::DelOp { up, id, .. } => Act::DelOp { up, id, mode: m },
        o => o,
    }
}

/// What the k-th trigger may do: to its target, failing, or through its context.
fn reactions(k: V) -> Vec<Vec<TAct>> {
    let save2 = || vec![Act::Save { up: 0, id: 2, val: 300 + k }];
    vec![
        vec![],
        vec![TAct::Edit { val: 200 + k }],
        vec![TAct::EditId { id: 0 }],
        vec![TAct::EditId { id: 1 }],
        vec![TAct::EditId { id: 2 }],
        vec![TAct::Fail { tok: 400 + k }],
        vec![TAct::FailNoop],
        vec![TAct::Poison],
        vec![sub(save2(), End::Ok, Mode::Propagate)],
        vec![sub(vec![Act::Del { up: 0, id: 1 }], End::Ok, Mode::Propagate)],
        vec![sub(save2(), End::Err, Mode::Tolerate)],
        vec![sub(save2(), End::Noop, Mode::Tolerate)],
        vec![TAct::Edit { val: 500 + k }, TAct::EditId { id: 2 }],
        vec![sub(save2(), End::Ok, Mode::Propagate), TAct::Fail { tok: 600 + k }],
    ]
}

/// n triggers with all combinations of events and reactions.
fn trigs(ch: &mut Ch, n: usize, react: fn(V) -> Vec<Vec<TAct>>) -> Vec<Trig> {
    (0..n)
        .map(|k| {
            let ev = *ch.of(&EVS);
            Trig { ev, acts: ch.of(&react(k as V)).clone() }
        })
        .collect()
}

fn many(ch: &mut Ch, n: usize, evs: [Ev; 2]) -> Vec<Trig> {
    let fail = ch.pick(n + 1);
    let edit = ch.pick(4);
    (0..n)
        .map(|k| {
            let ev = if edit == 3 { EVS[k % 4] } else { evs[(k * 2 / n.max(1)).min(1)] };
            let mut acts = vec![];
            if k == fail {
                acts.push(TAct::Fail { tok: k as V });
            } else if edit == 1 || edit == 3 {
                acts.push(TAct::Edit { val: 200 + k as V });
            } else if edit == 2 && k % 2 == 0 {
                acts.push(sub(vec![Act::Save { up: 0, id: 4 + k as u8, val: 700 + k as V }], End::Ok, Mode::Propagate));
            }
            Trig { ev, acts }
        })
        .collect()
}

fn op_suites(t: Tier, which: &'static str) -> Suites {
    let del = which == "delete";
    let big = t.pick(48, 80);
    let op = move |id: u8| {
        if del {
            Act::DelOp { up: 0, id, mode: Mode::Tolerate }
        } else {
            Act::SaveOp { up: 0, id, val: 77, mode: Mode::Tolerate }
        }
    };
    let evs = if del { [Ev::BeforeDelete, Ev::AfterDelete] } else { [Ev::BeforeSave, Ev::AfterSave] };
    vec![
        suite(
            "two-triggers",
            format!("a {which} of an existing or a new id at 9 places (schema, transaction with and without pending changes of the id, sub-transaction; succeeding, failing or having nothing to do around it), with 2 triggers of any of the 4 events and 14 reactions each (nothing, change value or id of the target, fail, nothing-to-do, make the target unusable, change the graph); everything observed; 4 types of ids for the first place"),
            (0..PLACES * 2 + 6).collect(),
            move |root: &usize, ch, st| {
                let (pl, id, ty) = if *root < PLACES * 2 { (root / 2, (root % 2) as u8, 0) } else { (0, ((root - PLACES * 2) % 2) as u8, 1 + ((root - PLACES * 2) / 2) as u8) };
                let tr = trigs(ch, 2, reactions);
                let tops = place(pl, op(id));
                let p = Prog { init: vec![(0, 10), (2, 12)], trigs: tr, trig_depth: 1, tops, nid: 4, trig_look: true, look: true, quiet: false };
                check_ty(ty, &p, ch, st, everything, false)
            },
        ),
        suite(
            "three-triggers",
            format!("a {which} with 3 triggers of any event and any of the 14 reactions, at the 9 places"),
            (0..PLACES * 2).collect(),
            move |root: &usize, ch, st| {
                let tr = trigs(ch, 3, reactions);
                let tops = place(root / 2, op((root % 2) as u8));
                let p = Prog { init: vec![(0, 10), (2, 12)], trigs: tr, trig_depth: 1, tops, nid: 4, trig_look: false, look: false, quiet: false };
                check_ty(0, &p, ch, st, everything, false)
            },
        ),
        suite(
            "operation-sequences",
            format!("every sequence of {} operations (save or delete of 2 ids, on the schema or in one transaction) with one trigger of the operation's events or none", t.pick(5, 7)),
            (0..5usize).collect(),
            move |root: &usize, ch, st| {
                let tr = match root {
                    0 => vec![],
                    k => vec![Trig { ev: EVS[k - 1], acts: ch.of(&reactions(0)).clone() }],
                };
                let mut val = 80;
                let mut acts = vec![];
                for _ in 0..t.pick(5, 7) {
                    val += 1;
                    let c = ch.pick(4);
                    let id = (c & 1) as u8;
                    acts.push(if c >> 1 == 0 {
                        Act::SaveOp { up: 0, id, val, mode: Mode::Tolerate }
                    } else {
                        Act::DelOp { up: 0, id, mode: Mode::Tolerate }
                    });
                }
                let tops = if ch.flag() {
                    vec![Top::Tx { pre: vec![], body: acts, end: End::Ok, tok: 9 }]
                } else {
                    acts.iter()
                        .map(|a| match a {
                            Act::SaveOp { id, val, .. } => Top::SaveOp { id: *id, val: *val },
                            Act::DelOp { id, .. } => Top::DelOp { id: *id },
                            _ => unreachable!(),
                        })
                        .collect()
                };
                let p = Prog { init: vec![(0, 10)], trigs: tr, trig_depth: 1, tops, nid: 3, trig_look: true, look: true, quiet: false };
                check_ty(0, &p, ch, st, everything, false)
            },
        ),
        suite(
            "many-triggers",
            format!("a {which} with n triggers for every n up to {big}: every position fails or none, all before, all after or interleaved over all events, editing the target or changing the graph; 4 types of ids"),
            (0..=big * 3).collect(),
            move |root: &usize, ch, st| {
                let n = root / 3;
                let ev = match root % 3 {
                    0 => evs,
                    1 => [evs[0], evs[0]],
                    _ => [evs[1], evs[1]],
                };
                let tr = many(ch, n, ev);
                let pl = ch.pick(2) * 5;
                let p = Prog { init: vec![(0, 10), (2, 12)], trigs: tr, trig_depth: 1, tops: place(pl, op(0)), nid: 4 + n as u8, trig_look: false, look: false, quiet: false };
                check_ty((n % 4) as u8, &p, ch, st, everything, false)
            },
        ),
        suite(
            "many-pending-changes",
            format!("a {which} of an id after n changes of its transaction for every n up to {}, 7 patterns, with a before- and an after-trigger looking at the graph", t.pick(150, 250)),
            crate::tx::big_roots(t.pick(150, 250), 1),
            move |b: &crate::tx::Big, ch, st| {
                let mut body: Vec<Act> = (0..b.n).map(|k| crate::tx::big_act(b.pattern, k, b.n)).collect();
                body.push(op(ch.pick(4) as u8));
                let tr = evs.iter().map(|e| Trig { ev: *e, acts: vec![TAct::Edit { val: 33 }] }).collect();
                let tops = vec![Top::Tx { pre: vec![], body, end: b.end, tok: 8 }];
                let p = Prog { init: crate::tx::big_init(), trigs: tr, trig_depth: 1, tops, nid: b.n.max(12) as u8, trig_look: true, look: false, quiet: false };
                check_ty(b.ty, &p, ch, st, everything, false)
            },
        ),
    ]
}

pub fn c06(t: Tier) -> Suites {
    op_suites(t, "save")
}
pub fn c07(t: Tier) -> Suites {
    op_suites(t, "delete")
}

/// Reactions that reach further operations.
fn cascades(k: V) -> Vec<Vec<TAct>> {
    let save = |id, val| Act::SaveOp { up: 0, id, val, mode: Mode::Tolerate };
    let del = |id| Act::DelOp { up: 0, id, mode: Mode::Tolerate };
    let prop = |a| TAct::Do(with_mode(a, Mode::Propagate));
    vec![
        vec![],
        vec![TAct::Fail { tok: 400 + k }],
        vec![TAct::Do(save(2, 300 + k))],
        vec![prop(save(2, 310 + k))],
        vec![TAct::Do(del(1))],
        vec![prop(del(1)), TAct::Fail { tok: 500 + k }],
        vec![sub(vec![Act::Save { up: 0, id: 1, val: 320 + k }], End::Ok, Mode::Propagate)],
        vec![sub(vec![save(1, 330 + k), Act::Del { up: 0, id: 2 }], End::Err, Mode::Tolerate)],
        vec![sub(vec![save(3, 340 + k), del(2)], End::Ok, Mode::Propagate)],
        vec![sub(vec![Act::Save { up: 0, id: 3, val: 350 + k }], End::Ok, Mode::Propagate), TAct::Fail { tok: 600 + k }],
        vec![TAct::Edit { val: 700 + k }, TAct::Do(save(0, 360 + k))],
        vec![sub(vec![save(1, 370 + k), Act::Save { up: 0, id: 2, val: 371 + k }], End::Noop, Mode::Tolerate)],
        vec![sub(vec![Act::Save { up: 0, id: 3, val: 380 + k }], End::Ok, Mode::Propagate), TAct::FailNoop],
    ]
}

pub fn c09(t: Tier) -> Suites {
    let chain = t.pick(9, 14);
    vec![
        suite(
            "effects",
            "a save or delete at 9 places (schema, transaction, sub-transaction, each succeeding, failing or having nothing to do) with 2 triggers of any events and 13 reactions each (fail, run operations or sub-transactions whose failure is tolerated or passed on, change the target); triggers react to the operations they fire one level deep; everything observed by every trigger at every step",
            (0..PLACES * 2).collect(),
            move |root: &usize, ch, st| {
                let tr = trigs(ch, 2, cascades);
                let op = if root % 2 == 0 {
                    Act::SaveOp { up: 0, id: 0, val: 77, mode: *ch.of(TOL_PROP) }
                } else {
                    Act::DelOp { up: 0, id: 0, mode: *ch.of(TOL_PROP) }
                };
                let p = Prog { init: vec![(0, 10), (1, 11)], trigs: tr, trig_depth: 1, tops: place(root / 2, op), nid: 4, trig_look: true, look: true, quiet: false };
                check_ty(0, &p, ch, st, everything, false)
            },
        ),
        suite(
            "cascades",
            "the same with triggers reacting two levels deep, 3 triggers reacting one level deep (2 in the quick tier for all but the first type of ids); 4 types of ids",
            (0..8usize).collect(),
            move |root: &usize, ch, st| {
                let tr = trigs(ch, if root / 2 == 0 || t.thorough() { 3 } else { 2 }, cascades);
                let op = if root % 2 == 0 {
                    Act::SaveOp { up: 0, id: 0, val: 77, mode: Mode::Tolerate }
                } else {
                    Act::DelOp { up: 0, id: 0, mode: Mode::Tolerate }
                };
                let depth = if tr.len() == 3 { 1 } else { 2 };
                let p = Prog { init: vec![(0, 10), (1, 11)], trigs: tr, trig_depth: depth, tops: place(1, op), nid: 4, trig_look: false, look: false, quiet: false };
                check_ty((root / 2) as u8, &p, ch, st, everything, false)
            },
        ),
        suite(
            "failing-late",
            format!("n triggers for every n up to {}, each changing the graph through a sub-transaction or an operation; every position fails or none; the operation is nested in a transaction that goes on", t.pick(30, 60)),
            (1..=t.pick(30usize, 60)).collect(),
            move |n: &usize, ch, st| {
                let fail = ch.pick(n + 1);
                let del = ch.flag();
                let split = ch.pick(n + 1);
                let (b, a) = if del { (Ev::BeforeDelete, Ev::AfterDelete) } else { (Ev::BeforeSave, Ev::AfterSave) };
                let trigs = (0..*n)
                    .map(|k| {
                        let id = 4 + k as u8;
                        let mut acts = vec![if k % 3 == 0 {
                            TAct::Do(Act::SaveOp { up: 0, id, val: 500 + k as V, mode: Mode::Propagate })
                        } else {
                            sub(vec![Act::Save { up: 0, id, val: 500 + k as V }, Act::Del { up: 0, id: id - 1 }], End::Ok, Mode::Propagate)
                        }];
                        if k == fail {
                            acts.push(TAct::Fail { tok: k as V });
                        }
                        Trig { ev: if k < split { b } else { a }, acts }
                    })
                    .collect();
                let op = if del { Act::DelOp { up: 0, id: 0, mode: Mode::Tolerate } } else { Act::SaveOp { up: 0, id: 0, val: 77, mode: Mode::Tolerate } };
                let p = Prog { init: vec![(0, 10), (1, 11)], trigs, trig_depth: 1, tops: place(1, op), nid: 5 + *n as u8, trig_look: false, look: false, quiet: false };
                check_ty(0, &p, ch, st, everything, false)
            },
        ),
        suite(
            "chains",
            format!("a trigger that fires operations from operations d levels deep for every d up to {chain}, before or after, optionally failing at the deepest level, its failure tolerated or passed on at every level"),
            (1..=chain).collect(),
            move |d: &usize, ch, st| {
                let ev = *ch.of(&EVS);
                let mode = *ch.of(TOL_PROP);
                let second = ch.pick(4);
                let mut trigs = vec![Trig {
                    ev,
                    acts: vec![
                        sub(vec![Act::Save { up: 0, id: 2, val: 90 }], End::Ok, Mode::Propagate),
                        TAct::Do(if matches!(ev, Ev::BeforeDelete | Ev::AfterDelete) {
                            Act::DelOp { up: 0, id: 2, mode }
                        } else {
                            Act::SaveOp { up: 0, id: 3, val: 91, mode }
                        }),
                    ],
                }];
                match second {
                    0 => {}
                    1 => trigs.push(Trig { ev, acts: vec![TAct::Fail { tok: 3 }] }),
                    2 => trigs.push(Trig { ev: *ch.of(&EVS), acts: vec![sub(vec![Act::Del { up: 0, id: 1 }], End::Ok, Mode::Propagate), TAct::Fail { tok: 4 }] }),
                    _ => trigs.push(Trig { ev: *ch.of(&EVS), acts: vec![sub(vec![Act::Save { up: 0, id: 1, val: 92 }], End::Ok, Mode::Propagate)] }),
                }
                let op = if matches!(ev, Ev::BeforeDelete | Ev::AfterDelete) {
                    Act::DelOp { up: 0, id: 0, mode: Mode::Tolerate }
                } else {
                    Act::SaveOp { up: 0, id: 0, val: 77, mode: Mode::Tolerate }
                };
                let pl = ch.pick(PLACES);
                let p = Prog { init: vec![(0, 10), (1, 11)], trigs, trig_depth: *d, tops: place(pl, op), nid: 4, trig_look: true, look: true, quiet: false };
                check_ty(0, &p, ch, st, everything, false)
            },
        ),
    ]
}
