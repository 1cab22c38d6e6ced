//! C01, C02, C03, C05: transactions, nested transactions and panics in them.
use crate::gen::*;
use crate::prog::*;
use engine::{suite, Suite, Tier};

type Suites = Vec<Box<dyn Suite>>;

fn short_tx(g: &mut Gen, max: usize) -> Top {
    g.budget = max;
    g.tx()
}

/// One step of a history.
fn step(g: &mut Gen, with_ops: bool) -> Top {
    let n = if with_ops { 6 } else { 4 };
    match g.ch.pick(n) {
        0 => short_tx(g, 2),
        1 => {
            let a = match g.ch.pick(2) {
                0 => Act::Save { up: 0, id: g.id(), val: g.fresh() },
                _ => Act::Del { up: 0, id: g.id() },
            };
            Top::Dropped { acts: vec![a] }
        }
        2 => Top::Insert { id: g.id(), val: g.fresh() },
        3 => Top::Remove { id: g.id() },
        4 => Top::SaveOp { id: g.id(), val: g.fresh() },
        _ => Top::DelOp { id: g.id() },
    }
}

/// One step of a history in which nothing is looked at but by looks.
fn quiet_step(g: &mut Gen, panics: bool, inner: bool) -> Top {
    let ends = if panics { 3 } else { 2 };
    let id = g.ch.pick(2) as u8;
    let val = g.fresh();
    let a = |k: usize| if k == 0 { Act::Save { up: 0, id, val } } else { Act::Del { up: 0, id } };
    let k = g.ch.pick(2 * ends + 8);
    if k < 2 * ends {
        let mut body = vec![a(k % 2)];
        if inner {
            // The change is made by a sub-transaction.
            body = vec![Act::Sub { up: 0, pre: vec![], body, end: End::Ok, mode: Mode::Tolerate, tok: 3 }];
        }
        if k / 2 == 2 {
            body.push(Act::Panic { tag: val });
        }
        return Top::Tx { pre: vec![], body, end: if k / 2 == 1 { End::Err } else { End::Ok }, tok: val };
    }
    match k - 2 * ends {
        0 => Top::Insert { id, val },
        1 => Top::Remove { id },
        2 => Top::SaveOp { id, val },
        3 => Top::DelOp { id },
        h => Top::Look { how: h as u8 - 4, id },
    }
}

fn quiet_history(n: usize, panics: bool, root: usize, ch: &mut engine::Ch, st: &mut engine::Stats) -> engine::Verdict {
    let mut g = Gen::new(ch, FLAT, 0);
    let mut tops: Vec<Top> = (0..n).map(|_| quiet_step(&mut g, panics, root % 2 == 1)).collect();
    tops.push(Top::Look { how: 0, id: 0 });
    let ty = (root / 2 * 3) as u8;
    check_ty(ty, &quiet_prog(2, vec![(0, 10)], tops), ch, st, everything, false)
}

#[derive(Clone, Copy, Debug)]
pub struct Big {
    pub n: usize,
    pub pattern: usize,
    pub ty: u8,
    pub end: End,
}
pub const PATTERNS: usize = 7;

/// The k-th of n changes of a large transaction.
pub fn big_act(pattern: usize, k: usize, n: usize) -> Act {
    let val = 1000 + k as V;
    let save = |id: usize| Act::Save { up: 0, id: id as u8, val };
    let del = |id: usize| Act::Del { up: 0, id: id as u8 };
    match pattern {
        0 => save(k),
        1 => save(n - 1 - k),
        2 => save(k % 3),
        3 if k % 2 == 0 => save(k / 2),
        3 => del(k / 2),
        4 if k < n / 2 => save(k),
        4 => del(k - n / 2),
        5 if k % 3 == 2 => del((k * 7) % 11),
        5 => save((k * 5) % 11),
        _ if k == 0 => save(0),
        _ if k + 1 == n => del(1),
        _ => save(2 + k % 5),
    }
}

pub fn big_roots(max: usize, step: usize) -> Vec<Big> {
    let mut v = vec![];
    for n in (0..=max).step_by(step) {
        for pattern in 0..PATTERNS {
            for ty in 0..4 {
                for end in [End::Ok, End::Err, End::Noop] {
                    if end == End::Noop && n > 12 && n % 8 != 0 {
                        continue;
                    }
                    if ty == 0 || (n + pattern) % 4 == ty as usize {
                        v.push(Big { n, pattern, ty, end });
                    }
                }
            }
        }
    }
    v
}

pub fn big_init() -> Vec<(u8, V)> {
    vec![(1, 11), (5, 15), (60, 70)]
}

pub fn c01(t: Tier) -> Suites {
    let len = t.pick(5, 6);
    let hist = t.pick(3, 4);
    let bigmax = t.pick(140, 220);
    vec![
        suite(
            "one-transaction",
            format!("every transaction of up to {len} saves and deletes (fresh values) over 3 ids, run or staged ahead, on every initial graph, with every outcome (success, own error, nothing-to-do error)"),
            (0..8u8).collect(),
            move |root, ch, st| {
                let init = (0..3).filter(|i| root >> i & 1 == 1).map(|i| (i, 10 + i as V)).collect();
                let f = Feat { nid: 3, staged: true, ..FLAT };
                let mut g = Gen::new(ch, f, len);
                let tx = g.tx();
                check_ty(0, &plain_prog(3, init, vec![tx], false), ch, st, results_and_graph, false)
            },
        ),
        suite(
            "history",
            format!("every history of {hist} steps over 2 ids, each a transaction of up to 2 changes with any outcome, a prepared transaction that is dropped, a direct insertion or removal, or a save or delete operation; 2 initial graphs; 4 types of ids"),
            (0..8u8).collect(),
            move |root, ch, st| {
                let init = if root & 1 == 0 { vec![] } else { vec![(0, 10)] };
                let ty = root >> 1;
                let n = if *root == 0 { hist } else { hist.min(3) };
                let mut g = Gen::new(ch, FLAT, 0);
                let tops = (0..n).map(|_| step(&mut g, true)).collect();
                check_ty(ty, &plain_prog(2, init, tops, false), ch, st, results_and_graph, false)
            },
        ),
        suite(
            "history-unobserved",
            format!("every history of {} steps over 2 ids: transactions of one change (their own or of a sub-transaction) that succeed or fail, direct insertions and removals, operations, and single looks (iterating, fetching, asking for existence, inside a transaction); nothing else is looked at until the end; 2 types of ids", t.pick(4, 5)),
            (0..4usize).collect(),
            move |root, ch, st| quiet_history(t.pick(4, 5), false, *root, ch, st),
        ),
        suite(
            "history-while-unwinding",
            "every history of 3 steps over 2 ids, each as in the histories above, each made by a destructor while the thread unwinds from a panic or not; 4 types of ids",
            (0..8u8).collect(),
            move |root, ch, st| {
                let init = if root & 1 == 0 { vec![] } else { vec![(0, 10)] };
                let mut g = Gen::new(ch, FLAT, 0);
                let n = if root >> 1 == 0 { 3 } else { 2 };
                let tops = (0..n)
                    .map(|_| {
                        let s = step(&mut g, true);
                        if g.ch.flag() {
                            Top::Unwinding(Box::new(s))
                        } else {
                            s
                        }
                    })
                    .collect();
                check_ty(root >> 1, &plain_prog(2, init, tops, false), ch, st, results_and_graph, false)
            },
        ),
        suite(
            "history-of-outcomes",
            format!("every history of {} transactions of exactly 1 change each (save or delete of 2 ids) with outcome success, error or nothing-to-do", hist + 2),
            (0..12u8).collect(),
            move |root, ch, st| {
                let mut first = Some(*root);
                let mut g = Gen::new(ch, FLAT, 0);
                let tops = (0..hist + 2)
                    .map(|_| {
                        let r = first.take().unwrap_or_else(|| g.ch.pick(12) as u8);
                        let id = r & 1;
                        let a = if r >> 1 & 1 == 0 { Act::Save { up: 0, id, val: g.fresh() } } else { Act::Del { up: 0, id } };
                        let end = ENDS[(r >> 2) as usize];
                        Top::Tx { pre: vec![], body: vec![a], end, tok: g.fresh() }
                    })
                    .collect();
                check_ty(0, &plain_prog(2, vec![(1, 11)], tops, false), ch, st, results_and_graph, false)
            },
        ),
        suite(
            "large-transactions",
            format!("transactions of n changes for every n up to {bigmax}, 7 patterns of ids (ascending, descending, cyclic, save-then-delete, mixed), success and error, followed by a transaction undoing one change; 4 types of ids"),
            big_roots(bigmax, 1),
            move |b: &Big, ch, st| {
                let body = (0..b.n).map(|k| big_act(b.pattern, k, b.n)).collect();
                let tops = vec![
                    Top::Tx { pre: vec![], body, end: b.end, tok: 5 },
                    Top::Tx { pre: vec![], body: vec![Act::Del { up: 0, id: 0 }], end: End::Ok, tok: 6 },
                ];
                check_ty(b.ty, &plain_prog(b.n.max(12) as u8, big_init(), tops, false), ch, st, results_and_graph, false)
            },
        ),
    ]
}

pub fn c02(t: Tier) -> Suites {
    let len = t.pick(4, 5);
    let nest = t.pick(4, 5);
    let bigmax = t.pick(120, 200);
    let deep = t.pick(10, 14);
    vec![
        suite(
            "flat",
            format!("every transaction of up to {len} saves and deletes over 3 ids on every initial graph; existence, fetched node, handle, its virtuality and its successors observed for each id before and after every change"),
            (0..8u8).collect(),
            move |root, ch, st| {
                let init = (0..3).filter(|i| root >> i & 1 == 1).map(|i| (i, 10 + i as V)).collect();
                let f = Feat { nid: 3, ends: OK, ..FLAT };
                let mut g = Gen::new(ch, f, len);
                let tx = g.tx();
                check_ty(0, &plain_prog(3, init, vec![tx], true), ch, st, lookups, true)
            },
        ),
        suite(
            "nested",
            format!("every transaction of up to {nest} saves, deletes, sub-transactions (depth 3, opened from and acting on any open transaction, succeeding, failing or having nothing to do, run or dropped) over 2 ids; every open transaction observed after every step"),
            (0..4u8).collect(),
            move |root, ch, st| {
                let init = (0..2).filter(|i| root >> i & 1 == 1).map(|i| (i, 10 + i as V)).collect();
                let f = Feat { depth: 3, up: true, dropped: true, ends: ENDS, ..FLAT };
                let mut g = Gen::new(ch, f, nest);
                                let tx = Top::Tx { pre: vec![], body: g.acts(1), end: End::Ok, tok: 7 };
                check_ty(0, &plain_prog(2, init, vec![tx], true), ch, st, lookups, true)
            },
        ),
        suite(
            "chosen-lookups",
            format!("every transaction of up to {} saves, deletes, sub-transactions (depth 2, acting on either, succeeding, failing or having nothing to do) and single lookups (fetching, existence or by a handle) over 2 ids; nothing else is looked at", t.pick(5, 6)),
            vec![0u8],
            move |_, ch, st| {
                let f = Feat { depth: 2, up: true, peek: true, ends: &[End::Ok, End::Err], ..FLAT };
                let mut g = Gen::new(ch, f, t.pick(5, 6));
                let tx = Top::Tx { pre: vec![], body: g.acts(1), end: End::Ok, tok: 7 };
                check_ty(0, &quiet_prog(2, vec![(0, 10)], vec![tx]), ch, st, lookups, false)
            },
        ),
        suite(
            "types-of-ids",
            "every transaction of up to 3 saves, deletes and sub-transactions (depth 2) over 2 ids for 3 further types of ids",
            (1..4u8).collect(),
            move |root, ch, st| {
                let f = Feat { depth: 2, up: true, staged: true, ends: ENDS, ..FLAT };
                let mut g = Gen::new(ch, f, 3);
                let init = g.init();
                let tx = g.tx();
                check_ty(*root, &plain_prog(2, init, vec![tx], true), ch, st, lookups, true)
            },
        ),
        suite(
            "deep",
            format!("nesting depth d for every d up to {deep}: each level changes nothing, saves or deletes one id, looked at from every level; all combinations at up to 3 levels, all other levels empty"),
            (1..=deep).collect(),
            move |d: &usize, ch, st| {
                // The levels at which something happens.
                let at: Vec<(usize, usize)> = (0..3).map(|_| (ch.pick(*d + 1), ch.pick(3))).collect();
                fn level(l: usize, d: usize, at: &[(usize, usize)]) -> Vec<Act> {
                    let mut b = vec![];
                    for (k, (a, what)) in at.iter().enumerate() {
                        if *a == l {
                            b.push(match what {
                                0 => Act::Save { up: 0, id: 0, val: 50 + k as V },
                                1 => Act::Del { up: 0, id: 0 },
                                _ => Act::Save { up: 0, id: 1, val: 60 + k as V },
                            });
                        }
                    }
                    if l < d {
                        b.push(Act::Sub { up: 0, pre: vec![], body: level(l + 1, d, at), end: End::Ok, mode: Mode::Tolerate, tok: 1 });
                    }
                    b
                }
                let tx = Top::Tx { pre: vec![], body: level(0, *d, &at), end: End::Ok, tok: 7 };
                check_ty(0, &plain_prog(2, vec![(0, 10)], vec![tx], false), ch, st, lookups, true)
            },
        ),
        suite(
            "large-transactions",
            format!("transactions with n pending changes for every n up to {bigmax}, 7 patterns of ids, looked at from inside and from a sub-transaction"),
            big_roots(bigmax, 1),
            move |b: &Big, ch, st| {
                if b.end != End::Ok {
                    return Ok(());
                }
                let mut body: Vec<Act> = (0..b.n).map(|k| big_act(b.pattern, k, b.n)).collect();
                body.push(Act::Sub {
                    up: 0,
                    pre: vec![],
                    body: vec![Act::Del { up: 0, id: 0 }, Act::Save { up: 0, id: 1, val: 9 }],
                    end: End::Ok,
                    mode: Mode::Tolerate,
                    tok: 3,
                });
                let tx = Top::Tx { pre: vec![], body, end: End::Ok, tok: 5 };
                check_ty(b.ty, &plain_prog(b.n.max(12) as u8, big_init(), vec![tx], false), ch, st, lookups, true)
            },
        ),
    ]
}

pub fn c03(t: Tier) -> Suites {
    let nest = t.pick(4, 5);
    let chain = t.pick(6, 7);
    let deep = t.pick(12, 16);
    let bigmax = t.pick(100, 200);
    vec![
        suite(
            "nested",
            format!("every transaction of up to {nest} saves, deletes and sub-transactions over 2 ids: nesting depth 3, sub-transactions opened from and acting on any open transaction, staged ahead or not, dropped, failing or having nothing to do (tolerated or passed on) or succeeding; everything observed after every step"),
            (0..4u8).collect(),
            move |root, ch, st| {
                let init = (0..2).filter(|i| root >> i & 1 == 1).map(|i| (i, 10 + i as V)).collect();
                let f = Feat { depth: 3, up: true, dropped: true, staged: false, ends: ENDS, modes: TOL_PROP, ..FLAT };
                let mut g = Gen::new(ch, f, nest);
                let tx = g.tx();
                check_ty(0, &plain_prog(2, init, vec![tx], true), ch, st, everything, false)
            },
        ),
        suite(
            "nested-unobserved",
            format!("every transaction of up to {} saves, deletes and sub-transactions (depth 4) over 2 ids, observed only at the start and end of bodies", nest + 1),
            vec![0u8],
            move |_, ch, st| {
                let f = Feat { depth: 4, ends: ENDS, staged: true, ..FLAT };
                let mut g = Gen::new(ch, f, nest + 1);
                let tx = g.tx();
                check_ty(0, &plain_prog(2, vec![(0, 10)], vec![tx], false), ch, st, everything, false)
            },
        ),
        suite(
            "siblings",
            format!("{chain} consecutive sub-transactions, each saving one id of 2 (the first two also deleting) and succeeding, failing or having nothing to do, in a transaction that succeeds, fails or has nothing to do: all combinations; 2 types of ids"),
            (0..6u8).collect(),
            move |root, ch, st| {
                let mut body = vec![];
                for k in 0..chain {
                    let c = ch.pick(if k < 2 { 12 } else { 6 });
                    let id = (c & 1) as u8;
                    let end = ENDS[c / 2 % 3];
                    let a = if c >= 6 { Act::Del { up: 0, id } } else { Act::Save { up: 0, id, val: 100 + k as V } };
                    body.push(Act::Sub {
                        up: 0,
                        pre: vec![],
                        body: vec![a],
                        end,
                        mode: Mode::Tolerate,
                        tok: k as V,
                    });
                }
                let end = ENDS[(root >> 1) as usize];
                let tx = Top::Tx { pre: vec![], body, end, tok: 7 };
                check_ty(root & 1, &plain_prog(2, vec![(1, 11)], vec![tx], false), ch, st, everything, false)
            },
        ),
        suite(
            "deep",
            format!("nesting depth d for every d up to {deep}, each level saving its own id and one shared id before or after its sub-transaction; any one level fails or has nothing to do, or two, or none; failures tolerated or passed on"),
            (1..=deep).collect(),
            move |d: &usize, ch, st| {
                let fails = [ch.pick(*d + 2), ch.pick(*d + 2)];
                let mode = *ch.of(TOL_PROP);
                let after = ch.flag();
                let how = if ch.flag() { End::Noop } else { End::Err };
                fn level(l: usize, d: usize, fails: &[usize], mode: Mode, after: bool, how: End) -> Vec<Act> {
                    let own = Act::Save { up: 0, id: 1 + l as u8, val: 100 + l as V };
                    let shared = Act::Save { up: 0, id: 0, val: 200 + l as V };
                    let mut b = vec![own];
                    if !after {
                        b.push(shared.clone());
                    }
                    if l < d {
                        let end = if fails.contains(&(l + 1)) { how } else { End::Ok };
                        b.push(Act::Sub { up: 0, pre: vec![], body: level(l + 1, d, fails, mode, after, how), end, mode, tok: l as V });
                    }
                    if after {
                        b.push(shared);
                    }
                    b
                }
                let end = if fails.contains(&0) { how } else { End::Ok };
                let tx = Top::Tx { pre: vec![], body: level(0, *d, &fails, mode, after, how), end, tok: 77 };
                check_ty(0, &plain_prog(*d as u8 + 2, vec![(0, 10)], vec![tx], false), ch, st, everything, false)
            },
        ),
        suite(
            "large-sub-transactions",
            format!("n changes before, in and after a sub-transaction for every n up to {bigmax}, 7 patterns; the sub-transaction succeeds or fails"),
            big_roots(bigmax, 1),
            move |b: &Big, ch, st| {
                let acts = |salt: usize| (0..b.n).map(move |k| big_act((b.pattern + salt) % PATTERNS, k, b.n));
                let k = ch.pick(3);
                let mut body: Vec<Act> = vec![];
                if k == 1 {
                    body.extend(acts(1));
                }
                body.push(Act::Sub { up: 0, pre: vec![], body: acts(0).collect(), end: b.end, mode: Mode::Tolerate, tok: 4 });
                if k == 2 {
                    body.extend(acts(2));
                }
                let tx = Top::Tx { pre: vec![], body, end: End::Ok, tok: 5 };
                check_ty(b.ty, &plain_prog(b.n.max(12) as u8, big_init(), vec![tx], false), ch, st, everything, false)
            },
        ),
    ]
}

/// Fresh values for what happens after a panic.
fn afterwards(tops: &mut Vec<Top>, k: usize) {
    match k {
        0 => {}
        1 => tops.push(Top::Tx {
            pre: vec![],
            body: vec![
                Act::Save { up: 0, id: 0, val: 901 },
                Act::Sub { up: 0, pre: vec![], body: vec![Act::Save { up: 0, id: 1, val: 902 }], end: End::Ok, mode: Mode::Tolerate, tok: 903 },
            ],
            end: End::Ok,
            tok: 904,
        }),
        2 => {
            tops.push(Top::SaveOp { id: 1, val: 905 });
            tops.push(Top::DelOp { id: 0 });
        }
        _ => {
            tops.push(Top::Insert { id: 0, val: 906 });
            tops.push(Top::Tx { pre: vec![], body: vec![Act::Del { up: 0, id: 1 }], end: End::Err, tok: 907 });
            tops.push(Top::Tx { pre: vec![], body: vec![Act::Del { up: 0, id: 0 }], end: End::Ok, tok: 908 });
        }
    }
}

pub fn c05(t: Tier) -> Suites {
    let nest = t.pick(4, 5);
    let deep = t.pick(8, 12);
    vec![
        suite(
            "panic-anywhere",
            format!("every transaction of up to {nest} saves, deletes, save and delete operations, sub-transactions (depth 3) and panics over 2 ids; panics caught around any sub-transaction or not at all; then one of 4 continuations"),
            (0..4usize).collect(),
            move |root, ch, st| {
                let f = Feat { depth: 3, panics: true, ends: ENDS, modes: CATCH_PROP, ops: false, ..FLAT };
                let mut g = Gen::new(ch, f, nest);
                let tx = g.tx();
                let mut tops = vec![tx];
                afterwards(&mut tops, *root);
                check_ty(0, &plain_prog(2, vec![(0, 10)], tops, true), ch, st, everything, false)
            },
        ),
        suite(
            "panics-unobserved",
            format!("every history of {} steps over 2 ids: transactions of one change (their own or of a sub-transaction) that succeed, fail or panic, direct insertions and removals, operations, and single looks; nothing else is looked at until the end; 2 types of ids", t.pick(4, 5)),
            (0..4usize).collect(),
            move |root, ch, st| quiet_history(t.pick(4, 5), true, *root, ch, st),
        ),
        suite(
            "in-destructors",
            format!("every transaction of up to {nest} saves, deletes, sub-transactions (depth 2), panics (caught or not) and changes, sub-transactions or save operations made by a destructor when a body ends in whatever way, on one id of 2; then one of 4 continuations"),
            (0..4usize).collect(),
            move |root, ch, st| {
                let f = Feat { nid: 1, depth: 2, up: true, panics: true, defer: true, ends: ENDS, modes: CATCH_PROP, ..FLAT };
                let mut g = Gen::new(ch, f, nest);
                let tx = g.tx();
                let mut tops = vec![tx];
                afterwards(&mut tops, *root);
                check_ty(0, &plain_prog(2, vec![(0, 10)], tops, false), ch, st, everything, false)
            },
        ),
        suite(
            "while-unwinding",
            format!("every transaction of up to {nest} saves, deletes, sub-transactions (depth 2), operations and panics on one id of 2, run by a destructor while the thread unwinds from a panic; then one of 4 continuations, unwinding or not"),
            (0..8usize).collect(),
            move |root, ch, st| {
                let f = Feat { nid: 1, depth: 2, panics: true, ops: true, staged: true, ends: ENDS, modes: CATCH_PROP, ..FLAT };
                let mut g = Gen::new(ch, f, nest);
                let tx = g.tx();
                let mut more = vec![];
                afterwards(&mut more, *root / 2);
                let mut tops = vec![Top::Unwinding(Box::new(tx))];
                tops.extend(more.into_iter().map(|t| if root % 2 == 0 { t } else { Top::Unwinding(Box::new(t)) }));
                check_ty(0, &plain_prog(2, vec![(0, 10)], tops, false), ch, st, everything, false)
            },
        ),
        suite(
            "panic-in-lookups",
            format!("transactions of up to {} changes and sub-transactions (depth 2) in which the n-th copy the code makes of a node panics, for every n up to 12, at every place; then a transaction, a save and a delete", nest - 1),
            (1..4usize).collect(),
            move |root, ch, st| {
                let f = Feat { depth: 2, fuse: 12, ends: OK, modes: CATCH, ..FLAT };
                let mut g = Gen::new(ch, f, nest - 1);
                let tx = g.tx();
                let mut tops = vec![tx];
                afterwards(&mut tops, *root);
                check_ty(0, &plain_prog(2, vec![(0, 10), (1, 11)], tops, false), ch, st, everything, false)
            },
        ),
        suite(
            "panic-in-operations",
            "a save or delete operation, alone or in a transaction or sub-transaction, with 2 triggers (any event); the first changes the graph through its context, the second panics by itself, while reading or changing its target, in a sub-transaction or in an operation it runs; caught at any level or not; then one of 4 continuations with the triggers still in place",
            (0..16usize).collect(),
            move |root, ch, st| {
                let ev1 = EVS[root % 4];
                let first = *ch.of(&[0, 1, 2]);
                let first = match first {
                    0 => vec![],
                    1 => vec![TAct::Do(Act::Sub {
                        up: 0,
                        pre: vec![],
                        body: vec![Act::Save { up: 0, id: 2, val: 300 }],
                        end: End::Ok,
                        mode: Mode::Propagate,
                        tok: 30,
                    })],
                    _ => vec![TAct::Edit { val: 301 }],
                };
                let catch = *ch.of(CATCH_PROP);
                let p = Act::Panic { tag: 40 };
                let second = match ch.pick(7) {
                    0 => TAct::Panic { tag: 40 },
                    1 => TAct::PanicInTarget { tag: 40 },
                    2 => TAct::PanicReadingTarget { tag: 40 },
                    3 => TAct::Poison,
                    4 => TAct::Do(Act::Sub {
                        up: 0,
                        pre: vec![],
                        body: vec![Act::Save { up: 0, id: 2, val: 302 }, p],
                        end: End::Ok,
                        mode: catch,
                        tok: 31,
                    }),
                    5 => TAct::Do(Act::SaveOp { up: 0, id: 2, val: 303, mode: catch }),
                    _ => TAct::Do(Act::DelOp { up: 0, id: 1, mode: catch }),
                };
                let mut trigs = vec![Trig { ev: ev1, acts: first }, Trig { ev: EVS[root / 4], acts: vec![second] }];
                // Operations fired by the second trigger meet a third that panics.
                let third = ch.flag();
                if third {
                    trigs.push(Trig { ev: *ch.of(&EVS), acts: vec![TAct::Panic { tag: 41 }] });
                }
                let op_mode = *ch.of(CATCH_PROP);
                let del = ch.flag();
                let op = if del { Act::DelOp { up: 0, id: 0, mode: op_mode } } else { Act::SaveOp { up: 0, id: 1, val: 77, mode: op_mode } };
                let body = match ch.pick(3) {
                    0 => None,
                    1 => Some(vec![Act::Save { up: 0, id: 3, val: 78 }, op]),
                    _ => Some(vec![
                        Act::Save { up: 0, id: 3, val: 78 },
                        Act::Sub {
                            up: 0,
                            pre: vec![],
                            body: vec![op, Act::Del { up: 0, id: 3 }],
                            end: End::Ok,
                            mode: *ch.of(CATCH_PROP),
                            tok: 32,
                        },
                    ]),
                };
                let mut tops = vec![match body {
                    None if del => Top::DelOp { id: 0 },
                    None => Top::SaveOp { id: 1, val: 77 },
                    Some(body) => Top::Tx { pre: vec![], body, end: End::Ok, tok: 33 },
                }];
                let after = ch.pick(4);
                afterwards(&mut tops, after);
                let depth = if third { 2 } else { 1 };
                let p = Prog { init: vec![(0, 10)], trigs, trig_depth: depth, tops, nid: 4, trig_look: false, look: true, quiet: false };
                check_ty(0, &p, ch, st, everything, false)
            },
        ),
        suite(
            "deep",
            format!("nesting depth d for every d up to {deep}: the innermost body panics, some level catches; every level has changed something before; 4 types of ids"),
            (1..=deep).collect(),
            move |d: &usize, ch, st| {
                let catcher = ch.pick(*d + 1);
                let second = ch.pick(*d + 1);
                let ty = ch.pick(4) as u8;
                fn level(l: usize, d: usize, catchers: &[usize]) -> Vec<Act> {
                    let mut b = vec![Act::Save { up: 0, id: l as u8, val: 100 + l as V }, Act::Del { up: 0, id: 50 }];
                    if l < d {
                        let mode = if catchers.contains(&(l + 1)) { Mode::Catch } else { Mode::Propagate };
                        b.push(Act::Sub { up: 0, pre: vec![], body: level(l + 1, d, catchers), end: End::Ok, mode, tok: l as V });
                        b.push(Act::Save { up: 0, id: 40 + l as u8, val: 300 });
                    } else {
                        b.push(Act::Panic { tag: 9 });
                    }
                    b
                }
                let mut tops = vec![Top::Tx { pre: vec![], body: level(0, *d, &[catcher, second]), end: End::Ok, tok: 7 }];
                afterwards(&mut tops, 1);
                afterwards(&mut tops, 2);
                check_ty(ty, &plain_prog(60, vec![(50, 10)], tops, false), ch, st, everything, false)
            },
        ),
        suite(
            "panics-in-a-row",
            "every sequence of 5 transactions on 2 ids, each succeeding, failing, panicking, or with a caught panic in a sub-transaction",
            (0..8usize).collect(),
            move |root, ch, st| {
                let mut tops = vec![];
                for k in 0..5 {
                    let c = if k == 0 { *root } else { ch.pick(8) };
                    let id = (c & 1) as u8;
                    let save = Act::Save { up: 0, id, val: 100 + k as V };
                    let other = Act::Del { up: 0, id: 1 - id };
                    let (body, end) = match c >> 1 {
                        0 => (vec![save, other], End::Ok),
                        1 => (vec![save, other], End::Err),
                        2 => (vec![save, other, Act::Panic { tag: k as V }], End::Ok),
                        _ => (
                            vec![
                                save,
                                Act::Sub {
                                    up: 0,
                                    pre: vec![],
                                    body: vec![other, Act::Panic { tag: k as V }],
                                    end: End::Ok,
                                    mode: Mode::Catch,
                                    tok: 3,
                                },
                            ],
                            End::Ok,
                        ),
                    };
                    tops.push(Top::Tx { pre: vec![], body, end, tok: 50 + k as V });
                }
                check_ty(0, &plain_prog(2, vec![(0, 10)], tops, false), ch, st, everything, false)
            },
        ),
    ]
}
