//! C12, C13: the graph and its node handles.
use crate::real::{Edge, IdT, Rev, N};
use engine::{suite, Ch, Stats, Suite, Tier, Verdict};
use plotline::deref::TryDeref;
use plotline::graph::{Graph, NodeProxy, Source};
use plotline::id::Identify;
use plotline::schema::transaction::{Context, Transaction};
use plotline::schema::{Error, Schema};
use std::collections::BTreeMap;
use std::path::PathBuf;

type Suites = Vec<Box<dyn Suite>>;
type Model = BTreeMap<u8, (u32, Vec<u8>)>;

fn node<I: IdT>(id: u8, val: u32, edges: &[u8]) -> N<I> {
    N { id: I::mk(id), val, edges: edges.iter().map(|e| I::mk(*e)).collect() }
}
fn plain<I: IdT>(n: &N<I>) -> (u8, (u32, Vec<u8>)) {
    (n.id.no(), (n.val, n.edges.iter().map(|e| e.no()).collect()))
}

fn same_graph<I: IdT>(g: &Graph<N<I>>, m: &Model, nid: u8) -> Verdict {
    for pass in 0..2 {
        let ids: Vec<I> = g.into_iter().map(|n| n.id.clone()).collect();
        let got: Vec<_> = g.into_iter().map(plain).collect();
        if !ids.windows(2).all(|w| w[0] < w[1]) {
            return Err(format!("iteration {pass} is not in ascending order of ids: {ids:?}"));
        }
        let mut want: Vec<_> = m.iter().map(|(k, v)| (*k, v.clone())).collect();
        let mut got = got;
        got.sort();
        want.sort();
        if got != want {
            return Err(format!("iteration {pass} yields {got:?}, expected {want:?}"));
        }
    }
    for i in 0..nid {
        let id = I::mk(i);
        let got = g.get(&id).map(|n| plain(&n));
        let want = m.get(&i).map(|v| (i, v.clone()));
        if got != want || g.contains(&id) != want.is_some() {
            return Err(format!("lookup of id {i}: {got:?}, contained: {}; expected {want:?}", g.contains(&id)));
        }
        let h = g.node(id);
        if h.is_virtual() != want.is_none() || h.try_deref().map(plain) != want {
            return Err(format!("handle of id {i} disagrees with the lookup"));
        }
    }
    Ok(())
}

/// Builds a graph from a list, in one of three ways.
fn build<I: IdT>(list: Vec<N<I>>, way: usize) -> Graph<N<I>> {
    match way {
        0 => Graph::from_iter(list),
        1 => list.into_iter().fold(Graph::default(), |g, n| g.with_node(n)),
        _ => {
            let mut g = Graph::default();
            for n in list {
                g.insert(n);
            }
            g
        }
    }
}

fn c12_seq<I: IdT>(list: &[u8], way: usize, ops: &[(u8, u8)], nid: u8, looks: u32, ch: &mut Ch, st: &mut Stats) -> Verdict {
    ch.log(|| format!("ids of type {}; built (way {way}) from {list:?}; then {ops:?} (0 insert, 1 remove, 2 with_node)", I::NAME));
    let fail = |e: String| format!("ids of type {}; built (way {way}) from {list:?}; then {ops:?}: {e}", I::NAME);
    let mut m = Model::new();
    let mut nodes = vec![];
    for (k, id) in list.iter().enumerate() {
        m.insert(*id, (k as u32, vec![k as u8]));
        nodes.push(node::<I>(*id, k as u32, &[k as u8]));
    }
    let mut g = build(nodes, way);
    ch.steps(list.len() as u64);
    if looks & 1 != 0 {
        same_graph(&g, &m, nid).map_err(fail)?;
    }
    for (k, (op, id)) in ops.iter().enumerate() {
        let val = 100 + k as u32;
        match op {
            0 => {
                let got = g.insert(node(*id, val, &[])).map(|n| plain(&n).1);
                let want = m.insert(*id, (val, vec![]));
                if got != want {
                    return Err(fail(format!("insertion {k} displaced {got:?}, expected {want:?}")));
                }
            }
            1 => {
                let got = g.remove(&I::mk(*id)).map(|n| plain(&n).1);
                let want = m.remove(id);
                if got != want {
                    return Err(fail(format!("removal {k} returned {got:?}, expected {want:?}")));
                }
            }
            _ => {
                g = g.with_node(node(*id, val, &[]));
                m.insert(*id, (val, vec![]));
            }
        }
        ch.step();
        st.state(&m);
        if k + 1 == ops.len() || k < 31 && looks >> (k + 1) & 1 != 0 {
            same_graph(&g, &m, nid).map_err(fail)?;
        }
    }
    st.outcome(&m);
    Ok(())
}

fn c12_ty(ty: usize, list: &[u8], way: usize, ops: &[(u8, u8)], nid: u8, looks: u32, ch: &mut Ch, st: &mut Stats) -> Verdict {
    match ty {
        0 => c12_seq::<u8>(list, way, ops, nid, looks, ch, st),
        1 => c12_seq::<String>(list, way, ops, nid, looks, ch, st),
        2 => c12_seq::<PathBuf>(list, way, ops, nid, looks, ch, st),
        _ => c12_seq::<Rev>(list, way, ops, nid, looks, ch, st),
    }
}

pub fn c12(t: Tier) -> Suites {
    let len = t.pick(6, 7);
    let big = t.pick(250, 500);
    vec![
        suite(
            "operation-sequences",
            format!("every sequence of {len} insertions, removals and builder insertions over 3 ids, starting from an empty graph or a list, for 4 types of ids (integers, strings, paths, reversed order)"),
            (0..4usize).collect(),
            move |ty: &usize, ch, st| {
                let list: &[u8] = ch.of(&[&[] as &[u8], &[2, 0, 2]]);
                let n = if *ty == 0 { len } else { len - 1 };
                let ops: Vec<(u8, u8)> = (0..n).map(|_| (ch.pick(3) as u8, ch.pick(3) as u8)).collect();
                c12_ty(*ty, list, 0, &ops, 4, u32::MAX, ch, st)
            },
        ),
        suite(
            "looks-by-choice",
            format!("every sequence of {} such operations over 3 ids, each followed by a look at the whole graph or not; 2 types of ids", len - 1),
            (0..2usize).collect(),
            move |ty: &usize, ch, st| {
                let n = len - 1 - ty;
                let ops: Vec<(u8, u8)> = (0..n).map(|_| (ch.pick(3) as u8, ch.pick(3) as u8)).collect();
                let looks = ch.pick(1 << n) as u32;
                c12_ty(*ty, &[1], 0, &ops, 4, looks, ch, st)
            },
        ),
        suite(
            "lists",
            format!("building, in 3 ways, from every list of up to {} nodes over 4 ids, duplicates included; 4 types of ids", len + 1),
            (0..12usize).collect(),
            move |root: &usize, ch, st| {
                let n = ch.pick(len + 2);
                let list: Vec<u8> = (0..n).map(|_| ch.pick(4) as u8).collect();
                c12_ty(root % 4, &list, root / 4, &[(1, 1)], 5, u32::MAX, ch, st)
            },
        ),
        suite(
            "large-graphs",
            format!("n nodes for every n up to {big}, inserted in ascending, descending or scattered order or with duplicates; then every third removed and some replaced; 4 types of ids, 3 ways of building"),
            (0..=big).collect(),
            move |n: &usize, ch, st| {
                let ty = ch.pick(4);
                let order = ch.pick(4);
                let way = ch.pick(3);
                let list: Vec<u8> = (0..*n)
                    .map(|k| match order {
                        0 => k,
                        1 => n - 1 - k,
                        2 => (k * 37 + 11) % n,
                        _ => (k * k) % n,
                    } as u8)
                    .collect();
                let mut ops: Vec<(u8, u8)> = (0..*n).filter(|k| k % 3 == 1).map(|k| (1, k as u8)).collect();
                ops.extend((0..*n).filter(|k| k % 5 == 2).map(|k| (0, k as u8)));
                ops.push((2, 0));
                c12_ty(ty, &list, way, &ops, *n as u8 + 2, 1, ch, st)
            },
        ),
    ]
}

// ------------------------------------------------------------------------------------------------

/// Walks all paths of up to `left` steps and compares each handle on the way.
fn walk<S, I: IdT>(h: &NodeProxy<'_, S>, m: &Model, left: usize, ch: &mut Ch) -> Result<u64, String>
where
    S: Source<Node = N<I>>,
{
    let id = h.id().no();
    let want = m.get(&id);
    ch.step();
    if h.is_virtual() != want.is_none() {
        return Err(format!("handle of id {id}: virtual is {}, expected {}", h.is_virtual(), want.is_none()));
    }
    // The successors may be asked for before the node was looked at.
    let next = h.successors::<Edge<I>>();
    let got: Vec<u8> = next.iter().map(|n| n.id().no()).collect();
    let edges = want.map(|w| w.1.clone()).unwrap_or_default();
    if got != edges {
        return Err(format!("successors of id {id} are {got:?}, expected {edges:?}"));
    }
    for look in 0..2 {
        let got = h.try_deref().map(|n| plain(n).1);
        if got.as_ref() != want {
            return Err(format!("look {look} at id {id} yields {got:?}, expected {want:?}"));
        }
    }
    let c = h.clone();
    if c.id().no() != id || c.try_deref().map(|n| plain(n).1).as_ref() != want {
        return Err(format!("the clone of the handle of id {id} differs"));
    }
    let mut n = 1;
    if left > 0 {
        for s in &next {
            n += walk(s, m, left - 1, ch)?;
        }
        let again = c.successors::<Edge<I>>();
        if again.iter().map(|n| n.id().no()).ne(edges.iter().copied()) {
            return Err(format!("successors of the clone of id {id} differ"));
        }
    }
    Ok(n)
}

fn pick_node(ch: &mut Ch, k: u8, max_edges: usize) -> Option<(u32, Vec<u8>)> {
    let n = ch.pick(max_edges + 2);
    if n == 0 {
        return None;
    }
    Some((10 + k as u32, (0..n - 1).map(|_| ch.pick(4) as u8).collect()))
}

fn as_graph<I: IdT>(m: &Model) -> Graph<N<I>> {
    m.iter().map(|(k, v)| node(*k, v.0, &v.1)).collect()
}

fn paths<I: IdT>(m: &Model, depth: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    ch.log(|| format!("ids of type {}; nodes {m:?}; all paths up to length {depth}", I::NAME));
    let g = as_graph::<I>(m);
    let mut n = 0;
    for id in 0..4 {
        n += walk(&g.node(I::mk(id)), m, depth, ch).map_err(|e| format!("graph {m:?}: {e}"))?;
        n += walk(&NodeProxy::new(&g, I::mk(id)), m, 0, ch).map_err(|e| format!("graph {m:?}: {e}"))?;
    }
    st.state(m);
    st.outcome(&n);
    Ok(())
}

/// A handle and what is known about it.
struct H<'a> {
    p: NodeProxy<'a, Context<'a, N<u8>>>,
    seen: Option<Option<(u32, Vec<u8>)>>,
}

/// Handles on a transaction (or a sub-transaction) that changes under them.
fn snapshots(nested: bool, len: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let m0: Model = [(0, (10, vec![1, 2, 1])), (1, (11, vec![0, 1]))].into_iter().collect();
    let schema: Schema<N<u8>> = as_graph::<u8>(&m0).into();
    let mut out = Ok(());
    let _ = schema.transaction().with(|ctx| {
        if nested {
            ctx.save(node(2, 12, &[2]));
            ctx.delete(1);
            let mut m = m0.clone();
            m.insert(2, (12, vec![2]));
            m.remove(&1);
            let r = ctx.transaction().with(|c| {
                out = on_context(&c, m, len, ch, st);
                Result::<(), Error>::Err(Error::Noop)
            });
            return r;
        }
        out = on_context(&ctx, m0.clone(), len, ch, st);
        Err(Error::Noop)
    });
    out
}

fn on_context(ctx: &Context<'_, N<u8>>, mut m: Model, len: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    // SAFETY of lifetimes: the handles live no longer than the context.
    let mut hs: Vec<H<'_>> = vec![];
    let mut script = vec![];
    for k in 0..len {
        let val = 50 + k as u32;
        let n = hs.len();
        let c = ch.pick(6 + 4 * n);
        ch.step();
        match c {
            0 | 1 => {
                script.push(format!("h{n}=handle({c})"));
                hs.push(H { p: shorten(ctx).node(c as u8), seen: None });
            }
            2 | 3 => {
                let id = (c - 2) as u8;
                script.push(format!("save({id}={val})"));
                ctx.save(node(id, val, &[0, 2]));
                m.insert(id, (val, vec![0, 2]));
            }
            4 | 5 => {
                let id = (c - 4) as u8;
                script.push(format!("delete({id})"));
                ctx.delete(id);
                m.remove(&id);
            }
            _ => {
                let i = (c - 6) % n;
                let id = *hs[i].p.id();
                let bad = |script: &[String], e: String| Err(format!("{}: {e}", script.join(" ")));
                match (c - 6) / n {
                    0 => {
                        script.push(format!("look(h{i})"));
                        let want = hs[i].seen.clone().unwrap_or_else(|| m.get(&id).cloned());
                        let got = hs[i].p.try_deref().map(|n| plain(n).1);
                        hs[i].seen = Some(want.clone());
                        if got != want {
                            return bad(&script, format!("the look yields {got:?}, expected {want:?}"));
                        }
                    }
                    1 => {
                        script.push(format!("virtual(h{i})"));
                        let want = !m.contains_key(&id);
                        if hs[i].p.is_virtual() != want {
                            return bad(&script, format!("virtual is {}, expected {want}", !want));
                        }
                    }
                    2 => {
                        script.push(format!("h{n}=clone(h{i})"));
                        let p = hs[i].p.clone();
                        let seen = hs[i].seen.clone();
                        hs.push(H { p, seen });
                    }
                    _ => {
                        script.push(format!("successors(h{i})"));
                        let want = hs[i].seen.clone().unwrap_or_else(|| m.get(&id).cloned());
                        hs[i].seen = Some(want.clone());
                        let next = hs[i].p.successors::<Edge<u8>>();
                        let got: Vec<u8> = next.iter().map(|x| *x.id()).collect();
                        let want = want.map(|w| w.1).unwrap_or_default();
                        if got != want {
                            return bad(&script, format!("the successors are {got:?}, expected {want:?}"));
                        }
                        for x in next {
                            let want = m.get(x.id()).cloned();
                            let got = x.try_deref().map(|n| plain(n).1);
                            if got != want || x.is_virtual() != want.is_none() {
                                return bad(&script, format!("successor {} is {got:?}, expected {want:?}", x.id()));
                            }
                        }
                    }
                }
            }
        }
        st.state(&(&m, hs.iter().map(|h| (*h.p.id(), h.seen.clone())).collect::<Vec<_>>()));
    }
    ch.log(|| script.join(" "));
    st.outcome(&script);
    Ok(())
}

/// A context is invariant in its lifetime; a reference to it is not.
fn shorten<'s, 'a: 's>(c: &'s Context<'a, N<u8>>) -> &'s Context<'s, N<u8>> {
    // A handle needs only read access for as long as it lives.
    unsafe { &*(c as *const Context<'a, N<u8>> as *const Context<'s, N<u8>>) }
}

pub fn c13(t: Tier) -> Suites {
    let edges = t.pick(3, 4);
    let len = t.pick(6, 7);
    let big = t.pick(200, 250);
    vec![
        suite(
            "all-graphs",
            format!("every graph over 3 ids whose nodes are absent or have up to {edges} edges to 4 ids (self-loops, duplicates and dangling edges included); from every id every path of up to 3 steps"),
            vec![0u8],
            move |_, ch, st| {
                let m: Model = (0..3u8).filter_map(|k| pick_node(ch, k, if k == 0 { edges } else { 2 }).map(|n| (k, n))).collect();
                paths::<u8>(&m, 3, ch, st)
            },
        ),
        suite(
            "types-of-ids",
            "every graph over 2 ids with up to 2 edges each, paths of up to 4 steps, for 3 further types of ids",
            vec![0u8, 1, 2],
            move |ty, ch, st| {
                let m: Model = (0..2u8).filter_map(|k| pick_node(ch, k, 2).map(|n| (k, n))).collect();
                match ty {
                    0 => paths::<String>(&m, 4, ch, st),
                    1 => paths::<PathBuf>(&m, 4, ch, st),
                    _ => paths::<Rev>(&m, 4, ch, st),
                }
            },
        ),
        suite(
            "in-transactions",
            "every graph over 3 ids with up to 1 edge each, split in every way into committed nodes and nodes pending in a transaction or its sub-transaction; paths of up to 3 steps from each context",
            vec![0u8, 1, 2],
            move |root, ch, st| {
                let m: Model = (0..3u8).filter_map(|k| pick_node(ch, k, if k == 0 { 2 } else { 1 }).map(|n| (k, n))).collect();
                // 0: committed; 1: pending; 2: another node committed, replaced; 3: pending in the sub-transaction
                let split: Vec<usize> = (0..3).map(|_| ch.pick(4)).collect();
                ch.log(|| format!("nodes {m:?}, split {split:?}"));
                let base: Model = (0..3u8)
                    .filter_map(|k| match split[k as usize] {
                        0 => m.get(&k).map(|v| (k, v.clone())),
                        1 if root % 2 == 0 => None,
                        _ => Some((k, (99, vec![3, 3, 3]))),
                    })
                    .collect();
                let schema: Schema<N<u8>> = as_graph::<u8>(&base).into();
                let mut out = Ok(());
                let _ = schema.transaction().with(|ctx| {
                    let put = |c: &Context<'_, N<u8>>, k: u8| match m.get(&k) {
                        Some(v) => c.save(node(k, v.0, &v.1)),
                        None => c.delete(k),
                    };
                    for k in 0..3u8 {
                        if matches!(split[k as usize], 1 | 2) {
                            put(&ctx, k);
                        }
                    }
                    ctx.transaction().with(|c| {
                        for k in 0..3u8 {
                            if split[k as usize] == 3 {
                                put(&c, k);
                            }
                        }
                        for id in 0..4 {
                            let r = walk(&c.node(id), &m, 3, ch);
                            if let (Err(e), Ok(())) = (r, &out) {
                                out = Err(format!("nodes {m:?} split {split:?}: {e}"));
                            }
                        }
                        Ok(())
                    })?;
                    for id in 0..4 {
                        let r = walk(&ctx.node(id), &m, 2, ch);
                        if let (Err(e), Ok(())) = (r, &out) {
                            out = Err(format!("nodes {m:?} split {split:?}, in the parent: {e}"));
                        }
                    }
                    Ok(())
                });
                st.state(&(&m, &split));
                st.outcome(&(&m, &base));
                out
            },
        ),
        suite(
            "snapshots",
            format!("every sequence of {len} steps on handles of a changing transaction or sub-transaction: new handle, look, virtuality, clone, successors, save, delete, over 2 ids"),
            vec![false, true],
            move |nested, ch, st| snapshots(*nested, len, ch, st),
        ),
        suite(
            "large",
            format!("chains, cycles, stars (edges to everyone, twice) and trees of n nodes for every n up to {big}; every node visited"),
            (1..=big).collect(),
            move |n: &usize, ch, st| {
                let shape = ch.pick(4);
                let n8 = *n as u8;
                let m: Model = (0..n8)
                    .map(|k| {
                        let e = match shape {
                            0 => vec![k + 1],
                            1 => vec![(k + 1) % n8, k],
                            2 if k == 0 => (0..n8).chain(0..n8).collect(),
                            2 => vec![0],
                            _ => [2 * k as usize + 1, 2 * k as usize + 2].iter().filter(|e| **e <= *n).map(|e| *e as u8).collect(),
                        };
                        (k, (k as u32, e))
                    })
                    .collect();
                let g = as_graph::<u8>(&m);
                for id in 0..n8 {
                    walk(&g.node(id), &m, 1, ch)?;
                }
                if shape < 2 {
                    // along the whole chain
                    let mut h = g.node(0);
                    for k in 0..n8 {
                        if *h.id() != k {
                            return Err(format!("step {k} along a chain of {n} reached {}", h.id()));
                        }
                        let s = h.successors::<Edge<u8>>();
                        h = s.into_iter().next().ok_or("the chain ends early")?;
                    }
                    let want = if shape == 0 { n8 } else { 0 };
                    if *h.id() != want || h.is_virtual() == (shape == 1) {
                        return Err(format!("the end of a chain of {n} is {}", h.id()));
                    }
                }
                st.state(&(n, shape));
                st.outcome(&(n, shape));
                Ok(())
            },
        ),
    ]
}
