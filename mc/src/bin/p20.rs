//! Operations cost time logarithmic in the number of slices.
use mc::alloc::{paged, total_allocs, touched};
use mc::common::*;
use mc::refs::*;

#[derive(Debug, Clone, Copy, Default)]
struct Cost {
    /// index additions, subtractions and comparisons
    arith: u64,
    /// blocks of memory (nodes) accessed
    nodes: u64,
    /// splits, joins and clones of slices
    split: u64,
    join: u64,
    clone: u64,
    drop: u64,
    allocs: u64,
}

fn cost<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let c0 = cb().counts;
    let a0 = total_allocs();
    let (r, nodes) = touched(f);
    let c = cb().counts;
    let d = |k: usize| (c[k] - c0[k]) as u64;
    let cost = Cost {
        arith: d(ADD) + d(SUB) + d(CMP),
        nodes,
        split: d(SPLIT),
        join: d(JOIN),
        clone: d(CLONE),
        drop: d(DROP),
        allocs: (total_allocs() - a0) as u64,
    };
    (r, cost)
}

/// What an operation may cost, in a tree of `h` levels with nodes of up to `2 M` slices
#[derive(Clone, Copy)]
enum Kind {
    /// not even proportional to the height
    Constant,
    Lookup,
    /// a lookup or query that also collects the path
    Step,
    Insert,
    /// insertion into a tree all nodes of which are shared
    CowInsert,
}

fn within(name: &str, k: Kind, c: Cost, h: u64, m: u64) -> Result<(), String> {
    let w = 2 * m + 1;
    let (arith, nodes, allocs) = match k {
        Kind::Constant => (2, 3, 2),
        Kind::Lookup => (6 * w * h + 30, 2 * h + 6, h + 8),
        Kind::Step => (6 * w * h + 30, 2 * h + 6, h + 8),
        Kind::Insert => (14 * w * h + 60, (w + 4) * h + 10, 2 * h + 12),
        Kind::CowInsert => (14 * w * h + 60, (2 * w + 6) * h + 10, 2 * h * (w + 2) + 20),
    };
    let (split, join, clone, drop) = match k {
        Kind::Insert => (1, 2, 0, 3),
        Kind::CowInsert => (1, 2, w * h, w * h + 3),
        _ => (0, 0, 0, 0),
    };
    if let Some(f) = std::env::var_os("MC_COSTS") {
        use std::io::Write;
        let mut f = std::fs::OpenOptions::new().append(true).create(true).open(f).unwrap();
        let r = |a: u64, b: u64| a as f64 / b as f64;
        let line = format!("{name}\t{:.2} {:.2} {:.2}\th={h} m={m} {c:?}\n", r(c.arith, arith), r(c.nodes, nodes), r(c.allocs, allocs));
        f.write_all(line.as_bytes()).unwrap();
    }
    for (what, got, may) in [
        ("index operations", c.arith, arith),
        ("nodes accessed", c.nodes, nodes),
        ("slices split", c.split, split),
        ("slices joined", c.join, join),
        ("slices cloned", c.clone, clone),
        ("slices dropped", c.drop, drop),
        ("allocations", c.allocs, allocs),
    ] {
        if got > may {
            return Err(format!("{name}: {got} {what} in a tree of {h} levels and node width {m}, at most {may} expected ({c:?})"));
        }
    }
    Ok(())
}

/// How a tree was grown
#[derive(Clone, Copy)]
enum Growth {
    Back,
    Front,
    Middle,
    Splits,
    Alternating,
    Spread,
}
use Growth::*;
const GROWTHS: [(&str, Growth); 6] = [("back", Back), ("front", Front), ("middle", Middle), ("splits", Splits), ("alternating", Alternating), ("spread", Spread)];

fn grow(g: Growth, n: usize) -> Vec<Op> {
    let mut m = Model::new();
    let mut ops = vec![];
    while m.len() < n {
        let k = ops.len();
        let st = m.starts();
        let pos = match g {
            Back => st[m.len()],
            Front => 0,
            Middle => st[m.len() / 2],
            Splits => match m.len() {
                0 => 0,
                l => {
                    // the largest slice
                    let i = (0..l).max_by_key(|i| m.runs[*i].units()).unwrap();
                    st[i] + m.runs[i].units() / 2
                }
            },
            Alternating => st[if k % 2 == 0 { 0 } else { m.len() }],
            Spread => st[k * 7919 % (m.len() + 1)],
        };
        let size = match g {
            Splits => 1 << 20 | k as u32 & 15,
            _ => 64 + k as u32 % 7,
        };
        let op = Op { pos, size, kind: PLAIN };
        m.apply(op, true);
        ops.push(op);
    }
    ops
}

fn states(q: &'static [usize], t: &'static [usize], small: fn(Tier) -> Vec<String>) -> impl Fn(Tier, &mut Ctx) -> Vec<String> {
    move |tier, _| {
        let mut v: Vec<String> = small(tier).into_iter().map(|s| format!("= {s}")).collect();
        for n in tier.pick(q, t) {
            v.extend(GROWTHS.iter().map(|(g, _)| format!("{g} {n}")));
        }
        v
    }
}

fn hist_of(state: &str) -> Vec<Op> {
    let (a, b) = state.split_once(' ').unwrap();
    match GROWTHS.iter().find(|g| g.0 == a) {
        Some((_, g)) => grow(*g, b.parse().unwrap()),
        None => parse_hist(b),
    }
}

/// The insertions of a history, ready to be performed many times
struct Prepared<I> {
    ops: Vec<(I, Run, I)>,
    m: Model,
}
fn prepare<I: Ix>(hist: &[Op], joins: bool) -> Prepared<I> {
    let mut m = Model::new();
    let mut ops = vec![];
    for op in hist {
        let run = m.fresh(*op);
        ops.push((m.index_of(op.pos), run.clone(), run.measure()));
        m.apply(*op, joins);
    }
    Prepared { ops, m }
}
impl<I: Ix> Prepared<I> {
    fn build<P, const J: bool, const M: usize>(&self) -> Tree<I, P, J, M>
    where
        P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
    {
        paged(|| {
            let mut t = RleTree::new_empty();
            for (i, r, s) in &self.ops {
                t.insert(*i, Seg::new(r.clone()), *s);
            }
            t
        })
    }
}

fn levels<I: Ix, P, const J: bool, const M: usize>(t: &Tree<I, P, J, M>) -> u64
where
    P: RleTreeConfig<I, Seg<J>, M>,
{
    nums(&t.cursor_to::<PathVec>(I::ZERO)).len() as u64 + 1
}

/// Paths to give as hints: to the first, middle and last slice, and ones that lead nowhere
fn hints<I: Ix, P, const J: bool, const M: usize>(t: &Tree<I, P, J, M>, m: &Model, h: u64) -> Vec<PathVec>
where
    P: RleTreeConfig<I, Seg<J>, M>,
{
    let st = m.starts();
    let mut v: Vec<PathVec> = [0, m.len() / 3, m.len() / 2, m.len() - 1].iter().map(|k| t.cursor_to(m.index_of(st[*k]))).collect();
    let cs = components();
    for c in [cs[0], cs[M], cs[2 * M], *cs.last().unwrap()] {
        v.push(PathVec(vec![c; h as usize + 2]));
    }
    v
}

fn queries<I: Ix, P, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str)
where
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
{
    let hist = hist_of(state);
    let Some(p) = ctx.base(|| prepare::<I>(&hist, J)) else { return };
    if p.m.len() == 0 {
        return;
    }
    let Some((t, h)) = ctx.base(|| {
        let t = p.build::<P, J, M>();
        let h = levels(&t);
        (t, h)
    }) else {
        return;
    };
    let (n, m) = (p.m.len(), M as u64);
    let st = p.m.starts();
    // logarithmic: every node but the root has at least M slices
    ctx.probe("height", &[n as i64], || {
        let mut least: u64 = 1;
        for _ in 1..h {
            least = least * (m + 1) + m;
        }
        if h > 1 && (n as u64) < least {
            return Err(format!("{h} levels for {n} slices of node width {m}"));
        }
        Ok(())
    });
    let Some(hs) = ctx.base(|| hints(&t, &p.m, h)) else { return };
    for k in 0..n {
        ctx.probe("lookup with hints", &[k as i64], || {
            let idx = p.m.index_of::<I>(st[k]);
            for hint in &hs {
                let (a, b, d) = (hint.clone(), hint.clone(), hint.clone());
                let ((), c) = cost(|| drop(t.get_with_cursor(a, idx).slice()));
                within("get with a hint", Kind::Lookup, c, h, m)?;
                let ((), c) = cost(|| drop(t.iter_with_cursor(b, idx..).next()));
                within("first step of an iteration with a hint", Kind::Lookup, c, h, m)?;
                let ((), c) = cost(|| drop(t.iter_with_cursor(d, ..=idx).next_back()));
                within("first step of an iteration from behind with a hint", Kind::Lookup, c, h, m)?;
            }
            Ok(())
        });
        for off in [0, p.m.runs[k].units() / 2] {
            let idx = p.m.index_of::<I>(st[k] + off);
            ctx.probe("lookup", &[k as i64, off as i64], || {
                let ((), c) = cost(|| drop(t.get(idx).slice()));
                within("get", Kind::Lookup, c, h, m)?;
                let (path, c) = cost(|| t.cursor_to::<PathVec>(idx));
                within("cursor_to", Kind::Lookup, c, h, m)?;
                let ((), c) = cost(|| drop(t.get_with_cursor(path, idx).slice()));
                within("get with a cursor", Kind::Lookup, c, h, m)?;
                let ((), c) = cost(|| drop(t.iter(idx..).next()));
                within("first step of an iteration", Kind::Lookup, c, h, m)?;
                let ((), c) = cost(|| drop(t.iter(..=idx).next_back()));
                within("first step of an iteration from behind", Kind::Lookup, c, h, m)?;
                let (e, _) = cost(|| t.get(idx));
                let ((), c) = cost(|| drop((e.range(), e.size())));
                within("range and size of an entry", Kind::Lookup, c, h, m)
            });
            ctx.trace();
        }
    }
    ctx.probe("iterate", &[], || {
        let mut it = t.iter(..);
        for k in 0..=n {
            let (e, c) = cost(|| it.next());
            within("iteration step", if k == 0 { Kind::Lookup } else { Kind::Step }, c, h, m)?;
            if e.is_none() != (k == n) {
                return Err("iteration ends early or late".into());
            }
        }
        let mut it = t.iter(..);
        for k in 0..=n {
            let (_, c) = cost(|| it.next_back());
            within("iteration step from behind", if k == 0 { Kind::Lookup } else { Kind::Step }, c, h, m)?;
        }
        let (_, c) = cost(|| (t.size(), t.number_of_slices()));
        within("size and number of slices", Kind::Constant, c, h, m)
    });
    ctx.trace();
    ctx.add("nontrivial", (h > 2) as u64);
    ctx.outcome(h);
    drop(t);
}

fn inserts<I: Ix, P, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, every: usize)
where
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
{
    let hist = hist_of(state);
    let Some(p) = ctx.base(|| prepare::<I>(&hist, J)) else { return };
    let m = M as u64;
    for (i, op) in p.m.ops(77, J, Offsets::Mid).into_iter().enumerate() {
        if J && p.m.merges_both(op) || i % every != 0 {
            continue;
        }
        ctx.probe("insert", &op.vals(), || {
            let mut t = p.build::<P, J, M>();
            let h = if p.m.len() == 0 { 1 } else { levels(&t) };
            let run = p.m.fresh(op);
            let (idx, size) = (p.m.index_of::<I>(op.pos), run.measure::<I>());
            let s = Seg::new(run);
            let ((), c) = cost(|| t.insert(idx, s, size));
            within("insert", Kind::Insert, c, h, m)
        });
        ctx.trace();
        if i % (every * 4) == 0 && p.m.len() > 0 {
            ctx.probe("insert with hints", &op.vals(), || {
                for k in 0..8 {
                    let mut t = p.build::<P, J, M>();
                    let h = levels(&t);
                    let hint = hints(&t, &p.m, h).swap_remove(k);
                    let run = p.m.fresh(op);
                    let (idx, size) = (p.m.index_of::<I>(op.pos), run.measure::<I>());
                    let s = Seg::new(run);
                    let (out, c) = cost(|| t.insert_with_cursor(hint, idx, s, size));
                    within("insert with a hint", Kind::Insert, c, h, m)?;
                    drop(out);
                }
                Ok(())
            });
            ctx.trace();
        }
    }
    ctx.outcome(p.m.len());
}

fn cow<I: Ix, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, every: usize) {
    let hist = hist_of(state);
    let Some(p) = ctx.base(|| prepare::<I>(&hist, J)) else { return };
    if p.m.len() == 0 {
        return;
    }
    let Some((t, h)) = ctx.base(|| {
        let t = p.build::<AllowCow, J, M>();
        let h = levels(&t);
        (t, h)
    }) else {
        return;
    };
    let m = M as u64;
    ctx.probe("clone", &[], || {
        let (u, c) = cost(|| t.clone());
        within("clone", Kind::Constant, c, h, m)?;
        let ((), c) = cost(|| drop(u));
        within("drop of a clone", Kind::Constant, c, h, m)
    });
    ctx.trace();
    for (i, op) in p.m.ops(77, J, Offsets::Mid).into_iter().enumerate() {
        if J && p.m.merges_both(op) || i % every != 0 {
            continue;
        }
        ctx.probe("insert into a clone", &op.vals(), || {
            let mut u = t.clone();
            let run = p.m.fresh(op);
            let (idx, size) = (p.m.index_of::<I>(op.pos), run.measure::<I>());
            let s = Seg::new(run);
            let ((), c) = cost(|| u.insert(idx, s, size));
            within("insert into a clone", Kind::CowInsert, c, h, m)?;
            let (v, c) = cost(|| u.clone());
            within("clone of a changed clone", Kind::Constant, c, h + 1, m)?;
            let run = p.m.fresh(op);
            let s = Seg::new(run);
            drop(v);
            // what was copied is not shared any more
            let ((), c) = cost(|| u.insert(idx, s, size));
            let mut k = Kind::Insert;
            if c.clone > 0 {
                // the second insertion may lead into the neighbouring leaf
                k = Kind::CowInsert;
            }
            within("second insert into a clone", k, c, h + 1, m)
        });
        ctx.trace();
    }
    ctx.outcome(h);
    drop(t);
}

fn refs<I: Ix, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, every: usize) {
    let hist = hist_of(state);
    let Some(p) = ctx.base(|| prepare::<I>(&hist, J)) else { return };
    if p.m.len() == 0 {
        return;
    }
    let m = M as u64;
    let b = p.m.bounds::<I>();
    let make = || -> (RTree<I, J, M>, Vec<SRef<I, J, M>>) {
        let t = p.build::<AllowSliceRefs, J, M>();
        let rs = paged(|| (0..p.m.len()).map(|k| t.get(b[k]).make_ref()).collect());
        (t, rs)
    };
    ctx.probe("references", &[], || {
        let t = p.build::<AllowSliceRefs, J, M>();
        let h = levels(&t);
        let mut rs = vec![];
        for e in t.iter(..) {
            let (_, c) = cost(|| e.cursor::<PathVec>());
            within("cursor of an entry", Kind::Lookup, c, h, m)?;
        }
        for k in 0..p.m.len() {
            let (r, c) = cost(|| t.get(b[k]).make_ref());
            // the store grows now and then: amortized
            within("get and make_ref", Kind::Lookup, c, h, m)?;
            rs.push(r);
        }
        for r in &rs {
            let (_, c) = cost(|| (r.is_valid(), r.can_borrow()));
            within("is_valid and can_borrow", Kind::Lookup, c, 1, m)?;
            let (_, c) = cost(|| r.range());
            within("range of a reference", Kind::Lookup, c, h, m)?;
            let (_, c) = cost(|| r.cursor::<PathVec>());
            within("cursor of a reference", Kind::Lookup, c, h, m)?;
            let ((), c) = cost(|| drop(r.borrow_slice()));
            within("borrow", Kind::Lookup, c, 1, m)?;
            let (r2, c) = cost(|| r.clone());
            within("clone of a reference", Kind::Lookup, c, 1, m)?;
            let ((), c) = cost(|| drop(r2));
            within("drop of a reference", Kind::Lookup, c, 1, m)?;
        }
        Ok(())
    });
    ctx.trace();
    for (i, op) in p.m.ops(77, J, Offsets::Mid).into_iter().enumerate() {
        if J && p.m.merges_both(op) || i % every != 0 {
            continue;
        }
        ctx.probe("insert with references", &op.vals(), || {
            let (mut t, rs) = make();
            let h = levels(&t);
            let run = p.m.fresh(op);
            let (idx, size) = (p.m.index_of::<I>(op.pos), run.measure::<I>());
            let s = Seg::new(run);
            let (r, c) = cost(|| t.insert_ref(idx, s, size));
            within("insert_ref", Kind::Insert, c, h, m)?;
            drop(r);
            drop(t);
            drop(rs);
            Ok(())
        });
        ctx.trace();
    }
    ctx.outcome(p.m.len());
}

fn small(t: Tier) -> Vec<String> {
    let s = Shapes::explore::<1>(t.pick(7, 13), 100_000);
    s.texts()
}
fn none(_: Tier) -> Vec<String> {
    vec![]
}

const Q: &[usize] = &[40, 150, 400];
const T: &[usize] = &[20, 40, 80, 150, 300, 600, 1200];
const QI: &[usize] = &[40, 150];
const QL: &[usize] = &[400];
const TL: &[usize] = &[400, 1000];
const TI: &[usize] = &[20, 40, 80, 150, 300, 600];

fn main() {
    drive(Check {
        id: "P20",
        level: "model_checking",
        rule: "every lookup, cursor, entry query, iteration step, insertion (every boundary and middle), clone and reference query on every small tree shape and on trees grown by six patterns up to the listed sizes; index operations, nodes accessed (every node lies on pages of its own that are made inaccessible first), allocations and calls of slice operations are counted and compared with a constant times node width times height; nontrivial: trees of more than two levels",
        assumptions: &[
            "the constants leave a factor of about two or more over what the operations cost now; a slowdown by less than that which stays logarithmic is not one the property forbids",
            "time is counted in index operations, nodes accessed and allocations, not in seconds",
        ],
        configs: vec![
            Config::new("queries/plain/M1", states(Q, T, small), |c, s| queries::<Cu, NoFeatures, true, 1>(c, s)),
            Config::new("queries/plain/M3", states(Q, T, none), |c, s| queries::<Cu, NoFeatures, false, 3>(c, s)),
            Config::new("queries/cow/M2", states(Q, T, none), |c, s| queries::<Cu, AllowCow, true, 2>(c, s)),
            Config::new("queries/refs/M2", states(Q, T, none), |c, s| queries::<Cu, AllowSliceRefs, true, 2>(c, s)),
            Config::new("inserts/plain/M1", states(QI, TI, small), |c, s| inserts::<Cu, NoFeatures, true, 1>(c, s, 1)),
            Config::new("inserts/plain/M2", states(QI, TI, none), |c, s| inserts::<Cu, NoFeatures, true, 2>(c, s, 1)),
            Config::new("inserts/plain/M4", states(QI, TI, none), |c, s| inserts::<Cu, NoFeatures, false, 4>(c, s, 1)),
            Config::new("inserts/cow/M1", states(QI, TI, none), |c, s| inserts::<Cu, AllowCow, true, 1>(c, s, 1)),
            Config::new("shared/cow/M1", states(QI, TI, small), |c, s| cow::<Cu, true, 1>(c, s, 1)),
            Config::new("shared/cow/M2", states(QI, TI, none), |c, s| cow::<Cu, true, 2>(c, s, 1)),
            Config::new("references/M1", states(QI, TI, small), |c, s| refs::<Cu, true, 1>(c, s, 1)),
            Config::new("inserts/long/plain/M1", states(QL, TL, none), |c, s| inserts::<Cu, NoFeatures, false, 1>(c, s, 1)),
            Config::new("shared/long/cow/M1", states(QL, TL, none), |c, s| cow::<Cu, false, 1>(c, s, 1)),
            Config::new("references/long/M1", states(QL, TL, none), |c, s| refs::<Cu, false, 1>(c, s, 1)),
            Config::new("references/M3", states(QI, TI, none), |c, s| refs::<Cu, true, 3>(c, s, 1)),
        ],
    })
}
