//! Copy-on-write copies only the path to the change.
use mc::common::*;
use mc::fam::*;
use std::collections::{HashMap, HashSet};
use Step::*;

type F<I, const J: bool, const M: usize> = Fam<I, AllowCow, J, M>;

/// per slice, in order: the path of its node, its address, the number of the value
fn layout<I: Ix, const J: bool, const M: usize>(t: &Tree<I, AllowCow, J, M>, m: &Model) -> Vec<(Vec<u8>, usize, u32)> {
    let ps = paths(t, m);
    t.iter(..).zip(ps).map(|(e, p)| (p, e.slice() as *const _ as usize, e.slice().token())).collect()
}

/// one action with everything around it observed
fn watch<I: Ix, const J: bool, const M: usize>(f: &mut F<I, J, M>, a: Act) -> Result<(), String> {
    let before: Vec<Option<Vec<_>>> = (0..SLOTS).map(|s| Some(layout(f.t[s].as_ref()?, f.m[s].as_ref()?))).collect();
    let free = free_slot_or(&f.m);
    cb_reset();
    let r = match a {
        Act::Ins(s, op) => {
            let s = s as usize;
            let m = f.m[s].as_ref().unwrap();
            let run = m.fresh(op);
            let (idx, size) = (m.index_of::<I>(op.pos), run.measure::<I>());
            let seg = Seg::new(run.clone());
            cb_reset();
            cb().log_clones = true;
            f.t[s].as_mut().unwrap().insert(idx, seg, size);
            let c = std::mem::take(&mut cb().clones);
            cb().log_clones = false;
            let m = f.m[s].as_mut().unwrap();
            let touched = neighbours(m, op.pos);
            m.insert(op.pos, run, J);
            Some((s, c, touched))
        }
        a => {
            f.act(a);
            None
        }
    };
    let cloned = cb().counts[CLONE];
    let after: Vec<Option<Vec<_>>> = (0..SLOTS).map(|s| Some(layout(f.t[s].as_ref()?, f.m[s].as_ref()?))).collect();
    // nothing moves or changes in the other trees
    for s in 0..SLOTS {
        if r.as_ref().map(|r| r.0) != Some(s) && before[s].is_some() && after[s].is_some() && before[s] != after[s] {
            return Err(format!("{a:?} moved slices of tree {s}"));
        }
    }
    match (a, r) {
        (Act::Fork(s), _) => {
            if cloned != 0 {
                return Err(format!("cloning the tree copied {cloned} slices"));
            }
            if after[free.unwrap()] != before[s as usize] {
                return Err("the clone does not share all slices with the original".into());
            }
        }
        (Act::Drop(_), _) => {
            if cloned != 0 {
                return Err(format!("dropping a tree copied {cloned} slices"));
            }
        }
        (_, Some((s, clones, touched))) => {
            let (b, n) = (before[s].as_ref().unwrap(), after[s].as_ref().unwrap());
            let elsewhere: HashSet<usize> = (0..SLOTS).filter(|o| *o != s).filter_map(|o| before[o].as_ref()).flatten().map(|x| x.1).collect();
            // The change is in the node of a slice next to it, or, if that slice sits in an interior
            // node and has to be split, in the leaf on one side of it.
            let ways: Vec<Vec<u8>> = touched.iter().map(|alt| alt.iter().map(|k| b[*k].0.clone()).max_by_key(|p| p.len()).unwrap_or_default()).collect();
            let mut why = String::new();
            for way in ways {
                match along(b, n, &clones, &elsewhere, &way) {
                    Ok(()) => return Ok(()),
                    Err(e) => why = e,
                }
            }
            return Err(why);
        }
        _ => {}
    }
    Ok(())
}

type Layout = Vec<(Vec<u8>, usize, u32)>;

/// Is this all explained by a change in the node at `way`?
fn along(b: &Layout, n: &Layout, clones: &[u32], elsewhere: &HashSet<usize>, way: &[u8]) -> Result<(), String> {
    let on_way = |p: &Vec<u8>| way.starts_with(p);
    let mut allowed: HashSet<u32> = b.iter().filter(|x| on_way(&x.0) && elsewhere.contains(&x.1)).map(|x| x.2).collect();
    for c in clones {
        if !allowed.remove(c) {
            let why = match b.iter().find(|x| x.2 == *c) {
                None => "not in the tree, or copied twice".to_string(),
                Some(x) if !on_way(&x.0) => format!("in node {:?}, which is not on the way to {way:?}", x.0),
                Some(_) => "not shared with any other tree, or copied twice".to_string(),
            };
            return Err(format!("insertion copied slice {c}: {why}"));
        }
    }
    // whatever was elsewhere is still the very same slice
    let now: HashMap<u32, usize> = n.iter().map(|x| (x.2, x.1)).collect();
    for (p, addr, tok) in b {
        if !on_way(p) && now.get(tok) != Some(addr) {
            return Err(format!("slice {tok} in node {p:?}, which is not on the way to {way:?}, was moved or replaced"));
        }
    }
    Ok(())
}

fn free_slot_or(m: &Models) -> Option<usize> {
    (0..SLOTS).find(|s| m[*s].is_none())
}

/// runs next to the insertion point; alternatives
fn neighbours(m: &Model, pos: u32) -> Vec<Vec<usize>> {
    let (k, off) = m.locate(pos);
    let has = |v: Vec<i64>| v.into_iter().filter(|i| *i >= 0 && *i < m.len() as i64).map(|i| i as usize).collect::<Vec<_>>();
    let k = k as i64;
    if off > 0 {
        vec![has(vec![k, k + 1]), has(vec![k - 1, k])]
    } else {
        vec![has(vec![k - 1, k])]
    }
}

fn plans<I: Ix, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, ps: &[(&[Step], usize)]) {
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<I, AllowCow, J, M>(&hist)) else { return };
    if !matches!(ctx.base(|| same(&t, &m)), Some(Ok(()))) || !matches!(ctx.base(|| paths(&t, &m)), Some(_)) {
        return;
    }
    drop(t);
    for op in m.ops(op_size(hist.len()), J, Offsets::Mid) {
        if J && m.merges_both(op) {
            continue;
        }
        ctx.probe("alone", &op.vals(), || watch(&mut F::<I, J, M>::start(&hist), Act::Ins(0, op)));
        ctx.trace();
    }
    for (plan, max) in ps {
        if m.len() <= *max {
            run_plan::<I, AllowCow, J, M>(ctx, &format!("{plan:?}"), &hist, &m, plan, |fam, acts| {
                let (last, before) = acts.split_last().unwrap();
                for a in before {
                    fam.act(*a);
                }
                watch(fam, *last)
            });
        }
    }
    ctx.outcome(state);
}

const QUICK: &[(&[Step], usize)] = &[
    (&[Fork], 99),
    (&[Fork, InsAll], 99),
    (&[Fork, InsPlain, InsEdge], 99),
    (&[Fork, InsPlain, Drop, InsEdge], 99),
    (&[Fork, InsAll, InsAll], 6),
    (&[Fork, InsAll, Drop, InsAll], 6),
    (&[Fork, InsPlain, Fork, InsPlain], 8),
    (&[Fork, Fork, InsEdge, InsEdge], 8),
    (&[Fork, InsPlain, Fork, InsEdge, Drop, InsEdge], 5),
    (&[Fork, Any, Any, Any], 3),
    (&[Fork, Any, Any, Any, Any], 1),
];
const DEEP: &[(&[Step], usize)] = &[
    (&[Fork], 99),
    (&[Fork, InsAll], 99),
    (&[Fork, InsAll, InsAll], 99),
    (&[Fork, InsAll, Drop, InsAll], 99),
    (&[Fork, InsPlain, Fork, InsPlain], 12),
    (&[Fork, InsPlain, Fork, InsEdge, Drop, InsEdge], 8),
    (&[Fork, InsPlain, InsPlain, InsPlain], 6),
    (&[Fork, Any, Any, Any, Any], 4),
];

fn main() {
    fn go<I: Ix, const J: bool, const M: usize>(c: &mut Ctx, s: &str) {
        let p = c.tier.pick(QUICK, DEEP);
        plans::<I, J, M>(c, s, p)
    }
    drive(Check {
        id: "P11",
        level: "model_checking",
        rule: "states: every shape reachable with a bounded number of slices, per configuration; transitions: every sequence, following the listed plans, of clones, insertions and drops in a family of up to three trees; around the last action of each sequence the place, address and identity of every slice of every tree and every copy made are recorded: clones and drops copy nothing, an insertion copies only what is in nodes between the root and the insertion point and at the same address in another tree, everything else stays where it is",
        assumptions: &["two trees built without clones whose slices sit at the same paths behave alike (used to merge base states)", "a node is shared exactly if its slices are at the same addresses in another tree"],
        configs: vec![
            Config::new("usize/join/M1", shapes::<1>(14, 16), go::<usize, true, 1>),
            Config::new("usize/nojoin/M1", shapes::<1>(11, 14), go::<usize, false, 1>),
            Config::new("usize/join/M2", shapes::<2>(14, 19), go::<usize, true, 2>),
            Config::new("usize/join/M3", shapes::<3>(14, 22), go::<usize, true, 3>),
            Config::new("Heis/join/M1", shapes::<1>(7, 9), go::<Heis, true, 1>),
        ],
    })
}
