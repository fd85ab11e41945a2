//! Copy-on-write clones never see each other's changes.
use mc::common::*;
use mc::fam::*;
use Step::*;

fn plans<I: Ix, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, ps: &[(&[Step], usize)]) {
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<I, AllowCow, J, M>(&hist)) else { return };
    if !matches!(ctx.base(|| same(&t, &m)), Some(Ok(()))) {
        return;
    }
    drop(t);
    for (plan, max) in ps {
        if m.len() <= *max {
            run_plan::<I, AllowCow, J, M>(ctx, &format!("{plan:?}"), &hist, &m, plan, |fam, acts| {
                for a in acts {
                    fam.act(*a);
                }
                fam.read_all()
            });
        }
    }
    held::<I, J, M>(ctx, &hist, &m);
    ctx.outcome(state);
}

/// An iterator and an entry are held on one tree while clones of it come, change and go
fn held<I: Ix, const J: bool, const M: usize>(ctx: &mut Ctx, hist: &[Op], m: &Model) {
    let ops = m.ops(op_size(hist.len()), J, Offsets::Mid);
    for (i, op) in ops.iter().enumerate() {
        if J && m.merges_both(*op) {
            continue;
        }
        for before in 0..=m.len() {
            if m.len() > 8 && (i + before) % 4 != 0 {
                continue;
            }
            let v = op.vals();
            ctx.probe("held-iterator", &[v[0], v[1], v[2], before as i64], || {
                let (t, m) = build::<I, AllowCow, J, M>(hist);
                let b = m.bounds::<I>();
                for back in [false, true] {
                    let mut it = t.iter(..);
                    let (lo, hi) = if back { (0, m.len() - before) } else { (before, m.len()) };
                    iterate(&mut it, &m, &b, (0, m.len()), before, &|_| back)?;
                    let e = (m.len() > 0).then(|| t.get(b[m.len() / 2]));
                    let mut c = t.clone();
                    let mut mc = m.clone();
                    mc.next_id += 100;
                    insert_op(&mut c, &mut mc, *op);
                    let d = c.clone();
                    drop(c);
                    same(&d, &mc)?;
                    iterate(&mut it, &m, &b, (lo, hi), 1, &|_| back)?;
                    let (lo, hi) = if lo >= hi { (lo, hi) } else if back { (lo, hi - 1) } else { (lo + 1, hi) };
                    drop(d);
                    iterate(&mut it, &m, &b, (lo, hi), hi - lo + 1, &|k| (k % 2 == 1) != back)?;
                    if let Some(e) = e {
                        entry_is(&e.range(), e.size(), e.slice(), &m, &b, m.len() / 2)?;
                    }
                }
                Ok(())
            });
            ctx.trace();
        }
    }
}

/// Memory of dropped nodes is given to new ones in every possible way
fn reuse<I: Ix, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, plans: &[(&[Step], usize)]) {
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<I, AllowCow, J, M>(&hist)) else { return };
    if !matches!(ctx.base(|| same(&t, &m)), Some(Ok(()))) {
        return;
    }
    let Some(ps) = ctx.base(|| paths(&t, &m)) else { return };
    if ps.iter().map(|p| p.len()).max().unwrap_or(0) < 2 {
        return;
    }
    drop(t);
    // nodes with children are the biggest of the most strictly aligned blocks allocated
    let Some(mut sizes) = ctx.base(|| mc::alloc::sizes_of(|| build::<I, AllowCow, J, M>(&hist).0)) else { return };
    sizes.sort_by_key(|s| (s.1, s.0));
    let Some((size, _)) = sizes.last().copied() else { return };
    for (plan, max) in plans {
        if m.len() > *max {
            continue;
        }
        sequences_of(&m, plan, op_size(hist.len()), J, &mut |acts, _| {
            let mut digits: Vec<u8> = vec![];
            loop {
                let mut v = Act::text(acts);
                v.push(digits.iter().rev().fold(1, |a, d| a * 5 + *d as i64));
                let mut options = vec![];
                ctx.probe("reuse", &v, || {
                    let mut fam = Fam::<I, AllowCow, J, M>::start(&hist);
                    let (last, before) = acts.split_last().unwrap();
                    for a in before {
                        fam.act(*a);
                    }
                    let Act::Ins(s, op) = *last else { unreachable!() };
                    let (t, m) = (fam.t[s as usize].as_mut().unwrap(), fam.m[s as usize].as_mut().unwrap());
                    let run = m.fresh(op);
                    let (idx, sz) = (m.index_of::<I>(op.pos), run.measure::<I>());
                    let seg = Seg::new(run.clone());
                    options = mc::alloc::scripted(size, &digits, || t.insert(idx, seg, sz)).1;
                    m.insert(op.pos, run, J);
                    fam.read_all()
                });
                mc::alloc::disarm();
                ctx.add(&format!("memory_choices[{}]", options.len()), 1);
                ctx.trace();
                options.truncate(6);
                // next script
                digits.resize(options.len(), 0);
                while let Some(d) = digits.pop() {
                    if d + 1 < options[digits.len()] {
                        digits.push(d + 1);
                        break;
                    }
                }
                if digits.is_empty() {
                    break;
                }
            }
        });
    }
}

/// Something happens to other trees while user code is called by an insertion
fn meanwhile<I: Ix, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, kinds: u32) {
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<I, AllowCow, J, M>(&hist)) else { return };
    if !matches!(ctx.base(|| same(&t, &m)), Some(Ok(()))) {
        return;
    }
    drop(t);
    reentrant::<I, J, M>(ctx, &hist, &m, kinds, &|_, _, _| Ok(()));
    ctx.outcome(state);
}
const SLICES: u32 = 1 << SPLIT | 1 << JOIN | 1 << CLONE | 1 << DROP;
const INDEXES: u32 = 1 << ADD | 1 << SUB | 1 << CMP;

const REUSE_QUICK: &[(&[Step], usize)] = &[(&[Fork, InsEdge, Drop, InsEdge], 13), (&[Fork, InsEdge, Fork, Drop, InsEdge], 8)];
const REUSE_DEEP: &[(&[Step], usize)] = &[(&[Fork, InsPlain, Drop, InsPlain], 15), (&[Fork, InsPlain, Fork, Drop, InsPlain], 9)];

const QUICK: &[(&[Step], usize)] = &[
    (&[Fork, InsAll], 99),
    (&[Fork, InsPlain, InsEdge], 99),
    (&[Fork, InsPlain, Drop, InsEdge], 99),
    (&[Fork, InsAll, InsAll], 8),
    (&[Fork, InsAll, Drop, InsAll], 8),
    (&[Fork, InsPlain, Fork, InsEdge, Drop, InsEdge], 5),
    (&[Fork, Any, Any, Any], 3),
    (&[Fork, Any, Any, Any, Any], 1),
];
const DEEP: &[(&[Step], usize)] = &[
    (&[Fork, InsAll, InsAll], 99),
    (&[Fork, InsAll, Drop, InsAll], 99),
    (&[Fork, InsPlain, Fork, InsPlain], 12),
    (&[Fork, InsPlain, Fork, InsEdge, Drop, InsEdge], 9),
    (&[Fork, InsPlain, InsEdge, Drop, InsEdge], 11),
    (&[Fork, InsPlain, InsPlain, InsPlain], 7),
    (&[Fork, Any, Any, Any, Any], 4),
    (&[Fork, Any, Any, Any, Any, Any], 1),
];

fn main() {
    fn go<I: Ix, const J: bool, const M: usize>(c: &mut Ctx, s: &str) {
        let p = c.tier.pick(QUICK, DEEP);
        plans::<I, J, M>(c, s, p)
    }
    drive(Check {
        id: "P10",
        level: "model_checking",
        rule: "states: every shape reachable with a bounded number of slices, per configuration; transitions: every sequence, following the listed plans, of clones, insertions (all insertion points, join patterns) into any member of a family of up to three trees, and drops of any member; after the sequence every remaining tree is read in full, forwards, backwards, alternating and by lookup, and compared with its own list; also iterators and entries held on one tree across changes to its clones. Sequences are not merged, because nodes keep links that cannot be observed.",
        assumptions: &["two trees built without clones whose slices sit at the same paths behave alike (used to merge base states)"],
        configs: vec![
            Config::new("usize/join/M1", shapes::<1>(14, 15), go::<usize, true, 1>),
            Config::new("usize/nojoin/M1", shapes::<1>(9, 12), go::<usize, false, 1>),
            Config::new("usize/join/M2", shapes::<2>(14, 17), go::<usize, true, 2>),
            Config::new("usize/join/M3", shapes::<3>(12, 22), go::<usize, true, 3>),
            Config::new("reuse/join/M1", shapes::<1>(13, 15), |c, s| reuse::<usize, true, 1>(c, s, c.tier.pick(REUSE_QUICK, REUSE_DEEP))),
            Config::new("widest/two levels/M127", wide::children::<127>(1), |c, s| wide::split_root::<AllowCow, 127>(c, s, &|t, f, _, _| wide::same(t, f))),
            Config::new("in the middle/slices/join/M1", shapes::<1>(8, 11), |c, s| meanwhile::<usize, true, 1>(c, s, SLICES)),
            Config::new("in the middle/slices/join/M2", shapes::<2>(9, 12), |c, s| meanwhile::<usize, true, 2>(c, s, SLICES)),
            Config::new("in the middle/indexes/join/M1", shapes::<1>(4, 7), |c, s| meanwhile::<Cu, true, 1>(c, s, INDEXES)),
            Config::new("Heis/join/M1", shapes::<1>(7, 9), go::<Heis, true, 1>),
        ],
    })
}
