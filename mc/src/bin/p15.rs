//! A slice reference follows its slice through every insertion.
use mc::common::*;
use mc::refs::*;
use RAct::*;

/// Which slices have references before the insertions: all, none, alternating, each alone, pairs
fn masks(n: usize, dense: bool) -> Vec<u64> {
    let all = (1u64 << n) - 1;
    if dense && n <= 8 {
        return (0..=all).collect();
    }
    let mut v = vec![all, 0, 0x5555_5555_5555_5555 & all, 0xAAAA_AAAA_AAAA_AAAA & all];
    v.dedup();
    v
}

fn go<I: Ix, const J: bool, const M: usize>(ctx: &mut Ctx, tag: &str, hist: &[Op], mask: u64, acts: &[RAct]) {
    let mut v = RAct::text(acts);
    v.push(mask as i64);
    ctx.probe(tag, &v, || {
        let mut w = World::<I, J, M>::start(hist);
        w.make_refs(mask)?;
        for a in acts {
            w.act(*a)?;
        }
        w.check_with(acts.len() < 2)
    });
    ctx.trace();
}

fn run<I: Ix, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, dense: usize, pairs: usize, triples: usize) {
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<I, AllowSliceRefs, J, M>(&hist)) else { return };
    if !matches!(ctx.base(|| same(&t, &m)), Some(Ok(()))) {
        return;
    }
    drop(t);
    // made while building: every insertion of the history returns a reference that is kept
    ctx.probe("history", &[], || {
        let mut w = World::<I, J, M>::start(&[]);
        for o in &hist {
            w.act(InsertRef(*o))?;
            w.check_with(false)?;
        }
        w.check()
    });
    ctx.trace();
    let n = m.len();
    let ops = |m: &Model, k: usize| -> Vec<Op> { m.ops(op_size(k), J, Offsets::Mid).into_iter().filter(|o| !(J && m.merges_both(*o))).collect() };
    let h = hist.len();
    for op in ops(&m, h) {
        for mask in masks(n, n <= dense) {
            for a in [Insert(op), InsertRef(op)] {
                go::<I, J, M>(ctx, "insert", &hist, mask, &[a]);
            }
        }
        ctx.probe("insert-history", &RAct::text(&[InsertRef(op)]), || {
            let mut w = World::<I, J, M>::start(&[]);
            for o in &hist {
                w.act(InsertRef(*o))?;
            }
            w.act(InsertRef(op))?;
            w.check()
        });
        ctx.trace();
        if n > pairs {
            continue;
        }
        let mut m1 = m.clone();
        let at = m1.apply(op, J).at;
        let all = (1u64 << n) - 1;
        for op2 in ops(&m1, h + 1) {
            go::<I, J, M>(ctx, "insert-insert", &hist, all, &[InsertRef(op), InsertRef(op2)]);
            go::<I, J, M>(ctx, "insert-insert", &hist, 0, &[InsertRef(op), InsertRef(op2)]);
            go::<I, J, M>(ctx, "insert-ref-insert", &hist, 0, &[Insert(op), MakeRef(at as u8), CloneRef(0), InsertRef(op2)]);
            if n > triples {
                continue;
            }
            let mut m2 = m1.clone();
            m2.apply(op2, J);
            for op3 in ops(&m2, h + 2) {
                go::<I, J, M>(ctx, "three", &hist, all, &[InsertRef(op), InsertRef(op2), InsertRef(op3)]);
                go::<I, J, M>(ctx, "three", &hist, 0, &[Insert(op), InsertRef(op2), InsertRef(op3)]);
            }
        }
    }
    ctx.outcome(state);
}

fn main() {
    drive(Check {
        id: "P15",
        level: "model_checking",
        rule: "states: every shape reachable with a bounded number of slices, with references to all, none, every other or (small trees) every subset of the slices, or to whatever each insertion of the history returned; transitions: every insertion, for smaller trees every pair and triple of insertions, with every pattern of joins, with and without taking a reference; afterwards value, range, cursor and validity of every reference are compared with the run the reference has to denote",
        assumptions: &["two trees whose slices sit at the same paths behave alike (used to merge base states)"],
        configs: vec![
            Config::new("usize/join/M1", shapes::<1>(17, 20), |c, s| run::<usize, true, 1>(c, s, c.tier.pick(6, 8), c.tier.pick(11, 15), c.tier.pick(5, 7))),
            Config::new("usize/nojoin/M1", shapes::<1>(15, 19), |c, s| run::<usize, false, 1>(c, s, c.tier.pick(6, 8), c.tier.pick(10, 14), c.tier.pick(5, 8))),
            Config::new("usize/join/M2", shapes::<2>(20, 26), |c, s| run::<usize, true, 2>(c, s, c.tier.pick(5, 8), c.tier.pick(13, 18), c.tier.pick(4, 6))),
            Config::new("usize/join/M3", shapes::<3>(21, 30), |c, s| run::<usize, true, 3>(c, s, c.tier.pick(6, 7), c.tier.pick(8, 14), 0)),
            Config::new("widest/two levels/M127", wide::children::<127>(1), |c, s| wide::split_root::<AllowSliceRefs, 127>(c, s, &|t, f, _, _| wide::same(t, f))),
            Config::new("Heis/join/M1", shapes::<1>(11, 15), |c, s| run::<Heis, true, 1>(c, s, 4, 6, 0)),
        ],
    })
}
