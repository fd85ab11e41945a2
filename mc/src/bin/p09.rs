//! Cloning a plain tree gives an independent equal tree.
use mc::common::*;

type T<I, const J: bool, const M: usize> = Tree<I, NoFeatures, J, M>;

fn addrs<I: Ix, const J: bool, const M: usize>(t: &T<I, J, M>) -> Vec<usize> {
    t.iter(..).map(|e| e.slice() as *const _ as usize).collect()
}

fn equal<I: Ix, const J: bool, const M: usize>(what: &str, t: &T<I, J, M>, m: &Model, ps: Option<&Vec<Vec<u8>>>) -> Result<(), String> {
    same(t, m).map_err(|e| format!("{what}: {e}"))?;
    same_by_lookup(t, m).map_err(|e| format!("{what}: {e}"))?;
    let b = m.bounds::<I>();
    iterate(&mut t.iter(..), m, &b, (0, m.len()), m.len() + 1, &|k| k % 3 != 1).map_err(|e| format!("{what}: {e}"))?;
    let p = paths(t, m);
    well_formed(&p, M).map_err(|e| format!("{what}: {e}"))?;
    if let Some(ps) = ps {
        if p != *ps {
            return Err(format!("{what}: slices are at {p:?}, expected {ps:?}"));
        }
    }
    Ok(())
}

fn run<I: Ix, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, deep: usize) {
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<I, NoFeatures, J, M>(&hist)) else { return };
    let Some(ps) = ctx.base(|| paths(&t, &m)) else { return };
    if !matches!(ctx.base(|| same(&t, &m)), Some(Ok(()))) {
        return;
    }
    ctx.probe("clone", &[], || {
        let (alive, before) = (ledger().alive, addrs(&t));
        cb_reset();
        let c = t.clone();
        if cb().counts[CLONE] != m.len() as u64 || ledger().alive - alive != m.len() as i64 {
            return Err(format!("cloning a tree of {} slices cloned {}", m.len(), cb().counts[CLONE]));
        }
        if cb().counts[DROP] + cb().counts[SPLIT] + cb().counts[JOIN] != 0 {
            return Err("cloning dropped, split or joined slices".into());
        }
        equal("clone", &c, &m, Some(&ps))?;
        equal("original", &t, &m, Some(&ps))?;
        if addrs(&t) != before {
            return Err("slices of the original moved".into());
        }
        if addrs(&c).iter().any(|a| before.contains(a)) {
            return Err("clone and original share a slice".into());
        }
        // a clone of the clone outlives both
        let d = c.clone();
        drop(c);
        equal("original after dropping the clone", &t, &m, Some(&ps))?;
        equal("clone of a dropped clone", &d, &m, Some(&ps))?;
        let (t2, _) = build::<I, NoFeatures, J, M>(&hist);
        let e = t2.clone();
        drop(t2);
        equal("clone of a dropped original", &e, &m, Some(&ps))
    });
    ctx.trace();
    ctx.outcome(&ps);
    let ops: Vec<Op> = m.ops(op_size(hist.len()), J, Offsets::Mid).into_iter().filter(|o| !(J && m.merges_both(*o))).collect();
    for op in &ops {
        ctx.probe("insert", &op.vals(), || {
            // into the clone
            let mut c = t.clone();
            let mut mc = m.clone();
            insert_op(&mut c, &mut mc, *op);
            equal("changed clone", &c, &mc, None)?;
            equal("original", &t, &m, Some(&ps))?;
            // a clone of a changed clone
            let d = c.clone();
            let pc = paths(&c, &mc);
            drop(c);
            equal("clone of the changed clone", &d, &mc, Some(&pc))?;
            drop(d);
            // into the original
            let (mut t2, mut m2) = build::<I, NoFeatures, J, M>(&hist);
            let c = t2.clone();
            insert_op(&mut t2, &mut m2, *op);
            equal("clone", &c, &m, Some(&ps))?;
            equal("changed original", &t2, &m2, None)?;
            drop(t2);
            equal("clone", &c, &m, Some(&ps))
        });
        ctx.trace();
        if m.len() > deep {
            continue;
        }
        let mut m1 = m.clone();
        m1.apply(*op, J);
        for (into_clone, ops2) in [(false, ops.clone()), (true, m1.ops(op_size(hist.len() + 1), J, Offsets::Mid))] {
            for op2 in ops2 {
                if into_clone && J && m1.merges_both(op2) {
                    continue;
                }
                let (a, b) = (op.vals(), op2.vals());
                ctx.probe("insert-insert", &[a[0], a[1], a[2], into_clone as i64, b[0], b[1], b[2]], || {
                    let (mut t, mut m) = build::<I, NoFeatures, J, M>(&hist);
                    let mut c = t.clone();
                    let mut mc = m.clone();
                    insert_op(&mut c, &mut mc, *op);
                    if into_clone {
                        insert_op(&mut c, &mut mc, op2);
                    } else {
                        insert_op(&mut t, &mut m, op2);
                    }
                    let d = c.clone();
                    equal("clone", &c, &mc, None)?;
                    equal("original", &t, &m, None)?;
                    drop(t);
                    drop(c);
                    equal("clone of the clone", &d, &mc, None)
                });
                ctx.trace();
            }
        }
    }
}

fn main() {
    drive(Check {
        id: "P09",
        level: "model_checking",
        rule: "states: every shape reachable with a bounded number of slices, per configuration; transitions: cloning, then every insertion into either tree (for small trees every pair of insertions into either), with both trees, and clones of clones, read in full before and after the other one is changed or dropped; clones are counted, addresses of slices compared",
        assumptions: &["two trees whose slices sit at the same paths behave alike under cloning (used to merge base states)"],
        configs: vec![
            Config::new("usize/join/M1", shapes::<1>(15, 19), |c, s| run::<usize, true, 1>(c, s, c.tier.pick(6, 9))),
            Config::new("usize/nojoin/M1", shapes::<1>(15, 19), |c, s| run::<usize, false, 1>(c, s, c.tier.pick(6, 9))),
            Config::new("usize/join/M2", shapes::<2>(18, 24), |c, s| run::<usize, true, 2>(c, s, c.tier.pick(6, 9))),
            Config::new("usize/join/M3", shapes::<3>(20, 32), |c, s| run::<usize, true, 3>(c, s, 0)),
            Config::new("Heis/join/M1", shapes::<1>(11, 15), |c, s| run::<Heis, true, 1>(c, s, 0)),
        ],
    })
}
