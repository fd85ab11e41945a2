//! Joining and splitting follow the documented protocol.
use mc::common::*;

/// The calls into the slice type an insertion has to make, in order
fn expected<const J: bool>(m: &Model, op: Op, new: &Run) -> (Vec<SplitRec>, Vec<JoinRec>) {
    let ends = |r: &Run| (r.frags[0], *r.frags.last().unwrap());
    let (i, off) = m.locate(op.pos);
    let mut splits = vec![];
    let (l, r) = if off != 0 {
        let mut l = m.runs[i].clone();
        splits.push(SplitRec { first: l.frags[0], size: l.units(), at: off as i64 });
        let r = l.split(off);
        (Some(l), Some(r))
    } else {
        (i.checked_sub(1).map(|k| m.runs[k].clone()), m.runs.get(i).cloned())
    };
    let mut joins = vec![];
    let mut mid = new.clone();
    if J {
        if let Some(l) = l {
            let ok = l.joins(&mid);
            joins.push(JoinRec { left: ends(&l), right: ends(&mid), ok });
            if ok {
                mid = l.join(mid);
            }
        }
        if let Some(r) = r {
            joins.push(JoinRec { left: ends(&mid), right: ends(&r), ok: mid.joins(&r) });
        }
    }
    (splits, joins)
}

fn start_log() {
    cb_reset();
    cb().log_joins = true;
}
fn take_log() -> (Vec<SplitRec>, Vec<JoinRec>) {
    let c = cb();
    c.log_joins = false;
    (std::mem::take(&mut c.splits), std::mem::take(&mut c.joins))
}

fn run<P, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, deep: usize, clone: fn(&Tree<usize, P, J, M>) -> Option<Tree<usize, P, J, M>>)
where
    P: RleTreeConfig<usize, Seg<J>, M> + SupportsInsert<usize, Seg<J>, M>,
{
    let hist = parse_hist(state);
    let m0 = Model::of(&hist, J);
    // nothing but insertion splits or joins
    ctx.probe("look", &[], || {
        let (t, m) = build::<usize, P, J, M>(&hist);
        start_log();
        let c = clone(&t);
        same(&t, &m)?;
        same_by_lookup(&t, &m)?;
        drop(c);
        drop(t);
        let (s, j) = take_log();
        if !s.is_empty() || !j.is_empty() {
            return Err(format!("reading, cloning and dropping made the calls {s:?} {j:?}"));
        }
        Ok(())
    });
    let check = |t: &mut Tree<usize, P, J, M>, m: &mut Model, op: Op| -> Result<(), String> {
        let new = m.fresh(op);
        let want = expected::<J>(m, op, &new);
        let three = J && m.merges_both(op);
        start_log();
        let r = guarded(|| t.insert(op.pos as usize, Seg::new(new.clone()), op.size as usize));
        let got = take_log();
        if let Err(e) = r {
            // merging three slices at a boundary is not implemented (P01's known finding); the
            // calls made until then are still to be in order
            if !(three && e.contains("not yet implemented")) {
                return Err(format!("unexpected panic: {e}"));
            }
        }
        if got.0 != want.0 {
            return Err(format!("splits made {:?}, expected {:?}", got.0, want.0));
        }
        if got.1 != want.1 {
            return Err(format!("joins tried {:?}, expected {:?}", got.1, want.1));
        }
        m.insert(op.pos, new, J);
        // exactly the successful joins are kept, whatever else is wrong with the tree
        if !three {
            let frags: Vec<Vec<Frag>> = t.iter(..).map(|e| e.slice().run().frags.clone()).collect();
            let want: Vec<Vec<Frag>> = m.runs.iter().map(|r| r.frags.clone()).collect();
            if frags != want {
                return Err(format!("slices are {frags:?}, expected {want:?}"));
            }
        }
        Ok(())
    };
    let mut ops = m0.ops(op_size(hist.len()), J, Offsets::Ends);
    if J {
        let st = m0.starts();
        ops.extend((1..m0.len()).map(|b| Op { pos: st[b], size: 1, kind: JL | JR }));
    }
    for op in ops {
        ctx.probe("insert", &op.vals(), || {
            let (mut t, mut m) = build::<usize, P, J, M>(&hist);
            check(&mut t, &mut m, op)
        });
        let _ = mc::values::ledger_error();
        ctx.trace();
        let kind = (op.kind, m0.locate(op.pos).1 != 0, m0.len().min(5));
        ctx.outcome(kind);
        if m0.len() > deep || J && m0.merges_both(op) {
            continue;
        }
        let mut m1 = m0.clone();
        m1.apply(op, J);
        for op2 in m1.ops(op_size(hist.len() + 1), J, Offsets::Mid) {
            let (a, b) = (op.vals(), op2.vals());
            ctx.probe("insert-insert", &[a[0], a[1], a[2], b[0], b[1], b[2]], || {
                let (mut t, mut m) = build::<usize, P, J, M>(&hist);
                insert_op(&mut t, &mut m, op);
                check(&mut t, &mut m, op2)
            });
            ctx.trace();
        }
    }
}

/// insertion into a copy-on-write tree whose nodes are all shared: the clones made on the way are
/// not to change the protocol, and the insertion must not split or join anything of the original
fn shared<const M: usize>(ctx: &mut Ctx, state: &str) {
    let hist = parse_hist(state);
    let m0 = Model::of(&hist, true);
    for op in m0.ops(op_size(hist.len()), true, Offsets::Mid) {
        ctx.probe("insert-shared", &op.vals(), || {
            let (t, m) = build::<usize, AllowCow, true, M>(&hist);
            let mut c = t.clone();
            let new = m.fresh(op);
            let want = expected::<true>(&m, op, &new);
            start_log();
            c.insert(op.pos as usize, Seg::new(new), op.size as usize);
            let got = take_log();
            if got != want {
                return Err(format!("calls made {got:?}, expected {want:?}"));
            }
            Ok(())
        });
        ctx.trace();
    }
}

/// references and insertion through a cursor follow the same protocol
fn by_ref<const M: usize>(ctx: &mut Ctx, state: &str) {
    let hist = parse_hist(state);
    let m0 = Model::of(&hist, true);
    for op in m0.ops(op_size(hist.len()), true, Offsets::Mid) {
        ctx.probe("insert_ref", &op.vals(), || {
            let (mut t, m) = build::<usize, AllowSliceRefs, true, M>(&hist);
            let keep: Vec<_> = t.iter(..).map(|e| e.make_ref()).collect();
            let new = m.fresh(op);
            let want = expected::<true>(&m, op, &new);
            start_log();
            let (_, r) = t.insert_ref_with_cursor(PathVec(vec![]), op.pos as usize, Seg::new(new), op.size as usize);
            drop(r);
            drop(keep);
            let got = take_log();
            if got != want {
                return Err(format!("calls made {got:?}, expected {want:?}"));
            }
            Ok(())
        });
        ctx.trace();
    }
}

fn no_equal_neighbours<P, const M: usize>(ctx: &mut Ctx, state: &str)
where
    P: RleTreeConfig<usize, Constant<u8>, M> + SupportsInsert<usize, Constant<u8>, M>,
{
    let steps = parse_hist(state);
    ctx.probe("equal-neighbours", &[], || {
        let mut t: RleTree<usize, Constant<u8>, P, M> = RleTree::new_empty();
        for s in &steps {
            let p = s.pos as usize;
            if p > 0 && p < t.size() {
                let (a, b) = (t.get(p - 1), t.get(p));
                if a.slice().0 == s.kind && b.slice().0 == s.kind && b.range().start == p && a.range().end == p {
                    return Ok(()); // three-way join, as above
                }
            }
            t.insert(p, Constant(s.kind), s.size as usize);
            let v: Vec<u8> = t.iter(..).map(|e| e.slice().0).collect();
            if v.windows(2).any(|w| w[0] == w[1]) {
                return Err(format!("equal neighbours in {v:?}"));
            }
        }
        Ok(())
    });
    ctx.trace();
}

fn texts(depth: usize, letters: u8) -> Vec<String> {
    let mut out = vec![];
    let mut level: Vec<(Vec<Op>, u32)> = vec![(vec![], 0)];
    for _ in 0..depth {
        let mut next = vec![];
        for (h, n) in &level {
            for p in 0..=*n {
                for c in 0..letters {
                    let mut h = h.clone();
                    h.push(Op { pos: p, size: 2, kind: c });
                    next.push((h, n + 2));
                }
            }
        }
        out = next.iter().map(|x| hist_text(&x.0)).collect();
        level = next;
    }
    out
}

fn main() {
    drive(Check {
        id: "P07",
        level: "model_checking",
        rule: "states: every shape reachable with a bounded number of slices, per configuration; transitions: every insertion (each boundary and three split points of every run, joining with neither, left, right or both), for small trees after every first insertion; the calls made into the slice type are recorded and compared, in order and content, with those the documentation prescribes for a plain list of runs. Separately every text over two or three letters up to a number of insertions, no two equal neighbours allowed.",
        assumptions: &["an insertion that merges three runs at a boundary panics after its calls (known finding of P01); its calls are checked, its outcome is not"],
        configs: vec![
            Config::new("NoFeatures/join/M1", shapes::<1>(17, 21), |c, s| run::<NoFeatures, true, 1>(c, s, c.tier.pick(9, 13), |t| Some(t.clone()))),
            Config::new("NoFeatures/nojoin/M1", shapes::<1>(16, 20), |c, s| run::<NoFeatures, false, 1>(c, s, c.tier.pick(9, 12), |t| Some(t.clone()))),
            Config::new("NoFeatures/join/M2", shapes::<2>(20, 26), |c, s| run::<NoFeatures, true, 2>(c, s, c.tier.pick(9, 13), |t| Some(t.clone()))),
            Config::new("NoFeatures/join/M3", shapes::<3>(20, 32), |c, s| run::<NoFeatures, true, 3>(c, s, 0, |t| Some(t.clone()))),
            Config::new("AllowCow/join/M1", shapes::<1>(15, 19), |c, s| run::<AllowCow, true, 1>(c, s, c.tier.pick(7, 10), |t| Some(t.clone()))),
            Config::new("AllowCow/nojoin/M2", shapes::<2>(16, 20), |c, s| run::<AllowCow, false, 2>(c, s, c.tier.pick(7, 10), |t| Some(t.clone()))),
            Config::new("AllowSliceRefs/join/M1", shapes::<1>(15, 19), |c, s| run::<AllowSliceRefs, true, 1>(c, s, c.tier.pick(7, 10), |_| None)),
            Config::new("AllowCow/shared/M1", shapes::<1>(15, 19), |c, s| shared::<1>(c, s)),
            Config::new("AllowCow/shared/M2", shapes::<2>(18, 22), |c, s| shared::<2>(c, s)),
            Config::new("AllowSliceRefs/insert_ref/M1", shapes::<1>(15, 19), |c, s| by_ref::<1>(c, s)),
            Config::new("AllowSliceRefs/insert_ref/M2", shapes::<2>(18, 22), |c, s| by_ref::<2>(c, s)),
            Config::new("text2/NoFeatures/M1", |t, _| texts(t.pick(6, 7), 2), |c, s| no_equal_neighbours::<NoFeatures, 1>(c, s)),
            Config::new("text3/NoFeatures/M1", |t, _| texts(t.pick(5, 6), 3), |c, s| no_equal_neighbours::<NoFeatures, 1>(c, s)),
            Config::new("text2/AllowCow/M1", |t, _| texts(t.pick(5, 6), 2), |c, s| no_equal_neighbours::<AllowCow, 1>(c, s)),
        ],
    })
}
