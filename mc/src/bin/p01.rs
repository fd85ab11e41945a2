//! Insertion behaves like insertion into a plain sequence of runs.
use mc::common::*;

fn full<I: Ix, P: RleTreeConfig<I, Seg<J>, M>, const J: bool, const M: usize>(t: &Tree<I, P, J, M>, m: &Model) -> Result<(), String> {
    same(t, m)?;
    same_by_lookup(t, m)
}

fn run<I, P, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, second: usize)
where
    I: Ix,
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M> + 'static,
{
    let hist = parse_hist(state);
    let m0 = Model::of(&hist, J);
    set_limit(u32::MAX);
    let limit = std::any::TypeId::of::<I>() == std::any::TypeId::of::<Lim>();
    ctx.probe("build", &[], || {
        let (t, m) = build::<I, P, J, M>(&hist);
        full(&t, &m)
    });
    let mut sizes = vec![op_size(hist.len())];
    if m0.len() <= 8 {
        sizes.push(1);
    }
    for z in sizes {
        let offs = if z == 1 { Offsets::Mid } else { Offsets::Ends };
        let mut ops = m0.ops(z, J, offs);
        if J && z == 1 {
            // joining with two existing neighbours at a boundary
            let st = m0.starts();
            ops.extend((1..m0.len()).map(|b| Op { pos: st[b], size: z, kind: JL | JR }));
        }
        for op in ops {
            let three = J && m0.merges_both(op);
            let mut next: Option<Model> = None;
            set_limit(if limit { m0.units() + z } else { u32::MAX });
            let verdict = |next: &mut Option<Model>| {
                let (mut t, mut m) = build::<I, P, J, M>(&hist);
                insert_op(&mut t, &mut m, op);
                full(&t, &m)?;
                *next = Some(m);
                Ok(())
            };
            if three {
                let mut r: Result<(), String> = Ok(());
                ctx.probe("insert-joining-both-neighbours", &op.vals(), || {
                    r = match guarded(|| verdict(&mut next)) {
                        Ok(x) => x,
                        Err(p) => Err(p),
                    };
                    Ok(())
                });
                if let Err(e) = r {
                    let key = if e.contains("not yet implemented") { "three-way-join-unimplemented" } else { "three-way-join" };
                    ctx.fail("insert-joining-both-neighbours", &op.vals(), key, e);
                }
                // the tree that panicked is out of the picture; what it refers to is P14's matter
                let _ = mc::values::ledger_error();
                continue;
            }
            let ok = ctx.probe("insert", &op.vals(), || verdict(&mut next));
            ctx.trace();
            let Some(m1) = next.filter(|_| ok) else { continue };
            ctx.outcome((m1.len(), m1.runs.iter().map(|r| r.frags.len()).collect::<Vec<_>>(), m1.units()));
            // a second insertion, anywhere: whatever the first one may have left wrong inside
            if m1.len() > second || z == 1 {
                continue;
            }
            for op2 in m1.ops(op_size(hist.len() + 1), J, Offsets::Mid) {
                if J && m1.merges_both(op2) {
                    continue;
                }
                set_limit(if limit { m1.units() + op2.size } else { u32::MAX });
                let (a, b) = (op.vals(), op2.vals());
                ctx.probe("insert-insert", &[a[0], a[1], a[2], b[0], b[1], b[2]], || {
                    let (mut t, mut m) = build::<I, P, J, M>(&hist);
                    insert_op(&mut t, &mut m, op);
                    insert_op(&mut t, &mut m, op2);
                    full(&t, &m)
                });
                ctx.trace();
            }
        }
    }
}

/// whole histories as base states: check every prefix once, nothing further
fn run_seq<I, P, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str)
where
    I: Ix,
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
{
    let hist = parse_hist(state);
    ctx.probe("sequence", &[], || {
        let (t, m) = build::<I, P, J, M>(&hist);
        full(&t, &m)?;
        if let Some(f) = hist.first() {
            // the same starting from `RleTree::new`
            let mut m = Model::new();
            let r = m.fresh(*f);
            let mut t = Tree::<I, P, J, M>::new(Seg::new(r.clone()), r.measure());
            m.insert(0, r, J);
            for o in &hist[1..] {
                insert_op(&mut t, &mut m, *o);
            }
            full(&t, &m)?;
        }
        Ok(())
    });
    ctx.trace();
}

/// Runs of equal values: the tree must be the canonical run-length encoding of the text
fn run_text<P, const M: usize>(ctx: &mut Ctx, state: &str)
where
    P: RleTreeConfig<usize, Constant<u8>, M> + SupportsInsert<usize, Constant<u8>, M>,
{
    // state: steps `pos:size:value`
    let steps = parse_hist(state);
    ctx.probe("text", &[], || {
        let mut t: RleTree<usize, Constant<u8>, P, M> = RleTree::new_empty();
        let mut text: Vec<u8> = Vec::new();
        for s in &steps {
            let p = s.pos as usize;
            // both neighbours equal to the new value: unimplemented (known finding)
            if p > 0 && p < text.len() && text[p - 1] == s.kind && text[p] == s.kind {
                let e = t.get(p);
                if e.range().start == p {
                    return Ok(());
                }
            }
            t.insert(p, Constant(s.kind), s.size as usize);
            for _ in 0..s.size {
                text.insert(p, s.kind);
            }
            let mut q = 0;
            let mut last = None;
            for e in t.iter(..) {
                let (r, v) = (e.range(), e.slice().0);
                if r.start != q || r.end <= r.start || r.end > text.len() || text[r.clone()].iter().any(|x| *x != v) {
                    return Err(format!("slice {v} at {r:?} of text {text:?}"));
                }
                if last == Some(v) {
                    return Err(format!("adjacent equal runs of {v} at {q} in text {text:?}"));
                }
                last = Some(v);
                q = r.end;
            }
            if q != text.len() || t.size() != q {
                return Err(format!("slices end at {q}, size {}, text has {}", t.size(), text.len()));
            }
        }
        Ok(())
    });
    ctx.trace();
}

fn texts(depth: usize) -> Vec<String> {
    // two letters, sizes 1 and 2, every position
    let mut out = vec![];
    let mut level: Vec<(Vec<Op>, u32)> = vec![(vec![], 0)];
    for _ in 0..depth {
        let mut next = vec![];
        for (h, n) in &level {
            for p in 0..=*n {
                for z in [1u32, 2] {
                    for c in 0..2u8 {
                        let mut h = h.clone();
                        h.push(Op { pos: p, size: z, kind: c });
                        next.push((h, n + z));
                    }
                }
            }
        }
        out = next.iter().map(|x| hist_text(&x.0)).collect();
        level = next;
    }
    out
}

fn main() {
    let configs = vec![
        Config::new("usize/NoFeatures/join/M1", shapes::<1>(17, 21), |c, s| {
            let k = c.tier.pick(11, 15);
            run::<usize, NoFeatures, true, 1>(c, s, k)
        }),
        Config::new("usize/NoFeatures/nojoin/M1", shapes::<1>(15, 19), |c, s| run::<usize, NoFeatures, false, 1>(c, s, 0)),
        Config::new("usize/NoFeatures/join/M2", shapes::<2>(20, 26), |c, s| run::<usize, NoFeatures, true, 2>(c, s, c.tier.pick(10, 14))),
        Config::new("usize/NoFeatures/join/M3", shapes::<3>(20, 36), |c, s| run::<usize, NoFeatures, true, 3>(c, s, 0)),
        Config::new("usize/NoFeatures/join/M5", shapes::<5>(14, 35), |c, s| run::<usize, NoFeatures, true, 5>(c, s, 0)),
        Config::new("usize/AllowCow/join/M1", shapes::<1>(15, 19), |c, s| run::<usize, AllowCow, true, 1>(c, s, c.tier.pick(9, 12))),
        Config::new("usize/AllowCow/join/M2", shapes::<2>(17, 22), |c, s| run::<usize, AllowCow, true, 2>(c, s, 0)),
        Config::new("usize/AllowSliceRefs/join/M1", shapes::<1>(15, 19), |c, s| run::<usize, AllowSliceRefs, true, 1>(c, s, c.tier.pick(9, 12))),
        Config::new("usize/AllowSliceRefs/join/M2", shapes::<2>(17, 22), |c, s| run::<usize, AllowSliceRefs, true, 2>(c, s, 0)),
        Config::new("Lim/NoFeatures/join/M1", shapes::<1>(15, 19), |c, s| run::<Lim, NoFeatures, true, 1>(c, s, c.tier.pick(8, 11))),
        Config::new("widest/NoFeatures/join/M127", fills::<127>(true), |c, s| run::<usize, NoFeatures, true, 127>(c, s, 0)),
        Config::new("widest/AllowSliceRefs/nojoin/M127", fills::<127>(false), |c, s| run::<usize, AllowSliceRefs, false, 127>(c, s, 0)),
        Config::new("widest/AllowCow/join/M64", fills::<64>(true), |c, s| run::<usize, AllowCow, true, 64>(c, s, 0)),
        Config::new("widest/two levels/M127", wide::children::<127>(1), |c, s| wide::split_root::<NoFeatures, 127>(c, s, &|t, f, _, _| wide::same(t, f))),
        Config::new("u8/NoFeatures/join/M1", |t, _| sequences(t.pick(4, 4), &[84, 85, 1], true, Offsets::Ends, 255), |c, s| run_seq::<u8, NoFeatures, true, 1>(c, s)),
        Config::new("usize/NoFeatures/all-sequences/M1", |t, _| sequences(t.pick(4, 5), &[1, 2], true, Offsets::All, 1000), |c, s| run_seq::<usize, NoFeatures, true, 1>(c, s)),
        Config::new("text/NoFeatures/M1", |t, _| texts(t.pick(4, 5)), |c, s| run_text::<NoFeatures, 1>(c, s)),
        Config::new("text/AllowSliceRefs/M1", |t, _| texts(t.pick(3, 4)), |c, s| run_text::<AllowSliceRefs, 1>(c, s)),
    ];
    drive(Check {
        id: "P01",
        level: "model_checking",
        rule: "states: every shape reachable with a bounded number of slices (or every insertion sequence up to a depth), per configuration; transitions: every insertion (each boundary and three split points of every run, joining with neither, left, right or both), then for small trees every second insertion; after each the whole tree is read by iteration and by lookup and compared with a list of runs",
        assumptions: &[
            "two trees whose slices sit at the same paths behave alike under insertion (used to merge base states; checked independently by also running second insertions and whole sequences without merging)",
            "index alphabet: sizes about 2^20, and 1, 2, 3, 84, 85",
        ],
        configs,
    })
}
