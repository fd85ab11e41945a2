//! Lookup by index returns the slice containing the index; other indexes are refused.
use mc::common::*;

fn lookups<I, P, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, all: bool)
where
    I: Ix,
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
{
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<I, P, J, M>(&hist)) else { return };
    // a tree that is not what it should be is P01's affair
    if !matches!(ctx.base(|| same(&t, &m)), Some(Ok(()))) {
        return;
    }
    let (st, b) = (m.starts(), m.bounds::<I>());
    for k in 0..m.len() {
        let u = m.runs[k].units();
        let mut offs: Vec<u32> = if all { (0..u).collect() } else { vec![0, 1, u / 2, u - 1] };
        offs.retain(|o| *o < u);
        for off in offs {
            let idx: I = m.index_of(st[k] + off);
            ctx.probe("get", &[(st[k] + off) as i64], || {
                let e = t.get(idx);
                entry_is(&e.range(), e.size(), e.slice(), &m, &b, k)?;
                let c = e.clone();
                entry_is(&c.range(), c.size(), c.slice(), &m, &b, k)?;
                let e = t.get_with_cursor(NoCursor, idx);
                entry_is(&e.range(), e.size(), e.slice(), &m, &b, k)?;
                let c: PathVec = t.cursor_to(idx);
                let e = t.get_with_cursor(c, idx);
                entry_is(&e.range(), e.size(), e.slice(), &m, &b, k)
            });
            ctx.outcome((k, off.min(2), m.len()));
            ctx.trace();
        }
    }
    ctx.probe("undisturbed", &[], || same(&t, &m));
    drop(t);
}

fn refused<I, P, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, beyond: &[I], negative: &[I])
where
    I: Ix,
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
{
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<I, P, J, M>(&hist)) else { return };
    if !matches!(ctx.base(|| same(&t, &m)), Some(Ok(()))) {
        return;
    }
    let total = m.index_of::<I>(m.units());
    let mut bad: Vec<I> = beyond.iter().map(|x| total.add_right(*x)).collect();
    bad.extend_from_slice(negative);
    for (i, idx) in bad.into_iter().enumerate() {
        ctx.probe("refuse", &[i as i64, idx.units()], || {
            if let Ok(e) = guarded(|| t.get(idx).range()) {
                return Err(format!("lookup of {idx:?} in a tree of size {total:?} returned {e:?}"));
            }
            if let Ok(e) = guarded(|| t.get_with_cursor(PathVec(vec![]), idx).range()) {
                return Err(format!("lookup of {idx:?} with a cursor in a tree of size {total:?} returned {e:?}"));
            }
            if let Ok(e) = guarded(|| t.cursor_to::<PathVec>(idx)) {
                return Err(format!("cursor to {idx:?} in a tree of size {total:?} returned {e:?}"));
            }
            // cursors that keep less, or nothing, are no excuse
            if guarded(|| drop(t.cursor_to::<NoCursor>(idx))).is_ok() {
                return Err(format!("cursor to {idx:?} in a tree of size {total:?} returned an empty cursor"));
            }
            if let Ok(e) = guarded(|| t.cursor_to::<BoundedCursor<1>>(idx)) {
                return Err(format!("bounded cursor to {idx:?} in a tree of size {total:?} returned {e:?}"));
            }
            if let Ok(e) = guarded(|| t.get_with_cursor(NoCursor, idx).range()) {
                return Err(format!("lookup of {idx:?} without a cursor in a tree of size {total:?} returned {e:?}"));
            }
            // ... nor are cursors that lead somewhere
            for (k, p) in [0, total.units() / 2, total.units() - 1].into_iter().filter(|p| *p >= 0 && *p < total.units()).enumerate() {
                let c: PathVec = t.cursor_to(m.index_of(p as u32));
                if let Ok(e) = guarded(|| t.get_with_cursor(c, idx).range()) {
                    return Err(format!("lookup of {idx:?} with cursor {k} in a tree of size {total:?} returned {e:?}"));
                }
            }
            same(&t, &m)
        });
        ctx.trace();
    }
}

fn both<I: Ix, P, const J: bool, const M: usize>(ctx: &mut Ctx, s: &str, one: I)
where
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
{
    lookups::<I, P, J, M>(ctx, s, false);
    refused::<I, P, J, M>(ctx, s, &[I::ZERO, one, one.add_right(one)], &[]);
}

/// two copy-on-write trees sharing nodes: lookups in both after one has changed
fn fork<const M: usize>(ctx: &mut Ctx, state: &str) {
    let hist = parse_hist(state);
    let m0 = Model::of(&hist, true);
    for op in m0.ops(op_size(hist.len()), true, Offsets::Mid) {
        ctx.probe("fork", &op.vals(), || {
            let (t, m) = build::<usize, AllowCow, true, M>(&hist);
            let (mut t2, mut m2) = (t.clone(), m.clone());
            insert_op(&mut t2, &mut m2, op);
            same_by_lookup(&t2, &m2)?;
            same_by_lookup(&t, &m)?;
            drop(t);
            same_by_lookup(&t2, &m2)
        });
        ctx.trace();
    }
}

fn main() {
    drive(Check {
        id: "P03",
        level: "model_checking",
        rule: "states: every shape reachable with a bounded number of slices (or every insertion sequence up to a depth), per configuration; transitions: lookup of first, second, middle and last index of every slice (all indexes in the sequence configurations) by get, get_with_cursor and cursor_to, and of indexes at, just beyond and far beyond the size and below zero, which must be refused leaving the tree as it was",
        assumptions: &["base trees that already differ from the model when iterated are left to P01"],
        configs: vec![
            Config::new("usize/NoFeatures/join/M1", shapes::<1>(18, 22), |c, s| {
                both::<usize, NoFeatures, true, 1>(c, s, 1);
                refused::<usize, NoFeatures, true, 1>(c, s, &[], &[usize::MAX, usize::MAX / 2 + 1]);
            }),
            Config::new("usize/NoFeatures/join/M2", shapes::<2>(22, 28), |c, s| both::<usize, NoFeatures, true, 2>(c, s, 1)),
            Config::new("usize/NoFeatures/join/M3", shapes::<3>(24, 40), |c, s| both::<usize, NoFeatures, true, 3>(c, s, 1)),
            Config::new("usize/NoFeatures/join/M5", shapes::<5>(24, 60), |c, s| both::<usize, NoFeatures, true, 5>(c, s, 1)),
            Config::new("usize/AllowCow/join/M1", shapes::<1>(15, 19), |c, s| both::<usize, AllowCow, true, 1>(c, s, 1)),
            Config::new("usize/AllowSliceRefs/join/M1", shapes::<1>(15, 19), |c, s| both::<usize, AllowSliceRefs, true, 1>(c, s, 1)),
            Config::new("Si/NoFeatures/join/M1", shapes::<1>(14, 18), |c, s| {
                both::<Si, NoFeatures, true, 1>(c, s, Si(1));
                refused::<Si, NoFeatures, true, 1>(c, s, &[], &[Si(-1), Si(-2), Si(-1_000_000), Si(i32::MIN)]);
            }),
            Config::new("fork/AllowCow/join/M1", shapes::<1>(12, 15), |c, s| fork::<1>(c, s)),
            Config::new("fork/AllowCow/join/M2", shapes::<2>(16, 20), |c, s| fork::<2>(c, s)),
            Config::new("u8/NoFeatures/join/M1", |t, _| sequences(t.pick(3, 4), &[84, 85, 1], true, Offsets::Ends, 255), |c, s| lookups::<u8, NoFeatures, true, 1>(c, s, true)),
            Config::new("widest/NoFeatures/join/M127", fills::<127>(true), |c, s| lookups::<usize, NoFeatures, true, 127>(c, s, false)),
            Config::new("usize/NoFeatures/all-sequences/M1", |t, _| sequences(t.pick(3, 5), &[1, 2], true, Offsets::All, 1000), |c, s| lookups::<usize, NoFeatures, true, 1>(c, s, true)),
        ],
    })
}
