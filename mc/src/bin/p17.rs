//! Refused operations leave everything as it was.
use mc::common::*;
use mc::refs::{RAct, World};

/// A size or index that must be refused
fn bad_sizes<I: Bad>() -> Vec<I> {
    I::non_positive()
}

trait Bad: Ix {
    /// sizes that are not greater than zero
    fn non_positive() -> Vec<Self>;
    /// indexes outside a tree of this size
    fn outside(size: Self) -> Vec<Self>;
}
impl Bad for usize {
    fn non_positive() -> Vec<usize> {
        vec![0]
    }
    fn outside(s: usize) -> Vec<usize> {
        vec![s + 1, s + 2, s + (1 << 20), usize::MAX]
    }
}
impl Bad for Si {
    fn non_positive() -> Vec<Si> {
        vec![Si(0), Si(-1), Si(-5), Si(i32::MIN)]
    }
    fn outside(s: Si) -> Vec<Si> {
        vec![Si(s.0 + 1), Si(s.0 + (1 << 20)), Si(i32::MAX)]
    }
}

/// `f` must panic, and drop the one slice it was given
fn refused(f: impl FnOnce()) -> Result<(), String> {
    let alive = ledger().alive;
    cb_reset();
    if guarded(f).is_ok() {
        return Err("was not refused".into());
    }
    // the slice offered was alive before, now it is not
    if ledger().alive != alive - 1 {
        return Err(format!("{} slices were dropped, expected the offered one only", alive - ledger().alive));
    }
    if cb().counts[SPLIT] + cb().counts[JOIN] != 0 {
        return Err("slices were split or joined although the operation was refused".into());
    }
    Ok(())
}

fn seg<const J: bool>(m: &Model, pos: u32, kind: u8) -> Seg<J> {
    Seg::new(m.fresh(Op { pos, size: 7, kind }))
}

fn run<I: Bad, P, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str)
where
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
{
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<I, P, J, M>(&hist)) else { return };
    if !matches!(ctx.base(|| same(&t, &m)), Some(Ok(()))) {
        return;
    }
    let Some(ps) = ctx.base(|| paths(&t, &m)) else { return };
    drop(t);
    let total = *m.starts().last().unwrap();
    let size: I = m.index_of(total);
    let (st, n) = (m.starts(), m.len());
    let mut cases: Vec<(I, I, u32, u8)> = vec![];
    let seven = Run::fresh(0, 7).measure::<I>();
    for o in I::outside(size) {
        cases.push((o, seven, 0, PLAIN));
        if J && n > 0 {
            cases.push((o, seven, total, JL));
        }
    }
    for s in I::non_positive() {
        for k in 0..n {
            for off in [0, m.runs[k].units() / 2] {
                cases.push((m.index_of(st[k] + off), s, st[k] + off, PLAIN));
                if J {
                    cases.push((m.index_of(st[k] + off), s, st[k] + off, JL));
                }
            }
        }
        cases.push((size, s, total, PLAIN));
    }
    let comps = components();
    for (c, (idx, sz, pos, kind)) in cases.iter().enumerate() {
        for hint in [false, true] {
            ctx.probe("insert", &[c as i64, hint as i64], || {
                let (mut t, mut m) = build::<I, P, J, M>(&hist);
                let s = seg::<J>(&m, *pos, *kind);
                refused(|| {
                    if hint {
                        t.insert_with_cursor(PathVec(vec![comps[0], comps[1]]), *idx, s, *sz);
                    } else {
                        t.insert(*idx, s, *sz);
                    }
                })?;
                same(&t, &m)?;
                same_by_lookup(&t, &m)?;
                if paths(&t, &m) != ps {
                    return Err("the tree was changed".into());
                }
                // and works as before
                let op = Op { pos: *pos, size: 9, kind: PLAIN };
                insert_op(&mut t, &mut m, op);
                same(&t, &m)
            });
            ctx.trace();
        }
    }
    ctx.outcome(state);
}

/// Refusal with clones around
fn cow<const J: bool, const M: usize>(ctx: &mut Ctx, state: &str) {
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<usize, AllowCow, J, M>(&hist)) else { return };
    if !matches!(ctx.base(|| same(&t, &m)), Some(Ok(()))) {
        return;
    }
    drop(t);
    let total = *m.starts().last().unwrap();
    for op in m.ops(op_size(hist.len()), J, Offsets::Mid) {
        if op.kind != PLAIN {
            continue;
        }
        for (c, (idx, sz)) in [(total as usize + 1, 7), (usize::MAX, 7), (op.pos as usize, 0)].into_iter().enumerate() {
            ctx.probe("clones", &[op.pos as i64, c as i64], || {
                let (t, m) = build::<usize, AllowCow, J, M>(&hist);
                let mut u = t.clone();
                let mut mu = m.clone();
                insert_op(&mut u, &mut mu, op);
                let mut w = u.clone();
                // outside for the clone as well
                let idx = if c == 0 { mu.units() as usize + 1 } else { idx };
                let s = seg::<J>(&mu, op.pos, PLAIN);
                let before: Vec<usize> = u.iter(..).map(|e| e.slice() as *const _ as usize).collect();
                cb_reset();
                refused(|| w.insert(idx, s, sz))?;
                if cb().counts[CLONE] != 0 || before != w.iter(..).map(|e| e.slice() as *const _ as usize).collect::<Vec<_>>() {
                    return Err("refused insertion copied slices".into());
                }
                same(&t, &m)?;
                same(&u, &mu)?;
                same(&w, &mu)?;
                let mut mw = mu.clone();
                insert_op(&mut w, &mut mw, Op { pos: op.pos, size: 11, kind: PLAIN });
                same(&w, &mw)?;
                same(&u, &mu)?;
                same(&t, &m)
            });
            ctx.trace();
        }
    }
}

/// Refusal with references, and because of borrows
fn refs<const J: bool, const M: usize>(ctx: &mut Ctx, state: &str) {
    type I = usize;
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<I, AllowSliceRefs, J, M>(&hist)) else { return };
    if !matches!(ctx.base(|| same(&t, &m)), Some(Ok(()))) {
        return;
    }
    drop(t);
    let n = m.len();
    let total = m.units();
    for k in 0..n {
        for (c, (idx, sz)) in [(total as usize + 1, 7), (usize::MAX, 7), (m.starts()[k] as usize, 0)].into_iter().enumerate() {
            for with_ref in [false, true] {
                ctx.probe("references", &[k as i64, c as i64, with_ref as i64], || {
                    let mut w = World::<I, J, M>::start(&hist);
                    w.make_refs((1 << n) - 1)?;
                    let s = seg::<J>(&w.s.m, m.starts()[k], if J && k > 0 { JL } else { PLAIN });
                    let t = w.tree.as_mut().unwrap();
                    refused(|| {
                        if with_ref {
                            drop(t.insert_ref(idx, s, sz));
                        } else {
                            t.insert(idx, s, sz);
                        }
                    })?;
                    w.check()?;
                    w.act(RAct::InsertRef(Op { pos: m.starts()[k], size: 9, kind: PLAIN }))?;
                    w.check_with(false)
                });
                ctx.trace();
            }
        }
        // borrowed: every insertion, also one that would be refused anyway
        for op in m.ops(op_size(hist.len()), J, Offsets::Mid) {
            if J && m.merges_both(op) {
                continue;
            }
            let v = op.vals();
            ctx.probe("borrowed", &[k as i64, v[0], v[2]], || {
                let mut w = World::<I, J, M>::start(&hist);
                w.make_refs((1 << n) - 1)?;
                w.act(RAct::Borrow(k as u8))?;
                cb_reset();
                w.act(RAct::Insert(op))?;
                w.act(RAct::InsertRef(op))?;
                if cb().counts[SPLIT] + cb().counts[JOIN] != 0 {
                    return Err("slices were split or joined although the operation was refused".into());
                }
                w.check()?;
                w.act(RAct::DropBorrow(0))?;
                w.act(RAct::InsertRef(op))?;
                w.check_with(false)
            });
            ctx.trace();
        }
    }
}

fn construct<const J: bool>(ctx: &mut Ctx) {
    fn one<I: Bad, P, const J: bool, const M: usize>(ctx: &mut Ctx, what: &str, ok_width: bool)
    where
        P: RleTreeConfig<I, Seg<J>, M>,
    {
        for (k, s) in bad_sizes::<I>().into_iter().enumerate() {
            ctx.probe("new", &[k as i64, M as i64, ok_width as i64, what.len() as i64], || {
                let x = Seg::new(Run::fresh(1, 7));
                refused(|| drop(Tree::<I, P, J, M>::new(x, s)))
            });
            ctx.trace();
        }
        ctx.probe("new-good", &[M as i64, what.len() as i64], || {
            let x = Seg::new(Run::fresh(1, 7));
            let f = || drop(Tree::<I, P, J, M>::new(x, Run::fresh(1, 7).measure::<I>()));
            if !ok_width {
                return refused(f);
            }
            let alive = ledger().alive;
            f();
            if ledger().alive != alive - 1 {
                return Err("slice not released".into());
            }
            Ok(())
        });
        ctx.probe("new-empty", &[M as i64, what.len() as i64], || {
            let r = guarded(|| Tree::<I, P, J, M>::new_empty().size());
            if r.is_ok() != ok_width {
                return Err(format!("constructing an empty tree of width {M} {}", if ok_width { "fails" } else { "is not refused" }));
            }
            Ok(())
        });
        ctx.trace();
    }
    macro_rules! all {
        ($($m:literal $ok:literal),*) => { $(
            one::<usize, NoFeatures, J, $m>(ctx, "plain", $ok);
            one::<usize, AllowCow, J, $m>(ctx, "cow", $ok);
            one::<usize, AllowSliceRefs, J, $m>(ctx, "references", $ok);
            one::<Si, NoFeatures, J, $m>(ctx, "signed positions", $ok);
        )* };
    }
    all!(0 false, 1 true, 2 true, 3 true, 63 true, 64 true, 126 true, 127 true, 128 false, 129 false, 255 false, 256 false, 257 false, 383 false, 1000 false);
}

fn main() {
    drive(Check {
        id: "P17",
        level: "model_checking",
        rule: "states: every shape reachable with a bounded number of slices, per configuration; transitions: every insertion that must be refused (outside the tree; sizes zero and below at every boundary and in every slice, with joinable slices and with hints; any insertion while any slice is borrowed) and every construction that must be (sizes, node widths around both limits); tree, clones, references and borrows are read in full afterwards, compared with before, and used further; slices alive, splits, joins and copies are counted",
        assumptions: &["two trees whose slices sit at the same paths behave alike (used to merge base states)"],
        configs: vec![
            Config::new("usize/plain/M1", shapes::<1>(15, 19), run::<usize, NoFeatures, true, 1>),
            Config::new("usize/plain/M3", shapes::<3>(14, 24), run::<usize, NoFeatures, false, 3>),
            Config::new("Si/plain/M1", shapes::<1>(11, 15), run::<Si, NoFeatures, true, 1>),
            Config::new("usize/cow/M1", shapes::<1>(13, 15), run::<usize, AllowCow, true, 1>),
            Config::new("usize/references/M2", shapes::<2>(14, 18), run::<usize, AllowSliceRefs, true, 2>),
            Config::new("clones/M1", shapes::<1>(14, 17), cow::<true, 1>),
            Config::new("clones/M2", shapes::<2>(14, 18), cow::<false, 2>),
            Config::new("references/M1", shapes::<1>(13, 15), refs::<true, 1>),
            Config::new("references/M2", shapes::<2>(13, 16), refs::<true, 2>),
            Config::new("construct/join", fixed(vec![String::new()]), |c, _| construct::<true>(c)),
            Config::new("construct/nojoin", fixed(vec![String::new()]), |c, _| construct::<false>(c)),
        ],
    })
}
