//! Path hints never change any result.
use mc::common::*;

/// all paths over the alphabet up to a length
fn paths_over(alphabet: &[PathComponent], len: usize) -> Vec<Vec<PathComponent>> {
    let mut out = vec![vec![]];
    let mut level: Vec<Vec<PathComponent>> = vec![vec![]];
    for _ in 0..len {
        let mut next = vec![];
        for p in &level {
            for c in alphabet {
                let mut q = p.clone();
                q.push(*c);
                next.push(q);
            }
        }
        out.extend(next.iter().cloned());
        level = next;
    }
    out
}

/// a cursor whose path never ends
struct Endless(Vec<PathComponent>);
struct EndlessIter(Vec<PathComponent>, usize);
impl Cursor for Endless {
    fn new_empty() -> Self {
        Endless(vec![])
    }
    fn prepend_to_path(&mut self, _: PathComponent) {}
    type PathIter = EndlessIter;
    fn into_path(self) -> EndlessIter {
        EndlessIter(self.0, 0)
    }
}
impl Iterator for EndlessIter {
    type Item = PathComponent;
    fn next(&mut self) -> Option<PathComponent> {
        if self.0.is_empty() {
            return None;
        }
        self.1 += 1;
        Some(self.0[(self.1 - 1) % self.0.len()])
    }
}

fn bounded<const N: usize>(p: &[PathComponent]) -> BoundedCursor<N> {
    let mut c = BoundedCursor::new_empty();
    for x in p.iter().rev() {
        c.prepend_to_path(*x);
    }
    c
}

fn run<I, P, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, dense: usize)
where
    I: Ix,
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
{
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<I, P, J, M>(&hist)) else { return };
    if !matches!(ctx.base(|| same(&t, &m).and(same_by_lookup(&t, &m))), Some(Ok(()))) {
        return;
    }
    let Some(ps) = ctx.base(|| paths(&t, &m)) else { return };
    let height = ps.iter().map(|p| p.len()).max().unwrap_or(0);
    let comps = components();
    // children exist up to number 2M; the last ones are always out of range
    let mut alpha: Vec<PathComponent> = comps.iter().copied().take(2 * M + 2).collect();
    alpha.push(*comps.last().unwrap());
    let small = m.len() <= dense;
    let len = if small { height + 2 } else { height.min(2) };
    let hints = paths_over(&alpha, len);
    let (st, b) = (m.starts(), m.bounds::<I>());
    // lookups
    for k in 0..m.len() {
        let u = m.runs[k].units();
        for off in [0, u - 1] {
            let idx: I = m.index_of(st[k] + off);
            for (h, hint) in hints.iter().enumerate() {
                ctx.probe("get", &[(st[k] + off) as i64, h as i64], || {
                    let e = t.get_with_cursor(PathVec(hint.clone()), idx);
                    entry_is(&e.range(), e.size(), e.slice(), &m, &b, k)
                });
            }
            for hint in hints.iter().filter(|h| h.len() <= 2) {
                ctx.probe("get-endless-bounded", &[(st[k] + off) as i64], || {
                    let e = t.get_with_cursor(Endless(hint.clone()), idx);
                    entry_is(&e.range(), e.size(), e.slice(), &m, &b, k)?;
                    let e = t.get_with_cursor(bounded::<8>(hint), idx);
                    entry_is(&e.range(), e.size(), e.slice(), &m, &b, k)?;
                    let e = t.get_with_cursor(bounded::<1>(hint), idx);
                    entry_is(&e.range(), e.size(), e.slice(), &m, &b, k)?;
                    let e = t.get_with_cursor(BoundedCursor::<3>::new_empty(), idx);
                    entry_is(&e.range(), e.size(), e.slice(), &m, &b, k)
                });
            }
            ctx.trace();
        }
    }
    // iteration: the hint serves the first step, from whichever end
    let total = *st.last().unwrap();
    for k in 0..m.len() {
        for (s, e, lo, hi) in [(st[k], total, k, m.len()), (0, st[k + 1], 0, k + 1), (st[k] + m.runs[k].units() / 2, st[k + 1] - m.runs[k].units() / 3, k, k + 1)] {
            if s >= e {
                continue;
            }
            let (si, ei): (I, I) = (m.index_of(s), m.index_of(e));
            for (h, hint) in hints.iter().enumerate() {
                ctx.probe("iterate", &[s as i64, e as i64, h as i64], || {
                    for front in [true, false] {
                        let mut it = t.iter_with_cursor(PathVec(hint.clone()), si..ei);
                        iterate(&mut it, &m, &b, (lo, hi), 2, &|j| (j == 0) != front)?;
                        let mut it = t.iter_with_cursor(Endless(hint.clone()), si..ei);
                        iterate(&mut it, &m, &b, (lo, hi), 2, &|_| !front)?;
                    }
                    Ok(())
                });
            }
            ctx.trace();
        }
    }
    drop(t);
    // insertions
    for op in m.ops(op_size(hist.len()), J, Offsets::Mid) {
        let run = m.fresh(op);
        let Some((want_cursor, want_paths)) = ctx.base(|| {
            let (mut t, mut m) = build::<I, P, J, M>(&hist);
            let c = t.insert_with_cursor(PathVec(vec![]), m.index_of(op.pos), Seg::new(run.clone()), run.measure());
            m.insert(op.pos, run.clone(), J);
            (c, paths(&t, &m))
        }) else {
            continue;
        };
        let mut m1 = m.clone();
        m1.insert(op.pos, run.clone(), J);
        let idx: I = m.index_of(op.pos);
        for (h, hint) in hints.iter().enumerate() {
            let v = op.vals();
            ctx.probe("insert", &[v[0], v[1], v[2], h as i64], || {
                let (mut t, _) = build::<I, P, J, M>(&hist);
                let c = t.insert_with_cursor(PathVec(hint.clone()), idx, Seg::new(run.clone()), run.measure());
                same(&t, &m1)?;
                if c != want_cursor {
                    return Err(format!("returned cursor {:?} with the hint {:?}, {:?} without", nums(&c), hint, nums(&want_cursor)));
                }
                let p = paths(&t, &m1);
                if p != want_paths {
                    return Err(format!("resulting shape differs with the hint {hint:?}"));
                }
                Ok(())
            });
        }
        for hint in hints.iter().filter(|h| h.len() <= 1) {
            ctx.probe("insert-endless-bounded", &op.vals(), || {
                for which in 0..4 {
                    let (mut t, _) = build::<I, P, J, M>(&hist);
                    let s = Seg::new(run.clone());
                    match which {
                        0 => drop(t.insert_with_cursor(Endless(hint.clone()), idx, s, run.measure())),
                        1 => drop(t.insert_with_cursor(bounded::<8>(hint), idx, s, run.measure())),
                        2 => drop(t.insert_with_cursor(bounded::<1>(hint), idx, s, run.measure())),
                        _ => drop(t.insert_with_cursor(BoundedCursor::<2>::new_empty(), idx, s, run.measure())),
                    }
                    same(&t, &m1)?;
                    if paths(&t, &m1) != want_paths {
                        return Err("resulting shape differs".into());
                    }
                }
                Ok(())
            });
        }
        ctx.outcome((want_cursor.0, m1.len()));
        ctx.trace();
    }
}

/// the cursor an insertion returns serves as the hint of the next one, as in editing
fn chain<const M: usize>(ctx: &mut Ctx, state: &str) {
    let hist = parse_hist(state);
    ctx.probe("chain", &[], || {
        let mut t: Tree<usize, NoFeatures, true, M> = Tree::new_empty();
        let mut m = Model::new();
        let mut c = PathVec(vec![]);
        let mut bc = BoundedCursor::<2>::new_empty();
        let mut t2: Tree<usize, NoFeatures, true, M> = Tree::new_empty();
        for o in &hist {
            let r = m.fresh(*o);
            c = t.insert_with_cursor(c, m.index_of(o.pos), Seg::new(r.clone()), r.measure());
            bc = t2.insert_with_cursor(bc, m.index_of(o.pos), Seg::new(r.clone()), r.measure());
            m.insert(o.pos, r, true);
            same(&t, &m)?;
            same(&t2, &m)?;
        }
        Ok(())
    });
    ctx.trace();
}

fn main() {
    drive(Check {
        id: "P05",
        level: "model_checking",
        rule: "states: every shape reachable with a bounded number of slices, per configuration; transitions: every lookup (both ends of every slice), iteration (from, up to and inside every slice, from either end) and insertion (every boundary and middle, every way of joining) combined with every path up to two levels deeper than the tree over all child numbers including ones that never exist, plus endless paths and bounded cursors; results, resulting shape and returned cursor are compared with those without a hint",
        assumptions: &["base trees that already differ from the model are left to P01 and P03"],
        configs: vec![
            Config::new("usize/NoFeatures/join/M1", shapes::<1>(9, 13), |c, s| run::<usize, NoFeatures, true, 1>(c, s, c.tier.pick(7, 9))),
            Config::new("usize/NoFeatures/nojoin/M1", shapes::<1>(8, 11), |c, s| run::<usize, NoFeatures, false, 1>(c, s, 7)),
            Config::new("usize/NoFeatures/join/M2", shapes::<2>(11, 18), |c, s| run::<usize, NoFeatures, true, 2>(c, s, 6)),
            Config::new("usize/AllowCow/join/M1", shapes::<1>(7, 9), |c, s| run::<usize, AllowCow, true, 1>(c, s, 6)),
            Config::new("usize/AllowSliceRefs/join/M1", shapes::<1>(7, 9), |c, s| run::<usize, AllowSliceRefs, true, 1>(c, s, 6)),
            Config::new("chain/M1", |t, _| sequences(t.pick(4, 5), &[8, 9], true, Offsets::Mid, 1000), |c, s| chain::<1>(c, s)),
            Config::new("chain-shapes/M1", shapes::<1>(18, 22), |c, s| chain::<1>(c, s)),
            Config::new("chain-shapes/M2", shapes::<2>(18, 24), |c, s| chain::<2>(c, s)),
            Config::new("widest/two levels/M127", wide::children::<127>(4), |c, s| wide::hints::<127>(c, s, &wide::components())),
        ],
    })
}
