//! Iterating a range yields exactly the overlapping slices, from both ends.
use mc::common::*;
use std::ops::Bound;

fn ranges(starts: &[u32], dense: bool) -> Vec<Rng> {
    let size = *starts.last().unwrap();
    let mut pos: Vec<u32> = vec![0, 1, size, size + 1, size + 2];
    for w in starts.windows(2) {
        let u = w[1] - w[0];
        pos.push(w[0]);
        pos.push(w[0] + u / 2);
        if dense {
            pos.push(w[0] + 1);
            pos.push(w[1] - 1);
        }
    }
    if size > 0 {
        pos.push(size - 1);
    }
    pos.sort();
    pos.dedup();
    let mut v = vec![Rng { sk: 0, s: 0, ek: 0, e: 0 }];
    for &e in &pos {
        v.push(Rng { sk: 0, s: 0, ek: 1, e });
        v.push(Rng { sk: 0, s: 0, ek: 2, e });
        v.push(Rng { sk: 1, s: e, ek: 0, e: 0 });
    }
    for &s in &pos {
        for &e in &pos {
            v.push(Rng { sk: 1, s, ek: 1, e });
            v.push(Rng { sk: 1, s, ek: 2, e });
        }
    }
    v
}

fn check_all<I, P, const J: bool, const M: usize>(ctx: &mut Ctx, t: &Tree<I, P, J, M>, m: &Model, dense: bool, all_schedules: usize, extra: &[i64])
where
    I: Ix,
    P: RleTreeConfig<I, Seg<J>, M>,
{
    let (st, b) = (m.starts(), m.bounds::<I>());
    let size = *st.last().unwrap();
    let one = I::measure(Frag { id: 0, lo: 0, hi: 1 });
    let ix = |p: u32| {
        let mut i: I = m.index_of(p.min(size));
        for _ in size..p.max(size) {
            i = i.add_right(one);
        }
        i
    };
    for r in ranges(&st, dense) {
        let bounds = r.bounds(ix(r.s), ix(r.e));
        let mut vals = extra.to_vec();
        vals.extend_from_slice(&r.vals());
        match r.expect(&st) {
            None => {
                ctx.probe("refuse", &vals, || match guarded(|| t.iter(bounds)) {
                    Err(_) => same(t, m),
                    Ok(mut it) => Err(format!("accepted; first is {:?}", guarded(|| it.next().map(|e| e.range())))),
                });
                ctx.outcome(0);
            }
            Some((lo, hi)) => {
                let k = hi - lo;
                ctx.probe("iterate", &vals, || {
                    let go = |len: usize, mask: &dyn Fn(usize) -> bool, name: String| -> Result<(), String> {
                        iterate(&mut t.iter(bounds), m, &b, (lo, hi), len, mask).map_err(|e| format!("steps {name}: {e}"))?;
                        Ok(())
                    };
                    if k <= all_schedules {
                        // every schedule, including steps after exhaustion
                        for bits in 0u32..1 << (k + 2) {
                            go(k + 2, &|i| bits >> i & 1 == 1, format!("{bits:b} (1 is back, low bit first)"))?;
                        }
                    } else {
                        for i in 0..=k + 1 {
                            go(k + 3, &|j| j >= i, format!("F{i}B"))?;
                            go(k + 3, &|j| j < i, format!("B{i}F"))?;
                        }
                        go(k + 3, &|j| j % 2 == 0, "BF".into())?;
                        go(k + 3, &|j| j % 2 == 1, "FB".into())?;
                        go(k + 3, &|j| j % 3 == 0, "BFF".into())?;
                        go(k + 3, &|j| j % 3 != 0, "FBB".into())?;
                    }
                    Ok(())
                });
                ctx.outcome((k, r.sk, r.ek));
            }
        }
        ctx.trace();
    }
}

fn run<I, P, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, dense: bool, all: usize)
where
    I: Ix,
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
{
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<I, P, J, M>(&hist)) else { return };
    if !matches!(ctx.base(|| same_by_lookup(&t, &m)), Some(Ok(()))) {
        return;
    }
    check_all(ctx, &t, &m, dense, all, &[]);
}

fn fork<const M: usize>(ctx: &mut Ctx, state: &str) {
    let hist = parse_hist(state);
    let m0 = Model::of(&hist, true);
    for op in m0.ops(op_size(hist.len()), true, Offsets::Mid) {
        let Some((t, m, t2, m2)) = ctx.base(|| {
            let (t, m) = build::<usize, AllowCow, true, M>(&hist);
            let (mut t2, mut m2) = (t.clone(), m.clone());
            insert_op(&mut t2, &mut m2, op);
            (t, m, t2, m2)
        }) else {
            continue;
        };
        if !matches!(ctx.base(|| same_by_lookup(&t, &m).and(same_by_lookup(&t2, &m2))), Some(Ok(()))) {
            continue;
        }
        let v = op.vals();
        check_all(ctx, &t, &m, false, 3, &[v[0], v[1], v[2], 0]);
        check_all(ctx, &t2, &m2, false, 3, &[v[0], v[1], v[2], 1]);
    }
}

/// every standard range type denotes what it denotes for the standard library
fn std_types(ctx: &mut Ctx, state: &str) {
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<usize, NoFeatures, true, 1>(&hist)) else { return };
    if !matches!(ctx.base(|| same_by_lookup(&t, &m)), Some(Ok(()))) {
        return;
    }
    let st = m.starts();
    let size = m.units() as usize;
    let overlapping = |lo: usize, hi: usize| -> Vec<usize> { (0..m.len()).filter(|&k| lo < hi && (st[k] as usize) < hi && lo < st[k + 1] as usize).collect() };
    fn list<'a, R: std::fmt::Debug + sherman::range::RangeBounds<usize>>(t: &Tree<usize, NoFeatures, true, 1>, st: &[u32], r: R) -> Option<Vec<usize>> {
        guarded(|| t.iter(r).map(|e| st.iter().position(|s| *s as usize == e.range().start).unwrap_or(999)).collect()).ok()
    }
    let mut pos: Vec<usize> = st.iter().map(|s| *s as usize).collect();
    pos.extend(st.windows(2).map(|w| (w[0] + w[1]) as usize / 2));
    let mut cmp = |ctx: &mut Ctx, name: &str, a: usize, b: usize, got: Option<Vec<usize>>, want: Option<Vec<usize>>| {
        ctx.probe("std-range", &[a as i64, b as i64], || if got == want { Ok(()) } else { Err(format!("{name} with {a}, {b}: yields {got:?}, expected {want:?}")) });
        ctx.trace();
    };
    let _ = Bound::Included(0);
    cmp(ctx, "..", 0, 0, list(&t, &st, ..), Some(overlapping(0, size)));
    for &a in &pos {
        cmp(ctx, "a..", a, 0, list(&t, &st, a..), (a < size).then(|| overlapping(a, size)));
        cmp(ctx, "..a", a, 0, list(&t, &st, ..a), (a <= size).then(|| overlapping(0, a)));
        cmp(ctx, "..=a", a, 0, list(&t, &st, ..=a), (a < size).then(|| overlapping(0, a + 1)));
        for &b in &pos {
            cmp(ctx, "a..b", a, b, list(&t, &st, a..b), (a < b && b <= size).then(|| overlapping(a, b)));
            cmp(ctx, "&(a..b)", a, b, list(&t, &st, &(a..b)), (a < b && b <= size).then(|| overlapping(a, b)));
            cmp(ctx, "a..=b", a, b, list(&t, &st, a..=b), (a <= b && b < size).then(|| overlapping(a, b + 1)));
        }
    }
}

fn main() {
    drive(Check {
        id: "P04",
        level: "model_checking",
        rule: "states: every shape reachable with a bounded number of slices, per configuration (for copy-on-write also every pair of trees after an insertion into one of two clones); transitions: every combination of bound kinds and bound positions (slice boundaries, inside slices, at and beyond the size), each iterated under every schedule of front and back steps when few slices overlap, and under all front-then-back, back-then-front and alternating schedules otherwise, always with steps past the end",
        assumptions: &["base trees whose lookups already differ from the model are left to P01 and P03"],
        configs: vec![
            Config::new("usize/NoFeatures/join/M1", shapes::<1>(12, 16), |c, s| run::<usize, NoFeatures, true, 1>(c, s, s.split(' ').count() <= 6, c.tier.pick(6, 9))),
            Config::new("usize/NoFeatures/join/M2", shapes::<2>(14, 20), |c, s| run::<usize, NoFeatures, true, 2>(c, s, false, c.tier.pick(4, 6))),
            Config::new("usize/NoFeatures/join/M3", shapes::<3>(16, 24), |c, s| run::<usize, NoFeatures, true, 3>(c, s, false, 3)),
            Config::new("Si/NoFeatures/join/M1", shapes::<1>(10, 13), |c, s| run::<Si, NoFeatures, true, 1>(c, s, false, 3)),
            Config::new("usize/AllowCow/join/M1", shapes::<1>(10, 13), |c, s| run::<usize, AllowCow, true, 1>(c, s, false, 4)),
            Config::new("usize/AllowSliceRefs/join/M1", shapes::<1>(10, 13), |c, s| run::<usize, AllowSliceRefs, true, 1>(c, s, false, 4)),
            Config::new("fork/AllowCow/join/M1", shapes::<1>(8, 11), |c, s| fork::<1>(c, s)),
            Config::new("fork/AllowCow/join/M2", shapes::<2>(9, 17), |c, s| fork::<2>(c, s)),
            Config::new("std-ranges", shapes::<1>(8, 11), |c, s| std_types(c, s)),
        ],
    })
}
