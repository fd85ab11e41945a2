//! Cursors handed out describe the real path to the slice.
use mc::common::*;

/// Independent knowledge about where slices live: two slices are in the same node exactly if
/// their addresses differ by the number of slices of that node between them.
fn addresses<I, P, const J: bool, const M: usize>(t: &Tree<I, P, J, M>) -> Vec<usize>
where
    I: Ix,
    P: RleTreeConfig<I, Seg<J>, M>,
{
    t.iter(..).map(|e| e.slice() as *const _ as usize).collect()
}

fn layout<const J: bool>(ps: &[Vec<u8>], addr: &[usize], min: usize) -> Result<(), String> {
    well_formed(ps, min)?;
    let z = std::mem::size_of::<Seg<J>>();
    let mut first: std::collections::BTreeMap<&[u8], (usize, usize)> = Default::default();
    let mut owner: std::collections::BTreeMap<usize, &[u8]> = Default::default();
    for (p, a) in ps.iter().zip(addr) {
        let e = first.entry(p).or_insert((*a, 0));
        if *a != e.0 + e.1 * z {
            return Err(format!("slices with the same path {p:?} are not in the same node"));
        }
        e.1 += 1;
    }
    // different paths, different nodes: their slots must not continue each other
    for (p, (a, n)) in &first {
        for k in 0..*n {
            if let Some(q) = owner.insert(a + k * z, p) {
                return Err(format!("paths {p:?} and {q:?} lead to the same slot"));
            }
        }
    }
    Ok(())
}

trait Extra<const J: bool, const M: usize>: RleTreeConfig<usize, Seg<J>, M> + SupportsInsert<usize, Seg<J>, M> {
    /// further cursors to be had for the slice starting at `start`
    fn more(t: &Tree<usize, Self, J, M>, start: usize) -> Vec<(&'static str, PathVec)>;
}
impl<const J: bool, const M: usize> Extra<J, M> for NoFeatures {
    fn more(t: &Tree<usize, Self, J, M>, start: usize) -> Vec<(&'static str, PathVec)> {
        vec![
            ("entry cursor", t.get(start).cursor()),
            ("iteration entry cursor", t.iter(start..).next().unwrap().cursor()),
            ("reverse iteration entry cursor", t.iter(..start + 1).next_back().unwrap().cursor()),
        ]
    }
}
impl<const J: bool, const M: usize> Extra<J, M> for AllowCow {
    fn more(_: &Tree<usize, Self, J, M>, _: usize) -> Vec<(&'static str, PathVec)> {
        vec![]
    }
}
impl<const J: bool, const M: usize> Extra<J, M> for AllowSliceRefs {
    fn more(t: &Tree<usize, Self, J, M>, start: usize) -> Vec<(&'static str, PathVec)> {
        let r = t.get(start).make_ref();
        vec![
            ("entry cursor", t.get(start).cursor()),
            ("iteration entry cursor", t.iter(start..).next().unwrap().cursor()),
            ("reference cursor", r.cursor()),
            ("reference try_cursor", r.try_cursor().unwrap()),
        ]
    }
}

fn all_cursors<P: Extra<J, M>, const J: bool, const M: usize>(t: &Tree<usize, P, J, M>, m: &Model) -> Result<Vec<Vec<u8>>, String> {
    let st = m.starts();
    let mut ps = Vec::new();
    for k in 0..m.len() {
        let u = m.runs[k].units();
        let c: PathVec = t.cursor_to(st[k] as usize);
        for off in [u / 2, u - 1] {
            let d: PathVec = t.cursor_to((st[k] + off) as usize);
            if c != d {
                return Err(format!("slice {k}: cursor to its first index {:?}, to another {:?}", nums(&c), nums(&d)));
            }
        }
        for (what, d) in P::more(t, st[k] as usize) {
            if c != d {
                return Err(format!("slice {k}: cursor_to {:?}, {what} {:?}", nums(&c), nums(&d)));
            }
        }
        // the bounded cursor keeps the components nearest the root
        fn bounded<P: Extra<J, M>, const J: bool, const M: usize, const N: usize>(t: &Tree<usize, P, J, M>, at: usize, c: &PathVec) -> Result<(), String> {
            let got: Vec<PathComponent> = t.cursor_to::<BoundedCursor<N>>(at).into_path().collect();
            let want = &c.0[..c.0.len().min(N)];
            if got != want {
                return Err(format!("cursor of bound {N} to {at} gives {got:?}, expected {want:?}"));
            }
            Ok(())
        }
        bounded::<P, J, M, 0>(t, st[k] as usize, &c)?;
        bounded::<P, J, M, 1>(t, st[k] as usize, &c)?;
        bounded::<P, J, M, 2>(t, st[k] as usize, &c)?;
        bounded::<P, J, M, 3>(t, st[k] as usize, &c)?;
        bounded::<P, J, M, 8>(t, st[k] as usize, &c)?;
        ps.push(nums(&c));
    }
    layout::<J>(&ps, &addresses(t), M)?;
    Ok(ps)
}

fn run<P: Extra<J, M>, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str)
where
    AllowSliceRefs: SupportsInsert<usize, Seg<J>, M>,
{
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<usize, P, J, M>(&hist)) else { return };
    if !matches!(ctx.base(|| same(&t, &m)), Some(Ok(()))) {
        return;
    }
    ctx.probe("cursors", &[], || all_cursors(&t, &m).map(|_| ()));
    ctx.trace();
    drop(t);
    for op in m.ops(op_size(hist.len()), J, Offsets::Mid) {
        let run = m.fresh(op);
        let mut m1 = m.clone();
        let eff = m1.insert(op.pos, run.clone(), J);
        let mut out = None;
        ctx.probe("insert", &op.vals(), || {
            let (mut t, _) = build::<usize, P, J, M>(&hist);
            let c = t.insert_with_cursor(PathVec(vec![]), op.pos as usize, Seg::new(run.clone()), run.measure());
            if same(&t, &m1).is_err() {
                return Ok(()); // P01's affair
            }
            let ps = all_cursors(&t, &m1)?;
            if ps[eff.at] != nums(&c) {
                return Err(format!("the insertion returned cursor {:?}, the slice is at {:?}", nums(&c), ps[eff.at]));
            }
            let (mut t, _) = build::<usize, P, J, M>(&hist);
            let c = t.insert_with_cursor(BoundedCursor::<2>::new_empty(), op.pos as usize, Seg::new(run.clone()), run.measure());
            let got: Vec<u8> = c.into_path().map(num).collect();
            if got != ps[eff.at][..ps[eff.at].len().min(2)] {
                return Err(format!("the insertion returned bounded cursor {got:?}, the slice is at {:?}", ps[eff.at]));
            }
            out = Some(ps[eff.at].clone());
            Ok(())
        });
        ctx.outcome((out, op.kind));
        ctx.trace();
    }
}

fn insert_ref<const M: usize>(ctx: &mut Ctx, state: &str) {
    let hist = parse_hist(state);
    let m = Model::of(&hist, true);
    for op in m.ops(op_size(hist.len()), true, Offsets::Mid) {
        let run = m.fresh(op);
        let mut m1 = m.clone();
        let eff = m1.insert(op.pos, run.clone(), true);
        ctx.probe("insert_ref", &op.vals(), || {
            let (mut t, _) = build::<usize, AllowSliceRefs, true, M>(&hist);
            let (c, r) = t.insert_ref_with_cursor(PathVec(vec![]), op.pos as usize, Seg::new(run.clone()), run.measure());
            if same(&t, &m1).is_err() {
                return Ok(());
            }
            let p = nums(&t.cursor_to::<PathVec>(m1.starts()[eff.at] as usize));
            let rc: PathVec = r.cursor();
            if p != nums(&c) || p != nums(&rc) {
                return Err(format!("the insertion returned cursor {:?}, its reference has {:?}, the slice is at {p:?}", nums(&c), nums(&rc)));
            }
            Ok(())
        });
        ctx.trace();
    }
}

/// copy-on-write trees after insertions into clones; links into shared nodes are stale there
fn fork<const M: usize>(ctx: &mut Ctx, state: &str, deep: usize) {
    let hist = parse_hist(state);
    let m0 = Model::of(&hist, true);
    let ops = m0.ops(op_size(hist.len()), true, Offsets::Mid);
    let step = |t: &mut Tree<usize, AllowCow, true, M>, m: &mut Model, op: Op| -> Result<(), String> {
        let run = m.fresh(op);
        let c = t.insert_with_cursor(PathVec(vec![]), op.pos as usize, Seg::new(run.clone()), run.measure());
        let eff = m.insert(op.pos, run, true);
        let ps = all_cursors(t, m)?;
        if ps[eff.at] != nums(&c) {
            return Err(format!("the insertion returned cursor {:?}, the slice is at {:?}", nums(&c), ps[eff.at]));
        }
        Ok(())
    };
    for a in &ops {
        let mut m1 = m0.clone();
        m1.apply(*a, true);
        for keep in [false, true] {
            // second insertion into the original (keep) or into the clone
            let bs = if m0.len() > deep { vec![] } else { if keep { ops.clone() } else { m1.ops(op_size(hist.len() + 1), true, Offsets::Mid) } };
            for b in bs.iter().map(Some).chain([None]) {
                let x = a.vals();
                let y = b.map_or([-1; 3], |b| b.vals());
                ctx.probe("fork", &[x[0], x[1], x[2], keep as i64, y[0], y[1], y[2]], || {
                    let (mut t, mut m) = build::<usize, AllowCow, true, M>(&hist);
                    let (mut t2, mut m2) = (t.clone(), m.clone());
                    step(&mut t2, &mut m2, *a)?;
                    if let Some(b) = b {
                        if keep {
                            step(&mut t, &mut m, *b)?;
                        } else {
                            step(&mut t2, &mut m2, *b)?;
                        }
                    }
                    all_cursors(&t, &m)?;
                    all_cursors(&t2, &m2)?;
                    Ok(())
                });
                ctx.trace();
            }
        }
    }
}

/// the bounded cursor on its own: given components one by one, nearest the slice first
fn bounded_alone(ctx: &mut Ctx, state: &str) {
    let lens: usize = state.parse().unwrap();
    let comps = components();
    fn go<const N: usize>(comps: &[PathComponent], n: usize) -> Result<(), String> {
        // all sequences over two components and one in which all differ
        let mut seqs: Vec<Vec<PathComponent>> = (0u32..1 << n).map(|bits| (0..n).map(|k| comps[(bits >> k & 1) as usize]).collect()).collect();
        seqs.push((0..n).map(|k| comps[k]).collect());
        for s in seqs {
            let mut c = BoundedCursor::<N>::new_empty();
            let mut given: Vec<PathComponent> = vec![];
            for (k, x) in s.iter().enumerate() {
                let now: Vec<PathComponent> = c.clone().into_path().collect();
                if now != given[..given.len().min(N)] {
                    return Err(format!("bound {N}: after {k} components from the end the path is {now:?}, expected {:?}", &given[..given.len().min(N)]));
                }
                c.prepend_to_path(*x);
                given.insert(0, *x);
            }
            let mut it = c.into_path();
            let now: Vec<PathComponent> = it.by_ref().collect();
            if now != given[..given.len().min(N)] || it.next().is_some() {
                return Err(format!("bound {N}: given {given:?} the path is {now:?}"));
            }
        }
        Ok(())
    }
    ctx.probe("bounded", &[], || {
        go::<0>(&comps, lens)?;
        go::<1>(&comps, lens)?;
        go::<2>(&comps, lens)?;
        go::<3>(&comps, lens)?;
        go::<4>(&comps, lens)?;
        go::<8>(&comps, lens)?;
        go::<254>(&comps, lens)?;
        go::<255>(&comps, lens)
    });
    ctx.outcome(lens);
    ctx.trace();
}

fn wide_paths(t: &wide::W<NoFeatures, 127>, f: &wide::Flat, got: Vec<u8>, start: usize) -> Result<(), String> {
    let want = wide::path(t, start);
    if got != want {
        return Err(format!("the insertion returns the path {got:?}, to the slice it is {want:?}"));
    }
    wide::shape(t, f).map(|_| ())
}

fn main() {
    drive(Check {
        id: "P06",
        level: "model_checking",
        rule: "states: every shape reachable with a bounded number of slices, per configuration; transitions: all cursors of all slices by every route, and after every insertion again together with the cursor it returns (copy-on-write: after one and two insertions into two clones); cursors of all routes must agree, all together must describe a well-formed B-tree, and must group slices into nodes as their addresses do. The bounded cursor is also driven alone with every sequence of components over a small alphabet.",
        assumptions: &["slices of one node are stored contiguously (used as independent evidence about which slices share a node)"],
        configs: vec![
            Config::new("bounded", |t, _| (0..t.pick(10usize, 12)).map(|n| n.to_string()).collect(), bounded_alone),
            Config::new("NoFeatures/join/M1", shapes::<1>(16, 20), |c, s| run::<NoFeatures, true, 1>(c, s)),
            Config::new("NoFeatures/nojoin/M1", shapes::<1>(13, 17), |c, s| run::<NoFeatures, false, 1>(c, s)),
            Config::new("NoFeatures/join/M2", shapes::<2>(20, 26), |c, s| run::<NoFeatures, true, 2>(c, s)),
            Config::new("NoFeatures/join/M3", shapes::<3>(18, 32), |c, s| run::<NoFeatures, true, 3>(c, s)),
            Config::new("AllowCow/join/M1", shapes::<1>(13, 17), |c, s| run::<AllowCow, true, 1>(c, s)),
            Config::new("AllowSliceRefs/join/M1", shapes::<1>(13, 17), |c, s| run::<AllowSliceRefs, true, 1>(c, s)),
            Config::new("AllowSliceRefs/insert_ref/M1", shapes::<1>(14, 18), |c, s| insert_ref::<1>(c, s)),
            Config::new("AllowSliceRefs/insert_ref/M2", shapes::<2>(18, 22), |c, s| insert_ref::<2>(c, s)),
            Config::new("AllowCow/fork/M1", shapes::<1>(9, 12), |c, s| fork::<1>(c, s, c.tier.pick(6, 8))),
            Config::new("AllowCow/fork/M2", shapes::<2>(9, 17), |c, s| fork::<2>(c, s, c.tier.pick(4, 6))),
            Config::new("widest/two levels/M127", wide::children::<127>(1), |c, s| wide::split_root::<NoFeatures, 127>(c, s, &wide_paths)),
        ],
    })
}
