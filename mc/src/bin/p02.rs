//! The tree stays balanced and its nodes within their width.
use mc::common::*;

fn sound<I, P, const J: bool, const M: usize>(t: &Tree<I, P, J, M>, m: &Model) -> Result<(), String>
where
    I: Ix,
    P: RleTreeConfig<I, Seg<J>, M>,
{
    t.validate();
    if t.number_of_slices() != t.iter(..).count() {
        return Err(format!("the tree claims {} slices but holds {}", t.number_of_slices(), t.iter(..).count()));
    }
    // depth and width, as cursors report them
    let starts: Vec<I> = t.iter(..).map(|e| e.range().start).collect();
    let p: Vec<Vec<u8>> = starts.iter().map(|i| nums(&t.cursor_to::<PathVec>(*i))).collect();
    well_formed(&p, M)?;
    let _ = m;
    Ok(())
}

fn run<I, P, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, second: usize)
where
    I: Ix,
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
{
    let hist = parse_hist(state);
    let m0 = Model::of(&hist, J);
    ctx.probe("build", &[], || {
        let (t, m) = build::<I, P, J, M>(&hist);
        sound(&t, &m)
    });
    for op in m0.ops(op_size(hist.len()), J, Offsets::Mid) {
        let mut m1 = None;
        let ok = ctx.probe("insert", &op.vals(), || {
            let (mut t, mut m) = build::<I, P, J, M>(&hist);
            insert_op(&mut t, &mut m, op);
            sound(&t, &m)?;
            m1 = Some(m);
            Ok(())
        });
        ctx.trace();
        let Some(m1) = m1.filter(|_| ok) else { continue };
        ctx.outcome((m1.len(), op.kind, op.pos));
        if m1.len() > second {
            continue;
        }
        for op2 in m1.ops(op_size(hist.len() + 1), J, Offsets::Mid) {
            let (a, b) = (op.vals(), op2.vals());
            ctx.probe("insert-insert", &[a[0], a[1], a[2], b[0], b[1], b[2]], || {
                let (mut t, mut m) = build::<I, P, J, M>(&hist);
                insert_op(&mut t, &mut m, op);
                insert_op(&mut t, &mut m, op2);
                sound(&t, &m)
            });
            ctx.trace();
        }
    }
}

/// A family of two copy-on-write trees: both must be sound whatever is inserted into either
fn fork<const M: usize>(ctx: &mut Ctx, state: &str) {
    let hist = parse_hist(state);
    let m0 = Model::of(&hist, true);
    let ops = m0.ops(op_size(hist.len()), true, Offsets::Mid);
    for a in &ops {
        for b in &ops {
            let (x, y) = (a.vals(), b.vals());
            ctx.probe("fork", &[x[0], x[1], x[2], y[0], y[1], y[2]], || {
                let (mut t, mut m) = build::<usize, AllowCow, true, M>(&hist);
                let (mut t2, mut m2) = (t.clone(), m.clone());
                insert_op(&mut t, &mut m, *a);
                insert_op(&mut t2, &mut m2, *b);
                sound(&t, &m)?;
                sound(&t2, &m2)
            });
            ctx.trace();
        }
    }
}

fn main() {
    drive(Check {
        id: "P02",
        level: "model_checking",
        rule: "states: every shape reachable with a bounded number of slices, per configuration; transitions: every insertion into it, for small trees every two insertions, for copy-on-write also one insertion into each of two clones; after each, the repository's own structural self-check plus equal leaf depth and node widths as reported by cursors",
        assumptions: &["RleTree::validate (the repository's self-check, behind its fuzz feature) is trusted for stored positions and sizes; depth and width are checked from cursors instead"],
        configs: vec![
            Config::new("usize/NoFeatures/join/M1", shapes::<1>(16, 20), |c, s| run::<usize, NoFeatures, true, 1>(c, s, c.tier.pick(9, 12))),
            Config::new("usize/NoFeatures/nojoin/M1", shapes::<1>(14, 18), |c, s| run::<usize, NoFeatures, false, 1>(c, s, 0)),
            Config::new("usize/NoFeatures/join/M2", shapes::<2>(20, 26), |c, s| run::<usize, NoFeatures, true, 2>(c, s, c.tier.pick(9, 13))),
            Config::new("usize/NoFeatures/join/M3", shapes::<3>(20, 34), |c, s| run::<usize, NoFeatures, true, 3>(c, s, 0)),
            Config::new("usize/NoFeatures/join/M5", shapes::<5>(13, 30), |c, s| run::<usize, NoFeatures, true, 5>(c, s, 0)),
            Config::new("usize/AllowSliceRefs/join/M1", shapes::<1>(14, 18), |c, s| run::<usize, AllowSliceRefs, true, 1>(c, s, c.tier.pick(7, 10))),
            Config::new("usize/AllowCow/join/M1", shapes::<1>(14, 18), |c, s| run::<usize, AllowCow, true, 1>(c, s, c.tier.pick(7, 10))),
            Config::new("widest/NoFeatures/join/M127", fills::<127>(true), |c, s| run::<usize, NoFeatures, true, 127>(c, s, 0)),
            Config::new("widest/two levels/M127", wide::children::<127>(1), |c, s| wide::split_root::<NoFeatures, 127>(c, s, &|t, f, _, _| wide::shape(t, f).map(|_| t.validate()))),
            Config::new("fork/AllowCow/join/M1", shapes::<1>(8, 11), |c, s| fork::<1>(c, s)),
            Config::new("fork/AllowCow/join/M2", shapes::<2>(8, 12), |c, s| fork::<2>(c, s)),
        ],
    })
}
