//! Index types with order-sensitive arithmetic get correct positions.
use mc::common::*;

trait More<I: Ix, const J: bool, const M: usize>: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M> {
    fn more(t: &Tree<I, Self, J, M>, m: &Model) -> Result<(), String>;
}

fn twin<I: Ix, P, const J: bool, const M: usize>(t: &Tree<I, P, J, M>, c: Tree<I, P, J, M>, m: &Model) -> Result<(), String>
where
    P: RleTreeConfig<I, Seg<J>, M>,
{
    same(&c, m).map_err(|e| format!("clone: {e}"))?;
    same_by_lookup(&c, m).map_err(|e| format!("clone: {e}"))?;
    drop(c);
    same(t, m)
}
impl<I: Ix, const J: bool, const M: usize> More<I, J, M> for NoFeatures {
    fn more(t: &Tree<I, Self, J, M>, m: &Model) -> Result<(), String> {
        twin(t, t.clone(), m)
    }
}
impl<I: Ix, const J: bool, const M: usize> More<I, J, M> for AllowCow {
    fn more(t: &Tree<I, Self, J, M>, m: &Model) -> Result<(), String> {
        twin(t, t.clone(), m)
    }
}
impl<I: Ix, const J: bool, const M: usize> More<I, J, M> for AllowSliceRefs {
    fn more(t: &Tree<I, Self, J, M>, m: &Model) -> Result<(), String> {
        let b = m.bounds::<I>();
        for k in 0..m.len() {
            let r = t.get(b[k]).make_ref();
            if r.range() != (b[k]..b[k + 1]) || r.try_range() != Some(b[k]..b[k + 1]) {
                return Err(format!("reference to slice {k} has range {:?}, expected {:?}..{:?}", r.range(), b[k], b[k + 1]));
            }
        }
        Ok(())
    }
}

fn full<I: Ix, P: More<I, J, M>, const J: bool, const M: usize>(t: &Tree<I, P, J, M>, m: &Model, heavy: bool) -> Result<(), String> {
    same(t, m)?;
    same_by_lookup(t, m)?;
    let b = m.bounds::<I>();
    let n = m.len();
    iterate(&mut t.iter(..), m, &b, (0, n), n + 1, &|_| true)?;
    iterate(&mut t.iter(..), m, &b, (0, n), n + 1, &|k| k % 2 == 0)?;
    if heavy {
        let st = m.starts();
        let hint: PathVec = if n > 0 { t.cursor_to(b[n / 2]) } else { PathVec(vec![]) };
        for i in 0..n {
            for off in [0, m.runs[i].units() / 2] {
                let lo = m.index_of::<I>(st[i] + off);
                for j in i..n {
                    let hi = m.index_of::<I>(st[j] + m.runs[j].units() - m.runs[j].units() / 3);
                    if lo >= hi {
                        continue;
                    }
                    let len = j - i + 2;
                    iterate(&mut t.iter(lo..hi), m, &b, (i, j + 1), len, &|k| k % 3 == 1)?;
                    iterate(&mut t.iter_with_cursor(hint.clone(), lo..b[j + 1]), m, &b, (i, j + 1), len, &|_| true)?;
                }
            }
        }
    }
    P::more(t, m)
}

fn run<I, P, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, second: usize)
where
    I: Ix,
    P: More<I, J, M>,
{
    let hist = parse_hist(state);
    let m0 = Model::of(&hist, J);
    words_reset();
    ctx.probe("build", &[], || {
        let (t, m) = build::<I, P, J, M>(&hist);
        full(&t, &m, true)
    });
    let ops: Vec<Op> = [op_size(hist.len()), 3].iter().flat_map(|z| m0.ops(*z, J, if *z == 3 { Offsets::Mid } else { Offsets::Ends })).collect();
    for op in ops {
        if J && m0.merges_both(op) {
            continue;
        }
        let mut next = None;
        words_reset();
        let ok = ctx.probe("insert", &op.vals(), || {
            let (mut t, mut m) = build::<I, P, J, M>(&hist);
            insert_op(&mut t, &mut m, op);
            full(&t, &m, m.len() < 7)?;
            next = Some(m);
            Ok(())
        });
        ctx.trace();
        let Some(m1) = next.filter(|_| ok) else { continue };
        ctx.outcome((m1.len(), format!("{:?}", m1.bounds::<I>().last())));
        if m1.len() > second {
            continue;
        }
        for op2 in m1.ops(op_size(hist.len() + 1) | 1, J, Offsets::Mid) {
            let (a, b) = (op.vals(), op2.vals());
            words_reset();
            ctx.probe("insert-insert", &[a[0], a[1], a[2], b[0], b[1], b[2]], || {
                let (mut t, mut m) = build::<I, P, J, M>(&hist);
                insert_op(&mut t, &mut m, op);
                insert_op(&mut t, &mut m, op2);
                full(&t, &m, false)
            });
            ctx.trace();
        }
    }
}

/// The index types used must themselves obey the documented laws (checked over all values that
/// arise as sums of up to `k` fragments; those of `Word` only where the ranges line up)
fn laws(ctx: &mut Ctx, _: &str) {
    let frags: Vec<Frag> = [(0, 0, 1), (0, 1, 4), (1, 0, 2), (1, 2, 3), (2, 1, 2)].map(|(id, lo, hi)| Frag { id, lo, hi }).to_vec();
    ctx.probe("laws", &[], || {
        let mut v = vec![Heis::ZERO];
        for f in &frags {
            let x = Heis::measure(*f);
            let y: Vec<Heis> = v.iter().map(|a| a.add_right(x)).chain(v.iter().map(|a| a.sub_left(x))).collect();
            v.extend(y);
        }
        v.sort();
        v.dedup();
        let step = v.len() / 24 + 1;
        let v: Vec<Heis> = v.into_iter().step_by(step).collect();
        for &x in &v {
            if x.add_right(Heis::ZERO) != x || x.add_left(Heis::ZERO) != x || x.sub_left(Heis::ZERO) != x || x.sub_right(Heis::ZERO) != x {
                return Err("zero".into());
            }
            for &y in &v {
                if x.add_right(y) != y.add_left(x) || x.add_right(y).sub_right(y) != x || x.add_left(y).sub_left(y) != x || x.sub_right(y).add_right(y) != x || x.sub_left(y).add_left(y) != x {
                    return Err(format!("inverse {x:?} {y:?}"));
                }
                for &z in &v {
                    let ok = x.add_right(y).add_right(z) == x.add_right(y.add_right(z))
                        && x.sub_right(y.add_left(z)) == x.sub_right(y).sub_right(z)
                        && x.sub_left(y.add_right(z)) == x.sub_left(y).sub_left(z)
                        && x.sub_right(y.sub_right(z)) == x.add_right(z).sub_right(y)
                        && x.sub_left(y.sub_left(z)) == x.add_left(z).sub_left(y)
                        && x.sub_right(y.sub_left(z)) == x.sub_right(y).add_right(z)
                        && x.sub_left(y.sub_right(z)) == x.sub_left(y).add_left(z);
                    if !ok {
                        return Err(format!("associativity or distributivity {x:?} {y:?} {z:?}"));
                    }
                }
            }
        }
        if v.iter().all(|x| v.iter().all(|y| x.add_right(*y) == y.add_right(*x))) {
            return Err("commutative".into());
        }
        Ok(())
    });
}

use sherman::{DirectionalAdd, DirectionalSub, Index};

fn main() {
    drive(Check {
        id: "P08",
        level: "model_checking",
        rule: "states: every shape reachable with a bounded number of slices, per configuration; transitions: every insertion, for small trees every second one; after each every size, range, total, looked-up entry, iteration from both ends (for small trees over all subranges), clone and reference range is compared with the in-order sum of sizes, and split_at is checked to receive the exact size of a prefix. Index types: pairs of a length and an element of the discrete Heisenberg group (the laws as documented, non-commutative), and texts under concatenation, which panic on any operation between values whose ranges do not line up.",
        assumptions: &["two trees whose slices sit at the same paths behave alike under insertion (used to merge base states)"],
        configs: vec![
            Config::new("laws", fixed(vec![String::new()]), laws),
            Config::new("Heis/NoFeatures/join/M1", shapes::<1>(13, 17), |c, s| run::<Heis, NoFeatures, true, 1>(c, s, c.tier.pick(6, 9))),
            Config::new("Heis/NoFeatures/nojoin/M1", shapes::<1>(12, 16), |c, s| run::<Heis, NoFeatures, false, 1>(c, s, c.tier.pick(6, 9))),
            Config::new("Heis/NoFeatures/join/M2", shapes::<2>(17, 22), |c, s| run::<Heis, NoFeatures, true, 2>(c, s, c.tier.pick(6, 9))),
            Config::new("Heis/NoFeatures/join/M3", shapes::<3>(17, 28), |c, s| run::<Heis, NoFeatures, true, 3>(c, s, 0)),
            Config::new("Heis/AllowCow/join/M1", shapes::<1>(11, 15), |c, s| run::<Heis, AllowCow, true, 1>(c, s, c.tier.pick(0, 7))),
            Config::new("Heis/AllowSliceRefs/join/M1", shapes::<1>(11, 15), |c, s| run::<Heis, AllowSliceRefs, true, 1>(c, s, c.tier.pick(0, 7))),
            Config::new("widest/Heis/AllowSliceRefs/join/M127", fills::<127>(false), |c, s| run::<Heis, AllowSliceRefs, true, 127>(c, s, 0)),
            Config::new("Word/NoFeatures/join/M1", shapes::<1>(13, 16), |c, s| run::<Word, NoFeatures, true, 1>(c, s, c.tier.pick(5, 8))),
            Config::new("Word/NoFeatures/nojoin/M1", shapes::<1>(12, 15), |c, s| run::<Word, NoFeatures, false, 1>(c, s, c.tier.pick(5, 7))),
            Config::new("Word/NoFeatures/join/M2", shapes::<2>(16, 20), |c, s| run::<Word, NoFeatures, true, 2>(c, s, c.tier.pick(0, 7))),
            Config::new("Word/AllowSliceRefs/join/M1", shapes::<1>(11, 14), |c, s| run::<Word, AllowSliceRefs, true, 1>(c, s, 0)),
        ],
    })
}
