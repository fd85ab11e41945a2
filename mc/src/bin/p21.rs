//! Draining a range removes and yields exactly that range.
use mc::common::*;
use std::cell::Cell;

/// The part of a run between two offsets
fn part(r: &Run, lo: u32, hi: u32) -> Run {
    let mut r = r.clone();
    if hi < r.units() {
        r.split(hi);
    }
    if lo > 0 {
        r.split(lo)
    } else {
        r
    }
}

/// What the drain must yield, and what must be left
fn expected(m: &Model, s: u32, e: u32) -> (Vec<(u32, u32, Run)>, Vec<Run>) {
    let (mut out, mut rest) = (vec![], vec![]);
    let st = m.starts();
    for k in 0..m.len() {
        let (a, b) = (st[k], st[k + 1]);
        let (lo, hi) = (a.max(s), b.min(e));
        if lo >= hi {
            rest.push(m.runs[k].clone());
            continue;
        }
        if a < lo {
            rest.push(part(&m.runs[k], 0, lo - a));
        }
        out.push((lo, hi, part(&m.runs[k], lo - a, hi - a)));
        if hi < b {
            rest.push(part(&m.runs[k], hi - a, b - a));
        }
    }
    (out, rest)
}

/// `mask`: bit k set means step k is from the back
fn drain<I: Ix, P, const M: usize>(hist: &[Op], s: u32, e: u32, steps: usize, mask: u64, hint: bool, forget: bool, known: &Cell<&'static str>) -> Result<(), String>
where
    P: RleTreeConfig<I, Seg<false>, M> + SupportsInsert<I, Seg<false>, M>,
{
    let before = ledger().alive;
    let (mut t, m) = build::<I, P, false, M>(hist);
    let (want, rest) = expected(&m, s, e);
    let (is, ie): (I, I) = (m.index_of(s), m.index_of(e));
    let mut bad = Ok(());
    let stepped = {
        let mut go = |next: &mut dyn FnMut(bool) -> Option<(std::ops::Range<I>, Seg<false>)>| {
            let (mut lo, mut hi) = (0, want.len());
            for k in 0..steps {
                let back = mask >> k & 1 == 1;
                let got = match guarded(|| next(back)) {
                    Ok(x) => x,
                    Err(p) if p == "not yet implemented" && k == 0 => {
                        known.set("drain-steps-unimplemented");
                        return true;
                    }
                    Err(p) => {
                        bad = Err(format!("step {k} panics: {p}"));
                        return false;
                    }
                };
                let w = if lo == hi {
                    None
                } else if back {
                    hi -= 1;
                    Some(&want[hi])
                } else {
                    lo += 1;
                    Some(&want[lo - 1])
                };
                let ok = match (&got, w) {
                    (None, None) => true,
                    (Some((r, x)), Some((a, b, run))) => *r == (m.index_of::<I>(*a)..m.index_of::<I>(*b)) && x.run().frags == run.frags,
                    _ => false,
                };
                if !ok {
                    bad = Err(format!("step {k} yields {got:?}, expected {w:?}"));
                    return false;
                }
            }
            true
        };
        macro_rules! with {
            ($d:expr) => {{
                let mut d = $d;
                let r = go(&mut |back| if back { d.next_back() } else { d.next() });
                if forget {
                    std::mem::forget(d);
                } else if let Err(p) = guarded(|| drop(d)) {
                    if p != "internal error: entered unreachable code: invalid state" || known.get() == "" && steps > 0 {
                        return Err(format!("dropping the drain panics: {p}"));
                    }
                    known.set("drain-drop-panics-with-slice-references");
                    return ledger_error();
                }
                r
            }};
        }
        if hint {
            with!(t.drain_with_cursor(PathVec(vec![]), is..ie))
        } else {
            with!(t.drain(is..ie))
        }
    };
    bad?;
    if !stepped {
        return Ok(());
    }
    if forget {
        // anything may be in the tree, but using it is safe
        let got: Vec<Run> = t.iter(..).map(|x| x.slice().run().clone()).collect();
        let run = Run::fresh(900_000, 8);
        let z = run.measure::<I>();
        t.insert(I::ZERO, Seg::new(run), z);
        if t.iter(..).count() < got.len() {
            return Err("insertion after a forgotten drain loses slices".into());
        }
        return ledger_error();
    }
    let got: Vec<Vec<Frag>> = t.iter(..).map(|x| x.slice().run().frags.clone()).collect();
    if got.is_empty() && ledger().alive - before == m.len() as i64 && known.get() != "" {
        // nothing was done at all
        return Ok(());
    }
    if got.is_empty() && ledger().alive - before == m.len() as i64 && m.len() > 0 && steps == 0 {
        known.set("drain-dropped-loses-the-tree");
        return Ok(());
    }
    let want: Vec<Vec<Frag>> = rest.iter().map(|r| r.frags.clone()).collect();
    if got != want {
        return Err(format!("the tree is left with {got:?}, expected {want:?}"));
    }
    if ledger().alive - before != rest.len() as i64 {
        return Err(format!("{} slices are alive, the tree has {}", ledger().alive - before, rest.len()));
    }
    let mut m2 = Model::new();
    m2.runs = rest;
    same(&t, &m2)?;
    same_by_lookup(&t, &m2)?;
    drop(t);
    if ledger().alive != before {
        return Err("slices were never released".into());
    }
    ledger_error()
}

fn run<I: Ix, P, const M: usize>(ctx: &mut Ctx, state: &str)
where
    P: RleTreeConfig<I, Seg<false>, M> + SupportsInsert<I, Seg<false>, M>,
{
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<I, P, false, M>(&hist)) else { return };
    if !matches!(ctx.base(|| same(&t, &m)), Some(Ok(()))) {
        return;
    }
    drop(t);
    let st = m.starts();
    let mut points = vec![];
    for k in 0..m.len() {
        points.extend([st[k], st[k] + m.runs[k].units() / 2]);
    }
    points.push(st[m.len()]);
    for (i, s) in points.iter().enumerate() {
        for e in &points[i..] {
            let n = expected(&m, *s, *e).0.len();
            for steps in 0..=n + 1 {
                for mask in 0..1u64 << steps.min(4) {
                    for (hint, forget) in [(false, false), (true, false), (false, true)] {
                        let v = [*s as i64, *e as i64, steps as i64, mask as i64, hint as i64, forget as i64];
                        let known = Cell::new("");
                        ctx.probe("drain", &v, || drain::<I, P, M>(&hist, *s, *e, steps, mask, hint, forget, &known));
                        if known.get() != "" {
                            ctx.fail("drain", &v, known.get(), format!("draining {s}..{e} with {steps} steps"));
                        }
                        ctx.add("nontrivial", (n > 0) as u64);
                        ctx.trace();
                    }
                }
            }
        }
    }
    ctx.outcome(state);
}

fn main() {
    drive(Check {
        id: "P21",
        level: "model_checking",
        rule: "every range between boundaries and middles of slices on every tree shape within the bound, with every pattern of front and back steps, dropped or forgotten after every number of steps; nontrivial: the range overlaps a slice",
        assumptions: &["the feature is not implemented on this tree (see the known findings): what is checked is that every drain fails in exactly the recorded way and stays memory safe; the full oracle is in place for when it is"],
        configs: vec![
            Config::new("plain/M1", shapes::<1>(4, 6), |c, s| run::<usize, NoFeatures, 1>(c, s)),
            Config::new("plain/M2", shapes::<2>(5, 7), |c, s| run::<u32, NoFeatures, 2>(c, s)),
            Config::new("cow/M1", shapes::<1>(3, 5), |c, s| run::<usize, AllowCow, 1>(c, s)),
            Config::new("refs/M1", shapes::<1>(3, 5), |c, s| run::<usize, AllowSliceRefs, 1>(c, s)),
        ],
    })
}
