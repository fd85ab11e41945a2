//! Every slice is released exactly once and nothing leaks.
use mc::alloc::live_blocks;
use mc::common::*;
use mc::fam::*;
use mc::refs::{RAct, World};
use std::cell::Cell;
use std::collections::HashSet;
use Step::*;

/// Runs `f` and compares what is alive before and after. Double releases and bad frees abort.
fn balanced(f: &mut dyn FnMut() -> Result<(), String>) -> Result<(), String> {
    let alive = ledger().alive;
    let blocks = live_blocks();
    f()?;
    if ledger().alive != alive {
        return Err(format!("{} slices were never released", ledger().alive - alive));
    }
    if live_blocks() == blocks {
        return Ok(());
    }
    // the harness itself may have remembered something the first time
    let blocks = live_blocks();
    f()?;
    if live_blocks() != blocks {
        return Err(format!("{} blocks of memory were never returned", live_blocks() - blocks));
    }
    Ok(())
}

const ORDERS: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];

/// slices alive must be exactly those some tree still holds
fn exact<I: Ix, P, const J: bool, const M: usize>(f: &Fam<I, P, J, M>, base: i64) -> Result<(), String>
where
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
    Tree<I, P, J, M>: Clone,
{
    let mut held: HashSet<usize> = HashSet::new();
    for (_, t, _) in f.each() {
        held.extend(t.iter(..).map(|e| e.slice() as *const _ as usize));
    }
    let n = held.len() as i64;
    drop(held);
    if ledger().alive - base != n {
        return Err(format!("{} slices are alive, the trees hold {n}", ledger().alive - base));
    }
    Ok(())
}

fn families<I: Ix, P, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, plans: &[(&[Step], usize)])
where
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
    Tree<I, P, J, M>: Clone,
{
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<I, P, J, M>(&hist)) else { return };
    if !matches!(ctx.base(|| same(&t, &m)), Some(Ok(()))) {
        return;
    }
    drop(t);
    ctx.probe("build-and-drop", &[], || balanced(&mut || Ok(drop(build::<I, P, J, M>(&hist)))));
    for op in m.ops(op_size(hist.len()), J, Offsets::Mid) {
        if J && m.merges_both(op) {
            continue;
        }
        ctx.probe("insert", &op.vals(), || {
            balanced(&mut || {
                let base = ledger().alive;
                let mut f = Fam::<I, P, J, M>::start(&hist);
                f.act(Act::Ins(0, op));
                exact(&f, base)
            })
        });
        ctx.trace();
    }
    for (plan, max) in plans {
        if m.len() > *max {
            continue;
        }
        sequences_of(&m, plan, op_size(hist.len()), J, &mut |acts, ms| {
            let left: Vec<usize> = (0..SLOTS).filter(|s| ms[*s].is_some()).collect();
            let mut seen: Vec<Vec<usize>> = vec![];
            for (o, order) in ORDERS.iter().enumerate() {
                let order: Vec<usize> = order.iter().copied().filter(|s| left.contains(s)).collect();
                if seen.contains(&order) {
                    continue;
                }
                seen.push(order.clone());
                let mut v = Act::text(acts);
                v.push(o as i64);
                ctx.probe("family", &v, || {
                    balanced(&mut || {
                        let base = ledger().alive;
                        let mut f = Fam::<I, P, J, M>::start(&hist);
                        for a in acts {
                            f.act(*a);
                        }
                        exact(&f, base)?;
                        for s in &order {
                            f.act(Act::Drop(*s as u8));
                            exact(&f, base)?;
                        }
                        Ok(())
                    })
                });
                ctx.trace();
            }
        });
    }
    ctx.outcome(state);
}

/// Other trees change or go while user code is called by an insertion
fn meanwhile<I: Ix, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, kinds: u32) {
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<I, AllowCow, J, M>(&hist)) else { return };
    if !matches!(ctx.base(|| same(&t, &m)), Some(Ok(()))) {
        return;
    }
    drop(t);
    reentrant::<I, J, M>(ctx, &hist, &m, kinds, &|t, o, base| {
        let mut held: HashSet<usize> = HashSet::new();
        for t in std::iter::once(t).chain(o.iter().map(|x| &x.0)) {
            held.extend(t.iter(..).map(|e| e.slice() as *const _ as usize));
        }
        if ledger().alive - base != held.len() as i64 {
            return Err(format!("{} slices are alive, the trees hold {}", ledger().alive - base, held.len()));
        }
        Ok(())
    });
    ctx.outcome(state);
}

/// Iterators and entries abandoned at every stage, cursors, refused calls
fn leftovers<I: Ix, P, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str)
where
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
    Tree<I, P, J, M>: Clone,
{
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<I, P, J, M>(&hist)) else { return };
    if !matches!(ctx.base(|| same(&t, &m)), Some(Ok(()))) {
        return;
    }
    drop(t);
    for k in 0..=m.len() {
        for pat in 0..3 {
            ctx.probe("iterator", &[k as i64, pat], || {
                balanced(&mut || {
                    let mut f = Fam::<I, P, J, M>::start(&hist);
                    f.act(Act::Fork(0));
                    if m.len() > 0 {
                        f.act(Act::Ins(1, Op { pos: m.starts()[k.min(m.len() - 1)], size: 5, kind: PLAIN }));
                    }
                    f.act(Act::Drop(0));
                    let (_, t, _) = f.each().next().unwrap();
                    let mut it = t.iter(..);
                    for j in 0..k {
                        match pat {
                            0 => drop(it.next()),
                            1 => drop(it.next_back()),
                            _ => drop(if j % 2 == 0 { it.next() } else { it.next_back() }),
                        }
                    }
                    drop(it);
                    if m.len() > 0 {
                        let e = t.get(m.bounds::<I>()[k.min(m.len() - 1)]);
                        drop(e.clone());
                    }
                    Ok(())
                })
            });
            ctx.trace();
        }
    }
    let size: I = m.index_of(m.units());
    for what in 0..6 {
        ctx.probe("refused", &[what], || {
            balanced(&mut || {
                let mut f = Fam::<I, P, J, M>::start(&hist);
                f.act(Act::Fork(0));
                let t = f.t[0].as_mut().unwrap();
                let over = size.add_right(Run::fresh(0, 7).measure());
                let r = match what {
                    0 => guarded(|| t.insert(over, Seg::new(Run::fresh(1, 7)), Run::fresh(0, 7).measure())),
                    1 => guarded(|| t.insert(I::ZERO, Seg::new(Run::fresh(1, 7)), I::ZERO)),
                    2 => guarded(|| drop(t.get(over).range())),
                    3 => guarded(|| drop(t.iter(over..).count())),
                    4 => guarded(|| drop(t.cursor_to::<PathVec>(over))),
                    _ => guarded(|| drop(Tree::<I, P, J, M>::new(Seg::new(Run::fresh(1, 7)), I::ZERO))),
                };
                drop(r);
                Ok(())
            })
        });
        ctx.trace();
    }
}

/// References and borrows let go in every order
fn references<const J: bool, const M: usize>(ctx: &mut Ctx, state: &str) {
    use RAct::*;
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<usize, AllowSliceRefs, J, M>(&hist)) else { return };
    if !matches!(ctx.base(|| same(&t, &m)), Some(Ok(()))) {
        return;
    }
    drop(t);
    for op in m.ops(op_size(hist.len()), J, Offsets::Mid) {
        if J && m.merges_both(op) {
            continue;
        }
        // what is let go: 0 tree, 1 the references, 2 the borrow, 3 the clone of a reference
        for (o, order) in permutations(4).into_iter().enumerate() {
            // a borrow ends before the reference it came from
            if order.iter().position(|x| *x == 2) > order.iter().position(|x| *x == 1) {
                continue;
            }
            let v = op.vals();
            ctx.probe("references", &[v[0], v[2], o as i64], || {
                balanced(&mut || {
                    let mut w = World::<usize, J, M>::start(&hist);
                    w.make_refs((1 << m.len()) - 1)?;
                    let n = w.refs.len() as u8;
                    w.act(InsertRef(op))?;
                    let base_refs = w.refs.len() as u8;
                    w.act(Borrow(n))?;
                    w.act(MapBorrow(0))?;
                    w.act(CloneBorrow(0))?;
                    w.act(CloneRef(n))?;
                    let total = ledger().alive;
                    let slices = w.s.m.len() as i64;
                    let (mut tree, mut bor) = (true, true);
                    for step in &order {
                        match step {
                            0 => {
                                w.act(DropTree)?;
                                tree = false;
                            }
                            1 => {
                                for r in 0..base_refs {
                                    w.act(DropRef(r))?;
                                }
                            }
                            2 => {
                                w.act(DropBorrow(1))?;
                                w.act(DropBorrow(0))?;
                                bor = false;
                            }
                            _ => {
                                let c = w.refs[base_refs as usize].as_ref().unwrap();
                                drop(c.clone());
                                w.act(DropRef(base_refs))?;
                            }
                        }
                        let want = if tree || bor { total } else { total - slices };
                        if ledger().alive != want {
                            return Err(format!("after step {step}: {} slices are alive, expected {}", ledger().alive, want));
                        }
                    }
                    Ok(())
                })
            });
            ctx.trace();
        }
    }
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in permutations(n - 1) {
        for k in 0..=p.len() {
            let mut q = p.clone();
            q.insert(k, n - 1);
            v.push(q);
        }
    }
    v
}

// Slice types of unusual layout: without size, and aligned beyond a cache line.
thread_local!(static ODD: Cell<i64> = const { Cell::new(0) });
trait Odd: Clone {
    fn make() -> Self;
    fn fine(&self) -> bool;
}
macro_rules! odd {
    ($name:ident, $repr:meta, $field:ty, $val:expr) => {
        #[$repr]
        struct $name($field);
        impl Odd for $name {
            fn make() -> Self {
                ODD.with(|c| c.set(c.get() + 1));
                $name($val)
            }
            fn fine(&self) -> bool {
                self.0 == $val && (self as *const _ as usize) % std::mem::align_of::<$name>() == 0
            }
        }
        impl std::clone::Clone for $name {
            fn clone(&self) -> Self {
                Self::make()
            }
        }
        impl std::ops::Drop for $name {
            fn drop(&mut self) {
                ODD.with(|c| c.set(c.get() - 1));
            }
        }
        impl<I> Slice<I> for $name {
            const MAY_JOIN: bool = false;
            fn split_at(&mut self, _: I) -> Self {
                Self::make()
            }
            fn try_join(self, other: Self) -> Result<Self, (Self, Self)> {
                Err((self, other))
            }
        }
    };
}
odd!(Nothing, repr(C), (), ());
odd!(Wide, repr(align(256)), u64, 0x1234_5678_9ABC_DEF0);
odd!(Huge, repr(C), [u64; 300], [7; 300]);
odd!(Byte, repr(C), u8, 3);

fn odd<S: Odd + Slice<usize> + 'static, P, const M: usize>(ctx: &mut Ctx, state: &str, forks: Option<fn(&RleTree<usize, S, P, M>) -> RleTree<usize, S, P, M>>)
where
    P: RleTreeConfig<usize, S, M> + SupportsInsert<usize, S, M>,
{
    let hist = parse_hist(state);
    let size = std::mem::size_of::<S>() as i64;
    for op in Model::of(&hist, false).ops(op_size(hist.len()), false, Offsets::Mid) {
        let v = op.vals();
        ctx.probe("odd", &[v[0], size], || {
            balanced(&mut || {
                let before = ODD.with(|c| c.get());
                {
                    let mut t: RleTree<usize, S, P, M> = RleTree::new_empty();
                    let mut m = Model::new();
                    for o in &hist {
                        t.insert(o.pos as usize, S::make(), o.size as usize);
                        m.apply(*o, false);
                    }
                    let f = forks.map(|f| (f(&t), m.clone()));
                    t.insert(op.pos as usize, S::make(), op.size as usize);
                    m.apply(op, false);
                    let mut all = vec![(t, m)];
                    all.extend(f);
                    for (t, m) in &all {
                        let b = m.bounds::<usize>();
                        if t.number_of_slices() != m.len() || t.size() != b[m.len()] {
                            return Err("wrong size or number of slices".into());
                        }
                        let got: Vec<_> = t.iter(..).map(|e| (e.range(), e.slice().fine())).collect();
                        let want: Vec<_> = (0..m.len()).map(|k| (b[k]..b[k + 1], true)).collect();
                        if got != want {
                            return Err(format!("slices are {got:?}, expected {want:?}"));
                        }
                    }
                }
                if ODD.with(|c| c.get()) != before {
                    return Err(format!("{} slices too many are alive", ODD.with(|c| c.get()) - before));
                }
                Ok(())
            })
        });
        ctx.trace();
    }
}

fn odd_all<P, const M: usize>(ctx: &mut Ctx, state: &str)
where
    P: RleTreeConfig<usize, Nothing, M> + SupportsInsert<usize, Nothing, M>,
    P: RleTreeConfig<usize, Wide, M> + SupportsInsert<usize, Wide, M>,
    P: RleTreeConfig<usize, Huge, M> + SupportsInsert<usize, Huge, M>,
    P: RleTreeConfig<usize, Byte, M> + SupportsInsert<usize, Byte, M>,
{
    odd::<Nothing, P, M>(ctx, state, None);
    odd::<Wide, P, M>(ctx, state, None);
    odd::<Huge, P, M>(ctx, state, None);
    odd::<Byte, P, M>(ctx, state, None);
}

fn odd_cow<const M: usize>(ctx: &mut Ctx, state: &str) {
    odd::<Nothing, AllowCow, M>(ctx, state, Some(|t| t.clone()));
    odd::<Wide, AllowCow, M>(ctx, state, Some(|t| t.clone()));
    odd::<Huge, AllowCow, M>(ctx, state, Some(|t| t.clone()));
    odd::<Byte, AllowCow, M>(ctx, state, Some(|t| t.clone()));
    odd::<Nothing, NoFeatures, M>(ctx, state, Some(|t| t.clone()));
    odd::<Wide, NoFeatures, M>(ctx, state, Some(|t| t.clone()));
}

const QUICK: &[(&[Step], usize)] = &[
    (&[Fork], 99),
    (&[Fork, InsAll], 99),
    (&[Fork, InsPlain, InsEdge], 9),
    (&[Fork, InsAll, InsAll], 4),
    (&[Fork, InsPlain, Fork, InsEdge], 5),
    (&[Fork, InsPlain, Drop, InsEdge], 9),
    (&[Fork, Any, Any, Any], 2),
];
const DEEP: &[(&[Step], usize)] = &[
    (&[Fork], 99),
    (&[Fork, InsAll], 99),
    (&[Fork, InsAll, InsAll], 8),
    (&[Fork, InsPlain, InsPlain], 99),
    (&[Fork, InsPlain, Fork, InsPlain], 9),
    (&[Fork, InsPlain, Drop, InsPlain], 99),
    (&[Fork, Any, Any, Any], 4),
    (&[Fork, Any, Any, Any, Any], 2),
];

fn main() {
    fn go<I: Ix, P, const J: bool, const M: usize>(c: &mut Ctx, s: &str)
    where
        P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
        Tree<I, P, J, M>: Clone,
    {
        let p = c.tier.pick(QUICK, DEEP);
        families::<I, P, J, M>(c, s, p)
    }
    drive(Check {
        id: "P13",
        level: "model_checking",
        rule: "states: every shape reachable with a bounded number of slices, per configuration; transitions: every sequence following the plans of clones, insertions and drops, with the remaining trees dropped in every order; iterators abandoned after every number of steps; references, borrows and the tree let go in every order the borrow checker allows; refused calls; slice types without size and with large size or alignment. After every step the slices alive are exactly those the trees hold, in the end none and no block of memory remains; an allocator that checks layouts, double and invalid frees, and writes after free is in place throughout",
        assumptions: &["two trees built without clones whose slices sit at the same paths behave alike (used to merge base states)"],
        configs: vec![
            Config::new("cow/join/M1", shapes::<1>(14, 15), go::<usize, AllowCow, true, 1>),
            Config::new("cow/nojoin/M2", shapes::<2>(14, 17), go::<usize, AllowCow, false, 2>),
            Config::new("plain/join/M1", shapes::<1>(11, 15), go::<usize, NoFeatures, true, 1>),
            Config::new("plain/join/M3", shapes::<3>(14, 20), go::<usize, NoFeatures, true, 3>),
            Config::new("in the middle/slices/join/M1", shapes::<1>(7, 11), |c, s| meanwhile::<usize, true, 1>(c, s, 1 << SPLIT | 1 << JOIN | 1 << CLONE | 1 << DROP)),
            Config::new("in the middle/all/M1", shapes::<1>(4, 7), |c, s| meanwhile::<Cu, false, 1>(c, s, 1 << SPLIT | 1 << CLONE | 1 << DROP | 1 << ADD | 1 << SUB | 1 << CMP)),
            Config::new("leftovers/cow/M1", shapes::<1>(13, 15), leftovers::<usize, AllowCow, true, 1>),
            Config::new("leftovers/plain/M2", shapes::<2>(13, 15), leftovers::<usize, NoFeatures, true, 2>),
            Config::new("references/M1", shapes::<1>(11, 15), references::<true, 1>),
            Config::new("references/M2", shapes::<2>(13, 17), references::<true, 2>),
            Config::new("odd/plain/M1", shapes::<1>(11, 15), odd_all::<NoFeatures, 1>),
            Config::new("odd/references/M1", shapes::<1>(9, 13), odd_all::<AllowSliceRefs, 1>),
            Config::new("odd/cow/M1", shapes::<1>(11, 15), odd_cow::<1>),
            Config::new("odd/cow/M2", shapes::<2>(11, 15), odd_cow::<2>),
        ],
    })
}
