//! Slice references and borrows are safe in every order of use and drop.
use mc::common::*;
use mc::refs::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use RAct::*;

const PARTS: usize = 8;

#[derive(Clone, Copy)]
struct Lim3 {
    refs: usize,
    borrows: usize,
    ops: u8,
    slices: usize,
}

fn choices<const J: bool>(s: &Spec, size: u32, l: Lim3) -> Vec<RAct> {
    let mut v = vec![];
    let (refs, bors) = (s.live_refs(), s.live_borrows());
    if !s.gone {
        if refs.len() < l.refs {
            v.extend((0..s.m.len().min(4)).map(|k| MakeRef(k as u8)));
        }
        for (i, o) in s.m.ops(size, J, Offsets::Mid).into_iter().enumerate() {
            if J && s.m.merges_both(o) || s.m.len() >= l.slices && o.kind == 0 {
                continue;
            }
            // while something is borrowed all insertions are refused alike
            if s.borrowed() && i > 0 {
                break;
            }
            if l.ops == 0 && i % 3 != 0 {
                continue;
            }
            v.push(Insert(o));
            if refs.len() < l.refs {
                v.push(InsertRef(o));
            }
        }
        v.push(DropTree);
    }
    for r in &refs {
        if refs.len() < l.refs {
            v.push(CloneRef(*r));
        }
        if !s.borrows.contains(&Some(*r as usize)) {
            v.push(DropRef(*r));
        }
        if !s.dead && !s.gone && bors.len() < l.borrows {
            v.push(Borrow(*r));
        }
    }
    for b in bors.iter() {
        v.push(DropBorrow(*b));
        v.push(MapBorrow(*b));
        if bors.len() < l.borrows {
            v.push(CloneBorrow(*b));
        }
    }
    v
}

fn go<const J: bool>(s: &Spec, acts: &mut Vec<RAct>, depth: usize, size: u32, l: Lim3, part: usize, f: &mut dyn FnMut(&[RAct])) {
    if !acts.is_empty() {
        f(acts);
    }
    if depth == 0 {
        return;
    }
    for (i, a) in choices::<J>(s, size, l).into_iter().enumerate() {
        // the first step shares the work out
        if acts.is_empty() && i % PARTS != part {
            continue;
        }
        // mapping twice in a row is like mapping once
        if matches!((acts.last(), a), (Some(MapBorrow(x)), MapBorrow(y)) if *x == y) {
            continue;
        }
        let mut s2 = s.clone();
        s2.step::<J>(a);
        acts.push(a);
        go::<J>(&s2, acts, depth - 1, size + 1, l, part, f);
        acts.pop();
    }
}

fn run<I: Ix, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, depth: usize, l: Lim3) {
    let (mask, rest) = state.split_once(' ').unwrap();
    let (part, hist) = rest.split_once(' ').unwrap();
    let mask: u64 = mask.parse().unwrap();
    let hist = parse_hist(hist);
    let Some((t, m)) = ctx.base(|| build::<I, AllowSliceRefs, J, M>(&hist)) else { return };
    if !matches!(ctx.base(|| same(&t, &m)), Some(Ok(()))) {
        return;
    }
    drop(t);
    let mut s = Spec::new(m.clone());
    for k in 0..m.len() {
        if mask >> k & 1 == 1 {
            s.step::<J>(MakeRef(k as u8));
        }
    }
    go::<J>(&s, &mut vec![], depth, op_size(hist.len()), l, part.parse().unwrap(), &mut |acts| {
        // asking in between changes what happens inside, so with and without
        for ask in [false, true] {
            if ask && acts.len() > 4 {
                continue;
            }
            let mut v = RAct::text(acts);
            v.push(ask as i64);
            ctx.probe("sequence", &v, || {
                let alive = ledger().alive;
                let mut w = World::<I, J, M>::start(&hist);
                w.make_refs(mask)?;
                for a in acts {
                    w.act(*a)?;
                    if ask {
                        w.check_with(false)?;
                    }
                }
                w.check()?;
                if w.s.dead && ledger().alive != alive {
                    return Err("slices outlive their tree although nothing is borrowed".into());
                }
                // let go of everything, in order
                for b in w.borrows.iter_mut() {
                    *b = None;
                }
                w.check_after_release(alive)
            });
            ctx.trace();
        }
    });
    ctx.outcome(state);
}

trait Release {
    fn check_after_release(self, alive: i64) -> Result<(), String>;
}
impl<I: Ix, const J: bool, const M: usize> Release for World<I, J, M> {
    fn check_after_release(mut self, alive: i64) -> Result<(), String> {
        for b in 0..self.s.borrows.len() {
            if self.s.borrows[b].is_some() {
                self.s.step::<J>(DropBorrow(b as u8));
            }
        }
        self.check_with(false)?;
        if self.tree.is_some() {
            // changing the tree is possible again
            let o = Op { pos: 0, size: 1 << 20, kind: 0 };
            self.act(InsertRef(o))?;
            self.check_with(false)?;
        }
        self.tree = None;
        self.s.step::<J>(DropTree);
        self.check_with(false)?;
        self.refs.clear();
        if ledger().alive != alive {
            return Err("slices outlive their tree".into());
        }
        Ok(())
    }
}

/// small shapes with every choice of slices referred to from the start
fn small<const M: usize>(n: usize) -> impl Fn(Tier, &mut Ctx) -> Vec<String> {
    move |tier, ctx| {
        let mut v = vec![];
        for h in shapes::<M>(n, n)(tier, ctx) {
            let k = Model::of(&parse_hist(&h), true).len();
            for mask in 0..1u64 << k {
                if mask.count_ones() <= 2 {
                    v.extend((0..PARTS).map(|p| format!("{mask} {p} {h}")));
                }
            }
        }
        v
    }
}


// ---------------------------------------------------------------------------------------------
// What user code may do while it is called by the tree or by a reference
// ---------------------------------------------------------------------------------------------

/// What is going on when user code is called
#[derive(Clone, Copy, Debug, PartialEq)]
enum Main {
    Insert(Op),
    InsertRef(Op),
    DropTree,
    /// the end of the last borrow, with the tree already dropped
    LastBorrow(usize),
    Range(usize),
    Cursor(usize),
    Get(usize),
    Iter,
    CursorTo(usize),
}

/// What the user code does
#[derive(Clone, Copy, Debug, PartialEq)]
enum Sub {
    Ask,
    CloneRefs,
    DropRef(usize),
    DropRefs,
    DropTree,
    Insert,
    Borrow,
    MakeRef,
}

type Slot<I, const J: bool, const M: usize> = RefCell<Option<Box<SRef<I, J, M>>>>;

struct Shared<I: Ix, const J: bool, const M: usize> {
    kept: RefCell<Vec<BorrowSlot<J>>>,
    refs: Vec<Slot<I, J, M>>,
    cloned: RefCell<Vec<(usize, Box<SRef<I, J, M>>)>>,
    made: RefCell<Option<Box<SRef<I, J, M>>>>,
    tree: RefCell<Option<RTree<I, J, M>>>,
    dropped: RefCell<Vec<usize>>,
    tree_dropped: Cell<bool>,
    inserted: Cell<bool>,
    said: RefCell<Result<(), String>>,
}

const EXTRA: Op = Op { pos: 0, size: 1 << 18, kind: PLAIN };

impl<I: Ix, const J: bool, const M: usize> Shared<I, J, M> {
    fn sub(&self, s: Sub, main: Main, m: &Model, at: &[Option<usize>]) -> Result<(), String> {
        let changing = matches!(main, Main::Insert(_) | Main::InsertRef(_));
        let ending = matches!(main, Main::DropTree | Main::LastBorrow(_));
        let b = m.bounds::<I>();
        match s {
            Sub::Ask => {
                for (k, r) in self.refs.iter().enumerate() {
                    let Ok(r) = r.try_borrow() else { continue };
                    let Some(r) = r.as_ref() else { continue };
                    let (valid, can) = (r.is_valid(), r.can_borrow());
                    let slice = r.try_borrow_slice();
                    let got = match &slice {
                        None => None,
                        Some(s) => Some(s.checked()?.clone()),
                    };
                    drop(slice);
                    let range = r.try_range();
                    let cursor = r.try_cursor::<PathVec>();
                    // (a change begins with comparisons of the index, before anything is touched)
                    if ending || changing && !can {
                        if can || got.is_some() || range.is_some() || cursor.is_some() {
                            return Err(format!("reference {k} gives access to a tree that is being {}", if changing { "changed" } else { "dropped" }));
                        }
                        if ending && valid {
                            return Err(format!("reference {k} is said to be valid while its tree is dropped"));
                        }
                    } else if let Some(at) = at[k] {
                        if !valid || !can || got.as_ref().map(|g| &g.frags) != Some(&m.runs[at].frags) || range != Some(b[at]..b[at + 1]) || cursor.is_none() {
                            return Err(format!("reference {k} says valid {valid}, can_borrow {can}, {got:?} at {range:?}, in a call from another query"));
                        }
                    }
                    if guarded(|| drop(r.borrow_slice())).is_ok() != can || guarded(|| drop(r.range())).is_ok() != can {
                        return Err(format!("reference {k}: methods that panic and ones that don't disagree"));
                    }
                }
            }
            Sub::CloneRefs => {
                for (k, r) in self.refs.iter().enumerate() {
                    let Ok(r) = r.try_borrow() else { continue };
                    if let Some(r) = r.as_ref() {
                        let c = Box::new((**r).clone());
                        self.cloned.borrow_mut().push((k, c));
                    }
                }
            }
            Sub::DropRef(k) => self.drop_ref(k),
            Sub::DropRefs => (0..self.refs.len()).for_each(|k| self.drop_ref(k)),
            Sub::DropTree => {
                if let Ok(mut t) = self.tree.try_borrow_mut() {
                    if let Some(t) = t.take() {
                        drop(t);
                        self.tree_dropped.set(true);
                    }
                }
            }
            Sub::Insert => {
                if let Ok(mut t) = self.tree.try_borrow_mut() {
                    if let Some(t) = t.as_mut() {
                        let run = m.fresh(EXTRA);
                        let size = run.measure::<I>();
                        if guarded(|| t.insert(I::ZERO, Seg::new(run), size)).is_ok() {
                            self.inserted.set(true);
                        }
                    }
                }
            }
            Sub::Borrow => {
                for (k, r) in self.refs.iter().enumerate() {
                    let Ok(r) = r.try_borrow() else { continue };
                    let Some(r) = r.as_ref() else { continue };
                    let x = r.try_borrow_slice();
                    if let Some(x) = x {
                        let Some(at) = at[k] else { return Err("a slice that is gone can be borrowed".into()) };
                        if ending {
                            return Err(format!("reference {k} gives access to a tree that is being {}", if changing { "changed" } else { "dropped" }));
                        }
                        // nobody drops the box before the borrow
                        let x: sherman::Borrow<'static, Seg<J>> = unsafe { std::mem::transmute(x) };
                        self.kept.borrow_mut().push(BorrowSlot { of: k, held: Held::Slice(x), run: m.runs[at].clone() });
                    }
                }
            }
            Sub::MakeRef => {
                if let Ok(t) = self.tree.try_borrow() {
                    if let (Some(t), true) = (t.as_ref(), m.len() > 0) {
                        let reading = matches!(main, Main::Get(_) | Main::Iter | Main::CursorTo(_));
                        match guarded(|| t.get(b[m.len() - 1]).make_ref()) {
                            Ok(r) => *self.made.borrow_mut() = Some(Box::new(r)),
                            Err(p) if reading => return Err(format!("making a reference panics: {p}")),
                            Err(_) => {}
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn drop_ref(&self, k: usize) {
        // the one in use right now cannot be dropped
        if self.kept.borrow().iter().any(|b| b.of == k) {
            return;
        }
        if let Ok(mut r) = self.refs[k].try_borrow_mut() {
            if r.take().is_some() {
                self.dropped.borrow_mut().push(k);
            }
        }
    }
}

const ALL: u32 = 1 << SPLIT | 1 << JOIN | 1 << DROP | 1 << ADD | 1 << SUB | 1 << CMP | 1 << CURSOR;

fn once<I: Ix, const J: bool, const M: usize>(hist: &[Op], mask: u64, main: Main, sub: Sub, kinds: u32, nth: u64) -> Result<u64, String> {
    let alive = ledger().alive;
    let mut w = World::<I, J, M>::start(hist);
    w.make_refs(mask)?;
    if let Main::LastBorrow(r) = main {
        w.act(RAct::Borrow(r as u8))?;
        w.act(DropTree)?;
    }
    let World { borrows, refs, tree, s: mut spec } = w;
    let mut borrow = borrows.into_iter().flatten().next();
    let sh = Rc::new(Shared::<I, J, M> {
        kept: Default::default(),
        refs: refs.into_iter().map(RefCell::new).collect(),
        cloned: Default::default(),
        made: Default::default(),
        tree: RefCell::new(tree),
        dropped: Default::default(),
        tree_dropped: Cell::new(false),
        inserted: Cell::new(false),
        said: RefCell::new(Ok(())),
    });
    // (the reference borrowed from is in use until the borrow has ended)
    let in_use = match main {
        Main::LastBorrow(r) => Some(sh.refs[r].borrow()),
        _ => None,
    };
    let (sh2, m2, at) = (sh.clone(), spec.m.clone(), spec.refs.clone());
    let hook = Box::new(move || {
        let r = sh2.sub(sub, main, &m2, &at);
        *sh2.said.borrow_mut() = r;
    });
    let b = spec.m.bounds::<I>();
    let mut new_ref = None;
    let (mut wrong, mut refused) = (None, false);
    let mut calls = 0;
    match main {
        Main::Insert(o) | Main::InsertRef(o) => {
            let run = spec.m.fresh(o);
            let (idx, size) = (spec.m.index_of::<I>(o.pos), run.measure::<I>());
            let mut t = sh.tree.borrow_mut();
            let t = t.as_mut().unwrap();
            cb_hook(kinds, nth, hook);
            let seg = Seg::new(run);
            let r = guarded(|| {
                if let Main::InsertRef(_) = main {
                    new_ref = Some(Box::new(t.insert_ref(idx, seg, size)));
                } else {
                    t.insert(idx, seg, size);
                }
            });
            // a slice borrowed in time makes the insertion be refused
            refused = !sh.kept.borrow().is_empty();
            match r {
                Ok(()) if refused => wrong = Some("insertion was carried out although a slice is borrowed".to_string()),
                Err(p) if !refused => wrong = Some(format!("unexpected panic: {p}")),
                _ => {}
            }
        }
        Main::DropTree => {
            let t = sh.tree.borrow_mut().take();
            cb_hook(kinds, nth, hook);
            drop(t);
        }
        Main::LastBorrow(_) => {
            cb_hook(kinds, nth, hook);
            drop(borrow.take())
        }
        Main::Range(r) => {
            let r2 = sh.refs[r].borrow();
            let at = spec.refs[r].unwrap();
            cb_hook(kinds, nth, hook);
            let got = r2.as_ref().unwrap().try_range();
            calls = cb_disarm().0;
            if got != Some(b[at]..b[at + 1]) {
                wrong = Some(format!("try_range is {got:?}, expected {:?}", b[at]..b[at + 1]));
            }
        }
        Main::Cursor(r) => {
            let r2 = sh.refs[r].borrow();
            cb_hook(kinds, nth, hook);
            if r2.as_ref().unwrap().try_cursor::<PathVec>().is_none() {
                wrong = Some("try_cursor is None".to_string());
            }
        }
        Main::Get(k) => {
            let t = sh.tree.borrow();
            cb_hook(kinds, nth, hook);
            let e = t.as_ref().unwrap().get(b[k]);
            calls = cb_disarm().0;
            wrong = entry_is(&e.range(), e.size(), e.slice(), &spec.m, &b, k).err();
        }
        Main::Iter => {
            let t = sh.tree.borrow();
            cb_hook(kinds, nth, hook);
            let mut it = t.as_ref().unwrap().iter(..);
            wrong = iterate(&mut it, &spec.m, &b, (0, spec.m.len()), spec.m.len() + 1, &|k| k % 2 == 1).err();
        }
        Main::CursorTo(k) => {
            let t = sh.tree.borrow();
            cb_hook(kinds, nth, hook);
            let _: PathVec = t.as_ref().unwrap().cursor_to(b[k]);
        }
    }
    calls = calls.max(cb_disarm().0);
    drop(in_use);
    if let Some(e) = wrong {
        return Err(e);
    }
    let Ok(sh) = Rc::try_unwrap(sh) else { return Err("harness: still shared".into()) };
    sh.said.into_inner()?;
    // what should be so now
    for k in sh.dropped.into_inner() {
        spec.refs[k] = None;
    }
    let mut refs: Vec<_> = sh.refs.into_iter().map(|r| r.into_inner()).collect();
    for (of, r) in sh.cloned.into_inner() {
        let of = spec.refs[of];
        spec.refs.push(of);
        refs.push(Some(r));
    }
    if let Some(r) = sh.made.into_inner() {
        let at = spec.m.len() - 1;
        spec.refs.push(Some(at));
        refs.push(Some(r));
    }
    match main {
        _ if refused => {}
        Main::Insert(o) => drop(spec.step::<J>(Insert(o))),
        Main::InsertRef(o) => {
            spec.step::<J>(InsertRef(o));
            refs.push(new_ref);
        }
        Main::DropTree => drop(spec.step::<J>(DropTree)),
        Main::LastBorrow(_) => drop(spec.step::<J>(DropBorrow(0))),
        _ => {}
    }
    let mut borrows = vec![];
    if sh.inserted.get() {
        spec.step::<J>(Insert(EXTRA));
    }
    spec.borrows.clear();
    for x in sh.kept.into_inner() {
        spec.borrows.push(Some(x.of));
        borrows.push(Some(x));
    }
    if sh.tree_dropped.get() {
        spec.step::<J>(DropTree);
    }
    let mut w = World { borrows, refs, tree: sh.tree.into_inner(), s: spec };
    w.check()?;
    if w.s.dead && ledger().alive != alive {
        return Err("slices outlive their tree although nothing is borrowed".into());
    }
    if !w.borrows.is_empty() && w.tree.is_some() {
        w.act(Insert(EXTRA))?;
        w.check()?;
    }
    for b in w.borrows.iter_mut() {
        *b = None;
    }
    w.check_after_release(alive)?;
    Ok(calls)
}

fn in_the_middle<I: Ix, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, kinds: u32) {
    let (mask, rest) = state.split_once(' ').unwrap();
    let (part, hist) = rest.split_once(' ').unwrap();
    let part: usize = part.parse().unwrap();
    let mask: u64 = mask.parse().unwrap();
    let hist = parse_hist(hist);
    let Some((t, m)) = ctx.base(|| build::<I, AllowSliceRefs, J, M>(&hist)) else { return };
    if !matches!(ctx.base(|| same(&t, &m)), Some(Ok(()))) {
        return;
    }
    drop(t);
    let refs = mask.count_ones() as usize;
    let mut mains = vec![Main::DropTree, Main::Iter];
    for o in m.ops(op_size(hist.len()), J, Offsets::Mid) {
        if !(J && m.merges_both(o)) {
            mains.extend([Main::Insert(o), Main::InsertRef(o)]);
        }
    }
    mains.extend((0..refs).flat_map(|r| [Main::LastBorrow(r), Main::Range(r), Main::Cursor(r)]));
    mains.extend((0..m.len()).flat_map(|k| [Main::Get(k), Main::CursorTo(k)]));
    let mut subs = vec![Sub::Ask, Sub::CloneRefs, Sub::DropRefs, Sub::DropTree, Sub::Insert, Sub::Borrow, Sub::MakeRef];
    if refs > 1 {
        subs.extend((0..refs).map(Sub::DropRef));
    }
    for (mi, main) in mains.iter().enumerate() {
        if mi % PARTS != part {
            continue;
        }
        for (si, sub) in subs.iter().enumerate() {
            let (mut k, mut n) = (0, 1);
            while k < n {
                k += 1;
                let mut calls = 0;
                ctx.probe("in the middle", &[mi as i64, si as i64, k as i64], || {
                    calls = once::<I, J, M>(&hist, mask, *main, *sub, kinds, k).map_err(|e| format!("{main:?}, in the middle of which {sub:?}: {e}"))?;
                    Ok(())
                });
                n = n.max(calls);
                ctx.trace();
            }
            ctx.add("calls into user code interrupted", n);
        }
    }
    ctx.outcome(state);
}

fn main() {
    drive(Check {
        id: "P16",
        level: "model_checking",
        rule: "states: small trees with any choice of up to two slices referred to; transitions: every sequence, up to a depth, of making, cloning, dropping references, borrowing, mapping, cloning and ending borrows, inserting with and without taking a reference, and dropping the tree (only what the borrow checker allows); after each sequence everything is asked of every reference and borrow, with and without asking in between, then everything is released, a last insertion made, and the slices still alive counted",
        assumptions: &["two trees whose slices sit at the same paths behave alike (used to merge base states)"],
        configs: vec![
            Config::new("deep/usize/M1", small::<1>(1), |c, s| {
                let l = Lim3 { refs: 3, borrows: 2, ops: 0, slices: 2 };
                run::<usize, false, 1>(c, s, c.tier.pick(5, 6), l)
            }),
            Config::new("usize/join/M1", small::<1>(3), |c, s| {
                let l = Lim3 { refs: 3, borrows: 3, ops: 1, slices: 8 };
                run::<usize, true, 1>(c, s, c.tier.pick(3, 4), l)
            }),
            Config::new("in the middle/all/join/M1", small::<1>(3), |c, s| in_the_middle::<Cu, true, 1>(c, s, ALL)),
            Config::new("in the middle/slices/join/M1", small::<1>(4), |c, s| in_the_middle::<Cu, true, 1>(c, s, 1 << SPLIT | 1 << JOIN | 1 << DROP | 1 << CURSOR)),
            Config::new("usize/join/M2", small::<2>(5), |c, s| {
                let l = Lim3 { refs: 3, borrows: 2, ops: 1, slices: 9 };
                run::<usize, true, 2>(c, s, c.tier.pick(2, 3), l)
            }),
        ],
    })
}
