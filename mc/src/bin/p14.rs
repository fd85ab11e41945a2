//! A panic in user code never corrupts memory.
use mc::common::*;
use mc::fam::*;
use mc::refs::*;

type F<I, P, const J: bool, const M: usize> = Fam<I, P, J, M>;

const ALL: u32 = 0xFF;

/// Runs something that may panic in any way; what must not happen shows in the ledger or kills
/// the process
fn may(f: impl FnOnce()) {
    if let Err(e) = guarded(f) {
        // `Cu` wraps around, so arithmetic overflows are those of node lengths and indexes
        if e.starts_with("debug assertion failed") || e.starts_with("attempt to ") {
            let l = ledger();
            if l.error.is_none() {
                l.error = Some(format!("assumption of unsafe code violated: {e}"));
            }
        }
    }
}

fn read_slice<const J: bool>(s: &Seg<J>) {
    let _ = s.run();
}

/// Reads everything that can be reached, whatever the tree says its size is
fn read<I: Ix, P, const J: bool, const M: usize>(t: &Tree<I, P, J, M>, m: &Model)
where
    P: RleTreeConfig<I, Seg<J>, M>,
{
    let n = m.len() + 3;
    may(|| t.iter(..).take(2 * n).for_each(|e| read_slice(e.slice())));
    may(|| t.iter(..).rev().take(2 * n).for_each(|e| read_slice(e.slice())));
    may(|| {
        let mut it = t.iter(..);
        for _ in 0..n {
            it.next().map(|e| read_slice(e.slice()));
            it.next_back().map(|e| read_slice(e.slice()));
        }
    });
    for (k, s) in m.starts().into_iter().enumerate() {
        let offs = if k < m.len() { vec![0, m.runs[k].units() / 2] } else { vec![0] };
        for o in offs {
            let idx: I = m.index_of(s + o);
            may(|| read_slice(t.get(idx).slice()));
            may(|| drop(t.cursor_to::<PathVec>(idx)));
            may(|| t.iter(idx..).take(2 * n).for_each(|e| read_slice(e.slice())));
            may(|| t.iter(..idx).rev().take(2 * n).for_each(|e| read_slice(e.slice())));
        }
    }
    may(|| drop((t.size(), t.number_of_slices())));
}

/// Insertions at every boundary and middle, with every pattern of joins, as far as they come
fn insert_everywhere<I: Ix, P, const J: bool, const M: usize>(t: &mut Tree<I, P, J, M>, m: &Model, size: u32)
where
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
{
    let st = m.starts();
    for k in 0..=m.len() {
        let mid = if k < m.len() { m.runs[k].units() / 2 } else { 0 };
        for off in [0, mid] {
            for kind in [PLAIN, JL, JR] {
                let op = Op { pos: st[k] + off, size, kind: if J { kind } else { PLAIN } };
                let run = m.fresh(op);
                let (idx, size) = (m.index_of::<I>(op.pos), run.measure::<I>());
                may(|| t.insert(idx, Seg::new(run), size));
            }
        }
    }
}

/// What is done with the trees after the panic
const AFTERS: i64 = 6;

fn after<I: Ix, P, const J: bool, const M: usize>(mut f: F<I, P, J, M>, how: i64, hurt: usize) -> Result<(), String>
where
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
    Tree<I, P, J, M>: Clone,
{
    // other trees are as they were
    let others = |f: &F<I, P, J, M>| {
        for (s, t, m) in f.each() {
            if s != hurt {
                same(t, m).map_err(|e| format!("tree {s}, which only shares nodes: {e}"))?;
                same_by_lookup(t, m).map_err(|e| format!("tree {s}, which only shares nodes: {e}"))?;
            }
        }
        ledger_error()
    };
    others(&f)?;
    if let Some(t) = &f.t[hurt] {
        if how > 0 {
            read(t, f.m[hurt].as_ref().unwrap());
            ledger_error().map_err(|e| format!("reading: {e}"))?;
        }
    }
    match how {
        0 | 1 => {}
        2 => {
            // use it further
            for round in 0..2 {
                if let (Some(t), Some(m)) = (&mut f.t[hurt], &f.m[hurt]) {
                    insert_everywhere(t, m, 11 + round);
                    read(t, m);
                }
                ledger_error().map_err(|e| format!("inserting: {e}"))?;
            }
            others(&f)?;
        }
        3 => {
            // clone it, drop it, read the clone
            if let (Some(t), Some(m)) = (f.t[hurt].take(), &f.m[hurt]) {
                let mut c = None;
                may(|| c = Some(t.clone()));
                may(|| drop(t));
                if let Some(c) = c {
                    read(&c, m);
                    ledger_error().map_err(|e| format!("reading a clone: {e}"))?;
                    may(|| drop(c));
                }
            }
        }
        5 => {
            // clone it; change the clone, then the damaged one, with both alive
            if let (Some(t), Some(m)) = (&mut f.t[hurt], &f.m[hurt]) {
                let mut c = None;
                may(|| c = Some(t.clone()));
                if let Some(mut c) = c {
                    insert_everywhere(&mut c, m, 11);
                    read(&c, m);
                    ledger_error().map_err(|e| format!("changing a clone: {e}"))?;
                    insert_everywhere(t, m, 12);
                    read(t, m);
                    read(&c, m);
                    ledger_error().map_err(|e| format!("changing what was cloned: {e}"))?;
                    may(|| drop(c));
                    ledger_error().map_err(|e| format!("dropping the clone: {e}"))?;
                    read(t, m);
                }
            }
            others(&f)?;
        }
        _ => {
            // change the others, then drop them before the damaged one
            for s in 0..SLOTS {
                if s != hurt && f.t[s].is_some() {
                    let m = f.m[s].as_ref().unwrap();
                    let pos = m.starts()[m.len() / 2];
                    f.act(Act::Ins(s as u8, Op { pos, size: 13, kind: PLAIN }));
                }
            }
            others(&f)?;
            for s in 0..SLOTS {
                if s != hurt {
                    f.t[s] = None;
                }
            }
            ledger_error()?;
            if let Some(t) = &f.t[hurt] {
                read(t, f.m[hurt].as_ref().unwrap());
            }
        }
    }
    let t = f.t[hurt].take();
    may(|| drop(t));
    ledger_error().map_err(|e| format!("dropping the tree: {e}"))?;
    others(&f)?;
    drop(f);
    ledger_error()
}

/// One operation during which user code may panic
#[derive(Clone, Copy)]
enum Act1 {
    Insert(Op),
    Hinted(Op),
    Lookup(u32),
    IterAll,
    Clone,
    Drop,
}

fn run_act<I: Ix, P, const J: bool, const M: usize>(f: &mut F<I, P, J, M>, a: Act1, hint: &PathVec) -> usize
where
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
    Tree<I, P, J, M>: Clone,
{
    match a {
        Act1::Insert(op) | Act1::Hinted(op) => {
            let (t, m) = (f.t[0].as_mut().unwrap(), f.m[0].as_ref().unwrap());
            let run = m.fresh(op);
            let (idx, size) = (m.index_of::<I>(op.pos), run.measure::<I>());
            let s = Seg::new(run);
            let h = hint.clone();
            cb().kinds.clear();
            cb().seen = 0;
            if let Act1::Hinted(_) = a {
                drop(t.insert_with_cursor(h, idx, s, size));
            } else {
                t.insert(idx, s, size);
            }
        }
        Act1::Lookup(pos) => {
            let (t, m) = (f.t[0].as_ref().unwrap(), f.m[0].as_ref().unwrap());
            let idx = m.index_of::<I>(pos);
            read_slice(t.get_with_cursor(hint.clone(), idx).slice());
            drop(t.cursor_to::<PathVec>(idx));
        }
        Act1::IterAll => {
            let t = f.t[0].as_ref().unwrap();
            let mut it = t.iter(..);
            while let Some(e) = it.next() {
                read_slice(e.slice());
                drop(e.range());
                if let Some(e) = it.next_back() {
                    read_slice(e.slice());
                }
            }
        }
        Act1::Clone => drop(f.t[0].as_ref().unwrap().clone()),
        Act1::Drop => {
            f.m[0] = None;
            f.t[0] = None;
        }
    }
    0
}

fn inject<I: Ix, P, const J: bool, const M: usize>(ctx: &mut Ctx, tag: &str, hist: &[Op], vals: &[i64], forks: i64, a: Act1, hint: &PathVec, mask: u32)
where
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
    Tree<I, P, J, M>: Clone,
{
    let start = || {
        let mut f = F::<I, P, J, M>::start(hist);
        if forks > 0 {
            f.act(Act::Fork(0));
        }
        if forks > 1 {
            // part of the nodes shared, part not
            let m = f.m[1].as_ref().unwrap();
            let pos = m.starts()[m.len() / 2];
            f.act(Act::Ins(0, Op { pos, size: 17, kind: PLAIN }));
        }
        f
    };
    let n = ctx.base(|| {
        let mut f = start();
        cb_arm(mask, 0);
        run_act(&mut f, a, hint);
        cb_disarm();
        cb().kinds.clone()
    });
    let Some(kinds) = n else { return };
    let n = kinds.len() as u64;
    for k in 1..=n {
        let tag = &format!("{tag}/{}", KIND_NAMES[kinds[k as usize - 1] as usize]);
        for how in 0..AFTERS {
            if how == 4 && forks == 0 {
                continue;
            }
            let mut v = vals.to_vec();
            v.extend([forks, k as i64, how]);
            let hit = std::cell::Cell::new(0);
            ctx.probe(tag, &v, || {
                let mut f = start();
                cb_arm(mask, k);
                let r = guarded(|| run_act(&mut f, a, hint));
                cb_disarm();
                if let Err(e) = &r {
                    hit.set(1);
                    if e != INJECTED {
                        return Err(format!("panicked with {e:?} in place of what user code panicked with"));
                    }
                }
                after(f, how, 0)
            });
            ctx.trace();
            ctx.add("nontrivial", hit.get());
            ctx.add(if forks > 0 { "injection points in a tree sharing nodes x ways to go on" } else { "injection points x ways to go on" }, 1);
        }
    }
    ctx.outcome(&format!("{tag} {n}"));
}

fn plain<I: Ix, P, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, forks: &[i64])
where
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
    Tree<I, P, J, M>: Clone,
{
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<I, P, J, M>(&hist)) else { return };
    if !matches!(ctx.base(|| same(&t, &m)), Some(Ok(()))) {
        return;
    }
    drop(t);
    let empty = PathVec(vec![]);
    let c = components();
    let hint = PathVec(vec![c[0], c[1], c[0]]);
    for fk in forks {
        for op in m.ops(op_size(hist.len()), J, Offsets::Mid) {
            if J && m.merges_both(op) {
                continue;
            }
            inject::<I, P, J, M>(ctx, "insert", &hist, &op.vals(), *fk, Act1::Insert(op), &empty, ALL & !(1 << CURSOR));
            if op.kind == PLAIN {
                inject::<I, P, J, M>(ctx, "hinted", &hist, &op.vals(), *fk, Act1::Hinted(op), &hint, 1 << CURSOR);
            }
        }
        for (k, s) in m.starts()[..m.len()].iter().enumerate() {
            inject::<I, P, J, M>(ctx, "lookup", &hist, &[k as i64], *fk, Act1::Lookup(*s), &hint, ALL);
        }
        inject::<I, P, J, M>(ctx, "iterate", &hist, &[], *fk, Act1::IterAll, &empty, ALL);
        inject::<I, P, J, M>(ctx, "clone", &hist, &[], *fk, Act1::Clone, &empty, ALL);
        inject::<I, P, J, M>(ctx, "drop", &hist, &[], *fk, Act1::Drop, &empty, ALL);
    }
    ctx.outcome(state);
}

// With slice references -----------------------------------------------------------------------

const REF_AFTERS: i64 = 5;

/// Everything a reference can be asked
fn ask<I: Ix, const J: bool, const M: usize>(w: &World<I, J, M>) {
    for r in w.refs.iter().flatten() {
        may(|| drop(r.is_valid()));
        may(|| drop(r.try_range()));
        may(|| drop(r.try_cursor::<PathVec>()));
        may(|| drop(r.try_borrow_slice().map(|b| read_slice(&*b))));
        may(|| drop(r.borrow_slice().run().clone()));
    }
    for b in w.borrows.iter().flatten() {
        if let Held::Slice(b) = &b.held {
            may(|| read_slice(&**b));
        }
    }
    if let Some(t) = &w.tree {
        read(t, &w.s.m);
    }
}

fn ref_after<I: Ix, const J: bool, const M: usize>(mut w: World<I, J, M>, how: i64) -> Result<(), String> {
    if how > 0 {
        ask(&w);
        ledger_error().map_err(|e| format!("reading: {e}"))?;
    }
    match how {
        // references go first
        1 => {
            w.borrows.clear();
            for r in w.refs.drain(..) {
                may(|| drop(r));
            }
            may(|| w.tree = None);
        }
        // the tree goes while things are borrowed
        2 => {
            let mut extra: Vec<sherman::Borrow<'_, Seg<J>>> = vec![];
            for r in w.refs.iter().flatten() {
                if let Ok(Some(b)) = guarded(|| r.try_borrow_slice()) {
                    extra.push(b);
                }
            }
            let t = w.tree.take();
            may(|| drop(t));
            for b in &extra {
                may(|| read_slice(&**b));
            }
            for b in extra {
                may(|| drop(b));
            }
            ledger_error().map_err(|e| format!("borrows outliving the tree: {e}"))?;
            ask(&w);
        }
        3 if w.tree.is_some() => {
            w.borrows.clear();
            for round in 0..2 {
                let st = w.s.m.starts();
                for k in 0..=w.s.m.len() {
                    let mid = if k < w.s.m.len() { w.s.m.runs[k].units() / 2 } else { 0 };
                    for off in [0, mid] {
                        for kind in [PLAIN, JL, JR] {
                            let op = Op { pos: st[k] + off, size: 11 + round, kind: if J { kind } else { PLAIN } };
                            let run = w.s.m.fresh(op);
                            let (idx, size) = (w.s.m.index_of::<I>(op.pos), run.measure::<I>());
                            let t = w.tree.as_mut().unwrap();
                            let mut r = None;
                            may(|| match kind {
                                PLAIN => r = Some(t.insert_ref(idx, Seg::new(run), size)),
                                _ => t.insert(idx, Seg::new(run), size),
                            });
                            w.refs.push(r.map(Box::new));
                        }
                    }
                }
                ledger_error().map_err(|e| format!("inserting: {e}"))?;
                ask(&w);
                ledger_error().map_err(|e| format!("reading: {e}"))?;
            }
        }
        // clones of the references outlive everything
        4 => {
            let mut more = vec![];
            for r in w.refs.iter().flatten() {
                may(|| more.push((**r).clone()));
            }
            w.borrows.clear();
            for r in w.refs.drain(..) {
                may(|| drop(r));
            }
            let t = w.tree.take();
            may(|| drop(t));
            for r in &more {
                may(|| drop(r.try_borrow_slice().map(|b| read_slice(&*b))));
                may(|| drop(r.try_range()));
            }
            for r in more {
                may(|| drop(r));
            }
        }
        _ => {}
    }
    for b in w.borrows.iter_mut() {
        may(|| *b = None);
    }
    let t = w.tree.take();
    may(|| drop(t));
    for r in w.refs.drain(..) {
        may(|| drop(r));
    }
    ledger_error().map_err(|e| format!("dropping everything: {e}"))
}

fn ref_inject<I: Ix, const J: bool, const M: usize>(ctx: &mut Ctx, tag: &str, hist: &[Op], mask: u64, vals: &[i64], setup: &[RAct], run: &dyn Fn(&mut World<I, J, M>)) {
    let start = || {
        let mut w = World::<I, J, M>::start(hist);
        w.make_refs(mask).expect("references");
        for a in setup {
            w.act(*a).expect("setup");
        }
        w
    };
    let kinds = ctx.base(|| {
        let mut w = start();
        cb_arm(ALL, 0);
        run(&mut w);
        cb_disarm();
        let k = cb().kinds.clone();
        drop(w);
        k
    });
    let Some(kinds) = kinds else { return };
    for k in 1..=kinds.len() as u64 {
        let tag = &format!("{tag}/{}", KIND_NAMES[kinds[k as usize - 1] as usize]);
        for how in 0..REF_AFTERS {
            let mut v = vals.to_vec();
            v.extend([mask as i64, k as i64, how]);
            let hit = std::cell::Cell::new(0);
            ctx.probe(tag, &v, || {
                let mut w = start();
                cb_arm(ALL, k);
                let r = guarded(|| run(&mut w));
                cb_disarm();
                if let Err(e) = &r {
                    hit.set(1);
                    if e != INJECTED {
                        return Err(format!("panicked with {e:?} in place of what user code panicked with"));
                    }
                }
                ref_after(w, how)
            });
            ctx.trace();
            ctx.add("nontrivial", hit.get());
            ctx.add("injection points with slice references x ways to go on", 1);
        }
    }
    ctx.outcome(&format!("{tag} {}", kinds.len()));
}

fn insert_in<I: Ix, const J: bool, const M: usize>(w: &mut World<I, J, M>, op: Op, keep: bool) {
    let run = w.s.m.fresh(op);
    let (idx, size) = (w.s.m.index_of::<I>(op.pos), run.measure::<I>());
    let t = w.tree.as_mut().unwrap();
    let s = Seg::new(run);
    cb().kinds.clear();
    cb().seen = 0;
    if keep {
        let r = t.insert_ref(idx, s, size);
        w.refs.push(Some(Box::new(r)));
    } else {
        t.insert(idx, s, size);
    }
}

fn with_refs<I: Ix, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str) {
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<I, AllowSliceRefs, J, M>(&hist)) else { return };
    if !matches!(ctx.base(|| same(&t, &m)), Some(Ok(()))) {
        return;
    }
    drop(t);
    let all = (1u64 << m.len()) - 1;
    let alternate = all & 0x5555_5555_5555_5555;
    for mask in [all, alternate] {
        for op in m.ops(op_size(hist.len()), J, Offsets::Mid) {
            if J && m.merges_both(op) {
                continue;
            }
            for keep in [false, true] {
                if keep && mask != all {
                    continue;
                }
                let mut v = op.vals().to_vec();
                v.push(keep as i64);
                ref_inject::<I, J, M>(ctx, "insert with references", &hist, mask, &v, &[], &|w| insert_in(w, op, keep));
            }
        }
    }
    for r in 0..m.len() {
        ref_inject::<I, J, M>(ctx, "ask a reference", &hist, all, &[r as i64], &[], &|w| {
            let x = w.refs[r].as_ref().unwrap();
            drop(x.range());
            drop(x.cursor::<PathVec>());
            read_slice(&*x.borrow_slice());
        });
        ref_inject::<I, J, M>(ctx, "make a reference", &hist, 0, &[r as i64], &[], &|w| w.act(RAct::MakeRef(r as u8)).unwrap());
        // a borrow that outlives the tree: the last one drops what is left of it
        ref_inject::<I, J, M>(ctx, "drop the last borrow", &hist, all, &[r as i64], &[RAct::Borrow(r as u8), RAct::DropTree], &|w| w.borrows[0] = None);
    }
    ref_inject::<I, J, M>(ctx, "drop the tree", &hist, all, &[], &[], &|w| w.tree = None);
    if m.len() == 0 {
        return;
    }
    ref_inject::<I, J, M>(ctx, "drop the tree while borrowed", &hist, all, &[], &[RAct::Borrow(0)], &|w| w.tree = None);
    ctx.outcome(state);
}

fn main() {
    drive(Check {
        id: "P14",
        level: "fault_enumeration",
        rule: "for every tree shape reachable by insertions within the bound, every operation on it (insertion at every boundary and middle with every pattern of joins, with and without hint, lookup, iteration from both ends, clone, drop; with slice references also asking, borrowing, dropping the tree while borrowed and dropping the last borrow), and every k: the k-th call of user code (join, split, clone, drop, index arithmetic, comparison, cursor step) panics; afterwards each of six ways of going on (drop; read; insert and read; clone and drop; clone and change both; change and drop the trees sharing nodes) runs with every slice access and drop checked against a ledger, in builds with and without debug assertions; nontrivial: the injected panic left the operation",
        assumptions: &[
            "each operation meets at most one panic of user code; later operations on the damaged tree may panic by themselves, which is allowed",
            "a slice used after it was dropped or moved shows in the ledger (every slice carries a serial number, its storage is overwritten when dropped) or kills the worker process, which is reported",
            "the bounds on tree sizes and node widths given with the configurations",
        ],
        configs: vec![
            Config::new("refs/join/M1", shapes::<1>(5, 9), |c, s| with_refs::<Cu, true, 1>(c, s)),
            Config::new("refs/join/M2", shapes::<2>(6, 8), |c, s| with_refs::<Cu, true, 2>(c, s)),
            Config::new("plain/join/M1", shapes::<1>(9, 11), |c, s| plain::<Cu, NoFeatures, true, 1>(c, s, &[0])),
            Config::new("plain/join/M2", shapes::<2>(11, 11), |c, s| plain::<Cu, NoFeatures, true, 2>(c, s, &[0])),
            Config::new("cow/join/M1", shapes::<1>(7, 11), |c, s| plain::<Cu, AllowCow, true, 1>(c, s, &[0, 1, 2])),
        ],
    })
}
