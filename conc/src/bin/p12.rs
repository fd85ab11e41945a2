//! Copy-on-write trees are safe to use from several threads at once.
//!
//! The repository's sources are compiled against `vstd`, where atomics, allocation and `NonNull`
//! belong to loom. Every program below is executed by loom under every schedule with a bounded
//! number of preemptions and every value the memory model allows each atomic load to return.
use loom::cell::UnsafeCell;
use mc::common::{drive, Check, Config, Ctx, Tier};
use sherman_modelled::{param::AllowCow, NoCursor, PathComponent, RleTree, Slice};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

// ---- slices ----
struct Val {
    serial: u32,
    label: UnsafeCell<u32>,
}

#[derive(Default)]
struct Ledger {
    next: u32,
    live: HashMap<u32, ()>,
    error: Option<String>,
}
thread_local! {
    // loom runs all threads of an execution on the thread that calls it
    static LEDGER: RefCell<Ledger> = RefCell::default();
}
fn ledger<T>(f: impl FnOnce(&mut Ledger) -> T) -> T {
    LEDGER.with(|l| f(&mut l.borrow_mut()))
}

impl Val {
    fn new(label: u32) -> Val {
        let serial = ledger(|l| {
            l.next += 1;
            l.live.insert(l.next, ());
            l.next
        });
        Val { serial, label: UnsafeCell::new(label) }
    }
    fn label(&self) -> u32 {
        if !ledger(|l| l.live.contains_key(&self.serial)) {
            panic!("a slice is read that was freed");
        }
        self.label.with(|p| unsafe { *p })
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        let known = ledger(|l| l.live.remove(&self.serial).is_some());
        if !known {
            ledger(|l| l.error = Some("a slice is freed twice".into()));
        } else if !std::thread::panicking() {
            self.label.with_mut(|_| ());
        }
    }
}
impl Clone for Val {
    fn clone(&self) -> Val {
        Val::new(self.label())
    }
}
impl Slice<usize> for Val {
    const MAY_JOIN: bool = true;
    fn split_at(&mut self, _: usize) -> Val {
        self.label.with_mut(|_| ());
        Val::new(self.label())
    }
    fn try_join(self, other: Val) -> Result<Val, (Val, Val)> {
        self.label.with_mut(|_| ());
        other.label.with_mut(|_| ());
        if self.label() == other.label() {
            Ok(self)
        } else {
            Err((self, other))
        }
    }
}

// ---- programs ----
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    /// every slice, forwards
    Read,
    /// every slice, backwards
    Back,
    /// the slice at the start / in the middle / at the end, by lookup
    Get(u8),
    /// a cursor to it
    Cursor(u8),
    /// clone; the clone is kept to the end of the thread and read then
    Keep,
    /// clone and drop the clone
    Twin,
    /// a clone that is changed
    Branch(u8),
    /// insert something that does not join at the start / in the middle of a slice / at the end
    Insert(u8),
    /// insert something that joins with its left neighbour
    Join,
    /// drop the tree; nothing can follow
    Drop,
}

fn ops(tier: Tier) -> Vec<Op> {
    use Op::*;
    let mut v = vec![Read, Get(1), Keep, Twin, Insert(0), Insert(1), Insert(2), Join, Drop];
    if tier == Tier::Thorough {
        v.extend([Back, Get(0), Get(2), Cursor(1), Branch(0), Branch(1), Branch(2)]);
    }
    v
}

#[derive(Clone)]
struct Runs(Vec<(u32, usize)>);
impl Runs {
    fn size(&self) -> usize {
        self.0.iter().map(|r| r.1).sum()
    }
    fn insert(&mut self, at: usize, label: u32, size: usize) {
        let mut pos = 0;
        for k in 0..self.0.len() {
            let (l, n) = self.0[k];
            if at == pos {
                return self.0.insert(k, (label, size));
            }
            if at < pos + n {
                self.0[k].1 = at - pos;
                self.0.insert(k + 1, (l, pos + n - at));
                return self.0.insert(k + 1, (label, size));
            }
            pos += n;
        }
        self.0.push((label, size))
    }
}

type T<const M: usize> = RleTree<usize, Val, AllowCow, M>;

struct Pair<const M: usize> {
    tree: Option<T<M>>,
    runs: Runs,
}

impl<const M: usize> Pair<M> {
    fn check(&self) {
        if let Some(t) = &self.tree {
            let got: Vec<(u32, usize)> = t.iter(..).map(|e| (e.slice().label(), e.size())).collect();
            if got != self.runs.0 {
                panic!("a tree reads {got:?}, as a separate copy it would read {:?}", self.runs.0);
            }
        }
    }
    fn dup(&self) -> Pair<M> {
        Pair { tree: self.tree.clone(), runs: self.runs.clone() }
    }
    fn insert(&mut self, place: u8, label: u32) {
        let k = place as usize * (self.runs.0.len() - 1) / 2;
        let start: usize = self.runs.0[..k].iter().map(|r| r.1).sum();
        let at = match place {
            0 => 0,
            1 => start + self.runs.0[k].1 / 2,
            _ => self.runs.size(),
        };
        self.tree.as_mut().unwrap().insert(at, Val::new(label), 2);
        self.runs.insert(at, label, 2);
    }
    fn act(&mut self, op: Op, fresh: u32, kept: &mut Vec<Pair<M>>) {
        let idx = |r: &Runs, p: u8| p as usize * (r.size() - 1) / 2;
        match op {
            Op::Read => self.check(),
            Op::Back => {
                let t = self.tree.as_ref().unwrap();
                let mut got: Vec<(u32, usize)> = t.iter(..).rev().map(|e| (e.slice().label(), e.size())).collect();
                got.reverse();
                assert!(got == self.runs.0, "a tree reads {got:?} backwards, as a separate copy it would read {:?}", self.runs.0);
            }
            Op::Get(p) => {
                let at = idx(&self.runs, p);
                let t = self.tree.as_ref().unwrap();
                let e = t.get(at);
                let (mut pos, mut want) = (0, None);
                for (l, n) in &self.runs.0 {
                    if pos <= at && at < pos + n {
                        want = Some((pos, pos + n, *l));
                    }
                    pos += n;
                }
                let got = Some((e.range().start, e.range().end, e.slice().label()));
                assert!(got == want, "lookup of {at} gives {got:?}, in a separate copy it would give {want:?}");
            }
            Op::Cursor(p) => {
                let at = idx(&self.runs, p);
                let _: sherman_modelled::BoundedCursor<8> = self.tree.as_ref().unwrap().cursor_to(at);
            }
            Op::Keep => kept.push(self.dup()),
            Op::Twin => drop(self.dup()),
            Op::Branch(p) => {
                let mut d = self.dup();
                d.insert(p, fresh);
                kept.push(d);
            }
            Op::Insert(p) => self.insert(p, fresh),
            Op::Join => {
                // joins with the slice in the middle
                let k = (self.runs.0.len() - 1) / 2;
                let at: usize = self.runs.0[..=k].iter().map(|r| r.1).sum();
                let label = self.runs.0[k].0;
                self.tree.as_mut().unwrap().insert(at, Val::new(label), 2);
                self.runs.0[k].1 += 2;
            }
            Op::Drop => self.tree = None,
        }
    }
}

/// How the threads' trees come to share nodes
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Setup {
    /// all are clones of one tree, which goes to the first
    Clones,
    /// and one more is dropped at the end, after the threads
    Main,
    /// the second was changed before the threads start, so only subtrees are shared
    Apart,
    /// all threads have a reference to the same tree and start by cloning it
    Lent,
}

fn execute<const M: usize>(slices: usize, setup: Setup, progs: &[Vec<Op>]) {
    ledger(|l| *l = Ledger::default());
    vstd::memory::reset();
    let n = progs.len();
    let mut t: T<M> = RleTree::new_empty();
    let mut runs = Runs(vec![]);
    for k in 0..slices {
        t.insert(k * 4, Val::new(k as u32), 4);
        runs.0.push((k as u32, 4));
    }
    let base = Pair { tree: Some(t), runs };
    let program = |mut own: Pair<M>, prog: &[Op], who: usize| {
        let mut kept = vec![];
        for (k, op) in prog.iter().enumerate() {
            own.act(*op, (100 * (who + 1) + k) as u32, &mut kept);
        }
        own.check();
        for k in &kept {
            k.check();
        }
        drop(own);
        drop(kept);
    };
    let mut at_end = vec![];
    if setup == Setup::Lent {
        let shared = loom::sync::Arc::new(base);
        let mut threads = vec![];
        for (who, p) in progs.iter().enumerate().skip(1) {
            let (s, p) = (shared.clone(), p.clone());
            threads.push(loom::thread::spawn(move || {
                let own = s.dup();
                program(own, &p, who);
                s.check();
                drop(s);
            }));
        }
        let own = shared.dup();
        program(own, &progs[0], 0);
        drop(shared);
        for t in threads {
            t.join().unwrap();
        }
    } else {
        let mut trees = vec![];
        for k in 1..n {
            let mut d = base.dup();
            if setup == Setup::Apart {
                d.insert(k as u8 % 3, 50 + k as u32);
            }
            trees.push(d);
        }
        if setup == Setup::Main {
            at_end.push(base.dup());
        }
        trees.insert(0, base);
        let first = trees.remove(0);
        let mut threads = vec![];
        for (k, tree) in trees.into_iter().enumerate() {
            let p = progs[k + 1].clone();
            threads.push(loom::thread::spawn(move || program(tree, &p, k + 1)));
        }
        program(first, &progs[0], 0);
        for t in threads {
            t.join().unwrap();
        }
    }
    for p in at_end {
        p.check();
    }
    if let Some(e) = ledger(|l| l.error.take()) {
        panic!("{e}");
    }
    let live = ledger(|l| l.live.len());
    assert!(live == 0, "{live} slices were never freed");
    let blocks = vstd::memory::live();
    assert!(blocks == 0, "{blocks} blocks of memory were never freed");
}

fn explore<const M: usize>(ctx: &mut Ctx, slices: usize, setup: Setup, progs: &[Vec<Op>], bound: usize, vals: &[i64]) {
    static COUNT: AtomicU64 = AtomicU64::new(0);
    COUNT.store(0, Relaxed);
    // a panic while threads are unwound may end the process: keep what the first one said
    if std::env::var_os("MC_LOUD").is_none() {
        std::panic::set_hook(Box::new(|i| mc::shm::note(&i.to_string().replace('\n', " "))));
    }
    ctx.probe("program", vals, || {
        let mut b = loom::model::Builder::new();
        b.preemption_bound = Some(bound);
        b.max_branches = 100_000;
        let progs = progs.to_vec();
        b.check(move || {
            COUNT.fetch_add(1, Relaxed);
            execute::<M>(slices, setup, &progs)
        });
        Ok(())
    });
    mc::shm::forget_note();
    let n = COUNT.load(Relaxed);
    ctx.add("schedules", n);
    ctx.add("nontrivial", (n > 1) as u64);
    ctx.add("traces_validated_against_impl", n);
    ctx.outcome(n);
}

/// All sequences of up to `n` operations
fn programs(ops: &[Op], n: usize) -> Vec<Vec<Op>> {
    let mut out: Vec<Vec<Op>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..n {
        let mut next = vec![];
        for p in &last {
            if p.last() == Some(&Op::Drop) {
                continue;
            }
            for o in ops {
                let mut q = p.clone();
                q.push(*o);
                next.push(q);
            }
        }
        out.extend(next.clone());
        last = next;
    }
    out.retain(|p| !p.is_empty());
    out
}

fn parse(st: &str) -> (usize, Setup, usize) {
    let mut it = st.split(' ');
    let slices = it.next().unwrap().parse().unwrap();
    let setup = match it.next().unwrap() {
        "Clones" => Setup::Clones,
        "Main" => Setup::Main,
        "Apart" => Setup::Apart,
        _ => Setup::Lent,
    };
    (slices, setup, it.next().unwrap().parse().unwrap())
}

fn config<const M: usize>(threads: usize, len: (usize, usize), sizes: (&'static [usize], &'static [usize]), bound: (usize, usize), few: bool) -> Config {
    let list = move |tier: Tier| {
        let o = if few { vec![Op::Read, Op::Twin, Op::Insert(1), Op::Drop] } else { ops(tier) };
        programs(&o, tier.pick(len.0, len.1))
    };
    Config::new(
        format!("{threads} threads/M{M}/{}", if few { "few operations" } else { "all operations" }),
        move |tier, _| {
            let mut v = vec![];
            let n = list(tier).len();
            for slices in tier.pick(sizes.0, sizes.1) {
                for setup in ["Clones", "Main", "Apart", "Lent"] {
                    for first in 0..n {
                        v.push(format!("{slices} {setup} {first}"));
                    }
                }
            }
            v
        },
        move |ctx, st| {
            let (slices, setup, first) = parse(st);
            let all = list(ctx.tier);
            let bound = ctx.tier.pick(bound.0, bound.1);
            // the trees are alike except in `Apart`, and so are the threads
            let from = if setup == Setup::Apart { 0 } else { first };
            for b in from..all.len() {
                if threads == 2 {
                    explore::<M>(ctx, slices, setup, &[all[first].clone(), all[b].clone()], bound, &[b as i64]);
                } else {
                    for c in b..all.len() {
                        explore::<M>(ctx, slices, setup, &[all[first].clone(), all[b].clone(), all[c].clone()], bound, &[b as i64, c as i64]);
                    }
                }
            }
        },
    )
}

fn main() {
    let _ = std::marker::PhantomData::<(NoCursor, PathComponent)>;
    drive(Check {
        id: "P12",
        level: "model_checking",
        rule: "all programs of two or three threads with short sequences of operations on copy-on-write trees that share nodes, each executed under all schedules with a bounded number of preemptions and all values its atomic loads may return; nontrivial: a program with more than one schedule",
        assumptions: &[
            "the sources are compiled with `std` bound to a crate that replaces atomics, allocation and NonNull by ones the model checker sees; sequentially consistent operations are treated like acquire-release ones, and loads do not return values that are stored later (loom's model)",
            "accesses to a node's memory are noticed when a reference to the node is made and when it is freed; slices notice every access",
        ],
        configs: vec![
            config::<1>(2, (1, 2), (&[1, 3, 5], &[1, 2, 3, 5, 8]), (2, 3), false),
            config::<1>(2, (2, 3), (&[1, 3], &[1, 3, 5]), (2, 3), true),
            config::<2>(2, (1, 2), (&[4], &[4, 6]), (2, 3), false),
            config::<1>(3, (1, 2), (&[1], &[1, 3]), (1, 2), true),
        ],
    })
}
