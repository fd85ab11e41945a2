//! Run by P24 in the Miri interpreter. All of this is safe code, so that whatever undefined behaviour
//! Miri sees is the tree's.
//!
//! ub GROUP WIDTH FLAGS HISTORY: says `.` after every case. In FLAGS, `v`: describes every case;
//! `w`: variants of a case take turns, instead of all of them being tried; `s2/5`: of all the
//! operations only every fifth, starting with the third.
#![forbid(unsafe_code)]
use sherman::param::*;
use sherman::*;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

// Control over user code ----------------------------------------------------------------------

const PANIC: u8 = 1;
const LIE_A: u8 = 2;
const LIE_B: u8 = 3;
const HOOK: u8 = 4;

thread_local! {
    static COUNT: Cell<u32> = const { Cell::new(0) };
    static AT: Cell<u32> = const { Cell::new(0) };
    static WHAT: Cell<u8> = const { Cell::new(0) };
    static DO: RefCell<Option<Box<dyn FnOnce()>>> = const { RefCell::new(None) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static VERBOSE: Cell<bool> = const { Cell::new(false) };
    static CASES: Cell<u64> = const { Cell::new(0) };
    static TURNS: Cell<bool> = const { Cell::new(false) };
    static SHARD: Cell<(usize, usize)> = const { Cell::new((0, 1)) };
}

/// What to do at this call: 0, or a lie
fn call() -> u8 {
    if WHAT.get() == 0 {
        return 0;
    }
    COUNT.set(COUNT.get() + 1);
    if COUNT.get() != AT.get() {
        return 0;
    }
    let w = WHAT.get();
    if w == PANIC && !std::thread::panicking() {
        WHAT.set(0);
        panic!("injected");
    }
    if w == HOOK {
        WHAT.set(0);
        let f = DO.with(|d| d.borrow_mut().take());
        if let Some(f) = f {
            f()
        }
        return 0;
    }
    w
}
fn arm(what: u8, at: u32) {
    COUNT.set(0);
    AT.set(at);
    WHAT.set(what);
}
fn disarm() -> u32 {
    WHAT.set(0);
    DO.with(|d| d.borrow_mut().take());
    COUNT.get()
}
/// runs something that may panic
fn may<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
fn case(text: impl FnOnce() -> String) {
    if CASES.get() > 0 {
        println!(".");
    }
    CASES.set(CASES.get() + 1);
    if VERBOSE.get() {
        println!("CASE {}", text());
    }
}
fn mine(n: usize) -> bool {
    let (i, of) = SHARD.get();
    n % of == i
}
/// the variants to try in case number `n`
fn variants(n: usize, all: usize) -> Vec<usize> {
    if TURNS.get() {
        vec![n % all]
    } else {
        (0..all).collect()
    }
}
fn bad(msg: String) {
    println!("BAD {msg}");
    std::process::exit(9);
}

// Indexes and slices --------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
struct Ix(u32);
impl PartialEq for Ix {
    fn eq(&self, o: &Ix) -> bool {
        (self.0 == o.0) != (call() >= LIE_A)
    }
}
impl Eq for Ix {}
impl PartialOrd for Ix {
    fn partial_cmp(&self, o: &Ix) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ix {
    fn cmp(&self, o: &Ix) -> Ordering {
        let r = self.0.cmp(&o.0);
        match call() {
            LIE_A => match r {
                Ordering::Equal => Ordering::Less,
                r => r.reverse(),
            },
            LIE_B => match r {
                Ordering::Equal => Ordering::Greater,
                _ => Ordering::Equal,
            },
            _ => r,
        }
    }
}
impl std::ops::Add for Ix {
    type Output = Ix;
    fn add(self, o: Ix) -> Ix {
        let r = self.0.wrapping_add(o.0);
        Ix(match call() {
            LIE_A => 0,
            LIE_B => r.wrapping_add(1 << 28),
            _ => r,
        })
    }
}
impl std::ops::Sub for Ix {
    type Output = Ix;
    fn sub(self, o: Ix) -> Ix {
        let r = self.0.wrapping_sub(o.0);
        Ix(match call() {
            LIE_A => 0,
            LIE_B => r.wrapping_add(1 << 28),
            _ => r,
        })
    }
}
impl Index for Ix {
    const ZERO: Ix = Ix(0);
}

/// a part of what was inserted as number `id`
#[derive(Clone, Copy, PartialEq, Debug)]
struct Frag {
    id: u32,
    lo: u32,
    hi: u32,
}
/// slices that join have the same non-zero number where they meet
#[derive(Clone, PartialEq, Debug)]
struct Run {
    frags: Vec<Frag>,
    lg: u64,
    rg: u64,
}
impl Run {
    fn fresh(id: u32, size: u32) -> Run {
        Run { frags: vec![Frag { id, lo: 0, hi: size }], lg: 2 * id as u64 + 1, rg: 2 * id as u64 + 2 }
    }
    fn units(&self) -> u32 {
        self.frags.iter().map(|f| f.hi - f.lo).sum()
    }
    fn split(&mut self, mut at: u32) -> Run {
        let (mut l, mut r) = (vec![], vec![]);
        for f in self.frags.drain(..) {
            let n = f.hi - f.lo;
            if at >= n {
                l.push(f);
                at -= n;
            } else if at == 0 {
                r.push(f);
            } else {
                l.push(Frag { hi: f.lo + at, ..f });
                r.push(Frag { lo: f.lo + at, ..f });
                at = 0;
            }
        }
        self.frags = l;
        let seen = self.frags.last().map_or(1 << 60, |f| ((f.id as u64 + 1) << 32) + f.hi as u64);
        let right = Run { frags: r, lg: seen, rg: self.rg };
        self.rg = seen;
        right
    }
    fn join(mut self, o: Run) -> Run {
        self.frags.extend(o.frags);
        self.rg = o.rg;
        self
    }
}

/// what a slice is made of: how it lies in memory
trait Body: Clone + 'static {
    const JOIN: bool;
    fn of(r: Run) -> Self;
    fn run(&self) -> Run;
    fn same(&self, r: &Run) -> bool;
    fn set(&mut self, r: Run);
}
/// on the heap
#[derive(Clone)]
struct Heap(Box<Run>);
impl Body for Heap {
    const JOIN: bool = true;
    fn of(r: Run) -> Self {
        Heap(Box::new(r))
    }
    fn run(&self) -> Run {
        (*self.0).clone()
    }
    fn same(&self, r: &Run) -> bool {
        *self.0 == *r
    }
    fn set(&mut self, r: Run) {
        *self.0 = r
    }
}
/// aligned, with padding
#[derive(Clone)]
#[repr(align(256))]
struct Wide(u8, Run);
impl Body for Wide {
    const JOIN: bool = true;
    fn of(r: Run) -> Self {
        Wide(3, r)
    }
    fn run(&self) -> Run {
        self.1.clone()
    }
    fn same(&self, r: &Run) -> bool {
        self.0 == 3 && self.1 == *r
    }
    fn set(&mut self, r: Run) {
        self.1 = r
    }
}
/// nothing
#[derive(Clone)]
struct Nil;
impl Body for Nil {
    const JOIN: bool = false;
    fn of(_: Run) -> Self {
        Nil
    }
    fn run(&self) -> Run {
        Run { frags: vec![], lg: 0, rg: 0 }
    }
    fn same(&self, _: &Run) -> bool {
        true
    }
    fn set(&mut self, _: Run) {}
}

struct S<B: Body>(B);
impl<B: Body> S<B> {
    fn new(r: Run) -> Self {
        LIVE.set(LIVE.get() + 1);
        S(B::of(r))
    }
    fn read(&self) -> Run {
        self.0.run()
    }
    fn touch(&self) -> bool {
        self.0.same(&Run { frags: vec![], lg: 0, rg: 0 })
    }
}
impl<B: Body> Drop for S<B> {
    fn drop(&mut self) {
        LIVE.set(LIVE.get() - 1);
        call();
    }
}
impl<B: Body> Clone for S<B> {
    fn clone(&self) -> Self {
        call();
        S::new(self.read())
    }
}
impl<B: Body> Slice<Ix> for S<B> {
    const MAY_JOIN: bool = B::JOIN;
    fn split_at(&mut self, at: Ix) -> Self {
        call();
        let mut r = self.read();
        let right = r.split(at.0);
        self.0.set(r);
        S::new(right)
    }
    fn try_join(mut self, o: Self) -> Result<Self, (Self, Self)> {
        let lie = call();
        let (a, b) = (self.read(), o.read());
        let fits = a.rg != 0 && a.rg == b.lg;
        if fits && lie != LIE_A || lie == LIE_B {
            self.0.set(a.join(b));
            Ok(self)
        } else if lie == LIE_A {
            Err((o, self))
        } else {
            Err((self, o))
        }
    }
}

// Lists, operations ---------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
struct Op {
    pos: u32,
    size: u32,
    kind: u8,
}
fn parse(s: &str) -> Vec<Op> {
    s.split_whitespace()
        .map(|w| {
            let f: Vec<u32> = w.split(':').map(|x| x.parse().unwrap()).collect();
            Op { pos: f[0], size: f[1], kind: f[2] as u8 }
        })
        .collect()
}
#[derive(Clone, Default)]
struct Model {
    runs: Vec<Run>,
    next: u32,
    /// how it came to be
    log: Rc<Vec<(Op, Run)>>,
}
fn model(h: &[Op], join: bool) -> Model {
    let mut m = Model::default();
    let mut log = vec![];
    for op in h {
        let r = m.fresh(*op);
        m.insert(op.pos, r.clone(), join);
        log.push((*op, r));
    }
    m.log = Rc::new(log);
    m
}
impl Model {
    fn starts(&self) -> Vec<u32> {
        let mut v = vec![0];
        for r in &self.runs {
            v.push(v[v.len() - 1] + r.units());
        }
        v
    }
    fn locate(&self, pos: u32) -> (usize, u32) {
        let mut p = pos;
        for (i, r) in self.runs.iter().enumerate() {
            if p < r.units() {
                return (i, p);
            }
            p -= r.units();
        }
        (self.runs.len(), p)
    }
    fn fresh(&self, op: Op) -> Run {
        let mut r = Run::fresh(self.next, op.size);
        let (i, off) = self.locate(op.pos);
        if off != 0 {
            let g = self.runs[i].clone().split(off).lg;
            if op.kind & 1 != 0 {
                r.lg = g
            }
            if op.kind & 2 != 0 {
                r.rg = g
            }
        } else {
            if op.kind & 1 != 0 && i > 0 {
                r.lg = self.runs[i - 1].rg
            }
            if op.kind & 2 != 0 && i < self.runs.len() {
                r.rg = self.runs[i].lg
            }
        }
        r
    }
    fn insert(&mut self, pos: u32, new: Run, join: bool) {
        self.next += 1;
        let (mut i, off) = self.locate(pos);
        if off != 0 {
            let right = self.runs[i].split(off);
            self.runs.insert(i + 1, right);
            i += 1;
        }
        self.runs.insert(i, new);
        if join && i > 0 && self.runs[i - 1].rg == self.runs[i].lg {
            let r = self.runs.remove(i);
            i -= 1;
            self.runs[i] = self.runs[i].clone().join(r);
        }
        if join && i + 1 < self.runs.len() && self.runs[i].rg == self.runs[i + 1].lg {
            let r = self.runs.remove(i + 1);
            self.runs[i] = self.runs[i].clone().join(r);
        }
    }
    /// boundaries and middles, joining with nothing, with the left or with the right
    fn ops(&self, join: bool) -> Vec<Op> {
        let st = self.starts();
        let mut v = vec![];
        for k in 0..st.len() {
            let mid = if k + 1 < st.len() { (st[k + 1] - st[k]) / 2 } else { 0 };
            for off in [0, mid] {
                let edge = off == 0;
                v.push(Op { pos: st[k] + off, size: 4 + k as u32 % 3, kind: 0 });
                if join {
                    if !edge || k > 0 {
                        v.push(Op { pos: st[k] + off, size: 4, kind: 1 });
                    }
                    if !edge || k + 1 < st.len() {
                        v.push(Op { pos: st[k] + off, size: 4, kind: 2 });
                    }
                    if !edge {
                        v.push(Op { pos: st[k] + off, size: 4, kind: 3 });
                    }
                }
                if mid == 0 {
                    break;
                }
            }
        }
        v
    }
}

type Tr<B, P, const M: usize> = RleTree<Ix, S<B>, P, M>;

fn put<B: Body, P, const M: usize>(t: &mut Tr<B, P, M>, m: &mut Model, op: Op)
where
    P: RleTreeConfig<Ix, S<B>, M> + SupportsInsert<Ix, S<B>, M>,
{
    let r = m.fresh(op);
    t.insert(Ix(op.pos), S::new(r.clone()), Ix(op.size));
    m.insert(op.pos, r, B::JOIN);
}
fn build<B: Body, P, const M: usize>(m: &Model) -> Tr<B, P, M>
where
    P: RleTreeConfig<Ix, S<B>, M> + SupportsInsert<Ix, S<B>, M>,
{
    let mut t = RleTree::new_empty();
    for (op, r) in m.log.iter() {
        t.insert(Ix(op.pos), S::new(r.clone()), Ix(op.size));
    }
    t
}
fn see<B: Body>(m: &Model, k: usize, start: u32, s: &S<B>, r: std::ops::Range<Ix>) {
    if !s.0.same(&m.runs[k]) || r.start.0 != start || r.end.0 != start + m.runs[k].units() {
        bad(format!("slice {k}: {:?} at {:?} instead of {:?} at {start}", s.read(), r, m.runs[k]));
    }
}
/// forwards and backwards
fn check<B: Body, P, const M: usize>(t: &Tr<B, P, M>, m: &Model)
where
    P: RleTreeConfig<Ix, S<B>, M>,
{
    let st = m.starts();
    let mut n = 0;
    for e in t.iter(..) {
        see(m, n, st[n], e.slice(), e.range());
        n += 1;
    }
    if n != m.runs.len() || t.number_of_slices() != n || t.size().0 != st[n] {
        bad(format!("{n} slices of {}", m.runs.len()));
    }
    for e in t.iter(..).rev() {
        n -= 1;
        see(m, n, st[n], e.slice(), e.range());
    }
}
fn check_by_lookup<B: Body, P, const M: usize>(t: &Tr<B, P, M>, m: &Model)
where
    P: RleTreeConfig<Ix, S<B>, M>,
{
    let st = m.starts();
    for k in 0..m.runs.len() {
        let e = t.get(Ix(st[k] + m.runs[k].units() / 2));
        see(m, k, st[k], e.slice(), e.range());
    }
}
/// whatever there is, with whatever outcome
fn look<B: Body, P, const M: usize>(t: &Tr<B, P, M>, upto: usize)
where
    P: RleTreeConfig<Ix, S<B>, M>,
{
    may(|| {
        for e in t.iter(..).take(upto) {
            e.slice().touch();
        }
    });
    may(|| {
        for e in t.iter(..).rev().take(upto) {
            e.slice().touch();
        }
    });
    let size = t.size().0;
    for i in [0, size / 2, size.saturating_sub(1), size] {
        may(|| t.get(Ix(i)).slice().touch());
        may(|| t.cursor_to::<BoundedCursor>(Ix(i)));
    }
}
fn done(live: i64, what: &str) {
    if LIVE.get() != live {
        bad(format!("{} slices too many live after {what}", LIVE.get() - live));
    }
}

// Groups --------------------------------------------------------------------------------------

/// every insertion, then everything read
fn plain<B: Body, P, const M: usize>(h: &[Op])
where
    P: RleTreeConfig<Ix, S<B>, M> + SupportsInsert<Ix, S<B>, M>,
{
    let m0 = model(h, B::JOIN);
    for (_, op) in m0.ops(B::JOIN).into_iter().enumerate().filter(|(n, _)| mine(*n)) {
        case(|| format!("{op:?}"));
        let live = LIVE.get();
        let mut t = build::<B, P, M>(&m0);
        let mut m = m0.clone();
        put(&mut t, &mut m, op);
        check(&t, &m);
        check_by_lookup(&t, &m);
        drop(t);
        done(live, "dropping the tree");
    }
}

/// iteration over parts in every order of steps; hints; refusals
fn walk<B: Body, P, const M: usize>(h: &[Op])
where
    P: RleTreeConfig<Ix, S<B>, M> + SupportsInsert<Ix, S<B>, M>,
{
    let live = LIVE.get();
    let mut m = model(h, B::JOIN);
    let mut t = build::<B, P, M>(&m);
    let st = m.starts();
    let n = m.runs.len();
    for a in 0..n {
        for b in a + 1..=n {
            for pattern in 0..1u32 << (b - a + 1).min(4) {
                case(|| format!("iterate {a}..{b} in order {pattern:b}"));
                let (mut lo, mut hi) = (a, b);
                let mut it = t.iter(Ix(st[a] + (pattern & 1) * (m.runs[a].units() / 2))..Ix(st[b]));
                for k in 0..b - a + 2 {
                    if pattern >> (k % 4) & 1 == 0 {
                        if let Some(e) = it.next() {
                            e.slice().touch();
                            lo += 1;
                        }
                    } else if let Some(e) = it.next_back() {
                        e.slice().touch();
                        hi -= 1;
                    }
                }
                if lo != hi {
                    bad(format!("iterated over {} of {}", lo + b - a - hi, b - a));
                }
            }
        }
    }
    for k in 0..n {
        for j in 0..n {
            case(|| format!("lookup of {k} with the way to {j}"));
            let c: BoundedCursor = t.cursor_to(Ix(st[j]));
            let e = t.get_with_cursor(c, Ix(st[k]));
            see(&m, k, st[k], e.slice(), e.range());
            let mut it = t.iter_with_cursor(c, Ix(st[k])..);
            it.next().map(|e| e.slice().touch());
            it.next_back().map(|e| e.slice().touch());
        }
    }
    case(|| "refusals".into());
    may(|| t.get(Ix(st[n])).slice().touch());
    may(|| t.cursor_to::<BoundedCursor>(Ix(st[n] + 9)));
    may(|| t.iter(Ix(3)..Ix(2)).next().map(|e| e.slice().touch()));
    may(|| t.iter(..Ix(st[n] + 9)).next_back().map(|e| e.slice().touch()));
    may(|| t.insert(Ix(st[n] + 1), S::new(Run::fresh(900, 2)), Ix(2)));
    may(|| t.insert(Ix(0), S::new(Run::fresh(900, 0)), Ix(0)));
    check(&t, &m);
    case(|| "chain of hinted insertions".into());
    let mut c = BoundedCursor::<2>::new_empty();
    for k in 0..n {
        let op = Op { pos: m.starts()[k], size: 3, kind: 0 };
        let r = m.fresh(op);
        c = t.insert_with_cursor(c, Ix(op.pos), S::new(r.clone()), Ix(op.size));
        m.insert(op.pos, r, B::JOIN);
    }
    check(&t, &m);
    drop(t);
    done(live, "dropping the tree");
}

/// clones that share nodes
fn cow<B: Body, const M: usize>(h: &[Op]) {
    let m0 = model(h, B::JOIN);
    for (n, op) in m0.ops(B::JOIN).into_iter().enumerate().filter(|(n, _)| mine(*n)) {
        for how in variants(n, 6) {
            case(|| format!("{op:?} {how}"));
            let live = LIVE.get();
            let (mut t, mut m) = (build::<B, AllowCow, M>(&m0), m0.clone());
            let mut c = t.clone();
            let mut cm = m.clone();
            match how {
                0 => put(&mut t, &mut m, op),
                1 => put(&mut c, &mut cm, op),
                2 => {
                    put(&mut t, &mut m, op);
                    let st = cm.starts();
                    put(&mut c, &mut cm, Op { pos: st[st.len() / 2], size: 3, kind: 0 });
                }
                3 => {
                    // iterators and entries of the clone live on
                    let mut it = c.iter(..);
                    let e = it.next();
                    put(&mut t, &mut m, op);
                    if let Some(e) = e {
                        see(&cm, 0, 0, e.slice(), e.range());
                    }
                    let n = it.map(|e| e.slice().touch()).count();
                    if n + 1 != cm.runs.len().max(1) {
                        bad("iterator of a clone".into());
                    }
                }
                4 => {
                    let d = c.clone();
                    put(&mut c, &mut cm, op);
                    drop(t);
                    check(&d, &m);
                    check(&c, &cm);
                    t = d;
                    put(&mut t, &mut m, op);
                }
                _ => {
                    put(&mut t, &mut m, op);
                    drop(std::mem::replace(&mut c, t.clone()));
                    cm = m.clone();
                    let st = cm.starts();
                    put(&mut c, &mut cm, Op { pos: st[st.len() - 1], size: 3, kind: 0 });
                }
            }
            check(&t, &m);
            check(&c, &cm);
            if how % 2 == 0 {
                drop(t);
                check(&c, &cm);
                drop(c);
            } else {
                drop(c);
                check(&t, &m);
                drop(t);
            }
            done(live, "dropping the trees");
        }
    }
}

/// user code called in the middle of an insertion uses the other tree
fn middle<B: Body, const M: usize>(h: &[Op]) {
    let m0 = model(h, B::JOIN);
    for (n, op) in m0.ops(B::JOIN).into_iter().enumerate().filter(|(n, _)| mine(*n)) {
        let mut calls = 1;
        let mut k = 0;
        while k < calls {
            k += 1;
            for how in variants(n + k as usize, 4) {
                case(|| format!("{op:?}: {how} in the middle of call {k}"));
                let live = LIVE.get();
                let (mut t, mut m) = (build::<B, AllowCow, M>(&m0), m0.clone());
                let o = Rc::new(RefCell::new(vec![(t.clone(), m.clone())]));
                let o2 = o.clone();
                DO.with(|d| {
                    *d.borrow_mut() = Some(Box::new(move || {
                        let mut o = o2.borrow_mut();
                        match how {
                            0 => o.clear(),
                            1 => {
                                let (t, m) = &mut o[0];
                                let at = m.starts()[m.runs.len() / 2];
                                put(t, m, Op { pos: at, size: 2, kind: 0 })
                            }
                            2 => check(&o[0].0, &o[0].1),
                            _ => {
                                let c = (o[0].0.clone(), o[0].1.clone());
                                o.clear();
                                o.push(c);
                            }
                        }
                    }))
                });
                arm(HOOK, k);
                put(&mut t, &mut m, op);
                calls = calls.max(disarm());
                check(&t, &m);
                for (c, cm) in o.borrow().iter() {
                    check(c, cm);
                }
                drop(t);
                for (c, cm) in o.borrow().iter() {
                    check(c, cm);
                }
                o.borrow_mut().clear();
                done(live, "dropping the trees");
            }
        }
    }
}

/// references, borrows and the tree, in several orders
fn refs<B: Body, const M: usize>(h: &[Op]) {
    let m0 = model(h, B::JOIN);
    for (n, op) in m0.ops(B::JOIN).into_iter().enumerate().filter(|(n, _)| mine(*n)) {
        for how in variants(n, 6) {
            case(|| format!("{op:?} {how}"));
            let live = LIVE.get();
            let (mut t, mut m) = (build::<B, AllowSliceRefs, M>(&m0), m0.clone());
            let mut rs: Vec<SliceRef<Ix, S<B>, M>> = m.starts()[..m.runs.len()].iter().map(|s| t.get(Ix(*s)).make_ref()).collect();
            if how % 2 == 1 && rs.len() > 0 {
                // some recycled
                rs.swap_remove(rs.len() / 2);
                if let Some(r) = rs.first().cloned() {
                    rs.push(r);
                }
            }
            let r = m.fresh(op);
            rs.push(t.insert_ref(Ix(op.pos), S::new(r.clone()), Ix(op.size)));
            m.insert(op.pos, r, B::JOIN);
            check(&t, &m);
            let st = m.starts();
            for r in &rs {
                if r.is_valid() {
                    let g = r.range();
                    let k = st.iter().position(|s| *s == g.start.0).unwrap_or(usize::MAX);
                    if k >= m.runs.len() {
                        bad(format!("a reference to {g:?}"));
                    }
                    see(&m, k, st[k], &r.borrow_slice(), g);
                    let c: BoundedCursor = r.cursor();
                    t.get_with_cursor(c, Ix(st[k])).slice().touch();
                } else if r.try_borrow_slice().is_some() {
                    bad("borrowed through an invalid reference".into());
                }
            }
            match how {
                0 => {
                    drop(t);
                    for r in &rs {
                        if r.try_borrow_slice().is_some() || r.try_range().is_some() || r.is_valid() {
                            bad("a reference into a tree that is gone".into());
                        }
                    }
                }
                1 => {
                    rs.clear();
                    check(&t, &m);
                    drop(t);
                }
                2 | 3 => {
                    // the tree goes while slices are borrowed
                    let bs: Vec<_> = rs.iter().filter_map(|r| r.try_borrow_slice()).collect();
                    let cs: Vec<_> = bs.iter().map(|b| b.clone()).collect();
                    drop(t);
                    for (b, c) in bs.iter().zip(&cs) {
                        if b.read() != c.read() {
                            bad("borrowed slices differ".into());
                        }
                    }
                    drop(bs);
                    let more: Vec<_> = rs.iter().filter_map(|r| r.try_borrow_slice()).map(|b| Borrow::map(b, |s| &s.0)).collect();
                    for c in cs {
                        c.read();
                    }
                    for b in more {
                        b.run();
                    }
                }
                4 => {
                    // refused while borrowed
                    let b = rs.iter().find_map(|r| r.try_borrow_slice());
                    may(|| t.insert(Ix(0), S::new(Run::fresh(900, 2)), Ix(2)));
                    if let Some(b) = &b {
                        b.read();
                    }
                    drop(b);
                    put(&mut t, &mut m, Op { pos: 0, size: 2, kind: 0 });
                    check(&t, &m);
                    drop(t);
                }
                _ => {
                    drop(rs.split_off(rs.len() / 2));
                    let st = m.starts();
                    put(&mut t, &mut m, Op { pos: st[st.len() / 2], size: 2, kind: 0 });
                    for r in &rs {
                        if let Some(b) = r.try_borrow_slice() {
                            b.read();
                        }
                        r.try_range();
                    }
                    drop(t);
                }
            }
            drop(rs);
            done(live, "dropping everything");
        }
    }
}

trait Second<B: Body, const M: usize>: RleTreeConfig<Ix, S<B>, M> + SupportsInsert<Ix, S<B>, M> {
    fn clone_of(_t: &Tr<B, Self, M>) -> Option<Tr<B, Self, M>>
    where
        Self: Sized;
    fn references(_t: &Tr<B, Self, M>, _m: &Model) -> Vec<SliceRef<Ix, S<B>, M>>
    where
        Self: Sized,
    {
        vec![]
    }
}
impl<B: Body, const M: usize> Second<B, M> for NoFeatures {
    fn clone_of(t: &Tr<B, Self, M>) -> Option<Tr<B, Self, M>> {
        Some(t.clone())
    }
}
impl<B: Body, const M: usize> Second<B, M> for AllowCow {
    fn clone_of(t: &Tr<B, Self, M>) -> Option<Tr<B, Self, M>> {
        Some(t.clone())
    }
}
impl<B: Body, const M: usize> Second<B, M> for AllowSliceRefs {
    fn clone_of(_: &Tr<B, Self, M>) -> Option<Tr<B, Self, M>> {
        None
    }
    fn references(t: &Tr<B, Self, M>, m: &Model) -> Vec<SliceRef<Ix, S<B>, M>> {
        m.starts()[..m.runs.len()].iter().filter_map(|s| may(|| t.get(Ix(*s)).make_ref())).collect()
    }
}

/// user code panics, or answers wrongly, at every call of every operation; then the tree is used
fn faulty<B: Body, P: Second<B, M>, const M: usize>(h: &[Op], whats: &[u8]) {
    let m0 = model(h, B::JOIN);
    let n = m0.runs.len();
    let mut acts: Vec<(u8, Op)> = m0.ops(B::JOIN).into_iter().map(|o| (0, o)).collect();
    let none = Op { pos: 0, size: 0, kind: 0 };
    for s in &m0.starts()[..n] {
        acts.push((1, Op { pos: *s, ..none }));
    }
    acts.extend([(2, none), (3, none), (4, none)]);
    for (a, (act, op)) in acts.into_iter().enumerate().filter(|(n, _)| mine(*n)) {
        for (w, what) in whats.iter().enumerate() {
            let mut calls = 1;
            let mut k = 0u32;
            while k < calls {
                k += 1;
                if TURNS.get() && whats.len() > 1 && k > 1 && (k as usize / 2) % 2 != w {
                    continue;
                }
                for how in variants(a + k as usize, 2) {
                    case(|| format!("act {act} {op:?}, fault {what} at call {k}, then {how}"));
                    let (mut t, m) = (build::<B, P, M>(&m0), &m0);
                    let rs = P::references(&t, m);
                    // in shared nodes
                    let other = if how == 1 { P::clone_of(&t) } else { None };
                    arm(*what, k);
                    may(|| match act {
                        0 => {
                            let r = m.fresh(op);
                            t.insert(Ix(op.pos), S::new(r), Ix(op.size));
                        }
                        1 => {
                            t.get(Ix(op.pos)).slice().touch();
                            t.cursor_to::<BoundedCursor>(Ix(op.pos));
                            for r in &rs {
                                r.try_range();
                                r.is_valid();
                            }
                        }
                        2 => {
                            let mut it = t.iter(..);
                            while let Some(e) = it.next() {
                                e.slice().touch();
                                if let Some(e) = it.next_back() {
                                    e.slice().touch();
                                }
                            }
                        }
                        3 => drop(P::clone_of(&t)),
                        _ => {
                            let mut it = t.iter(Ix(2)..Ix(m.starts()[n] - 1));
                            it.next_back().map(|e| e.slice().touch());
                            it.next().map(|e| e.slice().touch());
                        }
                    });
                    calls = calls.max(disarm());
                    look(&t, n + 4);
                    for r in &rs {
                        may(|| r.try_borrow_slice().map(|b| b.touch()));
                        may(|| r.try_range());
                    }
                    // used further
                    let c = if how == 1 { None } else { may(|| P::clone_of(&t)).flatten() };
                    let size = t.size().0;
                    for pos in [[size / 2, size], [size, 0], [0, size / 2]][k as usize % 3] {
                        may(|| t.insert(Ix(pos), S::new(Run::fresh(500 + pos % 64, 2)), Ix(2)));
                    }
                    may(|| {
                        for e in t.iter(..).take(n + 8) {
                            e.slice().touch();
                        }
                    });
                    may(|| drop(t));
                    if let Some(c) = c {
                        may(|| {
                            for e in c.iter(..).rev().take(n + 8) {
                                e.slice().touch();
                            }
                        });
                        may(|| drop(c));
                    }
                    for r in &rs {
                        may(|| r.try_borrow_slice().map(|b| b.touch()));
                    }
                    drop(rs);
                    if let Some(c) = other {
                        if *what == PANIC {
                            check(&c, m);
                        } else {
                            look(&c, n + 4);
                        }
                        may(|| drop(c));
                    }
                }
            }
        }
    }
}

/// the same while reading, which changes nothing, so that one tree is enough
fn faulty_reading<B: Body, P: Second<B, M>, const M: usize>(h: &[Op]) {
    let m = model(h, B::JOIN);
    let (n, st) = (m.runs.len(), m.starts());
    let size = st[n];
    let live = LIVE.get();
    let t = build::<B, P, M>(&m);
    let mut rs = P::references(&t, &m);
    // start and end of an iteration, and what to do
    let mut acts: Vec<(u8, u32, u32)> = vec![];
    for k in 0..n {
        let (a, b) = (st[k], st[k + 1]);
        acts.extend([(0, a, b), (1, a, size), (2, 0, b), ([3, 4][k % 2], a, b - 1)]);
    }
    acts.extend([(5, 0, size), (6, 0, size), (7, 0, size)]);
    for (act, from, to) in acts.into_iter().enumerate().filter(|(n, _)| mine(*n)).map(|(_, a)| a) {
        for what in [LIE_A, LIE_B] {
            case(|| format!("reading {act} {from}..{to}, fault {what}"));
            let mut calls = 1;
            let mut k = 0u32;
            while k < calls {
                k += 1;
                arm(what, k);
                may(|| match act {
                    0 => {
                        t.get(Ix(from)).slice().touch();
                        t.cursor_to::<BoundedCursor>(Ix(to - 1));
                    }
                    1 => {
                        let mut it = t.iter(Ix(from)..);
                        for e in it.by_ref().take(n + 4) {
                            e.slice().touch();
                        }
                        it.next_back().map(|e| e.slice().touch());
                    }
                    2 => {
                        let mut it = t.iter(..Ix(to));
                        for e in it.by_ref().rev().take(n + 4) {
                            e.slice().touch();
                        }
                        it.next().map(|e| e.slice().touch());
                    }
                    3 => {
                        let c: BoundedCursor = t.cursor_to(Ix(from));
                        t.get_with_cursor(c, Ix(size - 1)).slice().touch();
                    }
                    4 => {
                        let c: BoundedCursor = t.cursor_to(Ix(0));
                        let mut it = t.iter_with_cursor(c, Ix(from)..Ix(to));
                        it.next_back().map(|e| e.slice().touch());
                        it.next().map(|e| e.slice().touch());
                    }
                    5 => {
                        for r in &rs {
                            r.is_valid();
                            r.try_range();
                            r.try_borrow_slice().map(|b| b.touch());
                            r.cursor::<BoundedCursor>();
                        }
                    }
                    6 => {
                        let c = P::clone_of(&t);
                        c.map(|c| c.get(Ix(size / 2)).slice().touch());
                    }
                    _ => {
                        for j in 0..rs.len() {
                            rs[j] = rs[n - 1 - j].clone();
                        }
                        for e in t.iter(..) {
                            e.slice().touch();
                        }
                        for e in t.iter(..=Ix(size - 1)).rev() {
                            e.slice().touch();
                        }
                    }
                });
                calls = calls.max(disarm()).min(60);
            }
        }
    }
    case(|| "reading again, without faults".into());
    check(&t, &m);
    drop(t);
    drop(rs);
    done(live, "dropping everything");
}

fn run<const M: usize>(group: &str, h: &[Op]) {
    match group {
        "plain" => plain::<Heap, NoFeatures, M>(h),
        "plain-cow" => plain::<Heap, AllowCow, M>(h),
        "plain-refs" => plain::<Heap, AllowSliceRefs, M>(h),
        "plain-wide" => plain::<Wide, NoFeatures, M>(h),
        "plain-nil" => plain::<Nil, NoFeatures, M>(h),
        "nil-cow" => cow::<Nil, M>(h),
        "nil-refs" => refs::<Nil, M>(h),
        "walk" => walk::<Heap, NoFeatures, M>(h),
        "walk-cow" => walk::<Heap, AllowCow, M>(h),
        "walk-refs" => walk::<Heap, AllowSliceRefs, M>(h),
        "cow" => cow::<Heap, M>(h),
        "wide-cow" => cow::<Wide, M>(h),
        "middle" => middle::<Heap, M>(h),
        "refs" => refs::<Heap, M>(h),
        "panic" => faulty::<Heap, NoFeatures, M>(h, &[PANIC]),
        "panic-cow" => faulty::<Heap, AllowCow, M>(h, &[PANIC]),
        "panic-refs" => faulty::<Heap, AllowSliceRefs, M>(h, &[PANIC]),
        "lies" => faulty::<Heap, NoFeatures, M>(h, &[LIE_A, LIE_B]),
        "lies-read" => faulty_reading::<Heap, NoFeatures, M>(h),
        "lies-cow-read" => faulty_reading::<Heap, AllowCow, M>(h),
        "lies-refs-read" => faulty_reading::<Heap, AllowSliceRefs, M>(h),
        "lies-cow" => faulty::<Heap, AllowCow, M>(h, &[LIE_A, LIE_B]),
        "lies-refs" => faulty::<Heap, AllowSliceRefs, M>(h, &[LIE_A, LIE_B]),
        _ => panic!("unknown group"),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    VERBOSE.set(a[3].contains('v'));
    TURNS.set(a[3].contains('w'));
    if let Some((_, s)) = a[3].split_once('s') {
        let (i, of) = s.split_once('/').unwrap();
        SHARD.set((i.parse().unwrap(), of.parse().unwrap()));
    }
    std::panic::set_hook(Box::new(|_| ()));
    let h = parse(&a[4]);
    let r = catch_unwind(|| match a[2].as_str() {
        "1" => run::<1>(&a[1], &h),
        "2" => run::<2>(&a[1], &h),
        _ => run::<3>(&a[1], &h),
    });
    if let Err(e) = r {
        let e = e.downcast_ref::<String>().map(|s| &**s).or(e.downcast_ref::<&str>().copied()).unwrap_or("?");
        bad(format!("panicked: {e}"));
    }
    if CASES.get() > 0 {
        println!(".");
    }
    println!("done {}", CASES.get());
}
