//! Trees cross threads only in configurations where that is sound.
//!
//! Two explorations. First, what may happen to a slice once a tree may be sent (or shared) is found
//! by executing every history of two threads up to a depth on the real tree: which slices can be
//! reached from both threads at once, which are dropped, changed or moved on a thread other than
//! their own. Second, for every combination of value types the compiler is asked whether the tree
//! (and everything borrowed from it) is `Send` and `Sync`, and the answers are judged by the first.
use mc::common::*;
use sherman::{Borrow, Drain, Iter, SliceEntry, SliceRef};
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::marker::PhantomData;

// ---- value types ----
pub struct Neither(#[allow(dead_code)] PhantomData<std::rc::Rc<()>>);
pub struct SendOnly(#[allow(dead_code)] PhantomData<Cell<()>>);
pub struct SyncOnly(#[allow(dead_code)] PhantomData<std::sync::MutexGuard<'static, ()>>);
pub struct Both;

struct Asked<T: ?Sized>(#[allow(dead_code)] PhantomData<T>);
macro_rules! answers {
    ($t:ty) => {{
        #[allow(dead_code)]
        trait No {
            const SEND: bool = false;
            const SYNC: bool = false;
        }
        impl<T: ?Sized> No for T {}
        mod send {
            pub struct A<T: ?Sized>(pub std::marker::PhantomData<T>);
            #[allow(dead_code)]
            impl<T: ?Sized + Send> A<T> {
                pub const SEND: bool = true;
            }
        }
        mod sync {
            pub struct A<T: ?Sized>(pub std::marker::PhantomData<T>);
            #[allow(dead_code)]
            impl<T: ?Sized + Sync> A<T> {
                pub const SYNC: bool = true;
            }
        }
        (<send::A<$t>>::SEND, <sync::A<$t>>::SYNC)
    }};
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum P {
    Plain,
    Cow,
    Refs,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Tree,
    Entry,
    Iter,
    Drain,
    SliceRef,
    Borrow,
}

struct Row {
    name: String,
    kind: Kind,
    p: P,
    /// (Send, Sync) of index, slice and cursor type
    i: (bool, bool),
    s: (bool, bool),
    c: (bool, bool),
    send: bool,
    sync: bool,
}

macro_rules! row {
    ($v:ident, $kind:expr, $p:expr, $i:ty, $s:ty, $c:ty, $t:ty) => {{
        let (send, sync) = answers!($t);
        $v.push(Row {
            name: stringify!($t).split_whitespace().collect::<Vec<_>>().join(" "),
            kind: $kind,
            p: $p,
            i: answers!($i),
            s: answers!($s),
            c: answers!($c),
            send,
            sync,
        });
    }};
}
macro_rules! rows_p {
    ($v:ident, $pv:expr, $pt:ty, $i:ty, $s:ty) => {
        row!($v, Kind::Tree, $pv, $i, $s, Both, RleTree<$i, $s, $pt, 3>);
        row!($v, Kind::Tree, $pv, $i, $s, Both, RleTree<$i, $s, $pt, 1>);
        row!($v, Kind::Entry, $pv, $i, $s, Both, SliceEntry<'static, $i, $s, $pt, 3>);
        rows_c!($v, $pv, $pt, $i, $s, Neither);
        rows_c!($v, $pv, $pt, $i, $s, SendOnly);
        rows_c!($v, $pv, $pt, $i, $s, SyncOnly);
        rows_c!($v, $pv, $pt, $i, $s, Both);
    };
}
macro_rules! rows_c {
    ($v:ident, $pv:expr, $pt:ty, $i:ty, $s:ty, $c:ty) => {
        row!($v, Kind::Iter, $pv, $i, $s, $c, Iter<'static, $c, $i, $s, $pt, 3>);
        row!($v, Kind::Drain, $pv, $i, $s, $c, Drain<'static, $c, $i, $s, $pt, 3>);
    };
}
macro_rules! rows_s {
    ($v:ident, $i:ty, $s:ty) => {
        rows_p!($v, P::Plain, NoFeatures, $i, $s);
        rows_p!($v, P::Cow, AllowCow, $i, $s);
        rows_p!($v, P::Refs, AllowSliceRefs, $i, $s);
        row!($v, Kind::SliceRef, P::Refs, $i, $s, Both, SliceRef<$i, $s, 3>);
    };
}
macro_rules! rows_i {
    ($v:ident, $i:ty) => {
        rows_s!($v, $i, Neither);
        rows_s!($v, $i, SendOnly);
        rows_s!($v, $i, SyncOnly);
        rows_s!($v, $i, Both);
    };
}

fn rows() -> Vec<Row> {
    let mut v = vec![];
    rows_i!(v, Neither);
    rows_i!(v, SendOnly);
    rows_i!(v, SyncOnly);
    rows_i!(v, Both);
    row!(v, Kind::Borrow, P::Refs, Both, Neither, Both, Borrow<'static, Neither>);
    row!(v, Kind::Borrow, P::Refs, Both, SendOnly, Both, Borrow<'static, SendOnly>);
    row!(v, Kind::Borrow, P::Refs, Both, SyncOnly, Both, Borrow<'static, SyncOnly>);
    row!(v, Kind::Borrow, P::Refs, Both, Both, Both, Borrow<'static, Both>);
    v
}

// ---- what histories of two threads do to slices ----
thread_local! {
    /// the thread whose turn it is
    static NOW: Cell<u8> = const { Cell::new(0) };
    static SERIAL: Cell<u32> = const { Cell::new(0) };
    /// demands on the slice type: 0 = Send, 1 = Sync; and why
    static DEMAND: RefCell<[Option<String>; 2]> = const { RefCell::new([None, None]) };
}

fn demand(k: usize, why: &str) {
    DEMAND.with(|d| {
        d.borrow_mut()[k].get_or_insert_with(|| why.to_string());
    })
}

struct Val {
    serial: u32,
    home: u8,
}
impl Val {
    fn new() -> Val {
        let serial = SERIAL.with(|s| {
            s.set(s.get() + 1);
            s.get()
        });
        Val { serial, home: NOW.with(|n| n.get()) }
    }
    fn here(&self, why: &str) {
        if self.home != NOW.with(|n| n.get()) {
            demand(0, why);
        }
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        self.here("a slice is dropped on another thread than it was made on");
    }
}
impl Clone for Val {
    fn clone(&self) -> Val {
        Val::new()
    }
}
impl Slice<usize> for Val {
    const MAY_JOIN: bool = true;
    fn split_at(&mut self, _: usize) -> Val {
        self.here("a slice is changed on another thread than it was made on");
        Val::new()
    }
    fn try_join(self, other: Val) -> Result<Val, (Val, Val)> {
        self.here("a slice is moved out on another thread than it was made on");
        Err((self, other))
    }
}

trait Api: RleTreeConfig<usize, Val, 1> + SupportsInsert<usize, Val, 1> + Sized {
    fn cloned(t: &RleTree<usize, Val, Self, 1>) -> Option<RleTree<usize, Val, Self, 1>>;
}
impl Api for NoFeatures {
    fn cloned(t: &RleTree<usize, Val, Self, 1>) -> Option<RleTree<usize, Val, Self, 1>> {
        Some(t.clone())
    }
}
impl Api for AllowCow {
    fn cloned(t: &RleTree<usize, Val, Self, 1>) -> Option<RleTree<usize, Val, Self, 1>> {
        Some(t.clone())
    }
}

/// What a tree may do: cross by moving, cross by reference
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Grant {
    Send,
    Sync,
}

const ACTS: u8 = 5;
struct Slot<C: Api> {
    tree: RleTree<usize, Val, C, 1>,
    owner: u8,
    /// lent to the other thread; nobody changes or drops it meanwhile
    lent: bool,
}

/// Executes a history; `None` when one of its steps is not possible
fn history<C: Api>(grant: Grant, size: usize, acts: &[u8]) -> Option<[Option<String>; 2]> {
    NOW.with(|n| n.set(0));
    DEMAND.with(|d| *d.borrow_mut() = [None, None]);
    let mut t = RleTree::new_empty();
    for k in 0..size {
        t.insert(k * 4, Val::new(), 4);
    }
    let mut slots: Vec<Slot<C>> = vec![Slot { tree: t, owner: 0, lent: false }];
    let at = |n: u8| NOW.with(|x| x.set(n));
    let mut ok = true;
    for a in acts {
        let (i, b) = ((*a / (2 * ACTS)) as usize, *a % 2);
        if i >= slots.len() {
            ok = false;
            break;
        }
        let reach = slots[i].owner == b || slots[i].lent;
        at(b);
        ok = match *a / 2 % ACTS {
            // clone, on a thread that can see the tree
            0 if reach && slots.len() < 3 => match C::cloned(&slots[i].tree) {
                None => false,
                Some(tree) => {
                    slots.push(Slot { tree, owner: b, lent: false });
                    true
                }
            },
            // move to thread b
            1 if grant == Grant::Send && slots[i].owner != b => {
                slots[i].owner = b;
                true
            }
            // lend, or end that
            2 if grant == Grant::Sync && slots[i].owner == b => {
                slots[i].lent = !slots[i].lent;
                true
            }
            // drop
            3 if slots[i].owner == b && !slots[i].lent => {
                drop(slots.remove(i));
                true
            }
            // insert in the middle of a slice
            4 if slots[i].owner == b && !slots[i].lent && size > 0 => {
                slots[i].tree.insert(2, Val::new(), 4);
                true
            }
            _ => false,
        };
        if !ok {
            break;
        }
        // who can read what now
        let mut seen: [BTreeSet<u32>; 2] = Default::default();
        for s in &slots {
            let set: BTreeSet<u32> = s.tree.iter(..).map(|e| e.slice().serial).collect();
            for b in 0..2u8 {
                if s.owner == b || s.lent {
                    seen[b as usize].extend(&set);
                }
            }
        }
        if seen[0].intersection(&seen[1]).next().is_some() {
            demand(1, "a slice can be read on two threads at once");
        }
    }
    // the rest is dropped where it is
    for s in slots {
        at(s.owner);
        drop(s);
    }
    at(0);
    ok.then(|| DEMAND.with(|d| std::mem::replace(&mut *d.borrow_mut(), [None, None])))
}

/// All histories up to a depth: what they demand of slices, how many there are
fn demands<C: Api>(grant: Grant, size: usize, depth: usize) -> ([Option<(String, Vec<u8>)>; 2], u64) {
    fn go<C: Api>(grant: Grant, size: usize, depth: usize, acts: &mut Vec<u8>, out: &mut [Option<(String, Vec<u8>)>; 2], n: &mut u64) {
        *n += 1;
        match history::<C>(grant, size, acts) {
            None => return,
            Some(d) => {
                for (k, why) in d.into_iter().enumerate() {
                    if let (None, Some(why)) = (&out[k], why) {
                        out[k] = Some((why, acts.clone()));
                    }
                }
            }
        }
        if acts.len() < depth {
            for a in 0..3 * 2 * ACTS {
                acts.push(a);
                go::<C>(grant, size, depth, acts, out, n);
                acts.pop();
            }
        }
    }
    let (mut out, mut n) = ([None, None], 0);
    go::<C>(grant, size, depth, &mut vec![], &mut out, &mut n);
    (out, n)
}

fn judge(r: &Row, needs: &dyn Fn(P, Grant) -> [Option<(String, Vec<u8>)>; 2]) -> Result<(), String> {
    for (grant, has) in [(Grant::Send, r.send), (Grant::Sync, r.sync)] {
        let name = format!("{} is {grant:?}", r.name);
        if r.p == P::Refs {
            // unsynchronised counters: never
            if has {
                return Err(format!("{name}, but its counters for references are not synchronised"));
            }
            continue;
        }
        match r.kind {
            Kind::Tree => {
                let need = needs(r.p, grant);
                let lacks = |v: (bool, bool)| need[0].is_some() && !v.0 || need[1].is_some() && !v.1;
                if has && (lacks(r.i) || lacks(r.s)) {
                    return Err(format!("{name}, although its values are (Send, Sync): index {:?}, slice {:?}; then {need:?}", r.i, r.s));
                }
                if !has && !lacks(r.i) && !lacks(r.s) {
                    return Err(format!("{name}: it is not, although its values are (Send, Sync): index {:?}, slice {:?} and all that can happen is {need:?}", r.i, r.s));
                }
            }
            Kind::Entry | Kind::Iter if grant == Grant::Send => {
                // gives out the indexes it holds and references to the slices; drops the cursor
                if has && (r.i != (true, true) || !r.s.1 || !r.c.0) {
                    return Err(format!("{name}, although (Send, Sync): index {:?}, slice {:?}, cursor {:?}", r.i, r.s, r.c));
                }
            }
            Kind::Entry => {
                if has && (!r.i.1 || !r.s.1) {
                    return Err(format!("{name}, although (Send, Sync): index {:?}, slice {:?}", r.i, r.s));
                }
            }
            // a shared iterator gives out nothing
            Kind::Iter => {}
            Kind::Drain if grant == Grant::Send => {
                let cow = r.p == P::Cow;
                if has && (!r.i.0 || !r.s.0 || !r.c.0 || cow && !(r.i.1 && r.s.1)) {
                    return Err(format!("{name}, although (Send, Sync): index {:?}, slice {:?}, cursor {:?}", r.i, r.s, r.c));
                }
            }
            Kind::Drain | Kind::SliceRef | Kind::Borrow => {}
        }
    }
    Ok(())
}

fn needs_of(p: P, grant: Grant, size: usize, depth: usize) -> ([Option<(String, Vec<u8>)>; 2], u64) {
    match p {
        P::Plain => demands::<NoFeatures>(grant, size, depth),
        P::Cow => demands::<AllowCow>(grant, size, depth),
        P::Refs => unreachable!(),
    }
}

fn main() {
    let kinds = [Kind::Tree, Kind::Entry, Kind::Iter, Kind::Drain, Kind::SliceRef, Kind::Borrow];
    drive(Check {
        id: "P22",
        level: "model_checking",
        rule: "all histories of two threads up to a depth (clone, move, lend, drop, insert on up to three trees) executed on the real tree, recording what they demand of the slice type; then every combination of Send/Sync value types in every configuration, for trees and for everything borrowed from them, asked of the compiler and judged by those demands; nontrivial: a type that is Send or Sync",
        assumptions: &[
            "the threads of the histories are simulated by turns (what a history does to a slice does not depend on the thread it really runs on); that concurrent execution is sound for sendable and shareable values is P12's subject",
            "indexes, being copied freely, are held to the same demands as slices",
        ],
        configs: vec![
            Config::new(
                "histories",
                |_, _| {
                    let mut v = vec![];
                    for p in [P::Plain, P::Cow] {
                        for g in [Grant::Send, Grant::Sync] {
                            for size in [0, 1, 2, 5] {
                                v.push(format!("{p:?}/{g:?}/{size}"));
                            }
                        }
                    }
                    v
                },
                |ctx, st| {
                    let mut it = st.split('/');
                    let p = if it.next() == Some("Plain") { P::Plain } else { P::Cow };
                    let g = if it.next() == Some("Send") { Grant::Send } else { Grant::Sync };
                    let size: usize = it.next().unwrap().parse().unwrap();
                    let depth = ctx.tier.pick(4, 6);
                    let mut count = 0;
                    let mut found = None;
                    ctx.probe("histories", &[depth as i64], || {
                        let (d, n) = needs_of(p, g, size, depth);
                        count = n;
                        // the statement's table
                        let want = match (p, g) {
                            _ if size == 0 => return Ok(()),
                            (P::Plain, Grant::Send) => [true, false],
                            (P::Plain, Grant::Sync) => [false, true],
                            _ => [true, true],
                        };
                        found = Some(format!("{d:?}"));
                        for k in 0..2 {
                            if d[k].is_some() && !want[k] {
                                return Err(format!("{} of the slice type is not asked for, but {:?}", ["Send", "Sync"][k], d[k]));
                            }
                        }
                        Ok(())
                    });
                    ctx.add("transitions", count);
                    ctx.outcome(found);
                },
            ),
            Config::new(
                "marker traits",
                move |_, _| kinds.iter().map(|k| format!("{k:?}")).collect(),
                move |ctx, st| {
                    let depth = ctx.tier.pick(4, 6);
                    let mut memo: Vec<(P, Grant, [Option<(String, Vec<u8>)>; 2])> = vec![];
                    if st == "Tree" {
                        for p in [P::Plain, P::Cow] {
                            for g in [Grant::Send, Grant::Sync] {
                                let Some((mut d, _)) = ctx.base(|| needs_of(p, g, 2, depth)) else { return };
                                if p == P::Cow {
                                    // in any case
                                    for x in &mut d {
                                        x.get_or_insert_with(|| ("the documentation asks for it".into(), vec![]));
                                    }
                                }
                                memo.push((p, g, d));
                            }
                        }
                    }
                    for (n, r) in rows().iter().enumerate().filter(|(_, r)| format!("{:?}", r.kind) == st) {
                        ctx.probe("row", &[n as i64], || judge(r, &|p, g| memo.iter().find(|m| m.0 == p && m.1 == g).unwrap().2.clone()));
                        ctx.add("nontrivial", (r.send || r.sync) as u64);
                        ctx.trace();
                        ctx.outcome((&r.name, r.send, r.sync));
                    }
                },
            ),
        ],
    })
}
