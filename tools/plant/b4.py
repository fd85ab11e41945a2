SPECS={}
TOK='''
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
thread_local! {
    static COUNT: RefCell<HashMap<u64, i32>> = RefCell::new(HashMap::new());
    static NEXT: Cell<u64> = Cell::new(0);
    static FUSE: Cell<i64> = Cell::new(-1);
    static BAD: Cell<u32> = Cell::new(0);
}
fn boom() {
    FUSE.with(|f| {
        let n = f.get();
        if n >= 0 { f.set(n - 1); }
        if n == 0 { panic!("planned"); }
    })
}
/// A token that knows whether it is alive
#[derive(Debug)]
struct Tok { id: u64, letter: char, fail: bool }
impl Tok {
    fn new(letter: char) -> Tok {
        let id = NEXT.with(|n| { n.set(n.get() + 1); n.get() });
        COUNT.with(|c| c.borrow_mut().insert(id, 1));
        Tok { id, letter, fail: true }
    }
    fn check(&self) {
        if COUNT.with(|c| c.borrow().get(&self.id).copied()) != Some(1) { BAD.with(|b| b.set(b.get() + 1)); }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.check();
        COUNT.with(|c| *c.borrow_mut().entry(self.id).or_insert(0) -= 1);
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok { self.check(); Tok::new(self.letter) }
}
impl Slice<usize> for Tok {
    const MAY_JOIN: bool = true;
    fn split_at(&mut self, _: usize) -> Self { self.check(); boom(); Tok::new(self.letter) }
    fn try_join(self, other: Self) -> Result<Self, (Self, Self)> {
        self.check();
        other.check();
        boom();
        if self.letter == other.letter { Ok(self) } else { Err((self, other)) }
    }
}
fn bad() -> u32 { BAD.with(|b| b.get()) }
fn alive() -> i32 { COUNT.with(|c| c.borrow().values().sum()) }
fn fuse(n: i64) { FUSE.with(|f| f.set(n)) }
'''
SPECS['p14-cloned-hole']=dict(property='P14',
 needs='a panic while a copy-on-write tree is being joined into (a slice is out of its place), then a clone of that tree, then an insertion into the clone through the same node',
 breaks='the clone copies a slice that was moved away and dropped',
 edits=[('tree/node.rs','''        if this_leaf.has_holes() {
            panic_invalid_state();
        }

        let (parent, idx_in_parent) = match this_leaf.parent() {''','''        let (parent, idx_in_parent) = match this_leaf.parent() {''')],
 demo=TOK+'''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for at in 0..8 {
        for next in 0..8 {
            for first in 0..3 {
                let mut t: RleTree<usize, Tok, AllowCow, 1> = RleTree::new(Tok::new('a'), 2);
                for (i, c) in ['b', 'a', 'b'].into_iter().enumerate() { t.insert(2 * i + 2, Tok::new(c), 2); }
                fuse(first);
                let _ = catch_unwind(AssertUnwindSafe(|| t.insert(at, Tok::new('a'), 1)));
                fuse(-1);
                let mut u = t.clone();
                let _ = catch_unwind(AssertUnwindSafe(|| u.insert(next, Tok::new('b'), 1)));
                let _ = catch_unwind(AssertUnwindSafe(|| { u.iter(..).for_each(|e| e.slice().check()) }));
                drop(t);
                drop(u);
            }
        }
    }
    println!("{} bad", bad());
    if bad() > 0 { std::process::exit(1) }
}
''')
SPECS['p14-up-to-the-second']=dict(property='P14',
 needs='a panic in the second of two joins with both neighbours in one node, when the first succeeded, so that the node has two holes; then the tree is dropped',
 breaks='the slice in the second hole is dropped again',
 edits=[('tree/node.rs','''                        Self::drop_vals(&mut vals[(hx + 1) as usize..hy as usize]);
                        // skip vals[hy]
                        Self::drop_vals(&mut vals[(hy + 1) as usize..]);''','''                        // skip vals[hy], which is next to it
                        Self::drop_vals(&mut vals[(hx + 1) as usize..]);''')],
 demo=TOK+'''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for at in 0..9 {
        for first in 0..3 {
            let mut t: RleTree<usize, Tok, NoFeatures, 2> = RleTree::new(Tok::new('a'), 2);
            for (i, c) in ['b', 'a', 'b'].into_iter().enumerate() { t.insert(2 * i + 2, Tok::new(c), 2); }
            fuse(first);
            let _ = catch_unwind(AssertUnwindSafe(|| t.insert(at, Tok::new('a'), 1)));
            fuse(-1);
            drop(t);
        }
    }
    println!("{} bad", bad());
    if bad() > 0 { std::process::exit(1) }
}
''')
SPECS['p13-leaf-sized']=dict(property='P13',
 needs='an allocator that minds the size it is given back; a tree of at least two levels is dropped',
 breaks='interior nodes are given back to the allocator as if they were leaves',
 edits=[('tree/node.rs','''        unsafe {
            match self.into_typed() {
                Type::Leaf(n) => dealloc_aligned(n.ptr.cast::<Leaf<I, S, P, M>>()),
                Type::Internal(n) => dealloc_aligned(n.ptr.cast::<Internal<I, S, P, M>>()),
            }
        };

        if let Some(ps)''','''        unsafe { dealloc_aligned(self.ptr.cast::<Leaf<I, S, P, M>>()) };

        if let Some(ps)''')],
 demo='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static BYTES: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { BYTES.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let before = BYTES.load(SeqCst);
    let mut t: RleTree<usize, T, NoFeatures, 1> = RleTree::new(T(0), 2);
    for i in 1..20 { t.insert(t.size(), T(i), 2); }
    drop(t);
    let after = BYTES.load(SeqCst);
    if before != after { eprintln!("{} bytes not given back", after - before); std::process::exit(1); }
}
''')
SPECS['p18-at-the-front-of-it']=dict(property='P18',
 needs='an index type whose addition is not commutative; data of several runs is read back',
 breaks='deserializing keeps its own sum of the sizes and adds each on the wrong side, so runs go in at a wrong place or not at all',
 edits=[('serde.rs','''        let mut this = RleTree::new_empty();''','''        let mut this = RleTree::new_empty();
        let mut total = I::ZERO;'''),('serde.rs','''            let idx = this.size();
            this.insert(idx, slice, size);''','''            this.insert(total, slice, size);
            total = total.add_left(size);''')],
 feat=', features = ["serde"]', deps='serde = "1"\nserde_json = "1"',
 demo='''
use serde::{Serialize, Deserialize, Serializer, Deserializer};
impl Serialize for H { fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { (self.0, self.1, self.2).serialize(z) } }
impl<'de> Deserialize<'de> for H { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let (a, b, c) = Deserialize::deserialize(d)?; Ok(H(a, b, c)) } }
impl Serialize for T { fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { self.0.serialize(z) } }
impl<'de> Deserialize<'de> for T { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(T(Deserialize::deserialize(d)?)) } }
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let sizes = [H(1, 0, 0), H(1, 2, 0), H(2, 1, 5), H(1, 3, -2), H(1, 0, 7)];
    let mut t: RleTree<H, T, NoFeatures, 1> = RleTree::new_empty();
    for (i, s) in sizes.iter().enumerate() { t.insert(t.size(), T(i as u32), *s); }
    let text = serde_json::to_string(&t).unwrap();
    let ok = std::panic::catch_unwind(|| {
        let u: RleTree<H, T, NoFeatures, 1> = serde_json::from_str(&text).unwrap();
        let a: Vec<_> = t.iter(..).map(|e| (e.range(), e.size(), e.slice().clone())).collect();
        let b: Vec<_> = u.iter(..).map(|e| (e.range(), e.size(), e.slice().clone())).collect();
        a == b
    });
    if !matches!(ok, Ok(true)) { eprintln!("does not read back"); std::process::exit(1); }
}
''')
SPECS['p18-only-a-hint']=dict(property='P18',
 needs='a deserializer whose size hint is lower than the number of runs',
 breaks='runs beyond the size hint are left out',
 edits=[('serde.rs','''        let mut this = RleTree::new_empty();
        while let Some((size, slice)) = seq.next_element::<(I, S)>()? {''','''        let mut this = RleTree::new_empty();
        // Formats that know the length needn't be asked once more, just to be told that's it
        let mut left = seq.size_hint().unwrap_or(usize::MAX);
        while left != 0 {
            let Some((size, slice)) = seq.next_element::<(I, S)>()? else { break };
            left -= 1;
''')],
 feat=', features = ["serde"]', deps='serde = "1"',
 demo='''
use serde::de::value::{Error, SeqAccessDeserializer};
use serde::{Deserialize, Deserializer, de::IntoDeserializer};
impl<'de> Deserialize<'de> for T { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(T(Deserialize::deserialize(d)?)) } }
struct A(Vec<(u64, u32)>, usize, Option<usize>);
struct Pair(u64, u32, u8);
impl<'de> serde::de::SeqAccess<'de> for Pair {
    type Error = Error;
    fn next_element_seed<X: serde::de::DeserializeSeed<'de>>(&mut self, s: X) -> Result<Option<X::Value>, Error> {
        self.2 += 1;
        match self.2 {
            1 => s.deserialize(self.0.into_deserializer()).map(Some),
            2 => s.deserialize(self.1.into_deserializer()).map(Some),
            _ => Ok(None),
        }
    }
}
impl<'de> serde::de::SeqAccess<'de> for A {
    type Error = Error;
    fn next_element_seed<X: serde::de::DeserializeSeed<'de>>(&mut self, s: X) -> Result<Option<X::Value>, Error> {
        let Some(p) = self.0.get(self.1) else { return Ok(None) };
        self.1 += 1;
        s.deserialize(SeqAccessDeserializer::new(Pair(p.0, p.1, 0))).map(Some)
    }
    fn size_hint(&self) -> Option<usize> { self.2 }
}
fn main() {
    let runs: Vec<(u64, u32)> = (0..7).map(|i| (i as u64 + 1, i)).collect();
    for hint in [None, Some(0), Some(3), Some(7), Some(100)] {
        let t: RleTree<usize, T, NoFeatures, 1> = Deserialize::deserialize(SeqAccessDeserializer::new(A(runs.clone(), 0, hint))).unwrap();
        let got: Vec<(u64, u32)> = t.iter(..).map(|e| (e.size() as u64, e.slice().0)).collect();
        if got != runs { eprintln!("hint {hint:?}: {got:?}"); std::process::exit(1); }
    }
}
''')
SPECS['p22-cow-like-a-box']=dict(property='P22',
 needs='a copy-on-write tree of values that may be sent but not shared',
 breaks='such a tree may be sent to another thread while a clone of it is still read here',
 edits=[('param.rs','impl<I: Send + Sync, S: Send + Sync> RleTreeIsSend<I, S> for AllowCow {}','impl<I: Send, S: Send> RleTreeIsSend<I, S> for AllowCow {}')],
 raw=True,
 demo='''
use sherman::param::*;
use sherman::*;
use std::cell::Cell;
// Implemented by the compiler for each type for which the first holds, by everybody else for the others
struct Probe<T>(std::marker::PhantomData<T>);
trait No { fn send(&self) -> bool { false } }
impl<T> No for &Probe<T> {}
trait Yes { fn send(&self) -> bool { true } }
impl<T: Send> Yes for Probe<T> {}
#[derive(Clone)]
struct V(#[allow(dead_code)] Cell<u32>);
impl Slice<usize> for V { const MAY_JOIN: bool = false; fn split_at(&mut self, _: usize) -> Self { self.clone() } }
fn main() {
    let cow = (&Probe::<RleTree<usize, V, AllowCow>>(std::marker::PhantomData)).send();
    let plain = (&Probe::<RleTree<usize, V, NoFeatures>>(std::marker::PhantomData)).send();
    let refs = (&Probe::<RleTree<usize, V, AllowSliceRefs>>(std::marker::PhantomData)).send();
    println!("{cow} {plain} {refs}");
    if cow || !plain || refs { std::process::exit(1) }
}
''')
SPECS['p07-the-wrong-one-asked']=dict(property='P07',
 needs='an insertion at the very front of the tree, of a slice that joins with the first; joining that depends on the order',
 breaks='the slice behind is asked to join the one in front of it to itself',
 edits=[('tree/insert.rs','''                    match slice.try_join(rhs_slice) {
                        Ok(new) => {
                            rhs.fill_hole(new);
                            break 'single_join (rhs, rhs_size, rhs_size.add_left(slice_size));
                        }
                        Err((s, r)) => {''','''                    match rhs_slice.try_join(slice) {
                        Ok(new) => {
                            rhs.fill_hole(new);
                            break 'single_join (rhs, rhs_size, rhs_size.add_left(slice_size));
                        }
                        Err((r, s)) => {''')],
 demo='''
#[derive(Clone, Debug, PartialEq)]
struct W(String);
impl Slice<usize> for W {
    const MAY_JOIN: bool = true;
    fn split_at(&mut self, i: usize) -> Self { W(self.0.split_off(i)) }
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> { Ok(W(self.0 + &o.0)) }
}
fn main() {
    let mut t: RleTree<usize, W, NoFeatures, 1> = RleTree::new(W("world".into()), 5);
    t.insert(5, W("!".into()), 1);
    t.insert(0, W("hello ".into()), 6);
    let got: String = t.iter(..).map(|e| e.slice().0.clone()).collect();
    if got != "hello world!" { eprintln!("{got}"); std::process::exit(1); }
}
''')
SPECS['p08-behind-instead']=dict(property='P08',
 needs='an index type whose addition is not commutative; an insertion at the very front that joins with the first slice',
 breaks='the size of the joined slice is added up in the wrong order',
 edits=[('tree/insert.rs',"break 'single_join (rhs, rhs_size, rhs_size.add_left(slice_size));","break 'single_join (rhs, rhs_size, rhs_size.add_right(slice_size));")],
 demo='''
#[derive(Clone, Debug, PartialEq)]
struct E;
impl<I> Slice<I> for E {
    const MAY_JOIN: bool = true;
    fn split_at(&mut self, _: I) -> Self { E }
    fn try_join(self, _: Self) -> Result<Self, (Self, Self)> { Ok(E) }
}
fn main() {
    let (a, b) = (H(1, 2, 0), H(2, 1, 3));
    let mut t: RleTree<H, E, NoFeatures, 1> = RleTree::new(E, a);
    t.insert(H::ZERO, E, b);
    let want = a.add_left(b);
    if t.size() != want || t.iter(..).next().unwrap().size() != want { eprintln!("{:?} is not {want:?}", t.size()); std::process::exit(1); }
}
''')
SPECS['p16-count-starts-over']=dict(property='P16',
 needs='several borrows when the tree is dropped; all but one of them end, and the last is read',
 breaks='the tree goes away with the first borrow to end, although others are still in use',
 edits=[('tree/slice_ref.rs','''            BorrowState::Immutable { count, .. } => {
                borrow.set(BorrowState::Immutable { count, drop_if_zero: true });''','''            BorrowState::Immutable { .. } => {
                let count = NonZeroUsize::new(1).unwrap();
                borrow.set(BorrowState::Immutable { count, drop_if_zero: true });''')],
 demo='''
use std::cell::Cell;
thread_local!(static DROPPED: Cell<u32> = Cell::new(0));
struct D;
impl Drop for D { fn drop(&mut self) { DROPPED.with(|d| d.set(d.get() + 1)) } }
impl Slice<usize> for D { const MAY_JOIN: bool = false; fn split_at(&mut self, _: usize) -> Self { D } }
fn main() {
    let mut t: RleTree<usize, D, AllowSliceRefs, 1> = RleTree::new_empty();
    let r = t.insert_ref(0, D, 2);
    let b = r.borrow_slice();
    let c = b.clone();
    drop(t);
    drop(b);
    let d = DROPPED.with(|d| d.get());
    if d != 0 { eprintln!("dropped while borrowed"); std::process::exit(1); }
    drop(c);
    assert_eq!(DROPPED.with(|d| d.get()), 1);
}
''')
SPECS['p17-less-than-nothing']=dict(property='P17',
 needs='an index type with negative values; a tree is made of one slice of negative size',
 breaks='the tree is made instead of being refused',
 edits=[('tree/mod.rs','''        if size <= I::ZERO {
            panic!("cannot add slice with non-positive size {:?}", size);
        }

        let handle''','''        if size == I::ZERO {
            panic!("cannot add slice with non-positive size {:?}", size);
        }

        let handle''')],
 demo='''
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Z(i64);
impl std::ops::Add for Z { type Output = Z; fn add(self, o: Z) -> Z { Z(self.0 + o.0) } }
impl std::ops::Sub for Z { type Output = Z; fn sub(self, o: Z) -> Z { Z(self.0 - o.0) } }
impl Index for Z { const ZERO: Z = Z(0); }
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for n in [0, -1, -100, i64::MIN] {
        if std::panic::catch_unwind(|| { let t: RleTree<Z, T, NoFeatures> = RleTree::new(T(1), Z(n)); std::mem::forget(t) }).is_ok() {
            eprintln!("a slice of size {n} was accepted");
            std::process::exit(1);
        }
    }
}
''')
SPECS['p19-a-shared-end']=dict(property='P19',
 needs='two ranges of which the second ends, including its end, just where the first begins',
 breaks='they are said not to overlap',
 edits=[('range.rs','(StartBound::Included(s), EndBound::Included(e)) if s > e => return false,','(StartBound::Included(s), EndBound::Included(e)) if s >= e => return false,')],
 demo='''
fn main() {
    for (a, b) in [(0..=3, 3..=5), (3..=5, 0..=3), (0..=4, 3..=5), (1..=2, 3..=3)] {
        let want = a.clone().any(|i| (*b.start()..=*b.end()).contains(&i));
        let got = sherman::range::RangeBounds::overlaps_naive(&a, b.clone());
        if want != got { eprintln!("{a:?} and {b:?}: {got}"); std::process::exit(1); }
    }
}
''')
SPECS['p12-nobody-looks-back']=dict(property='P12',
 needs='two threads dropping the last two owners of a node at about the same time, on a machine that reorders, or with a checker of data races',
 breaks='what the other thread did to the slices before dropping its tree need not be visible to the one that frees them',
 edits=[('tree/cow.rs','''            self.load(Ordering::Acquire);
        }''','''            self.load(Ordering::Relaxed);
        }''')],
 sh='''#!/bin/bash
# Builds demo.rs (beside this file) against the working tree it is run in and runs it under Miri, which knows of data races.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUST_BACKTRACE=0 HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
work=$(mktemp -d) || exit 2
trap 'rm -rf -- "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
sherman = { path = "$repo" }
EOF
cd "$work" || exit 2
export CARGO_TARGET_DIR="$work/target" RUSTFLAGS=-Awarnings XDG_CACHE_HOME="$work/cache" MIRIFLAGS=-Zmiri-many-seeds=0..16
timeout 280 cargo +nightly miri run --offline 2>&1 | tail -30
exit ${PIPESTATUS[0]}
''',
 demo='''
fn main() {
    let t: RleTree<usize, T, AllowCow, 1> = RleTree::new(T(7), 2);
    let u = t.clone();
    let a = std::thread::spawn(move || { assert_eq!(t.get(0).slice().0, 7); drop(t); });
    let b = std::thread::spawn(move || { assert_eq!(u.get(0).slice().0, 7); drop(u); });
    a.join().unwrap();
    b.join().unwrap();
}
''')
