MIRI='''#!/bin/bash
# Runs demo.rs (beside this file) in the Miri interpreter, against the working tree it is run in.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUST_BACKTRACE=0 HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTUP_TOOLCHAIN
work=$(mktemp -d) || exit 2
trap 'rm -rf -- "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
sherman = { path = "$repo" }
[profile.dev]
debug-assertions = false
EOF
cd "$work" || exit 2
export CARGO_TARGET_DIR="$work/target" RUSTFLAGS=-Awarnings MIRIFLAGS="-Zmiri-strict-provenance -Zmiri-symbolic-alignment-check -Zmiri-ignore-leaks"
timeout 250 cargo +nightly miri run -q --offline >"$work/log" 2>&1
code=$?
grep -v '^ *|' "$work/log" | grep -A3 '^error\\|^demo' | head -20
[ $code = 0 ] && exit 0
grep -q 'Undefined Behavior' "$work/log" && exit 1
tail -40 "$work/log" >&2
exit 2
'''
PRE='''#![forbid(unsafe_code)]
use sherman::param::*;
use sherman::*;
#[derive(Clone, Debug, PartialEq)]
struct T(String);
impl<I> Slice<I> for T {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: I) -> Self { self.clone() }
}
'''
LIAR='''
use std::cell::Cell;
use std::cmp::Ordering;
thread_local! { static LIES: Cell<u32> = const { Cell::new(u32::MAX) }; }
/// An index whose subtraction, or comparison, is wrong once
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Ix(u32);
fn lie() -> bool {
    let n = LIES.get();
    LIES.set(n.wrapping_sub(1));
    n == 0
}
impl std::ops::Add for Ix { type Output = Ix; fn add(self, o: Ix) -> Ix { Ix(self.0.wrapping_add(o.0)) } }
impl std::ops::Sub for Ix { type Output = Ix; fn sub(self, o: Ix) -> Ix { if lie() { Ix(0) } else { Ix(self.0.wrapping_sub(o.0)) } } }
impl PartialOrd for Ix { fn partial_cmp(&self, o: &Ix) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Ix { fn cmp(&self, o: &Ix) -> Ordering { if lie() { o.0.cmp(&self.0) } else { self.0.cmp(&o.0) } } }
impl Index for Ix { const ZERO: Ix = Ix(0); }
'''
SPECS={
'p24-read-before-asking': dict(property='P24', raw=True, sh=MIRI,
 needs='a node without a parent whose parent is asked for, e.g. going up from the root',
 breaks='the number of a node in its parent is read before knowing whether there is a parent: for the root it is not initialised',
 edits=[('tree/node.rs','''        Some(Parent {
            ptr: self.parent?,
            // SAFETY: As described in the "safety" section of the docs for `idx_in_parent`, the
            // field is initialized when `parent` is not `None`. We just got `ptr` out of it, so we
            // now know `idx_in_parent` is initialized.
            idx_in_parent: unsafe { self.idx_in_parent.assume_init() },
        })
''','''        // SAFETY: As described in the "safety" section of the docs for `idx_in_parent`, the
        // field is initialized when `parent` is not `None`.
        let idx_in_parent = unsafe { self.idx_in_parent.assume_init() };
        self.parent.map(|ptr| Parent { ptr, idx_in_parent })
''')],
 demo=PRE+'''
fn main() {
    let mut t: RleTree<usize, T, AllowSliceRefs, 2> = RleTree::new_empty();
    for k in 0..9 { t.insert(0, T(k.to_string()), 2); }
    let r = t.get(7).make_ref();
    assert_eq!(r.range(), 6..8);
}
'''),
'p24-only-the-leaf-of-it': dict(property='P24', raw=True, sh=MIRI,
 needs='a tree that has just grown a new root, and an operation that goes up from one of the two nodes below it to its other children',
 breaks='the nodes below a new root get a pointer to it that was made from a reference to only the first part of it: using it for the children is out of its bounds',
 edits=[('tree/node.rs','''        let parent_ptr = new_internal.cast::<AbstractNode<I, S, P, M>>();
        // SAFETY: the unique access required by `borrow_mut` is guaranteed by the caller, and the
''','''        // SAFETY: we just allocated it, so there aren't any other references
        let parent_ptr: NonNull<AbstractNode<I, S, P, M>> =
            unsafe { NonNull::from(&mut (*new_internal.as_ptr()).leaf).cast() };
        // SAFETY: the unique access required by `borrow_mut` is guaranteed by the caller, and the
''')],
 demo=PRE+'''
fn main() {
    let mut t: RleTree<usize, T, AllowSliceRefs, 2> = RleTree::new_empty();
    for k in 0..5 { t.insert(0, T(k.to_string()), 2); }
    let r = t.get(7).make_ref();
    t.insert(0, T("new".into()), 2);
    assert_eq!(r.range(), 8..10);
}
'''),
'p24-a-line-is-enough': dict(property='P24', raw=True, sh=MIRI,
 needs='slices aligned to more than a cache line',
 breaks='nodes are allocated at the alignment of a cache line even if the slices in them need more',
 edits=[('tree/node.rs','''    let layout = Layout::new::<T>()
        .align_to(CACHE_LINE_SIZE)
        .unwrap_or_else(|_| panic!("allocation would overflow `usize::MAX`"));
''','''    let layout = Layout::from_size_align(mem::size_of::<T>(), CACHE_LINE_SIZE)
        .unwrap_or_else(|_| panic!("allocation would overflow `usize::MAX`"));
'''),('tree/node.rs','''    let layout = Layout::new::<T>()
        .align_to(CACHE_LINE_SIZE)
        // SAFETY: the''','''    let layout = Layout::from_size_align(mem::size_of::<T>(), CACHE_LINE_SIZE)
        // SAFETY: the''')],
 demo=PRE+'''
#[derive(Clone)]
#[repr(align(256))]
struct Page(u8);
impl Slice<usize> for Page {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: usize) -> Self { self.clone() }
}
fn main() {
    let mut t: RleTree<usize, Page, NoFeatures, 2> = RleTree::new_empty();
    for k in 0..9 { t.insert(0, Page(k), 2); }
    assert_eq!(t.iter(..).map(|e| e.slice().0 as usize).sum::<usize>(), 36);
}
'''),
'p24-cannot-happen': dict(property='P24', raw=True, sh=MIRI,
 needs='a build without debug assertions, iteration, and an index type whose comparison is wrong once: the search says that the place is in a child of a node without children',
 breaks='iteration assumes, as an optimisation hint, that a search never finds a child in a leaf; with a wrong `Index` that is undefined behaviour instead of a panic',
 edits=[('tree/iter.rs','''                        // Error resulting from our failure or a bad `Index` impl
                        Type::Leaf(_) => panic_internal_error_or_bad_index::<I>(),
                        Type::Internal(n) => n,
''','''                        // SAFETY: `search_step` only returns children for internal nodes
                        Type::Leaf(_) => unsafe { weak_unreachable!() },
                        Type::Internal(n) => n,
''')],
 demo=PRE+LIAR+'''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for k in 0..12 {
        let mut t: RleTree<Ix, T, NoFeatures, 3> = RleTree::new_empty();
        for k in 0..3 { t.insert(Ix(0), T(k.to_string()), Ix(2)); }
        LIES.set(k);
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let n = t.iter(Ix(1)..).take(9).map(|e| e.slice().0.len()).sum::<usize>();
            println!("demo: {n}");
        }));
        LIES.set(u32::MAX);
    }
}
'''),
'p24-first-of-the-row': dict(property='P24', raw=True, sh=MIRI,
 needs='a tree of at least two levels, iteration from the back up to an excluded bound, and an index type whose subtraction is wrong once, so that the bound falls on the first key of a leaf',
 breaks='iteration takes the key before the first one of a node: an access far outside of the node',
 edits=[('tree/iter.rs','''                                if k_idx == 0 {
                                    panic_internal_error_or_bad_index::<I>();
                                }

                                // SAFETY: key indexes returned from `search_step` are guaranteed
                                // to be in bounds; we checked above that `k_idx != 0`, so
                                // subtracting one won't overflow: `k_idx - 1` is still in bounds.
                                let lhs_k_pos = unsafe { n.leaf().key_pos(k_idx - 1) };
                                ChildOrKey::Key((k_idx - 1, lhs_k_pos))
''','''                                // SAFETY: key indexes returned from `search_step` are guaranteed
                                // to be in bounds. The bound isn't at the start of this leaf,
                                // because we'd have stopped at the key to the left of the leaf
                                // otherwise. So `k_idx - 1` is still in bounds.
                                let lhs_k_idx = k_idx.wrapping_sub(1);
                                let lhs_k_pos = unsafe { n.leaf().key_pos(lhs_k_idx) };
                                ChildOrKey::Key((lhs_k_idx, lhs_k_pos))
''')],
 demo=PRE+LIAR+'''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for k in 0..24 {
        let mut t: RleTree<Ix, T, NoFeatures, 2> = RleTree::new_empty();
        for k in 0..7 { t.insert(Ix(0), T(k.to_string()), Ix(2)); }
        LIES.set(k);
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let n = t.iter(..Ix(13)).rev().take(9).map(|e| e.slice().0.len()).sum::<usize>();
            println!("demo: {n}");
        }));
        LIES.set(u32::MAX);
    }
}
'''),
}
