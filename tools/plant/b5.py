COMMON='''#![allow(warnings)]
use sherman::param::*;
use sherman::*;
use std::cell::RefCell;
thread_local! { static GONE: RefCell<Vec<bool>> = const { RefCell::new(Vec::new()) }; }
/// knows whether it is still there
struct W { id: usize, name: String }
impl W {
    fn new(s: &str) -> W { GONE.with(|g| { g.borrow_mut().push(false); W { id: g.borrow().len() - 1, name: s.to_string() } }) }
}
impl Drop for W { fn drop(&mut self) { GONE.with(|g| g.borrow_mut()[self.id] = true) } }
fn gone(id: usize) -> bool { GONE.with(|g| g.borrow()[id]) }
impl Slice<usize> for W {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: usize) -> W { W::new(&self.name) }
}
'''
NIGHTLY='''#!/bin/bash
# Builds demo.rs (beside this file) against the working tree it is run in, with the feature
# `nightly`. @WHAT@
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
work=$(mktemp -d) || exit 2
trap 'rm -rf -- "$work"' EXIT
rustc --edition 2021 --crate-type rlib --crate-name sherman -Awarnings --cfg 'feature="nightly"' -o "$work/libsherman.rlib" "$repo/src/lib.rs" >"$work/log" 2>&1 || { tail -30 "$work/log" >&2; exit 2; }
rustc --edition 2021 --crate-name demo -Awarnings --extern sherman="$work/libsherman.rlib" -o "$work/demo" "$here/demo.rs" >"$work/log" 2>&1 || { tail -30 "$work/log" >&2; exit @BF@; }
timeout 100 "$work/demo"
'''
SPECS={
'p23-mapped-too-long': dict(property='P23',
 needs='a closure given to Borrow::map that keeps the reference it is called with',
 breaks='Borrow::map hands its closure a reference that lives as long as the SliceRef is borrowed, not just for the call: safe code keeps it, drops the borrow and then the tree, and reads a slice that is gone',
 edits=[('tree/slice_ref.rs','f: impl FnOnce(&T) -> &U) -> Borrow','f: impl FnOnce(&\'a T) -> &\'a U) -> Borrow')],
 raw=True, buildfail=0,
 demo=COMMON+'''
fn main() {
    let mut t: RleTree<usize, W, AllowSliceRefs, 3> = RleTree::new(W::new("one"), 4);
    let r = t.insert_ref(2, W::new("two"), 3);
    let mut kept = None;
    // keeps what it was only lent; the compiler must not have it
    let b = Borrow::map(r.borrow_slice(), |s| { kept = Some(s); &s.id });
    drop(b);
    let id = kept.as_ref().unwrap().id;
    drop(t);
    if gone(id) { println!("a reference to a slice that is gone: {}", kept.is_some()); std::process::exit(1); }
}
'''),
'p23-whatever-lifetime': dict(property='P23',
 needs='a borrow of a slice that outlives the SliceRef it was got from, after the tree is dropped',
 breaks='SliceRef::try_borrow_slice returns a Borrow with a lifetime of the caller\'s choice: once the reference and the tree are gone, the Borrow points to freed memory',
 edits=[('tree/slice_ref.rs','pub fn try_borrow_slice(&self) -> Option<Borrow<S>> {\n        match self.borrow_slice_internal() {','pub fn try_borrow_slice<\'b>(&self) -> Option<Borrow<\'b, S>>\n    where\n        I: \'b,\n    {\n        // SAFETY: the tree stays in place until the last `Borrow` is dropped\n        let this: &\'b Self = unsafe { &*(self as *const Self) };\n        match this.borrow_slice_internal() {')],
 raw=True, buildfail=0,
 demo=COMMON+'''
fn main() {
    let mut t: RleTree<usize, W, AllowSliceRefs, 3> = RleTree::new(W::new("one"), 4);
    let r = t.insert_ref(2, W::new("two"), 3);
    let b = r.try_borrow_slice().unwrap();
    // the compiler must refuse: `b` is used below
    drop(r);
    println!("a borrow without its reference: {}", b.name);
    std::mem::forget(b);
    std::process::exit(1);
}
'''),
'p23-may-dangle-too': dict(property='P23',
 needs='the feature `nightly`, and a Borrow declared before the SliceRef and the tree, so that it is dropped after them',
 breaks='with the feature `nightly`, dropping a Borrow is declared not to need its lifetime, although it goes through the borrow state: safe code drops the Borrow after the store it points to is freed',
 edits=[('tree/slice_ref.rs',"unsafe impl<'a, #[may_dangle] T> Drop for Borrow<'a, T> {","unsafe impl<#[may_dangle] 'a, #[may_dangle] T> Drop for Borrow<'a, T> {")],
 raw=True, sh=NIGHTLY.replace('@WHAT@','The compiler has to refuse it.').replace('@BF@','0'),
 demo=COMMON+'''
fn main() {
    let b;
    let t: RleTree<usize, W, AllowSliceRefs, 3> = RleTree::new(W::new("one"), 4);
    let r = t.get(1).make_ref();
    b = r.borrow_slice();
    println!("a borrow that is dropped after everything else: {}", b.name);
    // without going on to the drops
    std::process::exit(1);
}
'''),
'p23-strict-on-nightly': dict(property='P23',
 needs='the feature `nightly`, and slices (without a destructor of their own) that borrow from data declared after the tree',
 breaks='with the feature `nightly`, the compiler again insists that everything the slices borrow outlives the tree, although dropping the tree does not look at it',
 edits=[('tree/mod.rs',"unsafe impl<#[may_dangle] I, #[may_dangle] S, P, const M: usize> Drop for RleTree<I, S, P, M>","unsafe impl<#[may_dangle] I, S, P, const M: usize> Drop for RleTree<I, S, P, M>")],
 raw=True, sh=NIGHTLY.replace('@WHAT@','The compiler has to accept it.').replace('@BF@','1'),
 demo=COMMON+'''
#[derive(Clone)]
struct K<'a>(&'a str);
impl<'a> Slice<usize> for K<'a> {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: usize) -> Self { self.clone() }
}
fn main() {
    let mut t: RleTree<usize, K<'_>> = RleTree::new_empty();
    let text = String::from("borrowed");
    t.insert(0, K(&text), 3);
    t.insert(1, K(&text[2..]), 3);
    assert_eq!(t.get(1).slice().0, "rrowed");
}
'''),
}
