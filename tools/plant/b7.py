import re,runpy
MIRI=runpy.run_path('/verif/tools/plant/b6.py')['MIRI']
SPECS={}
SPECS['p13-gone-meanwhile']=dict(property='P13',
 needs="a slice's clone that, called while a shared node is being copied, drops the other tree that shares the node",
 breaks='the node that nobody owns any more is never freed, nor are its slices dropped',
 edits=[('tree/node.rs','''    if let Some(dropping_handle) = node.try_drop() {
        dropping_handle.do_drop();
    }
}

/// Helper''','''    node.leaf().strong_count.decrement();
}

/// Helper''')],
 demo='''
use std::cell::{Cell, RefCell};
thread_local! {
    static LIVE: Cell<i32> = const { Cell::new(0) };
    static OTHER: RefCell<Option<RleTree<usize, N, AllowCow, 2>>> = const { RefCell::new(None) };
}
struct N(u32);
impl N { fn new(n: u32) -> N { LIVE.set(LIVE.get() + 1); N(n) } }
impl Drop for N { fn drop(&mut self) { LIVE.set(LIVE.get() - 1) } }
impl Clone for N {
    fn clone(&self) -> N {
        let o = OTHER.with(|o| o.borrow_mut().take());
        drop(o);
        N::new(self.0)
    }
}
impl Slice<usize> for N {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: usize) -> Self { N::new(self.0) }
}
fn main() {
    for n in 1..12 {
        let mut t: RleTree<usize, N, AllowCow, 2> = RleTree::new_empty();
        for k in 0..n { t.insert(0, N::new(k), 2); }
        let c = t.clone();
        OTHER.with(|o| *o.borrow_mut() = Some(c));
        t.insert(2, N::new(99), 2);
        OTHER.with(|o| o.borrow_mut().take());
        assert_eq!(t.number_of_slices(), n as usize + 1);
        drop(t);
        assert_eq!(LIVE.get(), 0, "after {n}");
    }
}
''')
SPECS['p10-same-parent-same-place']=dict(property='P10',
 needs='a child that was shared while its older siblings made it move within its parent, and that is not shared any more when it is next changed; then a change that goes up from it',
 breaks='the number of the child within its parent is not brought up to date, so that sizes and positions of the wrong children are updated',
 edits=[('tree/node.rs','''                leaf.parent = Some(self.ptr.cast());
                leaf.idx_in_parent.write(child_idx);
''','''                if leaf.parent != Some(self.ptr.cast()) {
                    leaf.parent = Some(self.ptr.cast());
                    leaf.idx_in_parent.write(child_idx);
                }
''')],
 demo='''
fn main() {
    for seed in 1..400u64 {
        let mut rng = Rng(seed * 7919);
        let mut ts: Vec<(RleTree<usize, T, AllowCow, 2>, Vec<(usize, T)>)> = vec![(RleTree::new_empty(), vec![])];
        for k in 0..60 {
            let i = rng.below(ts.len());
            match rng.below(6) {
                0 if ts.len() < 3 => { let c = (ts[i].0.clone(), ts[i].1.clone()); ts.push(c) }
                1 if ts.len() > 1 => { ts.swap_remove(i); }
                _ => {
                    let (t, l) = &mut ts[i];
                    let at = rng.below(t.size() / 2 + 1) * 2;
                    t.insert(at, T(k), 2);
                    list_insert(l, at, T(k), 2);
                    for (t, l) in &ts { same(t, l) }
                }
            }
        }
    }
}
''')
SPECS['p16-a-glance-is-no-borrow']=dict(property='P16',
 needs="an index type whose addition, called while a reference's range is computed, drops the tree",
 breaks='the range is computed by going up through nodes that have been freed',
 edits=[('tree/slice_ref.rs','''        let b = self.try_temporary_borrow()?;
        Ok(b.handle.as_ref().map(|h| h.range()))''','''        let b = self.try_temporary_borrow()?;
        // SAFETY: it's the same handle
        let handle = b.handle.as_ref().map(|h| unsafe {
            SliceHandle::<ty::Unknown, borrow::SliceRef, I, S, AllowSliceRefs, M>::from_raw_parts(
                h.node.ptr(),
                h.node.height(),
                h.idx,
            )
        });
        // the range is a value of its own
        drop(b);
        Ok(handle.map(|h| h.range()))''')],
 raw=True,sh=MIRI,
 demo='''#![forbid(unsafe_code)]
use sherman::param::*;
use sherman::*;
use std::cell::RefCell;
struct N(String);
impl<I> Slice<I> for N {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: I) -> Self { N(self.0.clone()) }
}
thread_local! { static TREE: RefCell<Option<RleTree<Ix, N, AllowSliceRefs, 1>>> = const { RefCell::new(None) };
  static ARMED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Ix(u32);
fn look() {
    if ARMED.get() {
        ARMED.set(false);
        let t = TREE.with(|t| t.borrow_mut().take());
        drop(t);
    }
}
impl std::ops::Add for Ix { type Output = Ix; fn add(self, o: Ix) -> Ix { look(); Ix(self.0 + o.0) } }
impl std::ops::Sub for Ix { type Output = Ix; fn sub(self, o: Ix) -> Ix { look(); Ix(self.0 - o.0) } }
impl Index for Ix { const ZERO: Ix = Ix(0); }
fn main() {
    let mut t: RleTree<Ix, N, AllowSliceRefs, 1> = RleTree::new_empty();
    let mut rs = vec![];
    for k in 0..7 { rs.push(t.insert_ref(Ix(0), N(k.to_string()), Ix(2))); }
    TREE.with(|x| *x.borrow_mut() = Some(t));
    for (k, r) in rs.iter().enumerate() {
        ARMED.set(k == 0);
        let x = r.try_range();
        ARMED.set(false);
        println!("demo: {x:?} {}", r.is_valid());
    }
}
''')
SPECS['p03-half-of-the-sum']=dict(property='P03',
 needs='a node with more than 128 slices (a width of more than 64)',
 breaks='the middle of the part still to be searched overflows: lookups find another slice, or panic',
 edits=[('tree/mod.rs','''    let k_idx = match node.leaf().keys_pos_slice().binary_search(&target) {''','''    let keys = node.leaf().keys_pos_slice();
    let (mut lo, mut hi) = (0_u8, keys.len() as u8);
    let mut found = None;
    while lo < hi && found.is_none() {
        let mid = lo.wrapping_add(hi) / 2;
        match keys[mid as usize].cmp(&target) {
            std::cmp::Ordering::Less if mid < lo => break,
            std::cmp::Ordering::Less => lo = mid + 1,
            std::cmp::Ordering::Equal => found = Some(mid as usize),
            std::cmp::Ordering::Greater => hi = mid,
        }
    }
    let k_idx = match found.ok_or(lo as usize) {''')],
 demo='''
fn main() {
    let mut t: RleTree<usize, T, NoFeatures, 100> = RleTree::new_empty();
    for k in 0..190 { t.insert(2 * k, T(k as u32), 2); }
    for k in 0..190 {
        for i in [2 * k, 2 * k + 1] {
            let e = t.get(i);
            assert_eq!((e.range(), e.slice()), (2 * k..2 * k + 2, &T(k as u32)));
        }
    }
}
''')
