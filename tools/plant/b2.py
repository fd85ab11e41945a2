SPECS={}
SPECS['p02-thin-right-leaf']=dict(property='P02',
 needs='node width M >= 3, a leaf holding 2M-1 slices, and an insertion strictly inside a slice behind number M, so that two slices are added behind the midpoint',
 breaks='the new right-hand leaf is left with M-1 slices, one fewer than the minimum',
 edits=[('tree/insert.rs','            Ordering::Greater => (m_u8, Ok(Side::Right)),','''            Ordering::Greater => match &snd {
                // with two slices to add there's room to leave one more on the left
                Some(_) if new_key_idx > m_u8 + 1 => (m_u8 + 1, Ok(Side::Right)),
                _ => (m_u8, Ok(Side::Right)),
            },''')],
 demo='''
fn main() {
    for n in 5..7usize {
        for at in 0..n {
            let mut t: RleTree<usize, T, NoFeatures, 3> = RleTree::new(T(0), 2);
            for i in 1..n {
                t.insert(t.size(), T(i as u32), 2);
            }
            t.insert(at * 2 + 1, T(99), 1);
            let paths: Vec<_> = t.iter(..).map(|e| e.cursor::<Path>().nums()).collect();
            let h = paths.iter().map(|p| p.len()).max().unwrap();
            for leaf in paths.iter().filter(|p| p.len() == h) {
                let k = paths.iter().filter(|p| *p == leaf).count();
                assert!(h == 0 || k >= 3, "a leaf with {k} slices after an insertion in slice {at} of {n}: {paths:?}");
            }
        }
    }
}
''')
SPECS['p12-nobody-was-last']=dict(property='P12',
 needs='two threads dropping the last two owners of a tree, both finding the count at two',
 breaks='neither of the two sees itself as the last owner, and the nodes are never freed',
 release=True,
 edits=[('tree/cow.rs','''        let is_now_zero = self.fetch_sub(1, Ordering::Release) == 1;
''','''        // If we're the only owner, there's nobody to race with
        let is_now_zero = self.load(Ordering::Acquire) == 1;
        self.fetch_sub(1, Ordering::Release);
''')],
 demo='''
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};
#[derive(Clone)]
struct S(Arc<()>);
impl Slice<usize> for S {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: usize) -> Self { self.clone() }
}
fn main() {
    let alive = Arc::new(());
    let n = 100_000;
    let turn = Arc::new(AtomicUsize::new(0));
    let (tx, rx) = std::sync::mpsc::channel::<RleTree<usize, S, AllowCow>>();
    let t2 = turn.clone();
    let other = std::thread::spawn(move || {
        for i in 0..n {
            let t = rx.recv().unwrap();
            t2.fetch_add(1, Ordering::SeqCst);
            while t2.load(Ordering::SeqCst) < 2 * (i + 1) {}
            drop(t);
        }
    });
    for i in 0..n {
        let t: RleTree<usize, S, AllowCow> = RleTree::new(S(alive.clone()), 3);
        tx.send(t.clone()).unwrap();
        turn.fetch_add(1, Ordering::SeqCst);
        while turn.load(Ordering::SeqCst) < 2 * (i + 1) {}
        drop(t);
    }
    other.join().unwrap();
    assert_eq!(Arc::strong_count(&alive), 1, "slices were never freed");
}
''')
SPECS['p12-last-owner-missed']=dict(property='P12',
 needs='a thread inserting into a tree while another drops the only other tree sharing the node, between the check that the node is shared and the release of it',
 breaks='the node that was copied is never freed, nor are the slices in it',
 release=True,
 edits=[('tree/node.rs','''    if let Some(dropping_handle) = node.try_drop() {
        dropping_handle.do_drop();
    }
}

/// Helper function to allocate''','''    let _ = node.leaf().strong_count.decrement();
}

/// Helper function to allocate''')],
 demo='''
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};
#[derive(Clone)]
struct S(Arc<()>);
impl Slice<usize> for S {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: usize) -> Self { self.clone() }
}
fn main() {
    let alive = Arc::new(());
    let n = 200_000;
    let turn = Arc::new(AtomicUsize::new(0));
    let (tx, rx) = std::sync::mpsc::channel::<RleTree<usize, S, AllowCow>>();
    let t2 = turn.clone();
    let other = std::thread::spawn(move || {
        for i in 0..n {
            let t = rx.recv().unwrap();
            t2.fetch_add(1, Ordering::SeqCst);
            while t2.load(Ordering::SeqCst) < 2 * (i + 1) {}
            for _ in 0..i % 64 { std::hint::spin_loop(); }
            drop(t);
        }
    });
    for i in 0..n {
        let mut t: RleTree<usize, S, AllowCow> = RleTree::new(S(alive.clone()), 3);
        tx.send(t.clone()).unwrap();
        turn.fetch_add(1, Ordering::SeqCst);
        while turn.load(Ordering::SeqCst) < 2 * (i + 1) {}
        t.insert(0, S(alive.clone()), 1);
        drop(t);
    }
    other.join().unwrap();
    assert_eq!(Arc::strong_count(&alive), 1, "slices were never freed");
}
''')
SPECS['p16-root-of-yesterday']=dict(property='P16',
 needs='a tree with slice references that has grown a new root, dropped while a slice of it is borrowed',
 breaks='the last borrow frees only the part of the tree below its first root: slices leak',
 edits=[('tree/insert.rs','''                r.refs_store.set_root(Some(unsafe { r.handle.clone_root_for_refs_store() }));
''','')],
 demo='''
use std::rc::Rc;
#[derive(Clone)]
struct S(Rc<()>);
impl Slice<usize> for S {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: usize) -> Self { self.clone() }
}
fn main() {
    let alive = Rc::new(());
    let mut t: RleTree<usize, S, AllowSliceRefs, 1> = RleTree::new(S(alive.clone()), 2);
    for _ in 0..10 {
        t.insert(0, S(alive.clone()), 2);
    }
    let r = t.get(0).make_ref();
    let b = r.borrow_slice();
    drop(t);
    assert_eq!(Rc::strong_count(&alive), 12);
    drop(b);
    assert_eq!(Rc::strong_count(&alive), 1, "slices were never freed");
}
''')
SPECS['p08-tail-first']=dict(property='P08',
 needs='an index type whose addition does not commute, and an insertion inside a slice that joins with the right part but not with the left one',
 breaks='the joined slice is given the sum of the two sizes in the wrong order',
 edits=[('tree/insert.rs','''                *tree_len += 1;
                let size = mid_size.add_right(rhs_size);''','''                *tree_len += 1;
                let size = rhs_size.add_right(mid_size);''')],
 demo='''
/// Joins with its like, but only when it is the left one
#[derive(Clone, Debug, PartialEq)]
struct L(bool);
impl<I> Slice<I> for L {
    const MAY_JOIN: bool = true;
    fn split_at(&mut self, _: I) -> Self { self.clone() }
    fn try_join(self, other: Self) -> Result<Self, (Self, Self)> {
        if self.0 { Ok(other) } else { Err((self, other)) }
    }
}
fn main() {
    let (a, b) = (H(2, 1, 0), H(1, 3, 0));
    let mut t: RleTree<H, L> = RleTree::new(L(false), a.mul(b));
    let x = H(5, 1, 7);
    t.insert(a, L(true), x);
    let got: Vec<_> = t.iter(..).map(|e| e.range()).collect();
    assert_eq!(got, [H::ZERO..a, a..a.mul(x).mul(b)]);
    assert_eq!(t.size(), a.mul(x).mul(b));
}
''')
SPECS['p17-asked-too-late']=dict(property='P17',
 needs='an insertion of a slice without size into a tree with slice references that is not empty',
 breaks='the refused insertion leaves the tree marked as being changed: references cannot be used and the next insertion panics',
 edits=[('tree/insert.rs','''        } else if size <= I::ZERO {
            panic!("cannot insert new slice, size {size:?} is not greater than zero");
        }
''','''        }
'''),('tree/insert.rs','''            panic!("{conflict}");
        }
''','''            panic!("{conflict}");
        }

        if size <= I::ZERO {
            panic!("cannot insert new slice, size {size:?} is not greater than zero");
        }
''')],
 demo='''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut t: RleTree<usize, R, AllowSliceRefs, 2> = RleTree::new(R('a'), 5);
    let r = t.insert_ref(2, R('b'), 3);
    let refused = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.insert(4, R('c'), 0)));
    assert!(refused.is_err());
    if !r.can_borrow() || r.range() != (2..5) {
        eprintln!("the reference cannot be used after the refusal");
        std::process::exit(1);
    }
    t.insert(4, R('c'), 1);
    assert_eq!(dump(&t).len(), 5);
}
''')
SPECS['p19-last-and-first']=dict(property='P19',
 needs='a range with an inclusive end, and another that starts at exactly that index',
 breaks='two ranges that share just the one index are said not to overlap, when asked from the right one',
 edits=[('range.rs','(StartBound::Included(s), EndBound::Included(e)) if s > e => return false,','(StartBound::Included(s), EndBound::Included(e)) if s >= e && !self.contains(e) => return false,\n            (StartBound::Included(s), EndBound::Included(e)) if s >= e && matches!(self.end_bound(), EndBound::Excluded(_)) => return false,')],
 demo='''
use sherman::range::RangeBounds;
fn main() {
    for s in 0..4i32 {
        for e in s + 1..5 {
            for x in 0..5 {
                for y in x..5 {
                    let want = (s..e).into_iter().any(|i| x <= i && i <= y);
                    assert_eq!(RangeBounds::overlaps_naive(&(s..e), x..=y), want, "{s}..{e} {x}..={y}");
                    assert_eq!(RangeBounds::overlaps_naive(&(x..=y), s..e), want);
                }
            }
        }
    }
}
''')
SPECS['p05-hint-at-the-edge']=dict(property='P05',
 needs='a hint naming the child that ends exactly where the slice looked up begins',
 breaks='the lookup descends into that child instead of finding the slice behind it',
 edits=[('tree/mod.rs','child_pos <= target && target < next_key_pos {','child_pos <= target && target <= next_key_pos {')],
 demo='''
fn main() {
    let mut t: RleTree<usize, T, NoFeatures, 1> = RleTree::new(T(0), 2);
    for i in 1..60 {
        t.insert(t.size(), T(i), 2);
    }
    for h in 0..t.size() {
        let c: Path = t.cursor_to(h);
        for i in 0..t.size() {
            let (a, b) = (t.get(i), t.get_with_cursor(c.clone(), i));
            assert_eq!((a.range(), a.slice()), (b.range(), b.slice()), "hint to {h}, lookup of {i}");
        }
    }
}
''')
SPECS['p04-one-too-many-at-the-front']=dict(property='P04',
 needs='iterating backwards over a range that starts strictly inside the tree at the border between two slices',
 breaks='the slice that ends where the range starts is yielded too',
 edits=[('tree/iter.rs','if next_end <= self.start {','if next_end < self.start || next_end == I::ZERO {')],
 demo='''
fn main() {
    let mut t: RleTree<usize, T, NoFeatures, 2> = RleTree::new(T(0), 2);
    for i in 1..20 {
        t.insert(t.size(), T(i), 2);
    }
    for a in 0..40 {
        for b in a + 1..=40 {
            let want: Vec<_> = (a / 2..(b + 1) / 2).map(|i| T(i as u32)).collect();
            let mut got: Vec<_> = t.iter(a..b).rev().map(|e| e.slice().clone()).collect();
            got.reverse();
            assert_eq!(got, want, "{a}..{b}");
        }
    }
}
''')
SPECS['p04-inclusive-end']=dict(property='P04',
 needs='iterating forwards over a range with an inclusive end that is the first index of a slice',
 breaks='the slice that starts at the inclusive end is left out',
 edits=[('tree/iter.rs','IncludedOrExcludedBound::Included(i) if i < next_start => {','IncludedOrExcludedBound::Included(i) if i <= next_start && state.bkwd.is_none() => {')],
 demo='''
fn main() {
    let mut t: RleTree<usize, T, NoFeatures, 2> = RleTree::new(T(0), 2);
    for i in 1..20 {
        t.insert(t.size(), T(i), 2);
    }
    for a in 0..40 {
        for b in a..40 {
            let want: Vec<_> = (a / 2..b / 2 + 1).map(|i| T(i as u32)).collect();
            let got: Vec<_> = t.iter(a..=b).map(|e| e.slice().clone()).collect();
            assert_eq!(got, want, "{a}..={b}");
        }
    }
}
''')
SPECS['p09-orphaned-last-child']=dict(property='P09',
 needs='a clone of a tree of height two or more, changed below the last child of one of its nodes',
 breaks='the last child in every cloned node has no parent: changes below it do not reach the positions above',
 edits=[('tree/node.rs','''                    handle.as_mut().with_internal(|internal| {
                        for i in 0..=this_leaf.len {''','''                    handle.as_mut().with_internal(|internal| {
                        for i in 0..this_leaf.len.max(internal.leaf.max_len() - 1) {''')],
 demo='''
fn main() {
    for n in 1..80u32 {
        let mut t: RleTree<usize, T, NoFeatures, 2> = RleTree::new(T(0), 3);
        let mut l = vec![(3, T(0))];
        for i in 1..n {
            let at = t.size() / 2;
            t.insert(at, T(i), 2);
            list_insert(&mut l, at, T(i), 2);
        }
        for at in 0..=t.size() {
            let mut c = t.clone();
            let mut m = l.clone();
            c.insert(at, T(1000), 1);
            list_insert(&mut m, at, T(1000), 1);
            same(&c, &m);
        }
        same(&t, &l);
    }
}
''')
SPECS['p07-one-refusal-is-enough']=dict(property='P07',
 needs='values whose joining is not symmetric, and an insertion inside a slice that joins with the right part only',
 breaks='the right part is not offered the new slice when the left part has refused it',
 edits=[('tree/insert.rs','''        match mid.try_join(rhs) {
            // "nice" case''','''        // If it didn't join with the left part, it won't join with the rest of the same slice
        let mid_with_rhs = match joined_with_lhs || lhs_size < rhs_size {
            true => mid.try_join(rhs),
            false => Err((mid, rhs)),
        };
        match mid_with_rhs {
            // "nice" case''')],
 demo='''
/// Joins with its like, but only when it is the left one
#[derive(Clone, Debug, PartialEq)]
struct L(bool);
impl<I> Slice<I> for L {
    const MAY_JOIN: bool = true;
    fn split_at(&mut self, _: I) -> Self { self.clone() }
    fn try_join(self, other: Self) -> Result<Self, (Self, Self)> {
        if self.0 { Ok(other) } else { Err((self, other)) }
    }
}
fn main() {
    for at in 1..6 {
        let mut t: RleTree<usize, L> = RleTree::new(L(false), 6);
        t.insert(at, L(true), 2);
        assert_eq!(dump(&t), [(0, at, L(false)), (at, 8 - at, L(false))]);
    }
}
''')
SPECS['p15-left-behind']=dict(property='P15',
 needs='a reference to a slice in an interior node, and an insertion that splits the child to the left of it',
 breaks='the references of the slices shifted by the insertion in the interior node keep pointing to the old places',
 edits=[('tree/node.rs','            for i in ki as u8..internal.leaf.len {\n                // SAFETY: we know that getting index `i` is valid from everything above; the\n                // conversion from `&UnsafeCell<_>` to `&_` is sound because we know that no\n                // aliases to the node exist and the reference here is temporary.\n                //\n                // The call','            for i in (ki as u8..internal.leaf.len).filter(|i| *i as usize == ki || ci < k_len) {\n                // SAFETY: we know that getting index `i` is valid from everything above; the\n                // conversion from `&UnsafeCell<_>` to `&_` is sound because we know that no\n                // aliases to the node exist and the reference here is temporary.\n                //\n                // The call')],
 demo='''
fn main() {
    for seed in 1..40 {
        let mut r = Rng(seed * 7919);
        let mut t: RleTree<usize, T, AllowSliceRefs, 2> = RleTree::new(T(0), 3);
        let mut refs = vec![];
        for i in 1..60 {
            let at = r.below(t.size() + 1);
            refs.push((i, t.insert_ref(at, T(i), 1)));
            for (i, f) in &refs {
                assert_eq!(*f.borrow_slice(), T(*i));
                assert_eq!(t.get(f.range().start).slice(), &T(*i));
            }
        }
    }
}
''')
SPECS['p16-clone-forgets']=dict(property='P16',
 needs='a borrow cloned after the tree has been dropped',
 breaks='when the last borrow ends, the tree is not freed',
 edits=[('tree/slice_ref.rs','''            BorrowState::Immutable { mut count, drop_if_zero } => {
                count = count
                    .checked_add(1)
                    .expect("should not have more than usize::MAX immutable borrows");
                self.borrow.set(BorrowState::Immutable { count, drop_if_zero });''','''            BorrowState::Immutable { mut count, .. } => {
                count = count
                    .checked_add(1)
                    .expect("should not have more than usize::MAX immutable borrows");
                self.borrow.set(BorrowState::Immutable { count, drop_if_zero: false });''')],
 demo='''
use std::rc::Rc;
#[derive(Clone)]
struct S(Rc<()>);
impl Slice<usize> for S {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: usize) -> Self { self.clone() }
}
fn main() {
    let alive = Rc::new(());
    let mut t: RleTree<usize, S, AllowSliceRefs, 1> = RleTree::new(S(alive.clone()), 2);
    let r = t.insert_ref(0, S(alive.clone()), 2);
    let b = r.borrow_slice();
    let c = b.clone();
    drop(t);
    let d = c.clone();
    drop((b, c, d));
    assert_eq!(Rc::strong_count(&alive), 1, "slices were never freed");
    assert!(!r.is_valid());
}
''')
SPECS['p06-bounded-forgets-the-top']=dict(property='P06',
 needs='a bounded cursor with room for two components or more, given at least two more than fit',
 breaks='the cursor loses the components nearest to the root it should have kept',
 edits=[('cursor.rs','''            self.path.copy_within(0..LEN - 1, 1);
            self.path[0] = component;''','''            self.path[LEN - 1] = self.path[0];
            self.path[..LEN - 1].rotate_right(1 % LEN.max(2));
            self.path[0] = component;''')],
 demo='''
fn run<const N: usize>(all: &[PathComponent]) {
    for n in 0..=all.len() {
        let mut c = BoundedCursor::<N>::new_empty();
        for x in all[..n].iter().rev() {
            c.prepend_to_path(*x);
        }
        let got: Vec<_> = c.into_path().map(|c| format!("{c:?}")).collect();
        let want: Vec<_> = all[..n].iter().take(N).map(|c| format!("{c:?}")).collect();
        assert_eq!(got, want, "{n} components in a cursor of {N}");
    }
}
fn main() {
    let mut t: RleTree<usize, T, NoFeatures, 1> = RleTree::new(T(0), 1);
    for i in 1..400 {
        t.insert(t.size(), T(i), 1);
    }
    let long = (0..400).map(|i| t.cursor_to::<Path>(i)).max_by_key(|p| p.0.len()).unwrap();
    let all: Vec<_> = long.into_path().collect();
    assert!(all.len() >= 5);
    run::<0>(&all);
    run::<1>(&all);
    run::<2>(&all);
    run::<3>(&all);
    run::<4>(&all);
}
''')
SPECS['p03-below-zero']=dict(property='P03',
 needs='an index type with values below zero, and a lookup of one',
 breaks='the lookup below zero finds the first slice instead of being refused',
 edits=[('tree/mod.rs','''        if idx < I::ZERO {
            panic!("index {idx:?} out of bounds, less than zero");
        } else if idx >= self.size() {
            panic!("index {idx:?} out of bounds for size {:?}", self.size());
        }

        let root = self.root.as_ref().expect("`self.root` should be `Some` if `0 <= idx < size`");

        let mut node''','''        // (there's nothing to find in an empty tree, with any index)
        if self.root.is_none() || idx >= self.size() {
            panic!("index {idx:?} out of bounds for size {:?}", self.size());
        }

        let root = self.root.as_ref().expect("`self.root` should be `Some` if `0 <= idx < size`");

        let mut node''')],
 demo='''
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Z(i64);
impl std::ops::Add for Z { type Output = Z; fn add(self, o: Z) -> Z { Z(self.0 + o.0) } }
impl std::ops::Sub for Z { type Output = Z; fn sub(self, o: Z) -> Z { Z(self.0 - o.0) } }
impl sherman::Index for Z { const ZERO: Z = Z(0); const TRUSTED: bool = false; }
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut t: RleTree<Z, T, NoFeatures, 1> = RleTree::new(T(0), Z(2));
    for i in 1..9 {
        t.insert(t.size(), T(i), Z(2));
    }
    for i in [-1, -2, -30, 18, 19, i64::MIN, i64::MAX] {
        let found = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.get(Z(i)).range()));
        if let Ok(r) = found {
            eprintln!("lookup of {i} found {r:?}");
            std::process::exit(1);
        }
    }
}
''')
SPECS['p10-trusting-the-number']=dict(property='P10',
 needs='copy-on-write trees sharing a child that one of them has moved to another place in its parent',
 breaks='iteration trusts the number of a shared child whenever its parent pointer is right, although it may belong to another tree',
 edits=[('tree/iter.rs','                            Some(pair) if pair != (node.ptr(), c_idx) => {','                            Some(pair) if pair.0 != node.ptr() => {'),
        ('tree/iter.rs','                            Some(pair) if pair != (parent.ptr(), c_idx) => {','                            Some(pair) if pair.0 != parent.ptr() => {',0),
        ('tree/iter.rs','                            Some(pair) if pair != (parent.ptr(), c_idx) => {','                            Some(pair) if pair.0 != parent.ptr() => {',0)],
 demo='''
fn main() {
    for seed in 1..3000 {
        let mut r = Rng(seed * 7919);
        let mut ts: Vec<(RleTree<usize, T, AllowCow, 1>, Vec<(usize, T)>)> = vec![(RleTree::new(T(0), 3), vec![(3, T(0))])];
        for i in 1..40 {
            let k = r.below(ts.len());
            match r.below(4) {
                0 if ts.len() < 4 => { let c = (ts[k].0.clone(), ts[k].1.clone()); ts.push(c); }
                1 if ts.len() > 2 => { ts.remove(k); }
                _ => {
                    let at = r.below(ts[k].0.size() + 1);
                    let (t, l) = &mut ts[k];
                    t.insert(at, T(i), 1);
                    list_insert(l, at, T(i), 1);
                }
            }
            for (t, l) in &ts {
                same(t, l);
                let back: Vec<_> = t.iter(..).rev().map(|e| e.slice().clone()).collect();
                assert!(back.iter().rev().eq(l.iter().map(|x| &x.1)));
            }
        }
    }
}
''')
SPECS['p11-fresh-root']=dict(property='P11',
 needs='an insertion into a copy-on-write tree of height one or more, that shares only nodes away from the insertion',
 breaks='a whole node is copied although it is not on the way to the insertion',
 edits=[('tree/node.rs','''    if node.leaf().strong_count.is_unique() {
        return;
    }

    // SAFETY: `shallow_clone` requires''','''    let unshared_below = height == 0 || {
        // SAFETY: `height != 0` means that it's an internal node, which always has a first child
        let fst = unsafe { ptr.cast::<Internal<I, S, P, M>>().as_ref().child_ptrs.get_unchecked(0).assume_init() };
        unsafe { fst.cast::<Leaf<I, S, P, M>>().as_ref().strong_count.is_unique() }
    };
    if node.leaf().strong_count.is_unique() && (unshared_below || !P::COW) {
        return;
    }

    // SAFETY: `shallow_clone` requires''')],
 demo='''
use std::cell::Cell;
thread_local!(static COPIES: Cell<usize> = Cell::new(0));
#[derive(Debug)]
struct S;
impl Clone for S {
    fn clone(&self) -> Self { COPIES.with(|c| c.set(c.get() + 1)); S }
}
impl Slice<usize> for S {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: usize) -> Self { S }
}
fn main() {
    let mut t: RleTree<usize, S, AllowCow, 1> = RleTree::new(S, 1);
    for _ in 0..40 {
        t.insert(t.size(), S, 1);
    }
    let c = t.clone();
    t.insert(t.size(), S, 1);
    let first = COPIES.with(|c| c.replace(0));
    assert!(first > 0);
    t.insert(t.size(), S, 1);
    assert_eq!(COPIES.with(|c| c.get()), 0, "the path was already this tree's own");
    drop(c);
}
''')
SPECS['p13-middle-of-the-hole']=dict(property='P13',
 needs='the last of 2M+1 children of a full interior node, when the tree is dropped while it is shared with a clone that has a copy of that node',
 breaks='the last child of a copied full node is not counted, and freed too early or never',
 edits=[('tree/node.rs','''            for ptr_uninit in &ps.as_slice()[..child_len] {''','''            for ptr_uninit in &ps.as_slice()[..child_len.min(ps.as_slice().len() - (M > 1) as usize)] {''')],
 demo='''
use std::rc::Rc;
#[derive(Clone)]
struct S(Rc<()>);
impl Slice<usize> for S {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: usize) -> Self { self.clone() }
}
fn main() {
    for n in 1..60 {
        let alive = Rc::new(());
        let mut t: RleTree<usize, S, NoFeatures, 2> = RleTree::new(S(alive.clone()), 2);
        for _ in 1..n {
            t.insert(t.size(), S(alive.clone()), 2);
        }
        drop(t);
        assert_eq!(Rc::strong_count(&alive), 1, "slices of a tree of {n} were never freed");
    }
}
''')
SPECS['p20-lost-the-way']=dict(property='P20',
 needs='a lookup in a large tree with a hint that turns out wrong',
 breaks='a wrong hint makes the lookup walk over all the slices in front of the index',
 edits=[('tree/mod.rs','''            if !hint_was_good {
                cursor_iter = None;
            }

            match search_result {
                ChildOrKey::Key((k_idx, k_start)) => {
                    let slice = unsafe { node.into_slice_handle(k_idx) };
                    let diff''','''            if !hint_was_good {
                // The hint led us astray; start over
                if matches!((search_result, hint), (ChildOrKey::Child(_), Some(_))) {
                    if let Some(e) = self.iter(..).find(|e| idx < e.range().end) {
                        return e;
                    }
                }
                cursor_iter = None;
            }

            match search_result {
                ChildOrKey::Key((k_idx, k_start)) => {
                    let slice = unsafe { node.into_slice_handle(k_idx) };
                    let diff''')],
 demo='''
use std::cell::Cell;
thread_local!(static OPS: Cell<usize> = Cell::new(0));
fn op() { OPS.with(|c| c.set(c.get() + 1)) }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct N(usize);
impl PartialOrd for N { fn partial_cmp(&self, o: &N) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for N { fn cmp(&self, o: &N) -> std::cmp::Ordering { op(); self.0.cmp(&o.0) } }
impl DirectionalAdd for N {
    fn add_right(self, r: N) -> N { op(); N(self.0 + r.0) }
    fn add_left(self, l: N) -> N { op(); N(self.0 + l.0) }
}
impl DirectionalSub for N {
    fn sub_left(self, l: N) -> N { op(); N(self.0 - l.0) }
    fn sub_right(self, r: N) -> N { op(); N(self.0 - r.0) }
}
impl Index for N { const ZERO: N = N(0); }
fn main() {
    let mut t: RleTree<N, T> = RleTree::new(T(0), N(1));
    for i in 1..2000 {
        t.insert(t.size(), T(i), N(1));
    }
    let mut worst = 0;
    for h in [0, 999, 1999] {
        let c: Path = t.cursor_to(N(h));
        for i in (0..2000).step_by(37) {
            OPS.with(|c| c.set(0));
            assert_eq!(t.get_with_cursor(c.clone(), N(i)).slice(), &T(i as u32));
            worst = worst.max(OPS.with(|c| c.get()));
        }
    }
    assert!(worst < 200, "{worst} operations for one lookup");
}
''')
SPECS['p22-entry-on-the-run']=dict(property='P22',
 needs='an index type that may be shared but not sent, and an entry or iterator that carries copies of it to another thread',
 breaks='an entry can be sent to another thread although that moves an index that must stay where it is',
 edits=[('tree/entry.rs',"unsafe impl<'t, I: Send + Sync, S: Sync, P: Sync, const M: usize> Send","unsafe impl<'t, I: Sync, S: Sync, P: Sync, const M: usize> Send")],
 raw=True, buildfail=0,
 demo='''
// This must not compile: the entry carries copies of an index that must not leave its thread.
// (Compiling is the failure; demo.sh takes a failed build as success.)
use sherman::param::*;
use sherman::*;
use std::marker::PhantomData;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Here(i64, PhantomData<std::sync::MutexGuard<'static, ()>>);
'''+'''
impl DirectionalAdd for Here {
    fn add_right(self, r: Here) -> Here { Here(self.0 + r.0, PhantomData) }
    fn add_left(self, l: Here) -> Here { Here(self.0 + l.0, PhantomData) }
}
impl DirectionalSub for Here {
    fn sub_left(self, l: Here) -> Here { Here(self.0 - l.0, PhantomData) }
    fn sub_right(self, r: Here) -> Here { Here(self.0 - r.0, PhantomData) }
}
impl Index for Here { const ZERO: Here = Here(0, PhantomData); }
#[derive(Clone)]
struct V(u8);
impl Slice<Here> for V {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: Here) -> Self { self.clone() }
}
fn main() {
    let t: RleTree<Here, V> = RleTree::new(V(1), Here(5, PhantomData));
    let e = t.get(Here(2, PhantomData));
    std::thread::scope(|s| {
        s.spawn(move || {
            let moved: Here = e.range().start;
            println!("{}", moved.0);
        });
    });
    std::process::exit(1);
}
''')
