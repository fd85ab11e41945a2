SPECS={}
SPECS['p02-uneven-split']=dict(property='P02',
 needs='node width M >= 2, a leaf holding 2M-1 slices, and an insertion into the middle of its slice number M-1, so that two slices are added at M',
 breaks='the new right-hand leaf is left with M-1 slices, one fewer than the minimum',
 edits=[('tree/insert.rs','Some(_) if node.leaf().len() == node.leaf().max_len() => {\n                    (m_u8 - 1, Err(Side::Left))','Some(_) if node.leaf().len() + 1 >= node.leaf().max_len() => {\n                    (m_u8 - 1, Err(Side::Left))')],
 demo='''
fn main() {
    // 2M - 1 slices in one leaf, and an insertion in the middle of each of them
    for at in 0..3 {
        let mut t: RleTree<usize, R, NoFeatures, 2> = RleTree::new(R('a'), 2);
        t.insert(2, R('b'), 2);
        t.insert(4, R('c'), 2);
        t.insert(at * 2 + 1, R('x'), 1);
        let paths: Vec<_> = t.iter(..).map(|e| e.cursor::<Path>().nums()).collect();
        let h = paths.iter().map(|p| p.len()).max().unwrap();
        for leaf in paths.iter().filter(|p| p.len() == h) {
            let n = paths.iter().filter(|p| *p == leaf).count();
            assert!(h == 0 || n >= 2, "a leaf with {n} slices after an insertion in slice {at}: {paths:?}");
        }
    }
}
''')
SPECS['p01-first-child-size']=dict(property='P01',
 needs='a full interior node splitting because its child number M+1 split, with the split child changed in size',
 breaks='the positions in the right-hand half of the split interior node are computed from the already changed size of its first child',
 edits=[('tree/insert.rs','if new_key_idx == M as u8 || new_key_idx == M as u8 + 1 {\n                self.old_size','if new_key_idx == M as u8 || (M == 1 && new_key_idx == M as u8 + 1) {\n                self.old_size')],
 demo='''
fn run<const M: usize>(seed: u64) {
    let mut r = Rng(seed);
    let mut t: RleTree<usize, T, NoFeatures, M> = RleTree::new(T(0), 5);
    let mut l = vec![(5, T(0))];
    for i in 1..150 {
        let at = r.below(t.size() + 1);
        let n = 1 + r.below(4);
        t.insert(at, T(i), n);
        list_insert(&mut l, at, T(i), n);
        same(&t, &l);
    }
}
fn main() {
    for s in 1..8 {
        run::<1>(s * 7919);
        run::<2>(s * 7919);
        run::<3>(s * 7919);
    }
}
''')
SPECS['p06-left-of-the-middle']=dict(property='P06',
 needs='an insertion that splits a leaf and then a full interior node at its middle child, the new slice ending up in the left half',
 breaks='the cursor returned by the insertion names the wrong child of the split interior node',
 edits=[('tree/insert.rs','Side::Left => M as u8,','Side::Left => M as u8 - (M > 1) as u8,')],
 demo='''
fn run<const M: usize>(seed: u64) {
    let mut r = Rng(seed);
    let mut t: RleTree<usize, T, NoFeatures, M> = RleTree::new(T(0), 5);
    for i in 1..200 {
        let at = r.below(t.size() + 1);
        let c = t.insert_with_cursor(Path::new_empty(), at, T(i), 2);
        let want: Path = t.get(at).cursor();
        assert_eq!(t.get(at).slice(), &T(i));
        assert_eq!(c.nums(), want.nums(), "insertion {i} at {at}");
    }
}
fn main() {
    for s in 1..8 {
        run::<1>(s * 7919);
        run::<2>(s * 7919);
        run::<3>(s * 7919);
    }
}
''')
SPECS['p15-update-order']=dict(property='P15',
 needs='width 1, slice references, and insert_ref into the middle of a slice in an interior node whose right-hand leaf holds one slice',
 breaks='the reference returned by the insertion denotes another slice',
 edits=[('tree/insert.rs','''                TraverseUpdate::Move {
                    old_ptr: node.ptr(), old_range: 0..1,
                    new_ptr: rhs.node.ptr(), new_height: rhs.node.height(), new_range: 0..1,
                },
                TraverseUpdate::Insertion { ptr: node.ptr(), height: node.height(), idx: 0 },
            ]);''','''                TraverseUpdate::Insertion { ptr: node.ptr(), height: node.height(), idx: 0 },
                TraverseUpdate::Move {
                    old_ptr: node.ptr(), old_range: 0..1,
                    new_ptr: rhs.node.ptr(), new_height: rhs.node.height(), new_range: 0..1,
                },
            ]);''')],
 demo='''
fn main() {
    for n in 2..12usize {
        for at in 0..n {
            for middle in [false, true] {
                let mut t: RleTree<usize, T, AllowSliceRefs, 1> = RleTree::new(T(0), 3);
                for i in 1..n {
                    t.insert(3 * i, T(i as u32), 3);
                }
                let idx = 3 * at + middle as usize;
                let r = t.insert_ref(idx, T(99), 2);
                assert_eq!(*r.borrow_slice(), T(99), "{n} slices, insertion at {idx}");
                assert_eq!(r.range(), idx..idx + 2);
            }
        }
    }
}
''')
SPECS['p10-stale-child-number']=dict(property='P10',
 needs='two copy-on-write trees sharing a node whose own parent was later changed in one of the trees so that the shared child moved to another position, then iteration over several nodes of the other tree',
 breaks='iteration follows the child number recorded in the shared node and skips or repeats slices',
 edits=[('tree/iter.rs','match child.leaf().parent().map(|p| (p.ptr, p.idx_in_parent)) {\n                            Some(pair) if pair != (parent.ptr(), c_idx) => {\n                                self.stack.push((parent.erase_type(), c_idx))\n','match child.leaf().parent().map(|p| p.ptr) {\n                            Some(ptr) if ptr != parent.ptr() => {\n                                self.stack.push((parent.erase_type(), c_idx))\n')],
 demo='''
fn main() {
    // every pair of histories on two trees that start as clones
    for n in 4..14usize {
        for a in 0..=n {
            for b in 0..=n {
                let mut t: RleTree<usize, T, AllowCow, 2> = RleTree::new(T(0), 2);
                let mut l = vec![(2, T(0))];
                for i in 1..n {
                    t.insert(2 * i, T(i as u32), 2);
                    list_insert(&mut l, 2 * i, T(i as u32), 2);
                }
                let mut u = t.clone();
                let mut m = l.clone();
                for k in 0..4 {
                    t.insert(2 * a, T(100 + k), 1);
                    list_insert(&mut l, 2 * a, T(100 + k), 1);
                    u.insert(2 * b, T(200 + k), 1);
                    list_insert(&mut m, 2 * b, T(200 + k), 1);
                    same(&t, &l);
                    same(&u, &m);
                }
            }
        }
    }
}
''')
