SPECS={}
SPECS['p03-cheap-and-unchecked']=dict(property='P03',
 needs='cursor_to with an index out of bounds and a cursor type that keeps nothing',
 breaks='the index out of bounds is not refused',
 edits=[('tree/mod.rs','''    pub fn cursor_to<C: Cursor>(&self, idx: I) -> C {
        if idx < I::ZERO {
            panic!("index {idx:?} out of bounds, less than zero");
        } else if idx >= self.size() {
            panic!("index {idx:?} out of bounds for size {:?}", self.size());
        }

        let root = self.root.as_ref().expect("`self.root` should be `Some` if `0 <= idx < size`");

        // Short-circuit for no-op cursors
        if C::IS_NOP {
            return C::new_empty();
        }
''','''    pub fn cursor_to<C: Cursor>(&self, idx: I) -> C {
        // Short-circuit for no-op cursors
        if C::IS_NOP {
            return C::new_empty();
        }

        if idx < I::ZERO {
            panic!("index {idx:?} out of bounds, less than zero");
        } else if idx >= self.size() {
            panic!("index {idx:?} out of bounds for size {:?}", self.size());
        }

        let root = self.root.as_ref().expect("`self.root` should be `Some` if `0 <= idx < size`");
''')],
 demo='''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut t: RleTree<usize, T, NoFeatures, 1> = RleTree::new(T(0), 2);
    for i in 1..9 { t.insert(t.size(), T(i), 2); }
    let refused = |i: usize| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { t.cursor_to::<sherman::NoCursor>(i); })).is_err();
    let kept = |i: usize| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { t.cursor_to::<Path>(i); })).is_err();
    for i in [18, 19, usize::MAX] {
        if !kept(i) || !refused(i) {
            eprintln!("index {i} of a tree of size 18 was accepted");
            std::process::exit(1);
        }
    }
    assert!(!refused(17) && !kept(17));
}
''')
SPECS['p03-the-end-is-in']=dict(property='P03',
 needs='a lookup of the index just at the end of the tree through a leaf-only or interior root, by get_with_cursor after the tree has grown',
 breaks='cursor_to accepts the index just past the end and answers with the way to the last slice',
 edits=[('tree/mod.rs','''        } else if idx >= self.size() {
            panic!("index {idx:?} out of bounds for size {:?}", self.size());
        }

        let root = self.root.as_ref().expect("`self.root` should be `Some` if `0 <= idx < size`");

        // Short-circuit''','''        } else if idx > self.size() || self.root.is_none() {
            panic!("index {idx:?} out of bounds for size {:?}", self.size());
        }

        let root = self.root.as_ref().expect("`self.root` should be `Some` if `0 <= idx < size`");

        // Short-circuit''')],
 demo='''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut t: RleTree<usize, T, NoFeatures, 1> = RleTree::new(T(0), 2);
    for i in 1..9 {
        t.insert(t.size(), T(i), 2);
        for j in [t.size(), t.size() + 1, usize::MAX] {
            let refused = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { t.cursor_to::<Path>(j); })).is_err();
            if !refused {
                eprintln!("index {j} of a tree of size {} was accepted", t.size());
                std::process::exit(1);
            }
        }
    }
}
''')
