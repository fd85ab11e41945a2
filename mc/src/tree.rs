//! Driving real trees: building them from histories, reading them back, comparing with the model,
//! and exploring all reachable shapes.

use crate::model::{hist_text, Model, Offsets, Op};
use crate::values::{cursor_called, Frag, Ix, Run, Seg};
use sherman::param::{NoFeatures, RleTreeConfig, SupportsInsert};
use sherman::{Constant, Cursor, PathComponent, RleTree};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Tree<I, P, const J: bool, const M: usize> = RleTree<I, Seg<J>, P, M>;

// ---------------------------------------------------------------------------------------------
// Cursors
// ---------------------------------------------------------------------------------------------

/// Cursor of unlimited length
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PathVec(pub Vec<PathComponent>);

impl Cursor for PathVec {
    fn new_empty() -> Self {
        cursor_called();
        PathVec(Vec::new())
    }
    fn prepend_to_path(&mut self, c: PathComponent) {
        cursor_called();
        self.0.insert(0, c);
    }
    type PathIter = PathVecIter;
    fn into_path(self) -> PathVecIter {
        cursor_called();
        PathVecIter(self.0.into_iter())
    }
}

pub struct PathVecIter(std::vec::IntoIter<PathComponent>);

impl Iterator for PathVecIter {
    type Item = PathComponent;
    fn next(&mut self) -> Option<PathComponent> {
        cursor_called();
        self.0.next()
    }
}

/// Path components (they cannot be constructed, only taken from cursors of other trees): sorted
/// by number, starting with 0, 1, 2, … as far as obtainable
pub fn components() -> Vec<PathComponent> {
    let mut t: RleTree<usize, Constant<u32>, NoFeatures, 127> = RleTree::new_empty();
    let mut v: Vec<PathComponent> = Vec::new();
    for i in 0..12_000 {
        t.insert(i, Constant(i as u32), 1);
        if i % 50 == 0 {
            let c: PathVec = t.cursor_to(i);
            if let Some(f) = c.0.first() {
                if !v.contains(f) {
                    v.push(*f);
                }
            }
        }
    }
    v.sort_by_key(|c| num(*c));
    v
}

/// Number of a path component, memoised
pub fn num(c: PathComponent) -> u8 {
    thread_local!(static MEMO: std::cell::RefCell<Vec<(PathComponent, u8)>> = const { std::cell::RefCell::new(Vec::new()) });
    MEMO.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(x) = m.iter().find(|x| x.0 == c) {
            return x.1;
        }
        let s = format!("{c:?}");
        let d: String = s.chars().filter(|c| c.is_ascii_digit()).collect();
        let n = d.parse::<u16>().map(|x| x.min(255) as u8).unwrap_or(255);
        m.push((c, n));
        n
    })
}

pub fn nums(p: &PathVec) -> Vec<u8> {
    p.0.iter().map(|c| num(*c)).collect()
}

// ---------------------------------------------------------------------------------------------
// Building and reading
// ---------------------------------------------------------------------------------------------

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".to_string()
    }
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

/// Applies one operation to a tree; the model says what the slice looks like
pub fn insert_op<I, P, const J: bool, const M: usize>(t: &mut Tree<I, P, J, M>, m: &mut Model, op: Op)
where
    I: Ix,
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
{
    let run = m.fresh(op);
    let (idx, size) = (m.index_of::<I>(op.pos), run.measure::<I>());
    t.insert(idx, Seg::new(run.clone()), size);
    m.insert(op.pos, run, J);
}

pub fn build<I, P, const J: bool, const M: usize>(hist: &[Op]) -> (Tree<I, P, J, M>, Model)
where
    I: Ix,
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
{
    let mut t = Tree::new_empty();
    let mut m = Model::new();
    for o in hist {
        insert_op(&mut t, &mut m, *o);
    }
    (t, m)
}

fn short(f: &[Frag]) -> String {
    f.iter().map(|f| format!("{}[{}..{}]", f.id, f.lo, f.hi)).collect::<Vec<_>>().join("+")
}

/// Full comparison through iteration and size queries
pub fn same<I, P, const J: bool, const M: usize>(t: &Tree<I, P, J, M>, m: &Model) -> Result<(), String>
where
    I: Ix,
    P: RleTreeConfig<I, Seg<J>, M>,
{
    let b = m.bounds::<I>();
    if t.size() != b[m.len()] {
        return Err(format!("size is {:?}, expected {:?}", t.size(), b[m.len()]));
    }
    if t.number_of_slices() != m.len() {
        return Err(format!("number of slices is {}, expected {}", t.number_of_slices(), m.len()));
    }
    let mut k = 0;
    for e in t.iter(..) {
        if k >= m.len() {
            return Err(format!("iteration yields more than the expected {} slices", m.len()));
        }
        entry_is(&e.range(), e.size(), e.slice(), m, &b, k)?;
        k += 1;
    }
    if k != m.len() {
        return Err(format!("iteration yields {k} slices, expected {}", m.len()));
    }
    Ok(())
}

pub fn entry_is<I: Ix, const J: bool>(r: &std::ops::Range<I>, size: I, s: &Seg<J>, m: &Model, b: &[I], k: usize) -> Result<(), String> {
    let want: &Run = &m.runs[k];
    let got = s.checked()?;
    if got.frags != want.frags {
        return Err(format!("slice {k} is {}, expected {}", short(&got.frags), short(&want.frags)));
    }
    if r.start != b[k] || r.end != b[k + 1] {
        return Err(format!("slice {k} has range {:?}, expected {:?}..{:?}", r, b[k], b[k + 1]));
    }
    if size != want.measure::<I>() {
        return Err(format!("slice {k} has size {:?}, expected {:?}", size, want.measure::<I>()));
    }
    Ok(())
}

/// Every slice looked up by its first, middle and last index
pub fn same_by_lookup<I, P, const J: bool, const M: usize>(t: &Tree<I, P, J, M>, m: &Model) -> Result<(), String>
where
    I: Ix,
    P: RleTreeConfig<I, Seg<J>, M>,
{
    let b = m.bounds::<I>();
    let st = m.starts();
    for k in 0..m.len() {
        let u = m.runs[k].units();
        for off in [0, u / 2, u - 1] {
            let e = t.get(m.index_of(st[k] + off));
            entry_is(&e.range(), e.size(), e.slice(), m, &b, k).map_err(|e| format!("lookup of {}: {e}", st[k] + off))?;
        }
    }
    Ok(())
}

/// Path of every slice, from the root
pub fn paths<I, P, const J: bool, const M: usize>(t: &Tree<I, P, J, M>, m: &Model) -> Vec<Vec<u8>>
where
    I: Ix,
    P: RleTreeConfig<I, Seg<J>, M>,
{
    m.bounds::<I>()[..m.len()].iter().map(|i| nums(&t.cursor_to::<PathVec>(*i))).collect()
}

/// What a list of paths (one per slice, in order) says about the shape; an error if it does not
/// describe a well-formed B-tree of minimum width `min`
pub fn well_formed(p: &[Vec<u8>], min: usize) -> Result<usize, String> {
    fn node(p: &[Vec<u8>], depth: usize, is_root: bool, min: usize) -> Result<usize, String> {
        // slices of this node have paths of exactly `depth` components
        let mut keys = 0usize;
        let mut height: Option<usize> = None;
        let mut i = 0;
        let mut child = 0usize;
        let mut internal = false;
        while i <= p.len() {
            // child number `child`: the stretch of longer paths starting here
            let s = i;
            while i < p.len() && p[i].len() > depth {
                if p[i][depth] as usize != child {
                    return Err(format!("slice is in child {} of a node where child {child} is due", p[i][depth]));
                }
                i += 1;
            }
            if i > s {
                internal = true;
                let h = node(&p[s..i], depth + 1, false, min)?;
                if *height.get_or_insert(h) != h {
                    return Err("leaves at different depths".into());
                }
            } else if internal {
                return Err(format!("interior node lacks child {child}"));
            }
            if i < p.len() {
                if s == i && height.is_some() {
                    return Err("interior node lacks a child".into());
                }
                keys += 1;
                i += 1;
                child += 1;
            } else {
                break;
            }
        }
        if keys > 2 * min {
            return Err(format!("node with {keys} slices, at most {} allowed", 2 * min));
        }
        if keys < if is_root { 1 } else { min } {
            return Err(format!("node with {keys} slices, at least {} required", if is_root { 1 } else { min }));
        }
        Ok(height.map_or(0, |h| h + 1))
    }
    if p.is_empty() {
        return Ok(0);
    }
    node(p, 0, true, min)
}

// ---------------------------------------------------------------------------------------------
// Exploration of shapes
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy)]
struct St {
    parent: u32,
    op: Op,
    n: u16,
}

/// All shapes a tree of node width `M` can reach with at most `max_n` slices. Two states are
/// merged if every slice sits at the same path: how a tree changes under an operation depends
/// only on that and on where the operation is; sizes and values are carried along.
pub struct Shapes {
    st: Vec<St>,
    pub transitions: u64,
    pub capped: bool,
    /// insertions that could not be carried out while exploring (code under test broken)
    pub broken: u64,
}

/// Size of the slice inserted by operation number `k`: all different, divisible repeatedly
pub fn op_size(k: usize) -> u32 {
    (1 << 20) + (k % 61) as u32
}

impl Shapes {
    pub fn explore<const M: usize>(max_n: usize, max_states: usize) -> Shapes {
        let mut s = Shapes {
            st: vec![St { parent: u32::MAX, op: Op { pos: 0, size: 0, kind: 0 }, n: 0 }],
            transitions: 0,
            capped: false,
            broken: 0,
        };
        let mut seen: HashSet<Vec<u8>> = HashSet::new();
        // On a tree that works, there are few shapes. If insertions go wrong there can be any number:
        // what follows from a state that is already wrong is not explored, and time is limited.
        let mut wrong: HashSet<usize> = HashSet::new();
        let mut next = 0;
        while next < s.st.len() {
            if wrong.contains(&next) {
                next += 1;
                continue;
            }
            if next % 64 == 0 && crate::sup::exploring_too_long() {
                s.capped = true;
                break;
            }
            let hist = s.hist(next);
            let m = Model::of(&hist, true);
            let n = m.len();
            if n < max_n {
                for op in m.ops(op_size(hist.len()), true, Offsets::Mid) {
                    let adds = match (op.kind, m.locate(op.pos).1 != 0) {
                        (0, false) => 1,
                        (0, true) => 2,
                        (_, false) => 0,
                        (3, true) => 0,
                        (_, true) => 1,
                    };
                    if adds == 0 || n + adds > max_n {
                        continue;
                    }
                    crate::shm::begin("explore", &op.vals());
                    s.transitions += 1;
                    let r = guarded(|| {
                        let (mut t, mut mm) = build::<usize, NoFeatures, true, M>(&hist);
                        insert_op(&mut t, &mut mm, op);
                        (t, mm)
                    });
                    let Ok((t, mm)) = r else {
                        s.broken += 1;
                        continue;
                    };
                    let sig = guarded(|| {
                        let mut sig = Vec::new();
                        for p in paths(&t, &mm) {
                            sig.extend_from_slice(&p);
                            sig.push(0xFF);
                        }
                        sig
                    });
                    // if even cursors cannot be had, all one can tell states apart by is the count
                    let sig = sig.unwrap_or_else(|_| vec![0xEE, mm.len() as u8]);
                    if seen.insert(sig) {
                        let fine = matches!(guarded(|| same(&t, &mm)), Ok(Ok(())));
                        if s.st.len() >= max_states || (!fine && wrong.len() >= 200) {
                            s.capped = true;
                        } else {
                            if !fine {
                                wrong.insert(s.st.len());
                            }
                            s.st.push(St { parent: next as u32, op, n: mm.len() as u16 });
                        }
                    }
                    let _ = guarded(move || drop(t));
                }
            }
            next += 1;
        }
        crate::shm::end();
        s
    }
    pub fn len(&self) -> usize {
        self.st.len()
    }
    pub fn slices(&self, i: usize) -> usize {
        self.st[i].n as usize
    }
    pub fn hist(&self, i: usize) -> Vec<Op> {
        let mut v = Vec::new();
        let mut k = i;
        while self.st[k].parent != u32::MAX {
            v.push(self.st[k].op);
            k = self.st[k].parent as usize;
        }
        v.reverse();
        v
    }
    pub fn texts(&self) -> Vec<String> {
        (0..self.len()).map(|i| hist_text(&self.hist(i))).collect()
    }
}


// ---------------------------------------------------------------------------------------------
// Iteration
// ---------------------------------------------------------------------------------------------

use sherman::range::{EndBound, StartBound};

/// Bound kinds as numbers, for probes: start 0 unbounded, 1 included; end 0 unbounded, 1 excluded, 2 included
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Rng {
    pub sk: u8,
    pub s: u32,
    pub ek: u8,
    pub e: u32,
}

impl Rng {
    pub fn vals(&self) -> [i64; 4] {
        [self.sk as i64, self.s as i64, self.ek as i64, self.e as i64]
    }
    pub fn bounds<I>(&self, s: I, e: I) -> (StartBound<I>, EndBound<I>) {
        (
            if self.sk == 0 { StartBound::Unbounded } else { StartBound::Included(s) },
            match self.ek {
                0 => EndBound::Unbounded,
                1 => EndBound::Excluded(e),
                _ => EndBound::Included(e),
            },
        )
    }
    /// `None`: must be refused. Otherwise the first and one-past-last slice overlapping the range
    pub fn expect(&self, starts: &[u32]) -> Option<(usize, usize)> {
        let size = *starts.last().unwrap();
        let lo = if self.sk == 0 { 0 } else { self.s };
        let hi = match self.ek {
            0 => size,
            1 => self.e,
            _ => self.e + 1,
        };
        if self.sk == 1 && self.ek == 1 && self.s >= self.e || self.sk == 1 && self.ek == 2 && self.s > self.e {
            return None;
        }
        if self.sk == 1 && self.s >= size || hi > size {
            return None;
        }
        if lo >= hi {
            return Some((0, 0));
        }
        let at = |p: u32| (0..starts.len() - 1).find(|&k| starts[k] <= p && p < starts[k + 1]).unwrap();
        Some((at(lo), at(hi - 1) + 1))
    }
}

/// Steps: bit k of `mask` set means step k is from the back; `len` steps in total
pub fn iterate<I, P, C, const J: bool, const M: usize>(
    it: &mut sherman::Iter<'_, C, I, Seg<J>, P, M>,
    m: &Model,
    b: &[I],
    (mut lo, mut hi): (usize, usize),
    len: usize,
    mask: &dyn Fn(usize) -> bool,
) -> Result<(), String>
where
    I: Ix,
    P: RleTreeConfig<I, Seg<J>, M>,
    C: Cursor,
{
    for k in 0..len {
        let back = mask(k);
        let e = if back { it.next_back() } else { it.next() };
        let side = if back { "back" } else { "front" };
        match e {
            None => {
                if lo < hi {
                    return Err(format!("step {k} from the {side}: nothing, expected slice {}", if back { hi - 1 } else { lo }));
                }
            }
            Some(e) => {
                if lo >= hi {
                    return Err(format!("step {k} from the {side}: {:?} although all slices of the range were yielded", e.range()));
                }
                let w = if back {
                    hi -= 1;
                    hi
                } else {
                    lo += 1;
                    lo - 1
                };
                entry_is(&e.range(), e.size(), e.slice(), m, b, w).map_err(|x| format!("step {k} from the {side}: {x}"))?;
            }
        }
    }
    Ok(())
}
