//! Trees with nodes as wide as they get: two levels, the root full, one leaf full.
//!
//! With the largest node width a root has 255 children; the numbers of slices and children only
//! just fit the bytes they are kept in. Trees that large are compared against a plain vector.

use crate::sup::{Ctx, Tier};
use crate::tree::{nums, well_formed, PathVec};
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures, RleTreeConfig, SupportsInsert};
use sherman::{Constant, PathComponent, RleTree, SliceRef};

pub type W<P, const M: usize> = RleTree<usize, Constant<u32>, P, M>;

/// every slice has this size until it is split
pub const UNIT: usize = 4;

#[derive(Clone, Default)]
pub struct Flat {
    pub v: Vec<(u32, usize)>,
}

/// Where a slice is inserted: before slice `k`, or inside it
#[derive(Clone, Copy)]
pub struct At {
    pub k: usize,
    pub inside: bool,
}

impl Flat {
    pub fn start(&self, k: usize) -> usize {
        self.v[..k].iter().map(|x| x.1).sum()
    }
    pub fn pos(&self, a: At) -> usize {
        self.start(a.k) + if a.inside { self.v[a.k].1 / 2 } else { 0 }
    }
    /// index of the new slice
    pub fn insert(&mut self, a: At, val: u32, size: usize) -> usize {
        if a.inside {
            let (v, s) = self.v[a.k];
            self.v[a.k].1 = s / 2;
            self.v.splice(a.k + 1..a.k + 1, [(val, size), (v, s - s / 2)]);
            a.k + 1
        } else {
            self.v.insert(a.k, (val, size));
            a.k
        }
    }
    /// where slice `k` is after the insertion
    pub fn moved(a: At, k: usize) -> usize {
        match (a.inside, k) {
            (true, k) => if k <= a.k { k } else { k + 2 },
            (false, k) => if k < a.k { k } else { k + 1 },
        }
    }
}

/// The root full (2M slices), every leaf half full, except leaf `c`, which is full too.
pub fn full<P, const M: usize>(c: usize) -> (W<P, M>, Flat)
where
    P: RleTreeConfig<usize, Constant<u32>, M> + SupportsInsert<usize, Constant<u32>, M>,
{
    let (mut t, mut f) = (W::<P, M>::new_empty(), Flat::default());
    // appending leaves every leaf but the last with M slices
    let n = 2 * M * (M + 1) + M;
    for i in 0..n {
        t.insert(i * UNIT, Constant(i as u32), UNIT);
        f.v.push((i as u32, UNIT));
    }
    let first = c * (M + 1);
    for i in 0..M {
        let a = At { k: first + 1, inside: false };
        let val = (n + i) as u32;
        t.insert(f.pos(a), Constant(val), UNIT);
        f.insert(a, val, UNIT);
    }
    (t, f)
}

pub fn path<P, const M: usize>(t: &W<P, M>, idx: usize) -> Vec<u8>
where
    P: RleTreeConfig<usize, Constant<u32>, M>,
{
    nums(&t.cursor_to::<PathVec>(idx))
}

/// Values, ranges and sizes, forwards, backwards and by lookup of the first and last index
pub fn same<P, const M: usize>(t: &W<P, M>, f: &Flat) -> Result<(), String>
where
    P: RleTreeConfig<usize, Constant<u32>, M>,
{
    let total: usize = f.v.iter().map(|x| x.1).sum();
    if t.size() != total || t.number_of_slices() != f.v.len() {
        return Err(format!("size {} with {} slices, expected {total} with {}", t.size(), t.number_of_slices(), f.v.len()));
    }
    let check = |how: &str, k: usize, p: usize, r: std::ops::Range<usize>, size: usize, v: u32| {
        let (want, s) = f.v[k];
        if r != (p..p + s) || size != s || v != want {
            return Err(format!("{how} slice {k} is {v} at {r:?} (size {size}), expected {want} at {:?}", p..p + s));
        }
        Ok(())
    };
    let (mut p, mut k) = (0, 0);
    for e in t.iter(..) {
        if k >= f.v.len() {
            return Err("iteration yields too much".into());
        }
        check("iterating,", k, p, e.range(), e.size(), e.slice().0)?;
        for i in [p, p + f.v[k].1 - 1] {
            let e = t.get(i);
            check("looked up,", k, p, e.range(), e.size(), e.slice().0)?;
        }
        p += f.v[k].1;
        k += 1;
    }
    if k != f.v.len() {
        return Err(format!("iteration yields {k} slices, expected {}", f.v.len()));
    }
    for e in t.iter(..).rev() {
        if k == 0 {
            return Err("iteration backwards yields too much".into());
        }
        k -= 1;
        p -= f.v[k].1;
        check("iterating backwards,", k, p, e.range(), e.size(), e.slice().0)?;
    }
    if k != 0 {
        return Err(format!("iteration backwards leaves out {k} slices"));
    }
    Ok(())
}

/// Equal depth and widths, as cursors tell; and every cursor leads back
pub fn shape<P, const M: usize>(t: &W<P, M>, f: &Flat) -> Result<usize, String>
where
    P: RleTreeConfig<usize, Constant<u32>, M>,
{
    let mut p = 0;
    let mut ps = Vec::with_capacity(f.v.len());
    for (v, s) in &f.v {
        let c: PathVec = t.cursor_to(p);
        ps.push(nums(&c));
        let e = t.get_with_cursor(c, p + s - 1);
        if e.slice().0 != *v || e.range() != (p..p + s) {
            return Err(format!("with its own cursor, {p} is in {:?}", e.range()));
        }
        p += s;
    }
    well_formed(&ps, M)
}

/// Insertions into the full leaf, as (slice in the leaf, inside)
fn spots<const M: usize>(tier: Tier) -> Vec<(usize, bool)> {
    if tier == Tier::Thorough {
        return (0..=4 * M).map(|x| (x / 2, x % 2 == 1)).collect();
    }
    vec![(0, false), (M, false), (2 * M, false), (M - 1, true), (M, true)]
}

/// All children of a full root
pub fn children<const M: usize>(step: usize) -> impl Fn(Tier, &mut Ctx) -> Vec<String> {
    move |tier, _| {
        let step = if tier == Tier::Thorough { 1 } else { step };
        let mut v: Vec<usize> = (0..=2 * M).filter(|c| c % step == 0 || *c + 2 >= 2 * M || (M - 1..=M + 1).contains(c)).collect();
        v.dedup();
        v.into_iter().map(|c| format!("child {c}")).collect()
    }
}

pub fn child(state: &str) -> usize {
    state[6..].parse().expect("child number")
}

/// What is looked at when the root of a wide tree splits
pub trait Look<const M: usize>: RleTreeConfig<usize, Constant<u32>, M> + SupportsInsert<usize, Constant<u32>, M> {
    type Kept;
    fn before(t: &W<Self, M>, f: &Flat) -> Self::Kept;
    fn after(t: &W<Self, M>, f: &Flat, kept: Self::Kept, f0: &Flat, a: At) -> Result<(), String>;
}

impl<const M: usize> Look<M> for NoFeatures {
    type Kept = ();
    fn before(_: &W<Self, M>, _: &Flat) {}
    fn after(_: &W<Self, M>, _: &Flat, _: (), _: &Flat, _: At) -> Result<(), String> {
        Ok(())
    }
}

/// another tree sharing every node
impl<const M: usize> Look<M> for AllowCow {
    type Kept = W<AllowCow, M>;
    fn before(t: &W<Self, M>, _: &Flat) -> Self::Kept {
        t.clone()
    }
    fn after(t: &W<Self, M>, f: &Flat, kept: Self::Kept, f0: &Flat, a: At) -> Result<(), String> {
        same(&kept, f0).map_err(|e| format!("the tree it was cloned from: {e}"))?;
        let mut kept = kept;
        let mut f0 = f0.clone();
        kept.insert(f0.pos(a), Constant(u32::MAX - 1), UNIT);
        f0.insert(a, u32::MAX - 1, UNIT);
        same(t, f)?;
        same(&kept, &f0).map_err(|e| format!("the tree it was cloned from, changed: {e}"))
    }
}

/// references to every slice
impl<const M: usize> Look<M> for AllowSliceRefs {
    type Kept = Vec<SliceRef<usize, Constant<u32>, M>>;
    fn before(t: &W<Self, M>, _: &Flat) -> Self::Kept {
        t.iter(..).map(|e| e.make_ref()).collect()
    }
    fn after(_: &W<Self, M>, f: &Flat, kept: Self::Kept, f0: &Flat, a: At) -> Result<(), String> {
        let mut starts = vec![0];
        for (_, s) in &f.v {
            starts.push(starts.last().unwrap() + s);
        }
        for (k, r) in kept.iter().enumerate() {
            let n = Flat::moved(a, k);
            let want = starts[n]..starts[n + 1];
            if !r.is_valid() || r.range() != want || r.try_range() != Some(want.clone()) || r.borrow_slice().0 != f0.v[k].0 {
                return Err(format!("reference to slice {k} is at {:?} (valid: {}), expected {want:?}", r.try_range(), r.is_valid()));
            }
        }
        Ok(())
    }
}

/// Splits the root by an insertion into child `c`; `look` gets the tree, what it should hold, the
/// path the insertion returned and where the new slice is
pub fn split_root<P: Look<M>, const M: usize>(ctx: &mut Ctx, state: &str, look: &dyn Fn(&W<P, M>, &Flat, Vec<u8>, usize) -> Result<(), String>) {
    let c = child(state);
    for (k, inside) in spots::<M>(ctx.tier) {
        if inside && k >= 2 * M {
            continue;
        }
        ctx.probe("split", &[c as i64, k as i64, inside as i64], || {
            let (mut t, mut f) = full::<P, M>(c);
            let a = At { k: c * (M + 1) + k, inside };
            let kept = P::before(&t, &f);
            let f0 = f.clone();
            let pos = f.pos(a);
            let cursor = t.insert_with_cursor(PathVec(vec![]), pos, Constant(u32::MAX), UNIT + 1);
            let at = f.insert(a, u32::MAX, UNIT + 1);
            look(&t, &f, nums(&cursor), f.start(at))?;
            P::after(&t, &f, kept, &f0, a)
        });
        ctx.trace();
        ctx.outcome((c, k, inside));
    }
}

/// Hints for a tree with a full root: lookups and insertions into child `c` with hints into every
/// child (lookups) or the neighbouring, first and last ones (insertions)
pub fn hints<const M: usize>(ctx: &mut Ctx, state: &str, comps: &[PathComponent]) {
    let c = child(state);
    let Some((t, f)) = ctx.base(|| full::<NoFeatures, M>(c)) else { return };
    let first = c * (M + 1);
    let n = if c == 2 * M { 2 * M } else { 2 * M + 1 };
    let ks = [first, first + 1, first + M, first + 2 * M - 1, first + n - 1];
    for (x, comp) in comps.iter().enumerate() {
        ctx.probe("get", &[c as i64, x as i64], || {
            for k in ks {
                let p = f.start(k);
                for h in [vec![*comp], vec![*comp; 3], vec![*comp, comps[M]]] {
                    let e = t.get_with_cursor(PathVec(h.clone()), p + UNIT - 1);
                    if e.range() != (p..p + UNIT) || e.slice().0 != f.v[k].0 {
                        return Err(format!("with hint {:?}: {:?}", nums(&PathVec(h)), e.range()));
                    }
                    let mut it = t.iter_with_cursor(PathVec(h.clone()), p..(p + UNIT + 1).min(t.size()));
                    if it.next().map(|e| e.range()) != Some(p..p + UNIT) {
                        return Err(format!("iterating from {p} with hint {:?} starts elsewhere", nums(&PathVec(h))));
                    }
                }
            }
            Ok(())
        });
        ctx.trace();
    }
    drop(t);
    let close = |x: usize| x == 0 || x + 2 >= comps.len() || x.abs_diff(c) <= 1;
    for (k, inside) in [(0, false), (M, true), (2 * M, false)] {
        let a = At { k: first + k, inside };
        let Some(want) = ctx.base(|| {
            let (mut t, f) = full::<NoFeatures, M>(c);
            nums(&t.insert_with_cursor(PathVec(vec![]), f.pos(a), Constant(u32::MAX), UNIT + 1))
        }) else {
            return;
        };
        for x in (0..comps.len()).filter(|x| close(*x)) {
            for y in [0, M, 2 * M] {
                ctx.probe("insert", &[c as i64, k as i64, x as i64, y as i64], || {
                    let (mut t, mut f) = full::<NoFeatures, M>(c);
                    let got = t.insert_with_cursor(PathVec(vec![comps[x], comps[y]]), f.pos(a), Constant(u32::MAX), UNIT + 1);
                    f.insert(a, u32::MAX, UNIT + 1);
                    if nums(&got) != want {
                        return Err(format!("with the hint [{x}, {y}] the insertion returns the path {:?}, without {want:?}", nums(&got)));
                    }
                    same(&t, &f)
                });
                ctx.trace();
            }
        }
    }
    ctx.outcome(c);
}

/// All path components there can be: 0 to 254
pub fn components() -> Vec<PathComponent> {
    let (t, f) = full::<NoFeatures, 127>(0);
    let mut v: Vec<PathComponent> = vec![];
    let mut p = 0;
    for (_, s) in &f.v {
        if let Some(c) = t.cursor_to::<PathVec>(p).0.first() {
            if !v.contains(c) {
                v.push(*c);
            }
        }
        p += s;
    }
    v
}
