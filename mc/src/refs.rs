//! Trees with slice references: the tree, references to its slices and borrows of them, and what
//! they must denote.

use crate::model::{Effect, Model, Op};
use crate::tree::*;
use crate::values::*;
use sherman::param::AllowSliceRefs;
use sherman::{Borrow, RleTree, SliceRef};

pub type RTree<I, const J: bool, const M: usize> = RleTree<I, Seg<J>, AllowSliceRefs, M>;
pub type SRef<I, const J: bool, const M: usize> = SliceRef<I, Seg<J>, M>;

pub enum Held<const J: bool> {
    Slice(Borrow<'static, Seg<J>>),
    Content(Borrow<'static, Run>),
}

pub struct BorrowSlot<const J: bool> {
    pub of: usize,
    pub held: Held<J>,
    pub run: Run,
}

/// References live in boxes that outlive their borrows (the borrow checker enforces that for
/// users; here [`World::can`] does).
pub struct World<I: Ix, const J: bool, const M: usize> {
    pub borrows: Vec<Option<BorrowSlot<J>>>,
    pub refs: Vec<Option<Box<SRef<I, J, M>>>>,
    pub tree: Option<RTree<I, J, M>>,
    pub s: Spec,
}

/// The same without anything real
#[derive(Clone)]
pub struct Spec {
    pub m: Model,
    /// the tree has been dropped by its owner
    pub gone: bool,
    /// which run a reference denotes; outer `None`: no such reference, inner `None`: made invalid
    pub refs: Vec<Option<usize>>,
    /// which reference a borrow came from
    pub borrows: Vec<Option<usize>>,
    /// the contents are gone as well (no borrow was left)
    pub dead: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RAct {
    MakeRef(u8),
    CloneRef(u8),
    DropRef(u8),
    Insert(Op),
    InsertRef(Op),
    DropTree,
    Borrow(u8),
    MapBorrow(u8),
    CloneBorrow(u8),
    DropBorrow(u8),
}
use RAct::*;

impl RAct {
    pub fn text(a: &[RAct]) -> Vec<i64> {
        let mut v = vec![];
        for a in a {
            v.push(match a {
                MakeRef(k) => 1 + 100 * *k as i64,
                CloneRef(k) => 2 + 100 * *k as i64,
                DropRef(k) => 3 + 100 * *k as i64,
                Insert(o) => 4 + 10 * o.kind as i64 + 100 * o.pos as i64,
                InsertRef(o) => 5 + 10 * o.kind as i64 + 100 * o.pos as i64,
                DropTree => 6,
                Borrow(k) => 7 + 100 * *k as i64,
                MapBorrow(k) => 8 + 100 * *k as i64,
                CloneBorrow(k) => 9 + 100 * *k as i64,
                DropBorrow(k) => 0 + 100 * *k as i64,
            });
        }
        v
    }
}

impl Spec {
    pub fn new(m: Model) -> Spec {
        Spec { m, gone: false, refs: vec![], borrows: vec![], dead: false }
    }
    pub fn borrowed(&self) -> bool {
        self.borrows.iter().any(|b| b.is_some())
    }
    /// `None`: no effect because the insertion must be refused
    pub fn step<const J: bool>(&mut self, a: RAct) -> Option<Effect> {
        match a {
            MakeRef(k) => self.refs.push(Some(k as usize)),
            CloneRef(r) => {
                let x = self.refs[r as usize];
                self.refs.push(x)
            }
            DropRef(r) => self.refs[r as usize] = None,
            Insert(o) | InsertRef(o) => {
                if self.borrowed() {
                    return None;
                }
                let e = self.m.apply(o, J);
                for r in self.refs.iter_mut().flatten() {
                    *r = e.moved[*r];
                }
                if let InsertRef(_) = a {
                    self.refs.push(Some(e.at));
                }
                return Some(e);
            }
            DropTree => {
                self.gone = true;
                self.dead = !self.borrowed();
            }
            Borrow(r) => self.borrows.push(Some(r as usize)),
            MapBorrow(_) => {}
            CloneBorrow(b) => {
                let x = self.borrows[b as usize];
                self.borrows.push(x)
            }
            DropBorrow(b) => {
                self.borrows[b as usize] = None;
                self.dead = self.gone && !self.borrowed();
            }
        }
        None
    }
    pub fn live_refs(&self) -> Vec<u8> {
        (0..self.refs.len() as u8).filter(|r| self.refs[*r as usize].is_some()).collect()
    }
    pub fn live_borrows(&self) -> Vec<u8> {
        (0..self.borrows.len() as u8).filter(|r| self.borrows[*r as usize].is_some()).collect()
    }
}

impl<I: Ix, const J: bool, const M: usize> World<I, J, M> {
    pub fn start(hist: &[Op]) -> Self {
        let (t, m) = build::<I, AllowSliceRefs, J, M>(hist);
        World { borrows: vec![], refs: vec![], tree: Some(t), s: Spec::new(m) }
    }
    pub fn with(t: RTree<I, J, M>, m: Model) -> Self {
        World { borrows: vec![], refs: vec![], tree: Some(t), s: Spec::new(m) }
    }
    pub fn act(&mut self, a: RAct) -> Result<(), String> {
        match a {
            MakeRef(k) => {
                let idx = self.s.m.bounds::<I>()[k as usize];
                let r = self.tree.as_ref().unwrap().get(idx).make_ref();
                self.refs.push(Some(Box::new(r)));
            }
            CloneRef(r) => {
                let c = (**self.refs[r as usize].as_ref().unwrap()).clone();
                self.refs.push(Some(Box::new(c)));
            }
            DropRef(r) => self.refs[r as usize] = None,
            Insert(o) | InsertRef(o) => {
                let run = self.s.m.fresh(o);
                let (idx, size) = (self.s.m.index_of::<I>(o.pos), run.measure::<I>());
                let seg = Seg::new(run);
                let t = self.tree.as_mut().unwrap();
                let refused = self.s.borrowed();
                let alive = ledger().alive;
                let before = refused.then(|| paths(t, &self.s.m));
                let r = guarded(|| match a {
                    InsertRef(_) => Some(t.insert_ref(idx, seg, size)),
                    _ => {
                        t.insert(idx, seg, size);
                        None
                    }
                });
                match r {
                    Ok(_) if refused => return Err("insertion was carried out although a slice is borrowed".into()),
                    Ok(Some(r)) => self.refs.push(Some(Box::new(r))),
                    Ok(None) => {}
                    Err(p) if !refused => return Err(format!("unexpected panic: {p}")),
                    Err(_) => {
                        if ledger().alive != alive - 1 {
                            return Err("refused slice was not dropped exactly once".into());
                        }
                        if paths(self.tree.as_ref().unwrap(), &self.s.m) != before.unwrap() {
                            return Err("a refused insertion changed the tree".into());
                        }
                    }
                }
            }
            DropTree => self.tree = None,
            Borrow(r) => {
                let b = self.refs[r as usize].as_ref().unwrap().borrow_slice();
                let run = self.s.m.runs[self.s.refs[r as usize].unwrap()].clone();
                // the box stays where it is for as long as the borrow lives
                let b: Borrow<'static, Seg<J>> = unsafe { std::mem::transmute(b) };
                self.borrows.push(Some(BorrowSlot { of: r as usize, held: Held::Slice(b), run }));
            }
            MapBorrow(b) => {
                let slot = self.borrows[b as usize].take().unwrap();
                let held = match slot.held {
                    Held::Slice(x) => Held::Content(Borrow::map(x, |s| s.run())),
                    Held::Content(x) => Held::Content(Borrow::map(x, |r| r)),
                };
                self.borrows[b as usize] = Some(BorrowSlot { of: slot.of, held, run: slot.run });
            }
            CloneBorrow(b) => {
                let slot = self.borrows[b as usize].as_ref().unwrap();
                let held = match &slot.held {
                    Held::Slice(x) => Held::Slice(x.clone()),
                    Held::Content(x) => Held::Content(x.clone()),
                };
                let new = BorrowSlot { of: slot.of, held, run: slot.run.clone() };
                self.borrows.push(Some(new));
            }
            DropBorrow(b) => self.borrows[b as usize] = None,
        }
        self.s.step::<J>(a);
        Ok(())
    }

    /// Everything that can be asked of tree, references and borrows
    pub fn check(&self) -> Result<(), String> {
        self.check_with(true)
    }

    /// `panics`: also ask what answers by panicking
    pub fn check_with(&self, panics: bool) -> Result<(), String> {
        for (k, b) in self.borrows.iter().enumerate() {
            if let Some(b) = b {
                let got = match &b.held {
                    Held::Slice(s) => s.checked().map_err(|e| format!("borrow {k}: {e}"))?.clone(),
                    Held::Content(r) => (**r).clone(),
                };
                if got != b.run {
                    return Err(format!("borrow {k} reads {:?}, expected {:?}", got.frags, b.run.frags));
                }
            }
        }
        if let Some(t) = &self.tree {
            same(t, &self.s.m)?;
        }
        let b = self.s.m.bounds::<I>();
        let ps = self.tree.as_ref().map(|t| paths(t, &self.s.m));
        for (k, r) in self.refs.iter().enumerate() {
            let (Some(r), Some(at)) = (r, self.s.refs[k]) else { continue };
            self.check_ref(r, at, &b, ps.as_ref(), panics).map_err(|e| format!("reference {k}: {e}"))?;
        }
        ledger_error()
    }

    fn check_ref(&self, r: &SRef<I, J, M>, at: usize, b: &[I], ps: Option<&Vec<Vec<u8>>>, panics: bool) -> Result<(), String> {
        let valid = r.is_valid();
        let can = r.can_borrow();
        let borrowed = r.try_borrow_slice().map(|x| x.checked().map(|r| r.clone()));
        let range = r.try_range();
        let cursor = r.try_cursor::<PathVec>();
        if self.s.dead {
            if valid || can || borrowed.is_some() || range.is_some() || cursor.is_some() {
                return Err("does not answer as invalid although the tree is gone".into());
            }
        } else if !self.s.gone || valid {
            if !valid || !can {
                return Err(format!("is_valid is {valid}, can_borrow is {can}, although the slice is in the tree"));
            }
            match borrowed {
                None => return Err("cannot borrow its slice".into()),
                Some(x) => {
                    let x = x?;
                    if x.frags != self.s.m.runs[at].frags {
                        return Err(format!("denotes slice {:?}, expected slice {at}: {:?}", x.frags, self.s.m.runs[at].frags));
                    }
                }
            }
            let want = b[at]..b[at + 1];
            if range != Some(want.clone()) {
                return Err(format!("range is {range:?}, expected {want:?}"));
            }
            match (cursor, ps) {
                (None, _) => return Err("has no cursor".into()),
                (Some(c), Some(ps)) if nums(&c) != ps[at] => return Err(format!("cursor is {:?}, expected {:?}", nums(&c), ps[at])),
                _ => {}
            }
        } else if borrowed.is_some() || range.is_some() || cursor.is_some() {
            // dropped by its owner while borrowed: may answer either way, but consistently
            return Err("says it is not valid, but can be read".into());
        }
        if !panics {
            return Ok(());
        }
        // the methods that panic agree with those that do not
        let p = guarded(|| r.range());
        if p.is_ok() != valid {
            return Err("range() and is_valid() disagree".into());
        }
        if let Ok(p) = p {
            if p != (b[at]..b[at + 1]) {
                return Err("range() and try_range() disagree".into());
            }
        }
        if guarded(|| r.cursor::<PathVec>()).is_ok() != valid {
            return Err("cursor() and is_valid() disagree".into());
        }
        if guarded(|| drop(r.borrow_slice())).is_ok() != valid {
            return Err("borrow_slice() and is_valid() disagree".into());
        }
        if r.is_valid() != valid || r.can_borrow() != can {
            return Err("asking changed the answer".into());
        }
        Ok(())
    }

    /// Makes a reference to every slice whose bit is set
    pub fn make_refs(&mut self, mask: u64) -> Result<(), String> {
        for k in 0..self.s.m.len() {
            if mask >> (k % 64) & 1 == 1 {
                self.act(MakeRef(k as u8))?;
            }
        }
        Ok(())
    }
}
