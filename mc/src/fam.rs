//! Families of trees: sequences of clones, insertions and drops.

use crate::model::{Model, Offsets, Op, PLAIN};
use crate::sup::Ctx;
use crate::tree::*;
use crate::values::*;
use sherman::param::{RleTreeConfig, SupportsInsert};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Fork(u8),
    Ins(u8, Op),
    Drop(u8),
}

impl Act {
    pub fn text(a: &[Act]) -> Vec<i64> {
        let mut v = vec![];
        for a in a {
            match a {
                Act::Fork(s) => v.extend([1 + 10 * *s as i64, 0]),
                Act::Drop(s) => v.extend([2 + 10 * *s as i64, 0]),
                Act::Ins(s, o) => v.extend([3 + 10 * *s as i64 + 100 * o.kind as i64, o.pos as i64]),
            }
        }
        v
    }
}

/// What may be done at one step of a sequence
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    Fork,
    Drop,
    /// every insertion: boundaries and middles, with every pattern of joins
    InsAll,
    /// plain insertions at boundaries and middles
    InsPlain,
    /// plain insertions at the boundaries
    InsEdge,
    /// any of Fork, Drop, InsPlain
    Any,
}

pub const SLOTS: usize = 3;

pub type Models = [Option<Model>; SLOTS];

pub fn choices(ms: &Models, step: Step, size: u32, join: bool) -> Vec<Act> {
    let alive: Vec<u8> = (0..SLOTS as u8).filter(|s| ms[*s as usize].is_some()).collect();
    let mut v = vec![];
    if matches!(step, Step::Fork | Step::Any) && alive.len() < SLOTS {
        v.extend(alive.iter().map(|s| Act::Fork(*s)));
    }
    if matches!(step, Step::Drop | Step::Any) && alive.len() > 1 {
        v.extend(alive.iter().map(|s| Act::Drop(*s)));
    }
    if !matches!(step, Step::Fork | Step::Drop) {
        for s in alive {
            let m = ms[s as usize].as_ref().unwrap();
            for o in m.ops(size, join && step == Step::InsAll, Offsets::Mid) {
                if step == Step::InsEdge && m.locate(o.pos).1 != 0 {
                    continue;
                }
                if join && o.kind != PLAIN && m.merges_both(o) {
                    continue;
                }
                v.push(Act::Ins(s, o));
            }
        }
    }
    v
}

pub fn free_slot(ms: &Models) -> usize {
    (0..SLOTS).find(|s| ms[*s].is_none()).unwrap()
}

pub fn act_model(ms: &mut Models, a: Act, join: bool) {
    match a {
        Act::Fork(s) => {
            let mut c = ms[s as usize].clone().unwrap();
            let f = free_slot(ms);
            // slices inserted into different trees shall be different
            c.next_id = c.next_id % 1000 + 1000 * (f as u32 + 1 + c.next_id / 1000 * 4);
            ms[f] = Some(c);
        }
        Act::Ins(s, o) => {
            ms[s as usize].as_mut().unwrap().apply(o, join);
        }
        Act::Drop(s) => ms[s as usize] = None,
    }
}

/// Calls `f` with every sequence of actions following the plan
pub fn sequences_of(m: &Model, plan: &[Step], size: u32, join: bool, f: &mut dyn FnMut(&[Act], &Models)) {
    fn go(ms: &Models, acts: &mut Vec<Act>, plan: &[Step], size: u32, join: bool, f: &mut dyn FnMut(&[Act], &Models)) {
        let Some((step, rest)) = plan.split_first() else {
            return f(acts, ms);
        };
        for a in choices(ms, *step, size, join) {
            let mut ms2 = ms.clone();
            act_model(&mut ms2, a, join);
            acts.push(a);
            go(&ms2, acts, rest, size + 1, join, f);
            acts.pop();
        }
    }
    let mut ms: Models = Default::default();
    ms[0] = Some(m.clone());
    go(&ms, &mut vec![], plan, size, join, f)
}

pub struct Fam<I: Ix, P, const J: bool, const M: usize>
where
    P: RleTreeConfig<I, Seg<J>, M>,
{
    pub t: [Option<Tree<I, P, J, M>>; SLOTS],
    pub m: Models,
}

impl<I: Ix, P, const J: bool, const M: usize> Fam<I, P, J, M>
where
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
    Tree<I, P, J, M>: Clone,
{
    pub fn start(hist: &[Op]) -> Self {
        let (t, m) = build::<I, P, J, M>(hist);
        let mut f = Fam { t: [None, None, None], m: Default::default() };
        f.t[0] = Some(t);
        f.m[0] = Some(m);
        f
    }
    pub fn act(&mut self, a: Act) {
        match a {
            Act::Fork(s) => {
                let c = self.t[s as usize].as_ref().unwrap().clone();
                let f = free_slot(&self.m);
                self.t[f] = Some(c);
                act_model(&mut self.m, a, J);
            }
            Act::Ins(s, o) => {
                insert_op(self.t[s as usize].as_mut().unwrap(), self.m[s as usize].as_mut().unwrap(), o);
            }
            Act::Drop(s) => {
                self.t[s as usize] = None;
                self.m[s as usize] = None;
            }
        }
    }
    pub fn each(&self) -> impl Iterator<Item = (usize, &Tree<I, P, J, M>, &Model)> {
        (0..SLOTS).filter_map(|s| Some((s, self.t[s].as_ref()?, self.m[s].as_ref()?)))
    }
    /// every tree read forwards, backwards, from both ends and by lookup
    pub fn read_all(&self) -> Result<(), String> {
        for (s, t, m) in self.each() {
            let w = |e: String| format!("tree {s}: {e}");
            same(t, m).map_err(w)?;
            same_by_lookup(t, m).map_err(w)?;
            let b = m.bounds::<I>();
            iterate(&mut t.iter(..), m, &b, (0, m.len()), m.len() + 1, &|_| true).map_err(w)?;
            iterate(&mut t.iter(..), m, &b, (0, m.len()), m.len() + 1, &|k| k % 3 == 1).map_err(w)?;
        }
        Ok(())
    }
}

/// Runs every sequence of the plan on real trees
pub fn run_plan<I: Ix, P, const J: bool, const M: usize>(
    ctx: &mut Ctx,
    tag: &str,
    hist: &[Op],
    m: &Model,
    plan: &[Step],
    mut f: impl FnMut(&mut Fam<I, P, J, M>, &[Act]) -> Result<(), String>,
) where
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
    Tree<I, P, J, M>: Clone,
{
    sequences_of(m, plan, op_size(hist.len()), J, &mut |acts, _| {
        ctx.probe(tag, &Act::text(acts), || {
            let mut fam = Fam::<I, P, J, M>::start(hist);
            f(&mut fam, acts)
        });
        ctx.trace();
    })
}

// ---------------------------------------------------------------------------------------------
// Something happens to other trees in the middle of an insertion
// ---------------------------------------------------------------------------------------------

use sherman::param::AllowCow;
use std::cell::RefCell;
use std::rc::Rc;

/// Trees other than the one being changed
pub type Others<I, const J: bool, const M: usize> = Vec<(Tree<I, AllowCow, J, M>, Model)>;

/// What user code called in the middle of an insertion does to the other trees
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum React {
    Drop,
    DropAll,
    Fork,
    InsFront,
    InsMid,
    InsEnd,
    Read,
    ForkInsDrop,
}
pub const REACTS: [React; 8] = [React::Drop, React::DropAll, React::Fork, React::InsFront, React::InsMid, React::InsEnd, React::Read, React::ForkInsDrop];

fn react<I: Ix, const J: bool, const M: usize>(r: React, o: &mut Others<I, J, M>) -> Result<(), String> {
    let ins = |x: &mut (Tree<I, AllowCow, J, M>, Model), pos: u32| {
        insert_op(&mut x.0, &mut x.1, Op { pos, size: 1 << 19, kind: PLAIN });
    };
    match r {
        React::Drop => drop(o.remove(0)),
        React::DropAll => o.clear(),
        React::Fork => {
            let mut c = (o[0].0.clone(), o[0].1.clone());
            c.1.next_id += 5000;
            o.push(c);
        }
        React::InsFront => ins(&mut o[0], 0),
        React::InsMid => {
            let at = o[0].1.units() / 2;
            ins(&mut o[0], at)
        }
        React::InsEnd => {
            let at = o[0].1.units();
            ins(&mut o[0], at)
        }
        React::Read => {
            for (t, m) in o.iter() {
                same(t, m)?;
                same_by_lookup(t, m)?;
            }
        }
        React::ForkInsDrop => {
            let mut c = (o[0].0.clone(), o[0].1.clone());
            c.1.next_id += 5000;
            let at = c.1.units() / 2;
            ins(&mut c, at);
            o.push(c);
            drop(o.remove(0));
        }
    }
    Ok(())
}

/// For every insertion into a tree that shares nodes with one or two others, every call made into
/// user code in the course of it, and everything that code may do to the others: do it, and then
/// compare all trees, and `after` the insertion whatever else.
pub fn reentrant<I: Ix, const J: bool, const M: usize>(
    ctx: &mut Ctx,
    hist: &[Op],
    m: &Model,
    kinds: u32,
    after: &dyn Fn(&Tree<I, AllowCow, J, M>, &Others<I, J, M>, i64) -> Result<(), String>,
) {
    let ops = m.ops(op_size(hist.len()), J, Offsets::Mid);
    // how the others came about: one fresh clone; a clone with a change in front; two clones
    for before in 0..3u8 {
        for op in &ops {
            if J && m.merges_both(*op) {
                continue;
            }
            let mut n = 1u64;
            let mut k = 0u64;
            while k < n {
                k += 1;
                for (ri, r) in REACTS.iter().enumerate() {
                    if *r == React::DropAll && before != 2 {
                        continue;
                    }
                    let v = op.vals();
                    let mut calls = 0;
                    ctx.probe("in the middle", &[before as i64, v[0], v[1], v[2], k as i64, ri as i64], || {
                        let base = ledger().alive;
                        let (mut t, mut m) = build::<I, AllowCow, J, M>(hist);
                        let mut o: Others<I, J, M> = vec![];
                        for i in 0..if before == 2 { 2 } else { 1 } {
                            let mut m2 = m.clone();
                            m2.next_id += 1000 * (i + 1);
                            o.push((t.clone(), m2));
                        }
                        if before == 1 {
                            react(React::InsFront, &mut o)?;
                        }
                        let o = Rc::new(RefCell::new(o));
                        let said = Rc::new(RefCell::new(Ok(())));
                        let (o2, said2) = (o.clone(), said.clone());
                        let r = *r;
                        cb_hook(kinds, k, Box::new(move || *said2.borrow_mut() = react(r, &mut o2.borrow_mut())));
                        insert_op(&mut t, &mut m, *op);
                        calls = cb_disarm().0;
                        let said = said.replace(Ok(()));
                        said.map_err(|e| format!("in the middle: {e}"))?;
                        let mut o = o.borrow_mut();
                        let all = |what: &str| {
                            same(&t, &m).map_err(|e| format!("{what}, the tree: {e}"))?;
                            same_by_lookup(&t, &m).map_err(|e| format!("{what}, the tree: {e}"))?;
                            for (i, (t, m)) in o.iter().enumerate() {
                                same(t, m).map_err(|e| format!("{what}, other tree {i}: {e}"))?;
                                same_by_lookup(t, m).map_err(|e| format!("{what}, other tree {i}: {e}"))?;
                            }
                            ledger_error()
                        };
                        all("afterwards")?;
                        after(&t, &o, base)?;
                        drop(t);
                        for (i, (t, m)) in o.iter().enumerate() {
                            same(t, m).map_err(|e| format!("with the tree gone, other tree {i}: {e}"))?;
                        }
                        o.clear();
                        if ledger().alive != base {
                            return Err(format!("{} slices were never released", ledger().alive - base));
                        }
                        Ok(())
                    });
                    ctx.trace();
                    n = n.max(calls);
                }
            }
            ctx.add("calls into user code interrupted", n);
        }
    }
}
