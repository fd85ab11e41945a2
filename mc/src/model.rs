//! Reference model: a plain vector of runs. And the operations, textual histories included.

use crate::values::{Ix, Run};

/// Join flags of an insertion
pub const PLAIN: u8 = 0;
pub const JL: u8 = 1;
pub const JR: u8 = 2;

/// Insertion of a fresh slice of `size` units at unit position `pos`, made to join with what is
/// to its left (`JL`) and/or right (`JR`)
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Op {
    pub pos: u32,
    pub size: u32,
    pub kind: u8,
}

impl Op {
    pub fn text(&self) -> String {
        format!("{}:{}:{}", self.pos, self.size, self.kind)
    }
    pub fn parse(s: &str) -> Op {
        let mut it = s.split(':').map(|x| x.parse::<u32>().expect("bad operation in history"));
        let (p, z, k) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
        Op { pos: p, size: z, kind: k as u8 }
    }
    pub fn vals(&self) -> [i64; 3] {
        [self.pos as i64, self.size as i64, self.kind as i64]
    }
    pub fn from_vals(v: &[i64]) -> Op {
        Op { pos: v[0] as u32, size: v[1] as u32, kind: v[2] as u8 }
    }
}

pub fn hist_text(h: &[Op]) -> String {
    h.iter().map(|o| o.text()).collect::<Vec<_>>().join(" ")
}
/// A history: operations, and `aN`, `pN`, `mN` for N plain insertions at the end, at the start, and
/// at the boundary in the middle
pub fn parse_hist(s: &str) -> Vec<Op> {
    let mut v: Vec<Op> = Vec::new();
    for w in s.split_whitespace() {
        if w.starts_with(|c: char| c.is_ascii_digit()) {
            v.push(Op::parse(w));
            continue;
        }
        let n: usize = w[1..].parse().expect("bad number in history");
        let mut m = Model::of(&v, true);
        for _ in 0..n {
            let st = m.starts();
            let pos = match &w[..1] {
                "a" => st[m.len()],
                "p" => 0,
                "m" => st[m.len() / 2],
                _ => panic!("bad operation in history"),
            };
            let op = Op { pos, size: crate::tree::op_size(v.len()), kind: PLAIN };
            m.apply(op, true);
            v.push(op);
        }
    }
    v
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Model {
    pub runs: Vec<Run>,
    pub next_id: u32,
}

/// What an insertion did, in the model
#[derive(Clone, Debug)]
pub struct Effect {
    /// index of the run that holds the new slice afterwards
    pub at: usize,
    /// run index that was split, if any
    pub split: Option<usize>,
    /// joined with the left / right part
    pub left: bool,
    pub right: bool,
    /// for each old run: index of the run its first unit is in afterwards
    pub moved: Vec<usize>,
}

impl Model {
    pub fn new() -> Model {
        Model::default()
    }
    pub fn len(&self) -> usize {
        self.runs.len()
    }
    pub fn units(&self) -> u32 {
        self.runs.iter().map(|r| r.units()).sum()
    }
    /// start of every run, and the end, in units
    pub fn starts(&self) -> Vec<u32> {
        let mut v = Vec::with_capacity(self.runs.len() + 1);
        let mut p = 0;
        v.push(0);
        for r in &self.runs {
            p += r.units();
            v.push(p);
        }
        v
    }
    /// the same as index values
    pub fn bounds<I: Ix>(&self) -> Vec<I> {
        let mut v = Vec::with_capacity(self.runs.len() + 1);
        let mut p = I::ZERO;
        v.push(p);
        for r in &self.runs {
            p = p.add_right(r.measure());
            v.push(p);
        }
        v
    }
    /// index value of unit position `pos` (0..=units)
    pub fn index_of<I: Ix>(&self, pos: u32) -> I {
        let mut left = pos;
        let mut p = I::ZERO;
        for r in &self.runs {
            for f in &r.frags {
                let u = f.units();
                if left >= u {
                    p = p.add_right(I::measure(*f));
                    left -= u;
                } else {
                    if left > 0 {
                        let mut g = *f;
                        g.hi = g.lo + left;
                        p = p.add_right(I::measure(g));
                    }
                    return p;
                }
            }
        }
        assert!(left == 0, "position out of range");
        p
    }
    /// run containing unit position `pos`, and the offset in it
    pub fn locate(&self, pos: u32) -> (usize, u32) {
        let mut p = pos;
        for (i, r) in self.runs.iter().enumerate() {
            let u = r.units();
            if p < u {
                return (i, p);
            }
            p -= u;
        }
        (self.runs.len(), p)
    }

    /// The slice an operation inserts in the current state
    pub fn fresh(&self, op: Op) -> Run {
        let mut r = Run::fresh(self.next_id, op.size);
        if op.kind != PLAIN {
            let (i, off) = self.locate(op.pos);
            if off != 0 {
                let g = self.runs[i].glue_at(off);
                if op.kind & JL != 0 {
                    r.lg = g;
                }
                if op.kind & JR != 0 {
                    r.rg = g;
                }
            } else {
                if op.kind & JL != 0 && i > 0 {
                    r.lg = self.runs[i - 1].rg;
                }
                if op.kind & JR != 0 && i < self.runs.len() {
                    r.rg = self.runs[i].lg;
                }
            }
        }
        r
    }

    /// Performs the insertion; `may_join` tells whether the slice type joins at all
    pub fn insert(&mut self, pos: u32, new: Run, may_join: bool) -> Effect {
        self.next_id += 1;
        let n = self.runs.len();
        let (mut i, off) = self.locate(pos);
        let mut split = None;
        if off != 0 {
            let right = self.runs[i].split(off);
            self.runs.insert(i + 1, right);
            split = Some(i);
            i += 1;
        }
        self.runs.insert(i, new);
        // where old run k starts now
        let mut moved: Vec<usize> = (0..n)
            .map(|k| match split {
                Some(s) => if k <= s { k } else { k + 2 },
                None => if k < i { k } else { k + 1 },
            })
            .collect();
        let (mut left, mut right) = (false, false);
        if may_join && i > 0 && self.runs[i - 1].joins(&self.runs[i]) {
            let r = self.runs.remove(i);
            let l = std::mem::replace(&mut self.runs[i - 1], Run { frags: vec![], lg: 0, rg: 0 });
            self.runs[i - 1] = l.join(r);
            for m in moved.iter_mut() {
                if *m >= i {
                    *m -= 1;
                }
            }
            i -= 1;
            left = true;
        }
        if may_join && i + 1 < self.runs.len() && self.runs[i].joins(&self.runs[i + 1]) {
            let r = self.runs.remove(i + 1);
            let l = std::mem::replace(&mut self.runs[i], Run { frags: vec![], lg: 0, rg: 0 });
            self.runs[i] = l.join(r);
            for m in moved.iter_mut() {
                if *m > i {
                    *m -= 1;
                }
            }
            right = true;
        }
        Effect { at: i, split, left, right, moved }
    }

    pub fn apply(&mut self, op: Op, may_join: bool) -> Effect {
        let r = self.fresh(op);
        self.insert(op.pos, r, may_join)
    }

    pub fn of(hist: &[Op], may_join: bool) -> Model {
        let mut m = Model::new();
        for o in hist {
            m.apply(*o, may_join);
        }
        m
    }

    /// Would this insertion have to merge three existing runs into one at a boundary? The code
    /// does not implement that (see known_findings.txt).
    pub fn merges_both(&self, op: Op) -> bool {
        let (i, off) = self.locate(op.pos);
        if off != 0 || i == 0 || i >= self.runs.len() {
            return false;
        }
        let r = self.fresh(op);
        self.runs[i - 1].joins(&r) && r.joins(&self.runs[i])
    }

    /// All insertions worth distinguishing in this state: every boundary (plain, joining left,
    /// joining right) and every run (split at the given offsets; plain, joining left, right, both)
    pub fn ops(&self, size: u32, may_join: bool, offs: Offsets) -> Vec<Op> {
        let st = self.starts();
        let n = self.runs.len();
        let mut v = Vec::new();
        for b in 0..=n {
            v.push(Op { pos: st[b], size, kind: PLAIN });
            if may_join && b > 0 {
                v.push(Op { pos: st[b], size, kind: JL });
            }
            if may_join && b < n {
                v.push(Op { pos: st[b], size, kind: JR });
            }
            if b < n {
                let u = st[b + 1] - st[b];
                for off in offs.of(u) {
                    for k in 0..4u8 {
                        if k == 0 || may_join {
                            v.push(Op { pos: st[b] + off, size, kind: k });
                        }
                    }
                }
            }
        }
        v
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Offsets {
    Mid,
    Ends,
    All,
}

impl Offsets {
    pub fn of(self, u: u32) -> Vec<u32> {
        let mut v = match self {
            Offsets::Mid => vec![u / 2],
            Offsets::Ends => vec![u / 2, 1, u.saturating_sub(1)],
            Offsets::All => (1..u).collect(),
        };
        v.retain(|&o| o > 0 && o < u);
        let mut seen = Vec::new();
        v.retain(|o| if seen.contains(o) { false } else { seen.push(*o); true });
        v
    }
}
