//! Shorthands shared by the checks.

pub use crate::model::*;
pub use crate::sup::{drive, Check, Config, Ctx, Tier};
pub use crate::tree::*;
pub use crate::values::*;
pub use crate::wide;
pub use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures, RleTreeConfig, SupportsInsert};
pub use sherman::range::{EndBound, StartBound};
pub use sherman::{Borrow, BoundedCursor, Constant, Cursor, NoCursor, PathComponent, RleTree, Slice, SliceRef};

/// Base states: every shape a tree of width `M` reaches with at most `q` (`t`) slices
pub fn shapes<const M: usize>(q: usize, t: usize) -> impl Fn(Tier, &mut Ctx) -> Vec<String> {
    move |tier, ctx| {
        let s = Shapes::explore::<M>(tier.pick(q, t), 200_000);
        ctx.add("shape_exploration_transitions", s.transitions);
        if s.capped {
            ctx.add("capped", 1);
        }
        if s.broken > 0 {
            ctx.add("insertions_failing_during_exploration", s.broken);
        }
        s.texts()
    }
}

/// Fixed list of base states
pub fn fixed(list: Vec<String>) -> impl Fn(Tier, &mut Ctx) -> Vec<String> {
    move |_, _| list.clone()
}

/// Nodes as wide as they get, and wide enough for their numbers not to fit seven bits: trees that
/// just fill, or just overflow, one or two of them, filled from the end, the start and the middle
pub fn fills<const M: usize>(two: bool) -> impl Fn(Tier, &mut Ctx) -> Vec<String> {
    move |tier, _| {
        let w = 2 * M;
        let mut n = vec![w, w + 1];
        if tier == Tier::Thorough {
            n.extend([M, w - 1, w + 2]);
        }
        if two {
            n.push(3 * M + 1);
            if tier == Tier::Thorough {
                n.extend([3 * M, 3 * M + 2, 4 * M + 1, 4 * M + 2]);
            }
        }
        n.into_iter().flat_map(|n| ["a", "p", "m"].map(|c| format!("{c}{n}"))).collect()
    }
}

/// All insertion histories of exactly `depth` steps over the given sizes, positions everywhere
pub fn sequences(depth: usize, sizes: &[u32], may_join: bool, offs: Offsets, max_units: u32) -> Vec<String> {
    let mut level: Vec<(Vec<Op>, Model)> = vec![(vec![], Model::new())];
    let mut out = vec![String::new()];
    for _ in 0..depth {
        let mut next = Vec::new();
        for (h, m) in &level {
            for z in sizes {
                for op in m.ops(*z, may_join, offs) {
                    if m.units() + *z > max_units || m.merges_both(op) {
                        continue;
                    }
                    let mut m2 = m.clone();
                    m2.apply(op, may_join);
                    let mut h2 = h.clone();
                    h2.push(op);
                    out.push(hist_text(&h2));
                    next.push((h2, m2));
                }
            }
        }
        level = next;
    }
    out
}
