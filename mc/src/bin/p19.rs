//! The range helpers agree with the sets of indexes they denote.
use mc::common::*;
use sherman::range::{EndBound, RangeBounds, StartBound};
use std::fmt::Debug;
use std::ops::Bound;
use std::path::{Path, PathBuf};

trait Visit<T> {
    fn visit<R: RangeBounds<T>>(&mut self, name: &str, r: R) -> Result<(), String>;
}

/// Calls `v` with every way of writing down the range
fn forms<T: Clone, V: Visit<T>>(s: &StartBound<T>, e: &EndBound<T>, v: &mut V) -> Result<(), String> {
    let (sr, er) = match (s, e) {
        (s, e) => (
            match s {
                StartBound::Included(x) => StartBound::Included(x),
                StartBound::Unbounded => StartBound::Unbounded,
            },
            match e {
                EndBound::Included(x) => EndBound::Included(x),
                EndBound::Excluded(x) => EndBound::Excluded(x),
                EndBound::Unbounded => EndBound::Unbounded,
            },
        ),
    };
    v.visit("pair of bounds", (s.clone(), e.clone()))?;
    v.visit("borrowed pair of bounds", &(s.clone(), e.clone()))?;
    v.visit("twice borrowed pair of bounds", &&(s.clone(), e.clone()))?;
    v.visit::<(StartBound<&T>, EndBound<&T>)>("pair of borrowed bounds", (sr, er))?;
    v.visit("cloned pair of bounds", (sr.cloned(), er.cloned()))?;
    match (s, e) {
        (StartBound::Included(a), EndBound::Excluded(b)) => {
            v.visit("Range", a.clone()..b.clone())?;
            v.visit("&Range", &(a.clone()..b.clone()))?;
            v.visit::<std::ops::Range<&T>>("Range of borrowed", a..b)
        }
        (StartBound::Included(a), EndBound::Included(b)) => {
            v.visit("RangeInclusive", a.clone()..=b.clone())?;
            v.visit("&RangeInclusive", &(a.clone()..=b.clone()))?;
            v.visit::<std::ops::RangeInclusive<&T>>("RangeInclusive of borrowed", a..=b)
        }
        (StartBound::Included(a), EndBound::Unbounded) => {
            v.visit("RangeFrom", a.clone()..)?;
            v.visit("&RangeFrom", &(a.clone()..))?;
            v.visit::<std::ops::RangeFrom<&T>>("RangeFrom of borrowed", a..)
        }
        (StartBound::Unbounded, EndBound::Excluded(b)) => {
            v.visit("RangeTo", ..b.clone())?;
            v.visit("&RangeTo", &(..b.clone()))?;
            v.visit::<std::ops::RangeTo<&T>>("RangeTo of borrowed", ..b)
        }
        (StartBound::Unbounded, EndBound::Included(b)) => {
            v.visit("RangeToInclusive", ..=b.clone())?;
            v.visit("&RangeToInclusive", &(..=b.clone()))?;
            v.visit::<std::ops::RangeToInclusive<&T>>("RangeToInclusive of borrowed", ..=b)
        }
        (StartBound::Unbounded, EndBound::Unbounded) => {
            v.visit("RangeFull", ..)?;
            v.visit("&RangeFull", &..)
        }
    }
}

type B<T> = (StartBound<T>, EndBound<T>);

fn bounds_of<T: Clone>(vals: &[T]) -> Vec<B<T>> {
    let mut v = vec![];
    let starts = vals.iter().map(|x| StartBound::Included(x.clone())).chain([StartBound::Unbounded]);
    for s in starts {
        for x in vals {
            v.push((s.clone(), EndBound::Included(x.clone())));
            v.push((s.clone(), EndBound::Excluded(x.clone())));
        }
        v.push((s, EndBound::Unbounded));
    }
    v
}

/// Membership by definition, through the standard library's own bounds
fn member<T: PartialOrd>(b: &B<T>, x: &T) -> bool {
    let s = match &b.0 {
        StartBound::Included(v) => Bound::Included(v),
        StartBound::Unbounded => Bound::Unbounded,
    };
    let e = match &b.1 {
        EndBound::Included(v) => Bound::Included(v),
        EndBound::Excluded(v) => Bound::Excluded(v),
        EndBound::Unbounded => Bound::Unbounded,
    };
    std::ops::RangeBounds::<T>::contains(&(s, e), x)
}

struct One<'a, T> {
    b: &'a B<T>,
    /// values of the type, those outside of all bounds included
    all: &'a [T],
    /// the bounds may be the extreme values of the type
    extreme: bool,
    seen: u64,
}

impl<T: Ord + Clone + Debug> Visit<T> for One<'_, T> {
    fn visit<R: RangeBounds<T>>(&mut self, name: &str, r: R) -> Result<(), String> {
        let b = self.b;
        let set: Vec<&T> = self.all.iter().filter(|x| member(b, x)).collect();
        let (s, e) = (r.start_bound().cloned(), r.end_bound().cloned());
        if (&s, &e) != (&b.0, &b.1) {
            return Err(format!("{name}: bounds are {s:?}, {e:?}"));
        }
        for x in self.all {
            self.seen += 1;
            if r.contains(x) != set.contains(&x) {
                return Err(format!("{name}: contains({x:?}) is {}", r.contains(x)));
            }
        }
        let both = s != StartBound::Unbounded && e != EndBound::Unbounded;
        if r.starts_after_end() != (both && set.is_empty()) {
            return Err(format!("{name}: starts_after_end() is {}", r.starts_after_end()));
        }
        // with an unbounded side next to the extreme value the answer is documented to be naive
        if (both || !self.extreme) && r.is_empty_naive() != set.is_empty() {
            return Err(format!("{name}: is_empty_naive() is {}", r.is_empty_naive()));
        }
        if !both && r.is_empty_naive() {
            return Err(format!("{name}: is_empty_naive() although a side is unbounded"));
        }
        Ok(())
    }
}

struct Pair<'a, T> {
    a: &'a B<T>,
    b: &'a B<T>,
    want: Option<bool>,
    seen: u64,
}
struct Second<'a, T, R> {
    p: &'a mut Pair<'a, T>,
    name: String,
    r: R,
}

impl<'p, T: Ord + Clone + Debug> Visit<T> for Pair<'p, T> {
    fn visit<R: RangeBounds<T>>(&mut self, name: &str, r: R) -> Result<(), String> {
        let mut me = Pair { a: self.a, b: self.b, want: self.want, seen: 0 };
        let b = self.b;
        let mut s = Second { p: unsafe { std::mem::transmute::<&mut Pair<'_, T>, &mut Pair<'_, T>>(&mut me) }, name: name.into(), r };
        let x = forms(&b.0, &b.1, &mut s);
        self.seen += me.seen;
        x
    }
}
impl<T: Ord + Clone + Debug, Q: RangeBounds<T>> Visit<T> for Second<'_, T, Q> {
    fn visit<R: RangeBounds<T>>(&mut self, name: &str, r: R) -> Result<(), String> {
        self.p.seen += 2;
        let ba = r.overlaps_naive::<&Q>(&self.r);
        let ab = self.r.overlaps_naive(r);
        if ab != ba {
            return Err(format!("{}, {name}: overlap is not symmetric", self.name));
        }
        if self.p.want.is_some_and(|w| w != ab) {
            return Err(format!("{}, {name}: overlaps_naive() is {ab}", self.name));
        }
        Ok(())
    }
}

fn run<T: Ord + Clone + Debug>(ctx: &mut Ctx, state: &str, vals: &[T], all: &[T], extreme: bool) {
    let k: usize = state.parse().unwrap();
    let bs = bounds_of(vals);
    let a = &bs[k];
    let seen = std::cell::Cell::new(0);
    ctx.probe("single", &[], || {
        let mut one = One { b: a, all, extreme, seen: 0 };
        let r = forms(&a.0, &a.1, &mut one).map_err(|e| format!("{a:?}: {e}"));
        seen.set(one.seen);
        r
    });
    ctx.add("membership questions", seen.get());
    ctx.trace();
    for (i, b) in bs.iter().enumerate() {
        let overlap = all.iter().any(|x| member(a, x) && member(b, x));
        let shared = a.0 == StartBound::Unbounded && b.0 == StartBound::Unbounded || a.1 == EndBound::Unbounded && b.1 == EndBound::Unbounded;
        let want = if shared && extreme { None } else { Some(overlap) };
        ctx.probe("pair", &[i as i64], || {
            let mut p = Pair { a, b, want, seen: 0 };
            let r = forms(&a.0, &a.1, &mut p).map_err(|e| format!("{a:?} and {b:?}: {e}"));
            seen.set(p.seen);
            r
        });
        ctx.add("overlap questions", seen.get());
        ctx.add("nontrivial", overlap as u64);
        ctx.trace();
        ctx.outcome(&format!("{overlap} {shared} {}", a == b));
    }
}

/// Membership of values of another type, and of values that compare with nothing
fn mixed(ctx: &mut Ctx, state: &str) {
    let k: usize = state.parse().unwrap();
    let words: Vec<PathBuf> = ["b", "bb", "d"].map(PathBuf::from).to_vec();
    let bs = bounds_of(&words);
    if let Some(b) = bs.get(k) {
        struct V<'a>(&'a B<PathBuf>);
        impl Visit<PathBuf> for V<'_> {
            fn visit<R: RangeBounds<PathBuf>>(&mut self, name: &str, r: R) -> Result<(), String> {
                for x in ["", "a", "b", "ba", "bb", "bbb", "c", "d", "e"] {
                    if r.contains(Path::new(x)) != member(self.0, &PathBuf::from(x)) {
                        return Err(format!("{name}: contains({x:?}) is {}", r.contains(Path::new(x))));
                    }
                }
                Ok(())
            }
        }
        ctx.probe("other type", &[], || forms(&b.0, &b.1, &mut V(b)).map_err(|e| format!("{b:?}: {e}")));
        ctx.trace();
    }
    let fs = [f64::NEG_INFINITY, -0.0, 0.0, 1.5, f64::INFINITY, f64::NAN];
    let bs = bounds_of(&fs);
    if let Some(b) = bs.get(k) {
        struct V<'a>(&'a B<f64>, &'a [f64]);
        impl Visit<f64> for V<'_> {
            fn visit<R: RangeBounds<f64>>(&mut self, name: &str, r: R) -> Result<(), String> {
                for x in self.1 {
                    if r.contains(x) != member(self.0, x) {
                        return Err(format!("{name}: contains({x:?}) is {}", r.contains(x)));
                    }
                }
                Ok(())
            }
        }
        ctx.probe("partial order", &[], || forms(&b.0, &b.1, &mut V(b, &fs)).map_err(|e| format!("{b:?}: {e}")));
        ctx.trace();
    }
}

fn nums(n: usize) -> Vec<String> {
    let m = bounds_of(&vec![0u8; n]).len();
    (0..m).map(|x| x.to_string()).collect()
}
/// bounds have something below, between and above them
fn inner(n: i16) -> (Vec<i16>, Vec<i16>) {
    ((0..n).map(|x| 2 * x).collect(), (-1..2 * n).collect())
}

fn main() {
    drive(Check {
        id: "P19",
        level: "model_checking",
        rule: "every pair of ranges with inclusive, exclusive and missing bounds over the listed values, in every way of writing them down (pairs of bounds, standard ranges, of values and of borrowed values, themselves borrowed); nontrivial: the two ranges overlap",
        assumptions: &[
            "the helpers depend on the order of the bounds only, so few values with others below, between and above them stand for all",
            "at the extreme values of a type, questions about ranges with an unbounded side there are documented to be answered naively and are only required to be symmetric",
        ],
        configs: vec![
            Config::new("values inside the type's range", |t, _| nums(t.pick(6, 12)), |c, s| {
                let n = c.tier.pick(6, 12);
                let (v, a) = inner(n);
                run(c, s, &v, &a, false)
            }),
            Config::new("extreme values u8", |_, _| nums(5), |c, s| {
                run(c, s, &[0u8, 1, 128, 254, 255], &(0..=255).collect::<Vec<u8>>(), true)
            }),
            Config::new("extreme values i8", |_, _| nums(5), |c, s| {
                run(c, s, &[-128i8, -127, 0, 126, 127], &(-128..=127).collect::<Vec<i8>>(), true)
            }),
            Config::new("strings", |_, _| nums(3), |c, s| {
                let v = |x: &[&str]| x.iter().map(|x| x.to_string()).collect::<Vec<_>>();
                run(c, s, &v(&["b", "bb", "d"]), &v(&["", "a", "b", "ba", "bb", "bbb", "c", "d", "e"]), false)
            }),
            Config::new("other types and partial orders", |_, _| nums(6), |c, s| mixed(c, s)),
        ],
    })
}
