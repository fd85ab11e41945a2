#![allow(dead_code, unused_imports)]
use sherman::param::*;
use sherman::*;

/// A cursor that keeps the whole path
#[derive(Clone, Debug, Default)]
struct Path(Vec<PathComponent>);
impl Cursor for Path {
    fn new_empty() -> Self { Path(Vec::new()) }
    fn prepend_to_path(&mut self, c: PathComponent) { self.0.push(c) }
    type PathIter = std::iter::Rev<std::vec::IntoIter<PathComponent>>;
    fn into_path(self) -> Self::PathIter { self.0.into_iter().rev() }
}
impl Path {
    /// child numbers from the root
    fn nums(&self) -> Vec<usize> {
        self.0
            .iter()
            .rev()
            .map(|c| {
                let s = format!("{c:?}");
                s.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()
            })
            .collect()
    }
}

/// A run of equal letters: joins with its like
#[derive(Clone, Debug, PartialEq)]
struct R(char);
impl<I> Slice<I> for R {
    const MAY_JOIN: bool = true;
    fn split_at(&mut self, _: I) -> Self { self.clone() }
    fn try_join(self, other: Self) -> Result<Self, (Self, Self)> {
        if self == other { Ok(self) } else { Err((self, other)) }
    }
}

/// A value that never joins
#[derive(Clone, Debug, PartialEq)]
struct T(u32);
impl<I> Slice<I> for T {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: I) -> Self { self.clone() }
}

fn dump<S: Clone, P, const M: usize>(t: &RleTree<usize, S, P, M>) -> Vec<(usize, usize, S)>
where
    S: Slice<usize>,
    P: RleTreeConfig<usize, S, M>,
{
    t.iter(..).map(|e| (e.range().start, e.size(), e.slice().clone())).collect()
}

/// A plain list of runs
fn list_insert<S: Slice<usize>>(l: &mut Vec<(usize, S)>, idx: usize, s: S, size: usize) {
    let mut pos = 0;
    let mut i = 0;
    while i < l.len() && pos + l[i].0 <= idx {
        pos += l[i].0;
        i += 1;
    }
    if idx > pos {
        let off = idx - pos;
        let rest = l[i].0 - off;
        let r = l[i].1.split_at(off);
        l[i].0 = off;
        l.insert(i + 1, (rest, r));
        i += 1;
    }
    l.insert(i, (size, s));
    for j in [i + 1, i] {
        if S::MAY_JOIN && j > 0 && j < l.len() {
            let (sb, b) = l.remove(j);
            let (sa, a) = l.remove(j - 1);
            match a.try_join(b) {
                Ok(x) => l.insert(j - 1, (sa + sb, x)),
                Err((a, b)) => {
                    l.insert(j - 1, (sa, a));
                    l.insert(j, (sb, b));
                }
            }
        }
    }
}
fn same<S: Slice<usize> + Clone + PartialEq + std::fmt::Debug, P, const M: usize>(
    t: &RleTree<usize, S, P, M>,
    l: &[(usize, S)],
) where
    P: RleTreeConfig<usize, S, M>,
{
    let mut pos = 0;
    let mut want = Vec::new();
    for (n, s) in l {
        want.push((pos, *n, s.clone()));
        pos += n;
    }
    assert_eq!(dump(t), want);
    assert_eq!(t.size(), pos);
    assert_eq!(t.number_of_slices(), l.len());
    for (p, n, s) in want {
        for i in p..p + n {
            let e = t.get(i);
            assert_eq!((e.range(), e.slice()), (p..p + n, &s));
        }
    }
}
struct Rng(u64);
impl Rng {
    fn below(&mut self, n: usize) -> usize {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 11) as usize % n
    }
}

/// The Heisenberg group: addition is associative, invertible and ordered, but not commutative
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct H(i64, i64, i64);
impl H {
    fn mul(self, o: H) -> H { H(self.0 + o.0, self.1 + o.1, self.2 + o.2 + self.0 * o.1) }
    fn neg(self) -> H { H(-self.0, -self.1, -self.2 + self.0 * self.1) }
}
impl DirectionalAdd for H {
    fn add_right(self, r: H) -> H { self.mul(r) }
    fn add_left(self, l: H) -> H { l.mul(self) }
}
impl DirectionalSub for H {
    fn sub_left(self, l: H) -> H { l.neg().mul(self) }
    fn sub_right(self, r: H) -> H { self.mul(r.neg()) }
}
impl Index for H {
    const ZERO: H = H(0, 0, 0);
}

