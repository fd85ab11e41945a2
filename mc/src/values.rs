//! The user-supplied types the trees are instantiated with: slices and index types that record
//! every call made into them, check that they are alive, and panic on demand.
//!
//! Workers are single threaded, so plain statics are used throughout.

use sherman::{DirectionalAdd, DirectionalSub, Index, Slice};
use std::cmp::Ordering;
use std::fmt;

// ---------------------------------------------------------------------------------------------
// Callback accounting and fault injection
// ---------------------------------------------------------------------------------------------

pub const SPLIT: usize = 0;
pub const JOIN: usize = 1;
pub const CLONE: usize = 2;
pub const DROP: usize = 3;
pub const ADD: usize = 4;
pub const SUB: usize = 5;
pub const CMP: usize = 6;
pub const CURSOR: usize = 7;
pub const KINDS: usize = 8;
pub const KIND_NAMES: [&str; KINDS] = ["split", "join", "clone", "drop", "add", "sub", "cmp", "cursor"];

pub struct Cb {
    pub counts: [u64; KINDS],
    /// kinds that count towards the injection point
    pub mask: u32,
    pub seen: u64,
    /// panic at the call number `panic_at` (1-based) among the masked kinds
    pub panic_at: u64,
    pub fired: bool,
    /// kinds of the calls counted
    pub kinds: Vec<u8>,
    pub fired_kind: usize,
    pub log_joins: bool,
    pub joins: Vec<JoinRec>,
    pub splits: Vec<SplitRec>,
    pub log_clones: bool,
    /// numbers of the values cloned
    pub clones: Vec<u32>,
    /// done instead of panicking
    pub hook: Option<Box<dyn FnOnce()>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct JoinRec {
    pub left: (Frag, Frag),
    pub right: (Frag, Frag),
    pub ok: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct SplitRec {
    pub first: Frag,
    pub size: u32,
    pub at: i64,
}

static mut CB: Cb = Cb {
    counts: [0; KINDS],
    mask: 0,
    seen: 0,
    panic_at: 0,
    fired: false,
    kinds: Vec::new(),
    fired_kind: 0,
    log_joins: false,
    joins: Vec::new(),
    splits: Vec::new(),
    log_clones: false,
    clones: Vec::new(),
    hook: None,
};

#[allow(static_mut_refs)]
pub fn cb() -> &'static mut Cb {
    unsafe { &mut CB }
}

pub fn cb_reset() {
    let c = cb();
    c.counts = [0; KINDS];
    c.mask = 0;
    c.seen = 0;
    c.panic_at = 0;
    c.fired = false;
    c.log_joins = false;
    c.joins.clear();
    c.splits.clear();
    c.log_clones = false;
    c.clones.clear();
    c.hook = None;
}

/// Count calls of the kinds in `mask` from now on and panic at the `at`-th (0: never).
pub fn cb_arm(mask: u32, at: u64) {
    let c = cb();
    c.mask = mask;
    c.seen = 0;
    c.panic_at = at;
    c.fired = false;
    c.kinds.clear();
}

/// Count calls of the kinds in `mask` from now on and do `hook` in the middle of the `at`-th
pub fn cb_hook(mask: u32, at: u64, hook: Box<dyn FnOnce()>) {
    cb_arm(mask, at);
    cb().hook = Some(hook);
}

pub fn cb_disarm() -> (u64, bool) {
    let c = cb();
    c.hook = None;
    c.mask = 0;
    c.panic_at = 0;
    (c.seen, c.fired)
}

pub const INJECTED: &str = "injected panic";

#[inline(always)]
fn called(kind: usize) {
    let c = cb();
    c.counts[kind] += 1;
    if c.mask & (1 << kind) != 0 {
        hit(kind);
    }
}

#[inline(never)]
fn hit(kind: usize) {
    let c = cb();
    c.seen += 1;
    c.kinds.push(kind as u8);
    if c.seen == c.panic_at && !std::thread::panicking() {
        c.fired = true;
        c.fired_kind = kind;
        if let Some(h) = c.hook.take() {
            // what it calls in turn is not counted
            let mask = std::mem::take(&mut c.mask);
            h();
            cb().mask = mask;
            return;
        }
        panic!("{}", INJECTED);
    }
}

pub fn cursor_called() {
    called(CURSOR)
}

// ---------------------------------------------------------------------------------------------
// Ledger of slice values
// ---------------------------------------------------------------------------------------------

pub struct Ledger {
    state: Vec<u8>, // 1 alive, 2 dropped
    pub alive: i64,
    pub error: Option<String>,
}

static mut LEDGER: Ledger = Ledger { state: Vec::new(), alive: 0, error: None };

#[allow(static_mut_refs)]
pub fn ledger() -> &'static mut Ledger {
    unsafe { &mut LEDGER }
}

/// Forget everything; only valid when no value is alive that will be touched again.
pub fn ledger_reset() {
    let l = ledger();
    l.state.clear();
    if l.state.capacity() < 1 << 20 {
        l.state.reserve(1 << 20);
    }
    l.alive = 0;
    l.error = None;
}

const MAGIC: u64 = 0x5EED_C0DE_5EED_C0DE;

/// Proof of identity carried by each slice value.
pub struct Token {
    magic: u64,
    id: u32,
}

impl Token {
    pub fn new() -> Token {
        let l = ledger();
        l.state.push(1);
        l.alive += 1;
        Token { magic: MAGIC, id: (l.state.len() - 1) as u32 }
    }
    pub fn is_alive(&self) -> bool {
        self.magic == MAGIC && ledger().state.get(self.id as usize) == Some(&1)
    }
    pub fn id(&self) -> u32 {
        self.id
    }
    #[inline]
    pub fn check(&self, what: &str) {
        if !self.is_alive() {
            let l = ledger();
            if l.error.is_none() {
                l.error = Some(format!("{what} of a slice value that is not alive (dropped, moved away or never initialised)"));
            }
        }
    }
}

impl Default for Token {
    fn default() -> Self {
        Token::new()
    }
}

impl Drop for Token {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            crate::shm::fatal("drop of a slice value that was already dropped or never initialised");
        }
        self.magic = !MAGIC;
        let l = ledger();
        match l.state.get_mut(self.id as usize) {
            Some(s @ 1) => {
                *s = 2;
                l.alive -= 1;
            }
            _ => crate::shm::fatal("slice value dropped twice"),
        }
    }
}

pub fn ledger_error() -> Result<(), String> {
    match ledger().error.take() {
        None => Ok(()),
        Some(e) => Err(e),
    }
}

// ---------------------------------------------------------------------------------------------
// Slices
// ---------------------------------------------------------------------------------------------

/// Units `lo..hi` of the slice originally inserted as number `id`
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Frag {
    pub id: u32,
    pub lo: u32,
    pub hi: u32,
}

impl Frag {
    pub fn units(&self) -> u32 {
        self.hi - self.lo
    }
}

/// Glue between the two halves when something is split just before unit `off` of slice `id`
pub fn split_glue(id: u32, off: u32) -> u64 {
    1 << 63 | (id as u64) << 32 | off as u64
}

/// Content of a run; used both inside [`Seg`] and in the reference model
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Run {
    pub frags: Vec<Frag>,
    /// joins with a left neighbour whose `rg` is equal
    pub lg: u64,
    /// joins with a right neighbour whose `lg` is equal
    pub rg: u64,
}

impl Run {
    pub fn fresh(id: u32, size: u32) -> Run {
        Run { frags: vec![Frag { id, lo: 0, hi: size }], lg: 4 * id as u64 + 1, rg: 4 * id as u64 + 2 }
    }
    pub fn units(&self) -> u32 {
        self.frags.iter().map(|f| f.units()).sum()
    }
    pub fn measure<I: Ix>(&self) -> I {
        self.frags.iter().fold(I::ZERO, |a, f| a.add_right(I::measure(*f)))
    }
    pub fn split(&mut self, mut at: u32) -> Run {
        let mut k = 0;
        while k < self.frags.len() && at >= self.frags[k].units() {
            at -= self.frags[k].units();
            k += 1;
        }
        let mut right: Vec<Frag> = Vec::with_capacity(self.frags.len() - k + 1);
        if k < self.frags.len() {
            let f = self.frags[k];
            if at == 0 {
                right.extend_from_slice(&self.frags[k..]);
                self.frags.truncate(k);
            } else {
                right.push(Frag { id: f.id, lo: f.lo + at, hi: f.hi });
                right.extend_from_slice(&self.frags[k + 1..]);
                self.frags.truncate(k + 1);
                self.frags[k].hi = f.lo + at;
            }
        }
        let g = match right.first() {
            Some(f) => split_glue(f.id, f.lo),
            None => 0,
        };
        let rg = std::mem::replace(&mut self.rg, g);
        Run { frags: right, lg: g, rg }
    }
    /// glue the two halves would have if split at `at`
    pub fn glue_at(&self, at: u32) -> u64 {
        self.clone().split(at).lg
    }
    pub fn joins(&self, right: &Run) -> bool {
        self.rg == right.lg
    }
    pub fn join(mut self, right: Run) -> Run {
        for f in &right.frags {
            match self.frags.last_mut() {
                Some(l) if l.id == f.id && l.hi == f.lo => l.hi = f.hi,
                _ => self.frags.push(*f),
            }
        }
        self.rg = right.rg;
        self
    }
}

/// The slice type used almost everywhere. `J`: whether it may join.
pub struct Seg<const J: bool> {
    tok: Token,
    run: Run,
}

impl<const J: bool> Seg<J> {
    pub fn new(run: Run) -> Self {
        Seg { tok: Token::new(), run }
    }
    pub fn run(&self) -> &Run {
        self.tok.check("read");
        &self.run
    }
    pub fn token(&self) -> u32 {
        self.tok.id()
    }
    /// content, or an error if the value is not alive
    pub fn checked(&self) -> Result<&Run, String> {
        if self.tok.is_alive() {
            Ok(&self.run)
        } else {
            Err("read of a slice value that is not alive".into())
        }
    }
}

impl<const J: bool> fmt::Debug for Seg<J> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.run.frags)
    }
}

impl<const J: bool> Clone for Seg<J> {
    fn clone(&self) -> Self {
        self.tok.check("clone");
        if cb().log_clones {
            cb().clones.push(self.tok.id());
        }
        called(CLONE);
        Seg { tok: Token::new(), run: self.run.clone() }
    }
}

impl<const J: bool> Drop for Seg<J> {
    fn drop(&mut self) {
        // if this panics, the fields are still dropped during unwinding
        called(DROP);
    }
}

impl<I: Ix, const J: bool> Slice<I> for Seg<J> {
    const MAY_JOIN: bool = J;

    fn split_at(&mut self, idx: I) -> Self {
        self.tok.check("split");
        if cb().log_joins {
            cb().splits.push(SplitRec { first: self.run.frags[0], size: self.run.units(), at: idx.units() });
        }
        called(SPLIT);
        let u = self.run.units() as i64;
        let at = idx.units().clamp(0, u);
        let right = self.run.split(at as u32);
        if I::EXACT && idx != self.run.measure::<I>() {
            let l = ledger();
            if l.error.is_none() {
                l.error = Some(format!("slice was split at {idx:?}, which is not the size of any of its prefixes (nearest {:?})", self.run.measure::<I>()));
            }
        }
        Seg { tok: Token::new(), run: right }
    }

    fn try_join(self, other: Self) -> Result<Self, (Self, Self)> {
        self.tok.check("join");
        other.tok.check("join");
        let ok = self.run.joins(&other.run);
        if cb().log_joins {
            cb().joins.push(JoinRec {
                left: (self.run.frags[0], *self.run.frags.last().unwrap()),
                right: (other.run.frags[0], *other.run.frags.last().unwrap()),
                ok,
            });
        }
        called(JOIN);
        if ok {
            let mut me = self;
            let l = std::mem::replace(&mut me.run, Run { frags: Vec::new(), lg: 0, rg: 0 });
            let mut o = other;
            let r = std::mem::replace(&mut o.run, Run { frags: Vec::new(), lg: 0, rg: 0 });
            me.run = l.join(r);
            Ok(me)
        } else {
            Err((self, other))
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Index types
// ---------------------------------------------------------------------------------------------

pub trait Ix: Index + 'static {
    const NAME: &'static str;
    /// whether `split_at` shall check the exact value of the offset it is given
    const EXACT: bool = false;
    /// size of a fragment
    fn measure(f: Frag) -> Self;
    fn units(self) -> i64;
}

macro_rules! int_ix {
    ($($t:ident)*) => { $(
        impl Ix for $t {
            const NAME: &'static str = stringify!($t);
            fn measure(f: Frag) -> Self { (f.hi - f.lo) as $t }
            fn units(self) -> i64 { self as i64 }
        }
    )* }
}
int_ix!(u8 u16 u32 u64 usize);

/// `u32` counting every arithmetic operation and comparison
#[derive(Copy, Clone)]
pub struct Cu(pub u32);

impl fmt::Debug for Cu {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::ops::Add for Cu {
    type Output = Cu;
    fn add(self, o: Cu) -> Cu {
        called(ADD);
        Cu(self.0.wrapping_add(o.0))
    }
}
impl std::ops::Sub for Cu {
    type Output = Cu;
    fn sub(self, o: Cu) -> Cu {
        called(SUB);
        Cu(self.0.wrapping_sub(o.0))
    }
}
impl PartialEq for Cu {
    fn eq(&self, o: &Cu) -> bool {
        called(CMP);
        self.0 == o.0
    }
}
impl Eq for Cu {}
impl PartialOrd for Cu {
    fn partial_cmp(&self, o: &Cu) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Cu {
    fn cmp(&self, o: &Cu) -> Ordering {
        called(CMP);
        self.0.cmp(&o.0)
    }
}
impl Index for Cu {
    const ZERO: Cu = Cu(0);
}
impl Ix for Cu {
    const NAME: &'static str = "Cu";
    fn measure(f: Frag) -> Self {
        Cu(f.hi - f.lo)
    }
    fn units(self) -> i64 {
        self.0 as i64
    }
}

/// Length together with an element of the discrete Heisenberg group: a lawful index type whose
/// addition is not commutative. `n` alone decides the order of positions; the group element is
/// determined by the exact sequence of units a range covers.
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Heis {
    n: i64,
    a: i64,
    b: i64,
    c: i64,
}

impl fmt::Debug for Heis {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}<{},{},{}>", self.n, self.a, self.b, self.c)
    }
}
impl Heis {
    fn mul(self, o: Heis) -> Heis {
        Heis { n: self.n + o.n, a: self.a + o.a, b: self.b + o.b, c: self.c + o.c + self.a * o.b }
    }
    fn inv(self) -> Heis {
        Heis { n: -self.n, a: -self.a, b: -self.b, c: -self.c + self.a * self.b }
    }
}
impl DirectionalAdd for Heis {
    fn add_right(self, right: Heis) -> Heis {
        self.mul(right)
    }
}
impl DirectionalSub for Heis {
    fn sub_left(self, left: Heis) -> Heis {
        left.inv().mul(self)
    }
    fn sub_right(self, right: Heis) -> Heis {
        self.mul(right.inv())
    }
}
impl Index for Heis {
    const ZERO: Heis = Heis { n: 0, a: 0, b: 0, c: 0 };
}
impl Ix for Heis {
    const NAME: &'static str = "Heis";
    const EXACT: bool = true;
    fn measure(f: Frag) -> Self {
        // units alternate between the two generators x and y; powers of xy and yx in closed form
        let x = Heis { n: 1, a: 1, b: 0, c: 0 };
        let y = Heis { n: 1, a: 0, b: 1, c: 0 };
        let k = ((f.hi - f.lo) / 2) as i64;
        let x_first = (f.id ^ f.lo) & 1 == 0;
        let pairs = Heis { n: 2 * k, a: k, b: k, c: if x_first { k * (k + 1) / 2 } else { k * (k - 1) / 2 } };
        if (f.hi - f.lo) & 1 == 0 {
            pairs
        } else {
            pairs.mul(if x_first { x } else { y })
        }
    }
    fn units(self) -> i64 {
        self.n
    }
}

/// Unsigned positions that may never exceed [`set_limit`]; like a machine integer whose maximum
/// is exactly the size of the tree.
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Lim(pub u32);

static mut LIMIT: u32 = u32::MAX;
pub fn set_limit(l: u32) {
    unsafe { LIMIT = l }
}
impl fmt::Debug for Lim {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::ops::Add for Lim {
    type Output = Lim;
    fn add(self, o: Lim) -> Lim {
        let r = self.0 + o.0;
        if r > unsafe { LIMIT } {
            panic!("index arithmetic overflows although the tree's size is representable");
        }
        Lim(r)
    }
}
impl std::ops::Sub for Lim {
    type Output = Lim;
    fn sub(self, o: Lim) -> Lim {
        Lim(self.0.checked_sub(o.0).expect("index arithmetic goes below zero"))
    }
}
impl Index for Lim {
    const ZERO: Lim = Lim(0);
}
impl Ix for Lim {
    const NAME: &'static str = "Lim";
    fn measure(f: Frag) -> Self {
        Lim(f.hi - f.lo)
    }
    fn units(self) -> i64 {
        self.0 as i64
    }
}

/// Signed positions
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Si(pub i32);
impl fmt::Debug for Si {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::ops::Add for Si {
    type Output = Si;
    fn add(self, o: Si) -> Si {
        Si(self.0 + o.0)
    }
}
impl std::ops::Sub for Si {
    type Output = Si;
    fn sub(self, o: Si) -> Si {
        Si(self.0 - o.0)
    }
}
impl Index for Si {
    const ZERO: Si = Si(0);
}
impl Ix for Si {
    const NAME: &'static str = "Si";
    fn measure(f: Frag) -> Self {
        Si((f.hi - f.lo) as i32)
    }
    fn units(self) -> i64 {
        self.0 as i64
    }
}

/// Positions that are texts: the sequence of units itself. Addition is concatenation, and only
/// what really is at the end concerned can be subtracted; anything else panics. Any operation on
/// values whose ranges do not line up is thus found out.
#[derive(Copy, Clone, PartialEq, Eq)]
pub struct Word(u32);

struct Words {
    all: Vec<Vec<Frag>>,
    ids: std::collections::HashMap<Vec<Frag>, u32>,
}

static mut WORDS: Option<Words> = None;

/// Forget all texts; only while no tree of them is alive
pub fn words_reset() {
    unsafe { WORDS = None }
}

#[allow(static_mut_refs)]
fn words() -> &'static mut Words {
    unsafe {
        WORDS.get_or_insert_with(|| Words { all: vec![vec![]], ids: std::iter::once((vec![], 0)).collect() })
    }
}

fn word(v: Vec<Frag>) -> Word {
    let w = words();
    if let Some(i) = w.ids.get(&v) {
        return Word(*i);
    }
    let i = w.all.len() as u32;
    w.all.push(v.clone());
    w.ids.insert(v, i);
    Word(i)
}

fn push_frag(v: &mut Vec<Frag>, f: Frag) {
    match v.last_mut() {
        Some(l) if l.id == f.id && l.hi == f.lo => l.hi = f.hi,
        _ => v.push(f),
    }
}

impl Word {
    fn text(self) -> &'static [Frag] {
        &words().all[self.0 as usize]
    }
    /// first `at` units and the rest
    fn cut(self, mut at: u32) -> (Vec<Frag>, Vec<Frag>) {
        let (mut l, mut r) = (vec![], vec![]);
        for f in self.text() {
            let u = f.units().min(at);
            if u > 0 {
                push_frag(&mut l, Frag { hi: f.lo + u, ..*f });
            }
            if u < f.units() {
                push_frag(&mut r, Frag { lo: f.lo + u, ..*f });
            }
            at -= u;
        }
        (l, r)
    }
}
impl fmt::Debug for Word {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for (k, g) in self.text().iter().enumerate() {
            write!(f, "{}{}[{}..{}]", if k > 0 { "+" } else { "" }, g.id, g.lo, g.hi)?;
        }
        Ok(())
    }
}
impl PartialOrd for Word {
    fn partial_cmp(&self, o: &Word) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Word {
    fn cmp(&self, o: &Word) -> Ordering {
        self.units().cmp(&o.units()).then_with(|| self.text().cmp(o.text()))
    }
}
impl DirectionalAdd for Word {
    fn add_right(self, right: Word) -> Word {
        let mut v = self.text().to_vec();
        for f in right.text() {
            push_frag(&mut v, *f);
        }
        word(v)
    }
}
impl DirectionalSub for Word {
    fn sub_left(self, left: Word) -> Word {
        let n = left.units() as u32;
        let (l, r) = self.cut(n.min(self.units() as u32));
        if l != left.text() {
            panic!("{left:?} subtracted from the left of {self:?}, which does not start with it");
        }
        word(r)
    }
    fn sub_right(self, right: Word) -> Word {
        let n = (self.units() - right.units()).max(0) as u32;
        let (l, r) = self.cut(n);
        if r != right.text() {
            panic!("{right:?} subtracted from the right of {self:?}, which does not end with it");
        }
        word(l)
    }
}
impl Index for Word {
    const ZERO: Word = Word(0);
}
impl Ix for Word {
    const NAME: &'static str = "Word";
    const EXACT: bool = true;
    fn measure(f: Frag) -> Self {
        word(if f.units() == 0 { vec![] } else { vec![f] })
    }
    fn units(self) -> i64 {
        self.text().iter().map(|f| f.units() as i64).sum()
    }
}

#[cfg(feature = "serde")]
mod serial {
    use super::*;
    use serde::de::{Deserialize, Deserializer};
    use serde::ser::{Serialize, Serializer};

    impl Serialize for Run {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            let frags: Vec<(u32, u32, u32)> = self.frags.iter().map(|f| (f.id, f.lo, f.hi)).collect();
            (frags, self.lg, self.rg).serialize(s)
        }
    }
    impl<'de> Deserialize<'de> for Run {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let (f, lg, rg) = <(Vec<(u32, u32, u32)>, u64, u64)>::deserialize(d)?;
            Ok(Run { frags: f.into_iter().map(|(id, lo, hi)| Frag { id, lo, hi }).collect(), lg, rg })
        }
    }
    impl Serialize for Heis {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            (self.n, self.a, self.b, self.c).serialize(s)
        }
    }
    impl<'de> Deserialize<'de> for Heis {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let (n, a, b, c) = Deserialize::deserialize(d)?;
            Ok(Heis { n, a, b, c })
        }
    }
    impl Serialize for Si {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            self.0.serialize(s)
        }
    }
    impl<'de> Deserialize<'de> for Si {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            Ok(Si(i32::deserialize(d)?))
        }
    }
    impl<const J: bool> Serialize for Seg<J> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            self.run().serialize(s)
        }
    }
    impl<'de, const J: bool> Deserialize<'de> for Seg<J> {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            Ok(Seg::new(Run::deserialize(d)?))
        }
    }
}
