#![allow(warnings)]
// What the programs of P23 are made of. Every datum, slice and index knows whether it is still there.
use sherman::param::*;
use sherman::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::mem::forget;
use std::ops::Deref;

struct Poison;
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        std::ptr::write_bytes(p, 0xDD, l.size());
        System.dealloc(p, l)
    }
}
#[global_allocator]
static POISON: Poison = Poison;

thread_local! {
    static DATA: RefCell<Vec<bool>> = const { RefCell::new(Vec::new()) };
    static SLICES: RefCell<Vec<bool>> = const { RefCell::new(Vec::new()) };
    static BAD: Cell<Option<&'static str>> = const { Cell::new(None) };
}
fn bad(s: &'static str) {
    BAD.with(|b| b.set(b.get().or(Some(s))))
}
fn alive(t: &'static std::thread::LocalKey<RefCell<Vec<bool>>>, n: usize, what: &'static str) {
    if t.with(|t| t.borrow().get(n).copied()) != Some(true) {
        bad(what)
    }
}
fn new(t: &'static std::thread::LocalKey<RefCell<Vec<bool>>>) -> usize {
    t.with(|t| {
        t.borrow_mut().push(true);
        t.borrow().len() - 1
    })
}

/// something that slices borrow
#[derive(Debug)]
struct Data(usize);
impl Data {
    fn new() -> Box<Data> {
        Box::new(Data(new(&DATA)))
    }
}
impl Drop for Data {
    fn drop(&mut self) {
        DATA.with(|t| t.borrow_mut()[self.0] = false);
    }
}

/// a slice that looks at what it borrows when it is dropped
struct D<'a> {
    d: &'a Data,
    id: usize,
    inner: Inner,
}
struct Inner(usize);
impl<'a> D<'a> {
    fn new(d: &'a Data) -> Self {
        D { d, id: d.0, inner: Inner(new(&SLICES)) }
    }
}
impl Drop for D<'_> {
    fn drop(&mut self) {
        alive(&SLICES, self.inner.0, "a slice is dropped that is gone");
        alive(&DATA, self.id, "a slice is dropped when what it borrows is gone");
        SLICES.with(|t| {
            if let Some(x) = t.borrow_mut().get_mut(self.inner.0) {
                *x = false
            }
        });
    }
}
impl Clone for D<'_> {
    fn clone(&self) -> Self {
        self.look();
        D::new(self.d)
    }
}
/// a slice that does not
#[derive(Clone)]
struct K<'a> {
    d: &'a Data,
    id: usize,
    inner: Inner2,
}
#[derive(Clone)]
struct Inner2(usize);
impl<'a> K<'a> {
    fn new(d: &'a Data) -> Self {
        K { d, id: d.0, inner: Inner2(0x1234_5678) }
    }
}
/// an index that carries something borrowed along
#[derive(Clone, Copy, Debug)]
struct X<'a>(usize, Option<&'a Data>, usize);
impl<'a> X<'a> {
    fn of(n: usize, d: &'a Data) -> Self {
        X(n, Some(d), d.0)
    }
}
impl PartialEq for X<'_> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for X<'_> {}
impl PartialOrd for X<'_> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        self.0.partial_cmp(&o.0)
    }
}
impl Ord for X<'_> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl std::ops::Add for X<'_> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        let of = if self.1.is_some() { self } else { o };
        X(self.0 + o.0, of.1, of.2)
    }
}
impl std::ops::Sub for X<'_> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        let of = if self.1.is_some() { self } else { o };
        X(self.0 - o.0, of.1, of.2)
    }
}
impl Index for X<'_> {
    const ZERO: Self = X(0, None, 0);
}
#[derive(Clone)]
struct Plain(Inner2);

trait Look {
    fn look(&self);
}
impl Look for Inner {
    fn look(&self) {
        alive(&SLICES, self.0, "a slice is seen that is gone");
    }
}
impl Look for Inner2 {
    fn look(&self) {
        if self.0 != 0x1234_5678 {
            bad("a slice is seen that is gone");
        }
    }
}
impl Look for D<'_> {
    fn look(&self) {
        self.inner.look();
        alive(&DATA, self.id, "a slice is seen when what it borrows is gone");
    }
}
impl Look for K<'_> {
    fn look(&self) {
        self.inner.look();
        alive(&DATA, self.id, "a slice is seen when what it borrows is gone");
    }
}
impl Look for Plain {
    fn look(&self) {
        self.0.look();
    }
}
impl Look for X<'_> {
    fn look(&self) {
        if self.1.is_some() {
            alive(&DATA, self.2, "an index is seen when what it borrows is gone");
        }
    }
}
impl Look for usize {
    fn look(&self) {}
}
impl<I> Slice<I> for D<'_> {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: I) -> Self {
        self.look();
        D::new(self.d)
    }
}
impl<I> Slice<I> for K<'_> {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: I) -> Self {
        self.look();
        self.clone()
    }
}
impl<I> Slice<I> for Plain {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: I) -> Self {
        self.look();
        self.clone()
    }
}
trait Part {
    type Inner: Look;
    fn part(&self) -> &Self::Inner;
}
impl Part for D<'_> {
    type Inner = Inner;
    fn part(&self) -> &Inner {
        &self.inner
    }
}
impl Part for K<'_> {
    type Inner = Inner2;
    fn part(&self) -> &Inner2 {
        &self.inner
    }
}
impl Part for Plain {
    type Inner = Inner2;
    fn part(&self) -> &Inner2 {
        &self.0
    }
}

fn lookt<I: Index + Look, S: Look + Slice<I>, P: RleTreeConfig<I, S, 1>>(t: &RleTree<I, S, P, 1>) {
    for e in t.iter(..) {
        e.slice().look();
        e.range().start.look();
    }
}
macro_rules! fill {
    ($t:ident, $d:expr) => {
        for k in 0..4 {
            $t.insert(ix(k, $d), sl($d), ix(1, $d));
        }
    };
}

fn main() {
    let from: usize = std::env::args().nth(1).unwrap().parse().unwrap();
    std::panic::set_hook(Box::new(|_| ()));
    let out = std::io::stdout();
    for (n, f) in PROGRAMS.iter().enumerate().skip(from) {
        use std::io::Write;
        writeln!(out.lock(), "{n}").unwrap();
        let _ = std::panic::catch_unwind(f);
        if let Some(b) = BAD.with(|b| b.take()) {
            writeln!(out.lock(), "{n} {b}").unwrap();
        }
    }
    println!("done");
}
