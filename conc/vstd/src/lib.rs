//! The standard library, with the atomics, the memory allocation and `NonNull` replaced by ones the
//! model checker (loom) sees. The repository's sources are compiled with this crate under the name
//! `std`, so that nothing in them needs to be changed for this.
//!
//! * every atomic operation is a scheduling point, with the ordering the source gives it;
//! * every block of memory has a cell that records accesses: `NonNull::as_ref` reads it,
//!   `NonNull::as_mut` and freeing write it. Two accesses of which one writes, on different threads
//!   and not ordered by the atomics, are reported by loom.
pub use ::std::*;

pub mod sync {
    pub use ::std::sync::*;
    pub mod atomic {
        pub use ::std::sync::atomic::*;
        pub use loom::sync::atomic::{fence, AtomicI32, AtomicI64, AtomicIsize, AtomicU32, AtomicU64, AtomicUsize};
    }
}

pub mod memory {
    use ::std::cell::RefCell;
    use ::std::collections::BTreeMap;
    use ::std::rc::Rc;

    type Block = (usize, Rc<loom::cell::UnsafeCell<()>>);

    ::std::thread_local! {
        /// the blocks of the current execution (all of its threads run on this one)
        static BLOCKS: RefCell<BTreeMap<usize, Block>> = const { RefCell::new(BTreeMap::new()) };
    }

    /// Forgets what an aborted execution left behind
    pub fn reset() {
        let old = BLOCKS.with(|b| ::std::mem::take(&mut *b.borrow_mut()));
        drop(old);
    }
    pub fn live() -> usize {
        BLOCKS.with(|b| b.borrow().len())
    }
    pub(crate) fn add(p: usize, size: usize) {
        let c = Rc::new(loom::cell::UnsafeCell::new(()));
        BLOCKS.with(|b| b.borrow_mut().insert(p, (size, c)));
    }
    fn block(p: usize) -> Option<Rc<loom::cell::UnsafeCell<()>>> {
        BLOCKS.with(|b| {
            let b = b.borrow();
            let (base, (size, c)) = b.range(..=p).next_back()?;
            (p < base + size).then(|| c.clone())
        })
    }
    pub(crate) fn remove(p: usize) {
        match BLOCKS.with(|b| b.borrow_mut().remove(&p)) {
            Some((_, c)) => c.with_mut(|_| ()),
            None => panic!("memory is freed that is not allocated"),
        }
    }
    #[inline]
    pub(crate) fn read(p: usize) {
        if let Some(c) = block(p) {
            c.with(|_| ())
        }
    }
    #[inline]
    pub(crate) fn write(p: usize) {
        if let Some(c) = block(p) {
            c.with_mut(|_| ())
        }
    }
}

pub mod alloc {
    pub use ::std::alloc::*;

    /// # Safety
    /// as for the standard library's
    pub unsafe fn alloc(layout: Layout) -> *mut u8 {
        let p = unsafe { ::std::alloc::alloc(layout) };
        if !p.is_null() {
            crate::memory::add(p as usize, layout.size());
        }
        p
    }
    /// # Safety
    /// as for the standard library's
    pub unsafe fn alloc_zeroed(layout: Layout) -> *mut u8 {
        let p = unsafe { ::std::alloc::alloc_zeroed(layout) };
        if !p.is_null() {
            crate::memory::add(p as usize, layout.size());
        }
        p
    }
    /// # Safety
    /// as for the standard library's
    pub unsafe fn dealloc(p: *mut u8, layout: Layout) {
        crate::memory::remove(p as usize);
        unsafe { ::std::alloc::dealloc(p, layout) }
    }
}

pub mod ptr {
    pub use ::std::ptr::*;
    use ::std::{cmp, fmt, hash};

    #[repr(transparent)]
    pub struct NonNull<T: ?Sized>(::std::ptr::NonNull<T>);

    impl<T: ?Sized> Copy for NonNull<T> {}
    impl<T: ?Sized> Clone for NonNull<T> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<T: ?Sized> PartialEq for NonNull<T> {
        fn eq(&self, o: &Self) -> bool {
            self.0 == o.0
        }
    }
    impl<T: ?Sized> Eq for NonNull<T> {}
    impl<T: ?Sized> PartialOrd for NonNull<T> {
        fn partial_cmp(&self, o: &Self) -> Option<cmp::Ordering> {
            self.0.partial_cmp(&o.0)
        }
    }
    impl<T: ?Sized> Ord for NonNull<T> {
        fn cmp(&self, o: &Self) -> cmp::Ordering {
            self.0.cmp(&o.0)
        }
    }
    impl<T: ?Sized> hash::Hash for NonNull<T> {
        fn hash<H: hash::Hasher>(&self, h: &mut H) {
            self.0.hash(h)
        }
    }
    impl<T: ?Sized> fmt::Debug for NonNull<T> {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<T: ?Sized> fmt::Pointer for NonNull<T> {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            fmt::Pointer::fmt(&self.0, f)
        }
    }
    impl<T: ?Sized> From<&mut T> for NonNull<T> {
        fn from(x: &mut T) -> Self {
            NonNull(x.into())
        }
    }
    impl<T: ?Sized> From<&T> for NonNull<T> {
        fn from(x: &T) -> Self {
            NonNull(x.into())
        }
    }
    impl<T: ?Sized> From<::std::ptr::NonNull<T>> for NonNull<T> {
        fn from(x: ::std::ptr::NonNull<T>) -> Self {
            NonNull(x)
        }
    }
    /// for the functions that are not given here
    impl<T: ?Sized> ::std::ops::Deref for NonNull<T> {
        type Target = ::std::ptr::NonNull<T>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<T> NonNull<T> {
        pub const fn dangling() -> Self {
            NonNull(::std::ptr::NonNull::dangling())
        }
    }
    impl<T: ?Sized> NonNull<T> {
        pub fn new(p: *mut T) -> Option<Self> {
            ::std::ptr::NonNull::new(p).map(NonNull)
        }
        /// # Safety
        /// as for the standard library's
        pub const unsafe fn new_unchecked(p: *mut T) -> Self {
            NonNull(unsafe { ::std::ptr::NonNull::new_unchecked(p) })
        }
        pub const fn as_ptr(self) -> *mut T {
            self.0.as_ptr()
        }
        /// # Safety
        /// as for the standard library's
        pub unsafe fn as_ref<'a>(&self) -> &'a T {
            crate::memory::read(self.0.as_ptr() as *mut u8 as usize);
            unsafe { self.0.as_ref() }
        }
        /// # Safety
        /// as for the standard library's
        pub unsafe fn as_mut<'a>(&mut self) -> &'a mut T {
            crate::memory::write(self.0.as_ptr() as *mut u8 as usize);
            unsafe { self.0.as_mut() }
        }
        pub const fn cast<U>(self) -> NonNull<U> {
            NonNull(self.0.cast())
        }
    }
}
