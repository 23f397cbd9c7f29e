use std::mem::size_of;
use std::cell::Cell;

/// An arena implementation that uses preallocated 64KiB pages for all allocations.
/// If a new allocation were to be pushed over the the boundaries of the page, a
/// new page is internally allocated first, thus this version of the arena can never
/// run out of memory unless the process runs out of heap altogether.
///
/// Allocating a type larger than the page size will result in a new heap allocation
/// just for that type separate from the page mechanism.
pub struct Arena {
    store: Cell<Vec<Vec<u8>>>,
    #[allow(dead_code)]
    ptr: Cell<*mut u8>,
    offset: Cell<usize>
}

impl Arena {
    /// Create a new arena with a single preallocated 64KiB page
    pub fn new() -> Self {
        let store = Vec::new();
        let ptr = std::ptr::null_mut();

        Arena {
            store: Cell::new(store),
            ptr: Cell::new(ptr),
            offset: Cell::new(0)
        }
    }

    /// Put the value onto the page of the arena and return a reference to it.
    #[inline]
    pub fn alloc<'a, T: Sized + Copy>(&'a self, val: T) -> &'a T {
        unsafe {
            let ptr = self.alloc_uninitialized();
            *ptr = val;
            &*ptr
        }
    }

    /// Allocate enough bytes for the type `T`, then return a pointer to the memory.
    /// Memory behind the pointer is uninitialized, can contain garbage and reading
    /// from it is undefined behavior.
    #[inline]
    pub unsafe fn alloc_uninitialized<'a, T: Sized + Copy>(&'a self) -> &'a mut T {
        &mut *(self.require(size_of::<T>()) as *mut T)
    }

    /// Allocate an `&str` slice onto the arena and return a reference to it. This is
    /// useful when the original slice has an undefined lifetime.
    ///
    /// Note: static slices (`&'static str`) can be safely used in place of arena-bound
    ///       slices without having to go through this method.
    pub fn alloc_str<'a>(&'a self, val: &str) -> &'a str {
        unsafe {
            use std::ptr::copy_nonoverlapping;
            use std::str::from_utf8_unchecked;
            use std::slice::from_raw_parts;

            let ptr = self.require(val.len());
            copy_nonoverlapping(val.as_ptr(), ptr, val.len());

            from_utf8_unchecked(from_raw_parts(ptr, val.len()))
        }
    }

    /// Allocate an `&str` slice onto the arena as null terminated C-style string.
    /// No checks are performed on the source and whether or not it already contains
    /// any nul bytes. While this does not create any memory issues, it assumes that
    /// the reader of the source can deal with malformed source.
    pub fn alloc_str_with_nul<'a>(&'a self, val: &str) -> *const u8 {
        let len_with_zero = val.len() + 1;
        let ptr = self.require(len_with_zero);

        unsafe {
            use std::ptr::copy_nonoverlapping;

            copy_nonoverlapping(val.as_ptr(), ptr, val.len());
            *ptr.offset(val.len() as isize) = 0;
            ptr
        }
    }

    /// Pushes the `String` as it's own page onto the arena and returns a reference to it.
    /// This does not copy or reallocate the original `String`.
    pub fn alloc_string<'a>(&'a self, val: String) -> &'a str {
        let len = val.len();
        let ptr = self.alloc_vec(val.into_bytes());

        unsafe {
            use std::str::from_utf8_unchecked;
            use std::slice::from_raw_parts;

            from_utf8_unchecked(from_raw_parts(ptr, len))
        }
    }

    #[inline]
    #[allow(dead_code)]
    fn alloc_vec(&self, mut val: Vec<u8>) -> *mut u8 {
        let ptr = val.as_mut_ptr();

        let mut temp = self.store.replace(Vec::new());
        temp.push(val);
        self.store.replace(temp);

        ptr
    }

    #[cfg(not(feature = "guard"))]
    #[inline(never)]
    fn alloc_bytes(&self, size: usize) -> *mut u8 {
        self.alloc_vec(Vec::with_capacity(size))
    }

    /// Places the allocation directly in front of an inaccessible page (leaked).
    #[cfg(feature = "guard")]
    fn alloc_bytes(&self, size: usize) -> *mut u8 {
        extern "C" {
            fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
            fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
        }
        unsafe {
            let pages = (size + 4095) / 4096 * 4096;
            let p = mmap(std::ptr::null_mut(), pages + 4096, 3, 0x22, -1, 0);
            assert!(p as isize != -1);
            assert!(mprotect(p.add(pages), 4096, 0) == 0);
            p.add(pages - size)
        }
    }

    // Verification variant: every allocation is an object of its own, of exactly the requested
    // size, so that any access outside of it is an access outside of a memory object.
    #[inline]
    fn require(&self, size: usize) -> *mut u8 {
        self.alloc_bytes(size)
    }

    /// Resets the pointer to the current page of the arena.
    ///
    /// **Using this method is an extremely bad idea!**
    ///
    /// The only case where the use of this method would be justified is
    /// in benchmarks where creation of a structure on the arena is to be
    /// tested without the cost of re-creating the arena itself on every iteration.
    #[doc(hidden)]
    #[inline]
    pub unsafe fn clear(&self) {
        self.reset_to(0)
    }

    #[doc(hidden)]
    #[inline]
    pub unsafe fn offset(&self) -> usize {
        self.offset.get()
    }

    #[doc(hidden)]
    #[inline]
    pub unsafe fn reset_to(&self, offset: usize) {
        self.offset.set(offset)
    }
}

/// Akin to `CopyCell`: `Sync` is unsafe but `Send` is totally fine!
unsafe impl Send for Arena {}

