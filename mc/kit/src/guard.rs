//! Buffers that end at (or begin after) an inaccessible page, so that any
//! read or write outside of them kills the process.

pub struct GuardBuf {
    base: *mut u8,
    pages: usize,
    page: usize,
}

impl GuardBuf {
    /// Room for `cap` bytes between two inaccessible pages.
    pub fn new(cap: usize) -> Self {
        let page = 4096usize;
        let pages = cap.div_ceil(page).max(1);
        unsafe {
            let len = (pages + 2) * page;
            let p = libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            let base = (p as *mut u8).add(page);
            let r = libc::mprotect(
                base as *mut _,
                pages * page,
                libc::PROT_READ | libc::PROT_WRITE,
            );
            assert_eq!(r, 0);
            GuardBuf { base, pages, page }
        }
    }

    pub fn capacity(&self) -> usize {
        self.pages * self.page
    }

    /// Place a copy of `data` directly before the trailing guard page.
    pub fn at_end(&mut self, data: &[u8]) -> &mut [u8] {
        assert!(data.len() <= self.capacity());
        unsafe {
            let p = self.base.add(self.capacity() - data.len());
            std::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
            std::slice::from_raw_parts_mut(p, data.len())
        }
    }

    /// Place a copy of `data` directly after the leading guard page.
    pub fn at_start(&mut self, data: &[u8]) -> &mut [u8] {
        assert!(data.len() <= self.capacity());
        unsafe {
            std::ptr::copy_nonoverlapping(data.as_ptr(), self.base, data.len());
            std::slice::from_raw_parts_mut(self.base, data.len())
        }
    }

    /// A mutable window of `n` bytes before the trailing guard page.
    pub fn window_end(&mut self, n: usize) -> &mut [u8] {
        assert!(n <= self.capacity());
        unsafe { std::slice::from_raw_parts_mut(self.base.add(self.capacity() - n), n) }
    }

    pub fn whole(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base, self.capacity()) }
    }
}

impl Drop for GuardBuf {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(
                self.base.sub(self.page) as *mut _,
                (self.pages + 2) * self.page,
            );
        }
    }
}
