//! Places input slices directly against inaccessible memory.
#[cfg(not(miri))]
mod imp {
    use std::ffi::c_void;
    extern "C" {
        fn mmap(a: *mut c_void, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void;
        fn mprotect(a: *mut c_void, l: usize, p: i32) -> i32;
    }
    const PAGE: usize = 4096;
    pub struct Arena {
        base: *mut u8,
        cap: usize,
        turn: usize,
    }
    impl Arena {
        pub fn new(cap: usize) -> Self {
            let cap = (cap + PAGE - 1) / PAGE * PAGE;
            unsafe {
                let p = mmap(std::ptr::null_mut(), cap + 2 * PAGE, 0, 0x22 | 0x4000, -1, 0) as *mut u8;
                assert!(p as isize != -1, "mmap");
                let base = p.add(PAGE);
                assert_eq!(mprotect(base as *mut c_void, cap, 3), 0);
                Arena { base, cap, turn: 0 }
            }
        }
        /// The bytes, ending right before (two times out of three) or starting right after an
        /// inaccessible page.
        pub fn place(&mut self, d: &[u8]) -> &'static mut [u8] {
            self.turn += 1;
            if d.len() > self.cap {
                return Box::leak(d.to_vec().into_boxed_slice());
            }
            let off = if self.turn % 3 == 0 { 0 } else { self.cap - d.len() };
            unsafe {
                let p = self.base.add(off);
                std::ptr::copy_nonoverlapping(d.as_ptr(), p, d.len());
                std::slice::from_raw_parts_mut(p, d.len())
            }
        }
    }
    impl Arena {
        /// The bytes, ending `shift` bytes before the inaccessible page.
        pub fn end(&mut self, d: &[u8], shift: usize) -> &'static mut [u8] {
            assert!(d.len() + shift <= self.cap);
            unsafe {
                let p = self.base.add(self.cap - d.len() - shift);
                std::ptr::copy_nonoverlapping(d.as_ptr(), p, d.len());
                std::slice::from_raw_parts_mut(p, d.len())
            }
        }
    }
    pub fn zero_map(len: usize) -> &'static [u8] {
        unsafe {
            let p = mmap(std::ptr::null_mut(), len, 1, 0x22 | 0x4000, -1, 0) as *mut u8;
            assert!(p as isize != -1, "mmap");
            std::slice::from_raw_parts(p, len)
        }
    }
    extern "C" {
        fn signal(n: i32, h: usize) -> usize;
        fn write(fd: i32, p: *const c_void, n: usize) -> isize;
        fn _exit(c: i32) -> !;
    }
    pub static LINE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    extern "C" fn on_crash(sig: i32) {
        let mut b = *b"\nCRASH signal=00 line=0000000000\n";
        b[14] = b'0' + (sig / 10) as u8;
        b[15] = b'0' + (sig % 10) as u8;
        let mut v = LINE.load(std::sync::atomic::Ordering::Relaxed);
        for i in 0..10 {
            b[31 - i] = b'0' + (v % 10) as u8;
            v /= 10;
        }
        unsafe {
            write(2, b.as_ptr() as *const c_void, b.len());
            _exit(99)
        }
    }
    pub fn install_crash_handler() {
        unsafe {
            for s in [4, 6, 7, 8, 11] {
                signal(s, on_crash as extern "C" fn(i32) as usize);
            }
        }
    }
}
#[cfg(miri)]
mod imp {
    pub struct Arena {
        turn: usize,
    }
    impl Arena {
        pub fn new(_: usize) -> Self { Arena { turn: 0 } }
        /// An exactly sized allocation of its own: Miri reports any access outside it.
        pub fn place(&mut self, d: &[u8]) -> &'static mut [u8] {
            self.turn += 1;
            Box::leak(d.to_vec().into_boxed_slice())
        }
    }
    impl Arena {
        pub fn end(&mut self, d: &[u8], _: usize) -> &'static mut [u8] { Box::leak(d.to_vec().into_boxed_slice()) }
    }
    pub static LINE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    pub fn install_crash_handler() {}
    pub fn zero_map(len: usize) -> &'static [u8] { Box::leak(vec![0; len].into_boxed_slice()) }
}
pub use imp::*;
