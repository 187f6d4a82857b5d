//! Runtime shim. In the encoded build the primitives are symbols the executor interprets; in the
//! native build they record the outcome so that every model can be replayed on the real code.

#[cfg(not(feature = "native"))]
mod imp {
    use std::alloc::{GlobalAlloc, Layout};
    extern "C" {
        fn __sym_alloc(n: usize, a: usize) -> *mut u8;
        fn __sym_realloc(p: *mut u8, old: usize, a: usize, new: usize) -> *mut u8;
        fn __sym_out(p: *const u8, n: usize);
        fn __sym_fail(c: u32) -> !;
        fn __sym_reject() -> !;
        fn __sym_mark(c: u32);
        fn __sym_split(c: u32) -> u32;
        fn __sym_steps() -> u64;
        fn __sym_done() -> !;
    }
    struct Bump;
    unsafe impl GlobalAlloc for Bump {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            __sym_alloc(l.size(), l.align())
        }
        unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            __sym_realloc(p, l.size(), l.align(), n)
        }
    }
    #[global_allocator]
    static A: Bump = Bump;
    pub fn out(b: &[u8]) {
        unsafe { __sym_out(b.as_ptr(), b.len()) }
    }
    pub fn fail(c: u32) -> ! {
        unsafe { __sym_fail(c) }
    }
    pub fn reject() -> ! {
        unsafe { __sym_reject() }
    }
    pub fn mark(c: u32) {
        unsafe { __sym_mark(c) }
    }
    /// Same value; the executor follows each possible value on a path of its own.
    pub fn split(c: u8) -> u8 {
        unsafe { __sym_split(c as u32) as u8 }
    }
    /// Instructions executed so far.
    pub fn steps() -> u64 {
        unsafe { __sym_steps() }
    }
    /// Ends the run successfully.
    pub fn done() -> ! {
        unsafe { __sym_done() }
    }
    #[no_mangle]
    pub extern "C" fn harness(oracle: u32, p: *const u8, n: usize, c: *const u8, m: usize) -> u32 {
        let (a, b) = unsafe { (std::slice::from_raw_parts(p, n), std::slice::from_raw_parts(c, m)) };
        crate::dispatch(oracle, a, b)
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::Cell;
    thread_local! {
        static HASH: Cell<u64> = Cell::new(0);
        static STOP: Cell<u64> = Cell::new(0);
    }
    fn fnv(h: u64, b: u8) -> u64 {
        (h ^ b as u64).wrapping_mul(0x100000001b3)
    }
    pub fn out(b: &[u8]) {
        HASH.with(|h| {
            let mut x = h.get();
            for c in b {
                x = fnv(x, *c);
            }
            h.set(fnv(x, 0xA5));
        })
    }
    pub fn fail(c: u32) -> ! {
        STOP.with(|s| s.set(3 << 32 | c as u64));
        std::panic::resume_unwind(Box::new(()))
    }
    pub fn reject() -> ! {
        STOP.with(|s| s.set(1 << 32));
        std::panic::resume_unwind(Box::new(()))
    }
    pub fn mark(_: u32) {}
    pub fn split(c: u8) -> u8 {
        c
    }
    /// Natively, work is measured in processor time and only when a counterexample is replayed.
    pub fn measured() -> bool {
        std::env::var_os("SYMX_COST").is_some()
    }
    #[no_mangle]
    pub unsafe extern "C" fn symx_native(oracle: u32, p: *const u8, n: usize, c: *const u8, m: usize, hash: *mut u64) -> u64 {
        let fix = |p: *const u8, n: usize| if n == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(p, n) } };
        let (a, b) = (fix(p, n), fix(c, m));
        HASH.with(|h| h.set(0xcbf29ce484222325));
        STOP.with(|s| s.set(0));
        static ONCE: std::sync::Once = std::sync::Once::new();
        ONCE.call_once(|| {
            if std::env::var_os("SYMX_SHOW_PANIC").is_none() {
                std::panic::set_hook(Box::new(|_| {}))
            }
        });
        let r = std::panic::catch_unwind(|| crate::dispatch(oracle, a, b));
        *hash = HASH.with(|h| h.get());
        match r {
            Ok(v) => v as u64,
            Err(_) => {
                let s = STOP.with(|s| s.get());
                if s != 0 {
                    s
                } else {
                    2 << 32
                }
            }
        }
    }
}

pub use imp::*;

#[macro_export]
macro_rules! check {
    ($c:expr) => {
        if !$c {
            $crate::rt::fail(line!())
        }
    };
}
