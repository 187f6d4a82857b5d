//! Model of the operating system: one input (standard input or a file), one output, arguments.

use crate::{Fault, Outcome, Run, IN, OLD, OUT};
use std::ffi::{c_char, c_int, c_void};

const IN_FD: c_int = 3;
const OUT_FD: c_int = 4;

struct World {
    src: Vec<u8>,
    run: Run,
    indent: Option<jotdown::html::Indentation>,
    pos: usize,
    written: usize,
    interrupted: bool,
    out: Outcome,
}

static mut WORLD: *mut World = std::ptr::null_mut();
static mut ERRNO: c_int = 0;

fn world() -> &'static mut World {
    unsafe { &mut *WORLD }
}

fn err(n: c_int) -> isize {
    unsafe { ERRNO = n };
    -1
}

extern "C" {
    fn __sym_argv(argc: c_int, argv: *const *const c_char, envp: *const *const c_char);
}

pub fn run(src: &[u8], run: Run, indent: Option<jotdown::html::Indentation>) {
    let args: Vec<Vec<u8>> = std::iter::once("jotdown").chain(run.args.iter().map(|s| s.as_str())).map(|s| [s.as_bytes(), &[0]].concat()).collect();
    let mut argv: Vec<*const c_char> = args.iter().map(|a| a.as_ptr() as *const c_char).collect();
    argv.push(std::ptr::null());
    let out = Outcome { status: 0, stdout: Vec::new(), file: None, message: false };
    let w = World { src: src.to_vec(), run, indent, pos: 0, written: 0, interrupted: false, out };
    unsafe {
        WORLD = Box::into_raw(Box::new(w));
        __sym_argv(args.len() as c_int, argv.as_ptr(), std::ptr::null());
    }
    std::mem::forget((args, argv));
    std::process::exit(crate::tool::entry())
}

fn path(p: *const c_char) -> &'static [u8] {
    unsafe { std::ffi::CStr::from_ptr(p) }.to_bytes()
}

#[no_mangle]
pub extern "C" fn mock_open64(p: *const c_char, flags: c_int, _mode: c_int) -> c_int {
    let w = world();
    let p = path(p);
    if p == IN.as_bytes() && flags & 3 == 0 {
        if w.run.fault == Fault::Open || !w.run.in_file {
            return err(2) as c_int;
        }
        return IN_FD;
    }
    if p == OUT.as_bytes() && flags & 3 != 0 {
        if w.run.fault == Fault::Create {
            return err(13) as c_int;
        }
        // O_EXCL, O_TRUNC, O_APPEND
        if flags & 0o200 != 0 {
            return err(17) as c_int;
        }
        w.out.file = Some(if flags & 0o1000 != 0 { Vec::new() } else { OLD.to_vec() });
        if flags & 0o2000 != 0 {
            w.written = w.out.file.as_ref().unwrap().len();
        }
        return OUT_FD;
    }
    err(2) as c_int
}

#[no_mangle]
pub extern "C" fn mock_read(fd: c_int, p: *mut u8, n: usize) -> isize {
    let w = world();
    if !(fd == IN_FD || fd == 0 && !w.run.in_file) {
        return if fd == 0 { 0 } else { err(9) };
    }
    if w.run.fault == Fault::InterruptRead && !w.interrupted {
        w.interrupted = true;
        return err(4);
    }
    let mut n = n.min(w.src.len() - w.pos);
    if w.run.chunk > 0 {
        n = n.min(w.run.chunk);
    }
    if let Fault::Read(k) = w.run.fault {
        if w.pos >= k {
            return err(5);
        }
        n = n.min(k - w.pos);
    }
    unsafe { std::ptr::copy_nonoverlapping(w.src[w.pos..].as_ptr(), p, n) };
    w.pos += n;
    n as isize
}

#[no_mangle]
pub extern "C" fn mock_write(fd: c_int, p: *const u8, n: usize) -> isize {
    let w = world();
    if fd == 2 {
        w.out.message |= n > 0;
        return n as isize;
    }
    if fd != 1 && (fd != OUT_FD || w.out.file.is_none()) {
        return err(9);
    }
    if w.run.fault == Fault::InterruptWrite && !w.interrupted {
        w.interrupted = true;
        return err(4);
    }
    let mut n = n;
    if w.run.chunk > 0 {
        n = n.min(w.run.chunk);
    }
    if let Fault::Write(k) = w.run.fault {
        if w.written >= k && n > 0 {
            return err(28);
        }
        n = n.min(k - w.written);
    }
    let b = unsafe { std::slice::from_raw_parts(p, n) };
    if fd == 1 {
        w.out.stdout.extend_from_slice(b);
    } else {
        let f = w.out.file.as_mut().unwrap();
        let end = (w.written + n).min(f.len());
        let start = w.written.min(f.len());
        f.splice(start..end, b.iter().copied());
    }
    w.written += n;
    n as isize
}

#[repr(C)]
pub struct IoVec {
    base: *const u8,
    len: usize,
}

#[no_mangle]
pub extern "C" fn mock_writev(fd: c_int, v: *const IoVec, n: c_int) -> isize {
    for v in unsafe { std::slice::from_raw_parts(v, n as usize) } {
        if v.len > 0 {
            return mock_write(fd, v.base, v.len);
        }
    }
    0
}

#[no_mangle]
pub extern "C" fn mock_fstat64(fd: c_int, st: *mut u8) -> c_int {
    let w = world();
    if fd != IN_FD {
        return err(9) as c_int;
    }
    unsafe {
        std::ptr::write_bytes(st, 0, 144);
        *(st.add(24) as *mut u32) = 0o100644;
        *(st.add(48) as *mut i64) = w.src.len() as i64;
    }
    0
}

#[no_mangle]
pub extern "C" fn mock_lseek64(fd: c_int, _off: i64, _whence: c_int) -> i64 {
    if fd == IN_FD {
        world().pos as i64
    } else {
        err(29) as i64
    }
}

#[no_mangle]
pub extern "C" fn mock_exit(status: c_int) -> ! {
    let w = world();
    w.out.status = status as u8;
    let indent = w.indent.take();
    crate::judge(&w.src, &w.run, indent, &w.out);
    crate::rt::done()
}

#[no_mangle]
pub extern "C" fn mock_close(_: c_int) -> c_int {
    0
}

#[no_mangle]
pub extern "C" fn mock_fcntl(fd: c_int, _: c_int) -> c_int {
    (fd < 0) as c_int
}

#[no_mangle]
pub extern "C" fn mock_isatty(_: c_int) -> c_int {
    err(25);
    0
}

#[no_mangle]
pub extern "C" fn mock_getenv(_: *const c_char) -> *mut c_char {
    std::ptr::null_mut()
}

#[no_mangle]
pub extern "C" fn mock___errno_location() -> *mut c_int {
    &raw mut ERRNO
}

#[no_mangle]
pub extern "C" fn mock___xpg_strerror_r(_: c_int, b: *mut c_char, _: usize) -> c_int {
    unsafe { *b = b'e' as c_char };
    unsafe { *b.add(1) = 0 };
    0
}

#[no_mangle]
pub extern "C" fn mock_mmap64(_: *mut c_void, _: usize, _: c_int, _: c_int, _: c_int, _: i64) -> *mut c_void {
    err(12) as *mut c_void
}

/// No system call has a wrapper that is missing here (statx).
#[no_mangle]
pub extern "C" fn mock_syscall(_: i64, _: i64, _: i64, _: i64, _: i64, _: i64) -> i64 {
    err(38) as i64
}
