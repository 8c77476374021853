//! One file below /vfs/ whose contents, and whatever goes wrong while it is opened and read, the harness decides.
//! The library reaches it through std's own file code: these definitions take the place of libc's. Everything
//! which is not below /vfs/ goes to the kernel as usual (native runs only; the symbolic runs have nothing else).
use crate::sym::*;
use std::cell::UnsafeCell;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_long, c_void};

pub const FD: c_int = 1000;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub struct Fs {
    pub content: Vec<u8>,
    pub path: Vec<u8>,
    pub pos: usize,
    /// error of the first open
    pub open_error: i32,
    /// what the reads do, in turn: 0 as much as fits, 1.. at most so many bytes, negative: that errno; afterwards 0
    pub reads: Vec<i32>,
    pub next: usize,
    pub size_known: bool,
    pub opened: usize,
    pub closed: usize,
    pub wrong_path: bool,
    pub served: bool,
}
struct Cell(UnsafeCell<Fs>);
unsafe impl Sync for Cell {}
static FS: Cell = Cell(UnsafeCell::new(Fs { content: Vec::new(), path: Vec::new(), pos: 0, open_error: 0, reads: Vec::new(), next: 0, size_known: true, opened: 0, closed: 0, wrong_path: false, served: false }));
pub fn fs() -> &'static mut Fs { unsafe { &mut *FS.0.get() } }
pub fn reset(path: &str, content: Vec<u8>) {
    *fs() = Fs { content, path: path.as_bytes().to_vec(), pos: 0, open_error: 0, reads: vec![], next: 0, size_known: true, opened: 0, closed: 0, wrong_path: false, served: false };
}

extern "C" {
    fn __errno_location() -> *mut c_int;
    fn syscall(n: c_long, ...) -> c_long;
}
fn err(e: i32) -> c_int { unsafe { *__errno_location() = e; } -1 }
unsafe fn ours(p: *const c_char) -> bool {
    let b = CStr::from_ptr(p).to_bytes();
    b.len() > 5 && b[0] == b'/' && b[1] == b'v' && b[2] == b'f' && b[3] == b's' && b[4] == b'/'
}

unsafe fn open_any(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if !ours(p) { return syscall(2, p, flags as c_long, mode as c_long) as c_int; }
    let f = fs();
    if !same_bytes(CStr::from_ptr(p).to_bytes(), &f.path) { f.wrong_path = true; return err(2); }
    let e = f.open_error;
    if e != 0 { f.open_error = if e == EINTR { 0 } else { e }; return err(e); }
    f.opened += 1;
    f.pos = 0;
    FD
}
#[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int { open_any(p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd != FD { return syscall(3, fd as c_long) as c_int; }
    fs().closed += 1;
    0
}
#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    if fd != FD { return syscall(0, fd as c_long, buf, n) as isize; }
    let f = fs();
    let left = f.content.len() - f.pos;
    let mut k = if n < left { n } else { left };
    let how = if f.next < f.reads.len() { f.reads[f.next] } else { 0 };
    f.next += 1;
    if how < 0 { f.served |= how != -EINTR; return err(-how) as isize; }
    if how > 0 && (how as usize) < k { k = how as usize; }
    for i in 0..k { *(buf as *mut u8).add(i) = f.content[f.pos + i]; }
    f.pos += k;
    k as isize
}
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if fd != FD { return syscall(8, fd as c_long, off, whence as c_long); }
    let f = fs();
    let base = match whence { 0 => 0, 1 => f.pos as i64, _ => f.content.len() as i64 };
    f.pos = ((base + off) as usize).min(f.content.len());
    f.pos as i64
}
#[no_mangle] pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if fd != FD { return syscall(72, fd as c_long, cmd as c_long, arg) as c_int; }
    0
}
unsafe fn put(buf: *mut u8, at: usize, v: u64, n: usize) { for i in 0..n { *buf.add(at + i) = (v >> (8 * i)) as u8; } }
#[no_mangle] pub unsafe extern "C" fn statx(dir: c_int, p: *const c_char, flags: c_int, mask: u32, buf: *mut u8) -> c_int {
    if dir != FD && (p.is_null() || !ours(p)) { return syscall(332, dir as c_long, p, flags as c_long, mask as c_long, buf) as c_int; }
    for i in 0..256 { *buf.add(i) = 0; }
    put(buf, 0, 0x7ff, 4);
    put(buf, 28, 0o100644, 2);
    put(buf, 40, if fs().size_known { fs().content.len() as u64 } else { 0 }, 8);
    0
}
#[no_mangle] pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut u8) -> c_int {
    if fd != FD { return syscall(5, fd as c_long, buf) as c_int; }
    for i in 0..144 { *buf.add(i) = 0; }
    put(buf, 24, 0o100644, 4);
    put(buf, 48, if fs().size_known { fs().content.len() as u64 } else { 0 }, 8);
    0
}
