//! System calls of this thread that fail, or stop being carried out as if the
//! process had died. The functions below take the place of the ones in the C
//! library, which the standard library calls; without a plan they only pass on.

use std::cell::{Cell, RefCell};
use std::ffi::{c_char, c_int, c_long, c_void, CStr};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// nothing fails, the calls are only counted and written down
    Watch,
    /// the call fails once
    Once,
    /// the call and all after it fail
    Sticky,
    /// the call and all after it are not carried out (as if the process had died before it)
    Crash,
    /// the call transfers one byte, then nothing more is carried out
    Torn,
    /// transfers happen in parts, and some are interrupted first
    Slow,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static KIND: Cell<Kind> = const { Cell::new(Kind::Watch) };
    static AT: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static HIT: Cell<bool> = const { Cell::new(false) };
    static RNG: Cell<u64> = const { Cell::new(1) };
    static LOG: RefCell<Vec<Call>> = const { RefCell::new(Vec::new()) };
}

#[derive(Clone, PartialEq, Debug)]
pub struct Call {
    pub name: &'static str,
    /// what is created, opened for writing, removed or renamed
    pub touches: Vec<String>,
}

pub struct Report {
    pub calls: Vec<Call>,
    pub hit: bool,
}
impl Report {
    pub fn touched(&self) -> Vec<String> {
        let mut v: Vec<String> = self.calls.iter().flat_map(|c| c.touches.clone()).collect();
        v.sort();
        v.dedup();
        v
    }
}

/// Runs `f` on this thread with the plan.
pub fn with<T>(kind: Kind, at: u64, f: impl FnOnce() -> T) -> (T, Report) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.set(false);
        }
    }
    KIND.set(kind);
    AT.set(at);
    COUNT.set(0);
    HIT.set(false);
    RNG.set(at | 1);
    LOG.with_borrow_mut(|l| l.clear());
    let off = Off;
    ON.set(true);
    let r = f();
    drop(off);
    (r, Report { calls: LOG.with_borrow_mut(std::mem::take), hit: HIT.get() })
}

enum Do {
    Pass,
    Fail(c_int),
    Short(usize),
}

const EIO: c_int = 5;
const EINTR: c_int = 4;

fn plan(name: &'static str, touches: &[&str], size: Option<usize>) -> Do {
    if !ON.get() {
        return Do::Pass;
    }
    ON.set(false);
    let n = COUNT.get();
    COUNT.set(n + 1);
    let d = match KIND.get() {
        Kind::Watch => Do::Pass,
        Kind::Once if n == AT.get() => Do::Fail(EIO),
        Kind::Sticky | Kind::Crash if n >= AT.get() => Do::Fail(EIO),
        Kind::Torn if n > AT.get() => Do::Fail(EIO),
        Kind::Torn if n == AT.get() && size.is_some_and(|s| s > 1) && matches!(name, "write" | "copy") => {
            HIT.set(true);
            Do::Short(size.unwrap_or(1) / 2)
        }
        Kind::Slow if size.is_some() => {
            let mut x = RNG.get();
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            RNG.set(x);
            match x % 4 {
                0 => Do::Fail(EINTR),
                1 => Do::Short(1),
                2 => Do::Short(((x >> 8) % 40 + 1) as usize),
                _ => Do::Pass,
            }
        }
        _ => Do::Pass,
    };
    if matches!(d, Do::Fail(EIO)) {
        HIT.set(true);
    }
    LOG.with_borrow_mut(|l| l.push(Call { name, touches: touches.iter().map(|s| s.to_string()).collect() }));
    ON.set(true);
    d
}

unsafe extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}

fn fail(e: c_int) -> c_int {
    unsafe { *__errno_location() = e };
    -1
}

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod nr {
    pub const READ: i64 = 0;
    pub const WRITE: i64 = 1;
    pub const LSEEK: i64 = 8;
    pub const RENAME: i64 = 82;
    pub const FTRUNCATE: i64 = 77;
    pub const MKDIR: i64 = 83;
    pub const UNLINK: i64 = 87;
    pub const OPENAT: i64 = 257;
    pub const PREAD: i64 = 17;
    pub const PWRITE: i64 = 18;
    pub const READV: i64 = 19;
    pub const WRITEV: i64 = 20;
    pub const SENDFILE: i64 = 40;
    pub const FSYNC: i64 = 74;
    pub const FDATASYNC: i64 = 75;
    pub const RMDIR: i64 = 84;
    pub const LINK: i64 = 86;
    pub const SYMLINK: i64 = 88;
    pub const CHMOD: i64 = 90;
    pub const FCHMOD: i64 = 91;
    pub const UNLINKAT: i64 = 263;
    pub const RENAMEAT: i64 = 264;
    pub const LINKAT: i64 = 265;
    pub const SPLICE: i64 = 275;
    pub const COPY_FILE_RANGE: i64 = 326;
}

unsafe fn text<'a>(p: *const c_char) -> &'a str {
    unsafe { CStr::from_ptr(p) }.to_str().unwrap_or("?")
}

unsafe fn open_any(dir: c_int, p: *const c_char, flags: c_int, mode: u32) -> c_int {
    if ON.get() {
        // O_WRONLY | O_RDWR | O_CREAT | O_TRUNC
        let writes = flags & (1 | 2 | 0o100 | 0o1000) != 0;
        let t = unsafe { text(p) };
        let touches: &[&str] = if writes { &[t] } else { &[] };
        if let Do::Fail(e) = plan(if writes { "open for writing" } else { "open" }, touches, None) {
            return fail(e);
        }
    }
    unsafe { syscall(nr::OPENAT, dir as i64, p, flags as i64, mode as i64) as c_int }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: u32) -> c_int {
    unsafe { open_any(-100, p, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(dir: c_int, p: *const c_char, flags: c_int, mode: u32) -> c_int {
    unsafe { open_any(dir, p, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: usize, off: i64) -> isize {
    let mut n = n;
    match plan("read", &[], Some(n)) {
        Do::Fail(e) => return fail(e) as isize,
        Do::Short(k) => n = n.min(k),
        Do::Pass => {}
    }
    unsafe { syscall(nr::PREAD, fd as i64, b, n, off) as isize }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: usize, off: i64) -> isize {
    let mut n = n;
    match plan("write", &[], Some(n)) {
        Do::Fail(e) => return fail(e) as isize,
        Do::Short(k) => n = n.min(k),
        Do::Pass => {}
    }
    unsafe { syscall(nr::PWRITE, fd as i64, b, n, off) as isize }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readv(fd: c_int, v: *const c_void, n: c_int) -> isize {
    if let Do::Fail(e) = plan("read", &[], None) {
        return fail(e) as isize;
    }
    unsafe { syscall(nr::READV, fd as i64, v, n as i64) as isize }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, v: *const c_void, n: c_int) -> isize {
    if fd > 2
        && let Do::Fail(e) = plan("write", &[], None)
    {
        return fail(e) as isize;
    }
    unsafe { syscall(nr::WRITEV, fd as i64, v, n as i64) as isize }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: usize, flags: u32) -> isize {
    let mut n = n;
    match plan("copy", &[], Some(n)) {
        Do::Fail(e) => return fail(e) as isize,
        Do::Short(k) => n = n.min(k.min(4000)),
        Do::Pass => {}
    }
    unsafe { syscall(nr::COPY_FILE_RANGE, a as i64, ao, b as i64, bo, n, flags as i64) as isize }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sendfile64(out: c_int, from: c_int, off: *mut i64, n: usize) -> isize {
    let mut n = n;
    match plan("copy", &[], Some(n)) {
        Do::Fail(e) => return fail(e) as isize,
        Do::Short(k) => n = n.min(k.min(4000)),
        Do::Pass => {}
    }
    unsafe { syscall(nr::SENDFILE, out as i64, from as i64, off, n) as isize }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn splice(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: usize, flags: u32) -> isize {
    let mut n = n;
    match plan("copy", &[], Some(n)) {
        Do::Fail(e) => return fail(e) as isize,
        Do::Short(k) => n = n.min(k.min(4000)),
        Do::Pass => {}
    }
    unsafe { syscall(nr::SPLICE, a as i64, ao, b as i64, bo, n, flags as i64) as isize }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if let Do::Fail(e) = plan("sync", &[], None) {
        return fail(e);
    }
    unsafe { syscall(nr::FSYNC, fd as i64) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if let Do::Fail(e) = plan("sync", &[], None) {
        return fail(e);
    }
    unsafe { syscall(nr::FDATASYNC, fd as i64) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: u32) -> c_int {
    if let Do::Fail(e) = plan("chmod", &[], None) {
        return fail(e);
    }
    unsafe { syscall(nr::FCHMOD, fd as i64, mode as i64) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: u32) -> c_int {
    if ON.get() {
        let x = unsafe { text(p) };
        if let Do::Fail(e) = plan("chmod", &[x], None) {
            return fail(e);
        }
    }
    unsafe { syscall(nr::CHMOD, p, mode as i64) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if ON.get() {
        let x = unsafe { text(p) };
        if let Do::Fail(e) = plan("rmdir", &[x], None) {
            return fail(e);
        }
    }
    unsafe { syscall(nr::RMDIR, p) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlinkat(dir: c_int, p: *const c_char, flags: c_int) -> c_int {
    if ON.get() {
        let x = unsafe { text(p) };
        if let Do::Fail(e) = plan("unlink", &[x], None) {
            return fail(e);
        }
    }
    unsafe { syscall(nr::UNLINKAT, dir as i64, p, flags as i64) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn renameat(da: c_int, a: *const c_char, db: c_int, b: *const c_char) -> c_int {
    if ON.get() {
        let (x, y) = unsafe { (text(a), text(b)) };
        if let Do::Fail(e) = plan("rename", &[x, y], None) {
            return fail(e);
        }
    }
    unsafe { syscall(nr::RENAMEAT, da as i64, a, db as i64, b) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if ON.get() {
        let y = unsafe { text(b) };
        if let Do::Fail(e) = plan("link", &[y], None) {
            return fail(e);
        }
    }
    unsafe { syscall(nr::LINK, a, b) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn linkat(da: c_int, a: *const c_char, db: c_int, b: *const c_char, flags: c_int) -> c_int {
    if ON.get() {
        let y = unsafe { text(b) };
        if let Do::Fail(e) = plan("link", &[y], None) {
            return fail(e);
        }
    }
    unsafe { syscall(nr::LINKAT, da as i64, a, db as i64, b, flags as i64) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if ON.get() {
        let y = unsafe { text(b) };
        if let Do::Fail(e) = plan("link", &[y], None) {
            return fail(e);
        }
    }
    unsafe { syscall(nr::SYMLINK, a, b) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    let mut n = n;
    match plan("read", &[], Some(n)) {
        Do::Fail(e) => return fail(e) as isize,
        Do::Short(k) => n = n.min(k),
        Do::Pass => {}
    }
    unsafe { syscall(nr::READ, fd as i64, b, n) as isize }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    let mut n = n;
    if fd > 2 {
        match plan("write", &[], Some(n)) {
            Do::Fail(e) => return fail(e) as isize,
            Do::Short(k) => n = n.min(k),
            Do::Pass => {}
        }
    }
    unsafe { syscall(nr::WRITE, fd as i64, b, n) as isize }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if let Do::Fail(e) = plan("seek", &[], None) {
        return fail(e) as i64;
    }
    unsafe { syscall(nr::LSEEK, fd as i64, off, whence as i64) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if let Do::Fail(e) = plan("truncate", &[], None) {
        return fail(e);
    }
    unsafe { syscall(nr::FTRUNCATE, fd as i64, len) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if ON.get() {
        let (x, y) = unsafe { (text(a), text(b)) };
        if let Do::Fail(e) = plan("rename", &[x, y], None) {
            return fail(e);
        }
    }
    unsafe { syscall(nr::RENAME, a, b) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if ON.get() {
        let x = unsafe { text(a) };
        if let Do::Fail(e) = plan("unlink", &[x], None) {
            return fail(e);
        }
    }
    unsafe { syscall(nr::UNLINK, a) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: u32) -> c_int {
    if ON.get() {
        let x = unsafe { text(a) };
        if let Do::Fail(e) = plan("mkdir", &[x], None) {
            return fail(e);
        }
    }
    unsafe { syscall(nr::MKDIR, a, mode as i64) as c_int }
}
