//! Stand-ins for the calls std makes on the file system: nothing here touches the machine.
use std::ffi::{c_char, c_int, c_void, CStr};
use tokio::sx::{fs_exists, fs_op};
extern "C" { fn __errno_location() -> *mut c_int; }
const FD: c_int = 1_000_000;
const PROBE: &str = "/sx-none/probe";
unsafe fn s(p: *const c_char) -> String { CStr::from_ptr(p).to_string_lossy().into_owned() }
unsafe fn errno(e: c_int) -> c_int { *__errno_location() = e; -1 }
/// paths the simulated machine knows; natively everything else is read from the real one
#[cfg(feature = "native")]
unsafe fn real(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64) -> c_int {
    extern "C" { fn syscall(n: i64, ...) -> i64; }
    syscall(n, a, b, c, d, e) as c_int
}
fn there(p: &str) -> bool { p == PROBE || fs_exists(p) }
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, p: *const c_char, flags: c_int, mask: u32, buf: *mut u8) -> c_int {
    if p.is_null() { return errno(14); }
    #[cfg(feature = "native")]
    { if *p == 0 || !s(p).starts_with("/sx-none") && !there(&s(p)) { return real(332, fd as i64, p as i64, flags as i64, mask as i64, buf as i64); } }
    let _ = (fd, flags, mask);
    if !there(&s(p)) { return errno(2); }
    std::ptr::write_bytes(buf, 0, 256);
    *(buf as *mut u32) = 0x17ff;
    *(buf.add(28) as *mut u16) = if tokio::sx::fs_content(&s(p)).is_some() { 0o100644 } else { 0o40755 };
    0
}
#[no_mangle]
pub unsafe extern "C" fn openat64(fd: c_int, p: *const c_char, flags: c_int, mode: u32) -> c_int {
    #[cfg(feature = "native")]
    { if flags & 3 == 0 && !s(p).starts_with("/sx-none") && !there(&s(p)) { return real(257, fd as i64, p as i64, flags as i64, mode as i64, 0); } }
    let _ = (fd, flags, mode);
    if !there(&s(p)) { return errno(2); }
    FD
}
#[no_mangle]
pub unsafe extern "C" fn openat(fd: c_int, p: *const c_char, flags: c_int, mode: u32) -> c_int { openat64(fd, p, flags, mode) }
/// files opened through std: the descriptor is an index into this table
static mut FDS: Vec<(String, bool)> = vec![];
#[allow(static_mut_refs)]
unsafe fn file(fd: c_int) -> Option<&'static mut (String, bool)> { if fd > FD { FDS.get_mut((fd - FD - 1) as usize) } else { None } }
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: u32) -> c_int {
    let t = s(p);
    #[cfg(feature = "native")]
    { if flags & 3 == 0 && !t.starts_with("/sx-none") && !there(&t) { return real(2, p as i64, flags as i64, mode as i64, 0, 0); } }
    let (creat, excl, trunc) = (flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0);
    if tokio::sx::fs_fail("open", &t) { return errno(5); }
    let before = there(&t);
    if before && excl && creat { return errno(17); }
    if !before && !creat { return errno(2); }
    if flags & 3 == 0 { return FD; }
    if !before || trunc { fs_op("create_file", &t, b"", true); }
    if !before { fs_op(if mode & 0o100 != 0 { "executable" } else { "plain" }, &t, b"", true); }
    tokio::sx::world().open.borrow_mut().push(t.clone());
    FDS.push((t, true));
    FD + FDS.len() as c_int
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    let d = std::slice::from_raw_parts(b as *const u8, n);
    match file(fd) {
        Some(f) => {
            let bad = tokio::sx::fs_fail("write", &f.0);
            fs_op("write", &f.0, d, !bad);
            if bad { errno(5) as isize } else { n as isize }
        }
        None => {
            #[cfg(feature = "native")]
            { return real(1, fd as i64, b as i64, n as i64, 0, 0) as isize; }
            #[cfg(not(feature = "native"))]
            { n as isize }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    match file(fd) {
        Some(f) => { if f.1 { f.1 = false; let mut o = tokio::sx::world().open.borrow_mut(); if let Some(i) = o.iter().position(|x| *x == f.0) { o.remove(i); } } 0 }
        None => {
            #[cfg(feature = "native")]
            { if fd < FD { return real(3, fd as i64, 0, 0, 0, 0); } }
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: u32) -> c_int { match file(fd) { Some(f) => { fs_op(if mode & 0o100 != 0 { "executable" } else { "plain" }, &f.0, b"", true); 0 } None => errno(9) } }
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: u32) -> c_int { let t = s(p); if !there(&t) { return errno(2); } fs_op(if mode & 0o100 != 0 { "executable" } else { "plain" }, &t, b"", true); 0 }
#[no_mangle]
pub unsafe extern "C" fn fsync(_: c_int) -> c_int { 0 }
#[no_mangle]
pub unsafe extern "C" fn fdatasync(_: c_int) -> c_int { 0 }
static DIR: u8 = 0;
#[no_mangle]
pub unsafe extern "C" fn fdopendir(_: c_int) -> *mut c_void { &DIR as *const u8 as *mut c_void }
#[no_mangle]
pub unsafe extern "C" fn opendir(_: *const c_char) -> *mut c_void { &DIR as *const u8 as *mut c_void }
#[no_mangle]
pub unsafe extern "C" fn readdir64(_: *mut c_void) -> *mut c_void { std::ptr::null_mut() }
#[no_mangle]
pub unsafe extern "C" fn closedir(_: *mut c_void) -> c_int { 0 }
#[no_mangle]
pub unsafe extern "C" fn dirfd(_: *mut c_void) -> c_int { FD }
unsafe fn gone(p: *const c_char) -> c_int {
    let t = s(p);
    let ok = there(&t);
    fs_op("remove_dir_all", &t, b"", ok);
    if ok { 0 } else { errno(2) }
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(_: c_int, p: *const c_char, _: c_int) -> c_int { gone(p) }
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int { gone(p) }
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int { gone(p) }
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, _: u32) -> c_int { if tokio::sx::fs_fail("create_dir_all", &s(p)) { return errno(5); } fs_op("create_dir", &s(p), b"", true); 0 }
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int { fs_op("remove_rename", &s(a), b"", true); fs_op("create_dir", &s(b), b"", true); 0 }
/// natively: give up the rights to do harm, and make sure the stand-ins are in place
pub fn guard() {
    #[cfg(feature = "native")]
    unsafe {
        extern "C" { fn setgid(g: u32) -> c_int; fn setuid(u: u32) -> c_int; fn geteuid() -> u32; fn setgroups(n: usize, l: *const u32) -> c_int; }
        if geteuid() == 0 && (setgroups(0, std::ptr::null()) != 0 || setgid(65534) != 0 || setuid(65534) != 0) { println!("REPLAY-DIVERGED cannot drop privileges"); std::process::exit(4); }
        let seen = std::fs::symlink_metadata(PROBE).map(|m| m.is_dir()).unwrap_or(false);
        if !seen || std::fs::remove_dir_all(PROBE).is_err() || tokio::sx::world().fs.borrow().len() != 1 { println!("REPLAY-DIVERGED the file system is not simulated"); std::process::exit(4); }
        tokio::sx::world().fs.borrow_mut().clear();
    }
}
