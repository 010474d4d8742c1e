//! The system calls behind std::fs::File, seen and failed from inside of the process: the
//! executable defines these symbols itself, so the standard library's calls arrive here.
//! Nothing is recorded on threads that do not watch a file.
use crate::dev::Ev;
use libc::{c_char, c_int, c_void, iovec, mode_t, off64_t, size_t, ssize_t};
use std::cell::RefCell;

#[derive(Default)]
pub struct Rec {
    ino: (u64, u64),
    /// writes to the file, and successful syncs of it
    pub log: Vec<Ev>,
    /// syncs asked for so far, and which of them fail with what
    pub syncs: u32,
    pub fail: Option<(u32, bool, i32)>,
    pub failed: u32,
    /// opening anything for writing is not permitted
    pub deny: bool,
    pub denied: u32,
    pub truncated: u32,
}
thread_local! {
    static REC: RefCell<Option<Rec>> = const { RefCell::new(None) };
}
/// watch this file on this thread
pub fn watch(path: &std::path::Path) {
    use std::os::unix::fs::MetadataExt;
    let m = std::fs::metadata(path).expect("watched file");
    REC.with(|r| *r.borrow_mut() = Some(Rec { ino: (m.dev(), m.ino()), ..Default::default() }));
}
pub fn with<T>(f: impl FnOnce(&mut Rec) -> T) -> T {
    REC.with(|r| f(r.borrow_mut().as_mut().expect("a watched file")))
}
pub fn unwatch() -> Rec {
    REC.with(|r| r.borrow_mut().take()).unwrap_or_default()
}

fn with_fd<T>(fd: c_int, f: impl FnOnce(&mut Rec) -> T) -> Option<T> {
    REC.try_with(|r| {
        let mut r = r.try_borrow_mut().ok()?;
        let rec = r.as_mut()?;
        let mut st: libc::stat64 = unsafe { std::mem::zeroed() };
        if unsafe { libc::fstat64(fd, &mut st) } != 0 || (st.st_dev, st.st_ino) != rec.ino {
            return None;
        }
        Some(f(rec))
    })
    .ok()
    .flatten()
}
fn any<T>(f: impl FnOnce(&mut Rec) -> T) -> Option<T> {
    REC.try_with(|r| r.try_borrow_mut().ok().and_then(|mut r| r.as_mut().map(f))).ok().flatten()
}
unsafe fn pos(fd: c_int) -> u64 {
    libc::lseek64(fd, 0, libc::SEEK_CUR).max(0) as u64
}
unsafe fn wrote(fd: c_int, off: u64, buf: *const u8, n: ssize_t) {
    if n <= 0 {
        return;
    }
    with_fd(fd, |r| {
        let data = std::slice::from_raw_parts(buf, n as usize).to_vec();
        r.log.push(Ev::Write { off, data });
        // a descriptor opened for synchronous writing
        if libc::fcntl(fd, libc::F_GETFL) & libc::O_DSYNC != 0 {
            r.log.push(Ev::Flush);
        }
    });
}
unsafe fn errno(e: i32) {
    *libc::__errno_location() = e;
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let watched = with_fd(fd, |_| ()).is_some();
    let at = if watched { pos(fd) } else { 0 };
    let r = libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t;
    if watched {
        wrote(fd, at, buf as *const u8, r);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    let r = libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t;
    wrote(fd, off as u64, buf as *const u8, r);
    r
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if with_fd(fd, |_| ()).is_none() {
        return libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t;
    }
    // one piece is enough: the caller copes with short writes
    for i in 0..n.max(0) as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return write(fd, v.iov_base, v.iov_len);
        }
    }
    0
}
unsafe fn sync_fd(fd: c_int, nr: libc::c_long) -> c_int {
    let r = with_fd(fd, |r| {
        let k = r.syncs;
        r.syncs += 1;
        match r.fail {
            Some((at, onwards, e)) if k == at || onwards && k > at => {
                r.failed += 1;
                e
            }
            _ => {
                r.log.push(Ev::Flush);
                0
            }
        }
    });
    match r {
        Some(0) => 0,
        Some(e) => {
            errno(e);
            -1
        }
        None => libc::syscall(nr, fd) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync_fd(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync_fd(fd, libc::SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn syncfs(fd: c_int) -> c_int {
    match any(|r| r.log.push(Ev::Flush)) {
        Some(()) => 0,
        None => libc::syscall(libc::SYS_syncfs, fd) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    with_fd(fd, |r| r.truncated += 1);
    libc::syscall(libc::SYS_ftruncate, fd, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let w = flags & libc::O_ACCMODE != libc::O_RDONLY;
    let denied = any(|r| {
        if w && r.deny {
            r.denied += 1;
        }
        w && r.deny
    });
    if denied == Some(true) {
        errno(libc::EACCES);
        return -1;
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode) as c_int
}
