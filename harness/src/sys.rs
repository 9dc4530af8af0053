//! Stand-ins for the system calls on files: those of the executable take precedence over libc's, so the file store
//! under test calls these. Calls on a file that is being watched (by this thread) are recorded, and can be made to
//! fail; all others go straight to the kernel.
use libc::{c_int, c_long, c_void, iovec, off_t, size_t, ssize_t};
use std::cell::{Cell, RefCell};

/// what happens to the calls on the watched file
#[derive(Default)]
pub struct Watch {
    /// content of the file before each call that may modify it
    pub before: Vec<Vec<u8>>,
    /// all states of the file since the last successful sync, oldest first
    pub since_sync: Vec<Vec<u8>>,
    pub syncs: usize,
    pub calls: usize,
    pub mutations: usize,
    /// fail this many calls from now
    pub fail_in: Option<usize>,
    /// only count calls that modify the file
    pub fail_mut: bool,
    pub errno: c_int,
    /// the failing write first writes a part of its data
    pub partial: usize,
    /// further calls fail as well
    pub sticky: bool,
    pub hit: usize,
    /// cut writes in two (not those of the header)
    pub short: bool,
    pub snapshots: bool,
}

thread_local! {
    /// the file that is watched
    static FILE: Cell<Option<(u64, u64)>> = const { Cell::new(None) };
    static WATCH: RefCell<Watch> = RefCell::new(Watch::default());
}

/// device and inode: a file is the same whatever descriptors it is used through
fn ident(fd: c_int) -> Option<(u64, u64)> {
    unsafe {
        let mut s: libc::stat = std::mem::zeroed();
        if libc::fstat(fd, &mut s) == 0 {
            Some((s.st_dev as u64, s.st_ino as u64))
        } else {
            None
        }
    }
}

pub fn watch(fd: c_int) {
    let id = if fd < 0 { None } else { ident(fd) };
    FILE.with(|f| f.set(id));
}
pub fn with<T>(f: impl FnOnce(&mut Watch) -> T) -> T {
    WATCH.with(|w| f(&mut w.borrow_mut()))
}

pub fn image(fd: c_int) -> Vec<u8> {
    unsafe {
        let n = crate::sys!(libc::SYS_lseek, fd, 0 as c_long, libc::SEEK_CUR as c_long);
        let end = crate::sys!(libc::SYS_lseek, fd, 0 as c_long, libc::SEEK_END as c_long);
        crate::sys!(libc::SYS_lseek, fd, n, libc::SEEK_SET as c_long);
        let mut r = vec![0u8; end.max(0) as usize];
        let mut at = 0;
        while at < r.len() {
            let k = crate::sys!(libc::SYS_pread64, fd, r[at..].as_mut_ptr(), r.len() - at, at as c_long);
            if k <= 0 {
                break;
            }
            at += k as usize;
        }
        r.truncate(at);
        r
    }
}

enum Verdict {
    Go,
    Fail(c_int, usize),
    Short,
}

fn note(w: &mut Watch, img: &[u8]) {
    if w.since_sync.last().map(|x| &x[..] != img).unwrap_or(true) {
        w.since_sync.push(img.to_vec());
    }
}

/// called before a call on fd
fn enter(fd: c_int, mutates: bool) -> Option<Verdict> {
    crate::sched::point();
    let file = FILE.try_with(|f| f.get()).ok().flatten()?;
    if fd < 0 || ident(fd) != Some(file) {
        return None;
    }
    WATCH
        .try_with(|w| {
            let Ok(mut w) = w.try_borrow_mut() else { return None };
            w.calls += 1;
            if mutates {
                w.mutations += 1;
                if w.snapshots {
                    let img = image(fd);
                    note(&mut w, &img);
                    w.before.push(img);
                }
            }
            if mutates || !w.fail_mut {
                if let Some(n) = w.fail_in {
                    if n == 0 {
                        w.hit += 1;
                        if !w.sticky {
                            w.fail_in = None;
                        }
                        return Some(Verdict::Fail(w.errno, w.partial));
                    }
                    w.fail_in = Some(n - 1);
                }
            }
            Some(if mutates && w.short { Verdict::Short } else { Verdict::Go })
        })
        .ok()
        .flatten()
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}
unsafe fn ret(r: c_long) -> c_long {
    // libc::syscall has set errno
    r
}

/// position of the next write of fd
unsafe fn pos(fd: c_int) -> i64 {
    crate::sys!(libc::SYS_lseek, fd, 0 as c_long, libc::SEEK_CUR as c_long)
}

unsafe fn out(fd: c_int, buf: *const c_void, n: size_t, at: Option<i64>) -> ssize_t {
    let go = |n: size_t| match at {
        Some(o) => ret(crate::sys!(libc::SYS_pwrite64, fd, buf, n, o)),
        None => ret(crate::sys!(libc::SYS_write, fd, buf, n)),
    };
    match enter(fd, true) {
        Some(Verdict::Fail(e, partial)) => {
            // the header is within a sector: it is written or not
            if partial > 0 && at.unwrap_or_else(|| pos(fd)) >= 512 {
                go(partial.min(n));
            }
            set_errno(e);
            -1
        }
        Some(Verdict::Short) if n > 1 && at.unwrap_or_else(|| pos(fd)) >= 512 => go(n / 2) as ssize_t,
        _ => go(n) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    out(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, o: off_t) -> ssize_t {
    out(fd, buf, n, Some(o))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, o: off_t) -> ssize_t {
    out(fd, buf, n, Some(o))
}
unsafe fn outv(fd: c_int, v: *const iovec, k: c_int, at: Option<i64>) -> ssize_t {
    match enter(fd, true) {
        Some(Verdict::Fail(e, _)) => {
            set_errno(e);
            -1
        }
        Some(Verdict::Short) if k > 1 => match at {
            Some(o) => crate::sys!(libc::SYS_pwritev, fd, v, 1 as c_long, o, 0 as c_long) as ssize_t,
            None => crate::sys!(libc::SYS_writev, fd, v, 1 as c_long) as ssize_t,
        },
        _ => match at {
            Some(o) => crate::sys!(libc::SYS_pwritev, fd, v, k as c_long, o, 0 as c_long) as ssize_t,
            None => crate::sys!(libc::SYS_writev, fd, v, k as c_long) as ssize_t,
        },
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, k: c_int) -> ssize_t {
    outv(fd, v, k, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwritev(fd: c_int, v: *const iovec, k: c_int, o: off_t) -> ssize_t {
    outv(fd, v, k, Some(o))
}
#[no_mangle]
pub unsafe extern "C" fn pwritev64(fd: c_int, v: *const iovec, k: c_int, o: off_t) -> ssize_t {
    outv(fd, v, k, Some(o))
}

unsafe fn simple(fd: c_int, mutates: bool, f: impl FnOnce() -> c_long) -> c_long {
    match enter(fd, mutates) {
        Some(Verdict::Fail(e, _)) => {
            set_errno(e);
            -1
        }
        _ => f(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: off_t) -> c_int {
    simple(fd, true, || crate::sys!(libc::SYS_ftruncate, fd, n)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off_t) -> c_int {
    simple(fd, true, || crate::sys!(libc::SYS_ftruncate, fd, n)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fallocate(fd: c_int, mode: c_int, o: off_t, n: off_t) -> c_int {
    simple(fd, true, || crate::sys!(libc::SYS_fallocate, fd, mode as c_long, o, n)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, o: off_t, n: off_t) -> c_int {
    simple(fd, true, || crate::sys!(libc::SYS_fallocate, fd, mode as c_long, o, n)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, o: off_t, w: c_int) -> off_t {
    simple(fd, false, || crate::sys!(libc::SYS_lseek, fd, o, w as c_long))
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, o: off_t, w: c_int) -> off_t {
    simple(fd, false, || crate::sys!(libc::SYS_lseek, fd, o, w as c_long))
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    simple(fd, false, || crate::sys!(libc::SYS_read, fd, buf, n)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, o: off_t) -> ssize_t {
    simple(fd, false, || crate::sys!(libc::SYS_pread64, fd, buf, n, o)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, n: size_t, p: c_int, fl: c_int, fd: c_int, o: off_t) -> *mut c_void {
    simple(fd, false, || crate::sys!(libc::SYS_mmap, a, n, p as c_long, fl as c_long, fd as c_long, o)) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, n: size_t, p: c_int, fl: c_int, fd: c_int, o: off_t) -> *mut c_void {
    mmap(a, n, p, fl, fd, o)
}
unsafe fn sync_call(fd: c_int, nr: c_long) -> c_int {
    match enter(fd, true) {
        Some(Verdict::Fail(e, _)) => {
            set_errno(e);
            -1
        }
        x => {
            let r = crate::sys!(nr, fd) as c_int;
            if x.is_some() && r == 0 {
                with(|w| {
                    w.syncs += 1;
                    if w.snapshots {
                        w.since_sync = vec![image(fd)];
                    }
                });
            }
            r
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync_call(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync_call(fd, libc::SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn syncfs(fd: c_int) -> c_int {
    sync_call(fd, libc::SYS_syncfs)
}
