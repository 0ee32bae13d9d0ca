//! Ownership of the file system calls the code under test makes: this binary interposes the libc
//! symbols `std` calls, so that the harness decides which call fails and in what order a directory
//! lists its entries. Inactive unless a plan is set for the running thread.
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_long, c_uint, c_void, CStr};
use std::sync::OnceLock;

extern "C" {
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
    fn __errno_location() -> *mut c_int;
    fn syscall(n: c_long, ...) -> c_long;
}
const RTLD_NEXT: *mut c_void = -1isize as *mut c_void;

fn real(slot: &OnceLock<usize>, name: &CStr) -> usize {
    *slot.get_or_init(|| {
        let p = unsafe { dlsym(RTLD_NEXT, name.as_ptr()) } as usize;
        assert!(p != 0, "harness: no {name:?}");
        p
    })
}

#[derive(Default, Clone)]
pub struct Plan {
    /// fail the call with this number (from 0) with this errno
    pub fail: Option<(u64, i32)>,
    /// every call from that one on fails, too
    pub sticky: bool,
    /// reads and writes transfer at most this many bytes
    pub short: Option<usize>,
    /// every read and write is interrupted once
    pub eintr: bool,
    /// which permutation of its sorted entries a directory lists
    pub perm: Option<u64>,
}
thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static PLAN: RefCell<Plan> = RefCell::new(Plan::default());
    static LOG: RefCell<Vec<&'static str>> = const { RefCell::new(vec![]) };
    static DIRS: RefCell<HashMap<usize, (Vec<Vec<u8>>, usize)>> = RefCell::new(HashMap::new());
    static INTR: Cell<bool> = const { Cell::new(false) };
}

/// Run `f` under the plan; what it returned and the calls it made.
pub fn with_plan<T>(p: Plan, f: impl FnOnce() -> T) -> (T, Vec<&'static str>) {
    PLAN.with(|x| *x.borrow_mut() = p);
    COUNT.with(|c| c.set(0));
    LOG.with(|l| l.borrow_mut().clear());
    DIRS.with(|d| d.borrow_mut().clear());
    INTR.with(|i| i.set(false));
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ACTIVE.with(|a| a.set(false));
        }
    }
    let off = Off;
    ACTIVE.with(|a| a.set(true));
    let r = f();
    drop(off);
    DIRS.with(|d| d.borrow_mut().clear());
    (r, LOG.with(|l| l.borrow().clone()))
}

fn active() -> bool {
    ACTIVE.try_with(|a| a.get()).unwrap_or(false)
}
/// Counts a call; the errno it is to fail with.
fn turn(what: &'static str) -> Option<i32> {
    ACTIVE.with(|a| a.set(false));
    LOG.with(|l| l.borrow_mut().push(what));
    let n = COUNT.with(|c| {
        let n = c.get();
        c.set(n + 1);
        n
    });
    let r = PLAN.with(|p| {
        let p = p.borrow();
        p.fail.filter(|(k, _)| *k == n || (p.sticky && n > *k)).map(|(_, e)| e)
    });
    ACTIVE.with(|a| a.set(true));
    r
}
unsafe fn errno(e: i32) {
    *__errno_location() = e;
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if active() {
        if let Some(e) = turn("open") {
            errno(e);
            return -1;
        }
    }
    static S: OnceLock<usize> = OnceLock::new();
    let f: extern "C" fn(*const c_char, c_int, ...) -> c_int = std::mem::transmute(real(&S, c"open64"));
    f(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let mut n = n;
    if active() {
        let eintr = PLAN.with(|p| p.borrow().eintr);
        if eintr && !INTR.with(|i| i.replace(!i.get())) {
            errno(4);
            return -1;
        }
        if let Some(e) = turn("read") {
            errno(e);
            return -1;
        }
        if let Some(k) = PLAN.with(|p| p.borrow().short) {
            n = n.min(k);
        }
    }
    // SYS_read on x86-64 and aarch64
    syscall(if cfg!(target_arch = "aarch64") { 63 } else { 0 }, fd as c_long, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let mut n = n;
    if active() {
        let eintr = PLAN.with(|p| p.borrow().eintr);
        if eintr && !INTR.with(|i| i.replace(!i.get())) {
            errno(4);
            return -1;
        }
        if let Some(e) = turn("write") {
            errno(e);
            return -1;
        }
        if let Some(k) = PLAN.with(|p| p.borrow().short) {
            n = n.min(k);
        }
    }
    // SYS_write on x86-64 and aarch64
    syscall(if cfg!(target_arch = "aarch64") { 64 } else { 1 }, fd as c_long, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    if active() {
        if let Some(e) = turn("opendir") {
            errno(e);
            return std::ptr::null_mut();
        }
    }
    static S: OnceLock<usize> = OnceLock::new();
    let f: extern "C" fn(*const c_char) -> *mut c_void = std::mem::transmute(real(&S, c"opendir"));
    let d = f(path);
    if active() {
        DIRS.with(|m| m.borrow_mut().remove(&(d as usize)));
    }
    d
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(dir: *mut c_void) -> *mut c_void {
    static S: OnceLock<usize> = OnceLock::new();
    let f: extern "C" fn(*mut c_void) -> *mut c_void = std::mem::transmute(real(&S, c"readdir64"));
    if !active() {
        return f(dir);
    }
    if let Some(e) = turn("readdir") {
        errno(e);
        return std::ptr::null_mut();
    }
    let Some(perm) = PLAN.with(|p| p.borrow().perm) else { return f(dir) };
    DIRS.with(|m| {
        let mut m = m.borrow_mut();
        let (entries, next) = m.entry(dir as usize).or_insert_with(|| {
            let mut all: Vec<Vec<u8>> = vec![];
            loop {
                let e = f(dir) as *const u8;
                if e.is_null() {
                    break;
                }
                // struct dirent64: ino 8, off 8, reclen 2, type 1, name
                let len = u16::from_ne_bytes([*e.add(16), *e.add(17)]) as usize;
                all.push(std::slice::from_raw_parts(e, len).to_vec());
            }
            all.sort_by(|a, b| a[19..].cmp(&b[19..]));
            let mut out = vec![];
            let mut k = perm;
            while !all.is_empty() {
                let i = (k % all.len() as u64) as usize;
                k /= all.len() as u64;
                out.push(all.remove(i));
            }
            (out, 0)
        });
        if *next < entries.len() {
            *next += 1;
            entries[*next - 1].as_mut_ptr() as *mut c_void
        } else {
            errno(0);
            std::ptr::null_mut()
        }
    })
}
