//! Injected I/O faults. The harness defines `write`, `writev` and `read`, which the standard library calls,
//! so that a plan of the current thread decides what becomes of each call on a file it opened.
//! Descriptors 0..2 and threads without a plan are never touched.
use std::cell::Cell;
use std::os::raw::{c_int, c_long, c_void};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// the n-th call, and every later one, fails with the errno
    FailFrom(u32, i32),
    /// only the n-th call fails
    FailOnce(u32, i32),
    /// every call transfers at most so many bytes
    Short(usize),
    /// the n-th call is interrupted (EINTR), which callers must retry
    Interrupt(u32),
    /// only so many bytes fit in all; the call that crosses the limit is cut, the next ones fail
    Full(u64, i32),
}

#[derive(Clone, Copy)]
struct Plan {
    on: bool,
    fault: Fault,
    calls: u32,
    bytes: u64,
    hit: bool,
}
thread_local! {
    static PLAN: Cell<Plan> = const { Cell::new(Plan { on: false, fault: Fault::None, calls: 0, bytes: 0, hit: false }) };
}
pub struct Report {
    /// calls made on files while the plan was active
    pub calls: u32,
    /// whether the fault took effect
    pub hit: bool,
}
/// Runs `f` with the fault in force on this thread.
pub fn with<R>(fault: Fault, f: impl FnOnce() -> R) -> (std::thread::Result<R>, Report) {
    PLAN.with(|p| p.set(Plan { on: true, fault, calls: 0, bytes: 0, hit: false }));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let p = PLAN.with(|p| p.replace(Plan { on: false, fault: Fault::None, calls: 0, bytes: 0, hit: false }));
    (r, Report { calls: p.calls, hit: p.hit })
}

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}
const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const ENOSPC: i32 = 28;

/// What to do with a call of `len` bytes: Ok(bytes to transfer) or Err(errno).
fn decide(fd: c_int, len: usize) -> Result<usize, i32> {
    if fd <= 2 {
        return Ok(len);
    }
    PLAN.try_with(|cell| {
        let mut p = cell.get();
        if !p.on {
            return Ok(len);
        }
        let k = p.calls;
        p.calls += 1;
        let r = match p.fault {
            Fault::None => Ok(len),
            Fault::FailFrom(n, e) if k >= n => Err(e),
            Fault::FailOnce(n, e) if k == n => Err(e),
            Fault::Interrupt(n) if k == n => Err(EINTR),
            Fault::Short(m) if len > m => {
                p.hit = true;
                Ok(m)
            }
            Fault::Full(max, e) if p.bytes + len as u64 > max => {
                p.hit = true;
                let left = (max - p.bytes.min(max)) as usize;
                if left == 0 {
                    Err(e)
                } else {
                    Ok(left)
                }
            }
            _ => Ok(len),
        };
        match r {
            Ok(n) => p.bytes += n as u64,
            Err(_) => p.hit = true,
        }
        cell.set(p);
        r
    })
    .unwrap_or(Ok(len))
}
unsafe fn transfer(nr: c_long, fd: c_int, buf: *const c_void, len: usize) -> isize {
    match decide(fd, len) {
        Ok(n) => syscall(nr, fd as c_long, buf, n) as isize,
        Err(e) => {
            *__errno_location() = e;
            -1
        }
    }
}
/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: usize) -> isize {
    transfer(1, fd, buf, len)
}
/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: usize) -> isize {
    transfer(0, fd, buf, len)
}
#[repr(C)]
pub struct IoVec {
    base: *const c_void,
    len: usize,
}
/// # Safety
/// As the C function. Transfers at most the first non-empty part, which callers must cope with.
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const IoVec, n: c_int) -> isize {
    if fd <= 2 || !PLAN.try_with(|p| p.get().on).unwrap_or(false) {
        return syscall(20, fd as c_long, iov, n as c_long) as isize;
    }
    for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.len > 0 {
            return write(fd, v.base, v.len);
        }
    }
    0
}
