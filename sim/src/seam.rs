//! Operating-system seams. While controller code runs, the clock, the environment and the
//! randomness it could reach are the simulator's: a function of the thread's run and of which
//! replica (`alt`) is executing, never of the machine. The executable's definitions of these C
//! symbols take precedence over the C library's. The shipped contract uses none of them; a change
//! that starts to is then exposed by the replicas disagreeing, and its histories stay replayable.

use std::cell::Cell;
use std::ffi::{c_char, c_int, c_long, c_uint, c_void, CStr};

thread_local! {
    static IN_CALL: Cell<bool> = const { Cell::new(false) };
    static ALT: Cell<u64> = const { Cell::new(0) };
    static TICKS: Cell<i64> = const { Cell::new(0) };
    static DRAWS: Cell<u64> = const { Cell::new(0) };
}

pub struct Guard(bool);

/// Marks the calling thread as executing contract code until the guard is dropped.
pub fn enter() -> Guard {
    TICKS.with(|t| t.set(0));
    Guard(IN_CALL.with(|c| c.replace(true)))
}

impl Drop for Guard {
    fn drop(&mut self) {
        IN_CALL.with(|c| c.set(self.0));
    }
}

/// Which replica's operating system the calling thread sees.
pub fn replica(alt: u64) -> u64 {
    ALT.with(|a| a.replace(alt))
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    static environ: *const *const c_char;
    fn syscall(n: c_long, ...) -> c_long;
}

const SYS_CLOCK_GETTIME: c_long = 228;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut Timespec) -> c_int {
    if IN_CALL.try_with(Cell::get).unwrap_or(false) {
        let alt = ALT.with(Cell::get) as i64;
        let tick = TICKS.with(|t| t.replace(t.get() + 1));
        // replicas are 12 days, an hour, a minute, a second and some nanoseconds apart
        (*ts).sec = 1_700_000_000 + alt * (12 * 86_400 + 3_661);
        (*ts).nsec = 123_456_789 + tick * 100 + alt * 1_001;
        return 0;
    }
    syscall(SYS_CLOCK_GETTIME, c_long::from(id), ts) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let want = CStr::from_ptr(name).to_bytes();
    if IN_CALL.try_with(Cell::get).unwrap_or(false) && !want.starts_with(b"RUST") {
        return if ALT.with(Cell::get) == 0 { std::ptr::null_mut() } else { c"1".as_ptr().cast_mut() };
    }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = CStr::from_ptr(*p).to_bytes();
        if e.len() > want.len() && e[want.len()] == b'=' && e.starts_with(want) {
            return (*p).add(want.len() + 1).cast_mut();
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, _flags: c_uint) -> isize {
    let alt = ALT.try_with(Cell::get).unwrap_or(0);
    let n = DRAWS.try_with(|d| d.replace(d.get() + 1)).unwrap_or(0);
    let mut r = crate::rng::Rng::new(crate::rng::mix(alt.wrapping_mul(0x9e37_79b9) ^ n));
    for i in 0..len {
        *buf.cast::<u8>().add(i) = r.next() as u8;
    }
    len as isize
}
