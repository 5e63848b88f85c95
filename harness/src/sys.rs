//! Process-level plumbing: a deterministic source of "randomness" for the code under
//! test, an allocation budget per case, and panic capturing.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};

extern "C" {
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
    fn _exit(code: i32) -> !;
}

thread_local! {
    static ALLOCATED: Cell<u64> = const { Cell::new(0) };
    /// 0 = unlimited
    static BUDGET: Cell<u64> = const { Cell::new(0) };
    static RNG: Cell<u64> = const { Cell::new(0x9e3779b97f4a7c15) };
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
    /// nanoseconds since 1970, 0 = the real time
    static CLOCK: Cell<u128> = const { Cell::new(0) };
    /// how far the clock goes on between two looks at it
    static STEP: Cell<u128> = const { Cell::new(1) };
}

pub const RUNAWAY_EXIT: i32 = 77;
pub const RUNAWAY_MARK: &str = "RUNAWAY-ALLOCATION";

struct Counting;

fn account(size: usize) {
    let _ = ALLOCATED.try_with(|a| {
        let n = a.get().wrapping_add(size as u64);
        a.set(n);
        let budget = BUDGET.try_with(Cell::get).unwrap_or(0);
        if budget != 0 && n > budget {
            let msg = b"RUNAWAY-ALLOCATION: a single case allocated more than its budget\n";
            unsafe {
                write(2, msg.as_ptr().cast(), msg.len());
                _exit(RUNAWAY_EXIT);
            }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static GLOBAL: Counting = Counting;

/// Replaces libc's `getrandom`: the hash seeds of `HashMap` and generated UUIDs are a
/// function of the case that is being run.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = RNG.try_with(Cell::get).unwrap_or(1);
    for i in 0..len {
        if i % 8 == 0 {
            s = s.wrapping_add(0x9e3779b97f4a7c15);
        }
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^= z >> 31;
        *buf.add(i) = (z >> ((i % 8) * 8)) as u8;
    }
    let _ = RNG.try_with(|r| r.set(s));
    len as isize
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

/// Replaces libc's `clock_gettime`: inside of a case the time of day is any time between 1970
/// and 9999, derived from the case. Whenever it is asked for it goes on, by nothing, less than
/// 1 µs, 1 ms, or 1.5 s, depending on the case.
///
/// # Safety
/// like the original
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    #[cfg(target_arch = "x86_64")]
    const NUMBER: i64 = 228;
    #[cfg(not(target_arch = "x86_64"))]
    const NUMBER: i64 = 113;
    // CLOCK_REALTIME and CLOCK_REALTIME_COARSE
    if matches!(id, 0 | 5) {
        let now = CLOCK.try_with(Cell::get).unwrap_or(0);
        if now != 0 {
            (*ts).sec = (now / 1_000_000_000) as i64;
            (*ts).nsec = (now % 1_000_000_000) as i64;
            let step = STEP.try_with(Cell::get).unwrap_or(1);
            let _ = CLOCK.try_with(|c| c.set(now + now % step));
            return 0;
        }
    }
    syscall(NUMBER, id as i64, ts) as i32
}

fn start_clock(seed: u64) {
    let mut z = seed.wrapping_mul(0xff51afd7ed558ccd);
    z ^= z >> 33;
    z = z.wrapping_mul(0xc4ceb9fe1a85ec53);
    z ^= z >> 33;
    STEP.with(|s| s.set([1, 1_000, 1_000_000, 1_500_000_001][(z >> 62) as usize]));
    // one half of them in our times
    let range = if z & 1 == 1 { 253_402_000_000u64 } else { 4_000_000_000 };
    CLOCK.with(|c| c.set(1 + (z >> 1) as u128 % range as u128 * 1_000_000_000 + (z >> 40) as u128));
}

pub fn enter_case(seed: u64, budget: u64) {
    start_clock(seed);
    RNG.with(|r| r.set(seed));
    ALLOCATED.with(|a| a.set(0));
    BUDGET.with(|b| b.set(budget));
    IN_CASE.with(|c| c.set(true));
}

/// Within a case: what this thread gets for random, and the time it is (in seconds, standing still).
pub fn pretend(random: u64, seconds: u64) {
    RNG.with(|r| r.set(random));
    STEP.with(|s| s.set(1));
    CLOCK.with(|c| c.set(seconds as u128 * 1_000_000_000 + 1));
}

pub fn leave_case() {
    CLOCK.with(|c| c.set(0));
    BUDGET.with(|b| b.set(0));
    IN_CASE.with(|c| c.set(false));
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_CASE.with(Cell::get) {
            let loc = info
                .location()
                .map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column()))
                .unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
        } else {
            default(info)
        }
    }));
}

pub fn take_panic() -> Option<(String, String)> {
    PANIC.with(|p| p.borrow_mut().take())
}

/// Bytes that this thread has asked for since the case began.
pub fn allocated() -> u64 {
    ALLOCATED.with(Cell::get)
}

/// Nanoseconds this thread has been computing.
pub fn thread_time() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}

/// Gives the case its full budget again.
pub fn forget_allocated() {
    ALLOCATED.with(|a| a.set(0));
}
