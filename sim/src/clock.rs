//! The clock seam: this executable defines `clock_gettime`, so every `Instant::now()` and
//! `SystemTime::now()` of the code under test reads the simulated clock of the running thread.
//! Outside a simulated run (supervisor, wall-time accounting) the real clock is read by system call.
use std::cell::{Cell, RefCell};

thread_local! {
    static SIM: Cell<bool> = const { Cell::new(false) };
    static MONO: Cell<u64> = const { Cell::new(0) };   // ns
    static REAL: Cell<i64> = const { Cell::new(0) };   // ns since the epoch
    static READS: Cell<u64> = const { Cell::new(0) };
    /// ns added to both clocks at each monotonic read: a cyclic list of costs, then the default
    static COST: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
}

pub fn sim_begin(mono_ns: u64, real_ns: i64) {
    MONO.with(|c| c.set(mono_ns));
    REAL.with(|c| c.set(real_ns));
    READS.with(|c| c.set(0));
    COST.with(|c| c.borrow_mut().clear());
    SIM.with(|c| c.set(true));
}
pub fn sim_end() {
    SIM.with(|c| c.set(false));
}
pub fn advance(ns: u64) {
    MONO.with(|c| c.set(c.get() + ns));
    REAL.with(|c| c.set(c.get() + ns as i64));
}
/// Wall clock jump (NTP step): only the real-time clock moves.
pub fn jump_real(ns: i64) {
    REAL.with(|c| c.set(c.get() + ns));
}
pub fn set_costs(v: Vec<u64>) {
    COST.with(|c| *c.borrow_mut() = v);
}
pub fn mono() -> u64 {
    MONO.with(|c| c.get())
}
pub fn real() -> i64 {
    REAL.with(|c| c.get())
}
pub fn reads() -> u64 {
    READS.with(|c| c.get())
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let sim = SIM.try_with(|c| c.get()).unwrap_or(false);
    if !sim {
        return libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int;
    }
    let ns: i128 = if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
        real() as i128
    } else {
        let n = READS.with(|c| {
            let n = c.get();
            c.set(n + 1);
            n
        });
        let cost = COST.with(|c| {
            let c = c.borrow();
            if c.is_empty() {
                0
            } else {
                c[(n as usize) % c.len()]
            }
        });
        if cost > 0 {
            advance(cost);
        }
        mono() as i128
    };
    (*ts).tv_sec = ns.div_euclid(1_000_000_000) as libc::time_t;
    (*ts).tv_nsec = ns.rem_euclid(1_000_000_000) as libc::c_long;
    0
}
