//! The simulated machine: one process in which the real library code runs on
//! real threads of which exactly one is released at any time.
//!
//! Seams (none of them needs a change to the library):
//!  * compiler-inserted callbacks at every basic-block edge and every memory
//!    load and store of the library crate: the points of preemption, stall
//!    and re-entry, and the count of simulated steps;
//!  * the global allocator: addresses, contents of fresh and freed memory,
//!    moving reallocation, failures, per-call accounting;
//!  * `syscall` (futex: every std lock, condvar, once cell and park),
//!    `clock_gettime`, `gettimeofday`, `time`, `nanosleep`,
//!    `clock_nanosleep`, `getrandom`, `sched_yield`, `pthread_create` and
//!    `pthread_join`: blocking, time, entropy and threads.
use crate::plan::{Call, Strat, Switch};
use crate::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::*};

pub const MAXT: usize = 160; // simulated tasks, library threads included
pub const COORD: usize = MAXT; // the run's coordinator
const ARENA_SHIFT: u32 = 30;
const ARENA_LEN: usize = MAXT << ARENA_SHIFT;
const MAXCALLS: usize = 1 << 18;
pub const MAXSW: usize = 1 << 16;
const MAXDEPTH: usize = 40;

// ---------------------------------------------------------------- raw syscalls

pub unsafe fn raw(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    core::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
extern "C" {
    fn __errno_location() -> *mut i32;
    pub fn _exit(c: i32) -> !;
    pub fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    pub fn munmap(a: *mut u8, l: usize) -> i32;
    fn dlsym(h: *mut u8, n: *const u8) -> *mut u8;
    fn getauxval(k: u64) -> u64;
    static __data_start: u8;
    static _end: u8;
    #[link_name = "llvm.returnaddress"]
    fn return_address(level: i32) -> *const u8;
}
const SYS_FUTEX: usize = 202;

pub fn futex_wait(a: &AtomicU32, v: u32) {
    unsafe { raw(SYS_FUTEX, a as *const _ as usize, 128, v as usize, 0, 0, 0) };
}
pub fn futex_wake(a: &AtomicU32) {
    unsafe { raw(SYS_FUTEX, a as *const _ as usize, 129, 1, 0, 0, 0) };
}

// ---------------------------------------------------------------- shared report

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u32)]
pub enum Status {
    Running = 0,
    Ok = 1,
    Violation = 2,
    Inconclusive = 3,
}

pub const NSTAT: usize = 50;
macro_rules! stats { ($($i:ident = $n:expr),* $(,)?) => {
    $(pub const $i: usize = $n;)*
    pub const STAT_NAMES: &[(usize, &str)] = &[$(($n, stringify!($i))),*];
} }
stats! {
    S_CALLS = 0, S_SWITCHES = 1, S_PREEMPT_STEP = 2, S_PREEMPT_ALLOC = 3, S_PREEMPT_SHARED = 4,
    S_STALL_RESUMED = 5, S_STALL_FOREVER = 6, S_ALLOC_FAIL = 7, S_BUDGET_SET = 8, S_REFUSED = 9,
    S_UNWOUND_ALLOC = 10, S_UNWOUND_OTHER = 11, S_NESTED = 12, S_THREADS = 13, S_THREAD_RESTARTS = 14,
    S_DIRTY_FILLS = 15, S_SCRIBBLES = 16, S_MOVES = 17, S_CLOCK_READS = 18, S_ENTROPY_READS = 19,
    S_FUTEX_WAITS = 20, S_SHARED_ACCESSES = 21, S_ALLOCS = 22, S_STEPS = 23, S_SIM_NS = 24,
    S_MAX_INFLIGHT = 25, S_SMALL_STACKS = 26, S_SURVIVED_FAULT = 27, S_LIB_THREADS = 28,
    S_PREEMPT_IN_UNWIND = 29, S_SAME_ARGS_CONCURRENT = 30, S_LONG_OUTPUT = 31, S_ODD_ROWS = 32,
    S_DIGESTS_CHECKED = 33, S_DIGESTS_MANGLED = 34, S_MAX_WORK_RATIO = 35, S_MAX_PEAK_PERMILLE = 36,
    S_LONGEST_HISTORY = 37, S_IGNORED = 38, S_SLEEPS = 39, S_ENV_READS = 40, S_CPU_READS = 41, S_LEAK_CHECKS = 42, S_DIGESTS_REREAD = 43, S_CLOCK_JUMPS = 44, S_SPURIOUS_WAKES = 45, S_SWITCH_IN_CALL = 46, S_SKEWED = 47, S_TLS_ACCESSES = 48, S_FILE_OPENS = 49,
}

#[repr(C)]
pub struct Report {
    pub status: Status,
    pub class_len: u32,
    pub msg_len: u32,
    pub nsw: u32,
    pub hash: u64,
    pub faulted: u32,
    pub pad: u32,
    pub calls_done: u64,
    pub step0: u64, // steps of the first call (calibration)
    pub stats: [u64; NSTAT],
    pub class: [u8; 64],
    pub msg: [u8; 1024],
    pub sw: [(u32, u32, u64); MAXSW],
}

pub unsafe fn map_shared<T>() -> *mut T {
    let p = mmap(std::ptr::null_mut(), std::mem::size_of::<T>(), 3, 0x21, -1, 0);
    assert!(p as isize != -1);
    p as *mut T
}

// ---------------------------------------------------------------- machine state

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Unused,
    Ready,
    Blocked { addr: usize, deadline: u64 },
    Sleeping { until: u64 },
    Joining { task: usize },
    Stalled { forever: bool },
    Done,
}

#[derive(Clone, Copy)]
pub struct Frame {
    pub call: *const Call,
    pub id: u32,
    pub start: u64,
    pub cap: u64,
    pub width: u64,
    pub grace: u32,
    pub lax: bool, // outside the documented domain: nothing is promised about its end
    pub allocs: u64,
    pub shared: u64,
    delay_at: u64, // shared access at which to hold this call up (strategy 4)
    pub failed: u64,
    pub stalled: bool,
    pub nested: bool,
    pub active: bool,
}
const NOFRAME: Frame = Frame {
    call: std::ptr::null(), id: 0, start: 0, cap: u64::MAX, width: u64::MAX, grace: 0, lax: false, allocs: 0, shared: 0, delay_at: 0, failed: 0, stalled: true, nested: true, active: false,
};

#[derive(Clone, Copy)]
pub struct Task {
    pub st: St,
    pub step: u64,
    preempt_at: u64,
    prio: u64,
    hold_calls: u64, // held up until this many calls have ended ...
    hold_events: u64, // ... and this many shared accesses were made
    order: u64,
    wake: i32,
    pub depth: usize,
    pub fr: [Frame; MAXDEPTH],
    sw_pos: usize,
    bump: usize,
    lib: bool, // a thread the library started
    outside: u64, // steps that are not callbacks from library code
    lib_mark: u64, // callbacks before a library thread reached library code
    panic_mark: u64, // callbacks before the present panic's hook ran (MAX: not yet)
    free: [usize; 200],
}

pub struct Machine {
    pub live: bool,
    pub n: usize,
    pub t: [Task; MAXT + 1],
    pub rng: Rng,
    pub env: Rng,
    pub strat: Strat,
    pub explicit: bool,
    pub sched: Vec<Vec<(u64, usize)>>, // per task (index COORD: unused)
    changes: Vec<u64>,
    delays: u64,
    done_calls: u64,
    events: u64,
    next_wake: u64,
    favour: usize,
    gbase: u64, // steps of all tasks before the current one was resumed
    cur_from: u64,
    pub clock: u64,
    pub clock_jump: u64,
    pub fill: u8,
    scribble: bool,
    reuse: bool,
    moves: bool,
    spurious: bool,
    pub skew: bool,
    vars: u8,
    cpus: u64,
    order: u64,
    pub ncalls: u32,
    pub rep: *mut Report,
    pub finished: usize, // task whose thread has ended and waits to be joined
    pub flag: fn(&str) -> bool,
    pub reentry: fn(&Call, usize),
}

#[derive(Clone, Copy)]
pub struct CallMem {
    pub live: u32,
    pub bytes: u64,
    pub peak: u64,
}

static mut STEP: u64 = 0;
static mut NEXT: u64 = u64::MAX;
static mut CURT: usize = COORD;
static mut DATA_LO: usize = 0;
static mut TLS_LEN: usize = 0;
static mut TLS_LO: usize = 0; // of the running task
static mut TLS_MATTERS: bool = false; // overlap on one thread is what is being explored
static mut DATA_LEN: usize = 0;
static mut ARENA: usize = 0;
static mut CALLMEM: *mut CallMem = std::ptr::null_mut();
static mut MACH: *mut Machine = std::ptr::null_mut();
#[allow(clippy::declare_interior_mutable_const)]
const ZU: AtomicU32 = AtomicU32::new(0);
static GO: [AtomicU32; MAXT + 1] = [ZU; MAXT + 1];

thread_local! {
    static TL_TASK: Cell<usize> = const { Cell::new(usize::MAX) };
    /// 0 harness, 1 building arguments, 2 inside the library
    static TL_MODE: Cell<u8> = const { Cell::new(0) };
}

pub fn m() -> &'static mut Machine {
    unsafe { &mut *MACH }
}
pub fn step() -> u64 {
    unsafe { STEP }
}
pub fn set_mode(x: u8) -> u8 {
    TL_MODE.with(|c| c.replace(x))
}
pub fn mode() -> u8 {
    TL_MODE.with(|c| c.get())
}
pub fn callmem(id: u32) -> &'static mut CallMem {
    unsafe { &mut *CALLMEM.add(id as usize % MAXCALLS) }
}
pub fn stat(i: usize, n: u64) {
    unsafe { (*m().rep).stats[i] += n }
}
pub fn stat_max(i: usize, n: u64) {
    unsafe {
        let s = &mut (*m().rep).stats[i];
        *s = (*s).max(n)
    }
}
pub fn hash(x: u64) {
    unsafe {
        let h = &mut (*m().rep).hash;
        *h = (*h ^ x).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29);
    }
}

/// Once per process, before any run is forked off.
pub unsafe fn init() {
    ARENA = mmap(0x1000_0000_0000usize as *mut u8, ARENA_LEN, 3, 0x10_4022, -1, 0) as usize;
    assert!(ARENA as isize != -1, "cannot reserve address space");
    CALLMEM = mmap(std::ptr::null_mut(), MAXCALLS * std::mem::size_of::<CallMem>(), 3, 0x4022, -1, 0) as *mut CallMem;
    DATA_LO = &__data_start as *const u8 as usize;
    DATA_LEN = &_end as *const u8 as usize - DATA_LO;
    // the program's thread-local block lies right below the thread pointer
    let (ph, n, size) = (getauxval(3) as *const u64, getauxval(5), getauxval(4) / 8);
    for i in 0..n {
        let p = ph.add((i * size) as usize);
        if *p as u32 == 7 {
            let al = (*p.add(6)).max(1);
            TLS_LEN = ((*p.add(5) + al - 1) / al * al) as usize;
        }
    }
}

// ---------------------------------------------------------------- survey

/// What the calls of a survey run reached: basic blocks, and the constants
/// the library compared something with. Null except in a survey.
#[repr(C)]
pub struct Reach {
    pub edge: [u8; EDGES],
    pub consts: [u64; 2048],
    pub nconst: u64,
    /// comparisons of the present run, per place in the code
    pub sites: [Site; SITES],
    pub texts: [Text; TEXTS],
    pub ntext: u64,
}
/// A comparison with a constant: what was compared with it at first.
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C)]
pub struct Site {
    pub pc: u64,
    pub size: u64,
    pub want: u64,
    pub have: u64,
    /// some comparison there came out equal
    pub equal: u64,
}
/// Two stretches of memory the library compared.
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C)]
pub struct Text {
    pub len: u64,
    pub a: [u8; 64],
    pub b: [u8; 64],
}
pub const SITES: usize = 2048;
/// Marks places that compare two variables.
pub const VARIABLE: u64 = 1 << 62;
pub const TEXTS: usize = 8;
pub const EDGES: usize = 1 << 16;
pub static mut REACH: *mut Reach = std::ptr::null_mut();

#[cold]
#[inline(never)]
unsafe fn reached(pc: usize) {
    let h = (pc as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 48;
    (*REACH).edge[h as usize] = 1;
}
#[cold]
#[inline(never)]
unsafe fn constant(v: u64) {
    let r = &mut *REACH;
    let n = r.nconst as usize;
    if n < r.consts.len() && !r.consts[..n].contains(&v) {
        r.consts[n] = v;
        r.nconst += 1;
    }
}
#[cold]
#[inline(never)]
unsafe fn compared(pc: u64, size: u64, want: u64, have: u64) {
    let t = &mut (*REACH).sites;
    let mut h = (pc.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) as usize % SITES;
    for _ in 0..16 {
        if t[h].pc == pc {
            t[h].equal |= (want == have) as u64;
            return;
        }
        if t[h].pc == 0 {
            t[h] = Site { pc, size, want, have, equal: (want == have) as u64 };
            return;
        }
        h = (h + 1) % SITES;
    }
}
#[cold]
#[inline(never)]
unsafe fn texts(a: *const u8, b: *const u8, n: usize) {
    let r = &mut *REACH;
    if n < 2 || n > 64 || r.ntext as usize >= TEXTS {
        return;
    }
    let t = &mut r.texts[r.ntext as usize];
    t.len = n as u64;
    for i in 0..n {
        t.a[i] = *a.add(i);
        t.b[i] = *b.add(i);
    }
    r.ntext += 1;
}
macro_rules! cmps { ($($c:ident $v:ident $t:ty;)*) => { $(
    #[no_mangle] pub unsafe extern "C" fn $c(a: $t, b: $t) {
        if !REACH.is_null() {
            constant(a as u64);
            compared(return_address(0) as u64, std::mem::size_of::<$t>() as u64, a as u64, b as u64);
        }
    }
    #[no_mangle] pub unsafe extern "C" fn $v(a: $t, b: $t) {
        if !REACH.is_null() {
            let pc = return_address(0) as u64 | VARIABLE;
            compared(pc, std::mem::size_of::<$t>() as u64, a as u64, b as u64);
            compared(pc + 1, std::mem::size_of::<$t>() as u64, b as u64, a as u64);
        }
    }
)* } }
cmps!(
    __sanitizer_cov_trace_const_cmp1 __sanitizer_cov_trace_cmp1 u8;
    __sanitizer_cov_trace_const_cmp2 __sanitizer_cov_trace_cmp2 u16;
    __sanitizer_cov_trace_const_cmp4 __sanitizer_cov_trace_cmp4 u32;
    __sanitizer_cov_trace_const_cmp8 __sanitizer_cov_trace_cmp8 u64;
);
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    if !REACH.is_null() {
        let pc = return_address(0) as u64;
        for i in 0..*cases {
            let c = *cases.add(2 + i as usize);
            constant(c);
            compared(pc ^ (i + 1) << 48, *cases.add(1) / 8, c, v);
        }
    }
}

/// In the forked child: set up the machine of one run.
pub unsafe fn boot(rep: *mut Report, seed: u64, k: &crate::plan::Knobs, strat: &Strat, sched: &Option<Vec<Switch>>, n: usize,
                   flag: fn(&str) -> bool, reentry: fn(&Call, usize), tls_matters: bool) {
    let mut rng = Rng::new(seed, 2);
    let mut changes: Vec<u64> = (0..if strat.kind == 2 { strat.depth } else { 0 }).map(|_| rng.below(strat.est)).collect();
    changes.sort();
    changes.reverse();
    let mut s = vec![];
    if let Some(v) = sched {
        s = vec![vec![]; MAXT + 1];
        for w in v {
            s[w.task as usize].push((w.step, w.to as usize));
        }
    }
    let mut t = Task {
        st: St::Unused, step: 0, preempt_at: u64::MAX, prio: 0, hold_calls: 0, hold_events: 0, order: 0, wake: 0, depth: 0, fr: [NOFRAME; MAXDEPTH], outside: 0, lib_mark: 0, panic_mark: u64::MAX, sw_pos: 0,
        bump: 0, lib: false, free: [0; 200],
    };
    t.bump = 64 + k.offset as usize;
    let b = Box::new(Machine {
        live: true, n, t: [t; MAXT + 1], rng, env: Rng::new(k.env, 5), strat: strat.clone(), explicit: sched.is_some(), sched: s, changes, delays: strat.depth, done_calls: 0, events: 0, next_wake: u64::MAX, favour: usize::MAX,
        gbase: 0, cur_from: 0, clock: k.clock, clock_jump: k.clock_jump, fill: k.fill, scribble: k.scribble, reuse: k.reuse,
        moves: k.moves, spurious: k.spurious, skew: k.skew, vars: k.vars, cpus: k.cpus, order: 0, ncalls: 0, rep, finished: usize::MAX, flag, reentry,
    });
    MACH = Box::into_raw(b);
    TLS_MATTERS = tls_matters;
    for i in 0..n {
        m().t[i].st = St::Ready;
        m().t[i].prio = 1_000_000 + m().rng.below(1_000_000);
    }
    for x in [k.fill as u64, k.scribble as u64, k.reuse as u64, k.moves as u64, k.skew as u64, k.offset, k.stack_kib, k.clock, k.clock_jump, k.vars as u64, k.cpus] {
        hash(x);
    }
    for b in &k.text {
        hash(*b as u64);
    }
    boot_vars(k);
    boot_counter();
    CURT = COORD;
    NEXT = u64::MAX;
}

/// End the run with a violation, if the property at hand is about this class
/// of event; otherwise note it and carry on.
pub fn violation(class: &str, msg: &str) {
    if !(m().flag)(class) {
        stat(S_IGNORED, 1);
        return;
    }
    finish(Status::Violation, class, msg)
}
pub fn inconclusive(class: &str, msg: &str) -> ! {
    finish(Status::Inconclusive, class, msg)
}
fn finish(s: Status, class: &str, msg: &str) -> ! {
    unsafe {
        let r = &mut *m().rep;
        let n = class.len().min(64);
        r.class[..n].copy_from_slice(&class.as_bytes()[..n]);
        r.class_len = n as u32;
        let n = msg.len().min(1024);
        r.msg[..n].copy_from_slice(&msg.as_bytes()[..n]);
        r.msg_len = n as u32;
        r.status = s;
        _exit(3)
    }
}

// ---------------------------------------------------------------- scheduling

pub fn managed() -> bool {
    let t = TL_TASK.with(|c| c.get());
    t != usize::MAX && unsafe { t == CURT }
}

/// Smallest step at which something is due for the current task.
fn retime() {
    unsafe {
        let mm = m();
        if CURT >= MAXT {
            NEXT = u64::MAX;
            return;
        }
        let t = &mm.t[CURT];
        let mut nx = t.preempt_at;
        if mm.explicit {
            nx = mm.sched[CURT].get(t.sw_pos).map_or(u64::MAX, |s| s.0);
        }
        if t.depth > 0 {
            let f = &t.fr[t.depth - 1];
            if f.active {
                nx = nx.min(f.cap);
                if !f.call.is_null() {
                    let c = &*f.call;
                    if let (false, Some((g, _))) = (f.stalled, &c.stall) {
                        nx = nx.min(f.start.saturating_add(g.step));
                    }
                    if let (false, Some((g, _))) = (f.nested, &c.nest) {
                        nx = nx.min(f.start.saturating_add(g.step));
                    }
                }
            }
        }
        NEXT = nx;
    }
}

fn draw_preempt() {
    unsafe {
        let mm = m();
        if CURT >= MAXT {
            return;
        }
        let gl = mm.gbase + (STEP - mm.cur_from);
        let at = match mm.strat.kind {
            1 => STEP + 1 + mm.rng.below(2 * mm.strat.mean),
            2 => mm.changes.last().map_or(u64::MAX, |c| STEP + c.saturating_sub(gl).max(1)),
            3 => STEP + mm.strat.mean,
            _ => u64::MAX,
        };
        let full = (*mm.rep).nsw as usize >= MAXSW - 256;
        mm.t[CURT].preempt_at = if full { u64::MAX } else { at };
    }
}

fn ready(mm: &Machine) -> usize {
    (0..mm.n).filter(|&i| mm.t[i].st == St::Ready).count()
}
fn nth_ready(mm: &Machine, mut k: usize) -> usize {
    for i in 0..mm.n {
        if mm.t[i].st == St::Ready {
            if k == 0 {
                return i;
            }
            k -= 1;
        }
    }
    unreachable!()
}

/// Wake what can be woken; Some(task) to run next, or None: the run is over.
fn choose(forced: bool) -> Option<usize> {
    unsafe {
        let mm = m();
        let cur = CURT;
        loop {
            let r = ready(mm);
            if r == 0 {
                // Nothing can run: let time pass to the next deadline.
                let mut best: Option<(u64, usize)> = None;
                for i in 0..mm.n {
                    let d = match mm.t[i].st {
                        St::Blocked { deadline, .. } if deadline != u64::MAX => deadline,
                        St::Sleeping { until } => until,
                        _ => continue,
                    };
                    if best.map_or(true, |b| d < b.0) {
                        best = Some((d, i));
                    }
                }
                if let Some((d, i)) = best {
                    if d > mm.clock {
                        stat(S_SIM_NS, d - mm.clock);
                        mm.clock = d;
                    }
                    mm.t[i].wake = if matches!(mm.t[i].st, St::Blocked { .. }) { 110 } else { 0 };
                    mm.t[i].st = St::Ready;
                    continue;
                }
                let blocked: Vec<usize> = (0..mm.n).filter(|&i| !mm.t[i].lib && matches!(mm.t[i].st, St::Blocked { .. } | St::Joining { .. })).collect();
                if !blocked.is_empty() {
                    let stalled = (0..mm.n).filter(|&i| matches!(mm.t[i].st, St::Stalled { .. })).count();
                    let msg = format!(
                        "task(s) {:?} wait inside a call and nothing can wake them ({} caller(s) stalled, {} finished)",
                        blocked, stalled, (0..mm.n).filter(|&i| mm.t[i].st == St::Done).count()
                    );
                    violation("blocked", &msg);
                    inconclusive("blocked", &msg);
                }
                // Everyone else is done: stalled callers that come back do so now.
                let mut any = false;
                for i in 0..mm.n {
                    if mm.t[i].st == (St::Stalled { forever: false }) {
                        mm.t[i].st = St::Ready;
                        any = true;
                    }
                }
                if any {
                    continue;
                }
                return None;
            }
            if mm.explicit {
                {
                    let pos = mm.t[cur].sw_pos;
                    if let Some(&(s, to)) = mm.sched[cur].get(pos) {
                        if s <= STEP {
                            mm.t[cur].sw_pos += 1;
                            if to < mm.n && mm.t[to].st == St::Ready {
                                return Some(to);
                            }
                            continue;
                        }
                    }
                }
                if !forced {
                    return Some(cur);
                }
                return Some(nth_ready(mm, 0));
            }
            let pick = match mm.strat.kind {
                2 => {
                    let mut b = nth_ready(mm, 0);
                    for i in 0..mm.n {
                        if mm.t[i].st == St::Ready && mm.t[i].prio > mm.t[b].prio {
                            b = i;
                        }
                    }
                    b
                }
                4 => {
                    let f = std::mem::replace(&mut mm.favour, usize::MAX);
                    if f < mm.n && mm.t[f].st == St::Ready {
                        return Some(f);
                    }
                    let held = |mm: &Machine, i: usize| mm.t[i].hold_calls > mm.done_calls || mm.t[i].hold_events > mm.events;
                    let mut c: [usize; MAXT] = [0; MAXT];
                    let mut k = 0;
                    for pass in 0..3 {
                        for i in 0..mm.n {
                            if mm.t[i].st == St::Ready && (pass == 2 || i != cur) && (pass > 0 || !held(mm, i)) {
                                c[k] = i;
                                k += 1;
                            }
                        }
                        if k > 0 || (pass == 0 && cur < mm.n && mm.t[cur].st == St::Ready && !held(mm, cur)) {
                            break;
                        }
                    }
                    let b = if k == 0 { cur } else { c[mm.rng.below(k as u64) as usize] };
                    mm.t[b].hold_calls = 0;
                    mm.t[b].hold_events = 0;
                    b
                }
                3 => {
                    let mut i = if cur < MAXT { cur } else { 0 };
                    loop {
                        i = (i + 1) % mm.n;
                        if mm.t[i].st == St::Ready {
                            break i;
                        }
                    }
                }
                _ => {
                    if mm.strat.sticky > 0 && mm.rng.below(1000) < mm.strat.sticky {
                        // newest first: piles up calls in flight
                        let mut b = nth_ready(mm, 0);
                        for i in 0..mm.n {
                            if mm.t[i].st == St::Ready && mm.t[i].order < mm.t[b].order {
                                b = i;
                            }
                        }
                        b
                    } else {
                        let others = (0..mm.n).filter(|&i| i != cur && mm.t[i].st == St::Ready).count();
                        if others == 0 {
                            nth_ready(mm, 0)
                        } else {
                            let mut k = mm.rng.below(others as u64) as usize;
                            let mut res = 0;
                            for i in 0..mm.n {
                                if i != cur && mm.t[i].st == St::Ready {
                                    if k == 0 {
                                        res = i;
                                        break;
                                    }
                                    k -= 1;
                                }
                            }
                            res
                        }
                    }
                }
            };
            return Some(pick);
        }
    }
}

fn record(from: usize, to: usize) {
    unsafe {
        let mm = m();
        let r = &mut *mm.rep;
        let i = r.nsw as usize;
        if i < MAXSW {
            r.sw[i] = (from as u32, to as u32, STEP);
            r.nsw += 1;
        }
        hash(0x5157);
        hash(from as u64);
        hash(to as u64);
        hash(STEP);
    }
}

fn park(me: usize) {
    while GO[me].load(Acquire) == 0 {
        futex_wait(&GO[me], 0);
    }
    GO[me].store(0, Relaxed);
    unsafe {
        let fs: usize;
        core::arch::asm!("mov {}, fs:0", out(reg) fs, options(pure, readonly, nostack, preserves_flags));
        TLS_LO = fs - TLS_LEN;
    }
}

/// Give the baton to `to` (a task or COORD), without waiting.
fn hand(to: usize) {
    unsafe {
        let mm = m();
        if CURT < MAXT {
            mm.t[CURT].step = STEP;
            let d = STEP - mm.cur_from;
            mm.gbase += d;
            mm.clock = mm.clock.wrapping_add(d);
            stat(S_STEPS, d);
            stat(S_SIM_NS, d);
        }
        CURT = to;
        if to < MAXT {
            STEP = mm.t[to].step;
            mm.cur_from = STEP;
            mm.order += 1;
            mm.t[to].order = mm.order;
            if !mm.explicit {
                draw_preempt();
            }
        }
        retime();
        GO[to].store(1, Release);
        futex_wake(&GO[to]);
    }
}

fn inflight(mm: &Machine) -> u64 {
    (0..mm.n).filter(|&i| mm.t[i].depth > 0).count() as u64
}

/// Let another task run, if the schedule says so. `forced`: this task cannot.
fn yield_to_other(forced: bool) {
    let me = TL_TASK.with(|c| c.get());
    let mm = m();
    match choose(forced) {
        Some(to) if to == me => {
            if !mm.explicit {
                draw_preempt();
            }
            retime();
        }
        Some(to) => {
            record(me, to);
            stat(S_SWITCHES, 1);
            if mm.t[me].depth > 0 {
                stat(S_SWITCH_IN_CALL, 1);
                if std::thread::panicking() {
                    stat(S_PREEMPT_IN_UNWIND, 1);
                }
            }
            hand(to);
            park(me);
            retime();
        }
        None => {
            // nothing left to run but stalled tasks
            hand(COORD);
            park(me);
        }
    }
}

/// Something may be due for the current task at this step.
#[cold]
#[inline(never)]
fn slow() {
    if !managed() {
        return;
    }
    let saved = set_mode(0);
    due(false, false);
    set_mode(saved);
}

fn due(at_alloc: bool, at_shared: bool) {
    unsafe {
        let me = CURT;
        let mm = m();
        let d = mm.t[me].depth;
        if d > 0 && mm.t[me].fr[d - 1].active {
            let others = (0..mm.n).any(|i| i != me && mm.t[i].st == St::Ready);
            let f = &mut mm.t[me].fr[d - 1];
            let rel = STEP - f.start;
            if STEP >= f.cap && f.grace < 3 && others {
                // It may be spinning for a caller the schedule has starved.
                f.grace += 1;
                f.cap = STEP.saturating_add(f.width);
                mm.t[me].prio = 0;
                release_all();
                yield_to_other(false);
                retime();
                return;
            }
            if STEP >= f.cap {
                let c = if f.call.is_null() { String::new() } else { (*f.call).op.name() };
                let msg = format!("task {}: {} did not end within {} steps", me, c, rel);
                f.cap = u64::MAX;
                if !f.lax {
                    violation("no-end", &msg);
                }
                inconclusive("no-end", &msg);
            }
            if !f.call.is_null() {
                let c = &*f.call;
                let hit = |g: &crate::plan::Trig, f: &Frame| rel >= g.step || (at_alloc && f.allocs >= g.alloc) || (at_shared && f.shared >= g.shared);
                if let (false, Some((g, v))) = (f.nested, &c.nest) {
                    if hit(g, f) && d < MAXDEPTH - 1 {
                        f.nested = true;
                        let before = STEP;
                        for x in v {
                            stat(S_NESTED, 1);
                            (mm.reentry)(x, me);
                        }
                        let f = &mut mm.t[me].fr[d - 1];
                        f.start += STEP - before; // the inner calls' steps are their own
                        f.cap = f.cap.saturating_add(STEP - before);
                        retime();
                        return;
                    }
                }
                let f = &mut mm.t[me].fr[d - 1];
                if let (false, Some((g, ever))) = (f.stalled, &c.stall) {
                    if hit(g, f) {
                        f.stalled = true;
                        (*mm.rep).faulted = 1;
                        stat(if *ever { S_STALL_FOREVER } else { S_STALL_RESUMED }, 1);
                        hash(0x57a11);
                        mm.t[me].st = St::Stalled { forever: *ever };
                        yield_to_other(true);
                        return;
                    }
                }
            }
        }
        if mm.explicit {
            while mm.sched[me].get(mm.t[me].sw_pos).map_or(false, |s| s.0 <= STEP) {
                yield_to_other(false);
            }
        } else if STEP >= mm.t[me].preempt_at {
            if mm.strat.kind == 2 {
                mm.changes.pop();
                mm.t[me].prio = mm.changes.len() as u64;
            }
            stat(S_PREEMPT_STEP, 1);
            yield_to_other(false);
        }
        retime();
    }
}

/// An access by the current task to memory other tasks can reach.
#[cold]
#[inline(never)]
fn shared() {
    if !managed() {
        return;
    }
    unsafe {
        let mm = m();
        let me = CURT;
        stat(S_SHARED_ACCESSES, 1);
        let d = mm.t[me].depth;
        if d == 0 {
            return;
        }
        let f = &mut mm.t[me].fr[d - 1];
        f.shared += 1;
        let mut trig = false;
        if !f.call.is_null() {
            let c = &*f.call;
            trig |= !f.stalled && c.stall.as_ref().map_or(false, |g| f.shared >= g.0.shared);
            trig |= !f.nested && c.nest.as_ref().map_or(false, |g| f.shared >= g.0.shared);
        }
        if trig {
            let s = set_mode(0);
            due(false, true);
            set_mode(s);
        }
        if !mm.explicit && mm.strat.kind == 4 {
            mm.events += 1;
            if mm.events >= mm.next_wake || mm.t[me].fr[d - 1].shared == mm.t[me].fr[d - 1].delay_at {
                let s = set_mode(0);
                holdup(me, d);
                set_mode(s);
            }
        }
        if !mm.explicit && mm.strat.kind != 0 && mm.strat.p_shared > 0 && ((*mm.rep).nsw as usize) < MAXSW - 256
            && mm.rng.below(1000) < mm.strat.p_shared
        {
            let s = set_mode(0);
            stat(S_PREEMPT_SHARED, 1);
            if mm.strat.kind == 2 {
                mm.t[CURT].prio = 0;
            }
            yield_to_other(false);
            set_mode(s);
        }
    }
}

/// Strategy 4 at a shared access: hold this call up there while others get on
/// with theirs, or let go on the one whose time has come.
fn holdup(me: usize, d: usize) {
    let mm = m();
    if unsafe { (*mm.rep).nsw as usize } >= MAXSW - 256 {
        return;
    }
    if mm.events >= mm.next_wake {
        mm.next_wake = u64::MAX;
        let mut woken = usize::MAX;
        for i in 0..mm.n {
            let t = &mut mm.t[i];
            if t.hold_events > mm.events {
                if t.hold_events < u64::MAX {
                    mm.next_wake = mm.next_wake.min(t.hold_events);
                }
            } else if t.hold_events > 0 {
                t.hold_events = 0;
                woken = i;
            }
        }
        if woken < mm.n && woken != me && mm.t[woken].st == St::Ready && mm.t[woken].hold_calls <= mm.done_calls && mm.rng.chance(1, 2) {
            mm.favour = woken;
            stat(S_PREEMPT_SHARED, 1);
            yield_to_other(false);
            return;
        }
    }
    if mm.t[me].fr[d - 1].shared == mm.t[me].fr[d - 1].delay_at && mm.delays > 0 {
        mm.delays -= 1;
        match mm.rng.below(5) {
            0 | 1 => mm.t[me].hold_calls = mm.done_calls + 1 + mm.rng.below(3),
            2 | 3 => {
                mm.t[me].hold_events = mm.events + mm.rng.logu(2 * mm.strat.mean);
                mm.next_wake = mm.next_wake.min(mm.t[me].hold_events);
            }
            _ => mm.t[me].hold_calls = u64::MAX,
        }
        stat(S_PREEMPT_SHARED, 1);
        yield_to_other(false);
    }
}
fn release_all() {
    let mm = m();
    for i in 0..mm.n {
        mm.t[i].hold_calls = 0;
        mm.t[i].hold_events = 0;
    }
}

fn alloc_event(is_alloc: bool) {
    unsafe {
        STEP += 1;
        let mm = m();
        let me = CURT;
        mm.t[me].outside += 1;
        if !std::thread::panicking() {
            mm.t[me].panic_mark = u64::MAX;
        }
        let d = mm.t[me].depth;
        let mut trig = STEP >= NEXT;
        if d > 0 && is_alloc {
            let f = &mut mm.t[me].fr[d - 1];
            f.allocs += 1;
            if !f.call.is_null() {
                let c = &*f.call;
                trig |= !f.stalled && c.stall.as_ref().map_or(false, |g| f.allocs >= g.0.alloc);
                trig |= !f.nested && c.nest.as_ref().map_or(false, |g| f.allocs >= g.0.alloc);
            }
        }
        if trig {
            let s = set_mode(0);
            due(true, false);
            set_mode(s);
        }
        if !mm.explicit && mm.strat.kind != 0 && mm.strat.p_alloc > 0 && ((*mm.rep).nsw as usize) < MAXSW - 256
            && mm.rng.below(1000) < mm.strat.p_alloc
        {
            let s = set_mode(0);
            stat(S_PREEMPT_ALLOC, 1);
            if mm.strat.kind == 2 {
                mm.t[CURT].prio = 0;
            }
            yield_to_other(false);
            set_mode(s);
        }
    }
}

// compiler-inserted callbacks (library crate only)
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    unsafe {
        if !REACH.is_null() {
            reached(return_address(0) as usize);
        }
        STEP += 1;
        if STEP >= NEXT {
            slow();
        }
    }
}
/// An access to the thread's own variables.
#[cold]
#[inline(never)]
fn tls() {
    if managed() {
        stat(S_TLS_ACCESSES, 1);
        if unsafe { TLS_MATTERS } {
            shared();
        }
    }
}
#[inline(always)]
unsafe fn access(a: usize) {
    STEP += 1;
    if STEP >= NEXT {
        slow();
    }
    let o = a.wrapping_sub(ARENA);
    if o < ARENA_LEN {
        if (o >> ARENA_SHIFT) != CURT {
            shared();
        }
    } else if a.wrapping_sub(DATA_LO) < DATA_LEN {
        shared();
    } else if a.wrapping_sub(TLS_LO) < TLS_LEN {
        tls();
    }
}
macro_rules! acc { ($($n:ident),*) => { $(#[no_mangle] pub extern "C" fn $n(a: usize) { unsafe { access(a) } })* } }
acc!(
    __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8, __sanitizer_cov_load16,
    __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4, __sanitizer_cov_store8, __sanitizer_cov_store16
);

// Atomic operations of the library crate: a point before each one.
macro_rules! atomics { ($($t:ident, $a:ident: $ld:ident $st:ident $xc:ident $ad:ident $su:ident $an:ident $na:ident $or:ident $xo:ident $cx:ident;)*) => { $(
    #[no_mangle] pub unsafe extern "C" fn $ld(p: *const $a, _o: i32) -> $t { access(p as usize); (*p).load(SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $st(p: *const $a, v: $t, _o: i32) { access(p as usize); (*p).store(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $xc(p: *const $a, v: $t, _o: i32) -> $t { access(p as usize); (*p).swap(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $ad(p: *const $a, v: $t, _o: i32) -> $t { access(p as usize); (*p).fetch_add(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $su(p: *const $a, v: $t, _o: i32) -> $t { access(p as usize); (*p).fetch_sub(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $an(p: *const $a, v: $t, _o: i32) -> $t { access(p as usize); (*p).fetch_and(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $na(p: *const $a, v: $t, _o: i32) -> $t { access(p as usize); (*p).fetch_nand(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $or(p: *const $a, v: $t, _o: i32) -> $t { access(p as usize); (*p).fetch_or(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $xo(p: *const $a, v: $t, _o: i32) -> $t { access(p as usize); (*p).fetch_xor(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $cx(p: *const $a, c: $t, v: $t, _o: i32, _f: i32) -> $t {
        access(p as usize);
        match (*p).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) | Err(x) => x }
    }
)* } }
atomics!(
    u8, AtomicU8: __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub
        __tsan_atomic8_fetch_and __tsan_atomic8_fetch_nand __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_compare_exchange_val;
    u16, AtomicU16: __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub
        __tsan_atomic16_fetch_and __tsan_atomic16_fetch_nand __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_compare_exchange_val;
    u32, AtomicU32: __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub
        __tsan_atomic32_fetch_and __tsan_atomic32_fetch_nand __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_compare_exchange_val;
    u64, AtomicU64: __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub
        __tsan_atomic64_fetch_and __tsan_atomic64_fetch_nand __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_compare_exchange_val;
);
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
    std::sync::atomic::fence(SeqCst);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {
    std::sync::atomic::compiler_fence(SeqCst);
}

// ------------------------------------------------- used by the run's own code

/// First thing a caller thread does.
pub fn enter(task: usize) {
    TL_TASK.with(|c| c.set(task));
    park(task);
    retime();
}
/// Between calls: a point at which another caller may go on.
pub fn boundary() {
    unsafe {
        STEP += 1;
        let mm = m();
        let r = if mm.explicit || mm.strat.kind == 0 { false } else { mm.rng.chance(1, 4) };
        if STEP >= NEXT {
            due(false, false);
        } else if r && mm.strat.kind != 2 {
            yield_to_other(false);
        }
    }
}
/// Last thing a caller thread does: it ends, the coordinator takes over.
pub fn leave(last: bool) {
    let me = TL_TASK.with(|c| c.get());
    let mm = m();
    if last {
        mm.t[me].st = St::Done;
        for i in 0..mm.n {
            if mm.t[i].st == (St::Joining { task: me }) {
                mm.t[i].st = St::Ready;
            }
        }
    }
    mm.finished = me;
    unsafe { STEP += 1 };
    hand(COORD);
    TL_TASK.with(|c| c.set(usize::MAX));
}
/// Coordinator: let the schedule go on after task `from` ended (or at the
/// start); returns the task whose thread has ended, or MAX: the run is over.
pub fn coordinate(from: usize) -> usize {
    let mm = m();
    unsafe {
        // forced decision, keyed to the ended task's last step
        CURT = from;
        if from < MAXT {
            STEP = mm.t[from].step;
        } else {
            STEP = 0;
        }
        mm.cur_from = STEP;
    }
    let to = choose(true);
    unsafe {
        CURT = if from < MAXT { from } else { COORD };
    }
    match to {
        None => usize::MAX,
        Some(to) => {
            record(from.min(COORD), to);
            mm.finished = usize::MAX;
            hand(to);
            park(COORD);
            mm.finished
        }
    }
}
pub fn push_frame(call: &Call, task: usize, cap_steps: u64, lax: bool) -> u32 {
    let mm = m();
    mm.ncalls += 1;
    let id = mm.ncalls;
    *callmem(id) = CallMem { live: 0, bytes: 0, peak: 0 };
    let mut delay_at = 0;
    if !mm.explicit && mm.strat.kind == 4 && mm.delays > 0 && mm.rng.chance(1, 2) {
        delay_at = if mm.rng.chance(1, 2) { mm.rng.logu(mm.strat.mean) } else { 1 + mm.rng.below(mm.strat.mean) };
    }
    let t = &mut mm.t[task];
    t.panic_mark = u64::MAX;
    t.fr[t.depth] = Frame {
        call, id, start: step(), cap: step().saturating_add(cap_steps), width: cap_steps, grace: 0, lax, allocs: 0, shared: 0, delay_at, failed: 0, stalled: false, nested: false,
        active: false,
    };
    t.depth += 1;
    id
}
pub fn activate(task: usize, on: bool) {
    let t = &mut m().t[task];
    let d = t.depth;
    t.fr[d - 1].active = on;
    if on {
        let s = step();
        let f = &mut t.fr[d - 1];
        f.cap = f.cap.saturating_add(s - f.start);
        f.start = s;
    }
    stat_max(S_MAX_INFLIGHT, inflight(m()));
    retime();
}
pub fn pop_frame(task: usize) -> Frame {
    let t = &mut m().t[task];
    t.depth -= 1;
    let f = t.fr[t.depth];
    m().done_calls += 1;
    retime();
    f
}

// ---------------------------------------------------------------- allocator

pub struct SimAlloc;

#[repr(C, packed)]
struct Head {
    base: usize,
    cap: usize,
    size: usize,
    id: u32,
    magic: u32,
}
const HEAD: usize = std::mem::size_of::<Head>();
const MAGIC: u32 = 0x51A1_10C8;
const FREED: u32 = 0xDEAD_F2EE;

fn class(sz: usize) -> (usize, usize) {
    if sz <= 1024 {
        let c = (sz + 15) / 16;
        return (c, c * 16);
    }
    let b = usize::BITS as usize - 1 - (sz - 1).leading_zeros() as usize; // 2^b < sz <= 2^(b+1)
    let q = 1usize << (b - 2);
    let j = (sz - (1 << b) + q - 1) / q; // 1..=4
    (65 + (b - 10) * 4 + j - 1, (1 << b) + j * q)
}

pub fn in_arena(p: usize) -> bool {
    unsafe { p.wrapping_sub(ARENA) < ARENA_LEN }
}
pub fn owner_call(p: *const u8) -> u32 {
    if !in_arena(p as usize) {
        return 0;
    }
    unsafe { (*((p as usize - HEAD) as *const Head)).id }
}

unsafe fn arena_alloc(task: usize, l: Layout, id: u32, zero: bool) -> *mut u8 {
    let mm = m();
    // any address with the asked-for alignment is as good as another
    let skew = if mm.skew { mm.env.below(8) as usize * l.align() } else { 0 };
    let pad = if l.align() > 16 { l.align() } else { 0 } + skew;
    let want = match l.size().max(1).checked_add(HEAD + pad) {
        Some(w) if w < (1 << (ARENA_SHIFT - 1)) => w,
        _ => return std::ptr::null_mut(),
    };
    let (c, cap) = class(want);
    let t = &mut mm.t[task];
    let mut fresh = false;
    let base;
    if t.free[c] != 0 {
        base = t.free[c];
        t.free[c] = *((base) as *const usize);
    } else {
        if t.bump + cap > (1 << ARENA_SHIFT) - 4096 {
            if cap < 1 << 27 {
                inconclusive("arena", "the simulated heap of one task is used up");
            }
            return std::ptr::null_mut();
        }
        base = ARENA + (task << ARENA_SHIFT) + t.bump;
        t.bump += cap;
        fresh = true;
    }
    let mut user = base + HEAD;
    if l.align() > 16 {
        user = (user + l.align() - 1) & !(l.align() - 1);
    }
    user += skew;
    stat(S_SKEWED, (skew % 16 != 0) as u64);
    *((user - HEAD) as *mut Head) = Head { base, cap, size: l.size(), id, magic: MAGIC };
    let p = user as *mut u8;
    if zero {
        if !fresh {
            std::ptr::write_bytes(p, 0, l.size());
        }
    } else {
        match mm.fill {
            1 => std::ptr::write_bytes(p, 0xA5, l.size()),
            2 => {
                let mut s = mm.env.u64();
                for i in 0..l.size() {
                    if i % 8 == 0 {
                        s = crate::rng::splitmix(&mut s);
                    }
                    *p.add(i) = (s >> (8 * (i % 8))) as u8;
                }
            }
            3 => std::ptr::write_bytes(p, 0, l.size()),
            _ => {}
        }
        if mm.fill == 1 || mm.fill == 2 {
            stat(S_DIRTY_FILLS, 1);
        }
    }
    let cm = callmem(id);
    cm.live += 1;
    cm.bytes += l.size() as u64;
    cm.peak = cm.peak.max(cm.bytes);
    p
}

unsafe fn arena_free(p: *mut u8, l: Layout) {
    let mm = m();
    let h = &mut *((p as usize - HEAD) as *mut Head);
    if h.magic != MAGIC {
        let what = if h.magic == FREED { "freed twice" } else { "freed but never allocated" };
        violation("heap", &format!("a block was {}", what));
        inconclusive("heap", what);
    }
    let (size, align) = (h.size, l.align());
    if size != l.size() {
        let what = format!("a block of {} bytes was freed as one of {} bytes (alignment {})", size, l.size(), align);
        violation("heap", &what);
    }
    let cm = callmem(h.id);
    cm.live -= 1;
    cm.bytes -= h.size as u64;
    h.magic = FREED;
    if mm.scribble {
        std::ptr::write_bytes(p, 0xDB, h.size);
        stat(S_SCRIBBLES, 1);
    }
    let (base, cap) = (h.base, h.cap);
    if mm.reuse {
        let task = (base - ARENA) >> ARENA_SHIFT;
        let (c, _) = class(cap);
        // The link lives in the first word of the old header, which is stale now.
        *(base as *mut usize) = mm.t[task].free[c];
        mm.t[task].free[c] = base;
    }
}

/// A panic has begun on the current task.
pub fn panic_begins() {
    unsafe {
        if CURT < MAXT {
            let t = &mut m().t[CURT];
            t.panic_mark = STEP - t.outside;
        }
    }
}

/// Does the current call's fault plan make this allocation fail?
unsafe fn fails(size: usize, grow_by: usize) -> bool {
    let mm = m();
    let t = &mut mm.t[CURT];
    // The panic's own allocations succeed; those of the library's cleanup
    // (after a first callback from its code) may fail like any other.
    if t.depth == 0 || (std::thread::panicking() && STEP - t.outside <= t.panic_mark) {
        return false;
    }
    let mut f = &mut t.fr[t.depth - 1];
    if t.lib {
        // A thread the library started shares the fate of the call that
        // started it, once it is past the standard library's preliminaries.
        if STEP - t.outside <= t.lib_mark + 2 {
            return false;
        }
        let id = f.id;
        match (0..mm.n).flat_map(|i| (0..mm.t[i].depth).map(move |d| (i, d))).find(|&(i, d)| !mm.t[i].lib && mm.t[i].fr[d].id == id) {
            Some((i, d)) => f = &mut mm.t[i].fr[d],
            None => return false,
        }
        f.allocs += 1;
    }
    if f.call.is_null() || !f.active {
        return false;
    }
    if let Some(p) = &(*f.call).fault {
        let idx = f.allocs - 1;
        let over = p.budget != u64::MAX && callmem(f.id).bytes + grow_by as u64 > p.budget;
        if over || (idx >= p.first && size as u64 >= p.min_size && f.failed < p.count && p.budget == u64::MAX) {
            f.failed += 1;
            stat(S_ALLOC_FAIL, 1);
            (*mm.rep).faulted = 1;
            hash(0xFA11 ^ idx);
            return true;
        }
    }
    false
}

unsafe fn cur_call() -> u32 {
    let t = &m().t[CURT];
    if t.depth == 0 { 0 } else { t.fr[t.depth - 1].id }
}

impl SimAlloc {
    #[inline(always)]
    unsafe fn get(&self, l: Layout, zero: bool) -> *mut u8 {
        let md = mode();
        if md == 0 || !managed() {
            return if zero { System.alloc_zeroed(l) } else { System.alloc(l) };
        }
        if md == 2 {
            alloc_event(true);
            stat(S_ALLOCS, 1);
            if fails(l.size(), l.size()) {
                return std::ptr::null_mut();
            }
        }
        let s = set_mode(0);
        let p = arena_alloc(CURT, l, cur_call(), zero);
        set_mode(s);
        if md == 2 && zero && !p.is_null() {
            STEP += l.size() as u64 / 8;
            m().t[CURT].outside += l.size() as u64 / 8;
        }
        p
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        self.get(l, false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        self.get(l, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if mode() == 2 && managed() {
            alloc_event(false);
        }
        if in_arena(p as usize) {
            let s = set_mode(0);
            arena_free(p, l);
            set_mode(s);
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !in_arena(p as usize) {
            return System.realloc(p, l, n);
        }
        let md = mode();
        if md == 0 || !managed() {
            // a digest the caller grows
            let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                arena_free(p, l);
            }
            return q;
        }
        if md == 2 {
            alloc_event(true);
            stat(S_ALLOCS, 1);
            if fails(n, n.saturating_sub(l.size())) {
                return std::ptr::null_mut();
            }
        }
        let s = set_mode(0);
        let q = self.grow(p, l, n);
        set_mode(s);
        q
    }
}

impl SimAlloc {
    unsafe fn grow(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let h = &mut *((p as usize - HEAD) as *mut Head);
        let room = h.base + h.cap - p as usize;
        if !m().moves && n <= room && h.magic == MAGIC {
            let cm = callmem(h.id);
            cm.bytes = cm.bytes - h.size as u64 + n as u64;
            cm.peak = cm.peak.max(cm.bytes);
            h.size = n;
            return p;
        }
        let q = arena_alloc(CURT, Layout::from_size_align_unchecked(n, l.align()), cur_call(), false);
        if !q.is_null() {
            stat(S_MOVES, 1);
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            arena_free(p, l);
        }
        q
    }
}

// ---------------------------------------------------------------- libc seams

// Copying and filling memory on behalf of a call is work of that call: eight
// bytes are one step. (Anything due by then is due at the next callback.)
#[inline(always)]
unsafe fn bulk(n: usize) {
    if n >= 8 && TL_MODE.with(|c| c.get()) == 2 && managed() {
        STEP += n as u64 / 8;
        m().t[CURT].outside += n as u64 / 8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    bulk(n);
    core::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    d
}
#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    bulk(n);
    if (d as usize).wrapping_sub(s as usize) >= n {
        core::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    } else {
        core::arch::asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _,
            inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _, options(nostack));
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    bulk(n);
    core::arch::asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8, options(nostack, preserves_flags));
    d
}
#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    let mut i = 0;
    while i + 8 <= n && (a.add(i) as *const u64).read_unaligned() == (b.add(i) as *const u64).read_unaligned() {
        i += 8;
    }
    while i < n && a.add(i).read() == b.add(i).read() {
        i += 1;
    }
    bulk(i);
    if !REACH.is_null() && sim() {
        texts(a, b, n);
    }
    if i == n { 0 } else { a.add(i).read() as i32 - b.add(i).read() as i32 }
}
#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    memcmp(a, b, n)
}

fn sim() -> bool {
    mode() == 2 && managed()
}
unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

fn wake_futex(addr: usize, n: usize) -> usize {
    let mm = m();
    let mut k = 0;
    // first come, first served
    while k < n {
        let mut b: Option<usize> = None;
        for i in 0..mm.n {
            if let St::Blocked { addr: a, .. } = mm.t[i].st {
                if a == addr && b.map_or(true, |j| mm.t[i].order < mm.t[j].order) {
                    b = Some(i);
                }
            }
        }
        match b {
            Some(i) => {
                mm.t[i].st = St::Ready;
                mm.t[i].wake = 0;
                k += 1;
            }
            None => break,
        }
    }
    k
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == SYS_FUTEX && !MACH.is_null() && m().live {
        let cmd = b & 0x7f;
        if cmd == 1 || cmd == 10 {
            let k = wake_futex(a, c.min(1 << 20));
            if sim() {
                return k as isize;
            }
        } else if (cmd == 0 || cmd == 9) && sim() {
            if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 {
                *__errno_location() = 11;
                return -1;
            }
            let s = set_mode(0);
            STEP += 1;
            let mm = m();
            let me = CURT;
            let deadline = if d == 0 {
                u64::MAX
            } else {
                let ts = d as *const i64;
                let ns = (*ts as u64).saturating_mul(1_000_000_000).saturating_add(*ts.add(1) as u64);
                if cmd == 9 { ns } else { mm.clock.saturating_add(ns) }
            };
            stat(S_FUTEX_WAITS, 1);
            let spurious = mm.spurious && mm.env.chance(1, 6);
            stat(S_SPURIOUS_WAKES, spurious as u64);
            mm.t[me].st = if spurious { St::Ready } else { St::Blocked { addr: a, deadline } };
            mm.t[me].wake = 0;
            yield_to_other(true);
            let w = mm.t[me].wake;
            set_mode(s);
            if w != 0 {
                *__errno_location() = w;
                return -1;
            }
            return 0;
        }
    }
    if n == 318 && sim() {
        entropy(a as *mut u8, b);
        return b as isize;
    }
    ret(raw(n, a, b, c, d, e, f))
}

unsafe fn entropy(p: *mut u8, n: usize) {
    stat(S_ENTROPY_READS, 1);
    for i in 0..n {
        *p.add(i) = m().env.u64() as u8;
    }
}
fn clock_now(id: usize) -> i64 {
    let mm = m();
    stat(S_CLOCK_READS, 1);
    let mut now = mm.clock + unsafe { STEP - mm.cur_from };
    if mm.clock_jump > 0 {
        let j = mm.env.below(mm.clock_jump + 1);
        if id == 0 && mm.env.chance(1, 2) {
            // wall time may step back, to before 1970 even
            stat(S_CLOCK_JUMPS, 1);
            return (now & (i64::MAX as u64)) as i64 - (j & (i64::MAX as u64)) as i64;
        } else {
            mm.clock = mm.clock.saturating_add(j);
            now = now.saturating_add(j);
        }
        stat(S_CLOCK_JUMPS, 1);
    }
    (now & (i64::MAX as u64)) as i64
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: usize, ts: *mut i64) -> i32 {
    if sim() {
        let t = clock_now(id & 0xffff_ffff);
        *ts = t.div_euclid(1_000_000_000);
        *ts.add(1) = t.rem_euclid(1_000_000_000);
        return 0;
    }
    ret(raw(228, id, ts as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut i64, tz: usize) -> i32 {
    if sim() {
        let t = clock_now(0);
        *tv = t.div_euclid(1_000_000_000);
        *tv.add(1) = t.rem_euclid(1_000_000_000) / 1000;
        return 0;
    }
    ret(raw(96, tv as usize, tz, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut i64) -> i64 {
    let t = if sim() { clock_now(0).div_euclid(1_000_000_000) } else { raw(201, 0, 0, 0, 0, 0, 0) as i64 };
    if !p.is_null() {
        *p = t;
    }
    t
}
unsafe fn sleep_sim(ns: u64) {
    let s = set_mode(0);
    stat(S_SLEEPS, 1);
    STEP += 1;
    m().t[CURT].st = St::Sleeping { until: ns };
    yield_to_other(true);
    set_mode(s);
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(rq: *const i64, rm: *mut i64) -> i32 {
    if sim() {
        let d = (*rq as u64).saturating_mul(1_000_000_000).saturating_add(*rq.add(1) as u64);
        sleep_sim(m().clock.saturating_add(d));
        return 0;
    }
    ret(raw(35, rq as usize, rm as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: usize, fl: usize, rq: *const i64, rm: *mut i64) -> i32 {
    if sim() {
        let d = (*rq as u64).saturating_mul(1_000_000_000).saturating_add(*rq.add(1) as u64);
        sleep_sim(if fl & 1 != 0 { d } else { m().clock.saturating_add(d) });
        return 0;
    }
    let r = raw(230, id, fl, rq as usize, rm as usize, 0, 0);
    (-r) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if sim() {
        alloc_event(false);
        let s = set_mode(0);
        if !m().explicit {
            if m().strat.kind == 2 {
                m().t[CURT].prio = 0;
            }
            if m().strat.kind == 4 && m().rng.chance(1, 4) {
                release_all();
            }
            yield_to_other(false);
        }
        set_mode(s);
        return 0;
    }
    raw(24, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, fl: usize) -> isize {
    if sim() {
        entropy(p, n);
        return n as isize;
    }
    ret(raw(318, p as usize, n, fl, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if sim() {
        return 2 + (m().cpus * 7919 + m().vars as u64 * 104_729) as i32;
    }
    raw(39, 0, 0, 0, 0, 0, 0) as i32
}

pub const NVARS: usize = 24;
static VARS: [&core::ffi::CStr; NVARS] = [
    c"0", c"1", c"2", c"true", c"", c"full", c"18446744073709551615", c"\xff\xfe", c"on", c"off", c"yes", c"no", c"false", c"3", c"4", c"8", c"16", c"64",
    c"1024", c"65536", c"-1", c"fast", c"debug", c"C.UTF-8",
];
static mut TEXT: [i8; 80] = [0; 80];
static mut ENVIRON: [*const i8; NVARS + 1] = [std::ptr::null(); NVARS + 1];
extern "C" {
    static mut environ: *const *const i8;
}
/// The variables as a whole, for those who list them.
unsafe fn boot_vars(k: &crate::plan::Knobs) {
    let t = &mut *(&raw mut TEXT);
    for (i, b) in k.text.iter().take(79).enumerate() {
        t[i] = *b as i8;
    }
    let l = &mut *(&raw mut ENVIRON);
    for i in 0..k.vars as usize % NVARS {
        l[i] = [c"HOME=/", c"PATH=/bin:/usr/bin", c"LANG=C.UTF-8", c"RUST_BACKTRACE=1", c"RUST_LOG=debug", c"TERM=xterm", c"USER=miner", c"A=", c"B=1", c"TZ=UTC", c"X=y"][i % 11].as_ptr();
    }
    environ = &raw const l[0];
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const i8) -> *const i8 {
    if sim() {
        stat(S_ENV_READS, 1);
        if TEXT[0] != 0 {
            return &raw const TEXT[0];
        }
        return match m().vars {
            0 => std::ptr::null(),
            1 => VARS[m().env.below(NVARS as u64) as usize].as_ptr(),
            v => VARS[v as usize % NVARS].as_ptr(),
        };
    }
    if environ.is_null() {
        return std::ptr::null();
    }
    let mut e = environ;
    while !(*e).is_null() {
        let (mut i, s) = (0, *e);
        while *name.add(i) != 0 && *name.add(i) == *s.add(i) {
            i += 1;
        }
        if *name.add(i) == 0 && *s.add(i) == b'=' as i8 {
            return s.add(i + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(n: i32) -> i64 {
    if sim() && (n == 83 || n == 84) {
        stat(S_CPU_READS, 1);
        return m().cpus as i64; // processors configured, processors online
    }
    let f = dlsym(-1isize as *mut u8, c"sysconf".as_ptr() as *const u8);
    let f: extern "C" fn(i32) -> i64 = std::mem::transmute(f);
    f(n)
}

// Files the library opens are missing, or hold something of the simulator's
// making. Nothing it writes goes anywhere.
unsafe fn open_sim(name: *const i8) -> i32 {
    let s = set_mode(0);
    stat(S_FILE_OPENS, 1);
    let mm = m();
    let path = core::ffi::CStr::from_ptr(name).to_string_lossy();
    let mut text = String::new();
    if path.ends_with("cpuinfo") {
        for i in 0..mm.cpus {
            text += &format!("processor\t: {}\n\n", i);
        }
    } else if path.contains("/cpu/") {
        text = format!("0-{}\n", mm.cpus - 1);
    } else if path.contains("cgroup") || mm.env.chance(1, 2) {
        *__errno_location() = 2;
        set_mode(s);
        return -1;
    } else {
        for _ in 0..mm.env.below(5) {
            text += &format!("{}\n", mm.env.u64() >> mm.env.below(64));
        }
    }
    let fd = raw(319, c"sim".as_ptr() as usize, 1, 0, 0, 0, 0);
    if fd >= 0 {
        raw(1, fd as usize, text.as_ptr() as usize, text.len(), 0, 0, 0);
        raw(8, fd as usize, 0, 0, 0, 0, 0);
    }
    drop((text, path));
    set_mode(s);
    ret(fd) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open64(name: *const i8, flags: i32, perm: u32) -> i32 {
    if sim() {
        return open_sim(name);
    }
    ret(raw(257, -100isize as usize, name as usize, flags as usize, perm as usize, 0, 0)) as i32
}
#[no_mangle]
#[allow(invalid_runtime_symbol_definitions)]
pub unsafe extern "C" fn open(name: *const i8, flags: i32, perm: u32) -> i32 {
    open64(name, flags, perm)
}

// The time stamp counter is a clock as well: reading it traps, and is answered here.
extern "C" {
    fn prctl(op: i32, a: usize, b: usize, c: usize, d: usize) -> i32;
    fn sigaction(sig: i32, new: *const Action, old: *mut Action) -> i32;
}
#[repr(C)]
struct Action {
    f: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
unsafe extern "C" fn trapped(_sig: i32, _info: *const u8, uc: *mut u8) {
    let g = uc.add(40) as *mut u64;
    let (dx, ax, cx, ip) = (g.add(12), g.add(13), g.add(14), g.add(16));
    let code = *ip as *const u8;
    // never an address of code that cannot be read: it was just being executed
    let rd = *code == 0x0f && *code.add(1) == 0x31;
    let rdp = *code == 0x0f && *code.add(1) == 0x01 && *code.add(2) == 0xf9;
    if (rd || rdp) && !MACH.is_null() && m().live {
        let t = if managed() { clock_now(1) as u64 } else { 0 };
        *ax = t & 0xffff_ffff;
        *dx = t >> 32;
        if rdp {
            *cx = 0;
        }
        *ip += if rdp { 3 } else { 2 };
        return;
    }
    // anything else is a crash: let it happen
    sigaction(11, &Action { f: 0, mask: [0; 16], flags: 0, restorer: 0 }, std::ptr::null_mut());
}
unsafe fn boot_counter() {
    // SA_SIGINFO | SA_ONSTACK
    let a = Action { f: trapped as *const () as usize, mask: [0; 16], flags: 4 | 0x0800_0000, restorer: 0 };
    sigaction(11, &a, std::ptr::null_mut());
    prctl(26, 2, 0, 0, 0);
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: usize, n: usize, set: *mut u8) -> i32 {
    if sim() {
        stat(S_CPU_READS, 1);
        std::ptr::write_bytes(set, 0, n);
        for i in 0..(m().cpus as usize).min(n * 8) {
            *set.add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = raw(204, pid & 0xffff_ffff, n, set as usize, 0, 0, 0);
    if r >= 0 { 0 } else { ret(r) as i32 }
}

// Threads the library itself starts become tasks of the simulation.
type Start = extern "C" fn(*mut u8) -> *mut u8;
struct Boot {
    task: usize,
    f: Start,
    arg: *mut u8,
}
static mut LIBTH: [usize; MAXT] = [0; MAXT];

extern "C" fn lib_thread(b: *mut u8) -> *mut u8 {
    unsafe {
        let b = *Box::from_raw(b as *mut Boot);
        TL_TASK.with(|c| c.set(b.task));
        park(b.task);
        retime();
        m().t[b.task].lib_mark = STEP - m().t[b.task].outside;
        set_mode(2);
        let r = (b.f)(b.arg);
        set_mode(0);
        let mm = m();
        mm.t[b.task].depth = 0;
        mm.t[b.task].st = St::Done;
        for i in 0..mm.n {
            if mm.t[i].st == (St::Joining { task: b.task }) {
                mm.t[i].st = St::Ready;
            }
        }
        TL_TASK.with(|c| c.set(usize::MAX));
        match choose(true) {
            Some(to) => {
                record(b.task, to);
                hand(to);
            }
            None => hand(COORD),
        }
        r
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(th: *mut usize, at: *const u8, f: Start, arg: *mut u8) -> i32 {
    let p = dlsym(-1isize as *mut u8, c"pthread_create".as_ptr() as *const u8);
    let real: extern "C" fn(*mut usize, *const u8, Start, *mut u8) -> i32 = std::mem::transmute(p);
    if !sim() {
        return real(th, at, f, arg);
    }
    let s = set_mode(0);
    let mm = m();
    // a slot of a library thread that has ended, or a new one
    let task = (0..mm.n).find(|&i| mm.t[i].lib && mm.t[i].st == St::Done).unwrap_or(mm.n);
    if task >= MAXT {
        inconclusive("threads", "the library started more threads than the simulation has room for");
    }
    let fresh = task == mm.n;
    mm.n += fresh as usize;
    mm.t[task].lib = true;
    mm.t[task].st = St::Ready;
    mm.t[task].prio = 500_000 + mm.rng.below(1_000_000);
    mm.t[task].depth = 1;
    mm.t[task].fr[0] = Frame { id: cur_call(), ..NOFRAME };
    stat(S_LIB_THREADS, 1);
    let b = Box::into_raw(Box::new(Boot { task, f, arg }));
    let r = real(th, at, lib_thread, b as *mut u8);
    LIBTH[task] = *th;
    set_mode(s);
    if r != 0 {
        mm.t[task].st = St::Done;
        return r;
    }
    alloc_event(false);
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: usize, r: *mut *mut u8) -> i32 {
    let p = dlsym(-1isize as *mut u8, c"pthread_join".as_ptr() as *const u8);
    let real: extern "C" fn(usize, *mut *mut u8) -> i32 = std::mem::transmute(p);
    if sim() {
        for i in 0..m().n {
            if m().t[i].lib && LIBTH[i] == th && m().t[i].st != St::Done {
                let s = set_mode(0);
                STEP += 1;
                m().t[CURT].st = St::Joining { task: i };
                yield_to_other(true);
                set_mode(s);
            }
        }
    }
    real(th, r)
}
