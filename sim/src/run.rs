//! One simulated execution: the callers of a plan, the calls they make, and
//! the checks on what comes back.
use crate::model::Expect;
use crate::plan::{Call, Op, Plan};
use crate::rt::{self, *};
use std::collections::HashMap;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

pub struct SimOom;

/// Steps one unit of `Op::work()` may take, per build of the library: the
/// bound of property C09, eight (release) and seventeen (checked) times what the tree
/// measured when the check was written. Elsewhere a call eight times beyond is taken to be hung.
pub static mut C09_FACTOR: u64 = 0;
pub const C09_RELEASE: u64 = 1_250;
pub const C09_CHECKED: u64 = 4_000;
const C09_BASE: u64 = 100_000;
/// What a call may cost more, apart from a quarter, than the same call cost at
/// the start of the process.
const C09_CREEP: u64 = 12_000;

static mut PROP: u32 = 0;
static mut EXPECT: *const HashMap<Op, Expect> = std::ptr::null();
static mut KEPT: *mut Vec<(Vec<u8>, Op)> = std::ptr::null_mut();
static mut WHERE: String = String::new();
static mut MANGLE: bool = false;
static mut QUIET: bool = true;

fn prop() -> u32 {
    unsafe { PROP }
}
pub fn prop_num(p: &str) -> u32 {
    p.trim_start_matches('C').parse().unwrap_or(0)
}

/// Which kinds of event break which property.
pub fn flagged(p: u32, class: &str, faulted: bool) -> bool {
    match p {
        4 => matches!(class, "wrong-digest" | "heap") || (faulted && matches!(class, "crash" | "blocked" | "no-end")),
        5 => matches!(class, "wrong-digest" | "unexpected-panic" | "not-refused" | "mutated-digest" | "heap")
            || (faulted && matches!(class, "crash" | "blocked" | "no-end")),
        6 => matches!(class, "leak" | "heap"),
        7 => matches!(class, "wrong-digest" | "over-budget" | "unexpected-panic" | "crash"),
        9 => matches!(class, "no-end" | "blocked"),
        _ => !matches!(class, "leak" | "over-budget"),
    }
}
fn flag(class: &str) -> bool {
    flagged(prop(), class, unsafe { (*m().rep).faulted != 0 })
}

fn invoke(op: &Op, a: Vec<u8>, b: Vec<u8>) -> Vec<u8> {
    match op {
        Op::Lyra { k, t, r, c, .. } => lyra_calls::config(*k, a, b, *t, *r, *c),
        Op::Sum { f, .. } => lyra_calls::sum(*f, a),
    }
}

fn expect(op: &Op) -> &'static Expect {
    unsafe { let h: &'static HashMap<Op, Expect> = &*EXPECT; &h[op] }
}

fn hex(v: &[u8]) -> String {
    let mut s: String = v.iter().take(24).map(|b| format!("{:02x}", b)).collect();
    if v.len() > 24 {
        s += "..";
    }
    format!("{} ({} bytes)", s, v.len())
}

pub fn cap_steps(op: &Op, e: &Expect, p: u32) -> u64 {
    if *e == Expect::Unspecified {
        return 6_000_000;
    }
    let c = op.work().saturating_mul(unsafe { C09_FACTOR }).saturating_add(C09_BASE);
    if p == 9 { c } else { c.saturating_mul(8) }
}

/// What lies on the stack below us is as arbitrary as fresh heap memory.
#[inline(never)]
fn dirty_stack() {
    let mut a = std::mem::MaybeUninit::<[u64; 3000]>::uninit();
    let p = a.as_mut_ptr() as *mut u64;
    let f = m().fill;
    if f == 0 {
        return;
    }
    let mut x = if f == 2 { m().env.u64() } else { 0 };
    for i in 0..3000 {
        let v = match f {
            1 => 0xA5A5_A5A5_A5A5_A5A5,
            2 => crate::rng::splitmix(&mut x),
            _ => 0,
        };
        unsafe { p.add(i).write_volatile(v) };
    }
    std::hint::black_box(p);
}

/// Nor does it matter how far down the stack the call is made: up to a few pages.
#[inline(never)]
fn deeper(n: u64, f: &mut dyn FnMut()) {
    let mut pad = 0u64;
    std::hint::black_box(&mut pad);
    if n == 0 {
        std::hint::black_box(f)()
    } else {
        deeper(n - 1, f)
    }
    std::hint::black_box(&mut pad);
}

/// Make one call, as the task `me`, and judge it.
fn exec(call: &Call, me: usize) {
    let e = expect(&call.op);
    let p = prop();
    let mm = m();
    stat(S_CALLS, 1);
    match &call.op {
        Op::Lyra { k, r, .. } => {
            if *k > 96 {
                stat(S_LONG_OUTPUT, 1);
            }
            if !r.is_power_of_two() {
                stat(S_ODD_ROWS, 1);
            }
        }
        _ => {}
    }
    for i in 0..mm.n.min(8) {
        if i != me && mm.t[i].depth > 0 {
            let f = &mm.t[i].fr[mm.t[i].depth - 1];
            if f.active && !f.call.is_null() && unsafe { (*f.call).op == call.op } {
                stat(S_SAME_ARGS_CONCURRENT, 1);
                break;
            }
        }
    }
    if p == 5 && *e == Expect::Refuse {
        unsafe { (*mm.rep).faulted = 1 }; // to be refused by a panic, and by nothing worse
    }
    let nested = mm.t[me].depth > 0;
    let id = push_frame(call, me, cap_steps(&call.op, e, p), *e == Expect::Unspecified);
    // The arguments are rendered outside, then copied into the caller's heap.
    let (ra, rb) = match &call.op {
        Op::Lyra { pwd, salt, .. } => (pwd.render(), salt.render()),
        Op::Sum { input, .. } => (input.render(), vec![]),
    };
    set_mode(1);
    // callers' buffers need not be exactly full
    let slack = if m().skew { m().env.below(3) as usize * 5 } else { 0 };
    let mut a = Vec::with_capacity(ra.len() + slack);
    a.extend_from_slice(&ra);
    let mut b = Vec::with_capacity(rb.len() + slack);
    b.extend_from_slice(&rb);
    set_mode(0);
    drop((ra, rb));
    if call.fault.is_some() {
        stat(S_BUDGET_SET, (call.fault.as_ref().unwrap().budget != u64::MAX) as u64);
    }
    let below = if m().skew && p != 7 { m().env.below(if nested { 8 } else { 256 }) } else { 0 };
    let mut args = Some((a, b));
    let mut end = None;
    deeper(below, &mut || {
        let (a, b) = args.take().unwrap();
        dirty_stack();
        activate(me, true);
        set_mode(2);
        let r = catch_unwind(AssertUnwindSafe(|| invoke(&call.op, a, b)));
        set_mode(0);
        activate(me, false);
        end = Some(r);
    });
    let r = end.unwrap();
    let f = pop_frame(me);
    let used = step() - f.start;
    if unsafe { (*mm.rep).calls_done == 0 } {
        unsafe { (*mm.rep).step0 = used };
    }
    unsafe { (*mm.rep).calls_done += 1 };
    {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        call.op.hash(&mut h);
        hash(h.finish());
    }
    hash(used);
    if p == 9 && mm.n == 1 {
        creep(call, used);
    }
    let w = call.op.work();
    if *e != Expect::Unspecified && call.nest.is_none() {
        stat_max(S_MAX_WORK_RATIO, used.saturating_sub(C09_BASE / 16) / w.max(1));
    }
    let name = || format!("task {}: {}", me, call.op.name());
    let faulted = f.failed > 0;
    let mut owned = 0;
    let mut keep = None;
    match r {
        Ok(v) => {
            let mut h = 0u64;
            for x in &v {
                h = h.wrapping_mul(257).wrapping_add(*x as u64);
            }
            hash(h);
            if v.capacity() > 0 && owner_call(v.as_ptr()) == id {
                owned = 1;
            }
            if faulted {
                stat(S_SURVIVED_FAULT, 1);
            }
            match e {
                Expect::Digest(d) => {
                    stat(S_DIGESTS_CHECKED, 1);
                    if *d != v && !(p == 4 && !faulted) && !(p == 5 && faulted) {
                        let how = if faulted { format!(" after {} allocation(s) failed", f.failed) } else { String::new() };
                        violation("wrong-digest", &format!("{} returned {}{}, the algorithm defines {}", name(), hex(&v), how, hex(d)));
                    }
                }
                Expect::Refuse => {
                    if p != 4 {
                        violation("not-refused", &format!("{} is documented to be refused but returned {}", name(), hex(&v)));
                    }
                }
                Expect::Unspecified => {}
            }
            keep = Some(v);
        }
        Err(pl) => {
            unsafe { (*mm.rep).faulted = 1 };
            let oom = pl.is::<SimOom>();
            let txt = if oom {
                "an allocation failure".to_string()
            } else if let Some(s) = pl.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = pl.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            drop(pl);
            hash(0xdead);
            match e {
                Expect::Digest(_) if !faulted => {
                    let at = unsafe { (*(&raw const WHERE)).clone() };
                    violation("unexpected-panic", &format!("{} panicked: {} {}", name(), txt, at));
                }
                Expect::Refuse => {
                    stat(S_REFUSED, 1);
                }
                _ => stat(if oom || faulted { S_UNWOUND_ALLOC } else { S_UNWOUND_OTHER }, 1),
            }
        }
    }
    if let (7, Some(fl)) = (p, &call.fault) {
        let peak = callmem(id).peak;
        stat_max(S_MAX_PEAK_PERMILLE, peak * 1000 / fl.budget.max(1));
        if faulted {
            violation("over-budget", &format!("{} asked for more than its budget of {} bytes at once", name(), fl.budget));
        }
    }
    let live = callmem(id).live as i64 - owned;
    stat(S_LEAK_CHECKS, 1);
    if live > 0 {
        let end = if keep.is_some() { "returned" } else { "unwound" };
        let bytes = callmem(id).bytes as i64 - if owned == 1 { keep.as_ref().unwrap().capacity() as i64 } else { 0 };
        violation("leak", &format!("{} {} and left {} block(s), {} bytes, allocated", name(), end, live, bytes));
    }
    if let (Some(mut v), Expect::Digest(d)) = (keep, e) {
        let k = unsafe { &mut *KEPT };
        if unsafe { MANGLE } && mm.env.chance(1, 2) && v == *d {
            // the caller's buffer is the caller's to write to
            stat(S_DIGESTS_MANGLED, 1);
            v.iter_mut().for_each(|x| *x = 0xEE);
            v.resize(v.capacity().min(4096), 0xEE);
        } else if v == *d {
            if k.len() >= 96 {
                let i = mm.env.below(96) as usize;
                reread(&k[i]);
                k[i] = (v, call.op.clone());
            } else {
                k.push((v, call.op.clone()));
            }
        }
    }
}

/// One caller, no overlap: the call the history began with, made again with
/// the same or other contents, must not have become dearer by what was computed
/// in between.
fn creep(call: &Call, used: u64) {
    static mut FIRST: Option<&'static Op> = None;
    static mut SEEN: u32 = 0;
    static mut EARLY: u64 = 0;
    static mut LAST: [u64; 3] = [0; 3];
    unsafe {
        let op: &'static Op = &*(&call.op as *const Op); // plans are never freed
        let first = *(&raw const FIRST);
        if first.is_none() {
            FIRST = Some(op);
        } else if !first.unwrap().like(op) {
            return;
        }
        if SEEN < 3 {
            EARLY = EARLY.max(used);
        }
        LAST[SEEN as usize % 3] = used;
        SEEN += 1;
        let l = LAST;
        let low = l[0].min(l[1]).min(l[2]);
        if SEEN >= 6 && low > EARLY + EARLY / 4 + C09_CREEP {
            violation("no-end", &format!("{} needs {} steps now, but needed {} at the start: the calls made in between make it dearer", call.op.name(), low, EARLY));
        }
    }
}

fn reread(k: &(Vec<u8>, Op)) {
    stat(S_DIGESTS_REREAD, 1);
    if let Expect::Digest(d) = expect(&k.1) {
        if *d != k.0 {
            violation("mutated-digest", &format!("a digest returned by {} was later changed to {}", k.1.name(), hex(&k.0)));
        }
    }
}

fn gather(c: &Call, h: &mut HashMap<Op, Expect>) {
    if !h.contains_key(&c.op) {
        h.insert(c.op.clone(), c.op.expect());
    }
    if let Some((_, v)) = &c.nest {
        for x in v {
            gather(x, h);
        }
    }
}

fn spawn(plan: &'static Plan, t: usize, inc: usize) -> std::thread::JoinHandle<()> {
    stat(S_THREADS, 1);
    if inc > 0 {
        stat(S_THREAD_RESTARTS, 1);
    }
    if plan.knobs.stack_kib < 512 {
        stat(S_SMALL_STACKS, 1);
    }
    let mut b = std::thread::Builder::new();
    if plan.knobs.vars % 3 == 1 {
        b = b.name(["main", "worker", "tokio-runtime-worker"][(t + inc) % 3].into());
    }
    b.stack_size((plan.knobs.stack_kib as usize) << 10)
        .spawn(move || {
            enter(t);
            for c in &plan.tasks[t].incs[inc] {
                boundary();
                exec(c, t);
            }
            boundary();
            leave(inc + 1 == plan.tasks[t].incs.len());
        })
        .expect("cannot start a thread")
}

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|i| {
        let s = set_mode(0);
        if managed() || unsafe { QUIET } {
            if managed() {
                let w = i.location().map_or(String::new(), |l| format!("(at {}:{})", l.file(), l.line()));
                unsafe { WHERE = w };
                panic_begins();
            }
        } else {
            eprintln!("{}", i);
        }
        set_mode(s);
    }));
    std::alloc::set_alloc_error_hook(|_| panic_any(SimOom));
}

/// In a forked child: carry out the plan. Does not return.
pub fn execute(plan: Plan, rep: *mut Report) -> ! {
    unsafe {
        let plan: &'static Plan = Box::leak(Box::new(plan));
        PROP = prop_num(&plan.prop);
        MANGLE = plan.knobs.mangle;
        let mut h = HashMap::new();
        for t in &plan.tasks {
            for i in &t.incs {
                for c in i {
                    gather(c, &mut h);
                }
            }
        }
        EXPECT = Box::leak(Box::new(h));
        KEPT = Box::leak(Box::new(Vec::with_capacity(128)));
        let n = plan.tasks.len();
        boot(rep, plan.seed, &plan.knobs, &plan.strat, &plan.sched, n, flag, exec, PROP == 10);
        let mut longest = 0;
        let mut th: Vec<Option<std::thread::JoinHandle<()>>> = vec![];
        for t in 0..n {
            longest = longest.max(plan.tasks[t].incs.iter().map(|i| i.len()).sum::<usize>());
            th.push(Some(spawn(plan, t, 0)));
        }
        stat_max(S_LONGEST_HISTORY, longest as u64);
        let mut done = vec![0; n];
        let mut from = COORD;
        loop {
            let f = coordinate(from);
            if f == usize::MAX {
                break;
            }
            th[f].take().unwrap().join().unwrap();
            done[f] += 1;
            if done[f] < plan.tasks[f].incs.len() {
                th[f] = Some(spawn(plan, f, done[f]));
            }
            from = f;
        }
        for k in (*KEPT).iter() {
            reread(k);
        }
        (*rep).status = Status::Ok;
        rt::_exit(0)
    }
}
