//! Deterministic simulation of the lyra2 crate: see ../../DESIGN.md.
#![feature(alloc_error_hook, link_llvm_intrinsics)]
#![allow(internal_features)]
#![allow(static_mut_refs, clippy::missing_safety_doc)]
mod model;
mod plan;
mod rng;
mod rt;
mod run;
mod survey;

use plan::*;
use rng::splitmix;
use rt::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::*};

#[global_allocator]
static A: SimAlloc = SimAlloc;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn alarm(s: u32) -> u32;
    fn sched_setaffinity(p: i32, n: usize, m: *const u64) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn personality(p: u64) -> i32;
    fn execv(p: *const u8, a: *const *const u8) -> i32;
}

const MAXH: usize = 1 << 20;

#[repr(C)]
struct Share {
    runs: u64,
    ok: u64,
    inconclusive: u64,
    nontrivial: u64,
    det_checked: u64,
    det_differ: u64,
    bad_index: u64, // smallest violating run seen, +1
    bad_size: u64,
    harness: u64,   // runs the harness could not finish
    note: [u8; 256],
    note_len: u64,
    stats: [u64; NSTAT],
    with: [u64; NSTAT], // runs in which the stat was non-zero
    nh: u64,
    h: [u64; MAXH],
}

#[derive(Clone, Debug, PartialEq)]
struct Outcome {
    status: Status,
    class: String,
    msg: String,
    hash: u64,
    sw: Vec<Switch>,
}

fn now() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { raw(228, 1, ts.as_mut_ptr() as usize, 0, 0, 0, 0) };
    ts[0] as f64 + ts[1] as f64 * 1e-9
}

fn pin(cpu: usize) {
    let mut cur = [0u64; 16];
    unsafe {
        // the cpu-th of the processors we may use
        rt::sched_getaffinity(0, 128, cur.as_mut_ptr() as *mut u8);
        let all: Vec<usize> = (0..1024).filter(|i| cur[i / 64] >> (i % 64) & 1 == 1).collect();
        if all.is_empty() {
            return;
        }
        let c = all[cpu % all.len()];
        let mut m = [0u64; 16];
        m[c / 64] = 1 << (c % 64);
        sched_setaffinity(0, 128, m.as_ptr());
    }
}

/// Run a plan in a child of its own; the result is in `rep`.
fn run_child(plan: Plan, rep: *mut Report, cpu_s: u64) {
    unsafe {
        let r = &mut *rep;
        r.status = Status::Running;
        r.class_len = 0;
        r.msg_len = 0;
        r.nsw = 0;
        r.hash = 0;
        r.faulted = 0;
        r.calls_done = 0;
        r.step0 = 0;
        r.stats = [0; NSTAT];
        let p = run::prop_num(&plan.prop);
        let pid = fork();
        if pid == 0 {
            let fd = rt::open(c"/dev/null".as_ptr(), 2, 0);
            dup2(fd, 2);
            dup2(fd, 1);
            setrlimit(0, &[cpu_s, cpu_s + 5]);
            setrlimit(4, &[0, 0]); // no core files
            alarm(cpu_s as u32 * 4 + 60);
            run::execute(plan, rep);
        }
        assert!(pid > 0, "fork failed");
        let mut st = 0;
        while waitpid(pid, &mut st, 0) != pid {}
        if r.status == Status::Running {
            let sig = st & 0x7f;
            let set = |class: &str, msg: &str, s: Status| {
                let r = &mut *rep;
                let n = class.len().min(64);
                r.class[..n].copy_from_slice(&class.as_bytes()[..n]);
                r.class_len = n as u32;
                let n = msg.len().min(1024);
                r.msg[..n].copy_from_slice(&msg.as_bytes()[..n]);
                r.msg_len = n as u32;
                r.status = s;
            };
            let (class, msg) = match sig {
                4 | 5 | 6 | 7 | 8 | 11 => ("crash", format!("the process died of signal {} after {} calls", sig, r.calls_done)),
                24 => ("no-end", format!("the run used {} s of processor time after {} calls without ending", cpu_s, r.calls_done)),
                // nothing here ends the process without a report, except a panic of the harness itself (101)
                0 if st >> 8 & 0xff != 101 => ("crash", format!("the process exited with status {} after {} calls", st >> 8 & 0xff, r.calls_done)),
                _ => ("harness", format!("the run ended with wait status {:#x}", st)),
            };
            let s = if class == "harness" || !run::flagged(p, class, r.faulted != 0) { Status::Inconclusive } else { Status::Violation };
            set(class, &msg, s);
        }
    }
}

fn outcome(rep: *mut Report) -> Outcome {
    let r = unsafe { &*rep };
    Outcome {
        status: r.status,
        class: String::from_utf8_lossy(&r.class[..r.class_len as usize]).into(),
        msg: String::from_utf8_lossy(&r.msg[..r.msg_len as usize]).into(),
        hash: r.hash,
        sw: r.sw[..r.nsw as usize].iter().map(|x| Switch { task: x.0, to: x.1, step: x.2 }).collect(),
    }
}
fn try_plan(plan: &Plan, rep: *mut Report, cpu: u64) -> Outcome {
    run_child(plan.clone(), rep, cpu);
    outcome(rep)
}

pub fn verbose() -> bool {
    std::env::var_os("LYRA_VERBOSE").is_some()
}

fn run_seed(base: u64, prop: &str, index: u64) -> u64 {
    let mut s = base.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (run::prop_num(prop) as u64) << 56 ^ index;
    splitmix(&mut s);
    splitmix(&mut s) >> 1
}

fn solo(op: Op) -> Plan {
    let cal = Calib { per_cell: 1, sums: [1; 5], by_fn: [0; 6], shared: 0, survey: Survey::default() };
    let mut p = generate("C08", 1, 1, &cal);
    p.prop = "C00".into();
    p.knobs.stack_kib = 2048;
    p.tasks = vec![TaskPlan { incs: vec![vec![Call::plain(op)]] }];
    p.strat.kind = 0;
    p
}

/// How many steps calls take in this build (exactly repeatable).
fn calibrate(rep: *mut Report, a: &Args) -> Calib {
    let d = |len| Data { kind: 0, seed: 7, len, edits: vec![] };
    let mut cal = Calib { per_cell: 150, sums: [5_000, 90_000, 20_000, 20_000, 30_000], by_fn: [0; 6], shared: 0, survey: Survey::default() };
    let tls = a.get("prop", "") == "C10";
    let one = |op: Op, i: usize, cal: &mut Calib| {
        let o = try_plan(&solo(op), rep, 20);
        let s = unsafe { (*rep).step0 };
        let st = unsafe { &(*rep).stats };
        cal.by_fn[i] = st[S_SHARED_ACCESSES] + if tls { st[S_TLS_ACCESSES] } else { 0 };
        if o.status == Status::Ok && s > 0 { Some(s) } else { None }
    };
    if let Some(s) = one(Op::Lyra { k: 32, pwd: d(8), salt: d(8), t: 1, r: 8, c: 16 }, 5, &mut cal) {
        cal.per_cell = (s / model::lyra2_cols(1, 8, 16)).max(1);
    }
    for f in 0..5 {
        if let Some(s) = one(Op::Sum { f, input: d(80) }, f as usize, &mut cal) {
            cal.sums[f as usize] = s;
        }
    }
    cal.shared = cal.by_fn.iter().map(|n| *n.min(&5_000)).max().unwrap();
    if let Some(f) = a.0.get("survey") {
        cal.survey = std::fs::read_to_string(f).ok().and_then(|t| Survey::parse(&t)).expect("cannot read the survey");
        if tls {
            cal.survey.hot.iter_mut().for_each(|h| h.shared += h.tls);
        }
    }
    cal
}

// ------------------------------------------------------------------ shrinking

struct Shrink<'a> {
    rep: *mut Report,
    class: &'a str,
    deadline: f64,
    tried: u64,
    cpu: u64,
}
impl<'a> Shrink<'a> {
    fn spent(&self) -> bool {
        now() > self.deadline || self.tried >= 3000
    }
    fn bad(&mut self, p: &Plan) -> bool {
        if self.spent() {
            return false;
        }
        self.tried += 1;
        let o = try_plan(p, self.rep, self.cpu);
        o.status == Status::Violation && o.class == self.class
    }
    /// Keep removing chunks of a list while the violation stays.
    fn ddmin<T: Clone>(&mut self, p: &mut Plan, get: fn(&Plan) -> Vec<T>, put: fn(&mut Plan, &[usize], Vec<T>)) -> bool {
        let mut any = false;
        let mut n = 1usize;
        loop {
            let mut v = get(p);
            if v.is_empty() || self.spent() {
                return any;
            }
            let size = v.len().div_ceil(n.min(v.len()));
            let mut hit = false;
            let mut at = 0;
            while at < v.len() && !self.spent() {
                let keep: Vec<usize> = (0..v.len()).filter(|i| *i < at || *i >= at + size).collect();
                let mut q = p.clone();
                put(&mut q, &keep, keep.iter().map(|i| v[*i].clone()).collect());
                if q != *p && self.bad(&q) {
                    *p = q;
                    hit = true;
                    any = true;
                    v = get(p);
                } else {
                    at += size;
                }
            }
            if size > 1 {
                n *= 2;
            } else if !hit {
                return any;
            }
        }
    }
}

fn flat(p: &Plan) -> Vec<(usize, usize, usize)> {
    let mut v = vec![];
    for (t, tp) in p.tasks.iter().enumerate() {
        for (i, inc) in tp.incs.iter().enumerate() {
            for c in 0..inc.len() {
                v.push((t, i, c));
            }
        }
    }
    v
}
fn calls_mut(p: &mut Plan) -> Vec<&mut Call> {
    p.tasks.iter_mut().flat_map(|t| t.incs.iter_mut()).flat_map(|i| i.iter_mut()).collect()
}

fn shrink(mut p: Plan, class: &str, rep: *mut Report, secs: f64, cpu: u64) -> (Plan, u64) {
    let mut s = Shrink { rep, class, deadline: now() + secs, tried: 0, cpu };
    let mut again = true;
    while again && !s.spent() {
        again = false;
        // whole callers
        again |= s.ddmin(&mut p, |p| p.tasks.clone(), |q, keep, v| {
            q.tasks = v;
            if let Some(sw) = &q.sched {
                let pos = |t: u32| if t as usize == COORD { Some(t) } else { keep.iter().position(|k| *k == t as usize).map(|x| x as u32) };
                q.sched = Some(sw.iter().filter_map(|w| Some(Switch { task: pos(w.task)?, step: w.step, to: pos(w.to)? })).collect());
            }
        });
        // calls
        again |= s.ddmin(&mut p, flat, |q, _, v| {
            let v: HashSet<(usize, usize, usize)> = v.into_iter().collect();
            for (t, tp) in q.tasks.iter_mut().enumerate() {
                for (i, inc) in tp.incs.iter_mut().enumerate() {
                    let mut c = 0;
                    inc.retain(|_| {
                        c += 1;
                        v.contains(&(t, i, c - 1))
                    });
                }
                if tp.incs.iter().any(|i| !i.is_empty()) {
                    tp.incs.retain(|i| !i.is_empty());
                } else {
                    tp.incs.truncate(1);
                }
            }
        });
        // preemptions
        if p.sched.is_some() {
            again |= s.ddmin(&mut p, |p| p.sched.clone().unwrap(), |q, _, v| q.sched = Some(v));
        }
        // faults, stalls, re-entries, arguments
        for i in 0..flat(&p).len() {
            if s.spent() {
                break;
            }
            let mut edits: Vec<Box<dyn Fn(&mut Call)>> = vec![
                Box::new(|c| c.fault = None),
                Box::new(|c| c.stall = None),
                Box::new(|c| c.nest = None),
                Box::new(|c| {
                    if let Some((_, v)) = &mut c.nest {
                        v.truncate(1);
                        v[0].nest = None;
                    }
                }),
                Box::new(|c| {
                    if let Some(f) = &mut c.fault {
                        f.count = 1
                    }
                }),
            ];
            for (d, f) in [("k", 32u64), ("t", 1), ("r", 4), ("c", 1), ("c", 2), ("c", 4), ("p", 0), ("s", 0), ("p", 8), ("s", 8)] {
                edits.push(Box::new(move |call| match &mut call.op {
                    Op::Lyra { k, pwd, salt, t, r, c } => match d {
                        "k" => *k = f,
                        "t" => *t = (*t).min(f),
                        "r" => *r = (*r).min(f),
                        "c" => *c = (*c).min(f),
                        "p" => pwd.len = pwd.len.min(f as u32),
                        _ => salt.len = salt.len.min(f as u32),
                    },
                    Op::Sum { input, .. } => {
                        if d == "p" {
                            input.len = input.len.min(f as u32)
                        }
                    }
                }));
            }
            for e in edits {
                // (most edits change nothing: see before copying a long plan)
                let mut one = calls_mut(&mut p)[i].clone();
                let was = one.clone();
                e(&mut one);
                if one == was || s.spent() {
                    continue;
                }
                let mut q = p.clone();
                let valid = op_valid(&calls_mut(&mut q)[i].op);
                e(calls_mut(&mut q)[i]);
                if q != p && op_valid(&calls_mut(&mut q)[i].op) == valid && s.bad(&q) {
                    p = q;
                    again = true;
                }
            }
        }
        // environment
        let plain: [fn(&mut Knobs); 12] = [
            |k| k.fill = 3, |k| k.scribble = false, |k| k.reuse = true, |k| k.moves = false, |k| k.offset = 0,
            |k| k.clock_jump = 0, |k| k.spurious = false, |k| k.vars = 0, |k| k.skew = false, |k| k.mangle = false, |k| k.cpus = 4, |k| k.text = vec![],
        ];
        for f in plain {
            let mut q = p.clone();
            f(&mut q.knobs);
            if q != p && s.bad(&q) {
                p = q;
                again = true;
            }
        }
    }
    (p, s.tried)
}

// ------------------------------------------------------------------ commands

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

struct Args(BTreeMap<String, String>);
impl Args {
    fn get(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or(d.into())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).map_or(d, |s| s.parse().expect("number expected"))
    }
}

/// Did the run exercise what the property is about? (the `rule` of evidence)
fn nontrivial(prop: &str, s: &[u64; NSTAT]) -> bool {
    let failed = s[S_ALLOC_FAIL] + s[S_REFUSED] + s[S_UNWOUND_OTHER];
    match prop {
        "C01" => s[S_SWITCH_IN_CALL] > 0 && s[S_MAX_INFLIGHT] > 1,
        "C02" => s[S_STALL_FOREVER] + s[S_STALL_RESUMED] > 0,
        "C03" => s[S_LONGEST_HISTORY] > 1,
        "C04" => s[S_ALLOC_FAIL] > 0,
        "C05" => failed > 0 && s[S_DIGESTS_CHECKED] > 0,
        "C06" => failed > 0 || s[S_SWITCH_IN_CALL] > 0,
        "C07" => s[S_BUDGET_SET] > 0 && s[S_SMALL_STACKS] > 0,
        "C08" => s[S_DIRTY_FILLS] + s[S_SCRIBBLES] + s[S_MOVES] + s[S_SKEWED] + s[S_CLOCK_READS] + s[S_ENTROPY_READS] > 0,
        "C09" => s[S_ODD_ROWS] + s[S_LONG_OUTPUT] + s[S_REFUSED] + s[S_SWITCH_IN_CALL] > 0,
        _ => s[S_NESTED] > 0,
    }
}

fn worker(w: u64, a: &Batch, sh: *mut Share, rep: *mut Report, stop: &AtomicU64) {
    pin(w as usize);
    let sh = unsafe { &mut *sh };
    let mut i = a.first + w;
    while i < a.first + a.runs {
        // 0: nothing found yet; else the time (ms) at which to stop
        let end = stop.load(Relaxed);
        if now() > a.deadline || end != 0 && now() * 1000.0 >= end as f64 {
            break;
        }
        let plan = generate(&a.prop, run_seed(a.seed, &a.prop, i), i, &a.cal);
        let size = plan.calls() as u64;
        let again = if sh.runs % 64 == 5 { Some(plan.clone()) } else { None };
        run_child(plan, rep, a.cpu);
        let r = unsafe { &*rep };
        sh.runs += 1;
        for k in 0..NSTAT {
            if [S_MAX_INFLIGHT, S_MAX_WORK_RATIO, S_MAX_PEAK_PERMILLE, S_LONGEST_HISTORY].contains(&k) {
                sh.stats[k] = sh.stats[k].max(r.stats[k]);
            } else {
                sh.stats[k] += r.stats[k];
            }
            sh.with[k] += (r.stats[k] > 0) as u64;
        }
        if nontrivial(&a.prop, &r.stats) {
            sh.nontrivial += 1;
            if (sh.nh as usize) < MAXH {
                sh.h[sh.nh as usize] = r.hash;
                sh.nh += 1;
            }
        }
        match r.status {
            Status::Ok => sh.ok += 1,
            Status::Violation => {
                if sh.bad_index == 0 || size < sh.bad_size {
                    sh.bad_index = i + 1;
                    sh.bad_size = size;
                }
                // a long history minimises slowly: look a little longer for a shorter one
                if size <= 400 {
                    stop.store(1, Relaxed);
                    break;
                }
                let _ = stop.compare_exchange(0, (now() * 1000.0) as u64 + 6000, Relaxed, Relaxed);
            }
            _ => {
                sh.inconclusive += 1;
                let o = outcome(rep);
                if o.class == "harness" {
                    sh.harness += 1;
                }
                let n = format!("run {}: {}: {}", i, o.class, o.msg);
                let n = &n.as_bytes()[..n.len().min(256)];
                sh.note[..n.len()].copy_from_slice(n);
                sh.note_len = n.len() as u64;
            }
        }
        if let Some(p) = again {
            let before = (r.hash, r.nsw, r.status, r.stats[S_STEPS]);
            run_child(p, rep, a.cpu);
            sh.det_checked += 1;
            if before != (r.hash, r.nsw, r.status, r.stats[S_STEPS]) {
                sh.det_differ += 1;
            }
        }
        i += a.workers;
    }
}

struct Batch {
    prop: String,
    seed: u64,
    first: u64,
    runs: u64,
    workers: u64,
    deadline: f64,
    cal: Calib,
    cpu: u64,
}

fn self_exe() -> String {
    std::fs::read_link("/proc/self/exe").unwrap().to_string_lossy().into()
}

fn batch(a: &Args) -> i32 {
    let t0 = now();
    let rep: *mut Report = unsafe { map_shared() };
    let prop = a.get("prop", "C01");
    if !PROPS.contains(&prop.as_str()) {
        eprintln!("no such property: {}", prop);
        return 2;
    }
    let cal = calibrate(rep, a);
    let profile = a.get("profile", "release");
    let b = Batch {
        prop: prop.clone(), seed: a.num("seed", 1), first: a.num("first", 0), runs: a.num("runs", 1000),
        workers: a.num("workers", 8).max(1), deadline: now() + a.num("time", 60) as f64, cal, cpu: a.num("cpu", 120),
    };
    let stop: &AtomicU64 = unsafe { &*map_shared::<AtomicU64>() };
    let mut shares: Vec<*mut Share> = vec![];
    let mut pids = vec![];
    for w in 0..b.workers {
        unsafe {
            let sh: *mut Share = map_shared();
            let rp: *mut Report = map_shared();
            shares.push(sh);
            let pid = fork();
            if pid == 0 {
                worker(w, &b, sh, rp, stop);
                _exit(0);
            }
            assert!(pid > 0);
            pids.push(pid);
        }
    }
    let mut broken = false;
    for p in pids {
        let mut st = 0;
        unsafe { while waitpid(p, &mut st, 0) != p {} };
        broken |= st != 0;
    }
    let explore = now() - t0;
    let mut tot = [0u64; NSTAT];
    let mut with = [0u64; NSTAT];
    let mut hs = HashSet::new();
    let (mut runs, mut ok, mut inc, mut nt, mut dc, mut dd, mut hz) = (0, 0, 0, 0, 0, 0, 0);
    let mut bad: Vec<(u64, u64)> = vec![];
    let mut note = String::new();
    for s in &shares {
        let s = unsafe { &**s };
        runs += s.runs;
        ok += s.ok;
        inc += s.inconclusive;
        nt += s.nontrivial;
        dc += s.det_checked;
        dd += s.det_differ;
        hz += s.harness;
        if s.bad_index > 0 {
            bad.push((s.bad_size, s.bad_index - 1));
        }
        if s.note_len > 0 {
            note = String::from_utf8_lossy(&s.note[..s.note_len as usize]).into();
        }
        for k in 0..NSTAT {
            if [S_MAX_INFLIGHT, S_MAX_WORK_RATIO, S_MAX_PEAK_PERMILLE, S_LONGEST_HISTORY].contains(&k) {
                tot[k] = tot[k].max(s.stats[k]);
            } else {
                tot[k] += s.stats[k];
            }
            with[k] += s.with[k];
        }
        for i in 0..s.nh as usize {
            hs.insert(s.h[i]);
        }
    }
    bad.sort();
    let mut code = if broken || hz * 50 > runs { 3 } else { 0 };
    let mut vio = String::from("null");
    if let Some(&(_, ix)) = bad.first() {
        code = 1;
        vio = report_violation(a, &b, ix, rep, &profile);
    }
    // two runs of this batch, written out
    let mut samples = vec![];
    for i in [b.first + 1, b.first + 2] {
        let p = generate(&prop, run_seed(b.seed, &prop, i), i, &b.cal);
        let t = p.text();
        let cut: String = t.chars().take(1500).collect();
        samples.push(esc(&cut));
    }
    let mut j = String::from("{\n");
    j += &format!("\"profile\": {}, \"runs\": {}, \"held\": {}, \"inconclusive\": {}, \"nontrivial\": {}, \"distinct\": {},\n", esc(&profile), runs, ok, inc, nt, hs.len());
    j += &format!("\"determinism_rechecked\": {}, \"determinism_differ\": {}, \"harness_failures\": {}, \"note\": {},\n", dc, dd, hz, esc(&note));
    j += &format!("\"wall_s\": {:.3}, \"explore_s\": {:.3}, \"planned_runs\": {}, \"workers\": {},\n", now() - t0, explore, b.runs, b.workers);
    j += &format!("\"calibration\": {{\"steps_per_column_visit\": {}, \"steps_per_sum\": {:?}, \"shared_accesses_per_call\": {:?}}},\n", b.cal.per_cell, b.cal.sums, b.cal.by_fn);
    let sv = &b.cal.survey;
    j += &format!(
        "\"survey\": {{\"runs\": {}, \"blocks_reached\": {}, \"rarely_reached\": {}, \"calls_kept\": {}, \"constants\": {}, \"calls_touching_state\": {}}},\n",
        sv.execs, sv.edges, sv.rare.len(), sv.hot.len(), sv.sizes.len() + sv.words.len(), sv.hot.iter().filter(|h| h.shared + h.tls > 0).count()
    );
    j += "\"stats\": {";
    j += &STAT_NAMES.iter().map(|(i, n)| format!("{}: {}", esc(&n[2..].to_lowercase()), tot[*i])).collect::<Vec<_>>().join(", ");
    j += "},\n\"runs_with\": {";
    j += &STAT_NAMES.iter().map(|(i, n)| format!("{}: {}", esc(&n[2..].to_lowercase()), with[*i])).collect::<Vec<_>>().join(", ");
    j += "},\n";
    j += &format!("\"samples\": [{}],\n\"violation\": {}\n}}\n", samples.join(", "), vio);
    match a.0.get("out") {
        Some(f) => std::fs::write(f, j).expect("cannot write the result"),
        None => println!("{}", j),
    }
    code
}

fn report_violation(a: &Args, b: &Batch, ix: u64, rep: *mut Report, profile: &str) -> String {
    let seed = run_seed(b.seed, &b.prop, ix);
    let plan = generate(&b.prop, seed, ix, &b.cal);
    let first = try_plan(&plan, rep, b.cpu);
    let mut p = plan.clone();
    let mut out = first.clone();
    let mut stable = first.status == Status::Violation;
    let mut tried = 0;
    let secs = a.num("shrink", 60) as f64;
    if stable {
        let cpu = if first.class == "no-end" && first.msg.contains("processor") { 20 } else { b.cpu };
        let mut q = plan.clone();
        q.sched = Some(first.sw.clone());
        let o = try_plan(&q, rep, cpu);
        if first.sw.len() < MAXSW - 300 && o.status == Status::Violation && o.class == first.class {
            p = q;
        }
        let (mut s, n) = shrink(p.clone(), &first.class, rep, secs, cpu);
        tried = n;
        let o2 = try_plan(&s, rep, b.cpu);
        if o2.status == Status::Violation && o2.class == first.class {
            s.seed = seed;
            p = s;
            out = o2;
        }
        stable = out.class == first.class;
    }
    let dir = a.get("replays", ".");
    let _ = std::fs::create_dir_all(&dir);
    let file = format!("{}/{}-{}-{}.replay", dir, b.prop, profile, seed);
    let text = |p: &Plan, out: &Outcome| {
        format!(
            "# lyra2 simulation replay: run it with ./check --replay {}\n# VIOLATION of {}: {}: {}\n# base seed {}, run {}; {} candidates tried while minimising\nprofile {}\nclass {}\nhash {:016x}\n{}",
            file, b.prop, out.class, out.msg, b.seed, ix, tried, profile, out.class, out.hash, p.text()
        )
    };
    std::fs::write(&file, text(&p, &out)).expect("cannot write the replay file");
    // a fresh process must reproduce it
    let mut again = replay_status(&file, profile);
    if again != Some(1) && p != plan {
        std::fs::write(&file, text(&plan, &first)).expect("cannot write the replay file");
        again = replay_status(&file, profile);
        out = first;
    }
    let sw = p.sched.as_ref().map_or(0, |s| s.len());
    format!(
        "{{\"run\": {}, \"seed\": {}, \"class\": {}, \"message\": {}, \"replay\": {}, \"reproduced_in_run\": {}, \"reproduced_in_fresh_process\": {}, \"candidates\": {}, \"callers\": {}, \"calls\": {}, \"switches\": {}}}",
        ix, seed, esc(&out.class), esc(&out.msg), esc(&file), stable, again == Some(1), tried, p.tasks.len(), p.calls(), sw
    )
}

fn replay_status(file: &str, profile: &str) -> Option<i32> {
    std::process::Command::new(self_exe()).args(["replay", file, "--profile", profile]).stdout(std::process::Stdio::null()).status().ok()?.code()
}

fn replay(file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let want: Vec<&str> = text.lines().filter(|l| l.starts_with("class ") || l.starts_with("hash ")).map(|l| l.split_once(' ').unwrap().1).collect();
    let plan = match Plan::parse(&text) {
        Some(p) if want.len() == 2 => p,
        _ => {
            eprintln!("{}: not a replay file", file);
            return 2;
        }
    };
    let rep: *mut Report = unsafe { map_shared() };
    let o = try_plan(&plan, rep, 120);
    let h = format!("{:016x}", o.hash);
    println!("status={:?} class={} hash={} (recorded: class={} hash={}{})\n{}", o.status, o.class, h, want[0], want[1],
        if h == want[1] { ", identical execution" } else { "" }, o.msg);
    if o.status == Status::Violation {
        println!("VIOLATION property={} replay={}", plan.prop, file);
        1
    } else {
        0
    }
}

fn one(a: &Args) -> i32 {
    let rep: *mut Report = unsafe { map_shared() };
    let cal = calibrate(rep, a);
    let prop = a.get("prop", "C01");
    let ix = a.num("index", 0);
    let p = generate(&prop, run_seed(a.num("seed", 1), &prop, ix), ix, &cal);
    println!("{}", p.text());
    let t = now();
    let o = try_plan(&p, rep, 120);
    println!("{:?} {} {} hash={:016x} switches={} {:.3}s", o.status, o.class, o.msg, o.hash, o.sw.len(), now() - t);
    for (i, n) in STAT_NAMES {
        print!("{}={} ", &n[2..], unsafe { (*rep).stats[*i] });
    }
    println!();
    0
}

fn main() {
    unsafe {
        // Same addresses in every process: switch address randomisation off.
        let old = personality(0xffff_ffff);
        if old >= 0 && old & 0x40000 == 0 && personality(old as u64 | 0x40000) >= 0 {
            let args: Vec<std::ffi::CString> = std::env::args().map(|s| std::ffi::CString::new(s).unwrap()).collect();
            let mut v: Vec<*const u8> = args.iter().map(|s| s.as_ptr() as *const u8).collect();
            v.push(std::ptr::null());
            let exe = std::ffi::CString::new(self_exe()).unwrap();
            execv(exe.as_ptr() as *const u8, v.as_ptr());
        }
    }
    let argv: Vec<String> = std::env::args().collect();
    let mut m = BTreeMap::new();
    let mut i = 2;
    let mut pos = vec![];
    while i < argv.len() {
        if let Some(k) = argv[i].strip_prefix("--") {
            m.insert(k.to_string(), argv.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        } else {
            pos.push(argv[i].clone());
            i += 1;
        }
    }
    let a = Args(m);
    unsafe {
        rt::init();
        run::C09_FACTOR = if a.get("profile", "release") == "checked" { run::C09_CHECKED } else { run::C09_RELEASE };
    }
    run::install_hooks();
    let code = match argv.get(1).map(|s| s.as_str()) {
        Some("selftest") => match model::self_test() {
            Ok(()) => 0,
            Err(e) => {
                eprintln!("the reference model fails a known answer: {}", e);
                3
            }
        },
        Some("batch") => batch(&a),
        Some("survey") => {
            let rep: *mut Report = unsafe { map_shared() };
            let cal = calibrate(rep, &a);
            let s = survey::survey(a.num("seed", 1), a.num("rounds", 5), a.num("workers", 8).max(1), cal, a.num("time", 30) as f64, |ops, text, rep| {
                let mut p = solo(ops[0].clone());
                p.knobs.vars = 2 + (p.seed + ops.len() as u64) as u8 % 20;
                p.knobs.text = text;
                p.tasks[0].incs[0] = ops.into_iter().map(Call::plain).collect();
                run_child(p, rep, 20);
            });
            match a.0.get("out") {
                Some(f) => std::fs::write(f, s.text()).expect("cannot write the survey"),
                None => print!("{}", s.text()),
            }
            0
        }
        Some("replay") if !pos.is_empty() => replay(&pos[0]),
        Some("one") => one(&a),
        _ => {
            eprintln!("usage: lyra_sim selftest | survey | batch --prop ID .. | replay FILE | one --prop ID --index N");
            2
        }
    };
    std::process::exit(code)
}
