//! A plan is everything one simulated execution depends on: the callers, the
//! calls they make, the faults, the environment and the schedule. It is made
//! from one seed, can be written to a replay file, and can be shrunk.
use crate::model::{self, Expect, SUM_NAMES};
use crate::rng::{splitmix, Rng};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Edit {
    Set(u32, u8),
    Swap(u32, u32),
}

/// Input bytes by description, so that near-duplicates are cheap to state.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Data {
    pub kind: u8, // 0 random, 1 constant byte, 2 ascending
    pub seed: u64,
    pub len: u32,
    pub edits: Vec<Edit>,
}

impl Data {
    pub fn render(&self) -> Vec<u8> {
        let n = self.len as usize;
        let mut v = Vec::with_capacity(n);
        let mut s = self.seed;
        match self.kind {
            0 => {
                while v.len() < n {
                    v.extend_from_slice(&splitmix(&mut s).to_le_bytes());
                }
                v.truncate(n);
            }
            1 => v.resize(n, self.seed as u8),
            _ => v.extend((0..n).map(|i| (i as u64 + self.seed) as u8)),
        }
        for e in &self.edits {
            match *e {
                Edit::Set(p, b) if (p as usize) < n => v[p as usize] = b,
                Edit::Swap(a, b) if (a as usize) < n && (b as usize) < n => v.swap(a as usize, b as usize),
                _ => {}
            }
        }
        v
    }
    fn text(&self) -> String {
        let mut s = format!("{}:{}:{}", self.kind, self.seed, self.len);
        for e in &self.edits {
            match e {
                Edit::Set(p, b) => s += &format!(":s{}.{}", p, b),
                Edit::Swap(a, b) => s += &format!(":w{}.{}", a, b),
            }
        }
        s
    }
    fn parse(t: &str) -> Option<Data> {
        let mut it = t.split(':');
        let kind = it.next()?.parse().ok()?;
        let seed = it.next()?.parse().ok()?;
        let len = it.next()?.parse().ok()?;
        let mut edits = vec![];
        for e in it {
            let (a, b) = e[1..].split_once('.')?;
            edits.push(if e.starts_with('s') {
                Edit::Set(a.parse().ok()?, b.parse().ok()?)
            } else {
                Edit::Swap(a.parse().ok()?, b.parse().ok()?)
            });
        }
        Some(Data { kind, seed, len, edits })
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Lyra { k: u64, pwd: Data, salt: Data, t: u64, r: u64, c: u64 },
    Sum { f: u8, input: Data },
}

impl Op {
    pub fn expect(&self) -> Expect {
        match self {
            Op::Lyra { k, pwd, salt, t, r, c } => {
                if *t < 1 || *r < 3 {
                    return Expect::Refuse;
                }
                if *c < 1 || !model::fits(pwd.len as usize, salt.len as usize, *r, *c) {
                    return Expect::Unspecified;
                }
                model::lyra2(*k, &pwd.render(), &salt.render(), *t, *r, *c)
            }
            Op::Sum { f, input } => model::sum(*f, &input.render()),
        }
    }
    /// (rows x columns) of the largest matrix the call asks for.
    pub fn cells(&self) -> u64 {
        match self {
            Op::Lyra { r, c, .. } => r.saturating_mul(*c),
            Op::Sum { f, .. } => [16, 64, 64, 16, 16][*f as usize],
        }
    }
    pub fn io_bytes(&self) -> u64 {
        match self {
            Op::Lyra { k, pwd, salt, .. } => k.saturating_add(pwd.len as u64).saturating_add(salt.len as u64),
            Op::Sum { input, .. } => input.len as u64 * 2 + 32,
        }
    }
    /// The same call but for the contents of its inputs.
    pub fn like(&self, o: &Op) -> bool {
        match (self, o) {
            (Op::Lyra { k, pwd, salt, t, r, c }, Op::Lyra { k: k2, pwd: p2, salt: s2, t: t2, r: r2, c: c2 }) => {
                k == k2 && pwd.len == p2.len && salt.len == s2.len && t == t2 && r == r2 && c == c2
            }
            (Op::Sum { f, input }, Op::Sum { f: f2, input: i2 }) => f == f2 && input.len == i2.len,
            _ => false,
        }
    }
    /// The work measure of property C09: (passes + 1) x rows x columns + bytes / 8.
    pub fn work(&self) -> u64 {
        let w = match self {
            Op::Lyra { t, r, .. } if *t < 1 || *r < 3 => 0,
            Op::Lyra { t, r, c, .. } => t.saturating_add(1).saturating_mul(*r).saturating_mul(*c),
            Op::Sum { f, .. } => [256, 800, 640, 256, 640][*f as usize],
        };
        w.saturating_add(self.io_bytes() / 8)
    }
    pub fn name(&self) -> String {
        match self {
            Op::Lyra { k, pwd, salt, t, r, c } => {
                format!("lyra2::lyra2(k={}, |pwd|={}, |salt|={}, passes={}, rows={}, cols={})", k, pwd.len, salt.len, t, r, c)
            }
            Op::Sum { f, input } => format!("{}::sum(|input|={})", SUM_NAMES[*f as usize], input.len),
        }
    }
    /// Large inputs need a matrix to match.
    pub fn make_room(&mut self) {
        if let Op::Lyra { pwd, salt, t, r, c, .. } = self {
            if *t > 0 && *r > 2 && *c > 0 && *r < 1 << 21 && *c < 1 << 21 {
                while !model::fits(pwd.len as usize, salt.len as usize, *r, *c) && *r * *c < 1 << 16 {
                    *c *= 2;
                }
            }
        }
    }
    pub fn parse(w: &[&str]) -> Option<Op> {
        let kv = |key: &str| w.iter().find_map(|x| x.strip_prefix(&format!("{}=", key)));
        let num = |key: &str| kv(key).and_then(|s| s.parse::<u64>().ok());
        Some(if w.contains(&"lyra") {
            Op::Lyra { k: num("k")?, pwd: Data::parse(kv("pwd")?)?, salt: Data::parse(kv("salt")?)?, t: num("t")?, r: num("r")?, c: num("c")? }
        } else {
            Op::Sum { f: num("f")? as u8, input: Data::parse(kv("in")?)? }
        })
    }
    pub fn text(&self) -> String {
        match self {
            Op::Lyra { k, pwd, salt, t, r, c } => {
                format!("lyra k={} t={} r={} c={} pwd={} salt={}", k, t, r, c, pwd.text(), salt.text())
            }
            Op::Sum { f, input } => format!("sum f={} in={}", f, input.text()),
        }
    }
}

/// Allocation failures injected into one call: allocations number >= first
/// and of at least min_size bytes fail, at most `count` of them; and any that
/// would take the call's live bytes over `budget` fails.
#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub first: u64,
    pub count: u64,
    pub min_size: u64,
    pub budget: u64,
}

/// Fires at the first of: own step, own allocation, or own access to memory
/// that other tasks can reach, counted from the start of the call.
#[derive(Clone, Debug, PartialEq)]
pub struct Trig {
    pub step: u64,
    pub alloc: u64,
    pub shared: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub op: Op,
    pub fault: Option<Fault>,
    pub stall: Option<(Trig, bool)>, // bool: for ever
    pub nest: Option<(Trig, Vec<Call>)>,
}

impl Call {
    /// Calls made by this one and those begun inside it.
    fn weight(&self) -> u64 {
        1 + self.nest.as_ref().map_or(0, |(_, v)| v.iter().map(|c| c.weight()).sum())
    }
    pub fn plain(op: Op) -> Call {
        Call { op, fault: None, stall: None, nest: None }
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct TaskPlan {
    /// Each inner list runs on a thread of its own, one after the other.
    pub incs: Vec<Vec<Call>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Knobs {
    pub fill: u8,   // fresh memory: 0 stale, 1 0xA5, 2 random, 3 zero
    pub scribble: bool, // overwrite freed memory
    pub reuse: bool, // recycle freed blocks (LIFO) or never
    pub moves: bool, // realloc always moves
    pub offset: u64, // first address of each arena
    pub stack_kib: u64,
    pub clock: u64, // base of the simulated clock, ns
    pub clock_jump: u64, // clock jumps per read, up to this many ns, both ways for wall time
    pub skew: bool, // blocks start anywhere their alignment allows; arguments have spare capacity
    pub spurious: bool, // blocked waits may wake for no reason
    pub vars: u8, // environment variables: 0 unset, 1 varying, else a fixed value
    pub cpus: u64, // processors the machine claims to have
    pub mangle: bool, // callers overwrite returned digests they are done with
    pub text: Vec<u8>, // if not empty: the value of every environment variable
    pub env: u64,   // seed of fills, clock and entropy
}

#[derive(Clone, Debug, PartialEq)]
pub struct Strat {
    pub kind: u8, // 0 run to completion, 1 random walk, 2 priorities (PCT), 3 round robin, 4 delays at shared accesses
    pub mean: u64, // mean steps between preemptions (kinds 1, 3); shared accesses per call (kind 4)
    pub depth: u64, // priority change points (kind 2), delays (kind 4)
    pub est: u64,  // estimated total steps (kind 2)
    pub p_alloc: u64, // preemption chance at allocations, per 1000
    pub p_shared: u64, // preemption chance at shared accesses, per 1000
    pub sticky: u64, // per 1000: at a preemption, go on with the most recently started task
}

#[derive(Clone, Debug, PartialEq)]
pub struct Switch {
    pub task: u32,
    pub step: u64,
    pub to: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub knobs: Knobs,
    pub strat: Strat,
    pub tasks: Vec<TaskPlan>,
    /// None: the strategy decides, from the seed. Some: replay exactly these.
    pub sched: Option<Vec<Switch>>,
}

/// Rough steps per work unit and per call, measured on the build at hand, to
/// place stalls and preemptions inside calls.
#[derive(Clone, Debug)]
pub struct Calib {
    pub per_cell: u64,
    pub sums: [u64; 5],
    /// shared accesses those calls made: the five, then the configurable one
    pub by_fn: [u64; 6],
    /// the most of them (0: the code shares nothing)
    pub shared: u64,
    /// what the survey of the code found
    pub survey: Survey,
}

/// Arguments that reach rarely executed code, and constants the code compares
/// something with.
#[derive(Clone, Debug, Default)]
pub struct Survey {
    /// what environment variables may be compared with
    pub texts: Vec<Vec<u8>>,
    pub sizes: Vec<u64>,
    pub words: Vec<u64>,
    pub hot: Vec<Hot>,
    /// per rarely executed block: calls (of `hot`) that reach it
    pub rare: Vec<Vec<usize>>,
    pub execs: u64,
    pub edges: u64,
}
#[derive(Clone, Debug)]
pub struct Hot {
    pub ops: Vec<Op>,
    pub text: Vec<u8>,
    pub steps: u64,
    pub shared: u64,
    pub tls: u64,
}

impl Survey {
    pub fn add_const(&mut self, v: u64) {
        let l = if v > 1 && v <= 1 << 21 { &mut self.sizes } else if v > 255 { &mut self.words } else { return };
        if l.len() < 400 && !l.contains(&v) {
            l.push(v);
        }
    }
    pub fn add_text(&mut self, t: &[u8]) {
        let ok = t.len() > 1 && t.len() < 80 && t.iter().all(|b| b.is_ascii_graphic());
        if ok && self.texts.len() < 100 && !self.texts.iter().any(|x| x == t) {
            self.texts.push(t.to_vec());
        }
    }
    pub fn text(&self) -> String {
        let mut s = format!("survey {} {}\n", self.execs, self.edges);
        for t in &self.texts {
            s += &format!("text {}\n", hex(t));
        }
        for v in self.sizes.iter().chain(&self.words) {
            s += &format!("const {}\n", v);
        }
        for h in &self.hot {
            s += &format!("hot {} {} {} {}\n", h.steps, h.shared, h.tls, hex(&h.text));
            for o in &h.ops {
                s += &format!("op {}\n", o.text());
            }
        }
        for e in &self.rare {
            s += "rare";
            for i in e {
                s += &format!(" {}", i);
            }
            s += "\n";
        }
        s
    }
    pub fn parse(text: &str) -> Option<Survey> {
        let mut s = Survey::default();
        for line in text.lines() {
            let w: Vec<&str> = line.split_whitespace().collect();
            let n = |i: usize| w.get(i).and_then(|x| x.parse::<u64>().ok());
            match *w.first()? {
                "survey" => (s.execs, s.edges) = (n(1)?, n(2)?),
                "const" => s.add_const(n(1)?),
                "hot" => s.hot.push(Hot { ops: vec![], text: unhex(w.get(4).unwrap_or(&""))?, steps: n(1)?, shared: n(2)?, tls: n(3)? }),
                "text" => s.add_text(&unhex(w.get(1)?)?),
                "op" => s.hot.last_mut()?.ops.push(Op::parse(&w)?),
                "rare" => s.rare.push((1..w.len()).filter_map(|i| n(i).map(|x| x as usize)).collect()),
                _ => return None,
            }
        }
        s.rare.retain(|e| !e.is_empty());
        if s.rare.iter().flatten().any(|i| *i >= s.hot.len()) { None } else { Some(s) }
    }
}

impl Calib {
    pub fn steps(&self, op: &Op) -> u64 {
        match op {
            Op::Lyra { t, r, c, .. } if *t >= 1 && *r >= 3 && *r <= 1 << 22 && *c <= 1 << 22 && *t < 1 << 22 => {
                200 + self.per_cell * model::lyra2_cols(*t, *r, *c)
            }
            Op::Lyra { .. } => 10,
            Op::Sum { f, .. } => self.sums[*f as usize],
        }
        .max(10)
    }
}

// ------------------------------------------------------------------ generation

pub const PROPS: [&str; 10] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10"];

const LENS: [u32; 44] = [
    0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 36, 39, 40, 47, 48, 49, 54, 55, 56, 57, 63, 64, 65, 71, 72, 79,
    80, 81, 95, 96, 97, 104, 111, 112, 119, 120, 127, 128, 129,
];
const KS: [u64; 26] = [
    0, 1, 2, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 47, 48, 49, 63, 64, 65, 95, 96, 97, 128, 191, 192, 193,
];

pub struct Gen<'a> {
    pub r: Rng,
    pub cal: &'a Calib,
    hist: Vec<Op>,
    /// chance (per 100) that an operation is derived from an earlier one
    related: u64,
    /// 0 tiny, 1 small, 2 medium, 3 large
    size: u64,
    /// per 100: one-argument functions instead of the configurable one
    sums: u64,
    /// one-argument functions this run uses
    fmask: Vec<u8>,
    /// per 100: an operation derived from an earlier one repeats it
    exact: u64,
    /// per 100: an argument takes a value the code compares something with
    spice: u64,
    /// shared accesses per call to expect
    shared: u64,
    /// environment variables' value to use
    pub text: Vec<u8>,
}

impl<'a> Gen<'a> {
    pub fn new(seed: u64, cal: &'a Calib) -> Self {
        let mut r = Rng::new(seed, 1);
        let related = *r.pick(&[0, 20, 50, 80]);
        let size = *r.pick(&[0, 0, 0, 1, 1, 1, 1, 2]);
        let sums = *r.pick(&[0, 30, 50, 70, 100]);
        let mut fmask = vec![];
        if r.chance(1, 3) {
            fmask.push(r.below(5) as u8);
        } else {
            for f in 0..5 {
                if r.chance(2, 3) {
                    fmask.push(f);
                }
            }
            if fmask.is_empty() {
                fmask = vec![0, 1, 2, 3, 4];
            }
        }
        let spice = if cal.survey.sizes.is_empty() { 0 } else { *r.pick(&[0, 0, 0, 5, 25]) };
        Gen { r, cal, hist: vec![], related, size, sums, fmask, exact: 0, spice, shared: cal.shared, text: vec![] }
    }

    fn data(&mut self, max: u32) -> Data {
        let r = &mut self.r;
        let mut len = match r.below(10) {
            0..=4 => *r.pick(&LENS),
            5 | 6 => r.below(300) as u32,
            7 => r.below(2000) as u32,
            8 => r.logu(max.max(1) as u64) as u32,
            _ => 80,
        };
        if len > max {
            len = r.below(max as u64 + 1) as u32;
        }
        let kind = *r.pick(&[0, 0, 0, 0, 0, 0, 1, 2]);
        let seed = if kind == 1 { *r.pick(&[0, 0, 255, 0x80, 1]) } else { r.u64() >> 20 };
        Data { kind, seed, len, edits: vec![] }
    }

    fn dims(&mut self) -> (u64, u64, u64) {
        let r = &mut self.r;
        match self.size {
            0 => (r.range(1, 2), r.range(3, 5), r.range(1, 4)),
            1 => {
                let t = if r.chance(1, 8) { r.range(1, 8) } else { r.range(1, 3) };
                let rows = match r.below(4) {
                    0 => *r.pick(&[4, 8, 16]),
                    1 => r.range(3, 24),
                    _ => r.range(3, 9),
                };
                (t, rows, r.range(1, 12))
            }
            2 => {
                let rows = match r.below(4) {
                    0 => *r.pick(&[8, 16, 32, 64]),
                    _ => r.range(3, 70),
                };
                (r.range(1, 4), rows, r.range(1, 40))
            }
            4 => (r.range(1, 4), r.range(3, 1100), r.range(1, 2)),
            _ => match r.below(5) {
                0 => (1, r.range(100, 600), r.range(1, 40)),
                1 => (1, r.range(3, 16), r.range(100, 1500)),
                2 => (r.range(50, 800), r.range(3, 9), r.range(1, 4)),
                3 => (1, *r.pick(&[128, 256, 512]), r.range(8, 64)),
                _ => (r.range(2, 6), r.range(20, 80), r.range(20, 80)),
            },
        }
    }

    fn k(&mut self) -> u64 {
        let r = &mut self.r;
        match r.below(10) {
            0..=3 => 32,
            4..=7 => *r.pick(&KS),
            8 => r.below(300),
            _ => r.logu(2000),
        }
    }

    /// A fresh operation inside the documented domain.
    fn fresh(&mut self) -> Op {
        if self.r.below(100) < self.sums {
            let f = { let m = self.fmask.clone(); *self.r.pick(&m) };
            let max = if f == 0 { 743 } else if self.r.chance(1, 60) { 70000 } else { 1200 };
            let input = if self.r.chance(1, 4) { Data { kind: 0, seed: self.r.u64() >> 20, len: 80, edits: vec![] } } else { self.data(max) };
            return Op::Sum { f, input };
        }
        let (t, r, c) = self.dims();
        let room = (r * c * 12 / 8 * 64).saturating_sub(49 + 0) as u32; // padded input must fit
        let room = room.min(if self.r.chance(1, 30) { 20000 } else { 700 });
        let pwd = self.data(room);
        let salt = if self.r.chance(1, 4) && pwd.len <= room / 2 { pwd.clone() } else { self.data(room - pwd.len) };
        let op = Op::Lyra { k: self.k(), pwd, salt, t, r, c };
        if op_valid(&op) {
            op
        } else {
            Op::Lyra { k: 32, pwd: self.data(0), salt: self.data(0), t, r, c: c.max(2) }
        }
    }

    fn edit_data(&mut self, d: &Data, max: u32) -> Data {
        let r = &mut self.r;
        let mut d = d.clone();
        match r.below(8) {
            0..=3 if d.len > 0 => {
                // change one byte: anywhere, at the ends, or at a word or block edge
                let p = match r.below(5) {
                    0 => 0,
                    1 => d.len - 1,
                    2 => (r.below(d.len as u64 / 8 + 1) * 8).min(d.len as u64 - 1) as u32,
                    _ => r.below(d.len as u64) as u32,
                };
                let b = if r.chance(1, 4) { 0 } else { r.below(256) as u8 };
                d.edits.push(Edit::Set(p, b));
            }
            4 | 5 if d.len > 1 => {
                let a = r.below(d.len as u64) as u32;
                let b = if r.chance(1, 2) { r.below(d.len as u64) as u32 } else { (a + 8) % d.len };
                d.edits.push(Edit::Swap(a, b));
            }
            6 => {
                let n = r.range(1, 8) as u32;
                d.len = if r.chance(1, 2) { d.len.saturating_sub(n) } else { d.len + n };
            }
            _ => d.seed ^= 1 + r.below(3),
        }
        d.len = d.len.min(max);
        d
    }

    /// An operation that differs from an earlier one in one respect.
    fn derived(&mut self, base: &Op) -> Op {
        if self.r.below(100) < self.exact {
            return base.clone();
        }
        let op = match base.clone() {
            Op::Sum { f, input } => match self.r.below(6) {
                0 => Op::Sum { f, input },
                1 => { let m = self.fmask.clone(); Op::Sum { f: *self.r.pick(&m), input } }
                2 => { let k = 32; let (t, r, c) = (1, 4, 4); let salt = input.clone(); Op::Lyra { k, pwd: input, salt, t, r, c } }
                _ => { let i = self.edit_data(&input, 743.max(input.len)); Op::Sum { f, input: i } }
            },
            Op::Lyra { k, pwd, salt, t, r, c } => match self.r.below(10) {
                0 => base.clone(),
                1 => Op::Lyra { k: self.k(), pwd, salt, t, r, c },
                2 => Op::Lyra { k, pwd: salt, salt: pwd, t, r, c },
                3 => Op::Lyra { k, pwd, salt, t: if self.r.chance(1, 2) { t + 1 } else { t.max(2) - 1 }, r, c },
                4 => Op::Lyra { k, pwd, salt, t, r: if self.r.chance(1, 2) { r + 1 } else { r.max(4) - 1 }, c },
                5 => Op::Lyra { k, pwd, salt, t, r, c: if self.r.chance(1, 2) { c + 1 } else { c.max(2) - 1 } },
                6 => Op::Lyra { k, pwd, salt, t, r: c.max(3), c: r },
                7 | 8 => { let p = self.edit_data(&pwd, pwd.len + 8); Op::Lyra { k, pwd: p, salt, t, r, c } }
                _ => { let s = self.edit_data(&salt, salt.len + 8); Op::Lyra { k, pwd, salt: s, t, r, c } }
            },
        };
        if op_valid(&op) { op } else { base.clone() }
    }

    pub fn valid(&mut self) -> Op {
        if self.size == 3 && self.r.chance(1, 4) {
            return self.huge();
        }
        let op = if !self.hist.is_empty() && self.r.below(100) < self.related {
            let i = self.r.below(self.hist.len() as u64) as usize;
            let b = self.hist[i].clone();
            self.derived(&b)
        } else {
            self.fresh()
        };
        let op = if self.r.below(100) < self.spice { self.spiced(op) } else { op };
        if self.hist.len() < 24 {
            self.hist.push(op.clone());
        } else if self.r.chance(1, 3) {
            let i = self.r.below(24) as usize;
            self.hist[i] = op.clone();
        }
        op
    }

    /// Put a value the code compares something with into one argument.
    pub fn spiced(&mut self, op: Op) -> Op {
        let sv = &self.cal.survey;
        let r = &mut self.r;
        if sv.sizes.is_empty() {
            return op;
        }
        let near = |r: &mut Rng| {
            // small ones are mostly the ends of loops
            let large: Vec<u64> = sv.sizes.iter().copied().filter(|v| *v > 128).collect();
            let from = if large.is_empty() || r.chance(1, 2) { &sv.sizes } else { &large };
            let v = *r.pick(from);
            match r.below(8) {
                0 => v - 1,
                1 => v + 1,
                // a remainder or a quotient may have been compared
                2 | 3 => v + (1 << r.range(3, 7)) * r.below(32),
                4 => v << r.below(8),
                _ => v,
            }
        };
        let mark = |r: &mut Rng, d: &Data| {
            let mut d = d.clone();
            if d.len == 0 {
                return d;
            }
            let n = d.len as u64;
            let at = match r.below(6) { 0 => 0, 1 => n - 1, 2 => r.below(n / 8 + 1) * 8, 3 => r.below(n.min(4)), 4 => r.below(n.min(16)), _ => r.below(n) } as u32;
            {
                let from = if sv.words.is_empty() || r.chance(1, 2) { &sv.sizes } else { &sv.words };
                let w = *r.pick(from);
                let len = if w >> 8 == 0 { 1 } else if w >> 16 == 0 { 2 } else if w >> 32 == 0 { 4 } else { 8 };
                let mut b = w.to_le_bytes()[..len].to_vec();
                if r.chance(1, 2) {
                    b.reverse();
                }
                for (i, x) in b.iter().enumerate() {
                    d.edits.push(Edit::Set(at + i as u32, *x));
                }
            }
            d
        };
        let mut new = op.clone();
        match &mut new {
            Op::Sum { input, .. } => match r.below(3) {
                0 => *input = mark(r, input),
                _ => input.len = near(r).min(100_000) as u32,
            },
            Op::Lyra { k, pwd, salt, t, r: rows, c } => match r.below(12) {
                0 => *k = near(r),
                1 => *t = near(r),
                2 => *rows = near(r),
                3 => *c = near(r),
                4 => pwd.len = near(r).min(500_000) as u32,
                5 => salt.len = near(r).min(500_000) as u32,
                6 => salt.len = (near(r).min(500_000) as u32).saturating_sub(pwd.len),
                7 => *pwd = mark(r, pwd),
                8 => *salt = mark(r, salt),
                _ => {
                    // rows x columns, in cells, words or bytes, near the value
                    let v = near(r) / *r.pick(&[1, 1, 12, 96]);
                    if r.chance(1, 2) {
                        *c = (v / (*rows).max(1)).max(1) + r.below(2);
                    } else {
                        *rows = (v / (*c).max(1)).max(3) + r.below(2);
                    }
                }
            },
        }
        new.make_room();
        if op_valid(&new) && self.cal.steps(&new) < 12_000_000 { new } else { op }
    }

    /// One argument anywhere in a wide range.
    pub fn roam(&mut self, op: Op) -> Op {
        let r = &mut self.r;
        let mut new = op.clone();
        match &mut new {
            Op::Sum { input, .. } => input.len = r.below(3000) as u32,
            Op::Lyra { k, pwd, salt, t, r: rows, c } => match r.below(6) {
                0 => *k = r.below(3000),
                1 => *t = r.range(1, 100),
                2 => *rows = r.range(3, 600),
                3 => *c = r.range(1, 600),
                4 => pwd.len = r.below(3000) as u32,
                _ => salt.len = r.below(3000) as u32,
            },
        }
        new.make_room();
        if op_valid(&new) && self.cal.steps(&new) < 2_000_000 { new } else { op }
    }

    /// Start from calls that reach a rarely executed block. Returns the steps
    /// one of them takes.
    pub fn set_size(&mut self, n: u64) {
        self.size = n;
    }
    pub fn set_spice(&mut self, n: u64) {
        self.spice = if self.cal.survey.sizes.is_empty() { 0 } else { n };
    }
    pub fn adopt(&mut self, stateful: bool) -> Option<u64> {
        let sv = &self.cal.survey;
        let mut got = None;
        for _ in 0..12 {
            if sv.rare.is_empty() {
                return None;
            }
            let e = self.r.pick(&sv.rare);
            let h = &sv.hot[*self.r.pick(e)];
            if stateful && h.shared + h.tls == 0 {
                continue;
            }
            if self.r.below(1_000_000) < 1_000_000 * 1_500_000 / h.steps.max(1) {
                got = Some(h);
                break;
            }
        }
        let h = got?;
        self.hist = h.ops.clone();
        self.text = h.text.clone();
        self.related = *self.r.pick(&[60, 90, 100]);
        self.exact = *self.r.pick(&[0, 30, 60]);
        self.size = 0;
        self.shared = self.shared.max(h.shared.min(5_000));
        Some(h.steps)
    }
    /// A count (of calls, say) the code may be watching for: near a constant in it.
    fn count(&mut self, lo: u64, hi: u64) -> Option<u64> {
        let v: Vec<u64> = self.cal.survey.sizes.iter().copied().filter(|v| *v >= lo && *v <= hi).collect();
        if v.is_empty() {
            return None;
        }
        let x = *self.r.pick(&v);
        if self.r.below(x) < 1000 { Some(x + self.r.below(x / 4 + 3)) } else { None }
    }

    /// A call documented as refused.
    fn refused(&mut self) -> Op {
        let mut op = loop {
            if let o @ Op::Lyra { .. } = self.fresh_lyra() { break o; }
        };
        if let Op::Lyra { t, r, k, .. } = &mut op {
            match self.r.below(4) {
                0 => *t = 0,
                1 => *r = self.r.below(3),
                2 => { *t = 0; *r = self.r.below(3); }
                _ => { *r = self.r.below(3); *k = 0; }
            }
        }
        op
    }
    fn fresh_lyra(&mut self) -> Op {
        let s = self.sums;
        self.sums = 0;
        let o = self.fresh();
        self.sums = s;
        o
    }

    /// A call outside the documented domain that ends in a panic today.
    fn misuse(&mut self) -> Op {
        let mut op = self.fresh_lyra();
        if let Op::Lyra { k, pwd, salt, c, .. } = &mut op {
            match self.r.below(24) {
                0 => *k = 1 << self.r.range(42, 62),
                x if x % 4 == 0 => *c = 0,
                x if x % 4 == 1 => pwd.len = 4000 + self.r.below(4000) as u32,
                x if x % 4 == 2 => salt.len = 30000,
                _ => { *c = 1; salt.len = 200 + self.r.below(100) as u32; pwd.len = 100 + self.r.below(200) as u32 }
            }
        }
        if self.r.chance(1, 4) {
            op = Op::Sum { f: 0, input: Data { kind: 0, seed: self.r.u64() >> 20, len: 744 + self.r.below(3000) as u32, edits: vec![] } };
        }
        op
    }

    fn alloc_fault(&mut self) -> Fault {
        let r = &mut self.r;
        let mut f = Fault { first: 0, count: u64::MAX, min_size: 0, budget: u64::MAX };
        match r.below(8) {
            0..=2 => {
                f.first = match r.below(4) { 0 => r.below(12), 1 => r.logu(600), _ => r.below(40) };
                f.count = *r.pick(&[1, 1, 1, 2, 3]);
            }
            3 => f.first = r.below(40),
            4 => { f.min_size = *r.pick(&[32, 33, 64, 96, 97, 128, 200, 256, 512, 1000, 1500, 1536, 2000, 4096, 8192, 65536]); }
            5 if self.spice > 0 && r.chance(1, 2) => { f.min_size = *r.pick(&self.cal.survey.sizes); f.count = *r.pick(&[1, 2, u64::MAX]); }
            5 => { f.min_size = r.logu(20000); f.count = *r.pick(&[1, 2, u64::MAX]); f.first = r.below(4); }
            6 => f.first = r.below(8),
            _ => f.budget = r.logu(40000),
        }
        f
    }

    fn trig(&mut self, op: &Op) -> Trig {
        let est = self.cal.steps(op);
        let r = &mut self.r;
        let mut t = Trig { step: u64::MAX, alloc: u64::MAX, shared: u64::MAX };
        match r.below(4) {
            0 => t.alloc = 1 + r.below(30),
            1 => t.step = r.logu(est),
            _ => t.step = 1 + r.below(est),
        }
        if self.shared > 0 && r.chance(1, 2) {
            t = Trig { step: u64::MAX, alloc: u64::MAX, shared: 1 + r.below(self.shared + 2) };
            if r.chance(1, 2) {
                t.shared = r.logu(self.shared + 2);
            }
        } else if r.chance(1, 2) {
            t.shared = r.logu(60);
        }
        t
    }
}

pub fn op_valid(op: &Op) -> bool {
    match op {
        Op::Lyra { k, pwd, salt, t, r, c } => {
            *t >= 1 && *r >= 3 && *c >= 1 && *r <= 1 << 20 && *c <= 1 << 20 && r * c <= 1 << 20 && *t <= 1 << 16 && *k <= 1 << 20
                && model::fits(pwd.len as usize, salt.len as usize, *r, *c)
        }
        Op::Sum { f: 0, input } => model::fits(input.len as usize, input.len as usize, 4, 4),
        _ => true,
    }
}

fn knobs(seed: u64, hostile: bool) -> Knobs {
    let mut r = Rng::new(seed, 3);
    let k = if hostile {
        Knobs {
            fill: r.below(4) as u8,
            scribble: r.chance(2, 3),
            reuse: r.chance(2, 3),
            moves: r.chance(1, 2),
            offset: r.below(4096) * 16,
            stack_kib: *r.pick(&[512, 1024, 2048, 8192]),
            clock: r.u64() >> r.range(1, 40),
            clock_jump: if r.chance(1, 2) { r.logu(1 << 50) } else { 0 },
            skew: r.chance(1, 2),
            spurious: r.chance(1, 2),
            vars: if r.chance(1, 9) { 0 } else { r.below(25) as u8 },
            cpus: if r.chance(1, 2) { *r.pick(&[1, 2, 3, 8, 64]) } else { r.range(1, 160) },
            mangle: r.chance(1, 2),
            text: vec![],
            env: r.u64(),
        }
    } else {
        Knobs {
            fill: if r.chance(1, 2) { 0 } else { 1 },
            scribble: r.chance(1, 4),
            reuse: true,
            moves: r.chance(1, 4),
            offset: 0,
            stack_kib: 2048,
            clock: 1_700_000_000_000_000_000,
            clock_jump: 0,
            skew: r.chance(1, 4),
            spurious: false,
            vars: 0,
            cpus: 4,
            mangle: r.chance(1, 4),
            text: vec![],
            env: r.u64(),
        }
    };
    k
}

fn strat(r: &mut Rng, est: u64, tasks: u64, shared: u64) -> Strat {
    let kind = if tasks < 2 { 0 } else if shared > 0 && r.chance(1, 2) { 4 } else { *r.pick(&[0, 1, 1, 1, 2, 2, 2, 3]) };
    // aim for a handful to a few hundred preemptions per run
    let want = *r.pick(&[1, 3, 10, 30, 100, 300]);
    if kind == 4 {
        return Strat {
            kind,
            mean: shared.max(4),
            depth: *r.pick(&[1, 2, 3, 4, 5, 6, 8, 12, 30]),
            est: est.max(10),
            p_alloc: 0,
            p_shared: *r.pick(&[0, 0, 0, 2, 20]),
            sticky: 0,
        };
    }
    Strat {
        kind,
        mean: (est / want).max(3),
        depth: *r.pick(&[1, 1, 2, 2, 3, 5, 10]),
        est: est.max(10),
        p_alloc: *r.pick(&[0, 0, 0, 10, 100, 500]),
        p_shared: *r.pick(&[0, 5, 30, 200, 500]),
        sticky: *r.pick(&[0, 0, 0, 800]),
    }
}

/// Build the plan of one run from its seed. `big` runs explore long
/// histories or large arguments and are scheduled more rarely.
pub fn generate(prop: &str, seed: u64, index: u64, cal: &Calib) -> Plan {
    let mut g = Gen::new(seed, cal);
    let big = index % 97 == 13;
    let crowd = index % 61 == 7;
    let long = index % 251 == 57; // some callers make very many calls
    let mut kn = knobs(seed, prop == "C08" || (prop != "C07" && index % 5 == 0));
    let mut tasks: Vec<TaskPlan> = vec![];
    let ntasks;
    let mut hot = None;
    if !cal.survey.rare.is_empty() && !big && !crowd && !long && g.r.chance(1, 4) {
        let st = cal.survey.hot.iter().any(|h| h.shared + h.tls > 0) && g.r.chance(2, 3);
        hot = g.adopt(st);
    }
    kn.text = g.text.clone();
    if kn.cpus != 4 && !cal.survey.sizes.is_empty() && kn.cpus % 4 == 1 {
        kn.cpus = *g.r.pick(&cal.survey.sizes).min(&1024);
    }
    if prop == "C08" && !cal.survey.texts.is_empty() && kn.vars % 4 == 2 {
        kn.text = g.r.pick(&cal.survey.texts).clone();
    }
    match prop {
        "C09" if creeping(index).is_some() => {
            // One caller makes very many cheap calls and returns now and then
            // to the one it began with.
            ntasks = 1;
            let (f, n) = creeping(index).unwrap();
            g.size = 0;
            g.related = 30;
            if f < 5 {
                g.sums = 100;
                g.fmask = vec![f];
            } else {
                g.sums = 0;
            }
            let tiny = |g: &mut Gen| match g.valid() {
                Op::Lyra { pwd, salt, .. } if pwd.len < 300 && salt.len < 300 => {
                    let mut op = Op::Lyra { k: 8, pwd, salt, t: 1, r: 4, c: 1 };
                    op.make_room();
                    op
                }
                Op::Lyra { .. } => Op::Lyra { k: 8, pwd: Data { kind: 0, seed: g.r.u64() >> 20, len: 16, edits: vec![] }, salt: Data { kind: 0, seed: 1, len: 8, edits: vec![] }, t: 1, r: 4, c: 1 },
                op => op,
            };
            let probe = tiny(&mut g);
            let fresh = (16..22).contains(&index) || g.r.chance(1, 2);
            let probe = |g: &mut Gen| {
                let mut op = probe.clone();
                match &mut op {
                    Op::Lyra { pwd: d, .. } | Op::Sum { input: d, .. } if fresh => *d = Data { kind: 0, seed: g.r.u64() >> 20, len: d.len.max(16), edits: vec![] },
                    _ => {}
                }
                op
            };
            let mut calls = vec![];
            for i in 0..n {
                let op = if i < 3 || i + 3 >= n || g.r.chance(1, 400) {
                    probe(&mut g)
                } else if f == 5 && g.r.chance(1, 3) {
                    g.refused()
                } else {
                    tiny(&mut g)
                };
                calls.push(Call::plain(op));
            }
            tasks.push(TaskPlan { incs: vec![calls] });
            kn.reuse = true;
        }
        "C01" | "C02" | "C09" | "C10" => {
            ntasks = if crowd {
                g.size = 0;
                if index % 122 == 7 { g.r.range(9, 40) } else { g.r.range(40, 140) }
            } else if prop == "C10" {
                *g.r.pick(&[1, 1, 1, 1, 2, 3])
            } else if prop == "C09" {
                *g.r.pick(&[1, 1, 2, 3, 5])
            } else {
                *g.r.pick(&[2, 2, 2, 2, 3, 3, 4, 5, 6, 8])
            };
            let mut ntasks_ = ntasks;
            if cal.shared > 0 && hot.is_none() && !crowd && !big && !long && g.r.chance(1, 2) {
                // keep to the functions that share something, in small calls
                let hot: Vec<u8> = (0..6).filter(|f| cal.by_fn[*f as usize] > 0).collect();
                let hot = if g.r.chance(1, 2) { vec![*g.r.pick(&hot)] } else { hot };
                g.sums = if hot.contains(&5) { if hot.len() == 1 { 0 } else { 50 } } else { 100 };
                if hot[0] < 5 {
                    g.fmask = hot.into_iter().filter(|f| *f < 5).collect();
                }
                g.size = 0;
                g.related = *g.r.pick(&[0, 30, 80]);
                if prop == "C01" || prop == "C02" {
                    ntasks_ = *g.r.pick(&[2, 3, 3, 4, 4, 5, 6, 8]);
                }
            }
            let ntasks = ntasks_;
            if big {
                g.size = 3;
            }
            let abyss = prop == "C10" && index % 331 == 40;
            if long {
                g.size = 0;
                g.related = 80;
            } else if abyss && !big {
                g.size = 0;
            }
            if prop == "C09" && !long && hot.is_none() && g.r.chance(1, 4) {
                g.size = *g.r.pick(&[2, 2, 3, 4, 4]);
            }
            let same = g.r.chance(1, 5); // everyone makes the same calls
            let mut first: Option<Vec<Call>> = None;
            for _ in 0..ntasks {
                let n = if long && g.r.chance(1, 2) { let n = *g.r.pick(&[100, 300, 1200]); let c = if g.r.chance(1, 3) { g.count(50, 2000) } else { None }; c.unwrap_or(n) } else if crowd { g.r.range(1, 2) } else if big { 1 } else { *g.r.pick(&[1, 1, 1, 2, 2, 3, 5]) };
                let mut calls: Vec<Call> = vec![];
                for _ in 0..n {
                    let op = if prop == "C09" && g.r.chance(1, 12) {
                        g.refused()
                    } else if prop == "C09" && g.size == 3 && g.r.chance(1, 3) {
                        g.huge()
                    } else {
                        g.valid()
                    };
                    calls.push(Call::plain(op));
                }
                if same {
                    match &first {
                        None => first = Some(calls.clone()),
                        Some(f) => calls = f.clone(),
                    }
                }
                let mut incs = vec![];
                if calls.len() > 1 && g.r.chance(1, 5) {
                    let at = g.r.range(1, calls.len() as u64 - 1) as usize;
                    let tail = calls.split_off(at);
                    incs.push(calls);
                    incs.push(tail);
                } else {
                    incs.push(calls);
                }
                tasks.push(TaskPlan { incs });
            }
            if prop == "C02" {
                let victims = if g.r.chance(1, 4) { ntasks - 1 } else { g.r.range(1, ntasks - 1) };
                for v in 0..victims as usize {
                    let i = g.r.below(tasks[v].incs.len() as u64) as usize;
                    let j = g.r.below(tasks[v].incs[i].len() as u64) as usize;
                    let op = tasks[v].incs[i][j].op.clone();
                    let t = g.trig(&op);
                    let forever = g.r.chance(1, 2);
                    tasks[v].incs[i][j].stall = Some((t, forever));
                }
                // start order must not favour the victims
                let n = tasks.len();
                for i in (1..n).rev() {
                    let j = g.r.below(i as u64 + 1) as usize;
                    tasks.swap(i, j);
                }
            }
            if prop == "C10" {
                let abyss = abyss && !big && !long;
                for t in tasks.iter_mut() {
                    for inc in t.incs.iter_mut() {
                        for c in inc.iter_mut() {
                            if if long { g.r.chance(1, 30) } else { abyss || g.r.chance(4, 5) } {
                                let chain = if abyss || (g.size == 0 && !long && g.r.chance(1, 16)) { if abyss || g.r.chance(1, 3) { kn.stack_kib = kn.stack_kib.max(2048); 34 } else { 10 } } else { 0 };
                                add_nest(&mut g, c, 1, chain);
                            }
                        }
                    }
                }
            }
        }
        "C03" => {
            ntasks = *g.r.pick(&[1, 1, 1, 2, 3]);
            let mut churn = false;
            let single = |g: &mut Gen, f: u8, n: u64| {
                g.size = 0;
                g.fmask = vec![f];
                g.sums = 100;
                g.related = 80;
                n
            };
            // Very long histories first, so that they do not end the batch.
            let total = match index {
                16 | 1016 => {
                    g.size = 0;
                    g.related = 80;
                    g.sums = 0;
                    70_000
                }
                17 => single(&mut g, 0, 70_000),
                18 => single(&mut g, 2, 70_000),
                19 => single(&mut g, 3, 70_000),
                20 => single(&mut g, 4, 70_000),
                21 => single(&mut g, 1, 12_000),
                200_022 => single(&mut g, 1, 70_000),
                _ if index % 9_973 == 500 => {
                    g.size = 0;
                    g.related = 80;
                    70_000
                }
                _ if index % 1_999 == 100 => {
                    let f = g.r.below(5) as u8;
                    single(&mut g, f, 3_000)
                }
                _ if index % 211 == 30 => {
                    g.size = 0;
                    churn = true;
                    400
                }
                _ if index % 499 == 13 => {
                    g.size = 0;
                    2_500
                }
                _ if index % 41 == 5 => {
                    g.size = *g.r.pick(&[2, 3]);
                    12
                }
                _ => {
                    let n = *g.r.pick(&[2, 4, 8, 16, 40, 100]);
                    let c = if g.r.chance(1, 12) { g.count(100, 70_000) } else { None };
                    if c.is_some() && hot.is_none() {
                        g.size = 0;
                    }
                    c.unwrap_or(n)
                }
            };
            // a few histories keep to a small pool of arguments, as caches like
            let pool: Vec<Op> = (0..g.r.range(2, 40)).map(|_| g.valid()).collect();
            let pooled = g.r.chance(1, 2) || total >= 12_000;
            for _ in 0..ntasks {
                let n = (total / ntasks).max(1);
                let mut incs = vec![vec![]];
                for _ in 0..n {
                    let op = if pooled && g.r.chance(9, 10) { g.r.pick(&pool).clone() } else { g.valid() };
                    incs.last_mut().unwrap().push(Call::plain(op));
                    if (g.r.chance(1, 40) && incs.len() < 30) || (churn && g.r.chance(9, 10)) {
                        incs.push(vec![]);
                    }
                }
                incs.retain(|i| !i.is_empty());
                tasks.push(TaskPlan { incs });
            }
            kn.mangle = g.r.chance(1, 2);
            kn.reuse |= total > 200;
        }
        "C04" | "C06" => {
            ntasks = *g.r.pick(&[1, 1, 1, 2, 3]);
            let vast = big && !long && g.r.chance(1, 2);
            if long {
                g.size = 0;
                g.related = 80;
            } else if big {
                g.size = if vast { 3 } else { 2 };
            }
            for _ in 0..ntasks {
                let n = if vast { g.r.range(1, 2) } else if long { many(&mut g) } else { g.r.range(1, 6) };
                let mut calls = vec![];
                for _ in 0..n {
                    let x = g.r.below(100);
                    let op = if prop == "C06" && x < 10 {
                        g.refused()
                    } else if prop == "C06" && x < 18 {
                        g.misuse()
                    } else {
                        g.valid()
                    };
                    let mut c = Call::plain(op);
                    if g.r.chance(if prop == "C04" { 5 } else { 3 }, 6) {
                        c.fault = Some(g.alloc_fault());
                    }
                    calls.push(c);
                }
                tasks.push(TaskPlan { incs: vec![calls] });
            }
        }
        "C05" => {
            ntasks = *g.r.pick(&[1, 1, 2, 2, 3, 4]);
            let many = index % 53 == 11;
            let host = index == 64 || index % 100_003 == 64; // more than sixteen bits can count
            let many = many || host;
            let swarm = host || index % 477 == 11; // thousands of refusals
            if many {
                g.size = 0;
            }
            if big && !many {
                g.size = *g.r.pick(&[2, 2, 3]);
            }
            let style = if swarm { 0 } else { g.r.below(4) };
            for _ in 0..ntasks {
                let n = if swarm { (if host { 160_000 } else { 3000 }) / ntasks } else if big && g.size == 3 { g.r.range(1, 2) } else if many { let c = if g.r.chance(1, 3) { g.count(100, 3000) } else { None }; c.unwrap_or(300) / ntasks } else { g.r.range(1, 7) };
                let mut incs = vec![vec![]];
                for _ in 0..n {
                    let bad = g.r.chance(if many { 9 } else { 6 }, 10);
                    let mut c;
                    if bad {
                        let x = if style == 3 { g.r.below(3) } else { style };
                        c = match x {
                            0 => Call::plain(g.refused()),
                            1 => Call::plain(g.misuse()),
                            _ => {
                                let mut c = Call::plain(g.valid());
                                c.fault = Some(g.alloc_fault());
                                c
                            }
                        };
                        if x < 2 && g.r.chance(1, 10) {
                            c.fault = Some(g.alloc_fault());
                        }
                    } else {
                        c = Call::plain(g.valid());
                    }
                    incs.last_mut().unwrap().push(c);
                    if g.r.chance(1, 12) && incs.len() < 10 {
                        incs.push(vec![]);
                    }
                }
                // every caller ends with calls that must succeed
                for _ in 0..g.r.range(1, 3) {
                    let op = g.valid();
                    incs.last_mut().unwrap().push(Call::plain(op));
                }
                tasks.push(TaskPlan { incs });
            }
        }
        "C07" => {
            ntasks = *g.r.pick(&[1, 1, 1, 2, 4]);
            g.size = if long { 0 } else if index % 41 == 5 { 3 } else { *g.r.pick(&[0, 1, 1, 2, 2]) };
            for _ in 0..ntasks {
                let n = if g.size == 3 { 1 } else if long { many(&mut g) } else { g.r.range(1, 4) };
                let mut calls = vec![];
                for _ in 0..n {
                    let op = if g.size == 3 && g.r.chance(1, 2) { g.huge() } else { g.valid() };
                    let mut c = Call::plain(op);
                    c.fault = Some(Fault { first: u64::MAX, count: u64::MAX, min_size: 0, budget: budget(&c.op) });
                    calls.push(c);
                }
                tasks.push(TaskPlan { incs: vec![calls] });
            }
            kn.stack_kib = STACK_KIB;
        }
        _ => {
            // C08
            ntasks = *g.r.pick(&[1, 1, 1, 2, 3]);
            if long {
                g.size = 0;
            } else if big {
                g.size = 3;
            }
            for _ in 0..ntasks {
                let n = if long { many(&mut g) } else if big { 1 } else { *g.r.pick(&[1, 2, 3, 4, 8, 20]) };
                let mut incs = vec![vec![]];
                for _ in 0..n {
                    let op = g.valid();
                    incs.last_mut().unwrap().push(Call::plain(op));
                    if g.r.chance(1, 4) && incs.len() < 10 {
                        incs.push(vec![]);
                    }
                }
                incs.retain(|i| !i.is_empty());
                tasks.push(TaskPlan { incs });
            }
        }
    }
    if hot.is_some() {
        // some of these calls are long: keep the run affordable
        let mut left = 40_000_000u64;
        for t in tasks.iter_mut() {
            for i in t.incs.iter_mut() {
                i.retain(|c| {
                    let n = cal.steps(&c.op).max(hot.unwrap() / 2) * c.weight();
                    let ok = left >= n || left == 40_000_000;
                    left = left.saturating_sub(n);
                    ok
                });
            }
            if t.incs.iter().any(|i| !i.is_empty()) {
                t.incs.retain(|i| !i.is_empty());
            }
        }
        let some = tasks.iter().any(|t| t.incs.iter().any(|i| !i.is_empty()));
        if some {
            tasks.retain(|t| t.incs.iter().any(|i| !i.is_empty()));
        }
    }
    let mut est = 0;
    for t in &tasks {
        for i in &t.incs {
            for c in i {
                est += cal.steps(&c.op);
            }
        }
    }
    let mut st = strat(&mut g.r, est, ntasks, g.shared);
    if est > 3_000_000 && (prop == "C03" || (prop == "C09" && creeping(index).is_some())) {
        st.mean = st.mean.max(20_000);
        st.p_alloc = st.p_alloc.min(10);
    }
    Plan { prop: prop.into(), seed, knobs: kn, strat: st, tasks, sched: None }
}

/// Which runs of C09 look for work that grows with the history: the function
/// (5: the configurable one, refusals included) and the number of calls.
fn creeping(index: u64) -> Option<(u8, u64)> {
    match index {
        16 => Some((5, 60_000)),
        17 => Some((0, 60_000)),
        18 => Some((2, 60_000)),
        19 => Some((3, 60_000)),
        20 => Some((4, 60_000)),
        21 => Some((1, 30_000)),
        _ if index >= 30_000 && index % 49_999 < 6 => Some((if index % 49_999 == 5 { 5 } else { (index % 49_999) as u8 }, 80_000)),
        _ if index % 1_999 == 100 => Some((5, 5_000)),
        _ => None,
    }
}

/// How many calls a caller with a long history makes.
fn many(g: &mut Gen) -> u64 {
    let c = if g.r.chance(1, 3) { g.count(50, 2000) } else { None };
    c.unwrap_or(*g.r.pick(&[70, 140, 300, 1100]))
}

pub const STACK_KIB: u64 = 256;

/// The heap budget property C07 states for a call.
pub fn budget(op: &Op) -> u64 {
    4 * 96 * op.cells() + 8 * op.io_bytes() + (64 << 10)
}

impl<'a> Gen<'a> {
    fn huge(&mut self) -> Op {
        let r = &mut self.r;
        let giant = r.chance(1, 4);
        let (t, rows, c) = match (r.below(4), giant) {
            (0, false) => (1, r.range(2000, 9000), r.range(1, 3)),
            (1, false) => (1, r.range(3, 5), r.range(2000, 9000)),
            (2, false) => (r.range(2000, 9000), r.range(3, 4), 1),
            (_, false) => (1, *r.pick(&[512, 1024]), r.range(20, 80)),
            (0, _) => (1, r.range(9000, 40000), 1),
            (1, _) => (1, 3, r.range(9000, 20000)),
            (2, _) => (r.range(9000, 40000), r.range(3, 4), 1),
            _ => (1, r.range(90, 100), r.range(90, 160)),
        };
        let plen = if giant { *r.pick(&[0u32, 8000, 60000, 400_000]) } else { *r.pick(&[0u32, 40, 1000, 6000, 60000]) };
        let k = if giant { *r.pick(&[32, 96, 40000, 300_000, 1 << 20]) } else { *r.pick(&[32, 32, 96, 5000, 40000]) };
        let pwd = Data { kind: 0, seed: r.u64() >> 20, len: plen, edits: vec![] };
        let salt = Data { kind: 0, seed: r.u64() >> 20, len: *r.pick(&[0, 8, 33, 64, 60000]), edits: vec![] };
        let op = Op::Lyra { k, pwd, salt, t, r: rows, c };
        if op_valid(&op) { op } else { self.fresh() }
    }
}

/// Calls begun while this one is suspended: usually a few, sometimes a deep
/// chain, sometimes very many one after another.
fn add_nest(g: &mut Gen, c: &mut Call, depth: u32, chain: u32) {
    let mut t = g.trig(&c.op.clone());
    if chain > 10 {
        // each link must be reached for the next to be
        t = Trig { step: 1 + g.r.below(g.cal.steps(&c.op) / 2 + 1), alloc: u64::MAX, shared: u64::MAX };
    }
    let n = if chain > 0 { 1 } else if depth == 1 && g.r.chance(1, 150) { g.r.range(10, 60) } else { g.r.range(1, 2) };
    let mut v = vec![];
    for _ in 0..n {
        let op = if g.r.chance(1, 3) { c.op.clone() } else { g.valid() };
        let mut cc = Call::plain(op);
        if if chain > 0 { depth < chain && g.r.chance(if chain > 10 { 40 } else { 14 }, if chain > 10 { 41 } else { 15 }) } else { depth < 4 && g.r.chance(1, 4) } {
            add_nest(g, &mut cc, depth + 1, chain);
        }
        v.push(cc);
    }
    c.nest = Some((t, v));
}

// ------------------------------------------------------------------ text form

fn n(x: u64) -> String {
    if x == u64::MAX { "-".into() } else { x.to_string() }
}
fn un(s: &str) -> Option<u64> {
    if s == "-" { Some(u64::MAX) } else { s.parse().ok() }
}
fn trig_text(t: &Trig) -> String {
    format!("{},{},{}", n(t.step), n(t.alloc), n(t.shared))
}
fn trig_parse(s: &str) -> Option<Trig> {
    let v: Vec<&str> = s.split(',').collect();
    Some(Trig { step: un(v.first()?)?, alloc: un(v.get(1)?)?, shared: un(v.get(2)?)? })
}

fn call_text(c: &Call, depth: usize, out: &mut String) {
    *out += &format!("call depth={} {}", depth, c.op.text());
    if let Some(f) = &c.fault {
        *out += &format!(" fault={},{},{},{}", n(f.first), n(f.count), n(f.min_size), n(f.budget));
    }
    if let Some((t, e)) = &c.stall {
        *out += &format!(" stall={},{}", trig_text(t), *e as u8);
    }
    if let Some((t, _)) = &c.nest {
        *out += &format!(" nest={}", trig_text(t));
    }
    *out += "\n";
    if let Some((_, v)) = &c.nest {
        for x in v {
            call_text(x, depth + 1, out);
        }
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(t: &str) -> Option<Vec<u8>> {
    (0..t.len() / 2).map(|i| u8::from_str_radix(t.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

impl Plan {
    pub fn text(&self) -> String {
        let mut s = String::new();
        let k = &self.knobs;
        let t = &self.strat;
        s += &format!("property {}\nseed {}\n", self.prop, self.seed);
        s += &format!(
            "knobs fill={} scribble={} reuse={} moves={} offset={} stack_kib={} clock={} clock_jump={} skew={} spurious={} vars={} cpus={} mangle={} text=x{} env={}\n",
            k.fill, k.scribble as u8, k.reuse as u8, k.moves as u8, k.offset, k.stack_kib, k.clock, k.clock_jump, k.skew as u8, k.spurious as u8, k.vars, k.cpus, k.mangle as u8, hex(&k.text), k.env
        );
        s += &format!(
            "strategy kind={} mean={} depth={} est={} p_alloc={} p_shared={} sticky={}\n",
            t.kind, t.mean, t.depth, t.est, t.p_alloc, t.p_shared, t.sticky
        );
        for t in &self.tasks {
            s += "task\n";
            for i in &t.incs {
                s += "thread\n";
                for c in i {
                    call_text(c, 0, &mut s);
                }
            }
        }
        if let Some(v) = &self.sched {
            s += "schedule explicit\n";
            for w in v {
                s += &format!("switch {} {} {}\n", w.task, w.step, w.to);
            }
        }
        s
    }

    pub fn parse(text: &str) -> Option<Plan> {
        let mut p = Plan {
            prop: String::new(), seed: 0,
            knobs: knobs(0, false), strat: Strat { kind: 0, mean: 1, depth: 0, est: 1, p_alloc: 0, p_shared: 0, sticky: 0 },
            tasks: vec![], sched: None,
        };
        for line in text.lines() {
            let w: Vec<&str> = line.split_whitespace().collect();
            if w.is_empty() { continue; }
            let kv = |key: &str| w.iter().find_map(|x| x.strip_prefix(&format!("{}=", key)).map(|s| s.to_string()));
            let num = |key: &str| kv(key).and_then(|s| s.parse::<u64>().ok());
            match w[0] {
                "property" => p.prop = w[1].into(),
                "seed" => p.seed = w[1].parse().ok()?,
                "knobs" => {
                    p.knobs = Knobs {
                        fill: num("fill")? as u8, scribble: num("scribble")? != 0, reuse: num("reuse")? != 0, moves: num("moves")? != 0,
                        offset: num("offset")?, stack_kib: num("stack_kib")?, clock: num("clock")?, clock_jump: num("clock_jump")?,
                        skew: num("skew")? != 0, spurious: num("spurious")? != 0, vars: num("vars")? as u8, cpus: num("cpus")?, mangle: num("mangle")? != 0, text: kv("text").and_then(|t| unhex(t.get(1..)?)).unwrap_or_default(), env: num("env")?,
                    }
                }
                "strategy" => {
                    p.strat = Strat {
                        kind: num("kind")? as u8, mean: num("mean")?, depth: num("depth")?, est: num("est")?,
                        p_alloc: num("p_alloc")?, p_shared: num("p_shared")?, sticky: num("sticky")?,
                    }
                }
                "task" => p.tasks.push(TaskPlan::default()),
                "thread" => p.tasks.last_mut()?.incs.push(vec![]),
                "call" => {
                    let mut c = Call::plain(Op::parse(&w)?);
                    if let Some(f) = kv("fault") {
                        let v: Vec<u64> = f.split(',').map(un).collect::<Option<_>>()?;
                        c.fault = Some(Fault { first: v[0], count: v[1], min_size: v[2], budget: v[3] });
                    }
                    if let Some(f) = kv("stall") {
                        c.stall = Some((trig_parse(&f)?, f.ends_with(",1")));
                    }
                    if let Some(f) = kv("nest") {
                        c.nest = Some((trig_parse(&f)?, vec![]));
                    }
                    let mut list = p.tasks.last_mut()?.incs.last_mut()?;
                    for _ in 0..num("depth")? {
                        list = &mut list.last_mut()?.nest.as_mut()?.1;
                    }
                    list.push(c);
                }
                "schedule" => p.sched = Some(vec![]),
                "switch" => {
                    let s = p.sched.as_mut()?;
                    s.push(Switch { task: w[1].parse().ok()?, step: w[2].parse().ok()?, to: w[3].parse().ok()? });
                }
                _ => {}
            }
        }
        Some(p)
    }

    pub fn calls(&self) -> usize {
        self.tasks.iter().map(|t| t.incs.iter().map(|i| i.len()).sum::<usize>()).sum()
    }
}
