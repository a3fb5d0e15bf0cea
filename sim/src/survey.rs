//! Before a batch: which arguments reach code that few calls reach, and with
//! which constants does the code compare things? Short plans are run in a
//! build of the library that traces comparisons, in rounds: the first round
//! takes arguments as the generator makes them, later ones vary those that
//! reached rarely executed blocks and put the constants seen into them. The
//! result only steers what batches try; nothing is judged here.
use crate::plan::*;
use crate::rng::{splitmix, Rng};
use crate::rt::*;

extern "C" {
    fn malloc_trim(pad: usize) -> i32;
}
pub const ROUND: usize = 1600;
const WORDS: usize = EDGES / 64;

const KEEP: usize = 512;
#[repr(C)]
struct Res {
    steps: u64,
    shared: u64,
    tls: u64,
    bits: [u64; WORDS],
    nsite: u64,
    sites: [Site; KEEP],
    ntext: u64,
    texts: [Text; TEXTS],
}
#[repr(C)]
struct Round {
    res: [Res; ROUND],
}

/// What was compared with what, per input so far.
#[derive(Default)]
struct Known {
    sites: Vec<Vec<Site>>,
    texts: Vec<Vec<Text>>,
    seen: std::collections::BTreeMap<u64, Seen>,
    /// places that rarely come out equal, and depend on the input
    open: Vec<u64>,
    all: Vec<Hot>,
}
/// Of one place in the code that compares.
#[derive(Default)]
struct Seen {
    values: Vec<u64>,
    inputs: u64,
    equal: u64,
    /// some of the inputs for which it does not come out equal
    ids: Vec<usize>,
}
impl Known {
    /// Does what is compared there depend on the input?
    fn varies(&self, pc: u64) -> bool {
        self.seen.get(&pc).is_some_and(|s| s.values.len() > 1 || s.inputs < 8)
    }
}

fn inputs(seed: u64, round: u64, cal: &Calib, known: &Known) -> Vec<(Vec<Op>, Vec<u8>)> {
    (0..ROUND as u64)
        .map(|i| {
            let mut s = seed ^ round << 32 ^ i << 8;
            splitmix(&mut s);
            let mut g = Gen::new(splitmix(&mut s) >> 1, cal);
            let v = g.survey_input(round, known);
            (v, g.text)
        })
        .collect()
}

pub fn survey(seed: u64, rounds: u64, workers: u64, mut cal: Calib, secs: f64, run: fn(Vec<Op>, Vec<u8>, *mut Report)) -> Survey {
    let t0 = crate::now();
    let mut hits = vec![0u64; EDGES]; // inputs of the first round that reach it
    let mut best: Vec<Vec<usize>> = vec![vec![]; EDGES];
    let mut kn = Known::default();
    let mut consts: std::collections::BTreeSet<u64> = Default::default();
    let mut execs = 0;
    for round in 0..rounds {
        if crate::now() - t0 > secs {
            break;
        }
        let ins = inputs(seed, round, &cal, &kn);
        let shm: *mut Round = unsafe { map_shared() };
        let mut reach: Vec<*mut Reach> = vec![];
        let mut pids = vec![];
        for w in 0..workers as usize {
            unsafe {
                let rc: *mut Reach = map_shared();
                reach.push(rc);
                let pid = crate::fork();
                if pid == 0 {
                    crate::pin(w);
                    // every run is a fork of this process: let it be small
                    drop((std::mem::take(&mut kn), std::mem::take(&mut best), std::mem::take(&mut hits), std::mem::take(&mut cal.survey)));
                    let ins: Vec<_> = ins.into_iter().skip(w).step_by(workers as usize).collect();
                    malloc_trim(0);
                    let rep: *mut Report = map_shared();
                    REACH = rc;
                    for i in (w..ROUND).step_by(workers as usize) {
                        if crate::now() - t0 > secs {
                            break;
                        }
                        (*rc).edge = [0; EDGES];
                        (*rc).sites = [Site { pc: 0, size: 0, want: 0, have: 0, equal: 0 }; SITES];
                        (*rc).ntext = 0;
                        let (ops, text) = ins[i / workers as usize].clone();
                        run(ops, text, rep);
                        let r = &mut (*shm).res[i];
                        r.steps = (*rep).stats[S_STEPS].max((*rep).step0);
                        r.shared = (*rep).stats[S_SHARED_ACCESSES];
                        r.tls = (*rep).stats[S_TLS_ACCESSES];
                        let mut n = 0;
                        for s in &(*rc).sites {
                            if s.pc != 0 && n < KEEP {
                                r.sites[n] = *s;
                                n += 1;
                            }
                        }
                        r.nsite = n as u64;
                        r.ntext = (*rc).ntext;
                        r.texts = (*rc).texts;
                        for e in 0..EDGES {
                            r.bits[e / 64] |= ((*rc).edge[e] as u64) << (e % 64);
                        }
                    }
                    _exit(0);
                }
                assert!(pid > 0);
                pids.push(pid);
            }
        }
        for p in pids {
            let mut st = 0;
            unsafe { while crate::waitpid(p, &mut st, 0) != p {} };
        }
        for rc in &reach {
            let rc = unsafe { &**rc };
            consts.extend(&rc.consts[..(rc.nconst as usize).min(rc.consts.len())]);
        }
        let mut words: Vec<Vec<u8>> = vec![];
        for (i, (ops, text)) in ins.into_iter().enumerate() {
            let r = unsafe { &(*shm).res[i] };
            let n = ops.len() as u64;
            let sites = &r.sites[..r.nsite as usize];
            for s in sites {
                let e = kn.seen.entry(s.pc).or_default();
                e.inputs += 1;
                e.equal += s.equal;
                if e.values.len() < 3 && !e.values.contains(&s.have) {
                    e.values.push(s.have);
                }
                if s.equal == 0 && (s.pc & VARIABLE == 0 || i % 8 == 0) {
                    let id = kn.all.len();
                    if e.ids.len() < 16 {
                        e.ids.push(id);
                    } else {
                        e.ids[id % 16] = id;
                    }
                }
            }
            kn.sites.push(sites.iter().copied().filter(|s| s.equal == 0 && (s.pc & VARIABLE == 0 || i % 8 == 0)).collect());
            let mut texts = r.texts[..r.ntext as usize].to_vec();
            texts.dedup();
            texts.truncate(3);
            for t in &texts {
                let two = [&t.a[..t.len as usize], &t.b[..t.len as usize]];
                words.extend(two.iter().filter(|w| **w != text && !w.windows(3).any(|x| x == b"aaa")).map(|w| w.to_vec()));
            }
            kn.texts.push(texts);
            let all = &mut kn.all;
            let h = Hot { ops, text, steps: r.steps / n, shared: r.shared.div_ceil(n), tls: r.tls.div_ceil(n) };
            execs += 1;
            let id = all.len();
            all.push(h);
            for e in 0..EDGES {
                if r.bits[e / 64] >> (e % 64) & 1 == 0 {
                    continue;
                }
                hits[e] += (round == 0) as u64;
                let b = &mut best[e];
                b.push(id);
                if b.len() > 8 {
                    // keep the cheapest, and any of the rest
                    b.sort_by_key(|x| (all[*x].steps, *x));
                    let mut h = (id as u64) << 16 ^ e as u64;
                    let gone = if splitmix(&mut h) % 2 == 0 { 8 } else { 4 + splitmix(&mut h) % 5 };
                    b.remove(gone as usize);
                }
            }
        }
        // what we know so far
        let mut s = Survey { execs, edges: best.iter().filter(|b| !b.is_empty()).count() as u64, ..Default::default() };
        for v in &consts {
            s.add_const(*v);
            let b = v.to_le_bytes();
            s.add_text(&b[..8 - v.leading_zeros() as usize / 8]);
        }
        for t in &words {
            s.add_text(t);
        }
        for t in &cal.survey.texts {
            s.add_text(t);
        }
        kn.open = kn.seen.iter().filter(|(pc, s)| kn.varies(**pc) && s.equal * 50 < s.inputs && !s.ids.is_empty()).map(|x| *x.0).collect();
        // forget what would not be aimed at: every run is a fork of us
        let often: Vec<u64> = kn.seen.iter().filter(|(_, s)| s.equal * 6 > s.inputs || (s.values.len() < 2 && s.inputs > 100)).map(|x| *x.0).collect();
        for v in &mut kn.sites {
            v.retain(|s| often.binary_search(&s.pc).is_err());
            v.shrink_to_fit();
        }
        let all = &kn.all;
        let mut map = vec![usize::MAX; all.len()];
        let mut seen: Vec<Vec<usize>> = vec![];
        for e in 0..EDGES {
            if best[e].is_empty() || hits[e] > ROUND as u64 / 12 {
                continue;
            }
            let l: Vec<usize> = best[e]
                .iter()
                .map(|id| {
                    if map[*id] == usize::MAX {
                        map[*id] = s.hot.len();
                        s.hot.push(all[*id].clone());
                    }
                    map[*id]
                })
                .collect();
            // blocks reached by the same calls count twice at most
            if seen.iter().filter(|x| **x == l).count() < 2 {
                seen.push(l.clone());
                s.rare.push(l);
            }
        }
        if crate::verbose() {
            eprintln!("round {}: {} blocks, {} rare, {} places compare, open {:?}", round, s.edges, s.rare.len(), kn.seen.len(),
                kn.open.iter().filter(|p| **p & VARIABLE == 0).map(|p| {
                        let s = &kn.seen[p];
                        let w = kn.sites[s.ids[0]].iter().find(|x| x.pc == *p).copied().unwrap_or(Site { pc: 0, size: 0, want: 0, have: 0, equal: 0 });
                        format!("{:x}:{}/{}:{:x}.{}", *p & 0xfffff, s.equal, s.inputs, w.want, w.size)
                    }).collect::<Vec<_>>());
        }
        cal.survey = s;
        unsafe { munmap(shm as *mut u8, std::mem::size_of::<Round>()) };
    }
    cal.survey
}

/// Change the call so that what was `have` becomes `want`: an argument, or
/// bytes of the input.
fn put(op: &mut Op, r: &mut Rng, have: u64, want: u64, size: u64) -> bool {
    let mut done = false;
    let (mut nums, data): (Vec<&mut u64>, Vec<&mut Data>) = match op {
        Op::Sum { input, .. } => (vec![], vec![input]),
        Op::Lyra { k, pwd, salt, t, r, c } => (vec![k, t, r, c], vec![pwd, salt]),
    };
    let mut places = vec![];
    let len = |v: u64| if v >> 8 == 0 { 1 } else if v >> 16 == 0 { 2 } else if v >> 32 == 0 { 4 } else { 8 };
    let n = if r.chance(1, 2) { size } else { len(have).max(len(want)) }.clamp(1, 8) as usize;
    let big = n > 1 && r.chance(1, 3);
    let bytes = |v: u64| {
        let mut b = v.to_le_bytes()[..n].to_vec();
        if big {
            b.reverse();
        }
        b
    };
    let old = bytes(have);
    for (i, d) in data.iter().enumerate() {
        if d.len <= 4096 {
            let v = d.render();
            places.extend((0..(v.len() + 1).saturating_sub(n)).filter(|p| v[*p..*p + n] == old).take(40).map(|p| (i, p)));
        }
    }
    let delta = want.wrapping_sub(have);
    let exact: Vec<usize> = (0..nums.len()).filter(|i| *nums[*i] == have).collect();
    let lens: Vec<usize> = (0..data.len()).filter(|i| data[*i].len as u64 == have).collect();
    let mut data = data;
    match r.below(8) {
        0..=2 if !places.is_empty() => {
            let (i, p) = if r.chance(1, 2) { places[0] } else { *r.pick(&places) };
            for (j, b) in bytes(want).into_iter().enumerate() {
                data[i].edits.push(Edit::Set((p + j) as u32, b));
            }
            done = true;
        }
        3 | 4 if !exact.is_empty() => {
            *nums[*r.pick(&exact)] = want;
            done = true;
        }
        5 if !lens.is_empty() && want < 500_000 => {
            data[*r.pick(&lens)].len = want as u32;
            done = true;
        }
        _ => {}
    }
    if !done {
        // compared after something was added, or in larger units
        let by = delta.wrapping_mul(*r.pick(&[1, 1, 1, 8, 12, 64, 96]));
        let i = r.below((nums.len() + data.len()) as u64) as usize;
        if i < nums.len() {
            let v = nums[i].wrapping_add(by);
            if v < 1 << 22 {
                *nums[i] = v;
                done = true;
            }
        } else {
            let d = &mut data[i - nums.len()];
            let v = (d.len as u64).wrapping_add(by);
            if v < 500_000 {
                d.len = v as u32;
                done = true;
            }
        }
    }
    done
}

impl<'a> Gen<'a> {
    /// An earlier input, changed so that comparisons in the code come out
    /// equal that did not.
    fn solve(&mut self, s: &mut Rng, k: &Known) -> Option<Vec<Op>> {
        let sv = &self.cal.survey;
        let variable = s.chance(1, 6);
        let open: Vec<u64> = k.open.iter().copied().filter(|p| (p & VARIABLE != 0) == variable).collect();
        let aim = if !open.is_empty() && s.chance(3, 5) { *s.pick(&open) } else { 0 };
        let id = if aim != 0 {
            *s.pick(&k.seen[&aim].ids)
        } else if !sv.rare.is_empty() && s.chance(1, 2) {
            let e = s.pick(&sv.rare);
            let h = &sv.hot[*s.pick(e)];
            k.all.iter().position(|x| x.ops == h.ops && x.text == h.text)?
        } else {
            s.below(k.all.len() as u64) as usize
        };
        let mut ops = k.all[id].ops.clone();
        self.text = k.all[id].text.clone();
        let open: Vec<&Site> = k.sites[id].iter().filter(|c| c.equal == 0 && k.varies(c.pc)).collect();
        if aim == 0 && !k.texts[id].is_empty() && (open.is_empty() || s.chance(1, 2)) {
            let t = s.pick(&k.texts[id]);
            let (mut a, mut b) = (&t.a[..t.len as usize], &t.b[..t.len as usize]);
            if s.chance(1, 2) {
                (a, b) = (b, a);
            }
            let v = &self.text;
            if let Some(p) = v.windows(b.len()).position(|w| w == b) {
                self.text = [&v[..p], a, &v[p + b.len()..]].concat();
            }
            for op in &mut ops {
                for d in match op { Op::Sum { input, .. } => vec![input], Op::Lyra { pwd, salt, .. } => vec![pwd, salt] } {
                    let v = d.render();
                    if let Some(p) = v.windows(b.len()).position(|w| w == b) {
                        d.edits.extend(a.iter().enumerate().map(|(j, x)| Edit::Set((p + j) as u32, *x)));
                    }
                }
            }
            return Some(ops);
        }
        if open.is_empty() {
            return None;
        }
        let c = open.iter().copied().find(|c| c.pc == aim).unwrap_or(*s.pick(&open));
        let near = if s.chance(1, 2) { 0 } else { *s.pick(&[60, 200, 600]) };
        let mut group: Vec<&Site> = open.iter().copied().filter(|x| x.pc == c.pc || (x.pc.abs_diff(c.pc) < near && s.chance(2, 3))).collect();
        group.truncate(12);
        if !self.text.is_empty() && s.chance(1, 8) {
            // the environment variables instead
            for g in &group {
                if g.have == self.text.len() as u64 && g.want > 0 && g.want < 80 {
                    self.text.resize(g.want as usize, b'a');
                }
                let n = if g.have >> 8 == 0 { 1 } else if g.have >> 16 == 0 { 2 } else if g.have >> 32 == 0 { 4 } else { 8 };
                let (h, w) = (g.have.to_le_bytes(), g.want.to_le_bytes());
                if let Some(p) = self.text.windows(n).position(|x| *x == h[..n]) {
                    self.text[p..p + n].copy_from_slice(&w[..n]);
                    self.text.retain(|b| *b != 0);
                }
            }
            return Some(ops);
        }
        for op in &mut ops {
            if s.chance(1, 5) {
                continue;
            }
            let old = op.clone();
            for g in &group {
                let want = match s.below(6) { 0 => g.want.wrapping_add(1), 1 => g.want.wrapping_sub(1), _ => g.want };
                put(op, s, g.have, want, g.size);
            }
            op.make_room();
            if !op_valid(op) || self.cal.steps(op) > 12_000_000 {
                *op = old;
            }
        }
        Some(ops)
    }

    fn survey_input(&mut self, round: u64, known: &Known) -> Vec<Op> {
        let mut s = Rng::new(self.r.u64(), 9);
        if round > 0 && s.chance(2, 5) {
            if let Some(v) = self.solve(&mut s, known) {
                return v;
            }
        }
        if !self.cal.survey.texts.is_empty() && s.chance(1, 6) {
            self.text = s.pick(&self.cal.survey.texts).clone();
        } else if s.chance(1, 3) {
            self.text = (0..s.range(1, 12)).map(|_| b'a' + s.below(26) as u8).collect();
        }
        let n = self.cal.survey.rare.len() as u64;
        if round > 0 && s.chance(n, n + 4) && s.chance(4, 5) {
            self.adopt(s.chance(1, 3));
        }
        self.set_spice(if round > 0 { *s.pick(&[20, 50, 80]) } else { 0 });
        if s.chance(1, 8) {
            self.set_size(s.range(2, 4));
        }
        let n = s.range(1, 3);
        let mut v = vec![];
        while v.len() < n as usize {
            let mut op = self.valid();
            while s.chance(1, 3) {
                op = self.roam(op);
            }
            if self.cal.steps(&op) < 12_000_000 {
                v.push(op);
            }
        }
        if s.chance(1, 2) {
            v.push(v[0].clone());
        }
        v
    }
}
