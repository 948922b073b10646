//! Exhaustive enumeration of a numbered case space by forked workers.  The parent hands out case numbers
//! through shared memory, sees a worker that crashes, aborts or hangs inside a case (that is a violation of
//! whatever the case was about), and adds up what the workers report.
use crate::sys::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub const NCTR: usize = 24;
const DESC: usize = 4096;
#[repr(C)]
struct Slot { case: AtomicU64, sub: AtomicU64, tag: AtomicU64, beat: AtomicU64, busy: AtomicU32, desc_len: AtomicU32, ctr: [AtomicU64; NCTR], desc: [u8; DESC] }
#[repr(C)]
struct Shared { next: AtomicU64, stop: AtomicU32, nviol: AtomicU32 }

#[derive(Clone)]
pub struct Opts { pub prop: &'static str, pub tier: String, pub seed: u64, pub only: Option<(u64, u64)>, pub hang_s: u64, pub verif: String, pub deadline: Option<Instant>, pub nworkers: usize, pub verbose: bool, pub maxviol: u32 }

pub struct Ctx {
    slot: *mut Slot, sh: *mut Shared, dir: String, id: usize,
    skip_until: Option<u64>, pub only_sub: Option<u64>, hashes: HashSet<u64>, maxhash: usize,
    known: std::rc::Rc<HashSet<String>>, seen_known: HashSet<String>, states: HashSet<u64>, pub samples: Vec<String>, pub case: u64, sub: u64, nlog: u32,
}
pub fn hash(b: &[u8]) -> u64 { let mut h = 0xcbf29ce484222325u64; for c in b.chunks(8) { let mut w = [0u8; 8]; w[..c.len()].copy_from_slice(c); h = (h ^ u64::from_le_bytes(w) ^ ((c.len() as u64) << 59)).wrapping_mul(0x9E3779B97F4A7C15); h ^= h >> 29; } h }

impl Ctx {
    fn s(&self) -> &Slot { unsafe { &*self.slot } }
    /// Start of sub-case number `sub` of the current case; false: skip it (replay of another sub-case, or
    /// continuation after a crash).
    pub fn begin(&mut self, sub: u64, tag: u64, desc: &[u8]) -> bool {
        if let Some(o) = self.only_sub { if o != sub { return false; } }
        if let Some(k) = self.skip_until { if sub <= k { return false; } }
        self.sub = sub;
        let s = self.slot;
        unsafe {
            (*s).sub.store(sub, SeqCst); (*s).tag.store(tag, SeqCst);
            let n = desc.len().min(DESC);
            std::ptr::copy_nonoverlapping(desc.as_ptr(), std::ptr::addr_of_mut!((*s).desc) as *mut u8, n);
            (*s).desc_len.store(n as u32, SeqCst);
            (*s).beat.fetch_add(1, SeqCst);
        }
        true
    }
    pub fn beat(&self) { self.s().beat.fetch_add(1, SeqCst); }
    pub fn add(&self, k: usize, n: u64) { self.s().ctr[k].fetch_add(n, SeqCst); }
    /// Record a state of the reference model (by hash).
    pub fn state(&mut self, b: &[u8]) { let h = hash(b); if self.states.len() < self.maxhash { self.states.insert(h); } }
    /// Record a distinct outcome (by hash).
    pub fn outcome(&mut self, b: &[u8]) -> bool { let h = hash(b); if self.hashes.len() < self.maxhash { self.hashes.insert(h) } else { false } }
    pub fn sample(&mut self, f: impl FnOnce() -> String) { if self.samples.len() < 3 { let s = f(); self.samples.push(s); } }
    pub fn stopped(&self) -> bool { unsafe { (*self.sh).stop.load(SeqCst) != 0 } }
    /// A violation.  `key` identifies the failing input, call site or history (known-findings file).
    pub fn violation(&mut self, key: &str, details: &str) {
        let key: String = key.replace('\n', "\\n");
        let known = self.known.contains(&key);
        if known { if !self.seen_known.insert(key.clone()) { return; } }
        else {
            unsafe { (*self.sh).nviol.fetch_add(1, SeqCst); }
            self.nlog += 1;
            if self.nlog > 60 && std::env::var_os("VP_MAXVIOL").is_none() { return; }
        }
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(format!("{}/viol.{}", self.dir, self.id)).unwrap();
        let rec = format!("{}\x01{}\x01{}\x01{}\x01{}\x02", self.case, self.sub, if known { 1 } else { 0 }, key, details.replace(['\x01', '\x02'], "?"));
        f.write_all(rec.as_bytes()).unwrap();
    }
    fn flush(&mut self) {
        let mut v = Vec::with_capacity(self.hashes.len() * 8);
        for h in &self.hashes { v.extend_from_slice(&h.to_le_bytes()); }
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(format!("{}/hash.{}", self.dir, self.id)).unwrap();
        f.write_all(&v).unwrap();
        let mut v = Vec::with_capacity(self.states.len() * 8);
        for h in &self.states { v.extend_from_slice(&h.to_le_bytes()); }
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(format!("{}/state.{}", self.dir, self.id)).unwrap();
        f.write_all(&v).unwrap();
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(format!("{}/samp.{}", self.dir, self.id)).unwrap();
        for s in &self.samples { f.write_all(s.as_bytes()).unwrap(); f.write_all(b"\x02").unwrap(); }
    }
}

#[derive(Clone, Debug)]
pub struct Viol { pub case: u64, pub sub: u64, pub known: bool, pub key: String, pub details: String }
pub struct Report { pub ctr: [u64; NCTR], pub distinct: u64, pub states: u64, pub viol: Vec<Viol>, pub nviol: u64, pub samples: Vec<String>, pub cases_done: u64, pub capped: bool, pub wall: f64 }

pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b { match c { b'\n' => s.push_str("\\n"), b'\r' => s.push_str("\\r"), b'\t' => s.push_str("\\t"), b'\\' => s.push_str("\\\\"), 32..=126 => s.push(c as char), _ => s.push_str(&format!("\\x{:02x}", c)) } }
    s
}

pub fn load_known(verif: &str, prop: &str) -> HashSet<String> {
    // lines "open: property=<id> key=<key>" ; "fixed:" lines suppress nothing
    let mut k = HashSet::new();
    if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", verif)) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix(&format!("open: property={} key=", prop)) { k.insert(r.split("  ## ").next().unwrap().trim_end().to_string()); }
        }
    }
    k
}

pub fn run(o: &Opts, ncases: u64, f: &dyn Fn(&mut Ctx, u64)) -> Report {
    let t0 = Instant::now();
    let known = std::rc::Rc::new(load_known(&o.verif, o.prop));
    let nw = if o.only.is_some() { 1 } else { o.nworkers.min(ncases.max(1) as usize) };
    let dir = format!("{}/build/run.{}.{}", o.verif, o.prop, unsafe { getpid() });
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let sh = shared(4096) as *mut Shared;
    let sl = shared((std::mem::size_of::<Slot>() * nw + 4095) / 4096 * 4096) as *mut Slot;
    if let Some((c, _)) = o.only { unsafe { (*sh).next.store(c, SeqCst); } }
    let end = match o.only { Some((c, _)) => c + 1, None => ncases };
    let spawn = |id: usize, resume: Option<(u64, u64)>| -> i32 {
        let pid = unsafe { fork() };
        if pid != 0 { return pid; }
        unsafe {
            prctl(1, 9, 0, 0, 0); // die with the parent
            let p = std::ffi::CString::new(format!("{}/err.{}", dir, id)).unwrap();
            let fd = open(p.as_ptr(), 0o1 | 0o100 | 0o1000, 0o600);
            dup2(fd, 2); close(fd);
            setrlimit(9, &[12u64 << 30, 12u64 << 30]); // address space
            setrlimit(4, &[0, 0]); // no core
        }
        let slot = unsafe { sl.add(id) };
        let mut cx = Ctx { slot, sh, dir: dir.clone(), id, skip_until: None, only_sub: o.only.and_then(|x| if x.1 == u64::MAX { None } else { Some(x.1) }), hashes: HashSet::new(), maxhash: 3_000_000, known: known.clone(), seen_known: HashSet::new(), states: HashSet::new(), samples: vec![], case: 0, sub: 0, nlog: 0 };
        let mut resume = resume;
        loop {
            if unsafe { (*sh).stop.load(SeqCst) } != 0 { break; }
            let c = if let Some((c, s)) = resume.take() { cx.skip_until = Some(s); c } else {
                cx.skip_until = None;
                let c = unsafe { (*sh).next.fetch_add(1, SeqCst) };
                if c >= end { break; }
                c
            };
            unsafe { (*slot).case.store(c, SeqCst); (*slot).sub.store(0, SeqCst); (*slot).tag.store(0, SeqCst); (*slot).desc_len.store(0, SeqCst); (*slot).busy.store(1, SeqCst); (*slot).beat.fetch_add(1, SeqCst); }
            cx.case = c; cx.sub = 0;
            f(&mut cx, c);
            unsafe { (*slot).busy.store(0, SeqCst); (*slot).ctr[NCTR - 1].fetch_add(1, SeqCst); }
        }
        cx.flush();
        unsafe { _exit(0) }
    };
    let mut pids: HashMap<i32, usize> = HashMap::new();
    let mut beats: Vec<(u64, Instant)> = vec![(0, Instant::now()); nw];
    for i in 0..nw { let p = spawn(i, None); pids.insert(p, i); }
    let mut viol: Vec<Viol> = vec![];
    let mut capped = false;
    let mut crashes = 0;
    let mut hung: HashSet<i32> = HashSet::new();
    while !pids.is_empty() {
        let mut st = 0;
        let p = unsafe { waitpid(-1, &mut st, 1) };
        if p > 0 {
            if let Some(id) = pids.remove(&p) {
                if st != 0 {
                    let s = unsafe { &*sl.add(id) };
                    let (case, sub, tag) = (s.case.load(SeqCst), s.sub.load(SeqCst), s.tag.load(SeqCst));
                    let n = s.desc_len.load(SeqCst) as usize;
                    let desc = esc(&s.desc[..n]);
                    let errs = String::from_utf8_lossy(&std::fs::read(format!("{}/err.{}", dir, id)).unwrap_or_default()).into_owned();
                    let how = if st & 0x7f != 0 { if st & 0x7f == 9 { format!("no progress for {} s", o.hang_s) } else { format!("signal {}", st & 0x7f) } } else { format!("exit status {}", st >> 8) };
                    if errs.contains("harness/src/") || (st & 0x7f) == 0 || ((st & 0x7f) == 9 && !hung.contains(&p)) {
                        // a bug of the explorer itself: an error of the check, not a verdict
                        eprintln!("ERROR: the explorer failed in case {} sub {} tag {}: {}\n{}\n{}", case, sub, tag, how, desc, errs);
                        for (q, _) in &pids { unsafe { kill(*q, 9); } }
                        std::process::exit(3);
                    }
                    let key = format!("crash tag={} input={}", tag, desc);
                    let isk = known.contains(&key);
                    let last: Vec<&str> = errs.lines().filter(|l| l.contains("panicked") || l.starts_with("VP:")).collect();
                    viol.push(Viol { case, sub, known: isk, key, details: format!("the library crashed: {} {}", how, last.last().unwrap_or(&errs.lines().last().unwrap_or(""))) });
                    if !isk { unsafe { (*sh).nviol.fetch_add(1, SeqCst); } }
                    crashes += 1;
                    if unsafe { (*sh).nviol.load(SeqCst) } >= o.maxviol || crashes > 400 || o.only.is_some() { unsafe { (*sh).stop.store(1, SeqCst); } }
                    else { s.beat.fetch_add(1, SeqCst); let q = spawn(id, Some((case, sub))); pids.insert(q, id); beats[id].1 = Instant::now(); }
                }
            }
            continue;
        }
        for (p, id) in &pids {
            let s = unsafe { &*sl.add(*id) };
            let b = s.beat.load(SeqCst);
            if beats[*id].0 != b { beats[*id] = (b, Instant::now()); }
            else if s.busy.load(SeqCst) != 0 && beats[*id].1.elapsed() > Duration::from_secs(o.hang_s) { unsafe { kill(*p, 9); } hung.insert(*p); beats[*id].1 = Instant::now(); }
        }
        if unsafe { (*sh).nviol.load(SeqCst) } >= o.maxviol { unsafe { (*sh).stop.store(1, SeqCst); } }
        if let Some(d) = o.deadline { if Instant::now() > d && !capped { capped = true; unsafe { (*sh).stop.store(1, SeqCst); } } }
        std::thread::sleep(Duration::from_millis(4));
    }
    let mut ctr = [0u64; NCTR];
    let mut all = HashSet::new();
    let mut sts = HashSet::new();
    let mut samples = vec![];
    for i in 0..nw {
        let s = unsafe { &*sl.add(i) };
        for k in 0..NCTR { ctr[k] += s.ctr[k].load(SeqCst); }
        if let Ok(b) = std::fs::read(format!("{}/hash.{}", dir, i)) { for c in b.chunks_exact(8) { all.insert(u64::from_le_bytes(c.try_into().unwrap())); } }
        if let Ok(b) = std::fs::read(format!("{}/state.{}", dir, i)) { for c in b.chunks_exact(8) { sts.insert(u64::from_le_bytes(c.try_into().unwrap())); } }
        if let Ok(b) = std::fs::read(format!("{}/viol.{}", dir, i)) {
            for r in String::from_utf8_lossy(&b).split('\x02') {
                let p: Vec<&str> = r.split('\x01').collect();
                if p.len() == 5 { viol.push(Viol { case: p[0].parse().unwrap(), sub: p[1].parse().unwrap(), known: p[2] == "1", key: p[3].into(), details: p[4].into() }); }
            }
        }
        if let Ok(b) = std::fs::read(format!("{}/samp.{}", dir, i)) { for r in String::from_utf8_lossy(&b).split('\x02') { if !r.is_empty() && samples.len() < 6 { samples.push(r.to_string()); } } }
    }
    viol.sort_by_key(|v| (v.known, v.case, v.sub));
    let nviol = unsafe { (*sh).nviol.load(SeqCst) } as u64;
    let _ = std::fs::remove_dir_all(&dir);
    Report { cases_done: ctr[NCTR - 1], ctr, distinct: all.len() as u64, states: sts.len() as u64, viol, nviol, samples, capped, wall: t0.elapsed().as_secs_f64() }
}

/// Minimal JSON output.
pub enum J { N(u64), F(f64), B(bool), S(String), A(Vec<J>), O(BTreeMap<String, J>) }
impl J {
    pub fn out(&self, s: &mut String) {
        match self {
            J::N(n) => s.push_str(&n.to_string()), J::F(f) => s.push_str(&format!("{:.3}", f)), J::B(b) => s.push_str(if *b { "true" } else { "false" }),
            J::S(t) => { s.push('"'); for c in t.chars() { match c { '"' => s.push_str("\\\""), '\\' => s.push_str("\\\\"), '\n' => s.push_str("\\n"), c if (c as u32) < 32 || c as u32 == 0x7f => s.push_str(&format!("\\u{:04x}", c as u32)), c => s.push(c) } } s.push('"') }
            J::A(v) => { s.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { s.push_str(", ") } x.out(s) } s.push(']') }
            J::O(m) => { s.push('{'); for (i, (k, x)) in m.iter().enumerate() { if i > 0 { s.push_str(", ") } J::S(k.clone()).out(s); s.push_str(": "); x.out(s) } s.push('}') }
        }
    }
}
