//! A check: a sequence of exhaustively enumerated parts, its evidence file, its verdict.
use crate::pool::*; use crate::*;
use std::collections::BTreeMap;

pub struct Chk<'a> { pub env: &'a Env, pub id: &'static str, pub level: &'static str, only_part: Option<String>, parts: Vec<(String, Report, u64)>, t0: Instant, pub extra: BTreeMap<String, J>, pub assumptions: Vec<String> }
impl<'a> Chk<'a> {
    pub fn new(env: &'a Env, id: &'static str, level: &'static str) -> Chk<'a> { Chk { env, id, level, only_part: env.part.clone(), parts: vec![], t0: Instant::now(), extra: BTreeMap::new(), assumptions: vec![] } }
    /// Explores cases 0..n of one part with `f`.
    pub fn part(&mut self, name: &str, n: u64, f: &dyn Fn(&mut Ctx, u64)) {
        if let Some(o) = &self.only_part { if o != name { return; } }
        let mut o = self.env.o.clone(); o.prop = self.id;
        let r = run(&o, n, f);
        if self.env.o.verbose { eprintln!("-- {} {}: cases {}/{} evaluations {} distinct {} states {} violations {} wall {:.1}{}", self.id, name, r.cases_done, n, r.ctr[0], r.distinct, r.states, r.nviol, r.wall, if r.capped { " CAPPED" } else { "" }); }
        self.parts.push((name.to_string(), r, n));
    }
    /// Writes the evidence, prints the verdict and returns the exit code.
    pub fn finish(self, rule: &str) -> i32 {
        let v = &self.env.o.verif;
        let mut cov: BTreeMap<String, J> = BTreeMap::new();
        let (mut ev, mut dn, mut st, mut tr, mut trace, mut nv) = (0, 0, 0, 0, 0, 0);
        let mut samples = vec![]; let mut parts = vec![]; let mut exhaustive = true;
        for (n, r, total) in &self.parts {
            ev += r.ctr[0]; dn += r.distinct; st += r.states; tr += r.ctr[1]; trace += r.ctr[2]; nv += r.nviol;
            for s in r.samples.iter().take(3) { if samples.len() < 12 { samples.push(J::S(format!("{}: {}", n, s))); } }
            if r.capped || r.cases_done < *total { exhaustive = false; }
            let mut m = BTreeMap::new();
            m.insert("part".into(), J::S(n.clone())); m.insert("evaluations".into(), J::N(r.ctr[0])); m.insert("distinct_outcomes".into(), J::N(r.distinct));
            m.insert("cases".into(), J::N(*total)); m.insert("cases_done".into(), J::N(r.cases_done)); m.insert("capped".into(), J::B(r.capped)); m.insert("wall_s".into(), J::F(r.wall));
            if r.states > 0 { m.insert("model_states".into(), J::N(r.states)); }
            parts.push(J::O(m));
        }
        if samples.is_empty() { samples.push(J::S("(none recorded)".into())); }
        cov.insert("evaluations".into(), J::N(ev)); cov.insert("distinct_nontrivial".into(), J::N(dn)); cov.insert("rule".into(), J::S(rule.into()));
        cov.insert("samples".into(), J::A(samples)); cov.insert("parts".into(), J::A(parts)); cov.insert("exhaustive".into(), J::B(exhaustive));
        if self.level == "model_checking" { if st == 0 { st = dn; } if trace == 0 { trace = ev; } if tr == 0 { tr = ev; } cov.insert("states".into(), J::N(st)); cov.insert("transitions".into(), J::N(tr)); cov.insert("traces_validated_against_impl".into(), J::N(trace)); }
        for (k, x) in self.extra { cov.insert(k, x); }
        let mut m = BTreeMap::new();
        m.insert("property".into(), J::S(self.id.into())); m.insert("tier".into(), J::S(self.env.o.tier.clone())); m.insert("seed".into(), J::N(self.env.o.seed)); m.insert("level".into(), J::S(self.level.into()));
        m.insert("coverage".into(), J::O(cov)); m.insert("wall_s".into(), J::F(self.t0.elapsed().as_secs_f64())); m.insert("violations".into(), J::N(nv));
        let mut asm: Vec<J> = self.assumptions.into_iter().map(J::S).collect();
        asm.push(J::S("default features on x86-64 Linux; built with overflow checks and debug assertions".into()));
        m.insert("assumptions".into(), J::A(asm));
        let mut s = String::new(); J::O(m).out(&mut s); s.push('\n');
        if self.env.o.only.is_none() && self.env.part.is_none() {
            let _ = std::fs::create_dir_all(format!("{}/evidence", v));
            std::fs::write(format!("{}/evidence/{}.json", v, self.id), s).expect("evidence");
        }
        let _ = std::fs::create_dir_all(format!("{}/replays", v));
        let mut known = std::collections::BTreeSet::new(); let mut printed = 0; let pcap: usize = std::env::var("VP_PRINT").ok().and_then(|s| s.parse().ok()).unwrap_or(10);
        for (pn, r, _) in &self.parts { for x in &r.viol {
            if x.known { if known.insert(x.key.clone()) { println!("KNOWN-FINDING: property={} {}", self.id, x.key); } continue; }
            if printed >= pcap { continue; }
            printed += 1;
            let path = format!("{}/replays/{}-{}-{}-{}.json", v, self.id, pn, x.case, x.sub);
            let mut m = BTreeMap::new();
            m.insert("property".into(), J::S(self.id.into())); m.insert("part".into(), J::S(pn.clone())); m.insert("case".into(), J::N(x.case)); m.insert("sub".into(), J::N(x.sub));
            m.insert("key".into(), J::S(x.key.clone())); m.insert("details".into(), J::S(x.details.clone()));
            m.insert("replay".into(), J::S(format!("VERIF_TIER={} bash run.sh {} --part {} --case {} --sub {} -v", self.env.o.tier, self.id, pn, x.case, x.sub)));
            let mut s = String::new(); J::O(m).out(&mut s); s.push('\n'); let _ = std::fs::write(&path, s);
            println!("VIOLATION property={} replay={}", self.id, path);
            println!("  {}", x.key);
            if self.env.o.verbose { println!("{}", x.details); } else if let Some(l) = x.details.lines().next() { println!("  {}", l); }
        } }
        if nv > 0 { if printed == 0 { println!("VIOLATION property={} replay=/dev/null", self.id); } return 1; }
        println!("OK property={} evaluations={} distinct={} wall={:.1}s", self.id, ev, dn, self.t0.elapsed().as_secs_f64());
        0
    }
}

/// A short account of two differing logs.
pub fn diff(got: &[u8], want: &[u8]) -> String {
    let (a, b) = (String::from_utf8_lossy(got).into_owned(), String::from_utf8_lossy(want).into_owned());
    let (x, y): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
    let mut i = 0; while i < x.len() && i < y.len() && x[i] == y[i] { i += 1; }
    let cut = |s: &str| -> String { s.chars().take(300).collect() };
    format!("line {}: got {} | want {}\n--- got\n{}\n--- want\n{}", i + 1, x.get(i).map_or("(end)".into(), |s| cut(s)), y.get(i).map_or("(end)".into(), |s| cut(s)), cut_log(&a), cut_log(&b))
}
fn cut_log(s: &str) -> String { s.lines().take(60).map(|l| l.chars().take(400).collect::<String>()).collect::<Vec<_>>().join("\n") }
