//! C24: what an application may change at any time, also inside handlers.
use crate::chk::*; use crate::drv::*; use crate::ffi::*; use crate::gen::*; use crate::lib; use crate::pool::*; use crate::p_ref::*; use crate::util::*; use crate::*;
use std::os::raw::c_void;
use std::ptr::null;

const SET0: u64 = 25; const OTHER: u64 = 50;
const NACT: u64 = OTHER + 22;
fn act_name(a: u64) -> String { if a < SET0 { format!("unset {}", a) } else if a < OTHER { format!("set {}", a - SET0) } else { ["no default", "no default (expand)", "default", "default expand", "base none", "base b1", "base long", "data 1", "data run", "parser as arg", "ext arg 2", "ext arg parser", "unknown data", "default current", "default current twice", "child", "nested parser", "memory", "options", "own base again", "input context", "base none, then b2"][(a - OTHER) as usize].into() } }
fn apply(r: &mut Run, p: P, act: u64) {
    let a = r.api; let ud = r as *mut Run as *mut c_void; r.last = Txt::None;
    r.log.extend_from_slice(b"! "); push_num(&mut r.log, act as i64);
    if act < SET0 { set_bit(a, p, act as u32, false, ud); } else if act < OTHER { set_bit(a, p, (act - SET0) as u32, true, ud); } else { match act - OTHER {
        d @ 0..=3 => set_default(a, p, d as u8),
        4 => { let x = lib!((a.SetBase)(p, null())); r.n(x as i64); }
        5 => { let x = lib!((a.SetBase)(p, b"b1\0".as_ptr() as CS)); r.n(x as i64); }
        6 => { let l = std::ffi::CString::new("l/".repeat(700)).unwrap(); let x = lib!((a.SetBase)(p, l.as_ptr())); r.n(x as i64); }
        7 => { reg(1 as P, r); lib!((a.SetUserData)(p, 1 as *mut c_void)); }
        8 => lib!((a.SetUserData)(p, ud)),
        9 => { reg(p, r); lib!((a.UseParserAsHandlerArg)(p)); }
        10 => { reg(2 as P, r); lib!((a.SetExternalEntityRefHandlerArg)(p, 2 as *mut c_void)); }
        11 => { reg(p, r); lib!((a.SetExternalEntityRefHandlerArg)(p, std::ptr::null_mut())); }
        12 => { reg(3 as P, r); set_bit(a, p, 16, true, 3 as *mut c_void); }
        13 => { r.nl(); lib!((a.DefaultCurrent)(p)); r.last = Txt::None; r.log.extend_from_slice(b"!."); }
        14 => { r.nl(); lib!((a.DefaultCurrent)(p)); lib!((a.DefaultCurrent)(p)); r.last = Txt::None; r.log.extend_from_slice(b"!."); }
        15 => { r.nl(); let c = lib!((a.ExternalEntityParserCreate)(p, b"e\0".as_ptr() as CS, null())); if !c.is_null() {
                reg(c, r); r.hookdata[7] += 1; r.stack.push(c); r.ext_depth += 1; let st = feed(r, c, b"<x>t</x>&lt;", &[3], Via::Parse, false); r.last = Txt::None; r.log.extend_from_slice(b"!="); r.n(st as i64); r.ext_depth -= 1; r.stack.pop(); r.hookdata[7] -= 1; unreg(c); lib!((a.ParserFree)(c)); } }
        16 => { let mut c = cfg(); c.ns = Some(b'|'); c.ext = vec![(b"e".to_vec(), b"<i>j</i>".to_vec())]; let q = parse(a, &c, b"<!DOCTYPE a [<!ENTITY e SYSTEM 'e'><!ENTITY f 'F'><!ATTLIST a b CDATA 'd' xmlns:p CDATA 'u'>]><a p:q='1' c='&f;'>&e;&f;<![CDATA[x]]></a>", Feed { cuts: &[], via: Via::Buf, fin_empty: false }, &[]); let h = crate::pool::hash(&q.log); r.n((h >> 1) as i64); }
        17 => { let m = lib!((a.MemMalloc)(p, 40)); let m = lib!((a.MemRealloc)(p, m, 4000)); r.n(!m.is_null() as i64); lib!((a.MemFree)(p, m)); lib!((a.MemFree)(p, std::ptr::null_mut())); }
        18 => { let e = b"utf-16\0".as_ptr() as CS; let v = [lib!((a.SetEncoding)(p, e)) as i64, lib!((a.UseForeignDTD)(p, 1)) as i64, lib!((a.SetParamEntityParsing)(p, 2)) as i64]; lib!((a.SetReturnNSTriplet)(p, 1)); lib!((a.SetHashSalt)(p, 99)); for x in v { r.n(x); } }
        19 => { let b = lib!((a.GetBase)(p)); let x = lib!((a.SetBase)(p, b)); r.n(x as i64); }
        20 => { let (mut o, mut z) = (-7, -7); let c = lib!((a.GetInputContext)(p, &mut o, &mut z)); if !c.is_null() { r.n(o as i64); let e = unsafe { std::slice::from_raw_parts((c as *const u8).add(o as usize), (z - o) as usize) }.to_vec(); r.log.push(b' '); r.bytes(&e); } }
        _ => { let x = lib!((a.SetBase)(p, null())); r.n(x as i64); let x = lib!((a.SetBase)(p, b"b2\0".as_ptr() as CS)); r.n(x as i64); }
    } }
    let b = lib!((a.GetBase)(p)); r.s(b); r.log.push(b' '); let u = unsafe { *(p as *const usize) }; r.tag_of(u, p as usize); r.nl();
}
/// hookdata: event, action, event, action, target (0 the parser itself, 1 the outermost), -, -, busy
fn hook(r: &mut Run, _tag: &str) {
    if r.hookdata[7] != 0 { return; }
    let i = r.nev - 1;
    for k in [0, 2] { if r.hookdata[k] == i { let a = r.hookdata[k + 1]; if r.hookdata[4] == 1 && r.stack.len() < 2 { continue; } let p = if r.hookdata[4] == 1 { r.stack[0] } else { r.p() }; apply(r, p, a); } }
}
const NEVER: u64 = u64::MAX;
/// A run with up to two changes made in handlers, or (cut given) between two pieces of the input.
fn with(api: &'static Api, cf: &Cfg, doc: &[u8], f: Feed, plan: [(u64, u64); 2], outer: bool, between: Option<(usize, u64)>) -> Box<Run> {
    let mut r = Run::new(api, cf); r.raw = true; r.argtags = true; r.hook = Some(hook);
    r.hookdata = [plan[0].0, plan[0].1, plan[1].0, plan[1].1, outer as u64, 0, 0, 0];
    let p = create(&mut r); assert!(!p.is_null());
    let me = &mut *r as *mut Run; reg(p, me);
    let st = match between {
        None => feed(&mut r, p, doc, f.cuts, f.via, f.fin_empty),
        Some((at, act)) => { let st = chunk(&mut r, p, &doc[..at], false, f.via); if st != 1 { st } else { apply(&mut r, p, act); chunk(&mut r, p, &doc[at..], true, f.via) } }
    };
    finish(&mut r, p, st); free(&mut r, p);
    for x in 1..4 { unreg(x as P); } unreg(p);
    r
}
/// The end of an empty element is behind it when its start has been reported; the reference looks whether
/// there (still) is a handler for starts, which that handler may just have removed.
fn end_place(a: &[u8], b: &[u8], plan: [(u64, u64); 2]) -> bool {
    if !plan.iter().any(|p| p.0 != NEVER && matches!(p.1 % SET0, 0 | 17 | 18)) { return false; }
    let (x, y) = (lines(a), lines(b)); x.len() == y.len() && x.iter().zip(&y).enumerate().all(|(i, (l, m))| l == m || (belongs(l, 18) && belongs(m, 18) || belongs(l, 24) && belongs(m, 24)) && split_pos(l, true).1 == split_pos(m, true).1)
}
fn is_event(l: &[u8]) -> bool { let x = bare(l); !(x.starts_with(b"END") || x.starts_with(b"!")) && !split_pos(l, true).1.starts_with(b"@u XEND") && !split_pos(l, true).1.contains_tag(b"XEND") }
trait Tag { fn contains_tag(&self, t: &[u8]) -> bool; }
impl Tag for [u8] { fn contains_tag(&self, t: &[u8]) -> bool { tag_at(self).starts_with(t) } }
/// The event of a line, without position and argument.
fn tag_at(x: &[u8]) -> &[u8] { if x.first() == Some(&b'@') { match x.iter().position(|&c| c == b' ') { Some(i) => &x[i + 1..], None => x } } else { x } }
/// Which bit (or half) an event belongs to.
fn belongs(l: &[u8], b: u64) -> bool {
    let t = tag_at(split_pos(l, true).1); let w = t.split(|&c| c == b' ').next().unwrap();
    let one = |x: &[u8]| w == x;
    match b { 0 => one(b"S") || one(b"E"), 1 => one(b"T"), 2 => one(b"PI"), 3 => one(b"C"), 4 => one(b"CD[") || one(b"]CD"), 5 => one(b"DT[") || one(b"]DT"), 7 => one(b"NOT"), 8 => one(b"NS+") || one(b"NS-"), 11 => one(b"SKIP"), 12 => one(b"EL"), 13 => one(b"ATT"), 14 => one(b"ENT"), 15 => one(b"XD"), 17 => one(b"S"), 18 => one(b"E"), 19 => one(b"CD["), 20 => one(b"]CD"), 21 => one(b"DT["), 22 => one(b"]DT"), 23 => one(b"NS+"), 24 => one(b"NS-"), _ => false }
}
fn without_marks(log: &[u8]) -> Vec<u8> { let mut v = vec![]; for l in lines(log) { if !bare(l).starts_with(b"!") { v.extend_from_slice(l); v.push(b'\n'); } } v }
fn full_end(log: &[u8]) -> &[u8] { let i = log[..log.len() - 1].iter().rposition(|&c| c == b'\n').map_or(0, |i| i + 1); &log[i..] }
/// The verdict, with the place of an error.
fn verdict(log: &[u8]) -> &[u8] { let e = full_end(log); if e.starts_with(b"END 1") { b"END 1" } else { e } }
/// The name of a document type is kept for the handler only if there is one when it is read.
fn both_names(b: u64) -> bool { b == 5 || b == 21 }
/// The handlers whose presence has no effect on anything but their own calls when there is no default handler.
const SILENT: &[u64] = &[0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 13, 14, 15, 17, 18, 19, 20, 21, 22, 23, 24];
pub fn c24(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C24", "exploration"); let th = env.thorough();
    let c = docs();
    // one change at every event, against the other implementation given the same change
    k.part("one-change", c.len() as u64, &|cx, case| {
        let d = &c[case as usize]; let mut sub = 0; cx.sample(|| show(&d.doc, &d.cfg));
        for df in [Dflt::No, Dflt::Default, Dflt::Expand] { for outer in [false, true] { if outer && (d.cfg.ext.is_empty() || df != Dflt::No) { continue; }
            let mut cf = d.cfg.clone(); cf.pos = true; cf.dflt = df;
            let n = parse_raw(env.rx, &cf, &d.doc).nev.min(if th { 400 } else { 60 });
            for i in 0..n { for a in 0..NACT { let plan = [(i, a), (NEVER, 0)];
                sub += 1; if !cx.begin(sub, 1, &d.doc) { continue; }
                one(cx, env, &cf, d, WHOLE, plan, outer, None);
            } }
        } }
    });
    // the same without a reference: what remains of the complete run
    k.part("alone", c.len() as u64, &|cx, case| {
        let d = &c[case as usize]; let mut sub = 0;
        let mut cf = d.cfg.clone(); cf.pos = true; cf.dflt = Dflt::No; if cf.mask & h::CORE != h::CORE || !cf.ext.is_empty() && !cf.ext.iter().all(|_| cf.mask & h::EXTREF == 0) { return; }
        let full = parse_raw(env.rx, &cf, &d.doc); let fl = lines(&full.log);
        for &b in SILENT {
            for i in 0..full.nev { // removed in the i-th call
                sub += 1; if !cx.begin(sub, 1, &d.doc) { continue; }
                let r = with(env.rx, &cf, &d.doc, WHOLE, [(i, b), (NEVER, 0)], false, None); cx.add(0, 1); cx.outcome(&r.log);
                let mut want = vec![]; let mut n = 0;
                for l in &fl { if n <= i || !belongs(l, b) { want.extend_from_slice(l); want.push(b'\n'); } if is_event(l) { n += 1; } }
                let got = without_marks(&r.log);
                if got != want && !end_place(&got, &want, [(i, b), (NEVER, 0)]) { cx.violation(&format!("{} in call {} of {}", act_name(b), i, show(&d.doc, &cf)), &diff(&got, &want)); }
            }
            // set in the i-th call of a run without it
            let mut c0 = cf.clone(); c0.mask &= !if b < 17 { 1 << b } else { 0 }; if b >= 17 { c0.mask |= [h::NO_START, h::NO_END, h::NO_SCD, h::NO_ECD, h::NO_SDT, h::NO_EDT, h::NO_SNS, h::NO_ENS][b as usize - 17]; }
            let less = parse_raw(env.rx, &c0, &d.doc);
            for i in 0..less.nev {
                sub += 1; if !cx.begin(sub, 2, &d.doc) { continue; }
                let r = with(env.rx, &c0, &d.doc, WHOLE, [(i, SET0 + b), (NEVER, 0)], false, None); cx.add(0, 1); cx.outcome(&r.log);
                let mut want = vec![]; let mut n = 0;
                for l in &fl { if n > i || !belongs(l, b) { want.extend_from_slice(l); want.push(b'\n'); } if is_event(l) && !belongs(l, b) { n += 1; } }
                let got = without_marks(&r.log);
                if got != want && !both_names(b) && !end_place(&got, &want, [(i, b), (NEVER, 0)]) { cx.violation(&format!("{} in call {} of {}", act_name(SET0 + b), i, show(&d.doc, &cf)), &diff(&got, &want)); }
                else if got != want { let f = |l: &[u8]| -> Vec<u8> { let mut v = vec![]; for x in lines(l) { if !belongs(x, 5) { let x = split_pos(x, true).1; v.extend_from_slice(x); v.push(b'\n'); } } v }; if f(&got) != f(&want) { cx.violation(&format!("{} in call {} of {}", act_name(SET0 + b), i, show(&d.doc, &cf)), &diff(&got, &want)); } }
            }
        }
    });
    // two changes: something taken away and given back, or given and taken away
    let toggles: Vec<(u64, u64)> = (0..25u64).flat_map(|b| [(b, b + SET0), (b + SET0, b)]).chain([(OTHER, OTHER + 2), (OTHER, OTHER + 3), (OTHER + 3, OTHER), (OTHER + 2, OTHER + 3), (OTHER + 3, OTHER + 2), (OTHER + 5, OTHER + 4), (OTHER + 6, OTHER + 5), (OTHER + 5, OTHER + 21), (OTHER + 6, OTHER + 19), (OTHER + 7, OTHER + 8), (OTHER + 9, OTHER + 7), (OTHER + 9, OTHER + 8), (OTHER + 10, OTHER + 11), (OTHER + 12, 16), (OTHER + 5, OTHER + 16), (OTHER + 13, OTHER + 2)]).collect();
    k.part("two-changes", c.len() as u64, &|cx, case| {
        let d = &c[case as usize]; let mut sub = 0;
        for df in [Dflt::No, Dflt::Default, Dflt::Expand] {
            let mut cf = d.cfg.clone(); cf.pos = true; cf.dflt = df;
            let n = parse_raw(env.rx, &cf, &d.doc).nev.min(if th { 60 } else { 22 });
            for i in 0..n { for j in i..n { for &(a, b) in &toggles { sub += 1; if cx.begin(sub, 1, &d.doc) { one(cx, env, &cf, d, WHOLE, [(i, a), (j, b)], false, None); } } } }
        }
    });
    // the input in single bytes
    k.part("bytewise", c.len() as u64, &|cx, case| {
        let d = &c[case as usize]; let mut sub = 0; if d.doc.len() > 400 { return; }
        for df in [Dflt::No, Dflt::Expand] { for via in [Via::Parse, Via::Buf] {
            let mut cf = d.cfg.clone(); cf.pos = true; cf.dflt = df; cf.ext_chunk = 1; let cuts: Vec<usize> = (1..d.doc.len()).collect(); let f = Feed { cuts: &cuts, via, fin_empty: true };
            let n = with(env.rx, &cf, &d.doc, f, [(NEVER, 0), (NEVER, 0)], false, None).nev.min(if th { 400 } else { 60 });
            for i in 0..n { for a in 0..NACT { if a == OTHER + 16 && via == Via::Parse { continue; } sub += 1; if cx.begin(sub, 1, &d.doc) { one(cx, env, &cf, d, f, [(i, a), (NEVER, 0)], false, None); } } }
        } }
    });
    // between two pieces of the input, from every set of handlers
    let masks: &[u32] = &[h::CORE, 0, h::ELEM, h::CDATA, h::DOCTYPE | h::EXTREF, h::ENTDECL | h::ATTDECL, h::CORE & !h::ELEM, h::CORE & !h::CDATA, h::CORE & !h::DOCTYPE, h::NSDECL | h::COMMENT, h::CORE & !h::EXTREF, h::ALL & !h::ENTDECL];
    k.part("between", c.len() as u64, &|cx, case| {
        let d = &c[case as usize]; let mut sub = 0; if d.doc.len() > 600 { return; }
        for &m in masks { for df in [Dflt::No, Dflt::Expand] { let mut cf = d.cfg.clone(); cf.pos = true; cf.dflt = df; cf.mask = m;
            for i in 0..=d.doc.len() { if m != h::CORE && !th && (i + case as usize) % 3 != 0 { continue; } for a in 0..NACT { if a == OTHER + 13 || a == OTHER + 14 || a > OTHER + 14 && m != h::CORE { continue; } // (events are passed on in handlers)
                if i == 0 && (a == OTHER + 18 || a == OTHER + 20) { continue; } // (options may be set before the start: they have an effect; nor is there any context)
                sub += 1; if cx.begin(sub, 1, &d.doc) { one(cx, env, &cf, d, Feed { cuts: &[], via: if i % 2 == 0 { Via::Parse } else { Via::Buf }, fin_empty: false }, [(NEVER, 0), (NEVER, 0)], false, Some((i, a))); } } }
        } }
    });
    // long tokens that are reported in several pieces
    let sh = shapes();
    k.part("pieces", sh.len() as u64, &|cx, case| {
        let mut sub = 0;
        for n in if th { vec![900, 1500, 2600] } else { vec![1100] } { let d0 = sh[case as usize].1(n); let t = match std::str::from_utf8(&d0.doc) { Ok(t) => t, Err(_) => continue }; if !d0.cfg.ext.is_empty() || d0.cfg.enc.is_some() || t.len() > 40_000 { continue; }
            for enc in ["UTF-8", "UTF-16LE", "UTF-16BE", "ISO-8859-1"] { let doc = match reencode(t, enc) { Some(b) => b, None => continue };
                let d = D { name: d0.name.clone(), doc, cfg: { let mut c = d0.cfg.clone(); c.enc = Some(enc); c } };
                for df in [Dflt::No, Dflt::Default, Dflt::Expand] { for m in [h::CORE, h::ELEM | h::CDATA, h::ELEM, 0] { let mut cf = d.cfg.clone(); cf.pos = true; cf.dflt = df; cf.mask = m;
                    let nev = with(env.rx, &cf, &d.doc, WHOLE, [(NEVER, 0), (NEVER, 0)], false, None).nev.min(if th { 40 } else { 9 });
                    for i in 0..nev { for a in [0, 1, 3, 4, SET0, SET0 + 1, SET0 + 3, SET0 + 4, OTHER, OTHER + 2, OTHER + 3, OTHER + 7, OTHER + 9, OTHER + 13, OTHER + 16] {
                        sub += 1; if !cx.begin(sub, 1, &d.doc[..d.doc.len().min(200)]) { continue; }
                        if df != Dflt::No && a == OTHER || a == 1 || a == SET0 + 1 { // the reference reports (and crashes) through the handler it had at the start of the token
                            let live0 = live(); let r = with(env.rx, &cf, &d.doc, WHOLE, [(i, a), (NEVER, 0)], false, None); cx.add(0, 1); cx.outcome(&r.log); if let Some(m) = mem_bad(&r, live0) { cx.violation(&format!("pieces {} {} event {} {}", d.name, enc, i, act_name(a)), &m); }
                            let gone: &[u8] = if a == OTHER { b"D " } else { b"T " }; let mut seen = false;
                            for l in lines(&r.log) { if l.starts_with(b"! ") { seen = true; } else if seen && a != SET0 + 1 && tag_at(split_pos(l, true).1).starts_with(gone) { cx.violation(&format!("pieces {} {} event {} {}: still called", d.name, enc, i, act_name(a)), &s(l)); } }
                            if verdict(&r.log) != verdict(&parse_raw(env.rx, &cf, &d.doc).log) { cx.violation(&format!("pieces {} {} event {} {}: another end", d.name, enc, i, act_name(a)), &s(full_end(&r.log))); }
                        } else { one(cx, env, &cf, &d, WHOLE, [(i, a), (NEVER, 0)], false, None); }
                    } }
                } }
            }
        }
    });
    k.finish("every change at every event (or pair of events, or cut) of every document; one evaluation is one run compared with the reference given the same changes, or with the run without the change; distinct = distinct logs")
}
fn parse_raw(api: &'static Api, cf: &Cfg, doc: &[u8]) -> Box<Run> { with(api, cf, doc, WHOLE, [(NEVER, 0), (NEVER, 0)], false, None) }
fn one(cx: &mut Ctx, env: &Env, cf: &Cfg, d: &D, f: Feed, plan: [(u64, u64); 2], outer: bool, between: Option<(usize, u64)>) {
    static WARM: std::sync::Once = std::sync::Once::new(); WARM.call_once(|| drop(parse(env.rx, &cfg(), b"<a/>", WHOLE, &[]))); // whatever the library sets up once
    let live0 = live();
    let a = with(env.rx, cf, &d.doc, f, plan, outer, between);
    let m = mem_bad(&a, live0);
    cx.add(0, 1); cx.outcome(&a.log);
    let what = || { let mut t = String::new(); for (e, x) in plan { if e != NEVER { t.push_str(&format!("event {}: {}; ", e, act_name(x))); } } if let Some((at, x)) = between { t.push_str(&format!("at {}: {}; ", at, act_name(x))); } if outer { t.push_str("outer "); } format!("{}{} {:?} {}", t, d.name, cf.dflt, show(&d.doc, cf)) };
    if let Some(m) = m { cx.violation(&what(), &m); }
    if let Some(n) = a.notes.first() { cx.violation(&what(), n); }
    // (the reference calls the start-of-doctype handler when that has been removed since the doctype's name)
    if d.name.contains("cdsect") && plan.iter().any(|p| p.0 != NEVER && (p.1 == OTHER + 13 || p.1 == OTHER + 14)) && d.doc.len() > 900 { return; } // (the reference passes on the same characters again with each piece)
    if plan.iter().any(|p| p.0 != NEVER && (p.1 == 5 || p.1 == 21)) || between.map_or(false, |b| b.1 == 5 || b.1 == 21) { return; }
    let b = with(env.ex, cf, &d.doc, f, plan, outer, between);
    if !b.notes.is_empty() { return; } // the reference passed on a piece of negative length
    if a.log != b.log && !end_place(&a.log, &b.log, plan) && !async_excuse(&a.log, &b.log) && !rsqb_excuse(&a.log, &b.log, cf) { cx.violation(&what(), &diff(&a.log, &b.log)); }
}
