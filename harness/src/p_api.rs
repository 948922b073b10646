//! The interface as a state machine (C14), independence of parsers (C17), changes of handlers (C24).
use crate::chk::*; use crate::drv::*; use crate::ffi::*; use crate::gen::*; use crate::lib; use crate::pool::*; use crate::p_pos::*; use crate::p_ref::*; use crate::util::*; use crate::*;
use std::os::raw::{c_char, c_int};
use std::ptr::{null, null_mut};

// ---------------------------------------------------------------- C14
const PIECES: &[&[u8]] = &[b"<!DOCTYPE a [<!ENTITY e SYSTEM 'e'>]><a xml:lang='l'>x", b"<b/>&e;y", b"</a>"];
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { Next, NextFin, NextBuf, NextBufFin, Empty, EmptyFin, Bad, NullData, NegLen, GetBuf, GetBufNeg, BufNeg, BufNone, Suspend, Abort, Resume, Reset, SetEnc, SetEncBad, Foreign, Pe, Salt, Triplet, Base, Child, Half }
const OPS: &[Op] = &[Op::Next, Op::NextFin, Op::Suspend, Op::Abort, Op::Resume, Op::NextBuf, Op::EmptyFin, Op::Bad, Op::Reset, Op::SetEnc, Op::Pe, Op::Foreign, Op::GetBuf, Op::Half, Op::NextBufFin, Op::Empty, Op::SetEncBad, Op::BufNeg, Op::NullData, Op::NegLen, Op::GetBufNeg, Op::Salt, Op::Triplet, Op::Base, Op::Child, Op::BufNone];
/// What the handlers do: at every start of element `b` (or every event), this.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Act2 { None, Suspend, Abort, SuspendTwice, SuspendAbort, AbortSuspend, ResumeIn, SetOptions, ChildIn, SuspendAll, Queries }
const ACTS: &[Act2] = &[Act2::None, Act2::Suspend, Act2::Abort, Act2::SuspendTwice, Act2::SuspendAbort, Act2::AbortSuspend, Act2::ResumeIn, Act2::SetOptions, Act2::ChildIn, Act2::SuspendAll, Act2::Queries];
fn status(r: &mut Run, p: P) { let a = r.api; let mut st = PStatus::default(); lib!((a.GetParsingStatus)(p, &mut st)); let ec = lib!((a.GetErrorCode)(p)); r.n(st.parsing as i64); r.n(if st.parsing == 0 { 0 } else { (st.final_ != 0) as i64 }); r.n(ec as i64); }
fn api_hook(r: &mut Run, tag: &str) {
    let act = ACTS[r.hookdata[0] as usize]; let (p, a) = (r.p(), r.api);
    if r.hookdata[2] == 1 { // inside external entities: at every event there
        if act == Act2::None || r.ext_depth == 0 || r.hookdata[3] > 6 { return; }
        r.hookdata[3] += 1;
    } else {
        if act == Act2::None || r.ext_depth > 0 { return; }
        if act != Act2::SuspendAll && tag != "S" { return; }
    }
    let stop = |r: &mut Run, s: u8| { let x = lib!((a.StopParser)(p, s)); r.log.extend_from_slice(b" stop"); r.n(s as i64); r.n(x as i64); status(r, p); r.nl(); };
    match act {
        Act2::Suspend | Act2::SuspendAll => stop(r, 1), Act2::Abort => stop(r, 0),
        Act2::SuspendTwice => { stop(r, 1); stop(r, 1); } Act2::SuspendAbort => { stop(r, 1); stop(r, 0); } Act2::AbortSuspend => { stop(r, 0); stop(r, 1); stop(r, 0); }
        Act2::ResumeIn => { let x = lib!((a.ResumeParser)(p)); let mut st = PStatus::default(); lib!((a.GetParsingStatus)(p, &mut st)); let ec = lib!((a.GetErrorCode)(p));
            if a.is_rexpat && ec != 34 { r.notes.push(format!("resumption in a handler of a running parser left error {}", ec)); } // the newer reference answers differently here
            r.log.extend_from_slice(b" resume"); r.n(x as i64); r.n(st.parsing as i64); r.nl(); }
        Act2::SetOptions => {
            let u = std::ffi::CString::new("UTF-8").unwrap();
            let v = [lib!((a.SetEncoding)(p, u.as_ptr())) as i64, lib!((a.UseForeignDTD)(p, 1)) as i64, lib!((a.SetParamEntityParsing)(p, 1)) as i64, { lib!((a.SetHashSalt)(p, 3)); 0 }, lib!((a.SetBase)(p, u.as_ptr())) as i64];
            lib!((a.SetReturnNSTriplet)(p, 1)); r.log.extend_from_slice(b" set"); for x in v { r.n(x); } let b = lib!((a.GetBase)(p)); r.s(b); status(r, p); r.nl();
        }
        Act2::ChildIn => { let c = lib!((a.ExternalEntityParserCreate)(p, b"e\0".as_ptr() as CS, null())); r.log.extend_from_slice(b" child"); r.n(!c.is_null() as i64); if !c.is_null() { status(r, c); let x = lib!((a.ParserReset)(c, null())); r.n(x as i64); lib!((a.ParserFree)(c)); } status(r, p); r.nl(); }
        Act2::Queries => { let v = [lib!((a.GetSpecifiedAttributeCount)(p)) as i64, if tag == "S" { lib!((a.GetIdAttributeIndex)(p)) as i64 } else { 0 }, lib!((a.GetCurrentByteCount)(p)) as i64]; r.log.extend_from_slice(b" q"); for x in v { r.n(x); } status(r, p); r.nl(); }
        Act2::None => {}
    }
}
/// Our own model of the interface's states: what each call may answer.
#[derive(Clone, Copy, PartialEq, Debug, Hash, Eq)]
enum Ps { Init, Parsing, Finished, Suspended }
fn seq_run(api: &'static Api, cf: &Cfg, ops: &[Op], act: usize, model: Option<&mut Vec<String>>, sts: &mut Vec<Vec<u8>>) -> Box<Run> {
    let mut r = Run::new(api, cf); r.hook = Some(api_hook); r.hookdata[0] = act as u64; r.raw = true;
    let a = api; let p = create(&mut r); let mut at = 0usize; let mut bad: Vec<String> = vec![];
    let mut cur: &[u8] = PIECES[0];
    let utf = std::ffi::CString::new("UTF-8").unwrap(); let nope = std::ffi::CString::new("nope").unwrap();
    let mut failed = false;
    for (i, &op) in ops.iter().enumerate() {
        let mut s0 = PStatus::default(); lib!((a.GetParsingStatus)(p, &mut s0)); let e0 = lib!((a.GetErrorCode)(p)); let ev0 = r.nev; let st0 = s0.parsing;
        if st0 == 0 && matches!(op, Op::Suspend | Op::Abort) || (op == Op::Empty || op == Op::Half && cur.len() <= 1) && (e0 != 0 || ops[..i].contains(&Op::SetEncBad)) { r.hookdata[1] = 1; } // the newer reference refuses to stop a parser that has not started, and does not accept an empty piece after an error
        r.last = Txt::None; r.log.extend_from_slice(format!("{:?}", op).as_bytes());
        r.log.push(b'\n');
        let nothing = op == Op::Empty || op == Op::Half && cur.len() <= 1;
        let mut next = |r: &mut Run, at: &mut usize, fin: bool, via: Via| -> c_int { let d = cur; let x = chunk(r, p, d, fin, via); if x == 1 || x == 2 { *at += 1; cur = PIECES.get(*at).copied().unwrap_or(b" "); } x };
        let x: i64 = match op {
            Op::Next => next(&mut r, &mut at, false, Via::Parse) as i64, Op::NextFin => next(&mut r, &mut at, true, Via::Parse) as i64,
            Op::NextBuf => next(&mut r, &mut at, false, Via::Buf) as i64, Op::NextBufFin => next(&mut r, &mut at, true, Via::Buf) as i64,
            Op::Half => { if cur.len() > 1 { let h = cur.len() / 2; let x = chunk(&mut r, p, &cur[..h], false, Via::Parse); if x == 1 || x == 2 { cur = &cur[h..]; } x as i64 } else { lib!((a.Parse)(p, cur.as_ptr() as CS, 0, 0)) as i64 } }
            Op::Empty => chunk(&mut r, p, b"", false, Via::Parse) as i64, Op::EmptyFin => chunk(&mut r, p, b"", true, Via::Parse) as i64,
            Op::Bad => chunk(&mut r, p, b"<<", false, Via::Parse) as i64,
            Op::NullData => lib!((a.Parse)(p, null(), 5, 0)) as i64, Op::NegLen => lib!((a.Parse)(p, b"x".as_ptr() as CS, -1, 0)) as i64,
            Op::GetBuf => !lib!((a.GetBuffer)(p, 3000)).is_null() as i64, Op::GetBufNeg => !lib!((a.GetBuffer)(p, -1)).is_null() as i64,
            Op::BufNeg => lib!((a.ParseBuffer)(p, -1, 0)) as i64, Op::BufNone => { lib!((a.GetBuffer)(p, 1)); lib!((a.ParseBuffer)(p, 0, 0)) as i64 }
            Op::Suspend => lib!((a.StopParser)(p, 1)) as i64, Op::Abort => lib!((a.StopParser)(p, 0)) as i64, Op::Resume => lib!((a.ResumeParser)(p)) as i64,
            Op::Reset => { let x = lib!((a.ParserReset)(p, null())) as i64; if !a.is_rexpat { unsafe { if let Some(f) = REPARSE { f(p, 0); } } } setup(&mut r, p, false); at = 0; cur = PIECES[0]; x }
            Op::SetEnc => lib!((a.SetEncoding)(p, utf.as_ptr())) as i64, Op::SetEncBad => lib!((a.SetEncoding)(p, nope.as_ptr())) as i64,
            Op::Foreign => lib!((a.UseForeignDTD)(p, 1)) as i64, Op::Pe => lib!((a.SetParamEntityParsing)(p, 2)) as i64, Op::Salt => { let x = lib!((a.SetHashSalt)(p, 7)); if a.is_rexpat && x != 0 && st0 & 1 == 1 { r.notes.push("a salt is accepted while parsing".into()); } 0 }
            Op::Triplet => { lib!((a.SetReturnNSTriplet)(p, 1)); 0 } Op::Base => lib!((a.SetBase)(p, utf.as_ptr())) as i64,
            Op::Child => { let c = lib!((a.ExternalEntityParserCreate)(p, b"e\0".as_ptr() as CS, null())); if !c.is_null() { lib!((a.ParserFree)(c)); } !c.is_null() as i64 }
        };
        r.last = Txt::None; r.log.extend_from_slice(b" ="); r.n(x); status(&mut r, p); { let b = lib!((a.GetBase)(p)); r.s(b); } r.nl();
        if model.is_none() { continue; }
        // what the documentation promises, whatever the input was
        let mut s1 = PStatus::default(); lib!((a.GetParsingStatus)(p, &mut s1)); let e1 = lib!((a.GetErrorCode)(p)); let st1 = s1.parsing; let calls = r.nev - ev0;
        let mut need = |c: bool, t: &str| if !c { bad.push(format!("op {} {:?} in state {} error {}: {} (answer {} state {} error {} calls {})", i, op, st0, e0, t, x, st1, e1, calls)) };
        let parse = matches!(op, Op::Next | Op::NextFin | Op::NextBuf | Op::NextBufFin | Op::Half | Op::Empty | Op::EmptyFin | Op::Bad | Op::BufNone); let fin = matches!(op, Op::NextFin | Op::NextBufFin | Op::EmptyFin);
        if parse {
            match st0 {
                3 => { need(x <= 0 && e1 == 33 && st1 == 3 && calls == 0, "input while suspended"); }
                2 => { need(x <= 0 && e1 == 36 && st1 == 2 && calls == 0, "input after the end"); }
                _ if failed => { need((x <= 0 || nothing) && calls == 0, "input after a failure"); }
                _ => { match x { 1 => need(st1 == if fin { 2 } else { 1 } && (e1 == 0 || nothing), "accepted"), 2 => need(st1 == 3, "suspended"), _ => need(e1 != 0 && (st1 == 1 || st1 == 2 || st1 == 3 && ACTS[act] == Act2::SuspendAll), "failed") }
                    if st1 == 2 && x == 0 { need(e1 == 35, "aborted") } if x == 0 { failed = true; } if calls == 0 && x == 1 { need(st1 != 3, "no call, no stop") } }
            }
        }
        match op {
            Op::NullData | Op::NegLen => need(x == 0 && e1 == 41 && st1 == st0 && calls == 0, "invalid argument"), Op::BufNeg => need(x == 0 && st1 == st0 && calls == 0 && e1 != 0, "invalid length"),
            Op::GetBufNeg => need(x == 0 && e1 == 1 && st1 == st0, "no such buffer"), Op::GetBuf => need(if st0 == 3 { x == 0 && e1 == 33 } else if st0 == 2 { x == 0 && e1 == 36 } else { x == 1 && e1 == e0 } && st1 == st0, "buffer"),
            Op::Suspend => need(match st0 { 3 => x == 0 && e1 == 33 && st1 == 3, 2 => x == 0 && e1 == 36 && st1 == 2, _ => x == 1 && st1 == 3 && e1 == e0 }, "suspension"),
            Op::Abort => need(match st0 { 2 => x == 0 && e1 == 36 && st1 == 2, _ => x == 1 && st1 == 2 && e1 == e0 }, "abort"),
            Op::Resume => { need(if st0 == 3 { x == 0 || x == 1 && st1 != 3 && e1 == 0 || x == 2 && st1 == 3 } else { x == 0 && e1 == 34 && st1 == st0 && calls == 0 }, "resumption"); if st0 == 3 && x == 0 { failed = true; } }
            Op::Reset => { need(x == 1 && st1 == 0 && e1 == 0 && calls == 0, "reset"); failed = false; }
            Op::SetEnc | Op::SetEncBad => need(x == if st0 == 1 || st0 == 3 { 0 } else { 1 } && st1 == st0 && e1 == e0, "encoding"),
            Op::Foreign => need(x == if st0 == 1 || st0 == 3 { 26 } else { 0 } && st1 == st0 && e1 == e0, "foreign DTD"),
            Op::Salt => need(st1 == st0 && e1 == e0, "option"), Op::Pe => need(x == if st0 == 1 || st0 == 3 { 0 } else { 1 } && st1 == st0 && e1 == e0, "option"),
            Op::Triplet => need(st1 == st0 && e1 == e0, "triplet"), Op::Base => need(x == 1 && st1 == st0 && e1 == e0, "base"), Op::Child => need(x == 1 && st1 == st0 && e1 == e0, "child"),
            _ => {}
        }
        sts.push(vec![st0 as u8, s0.final_, failed as u8, at as u8, e0 as u8, OPS.iter().position(|o| *o == op).unwrap() as u8, act as u8]);
    }
    free(&mut r, p);
    bad.extend(r.notes.iter().cloned());
    if let Some(m) = model { *m = bad; }
    r
}
pub fn c14(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C14", "model_checking"); let th = env.thorough();
    let base = { let mut c = cfg(); c.ns = Some(b'!'); c.ext = vec![(b"e".to_vec(), b"<i/>".to_vec())]; c.dflt = Dflt::No; c };
    let nop = OPS.len() as u64;
    // calls in every order
    for (na, depth, nops) in [(ACTS.len() as u64, 4, nop), (1, if th { 6 } else { 5 }, 16), (4, if th { 7 } else { 5 }, 14)] {
        let n = nseq(nops, depth); const B: u64 = 128;
        k.part(&format!("calls-d{}-{}-{}", depth, nops, na), (n + B - 1) / B, &|cx, case| {
            drop(parse(env.rx, &base, b"<a/>", WHOLE, &[])); // whatever the library sets up once
            for i in case * B..((case + 1) * B).min(n) { for act in 0..na {
                let ops: Vec<Op> = seq_at(i, nops).into_iter().map(|x| OPS[x]).collect();
                if !cx.begin(i * na + act, act, format!("{:?}", ops).as_bytes()) { continue; }
                let mut bad = vec![]; let mut sts = vec![];
                let live0 = live();
                let a = seq_run(env.rx, &base, &ops, act as usize, Some(&mut bad), &mut sts);
                cx.add(0, 1); cx.add(1, ops.len() as u64); cx.add(2, 1); cx.outcome(&a.log); for s in sts { cx.state(&s); }
                if let Some(m) = mem_bad(&a, live0) { bad.push(m); }
                if let Some(b) = bad.first() { cx.violation(&format!("calls {:?} in handlers {:?}", ops, ACTS[act as usize]), &format!("{}\n{}", b, s(&a.log))); }
                if ops.starts_with(&[Op::Suspend, Op::Resume]) || ops.starts_with(&[Op::GetBuf, Op::Suspend, Op::Resume]) { // stopping and resuming before the start changes nothing
                    let mut o = vec![Op::Empty]; o.extend_from_slice(&ops[if ops[0] == Op::GetBuf { 3 } else { 2 }..]); let b = seq_run(env.rx, &base, &o, act as usize, None, &mut vec![]);
                    let f = |l: &[u8], n: usize| { let mut l = l; let mut k = 0; while k < n { match l.iter().position(|&c| c == b'\n') { Some(i) => l = &l[i + 1..], None => break } k += 1; } l.to_vec() };
                    let (x, y) = (f(&a.log, 2 * (ops.len() - o.len() + 1)), f(&b.log, 2));
                    if x != y { cx.violation(&format!("calls {:?} in handlers {:?} start", ops, ACTS[act as usize]), &diff(&x, &y)); }
                }
                if a.hookdata[1] != 0 || ops.iter().position(|o| *o == Op::GetBuf).map_or(false, |i| ops[i..].contains(&Op::Suspend)) { continue; } // (the reference crashes)
                let b = seq_run(env.ex, &base, &ops, act as usize, None, &mut vec![]);
                if a.log != b.log && !excused(&a.log, &b.log) { cx.violation(&format!("calls {:?} in handlers {:?} reference", ops, ACTS[act as usize]), &diff(&a.log, &b.log)); }
                if case % 211 == 0 { cx.sample(|| format!("{:?} {:?}", ops, ACTS[act as usize])); }
            } }
        });
    }
    // the same inside the parsers of external entities
    let kids: Vec<(&'static [u8], &'static [u8])> = vec![
        (b"<!DOCTYPE a [<!ENTITY e SYSTEM 'e'>]><a>&e;x</a>", b"<i xml:lang='l'>t</i>u"), (b"<!DOCTYPE a [<!ENTITY % e SYSTEM 'e'>%e;]><a>&g;</a>", b"<!ENTITY g 'G'><!ATTLIST a b CDATA 'c'><?p q?>"),
        (b"<!DOCTYPE a SYSTEM 'e'><a>&g;</a>", b"<!ELEMENT a ANY><!ENTITY g 'G'><!--c-->"), (b"<!DOCTYPE a SYSTEM 'e' [<!ENTITY f SYSTEM 'f'>]><a>&g;&f;</a>", b"<!ENTITY % p 'x'><!ENTITY g '%p;'><![INCLUDE[<!NOTATION n SYSTEM 'n'>]]>"),
        (b"<!DOCTYPE a [<!ENTITY e SYSTEM 'e'><!ENTITY i '[&e;]'>]><a>&i;x</a>", b"t<j/>"), (b"<!DOCTYPE a [<!ENTITY e SYSTEM 'e'><!ENTITY f SYSTEM 'f'>]><a>&e;x</a>", b"t&f;u"), (b"<!DOCTYPE a SYSTEM 'e'><a>&g;</a>", b"<!ENTITY % f SYSTEM 'f'>%f;<!ENTITY g 'G'>"),
    ];
    k.part("inside", (kids.len() * ACTS.len() * 6) as u64, &|cx, case| {
        let (d, act, how) = (kids[case as usize % kids.len()], case as usize / kids.len() % ACTS.len(), case as usize / kids.len() / ACTS.len());
        if !cx.begin(0, act as u64, d.0) { return; }
        let mut cf = base.clone(); cf.pe = 2; cf.ext = vec![(b"e".to_vec(), d.1.to_vec()), (b"f".to_vec(), if d.0.starts_with(b"<!DOCTYPE a SYSTEM 'e'><a") { b"<!ENTITY h 'H'>".to_vec() } else { b"w<k/>".to_vec() })];
        cf.ext_chunk = how % 3; if how >= 3 { cf.dflt = Dflt::Expand; }
        let t = |a: &'static Api| { let mut r = Run::new(a, &cf); r.hook = Some(api_hook); r.hookdata[0] = act as u64; r.hookdata[2] = 1; let p = create(&mut r); let st = feed(&mut r, p, d.0, &[], Via::Parse, false); finish(&mut r, p, st); free(&mut r, p); r };
        let (a, b) = (t(env.rx), t(env.ex)); cx.add(0, 1); cx.add(2, 1); cx.outcome(&a.log);
        let mut st: Vec<u8> = b"in".to_vec(); for l in lines(&a.log) { if l.starts_with(b" ") { st.extend_from_slice(l); cx.state(&st); cx.add(1, 1); } }
        let key = format!("{} in {:?} way {}", esc(d.0), ACTS[act], how);
        if let Some(n) = a.notes.first() { cx.violation(&key, n); }
        if a.log != b.log { cx.violation(&format!("{} reference", key), &diff(&a.log, &b.log)); }
    });
    k.part("null", 1, &|cx, _| { if cx.begin(0, 0, b"null") { let (a, b) = (nulls(env.rx), nulls(env.ex)); cx.add(0, 1); cx.outcome(&a); if a != b { cx.violation("null parser", &diff(&a, &b)); } } });
    k.part("strings", 1, &|cx, _| {
        for c in -3..=60 { if !cx.begin((c + 3) as u64, 0, b"strings") { continue; } cx.add(0, 1);
            let t = |a: &Api| { let x = unsafe { (a.ErrorString)(c) }; if x.is_null() { None } else { Some(unsafe { std::ffi::CStr::from_ptr(x) }.to_string_lossy().into_owned()) } };
            let (a, b) = (t(env.rx), t(env.ex)); cx.outcome(format!("{:?}", a).as_bytes());
            if c <= 41 && a != b || c > 43 && a.is_some() { cx.violation(&format!("error string {}", c), &format!("{:?} reference {:?}", a, b)); }
        }
        let feats = |a: &Api| { let mut v = vec![]; let mut f = unsafe { (a.GetFeatureList)() }; unsafe { while (*f).feature != 0 { v.push(((*f).feature, std::ffi::CStr::from_ptr((*f).name).to_string_lossy().into_owned(), (*f).value)); f = f.add(1); } } v };
        let a = feats(env.rx);
        for want in [(6, "sizeof(XML_Char)", 1), (7, "sizeof(XML_LChar)", 1), (4, "XML_CONTEXT_BYTES", 1024), (3, "XML_DTD", 0), (8, "XML_NS", 0)] { if cx.begin(100 + want.0, 0, b"feature") { cx.add(0, 1); if !a.iter().any(|x| x.0 == want.0 as u32 && x.1 == want.1 && x.2 == want.2) { cx.violation(&format!("feature {}", want.1), &format!("{:?}", a)); } } }
        if cx.begin(200, 0, b"version") { let v = unsafe { std::ffi::CStr::from_ptr((env.rx.ExpatVersion)()) }.to_string_lossy().into_owned(); if v != "expat_2.2.9" { cx.violation("version", &v); } }
    });
    k.finish("all sequences of interface calls up to the stated length, with every behaviour of the handlers; after each call its answer, the parsing status and the error code are judged by a state model and compared with the reference; one evaluation is one sequence; states = (status, final, failed, place in the document, error, next call, handler behaviour)")
}
/// Differences of the newer reference that are documented there as changes.
fn excused(_a: &[u8], _b: &[u8]) -> bool { false }
fn nulls(a: &'static Api) -> Vec<u8> {
    let p: P = null_mut(); let mut v = vec![]; let mut put = |n: &str, x: i64| v.extend_from_slice(format!("{} {}\n", n, x).as_bytes());
    unsafe {
        put("Parse", (a.Parse)(p, b"x".as_ptr() as CS, 1, 1) as i64); put("ParseBuffer", (a.ParseBuffer)(p, 0, 0) as i64); put("GetBuffer", (a.GetBuffer)(p, 1) as i64);
        put("Stop", (a.StopParser)(p, 1) as i64); put("Resume", (a.ResumeParser)(p) as i64); put("Reset", (a.ParserReset)(p, null()) as i64); put("SetEncoding", (a.SetEncoding)(p, null()) as i64);
        put("ErrorCode", (a.GetErrorCode)(p) as i64); put("ByteIndex", (a.GetCurrentByteIndex)(p) as i64); put("ByteCount", (a.GetCurrentByteCount)(p) as i64); put("Line", (a.GetCurrentLineNumber)(p) as i64); put("Column", (a.GetCurrentColumnNumber)(p) as i64);
        let (mut x, mut y) = (7, 8); put("Context", (a.GetInputContext)(p, &mut x, &mut y) as i64); put("offset", x as i64); put("size", y as i64);
        put("Spec", (a.GetSpecifiedAttributeCount)(p) as i64); put("Id", (a.GetIdAttributeIndex)(p) as i64); put("Base", (a.SetBase)(p, null()) as i64); put("GetBase", (a.GetBase)(p) as i64);
        put("Foreign", (a.UseForeignDTD)(p, 1) as i64); put("Pe", (a.SetParamEntityParsing)(p, 1) as i64); put("Salt", (a.SetHashSalt)(p, 1) as i64); put("Child", (a.ExternalEntityParserCreate)(p, null(), null()) as i64);
        (a.SetReturnNSTriplet)(p, 1); (a.UseParserAsHandlerArg)(p); (a.SetUserData)(p, null_mut()); (a.DefaultCurrent)(p); (a.ParserFree)(p); (a.FreeContentModel)(p, null_mut());
        put("Malloc", (a.MemMalloc)(p, 1) as i64); put("Realloc", (a.MemRealloc)(p, null_mut(), 1) as i64); (a.MemFree)(p, null_mut());
        (a.SetElementHandler)(p, None, None); (a.SetStartElementHandler)(p, None); (a.SetEndElementHandler)(p, None); (a.SetCharacterDataHandler)(p, None); (a.SetProcessingInstructionHandler)(p, None); (a.SetCommentHandler)(p, None);
        (a.SetCdataSectionHandler)(p, None, None); (a.SetStartCdataSectionHandler)(p, None); (a.SetEndCdataSectionHandler)(p, None); (a.SetDefaultHandler)(p, None); (a.SetDefaultHandlerExpand)(p, None); (a.SetDoctypeDeclHandler)(p, None, None); (a.SetStartDoctypeDeclHandler)(p, None); (a.SetEndDoctypeDeclHandler)(p, None);
        (a.SetUnparsedEntityDeclHandler)(p, None); (a.SetNotationDeclHandler)(p, None); (a.SetNamespaceDeclHandler)(p, None, None); (a.SetStartNamespaceDeclHandler)(p, None); (a.SetEndNamespaceDeclHandler)(p, None); (a.SetNotStandaloneHandler)(p, None); (a.SetExternalEntityRefHandler)(p, None); (a.SetExternalEntityRefHandlerArg)(p, null_mut());
        (a.SetSkippedEntityHandler)(p, None); (a.SetUnknownEncodingHandler)(p, None, null_mut()); (a.SetElementDeclHandler)(p, None); (a.SetAttlistDeclHandler)(p, None); (a.SetEntityDeclHandler)(p, None); (a.SetXmlDeclHandler)(p, None);
    }
    put("end", 0); v
}
#[allow(dead_code)] fn unused(_: *const c_char) {}
