//! Checks about memory and about a parser's lives: memory safety (C05), reset (C06).
use crate::chk::*; use crate::drv::*; use crate::gen::*; use crate::pool::*; use crate::util::*; use crate::*;

fn poison(a: i32, f: i32) { unsafe { sys::vp_poison = a; sys::vp_fpoison = f; } }
/// A life of a parser that ends early: `stop` = 0 after the chunks, 1 at the first suspension.
fn partial(rx: &'static ffi::Api, cf: &Cfg, doc: &[u8], cuts: &[usize], via: Via, plan: &[(u64, Act)], last: bool) -> Box<Run> {
    let mut r = Run::new(rx, cf); r.plan.extend_from_slice(plan);
    let p = create(&mut r); let mut at = 0;
    for &c in cuts { let st = chunk(&mut r, p, &doc[at..c], false, via); at = c; if st != 1 { break; } }
    if last && r.stops == 0 { let _ = chunk(&mut r, p, &doc[at..], true, via); }
    free(&mut r, p); r
}
pub fn c05(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C05", "exploration"); let rx = env.rx; let th = env.thorough();
    let c = docs();
    // the memory verdict and, with other contents of fresh and released memory, the same report
    let twice = |cx: &mut Ctx, name: &str, doc: &[u8], f: &dyn Fn() -> Box<Run>| {
        poison(0xA5, 0xDD); let live0 = live(); let a = f(); cx.add(0, 1); cx.outcome(&a.log);
        let mut bad = mem_bad(&a, live0);
        if bad.is_none() { poison(0x00, 0xFF); let b = f(); cx.add(0, 1); if let Some(m) = mem_bad(&b, live0) { bad = Some(m); } else if a.log != b.log { bad = Some(format!("what is reported depends on the contents of uninitialised or released memory\n{}", diff(&b.log, &a.log))); } poison(0xA5, 0xDD); }
        if let Some(m) = bad { cx.violation(&format!("{} {}", name, esc(&doc[..doc.len().min(400)])), &m); }
    };
    let warm = |d: &[u8], cf: &Cfg| { let _ = parse(rx, cf, d, WHOLE, &[]); };
    k.part("corpus", c.len() as u64, &|cx, case| {
        let d = &c[case as usize]; let mut cf = d.cfg.clone(); let m = d.doc.len(); let mut sub = 0;
        cx.begin(u64::MAX - 1, 0, &d.doc); cx.sample(|| format!("{} {}", d.name, esc(&d.doc)));
        warm(&d.doc, &cf);
        let bytes: Vec<usize> = (1..=m).collect(); let nev = parse(rx, &cf, &d.doc, WHOLE, &[]).nev.min(if th { 400 } else { 60 });
        let echs: &[usize] = if cf.ext.is_empty() { &[0] } else { &[0, 1, 4] };
        for &e in echs { cf.ext_chunk = e; for pos in [false, true] { for parg in [false, true] { cf.pos = pos; cf.parser_arg = parg; cf.query = pos;
            for via in [Via::Parse, Via::Buf] {
                for cuts in [&[][..], &bytes[..], &[m / 2][..]] { for fe in [false, true] {
                    sub += 1; if !cx.begin(sub, 1, &d.doc) { continue; }
                    twice(cx, &format!("{} cuts {:?} {:?} final-empty {}", d.name, cuts.len(), via, fe), &d.doc, &|| parse(rx, &cf, &d.doc, Feed { cuts, via, fin_empty: fe }, &[]));
                } }
                if m > 500 && !th { continue; }
                for i in 0..=m { sub += 1; if !cx.begin(sub, 2, &d.doc) { continue; } // given up after any prefix
                    twice(cx, &format!("{} freed after {} bytes {:?}", d.name, i, via), &d.doc, &|| partial(rx, &cf, &d.doc, &[i], via, &[], false));
                    if i < 60 { let cuts: Vec<usize> = (1..=i).collect(); twice(cx, &format!("{} freed after {} single bytes {:?}", d.name, i, via), &d.doc, &|| partial(rx, &cf, &d.doc, &cuts, via, &[], false)); }
                }
            }
            if e == 0 && !parg { for i in 0..nev { for a in [Act::Suspend, Act::Abort] { sub += 1; if !cx.begin(sub, 3, &d.doc) { continue; }
                twice(cx, &format!("{} freed when stopped ({:?}) in call {}", d.name, a, i), &d.doc, &|| partial(rx, &cf, &d.doc, &[], Via::Parse, &[(i, a)], true));
                twice(cx, &format!("{} bytes, freed when stopped ({:?}) in call {}", d.name, a, i), &d.doc, &|| partial(rx, &cf, &d.doc, &bytes, Via::Buf, &[(i, a)], true));
            } } }
        } } }
    });
    for f in families() {
        let depth = depth_for(&f, if th { 1_000_000 } else { 120_000 }); let n = f.n(depth); const B: u64 = 32;
        k.part(&format!("{}-d{}", f.name, depth), (n + B - 1) / B, &|cx, case| {
            let mut sub = 0; warm(b"<a/>", &cfg());
            for i in case * B..((case + 1) * B).min(n) { for ci in 0..f.cfgs.len() {
                let (doc, mut cf) = f.case(i, ci); cf.pos = i % 2 == 0; cf.query = cf.pos; let m = doc.len();
                sub += 1; if cx.begin(sub, 1, &doc) { twice(cx, "whole", &doc, &|| parse(rx, &cf, &doc, WHOLE, &[])); }
                let bytes: Vec<usize> = (1..=m).collect();
                sub += 1; if cx.begin(sub, 1, &doc) { twice(cx, "bytes", &doc, &|| parse(rx, &cf, &doc, Feed { cuts: &bytes, via: if i % 4 < 2 { Via::Buf } else { Via::Parse }, fin_empty: true }, &[])); }
                sub += 1; if cx.begin(sub, 1, &doc) { let q = m.saturating_sub(f.post.len()); twice(cx, "freed before the last token", &doc, &|| partial(rx, &cf, &doc, &[q], Via::Buf, &[], false)); }
                if case % 97 == 0 { cx.sample(|| esc(&doc)); }
            } }
        });
    }
    let sh = shapes(); let sz = sizes(if th { 300 } else { 34 }, if th { 70_000 } else { 9_000 });
    k.part("sizes", (sh.len() * sz.len()) as u64, &|cx, case| {
        let (si, n) = (case as usize / sz.len(), sz[case as usize % sz.len()]);
        let d = sh[si].1(n); let mut cf = d.cfg.clone(); cf.pos = n % 2 == 0; cf.query = cf.pos; let m = d.doc.len(); if m > 400_000 { return; }
        warm(b"<a/>", &cfg()); let mut sub = 0;
        for s in [0, 1, 100, 1024, 1025, 4097] {
            if s != 0 && (s > m || (s == 1 && m > 1500) || m / s.max(1) > 300 && s > 1) { continue; }
            let cuts: Vec<usize> = if s == 0 { vec![] } else { (1..).map(|i| i * s).take_while(|&x| x < m).collect() };
            if !cf.ext.is_empty() { cf.ext_chunk = s; }
            for via in [Via::Parse, Via::Buf] {
                sub += 1; if !cx.begin(sub, n as u64, d.name.as_bytes()) { continue; }
                twice(cx, &format!("shape {} size {} chunks of {} {:?}", d.name, n, s, via), b"", &|| parse(rx, &cf, &d.doc, Feed { cuts: &cuts, via, fin_empty: false }, &[]));
                if !cuts.is_empty() { twice(cx, &format!("shape {} size {} chunks of {} {:?}, given up", d.name, n, s, via), b"", &|| partial(rx, &cf, &d.doc, &cuts, via, &[], false)); }
            }
        }
    });
    // memory the library lends: buffers of every size, content models, the memory functions
    k.part("lent-memory", 1, &|cx, _| {
        let mut sub = 0; warm(b"<a/>", &cfg());
        for doc in [&b"<a>xy</a>"[..], b"<!DOCTYPE a [<!ELEMENT a (b,(c|d)*,e?)+><!ELEMENT b (#PCDATA|c)*>]><a/>"] { for n1 in sizes(64, 5000) { for n2 in [0, 1, 3, 64, 1023, 1024, 1025, 3000] { for pre in [0usize, 2, 5] {
            sub += 1; if !cx.begin(sub, 1, format!("GetBuffer {} {} after {} bytes of {}", n1, n2, pre, esc(doc)).as_bytes()) { continue; }
            let cf = cfg(); let live0 = live();
            let mut r = Run::new(rx, &cf); let p = create(&mut r); cx.add(0, 1);
            let mut bad = None;
            if pre > 0 { chunk(&mut r, p, &doc[..pre], false, Via::Parse); }
            let mut ok = true;
            for n in [n1, n2] { let b = lib!((rx.GetBuffer)(p, n as i32)); if b.is_null() { if n != 0 { ok = false; bad = Some(format!("no buffer of {}", n)); } else { ok = false; } } else { unsafe { std::ptr::write_bytes(b as *mut u8, 0x20, n); } } }
            // use part of the last buffer
            if ok { let b = lib!((rx.GetBuffer)(p, (n2.max(doc.len())) as i32)); unsafe { std::ptr::copy_nonoverlapping(doc[pre..].as_ptr(), b as *mut u8, doc.len() - pre); } let st = lib!((rx.ParseBuffer)(p, (doc.len() - pre) as i32, 1)); finish(&mut r, p, st); if st != 1 { bad = Some("document not accepted".into()); } }
            free(&mut r, p); cx.outcome(&r.log);
            if bad.is_none() { bad = mem_bad(&r, live0); }
            if let Some(m) = bad { cx.violation(&format!("GetBuffer {} {} after {} bytes of {}", n1, n2, pre, esc(doc)), &m); }
        } } } }
        // the memory functions
        let live0 = live();
        let cf = cfg(); let mut r = Run::new(rx, &cf); let p = create(&mut r);
        for a in [1usize, 2, 7, 8, 64, 1000, 5000] { for b in [1usize, 3, 64, 4000, 9000] {
            sub += 1; if !cx.begin(sub, 2, format!("MemMalloc {} MemRealloc {}", a, b).as_bytes()) { continue; }
            cx.add(0, 1);
            unsafe {
                let x = lib!((rx.MemMalloc)(p, a)) as *mut u8; for i in 0..a { *x.add(i) = i as u8; }
                let y = lib!((rx.MemRealloc)(p, x as *mut _, b)) as *mut u8;
                for i in 0..a.min(b) { if *y.add(i) != i as u8 { cx.violation(&format!("MemRealloc {} {}", a, b), "contents lost"); break; } }
                for i in 0..b { *y.add(i) = 7; }
                lib!((rx.MemFree)(p, y as *mut _));
                let z = lib!((rx.MemRealloc)(p, std::ptr::null_mut(), b)) as *mut u8; for i in 0..b { *z.add(i) = 7; } lib!((rx.MemFree)(p, z as *mut _));
            }
        } }
        lib!((rx.MemFree)(p, std::ptr::null_mut()));
        free(&mut r, p);
        if let Some(m) = mem_bad(&r, live0) { cx.violation("memory functions", &m); }
        lib!((rx.ParserFree)(std::ptr::null_mut()));
    });
    // parsers of external entities that live on after their handler
    k.part("children-kept", c.len() as u64, &|cx, case| {
        let d = &c[case as usize]; let cf = d.cfg.clone(); if cf.ext.is_empty() { return; } let mut sub = 0; let m = d.doc.len(); warm(&d.doc, &cf);
        for keep in 1..4u8 { for order in 0..3u8 { for cut in [m, m / 2, m * 3 / 4] { for parg in [false, true] { for use_ in [false, true] {
            sub += 1; if !cx.begin(sub, keep as u64, &d.doc) { continue; }
            let mut cf = cf.clone(); cf.parser_arg = parg; cf.pos = true; cf.query = true;
            twice(cx, &format!("{} children kept ({}), freed in order {}, {} bytes, used afterwards {}", d.name, keep, order, cut, use_), &d.doc, &|| {
                let mut r = Run::new(rx, &cf); r.keep_kids = keep; let p = create(&mut r);
                let st = chunk(&mut r, p, &d.doc[..cut], cut == m, Via::Parse); finish(&mut r, p, st);
                let mut kids: Vec<_> = r.kids.drain(..).collect(); if order == 1 { kids.reverse(); }
                if use_ { r.keep_kids = 0; for &c in &kids { r.stack = vec![p, c]; let st = chunk(&mut r, c, b"<x/>", true, Via::Parse); r.n(st as i64); finish(&mut r, c, st); } r.stack = vec![p]; kids.extend(r.kids.drain(..)); }
                // (documented: before the parser that made them, and those made by them before them)
                if order == 2 { let (a, b): (Vec<_>, Vec<_>) = kids.iter().enumerate().partition(|x| x.0 % 2 == 1); kids = a.into_iter().chain(b).map(|x| *x.1).collect(); }
                for c in kids { free(&mut r, c); }
                free(&mut r, p); r
            });
        } } } } }
    });
    // nesting and lists far longer than any stack: parsed, given up half-way, freed
    let deep: Vec<usize> = if th { vec![20_000, 150_000, 600_000, 2_000_000] } else { vec![20_000, 250_000] };
    let dsh: Vec<(&'static str, fn(usize) -> D)> = sh.iter().filter(|s| !["entchain", "atts", "attdup", "nsatts", "nsattdup", "nsdecls", "extctx", "attdecls", "eltypes", "elseq"].contains(&s.0) || true).cloned().collect();
    k.part("deep", (dsh.len() * deep.len()) as u64, &|cx, case| {
        let (si, n) = (case as usize % dsh.len(), deep[case as usize / dsh.len()]);
        if !["nest", "nest2", "elnest", "elchoice", "elseq", "elmixed", "enttext", "entmany", "notations", "atts", "nsdecls", "attenum"].contains(&dsh[si].0) { return; }
        let d = dsh[si].1(n); let m = d.doc.len(); let mut cf = d.cfg.clone(); if n > 250_000 && ["atts", "nsdecls", "nest2"].contains(&d.name.as_str()) { return; }
        cf.dflt = Dflt::No; warm(b"<a/>", &cfg());
        for how in 0..3u64 { if !cx.begin(how, n as u64, d.name.as_bytes()) { continue; } cx.add(0, 1);
            let live0 = live();
            let mut r = Run::new(rx, &cf); let p = create(&mut r);
            match how { 0 => { let st = chunk(&mut r, p, &d.doc, true, Via::Parse); finish(&mut r, p, st); if st != 1 && d.name != "attdup" { cx.violation(&format!("deep {} {}", d.name, n), &format!("not accepted: {:?}", st_err(&r.log))); } } 1 => { chunk(&mut r, p, &d.doc[..m / 2], false, Via::Buf); } _ => { chunk(&mut r, p, &d.doc[..m / 2], false, Via::Parse); lib!((rx.ParserReset)(p, std::ptr::null())); setup(&mut r, p, false); let st = feed(&mut r, p, &d.doc, &[], Via::Parse, false); finish(&mut r, p, st); } }
            free(&mut r, p); cx.outcome(&r.log);
            if let Some(x) = mem_bad(&r, live0) { cx.violation(&format!("deep {} {} how {}", d.name, n, how), &x); }
        }
    });
    // XML_ParseBuffer with lengths that XML_GetBuffer did not make room for
    k.part("buffer-lengths", 1, &|cx, _| {
        let mut sub = 0; warm(b"<a/>", &cfg()); let cf = cfg();
        for doc in [&b"<a>xyz</a>"[..], b"<a b='c'>\xc3\xa9"] { for pre in 0..=doc.len() { for n in [-1i32, 0, 1, 2, 7, 64, 1024, 3000] { for m in [-2147483648i32, -4096, -2, -1, 0, 1, 2, 6, 7, 8, 63, 1023, 1024, 1025, 2999, 3001, 4096, 70000, 2147483647] { for fin in [false, true] {
            sub += 1; if !cx.begin(sub, 1, format!("after {} bytes of {} XML_GetBuffer({}) XML_ParseBuffer({})", pre, esc(doc), n, m).as_bytes()) { continue; }
            twice(cx, &format!("after {} bytes of {} XML_GetBuffer({}) XML_ParseBuffer({})", pre, esc(doc), n, m), doc, &|| {
                let mut r = Run::new(rx, &cf); let p = create(&mut r);
                if pre > 0 { chunk(&mut r, p, &doc[..pre], false, if pre % 2 == 0 { Via::Parse } else { Via::Buf }); }
                if n >= 0 { let b = lib!((rx.GetBuffer)(p, n)); if !b.is_null() { unsafe { std::ptr::write_bytes(b as *mut u8, b' ', n as usize); } } }
                // within the room made the buffer's contents decide; beyond it only a refusal is right
                if m <= n { let st = lib!((rx.ParseBuffer)(p, m, fin as i32)); finish(&mut r, p, st); }
                else if m >= 3001 { let st = lib!((rx.ParseBuffer)(p, m, fin as i32)); r.n(st as i64); if st != 0 && r.notes.is_empty() && m >= 70000 { r.log.extend_from_slice(b"accepted"); } let rest = &doc[pre..]; let st = chunk(&mut r, p, rest, true, Via::Parse); finish(&mut r, p, st); }
                free(&mut r, p); r
            });
        } } } } }
    });
    // content models kept until the end of the parse, or until after a reset
    k.part("models-kept", c.len() as u64, &|cx, case| {
        let d = &c[case as usize]; let cf = d.cfg.clone(); warm(&d.doc, &cf);
        for mode in 0..3u64 {
            if !cx.begin(mode, 1, &d.doc) { continue; } cx.add(0, 1);
            let live0 = live();
            let mut r = Run::new(rx, &cf); r.keep_models = true; let p = create(&mut r);
            let st = feed(&mut r, p, &d.doc, &[], Via::Parse, false); finish(&mut r, p, st);
            let kept: Vec<_> = r.models.drain(..).collect();
            if mode == 2 { lib!((rx.ParserReset)(p, std::ptr::null())); setup(&mut r, p, false); let st = feed(&mut r, p, &d.doc, &[], Via::Parse, false); finish(&mut r, p, st); }
            let mut v = vec![];
            for (txt, m) in kept { let mut t = Run::new(rx, &cf); unsafe { model(&mut t, m, 0); } if t.log != txt { v.push(format!("a content model changed after its handler returned: {} became {}", s(&txt), s(&t.log))); } lib!((rx.FreeContentModel)(p, m)); }
            for (_, m) in r.models.drain(..) { lib!((rx.FreeContentModel)(p, m)); }
            free(&mut r, p);
            if let Some(m) = mem_bad(&r, live0) { v.push(m); }
            if !v.is_empty() { cx.violation(&format!("{} models kept, mode {} {}", d.name, mode, esc(&d.doc)), &v[0]); }
        }
    });
    k.finish("Every corpus document delivered whole, by bytes and in halves through both interfaces, with the parser given up after every prefix and at every stop; every token sequence of each family; every shape at every size around the internal thresholds; all under an allocator that counts blocks, moves every reallocation, surrounds blocks by canaries, keeps released blocks poisoned, with input at the end of an accessible page, and run twice with different contents of fresh and released memory. Non-trivial: a new event log.")
}

/// A reset keeps (as documented) whether names come as triplets: ask for what this life wants.
fn again(rx: &'static ffi::Api, p: ffi::P, c: &Cfg) { lib!((rx.SetReturnNSTriplet)(p, c.triplet as u8)); }
pub fn c06(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C06", "exploration"); let rx = env.rx; let th = env.thorough();
    // documents by class of parser (with or without namespaces): a reset parser keeps that
    let all = docs();
    let classes: Vec<Vec<D>> = vec![all.iter().filter(|d| d.cfg.ns.is_none()).cloned().collect(), all.iter().filter(|d| d.cfg.ns.is_some()).cloned().collect()];
    // configures the (fresh or reset) parser for document d, parses it, returns the log
    fn second(rx: &'static ffi::Api, r: &mut Run, p: ffi::P, d: &D, f: Feed) { r.stack = vec![p]; setup(r, p, false); again(rx, p, &r.cfg().clone()); let st = feed(r, p, &d.doc, f.cuts, f.via, f.fin_empty); finish(r, p, st); queries(rx, r, p); }
    fn queries(rx: &'static ffi::Api, r: &mut Run, p: ffi::P) {
        let mut ps = ffi::PStatus::default(); lib!((rx.GetParsingStatus)(p, &mut ps));
        let b = lib!((rx.GetBase)(p)); r.s(b); r.n(ps.parsing as i64); r.n(ps.final_ as i64); let e = lib!((rx.GetErrorCode)(p)); r.n(e as i64);
        let x = lib!(((rx.GetSpecifiedAttributeCount)(p), (rx.GetIdAttributeIndex)(p), (rx.GetCurrentByteCount)(p))); r.n(x.0 as i64); r.n(x.2 as i64); r.nl();
    }
    fn state(rx: &'static ffi::Api, p: ffi::P) -> Vec<i64> {
        let mut ps = ffi::PStatus::default(); lib!((rx.GetParsingStatus)(p, &mut ps));
        let (mut o, mut z) = (-7, -7); let ctx = lib!((rx.GetInputContext)(p, &mut o, &mut z));
        let v = lib!(((rx.GetErrorCode)(p), (rx.GetCurrentByteIndex)(p), (rx.GetCurrentLineNumber)(p), (rx.GetCurrentColumnNumber)(p), (rx.GetSpecifiedAttributeCount)(p), (rx.GetIdAttributeIndex)(p), (rx.GetCurrentByteCount)(p), (rx.GetBase)(p).is_null()));
        vec![ps.parsing as i64, ctx.is_null() as i64, v.0 as i64, v.1 as i64, v.2 as i64, v.3 as i64, v.4 as i64, v.6 as i64, v.7 as i64]
    }
    /// The first life: how far it goes.
    fn first(rx: &'static ffi::Api, r: &mut Run, p: ffi::P, d: &D, how: u64) -> bool {
        let m = d.doc.len();
        match how {
            0 => { let st = feed(r, p, &d.doc, &[], Via::Parse, false); finish(r, p, st); }
            1 => { let st = feed(r, p, &d.doc, &(1..=m).collect::<Vec<_>>(), Via::Buf, true); finish(r, p, st); }
            2 => { r.plan.push((0, Act::Suspend)); let _ = chunk(r, p, &d.doc, true, Via::Parse); }
            3 => { r.plan.push((1, Act::Abort)); let _ = chunk(r, p, &d.doc, true, Via::Parse); }
            4 => { let _ = lib!((rx.GetBuffer)(p, 3000)); }
            _ => { let n = (how - 5) as usize; if n > m { return false; } let _ = chunk(r, p, &d.doc[..n], false, if n % 2 == 0 { Via::Parse } else { Via::Buf }); }
        }
        true
    }
    for (ci, ds) in classes.iter().enumerate() {
        let n = ds.len();
        k.part(if ci == 0 { "pairs" } else { "pairs-ns" }, n as u64, &|cx, case| {
            let d2 = &ds[case as usize]; let mut sub = 0; let mut c2 = d2.cfg.clone(); c2.pos = true; c2.enc = None; let d2 = D { name: d2.name.clone(), doc: d2.doc.clone(), cfg: c2 };
            cx.sample(|| format!("second life {} {}", d2.name, esc(&d2.doc)));
            let bytes: Vec<usize> = (1..d2.doc.len()).collect();
            let base: Vec<Box<Run>> = [WHOLE, Feed { cuts: &bytes, via: Via::Buf, fin_empty: true }].iter().map(|f| { let mut r = Run::new(rx, &d2.cfg); let e = d2.cfg.ns; let p = match e { None => lib!((rx.ParserCreate)(std::ptr::null())), Some(s) => lib!((rx.ParserCreateNS)(std::ptr::null(), s as i8)) }; second(rx, &mut r, p, &d2, *f); lib!((rx.ParserFree)(p)); r }).collect();
            let fresh = { let p = lib!((rx.ParserCreate)(std::ptr::null())); let v = state(rx, p); lib!((rx.ParserFree)(p)); v };
            for (i1, d1) in ds.iter().enumerate() { for how in 0..if th { 40 } else { 9 } {
                let how = if how >= 6 && !th { 5 + (how - 5) * (d1.doc.len() as u64 / 4).max(1) - (i1 as u64 % 3).min(how) } else { how };
                for rep in 0..2u64 {
                    if rep == 1 && (how != 0 || i1 % 4 != 0) { continue; }
                    sub += 1; if !cx.begin(sub, 1, format!("{} ended by {} then {}", d1.name, how, d2.name).as_bytes()) { continue; }
                    let mut c1 = d1.cfg.clone(); c1.pos = true; c1.enc = None;
                    // leave every option in an unusual state
                    if i1 % 3 == 0 { c1.base = Some("first-base"); c1.salt = 12345; c1.triplet = true; } if i1 % 3 == 1 { c1.mask = h::ALL; c1.pe = 2; c1.dflt = Dflt::Expand; } if i1 % 3 == 2 { c1.foreign = true; c1.parser_arg = true; }
                    let live0 = live(); let f = if (i1 as u64 + how) % 2 == 0 { WHOLE } else { Feed { cuts: &bytes, via: Via::Buf, fin_empty: true } };
                    let mut r1 = Run::new(rx, &c1); let p = create(&mut r1);
                    if !first(rx, &mut r1, p, d1, how) { free(&mut r1, p); continue; }
                    cx.add(0, 1);
                    let mut bad = None;
                    for _ in 0..=rep * 2 { if lib!((rx.ParserReset)(p, std::ptr::null())) != 1 { bad = Some("XML_ParserReset refused".to_string()); } }
                    let v = state(rx, p); if v != fresh && bad.is_none() { bad = Some(format!("state after XML_ParserReset {:?}, of a new parser {:?}", v, fresh)); }
                    let mut c2 = d2.cfg.clone(); c2.parser_arg = false; let mut r2 = Run::new(rx, &c2);
                    second(rx, &mut r2, p, &d2, f); cx.outcome(&r2.log);
                    let want = &base[((i1 as u64 + how) % 2) as usize];
                    if r2.log != want.log && bad.is_none() { bad = Some(diff(&r2.log, &want.log)); }
                    free(&mut r1, p);
                    if bad.is_none() { bad = mem_bad(&r1, live0); }
                    if let Some(b) = bad { cx.violation(&format!("first {} ended by {} then reset x{} then {}: {}", d1.name, how, rep * 2 + 1, d2.name, esc(&d1.doc)), &b); }
                }
            } }
        });
    }
    // handlers not set again stay unset; every option is back at its default: a minimal second life
    k.part("minimal-second-life", all.len() as u64, &|cx, case| {
        let d1 = &all[case as usize]; let mut sub = 0;
        for d2 in &all { if d1.cfg.ns.is_some() != d2.cfg.ns.is_some() { continue; } for variant in 0..4u64 {
            sub += 1; if !cx.begin(sub, 1, format!("{} then {} variant {}", d1.name, d2.name, variant).as_bytes()) { continue; } cx.add(0, 1);
            let mut c2 = cfg(); c2.ns = d1.cfg.ns; c2.pos = true; c2.ext = d2.cfg.ext.clone();
            match variant { 0 => { c2.mask = h::ELEM | h::CDATA; c2.dflt = Dflt::No; } 1 => { c2.mask = 0; c2.dflt = Dflt::Default; } 2 => { c2.mask = h::EXTREF | h::CDATA; c2.dflt = Dflt::No; } _ => { c2.mask = 0; c2.dflt = Dflt::No; } }
            let mut c1 = d1.cfg.clone(); c1.mask = h::ALL & !h::UNK; c1.pe = 2; c1.base = Some("b1"); c1.triplet = d1.cfg.ns.is_some(); c1.foreign = variant % 2 == 1; c1.enc = if variant == 3 { Some("UTF-8") } else { None };
            let mut r0 = Run::new(rx, &c2); let p = create(&mut r0); let st = feed(&mut r0, p, &d2.doc, &[], Via::Parse, false); finish(&mut r0, p, st); free(&mut r0, p);
            let mut r1 = Run::new(rx, &c1); let p = create(&mut r1);
            let st = feed(&mut r1, p, &d1.doc, &[d1.doc.len() / 2], Via::Parse, false); finish(&mut r1, p, st); let (n1, l1) = (r1.nev, r1.log.len());
            lib!((rx.ParserReset)(p, std::ptr::null()));
            let mut r2 = Run::new(rx, &c2); r2.stack = vec![p]; setup(&mut r2, p, false); again(rx, p, &c2);
            let st = feed(&mut r2, p, &d2.doc, &[], Via::Parse, false); finish(&mut r2, p, st); cx.outcome(&r2.log);
            if r1.nev != n1 || r1.log.len() != l1 { cx.violation(&format!("first {} then {} variant {}", d1.name, d2.name, variant), "a handler of the first life was called in the second"); }
            else if r2.log != r0.log { cx.violation(&format!("first {} then {} variant {}", d1.name, d2.name, variant), &diff(&r2.log, &r0.log)); }
            free(&mut r2, p);
        } }
    });
    // every token sequence as a first life, then a probing second life
    let probe: Vec<D> = corpus().into_iter().filter(|d| ["ent", "att-defaults", "ns", "extsub", "text-nl", "xmldecl-latin", "bad-utf8-1", "pe-int", "ent-undef-dtd", "nest"].contains(&d.name.as_str())).collect();
    for f in families() {
        let depth = depth_for(&f, if th { 300_000 } else { 30_000 }); let n = f.n(depth); const B: u64 = 16;
        k.part(&format!("{}-d{}", f.name, depth), (n + B - 1) / B, &|cx, case| {
            let mut sub = 0;
            let mk = |d2: &D, ns: Option<u8>| { let mut c = d2.cfg.clone(); c.ns = ns; c.pos = true; c };
            let bases: Vec<[Vec<u8>; 2]> = probe.iter().map(|d2| [None, Some(b'!')].map(|ns| { let c = mk(d2, ns); let mut r = Run::new(rx, &c); let p = create(&mut r); let st = feed(&mut r, p, &d2.doc, &[], Via::Parse, false); finish(&mut r, p, st); free(&mut r, p); r.log.clone() })).collect();
            for i in case * B..((case + 1) * B).min(n) { for ci in 0..f.cfgs.len() {
                let (doc, mut cf) = f.case(i, ci); cf.pos = true; let m = doc.len();
                for how in 0..3 { let (pi, d2) = { let j = ((i + how) % probe.len() as u64) as usize; (j, &probe[j]) };
                    sub += 1; if !cx.begin(sub, 1, &doc) { continue; } cx.add(0, 1);
                    let live0 = live();
                    let mut r1 = Run::new(rx, &cf); if how == 1 { r1.plan.push((2, Act::Suspend)); } let p = create(&mut r1);
                    let _ = chunk(&mut r1, p, if how == 2 { &doc[..m.saturating_sub(f.post.len())] } else { &doc }, how != 2, Via::Parse);
                    lib!((rx.ParserReset)(p, std::ptr::null()));
                    let c2 = mk(d2, cf.ns); let mut r2 = Run::new(rx, &c2); r2.stack = vec![p]; setup(&mut r2, p, false); again(rx, p, &r2.cfg().clone()); let st = feed(&mut r2, p, &d2.doc, &[], Via::Parse, false); finish(&mut r2, p, st); cx.outcome(&r2.log); cx.outcome(&r1.log);
                    let want = &bases[pi][cf.ns.is_some() as usize];
                    let mut bad = if &r2.log != want { Some(diff(&r2.log, want)) } else { None };
                    free(&mut r1, p); if bad.is_none() { bad = mem_bad(&r1, live0); }
                    if let Some(b) = bad { cx.violation(&format!("first life ended by {} then {}: {}", how, d2.name, esc(&doc)), &b); }
                }
            } }
        });
    }
    // sizes: what a first life leaves behind
    let sh = shapes(); let sz = sizes(if th { 100 } else { 20 }, if th { 20_000 } else { 4_200 });
    k.part("sizes", (sh.len() * sz.len()) as u64, &|cx, case| {
        let (si, n) = (case as usize / sz.len(), sz[case as usize % sz.len()]);
        let d = sh[si].1(n); let mut cf = d.cfg.clone(); cf.pos = true; let m = d.doc.len(); if m > 200_000 { return; }
        let base = parse(rx, &cf, &d.doc, WHOLE, &[]); let mut sub = 0;
        for cut in [m, m / 2, m * 9 / 10] { for other in [0usize, 1] {
            sub += 1; if !cx.begin(sub, n as u64, d.name.as_bytes()) { continue; } cx.add(0, 1);
            let live0 = live();
            let mut r1 = Run::new(rx, &cf); let p = create(&mut r1);
            let o = sh[(si + 7) % sh.len()].1(37); let o = if other == 1 && o.cfg.ns.is_some() == cf.ns.is_some() { o } else { d.clone() };
            let _ = chunk(&mut r1, p, if other == 1 { &o.doc } else { &d.doc[..cut] }, cut == m || other == 1, Via::Parse);
            let mut bad = None;
            for _ in 0..3 {
                if lib!((rx.ParserReset)(p, std::ptr::null())) != 1 { bad = Some("refused".to_string()); }
                let mut r2 = Run::new(rx, &cf); r2.stack = vec![p]; setup(&mut r2, p, false); again(rx, p, &r2.cfg().clone()); let st = feed(&mut r2, p, &d.doc, &[], Via::Parse, false); finish(&mut r2, p, st); cx.outcome(&r2.log);
                if r2.log != base.log && bad.is_none() { bad = Some(diff(&r2.log, &base.log)); }
            }
            free(&mut r1, p); if bad.is_none() { bad = mem_bad(&r1, live0); }
            if let Some(b) = bad { cx.violation(&format!("shape {} size {} cut {} other {}", d.name, n, cut, other), &b); }
        } }
    });
    // a reset with an encoding name; reset of an external entity's parser is refused and changes nothing
    let encs: [(Option<&'static str>, &[u8]); 6] = [(None, b"<a>\xc3\xa9</a>"), (Some("ISO-8859-1"), b"<a>\xe9\x80</a>"), (Some("UTF-8"), b"<a>\xc3\xa9</a>"), (Some("US-ASCII"), b"<a>\xe9</a>"), (Some("UTF-16"), b"\xff\xfe<\0a\0/\0>\0"), (Some("nope"), b"<a/>")];
    k.part("encodings", 36 * 6, &|cx, case| {
        let (a, b) = ((case % 6) as usize, (case / 6 % 6) as usize); let dc = encs[(case / 36) as usize].1;
        if !cx.begin(0, 1, b"encodings") { return; } cx.add(0, 1);
        let mut c1 = cfg(); c1.enc = encs[a].0; let mut c2 = cfg(); c2.enc = encs[b].0; c2.pos = true;
        let base = parse(rx, &c2, dc, WHOLE, &[]);
        let live0 = live();
        let mut r1 = Run::new(rx, &c1); let p = create(&mut r1); let st = feed(&mut r1, p, encs[a].1, &[], Via::Parse, false); finish(&mut r1, p, st);
        let e = c2.enc.map(|e| std::ffi::CString::new(e).unwrap()); lib!((rx.ParserReset)(p, e.as_ref().map_or(std::ptr::null(), |e| e.as_ptr())));
        let mut r2 = Run::new(rx, &c2); r2.stack = vec![p]; setup(&mut r2, p, false); again(rx, p, &r2.cfg().clone()); let st = feed(&mut r2, p, dc, &[], Via::Parse, false); finish(&mut r2, p, st); cx.outcome(&r2.log); free(&mut r1, p);
        let bad = if r2.log != base.log { Some(diff(&r2.log, &base.log)) } else { mem_bad(&r1, live0) };
        if let Some(x) = bad { cx.violation(&format!("reset from encoding {:?} to {:?} then {}", encs[a].0, encs[b].0, esc(dc)), &x); }
    });
    k.part("kept", 4, &|cx, case| {
        // what a reset keeps: namespace processing and its separator, triplets, the unknown-encoding handler
        if !cx.begin(0, 1, b"kept") { return; } cx.add(0, 1);
        let mut c = cfg(); c.ns = Some(b'^'); c.triplet = case % 2 == 1; c.pos = true; c.unk = Some(|_, _, e| { for i in 0..256 { e.map[i] = i as i32; } 1 });
        let doc: &[u8] = if case < 2 { b"<p:a xmlns:p='u' p:b='c'/>" } else { b"<?xml version='1.0' encoding='x-e'?><p:a xmlns:p='u'>\xe9</p:a>" };
        let base = parse(rx, &c, doc, WHOLE, &[]);
        let mut r1 = Run::new(rx, &c); let p = create(&mut r1); let st = feed(&mut r1, p, doc, &[], Via::Parse, false); finish(&mut r1, p, st);
        lib!((rx.ParserReset)(p, std::ptr::null()));
        let mut c2 = c.clone(); c2.triplet = false; c2.mask &= !h::UNK; // not set again
        r1.log.clear(); r1.cfg = &c2; setup(&mut r1, p, false); let st = feed(&mut r1, p, doc, &[], Via::Parse, false); finish(&mut r1, p, st); cx.outcome(&r1.log);
        if r1.log != base.log { cx.violation(&format!("kept over a reset: case {}", case), &diff(&r1.log, &base.log)); }
        free(&mut r1, p);
    });
    k.part("child-reset", all.len() as u64, &|cx, case| {
        let d = &all[case as usize]; let mut cf = d.cfg.clone(); cf.pos = true; if cf.ext.is_empty() { return; }
        if !cx.begin(0, 1, &d.doc) { return; } cx.add(0, 1);
        let base = parse(rx, &cf, &d.doc, WHOLE, &[]);
        let mut r = Run::new(rx, &cf); r.hook = Some(|r, _| { if r.stack.len() > 1 { let p = r.p(); let a = r.api; let ok = lib!((a.ParserReset)(p, std::ptr::null())); r.hookdata[0] += (ok != 0) as u64; } });
        let p = create(&mut r); let st = feed(&mut r, p, &d.doc, &[], Via::Parse, false); finish(&mut r, p, st); free(&mut r, p);
        if r.hookdata[0] != 0 { cx.violation(&format!("{} child reset", d.name), "XML_ParserReset of an external entity's parser succeeded"); }
        if r.log != base.log { cx.violation(&format!("{} child reset", d.name), &diff(&r.log, &base.log)); }
    });
    // a parser is reset while the parser of an external entity it made is still there
    k.part("child-alive", all.len() as u64, &|cx, case| {
        let d1 = &all[case as usize]; if d1.cfg.ext.is_empty() { return; } let mut sub = 0;
        for d2 in &all { if d1.cfg.ns.is_some() != d2.cfg.ns.is_some() { continue; } for keep in 1..4u8 { for when in 0..2 {
            sub += 1; if !cx.begin(sub, keep as u64, &d1.doc) { continue; } cx.add(0, 1);
            let mut c2 = d2.cfg.clone(); c2.pos = true; c2.enc = None; c2.ns = d1.cfg.ns; let base = { let mut r = Run::new(rx, &c2); let p = create(&mut r); let st = feed(&mut r, p, &d2.doc, &[], Via::Parse, false); finish(&mut r, p, st); free(&mut r, p); r };
            let live0 = live();
            let mut r1 = Run::new(rx, &d1.cfg); r1.keep_kids = keep; let p = create(&mut r1);
            let st = feed(&mut r1, p, &d1.doc, &[], Via::Parse, false); finish(&mut r1, p, st); let kids: Vec<_> = r1.kids.drain(..).collect();
            let ok = lib!((rx.ParserReset)(p, std::ptr::null())); if ok != 1 { cx.violation(&format!("first {} children alive ({}) reset", d1.name, keep), "XML_ParserReset refused"); }
            if when == 0 { for &c in &kids { free(&mut r1, c); } }
            let mut r2 = Run::new(rx, &c2); r2.stack = vec![p]; setup(&mut r2, p, false); again(rx, p, &c2); let st = feed(&mut r2, p, &d2.doc, &[], Via::Parse, false); finish(&mut r2, p, st); cx.outcome(&r2.log);
            if when == 1 { for &c in &kids { free(&mut r1, c); } }
            let mut bad = if r2.log != base.log { Some(diff(&r2.log, &base.log)) } else { None };
            free(&mut r1, p); if bad.is_none() { bad = mem_bad(&r1, live0); }
            if let Some(b) = bad { cx.violation(&format!("first {} children alive ({}, freed {}) then {}: {}", d1.name, keep, when, d2.name, esc(&d1.doc)), &b); }
        } } }
    });
    k.finish("Every pair of corpus documents as first and second life of a parser, the first ended in nine ways (completed, by bytes, suspended, aborted, only a buffer taken, given up after several prefixes), every option of the first life left in an unusual state; second lives with nothing or little configured; every token sequence of each family as a first life with probing second lives; every shape at sizes around the thresholds reset three times; all pairs of encodings. The second life must report exactly what a new parser reports. Non-trivial: a new event log of the second life.")
}
