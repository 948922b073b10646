//! C23: what a parser holds and what it does is in proportion to what is open and to what it is given.
use crate::chk::*; use crate::drv::*; use crate::gen::*; use crate::lib; use crate::pool::*; use crate::sys::*; use crate::util::*; use crate::*;
use std::ptr::null;

/// Something that can be repeated in a document: what comes before, the repeated text, what comes after.
struct Rep { name: &'static str, pre: &'static str, up: &'static str, alpha: Vec<&'static str>, us: &'static str, post: &'static str, cfg: Cfg }
fn reps() -> Vec<Rep> {
    let ns = { let mut c = cfg(); c.ns = Some(b'!'); c }; let tri = { let mut c = ns.clone(); c.triplet = true; c };
    let ext = { let mut c = cfg(); c.pe = 2; c.ext = vec![(b"s".to_vec(), b"<?xml encoding='utf-8'?>S<q x='1'/>&e;".to_vec()), (b"d".to_vec(), b"<!ENTITY q 'v'><!-- d -->".to_vec()), (b"t".to_vec(), b"<q xmlns:p='u'><p:q/></q>".to_vec())]; c };
    let extns = { let mut c = ext.clone(); c.ns = Some(b'!'); c };
    let ents = "<!DOCTYPE a [<!ENTITY e 'x'><!ENTITY m '<b c=\"d\">y&e;</b>'><!ENTITY n '&e;&m;'><!ENTITY s SYSTEM 's'><!ENTITY t SYSTEM 't'><!ENTITY k '<![CDATA[q]]>'><!ENTITY z ''><!ATTLIST q w CDATA '&e;' i ID #IMPLIED v NMTOKENS ' 1  2 ' xmlns:r CDATA 'R'>]><a>";
    let mut v = vec![];
    let content = vec!["<b>", "</b>", "<b/>", "xyzzy ", "&lt;", "&#10;", "<![CDATA[r]]>", "<!--c-->", "<?p q?>", "\r\n", "<c d='e' f='&amp;g'/>", "]", "é€"];
    for (n, c) in [("content", cfg()), ("content-ns", ns.clone())] { v.push(Rep { name: n, pre: "<a>", up: "", alpha: content.clone(), us: "", post: "</a>", cfg: c }); }
    let att = vec![" b='1'", " c=\" 2 \"", " q:b='3'", " xmlns='u'", " xmlns:p='vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv'", " xmlns:q='w'", " p:d='&#65;'", "><p:z/><z", " xmlns:q=''", " xmlns=''"];
    for (n, c) in [("atts", cfg()), ("atts-ns", ns.clone()), ("atts-tri", tri)] { v.push(Rep { name: n, pre: "<a xmlns:q='Q' xmlns:p='P'>", up: "<e", alpha: att.clone(), us: "></e>", post: "</a>", cfg: c }); }
    // (a default attribute may be declared xmlns and there be no element for it)
    let refs = vec!["&e;", "&m;", "&n;", "&s;", "&t;", "&k;", "&z;", "<q/>", "<q w='&n2;' i='1'/>", "<b x='&e;&z;&lt;'>", "</b>", "t", "&undef;"];
    for (n, c) in [("refs", cfg()), ("refs-ext", ext.clone()), ("refs-extns", extns)] { v.push(Rep { name: n, pre: ents, up: "", alpha: refs.iter().filter(|r| **r != "<q w='&n2;' i='1'/>" && **r != "&undef;").cloned().collect(), us: "", post: "</a>", cfg: c }); }
    v.push(Rep { name: "skipped", pre: "<!DOCTYPE a SYSTEM 'nothing' [%n;]><a>", up: "", alpha: vec!["&u;", "<b c='&u;'/>", "<b/>", "t"], us: "", post: "</a>", cfg: cfg() });
    v.push(Rep { name: "prolog", pre: "<?xml version='1.0'?>", up: "", alpha: vec!["<!--c-->", "<?p q?>", "\r\n", " "], us: "", post: "<a/>", cfg: cfg() });
    v.push(Rep { name: "epilog", pre: "<a/>", up: "", alpha: vec!["<!--c-->", "<?p q?>", "\r\n", " "], us: "", post: "", cfg: cfg() });
    // (declarations that were made before are not kept again, apart from those of attributes)
    let dtd = vec!["<!--c-->", "<?p q?>", "\r\n", "%w;", "%d;", "%x;", "<!ENTITY e 'v'>", "<!ENTITY % w ' '>", "<!ENTITY s SYSTEM 's'>", "<!ENTITY e '&#65;%w;'>", "<!ENTITY u PUBLIC 'p' 's' NDATA n>", "<!ELEMENT b (c,(d|e)*)>", "<!ELEMENT b (#PCDATA|c)*>", "<!ELEMENT b EMPTY>", "<!NOTATION n SYSTEM 't'>", "<!NOTATION n PUBLIC ' p  p '>"];
    let dpre = "<!DOCTYPE a [<!ENTITY % w ' '><!ENTITY e 'v'><!ENTITY s SYSTEM 's'><!ENTITY % d SYSTEM 'd'><!ENTITY % x '<!-- x --><?x?>'><!NOTATION n SYSTEM 't'><!ENTITY u SYSTEM 's' NDATA n><!ATTLIST b c CDATA 'w' d (x|y) 'x'>";
    for (n, c) in [("dtd", ext.clone()), ("dtd-plain", { let mut c = ext.clone(); c.mask = h::ELEM | h::EXTREF; c.dflt = Dflt::No; c }), ("dtd-no-pe", cfg())] { v.push(Rep { name: n, pre: dpre, up: "", alpha: if n == "dtd-no-pe" { dtd.iter().filter(|x| !x.contains('%')).cloned().collect() } else { dtd.iter().filter(|x| **x != "<!ENTITY e '&#65;%w;'>").cloned().collect() }, us: "", post: "]><a/>", cfg: c }); }
    v
}
/// Live bytes of the library, now.
fn held() -> i64 { unsafe { vp_live_bytes } }
pub fn c23(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C23", "exploration"); let rx = env.rx; let th = env.thorough();
    // every sequence of what can be repeated, repeated: what is held between two repetitions stays within what
    // was held before, and so does the peak
    for rep in reps() {
        let a = rep.alpha.len() as u64; let mut depth = 2u32; while nseq(a, depth + 1) <= if th { 20_000 } else { 2_600 } { depth += 1; }
        let n = nseq(a, depth); const B: u64 = 16;
        k.part(&format!("repeat-{}-d{}", rep.name, depth), (n + B - 1) / B, &|cx, case| {
            let mut sub = 0; cx.begin(u64::MAX - 1, 0, b""); let _ = parse(rx, &rep.cfg, b"<a/>", WHOLE, &[]);
            for i in case * B..((case + 1) * B).min(n) {
                let mid: String = seq_at(i, a).iter().map(|&x| rep.alpha[x]).collect(); if mid.is_empty() { continue; }
                let unit = format!("{}{}{}", rep.up, mid, rep.us);
                let mut c1 = rep.cfg.clone(); c1.dflt = rep.cfg.dflt; let two = format!("{}{}{}{}", rep.pre, unit, unit, rep.post);
                cx.begin(u64::MAX - 2, 0, two.as_bytes()); let one = format!("{}{}{}", rep.pre, unit, rep.post);
                if st_err(&parse(rx, &c1, two.as_bytes(), WHOLE, &[]).log).0 != 1 || st_err(&parse(rx, &c1, one.as_bytes(), WHOLE, &[]).log).0 != 1 { continue; } // (can't be repeated)
                for (df, via, sus, whole) in [(rep.cfg.dflt, Via::Parse, false, false), (Dflt::No, Via::Buf, false, false), (rep.cfg.dflt, Via::Parse, true, false), (Dflt::Default, Via::Parse, false, true)] {
                    sub += 1; if !cx.begin(sub, 1, two.as_bytes()) { continue; } if i % 61 == 0 { cx.sample(|| format!("{} {{{}}}*", rep.pre, unit)); }
                    c1.dflt = df; let mut r = Run::new(rx, &c1); if sus { r.plan.push((u64::MAX, Act::Suspend)); }
                    cx.add(0, 1);
                    if whole { // pieces of one size, wherever they end: the peak does not depend on how often
                        let mut peak = [0i64; 2];
                        let n1 = 800usize.max(10_000 / unit.len()); // (the buffer keeps some of what came before, and has found its size by then)
                        for (x, n) in [(0, n1), (1, n1 * 4)] { let doc = format!("{}{}{}", rep.pre, unit.repeat(n), rep.post); let live0 = held(); unsafe { vp_peak_bytes = live0; } let cuts: Vec<usize> = (1..).map(|i| i * 199).take_while(|&i| i < doc.len()).collect(); let _ = parse(rx, &c1, doc.as_bytes(), Feed { cuts: &cuts, via: Via::Buf, fin_empty: false }, &[]); peak[x] = unsafe { vp_peak_bytes } - live0; }
                        if peak[1] > peak[0] { cx.violation(&format!("the memory used grows with the number of repetitions: {} {{ {} }}", rep.name, unit), &format!("peak of {}: {}, of four times as many: {}", n1, peak[0], peak[1])); }
                        continue;
                    }
                    let n = (if th { 2500 } else { 1500 }).max(40_000 / unit.len()); let base = held(); let p = create(&mut r);
                    let mut st = chunk(&mut r, p, rep.pre.as_bytes(), false, via); st = settle(&mut r, p, st); if st != 1 { free(&mut r, p); continue; }
                    let mut m = [0i64; 2]; let mut bad = false;
                    for q in 0..n { unsafe { vp_peak_bytes = held(); } st = chunk(&mut r, p, unit.as_bytes(), false, via); st = settle(&mut r, p, st); if st != 1 { bad = true; break; } let (h, pk) = (held() - base, unsafe { vp_peak_bytes } - base); let w = if q < n / 4 { continue } else if q < n / 2 { 0 } else { 1 }; m[w] = m[w].max(pk).max(h); r.log.clear(); }
                    if !bad { st = chunk(&mut r, p, rep.post.as_bytes(), true, via); settle(&mut r, p, st); }
                    free(&mut r, p); cx.outcome(format!("{:?}", m).as_bytes());
                    if !bad && m[1] > m[0] { cx.violation(&format!("what is held grows with what has been parsed: {} {{ {} }} {:?} suspended {}", rep.name, unit, via, sus), &format!("up to half of {}: {}, after it: {}", n, m[0], m[1])); }
                }
            }
        });
    }
    // lives: whatever was parsed, stopped, refused or reset, the next life needs no more than the first ones
    let c = docs();
    k.part("lives", c.len() as u64, &|cx, case| {
        let d = &c[case as usize]; let mut sub = 0; cx.begin(u64::MAX - 1, 0, b""); let _ = parse(rx, &d.cfg, &d.doc, WHOLE, &[]); if d.cfg.enc.is_some() { return; }
        let nev = parse(rx, &d.cfg, &d.doc, WHOLE, &[]).nev.min(30); let m = d.doc.len();
        for how in 0..3 + nev * 2 { sub += 1; if !cx.begin(sub, how, &d.doc) { continue; } cx.add(0, 1);
            let mut r = Run::new(rx, &d.cfg); if how >= 3 { r.plan.push(((how - 3) / 2, if how % 2 == 1 { Act::Suspend } else { Act::Abort })); }
            let base = held(); let p = create(&mut r); let mut w = [0i64; 2];
            for q in 0..24 { r.nev = 0; let data = if how == 1 { &d.doc[..m / 2] } else if how == 2 { &d.doc[..m * 4 / 5] } else { &d.doc[..] };
                chunk(&mut r, p, data, how != 1 && how != 2, if how == 1 { Via::Buf } else { Via::Parse });
                if q >= 6 { let x = (q >= 15) as usize; w[x] = w[x].max(held() - base); }
                lib!((rx.ParserReset)(p, null())); setup(&mut r, p, false); r.log.clear();
                if q >= 6 { let x = (q >= 15) as usize; w[x] = w[x].max(held() - base); } }
            free(&mut r, p);
            if w[1] > w[0] { cx.violation(&format!("a parser that is reset again and again holds more and more: {} how {}", d.name, how), &format!("{:?}", w)); }
        }
    });
    // requests of memory: their number and their bytes grow in proportion to the document
    let sh = shapes();
    let skip_bytes: &[&str] = &["entchain"];
    let tops: &[usize] = if th { &[2_000, 8_000, 32_000, 128_000] } else { &[2_000, 8_000, 32_000] };
    k.part("requests", (sh.len() * 3) as u64, &|cx, case| {
        let (si, how) = (case as usize / 3, case % 3); if skip_bytes.contains(&sh[si].0) { return; } let mut prev: Option<(u64, u64)> = None;
        cx.begin(u64::MAX - 1, 0, b""); let _ = parse(rx, &cfg(), b"<a/>", WHOLE, &[]);
        for &n in tops { let mut d = sh[si].1(n); if d.doc.len() > 6_000_000 { break; } if !cx.begin(n as u64, how, d.name.as_bytes()) { continue; } cx.add(0, 1);
            d.cfg.dflt = Dflt::No; let m = d.doc.len();
            // whole, in eight pieces, in pieces that double
            let cuts: Vec<usize> = match how { 0 => vec![], 1 => (1..8).map(|x| x * m / 8).collect(), _ => (0..).map(|x| 64usize << x).take_while(|&x| x < m).collect() };
            let (c0, b0) = unsafe { (vp_count, vp_total) }; let r = parse(rx, &d.cfg, &d.doc, Feed { cuts: &cuts, via: if how == 1 { Via::Buf } else { Via::Parse }, fin_empty: false }, &[]);
            let g = unsafe { (vp_count - c0, vp_total - b0) }; cx.outcome(&r.log[..r.log.len().min(2000)]);
            if let Some(p) = prev { if g.0 > 5 * p.0 + 200 || g.1 > 9 * p.1 + 100_000 { cx.violation(&format!("requests of memory grow faster than the document: {} how {} size {}", d.name, how, n), &format!("requests {} -> {}, bytes {} -> {} when the document grows fourfold", p.0, g.0, p.1, g.1)); } }
            if g.1 > 120 * m as u64 * (1 + d.cfg.ext.iter().map(|x| x.1.len()).sum::<usize>() as u64 / (m as u64)) + 2_000_000 { cx.violation(&format!("requests of memory out of proportion: {} how {} size {}", d.name, how, n), &format!("{} bytes for {} bytes", g.1, m)); }
            prev = Some(g);
        }
    });
    // time: eight times the document takes no more than about eight times as long
    fn cpu() -> f64 { let mut t = [0 as std::os::raw::c_long; 2]; unsafe { clock_gettime(3, t.as_mut_ptr()); } t[0] as f64 + t[1] as f64 * 1e-9 }
    k.part("time", (sh.len() * 3) as u64, &|cx, case| {
        let (name, f) = sh[case as usize / 3]; let how = case % 3; if name == "entchain" { return; } // (recursive: deep chains are looked at in C05)
        // whole, in eight pieces, whole with hardly a handler
        if !cx.begin(how + 1, how, name.as_bytes()) { return; } cx.add(0, 1);
        let go = |n: usize, times: usize| -> (f64, usize) { let mut d = f(n); d.cfg.dflt = Dflt::No; d.cfg.pos = false; if how == 2 { d.cfg.mask = h::EXTREF; } let m = d.doc.len(); let cuts: Vec<usize> = if how == 1 { (1..8).map(|x| x * m / 8).collect() } else { vec![] };
            let mut best = f64::MAX; for _ in 0..times { let t = cpu(); let _ = parse(rx, &d.cfg, &d.doc, Feed { cuts: &cuts, via: Via::Buf, fin_empty: false }, &[]); best = best.min(cpu() - t); cx.beat(); if best > 3.0 { break; } } (best, m) };
        // the size at which one run takes some time, or the document becomes big
        let mut n = 500; loop { let (t, m) = go(n, 2); if t > 0.015 || m > 2_000_000 || n > 1_000_000 { break; } n *= 2; }
        let mut rounds = 0; let (mut t1, mut t8, mut m);
        loop { t1 = go(n, 3).0; let q = go(n * 8, if rounds == 0 { 1 } else { 3 }); t8 = q.0; m = q.1; rounds += 1; if t8 <= 26.0 * t1.max(0.005) || rounds == 3 { break; } }
        if t8 > 26.0 * t1.max(0.005) { let what = if name == "attdecls" { "attribute declarations of one element type (each looks through those before it)".to_string() } else { format!("{} how {}", name, how) };
            cx.violation(&format!("time grows faster than the document: {}", what), &format!("size {}: {:.4} s; size {} ({} bytes): {:.4} s", n, t1, n * 8, m, t8)); }
        cx.sample(|| format!("{} size {}: {:.4} s, size {}: {:.4} s", name, n, t1, n * 8, t8));
    });
    k.finish("every sequence of repeatable constructs, every corpus document's repeated lives, every shape at growing sizes; one evaluation is one growing history whose memory (or time) is measured")
}
