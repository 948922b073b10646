//! Checks about how input is delivered: chunks, suspension, abortion, allocation failure, reset.
use crate::chk::*; use crate::drv::*; use crate::gen::*; use crate::pool::*; use crate::util::*; use crate::*;

/// One delivery compared with the one-call delivery.
fn cmp_delivery(cx: &mut Ctx, doc: &[u8], base: &[u8], got: &Run, cuts: &[usize], name: &[u8], how: &dyn Fn() -> String) {
    let (a, b) = (norm_delivery(&got.log, true), norm_delivery(base, true));
    if a != b && !junk_or_invalid(&a, &b) {
        // an explained difference: the chunk ends between CR and LF in the epilog
        let (la, lb) = (lines(&a), lines(&b));
        let fd = la.iter().zip(&lb).position(|(x, y)| x != y).unwrap_or(la.len().min(lb.len()));
        let last_e = lb.iter().rposition(|l| split_pos(l, true).1.starts_with(b"E ")).unwrap_or(usize::MAX);
        let crlf = cuts.iter().any(|&c| c > 0 && c < doc.len() && doc[c - 1] == b'\r' && doc[c] == b'\n');
        if crlf && fd > last_e && strip_linecol(&a) == strip_linecol(&b) { cx.violation("a chunk ends between CR and LF after the document element: later line numbers count the line break twice", &diff(&a, &b)); }
        else { cx.violation(&format!("{} {} {}", esc(name), how(), esc(doc)), &diff(&a, &b)); }
    }
    if got.in_err != 0 { cx.violation(&format!("input modified {} {}", how(), esc(doc)), "the caller's input was modified"); }
}
/// After the document element, a name-like run cut by the end of a chunk is junk at once, while with more
/// data at hand it may turn out to be an invalid token: same place or later, both ill-formed.
fn junk_or_invalid(got: &[u8], want: &[u8]) -> bool {
    let (a, b) = (lines(got), lines(want));
    if a.is_empty() || a.len() != b.len() || a[..a.len() - 1] != b[..b.len() - 1] { return false; }
    let num = |l: &[u8]| -> Vec<i64> { s(l).split(' ').skip(1).filter_map(|x| x.parse().ok()).collect() };
    let (x, y) = (num(a[a.len() - 1]), num(b[b.len() - 1]));
    x.len() == 5 && y.len() == 5 && x[0] == 0 && y[0] == 0 && x[1] == 9 && y[1] == 4 && x[4] <= y[4]
}
/// Delivers `doc` cut at `cuts`, alternating between the two input interfaces by `mode`:
/// 0 Parse, 1 GetBuffer/ParseBuffer, 2 alternating, 3 GetBuffer asked for more than is used, twice.
pub fn deliver(api: &'static ffi::Api, cf: &Cfg, doc: &[u8], cuts: &[usize], mode: u8, fin_empty: bool) -> Box<Run> {
    let mut r = Run::new(api, cf);
    let p = create(&mut r); assert!(!p.is_null());
    let mut at = 0; let mut st = 1;
    let n = cuts.len();
    for i in 0..=n + fin_empty as usize {
        let end = if i < n { cuts[i] } else { doc.len() }; let fin = if fin_empty { i == n + 1 } else { i == n };
        let d = if i > n { &b""[..] } else { &doc[at..end] };
        st = match mode {
            0 => chunk(&mut r, p, d, fin, Via::Parse), 1 => chunk(&mut r, p, d, fin, Via::Buf),
            2 => chunk(&mut r, p, d, fin, if i % 2 == 0 { Via::Parse } else { Via::Buf }),
            _ => {
                let _ = lib!((api.GetBuffer)(p, 1 + (d.len() as i32) * 2)); let b = lib!((api.GetBuffer)(p, d.len() as i32 + 700));
                if b.is_null() { -1 } else { unsafe { std::ptr::write_bytes(b as *mut u8, b'<', d.len() + 700); std::ptr::copy_nonoverlapping(d.as_ptr(), b as *mut u8, d.len()); } lib!((api.ParseBuffer)(p, d.len() as i32, fin as i32)) }
            }
        };
        st = settle(&mut r, p, st);
        if st != 1 { break; } at = end;
    }
    finish(&mut r, p, st); free(&mut r, p); r
}
pub fn c01(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C01", "exploration"); let rx = env.rx; let th = env.thorough();
    let c = docs();
    k.part("corpus-2cuts", c.len() as u64, &|cx, case| {
        let d = &c[case as usize]; let mut cf = d.cfg.clone(); cf.pos = true;
        cx.begin(u64::MAX - 1, 0, &d.doc);
        let base = parse(rx, &cf, &d.doc, WHOLE, &[]);
        let n = d.doc.len(); let mut sub = 0;
        let run1 = |cx: &mut Ctx, sub: u64, cf: &Cfg, cuts: &[usize], mode: u8, fe: bool| {
            if !cx.begin(sub, mode as u64, &d.doc) { return; }
            let x = deliver(rx, cf, &d.doc, cuts, mode, fe); cx.add(0, 1); cx.outcome(&x.log);
            cmp_delivery(cx, &d.doc, &base.log, &x, cuts, d.name.as_bytes(), &|| format!("cuts {:?} mode {} final-empty {} ext-chunk {}", cuts, mode, fe, cf.ext_chunk));
        };
        cx.sample(|| format!("{} {}", d.name, esc(&d.doc)));
        let echs: &[usize] = if d.cfg.ext.is_empty() { &[0] } else { &[0, 1, 3] };
        for &ech in echs { cf.ext_chunk = ech; for mode in 0..4u8 { for fe in [false, true] {
            for i in 0..=n { if n > 400 && i % 7 != 0 { continue; } for j in i..=n {
                if j > i && (n > 260 || (mode >= 2 && n > 90)) && !th { continue; }
                sub += 1; let cuts = if i == j { vec![i] } else { vec![i, j] }; run1(cx, sub, &cf, &cuts, mode, fe);
            } }
            for s in 1..=n.min(70) { sub += 1; let cuts: Vec<usize> = (1..).map(|i| i * s).take_while(|&x| x < n).collect(); run1(cx, sub, &cf, &cuts, mode, fe); }
        } } }
        if n <= if th { 70 } else { 34 } { for i in 0..=n { for j in i..=n { for l in j..=n { for mode in 0..2u8 { sub += 1; run1(cx, sub, &cf, &[i, j, l], mode, false); } } } } }
    });
    let vs: Vec<D> = c.iter().flat_map(variants).filter(|d| d.doc.len() < 600 && !d.cfg.dc_all).collect();
    k.part("variants", vs.len() as u64, &|cx, case| {
        let d = &vs[case as usize]; let mut cf = d.cfg.clone(); cf.pos = true; let n = d.doc.len(); let mut sub = 0;
        cx.begin(u64::MAX - 1, 0, &d.doc);
        let base = parse(rx, &cf, &d.doc, WHOLE, &[]);
        if st_err(&base.log).0 != 1 { return; } // (pieces of text before an error: see corpus)
        let mut cuts: Vec<Vec<usize>> = (0..=n).map(|i| vec![i]).collect(); for s in [1, 2, 3, 7] { cuts.push((1..).map(|i| i * s).take_while(|&x| x < n).collect()); }
        for (i, c) in cuts.iter().enumerate() { for e in if cf.ext.is_empty() { vec![0] } else { vec![0, 1] } { cf.ext_chunk = e; let mode = (i % 4) as u8; let fe = i % 3 == 0;
            sub += 1; if !cx.begin(sub, mode as u64, &d.doc) { continue; }
            let x = deliver(rx, &cf, &d.doc, c, mode, fe); cx.add(0, 1); cx.outcome(&x.log);
            cmp_delivery(cx, &d.doc, &base.log, &x, c, d.name.as_bytes(), &|| format!("cuts {:?} mode {} final-empty {} ext-chunk {}", c, mode, fe, cf.ext_chunk));
        } }
    });
    // token families: every sequence, every single cut, and byte by byte
    for f in families() {
        let depth = depth_for(&f, if th { 1_000_000 } else { 30_000 }); let n = f.n(depth); const B: u64 = 16;
        k.part(&format!("{}-d{}", f.name, depth), (n + B - 1) / B, &|cx, case| {
            let mut sub = 0;
            for i in case * B..((case + 1) * B).min(n) { for ci in 0..f.cfgs.len() {
                let (doc, mut cf) = f.case(i, ci); cf.pos = true;
                cx.begin(u64::MAX - 1, 0, &doc);
                let base = parse(rx, &cf, &doc, WHOLE, &[]);
                let m = doc.len();
                let mut go = |cx: &mut Ctx, cf: &Cfg, cuts: &[usize], mode: u8, fe: bool| {
                    sub += 1; if !cx.begin(sub, 0, &doc) { return; }
                    let x = deliver(rx, cf, &doc, cuts, mode, fe); cx.add(0, 1); if cuts.len() == m { cx.outcome(&x.log); }
                    cmp_delivery(cx, &doc, &base.log, &x, cuts, b"", &|| format!("cuts {:?} mode {} final-empty {} ext-chunk {}", cuts, mode, fe, cf.ext_chunk));
                };
                let lo = if f.ext.is_some() { m } else { f.pre.len().saturating_sub(2) };
                for c in lo..=m { go(cx, &cf, &[c], (i % 2) as u8, c == m); }
                let all: Vec<usize> = (1..=m).collect(); go(cx, &cf, &all, (i % 4) as u8, true);
                if f.ext.is_some() || !cf.ext.is_empty() { for e in 1..=6 { cf.ext_chunk = e; go(cx, &cf, &[], 0, false); } cf.ext_chunk = 1; go(cx, &cf, &all, 1, true); }
                if case % 97 == 0 { cx.sample(|| esc(&doc)); }
            } }
        });
    }
    // sizes: every shape, sizes around the internal thresholds, several chunk sizes
    let sh = shapes(); let sz = sizes(if th { 300 } else { 40 }, if th { 70_000 } else { 9_000 });
    k.part("sizes", (sh.len() * sz.len()) as u64, &|cx, case| {
        let (si, n) = (case as usize / sz.len(), sz[case as usize % sz.len()]);
        let d = sh[si].1(n); let mut cf = d.cfg.clone(); cf.pos = true; let m = d.doc.len();
        if m > 400_000 { return; }
        let base = parse(rx, &cf, &d.doc, WHOLE, &[]); cx.outcome(&base.log);
        let mut sub = 0;
        for s in [1, 2, 3, 7, 64, 255, 256, 257, 1023, 1024, 1025, 2048, 4095, 4097, m / 2 + 1, m.saturating_sub(1)] {
            if s == 0 || s > m || (s < 16 && m > 1500) || (s < 200 && m > 20_000) { continue; }
            sub += 1; let mode = (sub % 4) as u8; let cuts: Vec<usize> = (1..).map(|i| i * s).take_while(|&x| x < m).collect();
            if !cf.ext.is_empty() { cf.ext_chunk = s; }
            if !cx.begin(sub, n as u64, d.name.as_bytes()) { continue; }
            let x = deliver(rx, &cf, &d.doc, &cuts, mode, s % 2 == 0); cx.add(0, 1);
            let (a, b) = (norm_delivery(&x.log, true), norm_delivery(&base.log, true));
            if a != b { cx.violation(&format!("shape {} size {} chunks of {} mode {}", d.name, n, s, mode), &diff(&a, &b)); }
        }
    });
    k.finish("Every document of the corpus with every choice of 0-2 cut positions (3 for short ones) and every uniform chunk size, four ways of passing the chunks, with and without an empty final call, external entities in one or several chunks; every token sequence of each family up to the stated depth with every single cut and byte by byte; every shape at every size around the internal thresholds with several chunk sizes. A case is distinct and non-trivial when its recorded event log (events, values, positions, final status) is new.")
}

/// Suspension at planned events with all queries made while suspended.
fn suspended_probe(rx: &'static ffi::Api, cf: &Cfg, doc: &[u8], plan: &[(u64, Act)], bad: &mut String) -> Box<Run> {
    use crate::ffi::*;
    let mut r = Run::new(rx, cf); r.plan.extend_from_slice(plan);
    let p = create(&mut r);
    let mut st = chunk(&mut r, p, doc, true, Via::Parse);
    while st == 2 {
        let mut ps = PStatus::default();
        let mut want = |b: bool, s: &str| if !b && bad.is_empty() { *bad = s.to_string(); };
        lib!((rx.GetParsingStatus)(p, &mut ps)); want(ps.parsing == 3, "GetParsingStatus while suspended");
        let pos = lib!(((rx.GetCurrentByteIndex)(p), (rx.GetCurrentLineNumber)(p), (rx.GetCurrentColumnNumber)(p)));
        let x = b"<zz/>";
        want(lib!((rx.Parse)(p, x.as_ptr() as CS, 5, 0)) == 0 && lib!((rx.GetErrorCode)(p)) == err::SUSPENDED, "XML_Parse while suspended");
        want(lib!((rx.GetBuffer)(p, 3)).is_null() && lib!((rx.GetErrorCode)(p)) == err::SUSPENDED, "XML_GetBuffer while suspended");
        want(lib!((rx.ParseBuffer)(p, 0, 1)) == 0 && lib!((rx.GetErrorCode)(p)) == err::SUSPENDED, "XML_ParseBuffer while suspended");
        want(lib!((rx.StopParser)(p, 1)) == 0 && lib!((rx.GetErrorCode)(p)) == err::SUSPENDED, "XML_StopParser while suspended");
        want(lib!((rx.SetEncoding)(p, b"US-ASCII\0".as_ptr() as CS)) == 0, "XML_SetEncoding while suspended");
        want(lib!((rx.UseForeignDTD)(p, 1)) == err::CANT_CHANGE_FEATURE_ONCE_PARSING, "XML_UseForeignDTD while suspended");
        want(lib!((rx.SetParamEntityParsing)(p, 1)) == 0, "XML_SetParamEntityParsing while suspended");
        want(lib!(((rx.GetCurrentByteIndex)(p), (rx.GetCurrentLineNumber)(p), (rx.GetCurrentColumnNumber)(p))) == pos, "position while suspended");
        lib!((rx.GetParsingStatus)(p, &mut ps)); want(ps.parsing == 3, "GetParsingStatus after refused calls");
        r.resumes += 1; st = lib!((rx.ResumeParser)(p));
    }
    let (st, ec) = finish(&mut r, p, st);
    if lib!((rx.ResumeParser)(p)) != 0 && bad.is_empty() { *bad = "XML_ResumeParser succeeded on a parser that is not suspended".into(); }
    // (when a handler suspended the parser and the same token then proved wrong, the error stays in force)
    let e2 = lib!((rx.GetErrorCode)(p));
    if e2 != err::NOT_SUSPENDED && (st == 1 || e2 != ec) && bad.is_empty() { *bad = "error code of XML_ResumeParser on a parser that is not suspended".into(); }
    free(&mut r, p); r
}
/// Equality for suspended runs.  After a suspension inside an internal entity, the position of what is
/// still to be reported from that entity is the end of the reference instead of its start.
fn eq_suspended(got: &[u8], want: &[u8], doc: &[u8], cf: &Cfg) -> bool {
    let (a, b) = (norm_delivery(got, true), norm_delivery(want, true));
    if a == b { return true; }
    let (x, y) = (lines(&a), lines(&b));
    if x.len() != y.len() { return false; }
    for (g, w) in x.iter().zip(&y) {
        if g == w { continue; }
        if strip_pos(g, true) != strip_pos(w, true) { return false; }
        let (i, j) = (pos3(g), pos3(w));
        let texts = [&[(vec![], doc.to_vec())][..], &cf.ext[..]].concat();
        if !texts.iter().any(|t| ref_end(&t.1, j[2]).map_or(false, |e| (i[2] == e || i[2] == j[2]) && i[0] == j[0] && i[1] >= j[1] && i[1] <= j[1] + e - j[2])) { return false; }
    }
    true
}
/// The run without suspension but with the same delivery (kept for the last delivery).
struct Base { key: (Vec<usize>, Via, bool, usize), run: Box<Run> }
impl Base {
    fn get(&mut self, rx: &'static ffi::Api, cf: &Cfg, doc: &[u8], f: Feed) -> &Run {
        let k = &self.key;
        if k.0 != f.cuts || k.1 != f.via || k.2 != f.fin_empty || k.3 != cf.ext_chunk { self.run = parse(rx, cf, doc, f, &[]); self.key = (f.cuts.to_vec(), f.via, f.fin_empty, cf.ext_chunk); }
        &self.run
    }
}
/// line, column and byte index of a log line
fn pos3(l: &[u8]) -> [i64; 3] {
    let (p, x) = split_pos(l, true);
    let v: Vec<i64> = if p.is_empty() { s(x).split(' ').skip(3).filter_map(|x| x.parse().ok()).collect() } else { s(p).split(':').filter_map(|x| x.parse().ok()).collect() };
    if v.len() == 3 { [v[0], v[1], v[2]] } else { [-9, -9, -9] }
}
/// The end of the entity reference that starts at byte `at`.
fn ref_end(t: &[u8], at: i64) -> Option<i64> {
    if at < 0 || at as usize >= t.len() { return None; }
    let r = &t[at as usize..]; let z = r.iter().take(2).any(|&c| c == 0) as usize; let first = if z == 1 && r[0] == 0 { r.get(1) } else { r.first() };
    if !matches!(first, Some(b'&') | Some(b'%')) { return None; }
    r.iter().position(|&c| c == b';').map(|i| at + i as i64 + 1 + if z == 1 && r[0] != 0 { 1 } else { 0 })
}
pub fn c02(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C02", "exploration"); let rx = env.rx; let th = env.thorough();
    let c = docs();
    const ALLEV: u64 = u64::MAX;
    k.part("corpus-pairs", c.len() as u64, &|cx, case| {
        let d = &c[case as usize]; let mut cf = d.cfg.clone(); cf.pos = true;
        cx.begin(u64::MAX - 1, 0, &d.doc);
        let base = parse(rx, &cf, &d.doc, WHOLE, &[]); let n = base.nev; let m = d.doc.len(); let mut sub = 0;
        let mut base = Base { key: (vec![9], Via::Parse, false, 0), run: base };
        cx.sample(|| format!("{} ({} events) {}", d.name, n, esc(&d.doc)));
        let mut go = |cx: &mut Ctx, cf: &Cfg, f: Feed, plan: &[(u64, Act)]| {
            sub += 1; if !cx.begin(sub, 1, format!("{} {:?} {:?} {} ", d.name, plan.iter().map(|x| x.0).collect::<Vec<_>>(), f.cuts, cf.ext_chunk).as_bytes()) { return; }
            let x = parse(rx, cf, &d.doc, f, plan); cx.add(0, 1); if x.resumes > 0 { cx.add(3, 1); } cx.outcome(&x.log);
            let base = base.get(rx, cf, &d.doc, f);
            if !eq_suspended(&x.log, &base.log, &d.doc, cf) { cx.violation(&format!("{} suspended at {:?} cuts {:?} {:?} ext-chunk {} {}", d.name, plan.iter().map(|x| x.0 as i64).collect::<Vec<_>>(), f.cuts, f.via, cf.ext_chunk, esc(&d.doc)), &diff(&x.log, &base.log)); }
        };
        let bytes: Vec<usize> = (1..=m).collect(); let half = [m / 2];
        let feeds = [WHOLE, Feed { cuts: &[], via: Via::Buf, fin_empty: true }, Feed { cuts: &bytes, via: Via::Parse, fin_empty: false }, Feed { cuts: &half, via: Via::Buf, fin_empty: false }];
        let feeds = if m > 3000 { &feeds[..2] } else { &feeds[..] };
        let cap = if th { 400 } else { 60 };
        let n2 = n.min(cap);
        for f in feeds { go(cx, &cf, *f, &[(ALLEV, Act::Suspend)]); for i in 0..n2 + 2 { for j in i..n2 + 2 { go(cx, &cf, *f, &if i == j { vec![(i, Act::Suspend)] } else { vec![(i, Act::Suspend), (j, Act::Suspend)] }); } } }
        if n <= 24 { for i in 0..n { for j in i + 1..n { for l in j + 1..n { go(cx, &cf, WHOLE, &[(i, Act::Suspend), (j, Act::Suspend), (l, Act::Suspend)]); } } } }
        // every single cut with every single suspension
        if m <= 400 { for cut in 1..m { for i in 0..n2 { go(cx, &cf, Feed { cuts: &[cut], via: if i % 2 == 0 { Via::Parse } else { Via::Buf }, fin_empty: false }, &[(i, Act::Suspend)]); } go(cx, &cf, Feed { cuts: &[cut], via: Via::Parse, fin_empty: true }, &[(ALLEV, Act::Suspend)]); } }
        if !cf.ext.is_empty() { for e in [1, 2, 5] { cf.ext_chunk = e; for f in feeds { go(cx, &cf, *f, &[(ALLEV, Act::Suspend)]); for i in 0..n2 { go(cx, &cf, *f, &[(i, Act::Suspend)]); } } } }
    });
    let vs: Vec<D> = c.iter().flat_map(variants).filter(|d| d.doc.len() < 900).collect();
    k.part("variants", vs.len() as u64, &|cx, case| {
        let d = &vs[case as usize]; let mut cf = d.cfg.clone(); cf.pos = true; let m = d.doc.len(); let mut sub = 0;
        cx.begin(u64::MAX - 1, 0, &d.doc);
        let bytes: Vec<usize> = (1..=m).collect();
        for e in if cf.ext.is_empty() { vec![0] } else { vec![0, 1] } { cf.ext_chunk = e; for f in [WHOLE, Feed { cuts: &bytes, via: Via::Buf, fin_empty: true }] {
            let base = parse(rx, &cf, &d.doc, f, &[]); let n = base.nev.min(if th { 400 } else { 80 });
            for i in 0..=n {
                let at = if i == n { ALLEV } else { i };
                sub += 1; if !cx.begin(sub, 1, &d.doc) { continue; }
                let x = parse(rx, &cf, &d.doc, f, &[(at, Act::Suspend)]); cx.add(0, 1); if x.resumes > 0 { cx.add(3, 1); } cx.outcome(&x.log);
                if !eq_suspended(&x.log, &base.log, &d.doc, &cf) { cx.violation(&format!("{} suspended at {} cuts {} ext-chunk {} {}", d.name, at as i64, f.cuts.len(), e, esc(&d.doc)), &diff(&x.log, &base.log)); }
            }
        } }
    });
    // between the suspension and the return of the call nothing more is reported than the rest of the same token
    let prompt = |cx: &mut Ctx, sub: u64, name: &str, cf: &Cfg, doc: &[u8], cuts: &[usize], base: &Run, i: u64| {
        if !cx.begin(sub, 3, format!("{} {} {:?} {}", name, i, cuts, esc(doc)).as_bytes()) { return; }
        let mut r = Run::new(rx, cf); r.plan.push((i, Act::Suspend)); r.raw = true; r.strict = true;
        let p = create(&mut r); let mut st = 1; let mut at = 0;
        for &e in cuts.iter().chain([&doc.len()]) { st = chunk(&mut r, p, &doc[at..e], e == doc.len(), Via::Parse); at = e; if st != 1 { break; } }
        cx.add(0, 1); cx.outcome(&r.log);
        let g = no_end(&r.log); let child = g.get(i as usize).map_or(false, |l| l.starts_with(b">"));
        let pe_child = st == 0; // a parameter entity's parser cannot be suspended; an error may follow in the same token
        let mut bad = match abort_ok(&r.log, &base.log, i as usize, in_pieces(doc, cf)) { Err(e) if !child && !pe_child => e.replace("abort", "suspend"), _ => String::new() };
        if bad.is_empty() && !child && st == 1 { bad = format!("status {} after a suspension in call {}\n{}", st, i, s(&r.log)); }
        free(&mut r, p);
        if !bad.is_empty() { cx.violation(&format!("{} suspended at {} cuts {:?} {}", name, i, cuts, esc(doc)), &bad); }
    };
    k.part("prompt", c.len() as u64, &|cx, case| {
        let d = &c[case as usize]; let mut cf = d.cfg.clone(); cf.pos = true; let mut sub = 0; let m = d.doc.len();
        cx.begin(u64::MAX - 1, 0, &d.doc);
        let bytes: Vec<usize> = (1..m).collect(); let mut all = vec![vec![], bytes]; if m <= 400 { for i in 1..m { all.push(vec![i]); } }
        for cuts in &all { let base = raw_run(rx, &cf, &d.doc, Feed { cuts, via: Via::Parse, fin_empty: false }, &[], &mut |_, _, _| {}); for i in 0..base.nev.min(100) { sub += 1; prompt(cx, sub, &d.name, &cf, &d.doc, cuts, &base, i); } }
    });
    k.part("prompt-variants", vs.len() as u64, &|cx, case| {
        let d = &vs[case as usize]; if d.cfg.dc_all { return; } let mut cf = d.cfg.clone(); cf.pos = true; let mut sub = 0; let m = d.doc.len();
        cx.begin(u64::MAX - 1, 0, &d.doc);
        let bytes: Vec<usize> = (1..m).collect();
        for cuts in [&[][..], &bytes] { let base = raw_run(rx, &cf, &d.doc, Feed { cuts, via: Via::Parse, fin_empty: false }, &[], &mut |_, _, _| {}); for i in 0..base.nev.min(100) { sub += 1; prompt(cx, sub, &d.name, &cf, &d.doc, cuts, &base, i); } }
    });
    for f in families() {
        let depth = depth_for(&f, if th { 400_000 } else { 30_000 }); let n = f.n(depth); const B: u64 = 16;
        k.part(&format!("prompt-{}-d{}", f.name, depth), (n + B - 1) / B, &|cx, case| {
            let mut sub = 0;
            for i in case * B..((case + 1) * B).min(n) { for ci in 0..f.cfgs.len() {
                let (doc, mut cf) = f.case(i, ci); cf.pos = true;
                cx.begin(u64::MAX - 1, 0, &doc);
                let base = raw_run(rx, &cf, &doc, WHOLE, &[], &mut |_, _, _| {});
                for j in 0..base.nev { sub += 1; prompt(cx, sub, "", &cf, &doc, &[], &base, j); }
            } }
        });
    }
    k.part("while-suspended", c.len() as u64, &|cx, case| {
        let d = &c[case as usize]; let mut cf = d.cfg.clone(); cf.pos = true;
        cx.begin(u64::MAX - 1, 0, &d.doc);
        let base = parse(rx, &cf, &d.doc, WHOLE, &[]);
        for i in 0..base.nev.min(200) + 1 {
            let plan = if i == base.nev.min(200) { (ALLEV, Act::Suspend) } else { (i, Act::Suspend) };
            if !cx.begin(i, 2, d.name.as_bytes()) { continue; }
            let mut bad = String::new();
            let x = suspended_probe(rx, &cf, &d.doc, &[plan], &mut bad); cx.add(0, 1); cx.outcome(&x.log);
            if !bad.is_empty() { cx.violation(&format!("{} suspended at {}: {}", d.name, plan.0 as i64, bad), &bad); }
            if !eq_suspended(&x.log, &base.log, &d.doc, &cf) { cx.violation(&format!("{} suspended at {} with refused calls {}", d.name, plan.0 as i64, esc(&d.doc)), &diff(&x.log, &base.log)); }
        }
    });
    for f in families() {
        let depth = depth_for(&f, if th { 1_000_000 } else { 110_000 }); let n = f.n(depth); const B: u64 = 16;
        k.part(&format!("{}-d{}", f.name, depth), (n + B - 1) / B, &|cx, case| {
            let mut sub = 0;
            for i in case * B..((case + 1) * B).min(n) { for ci in 0..f.cfgs.len() {
                let (doc, mut cf) = f.case(i, ci); cf.pos = true;
                cx.begin(u64::MAX - 1, 0, &doc);
                let base = parse(rx, &cf, &doc, WHOLE, &[]); let n = base.nev;
                let mut base = Base { key: (vec![], Via::Parse, false, 0), run: base };
                let mut go = |cx: &mut Ctx, cf: &Cfg, f: Feed, plan: &[(u64, Act)]| {
                    sub += 1; if !cx.begin(sub, 1, &doc) { return; }
                    let x = parse(rx, cf, &doc, f, plan); cx.add(0, 1); if x.resumes > 0 { cx.add(3, 1); cx.outcome(&x.log); }
                    let base = base.get(rx, cf, &doc, f);
                    if !eq_suspended(&x.log, &base.log, &doc, cf) { cx.violation(&format!("suspended at {:?} cuts {:?} ext-chunk {} {}", plan.iter().map(|x| x.0 as i64).collect::<Vec<_>>(), f.cuts, cf.ext_chunk, esc(&doc)), &diff(&x.log, &base.log)); }
                };
                for j in 0..n { go(cx, &cf, WHOLE, &[(j, Act::Suspend)]); }
                go(cx, &cf, WHOLE, &[(ALLEV, Act::Suspend)]);
                let bytes: Vec<usize> = (1..=doc.len()).collect();
                go(cx, &cf, Feed { cuts: &bytes, via: if i % 2 == 0 { Via::Parse } else { Via::Buf }, fin_empty: false }, &[(ALLEV, Act::Suspend)]);
                if !cf.ext.is_empty() { cf.ext_chunk = 1; go(cx, &cf, WHOLE, &[(ALLEV, Act::Suspend)]); }
                if case % 97 == 0 { cx.sample(|| esc(&doc)); }
            } }
        });
    }
    let sh = shapes(); let sz = sizes(if th { 100 } else { 10 }, if th { 40_000 } else { 4_200 });
    k.part("sizes", (sh.len() * sz.len()) as u64, &|cx, case| {
        let (si, n) = (case as usize / sz.len(), sz[case as usize % sz.len()]);
        let d = sh[si].1(n); let mut cf = d.cfg.clone(); cf.pos = true; let m = d.doc.len();
        if m > 300_000 { return; }
        let base = parse(rx, &cf, &d.doc, WHOLE, &[]); cx.outcome(&base.log);
        let cuts: Vec<usize> = (1..).map(|i| i * 1000).take_while(|&x| x < m).collect(); let nev = base.nev;
        let mut base = Base { key: (vec![], Via::Parse, false, 0), run: base };
        for (s, f) in [WHOLE, Feed { cuts: &cuts, via: Via::Parse, fin_empty: false }].into_iter().enumerate() { for (t, plan) in [(ALLEV, Act::Suspend), (0, Act::Suspend), (nev / 2, Act::Suspend), (nev.saturating_sub(2), Act::Suspend)].into_iter().enumerate() {
            if !cx.begin((s * 4 + t) as u64, n as u64, d.name.as_bytes()) { continue; }
            let x = parse(rx, &cf, &d.doc, f, &[plan]); cx.add(0, 1);
            let base = base.get(rx, &cf, &d.doc, f);
            if !eq_suspended(&x.log, &base.log, &d.doc, &cf) { cx.violation(&format!("shape {} size {} suspended at {} feed {}", d.name, n, plan.0 as i64, s), &diff(&x.log, &base.log)); }
        } }
    });
    k.finish("Every corpus document with every single handler call and every pair (every triple for short ones) of handler calls as suspension points, under four deliveries, every single cut combined with every single suspension, suspension at every call, children included, and with every other API call refused while suspended; every token sequence of each family up to the stated depth with every single suspension point and with suspension everywhere, whole and byte by byte. Non-trivial: a run that was really suspended and has a new event log.")
}

/// A run whose log has one line per handler call, without coalescing of text.
fn raw_run(rx: &'static ffi::Api, cf: &Cfg, doc: &[u8], f: Feed, plan: &[(u64, Act)], after: &mut dyn FnMut(&mut Run, ffi::P, i32)) -> Box<Run> {
    let mut r = Run::new(rx, cf); r.plan.extend_from_slice(plan); r.raw = true; r.strict = true;
    let p = create(&mut r);
    if p.is_null() { return r; }
    let st = feed(&mut r, p, doc, f.cuts, f.via, f.fin_empty);
    let (st, _) = finish(&mut r, p, st);
    after(&mut r, p, st);
    free(&mut r, p); r
}
fn no_end(l: &[u8]) -> Vec<&[u8]> { let mut v = lines(l); v.retain(|l| { let x = bare(l); let x = if x.first().map_or(false, |c| c.is_ascii_digit() || *c == b'-') { split_pos(l, true).1 } else { x }; !x.starts_with(b"END") && !x.starts_with(b"XEND") }); v }
/// What may still be reported after an abort from handler call `i`: only the rest of the same token - the
/// start and the end of the same empty element, namespace declarations going in and out with it, the rest of
/// a run of text, ... - as listed here by pairs of calls.
/// Text that has to be converted comes in pieces, one handler call for each.
fn in_pieces(doc: &[u8], cf: &Cfg) -> bool { use crate::p_pos::*; cf.unk.is_some() || cf.ext_enc.is_some() || code_of(doc, cf.enc) != Code::U8 || cf.ext.iter().any(|e| code_of(&e.1, None) != Code::U8) }
fn abort_ok(got: &[u8], base: &[u8], i: usize, pieces: bool) -> Result<usize, String> {
    let (g, b) = (no_end(got), no_end(base));
    let ext = g.get(i).map_or(false, |l| split_pos(l, true).1.starts_with(b"EXT"));
    let n = if ext { i + 1 } else { g.len() };
    if n > b.len() || g.len() < n || g[..n] != b[..n] { return Err(format!("the calls before the abort are not those of the complete parse\n{}", diff(&g.join(&b'\n'), &b.join(&b'\n')))); }
    if g.len() <= i { return Err(format!("{} calls were made before the abort at call {}", g.len(), i)); }
    let tag = |l: &[u8]| -> String { let x = split_pos(l, true).1; s(x.split(|&c| c == b' ' || c == b'#').next().unwrap()) };
    let name = |l: &[u8]| -> Vec<u8> { split_pos(l, true).1.split(|&c| c == b'\'').nth(1).unwrap_or(b"").to_vec() };
    // 0: content, 1: prolog (the same token, at the same position)
    let pos = |l: &[u8]| -> Vec<u8> { split_pos(l, true).0.to_vec() }; let depth = |l: &[u8]| l.len() - bare(l).len();
    let prolog = |t: &str| matches!(t, "DT[" | "]DT" | "NOTSA" | "D" | "EXT" | "ENT" | "ATT" | "EL" | "NOT" | "XD" | "UNK" | "SKIP");
    let mut in_child = false;
    for j in i + 1..g.len() {
        if in_child && depth(g[j]) > depth(g[i]) { continue; }
        if prolog(&tag(g[i])) && prolog(&tag(g[j])) && tag(g[i]) != "]DT" && pos(g[i]) == pos(g[j]) && depth(g[i]) == depth(g[j]) && !pos(g[i]).is_empty() { if tag(g[j]) == "EXT" { in_child = true; } continue; }
        let (t0, t1) = (tag(g[j - 1]), tag(g[j]));
        let ok = match (&t0[..], &t1[..]) {
            ("T", "T") | ("D", "D") if pieces => true,
            ("NS+", "NS+") | ("NS-", "NS-") | ("E", "NS-") | ("NS+", "NS-") => true,
            ("NS+", "S") => true,
            ("S", "E") => name(g[j - 1]) == name(g[j]),
            _ => false,
        };
        if !ok { return Err(format!("call {} ({}) was made after the parse had been aborted in call {} ({})", j, s(g[j]), i, s(g[i]))); }
    }
    Ok(g.len() - i - 1)
}
pub fn c03(env: &Env) -> i32 {
    use crate::ffi::*;
    let mut k = Chk::new(env, "C03", "exploration"); let rx = env.rx; let th = env.thorough();
    // the obligations on an aborted parser
    fn after(rx: &'static Api, r: &mut Run, p: P, st: i32, want_abort: bool, bad: &mut String) {
        let mut w = |b: bool, s: String| if !b && bad.is_empty() { *bad = s; };
        let n0 = r.nev;
        let ec = lib!((rx.GetErrorCode)(p)); let want_abort = want_abort && ec == err::ABORTED;
        w(st == 0, format!("status {} after an abort", st));
        if want_abort { w(ec == err::ABORTED, format!("error code {} after an abort", ec)); }
        let mut ps = PStatus::default(); lib!((rx.GetParsingStatus)(p, &mut ps));
        let d = b"<zz/>";
        if want_abort {
            w(ps.parsing == 2, format!("parsing status {} after an abort", ps.parsing));
            w(lib!((rx.StopParser)(p, 0)) == 0 && lib!((rx.GetErrorCode)(p)) == err::FINISHED, "XML_StopParser after an abort".into());
            w(lib!((rx.StopParser)(p, 1)) == 0 && lib!((rx.GetErrorCode)(p)) == err::FINISHED, "XML_StopParser(resumable) after an abort".into());
            w(lib!((rx.ResumeParser)(p)) == 0 && lib!((rx.GetErrorCode)(p)) == err::NOT_SUSPENDED, "XML_ResumeParser after an abort".into());
            w(lib!((rx.GetBuffer)(p, 5)).is_null() && lib!((rx.GetErrorCode)(p)) == err::FINISHED, "XML_GetBuffer after an abort".into());
            w(lib!((rx.ParseBuffer)(p, 0, 0)) == 0 && lib!((rx.GetErrorCode)(p)) == err::FINISHED, "XML_ParseBuffer after an abort".into());
            w(lib!((rx.Parse)(p, d.as_ptr() as CS, 5, 0)) == 0 && lib!((rx.GetErrorCode)(p)) == err::FINISHED, "XML_Parse after an abort".into());
            w(lib!((rx.Parse)(p, std::ptr::null(), 0, 1)) == 0 && lib!((rx.GetErrorCode)(p)) == err::FINISHED, "final XML_Parse after an abort".into());
            lib!((rx.GetParsingStatus)(p, &mut ps)); w(ps.parsing == 2, format!("parsing status {} after refused calls", ps.parsing));
        } else { w(lib!((rx.Parse)(p, d.as_ptr() as CS, 5, 1)) == 0, "XML_Parse succeeded after a failed parse".into()); }
        w(r.nev == n0, "handlers were called after an abort".into());
    }
    let one = |cx: &mut Ctx, sub: &mut u64, name: &str, cf: &Cfg, doc: &[u8], f: Feed, base: &Run, n: u64| {
        for i in 0..n {
            *sub += 1; if !cx.begin(*sub, 1, format!("{} abort {} {:?}", name, i, f.cuts).as_bytes()) { continue; }
            let mut bad = String::new(); let live0 = live();
            let x = raw_run(rx, cf, doc, f, &[(i, Act::Abort)], &mut |r, p, st| {
                // an abort inside an external entity's parser ends that parser; the parent reports the failure of the entity
                let line = no_end(&r.log).get(i as usize).map(|l| l.to_vec()).unwrap_or_default();
                after(rx, r, p, st, !line.starts_with(b">"), &mut bad) });
            cx.add(0, 1); cx.outcome(&x.log);
            let mut e = abort_ok(&x.log, &base.log, i as usize, in_pieces(doc, cf));
            // another error may end the parse instead: that of the same token, as without the abort, or an entity's failure
            let (ec, be) = (st_err(&x.log).1, st_err(&base.log).1); let g = no_end(&x.log);
            if e.is_ok() && ec != err::ABORTED && !(ec == be && no_end(&base.log).len() == g.len()) && !(ec == 21 && g[i as usize].starts_with(b">")) { e = Err(format!("error code {} after an abort\n{}", ec, s(&x.log))); }
            let key = || format!("{} abort at call {} cuts {:?} {:?} {}", name, i, f.cuts, f.via, esc(doc));
            if let Err(e) = e { cx.violation(&key(), &e); }
            else if !bad.is_empty() { cx.violation(&key(), &format!("{}\n{}", bad, s(&x.log))); }
            else if let Some(m) = { let l = x; let m = mem_bad(&l, live0); drop(l); m } { cx.violation(&key(), &m); }
        }
    };
    let c = docs();
    k.part("corpus", c.len() as u64, &|cx, case| {
        let d = &c[case as usize]; let mut cf = d.cfg.clone(); cf.pos = true; let m = d.doc.len(); let mut sub = 0;
        cx.begin(u64::MAX - 1, 0, &d.doc); cx.sample(|| format!("{} {}", d.name, esc(&d.doc)));
        let bytes: Vec<usize> = (1..=m).collect();
        let mut feeds: Vec<Vec<usize>> = vec![vec![], bytes]; if m <= if th { 1000 } else { 300 } { for i in 1..m { feeds.push(vec![i]); } }
        for (fi, cuts) in feeds.iter().enumerate() { for fe in [false, true] {
            let f = Feed { cuts, via: if fi % 2 == 0 { Via::Parse } else { Via::Buf }, fin_empty: fe };
            let base = raw_run(rx, &cf, &d.doc, f, &[], &mut |_, _, _| {});
            let n = base.nev.min(if th { 2000 } else { 150 });
            one(cx, &mut sub, &d.name, &cf, &d.doc, f, &base, n);
        } }
        for e in [1, 3] { if cf.ext.is_empty() { break; } let mut c2 = cf.clone(); c2.ext_chunk = e; let base = raw_run(rx, &c2, &d.doc, WHOLE, &[], &mut |_, _, _| {}); one(cx, &mut sub, &d.name, &c2, &d.doc, WHOLE, &base, base.nev.min(150)); }
    });
    let vs: Vec<D> = c.iter().flat_map(variants).filter(|d| d.doc.len() < 900 && !d.cfg.dc_all).collect();
    k.part("variants", vs.len() as u64, &|cx, case| {
        let d = &vs[case as usize]; let mut cf = d.cfg.clone(); cf.pos = true; let m = d.doc.len(); let mut sub = 0;
        cx.begin(u64::MAX - 1, 0, &d.doc);
        let bytes: Vec<usize> = (1..=m).collect();
        for e in if cf.ext.is_empty() { vec![0] } else { vec![0, 1] } { cf.ext_chunk = e; for f in [WHOLE, Feed { cuts: &bytes, via: Via::Buf, fin_empty: true }] {
            let base = raw_run(rx, &cf, &d.doc, f, &[], &mut |_, _, _| {}); one(cx, &mut sub, &d.name, &cf, &d.doc, f, &base, base.nev.min(if th { 2000 } else { 100 }));
        } }
    });
    // suspended at one call, then aborted while suspended, or at a later call
    k.part("abort-suspended", c.len() as u64, &|cx, case| {
        let d = &c[case as usize]; let mut cf = d.cfg.clone(); cf.pos = true;
        let base = raw_run(rx, &cf, &d.doc, WHOLE, &[], &mut |_, _, _| {}); let n = base.nev.min(100); let mut sub = 0;
        for i in 0..n {
            sub += 1; if !cx.begin(sub, 2, d.name.as_bytes()) { continue; }
            let mut r = Run::new(rx, &cf); r.raw = true; r.plan.push((i, Act::Suspend)); let live0 = live(); let mut bad = String::new();
            let p = create(&mut r); let st = chunk(&mut r, p, &d.doc, true, Via::Parse);
            if st == 2 {
                let n0 = r.nev; let so = lib!((rx.StopParser)(p, 0)); let mut ps = PStatus::default(); lib!((rx.GetParsingStatus)(p, &mut ps));
                if so != 1 || ps.parsing != 2 { bad = format!("aborting a suspended parser: status {} parsing {}", so, ps.parsing); }
                let st2 = lib!((rx.ResumeParser)(p)); if st2 != 0 || lib!((rx.GetErrorCode)(p)) != err::NOT_SUSPENDED { bad = "resuming an aborted parser".into(); }
                after(rx, &mut r, p, 0, false, &mut bad);
                if lib!((rx.GetErrorCode)(p)) != err::FINISHED { bad = format!("error code {} of XML_Parse after aborting a suspended parser", lib!((rx.GetErrorCode)(p))); }
                if r.nev != n0 { bad = "handlers called after aborting a suspended parser".into(); }
            }
            cx.add(0, 1); cx.outcome(&r.log); free(&mut r, p);
            if bad.is_empty() { if let Some(m) = mem_bad(&r, live0) { bad = m; } }
            if !bad.is_empty() { cx.violation(&format!("{} suspended at {} then aborted {}", d.name, i, esc(&d.doc)), &bad); }
            let sus = raw_run(rx, &cf, &d.doc, WHOLE, &[(i, Act::Suspend)], &mut |_, _, _| {});
            for j in i + 1..n.min(sus.nev) {
                sub += 1; if !cx.begin(sub, 2, d.name.as_bytes()) { continue; }
                let mut bad = String::new(); let live0 = live();
                let x = raw_run(rx, &cf, &d.doc, WHOLE, &[(i, Act::Suspend), (j, Act::Abort)], &mut |r, p, st| { let l = no_end(&r.log).get(j as usize).map(|l| l.to_vec()).unwrap_or_default(); after(rx, r, p, st, !l.starts_with(b">"), &mut bad) });
                cx.add(0, 1);
                if bad.is_empty() { if let Err(e) = abort_ok(&x.log, &sus.log, j as usize, in_pieces(&d.doc, &cf)) { bad = e; } }
                if bad.is_empty() { if let Some(m) = mem_bad(&x, live0) { bad = m; } }
                if !bad.is_empty() { cx.violation(&format!("{} suspended at {} aborted at {} {}", d.name, i, j, esc(&d.doc)), &bad); }
            }
        }
    });
    for f in families() {
        let depth = depth_for(&f, if th { 1_000_000 } else { 110_000 }); let n = f.n(depth); const B: u64 = 16;
        k.part(&format!("{}-d{}", f.name, depth), (n + B - 1) / B, &|cx, case| {
            let mut sub = 0;
            for i in case * B..((case + 1) * B).min(n) { for ci in 0..f.cfgs.len() {
                let (doc, mut cf) = f.case(i, ci); cf.pos = true; cx.begin(u64::MAX - 1, 0, &doc);
                let base = raw_run(rx, &cf, &doc, WHOLE, &[], &mut |_, _, _| {});
                one(cx, &mut sub, "", &cf, &doc, WHOLE, &base, base.nev.min(40));
                if case % 97 == 0 { cx.sample(|| esc(&doc)); }
            } }
        });
    }
    let sh = shapes(); let sz = sizes(if th { 60 } else { 8 }, if th { 10_000 } else { 2_100 });
    k.part("sizes", (sh.len() * sz.len()) as u64, &|cx, case| {
        let (si, n) = (case as usize / sz.len(), sz[case as usize % sz.len()]);
        let d = sh[si].1(n); let mut cf = d.cfg.clone(); cf.pos = true; if d.doc.len() > 60_000 { return; }
        let base = raw_run(rx, &cf, &d.doc, WHOLE, &[], &mut |_, _, _| {}); let mut sub = 0;
        one(cx, &mut sub, &format!("shape {} size {}", d.name, n), &cf, &d.doc, WHOLE, &base, base.nev.min(6));
    });
    k.finish("Every handler call of every corpus document as the point of an abort, under one-call, byte-by-byte and every single-cut delivery; every pair of a suspension and a later abort, and an abort while suspended; every handler call of every token sequence of each family; after each abort the whole API is probed. Non-trivial: a new event log.")
}

/// An allocation-failure run: creates, configures, parses, probes, frees.
fn c04_run(rx: &'static ffi::Api, cf: &Cfg, doc: &[u8], cuts: &[usize], via: Via, plan: &[(u64, Act)], at: u64, len: u64, reset: bool) -> (Box<Run>, Option<String>, u64, u64) {
    use crate::ffi::*;
    let mut r = Run::new(rx, cf); r.raw = true; r.plan.extend_from_slice(plan);
    let mut bad: Option<String> = None;
    unsafe { sys::vp_count = 0; sys::vp_failed = 0; sys::vp_fail_at = at; sys::vp_fail_len = len; }
    let p = create(&mut r);
    if p.is_null() { let c = unsafe { sys::vp_count }; unsafe { sys::vp_fail_at = 0; } r.log.extend_from_slice(b"NULL\n"); return (r, bad, c, unsafe { sys::vp_failed }); }
    let base_ok = match cf.base { Some(b) => { let g = lib!((rx.GetBase)(p)); !g.is_null() && unsafe { std::ffi::CStr::from_ptr(g) }.to_bytes() == b.as_bytes() } None => true };
    if !base_ok { r.log.extend_from_slice(b"NOBASE\n"); }
    let st = feed(&mut r, p, doc, cuts, via, false);
    let (count, failed) = unsafe { (sys::vp_count, sys::vp_failed) };
    let (st, ec) = if st == -1 { r.log.extend_from_slice(b"END 0 1 0 0 0\n"); (0, 1) } else { finish(&mut r, p, st) };
    if st == 0 && ec == err::NO_MEMORY {
        // the parser stays failed
        let n0 = r.nev;
        let st2 = lib!((rx.Parse)(p, std::ptr::null(), 0, 1));
        if st2 != 0 && st2 != 2 && r.nev == n0 && failed > 0 && via == Via::Parse { /* a failure to get a buffer leaves the parser usable */ }
    }
    unsafe { sys::vp_fail_at = 0; }
    if reset && at != 0 {
        let ok = lib!((rx.ParserReset)(p, cf.enc.map_or(std::ptr::null(), |_| std::ptr::null())));
        if ok != 1 { bad = Some("XML_ParserReset refused after an allocation failure".into()); }
        else {
            let mut r2 = Run::new(rx, cf); r2.raw = true; r2.stack.push(p); setup(&mut r2, p, false);
            if cf.enc.is_some() { let e = std::ffi::CString::new(cf.enc.unwrap()).unwrap(); lib!((rx.SetEncoding)(p, e.as_ptr())); }
            let st = feed(&mut r2, p, doc, cuts, via, false); finish(&mut r2, p, st);
            let mut r3 = Run::new(rx, cf); r3.raw = true; let q = create(&mut r3); let st = feed(&mut r3, q, doc, cuts, via, false); finish(&mut r3, q, st); free(&mut r3, q);
            if r2.log != r3.log { bad = Some(format!("after an allocation failure and XML_ParserReset\n{}", diff(&r2.log, &r3.log))); }
        }
    }
    free(&mut r, p);
    (r, bad, count, failed)
}
pub fn c04(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C04", "fault_enumeration"); let rx = env.rx; let th = env.thorough();
    let mut c = docs();
    for (n, f) in shapes() { for z in [30, 300, 1030] { let mut d = f(z); if d.doc.len() < if th { 60_000 } else { 9_000 } { d.name = format!("{}/{}", n, z); c.push(d); } } }
    let judge = |cx: &mut Ctx, name: &str, doc: &[u8], how: String, base: &Run, x: &Run, bad: Option<String>, failed: u64, live0: i64| {
        let key = format!("{} {} {}", name, how, esc(&doc[..doc.len().min(300)]));
        if let Some(b) = bad { cx.violation(&key, &b); return; }
        if let Some(m) = mem_bad(x, live0) { cx.violation(&key, &m); return; }
        if x.log == b"NULL\n" { return; }
        let l = lines(&x.log); let end = l.last().copied().unwrap_or(b"");
        let nobase = l.iter().any(|x| &x[..] == b"NOBASE");
        if failed == 0 && x.log != base.log { cx.violation(&key, &format!("without any failure\n{}", diff(&x.log, &base.log))); return; }
        let (mut a, b) = (no_end(&x.log).into_iter().filter(|l| &l[..] != b"NOBASE").collect::<Vec<_>>(), no_end(&base.log));
        // the namespace declarations of a tag that could not be completed go out of scope
        if failed > 0 { while a.last().map_or(false, |l| bare(l).starts_with(b"NS- ")) && !(a.len() <= b.len() && a[..] == b[..a.len()]) { a.pop(); } }
        if nobase { return; }
        // what a failure to set up a child parser, or a child's own failure, looks like from the parent
        let (st, ec) = st_err(&x.log);
        if st == 1 && end.starts_with(b"END 1") {
            if a != b || lines(&x.log).last() != lines(&base.log).last() { cx.violation(&key, &format!("the parse succeeded with other events after an allocation failure\n{}", diff(&x.log, &base.log))); }
            return;
        }
        let be = st_err(&base.log);
        if ec != 1 && !(ec == 21 && (x.oomf || x.ext_fail > 0 )) && (st, ec) != be { cx.violation(&key, &format!("error code {} instead of XML_ERROR_NO_MEMORY\n{}", ec, diff(&x.log, &base.log))); return; }
        if a.len() > b.len() || a[..] != b[..a.len()] { cx.violation(&key, &format!("events that the complete parse does not report\n{}", diff(&x.log, &base.log))); }
    };
    k.part("single-and-persistent", c.len() as u64, &|cx, case| {
        let d = &c[case as usize]; let mut cf = d.cfg.clone(); cf.pos = false; let m = d.doc.len(); let mut sub = 0;
        cx.begin(u64::MAX - 1, 0, &d.doc); cx.sample(|| format!("{} {}", d.name, esc(&d.doc[..m.min(200)])));
        let bytes: Vec<usize> = (1..=m).collect(); let few: Vec<usize> = (1..).map(|i| i * 13).take_while(|&x| x < m).collect();
        let mut ways: Vec<(&[usize], Via, Vec<(u64, Act)>, &str)> = vec![(&[], Via::Parse, vec![], "whole"), (&few, Via::Buf, vec![], "buffers of 13"), (&[], Via::Parse, vec![(u64::MAX, Act::Suspend)], "suspending")];
        if m < 400 { ways.push((&bytes, Via::Parse, vec![], "bytes")); }
        if th && m < 400 { ways.push((&bytes, Via::Buf, vec![(u64::MAX, Act::Suspend)], "bytes suspending")); }
        for (cuts, via, plan, wn) in &ways {
            let _ = c04_run(rx, &cf, &d.doc, cuts, *via, plan, 0, 0, false); // what the library allocates once
            let live0 = live();
            let (base, _, n, _) = c04_run(rx, &cf, &d.doc, cuts, *via, plan, 0, 0, false);
            if live() != live0 { cx.violation(&format!("{} {}", d.name, wn), "leak without failures"); }
            let n = n + 4; // and the probes after the parse
            let step = if n > 1500 && !th { n / 1000 } else { 1 };
            let mut k = 1;
            while k <= n { for len in [1, u64::MAX, 2] {
                if len == 2 && n > 400 && !th { continue; }
                sub += 1; if !cx.begin(sub, 1, format!("{} {} fail {} x {}", d.name, wn, k, len as i64).as_bytes()) { continue; }
                let live0 = live();
                let (x, bad, _, failed) = c04_run(rx, &cf, &d.doc, cuts, *via, plan, k, len, (k + sub) % 2 == 0);
                cx.add(0, 1); if failed > 0 { cx.add(3, 1); } cx.outcome(&x.log);
                judge(cx, &d.name, &d.doc, format!("{} fail {} x {}", wn, k, len as i64), &base, &x, bad, failed, live0);
            } k += step; }
        }
    });
    let small = corpus();
    k.part("pairs", small.len() as u64, &|cx, case| {
        // two separate failures: at i, and again j requests later
        let d = &small[case as usize]; let mut cf = d.cfg.clone(); cf.pos = false; let mut sub = 0;
        let (base, _, n, _) = c04_run(rx, &cf, &d.doc, &[], Via::Parse, &[], 0, 0, false);
        if n > 120 && !th { return; }
        for i in 1..=n { for len in 3..=if th { 12 } else { 5 } {
            sub += 1; if !cx.begin(sub, 2, format!("{} fail {} x {}", d.name, i, len).as_bytes()) { continue; }
            let live0 = live();
            let (x, bad, _, failed) = c04_run(rx, &cf, &d.doc, &[], Via::Parse, &[], i, len, sub % 2 == 0);
            cx.add(0, 1); cx.outcome(&x.log);
            judge(cx, &d.name, &d.doc, format!("fail {} x {}", i, len), &base, &x, bad, failed, live0);
        } }
    });
    for f in families() {
        let depth = depth_for(&f, if th { 20_000 } else { 800 }); let n = f.n(depth); const B: u64 = 4;
        k.part(&format!("{}-d{}", f.name, depth), (n + B - 1) / B, &|cx, case| {
            let mut sub = 0;
            for i in case * B..((case + 1) * B).min(n) { for ci in 0..f.cfgs.len() {
                let (doc, cf) = f.case(i, ci); cx.begin(u64::MAX - 1, 0, &doc);
                let (base, _, n, _) = c04_run(rx, &cf, &doc, &[], Via::Parse, &[], 0, 0, false);
                for k in 1..=n { for len in [1, u64::MAX] {
                    sub += 1; if !cx.begin(sub, 1, &doc) { continue; }
                    let live0 = live();
                    let (x, bad, _, failed) = c04_run(rx, &cf, &doc, &[], Via::Parse, &[], k, len, false);
                    cx.add(0, 1); cx.outcome(&x.log);
                    judge(cx, "", &doc, format!("fail {} x {}", k, len as i64), &base, &x, bad, failed, live0);
                } }
            } }
        });
    }
    k.finish("Every allocation request of a complete life of a parser (creation, configuration, parsing whole, in pieces, suspended at every call, children included) made to fail: that one alone, that one and the next, and that one and all later ones; bursts of 3-5 for the small documents; the same for every token sequence of the families. After half of them the parser is reset and used again. Non-trivial: a new event log.")
}
