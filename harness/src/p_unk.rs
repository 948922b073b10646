//! C20: encodings described by the application (XML_SetUnknownEncodingHandler).
use crate::chk::*; use crate::drv::*; use crate::ffi::*; use crate::gen::*; use crate::p_enc::*; use crate::p_ref::*; use crate::p_stream::*; use crate::pool::*; use crate::util::*; use crate::*;
use std::os::raw::c_void;

/// An encoding under test: byte map and the code points of multi-byte sequences.
#[derive(Clone)]
pub struct Ue { pub name: &'static str, pub map: [i32; 256], pub seq: fn(u32) -> Option<Vec<u8>>, pub conv: Option<fn(&[u8]) -> i32> }
fn ascii_map(hi: impl Fn(usize) -> i32) -> [i32; 256] { let mut m = [0; 256]; for i in 0..256 { m[i] = if i < 128 { i as i32 } else { hi(i) }; } m }
/// Single bytes; some stand for nothing, some for characters far away.
fn e_single() -> Ue { Ue { name: "single", map: ascii_map(|i| if i < 0xa0 { 0x2000 + i as i32 } else if i == 0xff { -1 } else if i >= 0xf0 { [0x65e5, 0x672c, 0x3b1, 0x17f, 0xfffd, 0x7ff, 0x800, 0x300, 0xb7, 0xe9, 0xfc, 0xff, 0xe0, 0x20ac, 0x100][i - 0xf0] } else { 0x400 + i as i32 }), seq: |c| { let e = e_single(); (0x80..256).find(|&i| e.map[i] == c as i32).map(|i| vec![i as u8]) }, conv: None } }
/// Lead byte 80-9F and any second byte, markup bytes included.
fn e_two() -> Ue { Ue { name: "two", map: ascii_map(|i| if i < 0xa0 { -2 } else { i as i32 }), seq: |c| if (0xa0..0x100).contains(&c) { Some(vec![c as u8]) } else if (0x100..0x2100).contains(&c) { let k = c - 0x100; Some(vec![0x80 + (k >> 8) as u8, k as u8]) } else { None }, conv: Some(|b| 0x100 + ((b[0] as i32 - 0x80) << 8) + b[1] as i32) } }
/// Three and four byte sequences for the whole basic plane, the trailing bytes any.
fn e_wide() -> Ue { Ue { name: "wide", map: ascii_map(|i| if i < 0xa0 { i as i32 } else if i < 0xc0 { -3 } else if i < 0xe0 { -4 } else if i < 0xf0 { -2 } else { -1 }), seq: |c| if (0x80..0xa0).contains(&c) { Some(vec![c as u8]) } else if c < 0x800 { Some(vec![0xe0 | (c >> 8) as u8, c as u8]) } else if c < 0x10000 { let (h, l) = ((c >> 8) as u8, c as u8); Some(if c & 1 == 0 { vec![0xa0 + (c % 32) as u8, h, l] } else { vec![0xc0, b'<', h, l] }) } else { None },
    conv: Some(|b| match b[0] { 0xe0..=0xef => ((b[0] as i32) & 15) << 8 | b[1] as i32, 0xa0..=0xbf => (b[1] as i32) << 8 | b[2] as i32, _ => (b[2] as i32) << 8 | b[3] as i32 }) } }
/// Like a real one: lead bytes 81-FE, second byte 40-FE, everything else malformed.
fn e_dbcs() -> Ue { Ue { name: "dbcs", map: ascii_map(|i| if i == 0x80 || i == 0xff { -1 } else { -2 }), seq: |c| { if c < 0x80 { return None; } let k = c as usize - 0x80; if k >= 126 * 190 { return None; } Some(vec![0x81 + (k / 190) as u8, { let x = 0x40 + (k % 190); (if x >= 0x7f { x + 1 } else { x }) as u8 }]) },
    conv: Some(|b| { let (l, t) = (b[0] as i32 - 0x81, b[1] as i32); if l < 0 || l >= 126 || t < 0x40 || t == 0x7f || t == 0xff { return -1; } 0x80 + l * 190 + (t - 0x40) - (t > 0x7f) as i32 }) } }
pub fn encs() -> Vec<Ue> { vec![e_single(), e_two(), e_wide(), e_dbcs()] }
pub fn ue_encode(e: &Ue, t: &str) -> Option<Vec<u8>> { let mut v = vec![]; for c in t.chars() { let c = c as u32; if c < 128 { v.push(c as u8) } else { v.extend((e.seq)(c)?) } } Some(v) }
fn offs(e: &Ue, t: &str) -> Offs { let mut v = vec![-7; t.len() + 1]; let mut at = 0; for (i, c) in t.char_indices() { v[i] = at; at += if (c as u32) < 128 { 1 } else { (e.seq)(c as u32).unwrap().len() as i64 }; } v[t.len()] = at; Offs(v) }

// what the handler gives, and what became of it
pub struct Given { pub map: [i32; 256], pub conv: Option<fn(&[u8]) -> i32>, pub has_conv: bool, pub has_rel: bool, pub ret: i32 }
static mut GIVEN: Option<Given> = None;
/// One record per handler call: converted, released, wrong bytes seen.
#[derive(Clone, Copy, Default)] pub struct Rec { pub conv: u32, pub rel: u32, pub late: u32 }
static mut RECS: [Rec; 64] = [Rec { conv: 0, rel: 0, late: 0 }; 64]; static mut NREC: usize = 0; static mut STRAY: u32 = 0;
#[allow(static_mut_refs)]
unsafe extern "C" fn conv(d: *mut c_void, p: CS) -> i32 {
    let i = (d as usize).wrapping_sub(0x7000); if i >= NREC { STRAY += 1; return -1; }
    RECS[i].conv += 1; if RECS[i].rel > 0 { RECS[i].late += 1; }
    let g = GIVEN.as_ref().unwrap(); let b = p as *const u8; let n = -g.map[*b as usize]; if !(2..=4).contains(&n) { STRAY += 1; return -1; }
    let mut a = [0u8; 4]; for k in 0..n as usize { a[k] = *b.add(k); }
    match g.conv { Some(f) => f(&a[..n as usize]), None => -1 }
}
#[allow(static_mut_refs)]
unsafe extern "C" fn rel(d: *mut c_void) { let i = (d as usize).wrapping_sub(0x7000); if i >= NREC { STRAY += 1; return; } RECS[i].rel += 1; }
#[allow(static_mut_refs)]
pub fn give(_: &mut Run, _: &[u8], e: &mut Encoding) -> i32 { unsafe {
    let g = GIVEN.as_ref().unwrap(); if NREC >= 64 { NREC = 0; }
    e.map = g.map; e.data = (0x7000 + NREC) as *mut c_void; RECS[NREC] = Rec::default(); NREC += 1;
    e.convert = if g.has_conv { Some(conv) } else { None }; e.release = if g.has_rel { Some(rel) } else { None }; g.ret
} }
fn offer(map: [i32; 256], c: Option<fn(&[u8]) -> i32>, has_conv: bool, has_rel: bool, ret: i32) { unsafe { GIVEN = Some(Given { map, conv: c, has_conv, has_rel, ret }); NREC = 0; STRAY = 0; } }
pub fn offer_ue(e: &Ue) { offer(e.map, e.conv, e.conv.is_some(), true, 1) }
/// Everything given was released once, and not used afterwards (`live`: what may still be in use).
#[allow(static_mut_refs)]
fn books(cx: &mut Ctx, has_rel: bool, what: &dyn Fn() -> String) { unsafe {
    if STRAY > 0 { cx.violation(&format!("convert or release with foreign data or bytes {}", what()), ""); }
    for i in 0..NREC { let r = RECS[i]; if r.late > 0 { cx.violation(&format!("converter used after its release {}", what()), ""); } if r.rel != has_rel as u32 { cx.violation(&format!("released {} times {}", r.rel, what()), &format!("handler call {}", i)); } }
} }
fn drop_unk(log: &[u8]) -> Vec<u8> { let mut v = vec![]; for l in lines(log) { if split_pos(l, true).1.starts_with(b"UNK") { continue; } v.extend_from_slice(l); v.push(b'\n'); } v }
/// A document in an encoding against the same in UTF-8.
fn same(cx: &mut Ctx, env: &Env, e: &Ue, doc: &str, cf: &Cfg, sub: &mut u64, cutsets: &dyn Fn(usize) -> Vec<Vec<usize>>) {
    let mut cf = cf.clone(); cf.pos = true; if cf.enc.is_some() { return; }
    if doc.starts_with('\u{feff}') { return; } let b = match ue_encode(e, doc) { Some(b) => b, None => return };
    let mut c = cf.clone(); c.enc = Some("X-Test"); c.ext_enc = Some("X-Test"); c.unk = Some(give); c.mask |= h::UNK;
    for x in c.ext.iter_mut() { let t = match std::str::from_utf8(&x.1) { Ok(t) if plain(t.as_bytes()).is_some() => t.to_string(), _ => return }; match ue_encode(e, &t) { Some(b) => x.1 = b, None => return } }
    let base = parse(env.rx, &cf, doc.as_bytes(), WHOLE, &[]);
    let want = drop_child_off(&expect_at(&base.log, &offs(e, doc), 0, false));
    for (fi, cuts) in cutsets(b.len()).into_iter().enumerate() {
        *sub += 1; if !cx.begin(*sub, fi as u64, &b) { continue; }
        offer_ue(e);
        let r = parse(env.rx, &c, &b, Feed { cuts: &cuts, via: if fi % 2 == 0 { Via::Parse } else { Via::Buf }, fin_empty: fi % 3 == 2 }, &[]);
        cx.add(0, 1); cx.add(1, r.nev + 1); cx.add(2, 1); cx.outcome(&r.log);
        let got = drop_child_off(&drop_unk(&r.log));
        let (g, w) = if cuts.is_empty() { (norm_delivery(&got, true), norm_delivery(&want, true)) } else { (norm_delivery(&strip_linecol_tail(&got), true), norm_delivery(&strip_linecol_tail(&want), true)) };
        if g != w && !cut_marked(&g, &w, doc, &cf) && !junk_pair(&g, &w) { cx.violation(&format!("{} cuts {:?} {}", e.name, cuts, show(doc.as_bytes(), &cf)), &diff(&g, &w)); }
        books(cx, true, &|| format!("{} {}", e.name, show(doc.as_bytes(), &cf)));
    }
}
/// Which maps are encodings: the documented rules.
fn map_ok(m: &[i32; 256], conv: bool) -> bool {
    let mark = |c: i32| -> bool { (0..128).contains(&c) && !(c as u8 as char == '\x7f' || "$@\\^`{}~".contains(c as u8 as char)) && (c >= 32 || matches!(c, 9 | 10 | 13)) };
    for i in 0..256 { let c = m[i]; if mark(i as i32) && c != i as i32 { return false; } if c < -4 || c > 0xffff || (c < -1 && !conv) || (mark(c) && c != i as i32) { return false; } }
    true
}
pub fn c20(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C20", "exploration"); let th = env.thorough();
    let es = encs(); let all = |n: usize| (1..n).collect::<Vec<usize>>();
    // the corpus and its accented variants, under every single cut
    let mut texts: Vec<D> = vec![];
    for d in docs() { if std::str::from_utf8(&d.doc).map_or(true, |t| plain(t.as_bytes()).is_none()) { continue; } texts.push(d.clone()); let t = s(&d.doc);
        for (from, to) in [("x", "é"), ("b", "日"), ("a", "\u{105}"), ("1", "\u{fffd}"), ("p", "\u{17f}")] { if !t.contains(from) { continue; } let mut e = d.clone(); e.doc = t.replace(from, to).into_bytes(); for x in e.cfg.ext.iter_mut() { x.0 = s(&x.0).replace(from, to).into_bytes(); x.1 = s(&x.1).replace(from, to).into_bytes(); } e.name = format!("{} {}", d.name, to); texts.push(e); } }
    k.part("corpus", (texts.len() * es.len()) as u64, &|cx, case| {
        let (d, e) = (&texts[case as usize / es.len()], &es[case as usize % es.len()]); let mut sub = 0; cx.sample(|| format!("{} {}", e.name, show(&d.doc, &d.cfg)));
        let short = d.doc.len() < 160 || th;
        same(cx, env, e, &s(&d.doc), &d.cfg, &mut sub, &|n| { let mut v = vec![vec![], all(n), (1..).map(|i| i * 3).take_while(|&i| i < n).collect()]; if short { for i in 1..n { v.push(vec![i]); } } v });
        for (dm, mask) in [(Dflt::Default, h::EXTREF), (Dflt::Expand, h::EXTREF | h::ELEM), (Dflt::No, h::CORE)] { let mut cf = d.cfg.clone(); cf.mask = mask; cf.dflt = dm; same(cx, env, e, &s(&d.doc), &cf, &mut sub, &|_| vec![vec![]]); }
        let mut cf = d.cfg.clone(); for c in [1usize, 2] { cf.ext_chunk = c; if !cf.ext.is_empty() { same(cx, env, e, &s(&d.doc), &cf, &mut sub, &|_| vec![vec![]]); } }
    });
    // token sequences
    for f in &families() {
        if f.name.starts_with("units16") || f.name == "bytes-utf8" || f.name == "tok-decl" { continue; }
        let depth = depth_for(f, if th { 900_000 } else { 40_000 }); let n = f.n(depth); const B: u64 = 64; let es = &es;
        k.part(&format!("{}-d{}", f.name, depth), (n + B - 1) / B, &|cx, case| {
            let mut sub = 0; for i in case * B..((case + 1) * B).min(n) { let (doc, cf) = f.case(i, 0); if let Ok(t) = std::str::from_utf8(&doc) { let e = &es[(i % 4) as usize]; same(cx, env, e, t, &cf, &mut sub, &|_| vec![vec![]]); if e.name != "wide" { same(cx, env, &es[2], &t.replace('a', "\u{105}").replace('x', "日"), &cf, &mut sub, &|_| vec![vec![]]); } } }
        });
    }
    // every byte with every kind of meaning
    let vals: Vec<i32> = vec![-6, -5, -4, -3, -2, -1, 0, 9, 0x20, 0x24, 0x3c, 0x41, 0x7e, 0x7f, 0x80, 0x85, 0xaa, 0xb7, 0xc0, 0xd7, 0xe9, 0x300, 0x20ac, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, i32::MAX, i32::MIN];
    k.part("maps", 256, &|cx, case| {
        let b = case as usize; let mut sub = 0;
        for (vi, &v) in vals.iter().chain([&(b as i32)]).enumerate() { for has_conv in [true, false] { for ns in [None, Some(b'!')] { for rest in 0..2 {
            let mut m = ascii_map(|i| if rest == 0 { i as i32 } else { -1 }); m[b] = v;
            let ok = map_ok(&m, has_conv);
            for place in 0..5 { // text, name, attribute value, instruction, nowhere
                if place < 4 && (b < 0x80 && m[b] != b as i32 && place == 1) { }
                let mut d: Vec<u8> = [&b"<a>x"[..], b"<a", b"<a b='x", b"<?p x", b"<a/>"][place].to_vec();
                let one: Vec<u8> = if place == 4 { vec![] } else if (-4..-1).contains(&v) { let mut o = vec![b as u8]; for j in 1..(-v) { o.push([b'>', 0, 0xff][j as usize - 1]); } o } else { vec![b as u8] };
                d.extend(&one); d.extend_from_slice([&b"y</a>"[..], b"/>", b"y'/>", b"y?><a/>", b""][place]);
                sub += 1; if !cx.begin(sub, place as u64, &d) { continue; }
                let mut cf = cfg(); cf.dflt = Dflt::No; cf.ns = ns; cf.enc = Some("m"); cf.unk = Some(give);
                offer(m, Some(|_| 0x20ac), has_conv, true, 1);
                let a = parse(env.rx, &cf, &d, WHOLE, &[]); cx.add(0, 1); cx.add(1, a.nev + 1); cx.add(2, 1); cx.outcome(&a.log);
                books(cx, true, &|| format!("map[{:#x}] = {:#x}", b, v));
                offer(m, Some(|_| 0x20ac), has_conv, true, 1); let r = parse(env.ex, &cf, &d, WHOLE, &[]);
                if a.log != r.log { cx.violation(&format!("map[{:#x}] = {:#x} conv {} ns {:?} place {} reference", b, v, has_conv, ns, place), &diff(&a.log, &r.log)); }
                let (st, err) = st_err(&a.log); let what = || format!("map[{:#x}] = {:#x} conv {} place {}", b, v, has_conv, place);
                if !ok { if (st, err) != (0, 18) { cx.violation(&format!("{} accepted", what()), &s(&a.log)); } continue; }
                if err == 18 { cx.violation(&format!("{} refused", what()), &s(&a.log)); continue; }
                // the character that takes part
                let c: Option<u32> = if (-4..-1).contains(&v) { Some(0x20ac) } else if m[b] < 0 { None } else { Some(m[b] as u32) };
                if place == 4 || b < 0x80 && m[b] == b as i32 { continue; }
                let legal = match (c, place) { (None, _) => false, (Some(c), 1) => crate::p_char::within(crate::names::NAME_CHAR, c), (Some(c), _) => crate::p_char::within(crate::names::CHAR, c) };
                let _ = vi;
                if !legal { if st != 0 { cx.violation(&format!("{} no character accepted", what()), &s(&a.log)); } }
                else { let u = crate::p_char::wtf8(c.unwrap()); let mut w = b"UNK 'm'\n".to_vec(); match place { 0 => { w.extend_from_slice(b"S 'a'# 0 -1\nT x"); w.extend(&u); w.extend_from_slice(b"y\nE 'a'\n"); } 1 => { w.extend_from_slice(b"S 'a"); w.extend(&u); w.extend_from_slice(b"'# 0 -1\nE 'a"); w.extend(&u); w.extend_from_slice(b"'\n"); } 2 => { w.extend_from_slice(b"S 'a' 'b'=x"); w.extend(&u); w.extend_from_slice(b"y# 2 -1\nE 'a'\n"); } _ => { w.extend_from_slice(b"PI 'p' 'x"); w.extend(&u); w.extend_from_slice(b"y'\nS 'a'# 0 -1\nE 'a'\n"); } }
                    w.extend_from_slice(b"END 1 0\n"); if a.log != w { cx.violation(&what(), &diff(&a.log, &w)); } }
            }
        } } } }
    });
    // what the converter says, for every number of bytes and place, cut everywhere
    let answers: Vec<i32> = vec![-1, -2, i32::MIN, i32::MAX, 0, 1, 9, 0xa, 0x20, 0x26, 0x3c, 0x41, 0x7f, 0x80, 0xb7, 0xe9, 0x37e, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xd800, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff];
    k.part("answers", answers.len() as u64, &|cx, case| {
        static mut ANS: i32 = 0; unsafe { ANS = answers[case as usize]; } let ans = answers[case as usize]; let mut sub = 0;
        for n in 2..5usize { for (pre, post) in [(&b"<a>"[..], &b"</a>"[..]), (b"<a>x", b"y</a>"), (b"<", b"/>"), (b"<a", b"/>"), (b"<a b='", b"'/>"), (b"<a ", b"='v'/>"), (b"<a", b"b='v'/>"), (b"<!--", b"--><a/>"), (b"<?p", b"?><a/>"), (b"<?", b" x?><a/>"), (b"<a><![CDATA[", b"]]></a>"), (b"<!DOCTYPE ", b"><a/>"), (b"<!DOCTYPE a [<!ENTITY e '", b"'>]><a>&e;</a>"), (b"<!DOCTYPE a SYSTEM '", b"'><a/>"), (b"<!DOCTYPE a PUBLIC '", b"' ''><a/>"), (b"<a>&", b";</a>"), (b"<a>&#", b";</a>"), (b"<a></a", b">"), (b"<a/>", b""), (b"", b"<a/>"), (b"<!DOCTYPE a [<!ATTLIST a b (", b"|y) #IMPLIED>]><a/>")] {
            for tail in [&b"\x80\x80\x80"[..], b"<<<", b"\0\0\0", b"]]>", b"'' "] {
                let mut d = pre.to_vec(); d.push(0x80); d.extend_from_slice(&tail[..n - 1]); d.extend_from_slice(post);
                let mut m = ascii_map(|i| i as i32); m[0x80] = -(n as i32);
                let mut cf = cfg(); cf.pos = true; cf.enc = Some("m"); cf.unk = Some(give);
                let cs: Vec<Vec<usize>> = (0..=d.len()).map(|i| if i == 0 { vec![] } else if i == d.len() { (1..d.len()).collect() } else { vec![i] }).collect();
                let mut base: Option<Vec<u8>> = None;
                for cuts in &cs { sub += 1; if !cx.begin(sub, n as u64, &d) { continue; }
                    let f = Feed { cuts, via: Via::Parse, fin_empty: false };
                    offer(m, Some(|_| unsafe { ANS }), true, true, 1); let a = parse(env.rx, &cf, &d, f, &[]); cx.add(0, 1); cx.add(1, a.nev + 1); cx.add(2, 1); cx.outcome(&a.log);
                    books(cx, true, &|| format!("answer {:#x}", ans));
                    offer(m, Some(|_| unsafe { ANS }), true, true, 1); let b = parse(env.ex, &cf, &d, f, &[]);
                    if a.log != b.log { cx.violation(&format!("answer {:#x} bytes {} cuts {:?} {} reference", ans, n, cuts, esc(&d)), &diff(&a.log, &b.log)); }
                    let x = norm_delivery(&strip_linecol_tail(&a.log), true);
                    match &base { None => base = Some(x), Some(y) => if *y != x && !junk_pair(y, &x) { cx.violation(&format!("answer {:#x} bytes {} cuts {:?} {}", ans, n, cuts, esc(&d)), &diff(&x, y)); } }
                }
            }
        } }
    });
    // the lives of the description: every history of the handler's answers and the parser's uses
    const OPS: u64 = 12; let depth = if th { 5 } else { 4 }; let n = nseq(OPS, depth); const B: u64 = 64;
    k.part("lives", (n + B - 1) / B, &|cx, case| {
        let mut sub = 0;
        for i in case * B..((case + 1) * B).min(n) { let ops = seq_at(i, OPS); for way in 0..6 {
            sub += 1; if !cx.begin(sub, way, &i.to_le_bytes()) { continue; }
            // the answer: good, refused (0), bad map, no release, no converter needed, refused without release
            let e = e_two(); let mut m = e.map; if way == 2 { m[0x41] = 0x42; } if way == 4 { m = e_single().map; }
            let has_rel = way != 3 && way != 5; let ret = (way != 1 && way != 5) as i32;
            { static mut WARM: bool = false; unsafe { if !WARM { WARM = true; for api in [env.rx, env.ex] { parse(api, &cfg(), b"<a/>", WHOLE, &[]); } } } }
            let l0 = live(); let mut logs: Vec<Vec<u8>> = vec![]; let mut counts = vec![];
            for api in [env.rx, env.ex] {
                offer(m, e.conv, way != 4, has_rel, ret);
                let mut cf = cfg(); cf.mask &= !h::NOTSA; cf.enc = Some("m"); cf.unk = Some(give); cf.ext = vec![(b"e".to_vec(), b"<?xml encoding='in-entity'?><t>\xa4</t>".to_vec())];
                let mut r = Run::new(api, &cf); let mut p = create(&mut r); let mut st = 9;
                for &op in &ops { let before = unsafe { NREC };
                    let cs = |t: &str| std::ffi::CString::new(t).unwrap();
                    match op {
                        0 => st = chunk(&mut r, p, b"<a>\xa4\x81", false, Via::Parse), 1 => st = chunk(&mut r, p, b"\x90\xa5</a>", true, Via::Parse), 2 => { lib!((api.ParserReset)(p, std::ptr::null())); setup(&mut r, p, false); st = 9; }
                        3 => { let e = cs("m2"); lib!((api.ParserReset)(p, e.as_ptr())); setup(&mut r, p, false); st = 9; } 4 => { lib!((api.SetUnknownEncodingHandler)(p, None, std::ptr::null_mut())); }
                        5 => { let e = cs("utf-8"); lib!((api.SetEncoding)(p, e.as_ptr())); } 6 => { st = chunk(&mut r, p, b"<?xml version='1.0' encoding='decl'?><a>\xa4</a>", true, Via::Parse); }
                        7 => { st = chunk(&mut r, p, b"<!DOCTYPE a [<!ENTITY e SYSTEM 'e'>]><a>&e;&e;</a>", true, Via::Parse); } 8 => { free(&mut r, p); p = create(&mut r); st = 9; }
                        9 => { lib!((api.SetEncoding)(p, std::ptr::null())); } 10 => { st = chunk(&mut r, p, b"<a>", false, Via::Buf); } _ => { lib!((api.StopParser)(p, 0)); }
                    }
                    let _ = (before, st);
                }
                finish(&mut r, p, st); free(&mut r, p);
                books(cx, has_rel, &|| format!("{} way {} ops {:?}", api.name, way, ops));
                logs.push(r.log.clone()); counts.push(unsafe { NREC });
            }
            cx.add(0, 1); cx.add(1, ops.len() as u64); cx.add(2, 1); cx.outcome(&logs[0]);
            if live() != l0 { cx.violation(&format!("memory left way {} ops {:?}", way, ops), ""); }
            let _ = counts;
        } }
    });
    k.finish("documents in four described encodings against the same in UTF-8, every map with one unusual byte, every answer of the converter in every place and cut, every history of a description; one evaluation is one document or history; distinct = distinct logs")
}
