//! Checks whose oracle includes the reference implementation: an independent library (libexpat 2.6.1)
//! driven through exactly the same calls.
use crate::chk::*; use crate::drv::*; use crate::gen::*; use crate::pool::*; use crate::util::*; use crate::*;

/// Both libraries on the same document and delivery: the same log, positions included.
pub fn vs(cx: &mut Ctx, env: &Env, cf: &Cfg, doc: &[u8], f: Feed, plan: &[(u64, Act)], what: &str) -> Box<Run> {
    let a = parse(env.rx, cf, doc, f, plan); let b = parse(env.ex, cf, doc, f, plan);
    cx.add(0, 1); cx.add(1, a.nev + 1); cx.add(2, 1); cx.outcome(&a.log); cx.state(&a.log);
    if a.log != b.log && !undefined_pe_excuse(&a.log, &b.log, doc, cf) && !async_excuse(&a.log, &b.log) && !surrogate_excuse(&a.log, &b.log, doc, cf) && !rsqb_excuse(&a.log, &b.log, cf) { cx.violation(&format!("{} cuts {:?} {}", what, f.cuts.len(), show(doc, cf)), &diff(&a.log, &b.log)); }
    a
}
/// The one deviation of the newer reference that is its own: after an undefined parameter entity reference
/// inside an entity value it goes on with the rest of the value, where 2.2.9 (and this port) ends the value.
/// Accepted only when the first differing line is that entity's declaration, with a shorter value here.
fn undefined_pe_excuse(a: &[u8], b: &[u8], doc: &[u8], cf: &Cfg) -> bool {
    let (x, y) = (lines(a), lines(b)); let mut i = 0; while i < x.len() && i < y.len() && x[i] == y[i] { i += 1; }
    if i >= x.len() || i >= y.len() { return false; }
    let (l, m) = (split_pos(x[i], cf.pos).1, split_pos(y[i], cf.pos).1);
    if !l.starts_with(b"ENT ") || !m.starts_with(b"ENT ") { return false; }
    let cut = |l: &[u8]| -> Option<(Vec<u8>, Vec<u8>)> { let q = l.iter().position(|&c| c == b'"')?; let e = l.iter().rposition(|&c| c == b'"')?; let mut o = l[..q].to_vec(); o.extend_from_slice(&l[e + 1..]); Some((o, l[q + 1..e.max(q + 1)].to_vec())) };
    match (cut(l), cut(m)) { (Some((o, v)), Some((p, w))) => o == p && w.len() > v.len() && w.starts_with(&v) && undeclared_pe(doc, cf), _ => false }
}
/// The reference reports an entity that ends inside an element when the entity's text is used up, before the
/// entity referred to at its very end has been read; 2.2.9 (and this port) reads that one first.
pub fn async_excuse(a: &[u8], b: &[u8]) -> bool {
    let (x, y) = (lines(a), lines(b)); if x.is_empty() || y.is_empty() { return false; }
    let (l, m) = (x[x.len() - 1], y[y.len() - 1]);
    m.starts_with(b"END 0 13 ") && l.starts_with(b"END 0 ") && x.len() >= y.len() && x[..y.len() - 1] == y[..y.len() - 1]
}
/// The reference takes a UTF-16 high surrogate with any unit after it for a character; here that is an error
/// at the surrogate, before which both report the same.
pub fn surrogate_excuse(a: &[u8], b: &[u8], doc: &[u8], cf: &Cfg) -> bool {
    use crate::p_pos::*;
    let c = code_of(doc, cf.enc); if c != Code::Le && c != Code::Be { return false; }
    let u = |i: usize| -> u32 { if c == Code::Le { doc[i] as u32 | (doc[i + 1] as u32) << 8 } else { doc[i + 1] as u32 | (doc[i] as u32) << 8 } };
    let mut i = 0; let k = loop { if i + 4 > doc.len() { return false; } if u(i) & 0xfc00 == 0xd800 { if u(i + 2) & 0xfc00 != 0xdc00 { break i; } i += 2; } i += 2; };
    let (x, y) = (lines(a), lines(b)); if x.is_empty() || y.is_empty() { return false; }
    let f: Vec<&[u8]> = x[x.len() - 1].split(|&c| c == b' ').collect();
    if f.len() < 6 || f[0] != b"END" || f[1] != b"0" || f[2] != b"4" { return false; }
    let at: usize = s(f[5]).parse().unwrap_or(usize::MAX); if at > k { return false; }
    // (the reference may have reported the text before together with what follows)
    let mut n = x.len() - 1; if n > 0 && is_text(x[n - 1], cf.pos) { n -= 1; }
    y.len() >= n && x[..n] == y[..n] && (n == x.len() - 1 || y.get(n).map_or(false, |l| l.starts_with(x[n])))
}
/// The reference takes the text "]" that ends an entity for an event of no extent, so that passing it on with
/// XML_DefaultCurrent passes nothing on.
pub fn rsqb_excuse(a: &[u8], b: &[u8], cf: &Cfg) -> bool {
    let (x, y) = (lines(a), lines(b)); x.len() == y.len() && x.iter().zip(&y).all(|(l, m)| l == m || (l.len() == m.len() + 1 && l.ends_with(b"]") || l.len() == m.len() + 2 && l.ends_with(b"]]")) && l.starts_with(m) && { let w = split_pos(m, cf.pos).1; w.starts_with(b"D ") || w.starts_with(b"@") && w[1..].windows(3).any(|x| x == b" D ") })
}
/// A parameter entity reference whose name is declared nowhere, or only later in the same text.
fn undeclared_pe(doc: &[u8], cf: &Cfg) -> bool {
    let nm = |d: &[u8], mut i: usize| -> Vec<u8> { let s = i; while i < d.len() && (d[i].is_ascii_alphanumeric() || d[i] >= 128 || matches!(d[i], b'_' | b':' | b'.' | b'-')) { i += 1; } d[s..i].to_vec() };
    let ascii = |d: &[u8]| -> Vec<u8> { if d.contains(&0) || d.starts_with(b"\xff\xfe") || d.starts_with(b"\xfe\xff") { d.iter().copied().filter(|&c| c != 0).collect() } else { d.to_vec() } };
    let (mut refs, mut decl): (Vec<(usize, usize, Vec<u8>)>, Vec<(usize, usize, Vec<u8>)>) = (vec![], vec![]);
    for (t, d) in std::iter::once(doc).chain(cf.ext.iter().map(|x| &x.1[..])).enumerate() { let d = ascii(d);
        for i in 0..d.len() {
            if d[i] == b'%' { let n = nm(&d, i + 1); if !n.is_empty() { refs.push((t, i, n)); } }
            if d[i..].starts_with(b"&#37;") { let n = nm(&d, i + 5); if !n.is_empty() { refs.push((t, i, n)); } }
            if d[i..].starts_with(b"<!ENTITY % ") { if let Some(e) = d[i..].iter().position(|&c| c == b'>') { decl.push((t, i + e, nm(&d, i + 11))); } }
        }
    }
    refs.iter().any(|r| !decl.iter().any(|d| d.2 == r.2 && (d.0 != r.0 || d.1 < r.1)))
}
pub fn show(doc: &[u8], cf: &Cfg) -> String { let mut t = esc(&doc[..doc.len().min(500)]); for (s, b) in &cf.ext { t.push_str(&format!(" [{}: {}]", esc(s), esc(&b[..b.len().min(300)]))); } t }
/// All families, to a depth of at most `max` documents each, against the reference.
pub fn fam_vs(k: &mut Chk, env: &Env, fams: &[Fam], max: u64, feeds: u8) {
    for f in fams {
        let depth = depth_for(f, max); let n = f.n(depth); const B: u64 = 64;
        k.part(&format!("{}-d{}", f.name, depth), (n + B - 1) / B, &|cx, case| {
            let mut sub = 0;
            for i in case * B..((case + 1) * B).min(n) { for ci in 0..f.cfgs.len() {
                let (doc, mut cf) = f.case(i, ci); cf.pos = true;
                sub += 1; if cx.begin(sub, 1, &doc) { vs(cx, env, &cf, &doc, WHOLE, &[], f.name); }
                if feeds > 1 { sub += 1; if cx.begin(sub, 1, &doc) { let cuts: Vec<usize> = (1..=doc.len()).collect(); cf.ext_chunk = 1; vs(cx, env, &cf, &doc, Feed { cuts: &cuts, via: Via::Buf, fin_empty: true }, &[], f.name); } }
                if case % 501 == 0 { cx.sample(|| show(&doc, &cf)); }
            } }
        });
    }
}
/// Every document at edit distance one from the given ones.
pub fn edit_vs(k: &mut Chk, env: &Env, name: &str, ds: &[D], step: usize) {
    k.part(name, ds.len() as u64, &|cx, case| {
        let d = &ds[case as usize]; let mut cf = d.cfg.clone(); cf.pos = true; let mut sub = 0;
        cx.sample(|| format!("all edits of {} {}", d.name, show(&d.doc, &cf)));
        let st = if d.doc.len() > 400 { step * 5 } else { step };
        let mut i = case as usize % st; while i < nedits(d.doc.len()) { let doc = edit(&d.doc, i); sub += 1; if cx.begin(sub, 1, &doc) { vs(cx, env, &cf, &doc, WHOLE, &[], "edit"); } i += st; }
        for e in 0..cf.ext.len() { let body = d.cfg.ext[e].1.clone(); let mut i = case as usize % st; while i < nedits(body.len()) { cf.ext[e].1 = edit(&body, i); sub += 1; if cx.begin(sub, 2, &cf.ext[e].1) { vs(cx, env, &cf, &d.doc, WHOLE, &[], "edit of entity"); } i += st; } cf.ext[e].1 = body; }
    });
}
/// Every head of one document joined with every tail of another, at token boundaries.
pub fn splice_vs(k: &mut Chk, env: &Env, name: &str, ds: &[D], step: usize) {
    let n = ds.len();
    k.part(name, n as u64, &|cx, case| {
        let a = &ds[case as usize]; let mut cf = a.cfg.clone(); cf.pos = true; let mut sub = 0; let ba = bounds(&a.doc);
        for (j, b) in ds.iter().enumerate() { if step > 1 && (j + case as usize) % step != 0 { continue; }
            let bb = bounds(&b.doc);
            for (x, &i) in ba.iter().enumerate() { for (y, &l) in bb.iter().enumerate() {
                if (x + y) % 2 == 1 && step > 1 { continue; }
                let mut doc = a.doc[..i].to_vec(); doc.extend_from_slice(&b.doc[l..]); if doc.len() > 600 { continue; }
                sub += 1; if cx.begin(sub, 1, &doc) { vs(cx, env, &cf, &doc, WHOLE, &[], "splice"); }
            } }
        }
    });
}
pub fn shape_vs(k: &mut Chk, env: &Env, dense: usize, max: usize) {
    let sh = shapes(); let sz = sizes(dense, max);
    k.part("sizes", (sh.len() * sz.len()) as u64, &|cx, case| {
        let (si, n) = (case as usize / sz.len(), sz[case as usize % sz.len()]);
        let d = sh[si].1(n); let mut cf = d.cfg.clone(); cf.pos = true; if d.doc.len() > 500_000 { return; }
        if cx.begin(0, n as u64, d.name.as_bytes()) { vs(cx, env, &cf, &d.doc, WHOLE, &[], &format!("shape {} size {}", d.name, n)); }
    });
}
pub fn c08(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C08", "exploration"); let th = env.thorough();
    let c = docs();
    fam_vs(&mut k, env, &families(), if th { 30_000_000 } else { 1_200_000 }, 1);
    edit_vs(&mut k, env, "edits", &c, 1);
    crate::p_char::charrefs(&mut k, env);
    let small: Vec<D> = corpus();
    splice_vs(&mut k, env, "splices", &small, if th { 1 } else { 2 });
    shape_vs(&mut k, env, if th { 400 } else { 40 }, if th { 70_000 } else { 5_000 });
    k.finish("all documents of the families, all single edits and all splices of the corpus, all sizes; one evaluation is one document parsed by both libraries, everything reported, positions and verdict included, having to agree; distinct = distinct logs")
}
/// `explorer dump`: a document from standard input through both libraries (for people).
pub fn dump(env: &Env, a: &[String]) {
    let mut doc = vec![]; std::io::Read::read_to_end(&mut std::io::stdin(), &mut doc).unwrap();
    let mut cf = cfg(); cf.pos = true; let mut chunk = 0; let mut plan: Vec<(u64, Act)> = vec![]; let mut raw = false;
    for x in a { match x.split_once('=') { Some(("ns", v)) => cf.ns = Some(v.as_bytes()[0]), Some(("pe", v)) => cf.pe = v.parse().unwrap(), Some(("enc", v)) => cf.enc = Some(crate::p_enc::leak(v.into())), Some(("chunk", v)) => chunk = v.parse().unwrap(), Some(("abort", v)) => { raw = true; plan.push((v.parse().unwrap(), Act::Abort)) } Some(("susp", v)) => { raw = true; plan.push((v.parse().unwrap(), Act::Suspend)) } Some(("xchunk", v)) => cf.ext_chunk = v.parse().unwrap(),
        Some(("dflt", v)) => cf.dflt = match v { "no" => Dflt::No, "d" => Dflt::Default, _ => Dflt::Expand }, Some(("mask", v)) => cf.mask = v.parse().unwrap(),
        Some((n, v)) if n.starts_with('@') => cf.ext.push((n[1..].as_bytes().to_vec(), std::fs::read(v).unwrap_or(v.as_bytes().to_vec()))), _ if x == "tri" => cf.triplet = true, _ => {} } }
    let cuts: Vec<usize> = if chunk > 0 { (1..).map(|i| i * chunk).take_while(|&i| i < doc.len()).collect() } else { vec![] };
    for api in [env.rx, env.ex] { let mut r = Run::new(api, &cf); r.plan.extend_from_slice(&plan); r.raw = raw; r.strict = raw; let p = create(&mut r); let st = feed(&mut r, p, &doc, &cuts, Via::Parse, false); finish(&mut r, p, st); free(&mut r, p); println!("== {}\n{}", api.name, s(&r.log)); }
}
