//! Positions (C12), the default handler (C13), the grammar of the event stream (C22).
use crate::chk::*; use crate::drv::*; use crate::ffi::*; use crate::gen::*; use crate::lib; use crate::p_ref::*; use crate::pool::*; use crate::util::*; use crate::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Code { U8, One, Le, Be }
/// The encoding of a document or entity of ours.
pub fn code_of(d: &[u8], enc: Option<&str>) -> Code {
    if d.starts_with(b"\xff\xfe") { return Code::Le; } if d.starts_with(b"\xfe\xff") { return Code::Be; }
    if let Some(e) = enc { return match &e.to_ascii_uppercase()[..] { "UTF-16LE" => Code::Le, "UTF-16BE" | "UTF-16" => Code::Be, "UTF-8" => Code::U8, _ => Code::One }; }
    if d.len() > 1 && d[0] == b'<' && d[1] == 0 { return Code::Le; } if d.len() > 1 && d[0] == 0 { return Code::Be; }
    let t = String::from_utf8_lossy(&d[..d.len().min(120)]).to_ascii_lowercase();
    if t.starts_with("<?xml") && (t.contains("iso-8859-1") || t.contains("us-ascii")) { return Code::One; }
    Code::U8
}
/// Offset and value of each character; a byte that fits nothing counts as a character of its own.
pub fn chars(d: &[u8], c: Code) -> Vec<(usize, u32)> {
    let mut v = vec![]; let mut i = 0;
    while i < d.len() { match c {
        Code::One => { v.push((i, d[i] as u32)); i += 1; }
        Code::U8 => { let n = match d[i] { 0..=0x7f => 1, 0xc2..=0xdf => 2, 0xe0..=0xef => 3, 0xf0..=0xf4 => 4, _ => 1 };
            match d.get(i..i + n).and_then(|x| std::str::from_utf8(x).ok()) { Some(x) => { v.push((i, x.chars().next().unwrap() as u32)); i += n; } None => { v.push((i, 0xfffd)); i += 1; } } }
        _ => { let u = |j: usize| -> Option<u32> { let x = d.get(j..j + 2)?; Some(if c == Code::Le { x[0] as u32 | (x[1] as u32) << 8 } else { x[1] as u32 | (x[0] as u32) << 8 }) };
            match u(i) { Some(h) if (0xd800..0xdc00).contains(&h) => match u(i + 2) { Some(l) if (0xdc00..0xe000).contains(&l) => { v.push((i, 0x10000 + ((h - 0xd800) << 10) + (l - 0xdc00))); i += 4; } _ => { v.push((i, 0xfffd)); i += 2; } }, Some(h) => { v.push((i, h)); i += 2; } None => { v.push((i, 0xfffd)); i += 1; } } }
    } }
    v
}
pub fn utf8(d: &[u8], c: Code) -> String { chars(d, c).iter().map(|x| char::from_u32(x.1).unwrap_or('\u{fffd}')).collect() }
/// Line and column of byte offset `at`: None when it is inside a character.
pub fn linecol(d: &[u8], c: Code, at: usize) -> Option<(u64, u64)> {
    let (mut l, mut k) = (1, 0); let cs = chars(&d[..at.min(d.len())], c);
    if at > d.len() { return None; }
    if at < d.len() { let all = chars(d, c); if !all.iter().any(|x| x.0 == at) { return None; } }
    for (i, &(_, x)) in cs.iter().enumerate() { if x == 10 { l += 1; k = 0; } else if x == 13 { if !(i + 1 < cs.len() && cs[i + 1].1 == 10) { l += 1; } k = 0; } else { k += 1; } }
    // CR directly before `at` with LF there: still that line end
    Some((l, k))
}
fn unesc(b: &[u8]) -> Vec<u8> { let mut v = vec![]; let mut i = 0; while i < b.len() { if b[i] == b'\\' && i + 1 < b.len() { v.push(if b[i + 1] == b'n' { b'\n' } else { b'\\' }); i += 2; } else { v.push(b[i]); i += 1; } } v }
fn last_line(r: &Run) -> &[u8] { let l = &r.log[..r.log.len().saturating_sub(1)]; let i = l.iter().rposition(|&c| c == b'\n').map_or(0, |i| i + 1); bare(&l[i..]) }
pub const PREV_BI: usize = 0; // hookdata, times the nesting depth: previous event's start and end
/// Run at the end of every handler call: position, extent and context of the event against its own text.
pub fn pos_hook(r: &mut Run, tag: &str) {
    let (p, a) = (r.p(), r.api); let body = match r.bodies.last() { Some(b) => *b, None => return };
    let (bi, n, l, c) = (lib!((a.GetCurrentByteIndex)(p)), lib!((a.GetCurrentByteCount)(p)), lib!((a.GetCurrentLineNumber)(p)), lib!((a.GetCurrentColumnNumber)(p)));
    let (mut off, mut size) = (-1i32, -1i32); let ctx = lib!((a.GetInputContext)(p, &mut off, &mut size));
    let mut nt: Vec<String> = vec![]; macro_rules! bad { ($t:expr) => { nt.push($t) }; }
    // a declaration whose value is in error is reported with the position of the error, beyond its extent
    let n = if tag == "ENT" && n < 0 { 0 } else { n };
    if bi < 0 || n < 0 || bi as usize + n as usize > body.len() { bad!(format!("{}: range {}+{} of {}", tag, bi, n, body.len())); r.notes.append(&mut nt); return; }
    let (b, n) = (bi as usize, n as usize); let tok = &body[b..b + n];
    let code = code_of(body, if r.bodies.len() == 1 { r.cfg().enc } else { r.cfg().ext_enc });
    let t = utf8(tok, code);
    match linecol(body, code, b) { None => bad!(format!("{}: {} is inside a character", tag, b)), Some(x) => if x != (l, c) { bad!(format!("{}: at byte {} reported {}:{} is {}:{}", tag, b, l, c, x.0, x.1)) } }
    if ctx.is_null() { bad!(format!("{}: no input context", tag)); }
    else if off < 0 || size < off + n as i32 { bad!(format!("{}: context offset {} size {} event {}", tag, off, size, n)); }
    else {
        let w = unsafe { std::slice::from_raw_parts(ctx as *const u8, size as usize) }; let o = off as usize;
        if o > b || b - o + w.len() > body.len() || w != &body[b - o..b - o + w.len()] { bad!(format!("{}: context is not the input around byte {}", tag, b)); }
        if o < b.min(1024) { bad!(format!("{}: only {} bytes of context before byte {}", tag, o, b)); }
    }
    let inent = (t.starts_with('&') || t.starts_with('%')) && t.ends_with(';') && t.len() > 2; // inside an internal entity: the reference
    let text = if tag == "T" || tag == "D" { let x = last_line(r); Some(String::from_utf8_lossy(&unesc(&x[2.min(x.len())..])).into_owned()) } else { None };
    // text that the end of the input cuts off has no extent
    let rest = n == 0 && text.as_ref().map_or(false, |x| *x == utf8(&body[b..], code));
    let ok = inent || rest || match tag {
        "S" => t.starts_with('<') && t.ends_with('>') && !t.starts_with("</"),
        "E" => t.is_empty() || t.starts_with("</") && t.ends_with('>') || t.ends_with("/>"),
        "C" => t.starts_with("<!--") && t.ends_with("-->"), "PI" => t.starts_with("<?") && t.ends_with("?>"), "XD" => t.starts_with("<?xml") && t.ends_with("?>"),
        "CD[" => t == "<![CDATA[", "]CD" => t == "]]>",
        "T" => { let x = text.as_deref().unwrap(); x == t || (t == "\r\n" || t == "\r") && x == "\n" || t == "]" && x == "]" }
        "D" => text.as_deref().unwrap() == t,
        "NS+" => t.starts_with('<') && t.ends_with('>'), "NS-" => t.is_empty() || t.ends_with('>'),
        // declarations are reported at a token of theirs, with or without its extent
        _ => true };
    if !ok { bad!(format!("{}: its bytes {}+{} are {:?}", tag, b, n, t)); }
    if r.notes.len() < 3 { r.notes.append(&mut nt); }
    // one after the other
    let d = (r.ext_depth as usize).min(2) * 2; let (pb, pe) = (r.hookdata[d], r.hookdata[d + 1]);
    if r.hookdata[7] == 1 { if (b as u64) < pb || (b as u64) > pb && (b as u64) < pe && tag != "NS-" { r.notes.push(format!("{}: {}+{} after {}..{}", tag, b, n, pb, pe)); } }
    r.hookdata[d] = b as u64; r.hookdata[d + 1] = (b + n) as u64; r.hookdata[d + 2 & 6] = 0; if d + 3 < 7 { r.hookdata[d + 3] = 0; }
}
/// A parse whose every event is checked by `pos_hook`, and the position of its failure.
pub fn pos_parse(api: &'static Api, cf: &Cfg, doc: &[u8], f: Feed) -> Box<Run> {
    let mut r = Run::new(api, cf); r.raw = true; r.hook = Some(pos_hook); r.hookdata[7] = 1; r.bodies.push(unsafe_static(doc));
    let p = create(&mut r); let st = feed(&mut r, p, doc, f.cuts, f.via, f.fin_empty);
    if st != 1 {
        let (bi, l, c) = (lib!((api.GetCurrentByteIndex)(p)), lib!((api.GetCurrentLineNumber)(p)), lib!((api.GetCurrentColumnNumber)(p)));
        if bi < 0 || bi as usize > doc.len() { r.notes.push(format!("failure at byte {} of {}", bi, doc.len())); }
        else { match linecol(doc, code_of(doc, cf.enc), bi as usize) { None => r.notes.push(format!("failure inside a character, {}", bi)), Some(x) => if x != (l, c) { r.notes.push(format!("failure: at byte {} reported {}:{} is {}:{}", bi, l, c, x.0, x.1)) } } }
    }
    finish(&mut r, p, st); free(&mut r, p);
    r
}
fn pos_judge(cx: &mut Ctx, env: &Env, cf: &Cfg, doc: &[u8], f: Feed, what: &str) {
    let r = pos_parse(if std::env::var_os("VP_REF").is_some() { env.ex } else { env.rx }, cf, doc, f);
    cx.add(0, 1); cx.add(1, r.nev); cx.outcome(&r.log);
    if let Some(n) = r.notes.first() { cx.violation(&format!("{} cuts {:?} {}", what, &f.cuts[..f.cuts.len().min(3)], show(doc, cf)), &format!("{}\n{}\n{}", n, r.notes.join("\n"), s(&r.log[..r.log.len().min(3000)]))); }
}
/// The corpus with every document also in the other encodings.
pub fn in_encodings(ds: Vec<D>) -> Vec<D> {
    let mut v = vec![];
    for d in ds {
        if let Ok(t) = std::str::from_utf8(&d.doc) { if !t.starts_with('\u{feff}') && !t.starts_with("<?xml") && d.cfg.enc.is_none() {
            for (e, bom, ann) in [("UTF-16LE", true, None), ("UTF-16BE", true, None), ("ISO-8859-1", false, Some("ISO-8859-1")), ("UTF-8", true, None)] {
                let t2 = if bom { format!("\u{feff}{}", t) } else { t.to_string() };
                if let Some(b) = reencode(&t2, e) { let mut c = d.cfg.clone(); c.enc = ann; v.push(D { name: format!("{}@{}", d.name, e), doc: b, cfg: c }); }
            }
        } }
        v.push(d);
    }
    v
}
pub fn c12(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C12", "exploration"); let th = env.thorough();
    let ds = in_encodings(docs()); let two = [Dflt::Default, Dflt::No];
    k.part("cuts", ds.len() as u64, &|cx, case| {
        let d = &ds[case as usize]; let mut sub = 0;
        for (df, mask) in [(two[0], 0), (two[0], d.cfg.mask), (two[1], d.cfg.mask), (two[0], h::COMMENT | h::CDATA)] { let mut cf = d.cfg.clone(); cf.dflt = df; cf.mask = mask;
            sub += 1; if cx.begin(sub, 1, &d.doc) { pos_judge(cx, env, &cf, &d.doc, WHOLE, "whole"); }
            let all: Vec<usize> = (1..=d.doc.len()).collect(); cf.ext_chunk = 1;
            sub += 1; if cx.begin(sub, 1, &d.doc) { pos_judge(cx, env, &cf, &d.doc, Feed { cuts: &all, via: Via::Buf, fin_empty: true }, "bytes"); }
            cf.ext_chunk = 2;
            let step = if d.doc.len() > 300 && !th { 7 } else { 1 };
            for c in (1..d.doc.len()).step_by(step) { sub += 1; if cx.begin(sub, 1, &d.doc) { pos_judge(cx, env, &cf, &d.doc, Feed { cuts: &[c], via: if c % 2 == 0 { Via::Parse } else { Via::Buf }, fin_empty: c % 3 == 0 }, "cut"); } }
        }
        if case % 97 == 0 { cx.sample(|| show(&d.doc, &d.cfg)); }
    });
    // every token sequence of the families
    for f in families() {
        let depth = depth_for(&f, if th { 20_000_000 } else { 300_000 }); let n = f.n(depth); const B: u64 = 64;
        k.part(&format!("{}-d{}", f.name, depth), (n + B - 1) / B, &|cx, case| { let mut sub = 0;
            for i in case * B..((case + 1) * B).min(n) { for ci in 0..f.cfgs.len() { let (doc, mut cf) = f.case(i, ci); cf.dflt = if i % 2 == 0 { Dflt::Default } else { Dflt::No };
                sub += 1; if cx.begin(sub, 1, &doc) { pos_judge(cx, env, &cf, &doc, WHOLE, f.name); }
            } } });
    }
    // long documents: the context kept before the event and the lines counted, for every size of chunk
    let long: Vec<(String, &str)> = vec![("<b>é</b>\n".into(), "short"), ("<ccc d='eeeeeeeeeeee'>tttt\r\n</ccc>".into(), "crlf"), ("x\r".into(), "cr"), ("<!-- 𝄞𝄞𝄞𝄞 \n\n -->".into(), "comment"), ("<![CDATA[ ]] \n]]>".into(), "cdata"),
        // longer than the buffers of the conversion
        ("é x".repeat(500), "text"), (format!("<![CDATA[{}]]>", "x 𝄞é".repeat(300)), "sect"), (format!("<!--{}-->", "éx".repeat(700)), "remark"), (format!("<?p {}?>", "xé".repeat(700)), "pi"), (format!("<b c='{}'/>", "xé".repeat(700)), "value"), ("abcdefg".repeat(200), "ascii")];
    let chunks: Vec<usize> = if th { (1..2500).collect() } else { (1..40).chain([63, 64, 65, 100, 127, 128, 255, 256, 257, 500, 511, 512, 513, 777, 1000, 1023, 1024, 1025, 1026, 1500, 2046, 2047, 2048, 2049, 3000, 4096, 100000]).collect() };
    let lens: Vec<(&str, String)> = vec![("UTF-8", String::new()), ("UTF-16LE", "\u{feff}".into()), ("UTF-16BE", "\u{feff}".into()), ("ISO-8859-1", "<?xml version='1.0' encoding='iso-8859-1'?>".into())];
    k.part("long", (long.len() * chunks.len()) as u64, &|cx, case| {
        let (u, c) = (&long[case as usize % long.len()], chunks[case as usize / long.len()]); let mut sub = 0;
        for (e, head) in &lens { let t = format!("{}<a>{}</a>", head, u.0.repeat((3600 / u.0.len()).max(1))); let doc = match reencode(&t, e) { Some(d) => d, None => continue };
            let cuts: Vec<usize> = (1..).map(|i| i * c).take_while(|&x| x < doc.len()).collect();
            for (i, via) in [Via::Parse, Via::Buf].iter().enumerate() { for (df, mask) in [(Dflt::Expand, h::CORE), (Dflt::Default, 0)] { let mut cf = cfg(); cf.dflt = df; cf.mask = mask; sub += 1; if i == 1 && mask == 0 && c < 63 { continue; } if cx.begin(sub, 1, u.1.as_bytes()) { pos_judge(cx, env, &cf, &doc, Feed { cuts: &cuts, via: *via, fin_empty: i == 0 }, u.1); } } }
        }
    });
    // the reference, position by position
    edit_vs(&mut k, env, "edits", &docs(), if th { 1 } else { 4 });
    k.finish("all documents of the corpus in all encodings with all cuts, all token sequences, long documents in all sizes of chunk; at every handler call and at the failure the line and column are recomputed from the bytes before, the bytes of the event have to be a token of its kind (for text: exactly that text), and the input context has to be the input; one evaluation is one parse")
}

/// The text of a document or entity, without its byte order mark.
fn plain(d: &[u8], c: Code) -> String { let t = utf8(d, c); t.strip_prefix('\u{feff}').map(|x| x.to_string()).unwrap_or(t) }
/// What the default handler got at the top level, and per external entity (with its verdict).
fn dtexts(log: &[u8]) -> (String, Vec<(String, bool)>) {
    let mut top = vec![]; let mut st: Vec<Vec<u8>> = vec![]; let mut done = vec![];
    for l in lines(log) { let d = l.len() - bare(l).len(); let x = bare(l);
        while st.len() < d { st.push(vec![]); }
        if x.starts_with(b"D ") { let t = unesc(&x[2..]); if d == 0 { top.extend(t) } else { st[d - 1].extend(t) } }
        if d > 0 && x.starts_with(b"XEND") { done.push((s(&st.pop().unwrap()), x.starts_with(b"XEND 1"))); }
    }
    (s(&top), done)
}
fn whole_judge(cx: &mut Ctx, env: &Env, cf: &Cfg, doc: &[u8], f: Feed, what: &str) {
    let r = parse(if std::env::var_os("VP_REF").is_some() { env.ex } else { env.rx }, cf, doc, f, &[]);
    cx.add(0, 1); cx.add(1, r.nev); cx.outcome(&r.log);
    let want = plain(doc, code_of(doc, cf.enc)); let (got, kids) = dtexts(&r.log); let mut bad = None;
    let ok = lines(&r.log).last().map_or(false, |l| l.starts_with(b"END 1"));
    // (parameter entities that are read are expanded in place)
    if cf.pe == 0 && !lines(&r.log).iter().any(|l| l.starts_with(b"EXT")) {
        if ok && got != want { bad = Some(format!("got {:?} want {:?}", got, want)); }
        if !ok {
            let f: Vec<String> = lines(&r.log).last().unwrap().split(|&c| c == b' ').map(s).collect(); let at: i64 = f[5].parse().unwrap_or(-1);
            if !want.starts_with(&got) { bad = Some(format!("got {:?}, not a beginning of {:?}", got, want)); }
            else if at > 0 { let before = plain(&doc[..(at as usize).min(doc.len())], code_of(doc, cf.enc)); if got.len() < before.len() && !one_token(&before[got.len()..]) { bad = Some(format!("got {:?}, not all before byte {} of {:?}", got, at, want)); } }
        }
    }
    if kids.len() == 1 && kids[0].1 && cf.ext.len() == 1 && !cf.ext[0].1.contains(&b'%') { let w = plain(&cf.ext[0].1, code_of(&cf.ext[0].1, cf.ext_enc)); if kids[0].0 != w { bad = Some(format!("entity: got {:?} want {:?}", kids[0].0, w)); } }
    if let Some(b) = bad { cx.violation(&format!("{} mask {} cuts {:?} {}", what, cf.mask, &f.cuts[..f.cuts.len().min(3)], show(doc, cf)), &format!("{}\n{}", b, s(&r.log[..r.log.len().min(3000)]))); }
}
/// The token in error is not delivered, with what the scanner has passed of it.
fn one_token(t: &str) -> bool { t.starts_with(['<', '&', '\'', '"']) || !t.chars().skip(1).any(|c| c == '<' || c == '&') }
fn tag_bit(t: &[u8]) -> u32 {
    match t { b"S" | b"E" => h::ELEM, b"T" => h::CDATA, b"PI" => h::PI, b"C" => h::COMMENT, b"CD[" | b"]CD" => h::CDSECT, b"DT[" | b"]DT" => h::DOCTYPE, b"UNP" => h::UNPARSED, b"NOT" => h::NOTATION, b"NS+" | b"NS-" => h::NSDECL, b"NOTSA" => h::NOTSA, b"EXT" => h::EXTREF, b"SKIP" => h::SKIPPED, b"EL" => h::ELDECL, b"ATT" => h::ATTDECL, b"ENT" => h::ENTDECL, b"XD" => h::XMLDECL, b"UNK" => h::UNK, _ => u32::MAX }
}
fn tag_half(t: &[u8]) -> u32 { match t { b"S" => h::NO_START, b"E" => h::NO_END, b"CD[" => h::NO_SCD, b"]CD" => h::NO_ECD, b"DT[" => h::NO_SDT, b"]DT" => h::NO_EDT, b"NS+" => h::NO_SNS, b"NS-" => h::NO_ENS, _ => 0 } }
/// A raw log (nothing joined) cut down to the handlers of `mask`, neighbouring text joined.
fn filter(log: &[u8], mask: u32, pos: bool) -> Vec<u8> {
    let mut v: Vec<u8> = vec![]; let mut last_t: Option<usize> = None;
    for l in lines(log) { let x = split_pos(l, pos).1; let t = x.split(|&c| c == b' ').next().unwrap(); let b = tag_bit(t);
        if b != u32::MAX && (mask & b == 0 || mask & tag_half(t) != 0) { continue; }
        if t == b"T" { if last_t == Some(l.len() - bare(l).len()) { v.pop(); v.extend_from_slice(&x[2..]); v.push(b'\n'); continue; } last_t = Some(l.len() - bare(l).len()); } else { last_t = None; }
        v.extend_from_slice(l); v.push(b'\n');
    }
    v
}
pub fn raw_parse(api: &'static Api, cf: &Cfg, doc: &[u8], f: Feed) -> Box<Run> { let mut r = Run::new(api, cf); r.raw = true; let p = create(&mut r); let st = feed(&mut r, p, doc, f.cuts, f.via, f.fin_empty); finish(&mut r, p, st); free(&mut r, p); r }
pub fn c13(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C13", "exploration"); let th = env.thorough();
    let ds = in_encodings(docs()); let content = [h::ELEM, h::CDATA, h::PI, h::COMMENT, h::CDSECT];
    // the default handler alone, and together with every set of content handlers that pass their events on
    k.part("complete", ds.len() as u64, &|cx, case| {
        let d = &ds[case as usize]; let mut sub = 0; if case % 97 == 0 { cx.sample(|| show(&d.doc, &d.cfg)); }
        for m in 0..32u32 { for half in 0..if m & 17 != 0 { 5 } else { 1 } { for ext in [0, h::EXTREF] { if ext != 0 && (d.cfg.ext.is_empty() || m % 8 != 0 && m != 2 && m != 31) { continue; }
            let mut cf = d.cfg.clone(); cf.dflt = Dflt::Default; cf.mask = ext | (0..5).filter(|b| m >> b & 1 == 1).map(|b| content[b as usize]).sum::<u32>() | [0, h::NO_START, h::NO_END, h::NO_SCD, h::NO_ECD][half]; cf.default_current = true; cf.dc_all = true; if ext == 0 { cf.pe = 0; }
            sub += 1; if cx.begin(sub, m as u64, &d.doc) { whole_judge(cx, env, &cf, &d.doc, WHOLE, "whole"); }
            let all: Vec<usize> = (1..=d.doc.len()).collect(); cf.ext_chunk = 1;
            sub += 1; if cx.begin(sub, m as u64, &d.doc) { whole_judge(cx, env, &cf, &d.doc, Feed { cuts: &all, via: Via::Buf, fin_empty: true }, "bytes"); }
            if m == 0 || m == 31 { let step = if d.doc.len() > 200 && !th { 5 } else { 1 }; for c in (1..d.doc.len()).step_by(step) { sub += 1; if cx.begin(sub, m as u64, &d.doc) { whole_judge(cx, env, &cf, &d.doc, Feed { cuts: &[c], via: Via::Parse, fin_empty: c % 2 == 0 }, "cut"); } } }
        } } }
    });
    for f in families() {
        let depth = depth_for(&f, if th { 20_000_000 } else { 300_000 }); let n = f.n(depth); const B: u64 = 64;
        k.part(&format!("{}-d{}", f.name, depth), (n + B - 1) / B, &|cx, case| { let mut sub = 0;
            for i in case * B..((case + 1) * B).min(n) { for ci in 0..f.cfgs.len() { let (doc, mut cf) = f.case(i, ci); cf.dflt = Dflt::Default; let m = i as u32 % 32; cf.mask = (0..5).filter(|b| m >> b & 1 == 1).map(|b| content[b as usize]).sum(); cf.default_current = true; cf.dc_all = true;
                if f.ext.is_some() { cf.mask |= h::EXTREF; } else if i % 3 == 0 { cf.mask = h::EXTREF; }
                sub += 1; if cx.begin(sub, 1, &doc) { whole_judge(cx, env, &cf, &doc, WHOLE, f.name); }
            } } });
    }
    // what one handler gets does not depend on which others there are
    let bits: Vec<u32> = (0..17).map(|i| 1 << i).collect();
    let mut masks: Vec<u32> = vec![0]; for &a in &bits { masks.push(a); masks.push(h::ALL & !a); for &b in &bits { if b > a { masks.push(a | b); masks.push(h::ALL & !a & !b); if th { for &c in &bits { if c > b { masks.push(a | b | c); } } } } } }
    for (b, n) in [(h::ELEM, [h::NO_START, h::NO_END]), (h::CDSECT, [h::NO_SCD, h::NO_ECD]), (h::DOCTYPE, [h::NO_SDT, h::NO_EDT]), (h::NSDECL, [h::NO_SNS, h::NO_ENS])] { for x in n { masks.push(b | x); masks.push(h::ALL | x); masks.push(h::CORE | x); for &a in &bits { masks.push(a | b | x); } } }
    let d2 = docs();
    k.part("subsets", d2.len() as u64, &|cx, case| {
        let d = &d2[case as usize]; let mut sub = 0;
        // (the position of the end of an empty element depends on whether its start was reported; a refusal by the
        // not-standalone handler ends the parse)
        for ext in [0, h::EXTREF] { for unp in [0, h::UNPARSED] { let mut cf = d.cfg.clone(); cf.pos = false; cf.sa_ret = 1; cf.dflt = Dflt::No; cf.mask = (h::ALL & !h::EXTREF & !h::UNPARSED) | ext | unp;
            let full = raw_parse(env.rx, &cf, &d.doc, WHOLE);
            for &m in &masks { if m & h::EXTREF != ext || m & h::UNPARSED != unp { continue; }
                sub += 1; if !cx.begin(sub, m as u64, &d.doc) { continue; } cf.mask = m;
                let r = raw_parse(env.rx, &cf, &d.doc, WHOLE); cx.add(0, 1); cx.add(1, r.nev); cx.outcome(&r.log);
                let (a, b) = (filter(&r.log, m, false), filter(&full.log, m, false));
                if a != b { cx.violation(&format!("handlers {:#x} {}", m, show(&d.doc, &cf)), &diff(&a, &b)); }
            } } }
    });
    // every such set with both kinds of default handler, against the reference
    k.part("modes", d2.len() as u64, &|cx, case| {
        let d = &d2[case as usize]; let mut sub = 0;
        for &m in &masks { for df in [Dflt::No, Dflt::Default, Dflt::Expand] { for dcur in [false, true] { if dcur && df == Dflt::No { continue; }
            let mut cf = d.cfg.clone(); cf.pos = true; cf.dflt = df; cf.mask = m; cf.default_current = dcur; cf.dc_all = dcur;
            sub += 1; if cx.begin(sub, m as u64, &d.doc) { vs(cx, env, &cf, &d.doc, WHOLE, &[], "mode"); }
        } } }
    });
    k.finish("all corpus documents in all encodings, deliveries and sets of content handlers, where what reaches the default handler has to be the document; all sets of up to two handlers present or absent, where each has to get what it gets among all; every set with both default handlers against the reference; one evaluation is one parse")
}
