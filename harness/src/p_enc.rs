//! C07: the encoding of a document does not matter.
use crate::chk::*; use crate::drv::*; use crate::gen::*; use crate::p_ref::*; use crate::pool::*; use crate::util::*; use crate::*;

/// Ways of giving the same characters to the parser: (name, code, BOM, encoding given by the application).
const WAYS: &[(&str, &str, &[u8], Option<&str>)] = &[
    ("utf-16le bom", "UTF-16LE", b"\xff\xfe", None), ("utf-16be bom", "UTF-16BE", b"\xfe\xff", None), ("utf-8 bom", "UTF-8", b"\xef\xbb\xbf", None),
    ("utf-16le", "UTF-16LE", b"", None), ("utf-16be", "UTF-16BE", b"", None),
    ("utf-16le proto", "UTF-16LE", b"", Some("UTF-16LE")), ("utf-16be proto", "UTF-16BE", b"", Some("uTF-16be")), ("utf-16 proto be", "UTF-16BE", b"\xfe\xff", Some("utf-16")), ("utf-16 proto le", "UTF-16LE", b"\xff\xfe", Some("UTF-16")),
    ("utf-8 proto", "UTF-8", b"", Some("Utf-8")), ("latin proto", "ISO-8859-1", b"", Some("iso-8859-1")), ("ascii proto", "US-ASCII", b"", Some("us-ascii")),
    ("utf-16be proto bom", "UTF-16BE", b"\xfe\xff", Some("UTF-16BE")), ("utf-16le proto bom", "UTF-16LE", b"\xff\xfe", Some("UTF-16LE")), ("utf-8 proto bom", "UTF-8", b"\xef\xbb\xbf", Some("utf-8")),
];
fn width(c: char, enc: &str) -> usize { match enc { "UTF-8" => c.len_utf8(), "UTF-16LE" | "UTF-16BE" => 2 * c.len_utf16(), _ => 1 } }
/// Byte offset in the re-encoded document of a byte offset in the UTF-8 one.
pub struct Offs(pub Vec<i64>);
impl Offs {
    fn new(doc: &str, enc: &str, bom: usize) -> Offs { let mut v = vec![-7; doc.len() + 1]; let mut at = bom as i64; for (i, c) in doc.char_indices() { v[i] = at; at += width(c, enc) as i64; } v[doc.len()] = at; Offs(v) }
    fn at(&self, off: i64) -> i64 { if off < 0 { off } else { self.0.get(off as usize).copied().unwrap_or(-7) } }
}
/// The log the re-encoded document has to give: byte offsets translated, columns and lines as they are
/// (a byte order mark takes a column, as in every version of expat).
fn expect(log: &[u8], doc: &str, enc: &str, bom: usize, child_bom: bool) -> Vec<u8> { expect_at(log, &Offs::new(doc, enc, bom), bom, child_bom) }
pub fn expect_at(log: &[u8], of: &Offs, bom: usize, child_bom: bool) -> Vec<u8> {
    let mut v = vec![];
    for l in lines(log) {
        let (p, x) = split_pos(l, true); let d = l.len() - bare(l).len(); let child = d > 0;
        v.extend_from_slice(&l[..d]);
        if x.starts_with(b"END") {
            let t: Vec<&[u8]> = x.split(|&c| c == b' ').collect();
            for (i, y) in t.iter().enumerate() { if i > 0 { v.push(b' '); } if i == 4 && bom > 0 && t[3] == b"1" { push_num(&mut v, s(y).parse::<i64>().unwrap() + 1); } else if i == 5 { push_num(&mut v, of.at(s(y).parse().unwrap())); } else { v.extend_from_slice(y); } }
        } else {
            if let Some(i) = p.iter().rposition(|&c| c == b':') { if (if child { child_bom } else { bom > 0 }) && p.starts_with(b"1:") { let c: i64 = s(&p[2..i]).parse().unwrap(); v.extend_from_slice(b"1:"); push_num(&mut v, c + 1); v.push(b':'); } else { v.extend_from_slice(&p[..=i]); } if !child { push_num(&mut v, of.at(s(&p[i + 1..]).parse().unwrap())); } }
            v.push(b' '); v.extend_from_slice(x);
        }
        v.push(b'\n');
    }
    v
}
pub fn drop_child_off(log: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for l in lines(log) { let d = l.len() - bare(l).len(); if d == 0 { v.extend_from_slice(l); } else if split_pos(l, true).1.starts_with(b"XEND") { v.extend_from_slice(&l[..d]); v.extend_from_slice(split_pos(l, true).1); } else { let (p, x) = split_pos(l, true); v.extend_from_slice(&l[..d]); let i = p.iter().rposition(|&c| c == b':').unwrap_or(0); v.extend_from_slice(&p[..=i.min(p.len().saturating_sub(1))]); v.push(b' '); v.extend_from_slice(x); } v.push(b'\n'); }
    v
}
/// A document whose characters, not its bytes, are what counts.
pub fn plain(doc: &[u8]) -> Option<&str> { let t = std::str::from_utf8(doc).ok()?; if t.starts_with('\u{feff}') || t.contains("encoding") { None } else { Some(t) } }
/// All ways for one document, external entities re-encoded likewise.
fn ways(cx: &mut Ctx, env: &Env, doc: &[u8], cf: &Cfg, sub: &mut u64, bytewise: bool) {
    let t = match plain(doc) { Some(t) => t, None => return };
    if cf.enc.is_some() || !cf.ext.iter().all(|e| plain(&e.1).is_some()) { return; }
    let mut cf = cf.clone(); cf.pos = true;
    let base = parse(env.rx, &cf, doc, WHOLE, &[]);
    for (wi, (name, enc, bom, proto)) in WAYS.iter().enumerate() {
        let b = match reencode(t, enc) { Some(b) => b, None => continue };
        // without a mark the family is recognised from the first '<' (little endian) or a zero byte (big endian)
        if bom.is_empty() && proto.is_none() && !(if *enc == "UTF-16LE" { t.starts_with('<') } else { t.chars().next().map_or(false, |c| (c as u32) < 256) && t.len() >= 1 }) { continue; }
        let mut d = bom.to_vec(); d.extend_from_slice(&b);
        let mut c = cf.clone(); c.enc = *proto;
        let mut bad = false;
        for e in c.ext.iter_mut() { let t = std::str::from_utf8(&e.1).unwrap().to_string(); match reencode(&t, enc) { Some(b) => { e.1 = if bom.is_empty() && *enc != "UTF-8" && proto.is_none() { b"\xfe\xff".to_vec() } else { bom.to_vec() }; if proto.is_none() && bom.is_empty() { e.1 = if *enc == "UTF-16LE" { b"\xff\xfe".to_vec() } else { b"\xfe\xff".to_vec() } } e.1.extend(b) } None => bad = true } }
        if bad { continue; }
        let cbom = c.ext.first().map_or(false, |e| e.1.starts_with(b"\xff\xfe") || e.1.starts_with(b"\xfe\xff") || e.1.starts_with(b"\xef\xbb\xbf"));
        c.ext_enc = *proto;
        let want = drop_child_off(&expect(&base.log, t, enc, bom.len(), cbom));
        for f in 0..(1 + bytewise as usize) {
            *sub += 1; if !cx.begin(*sub, wi as u64, &d) { continue; }
            let cuts: Vec<usize> = if f == 1 { (1..d.len()).collect() } else { vec![] };
            let r = parse(env.rx, &c, &d, Feed { cuts: &cuts, via: Via::Parse, fin_empty: f == 1 }, &[]);
            cx.add(0, 1); cx.outcome(&r.log);
            let got = drop_child_off(&r.log);
            let (got, want) = if f == 1 { (norm_delivery(&strip_linecol_tail(&got), true), norm_delivery(&strip_linecol_tail(&want), true)) } else { (norm_delivery(&got, true), norm_delivery(&want, true)) };
            if got != want && !cut_marked(&got, &want, t, &cf) { cx.violation(&format!("{} {}{}", name, show(doc, &cf), if f == 1 { " bytewise" } else { "" }), &diff(&got, &want)); }
        }
    }
}
/// "<![" within six bytes of the end of what there is: unclosed or invalid, by the number of bytes left.
pub fn cut_marked(got: &[u8], want: &[u8], t: &str, cf: &Cfg) -> bool {
    if !t.contains("<![") && !cf.ext.iter().any(|e| s(&e.1).contains("<![")) { return false; }
    let (x, y) = (lines(got), lines(want)); if x.len() != y.len() { return false; }
    x.iter().zip(y.iter()).all(|(a, b)| { if a == b { return true; } let f = |l: &[u8]| -> Vec<u8> { let t: Vec<&[u8]> = split_pos(l, true).1.split(|&c| c == b' ').collect(); if t.len() > 2 && t[0].ends_with(b"END") && (t[2] == b"5" || t[2] == b"4") { [t[0], t[1], b"5"].join(&b' ') } else { l.to_vec() } }; f(a) == f(b) })
}
/// The line and column of the end of a failing parse are compared only for one delivery (an open finding of
/// the chunking property concerns them).
pub fn strip_linecol_tail(log: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for l in lines(log) { if l.starts_with(b"END") { let t: Vec<&[u8]> = l.split(|&c| c == b' ').collect(); for (i, y) in t.iter().enumerate() { if i == 3 || i == 4 { continue; } if i > 0 { v.push(b' '); } v.extend_from_slice(y); } } else { v.extend_from_slice(l); } v.push(b'\n'); }
    v
}
fn cases_of(n: &str) -> Vec<String> {
    let l: Vec<usize> = n.bytes().enumerate().filter(|(_, c)| c.is_ascii_alphabetic()).map(|x| x.0).collect();
    (0..1u32 << l.len()).map(|m| { let mut b = n.to_lowercase().into_bytes(); for (k, &i) in l.iter().enumerate() { if m >> k & 1 == 1 { b[i] = b[i].to_ascii_uppercase(); } } String::from_utf8(b).unwrap() }).collect()
}
pub fn leak(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }
pub fn c07(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C07", "exploration"); let th = env.thorough();
    let c = docs();
    k.part("corpus", c.len() as u64, &|cx, case| { let d = &c[case as usize]; let mut sub = 0; cx.sample(|| show(&d.doc, &d.cfg)); ways(cx, env, &d.doc, &d.cfg, &mut sub, true); });
    // the corpus with non-ASCII letters in place of every 'x', 'b' and quotes' contents
    k.part("accented", c.len() as u64, &|cx, case| {
        let d = &c[case as usize]; let mut sub = 0;
        for (from, to) in [("x", "é"), ("b", "ÿ"), ("x", "日"), ("y", "𝄞"), ("1", "\u{fffd}"), ("p", "ſ"), ("a", "\u{e0}")] {
            let t = match std::str::from_utf8(&d.doc) { Ok(t) => t.replace(from, to), Err(_) => return };
            let mut cf = d.cfg.clone(); for e in cf.ext.iter_mut() { if let Ok(t) = std::str::from_utf8(&e.1) { e.1 = t.replace(from, to).into_bytes(); } }
            ways(cx, env, t.as_bytes(), &cf, &mut sub, false);
        }
    });
    for f in &families() {
        if f.name.starts_with("units16") || f.name == "bytes-utf8" || f.name == "tok-decl" { continue; }
        let depth = depth_for(f, if th { 1_200_000 } else { 70_000 }); let n = f.n(depth); const B: u64 = 64;
        k.part(&format!("{}-d{}", f.name, depth), (n + B - 1) / B, &|cx, case| {
            let mut sub = 0; for i in case * B..((case + 1) * B).min(n) { let (doc, cf) = f.case(i, 0); ways(cx, env, &doc, &cf, &mut sub, false); }
        });
    }
    // declared encodings
    let names = ["utf-8", "utf-16", "utf-16be", "utf-16le", "iso-8859-1", "us-ascii", "utf8", "utf-88", "latin1", "iso-8859-15", "ascii", "x", "UTF-7", "utf-16bee", "iso-8859-", "us-asci", "utf_8", "1"];
    k.part("declared", names.len() as u64, &|cx, case| {
        let nm = names[case as usize]; let mut sub = 0;
        let all = cases_of(nm); let stride = if all.len() > 64 { 7 } else { 1 };
        for (i, n) in all.iter().enumerate() { if i % stride != 0 && i + 1 != all.len() { continue; }
            for ns in [None, Some(b'!')] { for (bom, enc) in [(&b""[..], "UTF-8"), (b"\xef\xbb\xbf", "UTF-8"), (b"\xff\xfe", "UTF-16LE"), (b"\xfe\xff", "UTF-16BE"), (b"", "UTF-16LE"), (b"", "UTF-16BE")] { for q in ['\'', '"'] { for body in ["<a>x</a>", "<a é='ü'>ÿ&#xe9;</a>"] {
                let t = format!("<?xml version='1.0' encoding={q}{n}{q}?>{body}"); let mut d = bom.to_vec(); d.extend(reencode(&t, enc).unwrap());
                let mut cf = cfg(); cf.ns = ns; cf.pos = true;
                for proto in [None, Some("utf-8"), Some("utf-16"), Some("iso-8859-1")] { cf.enc = proto;
                    sub += 1; if cx.begin(sub, 1, &d) { vs(cx, env, &cf, &d, WHOLE, &[], "declared"); }
                }
                cf.enc = None; cf.mask &= !h::UNK;
                let lat = t.chars().map(|c| c as u32 as u8).collect::<Vec<u8>>();
                sub += 1; if cx.begin(sub, 2, &lat) { vs(cx, env, &cf, &lat, WHOLE, &[], "declared latin"); }
                // in an external entity
                let mut cf = cfg(); cf.pos = true; cf.ext = vec![(b"e".to_vec(), { let t = format!("<?xml encoding={q}{n}{q}?>{body}"); let mut d = bom.to_vec(); d.extend(reencode(&t, enc).unwrap()); d })];
                sub += 1; if cx.begin(sub, 3, &cf.ext[0].1.clone()) { vs(cx, env, &cf, b"<!DOCTYPE r [<!ENTITY e SYSTEM 'e'>]><r>&e;</r>", WHOLE, &[], "declared in entity"); }
            } } } }
        }
    });
    // the same bytes under every encoding given by the application, by creation, SetEncoding or reset
    let protos: Vec<&'static str> = names.iter().flat_map(|n| [n.to_string(), n.to_uppercase(), format!("{} ", n), n[..n.len() - 1].to_string()]).map(leak).collect();
    k.part("application", protos.len() as u64, &|cx, case| {
        let n = protos[case as usize]; let mut sub = 0;
        for d in [&b"<a>x</a>"[..], b"<a \xe9='\xfc'>\xff</a>", "<a é='ü'>ÿ</a>".as_bytes(), b"\xff\xfe<\0a\0/\0>\0", b"<\0a\0/\0>\0", b"\xfe\xff\0<\0a\0/\0>", b"\0<\0a\0/\0>", b"\xef\xbb\xbf<a/>", b"<?xml version='1.0' encoding='iso-8859-1'?><a>\xe9</a>", b"<?xml version='1.0' encoding='utf-16'?><a>\xe9</a>", b""] {
            for ns in [None, Some(b'!')] { let mut cf = cfg(); cf.ns = ns; cf.pos = true; cf.enc = Some(n);
                sub += 1; if !cx.begin(sub, 1, d) { continue; }
                let a = vs(cx, env, &cf, d, WHOLE, &[], &format!("protocol {}", n));
                for way in 0..3 {
                    let mut c2 = cf.clone(); c2.enc = None;
                    let cs = std::ffi::CString::new(n).unwrap();
                    let mut r = Run::new(env.rx, &c2); let p = create(&mut r);
                    match way { 0 => { assert!(lib!((env.rx.SetEncoding)(p, cs.as_ptr())) == 1); } 1 => { lib!((env.rx.ParserReset)(p, cs.as_ptr())); setup(&mut r, p, false); } _ => { let o = std::ffi::CString::new("utf-16").unwrap(); lib!({ (env.rx.SetEncoding)(p, o.as_ptr()); (env.rx.SetEncoding)(p, cs.as_ptr()) }); } }
                    let st = feed(&mut r, p, d, &[], Via::Parse, false); finish(&mut r, p, st); free(&mut r, p); cx.add(0, 1);
                    if r.log != a.log { cx.violation(&format!("encoding {} by way {} {}", n, way, esc(d)), &diff(&r.log, &a.log)); }
                }
                // taken back, or given too late
                let mut c2 = cf.clone(); c2.enc = None; let plain = parse(env.rx, &c2, d, WHOLE, &[]);
                let cs = std::ffi::CString::new(n).unwrap();
                let mut r = Run::new(env.rx, &c2); let p = create(&mut r);
                lib!({ (env.rx.SetEncoding)(p, cs.as_ptr()); (env.rx.SetEncoding)(p, std::ptr::null()) });
                let st = feed(&mut r, p, d, &[], Via::Parse, false); finish(&mut r, p, st); free(&mut r, p);
                if r.log != plain.log { cx.violation(&format!("encoding {} taken back {}", n, esc(d)), &diff(&r.log, &plain.log)); }
                if d.len() > 4 {
                    let mut r = Run::new(env.rx, &c2); let p = create(&mut r);
                    let st = chunk(&mut r, p, &d[..3], false, Via::Parse);
                    let se = lib!((env.rx.SetEncoding)(p, cs.as_ptr()));
                    if st == 1 && se != 0 { cx.violation(&format!("SetEncoding {} accepted during the parse {}", n, esc(d)), ""); }
                    let st = if st == 1 { feed(&mut r, p, &d[3..], &[], Via::Parse, false) } else { st }; finish(&mut r, p, st); free(&mut r, p);
                    if norm_delivery(&strip_linecol_tail(&r.log), true) != norm_delivery(&strip_linecol_tail(&plain.log), true) { cx.violation(&format!("late SetEncoding {} had an effect {}", n, esc(d)), &diff(&r.log, &plain.log)); }
                }
            }
        }
    });
    // every start of a document or entity over the bytes that decide the encoding
    let by: &[u8] = b"\xfe\xff\xef\xbb\xbf\x00<a ?\n\x80"; let tails: [&[u8]; 4] = [b"<a/>", b"<\0a\0/\0>\0", b"\0<\0a\0/\0>", b""];
    let depth = if th { 6 } else { 4 }; let n = nseq(by.len() as u64, depth); const B: u64 = 64;
    k.part("starts", (n + B - 1) / B, &|cx, case| {
        let mut sub = 0;
        for i in case * B..((case + 1) * B).min(n) { let head: Vec<u8> = seq_at(i, by.len() as u64).iter().map(|&j| by[j]).collect();
            for (ti, t) in tails.iter().enumerate() { let mut d = head.clone(); d.extend_from_slice(t); let mut cf = cfg(); cf.pos = true;
                for proto in [None, Some("utf-8"), Some("UTF-16"), Some("utf-16le"), Some("UTF-16BE"), Some("iso-8859-1"), Some("us-ascii")] { cf.enc = proto;
                    sub += 1; if cx.begin(sub, 1, &d) { let a = vs(cx, env, &cf, &d, WHOLE, &[], &format!("start {:?}", proto));
                        let cuts: Vec<usize> = (1..d.len()).collect(); let b = vs(cx, env, &cf, &d, Feed { cuts: &cuts, via: Via::Buf, fin_empty: true }, &[], &format!("start {:?} bytewise", proto));
                        let (x, y) = (norm_delivery(&strip_linecol_tail(&b.log), true), norm_delivery(&strip_linecol_tail(&a.log), true));
                        if x != y && !junk_pair(&x, &y) && !unmarked_le(&d) { cx.violation(&format!("start bytewise {:?} {}", proto, esc(&d)), &diff(&x, &y)); } }
                }
                cf.enc = None;
                let dtd: &[u8] = if ti % 2 == 0 { b"<!DOCTYPE r [<!ENTITY e SYSTEM 'e'>]><r>&e;</r>" } else { b"<!DOCTYPE r SYSTEM 'e'><r/>" };
                cf.pe = 2; cf.ext = vec![(b"e".to_vec(), d.clone())];
                for pe in [None, Some("utf-16"), Some("iso-8859-1")] { cf.ext_enc = pe; for chunk in [0, 1] { cf.ext_chunk = chunk; sub += 1; if cx.begin(sub, 2, &d) { vs(cx, env, &cf, dtd, WHOLE, &[], &format!("start of entity chunk {}", chunk)); } } }
            }
        }
    });
    k.part("open-findings", 1, &|cx, _| {
        let d = b"\n\0<\0a\0/\0>\0"; let cf = cfg();
        if !cx.begin(1, 1, d) { return; }
        let a = parse(env.rx, &cf, d, WHOLE, &[]); let b = parse(env.rx, &cf, d, Feed { cuts: &[1], via: Via::Parse, fin_empty: false }, &[]); cx.add(0, 1);
        if norm_delivery(&a.log, false) != norm_delivery(&b.log, false) { cx.violation("UTF-16LE without mark, first character not '<', first byte alone in its chunk: read as UTF-8", &diff(&b.log, &a.log)); }
    });
    // ill-formed code units in every place
    let units: Vec<(&str, Vec<&[u8]>)> = vec![
        ("utf-8", vec![b"\xc3\xa9", b"\xc3", b"\xa9", b"\xe2\x82", b"\xed\xa0\x80", b"\xf0\x9d\x84\x9e", b"\xf4\x90\x80\x80", b"\xc0\x80", b"\xef\xbf\xbe", b"\xff", b"\xf8\x88\x80\x80\x80", b"\xe0\x9f\xbf", b"\xf0\x8f\xbf\xbf", b"\x7f", b"\x00", b"a"]),
        ("utf-16le", vec![b"\x00\xd8", b"\x00\xdc", b"\xff\xdb", b"\xff\xdf", b"\x41\x00", b"\xfe\xff", b"\xff\xff", b"\x00\x00", b"\x41", b"\xe9\x00", b"\x85\x00", b"\x00\x30"]),
        ("utf-16be", vec![b"\xd8\x00", b"\xdc\x00", b"\xdb\xff", b"\xdf\xff", b"\x00\x41", b"\xff\xfe", b"\xff\xff", b"\x00\x00", b"\x41", b"\x00\xe9", b"\x00\x85", b"\x30\x00"]),
        ("us-ascii", vec![b"\x80", b"\xe9", b"\xff", b"a", b"\x7f", b"\x00"]), ("iso-8859-1", vec![b"\x80", b"\xe9", b"\xff", b"\xd7", b"\xf7", b"\xb7", b"\xaa", b"\x00"])];
    let places: &[(&str, &str)] = &[("<a>", "</a>"), ("<", "/>"), ("<a", "/>"), ("<a b='", "'/>"), ("<a ", "='v'/>"), ("<a/><!--", "-->"), ("<a><?p ", "?></a>"), ("<a><?", "?></a>"), ("<a><![CDATA[", "]]></a>"), ("<!DOCTYPE ", "><a/>"), ("<!DOCTYPE a PUBLIC '", "' 's'><a/>"), ("<!DOCTYPE a SYSTEM '", "'><a/>"), ("<!DOCTYPE a [<!ENTITY e '", "'>]><a>&e;</a>"), ("<!DOCTYPE a [<!ENTITY ", " 'v'>]><a/>"), ("<a>&", ";</a>"), ("<a>&#", ";</a>"), ("</", ">"), ("<!DOCTYPE a [", "]><a/>"), ("<a/>", ""), ("<!DOCTYPE a [<!ATTLIST a b CDATA '", "'>]><a/>"), ("<!DOCTYPE a [%", ";]><a/>")];
    k.part("ill-formed", (units.len() * places.len()) as u64, &|cx, case| {
        let (enc, us) = &units[case as usize % units.len()]; let (pre, post) = places[case as usize / units.len()]; let mut sub = 0;
        let up: &'static str = leak(enc.to_uppercase());
        let depth = if th { 4 } else { 3 };
        for i in 0..nseq(us.len() as u64, depth) { let mut d = reencode(pre, up).unwrap(); d.extend(cat(us, &seq_at(i, us.len() as u64))); d.extend(reencode(post, up).unwrap());
            let mut cf = cfg(); cf.pos = true; cf.enc = Some(up);
            sub += 1; if cx.begin(sub, 1, &d) { vs(cx, env, &cf, &d, WHOLE, &[], up); }
            if i % 5 == 0 { sub += 1; let cuts: Vec<usize> = (1..=d.len()).collect(); if cx.begin(sub, 1, &d) { vs(cx, env, &cf, &d, Feed { cuts: &cuts, via: Via::Parse, fin_empty: true }, &[], up); } }
        }
    });
    // a surrogate that is not one of a pair is no character, wherever it stands and whatever follows it
    k.part("unpaired", places.len() as u64, &|cx, case| {
        let (pre, post) = places[case as usize]; let mut sub = 0;
        let us: [u16; 8] = [0xd800, 0xdbff, 0xdc00, 0xdfff, 0x41, 0xd835, 0x30, 0x3042];
        for be in [false, true] { let enc = if be { "UTF-16BE" } else { "UTF-16LE" }; for i in 1..nseq(8, if th { 4 } else { 3 }) {
            let sq: Vec<u16> = seq_at(i, 8).iter().map(|&j| us[j]).collect();
            let bad = std::char::decode_utf16(sq.iter().copied()).scan(0usize, |at, r| { let o = *at; *at += match r { Ok(c) => c.len_utf16(), Err(_) => 1 }; Some((o, r.is_err())) }).find(|x| x.1).map(|x| x.0);
            let bad = match bad { Some(b) => b, None => continue };
            let mut d = reencode(pre, enc).unwrap(); let at = (d.len() + 2 * bad) as i64;
            for &u in &sq { d.extend_from_slice(&if be { u.to_be_bytes() } else { u.to_le_bytes() }); } d.extend(reencode(post, enc).unwrap());
            for ns in [None, Some(b'!')] { for f in 0..2 { let mut cf = cfg(); cf.pos = true; cf.ns = ns; cf.enc = Some(enc);
                sub += 1; if !cx.begin(sub, 1, &d) { continue; }
                let cuts: Vec<usize> = if f == 1 { (1..d.len()).collect() } else { vec![] };
                let r = parse(env.rx, &cf, &d, Feed { cuts: &cuts, via: Via::Parse, fin_empty: f == 1 }, &[]); cx.add(0, 1); cx.outcome(&r.log);
                let end = *lines(&r.log).last().unwrap(); let t: Vec<&[u8]> = end.split(|&c| c == b' ').collect(); let (st, err, off): (i64, i64, i64) = (s(t[1]).parse().unwrap(), s(t[2]).parse().unwrap(), s(t[5]).parse().unwrap());
                // the character where it stands, or something before it that is already not well-formed
                let name = !(pre.ends_with('>') || pre.ends_with('\'') || pre.ends_with("--") || pre.ends_with("p ") || pre.ends_with("[CDATA[")) || pre.contains("PUBLIC");
                let ok = st == 0 && if err == 4 { (name || pre == "<a/>") && off <= at || off == at || pre.contains("ENTITY e") } else { err != 0 && (off < at || name || pre == "<a/>" || pre.contains("DOCTYPE")) };
                if !ok { cx.violation(&format!("unpaired surrogate in {} after {:?}: {:x?} {}", enc, pre, sq, if f == 1 { "bytewise" } else { "" }), &s(&r.log)); }
                if r.log.windows(3).any(|w| w[0] == 0xed && w[1] >= 0xa0) { cx.violation(&format!("a surrogate was delivered {} {:x?}", pre, sq), &s(&r.log)); }
            } }
        } }
    });
    // sizes: conversion buffers
    let sh = shapes(); let sz = sizes(if th { 300 } else { 30 }, if th { 20_000 } else { 4_200 });
    k.part("sizes", (sh.len() * sz.len()) as u64, &|cx, case| {
        let (si, n) = (case as usize / sz.len(), sz[case as usize % sz.len()]); let d = sh[si].1(n); let mut sub = 0; if d.doc.len() > 200_000 { return; }
        ways(cx, env, &d.doc, &d.cfg, &mut sub, false);
    });
    k.finish("every document in every encoding and every way of naming it; one evaluation is one parse compared with the UTF-8 parse (offsets translated) or with the reference; distinct = distinct logs")
}
/// UTF-16LE without a mark and without '<' at the start (open finding when the first byte comes alone).
fn unmarked_le(d: &[u8]) -> bool { d.len() > 1 && d[1] == 0 && !matches!(d[0], 0x3c | 0 | 0xfe | 0xff | 0xef) }
/// A name cut by the end of a chunk after the document element: junk or invalid token.
pub fn junk_pair(x: &[u8], y: &[u8]) -> bool { let f = |v: &[u8]| s(v).replace("END 0 4 ", "END 0 9 "); f(x) == f(y) }
