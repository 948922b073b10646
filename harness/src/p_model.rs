//! Checks with a model of their own: attributes (C09), namespaces (C10), internal entities (C11),
//! declarations (C15), the grammar of the event stream (C22).
use crate::chk::*; use crate::drv::*; use crate::gen::*; use crate::p_ref::*; use crate::pool::*; use crate::util::*; use crate::*;

/// The model's log against the library's; with `refr`, against the reference too.
pub fn judge(cx: &mut Ctx, env: &Env, cf: &Cfg, doc: &[u8], want: &[u8], what: &str, refr: bool) {
    let a = parse(env.rx, cf, doc, WHOLE, &[]);
    cx.add(0, 1); cx.add(1, a.nev + 1); cx.add(2, 1); cx.outcome(&a.log); cx.state(want);
    let got = strip_pos(&a.log, cf.pos);
    if got != want { cx.violation(&format!("{} {}", what, show(doc, cf)), &diff(&got, want)); }
    if refr { let b = parse(env.ex, cf, doc, WHOLE, &[]); if a.log != b.log && !async_excuse(&a.log, &b.log) { cx.violation(&format!("{} reference {}", what, show(doc, cf)), &diff(&a.log, &b.log)); } }
}
pub fn end(v: &mut Vec<u8>, err: i32) { if err == 0 { v.extend_from_slice(b"END 1 0\n"); } else { v.extend_from_slice(format!("END 0 {}\n", err).as_bytes()); } }

// ---------------------------------------------------------------- C09
#[derive(Clone, Copy, PartialEq)]
enum Kind { None, Cdata, Tokens, Id, Enum }
const TYPES: &[(&str, Kind)] = &[("", Kind::None), ("CDATA", Kind::Cdata), ("ID", Kind::Id), ("IDREF", Kind::Tokens), ("IDREFS", Kind::Tokens), ("ENTITY", Kind::Tokens), ("ENTITIES", Kind::Tokens), ("NMTOKEN", Kind::Tokens), ("NMTOKENS", Kind::Tokens), ("(u|v)", Kind::Enum), ("NOTATION (n|m)", Kind::Enum)];
/// Pieces of attribute values: the source, what it stands for (None: an error code).
const VAL: &[(&str, &str)] = &[(" ", " "), ("v", "v"), ("\t", " "), ("\r\n", " "), ("\r", " "), ("\n", " "), ("&#32;", " "), ("&#10;", "\n"), ("&lt;", "<"), ("&e;", " w "), ("é", "é"), ("&f;", "ww"), ("&#x9;", "\t"), ("&n;", " ")];
const VALDTD: &str = "<!ENTITY e ' w\n'><!ENTITY f 'w&g;'><!ENTITY g 'w'><!ENTITY n '&#10;'><!ENTITY h '&e;'>";
fn norm(ix: &[usize], tokens: bool) -> String {
    let mut s = String::new();
    for &i in ix { s.push_str(VAL[i].1); }
    if tokens { let t = s.split(' ').filter(|x| !x.is_empty()).collect::<Vec<_>>().join(" "); return t; }
    s
}
fn raw(ix: &[usize]) -> String { ix.iter().map(|&i| VAL[i].0).collect() }
fn lit(v: &str) -> String { let mut o = vec![]; put_esc(&mut o, v.as_bytes()); String::from_utf8(o).unwrap() }
pub fn c09(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C09", "model_checking"); let th = env.thorough();
    let base = { let mut c = cfg(); c.mask = h::ELEM; c.dflt = Dflt::No; c };
    // one attribute: every type, default, specified or defaulted value
    let nv = VAL.len() as u64; let d1 = if th { 4 } else { 3 }; let n = nseq(nv, d1); const B: u64 = 32;
    k.part("value", (n + B - 1) / B, &|cx, case| {
        let mut sub = 0;
        for i in case * B..((case + 1) * B).min(n) { let ix = seq_at(i, nv); let v = raw(&ix);
            if ix.windows(2).any(|w| w[0] == 4 && w[1] == 5) { continue; } // that is the piece CR LF
            for (ti, (t, kind)) in TYPES.iter().enumerate() { let tok = *kind != Kind::None && *kind != Kind::Cdata;
                for how in 0..3 { // specified, defaulted, fixed default with another value specified
                    if *kind == Kind::None && how > 0 { continue; }
                    sub += 1; if !cx.begin(sub, ti as u64, v.as_bytes()) { continue; }
                    let decl = match (t.is_empty(), how) { (true, _) => String::new(), (_, 0) => format!("<!ATTLIST a x {} #IMPLIED>", t), (_, 1) => format!("<!ATTLIST a x {} '{}'>", t, v), _ => format!("<!ATTLIST a x {} #FIXED '{}'>", t, v) };
                    let tag = match how { 0 => format!("<a x='{}'/>", v), 1 => "<a/>".into(), _ => format!("<a y=\"{}\"/>", v) };
                    let doc = format!("<!DOCTYPE a [{}{}]>{}", VALDTD, decl, tag);
                    let val = lit(&norm(&ix, tok)); let id = if *kind == Kind::Id && how == 0 { 0 } else { -1 };
                    let mut w = match how { 0 => format!("S 'a' 'x'={}# 2 {}\n", val, id), 1 => format!("S 'a' 'x'={}# 0 -1\n", val), _ => format!("S 'a' 'y'={} 'x'={}# 2 -1\n", lit(&norm(&ix, false)), val) }.into_bytes();
                    w.extend_from_slice(b"E 'a'\n"); end(&mut w, 0);
                    judge(cx, env, &base, doc.as_bytes(), &w, "value", ti % 3 == how as usize);
                    if case % 37 == 0 { cx.sample(|| doc.clone()); }
                }
            }
        }
    });
    // several attributes: every set of declarations, every order and choice of specified ones
    const DECL: &[(&str, Kind, Option<&str>)] = &[("", Kind::None, None), ("CDATA #IMPLIED", Kind::Cdata, None), ("CDATA ' d '", Kind::Cdata, Some(" d ")), ("NMTOKENS ' p  q '", Kind::Tokens, Some("p q")), ("ID #IMPLIED", Kind::Id, None), ("CDATA #FIXED 'f'", Kind::Cdata, Some("f")), ("ID #REQUIRED", Kind::Id, None), ("(u|v) 'v'", Kind::Enum, Some("v"))];
    let nd = DECL.len() as u64; let names = ["x", "y", "z"];
    let mut specs: Vec<Vec<usize>> = vec![]; for i in 0..nseq(3, 4) { specs.push(seq_at(i, 3)); }
    k.part("sets", nd.pow(3), &|cx, case| {
        let ds = [case % nd, case / nd % nd, case / nd / nd]; let mut sub = 0;
        for order in [[0usize, 1, 2], [2, 1, 0], [1, 2, 0]] { for again in 0..2 { for tags in 1..3usize {
            // declarations in this order; `again`: followed by later declarations, which bind nothing
            let mut decl = String::new(); let mut ids = false; let mut eff: Vec<(usize, Kind, Option<&str>)> = vec![]; let mut idname = None;
            for &o in &order { let (t, kd, df) = DECL[ds[o] as usize]; if kd == Kind::None { continue; } decl.push_str(&format!("<!ATTLIST a {} {}>", names[o], t)); eff.push((o, kd, df)); if kd == Kind::Id && !ids { ids = true; idname = Some(o); } }
            if again == 1 { for &o in &order { decl.push_str(&format!("<!ATTLIST a {} CDATA 'late'>", names[o])); if !eff.iter().any(|e| e.0 == o) { eff.push((o, Kind::Cdata, Some("late"))); } } }
            for sp in &specs {
                let mut doc = format!("<!DOCTYPE a [<!ATTLIST b x CDATA 'bx'>{}]><r>", decl); let mut w: Vec<u8> = b"S 'r'# 0 -1\n".to_vec(); let mut err = 0;
                for _ in 0..tags {
                    doc.push_str("<a"); for &o in sp { doc.push_str(&format!(" {}=' 1\t 2 '", names[o])); } doc.push_str("/>");
                    if err != 0 { continue; }
                    if sp.iter().enumerate().any(|(i, o)| sp[..i].contains(o)) { err = 8; continue; }
                    let mut l = String::from("S 'a'"); let mut id = -1i64;
                    for (i, &o) in sp.iter().enumerate() { let tok = eff.iter().find(|e| e.0 == o).map_or(false, |e| e.1 != Kind::Cdata); l.push_str(&format!(" '{}'={}", names[o], if tok { "1 2" } else { " 1  2 " })); if idname == Some(o) { id = 2 * i as i64; } }
                    for (o, _, df) in &eff { if !sp.contains(o) { if let Some(v) = df { l.push_str(&format!(" '{}'={}", names[*o], v)); } } }
                    l.push_str(&format!("# {} {}\nE 'a'\n", 2 * sp.len(), id)); w.extend_from_slice(l.as_bytes());
                }
                doc.push_str("<b/></r>");
                if err == 0 { w.extend_from_slice(b"S 'b' 'x'=bx# 0 -1\nE 'b'\nE 'r'\n"); } end(&mut w, err);
                for ns in [None, Some(b'!')] { let mut cf = base.clone(); cf.ns = ns; sub += 1; if cx.begin(sub, 1, doc.as_bytes()) { judge(cx, env, &cf, doc.as_bytes(), &w, "set", false); } }
            }
        } } }
    });
    // several elements: every sequence of declarations for two elements and two attributes
    const ETY: &[(&str, Kind)] = &[("CDATA", Kind::Cdata), ("ID", Kind::Id), ("NMTOKEN", Kind::Tokens), ("(u|v)", Kind::Enum)];
    let depth = if th { 4 } else { 3 }; let n = nseq(32, depth); const BE: u64 = 64;
    k.part("elements", (n + BE - 1) / BE, &|cx, case| {
        let mut sub = 0;
        for i in case * BE..((case + 1) * BE).min(n) { let sq = seq_at(i, 32); for merge in 0..2 { for spec in 0..3 {
            let mut doc = String::from("<!DOCTYPE r ["); let mut prev = usize::MAX;
            // (element, attribute, type, has default) in order of declaration
            let ds: Vec<(usize, usize, Kind, bool)> = sq.iter().map(|&t| (t & 1, t >> 1 & 1, ETY[t >> 2 & 3].1, t >> 4 & 1 == 1)).collect();
            for (j, d) in ds.iter().enumerate() { let t = ETY[sq[j] >> 2 & 3].0;
                if merge == 0 || prev != d.0 { if prev != usize::MAX { doc.push('>'); } doc.push_str(["<!ATTLIST a", "<!ATTLIST b"][d.0]); }
                doc.push_str(&format!(" {} {} {}", ["x", "y"][d.1], t, if d.3 { "' d  e '" } else { "#IMPLIED" })); prev = d.0; }
            if prev != usize::MAX { doc.push('>'); } doc.push_str("]><r>");
            let mut w: Vec<u8> = b"S 'r'# 0 -1\n".to_vec();
            for el in 0..2 { let nm = ["a", "b"][el]; let given: &[usize] = match spec { 0 => &[0, 1], 1 => &[1], _ => &[] };
                doc.push_str(&format!("<{}", nm)); for &g in given { doc.push_str(&format!(" {}=' 1  2 '", ["x", "y"][g])); } doc.push_str("/>");
                let mut eff: Vec<(usize, Kind, bool)> = vec![]; let mut id = None;
                for d in ds.iter().filter(|d| d.0 == el) { if eff.iter().any(|e| e.0 == d.1) { continue; } eff.push((d.1, d.2, d.3)); if d.2 == Kind::Id && !d.3 && id.is_none() { id = Some(d.1); } }
                let mut l = format!("S '{}'", nm); let mut idx = -1i64;
                for (j, g) in given.iter().enumerate() { let tok = eff.iter().any(|e| e.0 == *g && e.1 != Kind::Cdata); l.push_str(&format!(" '{}'={}", ["x", "y"][*g], if tok { "1 2" } else { " 1  2 " })); if id == Some(*g) { idx = 2 * j as i64; } }
                for e in &eff { if e.2 && !given.contains(&e.0) { l.push_str(&format!(" '{}'={}", ["x", "y"][e.0], if e.1 != Kind::Cdata { "d e" } else { " d  e " })); } }
                w.extend_from_slice(format!("{}# {} {}\nE '{}'\n", l, 2 * given.len(), idx, nm).as_bytes());
            }
            doc.push_str("</r>"); w.extend_from_slice(b"E 'r'\n"); end(&mut w, 0);
            sub += 1; if cx.begin(sub, spec as u64, doc.as_bytes()) { judge(cx, env, &base, doc.as_bytes(), &w, "elements", i % 16 == 0); }
        } } }
    });
    // many attributes, a duplicate at every pair of places, with and without namespaces
    let top = if th { 70 } else { 36 };
    k.part("many", top, &|cx, case| {
        let n = case as usize + 1; let mut sub = 0;
        for mode in 0..4 { let mut cf = base.clone(); if mode > 0 { cf.ns = Some(b'!'); cf.triplet = mode == 3; }
            for dup in std::iter::once((n, n)).chain((0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j)))) {
                if dup.0 < n && (dup.0 * 7 + dup.1) % (if th { 1 } else { 3 }) != 0 { continue; }
                let mut doc = String::from("<a xmlns:p='u' xmlns:q='u' xmlns:o='v'"); let mut l = String::from(if mode == 0 { "S 'a' 'xmlns:p'=u 'xmlns:q'=u 'xmlns:o'=v" } else { "S 'a'" });
                for i in 0..n { let (nm, p) = if i == dup.1 { (dup.0, if mode == 0 || mode == 1 { "" } else if mode == 2 { "q:" } else { "q:" }) } else { (i, if mode < 2 { "" } else if i % 5 == 4 && i != dup.0 { "o:" } else { "p:" }) };
                    doc.push_str(&format!(" {}a{}='{}'", p, nm, i));
                    l.push_str(&format!(" '{}a{}{}'={}", match p { "" => "", "o:" => "v!", _ => "u!" }, nm, if mode == 3 { match p { "" => "", "o:" => "!o", "q:" => "!q", _ => "!p" } } else { "" }, i)); }
                doc.push_str("/>"); let mut w = vec![];
                if dup.0 < n { end(&mut w, 8); } else { w.extend_from_slice(format!("{}# {} -1\nE 'a'\n", l, 2 * n + if mode == 0 { 6 } else { 0 }).as_bytes()); end(&mut w, 0); }
                sub += 1; if cx.begin(sub, mode as u64, doc.as_bytes()) { judge(cx, env, &cf, doc.as_bytes(), &w, "many", false); }
            }
        }
    });
    let fams: Vec<Fam> = families().into_iter().filter(|f| matches!(f.name, "tok-attr" | "tok-attdef" | "tok-attl")).collect();
    fam_vs(&mut k, env, &fams, if th { 40_000_000 } else { 1_700_000 }, 1);
    let v = vs_values(); fam_vs(&mut k, env, &v, if th { 40_000_000 } else { 1_700_000 }, 1);
    let ds: Vec<D> = docs().into_iter().filter(|d| d.name.contains("att") || d.name.contains("ns") || d.name == "eltypes/2").collect();
    edit_vs(&mut k, env, "edits", &ds, 1);
    k.finish("every declaration and start tag of the bounded grammars, judged by a model of attribute normalisation, defaulting, order and duplicates, and by the reference; one evaluation is one document; states = distinct reports the model predicts")
}
fn vs_values() -> Vec<Fam> {
    let toks = |l: &[&'static str]| -> Vec<&'static [u8]> { l.iter().map(|x| x.as_bytes()).collect() };
    vec![Fam { name: "values", pre: b"<!DOCTYPE a [<!ENTITY e ' w&#10;'><!ENTITY f '&e;&lt;'><!ENTITY m '<b/>'><!ENTITY s SYSTEM 's'><!ENTITY r '&r;'><!ENTITY q '\"&#39;'><!ATTLIST a x CDATA #IMPLIED y NMTOKENS 'd  e' z ID #IMPLIED>]><a x='", post: b"'/>",
        alpha: toks(&["&e;", "&f;", "&m;", "&s;", "&r;", "&u;", "&q;", "' y='", "' z='", "'y='", "\"", "&#38;#60;", " ", "\r\n", "v", "&#0;", "&"]), cfgs: vec![cfg()], ext: None }]
}

// ---------------------------------------------------------------- C10
#[derive(Clone)]
struct Tag { prefix: &'static str, decls: Vec<(&'static str, &'static str)>, atts: Vec<(&'static str, &'static str)> } // prefix, local
const XMLNS: &str = "http://www.w3.org/XML/1998/namespace";
struct NsModel { stack: Vec<(&'static str, &'static str)>, v: Vec<u8>, sep: u8, tri: bool }
impl NsModel {
    fn find(&self, p: &str) -> Option<&'static str> { if p == "xml" { return Some(XMLNS); } self.stack.iter().rev().find(|b| b.0 == p).map(|b| b.1) }
    fn name(&self, uri: &str, local: &str, prefix: &str) -> String {
        if uri.is_empty() { return local.into(); }
        let sep = if self.sep == 0 { String::new() } else { (self.sep as char).to_string() };
        let mut s = format!("{}{}{}", uri, sep, local);
        if self.tri && !prefix.is_empty() && self.sep != 0 { s = format!("{}{}{}", s, sep, prefix); }
        s
    }
    /// Err(code) or the expanded name
    fn open(&mut self, t: &Tag) -> Result<String, i32> {
        for (p, u) in &t.decls {
            if *p == "xmlns" { return Err(39); }
            if *p == "xml" && *u != XMLNS { return Err(38); }
            if *p != "xml" && (*u == XMLNS || *u == "http://www.w3.org/2000/xmlns/") { return Err(40); }
            if !p.is_empty() && u.is_empty() { return Err(28); }
            let l = format!("NS+ {} {}\n", if p.is_empty() { "~".into() } else { format!("'{}'", p) }, if u.is_empty() { "~".to_string() } else { format!("'{}'", u) });
            self.v.extend_from_slice(l.as_bytes());
            self.stack.push((p, u));
        }
        let mut seen: Vec<(&str, &str)> = vec![]; let mut l = String::new();
        for (p, n) in &t.atts {
            let uri = if p.is_empty() { "" } else { self.find(p).ok_or(27)? };
            if !p.is_empty() && seen.contains(&(uri, n)) { return Err(8); }
            seen.push((uri, n));
            l.push_str(&format!(" '{}'={}", self.name(uri, n, p), n));
        }
        let uri = match self.find(t.prefix) { Some(u) => u, None if t.prefix.is_empty() => "", None => return Err(27) };
        let nm = self.name(uri, "t", t.prefix);
        self.v.extend_from_slice(format!("S '{}'{}# {} -1\n", nm, l, 2 * t.atts.len()).as_bytes());
        Ok(nm)
    }
    fn close(&mut self, t: &Tag, nm: &str) {
        self.v.extend_from_slice(format!("E '{}'\n", nm).as_bytes());
        for (p, _) in t.decls.iter().rev() { self.v.extend_from_slice(format!("NS- {}\n", if p.is_empty() { "~".into() } else { format!("'{}'", p) }).as_bytes()); self.stack.pop(); }
    }
}
fn src(t: &Tag, end: bool) -> String {
    let n = if t.prefix.is_empty() { "t".to_string() } else { format!("{}:t", t.prefix) };
    if end { return format!("</{}>", n); }
    let mut s = format!("<{}", n);
    for (p, u) in &t.decls { s.push_str(&if p.is_empty() { format!(" xmlns='{}'", u) } else { format!(" xmlns:{}='{}'", p, u) }); }
    for (p, n) in &t.atts { s.push_str(&if p.is_empty() { format!(" {}='{}'", n, n) } else { format!(" {}:{}='{}'", p, n, n) }); }
    s + ">"
}
fn tags(prefixes: &[&'static str], decls: &[(&'static str, &'static str)], maxd: usize, atts: &[&[(&'static str, &'static str)]]) -> Vec<Tag> {
    let mut sets: Vec<Vec<(&'static str, &'static str)>> = vec![vec![]];
    for a in decls { sets.push(vec![*a]); if maxd > 1 { for b in decls { if a.0 != b.0 { sets.push(vec![*a, *b]); } } } }
    let mut v = vec![]; for p in prefixes { for s in &sets { for a in atts { v.push(Tag { prefix: p, decls: s.clone(), atts: a.to_vec() }); } } } v
}
/// Documents of `n` tags, each either inside or after the previous one, one inside the other at the end.
fn ns_case(cx: &mut Ctx, env: &Env, ts: &[&Tag], nest: u32, refr: bool, sub: &mut u64) {
    for (sep, tri) in [(b'!', false), (b'!', true), (0u8, false), (0, true), (b' ', false)] {
        if sep != b'!' && ts.len() > 2 { continue; }
        let mut doc = String::from("<r>"); let mut m = NsModel { stack: vec![], v: b"S 'r'# 0 -1\n".to_vec(), sep, tri }; let mut err = 0; let mut open: Vec<(&Tag, String)> = vec![];
        for (i, t) in ts.iter().enumerate() {
            doc.push_str(&src(t, false));
            if err == 0 { match m.open(t) { Ok(n) => open.push((t, n)), Err(e) => err = e } } else { open.push((t, String::new())); }
            if err != 0 { break; }
            if i + 1 == ts.len() || nest >> i & 1 == 0 { let (t, n) = open.pop().unwrap(); doc.push_str(&src(t, true)); m.close(t, &n); }
        }
        while let Some((t, n)) = open.pop() { if err == 0 { doc.push_str(&src(t, true)); m.close(t, &n); } }
        doc.push_str("</r>"); if err == 0 { m.v.extend_from_slice(b"E 'r'\n"); }
        end(&mut m.v, err);
        let mut cf = cfg(); cf.mask = h::ELEM | h::NSDECL; cf.dflt = Dflt::No; cf.ns = Some(sep); cf.triplet = tri;
        *sub += 1; if cx.begin(*sub, 1, doc.as_bytes()) { judge(cx, env, &cf, doc.as_bytes(), &m.v, "ns", refr); }
    }
}
pub fn c10(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C10", "model_checking"); let th = env.thorough();
    let a0: &[(&str, &str)] = &[]; let ax: &[(&str, &str)] = &[("", "x")]; let apx: &[(&str, &str)] = &[("p", "x")]; let apq: &[(&str, &str)] = &[("p", "x"), ("q", "x")]; let axp: &[(&str, &str)] = &[("", "x"), ("p", "x")]; let al: &[(&str, &str)] = &[("xml", "lang"), ("q", "y")]; let a5: &[(&str, &str)] = &[("p", "x"), ("q", "y"), ("p", "y"), ("", "y"), ("q", "x")];
    let all = tags(&["", "p", "q", "xml"], &[("", "u"), ("", "v"), ("", ""), ("p", "u"), ("p", "v"), ("q", "u"), ("p", ""), ("xml", XMLNS), ("xml", "u"), ("xmlns", "u"), ("q", XMLNS), ("", "http://www.w3.org/2000/xmlns/"), ("q", "w"), ("", XMLNS)], 2, &[a0, ax, apx, apq, axp, al, a5]);
    k.part("one", all.len() as u64, &|cx, case| { let mut sub = 0; ns_case(cx, env, &[&all[case as usize]], 0, true, &mut sub); });
    let two = tags(&["", "p", "q"], &[("", "u"), ("", ""), ("p", "u"), ("p", "v"), ("q", "u")], if th { 2 } else { 2 }, &[a0, apx, apq]);
    let n = two.len();
    k.part("two", n as u64, &|cx, case| { let mut sub = 0; for (j, b) in two.iter().enumerate() { if !th && (j + case as usize) % 2 == 1 { continue; } for nest in 0..2 { ns_case(cx, env, &[&two[case as usize], b], nest, (j + case as usize) % 8 == 0, &mut sub); } } });
    let three = tags(&["", "p"], &[("", "u"), ("", ""), ("p", "u"), ("p", "v")], 1, &[a0, apx]); let n3 = three.len() as u64;
    k.part("three", n3 * n3, &|cx, case| { let mut sub = 0; for c in 0..n3 { for nest in 0..4 { ns_case(cx, env, &[&three[(case / n3) as usize], &three[(case % n3) as usize], &three[c as usize]], nest, c % 5 == 0, &mut sub); } } });
    if th { k.part("four", n3 * n3, &|cx, case| { let mut sub = 0; for c in 0..n3 { for d in 0..n3 { for nest in [5, 7, 3, 1, 6] { ns_case(cx, env, &[&three[(case / n3) as usize], &three[(case % n3) as usize], &three[c as usize], &three[d as usize]], nest, false, &mut sub); } } } }); }
    // names of all lengths below each other: open elements keep their names while the storage they share with their namespace grows
    let lens: &[usize] = if th { &[1, 7, 8, 9, 22, 23, 24, 25, 26, 30, 60, 120, 250] } else { &[1, 8, 23, 24, 25, 60, 130] }; let nl = lens.len() * 3; let depth = 4u32;
    k.part("lengths", (nl * nl) as u64, &|cx, case| { let mut sub = 0;
        for rest in 0..nl.pow(depth - 2) { let pick = [case as usize % nl, case as usize / nl, rest % nl, rest / nl];
            for (ul, tri) in [(1usize, false), (1, true), (9, true), (30, false)] { if !th && (rest + ul) % 3 != 0 && tri { continue; }
                let uri = "u".repeat(ul); let mut doc = format!("<r xmlns='{0}' xmlns:p='{0}' xmlns:qq='{0}2'>", uri); let nm = |i: usize| -> (String, String) { let n = "n".repeat(lens[i % lens.len()]);
                    match i / lens.len() { 0 => (n.clone(), format!("{}!{}", uri, n)), 1 => (format!("p:{}", n), format!("{}!{}{}", uri, n, if tri { "!p" } else { "" })), _ => (format!("qq:{}", n), format!("{}2!{}{}", uri, n, if tri { "!qq" } else { "" })) } };
                let mut m = format!("NS+ ~ '{0}'\nNS+ 'p' '{0}'\nNS+ 'qq' '{0}2'\nS '{0}!r'# 0 -1\n", uri);
                for &i in &pick { let (a, b) = nm(i); doc.push_str(&format!("<{}>", a)); m.push_str(&format!("S '{}'# 0 -1\n", b)); }
                for &i in pick.iter().rev() { let (a, b) = nm(i); doc.push_str(&format!("</{}>", a)); m.push_str(&format!("E '{}'\n", b)); }
                doc.push_str("</r>"); m.push_str(&format!("E '{}!r'\nNS- 'qq'\nNS- 'p'\nNS- ~\n", uri)); let mut m = m.into_bytes(); end(&mut m, 0);
                let mut cf = cfg(); cf.mask = h::ELEM | h::NSDECL; cf.dflt = Dflt::No; cf.ns = Some(b'!'); cf.triplet = tri;
                sub += 1; if cx.begin(sub, 1, doc.as_bytes()) { judge(cx, env, &cf, doc.as_bytes(), &m, "lengths", false); }
            } }
    });
    let fams: Vec<Fam> = families().into_iter().filter(|f| matches!(f.name, "tok-ns" | "tok-attdef")).map(|mut f| { if f.name == "tok-attdef" { f.cfgs.remove(0); } f }).chain(ns_fams()).collect();
    fam_vs(&mut k, env, &fams, if th { 40_000_000 } else { 1_700_000 }, 1);
    let ds: Vec<D> = docs().into_iter().filter(|d| d.cfg.ns.is_some()).flat_map(|d| { let mut e = d.clone(); e.cfg.triplet = !e.cfg.triplet; e.name += "-tri"; [d, e] }).collect();
    edit_vs(&mut k, env, "edits", &ds, 1); splice_vs(&mut k, env, "splices", &ds[..ds.len().min(60)], if th { 1 } else { 2 });
    // every document of the corpus with namespace processing, for both triplet modes and three separators
    let c = docs();
    k.part("corpus", c.len() as u64, &|cx, case| { let d = &c[case as usize]; let mut sub = 0; for sep in [b'!', 0, b' ', 0xff, b':', b'u'] { for tri in [false, true] { let mut cf = d.cfg.clone(); cf.ns = Some(sep); cf.triplet = tri; cf.pos = true; sub += 1; if cx.begin(sub, 1, &d.doc) { vs(cx, env, &cf, &d.doc, WHOLE, &[], &format!("sep {} tri {}", sep, tri)); } } } });
    // every separator, with namespace names that contain it or characters like it
    k.part("separators", 256, &|cx, case| {
        let sep = case as u8; let mut sub = 0; let c = sep as char;
        let lit = if sep < 0x80 { match c { '<' | '&' | '\'' => None, c if (c as u32) < 32 && !"\t\n\r".contains(c) => None, c => Some(c.to_string()) } } else { Some(char::from(sep).to_string()) };
        let reff = if sep >= 32 || matches!(sep, 9 | 10 | 13) { Some(format!("&#{};", sep)) } else { None };
        for x in [lit, reff, Some("é".into()), Some("€".into()), Some("\u{e9}&#10;|^ ".into()), Some("&e;".into()), Some("".into())] { let x = match x { Some(x) => x, None => continue };
            for uri in [x.clone(), format!("u{}", x), format!("{}u", x), format!("u{}v", x), format!("http://h/p?q={}&#35;f", x)] { for form in 0..4 { for tri in [false, true] { for other in [sep, b'!', b'\n', 0] {
                let d = match form { 0 => format!("<!DOCTYPE p:a [<!ENTITY e 'x{}'>]><p:a xmlns:p='{}' p:b=''><p:c/></p:a>", if sep >= 32 && sep < 127 && !b"<&'%".contains(&sep) { c.to_string() } else { "&#124;".into() }, uri), 1 => format!("<!DOCTYPE a [<!ENTITY e 'x|'>]><a xmlns='{}'><b/></a>", uri), 2 => format!("<!DOCTYPE a [<!ENTITY e 'x^'><!ATTLIST a xmlns CDATA '{}' xmlns:q CDATA 'v{}'>]><a q:x='1'/>", uri, uri), _ => format!("<!DOCTYPE a [<!ENTITY e 'x'>]><a xmlns='w'><b xmlns='{}'/><c xmlns:p='u{}' p:q='r'/></a>", uri, uri) };
                let mut cf = cfg(); cf.ns = Some(other); cf.triplet = tri; cf.pos = true;
                sub += 1; if cx.begin(sub, form, d.as_bytes()) {
                    let a = vs(cx, env, &cf, d.as_bytes(), WHOLE, &[], &format!("separator {}", other));
                    // by itself: no accepted name of a document has its separator twice, if no URI may contain it
                    if other != 0 && other < 0x80 && !(other.is_ascii_alphanumeric() || b"%-._~:/?#[]@!$&'()*+,;=".contains(&other)) && other != b'\'' && other != b'\\' { for l in lines(&a.log) { let l = split_pos(l, true).1; if l.starts_with(b"S ") || l.starts_with(b"E ") { let n = String::from_utf8_lossy(l).split('\'').nth(1).unwrap_or("").bytes().filter(|&c| c == other).count(); if n > 1 + tri as usize { cx.violation(&format!("separator {} in a name {}", other, show(d.as_bytes(), &cf)), &s(&a.log)); } } } }
                }
            } } } }
        }
    });
    shape_ns(&mut k, env, if th { 600 } else { 60 }, if th { 70_000 } else { 5_000 });
    k.finish("every arrangement of the bounded set of tags, declarations and prefixed attributes, judged by a scoping model, and the namespace families by the reference; one evaluation is one document; states = distinct reports the model predicts")
}
fn ns_fams() -> Vec<Fam> {
    let toks = |l: &[&'static str]| -> Vec<&'static [u8]> { l.iter().map(|x| x.as_bytes()).collect() };
    let ns = { let mut c = cfg(); c.ns = Some(b'!'); c }; let tri = { let mut c = ns.clone(); c.triplet = true; c };
    vec![
        Fam { name: "ns-tree", pre: b"<r xmlns:p='1'>", post: b"</r>", alpha: toks(&["<p:a>", "</p:a>", "<q:a xmlns:q='2'>", "</q:a>", "<a xmlns='3'>", "</a>", "<p:b xmlns:p='4'/>", "<b xmlns=''/>", "<p:c p:x='' xmlns:q='1' q:y=''/>", "<q:z/>", "t", "&e;", "<c/>", "<xml:d xml:e=''/>"]), cfgs: vec![ns.clone(), tri.clone()], ext: None },
        Fam { name: "ns-names", pre: b"<r xmlns:p='1' xmlns:q='1'><", post: b"/></r>", alpha: toks(&["p", "q", ":", "a", "xmlns", "xml", " ", "='1'", "=''", "é", "1", "-", "='http://www.w3.org/2000/xmlns/'", "='http://www.w3.org/XML/1998/namespace'"]), cfgs: vec![ns.clone(), tri.clone()], ext: None },
        Fam { name: "ns-dtd", pre: b"<!DOCTYPE r [", post: b"]><r><p:a/><a q:x='1'/></r>", alpha: toks(&["<!ATTLIST r xmlns:p CDATA 'u'>", "<!ATTLIST a xmlns:q CDATA 'w'>", "<!ATTLIST r xmlns CDATA 'd'>", "<!ATTLIST p:a p:x CDATA 'y'>", "<!ATTLIST a q:x CDATA 'z' q:y NMTOKEN ' n '>", "<!ATTLIST r xmlns:q CDATA #FIXED 'v'>", "<!ATTLIST a xmlns CDATA ''>", "<!ATTLIST p:a xmlns:p CDATA 'v' p:x ID #IMPLIED>", "<!ENTITY p:e 'x'>", "<!ELEMENT p:a ANY>", "<!NOTATION a:b SYSTEM 'x'>", "<!ATTLIST r xml:space CDATA 'p'>", "<?p:q?>"]), cfgs: vec![ns.clone(), tri.clone()], ext: None },
        Fam { name: "ns-ent", pre: b"<!DOCTYPE r [<!ENTITY e '<p:a/>'><!ENTITY f '<p:a xmlns:p=\"2\">&e;</p:a>'><!ENTITY g 'xmlns'><!ENTITY u 'http://www.w3.org/XML/1998/namespace'><!ENTITY s SYSTEM 's'>]><r xmlns:p='1'>", post: b"</r>", alpha: toks(&["&e;", "&f;", "&s;", "<p:b xmlns:p='&g;'>", "</p:b>", "<q:c xmlns:q='&u;'/>", "<q:c xmlns:q=' u\n'/>", "<d xmlns='s'>", "</d>", "<x xmlns:a='&#117;' a:b='' xmlns:c='u' c:b=''/>"]),
            cfgs: vec![{ let mut c = ns.clone(); c.ext = vec![(b"s".to_vec(), b"<p:s/><t/>&e;<z:y xmlns:z='zz'/>".to_vec())]; c }, { let mut c = tri.clone(); c.ext = vec![(b"s".to_vec(), b"<p:s xmlns:p='5'>&f;</p:s><t xmlns=''/>".to_vec())]; c }], ext: None },
    ]
}
fn shape_ns(k: &mut Chk, env: &Env, dense: usize, max: usize) {
    let sh: Vec<_> = shapes().into_iter().filter(|s| s.1(1).cfg.ns.is_some()).collect(); let sz = sizes(dense, max);
    k.part("sizes", (sh.len() * sz.len()) as u64, &|cx, case| {
        let (si, n) = (case as usize / sz.len(), sz[case as usize % sz.len()]); let d = sh[si].1(n); if d.doc.len() > 300_000 { return; }
        for tri in [false, true] { let mut cf = d.cfg.clone(); cf.pos = true; cf.triplet = tri; if cx.begin(tri as u64, n as u64, d.name.as_bytes()) { vs(cx, env, &cf, &d.doc, WHOLE, &[], &format!("shape {} size {} tri {}", d.name, n, tri)); } }
    });
}

// ---------------------------------------------------------------- C11
#[derive(Clone, Copy, PartialEq)]
enum Tk { Open(&'static str), Close(&'static str), Empty, Text(&'static str), Ref(usize), Undef, Cdata, Comm, Lt, AttRef(usize), Rsqb }
const ENTNAMES: [&str; 3] = ["e", "f", "g"];
fn tk_src(t: Tk) -> String { match t { Tk::Open(n) => format!("<{}>", n), Tk::Close(n) => format!("</{}>", n), Tk::Empty => "<c/>".into(), Tk::Text(s) => s.into(), Tk::Ref(i) => format!("&{};", ENTNAMES[i]), Tk::Undef => "&u;".into(), Tk::Cdata => "<![CDATA[q]]>".into(), Tk::Comm => "<!--k-->".into(), Tk::Lt => "&lt;".into(), Tk::AttRef(i) => format!("<d x='&{};'/>", ENTNAMES[i]), Tk::Rsqb => "]]".into() } }
struct EntModel<'a> { ents: &'a [Vec<Tk>], open: [bool; 3], stack: Vec<&'static str>, ev: Vec<String>, text: Option<String> }
impl<'a> EntModel<'a> {
    fn e(&mut self, s: String) { if let Some(t) = self.text.take() { self.ev.push(format!("T {}", lit(&t))); } self.ev.push(s); }
    fn t(&mut self, s: &str) { self.text.get_or_insert_with(String::new).push_str(s); }
    fn att(&mut self, toks: &[Tk], out: &mut String) -> Result<(), i32> {
        for &t in toks { match t {
            Tk::Text(s) => out.push_str(s), Tk::Lt => out.push('<'), Tk::Undef => return Err(11), Tk::Rsqb => out.push_str("]]"),
            Tk::Ref(i) => { if self.open[i] { return Err(12); } self.open[i] = true; let b = &self.ents[i]; self.att(b, out)?; self.open[i] = false; }
            _ => return Err(4),
        } }
        Ok(())
    }
    fn run(&mut self, toks: &[Tk], level: usize) -> Result<(), i32> {
        for &t in toks { match t {
            Tk::Open(n) => { self.stack.push(n); self.e(format!("S '{}'# 0 -1", n)); }
            Tk::Close(n) => { if self.stack.len() == level { return Err(13); } let o = self.stack.pop().unwrap(); if o != n { return Err(7); } self.e(format!("E '{}'", n)); }
            Tk::Empty => { self.e("S 'c'# 0 -1".into()); self.e("E 'c'".into()); }
            Tk::Text(s) => self.t(s), Tk::Rsqb => self.t("]]"), Tk::Lt => self.t("<"), Tk::Undef => return Err(11),
            Tk::Cdata => { self.e("CD[".into()); self.t("q"); self.e("]CD".into()); }
            Tk::Comm => self.e("C 'k'".into()),
            Tk::Ref(i) => { if self.open[i] { return Err(12); } self.open[i] = true; let l = self.stack.len(); let b = &self.ents[i]; self.run(b, l)?; if self.stack.len() != l { return Err(13); } self.open[i] = false; }
            Tk::AttRef(i) => { let mut s = String::new(); self.att(&[Tk::Ref(i)], &mut s)?; self.e(format!("S 'd' 'x'={}# 2 -1", lit(&s))); self.e("E 'd'".into()); }
        } }
        Ok(())
    }
}
fn ent_case(cx: &mut Ctx, env: &Env, ents: &[Vec<Tk>], body: &[Tk], sub: &mut u64, refr: bool) {
    let mut doc = String::from("<!DOCTYPE a [");
    for (i, e) in ents.iter().enumerate() { doc.push_str(&format!("<!ENTITY {} \"{}\">", ENTNAMES[i], e.iter().map(|&t| tk_src(t)).collect::<String>())); }
    doc.push_str("]><a>"); for &t in body { doc.push_str(&tk_src(t)); } doc.push_str("</a>");
    let mut m = EntModel { ents, open: [false; 3], stack: vec![], ev: vec![], text: None };
    m.stack.push("a"); m.e("S 'a'# 0 -1".into());
    // "]]" directly followed by ">" of nothing is plain text; the model's alphabet never makes "]]>"
    let err = match m.run(body, 0) { Ok(()) => if m.stack.len() != 1 { 7 } else { 0 }, Err(e) => e };
    if err == 0 { m.e("E 'a'".into()); } else if let Some(t) = m.text.take() { m.ev.push(format!("T {}", lit(&t))); }
    let mut w = m.ev.join("\n").into_bytes(); w.push(b'\n'); end(&mut w, err);
    let mut cf = cfg(); cf.mask = h::ELEM | h::CDATA | h::COMMENT | h::CDSECT; cf.dflt = Dflt::No;
    *sub += 1; if !cx.begin(*sub, 1, doc.as_bytes()) { return; }
    judge(cx, env, &cf, doc.as_bytes(), &w, "entities", refr);
    if refr { cf.mask = h::CORE; cf.dflt = Dflt::Default; cf.pos = true; vs(cx, env, &cf, doc.as_bytes(), WHOLE, &[], "entities unexpanded"); cf.dflt = Dflt::Expand; vs(cx, env, &cf, doc.as_bytes(), WHOLE, &[], "entities positions");
        let cuts: Vec<usize> = (1..doc.len()).collect(); vs(cx, env, &cf, doc.as_bytes(), Feed { cuts: &cuts, via: Via::Buf, fin_empty: true }, &[], "entities bytewise"); }
    if *sub % 997 == 0 { cx.sample(|| doc.clone()); }
}
fn pick(al: &[Tk], i: u64) -> Vec<Tk> { seq_at(i, al.len() as u64).iter().map(|&j| al[j]).collect() }
pub fn c11(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C11", "model_checking"); let th = env.thorough();
    let al = [Tk::Open("b"), Tk::Close("b"), Tk::Empty, Tk::Text("t"), Tk::Ref(0), Tk::Ref(1), Tk::Lt, Tk::Comm];
    let bl = [Tk::Open("b"), Tk::Close("b"), Tk::Text("x"), Tk::Ref(0), Tk::Ref(1), Tk::AttRef(0), Tk::AttRef(1), Tk::Open("h"), Tk::Close("h")];
    let ne = nseq(8, 2); let nb = nseq(9, if th { 3 } else { 2 });
    k.part("two", ne * ne, &|cx, case| { let ents = [pick(&al, case / ne), pick(&al, case % ne)]; let mut sub = 0; for b in 0..nb { ent_case(cx, env, &ents, &pick(&bl, b), &mut sub, (b + case) % 16 == 0); } });
    let ol = [Tk::Text("t"), Tk::Ref(0), Tk::Ref(1), Tk::Ref(2), Tk::Open("b"), Tk::Close("b"), Tk::AttRef(1), Tk::Undef, Tk::Cdata, Tk::AttRef(2)]; let no = nseq(10, 1);
    let cl = [Tk::Ref(0), Tk::Ref(1), Tk::Ref(2), Tk::Open("b"), Tk::Close("b"), Tk::Text("x"), Tk::AttRef(0), Tk::Undef, Tk::Rsqb]; let nc = nseq(9, if th { 4 } else { 3 });
    k.part("three", no * no * no, &|cx, case| { let ents = [pick(&ol, case / no / no), pick(&ol, case / no % no), pick(&ol, case % no)]; let mut sub = 0; for b in 0..nc { ent_case(cx, env, &ents, &pick(&cl, b), &mut sub, (b + case) % 32 == 0); } });
    let n1 = nseq(8, 3);
    k.part("one-long", n1, &|cx, case| { let e = pick(&al, case); if e.contains(&Tk::Ref(1)) { return; } let ents = [e]; let mut sub = 0; for b in 0..nseq(9, 3) { let b = pick(&bl, b); if b.contains(&Tk::Ref(1)) || b.contains(&Tk::AttRef(1)) { continue; } let rf = sub % 16 == 0; ent_case(cx, env, &ents, &b, &mut sub, rf); } });
    // chains: entity i refers to i-1 before, between and after text; the deepest refers to nothing, or to the top
    k.part("chains", 60, &|cx, case| {
        let mut sub = 0; let n = case as usize + 1;
        for shape in 0..6 { for loop_ in 0..3 { for place in 0..3 {
            let mut doc = String::from("<!DOCTYPE a ["); for i in 0..n { let r = if i == 0 { if loop_ == 0 { "z".into() } else if loop_ == 1 { format!("&e{};", n - 1) } else { format!("&e{};", n / 2) } } else { format!("&e{};", i - 1) };
                let v = match shape { 0 => r, 1 => format!("p{}", r), 2 => format!("{}s", r), 3 => format!("<b>{}</b>", r), 4 => format!("{0}{0}", if i % 4 == 0 { r.clone() } else { "".into() }) + &r, _ => format!("<b x='{}'/>", r) };
                doc.push_str(&format!("<!ENTITY e{} \"{}\">", i, v)); }
            doc.push_str(&match place { 0 => format!("]><a>&e{};</a>", n - 1), 1 => format!("]><a x='&e{};'/>", n - 1), _ => format!("<!ATTLIST a d CDATA '&e{};'>]><a/>", n - 1) });
            if shape == 4 && n > 40 { continue; }
            for dflt in [Dflt::No, Dflt::Expand] { let mut cf = cfg(); cf.pos = true; cf.dflt = dflt; sub += 1; if cx.begin(sub, 1, doc.as_bytes()) { vs(cx, env, &cf, doc.as_bytes(), WHOLE, &[], "chain"); } }
        } } }
    });
    // references to declared and undeclared entities when parts of the declaration are outside the document
    crate::p_ext::matrix(&mut k, env, "outside", 2, if th { 2 } else { 1 }, 12, true);
    let fams: Vec<Fam> = families().into_iter().filter(|f| matches!(f.name, "tok-refs" | "tok-ent" | "tok-pe" | "tok-extsub")).chain(ent_fams()).collect();
    fam_vs(&mut k, env, &fams, if th { 30_000_000 } else { 1_200_000 }, 1);
    let ds: Vec<D> = docs().into_iter().filter(|d| d.name.contains("ent") || d.name.starts_with("pe") || d.name.contains("ext")).collect();
    edit_vs(&mut k, env, "edits", &ds, if th { 1 } else { 2 });
    k.finish("every set of entity values and body of the bounded grammars, judged by an expander model (and, for a sixteenth, by the reference in three more deliveries); one evaluation is one document; states = distinct reports the model predicts")
}
fn ent_fams() -> Vec<Fam> {
    let toks = |l: &[&'static str]| -> Vec<&'static [u8]> { l.iter().map(|x| x.as_bytes()).collect() };
    let pe = { let mut c = cfg(); c.pe = 2; c };
    vec![
        Fam { name: "ent-literal", pre: b"<!DOCTYPE a [<!ENTITY d 'D'><!ENTITY e \"", post: b"\">]><a x='&e;'>&e;</a>", alpha: toks(&["&d;", "&#60;", "&#38;", "&#x26;", "#60;", "d;", "<", ">", "b", "/", "'", " ", "&#10;", "\r\n", "]]>", "&e;", "&#34;"]), cfgs: vec![{ let mut c = cfg(); c.dflt = Dflt::No; c }], ext: None },
        Fam { name: "ent-pe-literal", pre: b"<!DOCTYPE a SYSTEM 'd'><a x='&e;'>&e;</a>", post: b"", alpha: toks(&["<!ENTITY % p 'P'>", "<!ENTITY % q '&#37;p;'>", "<!ENTITY % r \"'V'\">", "<!ENTITY e '", "<!ENTITY e ", "%p;", "%q;", "%r;", "'>", ">", "x", "&#37;p;", "&f;", "<!ENTITY f 'F'>"]), cfgs: vec![pe.clone()], ext: Some("d") },
        Fam { name: "ent-predef", pre: b"<!DOCTYPE a [", post: b"]><a x='&lt;&amp;&gt;&quot;&apos;&e;'>&lt;&amp;&gt;&quot;&apos;&e;</a>", alpha: toks(&["<!ENTITY lt '&#38;#60;'>", "<!ENTITY lt 'x'>", "<!ENTITY amp '&#38;#38;'>", "<!ENTITY gt '>'>", "<!ENTITY quot 'q'>", "<!ENTITY apos \"'\">", "<!ENTITY e '&lt;'>", "<!ENTITY e '&#60;'>", "<!ENTITY e '&amp;lt;'>", "<!ENTITY % e 'pe'>", "%e;", "<!ENTITY LT 'x'>"]), cfgs: vec![cfg()], ext: None },
        Fam { name: "ent-charref", pre: b"<a x='&#", post: b";</a>", alpha: toks(&["x", "X", "0", "1", "9", "A", "f", "F", "3", ";", "'>&#", "10FFFF", "D800", "FFFE", "-", " "]), cfgs: vec![{ let mut c = cfg(); c.dflt = Dflt::No; c }], ext: None },
    ]
}

// ---------------------------------------------------------------- C15
/// All content-model items of exactly `n` nodes: (source, what has to be reported).
fn models(n: usize, names: &[&str]) -> Vec<Vec<(String, String)>> {
    let q = [("", 0), ("?", 1), ("*", 2), ("+", 3)]; let mut by: Vec<Vec<(String, String)>> = vec![vec![]];
    by.push(names.iter().flat_map(|nm| q.iter().map(move |(qs, qn)| (format!("{}{}", nm, qs), format!("(4,{} '{}' 0)", qn, nm)))).collect());
    fn lists(by: &Vec<Vec<(String, String)>>, total: usize) -> Vec<Vec<&(String, String)>> {
        let mut v = vec![]; if total == 0 { v.push(vec![]); return v; }
        for first in 1..=total { for f in &by[first] { for rest in lists(by, total - first) { let mut l = vec![f]; l.extend(rest); v.push(l); } } } v
    }
    for m in 2..=n {
        let mut out = vec![];
        for l in lists(&by, m - 1) { for (sep, ty) in [(",", 6), ("|", 5)] { if ty == 5 && l.len() < 2 { continue; } for (qs, qn) in q {
            out.push((format!("({}){}", l.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(sep), qs), format!("({},{} ~ {}{})", ty, qn, l.len(), l.iter().map(|x| x.1.as_str()).collect::<String>())));
        } } }
        by.push(out);
    }
    by
}
/// Declarations with what they have to report; "%" stands for white space in the source.
fn decls() -> Vec<(String, Vec<String>, &'static str)> { // source, lines, "what it declares" (a repeated entity is silent)
    let mut v: Vec<(String, Vec<String>, &'static str)> = vec![]; let q = |s: &str| if s == "~" { "~".to_string() } else { format!("'{}'", s) };
    for (s, m) in [("EMPTY", "(1,0 ~ 0)"), ("ANY", "(2,0 ~ 0)"), ("(#PCDATA)", "(3,0 ~ 0)"), ("(@#PCDATA@)*", "(3,2 ~ 0)"), ("(#PCDATA@|@x@|y)*", "(3,2 ~ 2(4,0 'x' 0)(4,0 'y' 0))"), ("(@x@,@(@y@|@z+@)?@)", "(6,0 ~ 2(4,0 'x' 0)(5,1 ~ 2(4,0 'y' 0)(4,3 'z' 0)))")] { v.push((format!("<!ELEMENT%el%{}@>", s), vec![format!("EL 'el' {}", m)], "")); }
    for (t, r) in [("CDATA", "CDATA"), ("ID", "ID"), ("IDREF", "IDREF"), ("IDREFS", "IDREFS"), ("ENTITY", "ENTITY"), ("ENTITIES", "ENTITIES"), ("NMTOKEN", "NMTOKEN"), ("NMTOKENS", "NMTOKENS"), ("(u)", "(u)"), ("(@u@|@1v@|-w)", "(u|1v|-w)"), ("NOTATION%(@n@|@m@)", "NOTATION(n|m)")] {
        for (d, dv, req) in [("#IMPLIED", "~", 0), ("#REQUIRED", "~", 1), ("'  u  '", if t == "CDATA" { "  u  " } else { "u" }, 0), ("#FIXED%\"u\"", "u", 1)] { v.push((format!("<!ATTLIST%el%at%{}%{}@>", t, d), vec![format!("ATT 'el' 'at' '{}' {} {}", r, q(dv), req)], "")); }
    }
    v.push(("<!ATTLIST%el%a1%CDATA%#IMPLIED%a2%ID%#REQUIRED%a1%NMTOKEN%'n'@>".into(), vec!["ATT 'el' 'a1' 'CDATA' ~ 0".into(), "ATT 'el' 'a2' 'ID' ~ 1".into(), "ATT 'el' 'a1' 'NMTOKEN' 'n' 0".into()], ""));
    v.push(("<!ATTLIST%el@>".into(), vec![], ""));
    let b = "'base'";
    for (s, l, k) in [("<!ENTITY%ge%'v&#65;\"&#10;&x;'@>", "ENT 'ge' 0 \"vA\"\\n&x;\" 'base' ~ ~ ~".to_string(), "ge"), ("<!ENTITY%ge%\"\"@>", "ENT 'ge' 0 \"\" 'base' ~ ~ ~".into(), "ge"), ("<!ENTITY%ge%SYSTEM%'sys'@>", format!("ENT 'ge' 0 ~ {} 'sys' ~ ~", b), "ge"), ("<!ENTITY%ge%PUBLIC%' p \r\n q '%\"sys\"@>", format!("ENT 'ge' 0 ~ {} 'sys' 'p q' ~", b), "ge"), ("<!ENTITY%ue%SYSTEM%'sys'%NDATA%n@>", format!("ENT 'ue' 0 ~ {} 'sys' ~ 'n'", b), "ue"), ("<!ENTITY%ue%PUBLIC%'p'%'sys'%NDATA%n@>", format!("ENT 'ue' 0 ~ {} 'sys' 'p' 'n'", b), "ue"),
        ("<!ENTITY%\u{1}%pe%'pv&#37;'@>", "ENT 'pe' 1 \"pv%\" 'base' ~ ~ ~".into(), "%pe"), ("<!ENTITY%\u{1}%pe%SYSTEM%'sys'@>", format!("ENT 'pe' 1 ~ {} 'sys' ~ ~", b), "%pe"), ("<!ENTITY%\u{1}%pe%PUBLIC%'a-b'%'sys'@>", format!("ENT 'pe' 1 ~ {} 'sys' 'a-b' ~", b), "%pe"), ("<!ENTITY%\u{1}%ge%'v'@>", "ENT 'ge' 1 \"v\" 'base' ~ ~ ~".into(), "%ge")] { v.push((s.into(), vec![l], k)); }
    for (s, l) in [("SYSTEM%'ns'", format!("NOT 'no' {} 'ns' ~", b)), ("PUBLIC%\" pu  b \"", format!("NOT 'no' {} ~ 'pu b'", b)), ("PUBLIC%'pub'%\"ns\"", format!("NOT 'no' {} 'ns' 'pub'", b))] { v.push((format!("<!NOTATION%no%{}@>", s), vec![l], "")); }
    v.push(("<!--c%d-->".into(), vec!["C 'c%d'".into()], "")); v.push(("<?p%d%?>".into(), vec!["PI 'p' 'd%'".into()], "")); v
}
fn ws(s: &str, w: &str, opt: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '%' => o.push_str(w), '@' => o.push_str(opt), '\u{1}' => o.push('%'), c => o.push(c) } } o }
pub fn c15(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C15", "model_checking"); let th = env.thorough();
    let ms: Vec<(String, String)> = models(if th { 6 } else { 5 }, if th { &["a"] } else { &["a", "b"] }).into_iter().skip(2).flatten().collect(); let n = ms.len() as u64; const B: u64 = 256;
    k.part("models", (n + B - 1) / B, &|cx, case| {
        for i in case * B..((case + 1) * B).min(n) { let (src, want) = &ms[i as usize];
            let doc = format!("<!DOCTYPE a [<!ELEMENT a {}>]><a/>", src); let mut cf = cfg(); cf.mask = h::ELDECL; cf.dflt = Dflt::No; let mut w = format!("EL 'a' {}\n", want).into_bytes(); end(&mut w, 0);
            if cx.begin(i, 1, doc.as_bytes()) { judge(cx, env, &cf, doc.as_bytes(), &w, "model", i % 8 == 0); if i % 9999 == 0 { cx.sample(|| doc.clone()); } }
        }
    });
    // pairs (triples) of declarations, in the internal subset, a parameter entity, the external subset
    let ds = decls(); let nd = ds.len();
    k.part("pairs", (nd * nd) as u64, &|cx, case| {
        let mut sub = 0; let pair = [case as usize / nd, case as usize % nd];
        for (w, opt) in [(" ", ""), ("\n", " "), (" \t\r\n", "\n"), (" ", "  ")] { for place in 0..3 {
            let mut body = String::new(); let mut lines: Vec<String> = vec![]; let mut seen: Vec<&str> = vec![];
            for &i in &pair { let (s, l, what) = &ds[i]; let fix = |x: &str| if x.starts_with("C ") || x.starts_with("PI ") { lit(&ws(x, w, opt).replace("\r\n", "\n")) } else { x.to_string() };
                body.push_str(&if s.starts_with("<?p") { ws(s, w, opt) } else { ws(s, w, opt) }); body.push_str(opt);
                if !what.is_empty() { if seen.contains(what) { continue; } seen.push(what); }
                for x in l { lines.push(if x.starts_with("PI ") { format!("PI 'p' 'd{}'", lit(&w.replace("\r\n", "\n"))) } else { fix(x) }); } }
            let mut cf = cfg(); cf.mask = h::ELDECL | h::ATTDECL | h::ENTDECL | h::NOTATION | h::COMMENT | h::PI | h::EXTREF; cf.dflt = Dflt::No; cf.base = Some("base"); cf.pe = 2;
            let (doc, mut v) = match place { 0 => (format!("<!DOCTYPE a [{}{}]><a/>", opt, body), vec![]), 1 => { cf.ext = vec![(b"d".to_vec(), body.clone().into_bytes())]; ("<!DOCTYPE a SYSTEM 'd'><a/>".to_string(), b"EXT ~ 'base' 'd' ~\n".to_vec()) }
                _ => { if body.contains('%') || body.contains('&') { continue; } let b = body.replace('"', "&#34;"); if body.contains('\r') { continue; } let mut v = vec![]; put_esc(&mut v, body.as_bytes()); let l = format!("ENT 'P' 1 \"{}\" 'base' ~ ~ ~\n", String::from_utf8(v).unwrap()); (format!("<!DOCTYPE a [<!ENTITY % P \"{}\">%P;]><a/>", b), l.into_bytes()) } };
            for l in &lines { if place == 1 { v.push(b'>'); v.extend_from_slice(l.replace("'base'", "~").as_bytes()); } else { v.extend_from_slice(l.as_bytes()); } v.push(b'\n'); }
            if place == 1 { v.extend_from_slice(b">XEND 1 0\n"); } end(&mut v, 0);
            sub += 1; if cx.begin(sub, place, body.as_bytes()) { judge(cx, env, &cf, doc.as_bytes(), &v, "decls", true); }
        } }
    });
    // document type and XML declarations
    k.part("headers", 1, &|cx, _| {
        let mut sub = 0;
        for (x, xl) in [("", ""), ("<?xml version='1.0'?>", "XD '1.0' ~ -1\n"), ("<?xml version=\"1.1\" encoding='utf-8'?>", "XD '1.1' 'utf-8' -1\n"), ("<?xml version = '1.0' standalone='yes' ?>", "XD '1.0' ~ 1\n"), ("<?xml\tversion='1.0'\n encoding=\"us-ascii\" standalone=\"no\"?>", "XD '1.0' 'us-ascii' 0\n"), ("<?xml version='a.b-c_9' encoding='iso-8859-1'?>\n", "XD 'a.b-c_9' 'iso-8859-1' -1\n")] {
            for (e, s, p) in [("", "~", "~"), (" SYSTEM 's&amp;%\"x'", "'s&amp;%\"x'", "~"), (" SYSTEM\n\"\"", "''", "~"), (" PUBLIC '' 's'", "'s'", "''"), (" PUBLIC \" -//a//b  c'\n(),.:=?;!*#@$_% \" \t's'", "'s'", "'-//a//b c' (),.:=?;!*#@$_%'"), ("\tPUBLIC  'p' \"it's\"", "'it's'", "'p'")] {
                for (i, sub_) in [("", 0), ("[]", 1), (" [ ] ", 1), (" [<!ENTITY e 'x'>]\n", 1), ("\n", 0)] { for name in ["a", "p:q", "_-.9", "é"] {
                    for misc in ["", " ", "<!--c-->\n", "<?t?>"] {
                        if name == "é" && (x.contains("ascii") || x.contains("iso")) { continue; }
                        let doc = format!("{}{}<!DOCTYPE {}{}{}>{}<a/>{}", x, misc, name, e, i, misc, misc);
                        let mut cf = cfg(); cf.mask = h::DOCTYPE | h::XMLDECL | h::ELEM; cf.dflt = Dflt::No;
                        let mut v = format!("{}DT[ '{}' {} {} {}\n]DT\nS 'a'# 0 -1\nE 'a'\n", xl, name, s, p, sub_).into_bytes(); end(&mut v, 0);
                        sub += 1; if cx.begin(sub, 1, doc.as_bytes()) { judge(cx, env, &cf, doc.as_bytes(), &v, "header", true); }
                    }
                } }
            }
        }
    });
    let fams: Vec<Fam> = families().into_iter().filter(|f| matches!(f.name, "tok-dtd" | "tok-elem" | "tok-attl" | "tok-ent" | "tok-doct" | "tok-decl" | "tok-extsub")).collect();
    fam_vs(&mut k, env, &fams, if th { 40_000_000 } else { 1_300_000 }, 1);
    let ds: Vec<D> = docs().into_iter().filter(|d| d.doc.windows(9).any(|w| w == b"<!DOCTYPE")).map(|mut d| { d.cfg.mask = if d.name.len() % 3 == 0 { h::ALL } else { d.cfg.mask }; d }).collect();
    edit_vs(&mut k, env, "edits", &ds, if th { 1 } else { 2 });
    k.finish("every content model up to the stated number of nodes, every pair of declarations in three places with four layouts, all headers, judged by a model of what has to be reported, and the declaration families by the reference; one evaluation is one document; states = distinct reports the model predicts")
}
