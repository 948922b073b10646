//! C16: which parts outside the document are read, refused or skipped (external subset, parameter entities,
//! standalone, foreign DTD), by a model of the document type declaration.
use crate::chk::*; use crate::drv::*; use crate::gen::*; use crate::p_model::*; use crate::p_ref::*; use crate::pool::*; use crate::util::*; use crate::*;

#[derive(Clone, Copy, PartialEq)]
enum Dt { EntInt, EntExt, EntNdata, EntRef, RefP, RefQ, PInt, PExt, PUnread, QIndirect, Att, Att2 }
use Dt::*;
const ALPHA: [Dt; 12] = [EntInt, EntExt, RefP, PInt, PExt, PUnread, Att, QIndirect, RefQ, EntNdata, Att2, EntRef];
fn dsrc(d: Dt) -> &'static str { match d {
    EntInt => "<!ENTITY e 'E'>", EntExt => "<!ENTITY e SYSTEM 'g'>", EntNdata => "<!ENTITY e SYSTEM 'n' NDATA t>", EntRef => "<!ENTITY f 'x&e;y'>", RefP => "%p;", RefQ => "%q;",
    PInt => "<!ENTITY % p \"<!ENTITY e 'P'>\">", PExt => "<!ENTITY % p SYSTEM 'r'>", PUnread => "<!ENTITY % p SYSTEM 'u'>", QIndirect => "<!ENTITY % q '&#37;p;'>", Att => "<!ATTLIST a d CDATA '&e;'>", Att2 => "<!ATTLIST a d CDATA 'D'>" } }
/// Readable external parts.
const RBODY: [&[Dt]; 5] = [&[EntInt], &[PInt, RefP, Att], &[RefP, EntInt], &[RefQ, Att2, EntExt], &[]];
#[derive(Clone, Copy, PartialEq)]
enum Ct { E, U, F, AttE, AttU, AttF, Plain }
const CONT: [Ct; 7] = [Ct::E, Ct::U, Ct::AttE, Ct::Plain, Ct::F, Ct::AttU, Ct::AttF];
fn csrc(c: Ct) -> &'static str { match c { Ct::E => "&e;", Ct::U => "&u;", Ct::F => "&f;", Ct::AttE => "<a x='&e;'/>", Ct::AttU => "<a x='&u;'/>", Ct::AttF => "<a x='&f;'/>", Ct::Plain => "<a/>" } }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Sys { None, NoDoctype, Read, Unread, Fail }
#[derive(Clone, Copy)]
struct K { sa: u8, sys: Sys, pe: i32, foreign: u8, nsh: u8, ext: bool, skip: bool, rb: usize }
#[derive(Clone)]
enum Val { Text(&'static str, Vec<Tok>), Ext(&'static str), Nd }
#[derive(Clone, Copy)] enum Tok { S(&'static str), E }
#[derive(Clone)]
struct Ent { v: Val, internal: bool, open: bool }
/// Where declarations are read: the document's own subset or another part (a parser of its own), inside how
/// many internal parameter entities.
#[derive(Clone, Copy)] struct At { doc: bool, inner: u32, depth: usize, pe: i32 }
struct M { k: K, sa: bool, hasref: bool, keep: bool, e: Option<Ent>, f: Option<Ent>, p: Option<Ent>, q: Option<Ent>, d: Option<String>, log: String, text: Option<(usize, String)>, steps: u64, read: bool }
type R = Result<(), i32>;
impl M {
    fn ev(&mut self, depth: usize, s: &str) { self.flush(); self.log.push_str(&">".repeat(depth)); self.log.push_str(s); self.log.push('\n'); self.steps += 1; }
    fn flush(&mut self) { if let Some((d, t)) = self.text.take() { self.log.push_str(&">".repeat(d)); self.log.push_str(&format!("T {}\n", t)); } }
    fn t(&mut self, depth: usize, s: &str) { if s.is_empty() { return; } match &mut self.text { Some((d, t)) if *d == depth => t.push_str(s), _ => { self.flush(); self.text = Some((depth, s.into())); } } }
    fn notsa(&mut self, depth: usize) -> R { if self.sa || self.k.nsh == 0 { return Ok(()); } self.ev(depth, "NOTSA"); if self.k.nsh == 2 { Err(22) } else { Ok(()) } }
    fn dtd(&mut self, ds: &[Dt], at: At) -> R { for &d in ds { self.one(d, at)?; } Ok(()) }
    fn one(&mut self, d: Dt, at: At) -> R {
        let internal = at.doc && at.inner == 0;
        match d {
            EntInt | EntExt | EntNdata | EntRef => { if !self.keep { return Ok(()); } let (nm, v, ev) = match d { EntInt => ("e", Val::Text("E", vec![Tok::S("E")]), "\"E\" ~ ~ ~ ~"), EntRef => ("f", Val::Text("x&e;y", vec![Tok::S("x"), Tok::E, Tok::S("y")]), "\"x&e;y\" ~ ~ ~ ~"), EntExt => ("e", Val::Ext("g"), "~ ~ 'g' ~ ~"), _ => ("e", Val::Nd, "~ ~ 'n' ~ 't'") };
                let slot = if nm == "e" { &mut self.e } else { &mut self.f };
                if slot.is_none() { *slot = Some(Ent { v, internal, open: false }); self.ev(at.depth, &format!("ENT '{}' 0 {}", nm, ev)); } }
            PInt | PExt | PUnread | QIndirect => { if !self.keep { return Ok(()); } let (q, v, ev) = match d { PInt => (false, Val::Text("<!ENTITY e 'P'>", vec![]), "\"<!ENTITY e 'P'>\" ~ ~ ~ ~"), PExt => (false, Val::Ext("r"), "~ ~ 'r' ~ ~"), PUnread => (false, Val::Ext("u"), "~ ~ 'u' ~ ~"), _ => (true, Val::Text("%p;", vec![]), "\"%p;\" ~ ~ ~ ~") };
                let slot = if q { &mut self.q } else { &mut self.p };
                if slot.is_none() { *slot = Some(Ent { v, internal, open: false }); self.ev(at.depth, &format!("ENT '{}' 1 {}", if q { "q" } else { "p" }, ev)); } }
            Att | Att2 => { if !self.keep { return Ok(()); } let mut s = String::new();
                if d == Att2 { s.push('D') } else { let check = at.doc && if self.sa { at.inner == 0 } else { !self.hasref }; self.value(check, &[Tok::E], &mut s)?; }
                if self.d.is_none() { self.d = Some(s.clone()); }
                self.ev(at.depth, &format!("ATT 'a' 'd' 'CDATA' '{}' 0", s)); }
            RefP | RefQ => {
                self.hasref = true;
                if at.pe == 0 { self.keep = self.sa; return self.notsa(at.depth); }
                let q = d == RefQ; let en = if q { self.q.clone() } else { self.p.clone() };
                if at.doc && self.sa && at.inner == 0 { match &en { None => return Err(11), Some(e) if !e.internal => return Err(24), _ => {} } }
                let en = match en { Some(e) => e, None => { self.keep = self.sa; if self.k.skip { self.ev(at.depth, if q { "SKIP 'q' 1" } else { "SKIP 'p' 1" }); } return self.notsa_if_ref(at); } };
                if en.open { return Err(12); }
                let open = |m: &mut M, v: bool| { let s = if q { &mut m.q } else { &mut m.p }; if let Some(e) = s { e.open = v; } };
                match en.v {
                    Val::Text(t, _) => { open(self, true); let inner = At { inner: at.inner + 1, ..at }; let r = if t == "%p;" { self.one(RefP, inner) } else { self.pdecl(inner) }; r?; open(self, false); }
                    Val::Ext(s) => { if !self.k.ext { self.keep = self.sa; return Ok(()); } open(self, true); let r = self.external(&format!("~ ~ '{}' ~", s), s, at); open(self, false); if !r? { self.keep = self.sa; } else { self.notsa(at.depth)?; } }
                    Val::Nd => unreachable!(),
                }
            }
        }
        Ok(())
    }
    fn notsa_if_ref(&mut self, _: At) -> R { Ok(()) }
    fn pdecl(&mut self, at: At) -> R { if self.keep && self.e.is_none() { self.e = Some(Ent { v: Val::Text("P", vec![Tok::S("P")]), internal: at.doc && at.inner == 0, open: false }); self.ev(at.depth, "ENT 'e' 0 \"P\" ~ ~ ~ ~"); } Ok(()) }
    /// An external part of the declaration; was it read?
    fn external(&mut self, what: &str, sid: &str, at: At) -> Result<bool, i32> {
        self.ev(at.depth, &format!("EXT {}", what)); self.read = false;
        let body: &[Dt] = match sid { "r" => RBODY[self.k.rb], "" if self.k.foreign == 1 => &[EntInt, Att2], "fail" => return Err(21), _ => return Ok(false) };
        self.read = true; // (an unread part referred to in this one takes it back: open finding)
        let d = at.depth + 1; let r = self.dtd(body, At { doc: false, inner: 0, depth: d, pe: at.pe });
        match r { Ok(()) => { self.ev(d, "XEND 1 0"); Ok(self.read) } Err(e) => { self.ev(d, &format!("XEND 0 {}", e)); Err(21) } }
    }
    /// The text of a value in which only the entity e is referred to.
    fn value(&mut self, check: bool, ts: &[Tok], out: &mut String) -> R {
        for t in ts { match t { Tok::S(s) => out.push_str(s), Tok::E => { let en = self.e.clone(); self.refv(check, 'e', en, out)?; } } }
        Ok(())
    }
    fn refv(&mut self, check: bool, _n: char, en: Option<Ent>, out: &mut String) -> R {
        if check { match &en { None => return Err(11), Some(e) if !e.internal => return Err(24), _ => {} } }
        match en { None => Ok(()), Some(e) => match e.v { Val::Nd => Err(15), Val::Ext(_) => Err(16), Val::Text(_, ts) => self.value(check, &ts, out) } }
    }
    fn content(&mut self, c: Ct, depth: usize) -> R {
        let check = !self.hasref || self.sa;
        match c {
            Ct::Plain | Ct::AttE | Ct::AttU | Ct::AttF => {
                let mut l = String::from("S 'a'"); let mut n = 0;
                if c != Ct::Plain { let mut s = String::new(); let en = match c { Ct::AttE => self.e.clone(), Ct::AttF => self.f.clone(), _ => None }; self.refv(check, 'x', en, &mut s)?; l.push_str(&format!(" 'x'={}", s)); n = 2; }
                if let Some(d) = &self.d { l.push_str(&format!(" 'd'={}", d)); }
                self.ev(depth, &format!("{}# {} -1", l, n)); self.ev(depth, "E 'a'");
            }
            Ct::E => { let en = self.e.clone(); self.refc("e", en, check, depth)? }
            Ct::F => { let en = self.f.clone(); self.refc("f", en, check, depth)? }
            Ct::U => self.refc("u", None, check, depth)?,
        }
        Ok(())
    }
    fn refc(&mut self, n: &str, en: Option<Ent>, check: bool, depth: usize) -> R {
        if check { match &en { None => return Err(11), Some(e) if !e.internal => return Err(24), _ => {} } }
        match en {
            None => { if self.k.skip { self.ev(depth, &format!("SKIP '{}' 0", n)); } }
            Some(e) => match e.v {
                Val::Nd => return Err(15),
                Val::Text(_, ts) => for t in ts { match t { Tok::S(s) => self.t(depth, s), Tok::E => { let en = self.e.clone(); self.refc_in(n, "e", en, check, depth)? } } },
                Val::Ext(s) => self.extc(n, s, depth, &[])?,
            }
        }
        Ok(())
    }
    fn refc_in(&mut self, outer: &str, n: &str, en: Option<Ent>, check: bool, depth: usize) -> R {
        if let Some(Ent { v: Val::Ext(s), .. }) = &en { if check { if let Some(e) = &en { if !e.internal { return Err(24); } } } let s = *s; return self.extc(n, s, depth, &[outer]); }
        self.refc(n, en, check, depth)
    }
    fn extc(&mut self, n: &str, s: &str, depth: usize, outer: &[&str]) -> R {
        if !self.k.ext { return Ok(()); }
        let mut c: Vec<&str> = outer.to_vec(); c.push(n); c.sort();
        self.ev(depth, &format!("EXT [{}|] ~ '{}' ~", c.join("|"), s));
        // the entity's text: G&u;
        self.t(depth + 1, "G"); let check = !self.hasref || self.sa;
        match self.refc("u", None, check, depth + 1) { Ok(()) => { self.ev(depth + 1, "XEND 1 0"); Ok(()) } Err(e) => { self.ev(depth + 1, &format!("XEND 0 {}", e)); Err(21) } }
    }
    fn doc(&mut self, ds: &[Dt], cs: &[Ct]) -> R {
        let mut pe = self.k.pe; let mut foreign = self.k.foreign > 0;
        if self.k.sa == 1 { self.sa = true; if pe == 1 { pe = 0; } }
        let at = At { doc: true, inner: 0, depth: 0, pe };
        let sysid = match self.k.sys { Sys::None | Sys::NoDoctype => None, Sys::Read => Some("r"), Sys::Unread => Some("u"), Sys::Fail => Some("fail") };
        let nodoc = self.k.sys == Sys::NoDoctype;
        if let Some(_) = sysid { foreign = false; self.hasref = true; if pe == 0 { self.notsa(0)?; } }
        if !nodoc { let l = format!("DT[ 'r' {} ~ 1", sysid.map_or("~".into(), |s| format!("'{}'", s))); self.ev(0, &l); self.dtd(ds, at)?; }
        if sysid.is_some() || foreign {
            let had = self.hasref; self.hasref = true;
            if pe != 0 && self.k.ext { let what = format!("~ ~ {} ~", sysid.map_or("~".into(), |s| format!("'{}'", s))); if self.external(&what, sysid.unwrap_or(""), at)? { self.notsa(0)?; } else if sysid.is_none() { self.hasref = had; } }
        }
        if !nodoc { self.ev(0, "]DT"); }
        self.ev(0, "S 'r'# 0 -1");
        for &c in cs { self.content(c, 0)?; }
        self.ev(0, "E 'r'"); Ok(())
    }
}
fn run(cx: &mut Ctx, env: &Env, k: K, ds: &[Dt], cs: &[Ct], sub: &mut u64, refr: bool) {
    let mut doc = String::from(["", "<?xml version='1.0' standalone='yes'?>", "<?xml version='1.0' standalone='no'?>"][k.sa as usize]);
    match k.sys { Sys::NoDoctype => {} Sys::None => doc.push_str("<!DOCTYPE r ["), Sys::Read => doc.push_str("<!DOCTYPE r SYSTEM 'r' ["), Sys::Unread => doc.push_str("<!DOCTYPE r SYSTEM 'u' ["), Sys::Fail => doc.push_str("<!DOCTYPE r SYSTEM 'fail' [") }
    for &d in ds { doc.push_str(dsrc(d)); } if k.sys != Sys::NoDoctype { doc.push_str("]>"); }
    doc.push_str("<r>"); for &c in cs { doc.push_str(csrc(c)); } doc.push_str("</r>");
    *sub += 1; if !cx.begin(*sub, k.sys as u64, doc.as_bytes()) { return; }
    let mut m = M { k, sa: false, hasref: false, keep: true, e: None, f: None, p: None, q: None, d: None, log: String::new(), text: None, steps: 0, read: false };
    let r = m.doc(ds, cs); m.flush(); let mut w = m.log.into_bytes(); end(&mut w, r.err().unwrap_or(0));
    let mut cf = cfg(); cf.mask = h::ELEM | h::CDATA | h::ENTDECL | h::ATTDECL | h::DOCTYPE; cf.dflt = Dflt::No; cf.pe = k.pe; cf.foreign = k.foreign > 0;
    if k.ext { cf.mask |= h::EXTREF; } if k.skip { cf.mask |= h::SKIPPED; } if k.nsh > 0 { cf.mask |= h::NOTSA; cf.sa_ret = (k.nsh == 1) as i32; }
    let mut src = |n: &str, b: String| cf.ext.push((n.as_bytes().to_vec(), b.into_bytes()));
    src("g", "G&u;".into()); src("r", RBODY[k.rb].iter().map(|&d| dsrc(d)).collect()); if k.foreign == 1 { src("", "<!ENTITY e 'E'><!ATTLIST a d CDATA 'D'>".into()); }
    judge(cx, env, &cf, doc.as_bytes(), &w, &format!("pe {} foreign {} notsa {} ext {} skip {}", k.pe, k.foreign, k.nsh, k.ext, k.skip), refr);
    if refr && *sub % 4 == 0 { cf.dflt = Dflt::Default; cf.pos = true; cf.ext_chunk = 1; let cuts: Vec<usize> = (1..doc.len()).collect(); vs(cx, env, &cf, doc.as_bytes(), Feed { cuts: &cuts, via: Via::Buf, fin_empty: true }, &[], "bytewise"); }
    if *sub % 9973 == 0 { cx.sample(|| doc.clone()); }
}
/// All settings that can make a difference for these declarations.
fn settings(ds: &[Dt], full: bool) -> Vec<K> {
    let mut v = vec![]; let reads = ds.contains(&PExt);
    for sa in 0..3 { for sys in [Sys::None, Sys::NoDoctype, Sys::Read, Sys::Unread, Sys::Fail] { if sys == Sys::NoDoctype && !ds.is_empty() { continue; }
        for pe in 0..3 { for foreign in 0..3u8 { if foreign > 0 && sys != Sys::None && sys != Sys::NoDoctype && (sa > 0 || !full) { continue; }
            for nsh in 0..3u8 { for ext in [true, false] { for skip in [true, false] { for rb in 0..RBODY.len() {
                if rb > 0 && sys != Sys::Read && !reads { continue; } if !skip && (!ext || nsh > 0) { continue; } if !ext && nsh == 2 { continue; }
                if !full && (rb > 2 || sa == 2 || !skip) { continue; }
                v.push(K { sa, sys, pe, foreign, nsh, ext, skip, rb });
            } } } }
        } }
    } }
    v
}
pub fn matrix(k: &mut Chk, env: &Env, name: &str, dlen: u32, clen: u32, nd: usize, full: bool) {
    let n = nseq(nd as u64, dlen); let nc = nseq(CONT.len() as u64, clen);
    k.part(name, n, &|cx, case| {
        let ds: Vec<Dt> = seq_at(case, nd as u64).iter().map(|&i| ALPHA[i]).collect(); let mut sub = 0;
        for kk in settings(&ds, full) { for c in 0..nc { let cs: Vec<Ct> = seq_at(c, CONT.len() as u64).iter().map(|&i| CONT[i]).collect(); if cs.contains(&Ct::F) as u8 + cs.contains(&Ct::AttF) as u8 > 0 && !ds.contains(&EntRef) { continue; }
            let rf = (sub + case) % 8 == 0; run(cx, env, kk, &ds, &cs, &mut sub, rf); } }
    });
}
pub fn c16(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C16", "model_checking"); let th = env.thorough();
    matrix(&mut k, env, "settings", 2, 2, 12, true);
    matrix(&mut k, env, "declarations", if th { 4 } else { 3 }, 1, 12, th);
    let fams: Vec<Fam> = families().into_iter().filter(|f| matches!(f.name, "tok-pe" | "tok-extsub")).collect();
    fam_vs(&mut k, env, &fams, if th { 60_000_000 } else { 1_500_000 }, 1);
    let ds: Vec<D> = docs().into_iter().filter(|d| !d.cfg.ext.is_empty() || d.cfg.foreign || d.cfg.pe > 0).collect();
    edit_vs(&mut k, env, "edits", &ds, if th { 1 } else { 2 });
    // a reference that is not read, at every place in every declaration: what follows is reported as after the reference alone
    let decls: &[&str] = &["<!ATTLIST a x ( k | b | c ) 'k' >", "<!ATTLIST a x NOTATION ( n1 | n2 ) #IMPLIED >", "<!ATTLIST a x CDATA 'v' y ID #REQUIRED z NMTOKENS #FIXED 'w' t (q|r) 's' >", "<!ELEMENT a ( b , ( c | d ) * , e ) + >", "<!ELEMENT a ( #PCDATA | b | c ) * >", "<!ELEMENT a EMPTY >", "<!ENTITY e 'v&#65;&g;' >", "<!ENTITY % e 'v' >", "<!ENTITY e SYSTEM 's' >", "<!ENTITY e PUBLIC 'p' 's' NDATA n >", "<!NOTATION n PUBLIC 'p' 's' >", "<!NOTATION n SYSTEM 's' >", "<!NOTATION n PUBLIC 'p' >"];
    let tails: &[&str] = &["<?t d?>", "<!--c-->", "<!ENTITY z 'Z'><?t d?>", "<!ATTLIST a q CDATA 'Q'><?t d?>", "<!ATTLIST a q (l|m) #IMPLIED><!--c--><?t d?>", "<!NOTATION o SYSTEM 'o'><?t d?>", "<!ELEMENT w (u|v)><?t d?>", "<!ENTITY z SYSTEM 'Z'><!ENTITY % y 'Y'>%y;<?t d?>", "<![INCLUDE[<?t d?><![IGNORE[<?x?>]]>]]><?t d?>"];
    k.part("unread-inside", decls.len() as u64, &|cx, case| {
        let d = decls[case as usize]; let mut sub = 0;
        let mut at = vec![]; let mut q = 0u8; for (i, c) in d.bytes().enumerate() { if q != 0 { if c == q { q = 0; } } else if c == b'\'' { q = c; } else if c == b' ' || matches!(c, b'(' | b'|' | b')') && i > 0 { at.push(i + (c == b' ') as usize); } }
        for (un, uh) in [("%u;", ""), ("%u;", "<!ENTITY % u SYSTEM 'none'>"), ("%u;", "<!ENTITY % u '%v;'>"), ("%u;", "<!ENTITY % u ' '><!ENTITY % w SYSTEM 'none'>%w;")] { for tail in tails { for sa in [false, true] { for mask in [h::CORE, h::CORE & !h::ATTDECL, h::CORE & !h::ENTDECL & !h::ELDECL & !h::NOTATION] {
            let mut cf = cfg(); cf.pe = 2; cf.dflt = Dflt::No; cf.mask = mask;
            let doc: &[u8] = if sa { b"<?xml version='1.0' standalone='yes'?><!DOCTYPE a SYSTEM 'r'><a>t</a>" } else { b"<!DOCTYPE a SYSTEM 'r'><a>t</a>" };
            let go = |cf: &mut Cfg, body: String| { cf.ext = vec![(b"r".to_vec(), body.into_bytes())]; parse(env.rx, cf, doc, WHOLE, &[]) };
            // standalone or not, inside the declaration or before it
            let alone = go(&mut cf, format!("{}{}<?mark here?>{}", uh, un, tail)); let mut z = cf.clone();
            for &i in &at { sub += 1; if !cx.begin(sub, 1, d.as_bytes()) { continue; }
                let body = format!("{}{} {} {}<?mark here?>{}", uh, &d[..i], un, &d[i..], tail);
                let a = go(&mut z, body.clone()); cx.add(0, 1); cx.outcome(&a.log);
                let after = |l: &[u8]| -> Option<Vec<u8>> { let m = b"PI 'mark' 'here'\n"; l.windows(m.len()).position(|w| w == m).map(|k| lines(&l[k..]).into_iter().take_while(|x| !x.starts_with(b"XEND") && !x.windows(5).any(|w| w == b" XEND") && !x.starts_with(b"]DT") ).flat_map(|x| [x, b"\n"].concat()).collect()) };
                match (after(&a.log), after(&alone.log)) {
                    (Some(x), Some(y)) => if x != y { cx.violation(&format!("a reference that is not read inside a declaration changes what follows: {}", body), &diff(&x, &y)); }
                    (None, Some(_)) => { let e = st_err(&a.log); if e.0 == 1 { cx.violation(&format!("what follows a declaration with a reference that is not read is not reported: {}", body), &s(&a.log)); } }
                    _ => {}
                }
            }
        } } } }
    });
    k.part("open-findings", 1, &|cx, _| {
        if !cx.begin(1, 1, b"") { return; } cx.add(0, 1);
        let mut cf = cfg(); cf.mask = h::ELEM | h::EXTREF | h::NOTSA; cf.dflt = Dflt::No; cf.pe = 2; cf.ext = vec![(b"r".to_vec(), b"<!ENTITY % p SYSTEM 'u'>%p;".to_vec())];
        let a = parse(env.rx, &cf, b"<!DOCTYPE r SYSTEM 'r'><r/>", WHOLE, &[]);
        if !s(&a.log).contains("NOTSA") { cx.violation("an external subset whose last parameter entity reference is to an entity that was not read counts as not read (no call of the not-standalone handler)", &s(&a.log)); }
    });
    k.finish("every sequence of declarations, content and settings of the bounded grammar, judged by a model of what is read, refused and skipped, and every eighth by the reference; one evaluation is one document; states = distinct reports the model predicts")
}
