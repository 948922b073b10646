//! Driver: configures a parser, feeds it a document in a given way, and records everything it reports.
use crate::ffi::*;
use crate::lib;
use crate::sys::*;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::ptr::null_mut;

pub mod h {
    pub const ELEM: u32 = 1; pub const CDATA: u32 = 2; pub const PI: u32 = 4; pub const COMMENT: u32 = 8; pub const CDSECT: u32 = 16;
    pub const DOCTYPE: u32 = 32; pub const UNPARSED: u32 = 64; pub const NOTATION: u32 = 128; pub const NSDECL: u32 = 256; pub const NOTSA: u32 = 512;
    pub const EXTREF: u32 = 1024; pub const SKIPPED: u32 = 2048; pub const ELDECL: u32 = 4096; pub const ATTDECL: u32 = 8192; pub const ENTDECL: u32 = 16384;
    pub const XMLDECL: u32 = 32768; pub const UNK: u32 = 65536; pub const ALL: u32 = 131071;
    // half a pair of handlers: the other half stays unset
    pub const NO_END: u32 = 1 << 20; pub const NO_START: u32 = 1 << 21; pub const NO_SCD: u32 = 1 << 22; pub const NO_ECD: u32 = 1 << 23; pub const NO_SDT: u32 = 1 << 24; pub const NO_EDT: u32 = 1 << 25; pub const NO_SNS: u32 = 1 << 26; pub const NO_ENS: u32 = 1 << 27;
    pub const CORE: u32 = ALL & !UNPARSED; // the unparsed-entity handler hides the entity-declaration one
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dflt { No, Default, Expand }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Via { Parse, Buf }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act { Suspend, Abort }
pub type UnkFn = fn(&mut Run, &[u8], &mut Encoding) -> c_int;

#[derive(Clone)]
pub struct Cfg {
    pub ns: Option<u8>, pub triplet: bool, pub enc: Option<&'static str>, pub pe: c_int, pub foreign: bool, pub mask: u32, pub dflt: Dflt,
    pub parser_arg: bool, pub base: Option<&'static str>,
    /// external entities: (system id, bytes); "" is the foreign DTD subset
    pub ext: Vec<(Vec<u8>, Vec<u8>)>,
    pub ext_chunk: usize,
    pub ext_enc: Option<&'static str>,
    pub sa_ret: c_int,
    pub unk: Option<UnkFn>,
    pub pos: bool,
    pub salt: u64,
    pub default_current: bool, pub dc_all: bool,
    /// ask everything a parser can be asked, at every place between two calls
    pub query: bool,
}
pub fn cfg() -> Cfg {
    Cfg { ns: None, triplet: false, enc: None, pe: 0, foreign: false, mask: h::CORE, dflt: Dflt::Expand, parser_arg: false, base: None, ext: vec![], ext_chunk: 0, ext_enc: None, sa_ret: 1, unk: None, pos: false, salt: 0, default_current: false, dc_all: false, query: false }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Txt { None, Cdata, Default }

pub struct Run {
    pub api: &'static Api,
    pub cfg: *const Cfg,
    pub stack: Vec<P>,
    pub log: Vec<u8>,
    pub last: Txt,
    pub raw: bool,            // do not coalesce
    pub nev: u64,             // handler invocations so far
    pub plan: Vec<(u64, Act)>,
    pub stops: u64,           // StopParser calls made
    pub resumes: u64,
    pub unk_data: u64,        // live unknown-encoding data
    pub unk_rel: u64,
    pub unk_conv: u64,
    pub ext_fail: u64,        // child parsers that failed
    pub ext_depth: u32,
    pub hook: Option<fn(&mut Run, &str)>, // called at the end of each handler
    pub hookdata: [u64; 8],
    pub g: Option<&'static Guarded>,
    pub in_err: u64,          // input chunks modified by the library
    pub oomf: bool,           // child creation failed
    pub rng: u64,
    /// an external entity is not parsed when its handler stopped the parser
    pub strict: bool,
    /// content models are kept (with what they said) instead of freed by their handler
    pub keep_models: bool, pub models: Vec<(Vec<u8>, *mut Content)>,
    /// what is being parsed: the document, then the external entities open inside it
    pub bodies: Vec<&'static [u8]>, pub notes: Vec<String>,
    /// parsers of external entities outlive their handler (1: after the entity, 2: after its first half, 3: unused)
    pub keep_kids: u8, pub kids: Vec<P>,
    /// every event says what its handler was given as argument
    pub argtags: bool, pub arg: usize,
    /// keep_kids 4: general entities are left for the caller (context, system identifier, base)
    pub waiting: Vec<(std::ffi::CString, Vec<u8>, Option<std::ffi::CString>)>,
}
impl Run {
    pub fn new(api: &'static Api, cfg: &Cfg) -> Box<Run> {
        Box::new(Run { api, cfg, stack: vec![], log: Vec::with_capacity(512), last: Txt::None, raw: false, nev: 0, plan: vec![], stops: 0, resumes: 0, unk_data: 0, unk_rel: 0, unk_conv: 0, ext_fail: 0, ext_depth: 0, hook: None, hookdata: [0; 8], g: None, in_err: 0, oomf: false, rng: 0, strict: false, keep_models: false, models: vec![], bodies: vec![], notes: vec![], keep_kids: 0, kids: vec![], argtags: false, arg: 0, waiting: vec![] })
    }
    #[inline] pub fn cfg(&self) -> &'static Cfg { unsafe { &*self.cfg } }
    #[inline] pub fn p(&self) -> P { *self.stack.last().unwrap_or(&null_mut()) }
    fn put_pos(&mut self) {
        if self.cfg().pos {
            let p = self.p(); let a = self.api;
            let (l, c, b) = (lib!((a.GetCurrentLineNumber)(p)), lib!((a.GetCurrentColumnNumber)(p)), lib!((a.GetCurrentByteIndex)(p)));
            push_num(&mut self.log, l as i64); self.log.push(b':'); push_num(&mut self.log, c as i64); self.log.push(b':'); push_num(&mut self.log, b as i64);
            self.log.push(b' ');
        }
    }
    pub fn ev(&mut self, tag: &str) { self.last = Txt::None; if self.ext_depth > 0 { for _ in 0..self.ext_depth { self.log.push(b'>'); } } self.put_pos(); if self.argtags { let (a, p) = (self.arg, self.p() as usize); self.tag_of(a, p); } self.log.extend_from_slice(tag.as_bytes()); }
    /// What an argument is: the run, the parser, or one of the small numbers given in its place.
    pub fn tag_of(&mut self, a: usize, p: usize) { let me = self as *mut Run as usize; self.log.push(b'@'); if a == me { self.log.push(b'u') } else if a == p { self.log.push(b'p') } else if a < 65536 { push_num(&mut self.log, a as i64) } else { self.log.push(b'?') } self.log.push(b' '); }
    pub fn nl(&mut self) { self.log.push(b'\n'); }
    pub fn bytes(&mut self, b: &[u8]) { put_esc(&mut self.log, b); }
    pub fn s(&mut self, p: CS) { self.log.push(b' '); if p.is_null() { self.log.extend_from_slice(b"~"); } else { let b = unsafe { CStr::from_ptr(p) }.to_bytes(); self.log.push(b'\''); put_esc(&mut self.log, b); self.log.push(b'\''); } }
    pub fn n(&mut self, n: i64) { self.log.push(b' '); push_num(&mut self.log, n); }
    fn text(&mut self, k: Txt, b: &[u8]) {
        if self.last == k && !self.raw { if self.log.last() == Some(&b'\n') { self.log.pop(); } }
        else { self.ev(if k == Txt::Cdata { "T " } else { "D " }); self.last = k; }
        put_esc(&mut self.log, b); self.nl();
    }
    /// After every handler invocation: counts it and applies the plan of stops.
    fn done(&mut self, what: &str) {
        let i = self.nev; self.nev += 1;
        if !self.plan.is_empty() { for k in 0..self.plan.len() { if self.plan[k].0 == i || self.plan[k].0 == u64::MAX {
            let a = self.plan[k].1; let p = self.p(); let api = self.api;
            self.stops += 1;
            lib!((api.StopParser)(p, if a == Act::Suspend { 1 } else { 0 }));
        } } }
        if let Some(f) = self.hook { f(self, what); }
    }
}
pub fn push_num(v: &mut Vec<u8>, n: i64) { let mut b = [0u8; 24]; let mut i = 24; let mut u = n.unsigned_abs(); loop { i -= 1; b[i] = b'0' + (u % 10) as u8; u /= 10; if u == 0 { break; } } if n < 0 { i -= 1; b[i] = b'-'; } v.extend_from_slice(&b[i..]); }
pub fn put_esc(v: &mut Vec<u8>, b: &[u8]) { for &c in b { if c == b'\n' { v.extend_from_slice(b"\\n") } else if c == b'\\' { v.extend_from_slice(b"\\\\") } else { v.push(c) } } }

// parsers whose handlers get the parser itself as argument
static mut REG: Vec<(usize, *mut Run)> = Vec::new();
#[allow(static_mut_refs)]
fn run_of<'a>(ud: *mut c_void) -> &'a mut Run { unsafe { for (p, r) in REG.iter() { if *p == ud as usize { let r = &mut **r; r.arg = ud as usize; return r; } } let r = &mut *(ud as *mut Run); r.arg = ud as usize; r } }
#[allow(static_mut_refs)]
pub fn reg(p: P, r: *mut Run) { let _g = In::user(); unsafe { REG.push((p as usize, r)); } }
#[allow(static_mut_refs)]
pub fn unreg(p: P) { unsafe { REG.retain(|x| x.0 != p as usize); } }

unsafe extern "C" fn on_start(u: *mut c_void, name: CS, atts: *mut CS) {
    let _g = In::user(); let r = run_of(u);
    r.ev("S"); r.s(name);
    let mut i = 0; while !(*atts.add(i)).is_null() { r.s(*atts.add(i)); r.log.push(b'='); let v = *atts.add(i + 1); if v.is_null() { r.log.push(b'~') } else { let b = CStr::from_ptr(v).to_bytes(); r.bytes(b); } i += 2; }
    let p = r.p(); let a = r.api;
    let (sp, id) = (lib!((a.GetSpecifiedAttributeCount)(p)), lib!((a.GetIdAttributeIndex)(p)));
    r.log.push(b'#'); r.n(sp as i64); r.n(id as i64); r.nl(); dca(r); r.done("S");
}
unsafe extern "C" fn on_end(u: *mut c_void, name: CS) { let _g = In::user(); let r = run_of(u); r.ev("E"); r.s(name); r.nl(); dca(r); r.done("E"); }
unsafe extern "C" fn on_cdata(u: *mut c_void, s: CS, n: c_int) { let _g = In::user(); let r = run_of(u); r.text(Txt::Cdata, std::slice::from_raw_parts(s as *const u8, n as usize)); dc(r); r.done("T"); }
unsafe extern "C" fn on_pi(u: *mut c_void, a: CS, b: CS) { let _g = In::user(); let r = run_of(u); r.ev("PI"); r.s(a); r.s(b); r.nl(); dc(r); r.done("PI"); }
unsafe extern "C" fn on_comment(u: *mut c_void, a: CS) { let _g = In::user(); let r = run_of(u); r.ev("C"); r.s(a); r.nl(); dc(r); r.done("C"); }
unsafe extern "C" fn on_scd(u: *mut c_void) { let _g = In::user(); let r = run_of(u); r.ev("CD["); r.nl(); dca(r); r.done("CD["); }
unsafe extern "C" fn on_ecd(u: *mut c_void) { let _g = In::user(); let r = run_of(u); r.ev("]CD"); r.nl(); dca(r); r.done("]CD"); }
unsafe extern "C" fn on_default(u: *mut c_void, s: CS, n: c_int) { let _g = In::user(); let r = run_of(u); if n < 0 { r.notes.push("negative length".into()); return; } r.text(Txt::Default, std::slice::from_raw_parts(s as *const u8, n as usize)); r.done("D"); }
unsafe extern "C" fn on_doctype(u: *mut c_void, n: CS, s: CS, p: CS, i: c_int) { let _g = In::user(); let r = run_of(u); r.ev("DT["); r.s(n); r.s(s); r.s(p); r.n(i as i64); r.nl(); r.done("DT["); }
unsafe extern "C" fn on_edoctype(u: *mut c_void) { let _g = In::user(); let r = run_of(u); r.ev("]DT"); r.nl(); r.done("]DT"); }
unsafe extern "C" fn on_unparsed(u: *mut c_void, a: CS, b: CS, c: CS, d: CS, e: CS) { let _g = In::user(); let r = run_of(u); r.ev("UNP"); for x in [a, b, c, d, e] { r.s(x) } r.nl(); r.done("UNP"); }
unsafe extern "C" fn on_notation(u: *mut c_void, a: CS, b: CS, c: CS, d: CS) { let _g = In::user(); let r = run_of(u); r.ev("NOT"); for x in [a, b, c, d] { r.s(x) } r.nl(); r.done("NOT"); }
unsafe extern "C" fn on_sns(u: *mut c_void, a: CS, b: CS) { let _g = In::user(); let r = run_of(u); r.ev("NS+"); r.s(a); r.s(b); r.nl(); r.done("NS+"); }
unsafe extern "C" fn on_ens(u: *mut c_void, a: CS) { let _g = In::user(); let r = run_of(u); r.ev("NS-"); r.s(a); r.nl(); r.done("NS-"); }
unsafe extern "C" fn on_notsa(u: *mut c_void) -> c_int { let _g = In::user(); let r = run_of(u); r.ev("NOTSA"); r.nl(); r.done("NOTSA"); r.cfg().sa_ret }
unsafe extern "C" fn on_skip(u: *mut c_void, a: CS, i: c_int) { let _g = In::user(); let r = run_of(u); r.ev("SKIP"); r.s(a); r.n(i as i64); r.nl(); r.done("SKIP"); }
unsafe extern "C" fn on_attl(u: *mut c_void, a: CS, b: CS, c: CS, d: CS, i: c_int) { let _g = In::user(); let r = run_of(u); r.ev("ATT"); for x in [a, b, c, d] { r.s(x) } r.n(i as i64); r.nl(); r.done("ATT"); }
unsafe extern "C" fn on_ent(u: *mut c_void, a: CS, pe: c_int, v: CS, vl: c_int, b: CS, s: CS, p: CS, n: CS) {
    let _g = In::user(); let r = run_of(u); r.ev("ENT"); r.s(a); r.n(pe as i64); r.log.push(b' ');
    if v.is_null() { r.log.push(b'~') } else { r.log.push(b'"'); r.bytes(std::slice::from_raw_parts(v as *const u8, vl as usize)); r.log.push(b'"'); }
    for x in [b, s, p, n] { r.s(x) } r.nl(); r.done("ENT");
}
unsafe extern "C" fn on_xmld(u: *mut c_void, v: CS, e: CS, s: c_int) { let _g = In::user(); let r = run_of(u); r.ev("XD"); r.s(v); r.s(e); r.n(s as i64); r.nl(); r.done("XD"); }
pub unsafe fn model(r: &mut Run, m: *const Content, depth: u32) {
    let c = &*m;
    r.log.push(b'('); push_num(&mut r.log, c.ty as i64); r.log.push(b','); push_num(&mut r.log, c.quant as i64); r.s(c.name);
    r.n(c.n as i64);
    if depth < 2000 { for i in 0..c.n { model(r, c.children.add(i as usize), depth + 1); } }
    r.log.push(b')');
}
unsafe extern "C" fn on_el(u: *mut c_void, n: CS, m: *mut Content) {
    let _g = In::user(); let r = run_of(u); r.ev("EL"); r.s(n); r.log.push(b' '); model(r, m, 0); r.nl();
    if r.keep_models { let at = r.log.len(); model(r, m, 0); let t = r.log.split_off(at); r.models.push((t, m)); r.done("EL"); return; }
    let (p, a) = (r.p(), r.api); lib!((a.FreeContentModel)(p, m)); r.done("EL");
}
unsafe extern "C" fn on_unk(u: *mut c_void, name: CS, e: *mut Encoding) -> c_int {
    let _g = In::user(); let r = run_of(u); r.ev("UNK"); r.s(name); r.nl();
    let nm = CStr::from_ptr(name).to_bytes().to_vec();
    let x = match r.cfg().unk { Some(f) => f(r, &nm, &mut *e), None => 0 };
    r.done("UNK"); x
}
unsafe extern "C" fn on_ext(arg: P, ctx: CS, base: CS, sys: CS, pubid: CS) -> c_int {
    let _g = In::user(); let r = run_of(arg);
    r.ev("EXT"); ctx_sorted(r, ctx); r.s(base); r.s(sys); r.s(pubid); r.nl();
    let stops = r.stops; r.done("EXT");
    if r.strict && r.stops > stops { return 1; }
    if r.keep_kids == 4 { if !ctx.is_null() { let b = if sys.is_null() { vec![] } else { CStr::from_ptr(sys).to_bytes().to_vec() }; let bs = if base.is_null() { None } else { Some(CStr::from_ptr(base).to_owned()) }; r.waiting.push((CStr::from_ptr(ctx).to_owned(), b, bs)); return 1; } }
    let sid: &[u8] = if sys.is_null() { b"" } else { CStr::from_ptr(sys).to_bytes() };
    let cfg = r.cfg();
    let body = match cfg.ext.iter().find(|x| x.0 == sid) { Some(x) => &x.1, None => return if sid == b"fail" { 0 } else { 1 } };
    if r.ext_depth > 12 { return 0; }
    let (p, a) = (r.p(), r.api);
    let e = cfg.ext_enc.map(|e| std::ffi::CString::new(e).unwrap());
    let c = lib!((a.ExternalEntityParserCreate)(p, ctx, e.as_ref().map_or(std::ptr::null(), |e| e.as_ptr())));
    if c.is_null() { r.oomf = true; return 0; }
    if cfg.parser_arg || r.argtags { reg(c, r); }
    r.stack.push(c); r.bodies.push(unsafe_static(body)); r.ext_depth += 1; r.last = Txt::None;
    let k = if cfg.ext_chunk == 0 { body.len().max(1) } else { cfg.ext_chunk };
    let cuts: Vec<usize> = (1..).map(|i| i * k).take_while(|&x| x < body.len()).collect();
    let st = match r.keep_kids { 0 | 1 => feed(r, c, body, &cuts, Via::Parse, cfg.ext_chunk != 0), 2 => chunk(r, c, &body[..body.len() / 2], false, Via::Parse), _ => 1 };
    r.last = Txt::None;
    let ec = lib!((a.GetErrorCode)(c));
    r.ev("XEND"); r.n(st as i64); r.n(if st == 1 { 0 } else { ec as i64 }); r.nl();
    r.ext_depth -= 1; r.stack.pop(); r.bodies.pop(); r.last = Txt::None;
    if r.keep_kids != 0 { r.kids.push(c); } else {
    if cfg.parser_arg || r.argtags { unreg(c); }
    lib!((a.ParserFree)(c)); }
    if st != 1 { r.ext_fail += 1; return 0; }
    1
}
fn ctx_sorted(r: &mut Run, ctx: CS) {
    if ctx.is_null() { r.log.extend_from_slice(b" ~"); return; }
    let b = unsafe { CStr::from_ptr(ctx) }.to_bytes();
    let mut v: Vec<&[u8]> = b.split(|&c| c == 0x0c).collect(); v.sort();
    r.log.push(b' '); r.log.push(b'['); for x in v { r.log.extend_from_slice(x); r.log.push(b'|'); } r.log.push(b']');
}
/// Inside a handler: pass the event on to the default handler.
fn dc(r: &mut Run) { if r.cfg().default_current { let (p, a) = (r.p(), r.api); lib!((a.DefaultCurrent)(p)); } }

fn dca(r: &mut Run) { if r.cfg().dc_all { dc(r) } }

macro_rules! hh { ($m:expr, $bit:expr, $f:expr) => { if $m & $bit != 0 { Some($f) } else { None } }; }
/// Installs handlers and options on a parser.
pub fn setup(r: &mut Run, p: P, first: bool) {
    let (a, c) = (r.api, r.cfg()); let m = c.mask; let ud = r as *mut Run as *mut c_void;
    lib!({
        if first {
            if c.parser_arg { (a.UseParserAsHandlerArg)(p); reg(p, r); (a.SetUserData)(p, ud); }
        }
        (a.SetUserData)(p, ud);
        if m & h::ELEM != 0 { (a.SetElementHandler)(p, Some(on_start as HStart), Some(on_end as HStr)); }
        if m & h::CDATA != 0 { (a.SetCharacterDataHandler)(p, Some(on_cdata as HLen)); }
        if m & h::PI != 0 { (a.SetProcessingInstructionHandler)(p, Some(on_pi as HPi)); }
        if m & h::COMMENT != 0 { (a.SetCommentHandler)(p, Some(on_comment as HStr)); }
        if m & h::CDSECT != 0 { (a.SetCdataSectionHandler)(p, Some(on_scd as HNone), Some(on_ecd as HNone)); }
        if m & h::DOCTYPE != 0 { (a.SetDoctypeDeclHandler)(p, Some(on_doctype as HDoctype), Some(on_edoctype as HNone)); }
        if m & h::UNPARSED != 0 { (a.SetUnparsedEntityDeclHandler)(p, Some(on_unparsed as HUnparsed)); }
        if m & h::NOTATION != 0 { (a.SetNotationDeclHandler)(p, Some(on_notation as HNotation)); }
        if m & h::NSDECL != 0 { (a.SetNamespaceDeclHandler)(p, Some(on_sns as HPi), Some(on_ens as HStr)); }
        if m & h::NOTSA != 0 { (a.SetNotStandaloneHandler)(p, Some(on_notsa as HNotSa)); }
        if m & h::EXTREF != 0 { (a.SetExternalEntityRefHandler)(p, Some(on_ext as HExt)); if !c.parser_arg { (a.SetExternalEntityRefHandlerArg)(p, ud); } }
        if m & h::SKIPPED != 0 { (a.SetSkippedEntityHandler)(p, Some(on_skip as HSkip)); }
        if m & h::ELDECL != 0 { (a.SetElementDeclHandler)(p, Some(on_el as HEl)); }
        if m & h::ATTDECL != 0 { (a.SetAttlistDeclHandler)(p, Some(on_attl as HAtt)); }
        if m & h::ENTDECL != 0 { (a.SetEntityDeclHandler)(p, Some(on_ent as HEnt)); }
        if m & h::XMLDECL != 0 { (a.SetXmlDeclHandler)(p, Some(on_xmld as HXd)); }
        if m & h::UNK != 0 { (a.SetUnknownEncodingHandler)(p, hh!(m, h::UNK, on_unk as HUnk), ud); }
        if m >> 20 != 0 {
            if m & h::NO_END != 0 { (a.SetEndElementHandler)(p, None); } if m & h::NO_START != 0 { (a.SetStartElementHandler)(p, None); }
            if m & h::NO_ECD != 0 { (a.SetEndCdataSectionHandler)(p, None); } if m & h::NO_SCD != 0 { (a.SetStartCdataSectionHandler)(p, None); }
            if m & h::NO_EDT != 0 { (a.SetEndDoctypeDeclHandler)(p, None); } if m & h::NO_SDT != 0 { (a.SetStartDoctypeDeclHandler)(p, None); }
            if m & h::NO_ENS != 0 { (a.SetEndNamespaceDeclHandler)(p, None); } if m & h::NO_SNS != 0 { (a.SetStartNamespaceDeclHandler)(p, None); }
        }
        match c.dflt { Dflt::No => {}, Dflt::Default => (a.SetDefaultHandler)(p, Some(on_default as HLen)), Dflt::Expand => (a.SetDefaultHandlerExpand)(p, Some(on_default as HLen)) }
        if c.pe != 0 { (a.SetParamEntityParsing)(p, c.pe); }
        if c.foreign { (a.UseForeignDTD)(p, 1); }
        if c.triplet { (a.SetReturnNSTriplet)(p, 1); }
        if c.salt != 0 { (a.SetHashSalt)(p, c.salt); }
    });
    if let Some(b) = c.base { let s = std::ffi::CString::new(b).unwrap(); lib!((a.SetBase)(p, s.as_ptr())); }
}
pub const NBIT: u32 = 17; pub const NHALF: u32 = 8;
/// Sets or removes the handlers of one bit (0..17) or one half of a pair (17..25).
pub fn set_bit(a: &'static Api, p: P, b: u32, on: bool, ud: *mut c_void) {
    macro_rules! o { ($f:expr, $t:ty) => { if on { Some($f as $t) } else { None } }; }
    lib!(match b {
        0 => (a.SetElementHandler)(p, o!(on_start, HStart), o!(on_end, HStr)), 1 => (a.SetCharacterDataHandler)(p, o!(on_cdata, HLen)), 2 => (a.SetProcessingInstructionHandler)(p, o!(on_pi, HPi)),
        3 => (a.SetCommentHandler)(p, o!(on_comment, HStr)), 4 => (a.SetCdataSectionHandler)(p, o!(on_scd, HNone), o!(on_ecd, HNone)), 5 => (a.SetDoctypeDeclHandler)(p, o!(on_doctype, HDoctype), o!(on_edoctype, HNone)),
        6 => (a.SetUnparsedEntityDeclHandler)(p, o!(on_unparsed, HUnparsed)), 7 => (a.SetNotationDeclHandler)(p, o!(on_notation, HNotation)), 8 => (a.SetNamespaceDeclHandler)(p, o!(on_sns, HPi), o!(on_ens, HStr)),
        9 => (a.SetNotStandaloneHandler)(p, o!(on_notsa, HNotSa)), 10 => (a.SetExternalEntityRefHandler)(p, o!(on_ext, HExt)), 11 => (a.SetSkippedEntityHandler)(p, o!(on_skip, HSkip)),
        12 => (a.SetElementDeclHandler)(p, o!(on_el, HEl)), 13 => (a.SetAttlistDeclHandler)(p, o!(on_attl, HAtt)), 14 => (a.SetEntityDeclHandler)(p, o!(on_ent, HEnt)), 15 => (a.SetXmlDeclHandler)(p, o!(on_xmld, HXd)),
        16 => (a.SetUnknownEncodingHandler)(p, o!(on_unk, HUnk), ud),
        17 => (a.SetStartElementHandler)(p, o!(on_start, HStart)), 18 => (a.SetEndElementHandler)(p, o!(on_end, HStr)), 19 => (a.SetStartCdataSectionHandler)(p, o!(on_scd, HNone)), 20 => (a.SetEndCdataSectionHandler)(p, o!(on_ecd, HNone)),
        21 => (a.SetStartDoctypeDeclHandler)(p, o!(on_doctype, HDoctype)), 22 => (a.SetEndDoctypeDeclHandler)(p, o!(on_edoctype, HNone)), 23 => (a.SetStartNamespaceDeclHandler)(p, o!(on_sns, HPi)), 24 => (a.SetEndNamespaceDeclHandler)(p, o!(on_ens, HStr)),
        _ => unreachable!(),
    });
}
pub fn set_default(a: &'static Api, p: P, d: u8) { lib!(match d { 0 => (a.SetDefaultHandler)(p, None), 1 => (a.SetDefaultHandlerExpand)(p, None), 2 => (a.SetDefaultHandler)(p, Some(on_default as HLen)), _ => (a.SetDefaultHandlerExpand)(p, Some(on_default as HLen)) }) }
pub static mut REPARSE: Option<SetReparse> = None;
/// Everything a parser can be asked, as a line of the log.
pub fn ask(r: &mut Run, p: P) {
    let a = r.api; let mut ps = PStatus::default(); let (mut o, mut z) = (-7, -7);
    lib!((a.GetParsingStatus)(p, &mut ps)); let cx = lib!((a.GetInputContext)(p, &mut o, &mut z));
    let v = lib!(((a.GetCurrentByteIndex)(p), (a.GetCurrentByteCount)(p), (a.GetCurrentColumnNumber)(p), (a.GetCurrentLineNumber)(p), (a.GetErrorCode)(p), (a.GetSpecifiedAttributeCount)(p), (a.GetIdAttributeIndex)(p)));
    r.last = Txt::None; r.log.push(b'?'); for x in [ps.parsing as i64, v.0 as i64, v.1 as i64, v.2 as i64, v.3 as i64, v.4 as i64, v.5 as i64, v.6 as i64] { r.n(x); }
    if !cx.is_null() { r.n(o as i64); r.n(z as i64); let b = unsafe { std::slice::from_raw_parts(cx as *const u8, z.max(0) as usize) }; let h = crate::pool::hash(b); r.n((h >> 1) as i64); }
    let b = lib!((a.GetBase)(p)); r.s(b); r.nl();
}
pub fn create(r: &mut Run) -> P {
    let (a, c) = (r.api, r.cfg());
    let e = c.enc.map(|e| std::ffi::CString::new(e).unwrap()); let ep = e.as_ref().map_or(std::ptr::null(), |e| e.as_ptr());
    let p = match c.ns { None => lib!((a.ParserCreate)(ep)), Some(s) => lib!((a.ParserCreateNS)(ep, s as c_char)) };
    if p.is_null() { return p; }
    if !a.is_rexpat { unsafe { if let Some(f) = REPARSE { f(p, 0); } } }
    r.stack.clear(); r.stack.push(p);
    if c.query { ask(r, p); }
    setup(r, p, true);
    p
}
pub fn free(r: &mut Run, p: P) { let a = r.api; if r.cfg().parser_arg { unreg(p); } lib!((a.ParserFree)(p)); }

static mut GUARD: Option<Guarded> = None;
#[allow(static_mut_refs)]
pub fn guard() -> &'static Guarded { unsafe { if GUARD.is_none() { GUARD = Some(Guarded::new(1 << 20)); } GUARD.as_ref().unwrap() } }

pub fn unsafe_static(b: &[u8]) -> &'static [u8] { unsafe { std::slice::from_raw_parts(b.as_ptr(), b.len()) } }
/// One call that passes a chunk; the chunk sits at the end of a guarded region and is overwritten afterwards.
pub fn chunk(r: &mut Run, p: P, d: &[u8], fin: bool, via: Via) -> c_int {
    let st = chunk1(r, p, d, fin, via);
    if r.cfg().query { ask(r, p); }
    st
}
fn chunk1(r: &mut Run, p: P, d: &[u8], fin: bool, via: Via) -> c_int {
    let a = r.api;
    match via {
        Via::Parse if r.ext_depth == 0 && d.len() <= r.g.unwrap_or_else(guard).cap() => {
            let q = r.g.unwrap_or_else(guard).put(d);
            let st = lib!((a.Parse)(p, q as *const c_char, d.len() as c_int, fin as c_int));
            // a handler may itself have parsed through the same region (external entities do not)
            let now = unsafe { std::slice::from_raw_parts_mut(q, d.len()) };
            if now != d { r.in_err += 1; }
            for b in now.iter_mut() { *b = 0xEE; }
            st
        }
        Via::Parse => { let v = d.to_vec(); let st = lib!((a.Parse)(p, v.as_ptr() as *const c_char, v.len() as c_int, fin as c_int)); if v != d { r.in_err += 1; } st }
        Via::Buf => {
            let b = lib!((a.GetBuffer)(p, d.len() as c_int));
            if b.is_null() { return -1; }
            if r.cfg().query { ask(r, p); }
            unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), b as *mut u8, d.len()); }
            lib!((a.ParseBuffer)(p, d.len() as c_int, fin as c_int))
        }
    }
}
/// Resume while suspended.
pub fn settle(r: &mut Run, p: P, mut st: c_int) -> c_int { let a = r.api; while st == 2 { r.resumes += 1; st = lib!((a.ResumeParser)(p)); } st }
/// Feeds `data` cut at the positions `cuts`; `fin_empty`: the final call carries no data.
pub fn feed(r: &mut Run, p: P, data: &[u8], cuts: &[usize], via: Via, fin_empty: bool) -> c_int {
    let mut at = 0;
    for &c in cuts { let st = chunk(r, p, &data[at..c], false, via); let st = settle(r, p, st); if st != 1 { return st; } at = c; }
    let st = chunk(r, p, &data[at..], !fin_empty, via); let st = settle(r, p, st); if st != 1 || !fin_empty { return st; }
    let st = chunk(r, p, b"", true, via); settle(r, p, st)
}
#[derive(Clone, Copy)]
pub struct Feed<'a> { pub cuts: &'a [usize], pub via: Via, pub fin_empty: bool }
pub const WHOLE: Feed<'static> = Feed { cuts: &[], via: Via::Parse, fin_empty: false };

pub fn finish(r: &mut Run, p: P, st: c_int) -> (c_int, c_int) {
    let a = r.api; r.last = Txt::None;
    let ec = if st == 1 { 0 } else { lib!((a.GetErrorCode)(p)) };
    r.log.extend_from_slice(b"END"); r.n(st as i64); r.n(ec as i64);
    if r.cfg().pos || st != 1 { let (l, c, b) = (lib!((a.GetCurrentLineNumber)(p)), lib!((a.GetCurrentColumnNumber)(p)), lib!((a.GetCurrentByteIndex)(p))); r.n(l as i64); r.n(c as i64); r.n(b as i64); }
    r.nl(); (st, ec)
}
/// A complete run on a fresh parser.
pub fn parse(api: &'static Api, c: &Cfg, doc: &[u8], f: Feed, plan: &[(u64, Act)]) -> Box<Run> {
    let mut r = Run::new(api, c); r.plan.extend_from_slice(plan);
    let p = create(&mut r); assert!(!p.is_null());
    let st = feed(&mut r, p, doc, f.cuts, f.via, f.fin_empty);
    finish(&mut r, p, st);
    free(&mut r, p);
    r
}
pub fn st_err(log: &[u8]) -> (i32, i32) { // of the END line
    let t = String::from_utf8_lossy(log); let l = t.lines().last().unwrap_or(""); let v: Vec<i32> = l.split(' ').skip(1).filter_map(|x| x.parse().ok()).collect(); (v[0], v[1])
}
#[allow(dead_code)] pub type CU = c_uint;
