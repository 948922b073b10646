//! C17: parsers do not affect one another, whatever the interleaving of their work.
use crate::chk::*; use crate::drv::*; use crate::ffi::*; use crate::gen::*; use crate::lib; use crate::p_ref::show; use crate::pool::*; use crate::sys::*; use crate::util::*; use crate::*;
use std::os::raw::c_void;
use std::ptr::{null, null_mut};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

// ---- a controlled scheduler of two threads: exactly one runs, and it hands over only at its own points
static TURN: AtomicU32 = AtomicU32::new(0);
static mut JOB: Option<&'static mut dyn FnMut()> = None;
static mut DONE: bool = true;
static mut CUR: usize = 0;
static mut AT: [u64; 2] = [0, 0];
static mut SW: [[u64; 2]; 2] = [[u64::MAX; 2]; 2];
static mut EACH: [u64; 2] = [0, 0];
static mut ON: bool = false;
static mut SWITCHES: u64 = 0;
fn wait(me: u32) {
    for _ in 0..64 { if TURN.load(SeqCst) == me { return; } std::hint::spin_loop(); }
    while TURN.load(SeqCst) != me { unsafe { syscall(202, TURN.as_ptr(), 0i64, (1 - me) as i64, null::<c_void>(), null::<c_void>(), 0i64); } }
}
fn give(to: u32) { TURN.store(to, SeqCst); unsafe { syscall(202, TURN.as_ptr(), 1i64, 1i64, null::<c_void>(), null::<c_void>(), 0i64); } }
/// Hands over to the other thread and returns when it is this one's turn again.
fn pass() { unsafe { let sv = vp_active; vp_active = 0; let me = CUR; SWITCHES += 1; CUR = 1 - me; give(1 - me as u32); wait(me as u32); CUR = me; vp_active = sv; } }
fn other() -> ! { loop { wait(1); unsafe { #[allow(static_mut_refs)] let j = JOB.take().unwrap(); j(); DONE = true; vp_active = 0; CUR = 0; give(0); } } }
/// A point where the running thread may be preempted.
fn point() { unsafe { if !ON { return; } let me = CUR; let n = AT[me]; AT[me] += 1; if (SW[me].contains(&n) || EACH[me] != 0 && n % EACH[me] == 0) && !DONE { pass(); } } }
extern "C" fn at_alloc() { point(); }
fn at_event(_: &mut Run, _: &str) { point(); }
fn start_other() { static ONCE: std::sync::Once = std::sync::Once::new(); ONCE.call_once(|| { std::thread::Builder::new().stack_size(8 << 20).spawn(|| other()).unwrap(); }); }
/// Runs `a` here and `b` on the other thread; each hands over at the given points of its own (or at every n-th).
fn both(a: &mut dyn FnMut(), b: &mut dyn FnMut(), sw: [[u64; 2]; 2], each: [u64; 2]) -> [u64; 2] {
    start_other();
    unsafe {
        JOB = Some(std::mem::transmute::<&mut dyn FnMut(), &'static mut dyn FnMut()>(b)); DONE = false; CUR = 0; AT = [0, 0]; SW = sw; EACH = each; ON = true; vp_hook = Some(at_alloc);
        a();
        while !DONE { pass(); }
        ON = false; vp_hook = None; AT
    }
}
/// Runs `f` on the other thread.
fn there(f: &mut dyn FnMut()) { start_other(); unsafe { JOB = Some(std::mem::transmute::<&mut dyn FnMut(), &'static mut dyn FnMut()>(f)); DONE = false; CUR = 0; while !DONE { pass(); } } }

fn region(i: usize) -> &'static Guarded { static mut G: Vec<&'static Guarded> = Vec::new(); #[allow(static_mut_refs)] unsafe { while G.len() < 4 { G.push(Box::leak(Box::new(Guarded::new(1 << 16)))); } G[i] } }
const DEAD: P = 1 as P;
/// A parser's life in steps: creation, each piece (each resumption), the end.
struct Life { r: Box<Run>, p: P, at: usize, next: usize, cuts: Vec<usize>, doc: Vec<u8>, st: i32, over: bool, via: Via }
impl Life {
    fn new(api: &'static Api, cf: &'static Cfg, doc: &[u8], cuts: Vec<usize>, reg: usize, via: Via, plan: &[(u64, Act)]) -> Life { let mut r = Run::new(api, cf); r.g = Some(region(reg)); r.plan.extend_from_slice(plan); Life { r, p: null_mut(), at: 0, next: 0, cuts, doc: doc.to_vec(), st: 1, over: false, via } }
    /// One call of the interface; false when the parser has been freed.
    fn step(&mut self) -> bool {
        if self.p == DEAD { return false; }
        if self.p.is_null() { self.p = create(&mut self.r); if let Some(p) = self.r.cfg().base.map(|_| self.p) { let _ = p; } return true; }
        if self.over { free(&mut self.r, self.p); self.p = DEAD; return true; }
        let a = self.r.api;
        if self.st == 2 { self.st = lib!((a.ResumeParser)(self.p)); }
        else { let (b, e) = (self.at, if self.next < self.cuts.len() { self.cuts[self.next] } else { self.doc.len() }); let last = self.next >= self.cuts.len(); self.next += 1; self.at = e; let d = self.doc[b..e].to_vec(); self.st = chunk(&mut self.r, self.p, &d, last, self.via); }
        if self.st == 0 || self.st == 1 && self.next > self.cuts.len() { finish(&mut self.r, self.p, self.st); self.over = true; }
        true
    }
    fn run(&mut self) { while self.step() {} }
}
fn leak(c: &Cfg) -> &'static Cfg { Box::leak(Box::new(c.clone())) }
/// Documents that use every table and stack of a parser, small enough for every pair.
fn chosen(all: &[D], max: usize, want: usize) -> Vec<D> {
    let mut v: Vec<D> = all.iter().filter(|d| d.doc.len() <= max && d.cfg.enc != Some("unknown") && d.cfg.unk.is_none()).cloned().collect();
    v.sort_by_key(|d| crate::pool::hash(d.name.as_bytes())); if v.len() > want { v.truncate(want); } v
}
/// Rich documents of our own: each fills the tables another could disturb.
fn rich() -> Vec<D> {
    let mk = |n: &str, doc: &str, f: &dyn Fn(&mut Cfg)| { let mut c = cfg(); c.pos = true; f(&mut c); D { name: n.into(), doc: doc.as_bytes().to_vec(), cfg: c } };
    vec![
        mk("ns", "<a xmlns='u' xmlns:p='v' p:x='1' y='2'><p:b xmlns:p='w' p:c='3'>t</p:b><p:d/></a>", &|c| c.ns = Some(b'!')),
        mk("dtd", "<!DOCTYPE a [<!ENTITY e 'E&f;'><!ENTITY f '<i>F</i>'><!ATTLIST a x CDATA 'd' i ID #IMPLIED t NMTOKENS ' m  n '><!ELEMENT a (b|c)*><!NOTATION n SYSTEM 's'>]><a i=' k '>&e;&#233;</a>", &|_| {}),
        mk("ent", "<!DOCTYPE a [<!ENTITY e SYSTEM 'e'><!ENTITY f 'F'><!ATTLIST i z CDATA '&f;'>]><a>&e;-&e;<i/></a>", &|c| { c.ext = vec![(b"e".to_vec(), b"<i>&f;</i>\r\n<i q='1'/>".to_vec())]; }),
        mk("pe", "<!DOCTYPE a SYSTEM 'd'><a>&g;</a>", &|c| { c.pe = 2; c.ext = vec![(b"d".to_vec(), b"<!ENTITY % p '<!ENTITY g \"G\">'>%p;<!ATTLIST a k (l|m) 'm'>".to_vec())]; c.dflt = Dflt::No; }),
        mk("utf16", "", &|_| {}),
        mk("latin", "<?xml version='1.0' encoding='iso-8859-1'?><a b='", &|_| {}),
        mk("bad", "<a><b c='1' c='2'/></a>", &|_| {}),
        mk("tri", "<p:a xmlns:p='u' xmlns:q='u' p:b='1'><q:c q:d='2' e=''/></p:a>", &|c| { c.ns = Some(b'|'); c.triplet = true; }),
        mk("cd", "<a><![CDATA[x]]y\r\n]]>&lt;&#x20AC;<?p q?><!--c--></a>\n<!-- d -->", &|c| c.parser_arg = true),
        mk("foreign", "<?xml version='1.0'?><a>&h;</a>", &|c| { c.foreign = true; c.pe = 2; c.base = Some("B"); c.ext = vec![(vec![], b"<!ENTITY h 'H'>".to_vec())]; }),
    ].into_iter().map(|mut d| { if d.name == "utf16" { d.doc = b"\xff\xfe".to_vec(); d.doc.extend(reencode("<a é='ü'>日本\u{1d11e}</a>", "UTF-16LE").unwrap()); } if d.name == "latin" { d.doc.extend(b"\xe9'>\xff</a>"); } d }).collect()
}
/// Documents whose external entities share something with what follows them.
fn kin() -> Vec<D> {
    let mk = |n: &str, ns: Option<u8>, doc: &str, e: &str| { let mut c = cfg(); c.ns = ns; c.ext = vec![(b"e".to_vec(), e.as_bytes().to_vec()), (b"f".to_vec(), b"<f y='2'>&g;</f>".to_vec())]; D { name: n.into(), doc: doc.as_bytes().to_vec(), cfg: c } };
    let d = "<!ENTITY e SYSTEM 'e'><!ENTITY f SYSTEM 'f'><!ENTITY g 'G<i/>'><!ENTITY h '[&g;&f;]'>";
    vec![
        mk("kin-bindings", Some(b'!'), &format!("<!DOCTYPE a [{}<!ATTLIST a xmlns:p CDATA 'u'>]><a xmlns='d'>&e;<p:b xmlns:p='w' p:x='1'/><c xmlns=''>&e;</c><p:d/></a>", d), "<p:x xmlns:p='v'><p:y p:x='0'/></p:x><z/><q:q xmlns:q='t'/>"),
        mk("kin-triplet", Some(b'|'), &format!("<!DOCTYPE a [{}]><p:a xmlns:p='u'>&e;<p:b xmlns:p='wwwwwwwwww'>&e;</p:b></p:a>", d), "<p:b p:c='1' xmlns:r='s' r:c='2'/><a/>"),
        mk("kin-defaults", None, &format!("<!DOCTYPE a [{}<!ATTLIST f x CDATA 'X' y CDATA 'Y' i ID #IMPLIED><!ATTLIST b t NMTOKENS ' q  r '>]><a>&e;<f/><b/>&e;<f i=' 1 '/></a>", d), "<f/><b t=' z '/><c u='1'/><f x='' i='2'/>"),
        mk("kin-entities", None, &format!("<!DOCTYPE a [{}]><a>&h;<b>&g;</b>&e;&g;<c d='&g2;'/></a>", d.replace("<!ENTITY g ", "<!ENTITY g2 'atext'><!ENTITY g ")), "&g;<q r='&g2;'>&h;</q>"),
        mk("kin-inside", None, &format!("<!DOCTYPE a [{}]><a><b>&h;</b>&h;</a>", d.replace("&f;", "<k>&e;</k>&e;")), "1&g;2&f;3"),
        mk("kin-recursive", None, &format!("<!DOCTYPE a [{}]><a>&e;<b/>&e;</a>", d), "x&e;"),
        mk("kin-bad", None, &format!("<!DOCTYPE a [{}]><a>&e;<b/>&e;t</a>", d), "<x>&g;</y>"),
        mk("kin-unclosed", None, &format!("<!DOCTYPE a [{}]><a>&e;<b/>&f;t</a>", d), "<x><y z='1'>&g;"),
        mk("kin-text", None, &format!("<!DOCTYPE a [{}]><a>&e;\r\n&e;&undef;</a>", d.replace("<!ENTITY e", "%x;<!ENTITY e").replace("%x;", "<!ENTITY % x SYSTEM 'x'>%x;")), "<?xml version='1.0' encoding='utf-8'?>\r\nA\r&undef;]"),
        mk("kin-many", Some(b'!'), &format!("<!DOCTYPE a [{}]><a b0='' b1='' b2='' b3='' b4='' b5='' b6='' b7='' b8=''>&e;<a b0='x' n0:n='' xmlns:n0='0' xmlns:n1='1' n1:n=''/></a>", d), "<a b8='' b9='' m0:n='' xmlns:m0='0' xmlns:m1='1' m1:n='' xmlns:m2='2' m2:n=''/>"),
    ]
}
/// The parser of an external entity, with its own record.
struct Kid { r: Box<Run>, c: P, body: &'static [u8], at: usize, over: bool }
impl Kid {
    fn new(api: &'static Api, cf: &'static Cfg, p: P, w: &(std::ffi::CString, Vec<u8>, Option<std::ffi::CString>), reg: usize) -> Kid {
        let mut r = Run::new(api, cf); r.g = Some(region(reg)); let body = cf.ext.iter().find(|x| x.0 == w.1).map_or(&b""[..], |x| &x.1[..]);
        let c = lib!((api.ExternalEntityParserCreate)(p, w.0.as_ptr(), null())); assert!(!c.is_null());
        let ud = &mut *r as *mut Run as *mut c_void; lib!({ (api.SetUserData)(c, ud); (api.SetExternalEntityRefHandlerArg)(c, ud); });
        let b = lib!((api.GetBase)(c)); r.s(b); r.nl(); r.stack.push(c);
        Kid { r, c, body, at: 0, over: false }
    }
    fn feed(&mut self, n: usize) { if self.over { return; } let e = (self.at + n).min(self.body.len()); let st = chunk(&mut self.r, self.c, &self.body[self.at..e], e == self.body.len(), Via::Parse); self.over = st != 1 || e == self.body.len(); self.at = e; if self.over { finish(&mut self.r, self.c, st); } }
    fn all(&mut self) { let n = self.body.len().max(1); self.feed(n); }
    fn end(&mut self) { if self.c != DEAD { free(&mut self.r, self.c); self.c = DEAD; } }
}
struct Plan<'a> { create: u64, first: u64, pieces: usize, cuts: &'a [usize] }
/// A document whose general external entities get parsers at some call (or their own, when later), which are
/// given a piece of their text in each call from another on; what is left at the end before the parent goes.
fn kinship(api: &'static Api, cf: &'static Cfg, doc: &[u8], pl: Plan) -> (Vec<u8>, Vec<Vec<u8>>, u64) {
    struct St { kids: Vec<Kid>, create: u64, first: u64, pieces: usize }
    thread_local! { static S: std::cell::RefCell<Option<St>> = const { std::cell::RefCell::new(None) }; }
    fn at(r: &mut Run, _: &str) {
        let mut q = match S.with(|s| s.borrow_mut().take()) { Some(q) => q, None => return }; // (absent while a child is parsed)
        let i = r.nev - 1;
        if i >= q.create { let p = r.p(); for w in std::mem::take(&mut r.waiting) { q.kids.push(Kid::new(r.api, r.cfg(), p, &w, 1)); } }
        if i >= q.first { for k in q.kids.iter_mut() { let n = k.body.len() / q.pieces + 1; k.feed(n); } }
        S.with(|s| *s.borrow_mut() = Some(q));
    }
    let mut r = Run::new(api, cf); r.g = Some(region(0)); r.keep_kids = 4; r.hook = Some(at);
    let p = create(&mut r); S.with(|s| *s.borrow_mut() = Some(St { kids: vec![], create: pl.create, first: pl.first, pieces: pl.pieces }));
    let st = feed(&mut r, p, doc, pl.cuts, Via::Parse, false);
    let mut q = S.with(|s| s.borrow_mut().take()).unwrap(); finish(&mut r, p, st);
    for w in std::mem::take(&mut r.waiting) { q.kids.push(Kid::new(api, cf, p, &w, 1)); }
    let mut v = vec![]; for k in q.kids.iter_mut() { k.all(); k.end(); v.push(joined(&k.r.log)); }
    free(&mut r, p); (r.log.clone(), v, r.nev)
}
/// Character data in one piece, wherever it was divided; without positions of text after its first.
fn joined(l: &[u8]) -> Vec<u8> { norm_delivery(l, true) }
pub fn c17(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C17", "model_checking"); let th = env.thorough(); let rx = env.rx;
    let all = docs();
    let mut small = rich(); small.extend(chosen(&all, 90, if th { 60 } else { 22 }));
    for d in small.iter_mut() { d.cfg.pos = true; }
    let cfgs: Vec<&'static Cfg> = small.iter().map(|d| leak(&d.cfg)).collect();
    let life = |i: usize, reg: usize, n: usize, via: Via, plan: &[(u64, Act)]| { let d = &small[i]; let m = d.doc.len(); let mut cuts: Vec<usize> = (1..n).map(|k| k * m / n).filter(|&x| x > 0 && x < m).collect(); cuts.dedup(); Life::new(rx, cfgs[i], &d.doc, cuts, reg, via, plan) };
    // what each says alone: in this process before any other document, and again after all of them
    let alone = |i: usize, n: usize, via: Via, plan: &[(u64, Act)]| { let mut l = life(i, 0, n, via, plan); l.run(); l.r.log.clone() };
    let base: Vec<Vec<u8>> = (0..small.len()).map(|i| alone(i, 1, Via::Parse, &[])).collect();
    let judge = |cx: &mut Ctx, what: &dyn Fn() -> String, got: &[&[u8]], want: &[&[u8]], live0: i64| {
        cx.add(0, 1); cx.add(2, 1);
        for (g, w) in got.iter().zip(want) { cx.outcome(g); if g != w { cx.violation(&what(), &diff(g, w)); return; } }
        if live() != live0 { cx.violation(&what(), &format!("{} blocks not freed", live() - live0)); return; }
        unsafe { if vp_corrupt != 0 { vp_corrupt = 0; cx.violation(&what(), "memory written outside or after its lifetime"); } }
    };
    let ns = small.len();
    k.part("order", ns as u64, &|cx, case| {
        let i = case as usize; cx.sample(|| show(&small[i].doc, &small[i].cfg)); cx.begin(u64::MAX - 1, 0, b""); there(&mut || { let mut l = life(i, 1, 1, Via::Parse, &[]); l.run(); }); let mut sub = 0;
        for j in 0..ns { for n in [1, 3] { sub += 1; if !cx.begin(sub, 1, &small[j].doc) { continue; } let live0 = live();
            // one after the other, and one abandoned half-way
            let mut a = life(j, 0, n, Via::Buf, &[]); if n == 1 { a.run(); } else { for _ in 0..3 { a.step(); } a.over = true; a.step(); }
            let b = alone(i, 1, Via::Parse, &[]); judge(cx, &|| format!("{} after {}", small[i].name, small[j].name), &[&b], &[&base[i]], live0);
        } }
    });
    // all interleavings of the calls of two parsers on one thread
    k.part("interleaved", (ns * ns) as u64, &|cx, case| {
        let (i, j) = (case as usize / ns, case as usize % ns); if i > j { return; } let mut sub = 0;
        cx.begin(u64::MAX - 1, 0, b""); for x in [i, j] { alone(x, 1, Via::Parse, &[]); }
        for (n, via, pl) in [(3usize, Via::Parse, None), (3, Via::Buf, None), (2, Via::Buf, Some(1u64)), (1, Via::Parse, Some(3))] {
            let plan: Vec<(u64, Act)> = pl.map(|e| (e, Act::Suspend)).into_iter().collect();
            let (wa, wb) = (alone(i, n, via, &plan), alone(j, n, Via::Parse, &plan));
            let steps = |x: usize, v: Via| { let mut l = life(x, 0, n, v, &plan); let mut c = 0; while l.step() { c += 1; } c };
            let (la, lb) = (steps(i, via), steps(j, Via::Parse));
            let mut pat: u64 = (1 << la) - 1; // which steps are the first one's
            while pat < 1 << (la + lb) {
                sub += 1; if cx.begin(sub, pat, &small[i].doc) { let live0 = live();
                    let (mut a, mut b) = (life(i, 0, n, via, &plan), life(j, 1, n, Via::Parse, &plan));
                    for t in 0..la + lb { if pat >> t & 1 == 1 { a.step(); } else { b.step(); } }
                    cx.add(1, (la + lb) as u64);
                    judge(cx, &|| format!("calls of {} and {} interleaved as {:b}", small[i].name, small[j].name, pat), &[&a.r.log, &b.r.log], &[&wa, &wb], live0);
                }
                let c = pat & pat.wrapping_neg(); let r = pat + c; pat = (((r ^ pat) >> 2) / c) | r; // next with as many ones
            }
        }
    });
    // three parsers
    let nr = rich().len();
    k.part("three", (nr * nr * nr) as u64, &|cx, case| {
        let ix = [case as usize % nr, case as usize / nr % nr, case as usize / nr / nr]; if ix[0] > ix[1] || ix[1] > ix[2] || !th && (ix[0] + ix[1] + ix[2]) % 4 != 0 { return; } cx.begin(u64::MAX - 1, 0, b"");
        let w: Vec<Vec<u8>> = ix.iter().map(|&i| alone(i, 2, Via::Buf, &[])).collect(); let mut sub = 0;
        for code in 0..3usize.pow(9) { let mut c = [0; 3]; let mut x = code; let mut seq = [0u8; 9]; for t in 0..9 { seq[t] = (x % 3) as u8; c[x % 3] += 1; x /= 3; } if c != [3, 3, 3] { continue; }
            sub += 1; if !cx.begin(sub, code as u64, b"") { continue; } let live0 = live();
            let mut l: Vec<Life> = (0..3).map(|q| life(ix[q], q, 2, Via::Buf, &[])).collect();
            for t in seq { l[t as usize].step(); } for q in &mut l { q.run(); } cx.add(1, 12);
            judge(cx, &|| format!("calls of {:?} interleaved as {:?}", ix.map(|i| small[i].name.clone()), seq), &[&l[0].r.log, &l[1].r.log, &l[2].r.log], &[&w[0], &w[1], &w[2]], live0);
        }
    });
    // a parser's handlers use another parser: at every call, another's whole life, or the middle of one
    k.part("nested", all.len() as u64, &|cx, case| {
        let d = &all[case as usize]; let mut cf = d.cfg.clone(); cf.pos = true; let cf = leak(&cf); let mut sub = 0; if d.doc.len() > 1500 { return; }
        let go = |hk: Option<(u64, usize, usize)>| -> (Box<Run>, Option<Life>) {
            thread_local! { static IN: std::cell::Cell<*mut (u64, Option<Life>, usize)> = const { std::cell::Cell::new(null_mut()) }; }
            fn at(r: &mut Run, _: &str) { let q = IN.with(|x| x.get()); if q.is_null() { return; } let q = unsafe { &mut *q }; if r.nev - 1 == q.0 { IN.with(|x| x.set(null_mut())); let l = q.1.as_mut().unwrap(); for _ in 0..q.2 { l.step(); } IN.with(|x| x.set(q)); } }
            let mut st = hk.map(|(e, j, how)| { let mut l = life(j, 1, 3, Via::Parse, &[]); if how == 1 { l.step(); l.step(); } (e, Some(l), if how == 1 { 1 } else { 20 }) });
            let mut r = Run::new(rx, cf); r.g = Some(region(0)); if let Some(s) = st.as_mut() { r.hook = Some(at); IN.with(|x| x.set(s)); }
            let p = create(&mut r); let s = feed(&mut r, p, &d.doc, &[], Via::Parse, false); finish(&mut r, p, s); free(&mut r, p);
            IN.with(|x| x.set(null_mut()));
            let l = st.and_then(|s| s.1).map(|mut l| { l.run(); l }); (r, l)
        };
        cx.begin(u64::MAX - 1, 0, b""); let w = go(None).0; let nev = w.nev.min(if th { 300 } else { 40 });
        for j in 0..nr { let wj = alone(j, 3, Via::Parse, &[]); for i in 0..nev { for how in 0..2 {
            sub += 1; if !cx.begin(sub, 1, &d.doc) { continue; } let live0 = live();
            let (r, l) = go(Some((i, j, how))); let l = l.unwrap(); cx.add(1, 2);
            judge(cx, &|| format!("{} used in call {} of {}", small[j].name, i, d.name), &[&r.log, &l.r.log], &[&w.log, &wj], live0);
        } } }
    });
    // one parser's calls made by two threads, in every assignment
    k.part("moved", all.len() as u64, &|cx, case| {
        let d = &all[case as usize]; let mut cf = d.cfg.clone(); cf.pos = true; let cf = leak(&cf); let m = d.doc.len(); if m > 4000 { return; } let mut sub = 0;
        let mk = |plan: &[(u64, Act)]| { let mut cuts: Vec<usize> = (1..4).map(|k| k * m / 4).filter(|&x| x > 0 && x < m).collect(); cuts.dedup(); Life::new(rx, cf, &d.doc, cuts, 0, if case % 2 == 0 { Via::Parse } else { Via::Buf }, plan) };
        cx.begin(u64::MAX - 1, 0, b"");
        for plan in [vec![], vec![(1u64, Act::Suspend)], vec![(4u64, Act::Suspend)]] {
            let mut w = mk(&plan); let mut n = 0; while w.step() { n += 1; } there(&mut || { let mut w = mk(&plan); w.run(); });
            for pat in 0..1u64 << n.min(if th { 10 } else { 8 }) { sub += 1; if !cx.begin(sub, pat, &d.doc) { continue; } let live0 = live();
                let mut l = mk(&plan); let mut t = 0; loop { let mut more = false; if pat >> t & 1 == 1 { there(&mut || more = l.step()); } else { more = l.step(); } t += 1; if !more { break; } }
                cx.add(1, t as u64);
                judge(cx, &|| format!("{} by two threads as {:b}", d.name, pat), &[&l.r.log], &[&w.r.log], live0);
            }
        }
    });
    // two threads: every pair of preemption points (handler calls, requests and releases of memory)
    let pairs: Vec<(usize, usize)> = (0..ns).flat_map(|i| (0..ns).map(move |j| (i, j))).filter(|&(i, j)| i < nr && j < nr || th || (i * 7 + j) % 9 == 0).collect();
    k.part("preempted", pairs.len() as u64, &|cx, case| {
        let (i, j) = pairs[case as usize]; let mut sub = 0; cx.begin(u64::MAX - 1, 0, b"");
        let (wa, wb) = (alone(i, 2, Via::Parse, &[]), alone(j, 2, Via::Buf, &[])); cx.sample(|| format!("{} with {}", small[i].name, small[j].name));
        let run = |sw: [[u64; 2]; 2], each: [u64; 2]| { let (mut a, mut b) = (life(i, 0, 2, Via::Parse, &[]), life(j, 1, 2, Via::Buf, &[])); a.r.hook = Some(at_event); b.r.hook = Some(at_event); let n = both(&mut || a.run(), &mut || b.run(), sw, each); (a.r, b.r, n) };
        const NO: u64 = u64::MAX;
        let n = run([[NO; 2]; 2], [0, 0]).2;
        let mut one = |cx: &mut Ctx, sw: [[u64; 2]; 2], each: [u64; 2]| { sub += 1; if !cx.begin(sub, 1, &small[i].doc) { return; } let live0 = live(); let s0 = unsafe { SWITCHES }; let (a, b, _) = run(sw, each); cx.add(1, unsafe { SWITCHES } - s0);
            judge(cx, &|| format!("{} with {} on another thread, switched at {:?} {:?}", small[i].name, small[j].name, sw, each), &[&a.log, &b.log], &[&wa, &wb], live0); };
        // (the quick tier takes every point of the one with every third of the other)
        let step = if th { 1 } else { 3 };
        for x in 0..n[0] { let mut y = x % step; while y < n[1] { one(cx, [[x, NO], [y, NO]], [0, 0]); y += step; } }
        for x in 1..12 { for y in 1..12 { one(cx, [[NO; 2]; 2], [x, y]); } }
        if th && i < nr && j < nr { for x in (0..n[0]).step_by(3) { for x2 in (x + 1..n[0]).step_by(3) { for y in (0..n[1]).step_by(5) { for y2 in (y + 1..n[1]).step_by(5) { one(cx, [[x, x2], [y, y2]], [0, 0]); } } } } }
    });
    // parsers of general entities, which live beside their parent's: created at any later call, fed at any later call
    let fam: Vec<D> = kin().into_iter().chain(all.iter().filter(|d| !d.cfg.ext.is_empty() && d.cfg.unk.is_none() && d.doc.len() < 3000).cloned()).map(|mut d| { d.cfg.pos = true; d.cfg.parser_arg = false; d }).collect();
    k.part("family", fam.len() as u64, &|cx, case| {
        let d = &fam[case as usize]; let cf = leak(&d.cfg); let mut sub = 0; cx.begin(u64::MAX - 1, 0, b""); cx.sample(|| show(&d.doc, &d.cfg));
        let w = kinship(rx, cf, &d.doc, Plan { create: u64::MAX, first: u64::MAX, pieces: 1, cuts: &[] });
        if w.1.is_empty() { return; }
        { // children parsed by the handler's own run: the same, minus what they reported
            let mut r = Run::new(rx, cf); let p = create(&mut r); let st = feed(&mut r, p, &d.doc, &[], Via::Parse, false); finish(&mut r, p, st); free(&mut r, p);
            if r.ext_fail == 0 { let f = |l: &[u8]| -> Vec<u8> { lines(l).into_iter().filter(|x| !x.starts_with(b">") && !split_pos(x, true).1.starts_with(b"XEND")).flat_map(|x| [x, b"\n"].concat()).collect() }; if f(&r.log) != f(&w.0) { cx.violation(&format!("{}: the parsing of external entities changes what the document says", d.name), &diff(&f(&w.0), &f(&r.log))); } }
        }
        let nev = w.2.min(if th { 200 } else { 40 }); let bytes: Vec<usize> = (1..d.doc.len()).collect();
        for cuts in [&[][..], &bytes[..]] { for c in (0..nev).chain([u64::MAX]) { for f in (c..nev).chain([u64::MAX]) { for pieces in [1usize, 3, 40] {
            sub += 1; if !cx.begin(sub, 1, &d.doc) { continue; } let live0 = live();
            let g = kinship(rx, cf, &d.doc, Plan { create: c, first: f, pieces, cuts }); cx.add(1, g.2);
            let (a, b): (Vec<&[u8]>, Vec<&[u8]>) = (std::iter::once(&g.0[..]).chain(g.1.iter().map(|x| &x[..])).collect(), std::iter::once(&w.0[..]).chain(w.1.iter().map(|x| &x[..])).collect());
            if a.len() != b.len() { cx.violation(&format!("{}: other entities", d.name), ""); continue; }
            if cuts.is_empty() { judge(cx, &|| format!("{}: parsers of its entities created at call {}, fed from call {} in {} pieces", d.name, c as i64, f as i64, pieces), &a, &b, live0); }
            else { let a: Vec<Vec<u8>> = a.iter().map(|x| joined(x)).collect(); let b: Vec<Vec<u8>> = b.iter().map(|x| joined(x)).collect(); judge(cx, &|| format!("{}: (byte by byte) parsers of its entities created at call {}, fed from call {} in {} pieces", d.name, c as i64, f as i64, pieces), &a.iter().map(|x| &x[..]).collect::<Vec<_>>(), &b.iter().map(|x| &x[..]).collect::<Vec<_>>(), live0); }
        } } } }
    });
    // the same on two threads: the parser of the entity there, its parent here
    k.part("family-preempted", fam.len() as u64, &|cx, case| {
        let d = &fam[case as usize]; let cf = leak(&d.cfg); let mut sub = 0; cx.begin(u64::MAX - 1, 0, b"");
        let m = d.doc.len(); if m > 400 { return; }
        // cut behind each reference to an entity
        for at in 1..m { if d.doc[at - 1] != b';' { continue; }
            let run = |sw: [[u64; 2]; 2], each: [u64; 2]| -> Option<(Vec<u8>, Vec<u8>, [u64; 2])> {
                let mut r = Run::new(rx, cf); r.g = Some(region(0)); r.keep_kids = 4; let p = create(&mut r);
                let mut st = chunk(&mut r, p, &d.doc[..at], false, Via::Buf); if st != 1 || r.waiting.is_empty() { free(&mut r, p); return None; }
                let wt = r.waiting.remove(0); let mut kid = Kid::new(rx, cf, p, &wt, 1); r.hook = Some(at_event); kid.r.hook = Some(at_event);
                let n = both(&mut || st = chunk(&mut r, p, &d.doc[at..], true, Via::Parse), &mut || kid.all(), sw, each);
                finish(&mut r, p, st); kid.end(); free(&mut r, p); Some((r.log.clone(), kid.r.log.clone(), n))
            };
            const NO: u64 = u64::MAX;
            let (wa, wb, n) = match run([[NO; 2]; 2], [0, 0]) { Some(x) => x, None => continue };
            let mut one = |cx: &mut Ctx, sw: [[u64; 2]; 2], each: [u64; 2]| { sub += 1; if !cx.begin(sub, 1, &d.doc) { return; } let live0 = live(); let s0 = unsafe { SWITCHES }; let (a, b, _) = run(sw, each).unwrap(); cx.add(1, unsafe { SWITCHES } - s0);
                judge(cx, &|| format!("{} and, on another thread, its entity referred to before byte {}, switched at {:?} {:?}", d.name, at, sw, each), &[&a, &b], &[&wa, &wb], live0); };
            let step = if th { 1 } else { 2 };
            for x in 0..n[0].min(300) { let mut y = x % step; while y < n[1].min(300) { one(cx, [[x, NO], [y, NO]], [0, 0]); y += step; } }
            for x in 1..8 { for y in 1..8 { one(cx, [[NO; 2]; 2], [x, y]); } }
        }
    });
    // a preemption after every single instruction of the library, the other parser advancing by one point or living a whole life
    k.part("anywhere", (nr * 2) as u64, &|cx, case| {
        let (i, whole) = (case as usize / 2, case % 2 == 1); let mut sub = 0; cx.begin(u64::MAX - 1, 0, b"");
        let others: Vec<usize> = if th { (0..nr).collect() } else { vec![(i + 1) % nr, (i + 4) % nr] };
        for j in others { sub += 1; if !cx.begin(sub, 1, &small[i].doc) { continue; }
            let wa = alone(i, 2, Via::Parse, &[]); let wb = alone(j, 2, Via::Buf, &[]); start_other(); there(&mut || { alone(j, 2, Via::Buf, &[]); });
            static mut BAD: Option<Vec<u8>> = None; static mut STOP: bool = false; static mut LIVES: u64 = 0; static mut BEAT: Option<*const Ctx> = None;
            let want = crate::pool::hash(&wb); let mut a = life(i, 0, 2, Via::Parse, &[]); let live0 = live();
            let mut b = || unsafe { while !STOP { let mut l = life(j, 1, 2, Via::Buf, &[]); if !whole { l.r.hook = Some(at_event); } l.run(); LIVES += 1; if crate::pool::hash(&l.r.log) != want && (*std::ptr::addr_of!(BAD)).is_none() { BAD = Some(l.r.log.clone()); } if whole && !STOP { pass(); } } };
            extern "C" fn tick() { unsafe { if !DONE { CUR = 0; pass(); if let Some(c) = BEAT { if vp_steps_in % 64 == 0 { (*c).beat(); } } } } }
            fn only_b() { unsafe { if CUR == 1 { pass(); } } }
            extern "C" fn alloc_b() { only_b(); }
            unsafe {
                BAD = None; STOP = false; LIVES = 0; DONE = false; CUR = 0; ON = true; AT = [0, 0]; SW = [[u64::MAX; 2]; 2]; EACH = [0, 1]; BEAT = Some(cx as *const Ctx);
                JOB = Some(std::mem::transmute::<&mut dyn FnMut(), &'static mut dyn FnMut()>(&mut b));
                if !whole { vp_hook = Some(alloc_b); }
                let s0 = vp_steps_in;
                let ok = vp_step_on(tick); assert!(ok == 0);
                a.run();
                vp_step_off();
                let steps = vp_steps_in - s0;
                STOP = true; while !DONE { pass(); } ON = false; vp_hook = None; BEAT = None;
                cx.add(1, steps); cx.add(4, LIVES);
                #[allow(static_mut_refs)] let bl = BAD.take().unwrap_or(wb.clone());
                judge(cx, &|| format!("{} with {} on another thread, preempted after every instruction", small[i].name, small[j].name), &[&a.r.log, &bl], &[&wa, &wb], live0);
                if steps == 0 { eprintln!("ERROR: no steps"); std::process::exit(3); }
                cx.sample(|| format!("{} with {}: {} preemptions, {} lives", small[i].name, small[j].name, steps, LIVES));
            }
        }
    });
    k.finish("every interleaving within the stated bounds: of the calls of two and three parsers, of two threads at their handler calls and memory requests, and at every instruction; transitions are switches; each evaluation compares every parser's log with what it says alone")
}
