//! C21: the command line tool xmlwf, run as a process, against an account of what it must say and write
//! that is driven by the reference library.
use crate::chk::*; use crate::ffi::*; use crate::gen::*; use crate::pool::*; use crate::util::*; use crate::*;
use std::collections::BTreeMap;
use std::ffi::{CStr, CString, OsStr};
use std::os::raw::{c_char, c_int, c_void};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Command, Stdio};
use std::ptr::{null, null_mut};

type B = Vec<u8>;
#[derive(Clone, Default, Debug)]
struct Opt { s: bool, n: bool, p: bool, x: bool, r: bool, big_n: bool, out: u8, d: Option<B>, e: Option<B> }
enum Args { Go(Opt, Vec<B>), Usage(i32), Version }
/// The options as the usage message lays them down: letters may be joined, an argument may be attached.
fn read_args(a: &[B]) -> Args {
    let mut o = Opt::default(); let mut i = 0;
    'next: while i < a.len() && a[i].first() == Some(&b'-') {
        if a[i] == b"--" { i += 1; break; }
        if a[i].len() == 1 { return Args::Usage(2); }
        for j in 1..a[i].len() {
            match a[i][j] {
                b's' => o.s = true, b'n' => o.n = true, b'p' => { o.p = true; o.x = true } b'x' => o.x = true, b'w' => {} b'r' => o.r = true, b'N' => o.big_n = true,
                b'm' => o.out = b'm', b't' => o.out = b't', b'c' => { o.out = b'c'; o.n = false; }
                k @ (b'd' | b'e') => {
                    let v = if j + 1 < a[i].len() { a[i][j + 1..].to_vec() } else { i += 1; if i == a.len() { return Args::Usage(2); } a[i].clone() };
                    if k == b'd' { o.d = Some(v) } else { o.e = Some(v) } i += 1; continue 'next;
                }
                b'h' => return Args::Usage(0), b'v' => return Args::Version, _ => return Args::Usage(2),
            }
        }
        i += 1;
    }
    Args::Go(o, a[i..].to_vec())
}

/// What one run must show: exit code, standard output, standard error, files in the output directory.
#[derive(Default, PartialEq, Clone, Debug)]
struct Shown { code: i32, out: B, err: B, files: BTreeMap<B, B> }
impl Shown { fn text(&self) -> B { let mut v = format!("code {}\n", self.code).into_bytes(); v.extend(b"stdout:\n"); v.extend(&self.out); v.extend(b"stderr:\n"); v.extend(&self.err); for (n, c) in &self.files { v.extend(format!("file {}:\n", esc(n)).bytes()); v.extend(c); v.push(b'\n'); } v } }

struct W { api: &'static Api, o: Opt, out: B, say: B, err: B, doctype: B, notations: Vec<(B, Option<B>, Option<B>)>, cwd: std::path::PathBuf }
static mut CUR: *mut W = null_mut();
fn w() -> &'static mut W { unsafe { &mut *CUR } }
fn by(p: CS) -> B { if p.is_null() { vec![] } else { unsafe { CStr::from_ptr(p) }.to_bytes().to_vec() } }
fn opt(p: CS) -> Option<B> { if p.is_null() { None } else { Some(by(p)) } }
fn put(b: &[u8]) { w().out.extend_from_slice(b); }
fn quoted(b: &[u8]) -> B { let mut v = vec![]; for &c in b { match c { b'&' => v.extend(b"&amp;"), b'<' => v.extend(b"&lt;"), b'>' => v.extend(b"&gt;"), b'"' => v.extend(b"&quot;"), 9 | 10 | 13 => v.extend(format!("&#{};", c).bytes()), _ => v.push(c) } } v }
fn attr(name: &[u8], v: &[u8]) { put(b" "); put(name); put(b"=\""); put(&quoted(v)); put(b"\""); }
fn atts(mut a: *mut CS) -> Vec<(B, B)> { let mut v = vec![]; unsafe { while !(*a).is_null() { v.push((by(*a), by(*a.add(1)))); a = a.add(2); } } v }
fn split_ns(n: &[u8]) -> Option<(B, B)> { n.iter().rposition(|&c| c == 1).map(|i| (n[..i].to_vec(), n[i + 1..].to_vec())) }
// canonical XML
unsafe extern "C" fn c_start(_: *mut c_void, n: CS, a: *mut CS) {
    let mut at = atts(a); at.sort_by(|x, y| x.0.cmp(&y.0)); let n = by(n); put(b"<");
    if !w().o.n { put(&n); for (k, v) in &at { attr(k, v); } put(b">"); return; }
    let mut k = 1;
    match split_ns(&n) { Some((u, l)) => { put(b"n1:"); put(&l); attr(b"xmlns:n1", &u); k = 2; } None => put(&n) }
    for (n, v) in &at { match split_ns(n) { Some((u, l)) => { let mut q = format!("n{}:", k).into_bytes(); q.extend(&l); attr(&q, v); attr(format!("xmlns:n{}", k).as_bytes(), &u); k += 1; } None => attr(n, v) } }
    put(b">");
}
unsafe extern "C" fn c_end(_: *mut c_void, n: CS) { let n = by(n); put(b"</"); match split_ns(&n) { Some((_, l)) if w().o.n => { put(b"n1:"); put(&l) } _ => put(&n) } put(b">"); }
unsafe extern "C" fn c_text(_: *mut c_void, t: CS, n: c_int) { put(&quoted(std::slice::from_raw_parts(t as *const u8, n as usize))); }
unsafe extern "C" fn c_pi(_: *mut c_void, t: CS, d: CS) { put(b"<?"); put(&by(t)); put(b" "); put(&by(d)); put(b"?>"); }
unsafe extern "C" fn n_start(_: *mut c_void, n: CS, _: CS, _: CS, _: c_int) { w().doctype = by(n); }
unsafe extern "C" fn n_not(_: *mut c_void, n: CS, _: CS, s: CS, p: CS) { w().notations.push((by(n), opt(s), opt(p))); }
unsafe extern "C" fn n_end(_: *mut c_void) {
    let mut l = std::mem::take(&mut w().notations); if l.is_empty() { return; }
    l.reverse(); l.sort_by(|a, b| a.0.iter().map(|&c| c as i8).cmp(b.0.iter().map(|&c| c as i8)));
    put(b"<!DOCTYPE "); let d = w().doctype.clone(); put(&d); put(b" [\n");
    for (n, s, p) in &l { put(b"<!NOTATION "); put(n); if let Some(p) = p { put(b" PUBLIC '"); put(p); put(b"'"); if let Some(s) = s { put(b" '"); put(s); put(b"'"); } } else if let Some(s) = s { put(b" SYSTEM '"); put(s); put(b"'"); } put(b">\n"); }
    put(b"]>\n");
}
// the copy
unsafe extern "C" fn copy(_: *mut c_void, t: CS, n: c_int) { put(std::slice::from_raw_parts(t as *const u8, n as usize)); }
// meta XML
unsafe fn at(p: P) { let a = w().api; let u = (a.GetBase)(p); if !u.is_null() { put(b" uri=\""); put(&by(u)); put(b"\""); }
    put(format!(" byte=\"{}\" nbytes=\"{}\" line=\"{}\" col=\"{}\"", (a.GetCurrentByteIndex)(p), (a.GetCurrentByteCount)(p), (a.GetCurrentLineNumber)(p), (a.GetCurrentColumnNumber)(p)).as_bytes()); }
unsafe extern "C" fn m_start(p: *mut c_void, n: CS, a: *mut CS) {
    let (k, id) = ((w().api.GetSpecifiedAttributeCount)(p), (w().api.GetIdAttributeIndex)(p));
    put(b"<starttag"); put(b" name=\""); put(&by(n)); put(b"\""); at(p); let l = atts(a); if l.is_empty() { put(b"/>\n"); return; } put(b">\n");
    for (i, (n, v)) in l.iter().enumerate() { put(b"<attribute name=\""); put(n); put(b"\" value=\""); put(&quoted(v)); put(b"\""); if 2 * i as i32 >= k { put(b" defaulted=\"yes\""); } else if 2 * i as i32 == id { put(b" id=\"yes\""); } put(b"/>\n"); }
    put(b"</starttag>\n");
}
unsafe extern "C" fn m_end(p: *mut c_void, n: CS) { put(b"<endtag name=\""); put(&by(n)); put(b"\""); at(p); put(b"/>\n"); }
unsafe extern "C" fn m_pi(p: *mut c_void, t: CS, d: CS) { put(b"<pi target=\""); put(&by(t)); put(b"\" data=\""); put(&quoted(&by(d))); put(b"\""); at(p); put(b"/>\n"); }
unsafe extern "C" fn m_comment(p: *mut c_void, d: CS) { put(b"<comment data=\""); put(&quoted(&by(d))); put(b"\""); at(p); put(b"/>\n"); }
unsafe extern "C" fn m_cs(p: *mut c_void) { put(b"<startcdata"); at(p); put(b"/>\n"); }
unsafe extern "C" fn m_ce(p: *mut c_void) { put(b"<endcdata"); at(p); put(b"/>\n"); }
unsafe extern "C" fn m_text(p: *mut c_void, t: CS, n: c_int) { put(b"<chars str=\""); c_text(p, t, n); put(b"\""); at(p); put(b"/>\n"); }
unsafe extern "C" fn m_ds(p: *mut c_void, n: CS, _: CS, _: CS, _: c_int) { put(b"<startdoctype name=\""); put(&by(n)); put(b"\""); at(p); put(b"/>\n"); }
unsafe extern "C" fn m_de(p: *mut c_void) { put(b"<enddoctype"); at(p); put(b"/>\n"); }
unsafe extern "C" fn m_not(p: *mut c_void, n: CS, _: CS, s: CS, pu: CS) { put(b"<notation name=\""); put(&by(n)); put(b"\""); if let Some(x) = opt(pu) { put(b" public=\""); put(&x); put(b"\""); } if let Some(x) = opt(s) { put(b" system=\""); put(&quoted(&x)); put(b"\""); } at(p); put(b"/>\n"); }
unsafe extern "C" fn m_ent(p: *mut c_void, n: CS, _: c_int, v: CS, l: c_int, _: CS, s: CS, pu: CS, no: CS) {
    put(b"<entity name=\""); put(&by(n)); put(b"\"");
    if !v.is_null() { at(p); put(b">"); c_text(p, v, l); put(b"</entity/>\n"); return; }
    if let Some(x) = opt(pu) { put(b" public=\""); put(&x); put(b"\""); } put(b" system=\""); put(&quoted(&by(s))); put(b"\"");
    if let Some(x) = opt(no) { put(b" notation=\""); put(&x); put(b"\""); } at(p); put(b"/>\n");
}
unsafe extern "C" fn m_ns(_: *mut c_void, a: CS, u: CS) { put(b"<startns"); if let Some(x) = opt(a) { put(b" prefix=\""); put(&x); put(b"\""); } if let Some(x) = opt(u) { put(b" ns=\""); put(&quoted(&x)); put(b"\""); } put(b"/>\n"); }
unsafe extern "C" fn m_ne(_: *mut c_void, a: CS) { match opt(a) { Some(x) => { put(b"<endns prefix=\""); put(&x); put(b"\"/>\n"); } None => put(b"<endns/>\n") } }
unsafe extern "C" fn not_sa(_: *mut c_void) -> c_int { 0 }
unsafe extern "C" fn ext(p: P, cx: CS, base: CS, sys: CS, _: CS) -> c_int {
    let a = w().api; let q = (a.ExternalEntityParserCreate)(p, cx, null());
    let (b, s) = (opt(base), by(sys));
    let name = match b { Some(b) if s.first() != Some(&b'/') => { let mut v = match b.iter().rposition(|&c| c == b'/') { Some(i) => b[..i + 1].to_vec(), None => vec![] }; v.extend(&s); v } _ => s };
    let c = CString::new(name.clone()).unwrap(); (a.SetBase)(q, c.as_ptr());
    let r = text(q, Some(&name), None); (a.ParserFree)(q); r as c_int
}
const PIECE: usize = 8192;
/// One text given to a parser the way the tool reads it.
unsafe fn text(p: P, name: Option<&[u8]>, stdin: Option<&[u8]>) -> bool {
    let a = w().api; if let Some(f) = crate::drv::REPARSE { if !a.is_rexpat { f(p, 0); } }
    let full = name.map(|n| w().cwd.join(OsStr::from_bytes(n))); let stream = w().o.r || stdin.is_some();
    let data: B = match &full {
        None => stdin.unwrap().to_vec(),
        Some(f) => { let mut no = |why: &str| { if !name.unwrap().is_empty() { w().err.extend(name.unwrap()); w().err.extend(b": "); } w().err.extend(format!("{}\n", why).bytes()); false };
            match if name == Some(b"") { Err(std::io::Error::from_raw_os_error(2)) } else { std::fs::metadata(f) } {
                Err(e) => return no(match e.raw_os_error() { Some(20) => "Not a directory", Some(36) => "File name too long", Some(13) => "Permission denied", _ => "No such file or directory" }),
                Ok(m) if m.permissions().mode() & 0o444 == 0 => return no("Permission denied"),
                Ok(m) if m.is_dir() => return no(if stream { "Is a directory" } else { "not a regular file" }),
                Ok(_) => std::fs::read(f).unwrap_or_default() } }
    };
    let mut ok = true;
    if stream { let mut i = 0; loop { let n = PIECE.min(data.len() - i); if (a.Parse)(p, data[i..].as_ptr() as CS, n as c_int, (n == 0) as c_int) == 0 { ok = false; break; } i += n; if n == 0 { break; } } }
    else if (a.Parse)(p, data.as_ptr() as CS, data.len() as c_int, 1) == 0 { ok = false; }
    if !ok { w().say.extend(name.unwrap_or(b"STDIN")); w().say.extend(format!(":{}:{}: ", (a.GetCurrentLineNumber)(p), (a.GetCurrentColumnNumber)(p)).bytes()); w().say.extend(by((a.ErrorString)((a.GetErrorCode)(p)))); w().say.push(b'\n'); }
    ok
}
/// What the tool must do with these arguments; `stdin` is what it can read there.
fn expect(api: &'static Api, args: &[B], stdin: &[u8], cwd: &Path) -> Shown {
    let mut r = Shown::default();
    let (o, mut files) = match read_args(args) { Args::Usage(c) => { r.code = c; r.err = b"usage: ".to_vec(); return r; } Args::Version => { r.out = b"version".to_vec(); return r; } Args::Go(o, f) => (o, f.into_iter().map(Some).collect::<Vec<_>>()) };
    if files.is_empty() { files.push(None); }
    let mut m = W { api, o: o.clone(), out: vec![], say: vec![], err: vec![], doctype: vec![], notations: vec![], cwd: cwd.to_path_buf() };
    unsafe { CUR = &mut m;
        for f in &files {
            let e = o.e.as_ref().map(|e| CString::new(e.clone()).unwrap()); let ep = e.as_ref().map_or(null(), |e| e.as_ptr());
            let a = api; let p = if o.n { (a.ParserCreateNS)(ep, 1 as c_char) } else { (a.ParserCreate)(ep) };
            if o.s { (a.SetNotStandaloneHandler)(p, Some(not_sa)); }
            if o.p { (a.SetParamEntityParsing)(p, 2); }
            let dir = if o.out == b't' { None } else { o.d.clone() };
            m.out.clear(); (a.UseParserAsHandlerArg)(p);
            if o.out == b't' { unsafe extern "C" fn nt(_: *mut c_void, _: CS, _: c_int) {} (a.SetCharacterDataHandler)(p, Some(nt)); }
            let mut file = None;
            if let Some(d) = &dir {
                let n = f.as_ref().map_or(b"STDIN".to_vec(), |f| match f.iter().rposition(|&c| c == b'/') { Some(i) => f[i + 1..].to_vec(), None => f.clone() });
                let mut full = d.clone(); full.push(b'/'); full.extend(&n);
                let path = cwd.join(OsStr::from_bytes(&full));
                let up = path.parent().unwrap_or(Path::new("/")).to_path_buf();
                let bad = if up.is_file() { Some("Not a directory") } else if !up.is_dir() { Some("No such file or directory") } else if n.is_empty() || path.is_dir() { Some("Is a directory") } else if std::fs::metadata(&up).unwrap().permissions().mode() & 2 == 0 { Some("Permission denied") } else { None };
                if let Some(why) = bad { m.err.extend(&full); m.err.extend(format!(": {}\n", why).bytes()); r.code = 1; (a.ParserFree)(p); break; }
                file = Some(n);
                match o.out {
                    b'm' => { (a.SetElementHandler)(p, Some(m_start), Some(m_end)); (a.SetProcessingInstructionHandler)(p, Some(m_pi)); (a.SetCommentHandler)(p, Some(m_comment)); (a.SetCdataSectionHandler)(p, Some(m_cs), Some(m_ce)); (a.SetCharacterDataHandler)(p, Some(m_text)); (a.SetDoctypeDeclHandler)(p, Some(m_ds), Some(m_de)); (a.SetEntityDeclHandler)(p, Some(m_ent)); (a.SetNotationDeclHandler)(p, Some(m_not)); (a.SetNamespaceDeclHandler)(p, Some(m_ns), Some(m_ne)); put(b"<document>\n"); }
                    b'c' => (a.SetDefaultHandler)(p, Some(copy)),
                    _ => { (a.SetElementHandler)(p, Some(c_start), Some(c_end)); (a.SetCharacterDataHandler)(p, Some(c_text)); (a.SetProcessingInstructionHandler)(p, Some(c_pi)); if o.big_n { (a.SetDoctypeDeclHandler)(p, Some(n_start), Some(n_end)); (a.SetNotationDeclHandler)(p, Some(n_not)); } }
                }
            }
            if let Some(f) = f { let c = CString::new(f.clone()).unwrap(); (a.SetBase)(p, c.as_ptr()); }
            if o.x { (a.SetExternalEntityRefHandler)(p, Some(ext)); }
            let ok = text(p, f.as_deref(), if f.is_none() { Some(stdin) } else { None });
            (a.ParserFree)(p);
            if let Some(n) = file { if o.out == b'm' { put(b"</document>\n"); } if ok { r.files.insert(n, m.out.clone()); } else { r.files.remove(&n); } }
            if !ok { r.code = 2; break; }
        }
    }
    r.out = m.say; r.err = m.err; r
}
struct Place { root: std::path::PathBuf, tool: std::path::PathBuf, nobody: bool }
fn place(tool: &Path) -> Place {
    let root = tool.parent().unwrap().join(format!("w{}", std::process::id()));
    for d in ["in/sub", "o"] { std::fs::create_dir_all(root.join(d)).unwrap(); }
    for d in ["", "in", "in/sub", "o"] { std::fs::set_permissions(root.join(d), std::fs::Permissions::from_mode(if d == "o" { 0o777 } else { 0o755 })).unwrap(); }
    Place { root, tool: tool.to_path_buf(), nobody: unsafe { geteuid() } == 0 }
}
extern "C" { fn geteuid() -> u32; }
fn clear_out(p: &Place) { for e in std::fs::read_dir(p.root.join("o")).unwrap().flatten() { let _ = std::fs::remove_file(e.path()); } }
fn run_tool(p: &Place, args: &[B], stdin: Option<&Path>) -> Shown {
    let mut c = Command::new(&p.tool); c.args(args.iter().map(|a| OsStr::from_bytes(a))).env_clear().env("LC_ALL", "C").current_dir(&p.root).stdout(Stdio::piped()).stderr(Stdio::piped());
    match stdin { Some(f) => { c.stdin(std::fs::File::open(f).unwrap()); } None => { c.stdin(Stdio::null()); } }
    if p.nobody { c.uid(65534).gid(65534); }
    let o = c.output().expect("xmlwf");
    let mut r = Shown { code: o.status.code().unwrap_or_else(|| -std::os::unix::process::ExitStatusExt::signal(&o.status).unwrap_or(999)), out: o.stdout, err: o.stderr, files: BTreeMap::new() };
    for e in std::fs::read_dir(p.root.join("o")).unwrap().flatten() { r.files.insert(e.file_name().into_vec(), std::fs::read(e.path()).unwrap_or_default()); }
    r
}
fn judge(cx: &mut Ctx, env: &Env, p: &Place, args: &[B], stdin: Option<&Path>, what: &dyn Fn() -> String) -> Shown {
    if let Args::Go(Opt { d: Some(d), .. }, _) = read_args(args) { if d.is_empty() || d[0] == b'/' || !p.nobody && d != b"o" && d != b"missing" { return Shown::default(); } } // (outside the scratch directory)
    clear_out(p); let got = run_tool(p, args, stdin);
    let sin = stdin.map_or(vec![], |f| std::fs::read(f).unwrap());
    clear_out(p); let mut want = expect(env.ex, args, &sin, &p.root);
    cx.add(0, 1); cx.add(2, 1); cx.outcome(&got.text());
    let mut g = got.clone();
    if want.err == b"usage: " && g.err.starts_with(b"usage: ") && g.err.len() > 1000 { g.err = want.err.clone(); }
    if want.out == b"version" { want.out = by(unsafe { (env.rx.ExpatVersion)() }); let mut v = b"xmlwf using ".to_vec(); v.append(&mut want.out); v.push(b'\n'); let mut l = vec![]; unsafe { let mut f = (env.rx.GetFeatureList)(); while (*f).feature != 0 { let mut x = by((*f).name); if (*f).value != 0 { x.extend(format!("={}", (*f).value).bytes()); } l.push(x); f = f.add(1); } } v.extend(l.join(&b", "[..])); v.push(b'\n'); want.out = v; }
    if g != want {
        // a difference between the two libraries that is accepted elsewhere is not the tool's
        clear_out(p); let own = expect(env.rx, args, &sin, &p.root);
        if own == g && accepted(&g, &want) { return got; }
        cx.violation(&format!("xmlwf {} {}", args.iter().map(|a| esc(a)).collect::<Vec<_>>().join(" "), what()), &diff(&g.text(), &want.text()));
    }
    got
}
/// Deviations of the newer reference, explained where the libraries are compared: the message of an entity
/// that ends inside an element, and how much of an entity value is kept after an undefined reference.
fn accepted(g: &Shown, want: &Shown) -> bool {
    // (the text "]" that ends an entity has an extent of one byte here, of none there)
    if g.files.keys().eq(want.files.keys()) && g.code == want.code && g.out == want.out && g.files.iter().zip(&want.files).all(|((_, a), (_, b))| { let (a, b) = (lines(a), lines(b)); a.len() == b.len() && a.iter().zip(&b).all(|(l, m)| l == m || l.starts_with(b"<chars str=\"]") && s(m).contains(" nbytes=\"0\"") && (1..5).any(|n| s(l).replace(&format!(" nbytes=\"{}\"", n), " nbytes=\"0\"") == s(m))) }) { return true; }
    let asyn = |s: &Shown| s.out.windows(26).any(|w| w == b"asynchronous entity\n" || w.starts_with(b"asynchronous entity"));
    (asyn(g) || asyn(want)) && g.code == want.code
}
fn put_file(p: &Path, b: &[u8]) { std::fs::write(p, b).unwrap(); }
fn v(s: &[&str]) -> Vec<B> { s.iter().map(|x| x.as_bytes().to_vec()).collect() }
fn safe_name(n: &[u8]) -> bool { !n.is_empty() && n.len() < 60 && !n.contains(&b'/') && !n.contains(&0) && n != b"." && n != b".." }

pub fn c21(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C21", "exploration"); let th = env.thorough();
    let base = std::path::PathBuf::from(format!("/tmp/vp-c21-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&base); std::fs::create_dir_all(&base).unwrap(); std::fs::set_permissions(&base, std::fs::Permissions::from_mode(0o755)).unwrap();
    let tool = base.join("xmlwf"); std::fs::copy(format!("{}/build/target/debug/xmlwf", env.o.verif), &tool).expect("xmlwf"); std::fs::set_permissions(&tool, std::fs::Permissions::from_mode(0o755)).unwrap();
    // the corpus under every combination of options
    let ds = docs(); let mut combos: Vec<Vec<B>> = vec![];
    for way in 0..3 { for n in 0..2 { for x in ["", "x", "p", "px"] { for out in ["", "d", "dm", "dc", "t", "dt", "dN", "dmN"] { for s in ["", "s"] {
        let mut f = String::from("-"); if way == 1 { f.push('r'); } if n == 1 { f.push('n'); } f.push_str(x); f.push_str(&out.replace('d', "")); f.push_str(s);
        let mut a: Vec<B> = vec![]; if f.len() > 1 { a.push(f.into_bytes()); } if out.contains('d') { a.push(b"-d".to_vec()); a.push(b"o".to_vec()); }
        if way < 2 { a.push(b"in/doc.xml".to_vec()); } combos.push(a);
    } } } } }
    for e in ["UTF-8", "utf-16", "ISO-8859-1", "us-ascii", "x-none", "windows-1252", "UTF-16LE"] { for out in ["", "-m", "-c"] { for w in ["", "-w", "-rw"] { let mut a = v(&["-e", e, "-do"]); if !out.is_empty() { a.push(out.into()); } if !w.is_empty() { a.push(w.into()); } a.push(b"in/doc.xml".to_vec()); combos.push(a); } } }
    k.part("documents", ds.len() as u64, &|cx, case| {
        let d = &ds[case as usize]; let p = place(&tool); let mut sub = 0; cx.sample(|| show_d(d));
        put_file(&p.root.join("in/doc.xml"), &d.doc); for (n, b) in &d.cfg.ext { if safe_name(n) { for dir in ["in", "."] { put_file(&p.root.join(dir).join(OsStr::from_bytes(n)), b); } } }
        for (ci, a) in combos.iter().enumerate() { if !th && ci % 3 != (case % 3) as usize { continue; }
            sub += 1; if !cx.begin(sub, ci as u64, &d.doc) { continue; }
            let f = p.root.join("in/doc.xml"); let sin = if a.last().map_or(true, |x| x != b"in/doc.xml") { Some(f.as_path()) } else { None };
            judge(cx, env, &p, a, sin, &|| show_d(d));
            if std::fs::read(&f).unwrap_or_default() != d.doc { cx.violation("the input was changed", &show_d(d)); put_file(&f, &d.doc); }
        }
        let _ = std::fs::remove_dir_all(&p.root);
    });
    // token sequences, options in turn
    let turn: Vec<Vec<B>> = [&["-d", "o"][..], &["-nd", "o"], &["-mdo"], &["-cdo"], &["-pdo"], &["-Npdo"], &["-nmpdo"], &["-r"], &["-xmdo"], &["-sdo"]].iter().map(|a| { let mut a = v(a); a.push(b"in/doc.xml".to_vec()); a }).collect();
    for f in &families() {
        if f.name.starts_with("bytes") || f.name.starts_with("units16") { continue; }
        let depth = depth_for(f, if th { 60_000 } else { 2_500 }); let n = f.n(depth); const BL: u64 = 32;
        k.part(&format!("{}-d{}", f.name, depth), (n + BL - 1) / BL, &|cx, case| {
            let p = place(&tool); let mut sub = 0;
            for i in case * BL..((case + 1) * BL).min(n) { let ci = (i % f.cfgs.len() as u64) as usize; let (doc, cf) = f.case(i, ci);
                put_file(&p.root.join("in/doc.xml"), &doc); for (n, b) in &cf.ext { if safe_name(n) { put_file(&p.root.join("in").join(OsStr::from_bytes(n)), b); } }
                for a in [&turn[(i % turn.len() as u64) as usize], &turn[if cf.ext.is_empty() { 0 } else { 6 }]] { sub += 1; if !cx.begin(sub, 0, &doc) { continue; } judge(cx, env, &p, a, None, &|| crate::p_ref::show(&doc, &cf)); }
            }
            let _ = std::fs::remove_dir_all(&p.root);
        });
    }
    // every command line of up to three words
    let words: Vec<B> = { let mut w = v(&["-", "--", "-r", "-n", "-d", "-do", "-dmissing", "-m", "-c", "-t", "-N", "-h", "-v", "-q", "-e", "-eUTF-8", "-rx", "-mh", "o", "in/good.xml", "in/bad.xml", "in/none.xml", "in/sub", "in/empty.xml", "in/sub/ent.xml", "-cn", "-nc", ""]); w.push(b"in/n\xff\xe9.xml".to_vec()); w.push(b"in/secret.xml".to_vec()); w };
    let nw = words.len() as u64; let depth = if th { 4 } else { 3 }; let n = nseq(nw, depth); const AB: u64 = 128;
    k.part("arguments", (n + AB - 1) / AB, &|cx, case| {
        let p = place(&tool); let mut sub = 0;
        for (f, b) in [("good.xml", &b"<!DOCTYPE a [<!NOTATION z SYSTEM 's'><!NOTATION b PUBLIC 'p'>]>\n<a c='1' b=\"&#9;\"><x:y xmlns:x='u'/>t&amp;</a>"[..]), ("bad.xml", b"<a>\n <b></a>"), ("empty.xml", b""), ("secret.xml", b"<a/>"), ("sub/ent.xml", b"<!DOCTYPE a [<!ENTITY e SYSTEM 'e.ent'><!ENTITY f SYSTEM '../f.ent'><!ENTITY g SYSTEM 'gone'>]><a>&e;&f;&e;</a>"), ("sub/e.ent", b"<?xml encoding='utf-8'?>E<i/>"), ("f.ent", b"F")] { put_file(&p.root.join("in").join(f), b); }
        put_file(&p.root.join("in").join(OsStr::from_bytes(b"n\xff\xe9.xml")), b"<n/>"); std::fs::set_permissions(p.root.join("in/secret.xml"), std::fs::Permissions::from_mode(0)).unwrap();
        let sin = p.root.join("in/good.xml");
        for i in case * AB..((case + 1) * AB).min(n) { let a: Vec<B> = seq_at(i, nw).iter().map(|&x| words[x].clone()).collect(); sub += 1; if !cx.begin(sub, 0, &i.to_le_bytes()) { continue; } judge(cx, env, &p, &a, Some(&sin), &|| String::new()); }
        let _ = std::fs::remove_dir_all(&p.root);
    });
    // sizes about the size of a piece
    let sizes: Vec<usize> = { let mut s: Vec<usize> = vec![]; for k in 1..=3 { for d in 0..if th { 60 } else { 24 } { s.push(k * PIECE + 8 - d); } } s.extend([0, 1, 2, 3, 16384 + 100, 65536, 70000, 200_000]); s };
    k.part("sizes", sizes.len() as u64, &|cx, case| {
        let n = sizes[case as usize]; let p = place(&tool); let mut sub = 0;
        for kind in 0..8 {
            let unit: &[u8] = [&b"x"[..], b"\r\n", "日".as_bytes(), b"<b/>", b"&lt;", b"<?p q?>", b"<![CDATA[a]]>", b"<!--c-->"][kind];
            for tail in [&b"</a>"[..], b"</a>\r", b"</b>", b"\xe6", b""] {
                let mut d = b"<a>".to_vec(); while d.len() + unit.len() + tail.len() <= n { d.extend_from_slice(unit); } while d.len() + tail.len() < n { d.push(b'y'); } d.extend_from_slice(tail); if n < 3 { d.truncate(n); }
                put_file(&p.root.join("in/doc.xml"), &d); put_file(&p.root.join("in/e.xml"), b"<!DOCTYPE a [<!ENTITY e SYSTEM 'doc.xml'>]><a>&e;</a>");
                for a in [&["-do", "in/doc.xml"][..], &["-rdo", "in/doc.xml"], &["-rcdo", "in/doc.xml"], &["-rmdo", "in/doc.xml"], &["-do"], &["-rxdo", "in/e.xml"]] { let a = v(a); sub += 1; if !cx.begin(sub, kind as u64, &d[..d.len().min(64)]) { continue; } let f = p.root.join("in/doc.xml"); judge(cx, env, &p, &a, if a.len() == 1 { Some(&f) } else { None }, &|| format!("size {} kind {} tail {}", n, kind, esc(tail))); }
            }
        }
        let _ = std::fs::remove_dir_all(&p.root);
    });
    // the canonical form is its own canonical form, and says the same
    let gd: Vec<D> = docs().into_iter().filter(|d| crate::drv::st_err(&crate::drv::parse(env.ex, &d.cfg, &d.doc, crate::drv::WHOLE, &[]).log).0 == 1).collect();
    k.part("canonical", gd.len() as u64, &|cx, case| {
        let d = &gd[case as usize]; let p = place(&tool); let mut sub = 0;
        for opts in ["-do", "-rdo", "-xdo", "-pdo"] { sub += 1; if !cx.begin(sub, 0, &d.doc) { continue; }
            put_file(&p.root.join("in/doc.xml"), &d.doc); for (n, b) in &d.cfg.ext { if safe_name(n) { put_file(&p.root.join("in").join(OsStr::from_bytes(n)), b); } }
            clear_out(&p); let a = run_tool(&p, &v(&[opts, "in/doc.xml"]), None); cx.add(0, 1); if a.code != 0 { continue; }
            let c = a.files.get(&b"doc.xml"[..]).cloned().unwrap_or_default(); put_file(&p.root.join("in/doc.xml"), &c);
            clear_out(&p); let b = run_tool(&p, &v(&["-do", "in/doc.xml"]), None); let e = b.files.get(&b"doc.xml"[..]).cloned().unwrap_or_default();
            let skipped = false; if (b.code != 0 || c != e) && !skipped { cx.violation(&format!("canonical form of the canonical form {} {}", opts, show_d(d)), &diff(&e, &c)); }
        }
        let _ = std::fs::remove_dir_all(&p.root);
    });
    let r = k.finish("every corpus document under every combination of options, token sequences, every command line of up to three (thorough: four) words, sizes about the 8192-byte piece; one evaluation is one run of the tool; distinct = distinct exit codes, messages and files");
    let _ = std::fs::remove_dir_all(&base); r
}
fn show_d(d: &D) -> String { crate::p_ref::show(&d.doc, &d.cfg) }
