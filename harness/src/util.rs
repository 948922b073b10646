//! Shared helpers of the checks: log normalisation, comparison, document spaces.
use crate::drv::*; use crate::gen::*;

pub fn lines(b: &[u8]) -> Vec<&[u8]> { b.split(|&c| c == b'\n').filter(|l| !l.is_empty()).collect() }
/// The line without the '>' marks of external entities.
pub fn bare(l: &[u8]) -> &[u8] { let mut i = 0; while i < l.len() && l[i] == b'>' { i += 1; } &l[i..] }
/// Position prefix "l:c:b " of a line, if the log has positions.
pub fn split_pos(l: &[u8], pos: bool) -> (&[u8], &[u8]) { let l = bare(l); if !pos || l.starts_with(b"END") { return (b"", l); } match l.iter().position(|&c| c == b' ') { Some(i) => (&l[..i], &l[i + 1..]), None => (b"", l) } }
pub fn is_text(l: &[u8], pos: bool) -> bool { let x = split_pos(l, pos).1; x.starts_with(b"T ") || x.starts_with(b"D ") }
pub fn is_end_bad(l: &[u8], pos: bool) -> bool { let x = split_pos(l, pos).1; x.starts_with(b"END 0") || x.starts_with(b"XEND 0") }
/// How a log is compared when only the delivery of the input differs: the position after a successful
/// parse is not compared; character data directly before an error may have been reported or not.
pub fn norm_delivery(log: &[u8], pos: bool) -> Vec<u8> {
    let ls = lines(log); let mut v = Vec::with_capacity(log.len());
    for (i, l) in ls.iter().enumerate() {
        if i + 1 < ls.len() && is_text(l, pos) && is_end_bad(ls[i + 1], pos) { continue; }
        if bare(l).starts_with(b"END 1") { v.extend_from_slice(b"END 1 0\n"); continue; }
        if split_pos(l, pos).1.starts_with(b"XEND 1") { v.extend_from_slice(&l[..l.len() - bare(l).len()]); v.extend_from_slice(b"XEND 1 0\n"); continue; }
        v.extend_from_slice(l); v.push(b'\n');
    }
    v
}
/// Drops line and column (keeps the byte index).
pub fn strip_linecol(log: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for l in lines(log) {
        let (p, x) = split_pos(l, true);
        if x.starts_with(b"END") { let t: Vec<&[u8]> = x.split(|&c| c == b' ').collect(); for (i, y) in t.iter().enumerate() { if i != 3 && i != 4 { v.extend_from_slice(y); v.push(b' '); } } }
        else { if let Some(i) = p.iter().rposition(|&c| c == b':') { v.extend_from_slice(&p[i..]); } v.push(b' '); v.extend_from_slice(x); }
        v.push(b'\n');
    }
    v
}
/// Drops all position information.
pub fn strip_pos(log: &[u8], pos: bool) -> Vec<u8> {
    let mut v = vec![];
    for l in lines(log) {
        let (_, x) = split_pos(l, pos);
        if x.starts_with(b"END") { let t: Vec<&[u8]> = x.split(|&c| c == b' ').take(3).collect(); v.extend_from_slice(&t.join(&b' ')); }
        else { let d = l.len() - bare(l).len(); v.extend_from_slice(&l[..d]); v.extend_from_slice(x); }
        v.push(b'\n');
    }
    v
}
pub fn s(b: &[u8]) -> String { String::from_utf8_lossy(b).into_owned() }
/// Corpus plus a small instance of every size shape.
pub fn docs() -> Vec<D> { let mut v = corpus(); for (_, f) in shapes() { for n in [0, 2, 5] { let mut d = f(n); d.name = format!("{}/{}", d.name, n); v.push(d); } } v }
pub fn is_ascii_compatible(d: &[u8]) -> bool { !(d.starts_with(b"\xff\xfe") || d.starts_with(b"\xfe\xff") || d.contains(&0)) }
/// Memory verdict of a finished run: leaks, overruns, stale writes, writes to the caller's input.
pub fn mem_bad(r: &Run, live0: i64) -> Option<String> {
    use crate::sys::*;
    unsafe {
        if vp_live != live0 { return Some(format!("{} blocks not freed", vp_live - live0)); }
        if vp_corrupt != 0 { vp_corrupt = 0; return Some("memory written outside or after its lifetime".into()); }
    }
    if r.in_err != 0 { return Some("the caller's input was modified".into()); }
    None
}
pub fn live() -> i64 { unsafe { crate::sys::vp_live } }
