//! C19: which characters are accepted where. C18: well-formed and ill-formed code units, whole characters.
use crate::chk::*; use crate::drv::*; use crate::ffi::*; use crate::gen::*; use crate::names::*; use crate::p_ref::*; use crate::pool::*; use crate::util::*; use crate::*;

pub fn within(t: &[(u32, u32)], c: u32) -> bool { let i = t.partition_point(|r| r.1 < c); i < t.len() && t[i].0 <= c }
#[derive(Clone, Copy, PartialEq)]
enum Cl { Char, Start, Name, Pub }
/// (name, document, class, characters left to the reference, report, prefix separator or 0); '¤' is the character.
const PLACES: &[(&str, &str, Cl, &str, &str, u8)] = &[
    ("text", "<a>x¤y</a>", Cl::Char, "<&\r", "S 'a'# 0 -1\nT x¤y\nE 'a'\n", 0),
    ("attribute value", "<a b='x¤y'/>", Cl::Char, "<&'\t\r\n", "S 'a' 'b'=x¤y# 2 -1\nE 'a'\n", 0),
    ("comment", "<a/><!--x¤y-->", Cl::Char, "\r", "S 'a'# 0 -1\nE 'a'\nC 'x¤y'\n", 0),
    ("instruction", "<?p x¤y?><a/>", Cl::Char, "\r", "PI 'p' 'x¤y'\nS 'a'# 0 -1\nE 'a'\n", 0),
    ("cdata", "<a><![CDATA[x¤y]]></a>", Cl::Char, "\r", "S 'a'# 0 -1\nCD[\nT x¤y\n]CD\nE 'a'\n", 0),
    ("entity value", "<!DOCTYPE a [<!ENTITY e 'x¤y'>]><a>&e;</a>", Cl::Char, "%&<'\r", "DT[ 'a' ~ ~ 1\nENT 'e' 0 \"x¤y\" ~ ~ ~ ~\n]DT\nS 'a'# 0 -1\nT x¤y\nE 'a'\n", 0),
    ("attribute default", "<!DOCTYPE a [<!ATTLIST a b CDATA 'x¤y'>]><a/>", Cl::Char, "<&'\t\r\n", "DT[ 'a' ~ ~ 1\nATT 'a' 'b' 'CDATA' 'x¤y' 0\n]DT\nS 'a' 'b'=x¤y# 0 -1\nE 'a'\n", 0),
    ("system identifier", "<!DOCTYPE a SYSTEM 'x¤y'><a/>", Cl::Char, "'\r\n", "DT[ 'a' 'x¤y' ~ 0\n]DT\nS 'a'# 0 -1\nE 'a'\n", 0),
    ("public identifier", "<!DOCTYPE a [<!NOTATION n PUBLIC 'x¤y'>]><a/>", Cl::Pub, "'\r\n", "DT[ 'a' ~ ~ 1\nNOT 'n' ~ ~ 'x¤y'\n]DT\nS 'a'# 0 -1\nE 'a'\n", 0),
    ("declaration comment", "<!DOCTYPE a [<!--x¤y-->]><a/>", Cl::Char, "\r", "DT[ 'a' ~ ~ 1\nC 'x¤y'\n]DT\nS 'a'# 0 -1\nE 'a'\n", 0),
    ("element start", "<¤b/>", Cl::Start, "", "S '¤b'# 0 -1\nE '¤b'\n", 0),
    ("element", "<a¤b/>", Cl::Name, "", "S 'a¤b'# 0 -1\nE 'a¤b'\n", 0),
    ("end tag", "<a><b¤></b¤></a>", Cl::Name, "", "S 'a'# 0 -1\nS 'b¤'# 0 -1\nE 'b¤'\nE 'a'\n", 0),
    ("attribute start", "<a ¤b='v'/>", Cl::Start, "", "S 'a' '¤b'=v# 2 -1\nE 'a'\n", 0),
    ("attribute", "<a b¤c='v'/>", Cl::Name, "", "S 'a' 'b¤c'=v# 2 -1\nE 'a'\n", 0),
    ("target start", "<a/><?¤b d?>", Cl::Start, "", "S 'a'# 0 -1\nE 'a'\nPI '¤b' 'd'\n", 0),
    ("target", "<a/><?b¤c d?>", Cl::Name, "", "S 'a'# 0 -1\nE 'a'\nPI 'b¤c' 'd'\n", 0),
    ("entity start", "<!DOCTYPE a [<!ENTITY ¤b 'v'>]><a>&¤b;</a>", Cl::Start, "", "DT[ 'a' ~ ~ 1\nENT '¤b' 0 \"v\" ~ ~ ~ ~\n]DT\nS 'a'# 0 -1\nT v\nE 'a'\n", 0),
    ("entity", "<!DOCTYPE a [<!ENTITY b¤c 'v'>]><a d='&b¤c;'/>", Cl::Name, "", "DT[ 'a' ~ ~ 1\nENT 'b¤c' 0 \"v\" ~ ~ ~ ~\n]DT\nS 'a' 'd'=v# 2 -1\nE 'a'\n", 0),
    ("parameter entity start", "<!DOCTYPE a [<!ENTITY % ¤b '<!NOTATION n PUBLIC \"\">'>%¤b;]><a/>", Cl::Start, "", "DT[ 'a' ~ ~ 1\nENT '¤b' 1 \"<!NOTATION n PUBLIC \"\">\" ~ ~ ~ ~\nNOT 'n' ~ ~ ''\n]DT\nS 'a'# 0 -1\nE 'a'\n", 1),
    ("parameter entity", "<!DOCTYPE a [<!ENTITY % b¤c '<!NOTATION n PUBLIC \"\">'>%b¤c;]><a/>", Cl::Name, "", "DT[ 'a' ~ ~ 1\nENT 'b¤c' 1 \"<!NOTATION n PUBLIC \"\">\" ~ ~ ~ ~\nNOT 'n' ~ ~ ''\n]DT\nS 'a'# 0 -1\nE 'a'\n", 1),
    ("token", "<!DOCTYPE a [<!ATTLIST a b (¤x|y) #IMPLIED>]><a/>", Cl::Name, "", "DT[ 'a' ~ ~ 1\nATT 'a' 'b' '(¤x|y)' ~ 0\n]DT\nS 'a'# 0 -1\nE 'a'\n", 0),
    ("notation start", "<!DOCTYPE a [<!NOTATION ¤b SYSTEM 's'>]><a/>", Cl::Start, "", "DT[ 'a' ~ ~ 1\nNOT '¤b' ~ 's' ~\n]DT\nS 'a'# 0 -1\nE 'a'\n", 0),
    ("model", "<!DOCTYPE a [<!ELEMENT ¤b (c¤,¤d)>]><a/>", Cl::Start, "", "DT[ 'a' ~ ~ 1\nEL '¤b' (6,0 ~ 2(4,0 'c¤' 0)(4,0 '¤d' 0))\n]DT\nS 'a'# 0 -1\nE 'a'\n", 0),
    ("declared element", "<!DOCTYPE a [<!ATTLIST a¤ ¤b NMTOKEN 'v'>]><a¤/>", Cl::Start, "", "DT[ 'a' ~ ~ 1\nATT 'a¤' '¤b' 'NMTOKEN' 'v' 0\n]DT\nS 'a¤' '¤b'=v# 0 -1\nE 'a¤'\n", 0),
    ("document type", "<!DOCTYPE ¤b><¤b/>", Cl::Start, "", "DT[ '¤b' ~ ~ 0\n]DT\nS '¤b'# 0 -1\nE '¤b'\n", 0),
    ("local part", "<p:¤b xmlns:p='u'/>", Cl::Start, ":", "NS+ 'p' 'u'\nS 'u!¤b'# 0 -1\nE 'u!¤b'\nNS- 'p'\n", b'!'),
    ("prefix", "<q¤:b xmlns:q¤='u' q¤:c¤='v'/>", Cl::Name, ":", "NS+ 'q¤' 'u'\nS 'u!b' 'u!c¤'=v# 2 -1\nE 'u!b'\nNS- 'q¤'\n", b'!'),
];
static mut CP: i32 = 0;
unsafe extern "C" fn conv(_: *mut std::os::raw::c_void, _: CS) -> i32 { CP }
fn unk_one(_: &mut Run, _: &[u8], e: &mut Encoding) -> i32 { for i in 0..256 { e.map[i] = if i < 128 { i as i32 } else { -1 }; } e.map[0x80] = unsafe { CP }; e.convert = None; e.release = None; 1 }
fn unk_n(n: usize, e: &mut Encoding) -> i32 { for i in 0..256 { e.map[i] = if i < 128 { i as i32 } else { -1 }; } e.map[0x80] = -(n as i32); e.convert = Some(conv); e.release = None; 1 }
fn unk_two(_: &mut Run, _: &[u8], e: &mut Encoding) -> i32 { unk_n(2, e) }
fn unk_three(_: &mut Run, _: &[u8], e: &mut Encoding) -> i32 { unk_n(3, e) }
fn unk_four(_: &mut Run, _: &[u8], e: &mut Encoding) -> i32 { unk_n(4, e) }
/// A code point, surrogates included, as generalised UTF-8.
pub fn wtf8(c: u32) -> Vec<u8> { if c < 0x80 { vec![c as u8] } else if c < 0x800 { vec![0xc0 | (c >> 6) as u8, 0x80 | (c & 63) as u8] } else if c < 0x10000 { vec![0xe0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8] } else { vec![0xf0 | (c >> 18) as u8, 0x80 | (c >> 12 & 63) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8] } }
#[derive(Clone, Copy, PartialEq)]
enum En { U8, Le, Be, L1, Ascii, U1, U2, U3, U4 }
const ENS: &[(&str, En)] = &[("utf-8", En::U8), ("utf-16le", En::Le), ("utf-16be", En::Be), ("latin-1", En::L1), ("ascii", En::Ascii), ("unknown-1", En::U1), ("unknown-2", En::U2), ("unknown-3", En::U3), ("unknown-4", En::U4)];
fn put_char(v: &mut Vec<u8>, c: u32, en: En) {
    let unit = |v: &mut Vec<u8>, u: u32| if en == En::Le { v.push(u as u8); v.push((u >> 8) as u8) } else { v.push((u >> 8) as u8); v.push(u as u8) };
    match en { En::U8 => v.extend(wtf8(c)), En::Le | En::Be => if c < 0x10000 { unit(v, c) } else { unit(v, 0xd7c0 + (c >> 10)); unit(v, 0xdc00 | c & 0x3ff) }, _ => v.push(c as u8) }
}
fn build(t: &str, c: u32, en: En) -> Vec<u8> {
    let mut v = match en { En::Le => vec![0xff, 0xfe], En::Be => vec![0xfe, 0xff], _ => vec![] };
    for x in t.chars() { if x == '¤' { match en { En::U1 => v.push(0x80), En::U2 => v.extend_from_slice(b"\x80\x81"), En::U3 => v.extend_from_slice(b"\x80A<"), En::U4 => v.extend_from_slice(b"\x80\x00\xff>"), _ => put_char(&mut v, c, en) } } else { put_char(&mut v, x as u32, en) } }
    v
}
fn subst(t: &str, c: u32) -> Vec<u8> { let mut v = vec![]; let u = wtf8(c); for x in t.chars() { if x == '¤' { put_esc(&mut v, &u) } else { let mut b = [0; 4]; v.extend_from_slice(x.encode_utf8(&mut b).as_bytes()); } } v }
/// Letters of the single-byte tables that XML 1.0 (fourth edition) does not count among the letters.
fn odd3(c: u32, en: En) -> bool { matches!(c, 0xaa | 0xb5 | 0xba) && matches!(en, En::L1 | En::Le | En::Be) }
fn one_char(cx: &mut Ctx, env: &Env, pl: usize, en: (&str, En), c: u32, sub: &mut u64) {
    let (name, doc, cl, special, rep, sep) = PLACES[pl];
    let d = build(doc, c, en.1);
    *sub += 1; if !cx.begin(*sub, pl as u64, &d) { return; }
    unsafe { CP = c as i32; }
    let unk = matches!(en.1, En::U1 | En::U2 | En::U3 | En::U4);
    let mut cf = cfg(); cf.mask &= !h::NOTSA; cf.dflt = Dflt::No; if sep == 1 { cf.pe = 2; } else if sep != 0 { cf.ns = Some(sep); }
    match en.1 { En::L1 => cf.enc = Some("ISO-8859-1"), En::Ascii => cf.enc = Some("US-ASCII"), En::U1 => cf.unk = Some(unk_one), En::U2 => cf.unk = Some(unk_two), En::U3 => cf.unk = Some(unk_three), En::U4 => cf.unk = Some(unk_four), _ => {} }
    if unk { cf.enc = Some("u"); }
    let a = parse(env.rx, &cf, &d, WHOLE, &[]);
    cx.add(0, 1); cx.add(1, a.nev + 1); cx.add(2, 1); cx.outcome(&a.log);
    let what = || format!("U+{:04X} in {} as {}", c, name, en.0);
    // a lone surrogate in UTF-16: the reference lets a high one pass
    if !(matches!(en.1, En::Le | En::Be) && c & !0x7ff == 0xd800) { let b = parse(env.ex, &cf, &d, WHOLE, &[]); if a.log != b.log { cx.violation(&format!("{} reference", what()), &diff(&a.log, &b.log)); } }
    // (three letters, see the open finding: accepted or not, what is reported has to be right)
    let odd = odd3(c, en.1) && (cl == Cl::Start || cl == Cl::Name); if odd && st_err(&a.log) == (0, 4) { return; }
    let chr = within(CHAR, c) && !(en.1 == En::Ascii && c > 127) && !(unk && c > 0xffff);
    let ok = odd || chr && match cl { Cl::Char => true, Cl::Start => c < 0x10000 && within(NAME_START, c), Cl::Name => c < 0x10000 && within(NAME_CHAR, c), Cl::Pub => within(PUBID, c) };
    if char::from_u32(c).map_or(false, |x| special.contains(x)) || (c < 0x80 && !ok && (cl == Cl::Start || cl == Cl::Name)) { return; }
    let mut want: Vec<u8> = if unk { b"UNK 'u'\n".to_vec() } else { vec![] };
    let (st, err) = st_err(&a.log);
    if ok { want.extend(subst(rep, c)); want.extend_from_slice(b"END 1 0\n"); if a.log != want { cx.violation(&what(), &diff(&a.log, &want)); } }
    else { let e = if unk && en.1 == En::U1 && c > 0xffff { 18 } else if cl == Cl::Pub && chr { 32 } else { 4 }; if st != 0 || !(err == e || err == 2 && cl == Cl::Start && within(NAME_CHAR, c)) { cx.violation(&format!("{} accepted or refused otherwise", what()), &format!("error {} want {}\n{}", err, e, s(&a.log))); } }
}
/// Character references to every number: exactly the characters are accepted, and what arrives is the character.
pub fn charrefs(k: &mut Chk, env: &Env) {
    // numbers in blocks of 64; beyond the last code point, those around powers of two and multiples of 2^32
    let mut big: Vec<u128> = (0x110000u128..0x110080).collect(); for b in 21..70u32 { for d in 0..5 { big.push((1u128 << b) + d); if d > 0 { big.push((1u128 << b) - d); } } for x in [9u128, 0xa, 0x20, 0x41, 0x3c, 0xe9, 0x20ac, 0x1d11e] { big.push((1u128 << b) + x); } }
    big.sort(); big.dedup(); big.retain(|&x| x > 0x10ffff);
    let nb = (big.len() as u64 + 63) / 64; const N: u64 = 0x110000 / 64;
    k.part("charrefs", N + nb, &|cx, case| {
        let cs: Vec<u128> = if case < N { (case as u128 * 64..case as u128 * 64 + 64).collect() } else { big.iter().copied().skip((case - N) as usize * 64).take(64).collect() };
        let mut sub = 0; let mut cf = cfg(); cf.dflt = Dflt::No; cf.mask = h::ELEM | h::CDATA | h::ENTDECL;
        let ok = |c: u128| c < 0x110000 && within(CHAR, c as u32);
        let forms: [&dyn Fn(u128) -> String; 4] = [&|c| format!("&#{};", c), &|c| format!("&#x{:x};", c), &|c| format!("&#x{:X};", c), &|c| format!("&#x000{:x};", c)];
        for (fi, f) in forms.iter().enumerate() { for place in 0..4 { // content, attribute, entity value, default
            let mk = |t: &str| match place { 0 => format!("<a>{}</a>", t), 1 => format!("<a b='{}'/>", t), 2 => format!("<!DOCTYPE a [<!ENTITY e '{}'>]><a/>", t), _ => format!("<!DOCTYPE a [<!ATTLIST a b CDATA '{}'>]><a/>", t) };
            // the legal ones together
            let good: Vec<u128> = cs.iter().copied().filter(|&c| ok(c)).collect();
            if !good.is_empty() { for enc in [None, Some("UTF-16LE"), Some("iso-8859-1")] {
                let doc = mk(&good.iter().map(|&c| f(c)).collect::<String>()); let mut u = vec![]; for &c in &good { put_esc(&mut u, &wtf8(c as u32)); }
                let mut w: Vec<u8> = vec![]; match place { 0 => { w.extend_from_slice(b"S 'a'# 0 -1\nT "); w.extend(&u); w.push(b'\n'); } 1 => { w.extend_from_slice(b"S 'a' 'b'="); w.extend(&u); w.extend_from_slice(b"# 2 -1\n"); } 2 => { w.extend_from_slice(b"ENT 'e' 0 \""); w.extend(&u); w.extend_from_slice(b"\" ~ ~ ~ ~\nS 'a'# 0 -1\n"); } _ => { w.extend_from_slice(b"S 'a' 'b'="); w.extend(&u); w.extend_from_slice(b"# 0 -1\n"); } }
                w.extend_from_slice(b"E 'a'\nEND 1 0\n");
                let d = if enc == Some("UTF-16LE") { reencode(&doc, "UTF-16LE").unwrap() } else { doc.into_bytes() }; cf.enc = enc;
                sub += 1; if cx.begin(sub, place, &d) { let a = parse(env.rx, &cf, &d, WHOLE, &[]); cx.add(0, 1); cx.add(1, a.nev + 1); cx.add(2, 1); cx.outcome(&a.log); if a.log != w { cx.violation(&format!("character references from {:#x} form {} place {}", good[0], fi, place), &diff(&a.log, &w)); } }
            } }
            cf.enc = None;
            for &c in cs.iter().filter(|&&c| !ok(c)) { let doc = mk(&f(c));
                sub += 1; if cx.begin(sub, place, doc.as_bytes()) { let a = parse(env.rx, &cf, doc.as_bytes(), WHOLE, &[]); cx.add(0, 1); cx.add(1, a.nev + 1); cx.add(2, 1); cx.outcome(&a.log); if st_err(&a.log) != (0, 14) { cx.violation(&format!("reference to no character {:#x} form {} place {}", c, fi, place), &s(&a.log)); } }
            }
        } }
    });
}
pub fn c19(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C19", "exploration"); let th = env.thorough();
    // blocks of 256 code points; in the quick tier the basic plane, and the ends of blocks of 4096 beyond it
    for (ei, en) in ENS.iter().enumerate() {
        let top = match en.1 { En::L1 | En::Ascii => 1, En::U8 | En::Le | En::Be => 0x1100, En::U1 | En::U2 => 0x101, _ => if th { 0x101 } else { 0x21 } };
        k.part(en.0, top * PLACES.len() as u64, &|cx, case| {
            let (pl, b) = (case as usize % PLACES.len(), case / PLACES.len() as u64); let mut sub = 0;
            for i in 0..256u32 { let c = b as u32 * 256 + i;
                if !th && c > 0x1ffff && !(c & 0xfff < 8 || c & 0xfff > 0xff7) { continue; }
                if c < 0x80 && ei >= 5 { continue; } // single bytes below 128 have to stand for themselves
                one_char(cx, env, pl, *en, c, &mut sub);
            }
            if case % 997 == 0 { cx.sample(|| format!("U+{:04X}.. in {} as {}", b * 256, PLACES[pl].0, en.0)); }
        });
    }
    charrefs(&mut k, env);
    k.part("open-findings", 1, &|cx, _| {
        if !cx.begin(1, 1, b"") { return; } cx.add(0, 1);
        let acc = |c: &str, enc: Option<&'static str>| { let mut cf = cfg(); cf.enc = enc; let d = reencode(&format!("<{}/>", c), enc.unwrap_or("UTF-8")).unwrap(); st_err(&parse(env.rx, &cf, &d, WHOLE, &[]).log).0 == 1 };
        if ["ª", "µ", "º"].iter().any(|c| acc(c, None) != acc(c, Some("UTF-16LE")) || acc(c, None) != acc(c, Some("ISO-8859-1"))) { cx.violation("U+00AA, U+00B5 and U+00BA are letters in ISO-8859-1 and UTF-16 and none in UTF-8", ""); }
    });
    k.finish("every code point in every place and encoding, against the character classes of XML 1.0 (fourth edition) and the reference; one evaluation is one document (64 references for legal character references); distinct = distinct logs")
}

// ---------------------------------------------------------------- C18
/// Well-formed UTF-8 of XML characters (the definition, not a table): the characters, or none.
fn utf8_chars(b: &[u8]) -> Option<Vec<u32>> {
    let mut v = vec![]; let mut i = 0;
    while i < b.len() {
        let n = match b[i] { 0..=0x7f => 1, 0xc0..=0xdf => 2, 0xe0..=0xef => 3, 0xf0..=0xf7 => 4, _ => return None };
        if i + n > b.len() { return None; }
        let mut c = if n == 1 { b[i] as u32 } else { (b[i] as u32) & ((1 << (7 - n)) - 1) };
        for j in 1..n { if b[i + j] & 0xc0 != 0x80 { return None; } c = c << 6 | (b[i + j] & 63) as u32; }
        if wtf8(c).len() != n || c > 0x10ffff || !within(CHAR, c) { return None; }
        v.push(c); i += n;
    }
    Some(v)
}
const CTX: &[(&str, &[u8], &[u8], &str, &str)] = &[
    ("text", b"<a>", b"x</a>", "S 'a'# 0 -1\nT ", "x\nE 'a'\n"), ("attribute", b"<a b='", b"'/>", "S 'a' 'b'=", "# 2 -1\nE 'a'\n"), ("comment", b"<!--", b" --><a/>", "C '", " '\nS 'a'# 0 -1\nE 'a'\n"),
    ("cdata", b"<a><![CDATA[", b"x]]></a>", "S 'a'# 0 -1\nCD[\nT ", "x\n]CD\nE 'a'\n"), ("instruction", b"<?p q", b"?><a/>", "PI 'p' 'q", "'\nS 'a'# 0 -1\nE 'a'\n"), ("entity", b"<!DOCTYPE a [<!ENTITY e 'x", b"'>]><a/>", "DT[ 'a' ~ ~ 1\nENT 'e' 0 \"x", "\" ~ ~ ~ ~\n]DT\nS 'a'# 0 -1\nE 'a'\n"),
    ("system", b"<!DOCTYPE a SYSTEM 'x", b"'><a/>", "DT[ 'a' 'x", "' ~ 0\n]DT\nS 'a'# 0 -1\nE 'a'\n"),
    // names: their characters are a matter of C19, what is no character at all is one of this check
    ("element name", b"<a", b"/>", "", ""), ("start of an element name", b"<", b"b/>", "", ""), ("end tag", b"<ab></a", b"b>", "", ""), ("attribute name", b"<a b", b"c='d'/>", "", ""), ("start of an attribute name", b"<a ", b"='d'/>", "", ""), ("target", b"<?p", b" d?><a/>", "", ""), ("reference", b"<!DOCTYPE a SYSTEM 's'><a>&e", b";</a>", "", ""),
    ("entity name", b"<!DOCTYPE a [<!ENTITY e", b" 'v'>]><a/>", "", ""), ("model", b"<!DOCTYPE a [<!ELEMENT a (b", b"|c)>]><a/>", "", ""), ("token", b"<!DOCTYPE a [<!ATTLIST a b (", b"|c) #IMPLIED>]><a/>", "", ""), ("parameter entity", b"<!DOCTYPE a [<!ENTITY % x 'y'>%x", b";]><a/>", "", ""), ("notation", b"<!DOCTYPE a [<!NOTATION ", b"n SYSTEM 's'>]><a/>", "", ""), ("document type", b"<!DOCTYPE a", b"><a/>", "", "")];
fn bytes_case(cx: &mut Ctx, env: &Env, b: &[u8], ci: usize, sub: &mut u64, feeds: usize) {
    if b.iter().any(|&c| c < 0x80 && !(c.is_ascii_alphanumeric())) { return; }
    let (name, pre, post, w0, w1) = CTX[ci]; let mut d = pre.to_vec(); d.extend_from_slice(b); d.extend_from_slice(post);
    let want = utf8_chars(b); let mut cf = cfg(); cf.mask &= !h::NOTSA; cf.dflt = Dflt::No;
    for f in 0..feeds {
        *sub += 1; if !cx.begin(*sub, ci as u64, &d) { continue; }
        let cuts: Vec<usize> = if f == 1 { (1..d.len()).collect() } else { vec![] };
        let a = parse(env.rx, &cf, &d, Feed { cuts: &cuts, via: if f == 1 { Via::Buf } else { Via::Parse }, fin_empty: f == 1 }, &[]);
        cx.add(0, 1); cx.add(1, a.nev + 1); cx.add(2, 1); cx.outcome(&a.log);
        match &want { Some(_) if w0.is_empty() => { if let Some(l) = lines(&a.log).into_iter().find(|l| std::str::from_utf8(l).is_err()) { cx.violation(&format!("ill-formed string after {} in {}", esc(b), name), &esc(l)); } }
            Some(_) => { let mut w = w0.as_bytes().to_vec(); w.extend_from_slice(b); w.extend_from_slice(w1.as_bytes()); w.extend_from_slice(b"END 1 0\n"); if a.log != w { cx.violation(&format!("well-formed {} in {}{}", esc(b), name, if f == 1 { " bytewise" } else { "" }), &diff(&a.log, &w)); } }
            None => { let (st, e) = st_err(&a.log); if st != 0 || e != 4 && !(w0.is_empty() && (e == 2 || e == 6)) { cx.violation(&format!("ill-formed {} in {}{} accepted", esc(b), name, if f == 1 { " bytewise" } else { "" }), &s(&a.log)); } } }
    }
}
/// Every event's strings are well-formed UTF-8 on their own (texts not joined).
fn whole(cx: &mut Ctx, env: &Env, cf: &Cfg, d: &[u8], f: Feed, text: Option<&str>, what: &str) {
    let mut r = Run::new(env.rx, cf); r.raw = true; let p = create(&mut r);
    let st = feed(&mut r, p, d, f.cuts, f.via, f.fin_empty); finish(&mut r, p, st); free(&mut r, p);
    cx.add(0, 1); cx.add(1, r.nev + 1); cx.add(2, 1); cx.outcome(&r.log);
    let mut got = String::new();
    for l in lines(&r.log) { match std::str::from_utf8(l) { Ok(t) => if let Some(x) = t.strip_prefix("T ") { got.push_str(x) }, Err(_) => { cx.violation(&format!("part of a character {}", what), &esc(l)); return; } } }
    if let Some(t) = text { let mut w = vec![]; put_esc(&mut w, t.as_bytes()); if st != 1 || got.as_bytes() != &w[..] { cx.violation(&format!("text lost {}", what), &format!("status {} {} bytes want {}", st, got.len(), w.len())); } }
}
pub fn c18(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C18", "exploration"); let th = env.thorough();
    // every string of one to three bytes that starts with a byte beyond ASCII
    k.part("three-bytes", 128 * 256, &|cx, case| {
        let (a, b) = (128 + (case / 256) as u8, (case % 256) as u8); let mut sub = 0; let cs: &[usize] = if th { &[0, 1, 2, 3, 4, 5, 6] } else { &[0, 1] };
        if b == 0 { for c in 0..CTX.len() { bytes_case(cx, env, &[a], c, &mut sub, 2); } }
        for c in 0..CTX.len() { bytes_case(cx, env, &[a, b], c, &mut sub, 2); }
        for x in 0..=255u8 { if b < 0x80 && x < 0x80 && x != b'A' { continue; } let near = matches!(x, 0x7f..=0x82 | 0x8f..=0x91 | 0x9f..=0xa1 | 0xbd..=0xc2 | 0xdf | 0xe0 | 0xed | 0xef | 0xf0 | 0xf4..=0xff | b'A');
            for c in 0..CTX.len() { if near || cs.contains(&c) { bytes_case(cx, env, &[a, b, x], c, &mut sub, if th || near { 2 } else { 1 }); } } }
        if case % 4099 == 0 { cx.sample(|| format!("{:02x} {:02x} *", a, b)); }
    });
    let near: Vec<u8> = if th { (0x70..=0xff).collect() } else { vec![b'A', 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbd, 0xbe, 0xbf, 0xc0, 0xc2, 0xe0, 0xf4, 0xff] };
    k.part("four-bytes", 16 * 256, &|cx, case| {
        let (a, b) = (0xf0 + (case / 256) as u8, (case % 256) as u8); let mut sub = 0; if b < 0x7f { return; }
        for &c in &near { for &d in &near { for x in [0usize, 1, 3, 7, 8, 9, 11] { bytes_case(cx, env, &[a, b, c, d], x, &mut sub, if d == 0x80 { 2 } else { 1 }); } } }
    });
    // pieces of two or three sequences, whole and broken
    let seqs: Vec<&[u8]> = vec![b"\xc3\xa9", b"\xc3", b"\xe2\x82\xac", b"\xe2\x82", b"\xe2", b"\xf0\x9d\x84\x9e", b"\xf0\x9d\x84", b"\xf0\x9d", b"\xf0", b"\x80", b"A", b"\xed\x9f\xbf", b"\xed\xa0\x80", b"\xef\xbf\xbd", b"\xef\xbf\xbe", b"\xf4\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xc1\xbf", b"\xe0\x9f\xbf", b"\xf0\x8f\xbf\xbf", b"\xff", b"\xc2\x80"];
    let dep = if th { 4 } else { 3 }; let n = nseq(seqs.len() as u64, dep);
    k.part("sequences", (n + 15) / 16, &|cx, case| { let mut sub = 0; for i in case * 16..(case * 16 + 16).min(n) { let b = cat(&seqs, &seq_at(i, seqs.len() as u64)); for c in 0..CTX.len() { bytes_case(cx, env, &b, c, &mut sub, 2); } } });
    // UTF-16: every unit, followed by each kind of unit
    let kinds: [u32; 12] = [0x41, 0xe9, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdc01, 0xdfff, 0xe000, 0xfffd, 0xfffe];
    k.part("utf-16", 256 * 2, &|cx, case| {
        let le = case & 1 == 0; let mut sub = 0; let en = if le { En::Le } else { En::Be };
        for lo in 0..256u32 { let u = (case as u32 >> 1) << 8 | lo; if u < 0x80 && !(u as u8).is_ascii_alphanumeric() { continue; }
            let full = u & 0xf800 == 0xd800 || u >= 0xfff0 || th;
            for (ki, &v) in kinds.iter().enumerate() { if !full && ki > 0 && ki != (u as usize % 12) { continue; }
                for ci in 0..7 { if ci > 2 && !full { continue; }
                    let (name, pre, post, w0, w1) = CTX[ci]; let mut d = if le { vec![0xff, 0xfe] } else { vec![0xfe, 0xff] };
                    for &x in pre { put_char(&mut d, x as u32, en); } put_char(&mut d, u, en); put_char(&mut d, v, en); for &x in post { put_char(&mut d, x as u32, en); }
                    // decode the two units and the one that follows
                    let dec: Option<Vec<u32>> = { let hi = |x: u32| x & 0xfc00 == 0xd800; let lo = |x: u32| x & 0xfc00 == 0xdc00; if hi(u) && lo(v) { Some(vec![0x10000 + ((u & 0x3ff) << 10) + (v & 0x3ff)]) } else if hi(u) || lo(u) || hi(v) || lo(v) { None } else { Some(vec![u, v]) } };
                    let dec = dec.filter(|x| x.iter().all(|&c| within(CHAR, c)));
                    let mut cf = cfg(); cf.mask &= !h::NOTSA; cf.dflt = Dflt::No;
                    for f in 0..2 { if f == 1 && !full { continue; }
                        sub += 1; if !cx.begin(sub, ci as u64, &d) { continue; }
                        let cuts: Vec<usize> = if f == 1 { (1..d.len()).collect() } else { vec![] };
                        let a = parse(env.rx, &cf, &d, Feed { cuts: &cuts, via: Via::Parse, fin_empty: false }, &[]); cx.add(0, 1); cx.add(1, a.nev + 1); cx.add(2, 1); cx.outcome(&a.log);
                        match &dec { Some(x) => { let mut w = w0.as_bytes().to_vec(); for &c in x { w.extend(wtf8(c)); } w.extend_from_slice(w1.as_bytes()); w.extend_from_slice(b"END 1 0\n"); if a.log != w { cx.violation(&format!("units {:04x} {:04x} in {}", u, v, name), &diff(&a.log, &w)); } }
                            None => { let (st, e) = st_err(&a.log); if st != 0 || e != 4 { cx.violation(&format!("units {:04x} {:04x} in {} accepted", u, v, name), &s(&a.log)); } } }
                    }
                } }
        }
    });
    // whole characters at every place of the conversion buffer
    let pieces = ["é", "€", "𝄞", "aé", "\u{7ff}\u{800}", "\u{ffff}"]; let span: u64 = if th { 5000 } else { 1100 };
    k.part("buffers", span, &|cx, case| {
        let mut sub = 0; let lead = "x".repeat(case as usize);
        for pc in &pieces[..5] { for enc in ["UTF-8", "UTF-16LE", "UTF-16BE", "ISO-8859-1", "unknown"] { for place in 0..4 {
            let t = format!("{}{}", lead, pc.repeat(if place == 0 { 700 } else { 24 }));
            let doc = match place { 0 => format!("<a>{}</a>", t), 1 => format!("<a><![CDATA[{}]]></a>", t), 2 => format!("<!DOCTYPE a [<!ENTITY e '{}'>]><a>&e;</a>", t), _ => format!("<a>{}<b/><!--{}--></a>", t, t) };
            let mut cf = cfg(); cf.dflt = if place == 3 { Dflt::Expand } else { Dflt::No }; if place == 3 { cf.mask = 0; }
            let d = match enc { "UTF-8" => doc.clone().into_bytes(), "unknown" => { cf.enc = Some("u"); cf.unk = Some(unk_lat); match reencode(&doc, "ISO-8859-1") { Some(d) => d, None => continue } } "ISO-8859-1" => { cf.enc = Some("ISO-8859-1"); match reencode(&doc, enc) { Some(d) => d, None => continue } } _ => { let mut d = if enc == "UTF-16LE" { vec![0xff, 0xfe] } else { vec![0xfe, 0xff] }; d.extend(reencode(&doc, enc).unwrap()); d } };
            if enc == "unknown" { cf.mask |= h::UNK; }
            for ch in [0usize, 1024 + case as usize % 3] { sub += 1; if !cx.begin(sub, place, doc.as_bytes()) { continue; }
                let cuts: Vec<usize> = if ch == 0 { vec![] } else { (1..).map(|i| i * ch).take_while(|&i| i < d.len()).collect() };
                whole(cx, env, &cf, &d, Feed { cuts: &cuts, via: Via::Parse, fin_empty: false }, if place == 3 { None } else { Some(&t) }, &format!("{} {} after {} place {} chunk {}", pc, enc, case, place, ch)); }
        } } }
    });
    let c = docs();
    k.part("corpus", c.len() as u64, &|cx, case| {
        let d = &c[case as usize]; let mut sub = 0; let t = match std::str::from_utf8(&d.doc) { Ok(t) => t.to_string(), Err(_) => return };
        if d.cfg.ext.iter().any(|e| std::str::from_utf8(&e.1).is_err() || s(&e.1).contains("encoding")) { return; }
        for enc in ["UTF-8", "UTF-16LE", "UTF-16BE"] { for ch in [1usize, 2, 3, 5, 7, 0] { for dm in [false, true] {
            let b = if enc == "UTF-8" { t.clone().into_bytes() } else { let mut v = if enc == "UTF-16LE" { vec![0xff, 0xfe] } else { vec![0xfe, 0xff] }; v.extend(reencode(&t, enc).unwrap()); v };
            let mut cf = d.cfg.clone(); if dm { cf.mask = h::EXTREF; } 
            sub += 1; if cx.begin(sub, ch as u64, &b) { let cuts: Vec<usize> = if ch == 0 { vec![] } else { (1..).map(|i| i * ch).take_while(|&i| i < b.len()).collect() }; whole(cx, env, &cf, &b, Feed { cuts: &cuts, via: Via::Parse, fin_empty: false }, None, &format!("{} {} chunk {}", d.name, enc, ch)); }
        } } }
    });
    k.finish("every bounded string of code units in every place, against the definitions of UTF-8 and UTF-16; every position of a character relative to the conversion buffers; one evaluation is one document; distinct = distinct logs")
}
fn unk_lat(_: &mut Run, _: &[u8], e: &mut Encoding) -> i32 { for i in 0..256 { e.map[i] = i as i32; } e.convert = None; e.release = None; 1 }
