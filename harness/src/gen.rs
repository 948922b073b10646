//! Document spaces.
use crate::drv::*;

/// The `i`-th sequence over `alpha` in length-then-lexicographic order, lengths 0..=max.
pub fn nseq(k: u64, max: u32) -> u64 { (0..=max).map(|l| k.pow(l)).sum() }
pub fn seq_at(mut i: u64, k: u64) -> Vec<usize> {
    let mut l = 0u32; loop { let n = k.pow(l); if i < n { break; } i -= n; l += 1; }
    let mut v = vec![0; l as usize]; for j in (0..l as usize).rev() { v[j] = (i % k) as usize; i /= k; } v
}
pub fn cat(alpha: &[&[u8]], ix: &[usize]) -> Vec<u8> { let mut v = vec![]; for &i in ix { v.extend_from_slice(alpha[i]); } v }

#[derive(Clone)]
pub struct D { pub name: String, pub doc: Vec<u8>, pub cfg: Cfg }

/// Hand-picked documents that between them reach every construct; each is small enough for all its
/// cut positions to be enumerated.
pub fn corpus() -> Vec<D> {
    let mut v: Vec<D> = vec![];
    let mut add = |n: &str, d: &[u8], c: Cfg| v.push(D { name: n.into(), doc: d.to_vec(), cfg: c });
    let ns = || { let mut c = cfg(); c.ns = Some(b'!'); c };
    let tri = || { let mut c = ns(); c.triplet = true; c };
    let pe = |n| { let mut c = cfg(); c.pe = n; c };
    let ext = |n: i32, e: &[(&str, &str)]| { let mut c = cfg(); c.pe = n; c.ext = e.iter().map(|x| (x.0.as_bytes().to_vec(), x.1.as_bytes().to_vec())).collect(); c };
    // content
    add("empty-el", b"<a/>", cfg());
    add("nest", b"<a><b>x</b><c/>y</a>\n", cfg());
    add("text-nl", b"<a>l1\r\nl2\rl3\nl4\r</a>\r\n", cfg());
    add("cr-at-end", b"<a>\r\r\n\n\r</a>\r", cfg());
    add("refs", b"<a>&lt;&gt;&amp;&quot;&apos;&#65;&#x42;&#x20AC;&#x10FFFF;</a>", cfg());
    add("cdata", b"<a><![CDATA[x<&]]]>y]]><![CDATA[]]><![CDATA[\r\n]\r]]]></a>", cfg());
    add("cdata2", b"<a><![CDATA[]]]]><![CDATA[>]]>]]</a>", cfg());
    for (n, b) in [("rsqb-ext", "x]"), ("rsqb-ext1", "]"), ("rsqb-ext2", "<b/>]]"), ("cr-ext", "x\r"), ("rsqb-ent-ext", "é]")] { add(n, b"<!DOCTYPE a [<!ENTITY e SYSTEM 'e'>]><a>&e;</a>", ext(0, &[("e", b)])); }
    add("rsqb", b"<a>]]x] ]]</a>", cfg());
    add("rsqb-bad", b"<a>x]]></a>", cfg());
    add("comment", b"<!--c1--><a><!-- - x\r\n--></a><!----> ", cfg());
    add("comment-bad", b"<a><!-- a--b --></a>", cfg());
    add("pi", b"<?p?><a><?q  data \r\n ? x?></a><?r s?>", cfg());
    add("pi-xml", b"<a><?xml x?></a>", cfg());
    add("pi-Xml", b"<?xMl x?><a/>", cfg());
    add("utf8", "<a é=\"ß\">é€𝄞\u{fffd}</a>".as_bytes(), cfg());
    add("utf8-names", "<é.ü·><日本 本=\"語\"/></é.ü·>".as_bytes(), cfg());
    add("bad-utf8-1", b"<a>x\xff</a>", cfg());
    add("bad-utf8-2", b"<a>x\xc3</a>", cfg());
    add("bad-utf8-3", b"<a>\xed\xa0\x80</a>", cfg());
    add("bad-utf8-4", b"<a>\xf4\x90\x80\x80</a>", cfg());
    add("ffff", b"<a>\xef\xbf\xbf</a>", cfg());
    add("overlong", b"<a>\xc0\x80</a>", cfg());
    add("overlong3", b"<a>\xe0\x80\x80</a>", cfg());
    add("ctl", b"<a>\x01</a>", cfg());
    add("bom", b"\xef\xbb\xbf<a>x</a>", cfg());
    add("bom-only", b"\xef\xbb\xbf", cfg());
    add("xmldecl", b"<?xml version='1.0'?>\n<a/>", cfg());
    add("xmldecl-enc", b"<?xml version='1.0' encoding='utf-8'?><a/>", cfg());
    add("xmldecl-all", b"<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\" ?><a/>", cfg());
    add("xmldecl-sa-no", b"<?xml version='1.0' standalone='no'?><a/>", cfg());
    add("xmldecl-latin", b"<?xml version='1.0' encoding='ISO-8859-1'?><a \xe9='\xff'>\xe9\x80</a>", cfg());
    add("xmldecl-ascii", b"<?xml version='1.0' encoding='us-ascii'?><a>x\xe9</a>", cfg());
    add("xmldecl-bad", b"<?xml encoding='utf-8' version='1.0'?><a/>", cfg());
    add("xmldecl-bad2", b"<?xml version='1.0' standalone='maybe'?><a/>", cfg());
    add("xmldecl-16", b"<?xml version='1.0' encoding='utf-16'?><a/>", cfg());
    add("xmldecl-unk", b"<?xml version='1.0' encoding='nope'?><a/>", cfg());
    add("xmldecl-late", b" <?xml version='1.0'?><a/>", cfg());
    add("mismatch", b"<a><b></a></b>", cfg());
    add("unclosed", b"<a><b>", cfg());
    add("junk", b"<a/><b/>", cfg());
    add("junk-text", b"<a/>x", cfg());
    add("no-elem", b"  \n", cfg());
    add("empty", b"", cfg());
    add("lt-only", b"<", cfg());
    add("amp-only", b"<a>&</a>", cfg());
    add("trunc-tag", b"<a b='c", cfg());
    add("trunc-ref", b"<a>&am", cfg());
    add("trunc-utf8", b"<a>\xe2\x82", cfg());
    add("trunc-cdata", b"<a><![CDATA[x]]", cfg());
    add("trunc-comm", b"<a/><!-- x", cfg());
    add("endtag-sp", b"<a ></a\n>", cfg());
    add("bad-ref", b"<a>&#0;</a>", cfg());
    add("bad-ref2", b"<a>&#x110000;</a>", cfg());
    add("bad-ref3", b"<a>&#xD800;</a>", cfg());
    add("undef", b"<a>&foo;</a>", cfg());
    // attributes
    add("atts", b"<a x='1' y=\"2\" z = '3'/>", cfg());
    add("att-norm", b"<a x='a\tb\nc\r\nd\re' y='&#9;&#10;&#13; &lt;&amp;\"' z=\"'\"/>", cfg());
    add("att-dup", b"<a x='1' x='2'/>", cfg());
    add("att-lt", b"<a x='<'/>", cfg());
    add("att-nosp", b"<a x='1'y='2'/>", cfg());
    add("att-many", b"<r><a b='1' c='2' d='3' e='4' f='5' g='6' h='7' i='8' j='9'/><a b='1' c='2'/></r>", cfg());
    add("att-defaults", b"<!DOCTYPE a [<!ATTLIST a i ID #IMPLIED d CDATA ' x  y ' t NMTOKENS ' p  q ' f CDATA #FIXED 'z' r CDATA #REQUIRED e (u|v) 'v'>]><a><a i=' id1 ' t='\tm  n\n'/><a d='q' r=''/></a>", cfg());
    add("att-defaults-ent", b"<!DOCTYPE a [<!ENTITY e 'E&#38;f;'><!ENTITY f 'F'><!ATTLIST a d CDATA '<&e;>'>]><a/>", cfg());
    add("att-ent", b"<!DOCTYPE a [<!ENTITY e 'x\ny'><!ENTITY f '&e;z &#38;#60;'>]><a b='1&e;2&f;3'>&f;</a>", cfg());
    add("att-ent-ext", b"<!DOCTYPE a [<!ENTITY e SYSTEM 'e'>]><a b='&e;'/>", cfg());
    add("att-ent-rec", b"<!DOCTYPE a [<!ENTITY e '&f;'><!ENTITY f '&e;'>]><a b='&e;'/>", cfg());
    add("attlist-multi", b"<!DOCTYPE a [<!ATTLIST a x CDATA '1'><!ATTLIST a x CDATA '2' y CDATA '3'><!ATTLIST b x NOTATION (n|m) #IMPLIED><!ATTLIST c x IDREF #IMPLIED y IDREFS #IMPLIED z ENTITY #IMPLIED w ENTITIES #IMPLIED v NMTOKEN #IMPLIED>]><a/>", cfg());
    // internal entities in content
    add("ent", b"<!DOCTYPE a [<!ENTITY e 'x<b>y</b>z'>]><a>1&e;2&e;3</a>", cfg());
    add("ent-nest", b"<!DOCTYPE a [<!ENTITY e '[&f;]'><!ENTITY f '(<c/>&g;)'><!ENTITY g 'G'>]><a>&e;&f;</a>", cfg());
    add("ent-rec", b"<!DOCTYPE a [<!ENTITY e 'x&e;'>]><a>&e;</a>", cfg());
    add("ent-part", b"<!DOCTYPE a [<!ENTITY e '<b>'>]><a>&e;</b></a>", cfg());
    add("ent-part2", b"<!DOCTYPE a [<!ENTITY e '<b'>]><a>&e;></a>", cfg());
    add("ent-cdata", b"<!DOCTYPE a [<!ENTITY e '<![CDATA[x]]><?p q?><!--c-->'>]><a>&e;</a>", cfg());
    add("ent-end", b"<!DOCTYPE a [<!ENTITY e '</a>'>]><a>&e;", cfg());
    add("ent-amp", b"<!DOCTYPE a [<!ENTITY e '&#38;amp;&#x26;#38;'>]><a>&e;</a>", cfg());
    add("ent-nl", b"<!DOCTYPE a [<!ENTITY e 'p\r\nq\rr'>]><a>\n&e;\n</a>", cfg());
    add("ent-empty", b"<!DOCTYPE a [<!ENTITY e ''>]><a>&e;</a>", cfg());
    add("ent-undef-dtd", b"<!DOCTYPE a SYSTEM 'none'><a>&foo;</a>", cfg());
    add("ent-undef-pe", b"<!DOCTYPE a [<!ENTITY % p SYSTEM 'none'>%p;]><a b='&foo;'>&foo;</a>", cfg());
    add("ent-undef-sa", b"<?xml version='1.0' standalone='yes'?><!DOCTYPE a SYSTEM 'none'><a>&foo;</a>", cfg());
    add("ent-unparsed", b"<!DOCTYPE a [<!NOTATION n SYSTEM 'nn'><!ENTITY e SYSTEM 's' NDATA n>]><a>&e;</a>", cfg());
    add("ent-predef", b"<!DOCTYPE a [<!ENTITY lt '&#38;#60;'><!ENTITY amp '&#38;#38;'>]><a>&lt;&amp;</a>", cfg());
    // DTD
    add("doctype", b"<!DOCTYPE a><a/>", cfg());
    add("doctype-sys", b"<!DOCTYPE a SYSTEM 'a.dtd'><a/>", cfg());
    add("doctype-pub", b"<!DOCTYPE a PUBLIC ' -//X//  Y\n' \"a.dtd\" [ ]  ><a/>", cfg());
    add("doctype-pubbad", b"<!DOCTYPE a PUBLIC 'x{y' 'a.dtd'><a/>", cfg());
    add("el-models", b"<!DOCTYPE a [<!ELEMENT a EMPTY><!ELEMENT b ANY><!ELEMENT c (#PCDATA)><!ELEMENT d (#PCDATA|a|b)*><!ELEMENT e (a,b?,(c|d)+,e*)><!ELEMENT f ((a|b),(c,(d|e)*)?)>]><a/>", cfg());
    add("el-bad", b"<!DOCTYPE a [<!ELEMENT a (b,c|d)>]><a/>", cfg());
    add("notation", b"<!DOCTYPE a [<!NOTATION n PUBLIC 'p'><!NOTATION m PUBLIC 'p' 's'><!NOTATION o SYSTEM \"s\">]><a/>", cfg());
    add("entdecls", b"<!DOCTYPE a [<!ENTITY e 'v'><!ENTITY e 'dup'><!ENTITY s SYSTEM 's'><!ENTITY p PUBLIC 'pp' 's'><!ENTITY % q 'pv'><!ENTITY % r SYSTEM 'rs'>]><a/>", { let mut c = cfg(); c.base = Some("http://b/"); c });
    add("unparsed", b"<!DOCTYPE a [<!ENTITY u PUBLIC 'p' 's' NDATA n>]><a/>", { let mut c = cfg(); c.mask = h::ALL; c });
    add("dtd-misc", b"<!DOCTYPE a [ <!-- c --> <?p d?>\n<!ENTITY % e '<!ELEMENT x ANY>'>\t]>\n<a/>", cfg());
    add("pe-int", b"<!DOCTYPE a [<!ENTITY % e '<!ENTITY f \"F\"><!ATTLIST a b CDATA \"c\">'>%e;]><a>&f;</a>", pe(2));
    add("pe-int-nope", b"<!DOCTYPE a [<!ENTITY % e '<!ENTITY f \"F\">'>%e;]><a>&f;</a>", pe(0));
    add("pe-undef", b"<!DOCTYPE a [%u;<!ENTITY e 'x'>]><a>&e;</a>", pe(2));
    add("pe-in-decl", b"<!DOCTYPE a [<!ENTITY % e 'x'><!ENTITY f '%e;'>]><a/>", pe(2));
    add("pe-rec", b"<!DOCTYPE a [<!ENTITY % e '&#37;e;'>%e;]><a/>", pe(2));
    add("pe-nest", b"<!DOCTYPE a [<!ENTITY % i '<!ENTITY f \"F\">'><!ENTITY % o '&#37;i;<!ENTITY g \"&#38;f;\">'>%o;]><a>&g;</a>", pe(2));
    add("pe-partial", b"<!DOCTYPE a [<!ENTITY % e '<!ENTITY f'>%e; 'x'>]><a/>", pe(2));
    add("bad-dtd", b"<!DOCTYPE a [<!FOO>]><a/>", cfg());
    add("bad-dtd2", b"<!DOCTYPE a [<!ENTITY e>]><a/>", cfg());
    add("bad-dtd3", b"<!DOCTYPE a [<![INCLUDE[]]>]><a/>", cfg());
    add("dtd-trunc", b"<!DOCTYPE a [<!ENTITY e 'x'>", cfg());
    // namespaces
    add("ns", b"<a xmlns='u' xmlns:p='v' p:b='1' c='2'><p:d xmlns=''/><e/></a>", ns());
    add("ns-tri", b"<p:a xmlns:p='v' p:b='1' c='2'><p:d xmlns:q='v' q:e=''/></p:a>", tri());
    add("ns-unbound", b"<p:a/>", ns());
    add("ns-unbound-att", b"<a p:b=''/>", ns());
    add("ns-undecl", b"<a xmlns:p=''/>", ns());
    add("ns-dup", b"<a xmlns:p='u' xmlns:q='u' p:x='1' q:x='2'/>", ns());
    add("ns-xml", b"<a xml:lang='en' xmlns:xml='http://www.w3.org/XML/1998/namespace'/>", ns());
    add("ns-xmlns", b"<a xmlns:xmlns='x'/>", ns());
    add("ns-resuri", b"<a xmlns:p='http://www.w3.org/2000/xmlns/'/>", ns());
    add("ns-resuri2", b"<a xmlns:p='http://www.w3.org/XML/1998/namespace'/>", ns());
    add("ns-xmlbad", b"<a xmlns:xml='foo'/>", ns());
    add("ns-default", b"<!DOCTYPE a [<!ATTLIST a xmlns:p CDATA 'u' p:x CDATA 'y' xmlns CDATA 'd'>]><a><b/></a>", ns());
    add("ns-colons", b"<a:b:c xmlns:a='u'/>", ns());
    add("ns-nested", b"<p:a xmlns:p='1'><p:a xmlns:p='2'><p:b p:c='' xmlns:q='3' q:c=''/></p:a><p:b/></p:a>", ns());
    add("ns-longtag", b"<pp:aaaaaaaaaaaaaaaa xmlns:pp='uuuuuuuuuuuuuuuuuuuuuuuu' pp:bbbbbbbbbbbbbbb='x'></pp:aaaaaaaaaaaaaaaa>", tri());
    add("ns-ent", b"<!DOCTYPE a [<!ENTITY e '<p:b xmlns:p=\"2\"/>'>]><p:a xmlns:p='1'>&e;</p:a>", ns());
    // external entities
    add("ext", b"<!DOCTYPE a [<!ENTITY e SYSTEM 'e'>]><a>1&e;2</a>", ext(0, &[("e", "x<b>y</b>z")]));
    add("ext-decl", b"<!DOCTYPE a [<!ENTITY e SYSTEM 'e'>]><a>&e;</a>", ext(0, &[("e", "<?xml version='1.0' encoding='utf-8'?>t<b/>")]));
    add("ext-bad", b"<!DOCTYPE a [<!ENTITY e SYSTEM 'e'>]><a>&e;</a>", ext(0, &[("e", "<b>")]));
    add("ext-async", b"<!DOCTYPE a [<!ENTITY e SYSTEM 'e'>]><a>&e;</a>", ext(0, &[("e", "</a>")]));
    add("ext-textdecl-bad", b"<!DOCTYPE a [<!ENTITY e SYSTEM 'e'>]><a>&e;</a>", ext(0, &[("e", "<?xml version='1.0'?>t")]));
    add("ext-nested", b"<!DOCTYPE a [<!ENTITY e SYSTEM 'e'><!ENTITY f SYSTEM 'f'><!ENTITY i 'I&f;'>]><a>&e;&i;</a>", ext(0, &[("e", "[&f;]"), ("f", "F")]));
    add("ext-rec", b"<!DOCTYPE a [<!ENTITY e SYSTEM 'e'>]><a>&e;</a>", ext(0, &[("e", "x&e;y")]));
    add("ext-fail", b"<!DOCTYPE a [<!ENTITY e SYSTEM 'fail'>]><a>&e;</a>", ext(0, &[]));
    add("ext-empty", b"<!DOCTYPE a [<!ENTITY e SYSTEM 'e'>]><a>&e;</a>", ext(0, &[("e", "")]));
    add("ext-ns", b"<!DOCTYPE p:a [<!ENTITY e SYSTEM 'e'>]><p:a xmlns:p='u'>&e;</p:a>", { let mut c = ext(0, &[("e", "<p:b/><c xmlns='v'>t</c>")]); c.ns = Some(b'!'); c });
    add("extsub", b"<!DOCTYPE a SYSTEM 'd'><a>&e;</a>", ext(2, &[("d", "<!ENTITY e 'E'><!ATTLIST a b CDATA 'c'>")]));
    add("extsub-nope", b"<!DOCTYPE a SYSTEM 'd'><a>&e;</a>", ext(0, &[("d", "<!ENTITY e 'E'>")]));
    add("extsub-sa", b"<?xml version='1.0' standalone='yes'?><!DOCTYPE a SYSTEM 'd'><a/>", ext(1, &[("d", "<!ENTITY e 'E'>")]));
    add("extsub-both", b"<!DOCTYPE a SYSTEM 'd' [<!ENTITY e 'I'>]><a>&e;</a>", ext(2, &[("d", "<!ENTITY e 'E'><!ELEMENT a ANY>")]));
    add("extsub-cond", b"<!DOCTYPE a SYSTEM 'd'><a>&e;&f;</a>", ext(2, &[("d", "<?xml encoding='utf-8'?><!ENTITY % i 'INCLUDE'><![%i;[<!ENTITY e 'E'>]]><![IGNORE[<!ENTITY e 'X'><![x[]]>]]><![INCLUDE[<![INCLUDE[<!ENTITY f 'F'>]]>]]>")]));
    add("extsub-pe", b"<!DOCTYPE a SYSTEM 'd'><a>&f;</a>", ext(2, &[("d", "<!ENTITY % v \"'V'\"><!ENTITY f %v;><!ENTITY % m 'b'><!ELEMENT a (%m;,c)><!ENTITY % w 'w%m;'><!ENTITY g '%w;'>")]));
    add("extsub-perec", b"<!DOCTYPE a SYSTEM 'd'><a/>", ext(2, &[("d", "<!ENTITY % p '%p;'>%p;")]));
    add("ext-pe", b"<!DOCTYPE a [<!ENTITY % p SYSTEM 'p'>%p;<!ENTITY g 'G'>]><a>&f;&g;</a>", ext(2, &[("p", "<!ENTITY f 'F'>")]));
    add("ext-pe-skip", b"<!DOCTYPE a [<!ENTITY % p SYSTEM 'p'>%p;<!ENTITY g 'G'>]><a>&g;</a>", ext(0, &[("p", "<!ENTITY f 'F'>")]));
    add("ext-pe-bad", b"<!DOCTYPE a [<!ENTITY % p SYSTEM 'p'>%p;]><a/>", ext(2, &[("p", "<!ENTITY")]));
    add("foreign", b"<a>&e;</a>", { let mut c = ext(2, &[("", "<!ENTITY e 'E'>")]); c.foreign = true; c });
    add("foreign-dt", b"<!DOCTYPE a [<!ENTITY f 'F'>]><a>&e;&f;</a>", { let mut c = ext(2, &[("", "<!ENTITY e 'E'>")]); c.foreign = true; c });
    add("foreign-none", b"<a/>", { let mut c = ext(2, &[]); c.foreign = true; c });
    add("notsa", b"<!DOCTYPE a SYSTEM 'd'><a/>", { let mut c = ext(0, &[]); c.sa_ret = 0; c });
    add("notsa-pe", b"<!DOCTYPE a [<!ENTITY % p SYSTEM 'p'>%p;]><a/>", { let mut c = ext(2, &[("p", "")]); c.sa_ret = 1; c });
    v
}
/// The same document in other encodings (None when not representable).
pub fn reencode(doc: &str, enc: &str) -> Option<Vec<u8>> {
    let mut v = vec![];
    match enc {
        "UTF-8" => v.extend_from_slice(doc.as_bytes()),
        "UTF-16LE" => for u in doc.encode_utf16() { v.extend_from_slice(&u.to_le_bytes()) },
        "UTF-16BE" => for u in doc.encode_utf16() { v.extend_from_slice(&u.to_be_bytes()) },
        "ISO-8859-1" => for c in doc.chars() { if c as u32 > 255 { return None; } v.push(c as u8) },
        "US-ASCII" => for c in doc.chars() { if c as u32 > 127 { return None; } v.push(c as u8) },
        _ => return None,
    }
    Some(v)
}
/// A token family: every sequence over `alpha` up to a depth, between `pre` and `post`.
pub struct Fam { pub name: &'static str, pub pre: &'static [u8], pub post: &'static [u8], pub alpha: Vec<&'static [u8]>, pub cfgs: Vec<Cfg>, /// the sequence is the body of this external entity, and `pre` the document
    pub ext: Option<&'static str> }
impl Fam {
    pub fn n(&self, depth: u32) -> u64 { nseq(self.alpha.len() as u64, depth) }
    pub fn body(&self, i: u64) -> Vec<u8> { cat(&self.alpha, &seq_at(i, self.alpha.len() as u64)) }
    /// The document and configuration number `ci` of sequence `i`.
    pub fn case(&self, i: u64, ci: usize) -> (Vec<u8>, Cfg) {
        let mut c = self.cfgs[ci].clone();
        match self.ext {
            None => { let mut d = self.pre.to_vec(); d.extend(self.body(i)); d.extend_from_slice(self.post); (d, c) }
            Some(s) => { c.ext.push((s.as_bytes().to_vec(), self.body(i))); (self.pre.to_vec(), c) }
        }
    }
}
/// The deepest depth at which the family has at most `max` sequences.
pub fn depth_for(f: &Fam, max: u64) -> u32 { let mut d = 1; while f.n(d + 1) * f.cfgs.len() as u64 <= max && d < 12 { d += 1; } d }
pub fn families() -> Vec<Fam> {
    let b = |x: &'static str| x.as_bytes();
    let mut v: Vec<Fam> = vec![];
    let ns = { let mut c = cfg(); c.ns = Some(b'!'); c };
    v.push(Fam { name: "bytes-content", pre: b"<a>", post: b"</a>", alpha: ["<", ">", "/", "&", ";", "a", "!", "[", "]", "-", "?", "#", "\r", "'", "=", "é"].iter().map(|x| b(x)).collect(), cfgs: vec![cfg()], ext: None });
    v.push(Fam { name: "bytes-start", pre: b"", post: b"", alpha: ["<", ">", "/", "&", ";", "a", "!", "[", "]", "-", "?", " ", "\n", "'", "=", "\u{feff}", ":"].iter().map(|x| b(x)).collect(), cfgs: vec![cfg(), ns.clone()], ext: None });
    v.push(Fam { name: "tok-content", pre: b"<a>", post: b"", alpha: ["<b>", "</b>", "<b/>", "x", "&lt;", "&#10;", "<![CDATA[", "]]>", "<!--", "-->", "<?p ", "?>", "</a>", "\r\n", "<b c='", "'", ">"].iter().map(|x| b(x)).collect(), cfgs: vec![cfg()], ext: None });
    v.push(Fam { name: "tok-attr", pre: b"<a", post: b">", alpha: [" ", "b", "c", "=", "'", "\"", "x", "&lt;", "&#9;", "\r\n", "<", "/", "&e;", ":", "xmlns", "1"].iter().map(|x| b(x)).collect(), cfgs: vec![cfg(), ns.clone()], ext: None });
    v.push(Fam { name: "tok-dtd", pre: b"<!DOCTYPE a [", post: b"]><a/>", alpha: ["<!ELEMENT ", "a", " ", "(", ")", "|", ",", "*", "?", "+", "#PCDATA", "EMPTY", "ANY", ">", "%e;"].iter().map(|x| b(x)).collect(), cfgs: vec![cfg()], ext: None });
    v.push(Fam { name: "tok-elem", pre: b"<!DOCTYPE a [<!ELEMENT a ", post: b">]><a/>", alpha: ["a", " ", "(", ")", "|", ",", "*", "?", "+", "#PCDATA", "EMPTY", "ANY"].iter().map(|x| b(x)).collect(), cfgs: vec![cfg()], ext: None });
    v.push(Fam { name: "tok-attl", pre: b"<!DOCTYPE a [<!ATTLIST a", post: b">]><a b='x'/>", alpha: [" ", "b", "CDATA", "ID", "NMTOKENS", "(", ")", "|", "#IMPLIED", "#FIXED", "#REQUIRED", "'v'", "NOTATION", " b CDATA"].iter().map(|x| b(x)).collect(), cfgs: vec![cfg()], ext: None });
    v.push(Fam { name: "tok-ent", pre: b"<!DOCTYPE a [<!ENTITY ", post: b">]><a>&e;</a>", alpha: ["e", " ", "% ", "'", "\"", "x", "SYSTEM", "PUBLIC", "NDATA", "&e;", "%p;", "&#38;", "<b>", "'v'", "&lt;"].iter().map(|x| b(x)).collect(), cfgs: vec![cfg()], ext: None });
    v.push(Fam { name: "tok-doct", pre: b"<!DOCTYPE", post: b"<a>&u;</a>", alpha: [" ", "a", "SYSTEM", "PUBLIC", "'s'", "[", "]", ">", "<!--c-->", "<?p?>", "%p;", "<!ENTITY e 'v'>", "<!NOTATION n SYSTEM 'x'>", "<![", ":"].iter().map(|x| b(x)).collect(), cfgs: vec![cfg()], ext: None });
    v.push(Fam { name: "tok-decl", pre: b"<?xml", post: b"?><a/>", alpha: [" ", "version", "encoding", "standalone", "=", "'1.0'", "\"1.0\"", "'utf-8'", "'yes'", "'no'", "''", "\n", "x", "?"].iter().map(|x| b(x)).collect(), cfgs: vec![cfg()], ext: None });
    v.push(Fam { name: "tok-ns", pre: b"<", post: b"/>", alpha: ["a", "p:a", " xmlns='u'", " xmlns:p='u'", " xmlns:q='u'", " p:x='1'", " q:x='2'", " x='3'", " xmlns=''", " xmlns:p=''", " xml:l='x'", " xmlns:xml='u'", "><p:b", "></p:b>"].iter().map(|x| b(x)).collect(), cfgs: vec![ns.clone(), { let mut c = ns.clone(); c.triplet = true; c }], ext: None });
    let toks = |l: &[&'static str]| -> Vec<&'static [u8]> { l.iter().map(|x| x.as_bytes()).collect() };
    v.push(Fam { name: "tok-refs", pre: b"<!DOCTYPE a [<!ENTITY e 'x'><!ENTITY m '<b>y</b>'><!ENTITY o '<b>'><!ENTITY n '&e;&m;'><!ENTITY r '&r;'><!ENTITY s SYSTEM 's'><!ENTITY c '<![CDATA[q]]>'><!ENTITY g '&#38;#60;&#60;g/>'>]><a>", post: b"</a>",
        alpha: toks(&["&e;", "&m;", "&o;", "&n;", "&r;", "&s;", "&c;", "&u;", "&g;", "</b>", "<b>", "t", "<b x='&e;&e;'/>", "<b x='&m;'/>", "<b x='&r;'/>", "<b x='&s;'/>", "</a>"]),
        cfgs: vec![{ let mut c = cfg(); c.ext = vec![(b"s".to_vec(), b"<?xml encoding='utf-8'?>S<b/>&e;".to_vec())]; c }, { let mut c = cfg(); c.dflt = Dflt::Default; c }], ext: None });
    v.push(Fam { name: "tok-extsub", pre: b"<!DOCTYPE a SYSTEM 'd'><a>&e;</a>", post: b"", alpha: toks(&["<![", "INCLUDE", "IGNORE", "[", "]]>", "%p;", "<!ENTITY e '", "'>", "x", " ", "<!ENTITY % p 'INCLUDE'>", "<!ELEMENT a ", "ANY>", "<!--c-->", "<!ATTLIST a b CDATA "]), cfgs: vec![{ let mut c = cfg(); c.pe = 2; c }], ext: Some("d") });
    v.push(Fam { name: "tok-textdecl", pre: b"<!DOCTYPE a [<!ENTITY e SYSTEM 'd'>]><a>1&e;2</a>", post: b"", alpha: toks(&["<?xml encoding='utf-8'?>", "<?xml", " version='1.0'", " encoding='utf-8'", " standalone='yes'", "?>", "x", "<b/>", "\u{feff}", "<b>", "</b>", "&e;", "<!DOCTYPE a>", "<![CDATA[z]]>", "\r", "\n"]), cfgs: vec![cfg()], ext: Some("d") });
    v.push(Fam { name: "tok-pe", pre: b"<!DOCTYPE a [", post: b"]><a>&e;</a>", alpha: toks(&["<!ENTITY % p '", "<!ENTITY e 'v'>", "%p;", "%q;", "'>", "&#37;", "<!ENTITY % q SYSTEM 'q'>", ">", "<!ELEMENT a ", "ANY", "\"", "<!ENTITY e \"w\">", " ", "<!-- -->"]),
        cfgs: vec![{ let mut c = cfg(); c.pe = 2; c.ext = vec![(b"q".to_vec(), b"<!ENTITY e 'E'>".to_vec())]; c }, { let mut c = cfg(); c.pe = 0; c }], ext: None });
    v.push(Fam { name: "tok-attdef", pre: b"<!DOCTYPE a [<!ATTLIST a i ID #IMPLIED t NMTOKENS 'p  q' d CDATA 'D' f CDATA #FIXED 'F' xmlns:n CDATA 'N' n:y CDATA 'Y'><!ATTLIST b d CDATA 'B'>]><r><a", post: b"/></r>", alpha: toks(&[" i=' x  y '", " t=' m  n '", " d='z\n'", " f=''", " e='1'", " n:x='2'", " n:y='3'", "/><a", "/><b", " xmlns:n='M'", " xmlns='O'", " q:z='4'", " xmlns:q='N'", " q:y='5'"]),
        cfgs: vec![cfg(), ns.clone(), { let mut c = ns.clone(); c.triplet = true; c }], ext: None });
    v.push(Fam { name: "units16", pre: b"\xff\xfe<\0a\0>\0", post: b"<\0/\0a\0>\0", alpha: vec![b"<\0", b">\0", b"/\0", b"b\0", b"&\0", b";\0", b"\r\0", b"]\0", b"\x34\xd8", b"\x1e\xdd", b"\xff\xff", b"\x00\x30", b"x", b"!\0", b"\xe9\0"], cfgs: vec![cfg()], ext: None });
    v.push(Fam { name: "units16be", pre: b"\xfe\xff\0<\0a\0>", post: b"\0<\0/\0a\0>", alpha: vec![b"\0<", b"\0>", b"\0/", b"\0b", b"\0&", b"\0;", b"\0\r", b"\0'", b"\0=", b"\0 ", b"\xd8\x34", b"\xdd\x1e", b"\xff\xfe", b"\x4e\x00", b"x"], cfgs: vec![cfg()], ext: None });
    v.push(Fam { name: "bytes-utf8", pre: b"<a>", post: b"</a>", alpha: vec![b"\x7f", b"\x80", b"\x9f", b"\xa0", b"\xbf", b"\xc2", b"\xdf", b"\xe0", b"\xed", b"\xef", b"\xf0", b"\xf4", b"\xf5", b"<", b"\x90"], cfgs: vec![cfg()], ext: None });
    v
}

/// Documents of one shape and a size parameter, to be swept over the library's internal size thresholds.
pub fn shapes() -> Vec<(&'static str, fn(usize) -> D)> {
    fn d(name: &str, doc: Vec<u8>, cfg: Cfg) -> D { D { name: name.into(), doc, cfg } }
    fn x(c: char, n: usize) -> String { c.to_string().repeat(n) }
    fn nscfg() -> Cfg { let mut c = cfg(); c.ns = Some(b'!'); c }
    let mut v: Vec<(&'static str, fn(usize) -> D)> = vec![];
    v.push(("text", |n| d("text", format!("<a>{}</a>", x('t', n)).into_bytes(), cfg())));
    v.push(("text2", |n| d("text2", format!("<a>{}</a>", x('é', n)).into_bytes(), cfg())));
    v.push(("text3", |n| d("text3", format!("<a>x{}</a>", x('€', n)).into_bytes(), cfg())));
    v.push(("text4", |n| d("text4", format!("<a>{}y</a>", x('𝄞', n)).into_bytes(), cfg())));
    v.push(("latin", |n| { let mut b = b"<?xml version='1.0' encoding='iso-8859-1'?><a b='".to_vec(); b.extend(vec![0xe9u8; n]); b.extend_from_slice(b"'>"); b.extend(vec![0xe8u8; n]); b.extend_from_slice(b"<!--"); b.extend(vec![0xffu8; n]); b.extend_from_slice(b"--></a>"); d("latin", b, cfg()) }));
    v.push(("utf16", |n| { let s = format!("\u{feff}<a b='{}'>{}<c{}/></a>", x('é', n), x('𝄞', n), x('d', n)); d("utf16", s.encode_utf16().flat_map(|u| u.to_le_bytes().to_vec()).collect(), cfg()) }));
    v.push(("lines", |n| d("lines", format!("<a>{}</a>", "l\r\n".repeat(n)).into_bytes(), cfg())));
    v.push(("name", |n| { let s = x('n', n); d("name", format!("<a{}><b{}/></a{}>", s, s, s).into_bytes(), cfg()) }));
    v.push(("uname", |n| { let s = x('é', n); d("uname", format!("<a{}><{}b/></a{}>", s, s, s).into_bytes(), cfg()) }));
    v.push(("attval", |n| d("attval", format!("<a b='{}' c='d'/>", x('v', n)).into_bytes(), cfg())));
    v.push(("attref", |n| d("attref", format!("<a b='{}' c='d'/>", "&lt;\n".repeat(n)).into_bytes(), cfg())));
    v.push(("attname", |n| d("attname", format!("<a {}='v' z='w'/>", x('b', n + 1)).into_bytes(), cfg())));
    v.push(("atts", |n| d("atts", format!("<r><a{}/><b x='y'/></r>", (0..n).map(|i| format!(" a{}='{}'", i, i)).collect::<String>()).into_bytes(), cfg())));
    v.push(("attdup", |n| d("attdup", format!("<a{} a{}='z'/>", (0..=n).map(|i| format!(" a{}='{}'", i, i)).collect::<String>(), n).into_bytes(), cfg())));
    v.push(("nsatts", |n| d("nsatts", format!("<a xmlns:p='u' xmlns:q='v'{}/>", (0..n).map(|i| format!(" {}:a{}='{}'", if i % 2 == 0 { "p" } else { "q" }, i / 2, i)).collect::<String>()).into_bytes(), nscfg())));
    v.push(("nsattdup", |n| d("nsattdup", format!("<a xmlns:p='u' xmlns:q='u'{} q:a{}='z'/>", (0..=n).map(|i| format!(" p:a{}='{}'", i, i)).collect::<String>(), n).into_bytes(), nscfg())));
    v.push(("nsdecls", |n| d("nsdecls", format!("<a{}><p{}:b xmlns='z'/></a>", (0..=n).map(|i| format!(" xmlns:p{}='u{}'", i, i)).collect::<String>(), n).into_bytes(), nscfg())));
    v.push(("nsuri", |n| d("nsuri", format!("<p:a xmlns:p='{}' p:b='c'><p:d/><e xmlns='{}'/></p:a>", x('u', n + 1), x('w', n)).into_bytes(), nscfg())));
    v.push(("nstri", |n| d("nstri", format!("<{p}:a xmlns:{p}='u' {p}:{p}='c'><{p}:d></{p}:d></{p}:a>", p = x('p', n + 1)).into_bytes(), { let mut c = nscfg(); c.triplet = true; c })));
    v.push(("nest", |n| d("nest", format!("<r>{}x{}</r>", "<e>".repeat(n), "</e>".repeat(n)).into_bytes(), cfg())));
    v.push(("nest2", |n| { let a: String = (0..n).map(|i| format!("<e{}>", i)).collect(); let b: String = (0..n).rev().map(|i| format!("</e{}>", i)).collect(); d("nest2", format!("<r>{}x{}</r>", a, b).into_bytes(), cfg()) }));
    v.push(("comment", |n| d("comment", format!("<a><!--{}--></a>", x('c', n)).into_bytes(), cfg())));
    v.push(("pi", |n| d("pi", format!("<a><?p{} {}?></a>", x('t', n), x('d', n)).into_bytes(), cfg())));
    v.push(("cdsect", |n| d("cdsect", format!("<a><![CDATA[{}]]>{}</a>", x('c', n), x(']', n)).into_bytes(), cfg())));
    v.push(("space", |n| d("space", format!("{}<a{} b = 'c'{}/>{}", x('\n', n), x(' ', n), x('\t', n), x(' ', n)).into_bytes(), cfg())));
    v.push(("enttext", |n| d("enttext", format!("<!DOCTYPE a [<!ENTITY e '{}'>]><a b='&e;'>&e;</a>", x('t', n)).into_bytes(), cfg())));
    v.push(("entmark", |n| d("entmark", format!("<!DOCTYPE a [<!ENTITY e '{}'>]><a>&e;&e;</a>", "<b/>\r\n".repeat(n)).into_bytes(), cfg())));
    v.push(("entname", |n| { let s = x('e', n + 1); d("entname", format!("<!DOCTYPE a [<!ENTITY {} 'v'>]><a b='&{};'>&{};</a>", s, s, s).into_bytes(), cfg()) }));
    v.push(("entmany", |n| { let s: String = (0..n).map(|i| format!("<!ENTITY e{} '{}'>", i, i)).collect(); let r: String = (0..n).map(|i| format!("&e{};", i)).collect(); d("entmany", format!("<!DOCTYPE a [{}]><a>{}</a>", s, r).into_bytes(), cfg()) }));
    v.push(("entchain", |n| { let n = n.min(200); let s: String = (0..n).map(|i| format!("<!ENTITY e{} '&e{};.'>", i + 1, i)).collect(); d("entchain", format!("<!DOCTYPE a [<!ENTITY e0 'x'>{}]><a b='&e{};'>&e{};</a>", s, n, n).into_bytes(), cfg()) }));
    v.push(("charrefs", |n| d("charrefs", format!("<a b='{}'>{}</a>", "&#xe9;".repeat(n), "&#x20AC;".repeat(n)).into_bytes(), cfg())));
    v.push(("doctype", |n| d("doctype", format!("<!DOCTYPE a PUBLIC '{}' '{}'><a/>", x('p', n), x('s', n)).into_bytes(), cfg())));
    v.push(("doctname", |n| d("doctname", format!("<!DOCTYPE {} SYSTEM 's' []><a/>", x('p', n + 1)).into_bytes(), cfg())));
    v.push(("notations", |n| d("notations", format!("<!DOCTYPE a [{}]><a/>", (0..n).map(|i| format!("<!NOTATION n{} SYSTEM 's{}'>", i, i)).collect::<String>()).into_bytes(), cfg())));
    v.push(("elchoice", |n| d("elchoice", format!("<!DOCTYPE a [<!ELEMENT a (b{})*>]><a/>", (0..n).map(|i| format!("|b{}", i)).collect::<String>()).into_bytes(), cfg())));
    v.push(("elseq", |n| d("elseq", format!("<!DOCTYPE a [<!ELEMENT a (b{})>]><a/>", (0..n).map(|i| format!(",(c{}?|d)+", i)).collect::<String>()).into_bytes(), cfg())));
    v.push(("elnest", |n| d("elnest", format!("<!DOCTYPE a [<!ELEMENT a {}b{}>]><a/>", x('(', n + 1), x(')', n + 1)).into_bytes(), cfg())));
    v.push(("elmixed", |n| d("elmixed", format!("<!DOCTYPE a [<!ELEMENT a (#PCDATA{})*>]><a/>", (0..n).map(|i| format!("|m{}", i)).collect::<String>()).into_bytes(), cfg())));
    v.push(("attdecls", |n| d("attdecls", format!("<!DOCTYPE a [<!ATTLIST a{}>]><a x{}='s'/>", (0..n).map(|i| format!(" x{} CDATA 'd{}'", i, i)).collect::<String>(), n / 2).into_bytes(), cfg())));
    v.push(("attenum", |n| d("attenum", format!("<!DOCTYPE a [<!ATTLIST a x (v{}) 'v' y NOTATION (w{}) #IMPLIED>]><a/>", (0..n).map(|i| format!("|v{}", i)).collect::<String>(), (0..n).map(|i| format!("|w{}", i)).collect::<String>()).into_bytes(), cfg())));
    v.push(("attdef", |n| d("attdef", format!("<!DOCTYPE a [<!ATTLIST a x CDATA '{}' y NMTOKENS ' {}'>]><a/>", x('v', n), "t  ".repeat(n)).into_bytes(), cfg())));
    v.push(("eltypes", |n| d("eltypes", format!("<!DOCTYPE a [{}]><a><e{}/></a>", (0..n).map(|i| format!("<!ATTLIST e{} k CDATA 'v{}'>", i, i)).collect::<String>(), n / 2).into_bytes(), cfg())));
    v.push(("peval", |n| d("peval", format!("<!DOCTYPE a [<!ENTITY % p '<!ENTITY e \"{}\">'>%p;]><a>&e;</a>", x('t', n)).into_bytes(), { let mut c = cfg(); c.pe = 2; c })));
    v.push(("extsub", |n| d("extsub", b"<!DOCTYPE a SYSTEM 'd'><a>&e;</a>".to_vec(), { let mut c = cfg(); c.pe = 2; c.ext = vec![(b"d".to_vec(), format!("<!ENTITY % v '{}'><!ENTITY e '%v;{}'><![IGNORE[{}]]><!ATTLIST a {} CDATA '{}'>", x('v', n), x('w', n), x('i', n), x('z', n + 1), x('y', n)).into_bytes())]; c })));
    v.push(("exttext", |n| d("exttext", b"<!DOCTYPE a [<!ENTITY e SYSTEM 'e'>]><a>&e;</a>".to_vec(), { let mut c = cfg(); c.ext = vec![(b"e".to_vec(), format!("{}<b>{}</b>", x('t', n), x('é', n)).into_bytes())]; c })));
    v.push(("extctx", |n| d("extctx", format!("<!DOCTYPE a [<!ENTITY e SYSTEM 'e'>]><a{}>&e;</a>", (0..n).map(|i| format!(" xmlns:p{}='u{}'", i, i)).collect::<String>()).into_bytes(), { let mut c = nscfg(); c.ext = vec![(b"e".to_vec(), if n > 0 { format!("<p{}:b/>", n - 1) } else { "<b/>".into() }.into_bytes())]; c })));
    v.push(("xmldecl", |n| d("xmldecl", format!("<?xml{}version='1.0'{} encoding='utf-8'{}?><a/>", x(' ', n + 1), x(' ', n), x(' ', n)).into_bytes(), cfg())));
    v.push(("base", |n| d("base", format!("<!DOCTYPE a [<!ENTITY e SYSTEM '{}'><!NOTATION n SYSTEM '{}'>]><a>&e;</a>", x('s', n), x('n', n)).into_bytes(), { let mut c = cfg(); c.base = Some("http://some/base"); c })));
    v
}
/// Sizes around every power of two up to `max`, and every size up to `dense`.
pub fn sizes(dense: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=dense).collect(); let mut p = 16;
    while p <= max { for k in [p - 3, p - 2, p - 1, p, p + 1, p + 2, p + 3, p * 3 / 2] { if k > dense && k <= max + 3 { v.push(k) } } p *= 2; }
    v.sort(); v.dedup(); v
}
/// The documents at edit distance one: byte substituted, inserted, deleted, two swapped, cut off, a run doubled.
pub const EDIT: &[u8] = b"<>&;/!?-[]()|,*+#%'\"= \r\nax:0\x00\x01\xc3\xa9\xff";
pub fn nedits(n: usize) -> usize { let k = EDIT.len(); n * k + (n + 1) * k + n + n.saturating_sub(1) + n + n }
pub fn edit(d: &[u8], mut i: usize) -> Vec<u8> {
    let (n, k) = (d.len(), EDIT.len()); let mut v = d.to_vec();
    if i < n * k { v[i / k] = EDIT[i % k]; return v; } i -= n * k;
    if i < (n + 1) * k { v.insert(i / k, EDIT[i % k]); return v; } i -= (n + 1) * k;
    if i < n { v.remove(i); return v; } i -= n;
    if i < n.saturating_sub(1) { v.swap(i, i + 1); return v; } i -= n.saturating_sub(1);
    if i < n { v.truncate(i); return v; } i -= n;
    let run = 1 + i % 7; let e = (i + run).min(n); let r = d[i..e].to_vec(); for (j, b) in r.into_iter().enumerate() { v.insert(e + j, b); } v
}
/// Token boundaries: where markup starts or ends.
pub fn bounds(d: &[u8]) -> Vec<usize> { let mut v = vec![0]; for i in 1..d.len() { if matches!(d[i], b'<' | b'&' | b']' | b' ' | b'\'' | b'"' | b'[' | b'%') || matches!(d[i - 1], b'>' | b';' | b'[' | b'\'' | b'"' | b'=') { v.push(i); } } v.push(d.len()); v.dedup(); v }
/// The same document with other sets of handlers, in other encodings, with namespace processing.
pub fn variants(d: &D) -> Vec<D> {
    let mut v = vec![]; let mut add = |n: &str, f: &dyn Fn(&mut D)| { let mut e = d.clone(); e.name = format!("{}/{}", d.name, n); f(&mut e); v.push(e); };
    add("no-default", &|e| e.cfg.dflt = Dflt::No);
    add("plain-default", &|e| e.cfg.dflt = Dflt::Default);
    add("only-default", &|e| { e.cfg.mask = h::EXTREF; });
    add("only-plain-default", &|e| { e.cfg.mask = h::EXTREF; e.cfg.dflt = Dflt::Default; });
    add("passed-on", &|e| { e.cfg.default_current = true; e.cfg.dc_all = true; });
    add("no-end", &|e| { e.cfg.mask |= h::NO_END | h::NO_ECD | h::NO_EDT | h::NO_ENS; });
    add("no-start", &|e| { e.cfg.mask |= h::NO_START | h::NO_SCD | h::NO_SDT | h::NO_SNS; });
    add("no-text", &|e| { e.cfg.mask &= !(h::CDATA | h::CDSECT | h::NOTSA | h::DOCTYPE); e.cfg.mask |= h::UNPARSED; });
    if d.cfg.ns.is_none() { add("ns", &|e| { e.cfg.ns = Some(b'!'); }); } else { add("tri", &|e| e.cfg.triplet = !e.cfg.triplet); }
    if d.cfg.enc.is_none() { if let Ok(t) = std::str::from_utf8(&d.doc) { for en in ["UTF-16LE", "UTF-16BE"] { if let Some(b) = reencode(t, en) { let mut m = if en == "UTF-16LE" { vec![0xff, 0xfe] } else { vec![0xfe, 0xff] }; m.extend(b);
        add(en, &|e| { e.doc = m.clone(); for x in e.cfg.ext.iter_mut() { if let Some(b) = std::str::from_utf8(&x.1).ok().and_then(|t| reencode(t, en)) { let mut y = m[..2].to_vec(); y.extend(b); x.1 = y; } } }); } } } }
    v
}
