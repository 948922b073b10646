//! The grammar of the event stream (C22): an automaton that every log has to be accepted by.
use crate::chk::*; use crate::drv::*; use crate::gen::*; use crate::p_ref::*; use crate::pool::*; use crate::util::*; use crate::*;

#[derive(Default)]
struct Lvl { stack: Vec<Vec<u8>>, root: bool, in_dt: bool, dt: bool, cd: bool, xd: bool, any: bool, content: bool, ns: Vec<Vec<u8>>, nsopen: Vec<Vec<Vec<u8>>>, nsend: Vec<Vec<u8>>, dtd: bool, unk: u32 }
/// None, or what is wrong with the order of the events.  `cf` tells which handlers were set.
pub fn grammar(log: &[u8], cf: &Cfg, st: &mut dyn FnMut(&[u8])) -> Option<String> {
    let mut v: Vec<Lvl> = vec![Lvl::default()]; let mut pending: Option<bool> = None; // an external entity may follow; is it DTD text?
    let ls = lines(log); let mask = cf.mask;
    for (i, l) in ls.iter().enumerate() {
        let d = l.len() - bare(l).len(); let x = bare(l); let x = if cf.pos && !x.starts_with(b"END") && !x.starts_with(b"XEND") { split_pos(l, true).1 } else { x };
        let tag = x.split(|&c| c == b' ').next().unwrap(); let rest = &x[(tag.len() + 1).min(x.len())..];
        let bad = |t: &str| Some(format!("line {}: {} ({})", i + 1, t, s(l)));
        if d + 1 > v.len() { if d != v.len() { return bad("two levels at once"); } match pending { None => return bad("an external entity's events without its reference"), Some(dtd) => v.push(Lvl { dtd, content: !dtd, ..Default::default() }) } }
        if d + 1 < v.len() { return bad("an external entity's events end without its end"); }
        pending = None;
        let k = v.len(); let c = v.last_mut().unwrap();
        st(&[&[d as u8, c.in_dt as u8, c.dt as u8, c.root as u8, c.cd as u8, c.stack.len().min(9) as u8, c.ns.len().min(9) as u8, c.nsend.len().min(9) as u8][..], tag].concat());
        let inside = !c.stack.is_empty() || c.content; // character data may occur
        if !c.nsend.is_empty() && tag != b"NS-" && tag != b"END" && tag != b"XEND" { return bad("bindings of the closed element are not withdrawn"); }
        if !c.ns.is_empty() && !matches!(tag, b"NS+" | b"NS-" | b"S" | b"END" | b"XEND") { return bad("something between a namespace declaration and its element"); }
        let prolog_only = |c: &Lvl| c.dtd || c.in_dt;
        match tag {
            b"XD" => { if c.any { return bad("XML declaration not first"); } if c.xd { return bad("second XML declaration"); } c.xd = true; }
            b"UNK" => { c.unk += 1; if c.unk > 1 { return bad("encoding asked for twice"); } if c.any && !c.xd { return bad("encoding asked for late"); } }
            b"DT[" => { if k > 1 || c.dt || c.in_dt || c.root { return bad("document type declaration out of place"); } c.in_dt = true; if mask & h::NO_EDT != 0 { c.in_dt = false; c.dt = true; } }
            b"]DT" => { if !c.in_dt { return bad("end of no document type declaration"); } c.in_dt = false; c.dt = true; }
            b"EL" | b"ATT" | b"ENT" | b"NOT" | b"UNP" => { if !prolog_only(c) { return bad("declaration outside of the DTD"); }
                if tag == b"ATT" && rest.is_empty() { return bad("empty"); } }
            b"NOTSA" => { if c.root { return bad("not-standalone after the prolog"); } }
            b"EXT" => { pending = Some(!inside); if c.cd { return bad("entity in a CDATA section"); } if !inside && c.root { return bad("entity after the document element"); } }
            b"SKIP" => { if c.cd { return bad("entity in a CDATA section"); } if !inside && c.root && !c.stack.is_empty() { return bad("skipped entity out of place"); } }
            b"C" | b"PI" => { if c.cd { return bad("markup in a CDATA section"); } }
            b"D" => {}
            b"T" => { if !inside || c.in_dt { return bad("character data outside of the document element"); } if rest.is_empty() { return bad("empty character data"); } }
            b"CD[" => { if !inside || c.cd { return bad("CDATA section out of place"); } c.cd = true; }
            b"]CD" => { if !c.cd { return bad("end of no CDATA section"); } c.cd = false; }
            b"NS+" => { if c.cd || c.in_dt || (!inside && c.root) { return bad("namespace declaration out of place"); } let p = rest.split(|&c| c == b' ').next().unwrap(); c.ns.push(p.to_vec()); }
            b"NS-" => { let p = rest.to_vec();
                // a start tag in error withdraws what it declared
                if !c.nsend.is_empty() { if c.nsend.pop() != Some(p) { return bad("binding withdrawn out of order"); } }
                else if c.ns.pop() != Some(p) { return bad("binding withdrawn that was not declared"); }
                else if !ls[i + 1..].iter().all(|l| matches!(split_pos(l, cf.pos).1.split(|&c| c == b' ').next().unwrap(), b"NS-" | b"END" | b"XEND" | b"E") || true) { return bad("goes on"); } }
            b"S" => {
                if c.cd || c.in_dt || c.dtd || (!inside && c.root) { return bad("element out of place"); }
                c.root = true;
                // attributes: ` 'name'=value` ... `# specified id`
                let h = match rest.iter().rposition(|&c| c == b'#') { Some(h) => h, None => return bad("no counts") };
                let nums: Vec<i64> = rest[h + 1..].split(|&c| c == b' ').filter(|x| !x.is_empty()).map(|x| s(x).parse().unwrap_or(-99)).collect();
                if nums.len() != 2 || nums[0] < 0 || nums[0] % 2 != 0 || nums[1] < -1 || (nums[1] >= 0 && nums[1] % 2 != 0) { return bad("attribute counts"); }
                c.stack.push(rest.to_vec()); let n = std::mem::take(&mut c.ns); c.nsopen.push(n);
                if mask & h::NO_END != 0 { c.stack.pop(); }
            }
            b"E" => { if c.cd { return bad("element ends in a CDATA section"); } match c.stack.pop() { None => return bad("end of no element"), Some(m) => if !m.starts_with(rest) || !matches!(m.get(rest.len()), Some(b' ') | Some(b'#')) { return bad("end of another element"); } } c.nsend = c.nsopen.pop().unwrap_or_default(); }
            b"XEND" => {
                if k == 1 { return bad("end of no external entity"); }
                if x.starts_with(b"XEND 1") { if !c.stack.is_empty() || c.cd || c.in_dt || !c.ns.is_empty() || !c.nsend.is_empty() { return bad("external entity accepted with something open"); } }
                v.pop(); continue;
            }
            b"END" => {
                if i + 1 != ls.len() || k != 1 { return bad("end"); }
                if x.starts_with(b"END 1") { if !c.stack.is_empty() || !c.root || c.cd || c.in_dt || !c.ns.is_empty() || !c.nsend.is_empty() { return bad("accepted with something open or no element"); } }
            }
            _ => return bad("unknown event"),
        }
        let c = match v.last_mut() { Some(c) => c, None => continue }; if tag != b"UNK" { c.any = true; }
    }
    if !ls.last().map_or(false, |l| l.starts_with(b"END")) { return Some("no end".into()); }
    None
}
fn gjudge(cx: &mut Ctx, env: &Env, cf: &Cfg, doc: &[u8], f: Feed, plan: &[(u64, Act)], what: &str) {
    let api = if std::env::var_os("VP_REF").is_some() { env.ex } else { env.rx };
    let a = parse(api, cf, doc, f, plan); cx.add(0, 1); cx.add(1, a.nev + 1); cx.add(2, 1); cx.outcome(&a.log);
    let mut sts: Vec<Vec<u8>> = vec![]; let g = grammar(&a.log, cf, &mut |x| sts.push(x.to_vec())); for x in sts { cx.state(&x); }
    if let Some(e) = g { cx.violation(&format!("{} cuts {:?} plan {:?} {}", what, &f.cuts[..f.cuts.len().min(4)], plan, show(doc, cf)), &format!("{}\n{}", e, s(&a.log[..a.log.len().min(4000)]))); }
}
pub fn c22(env: &Env) -> i32 {
    let mut k = Chk::new(env, "C22", "model_checking"); let th = env.thorough();
    for f in families() {
        let depth = depth_for(&f, if th { 30_000_000 } else { 1_300_000 }); let n = f.n(depth); const B: u64 = 64;
        k.part(&format!("{}-d{}", f.name, depth), (n + B - 1) / B, &|cx, case| { let mut sub = 0;
            for i in case * B..((case + 1) * B).min(n) { for ci in 0..f.cfgs.len() { let (doc, mut cf) = f.case(i, ci); if i % 2 == 0 { cf.dflt = Dflt::No; }
                sub += 1; if cx.begin(sub, 1, &doc) { gjudge(cx, env, &cf, &doc, WHOLE, &[], f.name); }
                if case % 997 == 0 { cx.sample(|| show(&doc, &cf)); }
            } } });
    }
    let ds = crate::p_pos::in_encodings(docs());
    k.part("corpus", ds.len() as u64, &|cx, case| {
        let d = &ds[case as usize]; let mut sub = 0; let mut cf = d.cfg.clone();
        for df in [Dflt::Expand, Dflt::Default, Dflt::No] { cf.dflt = df;
            for c in 1..d.doc.len().min(400) { sub += 1; if cx.begin(sub, 1, &d.doc) { gjudge(cx, env, &cf, &d.doc, Feed { cuts: &[c], via: Via::Parse, fin_empty: c % 2 == 0 }, &[], "cut"); } }
            let all: Vec<usize> = (1..=d.doc.len()).collect();
            sub += 1; if cx.begin(sub, 2, &d.doc) { gjudge(cx, env, &cf, &d.doc, Feed { cuts: &all, via: Via::Buf, fin_empty: true }, &[], "bytes"); }
            let r = parse(env.rx, &cf, &d.doc, WHOLE, &[]);
            for e in 0..r.nev.min(60) { for act in [Act::Suspend, Act::Abort] { for f in [WHOLE, Feed { cuts: &all, via: Via::Parse, fin_empty: false }] { sub += 1; if cx.begin(sub, 3, &d.doc) { gjudge(cx, env, &cf, &d.doc, f, &[(e, act)], "stop"); } } } }
            sub += 1; if cx.begin(sub, 4, &d.doc) { gjudge(cx, env, &cf, &d.doc, WHOLE, &[(u64::MAX, Act::Suspend)], "suspend in all"); }
        }
    });
    let c = docs();
    k.part("edits", c.len() as u64, &|cx, case| { let d = &c[case as usize]; let mut sub = 0; let mut cf = d.cfg.clone();
        for i in 0..nedits(d.doc.len()) { if d.doc.len() > 300 && i % 3 != 0 { continue; } let doc = edit(&d.doc, i); sub += 1; if cx.begin(sub, 1, &doc) { gjudge(cx, env, &cf, &doc, WHOLE, &[], "edit"); } }
        for e in 0..cf.ext.len() { let body = d.cfg.ext[e].1.clone(); for i in 0..nedits(body.len()) { cf.ext[e].1 = edit(&body, i); sub += 1; if cx.begin(sub, 2, &cf.ext[e].1) { gjudge(cx, env, &cf, &d.doc, WHOLE, &[], "edit of entity"); } } cf.ext[e].1 = body; } });
    let sm = corpus();
    k.part("splices", sm.len() as u64, &|cx, case| {
        let a = &sm[case as usize]; let mut sub = 0; let ba = bounds(&a.doc);
        for b in &sm { let bb = bounds(&b.doc); for (x, &i) in ba.iter().enumerate() { for (y, &l) in bb.iter().enumerate() { if (x + y) % 2 == 1 && !th { continue; }
            let mut doc = a.doc[..i].to_vec(); doc.extend_from_slice(&b.doc[l..]); sub += 1; if cx.begin(sub, 1, &doc) { gjudge(cx, env, &a.cfg, &doc, WHOLE, &[], "splice"); } } } }
    });
    k.finish("the event automaton run on the reports of all token sequences, all cuts and stops of the corpus, all edits and splices; one evaluation is one parse, its log a trace the automaton has to accept; states = automaton configurations with their next event")
}
