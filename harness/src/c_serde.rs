//! C27: a drawing survives the optional serde support.
//! Drawings are loaded from files whose values and codes were varied (not built from JSON, which could not
//! hold what serde leaves out), turned into a serde_json::Value and back, and compared by the text of Debug,
//! by what the accessors return and by the bytes they save.
use crate::c_enc::*;
use crate::fw::*;
use crate::lab::*;
use crate::mini::*;
use crate::rt::*;
use crate::types::*;
use dxf::Drawing;
use std::fmt::Debug;

/// the text of Debug; the entries of maps, which come in any order, sorted
fn dbg<T: Debug>(t: &T) -> String {
    let s = format!("{:?}", t);
    let mut out = String::new();
    let mut rest = s.as_str();
    while let Some(i) = rest.find(": {\"") {
        out.push_str(&rest[..i + 3]);
        rest = &rest[i + 3..];
        let (mut entries, mut start, mut depth, mut quoted, mut esc, mut end) = (vec![], 0, 0, false, false, rest.len());
        for (k, ch) in rest.char_indices() {
            if esc { esc = false; continue; }
            match ch {
                '\\' if quoted => esc = true,
                '"' => quoted = !quoted,
                '(' | '{' | '[' if !quoted => depth += 1,
                '}' if !quoted && depth == 0 => { entries.push(&rest[start..k]); end = k; break; }
                ')' | '}' | ']' if !quoted => depth -= 1,
                ',' if !quoted && depth == 0 => { entries.push(&rest[start..k]); start = k + 2; }
                _ => {}
            }
        }
        entries.sort();
        out.push_str(&entries.join(", "));
        rest = &rest[end..];
    }
    out + rest
}
/// everything the accessors show, by name
fn shown(d: &Drawing) -> Vec<(String, String)> {
    let mut o = vec![("header".to_string(), dbg(&d.header))];
    macro_rules! all { ($n:expr, $i:expr) => { for (k, x) in $i.enumerate() { o.push((format!("{}/{}", $n, k), dbg(&x))); } }; }
    all!("classes", d.classes.iter());
    all!("app_ids", d.app_ids());
    all!("block_records", d.block_records());
    all!("dim_styles", d.dim_styles());
    all!("layers", d.layers());
    all!("line_types", d.line_types());
    all!("styles", d.styles());
    all!("ucss", d.ucss());
    all!("views", d.views());
    all!("view_ports", d.view_ports());
    all!("blocks", d.blocks());
    all!("entities", d.entities());
    all!("objects", d.objects());
    o
}
fn around(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| { let v: Vec<u8> = s.bytes().skip(n.saturating_sub(60)).take(140).collect(); String::from_utf8_lossy(&v).into_owned() };
    format!("...{}... became ...{}...", cut(a), cut(b))
}
/// the name of the field in which two Debug texts first differ
fn field_of(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let s = String::from_utf8_lossy(&a.as_bytes()[..n]).into_owned();
    let kind = s.find("specific: ").map(|i| s[i + 10..].split('(').next().unwrap_or("").to_string()).unwrap_or_default();
    let f = s.rsplit(|c: char| !(c.is_alphanumeric() || c == '_' || c == ':')).find(|w| w.ends_with(':')).unwrap_or("").trim_end_matches(':').to_string();
    format!("{}.{}", kind, f)
}
fn finite(s: &str) -> bool {
    !s.contains("NaN") && !s.contains(": inf") && !s.contains("-inf") && !s.contains("(inf") && !s.contains("[inf") && !s.contains(", inf")
}
fn same_items(c: &mut Case, a: &[(String, String)], b: &[(String, String)], how: &str) {
    if a.len() != b.len() {
        let miss = a.iter().find(|x| !b.iter().any(|y| y.0 == x.0)).or(b.iter().find(|x| !a.iter().any(|y| y.0 == x.0))).map(|x| x.0.clone()).unwrap_or_default();
        c.fail(format!("{}:count:{}", how, place_sig(&miss)), format!("{} items became {} ({})", a.len(), b.len(), miss));
        return;
    }
    for (x, y) in a.iter().zip(b) {
        c.count("items_compared", 1);
        if x != y {
            c.fail(format!("{}:{}:{}", how, place_sig(&x.0), field_of(&x.1, &y.1)), format!("{}: {}", x.0, around(&x.1, &y.1)));
        }
    }
}
fn judge(c: &mut Case, d: &Drawing) {
    let mut d = d.clone();
    d.thumbnail = None;
    let before = shown(&d);
    if before.iter().any(|x| !finite(&x.1)) { c.count("not_finite", 1); return; }
    let v = match guard(|| serde_json::to_value(&d)) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => { c.fail("serialize:error", e.to_string()); return; }
        Err(e) => { c.fail(format!("serialize:{}", panic_sig(&e)), e); return; }
    };
    let e: Drawing = match guard(|| serde_json::from_value(v.clone())) {
        Ok(Ok(e)) => e,
        Ok(Err(e)) => { c.fail("deserialize:error", e.to_string()); return; }
        Err(e) => { c.fail(format!("deserialize:{}", panic_sig(&e)), e); return; }
    };
    same_items(c, &before, &shown(&e), "drawing");
    match guard(|| serde_json::to_value(&e)) {
        Ok(Ok(w)) => if w != v { let ds = { let mut o = vec![]; diff("", &v, &w, true, &mut o); o }; c.fail(format!("again:{}", ds.first().map(|p| place_sig(p)).unwrap_or_default()), format!("the copy is serialized differently: {}", report(&v, &w, &ds))) },
        Ok(Err(x)) => c.fail("again:error", x.to_string()),
        Err(x) => c.fail(format!("again:{}", panic_sig(&x)), x),
    }
    for f in [Fmt::Ascii, Fmt::Binary] {
        match (guard(|| save(&d, f)), guard(|| save(&e, f))) {
            (Ok(Ok(a)), Ok(Ok(b))) => {
                c.count("bytes_compared", a.len() as u64);
                if a != b {
                    let k = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
                    c.attach("original.dxf", &a);
                    c.attach("copy.dxf", &b);
                    c.fail(format!("save:{:?}", f), format!("the copy saves other bytes from offset {} ({} and {} bytes)", k, a.len(), b.len()));
                }
            }
            (a, b) => if dbg(&a) != dbg(&b) { c.fail(format!("save:{:?}:error", f), format!("{:?} and {:?}", a.map(|x| x.map(|y| y.len())), b.map(|x| x.map(|y| y.len())))) },
        }
    }
    // handles go on where they were
    let (mut d, mut e) = (d, e);
    let l = || dxf::entities::Entity::new(entity_default("Line"));
    let (x, y) = (d.add_entity(l()).common.handle, e.add_entity(l()).common.handle);
    if x != y { c.fail("next-handle", format!("a new entity gets handle {:?} in the original and {:?} in the copy", x, y)); }
}
/// every item on its own
fn judge_items(c: &mut Case, d: &Drawing) {
    macro_rules! all { ($n:expr, $i:expr, $t:ty) => { for x in $i {
        let a = dbg(x);
        if !finite(&a) { continue; }
        match guard(|| serde_json::to_value(x).and_then(serde_json::from_value::<$t>)) {
            Ok(Ok(y)) => { let b = dbg(&y); c.count("single_items", 1); if a != b { c.fail(format!("item:{}:{}", $n, field_of(&a, &b)), around(&a, &b)); } }
            Ok(Err(e)) => c.fail(format!("item:{}:error", $n), format!("{}: {}", e, around(&a, ""))),
            Err(e) => c.fail(format!("item:{}:{}", $n, panic_sig(&e)), e),
        }
    } }; }
    all!("header", std::iter::once(&d.header), dxf::Header);
    all!("class", d.classes.iter(), dxf::Class);
    all!("app_id", d.app_ids(), dxf::tables::AppId);
    all!("block_record", d.block_records(), dxf::tables::BlockRecord);
    all!("dim_style", d.dim_styles(), dxf::tables::DimStyle);
    all!("layer", d.layers(), dxf::tables::Layer);
    all!("line_type", d.line_types(), dxf::tables::LineType);
    all!("style", d.styles(), dxf::tables::Style);
    all!("ucs", d.ucss(), dxf::tables::Ucs);
    all!("view", d.views(), dxf::tables::View);
    all!("view_port", d.view_ports(), dxf::tables::ViewPort);
    all!("block", d.blocks(), dxf::Block);
    all!("entity", d.entities(), dxf::entities::Entity);
    all!("object", d.objects(), dxf::objects::Object);
}
fn both(c: &mut Case, bytes: &[u8], key: String) {
    match guard(|| load(bytes)) {
        Ok(Ok(d)) => {
            c.count("drawings", 1);
            c.attach("input.dxf", bytes);
            judge(c, &d);
            judge_items(c, &d);
            c.eval(key);
        }
        Ok(Err(_)) | Err(_) => c.count("not_loaded", 1),
    }
}
/// saved drawings with other values under the same codes
fn varied_case(c: &mut Case) {
    let d = any_drawing(&mut c.rng);
    let fmt = any_fmt(&mut c.rng);
    let f = match guard(|| file_of(&d, fmt)) { Ok(f) => f, Err(_) => return };
    let mut p = f.pairs;
    let rate = *c.rng.pick(&[0usize, 2, 4]);
    let mut n = 0;
    let mut header = true;
    for i in 1..p.len() {
        if p[i].is(0, "ENDSEC") { header = false; }
        let code = p[i].code;
        if header || rate == 0 || [0, 1, 2, 5, 9, 100, 102, 105, 1001, 1002].contains(&code) || p[i - 1].is(0, "SECTION") || p[i - 1].is(0, "TABLE") { continue; }
        if c.rng.chance(1, rate as u32) {
            p[i].val = tame_val(code, &mut c.rng);
            n += 1;
        }
    }
    c.count("values_varied", n);
    both(c, &render(&p, f.fmt, f.version), format!("v{}", c.idx));
}
/// streams built from the dictionary
fn stream_case(c: &mut Case) {
    let p = grammar(&mut c.rng);
    both(c, &to_ascii(&p), format!("g{}", c.idx));
}
/// one field at a time, as other programs write it
fn field_case(c: &mut Case) {
    let all = reference();
    for k in 0..3 {
        let e = &all[(c.idx as usize * 3 + k) % all.len()];
        if e.ptr.is_empty() { continue; }
        let v = *c.rng.pick(&e.versions);
        let Some(rec) = all.iter().find(|r| r.item == e.item && r.ptr.is_empty() && r.versions.contains(&v)) else { continue };
        let (sec, table) = match e.item.split(':').next().unwrap() {
            "entity" | "entity_common" => ("ENTITIES", None),
            "object" | "object_common" => ("OBJECTS", None),
            "table" => ("TABLES", Some(rec.new.first().map(|x| x.1.clone()).unwrap_or_default())),
            "header" => ("HEADER", None),
            "block" => ("BLOCKS", None),
            _ => ("CLASSES", None),
        };
        let mut body = rec.new.clone();
        // the value in place of the one of a new item, or behind it
        let hits: Vec<usize> = (0..body.len()).filter(|&i| !e.old.is_empty() && body[i..].starts_with(&e.old)).collect();
        if let Some(&i) = hits.first() { body.splice(i..i + e.old.len(), e.new.clone()); } else { body.extend(e.new.clone()); }
        let mut p = vec![];
        if sec != "HEADER" {
            p.extend([Pair::s(0, "SECTION"), Pair::s(2, "HEADER"), Pair::s(9, "$ACADVER"), Pair::s(1, acadver(v)), Pair::s(0, "ENDSEC")]);
        }
        p.extend([Pair::s(0, "SECTION"), Pair::s(2, sec)]);
        if let Some(t) = &table { p.extend([Pair::s(0, "TABLE"), Pair::s(2, t)]); }
        let mut h = 0x100;
        for (code, t) in &body {
            h += 1;
            let t = if t == "#" { format!("{:X}", h) } else { t.clone() };
            p.push(pair_of(*code, &t));
        }
        if table.is_some() { p.push(Pair::s(0, "ENDTAB")); }
        p.extend([Pair::s(0, "ENDSEC"), Pair::s(0, "EOF")]);
        both(c, &to_ascii(&p), format!("{}{}{}{}", e.item, e.ptr, e.value, v));
    }
}
fn acadver(v: usize) -> &'static str {
    use std::sync::OnceLock;
    static A: OnceLock<Vec<String>> = OnceLock::new();
    &A.get_or_init(|| VERSIONS.iter().map(|v| {
        let f = file_of(&new_drawing(*v), Fmt::Ascii);
        f.pairs.iter().position(|p| p.is(9, "$ACADVER")).map(|i| f.pairs[i + 1].text()).unwrap_or_default()
    }).collect())[v]
}
pub fn c27(t: bool) -> Check {
    let m = if t { 12 } else { 1 };
    Check {
        id: "C27",
        level: "exploration",
        rule: "one evaluation = one loaded drawing converted to serde's data model and back, as a whole and item by item, and compared by Debug text, a second serialization and saved bytes; distinct by input",
        families: vec![family("field", reference().len() as u64 / 3 + 1, field_case), family("varied", 500 * m, varied_case), family("stream", 1500 * m, stream_case), family("large", 60 * m, |c| large(|| varied_case(c)))],
        cpu_limit: 180,
        assumptions: vec!["the self-describing format is the data model of serde_json, which has no NaN or infinities: drawings holding one are skipped and counted".into(), "Debug prints every field".into()],
    }
}
