//! Shared pieces of the checks that work on files: sample files, a dictionary of what the format
//! uses, hostile values, pair-level mutations, whole-drawing comparison.
use crate::gen::*;
use crate::mini::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::schema::*;
use crate::types::*;
use dxf::enums::AcadVersion;
use dxf::Drawing;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::sync::OnceLock;

thread_local!(static LARGE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
/// run `f` with `any_drawing` giving drawings with very long lists and texts, or very many items
pub fn large<T>(f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            LARGE.with(|l| l.set(false));
        }
    }
    let _off = Off;
    LARGE.with(|l| l.set(true));
    f()
}
pub fn is_large() -> bool {
    LARGE.with(|l| l.get())
}
pub fn any_drawing(r: &mut Rng) -> Drawing {
    if is_large() {
        return crate::big::any(r);
    }
    let v = *r.pick(VERSIONS);
    let m = Mix::any(r);
    drawing(v, r, m)
}
pub fn wide(v: AcadVersion) -> bool {
    v >= AcadVersion::R13
}
/// a saved file with its tokens
pub struct File {
    pub version: AcadVersion,
    pub fmt: Fmt,
    pub bytes: Vec<u8>,
    pub pairs: Vec<Pair>,
}
pub fn file_of(d: &Drawing, fmt: Fmt) -> File {
    let bytes = save(d, fmt).unwrap_or_else(|e| panic!("saving failed: {}", e));
    let pairs = match fmt {
        Fmt::Ascii => parse_ascii(&bytes).unwrap_or_else(|e| panic!("harness: own output not tokenised: {}", e)),
        Fmt::Binary => parse_binary(&bytes).unwrap_or_else(|e| panic!("harness: own output not tokenised: {}", e)).into_iter().map(|x| x.1).collect(),
    };
    File { version: d.header.version, fmt, bytes, pairs }
}
pub fn any_fmt(r: &mut Rng) -> Fmt {
    if r.chance(1, 2) { Fmt::Ascii } else { Fmt::Binary }
}
pub fn render(p: &[Pair], fmt: Fmt, v: AcadVersion) -> Vec<u8> {
    match fmt {
        Fmt::Ascii => to_ascii(p),
        Fmt::Binary => to_binary(p, wide(v)),
    }
}
/// everything observable of a drawing
pub fn full(d: &Drawing) -> Value {
    let t = match &d.thumbnail {
        None => Value::Null,
        Some(i) => json!({"w": i.width(), "h": i.height(), "rgba": crate::rng::fnv(&i.to_rgba8().into_raw())}),
    };
    json!({"drawing": jv(d), "thumbnail": t})
}
/// differences that matter: dates and identifiers that default to "now" are made anew by every load
pub fn same(a: &Value, b: &Value, exact: bool) -> Vec<String> {
    let mut o = vec![];
    diff("", a, b, exact, &mut o);
    o.retain(|p| !VOLATILE.iter().any(|v| p == v));
    o
}
pub const VOLATILE: &[&str] = &[
    "/drawing/header/creation_date", "/drawing/header/update_date", "/drawing/header/creation_date_universal",
    "/drawing/header/update_date_universal", "/drawing/header/fingerprint_guid", "/drawing/header/version_guid",
];
pub fn at<'a>(v: &'a Value, p: &str) -> &'a Value {
    v.pointer(p).unwrap_or(&Value::Null)
}
/// a stable name for a place in a drawing: indices removed
pub fn place_sig(p: &str) -> String {
    p.split('/').map(|s| if !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()) { "#" } else { s }).collect::<Vec<_>>().join("/")
}
pub fn brief(v: &Value) -> String {
    let s = v.to_string();
    if s.chars().count() > 100 { s.chars().take(100).collect::<String>() + "..." } else { s }
}
pub fn report(a: &Value, b: &Value, ds: &[String]) -> String {
    ds.iter().take(4).map(|p| format!("{}: {} vs {}", p, brief(at(a, p)), brief(at(b, p)))).collect::<Vec<_>>().join("; ")
}

// ---------------------------------------------------------------- dictionary
pub struct Dict {
    /// values of 0 in their sections
    pub entities: Vec<String>,
    pub objects: Vec<String>,
    pub tables: Vec<String>,
    /// (header variable, its group codes)
    pub header: Vec<(String, Vec<i32>)>,
    /// group codes that follow a type name in some version
    pub codes: Vec<(String, Vec<i32>)>,
}
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict { entities: vec![], objects: vec![], tables: vec![], header: vec![], codes: vec![] };
        let mut codes: std::collections::BTreeMap<String, BTreeSet<i32>> = Default::default();
        let mut hd: std::collections::BTreeMap<String, BTreeSet<i32>> = Default::default();
        let (mut es, mut os, mut ts) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        let mut r = Rng::new(77);
        for v in [AcadVersion::R9, AcadVersion::R12, AcadVersion::R14, AcadVersion::R2004, AcadVersion::R2010, AcadVersion::R2018] {
            let vi = vidx(v);
            let mut dr = new_drawing(v);
            for k in ENTITIES {
                dr.add_entity(to_entity(&entity_json(k, vi, &mut r, 4, 5)));
            }
            for k in OBJECTS {
                dr.add_object(to_object(&object_json(k, vi, &mut r, 4, 5)));
            }
            for t in TABLES {
                let x = item_value(&format!("table:{}", t), vi, &mut r, 4, 5);
                let _ = add_subject(&mut dr, &Item::Table(t), &x);
            }
            let _ = add_subject(&mut dr, &Item::Class, &item_value("class", vi, &mut r, 4, 5));
            let _ = add_subject(&mut dr, &Item::Block, &block_json(vi, &mut r, 2, 4, 5));
            let ps = file_of(&dr, Fmt::Ascii).pairs;
            let (mut sec, mut cur, mut var) = (String::new(), String::new(), String::new());
            for i in 0..ps.len() {
                let p = &ps[i];
                if p.code == 2 && i > 0 && ps[i - 1].is(0, "SECTION") {
                    sec = p.str().to_string();
                    continue;
                }
                if p.code == 0 {
                    cur = p.str().to_string();
                    if ["SECTION", "ENDSEC", "ENDTAB", "EOF", "TABLE", "ENDBLK", "SEQEND"].contains(&cur.as_str()) {
                        continue;
                    }
                    match sec.as_str() {
                        "ENTITIES" => es.insert(cur.clone()),
                        "OBJECTS" => os.insert(cur.clone()),
                        "TABLES" => ts.insert(cur.clone()),
                        _ => false,
                    };
                } else if sec == "HEADER" {
                    if p.code == 9 {
                        var = p.str().to_string();
                    } else {
                        hd.entry(var.clone()).or_default().insert(p.code);
                    }
                } else {
                    codes.entry(cur.clone()).or_default().insert(p.code);
                }
            }
        }
        d.entities = es.into_iter().collect();
        d.objects = os.into_iter().collect();
        d.tables = ts.into_iter().collect();
        d.header = hd.into_iter().map(|(k, v)| (k, v.into_iter().collect())).collect();
        d.codes = codes.into_iter().map(|(k, v)| (k, v.into_iter().collect())).collect();
        d
    })
}
impl Dict {
    pub fn codes_of(&self, n: &str) -> &[i32] {
        match self.codes.binary_search_by(|x| x.0.as_str().cmp(n)) {
            Ok(i) => &self.codes[i].1,
            Err(_) => &[],
        }
    }
}

// ---------------------------------------------------------------- hostile values
pub const WORDS: &[&str] = &[
    "SECTION", "ENDSEC", "TABLE", "ENDTAB", "BLOCK", "ENDBLK", "SEQEND", "EOF", "HEADER", "CLASSES", "TABLES", "BLOCKS", "ENTITIES", "OBJECTS",
    "THUMBNAILIMAGE", "ACDSDATA", "CLASS", "{ACAD_REACTORS", "{ACAD_XDICTIONARY", "{", "}", "{{", "VERTEX", "ATTRIB", "POLYLINE", "INSERT", "MTEXT",
    "AcDbEntity", "AcDbDimension", "AcDbAlignedDimension", "AcDbRotatedDimension", "AcDbBlockBegin", "AcDbSymbolTableRecord", "AcDbXrecord",
    "Embedded Object", "$ACADVER", "$DWGCODEPAGE", "AC1009", "AC1015", "AC1032", "AC9999", "LTYPE", "LAYER", "STYLE", "DIMSTYLE", "VPORT", "VIEW", "UCS", "APPID", "BLOCK_RECORD",
];
pub fn hostile_text(r: &mut Rng) -> String {
    match r.below(24) {
        0 => "".into(),
        1 => " ".into(),
        2 => "^".into(),
        3 => "^ ^J^M^?^@".into(),
        4 => "\\U+".into(),
        5 => "\\U+D800x".into(),
        6 => "\\U+FFFFFFFFFFFFFFFF".into(),
        7 => "\\U+12\\U+\u{e9}\u{e9}\u{e9}\u{e9}".into(),
        8 => "\\M+1".into(),
        9 => "{\u{20ac}}".into(),
        10 => "0".repeat(r.below(40)),
        11 => "F".repeat(r.below(40)),
        12 => "-1".into(),
        13 => "\u{1F600}".repeat(r.below(5)),
        14 => "123".into(),
        15 => "{a2a7a23e-975b-4b54-968c-150d4c32a9b6".into(),
        16 => "{\u{e9}}".into(),
        17 => "}".into(),
        18 => "x".repeat(*r.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 4096])),
        19 => "\u{0}".into(),
        20 | 21 => (*r.pick(WORDS)).to_string(),
        22 => { let d = dict(); let v = *r.pick(&[&d.entities, &d.objects, &d.tables]); if v.is_empty() { "LINE".into() } else { r.pick(v).clone() } }
        _ => text(r),
    }
}
pub fn hostile_int(r: &mut Rng, lo: i64, hi: i64) -> i64 {
    let v = match r.below(10) {
        0 => -1,
        1 => 0,
        2 => 1,
        3 => hi,
        4 => lo,
        5 => hi - 1,
        6 => r.range(0, 300),
        7 => r.range(-5, 40),
        8 => 1i64 << r.below(62),
        _ => r.next() as i64 >> r.below(63),
    };
    if v < lo || v > hi { lo + (v as i128 - lo as i128).rem_euclid(hi as i128 - lo as i128 + 1) as i64 } else { v }
}
pub fn hostile_real(r: &mut Rng) -> f64 {
    match r.below(14) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => f64::MAX,
        4 => f64::MIN,
        5 => 1e300,
        6 => -1e19,
        7 => 5e-324,
        8 => -0.0,
        9 => 2415021.0 + r.below(100000) as f64 / 7.0,
        10 => r.range(-10, 70000) as f64,
        11 => f64::from_bits(r.next()),
        _ => real(r),
    }
}
pub fn hostile_val(code: i32, r: &mut Rng) -> Val {
    match vtype(code).unwrap_or(VT::Str) {
        VT::Str => Val::S(hostile_text(r)),
        VT::F64 => Val::F(hostile_real(r)),
        VT::I16 => Val::I(hostile_int(r, -32768, 32767)),
        VT::I32 => Val::I(hostile_int(r, i32::MIN as i64, i32::MAX as i64)),
        VT::I64 => Val::I(hostile_int(r, i64::MIN, i64::MAX)),
        VT::Bool => Val::I(*r.pick(&[0, 1, 0, 1, 1, 2, 255]) as i64),
        VT::Bin => { let n = *r.pick(&[0, 1, 2, 15, 40, 127, 128, 255]); Val::B(r.bytes(n)) }
    }
}
pub fn any_code(r: &mut Rng) -> i32 {
    loop {
        let c = match r.below(8) {
            0..=2 => r.below(100),
            3 => 100 + r.below(80),
            4 => 210 + r.below(30),
            5 => 270 + r.below(212),
            6 => 1000 + r.below(72),
            _ => *r.pick(&[0usize, 0, 2, 5, 100, 102, 102, 105, 330, 360, 310, 1001, 1002, 70, 73, 90, 91, 10, 40, 3]),
        } as i32;
        if vtype(c).is_some() {
            return c;
        }
    }
}
pub fn hostile_pair(r: &mut Rng) -> Pair {
    let code = any_code(r);
    Pair { code, val: hostile_val(code, r) }
}
/// a handful of random edits of a pair sequence
pub fn mutate(p: &mut Vec<Pair>, other: &[Pair], r: &mut Rng) {
    let n = if r.chance(1, 4) { 30 } else { 4 };
    let n = 1 + r.below(n);
    for _ in 0..n {
        if p.is_empty() {
            p.push(hostile_pair(r));
        }
        let i = r.below(p.len());
        match r.below(12) {
            0 => { p.remove(i); }
            1 => { let k = (1 + r.below(20)).min(p.len() - i); p.drain(i..i + k); }
            2 => { let x = p[i].clone(); p.insert(i, x); }
            3 => { let j = r.below(p.len()); p.swap(i, j); }
            4 | 5 => { let c = p[i].code; p[i].val = hostile_val(c, r); }
            6 => { p[i] = hostile_pair(r); }
            7 => { p.insert(i, hostile_pair(r)); }
            8 => { // another value of the same code from elsewhere
                let c = p[i].code;
                let cand: Vec<&Pair> = other.iter().filter(|q| q.code == c).collect();
                if !cand.is_empty() { p[i] = (*r.pick(&cand)).clone(); }
            }
            9 => { // splice a run of the other file
                if !other.is_empty() {
                    let a = r.below(other.len());
                    let k = (1 + r.below(40)).min(other.len() - a);
                    for (o, x) in other[a..a + k].iter().enumerate() { p.insert(i + o, x.clone()); }
                }
            }
            10 => { p.truncate(i); }
            _ => { // a run moved
                let k = (1 + r.below(30)).min(p.len() - i);
                let run: Vec<Pair> = p.drain(i..i + k).collect();
                let j = r.below(p.len() + 1);
                for (o, x) in run.into_iter().enumerate() { p.insert(j + o, x); }
            }
        }
    }
}
pub fn mutate_bytes(b: &mut Vec<u8>, other: &[u8], r: &mut Rng) {
    let n = if r.chance(1, 4) { 40 } else { 3 };
    let n = 1 + r.below(n);
    for _ in 0..n {
        if b.is_empty() {
            b.push(r.next() as u8);
        }
        let i = r.below(b.len());
        match r.below(10) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = *r.pick(&[0, 1, 9, 10, 13, 26, 32, 48, 94, 123, 125, 127, 128, 0xEF, 0xBB, 0xBF, 0xff]),
            2 => { b.remove(i); }
            3 => { let c = r.next() as u8; b.insert(i, c); }
            4 => { let k = (1 + r.below(60)).min(b.len() - i); b.drain(i..i + k); }
            5 => { let k = (1 + r.below(60)).min(b.len() - i); let x = b[i..i + k].to_vec(); let j = r.below(b.len()); for (o, c) in x.into_iter().enumerate() { b.insert(j + o, c); } }
            6 => b.truncate(i),
            7 => { if !other.is_empty() { let a = r.below(other.len()); let k = (1 + r.below(200)).min(other.len() - a); for (o, c) in other[a..a + k].iter().enumerate() { b.insert((i + o).min(b.len()), *c); } } }
            8 => { let l = b.len(); let k = (1 + r.below(8)).min(l - i); for x in &mut b[i..i + k] { *x = r.next() as u8; } }
            _ => { let l = b.len(); let k = 4.min(l - i); for x in &mut b[i..i + k] { *x = 0xff; } }
        }
    }
}
/// a random, mostly well-nested stream built from the dictionary
pub fn grammar(r: &mut Rng) -> Vec<Pair> {
    let d = dict();
    let mut p = vec![];
    let body = |p: &mut Vec<Pair>, name: &str, r: &mut Rng| {
        let cs = d.codes_of(name);
        let n = if r.chance(1, 5) { 60 } else { 12 };
        let n = r.below(n);
        for _ in 0..n {
            let code = if cs.is_empty() || r.chance(1, 10) { any_code(r) } else { *r.pick(cs) };
            if code == 0 {
                continue;
            }
            let val = if r.chance(1, 2) { hostile_val(code, r) } else { tame_val(code, r) };
            p.push(Pair { code, val });
        }
    };
    for _ in 0..1 + r.below(4) {
        p.push(Pair::s(0, "SECTION"));
        match r.below(8) {
            0 => {
                p.push(Pair::s(2, "HEADER"));
                for _ in 0..r.below(10) {
                    let (n, cs) = r.pick(&d.header);
                    p.push(Pair::s(9, n));
                    for c in cs {
                        if r.chance(4, 5) { p.push(Pair { code: *c, val: hostile_val(*c, r) }); }
                    }
                    if r.chance(1, 10) { p.push(hostile_pair(r)); }
                }
            }
            1 => {
                p.push(Pair::s(2, "TABLES"));
                for _ in 0..r.below(4) {
                    let t = r.pick(&d.tables).clone();
                    p.push(Pair::s(0, "TABLE"));
                    p.push(Pair::s(2, &t));
                    body(&mut p, "TABLE", r);
                    for _ in 0..r.below(4) {
                        p.push(Pair::s(0, &t));
                        body(&mut p, &t, r);
                    }
                    if r.chance(9, 10) { p.push(Pair::s(0, "ENDTAB")); }
                }
            }
            2 => {
                p.push(Pair::s(2, "BLOCKS"));
                for _ in 0..r.below(4) {
                    p.push(Pair::s(0, "BLOCK"));
                    body(&mut p, "BLOCK", r);
                    for _ in 0..r.below(4) {
                        let e = r.pick(&d.entities).clone();
                        p.push(Pair::s(0, &e));
                        body(&mut p, &e, r);
                    }
                    if r.chance(9, 10) { p.push(Pair::s(0, "ENDBLK")); body(&mut p, "ENDBLK", r); }
                }
            }
            3..=4 => {
                p.push(Pair::s(2, "ENTITIES"));
                for _ in 0..r.below(8) {
                    let e = r.pick(&d.entities).clone();
                    p.push(Pair::s(0, &e));
                    body(&mut p, &e, r);
                }
            }
            5 => {
                p.push(Pair::s(2, "OBJECTS"));
                for _ in 0..r.below(8) {
                    let e = r.pick(&d.objects).clone();
                    p.push(Pair::s(0, &e));
                    body(&mut p, &e, r);
                }
            }
            6 => {
                p.push(Pair::s(2, "CLASSES"));
                for _ in 0..r.below(5) {
                    p.push(Pair::s(0, "CLASS"));
                    body(&mut p, "CLASS", r);
                }
            }
            _ => {
                p.push(Pair::s(2, "THUMBNAILIMAGE"));
                if r.chance(9, 10) { p.push(Pair { code: 90, val: hostile_val(90, r) }); }
                let mut img = crate::lab::bmp(r.below(6) as i32 - 1, r.below(6) as i32 - 1, *r.pick(&[1, 4, 8, 16, 24, 32]), r);
                mutate_bytes(&mut img, &[], r);
                for c in img.chunks(127) { p.push(Pair { code: 310, val: Val::B(c.to_vec()) }); }
            }
        }
        if r.chance(19, 20) { p.push(Pair::s(0, "ENDSEC")); }
    }
    if r.chance(9, 10) { p.push(Pair::s(0, "EOF")); }
    p
}
pub fn tame_val(code: i32, r: &mut Rng) -> Val {
    match vtype(code).unwrap_or(VT::Str) {
        VT::Str => Val::S(if code == 5 || code == 105 || (320..=369).contains(&code) || (390..=399).contains(&code) { format!("{:X}", r.below(70000)) } else { ident(r) }),
        VT::F64 => Val::F(real(r)),
        VT::I16 | VT::I32 | VT::I64 => Val::I(r.range(0, 9)),
        VT::Bool => Val::I(r.range(0, 1)),
        VT::Bin => { let n = r.below(20); Val::B(r.bytes(n)) }
    }
}
/// a BMP image without its file header, as DXF stores it
pub fn bmp(w: i32, h: i32, bits: u16, r: &mut Rng) -> Vec<u8> {
    let mut b = vec![];
    let pal: u32 = if bits <= 8 { 1 << bits } else { 0 };
    let row = ((w.unsigned_abs() * bits as u32 + 31) / 32 * 4) as usize;
    let size = row * h.unsigned_abs() as usize;
    b.extend(40u32.to_le_bytes());
    b.extend(w.to_le_bytes());
    b.extend(h.to_le_bytes());
    b.extend(1u16.to_le_bytes());
    b.extend(bits.to_le_bytes());
    b.extend(0u32.to_le_bytes());
    b.extend((size as u32).to_le_bytes());
    b.extend([0u8; 8]);
    b.extend(pal.to_le_bytes());
    b.extend(0u32.to_le_bytes());
    for _ in 0..pal { let c = r.bytes(3); b.extend(c); b.push(0); }
    b.extend(r.bytes(size));
    b
}
