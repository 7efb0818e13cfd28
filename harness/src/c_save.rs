//! C02: every drawing can be saved and the file loads; C07: ASCII and binary agree;
//! C08: saving is deterministic and idempotent; C17: files are well formed.
use crate::c_text::{load_dx, positions};
use crate::fw::*;
use crate::gen::*;
use crate::lab::*;
use crate::mini::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::schema::*;
use crate::tab::*;
use crate::types::*;
use dxf::entities::*;
use dxf::enums::AcadVersion;
use dxf::Drawing;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

// ---------------------------------------------------------------- wild values
thread_local!(static CHUNK: std::cell::Cell<usize> = const { std::cell::Cell::new(1000) });
pub fn wild_text(r: &mut Rng) -> String {
    match r.below(6) {
        0 => (0..r.below(20)).map(|_| char::from_u32(r.below(128) as u32).unwrap()).collect(),
        1 => (0..r.below(12)).map(|_| char::from_u32(if r.chance(1, 2) { r.below(0x3000) as u32 } else { r.below(0x11_0000) as u32 }).unwrap_or('\u{fffd}')).collect(),
        2 => (*r.pick(&["a\r\nb", "\n", "\r", "\0", "x\0y", "^J", "^ ", "^", "\\U+0041", "\t", "0\r\nENDSEC", "  lead", "trail  ", "\u{feff}", "\u{85}", "\u{2028}", "\u{7f}"])).to_string(),
        3 => "long ".repeat(r.below(600)),
        _ => hostile_text(r),
    }
}
pub fn wild_value(k: &Kind, ptr: &str, r: &mut Rng) -> Value {
    if ptr.ends_with("extension_data_groups") || ptr.ends_with("/x_data") || ptr.ends_with("value_handles") || ptr.ends_with("data_pairs") {
        return value(k, ptr, r);
    }
    match k {
        Kind::F64 => { let x = loop { let x = hostile_real(r); if x.is_finite() { break x; } }; json!(x) }
        Kind::Int(a, b) => {
            let x: i128 = match r.below(5) { 0 => *a, 1 => *b, 2 => 0, 3 => -1, _ => r.next() as i64 as i128 >> r.below(60) };
            let x = if x < *a || x > *b { a + (x - a).rem_euclid(b - a + 1) } else { x };
            if x < 0 { json!(x as i64) } else { json!(x as u64) }
        }
        Kind::Str => json!(wild_text(r)),
        Kind::Char => json!((char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\n')).to_string()),
        Kind::Array(e) => {
            let n = *r.pick(&[0usize, 0, 1, 1, 2, 3, 5, 17, 40]);
            if matches!(**e, Kind::Int(0, 255)) {
                let n = *r.pick(&[0usize, 1, 2, 127, 128, 129, 254, 255, 256, 257, 300, 1000]);
                let n = n.min(CHUNK.with(|c| c.get()));
                return json!(r.bytes(n));
            }
            Value::Array((0..n).map(|_| wild_value(e, ptr, r)).collect())
        }
        Kind::Fixed(ks) => Value::Array(ks.iter().map(|k| wild_value(k, ptr, r)).collect()),
        Kind::Struct(fs) => {
            let mut m = Map::new();
            for (n, k) in fs {
                m.insert(n.clone(), wild_value(k, n, r));
            }
            Value::Object(m)
        }
        Kind::Date => json!(format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:03}Z", *r.pick(&[0, 1, 1582, 1899, 1970, 2024, 9999]), 1 + r.below(12), 1 + r.below(28), r.below(24), r.below(60), r.below(60), r.below(1000))),
        _ => value(k, ptr, r),
    }
}
thread_local!(static ANY_BOOLS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
/// the boolean of a raw code pair may be any number (a binary file has one byte for it)
fn wild_bools(x: &mut Value, r: &mut Rng) {
    if !ANY_BOOLS.with(|a| a.get()) { return; }
    match x {
        Value::Array(a) => a.iter_mut().for_each(|y| wild_bools(y, r)),
        Value::Object(o) => {
            for (k, y) in o.iter_mut() {
                if k == "Boolean" && y.is_number() && r.chance(1, 3) {
                    *y = json!(*r.pick(&[-1, 2, 255, 256, 32767, -32768]));
                } else {
                    wild_bools(y, r);
                }
            }
        }
        _ => (),
    }
}
pub fn wild_item(name: &str, r: &mut Rng, num: u32, den: u32) -> Value {
    let it = &tab()[name];
    let mut b = it.default.clone();
    for l in &it.leaves {
        if !r.chance(num, den) || SPECIAL.contains(&(name, l.leaf.ptr.as_str())) {
            continue;
        }
        let x = wild_value(&l.leaf.kind, &l.leaf.ptr, r);
        if !x.is_null() {
            let mut x = x;
            wild_bools(&mut x, r);
            *b.pointer_mut(&l.leaf.ptr).unwrap() = x;
        }
    }
    match name {
        "class" if b["record_name"] == json!("ENDSEC") => b["record_name"] = json!("ENDSECTION"),
        "entity:Insert" => b["__attributes_and_handles"] = Value::Array((0..r.below(4)).map(|_| json!([wild_item("entity:Attribute", r, num, den), 0])).collect()),
        "entity:Polyline" => b["__vertices_and_handles"] = Value::Array((0..r.below(5)).map(|_| json!([wild_item("entity:Vertex", r, num, den), 0])).collect()),
        // what a dimension is called in old versions follows from its type
        "entity:RotatedDimension" => b["dimension_base"]["dimension_type"] = json!(*r.pick(&["RotatedHorizontalOrVertical", "Aligned"])),
        "entity:RadialDimension" => b["dimension_base"]["dimension_type"] = json!("Radius"),
        "entity:DiameterDimension" => b["dimension_base"]["dimension_type"] = json!("Diameter"),
        "entity:AngularThreePointDimension" => b["dimension_base"]["dimension_type"] = json!("AngularThreePoint"),
        "entity:OrdinateDimension" => b["dimension_base"]["dimension_type"] = json!("Ordinate"),
        // the size of a table cannot be set by users of the library
        "object:DataTable" => {
            b["row_count"] = json!(r.below(5));
            b["column_count"] = json!(r.below(5));
        }
        // stored as booleans
        "object:SunStudy" => {
            let n = r.below(6);
            b["hours"] = Value::Array((0..n).map(|_| if ANY_BOOLS.with(|a| a.get()) && r.chance(1, 4) { json!(*r.pick(&[-1, 256, 32767, -32768, i32::MAX, i32::MIN])) } else { json!(r.below(256)) }).collect());
        }
        _ => (),
    }
    b
}
fn wild_entity(k: &str, r: &mut Rng, num: u32, den: u32) -> Option<Entity> {
    let mut c = wild_item("entity:*", r, num, den);
    c["handle"] = json!(0);
    serde_json::from_value(json!({"common": c, "specific": {k: wild_item(&format!("entity:{}", k), r, num, den)}})).ok()
}
pub fn wild_drawing(v: AcadVersion, r: &mut Rng, c: &mut Counts) -> Drawing {
    let mut d = new_drawing(v);
    let (num, den) = (1 + r.below(5) as u32, 5);
    if r.chance(1, 2) {
        match serde_json::from_value(wild_item("header", r, num, den)) {
            Ok(h) => { let s = d.header.next_available_handle; d.header = h; d.header.version = v; d.header.next_available_handle = s; }
            Err(_) => c.rejected += 1,
        }
    }
    for _ in 0..r.below(6) {
        let t = *r.pick(TABLES);
        let mut x = wild_item(&format!("table:{}", t), r, num, den);
        x["handle"] = json!(0);
        if add_subject(&mut d, &Item::Table(t), &x).is_err() { c.rejected += 1; }
    }
    for _ in 0..r.below(3) {
        let x = wild_item("class", r, num, den);
        if add_subject(&mut d, &Item::Class, &x).is_err() { c.rejected += 1; }
    }
    let kinds = free_entities();
    for _ in 0..r.below(3) {
        let mut b = wild_item("block", r, num, den);
        b["handle"] = json!(0);
        let n = r.below(4);
        b["entities"] = Value::Array((0..n).filter_map(|_| { let k = *r.pick(&kinds); wild_entity(k, r, num, den) }).map(|e| jv(&e)).collect());
        if add_subject(&mut d, &Item::Block, &b).is_err() { c.rejected += 1; }
    }
    for _ in 0..r.below(8) {
        let k = *r.pick(&kinds);
        match wild_entity(k, r, num, den) { Some(e) => { d.add_entity(e); } None => c.rejected += 1 }
    }
    for _ in 0..r.below(6) {
        let k = *r.pick(OBJECTS);
        let mut o = wild_item("object:*", r, num, den);
        o["handle"] = json!(0);
        match serde_json::from_value(json!({"common": o, "specific": {k: wild_item(&format!("object:{}", k), r, num, den)}})) { Ok(o) => { d.add_object(o); } Err(_) => c.rejected += 1 }
    }
    d
}
#[derive(Default)]
pub struct Counts {
    pub rejected: u64,
}
fn kinds_of<'a>(es: impl Iterator<Item = &'a Entity>, vi: usize) -> Option<BTreeMap<String, usize>> {
    let mut m = BTreeMap::new();
    let mut prev = String::new();
    for e in es {
        let j = jv(e);
        let k = kind_of(&j);
        if vi < R13 && k.ends_with("Dimension") {
            // without subclass markers the kind is what the type says
            let t = j["specific"][&k]["dimension_base"]["dimension_type"].as_str().unwrap_or("").to_string();
            let ok = match k.as_str() {
                "RotatedDimension" => t == "RotatedHorizontalOrVertical" || t == "Aligned",
                "RadialDimension" => t == "Radius",
                "DiameterDimension" => t == "Diameter",
                "AngularThreePointDimension" => t == "AngularThreePoint",
                "OrdinateDimension" => t == "Ordinate",
                _ => false,
            };
            if !ok {
                return None;
            }
        }
        // these belong to what stands before them
        if ["Vertex", "Attribute", "Seqend"].contains(&k.as_str()) || (k == "MText" && prev == "AttributeDefinition") {
            return None;
        }
        prev = k.clone();
        if tab()[&format!("entity:{}", k)].present[vi] != 'a' {
            *m.entry(k).or_insert(0) += 1;
        }
    }
    Some(m)
}
/// save in all formats and versions; the output loads and nothing got lost
fn survive(c: &mut Case, d: &mut Drawing, versions: &[AcadVersion], src: &str) {
    for v in versions {
        d.header.version = *v;
        let vi = vidx(*v);
        for f in [Fmt::Ascii, Fmt::Binary] {
            let b = match guard(|| save(d, f)) {
                Err(p) => { c.attach("drawing.json", &serde_json::to_vec(&full(d)).unwrap_or_default()); c.fail(format!("save:{}", panic_sig(&p)), format!("{} {:?} {:?}: saving panicked: {}", src, v, f, p)); continue; }
                Ok(Err(e)) => { c.attach("drawing.json", &serde_json::to_vec(&full(d)).unwrap_or_default()); c.fail(format!("save:error:{:?}", f), format!("{} {:?}: saving failed: {}", src, v, e)); continue; }
                Ok(Ok(b)) => b,
            };
            c.eval(&b);
            c.count(&format!("saved {}", src), 1);
            let e = match guard(|| load_dx(&b)) {
                Err(p) => { c.attach("output.dxf", &b); c.fail(format!("load:{}", panic_sig(&p)), format!("{} {:?} {:?}: loading the output panicked: {}", src, v, f, p)); continue; }
                Ok(Err(e)) => { c.attach("output.dxf", &b); c.fail(format!("load:error:{:?}", f), format!("{} {:?} {:?}: the output is rejected: {:?}", src, v, f, e)); continue; }
                Ok(Ok(e)) => e,
            };
            let mut counts: Vec<(String, usize, usize)> = vec![];
            if let (Some(x), Some(y)) = (kinds_of(d.entities(), vi), kinds_of(e.entities(), vi)) {
                c.count("entity_counts_compared", 1);
                if x != y {
                    c.attach("output.dxf", &b);
                    c.fail("count:entities", format!("{} {:?} {:?}: saved {:?}, loaded {:?}", src, v, f, x, y));
                }
            }
            let on = |v: &Value| tab().get(&format!("object:{}", kind_of(v))).map(|t| t.present[vi] != 'a').unwrap_or(true);
            if vi >= R13 {
                counts.push(("objects".into(), d.objects().filter(|o| on(&jv(*o))).count(), e.objects().count()));
            }
            counts.push(("blocks".into(), d.blocks().count(), e.blocks().count()));
            for (x, y) in d.blocks().zip(e.blocks()) {
                if let (Some(p), Some(q)) = (kinds_of(x.entities.iter(), vi), kinds_of(y.entities.iter(), vi)) {
                    if p != q {
                        c.attach("output.dxf", &b);
                        c.fail("count:block entities", format!("{} {:?} {:?}: saved {:?}, loaded {:?}", src, v, f, p, q));
                    }
                }
            }
            if d.classes.iter().all(|x| !["ENDSEC"].contains(&x.record_name.as_str())) {
                counts.push(("classes".into(), d.classes.len(), e.classes.len()));
            }
            for (n, x, y) in counts {
                if x != y {
                    c.attach("output.dxf", &b);
                    c.fail(format!("count:{}", n), format!("{} {:?} {:?}: saved {}, loaded {}", src, v, f, x, y));
                }
            }
            for t in TABLES {
                let i = Item::Table(t);
                if tab()[&i.name()].present[vi] != 'a' {
                    let (x, y) = (subjects(d, &i).len(), subjects(&e, &i).len());
                    // names that entities mention are added when they are missing
                    if y < x {
                        c.attach("output.dxf", &b);
                        c.fail(format!("count:table {}", t), format!("{} {:?} {:?}: saved {}, loaded {}", src, v, f, x, y));
                    }
                }
            }
        }
        let mut b = vec![];
        match guard(|| d.save_dxb(&mut b)) {
            Err(p) => c.fail(format!("dxb:{}", panic_sig(&p)), format!("{} saving as DXB panicked: {}", src, p)),
            Ok(Err(e)) => c.fail("dxb:error", format!("{} saving as DXB failed: {:?}", src, e)),
            Ok(Ok(())) => { c.eval(&b); c.count("saved dxb", 1) }
        }
    }
}
fn some_versions(c: &mut Case) -> Vec<AcadVersion> {
    if c.thorough { return VERSIONS.to_vec(); }
    let mut v: Vec<AcadVersion> = (0..3).map(|_| *c.rng.pick(VERSIONS)).collect();
    v.push(AcadVersion::R2018);
    v
}
fn wild_case(c: &mut Case) {
    let v = *c.rng.pick(VERSIONS);
    let mut n = Counts::default();
    let mut rng = c.rng.clone();
    ANY_BOOLS.with(|a| a.set(true));
    let mut d = wild_drawing(v, &mut rng, &mut n);
    ANY_BOOLS.with(|a| a.set(false));
    c.rng = rng;
    c.count("items_not_constructible", n.rejected);
    if c.rng.chance(1, 4) {
        let (w, h) = (1 + c.rng.below(40) as u32, 1 + c.rng.below(40) as u32);
        let k = c.rng.below(6);
        d.thumbnail = Some(match k {
            0 => image::DynamicImage::new_rgb8(w, h),
            1 => image::DynamicImage::new_rgba8(w, h),
            2 => image::DynamicImage::new_luma8(w, h),
            3 => image::DynamicImage::new_luma_a8(w, h),
            4 => image::DynamicImage::new_rgb16(w, h),
            _ => image::DynamicImage::new_rgb32f(w, h),
        });
    }
    if c.rng.chance(1, 4) {
        d.normalize();
    }
    let vs = some_versions(c);
    survive(c, &mut d, &vs, "wild");
}
fn loaded_case(c: &mut Case) {
    let b = match c.rng.below(3) {
        0 => { let p = grammar(&mut c.rng); to_ascii(&p) }
        _ => {
            let d = any_drawing(&mut c.rng);
            let o = any_drawing(&mut c.rng);
            let mut p = file_of(&d, Fmt::Ascii).pairs;
            let q = file_of(&o, Fmt::Ascii).pairs;
            // hostile values, structure kept
            let k = 1 + c.rng.below(40);
            for _ in 0..k {
                let i = c.rng.below(p.len());
                if ![0, 2, 9, 100, 102].contains(&p[i].code) { let code = p[i].code; p[i].val = hostile_val(code, &mut c.rng); }
            }
            if c.rng.chance(1, 3) { mutate(&mut p, &q, &mut c.rng); }
            for x in &mut p { if let Val::S(s) = &mut x.val { if s.contains(['\r', '\n']) { *s = s.replace(['\r', '\n'], "?"); } } }
            to_ascii(&p)
        }
    };
    match guard(|| load_dx(&b)) {
        Ok(Ok(mut d)) => {
            c.count("hostile_files_loaded", 1);
            let vs = some_versions(c);
            let n = c.failures.len();
            survive(c, &mut d, &vs, "loaded");
            if c.failures.len() > n { c.attach("source.dxf", &b); }
        }
        _ => c.count("hostile_files_rejected", 1),
    }
}
pub fn c02(t: bool) -> Check {
    let m = if t { 10 } else { 1 };
    Check {
        id: "C02",
        level: "exploration",
        rule: "one evaluation = one drawing saved in one format and version (and loaded again, unless DXB); distinct by the bytes written",
        families: vec![family("wild", 3000 * m, wild_case), family("loaded", 3000 * m, loaded_case), family("large", 120 * m, |c| { let mut d = large(|| any_drawing(&mut c.rng)); let v = [d.header.version]; survive(c, &mut d, &v, "large") })],
        cpu_limit: 120,
        assumptions: vec!["raw code pairs inside extension groups and XRECORD objects are ones the format allows there".into()],
    }
}

// ---------------------------------------------------------------- C07
fn close(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::F(x), Val::F(y)) => approx(*x, *y) || (x.is_nan() && y.is_nan()),
        _ => a == b,
    }
}
fn both_case(c: &mut Case) {
    let mut d = if !is_large() && c.rng.chance(1, 3) {
        let v = *c.rng.pick(VERSIONS);
        let mut n = Counts::default();
        let mut rng = c.rng.clone();
        // more bytes than one binary value can hold become several values, in ASCII they need not
        CHUNK.with(|c| c.set(255));
        let d = wild_drawing(v, &mut rng, &mut n);
        CHUNK.with(|c| c.set(1000));
        c.rng = rng;
        d
    } else { any_drawing(&mut c.rng) };
    if c.rng.chance(1, 4) {
        let (w, h) = (1 + c.rng.below(20) as u32, 1 + c.rng.below(20) as u32);
        let s = c.rng.next();
        d.thumbnail = Some(image::DynamicImage::ImageRgb8(image::RgbImage::from_fn(w, h, |x, y| image::Rgb([(x as u64).wrapping_mul(s) as u8, (y as u64).wrapping_mul(s) as u8, (s >> 7) as u8]))));
    }
    for v in if is_large() { vec![d.header.version] } else { some_versions(c) } {
        d.header.version = v;
        let (a, b) = match (save(&d, Fmt::Ascii), save(&d, Fmt::Binary)) { (Ok(a), Ok(b)) => (a, b), _ => { c.count("not_saved", 1); continue } };
        let (x, y) = match (parse_ascii(&a), parse_binary(&b)) {
            (Ok(x), Ok(y)) => (x, y),
            (x, y) => { c.attach("ascii.dxf", &a); c.attach("binary.dxf", &b); c.fail("tokens", format!("{:?}: ascii {:?}, binary {:?}", v, x.err(), y.err())); continue; }
        };
        c.eval(&b);
        c.count("pairs_compared", x.len() as u64);
        let k = x.iter().zip(&y).position(|(p, q)| p.code != q.1.code || !close(&p.val, &q.1.val));
        if k.is_some() || x.len() != y.len() {
            let k = k.unwrap_or(x.len().min(y.len()));
            c.attach("ascii.dxf", &a);
            c.attach("binary.dxf", &b);
            c.fail(format!("pair:{}", x.get(k).map(|p| p.code).unwrap_or(-1)), format!("{:?} pair {}: ascii {:?}, binary {:?}", v, k, x.get(k), y.get(k)));
        }
        let (p, q) = (load_dx(&a), load_dx(&b));
        if p.is_err() && q.is_err() { c.count("both_rejected", 1); continue; }
        let (p, q) = (crate::c_io::outcome(&p), crate::c_io::outcome(&q));
        let ds = same(&p, &q, false);
        c.count("loads_compared", 1);
        if !ds.is_empty() {
            c.attach("ascii.dxf", &a);
            c.attach("binary.dxf", &b);
            c.fail(format!("load:{}", place_sig(&ds[0])), format!("{:?}: {}", v, report(&p, &q, &ds)));
        }
    }
}
pub fn c07(t: bool) -> Check {
    Check {
        id: "C07",
        level: "exploration",
        rule: "one evaluation = one drawing saved as ASCII and as binary in one version, tokenised independently and compared pair by pair, and loaded and compared; distinct by the binary bytes",
        families: vec![family("both", if t { 40000 } else { 4000 }, both_case), family("large", if t { 1000 } else { 120 }, |c| large(|| both_case(c)))],
        cpu_limit: 120,
        assumptions: vec!["reals in ASCII carry twelve decimals, so they are compared to 1.1e-12 plus 1e-14 relative".into()],
    }
}

// ---------------------------------------------------------------- C08
/// the bytes; before R13 without the handles a file of that version need not store, which
/// are then assigned anew by every load
fn masked(b: &[u8], f: Fmt, v: AcadVersion) -> Vec<u8> {
    if v >= AcadVersion::R13 { return b.to_vec(); }
    let ps: Result<Vec<Pair>, String> = match f { Fmt::Ascii => parse_ascii(b), Fmt::Binary => parse_binary(b).map(|x| x.into_iter().map(|y| y.1).collect()) };
    let mut ps = match ps { Ok(p) => p, Err(_) => return b.to_vec() };
    for i in 1..ps.len() {
        if ps[i].code == 5 && (ps[i - 1].str() == "$HANDSEED" || ps[i - 1].str() == "ENDBLK") { ps[i].val = Val::S("0".into()); }
    }
    match f { Fmt::Ascii => to_ascii(&ps), Fmt::Binary => to_binary(&ps, wide(v)) }
}
fn stable_case(c: &mut Case) {
    let mut d = match c.rng.below(3) {
        0 => {
            let p = grammar(&mut c.rng);
            match guard(|| load_dx(&to_ascii(&p))) { Ok(Ok(d)) => { c.count("from_hostile_files", 1); d } _ => any_drawing(&mut c.rng) }
        }
        _ => any_drawing(&mut c.rng),
    };
    if c.rng.chance(1, 4) {
        d.thumbnail = Some(image::DynamicImage::ImageRgb8(image::RgbImage::from_fn(7, 5, |x, y| image::Rgb([x as u8 * 30, y as u8 * 40, 9]))));
    }
    if c.rng.chance(1, 6) { d.normalize(); }
    for v in [d.header.version, *c.rng.pick(VERSIONS)] {
        d.header.version = v;
        let before = full(&d);
        for f in [Fmt::Ascii, Fmt::Binary] {
            let (a, b) = (save(&d, f), save(&d, f));
            let (a, b) = match (a, b) { (Ok(a), Ok(b)) => (a, b), _ => continue };
            c.eval(&a);
            if a != b {
                c.fail(format!("twice:{:?}", f), format!("{:?}: saving twice gives different bytes", v));
            }
            let ds = same(&before, &full(&d), true);
            if !ds.is_empty() {
                c.fail(format!("changed:{}", place_sig(&ds[0])), format!("{:?}: saving changed the drawing: {}", v, report(&before, &full(&d), &ds)));
            }
            let d1 = match load_dx(&a) { Ok(x) => x, Err(e) => { c.fail("load", format!("{:?} {:?}: {:?}", v, f, e)); continue } };
            let mut prev = match save(&d1, f) { Ok(x) => x, Err(e) => { c.fail("save", e); continue } };
            let first = prev.clone();
            let mut cur = d1;
            for round in 0..3 {
                let e = match load_dx(&prev) { Ok(x) => x, Err(e) => { c.attach("file.dxf", &prev); c.fail("load", format!("{:?} {:?} round {}: {:?}", v, f, round, e)); break } };
                let mut ds = same(&full(&cur), &full(&e), f == Fmt::Binary);
                if v < AcadVersion::R13 { ds.retain(|p| !p.ends_with("handle") && !p.contains("_handles/")); }
                if !ds.is_empty() && round > 0 {
                    c.attach("file.dxf", &prev);
                    c.fail(format!("drift:{}", place_sig(&ds[0])), format!("{:?} {:?} round {}: {}", v, f, round, report(&full(&cur), &full(&e), &ds)));
                    break;
                }
                let n = match save(&e, f) { Ok(x) => x, Err(e) => { c.fail("save", e); break } };
                c.count("rounds_compared", 1);
                if masked(&n, f, v) != masked(&prev, f, v) {
                    c.attach("first.dxf", &first);
                    c.attach("later.dxf", &n);
                    let k = n.iter().zip(&prev).position(|(x, y)| x != y).unwrap_or(n.len().min(prev.len()));
                    let what = match f { Fmt::Ascii => parse_ascii(&prev).ok().zip(parse_ascii(&n).ok()), Fmt::Binary => parse_binary(&prev).ok().zip(parse_binary(&n).ok()).map(|(a, b)| (a.into_iter().map(|x| x.1).collect(), b.into_iter().map(|x| x.1).collect())) };
                    let (sig, txt) = match what {
                        Some((p, q)) => {
                            let p: Vec<Pair> = p; let q: Vec<Pair> = q;
                            let i = p.iter().zip(&q).position(|(x, y)| x != y).unwrap_or(p.len().min(q.len()));
                            let pos = positions(&p);
                            let x = pos.get(i).cloned().unwrap_or_default();
                            let var = if x.sec == "HEADER" { p[..i].iter().rev().find(|y| y.code == 9).map(|y| y.str().to_string()).unwrap_or_default() } else { x.rec.clone() };
                            (format!("{}:{}:{}", x.sec, var, p.get(i).map(|y| y.code).unwrap_or(-1)), format!("{:?} became {:?}", p.get(i), q.get(i)))
                        }
                        None => ("?".into(), "?".into()),
                    };
                    c.fail(format!("resave:{}", sig), format!("{:?} {:?} round {}: bytes differ from offset {}: {}", v, f, round, k, txt));
                    break;
                }
                prev = n;
                cur = e;
            }
        }
    }
}
pub fn c08(t: bool) -> Check {
    Check {
        id: "C08",
        level: "exploration",
        rule: "one evaluation = one drawing saved twice and then loaded and saved four more times in one format and version; distinct by the bytes of the first save",
        families: vec![family("stable", if t { 30000 } else { 3000 }, stable_case), family("large", if t { 600 } else { 80 }, |c| large(|| stable_case(c)))],
        cpu_limit: 120,
        assumptions: vec![],
    }
}

// ---------------------------------------------------------------- C17
/// (record, subclass marker, count code, which of them, code of what is counted after it)
const LISTS: &[(&str, &str, i32, usize, i32)] = &[
    ("IMAGE", "AcDbRasterImage", 91, 0, 14), ("LEADER", "AcDbLeader", 76, 0, 10), ("LWPOLYLINE", "AcDbPolyline", 90, 0, 10), ("MLINE", "AcDbMline", 72, 0, 11), ("MLINE", "AcDbMline", 74, 0, 41), ("MLINE", "AcDbMline", 75, 0, 42),
    ("SPLINE", "AcDbSpline", 72, 0, 40), ("SPLINE", "AcDbSpline", 73, 0, 10), ("SPLINE", "AcDbSpline", 74, 0, 11),
    ("SECTION", "AcDbSection", 92, 0, 11), ("SECTION", "AcDbSection", 93, 0, 12), ("GEODATA", "AcDbGeoData", 93, 0, 13), ("GEODATA", "AcDbGeoData", 96, 0, 97),
    ("MLINESTYLE", "AcDbMlineStyle", 71, 0, 49), ("SPATIAL_FILTER", "AcDbSpatialFilter", 70, 0, 10), ("WIPEOUT", "AcDbWipeout", 91, 0, 14), ("LIGHTLIST", "AcDbLightList", 90, 1, 5),
    ("SECTIONMANAGER", "AcDbSectionManager", 90, 0, 330), ("SUNSTUDY", "AcDbSunStudy", 73, 0, 290),
];
pub fn well_formed(ps: &[Pair], v: AcadVersion, e: &mut Vec<(String, String)>, seen: &mut BTreeMap<String, u64>) {
    let mut counts = BTreeMap::new();
    let mut bad = |s: &str, d: String| {
        if let Some(x) = s.strip_prefix("seen:") { *counts.entry(format!("lists {}", x)).or_insert(0u64) += 1; }
        else if e.len() < 10 { e.push((s.to_string(), d)) }
    };
    let order = ["HEADER", "CLASSES", "TABLES", "BLOCKS", "ENTITIES", "OBJECTS", "THUMBNAILIMAGE"];
    let mut last = 0usize;
    let mut i = 0;
    let n = ps.len();
    let z = |i: usize| -> &str { if i < n && ps[i].code == 0 { ps[i].str() } else { "" } };
    let next0 = |mut i: usize| -> usize { while i < n && ps[i].code != 0 { i += 1 } i };
    let mut names = vec![];
    while i < n {
        if z(i) == "EOF" {
            if i + 1 != n {
                bad("eof", format!("{} pairs after the end of the file", n - i - 1));
            }
            break;
        }
        if z(i) != "SECTION" || i + 1 >= n || ps[i + 1].code != 2 {
            bad("section", format!("pair {}: expected a section, found {:?}", i, ps[i]));
            return;
        }
        let name = ps[i + 1].str().to_string();
        match order.iter().position(|x| *x == name) {
            None => bad("section name", format!("section {:?}", name)),
            Some(k) => {
                if names.contains(&name) { bad("section twice", name.clone()); }
                if k < last { bad("section order", format!("{} after {}", name, order[last])); }
                last = k;
            }
        }
        names.push(name.clone());
        i += 2;
        match name.as_str() {
            "HEADER" => {
                let mut first = true;
                while i < n && ps[i].code != 0 {
                    if ps[i].code != 9 || !ps[i].str().starts_with('$') { bad("header variable", format!("pair {} {:?}", i, ps[i])); return; }
                    if first && ps[i].str() != "$ACADVER" { bad("header version", format!("{:?} comes first", ps[i])); }
                    first = false;
                    let s = i;
                    i += 1;
                    while i < n && ps[i].code != 0 && ps[i].code != 9 { i += 1 }
                    if i == s + 1 { bad("header value", format!("{:?} has no value", ps[s])); }
                    *seen.entry("header variables".into()).or_insert(0) += 1;
                }
            }
            "TABLES" => {
                while z(i) == "TABLE" {
                    let t = if i + 1 < n && ps[i + 1].code == 2 { ps[i + 1].str().to_string() } else { bad("table name", format!("pair {}", i)); return; };
                    i = next0(i + 1);
                    while i < n && z(i) != "ENDTAB" {
                        if z(i) != t { bad("table entry", format!("{:?} in table {}", ps[i], t)); return; }
                        let s = i;
                        i = next0(i + 1);
                        if !ps[s..i].iter().any(|p| p.code == 2) { bad("entry name", format!("entry of {} without a name", t)); }
                        record(&ps[s..i], &mut bad);
                        *seen.entry("table entries".into()).or_insert(0) += 1;
                    }
                    if z(i) != "ENDTAB" { bad("table end", format!("table {} is not closed", t)); return; }
                    i += 1;
                }
            }
            "BLOCKS" => {
                while z(i) == "BLOCK" {
                    let s = i;
                    i = next0(i + 1);
                    record(&ps[s..i], &mut bad);
                    let head = i;
                    match entities(ps, i, "ENDBLK", &mut bad, seen) { Some(k) => i = k, None => return }
                    let end = i;
                    i = next0(i + 1);
                    // the end of a block is in the layer and space of the block
                    for code in if v >= AcadVersion::R2000 { &[8, 67, 330][..] } else { &[8, 67] } {
                        let code = *code;
                        let of = |r: &[Pair]| own_pairs(r).into_iter().filter(|p| p.code == code).map(|p| p.text()).collect::<Vec<_>>();
                        let (x, y) = (of(&ps[s..head]), of(&ps[end..i]));
                        if x != y { bad(&format!("endblk:{}", code), format!("{} is {:?} in BLOCK and {:?} in ENDBLK", code, x, y)); }
                    }
                    let groups = |r: &[Pair]| r.iter().filter(|p| p.code == 102).map(|p| p.text()).collect::<Vec<_>>();
                    if groups(&ps[s..head]) != groups(&ps[end..i]) { bad("endblk:102", "the extension groups of BLOCK and ENDBLK differ".into()); }
                    *seen.entry("blocks".into()).or_insert(0) += 1;
                }
            }
            "ENTITIES" => match entities(ps, i, "ENDSEC", &mut bad, seen) { Some(k) => i = k, None => return },
            "THUMBNAILIMAGE" => {
                if i >= n || ps[i].code != 90 { bad("thumbnail size", format!("{:?}", ps.get(i))); return; }
                let want = if let Val::I(x) = ps[i].val { x } else { -1 };
                i += 1;
                let mut len = 0;
                while i < n && ps[i].code == 310 {
                    if let Val::B(b) = &ps[i].val { len += b.len() as i64; if b.len() > 254 { bad("chunk", format!("{} bytes", b.len())); } }
                    i += 1;
                }
                if len != want { bad("thumbnail size", format!("{} declared, {} present", want, len)); }
                *seen.entry("thumbnails".into()).or_insert(0) += 1;
            }
            _ => {
                while i < n && z(i) != "ENDSEC" {
                    if ps[i].code != 0 { bad("record", format!("{}: {:?}", name, ps[i])); return; }
                    if name == "CLASSES" && v >= AcadVersion::R14 && z(i) != "CLASS" { bad("class", format!("{:?}", ps[i])); }
                    let s = i;
                    i = next0(i + 1);
                    record(&ps[s..i], &mut bad);
                    *seen.entry(name.to_lowercase()).or_insert(0) += 1;
                }
            }
        }
        if z(i) != "ENDSEC" {
            bad("section end", format!("section {} ends with {:?}", name, ps.get(i)));
            return;
        }
        i += 1;
    }
    if i >= n || z(i) != "EOF" { bad("no eof", "the file does not end with EOF".into()); }
    for must in ["HEADER", "TABLES", "ENTITIES"] {
        if !names.iter().any(|x| x == must) { bad("missing section", must.to_string()); }
    }
    for (k, n) in counts { *seen.entry(k).or_insert(0) += n; }
}
fn entities(ps: &[Pair], mut i: usize, end: &str, bad: &mut impl FnMut(&str, String), seen: &mut BTreeMap<String, u64>) -> Option<usize> {
    let n = ps.len();
    let z = |i: usize| -> &str { if i < n && ps[i].code == 0 { ps[i].str() } else { "" } };
    let next0 = |mut i: usize| -> usize { while i < n && ps[i].code != 0 { i += 1 } i };
    while i < n && z(i) != end {
        if ["ENDSEC", "ENDBLK", "ENDTAB", "BLOCK", "TABLE", "EOF"].contains(&z(i)) || z(i) == "SECTION" && ps.get(i + 1).map(|p| p.code) == Some(2) {
            bad("nesting", format!("pair {}: {:?} before {}", i, ps[i], end));
            return None;
        }
        let s = i;
        i = next0(i + 1);
        record(&ps[s..i], bad);
        *seen.entry("entities".into()).or_insert(0) += 1;
        let own: Vec<&Pair> = own_pairs(&ps[s..i]);
        let seq = match z(s) {
            "POLYLINE" => Some("VERTEX"),
            "INSERT" if own.iter().any(|p| p.code == 66 && p.val == Val::I(1)) => Some("ATTRIB"),
            _ => None,
        };
        if let Some(child) = seq {
            let mut k = 0;
            loop {
                let t = z(i);
                if t == child || (child == "ATTRIB" && t == "MTEXT" && k > 0) {
                    let s = i;
                    i = next0(i + 1);
                    record(&ps[s..i], bad);
                    k += 1;
                } else { break }
            }
            if child == "ATTRIB" && k == 0 { bad("sequence", "an INSERT announces attributes but none follows".into()); }
            if z(i) != "SEQEND" { bad("sequence", format!("the {} sequence ends with {:?}", child, ps.get(i))); return Some(i); }
            i = next0(i + 1);
            *seen.entry("sequences".into()).or_insert(0) += 1;
        } else if z(s) == "INSERT" && z(i) == "ATTRIB" && false {
            bad("sequence", "attributes follow an INSERT that does not announce them".into());
        }
    }
    if z(i) != end { bad("nesting", format!("{} is missing", end)); return None; }
    Some(i)
}
/// the record without its extension groups and extended data
fn own_pairs(r: &[Pair]) -> Vec<&Pair> {
    let mut v = vec![];
    let mut depth = 0;
    for p in r {
        if p.code >= 1000 { break; }
        if p.code == 102 {
            if p.str().starts_with('{') { depth += 1 } else if p.str() == "}" { depth -= 1 }
            continue;
        }
        if depth == 0 { v.push(p) }
    }
    v
}
fn record(r: &[Pair], bad: &mut impl FnMut(&str, String)) {
    let name = r[0].str();
    // groups
    if name != "XRECORD" {
        let mut stack = vec![];
        for p in r {
            match (p.code, p.str()) {
                (102, s) if s.starts_with('{') => stack.push(102),
                (102, "}") => { if stack.pop() != Some(102) { bad("group", format!("{}: a group is closed that is not open", name)); } }
                (1002, "{") => stack.push(1002),
                (1002, "}") => { if stack.pop() != Some(1002) { bad("group", format!("{}: a list is closed that is not open", name)); } }
                _ => (),
            }
        }
        if !stack.is_empty() { bad("group", format!("{}: {} groups are not closed", name, stack.len())); }
    }
    let own = own_pairs(r);
    for (rec, marker, count, nth, item) in LISTS {
        if *rec != name { continue; }
        let at = match own.iter().position(|p| p.code == 100 && p.str() == *marker) { Some(x) => x, None => continue };
        if let Some((i, x)) = own.iter().enumerate().skip(at).filter(|p| p.1.code == *count).nth(*nth) {
            if let Val::I(x) = x.val {
                let k = own[i..].iter().filter(|p| p.code == *item).count() as i64;
                bad(&format!("seen:{}:{}", name, count), String::new());
                if x != k { bad(&format!("count:{}:{}:{}", name, count, item), format!("{}: {} declared under {}, {} present under {}", name, x, count, k, item)); }
            }
        }
    }
}
/// handles stand in every record, or in none where the file has no handles
fn handle_pairs(ps: &[Pair], v: AcadVersion, on: bool, e: &mut Vec<(String, String)>) -> u64 {
    let pos = crate::c_text::positions(ps);
    let starts: Vec<usize> = (0..ps.len()).filter(|i| ps[*i].code == 0).chain([ps.len()]).collect();
    let mut seen = 0;
    for w in starts.windows(2) {
        let (s, t) = (w[0], w[1]);
        let n = ps[s].str();
        if pos[s].start || ["ENDSEC", "EOF", "TABLE", "ENDTAB", "DIMSTYLE", "XRECORD"].contains(&n) || !["TABLES", "BLOCKS", "ENTITIES", "OBJECTS"].contains(&pos[s].sec.as_str()) { continue; }
        // the text of an attribute has no handle of its own
        if n == "MTEXT" && s > 0 && ["ATTRIB", "ATTDEF"].contains(&pos[s - 1].rec.as_str()) { continue; }
        let own = own_pairs(&ps[s..t]);
        let k = own.iter().filter(|p| p.code == 5).count();
        seen += 1;
        let want = on && (n != "BLOCK" || v >= AcadVersion::R13);
        if want && own.get(1).map(|p| p.code) != Some(5) && e.len() < 10 { e.push((format!("handle missing:{}", n), format!("{} without a handle", n))); }
        if !want && k > 0 && e.len() < 10 { e.push((format!("handle:{}", n), format!("{} has a handle though the file has none", n))); }
    }
    seen
}
fn formed_case(c: &mut Case) {
    let mut own = false;
    let mut d = match c.rng.below(4) {
        0 => {
            let v = *c.rng.pick(VERSIONS);
            let mut n = Counts::default();
            let mut rng = c.rng.clone();
            let d = wild_drawing(v, &mut rng, &mut n);
            c.rng = rng;
            d
        }
        1 => {
            let p = grammar(&mut c.rng);
            match guard(|| load_dx(&to_ascii(&p))) { Ok(Ok(d)) => d, _ => any_drawing(&mut c.rng) }
        }
        _ => { own = true; any_drawing(&mut c.rng) }
    };
    if own && c.rng.chance(1, 3) { d.header.handles_enabled = !d.header.handles_enabled; }
    if c.rng.chance(1, 3) {
        let (w, h) = (1 + c.rng.below(30) as u32, 1 + c.rng.below(30) as u32);
        d.thumbnail = Some(image::DynamicImage::new_rgb8(w, h));
    }
    // loose children make no sequence of their own
    let loose = d.entities().chain(d.blocks().flat_map(|b| b.entities.iter())).any(|e| matches!(e.specific, EntityType::Vertex(_) | EntityType::Attribute(_) | EntityType::Seqend(_)));
    if loose || d.classes.iter().any(|x| x.record_name == "ENDSEC") { c.count("skipped_ambiguous", 1); return; }
    for v in some_versions(c) {
        d.header.version = v;
        for f in [Fmt::Ascii, Fmt::Binary] {
            let b = match save(&d, f) { Ok(b) => b, Err(_) => continue };
            c.eval(&b);
            let ps = match f { Fmt::Ascii => parse_ascii(&b), Fmt::Binary => parse_binary(&b).map(|x| x.into_iter().map(|y| y.1).collect()) };
            let ps = match ps { Ok(p) => p, Err(e) => { c.attach("output.dxf", &b); c.fail(format!("tokens:{:?}", f), format!("{:?}: {}", v, e)); continue } };
            if f == Fmt::Ascii {
                if b.iter().enumerate().any(|(i, x)| *x == b'\r' && b.get(i + 1) != Some(&b'\n') || *x == b'\n' && (i == 0 || b[i - 1] != b'\r') || *x == 0) {
                    c.attach("output.dxf", &b);
                    c.fail("line breaks", format!("{:?}: a line break or NUL inside a line", v));
                }
            } else {
                let w = wide(v);
                if (b.get(SENTINEL.len() + 1) == Some(&0)) != w { c.fail("code width", format!("{:?}: group codes of the wrong width", v)); }
            }
            c.count("pairs_checked", ps.len() as u64);
            let (mut e, mut seen) = (vec![], BTreeMap::new());
            well_formed(&ps, v, &mut e, &mut seen);
            for (k, n) in seen { c.count(&format!("seen {}", k), n); }
            if own {
                let k = handle_pairs(&ps, v, v >= AcadVersion::R13 || d.header.handles_enabled, &mut e);
                c.count("records_with_handle_rule", k);
            }
            if !e.is_empty() { c.attach("output.dxf", &b); }
            for (s, t) in e { c.fail(s, format!("{:?} {:?}: {}", v, f, t)); }
        }
    }
}
pub fn c17(t: bool) -> Check {
    Check {
        id: "C17",
        level: "exploration",
        rule: "one evaluation = one saved file, tokenised by an independent parser and checked against the grammar of the format; distinct by content",
        families: vec![family("formed", if t { 40000 } else { 4000 }, formed_case), family("large", if t { 1000 } else { 120 }, |c| large(|| formed_case(c)))],
        cpu_limit: 120,
        assumptions: vec!["loose VERTEX, ATTRIB and SEQEND entities are not part of any sequence and are left out".into()],
    }
}
