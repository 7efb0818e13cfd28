//! C25: flag and convenience accessors touch only what they name.
use crate::flagtab::flags;
use crate::fw::*;
use crate::gen::*;
use crate::lab::*;
use crate::mini::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::schema::*;
use crate::types::*;
use dxf::entities::*;
use dxf::enums::ViewMode;
use dxf::objects::*;
use dxf::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

pub struct Flag {
    pub item: Item,
    pub word: &'static str,
    pub name: &'static str,
    pub mask: i64,
    /// sets the flag if asked to; what the getter then says and the item
    pub apply: fn(&Value, Option<bool>) -> (bool, Value),
}
pub fn ap<T: Serialize + DeserializeOwned>(v: &Value, set: Option<bool>, g: fn(&T) -> bool, s: fn(&mut T, bool)) -> (bool, Value) {
    let mut t: T = serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("harness: {}", e));
    if let Some(b) = set { s(&mut t, b) }
    (g(&t), jv(&t))
}
fn words(r: &mut Rng, wide: bool) -> Vec<i64> {
    let n = if wide { 32 } else { 16 };
    let ext = |x: u64| if wide { x as u32 as i32 as i64 } else { x as u16 as i16 as i64 };
    let mut v = vec![0, -1, ext(0x5555_5555), ext(0xAAAA_AAAA)];
    for i in 0..n { v.push(ext(1 << i)); v.push(ext(!(1u64 << i))); }
    for _ in 0..40 { v.push(ext(r.next())); }
    v
}
fn any_base(f: &Flag, r: &mut Rng) -> Value {
    if r.chance(1, 3) { f.item.default_value() } else { item_value(&f.item.name(), vidx(*r.pick(VERSIONS)), r, 1, 3) }
}
fn flag_case(c: &mut Case) {
    let all = flags();
    let f = &all[(c.idx % all.len() as u64) as usize];
    let id = format!("{}.{}", f.item.name(), f.name);
    let mut b = any_base(f, &mut c.rng);
    // 16 or 32 bits: whatever the field takes
    b[f.word] = json!(1 << 20);
    let wide = f.item.check(b.clone()).is_ok();
    for w in words(&mut c.rng, wide) {
        if c.rng.chance(1, 20) { b = any_base(f, &mut c.rng); }
        b[f.word] = json!(w);
        c.eval(format!("{}{}", id, w));
        let (g, same0) = (f.apply)(&b, None);
        if g != (w & f.mask != 0) { c.fail(format!("get:{}", id), format!("{} is {} for {} {}", id, g, f.word, w)); return; }
        if same0 != b { let mut o = vec![]; diff("", &b, &same0, true, &mut o); if !o.is_empty() { c.fail(format!("get:changes:{}", id), format!("{}: reading changed {:?}", id, o)); return; } }
        for val in [true, false] {
            let (g, after) = (f.apply)(&b, Some(val));
            if g != val { c.fail(format!("set:{}", id), format!("{} set to {} with {} {} reads {}", id, val, f.word, w, g)); return; }
            let want = if val { w | f.mask } else { w & !f.mask };
            if after[f.word] != json!(want) { c.fail(format!("word:{}", id), format!("{} set to {}: {} {} became {}, expected {}", id, val, f.word, w, after[f.word], want)); return; }
            let mut e = b.clone();
            e[f.word] = json!(want);
            let mut o = vec![];
            diff("", &e, &after, true, &mut o);
            if !o.is_empty() { c.fail(format!("others:{}", id), format!("{} set to {} changed {:?} too", id, val, o)); return; }
            c.count("sets_judged", 1);
        }
    }
}
/// the bit in the file
fn file_case(c: &mut Case) {
    let all = flags();
    let f = &all[(c.idx % all.len() as u64) as usize];
    let id = format!("{}.{}", f.item.name(), f.name);
    let mut written = 0;
    for k in 0..VERSIONS.len() {
        let v = VERSIONS[VERSIONS.len() - 1 - k];
        if k > 3 && written > 0 && !c.rng.chance(1, 3) { continue; }
        let fmt = any_fmt(&mut c.rng);
        let mut b = f.item.default_value();
        if matches!(f.item, Item::Block) { b["name"] = json!("SUBJECT"); }
        if matches!(f.item, Item::Class) { b["record_name"] = json!("SUBJECT"); }
        let w = c.rng.next() as i64 & 0x7fff;
        b[f.word] = json!(w);
        let (_, on) = (f.apply)(&b, Some(true));
        let (_, off) = (f.apply)(&b, Some(false));
        let make = |x: &Value| -> Result<Drawing, String> { let mut d = new_drawing(v); add_subject(&mut d, &f.item, x)?; Ok(d) };
        let (Ok(d1), Ok(d0)) = (make(&on), make(&off)) else { c.fail("harness:subject", id); return; };
        let (Ok(f1), Ok(f0)) = (guard(|| file_of(&d1, fmt)), guard(|| file_of(&d0, fmt))) else { continue };
        if f1.pairs == f0.pairs { continue; }
        c.eval(&f1.bytes);
        let changed: Vec<(&Pair, &Pair)> = f1.pairs.iter().zip(&f0.pairs).filter(|(a, b)| a != b && a.code != 100).collect();
        if f1.pairs.len() != f0.pairs.len() || changed.is_empty() { c.count("structure_differs", 1); continue; }
        written += 1;
        for (a, b) in &changed {
            match (&a.val, &b.val) {
                (Val::I(x), Val::I(y)) if x ^ y == f.mask && x & f.mask != 0 => c.count("bits_in_files", 1),
                _ => { c.fail(format!("file:{}", id), format!("{:?} {:?}: {} changes {:?} to {:?} in the file, expected bit {}", v, fmt, id, b, a, f.mask)); return; }
            }
        }
        if changed.len() > 1 { c.fail(format!("file:more:{}", id), format!("{:?}: {} changes {} pairs: {:?}", v, id, changed.len(), changed)); return; }
        for (d, want) in [(&f1, true), (&f0, false)] {
            let Ok(Ok(g)) = guard(|| load(&d.bytes)) else { continue };
            let s = subjects(&g, &f.item);
            let Some(x) = s.iter().rev().find(|x| match f.item { Item::Block => x["name"] == json!("SUBJECT"), Item::Class => x["record_name"] == json!("SUBJECT"), _ => true }) else { continue };
            if x.get("__other").is_some() { continue; }
            let (y, _) = (f.apply)(x, None);
            if y != want { c.attach("input.dxf", &d.bytes); c.fail(format!("read:{}", id), format!("{:?} {:?}: {} saved as {} reads {}", v, fmt, id, want, y)); return; }
            c.count("bits_read", 1);
        }
    }
    if written == 0 { c.count("never_written", 1); c.sample = Some(json!(format!("{} is written in no version", id))); }
}
fn view_case(c: &mut Case) {
    type G = fn(ViewMode) -> bool;
    type S = fn(&mut ViewMode, bool);
    let rows: [(&str, G, S, i32, bool); 5] = [
        ("perspective", ViewMode::is_perspective_view_active, ViewMode::set_is_perspective_view_active, 1, false),
        ("front", ViewMode::is_front_clipping_on, ViewMode::set_is_front_clipping_on, 2, false),
        ("back", ViewMode::is_back_clipping_on, ViewMode::set_is_back_clipping_on, 4, false),
        ("ucs_follow", ViewMode::is_ucs_follow_mode_on, ViewMode::set_is_ucs_follow_mode_on, 8, false),
        ("at_eye", ViewMode::is_front_clipping_at_eye, ViewMode::set_is_front_clipping_at_eye, 16, true),
    ];
    for i in 0..2048i32 {
        let w = (c.idx as i32 * 2048 + i - 32768) as i16;
        let v = ViewMode::from_i16(w);
        c.eval(w.to_le_bytes());
        if v.raw() != w as i32 { c.fail("view:raw", format!("{} becomes {}", w, v.raw())); return; }
        for (n, g, s, m, inv) in &rows {
            if g(v) != ((w as i32 & m != 0) != *inv) { c.fail(format!("view:get:{}", n), format!("{} of {}: {}", n, w, g(v))); return; }
            for val in [true, false] {
                let mut x = v;
                s(&mut x, val);
                let want = if val != *inv { w as i32 | m } else { w as i32 & !m };
                if g(x) != val || x.raw() != want { c.fail(format!("view:set:{}", n), format!("{} of {} set to {}: reads {}, word {}", n, w, val, g(x), x.raw())); return; }
            }
        }
    }
}
/// values that a constructor takes end up in the fields of that name, the others keep their defaults
fn construct_case(c: &mut Case) {
    let p = |r: &mut Rng| Point::new(hostile_fin(r), hostile_fin(r), hostile_fin(r));
    fn hostile_fin(r: &mut Rng) -> f64 { loop { let x = hostile_real(r); if x.is_finite() { return x; } } }
    for _ in 0..10 {
        let r = &mut c.rng;
        let (a, b, q, d) = (p(r), p(r), p(r), p(r));
        let (x, y, z) = (hostile_fin(r), hostile_fin(r), hostile_fin(r));
        let t = (*r.pick(WORDS)).to_string();
        let k = Color::from_index(r.next() as u8);
        let corners = json!({"first_corner": jv(&a), "second_corner": jv(&b), "third_corner": jv(&q), "fourth_corner": jv(&d)});
        let rows: Vec<(&str, Value, Value, Value)> = vec![
            ("Arc", jv(&Arc::new(a.clone(), x, y, z)), jv(&Arc::default()), json!({"center": jv(&a), "radius": x, "start_angle": y, "end_angle": z})),
            ("Circle", jv(&Circle::new(a.clone(), x)), jv(&Circle::default()), json!({"center": jv(&a), "radius": x})),
            ("Line", jv(&Line::new(a.clone(), b.clone())), jv(&Line::default()), json!({"p1": jv(&a), "p2": jv(&b)})),
            ("ModelPoint", jv(&ModelPoint::new(a.clone())), jv(&ModelPoint::default()), json!({"location": jv(&a)})),
            ("Vertex", jv(&Vertex::new(a.clone())), jv(&Vertex::default()), json!({"location": jv(&a)})),
            ("Face3D", jv(&Face3D::new(a.clone(), b.clone(), q.clone(), d.clone())), jv(&Face3D::default()), corners.clone()),
            ("Solid", jv(&Solid::new(a.clone(), b.clone(), q.clone(), d.clone())), jv(&Solid::default()), corners.clone()),
            ("Trace", jv(&Trace::new(a.clone(), b.clone(), q.clone(), d.clone())), jv(&Trace::default()), corners.clone()),
            ("GeoMeshPoint", jv(&GeoMeshPoint::new(a.clone(), b.clone())), json!({"source": null, "destination": null}), json!({"source": jv(&a), "destination": jv(&b)})),
            ("MLineStyleElement", jv(&MLineStyleElement::new(x, k.clone(), t.clone())), json!({"offset": null, "color": null, "line_type": null}), json!({"offset": x, "color": jv(&k), "line_type": t})),
        ];
        for (n, got, mut want, set) in rows {
            for (k, v) in set.as_object().unwrap() { want[k] = v.clone(); }
            c.eval(got.to_string());
            if got != want { c.fail(format!("new:{}", n), format!("{} made of {} is {}", n, set, got)) }
        }
        // an entity or object made of its specific part
        let kind = *c.rng.pick(ENTITIES);
        let e = entity_default(kind);
        let want = json!({"common": jv(&EntityCommon::default()), "specific": jv(&e)});
        if jv(&Entity::new(e)) != want { c.fail("new:Entity", kind) }
        let kind = *c.rng.pick(OBJECTS);
        let o = object_default(kind);
        let o2 = jv(&o);
        let w = jv(&Object::new(o));
        let want = json!({"common": jv(&ObjectCommon::default()), "specific": o2});
        let mut ds = vec![];
        diff("", &want, &w, true, &mut ds);
        if !ds.is_empty() { c.fail("new:Object", format!("{} {:?}", kind, ds)) }
        // halves of the drawing format of a proxy
        let w = c.rng.next() as u32;
        let (lo, hi) = (c.rng.next() as u16 as i32, c.rng.next() as u16 as i32);
        let mut px: ProxyEntity = { let mut j = jv(&ProxyEntity::default()); j["__object_drawing_format"] = json!(w); serde_json::from_value(j).expect("harness: proxy") };
        let g = |p: &ProxyEntity| (p.object_drawing_format_version(), p.object_maintenance_release_version());
        if g(&px) != ((w & 0xffff) as i32, (w >> 16) as i32) { c.fail("proxy:get", format!("{:X}: {:?}", w, g(&px))) }
        px.set_object_drawing_format_version(lo);
        if g(&px) != (lo, (w >> 16) as i32) { c.fail("proxy:version", format!("{:X} {:X}: {:?}", w, lo, g(&px))) }
        px.set_object_mainenance_release_version(hi);
        if g(&px) != (lo, hi) { c.fail("proxy:release", format!("{:X} {:X}: {:?}", w, hi, g(&px))) }
        // code pairs
        let code = any_code(&mut c.rng);
        let off = c.rng.below(100000);
        let s = hostile_text(&mut c.rng);
        let n = c.rng.next();
        let by = c.rng.bytes(5);
        let vals: Vec<(&str, CodePair, CodePair)> = vec![
            ("bool", CodePair::new_bool(code, n & 1 == 1), CodePair::new(code, CodePairValue::Boolean((n & 1) as i16), 0)),
            ("i16", CodePair::new_i16(code, n as i16), CodePair::new(code, CodePairValue::Short(n as i16), 0)),
            ("i32", CodePair::new_i32(code, n as i32), CodePair::new(code, CodePairValue::Integer(n as i32), 0)),
            ("i64", CodePair::new_i64(code, n as i64), CodePair::new(code, CodePairValue::Long(n as i64), 0)),
            ("f64", CodePair::new_f64(code, x), CodePair::new(code, CodePairValue::Double(x), 0)),
            ("str", CodePair::new_str(code, &s), CodePair::new(code, CodePairValue::Str(s.clone()), 0)),
            ("str", CodePair::new_string(code, &s), CodePair::new(code, CodePairValue::Str(s.clone()), 0)),
            ("bin", CodePair::new_binary(code, by.clone()), CodePair::new(code, CodePairValue::Binary(by.clone()), 0)),
        ];
        for (t, a, b) in vals {
            if jv(&a) != jv(&b) || a.code != code { c.fail(format!("pair:new_{}", t), format!("{:?} and {:?}", a, b)) }
            let a = CodePair::new(a.code, a.value.clone(), off);
            let ok = [("bool", a.assert_bool().is_ok()), ("i16", a.assert_i16().is_ok()), ("i32", a.assert_i32().is_ok()), ("i64", a.assert_i64().is_ok()), ("f64", a.assert_f64().is_ok()), ("str", a.assert_string().is_ok()), ("bin", a.assert_binary().is_ok())];
            for (u, got) in ok {
                let want = u == t || (u == "i16" && t == "bool");
                if got != want { c.fail(format!("pair:assert_{}", u), format!("{:?} as {}: {}", a, u, got)) }
            }
            let same = match t {
                "bool" => a.assert_bool().ok() == Some(n & 1 == 1),
                "i16" => a.assert_i16().ok() == Some(n as i16),
                "i32" => a.assert_i32().ok() == Some(n as i32),
                "i64" => a.assert_i64().ok() == Some(n as i64),
                "f64" => a.assert_f64().ok().map(f64::to_bits) == Some(x.to_bits()),
                "str" => a.assert_string().ok().as_deref() == Some(&*s),
                _ => a.assert_binary().ok().as_deref() == Some(&*by),
            };
            if !same { c.fail(format!("pair:value_{}", t), format!("{:?}", a)) }
            if let Err(e) = a.assert_i64() { if !matches!(&e, DxfError::WrongValueType(o) if *o == off) { c.fail("pair:error", format!("{:?} at {}", e, off)) } }
        }
    }
}
pub fn c25(t: bool) -> Check {
    let m = if t { 10 } else { 1 };
    let n = flags().len() as u64;
    Check {
        id: "C25",
        level: "exploration",
        rule: "one evaluation = one flag of one item judged for one prior flag word and both values, one pair of files that differ in one flag, or one value built by a constructor; distinct by flag, word and content",
        families: vec![family("flag", n * 2 * m, flag_case), family("file", n * 2 * m, file_case), family("view", 32, view_case), family("construct", 60 * m, construct_case)],
        cpu_limit: 120,
        assumptions: vec!["the flags, their words and bit values are a committed table compared with the DXF reference".into()],
    }
}
