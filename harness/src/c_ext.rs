//! C21: extended data and extension groups survive, and stay where they belong.
use crate::c_num::*;
use crate::c_str::hard_text;
use crate::c_text::*;
use crate::fw::*;
use crate::gen::*;
use crate::lab::*;
use crate::mini::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::schema::*;
use crate::tab::*;
use crate::types::*;
use dxf::Drawing;
use serde_json::{json, Value};
use std::collections::BTreeMap;

fn txt(r: &mut Rng) -> String {
    let s = if r.chance(1, 3) { hard_text(r) } else if r.chance(1, 3) { (*r.pick(WORDS)).to_string() } else { text(r) };
    s.replace("\\U+", "\\u+")
}
/// names an application could have chosen, with the marks of groups in them
fn app_name(tag: &str, r: &mut Rng) -> String {
    match r.below(8) {
        0 | 1 => format!("{}{}", tag, txt(r)),
        2 => format!("{}{}", r.pick(&["{", "{{", "}", "}}", "{}", " ", "  ", "\t", "_", "*", "\"", "-1", "0", "102"]), tag),
        3 => (*r.pick(&["", "{", "{{", "}", "{}", " ", "0", "ACAD", "ACAD_REACTORS", "ACAD_XDICTIONARY", "{ACAD_REACTORS", "acad_reactors", "BLKREFS", "}}", "EOF", "ENDSEC"])).to_string(),
        _ => tag.to_string(),
    }
}
fn xitem(r: &mut Rng, depth: usize) -> Value {
    let f = wild_real;
    match r.below(if depth < 4 { 16 } else { 13 }) {
        0 => json!({"Str": txt(r)}),
        1 => json!({"LayerName": txt(r)}),
        2 => { let n = *r.pick(&[0usize, 1, 2, 30, 127, 128, 254, 255, 256, 300]); json!({"BinaryData": r.bytes(n)}) }
        3 => json!({"Handle": r.next() >> r.below(64)}),
        4 => json!({"ThreeReals": [f(r), f(r), f(r)]}),
        5 => json!({"WorldSpacePosition": {"x": f(r), "y": f(r), "z": f(r)}}),
        6 => json!({"WorldSpaceDisplacement": {"x": f(r), "y": f(r), "z": f(r)}}),
        7 => json!({"WorldDirection": {"x": f(r), "y": f(r), "z": f(r)}}),
        8 => json!({"Real": f(r)}),
        9 => json!({"Distance": f(r)}),
        10 => json!({"ScaleFactor": f(r)}),
        11 => json!({"Integer": *r.pick(&[0, 1, -1, 300, 32767, -32768])}),
        12 => json!({"Long": *r.pick(&[0, 1, -1, 70000, i32::MAX, i32::MIN])}),
        _ => { let n = r.below(5); json!({"ControlGroup": (0..n).map(|_| xitem(r, depth + 1)).collect::<Vec<_>>()}) }
    }
}
fn xchain(n: usize, r: &mut Rng) -> Value {
    let mut v = xitem(r, 9);
    for i in 0..n {
        let mut a = vec![v];
        if r.chance(1, 6) { a.push(xitem(r, 9)); }
        if i > 0 && r.chance(1, 6) { a.insert(0, json!({"ControlGroup": []})); }
        let _ = i;
        v = json!({"ControlGroup": a});
    }
    v
}
/// extended data of several applications
pub fn xdata(tag: &str, r: &mut Rng) -> Value {
    let mut n = *r.pick(&[1usize, 1, 2, 3, 5]);
    let big = if is_large() { r.below(4) } else { 9 };
    if big == 0 { n = crate::big::size(r, 600); }
    if big == 3 { let k = crate::big::size(r, 1200); return json!([{"application_name": tag, "items": [{"ControlGroup": (0..k).map(|_| xitem(r, 3)).collect::<Vec<_>>()}, {"Integer": 5}]}]); }
    Value::Array((0..n).map(|i| {
        let mut m = *r.pick(&[0usize, 1, 2, 4, 9]);
        if i == 0 && (1..3).contains(&big) { m = crate::big::size(r, 1500); }
        let mut items: Vec<Value> = (0..m).map(|_| xitem(r, 0)).collect();
        if r.chance(1, 10) { let k = *r.pick(&[8usize, 40, 128]); items.push(xchain(k, r)); }
        let name = app_name(&format!("{}{}", tag, i / 2), r);
        json!({"application_name": name, "items": items})
    }).collect())
}
fn pair_value(code: i32, r: &mut Rng) -> Value {
    match vtype(code).unwrap() {
        VT::Str => json!({"Str": if code == 1004 { "0AFF".to_string() } else { txt(r) }}),
        VT::F64 => json!({"Double": wild_real(r)}),
        VT::I16 => json!({"Short": hostile_int(r, -32768, 32767)}),
        VT::I32 => json!({"Integer": hostile_int(r, i32::MIN as i64, i32::MAX as i64)}),
        VT::I64 => json!({"Long": hostile_int(r, i64::MIN, i64::MAX)}),
        VT::Bool => json!({"Boolean": r.below(2)}),
        VT::Bin => { let n = *r.pick(&[1usize, 2, 100, 127, 255]); json!({"Binary": r.bytes(n)}) }
    }
}
fn group(tag: &str, depth: usize, r: &mut Rng) -> Value {
    let mut m = *r.pick(&[0usize, 1, 1, 2, 4, 8]);
    if is_large() && depth < 2 && r.chance(1, 2) { m = crate::big::size(r, if depth == 0 { 500 } else { 120 }); }
    let items: Vec<Value> = (0..m).map(|k| {
        if depth < 4 && r.chance(1, 5) {
            json!({"Group": group(&format!("{}n{}", tag, k), depth + 1, r)})
        } else {
            let code = loop { let c = any_code(r); if c != 0 && c != 102 && c != 999 { break c; } };
            json!({"CodePair": {"code": code, "value": pair_value(code, r), "offset": 0}})
        }
    }).collect();
    json!({"application_name": app_name(tag, r), "items": items})
}
pub fn ext(tag: &str, r: &mut Rng) -> Value {
    let mut n = *r.pick(&[1usize, 1, 2, 3]);
    if is_large() {
        if r.chance(1, 2) { return crate::big::big_ext(r, 1200); }
        if r.chance(1, 4) { n = crate::big::size(r, 60); }
    }
    let mut v: Vec<Value> = (0..n).map(|i| group(&format!("{}{}", tag, i), 0, r)).collect();
    if r.chance(1, 12) {
        let mut g = json!({"application_name": "DEEP", "items": []});
        for _ in 1..*r.pick(&[10usize, 60, 128]) {
            g = json!({"application_name": "DEEP", "items": [{"Group": g}]});
        }
        v.push(g);
    }
    Value::Array(v)
}
fn no_offsets(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(no_offsets),
        Value::Object(m) => { if m.contains_key("code") { m.remove("offset"); } m.values_mut().for_each(no_offsets) }
        _ => (),
    }
}
fn same_data(a: &Value, b: &Value, exact: bool) -> Option<String> {
    let (mut a, mut b) = (a.clone(), b.clone());
    no_offsets(&mut a);
    no_offsets(&mut b);
    let mut ds = vec![];
    compare("", &a, &b, exact, &mut ds);
    // compare() only looks at the members of a
    if ds.is_empty() && shape(&a) != shape(&b) { ds.push("".into()); }
    ds.first().map(|p| format!("{}: {} became {}", p, brief(at(&a, p)), brief(at(&b, p))))
}
fn shape(v: &Value) -> usize {
    match v { Value::Array(a) => 1 + a.iter().map(shape).sum::<usize>(), Value::Object(m) => 1 + m.values().map(shape).sum::<usize>(), _ => 1 }
}
pub fn any_item_kinds() -> Vec<Item> {
    let mut v: Vec<Item> = vec![];
    for k in free_entities() { v.push(Item::Entity(k)); }
    v.push(Item::Entity("Vertex"));
    v.push(Item::Entity("Attribute"));
    for k in OBJECTS { v.push(Item::Object(k)); }
    for k in TABLES { v.push(Item::Table(k)); }
    v.push(Item::Block);
    v
}
/// where the data of the item stands in the full picture of a drawing
fn take(full: &mut Value, list: &str, i: usize, common: bool, blk: Option<usize>) -> Option<(Value, Value)> {
    let base = match blk {
        Some(b) => full.get_mut("drawing")?.get_mut("__blocks")?.get_mut(b)?.get_mut("entities")?,
        None => full.get_mut("drawing")?.get_mut(list)?,
    };
    let it = base.get_mut(i)?;
    let it = if common { it.get_mut("common")? } else { it };
    let x = std::mem::replace(it.get_mut("x_data")?, json!([]));
    let e = std::mem::replace(it.get_mut("extension_data_groups")?, json!([]));
    Some((x, e))
}
fn lists() -> BTreeMap<&'static str, &'static str> {
    [("AppId", "__app_ids"), ("BlockRecord", "__block_records"), ("DimStyle", "__dim_styles"), ("Layer", "__layers"), ("LineType", "__line_types"), ("Style", "__styles"), ("Ucs", "__ucss"), ("View", "__views"), ("ViewPort", "__view_ports")].into_iter().collect()
}
fn attach_case(c: &mut Case) {
    let kinds = any_item_kinds();
    let item = kinds[c.idx as usize % kinds.len()].clone();
    for v in R13..VERSIONS.len() {
        for fmt in [Fmt::Ascii, Fmt::Binary] {
            one(c, &item, v, fmt);
        }
    }
}
fn large_case(c: &mut Case) {
    let kinds = any_item_kinds();
    let item = kinds[c.idx as usize % kinds.len()].clone();
    let v = R13 + c.rng.below(VERSIONS.len() - R13);
    let fmt = any_fmt(&mut c.rng);
    large(|| one(c, &item, v, fmt));
}
fn one(c: &mut Case, item: &Item, v: usize, fmt: Fmt) {
    let r = &mut c.rng;
    let name = item.name();
    let it = &tab()[&name];
    if it.present[v] == 'a' {
        return;
    }
    let own = match item { Item::Entity(_) => "entity:*".to_string(), Item::Object(_) => "object:*".to_string(), _ => name.clone() };
    let st = |p: &str| stored(tab()[&own].leaves.iter().find(|l| l.leaf.ptr == p).map(|l| l.st[v]).unwrap_or('-'));
    let (hx, he) = (st("/x_data"), st("/extension_data_groups"));
    if !hx && !he {
        return;
    }
    let (mut xd, mut ex) = (json!([]), json!([]));
    let which = r.below(3);
    if hx && which != 0 { xd = xdata("APP", r); }
    if he && which != 1 { ex = ext("GRP", r); }
    let den = 1 + r.below(4) as u32;
    let in_block = r.chance(1, 3);
    let (ej, oj, tj): (Value, Value, Value);
    let mut d = new_drawing(VERSIONS[v]);
    let mut d0;
    let follow = |d: &mut Drawing| {
        let c0 = dxf::entities::Entity::new(dxf::entities::EntityType::Circle(dxf::entities::Circle::new(dxf::Point::new(1.0, 2.0, 3.0), 4.5)));
        d.add_entity(c0);
    };
    let (list, common, blk): (&str, bool, Option<usize>);
    match item {
        Item::Entity(k) => {
            let mut e = entity_json(k, v, r, 1, den);
            e["common"]["x_data"] = json!([]);
            e["common"]["extension_data_groups"] = json!([]);
            if fix(&mut e) { return; }
            d0 = new_drawing(VERSIONS[v]);
            let mut with = e.clone();
            with["common"]["x_data"] = xd.clone();
            with["common"]["extension_data_groups"] = ex.clone();
            if in_block {
                for (d, e) in [(&mut d, &with), (&mut d0, &e)] {
                    d.add_block(dxf::Block { name: "B".into(), entities: vec![to_entity(e), to_entity(&json!({"common": jv(&dxf::entities::EntityCommon::default()), "specific": {"Circle": tab()["entity:Circle"].default}}))], ..Default::default() });
                }
                blk = Some(d.blocks().count() - 1);
            } else {
                d.add_entity(to_entity(&with));
                d0.add_entity(to_entity(&e));
                blk = None;
            }
            list = "__entities";
            common = true;
            follow(&mut d);
            follow(&mut d0);
        }
        Item::Object(k) => {
            let mut e = object_json(k, v, r, 1, den);
            e["common"]["x_data"] = json!([]);
            e["common"]["extension_data_groups"] = json!([]);
            d0 = new_drawing(VERSIONS[v]);
            let mut with = e.clone();
            with["common"]["x_data"] = xd.clone();
            with["common"]["extension_data_groups"] = ex.clone();
            d.add_object(to_object(&with));
            d0.add_object(to_object(&e));
            for d in [&mut d, &mut d0] {
                d.add_object(dxf::objects::Object::new(object_default("DictionaryVariable")));
            }
            list = "__objects";
            common = true;
            blk = None;
        }
        _ => {
            let mut x = item_value(&name, v, r, 1, den);
            x["name"] = json!("SUBJECT");
            if let Item::Block = item { x["entities"] = json!([]); }
            x["x_data"] = json!([]);
            x["extension_data_groups"] = json!([]);
            d0 = new_drawing(VERSIONS[v]);
            let mut with = x.clone();
            with["x_data"] = xd.clone();
            with["extension_data_groups"] = ex.clone();
            let mut next = x.clone();
            next["name"] = json!("SUBJECT2");
            for (d, x) in [(&mut d, &with), (&mut d0, &x)] {
                add_subject(d, item, x).expect("harness: subject");
                add_subject(d, item, &next).expect("harness: subject");
            }
            list = match item { Item::Table(t) => lists()[t], _ => "__blocks" };
            common = false;
            blk = None;
        }
    }
    let key = format!("{} {} {:?} {} {}", name, v, fmt, xd, ex);
    let go = |d: &Drawing| -> Result<(Value, Vec<u8>), String> { let b = save(d, fmt).map_err(|e| format!("save: {}", e))?; Ok((full(&load(&b).map_err(|e| format!("load: {}", e))?), b)) };
    let (b0, b1) = (go(&d0), go(&d));
    let ((mut f0, _), (mut f1, bytes)) = match (b0, b1) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) => return c.inconclusive.push(format!("{} without data: {}", name, e)),
        (_, Err(e)) => return c.fail(format!("{}:error", name), format!("{}: {}", e, key.chars().take(400).collect::<String>())),
    };
    c.eval(&key);
    c.count("data_items", shape(&xd) as u64 + shape(&ex) as u64);
    // the index of the subject after loading
    let idx = if common { 0 } else {
        match f1["drawing"][list].as_array().and_then(|a| a.iter().position(|x| x["name"] == json!("SUBJECT"))) {
            Some(i) => i,
            None => return c.fail(format!("{}:presence", name), "the item did not come back".to_string()),
        }
    };
    let blk = blk.map(|_| f1["drawing"]["__blocks"].as_array().and_then(|a| a.iter().position(|x| x["name"] == json!("B"))).unwrap_or(0));
    match take(&mut f1, list, idx, common, blk) {
        None => { c.attach("saved.dxf", &bytes); return c.fail(format!("{}:presence", name), format!("the item did not come back: {}", key.chars().take(300).collect::<String>())); }
        Some((x, e)) => {
            for (what, a, b) in [("x_data", &xd, &x), ("extension_data_groups", &ex, &e)] {
                if let Some(s) = same_data(a, b, fmt == Fmt::Binary) {
                    c.attach("saved.dxf", &bytes);
                    c.fail(format!("{}/{}", name, what), format!("{} {} {:?} {}{}", name, vname(VERSIONS[v]), fmt, what, s));
                }
            }
        }
    }
    // nothing else is affected
    let _ = take(&mut f0, list, idx, common, blk);
    let ds = same(&f0, &f1, true);
    let ds: Vec<String> = ds.into_iter().filter(|p| !offset_only(p)).collect();
    if !ds.is_empty() {
        c.attach("saved.dxf", &bytes);
        c.fail(format!("{}:leak:{}", name, place_sig(&ds[0])), format!("{} {} {:?}: with data, {} -- {}", name, vname(VERSIONS[v]), fmt, report(&f0, &f1, &ds), key.chars().take(300).collect::<String>()));
    }
}
fn offset_only(p: &str) -> bool {
    p.ends_with("/offset")
}
/// kinds that cannot stand alone
fn fix(e: &mut Value) -> bool {
    let k = kind_of(e);
    k == "Vertex" && false
}
// ---------------------------------------------------------------- other programs' files
fn to_pairs_x(items: &Value, o: &mut Vec<Pair>) {
    for i in items.as_array().unwrap() {
        let (k, v) = i.as_object().unwrap().iter().next().unwrap();
        let f = |v: &Value| v.as_f64().unwrap();
        match k.as_str() {
            "Str" => o.push(Pair::s(1000, v.as_str().unwrap())),
            "LayerName" => o.push(Pair::s(1003, v.as_str().unwrap())),
            "BinaryData" => o.push(Pair::s(1004, &v.as_array().unwrap().iter().map(|b| format!("{:02X}", b.as_u64().unwrap())).collect::<String>())),
            "Handle" => o.push(Pair::s(1005, &format!("{:X}", v.as_u64().unwrap()))),
            "ThreeReals" => for j in 0..3 { o.push(Pair::f(1010 + 10 * j, f(&v[j as usize]))) },
            "WorldSpacePosition" => for (j, a) in ["x", "y", "z"].iter().enumerate() { o.push(Pair::f(1011 + 10 * j as i32, f(&v[*a]))) },
            "WorldSpaceDisplacement" => for (j, a) in ["x", "y", "z"].iter().enumerate() { o.push(Pair::f(1012 + 10 * j as i32, f(&v[*a]))) },
            "WorldDirection" => for (j, a) in ["x", "y", "z"].iter().enumerate() { o.push(Pair::f(1013 + 10 * j as i32, f(&v[*a]))) },
            "Real" => o.push(Pair::f(1040, f(v))),
            "Distance" => o.push(Pair::f(1041, f(v))),
            "ScaleFactor" => o.push(Pair::f(1042, f(v))),
            "Integer" => o.push(Pair::i(1070, v.as_i64().unwrap())),
            "Long" => o.push(Pair::i(1071, v.as_i64().unwrap())),
            "ControlGroup" => { o.push(Pair::s(1002, "{")); to_pairs_x(v, o); o.push(Pair::s(1002, "}")); }
            _ => unreachable!(),
        }
    }
}
fn to_pairs_e(g: &Value, o: &mut Vec<Pair>) {
    o.push(Pair::s(102, &format!("{{{}", g["application_name"].as_str().unwrap())));
    for i in g["items"].as_array().unwrap() {
        if let Some(g) = i.get("Group") {
            to_pairs_e(g, o);
        } else {
            let p = &i["CodePair"];
            let (_, v) = p["value"].as_object().unwrap().iter().next().unwrap();
            let val = match v { Value::String(s) => Val::S(s.clone()), Value::Array(a) => Val::B(a.iter().map(|b| b.as_u64().unwrap() as u8).collect()), x if x.is_f64() => Val::F(x.as_f64().unwrap()), x => Val::I(x.as_i64().unwrap()) };
            o.push(Pair { code: p["code"].as_i64().unwrap() as i32, val });
        }
    }
    o.push(Pair::s(102, "}"));
}
/// texts that stand in a file as they are
fn plain(v: &mut Value) {
    match v {
        Value::String(s) => if s.contains('^') || s.contains('\\') || s.chars().any(|c| c < ' ' || c > '~') { *s = s.chars().filter(|c| c.is_ascii_alphanumeric()).collect() },
        Value::Array(a) => a.iter_mut().for_each(plain),
        Value::Object(m) => m.values_mut().for_each(plain),
        _ => (),
    }
}
/// all the data in a picture whose application is one of ours: name -> (owner's handle, data)
fn harvest(v: &mut Value, handle: u64, out: &mut BTreeMap<String, (u64, Value)>) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| harvest(x, handle, out)),
        Value::Object(m) => {
            let h = m.get("handle").and_then(|h| h.as_u64()).unwrap_or(handle);
            for key in ["x_data", "extension_data_groups"] {
                if let Some(Value::Array(a)) = m.get_mut(key) {
                    let mut rest = vec![];
                    for x in a.drain(..) {
                        let n = x["application_name"].as_str().unwrap_or("").to_string();
                        if n.starts_with("ZZ") { out.insert(format!("{}:{}", key, n), (h, x)); } else { rest.push(x); }
                    }
                    *a = rest;
                }
            }
            m.values_mut().for_each(|x| harvest(x, h, out));
        }
        _ => (),
    }
}
fn foreign_case(c: &mut Case) {
    let d = any_drawing(&mut c.rng);
    let v = d.header.version;
    let fmt = any_fmt(&mut c.rng);
    let f = file_of(&d, Fmt::Ascii);
    let ps = f.pairs;
    let pos = positions(&ps);
    let base = render(&ps, fmt, v);
    let want = match load(&base) { Ok(d) => full(&d), Err(e) => return c.inconclusive.push(format!("base: {}", e)) };
    // records that are items of their own, with a handle
    let starts: Vec<usize> = (0..ps.len()).filter(|i| ps[*i].code == 0).collect();
    let mut recs = vec![];
    for (k, s) in starts.iter().enumerate() {
        let end = starts.get(k + 1).copied().unwrap_or(ps.len());
        let p = &pos[*s];
        let n = ps[*s].str();
        let ok = match p.sec.as_str() {
            "ENTITIES" => !["VERTEX", "ATTRIB", "SEQEND", "ENDSEC"].contains(&n) && !p.start,
            "BLOCKS" => !["VERTEX", "ATTRIB", "SEQEND", "ENDSEC", "ENDBLK"].contains(&n) && !p.start,
            "OBJECTS" => n != "ENDSEC" && !p.start,
            "TABLES" => n != "ENDSEC" && n != "TABLE" && n != "ENDTAB" && !p.start,
            _ => false,
        };
        // the embedded MTEXT of an attribute definition belongs to it
        let embedded = n == "MTEXT" && k > 0 && ["ATTDEF", "ATTRIB"].contains(&ps[starts[k - 1]].str());
        if !ok || embedded { continue; }
        let hc = (s + 1..end).find(|i| (ps[*i].code == 5 || ps[*i].code == 105) && pos[*i].ext == 0 && !pos[*i].xdata);
        if let Some(h) = hc {
            if h < s + 4 { recs.push((*s, h, end, n.to_string())); }
        }
    }
    if recs.is_empty() { return; }
    for _ in 0..if c.thorough { 20 } else { 6 } {
        let mut q = ps.clone();
        let mut expect: BTreeMap<String, (u64, Value)> = BTreeMap::new();
        let n = 1 + c.rng.below(4);
        let mut picks: Vec<usize> = (0..n).map(|_| c.rng.below(recs.len())).collect();
        picks.sort();
        picks.dedup();
        let mut kinds = vec![];
        for i in picks.iter().rev() {
            let (_, h, end, name) = &recs[*i];
            let handle = u64::from_str_radix(ps[*h].str(), 16).unwrap_or(0);
            if c.rng.chance(2, 3) {
                let mut x = json!({"application_name": format!("ZZX{}", i), "items": []});
                let m = 1 + c.rng.below(5);
                x["items"] = Value::Array((0..m).map(|_| xitem(&mut c.rng, 0)).collect());
                plain(&mut x);
                let mut o = vec![Pair::s(1001, x["application_name"].as_str().unwrap())];
                to_pairs_x(&x["items"], &mut o);
                q.splice(end..end, o);
                expect.insert(format!("x_data:ZZX{}", i), (handle, x));
            }
            if c.rng.chance(2, 3) {
                let mut g = group("g", 0, &mut c.rng);
                g["application_name"] = json!(format!("ZZE{}", i));
                plain(&mut g);
                let mut o = vec![];
                to_pairs_e(&g, &mut o);
                q.splice(h + 1..h + 1, o);
                expect.insert(format!("extension_data_groups:ZZE{}", i), (handle, g));
            }
            kinds.push(name.clone());
        }
        let b = render(&q, fmt, v);
        c.eval(&b);
        let mut got = match guard(|| load(&b)) {
            Ok(Ok(d)) => full(&d),
            Ok(Err(e)) | Err(e) => { c.attach("input.dxf", &b); c.fail(format!("foreign:{}:error", kinds.join("+")), format!("{:?} {:?} with data at {:?}: {}", v, fmt, kinds, e)); continue; }
        };
        let mut found = BTreeMap::new();
        harvest(&mut got, 0, &mut found);
        c.count("data_inserted", expect.len() as u64);
        for (k, (h, x)) in &expect {
            match found.get(k) {
                None => { c.attach("input.dxf", &b); c.fail(format!("foreign:lost:{}", kinds.join("+")), format!("{:?} {:?}: {} at handle {:X} is lost ({:?})", v, fmt, k, h, kinds)) }
                Some((h2, y)) => {
                    if h != h2 && *h != 0 { c.attach("input.dxf", &b); c.fail("foreign:owner", format!("{:?} {:?}: {} of {:X} is attached to {:X} ({:?})", v, fmt, k, h, h2, kinds)) }
                    if let Some(s) = same_data(x, y, true) { c.attach("input.dxf", &b); c.fail("foreign:data", format!("{:?} {:?}: {} {} ({:?})", v, fmt, k, s, kinds)) }
                }
            }
        }
        if found.len() > expect.len() { c.fail("foreign:more", format!("{:?} {:?}: {} data became {}", v, fmt, expect.len(), found.len())) }
        let ds: Vec<String> = same(&want, &got, true).into_iter().filter(|p| !offset_only(p)).collect();
        if !ds.is_empty() {
            c.attach("input.dxf", &b);
            c.fail(format!("foreign:leak:{}", place_sig(&ds[0])), format!("{:?} {:?} with data at {:?}: {}", v, fmt, kinds, report(&want, &got, &ds)));
        }
    }
}
pub fn c21(t: bool) -> Check {
    let m = if t { 12 } else { 1 };
    let n = any_item_kinds().len() as u64;
    Check {
        id: "C21",
        level: "exploration",
        rule: "one evaluation = one item with attached data saved and loaded and compared with the same item without, or one file with data inserted into its records loaded; distinct by content",
        families: vec![family("attach", n * 5 * m, attach_case), family("foreign", 700 * m, foreign_case), family("large", n * m, large_case)],
        cpu_limit: 120,
        assumptions: vec!["groups are nested at most 128 deep (the reader's documented limit)".into()],
    }
}
