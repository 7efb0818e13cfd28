//! Large values: long lists, long texts, many items.  Nothing a user relies on may stop holding
//! beyond some size that the other families never reach.
use crate::c_rt::{compare_trip, trip};
use crate::fw::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::schema::*;
use crate::tab::*;
use crate::types::*;
use dxf::Drawing;
use serde_json::{json, Map, Value};

/// a size between 20 and `max`: round ones, their neighbours, or anything (log-uniform)
pub fn size(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(3) {
        0 => *r.pick(&[32usize, 64, 100, 128, 200, 255, 256, 300, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000]) + r.below(3),
        1 => { let b = 20.0f64.ln() + (max as f64 / 20.0).ln() * (r.below(10_000) as f64 / 10_000.0); b.exp() as usize }
        _ => max - r.below(max / 8 + 1),
    };
    n.clamp(2, max)
}
pub fn long_text(r: &mut Rng, n: usize) -> String {
    let k = 1 + r.below(60);
    (0..n).map(|i| if i > 0 && i + 1 < n && i % (k + 3) == 0 { ' ' } else { (b'A' + ((i * 7 + k) % 26) as u8) as char }).collect()
}
pub fn big_xdata(r: &mut Rng, n: usize) -> Value {
    let flat = |r: &mut Rng, n: usize| -> Vec<Value> { (0..n).map(|_| gen_xdata_item(r, 3)).collect() };
    match r.below(4) {
        0 => Value::Array((0..n.min(600)).map(|i| { let m = r.below(3); json!({"application_name": format!("APP{}", i), "items": flat(r, m)}) }).collect()),
        1 => { let (a, b) = (n / 2, n - n / 2); json!([{"application_name": "A", "items": [{"ControlGroup": flat(r, a)}, {"Integer": 7}, {"ControlGroup": flat(r, b)}]}]) }
        _ => json!([{"application_name": "A", "items": flat(r, n)}, {"application_name": "B", "items": [{"Integer": 3}]}]),
    }
}
pub fn big_ext(r: &mut Rng, n: usize) -> Value {
    let pair = |r: &mut Rng| { let c = *r.pick(&[1, 2, 40, 70, 90, 330, 360, 280, 290, 300, 310, 1000, 1070, 10, 20, 160]); json!({"CodePair": gen_pair(c, r)}) };
    match r.below(4) {
        0 => Value::Array((0..n.min(600)).map(|i| json!({"application_name": format!("G{}", i), "items": [pair(r)]})).collect()),
        1 => json!([{"application_name": "A", "items": [{"Group": {"application_name": "IN", "items": (0..n).map(|_| pair(r)).collect::<Vec<_>>()}}, pair(r)]}]),
        2 => json!([{"application_name": "A", "items": (0..n.min(600)).map(|i| json!({"Group": {"application_name": format!("S{}", i), "items": [pair(r)]}})).collect::<Vec<_>>()}]),
        _ => json!([{"application_name": "A", "items": (0..n).map(|_| pair(r)).collect::<Vec<_>>()}, {"application_name": "B", "items": [pair(r)]}]),
    }
}
/// a value of `n` parts for a leaf that can be long
pub fn big_value(k: &Kind, ptr: &str, r: &mut Rng, n: usize) -> Option<Value> {
    if ptr.ends_with("extension_data_groups") {
        return Some(big_ext(r, n));
    }
    if ptr.ends_with("/x_data") {
        return Some(big_xdata(r, n));
    }
    if ptr.ends_with("value_handles") {
        let mut m = Map::new();
        for i in 0..n {
            m.insert(format!("K{} {}", i, r.below(1000)), json!(1 + r.below(0xFFFFFF)));
        }
        return Some(Value::Object(m));
    }
    if ptr.ends_with("data_pairs") {
        return Some(Value::Array((0..n).map(|_| { let c = *r.pick(&[1, 2, 40, 70, 90, 330, 360, 290, 300, 310, 1000, 1070, 10, 102, 280, 5]); gen_pair(c, r).unwrap() }).collect()));
    }
    match k {
        Kind::Array(e) => Some(Value::Array((0..n).map(|_| value(e, ptr, r)).collect())),
        Kind::Str => { let m = n * (1 + r.below(8)); Some(json!(long_text(r, m))) }
        _ => None,
    }
}
pub fn can_be_long(name: &str, l: &RLeaf) -> bool {
    let p = l.leaf.ptr.as_str();
    (matches!(l.leaf.kind, Kind::Array(_) | Kind::Str) || p.ends_with("value_handles") || p.ends_with("data_pairs") || p.ends_with("/x_data") || p.ends_with("extension_data_groups"))
        && name != "object:DataTable"
        && !SPECIAL.contains(&(name, p))
}
/// the leaves that can be long, lists first
pub fn long_leaves(sel: fn(&Item) -> bool) -> Vec<(&'static str, usize)> {
    crate::c_rt::fields(sel).into_iter().filter(|(n, i)| can_be_long(n, &tab()[*n].leaves[*i])).collect()
}
pub fn leaf_case(c: &mut Case, name: &str, li: usize) {
    let it = &tab()[name];
    let l = &it.leaves[li];
    let ptr = l.leaf.ptr.clone();
    let vs: Vec<usize> = (0..VERSIONS.len()).filter(|v| stored(l.st[*v]) && it.present[*v] != 'a').collect();
    if vs.is_empty() {
        return;
    }
    let v = *c.rng.pick(&vs);
    let n = size(&mut c.rng, if matches!(l.leaf.kind, Kind::Str) { 5000 } else { 2600 });
    let x = match big_value(&l.leaf.kind, &ptr, &mut c.rng, n) { Some(x) => fit(l.st[v], &x), None => return };
    if !within(l.st[v], &x) {
        return;
    }
    let mut b = base(&it.item, &it.default);
    *b.pointer_mut(&ptr).unwrap() = x;
    let fmt = if c.rng.chance(1, 2) { Fmt::Ascii } else { Fmt::Binary };
    let key = format!("{}{} of {} parts in {} {:?}", name, ptr, n, vname(VERSIONS[v]), fmt);
    match trip(&it.item, v, &b, fmt) {
        Err(e) if e.starts_with("harness:") => c.inconclusive.push(format!("{} {}", key, e)),
        Err(e) => c.fail(format!("{}{}:error", name, ptr), format!("{}: {}", key, e)),
        Ok((o, back, _, bytes)) => {
            c.eval(&key);
            match back {
                None => {
                    c.attach("saved.dxf", &bytes);
                    c.fail(format!("{}:presence", name), format!("{}: the item did not come back", key))
                }
                Some(q) => {
                    let mut cmp = Cmp::new(fmt == Fmt::Binary);
                    cmp.item(name, v, &o, &q);
                    c.count("fields_compared", cmp.leaves);
                    c.count("large_values_compared", 1);
                    if !cmp.diffs.is_empty() {
                        c.attach("saved.dxf", &bytes);
                    }
                    for d in cmp.diffs {
                        c.fail(d.sig, format!("{} (setting {})", d.detail, key));
                    }
                }
            }
            if c.sample.is_none() {
                c.sample = Some(json!({"set": key, "bytes": bytes.len()}));
            }
        }
    }
}
/// what a crowd is made of
pub const CROWDS: &[&str] = &["vertices", "attributes", "entities", "block-entities", "blocks", "tables", "classes", "objects", "datatable", "one-kind"];
/// a drawing with very many parts of one sort
pub fn crowd(r: &mut Rng, what: &str) -> Drawing {
    let v = *r.pick(VERSIONS);
    let vi = vidx(v);
    let none = Mix { entities: 0, objects: 0, tables: 0, blocks: 0, classes: 0, header: false, num: 1, den: 12 };
    let (num, den) = (1u32, 12u32);
    let mut d = drawing(v, r, none);
    match what {
        "vertices" => {
            let n = size(r, 2600);
            let mut e = entity_json("Polyline", vi, r, num, den);
            let f = e["specific"]["Polyline"]["flags"].as_i64().unwrap_or(0);
            let g = (if f & 8 != 0 { 32 } else { 0 }) | (if f & 16 != 0 { 64 } else { 0 });
            e["specific"]["Polyline"]["__vertices_and_handles"] = Value::Array((0..n).map(|_| {
                let mut x = item_value("entity:Vertex", vi, r, num, den);
                for k in 1..5 { x[format!("polyface_mesh_vertex_index{}", k)] = json!(0); }
                x["flags"] = json!(g);
                json!([x, 0])
            }).collect());
            d.add_entity(to_entity(&e));
        }
        "attributes" => {
            let n = size(r, 1100);
            let mut e = entity_json("Insert", vi, r, num, den);
            e["specific"]["Insert"]["__attributes_and_handles"] = Value::Array((0..n).map(|_| json!([item_value("entity:Attribute", vi, r, num, den), 0])).collect());
            d.add_entity(to_entity(&e));
        }
        "entities" => {
            let kinds = free_entities();
            for _ in 0..size(r, 2600) {
                let k = *r.pick(&kinds);
                let x = entity_json(k, vi, r, num, den);
                d.add_entity(to_entity(&x));
            }
        }
        "one-kind" => {
            let kinds = free_entities();
            let k = *r.pick(&kinds);
            for _ in 0..size(r, 1100) {
                let x = entity_json(k, vi, r, num, den);
                d.add_entity(to_entity(&x));
            }
        }
        "block-entities" => {
            let n = size(r, 1500);
            let x = block_json(vi, r, n, num, den);
            add_subject(&mut d, &Item::Block, &x).expect("harness: block");
        }
        "blocks" => {
            for i in 0..size(r, 600) {
                let n = r.below(2);
                let mut x = block_json(vi, r, n, num, den);
                x["name"] = json!(format!("B{}", i));
                add_subject(&mut d, &Item::Block, &x).expect("harness: block");
            }
        }
        "tables" => {
            let t = *r.pick(TABLES);
            for i in 0..size(r, 1100) {
                let mut x = item_value(&format!("table:{}", t), vi, r, num, den);
                x["name"] = json!(format!("T{}", i));
                add_subject(&mut d, &Item::Table(t), &x).expect("harness: table");
            }
        }
        "classes" => {
            for _ in 0..size(r, 1100) {
                let x = item_value("class", vi, r, num, den);
                add_subject(&mut d, &Item::Class, &x).expect("harness: class");
            }
        }
        "objects" => {
            for _ in 0..size(r, 1500) {
                let k = *r.pick(OBJECTS);
                let x = object_json(k, vi, r, num, den);
                d.add_object(to_object(&x));
            }
        }
        "datatable" => {
            let (rows, cols) = if r.chance(1, 2) { (size(r, 600), 1 + r.below(4)) } else { (1 + r.below(4), size(r, 600)) };
            let mut e = object_json("DataTable", vi, r, num, den);
            let b = &mut e["specific"]["DataTable"];
            b["row_count"] = json!(rows);
            b["column_count"] = json!(cols);
            b["column_names"] = Value::Array((0..cols).map(|i| json!(format!("col{}", i))).collect());
            b["values"] = Value::Array((0..rows).map(|_| Value::Array((0..cols).map(|_| data_cell(r)).collect())).collect());
            d.add_object(to_object(&e));
        }
        _ => unreachable!(),
    }
    // something after it must still be read
    d.add_entity(dxf::entities::Entity::new(dxf::entities::EntityType::Circle(dxf::entities::Circle::new(dxf::Point::new(1.0, 2.0, 3.0), 4.5))));
    d
}
pub fn crowd_case(c: &mut Case, what: &str) {
    let d = crowd(&mut c.rng, what);
    let fmt = if c.rng.chance(1, 2) { Fmt::Ascii } else { Fmt::Binary };
    c.count("large_values_compared", 1);
    compare_trip(c, &d, fmt);
}

/// a drawing with one very long value, among others
fn stretched(r: &mut Rng) -> Drawing {
    let ls = long_leaves(|i| matches!(i, Item::Entity(_) | Item::EntityCommon | Item::Object(_) | Item::ObjectCommon | Item::Table(_)));
    loop {
        let (name, li) = *r.pick(&ls);
        let it = &tab()[name];
        let l = &it.leaves[li];
        let vs: Vec<usize> = (0..VERSIONS.len()).filter(|v| stored(l.st[*v]) && it.present[*v] != 'a').collect();
        if vs.is_empty() || crate::c_rt::LOST.iter().any(|x| x.0 == name) {
            continue;
        }
        let vi = *r.pick(&vs);
        let n = size(r, 2000);
        let n = if matches!(&l.leaf.kind, Kind::Array(e) if matches!(**e, Kind::Int(0, 255))) { n.min(255) } else { n };
        let x = match big_value(&l.leaf.kind, &l.leaf.ptr, r, n) { Some(x) => fit(l.st[vi], &x), None => continue };
        if !within(l.st[vi], &x) {
            continue;
        }
        let m = Mix { entities: r.below(3), objects: r.below(3), tables: r.below(3), blocks: r.below(2), classes: 0, header: r.chance(1, 4), num: 1, den: 6 };
        let mut d = drawing(VERSIONS[vi], r, m);
        let mut b = base(&it.item, &it.default);
        *b.pointer_mut(&l.leaf.ptr).unwrap() = x;
        if matches!(it.item, Item::Table(_)) && b["name"].as_str().unwrap_or("").is_empty() {
            b["name"] = json!(ident(r));
        }
        if add_subject(&mut d, &it.item, &b).is_ok() {
            return d;
        }
    }
}
pub fn any(r: &mut Rng) -> Drawing {
    if r.chance(1, 3) {
        return stretched(r);
    }
    let w = *r.pick(CROWDS);
    crowd(r, w)
}
