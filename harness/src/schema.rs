//! Runtime discovery of the shape of every public item type (through serde), and
//! generation of field values.  Nothing here looks at the library's source.
use crate::rng::Rng;
use crate::types::*;
use dxf::entities::*;
use dxf::objects::*;
use dxf::tables::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Item {
    Entity(&'static str),
    EntityCommon,
    Object(&'static str),
    ObjectCommon,
    Table(&'static str),
    Header,
    Block,
    Class,
}
impl Item {
    pub fn name(&self) -> String {
        match self {
            Item::Entity(n) => format!("entity:{}", n),
            Item::EntityCommon => "entity:*".into(),
            Item::Object(n) => format!("object:{}", n),
            Item::ObjectCommon => "object:*".into(),
            Item::Table(n) => format!("table:{}", n),
            Item::Header => "header".into(),
            Item::Block => "block".into(),
            Item::Class => "class".into(),
        }
    }
    pub fn all() -> Vec<Item> {
        let mut v = vec![Item::Header, Item::Block, Item::Class, Item::EntityCommon, Item::ObjectCommon];
        v.extend(TABLES.iter().map(|n| Item::Table(n)));
        v.extend(ENTITIES.iter().map(|n| Item::Entity(n)));
        v.extend(OBJECTS.iter().map(|n| Item::Object(n)));
        v
    }
    pub fn default_value(&self) -> Value {
        fn sv<T: serde::Serialize>(t: &T) -> Value {
            serde_json::to_value(t).expect("serialize")
        }
        match self {
            // the inner struct of the enum variant
            Item::Entity(n) => sv(&entity_default(n))[*n].clone(),
            Item::EntityCommon => sv(&EntityCommon::default()),
            Item::Object(n) => sv(&object_default(n))[*n].clone(),
            Item::ObjectCommon => sv(&ObjectCommon::default()),
            Item::Table(n) => match *n {
                "AppId" => sv(&AppId::default()),
                "BlockRecord" => sv(&BlockRecord::default()),
                "DimStyle" => sv(&DimStyle::default()),
                "Layer" => sv(&Layer::default()),
                "LineType" => sv(&LineType::default()),
                "Style" => sv(&Style::default()),
                "Ucs" => sv(&Ucs::default()),
                "View" => sv(&View::default()),
                "ViewPort" => sv(&ViewPort::default()),
                _ => unreachable!(),
            },
            Item::Header => {
                let mut h = dxf::Header::default();
                // keep the harness deterministic: the library's default is "now"/random
                let t = chrono::DateTime::parse_from_rfc3339("2001-02-03T04:05:06Z").unwrap();
                h.creation_date = t.with_timezone(&chrono::Local);
                h.update_date = t.with_timezone(&chrono::Local);
                h.creation_date_universal = t.with_timezone(&chrono::Utc);
                h.update_date_universal = t.with_timezone(&chrono::Utc);
                h.fingerprint_guid = uuid::Uuid::from_u128(0x1234_5678_9abc_def0_1122_3344_5566_7788);
                h.version_guid = uuid::Uuid::from_u128(0x2234_5678_9abc_def0_1122_3344_5566_7799);
                sv(&h)
            }
            Item::Block => sv(&dxf::Block::default()),
            Item::Class => sv(&dxf::Class::default()),
        }
    }
    pub fn check(&self, v: Value) -> Result<(), String> {
        fn d<T: serde::de::DeserializeOwned>(v: Value) -> Result<(), String> {
            serde_json::from_value::<T>(v).map(|_| ()).map_err(|e| e.to_string())
        }
        match self {
            Item::Entity(n) => d::<EntityType>(json!({ *n: v })),
            Item::EntityCommon => d::<EntityCommon>(v),
            Item::Object(n) => d::<ObjectType>(json!({ *n: v })),
            Item::ObjectCommon => d::<ObjectCommon>(v),
            Item::Table(n) => match *n {
                "AppId" => d::<AppId>(v),
                "BlockRecord" => d::<BlockRecord>(v),
                "DimStyle" => d::<DimStyle>(v),
                "Layer" => d::<Layer>(v),
                "LineType" => d::<LineType>(v),
                "Style" => d::<Style>(v),
                "Ucs" => d::<Ucs>(v),
                "View" => d::<View>(v),
                "ViewPort" => d::<ViewPort>(v),
                _ => unreachable!(),
            },
            Item::Header => d::<dxf::Header>(v),
            Item::Block => d::<dxf::Block>(v),
            Item::Class => d::<dxf::Class>(v),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Bool,
    F64,
    Int(i128, i128),
    Str,
    Char,
    Enum(Vec<String>),
    Date,
    Uuid,
    Array(Box<Kind>),
    Fixed(Vec<Kind>),
    Struct(Vec<(String, Kind)>),
    Opaque,
}

#[derive(Clone, Debug)]
pub struct Leaf {
    pub ptr: String,
    pub kind: Kind,
    pub default: Value,
}

fn set(root: &Value, ptr: &str, v: Value) -> Value {
    let mut r = root.clone();
    *r.pointer_mut(ptr).unwrap_or_else(|| panic!("ptr {}", ptr)) = v;
    r
}
fn ticks(s: &str) -> Vec<String> {
    s.split('`').skip(1).step_by(2).map(String::from).collect()
}
fn int_bounds(ok: &mut dyn FnMut(Value) -> bool) -> (i128, i128) {
    let maxes: [i128; 8] = [127, 255, 32767, 65535, i32::MAX as i128, u32::MAX as i128, i64::MAX as i128, u64::MAX as i128];
    let mins: [i128; 5] = [i64::MIN as i128, i32::MIN as i128, -32768, -128, 0];
    let tov = |x: i128| if x < 0 { json!(x as i64) } else { json!(x as u64) };
    let mx = *maxes.iter().rev().find(|m| ok(tov(**m))).unwrap_or(&0);
    let mn = *mins.iter().find(|m| ok(tov(**m))).unwrap_or(&0);
    (mn, mx)
}
/// Kind of the value at `ptr` inside `root`, where `root` is known to deserialize.
fn kind_at(item: &Item, root: &Value, ptr: &str, depth: usize) -> Kind {
    let cur = root.pointer(ptr).unwrap().clone();
    let ok = |v: Value| item.check(set(root, ptr, v)).is_ok();
    match cur {
        Value::Bool(_) => Kind::Bool,
        Value::Number(n) => {
            if n.is_f64() || ok(json!(1.5)) {
                return Kind::F64;
            }
            let (a, b) = int_bounds(&mut |v| ok(v));
            Kind::Int(a, b)
        }
        Value::String(_) => match item.check(set(root, ptr, json!("zz~nope"))) {
            Ok(()) => Kind::Str,
            Err(e) => {
                if e.contains("unknown variant") {
                    let t = ticks(&e);
                    Kind::Enum(t[1..].to_vec())
                } else if e.contains("a character") {
                    Kind::Char
                } else if e.contains("UUID") {
                    Kind::Uuid
                } else {
                    Kind::Date
                }
            }
        },
        Value::Object(m) => {
            if m.is_empty() || depth > 4 {
                return Kind::Opaque;
            }
            let mut fs = vec![];
            for k in m.keys() {
                fs.push((k.clone(), kind_at(item, root, &format!("{}/{}", ptr, k), depth + 1)));
            }
            Kind::Struct(fs)
        }
        Value::Array(a) => {
            if !a.is_empty() {
                // fixed-size array or defaulted vector?
                if ok(json!([])) {
                    let k = kind_at(item, root, &format!("{}/0", ptr), depth + 1);
                    return Kind::Array(Box::new(k));
                }
                let ks = (0..a.len()).map(|i| kind_at(item, root, &format!("{}/{}", ptr, i), depth + 1)).collect();
                return Kind::Fixed(ks);
            }
            match synth(item, root, ptr, depth) {
                Some(elem) => {
                    let r2 = set(root, ptr, json!([elem]));
                    Kind::Array(Box::new(kind_at(item, &r2, &format!("{}/0", ptr), depth + 1)))
                }
                None => Kind::Opaque,
            }
        }
        Value::Null => Kind::Opaque,
    }
}
/// find any element that can be pushed on the (empty) array at ptr
fn synth(item: &Item, root: &Value, ptr: &str, depth: usize) -> Option<Value> {
    if depth > 4 {
        return None;
    }
    for cand in [json!(1.5), json!(1), json!(true), json!("a"), json!([]), json!("2001-02-03T04:05:06Z")] {
        if item.check(set(root, ptr, json!([cand]))).is_ok() {
            return Some(cand);
        }
    }
    // string enum?
    if let Err(e) = item.check(set(root, ptr, json!(["zz~nope"]))) {
        if e.contains("unknown variant") {
            let t = ticks(&e);
            if t.len() > 1 {
                let v = json!([t[1]]);
                if item.check(set(root, ptr, v)).is_ok() {
                    return Some(json!(t[1]));
                }
            }
            return None;
        }
    }
    // struct: fill the missing fields one by one
    let mut m = Map::new();
    fill(item, root, ptr, &mut m, &mut vec![], 0)
}
fn place(m: &mut Map<String, Value>, path: &[String], v: Value) {
    if path.len() == 1 {
        m.insert(path[0].clone(), v);
    } else {
        let e = m.entry(path[0].clone()).or_insert_with(|| json!({}));
        place(e.as_object_mut().unwrap(), &path[1..], v);
    }
}
fn fill(item: &Item, root: &Value, ptr: &str, m: &mut Map<String, Value>, path: &mut Vec<String>, d: usize) -> Option<Value> {
    if d > 200 {
        return None;
    }
    // cands for the last placed field, tried in order
    let err = match item.check(set(root, ptr, json!([Value::Object(m.clone())]))) {
        Ok(()) => return Some(Value::Object(m.clone())),
        Err(e) => e,
    };
    if err.contains("missing field") {
        let f = ticks(&err)[0].clone();
        // the field is missing at some nesting level: try at the deepest open level first
        let mut levels = vec![path.clone()];
        for i in (0..path.len()).rev() {
            levels.push(path[..i].to_vec());
        }
        for lv in levels {
            let mut full = lv.clone();
            full.push(f.clone());
            for cand in [json!(1.5), json!(1), json!(true), json!("a"), json!([]), json!({})] {
                let mut m2 = m.clone();
                // level must be an object
                if !lv.is_empty() {
                    let p = format!("/{}", lv.join("/"));
                    if !Value::Object(m2.clone()).pointer(&p).map(|x| x.is_object()).unwrap_or(false) {
                        continue;
                    }
                }
                place(&mut m2, &full, cand.clone());
                match item.check(set(root, ptr, json!([Value::Object(m2.clone())]))) {
                    Ok(()) => {
                        *m = m2;
                        return Some(Value::Object(m.clone()));
                    }
                    Err(e2) => {
                        if e2.contains("unknown variant") {
                            let t = ticks(&e2);
                            let mut m3 = m.clone();
                            place(&mut m3, &full, json!(t[1]));
                            *m = m3;
                            return fill(item, root, ptr, m, path, d + 1);
                        }
                        if e2.contains("missing field") && ticks(&e2)[0] != f {
                            *m = m2;
                            if cand == json!({}) {
                                *path = full.clone();
                            } else {
                                *path = lv.clone();
                            }
                            return fill(item, root, ptr, m, path, d + 1);
                        }
                    }
                }
            }
        }
    }
    None
}

fn flatten(prefix: &str, k: &Kind, d: &Value, out: &mut Vec<Leaf>) {
    match k {
        Kind::Struct(fs) => {
            for (n, k) in fs {
                flatten(&format!("{}/{}", prefix, n), k, &d[n.as_str()], out);
            }
        }
        Kind::Fixed(ks) => {
            for (i, k) in ks.iter().enumerate() {
                flatten(&format!("{}/{}", prefix, i), k, &d[i], out);
            }
        }
        _ => out.push(Leaf { ptr: prefix.to_string(), kind: k.clone(), default: d.clone() }),
    }
}

pub struct Schema {
    pub default: Value,
    pub leaves: Vec<Leaf>,
}
pub fn discover(item: &Item) -> Schema {
    let d = item.default_value();
    let mut leaves = vec![];
    for k in d.as_object().expect("struct").keys() {
        let p = format!("/{}", k);
        let kind = kind_at(item, &d, &p, 0);
        flatten(&p, &kind, &d[k.as_str()], &mut leaves);
    }
    Schema { default: d, leaves }
}
pub fn discover_all() -> BTreeMap<String, Schema> {
    Item::all().into_iter().map(|i| (i.name(), discover(&i))).collect()
}

/// a random code pair in the library's JSON shape; offset is not part of its identity
pub fn gen_pair(code: i32, rng: &mut Rng) -> Option<Value> {
    let v = match crate::mini::vtype(code)? {
        crate::mini::VT::Str => {
            if (320..=369).contains(&code) || code == 5 || code == 105 || (390..400).contains(&code) {
                json!({"Str": format!("{:X}", rng.next() % 0xFFFFF)})
            } else {
                json!({"Str": *rng.pick(&["abc", "", "two words", "X_1"])})
            }
        }
        crate::mini::VT::F64 => json!({"Double": *rng.pick(&[0.0, 1.0, -2.5, 0.125, 1e5])}),
        crate::mini::VT::I16 => json!({"Short": *rng.pick(&[0, 1, -1, 300, 32767, -32768])}),
        crate::mini::VT::I32 => json!({"Integer": *rng.pick(&[0, 1, -1, 70000, i32::MAX, i32::MIN])}),
        crate::mini::VT::I64 => json!({"Long": *rng.pick(&[0i64, 1, -1, 1 << 40, i64::MAX])}),
        crate::mini::VT::Bool => json!({"Boolean": *rng.pick(&[0, 1])}),
        crate::mini::VT::Bin => { let n = rng.below(20); json!({"Binary": rng.bytes(n)}) }
    };
    Some(json!({"code": code, "value": v, "offset": 0}))
}
pub fn gen_xdata_item(rng: &mut Rng, depth: u32) -> Value {
    let f = |r: &mut Rng| *r.pick(&[0.0, 1.0, -2.5, 0.125, 1e5, 3.75]);
    match rng.below(if depth < 3 { 14 } else { 13 }) {
        0 => json!({"Str": *rng.pick(&["abc", "", "two words", "x{y"])}),
        1 => json!({"LayerName": *rng.pick(&["0", "lay er", "L1"])}),
        2 => { let n = rng.below(30); json!({"BinaryData": rng.bytes(n)}) }
        3 => json!({"Handle": rng.next() >> rng.below(60)}),
        4 => json!({"ThreeReals": [f(rng), f(rng), f(rng)]}),
        5 => json!({"WorldSpacePosition": {"x": f(rng), "y": f(rng), "z": f(rng)}}),
        6 => json!({"WorldSpaceDisplacement": {"x": f(rng), "y": f(rng), "z": f(rng)}}),
        7 => json!({"WorldDirection": {"x": f(rng), "y": f(rng), "z": f(rng)}}),
        8 => json!({"Real": f(rng)}),
        9 => json!({"Distance": f(rng)}),
        10 => json!({"ScaleFactor": f(rng)}),
        11 => json!({"Integer": *rng.pick(&[0, 1, -1, 300, 32767, -32768])}),
        12 => json!({"Long": *rng.pick(&[0, 1, -1, 70000, i32::MAX, i32::MIN])}),
        _ => { let n = rng.below(4); json!({"ControlGroup": (0..n).map(|_| gen_xdata_item(rng, depth + 1)).collect::<Vec<_>>()}) }
    }
}
pub fn gen_xdata(rng: &mut Rng) -> Value {
    let n = rng.below(3);
    Value::Array((0..n).map(|i| { let m = rng.below(6); json!({"application_name": format!("APP{}", i), "items": (0..m).map(|_| gen_xdata_item(rng, 0)).collect::<Vec<_>>()}) }).collect())
}
pub fn gen_ext_group(rng: &mut Rng, depth: u32, i: usize) -> Value {
    let m = 1 + rng.below(4);
    let items: Vec<Value> = (0..m).map(|k| {
        if depth < 2 && rng.chance(1, 6) {
            json!({"Group": gen_ext_group(rng, depth + 1, k)})
        } else {
            let c = *rng.pick(&[1, 2, 40, 70, 90, 330, 360, 280, 290, 300, 310, 1000, 1070, 10, 20, 160]);
            json!({"CodePair": gen_pair(c, rng)})
        }
    }).collect();
    json!({"application_name": format!("GRP{}_{}", depth, i), "items": items})
}
pub fn gen_ext(rng: &mut Rng) -> Value {
    let n = rng.below(3);
    Value::Array((0..n).map(|i| gen_ext_group(rng, 0, i)).collect())
}

/// value pools
pub fn pool(k: &Kind, name: &str, rng: &mut Rng) -> Vec<Value> {
    if name.ends_with("extension_data_groups") {
        return (0..8).map(|_| gen_ext(rng)).collect();
    }
    if name.ends_with("/x_data") {
        return (0..8).map(|_| gen_xdata(rng)).collect();
    }
    if name.ends_with("value_handles") {
        return vec![json!({}), json!({"K1": 5}), json!({"K1": 5, "key two": 77, "Z": 0x12345u64})];
    }
    if name.ends_with("data_pairs") {
        return (0..6).map(|n| Value::Array((0..n).map(|_| { let c = *rng.pick(&[1, 2, 40, 70, 90, 330, 360, 290, 300, 310, 1000, 1070, 10, 102, 280, 5]); gen_pair(c, rng).unwrap() }).collect())).collect();
    }
    match k {
        Kind::Bool => vec![json!(true), json!(false)],
        Kind::F64 => vec![
            json!(0.0), json!(1.0), json!(1.5), json!(-2.25), json!(0.1), json!(123456.789), json!(-0.0625),
            json!(1e-6), json!(10.0), json!(3.0e9), json!(360.0), json!(255.0), json!(40000.25),
        ],
        Kind::Int(a, b) => [0i128, 1, 2, 3, 4, 5, 7, 8, 16, 32, 64, 100, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536,
            -1, -2, -255, -32768, -32769, -65536, i32::MAX as i128, i32::MIN as i128, 1 << 33, i64::MAX as i128]
            .iter()
            .filter(|x| **x >= *a && **x <= *b)
            .map(|x| if *x < 0 { json!(*x as i64) } else { json!(*x as u64) })
            .collect(),
        Kind::Str => vec![json!(""), json!("A"), json!(format!("s_{}", name.replace('/', "_"))), json!("two words"), json!("mixedCase9")],
        Kind::Char => vec![json!("."), json!(","), json!("A"), json!("z"), json!("~")],
        Kind::Enum(v) => v.iter().map(|x| json!(x)).collect(),
        Kind::Date => vec![json!("2001-02-03T04:05:06Z"), json!("1999-12-31T21:58:35Z"), json!("2020-02-29T00:00:00Z"), json!("1950-06-01T12:00:00Z")],
        Kind::Uuid => vec![json!("a2a7a23e-975b-4b54-968c-150d4c32a9b6"), json!("00000000-0000-0000-0000-000000000001")],
        Kind::Array(e) => {
            let ep = pool(e, name, rng);
            let mut out = vec![];
            if ep.is_empty() {
                return out;
            }
            for n in [0usize, 1, 2, 3, 5] {
                out.push(Value::Array((0..n).map(|_| rng.pick(&ep).clone()).collect()));
            }
            out
        }
        Kind::Fixed(ks) => {
            let mut out = vec![];
            for _ in 0..4 {
                out.push(Value::Array(ks.iter().map(|k| { let p = pool(k, name, rng); rng.pick(&p).clone() }).collect()));
            }
            out
        }
        Kind::Struct(fs) => {
            let mut out = vec![];
            for _ in 0..4 {
                let mut m = Map::new();
                for (n, k) in fs {
                    let p = pool(k, n, rng);
                    m.insert(n.clone(), rng.pick(&p).clone());
                }
                out.push(Value::Object(m));
            }
            out
        }
        Kind::Opaque => vec![],
    }
}
