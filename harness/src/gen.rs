//! Random items and drawings within the format's limits, and the comparison of two drawings
//! field by field against the representability reference.
use crate::rng::Rng;
use crate::rt::*;
use crate::schema::*;
use crate::tab::*;
use crate::types::*;
use dxf::entities::Entity;
use dxf::enums::AcadVersion;
use dxf::objects::Object;
use dxf::Drawing;
use serde_json::{json, Map, Value};

pub fn vidx(v: AcadVersion) -> usize {
    VERSIONS.iter().position(|x| *x == v).expect("harness: version")
}
pub const R13: usize = 13;

// ---------------------------------------------------------------- values
pub fn text(r: &mut Rng) -> String {
    match r.below(12) {
        0 => "".into(),
        1 => "A".into(),
        2 => "two words".into(),
        3 => "caf\u{e9} \u{4e2d}\u{6587}".into(),
        4 => "0".into(),
        5 => "-17.5".into(),
        6 => format!("n{}", r.below(100000)),
        7 => "{not a group}".into(),
        8 => (0..r.below(80)).map(|_| (0x21 + r.below(0x5d)) as u8 as char).collect::<String>().replace('^', "'").replace('\\', "/").replace('%', "&"),
        9 if r.chance(1, 3) => { let n = 200 + r.below(900); (0..n).map(|i| (b'a' + ((i * 7 + n) % 26) as u8) as char).collect() }
        9 => "ENDSEC".into(),
        10 => "SECTION".into(),
        _ => (0..1 + r.below(12)).map(|_| (b'a' + r.below(26) as u8) as char).collect(),
    }
}
pub fn ident(r: &mut Rng) -> String {
    let n = 1 + r.below(10);
    format!("{}{}", (0..n).map(|_| (b'A' + r.below(26) as u8) as char).collect::<String>(), r.below(100))
}
pub fn real(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => 0.0,
        1 => 1.0,
        2 => -1.0,
        3 => r.range(-1000, 1000) as f64,
        4 => r.range(-1_000_000, 1_000_000) as f64 / 1024.0,
        5 => (r.next() >> 11) as f64 / (1u64 << 53) as f64,
        6 => -((r.next() >> 11) as f64) / (1u64 << 40) as f64,
        7 => 1e-9 * r.range(-1000, 1000) as f64,
        8 => 1e9 * r.range(-1000, 1000) as f64,
        _ => r.range(-100000, 100000) as f64 / 100.0,
    }
}
fn int(a: i128, b: i128, r: &mut Rng) -> i128 {
    let v = match r.below(6) {
        0 => r.range(0, 10) as i128,
        1 => r.range(-300, 300) as i128,
        2 => r.range(-32768, 32767) as i128,
        3 => r.range(-2147483648, 2147483647) as i128,
        4 => *r.pick(&[a, b, a + 1, b - 1]),
        _ => r.next() as i64 as i128 >> r.below(60),
    };
    if v < a || v > b { let w = b - a + 1; a + (v - a).rem_euclid(w) } else { v }
}
pub fn value(k: &Kind, ptr: &str, r: &mut Rng) -> Value {
    if ptr.ends_with("extension_data_groups") {
        return gen_ext(r);
    }
    if ptr.ends_with("/x_data") {
        return gen_xdata(r);
    }
    if ptr == "/name" {
        return json!(format!("N{}", text(r)));
    }
    if ptr.ends_with("/record_name") {
        return json!(ident(r));
    }
    if ptr.ends_with("value_handles") || ptr.ends_with("data_pairs") {
        let p = pool(k, ptr, r);
        return r.pick(&p).clone();
    }
    match k {
        Kind::Bool => json!(r.chance(1, 2)),
        Kind::F64 => json!(real(r)),
        Kind::Int(a, b) => {
            let v = int(*a, *b, r);
            if v < 0 { json!(v as i64) } else { json!(v as u64) }
        }
        Kind::Str => json!(text(r)),
        Kind::Char => json!(((0x21 + r.below(0x5d)) as u8 as char).to_string()),
        Kind::Enum(v) => json!(r.pick(v)),
        Kind::Date => json!(format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z", 1900 + r.below(200), 1 + r.below(12), 1 + r.below(28), r.below(24), r.below(60), r.below(60))),
        Kind::Uuid => json!(uuid::Uuid::from_u128(((r.next() as u128) << 64) | r.next() as u128).to_string()),
        Kind::Array(e) => {
            let n = *r.pick(&[0usize, 1, 1, 2, 3, 4, 7, 13]);
            Value::Array((0..n).map(|_| value(e, ptr, r)).collect())
        }
        Kind::Fixed(ks) => Value::Array(ks.iter().map(|k| value(k, ptr, r)).collect()),
        Kind::Struct(fs) => {
            let mut m = Map::new();
            for (n, k) in fs {
                m.insert(n.clone(), value(k, n, r));
            }
            Value::Object(m)
        }
        Kind::Opaque => Value::Null,
    }
}
/// common fields whose group code an item also uses for a field of its own, so that the library
/// mixes the two up (known findings, probed on their own)
pub const CLASH: &[(&str, &str, &str)] = &[
    ("entity", "MText", "/color_24_bit"),
    ("entity", "MText", "/color_name"),
    ("entity", "MText", "/line_type_scale"),
    ("entity", "Ole2Frame", "/preview_image_data"),
    ("entity", "OleFrame", "/preview_image_data"),
    ("entity", "ProxyEntity", "/preview_image_data"),
    ("entity", "ProxyEntity", "/image_byte_count"),
    ("entity", "ProxyEntity", "/__owner_handle"),
    ("entity", "Section", "/image_byte_count"),
    ("object", "AcadProxyObject", "/__owner_handle"),
    ("object", "DimensionAssoc", "/__owner_handle"),
    ("object", "Field", "/__owner_handle"),
    ("object", "IdBuffer", "/__owner_handle"),
    ("object", "SectionManager", "/__owner_handle"),
];
fn unclash(class: &str, kind: &str, c: &mut Value) {
    let d = &tab()[&format!("{}:*", class)].default;
    for (a, k, p) in CLASH {
        if *a == class && *k == kind {
            *c.pointer_mut(p).unwrap() = d.pointer(p).unwrap().clone();
        }
    }
}
pub fn clash(class: &str, kind: &str, ptr: &str) -> bool {
    CLASH.iter().any(|(c, k, p)| *c == class && *k == kind && *p == ptr)
}
fn is_private_buffer(p: &str) -> bool {
    p.rsplit('/').next().unwrap_or("").starts_with("__") && !p.ends_with("_handle")
}
pub const SPECIAL: &[(&str, &str)] = &[("block", "/entities"), ("entity:Insert", "/__attributes_and_handles"), ("entity:Polyline", "/__vertices_and_handles")];

/// a random value of the item in the given version: a random subset of the stored fields is set
pub fn item_value(name: &str, vi: usize, r: &mut Rng, num: u32, den: u32) -> Value {
    let it = &tab()[name];
    let mut b = base(&it.item, &it.default);
    for l in &it.leaves {
        let c = l.st[vi];
        if !stored(c) || !r.chance(num, den) || SPECIAL.contains(&(name, l.leaf.ptr.as_str())) || is_private_buffer(&l.leaf.ptr) {
            continue;
        }
        let x = value(&l.leaf.kind, &l.leaf.ptr, r);
        if x.is_null() {
            continue;
        }
        let x = fit(c, &x);
        if within(c, &x) {
            *b.pointer_mut(&l.leaf.ptr).unwrap() = x;
        }
    }
    couple(name, vi, &mut b, r, num, den);
    b
}
/// constraints between fields that the format imposes
fn couple(name: &str, vi: usize, b: &mut Value, r: &mut Rng, num: u32, den: u32) {
    match name {
        "table:Layer" if b["color"]["raw_value"] == json!(0) => b["color"]["raw_value"] = json!(7),
        "table:View" => b["is_associated_ucs_present"] = json!(true),
        "table:ViewPort" => b["has_own_ucs"] = json!(true),
        "entity:Insert" => {
            let n = if r.chance(1, 2) { 0 } else { 1 + r.below(3) };
            b["__attributes_and_handles"] = Value::Array((0..n).map(|_| json!([item_value("entity:Attribute", vi, r, num, den), 0])).collect());
        }
        "entity:Polyline" => {
            let n = r.below(5);
            let f = b["flags"].as_i64().unwrap_or(0);
            b["__vertices_and_handles"] = Value::Array((0..n).map(|_| {
                let mut v = item_value("entity:Vertex", vi, r, num, den);
                // the two flags that follow the kind of polyline
                let was = v["flags"].as_i64().unwrap_or(0);
                let mut g = was & !0x60;
                g |= if f & 8 != 0 { 32 } else { 0 };
                // the second one only for vertices that are no faces
                let idx = |r: &mut Rng| if r.chance(1, 2) { 0 } else { 1 + r.below(300) as i64 };
                if vi >= VERSIONS.iter().position(|x| *x == dxf::enums::AcadVersion::R12).unwrap() && r.chance(1, 3) {
                    for k in 1..5 { v[format!("polyface_mesh_vertex_index{}", k)] = json!(idx(r)); }
                }
                let face = (1..5).any(|k| v[format!("polyface_mesh_vertex_index{}", k)] != json!(0));
                g |= if face { was & 64 } else if f & 16 != 0 { 64 } else { 0 };
                v["flags"] = json!(g);
                json!([v, 0])
            }).collect());
        }
        "object:SunStudy" => {
            let n = r.below(6);
            b["hours"] = Value::Array((0..n).map(|_| json!(r.below(24))).collect());
        }
        "object:GeoData" => {
            let n = r.below(4);
            b["face_indices"] = Value::Array((0..n).map(|_| json!({"x": r.below(1000) as f64, "y": r.below(1000) as f64, "z": r.below(1000) as f64})).collect());
        }
        "class" => b["record_name"] = json!(ident(r)),
        "entity:RotatedDimension" => b["dimension_base"]["dimension_type"] = json!(*r.pick(&["RotatedHorizontalOrVertical", "Aligned"])),
        "object:DataTable" => {
            let (rows, cols) = (r.below(4), r.below(4));
            b["row_count"] = json!(rows);
            b["column_count"] = json!(cols);
            b["column_names"] = Value::Array((0..cols).map(|i| json!(format!("col{}", i))).collect());
            b["values"] = Value::Array((0..rows).map(|_| Value::Array((0..cols).map(|_| data_cell(r)).collect())).collect());
        }
        _ => (),
    }
}
pub fn data_cell(r: &mut Rng) -> Value {
    match r.below(7) {
        0 => json!({"Boolean": r.chance(1, 2)}),
        1 => json!({"Integer": r.range(-2147483648, 2147483647)}),
        2 => json!({"Double": real(r)}),
        3 => json!({"Str": text(r)}),
        4 => json!({"Point2D": {"x": real(r), "y": real(r), "z": 0.0}}),
        5 => json!({"Point3D": {"x": real(r), "y": real(r), "z": real(r)}}),
        _ => json!({"Handle": 1 + r.below(100000)}),
    }
}
/// entity kinds that may stand anywhere in a sequence (the others belong to an INSERT or POLYLINE)
pub fn free_entities() -> Vec<&'static str> {
    ENTITIES.iter().copied().filter(|e| !["Vertex", "Attribute", "Seqend"].contains(e)).collect()
}
pub fn entity_json(kind: &str, vi: usize, r: &mut Rng, num: u32, den: u32) -> Value {
    let mut c = item_value("entity:*", vi, r, num, den);
    c["handle"] = json!(0);
    unclash("entity", kind, &mut c);
    json!({"common": c, "specific": { kind: item_value(&format!("entity:{}", kind), vi, r, num, den) }})
}
pub fn object_json(kind: &str, vi: usize, r: &mut Rng, num: u32, den: u32) -> Value {
    let mut c = item_value("object:*", vi, r, num, den);
    c["handle"] = json!(0);
    unclash("object", kind, &mut c);
    json!({"common": c, "specific": { kind: item_value(&format!("object:{}", kind), vi, r, num, den) }})
}
pub fn to_entity(v: &Value) -> Entity {
    serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("harness: entity {} {}", e, v))
}
pub fn to_object(v: &Value) -> Object {
    serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("harness: object {} {}", e, v))
}
pub fn block_json(vi: usize, r: &mut Rng, ents: usize, num: u32, den: u32) -> Value {
    let mut b = item_value("block", vi, r, num, den);
    b["name"] = json!(ident(r));
    b["handle"] = json!(0);
    let kinds = free_entities();
    b["entities"] = Value::Array((0..ents).map(|_| { let k = *r.pick(&kinds); entity_json(k, vi, r, num, den) }).collect());
    b
}
#[derive(Clone, Copy)]
pub struct Mix {
    pub entities: usize,
    pub objects: usize,
    pub tables: usize,
    pub blocks: usize,
    pub classes: usize,
    pub header: bool,
    pub num: u32,
    pub den: u32,
}
impl Mix {
    pub fn any(r: &mut Rng) -> Mix {
        Mix { entities: r.below(8), objects: r.below(5), tables: r.below(6), blocks: r.below(3), classes: r.below(3), header: r.chance(1, 2), num: 1 + r.below(4) as u32, den: 5 }
    }
}
pub fn drawing(v: AcadVersion, r: &mut Rng, m: Mix) -> Drawing {
    let vi = vidx(v);
    let mut d = new_drawing(v);
    if m.header {
        let seed = d.header.next_available_handle;
        let h = item_value("header", vi, r, m.num, m.den);
        d.header = serde_json::from_value(h).expect("harness: header");
        d.header.version = v;
        d.header.next_available_handle = seed;
        // handles are only kept when the header says so; their absence is driven separately
        d.header.handles_enabled = r.chance(4, 5);
    }
    for _ in 0..m.tables {
        let t = *r.pick(TABLES);
        let mut x = item_value(&format!("table:{}", t), vi, r, m.num, m.den);
        x["name"] = json!(ident(r));
        add_subject(&mut d, &Item::Table(t), &x).expect("harness: table");
    }
    for _ in 0..m.classes {
        let x = item_value("class", vi, r, m.num, m.den);
        add_subject(&mut d, &Item::Class, &x).expect("harness: class");
    }
    for _ in 0..m.blocks {
        let n = r.below(4);
        let x = block_json(vi, r, n, m.num, m.den);
        add_subject(&mut d, &Item::Block, &x).expect("harness: block");
    }
    let kinds = free_entities();
    for _ in 0..m.entities {
        let k = *r.pick(&kinds);
        let x = entity_json(k, vi, r, m.num, m.den);
        d.add_entity(to_entity(&x));
    }
    for _ in 0..m.objects {
        let k = *r.pick(OBJECTS);
        let x = object_json(k, vi, r, m.num, m.den);
        d.add_object(to_object(&x));
    }
    d
}

// ---------------------------------------------------------------- comparison
const UCS: &[&str] = &["/ucs_origin", "/ucs_x_axis", "/ucs_y_axis", "/orthographic_view_type", "/ucs_elevation", "/__ucs_handle", "/__base_ucs_handle"];
pub struct Diff {
    pub sig: String,
    pub detail: String,
}
pub struct Cmp {
    pub exact: bool,
    pub handles: bool,
    pub diffs: Vec<Diff>,
    pub leaves: u64,
    kind: String,
}
fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.chars().count() > 120 { s.chars().take(120).collect::<String>() + "..." } else { s }
}
impl Cmp {
    pub fn new(exact: bool) -> Cmp {
        Cmp { exact, handles: true, diffs: vec![], leaves: 0, kind: String::new() }
    }
    pub fn push(&mut self, sig: String, detail: String) {
        if self.diffs.len() < 20 {
            self.diffs.push(Diff { sig, detail });
        }
    }
    /// compare the stored fields of two values of one item
    pub fn item(&mut self, name: &str, vi: usize, a: &Value, b: &Value) {
        let it = &tab()[name];
        for l in &it.leaves {
            let (c, p) = (l.st[vi], l.leaf.ptr.as_str());
            if !stored(c) {
                let nul = Value::Null;
                let (x, y) = (a.pointer(p).unwrap_or(&nul), b.pointer(p).unwrap_or(&nul));
                // the row of a matrix that the file leaves out keeps its default
                if c == '-' && p.contains("matrix/") && x != y && Some(x) == it.default.pointer(p) {
                    self.push(format!("unstored:{}{}", name, p), format!("{}{} in {}: the default {} became {}", name, p, vname(VERSIONS[vi]), short(x), short(y)));
                }
                continue;
            }
            if (name == "table:View" && a["is_associated_ucs_present"] == json!(false) || name == "table:ViewPort" && a["has_own_ucs"] == json!(false)) && UCS.iter().any(|u| p.starts_with(u)) {
                continue; // only stored with the flag on
            }
            let nul = Value::Null;
            let (x, y) = (a.pointer(p).unwrap_or(&nul), b.pointer(p).unwrap_or(&nul));
            match (name, p) {
                ("block", "/entities") => {
                    self.entities(vi, x, y, "block");
                    continue;
                }
                ("entity:Insert", "/__attributes_and_handles") => {
                    self.children("entity:Insert/attributes", "entity:Attribute", vi, x, y);
                    continue;
                }
                ("entity:Polyline", "/__vertices_and_handles") => {
                    self.children("entity:Polyline/vertices", "entity:Vertex", vi, x, y);
                    continue;
                }
                _ => (),
            }
            if !within(c, x) || (!self.handles && (p.ends_with("/handle") || p.ends_with("__seqend_handle") || p.ends_with("__owner_handle"))) {
                continue;
            }
            if l.leaf.kind == Kind::Date && x.as_str().map(|s| s.contains('.')).unwrap_or(true) {
                continue; // a default of "now": the format keeps seconds
            }
            if name.ends_with('*') && clash(&name[..6], &self.kind, p) {
                continue;
            }
            self.leaves += 1;
            if x == y {
                continue;
            }
            let mut d = vec![];
            diff("", x, y, self.exact, &mut d);
            if !d.is_empty() {
                let name = name.replace('*', &format!("{}.common", self.kind));
                self.push(format!("{}{}", name, p), format!("{}{} in {}: {} became {}", name, p, vname(VERSIONS[vi]), short(x), short(y)));
            }
        }
        if name == "object:DataTable" && stored(it.leaves.iter().find(|l| l.leaf.ptr == "/column_count").map(|l| l.st[vi]).unwrap_or('-')) {
            let mut d = vec![];
            diff("", &a["values"], &b["values"], self.exact, &mut d);
            self.leaves += 1;
            if !d.is_empty() {
                self.push("object:DataTable/values".into(), format!("object:DataTable/values: {} became {}", short(&a["values"]), short(&b["values"])));
            }
        }
    }
    fn children(&mut self, what: &str, name: &str, vi: usize, a: &Value, b: &Value) {
        let e = vec![];
        let (x, y) = (a.as_array().unwrap_or(&e), b.as_array().unwrap_or(&e));
        if x.len() != y.len() {
            self.push(what.to_string(), format!("{} in {}: {} became {}", what, vname(VERSIONS[vi]), x.len(), y.len()));
            return;
        }
        for i in 0..x.len() {
            self.item(name, vi, &x[i][0], &y[i][0]);
            self.leaves += 1;
            if self.handles && vi >= R13 && x[i][1] != y[i][1] {
                self.push(format!("{}/handle", what), format!("{} handle {} became {}", what, x[i][1], y[i][1]));
            }
        }
    }
    pub fn entities(&mut self, vi: usize, a: &Value, b: &Value, place: &str) {
        let e = vec![];
        let (x, y) = (a.as_array().unwrap_or(&e), b.as_array().unwrap_or(&e));
        let keep: Vec<&Value> = x.iter().filter(|v| { let n = format!("entity:{}", kind_of(v)); tab().get(&n).map(|t| t.present[vi] != 'a').unwrap_or(true) }).collect();
        let (ka, kb): (Vec<_>, Vec<_>) = (keep.iter().map(|v| kind_of(v)).collect(), y.iter().map(kind_of).collect());
        if ka != kb {
            self.push(format!("{}:sequence", place), format!("entities in {} of {}: {:?} became {:?}", place, vname(VERSIONS[vi]), ka, kb));
            return;
        }
        for (p, q) in keep.iter().zip(y) {
            self.entity(vi, p, q);
        }
    }
    pub fn entity(&mut self, vi: usize, p: &Value, q: &Value) {
        let k = kind_of(p);
        self.kind = k.clone();
        self.item("entity:*", vi, &p["common"], &q["common"]);
        let n = format!("entity:{}", k);
        if tab().contains_key(&n) {
            self.item(&n, vi, &p["specific"][&k], &q["specific"][&k]);
        }
    }
    pub fn objects(&mut self, vi: usize, a: &Value, b: &Value) {
        let e = vec![];
        let (x, y) = (a.as_array().unwrap_or(&e), b.as_array().unwrap_or(&e));
        let keep: Vec<&Value> = x.iter().filter(|v| { let n = format!("object:{}", kind_of(v)); tab().get(&n).map(|t| t.present[vi] != 'a').unwrap_or(true) }).collect();
        let (ka, kb): (Vec<_>, Vec<_>) = (keep.iter().map(|v| kind_of(v)).collect(), y.iter().map(kind_of).collect());
        if ka != kb {
            self.push("objects:sequence".into(), format!("objects of {}: {:?} became {:?}", vname(VERSIONS[vi]), ka, kb));
            return;
        }
        for (p, q) in keep.iter().zip(y) {
            let k = kind_of(p);
            self.kind = k.clone();
            self.item("object:*", vi, &p["common"], &q["common"]);
            let n = format!("object:{}", k);
            if tab().contains_key(&n) {
                self.item(&n, vi, &p["specific"][&k], &q["specific"][&k]);
            }
        }
    }
    /// named items: those of `a` come back under their names and in their order
    pub fn named(&mut self, name: &str, vi: usize, a: &[Value], b: &[Value]) {
        let it = &tab()[name];
        if it.present[vi] == 'a' {
            return; // such items may be created on load for what refers to them
        }
        let mut j = 0;
        for x in a {
            let mut found = None;
            while j < b.len() {
                j += 1;
                if b[j - 1]["name"] == x["name"] {
                    found = Some(&b[j - 1]);
                    break;
                }
            }
            match found {
                Some(y) => self.item(name, vi, x, y),
                None => {
                    self.push(format!("{}:presence", name), format!("{} {} is lost or out of order in {}: {:?}", name, x["name"], vname(VERSIONS[vi]), b.iter().map(|q| q["name"].to_string()).collect::<Vec<_>>()));
                    return;
                }
            }
        }
    }
    pub fn drawings(&mut self, a: &Drawing, b: &Drawing) {
        let vi = vidx(a.header.version);
        self.handles = a.header.handles_enabled || vi >= R13;
        self.item("header", vi, &jv(&a.header), &jv(&b.header));
        for t in TABLES {
            let i = Item::Table(t);
            let (x, y) = (subjects(a, &i), subjects(b, &i));
            self.named(&format!("table:{}", t), vi, &x, &y);
        }
        let (x, y) = (subjects(a, &Item::Block), subjects(b, &Item::Block));
        self.named("block", vi, &x, &y);
        let (x, y) = (subjects(a, &Item::Class), subjects(b, &Item::Class));
        if tab()["class"].present[vi] != 'a' {
            if x.len() != y.len() {
                self.push("class:count".into(), format!("{} classes became {}", x.len(), y.len()));
            } else {
                for i in 0..x.len() {
                    self.item("class", vi, &x[i], &y[i]);
                }
            }
        }
        self.entities(vi, &jv(&a.entities().collect::<Vec<_>>()), &jv(&b.entities().collect::<Vec<_>>()), "entities");
        self.objects(vi, &jv(&a.objects().collect::<Vec<_>>()), &jv(&b.objects().collect::<Vec<_>>()));
    }
}
pub fn kind_of(v: &Value) -> String {
    v["specific"].as_object().and_then(|m| m.keys().next().cloned()).unwrap_or_else(|| v["specific"].as_str().unwrap_or("?").to_string())
}
/// a readable description of a drawing for the replay file
pub fn describe(d: &Drawing) -> Value {
    json!({"version": vname(d.header.version),
        "entities": d.entities().map(|e| kind_of(&jv(e))).collect::<Vec<_>>(),
        "objects": d.objects().map(|e| kind_of(&jv(e))).collect::<Vec<_>>(),
        "blocks": d.blocks().map(|b| b.entities.iter().map(|e| kind_of(&jv(e))).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "layers": d.layers().count()})
}
