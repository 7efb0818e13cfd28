//! C10, C12, C24: histories of operations on a drawing through its public functions, watched by a
//! monitor that keeps a list model of every collection, the set of handles ever used and the
//! named resources each item needs. C11 (c_ptr.rs) reuses the collections.
use crate::c_dxb;
use crate::fw::*;
use crate::gen;
use crate::gen::*;
use crate::lab;
use crate::mini::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::types::*;
use dxf::entities::*;
use dxf::objects::*;
use dxf::tables::*;
use dxf::{Block, Drawing, DrawingItem, DrawingItemMut, Handle};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub struct Coll {
    pub key: &'static str,
    pub name: &'static str,
    pub add: fn(&mut Drawing, &Value) -> Value,
    pub remove: fn(&mut Drawing, usize) -> Option<Value>,
    pub list: fn(&Drawing) -> Vec<Value>,
    pub list_mut: fn(&mut Drawing) -> Vec<Value>,
    pub replace: fn(&mut Drawing, usize, &Value) -> bool,
    /// the item found by handle, if it is of this kind
    pub by_handle: fn(&Drawing, Handle) -> Option<Option<(Value, Handle)>>,
    pub put_by_handle: fn(&mut Drawing, Handle, &Value) -> bool,
    pub default: fn() -> Value,
}
macro_rules! coll {
    ($key:literal, $t:ident, $add:ident, $remove:ident, $it:ident, $it_mut:ident, $default:expr) => {
        Coll {
            key: $key,
            name: stringify!($t),
            add: |d, v| { let x: $t = serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("harness: {} {} {}", stringify!($t), e, v)); jv(d.$add(x)) },
            remove: |d, i| d.$remove(i).map(|x| jv(&x)),
            list: |d| d.$it().map(|x| jv(x)).collect(),
            list_mut: |d| d.$it_mut().map(|x| jv(x)).collect(),
            replace: |d, i, v| match d.$it_mut().nth(i) { Some(x) => { *x = serde_json::from_value(v.clone()).expect("harness: replace"); true } None => false },
            by_handle: |d, h| d.item_by_handle(h).map(|x| { let g = x.handle(); if let DrawingItem::$t(y) = x { Some((jv(y), g)) } else { None } }),
            put_by_handle: |d, h, v| match d.item_by_handle_mut(h) {
                Some(x) => match x { DrawingItemMut::$t(y) => { *y = serde_json::from_value(v.clone()).expect("harness: put"); true } _ => false },
                None => false,
            },
            default: || $default,
        }
    };
}
pub const COLLS: &[Coll] = &[
    coll!("__app_ids", AppId, add_app_id, remove_app_id, app_ids, app_ids_mut, jv(&AppId::default())),
    coll!("__block_records", BlockRecord, add_block_record, remove_block_record, block_records, block_records_mut, jv(&BlockRecord::default())),
    coll!("__dim_styles", DimStyle, add_dim_style, remove_dim_style, dim_styles, dim_styles_mut, jv(&DimStyle::default())),
    coll!("__layers", Layer, add_layer, remove_layer, layers, layers_mut, jv(&Layer::default())),
    coll!("__line_types", LineType, add_line_type, remove_line_type, line_types, line_types_mut, jv(&LineType::default())),
    coll!("__styles", Style, add_style, remove_style, styles, styles_mut, jv(&Style::default())),
    coll!("__ucss", Ucs, add_ucs, remove_ucs, ucss, ucss_mut, jv(&Ucs::default())),
    coll!("__views", View, add_view, remove_view, views, views_mut, jv(&View::default())),
    coll!("__view_ports", ViewPort, add_view_port, remove_view_port, view_ports, view_ports_mut, jv(&ViewPort::default())),
    coll!("__blocks", Block, add_block, remove_block, blocks, blocks_mut, jv(&Block::default())),
    coll!("__entities", Entity, add_entity, remove_entity, entities, entities_mut, Value::Null),
    coll!("__objects", Object, add_object, remove_object, objects, objects_mut, Value::Null),
];
pub const BLOCKS: usize = 9;
pub const ENTS: usize = 10;
pub const OBJS: usize = 11;
fn arr<'a>(v: &'a Value, k: &str) -> &'a Vec<Value> { v[k].as_array().expect("harness: list") }

// ---------------------------------------------------------------- handles
/// every handle an item carries for itself, its children and its end marker
pub fn own_handles(ci: usize, v: &Value) -> Vec<u64> {
    let mut o = vec![];
    match ci {
        ENTS => entity_handles(v, &mut o),
        OBJS => o.push(v["common"]["handle"].as_u64().unwrap_or(0)),
        BLOCKS => {
            o.push(v["handle"].as_u64().unwrap_or(0));
            for e in v["entities"].as_array().into_iter().flatten() {
                entity_handles(e, &mut o);
            }
        }
        _ => o.push(v["handle"].as_u64().unwrap_or(0)),
    }
    o
}
fn entity_handles(v: &Value, o: &mut Vec<u64>) {
    o.push(v["common"]["handle"].as_u64().unwrap_or(0));
    for (k, f) in [("Insert", "__attributes_and_handles"), ("Polyline", "__vertices_and_handles")] {
        if let Some(x) = v["specific"].get(k) {
            let ch = x[f].as_array().expect("harness: children");
            if k == "Polyline" || !ch.is_empty() {
                o.push(x["__seqend_handle"].as_u64().unwrap_or(0));
            }
            o.extend(ch.iter().map(|c| c[1].as_u64().unwrap_or(0)));
        }
    }
}
fn blank_entity(v: &mut Value) {
    v["common"]["handle"] = json!(0);
    for (k, f) in [("Insert", "__attributes_and_handles"), ("Polyline", "__vertices_and_handles")] {
        if let Some(x) = v["specific"].get_mut(k) {
            x["__seqend_handle"] = json!(0);
            for c in x[f].as_array_mut().expect("harness: children") {
                c[1] = json!(0);
            }
        }
    }
}
/// the item without the handles that adding it assigns
pub fn blank(ci: usize, v: &Value) -> Value {
    let mut v = v.clone();
    match ci {
        ENTS => blank_entity(&mut v),
        OBJS => v["common"]["handle"] = json!(0),
        _ => {
            v["handle"] = json!(0);
            if ci == BLOCKS {
                for e in v["entities"].as_array_mut().expect("harness: entities") {
                    blank_entity(e);
                }
            }
        }
    }
    v
}
pub fn all_handles(j: &Value) -> Vec<(String, u64)> {
    let mut o = vec![];
    for (ci, c) in COLLS.iter().enumerate() {
        for (i, x) in arr(j, c.key).iter().enumerate() {
            for h in own_handles(ci, x) {
                o.push((format!("{}/{}", c.key, i), h));
            }
        }
    }
    o
}

// ---------------------------------------------------------------- named resources
type Need = BTreeSet<(usize, String)>;
fn st(v: &Value) -> String { v.as_str().unwrap_or("").to_string() }
/// what an item refers to by name: (required, tolerated)
pub fn needs(ci: usize, v: &Value) -> (Need, Need) {
    let (mut q, mut o) = (Need::new(), Need::new());
    match ci {
        3 => { q.insert((4, st(&v["line_type_name"]))); }
        BLOCKS => {
            q.insert((3, st(&v["layer"])));
            q.insert((1, st(&v["name"])));
            for e in v["entities"].as_array().into_iter().flatten() {
                q.insert((3, st(&e["common"]["layer"])));
                q.insert((4, st(&e["common"]["line_type_name"])));
                let (a, _) = needs(ENTS, e);
                o.extend(a);
            }
        }
        ENTS => {
            q.insert((3, st(&v["common"]["layer"])));
            q.insert((4, st(&v["common"]["line_type_name"])));
            let k = kind_of(v);
            let s = &v["specific"][&k];
            match k.as_str() {
                "ArcAlignedText" | "Attribute" | "AttributeDefinition" | "MText" | "Text" => { q.insert((5, st(&s["text_style_name"]))); }
                "RotatedDimension" | "RadialDimension" | "DiameterDimension" | "AngularThreePointDimension" | "OrdinateDimension" => { q.insert((2, st(&s["dimension_base"]["dimension_style_name"]))); }
                "Leader" | "Tolerance" => { q.insert((2, st(&s["dimension_style_name"]))); }
                "MLine" => {
                    let n = st(&s["style_name"]);
                    q.insert((OBJS, n.clone()));
                    o.insert((4, n.clone()));
                    o.insert((5, n));
                }
                _ => (),
            }
        }
        OBJS => {
            let k = kind_of(v);
            let s = &v["specific"][&k];
            match k.as_str() {
                "LayerFilter" | "LayerIndex" => q.extend(s["layer_names"].as_array().into_iter().flatten().map(|x| (3, st(x)))),
                "PlotSettings" => { q.insert((7, st(&s["plot_view_name"]))); }
                "MLineStyle" => {
                    o.insert((4, st(&s["style_name"])));
                    o.insert((5, st(&s["style_name"])));
                }
                _ => (),
            }
        }
        _ => (),
    }
    (q, o)
}
fn name_of(ci: usize, v: &Value) -> Option<String> {
    if ci == OBJS {
        v["specific"].get("MLineStyle").map(|s| st(&s["style_name"]))
    } else if ci < BLOCKS {
        Some(st(&v["name"]))
    } else {
        None
    }
}
fn count_named(ci: usize, l: &[Value], n: &str) -> usize { l.iter().filter(|x| name_of(ci, x).as_deref() == Some(n)).count() }
/// the entry the library creates for a name
fn created(ci: usize, n: &str) -> Value {
    if ci == OBJS {
        let s = MLineStyle { style_name: n.into(), ..Default::default() };
        return blank(OBJS, &jv(&Object::new(ObjectType::MLineStyle(s))));
    }
    let mut v = (COLLS[ci].default)();
    v["name"] = json!(n);
    v
}
fn closure(q: &mut Need, o: &mut Need, created_layers: &[Value]) {
    for l in created_layers {
        q.insert((4, st(&l["line_type_name"])));
    }
    let _ = o;
}

// ---------------------------------------------------------------- the monitor
pub struct Mon {
    pub fails: Vec<(&'static str, String, String)>,
    pub used: BTreeSet<u64>,
    pub trace: Vec<String>,
}
impl Mon {
    fn fail(&mut self, p: &'static str, sig: impl Into<String>, d: impl Into<String>) {
        if self.fails.len() < 30 {
            self.fails.push((p, sig.into(), d.into()));
        }
    }
    /// handles after any operation: unique, not zero; those that are new were never used before
    fn handles(&mut self, op: &str, before: &Value, after: &Value) {
        let hs = all_handles(after);
        let mut seen: BTreeMap<u64, &str> = BTreeMap::new();
        for (p, h) in &hs {
            if *h == 0 {
                self.fail("C10", format!("zero:{}", op), format!("{} has handle 0 after {}", p, op));
            } else if let Some(q) = seen.insert(*h, p) {
                self.fail("C10", format!("duplicate:{}", op), format!("{} and {} both have handle {:X} after {}", q, p, h, op));
            }
        }
        let old: BTreeSet<u64> = all_handles(before).into_iter().map(|x| x.1).collect();
        for h in seen.keys() {
            if !old.contains(h) && self.used.contains(h) {
                self.fail("C10", format!("reused:{}", op), format!("{} gave out handle {:X}, which was used before", op, h));
            }
        }
        self.used.extend(seen.keys());
    }
    /// public iteration, reading and mutable, agrees with the recorded state
    fn views(&mut self, d: &mut Drawing, j: &Value) {
        for c in COLLS {
            let l = arr(j, c.key);
            if &(c.list)(d) != l {
                self.fail("C24", format!("iteration:{}", c.key), format!("reading iteration of {} does not yield its items in order", c.key));
            }
            if &(c.list_mut)(d) != l {
                self.fail("C24", format!("iteration-mut:{}", c.key), format!("mutable iteration of {} does not yield its items in order", c.key));
            }
        }
    }
    fn header_same(&mut self, op: &str, before: &Value, after: &Value) {
        let (mut a, mut b) = (before["header"].clone(), after["header"].clone());
        a["next_available_handle"] = json!(0);
        b["next_available_handle"] = json!(0);
        if a != b {
            let mut o = vec![];
            diff("", &a, &b, true, &mut o);
            self.fail("C24", format!("header:{}", op), format!("{} changed the header: {:?}", op, o));
        }
        if before["classes"] != after["classes"] {
            self.fail("C24", format!("classes:{}", op), format!("{} changed the classes", op));
        }
    }
    fn untouched(&mut self, op: &str, before: &Value, after: &Value, except: &[usize]) {
        for (i, c) in COLLS.iter().enumerate() {
            if !except.contains(&i) && before[c.key] != after[c.key] {
                self.fail("C24", format!("other:{}:{}", op, c.key), format!("{} changed {}", op, c.key));
            }
        }
    }
    fn added(&mut self, op: &str, ci: usize, item: &Value, ret: &Value, before: &Value, after: &Value) {
        let (x, y) = (arr(before, COLLS[ci].key), arr(after, COLLS[ci].key));
        if y.len() != x.len() + 1 || y[..x.len()] != x[..] || blank(ci, &y[x.len()]) != blank(ci, item) {
            let mut o = vec![];
            if let Some(l) = y.last() {
                diff("", &blank(ci, l), &blank(ci, item), true, &mut o);
            }
            self.fail("C24", format!("append:{}", op), format!("{}: {} items became {}, the last differs from the one added at {:?}", op, x.len(), y.len(), o));
        } else if ret != &y[x.len()] {
            self.fail("C24", format!("returned:{}", op), format!("{} returned another item than the one added", op));
        }
        let (mut q, mut o) = needs(ci, item);
        let mut extras: Vec<(usize, Value)> = vec![];
        for (i, c) in COLLS.iter().enumerate() {
            if i == ci {
                continue;
            }
            let (x, y) = (arr(before, c.key), arr(after, c.key));
            if y.len() < x.len() || y[..x.len()] != x[..] {
                let p: &'static str = if i < BLOCKS { "C12" } else { "C24" };
                self.fail(p, format!("changed:{}:{}", op, c.key), format!("{} changed the existing items of {}", op, c.key));
                if p == "C12" {
                    self.fail("C24", format!("changed:{}:{}", op, c.key), format!("{} changed the existing items of {}", op, c.key));
                }
                continue;
            }
            extras.extend(y[x.len()..].iter().map(|v| (i, v.clone())));
        }
        let layers: Vec<Value> = extras.iter().filter(|e| e.0 == 3).map(|e| e.1.clone()).collect();
        closure(&mut q, &mut o, &layers);
        let mut names = BTreeSet::new();
        for (i, v) in &extras {
            let n = name_of(*i, v);
            let known = n.as_ref().map(|n| q.contains(&(*i, n.clone())) || o.contains(&(*i, n.clone()))).unwrap_or(false);
            if !known {
                self.fail("C24", format!("extra:{}:{}", op, COLLS[*i].key), format!("{} also added to {}: {}", op, COLLS[*i].key, lab::brief(v)));
                continue;
            }
            let n = n.unwrap();
            if count_named(*i, arr(before, COLLS[*i].key), &n) > 0 || !names.insert((*i, n.clone())) {
                self.fail("C12", format!("twice:{}:{}", op, COLLS[*i].key), format!("{} added {:?} to {} although it was there", op, n, COLLS[*i].key));
            }
            if blank(*i, v) != created(*i, &n) {
                self.fail("C12", format!("content:{}:{}", op, COLLS[*i].key), format!("{} added {:?} to {} with other than default content", op, n, COLLS[*i].key));
            }
        }
        for (i, n) in &q {
            if count_named(*i, arr(after, COLLS[*i].key), n) == 0 {
                self.fail("C12", format!("missing:{}:{}", op, COLLS[*i].key), format!("{} did not add {:?} to {}", op, n, COLLS[*i].key));
            }
        }
        self.header_same(op, before, after);
    }
}
/// what a drawing becomes by normalizing (new entries carry handle null)
fn normalized(j: &Value) -> Value {
    let mut j = j.clone();
    let empty = |v: &mut Value, d: &str| if v.as_str() == Some("") { *v = json!(d) };
    let pos = |v: &mut Value, d: f64| if v.as_f64().map(|x| x <= 0.0).unwrap_or(false) { *v = json!(d) };
    let posi = |v: &mut Value, d: i64| if v.as_i64().map(|x| x <= 0).unwrap_or(false) { *v = json!(d) };
    let h = &mut j["header"];
    pos(&mut h["default_text_height"], 0.2);
    pos(&mut h["trace_width"], 0.05);
    empty(&mut h["text_style"], "STANDARD");
    empty(&mut h["current_layer"], "0");
    empty(&mut h["current_entity_line_type"], "BYLAYER");
    empty(&mut h["dimension_style_name"], "STANDARD");
    empty(&mut h["file_name"], ".");
    for b in j["__blocks"].as_array_mut().unwrap() {
        empty(&mut b["layer"], "0");
    }
    for e in j["__entities"].as_array_mut().unwrap() {
        empty(&mut e["common"]["layer"], "0");
    }
    let h = j["header"].clone();
    let mut want: Vec<(usize, String)> = vec![];
    for (i, l) in [(0, vec!["ACAD", "ACADANNOTATIVE", "ACAD_NAV_VCDISPLAY", "ACAD_MLEADERVER"]), (1, vec!["*MODEL_SPACE", "*PAPER_SPACE"]), (3, vec![h["current_layer"].as_str().unwrap(), "0"]), (2, vec!["STANDARD", "ANNOTATIVE"]), (5, vec!["STANDARD", "ANNOTATIVE"]), (4, vec!["BYLAYER", "BYBLOCK", "CONTINUOUS"]), (8, vec!["*ACTIVE"])] {
        want.extend(l.into_iter().map(|s| (i, s.to_string())));
    }
    for k in ["ucs_definition_name", "ucs_name", "ortho_ucs_reference", "paperspace_ucs_definition_name", "paperspace_ucs_name", "paperspace_ortho_ucs_reference"] {
        if !h[k].as_str().unwrap().is_empty() {
            want.push((6, st(&h[k])));
        }
    }
    let new = |j: &mut Value, i: usize, n: &str| -> bool {
        if count_named(i, arr(j, COLLS[i].key), n) == 0 {
            let mut v = created(i, n);
            v["handle"] = Value::Null;
            j[COLLS[i].key].as_array_mut().unwrap().push(v);
            true
        } else {
            false
        }
    };
    for (i, n) in &want {
        if new(&mut j, *i, n) && *i == 3 {
            let lt = st(&(COLLS[3].default)()["line_type_name"]);
            new(&mut j, 4, &lt);
        }
    }
    for l in j["__layers"].as_array_mut().unwrap() {
        empty(&mut l["line_type_name"], "CONTINUOUS");
        let c = &mut l["color"]["raw_value"];
        if *c == json!(0) || *c == json!(256) {
            *c = json!(7);
        }
    }
    for s in j["__styles"].as_array_mut().unwrap() {
        pos(&mut s["text_height"], 0.0);
        pos(&mut s["width_factor"], 1.0);
    }
    for v in j["__views"].as_array_mut().unwrap() {
        for k in ["view_height", "view_width", "lens_length"] {
            pos(&mut v[k], 1.0);
        }
    }
    for v in j["__view_ports"].as_array_mut().unwrap() {
        for k in ["snap_spacing", "grid_spacing"] {
            for a in ["x", "y", "z"] {
                pos(&mut v[k][a], 1.0);
            }
        }
        pos(&mut v["view_height"], 1.0);
        pos(&mut v["view_port_aspect_ratio"], 1.0);
        pos(&mut v["lens_length"], 50.0);
        posi(&mut v["ucs_icon"], 3);
        posi(&mut v["circle_sides"], 1000);
    }
    for c in &COLLS[..9] {
        j[c.key].as_array_mut().unwrap().sort_by(|a, b| a["name"].as_str().unwrap().cmp(b["name"].as_str().unwrap()));
    }
    j
}
fn check_normalize(m: &mut Mon, before: &Value, after: &Value) {
    let want = normalized(before);
    for c in COLLS {
        let (x, y) = (arr(&want, c.key), arr(after, c.key));
        if x.len() != y.len() {
            m.fail("C12", format!("normalize:count:{}", c.key), format!("{} has {} entries after normalizing, not {}: {:?}", c.key, y.len(), x.len(), y.iter().map(|v| v["name"].to_string()).collect::<Vec<_>>()));
            continue;
        }
        for (p, q) in x.iter().zip(y) {
            let mut q = q.clone();
            if p["handle"].is_null() && !p["common"].is_object() {
                q["handle"] = Value::Null;
            }
            if *p != q {
                let mut o = vec![];
                diff("", p, &q, true, &mut o);
                let f = o.first().cloned().unwrap_or_default();
                m.fail("C12", format!("normalize:{}{}", c.key, lab::place_sig(&f)), format!("after normalizing, entry {} of {} differs from what is expected at {:?}: {}", q["name"], c.key, o, lab::brief(q.pointer(&f).unwrap_or(&Value::Null))));
                break;
            }
        }
    }
    let (mut a, mut b) = (want["header"].clone(), after["header"].clone());
    a["next_available_handle"] = json!(0);
    b["next_available_handle"] = json!(0);
    if a != b {
        let mut o = vec![];
        diff("", &a, &b, true, &mut o);
        m.fail("C12", format!("normalize:header{}", o.first().cloned().unwrap_or_default()), format!("header after normalizing differs at {:?}", o));
    }
    if before["classes"] != after["classes"] {
        m.fail("C12", "normalize:classes", "normalizing changed the classes");
    }
}

// ---------------------------------------------------------------- items
const NAMES: &[&str] = &["", "0", "STANDARD", "BYLAYER", "A", "B", "C", "a", "*ACTIVE", "CONTINUOUS", "Standard", "\u{e9}"];
thread_local! { static NEAR: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }
/// a name that is `n` or nearly so
fn near(n: &str, r: &mut Rng) -> String {
    match r.below(12) {
        0..=2 => n.to_string(),
        3 => n.to_uppercase(),
        4 => n.to_lowercase(),
        5 => format!("{} ", n),
        6 => format!(" {}", n),
        7 => format!("{}x", n),
        8 => { let mut c: Vec<char> = n.chars().collect(); c.pop(); c.into_iter().collect() }
        9 => format!("{}\t", n),
        10 => n.chars().rev().collect(),
        _ => format!("{}$0${}", n, n),
    }
}
pub fn pick_name(r: &mut Rng) -> String {
    if let Some(n) = NEAR.with(|b| b.borrow().clone()) {
        return near(&n, r);
    }
    match r.below(8) {
        0..=5 => r.pick(NAMES).to_string(),
        6 => ident(r),
        _ => gen::text(r),
    }
}
fn rename_entity(v: &mut Value, r: &mut Rng) {
    v["common"]["layer"] = json!(pick_name(r));
    v["common"]["line_type_name"] = json!(pick_name(r));
    let k = kind_of(v);
    let s = &mut v["specific"][&k];
    for f in ["text_style_name", "dimension_style_name", "style_name"] {
        if s.get(f).map(|x| x.is_string()).unwrap_or(false) {
            s[f] = json!(pick_name(r));
        }
    }
    if let Some(b) = s.get_mut("dimension_base") {
        b["dimension_style_name"] = json!(pick_name(r));
    }
    if r.chance(1, 3) {
        // a handle from elsewhere, which adding replaces
        v["common"]["handle"] = json!(r.below(200));
        for (k, f) in [("Insert", "__attributes_and_handles"), ("Polyline", "__vertices_and_handles")] {
            if let Some(x) = v["specific"].get_mut(k) {
                x["__seqend_handle"] = json!(r.below(200));
                for c in x[f].as_array_mut().unwrap() {
                    c[1] = json!(r.below(200));
                }
            }
        }
    }
}
pub fn any_item(ci: usize, vi: usize, r: &mut Rng) -> Value {
    let (n, d) = (r.below(3) as u32, 4);
    match ci {
        ENTS => {
            let k = match r.below(8) {
                0 => "Insert",
                1 => "Polyline",
                2 => *r.pick(&["Text", "MText", "MLine", "Leader", "Tolerance", "RotatedDimension", "OrdinateDimension", "RadialDimension", "DiameterDimension", "AngularThreePointDimension", "ArcAlignedText", "Attribute", "AttributeDefinition"]),
                _ => *r.pick(ENTITIES),
            };
            let mut v = entity_json(k, vi, r, n, d);
            rename_entity(&mut v, r);
            v
        }
        OBJS => {
            let k = if r.chance(1, 3) { *r.pick(&["LayerFilter", "LayerIndex", "PlotSettings", "MLineStyle"]) } else { *r.pick(OBJECTS) };
            let mut v = object_json(k, vi, r, n, d);
            let s = &mut v["specific"][k];
            match k {
                "LayerFilter" | "LayerIndex" => s["layer_names"] = Value::Array((0..r.below(4)).map(|_| json!(pick_name(r))).collect()),
                "PlotSettings" => s["plot_view_name"] = json!(pick_name(r)),
                "MLineStyle" => s["style_name"] = json!(pick_name(r)),
                _ => (),
            }
            if r.chance(1, 3) {
                v["common"]["handle"] = json!(r.below(200));
            }
            v
        }
        BLOCKS => {
            let e = r.below(4);
            let mut v = block_json(vi, r, e, n, d);
            v["name"] = json!(pick_name(r));
            v["layer"] = json!(pick_name(r));
            for e in v["entities"].as_array_mut().unwrap() {
                rename_entity(e, r);
            }
            if r.chance(1, 3) {
                v["handle"] = json!(r.below(200));
            }
            v
        }
        _ => {
            let mut v = item_value(&format!("table:{}", COLLS[ci].name), vi, r, n, d);
            v["name"] = json!(pick_name(r));
            v["handle"] = json!(if r.chance(1, 3) { r.below(200) } else { 0 });
            if ci == 3 {
                v["line_type_name"] = json!(pick_name(r));
            }
            v
        }
    }
}
enum Held {
    Poly(Polyline),
    Ins(Insert),
}
fn child_views(d: &Drawing, m: &mut Mon) {
    // the children seen through the public iterators
    for e in d.entities() {
        match &e.specific {
            EntityType::Polyline(p) => {
                let j = jv(p);
                let want: Vec<Value> = j["__vertices_and_handles"].as_array().unwrap().iter().map(|x| x[0].clone()).collect();
                if p.vertices().map(|v| jv(v)).collect::<Vec<_>>() != want {
                    m.fail("C24", "vertices", "vertices() of a polyline does not yield them in order");
                }
            }
            EntityType::Insert(p) => {
                let j = jv(p);
                let want: Vec<Value> = j["__attributes_and_handles"].as_array().unwrap().iter().map(|x| x[0].clone()).collect();
                if p.attributes().map(|v| jv(v)).collect::<Vec<_>>() != want {
                    m.fail("C24", "attributes", "attributes() of an insert does not yield them in order");
                }
            }
            _ => (),
        }
    }
}
fn history(c: &mut Case, prop: &'static str, steps: usize) {
    let mut r = c.rng.clone();
    let v = VERSIONS[R13 + r.below(VERSIONS.len() - R13)];
    let vi = vidx(v);
    let mut d = if lab::is_large() || r.chance(1, 4) {
        lab_drawing(&mut r)
    } else {
        Drawing::new()
    };
    d.header.version = v;
    if r.chance(1, 5) {
        d.clear();
    }
    let mut m = Mon { fails: vec![], used: BTreeSet::new(), trace: vec![] };
    let mut held: Vec<Held> = vec![];
    let mut j = jv(&d);
    m.handles("start", &j.clone(), &j);
    let mut other = Drawing::new();
    for step in 0..steps {
        let before = j;
        let w = r.below(100);
        let op;
        if w < 38 {
            let ci = match r.below(10) { 0..=3 => ENTS, 4..=5 => OBJS, 6 => BLOCKS, _ => r.below(9) };
            let item = any_item(ci, vi, &mut r);
            op = format!("add:{}", COLLS[ci].name);
            let ret = (COLLS[ci].add)(&mut d, &item);
            j = jv(&d);
            m.added(&op, ci, &item, &ret, &before, &j);
        } else if w < 44 {
            // the same item again: a clone, or one taken out of the drawing
            let ci = *r.pick(&[ENTS, ENTS, OBJS, BLOCKS, 3]);
            let l = arr(&before, COLLS[ci].key);
            op = format!("add-copy:{}", COLLS[ci].name);
            if l.is_empty() {
                j = before;
                continue;
            }
            let item = r.pick(l).clone();
            let ret = (COLLS[ci].add)(&mut d, &item);
            j = jv(&d);
            m.added(&op, ci, &item, &ret, &before, &j);
        } else if w < 54 {
            // children of entities that are not part of the drawing yet
            let foreign = r.chance(1, 5);
            op = "children".to_string();
            let mut h = if held.is_empty() || r.chance(1, 2) {
                if r.chance(1, 2) { Held::Poly(Polyline::default()) } else { Held::Ins(Insert::default()) }
            } else {
                held.swap_remove(r.below(held.len()))
            };
            let dd = if foreign { &mut other } else { &mut d };
            for _ in 0..1 + r.below(3) {
                match &mut h {
                    Held::Poly(p) => {
                        let n = p.vertices().count();
                        p.add_vertex(dd, Vertex::new(dxf::Point::new(step as f64, n as f64, 0.0)));
                        if p.vertices().count() != n + 1 || p.vertices().last().map(|v| v.location.y) != Some(n as f64) {
                            m.fail("C24", "add_vertex", "add_vertex does not append the vertex");
                        }
                    }
                    Held::Ins(p) => {
                        let n = p.attributes().count();
                        p.add_attribute(dd, Attribute { value: format!("{}", n), ..Default::default() });
                        if p.attributes().count() != n + 1 || p.attributes().last().map(|v| v.value.clone()) != Some(format!("{}", n)) {
                            m.fail("C24", "add_attribute", "add_attribute does not append the attribute");
                        }
                    }
                }
            }
            let grown: Vec<Value> = match &mut h {
                Held::Poly(p) => p.vertices_mut().map(|v| jv(v)).collect(),
                Held::Ins(p) => p.attributes_mut().map(|v| jv(v)).collect(),
            };
            let plain: Vec<Value> = match &h {
                Held::Poly(p) => p.vertices().map(|v| jv(v)).collect(),
                Held::Ins(p) => p.attributes().map(|v| jv(v)).collect(),
            };
            if grown != plain {
                m.fail("C24", "children-mut", "mutable iteration over children differs from reading iteration");
            }
            held.push(h);
            j = jv(&d);
            m.untouched(&op, &before, &j, &[]);
            m.header_same(&op, &before, &j);
        } else if w < 60 {
            if held.is_empty() {
                j = before;
                continue;
            }
            let i = r.below(held.len());
            let e = match (&held[i], r.chance(1, 4)) {
                (Held::Poly(p), true) => Entity::new(EntityType::Polyline(p.clone())),
                (Held::Ins(p), true) => Entity::new(EntityType::Insert(p.clone())),
                _ => match held.swap_remove(i) { Held::Poly(p) => Entity::new(EntityType::Polyline(p)), Held::Ins(p) => Entity::new(EntityType::Insert(p)) },
            };
            let item = jv(&e);
            if r.chance(1, 5) {
                op = "add-built:Block".to_string();
                let b = Block { name: pick_name(&mut r), entities: vec![e], ..Default::default() };
                let item = jv(&b);
                let ret = jv(d.add_block(b));
                j = jv(&d);
                m.added(&op, BLOCKS, &item, &ret, &before, &j);
            } else {
                op = "add-built:Entity".to_string();
                let ret = jv(d.add_entity(e));
                j = jv(&d);
                m.added(&op, ENTS, &item, &ret, &before, &j);
            }
        } else if w < 76 {
            let ci = match r.below(6) { 0..=1 => ENTS, 2 => OBJS, 3 => BLOCKS, _ => r.below(9) };
            let l = arr(&before, COLLS[ci].key).clone();
            let i = match r.below(6) { 0 => l.len(), 1 => *r.pick(&[l.len() + 1, usize::MAX, 1 << 40]), 2 => 0, 3 => l.len().saturating_sub(1), _ => r.below(l.len().max(1)) };
            op = format!("remove:{}", COLLS[ci].name);
            let got = (COLLS[ci].remove)(&mut d, i);
            j = jv(&d);
            let mut want = l.clone();
            let exp = if i < l.len() { Some(want.remove(i)) } else { None };
            if got != exp {
                m.fail("C24", format!("{}:returned", op), format!("{} of index {} of {} returned {}", op, i, l.len(), if got.is_some() { "another item" } else { "nothing" }));
            }
            if arr(&j, COLLS[ci].key) != &want {
                m.fail("C24", format!("{}:rest", op), format!("{} of index {} of {} left {} items, or others than the rest in order", op, i, l.len(), arr(&j, COLLS[ci].key).len()));
            }
            m.untouched(&op, &before, &j, &[ci]);
            m.header_same(&op, &before, &j);
        } else if w < 84 {
            // change one item through mutable iteration
            let ci = match r.below(6) { 0..=1 => ENTS, 2 => OBJS, 3 => BLOCKS, _ => r.below(9) };
            let l = arr(&before, COLLS[ci].key).clone();
            op = format!("mutate:{}", COLLS[ci].name);
            let i = r.below(l.len() + 1);
            let mut item = any_item(ci, vi, &mut r);
            if i < l.len() {
                if ci == ENTS || ci == OBJS {
                    item["common"]["handle"] = l[i]["common"]["handle"].clone();
                    if ci == ENTS && ["Insert", "Polyline"].contains(&kind_of(&item).as_str()) {
                        item["specific"] = json!({"Circle": jv(&Circle::default())});
                    }
                } else {
                    item["handle"] = l[i]["handle"].clone();
                    if ci == BLOCKS {
                        item["entities"] = l[i]["entities"].clone();
                    }
                }
            }
            let done = (COLLS[ci].replace)(&mut d, i, &item);
            j = jv(&d);
            let mut want = l.clone();
            if i < l.len() {
                want[i] = item;
            }
            if done != (i < l.len()) || arr(&j, COLLS[ci].key) != &want {
                m.fail("C24", op.clone(), format!("changing item {} of {} through mutable iteration changed others or none", i, l.len()));
            }
            m.untouched(&op, &before, &j, &[ci]);
            m.header_same(&op, &before, &j);
        } else if w < 87 {
            op = "clear".to_string();
            if step % 2 == 0 {
                d.thumbnail = Some(image::DynamicImage::new_rgb8(2, 2));
                d.classes.push(Default::default());
            }
            d.clear();
            j = jv(&d);
            for c in COLLS {
                if !arr(&j, c.key).is_empty() {
                    m.fail("C24", format!("clear:{}", c.key), format!("{} still has items after clear", c.key));
                }
            }
            if !arr(&j, "classes").is_empty() || d.thumbnail.is_some() {
                m.fail("C24", "clear:rest", "classes or thumbnail are left after clear");
            }
            let (mut a, mut b) = (before["header"].clone(), j["header"].clone());
            a["next_available_handle"] = json!(0);
            b["next_available_handle"] = json!(0);
            if a != b {
                m.fail("C24", "clear:header", "clear changed the header");
            }
            m.used.clear();
        } else if w < 93 {
            op = "normalize".to_string();
            let mut before = before.clone();
            if r.chance(1, 3) {
                for _ in 0..1 + r.below(3) {
                    match r.below(10) {
                        0 => d.header.default_text_height = *r.pick(&[0.0, -1.0, 0.2, 3.0]),
                        1 => d.header.trace_width = *r.pick(&[0.0, -1.0, 0.05, 3.0]),
                        2 => d.header.current_layer = pick_name(&mut r),
                        3 => d.header.ucs_name = pick_name(&mut r),
                        4 => d.header.ucs_definition_name = pick_name(&mut r),
                        5 => d.header.ortho_ucs_reference = pick_name(&mut r),
                        6 => d.header.paperspace_ucs_name = pick_name(&mut r),
                        7 => d.header.paperspace_ucs_definition_name = pick_name(&mut r),
                        8 => d.header.paperspace_ortho_ucs_reference = pick_name(&mut r),
                        _ => { d.header.file_name = pick_name(&mut r); d.header.text_style = pick_name(&mut r); d.header.dimension_style_name = pick_name(&mut r); d.header.current_entity_line_type = pick_name(&mut r); }
                    }
                }
                before = jv(&d);
            }
            d.normalize();
            j = jv(&d);
            check_normalize(&mut m, &before, &j);
            let mut e = d.clone();
            e.normalize();
            if jv(&e) != j {
                m.fail("C12", "normalize:again", "normalizing a second time changed the drawing");
            }
        } else if w < 96 {
            op = "class".to_string();
            d.classes.push(serde_json::from_value(item_value("class", vi, &mut r, 1, 2)).expect("harness: class"));
            j = jv(&d);
        } else if w < 98 {
            op = "clone".to_string();
            d = d.clone();
            j = jv(&d);
            if j != before {
                m.fail("C24", "clone", "a clone of a drawing differs from it");
            }
        } else {
            op = "reload".to_string();
            let fmt = lab::any_fmt(&mut r);
            let e = save(&d, fmt).and_then(|b| load(&b));
            match e {
                Ok(e) => {
                    d = e;
                    d.header.version = v;
                    j = jv(&d);
                    let was: BTreeSet<u64> = all_handles(&before).into_iter().map(|x| x.1).collect();
                    // handles of what was in the drawing stay with it
                    for (ci, cl) in COLLS.iter().enumerate() {
                        let (x, y) = (arr(&before, cl.key), arr(&j, cl.key));
                        if x.len() == y.len() && (ci != OBJS && ci != ENTS || x.iter().map(kind_of).eq(y.iter().map(kind_of))) && ci != BLOCKS {
                            for (p, q) in x.iter().zip(y) {
                                if own_handles(ci, p) != own_handles(ci, q) {
                                    m.fail("C10", format!("reload:{}", cl.name), format!("handles {:X?} of an item became {:X?} by saving and loading", own_handles(ci, p), own_handles(ci, q)));
                                    break;
                                }
                            }
                        }
                    }
                    let _ = was;
                    if r.chance(1, 2) {
                        held.clear();
                    }
                }
                Err(e) => {
                    c.inconclusive.push(format!("reload: {}", e));
                    break;
                }
            }
        }
        m.trace.push(op.clone());
        c.count(&format!("op {}", op), 1);
        m.handles(&op, &before, &j);
        if step % 4 == 0 || step + 1 == steps {
            m.views(&mut d, &j);
            child_views(&d, &mut m);
        }
        c.eval(format!("{}{}", op, crate::rng::fnv(j.to_string().as_bytes())));
        if m.fails.iter().any(|f| f.0 == prop) {
            break;
        }
    }
    c.count("handles seen", m.used.len() as u64);
    for (p, s, t) in m.fails {
        if p == prop {
            c.attach("history.txt", m.trace.join("\n").as_bytes());
            c.fail(s, t);
        }
    }
}
fn lab_drawing(r: &mut Rng) -> Drawing { lab::any_drawing(r) }

// ---------------------------------------------------------------- C10: handles in files
pub fn own_handle_pairs(ps: &[Pair]) -> Vec<usize> {
    let pos = crate::c_text::positions(ps);
    let mut o = vec![];
    let mut done = usize::MAX;
    for (i, p) in ps.iter().enumerate() {
        let q = &pos[i];
        if !["TABLES", "BLOCKS", "ENTITIES", "OBJECTS"].contains(&q.sec.as_str()) || q.start || q.ext > 0 || q.xdata || q.rec_at == done || ["TABLE", "ENDBLK", "ENDSEC", "ENDTAB"].contains(&q.rec.as_str()) {
            continue;
        }
        if p.code == 5 {
            done = q.rec_at;
            o.push(i);
        }
    }
    o
}
fn files_case(c: &mut Case) {
    let mut r = c.rng.clone();
    let v = if r.chance(1, 5) { *r.pick(&[dxf::enums::AcadVersion::R10, dxf::enums::AcadVersion::R12]) } else { VERSIONS[R13 + r.below(VERSIONS.len() - R13)] };
    let mix = Mix { entities: 2 + r.below(8), objects: r.below(5), tables: r.below(6), blocks: r.below(3), classes: 0, header: false, num: r.below(2) as u32, den: 5 };
    let mut d = drawing(v, &mut r, mix);
    d.header.handles_enabled = true;
    let fmt = lab::any_fmt(&mut r);
    let f = lab::file_of(&d, fmt);
    let d0 = match load(&f.bytes) { Ok(d) => d, Err(e) => { c.inconclusive.push(format!("load: {}", e)); return; } };
    let mut ps = f.pairs.clone();
    let own = own_handle_pairs(&ps);
    let mut map: BTreeMap<u64, Option<u64>> = BTreeMap::new();
    let mut taken: BTreeSet<u64> = BTreeSet::new();
    let drop = *r.pick(&[0u32, 0, 1, 5, 10]);
    let style = r.below(4);
    let mut gone = vec![];
    for (n, &i) in own.iter().enumerate() {
        let old = u64::from_str_radix(ps[i].str().trim(), 16).unwrap_or(0);
        if old == 0 {
            continue;
        }
        if r.chance(drop, 10) {
            map.insert(old, None);
            gone.push(i);
            continue;
        }
        let new = loop {
            let h = match style {
                0 => old,
                1 => 1 + r.below(own.len() * 2) as u64,
                2 => (own.len() - n) as u64,
                _ => 1 + (r.next() >> (1 + r.below(62))),
            };
            if taken.insert(h) {
                break h;
            }
            if style == 0 || style == 2 {
                break 0;
            }
        };
        if new == 0 {
            map.insert(old, None);
            gone.push(i);
            continue;
        }
        map.insert(old, Some(new));
        let code = ps[i].code;
        ps[i] = Pair::s(code, &if r.chance(1, 2) { format!("{:X}", new) } else { format!("{:x}", new) });
    }
    for i in gone.into_iter().rev() {
        ps.remove(i);
    }
    let seed = r.below(5);
    if let Some(i) = ps.iter().position(|p| p.is(9, "$HANDSEED")) {
        match seed {
            0 => (),
            1 => { ps.remove(i + 1); ps.remove(i); }
            2 => ps[i + 1] = Pair::s(5, "1"),
            3 => ps[i + 1] = Pair::s(5, "0"),
            _ => ps[i + 1] = Pair::s(5, &format!("{:X}", 1 + (r.next() >> (1 + r.below(60))))),
        }
    }
    let b = lab::render(&ps, fmt, v);
    c.eval(&b);
    c.count("records with a handle", taken.len() as u64);
    c.count("records without one", map.values().filter(|x| x.is_none()).count() as u64);
    let mut d1 = match load(&b) {
        Ok(d) => d,
        Err(e) => { c.attach("file.dxf", &b); c.fail("files:load", format!("a file with other handles does not load: {}", e)); return; }
    };
    let (h0, h1) = (all_handles(&jv(&d0)), all_handles(&jv(&d1)));
    let mut bad: Option<(String, String)> = None;
    if h0.len() != h1.len() {
        bad = Some(("files:count".into(), format!("{} handles became {}", h0.len(), h1.len())));
    } else {
        let mut seen = BTreeSet::new();
        for ((p, a), (_, b)) in h0.iter().zip(&h1) {
            let what = p.split('/').next().unwrap_or("").to_string();
            match map.get(a) {
                Some(Some(n)) if n != b => bad = Some((format!("files:kept:{}", what), format!("{} has handle {:X} in the file and {:X} when loaded", p, n, b))),
                Some(Some(_)) => (),
                _ if *b == 0 => bad = Some((format!("files:zero:{}", what), format!("{} has no handle in the file and handle 0 when loaded", p))),
                _ if taken.contains(b) => bad = Some((format!("files:clash:{}", what), format!("{} has no handle in the file and got {:X}, which the file uses", p, b))),
                _ => (),
            }
            if !seen.insert(*b) {
                bad = Some((format!("files:duplicate:{}", what), format!("{} shares handle {:X}", p, b)));
            }
        }
        if bad.is_none() {
            let mut m = Mon { fails: vec![], used: seen, trace: vec![] };
            let mut j = jv(&d1);
            for _ in 0..4 {
                let ci = r.below(12);
                let item = any_item(ci, R13 + 3, &mut r);
                (COLLS[ci].add)(&mut d1, &item);
                let k = jv(&d1);
                m.handles(&format!("add-loaded:{}", COLLS[ci].name), &j, &k);
                j = k;
            }
            if let Some(x) = m.fails.pop() {
                bad = Some((x.1, x.2));
            }
        }
    }
    if let Some((s, t)) = bad {
        c.attach("file.dxf", &b);
        c.fail(s, t);
    }
}
/// hand-made DXB files and drawings saved as such
fn dxb_case(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut d = Drawing::new();
    if r.chance(1, 2) {
        d.clear();
    }
    for _ in 0..r.below(8) {
        let (e, _) = c_dxb::shape(&mut r);
        d.add_entity(e);
    }
    if r.chance(1, 3) {
        let es: Vec<Entity> = (0..1 + r.below(4)).map(|_| c_dxb::shape(&mut r).0).collect();
        d.clear();
        d.add_block(Block { name: "B".into(), entities: es, ..Default::default() });
    }
    let mut b = vec![];
    if d.save_dxb(&mut b).is_err() {
        c.inconclusive.push("save_dxb".into());
        return;
    }
    c.eval(&b);
    let mut l = match load(&b) { Ok(l) => l, Err(e) => { c.inconclusive.push(e); return; } };
    let j = jv(&l);
    let mut m = Mon { fails: vec![], used: BTreeSet::new(), trace: vec![] };
    m.handles("load-dxb", &j, &j);
    let item = any_item(ENTS, 15, &mut r);
    let ret = (COLLS[ENTS].add)(&mut l, &item);
    let k = jv(&l);
    m.handles("add-to-dxb", &j, &k);
    let _ = ret;
    for x in m.fails {
        c.attach("file.dxb", &b);
        c.fail(x.1, x.2);
    }
}
/// one collection, filled and worked on for long, against a plain list
fn lists_case(c: &mut Case, prop: &'static str) {
    let mut r = c.rng.clone();
    let ci = c.idx as usize % COLLS.len();
    let coll = &COLLS[ci];
    let mut d = Drawing::new();
    d.header.version = *r.pick(&VERSIONS[R13..]);
    if r.chance(1, 3) { d.normalize(); }
    let n = *r.pick(&[3, 9, 17, 20, 33, 40, 65, 70, 101, 130, 257, 300]);
    let item = |i: usize, r: &mut Rng| -> Value {
        match ci {
            ENTS => { let mut e = jv(&Entity::new(EntityType::Line(Line::new(dxf::Point::new(i as f64, 1.0, 2.0), dxf::Point::origin())))); e["common"]["layer"] = json!("0"); e }
            OBJS => jv(&Object::new(ObjectType::PlaceHolder(Default::default()))),
            _ => { let mut v = (coll.default)(); v["name"] = json!(if r.chance(1, 8) { "SAME".to_string() } else { format!("N{}", i) }); v }
        }
    };
    let mut fails: Vec<(String, String)> = vec![];
    let h = |v: &Value| own_handles(ci, v).first().copied().unwrap_or(0);
    let mut used: BTreeSet<u64> = all_handles(&jv(&d)).into_iter().map(|x| x.1).collect();
    let mut model = (coll.list)(&d);
    let mut others = jv(&d);
    let mut k = 0;
    let steps = n + 20 + r.below(n + 20);
    for step in 0..steps {
        let len = model.len();
        let grow = step < n || r.chance(1, 4);
        if grow {
            let v = item(k, &mut r);
            k += 1;
            let ret = (coll.add)(&mut d, &v);
            if h(&ret) == 0 || used.contains(&h(&ret)) {
                if prop == "C10" { fails.push((format!("lists:{}:handle", coll.name), format!("item {} got the handle {:X}, which is not new", k, h(&ret)))); }
            }
            used.extend(own_handles(ci, &ret));
            model.push(ret);
        } else if r.chance(1, 6) && len > 0 {
            let i = r.below(len);
            let mut v = item(1000 + k, &mut r);
            // the handle stays
            match ci { ENTS | OBJS => v["common"]["handle"] = json!(h(&model[i])), _ => v["handle"] = json!(h(&model[i])) }
            if !(coll.replace)(&mut d, i, &v) { fails.push((format!("lists:{}:mut", coll.name), format!("no mutable item at {} of {}", i, len))); }
            model[i] = (coll.list)(&d).get(i).cloned().unwrap_or(Value::Null);
            if blank(ci, &model[i]) != blank(ci, &v) { fails.push((format!("lists:{}:mut", coll.name), format!("the item put at {} of {} is not there", i, len))); }
        } else {
            let i = match r.below(8) { 0 => len, 1 => len + 1 + r.below(500), 2 => 0, 3 => len.saturating_sub(1), _ => r.below(len + 1) };
            let got = (coll.remove)(&mut d, i);
            let want = if i < len { Some(model.remove(i)) } else { None };
            if got != want { fails.push((format!("lists:{}:removed", coll.name), format!("removing {} of {} returned {:?} instead of {:?}", i, len, got.map(|x| h(&x)), want.map(|x| h(&x))))); }
        }
        if step >= n || step % 16 == 0 {
            for (what, l) in [("list", (coll.list)(&d)), ("list_mut", (coll.list_mut)(&mut d))] {
                c.count("lists_compared", 1);
                if l != model {
                    let at = l.iter().zip(&model).position(|(a, b)| a != b).unwrap_or(l.len().min(model.len()));
                    fails.push((format!("lists:{}:{}", coll.name, what), format!("after step {} on {} items: {} items instead of {}, different from {}", step, len, l.len(), model.len(), at)));
                    model = l;
                }
            }
        }
        if step + 1 == n { others = jv(&d); }
        if fails.len() > 3 { break; }
    }
    // what the items don't need has not been touched
    let after = jv(&d);
    if steps > n && prop == "C24" {
        for (i, x) in COLLS.iter().enumerate() {
            let (a, b) = (arr(&others, x.key).len(), arr(&after, x.key).len());
            if i != ci && !(ci == BLOCKS && i == 1) && a != b {
                fails.push((format!("lists:{}:{}", coll.name, x.name), format!("{} had {} items and has {}", x.key, a, b)));
            }
        }
    }
    if prop == "C10" {
        let mut seen = BTreeSet::new();
        for (w, x) in all_handles(&after) {
            if !seen.insert(x) || x == 0 { fails.push((format!("lists:{}:twice", coll.name), format!("{} has the handle {:X}, which is zero or taken", w, x))); break; }
        }
    } else {
        fails.retain(|x| !x.0.ends_with(":handle"));
    }
    c.eval(format!("{} {} {} {:x}", coll.name, n, steps, r.next()));
    c.max("items_in_a_list", n as u64);
    for (s, t) in fails { c.fail(s, t); }
}
pub fn c10(t: bool) -> Check {
    let m = if t { 15 } else { 1 };
    Check {
        id: "C10",
        level: "exploration",
        rule: "one evaluation = one operation of a history, or one loaded file; distinct by operation and resulting drawing, or by content",
        families: vec![family("history", 900 * m, |c| history(c, "C10", 25)), family("large", 40 * m, |c| lab::large(|| history(c, "C10", 12))), family("lists", 240 * m, |c| lists_case(c, "C10")), family("files", 2500 * m, files_case), family("dxb", 3000 * m, dxb_case)],
        cpu_limit: 60,
        assumptions: vec!["the user does not assign handles or the header's next handle directly".into(), "an end-of-sequence marker that is not written (insert without attributes) is not an item".into(), "handles stay below 2^63".into()],
    }
}
pub fn c24(t: bool) -> Check {
    let m = if t { 20 } else { 1 };
    Check {
        id: "C24",
        level: "exploration",
        rule: "one evaluation = one operation of a history on a drawing; distinct by operation and resulting drawing",
        families: vec![family("history", 2000 * m, |c| history(c, "C24", 25)), family("large", 40 * m, |c| lab::large(|| history(c, "C24", 12))), family("lists", 480 * m, |c| lists_case(c, "C24"))],
        cpu_limit: 60,
        assumptions: vec!["the user does not assign handles directly".into()],
    }
}

// ---------------------------------------------------------------- C12: files with missing records
fn load_case(c: &mut Case) {
    let mut r = c.rng.clone();
    let v = *r.pick(VERSIONS);
    let vi = vidx(v);
    let mut d = new_drawing(v);
    d.header.handles_enabled = true;
    for _ in 0..r.below(4) {
        let ci = r.below(9);
        let mut it = any_item(ci, vi, &mut r);
        // names of their own, so that the file has every name once
        let n = pick_name(&mut r);
        it["name"] = json!(n);
        if count_named(ci, &(COLLS[ci].list)(&d), &n) == 0 {
            (COLLS[ci].add)(&mut d, &it);
        }
    }
    for _ in 0..1 + r.below(6) {
        let ci = *r.pick(&[ENTS, ENTS, ENTS, OBJS, BLOCKS]);
        let it = any_item(ci, vi, &mut r);
        if ci == ENTS && ["Vertex", "Seqend"].contains(&kind_of(&it).as_str()) {
            continue;
        }
        (COLLS[ci].add)(&mut d, &it);
    }
    let fmt = lab::any_fmt(&mut r);
    let f = lab::file_of(&d, fmt);
    let full = match load(&f.bytes) { Ok(d) => d, Err(e) => { c.inconclusive.push(format!("load: {}", e)); return; } };
    // drop table records
    let pos = crate::c_text::positions(&f.pairs);
    let share = *r.pick(&[0u32, 2, 5, 8, 10]);
    let mut ps = vec![];
    let mut cur = (usize::MAX, false);
    let mut dropped: BTreeSet<(String, String)> = BTreeSet::new();
    for (i, p) in f.pairs.iter().enumerate() {
        let q = &pos[i];
        let entry = q.sec == "TABLES" && !["SECTION", "TABLE", "ENDTAB", "ENDSEC"].contains(&q.rec.as_str()) || q.sec == "OBJECTS" && q.rec == "MLINESTYLE";
        if entry {
            if cur.0 != q.rec_at {
                cur = (q.rec_at, r.chance(share, 10));
                if cur.1 {
                    c.count("records dropped", 1);
                }
            }
            if cur.1 {
                if p.code == 2 {
                    dropped.insert((q.rec.clone(), p.str().to_string()));
                }
                continue;
            }
        }
        ps.push(p.clone());
    }
    if r.chance(1, 4) {
        ps = reorder_tables(&ps, &mut r);
        c.count("tables reordered", 1);
    }
    if r.chance(1, 6) {
        ps = reorder_sections(&ps, &mut r);
        c.count("sections reordered", 1);
    }
    let b = lab::render(&ps, fmt, v);
    c.eval(&b);
    let part = match load(&b) {
        Ok(d) => d,
        Err(e) => { c.attach("file.dxf", &b); c.fail("load:error", e); return; }
    };
    let (a, b2) = (jv(&full), jv(&part));
    let mut bad = vec![];
    // closure
    for (ci, cl) in COLLS.iter().enumerate() {
        for x in arr(&b2, cl.key) {
            let (mut q, _) = needs(ci, x);
            if ci == ENTS && tab_absent(x, vi) {
                q.clear();
            }
            for (i, n) in q {
                let k = count_named(i, arr(&b2, COLLS[i].key), &n);
                if k == 0 {
                    bad.push((format!("load:missing:{}:{}", cl.name, COLLS[i].key), format!("a loaded {} refers to {:?}, which {} does not have", if ci >= ENTS { kind_of(x) } else { cl.name.into() }, n, COLLS[i].key)));
                } else if k > 1 && count_named(i, arr(&a, COLLS[i].key), &n) <= 1 {
                    bad.push((format!("load:twice:{}", COLLS[i].key), format!("{:?} is {} times in {} after loading a file that has it at most once", n, k, COLLS[i].key)));
                }
            }
        }
    }
    // what the file has is kept as it is
    for (ci, cl) in COLLS[..9].iter().enumerate() {
        let (x, y) = (arr(&a, cl.key), arr(&b2, cl.key));
        for p in x {
            let n = st(&p["name"]);
            let twin = count_named(ci, x, &n) > 1;
            if twin || !n.bytes().all(|b| (32..127).contains(&b) && b != b'^') || dropped.iter().any(|d| d.1 == n) {
                continue;
            }
            match y.iter().find(|q| q["name"] == p["name"]) {
                Some(q) => {
                    let mut o = vec![];
                    diff("", &blank(ci, p), &blank(ci, q), true, &mut o);
                    if o.is_empty() {
                        continue;
                    }
                    bad.push((format!("load:changed:{}", cl.key), format!("{:?} of {} differs at {:?} when other records are missing", n, cl.key, o)));
                }
                None => {
                    // only there for what refers to it
                    if ps.iter().any(|z| z.is(2, &n)) && tab_has(cl.name, vi) && in_file(&ps, cl.name, &n) {
                        bad.push((format!("load:lost:{}", cl.key), format!("{:?} of {} is lost when other records are missing", n, cl.key)));
                    }
                }
            }
        }
        for q in y {
            let n = st(&q["name"]);
            if dropped.iter().any(|d| d.1 == n && d.0 == record_name(cl.name)) && count_named(ci, x, &n) == 1 && blank(ci, q) != created(ci, &n) {
                bad.push((format!("load:content:{}", cl.key), format!("{:?} was made on loading with other than default content", n)));
            }
        }
    }
    if let Some((s, t)) = bad.into_iter().next() {
        c.attach("file.dxf", &b);
        c.fail(s, t);
    }
}
fn record_name(n: &str) -> &'static str {
    match n { "AppId" => "APPID", "BlockRecord" => "BLOCK_RECORD", "DimStyle" => "DIMSTYLE", "Layer" => "LAYER", "LineType" => "LTYPE", "Style" => "STYLE", "Ucs" => "UCS", "View" => "VIEW", "ViewPort" => "VPORT", _ => "?" }
}
fn in_file(ps: &[Pair], name: &str, n: &str) -> bool {
    let pos = crate::c_text::positions(ps);
    ps.iter().enumerate().any(|(i, p)| p.is(2, n) && pos[i].sec == "TABLES" && pos[i].rec == record_name(name))
}
fn tab_has(name: &str, vi: usize) -> bool { crate::tab::tab()[&format!("table:{}", name)].present[vi] != 'a' }
fn tab_absent(x: &Value, vi: usize) -> bool { crate::tab::tab().get(&format!("entity:{}", kind_of(x))).map(|t| t.present[vi] == 'a').unwrap_or(true) }
/// the same file with its tables in another order
fn reorder_tables(ps: &[Pair], r: &mut Rng) -> Vec<Pair> {
    let pos = crate::c_text::positions(ps);
    let start = match ps.iter().enumerate().position(|(i, p)| p.is(0, "TABLE") && pos[i].sec == "TABLES") { Some(i) => i, None => return ps.to_vec() };
    let end = (start..ps.len()).find(|&i| ps[i].is(0, "ENDSEC")).unwrap_or(ps.len());
    let mut tabs: Vec<Vec<Pair>> = vec![];
    for p in &ps[start..end] {
        if p.is(0, "TABLE") {
            tabs.push(vec![]);
        }
        tabs.last_mut().unwrap().push(p.clone());
    }
    for i in (1..tabs.len()).rev() {
        tabs.swap(i, r.below(i + 1));
    }
    let mut o = ps[..start].to_vec();
    o.extend(tabs.into_iter().flatten());
    o.extend(ps[end..].iter().cloned());
    o
}
/// the same file with the sections after the header in another order
fn reorder_sections(ps: &[Pair], r: &mut Rng) -> Vec<Pair> {
    let pos = crate::c_text::positions(ps);
    let mut secs: Vec<Vec<Pair>> = vec![];
    let mut tail = vec![];
    for (i, p) in ps.iter().enumerate() {
        if pos[i].start {
            secs.push(vec![]);
        }
        if p.is(0, "EOF") && pos[i].sec.is_empty() {
            tail.push(p.clone());
            continue;
        }
        match secs.last_mut() {
            Some(s) => s.push(p.clone()),
            None => return ps.to_vec(),
        }
    }
    for i in (2..secs.len()).rev() {
        secs.swap(i, 1 + r.below(i));
    }
    let mut o: Vec<Pair> = secs.into_iter().flatten().collect();
    o.extend(tail);
    o
}
fn dxb_closure(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut d = Drawing::new();
    for _ in 0..1 + r.below(8) {
        let (e, _) = c_dxb::shape(&mut r);
        d.add_entity(e);
    }
    if r.chance(1, 3) {
        let es: Vec<Entity> = (0..1 + r.below(4)).map(|_| c_dxb::shape(&mut r).0).collect();
        d.clear();
        d.add_block(Block { name: "B".into(), entities: es, ..Default::default() });
    }
    let mut b = vec![];
    if d.save_dxb(&mut b).is_err() {
        return;
    }
    c.eval(&b);
    let l = match load(&b) { Ok(l) => l, Err(e) => { c.inconclusive.push(e); return; } };
    let j = jv(&l);
    for (ci, cl) in COLLS.iter().enumerate() {
        for x in arr(&j, cl.key) {
            for (i, n) in needs(ci, x).0 {
                let k = count_named(i, arr(&j, COLLS[i].key), &n);
                if k != 1 {
                    c.attach("file.dxb", &b);
                    c.fail(format!("dxb:{}:{}", if k == 0 { "missing" } else { "twice" }, COLLS[i].key), format!("{:?} is {} times in {} after loading a DXB file", n, k, COLLS[i].key));
                    return;
                }
            }
        }
    }
}
/// items that name what nearly is there, and items with long lists of names
fn names_case(c: &mut Case) {
    let mut r = c.rng.clone();
    let base = match r.below(3) { 0 => r.pick(&["Wall", "aB", "STANDARD", "0", "layer 1", "\u{c9}t\u{e9}", "BYLAYER", "Continuous"]).to_string(), 1 => ident(&mut r), _ => "Ab".to_string() };
    let mut d = Drawing::new();
    d.header.version = *r.pick(&VERSIONS[R13..]);
    let vi = vidx(d.header.version);
    if r.chance(1, 3) { d.clear(); }
    let mut m = Mon { fails: vec![], used: BTreeSet::new(), trace: vec![] };
    NEAR.with(|b| *b.borrow_mut() = Some(base.clone()));
    let mut j = jv(&d);
    for _ in 0..14 {
        let before = j;
        let (ci, item) = match r.below(10) {
            0..=2 => {
                let ci = *r.pick(&[1, 2, 3, 4, 5, 7]);
                let mut v = (COLLS[ci].default)();
                v["name"] = json!(pick_name(&mut r));
                (ci, v)
            }
            3..=6 => {
                let k = *r.pick(&["Line", "Text", "MText", "MLine", "MLine", "Leader", "Tolerance", "RotatedDimension", "OrdinateDimension", "RadialDimension", "DiameterDimension", "AngularThreePointDimension", "ArcAlignedText", "Attribute", "AttributeDefinition", "Insert"]);
                let mut v = entity_json(k, vi, &mut r, 0, 4);
                rename_entity(&mut v, &mut r);
                (ENTS, v)
            }
            7 => (BLOCKS, any_item(BLOCKS, vi, &mut r)),
            8 => {
                let mut v = object_json("MLineStyle", vi, &mut r, 0, 4);
                v["specific"]["MLineStyle"]["style_name"] = json!(pick_name(&mut r));
                (OBJS, v)
            }
            _ => {
                let k = *r.pick(&["LayerFilter", "LayerIndex", "PlotSettings"]);
                let mut v = object_json(k, vi, &mut r, 0, 4);
                if k == "PlotSettings" {
                    v["specific"][k]["plot_view_name"] = json!(pick_name(&mut r));
                } else {
                    let n = *r.pick(&[1, 3, 9, 17, 33, 65, 130, 257]);
                    v["specific"][k]["layer_names"] = Value::Array((0..n).map(|i| json!(if r.chance(1, 4) { pick_name(&mut r) } else { format!("{}{}", base, i) })).collect());
                }
                (OBJS, v)
            }
        };
        let op = format!("add:{}", COLLS[ci].name);
        let ret = (COLLS[ci].add)(&mut d, &item);
        j = jv(&d);
        m.added(&op, ci, &item, &ret, &before, &j);
        c.count("additions with near names", 1);
        c.eval(format!("{}{}", op, crate::rng::fnv(j.to_string().as_bytes())));
        if m.fails.iter().any(|f| f.0 == "C12") {
            break;
        }
    }
    NEAR.with(|b| *b.borrow_mut() = None);
    for (p, s, t) in m.fails {
        if p == "C12" {
            c.fail(format!("names:{}", s), t);
        }
    }
}
pub fn c12(t: bool) -> Check {
    let m = if t { 15 } else { 1 };
    Check {
        id: "C12",
        level: "exploration",
        rule: "one evaluation = one operation of a history, or one loaded file with records missing; distinct by operation and resulting drawing, or by content",
        families: vec![family("history", 1200 * m, |c| history(c, "C12", 25)), family("large", 40 * m, |c| lab::large(|| history(c, "C12", 12))), family("names", 1200 * m, names_case), family("load", 2500 * m, load_case), family("dxb", 3000 * m, dxb_closure)],
        cpu_limit: 60,
        assumptions: vec!["entities inside blocks need their layer and line type; what else they name may be added".into(), "a multiline style may also bring a line type and text style of its name".into()],
    }
}
