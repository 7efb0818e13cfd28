//! Building drawings around one subject item, and observing it again after a round trip.
use crate::schema::Item;
use crate::types::*;
use dxf::entities::*;
use dxf::enums::AcadVersion;
use dxf::objects::*;
use dxf::tables::*;
use dxf::Drawing;
use serde_json::{json, Value};

pub fn jv<T: serde::Serialize>(t: &T) -> Value {
    serde_json::to_value(t).expect("serialize")
}
pub fn new_drawing(v: AcadVersion) -> Drawing {
    let mut d = Drawing::new();
    d.header = serde_json::from_value(Item::Header.default_value()).unwrap();
    let seed = Drawing::new().header.next_available_handle;
    d.header.next_available_handle = seed;
    d.header.version = v;
    d
}
/// add the subject; returns its JSON as it now sits in the drawing
pub fn add_subject(d: &mut Drawing, item: &Item, v: &Value) -> Result<(), String> {
    let es = |e: serde_json::Error| e.to_string();
    match item {
        Item::Entity(n) => {
            let s: EntityType = serde_json::from_value(json!({ *n: v })).map_err(es)?;
            d.add_entity(Entity::new(s));
        }
        Item::EntityCommon => {
            let c: EntityCommon = serde_json::from_value(v.clone()).map_err(es)?;
            let mut e = Entity::new(entity_default("Line"));
            e.common = c;
            d.add_entity(e);
        }
        Item::Object(n) => {
            let s: ObjectType = serde_json::from_value(json!({ *n: v })).map_err(es)?;
            d.add_object(Object::new(s));
        }
        Item::ObjectCommon => {
            let c: ObjectCommon = serde_json::from_value(v.clone()).map_err(es)?;
            let mut o = Object::new(object_default("PlaceHolder"));
            o.common = c;
            d.add_object(o);
        }
        Item::Table(n) => {
            macro_rules! t {
                ($t:ty, $f:ident) => {{
                    let x: $t = serde_json::from_value(v.clone()).map_err(es)?;
                    d.$f(x);
                }};
            }
            match *n {
                "AppId" => t!(AppId, add_app_id),
                "BlockRecord" => t!(BlockRecord, add_block_record),
                "DimStyle" => t!(DimStyle, add_dim_style),
                "Layer" => t!(Layer, add_layer),
                "LineType" => t!(LineType, add_line_type),
                "Style" => t!(Style, add_style),
                "Ucs" => t!(Ucs, add_ucs),
                "View" => t!(View, add_view),
                "ViewPort" => t!(ViewPort, add_view_port),
                _ => unreachable!(),
            }
        }
        Item::Header => {
            let ver = d.header.version;
            d.header = serde_json::from_value(v.clone()).map_err(es)?;
            d.header.version = ver;
        }
        Item::Block => {
            let b: dxf::Block = serde_json::from_value(v.clone()).map_err(es)?;
            d.add_block(b);
        }
        Item::Class => d.classes.push(serde_json::from_value(v.clone()).map_err(es)?),
    }
    Ok(())
}
/// all items of the subject's kind in the drawing, in order
pub fn subjects(d: &Drawing, item: &Item) -> Vec<Value> {
    match item {
        Item::Entity(n) => d.entities().map(|e| { let v = jv(&e.specific); v.get(*n).cloned().unwrap_or(json!({"__other": v})) }).collect(),
        Item::EntityCommon => d.entities().map(|e| jv(&e.common)).collect(),
        Item::Object(n) => d.objects().filter_map(|e| jv(&e.specific).get(*n).cloned()).collect(),
        Item::ObjectCommon => d.objects().map(|e| jv(&e.common)).collect(),
        Item::Table(n) => match *n {
            "AppId" => d.app_ids().map(jv).collect(),
            "BlockRecord" => d.block_records().map(jv).collect(),
            "DimStyle" => d.dim_styles().map(jv).collect(),
            "Layer" => d.layers().map(jv).collect(),
            "LineType" => d.line_types().map(jv).collect(),
            "Style" => d.styles().map(jv).collect(),
            "Ucs" => d.ucss().map(jv).collect(),
            "View" => d.views().map(jv).collect(),
            "ViewPort" => d.view_ports().map(jv).collect(),
            _ => unreachable!(),
        },
        Item::Header => vec![jv(&d.header)],
        Item::Block => d.blocks().map(jv).collect(),
        Item::Class => d.classes.iter().map(jv).collect(),
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fmt {
    Ascii,
    Binary,
}
pub fn save(d: &Drawing, f: Fmt) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    match f {
        Fmt::Ascii => d.save(&mut out),
        Fmt::Binary => d.save_binary(&mut out),
    }
    .map_err(|e| e.to_string())?;
    Ok(out)
}
pub fn load(b: &[u8]) -> Result<Drawing, String> {
    let mut r = b;
    Drawing::load(&mut r).map_err(|e| e.to_string())
}
pub fn approx(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1.1e-12 + 1e-14 * a.abs().max(b.abs())
}
/// pointers at which a and b differ
pub fn diff(prefix: &str, a: &Value, b: &Value, exact: bool, out: &mut Vec<String>) {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for k in x.keys() {
                if k == "offset" && x.contains_key("code") {
                    continue;
                }
                match y.get(k) {
                    Some(w) => diff(&format!("{}/{}", prefix, k), &x[k], w, exact, out),
                    None => out.push(format!("{}/{}", prefix, k)),
                }
            }
            for k in y.keys() {
                if !x.contains_key(k) {
                    out.push(format!("{}/{}", prefix, k));
                }
            }
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                out.push(prefix.to_string());
            } else {
                for i in 0..x.len() {
                    diff(&format!("{}/{}", prefix, i), &x[i], &y[i], exact, out);
                }
            }
        }
        (Value::Number(x), Value::Number(y)) if x.is_f64() || y.is_f64() => {
            let (p, q) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            if !(if exact { p == q } else { approx(p, q) }) {
                out.push(prefix.to_string());
            }
        }
        (Value::String(x), Value::String(y)) => {
            if x != y {
                // dates: same instant is equal
                let p = chrono::DateTime::parse_from_rfc3339(x);
                let q = chrono::DateTime::parse_from_rfc3339(y);
                if let (Ok(p), Ok(q)) = (p, q) {
                    if p == q {
                        return;
                    }
                }
                out.push(prefix.to_string());
            }
        }
        _ => {
            if a != b {
                out.push(prefix.to_string());
            }
        }
    }
}
