//! The committed representability reference (ref/fields.tsv): which field of which item is stored
//! in which version, and under which format limit.  It is format data, generated once from a
//! reviewed survey (`vharness gen-fields`) and never rewritten by a check.
use crate::rt::*;
use crate::rng::Rng;
use crate::schema::*;
use crate::types::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub struct RLeaf {
    pub leaf: Leaf,
    pub st: Vec<char>,
}
pub struct RItem {
    pub item: Item,
    pub default: Value,
    /// presence per version: 'o' or 'a'
    pub present: Vec<char>,
    pub leaves: Vec<RLeaf>,
}
/// does the value respect the format limit of class `c`?
pub fn within(c: char, v: &Value) -> bool {
    fn nums(v: &Value, f: &dyn Fn(&serde_json::Number) -> bool) -> bool {
        match v {
            Value::Number(n) => f(n),
            Value::Array(a) => a.iter().all(|x| nums(x, f)),
            Value::Object(m) => m.values().all(|x| nums(x, f)),
            _ => true,
        }
    }
    fn keyzero(v: &Value, key: &str) -> bool {
        match v {
            Value::Array(a) => a.iter().all(|x| keyzero(x, key)),
            Value::Object(m) => m.iter().all(|(k, x)| if k == key { x.as_f64() == Some(0.0) } else { keyzero(x, key) }),
            _ => true,
        }
    }
    let rng = |lo: f64, hi: f64| nums(v, &|n| n.as_f64().map(|x| x >= lo && x <= hi).unwrap_or(false));
    let integral = || nums(v, &|n| n.as_f64().map(|x| x.fract() == 0.0).unwrap_or(false));
    match c {
        'o' => true,
        's' => rng(-32768.0, 32767.0),
        'i' => rng(-2147483648.0, 2147483647.0),
        'n' => rng(0.0, 32767.0),
        'p' => rng(1.0, 1e300),
        'z' => keyzero(v, "z"),
        'd' => keyzero(v, "id"),
        't' => integral() && rng(-32768.0, 32767.0),
        'u' => integral() && rng(-2147483648.0, 2147483647.0),
        'x' => rng(0.0, 1e9),
        'b' => rng(0.0, 255.0),
        'e' => v != &json!("DisplayedNotPlotted"),
        _ => false,
    }
}
/// the nearest value within the format limit of class `c`
pub fn fit(c: char, v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(|x| fit(c, x)).collect()),
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), if (c == 'z' && k == "z") || (c == 'd' && k == "id") { if x.is_f64() { json!(0.0) } else { json!(0) } } else { fit(c, x) })).collect()),
        Value::Number(n) => {
            let (lo, hi) = match c {
                's' | 't' => (-32768.0, 32767.0),
                'i' | 'u' => (-2147483648.0, 2147483647.0),
                'n' => (0.0, 32767.0),
                'x' => (0.0, 1e9),
                'b' => (0.0, 255.0),
                _ => return v.clone(),
            };
            let mut f = n.as_f64().unwrap_or(0.0).max(lo).min(hi);
            if n.is_f64() {
                if c == 't' || c == 'u' {
                    f = f.trunc();
                }
                json!(f)
            } else {
                json!(f as i64)
            }
        }
        Value::String(s) if c == 'e' && s == "DisplayedNotPlotted" => json!("DisplayedAndPlotted"),
        _ => v.clone(),
    }
}
pub const CLASSES: &[char] = &['o', 's', 'i', 'n', 'z', 'd', 't', 'u', 'x', 'e', 'b'];
pub fn stored(c: char) -> bool {
    CLASSES.contains(&c)
}

static TAB: OnceLock<BTreeMap<String, RItem>> = OnceLock::new();
pub fn tab() -> &'static BTreeMap<String, RItem> {
    TAB.get_or_init(|| {
        let text = include_str!("../../ref/fields.tsv");
        let mut rows: BTreeMap<String, BTreeMap<String, Vec<char>>> = BTreeMap::new();
        for l in text.lines() {
            if l.starts_with('#') || l.is_empty() {
                continue;
            }
            let f: Vec<&str> = l.split('\t').collect();
            rows.entry(f[0].into()).or_default().insert(f[1].into(), f[2].chars().collect());
        }
        let items = Item::all();
        let mut out = BTreeMap::new();
        // discovery is independent per item: spread it over threads
        let found: Vec<(Item, Schema)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8).map(|t| { let items = &items; s.spawn(move || items.iter().enumerate().filter(|(i, _)| i % 8 == t).map(|(_, i)| (i.clone(), discover(i))).collect::<Vec<_>>()) }).collect();
            hs.into_iter().flat_map(|h| h.join().expect("harness: discovery")).collect()
        });
        for (item, s) in found {
            let name = item.name();
            let r = match rows.get(&name) {
                Some(r) => r,
                None => continue,
            };
            let present = r.get("").cloned().unwrap_or_else(|| vec!['o'; VERSIONS.len()]);
            // fields that the tree under test no longer has are simply not driven (private ones may change)
            let leaves = s.leaves.into_iter().filter_map(|l| r.get(&l.ptr).map(|st| RLeaf { st: st.clone(), leaf: l })).collect();
            out.insert(name, RItem { item, default: s.default, present, leaves });
        }
        out
    })
}

fn special(item: &str, ptr: &str) -> bool {
    matches!((item, ptr), ("block", "/entities") | ("entity:Insert", "/__attributes_and_handles") | ("entity:Polyline", "/__vertices_and_handles"))
}
/// survey the tree and print the reference table; surprising things go to stderr
pub fn generate() {
    println!("# item\tfield\tstatus per version: {}", VERSIONS.iter().map(|v| vname(*v)).collect::<Vec<_>>().join(" "));
    println!("# o stored; s,i,n,p,z,d,t,u,x,e stored within a format limit (tab.rs); - not stored; a item absent; ? not compared");
    let items = Item::all();
    let outs: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8).map(|t| { let items = &items; s.spawn(move || items.iter().enumerate().filter(|(i, _)| i % 8 == t).map(|(k, i)| (k, survey(i))).collect::<Vec<_>>()) }).collect();
        let mut v: Vec<(usize, String)> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
        v.sort();
        v.into_iter().map(|x| x.1).collect()
    });
    print!("{}", outs.concat());
}
/// the default value with the flags on that make conditional fields be stored
pub fn base(i: &Item, default: &Value) -> Value {
    let mut b = default.clone();
    if let Item::Table(_) | Item::Block = i {
        b["name"] = json!("SUBJECT");
    }
    if let Item::Table("View") = i {
        b["is_associated_ucs_present"] = json!(true);
    }
    if let Item::Table("ViewPort") = i {
        b["has_own_ucs"] = json!(true);
    }
    b
}
fn survey(i: &Item) -> String {
    let s = discover(i);
    let name = i.name();
    let mut out = String::new();
    let base = base(i, &s.default);
    let trip = |v: dxf::enums::AcadVersion, b: &Value| -> Result<(Value, Value), String> {
        let r = crate::fw::guard(|| -> Result<(Value, Value), String> {
            let mut d = new_drawing(v);
            add_subject(&mut d, i, b)?;
            let o = subjects(&d, i).last().unwrap().clone();
            let d2 = load(&save(&d, Fmt::Ascii)?)?;
            let mut back = subjects(&d2, i);
            if let Item::Table(_) | Item::Block = i { back.retain(|z| z["name"] == b["name"]); }
            if back.is_empty() { return Err("absent".into()); }
            if back.len() > 1 { return Err(format!("count{}", back.len())); }
            Ok((o, back[0].clone()))
        });
        match r { Ok(x) => x, Err(p) => Err(format!("PANIC {}", p)) }
    };
    let mut rows: Vec<(String, Vec<char>)> = vec![("".into(), vec![])];
    for l in &s.leaves { rows.push((l.ptr.clone(), vec![])); }
    let mut rng = Rng::new(1);
    let pools: Vec<Vec<Value>> = s.leaves.iter().map(|l| { let mut p = pool(&l.kind, &l.ptr, &mut rng); if let Kind::Array(_) = l.kind { for q in p.clone() { for c in ['z', 'd', 't'] { p.push(fit(c, &q)); } } } p }).collect();
    for v in VERSIONS {
        let b0 = trip(*v, &base);
        let present = !matches!(&b0, Err(e) if e == "absent");
        rows[0].1.push(if present { 'o' } else { 'a' });
        for (li, l) in s.leaves.iter().enumerate() {
            let st = if !present { 'a' } else if special(&name, &l.ptr) { 'o' } else if name == "object:DataTable" && (l.ptr.ends_with("_count") || l.ptr == "/column_names") { 'o' } else if pools[li].is_empty() { '?' } else {
                let mut res: Vec<(Value, bool, Value)> = vec![];
                let mut errs = 0;
                for x in &pools[li] {
                    let mut b = base.clone();
                    *b.pointer_mut(&l.ptr).unwrap() = x.clone();
                    match trip(*v, &b) {
                        Ok((o, k)) => {
                            let mut df = vec![];
                            let nul = Value::Null; let (p, q) = (o.pointer(&l.ptr).unwrap_or(&nul), k.pointer(&l.ptr).unwrap_or(&nul));
                            diff("", p, q, false, &mut df);
                            res.push((p.clone(), df.is_empty(), q.clone()));
                        }
                        Err(e) => { errs += 1; if !e.contains("absent") { eprintln!("{} {} {} {} {}", name, l.ptr, vname(*v), x, e); } }
                    }
                }
                let mut st = '?';
                if errs == 0 {
                    // not stored: comes back as one fixed value, whatever it was
                    let distinct: std::collections::BTreeSet<String> = res.iter().map(|r| r.0.to_string()).collect();
                    let back: std::collections::BTreeSet<String> = res.iter().map(|r| r.2.to_string()).collect();
                    if distinct.len() == 1 { st = if res.iter().all(|r| r.1) { 'o' } else { '-' }; } else if back.len() == 1 || res.iter().all(|r| !r.1) { st = '-'; } else {
                        for c in CLASSES {
                            let sel: Vec<_> = res.iter().filter(|r| within(*c, &r.0)).collect();
                            let dist: std::collections::BTreeSet<String> = sel.iter().map(|r| r.0.to_string()).collect();
                            if dist.len() > 1 && sel.iter().all(|r| r.1) { st = *c; break; }
                        }
                    }
                }
                if st == '?' { eprintln!("? {} {} {} errs {} {:?}", name, l.ptr, vname(*v), errs, res.iter().filter(|r| !r.1).map(|r| format!("{}->{}", r.0, r.2)).take(3).collect::<Vec<_>>()); }
                st
            };
            rows[li + 1].1.push(st);
        }
    }
    for (p, st) in rows {
        out.push_str(&format!("{}\t{}\t{}\n", name, p, st.iter().collect::<String>()));
    }
    out
}
