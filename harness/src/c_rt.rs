//! C03-C06 round trips and C16 version gating: field by field, and jointly in random drawings.
use crate::fw::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::schema::*;
use crate::tab::*;
use crate::types::*;
use dxf::Drawing;
use serde_json::{json, Value};

/// (item, leaf index) of every field of the selected items
pub fn fields(sel: impl Fn(&Item) -> bool) -> Vec<(&'static str, usize)> {
    let mut v = vec![];
    for (n, it) in tab() {
        if sel(&it.item) {
            for i in 0..it.leaves.len() {
                v.push((n.as_str(), i));
            }
        }
    }
    v
}
/// the subject of a single-item drawing after a round trip
pub fn trip(item: &Item, v: usize, b: &Value, fmt: Fmt) -> Result<(Value, Option<Value>, Drawing, Vec<u8>), String> {
    let mut d = new_drawing(VERSIONS[v]);
    add_subject(&mut d, item, b).map_err(|e| format!("harness: {}", e))?;
    let o = subjects(&d, item).last().cloned().ok_or("harness: subject")?;
    let bytes = save(&d, fmt).map_err(|e| format!("save failed: {}", e))?;
    let d2 = load(&bytes).map_err(|e| format!("load of own output failed: {}", e))?;
    let mut back = subjects(&d2, item);
    if let Item::Table(_) | Item::Block = item {
        back.retain(|z| z["name"] == b["name"]);
    }
    if back.len() > 1 {
        return Err(format!("{} items came back instead of one", back.len()));
    }
    Ok((o, back.pop(), d2, bytes))
}
fn field_case(c: &mut Case, name: &str, li: usize, values: usize) {
    let it = &tab()[name];
    let l = &it.leaves[li];
    let ptr = l.leaf.ptr.clone();
    let special = SPECIAL.contains(&(name, ptr.as_str()));
    let mut pl = pool(&l.leaf.kind, &ptr, &mut c.rng.clone());
    for v in 0..VERSIONS.len() {
        let st = l.st[v];
        if !stored(st) || it.present[v] == 'a' || special || (name == "object:DataTable" && ptr != "/handle") {
            continue;
        }
        for k in 0..values {
            let x = if k == 0 && !pl.is_empty() { pl.rotate_left(1); pl[0].clone() } else { value(&l.leaf.kind, &ptr, &mut c.rng) };
            let x = fit(st, &x);
            if x.is_null() || !within(st, &x) {
                continue;
            }
            let mut b = base(&it.item, &it.default);
            *b.pointer_mut(&ptr).unwrap() = x.clone();
            if ptr == "/name" && matches!(it.item, Item::Table(_)) && ["", "0"].contains(&x.as_str().unwrap_or("")) {
                continue; // the name of a default item
            }
            let fmt = if (k + v) % 2 == 0 { Fmt::Ascii } else { Fmt::Binary };
            let key = format!("{}{} {} {:?} {}", name, ptr, v, fmt, x);
            match trip(&it.item, v, &b, fmt) {
                Err(e) if e.starts_with("harness:") => c.inconclusive.push(format!("{} {}", key, e)),
                Err(e) => c.fail(format!("{}{}:error", name, ptr), format!("{}: {}", key, e)),
                Ok((o, back, _, bytes)) => {
                    c.eval(&key);
                    match back {
                        None => {
                            c.attach("saved.dxf", &bytes);
                            c.fail(format!("{}:presence", name), format!("{}: the item did not come back", key))
                        }
                        Some(q) => {
                            let mut cmp = Cmp::new(fmt == Fmt::Binary);
                            cmp.item(name, v, &o, &q);
                            c.count("fields_compared", cmp.leaves);
                            if !cmp.diffs.is_empty() {
                                c.attach("saved.dxf", &bytes);
                            }
                            for d in cmp.diffs {
                                c.fail(d.sig, format!("{} (setting {}): {}", d.detail, key, ""));
                            }
                        }
                    }
                    if c.sample.is_none() {
                        c.sample = Some(json!({"set": key}));
                    }
                }
            }
        }
    }
}
/// round trip of a whole random drawing
fn joint_case(c: &mut Case, m: Mix) {
    let v = *c.rng.pick(VERSIONS);
    let d = drawing(v, &mut c.rng, m);
    let fmt = if c.rng.chance(1, 2) { Fmt::Ascii } else { Fmt::Binary };
    compare_trip(c, &d, fmt);
}
pub fn compare_trip(c: &mut Case, d: &Drawing, fmt: Fmt) {
    let v = d.header.version;
    let bytes = match save(d, fmt) {
        Ok(b) => b,
        Err(e) => {
            c.fail("save:error", format!("{} {:?}: {}", vname(v), fmt, e));
            return;
        }
    };
    c.eval(&bytes);
    let d2 = match load(&bytes) {
        Ok(x) => x,
        Err(e) => {
            c.attach("saved.dxf", &bytes);
            c.fail("load:error", format!("{} {:?}: own output is rejected: {}", vname(v), fmt, e));
            return;
        }
    };
    let mut cmp = Cmp::new(fmt == Fmt::Binary);
    cmp.drawings(d, &d2);
    c.count("fields_compared", cmp.leaves);
    c.count("items", (d.entities().count() + d.objects().count() + d.blocks().count()) as u64);
    if c.idx == 0 {
        c.sample = Some(json!({"format": format!("{:?}", fmt), "drawing": describe(d), "bytes": bytes.len()}));
    }
    if !cmp.diffs.is_empty() {
        c.attach("saved.dxf", &bytes);
    }
    for x in cmp.diffs {
        c.fail(x.sig, format!("{} ({:?})", x.detail, fmt));
    }
}
/// one item kind, default and dense random values, in every version and both formats
fn kind_case(c: &mut Case, name: &str) {
    for v in 0..VERSIONS.len() {
        for (n, den) in [(0, 1), (1, 4), (9, 10)] {
            let mut m = Mix { entities: 0, objects: 0, tables: 0, blocks: 0, classes: 0, header: false, num: n, den };
            let ver = VERSIONS[v];
            let r = &mut c.rng;
            let mut d = drawing(ver, r, m);
            m.num = n;
            let it = &tab()[name].item;
            let times = 1 + r.below(2);
            for _ in 0..times {
                match it {
                    Item::Entity(k) => {
                        let e = entity_json(k, v, r, n, den);
                        d.add_entity(to_entity(&e));
                    }
                    Item::Object(k) => {
                        let e = object_json(k, v, r, n, den);
                        d.add_object(to_object(&e));
                    }
                    Item::Table(_) => {
                        let mut x = item_value(name, v, r, n, den);
                        x["name"] = json!(ident(r));
                        add_subject(&mut d, it, &x).expect("harness: table");
                    }
                    Item::Block => {
                        let k = r.below(3);
                        let x = block_json(v, r, k, n, den);
                        add_subject(&mut d, it, &x).expect("harness: block");
                    }
                    _ => {
                        let x = item_value(name, v, r, n, den);
                        let seed = d.header.next_available_handle;
                        add_subject(&mut d, it, &x).expect("harness: item");
                        d.header.next_available_handle = seed;
                    }
                }
            }
            // something after it must still be read
            d.add_entity(dxf::entities::Entity::new(dxf::entities::EntityType::Circle(dxf::entities::Circle::new(dxf::Point::new(1.0, 2.0, 3.0), 4.5))));
            for f in [Fmt::Ascii, Fmt::Binary] {
                compare_trip(c, &d, f);
            }
        }
    }
}
/// fields that the library is known to lose; listed one by one in known_findings.txt
pub const LOST: &[(&str, &str)] = &[
    ("object:RenderEnvironment", "/is_background_fog_enabled"),
    ("object:RenderGlobal", "/image_width"),
    ("object:RapidRTRenderEnvironment", "/is_map_as_background"),
    ("object:RapidRenderSettings", "/display_index"),
    ("object:MentalRayRenderSettings", "/photons_per_light"),
    ("object:NavisWorksModelDefinition", "/is_host_geometry_drawn"),
    ("object:Material", "/specular_gloss_factor"),
    ("object:Material", "/map_v_tile"),
    ("object:VbaProject", "/data"),
    ("entity:ProxyEntity", "/entity_data_string"),
    ("entity:MLine", "/vertices"),
    ("entity:MLine", "/segment_directions"),
    ("entity:MLine", "/miter_directions"),
    ("entity:DgnUnderlay", "/points"),
    ("entity:DwfUnderlay", "/points"),
    ("entity:PdfUnderlay", "/points"),
    ("entity:Wipeout", "/clipping_vertices"),
];
fn known_case(c: &mut Case, class: &str) {
    let v = vidx(dxf::enums::AcadVersion::R2018);
    for (cl, k, p) in CLASH.iter().filter(|x| x.0 == class) {
        let (name, cname) = (format!("{}:{}", cl, k), format!("{}:*", cl));
        let mut cm = tab()[&cname].default.clone();
        *cm.pointer_mut(p).unwrap() = match cm.pointer(p).unwrap() {
            Value::String(_) => json!("x"),
            Value::Array(_) => json!([[1, 2, 3]]),
            Value::Number(n) if n.is_f64() => json!(2.5),
            _ => json!(77),
        };
        let j = json!({"common": cm, "specific": { *k: tab()[&name].default }});
        let mut d = new_drawing(VERSIONS[v]);
        if class == "entity" { d.add_entity(to_entity(&j)); } else { d.add_object(to_object(&j)); }
        let d2 = match save(&d, Fmt::Ascii).and_then(|b| load(&b)) { Ok(x) => x, Err(e) => { c.fail("known:error", e); continue } };
        let get = |d: &Drawing| if class == "entity" { d.entities().next().map(|e| jv(&e.common)) } else { d.objects().next().map(|e| jv(&e.common)) }.and_then(|x| x.pointer(p).cloned());
        c.eval(format!("clash {} {}", name, p));
        if get(&d) != get(&d2) {
            c.fail(format!("clash:{}.common{}", name, p), format!("the common field {} of {} comes back as {:?} instead of {:?}", p, name, get(&d2), get(&d)));
        }
    }
    for (n, p) in LOST.iter().filter(|x| x.0.starts_with(class)) {
        let it = &tab()[*n];
        let mut b = it.default.clone();
        *b.pointer_mut(p).unwrap() = match b.pointer(p).unwrap() {
            Value::Bool(x) => json!(!x),
            Value::Array(_) if p.ends_with("string") => json!([[1, 2, 3]]),
            Value::Array(_) if *p == "/data" => json!([1, 2, 3]),
            Value::Array(_) => json!([{"x": 1.0, "y": 2.0, "z": 0.0}]),
            Value::Number(n) if n.is_f64() => json!(2.5),
            _ => json!(77),
        };
        c.eval(format!("lost {} {}", n, p));
        match trip(&it.item, v, &b, Fmt::Ascii) {
            Ok((o, Some(q), _, _)) => if o.pointer(p) != q.pointer(p) {
                c.fail(format!("lost:{}{}", n, p), format!("{:?} came back as {:?}", o.pointer(p), q.pointer(p)));
            },
            Ok(_) => c.fail(format!("{}:presence", n), "the item did not come back"),
            Err(e) => c.fail("known:error", e),
        }
    }
}
fn rt_check(id: &'static str, sel: fn(&Item) -> bool, mix: fn(&mut Rng) -> Mix, thorough: bool) -> Check {
    let fs = fields(sel);
    let names: Vec<&'static str> = tab().iter().filter(|(_, i)| sel(&i.item)).map(|x| x.0.as_str()).filter(|n| !n.ends_with("*") && !["entity:Seqend", "entity:Vertex", "entity:Attribute"].contains(n)).collect();
    let (nf, nn) = (fs.len() as u64, names.len() as u64);
    let reps = if thorough { 30 } else { 3 };
    let ls = crate::big::long_leaves(sel);
    let nl = ls.len() as u64;
    let crowds: &[&str] = match id {
        "C03" => &["vertices", "attributes", "entities", "one-kind"],
        "C04" => &["objects", "datatable"],
        "C05" => &["tables", "blocks", "block-entities", "classes"],
        _ => &[],
    };
    Check {
        id,
        level: "exploration",
        rule: "one evaluation = one drawing built through the public API, saved (ASCII or binary), loaded again and compared field by field with the saved one; distinct by the field, version, format and value set (field families) or by the saved bytes (random drawings)",
        families: vec![
            family("field", nf * reps, move |c| {
                let (n, i) = fs[(c.idx % nf) as usize];
                field_case(c, n, i, if n == "header" { 1 } else { 2 });
            }),
            family("kind", nn * reps * 2, move |c| kind_case(c, names[(c.idx % nn) as usize])),
            family("known", if id == "C03" || id == "C04" { 1 } else { 0 }, move |c| known_case(c, if id == "C03" { "entity" } else { "object" })),
            family("zone", if id == "C06" { crate::zone::ZONES.len() as u64 } else { 0 }, |c| crate::zone::case(c, false)),
            family("long", nl * if thorough { 8 } else { 2 }, move |c| {
                let (n, i) = ls[(c.idx % nl) as usize];
                crate::big::leaf_case(c, n, i);
            }),
            family("crowd", if crowds.is_empty() { 0 } else if thorough { 800 } else { 160 }, move |c| crate::big::crowd_case(c, crowds[c.idx as usize % crowds.len()])),
            family("joint", if thorough { 60000 } else { 6000 }, move |c| {
                let m = mix(&mut c.rng);
                joint_case(c, m);
            }),
        ],
        cpu_limit: 60,
        assumptions: vec!["which field a version of the format can store, and within which limits, is taken from the committed reference ref/fields.tsv".into()],
    }
}
pub fn c03(t: bool) -> Check {
    rt_check("C03", |i| matches!(i, Item::Entity(_) | Item::EntityCommon), |r| Mix { entities: 1 + r.below(14), objects: 0, tables: r.below(2), blocks: 0, classes: 0, header: r.chance(1, 8), num: 1 + r.below(5) as u32, den: 6 }, t)
}
pub fn c04(t: bool) -> Check {
    rt_check("C04", |i| matches!(i, Item::Object(_) | Item::ObjectCommon), |r| Mix { entities: 0, objects: 1 + r.below(10), tables: r.below(2), blocks: 0, classes: r.below(2), header: r.chance(1, 8), num: 1 + r.below(5) as u32, den: 6 }, t)
}
pub fn c05(t: bool) -> Check {
    rt_check("C05", |i| matches!(i, Item::Table(_) | Item::Block | Item::Class), |r| Mix { entities: r.below(2), objects: 0, tables: 1 + r.below(10), blocks: r.below(5), classes: r.below(4), header: r.chance(1, 8), num: 1 + r.below(5) as u32, den: 6 }, t)
}
pub fn c06(t: bool) -> Check {
    rt_check("C06", |i| matches!(i, Item::Header), |r| Mix { entities: 0, objects: 0, tables: 0, blocks: 0, classes: 0, header: true, num: 1 + r.below(5) as u32, den: 6 }, t)
}

// ---------------------------------------------------------------- C16
fn gate_case(c: &mut Case, name: &str, li: usize) {
    let it = &tab()[name];
    let l = &it.leaves[li];
    let ptr = l.leaf.ptr.clone();
    let seg = ptr.rsplit('/').next().unwrap_or("");
    if SPECIAL.contains(&(name, ptr.as_str())) || seg.starts_with("__") || name == "object:DataTable" {
        return;
    }
    let pl = pool(&l.leaf.kind, &ptr, &mut c.rng);
    let vals: Vec<&Value> = pl.iter().filter(|x| **x != l.leaf.default).collect();
    if vals.is_empty() {
        return;
    }
    for v in 0..VERSIONS.len() {
        let st = l.st[v];
        if st == '?' {
            continue;
        }
        let x = if stored(st) { let f: Vec<Value> = vals.iter().map(|x| fit(st, x)).filter(|x| within(st, x) && *x != l.leaf.default).collect(); if f.is_empty() { continue } ; c.rng.pick(&f).clone() } else { (*c.rng.pick(&vals)).clone() };
        let mut b = base(&it.item, &it.default);
        let was = b.pointer(&ptr).cloned();
        if was.as_ref() == Some(&x) {
            continue;
        }
        let plain = b.clone();
        *b.pointer_mut(&ptr).unwrap() = x.clone();
        let fmt = if v % 2 == 0 { Fmt::Ascii } else { Fmt::Binary };
        let key = format!("{}{} {} {:?} {}", name, ptr, vname(VERSIONS[v]), fmt, x);
        let (o, back, d2, _) = match trip(&it.item, v, &b, fmt) {
            Ok(x) => x,
            Err(e) if e.starts_with("harness:") => {
                c.inconclusive.push(e);
                continue;
            }
            Err(e) => {
                c.fail(format!("{}{}:error", name, ptr), format!("{}: {}", key, e));
                continue;
            }
        };
        c.eval(&key);
        let want = if VERSIONS[v] == dxf::enums::AcadVersion::R11 { dxf::enums::AcadVersion::R12 } else { VERSIONS[v] };
        if d2.header.version != want {
            c.fail("version", format!("saved as {:?}, loaded as {:?}", VERSIONS[v], d2.header.version));
        }
        let got = back.as_ref().map(|q| q.pointer(&ptr).cloned().unwrap_or(Value::Null));
        let orig = o.pointer(&ptr).cloned().unwrap_or(Value::Null);
        match (st, got) {
            ('a', Some(_)) => c.fail(format!("{}:gate", name), format!("{}: the item must not be written in this version", key)),
            ('a', None) => c.count("absent_items", 1),
            ('-', Some(_)) if name == "header" && (l.leaf.kind == Kind::Date || l.leaf.kind == Kind::Uuid) => {
                c.count("withheld_fields", 1); // the default of these is made anew each time
                if back.as_ref().and_then(|q| q.pointer(&ptr)) == Some(&x) {
                    c.fail(format!("{}{}:gate", name, ptr), format!("{}: this version must not carry the field", key));
                }
            }
            ('-', Some(g)) => {
                // whatever was set, the version does not carry it
                let p = match trip(&it.item, v, &plain, fmt) {
                    Ok((_, Some(q), _, _)) => q.pointer(&ptr).cloned().unwrap_or(Value::Null),
                    _ => continue,
                };
                let mut dd = vec![];
                diff("", &g, &p, false, &mut dd);
                c.count("withheld_fields", 1);
                if !dd.is_empty() && !l.st.iter().all(|s| *s == '-') {
                    c.fail(format!("{}{}:gate", name, ptr), format!("{}: this version must not carry the field, but {} came back", key, g));
                }
            }
            (_, None) => c.fail(format!("{}:presence", name), format!("{}: the item did not come back", key)),
            (_, Some(g)) => {
                let mut dd = vec![];
                diff("", &orig, &g, false, &mut dd);
                c.count("carried_fields", 1);
                if !dd.is_empty() {
                    c.fail(format!("{}{}:gate", name, ptr), format!("{}: this version must carry the field, but {} came back", key, g));
                }
            }
        }
    }
}
/// load in one version, save in another: what both carry survives
fn convert_case(c: &mut Case) {
    let (v, w) = (c.rng.below(VERSIONS.len()), c.rng.below(VERSIONS.len()));
    let lo = v.min(w);
    let mut m = Mix::any(&mut c.rng);
    m.header = false;
    let mut d = drawing(VERSIONS[v], &mut c.rng, m);
    let b1 = match save(&d, Fmt::Binary) { Ok(b) => b, Err(e) => return c.fail("save:error", e) };
    let mut d2 = match load(&b1) { Ok(b) => b, Err(e) => return c.fail("load:error", e) };
    d2.header.version = VERSIONS[w];
    let b2 = match save(&d2, Fmt::Binary) { Ok(b) => b, Err(e) => return c.fail("save:error", format!("{} as {}: {}", v, w, e)) };
    let d3 = match load(&b2) { Ok(b) => b, Err(e) => { c.attach("saved.dxf", &b2); return c.fail("load:error", format!("{} as {}: {}", v, w, e)) } };
    c.eval(&b2);
    let _ = lo;
    // what came back in v and is carried by w comes back again
    d = d2;
    let mut cmp = Cmp::new(true);
    cmp.drawings(&d, &d3);
    c.count("fields_compared", cmp.leaves);
    if !cmp.diffs.is_empty() {
        c.attach("saved.dxf", &b2);
    }
    for x in cmp.diffs {
        c.fail(format!("convert:{}", x.sig), format!("loaded from {}, saved as {}: {}", vname(VERSIONS[v]), vname(VERSIONS[w]), x.detail));
    }
}
pub fn c16(t: bool) -> Check {
    let fs = fields(|_| true);
    let nf = fs.len() as u64;
    Check {
        id: "C16",
        level: "exploration",
        rule: "one evaluation = one field set to a non-default value in one version, saved and loaded: carried exactly when the version's reference entry says so; plus random drawings loaded from one version and saved as another; distinct by field, version, format and value or by saved bytes",
        families: vec![
            family("field", nf * if t { 8 } else { 1 }, move |c| {
                let (n, i) = fs[(c.idx % nf) as usize];
                gate_case(c, n, i);
            }),
            family("convert", if t { 40000 } else { 4000 }, convert_case),
        ],
        cpu_limit: 60,
        assumptions: vec!["version support of items and fields is taken from the committed reference ref/fields.tsv".into()],
    }
}
