//! C23: each field is stored under the group code and encoding of the DXF format.
//! ref/encoding.tsv holds, per field and value, the pairs the format assigns to it (generated once from the
//! reviewed tree with `vharness gen-encoding`, then corrected where the tree departs from the format).
use crate::fw::*;
use crate::gen::*;
use crate::lab::*;
use crate::mini::*;
use crate::rt::*;
use crate::schema::*;
use crate::tab::*;
use crate::types::*;
use serde_json::{json, Map, Value};
use dxf::enums::AcadVersion;
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub type Flat = Vec<(i32, String)>;

fn flat(p: &[Pair]) -> Flat {
    p.iter().map(|x| (x.code, x.text())).collect()
}
/// deterministic distinct values
fn fixed(k: &Kind, ptr: &str, n: &mut u32) -> Value {
    *n += 1;
    let i = *n;
    match k {
        Kind::Bool => json!(i % 2 == 0),
        Kind::F64 => json!(i as f64 + 0.25),
        Kind::Int(_, b) => json!((i as i128 + 2).min(*b) as u64),
        Kind::Str => json!(format!("v{}", i)),
        Kind::Char => json!(((b'a' + (i % 26) as u8) as char).to_string()),
        Kind::Enum(v) => json!(v[i as usize % v.len()]),
        Kind::Date => json!("2011-05-07T09:10:12Z"),
        Kind::Uuid => json!("a2a7a23e-975b-4b54-968c-150d4c32a9b6"),
        Kind::Array(e) => Value::Array((0..2).map(|_| fixed(e, ptr, n)).collect()),
        Kind::Fixed(ks) => Value::Array(ks.iter().map(|k| fixed(k, ptr, n)).collect()),
        Kind::Struct(fs) => {
            let mut m = Map::new();
            for (f, k) in fs { m.insert(f.clone(), fixed(k, f, n)); }
            Value::Object(m)
        }
        Kind::Opaque => Value::Null,
    }
}
fn samples(name: &str, l: &Leaf) -> Vec<Value> {
    let p = l.ptr.as_str();
    if p.ends_with("extension_data_groups") || p.ends_with("/x_data") || p == "/handle" || p == "/next_available_handle" || SPECIAL.contains(&(name, p)) { return vec![]; }
    if p.ends_with("value_handles") { return vec![json!({"K1": 5})]; }
    if p.ends_with("data_pairs") { return vec![json!([{"code": 40, "value": {"Double": 1.5}, "offset": 0}, {"code": 70, "value": {"Short": 3}, "offset": 0}])]; }
    let mut v = match &l.kind {
        Kind::Bool => vec![json!(true), json!(false)],
        Kind::Enum(v) => v.iter().map(|x| json!(x)).collect(),
        Kind::F64 => vec![json!(12.625), json!(-7.5)],
        Kind::Int(_, b) => vec![json!(5), json!((77i128).min(*b) as u64)],
        Kind::Str => vec![json!("VALUE")],
        k => vec![fixed(k, p, &mut 0), fixed(k, p, &mut 6)],
    };
    v.retain(|x| !x.is_null() && *x != l.default);
    v.dedup();
    v
}
/// the item as it is created, with the moment of creation fixed
fn fresh(it: &RItem) -> Value {
    let mut b = base(&it.item, &it.default);
    for l in &it.leaves {
        if let (Kind::Date, Item::Object(_) | Item::Entity(_)) = (&l.leaf.kind, &it.item) {
            if let Some(x) = b.pointer_mut(&l.leaf.ptr) { *x = json!("2010-01-02T03:04:05Z"); }
        }
    }
    b
}
fn subject_file(it: &RItem, v: usize, b: &Value, fmt: Fmt) -> Result<File, String> {
    let mut d = new_drawing(VERSIONS[v]);
    add_subject(&mut d, &it.item, b)?;
    guard(|| file_of(&d, fmt))
}
/// what changes between two lists of pairs (longest common subsequence)
pub fn region(a: &Flat, b: &Flat) -> (Flat, Flat) {
    let p = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let s = a[p..].iter().rev().zip(b[p..].iter().rev()).take_while(|(x, y)| x == y).count();
    let (a, b) = (&a[p..a.len() - s], &b[p..b.len() - s]);
    let mut t = vec![vec![0u16; b.len() + 1]; a.len() + 1];
    for i in (0..a.len()).rev() {
        for j in (0..b.len()).rev() {
            t[i][j] = if a[i] == b[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    let (mut i, mut j, mut x, mut y) = (0, 0, vec![], vec![]);
    while i < a.len() || j < b.len() {
        if i < a.len() && j < b.len() && a[i] == b[j] { i += 1; j += 1; }
        else if i < a.len() && (j == b.len() || t[i + 1][j] >= t[i][j + 1]) { x.push(a[i].clone()); i += 1; }
        else { y.push(b[j].clone()); j += 1; }
    }
    (x, y)
}
/// the part of a file in which the item stands; handles of records are masked
fn part(item: &Item, p: &[Pair]) -> std::ops::Range<usize> {
    let two = |k: &str, n: &str, e: &str| -> std::ops::Range<usize> {
        match (0..p.len().saturating_sub(1)).find(|&i| p[i].is(0, k) && p[i + 1].is(2, n)) {
            None => 0..0,
            Some(i) => i + 2..i + 2 + p[i + 2..].iter().position(|x| x.is(0, e)).unwrap_or(0),
        }
    };
    match item {
        Item::Entity(_) | Item::EntityCommon => two("SECTION", "ENTITIES", "ENDSEC"),
        Item::Object(_) | Item::ObjectCommon => two("SECTION", "OBJECTS", "ENDSEC"),
        Item::Header => two("SECTION", "HEADER", "ENDSEC"),
        Item::Block => two("SECTION", "BLOCKS", "ENDSEC"),
        Item::Class => two("SECTION", "CLASSES", "ENDSEC"),
        Item::Table(t) => two("TABLE", match *t { "AppId" => "APPID", "BlockRecord" => "BLOCK_RECORD", "DimStyle" => "DIMSTYLE", "Layer" => "LAYER", "LineType" => "LTYPE", "Style" => "STYLE", "Ucs" => "UCS", "View" => "VIEW", _ => "VPORT" }, "ENDTAB"),
    }
}
fn extract(item: &Item, p: &[Pair], all: bool) -> Flat {
    let mut o = flat(&p[part(item, p)]);
    for i in 0..o.len() {
        if let (Some(VT::F64), Ok(x)) = (vtype(o[i].0), o[i].1.parse::<f64>()) { o[i].1 = format!("{:?}", format!("{:.12}", x).parse::<f64>().unwrap()); }
        if o[i].0 == 5 || o[i].0 == 105 || (all && is_handle(o[i].0)) { o[i].1 = "#".into(); }
    }
    o
}
fn text_of(f: &Flat) -> String {
    f.iter().map(|(c, s)| format!("{}={}", c, serde_json::to_string(s).unwrap())).collect::<Vec<_>>().join(" ")
}
fn parse_flat(s: &str) -> Flat {
    let mut o = vec![];
    let mut rest = s;
    while let Some(i) = rest.find('=') {
        let code = rest[..i].trim().parse().expect("harness: reference code");
        let mut de = serde_json::Deserializer::from_str(&rest[i + 1..]).into_iter::<String>();
        let t = de.next().expect("harness: reference").expect("harness: reference text");
        let n = de.byte_offset();
        o.push((code, t));
        rest = &rest[i + 1 + n..];
    }
    o
}
fn is_handle(c: i32) -> bool {
    c == 5 || c == 105 || (320..=369).contains(&c) || (390..=399).contains(&c)
}
/// the record of the item as it is created: what it adds to an otherwise empty drawing; handles are masked
fn record(it: &RItem, v: usize) -> Result<Flat, String> {
    let b = fresh(it);
    let f = subject_file(it, v, &b, Fmt::Ascii)?;
    let e = file_of(&new_drawing(VERSIONS[v]), Fmt::Ascii);
    if let Item::Header = it.item { return Ok(extract(&it.item, &f.pairs, true)); }
    Ok(region(&extract(&it.item, &e.pairs, true), &extract(&it.item, &f.pairs, true)).1)
}
fn masks(vs: &[usize]) -> String {
    (0..VERSIONS.len()).map(|i| if vs.contains(&i) { 'x' } else { '-' }).collect()
}
pub fn generate() {
    println!("# item\tfield\tvalue\tversions ({})\tpairs replaced\tpairs written", VERSIONS.iter().map(|v| vname(*v)).collect::<Vec<_>>().join(" "));
    let items: Vec<(&String, &RItem)> = tab().iter().collect();
    let mut outs: Vec<(usize, String)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8).map(|t| { let items = &items; s.spawn(move || items.iter().enumerate().filter(|(i, _)| i % 8 == t).map(|(k, (n, i))| (k, survey(n, i))).collect::<Vec<_>>()) }).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    outs.sort();
    for o in outs { print!("{}", o.1); }
}
fn survey(name: &str, it: &RItem) -> String {
    let mut out = String::new();
    let mut recs: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for v in 0..VERSIONS.len() {
        match record(it, v) { Ok(r) => recs.entry(text_of(&r)).or_default().push(v), Err(e) => eprintln!("{} {} {}", name, v, e) }
    }
    for (t, vs) in recs { out.push_str(&format!("{}\t\t\t{}\t\t{}\n", name, masks(&vs), t)); }
    let bases: Vec<Result<File, String>> = (0..VERSIONS.len()).map(|v| subject_file(it, v, &fresh(it), Fmt::Ascii)).collect();
    for l in &it.leaves {
        for x in samples(name, &l.leaf) {
            let mut enc: BTreeMap<(String, String, String), Vec<usize>> = BTreeMap::new();
            for v in 0..VERSIONS.len() {
                let st = l.st[v];
                if !stored(st) || it.present[v] == 'a' { continue; }
                let y = fit(st, &x);
                if !within(st, &y) || y == l.leaf.default { continue; }
                let mut b = fresh(it);
                *b.pointer_mut(&l.leaf.ptr).unwrap() = y.clone();
                match (&bases[v], subject_file(it, v, &b, Fmt::Ascii)) {
                    (Ok(p), Ok(q)) => {
                        let (o, n) = region(&extract(&it.item, &p.pairs, false), &extract(&it.item, &q.pairs, false));
                        enc.entry((y.to_string(), text_of(&o), text_of(&n))).or_default().push(v);
                    }
                    (a, b) => eprintln!("{} {} {} {} {:?} {:?}", name, l.leaf.ptr, x, v, a.as_ref().err(), b.err()),
                }
            }
            enc.retain(|(_, o, n), _| !o.is_empty() || !n.is_empty());
            for ((y, o, n), vs) in enc { out.push_str(&format!("{}\t{}\t{}\t{}\t{}\t{}\n", name, l.leaf.ptr, y, masks(&vs), o, n)); }
        }
    }
    out
}
pub struct Enc {
    pub item: String,
    pub ptr: String,
    pub value: Value,
    pub versions: Vec<usize>,
    pub old: Flat,
    pub new: Flat,
}
static REF: OnceLock<Vec<Enc>> = OnceLock::new();
pub fn reference() -> &'static Vec<Enc> {
    REF.get_or_init(|| {
        include_str!("../../ref/encoding.tsv").lines().filter(|l| !l.starts_with('#') && !l.is_empty()).map(|l| {
            let f: Vec<&str> = l.split('\t').collect();
            Enc {
                item: f[0].into(),
                ptr: f[1].into(),
                value: if f[2].is_empty() { Value::Null } else { serde_json::from_str(f[2]).expect("harness: reference value") },
                versions: f[3].chars().enumerate().filter(|(_, c)| *c == 'x').map(|(i, _)| i).collect(),
                old: parse_flat(f[4]),
                new: parse_flat(f[5]),
            }
        }).collect()
    })
}
fn first_diff(want: &Flat, got: &Flat) -> Option<(usize, String)> {
    let n = want.len().max(got.len());
    let s = |x: Option<&(i32, String)>| x.map(|x| format!("{}={}", x.0, x.1)).unwrap_or("nothing".into());
    (0..n).find(|&i| want.get(i) != got.get(i)).map(|i| (i, format!("{} instead of {}", s(got.get(i)), s(want.get(i)))))
}
fn judge_record(c: &mut Case, e: &Enc, v: usize) {
    let it = &tab()[&e.item];
    match record(it, v) {
        Err(x) => c.fail(format!("record:{}:error", e.item), format!("{} {}: {}", e.item, vname(VERSIONS[v]), x)),
        Ok(r) => {
            c.eval(format!("{}{}", e.item, v));
            c.count("pairs_judged", r.len() as u64);
            let mut want = e.new.clone();
            let sorted = |f: &Flat| { let mut f = f.clone(); f.sort(); f };
            if want != r && sorted(&want) == sorted(&r) { c.count("order_differs", 1); return; }
            let mut at = 0;
            // report every difference of a code or value in place, stop at a difference in structure
            while let Some((i, s)) = first_diff(&want, &r) {
                if i < at { break; }
                c.fail(format!("record:{}:{}", e.item, s.replace(' ', "_")), format!("a new {} in {}: pair {} is {}", e.item, vname(VERSIONS[v]), i, s));
                if want.len() != r.len() { break; }
                want[i] = r[i].clone();
                at = i + 1;
            }
        }
    }
}
fn judge_field(c: &mut Case, e: &Enc, v: usize) {
    let it = &tab()[&e.item];
    if !it.leaves.iter().any(|l| l.leaf.ptr == e.ptr) { c.count("fields_gone", 1); return; }
    let mut b = fresh(it);
    let fmt = any_fmt(&mut c.rng);
    let p = match subject_file(it, v, &b, fmt) { Ok(p) => p, Err(x) => { c.fail(format!("{}:error", e.item), x); return; } };
    *b.pointer_mut(&e.ptr).unwrap() = e.value.clone();
    let q = match subject_file(it, v, &b, fmt) { Ok(q) => q, Err(x) => { c.fail(format!("{}{}:error", e.item, e.ptr), format!("{} {}", e.value, x)); return; } };
    let (o, n) = region(&extract(&it.item, &p.pairs, false), &extract(&it.item, &q.pairs, false));
    let at = format!("{}{} = {} in {} ({:?})", e.item, e.ptr, brief(&e.value), vname(VERSIONS[v]), fmt);
    c.eval(format!("{}{}{}{}", e.item, e.ptr, e.value, v));
    c.count("pairs_judged", n.len() as u64);
    if (&o, &n) != (&e.old, &e.new) {
        // the same pairs at other places of the record are as good
        let plus = |a: &Flat, b: &Flat| { let mut r = b.clone(); for x in a { if let Some(i) = r.iter().position(|y| y == x) { r.remove(i); } } r.sort(); r };
        if plus(&o, &n) == plus(&e.old, &e.new) && plus(&n, &o) == plus(&e.new, &e.old) { c.count("order_differs", 1); } else {
            c.attach("saved.dxf", &q.bytes);
            c.fail(format!("write:{}{}", e.item, e.ptr), format!("{}: {} becomes {}, the format has {} becoming {}", at, short(&o), short(&n), short(&e.old), short(&e.new)));
        }
    }
    // the reference pairs in place of what the tree writes for an item as it is created
    let pairs = if (&o, &n) == (&e.old, &e.new) { q.pairs.clone() } else {
        let r = part(&it.item, &p.pairs);
        let f = flat(&p.pairs);
        let hits: Vec<usize> = r.clone().filter(|&k| f[k..r.end].starts_with(&e.old)).collect();
        if e.old.is_empty() || hits.len() != 1 { return; }
        let mut x = p.pairs.clone();
        x.splice(hits[0]..hits[0] + e.old.len(), e.new.iter().map(|(k, t)| pair_of(*k, t)));
        x
    };
    let bytes = render(&pairs, fmt, VERSIONS[v]);
    match guard(|| load(&bytes)) {
        Ok(Ok(d)) => {
            let mut back = subjects(&d, &it.item);
            if let Item::Table(_) | Item::Block = it.item { back.retain(|z| z["name"] == b["name"]); }
            match back.last() {
                None => { c.attach("input.dxf", &bytes); c.fail(format!("read:{}:lost", e.item), format!("{}: not read", at)) }
                Some(z) => {
                    let mut ds = vec![];
                    let got = z.pointer(&e.ptr).unwrap_or(&Value::Null);
                    diff("", &e.value, got, false, &mut ds);
                    c.count("fields_read", 1);
                    if !ds.is_empty() { c.attach("input.dxf", &bytes); c.fail(format!("read:{}{}", e.item, e.ptr), format!("{}: {} is read as {}", at, short(&e.new), brief(got))) }
                }
            }
        }
        Ok(Err(x)) | Err(x) => { c.attach("input.dxf", &bytes); c.fail(format!("read:{}{}:error", e.item, e.ptr), format!("{}: {}", at, x)) }
    }
}
fn short(f: &Flat) -> String {
    let s = text_of(f);
    if s.is_empty() { "nothing".into() } else if s.chars().count() > 160 { format!("{}...", s.chars().take(160).collect::<String>()) } else { s }
}
pub fn pair_of(code: i32, t: &str) -> Pair {
    let val = match vtype(code) {
        Some(VT::F64) => t.parse().map(Val::F).unwrap_or(Val::S(t.into())),
        Some(VT::I16 | VT::I32 | VT::I64 | VT::Bool) => t.parse().map(Val::I).unwrap_or(Val::S(t.into())),
        Some(VT::Bin) => Val::B((0..t.len() / 2).filter_map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).ok()).collect()),
        _ => Val::S(t.into()),
    };
    Pair { code, val }
}
/// fields whose value stands in the file as it is: any other value does, too
fn identity_case(c: &mut Case) {
    let all: Vec<&Enc> = reference().iter().filter(|e| e.value.is_number() && !e.ptr.ends_with("handle") && e.new.len() == 1 && e.new[0].1.parse::<f64>().ok() == e.value.as_f64()).collect();
    let n = all.len();
    for k in 0..4 {
        let e = all[(c.idx as usize * 4 + k) % n];
        let it = &tab()[&e.item];
        let Some(l) = it.leaves.iter().find(|l| l.leaf.ptr == e.ptr) else { continue };
        let v = *c.rng.pick(&e.versions);
        let x = fit(l.st[v], &value(&l.leaf.kind, &e.ptr, &mut c.rng));
        if !within(l.st[v], &x) || x == l.leaf.default || x.as_f64().map(|f| f.abs() < 1e-6 || f.abs() > 1e15) != Some(false) { continue; }
        if let (Some(VT::I16), Some(f)) = (vtype(e.new[0].0), x.as_f64()) { if f.abs() > 32767.0 { continue; } }
        if let (Some(VT::I32), Some(f)) = (vtype(e.new[0].0), x.as_f64()) { if f.abs() > i32::MAX as f64 { continue; } }
        let mut b = fresh(it);
        let Ok(p) = subject_file(it, v, &b, Fmt::Ascii) else { continue };
        *b.pointer_mut(&e.ptr).unwrap() = x.clone();
        let Ok(q) = subject_file(it, v, &b, Fmt::Ascii) else { continue };
        let (_, mut n) = region(&extract(&it.item, &p.pairs, false), &extract(&it.item, &q.pairs, false));
        n.retain(|x| x.0 != 100);
        c.eval(format!("{}{}{}{}", e.item, e.ptr, x, v));
        c.count("identities", 1);
        let ok = n.len() == 1 && n[0].0 == e.new[0].0 && n[0].1.parse::<f64>().map(|f| approx(f, x.as_f64().unwrap())).unwrap_or(false);
        if !ok {
            c.attach("saved.dxf", &q.bytes);
            c.fail(format!("value:{}{}", e.item, e.ptr), format!("{}{} = {} in {}: written as {}, expected {} under code {}", e.item, e.ptr, x, vname(VERSIONS[v]), short(&n), x, e.new[0].0));
        }
    }
}
fn case(c: &mut Case) {
    let e = &reference()[c.idx as usize % reference().len()];
    if !tab().contains_key(&e.item) { c.count("items_gone", 1); return; }
    let mut vs = e.versions.clone();
    if !c.thorough && vs.len() > 2 && !e.ptr.is_empty() {
        let mid = vs[1 + c.rng.below(vs.len() - 2)];
        vs = vec![vs[0], mid, vs[vs.len() - 1]];
    }
    for v in vs {
        if e.ptr.is_empty() { judge_record(c, e, v) } else { judge_field(c, e, v) }
    }
}
// ---------------------------------------------------------------- reading
/// what reading makes of each group code in each kind of record (ref/reading.tsv, generated with
/// `vharness gen-reading` from the reviewed tree); also codes that the library itself never writes
pub fn read_items() -> Vec<(String, &'static RItem)> {
    tab().iter().filter(|(_, it)| !matches!(it.item, Item::Header | Item::EntityCommon | Item::ObjectCommon)).map(|(n, it)| (n.clone(), it)).collect()
}
fn whole(d: &dxf::Drawing, item: &Item) -> Vec<Value> {
    match item {
        Item::Entity(_) => d.entities().map(jv).collect(),
        Item::Object(_) => d.objects().map(jv).collect(),
        _ => subjects(d, item),
    }
}
/// a small file with the item as it is created, and the places at the beginning and end of its record
fn small(it: &RItem, v: usize) -> Option<(Vec<Pair>, Vec<usize>)> {
    let b = fresh(it);
    let f = subject_file(it, v, &b, Fmt::Ascii).ok()?;
    let r = part(&it.item, &f.pairs);
    let mut ps = vec![Pair::s(0, "SECTION"), Pair::s(2, "HEADER"), Pair::s(9, "$ACADVER"), Pair::s(1, &VERSIONS[v].to_string()), Pair::s(0, "ENDSEC"), Pair::s(0, "SECTION")];
    match &it.item {
        Item::Table(_) => ps.extend([Pair::s(2, "TABLES"), f.pairs[r.start - 2].clone(), f.pairs[r.start - 1].clone()]),
        _ => ps.push(f.pairs[r.start - 1].clone()),
    }
    let recs: Vec<usize> = r.clone().filter(|i| f.pairs[*i].code == 0).chain([r.end]).collect();
    let named = matches!(it.item, Item::Table(_) | Item::Block);
    let name = b["name"].as_str().unwrap_or("");
    let k = if named { (0..recs.len() - 1).find(|k| f.pairs[recs[*k]..recs[k + 1]].iter().any(|p| p.is(2, name)))? } else { 0 };
    let (s, e) = (*recs.get(k)?, *recs.get(k + 1)?);
    if e > r.end || s == e { return None; }
    let at = ps.len();
    ps.extend(f.pairs[s..e].iter().cloned());
    let end = ps.len();
    // what belongs to the record
    if !named || matches!(it.item, Item::Block) {
        for j in k + 1..recs.len() - 1 {
            if matches!(it.item, Item::Block) && f.pairs[recs[j]].is(0, "BLOCK") { break; }
            ps.extend(f.pairs[recs[j]..recs[j + 1]].iter().cloned());
        }
    }
    if let Item::Table(_) = it.item { ps.push(Pair::s(0, "ENDTAB")); }
    ps.extend([Pair::s(0, "ENDSEC"), Pair::s(0, "EOF")]);
    let mut first = at + 1;
    while first < end && (ps[first].code == 5 || ps[first].code == 105) { first += 1; }
    Some((ps, vec![end, first]))
}
fn probes(code: i32) -> Vec<Vec<Pair>> {
    let two = |a: Pair, b: Pair| vec![vec![a.clone()], vec![b.clone()], vec![a, b]];
    match vtype(code) {
        Some(VT::Str) => two(Pair::s(code, "7"), Pair::s(code, "1F")),
        Some(VT::F64) => {
            let mut v = two(Pair::f(code, 2.5), Pair::f(code, 0.5));
            if let 10..=19 | 110..=119 | 210..=219 = code {
                v.push(vec![Pair::f(code, 2.5), Pair::f(code + 10, 3.5), Pair::f(code + 20, 4.5)]);
                v.push((0..6).map(|k| Pair::f(code + 10 * (k % 3), 2.5 + k as f64)).collect());
            }
            v
        }
        Some(VT::Bool) => two(Pair::i(code, 0), Pair::i(code, 1)),
        Some(VT::I16 | VT::I32 | VT::I64) => { let mut v = two(Pair::i(code, 1), Pair::i(code, 2)); v.push(vec![Pair::i(code, -1)]); v.push(vec![Pair::i(code, 0)]); v.push(vec![Pair::i(code, 3)]); v }
        Some(VT::Bin) => two(Pair { code, val: Val::B(vec![0xAB, 1]) }, Pair { code, val: Val::B(vec![0x7F]) }),
        None => vec![],
    }
}
fn effects(ptr: &str, a: &Value, b: &Value, o: &mut Map<String, Value>) {
    if a == b { return; }
    match (a, b) {
        (Value::Object(x), Value::Object(y)) if x.len() == y.len() && x.keys().all(|k| y.contains_key(k)) => for k in x.keys() { if !k.starts_with("__") { effects(&format!("{}/{}", ptr, k), &x[k], &y[k], o); } },
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => for i in 0..x.len() { effects(&format!("{}/{}", ptr, i), &x[i], &y[i], o); },
        _ => { let mut b = b.clone(); public(&mut b); o.insert(ptr.to_string(), b); }
    }
}
/// without what is private, and where a pair stood in the file
fn public(v: &mut Value) {
    match v {
        Value::Object(m) => { m.retain(|k, _| !k.starts_with("__")); if m.contains_key("code") { m.remove("offset"); } m.values_mut().for_each(public) }
        Value::Array(a) => a.iter_mut().for_each(public),
        _ => (),
    }
}
fn effect(it: &RItem, v: usize, base: &Value, ps: &[Pair], at: usize, x: &[Pair]) -> Result<String, String> {
    let mut q = ps.to_vec();
    q.splice(at..at, x.iter().cloned());
    let b = render(&q, Fmt::Ascii, VERSIONS[v]);
    match guard(|| { let mut r = &b[..]; dxf::Drawing::load(&mut r) })? {
        Err(_) => Ok("error".into()),
        Ok(d) => {
            let got = Value::Array(whole(&d, &it.item));
            let mut o = Map::new();
            effects("", base, &got, &mut o);
            Ok(if o.is_empty() { String::new() } else { Value::Object(o).to_string() })
        }
    }
}
const READ_CODES: std::ops::Range<i32> = 1..482;
fn read_codes() -> Vec<i32> {
    READ_CODES.filter(|c| vtype(*c).is_some() && ![9, 100, 101, 102].contains(c)).collect()
}
fn base_of(it: &RItem, v: usize, ps: &[Pair]) -> Result<Value, String> {
    Ok(Value::Array(whole(&guard(|| load(&render(ps, Fmt::Ascii, VERSIONS[v])))??, &it.item)))
}
fn read_version(it: &RItem) -> Option<usize> {
    (0..VERSIONS.len()).rev().find(|v| it.present[*v] != 'a')
}
pub fn generate_reading() {
    println!("# item\tplace (0 end, 1 start of the record)\tcode\tprobe\teffect of the pairs of the probe");
    let items = read_items();
    let mut outs: Vec<(usize, String)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8).map(|t| { let items = &items; s.spawn(move || items.iter().enumerate().filter(|(i, _)| i % 8 == t).map(|(k, (n, it))| {
            let mut out = String::new();
            let Some(v) = read_version(it) else { return (k, out) };
            let Some((ps, places)) = small(it, v) else { eprintln!("{}: no record", n); return (k, out) };
            let base = match base_of(it, v, &ps) { Ok(b) => b, Err(e) => { eprintln!("{}: {}", n, e); return (k, out) } };
            for (pi, at) in places.iter().enumerate() {
                for code in read_codes() {
                    for (j, x) in probes(code).iter().enumerate() {
                        match effect(it, v, &base, &ps, *at, x) {
                            Ok(e) if e.is_empty() => (),
                            Ok(e) => out.push_str(&format!("{}\t{}\t{}\t{}\t{}\n", n, pi, code, j, e)),
                            Err(e) => eprintln!("{} {} {}: {}", n, code, j, e),
                        }
                    }
                }
            }
            (k, out)
        }).collect::<Vec<_>>()) }).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    outs.sort();
    for o in outs { print!("{}", o.1); }
    generate_head();
}
const HEADERS: u64 = 300;
const HEAD_CODES: &[i32] = &[1, 2, 3, 5, 6, 7, 8, 10, 20, 30, 40, 50, 60, 62, 70, 90, 160, 280, 290, 330, 340, 345, 346, 347, 348, 349, 370, 380, 390];
fn head_names() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for ver in 0..VERSIONS.len() {
        let mut d = new_drawing(VERSIONS[ver]);
        d.header.file_name = "x".into();
        for p in &file_of(&d, Fmt::Ascii).pairs { if p.code == 9 && !v.iter().any(|n| n == p.str()) { v.push(p.str().to_string()); } }
    }
    v.retain(|n| n != "$ACADVER");
    v
}
fn head_effect(name: &str, x: &[Pair]) -> Result<String, String> {
    let mut q = vec![Pair::s(0, "SECTION"), Pair::s(2, "HEADER"), Pair::s(9, "$ACADVER"), Pair::s(1, "AC1032")];
    let tail = vec![Pair::s(0, "ENDSEC"), Pair::s(0, "EOF")];
    let go = |p: &[Pair]| -> Result<Result<Value, ()>, String> { let b = render(p, Fmt::Ascii, VERSIONS[VERSIONS.len() - 1]); guard(|| { let mut r = &b[..]; dxf::Drawing::load(&mut r) }).map(|d| d.map(|d| jv(&d.header)).map_err(|_| ())) };
    let mut p0 = q.clone();
    p0.extend(tail.clone());
    let a = go(&p0)?.map_err(|_| "base".to_string())?;
    q.push(Pair::s(9, name));
    q.extend(x.iter().cloned());
    q.extend(tail);
    match go(&q)? {
        Err(_) => Ok("error".into()),
        Ok(b) => {
            let mut o = Map::new();
            effects("", &a, &b, &mut o);
            // the moment of loading
            o.retain(|k, v| !(v.as_str().map(|s| s.len() > 15).unwrap_or(false) && (k.contains("date") || k.contains("guid"))));
            Ok(if o.is_empty() { String::new() } else { Value::Object(o).to_string() })
        }
    }
}
pub fn generate_head() {
    for n in head_names() {
        for code in HEAD_CODES {
            for (j, x) in probes(*code).iter().enumerate() {
                match head_effect(&n, x) {
                    Ok(e) if e.is_empty() || e == "error" => (),
                    Ok(e) => println!("header {}\t0\t{}\t{}\t{}", n, code, j, e),
                    Err(e) => eprintln!("{} {} {}", n, code, e),
                }
            }
        }
    }
}
fn head_reading_case(c: &mut Case) {
    let names: Vec<&String> = reading().keys().filter(|k| k.starts_with("header ")).collect();
    let key = names[c.idx as usize % names.len()];
    let want = &reading()[key];
    let n = &key["header ".len()..];
    let mut codes = HEAD_CODES.to_vec();
    codes.retain(|k| want.keys().any(|x| x.1 == *k));
    for code in codes {
        for (j, x) in probes(code).iter().enumerate() {
            let Some(w) = want.get(&(0, code, j)).copied() else { continue };
            let got = match head_effect(n, x) { Ok(g) => g, Err(e) => e };
            c.eval(format!("{}{}{}", key, code, j));
            if !w.is_empty() { c.count("header_codes_with_effect", 1); }
            let same = got == w || w == "error" || matches!((serde_json::from_str::<Value>(&got), serde_json::from_str::<Value>(w)), (Ok(a), Ok(b)) if a == b);
            if !same { c.fail(format!("reading:{}:{}", n, code), format!("{} {}: {} instead of {}", n, short(&flat(x)), if got.is_empty() { "no effect" } else { &got }, if w.is_empty() { "no effect" } else { w })); }
        }
    }
}
type Reading = BTreeMap<String, BTreeMap<(usize, i32, usize), &'static str>>;
static READ: OnceLock<Reading> = OnceLock::new();
fn reading() -> &'static Reading {
    READ.get_or_init(|| {
        let mut m = Reading::new();
        for l in include_str!("../../ref/reading.tsv").lines().filter(|l| !l.starts_with('#') && !l.is_empty()) {
            let f: Vec<&str> = l.split('\t').collect();
            m.entry(f[0].into()).or_default().insert((f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap()), f[4]);
        }
        m
    })
}
fn reading_case(c: &mut Case) {
    let items = read_items();
    let (n, it) = &items[c.idx as usize % items.len()];
    let (Some(want), Some(v)) = (reading().get(n), read_version(it)) else { return };
    let Some((ps, places)) = small(it, v) else { return c.inconclusive.push(format!("{}: no record", n)) };
    let base = match base_of(it, v, &ps) { Ok(b) => b, Err(e) => return c.fail(format!("reading:{}:error", n), format!("the record of a new {} cannot be read: {}", n, e)) };
    for (pi, at) in places.iter().enumerate() {
        for code in read_codes() {
            for (j, x) in probes(code).iter().enumerate() {
                let w = want.get(&(pi, code, j)).copied().unwrap_or("");
                let got = match effect(it, v, &base, &ps, *at, x) { Ok(g) => g, Err(e) => e };
                c.eval(format!("{}{}{}{}", n, pi, code, j));
                if !w.is_empty() { c.count("codes_with_effect", 1); }
                let same = got == w || w == "error" && !got.starts_with("panic") || matches!((serde_json::from_str::<Value>(&got), serde_json::from_str::<Value>(w)), (Ok(a), Ok(b)) if a == b);
                if !same {
                    c.fail(format!("reading:{}:{}", n, code), format!("{} at the {} of a new {}: {} instead of {}", short(&flat(x)), ["end", "beginning"][pi], n, if got.is_empty() { "no effect" } else { &got }, if w.is_empty() { "no effect" } else { w }));
                }
            }
        }
    }
}
/// identifiers as programs write them
fn guid_case(c: &mut Case) {
    for _ in 0..8 {
        let u = uuid::Uuid::from_u128(((c.rng.next() as u128) << 64) | c.rng.next() as u128);
        let s = u.to_string();
        let forms = [format!("{{{}}}", s.to_uppercase()), format!("{{{}}}", s), s.to_uppercase(), s.clone()];
        for (k, f) in forms.iter().enumerate() {
            for (var, field) in [("$FINGERPRINTGUID", "fingerprint_guid"), ("$VERSIONGUID", "version_guid")] {
                for fmt in [Fmt::Ascii, Fmt::Binary] {
                    let p = vec![Pair::s(0, "SECTION"), Pair::s(2, "HEADER"), Pair::s(9, "$ACADVER"), Pair::s(1, "AC1032"), Pair::s(9, var), Pair::s(2, f), Pair::s(0, "ENDSEC"), Pair::s(0, "EOF")];
                    let b = render(&p, fmt, AcadVersion::R2018);
                    c.eval(format!("{}{}{}{:?}", k, s, var, fmt));
                    match guard(|| load(&b)).and_then(|x| x) {
                        Err(e) => c.fail(format!("guid:{}:{}", var, k), format!("{} as {} is rejected: {}", var, f, e)),
                        Ok(d) => {
                            let g = jv(&d.header)[field].clone();
                            if g != json!(s) { c.fail(format!("guid:{}:{}", var, k), format!("{} written {} is read as {}", var, f, g)); }
                        }
                    }
                }
            }
        }
    }
}
/// names of versions as the format and its releases have them
const NAMES: &[(&str, AcadVersion)] = &[
    ("MC0.0", AcadVersion::Version_1_0), ("AC1.2", AcadVersion::Version_1_2), ("AC1.40", AcadVersion::Version_1_40), ("AC1.50", AcadVersion::Version_2_05),
    ("AC2.10", AcadVersion::Version_2_10), ("AC2.21", AcadVersion::Version_2_21), ("AC2.22", AcadVersion::Version_2_22), ("AC1001", AcadVersion::Version_2_22),
    ("AC1002", AcadVersion::Version_2_5), ("AC1003", AcadVersion::Version_2_6), ("AC1004", AcadVersion::R9), ("AC1006", AcadVersion::R10), ("AC1009", AcadVersion::R12),
    ("AC1011", AcadVersion::R13), ("AC1012", AcadVersion::R13), ("AC1014", AcadVersion::R14), ("14", AcadVersion::R14), ("14.01", AcadVersion::R14),
    ("AC1015", AcadVersion::R2000), ("15.0", AcadVersion::R2000), ("15.05", AcadVersion::R2000), ("15.06", AcadVersion::R2000),
    ("AC1018", AcadVersion::R2004), ("16.0", AcadVersion::R2004), ("16.1", AcadVersion::R2004), ("16.2", AcadVersion::R2004),
    ("AC1021", AcadVersion::R2007), ("17.0", AcadVersion::R2007), ("17.1", AcadVersion::R2007), ("17.2", AcadVersion::R2007),
    ("AC1024", AcadVersion::R2010), ("18.0", AcadVersion::R2010), ("18.1", AcadVersion::R2010), ("18.2", AcadVersion::R2010),
    ("AC1027", AcadVersion::R2013), ("19.0", AcadVersion::R2013), ("19.1", AcadVersion::R2013), ("19.2", AcadVersion::R2013), ("19.3", AcadVersion::R2013), ("AC1032", AcadVersion::R2018),
];
fn version_case(c: &mut Case) {
    let (n, v) = NAMES[c.idx as usize % NAMES.len()];
    c.eval(n);
    match guard(|| AcadVersion::from(n.to_string())) {
        Ok(Ok(x)) if x == v => (),
        x => c.fail(format!("version:{}", n), format!("{} is {:?} instead of {}", n, x.map(|r| r.map(vname).map_err(|e| e.to_string())), vname(v))),
    }
    if v.to_string() != n && AcadVersion::from(v.to_string()).ok() != Some(v) { c.fail(format!("version:display:{}", n), format!("{} displays as {}", vname(v), v)) }
    for fmt in [Fmt::Ascii, Fmt::Binary] {
        let p = vec![Pair::s(0, "SECTION"), Pair::s(2, "HEADER"), Pair::s(9, "$ACADVER"), Pair::s(1, n), Pair::s(0, "ENDSEC"), Pair::s(0, "EOF")];
        let b = render(&p, fmt, v);
        match guard(|| load(&b)) {
            Ok(Ok(d)) if d.header.version == v => c.count("versions_read", 1),
            Ok(Ok(d)) => { c.attach("input.dxf", &b); c.fail(format!("version:read:{}", n), format!("$ACADVER {} is read as {}", n, vname(d.header.version))) }
            Ok(Err(e)) | Err(e) => { c.attach("input.dxf", &b); c.fail(format!("version:read:{}", n), format!("$ACADVER {}: {}", n, e)) }
        }
    }
    for bad in ["", "AC", "AC1013", "AC1008", " AC1015", "ac1015", "20", "AC1032x"] {
        if let Ok(x) = AcadVersion::from(bad.to_string()) { c.fail("version:unknown", format!("{:?} is {}", bad, vname(x))) }
    }
}
pub fn c23(t: bool) -> Check {
    let n = reference().len() as u64;
    let m = if t { 10 } else { 1 };
    Check {
        id: "C23",
        level: "exploration",
        rule: "one evaluation = one field set to one value in one version and the written pairs compared with the reference and read back, or the whole record of a new item compared; distinct by field, value and version",
        families: vec![family("reading", read_items().len() as u64, reading_case), family("header", HEADERS, head_reading_case), family("guid", 8, guid_case), family("zone", crate::zone::ZONES.len() as u64, |c| crate::zone::case(c, true)), family("version", NAMES.len() as u64, version_case), family("reference", n, case), family("identity", n / 4 * m, identity_case)],
        cpu_limit: 180,
        assumptions: vec!["ref/encoding.tsv states the format: it was generated once from this tree, its enumerations and flags were compared with the DXF reference and departures corrected by hand".into()],
    }
}
