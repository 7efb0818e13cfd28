//! C20: numbers keep their value.
use crate::c_rt::{trip, LOST};
use crate::fw::*;
use crate::gen::*;
use crate::lab::*;
use crate::mini::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::schema::*;
use crate::tab::*;
use crate::types::*;
use dxf::objects::*;
use dxf::CodePairValue;
use serde_json::{json, Value};

/// reals of every magnitude
pub fn wild_real(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => *r.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, 0.0, -0.0, f64::EPSILON, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0]),
        1 => *r.pick(&[1e15, 1e16, -1e16, 9007199254740993.0, 1e17, 123456789012345680.0, 1e21, -1e21, 1e22, 1e100, -1e200, 1e300, 9.5367431640625e-7]),
        2 => *r.pick(&[1e-11, 1e-12, -1e-12, 1.4e-12, 2.5e-12, 0.1, 0.3, 1.0 / 3.0, -2.0 / 3.0, 1e-6, 999999.999999999, 0.999999999999, 0.000000000001]),
        3 => *r.pick(&[32767.0, 32768.0, -32769.0, 65535.5, 2147483647.0, 2147483648.0, -2147483649.0, 4294967296.5]),
        4 => { let e = r.range(-300, 300); (1.0 + (r.next() >> 12) as f64 / (1u64 << 52) as f64) * 10f64.powi(e as i32) * if r.chance(1, 2) { -1.0 } else { 1.0 } }
        5 => { let e = r.range(-15, 20); (r.next() >> 11) as f64 / (1u64 << 53) as f64 * 10f64.powi(e as i32) * if r.chance(1, 2) { -1.0 } else { 1.0 } }
        6 => loop { let f = f64::from_bits(r.next()); if f.is_finite() { break f; } },
        7 => r.range(-1_000_000_000_000, 1_000_000_000_000) as f64 / 1e6,
        8 => r.next() as i64 as f64,
        _ => real(r),
    }
}
/// is y what a file with twelve decimals gives for x?
pub fn twelve(x: f64, y: f64) -> bool {
    if x.abs() >= 16384.0 {
        return x == y; // twelve decimals are more than a double holds
    }
    (x - y).abs() <= 0.5000001e-12 + x.abs() * f64::EPSILON
}
fn wild_int(a: i128, b: i128, r: &mut Rng) -> Value {
    let v = match r.below(4) {
        0 => a,
        1 => b,
        2 => *r.pick(&[0i128, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647, 2147483648, -2147483648, 4294967295, 4294967296, 1 << 53, (1 << 53) + 1, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128]),
        _ => (r.next() as i64 as i128) >> r.below(60),
    };
    let v = v.clamp(a, b);
    if v < 0 { json!(v as i64) } else { json!(v as u64) }
}
fn numeric(k: &Kind) -> bool {
    match k {
        Kind::Bool | Kind::F64 | Kind::Int(..) | Kind::Date => true,
        Kind::Array(e) => numeric(e),
        Kind::Fixed(ks) => ks.iter().any(numeric),
        Kind::Struct(fs) => fs.iter().any(|f| numeric(&f.1)),
        _ => false,
    }
}
fn wild(k: &Kind, v: &mut Value, r: &mut Rng) {
    match (k, v) {
        (Kind::F64, v) => *v = json!(wild_real(r)),
        (Kind::Int(a, b), v) => *v = wild_int(*a, *b, r),
        (Kind::Bool, v) => *v = json!(r.chance(1, 2)),
        (Kind::Date, v) => *v = json!(format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z", *r.pick(&[1900usize, 1969, 1970, 1999, 2000, 2038, 2100, 2999, 9999]), 1 + r.below(12), 1 + r.below(28), r.below(24), r.below(60), r.below(60))),
        (Kind::Array(e), Value::Array(a)) => for x in a { wild(e, x, r) },
        (Kind::Fixed(ks), Value::Array(a)) => for (k, x) in ks.iter().zip(a) { wild(k, x, r) },
        (Kind::Struct(fs), Value::Object(m)) => for (n, k) in fs { if let Some(x) = m.get_mut(n) { wild(k, x, r) } },
        _ => (),
    }
}
pub fn compare(p: &str, a: &Value, b: &Value, exact: bool, out: &mut Vec<String>) {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => for (k, v) in x { compare(&format!("{}/{}", p, k), v, y.get(k).unwrap_or(&Value::Null), exact, out) },
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => for i in 0..x.len() { compare(&format!("{}/{}", p, i), &x[i], &y[i], exact, out) },
        (Value::Number(x), Value::Number(y)) => {
            let ok = if x.is_f64() || y.is_f64() {
                let (f, g) = (x.as_f64().unwrap(), y.as_f64().unwrap());
                if exact { f == g } else { twelve(f, g) }
            } else { x == y };
            if !ok { out.push(p.to_string()) }
        }
        _ => if { let mut ds = vec![]; diff("", a, b, true, &mut ds); !ds.is_empty() } { out.push(p.to_string()) },
    }
}
fn skip(n: &str, p: &str) -> bool {
    SPECIAL.contains(&(n, p)) || LOST.contains(&(n, p)) || n == "object:DataTable" || p.ends_with("/x_data") || p.ends_with("extension_data_groups") || p.ends_with("data_pairs") || p.ends_with("value_handles")
        || p.rsplit('/').next().unwrap_or("").starts_with("__") && !p.ends_with("_handle") && !p.ends_with("handles")
}
fn num_fields() -> Vec<(&'static str, usize)> {
    let mut v = vec![];
    for (n, it) in tab() {
        for (i, l) in it.leaves.iter().enumerate() {
            if numeric(&l.leaf.kind) && !skip(n, &l.leaf.ptr) {
                v.push((n.as_str(), i));
            }
        }
    }
    v
}
fn field_case(c: &mut Case, name: &str, li: usize, values: usize) {
    let it = &tab()[name];
    let l = &it.leaves[li];
    let ptr = l.leaf.ptr.as_str();
    for v in 0..VERSIONS.len() {
        if !stored(l.st[v]) || it.present[v] == 'a' {
            continue;
        }
        for fmt in [Fmt::Ascii, Fmt::Binary] {
            for _ in 0..values {
                let mut x = value(&l.leaf.kind, ptr, &mut c.rng);
                wild(&l.leaf.kind, &mut x, &mut c.rng);
                let x = fit(l.st[v], &x);
                if x.is_null() || !within(l.st[v], &x) {
                    continue;
                }
                let mut b = base(&it.item, &it.default);
                *b.pointer_mut(ptr).unwrap() = x.clone();
                if name == "table:Layer" && b["color"]["raw_value"] == json!(0) {
                    continue;
                }
                let key = format!("{}{} {} {:?} {}", name, ptr, v, fmt, x);
                match trip(&it.item, v, &b, fmt) {
                    Err(e) if e.starts_with("harness:") => c.inconclusive.push(format!("{} {}", key, e)),
                    Err(e) => c.fail(format!("{}{}:error", name, ptr), format!("{}: {}", key, e)),
                    Ok((o, back, _, bytes)) => {
                        c.eval(&key);
                        let nul = Value::Null;
                        let (p, q) = (o.pointer(ptr).unwrap_or(&nul), back.as_ref().and_then(|b| b.pointer(ptr)).unwrap_or(&nul));
                        let mut ds = vec![];
                        compare("", p, q, fmt == Fmt::Binary, &mut ds);
                        if !ds.is_empty() {
                            c.attach("saved.dxf", &bytes);
                            c.fail(format!("{}{}", name, ptr), format!("{} {} {} {:?}: {} became {}", name, ptr, vname(VERSIONS[v]), fmt, brief(p), brief(q)));
                        }
                    }
                }
            }
        }
    }
}
// ---------------------------------------------------------------- numbers of any group code
fn codes() -> Vec<i32> {
    (1..=1071).filter(|c| vtype(*c).map(|t| t != VT::Str && t != VT::Bin).unwrap_or(false)).collect()
}
fn range(t: VT) -> (i128, i128) {
    match t {
        VT::I16 => (-32768, 32767),
        VT::I32 => (i32::MIN as i128, i32::MAX as i128),
        VT::I64 => (i64::MIN as i128, i64::MAX as i128),
        _ => (0, 1),
    }
}
fn record(v: &str, ps: &[Pair]) -> Vec<Pair> {
    let s = Pair::s;
    let mut o = vec![s(0, "SECTION"), s(2, "HEADER"), s(9, "$ACADVER"), s(1, v), s(0, "ENDSEC"), s(0, "SECTION"), s(2, "OBJECTS"), s(0, "XRECORD"), s(5, "FF"), s(100, "AcDbXrecord"), Pair::i(280, 1)];
    o.extend(ps.iter().cloned());
    o.extend([s(0, "ENDSEC"), s(0, "EOF")]);
    o
}
fn found(d: &dxf::Drawing) -> Option<Vec<(i32, Val)>> {
    d.objects().find_map(|x| if let ObjectType::XRecordObject(r) = &x.specific {
        Some(r.data_pairs.iter().map(|p| (p.code, match &p.value {
            CodePairValue::Boolean(b) => Val::I(*b as i64),
            CodePairValue::Short(b) => Val::I(*b as i64),
            CodePairValue::Integer(b) => Val::I(*b as i64),
            CodePairValue::Long(b) => Val::I(*b),
            CodePairValue::Double(f) => Val::F(*f),
            CodePairValue::Str(s) => Val::S(s.clone()),
            CodePairValue::Binary(b) => Val::B(b.clone()),
        })).collect())
    } else { None })
}
const VERS: &[(&str, bool)] = &[("AC1009", false), ("AC1012", true), ("AC1015", true), ("AC1021", true), ("AC1032", true)];
fn same_val(a: &Val, b: &Val, exact: bool) -> bool {
    match (a, b) {
        (Val::F(x), Val::F(y)) => if exact { x.to_bits() == y.to_bits() } else { twelve(*x, *y) },
        _ => a == b,
    }
}
/// every numeric group code with its extremes: read from another program's file, saved and read again
fn codes_case(c: &mut Case) {
    let all = codes();
    let mut ps = vec![];
    for code in &all {
        let t = vtype(*code).unwrap();
        for _ in 0..2 {
            let val = match t {
                VT::F64 => Val::F(wild_real(&mut c.rng)),
                VT::Bool => Val::I(c.rng.below(2) as i64),
                _ => { let (a, b) = range(t); Val::I(wild_int(a, b, &mut c.rng).as_i64().unwrap()) }
            };
            ps.push(Pair { code: *code, val });
        }
    }
    let (ver, wide) = *c.rng.pick(VERS);
    for fmt in [Fmt::Ascii, Fmt::Binary] {
        let f = record(ver, &ps);
        let b = match fmt { Fmt::Ascii => to_ascii(&f), Fmt::Binary => to_binary(&f, wide) };
        let d = match load(&b) {
            Ok(d) => d,
            Err(e) => { c.attach("input.dxf", &b); c.fail("codes:load", format!("{} {:?}: {}", ver, fmt, e)); continue; }
        };
        c.eval(&b);
        c.count("code_values", ps.len() as u64);
        let check = |c: &mut Case, d: &dxf::Drawing, what: &str, exact: bool, b: &[u8]| {
            let g = found(d).unwrap_or_default();
            if g.len() != ps.len() {
                c.attach("input.dxf", b);
                c.fail(format!("codes:{}:count", what), format!("{} {:?}: {} values became {}", ver, fmt, ps.len(), g.len()));
                return;
            }
            for (p, q) in ps.iter().zip(&g) {
                if p.code != q.0 || !same_val(&p.val, &q.1, exact) {
                    c.attach("input.dxf", b);
                    c.fail(format!("codes:{}:{:?}", what, vtype(p.code).unwrap()), format!("{} {:?}: code {} value {:?} became code {} value {:?}", ver, fmt, p.code, p.val, q.0, q.1));
                    return;
                }
            }
        };
        check(c, &d, "read", true, &b);
        let mut d = d;
        if d.header.version < dxf::enums::AcadVersion::R2000 { d.header.version = dxf::enums::AcadVersion::R2000; }
        for f2 in [Fmt::Ascii, Fmt::Binary] {
            match save(&d, f2).and_then(|b2| load(&b2).map(|d2| (d2, b2))) {
                Ok((d2, b2)) => { c.eval(&b2); check(c, &d2, "resaved", f2 == Fmt::Binary, &b2) }
                Err(e) => { c.attach("input.dxf", &b); c.fail("codes:resave", format!("{} {:?} {:?}: {}", ver, fmt, f2, e)) }
            }
        }
    }
}
/// a number that does not fit its group code is an error
fn misfit_case(c: &mut Case) {
    let all = codes();
    let code = all[c.idx as usize % all.len()];
    let t = vtype(code).unwrap();
    let mut bad: Vec<String> = match t {
        VT::I16 => ["32768", "-32769", "65535", "65536", "98304", "2147483648", "99999999999999999999", "32768.0", "-40000.5", "1e9"].iter().map(|s| s.to_string()).collect(),
        VT::Bool => ["32768", "-32769", "65536", "65537", "4294967297"].iter().map(|s| s.to_string()).collect(),
        VT::I32 => ["2147483648", "-2147483649", "4294967295", "4294967296", "4294967297", "99999999999999999999"].iter().map(|s| s.to_string()).collect(),
        VT::I64 => ["9223372036854775808", "-9223372036854775809", "18446744073709551616", "99999999999999999999999"].iter().map(|s| s.to_string()).collect(),
        _ => vec![],
    };
    for s in ["abc", "1,5", "0x10", "--1", "1 2"] {
        bad.push(s.into());
    }
    for s in bad {
        let (ver, _) = *c.rng.pick(VERS);
        let f = record(ver, &[Pair::s(1, "before"), Pair { code, val: Val::S(s.clone()) }, Pair::s(1, "after")]);
        let b = to_ascii(&f);
        c.eval(&b);
        match guard(|| load(&b)) {
            Err(p) => { c.attach("input.dxf", &b); c.fail("misfit:panic", format!("code {} value {}: {}", code, s, p)) }
            Ok(Err(_)) => (),
            Ok(Ok(d)) => {
                c.attach("input.dxf", &b);
                c.fail(format!("misfit:{:?}", t), format!("code {} value {} was accepted as {:?}", code, s, found(&d)));
            }
        }
    }
    // fitting neighbours are accepted
    if t != VT::F64 && t != VT::Bool {
        let (lo, hi) = range(t);
        for v in [lo, hi] {
            let b = to_ascii(&record("AC1015", &[Pair::i(code, v as i64)]));
            c.eval(&b);
            match load(&b) {
                Ok(d) if found(&d) == Some(vec![(code, Val::I(v as i64))]) => (),
                o => { c.attach("input.dxf", &b); c.fail(format!("extreme:{:?}", t), format!("code {} value {} became {:?}", code, v, o.map(|d| found(&d)))) }
            }
        }
    }
}
/// a field's value that its group code cannot hold: saving fails, or the value comes back
fn overflow_case(c: &mut Case, name: &str, li: usize) {
    let it = &tab()[name];
    let l = &it.leaves[li];
    let ptr = l.leaf.ptr.as_str();
    for v in [R13 - 1, R13 + 2, VERSIONS.len() - 1] {
        let cls = l.st[v];
        if it.present[v] == 'a' || !['s', 'i', 'n', 'b'].contains(&cls) {
            continue;
        }
        let (a, b) = match &l.leaf.kind { Kind::Int(a, b) => (*a, *b), _ => continue };
        for x in [a, b, -1, 32768, -32769, 65536, 2147483648, -2147483649, 4294967297] {
            if x < a || x > b { continue; }
            let x = if x < 0 { json!(x as i64) } else { json!(x as u64) };
            if within(cls, &x) { continue; }
            let mut bj = base(&it.item, &it.default);
            *bj.pointer_mut(ptr).unwrap() = x.clone();
            let fmt = any_fmt(&mut c.rng);
            let key = format!("{}{} {} {:?} {}", name, ptr, v, fmt, x);
            c.eval(&key);
            match trip(&it.item, v, &bj, fmt) {
                Err(_) => (),
                Ok((o, back, _, bytes)) => {
                    if o.pointer(ptr) != back.as_ref().and_then(|b| b.pointer(ptr)) {
                        c.attach("saved.dxf", &bytes);
                        c.fail(format!("overflow:{}{}", name, ptr), format!("{}: {:?} became {:?} without an error", key, o.pointer(ptr), back.as_ref().and_then(|b| b.pointer(ptr))));
                    }
                }
            }
        }
    }
}
/// handles of every length in an entity, written by another program and by the library
fn handle_case(c: &mut Case) {
    let h = match c.idx { 0 => u64::MAX, 1 => 1 << 63, 2 => i64::MAX as u64, 3 => u32::MAX as u64, 4 => 1 << 32, _ => 1.max(c.rng.next() >> c.rng.below(64)) };
    let s = |a, b: &str| Pair::s(a, b);
    for (ver, wide) in VERS {
        for fmt in [Fmt::Ascii, Fmt::Binary] {
            let txt = match c.rng.below(4) { 0 => format!("{:x}", h), 1 => format!("{:016X}", h), _ => format!("{:X}", h) };
            let owner = 1.max(c.rng.next() >> c.rng.below(64));
            let f = vec![s(0, "SECTION"), s(2, "HEADER"), s(9, "$ACADVER"), s(1, ver), s(0, "ENDSEC"), s(0, "SECTION"), s(2, "ENTITIES"), s(0, "LINE"), s(5, &txt), s(330, &format!("{:X}", owner)), s(8, "0"), s(1001, "APP"), s(1005, &txt), s(0, "ENDSEC"), s(0, "EOF")];
            let b = match fmt { Fmt::Ascii => to_ascii(&f), Fmt::Binary => to_binary(&f, *wide) };
            c.eval(&b);
            match load(&b) {
                Err(e) => { c.attach("input.dxf", &b); c.fail("handle:error", format!("{} {:?} handle {}: {}", ver, fmt, txt, e)) }
                Ok(d) => {
                    let o = d.entities().next().map(|e| (e.common.handle.0, e.common.x_data.first().and_then(|x| x.items.first()).map(|i| jv(i))));
                    if o != Some((h, Some(json!({"Handle": h})))) {
                        c.attach("input.dxf", &b);
                        c.fail("handle:value", format!("{} {:?} handle {} was read as {:?}", ver, fmt, txt, o));
                    }
                }
            }
        }
    }
    // one digit too many
    let txt = format!("{:X}{:016X}", 1 + c.rng.below(15), c.rng.next());
    let f = vec![s(0, "SECTION"), s(2, "ENTITIES"), s(0, "LINE"), s(5, &txt), s(0, "ENDSEC"), s(0, "EOF")];
    let b = to_ascii(&f);
    c.eval(&b);
    if let Ok(d) = load(&b) {
        c.attach("input.dxf", &b);
        c.fail("handle:misfit", format!("handle {} was accepted as {:?}", txt, d.entities().next().map(|e| e.common.handle.0)));
    }
}
pub fn c20(t: bool) -> Check {
    let m = if t { 10 } else { 1 };
    let fs = num_fields();
    let n = fs.len() as u64;
    let fs2: Vec<_> = fs.iter().copied().filter(|(name, li)| tab()[*name].leaves[*li].st.iter().any(|s| ['s', 'i', 'n', 'b'].contains(s))).collect();
    let n2 = fs2.len() as u64;
    Check {
        id: "C20",
        level: "exploration",
        rule: "one evaluation = one value in one field, version and format, saved and loaded, or one file with numbers of every group code or with a number that does not fit; distinct by content",
        families: vec![
            family("fields", n, move |c| { let (name, li) = fs[c.idx as usize]; field_case(c, name, li, m) }),
            family("overflow", n2, move |c| { let (name, li) = fs2[c.idx as usize]; overflow_case(c, name, li) }),
            family("codes", 100 * m as u64, codes_case),
            family("misfit", codes().len() as u64, misfit_case),
            family("handles", 100 * m as u64, handle_case),
        ],
        cpu_limit: 120,
        assumptions: vec!["reals are finite; ASCII files keep twelve decimals".into()],
    }
}
