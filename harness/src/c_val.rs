//! C26: colors, line weights, points and handles are consistent value types.
use crate::fw::*;
use crate::lab::*;
use crate::mini::*;
use crate::rt::*;
use crate::types::*;
use dxf::entities::{Entity, EntityType, Line};
use dxf::enums::AcadVersion;
use dxf::tables::Layer;
use dxf::{point, Color, Drawing, Handle, LineWeight, Point, TransformationMatrix, Vector};
use serde_json::json;


fn color(v: i16) -> Color {
    serde_json::from_value(json!({"raw_value": v})).expect("harness: color")
}
fn raw(c: &Color) -> i64 {
    jv(c)["raw_value"].as_i64().expect("harness: raw color")
}
fn weight(v: i16) -> LineWeight {
    serde_json::from_value(json!({"raw_value": v})).expect("harness: weight")
}
fn color_case(c: &mut Case) {
    let lo = -32768 + c.idx as i32 * 1024;
    for v in lo..lo + 1024 {
        let v = v as i16;
        let k = color(v);
        c.eval(v.to_le_bytes());
        let got = (k.is_by_layer(), k.is_by_block(), k.is_by_entity(), k.is_turned_off(), k.is_index(), k.index());
        let want = (v == 256, v == 0, v == 257, v < 0, (1..=255).contains(&v), if (1..=255).contains(&v) { Some(v as u8) } else { None });
        if got != want { c.fail("color:classes", format!("raw {}: (by layer, by block, by entity, off, index, index value) = {:?}, expected {:?}", v, got, want)) }
        if k != k.clone() || raw(&k) != v as i64 { c.fail("color:identity", format!("raw {}", v)) }
        for w in [-1i16, 0, 1, 7, 255, 256, 257, v.wrapping_add(1), v.wrapping_sub(1), v.wrapping_add(256), v.wrapping_neg()] {
            if (color(w) == k) != (w == v) { c.fail("color:equality", format!("raw {} and {}", v, w)) }
        }
        let set = |f: fn(&mut Color)| { let mut x = k.clone(); f(&mut x); x };
        let a = set(Color::set_by_layer);
        if !a.is_by_layer() || a != Color::by_layer() { c.fail("color:set_by_layer", format!("from raw {}: {:?}", v, a)) }
        let a = set(Color::set_by_block);
        if !a.is_by_block() || a != Color::by_block() { c.fail("color:set_by_block", format!("from raw {}: {:?}", v, a)) }
        let a = set(Color::set_by_entity);
        if !a.is_by_entity() || a != Color::by_entity() { c.fail("color:set_by_entity", format!("from raw {}: {:?}", v, a)) }
        let a = set(Color::turn_off);
        if !a.is_turned_off() { c.fail("color:turn_off", format!("from raw {}: {:?}", v, a)) }
        let w = weight(v);
        let got = (w.raw_value(), w.is_by_block(), w.is_by_layer());
        if got != (v, v == -1, v == -2) { c.fail("weight:classes", format!("raw {}: {:?}", v, got)) }
    }
    if c.idx == 0 {
        for i in 0..=255u8 {
            let k = Color::from_index(i);
            if raw(&k) != i as i64 || k.index() != (if i > 0 { Some(i) } else { None }) { c.fail("color:from_index", format!("{}: {:?}", i, k)) }
        }
        for (n, k, v) in [("by_layer", Color::by_layer(), 256), ("by_block", Color::by_block(), 0), ("by_entity", Color::by_entity(), 257), ("default", Color::default(), 0)] {
            if raw(&k) != v { c.fail("color:constructor", format!("{} is {:?}", n, k)) }
        }
        for (n, k, v) in [("by_block", LineWeight::by_block(), -1), ("by_layer", LineWeight::by_layer(), -2), ("default", LineWeight::default(), 0)] {
            if k.raw_value() != v { c.fail("weight:constructor", format!("{} is {:?}", n, k)) }
        }
        let e = Entity::new(EntityType::Line(Line::default()));
        if !e.common.color.is_by_layer() { c.fail("default:entity", format!("an entity starts with {:?}", e.common.color)) }
        let l = Layer::default();
        if l.color.index() != Some(7) || !l.is_layer_on { c.fail("default:layer", format!("a layer starts with {:?}, on {}", l.color, l.is_layer_on)) }
        let h = Drawing::new().header;
        if !h.current_entity_color.is_by_layer() { c.fail("default:header", format!("{:?}", h.current_entity_color)) }
        let m = TransformationMatrix::identity();
        let j = jv(&m);
        for a in 1..=4 { for b in 1..=4 {
            if j[format!("m{}{}", a, b)] != json!(if a == b { 1.0 } else { 0.0 }) { c.fail("matrix:identity", format!("m{}{}", a, b)) }
        } }
    }
}
fn find<'a>(p: &'a [Pair], i: usize, code: i32) -> Option<&'a Pair> {
    p[i + 1..].iter().take_while(|x| x.code != 0).find(|x| x.code == code)
}
fn num(p: Option<&Pair>) -> Option<i64> {
    match p { Some(Pair { val: Val::I(n), .. }) => Some(*n), _ => None }
}
/// raw values read from and written to files
fn file_case(c: &mut Case) {
    let lo = -32768 + (c.idx as i32 % 128) * 512;
    let v = if c.idx % 2 == 0 { AcadVersion::R2018 } else { let n: Vec<_> = VERSIONS.iter().copied().filter(|v| *v >= AcadVersion::R2000).collect(); *c.rng.pick(&n) };
    let fmt = any_fmt(&mut c.rng);
    let f = file_of(&new_drawing(v), fmt);
    let mut p = f.pairs.clone();
    let e = p.windows(2).position(|w| w[0].is(0, "SECTION") && w[1].is(2, "ENTITIES")).expect("harness: entities") + 2;
    let mut ents = vec![];
    let mut layers = vec![];
    for (i, x) in (lo..lo + 512).enumerate() {
        ents.extend([Pair::s(0, "LINE"), Pair::s(5, &format!("{:X}", 0x10000 + i)), Pair::s(8, &format!("C{}", i)), Pair::i(62, x as i64), Pair::i(370, x as i64)]);
        layers.extend([Pair::s(0, "LAYER"), Pair::s(5, &format!("{:X}", 0x20000 + i)), Pair::s(2, &format!("C{}", i)), Pair::i(70, 0), Pair::i(62, x as i64), Pair::s(6, "CONTINUOUS"), Pair::i(370, x as i64)]);
    }
    p.splice(e..e, ents);
    let t = p.windows(2).position(|w| w[0].is(0, "TABLE") && w[1].is(2, "LAYER")).expect("harness: layers");
    let t = t + p[t..].iter().position(|x| x.is(0, "ENDTAB")).unwrap();
    p.splice(t..t, layers);
    let b = render(&p, fmt, v);
    c.eval(&b);
    let d = match guard(|| load(&b)) {
        Ok(Ok(d)) => d,
        Ok(Err(e)) | Err(e) => { c.attach("input.dxf", &b); c.fail("file:error", format!("{:?} {:?} raw values {}..: {}", v, fmt, lo, e)); return; }
    };
    for e in d.entities() {
        let Some(i) = e.common.layer.strip_prefix('C').and_then(|s| s.parse::<i32>().ok()) else { continue };
        c.count("values_read", 2);
        if raw(&e.common.color) != (lo + i) as i64 { c.attach("input.dxf", &b); c.fail("file:color", format!("{:?} {:?}: color {} is read as {:?}", v, fmt, lo + i, e.common.color)); return; }
        if e.common.lineweight_enum_value != (lo + i) as i16 { c.attach("input.dxf", &b); c.fail("file:weight", format!("{:?} {:?}: weight {} is read as {:?}", v, fmt, lo + i, e.common.lineweight_enum_value)); return; }
    }
    for l in d.layers() {
        let Some(i) = l.name.strip_prefix('C').and_then(|s| s.parse::<i32>().ok()) else { continue };
        let x = lo + i;
        c.count("values_read", 3);
        if l.line_weight.raw_value() as i32 != x { c.attach("input.dxf", &b); c.fail("layer:weight", format!("{:?} {:?}: weight {} is read as {:?}", v, fmt, x, l.line_weight)); return; }
        if x == -32768 { continue; }
        // the sign tells whether the layer is on, 0 and 256 are no layer colors
        let ok = raw(&l.color) == x.abs() as i64 || ((x == 0 || x.abs() == 256) && l.color.index() == Some(7));
        if !ok || l.is_layer_on != (x >= 0) { c.attach("input.dxf", &b); c.fail("layer:color", format!("{:?} {:?}: color {} is read as {:?}, on {}", v, fmt, x, l.color, l.is_layer_on)); return; }
    }
    // and written again
    for fmt in [Fmt::Ascii, Fmt::Binary] {
        let g = match guard(|| file_of(&d, fmt)) { Ok(g) => g, Err(e) => { c.fail("file:save", e); return; } };
        let q = &g.pairs;
        for (i, x) in q.iter().enumerate() {
            if x.is(0, "LINE") {
                let Some(k) = find(q, i, 8).and_then(|s| s.str().strip_prefix('C')).and_then(|s| s.parse::<i64>().ok()) else { continue };
                let k = k + lo as i64;
                c.count("values_written", 2);
                if num(find(q, i, 62)).unwrap_or(256) != k { c.fail("written:color", format!("{:?} {:?}: color {} is written as {:?}", v, fmt, k, find(q, i, 62))); return; }
                if num(find(q, i, 370)).unwrap_or(0) != k { c.fail("written:weight", format!("{:?} {:?}: weight {} is written as {:?}", v, fmt, k, find(q, i, 370))); return; }
            } else if x.is(0, "LAYER") {
                let Some(k) = find(q, i, 2).and_then(|s| s.str().strip_prefix('C')).and_then(|s| s.parse::<i64>().ok()) else { continue };
                let k = k + lo as i64;
                c.count("values_written", 2);
                let w = num(find(q, i, 62));
                let ok = k == -32768 || w == Some(k) || ((k == 0 || k.abs() == 256) && w.map(|x| x.abs()) == Some(7));
                if !ok { c.fail("written:layer", format!("{:?} {:?}: layer color {} is written as {:?}", v, fmt, k, w)); return; }
                if num(find(q, i, 370)) != Some(k) { c.fail("written:layer_weight", format!("{:?} {:?}: weight {} is written as {:?}", v, fmt, k, find(q, i, 370))); return; }
            }
        }
    }
}
/// layers with any color and state, written and read
fn layer_case(c: &mut Case) {
    let v = VERSIONS[(c.idx % VERSIONS.len() as u64) as usize];
    let fmt = any_fmt(&mut c.rng);
    let mut d = new_drawing(v);
    let mut want = vec![];
    for i in 0..64 {
        let x: i16 = match c.rng.below(4) { 0 => *c.rng.pick(&[1, 7, 255, 257, -1, -7, -255, -257, 32767, -32767, 2, 254]), 1 => 1 + c.rng.below(255) as i16, _ => c.rng.next() as i16 };
        if x == 0 || x.abs_diff(0) == 256 || x == i16::MIN { continue; }
        let on = c.rng.chance(1, 2);
        let l = Layer { name: format!("C{}", i), color: color(x), is_layer_on: on, ..Default::default() };
        c.eval(format!("{:?}{:?}{}{}", v, fmt, x, on));
        want.push((format!("C{}", i), x, on));
        d.add_layer(l);
    }
    let f = match guard(|| file_of(&d, fmt)) { Ok(f) => f, Err(e) => { c.fail("layers:save", e); return; } };
    for (i, p) in f.pairs.iter().enumerate() {
        if !p.is(0, "LAYER") { continue; }
        let name = find(&f.pairs, i, 2).map(|p| p.str().to_string()).unwrap_or_default();
        if let Some((n, x, on)) = want.iter().find(|w| w.0 == name) {
            let e = if *on { x.abs() as i64 } else { -(x.abs() as i64) };
            c.count("values_written", 1);
            if num(find(&f.pairs, i, 62)) != Some(e) { c.fail("layers:written", format!("{:?}: layer {} with raw color {} and on {} is written as {:?}", v, n, x, on, find(&f.pairs, i, 62))); return; }
        }
    }
    match guard(|| load(&f.bytes)) {
        Ok(Ok(g)) => for (n, x, on) in &want {
            c.count("values_read", 1);
            let l = g.layers().find(|l| l.name == *n).cloned();
            match l {
                Some(l) if raw(&l.color) == x.abs() as i64 && l.is_layer_on == *on => (),
                l => { c.attach("input.dxf", &f.bytes); c.fail("layers:read", format!("{:?}: layer {} with raw color {} and on {} became {:?}", v, n, x, on, l.map(|l| (l.color, l.is_layer_on)))); return; }
            }
        },
        Ok(Err(e)) | Err(e) => { c.attach("input.dxf", &f.bytes); c.fail("layers:load", e) }
    }
}
fn handle_case(c: &mut Case) {
    let v = *c.rng.pick(&VERSIONS[VERSIONS.iter().position(|v| *v == AcadVersion::R13).unwrap()..]);
    let fmt = any_fmt(&mut c.rng);
    let f = file_of(&new_drawing(v), fmt);
    let e = f.pairs.windows(2).position(|w| w[0].is(0, "SECTION") && w[1].is(2, "ENTITIES")).expect("harness: entities") + 2;
    for _ in 0..6 {
        let h: u64 = match c.rng.below(5) {
            0 => *c.rng.pick(&[1, 0xF, 0x10, 0xFF, 0x100, 0xFFFF_FFFF, 0x1_0000_0000, 0x7FFF_FFFF_FFFF_FFFF, 0x8000_0000_0000_0000, u64::MAX - 1, u64::MAX]),
            1 => 1 << c.rng.below(64),
            _ => (c.rng.next() >> c.rng.below(64)).max(1),
        };
        c.eval(h.to_le_bytes());
        let k = Handle(h);
        let s = k.as_string();
        if u64::from_str_radix(&s, 16) != Ok(h) || s != s.to_uppercase() || (s.starts_with('0') && h != 0) { c.fail("handle:text", format!("{:#X} is {}", h, s)) }
        let n = k.next_handle_value();
        if n.0 == 0 || n == k || (h < u64::MAX && n.0 != h + 1) { c.fail("handle:next", format!("{:#X} is followed by {:#X}", h, n.0)) }
        if k.is_empty() != (h == 0) || !Handle::empty().is_empty() || Handle::empty().0 != 0 { c.fail("handle:empty", format!("{:#X}", h)) }
        if (Handle(h ^ (1 << c.rng.below(64)))) == k { c.fail("handle:equality", format!("{:#X}", h)) }
        // read from a file in another notation
        let (t, ok) = match c.rng.below(12) {
            0 | 1 => (format!("{:X}", h), true),
            2 | 3 => (format!("{:x}", h), true),
            4 => (format!("{:016X}", h), true),
            5 => (format!("{:018X}", h), true),
            6 => (format!("0{:x}", h), true),
            7 => (format!("1{:016X}", h), false),
            8 => (format!("{}{:X}", c.rng.pick(&["0x", "-", "+", "#", "g"]), h), false),
            9 => (format!("{:X}{}", h, c.rng.pick(&["G", "h", " 1", ".", "é"])), false),
            10 => (format!(" {:X} ", h), true),
            _ => (format!("F0{:016X}", h), false),
        };
        let mut p = f.pairs.clone();
        let owner = c.rng.chance(1, 2);
        let q = if owner {
            vec![Pair::s(0, "LINE"), Pair::s(5, "ABC"), Pair::s(330, &t), Pair::s(8, "X")]
        } else {
            vec![Pair::s(0, "LINE"), Pair::s(5, &t), Pair::s(8, "X")]
        };
        p.splice(e..e, q);
        let b = render(&p, fmt, v);
        c.eval(&b);
        match guard(|| load(&b)) {
            Ok(Ok(d)) => {
                let x = d.entities().next().map(|e| if owner { jv(e)["common"]["__owner_handle"].as_u64().unwrap_or(0) } else { e.common.handle.0 });
                if !ok { c.attach("input.dxf", &b); c.fail("handle:accepted", format!("{:?} {:?}: {:?} is read as {:X?}", v, fmt, t, x)) }
                else if x != Some(h) { c.attach("input.dxf", &b); c.fail("handle:read", format!("{:?} {:?}: {:?} is read as {:X?}", v, fmt, t, x)) }
                else {
                    c.count("handles_read", 1);
                    let g = file_of(&d, fmt);
                    if let Some(i) = g.pairs.iter().position(|x| x.is(0, "LINE")) {
                        let w = find(&g.pairs, i, if owner { 330 } else { 5 }).map(|p| p.str().to_string());
                        if (!owner || v >= AcadVersion::R2000) && w.as_deref() != Some(&*format!("{:X}", h)) { c.fail("handle:written", format!("{:?} {:?}: {:X} is written as {:?}", v, fmt, h, w)) } else { c.count("handles_written", 1) }
                    }
                }
            }
            Ok(Err(e)) => if ok { c.attach("input.dxf", &b); c.fail("handle:error", format!("{:?} {:?}: {:?}: {}", v, fmt, t, e)) } else { c.count("handles_refused", 1) }
            Err(p) => { c.attach("input.dxf", &b); c.fail(format!("handle:panic:{}", panic_sig(&p)), format!("{:?}: {}", t, p)) }
        }
    }
}
fn point_case(c: &mut Case) {
    for _ in 0..20 {
        let (x, y, z) = (hostile_real(&mut c.rng), hostile_real(&mut c.rng), hostile_real(&mut c.rng));
        let b = |f: f64| f.to_bits();
        c.eval(format!("{:?}{:?}{:?}", x, y, z));
        let p = Point::new(x, y, z);
        let t = p.tuple();
        if (b(p.x), b(p.y), b(p.z)) != (b(x), b(y), b(z)) || (b(t.0), b(t.1), b(t.2)) != (b(x), b(y), b(z)) { c.fail("point:new", format!("{:?} of {:?}", p, (x, y, z))) }
        let v = Vector::new(x, y, z);
        if (b(v.x), b(v.y), b(v.z)) != (b(x), b(y), b(z)) { c.fail("vector:new", format!("{:?} of {:?}", v, (x, y, z))) }
        let (m3, m2, m1) = (point!(x, y, z), point!(x, y), point!(x));
        if (b(m3.x), b(m3.y), b(m3.z), b(m2.x), b(m2.y), m2.z, b(m1.x), m1.y, m1.z) != (b(x), b(y), b(z), b(x), b(y), 0.0, b(x), 0.0, 0.0) { c.fail("point:macro", format!("{:?} {:?} {:?}", m3, m2, m1)) }
        for k in 0..3 {
            let mut o = [x, y, z];
            o[k] = if o[k] == 1.5 { 2.5 } else { 1.5 };
            if Point::new(o[0], o[1], o[2]) == p || Vector::new(o[0], o[1], o[2]) == v { c.fail("point:equality", format!("{:?} and {:?}", o, p)) }
        }
        if !x.is_nan() && !y.is_nan() && !z.is_nan() && (p != p.clone() || v != v.clone()) { c.fail("point:clone", format!("{:?}", p)) }
    }
    let a = |v: Vector| (v.x, v.y, v.z);
    if a(Vector::zero()) != (0., 0., 0.) || a(Vector::x_axis()) != (1., 0., 0.) || a(Vector::y_axis()) != (0., 1., 0.) || a(Vector::z_axis()) != (0., 0., 1.) || Vector::default() != Vector::zero() || Point::default() != Point::origin() || Point::origin().tuple() != (0., 0., 0.) {
        c.fail("point:constants", "axes, zero or origin".to_string())
    }
    // coordinates that a file leaves out are zero, in whatever order the others come
    let f = file_of(&new_drawing(AcadVersion::R2018), Fmt::Ascii);
    let e = f.pairs.windows(2).position(|w| w[0].is(0, "SECTION") && w[1].is(2, "ENTITIES")).expect("harness: entities") + 2;
    let mut q = vec![Pair::s(0, "LINE"), Pair::s(8, "X")];
    let mut w = [0.0f64; 6];
    let mut o: Vec<usize> = (0..6).collect();
    for i in 0..6 { let j = c.rng.below(i + 1); o.swap(i, j); }
    for i in o { if c.rng.chance(2, 3) { w[i] = c.rng.below(100000) as f64 / 8.0 - 5000.0; q.push(Pair::f([10, 20, 30, 11, 21, 31][i], w[i])); } }
    let mut p = f.pairs.clone();
    p.splice(e..e, q);
    for fmt in [Fmt::Ascii, Fmt::Binary] {
        let b = render(&p, fmt, AcadVersion::R2018);
        c.eval(&b);
        let g = match guard(|| load(&b)) { Ok(Ok(d)) => d.entities().next().map(|e| match &e.specific { EntityType::Line(l) => [l.p1.x, l.p1.y, l.p1.z, l.p2.x, l.p2.y, l.p2.z], _ => [f64::NAN; 6] }), _ => None };
        if g != Some(w) { c.attach("input.dxf", &b); c.fail("point:read", format!("{:?} read as {:?}", w, g)) }
    }
}
pub fn c26(t: bool) -> Check {
    let m = if t { 10 } else { 1 };
    Check {
        id: "C26",
        level: "exploration",
        rule: "one evaluation = one raw value, handle or coordinate triple judged, or one file with such values loaded and saved; all 65536 raw values are visited by the families color and file; distinct by value or content",
        families: vec![family("color", 64, color_case), family("file", 128 * m, file_case), family("layer", VERSIONS.len() as u64 * 4 * m, layer_case), family("handle", 400 * m, handle_case), family("point", 120 * m, point_case)],
        cpu_limit: 120,
        assumptions: vec!["raw values are put into colors and line weights through the serialization feature; -32768, whose sign cannot be removed, is not used as a layer color".into()],
    }
}
