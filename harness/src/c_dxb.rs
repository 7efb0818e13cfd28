//! C09: DXB files round trip what they can hold, and records of other programs are decoded by rule.
use crate::fw::*;
use crate::lab::*;
use crate::mini::*;
use crate::rng::Rng;
use crate::rt::*;
use dxf::entities::*;
use dxf::{Block, Color, Drawing, Handle, Point};
use serde_json::Value;

fn num(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => r.range(-100, 100) as f64,
        1 => r.range(-1_000_000, 1_000_000) as f64 / 1000.0,
        2 => 0.0,
        3 => *r.pick(&[1e-30, -1e30, 0.1, 1.0 / 3.0, 16777217.0, -0.1, 3.4e38, 1e-44, 123456.789]),
        _ => (r.next() >> 11) as f64 / 1e9 - 4e6,
    }
}
fn pt2(r: &mut Rng) -> Point { Point::new(num(r), num(r), 0.0) }
fn pt3(r: &mut Rng) -> Point { Point::new(num(r), num(r), num(r)) }
fn f32p(p: &Point) -> Point { Point::new(f(p.x), f(p.y), f(p.z)) }
fn f(x: f64) -> f64 { f64::from(x as f32) }
fn layer(r: &mut Rng) -> String {
    match r.below(4) {
        0 => "0".into(),
        1 => (0..if crate::lab::is_large() && r.chance(1, 4) { crate::big::size(r, 2000) } else { 1 + r.below(12) }).map(|_| char::from(1 + r.below(255) as u8)).collect(),
        2 => String::new(),
        _ => format!("layer {}", r.below(4)),
    }
}
pub fn raw_color(x: i16) -> Color { serde_json::from_value(serde_json::json!({"raw_value": x})).unwrap() }
fn color(r: &mut Rng) -> Color { raw_color(color_raw(r)) }
fn color_raw(r: &mut Rng) -> i16 {
    match r.below(4) { 0 => *r.pick(&[0, 256, 257, -1, 7, i16::MAX, i16::MIN, 255, -5]), 1 => 0, 2 => 1 + r.below(3) as i16, _ => r.next() as i16 }
}
/// (what to save, what to expect back)
pub fn shape(r: &mut Rng) -> (Entity, Entity) {
    let (a, b) = match r.below(8) {
        0 => {
            let (p, x, s, e) = (pt2(r), num(r), num(r), num(r));
            (EntityType::Arc(Arc::new(p.clone(), x, s, e)), EntityType::Arc(Arc::new(f32p(&p), f(x), f(s), f(e))))
        }
        1 => { let (p, x) = (pt2(r), num(r)); (EntityType::Circle(Circle::new(p.clone(), x)), EntityType::Circle(Circle::new(f32p(&p), f(x)))) }
        2 => { let (p, q, s, t) = (pt3(r), pt3(r), pt3(r), pt3(r)); (EntityType::Face3D(Face3D::new(p.clone(), q.clone(), s.clone(), t.clone())), EntityType::Face3D(Face3D::new(f32p(&p), f32p(&q), f32p(&s), f32p(&t)))) }
        3 => { let (p, q) = (pt3(r), pt3(r)); (EntityType::Line(Line::new(p.clone(), q.clone())), EntityType::Line(Line::new(f32p(&p), f32p(&q)))) }
        4 => { let p = pt2(r); (EntityType::ModelPoint(ModelPoint::new(p.clone())), EntityType::ModelPoint(ModelPoint::new(f32p(&p)))) }
        5 => { let (p, q, s, t) = (pt2(r), pt2(r), pt2(r), pt2(r)); (EntityType::Solid(Solid::new(p.clone(), q.clone(), s.clone(), t.clone())), EntityType::Solid(Solid::new(f32p(&p), f32p(&q), f32p(&s), f32p(&t)))) }
        6 => { let (p, q, s, t) = (pt2(r), pt2(r), pt2(r), pt2(r)); (EntityType::Trace(Trace::new(p.clone(), q.clone(), s.clone(), t.clone())), EntityType::Trace(Trace::new(f32p(&p), f32p(&q), f32p(&s), f32p(&t)))) }
        _ => {
            let mut a = Polyline::default();
            let mut b = Polyline::default();
            let closed = r.chance(1, 2);
            a.set_is_closed(closed);
            b.set_is_closed(closed);
            let mut d = Drawing::new();
            let n = if crate::lab::is_large() { crate::big::size(r, 3000) } else { r.below(6) };
            for _ in 0..n {
                let mut v = Vertex::new(pt2(r));
                let mut w = Vertex::new(f32p(&v.location));
                if r.chance(1, 2) {
                    v.starting_width = if r.chance(1, 3) { 0.0 } else { num(r) };
                    v.ending_width = if r.chance(1, 3) { 0.0 } else { num(r) };
                    w.starting_width = f(v.starting_width);
                    w.ending_width = f(v.ending_width);
                }
                if r.chance(1, 2) { v.bulge = num(r); w.bulge = f(v.bulge); }
                a.add_vertex(&mut d, v);
                b.add_vertex(&mut d, w);
            }
            (EntityType::Polyline(a), EntityType::Polyline(b))
        }
    };
    let (mut a, mut b) = (Entity::new(a), Entity::new(b));
    a.common.layer = layer(r);
    b.common.layer.clone_from(&a.common.layer);
    a.common.color = color(r);
    b.common.color = a.common.color.clone();
    (a, b)
}
/// as JSON, without handles
fn bare(es: &[Entity]) -> Value {
    let mut v = jv(&es.to_vec());
    fn go(v: &mut Value) {
        match v {
            Value::Object(m) => for (k, x) in m.iter_mut() {
                if k.ends_with("handle") { *x = Value::Null } else if k.ends_with("_and_handles") {
                    if let Value::Array(a) = x { for e in a { e[1] = Value::Null; go(&mut e[0]); } }
                } else { go(x) }
            },
            Value::Array(a) => a.iter_mut().for_each(go),
            _ => (),
        }
    }
    go(&mut v);
    v
}
fn compare(c: &mut Case, what: &str, bytes: &[u8], want: &[Entity], base: Option<Point>) {
    let d = match guard(|| Drawing::load(&mut &bytes[..])) {
        Err(p) => { c.attach("file.dxb", bytes); c.fail(format!("{}:{}", what, panic_sig(&p)), p); return; }
        Ok(Err(e)) => { c.attach("file.dxb", bytes); c.fail(format!("{}:rejected", what), format!("{:?}", e)); return; }
        Ok(Ok(d)) => d,
    };
    c.count(&format!("{} entities", what), want.len() as u64);
    let got: Vec<Entity> = match &base {
        None => d.entities().cloned().collect(),
        Some(p) => {
            let bs: Vec<&Block> = d.blocks().collect();
            if bs.len() != 1 || d.entities().count() != 0 {
                c.attach("file.dxb", bytes);
                c.fail(format!("{}:block", what), format!("{} blocks, {} loose entities", bs.len(), d.entities().count()));
                return;
            }
            if bs[0].base_point != *p {
                c.attach("file.dxb", bytes);
                c.fail(format!("{}:base point", what), format!("{:?} instead of {:?}", bs[0].base_point, p));
            }
            bs[0].entities.clone()
        }
    };
    let (x, y) = (bare(want), bare(&got));
    let ds = same(&x, &y, true);
    if !ds.is_empty() {
        c.attach("file.dxb", bytes);
        c.fail(format!("{}:{}", what, place_sig(&ds[0])), report(&x, &y, &ds));
    }
    // handles are the drawing's own
    let mut hs: Vec<u64> = got.iter().map(|e| e.common.handle.0).collect();
    if base.is_none() {
        let n = hs.len();
        hs.sort();
        hs.dedup();
        if hs.len() != n || hs.first() == Some(&0) { c.fail(format!("{}:handles", what), format!("{:?}", hs)); }
    }
    // every layer named is there
    if base.is_none() {
        for e in want { if !d.layers().any(|l| l.name == e.common.layer) { c.fail(format!("{}:layer", what), format!("{:?} is missing", e.common.layer)); break; } }
    }
}
fn trip_case(c: &mut Case) {
    let r = &mut c.rng;
    let mut d = Drawing::new();
    let n = if crate::lab::is_large() { if r.chance(1, 2) { 1 + r.below(12) } else { crate::big::size(r, 400) } } else { r.below(12) };
    let mut want = vec![];
    let mut all = vec![];
    let lay = layer(r);
    let stick = r.chance(1, 2);
    for _ in 0..n {
        let (mut a, mut b) = shape(r);
        if stick { a.common.layer.clone_from(&lay); b.common.layer.clone_from(&lay); }
        all.push(a);
        want.push(b);
        if r.chance(1, 5) {
            // nothing DXB can hold
            let mut t = Entity::new(match r.below(3) { 0 => EntityType::Text(Default::default()), 1 => EntityType::Ellipse(Default::default()), _ => EntityType::LwPolyline(Default::default()) });
            t.common.layer = layer(r);
            t.common.color = color(r);
            all.push(t);
        }
    }
    let block = r.chance(1, 3);
    let mut base = None;
    if block {
        let p = pt2(r);
        let mut b = Block { name: "B".into(), base_point: p.clone(), ..Default::default() };
        b.entities = all;
        b.handle = Handle(0);
        d.add_block(b);
        base = Some(f32p(&p));
        // the first one counts
        if r.chance(1, 2) { d.add_block(Block { name: "C".into(), base_point: pt3(r), entities: vec![shape(r).0], ..Default::default() }); }
    } else {
        for e in all { d.add_entity(e); }
        if d.entities().count() == 0 { d.add_entity(Entity::new(EntityType::Text(Default::default()))); }
        if r.chance(1, 3) { d.add_block(Block { name: "C".into(), base_point: pt3(r), entities: vec![shape(r).0], ..Default::default() }); }
    }
    let mut o = vec![];
    if let Err(e) = d.save_dxb(&mut o) { c.fail("save", format!("{:?}", e)); return; }
    c.eval(&o);
    c.count(if block { "blocks" } else { "loose" }, 1);
    compare(c, "trip", &o, &want, base);
    // saving what was loaded writes the same
    if let Ok(e) = Drawing::load(&mut &o[..]) {
        let mut q = vec![];
        if e.save_dxb(&mut q).is_ok() && q != o && n > 0 && want.len() == d.entities().count() {
            c.attach("file.dxb", &o);
            c.fail("resave", "loading and saving changes the bytes".to_string());
        }
    }
}
/// a record stream with what it stands for
struct Enc {
    b: Vec<u8>,
    int: bool,
    scale: f64,
    layer: String,
    color: Color,
    line: Point,
    t3: Point,
    t4: Point,
    out: Vec<Entity>,
    /// offsets of the record types, and whether the stream may be cut there
    marks: Vec<usize>,
}
impl Enc {
    fn w(&mut self, x: i16) { self.b.extend(x.to_le_bytes()) }
    fn n(&mut self, r: &mut Rng) -> f64 {
        if self.int {
            let x: i16 = match r.below(4) { 0 => *r.pick(&[0, 1, -1, i16::MAX, i16::MIN]), _ => r.next() as i16 >> r.below(14) };
            self.w(x);
            f64::from(x) * self.scale
        } else {
            let x = num(r) as f32;
            self.b.extend(x.to_le_bytes());
            f64::from(x)
        }
    }
    fn long(&mut self, r: &mut Rng, k: f64) -> f64 {
        if self.int {
            let x: i32 = match r.below(4) { 0 => *r.pick(&[0, 1, -1, i32::MAX, i32::MIN, 90_000_000]), _ => r.next() as i32 >> r.below(20) };
            self.b.extend(x.to_le_bytes());
            if k < 1.0 { f64::from(x) * self.scale / 1_000_000.0 } else { f64::from(x) * k * self.scale }
        } else {
            let x = num(r) as f32;
            self.b.extend(x.to_le_bytes());
            f64::from(x)
        }
    }
    fn p2(&mut self, r: &mut Rng) -> Point { let x = self.n(r); let y = self.n(r); Point::new(x, y, 0.0) }
    fn p3(&mut self, r: &mut Rng) -> Point { let x = self.n(r); let y = self.n(r); let z = self.n(r); Point::new(x, y, z) }
    fn op(&mut self, t: u8) { self.marks.push(self.b.len()); self.b.push(t) }
    fn put(&mut self, t: EntityType) {
        let mut e = Entity::new(t);
        e.common.layer.clone_from(&self.layer);
        e.common.color = self.color.clone();
        self.out.push(e);
    }
    fn step(&mut self, r: &mut Rng, d: &mut Drawing) -> &'static str {
        match r.below(18) {
            0 | 1 => { let t = *r.pick(&[1u8, 21]); self.op(t); let p = self.p3(r); let q = self.p3(r); self.line = q.clone(); self.put(EntityType::Line(Line::new(p, q))); "line" }
            2 => { self.op(2); let p = self.p2(r); self.put(EntityType::ModelPoint(ModelPoint::new(p))); "point" }
            3 => { self.op(3); let p = self.p2(r); let x = self.n(r); self.put(EntityType::Circle(Circle::new(p, x))); "circle" }
            4 => { self.op(8); let p = self.p2(r); let x = self.n(r); let s = self.long(r, 0.0); let e = self.long(r, 0.0); self.put(EntityType::Arc(Arc::new(p, x, s, e))); "arc" }
            5 | 6 => { self.op(9); let (p, q, s, t) = (self.p2(r), self.p2(r), self.p2(r), self.p2(r)); self.t3 = s.clone(); self.t4 = t.clone(); self.put(EntityType::Trace(Trace::new(p, q, s, t))); "trace" }
            7 => { self.op(11); let (p, q, s, t) = (self.p2(r), self.p2(r), self.p2(r), self.p2(r)); self.put(EntityType::Solid(Solid::new(p, q, s, t))); "solid" }
            8 => { self.op(22); let (p, q, s, t) = (self.p3(r), self.p3(r), self.p3(r), self.p3(r)); self.put(EntityType::Face3D(Face3D::new(p, q, s, t))); "face" }
            9 => { self.op(130); let q = self.p2(r); let l = Line::new(self.line.clone(), q.clone()); self.line = q; self.put(EntityType::Line(l)); "line extension" }
            10 => { self.op(137); let q = self.p3(r); let l = Line::new(self.line.clone(), q.clone()); self.line = q; self.put(EntityType::Line(l)); "3D line extension" }
            11 => { self.op(131); let (s, t) = (self.p2(r), self.p2(r)); let x = Trace::new(self.t3.clone(), self.t4.clone(), s.clone(), t.clone()); self.t3 = s; self.t4 = t; self.put(EntityType::Trace(x)); "trace extension" }
            12 | 13 => {
                self.op(19);
                // flags are integers like any other
                let closed = r.chance(1, 2);
                let raw: i16 = if closed { *r.pick(&[1, 2, 5]) } else { 0 };
                self.w(raw);
                let mut p = Polyline::default();
                p.set_is_closed((f64::from(raw) * self.scale) as i32 != 0);
                let (lay, col) = (self.layer.clone(), self.color.clone());
                for _ in 0..r.below(5) {
                    self.op(20);
                    let mut v = Vertex::new(self.p2(r));
                    if r.chance(1, 3) { self.op(134); v.starting_width = self.n(r); v.ending_width = self.n(r); }
                    if r.chance(1, 3) { self.op(133); v.bulge = self.long(r, 65536.0); }
                    if r.chance(1, 8) { self.op(134); v.starting_width = self.n(r); v.ending_width = self.n(r); }
                    p.add_vertex(d, v);
                    if r.chance(1, 8) { self.mode(r); }
                }
                self.op(17);
                let (l2, c2) = (std::mem::replace(&mut self.layer, lay), std::mem::replace(&mut self.color, col));
                self.put(EntityType::Polyline(p));
                self.layer = l2;
                self.color = c2;
                "polyline"
            }
            14 => { self.op(129); self.layer = layer(r); let l: Vec<u8> = self.layer.chars().map(|c| c as u8).collect(); self.b.extend(l); self.b.push(0); "layer" }
            15 => { self.op(136); let x = color_raw(r); self.w(x); self.color = raw_color((f64::from(x) * self.scale) as i32 as i16); "color" }
            16 => { self.op(128); self.scale = *r.pick(&[1.0, 1.0, 0.5, 2.0, 0.01, -3.0, 1000.0]); let b = self.scale.to_le_bytes(); self.b.extend(b); "scale" }
            _ => self.mode(r),
        }
    }
    fn mode(&mut self, r: &mut Rng) -> &'static str {
        self.op(135);
        let x: i16 = if r.chance(1, 2) { 0 } else { 1 };
        self.w(x);
        self.int = (f64::from(x) * self.scale) as i32 == 0;
        "number mode"
    }
}
/// a record stream and the offsets of its record types
pub fn record_stream(r: &mut Rng, n: usize) -> (Vec<u8>, Vec<usize>) {
    let mut d = Drawing::new();
    let o = Point::origin;
    let mut e = Enc { b: b"AutoCAD DXB 1.0\r\n\x1a\x00".to_vec(), int: true, scale: 1.0, layer: "0".into(), color: Color::by_layer(), line: o(), t3: o(), t4: o(), out: vec![], marks: vec![] };
    if r.chance(1, 4) {
        if r.chance(1, 2) { e.mode(r); }
        e.op(132);
        e.p2(r);
    }
    for _ in 0..n {
        e.step(r, &mut d);
    }
    e.marks.push(e.b.len());
    e.b.push(0);
    (e.b, e.marks)
}
fn decode_case(c: &mut Case) {
    let mut d = Drawing::new();
    let mut r = c.rng.clone();
    let o = Point::origin;
    let mut e = Enc { b: b"AutoCAD DXB 1.0\r\n\x1a\x00".to_vec(), int: true, scale: 1.0, layer: "0".into(), color: Color::by_layer(), line: o(), t3: o(), t4: o(), out: vec![], marks: vec![] };
    let mut base = None;
    if r.chance(1, 4) {
        if r.chance(1, 2) { e.mode(&mut r); }
        e.op(132);
        base = Some(e.p2(&mut r));
    }
    for _ in 0..if crate::lab::is_large() { crate::big::size(&mut r, 3000) } else { r.below(25) } {
        let k = e.step(&mut r, &mut d);
        c.count(&format!("record {}", k), 1);
    }
    e.marks.push(e.b.len());
    e.b.push(0);
    c.rng = r;
    c.eval(&e.b);
    compare(c, "decode", &e.b, &e.out, base.clone());
    // damage
    let start = 17;
    for _ in 0..6 {
        let r = &mut c.rng;
        let mut b = e.b.clone();
        let what = match r.below(7) {
            0 | 1 => { let k = start + r.below(b.len() - start); b.truncate(k); "cut" }
            2 => { let k = *r.pick(&e.marks); b[k] = *r.pick(&[4u8, 5, 6, 7, 10, 12, 16, 18, 23, 24, 100, 127, 138, 200, 255]); "unknown record" }
            3 => { let k = 17 + r.below(2); b[k] ^= 1 + r.below(255) as u8; "signature" }
            4 => {
                // only vertices have a bulge or a width: at the start, there is none
                let k = e.marks[0];
                let ins: Vec<u8> = if r.chance(1, 2) { vec![133, 0, 0, 0, 0] } else { vec![134, 0, 0, 0, 0] };
                let ins = if r.chance(1, 2) { let mut x = vec![2, 1, 0, 1, 0]; x.extend(ins); x } else { ins };
                b.splice(k..k, ins);
                "vertex data without vertex"
            }
            5 => { let k = e.marks[0]; b.splice(k..k, vec![2, 1, 0, 1, 0, 132, 0, 0, 0, 0]); "base point after an entity" }
            _ => { let k = e.marks[0]; b.splice(k..k, vec![132, 0, 0, 0, 0, 132, 0, 0, 0, 0]); "two base points" }
        };
        c.count(&format!("damage {}", what), 1);
        c.eval(&b);
        match guard(|| Drawing::load(&mut &b[..]).map(|d| d.entities().count())) {
            Err(p) => { c.attach("file.dxb", &b); c.fail(format!("damaged:{}", panic_sig(&p)), format!("{}: {}", what, p)); }
            Ok(Ok(n)) => { c.attach("file.dxb", &b); c.fail(format!("accepted:{}", what), format!("a file with {} was accepted with {} entities", what, n)); }
            Ok(Err(_)) => (),
        }
    }
    let _ = SENTINEL;
}
pub fn c09(t: bool) -> Check {
    let m = if t { 15 } else { 1 };
    Check {
        id: "C09",
        level: "exploration",
        rule: "one evaluation = one DXB file written by the library or by the reference encoder (or a damaged one) and loaded; distinct by content",
        families: vec![family("trip", 60000 * m, trip_case), family("decode", 60000 * m, decode_case), family("large trip", 60 * m, |c| crate::lab::large(|| trip_case(c))), family("large decode", 200 * m, |c| crate::lab::large(|| decode_case(c)))],
        cpu_limit: 60,
        assumptions: vec!["layer names are Latin-1 without NUL, the only ones DXB can hold".into(), "the reference encoder scales integers, angles and bulges of integer mode as the library documents by its reader: value x scale, angle x scale / 1e6, bulge x 65536 x scale".into()],
    }
}
