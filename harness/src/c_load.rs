//! C01: loading anything at all returns, within bounds.
use crate::fw::*;
use crate::lab::*;
use crate::mini::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::types::*;
use dxf::Drawing;
use encoding_rs::*;
use serde_json::json;

pub fn encodings() -> Vec<&'static Encoding> {
    vec![WINDOWS_1252, UTF_8, SHIFT_JIS, GBK, GB18030, BIG5, EUC_KR, EUC_JP, ISO_2022_JP, UTF_16LE, UTF_16BE, KOI8_R, WINDOWS_1251, WINDOWS_1253, MACINTOSH, X_USER_DEFINED, REPLACEMENT, WINDOWS_874, ISO_8859_8_I]
}
/// load under the monitors; the outcome is only counted
fn observe(c: &mut Case, b: &[u8], enc: &'static Encoding, what: &str) {
    if std::env::var("VERIF_DUMP").is_ok() { let _ = std::fs::write("/tmp/last.dxf", b); }
    let limit = MEM_BASE + MEM_PER_BYTE * b.len() as i64;
    let t0 = thread_cpu();
    mem_start(limit);
    let r = guard(|| {
        let mut rd = b;
        match Drawing::load_with_encoding(&mut rd, enc) {
            Ok(d) => (true, (d.entities().count() + d.objects().count() + d.layers().count() + d.blocks().count()) as u64),
            Err(e) => { let _ = e.to_string(); let _ = format!("{:?}", e); (false, 0) }
        }
    });
    let peak = mem_peak();
    let us = (thread_cpu() - t0) / 1000;
    c.max("cpu_us", us);
    if b.len() >= 50_000 {
        c.max("cpu_ns_per_byte", us * 1000 / b.len() as u64);
        if us > CPU_BASE_US + CPU_NS_PER_BYTE * b.len() as u64 / 1000 {
            c.attach("input.dxf", b);
            c.fail(format!("time:{}", what), format!("{}: {} bytes took {} ms", what, b.len(), us / 1000));
        }
    }
    c.eval([b, enc.name().as_bytes()].concat());
    c.max("peak_bytes", peak as u64);
    if b.len() >= 2000 {
        c.max("peak_per_input_byte", (peak / b.len() as i64) as u64);
    }
    c.max("input_bytes", b.len() as u64);
    match r {
        Ok((true, n)) => { c.count("loaded", 1); c.count("items_loaded", n); }
        Ok((false, _)) => c.count("rejected", 1),
        Err(m) => {
            c.attach("input.dxf", b);
            c.fail(panic_sig(&m), format!("{} ({} bytes, {}): panicked: {}", what, b.len(), enc.name(), m));
        }
    }
}
// about ten times what the tree this was written on needs
const CPU_BASE_US: u64 = 2_000_000;
const CPU_NS_PER_BYTE: u64 = 5_000;
const MEM_BASE: i64 = 48 << 20;
const MEM_PER_BYTE: i64 = 4096;

fn enc(r: &mut Rng) -> &'static Encoding {
    if r.chance(1, 2) { WINDOWS_1252 } else { *r.pick(&encodings()) }
}
fn bytes_case(c: &mut Case) {
    for _ in 0..10 {
        let r = &mut c.rng;
        let n = *r.pick(&[0usize, 1, 2, 3, 5, 8, 20, 60, 200, 1000]);
        let n = r.below(n + 1);
        let mut b: Vec<u8> = match r.below(9) {
            0 => vec![],
            1 => SENTINEL.to_vec(),
            2 => b"AutoCAD DXB 1.0\r\n\x1a\x00".to_vec(),
            3 => b"0\nSECTION\n2\nENTITIES\n".to_vec(),
            4 => [SENTINEL, b"\x00SECTION\x00\x02ENTITIES\x00\x00LINE\x00"].concat(),
            5 => [SENTINEL, b"\x00\x00SECTION\x00\x02\x00OBJECTS\x00\x00\x00XRECORD\x00"].concat(),
            6 => vec![0xEF, 0xBB, 0xBF],
            7 => b"AutoCAD Binary DXF\r\n".to_vec(),
            _ => b"  0\r\nSECTION\r\n  2\r\nHEADER\r\n  9\r\n$ACADVER\r\n".to_vec(),
        };
        let k = r.below(b.len() + 1);
        if r.chance(1, 6) { b.truncate(k); }
        match r.below(3) {
            0 => b.extend(r.bytes(n)),
            1 => b.extend((0..n).map(|_| *r.pick(b"0123456789\n\n\r -.{}ABE^"))),
            _ => for _ in 0..n / 4 { b.extend(format!("{}\n{}\n", r.below(1100) as i64 - 20, r.below(300)).bytes()) },
        }
        let e = enc(r);
        observe(c, &b, e, "random bytes");
    }
}
fn sample(r: &mut Rng) -> File {
    let d = any_drawing(r);
    file_of(&d, Fmt::Binary)
}
fn pairs_case(c: &mut Case) {
    let f = sample(&mut c.rng);
    let g = sample(&mut c.rng);
    for _ in 0..6 {
        let r = &mut c.rng;
        let mut p = f.pairs.clone();
        mutate(&mut p, &g.pairs, r);
        let v = *r.pick(VERSIONS);
        let fmt = any_fmt(r);
        let e = enc(r);
        observe(c, &render(&p, fmt, v), e, "mutated file");
    }
}
fn dxb_file(r: &mut Rng) -> Vec<u8> {
    let mut d = any_drawing(r);
    for k in ["Line", "Arc", "Circle", "Trace", "Solid", "Face3D", "ModelPoint", "Polyline"] {
        if r.chance(2, 3) {
            d.add_entity(crate::gen::to_entity(&crate::gen::entity_json(k, 12, r, 3, 5)));
        }
    }
    let mut o = vec![];
    d.save_dxb(&mut o).unwrap_or_else(|e| panic!("save_dxb failed: {}", e));
    o
}
fn raw_case(c: &mut Case) {
    let r = &mut c.rng;
    let f = match r.below(3) { 0 => file_of(&any_drawing(r), Fmt::Ascii).bytes, 1 => sample(r).bytes, _ => dxb_file(r) };
    let g = if r.chance(1, 2) { sample(r).bytes } else { f.clone() };
    for _ in 0..6 {
        let r = &mut c.rng;
        let mut b = f.clone();
        mutate_bytes(&mut b, &g, r);
        let e = enc(r);
        observe(c, &b, e, "damaged bytes");
    }
}
fn grammar_case(c: &mut Case) {
    for _ in 0..8 {
        let r = &mut c.rng;
        let p = grammar(r);
        let v = *r.pick(VERSIONS);
        let fmt = any_fmt(r);
        let e = enc(r);
        observe(c, &render(&p, fmt, v), e, "grammar stream");
    }
}
/// complete records whose declared counts and other integers are anything
fn counts_case(c: &mut Case) {
    let f = sample(&mut c.rng);
    for _ in 0..4 {
        let r = &mut c.rng;
        let mut p = f.pairs.clone();
        let start = p.iter().position(|x| x.code == 2 && x.str() == "TABLES").unwrap_or(0);
        let den = *r.pick(&[1u32, 2, 4]);
        for x in &mut p[start..] {
            if let Val::I(v) = &mut x.val {
                if r.chance(1, den) {
                    let big = match vtype(x.code) { Some(VT::I32) => i32::MAX as i64, Some(VT::I64) => i64::MAX, _ => 32767 };
                    *v = *r.pick(&[0, 0, 1, 2, -1, big, -big - 1, big / 2, 65535 & big, 30000]);
                    if vtype(x.code) == Some(VT::Bool) { *v &= 1; }
                }
            }
        }
        let v = *r.pick(VERSIONS);
        let fmt = any_fmt(r);
        observe(c, &render(&p, fmt, v), WINDOWS_1252, "hostile counts");
    }
}
/// a few pairs of a record, or whole records, repeated thousands of times in place
fn repeat_case(c: &mut Case, total: usize) {
    let f = sample(&mut c.rng);
    let r = &mut c.rng;
    let p = &f.pairs;
    let zeros: Vec<usize> = (0..p.len()).filter(|i| p[*i].code == 0).collect();
    if zeros.len() < 3 {
        return;
    }
    let z = r.below(zeros.len() - 1);
    let (a, b) = if r.chance(1, 4) {
        (zeros[z], zeros[(z + 1 + r.below(3)).min(zeros.len() - 1)])
    } else {
        let (lo, hi) = (zeros[z] + 1, zeros[z + 1]);
        if lo >= hi {
            return;
        }
        let a = lo + r.below(hi - lo);
        (a, (a + 1 + r.below(6)).min(hi))
    };
    if a >= b {
        return;
    }
    let k = total / (b - a);
    let mut q = p[..a].to_vec();
    for _ in 0..k {
        q.extend_from_slice(&p[a..b]);
    }
    q.extend_from_slice(&p[b..]);
    let v = *r.pick(VERSIONS);
    let fmt = any_fmt(r);
    let what = p[zeros[z]].str().to_string();
    observe(c, &render(&q, fmt, v), WINDOWS_1252, "repeated pairs");
    c.sample = Some(json!({"record": what, "from": a, "to": b, "times": k}));
}
/// DXB records with hostile operands
pub fn dxb_stream(r: &mut Rng) -> Vec<u8> {
    let mut b = b"AutoCAD DXB 1.0\r\n\x1a\x00".to_vec();
    for _ in 0..r.below(40) {
        let t = *r.pick(&[1u8, 2, 3, 8, 9, 11, 17, 17, 19, 20, 20, 21, 22, 24, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137]);
        if r.chance(1, 30) { let x = r.next() as u8; b.push(x); } else { b.push(t); }
        let n = r.below(30);
        match r.below(3) {
            0 => b.extend(r.bytes(n)),
            1 => b.extend(vec![0; n]),
            _ => { let x = *r.pick(&[0xffu8, 0x7f, 0x80, 1]); b.extend(vec![x; n]) }
        }
    }
    if r.chance(2, 3) { b.push(0); }
    b
}
fn dxb_case(c: &mut Case) {
    for _ in 0..12 {
        let b = dxb_stream(&mut c.rng);
        observe(c, &b, WINDOWS_1252, "DXB records");
    }
}
/// structures that are expensive or deep, at growing sizes
const HOSTILE: usize = 42;
fn hostile_case(c: &mut Case, which: usize, size: usize) {
    let s = |c: i32, v: &str| Pair::s(c, v);
    let mut p: Vec<Pair> = vec![];
    let open = |p: &mut Vec<Pair>, n: &str| { p.push(Pair::s(0, "SECTION")); p.push(Pair::s(2, n)); };
    let close = |p: &mut Vec<Pair>| { p.push(Pair::s(0, "ENDSEC")); p.push(Pair::s(0, "EOF")); };
    let n = size;
    let what;
    match which {
        0 => { what = "nested extension groups"; open(&mut p, "ENTITIES"); p.push(s(0, "LINE")); for _ in 0..n { p.push(s(102, "{A")); } for _ in 0..n { p.push(s(102, "}")); } close(&mut p); }
        1 => { what = "unclosed extension groups"; open(&mut p, "OBJECTS"); p.push(s(0, "ACDBPLACEHOLDER")); for _ in 0..n { p.push(s(102, "{A")); } close(&mut p); }
        2 => { what = "nested xdata groups"; open(&mut p, "ENTITIES"); p.push(s(0, "LINE")); p.push(s(1001, "A")); for _ in 0..n { p.push(s(1002, "{")); } for _ in 0..n { p.push(s(1002, "}")); } close(&mut p); }
        3 => { what = "unclosed xdata groups"; open(&mut p, "TABLES"); p.push(s(0, "TABLE")); p.push(s(2, "LAYER")); p.push(s(0, "LAYER")); p.push(s(1001, "A")); for _ in 0..n { p.push(s(1002, "{")); } close(&mut p); }
        4 => { what = "blocks without end"; open(&mut p, "BLOCKS"); for _ in 0..n { p.push(s(0, "BLOCK")); } close(&mut p); }
        5 => { what = "block entities without end"; open(&mut p, "BLOCKS"); p.push(s(0, "BLOCK")); for _ in 0..n { p.push(s(0, "LINE")); } }
        6 => { what = "many minimal entities"; open(&mut p, "ENTITIES"); for _ in 0..n { p.push(s(0, "LINE")); } close(&mut p); }
        7 => { what = "many attribute definitions"; open(&mut p, "ENTITIES"); for _ in 0..n { p.push(s(0, "ATTDEF")); } close(&mut p); }
        8 => { what = "polyline with many vertices, no seqend"; open(&mut p, "ENTITIES"); p.push(s(0, "POLYLINE")); for _ in 0..n { p.push(s(0, "VERTEX")); } close(&mut p); }
        9 => { what = "insert with many attributes"; open(&mut p, "ENTITIES"); p.push(s(0, "INSERT")); p.push(Pair::i(66, 1)); for _ in 0..n { p.push(s(0, "ATTRIB")); } close(&mut p); }
        10 => { what = "many unknown entities"; open(&mut p, "ENTITIES"); for _ in 0..n { p.push(s(0, "NOSUCHTHING")); } close(&mut p); }
        11 => { what = "many unknown objects"; open(&mut p, "OBJECTS"); for _ in 0..n { p.push(s(0, "NOSUCHTHING")); } close(&mut p); }
        12 => { what = "many sections"; for _ in 0..n { open(&mut p, "NOSUCH"); p.push(s(0, "ENDSEC")); } p.push(s(0, "EOF")); }
        13 => { what = "section without end"; open(&mut p, "NOSUCH"); for _ in 0..n { p.push(s(0, "X")); } }
        14 => { what = "table without end"; open(&mut p, "TABLES"); p.push(s(0, "TABLE")); p.push(s(2, "LAYER")); for _ in 0..n { p.push(s(70, "1")); } p = p.into_iter().map(|x| if x.code == 70 { Pair::i(70, 1) } else { x }).collect(); }
        15 => { what = "unknown table without end"; open(&mut p, "TABLES"); p.push(s(0, "TABLE")); p.push(s(2, "NOSUCH")); for _ in 0..n { p.push(s(0, "X")); } }
        16 => { what = "data table with a huge declared size"; open(&mut p, "OBJECTS"); p.push(s(0, "DATATABLE")); p.push(Pair::i(70, 2)); p.push(Pair::i(90, i32::MAX as i64)); p.push(Pair::i(91, i32::MAX as i64)); p.push(s(1, "t")); for _ in 0..n.min(2000) { p.push(Pair::i(92, 1)); p.push(s(2, "c")); p.push(Pair::i(71, 1)); } close(&mut p); }
        17 => { what = "huge declared counts"; open(&mut p, "ENTITIES"); for e in ["LWPOLYLINE", "SPLINE", "LEADER", "MLINE", "IMAGE", "WIPEOUT", "HATCH", "SECTION", "PDFUNDERLAY"] { p.push(s(0, e)); for c in [70, 71, 72, 73, 74, 75, 76, 77, 78] { p.push(Pair::i(c, 32767)); } for c in [90, 91, 92, 93, 94, 95] { p.push(Pair::i(c, i32::MAX as i64)); } for _ in 0..n.min(2000) { p.push(Pair::f(10, 1.0)); p.push(Pair::f(20, 1.0)); p.push(Pair::f(40, 1.0)); } } close(&mut p); }
        18 => { what = "huge declared counts in objects"; open(&mut p, "OBJECTS"); for e in ["GEODATA", "SUNSTUDY", "LIGHTLIST", "SECTION", "SECTIONSETTINGS", "SPATIAL_FILTER", "SORTENTSTABLE", "TABLESTYLE", "VBA_PROJECT", "XRECORD", "MLINESTYLE", "FIELD", "MATERIAL", "DICTIONARY", "LAYER_INDEX", "IDBUFFER", "SECTIONMANAGER"] { p.push(s(0, e)); for _ in 0..2 { for c in [70, 71, 72, 73, 74, 75] { p.push(Pair::i(c, 32767)); } for c in [90, 91, 92, 93, 94, 95, 96, 97] { p.push(Pair::i(c, i32::MAX as i64)); } for c in [90, 91, 92, 93, 94, 95] { p.push(Pair::i(c, -1)); } } for _ in 0..n.min(500) { p.push(s(1, "x")); p.push(Pair::i(290, 1)); p.push(s(330, "5")); } } close(&mut p); }
        19 => { what = "many layers"; open(&mut p, "TABLES"); p.push(s(0, "TABLE")); p.push(s(2, "LAYER")); for i in 0..n { p.push(s(0, "LAYER")); p.push(s(2, &format!("L{}", i % 50))); } p.push(s(0, "ENDTAB")); close(&mut p); }
        20 => { what = "long strings"; open(&mut p, "ENTITIES"); p.push(s(0, "TEXT")); p.push(s(1, &"\\U+00e9^J^ ".repeat(n))); p.push(s(0, "MTEXT")); for _ in 0..n.min(500) { p.push(s(3, &"y".repeat(250))); } close(&mut p); }
        21 => { what = "many header variables"; open(&mut p, "HEADER"); for _ in 0..n { p.push(s(9, "$NOSUCH")); p.push(Pair::i(70, 1)); } close(&mut p); }
        22 => { what = "many classes"; open(&mut p, "CLASSES"); for _ in 0..n { p.push(s(0, "CLASS")); } close(&mut p); }
        23 => { what = "thumbnail with huge dimensions"; open(&mut p, "THUMBNAILIMAGE"); p.push(Pair::i(90, 40)); let mut b = bmp(1, 1, 24, &mut c.rng); b[4..8].copy_from_slice(&i32::MAX.to_le_bytes()); b[8..12].copy_from_slice(&(n as i32).to_le_bytes()); p.push(Pair { code: 310, val: Val::B(b) }); close(&mut p); }
        24 => { what = "many thumbnail chunks"; open(&mut p, "THUMBNAILIMAGE"); p.push(Pair::i(90, -1)); for _ in 0..n { p.push(Pair { code: 310, val: Val::B(vec![0; 10]) }); } close(&mut p); }
        25 => { what = "attdef and mtext chains"; open(&mut p, "ENTITIES"); for _ in 0..n { p.push(s(0, "ATTDEF")); p.push(s(0, "MTEXT")); } close(&mut p); }
        26 => { what = "blank file"; p.clear(); let b = vec![b'\n'; n]; observe(c, &b, WINDOWS_1252, what); let b = vec![b' '; n]; observe(c, &b, WINDOWS_1252, what); return; }
        27 => { what = "many comments"; for _ in 0..n { p.push(s(999, "c")); } open(&mut p, "ENTITIES"); close(&mut p); }
        28 => { what = "many lw vertices"; open(&mut p, "ENTITIES"); p.push(s(0, "LWPOLYLINE")); for _ in 0..n { p.push(Pair::f(10, 1.0)); } close(&mut p); }
        29 => { what = "many xdata items"; open(&mut p, "ENTITIES"); p.push(s(0, "LINE")); p.push(s(1001, "A")); for _ in 0..n { p.push(s(1000, "x")); } close(&mut p); }
        30 => { what = "many xdata applications"; open(&mut p, "ENTITIES"); p.push(s(0, "LINE")); for _ in 0..n { p.push(s(1001, "A")); } close(&mut p); }
        31 => { what = "many items in an xdata list"; open(&mut p, "OBJECTS"); p.push(s(0, "ACDBPLACEHOLDER")); p.push(s(1001, "A")); p.push(s(1002, "{")); for _ in 0..n { p.push(s(1000, "x")); } p.push(s(1002, "}")); close(&mut p); }
        32 => { what = "many items in an extension group"; open(&mut p, "ENTITIES"); p.push(s(0, "LINE")); p.push(s(102, "{A")); for _ in 0..n { p.push(s(1, "x")); } p.push(s(102, "}")); close(&mut p); }
        33 => { what = "many extension groups"; open(&mut p, "TABLES"); p.push(s(0, "TABLE")); p.push(s(2, "LAYER")); p.push(s(0, "LAYER")); for _ in 0..n { p.push(s(102, "{A")); p.push(s(102, "}")); } p.push(s(0, "ENDTAB")); close(&mut p); }
        34 => { what = "many pairs in an xrecord"; open(&mut p, "OBJECTS"); p.push(s(0, "XRECORD")); p.push(s(100, "AcDbXrecord")); for _ in 0..n { p.push(s(1, "x")); } close(&mut p); }
        35 => { what = "many dictionary entries"; open(&mut p, "OBJECTS"); p.push(s(0, "DICTIONARY")); for i in 0..n { p.push(s(3, &format!("K{}", i))); p.push(s(350, "A")); } close(&mut p); }
        36 => { what = "many handles that clash"; open(&mut p, "ENTITIES"); for _ in 0..n { p.push(s(0, "LINE")); p.push(s(5, "1F")); } close(&mut p); }
        37 => { what = "many entities on layers of their own"; open(&mut p, "ENTITIES"); for i in 0..n / 8 { p.push(s(0, "LINE")); p.push(s(8, &format!("L{}", i))); } close(&mut p); }
        38 => { what = "many empty tables"; open(&mut p, "TABLES"); for _ in 0..n { p.push(s(0, "TABLE")); p.push(s(2, "LAYER")); p.push(s(0, "ENDTAB")); } close(&mut p); }
        39 => { what = "many empty blocks"; open(&mut p, "BLOCKS"); for _ in 0..n / 4 { p.push(s(0, "BLOCK")); p.push(s(0, "ENDBLK")); } close(&mut p); }
        40 => { what = "many entities and vertices in DXB"; let mut b = b"AutoCAD DXB 1.0\r\n\x1a\x00".to_vec(); for _ in 0..n / 2 { b.push(2); b.extend([0; 4]); } b.push(19); b.extend([0; 2]); for _ in 0..n { b.push(20); b.extend([0; 4]); } b.push(17); b.push(0); observe(c, &b, WINDOWS_1252, what); p.push(s(0, "EOF")); }
        _ => { what = "section settings without end"; open(&mut p, "OBJECTS"); p.push(s(0, "SECTIONSETTINGS")); p.push(Pair::i(90, 1)); p.push(Pair::i(91, i32::MAX as i64)); for _ in 0..n { p.push(s(1, "SectionTypeSettings")); p.push(Pair::i(90, 1)); } close(&mut p); }
    }
    let wide = c.rng.chance(1, 2);
    observe(c, &to_ascii(&p), WINDOWS_1252, what);
    let b = to_binary(&p.iter().map(|x| match &x.val { Val::B(b) if b.len() > 255 => Pair { code: x.code, val: Val::B(b[..255].to_vec()) }, _ => x.clone() }).collect::<Vec<_>>(), wide);
    observe(c, &b, UTF_8, what);
    c.sample = Some(json!({"structure": what, "size": n}));
}
pub fn c01(t: bool) -> Check {
    let m = if t { 12 } else { 1 };
    let sizes: Vec<usize> = if t { vec![1, 2, 10, 127, 128, 129, 1000, 20000, 150000] } else { vec![1, 2, 130, 3000, 120000] };
    let ns = sizes.len() as u64;
    Check {
        id: "C01",
        level: "exploration",
        rule: "one evaluation = one byte sequence loaded with one encoding under the panic, stack, CPU-time and allocation monitors; distinct by bytes and encoding",
        families: vec![
            family("bytes", 5000 * m, bytes_case),
            family("pairs", 12000 * m, pairs_case),
            family("raw", 8000 * m, raw_case),
            family("grammar", 14000 * m, grammar_case),
            family("counts", 5000 * m, counts_case),
            family("dxb", 1500 * m, dxb_case),
            family("repeat", 160 * m, |c| repeat_case(c, 40_000)),
            family("hostile", HOSTILE as u64 * ns, move |c| {
                let (w, k) = ((c.idx % HOSTILE as u64) as usize, (c.idx / HOSTILE as u64) as usize);
                hostile_case(c, w, sizes[k]);
            }),
        ],
        cpu_limit: 60,
        assumptions: vec![format!("bounds: {} MB plus {} bytes per input byte of live heap, 60 s of CPU time, 2 MB of stack", MEM_BASE >> 20, MEM_PER_BYTE)],
    }
}
