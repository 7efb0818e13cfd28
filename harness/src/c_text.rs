//! C14: malformed files are rejected at the right place; C15: unknown content is skipped;
//! C18: the layout of the text does not matter.
use crate::c_io::outcome;
use crate::fw::*;
use crate::gen::*;
use crate::lab::*;
use crate::mini::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::schema::*;
use crate::tab::*;
use crate::types::VERSIONS;
use dxf::enums::AcadVersion;
use dxf::{Drawing, DxfError};

/// where a pair stands
#[derive(Clone, Debug, Default)]
pub struct Pos {
    pub sec: String,
    /// the record (value of the last 0 pair) the pair belongs to
    pub rec: String,
    pub rec_at: usize,
    pub table: String,
    pub ext: usize,
    /// after the first 1001 of the record
    pub xdata: bool,
    /// the 0/SECTION pair that opens a section (there also is an entity of that name)
    pub start: bool,
}
pub fn positions(ps: &[Pair]) -> Vec<Pos> {
    let mut v = Vec::with_capacity(ps.len());
    let mut p = Pos::default();
    for (i, x) in ps.iter().enumerate() {
        if x.code == 0 {
            p.rec = x.str().to_string();
            p.rec_at = i;
            p.ext = 0;
            p.xdata = false;
            p.start = x.str() == "SECTION" && p.sec.is_empty();
            match x.str() {
                "SECTION" if p.start => {
                    p.sec = ps.get(i + 1).map(|y| y.str().to_string()).unwrap_or_default();
                    p.table.clear()
                }
                "TABLE" if p.sec == "TABLES" => p.table = ps.get(i + 1).map(|y| y.str().to_string()).unwrap_or_default(),
                _ => (),
            }
        }
        if x.code == 1001 {
            p.xdata = true;
        }
        if x.code == 102 && p.rec != "XRECORD" && x.str().starts_with('{') {
            p.ext += 1;
        }
        v.push(p.clone());
        p.start = false;
        if x.code == 102 && p.rec != "XRECORD" && x.str() == "}" {
            p.ext = p.ext.saturating_sub(1);
        }
        if x.is(0, "ENDSEC") {
            p.sec.clear();
        }
        if x.is(0, "ENDTAB") {
            p.table.clear();
        }
    }
    v
}
pub fn load_dx(b: &[u8]) -> Result<Drawing, DxfError> {
    let mut r = b;
    Drawing::load(&mut r)
}
fn offset_of(e: &DxfError) -> Option<usize> {
    Some(match e {
        DxfError::ParseFloatError(_, o) | DxfError::ParseIntError(_, o) | DxfError::ParseError(o) | DxfError::UnexpectedCode(_, o)
        | DxfError::UnexpectedByte(_, o) | DxfError::UnexpectedEnumValue(o) | DxfError::ExpectedTableType(o) | DxfError::WrongValueType(o) => *o,
        DxfError::UnexpectedCodePair(p, _) => p.offset,
        _ => return None,
    })
}
fn ascii_lines(ps: &[Pair]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for p in ps {
        v.push(format!("{:>3}", p.code).into_bytes());
        v.push(p.text().into_bytes());
    }
    v
}
fn join(ls: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![];
    for l in ls {
        o.extend(l);
        o.extend(b"\r\n");
    }
    o
}
fn sample_file(r: &mut Rng) -> (Drawing, Vec<Pair>) {
    let mut d = any_drawing(r);
    if d.header.version >= AcadVersion::R2000 && r.chance(1, 3) {
        d.thumbnail = Some(image::DynamicImage::ImageRgb8(image::RgbImage::from_fn(7, 5, |x, y| image::Rgb([x as u8 * 30, y as u8 * 40, 9]))));
    }
    let ps = file_of(&d, Fmt::Ascii).pairs;
    (d, ps)
}
enum Want {
    Any,
    /// an error that carries one of these positions
    At(usize, usize),
    /// one of these positions if it carries any
    AtIfAny(usize, usize),
    Malformed,
}
fn judge(c: &mut Case, what: &str, b: &[u8], r: Result<Drawing, DxfError>, want: Want, detail: String) {
    c.eval(format!("{} {:x}", what, crate::rng::fnv(b)));
    c.count(what, 1);
    let bad = match (&r, want) {
        (Ok(_), _) => Some((format!("accepted:{}", what), "the file was accepted".to_string())),
        (Err(_), Want::Any) => None,
        (Err(e), Want::At(lo, hi)) => match offset_of(e) {
            Some(o) if o >= lo && o <= hi => None,
            _ => Some((format!("place:{}", what), format!("expected an error at {}..={}, got {:?}", lo, hi, e))),
        },
        (Err(e), Want::AtIfAny(lo, hi)) => match offset_of(e) {
            Some(o) if o < lo || o > hi => Some((format!("place:{}", what), format!("expected an error at {}..={}, got {:?}", lo, hi, e))),
            _ => None,
        },
        (Err(DxfError::MalformedString), Want::Malformed) => None,
        (Err(e), Want::Malformed) => Some((format!("kind:{}", what), format!("expected MalformedString, got {:?}", e))),
    };
    if let Some((sig, d)) = bad {
        c.attach("input.dxf", b);
        c.fail(sig, format!("{}: {}", detail, d));
    }
}
fn pick_where(r: &mut Rng, n: usize, f: impl Fn(usize) -> bool) -> Option<usize> {
    if n == 0 {
        return None;
    }
    let s = r.below(n);
    (0..n).map(|k| (s + k) % n).find(|i| f(*i))
}
fn drop_pair(ps: &[Pair], i: usize) -> Vec<Pair> {
    let mut v = ps.to_vec();
    v.remove(i);
    v
}
const BAD_INT: &[&str] = &["", "abc", "1x", "--3", "0x10", "1 2", "12,5", "one", "\u{661}", "9223372036854775808", "-", "+", "NULL", "1_000"];
const BAD_REAL: &[&str] = &["", "abc", "1.2.3", "1,5", "--1", "1e", "e5", "0x1p3", "1 2", "1.5f", ".", "-", "\u{664}", "1_0.0"];
const BAD_CODE: &[&str] = &["abc", "1x", "--3", "0x10", "1 2", "99999999999", "1.5", "1e1", "SECTION", "\u{661}", "-", "1_0"];

fn ascii_case(c: &mut Case) {
    let (d, ps) = sample_file(&mut c.rng);
    let pos = positions(&ps);
    let n = ps.len();
    let v = d.header.version;
    let base = join(&ascii_lines(&ps));
    if let Err(e) = load_dx(&base) {
        return c.fail("base", format!("the undamaged file was rejected: {:?}", e));
    }
    let per = if c.thorough { 12 } else { 4 };
    let what = |i: usize| format!("{:?} pair {} ({} {:?} in {} {})", v, i, ps[i].code, ps[i].val, pos[i].sec, pos[i].rec);
    for _ in 0..per {
        // a section that is cut off anywhere
        if let Some(i) = pick_where(&mut c.rng, n, |i| !pos[i].sec.is_empty() && !pos[i].start) {
            let ls = ascii_lines(&ps);
            let mut b = join(&ls[..2 * i]);
            let mut tail = ls[2 * i].clone();
            tail.extend(b"\r\n");
            let mut val = ls[2 * i + 1].clone();
            if ps[i].is(0, "ENDSEC") {
                val.pop();
            } else {
                val.extend(b"\r\n");
            }
            tail.extend(val);
            let k = c.rng.below(tail.len() + 1);
            b.extend(&tail[..k]);
            // the name of the section itself may only be cut before its last character
            let r = load_dx(&b);
            judge(c, "cut", &b, r, Want::Any, format!("cut {} bytes into {}", k, what(i)));
        }
        // a group code that is no number
        if let Some(i) = pick_where(&mut c.rng, n, |i| i > 0) {
            let mut ls = ascii_lines(&ps);
            ls[2 * i] = c.rng.pick(BAD_CODE).as_bytes().to_vec();
            let b = join(&ls);
            let r = load_dx(&b);
            judge(c, "bad code", &b, r, Want::At(2 * i + 1, 2 * i + 1), format!("group code {:?} at {}", String::from_utf8_lossy(&ls[2 * i]), what(i)));
        }
        // a group code without a type
        if let Some(i) = pick_where(&mut c.rng, n, |i| i > 0) {
            let code = loop {
                let k = match c.rng.below(5) { 0 => -(1 + c.rng.below(1000) as i32), 1 => 1072 + c.rng.below(100000) as i32, 2 => i32::MIN, 3 => i32::MAX, _ => 480 + c.rng.below(520) as i32 };
                if vtype(k).is_none() && ![-5, -1, -2, -3, -4, -6, 999].contains(&k) {
                    break k;
                }
            };
            let mut ls = ascii_lines(&ps);
            ls[2 * i] = code.to_string().into_bytes();
            let b = join(&ls);
            let r = load_dx(&b);
            judge(c, "unknown code", &b, r, Want::At(2 * i + 1, 2 * i + 2), format!("group code {} at {}", code, what(i)));
        }
        // a number that is none
        for real in [false, true] {
            let ok = |i: usize| i > 0 && match vtype(ps[i].code) { Some(VT::F64) => real, Some(VT::I16 | VT::I32 | VT::I64 | VT::Bool) => !real, _ => false };
            if let Some(i) = pick_where(&mut c.rng, n, ok) {
                let bad = *c.rng.pick(if real { BAD_REAL } else { BAD_INT });
                let mut ls = ascii_lines(&ps);
                ls[2 * i + 1] = bad.as_bytes().to_vec();
                let b = join(&ls);
                let r = load_dx(&b);
                judge(c, if real { "bad real" } else { "bad integer" }, &b, r, Want::At(2 * i + 2, 2 * i + 2), format!("{:?} at {}", bad, what(i)));
            }
        }
        // binary data with a wrong digit
        if let Some(i) = pick_where(&mut c.rng, n, |i| vtype(ps[i].code) == Some(VT::Bin)) {
            let mut ls = ascii_lines(&ps);
            let k = c.rng.below(ls[2 * i + 1].len() + 1);
            let x = *c.rng.pick(b"gGxX .-/:@`~");
            if k < ls[2 * i + 1].len() && x != b' ' { ls[2 * i + 1][k] = x } else { ls[2 * i + 1] = b"0G".to_vec() }
            let b = join(&ls);
            let r = load_dx(&b);
            judge(c, "bad hex", &b, r, Want::At(2 * i + 2, 2 * i + 2), what(i));
        }
        // a handle that is none
        if let Some(i) = pick_where(&mut c.rng, n, |i| i > 0 && ps[i].code == 5 && ps[i - 1].code == 0 && ["ENTITIES", "OBJECTS"].contains(&pos[i].sec.as_str())) {
            let mut q = ps.clone();
            q[i] = Pair::s(5, *c.rng.pick(&["XYZ", "1G", "12 34", "0x5", "-5", "10000000000000000"]));
            let b = to_ascii(&q);
            let r = load_dx(&b);
            judge(c, "bad handle", &b, r, Want::At(2 * i + 1, 2 * i + 2), format!("{:?} at {}", q[i], what(i)));
        }
        // delimiters that are missing
        let drops: [(&str, &dyn Fn(usize) -> bool); 7] = [
            ("no SECTION", &|i| i > 0 && pos[i].start),
            ("no ENDSEC", &|i| ps[i].is(0, "ENDSEC")),
            ("no section name", &|i| i > 0 && pos[i - 1].start),
            ("no TABLE", &|i| ps[i].is(0, "TABLE") && pos[i].sec == "TABLES"),
            ("no table name", &|i| i > 0 && ps[i - 1].is(0, "TABLE") && pos[i].sec == "TABLES"),
            ("no BLOCK", &|i| ps[i].is(0, "BLOCK") && pos[i].sec == "BLOCKS"),
            ("no ENDBLK", &|i| ps[i].is(0, "ENDBLK") && pos[i].sec == "BLOCKS"),
        ];
        let k = c.rng.below(drops.len());
        let (name, f) = drops[k];
        if let Some(i) = pick_where(&mut c.rng, n, f) {
            let q = drop_pair(&ps, i);
            let b = to_ascii(&q);
            let r = load_dx(&b);
            judge(c, name, &b, r, Want::Any, what(i));
        }
        // groups that are not closed
        let ext = c.rng.chance(1, 2);
        if let Some(i) = pick_where(&mut c.rng, n, |i| ps[i].is(if ext { 102 } else { 1002 }, "}") && !["XRECORD", "ENDBLK"].contains(&pos[i].rec.as_str())) {
            let q = drop_pair(&ps, i);
            let b = to_ascii(&q);
            let r = load_dx(&b);
            judge(c, if ext { "open group" } else { "open xdata group" }, &b, r, Want::Any, what(i));
        }
        // something between the sections
        if let Some(i) = pick_where(&mut c.rng, n, |i| pos[i].sec.is_empty() && ps[i].is(0, "EOF") || i > 0 && pos[i].start) {
            let mut q = ps.clone();
            let x = match c.rng.below(4) { 0 => Pair::s(1, "stray"), 1 => Pair::i(70, 3), 2 => Pair::s(0, "LINE"), _ => Pair::s(0, "ENDSEC") };
            q.insert(i, x);
            let b = to_ascii(&q);
            let r = load_dx(&b);
            judge(c, "between sections", &b, r, Want::At(2 * i + 1, 2 * i + 2), what(i));
        }
        // something between tables or blocks
        if let Some(i) = pick_where(&mut c.rng, n, |i| ps[i].is(0, "TABLE") && pos[i].sec == "TABLES") {
            let mut q = ps.clone();
            q.insert(i, Pair::s(if c.rng.chance(1, 2) { 1 } else { 0 }, "STRAY"));
            let b = to_ascii(&q);
            let r = load_dx(&b);
            judge(c, "between tables", &b, r, Want::At(2 * i + 1, 2 * i + 2), what(i));
        }
        // bytes that are no text
        if v >= AcadVersion::R2007 {
            if let Some(i) = pick_where(&mut c.rng, n, |i| i > 4 && vtype(ps[i].code) == Some(VT::Str)) {
                let mut ls = ascii_lines(&ps);
                let bad: &[u8] = *c.rng.pick(&[&b"a\xffb"[..], &b"\xc3"[..], &b"\xe4\xb8"[..], &b"\x80"[..], &b"\xed\xa0\x80"[..], &b"\xc0\x80"[..], &b"ok\xf5\x80\x80\x80"[..]]);
                ls[2 * i + 1].extend(bad);
                let b = join(&ls);
                let r = load_dx(&b);
                judge(c, "bad utf-8", &b, r, Want::Malformed, what(i));
            }
        } else if let Some(i) = pick_where(&mut c.rng, n, |i| i > 4 && vtype(ps[i].code) == Some(VT::Str)) {
            let mut ls = ascii_lines(&ps);
            let (enc, bad): (&'static encoding_rs::Encoding, &[u8]) = *c.rng.pick(&[(encoding_rs::UTF_8, &b"a\xffb"[..]), (encoding_rs::SHIFT_JIS, &b"\x81\x20x"[..]), (encoding_rs::EUC_KR, &b"\xff\xffx"[..]), (encoding_rs::GBK, &b"\xff x"[..])]);
            ls[2 * i + 1].extend(bad);
            let b = join(&ls);
            let r = { let mut rd = &b[..]; Drawing::load_with_encoding(&mut rd, enc) };
            judge(c, "bad bytes", &b, r, Want::Malformed, format!("{} {}", enc.name(), what(i)));
        }
        // a number outside the range of its type
        if let Some(i) = pick_where(&mut c.rng, n, |i| matches!(vtype(ps[i].code), Some(VT::I16 | VT::I32 | VT::I64 | VT::Bool))) {
            let bad: &str = match vtype(ps[i].code) {
                Some(VT::I16 | VT::Bool) => *c.rng.pick(&["32768", "-32769", "65536", "40000.0", "2147483648"]),
                Some(VT::I32) => *c.rng.pick(&["2147483648", "-2147483649", "4294967296"]),
                _ => *c.rng.pick(&["9223372036854775808", "-9223372036854775809", "99999999999999999999"]),
            };
            let mut ls = ascii_lines(&ps);
            ls[2 * i + 1] = bad.as_bytes().to_vec();
            let b = join(&ls);
            let r = load_dx(&b);
            judge(c, "out of range", &b, r, Want::At(2 * i + 2, 2 * i + 2), format!("{} at {}", bad, what(i)));
        }
    }
    // any damage whatsoever: an error that names a place names one that exists
    let mut q = ps.clone();
    mutate(&mut q, &ps, &mut c.rng);
    let b = to_ascii(&q);
    let lines = b.iter().filter(|x| **x == b'\n').count();
    c.eval(&b);
    if let Err(e) = load_dx(&b) {
        c.count("damaged_rejected", 1);
        if let Some(o) = offset_of(&e) {
            if o == 0 || o > lines + 1 {
                c.attach("input.dxf", &b);
                c.fail("place:outside", format!("the file has {} lines, the error is {:?}", lines, e));
            }
        }
    } else {
        c.count("damaged_accepted", 1);
    }
}
fn binary_case(c: &mut Case) {
    let d = any_drawing(&mut c.rng);
    let b = save(&d, Fmt::Binary).expect("save");
    let toks = parse_binary(&b).expect("harness: tokens");
    let ps: Vec<Pair> = toks.iter().map(|x| x.1.clone()).collect();
    let pos = positions(&ps);
    let w = wide(d.header.version);
    let n = ps.len();
    // where the pair starts
    let start = |i: usize| -> usize { if w { toks[i].0 - 2 } else if ps[i].code >= 255 { toks[i].0 - 3 } else { toks[i].0 - 1 } };
    let end = |i: usize| -> usize { if i + 1 < n { start(i + 1) } else { b.len() } };
    let per = if c.thorough { 12 } else { 4 };
    for _ in 0..per {
        if let Some(i) = pick_where(&mut c.rng, n, |i| !pos[i].sec.is_empty() && !pos[i].start) {
            let k = start(i) + c.rng.below(end(i) - start(i));
            let r = load_dx(&b[..k]);
            judge(c, "binary cut", &b[..k], r, Want::Any, format!("{:?} cut at {} in {:?} of {}", d.header.version, k, ps[i], pos[i].sec));
        }
        if let Some(i) = pick_where(&mut c.rng, n, |i| i > 0 && (w || ps[i].code >= 255)) {
            let code = loop {
                let k = c.rng.next() as i16 as i32;
                if vtype(k).is_none() && k != 999 && !(-6..0).contains(&k) { break k; }
            };
            let mut x = b.clone();
            let at = toks[i].0 - 2;
            x[at..at + 2].copy_from_slice(&(code as i16).to_le_bytes());
            let r = load_dx(&x);
            judge(c, "binary unknown code", &x, r, Want::At(start(i), end(i)), format!("{:?} code {} at {}", d.header.version, code, at));
        }
        let drops: [(&str, &dyn Fn(usize) -> bool); 4] = [
            ("binary no ENDSEC", &|i| ps[i].is(0, "ENDSEC")),
            ("binary no section name", &|i| i > 1 && pos[i - 1].start),
            ("binary no TABLE", &|i| ps[i].is(0, "TABLE") && pos[i].sec == "TABLES"),
            ("binary no ENDBLK", &|i| ps[i].is(0, "ENDBLK") && pos[i].sec == "BLOCKS"),
        ];
        let k = c.rng.below(drops.len());
        let (name, f) = drops[k];
        if let Some(i) = pick_where(&mut c.rng, n, f) {
            let mut x = b.clone();
            x.drain(start(i)..end(i));
            let r = load_dx(&x);
            judge(c, name, &x, r, Want::Any, format!("{:?} {:?}", d.header.version, ps[i]));
        }
        if let Some(i) = pick_where(&mut c.rng, n, |i| i > 0 && pos[i].start) {
            let mut x = b.clone();
            let stray = to_binary(&[Pair::s(1, "stray")], w)[SENTINEL.len()..].to_vec();
            let s = start(i);
            let l = stray.len();
            x.splice(s..s, stray);
            let r = load_dx(&x);
            judge(c, "binary between sections", &x, r, Want::At(s, s + l), format!("{:?} at {}", d.header.version, s));
        }
    }
    // the sentinel
    for (k, want) in [(18usize, 20usize), (20, 20), (21, 21)] {
        let mut x = b.clone();
        x[k] ^= 1 << c.rng.below(8);
        if k == 18 { continue; }
        let r = load_dx(&x);
        judge(c, "sentinel", &x, r, Want::At(want, want), format!("byte {}", k));
    }
    for k in 1..SENTINEL.len() {
        if k == 18 || k == 19 { continue; }
        let r = load_dx(&b[..k]);
        judge(c, "sentinel cut", &b[..k], r, Want::Any, format!("{} bytes", k));
    }
}
/// a DXB file with a byte that cannot stand where it does
fn dxb_case(c: &mut Case) {
    let n = c.rng.below(25);
    let (b, marks) = crate::c_dxb::record_stream(&mut c.rng, n);
    for _ in 0..4 {
        let mut b = b.clone();
        let sign = c.rng.chance(1, 6);
        let at = if sign { 17 + c.rng.below(2) } else { *c.rng.pick(&marks) };
        b[at] = if sign { b[at] ^ (1 + c.rng.below(255) as u8) } else { *c.rng.pick(&[4u8, 5, 6, 7, 10, 12, 16, 18, 23, 24, 100, 127, 138, 200, 255]) };
        let what = if sign { "signature" } else { "record type" };
        c.count(&format!("dxb {}", what), 1);
        c.eval(&b);
        match guard(|| Drawing::load(&mut &b[..]).map(|_| ())) {
            Err(p) => { c.attach("file.dxb", &b); c.fail(format!("dxb:{}", panic_sig(&p)), p) }
            Ok(Ok(())) => { c.attach("file.dxb", &b); c.fail(format!("dxb:accepted:{}", what), format!("a file with a wrong {} at byte {} was accepted", what, at)) }
            Ok(Err(e)) => match offset_of(&e) {
                Some(o) if o != at => { c.attach("file.dxb", &b); c.fail(format!("dxb:place:{}", what), format!("the wrong {} at byte {} is reported at {}: {}", what, at, o, e)) }
                Some(_) => c.count("places compared", 1),
                None => c.count("errors without a place", 1),
            },
        }
    }
}
pub fn c14(t: bool) -> Check {
    let m = if t { 12 } else { 1 };
    Check {
        id: "C14",
        level: "exploration",
        rule: "one evaluation = one file with one defect planted at a known place, loaded; distinct by kind of defect and content of the file; counted by kind under observed",
        families: vec![family("ascii", 2500 * m, ascii_case), family("binary", 1500 * m, binary_case), family("dxb", 4000 * m, dxb_case), family("large ascii", 30 * m, |c| large(|| ascii_case(c))), family("large binary", 30 * m, |c| large(|| binary_case(c)))],
        cpu_limit: 120,
        assumptions: vec!["an empty group code line ends an ASCII file (blank lines at its end are common)".into()],
    }
}

// ---------------------------------------------------------------- C15
/// group codes that no record of the library uses, by type
const UNUSED: &[i32] = &[459, 478, 479, 481, 409, 379, 408, 439, 419];
fn junk_pair(r: &mut Rng) -> Pair {
    let code = *r.pick(UNUSED);
    Pair { code, val: tame_val(code, r) }
}
fn comment(r: &mut Rng) -> Pair {
    Pair::s(999, *r.pick(&["", "a comment", "0", "ENDSEC", "  SECTION", "{", "}", "EOF", "999", "caf\u{e9}"]))
}
fn unknown_name(r: &mut Rng) -> String {
    match r.below(4) {
        0 => "FOO".into(),
        1 => format!("X{}", ident(r)),
        2 => "ACDSRECORD".into(),
        _ => format!("{}X", r.pick(&dict().entities)),
    }
}
/// pairs of an unknown record: anything but 0
fn body(r: &mut Rng) -> Vec<Pair> {
    let n = r.below(12);
    let mut v = vec![];
    let mut open = 0;
    for _ in 0..n {
        let p = loop {
            let code = any_code(r);
            if code != 0 {
                break Pair { code, val: if r.chance(1, 2) { tame_val(code, r) } else { hostile_val(code, r) } };
            }
        };
        // strings stay on one line and within the tokens of the format
        let p = match &p.val { Val::S(s) if s.contains(['\r', '\n', '\0']) || s.chars().any(|c| c as u32 > 126) => Pair::s(p.code, "x"), Val::F(f) if !f.is_finite() => Pair::f(p.code, 1.5), _ => p };
        if r.chance(1, 10) { v.push(Pair::s(102, "{ACAD_FOO")); open += 1; }
        v.push(p);
    }
    let _ = open;
    v
}
fn unknown_case(c: &mut Case) {
    let (d, ps) = sample_file(&mut c.rng);
    let v = d.header.version;
    let fmt = any_fmt(&mut c.rng);
    let pos = positions(&ps);
    let n = ps.len();
    let base = render(&ps, fmt, v);
    let want = outcome(&load_dx(&base));
    if want.get("error").is_some() {
        return c.fail("base", format!("the file as written was rejected: {}", want));
    }
    let per = if c.thorough { 40 } else { 14 };
    for k in 0..per {
        let mut q = ps.clone();
        let mut kinds = vec![];
        let times = if c.rng.chance(1, 3) { 1 + c.rng.below(8) } else { 1 };
        // insertions from the back so that positions stay valid
        let mut ins: Vec<(usize, Vec<Pair>, &'static str)> = vec![];
        for _ in 0..times {
            let (what, at, x): (&'static str, Option<usize>, Vec<Pair>) = match (c.rng.below(8) + k) % 8 {
                0 => {
                    let mut x = vec![Pair::s(0, "SECTION"), Pair::s(2, *c.rng.pick(&["ACDSDATA", "FOO", "entities", "HEADERX", "", " "]))];
                    for _ in 0..c.rng.below(4) {
                        let nm = if c.rng.chance(1, 2) { c.rng.pick(&dict().entities).clone() } else { unknown_name(&mut c.rng) };
                        x.push(Pair::s(0, &nm));
                        x.extend(body(&mut c.rng));
                    }
                    x.push(Pair::s(0, "ENDSEC"));
                    ("section", pick_where(&mut c.rng, n, |i| i > 0 && (pos[i].start || ps[i].is(0, "EOF"))), x)
                }
                1 => {
                    let nm = format!("X{}", ident(&mut c.rng));
                    let mut x = vec![Pair::s(0, "TABLE"), Pair::s(2, &nm), Pair::i(70, 1)];
                    for _ in 0..c.rng.below(4) {
                        let nm = if c.rng.chance(1, 3) { c.rng.pick(&dict().tables).clone() } else { nm.clone() };
                        x.push(Pair::s(0, &nm));
                        x.extend(body(&mut c.rng));
                    }
                    x.push(Pair::s(0, "ENDTAB"));
                    ("table", pick_where(&mut c.rng, n, |i| pos[i].sec == "TABLES" && (ps[i].is(0, "TABLE") || ps[i].is(0, "ENDSEC"))), x)
                }
                2 => {
                    let mut x = vec![Pair::s(0, &unknown_name(&mut c.rng))];
                    x.extend(body(&mut c.rng));
                    let ok = |i: usize| ps[i].code == 0 && ["ENTITIES", "BLOCKS"].contains(&pos[i].sec.as_str()) && !["VERTEX", "ATTRIB", "SEQEND", "BLOCK", "MTEXT"].contains(&ps[i].str()) && !pos[i].start && !(pos[i].sec == "BLOCKS" && (ps[i].str() == "ENDSEC"));
                    ("entity", pick_where(&mut c.rng, n, ok), x)
                }
                3 => {
                    let mut x = vec![Pair::s(0, &unknown_name(&mut c.rng))];
                    x.extend(body(&mut c.rng));
                    ("object", pick_where(&mut c.rng, n, |i| ps[i].code == 0 && pos[i].sec == "OBJECTS" && !pos[i].start), x)
                }
                4 => {
                    let mut x = vec![Pair::s(9, *c.rng.pick(&["$FOO", "$XYZZY", "$CUSTOMPROPERTY", "$", ""]))];
                    for _ in 0..c.rng.below(4) {
                        let code = loop { let k = any_code(&mut c.rng); if k != 0 && k != 9 { break k; } };
                        x.push(Pair { code, val: tame_val(code, &mut c.rng) });
                    }
                    ("header variable", pick_where(&mut c.rng, n, |i| pos[i].sec == "HEADER" && (ps[i].code == 9 || ps[i].is(0, "ENDSEC"))), x)
                }
                5 | 6 => {
                    let x = (0..1 + c.rng.below(3)).map(|_| junk_pair(&mut c.rng)).collect();
                    let ok = |i: usize| i > 0 && ["ENTITIES", "OBJECTS", "BLOCKS", "TABLES", "CLASSES"].contains(&pos[i].sec.as_str()) && !pos[pos[i - 1].rec_at].start && !["XRECORD", "ENDSEC", "ENDTAB"].contains(&pos[i - 1].rec.as_str())
                        && pos[i - 1].ext == 0 && !pos[i - 1].xdata && !(ps[i - 1].is(0, "TABLE") && pos[i].sec == "TABLES") && pos[i].sec == pos[i - 1].sec
                        && !(pos[i - 1].ext == 0 && ps[i - 1].is(102, "}") && false);
                    ("code", pick_where(&mut c.rng, n, ok), x)
                }
                _ => {
                    let x = (0..1 + c.rng.below(3)).map(|_| comment(&mut c.rng)).collect();
                    ("comment", Some(c.rng.below(n + 1)), x)
                }
            };
            if let Some(i) = at {
                ins.push((i, x, what));
            }
        }
        ins.sort_by_key(|x| std::cmp::Reverse(x.0));
        let mut texts = vec![];
        for (i, x, what) in ins {
            let x: Vec<Pair> = if fmt == Fmt::Binary && !wide(v) && x.iter().any(|p| vtype(p.code).is_none()) { vec![] } else { x };
            texts.push(format!("{} before pair {} ({:?}, in {} {}): {:?}", what, i, ps.get(i), pos.get(i).map(|p| p.sec.clone()).unwrap_or_default(), if i > 0 { pos[i - 1].rec.clone() } else { String::new() }, x.iter().take(6).collect::<Vec<_>>()));
            for (o, p) in x.into_iter().enumerate() {
                q.insert(i + o, p);
            }
            kinds.push(what);
        }
        // binary files start with 0/SECTION
        if kinds.is_empty() || (fmt == Fmt::Binary && !q[0].is(0, "SECTION")) {
            continue;
        }
        let b = render(&q, fmt, v);
        let got = outcome(&load_dx(&b));
        c.eval(&b);
        for k in &kinds {
            c.count(&format!("inserted {}", k), 1);
        }
        let ds = same(&want, &got, true);
        if !ds.is_empty() {
            c.attach("input.dxf", &b);
            kinds.sort();
            kinds.dedup();
            c.fail(format!("{}:{}", kinds.join("+"), place_sig(&ds[0])), format!("{:?} {:?}: {} -- {}", v, fmt, texts.join(" | "), report(&want, &got, &ds)));
        }
    }
}
/// one item of a kind, and something unknown before each pair of its record in turn
fn places_case(c: &mut Case) {
    let mut kinds = crate::c_ext::any_item_kinds();
    kinds.push(Item::Class);
    let item = kinds[c.idx as usize % kinds.len()].clone();
    let it = &tab()[&item.name()];
    let vs: Vec<usize> = (0..VERSIONS.len()).filter(|v| it.present[*v] != 'a').collect();
    if vs.is_empty() {
        return;
    }
    let vi = if c.rng.chance(1, 2) { *vs.last().unwrap() } else { *c.rng.pick(&vs) };
    let v = VERSIONS[vi];
    let mut d = new_drawing(v);
    let den = if c.rng.chance(1, 2) { 1 } else { 3 };
    for k in 0..2 {
        let mut x = match &item { Item::Entity(k) => entity_json(k, vi, &mut c.rng, 1, den), Item::Object(k) => object_json(k, vi, &mut c.rng, 1, den), _ => item_value(&item.name(), vi, &mut c.rng, 1, den) };
        if !matches!(item, Item::Entity(_) | Item::Object(_)) {
            x["name"] = serde_json::json!(format!("SUBJECT{}", k));
        }
        match &item {
            Item::Entity(_) => { d.add_entity(to_entity(&x)); }
            Item::Object(_) => { d.add_object(to_object(&x)); }
            _ => if add_subject(&mut d, &item, &x).is_err() { return; }
        }
    }
    let whole = file_of(&d, Fmt::Ascii).pairs;
    let wpos = positions(&whole);
    let sec = match item { Item::Entity(_) => "ENTITIES", Item::Object(_) => "OBJECTS", Item::Block => "BLOCKS", Item::Table(_) => "TABLES", Item::Class => "CLASSES", _ => return };
    // the version and the section of the item
    let mut ps = vec![];
    let mut i = 0;
    while i < whole.len() {
        if wpos[i].sec == sec || whole[i].is(0, "EOF") {
            ps.push(whole[i].clone());
        } else if whole[i].is(9, "$ACADVER") {
            ps.extend([Pair::s(0, "SECTION"), Pair::s(2, "HEADER"), whole[i].clone(), whole[i + 1].clone(), Pair::s(0, "ENDSEC")]);
        }
        i += 1;
    }
    let pos = positions(&ps);
    let fmt = any_fmt(&mut c.rng);
    let want = outcome(&load_dx(&render(&ps, fmt, v)));
    if want.get("error").is_some() {
        return c.fail("base", format!("{:?} {}: the file was rejected: {}", v, item.name(), want));
    }
    let ok: Vec<usize> = (1..ps.len()).filter(|&i| pos[i].sec == sec && pos[i - 1].sec == sec && !pos[pos[i - 1].rec_at].start && !["XRECORD", "ENDSEC", "ENDTAB"].contains(&pos[i - 1].rec.as_str())
        && pos[i - 1].ext == 0 && !pos[i - 1].xdata && !ps[i - 1].is(0, "TABLE")).collect();
    let cap = if c.thorough { 2000 } else { 150 };
    let step = ok.len().div_ceil(cap).max(1);
    let off = c.rng.below(step);
    for &i in ok.iter().skip(off).step_by(step) {
        let x = if c.rng.chance(1, 8) { comment(&mut c.rng) } else { junk_pair(&mut c.rng) };
        if fmt == Fmt::Binary && !wide(v) && vtype(x.code).is_none() {
            continue;
        }
        let what = if x.code == 999 { "comment" } else { "code" };
        let mut q = ps.clone();
        q.insert(i, x.clone());
        let b = render(&q, fmt, v);
        let got = outcome(&load_dx(&b));
        c.eval(&b);
        c.count(&format!("places {}", what), 1);
        c.count(&format!("places in {}", sec), 1);
        let ds = same(&want, &got, true);
        if !ds.is_empty() {
            c.attach("input.dxf", &b);
            c.fail(format!("{}:{}", what, place_sig(&ds[0])), format!("{:?} {:?} {}: {:?} before pair {} ({:?}) in {} -- {}", v, fmt, item.name(), x, i, ps[i], pos[i - 1].rec, report(&want, &got, &ds)));
            return;
        }
    }
}
pub fn c15(t: bool) -> Check {
    Check {
        id: "C15",
        level: "exploration",
        rule: "one evaluation = one valid file with unknown content inserted at places the format allows, loaded and compared with the file without; distinct by content",
        families: vec![family("unknown", if t { 30000 } else { 3000 }, unknown_case), family("large", if t { 400 } else { 40 }, |c| large(|| unknown_case(c))), family("places", (crate::c_ext::any_item_kinds().len() as u64 + 1) * if t { 40 } else { 4 }, places_case)],
        cpu_limit: 120,
        assumptions: vec!["group codes used as unknown ones are not assigned by any record of the library".into()],
    }
}

// ---------------------------------------------------------------- C18
fn blanks(r: &mut Rng) -> &'static str {
    *r.pick(&["", "", " ", "  ", "   ", "\t", " \t "])
}
fn int_text(v: i64, short: bool, r: &mut Rng) -> String {
    let (sg, a) = if v < 0 { ("-", v.unsigned_abs()) } else { ("", v as u64) };
    match r.below(6) {
        0 if v >= 0 => format!("+{}", a),
        1 => format!("{}0{}", sg, a),
        2 => format!("{}{:0>8}", sg, a),
        3 if short => format!("{}{}.0", sg, a),
        4 if short => format!("{}{}.", sg, a),
        _ => v.to_string(),
    }
}
fn real_text(f: f64, r: &mut Rng) -> String {
    let s = format!("{}", f);
    let t = match r.below(9) {
        0 => format!("{:e}", f),
        1 => format!("{:E}", f),
        2 if f >= 0.0 && !f.is_sign_negative() => format!("+{}", s),
        3 if s.contains('.') => format!("{}000", s),
        4 if !s.contains('.') => format!("{}.", s),
        5 => { let (g, a) = match s.strip_prefix('-') { Some(x) => ("-", x), None => ("", &s[..]) }; format!("{}000{}", g, a) }
        6 if s.starts_with("0.") => s[1..].to_string(),
        7 => format!("{:e}", f).replace('e', "E+").replace("E+-", "E-"),
        _ => fmt_f(f),
    };
    // only notations of the same number
    if t.parse::<f64>().map(|x| x == f).unwrap_or(false) { t } else { fmt_f(f) }
}
fn layout_case(c: &mut Case) {
    let (d, ps) = sample_file(&mut c.rng);
    let v = d.header.version;
    let pos = positions(&ps);
    let base = to_ascii(&ps);
    let want = outcome(&load_dx(&base));
    if want.get("error").is_some() {
        return c.fail("base", format!("the file as written was rejected: {}", want));
    }
    let per = if c.thorough { 40 } else { 12 };
    for k in 0..per {
        let mut q = ps.clone();
        let mut kinds: Vec<&str> = vec![];
        let all = c.rng.chance(1, 4);
        let mut on = |i: usize, r: &mut Rng, name: &'static str| { let y = if all { r.chance(1, 2) } else { k % 12 == i }; if y { kinds.push(name) } y };
        let r = &mut c.rng;
        let ends = on(0, r, "line endings");
        let codes = on(1, r, "padded codes");
        let nums = on(2, r, "padded numbers");
        let ints = on(3, r, "integer notation");
        let reals = on(4, r, "real notation");
        let bom = on(5, r, "byte order mark");
        let noeof = on(6, r, "no end of file");
        let nonl = on(7, r, "no final line break");
        let comm = on(8, r, "comments");
        let vars = on(9, r, "order of header variables");
        let secs = on(10, r, "order of sections");
        let tail = !noeof && on(11, r, "text after the end");
        if vars {
            // keep $ACADVER first
            let hs: Vec<usize> = (0..q.len()).filter(|i| pos[*i].sec == "HEADER" && (q[*i].code == 9 || q[*i].is(0, "ENDSEC"))).collect();
            if hs.len() > 3 {
                let mut groups: Vec<Vec<Pair>> = hs.windows(2).map(|w| q[w[0]..w[1]].to_vec()).collect();
                let first = groups.remove(0);
                for i in (1..groups.len()).rev() { let j = r.below(i + 1); groups.swap(i, j); }
                let mut h = first;
                for g in groups { h.extend(g) }
                q.splice(hs[0]..hs[hs.len() - 1], h);
            }
        }
        if secs {
            for name in ["CLASSES", "THUMBNAILIMAGE"] {
                let p2 = positions(&q);
                if let Some(a) = (0..q.len()).find(|i| p2[*i].start && p2[*i].sec == name) {
                    let e = (a..q.len()).find(|i| q[*i].is(0, "ENDSEC")).expect("harness: section");
                    let s: Vec<Pair> = q.drain(a..=e).collect();
                    let p2 = positions(&q);
                    let spots: Vec<usize> = (1..q.len()).filter(|i| p2[*i].start || q[*i].is(0, "EOF")).collect();
                    let at = *r.pick(&spots);
                    for (o, p) in s.into_iter().enumerate() { q.insert(at + o, p); }
                }
            }
        }
        if noeof && q.last().map(|p| p.is(0, "EOF")).unwrap_or(false) {
            q.pop();
        }
        if comm {
            for _ in 0..1 + r.below(6) {
                let i = r.below(q.len() + 1);
                let x = comment(r);
                q.insert(i, x);
            }
        }
        let mut b = vec![];
        if bom { b.extend([0xEF, 0xBB, 0xBF]); }
        let style = r.below(3);
        let dense = if r.chance(1, 2) { 100 } else { 8 };
        for (i, p) in q.iter().enumerate() {
            let hit = |r: &mut Rng| r.chance(dense, 100);
            let code = if codes && hit(r) {
                let z = *r.pick(&["", "0", "00", "+"]);
                format!("{}{}{}{}", blanks(r), z, p.code, blanks(r))
            } else { format!("{:>3}", p.code) };
            let val = match &p.val {
                Val::I(x) if ints && hit(r) => int_text(*x, matches!(vtype(p.code), Some(VT::I16 | VT::Bool)), r),
                Val::F(x) if reals && hit(r) => real_text(*x, r),
                _ => p.text(),
            };
            let val = match &p.val { Val::I(_) | Val::F(_) if nums && hit(r) => format!("{}{}{}", blanks(r), val, blanks(r)), _ => val };
            for (l, t) in [code, val].iter().enumerate() {
                b.extend(t.as_bytes());
                let last = i + 1 == q.len() && l == 1;
                if last && nonl { break; }
                let crlf = !ends || match style { 0 => false, 1 => r.chance(1, 2), _ => i % 2 == 0 };
                b.extend(if crlf { &b"\r\n"[..] } else { &b"\n"[..] });
            }
        }
        if tail && !nonl {
            b.extend_from_slice(*r.pick(&[&b"\r\n"[..], &b"\n\n\n"[..], &b"   \r\n"[..]]));
        }
        if kinds.is_empty() { continue; }
        let got = outcome(&load_dx(&b));
        c.eval(&b);
        for k in &kinds { c.count(k, 1); }
        let ds = same(&want, &got, true);
        if !ds.is_empty() {
            c.attach("input.dxf", &b);
            let sig = format!("{}:{}", if kinds.len() == 1 { kinds[0] } else { "several" }, place_sig(&ds[0]));
            let detail = format!("{:?} {}: {}", v, kinds.join(", "), report(&want, &got, &ds));
            c.fail(sig, detail);
        }
    }
}
pub fn c18(t: bool) -> Check {
    Check {
        id: "C18",
        level: "exploration",
        rule: "one evaluation = one valid file rewritten with another layout of the same content, loaded and compared with the original; distinct by content; kinds of rewriting are counted under observed",
        families: vec![family("layout", if t { 30000 } else { 3000 }, layout_case), family("large", if t { 400 } else { 40 }, |c| large(|| layout_case(c)))],
        cpu_limit: 120,
        assumptions: vec!["$ACADVER stays the first header variable, and sections that define named items stay before those that use them".into()],
    }
}
