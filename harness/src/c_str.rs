//! C19: text keeps every character, in every field, version, format and encoding.
use crate::c_rt::{trip, LOST};
use crate::fw::*;
use crate::gen::*;
use crate::lab::*;
use crate::mini::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::schema::*;
use crate::tab::*;
use crate::types::*;
use dxf::entities::*;
use dxf::enums::AcadVersion;
use dxf::objects::*;
use dxf::Drawing;
use encoding_rs::*;
use serde_json::{json, Value};

pub fn utf8(v: AcadVersion) -> bool {
    v >= AcadVersion::R2007
}
/// a literal `\U+XXXX`, which files before R2007 cannot tell from an escape
fn has_escape(s: &str) -> bool {
    s.match_indices("\\U+").any(|(i, _)| s.as_bytes().len() >= i + 7 && s.as_bytes()[i + 3..i + 7].iter().all(|b| b.is_ascii_hexdigit()))
}
/// how the format writes a string (independent of the library)
fn escape(s: &str, utf8: bool) -> String {
    let mut o = String::new();
    for c in s.chars() {
        let n = c as u32;
        if n < 0x20 {
            o.push('^');
            o.push((n as u8 + 0x40) as char);
        } else if c == '^' {
            o.push_str("^ ");
        } else if n < 0x80 || utf8 {
            o.push(c);
        } else if n < 0x10000 {
            o.push_str(&format!("\\U+{:04X}", n));
        } else {
            let m = n - 0x10000;
            o.push_str(&format!("\\U+{:04X}\\U+{:04X}", 0xD800 + (m >> 10), 0xDC00 + (m & 0x3FF)));
        }
    }
    o
}
const SPICE: &[char] = &['^', '\\', 'U', '+', '0', 'E', '9', ' ', '@', 'J', 'M', '\u{1c}', '\n', '\r', '\t', '\u{0}', '\u{1e}', '\u{1f}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{e9}', '\u{ff}', '\u{100}', '\u{2028}', '\u{20ac}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}', '%', '{', '}', '"', ';', 'z', 'P', '\u{301}'];
pub fn hard_text(r: &mut Rng) -> String {
    match r.below(16) {
        0 => (0u8..=0x1f).map(|c| c as char).collect(),
        1 => "^".repeat(1 + r.below(5)),
        2 => "^J^M^I^@^ ^^^x".into(),
        3 => "\\U+ \\U+00 \\U+00G9 \\U+\u{e9} \\u+00e9 \\\\U+".into(),
        4 => "%%d %%c \\P {\\fArial|b0;x} \\~".into(),
        5 => " lead and trail ".into(),
        6 => "\r\n".into(),
        7 => "a\nb\r\nc\rd\te".into(),
        8 => "\u{feff}bom".into(),
        9 => "\u{e9}\u{20ac}\u{4e2d}\u{ffff}\u{10000}\u{1f600}\u{10ffff}".into(),
        10 => (0x7f..=0xa5u32).filter_map(char::from_u32).collect(),
        11 => { let n = *r.pick(&[63usize, 64, 249, 250, 251, 255, 256, 499, 500, 501, 750, 1100]); (0..n).map(|i| if i % 7 == n % 7 { *r.pick(SPICE) } else { (b'a' + (i % 26) as u8) as char }).collect() }
        12 => "\u{1c}U+00E9 \u{1c}\u{e9}".into(),
        13 => { let n = *r.pick(&[83usize, 84, 125, 126, 249, 250, 251, 300]); std::iter::repeat('\u{4e2d}').take(n).collect() }
        _ => { let n = 1 + r.below(12); (0..n).map(|_| if r.chance(3, 4) { *r.pick(SPICE) } else { loop { if let Some(c) = char::from_u32(r.below(0x110000) as u32) { break c; } } }).collect() }
    }
}
fn fit_text(r: &mut Rng, utf8: bool) -> String {
    loop {
        let s = hard_text(r);
        if utf8 || !has_escape(&s) {
            return s;
        }
    }
}
/// put hard texts into every string of a generated value; None if it has no string
fn spice(k: &Kind, v: &mut Value, r: &mut Rng, u: bool) -> bool {
    match (k, v) {
        (Kind::Str, v) => { *v = json!(fit_text(r, u)); true }
        (Kind::Array(e), Value::Array(a)) => { let mut any = false; for x in a { any |= spice(e, x, r, u); } any }
        (Kind::Fixed(ks), Value::Array(a)) => { let mut any = false; for (k, x) in ks.iter().zip(a) { any |= spice(k, x, r, u); } any }
        (Kind::Struct(fs), Value::Object(m)) => { let mut any = false; for (n, k) in fs { if let Some(x) = m.get_mut(n) { any |= spice(k, x, r, u); } } any }
        _ => false,
    }
}
/// strings inside extended data, extension groups and code pairs
fn spice_data(v: &mut Value, r: &mut Rng, u: bool) -> bool {
    let mut any = false;
    match v {
        Value::Array(a) => for x in a { any |= spice_data(x, r, u); },
        Value::Object(m) => {
            let code = m.get("code").and_then(|c| c.as_i64());
            let handle = code.map(|c| c == 5 || c == 105 || (320..=369).contains(&c) || (390..400).contains(&c) || c == 102 || c == 0).unwrap_or(false);
            for (k, x) in m.iter_mut() {
                match x {
                    Value::String(s) if k == "Str" || k == "LayerName" => { *s = fit_text(r, u); any = true; }
                    Value::String(s) if k == "application_name" && r.chance(1, 2) => { *s = format!("{}{}", s, fit_text(r, u)); any = true; }
                    _ if !handle => any |= spice_data(x, r, u),
                    _ => (),
                }
            }
        }
        _ => (),
    }
    any
}
fn is_text(k: &Kind) -> bool {
    match k {
        Kind::Str => true,
        Kind::Array(e) => is_text(e),
        Kind::Fixed(ks) => ks.iter().any(is_text),
        Kind::Struct(fs) => fs.iter().any(|f| is_text(&f.1)),
        _ => false,
    }
}
fn data_leaf(p: &str) -> bool {
    p.ends_with("/x_data") || p.ends_with("extension_data_groups") || p.ends_with("data_pairs")
}
fn text_fields() -> Vec<(&'static str, usize)> {
    let mut v = vec![];
    for (n, it) in tab() {
        for (i, l) in it.leaves.iter().enumerate() {
            let p = l.leaf.ptr.as_str();
            if (is_text(&l.leaf.kind) || data_leaf(p) || p.ends_with("value_handles"))
                && !SPECIAL.contains(&(n.as_str(), p)) && !LOST.contains(&(n.as_str(), p))
                && !(n == "object:DataTable") && !p.ends_with("/record_name")
            {
                v.push((n.as_str(), i));
            }
        }
    }
    v
}
fn field_case(c: &mut Case, name: &str, li: usize, values: usize) {
    let it = &tab()[name];
    let l = &it.leaves[li];
    let ptr = l.leaf.ptr.as_str();
    for v in 0..VERSIONS.len() {
        if !stored(l.st[v]) || it.present[v] == 'a' {
            continue;
        }
        let u = utf8(VERSIONS[v]);
        for fmt in [Fmt::Ascii, Fmt::Binary] {
            for _ in 0..values {
                let r = &mut c.rng;
                let mut x;
                let mut tries = 0;
                loop {
                    x = value(&l.leaf.kind, ptr, r);
                    let any = if data_leaf(ptr) { spice_data(&mut x, r, u) } else if ptr.ends_with("value_handles") { x = json!({ format!("K{}", fit_text(r, u)): 5, fit_text(r, u): 77 }); true } else { spice(&l.leaf.kind, &mut x, r, u) };
                    if any || tries > 8 { break; }
                    tries += 1;
                }
                if ptr == "/name" {
                    x = json!(format!("N{}", fit_text(r, u)));
                }
                let x = fit(l.st[v], &x);
                if x.is_null() || !within(l.st[v], &x) {
                    continue;
                }
                let mut b = base(&it.item, &it.default);
                *b.pointer_mut(ptr).unwrap() = x.clone();
                let key = format!("{}{} {} {:?} {}", name, ptr, v, fmt, x);
                match trip(&it.item, v, &b, fmt) {
                    Err(e) if e.starts_with("harness:") => c.inconclusive.push(format!("{} {}", key, e)),
                    Err(e) => c.fail(format!("{}{}:error", name, ptr), format!("{}: {}", key, e)),
                    Ok((o, back, _, bytes)) => {
                        c.eval(&key);
                        c.count("characters", x.to_string().len() as u64);
                        let nul = Value::Null;
                        let (p, q) = (o.pointer(ptr).unwrap_or(&nul), back.as_ref().and_then(|b| b.pointer(ptr)).unwrap_or(&nul));
                        let mut ds = vec![];
                        diff("", p, q, false, &mut ds);
                        if !ds.is_empty() {
                            c.attach("saved.dxf", &bytes);
                            c.fail(format!("{}{}", name, ptr), format!("{} {} {:?}: {} became {}", name, ptr, vname(VERSIONS[v]), p, q));
                        }
                        if !u && bytes_of_strings(&bytes, fmt) {
                            c.attach("saved.dxf", &bytes);
                            c.fail(format!("{}{}:ascii", name, ptr), format!("{}: a file before R2007 is not pure ASCII", key));
                        }
                    }
                }
            }
        }
    }
}
/// does a string of the file hold a byte outside ASCII?  (binary: strings as the tokeniser finds them)
fn bytes_of_strings(b: &[u8], fmt: Fmt) -> bool {
    match fmt {
        Fmt::Ascii => b.iter().any(|x| *x >= 0x80),
        Fmt::Binary => match parse_binary(b) {
            Ok(ps) => ps.iter().any(|p| matches!(&p.1.val, Val::S(s) if !s.is_ascii())),
            Err(_) => true,
        },
    }
}
/// channels that text can take; returns what is found in each
fn put(d: &mut Drawing, texts: &[String]) {
    for t in texts {
        d.add_entity(Entity::new(EntityType::Text(Text { value: t.clone(), ..Default::default() })));
    }
}
fn got(d: &Drawing) -> Vec<String> {
    d.entities().filter_map(|e| if let EntityType::Text(t) = &e.specific { Some(t.value.clone()) } else { None }).collect()
}
fn clip(s: &str) -> String {
    s.escape_unicode().to_string().chars().take(300).collect()
}
/// many texts in one drawing: each comes back, and stands in the file as the format writes it
fn many(c: &mut Case, what: &str, v: AcadVersion, fmt: Fmt, texts: &[String]) {
    let u = utf8(v);
    let texts: Vec<String> = texts.iter().filter(|t| u || !has_escape(t)).cloned().collect();
    let mut d = new_drawing(v);
    put(&mut d, &texts);
    let bytes = match save(&d, fmt) {
        Ok(b) => b,
        Err(e) => { c.fail(format!("{}:save", what), format!("{} {:?}: {}", vname(v), fmt, e)); return; }
    };
    for t in &texts {
        c.eval(format!("{} {:?} {}", vname(v), fmt, t));
    }
    c.count("characters", texts.iter().map(|t| t.chars().count() as u64).sum());
    match load(&bytes) {
        Err(e) => { c.attach("saved.dxf", &bytes); c.fail(format!("{}:load", what), format!("{} {:?}: {}", vname(v), fmt, e)); }
        Ok(d2) => {
            let g = got(&d2);
            if g.len() != texts.len() {
                c.attach("saved.dxf", &bytes);
                c.fail(format!("{}:count", what), format!("{} {:?}: {} texts became {}", vname(v), fmt, texts.len(), g.len()));
            } else if let Some(i) = (0..g.len()).find(|i| g[*i] != texts[*i]) {
                c.attach("saved.dxf", &bytes);
                c.fail(format!("{}:text", what), format!("{} {:?}: \"{}\" became \"{}\"", vname(v), fmt, clip(&texts[i]), clip(&g[i])));
            }
        }
    }
    // the encoding in the file, by an independent tokeniser
    let strs: Vec<Vec<u8>> = match fmt {
        Fmt::Ascii => {
            let ls = lines_of(&bytes);
            let mut o = vec![];
            let mut inside = false;
            for p in ls.chunks(2) {
                if p.len() == 2 {
                    let code = String::from_utf8_lossy(&p[0].1).trim().to_string();
                    if code == "0" { inside = p[1].1 == b"TEXT"; }
                    if inside && code == "1" { o.push(p[1].1.clone()); }
                }
            }
            o
        }
        Fmt::Binary => match parse_binary(&bytes) {
            Ok(ps) => {
                let mut o = vec![];
                let mut inside = false;
                for (_, p) in ps {
                    if p.code == 0 { inside = p.is(0, "TEXT"); }
                    if inside && p.code == 1 { o.push(p.str().as_bytes().to_vec()); }
                }
                o
            }
            Err(e) => { c.fail(format!("{}:container", what), format!("{} {:?}: {}", vname(v), fmt, e)); return; }
        },
    };
    let want: Vec<Vec<u8>> = texts.iter().map(|t| escape(t, u).into_bytes()).collect();
    if strs.len() != want.len() {
        c.attach("saved.dxf", &bytes);
        c.fail(format!("{}:written", what), format!("{} {:?}: {} strings were written for {} texts", vname(v), fmt, strs.len(), want.len()));
    } else if let Some(i) = (0..want.len()).find(|i| want[*i] != strs[*i]) {
        c.attach("saved.dxf", &bytes);
        c.fail(format!("{}:written", what), format!("{} {:?}: \"{}\" is written as {:?} instead of {:?}", vname(v), fmt, clip(&texts[i]), String::from_utf8_lossy(&strs[i]), String::from_utf8_lossy(&want[i])));
    }
}
const OLD: &[AcadVersion] = &[AcadVersion::R9, AcadVersion::R12, AcadVersion::R13, AcadVersion::R2000, AcadVersion::R2004];
const NEW: &[AcadVersion] = &[AcadVersion::R2007, AcadVersion::R2010, AcadVersion::R2013, AcadVersion::R2018];
/// every Unicode scalar value, 64 texts of 256 characters per case
fn sweep_case(c: &mut Case) {
    let per = 64 * 256u32;
    let lo = c.idx as u32 * per;
    let chars: Vec<char> = (lo..lo + per).filter_map(char::from_u32).collect();
    let texts: Vec<String> = chars.chunks(256).map(|x| x.iter().collect()).collect();
    if texts.is_empty() {
        return;
    }
    c.count("scalar_values", chars.len() as u64);
    for fmt in [Fmt::Ascii, Fmt::Binary] {
        let (o, n) = (*c.rng.pick(OLD), *c.rng.pick(NEW));
        many(c, "sweep", o, fmt, &texts);
        many(c, "sweep", n, fmt, &texts);
    }
}
/// all short strings over the characters that mean something to the format
const ALPHA: &[char] = &['^', '\\', 'U', '+', '4', ' ', '@', 'J', 'E', '\u{1c}', '\n', '\r', '\u{0}', '\u{e9}', '\u{1f600}', '%', '\t'];
fn short_case(c: &mut Case) {
    let n = ALPHA.len() as u64;
    let a = ALPHA[(c.idx % n) as usize];
    let mut texts = vec![a.to_string()];
    for b in ALPHA {
        texts.push([a, *b].iter().collect());
        for d in ALPHA {
            texts.push([a, *b, *d].iter().collect());
        }
    }
    // longer ones at random, with near-escapes
    for _ in 0..200 {
        let k = 4 + c.rng.below(8);
        texts.push((0..k).map(|_| if c.rng.chance(1, 4) { "\\U+".to_string() } else { c.rng.pick(ALPHA).to_string() }).collect::<String>());
    }
    for _ in 0..100 {
        texts.push(hard_text(&mut c.rng));
    }
    for fmt in [Fmt::Ascii, Fmt::Binary] {
        let (o, w) = (*c.rng.pick(OLD), *c.rng.pick(NEW));
        many(c, "short", o, fmt, &texts);
        many(c, "short", w, fmt, &texts);
    }
}

/// texts of thousands of characters
fn long_case(c: &mut Case) {
    let mut texts = vec![];
    for k in 0..3 {
        let n = crate::big::size(&mut c.rng, if k == 0 { 5000 } else { 60_000 });
        let mut s = crate::big::long_text(&mut c.rng, n);
        if c.rng.chance(1, 2) {
            while s.len() < n + 10 {
                let h = hard_text(&mut c.rng);
                let at = c.rng.below(s.len() + 1);
                if s.is_char_boundary(at) { s.insert_str(at, &h) } else { s.push_str(&h) }
                if s.len() > n / 2 && c.rng.chance(1, 8) { break; }
            }
        }
        texts.push(s);
    }
    for fmt in [Fmt::Ascii, Fmt::Binary] {
        let (o, w) = (*c.rng.pick(OLD), *c.rng.pick(NEW));
        many(c, "long", o, fmt, &texts);
        many(c, "long", w, fmt, &texts);
    }
}

// ---------------------------------------------------------------- reading what others write
/// a small file with six texts in different places; `{n}` stands for the n-th
fn vessel(v: &str) -> Vec<Pair> {
    let s = Pair::s;
    vec![
        s(0, "SECTION"), s(2, "HEADER"), s(9, "$ACADVER"), s(1, v), s(9, "$MENU"), s(1, "@@0@@"), s(0, "ENDSEC"),
        s(0, "SECTION"), s(2, "TABLES"), s(0, "TABLE"), s(2, "LAYER"), Pair::i(70, 1), s(0, "LAYER"), s(2, "@@1@@"), Pair::i(70, 0), Pair::i(62, 7), s(6, "CONTINUOUS"), s(0, "ENDTAB"), s(0, "ENDSEC"),
        s(0, "SECTION"), s(2, "BLOCKS"), s(0, "BLOCK"), s(8, "0"), s(2, "B"), s(3, "B"), Pair::i(70, 0), Pair::f(10, 0.0), Pair::f(20, 0.0), Pair::f(30, 0.0), s(1, ""),
        s(0, "TEXT"), s(8, "0"), s(1, "@@2@@"), s(0, "ENDBLK"), s(8, "0"), s(0, "ENDSEC"),
        s(0, "SECTION"), s(2, "ENTITIES"), s(0, "TEXT"), s(8, "0"), s(1, "@@3@@"), s(1001, "APP"), s(1000, "@@4@@"), s(0, "ENDSEC"),
        s(0, "SECTION"), s(2, "OBJECTS"), s(0, "XRECORD"), s(5, "FF"), s(100, "AcDbXrecord"), Pair::i(280, 1), s(300, "@@5@@"), s(0, "ENDSEC"), s(0, "EOF"),
    ]
}
fn fill(v: &str, fmt: Fmt, wide: bool, texts: &[Vec<u8>]) -> Vec<u8> {
    let ps = vessel(v);
    let mut b = match fmt { Fmt::Ascii => to_ascii(&ps), Fmt::Binary => to_binary(&ps, wide) };
    for (i, t) in texts.iter().enumerate() {
        let k = format!("@@{}@@", i).into_bytes();
        let at = b.windows(k.len()).position(|w| w == &k[..]).expect("harness: vessel");
        b.splice(at..at + k.len(), t.iter().copied());
    }
    b
}
fn observe(d: &Drawing) -> Vec<Option<String>> {
    let mut o = vec![Some(d.header.file_name.clone())];
    o.push(d.layers().map(|l| l.name.clone()).find(|n| n != "0"));
    o.push(d.blocks().find(|b| b.name == "B").and_then(|b| b.entities.first()).and_then(|e| if let EntityType::Text(t) = &e.specific { Some(t.value.clone()) } else { None }));
    let e = d.entities().next();
    o.push(e.and_then(|e| if let EntityType::Text(t) = &e.specific { Some(t.value.clone()) } else { None }));
    o.push(e.and_then(|e| e.common.x_data.first()).and_then(|x| x.items.first()).and_then(|i| if let dxf::XDataItem::Str(s) = i { Some(s.clone()) } else { None }));
    o.push(d.objects().find_map(|x| if let ObjectType::XRecordObject(r) = &x.specific { r.data_pairs.first().and_then(|p| if let dxf::CodePairValue::Str(s) = &p.value { Some(s.clone()) } else { None }) } else { None }));
    o
}
const PLACES: &[&str] = &["header", "layer", "block", "entity", "xdata", "xrecord"];
fn expect(c: &mut Case, what: &str, b: &[u8], enc: &'static Encoding, want: &[String], detail: String) {
    let mut rd = b;
    match guard(|| Drawing::load_with_encoding(&mut rd, enc).map_err(|e| e.to_string())) {
        Err(p) => { c.attach("input.dxf", b); c.fail(format!("{}:panic", what), format!("{}: {}", detail, p)) }
        Ok(Err(e)) => { c.attach("input.dxf", b); c.fail(format!("{}:error", what), format!("{}: {}", detail, e)) }
        Ok(Ok(d)) => {
            c.eval(b);
            let g = observe(&d);
            for i in 0..want.len() {
                if g[i].as_ref() != Some(&want[i]) {
                    c.attach("input.dxf", b);
                    c.fail(format!("{}:{}", what, PLACES[i]), format!("{}: the text in the {} is \"{}\" instead of \"{}\"", detail, PLACES[i], g[i].as_ref().map(|s| clip(s)).unwrap_or_default(), clip(&want[i])));
                }
            }
        }
    }
}
const ENCODINGS: &[&Encoding] = &[
    &WINDOWS_1252_INIT, &UTF_8_INIT, &SHIFT_JIS_INIT, &GBK_INIT, &GB18030_INIT, &BIG5_INIT, &EUC_KR_INIT, &EUC_JP_INIT, &KOI8_R_INIT, &KOI8_U_INIT, &MACINTOSH_INIT, &X_MAC_CYRILLIC_INIT, &X_USER_DEFINED_INIT, &IBM866_INIT,
    &WINDOWS_874_INIT, &WINDOWS_1250_INIT, &WINDOWS_1251_INIT, &WINDOWS_1253_INIT, &WINDOWS_1254_INIT, &WINDOWS_1255_INIT, &WINDOWS_1256_INIT, &WINDOWS_1257_INIT, &WINDOWS_1258_INIT,
    &ISO_8859_2_INIT, &ISO_8859_3_INIT, &ISO_8859_4_INIT, &ISO_8859_5_INIT, &ISO_8859_6_INIT, &ISO_8859_7_INIT, &ISO_8859_8_INIT, &ISO_8859_10_INIT, &ISO_8859_13_INIT, &ISO_8859_14_INIT, &ISO_8859_15_INIT, &ISO_8859_16_INIT,
];
const OLDV: &[(&str, bool)] = &[("AC1006", false), ("AC1009", false), ("AC1012", true), ("AC1014", true), ("AC1015", true), ("AC1018", true)];
const NEWV: &[&str] = &["AC1021", "AC1024", "AC1027", "AC1032"];
/// characters of the encoding, found by asking it
fn repertoire(enc: &'static Encoding) -> Vec<char> {
    let mut v = vec![];
    for n in 0xa0..0x11000u32 {
        let n = if n >= 0x10000 { 0x1f300 + (n - 0x10000) } else { n };
        if let Some(ch) = char::from_u32(n) {
            let s = ch.to_string();
            let (b, e, bad) = enc.encode(&s);
            if !bad && e == enc && enc.decode_without_bom_handling(&b).0 == s {
                v.push(ch);
            }
        }
    }
    v
}
/// a text in the encoding with the format's escapes, as another program writes it
fn foreign(enc: &'static Encoding, chars: &[char], r: &mut Rng, escapes: bool) -> (Vec<u8>, String) {
    let (mut b, mut s) = (vec![], String::new());
    for _ in 0..1 + r.below(60) {
        match r.below(12) {
            0 if escapes => {
                let ch = *r.pick(&['\u{e9}', '\u{4e2d}', '\u{20ac}', '\u{1f600}', '\u{10ffff}', 'A', '^', '\\', '\n']);
                for u in ch.encode_utf16(&mut [0; 2]) {
                    b.extend(if r.chance(1, 2) { format!("\\U+{:04X}", u) } else { format!("\\U+{:04x}", u) }.bytes());
                }
                s.push(ch);
            }
            1 => {
                let n = r.below(32) as u8;
                b.extend([b'^', n + 0x40]);
                s.push(n as char);
                // keep the escape's second character from starting another escape
                b.push(b'.');
                s.push('.');
            }
            2 => { b.extend(b"^ "); s.push('^'); }
            3 => { let ch = (0x20 + r.below(0x5f)) as u8; if ch != b'^' && ch != b'\\' { b.push(ch); s.push(ch as char); } }
            4 => { b.extend(b"\\P"); s.push_str("\\P"); }
            _ => { let ch = *r.pick(chars); b.extend(enc.encode(&ch.to_string()).0.iter()); s.push(ch); }
        }
    }
    (b, s)
}
fn encoding_case(c: &mut Case, n: usize) {
    let enc: &'static Encoding = ENCODINGS[c.idx as usize % ENCODINGS.len()];
    let chars = repertoire(enc);
    if chars.len() < 5 {
        c.inconclusive.push(format!("harness: {} has {} characters", enc.name(), chars.len()));
        return;
    }
    // characters whose bytes collide with the format's own
    let tricky: Vec<char> = chars.iter().copied().filter(|ch| enc.encode(&ch.to_string()).0.iter().skip(1).any(|b| [b'^', b'\\', b' ', b'+', b'{', b'|', b'@', b'0'].contains(b))).collect();
    c.max("characters_of_an_encoding", chars.len() as u64);
    c.count("colliding_characters", tricky.len() as u64);
    let mut done = 0;
    for k in 0..n {
        let r = &mut c.rng;
        let (ver, wide) = *r.pick(OLDV);
        let fmt = any_fmt(r);
        let mut ts: Vec<(Vec<u8>, String)> = (0..6).map(|_| foreign(enc, if !tricky.is_empty() && r.chance(1, 2) { &tricky } else { &chars }, r, true)).collect();
        // in turn, every character of the encoding
        for t in ts.iter_mut().skip(2) {
            if t.0.len() < 80 && done < chars.len() {
                t.0.push(b'.');
                t.1.push('.');
                for ch in chars.iter().skip(done).take(200) {
                    t.0.extend(enc.encode(&ch.to_string()).0.iter());
                    t.1.push(*ch);
                }
                done += 200;
            }
        }
        ts[1].0.insert(0, b'L');
        ts[1].1.insert(0, 'L');
        let b = fill(ver, fmt, wide, &ts.iter().map(|t| t.0.clone()).collect::<Vec<_>>());
        let want: Vec<String> = ts.iter().map(|t| t.1.clone()).collect();
        c.count("texts", 6);
        expect(c, "encoding", &b, enc, &want, format!("{} {} {:?}", enc.name(), ver, fmt));
        // from R2007 on, files are UTF-8 whatever the caller says
        if k % 4 == 0 {
            let r = &mut c.rng;
            let ver = *r.pick(NEWV);
            let (fmt, bom) = (any_fmt(r), r.chance(1, 2));
            let mut ts: Vec<(Vec<u8>, String)> = (0..6).map(|_| foreign(UTF_8, &chars, r, false)).collect();
            ts[1].0.insert(0, b'L');
            ts[1].1.insert(0, 'L');
            let mut b = fill(ver, fmt, true, &ts.iter().map(|t| t.0.clone()).collect::<Vec<_>>());
            if bom && fmt == Fmt::Ascii {
                b.splice(0..0, [0xEF, 0xBB, 0xBF]);
            }
            let want: Vec<String> = ts.iter().map(|t| t.1.clone()).collect();
            expect(c, "utf8", &b, enc, &want, format!("{} read as {} {:?} bom {}", ver, enc.name(), fmt, bom));
            // and the default is UTF-8 too
            expect(c, "utf8", &b, WINDOWS_1252, &want, format!("{} {:?} bom {}", ver, fmt, bom));
        }
    }
}
/// every byte of the default code page
fn codepage_case(c: &mut Case) {
    let enc: &'static Encoding = ENCODINGS[c.idx as usize % ENCODINGS.len()];
    if !enc.is_single_byte() {
        return;
    }
    for (ver, wide) in OLDV {
        for fmt in [Fmt::Ascii, Fmt::Binary] {
            let (mut b, mut s) = (vec![], String::new());
            for x in 0x20u8..=0xff {
                if x == b'^' || x == b'\\' {
                    continue;
                }
                let one = [x];
                let (t, bad) = enc.decode_without_bom_handling(&one);
                if !bad {
                    b.push(x);
                    s.push_str(&t);
                }
            }
            let mut bs = vec![b.clone(); 6];
            let mut ss = vec![s.clone(); 6];
            bs[1].insert(0, b'L');
            ss[1].insert(0, 'L');
            let f = fill(ver, fmt, *wide, &bs);
            c.count("texts", 6);
            expect(c, "codepage", &f, enc, &ss, format!("{} {} {:?}", enc.name(), ver, fmt));
        }
    }
}
pub fn c19(t: bool) -> Check {
    let m = if t { 10 } else { 1 };
    let fs = text_fields();
    let n = fs.len() as u64;
    Check {
        id: "C19",
        level: "exploration",
        rule: "one evaluation = one text (or one small file with six texts) written or loaded, in one place, version, format and encoding, and compared character by character; distinct by content",
        families: vec![
            family("fields", n, move |c| { let (name, li) = fs[c.idx as usize]; field_case(c, name, li, 3 * m) }),
            family("sweep", 0x110000 / (64 * 256), sweep_case),
            family("long", 40 * m as u64, long_case),
            family("short", ALPHA.len() as u64 * 2 * m as u64, short_case),
            family("codepage", ENCODINGS.len() as u64, codepage_case),
            family("encodings", ENCODINGS.len() as u64 * m as u64, |c| encoding_case(c, 24)),
        ],
        cpu_limit: 120,
        assumptions: vec![
            "encoding_rs decodes and encodes code pages correctly (it is a dependency, used by the library and by the monitor)".into(),
            "a literal \\U+XXXX is not representable in files before R2007".into(),
        ],
    }
}
