//! C22: thumbnail images survive unchanged.
use crate::fw::*;
use crate::gen::*;
use crate::lab::*;
use crate::mini::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::types::*;
use dxf::enums::AcadVersion;
use dxf::Drawing;
use image::{DynamicImage, GrayImage, RgbImage, RgbaImage};
use serde_json::Value;

type Pixels = (u32, u32, Vec<[u8; 4]>);

fn pixels(i: &DynamicImage) -> Pixels {
    (i.width(), i.height(), i.to_rgba8().pixels().map(|p| p.0).collect())
}
fn sizes(idx: u64, r: &mut Rng) -> (u32, u32) {
    if is_large() {
        let n = crate::big::size(r, 3000) as u32;
        return match r.below(3) { 0 => (n, 1 + r.below(40) as u32), 1 => (1 + r.below(40) as u32, n), _ => (300 + r.below(300) as u32, 300 + r.below(300) as u32) };
    }
    match idx % 8 {
        0 => (1, 1),
        1 => (1, 1 + r.below(60) as u32),
        2 => (1 + r.below(60) as u32, 1),
        3 => (1 + r.below(9) as u32, 1 + r.below(9) as u32),
        4 => (1 + r.below(130) as u32, 1 + r.below(20) as u32),
        5 => (*r.pick(&[4, 8, 16, 32, 64, 100, 128, 256]), 1 + r.below(40) as u32),
        6 => (1 + r.below(200) as u32, 1 + r.below(150) as u32),
        _ => (1 + r.below(40) as u32, 1 + r.below(40) as u32),
    }
}
fn fill(n: usize, r: &mut Rng) -> Vec<u8> {
    match r.below(5) {
        0 => vec![*r.pick(&[0u8, 255, 1, 128, 13, 10, 26]); n],
        1 => (0..n).map(|i| i as u8).collect(),
        _ => r.bytes(n),
    }
}
fn first_diff(a: &Pixels, b: &Pixels) -> Option<String> {
    if (a.0, a.1) != (b.0, b.1) {
        return Some(format!("{}x{} became {}x{}", a.0, a.1, b.0, b.1));
    }
    let i = (0..a.2.len()).find(|&i| a.2[i] != b.2[i])?;
    Some(format!("{}x{}: pixel {},{} {:?} became {:?}", a.0, a.1, i as u32 % a.0, i as u32 / a.0, a.2[i], b.2[i]))
}
fn rest(d: &Drawing) -> Value {
    serde_json::json!({"drawing": full(d)["drawing"]})
}
fn small(v: AcadVersion, r: &mut Rng) -> Drawing {
    if r.chance(1, 3) { let m = Mix::any(r); drawing(v, r, m) } else { new_drawing(v) }
}
fn trip_case(c: &mut Case) {
    let mut v = VERSIONS[(c.idx % VERSIONS.len() as u64) as usize];
    if v < AcadVersion::R2000 && c.idx % 3 != 0 { let n: Vec<_> = VERSIONS.iter().copied().filter(|v| *v >= AcadVersion::R2000).collect(); v = *c.rng.pick(&n); }
    for fmt in [Fmt::Ascii, Fmt::Binary] {
        let (w, h) = sizes(c.idx / VERSIONS.len() as u64, &mut c.rng);
        let n = (w * h) as usize;
        let (kind, img) = match c.rng.below(3) {
            0 => ("gray", DynamicImage::ImageLuma8(GrayImage::from_raw(w, h, fill(n, &mut c.rng)).unwrap())),
            1 => ("rgb", DynamicImage::ImageRgb8(RgbImage::from_raw(w, h, fill(n * 3, &mut c.rng)).unwrap())),
            _ => ("rgba", DynamicImage::ImageRgba8(RgbaImage::from_raw(w, h, fill(n * 4, &mut c.rng)).unwrap())),
        };
        let want = pixels(&img);
        let mut d = small(v, &mut c.rng);
        let plain = save(&d, fmt).and_then(|b| load(&b));
        d.thumbnail = Some(img);
        let before = full(&d);
        let out = match guard(|| save(&d, fmt)) {
            Ok(Ok(b)) => b,
            Ok(Err(e)) => { c.fail("save:error", format!("{:?} {:?} {}x{} {}: {}", v, fmt, w, h, kind, e)); continue; }
            Err(p) => { c.fail(format!("save:panic:{}", panic_sig(&p)), format!("{:?} {:?} {}x{} {}: {}", v, fmt, w, h, kind, p)); continue; }
        };
        c.eval(&out);
        if !same(&before, &full(&d), true).is_empty() { c.fail("save:mutates", format!("{:?} saving changed the drawing", v)); }
        c.max("image_bytes_max", (want.2.len() * 4) as u64);
        c.count(kind, 1);
        let at = format!("{:?} {:?} {}x{} {}", v, fmt, w, h, kind);
        let got = match guard(|| load(&out)) {
            Ok(Ok(g)) => g,
            Ok(Err(e)) | Err(e) => { c.attach("input.dxf", &out); c.fail("trip:error", format!("{}: {}", at, e)); continue; }
        };
        match (&got.thumbnail, v >= AcadVersion::R2000) {
            (Some(i), true) => {
                c.count("images_compared", 1);
                if let Some(s) = first_diff(&want, &pixels(i)) { c.attach("input.dxf", &out); c.fail(format!("trip:pixels:{}", kind), format!("{}: {}", at, s)) }
            }
            (None, false) => c.count("versions_without_image", 1),
            (None, true) => { c.attach("input.dxf", &out); c.fail("trip:lost", at.clone()) }
            (Some(_), false) => c.count("stored_before_r2000", 1),
        }
        // stored length, chunk sizes and the bytes themselves, read independently
        if v >= AcadVersion::R2000 {
            let p: Vec<Pair> = match fmt { Fmt::Ascii => parse_ascii(&out).unwrap_or_default(), Fmt::Binary => parse_binary(&out).unwrap_or_default().into_iter().map(|x| x.1).collect() };
            if let Some(i) = p.iter().rposition(|x| x.is(2, "THUMBNAILIMAGE")) {
                let len = match p.get(i + 1) { Some(Pair { code: 90, val: Val::I(n) }) => *n, x => { c.fail("section:length", format!("{}: no length but {:?}", at, x)); -1 } };
                let mut data = vec![];
                for x in &p[i + 2..] {
                    match x { Pair { code: 310, val: Val::B(b) } => { if b.len() > 128 && fmt == Fmt::Ascii { c.fail("section:chunk", format!("{}: chunk of {}", at, b.len())) } data.extend(b) } _ => break }
                }
                if len >= 0 && len != data.len() as i64 { c.fail("section:length", format!("{}: {} bytes announced, {} stored", at, len, data.len())) }
                match decode(&data) {
                    Some(q) => { c.count("sections_decoded", 1); if let Some(s) = first_diff(&want, &q) { c.attach("input.dxf", &out); c.fail(format!("section:pixels:{}", kind), format!("{}: stored image differs: {}", at, s)) } }
                    None => { c.attach("input.dxf", &out); c.fail("section:bitmap", format!("{}: not a bitmap", at)) }
                }
            } else { c.fail("section:missing", at.clone()) }
        }
        // the rest of the drawing
        match plain {
            Ok(p) => {
                let (a, b) = (rest(&p), rest(&got));
                let ds = same(&a, &b, true);
                if !ds.is_empty() { c.attach("input.dxf", &out); c.fail(format!("rest:{}", place_sig(&ds[0])), format!("{}: {}", at, report(&a, &b, &ds))) }
                else { c.count("rest_compared", 1) }
            }
            Err(_) => {}
        }
        // a second save restores the same image again
        if let Ok(Ok(g2)) = guard(|| save(&got, if fmt == Fmt::Ascii { Fmt::Binary } else { Fmt::Ascii }).and_then(|b| load(&b))) {
            if v >= AcadVersion::R2000 && g2.thumbnail.as_ref().map(|i| first_diff(&want, &pixels(i))) != Some(None) {
                c.fail("trip:second", format!("{}: after saving again {:?}", at, g2.thumbnail.map(|i| first_diff(&want, &pixels(&i)))));
            }
        }
    }
}

/// an image without pixels has nothing to restore, but may not spoil the file
fn empty_case(c: &mut Case) {
    for (w, h) in [(0, 0), (0, 3), (3, 0)] {
        let v = VERSIONS[(c.idx % VERSIONS.len() as u64) as usize];
        let mut d = new_drawing(v);
        d.thumbnail = Some(match c.idx / VERSIONS.len() as u64 { 0 => DynamicImage::ImageLuma8(GrayImage::new(w, h)), 1 => DynamicImage::ImageRgb8(RgbImage::new(w, h)), _ => DynamicImage::ImageRgba8(RgbaImage::new(w, h)) });
        for fmt in [Fmt::Ascii, Fmt::Binary] {
            match guard(|| save(&d, fmt)) {
                Err(p) => c.fail(format!("empty:panic:{}", panic_sig(&p)), format!("{:?} {:?} {}x{}: {}", v, fmt, w, h, p)),
                Ok(Err(_)) => c.count("empty_refused", 1),
                Ok(Ok(b)) => {
                    c.eval(&b);
                    if let Err(e) | Ok(Err(e)) = guard(|| load(&b).map(|_| ())) { c.attach("input.dxf", &b); c.fail("empty:unreadable", format!("{:?} {:?} {}x{}: the saved file does not load: {}", v, fmt, w, h, e)) }
                }
            }
        }
    }
}
fn u32at(b: &[u8], o: usize) -> Option<u32> {
    Some(u32::from_le_bytes(b.get(o..o + 4)?.try_into().ok()?))
}
fn scale(v: u32, mask: u32) -> u8 {
    if mask == 0 { return 0; }
    let m = (mask >> mask.trailing_zeros()) as u64;
    (((v & mask) >> mask.trailing_zeros()) as u64 * 255 * 2 + m).div_euclid(2 * m) as u8
}
/// an independent decoder of uncompressed device independent bitmaps; None: damaged or not handled
fn decode(b: &[u8]) -> Option<Pixels> {
    let hs = u32at(b, 0)? as usize;
    if ![40, 52, 56, 108, 124].contains(&hs) || b.len() < hs { return None; }
    let w = u32at(b, 4)? as i32;
    let h = u32at(b, 8)? as i32;
    let bits = u16::from_le_bytes([b[14], b[15]]) as u32;
    let comp = u32at(b, 16)?;
    let pal = u32at(b, 32)? as usize;
    if w <= 0 || h == 0 || h == i32::MIN || w > 1 << 15 || h.abs() > 1 << 15 { return None; }
    let mut o = hs;
    let masks = match (comp, bits) {
        (0, 16) => [0x7c00, 0x3e0, 0x1f, 0],
        (0, 32) => [0xff0000, 0xff00, 0xff, 0],
        (0, 1 | 4 | 8 | 24) => [0; 4],
        (3, 16 | 32) => {
            let m = [u32at(b, 40)?, u32at(b, 44)?, u32at(b, 48)?, if hs > 52 { u32at(b, 52)? } else { 0 }];
            if hs == 40 { o += 12; }
            m
        }
        _ => return None,
    };
    if comp == 3 && (masks[0] == 0 || masks[1] == 0 || masks[2] == 0) { return None; }
    let np = if bits <= 8 { if pal == 0 { 1 << bits } else { pal } } else { pal };
    if np > 1 << 16 { return None; }
    let palette = b.get(o..o + np * 4)?;
    o += np * 4;
    let row = ((w as usize * bits as usize + 31) / 32) * 4;
    let data = b.get(o..)?;
    if data.len() < row * h.unsigned_abs() as usize { return None; }
    let mut out = vec![];
    for y in 0..h.unsigned_abs() as usize {
        let line = &data[row * if h > 0 { h as usize - 1 - y } else { y }..];
        for x in 0..w as usize {
            out.push(match bits {
                1 | 4 | 8 => {
                    let at = x * bits as usize;
                    let i = ((line[at / 8] >> (8 - bits as usize - at % 8)) as usize) & ((1 << bits) - 1);
                    let q = palette.get(i * 4..i * 4 + 3)?;
                    [q[2], q[1], q[0], 255]
                }
                24 => [line[x * 3 + 2], line[x * 3 + 1], line[x * 3], 255],
                _ => {
                    let n = bits as usize / 8;
                    let mut p = 0u32;
                    for k in 0..n { p |= (line[x * n + k] as u32) << (8 * k); }
                    [scale(p, masks[0]), scale(p, masks[1]), scale(p, masks[2]), if masks[3] == 0 { 255 } else { scale(p, masks[3]) }]
                }
            });
        }
    }
    Some((w as u32, h.unsigned_abs(), out))
}
/// bitmaps as other programs write them
fn foreign_bmp(w: u32, h: u32, flip: bool, form: u64, r: &mut Rng) -> (String, Vec<u8>) {
    let (hs, bits, comp): (u32, u32, u32) = match form {
        0 => (40, 1, 0),
        1 => (40, 4, 0),
        2 => (40, 8, 0),
        3 => (40, 24, 0),
        4 => (40, 32, 0),
        5 => (40, 16, 0),
        6 => (108, 32, 3),
        7 => (124, 24, 0),
        8 => (108, 8, 0),
        9 => (40, 16, 3),
        10 => (40, 32, 3),
        11 => (124, 32, 3),
        _ => (108, 1, 0),
    };
    let full_pal = 1usize << bits.min(8);
    // number of colors announced and stored
    let (announced, stored) = if bits <= 8 {
        match r.below(3) { 0 => (0, full_pal), 1 => (full_pal, full_pal), _ => { let n = 1 + r.below(full_pal) as usize; (n, n) } }
    } else if r.chance(1, 6) { let n = 1 + r.below(16) as usize; (n, n) } else { (0, 0) };
    let masks: [u32; 4] = match (bits, r.below(3)) {
        (16, 0) => [0xf800, 0x7e0, 0x1f, 0],
        (16, 1) => [0x7c00, 0x3e0, 0x1f, 0],
        (16, _) => [0x1f, 0x7e0, 0xf800, 0],
        (_, 0) => [0xff0000, 0xff00, 0xff, 0xff000000],
        (_, 1) => [0xff, 0xff00, 0xff0000, 0xff000000],
        _ => [0xff000000, 0xff0000, 0xff00, 0],
    };
    let row = ((w * bits + 31) / 32 * 4) as usize;
    let size = row * h as usize;
    let mut b = vec![];
    b.extend(hs.to_le_bytes());
    b.extend(w.to_le_bytes());
    b.extend((if flip { -(h as i32) } else { h as i32 }).to_le_bytes());
    b.extend(1u16.to_le_bytes());
    b.extend((bits as u16).to_le_bytes());
    b.extend(comp.to_le_bytes());
    b.extend((if r.chance(1, 2) && comp == 0 { 0 } else { size as u32 }).to_le_bytes());
    b.extend((if r.chance(1, 2) { 2835u32 } else { 0 }).to_le_bytes());
    b.extend(0u32.to_le_bytes());
    b.extend((announced as u32).to_le_bytes());
    b.extend((r.below(2) as u32 * announced as u32).to_le_bytes());
    if comp == 3 || hs > 40 {
        for (i, m) in masks.iter().enumerate() { if hs > 40 || i < 3 { b.extend((if comp == 3 { *m } else { 0 }).to_le_bytes()) } }
    }
    if hs > 40 { b.resize(hs as usize, 0); b[56..60].copy_from_slice(b"BGRs"); }
    for _ in 0..stored { let p = r.bytes(3); b.extend(p); b.push(if r.chance(1, 4) { 255 } else { 0 }); }
    let mut data = fill(size, r);
    if bits <= 8 && stored < full_pal {
        // no index beyond the palette
        data = vec![0; size];
        for y in 0..h as usize {
            for x in 0..w as usize {
                let at = x * bits as usize;
                data[y * row + at / 8] |= (r.below(stored) as u8) << (8 - bits as usize - at % 8);
            }
        }
    }
    b.extend(data);
    (format!("header {} bits {} compression {} colors {}/{}{}", hs, bits, comp, announced, stored, if flip { " top-down" } else { "" }), b)
}
fn with_image(base: &[Pair], len: i64, chunks: &[Vec<u8>]) -> Vec<Pair> {
    let mut p = base.to_vec();
    let mut s = vec![Pair::s(0, "SECTION"), Pair::s(2, "THUMBNAILIMAGE"), Pair::i(90, len)];
    s.extend(chunks.iter().map(|c| Pair { code: 310, val: Val::B(c.clone()) }));
    s.push(Pair::s(0, "ENDSEC"));
    let e = p.len() - 1;
    p.splice(e..e, s);
    p
}
fn chunked(b: &[u8], r: &mut Rng) -> Vec<Vec<u8>> {
    let n = *r.pick(&[127usize, 128, 127, 1, 16, 54, 200, 255]);
    if r.chance(1, 6) {
        let mut o = vec![];
        let mut i = 0;
        while i < b.len() { let k = (1 + r.below(255) as usize).min(b.len() - i); o.push(b[i..i + k].to_vec()); i += k; }
        return o;
    }
    b.chunks(n).map(|x| x.to_vec()).collect()
}
const FORMS: u64 = 13;
fn foreign_case(c: &mut Case) {
    let form = c.idx % FORMS;
    for k in 0..4u64 {
        let v = *c.rng.pick(VERSIONS);
        let fmt = any_fmt(&mut c.rng);
        let (w, h) = sizes(c.idx / FORMS + k * 3, &mut c.rng);
        let flip = c.rng.chance(1, 4);
        let (desc, b) = foreign_bmp(w, h, flip, form, &mut c.rng);
        let want = decode(&b).expect("harness: own bitmap not decoded");
        let d = small(v, &mut c.rng);
        let f = file_of(&d, fmt);
        let base = load(&f.bytes).map(|d| rest(&d));
        let chunks = chunked(&b, &mut c.rng);
        let len = if c.rng.chance(1, 5) { c.rng.below(1 << 31) as i64 } else { b.len() as i64 };
        let bytes = render(&with_image(&f.pairs, len, &chunks), fmt, v);
        let plain = render(&f.pairs, fmt, v);
        c.eval(&bytes);
        let at = format!("{:?} {:?} {}x{} {}", v, fmt, w, h, desc);
        match guard(|| load(&bytes)) {
            Ok(Ok(g)) => {
                match &g.thumbnail {
                    Some(i) => {
                        c.count("images_compared", 1);
                        if let Some(s) = first_diff(&want, &pixels(i)) { c.attach("input.dxf", &bytes); c.fail(format!("foreign:pixels:{}", form), format!("{}: {}", at, s)) }
                    }
                    None => { c.attach("input.dxf", &bytes); c.fail(format!("foreign:lost:{}", form), at.clone()) }
                }
                let want = match load(&plain) { Ok(d) => rest(&d), Err(_) => match base { Ok(b) => b, Err(_) => continue } };
                let got = rest(&g);
                let ds = same(&want, &got, true);
                if !ds.is_empty() { c.attach("input.dxf", &bytes); c.fail(format!("foreign:rest:{}", place_sig(&ds[0])), format!("{}: {}", at, report(&want, &got, &ds))) }
            }
            Ok(Err(e)) => { c.attach("input.dxf", &bytes); c.fail(format!("foreign:error:{}", form), format!("{}: {}", at, e)) }
            Err(p) => { c.attach("input.dxf", &bytes); c.fail(format!("foreign:panic:{}", panic_sig(&p)), format!("{}: {}", at, p)) }
        }
    }
}
fn damaged_case(c: &mut Case) {
    for k in 0..8u64 {
        let v = *c.rng.pick(VERSIONS);
        let fmt = any_fmt(&mut c.rng);
        let (w, h) = sizes(c.idx + k, &mut c.rng);
        let form = c.rng.below(FORMS as usize) as u64;
        let (desc, mut b) = foreign_bmp(w, h, false, form, &mut c.rng);
        let whole = b.clone();
        let f = file_of(&new_drawing(v), fmt);
        let mut cut = false;
        let how = match c.rng.below(6) {
            0 => { let n = c.rng.below(b.len()) as usize; b.truncate(n); cut = true; "truncated" }
            1 => { b.pop(); cut = true; "one byte short" }
            2 => { let n = c.rng.below(4); for _ in 0..=n { let i = c.rng.below(40) as usize; b[i] = c.rng.next() as u8; } "damaged header" }
            3 => { let o = *c.rng.pick(&[0usize, 4, 8, 16, 20, 32]); let x = hostile_int(&mut c.rng, i32::MIN as i64, i32::MAX as i64) as i32; b[o..o + 4].copy_from_slice(&x.to_le_bytes()); "hostile header field" }
            4 => { let x = *c.rng.pick(&[0u16, 1, 2, 3, 4, 7, 8, 15, 16, 24, 31, 32, 33, 64, 255, 256, 65535]); b[14..16].copy_from_slice(&x.to_le_bytes()); "other depth" }
            _ => { let n = c.rng.below(60) as usize; b = c.rng.bytes(n); "noise" }
        };
        let chunks = chunked(&b, &mut c.rng);
        let bytes = render(&with_image(&f.pairs, b.len() as i64, &chunks), fmt, v);
        c.eval(&bytes);
        c.count("damaged_images", 1);
        let at = format!("{:?} {:?} {}x{} {} {}", v, fmt, w, h, desc, how);
        mem_start(1 << 30);
        let g = guard(|| load(&bytes));
        let peak = mem_peak();
        if peak > (64 << 20) + 4096 * bytes.len() as i64 { c.attach("input.dxf", &bytes); c.fail("damaged:memory", format!("{}: {} bytes allocated for {} read", at, peak, bytes.len())) }
        match g {
            Err(p) => { c.attach("input.dxf", &bytes); c.fail(format!("damaged:panic:{}", panic_sig(&p)), format!("{}: {}", at, p)) }
            Ok(Err(_)) => c.count("outcome_error", 1),
            Ok(Ok(g)) => match &g.thumbnail {
                None => c.count("outcome_no_image", 1),
                Some(i) => {
                    c.count("outcome_image", 1);
                    match decode(&b) {
                        Some(q) => { c.count("images_compared", 1); if let Some(s) = first_diff(&q, &pixels(i)) { c.attach("input.dxf", &bytes); c.fail("damaged:pixels", format!("{}: {}", at, s)) } }
                        // cut in the middle of what the header announces: no pixels to show
                        None if cut && decode(&whole).is_some() => { c.attach("input.dxf", &bytes); c.fail("damaged:truncated", format!("{}: an image was made of {} of {} bytes", at, b.len(), whole.len())) }
                        None => c.count("image_not_judged", 1),
                    }
                }
            },
        }
        // unreadable hex digits are an error
        if fmt == Fmt::Ascii {
            let t = String::from_utf8(to_ascii(&with_image(&f.pairs, whole.len() as i64, &chunked(&whole, &mut c.rng)))).unwrap();
            let lines: Vec<&str> = t.split("\r\n").collect();
            let at310: Vec<usize> = (0..lines.len() - 1).filter(|&i| lines[i].trim() == "310" && i % 2 == 0).collect();
            let i = *c.rng.pick(&at310) + 1;
            let mut l = lines[i].to_string();
            let how = match c.rng.below(3) {
                0 | 1 => { let k = c.rng.below(l.len()) as usize; l.replace_range(k..k + 1, *c.rng.pick(&["G", "g", "x", "-", "/", ":", "@", "`"])); "a non-digit" }
                _ => { let k = c.rng.below(l.len()) as usize; l.replace_range(k..k + 1, "é"); "a non-ASCII character" }
            };
            let mut ls: Vec<String> = lines.iter().map(|s| s.to_string()).collect();
            ls[i] = l;
            let bytes = ls.join("\r\n").into_bytes();
            c.eval(&bytes);
            match guard(|| load(&bytes)) {
                Err(p) => { c.attach("input.dxf", &bytes); c.fail(format!("hex:panic:{}", panic_sig(&p)), format!("{:?} {}: {}", v, how, p)) }
                Ok(Err(_)) => c.count("outcome_error", 1),
                Ok(Ok(g)) => if g.thumbnail.is_some() { c.attach("input.dxf", &bytes); c.fail("hex:accepted", format!("{:?} {}: an image was made of it", v, how)) } else { c.count("outcome_no_image", 1) }
            }
        }
    }
}
pub fn c22(t: bool) -> Check {
    let m = if t { 12 } else { 1 };
    Check {
        id: "C22",
        level: "exploration",
        rule: "one evaluation = one image saved and loaded, or one file with a hand-built or damaged image loaded, and compared pixel by pixel with an independent decoder; distinct by file content",
        families: vec![family("trip", VERSIONS.len() as u64 * 40 * m, trip_case), family("large", 64 * m, |c| large(|| trip_case(c))), family("empty", VERSIONS.len() as u64 * 3, empty_case), family("foreign", FORMS * 24 * m, foreign_case), family("damaged", 300 * m, damaged_case)],
        cpu_limit: 120,
        assumptions: vec!["pixel formats with 8 bits per channel without a separate gray alpha (others are converted by the image crate before dxf-rs sees them); uncompressed bitmaps".into()],
    }
}
