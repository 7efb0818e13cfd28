//! C13: faults and chunking of readers and writers; C28: file functions.
use crate::fw::*;
use crate::gen::*;
use crate::lab::*;
use crate::rng::Rng;
use crate::rt::*;
use dxf::{Drawing, DxfError};
use serde_json::json;
use std::io::{self, ErrorKind, Read, Write};

const KINDS: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::ConnectionReset, ErrorKind::BrokenPipe, ErrorKind::PermissionDenied, ErrorKind::TimedOut, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::InvalidData, ErrorKind::OutOfMemory, ErrorKind::NotFound];
const MSG: &str = "injected-fault-7f3a";

/// a reader or writer that fails at an offset, works in small pieces and is interrupted
struct Faulty<'a> {
    data: &'a [u8],
    pos: usize,
    out: Vec<u8>,
    fail_at: usize,
    kind: ErrorKind,
    zero: bool,
    once: bool,
    chunk: usize,
    interrupt: u32,
    rng: Rng,
    delivered: u64,
    interrupted: u64,
    calls: u64,
    after: u64,
}
impl<'a> Faulty<'a> {
    fn new(data: &'a [u8], rng: Rng) -> Faulty<'a> {
        Faulty { data, pos: 0, out: vec![], fail_at: usize::MAX, kind: ErrorKind::Other, zero: false, once: false, chunk: usize::MAX, interrupt: 0, rng, delivered: 0, interrupted: 0, calls: 0, after: 0 }
    }
    fn step(&mut self, want: usize, at: usize) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupt > 0 && self.rng.chance(self.interrupt, 100) {
            self.interrupted += 1;
            return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        if at >= self.fail_at && want > 0 && !(self.once && self.delivered > 0) {
            self.delivered += 1;
            return if self.zero { Ok(0) } else { Err(io::Error::new(self.kind, MSG)) };
        }
        if self.delivered > 0 {
            self.after += 1;
        }
        let mut n = want.min(if self.chunk == usize::MAX { want } else { 1 + self.rng.below(self.chunk) });
        if self.delivered == 0 {
            n = n.min(self.fail_at.saturating_sub(at));
        }
        Ok(n)
    }
}
impl Read for Faulty<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let want = b.len();
        let at = self.pos;
        let n = self.step(want, at)?.min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for Faulty<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let at = self.out.len();
        let n = self.step(b.len(), at)?;
        self.out.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum F3 {
    Ascii,
    Binary,
    Dxb,
}
pub const F3S: [F3; 3] = [F3::Ascii, F3::Binary, F3::Dxb];
pub fn save3<W: Write + ?Sized>(d: &Drawing, w: &mut W, f: F3) -> Result<(), DxfError> {
    match f {
        F3::Ascii => d.save(w),
        F3::Binary => d.save_binary(w),
        F3::Dxb => d.save_dxb(w),
    }
}
pub fn outcome(r: &Result<Drawing, DxfError>) -> serde_json::Value {
    match r {
        Ok(d) => full(d),
        Err(e) => json!({ "error": format!("{:?}", e) }),
    }
}
fn subject(r: &mut Rng, small: bool) -> Drawing {
    let mut d = any_drawing(r);
    if small {
        let v = d.header.version;
        d = new_drawing(v);
        d.clear();
    }
    for k in ["Line", "Arc", "Circle", "Trace", "Solid", "Face3D", "ModelPoint", "Polyline"] {
        if r.chance(1, 2) {
            d.add_entity(to_entity(&entity_json(k, vidx(d.header.version), r, 1, 5)));
        }
    }
    if !small && d.header.version >= dxf::enums::AcadVersion::R2000 && r.chance(1, 3) {
        d.thumbnail = Some(image::DynamicImage::ImageRgb8(image::RgbImage::from_fn(7, 5, |x, y| image::Rgb([x as u8 * 30, y as u8 * 40, 9]))));
    }
    d
}
/// points of interest plus random ones
fn points(len: usize, n: usize, r: &mut Rng) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 17, 18, 19, 20, 21, 22, 23, len / 2, len.saturating_sub(3), len.saturating_sub(2), len.saturating_sub(1)];
    v.extend([511, 512, 1023, 1024, 4095, 4096, 8191, 8192, 8193, 16384]);
    v.retain(|x| *x < len);
    for _ in 0..n {
        v.push(r.below(len.max(1)));
    }
    v.sort();
    v.dedup();
    v
}
fn io_error_is(e: &DxfError, kind: ErrorKind) -> bool {
    matches!(e, DxfError::IoError(x) if x.kind() == kind && x.to_string() == MSG)
}
fn read_case(c: &mut Case) {
    let small = c.rng.chance(1, 2);
    let d = subject(&mut c.rng, small);
    let f = F3S[c.rng.below(3)];
    let mut b = vec![];
    if save3(&d, &mut b, f).is_err() {
        return c.fail("save", "saving to memory failed");
    }
    // also files that are rejected: the outcome, drawing or error, must not depend on the chunking
    if c.rng.chance(1, 4) {
        mutate_bytes(&mut b, &[], &mut c.rng);
    }
    let r0 = { let mut rd = &b[..]; Drawing::load(&mut rd) };
    let want = outcome(&r0);
    // chunking and interruptions
    for (chunk, intr) in [(1, 0), (3, 10), (7, 0), (100, 30), (usize::MAX, 20), (1, 40)] {
        let rng = Rng::new(c.rng.next());
        let mut rd = Faulty { chunk, interrupt: intr, ..Faulty::new(&b, rng) };
        let got = outcome(&Drawing::load(&mut rd));
        c.eval(format!("{:?} chunk {} {} {}", f, chunk, intr, crate::rng::fnv(&b)));
        c.count("interruptions", rd.interrupted);
        c.count("reads", rd.calls);
        let ds = same(&want, &got, true);
        if !ds.is_empty() {
            c.attach("input.dxf", &b);
            c.fail(format!("read:chunking:{:?}", f), format!("chunks of up to {} with {}% interruptions: {}", chunk, intr, report(&want, &got, &ds)));
        }
    }
    let n = if c.thorough { 60 } else { 12 };
    for k in points(b.len() + 1, n, &mut c.rng) {
        let kind = *c.rng.pick(KINDS);
        let chunk = *c.rng.pick(&[usize::MAX, 1, 16]);
        let once = c.rng.chance(1, 3);
        let rng = Rng::new(c.rng.next());
        let mut rd = Faulty { fail_at: k, kind, chunk, once, ..Faulty::new(&b, rng) };
        let r = Drawing::load(&mut rd);
        c.eval(format!("{:?} fault {} {:?} {}", f, k, kind, crate::rng::fnv(&b)));
        if rd.delivered > 0 {
            c.count("faults_delivered", 1);
            match r {
                Err(ref e) if io_error_is(e, kind) => (),
                Err(e) => {
                    c.attach("input.dxf", &b);
                    c.fail(format!("read:fault:{:?}:other", f), format!("reader failed with {:?} at offset {} of {}: returned {:?}", kind, k, b.len(), e))
                }
                Ok(_) => {
                    c.attach("input.dxf", &b);
                    c.fail(format!("read:fault:{:?}:hidden", f), format!("reader failed with {:?} at offset {} of {}: a drawing was returned", kind, k, b.len()))
                }
            }
        } else {
            c.count("faults_not_reached", 1);
            let got = outcome(&r);
            let ds = same(&want, &got, true);
            if !ds.is_empty() {
                c.fail(format!("read:unreached:{:?}", f), report(&want, &got, &ds));
            }
        }
    }
}
fn write_case(c: &mut Case) {
    let small = c.rng.chance(1, 2);
    let d = subject(&mut c.rng, small);
    let before = full(&d);
    let f = F3S[c.rng.below(3)];
    let mut b = vec![];
    if save3(&d, &mut b, f).is_err() {
        return c.fail("save", "saving to memory failed");
    }
    for (chunk, intr) in [(1, 0), (3, 10), (100, 30), (usize::MAX, 20), (1, 40)] {
        let rng = Rng::new(c.rng.next());
        let mut w = Faulty { chunk, interrupt: intr, ..Faulty::new(&[], rng) };
        let r = save3(&d, &mut w, f);
        c.eval(format!("{:?} wchunk {} {} {}", f, chunk, intr, crate::rng::fnv(&b)));
        c.count("interruptions", w.interrupted);
        c.count("writes", w.calls);
        if r.is_err() || w.out != b {
            c.fail(format!("write:chunking:{:?}", f), format!("chunks of up to {} with {}% interruptions: {} bytes, {:?} instead of {} bytes", chunk, intr, w.out.len(), r.err(), b.len()));
        }
    }
    let n = if c.thorough { 200 } else { 30 };
    for k in points(b.len(), n, &mut c.rng) {
        let kind = *c.rng.pick(KINDS);
        let chunk = *c.rng.pick(&[usize::MAX, 1, 16]);
        let once = c.rng.chance(1, 2);
        let zero = c.rng.chance(1, 4);
        let rng = Rng::new(c.rng.next());
        let mut w = Faulty { fail_at: k, kind, chunk, once, zero, ..Faulty::new(&[], rng) };
        let r = save3(&d, &mut w, f);
        c.eval(format!("{:?} wfault {} {:?} {} {}", f, k, kind, zero, crate::rng::fnv(&b)));
        if w.delivered == 0 {
            c.fail(format!("write:unreached:{:?}", f), format!("a writer that fails at offset {} of {} was never asked to write there", k, b.len()));
            continue;
        }
        c.count("faults_delivered", 1);
        let ok = match &r {
            Err(DxfError::IoError(e)) if zero => e.kind() == ErrorKind::WriteZero,
            Err(e) => io_error_is(e, kind),
            Ok(()) => false,
        };
        if !ok {
            c.fail(format!("write:fault:{:?}", f), format!("writer failed ({}{:?}) at offset {} of {}: save returned {:?}", if zero { "Ok(0), " } else { "" }, kind, k, b.len(), r));
        }
        if w.after > 0 {
            c.fail(format!("write:after:{:?}", f), format!("writing went on after the writer failed at offset {} of {}", k, b.len()));
        }
        if !b.starts_with(&w.out) {
            c.fail(format!("write:prefix:{:?}", f), format!("bytes written before the failure at {} are not those of the file", k));
        }
    }
    let ds = same(&before, &full(&d), true);
    if !ds.is_empty() {
        c.fail("write:drawing", format!("a failed save changed the drawing at {:?}", ds));
    }
}
pub fn c13(t: bool) -> Check {
    let m = if t { 12 } else { 1 };
    Check {
        id: "C13",
        level: "exploration",
        rule: "one evaluation = one load or save through a reader or writer with injected short transfers, interruptions or one fault; distinct by file, format, offset and kind of fault; faults count only when they reached the library",
        families: vec![family("read", 2500 * m, read_case), family("write", 2500 * m, write_case), family("large read", 60 * m, |c| large(|| read_case(c))), family("large write", 60 * m, |c| large(|| write_case(c)))],
        cpu_limit: 120,
        assumptions: vec!["an interrupted call is always retried successfully within finitely many attempts".into()],
    }
}

// ---------------------------------------------------------------- C28
fn save_path(d: &Drawing, p: &str, f: F3) -> Result<(), DxfError> {
    match f {
        F3::Ascii => d.save_file(p),
        F3::Binary => d.save_file_binary(p),
        F3::Dxb => d.save_file_dxb(p),
    }
}
fn dir_of(c: &Case) -> String {
    let d = format!("{}/c28-{}-{}-{}", scratch(), std::process::id(), c.family, c.idx);
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("harness: scratch directory");
    d
}
/// pad the drawing so that its file gets exactly `size` bytes, if that is possible
fn pad_to(d: &mut Drawing, f: F3, size: usize) -> bool {
    if f == F3::Dxb {
        // one layer name stretches the file byte by byte
        let mut b = vec![];
        let layer = "L".to_string();
        d.clear();
        d.add_entity(to_entity(&json!({"common": crate::schema::Item::EntityCommon.default_value(), "specific": {"Circle": crate::schema::Item::Entity("Circle").default_value()}})));
        for e in d.entities_mut() { e.common.layer = layer.clone(); }
        if save3(d, &mut b, f).is_err() || b.len() > size { return false; }
        let add = size - b.len();
        for e in d.entities_mut() { e.common.layer = format!("L{}", "y".repeat(add)); }
    } else {
        d.header.current_layer = "x".into();
        let mut b = vec![];
        if save3(d, &mut b, f).is_err() || b.len() > size { return false; }
        let add = size - b.len();
        d.header.current_layer = format!("x{}", "y".repeat(add));
    }
    let mut b = vec![];
    save3(d, &mut b, f).is_ok() && b.len() == size
}
fn file_case(c: &mut Case) {
    let dir = dir_of(c);
    let small = c.rng.chance(2, 3);
    let mut d = subject(&mut c.rng, small);
    for f in F3S {
        if c.rng.chance(2, 3) {
            let size = *c.rng.pick(&[8191usize, 8192, 8193, 16383, 16384, 16385, 24576, 32768, 65536, 65537, 4096, 512, 1024, 131072]);
            if pad_to(&mut d, f, size) {
                c.count("exact_sizes", 1);
            }
        }
        let mut b = vec![];
        if save3(&d, &mut b, f).is_err() {
            c.fail("save", "saving to memory failed");
            continue;
        }
        let p = format!("{}/a.{:?}", dir, f);
        // what is there before must not matter
        let old = match c.rng.below(5) {
            0 => None,
            1 => Some(vec![]),
            2 => Some(vec![b'9'; b.len() + 1 + c.rng.below(20000)]),
            3 => Some(b.iter().copied().chain(std::iter::repeat(b'\n').take(10)).collect::<Vec<u8>>()),
            _ => Some(vec![b'x'; c.rng.below(b.len().max(1))]),
        };
        if let Some(o) = &old {
            std::fs::write(&p, o).expect("harness: scratch file");
        }
        c.eval(format!("{:?} {} {:?}", f, crate::rng::fnv(&b), old.as_ref().map(|o| o.len())));
        match save_path(&d, &p, f) {
            Err(e) => c.fail(format!("save_file:{:?}:error", f), format!("saving to a new file: {:?}", e)),
            Ok(()) => {
                let got = std::fs::read(&p).unwrap_or_default();
                c.count("files_compared", 1);
                if got != b {
                    let at = got.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(got.len().min(b.len()));
                    c.fail(format!("save_file:{:?}:bytes", f), format!("the file has {} bytes, the stream {}; they differ from offset {} on (file before: {:?} bytes)", got.len(), b.len(), at, old.map(|o| o.len())));
                }
            }
        }
        // loading: also damaged files and other encodings
        let mut b2 = b.clone();
        if c.rng.chance(1, 2) {
            mutate_bytes(&mut b2, &[], &mut c.rng);
        }
        std::fs::write(&p, &b2).expect("harness: scratch file");
        let encs = crate::c_load::encodings();
        let enc = *c.rng.pick(&encs);
        for (n, x, y) in [
            ("load_file", outcome(&Drawing::load_file(&p)), { let mut r = &b2[..]; outcome(&Drawing::load(&mut r)) }),
            ("load_file_with_encoding", outcome(&Drawing::load_file_with_encoding(&p, enc)), { let mut r = &b2[..]; outcome(&Drawing::load_with_encoding(&mut r, enc)) }),
        ] {
            c.eval(format!("{} {} {}", n, enc.name(), crate::rng::fnv(&b2)));
            let ds = same(&y, &x, true);
            if !ds.is_empty() {
                c.attach("input.dxf", &b2);
                c.fail(format!("{}:{:?}", n, f), format!("file and stream differ: {}", report(&y, &x, &ds)));
            }
        }
        // errors
        let sv: [(&str, String, Option<ErrorKind>); 4] = [
            ("missing directory", format!("{}/no/such/dir/a.dxf", dir), Some(ErrorKind::NotFound)),
            ("a directory", dir.clone(), None),
            ("a full device", "/dev/full".into(), Some(ErrorKind::StorageFull)),
            ("a file used as a directory", format!("{}/x.dxf", p), None),
        ];
        for (what, path, kind) in sv {
            if path == "/dev/full" && !std::path::Path::new(&path).exists() {
                continue;
            }
            c.eval(format!("{} {:?} {}", what, f, b.len()));
            match save_path(&d, &path, f) {
                Err(DxfError::IoError(e)) if kind.is_none() || kind == Some(e.kind()) => c.count("save_errors_observed", 1),
                Err(e) => c.fail(format!("save_file:{:?}:wrong-error", f), format!("saving to {} gives {:?}", what, e)),
                Ok(()) => c.fail(format!("save_file:{:?}:hidden-error", f), format!("saving {} bytes to {} reports success", b.len(), what)),
            }
        }
        for (what, path, kind) in [("a missing file", format!("{}/none.dxf", dir), Some(ErrorKind::NotFound)), ("a directory", dir.clone(), None)] {
            for r in [Drawing::load_file(&path), Drawing::load_file_with_encoding(&path, enc)] {
                c.eval(format!("load {} {}", what, enc.name()));
                match r {
                    Err(DxfError::IoError(e)) if kind.is_none() || kind == Some(e.kind()) => c.count("load_errors_observed", 1),
                    Err(e) => c.fail("load_file:wrong-error", format!("loading {} gives {:?}", what, e)),
                    Ok(_) => c.fail("load_file:hidden-error", format!("loading {} reports success", what)),
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}
/// a file system that is full after some bytes: RLIMIT-free, through a FIFO whose reader goes away
pub fn c28(t: bool) -> Check {
    Check {
        id: "C28",
        level: "exploration",
        rule: "one evaluation = one save to or load from a path compared with the stream function, or one error of the file system; distinct by content, format, previous content of the file and kind of path",
        families: vec![family("file", if t { 20000 } else { 2500 }, file_case), family("large", if t { 600 } else { 60 }, |c| large(|| file_case(c)))],
        cpu_limit: 120,
        assumptions: vec!["the file system under /verif/target/scratch and /dev/full behave as on Linux".into()],
    }
}
