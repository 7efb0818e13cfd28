//! An independent, deliberately small implementation of the DXF container: group-code value
//! types, ASCII and binary tokenisers and writers.  Shares no code with the library.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum VT {
    Str,
    F64,
    I16,
    I32,
    I64,
    Bool,
    Bin,
}
/// group-code value types, from the DXF reference ("Group Code Value Types")
pub fn vtype(code: i32) -> Option<VT> {
    Some(match code {
        0..=9 => VT::Str,
        10..=59 => VT::F64,
        60..=79 => VT::I16,
        90..=99 => VT::I32,
        100..=102 | 105 => VT::Str,
        110..=149 => VT::F64,
        160..=169 => VT::I64,
        170..=179 => VT::I16,
        210..=239 => VT::F64,
        270..=289 => VT::I16,
        290..=299 => VT::Bool,
        300..=309 => VT::Str,
        310..=319 => VT::Bin,
        320..=369 => VT::Str,
        370..=389 => VT::I16,
        390..=399 => VT::Str,
        400..=409 => VT::I16,
        410..=419 => VT::Str,
        420..=429 => VT::I32,
        430..=439 => VT::Str,
        440..=459 => VT::I32,
        460..=469 => VT::F64,
        470..=481 => VT::Str,
        999 => VT::Str,
        1000..=1009 => VT::Str,
        1010..=1059 => VT::F64,
        1060..=1070 => VT::I16,
        1071 => VT::I32,
        _ => return None,
    })
}

#[derive(Clone, Debug, PartialEq)]
pub struct Pair {
    pub code: i32,
    pub val: Val,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    S(String),
    F(f64),
    I(i64),
    B(Vec<u8>),
}
impl Pair {
    pub fn s(code: i32, v: &str) -> Pair {
        Pair { code, val: Val::S(v.to_string()) }
    }
    pub fn i(code: i32, v: i64) -> Pair {
        Pair { code, val: Val::I(v) }
    }
    pub fn f(code: i32, v: f64) -> Pair {
        Pair { code, val: Val::F(v) }
    }
    pub fn is(&self, code: i32, v: &str) -> bool {
        self.code == code && matches!(&self.val, Val::S(s) if s == v)
    }
    pub fn str(&self) -> &str {
        match &self.val {
            Val::S(s) => s,
            _ => "",
        }
    }
    /// value as text, as it would stand in an ASCII file
    pub fn text(&self) -> String {
        match &self.val {
            Val::S(s) => s.clone(),
            Val::F(f) => fmt_f(*f),
            Val::I(i) => i.to_string(),
            Val::B(b) => b.iter().map(|x| format!("{:02X}", x)).collect(),
        }
    }
}
/// shortest decimal notation without an exponent (every DXF reader accepts it)
pub fn fmt_f(f: f64) -> String {
    let s = format!("{}", f);
    if s.contains('.') || s.contains("inf") || s.contains("NaN") { s } else { format!("{}.0", s) }
}
/// tokenise an ASCII file; the text of strings is taken byte for byte (UTF-8 or Latin-1)
pub fn lines_of(b: &[u8]) -> Vec<(usize, Vec<u8>)> {
    let mut v = vec![];
    let mut st = 0;
    for (i, c) in b.iter().enumerate() {
        if *c == b'\n' {
            let mut e = i;
            if e > st && b[e - 1] == b'\r' {
                e -= 1;
            }
            v.push((st, b[st..e].to_vec()));
            st = i + 1;
        }
    }
    if st < b.len() {
        v.push((st, b[st..].to_vec()));
    }
    v
}
pub fn parse_ascii(b: &[u8]) -> Result<Vec<Pair>, String> {
    let ls = lines_of(b);
    if ls.len() % 2 != 0 {
        return Err(format!("odd number of lines: {}", ls.len()));
    }
    let mut out = vec![];
    for (n, ch) in ls.chunks(2).enumerate() {
        let at = n * 2 + 1;
        let cs = String::from_utf8_lossy(&ch[0].1).trim().to_string();
        let code: i32 = cs.parse().map_err(|_| format!("line {}: group code {:?}", at, cs))?;
        let raw = &ch[1].1;
        let t = match std::str::from_utf8(raw) {
            Ok(s) => s.to_string(),
            Err(_) => raw.iter().map(|c| *c as char).collect(),
        };
        let tt = t.trim().to_string();
        let ln = at + 1;
        let int = |lo: i64, hi: i64| -> Result<Val, String> {
            let v: i64 = tt.parse().map_err(|_| format!("line {}: code {} integer {:?}", ln, code, tt))?;
            if v < lo || v > hi {
                return Err(format!("line {}: code {} value {} out of range", ln, code, v));
            }
            Ok(Val::I(v))
        };
        let val = match vtype(code) {
            None => return Err(format!("line {}: group code {} has no type", at, code)),
            Some(VT::Str) => Val::S(t.clone()),
            Some(VT::F64) => Val::F(tt.parse().map_err(|_| format!("line {}: code {} real {:?}", ln, code, tt))?),
            Some(VT::I16) => int(-32768, 32767)?,
            Some(VT::I32) => int(i32::MIN as i64, i32::MAX as i64)?,
            Some(VT::I64) => int(i64::MIN, i64::MAX)?,
            Some(VT::Bool) => int(-32768, 32767)?,
            Some(VT::Bin) => {
                if tt.len() % 2 != 0 {
                    return Err(format!("line {}: odd hex string", ln));
                }
                let mut v = vec![];
                for k in (0..tt.len()).step_by(2) {
                    v.push(u8::from_str_radix(tt.get(k..k + 2).ok_or("hex")?, 16).map_err(|_| format!("line {}: hex {:?}", ln, tt))?);
                }
                Val::B(v)
            }
        };
        out.push(Pair { code, val });
    }
    Ok(out)
}
pub const SENTINEL: &[u8] = b"AutoCAD Binary DXF\r\n\x1a\x00";
/// tokenise a binary file: (offset of the value, pair)
pub fn parse_binary(b: &[u8]) -> Result<Vec<(usize, Pair)>, String> {
    if !b.starts_with(SENTINEL) {
        return Err("no binary sentinel".into());
    }
    let mut p = SENTINEL.len();
    // two-byte group codes from R13 on: 00 00 'SECTION'
    let wide = b.get(p + 1) == Some(&0);
    let mut out = vec![];
    let take = |p: &mut usize, n: usize| -> Result<Vec<u8>, String> {
        let r = b.get(*p..*p + n).ok_or_else(|| format!("cut off at {}", *p))?.to_vec();
        *p += n;
        Ok(r)
    };
    while p < b.len() {
        let start = p;
        let code = if wide {
            let c = take(&mut p, 2)?;
            i16::from_le_bytes([c[0], c[1]]) as i32
        } else {
            let c = take(&mut p, 1)?[0];
            if c == 255 {
                let c = take(&mut p, 2)?;
                i16::from_le_bytes([c[0], c[1]]) as i32
            } else {
                c as i32
            }
        };
        let at = p;
        let val = match vtype(code).ok_or_else(|| format!("offset {}: group code {} has no type", start, code))? {
            VT::Str => {
                let e = b[p..].iter().position(|c| *c == 0).ok_or("unterminated string")?;
                let raw = &b[p..p + e];
                p += e + 1;
                Val::S(match std::str::from_utf8(raw) {
                    Ok(s) => s.to_string(),
                    Err(_) => raw.iter().map(|c| *c as char).collect(),
                })
            }
            VT::F64 => Val::F(f64::from_le_bytes(take(&mut p, 8)?.try_into().unwrap())),
            VT::I16 => Val::I(i16::from_le_bytes(take(&mut p, 2)?.try_into().unwrap()) as i64),
            VT::I32 => Val::I(i32::from_le_bytes(take(&mut p, 4)?.try_into().unwrap()) as i64),
            VT::I64 => Val::I(i64::from_le_bytes(take(&mut p, 8)?.try_into().unwrap())),
            VT::Bool => {
                // one byte from R13 on, two bytes before
                let v = if wide { take(&mut p, 1)?[0] as i64 } else { i16::from_le_bytes(take(&mut p, 2)?.try_into().unwrap()) as i64 };
                Val::I(v)
            }
            VT::Bin => {
                let n = take(&mut p, 1)?[0] as usize;
                Val::B(take(&mut p, n)?)
            }
        };
        out.push((at, Pair { code, val }));
    }
    Ok(out)
}
pub fn to_ascii(ps: &[Pair]) -> Vec<u8> {
    let mut s = String::new();
    for p in ps {
        s.push_str(&format!("{:>3}\r\n{}\r\n", p.code, p.text()));
    }
    s.into_bytes()
}
pub fn to_binary(ps: &[Pair], wide: bool) -> Vec<u8> {
    let mut o = SENTINEL.to_vec();
    for p in ps {
        if wide {
            o.extend((p.code as i16).to_le_bytes());
        } else if p.code >= 255 {
            o.push(255);
            o.extend((p.code as i16).to_le_bytes());
        } else {
            o.push(p.code as u8);
        }
        let t = vtype(p.code).expect("harness: typed code");
        match (&p.val, t) {
            (Val::S(s), _) => {
                o.extend(s.as_bytes());
                o.push(0);
            }
            (Val::F(f), _) => o.extend(f.to_le_bytes()),
            (Val::I(i), VT::I16) => o.extend((*i as i16).to_le_bytes()),
            (Val::I(i), VT::I32) => o.extend((*i as i32).to_le_bytes()),
            (Val::I(i), VT::Bool) => {
                if wide {
                    o.push(*i as u8)
                } else {
                    o.extend((*i as i16).to_le_bytes())
                }
            }
            (Val::I(i), _) => o.extend(i.to_le_bytes()),
            (Val::B(b), _) => {
                o.push(b.len() as u8);
                o.extend(b);
            }
        }
    }
    o
}
