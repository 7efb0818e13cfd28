//! Dates in other time zones: run in a process of its own, because the zone is read from the environment.
use crate::rng::Rng;
use crate::rt::*;
use crate::types::*;
use chrono::{DateTime, Local, TimeZone, Utc};

pub const ZONES: &[&str] = &["UTC", "<+05>-5", "<-11>11", "<+0530>-5:30", "<+14>-14", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "<-0330>3:30", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "Europe/Amsterdam", "Asia/Kathmandu", "Pacific/Apia", "Europe/Stockholm", "CET-1:00:14"];
/// zones whose distance to UTC has always been the same
fn constant(z: &str) -> bool {
    z == "UTC" || (z.starts_with('<') && !z.contains(','))
}
/// prints one line per violation and a last one with the number of dates that were compared
pub fn run(zone: &str, seed: u64, n: usize) -> i32 {
    let mut r = Rng::stream(seed, zone, 0);
    let mut done = 0;
    let day = |y: i64| (y - 1970) * 31_556_952;
    for k in 0..n {
        let v = VERSIONS[k % VERSIONS.len()];
        let mut d = new_drawing(v);
        let mut some = |r: &mut Rng| r.range(day(1901), day(2150));
        let (a, b, e, f) = (some(&mut r), some(&mut r), some(&mut r), some(&mut r));
        let at = |s: i64| Utc.timestamp_opt(s, 0).unwrap();
        d.header.creation_date = DateTime::<Local>::from(at(a));
        d.header.update_date = DateTime::<Local>::from(at(b));
        d.header.creation_date_universal = at(e);
        d.header.update_date_universal = at(f);
        for fmt in [Fmt::Ascii, Fmt::Binary] {
            let got = match save(&d, fmt).and_then(|x| load(&x).map(|y| (x, y))) {
                Ok(x) => x,
                Err(e) => { println!("FAIL zone:error {} {} {:?}: {}", zone, vname(v), fmt, e); continue }
            };
            let (bytes, x) = got;
            let o = |h: &dxf::Header| [h.creation_date.timestamp(), h.update_date.timestamp(), h.creation_date_universal.timestamp(), h.update_date_universal.timestamp()];
            let (p, q) = (o(&d.header), o(&x.header));
            for (i, name) in ["creation_date", "update_date", "creation_date_universal", "update_date_universal"].iter().enumerate() {
                // the universal ones belong to R2000
                if i >= 2 && v < dxf::enums::AcadVersion::R2000 { continue; }
                // neither date of the drawing existed before
                if i < 2 && !String::from_utf8_lossy(&bytes).contains(["$TDCREATE", "$TDUPDATE"][i]) { continue; }
                done += 1;
                if p[i] != q[i] {
                    println!("FAIL zone:{} {} {} {:?}: {} is {} seconds off after a round trip", name, zone, vname(v), fmt, at(p[i]), q[i] - p[i]);
                }
            }
            if fmt == Fmt::Ascii && constant(zone) {
                let t = String::from_utf8_lossy(&bytes).to_string();
                for (var, wall) in [("$TDCREATE", d.header.creation_date.naive_local().and_utc().timestamp()), ("$TDUCREATE", d.header.creation_date_universal.timestamp())] {
                    let Some(i) = t.find(&format!("{}\r\n", var)) else { continue };
                    let x: f64 = t[i..].lines().nth(2).and_then(|l| l.trim().parse().ok()).unwrap_or(0.0);
                    // days, with the date changing at midnight
                    let want = wall as f64 / 86400.0 + 2_440_588.0;
                    done += 1;
                    if (x - want).abs() > 1e-5 {
                        println!("FAIL zone:written:{} {} {}: written as {} instead of {}", var, zone, vname(v), x, want);
                    }
                }
            }
        }
    }
    println!("DONE {}", done);
    0
}

/// one zone, observed in a process of its own
pub fn case(c: &mut crate::fw::Case, written: bool) {
    let z = ZONES[c.idx as usize % ZONES.len()];
    let n = if c.thorough { 400 } else { 60 };
    let exe = match std::env::current_exe() { Ok(e) => e, Err(e) => return c.inconclusive.push(format!("zone: {}", e)) };
    let out = std::process::Command::new(exe).args(["zone", z, &(c.rng.next() >> 1).to_string(), &n.to_string()]).env("TZ", z).output();
    let out = match out { Ok(o) => o, Err(e) => return c.inconclusive.push(format!("zone: {}", e)) };
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    let mut done = false;
    for l in text.lines() {
        if let Some(k) = l.strip_prefix("DONE ") {
            done = true;
            let k: u64 = k.parse().unwrap_or(0);
            c.count("dates_compared", k);
            c.eval(format!("{} {} {}", z, c.idx, k));
        } else if let Some(f) = l.strip_prefix("FAIL ") {
            let (sig, detail) = f.split_once(' ').unwrap_or((f, ""));
            if sig.starts_with("zone:written") == written {
                c.fail(sig.to_string(), detail.to_string());
            }
        }
    }
    if !done {
        // only a panic in the library is an answer about it
        match err.lines().find(|l| l.contains("panicked at")) {
            Some(l) if !l.contains("harness/") && !l.contains("src/zone.rs") => if !written { c.fail("zone:panic", format!("in the time zone {}: {} {}", z, l, err.lines().skip_while(|x| !x.contains("panicked")).nth(1).unwrap_or(""))) },
            _ => c.inconclusive.push(format!("zone {}: no answer ({:?})", z, out.status)),
        }
    }
}
