#![allow(dead_code, unused_assignments, unused_variables)]
mod big;
mod c_api;
mod c_ptr;
mod c_io;
mod c_load;
mod c_rt;
mod c_save;
mod c_dxb;
mod c_str;
mod c_enc;
mod c_serde;
mod c_ext;
mod c_flag;
mod flagtab;
mod c_img;
mod c_num;
mod c_text;
mod c_val;
mod fw;
mod gen;
mod lab;
mod mini;
mod rng;
mod rt;
mod schema;
mod tab;
mod types;
mod zone;
#[global_allocator]
static A: fw::Counting = fw::Counting;

fn check(id: &str, t: bool) -> Option<fw::Check> {
    Some(match id {
        "C01" => c_load::c01(t),
        "C03" => c_rt::c03(t),
        "C04" => c_rt::c04(t),
        "C05" => c_rt::c05(t),
        "C06" => c_rt::c06(t),
        "C13" => c_io::c13(t),
        "C28" => c_io::c28(t),
        "C14" => c_text::c14(t),
        "C15" => c_text::c15(t),
        "C18" => c_text::c18(t),
        "C09" => c_dxb::c09(t),
        "C02" => c_save::c02(t),
        "C07" => c_save::c07(t),
        "C08" => c_save::c08(t),
        "C17" => c_save::c17(t),
        "C16" => c_rt::c16(t),
        "C10" => c_api::c10(t),
        "C11" => c_ptr::c11(t),
        "C12" => c_api::c12(t),
        "C19" => c_str::c19(t),
        "C20" => c_num::c20(t),
        "C21" => c_ext::c21(t),
        "C22" => c_img::c22(t),
        "C26" => c_val::c26(t),
        "C25" => c_flag::c25(t),
        "C27" => c_serde::c27(t),
        "C23" => c_enc::c23(t),
        "C24" => c_api::c24(t),
        _ => return None,
    })
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let thorough = fw::tier() == "thorough";
    let code = match arg(1) {
        "gen-fields" => {
            fw::install_hook();
            tab::generate();
            0
        }
        "gen-encoding" => {
            fw::install_hook();
            c_enc::generate();
            0
        }
        "gen-reading" => {
            fw::install_hook();
            c_enc::generate_reading();
            0
        }
        "zone" => zone::run(arg(2), arg(3).parse().unwrap_or(1), arg(4).parse().unwrap_or(20)),
        "check" => fw::supervise(arg(2)),
        "worker" => match check(arg(2), thorough) {
            Some(c) => fw::run(c),
            None => 2,
        },
        // replay <id> <family> <index> <seed>
        "replay" => {
            fw::install_hook();
            match check(arg(2), thorough).and_then(|c| {
                let (f, i, s) = (arg(3).to_string(), arg(4).parse().unwrap_or(0), arg(5).parse().unwrap_or(1));
                std::thread::Builder::new().stack_size(2 << 20).spawn(move || fw::run_one(&c, &f, i, s, thorough)).unwrap().join().unwrap()
            }) {
                Some(c) => {
                    for f in &c.failures {
                        println!("FAIL {} {}", f.sig, f.detail);
                    }
                    for f in &c.inconclusive {
                        println!("INCONCLUSIVE {}", f);
                    }
                    for (i, (n, b)) in c.artifact.iter().enumerate() {
                        let p = format!("{}/{}-{}-{}", fw::scratch(), arg(2), i, n);
                        let _ = std::fs::write(&p, b);
                        println!("artifact {}", p);
                    }
                    println!("{} evaluations, {:?}", c.evals, c.counters);
                    if c.failures.is_empty() { 0 } else { 1 }
                }
                None => 2,
            }
        }
        _ => {
            eprintln!("usage: vharness check|worker|replay|gen-fields");
            2
        }
    };
    std::process::exit(code)
}
