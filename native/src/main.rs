#![allow(clippy::all)]
mod spec;
mod run;
#[macro_use]
mod util;
mod p_hdr;
mod p_int;
mod p_str;
mod p_misc;
#[macro_use]
mod p_drv;
mod p_val;
mod zoo;
mod p_cont;

use run::Kind;
use std::collections::HashSet;

static ALL: std::sync::OnceLock<Vec<Kind>> = std::sync::OnceLock::new();

fn kinds() -> &'static [Kind] {
    ALL.get_or_init(|| {
        let mut v = vec![];
        p_hdr::kinds(&mut v);
        p_int::kinds(&mut v);
        p_str::kinds(&mut v);
        p_misc::kinds(&mut v);
        p_drv::kinds(&mut v);
        p_val::kinds(&mut v);
        zoo::kinds(&mut v);
        p_cont::kinds(&mut v);
        v
    })
}

fn main() {
    if std::env::var("NATIVE_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            // run PROP TIER SEED OUT [known FILE] [trace FILE] [only KIND]
            let mut known = HashSet::new();
            let mut trace = None;
            let mut only = None;
            let mut i = 6;
            while i + 1 < a.len() {
                match a[i].as_str() {
                    "known" => {
                        for l in std::fs::read_to_string(&a[i + 1]).unwrap_or_default().lines() {
                            let f: Vec<&str> = l.split_whitespace().collect();
                            if f.len() == 3 {
                                known.insert((f[0].into(), f[1].into(), f[2].into()));
                            }
                        }
                    }
                    "trace" => trace = Some(a[i + 1].clone()),
                    "only" => only = Some(a[i + 1].clone()),
                    _ => {}
                }
                i += 2;
            }
            let seed: u64 = a[4].parse().unwrap_or(1);
            let rc = run::run_prop(kinds(), &a[2], a[3] == "thorough", seed, &a[5], &known, trace.as_deref(), only.as_deref());
            std::process::exit(rc);
        }
        Some("case") => {
            // case KIND HEX
            let k = match kinds().iter().find(|k| k.name == a[2]) {
                Some(k) => k,
                None => {
                    eprintln!("unknown kind {}", a[2]);
                    std::process::exit(2);
                }
            };
            let b = spec::unhex(a.get(3).map(|s| s.as_str()).unwrap_or(""));
            match run::run_case(k, &b) {
                Ok(nt) => println!("OK nontrivial={nt}"),
                Err(m) => {
                    println!("FAIL {m}");
                    std::process::exit(1);
                }
            }
        }
        Some("list") => {
            for k in kinds() {
                println!("{} {} {}", k.prop, k.name, k.domain);
            }
        }
        _ => {
            eprintln!("usage: run|case|list");
            std::process::exit(2);
        }
    }
}
