//! Command line shared by the harness and the generated programs.
use crate::case::unhex;
use crate::runner::{self, Prop};
use std::path::PathBuf;

pub fn run(props: &[&'static Prop]) -> ! {
    let find = |id: &str| -> &'static Prop { props.iter().find(|p| p.id == id).expect("unknown property") };
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let p = find(&a[2]);
            let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            let mut cases = None;
            let mut i = 3;
            while i + 1 < a.len() {
                match a[i].as_str() {
                    "--tier" => tier = a[i + 1].clone(),
                    "--seed" => seed = a[i + 1].parse().unwrap(),
                    "--cases" => cases = Some(a[i + 1].parse().unwrap()),
                    _ => panic!("unknown option {}", a[i]),
                }
                i += 2;
            }
            runner::check(p, tier == "thorough", seed, cases)
        }
        Some("worker") => runner::worker(
            find(&a[2]),
            a[3] == "thorough",
            a[4].parse().unwrap(),
            a[5].parse().unwrap(),
            a[6].parse().unwrap(),
            a[7].parse().unwrap(),
            PathBuf::from(&a[8]),
        ),
        Some("shrink") => runner::shrink_worker(
            find(&a[2]),
            a[3] == "thorough",
            unhex(&std::fs::read_to_string(&a[4]).unwrap()),
            PathBuf::from(&a[5]),
        ),
        Some("replay") => {
            let r = runner::parse_replay(&std::fs::read_to_string(&a[2]).unwrap());
            runner::replay(find(&r.prop), r)
        }
        Some("tapes") => runner::tapes(find(&a[2]), a[3] == "thorough", a[4].parse().unwrap(), a[5].parse().unwrap(), PathBuf::from(&a[6])),
        Some("fuzzed") => runner::fuzzed(find(&a[2]), a[3] == "thorough", a[4].parse().unwrap(), std::fs::read(&a[5]).unwrap()),
        Some("list") => {
            for p in props {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: check <id> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
