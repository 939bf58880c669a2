mod alloc;
mod clock;
mod dict;
mod model;
mod node;
mod props;
mod refp;
mod remote;
mod rng;
mod run;
mod util;

use run::{Opts, Tier};
use std::sync::Arc;

#[global_allocator]
static A: alloc::Mon = alloc::Mon;

fn main() {
    let mut o = Opts {
        prop: String::new(),
        tier: Tier::Quick,
        seed: 1,
        out: String::new(),
        replay_dir: "/verif/replays".into(),
        repo: "/repo".into(),
        cases: None,
        cap: 600,
        only: None,
        child: false,
        threads: 8,
        label: "checked".into(),
        known: "/verif/known_findings.txt".into(),
    };
    let a: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < a.len() {
        let v = || a.get(i + 1).cloned().unwrap_or_default();
        let num = || v().parse::<u64>().expect("number");
        let mut two = true;
        match a[i].as_str() {
            "--tier" => o.tier = if v() == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--seed" => o.seed = num(),
            "--out" => o.out = v(),
            "--replays" => o.replay_dir = v(),
            "--repo" => o.repo = v(),
            "--cases" => o.cases = Some(num()),
            "--cap" => o.cap = num(),
            "--case" => o.only = Some(num()),
            "--threads" => o.threads = num() as usize,
            "--label" => o.label = v(),
            "--known" => o.known = v(),
            "--child" => {
                o.child = true;
                two = false;
            }
            "--probe" => {
                std::process::exit(props::c09::probe(&v()));
            }
            x => {
                o.prop = x.to_string();
                two = false;
            }
        }
        i += if two { 2 } else { 1 };
    }
    let p = match props::ALL.iter().find(|p| p.id == o.prop) {
        Some(p) => p,
        None => {
            println!("unknown property {}", o.prop);
            std::process::exit(3);
        }
    };
    if o.out.is_empty() {
        o.out = format!("/verif/evidence/{}.json", o.prop);
    }
    let code = if o.child { run::run(p, Arc::new(o)) } else { run::supervise(p, &o) };
    std::process::exit(code);
}
