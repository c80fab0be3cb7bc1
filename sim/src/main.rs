#![recursion_limit = "512"]
//! Deterministic simulation of antlr_rust's lexers, parsers and streams.
//!   antlr-sim check <property>                    what MANIFEST.json registers
//!   antlr-sim replay <file>                       run a replay file
//!   antlr-sim run <property> <from> <to> [show]   run seeds, print violations
//!   antlr-sim twice <property> <from> <to>        run seeds twice, compare
mod check;
mod grammar;
mod ldrive;
mod lgrammar;
mod min;
mod ops;
mod patn;
mod pdrive;
mod pref;
mod recov;
mod rt;
mod scen;
mod streams;
#[global_allocator]
static A: rt::SimAlloc = rt::SimAlloc;

fn main() {
    rt::init();
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| -> u64 { a[i].parse().unwrap() };
    // the first run of a process initialises lazy statics: keep that out of what is repeatable
    if matches!(a.get(1).map(|s| s.as_str()), Some("worker" | "min" | "replay-in" | "run" | "twice")) {
        for (p, s) in [("C01", 1), ("C02", 1), ("C04", 1), ("C07", 2), ("C09", 1)] {
            scen::execute(&scen::generate(p, s), &mut scen::Acc::default());
        }
    }
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(check::check(&a[2])),
        Some("worker") => check::worker(&a[2], num(3), num(4), num(5)),
        Some("min") => check::min(&a[2], &a[3], num(4)),
        Some("replay") => std::process::exit(check::replay(&a[2])),
        Some("replay-in") => std::process::exit(check::replay_in(&a[2])),
        Some("run") => {
            let mut acc = scen::Acc::default();
            let (mut bad, mut leaks) = (0, 0);
            let t0 = std::time::Instant::now();
            for s in num(3)..num(4) {
                let p = scen::generate(&a[2], s);
                let r = scen::execute(&p, &mut acc);
                leaks += r.leaked as u32;
                if let scen::Verdict::Viol(v) = r.verdict {
                    bad += 1;
                    println!("seed {s}: {v}");
                    if a.len() > 5 {
                        if let Some(g) = &p.pg {
                            println!("{}", g.text().join("\n"));
                        }
                        if a[5] == "full" {
                            println!("{p:#?}");
                        }
                        for (i, t) in std::iter::once(&p.warm).chain(p.tasks.iter().map(|t| &t.jobs)).enumerate() {
                            for j in t {
                                let (k, j) = match j {
                                    scen::Job::P(j) => ("parse", j),
                                    scen::Job::LP(_, j) => ("lex+parse", j),
                                    _ => continue,
                                };
                                let v: Vec<String> = j.toks.iter().map(|t| format!("{}{}", (b'a' + t.t as u8 - 1) as char, if t.ch != 0 { "'" } else { "" })).collect();
                                println!("{} {k} {:?} {:?} from r{}: {}", if i == 0 { "warm-up".to_string() } else { format!("task {}", i - 1) }, j.mode, j.strat, j.start, v.join(" "));
                            }
                        }
                    }
                }
            }
            acc.hashes.sort();
            acc.hashes.dedup();
            let h = acc.hashes.len();
            acc.hashes.clear();
            println!("bad {bad} leaks {leaks} distinct {h} {acc:?} in {:?}", t0.elapsed());
        }
        Some("plan") => println!("{}", serde_json::to_string(&scen::generate(&a[2], num(3))).unwrap()),
        Some("exec") => {
            let p: scen::Plan = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let r = scen::execute(&p, &mut scen::Acc::default());
            println!("{:?}", r.verdict);
        }
        Some("twice") => {
            let mut bad = 0;
            for s in num(3)..num(4) {
                let f = || {
                    let mut acc = scen::Acc::default();
                    let r = scen::execute(&scen::generate(&a[2], s), &mut acc);
                    acc.hashes.push(r.script.iter().fold(r.fp, |h, x| rt::mix2(h, x.0 ^ (x.1 as u64) << 48)));
                    format!("{acc:?}")
                };
                let (x, y) = (f(), f());
                if x != y {
                    bad += 1;
                    println!("seed {s} differs\n{x}\n{y}");
                }
            }
            println!("differing {bad}");
        }
        _ => {
            eprintln!("usage: see src/main.rs");
            std::process::exit(2);
        }
    }
}
