//! The check: seeds spread over worker processes, minimisation, replay, evidence.
use crate::min;
use crate::rt::{mix2, Abort};
use crate::scen::{self, Acc, Plan, Verdict};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, RecvTimeoutError, Sender};
use std::time::{Duration, Instant};

const ROOT: &str = "/verif";
const WORKERS: u64 = 8;
/// a seed that shows no sign of life for this long hangs
const HANG: Duration = Duration::from_secs(25);

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    violation: String,
    /// hash of the schedule and of everything the run produced
    fingerprint: String,
    found_at_seed: u64,
    minimised_in_tries: u32,
    plan: Plan,
}
fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}
/// seeds per run of the quick tier
fn quick(p: &str) -> u64 {
    match p {
        "C09" | "C10" => 160_000,
        "C15" => 60_000,
        "C01" | "C02" | "C03" | "C04" => 24_000,
        "C12" | "C11" => 20_000,
        _ => 24_000,
    }
}
fn seed_of(base: u64, i: u64) -> u64 {
    mix2(base, i) >> 8
}

// ---------------------------------------------------------------- worker
pub fn worker(prop: &str, base: u64, from: u64, to: u64) {
    let out = std::io::stdout();
    let mut acc = Acc::default();
    let mut leaks = 0;
    let step = WORKERS;
    let mut i = from;
    let say = |s: String| {
        let mut o = out.lock();
        let _ = o.write_all(s.as_bytes());
        let _ = o.flush();
    };
    let mut n = 0;
    while i < to {
        say(format!("S {i}\n"));
        let plan = scen::generate(prop, seed_of(base, i));
        let r = scen::execute(&plan, &mut acc);
        leaks += r.leaked as u32;
        if let Verdict::Viol(v) = r.verdict {
            say(format!("V {i} {}\n", v.replace('\n', " ")));
        }
        n += 1;
        i += step;
        if n % 400 == 0 || i >= to || leaks > 12 {
            say(format!("A {}\n", serde_json::to_string(&acc).unwrap()));
            acc = Acc::default();
        }
        if leaks > 12 {
            break;
        }
    }
    say(format!("D {i}\n"));
    std::process::exit(0);
}
pub fn min(plan: &str, out: &str, secs: u64) {
    let plan: Plan = serde_json::from_str(&std::fs::read_to_string(plan).unwrap()).unwrap();
    let o = out.to_string();
    let seed = plan.seed;
    let tries = std::rc::Rc::new(std::cell::Cell::new(0u32));
    let t2 = tries.clone();
    let r = min::minimise(
        plan,
        secs,
        Box::new(move |p, v| {
            t2.set(t2.get() + 1);
            let rep = Replay {
                property: p.prop.clone(),
                violation: v.to_string(),
                fingerprint: String::new(),
                found_at_seed: seed,
                minimised_in_tries: t2.get(),
                plan: p.clone(),
            };
            let tmp = format!("{o}.tmp");
            std::fs::write(&tmp, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
            std::fs::rename(&tmp, &o).unwrap();
        }),
    );
    std::process::exit(if r.is_some() { 0 } else { 3 });
}
/// run a replay file once; 1 if it violates its property, 0 if not
/// run a replay file in a process of its own: it may crash or not end
pub fn replay(f: &str) -> i32 {
    let s = std::fs::read_to_string(f).expect("cannot read replay file");
    let r: Replay = serde_json::from_str(&s).expect("not a replay file");
    match run_capped(&["replay-in".into(), f.into()], Duration::from_secs(60)) {
        Some((st, out)) if st.code().map_or(false, |c| c < 2) => {
            print!("{out}");
            st.code().unwrap()
        }
        x => {
            println!("VIOLATION property={} replay={f}", r.property);
            match x {
                None => println!("{NO_END}"),
                Some((st, _)) => println!("crash: the process died ({st})"),
            }
            1
        }
    }
}
const NO_END: &str = "no end: a task neither ends nor looks at its input";
pub fn replay_in(f: &str) -> i32 {
    let s = std::fs::read_to_string(f).expect("cannot read replay file");
    let r: Replay = serde_json::from_str(&s).expect("not a replay file");
    let mut acc = Acc::default();
    let x = scen::execute(&r.plan, &mut acc);
    match x.verdict {
        Verdict::Viol(v) => {
            println!("VIOLATION property={} replay={f}", r.property);
            println!("{v}");
            println!("fingerprint {:016x}", x.fp);
            if !r.fingerprint.is_empty() && r.fingerprint != format!("{:016x}", x.fp) {
                println!("differs from the recorded execution: {}", r.fingerprint);
            }
            if !r.violation.is_empty() && v != r.violation {
                println!("differs from the recorded violation: {}", r.violation);
            }
            1
        }
        Verdict::Ok => {
            println!("holds");
            0
        }
        Verdict::Skip(w) => {
            println!("skipped: {w}");
            0
        }
    }
}
fn spawn(args: &[String]) -> Child {
    let exe = std::env::current_exe().unwrap();
    // a virtual-memory limit keeps a runaway allocation from taking the machine down
    let mut c = Command::new("/bin/sh");
    c.arg("-c").arg("ulimit -v 12000000; exec \"$0\" \"$@\"").arg(exe);
    c.args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    c.spawn().expect("cannot start a worker")
}
/// run a child to its end, at most `cap`; None if it had to be killed
fn run_capped(args: &[String], cap: Duration) -> Option<(std::process::ExitStatus, String)> {
    let mut c = spawn(args);
    let out = c.stdout.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut BufReader::new(out), &mut s);
        let _ = tx.send(s);
    });
    match rx.recv_timeout(cap) {
        Ok(s) => Some((c.wait().ok()?, s)),
        Err(_) => {
            let _ = c.kill();
            let _ = c.wait();
            None
        }
    }
}

enum Msg {
    Line(u64, u64, String),
    End(u64, u64, Option<i32>),
}
struct Slot {
    child: Child,
    /// index under way
    at: u64,
    next: u64,
    to: u64,
    seen: Instant,
    done: bool,
    gen: u64,
}
fn start(prop: &str, base: u64, w: u64, gen: u64, from: u64, to: u64, tx: &Sender<Msg>) -> Slot {
    let mut child = spawn(&["worker".into(), prop.into(), base.to_string(), from.to_string(), to.to_string()]);
    let out = child.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            match l {
                Ok(l) => {
                    if tx.send(Msg::Line(w, gen, l)).is_err() {
                        return;
                    }
                }
                Err(_) => break,
            }
        }
        let _ = tx.send(Msg::End(w, gen, None));
    });
    Slot { child, at: from, next: from, to, seen: Instant::now(), done: from >= to, gen }
}
#[derive(Clone, Debug)]
struct Found {
    index: u64,
    what: String,
}

pub fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let n = env_u64("VERIF_SEEDS", if thorough { quick(prop) * 60 } else { quick(prop) });
    let cap = Duration::from_secs(env_u64("VERIF_SECONDS", if thorough { 800 } else { 240 }));
    let base = mix2(seed, prop.bytes().fold(7, |h, b| mix2(h, b as u64)));
    println!("{prop}: seed {seed}, tier {tier}, {n} scenarios");
    let mut acc = Acc::default();
    let mut found: Vec<Found> = vec![];
    let mut hangs: Vec<u64> = vec![];
    let mut crashes: Vec<(u64, String)> = vec![];
    let (tx, rx) = channel();
    let mut slots: Vec<Slot> = (0..WORKERS).map(|w| start(prop, base, w, 0, w, n, &tx)).collect();
    let mut timed_out = false;
    while slots.iter().any(|s| !s.done) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Line(w, gen, l)) => {
                let s = &mut slots[w as usize];
                if s.gen != gen {
                    continue;
                }
                s.seen = Instant::now();
                let (k, rest) = l.split_at(1.min(l.len()));
                let rest = rest.trim_start();
                match k {
                    "S" => {
                        s.at = rest.parse().unwrap_or(s.at);
                        s.next = s.at + WORKERS;
                    }
                    "V" => {
                        let (i, what) = rest.split_once(' ').unwrap_or(("0", rest));
                        found.push(Found { index: i.parse().unwrap_or(0), what: what.into() });
                    }
                    "A" => {
                        if let Ok(a) = serde_json::from_str::<Acc>(rest) {
                            acc.merge(a);
                        }
                    }
                    "D" => s.next = rest.parse().unwrap_or(s.to),
                    _ => {}
                }
            }
            Ok(Msg::End(w, gen, _)) => {
                let s = &mut slots[w as usize];
                if s.gen != gen {
                    continue;
                }
                let st = s.child.wait().ok();
                if st.map_or(true, |x| !x.success()) {
                    crashes.push((s.at, st.map_or("?".into(), |x| x.to_string())));
                    s.next = s.at + WORKERS;
                }
                if s.next < s.to {
                    let g = s.gen + 1;
                    *s = start(prop, base, w, g, s.next, s.to, &tx);
                } else {
                    s.done = true;
                }
            }
            Err(RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        for w in 0..WORKERS as usize {
            let s = &mut slots[w];
            if !s.done && s.seen.elapsed() > HANG {
                let _ = s.child.kill();
                let _ = s.child.wait();
                hangs.push(s.at);
                let (g, from, to) = (s.gen + 1, s.at + WORKERS, s.to);
                *s = start(prop, base, w as u64, g, from, to, &tx);
            }
        }
        // enough seen to report; more would only cost time
        let enough = !found.is_empty() && !thorough || found.len() > 40 || crashes.len() > 3 || hangs.len() > 12;
        if enough || t0.elapsed() > cap {
            timed_out = !enough;
            for s in &mut slots {
                let _ = s.child.kill();
                let _ = s.child.wait();
                s.done = true;
            }
            // what was said before the end still counts
            while let Ok(m) = rx.try_recv() {
                if let Msg::Line(_, _, l) = m {
                    if let Some(x) = l.strip_prefix("A ") {
                        if let Ok(a) = serde_json::from_str::<Acc>(x) {
                            acc.merge(a);
                        }
                    } else if let Some(x) = l.strip_prefix("V ") {
                        let (i, what) = x.split_once(' ').unwrap_or(("0", x));
                        found.push(Found { index: i.parse().unwrap_or(0), what: what.into() });
                    }
                }
            }
        }
    }
    let explore_s = t0.elapsed().as_secs_f64();

    // a worker that died: run the seed alone; a crash that comes again is the library's
    for (i, st) in crashes.iter().take(3) {
        let again = run_capped(
            &["worker".into(), prop.into(), base.to_string(), i.to_string(), (i + 1).to_string()],
            Duration::from_secs(60),
        );
        match again {
            Some((x, _)) if !x.success() => found.push(Found { index: *i, what: format!("crash: the process died ({st}, again {x})") }),
            _ => {
                *acc.skip_why.entry(format!("process ended by {st}, not again")).or_default() += 1;
            }
        }
    }
    // a task that neither ends nor allocates nor looks at its input: no answer, whatever the property
    acc.skipped += hangs.len() as u64;
    if !hangs.is_empty() {
        *acc.skip_why.entry("no sign of life".into()).or_default() += hangs.len() as u64;
    }
    for &i in hangs.iter().take(2) {
        let again = run_capped(
            &["worker".into(), prop.into(), base.to_string(), i.to_string(), (i + 1).to_string()],
            Duration::from_secs(60),
        );
        if again.is_none() {
            found.push(Found { index: i, what: NO_END.into() });
        }
    }
    let total = acc.runs + acc.skipped;
    if prop == "C03" && total >= 400 && acc.skipped * 20 > total {
        // on the tree this was built for fewer than one scenario in 200 is given up
        found.push(Found {
            index: u64::MAX,
            what: format!("unbounded work: {} of {} scenarios needed more work than allowed", acc.skipped, total),
        });
    }

    // ---- report
    found.sort_by_key(|f| f.index);
    let mut by_class: BTreeMap<String, Found> = BTreeMap::new();
    for f in &found {
        by_class.entry(min::class(&f.what).to_string()).or_insert_with(|| f.clone());
    }
    let known = known_findings(prop);
    let _ = std::fs::create_dir_all(format!("{ROOT}/replays"));
    let mut lines = vec![];
    let mut nviol = 0;
    let mut known_seen = vec![];
    for (k, (class, f)) in by_class.iter().take(4).enumerate() {
        let path = format!("{ROOT}/replays/{prop}-{seed}-{k}.json");
        let what = make_replay(prop, base, f, &path, if thorough { 120 } else { 40 });
        let what = what.unwrap_or_else(|| f.what.clone());
        if let Some(x) = known.iter().find(|x| what.contains(x.0.as_str())) {
            known_seen.push(x.clone());
            continue;
        }
        nviol += 1;
        lines.push(format!("VIOLATION property={prop} replay={path}"));
        lines.push(format!("  {class} at scenario {}: {}", f.index, cut(&what, 1500)));
    }
    for (pat, text) in &known {
        if known_seen.iter().any(|x| x.0 == *pat) {
            println!("KNOWN-FINDING: property={prop} {text}");
        }
    }
    write_evidence(prop, &tier, seed, n, base, &acc, explore_s, t0.elapsed().as_secs_f64(), nviol, timed_out, hangs.len(), crashes.len());
    println!(
        "{prop}: {} runs in {:.1} s, {} skipped {:?}, {} distinct executions, {} hangs, {} dead workers{}",
        acc.runs,
        explore_s,
        acc.skipped,
        acc.skip_why,
        acc.distinct(),
        hangs.len(),
        crashes.len(),
        if timed_out { ", stopped by the clock" } else { "" }
    );
    for l in &lines {
        println!("{l}");
    }
    if nviol > 0 {
        return 1;
    }
    if acc.runs == 0 {
        println!("error: nothing was run");
        return 2;
    }
    0
}
fn cut(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}
/// `property <tab> text of the violation it covers <tab> description`, and `fixed:` lines
fn known_findings(prop: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(format!("{ROOT}/known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter(|l| !l.starts_with('#') && !l.starts_with("fixed:"))
        .filter_map(|l| {
            let v: Vec<&str> = l.split('\t').collect();
            (v.len() == 3 && v[0] == prop).then(|| (v[1].to_string(), v[2].to_string()))
        })
        .collect()
}
/// minimise and write the replay file; what it says when replayed
fn make_replay(prop: &str, base: u64, f: &Found, path: &str, secs: u64) -> Option<String> {
    if f.index == u64::MAX {
        let _ = std::fs::write(path, serde_json::json!({"property": prop, "violation": f.what, "base": base}).to_string());
        return None;
    }
    let plan = scen::generate(prop, seed_of(base, f.index));
    let first = Replay {
        property: prop.into(),
        violation: f.what.clone(),
        fingerprint: String::new(),
        found_at_seed: plan.seed,
        minimised_in_tries: 0,
        plan: plan.clone(),
    };
    let write = |r: &Replay| std::fs::write(path, serde_json::to_string_pretty(r).unwrap()).unwrap();
    write(&first);
    if min::class(&f.what) == "crash" || f.what.starts_with("no end: a task neither") {
        return None;
    }
    let src = format!("{path}.plan");
    std::fs::write(&src, serde_json::to_string(&plan).unwrap()).unwrap();
    let _ = run_capped(
        &["min".into(), src.clone(), path.into(), secs.to_string()],
        Duration::from_secs(secs + 15),
    );
    let _ = std::fs::remove_file(&src);
    let _ = std::fs::remove_file(format!("{path}.tmp"));
    // it must fail again, in the same way, in a process of its own
    let ok = |path: &str| -> Option<(String, String)> {
        let (st, out) = run_capped(&["replay-in".into(), path.into()], Duration::from_secs(60))?;
        if st.code() != Some(1) {
            return None;
        }
        let mut l = out.lines().skip(1);
        Some((l.next()?.to_string(), l.next()?.to_string()))
    };
    match ok(path) {
        Some((v, fp)) if min::class(&v) == min::class(&f.what) => {
            let s = std::fs::read_to_string(path).ok()?;
            let mut r: Replay = serde_json::from_str(&s).ok()?;
            r.violation = v.clone();
            r.fingerprint = fp.replace("fingerprint ", "");
            write(&r);
            Some(v)
        }
        _ => {
            write(&first);
            ok(path).map(|x| x.0)
        }
    }
}

fn real_parts(prop: &str) -> (Vec<&'static str>, Vec<&'static str>) {
    let lexer = "Lexer, LexerATNSimulator, LexerDFA cache, lexer actions";
    let parser = "BaseParser, ParserATNSimulator, DFA and prediction-context caches, error strategies";
    let tree = "parse trees, listeners, walker, visitor";
    let streams = "CommonTokenStream, UnbufferedTokenStream";
    let chars = "InputStream, CodePointCharStream, ByteCharStream data";
    let real = match prop {
        "C01" | "C03" | "C04" => vec![parser, lexer, tree, streams],
        "C02" | "C05" | "C06" => vec![lexer, "InputStream over str, u8, u16, u32"],
        "C09" | "C10" => vec![streams, "IterWrapper, TokenIter"],
        "C15" => vec![chars, lexer],
        "C11" => vec![parser, lexer, streams],
        _ => vec![parser, tree, streams],
    };
    let stub = vec![
        "grammars: random, their networks serialised by the harness and read by the real deserialiser",
        "generated parser code: an interpreter making the calls generated code makes",
        "parking_lot: a shim of the same interface that hands every lock operation to the scheduler",
        "token source, windowed token stream, character stream wrapper, listeners, predicates: test doubles of the user's side",
    ];
    (real, stub)
}
fn rule_of(prop: &str) -> &'static str {
    match prop {
        "C01" | "C02" | "C03" | "C12" => "One scenario = a random grammar, inputs (sentences and corrupted ones), 1-4 tasks sharing one set of caches, an optional warm-up history and a seeded schedule. Distinct = different hash over the schedule and all outputs; non-trivial = at least two tasks ran and the scheduler switched between them before the first had ended.",
        "C04" => "One scenario = a random grammar, inputs, 2-4 tasks sharing caches of which some panic inside a chosen callback, and a recognition afterwards. Distinct = different hash over the schedule and all outputs; non-trivial = an injected panic fired.",
        "C09" | "C10" => "One scenario = 1-3 tasks each driving one or two streams through a random operation history over random tokens, checked step by step against a list with a cursor. Distinct = different hash over the results; non-trivial = at least four operations.",
        "C15" => "One scenario = operation histories over character streams checked against a code-point list, or one text lexed through several representations. Distinct = different hash over the schedule and all outputs; non-trivial = at least four operations or tokens.",
        _ => "One scenario = a random grammar, inputs (sentences and ones with injected errors), 1-3 tasks sharing caches under a seeded schedule, each result judged by the oracle. Distinct = different hash over the schedule and all outputs; non-trivial = at least one token was recognised.",
    }
}
#[allow(clippy::too_many_arguments)]
fn write_evidence(
    prop: &str,
    tier: &str,
    seed: u64,
    n: u64,
    base: u64,
    acc: &Acc,
    explore_s: f64,
    wall: f64,
    nviol: u32,
    timed_out: bool,
    hangs: usize,
    crashes: usize,
) {
    let mut samples = vec![];
    for i in 0..3u64 {
        let p = scen::generate(prop, seed_of(base, i));
        let s = serde_json::to_value(&p).unwrap_or_default();
        samples.push(s);
    }
    let (real, stub) = real_parts(prop);
    let level = if prop == "C04" { "fault_enumeration" } else { "exploration" };
    let per_h = |x: u64| (x as f64 / explore_s.max(0.01) * 3600.0) as u64;
    let ev = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": nviol,
        "coverage": {
            "evaluations": acc.runs,
            "distinct_nontrivial": acc.distinct(),
            "rule": rule_of(prop),
            "samples": samples,
            "scenarios_asked_for": n,
            "seeds_per_hour": per_h(acc.runs),
            "jobs_judged": acc.jobs,
            "jobs_per_hour": per_h(acc.jobs),
            "tasks_run": acc.tasks,
            "simulated_time_in_scheduler_steps": acc.steps + acc.stall_steps,
            "context_switches": acc.switches,
            "lock_operations_intercepted": acc.lock_ops,
            "lock_operations_that_waited": acc.contended,
            "preemptions_while_holding_a_lock": acc.in_lock,
            "faults_injected": acc.faults,
            "stalls": acc.stalls,
            "stall_steps": acc.stall_steps,
            "injected_panics_that_ended_a_job": acc.crashes,
            "tokens_recognised": acc.tokens,
            "errors_reported": acc.errors,
            "user_actions_run": acc.actions,
            "predictions": acc.predicts,
            "full_context_predictions": acc.full_ctx,
            "sentences_only_full_context_accepts": acc.ll_only,
            "ambiguities_reported": acc.ambig,
            "dfa_states_built": acc.dfa_states,
            "sentences_judged": acc.members,
            "non_sentences_judged": acc.nonmembers,
            "stream_operations": acc.ops,
            "most_allocations_of_a_task": acc.max_work,
            "most_calls_on_input_over_squared_length": acc.max_calls,
            "scenarios_given_up": acc.skipped,
            "scenarios_given_up_why": acc.skip_why,
            "workers_without_sign_of_life": hangs,
            "workers_that_died": crashes,
            "stopped_by_the_clock": timed_out,
            "ran_real_code": real,
            "ran_a_stub": stub,
        },
        "assumptions": [
            "memory is sequentially consistent: tasks switch only at lock operations, callbacks, input calls and allocations",
            "an allocation never fails; the library reads no clock and no file",
        ],
    });
    let _ = std::fs::create_dir_all(format!("{ROOT}/evidence"));
    let p = format!("{ROOT}/evidence/{prop}.json");
    std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()).expect("cannot write evidence");
}
#[allow(dead_code)]
fn _a(_: Abort) {}
