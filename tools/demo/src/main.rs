//! Runs the recognitions of a case file on the real runtime and prints what each one produced.
#![allow(dead_code)]
mod grammar;
mod ldrive;
mod lgrammar;
mod ops;
mod patn;
mod pdrive;
mod rt;
mod streams;
use serde::Deserialize;
use std::rc::Rc;
use std::sync::{Arc, Barrier};

#[derive(Clone, Deserialize)]
enum Job {
    P(pdrive::PJob),
    L(ldrive::LJob),
    LP(ldrive::LJob, pdrive::PJob),
    Ops(ops::OpsPlan),
}
#[derive(Clone, Deserialize)]
struct Step {
    job: Job,
    #[serde(default)]
    panic: Option<rt::PanicAt>,
    /// on unused caches
    #[serde(default)]
    fresh: bool,
}
#[derive(Clone, Deserialize)]
struct Case {
    pg: Option<grammar::Grammar>,
    lg: Option<lgrammar::LGrammar>,
    /// one after another on the same caches
    steps: Vec<Step>,
    /// then: this many threads, each running all the steps on shared, at first unused caches
    #[serde(default)]
    threads: usize,
    #[serde(default)]
    rounds: usize,
}
#[derive(Clone)]
struct Sh(Option<Arc<pdrive::PShared>>, Option<Arc<ldrive::LShared>>);
unsafe impl Send for Sh {}
impl Sh {
    fn fresh(&self) -> Sh {
        Sh(self.0.as_ref().map(|p| Arc::new(p.fresh())), self.1.as_ref().map(|l| Arc::new(l.fresh())))
    }
}
fn parse(sh: &Sh, lex: Option<&ldrive::LJob>, j: &pdrive::PJob) -> String {
    let mut o = pdrive::POut::default();
    let notes: streams::Note = Default::default();
    let errs: Rc<std::cell::RefCell<Vec<(usize, ldrive::LErr)>>> = Default::default();
    let lexed = lex.map(|l| ldrive::new_lexer(sh.1.as_ref().unwrap(), l, notes.clone(), errs.clone(), Default::default()));
    let (src, back) = match lexed {
        Some((lx, b)) => (Some(streams::Src::Lex(Box::new(lx))), Some(b)),
        None => (None, None),
    };
    pdrive::run_parse(sh.0.as_ref().unwrap(), j, src, &mut o);
    drop(back);
    let mut s = format!("{} {}\n", o.result, o.tree.unwrap_or_default());
    fn span(n: &pdrive::NodeRec, s: &mut String) {
        if n.leaf.is_none() {
            s.push_str(&format!("r{}[{},{}]{} ", n.rule, n.start, n.stop, if n.parent_ok { "" } else { " wrong parent" }));
            n.kids.iter().for_each(|k| span(k, s));
        }
    }
    if let Some(r) = &o.root {
        s.push_str("  spans ");
        span(r, &mut s);
        s.push('\n');
    }
    if o.dup_node {
        s.push_str("  a node occurs twice in the tree\n");
    }
    for (id, e) in &o.errs {
        s.push_str(&format!("  listener {id}: line {}:{} {} (token {})\n", e.line, e.col, e.msg, e.tok));
    }
    for a in &o.ambs {
        s.push_str(&format!("  {a:?}\n"));
    }
    for (id, e) in &o.events {
        s.push_str(&format!("  event of {id}: {e:?}\n"));
    }
    s.push_str(&format!("  walk {:?}\n  visit {:?}\n  text {:?} {:?}\n  actions {:?} end {} tokens asked {}\n", o.walk, o.visit, o.string_tree, o.tree_text, o.acts, o.end_index, o.asked));
    for n in o.notes.iter().chain(notes.borrow().iter()) {
        s.push_str(&format!("  note {n}\n"));
    }
    s
}
fn step(sh: &Sh, j: &Job) -> String {
    match j {
        Job::P(j) => parse(sh, None, j),
        Job::LP(l, j) => parse(sh, Some(l), j),
        Job::Ops(p) => format!("{:?}\n", ops::exec(p)),
        Job::L(j) => {
            let mut o = ldrive::LOut::default();
            ldrive::run_lex(sh.1.as_ref().unwrap(), j, &mut o);
            let mut s = String::new();
            for t in &o.toks {
                s.push_str(&format!("{t:?}\n"));
            }
            for (id, e) in &o.errs {
                s.push_str(&format!("  listener {id}: {e:?}\n"));
            }
            s.push_str(&format!("  actions {:?} mode {:?} at {:?}\n", o.acts, o.modes, o.pos));
            for n in &o.notes {
                s.push_str(&format!("  note {n}\n"));
            }
            s
        }
    }
}
/// what each step produced, taking the steps in order from the given one on
fn all(sh: &Sh, c: &Case, first: usize) -> Vec<String> {
    let n = c.steps.len();
    let mut res = vec![String::new(); n];
    for k in 0..n {
        let i = (first + k) % n;
        let st = &c.steps[i];
        rt::arm(st.panic.as_ref());
        let own = if st.fresh { sh.fresh() } else { sh.clone() };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| step(&own, &st.job)));
        rt::arm(None);
        res[i] = r.unwrap_or_else(|e| {
            if let Some(x) = e.downcast_ref::<String>() { format!("panic: {x}\n") }
            else { format!("panic: {}\n", e.downcast_ref::<&str>().unwrap_or(&"?")) }
        });
    }
    res
}
fn main() {
    let f = std::env::args().nth(1).expect("case file");
    let c: Case = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let sh = Sh(
        c.pg.as_ref().map(|g| Arc::new(pdrive::PShared::new(patn::compile(g)))),
        c.lg.as_ref().map(|g| Arc::new(ldrive::LShared::new(lgrammar::compile(g)))),
    );
    let one = all(&sh, &c, 0);
    for (i, o) in one.iter().enumerate() {
        print!("#{i} {o}");
    }
    let mut bad = 0;
    for _ in 0..c.rounds {
        let s2 = sh.fresh();
        let bar = Arc::new(Barrier::new(c.threads));
        let hs: Vec<_> = (0..c.threads)
            .map(|k| {
                let (s2, c, bar) = (s2.clone(), c.clone(), bar.clone());
                std::thread::spawn(move || {
                    let s2 = s2;
                    rt::spin(1 + k as u32 * 7);
                    bar.wait();
                    all(&s2, &c, k)
                })
            })
            .collect();
        for h in hs {
            if h.join().map_or(true, |o| o != one) {
                bad += 1;
            }
        }
    }
    if bad > 0 {
        println!("{bad} runs on shared caches differ from the run alone");
    }
}
