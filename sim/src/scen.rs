//! Scenarios: what one seed means, how it is run, and what must hold of it.
use crate::grammar::{self, GenOpts, Grammar};
use crate::ldrive::{self, LJob, LOut, LShared, Rep};
use crate::lgrammar::{self, Cmd, LGrammar, LOpts, LRule, LE};
use crate::ops::{self, OpsPlan, Sel};
use crate::pdrive::{self, Ev, Mode, NodeRec, PJob, POut, PShared, Strat};
use crate::rt::{self, mix2, Abort, Cb, PanicAt, Report, Rng, Sched, SchedPlan, Slot, Stall, Stats, TaskSpec, NCB};
use crate::streams::*;
use crate::{patn, pref, recov};
use serde::{Deserialize, Serialize};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Job {
    P(PJob),
    L(LJob),
    /// a real lexer feeding a parser
    LP(LJob, PJob),
    Ops(OpsPlan),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct TaskPlan {
    pub jobs: Vec<Job>,
    pub hash_seed: u64,
    pub panic: Option<PanicAt>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub pg: Option<Grammar>,
    pub lg: Option<LGrammar>,
    /// run one after the other on the shared caches before the tasks start
    pub warm: Vec<Job>,
    pub tasks: Vec<TaskPlan>,
    /// run on the same caches after all tasks have ended
    pub after: Vec<Job>,
    pub sched: SchedPlan,
    pub labels: Vec<String>,
}

#[derive(Clone, Debug)]
pub enum Out {
    P(Box<POut>),
    L(Box<LOut>),
    Ops(Result<usize, String>),
    /// the job ended by a panic: injected or the library's own
    Crash(bool, String),
}

#[derive(Default, Clone, Debug, Serialize, Deserialize)]
pub struct Acc {
    pub runs: u64,
    pub tasks: u64,
    pub jobs: u64,
    pub errors: u64,
    pub tokens: u64,
    pub predicts: u64,
    pub ambig: u64,
    pub full_ctx: u64,
    pub ll_only: u64,
    pub members: u64,
    pub nonmembers: u64,
    pub dfa_states: u64,
    pub crashes: u64,
    pub ops: u64,
    pub actions: u64,
    pub steps: u64,
    pub switches: u64,
    pub lock_ops: u64,
    pub contended: u64,
    pub in_lock: u64,
    pub stalls: u64,
    pub stall_steps: u64,
    pub skipped: u64,
    pub skip_why: std::collections::BTreeMap<String, u64>,
    pub faults: std::collections::BTreeMap<String, u64>,
    pub hashes: Vec<u64>,
    pub max_work: u64,
    /// largest number of input and callback calls per task, over its bound's unit
    pub max_calls: f64,
}
impl Acc {
    pub fn merge(&mut self, o: Acc) {
        self.runs += o.runs;
        self.tasks += o.tasks;
        self.jobs += o.jobs;
        self.errors += o.errors;
        self.tokens += o.tokens;
        self.predicts += o.predicts;
        self.ambig += o.ambig;
        self.full_ctx += o.full_ctx;
        self.ll_only += o.ll_only;
        self.members += o.members;
        self.nonmembers += o.nonmembers;
        self.dfa_states += o.dfa_states;
        self.crashes += o.crashes;
        self.ops += o.ops;
        self.actions += o.actions;
        self.steps += o.steps;
        self.switches += o.switches;
        self.lock_ops += o.lock_ops;
        self.contended += o.contended;
        self.in_lock += o.in_lock;
        self.stalls += o.stalls;
        self.stall_steps += o.stall_steps;
        self.skipped += o.skipped;
        for (k, v) in o.skip_why {
            *self.skip_why.entry(k).or_default() += v;
        }
        for (k, v) in o.faults {
            *self.faults.entry(k).or_default() += v;
        }
        self.hashes.extend(o.hashes);
        self.max_work = self.max_work.max(o.max_work);
        self.max_calls = self.max_calls.max(o.max_calls);
    }
    pub fn distinct(&self) -> usize {
        let mut h = self.hashes.clone();
        h.sort();
        h.dedup();
        h.len()
    }
    fn stats(&mut self, s: &Stats) {
        self.steps += s.steps;
        self.switches += s.switches;
        self.lock_ops += s.lock_ops;
        self.contended += s.contended;
        self.in_lock += s.preempt_in_lock;
        self.stalls += s.stalls;
        self.stall_steps += s.stall_steps;
    }
    fn fault(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(k.to_string()).or_default() += n;
        }
    }
}
#[derive(Debug)]
pub enum Verdict {
    Ok,
    Skip(String),
    Viol(String),
}

struct Shared {
    p: Option<PShared>,
    l: Option<LShared>,
}
impl Shared {
    fn same(&self) -> Shared {
        Shared { p: self.p.as_ref().map(|x| x.same()), l: self.l.as_ref().map(|x| x.same()) }
    }
    fn fresh(&self) -> Shared {
        Shared { p: self.p.as_ref().map(|x| x.fresh()), l: self.l.as_ref().map(|x| x.fresh()) }
    }
}
fn run_job(sh: &Shared, job: &Job) -> Out {
    match job {
        Job::P(j) => {
            let mut o = POut::default();
            pdrive::run_parse(sh.p.as_ref().unwrap(), j, None, &mut o);
            Out::P(Box::new(o))
        }
        Job::L(j) => {
            let mut o = LOut::default();
            ldrive::run_lex(sh.l.as_ref().unwrap(), j, &mut o);
            Out::L(Box::new(o))
        }
        Job::LP(lj, pj) => {
            let mut o = POut::default();
            let notes: Note = Default::default();
            let errs = Default::default();
            let acts = Default::default();
            let (lx, back) = ldrive::new_lexer(sh.l.as_ref().unwrap(), lj, notes.clone(), Rc::clone(&errs), acts);
            pdrive::run_parse(sh.p.as_ref().unwrap(), pj, Some(Src::Lex(Box::new(lx))), &mut o);
            drop(back);
            o.notes.extend(notes.borrow().iter().cloned());
            for (id, e) in errs.borrow().iter() {
                o.errs.push((
                    *id,
                    pdrive::ErrRec { line: e.line, col: e.col, tok: -9, tt: -9, msg: e.msg.clone(), at: e.start, kind: "lex".into() },
                ));
            }
            Out::P(Box::new(o))
        }
        Job::Ops(p) => Out::Ops(ops::exec(p)),
    }
}
type Outs = Vec<Vec<Out>>;
/// run tasks under the scheduler; every job is caught on its own
fn run_tasks(sh: &Shared, tasks: &[TaskPlan], sched: &SchedPlan) -> (Report, Outs) {
    let mut specs = vec![];
    let mut slots: Vec<Slot<Vec<Out>>> = vec![];
    for t in tasks {
        let slot: Slot<Vec<Out>> = Default::default();
        slot.put(vec![]);
        slots.push(slot.clone());
        let jobs = t.jobs.clone();
        struct SendBox<T>(T);
        unsafe impl<T> Send for SendBox<T> {}
        let shb = SendBox(sh.same());
        specs.push(TaskSpec {
            f: Box::new(move || {
                let shb = shb;
                let sh = shb.0;
                for j in jobs.iter() {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_job(&sh, j)));
                    let o = match r {
                        Ok(o) => o,
                        Err(e) => {
                            let inj = e.is::<rt::Injected>();
                            Out::Crash(inj, rt::take_panic_msg())
                        }
                    };
                    slot.get().as_mut().unwrap().push(o);
                }
            }),
            hash_seed: t.hash_seed,
            panic_at: t.panic.clone(),
        });
    }
    let rep = rt::run(sched, specs);
    let outs = slots.iter().map(|s| s.get().clone().unwrap_or_default()).collect();
    (rep, outs)
}

// ---------------------------------------------------------------- generation
pub const BUDGET: u64 = 400_000;
pub const LIMIT: u64 = 3_000_000;

fn sched(r: &mut Rng, ntasks: usize) -> SchedPlan {
    let sched = match r.below(10) {
        0 => Sched::RoundRobin { every: r.range(1, 5) as u32 },
        1..=3 => Sched::Pct { changes: r.range(1, 6) as u32, len: *r.pick(&[200, 1000, 4000]) },
        4..=6 => Sched::Random { n: r.range(1, 4) as u32 },
        _ => Sched::Random { n: *r.pick(&[6, 15, 40, 120]) },
    };
    let mut stalls = vec![];
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 3) {
            stalls.push(Stall {
                task: r.below(ntasks) as u32,
                at: r.range(1, 600) as u32,
                steps: *r.pick(&[20, 200, 2000, 20000]),
            });
        }
    }
    SchedPlan {
        seed: r.next(),
        sched,
        alloc_gap: if r.chance(1, 2) { *r.pick(&[3, 20, 100, 400]) } else { 0 },
        stalls,
        limit: LIMIT,
        work: BUDGET,
    }
}
struct Gen {
    r: Rng,
    labels: Vec<String>,
    hidden: bool,
    /// tokens of types the grammar does not know may appear
    foreign: bool,
}
impl Gen {
    fn toks(&mut self, g: &Grammar, start: usize, max: usize, corrupt: (usize, usize)) -> Vec<i32> {
        let r = &mut self.r;
        let mut v = vec![];
        for _ in 0..6 {
            v = grammar::sentence(g, r, start, max);
            if v.len() <= max {
                break;
            }
        }
        v.truncate(max);
        if r.chance(corrupt.0, corrupt.1) {
            let k = *r.pick(&[1, 1, 1, 2, 3]);
            for _ in 0..k {
                let l = grammar::corrupt(&mut v, g.ntok, r);
                self.labels.push(l.to_string());
            }
            if self.foreign && r.chance(1, 8) {
                let i = r.below(v.len() + 1);
                v.insert(i, g.ntok + *r.pick(&[1, 1, 2, 200]));
                self.labels.push("token_foreign".into());
            }
            v.truncate(max + 1);
        }
        v
    }
    fn specs(&mut self, v: &[i32]) -> Vec<TokSpec> {
        let mut out = vec![];
        for &t in v {
            if self.hidden && self.r.chance(1, 4) {
                out.push(TokSpec { t: 1 + self.r.below(4) as i32, ch: 1 + self.r.below(2) as u8 });
            }
            out.push(TokSpec { t, ch: 0 });
        }
        if self.hidden && self.r.chance(1, 4) {
            out.push(TokSpec { t: 2, ch: 1 });
        }
        out
    }
    fn pjob(&mut self, g: &Grammar, max: usize, corrupt: (usize, usize)) -> PJob {
        // mostly the rule that ends with EOF, sometimes any other rule
        let start = if self.r.chance(1, 4) { self.r.below(g.rules.len()) } else { 0 };
        let v = self.toks(g, start, max, corrupt);
        let mut j = PJob::simple(vec![]);
        j.start = start;
        j.toks = self.specs(&v);
        if g.npred > 0 {
            j.pred_seed = self.r.below(6) as u64;
            j.pred_pos = self.r.chance(1, 2);
        }
        j
    }
    fn sched(&mut self, n: usize) -> SchedPlan {
        sched(&mut self.r, n)
    }
    fn panic_at(&mut self, cbs: &[Cb], lo: usize, hi: usize) -> Option<PanicAt> {
        Some(PanicAt { cb: *self.r.pick(cbs), n: self.r.range(lo, hi) as u32 })
    }
}
/// lexer whose tokens are the parser grammar's, with white space and comments around them
pub fn pipe_lexer(ntok: i32) -> LGrammar {
    let c = |x: char| LE::S(vec![(x as u32, x as u32)], false);
    let mut rules = vec![];
    let mut acts = vec![];
    for t in 1..=ntok {
        rules.push(LRule { alts: vec![vec![c((b'a' + (t - 1) as u8) as char)]], frag: false, mode: 0, tok: t });
    }
    let k = grammar::Kind::Plus;
    acts.push((rules.len(), Cmd::Channel(1)));
    rules.push(LRule {
        alts: vec![vec![LE::B { k, greedy: true, alts: vec![vec![c(' ')]] }, LE::Act(0)]],
        frag: false,
        mode: 0,
        tok: ntok + 1,
    });
    acts.push((rules.len(), Cmd::Skip));
    rules.push(LRule {
        alts: vec![vec![c('/'), LE::B { k: grammar::Kind::Star, greedy: false, alts: vec![vec![LE::Any]] }, c('/'), LE::Act(1)]],
        frag: false,
        mode: 0,
        tok: ntok + 2,
    });
    acts.push((rules.len(), Cmd::Skip));
    rules.push(LRule { alts: vec![vec![c('\n'), LE::Act(2)]], frag: false, mode: 0, tok: ntok + 3 });
    LGrammar { alpha: vec![97, 32, 47, 10], rules, nmodes: 1, npred: 0, acts }
}
fn pipe_text(v: &[i32], r: &mut Rng) -> Vec<u32> {
    let mut s = vec![];
    let sp = |s: &mut Vec<u32>, r: &mut Rng| match r.below(8) {
        0 => s.extend([32, 32]),
        1 => s.push(32),
        2 => s.push(10),
        3 => s.extend("/a/".chars().map(|c| c as u32)),
        4 if r.chance(1, 20) => s.push('%' as u32),
        _ => {}
    };
    for &t in v {
        sp(&mut s, r);
        s.push(96 + t as u32);
    }
    sp(&mut s, r);
    s
}

pub fn lexer_job(g: &mut Gen_, lg: &LGrammar, reps: &[Rep], max: usize) -> LJob {
    let r = &mut g.r;
    let mut text = lgrammar::text(lg, r, max);
    if r.chance(1, 2) {
        let k = *r.pick(&[1, 1, 2, 4]);
        for _ in 0..k {
            let l = lgrammar::corrupt(&mut text, &lg.alpha, r);
            g.labels.push(l.to_string());
        }
    }
    LJob {
        text,
        rep: *r.pick(reps),
        pred_seed: if lg.npred > 0 { r.below(6) as u64 } else { 0 },
        pred_pos: r.chance(1, 2),
        err_listeners: *r.pick(&[1, 1, 1, 2, 0, 3]),
        err_change: None,
        fac: 0,
        hook: 0,
        moved: None,
    }
}
type Gen_ = Gen;

pub fn generate(prop: &str, seed: u64) -> Plan {
    let mut g = Gen { r: Rng::new(mix2(seed, 0xA11CE)), labels: vec![], hidden: false, foreign: false };
    let mut plan = Plan {
        prop: prop.into(),
        seed,
        pg: None,
        lg: None,
        warm: vec![],
        tasks: vec![],
        after: vec![],
        sched: SchedPlan::single(seed, LIMIT, BUDGET),
        labels: vec![],
    };
    let task = |jobs: Vec<Job>, r: &mut Rng| TaskPlan { jobs, hash_seed: r.next(), panic: None };
    match prop {
        "C01" | "C12" | "C04" | "C03" | "C07" | "C08" | "C11" | "C13" | "C14" | "C16" | "C21" | "C22" => {
            // which side this scenario is about
            let lex = match prop {
                "C04" | "C03" => g.r.below(3), // 0 parser, 1 lexer, 2 pipeline
                "C14" => g.r.below(5).min(2) % 2 + if g.r.chance(1, 8) { 1 } else { 0 },
                "C11" => if g.r.chance(1, 6) { 1 } else { 0 },
                "C01" | "C07" => if g.r.chance(1, 6) { 2 } else { 0 },
                _ => 0,
            };
            if lex == 1 {
                lexer_scn(&mut g, &mut plan, prop);
            } else {
                parser_scn(&mut g, &mut plan, prop, lex == 2);
            }
        }
        "C02" | "C05" | "C06" => lexer_scn(&mut g, &mut plan, prop),
        "C09" | "C10" | "C15" => {
            if prop == "C15" && g.r.chance(1, 3) {
                lexer_scn(&mut g, &mut plan, prop);
            } else {
                let n = g.r.range(1, 3);
                for _ in 0..n {
                    let sel = match prop {
                        "C09" => *g.r.pick(&[Sel::Common(0), Sel::Common(0), Sel::Common(1), Sel::Buffered]),
                        "C10" => *g.r.pick(&[Sel::Unbuffered, Sel::Unbuffered, Sel::Unbuffered, Sel::Buffered]),
                        _ => Sel::Chars(*g.r.pick(&[Rep::Str, Rep::Str, Rep::BoxStr, Rep::U8, Rep::U16, Rep::U32])),
                    };
                    let o = ops::gen(sel, &mut g.r);
                    let mut jobs = vec![Job::Ops(o)];
                    if g.r.chance(1, 2) {
                        let o = ops::gen(sel, &mut g.r);
                        jobs.push(Job::Ops(o));
                    }
                    plan.tasks.push(task(jobs, &mut g.r));
                }
                plan.sched = g.sched(n);
                plan.sched.alloc_gap = 0;
            }
        }
        _ => panic!("unknown property {prop}"),
    }
    plan.labels = g.labels;
    plan
}

fn parser_scn(g: &mut Gen, plan: &mut Plan, prop: &str, pipe: bool) {
    let mut o = GenOpts::default();
    o.ambig = g.r.chance(1, 3);
    o.preds = g.r.chance(1, 4);
    o.eof = g.r.chance(4, 5);
    if prop == "C03" {
        o.ambig = false;
        o.stuck = g.r.chance(1, 3);
        o.preds |= o.stuck;
        o.wild = g.r.chance(1, 4);
    }
    if prop == "C22" {
        o.ambig = g.r.chance(2, 3);
    }
    if pipe {
        o.preds = false;
    }
    // a few inputs are long: more than a byte's worth of tokens, children and positions
    let long = prop != "C07" && prop != "C22" && !pipe && g.r.chance(1, 60);
    if matches!(prop, "C07" | "C12") && !pipe && g.r.chance(1, 8) {
        o.tree = true;
        o.lr = false;
        o.preds = prop == "C07" && g.r.chance(1, 2);
    }
    let mut gr = if long { grammar::plain(&mut g.r) } else { Grammar::generate(&mut g.r, &o) };
    gr.ll1 = g.r.chance(1, 3);
    let max = if long {
        *g.r.pick(&[150, 300, 600])
    } else if prop == "C03" {
        g.r.range(4, 20)
    } else {
        g.r.range(2, 13)
    };
    let corrupt = match prop {
        "C08" | "C14" | "C03" | "C21" => (4, 5),
        "C07" | "C22" => (1, 4),
        _ => (1, 2),
    };
    g.hidden = matches!(prop, "C01" | "C07" | "C08" | "C16" | "C13" | "C12" | "C04" | "C21" | "C22") && !pipe && g.r.chance(1, 4);
    g.foreign = !pipe && !gr.complements();
    let ntasks = match prop {
        "C01" | "C03" | "C04" => g.r.range(2, 4),
        _ => *g.r.pick(&[1, 1, 2, 2, 3]),
    };
    let lg = if pipe { Some(pipe_lexer(gr.ntok)) } else { None };
    // see C12 for parsers in different modes sharing caches
    let one_mode = (gr.npred > 0).then(|| *g.r.pick(&[Mode::Ll, Mode::Ll, Mode::Sll, Mode::Exact]));
    let mode = |r: &mut Rng| one_mode.unwrap_or(*r.pick(&[Mode::Ll, Mode::Ll, Mode::Ll, Mode::Sll, Mode::Exact]));
    // a few distinct inputs, used by several tasks, so that caches are really shared
    let ninputs = g.r.range(1, 4);
    let mut pool: Vec<PJob> = vec![];
    for _ in 0..ninputs {
        let mut j = g.pjob(&gr, max, corrupt);
        match prop {
            "C01" | "C03" | "C04" => {
                j.mode = mode(&mut g.r);
                if g.r.chance(1, 6) {
                    j.strat = Strat::Bail;
                }
                j.listeners = g.r.below(2);
            }
            "C21" => {
                j.ask = g.r.chance(1, 4);
                j.mode = mode(&mut g.r);
                if g.r.chance(1, 8) {
                    j.strat = Strat::Bail;
                }
            }
            "C08" => {
                j.mode = *g.r.pick(&[Mode::Ll, Mode::Ll, Mode::Exact]);
                if g.r.chance(1, 4) {
                    j.strat = Strat::Bail;
                }
            }
            // predicates keep apart what the fast mode would merge: no other mode there
            "C07" if o.tree && gr.tree() => j.mode = Mode::Sll,
            "C07" => j.mode = *g.r.pick(&[Mode::Ll, Mode::Ll, Mode::Ll, Mode::Exact, Mode::Exact, Mode::Sll]),
            "C13" => {
                j.mode = mode(&mut g.r);
                j.listeners = g.r.range(1, 4);
                j.zst = g.r.chance(1, 6);
                if g.r.chance(1, 4) {
                    j.add_at = Some(g.r.range(1, 8) as u32);
                }
                j.trees = g.r.chance(5, 6);
                if g.r.chance(1, 3) {
                    let k = if g.r.chance(1, 8) { 99 } else { g.r.below(j.listeners) };
                    j.remove_at = Some((k, g.r.range(1, 8) as u32));
                }
            }
            "C14" => {
                j.mode = mode(&mut g.r);
                j.err_listeners = *g.r.pick(&[1, 2, 3, 0]);
                if g.r.chance(1, 4) {
                    j.err_change = Some((g.r.range(1, 6) as u32, g.r.below(2) as u8));
                }
                if g.r.chance(1, 6) {
                    j.strat = Strat::Bail;
                }
            }
            "C16" => j.mode = mode(&mut g.r),
            "C22" => {
                j.mode = *g.r.pick(&[Mode::Exact, Mode::Exact, Mode::Exact, Mode::Ll, Mode::Ll, Mode::Sll]);
                j.err_listeners = *g.r.pick(&[1, 1, 1, 2, 3]);
                if g.r.chance(1, 3) {
                    j.diag = Some(g.r.chance(1, 2));
                }
                if !g.hidden && !pipe && g.r.chance(1, 4) {
                    j.stream = *g.r.pick(&[StreamKind::Window, StreamKind::Unbuffered]);
                }
            }
            _ => {}
        }
        if !g.hidden && !pipe && matches!(prop, "C01" | "C03" | "C04" | "C08" | "C13" | "C16" | "C21") && g.r.chance(1, 4) {
            j.stream = *g.r.pick(&[StreamKind::Window, StreamKind::Unbuffered]);
        }
        if !pipe
            && matches!(prop, "C01" | "C07" | "C08" | "C13" | "C14" | "C16" | "C21")
            && (j.remove_at, j.add_at, j.err_change) == (None, None, None)
            && g.r.chance(1, 4)
        {
            j.again = Some(g.r.below(gr.rules.len()));
            if one_mode.is_none() && g.r.chance(1, 3) {
                j.again_mode = Some(mode(&mut g.r));
            }
        }
        pool.push(j);
    }
    let mut mk = |g: &mut Gen| -> Vec<Job> {
        let j = g.r.pick(&pool).clone();
        match prop {
            "C12" => {
                let mut v = vec![];
                for m in [Mode::Sll, Mode::Ll, Mode::Exact] {
                    let mut k = j.clone();
                    k.mode = m;
                    v.push(Job::P(k));
                }
                for i in (1..3).rev() {
                    let k = g.r.below(i + 1);
                    v.swap(i, k);
                }
                v
            }
            "C11" => {
                let mut v = vec![];
                for m in [StreamKind::Common, StreamKind::Unbuffered, StreamKind::Window] {
                    let mut k = j.clone();
                    k.stream = m;
                    v.push(Job::P(k));
                }
                v
            }
            _ if pipe => {
                let v: Vec<i32> = j.toks.iter().map(|t| t.t).collect();
                let text = pipe_text(&v, &mut g.r);
                vec![Job::LP(LJob::plain(text), j)]
            }
            _ => vec![Job::P(j)],
        }
    };
    if g.r.chance(1, 3) && prop != "C03" {
        for _ in 0..g.r.range(1, 3) {
            plan.warm.extend(mk(g));
        }
    }
    for _ in 0..ntasks {
        let mut jobs = vec![];
        let k = if prop == "C12" || prop == "C11" { 1 } else { g.r.range(1, 3) };
        for _ in 0..k {
            jobs.extend(mk(g));
        }
        plan.tasks.push(TaskPlan { jobs, hash_seed: g.r.next(), panic: None });
    }
    if prop == "C04" {
        let cbs = [
            Cb::TokSource, Cb::TokLt, Cb::TokLt, Cb::TokConsume, Cb::TokOther, Cb::Sempred, Cb::Sempred, Cb::Action,
            Cb::ErrListener, Cb::AmbigListener, Cb::ParseListener, Cb::Rule, Cb::Factory, Cb::CharLa,
        ];
        let nt = plan.tasks.len();
        let k = g.r.range(1, nt);
        for i in 0..k {
            let hi = *g.r.pick(&[3, 10, 30, 100]);
            plan.tasks[i].panic = g.panic_at(&cbs, 1, hi);
        }
        plan.after = mk(g);
    }
    plan.sched = g.sched(ntasks);
    plan.pg = Some(gr);
    plan.lg = lg;
}

fn lexer_scn(g: &mut Gen, plan: &mut Plan, prop: &str) {
    let mut o = LOpts::default();
    o.preds = g.r.chance(1, 3);
    o.eof = !o.preds;
    match prop {
        "C05" | "C15" => {
            o.actions = g.r.chance(1, 4);
            o.cmds = g.r.chance(1, 2);
        }
        _ => {}
    }
    let mut reps = vec![Rep::Str];
    match g.r.below(6) {
        0 => {
            o.ascii = true;
            reps = vec![Rep::Str, Rep::U8, Rep::U16, Rep::U32, Rep::BoxStr];
        }
        1 => {
            o.latin = true;
            reps = vec![Rep::Str, Rep::U8, Rep::U16, Rep::U32];
        }
        2 => {
            o.bmp = true;
            reps = vec![Rep::Str, Rep::U16, Rep::U32];
        }
        3 => reps = vec![Rep::Str, Rep::U32, Rep::BoxStr],
        _ => {}
    }
    let lg = LGrammar::generate(&mut g.r, &o);
    let max = if prop != "C03" && g.r.chance(1, 60) { *g.r.pick(&[150, 400]) } else { g.r.range(4, 26) };
    let ntasks = match prop {
        "C02" | "C03" | "C04" => g.r.range(2, 4),
        _ => *g.r.pick(&[1, 1, 2, 3]),
    };
    let n = g.r.range(1, 4);
    let mut pool: Vec<LJob> = vec![];
    for _ in 0..n {
        let mut j = lexer_job(g, &lg, &reps, max);
        if prop == "C14" && g.r.chance(1, 4) {
            j.err_change = Some((g.r.range(1, 5) as u32, g.r.below(2) as u8));
        }
        if matches!(prop, "C02" | "C05" | "C06" | "C15") && g.r.chance(1, 5) {
            j.fac = g.r.range(1, 3) as u8;
        }
        if matches!(prop, "C02" | "C05" | "C06") && g.r.chance(1, 5) {
            j.hook = g.r.range(1, 15) as u8;
        }
        if matches!(prop, "C02" | "C05") && g.r.chance(1, 5) {
            j.moved = Some((*g.r.pick(&[1, 1, 2, 3, 5]), g.r.range(0, 9) as u16, g.r.range(0, 9) as u16));
        }
        pool.push(j);
    }
    let mk = |g: &mut Gen| -> Vec<Job> {
        let mut j = g.r.pick(&pool).clone();
        if prop == "C15" {
            return reps
                .iter()
                .map(|&r| {
                    let mut k = j.clone();
                    k.rep = r;
                    Job::L(k)
                })
                .collect();
        }
        j.rep = *g.r.pick(&reps);
        vec![Job::L(j)]
    };
    if g.r.chance(1, 3) && prop != "C03" {
        for _ in 0..g.r.range(1, 3) {
            plan.warm.extend(mk(g));
        }
    }
    for _ in 0..ntasks {
        let mut jobs = vec![];
        for _ in 0..g.r.range(1, 3) {
            jobs.extend(mk(g));
        }
        plan.tasks.push(TaskPlan { jobs, hash_seed: g.r.next(), panic: None });
    }
    if prop == "C04" {
        let cbs = [Cb::CharLa, Cb::CharLa, Cb::CharConsume, Cb::CharOther, Cb::Factory, Cb::Sempred, Cb::Sempred, Cb::Action, Cb::ErrListener];
        let k = g.r.range(1, ntasks);
        for i in 0..k {
            let hi = *g.r.pick(&[3, 10, 30, 100]);
            plan.tasks[i].panic = g.panic_at(&cbs, 1, hi);
        }
        plan.after = mk(g);
    }
    plan.sched = g.sched(ntasks);
    plan.lg = Some(lg);
}

// ---------------------------------------------------------------- comparison
fn short<T: std::fmt::Debug>(x: &T) -> String {
    let s = format!("{x:?}");
    if s.len() > 600 {
        let mut e = 600;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    } else {
        s
    }
}
fn first_diff<T: PartialEq + std::fmt::Debug>(what: &str, a: &[T], b: &[T]) -> Option<String> {
    if a == b {
        return None;
    }
    let i = (0..a.len().max(b.len())).find(|&i| a.get(i) != b.get(i)).unwrap();
    Some(format!("{what} {i}: {} instead of {}", short(&a.get(i)), short(&b.get(i))))
}
/// `a` is what happened, `b` what should have
fn diff_l(a: &LOut, b: &LOut) -> Option<String> {
    first_diff("token", &a.toks, &b.toks)
        .or_else(|| first_diff("lexical error", &a.errs, &b.errs))
        .or_else(|| first_diff("action", &a.acts, &b.acts))
        .or_else(|| (a.modes != b.modes).then(|| format!("mode and mode stack {:?} instead of {:?}", a.modes, b.modes)))
        .or_else(|| (a.emits != b.emits).then(|| format!("{} calls of before_emit instead of {}", a.emits, b.emits)))
        .or_else(|| (a.pos != b.pos).then(|| format!("final line and column {:?} instead of {:?}", a.pos, b.pos)))
}
fn diff_p(a: &POut, b: &POut) -> Option<String> {
    if a.result != b.result {
        return Some(format!("result {} instead of {}", a.result, b.result));
    }
    if a.tree != b.tree {
        return Some(format!("tree {} instead of {}", short(&a.tree), short(&b.tree)));
    }
    let key = |o: &POut| o.errs.clone();
    first_diff("syntax error", &key(a), &key(b))
        .or_else(|| first_diff("action", &a.acts, &b.acts))
        .or_else(|| first_diff("ambiguity report", &a.ambs, &b.ambs))
        .or_else(|| first_diff("diagnostic", &a.diags, &b.diags))
        .or_else(|| first_diff("listener event", &a.events, &b.events))
        .or_else(|| (a.end_index != b.end_index).then(|| format!("stopped at {} instead of {}", a.end_index, b.end_index)))
}
fn diff(a: &Out, b: &Out) -> Option<String> {
    match (a, b) {
        (Out::P(x), Out::P(y)) => diff_p(x, y),
        (Out::L(x), Out::L(y)) => diff_l(x, y),
        (Out::Crash(_, m), Out::Crash(_, n)) if m == n => None,
        _ => Some(format!("{} instead of {}", short(a), short(b))),
    }
}

// ---------------------------------------------------------------- tree checks
fn leaves<'a>(n: &'a NodeRec, v: &mut Vec<&'a pdrive::Leaf>) {
    if let Some(l) = &n.leaf {
        v.push(l);
    }
    for k in &n.kids {
        leaves(k, v);
    }
}
fn nodes<'a>(n: &'a NodeRec, v: &mut Vec<&'a NodeRec>) {
    v.push(n);
    for k in &n.kids {
        nodes(k, v);
    }
}
/// every token the parser moved past is a leaf, once, in order
fn check_cover(o: &POut, toks: &[TokSpec], common: bool) -> Option<String> {
    let root = o.root.as_ref()?;
    let mut v = vec![];
    leaves(root, &mut v);
    let real: Vec<isize> = v.iter().filter(|l| l.ix >= 0 && l.tt != -1).map(|l| l.ix).collect();
    let passed: Vec<isize> = toks
        .iter()
        .enumerate()
        .filter(|(i, t)| (*i as isize) < o.end_index && (!common || t.ch == 0))
        .map(|(i, _)| i as isize)
        .collect();
    if real != passed {
        return Some(format!("tokens moved past {passed:?}, leaves {real:?} in {}", o.tree.as_deref().unwrap_or("")));
    }
    for l in &v {
        if l.ix < 0 && l.tt != -1 && (!l.err || !l.text.starts_with("<missing ")) {
            return Some(format!("invented leaf {l:?} is not marked as missing"));
        }
        if l.ix >= 0 && l.tt != -1 {
            let t = toks[l.ix as usize];
            if t.t as isize != l.tt || l.text != tok_text(t.t) {
                return Some(format!("leaf {l:?} is not token {} ({t:?})", l.ix));
            }
        }
    }
    None
}
fn check_tree(pg: &Grammar, o: &POut) -> Option<String> {
    let root = o.root.as_ref()?;
    if o.dup_node {
        return Some("a node appears twice in the tree".into());
    }
    let mut l = vec![];
    leaves(root, &mut l);
    let last_eof = l.iter().find(|l| l.tt == -1 && l.ix >= 0).map_or(-1, |l| l.ix);
    let mut v = vec![];
    nodes(root, &mut v);
    for n in &v {
        if n.leaf.is_some() {
            continue;
        }
        if !n.parent_ok {
            return Some(format!("a child (r{}) does not name the node listing it as parent in {}", n.rule, o.tree.as_deref().unwrap_or("")));
        }
        let mut l = vec![];
        leaves(n, &mut l);
        // after an error the end-of-file token may or may not count as covered
        let clean = o.errs.is_empty();
        let real: Vec<isize> = l.iter().filter(|l| l.ix >= 0 && (clean || l.tt != -1)).map(|l| l.ix).collect();
        let eof = match l.iter().rev().find(|l| l.tt == -1 && l.ix >= 0) {
            Some(l) if !clean => l.ix,
            // nothing, behind a matched end of file
            None if real.is_empty() && n.start == last_eof => last_eof,
            _ => -1,
        };
        match (real.first(), real.last()) {
            (Some(&a), Some(&b)) => {
                // a left-recursive rule does not count the end of file (nor does the Java runtime)
                let behind = l.iter().rev().find(|l| l.tt != -1 && l.ix >= 0).map(|l| l.ix);
                let b = if !pg.rules[n.rule].lr.is_empty() && behind == Some(n.stop) { n.stop } else { b };
                if n.start != a || (n.stop != b && (n.stop != eof || eof < 0)) {
                    return Some(format!(
                        "node r{} covers tokens {a}..{b} but says {}..{} in {}",
                        n.rule, n.start, n.stop, o.tree.as_deref().unwrap_or("")
                    ));
                }
            }
            _ => {
                if n.stop >= n.start && n.stop >= 0 && n.stop != eof {
                    return Some(format!(
                        "node r{} covers nothing but says {}..{} in {}",
                        n.rule, n.start, n.stop, o.tree.as_deref().unwrap_or("")
                    ));
                }
            }
        }
    }
    let mut l = vec![];
    leaves(root, &mut l);
    let mut last = -1;
    for x in l.iter().filter(|x| x.ix >= 0) {
        if x.ix < last || (x.ix == last && x.tt != -1) {
            return Some(format!("leaves out of order in {}", o.tree.as_deref().unwrap_or("")));
        }
        last = x.ix;
    }
    None
}
fn walk_events(n: &NodeRec, v: &mut Vec<Ev>) {
    match &n.leaf {
        Some(l) if l.err => v.push(Ev::Err(l.ix, l.text.clone())),
        Some(l) => v.push(Ev::T(l.ix)),
        None => {
            v.push(Ev::E(n.rule, n.start));
            n.kids.iter().for_each(|k| walk_events(k, v));
            v.push(Ev::X(n.rule, n.start));
        }
    }
}
/// Follows what a listener attached to the parser was told against the finished tree.
/// An operator node of a left-recursive rule is entered only after its first operand is complete; a
/// rule with several alternatives is entered when one is chosen, so tokens thrown away while
/// choosing come first. Missing tokens are not reported.
struct Follow<'a> {
    got: &'a [Ev],
    pos: usize,
    lr: &'a [bool],
    multi: &'a [bool],
    /// the listener was removed: what it saw is only the beginning
    cut: bool,
}
enum Stop {
    End,
    Bad(String),
}
impl<'a> Follow<'a> {
    fn want(&mut self, e: Ev) -> Result<(), Stop> {
        match self.got.get(self.pos) {
            Some(g) if *g == e => {
                self.pos += 1;
                Ok(())
            }
            None if self.cut => Err(Stop::End),
            g => Err(Stop::Bad(format!("event {}: {} instead of {e:?}", self.pos, short(&g)))),
        }
    }
    fn node(&mut self, n: &NodeRec) -> Result<(), Stop> {
        match &n.leaf {
            Some(l) if l.err => {
                if l.ix >= 0 {
                    self.want(Ev::Err(l.ix, l.text.clone()))?
                }
            }
            Some(l) => self.want(Ev::T(l.ix))?,
            None => {
                let mut kids = &n.kids[..];
                if self.lr[n.rule] && kids.first().map_or(false, |k| k.leaf.is_none() && k.rule == n.rule) {
                    self.node(&kids[0])?;
                    kids = &kids[1..];
                }
                let enter = Ev::E(n.rule, n.start);
                if self.multi[n.rule] {
                    while self.got.get(self.pos).map_or(false, |g| *g != enter)
                        && kids.first().and_then(|k| k.leaf.as_ref()).map_or(false, |l| l.err)
                    {
                        self.node(&kids[0])?;
                        kids = &kids[1..];
                    }
                }
                self.want(enter)?;
                let exit = Ev::X(n.rule, n.start);
                let mut open = true;
                for (i, k) in kids.iter().enumerate() {
                    // an operand of a left-recursive rule is left when it is to be extended, and
                    // tokens thrown away while choosing how to come after that
                    if open
                        && self.lr[n.rule]
                        && self.got.get(self.pos) == Some(&exit)
                        && kids[i..].iter().all(|k| k.leaf.as_ref().map_or(false, |l| l.err))
                    {
                        self.want(exit.clone())?;
                        open = false;
                    }
                    self.node(k)?;
                }
                if open {
                    self.want(exit)?;
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- running a plan
fn fingerprint(o: &Out) -> u64 {
    struct H(u64);
    impl std::fmt::Write for H {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for b in s.bytes() {
                self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
            }
            Ok(())
        }
    }
    let mut h = H(0xcbf29ce484222325);
    let _ = std::fmt::Write::write_fmt(&mut h, format_args!("{o:?}"));
    h.0
}
pub struct Ran {
    pub verdict: Verdict,
    pub script: Vec<(u64, u32)>,
    /// threads were left behind
    pub leaked: bool,
    /// hash of every schedule and every output
    pub fp: u64,
}
fn job_len(j: &Job) -> usize {
    match j {
        Job::P(p) => p.toks.len(),
        Job::L(l) | Job::LP(l, _) => l.text.len(),
        Job::Ops(_) => 0,
    }
}
/// calls on input and callbacks the jobs of a task may make, over the sum of their (n+4)^2; the
/// second is for a task stopped for its allocations: real ones make few calls then
fn calls_limit(t: &TaskPlan) -> (f64, f64) {
    let of = |j: &Job| -> (f64, f64) { match j {
        Job::P(_) => (100.0, 40.0),
        Job::L(_) | Job::LP(..) => (200.0, 60.0),
        Job::Ops(_) => (400.0, 400.0),
    }};
    t.jobs.iter().map(of).fold((0.0, 0.0), |a: (f64, f64), b| (b.0.max(a.0), b.1.max(a.1)))
}
fn job_label(j: &Job) -> &'static str {
    match j {
        Job::P(_) => "parse",
        Job::L(_) => "lex",
        Job::LP(..) => "lex+parse",
        Job::Ops(_) => "ops",
    }
}

pub fn execute(plan: &Plan, acc: &mut Acc) -> Ran {
    let mut script = vec![];
    let mut leaked = false;
    let mut fp = 0;
    let v = exec2(plan, acc, &mut script, &mut leaked, &mut fp);
    if let Verdict::Skip(w) = &v {
        acc.skipped += 1;
        *acc.skip_why.entry(w.clone()).or_default() += 1;
    }
    Ran { verdict: v, script, leaked, fp }
}
macro_rules! viol {
    ($($x:tt)*) => { return Verdict::Viol(format!($($x)*)) };
}
fn exec2(plan: &Plan, acc: &mut Acc, script: &mut Vec<(u64, u32)>, leaked: &mut bool, fp: &mut u64) -> Verdict {
    let prop = plan.prop.as_str();
    let c03 = prop == "C03";
    let sh = Shared {
        p: plan.pg.as_ref().map(|g| PShared::new(patn::compile(g))),
        l: plan.lg.as_ref().map(|g| LShared::new(lgrammar::compile(g))),
    };
    let single = SchedPlan::single(plan.seed, LIMIT, plan.sched.work);
    // reference lexer first: it also says which runs are too costly
    let lex_ref = |j: &LJob| -> Option<LOut> { ldrive::lex_reference(&sh.l.as_ref().unwrap().prog, j) };
    let mut groups: Vec<(String, Report, Outs, Vec<Vec<Job>>)> = vec![];
    let mut one = |what: &str, tasks: &[TaskPlan], sp: &SchedPlan, acc: &mut Acc, leaked: &mut bool| -> Result<(Report, Outs), Verdict> {
        let (rep, outs) = run_tasks(&sh, tasks, sp);
        *fp = mix2(*fp, rep.stats.schedule_hash);
        for o in outs.iter().flatten() {
            *fp = mix2(*fp, fingerprint(o));
        }
        if what == "main run" {
            *script = rep.script.clone();
        }
        acc.stats(&rep.stats);
        for (i, t) in rep.tasks.iter().enumerate() {
            acc.max_work = acc.max_work.max(t.work);
            let unit: f64 = tasks[i].jobs.iter().map(|j| ((job_len(j) + 4) as f64).powi(2)).sum();
            let calls: f64 = t.counts.iter().map(|&c| c as f64).sum::<f64>() / unit;
            acc.max_calls = acc.max_calls.max(calls);
            let (any, stopped) = calls_limit(&tasks[i]);
            let limit = if matches!(rep.abort, Some(Abort::Work(w)) if w as usize == i) { stopped } else { any };
            if calls > limit {
                *leaked |= rep.abort.is_some();
                return Err(Verdict::Viol(format!("unbounded work: {what}: task {i} made {} calls on its input", calls * unit)));
            }
        }
        if let Some(a) = &rep.abort {
            *leaked = true;
            return Err(match a {
                Abort::Work(t) if !c03 => Verdict::Skip(format!("too costly{}", if *t > 90 { "!" } else { "" })),
                Abort::Work(t) => {
                    // between two looks at the input even a correct prediction may take very long;
                    // it must then do so alone, too
                    let mut cost = Some(0);
                    for j in &tasks[*t as usize].jobs {
                        let one = TaskPlan { jobs: vec![j.clone()], hash_seed: 1, panic: None };
                        let sp = SchedPlan { work: sp.work, ..single.clone() };
                        let (rep, _) = run_tasks(&sh.fresh(), &[one], &sp);
                        cost = if rep.abort.is_some() { None } else { cost.map(|c: u64| c + rep.tasks[0].work) };
                        if cost.is_none() {
                            break;
                        }
                    }
                    match cost {
                        Some(c) if c < sp.work / 4 => Verdict::Viol(format!(
                            "unbounded work: {what}: task {t} made more than {} allocations but its jobs made {c} alone",
                            sp.work
                        )),
                        _ => Verdict::Skip("too costly".into()),
                    }
                }
                Abort::Deadlock(d) => Verdict::Viol(format!("deadlock: {what}: {d}")),
                Abort::StepLimit(d) => Verdict::Viol(format!("no end: {what}: {d}")),
            });
        }
        Ok((rep, outs))
    };
    if !plan.warm.is_empty() {
        let t = TaskPlan { jobs: plan.warm.clone(), hash_seed: plan.seed ^ 3, panic: None };
        match one("warm-up", &[t], &single, acc, leaked) {
            Ok((r, o)) => groups.push(("warm-up".into(), r, o, vec![plan.warm.clone()])),
            Err(v) => return v,
        }
        acc.fault("warm_cache_history", 1);
    }
    match one("main run", &plan.tasks, &plan.sched, acc, leaked) {
        Ok((r, o)) => {
            groups.push(("main run".into(), r, o, plan.tasks.iter().map(|t| t.jobs.clone()).collect()))
        }
        Err(v) => return v,
    }
    if !plan.after.is_empty() {
        let t = TaskPlan { jobs: plan.after.clone(), hash_seed: plan.seed ^ 9, panic: None };
        match one("run afterwards", &[t], &single, acc, leaked) {
            Ok((r, o)) => groups.push(("run afterwards".into(), r, o, vec![plan.after.clone()])),
            Err(v) => return v,
        }
    }
    acc.runs += 1;
    if let Some(p) = &sh.p {
        acc.dfa_states += p.dfa_states() as u64;
    }
    if let Some(p) = &sh.l {
        acc.dfa_states += p.dfa_states() as u64;
    }
    for l in &plan.labels {
        acc.fault(l, 1);
    }
    let main = &groups.iter().find(|g| g.0 == "main run").unwrap().1;
    acc.fault("stall", main.stats.stalls);
    acc.fault("preempted_holding_lock", main.stats.preempt_in_lock);
    if plan.tasks.len() > 1 {
        acc.fault("concurrent_sharing", 1);
    }
    for (i, t) in main.tasks.iter().enumerate() {
        if t.fired {
            let cb = plan.tasks[i].panic.as_ref().unwrap().cb;
            acc.fault(&format!("panic_in_{}", rt::CB_NAMES[cb as usize]), 1);
        }
        if let Some(p) = &t.panic {
            viol!("panic: task {i}: {p}");
        }
    }
    let _ = NCB;
    let mut h = main.stats.schedule_hash;
    let mut toks = 0;
    for (_, _, outs, _) in &groups {
        for o in outs.iter().flatten() {
            h = mix2(h, fingerprint(o));
            toks += match o {
                Out::P(o) => o.end_index.max(0) as usize,
                Out::L(o) => o.toks.len(),
                Out::Ops(Ok(n)) => n / 4,
                _ => 0,
            };
        }
    }
    let nontrivial = match prop {
        "C01" | "C02" | "C03" | "C12" => plan.tasks.len() > 1 && main.stats.switches >= plan.tasks.len() as u64,
        "C04" => main.tasks.iter().any(|t| t.fired),
        _ => toks > 0,
    };
    if nontrivial {
        acc.hashes.push(h);
    }

    // ---- what every run must satisfy
    let mut alone_cache: Vec<(Job, Out)> = vec![];
    let mut skip = None;
    for (name, rep, outs, jobs) in &groups {
        for (ti, os) in outs.iter().enumerate() {
            let panicky = name == "main run" && plan.tasks[ti].panic.is_some();
            acc.tasks += 1;
            if os.len() != jobs[ti].len() {
                viol!("incomplete: {name} task {ti} ran {} of {} jobs", os.len(), jobs[ti].len());
            }
            let _ = rep;
            for (ji, out) in os.iter().enumerate() {
                let job = &jobs[ti][ji];
                let at = format!("{name} task {ti} job {ji} ({})", job_label(job));
                acc.jobs += 1;
                if std::env::var_os("SIM_SHOW").is_some() {
                    eprintln!("{at}: {out:#?}");
                }
                match out {
                    Out::Crash(true, _) if panicky => {
                        acc.crashes += 1;
                        continue;
                    }
                    Out::Crash(inj, m) => {
                        if m.contains("cannot consume EOF") && matches!(job, Job::L(_)) && false {
                            continue;
                        }
                        viol!("panic: {at}: {m}{}", if *inj { " (injected elsewhere)" } else { "" })
                    }
                    Out::Ops(Err(e)) => viol!("stream: {at}: {e}"),
                    Out::Ops(Ok(n)) => {
                        acc.ops += *n as u64;
                        continue;
                    }
                    Out::P(o) => {
                        acc.errors += o.errs.len() as u64;
                        acc.tokens += o.end_index.max(0) as u64;
                        acc.predicts += o.predicts as u64;
                        acc.ambig += o.ambs.iter().filter(|a| a.kind == 'A').count() as u64;
                        acc.full_ctx += o.ambs.iter().filter(|a| a.kind == 'F').count() as u64;
                        acc.actions += o.acts.len() as u64;
                    }
                    Out::L(o) => {
                        acc.errors += o.errs.len() as u64;
                        acc.tokens += o.toks.len() as u64;
                        acc.actions += o.acts.len() as u64;
                    }
                }
                // ---- per-property oracles
                let mut alone = |job: &Job, acc: &mut Acc, leaked: &mut bool| -> Result<Out, Verdict> {
                    if let Some(x) = alone_cache.iter().find(|x| x.0 == *job) {
                        return Ok(x.1.clone());
                    }
                    let fresh = sh.fresh();
                    let t = TaskPlan { jobs: vec![job.clone()], hash_seed: 1, panic: None };
                    let (rep, mut outs) = run_tasks(&fresh, &[t], &single);
                    acc.stats(&rep.stats);
                    if let Some(a) = &rep.abort {
                        *leaked = true;
                        return Err(match a {
                            Abort::Work(_) => Verdict::Skip("too costly alone".into()),
                            Abort::Deadlock(d) => Verdict::Viol(format!("deadlock: alone: {d}")),
                            Abort::StepLimit(d) => Verdict::Viol(format!("no end: alone: {d}")),
                        });
                    }
                    let o = outs.pop().and_then(|mut v| v.pop()).unwrap_or(Out::Crash(false, "no output".into()));
                    alone_cache.push((job.clone(), o.clone()));
                    Ok(o)
                };
                match prop {
                    "C01" | "C02" | "C04" | "C03" => match alone(job, acc, leaked) {
                        Err(v) => return v,
                        Ok(exp) => {
                            if let Some(d) = diff(out, &exp) {
                                viol!("differs from the same job run alone: {at}: {d}");
                            }
                            // a run alone warms its caches too: what it gives has to be right
                            if let (Out::L(o), Job::L(j), "C02") = (out, job, prop) {
                                if let Some(d) = lex_ref(j).and_then(|exp| diff_l(o, &exp)) {
                                    viol!("differs from a lexer without caches: {at}: {d}");
                                }
                            }
                        }
                    },
                    "C05" | "C06" | "C15" => {
                        if let (Out::L(o), Job::L(j)) = (out, job) {
                            match lex_ref(j) {
                                None => skip = Some("reference too costly".to_string()),
                                Some(exp) => {
                                    if let Some(d) = diff_l(o, &exp) {
                                        viol!("lexer: {at}: {d}");
                                    }
                                    if let Some(n) = o.notes.first() {
                                        viol!("lexer input: {at}: {n}");
                                    }
                                    if o.marks != 0 {
                                        viol!("lexer input: {at}: {} marks left", o.marks);
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
                if let (Out::P(o), Some(pg)) = (out, &plan.pg) {
                    let pj = match job {
                        Job::P(j) => j,
                        Job::LP(_, j) => j,
                        _ => unreachable!(),
                    };
                    if let Some(v) = check_parse(prop, plan, pg, &sh, job, pj, o, &at, acc, &mut skip) {
                        return v;
                    }
                    if let (Some(b), "C01" | "C07" | "C08" | "C21") = (&o.again, prop) {
                        let mut k = pj.clone();
                        (k.start, k.again, k.skip) = (pj.again.unwrap_or(0), None, o.again_at);
                        k.mode = k.again_mode.take().unwrap_or(k.mode);
                        match alone(&Job::P(k), acc, leaked) {
                            Err(v) => return v,
                            Ok(Out::P(exp)) => {
                                // the strategy remembers what it expected where it last let pass a
                                // token in the hope of a caller
                                let plain = |o: &POut| {
                                    let mut o = o.clone();
                                    o.errs.iter_mut().for_each(|e| {
                                        if let Some(k) = e.1.msg.find(" expecting ") {
                                            e.1.msg.truncate(k);
                                        }
                                    });
                                    o
                                };
                                if let Some(d) = diff_p(&plain(b), &plain(&exp)) {
                                    viol!("going on with another rule differs from a new parser: {at}: {d}");
                                }
                            }
                            Ok(x) => viol!("panic: alone: {}", short(&x)),
                        }
                    }
                    if prop == "C12" || prop == "C13" && !pj.trees {
                        let mut k = pj.clone();
                        if prop == "C13" {
                            k.trees = true;
                            k.remove_at = None;
                            k.add_at = None;
                        }
                        match alone(&Job::P(k), acc, leaked) {
                            Err(v) => return v,
                            Ok(Out::P(exp)) => {
                                if prop == "C12" {
                                    // with predicates the modes look ahead differently far, which
                                    // only shows where prediction fails
                                    if pg.npred > 0 && !exp.errs.is_empty() {
                                        continue;
                                    }
                                    // a state another mode has built may end an SLL prediction
                                    // earlier, as predicates keep configurations apart that SLL
                                    // merges: the fast parse then fails and is repeated in full LL
                                    if pg.npred > 0 && pj.mode == Mode::Sll && !o.errs.is_empty() {
                                        continue;
                                    }
                                    // where the fast stage gives up depends on who else warmed it
                                    let (mut a, mut b) = (o.clone(), exp.clone());
                                    a.ambs.clear();
                                    b.ambs.clear();
                                    if let Some(d) = diff_p(&a, &b) {
                                        viol!("differs from the same job run alone: {at}: {d}");
                                    }
                                } else if let Some(v) = check_events(pg, pj, o, &exp, &at) {
                                    return v;
                                }
                            }
                            Ok(x) => viol!("panic: alone: {}", short(&x)),
                        }
                    }
                }
                if let (Out::L(o), Job::L(j)) = (out, job) {
                    if prop == "C14" {
                        if let Some(d) = check_lex_errs(o, j) {
                            viol!("lexical errors: {at}: {d}");
                        }
                        if let Some(n) = o.notes.iter().find(|n| n.contains("error listener")) {
                            viol!("lexical errors: {at}: {n}");
                        }
                        match lex_ref(j) {
                            None => skip = Some("reference too costly".to_string()),
                            Some(exp) => {
                                if let Some(d) = first_diff("lexical error", &o.errs, &exp.errs) {
                                    viol!("lexical errors: {at}: {d}");
                                }
                            }
                        }
                    }
                    if prop == "C11" {
                        if let Some(n) = o.notes.first() {
                            viol!("lexer input: {at}: {n}");
                        }
                        if o.marks != 0 {
                            viol!("lexer input: {at}: {} marks left", o.marks);
                        }
                    }
                }
            }
            // ---- several jobs of one task over the same input
            match prop {
                "C11" => {
                    for c in os.chunks(3).filter(|c| c.len() == 3) {
                        if let (Out::P(a), Out::P(b), Out::P(w)) = (&c[0], &c[1], &c[2]) {
                            for (n, x) in [("unbuffered", b), ("windowed", w)] {
                                if let Some(d) = diff_p(x, a) {
                                    viol!("stream kinds: {name} task {ti}: {n} stream: {d}");
                                }
                            }
                        }
                    }
                }
                "C12" => {
                    for (c, j) in os.chunks(3).zip(jobs[ti].chunks(3)).filter(|c| c.0.len() == 3) {
                        let get = |m: Mode| {
                            j.iter().position(|x| matches!(x, Job::P(p) if p.mode == m)).and_then(|i| match &c[i] {
                                Out::P(o) => Some(o),
                                _ => None,
                            })
                        };
                        let called = j.first().map_or(false, |j| matches!(j, Job::P(p) if plan.pg.as_ref().unwrap().called(p.start)));
                        if called {
                            continue;
                        }
                        if let (Some(s), Some(l), Some(e)) = (get(Mode::Sll), get(Mode::Ll), get(Mode::Exact)) {
                            // a rule that does not end with EOF may accept a prefix of the input, and
                            // the modes need not agree which
                            let n = j.first().map_or(0, |j| if let Job::P(p) = j { p.toks.len() } else { 0 }) as isize;
                            if s.errs.is_empty() && s.end_index < n || l.errs.is_empty() && l.end_index < n {
                                continue;
                            }
                            if !s.errs.is_empty() && l.errs.is_empty() {
                                acc.ll_only += 1;
                            }
                            if s.errs.is_empty() && (s.tree != l.tree || !l.errs.is_empty()) {
                                viol!("modes: {name} task {ti}: SLL without error gives {} but LL gives {} with {} errors", short(&s.tree), short(&l.tree), l.errs.len());
                            }
                            if l.errs.is_empty() && e.tree != l.tree {
                                viol!("modes: {name} task {ti}: exact ambiguity mode gives {} but LL gives {}", short(&e.tree), short(&l.tree));
                            }
                            if e.errs.is_empty() != l.errs.is_empty() {
                                viol!("modes: {name} task {ti}: exact ambiguity mode reports {} but LL {}", short(&e.errs), short(&l.errs));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    match skip {
        Some(s) => Verdict::Skip(s),
        None => Verdict::Ok,
    }
}

/// what the parser says about ambiguities, against the alternatives that lead to a full match
/// what the diagnostic listener has to say about the reports `o.ambs`
fn check_diags(pj: &PJob, o: &POut) -> Option<String> {
    let Some(exact_only) = pj.diag else {
        return None;
    };
    for id in 0..pj.err_listeners {
        let got: Vec<_> = o.diags.iter().filter(|d| d.0 == id).map(|d| (d.1.msg.clone(), d.1.tok, d.1.line, d.1.col)).collect();
        let mut want = vec![];
        for a in &o.ambs {
            if a.kind == 'A' && exact_only && !a.exact {
                continue;
            }
            let name = match a.kind {
                'A' => "reportAmbiguity",
                'F' => "reportAttemptingFullContext",
                _ => "reportContextSensitivity",
            };
            let end = (a.stop as usize + 1).min(pj.toks.len());
            let text: String = pj.toks[a.start as usize..end].iter().map(|t| tok_text(t.t)).collect();
            let alts: Vec<String> = a.alts.iter().map(|k| k.to_string()).collect();
            let alts = if a.kind == 'A' { format!(" ambigAlts={{{}}},", alts.join(", ")) } else { String::new() };
            let msg = format!("{name} d={} (r{}):{alts} input='{text}'", a.dec, a.rule);
            let msg = if a.kind == 'A' { msg } else { msg.replacen("): ", "), ", 1) };
            // without full context the parser is back at the start of the decision
            let cur = if pj.mode == Mode::Sll { a.start } else { a.stop };
            want.push((msg, cur, tok_line(cur as usize), tok_col(cur as usize)));
        }
        if let Some(d) = first_diff("message of the diagnostic listener", &got, &want) {
            return Some(format!("listener {id}: {d}"));
        }
    }
    None
}
fn check_reports(
    prog: &crate::patn::Prog,
    pg: &Grammar,
    pj: &PJob,
    o: &POut,
    on: &[(i32, usize)],
    pred: &pref::PredFn,
) -> Option<String> {
    let toks: Vec<i32> = on.iter().map(|x| x.0).collect();
    if let Some(a) = o.ambs.iter().find(|a| a.n >= o.outcomes.len() || a.dec != o.outcomes[a.n].0 as isize) {
        return Some(format!("{a:?} is about another decision"));
    }
    for (n, out) in o.outcomes.iter().enumerate() {
        let v: Vec<&pdrive::Ambig> = o.ambs.iter().filter(|a| a.n == n).collect();
        let kinds: String = v.iter().map(|a| a.kind).collect();
        let ok = if pj.mode == Mode::Sll {
            // where conflicting alternatives have operator precedences
            kinds.is_empty() || kinds == "A"
        } else {
            matches!(kinds.as_str(), "" | "FA" | "FS") || kinds == "F" && out.2.is_err()
        };
        if !ok {
            return Some(format!("prediction {n} {out:?} reports {v:?}"));
        }
        for a in &v {
            if a.start != out.1 || a.stop < a.start || a.exact != (a.kind == 'A' && pj.mode == Mode::Exact) {
                return Some(format!("prediction {n} {out:?} reports {a:?}"));
            }
            if a.kind != 'S' && a.alts.len() < 2 && !(pg.npred > 0 && a.kind == 'F' && a.alts.is_empty()) {
                return Some(format!("prediction {n} {out:?} reports {a:?}"));
            }
            if a.kind != 'F' && out.2.ok() != a.alts.iter().min().copied() {
                return Some(format!("prediction {n} {out:?} reports {a:?}"));
            }
        }
    }
    if pg.called(pj.start) || pj.mode == Mode::Sll {
        return None;
    }
    let got: Vec<(usize, usize)> = o.outcomes.iter().map(|x| (x.0, x.2.unwrap_or(0) as usize)).collect();
    // what is reported agrees with the tokens looked at, also where the input is wrong further on
    if pg.ends_in_eof(pj.start) {
        for a in &o.ambs {
            if got[..a.n].iter().any(|d| d.1 == 0) {
                break;
            }
            let decs = &got[..=a.n];
            let stop = on.iter().take_while(|x| (x.1 as isize) < a.stop).count();
            let some = |p: usize| {
                if p > toks.len() {
                    pref::prefix_viable(prog, pj.start, &toks, false, pred, decs)
                } else {
                    pref::prefix_viable(prog, pj.start, &toks[..p], true, pred, decs)
                }
            };
            let Some((i, alive)) = some(stop + 1) else {
                break;
            };
            if on.get(i).map_or(pj.toks.len(), |x| x.1) as isize != a.start {
                break;
            }
            let about = format!("alternatives {alive:?} of decision {} at token {i} can match up to token {stop}", a.dec);
            let ok = match a.kind {
                'F' => alive.iter().all(|k| a.alts.contains(k)),
                _ => *alive == *a.alts,
            };
            if !ok {
                return Some(format!("{about}, but {a:?}"));
            }
            if a.kind == 'S' && stop > i {
                let (_, before) = some(stop)?;
                if before.len() < 2 {
                    return Some(format!("before token {stop} only alternative {before:?} of decision {} at token {i} is left, but {a:?}", a.dec));
                }
            }
        }
    }
    if !o.errs.is_empty() || o.result != "ok" {
        return None;
    }
    let rr = pref::reference(prog, pj.start, &toks, pred);
    if !rr.member {
        return None;
    }
    let (_, decs) = rr.tree?;
    if let Some(d) = first_diff("decision", &got, &decs) {
        return Some(d);
    }
    let lr: Vec<usize> = prog.rules.iter().filter_map(|r| r.lr.as_ref().map(|l| l.dec)).collect();
    for (n, (i, viable)) in rr.viable.iter().enumerate() {
        let dec = decs[n].0;
        if prog.ll1[dec].is_some() {
            continue;
        }
        let a = o.ambs.iter().find(|a| a.n == n && a.kind != 'F');
        let about = format!("decision {dec} at token {i}: alternatives {viable:?} lead to a full match");
        match a {
            Some(a) if a.kind == 'S' && a.alts != *viable => return Some(format!("{about}, but {a:?}")),
            Some(a) if a.kind == 'A' && pj.mode == Mode::Exact && a.alts != *viable => return Some(format!("{about}, but {a:?}")),
            Some(a) if a.kind == 'A' && !viable.iter().all(|k| a.alts.contains(k)) => return Some(format!("{about}, but {a:?}")),
            // left recursion keeps the derivation precedence asks for without comparing it with others
            None if viable.len() > 1 && pj.mode == Mode::Exact && !lr.contains(&dec) => return Some(format!("{about}, but no ambiguity is reported")),
            _ => {}
        }
    }
    None
}
fn check_lex_errs(o: &LOut, j: &LJob) -> Option<String> {
    for id in 0..j.err_listeners {
        let a: Vec<_> = o.errs.iter().filter(|e| e.0 == id).map(|e| &e.1).collect();
        let b: Vec<_> = o.errs.iter().filter(|e| e.0 == 0).map(|e| &e.1).collect();
        if a != b {
            return Some(format!("listener {id} got {} instead of {}", short(&a), short(&b)));
        }
    }
    None
}
fn check_events(pg: &Grammar, pj: &PJob, o: &POut, tree_of: &POut, at: &str) -> Option<Verdict> {
    let root = tree_of.root.as_ref()?;
    let lr: Vec<bool> = pg.rules.iter().map(|r| !r.lr.is_empty()).collect();
    let multi: Vec<bool> = pg.rules.iter().map(|r| r.lr.is_empty() && r.alts.len() > 1).collect();
    for id in 0..pj.listeners {
        let got: Vec<Ev> = o.events.iter().filter(|e| e.0 == id).map(|e| e.1.clone()).collect();
        let cut = pj.remove_at.map_or(false, |x| x.0 == id || x.0 >= pj.listeners);
        let mut f = Follow { got: &got, pos: 0, lr: &lr, multi: &multi, cut };
        let d = match f.node(root) {
            Ok(()) if f.pos < got.len() => format!("event {}: {} after the end", f.pos, short(&got[f.pos])),
            Ok(()) | Err(Stop::End) => continue,
            Err(Stop::Bad(d)) => d,
        };
        return Some(Verdict::Viol(format!("events: {at}: listener {id}: {d}; tree {}", short(&tree_of.tree))));
    }
    None
}

#[allow(clippy::too_many_arguments)]
fn check_parse(
    prop: &str,
    plan: &Plan,
    pg: &Grammar,
    sh: &Shared,
    job: &Job,
    pj: &PJob,
    o: &POut,
    at: &str,
    acc: &mut Acc,
    skip: &mut Option<String>,
) -> Option<Verdict> {
    let v = |s: String| Some(Verdict::Viol(s));
    let piped = matches!(job, Job::LP(..));
    match prop {
        "C01" | "C07" | "C08" | "C12" => {
            // on-channel tokens and where they are in the stream
            let on: Vec<(i32, usize)> = if piped {
                pj.toks.iter().map(|t| (t.t, 0)).collect()
            } else {
                pj.toks.iter().enumerate().filter(|(_, t)| t.ch == 0).map(|(i, t)| (t.t, i)).collect()
            };
            let toks: Vec<i32> = on.iter().map(|x| x.0).collect();
            if toks.len() > 60 {
                if prop == "C08" && pj.strat == Strat::Default {
                    if o.result != "ok" {
                        return v(format!("recovery gave up: {at}: {}", o.result));
                    }
                    if let Some(d) = check_cover(o, &pj.toks, pj.stream == StreamKind::Common) {
                        return v(format!("cover: {at}: {d}"));
                    }
                }
                return None;
            }
            let end = pj.toks.len();
            let ix = |p: usize| on.get(p).map_or(end, |x| x.1);
            let pf = |id: u16, p: usize, start: usize| pdrive::pred_value(pj.pred_seed, pj.pred_pos, id, ix(p), ix(start));
            if piped && o.errs.iter().any(|e| e.1.kind == "lex") {
                return None;
            }
            let prog = &sh.p.as_ref().unwrap().prog;
            let rr = pref::reference(prog, pj.start, &toks, &pf);
            if rr.member {
                acc.members += 1;
            } else {
                acc.nonmembers += 1;
            }
            if rr.member && rr.tree.is_none() {
                if prop == "C07" || prop == "C08" {
                    *skip = Some("predicates make the lowest alternative fail".into());
                }
                return None;
            }
            let bail = pj.strat == Strat::Bail;
            if o.errs.is_empty() && o.result == "ok" {
                // without errors what was read is a sentence and the tree a derivation of it
                let used = if piped { None } else { Some(on.iter().filter(|x| (x.1 as isize) < o.end_index).count()) };
                if let Some(u) = used {
                    let m = if u == toks.len() { 3 << u } else { 1 << u };
                    if rr.ends & m == 0 {
                        return v(format!("no error on a non-sentence: {at}: {}", short(&o.tree)));
                    }
                }
                if let (true, Some(root)) = (pj.trees, &o.root) {
                    if let Some(d) = pref::derives(prog, root) {
                        return v(format!("not a derivation: {at}: {d} in {}", short(&o.tree)));
                    }
                }
            }
            let weak = pj.mode == Mode::Sll && !{
                let sll = |j: &Job| !matches!(j, Job::P(p) if p.mode != Mode::Sll);
                let decs = rr.tree.as_ref().map(|t| &t.1[..]);
                pg.tree()
                    && pj.start == 0
                    && (pg.npred == 0 || plan.warm.iter().chain(plan.tasks.iter().flat_map(|t| &t.jobs)).all(sll))
                    && decs.map_or(false, |d| pref::plain_choices(prog, pj.start, &toks, d))
            };
            if weak || pg.called(pj.start) || !rr.member && rr.ends != 0 {
                // the fast mode may fail on a sentence; a prefix may have been accepted
            } else if rr.member {
                if !o.errs.is_empty() || o.result != "ok" {
                    return v(format!("sentence refused: {at}: {} {}", o.result, short(&o.errs)));
                }
                if o.tree.as_ref() != rr.tree.as_ref().map(|x| &x.0) {
                    return v(format!("wrong tree: {at}: {} instead of {}", short(&o.tree), short(&rr.tree.as_ref().map(|x| &x.0))));
                }
            } else if bail {
                if o.result == "ok" {
                    return v(format!("bail-out strategy accepted a non-sentence: {at}: {}", short(&o.tree)));
                }
            } else if o.errs.is_empty() {
                return v(format!("no error on a non-sentence: {at}: {}", short(&o.tree)));
            }
            if prop == "C08" && !bail {
                if o.result != "ok" {
                    return v(format!("recovery gave up: {at}: {}", o.result));
                }
                if !piped {
                    if let Some(d) = check_cover(o, &pj.toks, pj.stream == StreamKind::Common) {
                        return v(format!("cover: {at}: {d}"));
                    }
                }
            }
        }
        "C22" => {
            let on: Vec<(i32, usize)> = pj.toks.iter().enumerate().filter(|(_, t)| t.ch == 0).map(|(i, t)| (t.t, i)).collect();
            let end = pj.toks.len();
            let ix = |p: usize| on.get(p).map_or(end, |x| x.1);
            let pf = |id: u16, p: usize, start: usize| pdrive::pred_value(pj.pred_seed, pj.pred_pos, id, ix(p), ix(start));
            let prog = &sh.p.as_ref().unwrap().prog;
            if let Some(d) = check_reports(prog, pg, pj, o, &on, &pf) {
                return v(format!("ambiguity reports: {at}: {d}"));
            }
            if !piped {
                if let Some(d) = check_diags(pj, o) {
                    return v(format!("ambiguity reports: {at}: {d}"));
                }
            }
        }
        "C21" => {
            let prog = &sh.p.as_ref().unwrap().prog;
            let look = recov::Look::new(prog, pg.ntok);
            let mut m = recov::Model::new(prog, &look, pj, &o.outcomes);
            let r = m.run();
            let got: Vec<_> = o.errs.iter().filter(|e| e.0 == 0).map(|e| e.1.clone()).collect();
            if let Some(d) = first_diff("expected tokens", &o.expects, &m.expects) {
                return v(format!("recovery: {at}: {d}; tree {}", short(&o.tree)));
            }
            if let Some(d) = first_diff("error", &got, &m.errs) {
                return v(format!("recovery: {at}: {d}; tree {}", short(&o.tree)));
            }
            match r {
                Err(d) => return v(format!("recovery: {at}: {d}; tree {}", short(&o.tree))),
                Ok(t) if t != o.tree => return v(format!("recovery: {at}: tree {} instead of {}", short(&o.tree), short(&t))),
                Ok(_) => {}
            }
            if let Some(d) = first_diff("token (index, type) given to the caller", &o.given, &m.given) {
                return v(format!("recovery: {at}: {d}; tree {}", short(&o.tree)));
            }
        }
        "C16" => {
            if let Some(d) = check_tree(pg, o) {
                return v(format!("tree: {at}: {d}"));
            }
            // a parser that has matched EOF takes that for the end of every node from then on
            let mut l = vec![];
            o.root.iter().for_each(|r| leaves(r, &mut l));
            if let (Some(a), false) = (&o.again, l.iter().any(|l| l.tt == -1)) {
                if let Some(d) = check_tree(pg, a) {
                    return v(format!("tree: {at}: next rule: {d}"));
                }
            }
            if let Some(d) = &o.queries {
                return v(format!("tree: {at}: {d} in {}", short(&o.tree)));
            }
            if let Some(n) = o.notes.iter().find(|n| n.contains("invocation stack")) {
                return v(format!("tree: {at}: {n}"));
            }
        }
        "C13" => {
            if pj.trees {
                for o in std::iter::once(o).chain(o.again.as_deref()) {
                    if let Some(x) = check_events(pg, pj, o, o, at) {
                        return Some(x);
                    }
                }
                if let Some(root) = &o.root {
                    let mut exp = vec![];
                    walk_events(root, &mut exp);
                    if let Some(d) = first_diff("event", &o.walk, &exp) {
                        return v(format!("walk: {at}: {d}"));
                    }
                    if let Some(d) = first_diff("event", &o.visit, &exp) {
                        return v(format!("visit: {at}: {d}"));
                    }
                    if let Some(d) = &o.counts {
                        return v(format!("visit: {at}: {d}"));
                    }
                }
            }
            if let Some(n) = o.notes.iter().find(|n| n.contains("listener") && !n.contains("error listener")) {
                return v(format!("listener: {at}: {n}"));
            }
        }
        "C14" => {
            let l0: Vec<_> = o.errs.iter().filter(|e| e.0 == 0 && e.1.kind != "lex").map(|e| &e.1).collect();
            if let Some(n) = o.notes.iter().find(|n| n.contains("error listener")) {
                return v(format!("listeners: {at}: {n}"));
            }
            if let Some(a) = &o.again {
                let one: Vec<_> = a.errs.iter().filter(|e| e.0 == 0).map(|e| &e.1).collect();
                for id in 1..pj.err_listeners {
                    let l: Vec<_> = a.errs.iter().filter(|e| e.0 == id).map(|e| &e.1).collect();
                    if l != one {
                        return v(format!("listeners: {at}: listener {id} got {} instead of {}", short(&l), short(&one)));
                    }
                }
            }
            for id in 1..pj.err_listeners {
                let l: Vec<_> = o.errs.iter().filter(|e| e.0 == id && e.1.kind != "lex").map(|e| &e.1).collect();
                if l != l0 {
                    return v(format!("listeners: {at}: listener {id} got {} instead of {}", short(&l), short(&l0)));
                }
            }
            let mut last = -1;
            for e in &l0 {
                if !piped && e.tok >= 0 {
                    let p = (e.tok as usize).min(pj.toks.len());
                    if (e.line, e.col) != (tok_line(p), tok_col(p)) {
                        return v(format!("position: {at}: {e:?} but token {p} is at {}:{}", tok_line(p), tok_col(p)));
                    }
                }
                let eof = pj.toks.len() as isize;
                if !piped && e.at <= last && e.at < eof {
                    return v(format!("repeated: {at}: two errors at position {}: {}", e.at, short(&l0)));
                }
                last = e.at;
            }
            if pj.err_listeners > 0 && !piped {
                // which errors there are, and where
                let prog = &sh.p.as_ref().unwrap().prog;
                let look = recov::Look::new(prog, pg.ntok);
                let mut m = recov::Model::new(prog, &look, pj, &o.outcomes);
                if m.run().is_ok() {
                    let place = |e: &pdrive::ErrRec| (e.tok, e.tt, e.line, e.col, e.at);
                    let got: Vec<_> = l0.iter().map(|e| place(e)).collect();
                    let want: Vec<_> = m.errs.iter().map(place).collect();
                    if let Some(d) = first_diff("place (token, type, line, column, position) of error", &got, &want) {
                        return v(format!("place: {at}: {d}; tree {}", short(&o.tree)));
                    }
                }
            }
            if pj.err_listeners > 0 && pj.strat == Strat::Default && !piped {
                let failed = o.root.as_ref().map_or(false, |r| {
                    let mut l = vec![];
                    leaves(r, &mut l);
                    l.iter().any(|l| l.err)
                });
                if failed && l0.is_empty() {
                    return v(format!("silent: {at}: error leaves but no error: {}", short(&o.tree)));
                }
            }
        }
        "C11" => {
            if let Some(n) = o.notes.first() {
                return v(format!("input: {at}: {n}"));
            }
            if o.marks != 0 {
                return v(format!("input: {at}: {} marks left", o.marks));
            }
        }
        _ => {}
    }
    None
}
#[allow(dead_code)]
fn _t(_: Arc<()>) {}
