//! Makes a failing plan smaller while it fails in the same way.
use crate::grammar::{El, Grammar};
use crate::lgrammar::{LGrammar, LE};
use crate::rt::Sched;
use crate::scen::{self, Job, Plan, Verdict};
use std::time::{Duration, Instant};

/// the kind of a violation: what stands before the first colon
pub fn class(v: &str) -> &str {
    v.split(':').next().unwrap_or("")
}
pub struct Min {
    pub best: Plan,
    pub verdict: String,
    pub tries: u32,
    pub leaks: u32,
    script: Vec<(u64, u32)>,
    until: Instant,
    save: Box<dyn FnMut(&Plan, &str)>,
}
impl Min {
    fn left(&self) -> bool {
        Instant::now() < self.until && self.leaks < 150
    }
    fn run(&mut self, p: &Plan) -> Option<(String, Vec<(u64, u32)>)> {
        self.tries += 1;
        let mut acc = scen::Acc::default();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scen::execute(p, &mut acc))).ok()?;
        if r.leaked {
            self.leaks += 1;
        }
        match r.verdict {
            Verdict::Viol(v) => Some((v, r.script)),
            _ => None,
        }
    }
    fn try_(&mut self, p: Plan) -> bool {
        if !self.left() || p == self.best {
            return false;
        }
        match self.run(&p) {
            Some((v, s)) if class(&v) == class(&self.verdict) => {
                (self.save)(&p, &v);
                self.best = p;
                self.verdict = v;
                self.script = s;
                true
            }
            _ => false,
        }
    }
    /// drop chunks of the list `get` names, then single elements
    fn list<T: Clone>(&mut self, get: &dyn Fn(&mut Plan) -> Option<&mut Vec<T>>) {
        let mut p = self.best.clone();
        let Some(l) = get(&mut p) else { return };
        let mut k = l.len();
        while k > 0 && self.left() {
            let mut i = 0;
            loop {
                let mut p = self.best.clone();
                let Some(l) = get(&mut p) else { return };
                if i >= l.len() {
                    break;
                }
                let e = (i + k).min(l.len());
                l.drain(i..e);
                if !self.try_(p) {
                    i += k;
                }
                if !self.left() {
                    return;
                }
            }
            k /= 2;
        }
    }
    fn jobs(&mut self, get: &dyn Fn(&mut Plan) -> &mut Vec<Job>) {
        let mut p = self.best.clone();
        let n = get(&mut p).len();
        for i in 0..n {
            self.list(&|p| match get(p).get_mut(i) {
                Some(Job::P(j)) => Some(&mut j.toks),
                Some(Job::Ops(o)) => Some(&mut o.toks),
                _ => None,
            });
            self.list(&|p| match get(p).get_mut(i) {
                Some(Job::L(j)) | Some(Job::LP(j, _)) => Some(&mut j.text),
                Some(Job::Ops(o)) => Some(&mut o.text),
                _ => None,
            });
            self.list(&|p| match get(p).get_mut(i) {
                Some(Job::Ops(o)) => Some(&mut o.ops),
                _ => None,
            });
            // one input is easier to read than several
            let mut p = self.best.clone();
            let mut q = self.best.clone();
            let n = get(&mut p).len();
            for k in 0..n {
                if k == i {
                    continue;
                }
                let a = get(&mut q)[i].clone();
                match (&mut get(&mut p)[k], &a) {
                    (Job::P(x), Job::P(y)) => x.toks = y.toks.clone(),
                    (Job::L(x), Job::L(y)) => x.text = y.text.clone(),
                    _ => {}
                }
            }
            self.try_(p);
        }
    }
    fn same_inputs(&mut self) {
        // C11 and C12 compare the jobs of a group: keep their inputs equal while shrinking
        let mut p = self.best.clone();
        let mut all: Vec<&mut Job> = p.warm.iter_mut().collect();
        all.extend(p.tasks.iter_mut().flat_map(|t| t.jobs.iter_mut()));
        all.extend(p.after.iter_mut());
        let toks = all.iter().find_map(|j| if let Job::P(x) = &**j { Some(x.toks.clone()) } else { None });
        if let Some(t) = toks {
            for j in all {
                if let Job::P(x) = j {
                    x.toks = t.clone();
                }
            }
            self.try_(p);
        }
        let n = self.best.tasks.first().map_or(0, |t| t.jobs.len());
        let _ = n;
        let mut k = 8;
        while k > 0 {
            let mut i = 0;
            while self.left() {
                let mut p = self.best.clone();
                let mut any = false;
                let mut all: Vec<&mut Job> = p.warm.iter_mut().collect();
                all.extend(p.tasks.iter_mut().flat_map(|t| t.jobs.iter_mut()));
                all.extend(p.after.iter_mut());
                for j in all {
                    match j {
                        Job::P(x) if i < x.toks.len() => {
                            let e = (i + k).min(x.toks.len());
                            x.toks.drain(i..e);
                            any = true;
                        }
                        Job::L(x) if i < x.text.len() => {
                            let e = (i + k).min(x.text.len());
                            x.text.drain(i..e);
                            any = true;
                        }
                        _ => {}
                    }
                }
                if !any {
                    break;
                }
                if !self.try_(p) {
                    i += k;
                }
            }
            k /= 2;
        }
    }
    /// options of jobs and grammars that may not matter
    fn plain(&mut self) {
        let knobs: [&dyn Fn(&mut Job); 9] = [
            &|j| on_p(j, |x| (x.again, x.again_mode) = (None, None)),
            &|j| on_p(j, |x| x.err_change = None),
            &|j| on_p(j, |x| (x.diag, x.ask) = (None, false)),
            &|j| on_p(j, |x| x.remove_at = None),
            &|j| on_p(j, |x| x.add_at = None),
            &|j| on_p(j, |x| x.zst = false),
            &|j| on_p(j, |x| x.stream = crate::streams::StreamKind::Common),
            &|j| {
                if let Job::L(x) | Job::LP(x, _) = j {
                    x.err_change = None;
                    x.fac = 0;
                    x.hook = 0;
                }
            },
            &|j| {
                if let Job::L(x) | Job::LP(x, _) = j {
                    x.moved = None;
                }
            },
        ];
        for k in knobs {
            let mut p = self.best.clone();
            p.warm.iter_mut().for_each(k);
            p.tasks.iter_mut().for_each(|t| t.jobs.iter_mut().for_each(k));
            p.after.iter_mut().for_each(k);
            if p != self.best {
                self.try_(p);
            }
        }
        if let Some(g) = &self.best.pg {
            let n = g.rules.len();
            let mut p = self.best.clone();
            p.pg.as_mut().unwrap().ll1 = false;
            self.try_(p);
            for i in 0..n {
                let mut p = self.best.clone();
                p.pg.as_mut().unwrap().rules[i].labelled = false;
                self.try_(p);
            }
        }
    }
    fn grammar(&mut self) {
        let n = self.best.pg.as_ref().map_or(0, |g| places(g).len());
        for i in (0..n).rev() {
            let mut p = self.best.clone();
            if drop_alt(p.pg.as_mut().unwrap(), i) {
                self.try_(p);
            }
        }
        let n = self.best.lg.as_ref().map_or(0, |g| lplaces(g));
        for i in (0..n).rev() {
            let mut p = self.best.clone();
            if ldrop(p.lg.as_mut().unwrap(), i) {
                self.try_(p);
            }
        }
    }
    fn structure(&mut self) {
        self.list(&|p| Some(&mut p.warm));
        self.list(&|p| Some(&mut p.after));
        self.list(&|p| Some(&mut p.tasks));
        for i in 0..self.best.tasks.len() {
            self.list(&|p| p.tasks.get_mut(i).map(|t| &mut t.jobs));
            let mut p = self.best.clone();
            if i < p.tasks.len() && p.tasks[i].panic.take().is_some() {
                self.try_(p);
            }
        }
        self.list(&|p| Some(&mut p.sched.stalls));
        let mut p = self.best.clone();
        p.sched.sched = Sched::Script(vec![]);
        p.sched.alloc_gap = 0;
        self.try_(p);
        let mut p = self.best.clone();
        p.sched.alloc_gap = 0;
        self.try_(p);
        // work left to a later task may as well come first, alone
        if self.best.tasks.len() == 2 && self.best.warm.is_empty() {
            for k in 0..2 {
                let mut p = self.best.clone();
                let t = p.tasks.remove(k);
                p.warm = t.jobs;
                p.sched.sched = Sched::Script(vec![]);
                self.try_(p);
            }
        }
        let mut p = self.best.clone();
        p.labels.clear();
        self.try_(p);
    }
    fn script(&mut self) {
        if let Sched::Script(_) = self.best.sched.sched {
        } else {
            let mut p = self.best.clone();
            p.sched.sched = Sched::Script(self.script.clone());
            self.try_(p);
        }
        self.list(&|p| match &mut p.sched.sched {
            Sched::Script(v) => Some(v),
            _ => None,
        });
    }
}
pub fn minimise(plan: Plan, secs: u64, save: Box<dyn FnMut(&Plan, &str)>) -> Option<(Plan, String, u32)> {
    let mut m = Min {
        best: plan.clone(),
        verdict: String::new(),
        tries: 0,
        leaks: 0,
        script: vec![],
        until: Instant::now() + Duration::from_secs(secs),
        save,
    };
    let (v, s) = m.run(&plan)?;
    (m.save)(&plan, &v);
    m.verdict = v;
    m.script = s;
    for _ in 0..3 {
        let before = m.best.clone();
        m.structure();
        if matches!(plan.prop.as_str(), "C11" | "C12") {
            m.same_inputs();
        } else {
            m.jobs(&|p| &mut p.warm);
            for i in 0..m.best.tasks.len() {
                m.jobs(&move |p| &mut p.tasks[i].jobs);
            }
            m.jobs(&|p| &mut p.after);
        }
        m.grammar();
        m.plain();
        m.script();
        if m.best == before || !m.left() {
            break;
        }
    }
    Some((m.best, m.verdict, m.tries))
}

// ---- alternatives of grammars, counted in a fixed order
fn els<'a>(v: &'a [El], out: &mut Vec<usize>) {
    for e in v {
        if let El::B { alts, .. } = e {
            out.push(alts.len());
            alts.iter().for_each(|a| els(a, out));
        }
    }
}
fn places(g: &Grammar) -> Vec<usize> {
    let mut n = vec![];
    for r in &g.rules {
        n.push(r.alts.len());
        r.alts.iter().for_each(|a| els(a, &mut n));
    }
    // times 4: which alternative to drop
    n.iter().flat_map(|&k| [k, k, k, k]).collect()
}
fn drop_in(v: &mut [El], i: &mut isize, which: usize) -> bool {
    for e in v {
        if let El::B { alts, .. } = e {
            if *i == 0 {
                *i = -1;
                return alts.len() > 2 && which < alts.len() && {
                    alts.remove(which);
                    true
                };
            }
            *i -= 1;
            for a in alts {
                if drop_in(a, i, which) {
                    return true;
                }
                if *i < 0 {
                    return false;
                }
            }
        }
    }
    false
}
fn drop_alt(g: &mut Grammar, n: usize) -> bool {
    let which = n % 4;
    let mut i = (n / 4) as isize;
    for r in &mut g.rules {
        if i == 0 {
            return r.alts.len() > 1 && which < r.alts.len() && {
                r.alts.remove(which);
                true
            };
        }
        i -= 1;
        for a in &mut r.alts {
            if drop_in(a, &mut i, which) {
                return true;
            }
            if i < 0 {
                return false;
            }
        }
    }
    false
}
fn lplaces(g: &LGrammar) -> usize {
    g.rules.len() * 4
}
fn ldrop(g: &mut LGrammar, n: usize) -> bool {
    let which = n % 4;
    let r = &mut g.rules[n / 4];
    let _ = |x: &LE| matches!(x, LE::Any);
    r.alts.len() > 1 && which < r.alts.len() && {
        r.alts.remove(which);
        true
    }
}
fn on_p(j: &mut Job, f: impl Fn(&mut crate::pdrive::PJob)) {
    if let Job::P(x) | Job::LP(_, x) = j {
        f(x)
    }
}
