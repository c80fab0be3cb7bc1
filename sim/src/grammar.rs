//! Parser grammars: AST, random generation, random sentences.
use crate::rt::Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Kind {
    One,
    Opt,
    Star,
    Plus,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum El {
    /// token type; -1 is EOF
    T(i32),
    /// token set
    S(Vec<(i32, i32)>, bool),
    Any,
    R(usize),
    Pred(u16),
    Act(u16),
    B { k: Kind, greedy: bool, alts: Vec<Vec<El>> },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum LrAlt {
    Primary(Vec<El>),
    Prefix(i32),
    Binary { op: Vec<i32>, right: bool },
    Ternary { a: i32, b: i32, right: bool },
    Suffix(Vec<El>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Rule {
    pub alts: Vec<Vec<El>>,
    /// left-recursive alternatives, in grammar order (then `alts` is empty)
    pub lr: Vec<LrAlt>,
    pub labelled: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Grammar {
    pub ntok: i32,
    pub npred: u16,
    pub rules: Vec<Rule>,
    /// decisions for which one token is enough are taken without the simulator, as generated
    #[serde(default)]
    pub ll1: bool,
}

#[derive(Clone, Debug)]
pub struct GenOpts {
    pub preds: bool,
    pub actions: bool,
    pub nongreedy: bool,
    pub lr: bool,
    pub wild: bool,
    pub eof: bool,
    /// bias towards ambiguous, deep-lookahead grammars
    pub ambig: bool,
    /// every rule is called from one place only
    pub tree: bool,
    /// loops over rules that fail
    pub stuck: bool,
}
impl Default for GenOpts {
    fn default() -> Self {
        GenOpts { preds: false, actions: true, nongreedy: true, lr: true, wild: true, eof: true, ambig: false, tree: false, stuck: false }
    }
}

struct G<'a> {
    r: &'a mut Rng,
    o: &'a GenOpts,
    ntok: i32,
    nrules: usize,
    npred: u16,
    nact: u16,
    /// tokens used in prefixes, to make common prefixes (deep lookahead) likely
    fav: Vec<i32>,
    budget: i32,
}
impl G<'_> {
    fn tok(&mut self) -> i32 {
        if !self.fav.is_empty() && self.r.chance(1, 2) {
            *self.r.pick(&self.fav)
        } else {
            1 + self.r.below(self.ntok as usize) as i32
        }
    }
    fn set(&mut self) -> El {
        let not = self.r.chance(1, 3);
        let wide = self.ntok > 6;
        let n = if not && !wide { 1 } else { self.r.range(1, if wide { 4 } else { 2 }) };
        let mut v = vec![];
        for _ in 0..n {
            let a = self.tok();
            let b = (a + self.r.below(if wide { 6 } else { 2 }) as i32).min(self.ntok);
            v.push((a, b));
        }
        v.sort();
        let mut w: Vec<(i32, i32)> = vec![];
        for (a, b) in v {
            match w.last_mut() {
                Some(l) if a <= l.1 + 1 => l.1 = l.1.max(b),
                _ => w.push((a, b)),
            }
        }
        let covered: i32 = w.iter().map(|(a, b)| b - a + 1).sum();
        if not && covered >= self.ntok {
            return El::T(w[0].0);
        }
        if !not && covered == 1 {
            return El::T(w[0].0);
        }
        El::S(w, not)
    }
    /// a non-nullable element
    fn term(&mut self) -> El {
        match self.r.below(12) {
            0 | 1 => self.set(),
            2 if self.o.wild => El::Any,
            _ => El::T(self.tok()),
        }
    }
    fn elem(&mut self, depth: u32, rule: usize) -> El {
        self.budget -= 1;
        let d = if self.budget < 0 { 0 } else { self.r.below(16) };
        match d {
            0..=6 => self.term(),
            7..=10 if self.nrules > 1 => {
                // calls go to later rules freely, to earlier ones only after a token (see alt())
                if rule + 1 < self.nrules {
                    El::R(rule + 1 + self.r.below(self.nrules - rule - 1))
                } else {
                    self.term()
                }
            }
            11..=15 if depth < 2 => {
                let k = *self.r.pick(&[Kind::One, Kind::Opt, Kind::Star, Kind::Plus, Kind::Star]);
                let n = match k {
                    Kind::One => self.r.range(2, 3),
                    _ => self.r.range(1, 2),
                };
                let mut alts = vec![];
                for _ in 0..n {
                    let ne = k != Kind::One || self.r.chance(9, 10);
                    let a = self.alt(depth + 1, rule, ne);
                    alts.push(a);
                }
                let greedy = k == Kind::One || !(self.o.nongreedy && self.r.chance(1, 5));
                El::B { k, greedy, alts }
            }
            _ => self.term(),
        }
    }
    fn pred(&mut self, v: &mut Vec<El>) {
        v.push(El::Pred(self.npred));
        self.npred += 1;
    }
    /// alternative; `solid` = must not derive the empty string
    fn alt(&mut self, depth: u32, rule: usize, solid: bool) -> Vec<El> {
        let mut v = vec![];
        if !solid && self.r.chance(1, 3) {
            return v;
        }
        if self.o.preds && self.r.chance(1, 4) {
            self.pred(&mut v);
            while self.r.chance(1, 5) {
                self.pred(&mut v);
            }
        }
        if self.o.actions && self.r.chance(1, 16) {
            self.nact += 1;
            v.push(El::Act(self.nact));
        }
        let n = self.r.range(1, if depth == 0 { 3 } else { 2 });
        let at = self.r.below(n);
        for i in 0..n {
            if solid && i == at {
                v.push(self.term());
            } else {
                let e = self.elem(depth, rule);
                v.push(e);
            }
            // recursion to any rule is safe after a certain token
            if solid && i >= at && self.budget > 0 && self.r.chance(1, 5) {
                let t = match self.r.below(3) {
                    0 => rule,
                    _ => self.r.below(self.nrules),
                };
                if t > 0 || !self.o.eof {
                    v.push(El::R(t));
                    if self.r.chance(1, 2) {
                        v.push(self.term());
                    }
                }
            }
            if self.o.preds && self.r.chance(1, 24) {
                let id = self.npred;
                self.npred += 1;
                v.push(El::Pred(id));
            }
        }
        v
    }
}

impl Grammar {
    pub fn generate(r: &mut Rng, o: &GenOpts) -> Grammar {
        for _ in 0..50 {
            let g = Self::attempt(r, o);
            if g.ok() {
                return g;
            }
        }
        Grammar {
            ntok: 2,
            npred: 0,
            rules: vec![Rule {
                alts: vec![vec![El::B { k: Kind::Star, greedy: true, alts: vec![vec![El::T(1)]] }, El::T(2), El::T(-1)]],
                lr: vec![],
                labelled: false,
            }],
            ll1: false,
        }
    }
    fn attempt(r: &mut Rng, o: &GenOpts) -> Grammar {
        // a few grammars have a large vocabulary, many-branched blocks and sets of several ranges
        let ntok = if r.chance(1, 8) { r.range(8, 14) } else { r.range(2, 6) } as i32;
        let nrules = r.range(1, 5);
        let nf = r.range(1, 2);
        let fav = (0..nf).map(|_| 1 + r.below(ntok as usize) as i32).collect();
        let budget = r.range(10, 40) as i32;
        let mut g = G { r, o, ntok, nrules, npred: 0, nact: 0, fav, budget };
        let mut rules = vec![];
        for i in 0..nrules {
            if i > 0 && o.lr && g.r.chance(1, 4) {
                rules.push(g.lr_rule(i));
                continue;
            }
            let n = if i == 0 { g.r.range(1, 2) } else { g.r.range(1, 3) };
            let mut alts = vec![];
            for _ in 0..n {
                // solid bodies keep rule bodies non-nullable more often than not
                let solid = g.r.chance(2, 3);
                let mut a = g.alt(0, i, solid);
                if i == 0 && o.eof {
                    a.push(El::T(-1));
                }
                alts.push(a);
            }
            if o.ambig && g.r.chance(1, 3) && alts.len() > 1 {
                let c = alts[0].clone();
                alts.push(c);
            }
            if g.ntok > 6 && g.r.chance(1, 2) {
                let n = g.r.range(3, 6);
                let mut b = vec![];
                for _ in 0..n {
                    let t = g.tok();
                    b.push(vec![El::T(t)]);
                }
                let s = g.set();
                b.push(vec![s]);
                let k = *g.r.pick(&[Kind::One, Kind::Opt, Kind::Star, Kind::Plus]);
                let at = g.r.below(alts.len());
                let to = g.r.below(alts[at].len() + 1 - (alts[at].last() == Some(&El::T(-1))) as usize);
                alts[at].insert(to, El::B { k, greedy: true, alts: b });
            }
            // two alternatives told apart only after any number of nested calls
            if (i > 0 || !o.eof) && g.r.chance(1, 6) {
                let (a, b, c) = (g.tok(), g.tok(), g.tok());
                let k = *g.r.pick(&[Kind::Plus, Kind::One]);
                let pre = El::B { k, greedy: true, alts: vec![vec![El::T(a)]] };
                alts.insert(0, vec![pre.clone(), El::R(i), El::T(b)]);
                alts.push(vec![pre, El::T(c)]);
            }
            rules.push(Rule { alts, lr: vec![], labelled: g.r.chance(1, 3) });
        }
        // a rule whose optional tail looks like what follows some of its calls: which way to go
        // depends on the caller, so SLL prediction conflicts and full context decides
        if nrules > 1 && g.r.chance(1, 3) {
            let callee = 1 + g.r.below(nrules - 1);
            let caller = g.r.below(callee);
            if rules[callee].lr.is_empty() && rules[caller].lr.is_empty() {
                let (t, x) = (g.tok(), g.tok());
                let k = *g.r.pick(&[Kind::Opt, Kind::Opt, Kind::Star]);
                let n = g.r.range(1, 2);
                let tail = El::B { k, greedy: g.r.chance(5, 6), alts: vec![vec![El::T(t); n]] };
                let at = g.r.below(rules[callee].alts.len());
                rules[callee].alts[at].push(tail);
                let eof = rules[caller].alts[0].last() == Some(&El::T(-1));
                let common = g.r.chance(1, 2);
                let calls = g.r.range(2, 3);
                let only = g.r.chance(1, 2);
                let mut new = vec![];
                for c in 0..calls {
                    let lead = g.tok();
                    let mut a = if g.r.chance(3, 4) { vec![El::T(lead)] } else { vec![] };
                    a.push(El::R(callee));
                    if c > 0 {
                        for _ in 0..g.r.range(1, n) {
                            a.push(El::T(t));
                        }
                    }
                    if common {
                        a.push(El::T(x));
                    } else if g.r.chance(1, 2) {
                        a.push(g.term());
                    }
                    if eof {
                        a.push(El::T(-1));
                    }
                    new.push(a);
                }
                if only {
                    rules[caller].alts = new;
                } else {
                    rules[caller].alts.extend(new);
                }
            }
        }
        // a left-recursive rule whose operators begin like its operands, and like what follows it
        // somewhere: whether to go on depends on who called and on more than one token
        let lr: Vec<usize> = (1..nrules).filter(|&i| !rules[i].lr.is_empty() && i + 1 < nrules).collect();
        if !lr.is_empty() && g.r.chance(1, 2) {
            let i = *g.r.pick(&lr);
            let j = i + 1 + g.r.below(nrules - i - 1);
            let at = g.r.below(rules[i].lr.len() + 1);
            let mut v = vec![El::R(j)];
            if g.r.chance(1, 4) {
                v.push(g.term());
            }
            rules[i].lr.insert(at, LrAlt::Primary(v));
            let mut v = vec![El::R(j)];
            if g.r.chance(3, 4) {
                v.push(g.term());
            }
            let at = g.r.below(rules[i].lr.len() + 1);
            rules[i].lr.insert(at, LrAlt::Suffix(v));
            let c: Vec<usize> = (0..i).filter(|&k| rules[k].lr.is_empty()).collect();
            let c = *g.r.pick(&c);
            let k = g.r.below(rules[c].alts.len());
            let to = rules[c].alts[k].len() - (rules[c].alts[k].last() == Some(&El::T(-1))) as usize;
            let at = g.r.range(0, to);
            let v = match g.r.below(4) {
                0 => vec![El::R(i), El::R(j)],
                1 => vec![El::R(i), El::R(i)],
                _ => {
                    let k = *g.r.pick(&[Kind::Star, Kind::Plus]);
                    vec![El::B { k, greedy: true, alts: vec![vec![El::R(i)]] }]
                }
            };
            rules[c].alts[k].splice(at..at, v);
        }
        // a loop over rules that fail without having moved, by a predicate prediction cannot see
        if nrules > 1 && o.preds && g.r.chance(1, if o.stuck { 2 } else { 5 }) {
            let mut body = vec![];
            for _ in 0..g.r.range(if o.stuck { 2 } else { 1 }, 3) {
                let i = 1 + g.r.below(nrules - 1);
                body.push(El::R(i));
                if rules[i].lr.is_empty() {
                    let one = g.r.below(rules[i].alts.len());
                    let all = o.stuck && g.r.chance(1, 2);
                    for k in 0..rules[i].alts.len() {
                        if k != one && !all || matches!(rules[i].alts[k].first(), Some(El::Act(_))) {
                            continue;
                        }
                        let id = g.npred;
                        g.npred += 1;
                        g.nact += 1;
                        let v = vec![El::Act(g.nact), El::Pred(id)];
                        rules[i].alts[k].splice(0..0, v);
                    }
                }
            }
            let k = *g.r.pick(&[Kind::Star, Kind::Plus]);
            let b = El::B { k, greedy: g.r.chance(5, 6), alts: vec![body] };
            let n = g.r.below(rules[0].alts.len());
            let to = rules[0].alts[n].len() - (rules[0].alts[n].last() == Some(&El::T(-1))) as usize;
            let at = g.r.below(to + 1);
            rules[0].alts[n].insert(at, b);
        }
        // several predicates choose between an alternative and its double
        if o.preds && g.r.chance(1, 6) {
            let i = g.r.below(nrules);
            if rules[i].lr.is_empty() {
                let k = g.r.below(rules[i].alts.len());
                let mut v = vec![];
                for _ in 0..g.r.range(2, 5) {
                    g.pred(&mut v);
                }
                v.extend(rules[i].alts[k].iter().cloned());
                let at = g.r.range(0, k);
                rules[i].alts.insert(at, v);
                if g.r.chance(1, 3) {
                    let mut v = vec![];
                    for _ in 0..g.r.range(1, 3) {
                        g.pred(&mut v);
                    }
                    rules[i].alts[k + 1].splice(0..0, v);
                }
            }
        }
        // statements that end at a separator or at the end of the input
        if nrules > 1 && o.eof && g.r.chance(1, 6) {
            for _ in 0..g.r.range(1, 2) {
                let i = 1 + g.r.below(nrules - 1);
                if !rules[i].lr.is_empty() {
                    continue;
                }
                let k = g.r.below(rules[i].alts.len());
                let t = g.tok();
                let e = match g.r.below(6) {
                    0 => El::T(-1),
                    1 | 2 => El::S(vec![(-1, -1), (t, t)], false),
                    3 => El::B { k: Kind::Opt, greedy: true, alts: vec![vec![El::T(-1)]] },
                    4 => El::B { k: Kind::One, greedy: true, alts: vec![vec![El::T(-1)], vec![El::T(t)]] },
                    _ => El::B { k: Kind::One, greedy: true, alts: vec![vec![El::T(t)], vec![El::T(-1)]] },
                };
                rules[i].alts[k].push(e);
                // more after it, which can only match nothing or EOF again
                if g.r.chance(1, 4) {
                    let t = g.tok();
                    rules[i].alts[k].push(El::B { k: Kind::Opt, greedy: true, alts: vec![vec![El::T(t)]] });
                }
            }
        }
        // every rule reachable from the start rule
        for _ in 0..nrules {
            let mut reach = vec![false; nrules];
            reach[0] = true;
            for _ in 0..nrules {
                for i in 0..nrules {
                    if reach[i] {
                        for a in rules[i].all_seqs() {
                            calls(a, &mut |t| reach[t] = true);
                        }
                    }
                }
            }
            let Some(t) = (0..nrules).find(|&i| !reach[i]) else { break };
            let c: Vec<usize> = (0..t).filter(|&i| reach[i] && rules[i].lr.is_empty()).collect();
            let i = *g.r.pick(&c);
            let k = g.r.below(rules[i].alts.len());
            let a = &mut rules[i].alts[k];
            let n = a.len() - (a.last() == Some(&El::T(-1))) as usize;
            let at = g.r.below(n + 1);
            if g.r.chance(1, 4) {
                let kk = *g.r.pick(&[Kind::Opt, Kind::Star, Kind::Plus]);
                a.insert(at, El::B { k: kk, greedy: true, alts: vec![vec![El::R(t)]] });
            } else {
                a.insert(at, El::R(t));
            }
        }
        if o.tree {
            let mut used = vec![false; nrules];
            for i in 0..nrules {
                for a in rules[i].alts.iter_mut() {
                    single(a, i, &mut used, g.ntok);
                }
            }
            g.npred = 0;
            if o.preds {
                // predicates in front of alternatives that begin alike
                if g.r.chance(3, 4) {
                    rules[0].alts.clear();
                }
                let mut seq = vec![];
                for _ in 0..g.r.range(1, 3) {
                    let e = g.term();
                    seq.push(e);
                }
                for _ in 0..g.r.range(2, 3) {
                    let mut v = vec![];
                    if g.r.chance(4, 5) {
                        for _ in 0..g.r.range(1, 4) {
                            g.pred(&mut v);
                        }
                    }
                    v.extend(seq.iter().cloned());
                    if g.r.chance(1, 4) {
                        v.push(g.term());
                    }
                    if o.eof {
                        v.push(El::T(-1));
                    }
                    let at = g.r.range(0, rules[0].alts.len());
                    rules[0].alts.insert(at, v);
                }
            }
        }
        let npred = g.npred;
        Grammar { ntok, npred, rules, ll1: false }
    }
    /// whether every rule is called from one place at most, and predicates are only in front of
    /// alternatives of the start rule: then who called a rule says nothing about what follows
    pub fn tree(&self) -> bool {
        let mut n = vec![0; self.rules.len()];
        n[0] = 1;
        for (i, r) in self.rules.iter().enumerate() {
            if !r.lr.is_empty() {
                return false;
            }
            for a in r.all_seqs() {
                calls(a, &mut |t| n[t] += 1);
                let k = if i == 0 { a.iter().take_while(|e| matches!(e, El::Pred(_))).count() } else { 0 };
                if has_pred(&a[k..]) {
                    return false;
                }
            }
        }
        n.iter().all(|&k| k <= 1)
    }
    /// no nullable loop body, no hidden left recursion, every rule productive and reachable sizes
    pub fn ok(&self) -> bool {
        let nullable = self.nullable();
        // rules which can begin with the end of the input
        let mut eof = vec![false; self.rules.len()];
        for _ in 0..self.rules.len() {
            for (i, r) in self.rules.iter().enumerate() {
                eof[i] = r.alts.iter().any(|a| eof_first(a, &nullable, &eof))
                    || r.lr.iter().any(|l| matches!(l, LrAlt::Primary(a) if eof_first(a, &nullable, &eof)));
            }
        }
        // loop bodies
        for r in &self.rules {
            for a in r.all_seqs() {
                if !loops_ok(a, &nullable, &eof) {
                    return false;
                }
            }
        }
        // an operand or an operator that may be nothing
        if self.rules.iter().enumerate().any(|(i, r)| !r.lr.is_empty() && nullable[i]) {
            return false;
        }
        if self.rules.iter().any(|r| r.lr.iter().any(|l| matches!(l, LrAlt::Suffix(a) if a.iter().all(|e| el_nullable(e, &nullable))))) {
            return false;
        }
        // left corners
        let n = self.rules.len();
        let mut left = vec![vec![false; n]; n];
        for (i, r) in self.rules.iter().enumerate() {
            for a in &r.alts {
                corner(a, &nullable, &mut left[i]);
            }
            for l in &r.lr {
                if let LrAlt::Primary(a) = l {
                    corner(a, &nullable, &mut left[i]);
                }
            }
        }
        for k in 0..n {
            for i in 0..n {
                for j in 0..n {
                    if left[i][k] && left[k][j] {
                        left[i][j] = true;
                    }
                }
            }
        }
        if (0..n).any(|i| left[i][i]) {
            return false;
        }
        // productive
        self.min_len().iter().all(|x| x.is_some())
    }
    pub fn nullable(&self) -> Vec<bool> {
        let mut nl = vec![false; self.rules.len()];
        loop {
            let mut ch = false;
            for (i, r) in self.rules.iter().enumerate() {
                if nl[i] {
                    continue;
                }
                let v = r.alts.iter().any(|a| a.iter().all(|e| el_nullable(e, &nl)))
                    || r.lr.iter().any(|l| match l {
                        LrAlt::Primary(a) => a.iter().all(|e| el_nullable(e, &nl)),
                        _ => false,
                    });
                if v {
                    nl[i] = true;
                    ch = true;
                }
            }
            if !ch {
                return nl;
            }
        }
    }
    pub fn min_len(&self) -> Vec<Option<usize>> {
        let mut m: Vec<Option<usize>> = vec![None; self.rules.len()];
        loop {
            let mut ch = false;
            for (i, r) in self.rules.iter().enumerate() {
                let mut best = m[i];
                for a in r.base_alts() {
                    if let Some(x) = seq_min(a, &m) {
                        if best.map_or(true, |b| x < b) {
                            best = Some(x);
                        }
                    }
                }
                if best != m[i] {
                    m[i] = best;
                    ch = true;
                }
            }
            if !ch {
                return m;
            }
        }
    }
}
impl Rule {
    /// alternatives that do not start with the rule itself
    pub fn base_alts(&self) -> Vec<&Vec<El>> {
        let mut v: Vec<&Vec<El>> = self.alts.iter().collect();
        for l in &self.lr {
            if let LrAlt::Primary(a) = l {
                v.push(a);
            }
        }
        v
    }
    pub fn all_seqs(&self) -> Vec<&Vec<El>> {
        let mut v = self.base_alts();
        for l in &self.lr {
            if let LrAlt::Suffix(a) = l {
                v.push(a);
            }
        }
        v
    }
}
impl G<'_> {
    fn lr_rule(&mut self, i: usize) -> Rule {
        let mut lr = vec![];
        let np = self.r.range(1, 2);
        for _ in 0..np {
            let mut a = vec![];
            if self.o.preds && self.r.chance(1, 4) {
                self.pred(&mut a);
            }
            a.push(El::T(self.tok()));
            if self.r.chance(1, 3) {
                // bracketed recursion
                a.push(El::R(i));
                a.push(El::T(self.tok()));
            } else if self.r.chance(1, 5) && self.nrules > i + 1 {
                a.push(El::R(i + 1 + self.r.below(self.nrules - i - 1)));
            }
            lr.push(LrAlt::Primary(a));
        }
        let no = self.r.range(1, 4);
        for _ in 0..no {
            let a = match self.r.below(8) {
                0 => LrAlt::Prefix(self.tok()),
                1..=4 => {
                    let mut op = vec![self.tok()];
                    if self.r.chance(1, 4) {
                        let t = self.tok();
                        if !op.contains(&t) {
                            op.push(t);
                        }
                    }
                    LrAlt::Binary { op, right: self.r.chance(1, 3) }
                }
                5 => LrAlt::Ternary { a: self.tok(), b: self.tok(), right: self.r.chance(1, 2) },
                _ => {
                    let mut v = vec![];
                    while self.o.preds && self.r.chance(1, 3) {
                        self.pred(&mut v);
                    }
                    v.push(self.term());
                    if self.r.chance(1, 3) {
                        v.push(self.term());
                    }
                    LrAlt::Suffix(v)
                }
            };
            lr.push(a);
        }
        if !lr.iter().any(|l| !matches!(l, LrAlt::Primary(_) | LrAlt::Prefix(_))) {
            lr.push(LrAlt::Binary { op: vec![self.tok()], right: false });
        }
        for k in (1..lr.len()).rev() {
            let j = self.r.below(k + 1);
            lr.swap(k, j);
        }
        Rule { alts: vec![], lr, labelled: self.r.chance(1, 2) }
    }
}
pub fn el_nullable(e: &El, nl: &[bool]) -> bool {
    match e {
        // the end of the input can be matched over and over
        El::T(-1) => true,
        El::S(v, not) => !*not && v.first().map_or(false, |x| x.0 == -1),
        El::T(_) | El::Any => false,
        El::R(r) => nl[*r],
        El::Pred(_) | El::Act(_) => true,
        El::B { k, alts, .. } => match k {
            Kind::Opt | Kind::Star => true,
            _ => alts.iter().any(|a| a.iter().all(|e| el_nullable(e, nl))),
        },
    }
}
/// no body of a loop is empty, and none begins with the end of the input: there it would be
/// entered again and again
fn loops_ok(a: &[El], nl: &[bool], eof: &[bool]) -> bool {
    a.iter().all(|e| match e {
        El::B { k, alts, .. } => {
            let inner = alts.iter().all(|x| loops_ok(x, nl, eof));
            let solid = match k {
                Kind::One => true,
                Kind::Opt => alts.iter().all(|x| !x.iter().all(|e| el_nullable(e, nl))),
                _ => alts.iter().all(|x| !x.iter().all(|e| el_nullable(e, nl)) && !eof_first(x, nl, eof)),
            };
            inner && solid
        }
        _ => true,
    })
}
/// every rule called once, no predicates
fn single(a: &mut Vec<El>, rule: usize, used: &mut [bool], ntok: i32) {
    a.retain(|e| !matches!(e, El::Pred(_)));
    for e in a {
        match e {
            El::R(t) => {
                if *t <= rule || used[*t] {
                    *e = El::T(1 + *t as i32 % ntok);
                } else {
                    used[*t] = true;
                }
            }
            El::B { alts, .. } => alts.iter_mut().for_each(|x| single(x, rule, used, ntok)),
            _ => {}
        }
    }
}
fn has_pred(a: &[El]) -> bool {
    a.iter().any(|e| match e {
        El::Pred(_) => true,
        El::B { alts, .. } => alts.iter().any(|x| has_pred(x)),
        _ => false,
    })
}
fn eof_first(a: &[El], nl: &[bool], eof: &[bool]) -> bool {
    for e in a {
        let f = match e {
            El::T(t) => *t == -1,
            El::S(v, not) => !*not && v.first().map_or(false, |x| x.0 == -1),
            El::R(r) => eof[*r],
            El::B { alts, .. } => alts.iter().any(|x| eof_first(x, nl, eof)),
            _ => false,
        };
        if f {
            return true;
        }
        if !el_nullable(e, nl) {
            break;
        }
    }
    false
}
fn calls(a: &[El], f: &mut dyn FnMut(usize)) {
    for e in a {
        match e {
            El::R(r) => f(*r),
            El::B { alts, .. } => alts.iter().for_each(|x| calls(x, f)),
            _ => {}
        }
    }
}
fn corner(a: &[El], nl: &[bool], out: &mut [bool]) {
    for e in a {
        match e {
            El::R(r) => out[*r] = true,
            El::B { alts, .. } => {
                for x in alts {
                    corner(x, nl, out);
                }
            }
            _ => {}
        }
        if !el_nullable(e, nl) {
            return;
        }
    }
}
fn el_min(e: &El, m: &[Option<usize>]) -> Option<usize> {
    Some(match e {
        El::T(-1) => 0,
        El::S(v, false) if v[0].0 == -1 => 0,
        El::T(_) | El::S(..) | El::Any => 1,
        El::R(r) => m[*r]?,
        El::Pred(_) | El::Act(_) => 0,
        El::B { k, alts, .. } => match k {
            Kind::Opt | Kind::Star => 0,
            _ => alts.iter().filter_map(|a| seq_min(a, m)).min()?,
        },
    })
}
fn seq_min(a: &[El], m: &[Option<usize>]) -> Option<usize> {
    let mut s = 0;
    for e in a {
        s += el_min(e, m)?;
    }
    Some(s)
}

/// a grammar in which one token decides everything, for long inputs
pub fn plain(r: &mut Rng) -> Grammar {
    let t = |x: i32| El::T(x);
    let b = |k: Kind, alts: Vec<Vec<El>>| El::B { k, greedy: true, alts };
    let body = |r: &mut Rng, x: i32| -> Vec<El> {
        match r.below(4) {
            0 => vec![t(x)],
            1 => vec![t(x), b(Kind::Opt, vec![vec![t(1)]])],
            2 => vec![t(x), b(Kind::Star, vec![vec![t(1)]]), t(2)],
            _ => vec![El::Act(1), t(x), El::S(vec![(1, 2)], false)],
        }
    };
    let items: Vec<Vec<El>> = vec![body(r, 3), body(r, 4), vec![t(5), El::R(2)], vec![El::R(1)]];
    let k = *r.pick(&[Kind::Star, Kind::Plus]);
    let mut alts = items;
    let n = r.range(1, 4);
    while alts.len() > n {
        let i = r.below(alts.len());
        alts.remove(i);
    }
    let rule = |alts: Vec<Vec<El>>, labelled: bool| Rule { alts, lr: vec![], labelled };
    let r1 = rule(vec![vec![t(6), b(Kind::Star, vec![vec![t(7)], vec![t(8), t(1)]]), t(2)]], r.chance(1, 2));
    let r2 = Rule {
        alts: vec![],
        lr: vec![
            LrAlt::Primary(vec![t(9)]),
            LrAlt::Binary { op: vec![7, 8], right: r.chance(1, 3) },
            LrAlt::Primary(vec![t(6), El::R(2), t(2)]),
            LrAlt::Suffix(vec![t(10)]),
        ],
        labelled: r.chance(1, 2),
    };
    Grammar { ntok: 10, npred: 0, rules: vec![rule(vec![vec![b(k, alts), t(-1)]], false), r1, r2], ll1: false }
}
/// random sentence generation (predicates ignored)
pub struct SentGen<'a> {
    pub g: &'a Grammar,
    pub r: &'a mut Rng,
    pub min: Vec<Option<usize>>,
    pub out: Vec<i32>,
    pub max: usize,
}
impl SentGen<'_> {
    fn tight(&self, depth: u32) -> bool {
        self.out.len() >= self.max || depth > 12
    }
    fn pick_alt<'b>(&mut self, alts: &'b [Vec<El>], depth: u32) -> &'b Vec<El> {
        if self.tight(depth) {
            let m = &self.min;
            alts.iter().min_by_key(|a| seq_min(a, m).unwrap_or(999)).unwrap()
        } else {
            let i = self.r.below(alts.len());
            &alts[i]
        }
    }
    pub fn seq(&mut self, a: &[El], depth: u32) {
        for e in a {
            match e {
                El::T(-1) => {}
                El::T(t) => self.out.push(*t),
                El::S(v, not) => {
                    let c: Vec<i32> = (1..=self.g.ntok).filter(|t| v.iter().any(|(a, b)| a <= t && t <= b) != *not).collect();
                    // (a set with EOF: mostly the other tokens, or else the input mostly ends too early)
                    if !c.is_empty() {
                        let t = *self.r.pick(&c);
                        self.out.push(t);
                    }
                }
                El::Any => {
                    let t = 1 + self.r.below(self.g.ntok as usize) as i32;
                    self.out.push(t);
                }
                El::R(r) => self.rule(*r, depth + 1),
                El::Pred(_) | El::Act(_) => {}
                El::B { k, alts, .. } => {
                    let mut n = match k {
                        Kind::One => 1,
                        Kind::Opt => self.r.below(2),
                        Kind::Star => self.r.below(4),
                        Kind::Plus => 1 + self.r.below(3),
                    };
                    if self.max >= 100 && depth < 4 && matches!(k, Kind::Star | Kind::Plus) && self.r.chance(2, 3) {
                        n += self.r.below(self.max);
                    }
                    if self.tight(depth) {
                        n = matches!(k, Kind::One | Kind::Plus) as usize;
                    }
                    for i in 0..n {
                        if i > 3 && self.tight(depth) {
                            break;
                        }
                        let a = self.pick_alt(alts, depth).clone();
                        self.seq(&a, depth + 1);
                    }
                }
            }
        }
    }
    pub fn rule(&mut self, r: usize, depth: u32) {
        let rule = &self.g.rules[r];
        if rule.lr.is_empty() {
            let a = self.pick_alt(&rule.alts, depth).clone();
            self.seq(&a, depth);
            return;
        }
        // left-recursive: any derivation of the ambiguous expression grammar
        let prims: Vec<&LrAlt> = rule.lr.iter().filter(|l| matches!(l, LrAlt::Primary(_) | LrAlt::Prefix(_))).collect();
        let tight = self.tight(depth);
        let p = if tight {
            *prims
                .iter()
                .min_by_key(|l| match l {
                    LrAlt::Primary(a) => seq_min(a, &self.min).unwrap_or(999),
                    _ => 998,
                })
                .unwrap()
        } else {
            prims[self.r.below(prims.len())]
        };
        match p {
            LrAlt::Primary(a) => {
                let a = a.clone();
                self.seq(&a, depth + 1)
            }
            LrAlt::Prefix(t) => {
                self.out.push(*t);
                self.rule(r, depth + 2);
            }
            _ => {}
        }
        let ops: Vec<LrAlt> = rule
            .lr
            .iter()
            .filter(|l| !matches!(l, LrAlt::Primary(_) | LrAlt::Prefix(_)))
            .cloned()
            .collect();
        let mut n = if tight { 0 } else { self.r.below(4) };
        if self.max >= 100 && depth < 4 && !tight && self.r.chance(2, 3) {
            n += self.r.below(self.max);
        }
        for _ in 0..n {
            if self.tight(depth) {
                break;
            }
            match &ops[self.r.below(ops.len())] {
                LrAlt::Binary { op, .. } => {
                    let t = *self.r.pick(op);
                    self.out.push(t);
                    self.rule(r, depth + 3);
                }
                LrAlt::Ternary { a, b, .. } => {
                    self.out.push(*a);
                    self.rule(r, depth + 3);
                    self.out.push(*b);
                    self.rule(r, depth + 3);
                }
                LrAlt::Suffix(s) => {
                    let s = s.clone();
                    self.seq(&s, depth + 1)
                }
                _ => {}
            }
        }
    }
}
pub fn sentence(g: &Grammar, r: &mut Rng, start: usize, max: usize) -> Vec<i32> {
    let min = g.min_len();
    let mut s = SentGen { g, r, min, out: vec![], max };
    s.rule(start, 0);
    s.out
}
/// token-level faults on the input: drop, duplicate, replace, swap, insert, truncate
pub fn corrupt(v: &mut Vec<i32>, ntok: i32, r: &mut Rng) -> &'static str {
    let k = r.below(6);
    let n = v.len();
    let rt = |r: &mut Rng| 1 + r.below(ntok as usize) as i32;
    match k {
        0 if n > 0 => {
            v.remove(r.below(n));
            "token_drop"
        }
        1 if n > 0 => {
            let i = r.below(n);
            v.insert(i, v[i]);
            "token_dup"
        }
        2 if n > 0 => {
            let i = r.below(n);
            v[i] = rt(r);
            "token_replace"
        }
        3 if n > 1 => {
            let i = r.below(n - 1);
            let j = (i + 1 + r.below(3)).min(n - 1);
            v.swap(i, j);
            "token_reorder"
        }
        4 if n > 0 => {
            v.truncate(r.below(n));
            "token_truncate"
        }
        _ => {
            let i = r.below(n + 1);
            let t = rt(r);
            v.insert(i, t);
            "token_insert"
        }
    }
}

// ---------------------------------------------------------------- grammar as text
fn tok_name(t: i32) -> String {
    match t {
        -1 => "EOF".into(),
        t => format!("{}", (b'a' + t as u8 - 1) as char),
    }
}
fn show_alts(alts: &[Vec<El>]) -> String {
    alts.iter().map(|a| a.iter().map(show_el).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" | ")
}
fn show_el(e: &El) -> String {
    match e {
        El::T(t) => tok_name(*t),
        El::S(v, not) => {
            let s: Vec<String> = v.iter().flat_map(|&(a, b)| (a..=b).map(tok_name)).collect();
            format!("{}({})", if *not { "~" } else { "" }, s.join("|"))
        }
        El::Any => ".".into(),
        El::R(r) => format!("r{r}"),
        El::Pred(i) => format!("{{p{i}}}?"),
        El::Act(i) => format!("{{a{i}}}"),
        El::B { k, greedy, alts } => {
            let k = match k {
                Kind::One => "",
                Kind::Opt => "?",
                Kind::Star => "*",
                Kind::Plus => "+",
            };
            format!("({}){k}{}", show_alts(alts), if *greedy { "" } else { "?" })
        }
    }
}
impl Grammar {
    /// whether some rule calls rule `i`: then what may follow it there also counts as what may
    /// follow it at the outermost level, and a match there need not reach the end of input
    pub fn called(&self, i: usize) -> bool {
        let mut y = false;
        for (k, r) in self.rules.iter().enumerate() {
            for a in r.all_seqs() {
                calls(a, &mut |t| y |= t == i);
            }
            y |= k == i && r.lr.iter().any(|l| !matches!(l, LrAlt::Primary(_)));
        }
        y
    }
    /// whether something matches whatever is not listed, so that token types outside of the
    /// vocabulary would be treated one way by prediction and another by matching
    pub fn complements(&self) -> bool {
        fn any(a: &[El]) -> bool {
            a.iter().any(|e| match e {
                El::S(_, not) => *not,
                El::Any => true,
                El::B { alts, .. } => alts.iter().any(|x| any(x)),
                _ => false,
            })
        }
        self.rules.iter().any(|r| r.all_seqs().iter().any(|a| any(a)))
    }
    pub fn ends_in_eof(&self, i: usize) -> bool {
        let r = &self.rules[i];
        r.lr.is_empty() && r.alts.iter().all(|a| a.last() == Some(&El::T(-1)))
    }
    pub fn text(&self) -> Vec<String> {
        let mut out = vec![];
        for (i, r) in self.rules.iter().enumerate() {
            let alts = if r.lr.is_empty() {
                show_alts(&r.alts)
            } else {
                r.lr.iter()
                    .map(|l| match l {
                        LrAlt::Primary(a) => show_alts(std::slice::from_ref(a)),
                        LrAlt::Prefix(t) => format!("{} r{i}", tok_name(*t)),
                        LrAlt::Binary { op, right } => {
                            let o: Vec<String> = op.iter().map(|t| tok_name(*t)).collect();
                            format!("{}r{i} ({}) r{i}", if *right { "<right> " } else { "" }, o.join("|"))
                        }
                        LrAlt::Ternary { a, b, right } => {
                            format!("{}r{i} {} r{i} {} r{i}", if *right { "<right> " } else { "" }, tok_name(*a), tok_name(*b))
                        }
                        LrAlt::Suffix(s) => format!("r{i} {}", show_alts(std::slice::from_ref(s))),
                    })
                    .collect::<Vec<_>>()
                    .join(" | ")
            };
            out.push(format!("r{i} : {alts} ;{}", if r.labelled { " // labelled" } else { "" }));
        }
        out
    }
}
