//! Reference parser: an executable model of what a parse must do, independent of the ATN
//! simulator. A decision takes the lowest alternative from which the rest of the input can be
//! matched in the full calling context. Recogniser sets are computed by plain set recursion.
use crate::patn::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// predicate, position and where the rule it is in began
pub type PredFn<'a> = dyn Fn(u16, usize, usize) -> bool + 'a;

enum Fr<'a> {
    Seq(&'a [Op]),
    /// repeat this loop or leave it
    Loop(&'a Op),
    LrLoop(usize, i32),
    /// boundary of a rule invocation
    Ret,
}
struct Cont<'a> {
    fr: Fr<'a>,
    below: Option<Rc<Cont<'a>>>,
    /// positions from which this continuation can match the rest of the input
    s: u64,
}
pub struct Ref<'a> {
    pub prog: &'a Prog,
    pub toks: &'a [i32],
    pub pred: &'a PredFn<'a>,
    memo: RefCell<HashMap<(usize, usize, i32), u64>>,
    /// treat predicates and precedence exactly (language membership) or as prediction does
    exact: bool,
    pub decisions: Vec<(usize, usize)>,
    /// by decision taken: where, and the alternatives that lead to a full match
    pub viable: Vec<(usize, Vec<usize>)>,
    /// by decision taken: how many alternatives it has
    pub alts: Vec<usize>,
    pub steps: std::cell::Cell<u64>,
    /// where the rule at hand began
    start: std::cell::Cell<usize>,
    /// rule calls and returns between a decision and the edge being looked at
    away: std::cell::Cell<u32>,
    /// `toks` is only the beginning of the input: anything can come after it
    open: bool,
    /// decisions to take instead of the lowest viable alternative, up to the one asked about
    follow: Option<&'a [(usize, usize)]>,
}
#[derive(Default, Clone, Copy)]
struct Edge {
    m: u64,
    ne: bool,
    nn: bool,
}
pub struct Fail;

fn in_set(v: &[(i32, i32)], t: i32) -> bool {
    v.iter().any(|&(a, b)| a <= t && t <= b)
}
impl<'a> Ref<'a> {
    pub fn new(prog: &'a Prog, toks: &'a [i32], pred: &'a PredFn<'a>, exact: bool) -> Self {
        Ref {
            prog,
            toks,
            pred,
            memo: Default::default(),
            exact,
            decisions: vec![],
            viable: vec![],
            alts: vec![],
            steps: Default::default(),
            start: Default::default(),
            away: Default::default(),
            open: false,
            follow: None,
        }
    }
    fn bits(m: u64) -> impl Iterator<Item = usize> {
        (0..64).filter(move |i| m >> i & 1 == 1)
    }
    fn term(&self, op: &Op, i: usize) -> bool {
        let n = self.toks.len();
        match op {
            Op::Tok { t: -1, .. } => i >= n,
            Op::Tok { t, .. } => i < n && self.toks[i] == *t,
            Op::Set { v, not, .. } if i >= n => !*not && in_set(v, -1),
            Op::Set { v, not, .. } => in_set(v, self.toks[i]) != *not,
            Op::Any { .. } => i < n,
            _ => false,
        }
    }
    fn ends_seq(&self, ops: &'a [Op], i: usize) -> u64 {
        let mut m = 1u64 << i;
        for op in ops {
            let mut k = 0;
            for j in Self::bits(m) {
                k |= self.ends(op, j);
            }
            m = k;
            if m == 0 {
                break;
            }
        }
        m
    }
    fn ends_alts(&self, alts: &'a [Vec<Op>], i: usize) -> u64 {
        alts.iter().fold(0, |m, a| m | self.ends_seq(a, i))
    }
    fn closure(&self, alts: &'a [Vec<Op>], mut todo: u64) -> u64 {
        let mut m = todo;
        while todo != 0 {
            let j = todo.trailing_zeros() as usize;
            todo &= todo - 1;
            let k = self.ends_alts(alts, j) & !m;
            m |= k;
            todo |= k;
        }
        m
    }
    fn lr_closure(&self, rule: usize, p: i32, mut todo: u64) -> u64 {
        let lr = self.prog.rules[rule].lr.as_ref().unwrap();
        let mut m = todo;
        while todo != 0 {
            let j = todo.trailing_zeros() as usize;
            todo &= todo - 1;
            let mut k = 0;
            for (_, _, prec, ops) in &lr.ops {
                if !self.exact || *prec >= p {
                    k |= self.ends_seq(ops, j);
                }
            }
            k &= !m;
            m |= k;
            todo |= k;
        }
        m
    }
    fn ends(&self, op: &'a Op, i: usize) -> u64 {
        if self.open && i == self.toks.len() {
            return match op {
                Op::Pred { id, .. } if self.exact && !(self.pred)(*id, i, self.start.get()) => 0,
                _ => 1 << i,
            };
        }
        match op {
            Op::Tok { .. } | Op::Set { .. } | Op::Any { .. } => {
                if self.term(op, i) {
                    1 << (i + 1).min(self.toks.len() + 1)
                } else {
                    0
                }
            }
            Op::Pred { id, .. } => {
                if !self.exact || (self.pred)(*id, i, self.start.get()) {
                    1 << i
                } else {
                    0
                }
            }
            Op::Act { .. } => 1 << i,
            _ => {
                let key = (op as *const Op as usize, i, if self.exact { -1 - self.start.get() as i32 } else { -1 });
                if let Some(&m) = self.memo.borrow().get(&key) {
                    return m;
                }
                self.steps.set(self.steps.get() + 1);
                let m = match op {
                    Op::Rule { rule, prec, .. } => self.rule_ends(*rule, *prec, i),
                    Op::Alts { alts, .. } => self.ends_alts(alts, i),
                    Op::Opt { alts, .. } => self.ends_alts(alts, i) | 1 << i,
                    Op::Star { alts, .. } => self.closure(alts, 1 << i),
                    Op::Plus { alts, .. } => self.closure(alts, self.ends_alts(alts, i)),
                    _ => unreachable!(),
                };
                self.memo.borrow_mut().insert(key, m);
                m
            }
        }
    }
    pub fn rule_ends(&self, rule: usize, prec: i32, i: usize) -> u64 {
        if self.open && i == self.toks.len() {
            return 1 << i;
        }
        let prec = if self.exact { prec } else { 0 };
        let key = (rule, i, prec);
        if let Some(&m) = self.memo.borrow().get(&key) {
            return m;
        }
        self.steps.set(self.steps.get() + 1);
        let r = &self.prog.rules[rule];
        let start = self.start.replace(i);
        let m = match &r.lr {
            None => self.ends_alts(&r.alts, i),
            Some(lr) => {
                let p = lr.prim.iter().fold(0, |m, a| m | self.ends_seq(&a.1, i));
                self.lr_closure(rule, prec, p)
            }
        };
        self.start.set(start);
        self.memo.borrow_mut().insert(key, m);
        m
    }
    // ---- matching without consuming yet, collecting predicates
    fn edge_seq(&self, ops: &'a [Op], i: usize) -> Edge {
        let mut e = Edge { m: 0, ne: true, nn: false };
        for op in ops {
            let mut n = Edge::default();
            for j in Self::bits(e.m) {
                n.m |= self.ends(op, j);
            }
            if e.ne {
                let x = self.edge(op, i);
                n.m |= x.m;
                n.ne |= x.ne;
                n.nn |= x.nn;
            }
            if e.nn {
                let x = self.ends(op, i);
                n.m |= x & !(1 << i);
                n.nn |= x >> i & 1 == 1;
            }
            e = n;
        }
        e
    }
    fn edge_alts(&self, alts: &'a [Vec<Op>], i: usize) -> Edge {
        let mut e = Edge::default();
        for a in alts {
            let x = self.edge_seq(a, i);
            e.m |= x.m;
            e.ne |= x.ne;
            e.nn |= x.nn;
        }
        e
    }
    fn edge(&self, op: &'a Op, i: usize) -> Edge {
        match op {
            Op::Tok { .. } | Op::Set { .. } | Op::Any { .. } => Edge { m: self.ends(op, i), ne: false, nn: false },
            Op::Pred { id, .. } => {
                let hidden = self.away.get() > 0 && crate::pdrive::ctx_dependent(*id);
                Edge { m: 0, ne: hidden || (self.pred)(*id, i, self.start.get()), nn: false }
            }
            Op::Act { .. } => Edge { m: 0, ne: false, nn: true },
            Op::Rule { rule, .. } => {
                let r = &self.prog.rules[*rule];
                self.away.set(self.away.get() + 1);
                let e = match &r.lr {
                    None => self.edge_alts(&r.alts, i),
                    Some(lr) => {
                        let mut m = 0;
                        for (_, ops) in &lr.prim {
                            m |= self.edge_seq(ops, i).m;
                        }
                        Edge { m: self.lr_closure(*rule, 0, m), ne: false, nn: false }
                    }
                };
                self.away.set(self.away.get() - 1);
                e
            }
            Op::Alts { alts, .. } => self.edge_alts(alts, i),
            Op::Opt { alts, .. } => {
                let mut e = self.edge_alts(alts, i);
                e.ne = true;
                e
            }
            Op::Star { alts, .. } => {
                let m = self.edge_alts(alts, i).m;
                Edge { m: self.closure(alts, m), ne: true, nn: false }
            }
            Op::Plus { alts, .. } => {
                let m = self.edge_alts(alts, i).m;
                Edge { m: self.closure(alts, m), ne: false, nn: false }
            }
        }
    }
    fn edge_fr(&self, fr: &Fr<'a>, i: usize, here: bool) -> Edge {
        match fr {
            Fr::Seq(ops) => self.edge_seq(ops, i),
            Fr::Loop(op) => {
                let alts = loop_alts(op);
                let m = self.edge_alts(alts, i).m;
                Edge { m: self.closure(alts, m), ne: true, nn: false }
            }
            Fr::LrLoop(rule, p) => {
                let lr = self.prog.rules[*rule].lr.as_ref().unwrap();
                let mut m = 0;
                for (_, _, prec, ops) in &lr.ops {
                    if !here || prec >= p {
                        m |= self.edge_seq(ops, i).m;
                    }
                }
                Edge { m: self.lr_closure(*rule, *p, m), ne: true, nn: false }
            }
            Fr::Ret => Edge { m: 0, ne: true, nn: false },
        }
    }
    fn ends_fr(&self, fr: &Fr<'a>, j: usize) -> u64 {
        match fr {
            Fr::Seq(ops) => self.ends_seq(ops, j),
            Fr::Loop(op) => self.closure(loop_alts(op), 1 << j),
            Fr::LrLoop(rule, p) => self.lr_closure(*rule, *p, 1 << j),
            Fr::Ret => 1 << j,
        }
    }
    fn below_s(&self, c: &Option<Rc<Cont<'a>>>) -> u64 {
        match c {
            None => 3 << self.toks.len(),
            Some(c) => c.s,
        }
    }
    fn push(&self, fr: Fr<'a>, below: &Option<Rc<Cont<'a>>>) -> Option<Rc<Cont<'a>>> {
        let bs = self.below_s(below);
        let mut s = 0;
        for j in 0..=self.toks.len() + 1 {
            if self.ends_fr(&fr, j) & bs != 0 {
                s |= 1 << j;
            }
        }
        Some(Rc::new(Cont { fr, below: below.clone(), s }))
    }
    fn viable_cont(&self, c: &Option<Rc<Cont<'a>>>, i: usize, here: bool) -> bool {
        let ok = self.viable_from(c, i, here);
        self.away.set(0);
        ok
    }
    fn viable_from(&self, c: &Option<Rc<Cont<'a>>>, i: usize, mut here: bool) -> bool {
        let mut c = c;
        loop {
            match c {
                None => return i >= self.toks.len(),
                Some(x) => {
                    if let Fr::Ret = x.fr {
                        here = false;
                        self.away.set(1);
                    }
                    let e = self.edge_fr(&x.fr, i, here);
                    let bs = self.below_s(&x.below);
                    if e.m & bs != 0 || (e.nn && bs >> i & 1 == 1) {
                        return true;
                    }
                    if !e.ne {
                        return false;
                    }
                    c = &x.below;
                }
            }
        }
    }
    fn viable(&self, ops: &'a [Op], c: &Option<Rc<Cont<'a>>>, i: usize) -> bool {
        let e = self.edge_seq(ops, i);
        let s = self.below_s(c);
        e.m & s != 0 || (e.nn && s >> i & 1 == 1) || (e.ne && self.viable_cont(c, i, true))
    }
    fn decide(&mut self, dec: usize, i: usize, ok: Vec<bool>) -> Result<usize, Fail> {
        self.alts.push(ok.len());
        if let Some(f) = self.follow {
            let n = self.decisions.len();
            let (d, k) = f[n];
            if d != dec || k > ok.len() {
                return Err(Fail);
            }
            self.decisions.push((d, k));
            self.viable.push((i, (1..=ok.len()).filter(|&k| ok[k - 1]).collect()));
            return if n + 1 == f.len() { Err(Fail) } else { Ok(k) };
        }
        match ok.iter().position(|&b| b) {
            Some(k) => {
                self.decisions.push((dec, k + 1));
                self.viable.push((i, (1..=ok.len()).filter(|&k| ok[k - 1]).collect()));
                Ok(k + 1)
            }
            None => Err(Fail),
        }
    }
    fn run_seq(&mut self, ops: &'a [Op], mut i: usize, c: &Option<Rc<Cont<'a>>>, out: &mut String) -> Result<usize, Fail> {
        for (k, op) in ops.iter().enumerate() {
            self.steps.set(self.steps.get() + 1);
            let needs = !matches!(op, Op::Tok { .. } | Op::Set { .. } | Op::Any { .. } | Op::Pred { .. } | Op::Act { .. });
            let cc = if needs && k + 1 < ops.len() { self.push(Fr::Seq(&ops[k + 1..]), c) } else { c.clone() };
            i = self.run_op(op, i, &cc, out)?;
        }
        Ok(i)
    }
    fn run_op(&mut self, op: &'a Op, i: usize, c: &Option<Rc<Cont<'a>>>, out: &mut String) -> Result<usize, Fail> {
        match op {
            Op::Tok { .. } | Op::Set { .. } | Op::Any { .. } => {
                if self.term(op, i) {
                    out.push(' ');
                    if i >= self.toks.len() {
                        out.push_str("<EOF>");
                    } else {
                        out.push_str(&crate::streams::tok_text(self.toks[i]));
                    }
                    Ok((i + 1).min(self.toks.len() + 1))
                } else {
                    Err(Fail)
                }
            }
            Op::Pred { id, .. } => {
                if (self.pred)(*id, i, self.start.get()) {
                    Ok(i)
                } else {
                    Err(Fail)
                }
            }
            Op::Act { .. } => Ok(i),
            Op::Rule { rule, prec, .. } => self.run_rule(*rule, *prec, i, c, out),
            Op::Alts { dec, alts, .. } => {
                let ok = alts.iter().map(|a| self.viable(a, c, i)).collect();
                let k = self.decide(*dec, i, ok)?;
                self.run_seq(&alts[k - 1], i, c, out)
            }
            Op::Opt { dec, exit_first, alts, .. } => {
                let mut ok: Vec<bool> = alts.iter().map(|a| self.viable(a, c, i)).collect();
                let ex = self.viable_cont(c, i, true);
                if *exit_first {
                    ok.insert(0, ex);
                } else {
                    ok.push(ex);
                }
                let k = self.decide(*dec, i, ok)?;
                let exit = if *exit_first { 1 } else { alts.len() + 1 };
                if k == exit {
                    return Ok(i);
                }
                self.run_seq(&alts[k - 1 - *exit_first as usize], i, c, out)
            }
            Op::Star { dec, exit_first, blk, alts, .. } => {
                let again = self.push(Fr::Loop(op), c);
                let mut i = i;
                loop {
                    if !self.loop_choice(*dec, *exit_first, alts, &again, c, i)? {
                        return Ok(i);
                    }
                    i = self.run_body(blk.map(|b| b.1), alts, i, &again, out)?;
                }
            }
            Op::Plus { dec, exit_first, blk, alts, .. } => {
                let again = self.push(Fr::Loop(op), c);
                let mut i = i;
                loop {
                    i = self.run_body(*blk, alts, i, &again, out)?;
                    if !self.loop_choice(*dec, *exit_first, alts, &again, c, i)? {
                        return Ok(i);
                    }
                }
            }
        }
    }
    fn loop_choice(
        &mut self,
        dec: usize,
        exit_first: bool,
        alts: &'a [Vec<Op>],
        again: &Option<Rc<Cont<'a>>>,
        c: &Option<Rc<Cont<'a>>>,
        i: usize,
    ) -> Result<bool, Fail> {
        let enter = alts.iter().any(|a| self.viable(a, again, i));
        let exit = self.viable_cont(c, i, true);
        let k = self.decide(dec, i, if exit_first { vec![exit, enter] } else { vec![enter, exit] })?;
        Ok((k == 1) != exit_first)
    }
    fn run_body(
        &mut self,
        blk: Option<usize>,
        alts: &'a [Vec<Op>],
        i: usize,
        again: &Option<Rc<Cont<'a>>>,
        out: &mut String,
    ) -> Result<usize, Fail> {
        let k = match blk {
            None => 1,
            Some(d) => {
                let ok = alts.iter().map(|a| self.viable(a, again, i)).collect();
                self.decide(d, i, ok)?
            }
        };
        self.run_seq(&alts[k - 1], i, again, out)
    }
    pub fn run_rule(
        &mut self,
        rule: usize,
        prec: i32,
        i: usize,
        c: &Option<Rc<Cont<'a>>>,
        out: &mut String,
    ) -> Result<usize, Fail> {
        let prog: &'a Prog = self.prog;
        let r = &prog.rules[rule];
        let c = self.push(Fr::Ret, c);
        let start = self.start.replace(i);
        let e = self.run_in(rule, prec, i, c, r, out);
        self.start.set(start);
        e
    }
    fn run_in(
        &mut self,
        rule: usize,
        prec: i32,
        i: usize,
        c: Option<Rc<Cont<'a>>>,
        r: &'a RuleProg,
        out: &mut String,
    ) -> Result<usize, Fail> {
        match &r.lr {
            None => {
                let k = match r.dec {
                    None => 1,
                    Some((_, d)) => {
                        let ok = r.alts.iter().map(|a| self.viable(a, &c, i)).collect();
                        self.decide(d, i, ok)?
                    }
                };
                out.push_str(&format!(" (r{rule}:{k}"));
                let e = self.run_seq(&r.alts[k - 1], i, &c, out)?;
                out.push(')');
                Ok(e)
            }
            Some(lr) => {
                let lc = self.push(Fr::LrLoop(rule, prec), &c);
                let k = match lr.prim_dec {
                    None => 1,
                    Some((_, d)) => {
                        let ok = lr.prim.iter().map(|a| self.viable(&a.1, &lc, i)).collect();
                        self.decide(d, i, ok)?
                    }
                };
                let mut node = format!("(r{rule}:{}", lr.prim[k - 1].0);
                let mut i = self.run_seq(&lr.prim[k - 1].1, i, &lc, &mut node)?;
                node.push(')');
                loop {
                    let allowed: Vec<bool> =
                        lr.ops.iter().map(|o| o.2 >= prec && self.viable(&o.3, &lc, i)).collect();
                    let exit = self.viable_cont(&c, i, true);
                    let k = self.decide(lr.dec, i, vec![allowed.iter().any(|&b| b), exit])?;
                    if k == 2 {
                        break;
                    }
                    let k = match lr.blk {
                        None => 1,
                        Some((_, d)) => self.decide(d, i, allowed)?,
                    };
                    let o = &lr.ops[k - 1];
                    let mut n2 = format!("(r{rule}:{} {node}", o.0);
                    i = self.run_seq(&o.3, i, &lc, &mut n2)?;
                    n2.push(')');
                    node = n2;
                }
                out.push(' ');
                out.push_str(&node);
                Ok(i)
            }
        }
    }
}
fn loop_alts(op: &Op) -> &[Vec<Op>] {
    match op {
        Op::Star { alts, .. } | Op::Plus { alts, .. } => alts,
        _ => unreachable!(),
    }
}

pub struct RefResult {
    /// tree and decisions, if the lowest-alternative procedure succeeds
    pub tree: Option<(String, Vec<(usize, usize)>)>,
    /// where each decision was taken and which alternatives lead to a full match
    pub viable: Vec<(usize, Vec<usize>)>,
    /// the input is in the language (predicates and precedence taken exactly)
    pub member: bool,
    /// where a match of the start rule can end (bit i: after i tokens; the last bit: after EOF)
    pub ends: u64,
}
/// `toks` must be shorter than 62
pub fn reference(prog: &Prog, start: usize, toks: &[i32], pred: &PredFn) -> RefResult {
    let ex = Ref::new(prog, toks, pred, true);
    let ends = ex.rule_ends(start, 0, 0);
    let mut r = Ref::new(prog, toks, pred, false);
    let mut out = String::new();
    let tree = match r.run_rule(start, 0, 0, &None, &mut out) {
        Ok(e) if e >= toks.len() => Some((out.trim().to_string(), r.decisions.clone())),
        _ => None,
    };
    RefResult { tree, viable: r.viable, member: ends >> toks.len() & 3 != 0, ends }
}

/// Whether the fast mode cannot go wrong on the way of these decisions, in a grammar in which it
/// knows all there is to know (`Grammar::tree`): at each, whatever the predicates say, one
/// alternative fits, or all do, or there are only two.
pub fn plain_choices(prog: &Prog, start: usize, toks: &[i32], decs: &[(usize, usize)]) -> bool {
    let yes = |_: u16, _: usize, _: usize| true;
    let mut r = Ref::new(prog, toks, &yes, false);
    r.follow = Some(decs);
    let _ = r.run_rule(start, 0, 0, &None, &mut String::new());
    r.viable.len() == decs.len()
        && r.viable.iter().zip(&r.alts).all(|(v, &n)| v.1.len() == 1 || v.1.len() == n || n == 2)
}

/// The alternatives of the last decision of `decs` that can match `toks`, where (if `open`) more
/// tokens may follow, when the decisions before it are as given. None if these do not lead there.
pub fn prefix_viable(
    prog: &Prog,
    start: usize,
    toks: &[i32],
    open: bool,
    pred: &PredFn,
    decs: &[(usize, usize)],
) -> Option<(usize, Vec<usize>)> {
    let mut r = Ref::new(prog, toks, pred, false);
    r.open = open;
    r.follow = Some(decs);
    let _ = r.run_rule(start, 0, 0, &None, &mut String::new());
    if r.viable.len() == decs.len() {
        r.viable.pop()
    } else {
        None
    }
}

/// whether an error-free tree is a derivation: the children of every rule node match an
/// alternative of its rule
pub fn derives(prog: &Prog, n: &crate::pdrive::NodeRec) -> Option<String> {
    if n.leaf.is_some() || n.kids.len() > 60 {
        return None;
    }
    let r = &prog.rules[n.rule];
    let all = |ops: &Vec<Op>, from: usize| kid_seq(ops, &n.kids, 1 << from) >> n.kids.len() & 1 == 1;
    let ok = match &r.lr {
        None => match r.alts.get((n.alt - 1).max(0) as usize) {
            Some(a) if n.alt > 0 => all(a, 0),
            _ => false,
        },
        Some(lr) => {
            lr.prim.iter().any(|(a, ops)| *a as isize == n.alt && all(ops, 0))
                || lr.ops.iter().any(|(a, _, _, ops)| {
                    *a as isize == n.alt
                        && n.kids.first().map_or(false, |k| k.leaf.is_none() && k.rule == n.rule)
                        && all(ops, 1)
                })
        }
    };
    if !ok {
        return Some(format!("rule {} alternative {}", n.rule, n.alt));
    }
    n.kids.iter().find_map(|k| derives(prog, k))
}
fn kid_seq(ops: &[Op], kids: &[crate::pdrive::NodeRec], mut at: u64) -> u64 {
    for o in ops {
        at = kid_op(o, kids, at);
    }
    at
}
fn kid_alts(alts: &[Vec<Op>], kids: &[crate::pdrive::NodeRec], at: u64) -> u64 {
    alts.iter().fold(0, |m, a| m | kid_seq(a, kids, at))
}
fn kid_op(op: &Op, kids: &[crate::pdrive::NodeRec], at: u64) -> u64 {
    let leaf = |f: &dyn Fn(i32) -> bool| -> u64 {
        kids.iter()
            .enumerate()
            .filter(|(i, k)| at >> i & 1 == 1 && k.leaf.as_ref().map_or(false, |l| !l.err && f(l.tt as i32)))
            .fold(0, |m, (i, _)| m | 1 << (i + 1))
    };
    match op {
        Op::Tok { t, .. } => leaf(&|x| x == *t),
        Op::Set { v, not, .. } => leaf(&|x| (x >= 1 || !*not) && in_set(v, x) != *not),
        Op::Any { .. } => leaf(&|x| x >= 1),
        Op::Rule { rule, .. } => kids
            .iter()
            .enumerate()
            .filter(|(i, k)| at >> i & 1 == 1 && k.leaf.is_none() && k.rule == *rule)
            .fold(0, |m, (i, _)| m | 1 << (i + 1)),
        Op::Pred { .. } | Op::Act { .. } => at,
        Op::Alts { alts, .. } => kid_alts(alts, kids, at),
        Op::Opt { alts, .. } => at | kid_alts(alts, kids, at),
        Op::Star { alts, .. } | Op::Plus { alts, .. } => {
            let mut all = if let Op::Star { .. } = op { at } else { kid_alts(alts, kids, at) };
            loop {
                let n = all | kid_alts(alts, kids, all);
                if n == all {
                    return all;
                }
                all = n;
            }
        }
    }
}
