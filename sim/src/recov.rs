//! Reference for the default error strategy: what a parse must do with tokens it cannot match.
//! It runs the grammar with the predictions the real parser made and decides everything else
//! itself: which token is dropped, made up or skipped to, what is reported with which expected
//! tokens, and the tree that results. Sets of expected tokens are computed from the grammar's
//! structure, not from its network.
use crate::patn::*;
use crate::pdrive::{pred_value, ErrRec, PJob, Strat};
use crate::streams::*;
use std::collections::{BTreeSet, HashMap};

pub type TS = BTreeSet<i32>;
pub const EPS: i32 = -2;
/// a prediction of the real parser: decision, position, chosen alternative or offending token
pub type Outcome = (usize, isize, Result<usize, (isize, isize)>);

/// what can come next, by state, within the rule (EPS: its end)
pub struct Look {
    next: HashMap<usize, TS>,
    /// by the state of a rule call: what can come after the call, within the rule
    follow: HashMap<usize, TS>,
    /// by the state of a token or set: what can come after it, within the rule
    after: HashMap<usize, TS>,
    first: Vec<TS>,
    max: i32,
}
impl Look {
    pub fn new(p: &Prog, max: i32) -> Look {
        let mut l = Look { next: HashMap::new(), follow: HashMap::new(), after: HashMap::new(), first: vec![TS::new(); p.rules.len()], max };
        loop {
            let old = l.first.clone();
            for (i, r) in p.rules.iter().enumerate() {
                l.first[i] = l.rule(r);
            }
            if old == l.first {
                return l;
            }
        }
    }
    fn rule(&mut self, r: &RuleProg) -> TS {
        let end: TS = [EPS].into();
        match &r.lr {
            None => {
                let s = self.alts(&r.alts, &end);
                if let Some((st, _)) = r.dec {
                    self.next.insert(st, s.clone());
                }
                s
            }
            Some(lr) => {
                // the operator loop; every operand but the first is a call
                let mut ops = TS::new();
                for _ in 0..2 {
                    let mut s = end.clone();
                    s.extend(ops.iter());
                    ops = TS::new();
                    for (_, pst, _, o) in &lr.ops {
                        let f = self.seq(o, &s);
                        self.next.insert(*pst, f.clone());
                        ops.extend(f.iter());
                    }
                }
                if let Some((st, _)) = lr.blk {
                    self.next.insert(st, ops.clone());
                }
                let mut s = end;
                s.extend(ops.iter());
                self.next.insert(lr.entry, s.clone());
                self.next.insert(lr.back, s.clone());
                let mut f = TS::new();
                for (_, o) in &lr.prim {
                    f.extend(self.seq(o, &s).iter());
                }
                if let Some((st, _)) = lr.prim_dec {
                    self.next.insert(st, f.clone());
                }
                f
            }
        }
    }
    fn alts(&mut self, a: &[Vec<Op>], k: &TS) -> TS {
        let mut s = TS::new();
        for x in a {
            s.extend(self.seq(x, k).iter());
        }
        s
    }
    fn seq(&mut self, ops: &[Op], k: &TS) -> TS {
        let mut k = k.clone();
        for op in ops.iter().rev() {
            k = self.op(op, &k);
        }
        k
    }
    fn op(&mut self, op: &Op, k: &TS) -> TS {
        if let Op::Tok { st, .. } | Op::Set { st, .. } | Op::Any { st } = op {
            self.after.insert(*st, k.clone());
        }
        let (st, s): (usize, TS) = match op {
            Op::Tok { st, t } => (*st, [*t].into()),
            Op::Set { st, v, not } => {
                let mut s: TS = (1..=self.max).filter(|t| v.iter().any(|&(a, b)| a <= *t && *t <= b) != *not).collect();
                if !*not && v.contains(&(-1, -1)) {
                    s.insert(-1);
                }
                (*st, s)
            }
            Op::Any { st } => (*st, (1..=self.max).collect()),
            Op::Pred { st, .. } | Op::Act { st, .. } => (*st, k.clone()),
            Op::Rule { st, rule, .. } => {
                self.follow.insert(*st, k.clone());
                let mut f = self.first[*rule].clone();
                if f.remove(&EPS) {
                    f.extend(k.iter());
                }
                (*st, f)
            }
            Op::Alts { st, alts, .. } => (*st, self.alts(alts, k)),
            Op::Opt { st, alts, .. } => {
                let mut f = self.alts(alts, k);
                f.extend(k.iter());
                (*st, f)
            }
            Op::Star { st, back, blk, alts, .. } => {
                let (body, all) = self.looped(alts, k);
                if let Some((b, _)) = blk {
                    self.next.insert(*b, body);
                }
                self.next.insert(*back, all.clone());
                (*st, all)
            }
            Op::Plus { st, back, alts, .. } => {
                let (body, all) = self.looped(alts, k);
                self.next.insert(*back, all);
                (*st, body)
            }
        };
        self.next.insert(st, s.clone());
        s
    }
    fn looped(&mut self, alts: &[Vec<Op>], k: &TS) -> (TS, TS) {
        let mut body = TS::new();
        let mut all = k.clone();
        for _ in 0..3 {
            all.extend(body.iter());
            body = self.alts(alts, &all);
        }
        all.extend(body.iter());
        (body, all)
    }
}

enum Kid {
    Leaf { err: bool, tt: i32, text: String, ix: isize },
    Node(usize),
}
struct Node {
    rule: usize,
    alt: usize,
    kids: Vec<Kid>,
}
#[derive(Debug)]
enum E {
    Mismatch { state: usize, chain: Vec<usize> },
    NoAlt { start: isize, off: isize },
    Pred(String),
    /// bail strategy gives up
    Bail,
    /// the real parser departed from the model
    Stop(String),
}
pub struct Model<'a> {
    prog: &'a Prog,
    look: &'a Look,
    job: &'a PJob,
    /// on-channel tokens (index, type), then end of file
    toks: Vec<(isize, i32)>,
    p: usize,
    state: usize,
    chain: Vec<usize>,
    prec: Vec<i32>,
    /// where the rules being parsed began
    starts: Vec<isize>,
    err: bool,
    last_index: isize,
    last_states: Option<BTreeSet<usize>>,
    saved: Option<(usize, Vec<usize>)>,
    /// where tokens were made up in front of a token, by its index
    made_up: (isize, HashMap<usize, BTreeSet<Vec<usize>>>),
    nodes: Vec<Node>,
    cur: usize,
    out: &'a [Outcome],
    used: usize,
    pub errs: Vec<ErrRec>,
    /// what matching a token gave to the generated code: index (-1 if made up) and type
    pub given: Vec<(isize, isize)>,
    pub expects: Vec<(usize, String)>,
}
type Res<T> = Result<T, E>;
fn name(t: i32) -> String {
    match t {
        -1 => "<EOF>".into(),
        1..=12 => format!("'{}'", (b'a' + (t - 1) as u8) as char),
        _ => t.to_string(),
    }
}
fn names(s: &TS) -> String {
    let v: Vec<String> = s.iter().map(|&t| name(t)).collect();
    match v.len() {
        0 => "{}".into(),
        1 => v[0].clone(),
        _ => format!("{{{}}}", v.join(", ")),
    }
}
impl<'a> Model<'a> {
    pub fn new(prog: &'a Prog, look: &'a Look, job: &'a PJob, out: &'a [Outcome]) -> Self {
        let mut toks: Vec<(isize, i32)> =
            job.toks.iter().enumerate().filter(|(_, t)| t.ch == 0).map(|(i, t)| (i as isize, t.t)).collect();
        toks.push((job.toks.len() as isize, -1));
        Model {
            prog,
            look,
            job,
            toks,
            p: 0,
            state: usize::MAX,
            chain: vec![],
            prec: vec![0],
            starts: vec![],
            err: false,
            last_index: -1,
            last_states: None,
            saved: None,
            made_up: (-1, HashMap::new()),
            nodes: vec![],
            cur: usize::MAX,
            out,
            used: 0,
            errs: vec![],
            given: vec![],
            expects: vec![],
        }
    }
    fn la(&self, k: usize) -> i32 {
        self.toks[(self.p + k - 1).min(self.toks.len() - 1)].1
    }
    fn fits(&self, op: &Op) -> bool {
        let t = self.la(1);
        match op {
            Op::Tok { t: x, .. } => t == *x,
            Op::Set { v, not, .. } => (t > 0 || !*not) && v.iter().any(|&(a, b)| a <= t && t <= b) != *not,
            Op::Any { .. } => t > 0,
            _ => false,
        }
    }
    fn ix(&self) -> isize {
        self.toks[self.p].0
    }
    fn text(&self, ix: isize) -> String {
        self.job.toks.get(ix as usize).map_or("<EOF>".into(), |t| tok_text(t.t))
    }
    fn next(&self, st: usize) -> &'a TS {
        &self.look.next[&st]
    }
    fn expected_at(&self, st: usize, chain: &[usize]) -> TS {
        self.in_context(self.next(st), chain)
    }
    fn in_context(&self, mut follow: &'a TS, chain: &[usize]) -> TS {
        let mut s = follow.clone();
        for c in chain.iter().rev() {
            if !follow.contains(&EPS) {
                break;
            }
            follow = &self.look.follow[c];
            s.extend(follow.iter());
        }
        s.remove(&EPS);
        if follow.contains(&EPS) {
            s.insert(-1);
        }
        s
    }
    fn expected(&self) -> TS {
        self.expected_at(self.state, &self.chain)
    }
    fn recovery_set(&self) -> TS {
        let mut s = TS::new();
        for c in &self.chain {
            s.extend(self.look.follow[c].iter());
        }
        s.remove(&EPS);
        s
    }
    fn consume(&mut self) {
        let (ix, tt) = self.toks[self.p];
        let text = self.text(ix);
        if self.p + 1 < self.toks.len() {
            self.p += 1;
        }
        let err = self.err;
        self.nodes[self.cur].kids.push(Kid::Leaf { err, tt, text, ix });
    }
    fn give(&mut self) {
        let (ix, tt) = self.toks[self.p];
        self.given.push((ix, tt as isize));
    }
    fn matched(&mut self) {
        if self.job.strat == Strat::Default {
            self.err = false;
            self.last_index = -1;
            self.last_states = None;
            self.made_up.1.clear();
        }
    }
    fn report(&mut self, ix: isize, msg: String, kind: &str) {
        let i = ix as usize;
        self.err = true;
        self.errs.push(ErrRec {
            line: tok_line(i),
            col: tok_col(i),
            tok: ix,
            tt: self.job.toks.get(i).map_or(-1, |t| t.t) as isize,
            msg,
            at: self.ix(),
            kind: kind.into(),
        });
    }
    fn shown(&self) -> String {
        format!("'{}'", self.text(self.ix()))
    }
    fn unwanted(&mut self) {
        if !self.err {
            let m = format!("extraneous input {} expecting {}", self.shown(), names(&self.expected()));
            self.report(self.ix(), m, "none");
        }
    }
    fn delete_one(&mut self) -> bool {
        if self.expected().contains(&self.la(2)) {
            self.unwanted();
            self.consume();
            self.matched();
            return true;
        }
        false
    }
    fn recover_inline(&mut self) -> Res<Option<i32>> {
        if self.job.strat == Strat::Bail {
            return Err(E::Bail);
        }
        if self.delete_one() {
            self.give();
            self.consume();
            return Ok(None);
        }
        if self.in_context(&self.look.after[&self.state], &self.chain).contains(&self.la(1)) && self.first_made_up() {
            let e = self.expected();
            if !self.err {
                let m = format!("missing {} at {}", names(&e), self.shown());
                self.report(self.ix(), m, "none");
            }
            return Ok(Some(e.iter().next().copied().unwrap_or(0)));
        }
        let (state, chain) = self.saved.clone().unwrap_or((self.state, self.chain.clone()));
        Err(E::Mismatch { state, chain })
    }
    /// while nothing is consumed, a token is made up again at one place of the grammar only
    /// under other calls, and never deeper in
    fn first_made_up(&mut self) -> bool {
        let ix = self.ix();
        if self.made_up.0 != ix {
            self.made_up = (ix, HashMap::new());
        }
        let at = self.made_up.1.entry(self.state).or_default();
        if at.iter().any(|c| c.len() < self.chain.len() || *c == self.chain) {
            return false;
        }
        at.insert(self.chain.clone());
        true
    }
    fn sync(&mut self) -> Res<()> {
        if self.err || self.job.strat == Strat::Bail {
            return Ok(());
        }
        let n = self.next(self.state);
        if n.contains(&self.la(1)) {
            self.saved = None;
            return Ok(());
        }
        if n.contains(&EPS) {
            if self.saved.is_none() {
                self.saved = Some((self.state, self.chain.clone()));
            }
            return Ok(());
        }
        Err(E::Mismatch { state: self.state, chain: self.chain.clone() })
    }
    /// in front of a block or loop
    fn sync_block(&mut self) -> Res<()> {
        match self.sync() {
            Err(e @ E::Mismatch { .. }) => {
                if self.delete_one() {
                    Ok(())
                } else {
                    Err(e)
                }
            }
            r => r,
        }
    }
    /// between two iterations
    fn sync_back(&mut self) -> Res<()> {
        match self.sync() {
            Err(E::Mismatch { .. }) => {
                self.unwanted();
                let mut s = self.expected();
                s.extend(self.recovery_set().iter());
                self.skip_to(&s);
                Ok(())
            }
            r => r,
        }
    }
    fn skip_to(&mut self, s: &TS) {
        while self.la(1) != -1 && !s.contains(&self.la(1)) {
            self.consume();
        }
    }
    fn predict(&mut self, dec: usize) -> Res<usize> {
        let Some((d, at, r)) = self.out.get(self.used).cloned() else {
            return Err(E::Stop(format!("the parser did not come to decision {dec} at token {}", self.ix())));
        };
        if d != dec || at != self.ix() {
            return Err(E::Stop(format!("the parser came to decision {d} at token {at}, not to {dec} at {}", self.ix())));
        }
        self.used += 1;
        r.map_err(|(start, off)| E::NoAlt { start, off })
    }
    /// the catch clause of a rule
    fn catch(&mut self, e: E) -> Res<()> {
        if matches!(e, E::Stop(_) | E::Bail) {
            return Err(e);
        }
        if !self.err {
            match &e {
                E::Mismatch { state, chain } => {
                    let m = format!("mismatched input {} expecting {}", self.shown(), names(&self.expected_at(*state, chain)));
                    self.report(self.ix(), m, "mismatch");
                }
                E::NoAlt { start, off } => {
                    if *start != self.ix() || off < start {
                        return Err(E::Stop(format!("no viable alternative from {start} to {off} at {}", self.ix())));
                    }
                    let n = self.job.toks.len() as isize;
                    let m = if *start == n {
                        "<EOF>".to_string()
                    } else {
                        (*start..=*off).filter(|&i| i < n).map(|i| self.text(i)).collect()
                    };
                    self.report(*off, format!("no viable alternative at input '{m}'"), "noalt");
                }
                E::Pred(p) => {
                    let m = format!("rule r{} failed predicate: {p}", self.nodes[self.cur].rule);
                    self.report(self.ix(), m, "pred");
                }
                _ => unreachable!(),
            }
        }
        if self.job.strat == Strat::Bail {
            return Err(E::Bail);
        }
        if self.last_index == self.ix() && self.last_states.as_ref().map_or(false, |s| s.contains(&self.state)) {
            self.consume();
        }
        self.last_index = self.ix();
        self.last_states.get_or_insert_with(BTreeSet::new).insert(self.state);
        let s = self.recovery_set();
        self.skip_to(&s);
        Ok(())
    }
    fn ops(&mut self, ops: &'a [Op]) -> Res<()> {
        for op in ops {
            self.op(op)?;
        }
        Ok(())
    }
    fn node(&mut self, rule: usize) -> usize {
        self.nodes.push(Node { rule, alt: 0, kids: vec![] });
        self.nodes.len() - 1
    }
    /// the token at hand does not match this op
    fn inline(&mut self, leaf: bool) -> Res<()> {
        let r = self.recover_inline()?;
        if let Some(t) = r {
            self.given.push((-1, t as isize));
        }
        if let (Some(t), true) = (r, leaf) {
            let text = if t == -1 { "<missing EOF>".into() } else { format!("<missing {}>", name(t)) };
            self.nodes[self.cur].kids.push(Kid::Leaf { err: true, tt: t, text, ix: -1 });
        }
        Ok(())
    }
    fn at(&mut self, st: usize) {
        self.state = st;
        if self.job.ask {
            let s = format!("{} at {}", names(&self.expected()), self.ix());
            self.expects.push((st, s));
        }
    }
    fn op(&mut self, op: &'a Op) -> Res<()> {
        match op {
            Op::Tok { st, .. } | Op::Set { st, .. } | Op::Any { st } => {
                self.at(*st);
                if self.fits(op) {
                    self.give();
                    self.matched();
                    self.consume();
                    Ok(())
                } else {
                    self.inline(!matches!(op, Op::Set { .. }))
                }
            }
            Op::Rule { st, rule, prec } => {
                self.at(*st);
                self.chain.push(*st);
                let r = self.rule(*rule, *prec);
                self.chain.pop();
                r
            }
            Op::Pred { st, id } => {
                self.at(*st);
                if pred_value(self.job.pred_seed, self.job.pred_pos, *id, self.ix() as usize, self.starts.last().copied().unwrap_or(0) as usize) {
                    Ok(())
                } else {
                    Err(E::Pred(format!("p{id}")))
                }
            }
            Op::Act { .. } => Ok(()),
            Op::Alts { st, dec, alts } => {
                self.at(*st);
                self.sync_block()?;
                let k = self.predict(*dec)?;
                alts.get(k.wrapping_sub(1)).map_or(Ok(()), |a| self.ops(a))
            }
            Op::Opt { st, dec, exit_first, alts } => {
                self.at(*st);
                self.sync_block()?;
                let k = self.predict(*dec)?;
                alts.get(k.wrapping_sub(1 + *exit_first as usize)).map_or(Ok(()), |a| self.ops(a))
            }
            Op::Star { st, dec, back, exit_first, blk, alts } => {
                self.at(*st);
                self.sync_block()?;
                let exit = 2 - *exit_first as usize;
                let mut k = self.predict(*dec)?;
                while k != exit && k != 0 {
                    self.body(*blk, alts)?;
                    self.at(*back);
                    self.sync_back()?;
                    k = self.predict(*dec)?;
                }
                Ok(())
            }
            Op::Plus { st, blk, back, dec, exit_first, alts } => {
                let exit = 2 - *exit_first as usize;
                self.at(*st);
                self.sync_block()?;
                loop {
                    self.body(blk.map(|d| (*st, d)), alts)?;
                    self.at(*back);
                    self.sync_back()?;
                    let k = self.predict(*dec)?;
                    if k == exit || k == 0 {
                        return Ok(());
                    }
                }
            }
        }
    }
    fn body(&mut self, blk: Option<(usize, usize)>, alts: &'a [Vec<Op>]) -> Res<()> {
        match blk {
            None => self.ops(&alts[0]),
            Some((st, dec)) => {
                self.state = st;
                self.sync_block()?;
                let k = self.predict(dec)?;
                alts.get(k.wrapping_sub(1)).map_or(Ok(()), |a| self.ops(a))
            }
        }
    }
    fn rule(&mut self, ri: usize, prec: i32) -> Res<()> {
        self.starts.push(self.ix());
        let r = self.rule_body(ri, prec);
        self.starts.pop();
        r
    }
    fn rule_body(&mut self, ri: usize, prec: i32) -> Res<()> {
        let prog = self.prog;
        let rp = &prog.rules[ri];
        let up = self.cur;
        let inv = self.state;
        self.cur = self.node(ri);
        if let Some(lr) = &rp.lr {
            self.prec.push(prec);
            let r = self.lr(ri, lr);
            let r = r.or_else(|e| self.catch(e));
            self.prec.pop();
            if up != usize::MAX {
                let me = self.cur;
                self.nodes[up].kids.push(Kid::Node(me));
                self.cur = up;
            }
            return r;
        }
        if up != usize::MAX {
            let me = self.cur;
            self.nodes[up].kids.push(Kid::Node(me));
        }
        let r = (|| {
            let k = match rp.dec {
                None => 1,
                Some((st, dec)) => {
                    self.state = st;
                    self.sync_block()?;
                    self.predict(dec)?
                }
            };
            if let Some(a) = rp.alts.get(k.wrapping_sub(1)) {
                let me = self.cur;
                self.nodes[me].alt = k;
                self.ops(a)?;
            }
            Ok(())
        })();
        let r = r.or_else(|e| self.catch(e));
        if up != usize::MAX {
            self.cur = up;
            self.state = inv;
        }
        r
    }
    fn lr(&mut self, ri: usize, lr: &'a LrProg) -> Res<()> {
        let k = match lr.prim_dec {
            None => 1,
            Some((st, dec)) => {
                self.state = st;
                self.sync_block()?;
                self.predict(dec)?
            }
        };
        if let Some((alt, ops)) = lr.prim.get(k.wrapping_sub(1)) {
            let me = self.cur;
            self.nodes[me].alt = *alt;
            self.ops(ops)?;
        }
        self.state = lr.entry;
        self.sync_block()?;
        let mut k = self.predict(lr.dec)?;
        while k != 2 && k != 0 {
            if k == 1 {
                let j = match lr.blk {
                    None => 1,
                    Some((st, dec)) => {
                        self.state = st;
                        self.sync_block()?;
                        self.predict(dec)?
                    }
                };
                if let Some((alt, pst, p, ops)) = lr.ops.get(j.wrapping_sub(1)) {
                    let n = self.node(ri);
                    self.nodes[n].alt = *alt;
                    let prev = self.cur;
                    self.nodes[n].kids.push(Kid::Node(prev));
                    self.cur = n;
                    self.state = *pst;
                    if *p < *self.prec.last().unwrap() {
                        return Err(E::Pred(format!("precpred {p}")));
                    }
                    self.ops(ops)?;
                }
            }
            self.state = lr.back;
            self.sync_back()?;
            k = self.predict(lr.dec)?;
        }
        Ok(())
    }
    fn render(&self, n: usize, o: &mut String) {
        let x = &self.nodes[n];
        o.push_str(&format!("(r{}:{}", x.rule, x.alt));
        for k in &x.kids {
            o.push(' ');
            match k {
                Kid::Node(m) => self.render(*m, o),
                Kid::Leaf { err, tt, text, ix } => {
                    if *err {
                        o.push('!');
                    }
                    o.push_str(if *tt == -1 { "<EOF>" } else { text });
                    if *err {
                        o.push_str(&format!("@{ix}"));
                    }
                }
            }
        }
        o.push(')');
    }
    /// the tree (none if the parser gives up), or how the real parser departed from the model
    pub fn run(&mut self) -> Result<Option<String>, String> {
        let r = self.rule(self.job.start, 0);
        match r {
            Err(E::Stop(s)) => return Err(s),
            Err(E::Bail) => return Ok(None),
            Err(e) => return Err(format!("model error {e:?}")),
            Ok(()) => {}
        }
        if self.used != self.out.len() {
            return Err(format!("the parser came to {} decisions instead of {}", self.out.len(), self.used));
        }
        let mut s = String::new();
        self.render(self.cur, &mut s);
        Ok(Some(s))
    }
}
