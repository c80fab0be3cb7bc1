//! Compiles a parser grammar to a serialised ATN (the form the ANTLR tool emits) and to the
//! program a generated parser would execute, as data.
use crate::grammar::*;

#[derive(Default)]
pub struct AtnB {
    /// (type, rule, extra)
    pub states: Vec<(i32, i32, i32)>,
    pub edges: Vec<(usize, usize, i32, i32, i32, i32)>,
    pub sets: Vec<Vec<(u32, u32)>>,
    pub decisions: Vec<usize>,
    pub nongreedy: Vec<usize>,
    pub precedence: Vec<usize>,
    pub rules: Vec<(usize, i32)>,
    pub modes: Vec<usize>,
    pub actions: Vec<(i32, i32, i32)>,
    pub lexer: bool,
    pub max_tok: i32,
}
/// in a set: the end of the input
const EOF: (u32, u32) = (u32::MAX, u32::MAX);
pub const BASIC: i32 = 1;
pub const RULE_START: i32 = 2;
pub const BLOCK_START: i32 = 3;
pub const PLUS_BLOCK_START: i32 = 4;
pub const STAR_BLOCK_START: i32 = 5;
pub const TOKEN_START: i32 = 6;
pub const RULE_STOP: i32 = 7;
pub const BLOCK_END: i32 = 8;
pub const STAR_LOOP_BACK: i32 = 9;
pub const STAR_LOOP_ENTRY: i32 = 10;
pub const PLUS_LOOP_BACK: i32 = 11;
pub const LOOP_END: i32 = 12;

impl AtnB {
    pub fn st(&mut self, ty: i32, rule: usize) -> usize {
        self.states.push((ty, rule as i32, 0));
        self.states.len() - 1
    }
    pub fn eps(&mut self, a: usize, b: usize) {
        self.edges.push((a, b, 1, 0, 0, 0));
    }
    pub fn dec(&mut self, s: usize) -> usize {
        self.decisions.push(s);
        self.decisions.len() - 1
    }
    pub fn set(&mut self, v: &[(u32, u32)]) -> usize {
        if let Some(i) = self.sets.iter().position(|x| x == v) {
            return i;
        }
        self.sets.push(v.to_vec());
        self.sets.len() - 1
    }
    /// the serialised string
    pub fn serialize(&self) -> String {
        let mut o: Vec<u32> = vec![];
        let hdr = "\u{3}\u{608b}\u{a72a}\u{8133}\u{b9ed}\u{417c}\u{3be7}\u{7786}\u{5964}";
        let mut p = |x: i64| o.push((x & 0xFFFF) as u32);
        p(if self.lexer { 0 } else { 1 });
        p(self.max_tok as i64);
        p(self.states.len() as i64);
        for &(t, r, e) in &self.states {
            p(t as i64);
            p(r as i64);
            if matches!(t, BLOCK_START | PLUS_BLOCK_START | STAR_BLOCK_START | LOOP_END) {
                p(e as i64);
            }
        }
        p(self.nongreedy.len() as i64);
        for &s in &self.nongreedy {
            p(s as i64);
        }
        p(self.precedence.len() as i64);
        for &s in &self.precedence {
            p(s as i64);
        }
        p(self.rules.len() as i64);
        for &(s, t) in &self.rules {
            p(s as i64);
            if self.lexer {
                p(t as i64);
            }
        }
        p(self.modes.len() as i64);
        for &m in &self.modes {
            p(m as i64);
        }
        // 16-bit sets first, then the ones that need 32 bits
        let small: Vec<usize> = (0..self.sets.len()).filter(|&i| self.sets[i].iter().all(|x| x.1 <= 0xFFFF || *x == EOF)).collect();
        let big: Vec<usize> = (0..self.sets.len()).filter(|i| !small.contains(i)).collect();
        let mut order = vec![0; self.sets.len()];
        for (k, &i) in small.iter().chain(big.iter()).enumerate() {
            order[i] = k;
        }
        p(small.len() as i64);
        for &i in &small {
            let eof = self.sets[i].contains(&EOF) as i64;
            p(self.sets[i].len() as i64 - eof);
            p(eof);
            for &(a, b) in self.sets[i].iter().filter(|x| **x != EOF) {
                p(a as i64);
                p(b as i64);
            }
        }
        p(big.len() as i64);
        for &i in &big {
            let eof = self.sets[i].contains(&EOF) as i64;
            p(self.sets[i].len() as i64 - eof);
            p(eof);
            for &(a, b) in self.sets[i].iter().filter(|x| **x != EOF) {
                p((a & 0xFFFF) as i64);
                p((a >> 16) as i64);
                p((b & 0xFFFF) as i64);
                p((b >> 16) as i64);
            }
        }
        p(self.edges.len() as i64);
        for &(s, t, ty, a1, a2, a3) in &self.edges {
            let a1 = if ty == 7 || ty == 8 { order[a1 as usize] as i32 } else { a1 };
            for x in [s as i64, t as i64, ty as i64, a1 as i64, a2 as i64, a3 as i64] {
                p(x);
            }
        }
        p(self.decisions.len() as i64);
        for &d in &self.decisions {
            p(d as i64);
        }
        if self.lexer {
            p(self.actions.len() as i64);
            for &(t, a, b) in &self.actions {
                p(t as i64);
                p(a as i64);
                p(b as i64);
            }
        }
        let mut s = String::from(hdr);
        for v in o {
            let c = (v + 2) & 0xFFFF;
            let c = if (0xD800..0xE000).contains(&c) { c + 0x3000 } else { c };
            s.push(char::from_u32(c).unwrap());
        }
        s
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Tok { st: usize, t: i32 },
    Set { st: usize, v: Vec<(i32, i32)>, not: bool },
    Any { st: usize },
    Rule { st: usize, rule: usize, prec: i32 },
    Pred { st: usize, id: u16 },
    Act { st: usize, id: u16 },
    Alts { st: usize, dec: usize, alts: Vec<Vec<Op>> },
    Opt { st: usize, dec: usize, exit_first: bool, alts: Vec<Vec<Op>> },
    Star { st: usize, dec: usize, back: usize, exit_first: bool, blk: Option<(usize, usize)>, alts: Vec<Vec<Op>> },
    Plus { st: usize, blk: Option<usize>, back: usize, dec: usize, exit_first: bool, alts: Vec<Vec<Op>> },
}
#[derive(Clone, Debug)]
pub struct Ll1 {
    /// tokens of each alternative
    pub sets: Vec<std::collections::BTreeSet<i32>>,
    /// alternative for any other token, or none
    pub other: Option<usize>,
}
#[derive(Clone, Debug)]
pub struct LrProg {
    /// (alt number in the grammar, ops); block decision if more than one
    pub prim: Vec<(usize, Vec<Op>)>,
    pub prim_dec: Option<(usize, usize)>,
    pub entry: usize,
    pub dec: usize,
    pub back: usize,
    pub blk: Option<(usize, usize)>,
    /// (alt number, state of the precedence predicate, precedence, ops)
    pub ops: Vec<(usize, usize, i32, Vec<Op>)>,
}
#[derive(Clone, Debug)]
pub struct RuleProg {
    pub start: usize,
    pub stop: usize,
    pub labelled: bool,
    pub dec: Option<(usize, usize)>,
    pub alts: Vec<Vec<Op>>,
    pub lr: Option<LrProg>,
}
#[derive(Clone, Debug)]
pub struct Prog {
    pub rules: Vec<RuleProg>,
    /// by decision: what a generated parser that looks at one token only tests, if one is enough
    pub ll1: Vec<Option<Ll1>>,
    pub atn: String,
    pub ndec: usize,
    pub names: Vec<String>,
}

struct C {
    b: AtnB,
    rule: usize,
    /// decisions one token may suffice for, and their alternative for other tokens
    one: Vec<(usize, Option<usize>)>,
}
impl C {
    fn seq(&mut self, a: &[El], lr_prec: Option<(usize, i32)>) -> (usize, usize, Vec<Op>) {
        // lr_prec: (self rule, precedence of the right-most self reference)
        let left = self.b.st(BASIC, self.rule);
        let mut cur = left;
        let mut ops = vec![];
        for (i, e) in a.iter().enumerate() {
            let prec = match (e, lr_prec) {
                (El::R(r), Some((me, p))) if *r == me && i + 1 == a.len() => p,
                _ => 0,
            };
            let (l, r, op) = self.el(e, prec);
            self.b.eps(cur, l);
            cur = r;
            ops.extend(op);
        }
        if a.is_empty() {
            let r = self.b.st(BASIC, self.rule);
            self.b.eps(cur, r);
            cur = r;
        }
        (left, cur, ops)
    }
    fn el(&mut self, e: &El, prec: i32) -> (usize, usize, Vec<Op>) {
        let rule = self.rule;
        match e {
            El::T(t) => {
                let l = self.b.st(BASIC, rule);
                let r = self.b.st(BASIC, rule);
                if *t == -1 {
                    self.b.edges.push((l, r, 5, 0, 0, 1));
                } else {
                    self.b.edges.push((l, r, 5, *t, 0, 0));
                }
                (l, r, vec![Op::Tok { st: l, t: *t }])
            }
            El::S(v, not) => {
                let l = self.b.st(BASIC, rule);
                let r = self.b.st(BASIC, rule);
                if !*not && v.len() == 1 && v[0].0 > 0 {
                    self.b.edges.push((l, r, 2, v[0].0, v[0].1, 0));
                } else {
                    let vv: Vec<(u32, u32)> = v.iter().map(|x| (x.0 as u32, x.1 as u32)).collect();
                    let s = self.b.set(&vv);
                    self.b.edges.push((l, r, if *not { 8 } else { 7 }, s as i32, 0, 0));
                }
                (l, r, vec![Op::Set { st: l, v: v.clone(), not: *not }])
            }
            El::Any => {
                let l = self.b.st(BASIC, rule);
                let r = self.b.st(BASIC, rule);
                self.b.edges.push((l, r, 9, 0, 0, 0));
                (l, r, vec![Op::Any { st: l }])
            }
            El::R(x) => {
                let l = self.b.st(BASIC, rule);
                let r = self.b.st(BASIC, rule);
                // rule start states are allocated first: state 2*x
                self.b.edges.push((l, r, 3, (2 * *x) as i32, *x as i32, prec));
                (l, r, vec![Op::Rule { st: l, rule: *x, prec }])
            }
            El::Pred(id) => {
                let l = self.b.st(BASIC, rule);
                let r = self.b.st(BASIC, rule);
                self.b.edges.push((l, r, 4, rule as i32, *id as i32, crate::pdrive::ctx_dependent(*id) as i32));
                (l, r, vec![Op::Pred { st: l, id: *id }])
            }
            El::Act(id) => {
                let l = self.b.st(BASIC, rule);
                let r = self.b.st(BASIC, rule);
                self.b.edges.push((l, r, 6, rule as i32, *id as i32, 0));
                (l, r, vec![Op::Act { st: l, id: *id }])
            }
            El::B { k, greedy, alts } => self.block(*k, *greedy, alts),
        }
    }
    /// alternatives between a start and an end state
    fn alts_into(&mut self, start: usize, end: usize, alts: &[Vec<El>]) -> Vec<Vec<Op>> {
        let mut out = vec![];
        for a in alts {
            let (l, r, op) = self.seq(a, None);
            self.b.eps(start, l);
            self.b.eps(r, end);
            out.push(op);
        }
        out
    }
    fn block(&mut self, k: Kind, greedy: bool, alts: &[Vec<El>]) -> (usize, usize, Vec<Op>) {
        let rule = self.rule;
        match k {
            Kind::One if alts.len() == 1 => self.seq(&alts[0], None),
            Kind::One => {
                let s = self.b.st(BLOCK_START, rule);
                let dec = self.b.dec(s);
                self.one.push((dec, None));
                let e = self.b.st(BLOCK_END, rule);
                self.b.states[s].2 = e as i32;
                let a = self.alts_into(s, e, alts);
                (s, e, vec![Op::Alts { st: s, dec, alts: a }])
            }
            Kind::Opt => {
                let s = self.b.st(BLOCK_START, rule);
                let dec = self.b.dec(s);
                let e = self.b.st(BLOCK_END, rule);
                self.b.states[s].2 = e as i32;
                if !greedy {
                    self.b.eps(s, e);
                    self.b.nongreedy.push(s);
                }
                let a = self.alts_into(s, e, alts);
                if greedy {
                    self.b.eps(s, e);
                    self.one.push((dec, Some(alts.len() + 1)));
                }
                (s, e, vec![Op::Opt { st: s, dec, exit_first: !greedy, alts: a }])
            }
            Kind::Star => {
                let entry = self.b.st(STAR_LOOP_ENTRY, rule);
                let s = self.b.st(STAR_BLOCK_START, rule);
                // the tool numbers the inner block's decision before the loop's
                let blk = if alts.len() > 1 { Some((s, self.b.dec(s))) } else { None };
                let dec = self.b.dec(entry);
                self.one.extend(blk.map(|b| (b.1, None)));
                if greedy {
                    self.one.push((dec, Some(2)));
                }
                let e = self.b.st(BLOCK_END, rule);
                self.b.states[s].2 = e as i32;
                let back = self.b.st(STAR_LOOP_BACK, rule);
                let end = self.b.st(LOOP_END, rule);
                self.b.states[end].2 = back as i32;
                if greedy {
                    self.b.eps(entry, s);
                    self.b.eps(entry, end);
                } else {
                    self.b.eps(entry, end);
                    self.b.eps(entry, s);
                    self.b.nongreedy.push(entry);
                }
                let a = self.alts_into(s, e, alts);
                self.b.eps(e, back);
                self.b.eps(back, entry);
                (entry, end, vec![Op::Star { st: entry, dec, back, exit_first: !greedy, blk, alts: a }])
            }
            Kind::Plus => {
                let s = self.b.st(PLUS_BLOCK_START, rule);
                let blk = if alts.len() > 1 { Some(self.b.dec(s)) } else { None };
                let e = self.b.st(BLOCK_END, rule);
                self.b.states[s].2 = e as i32;
                let back = self.b.st(PLUS_LOOP_BACK, rule);
                let dec = self.b.dec(back);
                self.one.extend(blk.map(|b| (b, None)));
                if greedy {
                    self.one.push((dec, Some(2)));
                }
                let end = self.b.st(LOOP_END, rule);
                self.b.states[end].2 = back as i32;
                let a = self.alts_into(s, e, alts);
                self.b.eps(e, back);
                if greedy {
                    self.b.eps(back, s);
                    self.b.eps(back, end);
                } else {
                    self.b.eps(back, end);
                    self.b.eps(back, s);
                    self.b.nongreedy.push(back);
                }
                (s, end, vec![Op::Plus { st: s, blk, back, dec, exit_first: !greedy, alts: a }])
            }
        }
    }
    fn rule(&mut self, i: usize, r: &Rule) -> RuleProg {
        self.rule = i;
        let (start, stop) = (2 * i, 2 * i + 1);
        if r.lr.is_empty() {
            if r.alts.len() == 1 {
                let (l, e, ops) = self.seq(&r.alts[0], None);
                self.b.eps(start, l);
                self.b.eps(e, stop);
                return RuleProg { start, stop, labelled: r.labelled, dec: None, alts: vec![ops], lr: None };
            }
            let s = self.b.st(BLOCK_START, i);
            let dec = self.b.dec(s);
            self.one.push((dec, None));
            let e = self.b.st(BLOCK_END, i);
            self.b.states[s].2 = e as i32;
            self.b.eps(start, s);
            self.b.eps(e, stop);
            let alts = self.alts_into(s, e, &r.alts);
            return RuleProg { start, stop, labelled: r.labelled, dec: Some((s, dec)), alts, lr: None };
        }
        self.b.precedence.push(start);
        let n = r.lr.len() as i32;
        let prec_of = |alt: usize| n - alt as i32; // alt is 0-based: precedence n - (alt+1) + 1
        let mut prim_src: Vec<(usize, Vec<El>, Option<(usize, i32)>)> = vec![];
        let mut op_src: Vec<(usize, i32, Vec<El>, Option<(usize, i32)>)> = vec![];
        for (k, l) in r.lr.iter().enumerate() {
            let p = prec_of(k);
            match l {
                LrAlt::Primary(a) => prim_src.push((k + 1, a.clone(), None)),
                LrAlt::Prefix(t) => prim_src.push((k + 1, vec![El::T(*t), El::R(i)], Some((i, p)))),
                LrAlt::Binary { op, right } => {
                    let o = if op.len() == 1 {
                        El::T(op[0])
                    } else {
                        let mut v: Vec<i32> = op.clone();
                        v.sort();
                        El::S(v.iter().map(|&t| (t, t)).collect(), false)
                    };
                    op_src.push((k + 1, p, vec![o, El::R(i)], Some((i, if *right { p } else { p + 1 }))));
                }
                LrAlt::Ternary { a, b, right } => op_src.push((
                    k + 1,
                    p,
                    vec![El::T(*a), El::R(i), El::T(*b), El::R(i)],
                    Some((i, if *right { p } else { p + 1 })),
                )),
                LrAlt::Suffix(a) => op_src.push((k + 1, p, a.clone(), None)),
            }
        }
        // primary block
        let (pl, pe, prim, prim_dec);
        if prim_src.len() == 1 {
            let (l, e, ops) = self.seq(&prim_src[0].1, prim_src[0].2);
            pl = l;
            pe = e;
            prim = vec![(prim_src[0].0, ops)];
            prim_dec = None;
        } else {
            let s = self.b.st(BLOCK_START, i);
            let dec = self.b.dec(s);
            self.one.push((dec, None));
            let e = self.b.st(BLOCK_END, i);
            self.b.states[s].2 = e as i32;
            let mut v = vec![];
            for (alt, els, lp) in &prim_src {
                let (l, r2, ops) = self.seq(els, *lp);
                self.b.eps(s, l);
                self.b.eps(r2, e);
                v.push((*alt, ops));
            }
            pl = s;
            pe = e;
            prim = v;
            prim_dec = Some((s, dec));
        }
        self.b.eps(start, pl);
        let entry = self.b.st(STAR_LOOP_ENTRY, i);
        let s = self.b.st(STAR_BLOCK_START, i);
        let blk = if op_src.len() > 1 { Some((s, self.b.dec(s))) } else { None };
        let dec = self.b.dec(entry);
        let e = self.b.st(BLOCK_END, i);
        self.b.states[s].2 = e as i32;
        let back = self.b.st(STAR_LOOP_BACK, i);
        let end = self.b.st(LOOP_END, i);
        self.b.states[end].2 = back as i32;
        self.b.eps(pe, entry);
        self.b.eps(entry, s);
        self.b.eps(entry, end);
        let mut ops = vec![];
        for (alt, p, els, lp) in &op_src {
            let pst = self.b.st(BASIC, i);
            let (l, r2, o) = self.seq(els, *lp);
            self.b.eps(s, pst);
            self.b.edges.push((pst, l, 10, *p, 0, 0));
            self.b.eps(r2, e);
            ops.push((*alt, pst, *p, o));
        }
        self.b.eps(e, back);
        self.b.eps(back, entry);
        self.b.eps(end, stop);
        RuleProg {
            start,
            stop,
            labelled: r.labelled,
            dec: None,
            alts: vec![],
            lr: Some(LrProg { prim, prim_dec, entry, dec, back, blk, ops }),
        }
    }
}
/// tokens that can be next, by the whole grammar's follow sets; None if a predicate is in the way
struct Next<'a> {
    b: &'a AtnB,
    out: Vec<Vec<usize>>,
    set: std::collections::BTreeSet<i32>,
    busy: std::collections::HashSet<(usize, Vec<usize>)>,
    called: Vec<usize>,
    pred: bool,
}
impl<'a> Next<'a> {
    fn go(&mut self, s: usize, stack: &mut Vec<usize>) {
        if self.pred || !self.busy.insert((s, stack.clone())) {
            return;
        }
        if self.busy.len() > 20_000 {
            self.pred = true;
            return;
        }
        let (ty, rule, _) = self.b.states[s];
        if ty == RULE_STOP {
            if let Some(f) = stack.pop() {
                let was = self.called.iter().position(|&c| c == rule as usize);
                let saved = self.called.clone();
                if let Some(k) = was {
                    self.called.remove(k);
                }
                self.go(f, stack);
                self.called = saved;
                stack.push(f);
            } else {
                let after: Vec<usize> =
                    self.b.edges.iter().filter(|e| e.2 == 3 && e.4 == rule).map(|e| e.1).collect();
                if after.is_empty() {
                    // a rule nobody calls is followed by the end of the input
                    self.set.insert(-1);
                }
                for f in after {
                    self.go(f, stack);
                }
            }
            return;
        }
        for e in self.out[s].clone() {
            let (_, trg, t, a1, a2, a3) = self.b.edges[e];
            match t {
                1 | 6 => self.go(trg, stack),
                4 | 10 => self.pred = true,
                3 => {
                    let r = a2 as usize;
                    if !self.called.contains(&r) {
                        self.called.push(r);
                        stack.push(trg);
                        self.go(a1 as usize, stack);
                        stack.pop();
                        self.called.pop();
                    }
                }
                5 => {
                    self.set.insert(if a3 == 1 { -1 } else { a1 });
                }
                2 => self.set.extend(a1..=a2),
                9 => self.set.extend(1..=self.b.max_tok),
                7 | 8 => {
                    let v = &self.b.sets[a1 as usize];
                    let hit = |x: i32| v.iter().any(|&(a, b)| a as i32 <= x && x <= b as i32);
                    if hit(-1) && t == 7 {
                        self.set.insert(-1);
                    }
                    self.set.extend((1..=self.b.max_tok).filter(|&x| hit(x) == (t == 7)));
                }
                _ => unreachable!(),
            }
        }
    }
}
fn one_token(b: &AtnB, dec: usize, other: Option<usize>) -> Option<Ll1> {
    let mut out = vec![vec![]; b.states.len()];
    for (i, e) in b.edges.iter().enumerate() {
        out[e.0].push(i);
    }
    let mut sets: Vec<std::collections::BTreeSet<i32>> = vec![];
    for &e in &out[b.decisions[dec]] {
        let mut n =
            Next { b, out: out.clone(), set: Default::default(), busy: Default::default(), called: vec![], pred: false };
        n.go(b.edges[e].1, &mut vec![]);
        if n.pred || n.set.is_empty() || sets.iter().any(|s| !s.is_disjoint(&n.set)) {
            return None;
        }
        sets.push(n.set);
    }
    Some(Ll1 { sets, other })
}
pub fn compile(g: &Grammar) -> Prog {
    let mut c = C { b: AtnB { max_tok: g.ntok, ..Default::default() }, rule: 0, one: vec![] };
    for i in 0..g.rules.len() {
        let s = c.b.st(RULE_START, i);
        c.b.st(RULE_STOP, i);
        c.b.rules.push((s, 0));
    }
    let rules = g.rules.iter().enumerate().map(|(i, r)| c.rule(i, r)).collect();
    let mut ll1 = vec![None; c.b.decisions.len()];
    if g.ll1 {
        for (d, other) in &c.one {
            ll1[*d] = one_token(&c.b, *d, *other);
        }
    }
    Prog {
        rules,
        ll1,
        atn: c.b.serialize(),
        ndec: c.b.decisions.len(),
        names: (0..g.rules.len()).map(|i| format!("r{i}")).collect(),
    }
}
