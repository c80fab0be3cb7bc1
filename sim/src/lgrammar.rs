//! Lexer grammars: AST, random generation, random text; compilation to a serialised ATN and to
//! the program of the reference matcher.
use crate::grammar::Kind;
use crate::patn::*;
use crate::rt::Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum LE {
    S(Vec<(u32, u32)>, bool),
    Any,
    R(usize),
    Pred(u16),
    /// index into `LGrammar::acts`
    Act(u16),
    Eof,
    B { k: Kind, greedy: bool, alts: Vec<Vec<LE>> },
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cmd {
    Channel(u8),
    Custom(Eff),
    Mode(usize),
    More,
    PopMode,
    PushMode(usize),
    Skip,
    Type(i32),
}
/// what the user code of a custom action does besides recording that it ran
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Eff {
    None,
    SetType(i32),
    SetChannel(u8),
    SetText,
    Skip,
    More,
    Mode(usize),
    Push(usize),
    Pop,
    /// the action supplies the token
    SetToken,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LRule {
    pub alts: Vec<Vec<LE>>,
    pub frag: bool,
    pub mode: usize,
    pub tok: i32,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LGrammar {
    pub alpha: Vec<u32>,
    pub rules: Vec<LRule>,
    pub nmodes: usize,
    pub npred: u16,
    /// (rule, command)
    pub acts: Vec<(usize, Cmd)>,
}
#[derive(Clone, Debug)]
pub struct LOpts {
    pub preds: bool,
    pub actions: bool,
    pub cmds: bool,
    pub modes: bool,
    pub eof: bool,
    pub ascii: bool,
    pub latin: bool,
    pub bmp: bool,
}
impl Default for LOpts {
    fn default() -> Self {
        LOpts { preds: false, actions: true, cmds: true, modes: true, eof: true, ascii: false, latin: false, bmp: false }
    }
}

struct G<'a> {
    r: &'a mut Rng,
    o: LOpts,
    alpha: Vec<u32>,
    nfrag: usize,
    ntok: usize,
    npred: u16,
    acts: Vec<(usize, Cmd)>,
    rule: usize,
    nmodes: usize,
}
impl G<'_> {
    fn ch(&mut self) -> u32 {
        *self.r.pick(&self.alpha)
    }
    fn c1(&mut self) -> LE {
        let c = self.ch();
        LE::S(vec![(c, c)], false)
    }
    fn set(&mut self) -> LE {
        let n = self.r.range(1, 3);
        let mut v: Vec<(u32, u32)> = vec![];
        for _ in 0..n {
            let a = self.ch();
            let b = if self.r.chance(1, 3) { self.ch() } else { a };
            v.push((a.min(b), a.max(b)));
        }
        let not = self.r.chance(1, 4);
        norm(&mut v);
        LE::S(v, not)
    }
    fn term(&mut self) -> LE {
        match self.r.below(8) {
            0 | 1 => self.set(),
            2 => LE::Any,
            _ => self.c1(),
        }
    }
    fn lit(&mut self, n: usize) -> Vec<LE> {
        (0..n).map(|_| self.c1()).collect()
    }
    fn mid(&mut self, v: &mut Vec<LE>) {
        if self.o.actions && self.r.chance(1, 7) {
            let e = self.eff();
            self.acts.push((self.rule, Cmd::Custom(e)));
            v.push(LE::Act(self.acts.len() as u16 - 1));
        }
        if self.o.preds && self.r.chance(1, 6) {
            v.push(LE::Pred(self.npred));
            self.npred += 1;
        }
    }
    fn eff(&mut self) -> Eff {
        match self.r.below(10) {
            0 => Eff::SetType(50 + self.r.below(3) as i32),
            1 => Eff::SetChannel(2 + self.r.below(3) as u8),
            2 => Eff::SetText,
            4 => Eff::SetToken,
            3 if self.r.chance(1, 2) => Eff::Skip,
            5 => match self.r.below(if self.o.modes { 8 } else { 2 }) {
                0 => Eff::More,
                1 => Eff::None,
                2 | 3 => Eff::Mode(self.r.below(self.nmodes)),
                4 | 5 => Eff::Push(self.r.below(self.nmodes)),
                _ => Eff::Pop,
            },
            _ => Eff::None,
        }
    }
    /// random regular expression; `solid`: consumes at least one character
    fn rx(&mut self, depth: u32, solid: bool, top: bool) -> Vec<LE> {
        let mut v = vec![];
        let n = self.r.range(1, if depth == 0 { 4 } else { 2 });
        let at = self.r.below(n);
        for i in 0..n {
            if top {
                self.mid(&mut v);
            }
            if solid && i == at {
                v.push(self.term());
                continue;
            }
            let e = match self.r.below(12) {
                0..=4 => self.term(),
                5 if self.nfrag > 0 => {
                    // a fragment or (rarely) a token rule with a higher number
                    LE::R(self.ntok + self.r.below(self.nfrag))
                }
                6..=11 if depth < 2 => {
                    let k = *self.r.pick(&[Kind::One, Kind::Opt, Kind::Star, Kind::Plus, Kind::Star]);
                    let m = if k == Kind::One { self.r.range(2, 3) } else { self.r.range(1, 2) };
                    let mut alts = vec![];
                    for _ in 0..m {
                        alts.push(self.rx(depth + 1, true, top && self.r.0 & 1 == 0));
                    }
                    let greedy = k == Kind::One || self.r.chance(3, 5);
                    LE::B { k, greedy, alts }
                }
                _ => self.term(),
            };
            v.push(e);
        }
        if top {
            self.mid(&mut v);
        }
        v
    }
    fn cmd(&mut self, mode: usize, nmodes: usize) -> Vec<Cmd> {
        let mut v = vec![];
        if !self.o.cmds {
            return v;
        }
        match self.r.below(12) {
            0 | 1 => v.push(Cmd::Skip),
            2 => v.push(Cmd::Channel(1 + self.r.below(2) as u8)),
            3 => v.push(Cmd::Type(40 + self.r.below(3) as i32)),
            4 => v.push(Cmd::More),
            5 => {
                v.push(Cmd::Type(45));
                v.push(Cmd::Channel(1));
            }
            _ => {}
        }
        if self.o.modes && nmodes > 1 {
            let m = self.r.below(nmodes);
            match self.r.below(10) {
                0 => v.push(Cmd::PushMode(m)),
                1 => v.push(Cmd::Mode(m)),
                2 | 3 if mode > 0 => v.push(Cmd::PopMode),
                4 if mode == 0 => v.push(Cmd::PushMode(m)),
                _ => {}
            }
        }
        if v.len() > 1 && self.r.chance(1, 2) {
            v.swap(0, 1);
        }
        v
    }
}
pub fn norm(v: &mut Vec<(u32, u32)>) {
    v.sort();
    let mut w: Vec<(u32, u32)> = vec![];
    for &(a, b) in v.iter() {
        match w.last_mut() {
            Some(l) if a <= l.1 + 1 => l.1 = l.1.max(b),
            _ => w.push((a, b)),
        }
    }
    *v = w;
}
impl LGrammar {
    pub fn generate(r: &mut Rng, o: &LOpts) -> LGrammar {
        for _ in 0..60 {
            let g = Self::attempt(r, o);
            if g.ok() {
                return g;
            }
        }
        LGrammar {
            alpha: vec![97, 98],
            rules: vec![LRule { alts: vec![vec![LE::S(vec![(97, 97)], false)]], frag: false, mode: 0, tok: 1 }],
            nmodes: 1,
            npred: 0,
            acts: vec![],
        }
    }
    fn attempt(r: &mut Rng, o: &LOpts) -> LGrammar {
        let pool: Vec<u32> = if o.ascii {
            "abc\n\"/*x01".chars().map(|c| c as u32).collect()
        } else if o.latin {
            "abc\n\u{e9}\u{ff}/*x".chars().map(|c| c as u32).collect()
        } else if o.bmp {
            "ab\n\u{e9}\u{6f22}\u{3042}x\u{fffd}".chars().map(|c| c as u32).collect()
        } else {
            "abc\n\u{e9}\u{6f22}\u{1F600}\u{10FFFF}\u{7f}\u{80}x".chars().map(|c| c as u32).collect()
        };
        let na = r.range(2, 5);
        let mut alpha: Vec<u32> = vec![];
        while alpha.len() < na {
            let c = *r.pick(&pool);
            if !alpha.contains(&c) {
                alpha.push(c);
            }
        }
        let nmodes = if o.modes { *r.pick(&[1, 1, 2, 2, 3]) } else { 1 };
        let ntok = r.range(nmodes.max(2), nmodes + 5);
        let nfrag = r.below(3);
        let mut g = G { r, o: o.clone(), alpha: alpha.clone(), nfrag, ntok, npred: 0, acts: vec![], rule: 0, nmodes };
        let mut rules = vec![];
        for i in 0..ntok {
            g.rule = i;
            let mode = if i < nmodes { i } else { g.r.below(nmodes) };
            let na = if g.r.chance(1, 3) { 2 } else { 1 };
            let mut alts = vec![];
            for _ in 0..na {
                let mut a = vec![];
                if g.o.preds && g.r.chance(1, 5) {
                    g.mid(&mut a);
                }
                let body = match g.r.below(12) {
                    0..=2 => {
                        let n = g.r.range(1, 3);
                        g.lit(n)
                    }
                    3 | 4 => {
                        let t = g.set();
                        vec![LE::B { k: Kind::Plus, greedy: g.r.chance(4, 5), alts: vec![vec![t]] }]
                    }
                    5 => {
                        // delimited, non-greedy
                        let nn = g.r.range(1, 2);
                        let mut v = g.lit(nn);
                        let inner = if g.r.chance(1, 3) { vec![vec![g.term()], vec![LE::R(i)]] } else { vec![vec![LE::Any]] };
                        v.push(LE::B { k: *g.r.pick(&[Kind::Star, Kind::Plus]), greedy: false, alts: inner });
                        g.mid(&mut v);
                        if g.o.eof && g.r.chance(1, 4) {
                            let c = g.c1();
                            v.push(LE::B { k: Kind::One, greedy: true, alts: vec![vec![c], vec![LE::Eof]] });
                        } else {
                            let nn = g.r.range(1, 2);
                            v.extend(g.lit(nn));
                        }
                        v
                    }
                    6 => {
                        // nested
                        let mut v = g.lit(1);
                        let t = g.term();
                        let mut inner = vec![vec![LE::R(i)], vec![t]];
                        if g.r.chance(1, 2) {
                            inner.swap(0, 1);
                        }
                        v.push(LE::B { k: Kind::Star, greedy: g.r.chance(1, 2), alts: inner });
                        v.extend(g.lit(1));
                        v
                    }
                    _ => g.rx(0, true, true),
                };
                a.extend(body);
                g.mid(&mut a);
                for c in g.cmd(mode, nmodes) {
                    g.acts.push((i, c));
                    a.push(LE::Act(g.acts.len() as u16 - 1));
                }
                alts.push(a);
            }
            rules.push(LRule { alts, frag: false, mode, tok: i as i32 + 1 });
        }
        for f in 0..nfrag {
            g.rule = ntok + f;
            g.nfrag = 0;
            let na = if g.r.chance(1, 2) { 2 } else { 1 };
            let mut alts = vec![];
            for _ in 0..na {
                let mut x = g.rx(1, true, false);
                if g.o.actions && g.r.chance(1, 8) {
                    // actions of called rules never run
                    g.acts.push((ntok + f, Cmd::Custom(Eff::None)));
                    x.push(LE::Act(g.acts.len() as u16 - 1));
                }
                alts.push(x);
            }
            rules.push(LRule { alts, frag: true, mode: 0, tok: 0 });
        }
        LGrammar { alpha, nmodes, npred: g.npred, acts: g.acts.clone(), rules }
    }
    pub fn ok(&self) -> bool {
        for m in 0..self.nmodes {
            if !self.rules.iter().any(|r| !r.frag && r.mode == m) {
                return false;
            }
        }
        let n = self.rules.len();
        let mut left = vec![vec![false; n]; n];
        for (i, r) in self.rules.iter().enumerate() {
            for a in &r.alts {
                if nullable(a) || !loops(a) || bad_eof(a) {
                    return false;
                }
                corner(a, &mut left[i]);
            }
        }
        for k in 0..n {
            for i in 0..n {
                for j in 0..n {
                    if left[i][k] && left[k][j] {
                        left[i][j] = true;
                    }
                }
            }
        }
        (0..n).all(|i| !left[i][i])
    }
}
// every rule is non-nullable by construction, so a call never derives the empty string
fn le_null(e: &LE) -> bool {
    match e {
        LE::S(..) | LE::Any | LE::R(_) => false,
        LE::Pred(_) | LE::Act(_) | LE::Eof => true,
        LE::B { k, alts, .. } => matches!(k, Kind::Opt | Kind::Star) || alts.iter().any(|a| nullable(a)),
    }
}
pub fn nullable(a: &[LE]) -> bool {
    a.iter().all(le_null)
}
fn loops(a: &[LE]) -> bool {
    a.iter().all(|e| match e {
        LE::B { k, alts, .. } => alts.iter().all(|x| loops(x) && (*k == Kind::One || !nullable(x))),
        _ => true,
    })
}
/// nothing may follow an end-of-file match except actions
fn bad_eof(a: &[LE]) -> bool {
    fn has(e: &LE) -> bool {
        match e {
            LE::Eof => true,
            LE::B { alts, .. } => alts.iter().any(|x| x.iter().any(has)),
            _ => false,
        }
    }
    if let Some(i) = a.iter().position(has) {
        if a[i + 1..].iter().any(|e| !matches!(e, LE::Act(_))) {
            return true;
        }
        if let LE::B { k, alts, .. } = &a[i] {
            return *k != Kind::One || alts.iter().any(|x| bad_eof(x));
        }
    }
    false
}
fn corner(a: &[LE], out: &mut [bool]) {
    for e in a {
        match e {
            LE::R(r) => out[*r] = true,
            LE::B { alts, .. } => alts.iter().for_each(|x| corner(x, out)),
            _ => {}
        }
        if !le_null(e) {
            return;
        }
    }
}

// ---------------------------------------------------------------- text
pub fn text(g: &LGrammar, r: &mut Rng, max: usize) -> Vec<u32> {
    let mut out = vec![];
    let n = if max >= 100 { r.range(1, 150) } else { r.range(1, 6) };
    let toks: Vec<usize> = (0..g.rules.len()).filter(|&i| !g.rules[i].frag).collect();
    for _ in 0..n {
        if out.len() >= max {
            break;
        }
        if r.chance(1, 10) {
            out.push(*r.pick(&g.alpha));
            continue;
        }
        let t = *r.pick(&toks);
        gen_rule(g, r, t, &mut out, 0, max);
    }
    out.truncate(max + 8);
    out
}
fn gen_rule(g: &LGrammar, r: &mut Rng, t: usize, out: &mut Vec<u32>, d: u32, max: usize) {
    let a = r.pick(&g.rules[t].alts).clone();
    gen_seq(g, r, &a, out, d, max);
}
fn in_set(v: &[(u32, u32)], c: u32) -> bool {
    v.iter().any(|&(a, b)| a <= c && c <= b)
}
fn gen_seq(g: &LGrammar, r: &mut Rng, a: &[LE], out: &mut Vec<u32>, d: u32, max: usize) {
    for e in a {
        match e {
            LE::S(v, false) => {
                let (a, b) = *r.pick(v);
                // prefer characters of the alphabet
                let c: Vec<u32> = g.alpha.iter().copied().filter(|&c| a <= c && c <= b).collect();
                let c = if c.is_empty() { a } else { *r.pick(&c) };
                out.push(c);
            }
            LE::S(v, true) => {
                let c: Vec<u32> = g.alpha.iter().copied().filter(|&c| !in_set(v, c)).collect();
                out.push(if c.is_empty() { 'z' as u32 } else { *r.pick(&c) });
            }
            LE::Any => out.push(*r.pick(&g.alpha)),
            LE::R(t) => {
                if d < 4 {
                    gen_rule(g, r, *t, out, d + 1, max)
                }
            }
            LE::Pred(_) | LE::Act(_) | LE::Eof => {}
            LE::B { k, alts, .. } => {
                let mut n = match k {
                    Kind::One => 1,
                    Kind::Opt => r.below(2),
                    Kind::Star => r.below(4),
                    Kind::Plus => 1 + r.below(3),
                };
                if max >= 100 && d < 2 && matches!(k, Kind::Star | Kind::Plus) && r.chance(1, 6) {
                    n += r.below(max);
                }
                for _ in 0..n {
                    if out.len() > max && *k != Kind::One {
                        break;
                    }
                    let a = r.pick(alts).clone();
                    gen_seq(g, r, &a, out, d + 1, max);
                }
            }
        }
    }
}
pub fn corrupt(v: &mut Vec<u32>, alpha: &[u32], r: &mut Rng) -> &'static str {
    let n = v.len();
    let mut c = if r.chance(1, 4) { 'z' as u32 } else { *r.pick(alpha) };
    // just outside of a range
    match r.below(8) {
        0 if c > 0 => c -= 1,
        1 if ![0x7f, 0xff, 0xfffd, 0x10ffff].contains(&c) => c += 1,
        _ => {}
    }
    match r.below(6) {
        0 if n > 0 => {
            v.remove(r.below(n));
            "char_drop"
        }
        1 if n > 0 => {
            let i = r.below(n);
            v.insert(i, v[i]);
            "char_dup"
        }
        2 if n > 0 => {
            let i = r.below(n);
            v[i] = c;
            "char_replace"
        }
        3 if n > 1 => {
            let i = r.below(n - 1);
            v.swap(i, i + 1);
            "char_reorder"
        }
        4 if n > 0 => {
            v.truncate(r.below(n));
            "char_truncate"
        }
        _ => {
            v.insert(r.below(n + 1), c);
            "char_insert"
        }
    }
}

// ---------------------------------------------------------------- compilation
#[derive(Clone, Debug)]
pub enum I {
    Set(Vec<(u32, u32)>, bool),
    Any,
    Eof,
    /// ordered choice; the flag marks a non-greedy decision
    Split(Vec<usize>, bool),
    Call(usize),
    /// end of rule
    Ret(usize),
    Pred(u16),
    Act(u16),
}
#[derive(Clone, Debug)]
pub struct LProg {
    pub g: LGrammar,
    pub code: Vec<(I, usize)>,
    pub rule_pc: Vec<usize>,
    pub atn: String,
}
struct C {
    b: AtnB,
    rule: usize,
    code: Vec<(I, usize)>,
}
/// Reference program and network are produced in one pass: every fragment yields network states
/// (left, right) and code (entry, exit); exit is an instruction whose successor is patched.
impl C {
    fn emit(&mut self, i: I) -> usize {
        self.code.push((i, usize::MAX));
        self.code.len() - 1
    }
    fn nop(&mut self) -> usize {
        self.emit(I::Split(vec![], false))
    }
    fn seq(&mut self, a: &[LE]) -> (usize, usize, usize, usize) {
        let left = self.b.st(BASIC, self.rule);
        let mut cur = left;
        let pc = self.nop();
        let mut last = pc;
        for e in a {
            let (l, r, p, q) = self.el(e);
            self.b.eps(cur, l);
            self.code[last].1 = p;
            cur = r;
            last = q;
        }
        (left, cur, pc, last)
    }
    fn el(&mut self, e: &LE) -> (usize, usize, usize, usize) {
        let rule = self.rule;
        if let LE::B { k, greedy, alts } = e {
            return self.block(*k, *greedy, alts);
        }
        let l = self.b.st(BASIC, rule);
        let r = self.b.st(BASIC, rule);
        let pc = match e {
            LE::S(v, not) => {
                if !*not && v.len() == 1 && v[0].1 < 0xFFFE {
                    if v[0].0 == v[0].1 {
                        self.b.edges.push((l, r, 5, v[0].0 as i32, 0, 0));
                    } else {
                        self.b.edges.push((l, r, 2, v[0].0 as i32, v[0].1 as i32, 0));
                    }
                } else {
                    let s = self.b.set(v);
                    self.b.edges.push((l, r, if *not { 8 } else { 7 }, s as i32, 0, 0));
                }
                self.emit(I::Set(v.clone(), *not))
            }
            LE::Any => {
                self.b.edges.push((l, r, 9, 0, 0, 0));
                self.emit(I::Any)
            }
            LE::Eof => {
                self.b.edges.push((l, r, 5, 0, 0, 1));
                self.emit(I::Eof)
            }
            LE::R(x) => {
                self.b.edges.push((l, r, 3, (2 * *x) as i32, *x as i32, 0));
                self.emit(I::Call(*x))
            }
            LE::Pred(id) => {
                self.b.edges.push((l, r, 4, rule as i32, *id as i32, 0));
                self.emit(I::Pred(*id))
            }
            LE::Act(id) => {
                self.b.edges.push((l, r, 6, rule as i32, *id as i32, 0));
                self.emit(I::Act(*id))
            }
            LE::B { .. } => unreachable!(),
        };
        (l, r, pc, pc)
    }
    fn alts_into(&mut self, start: usize, end: usize, alts: &[Vec<LE>], join: usize) -> Vec<usize> {
        let mut pcs = vec![];
        for a in alts {
            let (l, r, p, q) = self.seq(a);
            self.b.eps(start, l);
            self.b.eps(r, end);
            self.code[q].1 = join;
            pcs.push(p);
        }
        pcs
    }
    fn block(&mut self, k: Kind, greedy: bool, alts: &[Vec<LE>]) -> (usize, usize, usize, usize) {
        let rule = self.rule;
        match k {
            Kind::One if alts.len() == 1 => self.seq(&alts[0]),
            Kind::One | Kind::Opt => {
                let s = self.b.st(BLOCK_START, rule);
                self.b.dec(s);
                let e = self.b.st(BLOCK_END, rule);
                self.b.states[s].2 = e as i32;
                let join = self.nop();
                let mut pcs = vec![];
                if k == Kind::Opt && !greedy {
                    self.b.eps(s, e);
                    self.b.nongreedy.push(s);
                    pcs.push(join);
                }
                pcs.extend(self.alts_into(s, e, alts, join));
                if k == Kind::Opt && greedy {
                    self.b.eps(s, e);
                    pcs.push(join);
                }
                let pc = self.emit(I::Split(pcs, k == Kind::Opt && !greedy));
                (s, e, pc, join)
            }
            Kind::Star => {
                let entry = self.b.st(STAR_LOOP_ENTRY, rule);
                let s = self.b.st(STAR_BLOCK_START, rule);
                if alts.len() > 1 {
                    self.b.dec(s);
                }
                self.b.dec(entry);
                let e = self.b.st(BLOCK_END, rule);
                self.b.states[s].2 = e as i32;
                let back = self.b.st(STAR_LOOP_BACK, rule);
                let end = self.b.st(LOOP_END, rule);
                self.b.states[end].2 = back as i32;
                if greedy {
                    self.b.eps(entry, s);
                    self.b.eps(entry, end);
                } else {
                    self.b.eps(entry, end);
                    self.b.eps(entry, s);
                    self.b.nongreedy.push(entry);
                }
                let head = self.emit(I::Split(vec![], !greedy));
                let exit = self.nop();
                let pcs = self.alts_into(s, e, alts, head);
                let body = self.emit(I::Split(pcs, false));
                self.b.eps(e, back);
                self.b.eps(back, entry);
                self.code[head].0 = I::Split(if greedy { vec![body, exit] } else { vec![exit, body] }, !greedy);
                (entry, end, head, exit)
            }
            Kind::Plus => {
                let s = self.b.st(PLUS_BLOCK_START, rule);
                if alts.len() > 1 {
                    self.b.dec(s);
                }
                let e = self.b.st(BLOCK_END, rule);
                self.b.states[s].2 = e as i32;
                let back = self.b.st(PLUS_LOOP_BACK, rule);
                self.b.dec(back);
                let end = self.b.st(LOOP_END, rule);
                self.b.states[end].2 = back as i32;
                let test = self.emit(I::Split(vec![], !greedy));
                let exit = self.nop();
                let pcs = self.alts_into(s, e, alts, test);
                let body = self.emit(I::Split(pcs, false));
                self.b.eps(e, back);
                if greedy {
                    self.b.eps(back, s);
                    self.b.eps(back, end);
                } else {
                    self.b.eps(back, end);
                    self.b.eps(back, s);
                    self.b.nongreedy.push(back);
                }
                self.code[test].0 = I::Split(if greedy { vec![body, exit] } else { vec![exit, body] }, !greedy);
                (s, end, body, exit)
            }
        }
    }
}
pub fn compile(g: &LGrammar) -> LProg {
    let mut c = C { b: AtnB { lexer: true, ..Default::default() }, rule: 0, code: vec![] };
    for i in 0..g.rules.len() {
        let s = c.b.st(RULE_START, i);
        c.b.st(RULE_STOP, i);
        c.b.rules.push((s, g.rules[i].tok));
    }
    // one tokens-start state per mode; they are the first decisions
    for _ in 0..g.nmodes {
        let s = c.b.st(TOKEN_START, 0xFFFF);
        c.b.modes.push(s);
        c.b.dec(s);
    }
    let mut rule_pc = vec![];
    for (i, r) in g.rules.iter().enumerate() {
        c.rule = i;
        let stop = c.emit(I::Ret(i));
        let (start, end) = (2 * i, 2 * i + 1);
        if r.alts.len() == 1 {
            let (l, rr, p, q) = c.seq(&r.alts[0]);
            c.b.eps(start, l);
            c.b.eps(rr, end);
            c.code[q].1 = stop;
            rule_pc.push(p);
        } else {
            let (l, rr, p, q) = c.block(Kind::One, true, &r.alts);
            c.b.eps(start, l);
            c.b.eps(rr, end);
            c.code[q].1 = stop;
            rule_pc.push(p);
        }
    }
    for m in 0..g.nmodes {
        for (i, r) in g.rules.iter().enumerate() {
            if !r.frag && r.mode == m {
                let s = c.b.modes[m];
                c.b.eps(s, 2 * i);
            }
        }
    }
    for (i, &(rule, a)) in g.acts.iter().enumerate() {
        c.b.actions.push(match a {
            Cmd::Channel(x) => (0, x as i32, 0),
            Cmd::Custom(_) => (1, rule as i32, i as i32),
            Cmd::Mode(m) => (2, m as i32, 0),
            Cmd::More => (3, 0, 0),
            Cmd::PopMode => (4, 0, 0),
            Cmd::PushMode(m) => (5, m as i32, 0),
            Cmd::Skip => (6, 0, 0),
            Cmd::Type(t) => (7, t, 0),
        });
    }
    c.b.max_tok = g.rules.len() as i32 + 60;
    let atn = c.b.serialize();
    LProg { g: g.clone(), code: c.code, rule_pc, atn }
}
