//! Histories of operations on the real streams, checked step by step against a list with a cursor.
use crate::ldrive::{to_string, Rep, SimChars};
use crate::rt::Rng;
use crate::streams::*;
use antlr_rust::char_stream::CharStream;
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::int_stream::IntStream;
use antlr_rust::token::Token;
use antlr_rust::token_stream::{TokenStream, UnbufferedTokenStream};
use antlr_rust::InputStream;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sel {
    Common(u8),
    Buffered,
    Unbuffered,
    Chars(Rep),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum SOp {
    Consume,
    La(i32),
    Lt(i32),
    Seek(u32),
    Mark,
    Release,
    Get(u32),
    Size,
    Text(u32, u32),
    AllText,
    Index,
    Reset,
    /// take n items from the iterator
    Iter(u32),
    TokIter(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct OpsPlan {
    pub sel: Sel,
    pub toks: Vec<TokSpec>,
    pub text: Vec<u32>,
    pub ops: Vec<SOp>,
    /// the source says end-of-file only once and then goes on with garbage
    pub garbage: bool,
}

pub fn gen(sel: Sel, r: &mut Rng) -> OpsPlan {
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2 if r.chance(1, 20) => r.range(250, 600),
        2 => r.range(20, 60),
        _ => r.range(2, 14),
    };
    let mut toks = vec![];
    let mut text = vec![];
    match sel {
        Sel::Chars(rep) => {
            let pool: Vec<u32> = match rep {
                Rep::U8 => vec![97, 98, 10, 0xe9, 0xff, 0, 0x7f, 0x80],
                Rep::U16 => vec![97, 98, 10, 0xe9, 0x6f22, 0xfffd, 0, 0x80],
                _ => vec![97, 98, 10, 0xe9, 0x6f22, 0x1F600, 0x10FFFF, 0, 0x7f, 0x80, 0x7ff, 0x800, 0xffff],
            };
            for _ in 0..n {
                text.push(*r.pick(&pool));
            }
        }
        _ => {
            let hid = r.below(4);
            for _ in 0..n {
                let ch = if r.below(4) < hid { 1 + r.below(2) as u8 } else { 0 };
                toks.push(TokSpec { t: 1 + r.below(5) as i32, ch });
            }
        }
    }
    let m = if n > 200 { r.range(100, 900) } else { r.range(5, 80) };
    let mut ops = vec![];
    // weight consume differently from run to run
    let wc = r.range(1, 6);
    for _ in 0..m {
        let k = r.below(14 + wc);
        ops.push(match k {
            0 => SOp::La(r.range(1, 3) as i32),
            1 => SOp::La(-(r.range(1, 3) as i32)),
            2 => SOp::Lt(r.range(1, 6) as i32),
            3 => SOp::Lt(-(r.range(1, 3) as i32)),
            4 => SOp::Seek(r.next() as u32),
            5 => SOp::Mark,
            6 => SOp::Release,
            7 => SOp::Get(r.next() as u32),
            8 => SOp::Size,
            9 => SOp::Text(r.next() as u32, r.next() as u32),
            10 if r.chance(1, 2) => SOp::AllText,
            11 => SOp::Index,
            12 if r.chance(1, 3) => SOp::Reset,
            13 if r.chance(1, 3) => {
                if r.chance(1, 2) {
                    SOp::Iter(r.range(1, 5) as u32)
                } else {
                    SOp::TokIter(r.range(1, 5) as u32)
                }
            }
            _ => SOp::Consume,
        });
    }
    OpsPlan { sel, toks, text, ops, garbage: r.chance(1, 4) }
}

struct Garbage {
    inner: ListSource,
    n: usize,
}
impl antlr_rust::TokenSource<'static> for Garbage {
    type TF = SimTF;
    fn next_token(&mut self) -> Tok {
        let t = self.inner.next_token();
        self.n += 1;
        if self.n > self.inner.toks.len() + 1 {
            t.set_token_index(0);
            let mut t = t;
            t.token_type = 3;
            return t;
        }
        t
    }
    fn get_input_stream(&mut self) -> Option<&mut dyn IntStream> {
        None
    }
    fn get_source_name(&self) -> String {
        "garbage".into()
    }
    fn get_token_factory(&self) -> &'static SimTF {
        &SIM_TF
    }
}

enum S {
    C(CommonTokenStream<'static, Src>),
    U(UnbufferedTokenStream<'static, Src>),
}
macro_rules! s {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            S::C($x) => $e,
            S::U($x) => $e,
        }
    };
}

/// number of operations that did something, or the first disagreement
pub fn exec(p: &OpsPlan) -> Result<usize, String> {
    match p.sel {
        Sel::Chars(rep) => chars(p, rep),
        _ => tokens(p),
    }
}

fn tokens(p: &OpsPlan) -> Result<usize, String> {
    let asked = Rc::new(RefCell::new(0usize));
    let list = ListSource { toks: Rc::new(p.toks.clone()), i: 0, asked: asked.clone() };
    let src = if p.garbage { Src::Lex(Box::new(Garbage { inner: list, n: 0 })) } else { Src::List(list) };
    let mut l: Vec<(i32, u8)> = p.toks.iter().map(|t| (t.t, t.ch)).collect();
    l.push((-1, 0));
    let eof = l.len() - 1;
    let chan = match p.sel {
        Sel::Common(c) => Some(c),
        _ => None,
    };
    let next_on = |mut i: usize| {
        while i < eof && chan.map_or(false, |c| l[i].1 != c) {
            i += 1;
        }
        i.min(eof)
    };
    let prev_on = |i: usize| (0..i).rev().find(|&j| chan.map_or(true, |c| l[j].1 == c));
    let mut st = match p.sel {
        Sel::Common(0) => S::C(CommonTokenStream::new(src)),
        Sel::Common(c) => S::C(CommonTokenStream::with_channel(src, c as isize)),
        Sel::Buffered => S::U(UnbufferedTokenStream::new_buffered(src)),
        _ => S::U(UnbufferedTokenStream::new_unbuffered(src)),
    };
    let common = chan.is_some();
    let mut c = next_on(0);
    let mut need: isize = if common { c as isize } else { -1 };
    let mut visited = vec![c];
    // (token, position) of open marks; the buffered kind keeps everything
    let mut marks: Vec<(isize, usize)> = vec![];
    let mut did = 0;
    let mut log: Vec<String> = vec![];
    macro_rules! want {
        ($what:expr, $got:expr, $exp:expr) => {{
            let (g, e) = ($got, $exp);
            log.push(format!("{}={:?}", $what, g));
            if g != e {
                return Err(format!("{}: got {:?}, a list with a cursor gives {:?}; history {}", $what, g, e, log.join(" ")));
            }
        }};
    }
    for op in &p.ops {
        let lo = if common || p.sel == Sel::Buffered { 0 } else { marks.first().map_or(c, |m| m.1) };
        let fetched = *asked.borrow();
        match *op {
            SOp::Consume => {
                if c == eof {
                    continue;
                }
                s!(&mut st, x => x.consume());
                log.push("consume".into());
                c = next_on(c + 1);
                visited.push(c);
                need = need.max(c as isize);
            }
            SOp::La(k) | SOp::Lt(k) => {
                let pos = if k > 0 {
                    let mut i = c;
                    for _ in 1..k {
                        if i < eof {
                            i = next_on(i + 1);
                        }
                    }
                    need = need.max(i as isize);
                    Some(i)
                } else {
                    if !common && k != -1 {
                        continue;
                    }
                    let mut i = Some(c);
                    for _ in 0..-k {
                        i = i.and_then(prev_on);
                    }
                    i
                };
                if let SOp::La(_) = op {
                    let exp = pos.map_or(0, |i| l[i].0 as isize);
                    let got = s!(&mut st, x => x.la(k as isize));
                    want!(format!("la({k})"), got, exp);
                } else {
                    let exp = pos.map(|i| (l[i].0 as isize, i as isize, l[i].1 as isize));
                    let got = s!(&mut st, x => x.lt(k as isize).map(|t| (t.get_token_type(), t.get_token_index(), t.get_channel())));
                    want!(format!("lt({k})"), got, exp);
                }
            }
            SOp::Seek(u) => {
                let v: Vec<usize> = visited.iter().copied().filter(|&i| i >= lo).collect();
                if v.is_empty() || (!common && p.sel != Sel::Buffered && marks.is_empty()) {
                    continue;
                }
                c = v[u as usize % v.len()];
                s!(&mut st, x => x.seek(c as isize));
                log.push(format!("seek({c})"));
            }
            SOp::Mark => {
                let m = s!(&mut st, x => x.mark());
                marks.push((m, c));
                log.push("mark".into());
            }
            SOp::Release => {
                if let Some((m, _)) = marks.pop() {
                    s!(&mut st, x => x.release(m));
                    log.push("release".into());
                } else {
                    continue;
                }
                if marks.is_empty() && !common && p.sel != Sel::Buffered {
                    visited.retain(|&i| i >= c);
                }
            }
            SOp::Get(u) => {
                if fetched <= lo {
                    continue;
                }
                let i = lo + u as usize % (fetched - lo);
                let got = s!(&st, x => { let t = x.get(i as isize); (t.get_token_type(), t.get_token_index()) });
                want!(format!("get({i})"), got, (l[i].0 as isize, i as isize));
            }
            SOp::Size => {
                if p.sel == Sel::Unbuffered {
                    continue;
                }
                let got = s!(&st, x => x.size());
                want!("size", got, fetched as isize);
            }
            SOp::Text(a, b) => {
                if fetched <= lo {
                    continue;
                }
                let a = lo + a as usize % (fetched - lo);
                let b = lo + b as usize % (fetched - lo);
                let (a, b) = (a.min(b), a.max(b));
                let exp: String = l[a..=b].iter().filter(|t| t.0 != -1).map(|t| tok_text(t.0)).collect();
                let got = s!(&st, x => x.get_text_from_interval(a as isize, b as isize));
                want!(format!("text({a},{b})"), got, exp.clone());
                let got = s!(&st, x => { let (p, q) = (x.get(a as isize), x.get(b as isize)); x.get_text_from_tokens(&**p, &**q) });
                want!(format!("text_from_tokens({a},{b})"), got, exp);
            }
            SOp::AllText => {
                if p.sel == Sel::Unbuffered || fetched == 0 {
                    continue;
                }
                let exp: String = l[..fetched].iter().filter(|t| t.0 != -1).map(|t| tok_text(t.0)).collect();
                let got = s!(&st, x => x.get_all_text());
                want!("all_text", got, exp);
            }
            SOp::Index => {
                let got = s!(&st, x => x.index());
                want!("index", got, c as isize);
            }
            SOp::Reset => {
                if let S::C(x) = &mut st {
                    x.reset();
                    log.push("reset".into());
                    c = next_on(0);
                } else {
                    continue;
                }
            }
            SOp::Iter(n) | SOp::TokIter(n) => {
                let toks = matches!(op, SOp::TokIter(_));
                let mut exp = vec![];
                let mut done = false;
                for _ in 0..n {
                    if c < eof {
                        exp.push(Some(l[c].0 as isize));
                        c = next_on(c + 1);
                        visited.push(c);
                    } else if toks && !done {
                        exp.push(Some(-1));
                        done = true;
                    } else {
                        exp.push(None);
                    }
                }
                need = need.max(c as isize);
                let got: Vec<Option<isize>> = match (&mut st, toks) {
                    (S::C(_), true) => {
                        // no token iterator on the filtering stream: use the plain one
                        let S::C(x) = &mut st else { unreachable!() };
                        let mut it = x.iter();
                        exp.iter_mut().for_each(|e| {
                            if *e == Some(-1) {
                                *e = None
                            }
                        });
                        (0..n).map(|_| it.next()).collect()
                    }
                    (S::C(x), false) => {
                        let mut it = x.iter();
                        (0..n).map(|_| it.next()).collect()
                    }
                    (S::U(x), false) => {
                        let mut it = x.iter();
                        (0..n).map(|_| it.next()).collect()
                    }
                    (S::U(x), true) => {
                        let mut it = x.token_iter();
                        (0..n).map(|_| it.next().map(|t| t.get_token_type())).collect()
                    }
                };
                want!(format!("iter({n})"), got, exp);
            }
        }
        did += 1;
        let a = *asked.borrow();
        if a as isize > need + 1 && !common {
            // one token of look-ahead is always needed to stand on
            if a as isize > (need + 1).max(c as isize + 1) {
                return Err(format!("asked the source for {a} tokens where {} are needed; history {}", need + 1, log.join(" ")));
            }
        } else if a as isize > need + 1 {
            return Err(format!("asked the source for {a} tokens where {} are needed; history {}", need + 1, log.join(" ")));
        }
        if a > eof + 1 {
            return Err(format!("asked the source again after end-of-file; history {}", log.join(" ")));
        }
    }
    Ok(did)
}

enum Any {
    Sim(SimChars, #[allow(dead_code)] crate::ldrive::Backing),
}
fn chars(p: &OpsPlan, rep: Rep) -> Result<usize, String> {
    let notes: Note = Default::default();
    let (sim, back) = SimChars::new(&p.text, rep, notes.clone());
    let map = sim.map.clone();
    let n = p.text.len();
    let Any::Sim(mut st, _back) = Any::Sim(sim, back);
    let mut c = 0usize;
    let mut did = 0;
    let mut marks = vec![st.mark()];
    let mut log: Vec<String> = vec![];
    macro_rules! want {
        ($what:expr, $got:expr, $exp:expr) => {{
            let (g, e) = ($got, $exp);
            log.push(format!("{}={:?}", $what, g));
            if g != e {
                return Err(format!("{}: got {:?}, a list with a cursor gives {:?}; history {}", $what, g, e, log.join(" ")));
            }
        }};
    }
    for op in &p.ops {
        match *op {
            SOp::Consume => {
                if c == n {
                    continue;
                }
                st.consume();
                log.push("consume".into());
                c += 1;
            }
            SOp::La(k) | SOp::Lt(k) => {
                let i = if k > 0 { c as i64 + k as i64 - 1 } else { c as i64 + k as i64 };
                let exp = if i < 0 || i >= n as i64 { -1 } else { p.text[i as usize] as isize };
                want!(format!("la({k})"), st.la(k as isize), exp);
            }
            SOp::Seek(u) => {
                c = u as usize % (n + 1);
                st.seek(map[c]);
                log.push(format!("seek({c})"));
            }
            SOp::Mark => marks.push(st.mark()),
            SOp::Release => {
                if marks.len() > 1 {
                    st.release(marks.pop().unwrap());
                }
            }
            SOp::Get(_) | SOp::TokIter(_) | SOp::AllText => {
                // text up to the end, with a stop beyond the last character
                let exp = to_string(&p.text[c..]);
                want!("text to end", CharStream::<Cow<str>>::get_text(&st, map[c], map[n]), Cow::<str>::from(exp));
            }
            SOp::Size => want!("size", st.size(), map[n]),
            SOp::Text(a, b) => {
                let a = a as usize % (n + 1);
                let e = a + b as usize % (n + 1 - a);
                let exp = to_string(&p.text[a..e]);
                let stop = if e > a && b & 1 == 0 { map[e - 1] } else { map[e] - 1 };
                want!(format!("text({a}..{e})"), CharStream::<Cow<str>>::get_text(&st, map[a], stop), Cow::<str>::from(&exp[..]));
                for (form, got) in st.forms(map[a], stop) {
                    if got != exp {
                        return Err(format!("text({a}..{e}) as {form}: got {got:?} instead of {exp:?}; history {}", log.join(" ")));
                    }
                }
            }
            SOp::Index => want!("index", st.index(), map[c]),
            SOp::Reset => {
                c = 0;
                st.seek(0);
            }
            SOp::Iter(k) => {
                let mut exp = vec![];
                let mut got = vec![];
                for _ in 0..k {
                    exp.push(if c < n {
                        c += 1;
                        Some(p.text[c - 1] as isize)
                    } else {
                        None
                    });
                }
                let mut it = antlr_rust::int_stream::IterWrapper(&mut st);
                for _ in 0..k {
                    got.push(it.next());
                }
                want!(format!("iter({k})"), got, exp);
            }
        }
        did += 1;
    }
    // reset on the bare stream
    let s = to_string(&p.text);
    let mut b = InputStream::new(&s[..]);
    if !p.text.is_empty() {
        b.consume();
        b.reset();
        want!("la(1) after reset", b.la(1), s.chars().next().map_or(-1, |c| c as isize));
    }
    if let Some(x) = notes.borrow().first() {
        return Err(x.clone());
    }
    Ok(did)
}
