//! Runs the real lexer (BaseLexer + LexerATNSimulator + InputStream) on a compiled lexer grammar,
//! and the reference lexer on the same grammar.
use crate::lgrammar::{Cmd, Eff, LProg, I};
use crate::rt::{callback, mix2, Cb};
use crate::streams::*;
use antlr_rust::atn::ATN;
use antlr_rust::atn_deserializer::ATNDeserializer;
use antlr_rust::char_stream::{CharStream, InputData};
use antlr_rust::dfa::DFA;
use antlr_rust::error_listener::ErrorListener;
use antlr_rust::errors::ANTLRError;
use antlr_rust::int_stream::IntStream;
use antlr_rust::lexer::{BaseLexer, Lexer, LexerRecog};
use antlr_rust::lexer_atn_simulator::{ILexerATNSimulator, LexerATNSimulator};
use antlr_rust::recognizer::Actions;
use antlr_rust::rule_context::EmptyContext;
use antlr_rust::token::{CommonToken, Token};
use antlr_rust::token_factory::{ArenaCommonFactory, ArenaOwningFactory, OwningTokenFactory, TokenAware, TokenFactory};
use antlr_rust::vocabulary::{Vocabulary, VocabularyImpl};
use antlr_rust::{InputStream, PredictionContextCache, RwLock, TokenSource};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Rep {
    Str,
    BoxStr,
    U8,
    U16,
    U32,
}
pub fn to_string(v: &[u32]) -> String {
    v.iter().map(|&c| char::from_u32(c).unwrap_or('\u{fffd}')).collect()
}

enum Raw {
    Str(InputStream<&'static str>),
    Box(InputStream<Box<str>>),
    U8(InputStream<&'static [u8]>),
    U16(InputStream<&'static [u16]>),
    U32(InputStream<&'static [u32]>),
}
/// what backs the raw stream; lives as long as the lexer and is freed after it
enum Owned {
    None,
    Str(*mut str),
    U8(*mut [u8]),
    U16(*mut [u16]),
    U32(*mut [u32]),
}
pub struct Backing(Owned);
impl Drop for Backing {
    fn drop(&mut self) {
        unsafe {
            match self.0 {
                Owned::None => {}
                Owned::Str(p) => drop(Box::from_raw(p)),
                Owned::U8(p) => drop(Box::from_raw(p)),
                Owned::U16(p) => drop(Box::from_raw(p)),
                Owned::U32(p) => drop(Box::from_raw(p)),
            }
        }
    }
}
/// character stream given to the lexer: a real InputStream with seams around it
pub struct SimChars {
    raw: Raw,
    pub marks: Vec<isize>,
    pub notes: Note,
    /// raw index of every character, and the end
    pub map: Rc<Vec<isize>>,
}
impl SimChars {
    pub fn new(text: &[u32], rep: Rep, notes: Note) -> (SimChars, Backing) {
        let s = to_string(text);
        let mut map: Vec<isize> = match rep {
            Rep::Str | Rep::BoxStr => s.char_indices().map(|x| x.0 as isize).collect(),
            _ => (0..text.len() as isize).collect(),
        };
        map.push(match rep {
            Rep::Str | Rep::BoxStr => s.len() as isize,
            _ => text.len() as isize,
        });
        let (raw, own) = match rep {
            Rep::Str => {
                let p = Box::into_raw(s.into_boxed_str());
                (Raw::Str(InputStream::new(unsafe { &*p })), Owned::Str(p))
            }
            Rep::BoxStr => (Raw::Box(InputStream::new_owned(s.into_boxed_str())), Owned::None),
            Rep::U8 => {
                let p = Box::into_raw(text.iter().map(|&c| c as u8).collect::<Vec<_>>().into_boxed_slice());
                (Raw::U8(InputStream::new(unsafe { &*p })), Owned::U8(p))
            }
            Rep::U16 => {
                let p = Box::into_raw(text.iter().map(|&c| c as u16).collect::<Vec<_>>().into_boxed_slice());
                (Raw::U16(InputStream::new(unsafe { &*p })), Owned::U16(p))
            }
            Rep::U32 => {
                let p = Box::into_raw(text.to_vec().into_boxed_slice());
                (Raw::U32(InputStream::new(unsafe { &*p })), Owned::U32(p))
            }
        };
        (SimChars { raw, marks: vec![], notes, map: Rc::new(map) }, Backing(own))
    }
    pub fn char_index(&self, raw: isize) -> isize {
        char_index(&self.map, raw)
    }
    /// that text in all the forms the stream can give it in
    pub fn forms(&self, a: isize, b: isize) -> Vec<(&'static str, String)> {
        fn all<'a, T>(x: &InputStream<&'a [T]>, a: isize, b: isize) -> Vec<(&'static str, String)>
        where
            T: Into<u32> + Copy + std::fmt::Debug + 'static,
            [T]: InputData + ToOwned<Owned = Vec<T>>,
        {
            let show = |v: &[T]| to_string(&v.iter().map(|&c| c.into()).collect::<Vec<u32>>());
            let cow: Cow<'a, [T]> = x.get_text(a, b);
            let slice: &'a [T] = x.get_text(a, b);
            let string: String = x.get_text(a, b);
            let text: Cow<'static, str> = x.get_text(a, b);
            // the same characters, owned
            let n = x.size();
            let whole: &[T] = if n > 0 { x.get_text(0, n - 1) } else { &[] };
            let mut own: InputStream<Box<[T]>> = InputStream::new_owned(whole.into());
            own.seek(x.index());
            let vec: Vec<T> = own.get_text(a, b);
            let boxed: Box<[T]> = own.get_text(a, b);
            let mut v = vec![
                ("cow of items", show(&cow)),
                ("items", show(slice)),
                ("string", string),
                ("cow of text", text.into()),
                ("owned items", show(&vec)),
                ("boxed items", show(&boxed)),
            ];
            if (own.size(), own.index()) != (n, x.index()) {
                v.push(("owned", format!("size {} and index {} instead of {n} and {}", own.size(), own.index(), x.index())));
            }
            v
        }
        match &self.raw {
            Raw::Str(x) => {
                let s: &str = x.get_text(a, b);
                let o: String = x.get_text(a, b);
                let b: Box<str> = x.get_text(a, b);
                vec![("slice", s.into()), ("string", o), ("boxed", b.into())]
            }
            Raw::Box(x) => {
                let o: String = x.get_text(a, b);
                let b: Box<str> = x.get_text(a, b);
                vec![("string", o), ("boxed", b.into())]
            }
            Raw::U8(x) => all(x, a, b),
            Raw::U16(x) => all(x, a, b),
            Raw::U32(x) => all(x, a, b),
        }
    }
}
/// raw index to character index; -1000 - raw when it is not a character boundary
pub fn char_index(map: &[isize], raw: isize) -> isize {
    match map.binary_search(&raw) {
        Ok(i) => i as isize,
        Err(_) => -1000 - raw,
    }
}
macro_rules! on {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            Raw::Str($x) => $e,
            Raw::Box($x) => $e,
            Raw::U8($x) => $e,
            Raw::U16($x) => $e,
            Raw::U32($x) => $e,
        }
    };
}
impl IntStream for SimChars {
    fn consume(&mut self) {
        callback(Cb::CharConsume);
        on!(&mut self.raw, x => x.consume())
    }
    fn la(&mut self, i: isize) -> isize {
        callback(Cb::CharLa);
        on!(&mut self.raw, x => x.la(i))
    }
    fn mark(&mut self) -> isize {
        callback(Cb::CharOther);
        let p = self.index();
        self.marks.push(p);
        on!(&mut self.raw, x => x.mark());
        self.marks.len() as isize
    }
    fn release(&mut self, m: isize) {
        callback(Cb::CharOther);
        if m != self.marks.len() as isize {
            self.notes.borrow_mut().push(format!("char stream: release({m}) with {} marks", self.marks.len()));
        }
        self.marks.pop();
        on!(&mut self.raw, x => x.release(-1))
    }
    fn index(&self) -> isize {
        on!(&self.raw, x => x.index())
    }
    fn seek(&mut self, i: isize) {
        callback(Cb::CharOther);
        let lo = self.marks.iter().copied().min().unwrap_or(self.index());
        if i < lo {
            self.notes.borrow_mut().push(format!("char stream: seek({i}) before the marked region at {lo}"));
        }
        if self.map.binary_search(&i).is_err() {
            self.notes.borrow_mut().push(format!("char stream: seek({i}) is not a character position"));
        }
        on!(&mut self.raw, x => x.seek(i))
    }
    fn size(&self) -> isize {
        on!(&self.raw, x => x.size())
    }
    fn get_source_name(&self) -> String {
        on!(&self.raw, x => x.get_source_name())
    }
}
impl CharStream<Cow<'static, str>> for SimChars {
    fn get_text(&self, a: isize, b: isize) -> Cow<'static, str> {
        callback(Cb::CharOther);
        match &self.raw {
            // the borrowed text would outlive its backing; hand out a copy
            Raw::Str(x) => {
                let s: &'static str = CharStream::<&'static str>::get_text(x, a, b);
                Cow::Owned(s.to_string())
            }
            Raw::Box(x) => x.get_text(a, b),
            Raw::U8(x) => x.get_text(a, b),
            Raw::U16(x) => x.get_text(a, b),
            Raw::U32(x) => x.get_text(a, b),
        }
    }
}

impl CharStream<String> for SimChars {
    fn get_text(&self, a: isize, b: isize) -> String {
        callback(Cb::CharOther);
        on!(&self.raw, x => CharStream::<String>::get_text(x, a, b))
    }
}

// ---------------------------------------------------------------- lexer members
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ActRec {
    pub act: u16,
    /// character index of the input when the action ran
    pub at: isize,
    pub text: String,
}
pub struct LExt<TF: TokenFactory<'static> = SimTF> {
    pub job: Rc<LJob>,
    pub emits: Cell<usize>,
    pub factory: &'static TF,
    /// tokens matched so far, error listeners attached since then
    pub matched: u32,
    pub err_ids: Vec<usize>,
    pub err_gen: Rc<Cell<u32>>,
    pub err_changes: Vec<(usize, Vec<usize>)>,
    pub errs: Rc<RefCell<Vec<(usize, LErr)>>>,
    pub notes: Note,
    pub acts: Vec<(usize, Cmd)>,
    pub log: Rc<RefCell<Vec<ActRec>>>,
    pub pred_seed: u64,
    pub pred_pos: bool,
    pub map: Rc<Vec<isize>>,
    pub vocab: VocabularyImpl,
    pub npreds: Rc<RefCell<u32>>,
}
pub type GBL<TF> = BaseLexer<'static, LExt<TF>, SimChars, TF>;
pub type BL = GBL<SimTF>;
/// token factories whose tokens carry text
pub trait Fac: TokenFactory<'static, Data = str> + 'static {}
impl<T: TokenFactory<'static, Data = str> + 'static> Fac for T {}
impl<TF: Fac> TokenAware<'static> for LExt<TF> {
    type TF = TF;
}
impl<TF: Fac> LexerRecog<'static, GBL<TF>> for LExt<TF>
where
    SimChars: CharStream<TF::From>,
{
    fn before_emit(lexer: &mut GBL<TF>) {
        lexer.emits.set(lexer.emits.get() + 1);
        let (h, tt) = (lexer.job.hook, lexer.token_type);
        if h & 1 != 0 && tt > 0 && tt % 2 == 1 {
            lexer.set_type(tt + 40);
        }
        if h & 2 != 0 && tt % 2 == 0 {
            lexer.set_channel(7);
        }
        if h & 4 != 0 && tt > 0 && tt % 3 == 1 {
            let t = format!("<{}>", lexer.get_text());
            lexer.set_text(t);
        }
        if h & 8 != 0 {
            lexer.token_start_line += 1000;
            lexer.token_start_column += 2000;
        }
    }
}
pub fn lpred(seed: u64, pos: bool, id: u16, at: isize, line: isize, col: isize) -> bool {
    let x = mix2(seed, 77 + id as u64);
    if pos && x & 1 == 0 {
        mix2(mix2(mix2(x, at as u64), line as u64), col as u64) % 3 != 0
    } else {
        x % 3 != 0
    }
}
impl<TF: Fac> Actions<'static, GBL<TF>> for LExt<TF>
where
    SimChars: CharStream<TF::From>,
{
    fn get_grammar_file_name(&self) -> &str {
        "SimLexer.g4"
    }
    fn get_rule_names(&self) -> &[&str] {
        &[]
    }
    fn get_vocabulary(&self) -> &dyn Vocabulary {
        &self.vocab
    }
    fn action(_l: Option<&EmptyContext<'static, TF>>, rule: isize, act: isize, recog: &mut GBL<TF>) {
        callback(Cb::Action);
        let at = char_index(&recog.map, recog.get_char_index());
        let text = recog.get_text().to_string();
        recog.log.borrow_mut().push(ActRec { act: act as u16, at, text });
        let (r, c) = recog.acts[act as usize];
        if r as isize != rule {
            recog.log.borrow_mut().push(ActRec { act: 9999, at: rule, text: "wrong rule".into() });
        }
        if let Cmd::Custom(e) = c {
            match e {
                Eff::None => {}
                Eff::SetType(t) => recog.set_type(t as isize),
                Eff::SetChannel(c) => recog.set_channel(c as isize),
                Eff::SetText => recog.set_text(format!("T{act}")),
                Eff::Skip => recog.skip(),
                Eff::More => recog.more(),
                Eff::Mode(m) => recog.set_mode(m),
                Eff::Push(m) => recog.push_mode(m),
                Eff::Pop => {
                    let top = recog.mode_stack.last().copied();
                    let got = recog.pop_mode();
                    if got != top {
                        recog.notes.borrow_mut().push(format!("pop_mode gave {got:?} with {top:?} on top"));
                    }
                }
                Eff::SetToken => {
                    let (start, stop) = (recog.token_start_char_index, recog.get_char_index() - 1);
                    let (line, col) = (recog.token_start_line, recog.token_start_column);
                    let f = recog.factory;
                    recog.token =
                        Some(f.create(None::<&mut SimChars>, 60 + act, Some(format!("K{act}")), 1, start, stop, line, col));
                }
            }
        }
    }
    fn sempred(_l: Option<&EmptyContext<'static, TF>>, _rule: isize, pred: isize, recog: &mut GBL<TF>) -> bool {
        callback(Cb::Sempred);
        *recog.npreds.borrow_mut() += 1;
        let at = char_index(&recog.map, recog.get_char_index());
        let (line, col) = (recog.get_line(), recog.get_char_position_in_line());
        lpred(recog.pred_seed, recog.pred_pos, pred as u16, at, line, col)
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct LErr {
    pub line: isize,
    pub col: isize,
    pub msg: String,
    pub start: isize,
}
struct LEL {
    id: usize,
    /// generation it was added in, and the current one
    gen: (u32, Rc<Cell<u32>>),
    notes: Note,
    log: Rc<RefCell<Vec<(usize, LErr)>>>,
}
impl<TF: Fac> ErrorListener<'static, GBL<TF>> for LEL
where
    SimChars: CharStream<TF::From>,
{
    fn syntax_error(&self, r: &GBL<TF>, _off: Option<&TF::Inner>, line: isize, col: isize, msg: &str, e: Option<&ANTLRError>) {
        callback(Cb::ErrListener);
        if self.gen.0 != self.gen.1.get() {
            self.notes.borrow_mut().push(format!("error listener {} heard of an error after it was removed", self.id));
        }
        let start = match e {
            Some(ANTLRError::LexerNoAltError { start_index }) => char_index(&r.map, *start_index),
            _ => -7,
        };
        self.log.borrow_mut().push((self.id, LErr { line, col, msg: msg.to_string(), start }));
    }
}

// ---------------------------------------------------------------- shared data and jobs
pub struct LShared {
    pub prog: Arc<LProg>,
    pub atn: Arc<ATN>,
    pub dfa: Arc<Vec<RwLock<DFA>>>,
    pub cache: Arc<PredictionContextCache>,
}
impl LShared {
    pub fn new(prog: LProg) -> LShared {
        let atn = Arc::new(ATNDeserializer::new(None).deserialize(prog.atn.chars()));
        Self::with(Arc::new(prog), atn)
    }
    fn with(prog: Arc<LProg>, atn: Arc<ATN>) -> LShared {
        let mut v = vec![];
        for i in 0..atn.decision_to_state.len() {
            v.push(DFA::new(atn.clone(), atn.get_decision_state(i), i as isize).into());
        }
        LShared { prog, atn, dfa: Arc::new(v), cache: Arc::new(PredictionContextCache::new()) }
    }
    pub fn fresh(&self) -> LShared {
        Self::with(self.prog.clone(), self.atn.clone())
    }
    pub fn same(&self) -> LShared {
        LShared { prog: self.prog.clone(), atn: self.atn.clone(), dfa: self.dfa.clone(), cache: self.cache.clone() }
    }
    pub fn dfa_states(&self) -> usize {
        self.dfa.iter().map(|d| d.read().states.len()).sum()
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LJob {
    pub text: Vec<u32>,
    pub rep: Rep,
    pub pred_seed: u64,
    pub pred_pos: bool,
    pub err_listeners: usize,
    /// before the n-th token, 0: add one more error listener, 1: remove all error listeners and add
    /// as many again
    #[serde(default)]
    pub err_change: Option<(u32, u8)>,
    /// token factory, 0: common, 1: owning, 2: arena of owning, 3: arena of common
    #[serde(default)]
    pub fac: u8,
    /// before_emit, bit 0: other type, 1: other channel, 2: other text, 3: other line and column
    #[serde(default)]
    pub hook: u8,
    /// before the n-th token the lexer is told to be on that line and column
    #[serde(default)]
    pub moved: Option<(u32, u16, u16)>,
}
impl LJob {
    pub fn plain(text: Vec<u32>) -> LJob {
        LJob { text, rep: Rep::Str, pred_seed: 0, pred_pos: false, err_listeners: 1, err_change: None, fac: 0, hook: 0, moved: None }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct LTok {
    pub tt: isize,
    pub ch: isize,
    /// character indexes; `end` is exclusive
    pub start: isize,
    pub end: isize,
    pub line: isize,
    pub col: isize,
    pub text: String,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct LOut {
    pub toks: Vec<LTok>,
    pub errs: Vec<(usize, LErr)>,
    pub acts: Vec<ActRec>,
    pub notes: Vec<String>,
    pub marks: usize,
    pub modes: (usize, Vec<usize>),
    pub npreds: u32,
    pub pos: (isize, isize),
    /// calls of before_emit
    pub emits: usize,
}

type Errs = Rc<RefCell<Vec<(usize, LErr)>>>;
pub fn new_lexer(sh: &LShared, job: &LJob, notes: Note, errs: Errs, acts: Rc<RefCell<Vec<ActRec>>>) -> (BL, Backing) {
    new_with(sh, job, notes, errs, acts, &SIM_TF)
}
fn new_with<TF: Fac>(
    sh: &LShared,
    job: &LJob,
    notes: Note,
    errs: Errs,
    acts: Rc<RefCell<Vec<ActRec>>>,
    factory: &'static TF,
) -> (GBL<TF>, Backing)
where
    SimChars: CharStream<TF::From>,
{
    let (chars, back) = SimChars::new(&job.text, job.rep, notes.clone());
    let map = chars.map.clone();
    let ids: Vec<usize> = (0..job.err_listeners).collect();
    let ext = LExt {
        job: Rc::new(job.clone()),
        emits: Cell::new(0),
        factory,
        matched: 0,
        err_ids: ids.clone(),
        err_gen: Default::default(),
        err_changes: vec![(0, ids)],
        errs,
        notes,
        acts: sh.prog.g.acts.clone(),
        log: acts,
        pred_seed: job.pred_seed,
        pred_pos: job.pred_pos,
        map,
        vocab: crate::pdrive::vocab(0),
        npreds: Default::default(),
    };
    let sim = LexerATNSimulator::new_lexer_atnsimulator(sh.atn.clone(), sh.dfa.clone(), sh.cache.clone());
    let mut lx: GBL<TF> = BaseLexer::new_base_lexer(chars, sim, ext, factory);
    lx.remove_error_listeners();
    listen(&mut lx, 0);
    (lx, back)
}
/// adds the error listeners from that one on
fn listen<TF: Fac>(lx: &mut GBL<TF>, from: usize)
where
    SimChars: CharStream<TF::From>,
{
    for id in from..lx.err_ids.len() {
        let l = LEL { id, gen: (lx.err_gen.get(), lx.err_gen.clone()), notes: lx.notes.clone(), log: lx.errs.clone() };
        lx.add_error_listener(Box::new(l));
    }
}
/// runs the job with the token factory it names
pub fn run_lex(sh: &LShared, job: &LJob, out: &mut LOut) {
    struct Free<T>(*mut T);
    impl<T> Drop for Free<T> {
        fn drop(&mut self) {
            unsafe { drop(Box::from_raw(self.0)) }
        }
    }
    fn arena<T>(t: T) -> (Free<T>, &'static T) {
        let p = Box::into_raw(Box::new(t));
        (Free(p), unsafe { &*p })
    }
    static OWN: OwningTokenFactory = OwningTokenFactory;
    match job.fac {
        0 => run_with(sh, job, out, &SIM_TF),
        1 => run_with(sh, job, out, &OWN),
        2 => {
            let (_free, f) = arena(ArenaOwningFactory::<'static>::default());
            run_with(sh, job, out, f)
        }
        _ => {
            let (_free, f) = arena(ArenaCommonFactory::<'static>::default());
            run_with(sh, job, out, f)
        }
    }
}
fn run_with<TF: Fac>(sh: &LShared, job: &LJob, out: &mut LOut, factory: &'static TF)
where
    SimChars: CharStream<TF::From>,
{
    let notes: Note = Default::default();
    let errs: Errs = Default::default();
    let acts: Rc<RefCell<Vec<ActRec>>> = Default::default();
    let (mut lx, back) = new_with(sh, job, notes.clone(), errs.clone(), acts.clone(), factory);
    let cap = job.text.len() + 5;
    let mut eofs = 0;
    let map = lx.map.clone();
    let mut toks = vec![];
    while eofs < 3 {
        if toks.len() > cap {
            notes.borrow_mut().push(format!("more than {cap} tokens from {} characters", job.text.len()));
            break;
        }
        lx.matched += 1;
        if let Some((n, kind)) = job.err_change {
            if n == lx.matched {
                let from = if kind == 0 {
                    let k = lx.err_ids.len();
                    lx.err_ids.push(k);
                    k
                } else {
                    lx.remove_error_listeners();
                    lx.err_gen.set(lx.err_gen.get() + 1);
                    0
                };
                listen(&mut lx, from);
                let c = (lx.errs.borrow().len(), lx.err_ids.clone());
                lx.err_changes.push(c);
            }
        }
        if let Some((n, line, col)) = job.moved {
            if n == lx.matched {
                let sim = lx.interpreter.as_mut().unwrap();
                sim.set_line(line as isize);
                sim.set_char_position_in_line(col as isize);
                let at = (lx.get_line(), lx.get_char_position_in_line());
                if at != (line as isize, col as isize) {
                    notes.borrow_mut().push(format!("told to be at {line}:{col}, says {at:?}"));
                }
            }
        }
        // every other token through a reference, as a parser on a borrowed lexer does
        let t = if toks.len() % 2 == 1 {
            let mut r = &mut lx;
            let t = <&mut GBL<TF> as TokenSource>::next_token(&mut r);
            let by = (r.get_line(), r.get_char_position_in_line(), r.get_source_name(), r.get_input_stream().map(|i| i.index()));
            let f = <&mut GBL<TF> as TokenSource>::get_token_factory(&r) as *const TF;
            let own = (lx.get_line(), lx.get_char_position_in_line(), lx.get_source_name(), lx.get_input_stream().map(|i| i.index()));
            if by != own || by.3 != lx.input.as_ref().map(|i| i.index()) || f != factory as *const TF {
                notes.borrow_mut().push(format!("lexer says {own:?}, by reference {by:?}"));
            }
            t
        } else {
            lx.next_token()
        };
        let rec = tok_rec::<TF>(&map, &t);
        let o = Token::to_owned(<TF::Tok as std::borrow::Borrow<TF::Inner>>::borrow(&t));
        let copy = LTok {
            tt: o.get_token_type(),
            ch: o.get_channel(),
            start: char_index(&map, o.get_start()),
            end: char_index(&map, o.get_stop() + 1),
            line: o.get_line(),
            col: o.get_column(),
            text: if rec.tt == -1 { String::new() } else { o.get_text().to_string() },
        };
        if copy != rec {
            notes.borrow_mut().push(format!("owned copy {copy:?} of token {rec:?}"));
        }
        if rec.tt == -1 {
            eofs += 1;
        } else if eofs > 0 {
            notes.borrow_mut().push("token after end of file".into());
        }
        out.toks.push(rec);
        toks.push(t);
    }
    // tokens already handed out do not change
    for (t, rec) in toks.iter().zip(&out.toks) {
        let now = tok_rec::<TF>(&map, t);
        if now != *rec {
            notes.borrow_mut().push(format!("token {rec:?} turned into {now:?}"));
        }
    }
    out.marks = lx.input().marks.len();
    out.modes = (lx.mode, lx.mode_stack.clone());
    out.pos = (lx.get_line(), lx.get_char_position_in_line());
    out.npreds = *lx.npreds.borrow();
    out.emits = lx.emits.get();
    out.acts = acts.borrow().clone();
    let mut errs = errs.borrow().clone();
    if let Some(d) = crate::pdrive::check_lockstep(&errs, &lx.err_changes, |_| false) {
        notes.borrow_mut().push(format!("error listeners out of step: {d}"));
    } else if job.err_change.is_some() {
        // the reference knows the listeners attached at the start
        errs.retain(|e| e.0 < job.err_listeners);
    }
    out.errs = errs;
    out.notes = notes.borrow().clone();
    drop(toks);
    drop(lx);
    drop(back);
}
fn tok_rec<TF: Fac>(map: &[isize], t: &TF::Tok) -> LTok {
    let t: &TF::Inner = std::borrow::Borrow::borrow(t);
    LTok {
        tt: t.get_token_type(),
        ch: t.get_channel(),
        start: char_index(map, t.get_start()),
        end: char_index(map, t.get_stop() + 1),
        line: t.get_line(),
        col: t.get_column(),
        text: if t.get_token_type() == -1 { String::new() } else { t.get_text().to_string() },
    }
}

// ---------------------------------------------------------------- reference
#[derive(Clone, PartialEq, Debug)]
struct Th {
    pc: usize,
    /// (return pc, caller) frames
    stack: Vec<usize>,
    alt: usize,
    ng: bool,
    /// (action, position or None while pending)
    acts: Vec<(u16, Option<usize>)>,
}
struct Lx<'a> {
    p: &'a LProg,
    t: &'a [u32],
    job: &'a LJob,
    fuel: u64,
    base: (usize, isize, isize),
}
/// line/column at `i`, the character at `base.0` being at line `base.1`, column `base.2`
fn line_col(t: &[u32], base: (usize, isize, isize), i: usize) -> (isize, isize) {
    let t = &t[base.0..i];
    let nl = t.iter().filter(|&&c| c == 10).count() as isize;
    let col = t.iter().rev().take_while(|&&c| c != 10).count() as isize;
    (base.1 + nl, if nl == 0 { base.2 + col } else { col })
}
pub struct Exhausted;
impl Lx<'_> {
    fn closure(&mut self, mut th: Th, set: &mut Vec<Th>, mut reached: bool, pos: usize, eof: bool) -> Result<bool, Exhausted> {
        self.fuel = self.fuel.checked_sub(1).ok_or(Exhausted)?;
        let (ins, next) = &self.p.code[th.pc];
        let next = *next;
        match ins {
            I::Set(..) | I::Any | I::Eof => {
                if !(reached && th.ng) && !set.contains(&th) {
                    if set.len() > 400 || th.stack.len() > 200 {
                        return Err(Exhausted);
                    }
                    set.push(th.clone());
                }
                if eof && matches!(ins, I::Eof) {
                    th.pc = next;
                    return self.closure(th, set, reached, pos, eof);
                }
                Ok(reached)
            }
            I::Ret(_) => match th.stack.pop() {
                None => {
                    if !set.contains(&th) {
                        set.push(th);
                    }
                    Ok(true)
                }
                Some(pc) => {
                    th.pc = pc;
                    self.closure(th, set, reached, pos, eof)
                }
            },
            I::Call(r) => {
                th.stack.push(next);
                th.pc = self.p.rule_pc[*r];
                self.closure(th, set, reached, pos, eof)
            }
            I::Pred(id) => {
                let (l, c) = line_col(self.t, self.base, pos);
                if lpred(self.job.pred_seed, self.job.pred_pos, *id, pos as isize, l, c) {
                    th.pc = next;
                    reached = self.closure(th, set, reached, pos, eof)?;
                }
                Ok(reached)
            }
            I::Act(a) => {
                if th.stack.is_empty() {
                    th.acts.push((*a, None));
                }
                th.pc = next;
                self.closure(th, set, reached, pos, eof)
            }
            I::Split(v, ng) => {
                if *ng {
                    th.ng = true;
                }
                if v.is_empty() {
                    th.pc = next;
                    return self.closure(th, set, reached, pos, eof);
                }
                let v = v.clone();
                for pc in v {
                    let mut t = th.clone();
                    t.pc = pc;
                    reached = self.closure(t, set, reached, pos, eof)?;
                }
                Ok(reached)
            }
        }
    }
    /// one match from `start`: Ok(Some((end, rule, actions))) or the index where matching died
    #[allow(clippy::type_complexity)]
    fn one(&mut self, mode: usize, start: usize) -> Result<(Option<(usize, usize, Vec<(u16, Option<usize>)>)>, usize), Exhausted> {
        let mut set = vec![];
        let rules: Vec<usize> =
            (0..self.p.g.rules.len()).filter(|&i| !self.p.g.rules[i].frag && self.p.g.rules[i].mode == mode).collect();
        for (i, &r) in rules.iter().enumerate() {
            let th = Th { pc: self.p.rule_pc[r], stack: vec![], alt: i + 1, ng: false, acts: vec![] };
            self.closure(th, &mut set, false, start, false)?;
        }
        let mut best = None;
        let mut pos = start;
        loop {
            if let Some(t) = set.iter().find(|t| matches!(self.p.code[t.pc].0, I::Ret(_))) {
                if let I::Ret(r) = self.p.code[t.pc].0 {
                    best = Some((pos, r, t.acts.clone()));
                }
            }
            let c = self.t.get(pos).copied();
            let mut reach = vec![];
            let mut skip = 0;
            for t in set.clone() {
                let done = t.alt == skip;
                if done && t.ng {
                    continue;
                }
                let (ins, next) = &self.p.code[t.pc];
                let hit = match (ins, c) {
                    (I::Set(v, not), Some(c)) => v.iter().any(|&(a, b)| a <= c && c <= b) != *not,
                    (I::Any, Some(_)) => true,
                    (I::Eof, None) => true,
                    _ => false,
                };
                if hit {
                    let mut n = t.clone();
                    n.pc = *next;
                    for a in n.acts.iter_mut() {
                        if a.1.is_none() {
                            a.1 = Some(pos);
                        }
                    }
                    let np = if c.is_some() { pos + 1 } else { pos };
                    if self.closure(n, &mut reach, done, np, c.is_none())? {
                        skip = t.alt;
                    }
                }
            }
            if reach.is_empty() {
                return Ok((best, pos));
            }
            set = reach;
            if c.is_none() {
                if let Some(t) = set.iter().find(|t| matches!(self.p.code[t.pc].0, I::Ret(_))) {
                    if let I::Ret(r) = self.p.code[t.pc].0 {
                        best = Some((pos, r, t.acts.clone()));
                    }
                }
                return Ok((best, pos));
            }
            pos += 1;
        }
    }
}
pub fn lex_reference(p: &LProg, job: &LJob) -> Option<LOut> {
    let t = &job.text;
    let mut lx = Lx { p, t, job, fuel: 400_000, base: (0, 1, 0) };
    let mut out = LOut::default();
    let (mut mode, mut stack) = (0usize, vec![]);
    let mut i = 0;
    let eof = |i: usize, from: usize, ch: isize, (line, col): (isize, isize)| {
        LTok { tt: -1, ch, start: from as isize, end: i as isize, line, col, text: String::new() }
    };
    let mut hit = false;
    let mut eofs = 0;
    let mut moved = job.moved;
    'outer: while eofs < 3 {
        if let Some((n, line, col)) = moved {
            if out.toks.len() + 1 == n as usize {
                moved = None;
                lx.base = (i, line as isize, col as isize);
            }
        }
        if hit {
            out.toks.push(eof(t.len(), t.len(), 0, line_col(t, lx.base, i)));
            eofs += 1;
            continue;
        }
        let start = i;
        let (line, col) = line_col(t, lx.base, i);
        let mut ch = 0isize;
        let mut text: Option<String> = None;
        let mut over: Option<LTok> = None;
        loop {
            let mut tt = 0isize;
            let (best, died) = lx.one(mode, i).ok()?;
            let dflt = match best {
                None if died == t.len() && died == i => -1,
                None => {
                    let m = to_string(&t[start..(died + 1).min(t.len())]);
                    for id in 0..job.err_listeners {
                        out.errs.push((id, LErr { line, col, msg: format!("token recognition error at: '{m}'"), start: i as isize }));
                    }
                    i = (died + 1).min(t.len());
                    -3
                }
                Some((end, rule, acts)) => {
                    let from = i;
                    let _ = from;
                    i = end;
                    for (a, at) in acts {
                        match p.g.acts[a as usize].1 {
                            Cmd::Channel(c) => ch = c as isize,
                            Cmd::Mode(m) => mode = m,
                            Cmd::More => tt = -2,
                            Cmd::Skip => tt = -3,
                            Cmd::Type(x) => tt = x as isize,
                            Cmd::PushMode(m) => {
                                stack.push(mode);
                                mode = m;
                            }
                            Cmd::PopMode => {
                                if let Some(m) = stack.pop() {
                                    mode = m;
                                }
                            }
                            Cmd::Custom(e) => {
                                let at = at.unwrap_or(end);
                                let tx = text.clone().unwrap_or_else(|| to_string(&t[start..at]));
                                out.acts.push(ActRec { act: a, at: at as isize, text: tx });
                                match e {
                                    Eff::None => {}
                                    Eff::SetType(x) => tt = x as isize,
                                    Eff::SetChannel(c) => ch = c as isize,
                                    Eff::SetText => text = Some(format!("T{a}")),
                                    Eff::Skip => tt = -3,
                                    Eff::More => tt = -2,
                                    Eff::Mode(m) => mode = m,
                                    Eff::Push(m) => {
                                        stack.push(mode);
                                        mode = m;
                                    }
                                    Eff::Pop => {
                                        if let Some(m) = stack.pop() {
                                            mode = m;
                                        }
                                    }
                                    Eff::SetToken => {
                                        let (start, end) = (start as isize, at as isize);
                                        let text = format!("K{a}");
                                        over = Some(LTok { tt: 60 + a as isize, ch: 1, start, end, line, col, text });
                                    }
                                }
                            }
                        }
                    }
                    p.g.rules[rule].tok as isize
                }
            };
            if i == t.len() {
                hit = true;
            }
            if tt == 0 {
                tt = dflt;
            }
            if tt == -3 {
                continue 'outer;
            }
            if tt == -2 {
                continue;
            }
            if let Some(o) = over {
                out.toks.push(o);
                break;
            }
            out.emits += 1;
            let was = tt;
            if job.hook & 1 != 0 && was > 0 && was % 2 == 1 {
                tt = was + 40;
            }
            if job.hook & 2 != 0 && was % 2 == 0 {
                ch = 7;
            }
            if job.hook & 4 != 0 && was > 0 && was % 3 == 1 {
                text = Some(format!("<{}>", text.unwrap_or_else(|| to_string(&t[start..i]))));
            }
            let (line, col) = if job.hook & 8 != 0 { (line + 1000, col + 2000) } else { (line, col) };
            if tt == -1 {
                out.toks.push(eof(i, start, ch, (line, col)));
                eofs += 1;
            } else {
                let text = text.clone().unwrap_or_else(|| to_string(&t[start..i]));
                out.toks.push(LTok { tt, ch, start: start as isize, end: i as isize, line, col, text });
            }
            break;
        }
    }
    out.modes = (mode, stack);
    out.pos = line_col(t, lx.base, i);
    Some(out)
}
