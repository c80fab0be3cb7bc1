//! Executes a compiled grammar exactly as generated parser code does, on the real runtime:
//! real BaseParser, ParserATNSimulator, error strategies, streams, trees and listeners.
use crate::patn::{LrProg, Op, Prog, RuleProg};
use crate::rt::{callback, Cb};
use crate::streams::*;
use antlr_rust::atn::{ATN, INVALID_ALT};
use antlr_rust::atn_config_set::ATNConfigSet;
use antlr_rust::atn_deserializer::ATNDeserializer;
use antlr_rust::dfa::DFA;
use antlr_rust::error_listener::{DiagnosticErrorListener, ErrorListener};
use antlr_rust::error_strategy::{BailErrorStrategy, DefaultErrorStrategy, ErrorStrategy};
use antlr_rust::errors::*;
use antlr_rust::int_stream::IntStream;
use antlr_rust::parser::{BaseParser, ListenerId, Parser, ParserNodeType, ParserRecog};
use antlr_rust::parser_atn_simulator::ParserATNSimulator;
use antlr_rust::parser_rule_context::{BaseParserRuleContext, DerefSeal, ParserRuleContext};
use antlr_rust::recognizer::{Actions, Recognizer};
use antlr_rust::rule_context::{CustomRuleContext, RuleContext};
use antlr_rust::token::{CommonToken, Token, TOKEN_EOF};
use antlr_rust::token_factory::TokenAware;
use antlr_rust::token_stream::TokenStream;
use antlr_rust::tree::*;
use antlr_rust::vocabulary::{Vocabulary, VocabularyImpl};
use antlr_rust::{PredictionContextCache, PredictionMode, RwLock};
use antlr_rust::{TidAble, TidExt};
use bit_set::BitSet;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::ops::Deref;
use std::rc::Rc;
use std::sync::Arc;

// ---------------------------------------------------------------- types of a "generated" parser
pub trait SimListener<'input>: ParseTreeListener<'input, SimNode> {}
antlr_rust::coerce_from! { 'input : SimCtx<'input> }
antlr_rust::coerce_from! { 'input : SimListener<'input> }
pub trait SimCtx<'input>:
    for<'x> Listenable<dyn SimListener<'input> + 'x>
    + for<'x> Visitable<dyn SimVisitor<'input> + 'x>
    + ParserRuleContext<'input, TF = SimTF, Ctx = SimNode>
{
    fn leaf(&self) -> Option<(&CommonToken<'input>, bool)>;
    fn alt(&self) -> isize {
        0
    }
    fn set_alt(&self, _a: isize) {}
    fn labelled(&self) -> bool {
        false
    }
}
pub struct SimNode;
antlr_rust::tid! {SimNode}
antlr_rust::tid! { impl<'input> TidAble<'input> for dyn SimCtx<'input> + 'input }
antlr_rust::tid! { impl<'input> TidAble<'input> for dyn SimListener<'input> + 'input }
impl<'input> ParserNodeType<'input> for SimNode {
    type TF = SimTF;
    type Type = dyn SimCtx<'input> + 'input;
}
impl<'input> SimCtx<'input> for TerminalNode<'input, SimNode> {
    fn leaf(&self) -> Option<(&CommonToken<'input>, bool)> {
        Some((&*self.symbol, false))
    }
}
impl<'input> SimCtx<'input> for ErrorNode<'input, SimNode> {
    fn leaf(&self) -> Option<(&CommonToken<'input>, bool)> {
        Some((&*self.symbol, true))
    }
}
pub type RCtx<'input> = BaseParserRuleContext<'input, RExt>;
#[derive(Clone)]
pub struct RExt {
    rule: usize,
    alt: Cell<isize>,
}
antlr_rust::tid! {RExt}
impl<'input> CustomRuleContext<'input> for RExt {
    type TF = SimTF;
    type Ctx = SimNode;
    fn get_rule_index(&self) -> usize {
        self.rule
    }
    fn get_alt_number(&self) -> isize {
        self.alt.get()
    }
    fn set_alt_number(&self, a: isize) {
        self.alt.set(a)
    }
}
impl<'input> SimCtx<'input> for RCtx<'input> {
    fn leaf(&self) -> Option<(&CommonToken<'input>, bool)> {
        None
    }
    fn alt(&self) -> isize {
        self.alt.get()
    }
    fn set_alt(&self, a: isize) {
        self.alt.set(a)
    }
}
/// context of a rule whose alternatives are labelled, as the tool generates it
#[derive(Debug)]
pub enum LCtx<'input> {
    Odd(RCtx<'input>),
    Even(RCtx<'input>),
    Error(RCtx<'input>),
}
antlr_rust::tid! {LCtx<'a>}
impl<'input> DerefSeal for LCtx<'input> {}
impl<'input> Deref for LCtx<'input> {
    type Target = dyn SimCtx<'input> + 'input;
    fn deref(&self) -> &Self::Target {
        match self {
            LCtx::Odd(x) => x,
            LCtx::Even(x) => x,
            LCtx::Error(x) => x,
        }
    }
}
impl<'input> SimCtx<'input> for LCtx<'input> {
    fn leaf(&self) -> Option<(&CommonToken<'input>, bool)> {
        self.deref().leaf()
    }
    fn alt(&self) -> isize {
        self.deref().alt()
    }
    fn set_alt(&self, a: isize) {
        self.deref().set_alt(a)
    }
    fn labelled(&self) -> bool {
        true
    }
}
impl<'input, 'a> Listenable<dyn SimListener<'input> + 'a> for LCtx<'input> {
    fn enter(&self, l: &mut (dyn SimListener<'input> + 'a)) {
        self.deref().enter(l)
    }
    fn exit(&self, l: &mut (dyn SimListener<'input> + 'a)) {
        self.deref().exit(l)
    }
}
impl<'input, 'a> Visitable<dyn SimVisitor<'input> + 'a> for LCtx<'input> {
    fn accept(&self, v: &mut (dyn SimVisitor<'input> + 'a)) {
        v.visit_rule(self)
    }
}
/// the context of a chosen alternative, made from the rule's
fn labelled(from: &dyn SimCtx<'static>, rule: usize, alt: isize) -> Node {
    let c = BaseParserRuleContext::copy_from(from, RExt { rule, alt: Cell::new(0) });
    Rc::new(if alt % 2 == 1 { LCtx::Odd(c) } else { LCtx::Even(c) })
}
pub type Node = Rc<dyn SimCtx<'static>>;
impl<'input, 'a> Listenable<dyn SimListener<'input> + 'a> for RCtx<'input> {
    fn enter(&self, l: &mut (dyn SimListener<'input> + 'a)) {
        l.enter_every_rule(self)
    }
    fn exit(&self, l: &mut (dyn SimListener<'input> + 'a)) {
        l.exit_every_rule(self)
    }
}
// visiting
pub trait SimVisitor<'input>: ParseTreeVisitor<'input, SimNode> {
    fn visit_rule(&mut self, n: &(dyn SimCtx<'input> + 'input));
}
impl<'input, 'a> Visitable<dyn SimVisitor<'input> + 'a> for RCtx<'input> {
    fn accept(&self, v: &mut (dyn SimVisitor<'input> + 'a)) {
        v.visit_rule(self)
    }
}
/// user members of the parser: per-job configuration and logs
pub struct Ext {
    pub names: Vec<&'static str>,
    pub vocab: VocabularyImpl,
    pub pred_seed: u64,
    pub pred_pos: bool,
    /// position at which the running prediction started, or -1
    pub predict_at: Cell<isize>,
    pub notes: Note,
}
antlr_rust::tid! {Ext}
impl<'input> TokenAware<'input> for Ext {
    type TF = SimTF;
}
pub type BP = BaseParser<'static, Ext, SimTokens, SimNode, dyn SimListener<'static> + 'static>;
impl ParserRecog<'static, BP> for Ext {}
impl Actions<'static, BP> for Ext {
    fn get_grammar_file_name(&self) -> &str {
        "Sim.g4"
    }
    fn get_rule_names(&self) -> &[&str] {
        &self.names
    }
    fn get_vocabulary(&self) -> &dyn Vocabulary {
        &self.vocab
    }
    fn sempred(
        l: Option<&(dyn SimCtx<'static> + 'static)>,
        rule: isize,
        pred: isize,
        recog: &mut BP,
    ) -> bool {
        callback(Cb::Sempred);
        let at = recog.predict_at.get();
        let ix = recog.input.index();
        if at >= 0 && ix != at {
            recog.notes.borrow_mut().push(format!("predicate {pred} evaluated at position {ix} while predicting from {at}"));
        }
        let mut start = 0;
        if ctx_dependent(pred as u16) {
            match l {
                Some(c) if c.get_rule_index() as isize == rule => start = c.start().get_token_index(),
                Some(c) => recog.notes.borrow_mut().push(format!("predicate {pred} of rule {rule} got a context of rule {}", c.get_rule_index())),
                None => recog.notes.borrow_mut().push(format!("predicate {pred} got no context")),
            }
        }
        pred_value(recog.pred_seed, recog.pred_pos, pred as u16, ix as usize, start as usize)
    }
}
/// predicates that look at the rule they are in: prediction asks them only in the rule in which
/// the decision is, and gives them its context
pub fn ctx_dependent(id: u16) -> bool {
    id % 3 == 2
}
/// `start`: where the rule the predicate is in began
pub fn pred_value(seed: u64, pos: bool, id: u16, at: usize, start: usize) -> bool {
    let x = crate::rt::mix2(seed, 1 + id as u64);
    if ctx_dependent(id) {
        return crate::rt::mix2(x, start as u64) % 3 != 0;
    }
    if pos && x & 1 == 0 {
        crate::rt::mix2(x, at as u64) % 3 != 0
    } else {
        x % 3 != 0
    }
}

// ---------------------------------------------------------------- logs
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord)]
pub struct ErrRec {
    pub line: isize,
    pub col: isize,
    pub tok: isize,
    pub tt: isize,
    pub msg: String,
    /// stream position when delivered
    pub at: isize,
    /// which listener-relative sequence number (filled by listener)
    pub kind: String,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Ambig {
    /// prediction it belongs to, and the rule it was made in
    pub n: usize,
    pub rule: usize,
    pub kind: char,
    pub dec: isize,
    pub start: isize,
    pub stop: isize,
    pub exact: bool,
    pub alts: Vec<usize>,
}
struct EL {
    id: usize,
    /// (own, current): listeners are cleared when the latter grows
    gen: (u32, Rc<Cell<u32>>),
    notes: Note,
    log: Rc<RefCell<Vec<(usize, ErrRec)>>>,
    amb: Option<Rc<RefCell<Vec<Ambig>>>>,
    /// messages of the diagnostic listener go here, if there is one
    diag: Option<Diags>,
}
/// listener it came to, and the message
pub type Diags = Rc<RefCell<Vec<(usize, ErrRec)>>>;
impl ErrorListener<'static, BP> for EL {
    fn syntax_error(
        &self,
        r: &BP,
        off: Option<&CommonToken<'static>>,
        line: isize,
        column: isize,
        msg: &str,
        e: Option<&ANTLRError>,
    ) {
        callback(Cb::ErrListener);
        if self.gen.0 != self.gen.1.get() {
            self.notes.borrow_mut().push(format!("error listener {} was told of an error after it was removed", self.id));
            return;
        }
        let kind = match e {
            None => "none",
            Some(ANTLRError::NoAltError(_)) => "noalt",
            Some(ANTLRError::InputMismatchError(_)) => "mismatch",
            Some(ANTLRError::PredicateError(_)) => "pred",
            _ => "other",
        };
        let log = match &self.diag {
            Some(d) if e.is_none() && msg.starts_with("report") => d,
            _ => &self.log,
        };
        log.borrow_mut().push((
            self.id,
            ErrRec {
                line,
                col: column,
                tok: off.map_or(-9, |t| t.get_token_index()),
                tt: off.map_or(-9, |t| t.get_token_type()),
                msg: msg.to_string(),
                at: r.input.index(),
                kind: kind.into(),
            },
        ));
    }
    fn report_ambiguity(&self, _r: &BP, dfa: &DFA, start: isize, stop: isize, exact: bool, alts: &BitSet, _c: &ATNConfigSet) {
        callback(Cb::AmbigListener);
        if let Some(a) = &self.amb {
            a.borrow_mut().push(Ambig { n: usize::MAX, rule: usize::MAX, kind: 'A', dec: dfa.decision, start, stop, exact, alts: alts.iter().collect() });
        }
    }
    fn report_attempting_full_context(&self, _r: &BP, dfa: &DFA, start: isize, stop: isize, alts: &BitSet, _c: &ATNConfigSet) {
        callback(Cb::AmbigListener);
        if let Some(a) = &self.amb {
            a.borrow_mut().push(Ambig { n: usize::MAX, rule: usize::MAX, kind: 'F', dec: dfa.decision, start, stop, exact: false, alts: alts.iter().collect() });
        }
    }
    fn report_context_sensitivity(&self, _r: &BP, dfa: &DFA, start: isize, stop: isize, p: isize, _c: &ATNConfigSet) {
        callback(Cb::AmbigListener);
        if let Some(a) = &self.amb {
            a.borrow_mut().push(Ambig { n: usize::MAX, rule: usize::MAX, kind: 'S', dec: dfa.decision, start, stop, exact: false, alts: vec![p as usize] });
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ev {
    E(usize, isize),
    X(usize, isize),
    T(isize),
    Err(isize, String),
}
pub struct PL {
    pub id: usize,
    pub log: Rc<RefCell<Vec<(usize, Ev)>>>,
    pub own: u64,
}
impl PL {
    fn ev(&self, e: Ev) {
        callback(Cb::ParseListener);
        self.log.borrow_mut().push((self.id, e));
    }
}
impl ParseTreeListener<'static, SimNode> for PL {
    fn visit_terminal(&mut self, n: &TerminalNode<'static, SimNode>) {
        self.ev(Ev::T(n.symbol.get_token_index()))
    }
    fn visit_error_node(&mut self, n: &ErrorNode<'static, SimNode>) {
        self.ev(Ev::Err(n.symbol.get_token_index(), n.symbol.get_text().to_string()))
    }
    fn enter_every_rule(&mut self, c: &(dyn SimCtx<'static> + 'static)) {
        self.ev(Ev::E(c.get_rule_index(), c.start().get_token_index()))
    }
    fn exit_every_rule(&mut self, c: &(dyn SimCtx<'static> + 'static)) {
        self.ev(Ev::X(c.get_rule_index(), c.start().get_token_index()))
    }
}
impl SimListener<'static> for PL {}
thread_local! {
    /// where listeners without fields log
    static ZLOG: RefCell<Rc<RefCell<Vec<(usize, Ev)>>>> = Default::default();
}
/// a listener without fields
pub struct ZL<const K: usize>;
impl<const K: usize> ZL<K> {
    fn ev(&self, e: Ev) {
        callback(Cb::ParseListener);
        ZLOG.with(|l| l.borrow().borrow_mut().push((K, e)));
    }
}
impl<const K: usize> ParseTreeListener<'static, SimNode> for ZL<K> {
    fn visit_terminal(&mut self, n: &TerminalNode<'static, SimNode>) {
        self.ev(Ev::T(n.symbol.get_token_index()))
    }
    fn visit_error_node(&mut self, n: &ErrorNode<'static, SimNode>) {
        self.ev(Ev::Err(n.symbol.get_token_index(), n.symbol.get_text().to_string()))
    }
    fn enter_every_rule(&mut self, c: &(dyn SimCtx<'static> + 'static)) {
        self.ev(Ev::E(c.get_rule_index(), c.start().get_token_index()))
    }
    fn exit_every_rule(&mut self, c: &(dyn SimCtx<'static> + 'static)) {
        self.ev(Ev::X(c.get_rule_index(), c.start().get_token_index()))
    }
}
impl<const K: usize> SimListener<'static> for ZL<K> {}
enum AnyId {
    P(ListenerId<PL>),
    Z0(ListenerId<ZL<0>>),
    Z1(ListenerId<ZL<1>>),
    Z2(ListenerId<ZL<2>>),
    Z3(ListenerId<ZL<3>>),
    Z4(ListenerId<ZL<4>>),
}
fn add_listener(base: &mut BP, id: usize, zst: bool, log: &Rc<RefCell<Vec<(usize, Ev)>>>) -> AnyId {
    match (zst, id) {
        (true, 0) => AnyId::Z0(base.add_parse_listener(Box::new(ZL::<0>))),
        (true, 1) => AnyId::Z1(base.add_parse_listener(Box::new(ZL::<1>))),
        (true, 2) => AnyId::Z2(base.add_parse_listener(Box::new(ZL::<2>))),
        (true, 3) => AnyId::Z3(base.add_parse_listener(Box::new(ZL::<3>))),
        (true, 4) => AnyId::Z4(base.add_parse_listener(Box::new(ZL::<4>))),
        _ => AnyId::P(base.add_parse_listener(Box::new(PL { id, log: log.clone(), own: id as u64 * 17 + 3 }))),
    }
}
fn remove_listener(base: &mut BP, k: usize, id: AnyId, notes: &Note) {
    match id {
        AnyId::P(id) => {
            let l = base.remove_parse_listener(id);
            if l.own != k as u64 * 17 + 3 || l.id != k {
                notes.borrow_mut().push(format!("removing listener {k} returned another one"));
            }
        }
        AnyId::Z0(id) => drop(base.remove_parse_listener(id)),
        AnyId::Z1(id) => drop(base.remove_parse_listener(id)),
        AnyId::Z2(id) => drop(base.remove_parse_listener(id)),
        AnyId::Z3(id) => drop(base.remove_parse_listener(id)),
        AnyId::Z4(id) => drop(base.remove_parse_listener(id)),
    }
}
/// Every event reaches the listeners attached at that time, once each, in the order in which they
/// were added (reversed when a rule is left).
pub fn check_lockstep<T: PartialEq + std::fmt::Debug>(
    evs: &[(usize, T)],
    changes: &[(usize, Vec<usize>)],
    rev: impl Fn(&T) -> bool,
) -> Option<String> {
    let mut i = 0;
    let mut c = 0;
    while i < evs.len() {
        while c + 1 < changes.len() && changes[c + 1].0 <= i {
            c += 1;
        }
        let mut act = changes[c].1.clone();
        if rev(&evs[i].1) {
            act.reverse();
        }
        for (n, &k) in act.iter().enumerate() {
            match evs.get(i + n) {
                Some(e) if e.0 == k && e.1 == evs[i].1 => {}
                x => return Some(format!("listeners {act:?} attached, event {i} is {:?}, but {} is {x:?}", evs[i], i + n)),
            }
        }
        if act.is_empty() {
            return Some(format!("event {i} ({:?}) with no listener attached", evs[i]));
        }
        i += act.len();
    }
    None
}
struct SV {
    log: Vec<Ev>,
}
impl ParseTreeVisitor<'static, SimNode> for SV {
    fn visit_terminal(&mut self, n: &TerminalNode<'static, SimNode>) {
        self.log.push(Ev::T(n.symbol.get_token_index()))
    }
    fn visit_error_node(&mut self, n: &ErrorNode<'static, SimNode>) {
        self.log.push(Ev::Err(n.symbol.get_token_index(), n.symbol.get_text().to_string()))
    }
}
impl<'input, T> VisitableDyn<T> for dyn SimCtx<'input> + 'input
where
    T: SimVisitor<'input>,
{
    fn accept_dyn(&self, v: &mut T) {
        self.accept(v as &mut (dyn SimVisitor<'input> + '_))
    }
}
impl SimVisitor<'static> for SV {
    fn visit_rule(&mut self, n: &(dyn SimCtx<'static> + 'static)) {
        let s = n.start().get_token_index();
        self.log.push(Ev::E(n.get_rule_index(), s));
        self.visit_children(n);
        self.log.push(Ev::X(n.get_rule_index(), s));
    }
}

/// visitor with results: counts the leaves it is led to, and stops among the children of one rule
struct CV {
    result: (u32, u32),
    /// visit no more children of this rule once that many leaves were counted below it
    stop: Option<(usize, u32)>,
    now: Vec<usize>,
}
impl ParseTreeVisitorCompat<'static> for CV {
    type Node = SimNode;
    type Return = (u32, u32);
    fn temp_result(&mut self) -> &mut (u32, u32) {
        &mut self.result
    }
    fn visit_terminal(&mut self, _: &TerminalNode<'static, SimNode>) -> (u32, u32) {
        (1, 0)
    }
    fn visit_error_node(&mut self, _: &ErrorNode<'static, SimNode>) -> (u32, u32) {
        (0, 1)
    }
    fn aggregate_results(&self, a: (u32, u32), b: (u32, u32)) -> (u32, u32) {
        (a.0 + b.0, a.1 + b.1)
    }
    fn should_visit_next_child(&self, _: &(dyn SimCtx<'static> + 'static), cur: &(u32, u32)) -> bool {
        self.stop.map_or(true, |(r, n)| self.now.last() != Some(&r) || cur.0 + cur.1 < n)
    }
}
impl SimVisitor<'static> for CV {
    fn visit_rule(&mut self, n: &(dyn SimCtx<'static> + 'static)) {
        self.now.push(n.get_rule_index());
        ParseTreeVisitor::visit_children(self, n);
        self.now.pop();
    }
}
/// what the counting visitor must come to
pub fn count(n: &NodeRec, stop: Option<(usize, u32)>) -> (u32, u32) {
    if let Some(l) = &n.leaf {
        return (!l.err as u32, l.err as u32);
    }
    let mut c = (0, 0);
    for k in &n.kids {
        if stop.map_or(false, |(r, m)| r == n.rule && c.0 + c.1 >= m) {
            break;
        }
        let x = count(k, stop);
        c = (c.0 + x.0, c.1 + x.1);
    }
    c
}

// ---------------------------------------------------------------- shared grammar data
pub struct PShared {
    pub prog: Prog,
    pub atn: Arc<ATN>,
    pub dfa: Arc<Vec<RwLock<DFA>>>,
    pub cache: Arc<PredictionContextCache>,
}
impl PShared {
    pub fn new(prog: Prog) -> PShared {
        let atn = Arc::new(ATNDeserializer::new(None).deserialize(prog.atn.chars()));
        Self::with_atn(prog, atn)
    }
    pub fn with_atn(prog: Prog, atn: Arc<ATN>) -> PShared {
        let mut v = vec![];
        for i in 0..atn.decision_to_state.len() {
            v.push(DFA::new(atn.clone(), atn.get_decision_state(i), i as isize).into());
        }
        PShared { prog, atn, dfa: Arc::new(v), cache: Arc::new(PredictionContextCache::new()) }
    }
    /// same grammar, unused caches
    pub fn fresh(&self) -> PShared {
        Self::with_atn(self.prog.clone(), self.atn.clone())
    }
    pub fn same(&self) -> PShared {
        PShared { prog: self.prog.clone(), atn: self.atn.clone(), dfa: self.dfa.clone(), cache: self.cache.clone() }
    }
    pub fn dfa_states(&self) -> usize {
        self.dfa.iter().map(|d| d.read().states.len()).sum()
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Mode {
    Sll,
    Ll,
    Exact,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Strat {
    Default,
    Bail,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct PJob {
    pub toks: Vec<TokSpec>,
    pub stream: StreamKind,
    pub mode: Mode,
    pub strat: Strat,
    pub pred_seed: u64,
    pub pred_pos: bool,
    pub start: usize,
    pub listeners: usize,
    pub err_listeners: usize,
    pub trees: bool,
    /// remove parse listener k after the n-th rule entry (all of them if there is no k-th)
    pub remove_at: Option<(usize, u32)>,
    /// add one more parse listener after the n-th rule entry
    #[serde(default)]
    pub add_at: Option<u32>,
    /// parse listeners have no fields
    #[serde(default)]
    pub zst: bool,
    /// after the n-th rule entry, 0: add one more error listener, 1: remove all error listeners and
    /// add as many again
    #[serde(default)]
    pub err_change: Option<(u32, u8)>,
    /// a diagnostic error listener is attached (reporting exact ambiguities only)
    #[serde(default)]
    pub diag: Option<bool>,
    /// asks for the expected tokens all along
    #[serde(default)]
    pub ask: bool,
    /// when done, the same parser is asked to go on with this rule
    #[serde(default)]
    pub again: Option<usize>,
    /// in this prediction mode
    #[serde(default)]
    pub again_mode: Option<Mode>,
    /// begins at the first token in sight from this position on
    #[serde(default)]
    pub skip: isize,
}
impl PJob {
    pub fn simple(toks: Vec<i32>) -> PJob {
        PJob {
            toks: toks.into_iter().map(|t| TokSpec { t, ch: 0 }).collect(),
            stream: StreamKind::Common,
            mode: Mode::Ll,
            strat: Strat::Default,
            pred_seed: 0,
            pred_pos: false,
            start: 0,
            listeners: 0,
            err_listeners: 1,
            trees: true,
            remove_at: None,
            add_at: None,
            zst: false,
            err_change: None,
            diag: None,
            ask: false,
            again: None,
            again_mode: None,
            skip: 0,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Leaf {
    pub ix: isize,
    pub tt: isize,
    pub err: bool,
    pub text: String,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct NodeRec {
    pub rule: usize,
    pub alt: isize,
    pub start: isize,
    pub stop: isize,
    pub parent_ok: bool,
    pub leaf: Option<Leaf>,
    pub kids: Vec<NodeRec>,
}
#[derive(Clone, Debug, Default)]
pub struct POut {
    pub tree: Option<String>,
    pub root: Option<NodeRec>,
    pub dup_node: bool,
    pub result: String,
    pub errs: Vec<(usize, ErrRec)>,
    pub ambs: Vec<Ambig>,
    pub diags: Vec<(usize, ErrRec)>,
    pub events: Vec<(usize, Ev)>,
    pub walk: Vec<Ev>,
    pub visit: Vec<Ev>,
    pub decisions: Vec<(usize, usize)>,
    /// every prediction: decision, position, alternative or tokens of the error
    pub outcomes: Vec<(usize, isize, Result<usize, (isize, isize)>)>,
    pub notes: Vec<String>,
    pub end_index: isize,
    pub marks: usize,
    pub asked: usize,
    pub acts: Vec<u16>,
    /// tokens handed to the generated code: index and type
    pub given: Vec<(isize, isize)>,
    /// what asking the finished tree found wrong
    pub queries: Option<String>,
    pub counts: Option<String>,
    pub predicts: u32,
    /// states the generated code came to, with what was expected there
    pub expects: Vec<(usize, String)>,
    pub preds: u32,
    pub string_tree: String,
    pub tree_text: String,
    /// what the rule asked for next on the same parser gave (unless the first one ended amid
    /// recovery, which the parser rightly remembers)
    pub again: Option<Box<POut>>,
    /// where that began
    pub again_at: isize,
}

type Eh = Box<dyn ErrorStrategy<'static, BP> + 'static>;
struct P {
    base: BP,
    interp: Arc<ParserATNSimulator>,
    eh: Eh,
    prog: Rc<Prog>,
    decisions: Vec<(usize, usize)>,
    outcomes: Vec<(usize, isize, Result<usize, (isize, isize)>)>,
    acts: Vec<u16>,
    given: Vec<(isize, isize)>,
    /// rules being run
    stack: Vec<usize>,
    err_ids: Vec<usize>,
    err_changes: Vec<(usize, Vec<usize>)>,
    err_change: Option<(u32, u8)>,
    err_gen: Rc<Cell<u32>>,
    errs: Rc<RefCell<Vec<(usize, ErrRec)>>>,
    ambs: Rc<RefCell<Vec<Ambig>>>,
    entries: u32,
    remove_at: Option<(usize, u32)>,
    add_at: Option<u32>,
    zst: bool,
    ids: Vec<Option<AnyId>>,
    /// listeners attached from that point of the event log on
    changes: Vec<(usize, Vec<usize>)>,
    evs: Rc<RefCell<Vec<(usize, Ev)>>>,
    notes: Note,
    ask: bool,
    expects: Vec<(usize, String)>,
    predicts: u32,
    /// where the parser is, and how long it has been there
    still: (isize, u32),
}
type Res<T> = Result<T, ANTLRError>;
/// places of the grammar a parser may come by without moving on
const STILL: u32 = 600;
impl P {
    fn predict(&mut self, dec: usize) -> Res<isize> {
        let at = self.base.input.index();
        let m = self.base.input.marks;
        self.base.predict_at.set(at);
        self.predicts += 1;
        let prog = self.prog.clone();
        let r = match &prog.ll1[dec] {
            Some(l) => {
                let la = self.base.input.la(1) as i32;
                match (l.sets.iter().position(|s| s.contains(&la)), l.other) {
                    (Some(k), _) => Ok(k as isize + 1),
                    (None, Some(k)) => Ok(k as isize),
                    (None, None) => Err(ANTLRError::NoAltError(NoViableAltError::new(&mut self.base))),
                }
            }
            None => self.interp.adaptive_predict(dec as isize, &mut self.base),
        };
        self.base.predict_at.set(-1);
        let at2 = self.base.input.index();
        if at2 != at {
            self.base.notes.borrow_mut().push(format!("prediction of decision {dec} started at {at} and left the stream at {at2} ({})", if r.is_ok() { "ok" } else { "error" }));
        }
        if self.base.input.marks != m {
            self.base.notes.borrow_mut().push(format!("prediction of decision {dec} took {} marks and left {} ({})", m, self.base.input.marks, if r.is_ok() { "ok" } else { "error" }));
        }
        let o = match &r {
            Ok(k) => Ok(*k as usize),
            Err(ANTLRError::NoAltError(e)) => Err((e.start_token.get_token_index(), e.base.offending_token.get_token_index())),
            Err(_) => Err((-9, -9)),
        };
        let n = self.outcomes.len();
        self.ambs.borrow_mut().iter_mut().rev().take_while(|a| a.n == usize::MAX).for_each(|a| {
            a.n = n;
            a.rule = self.stack.last().copied().unwrap_or(usize::MAX);
        });
        self.outcomes.push((dec, at, o));
        let r = r?;
        self.decisions.push((dec, r as usize));
        Ok(r)
    }
    fn new_ctx(&mut self, rule: usize, labelled: bool, parent: Option<Node>, inv: isize) -> Node {
        let c = BaseParserRuleContext::new_parser_ctx(parent, inv, RExt { rule, alt: Cell::new(0) });
        if labelled {
            Rc::new(LCtx::Error(c))
        } else {
            Rc::new(c)
        }
    }
    fn changed(&mut self) {
        let now = (0..self.ids.len()).filter(|&k| self.ids[k].is_some()).collect();
        self.changes.push((self.evs.borrow().len(), now));
    }
    fn tick(&mut self) {
        callback(Cb::Rule);
        self.entries += 1;
        if let Some((k, n)) = self.remove_at {
            if n == self.entries {
                if k >= self.ids.len() {
                    self.base.remove_parse_listeners();
                    self.ids.iter_mut().for_each(|x| *x = None);
                } else if let Some(id) = self.ids[k].take() {
                    remove_listener(&mut self.base, k, id, &self.notes);
                }
                self.changed();
            }
        }
        let want: Vec<String> = self.stack.iter().rev().map(|r| format!("r{r}")).collect();
        let got = if want.is_empty() { vec![] } else { self.base.get_rule_invocation_stack() };
        if got != want {
            self.notes.borrow_mut().push(format!("invocation stack {got:?} instead of {want:?}"));
        }
        if let Some((n, kind)) = self.err_change {
            if n == self.entries {
                if kind == 0 {
                    self.err_ids.push(self.err_ids.len());
                } else {
                    self.base.remove_error_listeners();
                    self.err_gen.set(self.err_gen.get() + 1);
                }
                let from = if kind == 0 { self.err_ids.len() - 1 } else { 0 };
                for id in from..self.err_ids.len() {
                    self.base.add_error_listener(Box::new(EL {
                        id,
                        gen: (self.err_gen.get(), self.err_gen.clone()),
                        notes: self.notes.clone(),
                        log: self.errs.clone(),
                        amb: if id == 0 { Some(self.ambs.clone()) } else { None },
                        diag: None,
                    }));
                }
                self.err_changes.push((self.errs.borrow().len(), self.err_ids.clone()));
            }
        }
        if self.add_at == Some(self.entries) {
            let k = self.ids.len();
            let id = add_listener(&mut self.base, k, self.zst, &self.evs);
            self.ids.push(Some(id));
            self.changed();
        }
    }
    fn ops(&mut self, ops: &[Op]) -> Res<()> {
        for op in ops {
            self.op(op)?;
        }
        Ok(())
    }
    /// the generated code comes to that state
    fn at(&mut self, st: usize) {
        let i = self.base.input.index();
        self.still = if i == self.still.0 { (i, self.still.1 + 1) } else { (i, 0) };
        if self.still.1 > STILL {
            panic!("the parser goes on for ever at token {i}");
        }
        self.base.set_state(st as isize);
        if self.ask {
            let e = InputMisMatchError::new(&mut self.base);
            let set = e.base.get_expected_tokens(&self.base);
            let s = format!("{} at {}", set.to_token_string(&self.base.vocab), e.base.offending_token.get_token_index());
            self.expects.push((st, s));
        }
    }
    fn op(&mut self, op: &Op) -> Res<()> {
        match op {
            Op::Tok { st, t } => {
                self.at(*st);
                let t = self.base.match_token(*t as isize, &mut self.eh)?;
                self.given.push((t.get_token_index(), t.get_token_type()));
            }
            Op::Set { st, v, not } => {
                self.at(*st);
                let la = self.base.input.la(1);
                let tok = self.base.input.lt(1).map_or((-9, -9), |t| (t.get_token_index(), t.get_token_type()));
                let hit = v.iter().any(|&(a, b)| a as isize <= la && la <= b as isize);
                let ok = if *not { la > 0 && !hit } else { hit };
                if !ok {
                    let t = self.eh.recover_inline(&mut self.base)?;
                    self.given.push((t.get_token_index(), t.get_token_type()));
                } else {
                    self.given.push(tok);
                    if la == TOKEN_EOF {
                        self.base.matched_eof = true;
                    }
                    self.eh.report_match(&mut self.base);
                    self.base.consume(&mut self.eh);
                }
            }
            Op::Any { st } => {
                self.at(*st);
                let t = self.base.match_wildcard(&mut self.eh)?;
                self.given.push((t.get_token_index(), t.get_token_type()));
            }
            Op::Rule { st, rule, prec } => {
                self.at(*st);
                self.rule(*rule, *prec)?;
            }
            Op::Pred { st, id } => {
                self.at(*st);
                let ctx = self.base.ctx.clone();
                let ri = ctx.as_ref().unwrap().get_rule_index() as isize;
                if !Recognizer::sempred(&mut self.base, ctx.as_deref(), ri, *id as isize) {
                    Err(FailedPredicateError::new(&mut self.base, Some(format!("p{id}")), None))?;
                }
            }
            Op::Act { id, .. } => {
                callback(Cb::Action);
                self.acts.push(*id);
            }
            Op::Alts { st, dec, alts } => {
                self.at(*st);
                self.eh.sync(&mut self.base)?;
                let k = self.predict(*dec)?;
                if let Some(a) = alts.get((k - 1) as usize) {
                    self.ops(a)?;
                }
            }
            Op::Opt { st, dec, exit_first, alts } => {
                self.at(*st);
                self.eh.sync(&mut self.base)?;
                let k = self.predict(*dec)?;
                let j = k - 1 - *exit_first as isize;
                if j >= 0 {
                    if let Some(a) = alts.get(j as usize) {
                        self.ops(a)?;
                    }
                }
            }
            Op::Star { st, dec, back, exit_first, blk, alts } => {
                self.at(*st);
                self.eh.sync(&mut self.base)?;
                let exit = if *exit_first { 1 } else { 2 };
                let mut k = self.predict(*dec)?;
                while k != exit && k != INVALID_ALT {
                    self.body(*blk, alts)?;
                    self.at(*back);
                    self.eh.sync(&mut self.base)?;
                    k = self.predict(*dec)?;
                }
            }
            Op::Plus { st, blk, back, dec, exit_first, alts } => {
                let exit = if *exit_first { 1 } else { 2 };
                self.at(*st);
                self.eh.sync(&mut self.base)?;
                loop {
                    self.body(blk.map(|d| (*st, d)), alts)?;
                    self.at(*back);
                    self.eh.sync(&mut self.base)?;
                    let k = self.predict(*dec)?;
                    if k == exit || k == INVALID_ALT {
                        break;
                    }
                }
            }
        }
        Ok(())
    }
    fn body(&mut self, blk: Option<(usize, usize)>, alts: &[Vec<Op>]) -> Res<()> {
        match blk {
            None => self.ops(&alts[0]),
            Some((st, dec)) => {
                self.base.set_state(st as isize);
                self.eh.sync(&mut self.base)?;
                let k = self.predict(dec)?;
                match alts.get((k - 1) as usize) {
                    Some(a) => self.ops(a),
                    None => Ok(()),
                }
            }
        }
    }
    fn rule(&mut self, ri: usize, prec: i32) -> Res<Node> {
        self.tick();
        self.stack.push(ri);
        let r = self.rule2(ri, prec);
        self.stack.pop();
        r
    }
    fn rule2(&mut self, ri: usize, prec: i32) -> Res<Node> {
        let prog = self.prog.clone();
        let rp = &prog.rules[ri];
        if let Some(lr) = &rp.lr {
            return self.lr_rule(ri, rp, lr, prec);
        }
        let parent = self.base.ctx.take();
        let mut local = self.new_ctx(ri, rp.labelled, parent.clone(), self.base.get_state());
        self.base.enter_rule(local.clone(), rp.start as isize, ri);
        let result: Res<()> = (|| {
            let k = match rp.dec {
                None => 1,
                Some((st, dec)) => {
                    self.base.set_state(st as isize);
                    self.eh.sync(&mut self.base)?;
                    self.predict(dec)?
                }
            };
            if let Some(a) = rp.alts.get((k - 1) as usize) {
                if rp.labelled {
                    let n = labelled(&*local, ri, k);
                    n.set_alt(k);
                    self.base.enter_outer_alt(Some(n.clone()), k);
                    local = n;
                } else {
                    local.set_alt(k);
                    self.base.enter_outer_alt(None, k);
                }
                self.ops(a)?;
            }
            Ok(())
        })();
        match result {
            Ok(_) => {}
            Err(e @ ANTLRError::FallThrough(_)) => return Err(e),
            Err(ref re) => {
                self.eh.report_error(&mut self.base, re);
                self.eh.recover(&mut self.base, re)?;
            }
        }
        self.base.exit_rule();
        Ok(local)
    }
    fn lr_rule(&mut self, ri: usize, rp: &RuleProg, lr: &LrProg, prec: i32) -> Res<Node> {
        let parent = self.base.ctx.take();
        let pstate = self.base.get_state();
        let mut local = self.new_ctx(ri, rp.labelled, parent.clone(), pstate);
        self.base.enter_recursion_rule(local.clone(), rp.start as isize, ri, prec as isize);
        let result: Res<()> = (|| {
            self.base.enter_outer_alt(None, 1);
            let k = match lr.prim_dec {
                None => 1,
                Some((st, dec)) => {
                    self.base.set_state(st as isize);
                    self.eh.sync(&mut self.base)?;
                    self.predict(dec)?
                }
            };
            if let Some((alt, ops)) = lr.prim.get((k - 1) as usize) {
                if rp.labelled {
                    let n = labelled(&*local, ri, *alt as isize);
                    self.base.ctx = Some(n.clone());
                    local = n;
                }
                local.set_alt(*alt as isize);
                self.ops(ops)?;
            }
            let tmp = self.base.input.lt(-1).cloned();
            self.base.ctx.as_ref().unwrap().set_stop(tmp);
            self.base.set_state(lr.entry as isize);
            self.eh.sync(&mut self.base)?;
            let mut k = self.predict(lr.dec)?;
            while k != 2 && k != INVALID_ALT {
                if k == 1 {
                    self.base.trigger_exit_rule_event();
                    let j = match lr.blk {
                        None => 1,
                        Some((st, dec)) => {
                            self.base.set_state(st as isize);
                            self.eh.sync(&mut self.base)?;
                            self.predict(dec)?
                        }
                    };
                    if let Some((alt, pst, p, ops)) = lr.ops.get((j - 1) as usize) {
                        let mut tmp = self.new_ctx(ri, rp.labelled, parent.clone(), pstate);
                        if rp.labelled {
                            tmp = labelled(&*tmp, ri, *alt as isize);
                        }
                        tmp.set_alt(*alt as isize);
                        self.base.push_new_recursion_context(tmp.clone(), rp.start as isize, ri);
                        local = tmp;
                        self.base.set_state(*pst as isize);
                        if !self.base.precpred(None, *p as isize) {
                            Err(FailedPredicateError::new(&mut self.base, Some(format!("precpred {p}")), None))?;
                        }
                        self.ops(ops)?;
                    }
                }
                self.base.set_state(lr.back as isize);
                self.eh.sync(&mut self.base)?;
                k = self.predict(lr.dec)?;
            }
            Ok(())
        })();
        match result {
            Ok(_) => {}
            Err(e @ ANTLRError::FallThrough(_)) => return Err(e),
            Err(ref re) => {
                self.eh.report_error(&mut self.base, re);
                self.eh.recover(&mut self.base, re)?;
            }
        }
        self.base.unroll_recursion_context(parent);
        Ok(local)
    }
}

fn leaf_of(n: &dyn SimCtx<'static>) -> Option<Leaf> {
    n.leaf().map(|(t, err)| Leaf {
        ix: t.get_token_index(),
        tt: t.get_token_type(),
        err,
        text: t.get_text().to_string(),
    })
}
/// what can be asked of a rule node has to agree with its children
fn ask<C>(n: &C, kids: &[Node]) -> Result<(), String>
where
    C: ParserRuleContext<'static, TF = SimTF, Ctx = SimNode>,
{
    let ptr = |x: &Node| Rc::as_ptr(x) as *const ();
    if n.get_child_count() != kids.len() {
        return Err(format!("{} children, but {} are listed", n.get_child_count(), kids.len()));
    }
    for i in 0..=kids.len() {
        if n.get_child(i).as_ref().map(ptr) != kids.get(i).map(ptr) {
            return Err(format!("child {i} is not the one listed there"));
        }
    }
    let mut text = String::new();
    kids.iter().for_each(|k| text += &k.get_text());
    if n.get_text() != text {
        return Err(format!("text {:?}, but that of its children is {text:?}", n.get_text()));
    }
    let iv = n.get_source_interval();
    if (iv.a, iv.b) != (n.start().get_token_index(), n.stop().get_token_index()) {
        return Err(format!("interval {}..{}", iv.a, iv.b));
    }
    // tokens by type: terminal nodes only
    let mut types: Vec<isize> = vec![-1, 1, 2, 3];
    types.extend(kids.iter().filter_map(|k| k.leaf().map(|l| l.0.get_token_type())));
    types.sort();
    types.dedup();
    for tt in types {
        let want: Vec<*const ()> = kids
            .iter()
            .filter(|k| k.leaf().map_or(false, |(t, err)| !err && t.get_token_type() == tt))
            .map(ptr)
            .collect();
        let all: Vec<*const ()> = n.get_tokens(tt).iter().map(|t| Rc::as_ptr(t) as *const ()).collect();
        if all != want {
            return Err(format!("{} tokens of type {tt}, but {} terminal children have it", all.len(), want.len()));
        }
        for i in 0..=want.len() {
            if n.get_token(tt, i).map(|t| Rc::as_ptr(&t) as *const ()) != want.get(i).copied() {
                return Err(format!("token {i} of type {tt} is not terminal child {i} of that type"));
            }
        }
    }
    fn typed<C, T>(n: &C, kids: &[Node], what: &str, is: impl Fn(&Node) -> bool) -> Result<(), String>
    where
        C: ParserRuleContext<'static, TF = SimTF, Ctx = SimNode>,
        T: ParserRuleContext<'static, TF = SimTF, Ctx = SimNode> + 'static,
    {
        let want: Vec<*const ()> = kids.iter().filter(|k| is(k)).map(|x| Rc::as_ptr(x) as *const ()).collect();
        let all: Vec<*const ()> = n.children_of_type::<T>().iter().map(|t| Rc::as_ptr(t) as *const ()).collect();
        if all != want {
            return Err(format!("{} children of type {what} instead of {}", all.len(), want.len()));
        }
        for i in 0..=want.len() {
            if n.child_of_type::<T>(i).map(|t| Rc::as_ptr(&t) as *const ()) != want.get(i).copied() {
                return Err(format!("child {i} of type {what} is not the one listed"));
            }
        }
        Ok(())
    }
    typed::<C, RCtx<'static>>(n, kids, "rule", |k| k.leaf().is_none() && !k.labelled())?;
    typed::<C, LCtx<'static>>(n, kids, "labelled rule", |k| k.leaf().is_none() && k.labelled())?;
    typed::<C, TerminalNode<'static, SimNode>>(n, kids, "terminal", |k| k.leaf().map_or(false, |l| !l.1))?;
    typed::<C, ErrorNode<'static, SimNode>>(n, kids, "error", |k| k.leaf().map_or(false, |l| l.1))
}
fn ask_all(n: &Node) -> Result<(), String> {
    if let Some((t, _)) = n.leaf() {
        let iv = n.get_source_interval();
        if (iv.a, iv.b) != (t.get_token_index(), t.get_token_index()) || n.get_child_count() != 0 || n.get_text() != t.get_text() {
            return Err(format!("leaf of token {} says {}..{}, {:?}", t.get_token_index(), iv.a, iv.b, n.get_text()));
        }
        return Ok(());
    }
    let kids: Vec<Node> = n.get_children().collect();
    let at = |e: String| format!("node r{} {}..{}: {e}", n.get_rule_index(), n.start().get_token_index(), n.stop().get_token_index());
    match (n.clone().downcast_rc::<RCtx<'static>>().ok(), n.clone().downcast_rc::<LCtx<'static>>().ok()) {
        (Some(c), None) => ask(&*c, &kids).map_err(at)?,
        (None, Some(c)) => {
            ask(&*c, &kids).map_err(at)?;
            match &*c {
                LCtx::Odd(x) | LCtx::Even(x) | LCtx::Error(x) => ask(x, &kids).map_err(at)?,
            }
        }
        _ => return Err("node of an unknown type".into()),
    }
    kids.iter().try_for_each(ask_all)
}
fn record(n: &Node, parent: Option<*const ()>, seen: &mut Vec<*const ()>, dup: &mut bool, depth: u32) -> NodeRec {
    let me = Rc::as_ptr(n) as *const ();
    if seen.contains(&me) || depth > 2000 {
        *dup = true;
        return NodeRec::default();
    }
    seen.push(me);
    if let Some(l) = leaf_of(&**n) {
        return NodeRec { leaf: Some(l), parent_ok: true, ..Default::default() };
    }
    let p = n.get_parent().map(|x| Rc::as_ptr(&x) as *const ());
    NodeRec {
        rule: n.get_rule_index(),
        alt: n.alt(),
        start: n.start().get_token_index(),
        stop: n.stop().get_token_index(),
        parent_ok: p == parent && n.has_parent() == parent.is_some(),
        leaf: None,
        kids: n.get_children().map(|c| record(&c, Some(me), seen, dup, depth + 1)).collect(),
    }
}
pub fn render(n: &NodeRec, o: &mut String) {
    match &n.leaf {
        Some(l) => {
            if l.err {
                o.push('!');
            }
            if l.tt == -1 {
                o.push_str("<EOF>");
            } else {
                o.push_str(&l.text);
            }
            if l.err {
                o.push_str(&format!("@{}", l.ix));
            }
        }
        None => {
            o.push_str(&format!("(r{}:{}", n.rule, n.alt));
            for k in &n.kids {
                o.push(' ');
                render(k, o);
            }
            o.push(')');
        }
    }
}

pub fn names(n: usize) -> Vec<&'static str> {
    const N: [&str; 12] = ["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11"];
    N[..n].to_vec()
}
pub fn vocab(ntok: usize) -> VocabularyImpl {
    const L: [&str; 12] = ["'a'", "'b'", "'c'", "'d'", "'e'", "'f'", "'g'", "'h'", "'i'", "'j'", "'k'", "'l'"];
    let mut v: Vec<Option<&str>> = vec![None];
    for l in L.iter().take(ntok) {
        v.push(Some(l));
    }
    VocabularyImpl::new(v.iter(), [].iter(), None)
}

/// run one parse; must be called inside a task (or inline with no simulation active)
pub fn run_parse(sh: &PShared, job: &PJob, src: Option<Src>, out: &mut POut) {
    let notes: Note = Default::default();
    let asked = Rc::new(RefCell::new(0usize));
    let src = src.unwrap_or_else(|| {
        Src::List(ListSource { toks: Rc::new(job.toks.clone()), i: 0, asked: asked.clone() })
    });
    let stream = SimTokens::new(job.stream, src, notes.clone());
    let interp = ParserATNSimulator::new(sh.atn.clone(), sh.dfa.clone(), sh.cache.clone());
    let set_mode = |i: &ParserATNSimulator, m: Mode| match m {
        Mode::Sll => i.set_prediction_mode(PredictionMode::SLL),
        Mode::Ll => i.set_prediction_mode(PredictionMode::LL),
        Mode::Exact => i.set_prediction_mode(PredictionMode::LL_EXACT_AMBIG_DETECTION),
    };
    set_mode(&interp, job.mode);
    let interp = Arc::new(interp);
    let ntok = 12;
    let ext = Ext {
        names: names(sh.prog.rules.len()),
        vocab: vocab(ntok),
        pred_seed: job.pred_seed,
        pred_pos: job.pred_pos,
        predict_at: Cell::new(-1),
        notes: notes.clone(),
    };
    let mut base: BP = BaseParser::new_base_parser(stream, interp.clone(), ext);
    base.remove_error_listeners();
    let errs: Rc<RefCell<Vec<(usize, ErrRec)>>> = Default::default();
    let ambs: Rc<RefCell<Vec<Ambig>>> = Default::default();
    let diags: Diags = Default::default();
    let err_gen: Rc<Cell<u32>> = Default::default();
    for id in 0..job.err_listeners {
        base.add_error_listener(Box::new(EL {
            id,
            gen: (0, err_gen.clone()),
            notes: notes.clone(),
            log: errs.clone(),
            amb: if id == 0 { Some(ambs.clone()) } else { None },
            diag: job.diag.map(|_| diags.clone()),
        }));
        // one that nobody is told about, between the others
        if let (0, Some(exact)) = (id, job.diag) {
            base.add_error_listener(Box::new(DiagnosticErrorListener::new(exact)));
        }
    }
    base.build_parse_trees = job.trees;
    let evs: Rc<RefCell<Vec<(usize, Ev)>>> = Default::default();
    ZLOG.with(|l| *l.borrow_mut() = evs.clone());
    let mut ids = vec![];
    for id in 0..job.listeners {
        ids.push(Some(add_listener(&mut base, id, job.zst, &evs)));
    }
    let eh: Eh = match job.strat {
        Strat::Default => Box::new(DefaultErrorStrategy::new()),
        Strat::Bail => Box::new(BailErrorStrategy::new()),
    };
    let mut p = P {
        base,
        interp,
        eh,
        prog: Rc::new(sh.prog.clone()),
        decisions: vec![],
        outcomes: vec![],
        acts: vec![],
        given: vec![],
        stack: vec![],
        err_ids: (0..job.err_listeners).collect(),
        err_changes: vec![(0, (0..job.err_listeners).collect())],
        err_change: job.err_change,
        err_gen,
        errs: errs.clone(),
        ambs: ambs.clone(),
        entries: 0,
        remove_at: job.remove_at,
        add_at: job.add_at,
        zst: job.zst,
        ids,
        changes: vec![(0, (0..job.listeners).collect())],
        evs: evs.clone(),
        notes: notes.clone(),
        predicts: 0,
        still: (-1, 0),
        ask: job.ask,
        expects: vec![],
    };
    while p.base.input.index() < job.skip && p.base.input.la(1) != TOKEN_EOF {
        p.base.input.consume();
    }
    fn take(p: &mut P, ambs: &RefCell<Vec<Ambig>>, diags: &Diags, r: &Res<Node>, out: &mut POut) {
        out.result = match r {
            Ok(_) => "ok".into(),
            Err(e) => format!("err {}", err_kind(e)),
        };
        out.errs = std::mem::take(&mut p.errs.borrow_mut());
        out.ambs = std::mem::take(&mut ambs.borrow_mut());
        out.diags = std::mem::take(&mut diags.borrow_mut());
        out.events = std::mem::take(&mut p.evs.borrow_mut());
        out.decisions = std::mem::take(&mut p.decisions);
        out.outcomes = std::mem::take(&mut p.outcomes);
        out.acts = std::mem::take(&mut p.acts);
        out.given = std::mem::take(&mut p.given);
        out.predicts = p.predicts;
        out.expects = std::mem::take(&mut p.expects);
        out.end_index = p.base.input.index();
        if let Ok(t) = r {
            let mut s = String::new();
            let rec = record(t, None, &mut vec![], &mut out.dup_node, 0);
            render(&rec, &mut s);
            out.tree = Some(s);
            out.root = Some(rec);
        }
    }
    let r = p.rule(job.start, 0);
    take(&mut p, &ambs, &diags, &r, out);
    if let (true, Some(k)) = (r.is_ok() && !p.eh.in_error_recovery_mode(&mut p.base), job.again) {
        let mut o = POut::default();
        out.again_at = out.end_index;
        if let Some(m) = job.again_mode {
            set_mode(&p.interp, m);
        }
        let r = p.rule(k, 0);
        take(&mut p, &ambs, &diags, &r, &mut o);
        out.again = Some(Box::new(o));
    }
    out.marks = p.base.input.marks;
    out.asked = *asked.borrow();
    if let Ok(t) = r {
        let rc: Node = t.clone();
        let dup = out.dup_node;
        if !dup {
            out.queries = ask_all(&rc).err();
        }
        if !dup && job.trees {
            let wl: Rc<RefCell<Vec<(usize, Ev)>>> = Default::default();
            type W<'a> = ParseTreeWalker<'static, 'a, SimNode, dyn SimListener<'static> + 'static>;
            let l = Box::new(PL { id: 0, log: wl.clone(), own: 5 });
            let back = match (rc.clone().downcast_rc::<RCtx<'static>>(), rc.clone().downcast_rc::<LCtx<'static>>()) {
                (Ok(c), _) => W::walk(l, &*c),
                (_, Ok(c)) => W::walk(l, &*c),
                _ => l,
            };
            if back.own != 5 {
                notes.borrow_mut().push("walker handed back another listener".into());
            }
            out.walk = wl.borrow().iter().map(|x| x.1.clone()).collect();
            let mut v = SV { log: vec![] };
            v.visit_node(&*rc);
            out.visit = v.log;
            for stop in [None, Some((0, 2)), Some((1, 1))] {
                let mut v = CV { result: (0, 0), stop, now: vec![] };
                let got = ParseTreeVisitorCompat::visit(&mut v, &*rc);
                let want = count(out.root.as_ref().unwrap(), stop);
                if got != want {
                    out.counts = Some(format!("visitor with results: {got:?} instead of {want:?} (stopping {stop:?})"));
                }
            }
            out.string_tree = rc.to_string_tree(&p.base);
            out.tree_text = rc.get_text();
        }
    }
    // listeners come back as themselves
    for k in 0..p.ids.len() {
        if let Some(id) = p.ids[k].take() {
            remove_listener(&mut p.base, k, id, &notes);
        }
    }
    if let Some(d) = check_lockstep(&out.events, &p.changes, |e| matches!(e, Ev::X(..))) {
        notes.borrow_mut().push(format!("listeners: {d}"));
    }
    if let Some(a) = &out.again {
        if let Some(d) = check_lockstep(&a.events, &p.changes, |e| matches!(e, Ev::X(..))) {
            notes.borrow_mut().push(format!("listeners: {d}"));
        }
        if let Some(d) = check_lockstep(&a.errs, &p.err_changes, |_| false) {
            notes.borrow_mut().push(format!("error listeners: {d}"));
        }
    }
    if let Some(d) = check_lockstep(&out.errs, &p.err_changes, |_| false) {
        notes.borrow_mut().push(format!("error listeners: {d}"));
    }
    out.notes = notes.borrow().clone();
}
pub fn err_kind(e: &ANTLRError) -> String {
    match e {
        ANTLRError::NoAltError(_) => "noalt".into(),
        ANTLRError::InputMismatchError(_) => "mismatch".into(),
        ANTLRError::PredicateError(_) => "pred".into(),
        ANTLRError::FallThrough(x) => format!("fallthrough {x}"),
        ANTLRError::LexerNoAltError { start_index } => format!("lexer {start_index}"),
        ANTLRError::IllegalStateError(s) => format!("illegal {s}"),
        _ => "other".into(),
    }
}
#[allow(dead_code)]
fn _unused(x: &dyn SimCtx<'static>) -> isize {
    x.get_invoking_state()
}
