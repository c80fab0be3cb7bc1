//! Seams around the input side: token factory, token source, token streams, char streams.
use crate::rt::{callback, Cb};
use antlr_rust::char_stream::CharStream;
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::int_stream::IntStream;
use antlr_rust::token::{CommonToken, Token};
use antlr_rust::token_factory::{CommonTokenFactory, TokenFactory};
use antlr_rust::TokenSource;
use antlr_rust::token_stream::{TokenStream, UnbufferedTokenStream};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

/// token factory with a fault seam; the work is done by the real CommonTokenFactory
#[derive(Debug)]
pub struct SimTF;
antlr_rust::tid! {SimTF}
pub static SIM_TF: SimTF = SimTF;
static COMMON: CommonTokenFactory = CommonTokenFactory;

impl<'a> TokenFactory<'a> for SimTF {
    type Inner = CommonToken<'a>;
    type Tok = Box<CommonToken<'a>>;
    type Data = str;
    type From = Cow<'a, str>;
    fn create<T>(
        &'a self,
        source: Option<&mut T>,
        ttype: isize,
        text: Option<String>,
        channel: isize,
        start: isize,
        stop: isize,
        line: isize,
        column: isize,
    ) -> Self::Tok
    where
        T: CharStream<Self::From> + ?Sized,
    {
        callback(Cb::Factory);
        COMMON.create(source, ttype, text, channel, start, stop, line, column)
    }
    fn create_invalid() -> Self::Tok {
        <CommonTokenFactory as TokenFactory<'a>>::create_invalid()
    }
    fn get_data(from: Self::From) -> Cow<'a, str> {
        from
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TokSpec {
    pub t: i32,
    pub ch: u8,
}

pub type Tok = Box<CommonToken<'static>>;
pub type Note = Rc<RefCell<Vec<String>>>;

pub fn tok_text(t: i32) -> String {
    if (1..=26).contains(&t) {
        ((b'a' + (t - 1) as u8) as char).to_string()
    } else {
        format!("<{t}>")
    }
}
pub fn tok_line(i: usize) -> isize {
    1 + (i / 4) as isize
}
pub fn tok_col(i: usize) -> isize {
    ((i % 4) * 3) as isize
}

/// a token source over a list, ending with end-of-file tokens
pub struct ListSource {
    pub toks: Rc<Vec<TokSpec>>,
    pub i: usize,
    pub asked: Rc<RefCell<usize>>,
}
impl TokenSource<'static> for ListSource {
    type TF = SimTF;
    fn next_token(&mut self) -> Tok {
        callback(Cb::TokSource);
        *self.asked.borrow_mut() += 1;
        let i = self.i;
        self.i += 1;
        let (t, ch) = match self.toks.get(i) {
            Some(s) => (s.t, s.ch),
            None => (-1, 0),
        };
        let p = i.min(self.toks.len());
        COMMON.create::<antlr_rust::InputStream<&'static str>>(
            None,
            t as isize,
            Some(if t == -1 { String::new() } else { tok_text(t) }),
            ch as isize,
            p as isize,
            p as isize,
            tok_line(p),
            tok_col(p),
        )
    }
    fn get_line(&self) -> isize {
        tok_line(self.i)
    }
    fn get_char_position_in_line(&self) -> isize {
        tok_col(self.i)
    }
    fn get_input_stream(&mut self) -> Option<&mut dyn IntStream> {
        None
    }
    fn get_source_name(&self) -> String {
        "list".into()
    }
    fn get_token_factory(&self) -> &'static SimTF {
        &SIM_TF
    }
}

/// where tokens come from: a list, or a real lexer behind a type-erased source
pub enum Src {
    List(ListSource),
    Lex(Box<dyn TokenSource<'static, TF = SimTF>>),
}
impl TokenSource<'static> for Src {
    type TF = SimTF;
    fn next_token(&mut self) -> Tok {
        match self {
            Src::List(l) => l.next_token(),
            Src::Lex(l) => l.next_token(),
        }
    }
    fn get_line(&self) -> isize {
        match self {
            Src::List(l) => l.get_line(),
            Src::Lex(l) => l.get_line(),
        }
    }
    fn get_char_position_in_line(&self) -> isize {
        match self {
            Src::List(l) => l.get_char_position_in_line(),
            Src::Lex(l) => l.get_char_position_in_line(),
        }
    }
    fn get_input_stream(&mut self) -> Option<&mut dyn IntStream> {
        match self {
            Src::List(l) => l.get_input_stream(),
            Src::Lex(l) => l.get_input_stream(),
        }
    }
    fn get_source_name(&self) -> String {
        match self {
            Src::List(l) => l.get_source_name(),
            Src::Lex(l) => l.get_source_name(),
        }
    }
    fn get_token_factory(&self) -> &'static SimTF {
        &SIM_TF
    }
}

/// The strictest stream the contract allows: it keeps only what is marked (and the token just
/// consumed), releases must nest, nothing outside the window may be touched.
pub struct WindowStream {
    src: Src,
    toks: Vec<Option<Tok>>,
    p: usize,
    marks: Vec<usize>,
    notes: Note,
}
impl WindowStream {
    fn fill(&mut self, upto: usize) {
        while self.toks.len() <= upto {
            if let Some(Some(t)) = self.toks.last() {
                if t.get_token_type() == -1 {
                    return;
                }
            }
            let t = self.src.next_token();
            t.set_token_index(self.toks.len() as isize);
            self.toks.push(Some(t));
        }
    }
    fn discard(&mut self) {
        let keep = self.marks.iter().copied().min().unwrap_or(self.p).min(self.p);
        for i in 0..keep.saturating_sub(1) {
            self.toks[i] = None;
        }
    }
    fn note(&self, s: String) {
        self.notes.borrow_mut().push(s);
    }
}
impl IntStream for WindowStream {
    fn consume(&mut self) {
        self.fill(self.p);
        if self.toks[self.p].as_ref().map_or(false, |t| t.get_token_type() == -1) {
            self.note(format!("consume at EOF position {}", self.p));
            panic!("cannot consume EOF");
        }
        self.p += 1;
        self.fill(self.p);
        self.discard();
    }
    fn la(&mut self, i: isize) -> isize {
        self.lt(i).map(|t| t.get_token_type()).unwrap_or(0)
    }
    fn mark(&mut self) -> isize {
        self.marks.push(self.p);
        self.marks.len() as isize
    }
    fn release(&mut self, marker: isize) {
        if marker != self.marks.len() as isize {
            self.note(format!("release({marker}) with {} marks outstanding", self.marks.len()));
        }
        self.marks.pop();
        self.discard();
    }
    fn index(&self) -> isize {
        self.p as isize
    }
    fn seek(&mut self, index: isize) {
        if index < 0 {
            self.note(format!("seek({index})"));
            return;
        }
        let index = index as usize;
        if index < self.p {
            let lo = self.marks.iter().copied().min().unwrap_or(self.p);
            if index < lo {
                self.note(format!("seek({index}) before the marked region starting at {lo}"));
            }
        }
        self.fill(index);
        self.p = index.min(self.toks.len() - 1);
        self.discard();
    }
    fn size(&self) -> isize {
        self.toks.len() as isize
    }
    fn get_source_name(&self) -> String {
        self.src.get_source_name()
    }
}
impl TokenStream<'static> for WindowStream {
    type TF = SimTF;
    fn lt(&mut self, k: isize) -> Option<&Tok> {
        if k == 0 {
            return None;
        }
        let i = if k > 0 { self.p as isize + k - 1 } else { self.p as isize + k };
        if i < 0 {
            return None;
        }
        self.fill(i as usize);
        let i = (i as usize).min(self.toks.len() - 1);
        if self.toks[i].is_none() {
            self.note(format!("lt({k}) at {} reads a discarded token", self.p));
        }
        self.toks[i].as_ref()
    }
    fn get(&self, index: isize) -> &Tok {
        match self.toks.get(index as usize) {
            Some(Some(t)) => t,
            _ => {
                self.note(format!("get({index}) at {} outside the kept window", self.p));
                panic!("get outside window");
            }
        }
    }
    fn get_token_source(&self) -> &dyn TokenSource<'static, TF = SimTF> {
        &self.src
    }
    fn get_text_from_interval(&self, start: isize, stop: isize) -> String {
        let mut s = String::new();
        for i in start..=stop {
            let t = TokenStream::get(self, i);
            if t.get_token_type() == -1 {
                break;
            }
            s.push_str(t.get_text());
        }
        s
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum StreamKind {
    Common,
    Unbuffered,
    Window,
}
pub enum Inner {
    C(CommonTokenStream<'static, Src>),
    U(UnbufferedTokenStream<'static, Src>),
    W(WindowStream),
}
/// the stream handed to the parser: a real stream with seams around it
pub struct SimTokens {
    pub inner: Inner,
    pub marks: usize,
    pub notes: Note,
    /// highest position ever consumed past
    pub consumed: Vec<isize>,
}
antlr_rust::tid! {SimTokens}
impl SimTokens {
    pub fn new(kind: StreamKind, src: Src, notes: Note) -> SimTokens {
        let inner = match kind {
            StreamKind::Common => Inner::C(CommonTokenStream::new(src)),
            StreamKind::Unbuffered => Inner::U(UnbufferedTokenStream::new_unbuffered(src)),
            StreamKind::Window => Inner::W(WindowStream {
                src,
                toks: vec![],
                p: 0,
                marks: vec![],
                notes: notes.clone(),
            }),
        };
        SimTokens { inner, marks: 0, notes, consumed: vec![] }
    }
}
macro_rules! del {
    ($s:expr, $x:ident => $e:expr) => {
        match &mut $s.inner {
            Inner::C($x) => $e,
            Inner::U($x) => $e,
            Inner::W($x) => $e,
        }
    };
}
macro_rules! delr {
    ($s:expr, $x:ident => $e:expr) => {
        match &$s.inner {
            Inner::C($x) => $e,
            Inner::U($x) => $e,
            Inner::W($x) => $e,
        }
    };
}
impl IntStream for SimTokens {
    fn consume(&mut self) {
        callback(Cb::TokConsume);
        del!(self, x => x.consume())
    }
    fn la(&mut self, i: isize) -> isize {
        callback(Cb::TokLt);
        del!(self, x => x.la(i))
    }
    fn mark(&mut self) -> isize {
        callback(Cb::TokOther);
        self.marks += 1;
        del!(self, x => x.mark())
    }
    fn release(&mut self, m: isize) {
        callback(Cb::TokOther);
        if self.marks == 0 {
            self.notes.borrow_mut().push("release without mark".into());
        } else {
            self.marks -= 1;
        }
        del!(self, x => x.release(m))
    }
    fn index(&self) -> isize {
        delr!(self, x => x.index())
    }
    fn seek(&mut self, i: isize) {
        callback(Cb::TokOther);
        del!(self, x => x.seek(i))
    }
    fn size(&self) -> isize {
        delr!(self, x => x.size())
    }
    fn get_source_name(&self) -> String {
        delr!(self, x => x.get_source_name())
    }
}
impl TokenStream<'static> for SimTokens {
    type TF = SimTF;
    fn lt(&mut self, k: isize) -> Option<&Tok> {
        callback(Cb::TokLt);
        del!(self, x => x.lt(k))
    }
    fn get(&self, i: isize) -> &Tok {
        delr!(self, x => x.get(i))
    }
    fn get_token_source(&self) -> &dyn TokenSource<'static, TF = SimTF> {
        delr!(self, x => x.get_token_source())
    }
    fn get_text_from_interval(&self, a: isize, b: isize) -> String {
        delr!(self, x => x.get_text_from_interval(a, b))
    }
}
