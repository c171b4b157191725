//! Reference syntax of Nibble: trees, an own parser over proc-macro2 tokens, an own printer.
//! Nothing here uses code of /repo.

use proc_macro2::{Delimiter, Span, TokenStream, TokenTree};
use std::str::FromStr;

use crate::util::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord, Default)]
pub struct Loc {
    pub line: u32,
    pub col: u32,
}

impl Loc {
    pub fn of(s: Span) -> Loc {
        let p = s.start();
        Loc {
            line: p.line as u32,
            col: p.column as u32,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Id {
    pub name: String,
    pub loc: Loc,
}

impl Id {
    pub fn new(s: &str) -> Id {
        Id {
            name: s.to_owned(),
            loc: Loc::default(),
        }
    }
    /// The name without a raw prefix.
    pub fn plain(&self) -> &str {
        self.name.strip_prefix("r#").unwrap_or(&self.name)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Term {
    Eps(Loc),
    Ident(Id),
    Lit(String, Loc),
    Fix(Loc, Box<Term>),
    Paren(Loc, Box<Expr>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Call {
    pub terms: Vec<Term>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cat {
    pub calls: Vec<Call>,
    pub dots: Vec<Loc>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Labelled {
    pub cat: Cat,
    pub label: Option<Id>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Alt {
    pub terms: Vec<Labelled>,
    pub bars: Vec<Loc>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Lambda {
    pub params: Vec<Id>,
    pub body: Alt,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Expr {
    Alt(Alt),
    Lambda(Lambda),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LetStmt {
    pub name: Id,
    pub params: Vec<Id>,
    pub body: Expr,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Program {
    pub lets: Vec<LetStmt>,
    pub goal: Expr,
}

impl Term {
    pub fn loc(&self) -> Loc {
        match self {
            Term::Eps(l) | Term::Lit(_, l) | Term::Fix(l, _) | Term::Paren(l, _) => *l,
            Term::Ident(i) => i.loc,
        }
    }
    pub fn to_expr(self) -> Expr {
        Expr::Alt(Alt::one(Labelled {
            cat: Cat {
                calls: vec![Call { terms: vec![self] }],
                dots: vec![],
            },
            label: None,
        }))
    }
}

impl Alt {
    pub fn one(l: Labelled) -> Alt {
        Alt {
            terms: vec![l],
            bars: vec![],
        }
    }
}

// ---------------------------------------------------------------- parser

type Toks = Vec<TokenTree>;

struct P {
    toks: Toks,
    i: usize,
}

pub type R<T> = Result<T, String>;

fn err<T>(s: &str) -> R<T> {
    Err(s.to_owned())
}

/// The token as a string literal, decoded by syn (trusted here like the lexer).
fn as_str_lit(t: &TokenTree) -> Option<String> {
    if let TokenTree::Literal(l) = t {
        // syn knows no C string literals and panics on them
        if l.to_string().starts_with('c') {
            return None;
        }
        syn::parse2::<syn::LitStr>(TokenStream::from(t.clone()))
            .ok()
            .map(|l| l.value())
    } else {
        None
    }
}

/// Whether the token is an identifier that may be a parameter (no keyword, not `_`).
fn is_plain_ident(t: &TokenTree) -> bool {
    matches!(t, TokenTree::Ident(_)) && syn::parse2::<syn::Ident>(TokenStream::from(t.clone())).is_ok()
}

impl P {
    fn peek(&self) -> Option<&TokenTree> {
        self.toks.get(self.i)
    }
    fn punct(&self, c: char) -> bool {
        matches!(self.peek(), Some(TokenTree::Punct(p)) if p.as_char() == c)
    }
    fn eat(&mut self, c: char) -> R<Loc> {
        if self.punct(c) {
            let l = Loc::of(self.toks[self.i].span());
            self.i += 1;
            Ok(l)
        } else {
            Err(format!("expected {}", c))
        }
    }
    fn ident_is(&self, s: &str) -> bool {
        matches!(self.peek(), Some(TokenTree::Ident(i)) if i == s)
    }
    fn any_ident(&mut self) -> R<Id> {
        match self.peek() {
            Some(TokenTree::Ident(i)) => {
                let id = Id {
                    name: i.to_string(),
                    loc: Loc::of(i.span()),
                };
                self.i += 1;
                Ok(id)
            }
            _ => err("expected identifier"),
        }
    }
    fn plain_ident(&mut self) -> R<Id> {
        match self.peek() {
            Some(t) if is_plain_ident(t) => self.any_ident(),
            _ => err("expected identifier, not a keyword"),
        }
    }
    fn starts_term(&self) -> bool {
        match self.peek() {
            Some(TokenTree::Ident(_)) => true,
            Some(TokenTree::Punct(p)) => p.as_char() == '!',
            Some(TokenTree::Group(g)) => g.delimiter() == Delimiter::Parenthesis,
            Some(t @ TokenTree::Literal(_)) => as_str_lit(t).is_some(),
            None => false,
        }
    }
    fn term(&mut self) -> R<Term> {
        let t = match self.peek() {
            Some(t) => t.clone(),
            None => return err("expected term"),
        };
        let loc = Loc::of(t.span());
        match &t {
            TokenTree::Ident(i) => {
                self.i += 1;
                if i == "_" {
                    Ok(Term::Eps(loc))
                } else {
                    Ok(Term::Ident(Id {
                        name: i.to_string(),
                        loc,
                    }))
                }
            }
            TokenTree::Punct(p) if p.as_char() == '!' => {
                self.i += 1;
                Ok(Term::Fix(loc, Box::new(self.term()?)))
            }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
                self.i += 1;
                let mut p = P {
                    toks: g.stream().into_iter().collect(),
                    i: 0,
                };
                let e = p.expr()?;
                p.end()?;
                Ok(Term::Paren(Loc::of(g.span_open()), Box::new(e)))
            }
            TokenTree::Literal(_) => match as_str_lit(&t) {
                Some(s) => {
                    self.i += 1;
                    Ok(Term::Lit(s, loc))
                }
                None => err("not a string literal"),
            },
            _ => err("expected term"),
        }
    }
    fn call(&mut self) -> R<Call> {
        let mut terms = vec![self.term()?];
        while self.starts_term() {
            terms.push(self.term()?);
        }
        Ok(Call { terms })
    }
    fn cat(&mut self) -> R<Cat> {
        let mut calls = vec![self.call()?];
        let mut dots = vec![];
        while self.punct('.') {
            dots.push(self.eat('.')?);
            calls.push(self.call()?);
        }
        Ok(Cat { calls, dots })
    }
    fn labelled(&mut self) -> R<Labelled> {
        let cat = self.cat()?;
        let label = if self.punct(':') {
            self.eat(':')?;
            Some(self.any_ident()?)
        } else {
            None
        };
        Ok(Labelled { cat, label })
    }
    fn alt(&mut self) -> R<Alt> {
        let mut terms = vec![self.labelled()?];
        let mut bars = vec![];
        while self.punct('|') {
            bars.push(self.eat('|')?);
            terms.push(self.labelled()?);
        }
        Ok(Alt { terms, bars })
    }
    fn expr(&mut self) -> R<Expr> {
        if self.punct('/') {
            self.eat('/')?;
            let mut params = vec![self.plain_ident()?];
            while !self.punct('/') {
                params.push(self.plain_ident()?);
            }
            self.eat('/')?;
            Ok(Expr::Lambda(Lambda {
                params,
                body: self.alt()?,
            }))
        } else {
            Ok(Expr::Alt(self.alt()?))
        }
    }
    fn end(&self) -> R<()> {
        if self.i == self.toks.len() {
            Ok(())
        } else {
            err("trailing tokens")
        }
    }
    fn program(&mut self) -> R<Program> {
        let mut lets = vec![];
        while self.ident_is("let") {
            self.i += 1;
            let name = self.any_ident()?;
            let mut params = vec![];
            while !self.punct('=') {
                params.push(self.plain_ident()?);
            }
            self.eat('=')?;
            let body = self.expr()?;
            self.eat(';')?;
            lets.push(LetStmt { name, params, body });
        }
        if !self.ident_is("match") {
            return err("expected let or match");
        }
        self.i += 1;
        let goal = self.expr()?;
        self.eat(';')?;
        self.end()?;
        Ok(Program { lets, goal })
    }
}

pub fn parse(text: &str) -> R<Program> {
    let ts = TokenStream::from_str(text).map_err(|e| format!("lex: {}", e))?;
    parse_tokens(ts)
}

pub fn parse_tokens(ts: TokenStream) -> R<Program> {
    let mut p = P {
        toks: ts.into_iter().collect(),
        i: 0,
    };
    p.program()
}

/// Flat list of token spellings.
pub fn flat_tokens(ts: TokenStream) -> Vec<String> {
    fn go(ts: TokenStream, out: &mut Vec<String>) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    if !a.is_empty() {
                        out.push(a.to_owned());
                    }
                    go(g.stream(), out);
                    if !b.is_empty() {
                        out.push(b.to_owned());
                    }
                }
                TokenTree::Punct(p) => out.push(p.as_char().to_string()),
                t => out.push(t.to_string()),
            }
        }
    }
    let mut out = vec![];
    go(ts, &mut out);
    out
}

// ---------------------------------------------------------------- printer

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    Word(String),
    Lit(String),
    P(char),
}

pub fn tokens(p: &Program) -> Vec<Tok> {
    let mut o = vec![];
    for l in &p.lets {
        o.push(Tok::Word("let".into()));
        o.push(Tok::Word(l.name.name.clone()));
        for a in &l.params {
            o.push(Tok::Word(a.name.clone()));
        }
        o.push(Tok::P('='));
        tok_expr(&l.body, &mut o);
        o.push(Tok::P(';'));
    }
    o.push(Tok::Word("match".into()));
    tok_expr(&p.goal, &mut o);
    o.push(Tok::P(';'));
    o
}

fn tok_expr(e: &Expr, o: &mut Vec<Tok>) {
    match e {
        Expr::Alt(a) => tok_alt(a, o),
        Expr::Lambda(l) => {
            o.push(Tok::P('/'));
            for a in &l.params {
                o.push(Tok::Word(a.name.clone()));
            }
            o.push(Tok::P('/'));
            tok_alt(&l.body, o)
        }
    }
}

fn tok_alt(a: &Alt, o: &mut Vec<Tok>) {
    for (i, l) in a.terms.iter().enumerate() {
        if i > 0 {
            o.push(Tok::P('|'));
        }
        for (j, c) in l.cat.calls.iter().enumerate() {
            if j > 0 {
                o.push(Tok::P('.'));
            }
            for t in &c.terms {
                tok_term(t, o);
            }
        }
        if let Some(n) = &l.label {
            o.push(Tok::P(':'));
            o.push(Tok::Word(n.name.clone()));
        }
    }
}

fn tok_term(t: &Term, o: &mut Vec<Tok>) {
    match t {
        Term::Eps(_) => o.push(Tok::Word("_".into())),
        Term::Ident(i) => o.push(Tok::Word(i.name.clone())),
        Term::Lit(s, _) => o.push(Tok::Lit(s.clone())),
        Term::Fix(_, t) => {
            o.push(Tok::P('!'));
            tok_term(t, o)
        }
        Term::Paren(_, e) => {
            o.push(Tok::P('('));
            tok_expr(e, o);
            o.push(Tok::P(')'));
        }
    }
}

/// How tokens are laid out.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Layout {
    /// One space between tokens, plain literals.
    Plain,
    /// As little white space as the lexer allows, sometimes.
    Tight,
    /// Random white space and comments.
    Wild,
    /// Restricted to what the self-hosted front end understands.
    Shared,
}

fn lit_text(s: &str, layout: Layout, rng: &mut Rng) -> String {
    // Raw strings, where they can express it.
    if layout == Layout::Wild
        && rng.chance(1, 8)
        && !s.contains(|c: char| c == '\r' || c == '"' || c == '\0')
    {
        return if rng.chance(1, 2) {
            format!("r\"{}\"", s)
        } else {
            format!("r#\"{}\"#", s)
        };
    }
    let mut o = String::from("\"");
    let raw_lines = layout == Layout::Wild && rng.chance(1, 2);
    for c in s.chars() {
        if layout == Layout::Wild && !c.is_whitespace() && rng.chance(1, 60) {
            // a continued line
            o.push_str("\\\n");
            o.push_str(&" ".repeat(rng.below(4)));
        }
        let esc = match layout {
            Layout::Plain => 0,
            _ if raw_lines && c == '\n' => 4,
            _ => rng.below(6),
        };
        let u = u32::from(c);
        let named = match c {
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\t' => Some("\\t"),
            '\0' => Some("\\0"),
            '\\' => Some("\\\\"),
            '"' => Some("\\\""),
            '\'' => Some("\\'"),
            _ => None,
        };
        if esc == 1 && u < 0x80 {
            // the shared syntax writes the first digit in octal, which covers 7-bit codes
            if rng.chance(1, 2) {
                o.push_str(&format!("\\x{:02x}", u));
            } else {
                o.push_str(&format!("\\x{:02X}", u));
            }
            continue;
        }
        if esc == 2 {
            let w = rng.range(1, 6);
            if rng.chance(1, 2) {
                o.push_str(&format!("\\u{{{:0w$x}}}", u, w = w));
            } else {
                o.push_str(&format!("\\u{{{:0w$X}}}", u, w = w));
            }
            continue;
        }
        match named {
            Some(n) if c == '\\' || c == '"' || c == '\r' || c == '\0' => o.push_str(n),
            Some(n) if c == '\'' && esc == 3 => o.push_str(n),
            Some(n) if c != '\'' && (esc != 4 || layout == Layout::Shared) => o.push_str(n),
            _ => {
                let raw_ok = match layout {
                    Layout::Shared => (0x20..0x7f).contains(&u),
                    _ => !c.is_control() || c == '\n' || c == '\t',
                };
                // Characters that could confuse a lexer are always escaped.
                let odd = matches!(c, '\u{85}' | '\u{2028}' | '\u{2029}' | '\u{feff}' | '\u{200e}' | '\u{200f}'
                    | '\u{202a}'..='\u{202e}' | '\u{2066}'..='\u{2069}');
                if raw_lines && c == '\n' && rng.chance(1, 4) {
                    // read as one line feed
                    o.push_str("\r\n")
                } else if raw_ok && !odd {
                    o.push(c)
                } else {
                    o.push_str(&format!("\\u{{{:x}}}", u))
                }
            }
        }
    }
    o.push('"');
    o
}

const WS_WILD: &[&str] = &[
    " ", "\n", "\t", "  ", "\r\n", " // c\n", " /* c */ ", "/*/**/*/", "\u{b}", "\u{c}", "\u{85}",
    "\u{2028}", "\u{2029}", "\u{200e}", " /* \u{1d11e} */ ", "\n\n   ",
];
const WS_SHARED: &[&str] = &[
    " ", "\n", "\t", "  ", "\r\n", "\u{b}", "\u{c}", "\r", " \n ", "\u{85}", "\u{2028}", "\u{2029}",
    "\u{200e}", "\u{200f}",
];

fn starts_term(t: &Tok) -> bool {
    matches!(t, Tok::Word(_) | Tok::Lit(_) | Tok::P('!') | Tok::P('('))
}
fn ends_term(t: &Tok) -> bool {
    matches!(t, Tok::Word(_) | Tok::Lit(_) | Tok::P(')'))
}

/// Where the self-hosted grammar wants white space between two tokens.
fn shared_need(prev: &Tok, t: &Tok) -> bool {
    match (prev, t) {
        (Tok::Word(_), Tok::Word(_)) | (Tok::Word(_), Tok::Lit(_)) | (Tok::Lit(_), Tok::Word(_)) | (Tok::Lit(_), Tok::Lit(_)) => true,
        (Tok::P('/'), Tok::P('/')) => true,
        (a, b) => (ends_term(a) && starts_term(b)) || matches!(a, Tok::Word(w) if w == "match" || w == "let"),
    }
}

/// Whether a text keeps to the syntax both front ends support: no comments, ASCII names, plain
/// string literals with shared escapes, white space where the self-hosted grammar wants it.
pub fn shared_syntax(text: &str) -> bool {
    const WS: &str = "\t\n\u{b}\u{c}\r \u{85}\u{200e}\u{200f}\u{2028}\u{2029}";
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut prev: Option<Tok> = None;
    let mut gap = true;
    while i < c.len() {
        let ch = c[i];
        if WS.contains(ch) {
            gap = true;
            i += 1;
            continue;
        }
        let t = if ch.is_ascii_alphabetic() || ch == '_' {
            let s = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1
            }
            let w: String = c[s..i].iter().collect();
            // keywords only where a statement starts
            if w == "_" && matches!(&prev, Some(Tok::P(':'))) || w == "_" && prev == Some(Tok::Word("let".into())) {
                return false;
            }
            let start = prev.as_ref().map_or(true, |p| *p == Tok::P(';'));
            if w != "_" && syn::parse_str::<syn::Ident>(&w).is_err() && !(start && (w == "let" || w == "match")) {
                return false;
            }
            Tok::Word(w)
        } else if ch == '"' {
            i += 1;
            if c.get(i) == Some(&'"') {
                return false;
            }
            let mut closed = false;
            while i < c.len() {
                match c[i] {
                    '"' => {
                        closed = true;
                        i += 1;
                        break;
                    }
                    '\\' => match c.get(i + 1) {
                        Some('n') | Some('r') | Some('t') | Some('0') | Some('\\') | Some('\'') | Some('"') => i += 2,
                        Some('x') => {
                            let ok = c.get(i + 2).map_or(false, |d| ('0'..='7').contains(d))
                                && c.get(i + 3).map_or(false, |d| d.is_ascii_hexdigit());
                            if !ok {
                                return false;
                            }
                            i += 4
                        }
                        Some('u') => {
                            if c.get(i + 2) != Some(&'{') {
                                return false;
                            }
                            let mut j = i + 3;
                            while j < c.len() && c[j].is_ascii_hexdigit() {
                                j += 1
                            }
                            if c.get(j) != Some(&'}') || !(1..=6).contains(&(j - i - 3)) {
                                return false;
                            }
                            i = j + 1
                        }
                        _ => return false,
                    },
                    x if (' '..='~').contains(&x) => i += 1,
                    _ => return false,
                }
            }
            if !closed {
                return false;
            }
            Tok::Lit(String::new())
        } else if "=;|.!()/:".contains(ch) {
            i += 1;
            Tok::P(ch)
        } else {
            return false;
        };
        if let Some(p) = &prev {
            if !gap && shared_need(p, &t) {
                return false;
            }
        }
        prev = Some(t);
        gap = false;
    }
    true
}

/// A long stretch without tokens.
fn far(shared: bool, rng: &mut Rng) -> String {
    let n = match rng.below(60) {
        0 if !shared => 70_000,
        x => [20, 40, 70, 130, 260, 600][x % 6],
    };
    let n = rng.range(n - n / 3, n);
    match rng.below(6) {
        0 if !shared => format!(" /*{}*/ ", "x ".repeat(n / 2)),
        1 if !shared => format!(" //{}\n", "x".repeat(n)),
        2 => " ".repeat(n),
        3 => "\n".repeat(n),
        _ => (0..n).map(|_| *rng.pick(&[' ', ' ', ' ', '\n', '\t'])).collect(),
    }
}

/// Prints tokens.  `Shared` keeps white space wherever the self-hosted grammar needs it.
pub fn layout(toks: &[Tok], layout: Layout, rng: &mut Rng) -> String {
    let mut o = String::new();
    let far_at = if matches!(layout, Layout::Wild | Layout::Shared) && rng.chance(1, 16) {
        if rng.chance(1, 3) {
            *rng.pick(&[0, toks.len()])
        } else {
            rng.below(toks.len() + 1)
        }
    } else {
        usize::MAX
    };
    if far_at == 0 {
        o.push_str(&far(layout == Layout::Shared, rng));
    }
    if layout == Layout::Wild && rng.chance(1, 3) {
        o.push_str(rng.pick(WS_WILD));
    }
    if layout == Layout::Shared {
        for _ in 0..rng.below(3) {
            o.push_str(rng.pick(WS_SHARED));
        }
    }
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let prev = &toks[i - 1];
            let need = match (prev, t) {
                (Tok::Word(_), Tok::Word(_)) => true,
                // a word directly before a quote could lex as a prefix, a word after one as a suffix
                (Tok::Word(_), Tok::Lit(_)) | (Tok::Lit(_), Tok::Word(_)) => true,
                (Tok::P('/'), Tok::P('/')) | (Tok::P('/'), Tok::P('*')) => true,
                (Tok::Lit(_), Tok::Lit(_)) if layout != Layout::Plain => true,
                (a, b) if layout == Layout::Shared => shared_need(a, b),
                _ => false,
            };
            let roll = rng.below(4);
            match layout {
                Layout::Plain => o.push(' '),
                Layout::Tight => {
                    if need || roll == 0 {
                        o.push(' ')
                    }
                }
                Layout::Wild => {
                    if need && roll < 2 {
                        o.push(' ')
                    } else if need || roll < 2 {
                        o.push_str(rng.pick(WS_WILD));
                        // a comment opener must not glue to a slash
                    }
                }
                Layout::Shared => {
                    if need || roll == 0 {
                        for _ in 0..rng.range(1, 2) {
                            o.push_str(rng.pick(WS_SHARED));
                        }
                    }
                }
            }
            if i == far_at {
                if o.ends_with('/') {
                    o.push(' ')
                }
                o.push_str(&far(layout == Layout::Shared, rng));
            }
            if layout == Layout::Wild {
                // `/` followed by a comment would read as a longer comment opener
                if o.ends_with('/') && !o.ends_with("*/") {
                    o.push(' ');
                }
            }
        }
        match t {
            Tok::Word(w) => o.push_str(w),
            Tok::Lit(s) => o.push_str(&lit_text(s, layout, rng)),
            Tok::P(c) => o.push(*c),
        }
        if layout == Layout::Wild && *t == Tok::P('/') {
            o.push(' ');
        }
    }
    if far_at == toks.len() && far_at > 0 {
        o.push_str(&far(layout == Layout::Shared, rng));
    }
    match layout {
        Layout::Plain => {}
        Layout::Tight => {}
        Layout::Wild => {
            if rng.chance(1, 3) {
                o.push_str(rng.pick(WS_WILD));
            }
        }
        Layout::Shared => {
            for _ in 0..rng.below(3) {
                o.push_str(rng.pick(WS_SHARED));
            }
        }
    }
    o
}

pub fn print(p: &Program) -> String {
    layout(&tokens(p), Layout::Plain, &mut Rng::new(0))
}

// ---------------------------------------------------------------- location-free comparison

pub fn strip(p: &Program) -> Program {
    fn id(i: &Id) -> Id {
        Id::new(&i.name)
    }
    let d = Loc::default();
    fn term(t: &Term) -> Term {
        let d = Loc::default();
        match t {
            Term::Eps(_) => Term::Eps(d),
            Term::Ident(i) => Term::Ident(id(i)),
            Term::Lit(s, _) => Term::Lit(s.clone(), d),
            Term::Fix(_, t) => Term::Fix(d, Box::new(term(t))),
            Term::Paren(_, e) => Term::Paren(d, Box::new(expr(e))),
        }
    }
    fn alt(a: &Alt) -> Alt {
        let d = Loc::default();
        Alt {
            terms: a
                .terms
                .iter()
                .map(|l| Labelled {
                    cat: Cat {
                        calls: l
                            .cat
                            .calls
                            .iter()
                            .map(|c| Call {
                                terms: c.terms.iter().map(term).collect(),
                            })
                            .collect(),
                        dots: vec![d; l.cat.dots.len()],
                    },
                    label: l.label.as_ref().map(id),
                })
                .collect(),
            bars: vec![d; a.bars.len()],
        }
    }
    fn expr(e: &Expr) -> Expr {
        match e {
            Expr::Alt(a) => Expr::Alt(alt(a)),
            Expr::Lambda(l) => Expr::Lambda(Lambda {
                params: l.params.iter().map(id).collect(),
                body: alt(&l.body),
            }),
        }
    }
    let _ = d;
    Program {
        lets: p
            .lets
            .iter()
            .map(|l| LetStmt {
                name: id(&l.name),
                params: l.params.iter().map(id).collect(),
                body: expr(&l.body),
            })
            .collect(),
        goal: expr(&p.goal),
    }
}

pub fn has_calls(p: &Program) -> bool {
    fn alt(a: &Alt) -> bool {
        a.terms.iter().any(|l| {
            l.cat
                .calls
                .iter()
                .any(|c| c.terms.len() > 1 || c.terms.iter().any(term))
        })
    }
    fn term(t: &Term) -> bool {
        match t {
            Term::Fix(_, t) => term(t),
            Term::Paren(_, e) => expr(e),
            _ => false,
        }
    }
    fn expr(e: &Expr) -> bool {
        match e {
            Expr::Alt(a) => alt(a),
            Expr::Lambda(l) => alt(&l.body),
        }
    }
    p.lets.iter().any(|l| expr(&l.body)) || expr(&p.goal)
}

/// The same tokens, spelled the same, in another layout.
pub fn relayout(text: &str, rng: &mut Rng) -> Option<String> {
    let toks = flat_tokens(TokenStream::from_str(text).ok()?);
    let mut o = String::new();
    let free = |t: &str| matches!(t, "(" | ")" | "|" | ";" | "!" | ":" | "=");
    let style = rng.below(3);
    let far_at = if rng.chance(1, 12) { rng.below(toks.len() + 1) } else { usize::MAX };
    for (i, t) in toks.iter().enumerate() {
        if i == far_at {
            if o.ends_with('/') {
                o.push(' ')
            }
            o.push_str(&far(false, rng));
        }
        let glue = i == 0 || free(t) || free(&toks[i - 1]);
        let sep = match style {
            0 => " ",
            1 if glue => "",
            _ => {
                if glue && rng.chance(1, 3) {
                    ""
                } else {
                    rng.pick(WS_WILD)
                }
            }
        };
        if sep.is_empty() && i > 0 && toks[i - 1] == "/" {
            o.push(' ')
        }
        // a slash must not meet a comment
        if toks.get(i.wrapping_sub(1)).map_or(false, |p| p == "/") && sep.trim_start().starts_with('/') {
            o.push(' ')
        }
        if sep.is_empty() && i > 0 && toks[i - 1] == "=" {
            o.push(' ')
        }
        o.push_str(sep);
        if t == "/" {
            o.push(' ')
        }
        o.push_str(t);
    }
    o.push_str(rng.pick(&["", "\n", " // end", "/* end */"]));
    if flat_tokens(TokenStream::from_str(&o).ok()?) == toks {
        Some(o)
    } else {
        None
    }
}

/// Whether the text has a C string literal, which the version of syn in use panics on.
pub fn has_c_literal(text: &str) -> bool {
    TokenStream::from_str(text).map_or(false, |t| flat_tokens(t).iter().any(|t| t.starts_with("c\"") || t.starts_with("cr\"") || t.starts_with("cr#")))
}
