//! The code under test, driven through its public interface.

use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

use chomp::chomp::ast::substitute::Reduce;
use chomp::chomp::ast::{self, error::ReductionError, NamedExpression};
use chomp::chomp::name::Name;
use chomp::chomp::typed::context::{Context, GetVariableError};
use chomp::chomp::typed::error::{AltError, CatError, TypeError};
use chomp::chomp::typed::lower::{Backend, GenerateCode};
use chomp::chomp::typed::{Alt, Cat, Epsilon, Fix, Literal, Type, TypeInfer, Typed, TypedExpression, Variable};
use chomp::chomp::visit::Visitable;
use chomp::lower::RustBackend;
use chomp::nibble::convert::{Context as Scope, Convert, ConvertError};
use chomp::nibble::Statement;
use proc_macro2::{Span, TokenStream};

use crate::syntax::Loc;
use crate::util::panic_msg;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Phase {
    Parse,
    Convert,
    Reduce,
    Type,
}

/// An error of the compiler.
#[derive(Clone, Debug)]
pub struct RErr {
    pub phase: Phase,
    pub kind: &'static str,
    /// What the command line prints.
    pub msg: String,
    /// Message and place of the `syn::Error` it turns into.
    pub syn_msg: String,
    pub loc: Option<Loc>,
    /// The name an error is about.
    pub name: Option<String>,
    pub counts: Option<(usize, usize)>,
}

fn syn_parts(e: syn::Error) -> (String, Option<Loc>) {
    (e.to_string(), Some(Loc::of(e.span())))
}

fn plain(n: &str) -> String {
    n.strip_prefix("r#").unwrap_or(n).to_owned()
}

impl From<syn::Error> for RErr {
    fn from(e: syn::Error) -> RErr {
        let msg = e.to_string();
        let (syn_msg, loc) = syn_parts(e);
        RErr {
            phase: Phase::Parse,
            kind: "syntax",
            msg,
            syn_msg,
            loc,
            name: None,
            counts: None,
        }
    }
}

impl From<ConvertError> for RErr {
    fn from(e: ConvertError) -> RErr {
        let msg = e.to_string();
        let (kind, name) = match &e {
            ConvertError::UndeclaredName(n) => ("undeclared", Some(plain(&n.to_string()))),
            _ => ("other", None),
        };
        let (syn_msg, loc) = syn_parts(e.into());
        RErr {
            phase: Phase::Convert,
            kind,
            msg,
            syn_msg,
            loc,
            name,
            counts: None,
        }
    }
}

impl From<ReductionError> for RErr {
    fn from(e: ReductionError) -> RErr {
        let msg = e.to_string();
        let (kind, counts) = match &e {
            ReductionError::CallNotAFunction { .. } => ("not-a-function", None),
            ReductionError::WrongArgCount { lambda, args, .. } => ("wrong-args", Some((lambda.args.len(), args.len()))),
            #[allow(unreachable_patterns)]
            _ => ("other", None),
        };
        let (syn_msg, loc) = syn_parts(e.into());
        RErr {
            phase: Phase::Reduce,
            kind,
            msg,
            syn_msg,
            loc,
            name: None,
            counts,
        }
    }
}

impl From<TypeError> for RErr {
    fn from(e: TypeError) -> RErr {
        let msg = e.to_string();
        let mut name = None;
        let kind = match &e {
            TypeError::Cat(CatError::FirstNullable { .. }) => "first-nullable",
            TypeError::Cat(_) => "flast-overlap",
            TypeError::Alt(AltError::BothNullable { .. }) => "both-nullable",
            TypeError::Alt(_) => "first-overlap",
            TypeError::Variable(v) => {
                name = v.name.as_ref().map(|n| plain(&n.to_string()));
                match v.inner {
                    GetVariableError::GuardedVariable => "unguarded",
                    _ => "free-variable",
                }
            }
            TypeError::UnexpectedCall { .. } => "call-left",
            TypeError::UnexpectedLambda { .. } => "function-left",
            TypeError::UnexpectedLet { .. } => "let-left",
            TypeError::ExpectedLambda { .. } => "fix-of-non-function",
            #[allow(unreachable_patterns)]
            _ => "other",
        };
        let (syn_msg, loc) = syn_parts(e.into());
        RErr {
            phase: Phase::Type,
            kind,
            msg,
            syn_msg,
            loc,
            name,
            counts: None,
        }
    }
}

/// A panic of the code under test.
#[derive(Clone, Debug)]
pub struct Panicked(pub String);

pub type Res<T> = Result<Result<T, RErr>, Panicked>;

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| Panicked(panic_msg(&*e)))
}

fn front_main_(text: &str) -> Result<NamedExpression, RErr> {
    let s: Statement = syn::parse_str(text)?;
    Ok(s.convert(&mut Scope::default())?)
}

fn reduce_(e: NamedExpression) -> Result<NamedExpression, RErr> {
    Ok(e.fold(&mut Reduce)?)
}

fn infer_(e: NamedExpression) -> Result<TypedExpression, RErr> {
    let mut c = Context::default();
    Ok(e.fold(&mut TypeInfer { context: &mut c })?)
}

fn emit_(t: TypedExpression) -> TokenStream {
    let mut b = RustBackend::default();
    let id = t.gen(&mut b);
    b.emit_code(None, Span::call_site(), id)
}

pub fn front_main(text: &str) -> Res<NamedExpression> {
    guard(|| front_main_(text))
}

pub fn reduced(text: &str) -> Res<NamedExpression> {
    guard(|| front_main_(text).and_then(reduce_))
}

pub fn typed(text: &str) -> Res<TypedExpression> {
    guard(|| front_main_(text).and_then(reduce_).and_then(infer_))
}

pub fn code(text: &str) -> Res<TokenStream> {
    guard(|| front_main_(text).and_then(reduce_).and_then(infer_).map(emit_))
}

/// What the command-line compiler prints.
pub fn code_text(text: &str) -> Res<String> {
    guard(|| {
        front_main_(text)
            .and_then(reduce_)
            .and_then(infer_)
            .map(|t| format!("{:#}", emit_(t)))
    })
}

/// The self-hosted front end.
fn front_auto_(text: &str) -> Result<NamedExpression, RErr> {
    use chewed::Parser;
    let a = chewed::IterWrapper::new(text.chars())
        .parse::<autonibble::Ast>()
        .map_err(|e| RErr {
            phase: Phase::Parse,
            kind: "syntax",
            msg: e.to_string(),
            syn_msg: e.to_string(),
            loc: None,
            name: None,
            counts: None,
        })?;
    Ok(a.convert(&mut Scope::default())?)
}

pub fn front_auto(text: &str) -> Res<NamedExpression> {
    guard(|| front_auto_(text))
}

pub fn code_auto(text: &str) -> Res<String> {
    guard(|| {
        front_auto_(text)
            .and_then(reduce_)
            .and_then(infer_)
            .map(|t| format!("{:#}", emit_(t)))
    })
}

/// Flat form of a converted or reduced expression: structure, names and binders, no spans.
pub fn dump(e: &NamedExpression) -> String {
    let mut o = String::new();
    dump_into(e, &mut o);
    o
}

fn nm(n: &Option<Name>) -> String {
    n.as_ref().map_or(String::new(), |n| plain(&n.to_string()))
}

fn dump_into(e: &NamedExpression, o: &mut String) {
    use ast::Expression as X;
    match &e.expr {
        X::Epsilon(_) => o.push('_'),
        X::Literal(s) => o.push_str(&format!("{:?}", s)),
        X::Cat(c) => {
            o.push('(');
            dump_into(&c.first, o);
            for (_, x) in &c.rest {
                o.push('.');
                dump_into(x, o)
            }
            o.push(')')
        }
        X::Alt(c) => {
            o.push('(');
            dump_into(&c.first, o);
            for (_, x) in &c.rest {
                o.push('|');
                dump_into(x, o)
            }
            o.push(')')
        }
        X::Fix(f) => {
            o.push('!');
            dump_into(&f.inner, o)
        }
        X::Variable(v) => o.push_str(&format!("${}", v.index)),
        X::Call(c) => {
            o.push('[');
            dump_into(&c.on, o);
            for x in &c.args {
                o.push(' ');
                dump_into(x, o)
            }
            o.push(']')
        }
        X::Lambda(l) => {
            o.push_str("(/");
            for a in &l.args {
                o.push_str(&plain(&a.to_string()));
                o.push(',');
            }
            o.push('/');
            dump_into(&l.inner, o);
            o.push(')')
        }
        X::Let(l) => {
            o.push_str("(let ");
            o.push_str(&plain(&l.name.to_string()));
            o.push('=');
            dump_into(&l.bound, o);
            o.push(';');
            dump_into(&l.body, o);
            o.push(')')
        }
    }
    let n = nm(&e.name);
    if !n.is_empty() {
        o.push(':');
        o.push_str(&n);
        // the rank of the name shows when it meets others
        if let Some(n) = &e.name {
            o.push_str(&rank(n));
        }
    }
}

/// Which kind of name this is, found by merging it with others.
fn rank(n: &Name) -> String {
    let l = Name::new_let("\u{1}".to_owned());
    let b = Name::new_label("\u{1}".to_owned());
    let beats = |o: Name| {
        Name::merge(Some(n.clone()), Some(o)).map_or(false, |m| m.to_string() != "\u{1}")
    };
    if beats(b) {
        "#label".into()
    } else if beats(l) {
        "#let".into()
    } else {
        "#var".into()
    }
}

/// Canonical structure of a reduced expression in the format of `Core::canon`;
/// `Err` when calls or lets are left.
pub fn canon(e: &NamedExpression) -> String {
    use ast::Expression as X;
    fn go(e: &NamedExpression, depth: usize, o: &mut String) {
        match &e.expr {
            X::Epsilon(_) => o.push('_'),
            X::Literal(s) => o.push_str(&format!("{:?}", s)),
            X::Cat(c) => {
                o.push('(');
                go(&c.first, depth, o);
                for (_, x) in &c.rest {
                    o.push('.');
                    go(x, depth, o)
                }
                o.push(')')
            }
            X::Alt(c) => {
                o.push('(');
                go(&c.first, depth, o);
                for (_, x) in &c.rest {
                    o.push('|');
                    go(x, depth, o)
                }
                o.push(')')
            }
            X::Fix(f) => match &f.inner.expr {
                X::Lambda(l) if l.args.len() == 1 => {
                    o.push_str(&format!("!{}/", depth + 1));
                    go(&l.inner, depth + 1, o)
                }
                X::Lambda(l) => {
                    o.push_str("BADFIX(");
                    go(&l.inner, depth + l.args.len(), o);
                    o.push(')')
                }
                _ => {
                    o.push_str("BADFIX(");
                    go(&f.inner, depth, o);
                    o.push(')')
                }
            },
            X::Variable(v) => {
                if v.index < depth {
                    o.push_str(&format!("v{}", depth - v.index))
                } else {
                    o.push_str(&format!("FREE{}", v.index - depth))
                }
            }
            X::Call(_) => o.push_str("CALL"),
            X::Lambda(_) => o.push_str("LAM"),
            X::Let(_) => o.push_str("LET"),
        }
    }
    let mut o = String::new();
    go(e, 0, &mut o);
    o
}

// ---------------------------------------------------------------- typed trees

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TK {
    Eps,
    Lit(String),
    Cat,
    Alt,
    Fix,
    Var(usize),
}

#[derive(Clone, Debug)]
pub struct TNode {
    pub k: TK,
    pub name: Option<String>,
    pub null: bool,
    pub first: BTreeSet<char>,
    pub flast: BTreeSet<char>,
    pub kids: Vec<TNode>,
}

#[derive(Default)]
struct Extract;

fn tnode(k: TK, name: Option<Name>, ty: &Type, kids: Vec<TNode>) -> TNode {
    TNode {
        k,
        name: name.map(|n| plain(&n.to_string())),
        null: ty.nullable(),
        first: ty.first_set().clone().into_iter().collect(),
        flast: ty.flast_set().clone().into_iter().collect(),
        kids,
    }
}

impl Backend for Extract {
    type Id = TNode;
    type Code = TNode;
    fn gen_epsilon(&mut self, name: Option<Name>, _: Span, x: Epsilon) -> TNode {
        tnode(TK::Eps, name, x.get_type(), vec![])
    }
    fn gen_literal(&mut self, name: Option<Name>, _: Span, x: Literal) -> TNode {
        tnode(TK::Lit(x.inner().clone()), name, x.get_type(), vec![])
    }
    fn gen_cat(&mut self, name: Option<Name>, _: Span, x: Cat) -> TNode {
        let ty = x.get_type().clone();
        let kids = x.into_iter().map(|t| t.gen(self)).collect();
        tnode(TK::Cat, name, &ty, kids)
    }
    fn gen_alt(&mut self, name: Option<Name>, _: Span, x: Alt) -> TNode {
        let ty = x.get_type().clone();
        let kids = x.into_iter().map(|t| t.gen(self)).collect();
        tnode(TK::Alt, name, &ty, kids)
    }
    fn gen_fix(&mut self, name: Option<Name>, _: Span, x: Fix) -> TNode {
        let ty = x.get_type().clone();
        let kid = x.unwrap().gen(self);
        tnode(TK::Fix, name, &ty, vec![kid])
    }
    fn gen_variable(&mut self, name: Option<Name>, _: Span, x: Variable) -> TNode {
        tnode(TK::Var(x.index()), name, x.get_type(), vec![])
    }
    fn emit_code(self, _: Option<Name>, _: Span, id: TNode) -> TNode {
        id
    }
}

pub fn typed_tree(text: &str) -> Res<TNode> {
    guard(|| {
        let t = front_main_(text).and_then(reduce_).and_then(infer_)?;
        Ok(t.gen(&mut Extract))
    })
}
