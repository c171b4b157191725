use std::panic::{catch_unwind, AssertUnwindSafe};

use chewed::{IterWrapper, Parse, Parser};
use chomp_bench::arith::{self, lalr, nibble};
use vh::engine::*;
use vh::util::*;

// ---------------------------------------------------------------- reference

/// What a text is worth.
#[derive(Debug, PartialEq)]
enum Worth {
    Value(i64),
    NotAnExpression,
    Overflows,
    DividesByZero,
}

enum Stop {
    Syntax,
    Overflow,
    Zero,
}

struct Eval<'a> {
    s: &'a [u8],
    i: usize,
    /// the first arithmetic trouble; the syntax is still judged to the end
    trouble: Option<Stop>,
    depth: usize,
    max_depth: usize,
    ops: usize,
}

impl<'a> Eval<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i] == b' ' {
            self.i += 1;
        }
    }
    fn at(&self) -> u8 {
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn note(&mut self, s: Stop) -> i64 {
        if self.trouble.is_none() {
            self.trouble = Some(s);
        }
        1
    }
    fn number(&mut self) -> Result<i64, Stop> {
        let start = self.i;
        let mut v: Option<i64> = Some(0);
        while self.at().is_ascii_digit() {
            let d = i64::from(self.at() - b'0');
            v = v.and_then(|v| v.checked_mul(10)).and_then(|v| v.checked_add(d));
            self.i += 1;
        }
        if self.i == start {
            return Err(Stop::Syntax);
        }
        self.ws();
        Ok(match v {
            Some(v) => v,
            None => self.note(Stop::Overflow),
        })
    }
    fn term(&mut self) -> Result<i64, Stop> {
        match self.at() {
            b'-' => {
                self.i += 1;
                self.ws();
                Ok(-self.number()?)
            }
            b'(' => {
                self.i += 1;
                self.ws();
                self.depth += 1;
                self.max_depth = self.max_depth.max(self.depth);
                let v = self.expr()?;
                self.depth -= 1;
                if self.at() != b')' {
                    return Err(Stop::Syntax);
                }
                self.i += 1;
                self.ws();
                Ok(v)
            }
            _ => self.number(),
        }
    }
    fn product(&mut self) -> Result<i64, Stop> {
        let mut v = self.term()?;
        loop {
            let op = self.at();
            if op != b'*' && op != b'/' {
                return Ok(v);
            }
            self.i += 1;
            self.ws();
            let w = self.term()?;
            self.ops += 1;
            let r = if op == b'*' {
                v.checked_mul(w)
            } else {
                if w == 0 {
                    self.note(Stop::Zero);
                    Some(1)
                } else {
                    v.checked_div(w)
                }
            };
            v = match r {
                Some(x) => x,
                None => self.note(Stop::Overflow),
            };
        }
    }
    fn expr(&mut self) -> Result<i64, Stop> {
        let mut v = self.product()?;
        loop {
            let op = self.at();
            if op != b'+' && op != b'-' {
                return Ok(v);
            }
            self.i += 1;
            self.ws();
            let w = self.product()?;
            self.ops += 1;
            let r = if op == b'+' { v.checked_add(w) } else { v.checked_sub(w) };
            v = match r {
                Some(x) => x,
                None => self.note(Stop::Overflow),
            };
        }
    }
}

/// Value, operators, depth.
fn worth(s: &str) -> (Worth, usize, usize) {
    let mut e = Eval {
        s: s.as_bytes(),
        i: 0,
        trouble: None,
        depth: 0,
        max_depth: 0,
        ops: 0,
    };
    e.ws();
    let r = e.expr();
    let w = match (e.trouble, r) {
        (Some(Stop::Zero), _) => Worth::DividesByZero,
        (Some(_), _) => Worth::Overflows,
        (None, Err(_)) => Worth::NotAnExpression,
        (None, Ok(_)) if e.i < s.len() => Worth::NotAnExpression,
        (None, Ok(v)) => Worth::Value(v),
    };
    (w, e.ops, e.max_depth)
}

// ---------------------------------------------------------------- generator

enum E {
    Num(String),
    Neg(String),
    Paren(Box<E>),
    Op(char, Box<E>, Box<E>),
}

fn number(rng: &mut Rng) -> String {
    match rng.below(24) {
        0 => "0".into(),
        1 => "1".into(),
        2 => format!("{}{}", "0".repeat(rng.range(1, 4)), rng.below(100)),
        3 => i64::MAX.to_string(),
        4 => (i64::MAX / (1 + rng.below(9) as i64)).to_string(),
        5 => format!("{}", rng.u64() >> rng.range(1, 63)),
        6 => format!("{}", 1u64 << rng.below(63)),
        _ => rng.below(20).to_string(),
    }
}

fn expr(rng: &mut Rng, size: usize) -> E {
    if size <= 1 {
        return if rng.chance(1, 4) { E::Neg(number(rng)) } else { E::Num(number(rng)) };
    }
    if rng.chance(1, 6) {
        return E::Paren(Box::new(expr(rng, size - 1)));
    }
    let l = match rng.below(4) {
        0 => 1,
        1 => size - 1,
        _ => rng.range(1, size - 1),
    };
    let op = *rng.pick(&['+', '-', '*', '/']);
    E::Op(op, Box::new(expr(rng, l)), Box::new(expr(rng, (size - l).max(1))))
}

/// Printed as it stands: the text need not have the shape of the tree.
fn words(e: &E, out: &mut Vec<String>) {
    match e {
        E::Num(n) => out.push(n.clone()),
        E::Neg(n) => {
            out.push("-".into());
            out.push(n.clone());
        }
        E::Paren(e) => {
            out.push("(".into());
            words(e, out);
            out.push(")".into());
        }
        E::Op(c, a, b) => {
            words(a, out);
            out.push(c.to_string());
            words(b, out);
        }
    }
}

fn spaced(ws: &[String], rng: &mut Rng) -> String {
    let many = rng.below(4);
    let mut s = String::new();
    let gap = |s: &mut String, rng: &mut Rng| match many {
        0 => {}
        1 => s.push(' '),
        _ => s.push_str(&" ".repeat(rng.below(3))),
    };
    gap(&mut s, rng);
    for w in ws {
        s.push_str(w);
        gap(&mut s, rng);
    }
    s
}

const ALPHABET: &[char] = &['0', '1', '2', '7', '9', '+', '-', '*', '/', '(', ')', ' '];

fn damage(s: &str, rng: &mut Rng) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..rng.range(1, 3) {
        let i = rng.below(c.len() + 1);
        match rng.below(5) {
            0 if i < c.len() => {
                c.remove(i);
            }
            1 => c.insert(i, *rng.pick(ALPHABET)),
            2 if i < c.len() => c[i] = *rng.pick(ALPHABET),
            3 => c.truncate(i),
            _ if c.len() > 1 => {
                let j = rng.below(c.len());
                let k = rng.below(c.len());
                c.swap(j, k)
            }
            _ => c.insert(i, ')'),
        }
    }
    c.into_iter().collect()
}

fn gen(rng: &mut Rng, _: usize) -> Case {
    let text = match rng.below(20) {
        0 => {
            let n = rng.below(12);
            (0..n).map(|_| *rng.pick(ALPHABET)).collect()
        }
        k => {
            let size = match rng.below(10) {
                0 => 1,
                1 if rng.chance(1, 80) => rng.range(200, 3000),
                1 => rng.range(20, 120),
                _ => rng.range(2, 14),
            };
            let mut w = vec![];
            words(&expr(rng, size), &mut w);
            if rng.chance(1, 40) {
                let d = if rng.chance(1, 60) { rng.range(100, 3000) } else { rng.range(10, 80) };
                for _ in 0..d {
                    w.insert(0, "(".into());
                    w.push(")".into());
                }
            }
            let s = spaced(&w, rng);
            if k < 5 {
                damage(&s, rng)
            } else {
                s
            }
        }
    };
    Case::new("arith", &text)
}

// ---------------------------------------------------------------- check

fn quietly<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_msg(&*e))
}

fn one(c: &Case) -> V {
    let s = &c.prog;
    if !s.chars().all(|c| "0123456789+-*/() ".contains(c)) {
        return V::Skip("other characters".into());
    }
    let (w, ops, depth) = worth(s);
    match w {
        Worth::Overflows => return V::Skip("overflows".into()),
        Worth::DividesByZero => return V::Skip("divides by zero".into()),
        _ => {}
    }
    thread_local! {
        static LALR: lalr::ExpressionParser = lalr::ExpressionParser::new();
    }
    let runs: Vec<(&str, Result<Result<i64, String>, String>)> = vec![
        (
            "the hand-written parser",
            quietly(|| arith::parse_expr(&mut IterWrapper::new(s.chars())).map_err(|e| e.to_string())),
        ),
        (
            "the generated parser",
            quietly(|| nibble::Ast::parse_str(s).map(i64::from).map_err(|e| e.to_string())),
        ),
        (
            "the generated parser over a character stream",
            quietly(|| IterWrapper::new(s.chars()).parse::<nibble::Ast>().map(i64::from).map_err(|e| e.to_string())),
        ),
        (
            "the LALR parser",
            quietly(|| LALR.with(|p| p.parse(s).map_err(|e| format!("{:?}", e)))),
        ),
    ];
    for (who, r) in runs {
        let bad = match (&w, &r) {
            (_, Err(m)) => Some(format!("panic: {} panics with {:?} on {:?}", who, m, s)),
            (Worth::Value(v), Ok(Ok(x))) if v == x => None,
            (Worth::Value(v), Ok(Ok(x))) => Some(format!("value: {} gives {} for {:?}, not {}", who, x, s, v)),
            (Worth::Value(_), Ok(Err(e))) => Some(format!("rejected: {} rejects {:?}: {}", who, s, e)),
            (_, Ok(Ok(x))) => Some(format!("accepted: {} gives {} for {:?}, which is no expression", who, x, s)),
            (_, Ok(Err(_))) => None,
        };
        if let Some(m) = bad {
            return V::Fail(m);
        }
    }
    let good = matches!(w, Worth::Value(_));
    let mut tags = vec![if good { "expression" } else { "not an expression" }];
    if good && ops > 1 {
        tags.push("several operators");
    }
    if good && depth > 1 {
        tags.push("nested parentheses");
    }
    if good && s.contains(' ') {
        tags.push("spaces");
    }
    V::Pass {
        nontrivial: if good { ops > 0 } else { s.len() > 1 },
        n: 4,
        tags: tags.iter().map(|s| s.to_string()).collect(),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C19",
        quick: 3_000_000,
        thorough: 40_000_000,
        batch: 20,
        crash: true,
        flaky_ok: false,
        gen,
        check: |cs| cs.iter().map(one).collect(),
        rule: "random expressions (literals up to i64::MAX, leading zeros, deep nesting, any spacing) and damaged ones; non-trivial: an expression with an operator, or a text of at least two characters that is no expression",
        assumptions: &["the reference evaluator in benchcheck/src/arith.rs", "nesting within the stack of 1 GiB"],
        known: None,
        setup: None,
    }]
}
