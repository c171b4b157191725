use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use chewed::{IterWrapper, Parse, Parser};
use chomp_bench::json::{lalr, nibble, Value};
use vh::engine::*;
use vh::util::*;

// ---------------------------------------------------------------- reference

#[derive(Clone, Debug, PartialEq)]
enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

enum Text {
    Valid(J),
    /// The grammar allows it, but no value is prescribed.
    Open(&'static str),
    Invalid,
}

struct P<'a> {
    s: Vec<char>,
    i: usize,
    open: Option<&'static str>,
    seen: Vec<&'static str>,
    _p: std::marker::PhantomData<&'a ()>,
}

type R<T> = Result<T, ()>;

impl<'a> P<'a> {
    fn at(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn ws(&mut self) {
        while matches!(self.at(), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: char) -> R<()> {
        if self.at() == Some(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(())
        }
    }
    fn word(&mut self, w: &str) -> R<()> {
        w.chars().try_for_each(|c| self.eat(c))
    }
    fn digits(&mut self) -> R<()> {
        let i = self.i;
        while matches!(self.at(), Some('0'..='9')) {
            self.i += 1;
        }
        if self.i > i {
            Ok(())
        } else {
            Err(())
        }
    }
    fn number(&mut self) -> R<J> {
        let i = self.i;
        if self.at() == Some('-') {
            self.i += 1;
        }
        if self.at() == Some('0') {
            self.i += 1;
        } else {
            self.digits()?;
        }
        if self.at() == Some('.') {
            self.i += 1;
            self.digits()?;
            self.seen.push("fraction");
        }
        if matches!(self.at(), Some('e' | 'E')) {
            self.i += 1;
            if matches!(self.at(), Some('+' | '-')) {
                self.i += 1;
            }
            self.digits()?;
            self.seen.push("exponent");
        }
        let t: String = self.s[i..self.i].iter().collect();
        let v: f64 = t.parse().map_err(|_| ())?;
        if v.is_infinite() {
            self.open = Some("number beyond f64");
        }
        Ok(J::Num(v))
    }
    fn hex4(&mut self) -> R<u32> {
        let mut v = 0;
        for _ in 0..4 {
            let d = self.at().and_then(|c| c.to_digit(16)).ok_or(())?;
            v = v * 16 + d;
            self.i += 1;
        }
        Ok(v)
    }
    fn string(&mut self) -> R<String> {
        self.eat('"')?;
        let mut units: Vec<u16> = vec![];
        loop {
            let c = self.at().ok_or(())?;
            self.i += 1;
            match c {
                '"' => break,
                '\\' => {
                    let e = self.at().ok_or(())?;
                    self.i += 1;
                    let x = match e {
                        '"' | '\\' | '/' => e as u16,
                        'b' => 8,
                        'f' => 12,
                        'n' => 10,
                        'r' => 13,
                        't' => 9,
                        'u' => {
                            let v = self.hex4()?;
                            self.seen.push(if (0xD800..0xE000).contains(&v) { "surrogate escape" } else { "unicode escape" });
                            // an escape must pair with an escape
                            if (0xDC00..0xE000).contains(&v) {
                                self.open = Some("lone surrogate");
                            } else if (0xD800..0xDC00).contains(&v) {
                                let j = self.i;
                                let ok = self.word("\\u").is_ok() && matches!(self.hex4(), Ok(0xDC00..=0xDFFF));
                                self.i = j;
                                if ok {
                                    units.push(v as u16);
                                    self.word("\\u")?;
                                    let w = self.hex4()?;
                                    units.push(w as u16);
                                } else {
                                    self.open = Some("lone surrogate");
                                }
                                continue;
                            }
                            v as u16
                        }
                        _ => return Err(()),
                    };
                    units.push(x);
                }
                c if (c as u32) < 0x20 => return Err(()),
                c => {
                    let mut b = [0; 2];
                    units.extend_from_slice(c.encode_utf16(&mut b));
                }
            }
        }
        Ok(String::from_utf16_lossy(&units))
    }
    fn value(&mut self) -> R<J> {
        match self.at().ok_or(())? {
            'n' => self.word("null").map(|_| J::Null),
            't' => self.word("true").map(|_| J::Bool(true)),
            'f' => self.word("false").map(|_| J::Bool(false)),
            '"' => self.string().map(J::Str),
            '[' => {
                self.i += 1;
                self.ws();
                let mut v = vec![];
                if self.at() == Some(']') {
                    self.i += 1;
                    self.seen.push("empty array");
                    return Ok(J::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value()?);
                    self.ws();
                    if self.at() == Some(',') {
                        self.i += 1;
                    } else {
                        self.eat(']')?;
                        self.seen.push("array");
                        return Ok(J::Arr(v));
                    }
                }
            }
            '{' => {
                self.i += 1;
                self.ws();
                let mut m = BTreeMap::new();
                if self.at() == Some('}') {
                    self.i += 1;
                    self.seen.push("empty object");
                    return Ok(J::Obj(m));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(':')?;
                    self.ws();
                    let v = self.value()?;
                    self.ws();
                    if m.insert(k, v).is_some() {
                        self.seen.push("duplicate key");
                    }
                    if self.at() == Some(',') {
                        self.i += 1;
                    } else {
                        self.eat('}')?;
                        self.seen.push("object");
                        return Ok(J::Obj(m));
                    }
                }
            }
            '-' | '0'..='9' => self.number(),
            _ => Err(()),
        }
    }
}

fn read(s: &str) -> (Text, Vec<&'static str>) {
    let mut p = P {
        s: s.chars().collect(),
        i: 0,
        open: None,
        seen: vec![],
        _p: Default::default(),
    };
    p.ws();
    let r = p.value();
    p.ws();
    let t = match r {
        Ok(v) if p.i == p.s.len() => match p.open {
            None => Text::Valid(v),
            Some(m) => Text::Open(m),
        },
        _ => Text::Invalid,
    };
    p.seen.sort_unstable();
    p.seen.dedup();
    (t, p.seen)
}

fn to_value(j: &J) -> Value {
    match j {
        J::Null => Value::Null,
        J::Bool(b) => Value::Bool(*b),
        J::Num(n) => Value::Number(*n),
        J::Str(s) => Value::String(s.clone()),
        J::Arr(a) => Value::Array(a.iter().map(to_value).collect()),
        J::Obj(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), to_value(v))).collect()),
    }
}

fn of_value(v: &Value) -> J {
    match v {
        Value::Null => J::Null,
        Value::Bool(b) => J::Bool(*b),
        Value::Number(n) => J::Num(*n),
        Value::String(s) => J::Str(s.clone()),
        Value::Array(a) => J::Arr(a.iter().map(of_value).collect()),
        Value::Object(o) => J::Obj(o.iter().map(|(k, v)| (k.clone(), of_value(v))).collect()),
    }
}

/// Equal, with the sign of zero.
fn same(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Num(x), J::Num(y)) => x.to_bits() == y.to_bits(),
        (J::Arr(x), J::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (J::Obj(x), J::Obj(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|((k, a), (l, b))| k == l && same(a, b))
        }
        _ => a == b,
    }
}

// ---------------------------------------------------------------- generator

struct G<'a> {
    rng: &'a mut Rng,
    ascii: bool,
    ws: usize,
    keys: Vec<String>,
}

impl<'a> G<'a> {
    fn ws(&mut self, out: &mut String) {
        match self.ws {
            0 => {}
            1 => {
                if self.rng.chance(1, 2) {
                    out.push(' ')
                }
            }
            _ => {
                for _ in 0..self.rng.below(3) {
                    out.push(*self.rng.pick(&[' ', '\t', '\n', '\r']));
                }
            }
        }
    }
    fn hex(&mut self, v: u32, out: &mut String) {
        for d in format!("{:04x}", v).chars() {
            out.push(if self.rng.chance(1, 2) { d.to_ascii_uppercase() } else { d });
        }
    }
    fn escape(&mut self, c: char, out: &mut String) {
        let mut b = [0u16; 2];
        for u in c.encode_utf16(&mut b).iter() {
            out.push_str("\\u");
            let u = u32::from(*u);
            self.hex(u, out);
        }
    }
    fn string(&mut self, out: &mut String) {
        out.push('"');
        let n = match self.rng.below(8) {
            0 => 0,
            1 => self.rng.range(8, 30),
            _ => self.rng.range(1, 6),
        };
        for _ in 0..n {
            match self.rng.below(10) {
                0 => {
                    out.push('\\');
                    out.push(*self.rng.pick(&['"', '\\', '/', 'b', 'f', 'n', 'r', 't']));
                }
                1 | 2 => {
                    let c = match self.rng.below(8) {
                        0 => self.rng.below(0x20) as u32,
                        1 => self.rng.below(0x80) as u32,
                        2 => *self.rng.pick(&[0, 0x7f, 0x80, 0xffff, 0xfffe, 0xd7ff, 0xe000, 0x10000, 0x10ffff, 0x1f600, 0x10400, 0x103ff, 0x10fc00, 0xfeff, 0x2028]),
                        3 | 4 => self.rng.below(0x10000) as u32,
                        _ => self.rng.range(0x10000, 0x10ffff) as u32,
                    };
                    if let Some(c) = char::from_u32(c) {
                        self.escape(c, out);
                    }
                }
                3 if !self.ascii => {
                    let c = *self.rng.pick(&['\u{7f}', 'é', 'ß', '\u{80}', '\u{2028}', '€', '\u{ffff}', '😀', '\u{10ffff}', '\u{feff}', '日']);
                    out.push(c);
                }
                _ => {
                    let c = self.rng.range(0x20, 0x7e) as u8 as char;
                    if c == '"' || c == '\\' {
                        out.push('\\');
                    }
                    out.push(c);
                }
            }
        }
        out.push('"');
    }
    fn digits(&mut self, max: usize, out: &mut String) {
        for _ in 0..self.rng.range(1, max) {
            out.push((b'0' + self.rng.below(10) as u8) as char);
        }
    }
    fn number(&mut self, out: &mut String) {
        if self.rng.chance(1, 4) {
            out.push('-');
        }
        match self.rng.below(6) {
            0 => out.push('0'),
            1 => out.push_str(&self.rng.u64().to_string()),
            2 => {
                out.push((b'1' + self.rng.below(9) as u8) as char);
                self.digits(25, out)
            }
            _ => out.push_str(&self.rng.below(200).to_string()),
        }
        if self.rng.chance(1, 3) {
            out.push('.');
            let max = if self.rng.chance(1, 4) { 25 } else { 3 };
            self.digits(max, out);
        }
        if self.rng.chance(1, 4) {
            out.push(*self.rng.pick(&['e', 'E']));
            out.push_str(self.rng.pick(&["", "+", "-"]));
            match self.rng.below(4) {
                0 => out.push_str("00"),
                1 => out.push_str(&self.rng.range(1, 330).to_string()),
                _ => out.push_str(&self.rng.range(0, 22).to_string()),
            }
        }
    }
    fn key(&mut self, out: &mut String) {
        if !self.keys.is_empty() && self.rng.chance(1, 3) {
            let k = self.rng.pick(&self.keys).clone();
            out.push_str(&k);
            return;
        }
        let mut s = String::new();
        if self.rng.chance(1, 3) {
            self.string(&mut s);
        } else {
            s = self.rng.pick(&["\"a\"", "\"b\"", "\"\"", "\"\\u0061\"", "\"key\"", "\"A\""]).to_string();
        }
        self.keys.push(s.clone());
        out.push_str(&s);
    }
    fn value(&mut self, size: usize, out: &mut String) {
        let leaf = size <= 1 && !self.rng.chance(1, 6);
        match if leaf { self.rng.below(6) } else { 6 + self.rng.below(2) } {
            0 => out.push_str("null"),
            1 => out.push_str("true"),
            2 => out.push_str("false"),
            3 | 4 => {
                if self.rng.chance(1, 2) {
                    self.number(out)
                } else {
                    self.string(out)
                }
            }
            5 => self.string(out),
            k => {
                let obj = k == 7;
                out.push(if obj { '{' } else { '[' });
                self.ws(out);
                let n = if size <= 1 {
                    0
                } else if self.rng.chance(1, 12) {
                    // many members
                    self.rng.range(0, 80.min(size - 1))
                } else {
                    self.rng.range(0, 5.min(size - 1))
                };
                for i in 0..n {
                    if i > 0 {
                        out.push(',');
                        self.ws(out);
                    }
                    if obj {
                        self.key(out);
                        self.ws(out);
                        out.push(':');
                        self.ws(out);
                    }
                    let share = (size - 1) / n;
                    let part = if self.rng.chance(1, 3) { share.max(1) * 2 / 3 } else { share };
                    self.value(part, out);
                    self.ws(out);
                }
                out.push(if obj { '}' } else { ']' });
            }
        }
    }
}

const BITS: &[&str] = &[
    ",", ":", "[", "]", "{", "}", "\"", "\\", "0", "1", "-", "+", ".", "e", "E", " ", "\t", "\n", "\r", "n", "t", "f", "u", "null",
    "true", "false", "\\u", "\\u00", "/", "'", "\u{0}", "\u{1f}", "\u{b}", "\u{c}", "é", "😀", "\u{7f}", "\u{a0}", "//", "NaN", "01", "-0", "00",
    "d8", "\\x", "\\/", ",,", "()", "\"\"", "D",
];

fn damage(s: &str, rng: &mut Rng) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..rng.range(1, 3) {
        let i = rng.below(c.len() + 1);
        match rng.below(6) {
            0 if i < c.len() => {
                c.remove(i);
            }
            1 | 2 => {
                let b: Vec<char> = rng.pick(BITS).chars().collect();
                for (k, x) in b.into_iter().enumerate() {
                    c.insert(i + k, x)
                }
            }
            3 if i < c.len() => c[i] = rng.pick(BITS).chars().next().unwrap_or(' '),
            4 => c.truncate(i),
            _ if c.len() > 1 => {
                let j = rng.below(c.len());
                let k = rng.below(c.len());
                c.swap(j, k)
            }
            _ => c.insert(i, ','),
        }
    }
    c.into_iter().collect()
}

fn gen(rng: &mut Rng, _: usize) -> Case {
    let k = rng.below(20);
    let ascii = rng.chance(3, 4);
    let ws = rng.below(3);
    let size = match rng.below(10) {
        0 => 1,
        1 if rng.chance(1, 60) => rng.range(100, 2000),
        1 => rng.range(20, 80),
        _ => rng.range(1, 14),
    };
    let mut s = String::new();
    if k == 0 {
        for _ in 0..rng.below(10) {
            s.push_str(rng.pick(BITS));
        }
    } else {
        let mut g = G {
            rng,
            ascii,
            ws,
            keys: vec![],
        };
        g.ws(&mut s);
        g.value(size, &mut s);
        g.ws(&mut s);
        if g.rng.chance(1, 60) {
            let d = if g.rng.chance(1, 60) { g.rng.range(100, 3000) } else { g.rng.range(5, 60) };
            for _ in 0..d {
                s = format!("[{}]", s);
            }
        }
        if k < 6 {
            s = damage(&s, rng);
        }
    }
    Case::new("json", &s)
}

// ---------------------------------------------------------------- check

fn quietly<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_msg(&*e))
}

thread_local! {
    static LALR: lalr::ValueParser = lalr::ValueParser::new();
}

fn hand(s: &str) -> Result<Result<J, String>, String> {
    quietly(|| Value::parse_str(s).map(|v| of_value(&v)).map_err(|e| e.to_string()))
}

fn by_lalr(s: &str) -> Result<Result<J, String>, String> {
    quietly(|| LALR.with(|p| p.parse(s).map(|v| of_value(&v)).map_err(|e| format!("{:?}", e))))
}

fn generated(s: &str) -> Result<Result<J, String>, String> {
    quietly(|| {
        IterWrapper::new(s.chars())
            .parse::<nibble::Ast>()
            .map(|a| of_value(&Value::from(a)))
            .map_err(|e| e.to_string())
    })
}

fn gives(who: &str, s: &str, want: &J, r: Result<Result<J, String>, String>) -> Result<(), String> {
    match r {
        Err(m) => Err(format!("panic: {} panics with {:?} on {:?}", who, m, s)),
        Ok(Err(e)) => Err(format!("rejected: {} rejects {:?}: {}", who, s, e)),
        Ok(Ok(v)) if same(&v, want) => Ok(()),
        Ok(Ok(v)) => Err(format!("value: {} reads {:?} as {:?}, not {:?}", who, s, v, want)),
    }
}

fn one(c: &Case) -> V {
    let s = &c.prog;
    let (t, seen) = read(s);
    match t {
        Text::Open(m) => V::Skip(m.into()),
        Text::Invalid => match quietly(|| nibble::Ast::parse_str(s).map(|_| ())) {
            Ok(Err(_)) => V::pass(s.len() > 1, &["not JSON"]),
            Ok(Ok(())) => V::Fail(format!("accepted: the generated parser accepts {:?}, which is not JSON", s)),
            Err(m) => V::Fail(format!("panic: the generated parser panics with {:?} on {:?}", m, s)),
        },
        Text::Valid(j) => {
            let ascii = s.chars().all(|c| matches!(c, ' '..='~' | '\t' | '\n' | '\r'));
            let r = (|| {
                gives("the hand-written parser", s, &j, hand(s))?;
                gives("the LALR parser", s, &j, by_lalr(s))?;
                if ascii {
                    gives("the generated parser", s, &j, generated(s))?;
                    // parse, and convert only afterwards: the tree prints as the text
                    match quietly(|| nibble::Ast::parse_str(s).map(|a| a.to_string())) {
                        Ok(Ok(p)) if p == *s => {}
                        Ok(Ok(p)) => return Err(format!("echo: the tree for {:?} prints as {:?}", s, p)),
                        Ok(Err(e)) => return Err(format!("rejected: the generated parser rejects {:?}: {}", s, e)),
                        Err(m) => return Err(format!("panic: {:?} on {:?}", m, s)),
                    }
                }
                let v = to_value(&j);
                let p = quietly(|| v.to_string()).map_err(|m| format!("printing: panics with {:?} for {:?}", m, j))?;
                match read(&p).0 {
                    Text::Valid(k) if same(&j, &k) => {}
                    Text::Valid(k) => return Err(format!("printing: {:?} prints as {:?}, which means {:?}", j, p, k)),
                    _ => return Err(format!("printing: {:?} prints as {:?}, which is not JSON", j, p)),
                }
                gives("the hand-written parser", &p, &j, hand(&p))?;
                gives("the LALR parser", &p, &j, by_lalr(&p))
            })();
            match r {
                Err(m) => V::Fail(m),
                Ok(()) => {
                    let mut tags: Vec<String> = seen.iter().map(|s| s.to_string()).collect();
                    tags.push(if ascii { "JSON, ASCII" } else { "JSON, not ASCII" }.into());
                    V::Pass {
                        nontrivial: seen.len() > 0,
                        n: if ascii { 7 } else { 5 },
                        tags,
                    }
                }
            }
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        quick: 2_500_000,
        thorough: 30_000_000,
        batch: 20,
        crash: true,
        flaky_ok: false,
        gen,
        check: |cs| cs.iter().map(one).collect(),
        rule: "random JSON texts (every escape, surrogate pairs, number forms, white space, nesting, duplicate keys) and damaged ones; non-trivial: a value with a container, an escape, a fraction or an exponent, or an invalid text of at least two characters",
        assumptions: &[
            "the reference JSON reader in benchcheck/src/json.rs",
            "f64::from_str of the standard library",
            "nesting and string length within the stack of 1 GiB",
        ],
        known: None,
        setup: None,
    }]
}
