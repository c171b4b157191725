//! Properties of the runtime: histories of stream operations against a list of characters.

use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::fmt;

use chewed::{Epsilon, IterWrapper, LineCol, Parse, ParseError, Parser, TakeError};

use crate::dict::dict;
use crate::engine::*;
use crate::run::place;
use crate::util::*;

// ---------------------------------------------------------------- the model

struct Model {
    c: Vec<char>,
    /// The place of every character and of the end.
    at: Vec<LineCol>,
    i: usize,
}

/// The places of all characters and of the end, as `place` gives them one by one.
fn places(c: &[char]) -> Vec<LineCol> {
    let mut v = Vec::with_capacity(c.len() + 1);
    let mut at = LineCol { line: 1, col: 0 };
    v.push(at);
    for k in 0..c.len() {
        // one character, and what decides on its being a line end
        let (line, col) = place(&c[k..c.len().min(k + 2)], 1);
        at = LineCol {
            line: at.line + line - 1,
            col: if line > 1 { col } else { at.col + col },
        };
        v.push(at)
    }
    v
}

impl Model {
    fn new(c: &[char]) -> Model {
        Model { c: c.to_vec(), at: places(c), i: 0 }
    }
    fn pos(&self) -> LineCol {
        self.at[self.i]
    }
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn next(&mut self) -> Option<char> {
        let r = self.peek();
        if r.is_some() {
            self.i += 1
        }
        r
    }
    fn consume(&mut self, s: &'static str) -> Result<(), TakeError> {
        let mut done = String::new();
        for x in s.chars() {
            match self.peek() {
                None => return Err(TakeError::EndOfStream(self.pos())),
                Some(c) if c == x => {
                    done.push(c);
                    self.i += 1
                }
                Some(c) => {
                    done.push(c);
                    return Err(TakeError::BadString(self.pos(), done, s));
                }
            }
        }
        Ok(())
    }
    fn chars(&mut self, set: &'static [char], n: usize) -> (Vec<char>, Result<(), TakeError>) {
        let mut v = vec![];
        while v.len() < n {
            match self.peek() {
                None => return (v, Err(TakeError::EndOfStream(self.pos()))),
                Some(c) if set.contains(&c) => {
                    v.push(c);
                    self.i += 1
                }
                Some(c) => return (v, Err(TakeError::BadBranch(self.pos(), c, set))),
            }
        }
        (v, Ok(()))
    }
}

// ---------------------------------------------------------------- streams

/// A stream of its own that relies on the default methods.
struct Own {
    c: VecDeque<char>,
    at: Vec<LineCol>,
    i: usize,
}

impl Parser for Own {
    fn next(&mut self) -> Option<char> {
        let r = self.c.pop_front();
        if r.is_some() {
            self.i += 1
        }
        r
    }
    fn peek(&mut self) -> Option<char> {
        self.c.front().copied()
    }
    fn pos(&self) -> LineCol {
        self.at[self.i]
    }
}

// ---------------------------------------------------------------- arguments

thread_local! {
    static STRS: RefCell<HashMap<String, &'static str>> = RefCell::new(HashMap::new());
    static SETS: RefCell<HashMap<Vec<char>, &'static [char]>> = RefCell::new(HashMap::new());
}

fn keep_str(s: &str) -> &'static str {
    STRS.with(|m| {
        *m.borrow_mut()
            .entry(s.to_owned())
            .or_insert_with(|| Box::leak(s.to_owned().into_boxed_str()))
    })
}

fn keep_set(s: &[char]) -> &'static [char] {
    SETS.with(|m| {
        *m.borrow_mut()
            .entry(s.to_vec())
            .or_insert_with(|| Box::leak(s.to_vec().into_boxed_slice()))
    })
}

/// Frees what was kept, when there is much of it.  Only between cases, when nothing refers to it.
fn forget_kept() {
    WORD.with(|w| *w.borrow_mut() = "");
    STRS.with(|m| {
        if m.borrow().len() > 20_000 {
            for (_, s) in m.borrow_mut().drain() {
                // made by `Box::leak` above
                drop(unsafe { Box::from_raw(s as *const str as *mut str) })
            }
        }
    });
    SETS.with(|m| {
        if m.borrow().len() > 20_000 {
            for (_, s) in m.borrow_mut().drain() {
                drop(unsafe { Box::from_raw(s as *const [char] as *mut [char]) })
            }
        }
    });
}

/// Characters of every encoded length, and all line ends.
const AL: &[char] = &[
    'a', 'b', ',', ']', ' ', '\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}', 'é', '€', '\u{1F600}', '\0', '\t', '\u{1c}',
    '\u{10ffff}', '\u{1e}', '\u{feff}', '\u{301}', '7', '"', '\\', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', 'c',
];

thread_local! {
    /// How many times as large as usual arguments are.
    static SCALE: std::cell::Cell<usize> = std::cell::Cell::new(1);
}

fn scale() -> usize {
    SCALE.with(|s| s.get())
}

/// Bits of an argument.
struct Bits(u64);

impl Bits {
    fn below(&mut self, n: usize) -> usize {
        let r = (self.0 % n as u64) as usize;
        self.0 /= n as u64;
        r
    }
}

/// A string built around what comes next: all of it, changed at one place, or longer.
fn string_for(m: &Model, b: &mut Bits) -> &'static str {
    let n = match b.below(8) {
        7 => 6 + b.below(30),
        6 => 3 + b.below(4),
        n => n,
    } * scale();
    let rest = &m.c[m.i.min(m.c.len())..];
    let mut v: Vec<char> = rest.iter().take(n).copied().collect();
    match b.below(4) {
        0 | 1 => {}
        2 => {
            let x = AL[b.below(AL.len())];
            if v.is_empty() {
                v.push(x)
            } else {
                let k = b.below(v.len());
                v[k] = x
            }
        }
        _ => v.push(AL[b.below(AL.len())]),
    }
    let s: String = v.into_iter().collect();
    keep_str(&s)
}

fn set_for(m: &Model, b: &mut Bits) -> Vec<char> {
    let mut v = vec![];
    let rest = &m.c[m.i.min(m.c.len())..];
    for c in rest.iter().take(b.below(5)) {
        if !v.contains(c) {
            v.push(*c)
        }
    }
    let (n, from) = match b.below(8) {
        // many of them
        7 => (4 + b.below(AL.len() - 3), b.below(AL.len())),
        n if n < 4 => {
            for _ in 0..n {
                let c = AL[b.below(AL.len())];
                if !v.contains(&c) {
                    v.push(c)
                }
            }
            (0, 0)
        }
        _ => (0, 0),
    };
    for k in 0..n {
        let c = AL[(from + k) % AL.len()];
        if !v.contains(&c) {
            v.push(c)
        }
    }
    if scale() > 1 && n > 0 {
        // many more, before or after these
        let more: Vec<char> = (0..(n * scale() / 2) as u32).filter_map(|k| std::char::from_u32(0x4e00 + k)).collect();
        let k = if from % 2 == 0 { 0 } else { v.len() };
        v.splice(k..k, more);
    }
    v
}

// ---------------------------------------------------------------- items for the iterator

/// One character followed by the rest of a word.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Two(char, char);

fn item_real<P: Parser + ?Sized>(p: &mut P, kind: usize, set: &'static [char], s: &'static str) -> Result<String, TakeError> {
    match kind {
        0 => {
            let mut b = ['\0'; 1];
            p.take_chars_from(set, &mut b)?;
            Ok(b.iter().collect())
        }
        1 => {
            p.consume_str(s)?;
            Ok(s.to_owned())
        }
        2 => {
            let mut n = 0;
            p.skip_while(|c| {
                let r = set.contains(&c);
                if r {
                    n += 1
                }
                r
            });
            Ok(n.to_string())
        }
        _ => {
            let mut b = ['\0'; 2];
            p.take_chars_from(set, &mut b)?;
            Ok(format!("{:?}", Two(b[0], b[1])))
        }
    }
}

fn item_model(m: &mut Model, kind: usize, set: &'static [char], s: &'static str) -> Result<String, TakeError> {
    match kind {
        0 => {
            let (v, r) = m.chars(set, 1);
            r.map(|()| v.into_iter().collect())
        }
        1 => m.consume(s).map(|()| s.to_owned()),
        2 => {
            let mut n = 0;
            while m.peek().map_or(false, |c| set.contains(&c)) {
                m.i += 1;
                n += 1
            }
            Ok(n.to_string())
        }
        _ => {
            let (v, r) = m.chars(set, 2);
            r.map(|()| format!("{:?}", Two(v[0], v[1])))
        }
    }
}

/// One step of the iteration, as described: nothing at the stop or the end of input; otherwise an
/// item, which the stop must follow, or the separator and the start of another item.
fn step_model(
    m: &mut Model,
    kind: usize,
    set: &'static [char],
    s: &'static str,
    sep: char,
    stop: char,
    both: &'static [char],
    first: &'static [char],
) -> Option<Result<String, TakeError>> {
    let c = m.peek()?;
    if c == stop {
        return None;
    }
    let r = match item_model(m, kind, set, s) {
        Err(e) => return Some(Err(e)),
        Ok(r) => r,
    };
    Some(match m.peek() {
        None => Err(TakeError::EndOfStream(m.pos())),
        Some(c) if c == sep => {
            m.i += 1;
            match m.peek() {
                None => Err(TakeError::EndOfStream(m.pos())),
                Some(c) if first.contains(&c) => Ok(r),
                Some(c) => Err(TakeError::BadBranch(m.pos(), c, first)),
            }
        }
        Some(c) if c == stop => Ok(r),
        Some(c) => Err(TakeError::BadBranch(m.pos(), c, both)),
    })
}

// ---------------------------------------------------------------- values for take and parse

thread_local! {
    static WORD: RefCell<&'static str> = RefCell::new("");
}

/// Parses the word set for this thread.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Word(&'static str);

impl fmt::Display for Word {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}

impl Parse for Word {
    fn take<P: Parser + ?Sized>(input: &mut P) -> Result<Self, TakeError> {
        let s = WORD.with(|w| *w.borrow());
        input.consume_str(s)?;
        Ok(Word(s))
    }
}

// ---------------------------------------------------------------- error texts

/// What comes before and after the word `expected` (not `unexpected`), if it occurs outside the
/// quoted texts exactly once and something is quoted behind it.
pub fn split_message(s: &str) -> Option<(&str, &str)> {
    let low = s.to_ascii_lowercase();
    let mut at = vec![];
    let mut quote = None;
    let mut skip = false;
    for (i, c) in low.char_indices() {
        if skip {
            skip = false;
        } else if let Some(q) = quote {
            if c == '\\' {
                skip = true
            } else if c == q {
                quote = None
            }
        } else if c == '"' || c == '\'' {
            quote = Some(c)
        } else if low[i..].starts_with("expected") && !low[..i].ends_with("un") {
            at.push(i)
        }
    }
    match at[..] {
        [i] if s[i..].contains(|c| c == '"' || c == '\'') => Some((&s[..i], &s[i..])),
        _ => None,
    }
}

fn shows(e: &TakeError) -> Result<(), String> {
    let s = e.to_string();
    let need: Vec<String> = match e {
        TakeError::BadBranch(p, c, v) => {
            let mut n = vec![p.to_string(), format!("{:?}", c)];
            n.extend(v.iter().map(|c| format!("{:?}", c)));
            n
        }
        TakeError::BadString(p, g, w) => vec![p.to_string(), format!("{:?}", g), format!("{:?}", w)],
        TakeError::EndOfStream(p) => vec![p.to_string()],
    };
    if let Some((before, after)) = split_message(&s) {
        let (found, want) = match e {
            TakeError::BadBranch(_, c, v) => (format!("{:?}", c), v.iter().map(|c| format!("{:?}", c)).collect()),
            TakeError::BadString(_, g, w) => (format!("{:?}", g), vec![format!("{:?}", w)]),
            TakeError::EndOfStream(_) => (String::new(), vec![]),
        };
        if !before.contains(&found) || !want.iter().all(|w| after.contains(w)) {
            return Err(format!("message: {:?} should say that {} was found and {:?} expected", s, found, want));
        }
    }
    let (line, col) = match e {
        TakeError::BadBranch(p, ..) | TakeError::BadString(p, ..) | TakeError::EndOfStream(p) => (p.line, p.col),
    };
    for n in need {
        if !s.contains(&n) {
            return Err(format!("message: {:?} does not show {}", s, n));
        }
    }
    if !s.contains(&format!("{}:{}", line, col)) {
        return Err(format!("message: {:?} does not show {}:{}", s, line, col));
    }
    if ParseError::TakeError(e.clone()).to_string() != s {
        return Err("message: differs as a parse error".into());
    }
    Ok(())
}

// ---------------------------------------------------------------- one operation

#[derive(Default)]
struct Seen {
    ops: usize,
    fails: usize,
    wide: bool,
    breaks: bool,
    at_end: bool,
    tags: std::collections::BTreeSet<&'static str>,
}

fn same<T: PartialEq + fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, should be {:?}", what, got, want))
    }
}

fn step<P: Parser + ?Sized>(p: &mut P, m: &mut Model, op: u64, only_pos: bool, seen: &mut Seen) -> Result<(), String> {
    let mut b = Bits(op);
    let kind = b.below(10);
    seen.ops += 1;
    if m.i >= m.c.len() {
        seen.at_end = true
    }
    match kind {
        0 | 1 => {
            seen.tags.insert("next");
            let w = m.next();
            same("next", p.next(), w)?;
        }
        2 => {
            seen.tags.insert("peek");
            for _ in 0..1 + b.below(3) {
                same("peek", p.peek(), m.peek())?;
            }
        }
        3 => {
            // two positions, nothing in between
            seen.tags.insert("pos");
            same("pos", p.pos(), m.pos())?;
        }
        4 | 5 => {
            seen.tags.insert("consume_str");
            let s = string_for(m, &mut b);
            let want = m.consume(s);
            if want.is_err() {
                seen.fails += 1
            }
            if s.len() > s.chars().count() {
                seen.wide = true
            }
            let got = p.consume_str(s);
            if !only_pos {
                if let Err(e) = &got {
                    shows(e)?
                }
                same("consume_str", got, want)?;
            }
        }
        6 => {
            seen.tags.insert("skip_while");
            let set = set_for(m, &mut b);
            let mut asked = vec![];
            let start = m.i;
            while m.peek().map_or(false, |c| set.contains(&c)) {
                m.i += 1
            }
            p.skip_while(|c| {
                asked.push(c);
                set.contains(&c)
            });
            // the predicate sees each character once, in order
            if !only_pos {
                let end = (m.i + 1).min(m.c.len());
                same("skip_while asked", asked, m.c[start..end].to_vec())?;
            }
        }
        7 => {
            seen.tags.insert("take_chars_from");
            let set = keep_set(&set_for(m, &mut b));
            let n = match b.below(6) {
                5 => 5 + b.below(12),
                n => n,
            } * scale();
            let (v, want) = m.chars(set, n);
            if want.is_err() {
                seen.fails += 1
            }
            let mut buf = vec!['\u{fffe}'; n];
            let got = p.take_chars_from(set, &mut buf);
            if !only_pos {
                if let Err(e) = &got {
                    shows(e)?
                }
                same("take_chars_from", got, want)?;
                let rest = buf[v.len()..].to_vec();
                same("take_chars_from read", buf[..v.len()].to_vec(), v)?;
                let none = vec!['\u{fffe}'; rest.len()];
                same("take_chars_from wrote what it did not read", rest, none)?;
            }
        }
        8 => {
            seen.tags.insert("iter_strict");
            let item = b.below(4);
            let set = keep_set(&set_for(m, &mut b));
            let s = string_for(m, &mut b);
            let pick = |b: &mut Bits, m: &Model| {
                // a character that comes soon, or any
                let k = b.below(4);
                if b.below(3) > 0 {
                    m.c.get(m.i + k).copied().unwrap_or(AL[k])
                } else {
                    AL[b.below(AL.len())]
                }
            };
            let sep = pick(&mut b, m);
            let mut stop = pick(&mut b, m);
            if stop == sep {
                stop = if sep == ']' { ',' } else { ']' }
            }
            let both = keep_set(&[sep, stop]);
            let first = set;
            let max = b.below(6) * scale();
            let mut it = p.iter_strict(
                |p: &mut P| item_real(p, item, set, s),
                sep,
                stop,
                both,
                first,
            );
            for _ in 0..max {
                let want = step_model(m, item, set, s, sep, stop, both, first);
                let got = it.next();
                let over = !matches!(want, Some(Ok(_)));
                if over {
                    seen.fails += 1
                }
                if !only_pos {
                    if let Some(Err(e)) = &got {
                        shows(e)?
                    }
                    same("iter_strict", got, want)?;
                }
                if over {
                    break;
                }
            }
        }
        _ => {
            seen.tags.insert("take");
            let s = string_for(m, &mut b);
            WORD.with(|w| *w.borrow_mut() = s);
            match b.below(3) {
                0 => {
                    same("take the empty string", p_take::<P, Epsilon>(p), Ok(Epsilon))?;
                    same("print the empty string", Epsilon.to_string(), String::new())?;
                }
                1 => {
                    let want = m.consume(s).map(|()| Word(s));
                    let got = p_take::<P, Word>(p);
                    if !only_pos {
                        same("take", got, want)?
                    }
                }
                _ => {
                    let want = m.consume(s).map(|()| Box::new(Word(s)));
                    let got = p_take::<P, Box<Word>>(p);
                    if !only_pos {
                        same("take into a box", got, want)?
                    }
                }
            }
        }
    }
    // now and then nobody asks
    if op.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 61 != 0 {
        let (got, want) = (p.pos(), m.pos());
        same("position afterwards", (got.line, got.col), (want.line, want.col))?;
        same("position afterwards", got, want)?;
    }
    Ok(())
}

/// Positions compare as places in the text do, and print as line and column.
fn ordered(a: LineCol, b: LineCol) -> Result<(), String> {
    let key = |p: LineCol| (p.line, p.col);
    same("order of positions", a.cmp(&b), key(a).cmp(&key(b)))?;
    same("order of positions", a.partial_cmp(&b), Some(key(a).cmp(&key(b))))?;
    same("equality of positions", a == b, key(a) == key(b))?;
    same("printed position", a.to_string(), format!("{}:{}", a.line, a.col))
}

fn p_take<P: Parser + ?Sized, T: Parse>(p: &mut P) -> Result<T, TakeError> {
    T::take(p)
}

fn history<P: Parser + ?Sized>(p: &mut P, text: &[char], ops: &[u64], only_pos: bool, seen: &mut Seen) -> Result<(), String> {
    let mut m = Model::new(text);
    same("first position", p.pos(), LineCol { line: 1, col: 0 })?;
    for (k, op) in ops.iter().enumerate() {
        let at = m.i;
        step(p, &mut m, *op, only_pos, seen).map_err(|e| {
            let (c, r) = e.split_at(e.find(':').unwrap_or(0));
            format!("{}{} (operation {} at character {} of {:?})", c, r, k + 1, at, text.iter().take(200).collect::<String>())
        })?;
    }
    // the rest is still there, with right positions
    let mut left = vec![];
    let mut last = p.pos();
    ordered(LineCol { line: 1, col: 0 }, last)?;
    while let Some(c) = p.next() {
        left.push(c);
        m.i += 1;
        let pos = p.pos();
        same("position in the rest", pos, m.pos())?;
        if pos < last {
            return Err(format!("order of positions: {} comes after {}", pos, last));
        }
        ordered(last, pos)?;
        ordered(pos, last)?;
        last = pos;
        if left.len() > text.len() + 4 {
            break;
        }
    }
    let from = m.i - left.len();
    same("rest", left, text[from.min(text.len())..].to_vec())?;
    for _ in 0..3 {
        same("next at the end", p.next(), None)?;
        same("peek at the end", p.peek(), None)?;
        same("position at the end", p.pos(), m.pos())?;
    }
    seen.breaks = m.pos().line > 1;
    Ok(())
}

// ---------------------------------------------------------------- C16, C18

fn text_gen(rng: &mut Rng) -> String {
    let n = match rng.below(200) {
        0 => rng.range(200, 700),
        1..=10 => rng.range(30, 120),
        _ => rng.below(40),
    };
    let breaks = rng.range(1, 9);
    let few = rng.chance(1, 2);
    (0..n)
        .map(|_| {
            if rng.chance(breaks, 12) {
                *rng.pick(&['\n', '\r', '\r', '\n', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}', '\u{1c}', '\u{1d}', '\u{1e}', '\u{2027}', '\u{202a}', '\t', '\u{84}', '\u{86}', '\u{8}', '\u{e}'])
            } else if dict().now(rng, 30, 'c') {
                dict().char(rng)
            } else if few {
                *rng.pick(&['a', 'b', 'é', ','])
            } else if rng.chance(1, 12) {
                std::char::from_u32(rng.below(0x110000) as u32).unwrap_or('x')
            } else {
                *rng.pick(AL)
            }
        })
        .collect()
}

fn ops_gen(rng: &mut Rng, kinds: &[u64]) -> Vec<u64> {
    let n = rng.below(30);
    (0..n)
        .map(|_| {
            let k = *rng.pick(kinds);
            (rng.u64() >> rng.range(5, 50)) * 10 + k
        })
        .collect()
}

/// Long texts made of runs, lines and lists, and operations with large arguments.
fn long_gen(rng: &mut Rng, kinds: &[u64]) -> Case {
    let scale = *rng.pick(&[2, 4, 8, 9, 16, 17, 30, 32, 64, 100, 128]);
    let mut c = Case::new("long", &scale.to_string());
    let n = match rng.below(60) {
        0 => 65_500 + rng.below(200),
        1 => 131_000 + rng.below(200),
        2..=5 => rng.range(4_000, 9_000),
        _ => rng.range(100, 2_500),
    };
    let shape = rng.below(4);
    let mut v: Vec<char> = vec![];
    while v.len() < n {
        let k = match rng.below(6) {
            0 => 1,
            1 => rng.range(1, 8),
            2 | 3 => rng.range(1, 300),
            _ => rng.range(1, n),
        };
        match (shape, rng.below(12)) {
            // one line
            (0, 0..=9) | (1, 0..=2) => {
                let x = *rng.pick(&['a', 'b', 'é', '€', '\u{1F600}', '\0', '\u{7f}']);
                v.extend(std::iter::repeat(x).take(k))
            }
            // many lines
            (1, _) => {
                let x = *rng.pick(&['\n', '\r', '\u{85}', '\u{2028}', '\u{c}']);
                let w = *rng.pick(&["", "", "a", "\n", "é"]);
                for _ in 0..k {
                    v.push(x);
                    v.extend(w.chars())
                }
            }
            // a list
            (2, _) => {
                let item = *rng.pick(&["a", "b", "ab", "", "\u{1F600}"]);
                let sep = *rng.pick(&[',', ',', ',', 'é', '\n']);
                for _ in 0..k {
                    v.extend(item.chars());
                    v.push(sep)
                }
                if rng.chance(1, 4) {
                    v.push(']')
                }
            }
            _ => v.extend(text_gen(rng).chars()),
        }
    }
    v.truncate(n);
    c.inputs = vec![v.into_iter().collect()];
    c.nums = ops_gen(rng, kinds);
    c
}

fn c16_gen(rng: &mut Rng, _: usize) -> Case {
    if rng.chance(1, 1500) {
        return long_gen(rng, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]);
    }
    let mut c = Case::new("history", "");
    c.inputs = vec![text_gen(rng)];
    let kinds: &[u64] = match rng.below(3) {
        0 => &[0, 1, 2, 3],
        1 => &[0, 2, 3, 4, 6, 7],
        _ => &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9],
    };
    c.nums = ops_gen(rng, kinds);
    c
}

fn c18_gen(rng: &mut Rng, _: usize) -> Case {
    if rng.chance(1, 1500) {
        return long_gen(rng, &[0, 4, 5, 6, 7, 8, 9]);
    }
    let mut c = Case::new("history", "");
    let t = match rng.below(3) {
        0 => text_gen(rng),
        1 => {
            // separated items
            let n = rng.below(8);
            let sep = *rng.pick(&[',', 'é', '\n']);
            let stop = *rng.pick(&[']', '€', ' ']);
            let mut s = String::new();
            for i in 0..n {
                if i > 0 && rng.chance(9, 10) {
                    s.push(sep)
                }
                for _ in 0..rng.below(3) {
                    s.push(*rng.pick(&['a', 'b', '\u{1F600}']))
                }
            }
            s.push(stop);
            s.push_str(&text_gen(rng).chars().take(5).collect::<String>());
            s
        }
        _ => (0..rng.below(30)).map(|_| *rng.pick(&['a', 'b', 'é', '€', '\u{1F600}', ','])).collect(),
    };
    c.inputs = vec![t];
    let kinds: &[u64] = match rng.below(4) {
        0 => &[4, 5],
        1 => &[8, 0, 4],
        2 => &[7, 6, 0],
        _ => &[0, 2, 3, 4, 5, 6, 7, 8, 9],
    };
    c.nums = ops_gen(rng, kinds);
    c
}

fn set_scale(c: &Case) {
    let n = match c.kind.as_str() {
        "long" => c.prog.parse().unwrap_or(1),
        _ => 1,
    };
    SCALE.with(|s| s.set(n))
}

fn caught(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", panic_msg(&*e))),
    }
}

fn verdict(seen: Seen, r: Result<(), String>, need: bool) -> V {
    match r {
        Err(m) => V::Fail(m),
        Ok(()) => {
            let mut tags: Vec<String> = seen.tags.iter().map(|s| (*s).to_owned()).collect();
            if seen.fails > 0 {
                tags.push("with faults".into())
            }
            if seen.at_end {
                tags.push("with operations at the end".into())
            }
            if seen.breaks {
                tags.push("several lines".into())
            }
            if seen.wide {
                tags.push("strings of several bytes per character".into())
            }
            V::Pass {
                nontrivial: need && seen.ops >= 2,
                n: seen.ops.max(1) as u64,
                tags,
            }
        }
    }
}

fn c16_one(c: &Case) -> V {
    set_scale(c);
    let text: Vec<char> = c.inputs.get(0).map_or(vec![], |s| s.chars().collect());
    let mut seen = Seen::default();
    let r = caught(|| {
        history(&mut IterWrapper::new(text.iter().copied()), &text, &c.nums, true, &mut seen)?;
        let mut more = Seen::default();
        let s: String = text.iter().collect();
        let mut sized = IterWrapper::new(s.chars());
        let un: &mut IterWrapper<dyn Iterator<Item = char>> = &mut sized;
        history(un, &text, &c.nums, true, &mut more)
    });
    let b = seen.breaks;
    forget_kept();
    verdict(seen, r, b)
}

fn c18_one(c: &Case) -> V {
    set_scale(c);
    let text: Vec<char> = c.inputs.get(0).map_or(vec![], |s| s.chars().collect());
    let mut seen = Seen::default();
    let r = caught(|| {
        history(&mut IterWrapper::new(text.iter().copied()), &text, &c.nums, false, &mut seen)?;
        let mut more = Seen::default();
        let mut own = Own {
            c: text.iter().copied().collect(),
            at: places(&text),
            i: 0,
        };
        history(&mut own, &text, &c.nums, false, &mut more)?;
        // whole texts
        for op in c.nums.iter().take(4) {
            let s: String = text.iter().collect();
            let mut m = Model::new(&text);
            let w = string_for(&m, &mut Bits(*op));
            WORD.with(|x| *x.borrow_mut() = w);
            let want = m.consume(w).map(|()| Word(w));
            same("take_str", Word::take_str(&s), want.clone())?;
            let whole = match want {
                Err(e) => Err(ParseError::TakeError(e)),
                Ok(_) if m.i < text.len() => Err(ParseError::InputContinues(m.pos())),
                Ok(w) => Ok(w),
            };
            same("parse_str", Word::parse_str(&s), whole.clone())?;
            same("parse", IterWrapper::new(s.chars()).parse::<Word>(), whole.clone())?;
            same("parse into a box", <Box<Word>>::parse_str(&s), whole.clone().map(Box::new))?;
            if let Err(e) = whole {
                let t = e.to_string();
                let p = match &e {
                    ParseError::InputContinues(p) => *p,
                    ParseError::TakeError(e) => {
                        shows(e)?;
                        continue;
                    }
                };
                if !t.contains(&format!("{}:{}", p.line, p.col)) {
                    return Err(format!("message: {:?} does not show the position", t));
                }
            }
        }
        same(
            "parse the empty string",
            Epsilon::parse_str(&text.iter().collect::<String>()),
            if text.is_empty() {
                Ok(Epsilon)
            } else {
                Err(ParseError::InputContinues(LineCol { line: 1, col: 0 }))
            },
        )
    });
    forget_kept();
    let prim = seen.tags.iter().any(|t| !matches!(*t, "next" | "peek" | "pos"));
    verdict(seen, r, prim)
}

pub fn props() -> Vec<Prop> {
    const TRUST: &[&str] = &["the list-of-characters model in harness/src/rt.rs states the properties"];
    let base = |id, gen, check, rule| Prop {
        id,
        quick: 2_000_000,
        thorough: 40_000_000,
        batch: 1,
        crash: true,
        flaky_ok: false,
        gen,
        check,
        rule,
        assumptions: TRUST,
        known: None,
        setup: None,
    };
    vec![
        base(
            "C16",
            c16_gen,
            |cs: &[Case]| cs.iter().map(c16_one).collect(),
            "at least two operations on a text of several lines",
        ),
        base(
            "C18",
            c18_gen,
            |cs: &[Case]| cs.iter().map(c18_one).collect(),
            "at least two operations, one of them a primitive beyond next, peek and pos",
        ),
    ]
}
