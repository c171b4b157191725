// Drives generated parsers; compiled together with them.
// usage: runner JOBS START   (lines of JOBS: module index, input in hex)

use chewed::{IterWrapper, LineCol, Parse, ParseError, Parser, TakeError};
use std::cell::Cell;
use std::fmt::{Debug, Display};
use std::fmt::Write as _;
use std::io::Write as _;
use std::rc::Rc;

fn hex(s: &str) -> String {
    let mut o = String::from("x");
    for b in s.bytes() {
        let _ = write!(o, "{:02x}", b);
    }
    o
}

fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect();
    String::from_utf8(b).unwrap()
}

/// Counts the characters asked for.
struct Src {
    c: Vec<char>,
    i: usize,
    pulled: Rc<Cell<usize>>,
    past: Rc<Cell<usize>>,
}

impl Iterator for Src {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        match self.c.get(self.i) {
            Some(c) => {
                self.i += 1;
                self.pulled.set(self.pulled.get() + 1);
                Some(*c)
            }
            None => {
                self.past.set(self.past.get() + 1);
                None
            }
        }
    }
}

/// Counts the operations on a stream.
struct Counting<'a, P: Parser + ?Sized> {
    inner: &'a mut P,
    ops: usize,
    taken: usize,
    limit: usize,
    over: Rc<Cell<bool>>,
}

impl<P: Parser + ?Sized> Counting<'_, P> {
    fn tick(&mut self) {
        self.ops += 1;
        if self.ops > self.limit {
            self.over.set(true);
            panic!("too many stream operations");
        }
    }
}

impl<P: Parser + ?Sized> Parser for Counting<'_, P> {
    fn next(&mut self) -> Option<char> {
        self.tick();
        let r = self.inner.next();
        if r.is_some() {
            self.taken += 1;
        }
        r
    }
    fn peek(&mut self) -> Option<char> {
        self.tick();
        self.inner.peek()
    }
    fn pos(&self) -> LineCol {
        self.inner.pos()
    }
}

/// Another implementation: a list with positions found by looking at what was consumed.
struct Listy {
    c: Vec<char>,
    i: usize,
}

fn place(c: &[char], i: usize) -> LineCol {
    let mut line = 1;
    let mut col = 0;
    for k in 0..i {
        let brk = match c[k] {
            '\n' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}' => true,
            '\r' => c.get(k + 1) != Some(&'\n'),
            _ => false,
        };
        if brk {
            line += 1;
            col = 0;
        } else {
            col += 1;
        }
    }
    LineCol { line, col }
}

impl Parser for Listy {
    fn next(&mut self) -> Option<char> {
        let r = self.c.get(self.i).copied();
        if r.is_some() {
            self.i += 1;
        }
        r
    }
    fn peek(&mut self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn pos(&self) -> LineCol {
        place(&self.c, self.i)
    }
}

fn take_err(e: &TakeError) -> String {
    match e {
        TakeError::BadBranch(p, got, exp) => format!(
            "branch\t{}\t{}\t{}\t{}\t{}",
            p.line,
            p.col,
            hex(&got.to_string()),
            hex(&exp.iter().collect::<String>()),
            hex(&e.to_string())
        ),
        TakeError::BadString(p, got, exp) => {
            format!("string\t{}\t{}\t{}\t{}\t{}", p.line, p.col, hex(got), hex(exp), hex(&e.to_string()))
        }
        TakeError::EndOfStream(p) => format!("end\t{}\t{}\tx\tx\t{}", p.line, p.col, hex(&e.to_string())),
    }
}

fn parse_err(e: &ParseError) -> String {
    match e {
        ParseError::TakeError(t) => {
            let s = take_err(t);
            // the whole error must print like the part
            if t.to_string() != e.to_string() {
                return format!("{}!", s);
            }
            s
        }
        ParseError::InputContinues(p) => format!("continues\t{}\t{}\tx\tx\t{}", p.line, p.col, hex(&e.to_string())),
    }
}

fn quietly<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        }
    })
}

pub fn unit<T: Display>(o: &mut String, name: &str, t: &T) {
    let _ = write!(o, "U\t{}\t{}\n", name, hex(&t.to_string()));
}

type Outcome = Result<String, ParseError>;

std::thread_local! {
    /// What the texts for the current program gave.
    static FIRST: std::cell::RefCell<Vec<(String, Outcome)>> = std::cell::RefCell::new(vec![]);
}

fn outcome<A: Parse + Display>(w: &str) -> Result<Outcome, String> {
    quietly(|| A::parse_str(w).map(|a| a.to_string()))
}

/// Parses all texts again and again, by the same thread and by another at the same time. Says which
/// do not give what they gave first.
pub fn again<A: Parse + Display>(chars: usize) -> String {
    let first = FIRST.with(|f| f.replace(vec![]));
    let total: usize = first.iter().map(|(w, _)| w.chars().count() + 4).sum();
    if total == 0 {
        return String::new();
    }
    let rounds = (chars / total).max(2).min(if chars > 100_000 { 4000 } else { 400 });
    let millis = if chars > 100_000 { 1500 } else { 300 };
    fn look<A: Parse + Display>(first: &[(String, Outcome)], rounds: usize, millis: u128) -> Vec<(usize, &'static str)> {
        let mut bad: Vec<(usize, &'static str)> = vec![];
        let clock = std::time::Instant::now();
        for k in 0..rounds {
            // to and fro, and each a few times in a row
            for j in 0..first.len() {
                let i = if k % 2 == 0 { j } else { first.len() - 1 - j };
                for _ in 0..if k % 7 == 3 { 3 } else { 1 } {
                    let (w, a) = &first[i];
                    let how = match (a, outcome::<A>(w)) {
                        (_, Err(_)) => "panics",
                        (Ok(_), Ok(Err(_))) => "rejects",
                        (Err(_), Ok(Ok(_))) => "accepts",
                        (Ok(a), Ok(Ok(b))) if *a != b => "differs",
                        (Err(a), Ok(Err(b))) if *a != b => "errs",
                        _ => continue,
                    };
                    if bad.iter().all(|b| b.0 != i) {
                        bad.push((i, how));
                    }
                }
            }
            if k > 2 && clock.elapsed().as_millis() > millis {
                break;
            }
        }
        bad
    }
    let mut bad = look::<A>(&first, rounds, millis);
    let first = std::sync::Arc::new(first);
    let theirs = first.clone();
    let t = std::thread::Builder::new()
        .stack_size(1 << 28)
        .spawn(move || look::<A>(&theirs, 3.max(rounds / 8), millis / 8))
        .unwrap();
    bad.extend(look::<A>(&first, 3.max(rounds / 8), millis / 8));
    bad.extend(t.join().unwrap_or_default());
    let mut o = String::new();
    for (i, how) in bad {
        let _ = write!(o, "R\t{}\t{}\n", hex(&first[i].0), how);
    }
    o
}

fn whole_parse<A: Parse + Debug + Display + PartialEq + Clone>(o: &mut String, w: &str, conv: Option<fn(A) -> char>) -> Result<Result<A, ParseError>, String> {
    // whole-input parse
    let whole = quietly(|| A::parse_str(w));
    if w.len() < 4000 {
        let o = match &whole {
            Ok(Ok(a)) => quietly(|| a.to_string()).ok().map(Ok),
            Ok(Err(e)) => Some(Err(e.clone())),
            Err(_) => None,
        };
        if let Some(o) = o {
            FIRST.with(|f| f.borrow_mut().push((w.to_owned(), o)));
        }
    }
    match &whole {
        Err(m) => {
            let _ = write!(o, "P\tpanic\t{}\n", hex(m));
        }
        Ok(Err(e)) => {
            let _ = write!(o, "P\terr\t{}\n", parse_err(e));
        }
        Ok(Ok(a)) => {
            let shown = quietly(|| a.to_string());
            let again = match &shown {
                Err(_) => "unprintable",
                Ok(s) => match quietly(|| A::parse_str(s)) {
                    Ok(Ok(b)) => {
                        if b == *a && b.clone() == *a {
                            "same"
                        } else {
                            "different"
                        }
                    }
                    Ok(Err(_)) => "rejected",
                    Err(_) => "panic",
                },
            };
            let _ = write!(
                o,
                "P\tok\t{}\t{}\t{}\n",
                hex(&shown.unwrap_or_else(|m| format!("panic {}", m))),
                hex(&format!("{:?}", a)),
                again
            );
            if let Some(f) = conv {
                match quietly(|| f(a.clone())) {
                    Ok(c) => {
                        let _ = write!(o, "C\t{}\n", hex(&c.to_string()));
                    }
                    Err(m) => {
                        let _ = write!(o, "C\tpanic {}\n", m);
                    }
                }
            }
        }
    }

    // the same through a box, as recursive parts are parsed
    let boxed = quietly(|| <Box<A>>::parse_str(w));
    let how = match (&whole, &boxed) {
        (Ok(Ok(a)), Ok(Ok(b))) if *a == **b && a.to_string() == b.to_string() => "same",
        (Ok(Err(a)), Ok(Err(b))) if a == b => "same",
        (Ok(Err(_)), Ok(Ok(_))) => "accepts",
        (Ok(Ok(_)), Ok(Err(_))) => "rejects",
        (Err(_), _) => "same",
        (_, Err(_)) => "panics",
        _ => "differs",
    };
    let _ = write!(o, "X\t{}\n", how);

    whole
}

/// Compares the results for all texts with each other.
pub fn values<A: Parse + Debug + Display + PartialEq + Eq + Clone + std::hash::Hash>(ws: &[String]) -> String {
    use std::collections::hash_map::DefaultHasher;
    use std::collections::{HashMap, HashSet};
    use std::hash::{Hash, Hasher};
    let ok = |w: &String| quietly(|| A::parse_str(w)).ok().and_then(|r| r.ok());
    let one: Vec<(&String, A)> = ws.iter().filter_map(|w| ok(w).map(|a| (w, a))).collect();
    let two: Vec<(&String, A)> = ws.iter().filter_map(|w| ok(w).map(|a| (w, a))).collect();
    let code = |a: &A| {
        let mut h = DefaultHasher::new();
        a.hash(&mut h);
        h.finish()
    };
    let mut bad: Option<String> = None;
    let mut say = |m: String| {
        if bad.is_none() {
            bad = Some(m)
        }
    };
    let done = quietly(|| {
        let mut bad: Option<String> = None;
        let mut say = |m: String| {
            if bad.is_none() {
                bad = Some(m)
            }
        };
        for (v, a) in &one {
            for (w, b) in &two {
                if (a == b) != (v == w) {
                    say(format!("equal: the results for {:?} and {:?} are {}equal", v, w, if a == b { "" } else { "un" }));
                }
                if (a != b) == (a == b) {
                    say(format!("equal: == and != agree on the results for {:?} and {:?}", v, w));
                }
                if (format!("{:?}", a) == format!("{:?}", b)) != (v == w) {
                    say(format!("debug: the results for {:?} and {:?} show as {:?} and {:?}", v, w, a, b));
                }
                if v == w && code(a) != code(b) {
                    say(format!("hash: two results for {:?} hash differently", v));
                }
            }
            let c = a.clone();
            if c != *a || *a != c || c.to_string() != a.to_string() || format!("{:?}", c) != format!("{:?}", a) || code(&c) != code(a) {
                say(format!("clone: the clone of the result for {:?} differs from it", v));
            }
        }
        let set: HashSet<A> = one.iter().chain(&two).map(|x| x.1.clone()).collect();
        let texts: HashSet<&String> = one.iter().map(|x| x.0).collect();
        if set.len() != texts.len() {
            say(format!("set: the results for {} texts make a set of {}", texts.len(), set.len()));
        }
        let map: HashMap<A, &String> = one.iter().map(|(w, a)| (a.clone(), *w)).collect();
        for (w, b) in &two {
            if map.get(b) != Some(w) {
                say(format!("map: the result for {:?} finds {:?}", w, map.get(b)));
            }
        }
        bad
    });
    match done {
        Ok(Some(m)) => say(m),
        Ok(None) => {}
        Err(m) => say(format!("panic: {}", m)),
    }
    format!("V\t{}\n", hex(&bad.unwrap_or_else(|| format!("fine {}", one.len()))))
}

/// One kind of stream only, which compiles faster.
pub fn drive<A: Parse + Debug + Display + PartialEq + Clone>(w: &str, conv: Option<fn(A) -> char>, _size: usize) -> String {
    let mut o = String::new();
    let mut it = IterWrapper::new(w.chars());
    match quietly(|| A::take(&mut it)) {
        Err(m) => {
            let _ = write!(o, "T\tpanic\t{}\n", hex(&m));
        }
        Ok(r) => {
            let p = it.pos();
            let mut rest = String::new();
            while let Some(c) = Parser::next(&mut it) {
                rest.push(c);
            }
            let used = w.chars().count().saturating_sub(rest.chars().count());
            let what = match &r {
                Ok(a) => format!("ok\t{}", hex(&quietly(|| a.to_string()).unwrap_or_else(|m| format!("panic {}", m)))),
                Err(e) => format!("err\t{}", take_err(e)),
            };
            let _ = write!(o, "N\t{}\t0\t0\t{}\t{}\t{}\n", used, p.line, p.col, hex(&rest));
            let _ = write!(o, "T\t{}\n", what);
        }
    }
    let _ = whole_parse::<A>(&mut o, w, conv);
    o
}

pub fn drive_full<A: Parse + Debug + Display + PartialEq + Clone>(w: &str, conv: Option<fn(A) -> char>, size: usize) -> String {
    let mut o = String::new();
    let chars: Vec<char> = w.chars().collect();
    let n = chars.len();
    let limit = 1000 + 40 * (size + 3) * (n + 2);

    // prefix parse, everything counted
    let pulled = Rc::new(Cell::new(0));
    let past = Rc::new(Cell::new(0));
    let over = Rc::new(Cell::new(false));
    let mut it = IterWrapper::new(Src {
        c: chars.clone(),
        i: 0,
        pulled: pulled.clone(),
        past: past.clone(),
    });
    let taken = {
        let mut c = Counting {
            inner: &mut it,
            ops: 0,
            taken: 0,
            limit,
            over: over.clone(),
        };
        let r = quietly(|| A::take(&mut c));
        (r, c.ops, c.taken)
    };
    let (r, ops, used) = taken;
    let seen = pulled.get();
    if over.get() {
        return format!("{}T\tloop\t{}\n", o, ops);
    }
    match &r {
        Err(m) => {
            let _ = write!(o, "T\tpanic\t{}\n", hex(m));
        }
        Ok(r) => {
            let p = it.pos();
            // what is left
            let rest = quietly(|| {
                let mut s = String::new();
                while let Some(c) = Parser::next(&mut it) {
                    s.push(c);
                    if s.len() > 4 * (n + 1) + 16 {
                        break;
                    }
                }
                s
            })
            .unwrap_or_else(|m| format!("panic {}", m));
            let what = match r {
                Ok(a) => format!("ok\t{}", hex(&quietly(|| a.to_string()).unwrap_or_else(|m| format!("panic {}", m)))),
                Err(e) => format!("err\t{}", take_err(e)),
            };
            let _ = write!(o, "N\t{}\t{}\t{}\t{}\t{}\t{}\n", used, seen, ops, p.line, p.col, hex(&rest));
            let _ = write!(o, "T\t{}\n", what);
        }
    }

    let whole = whole_parse::<A>(&mut o, w, conv);
    // other sources and streams give the same
    if let (Ok(t), Ok(whole)) = (&r, &whole) {
        let mut diffs: Vec<&str> = vec![];
        let mut l = Listy { c: chars.clone(), i: 0 };
        match quietly(|| A::take(&mut l)) {
            Ok(x) if x == *t && l.i == used => {}
            _ => diffs.push("take from a list"),
        }
        match quietly(|| l.clone_start().parse::<A>()) {
            Ok(x) if x == *whole => {}
            _ => diffs.push("parse from a list"),
        }
        match quietly(|| A::take_str(w)) {
            Ok(x) if x == *t => {}
            _ => diffs.push("take_str"),
        }
        match quietly(|| A::parse(IterWrapper::new(w.bytes().collect::<Vec<u8>>().into_iter().filter_map(utf8())))) {
            Ok(x) if x == *whole => {}
            _ => diffs.push("parse from bytes"),
        }
        let mut sized = IterWrapper::new(w.chars().rev().collect::<Vec<_>>().into_iter().rev());
        {
            let un: &mut IterWrapper<dyn Iterator<Item = char>> = &mut sized;
            match quietly(|| un.take::<A>()) {
                Ok(x) if x == *t && (t.is_err() || un.pos() == place(&chars, used)) => {}
                _ => diffs.push("take from an unsized stream"),
            }
        }
        // looking ahead first changes nothing
        let mut pk = IterWrapper::new(w.chars());
        pk.peek();
        pk.peek();
        match quietly(|| pk.parse::<A>()) {
            Ok(x) if x == *whole => {}
            _ => diffs.push("parse after peeking"),
        }
        match quietly(|| <Box<A> as Parse>::parse_str(w)) {
            Ok(Ok(x)) if Ok(&*x) == whole.as_ref() => {}
            Ok(Err(e)) if whole.as_ref().err() == Some(&e) => {}
            _ => diffs.push("parse into a box"),
        }
        let _ = write!(o, "S\t{}\n", if diffs.is_empty() { "same".to_owned() } else { diffs.join(", ") });
    }
    o
}

impl Listy {
    fn clone_start(&self) -> Listy {
        Listy {
            c: self.c.clone(),
            i: 0,
        }
    }
}

fn utf8() -> impl FnMut(u8) -> Option<char> {
    let mut buf: Vec<u8> = vec![];
    move |b| {
        buf.push(b);
        let r = std::str::from_utf8(&buf).ok().and_then(|s| s.chars().next());
        if r.is_some() {
            buf.clear();
        }
        r
    }
}

extern "C" {
    fn setrlimit(which: i32, lim: *const [u64; 2]) -> i32;
}

fn main() {
    // CPU time, and no core files
    unsafe {
        setrlimit(0, &[20, 25]);
        setrlimit(4, &[0, 0]);
    }
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(|| {
            let args: Vec<String> = std::env::args().collect();
            let jobs = std::fs::read_to_string(&args[1]).unwrap();
            let start: usize = args[2].parse().unwrap();
            let mut last = usize::MAX;
            let of = |l: &str| l.split(' ').next().and_then(|g| g.parse::<usize>().ok());
            let all: Vec<&str> = jobs.lines().collect();
            let out = std::io::stdout();
            for (k, l) in jobs.lines().enumerate().skip(start) {
                let mut f = l.splitn(2, ' ');
                let g: usize = f.next().unwrap().parse().unwrap();
                let w = unhex(f.next().unwrap());
                {
                    let mut h = out.lock();
                    write!(h, "B\t{}\n", k).unwrap();
                    h.flush().unwrap();
                }
                let mut s = dispatch(g, &w);
                if g != last {
                    s.push_str(&units(g));
                    let ws: Vec<String> = jobs
                        .lines()
                        .filter_map(|l| {
                            let mut f = l.splitn(2, ' ');
                            if f.next()?.parse::<usize>().ok()? == g {
                                f.next().map(unhex)
                            } else {
                                None
                            }
                        })
                        .collect();
                    s.push_str(&alike(g, &ws));
                    last = g;
                }
                if all.get(k + 1).and_then(|l| of(l)) != Some(g) {
                    s.push_str(&repeated(g, if g == 0 { 1_000_000 } else { 20_000 }));
                }
                let mut h = out.lock();
                h.write_all(s.as_bytes()).unwrap();
                write!(h, "E\t{}\n", k).unwrap();
                h.flush().unwrap();
            }
            println!("D");
        })
        .unwrap()
        .join()
        .unwrap();
}
