//! Properties of generated code and of the parsers it makes.

use std::collections::BTreeSet;
use std::path::Path;

use crate::batch::{self, InOut, Job, Out, PErr, Parsed, Source, Taken};
use crate::dict::dict;
use crate::emitted::{self, Code, Def};
use crate::engine::*;
use crate::gen::*;
use crate::lang::{self, Sampler, D};
use crate::model::*;
use crate::real::{self, Panicked};
use crate::syntax::{self, *};
use crate::util::*;

use crate::lang::MAXIN;

// ---------------------------------------------------------------- generation

fn names_kind(rng: &mut Rng) -> NamesKind {
    if rng.chance(1, 5) {
        NamesKind::Nasty
    } else {
        NamesKind::Plain
    }
}

/// A good program with its expansion.
pub fn good_program(rng: &mut Rng, nk: Option<NamesKind>, max: usize) -> (String, Core) {
    for _ in 0..60 {
        let nk = nk.unwrap_or_else(|| names_kind(rng));
        let mut max = max;
        let mut p = match rng.below(20) {
            0..=9 => {
                let mut pr = Profile::random(rng);
                pr.names = nk;
                good(rng, pr)
            }
            10 | 18 | 19 => twins(rng, nk),
            11..=12 => higher_order(rng, nk),
            13 if rng.chance(1, 8) => large(rng, max / 2),
            13 if rng.chance(1, 6) => {
                max = 3000;
                let n = rng.below(4);
                corpus(rng, n)
            }
            13 => wide(rng, nk),
            14 if rng.chance(1, 3) => wide(rng, nk),
            14 => siblings(rng, nk),
            _ => small(rng, nk),
        };
        if rng.chance(1, 10) {
            edit(&mut p, rng)
        }
        if dict().now(rng, 6, 'c') {
            recolour(&mut p, rng)
        }
        if rng.chance(1, 12) {
            lengthen(&mut p, rng)
        }
        if rng.chance(1, 20) {
            abstract_out(&mut p, rng)
        }
        if rng.chance(1, 300) {
            pad(&mut p, rng)
        }
        let text = print(&p);
        if let Verdict::Good(core, _) = judge(&text) {
            if core.size() <= max && (core.size() > 2 || rng.chance(1, 8)) {
                return (text, core);
            }
        }
    }
    let t = "match \"a\" . !(/x/ \"b\" . x | \"c\");".to_owned();
    match judge(&t) {
        Verdict::Good(c, _) => (t, c),
        _ => unreachable!(),
    }
}

fn inputs_for(core: &Core, rng: &mut Rng, n: usize) -> Vec<String> {
    let s = Sampler::new(core);
    let mut v = s.inputs(rng, n, MAXIN);
    // everything short over a few of the characters
    let mut al = s.alpha.clone();
    rng.shuffle(&mut al);
    al.truncate(3);
    if rng.chance(1, 2) {
        for w in lang::short_words(&al, n, 4) {
            v.push(w.into_iter().collect())
        }
    }
    if rng.chance(1, 6) {
        v.extend(s.long(rng, 2))
    }
    v.sort();
    v.dedup();
    rng.shuffle(&mut v);
    v
}

fn run_gen(rng: &mut Rng, _: usize) -> Case {
    let (text, core) = good_program(rng, None, 300);
    let mut c = Case::new("run", &text);
    c.inputs = inputs_for(&core, rng, 24);
    c
}

/// A program that breaks the typing discipline.  Only if the compiler accepts it all the same is
/// there something to run.
fn near_gen(rng: &mut Rng) -> Option<(String, Core)> {
    for _ in 0..10 {
        let p = crate::front::near(rng);
        let text = print(&p);
        if let Verdict::Types(core, _) = judge(&text) {
            if core.size() <= 200 {
                return Some((text, core));
            }
        }
    }
    None
}

/// Four in five are programs that should be rejected, which is cheap to see.
fn mixed_gen(rng: &mut Rng, i: usize, other: fn(&mut Rng, usize) -> Case) -> Case {
    if rng.chance(4, 5) {
        if let Some((text, core)) = near_gen(rng) {
            let mut c = Case::new("near", &text);
            c.inputs = inputs_for(&core, rng, 12);
            return c;
        }
    }
    other(rng, i)
}

fn c01_gen(rng: &mut Rng, i: usize) -> Case {
    mixed_gen(rng, i, run_gen)
}

fn c02_mixed(rng: &mut Rng, i: usize) -> Case {
    let mut c = mixed_gen(rng, i, c02_gen);
    c.inputs.clear();
    c
}

fn c17_mixed(rng: &mut Rng, i: usize) -> Case {
    mixed_gen(rng, i, c17_gen)
}

fn c25_mixed(rng: &mut Rng, i: usize) -> Case {
    mixed_gen(rng, i, c25_gen)
}

// ---------------------------------------------------------------- running

pub struct Ran {
    pub core: Core,
    pub text: String,
    pub inputs: Vec<String>,
    pub outs: Vec<InOut>,
}

fn skip(s: &str) -> V {
    V::Skip(s.to_owned())
}

/// What the compiler emits for a program that expands to a grammar.
fn emit(c: &Case) -> Result<(Core, String), V> {
    let mut sound = true;
    let core = match judge(&c.prog) {
        Verdict::Good(core, _) => core,
        // what counts is what the compiler accepts
        Verdict::Types(core, _) => {
            sound = false;
            core
        }
        Verdict::Unknown => return Err(skip("expansion too large or endless")),
        v => return Err(skip(&format!("not a good program: {}", v.word()))),
    };
    if core.size() > 1500 {
        return Err(skip("expansion too large or endless"));
    }
    match real::code_text(&c.prog) {
        Ok(Ok(t)) => Ok((core, t)),
        Ok(Err(_)) if !sound => Err(skip("rejected, and breaks the typing discipline")),
        Ok(Err(e)) => Err(skip(&format!("good program rejected, not this property: {}", e.msg))),
        Err(Panicked(m)) => Err(skip(&format!("compiler panicked, not this property: {}", m))),
    }
}

/// Compiles and runs all cases that can be.
fn run_all(cs: &[Case], to_char: bool, units: bool, full: bool) -> Vec<Result<Ran, V>> {
    run_all_with(cs, to_char, units, full, false)
}

fn run_all_with(cs: &[Case], to_char: bool, units: bool, full: bool, values: bool) -> Vec<Result<Ran, V>> {
    let mut jobs = vec![];
    let mut pre: Vec<Result<(Core, String), V>> = vec![];
    for c in cs {
        let e = emit(c);
        if let Ok((core, text)) = &e {
            let units = if units {
                match Code::read(text) {
                    Ok(c) => c.units(),
                    Err(_) => vec![],
                }
            } else {
                vec![]
            };
            jobs.push(Job {
                src: Source::Code(text.clone()),
                to_char,
                full,
                values,
                size: core.size(),
                inputs: inputs(c, core),
                units,
            });
        }
        pre.push(e);
    }
    let mut outs = batch::run(&jobs).into_iter();
    pre.into_iter()
        .zip(cs)
        .map(|(e, c)| {
            let (core, text) = e?;
            match outs.next().expect("an outcome per job") {
                Out::Ran(outs) => Ok(Ran { inputs: inputs(c, &core), core, text, outs }),
                Out::NoCompile { glue: true, msgs } if values => Err(V::Fail(format!("no value: {}", msgs.join("; ")))),
                Out::NoCompile { glue: true, msgs } if to_char => Err(V::Fail(format!("no conversion: {}", msgs.join("; ")))),
                Out::NoCompile { msgs, .. } => Err(skip(&format!("does not compile, not this property: {}", clip(&msgs.join("; "), 200)))),
                Out::Lost(m) => Err(skip(&format!("lost: {}", clip(&m, 300)))),
            }
        })
        .collect()
}

/// The inputs the reference can judge.
fn inputs(c: &Case, core: &Core) -> Vec<String> {
    let short = |w: &&String| w.chars().count() <= lang::MAXLEN;
    if c.inputs.iter().all(|w| short(&w)) || lang::Pred::fits(core) {
        return c.inputs.clone();
    }
    c.inputs.iter().filter(short).cloned().collect()
}

fn crashed(w: &str, o: &InOut) -> Option<String> {
    if let Some(m) = &o.crash {
        return Some(format!("crash: on {:?} the parser {}", w, m));
    }
    if let Some(Taken::Panic(m)) = &o.taken {
        return Some(format!("crash: on {:?} the parser panicked: {}", w, m));
    }
    if let Some(Parsed::Panic(m)) = &o.parsed {
        return Some(format!("crash: on {:?} the parser panicked: {}", w, m));
    }
    if let Some(Taken::Loop) = &o.taken {
        return Some(format!("loop: on {:?} the parser does not end", w));
    }
    if o.taken.is_none() || o.parsed.is_none() {
        return Some(format!("crash: on {:?} the parser gives no result", w));
    }
    None
}

fn run_tags(core: &Core, good: usize, bad: usize, long: usize) -> Vec<String> {
    let mut fixes = 0;
    core.walk(&mut |x| {
        if matches!(x.k, K::Fix(..)) {
            fixes += 1
        }
    });
    let n = core.size();
    let mut v = vec![
        format!(
            "nodes {}",
            match n {
                0..=4 => "1-4",
                5..=9 => "5-9",
                10..=19 => "10-19",
                20..=49 => "20-49",
                _ => "50+",
            }
        ),
        format!("fixed points {}", if fixes > 2 { "3+".to_owned() } else { fixes.to_string() }),
    ];
    if long > 0 {
        v.push(format!("inputs over {} characters", lang::MAXLEN))
    }
    if good > 0 {
        v.push("has inputs in the language".into())
    }
    if bad > 0 {
        v.push("has inputs outside the language".into())
    }
    v
}

/// Checks every input of every case.
fn over_inputs(cs: &[Case], rs: Vec<Result<Ran, V>>, f: impl Fn(&Ran, &str, &[char], &InOut) -> Result<(), String>) -> Vec<V> {
    rs.into_iter()
        .map(|r| {
            let r = match r {
                Ok(r) => r,
                Err(v) => return v,
            };
            let (mut good, mut bad) = (0, 0);
            for (w, o) in r.inputs.iter().zip(&r.outs) {
                let cw: Vec<char> = w.chars().collect();
                if let Err(m) = f(&r, w, &cw, o) {
                    return V::Fail(m);
                }
                match &o.parsed {
                    Some(Parsed::Ok { .. }) => good += 1,
                    _ => bad += 1,
                }
            }
            V::Pass {
                nontrivial: r.core.size() > 2 && good + bad > 0,
                n: (good + bad) as u64,
                tags: run_tags(&r.core, good, bad, r.inputs.iter().filter(|w| w.chars().count() > lang::MAXLEN).count()),
            }
        })
        .collect()
}

// ---------------------------------------------------------------- C01

fn c01(cs: &[Case]) -> Vec<V> {
    let rs = run_all(cs, false, false, false);
    over_inputs(cs, rs, |r, w, cw, o| {
        if let Some(m) = crashed(w, o) {
            return Err(m);
        }
        let want = lang::accepts(&r.core, cw);
        match (&o.parsed, want) {
            (Some(Parsed::Ok { .. }), false) => return Err(format!("accepted: {:?} is not in the language", w)),
            (Some(Parsed::Err(e)), true) => return Err(format!("rejected: {:?} is in the language ({})", w, e.shown)),
            _ => {}
        }
        if let Some(b @ "accepts") | Some(b @ "rejects") | Some(b @ "panics") = o.boxed.as_deref() {
            return Err(format!("boxed: on {:?} a parse into a box {}, without the box it does not", w, b));
        }
        if let Some(b @ "accepts") | Some(b @ "rejects") | Some(b @ "panics") = o.again.as_deref() {
            return Err(format!("again: on {:?} the parser {} when it has parsed other texts before, else it does not", w, b));
        }
        if let Some(Taken::Ok(_)) = &o.taken {
            let n = o.counts.consumed;
            if n > cw.len() || !lang::accepts(&r.core, &cw[..n]) {
                return Err(format!("prefix: of {:?} the first {} characters were taken, which are not in the language", w, n));
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C02

const NASTY_LITS: &[&str] = &[
    "{", "}", "{}", "{0}", "{{", "%", "\\", "\"", "'", "\u{0}", "\n", "\r", "\r\n", "\t", "\u{7f}", "\u{85}", "\u{2028}", "\u{2029}",
    "\u{feff}", "\u{fffd}", "\u{10ffff}", "\u{1F600}", "\u{e000}", "\u{301}", "e\u{301}", "é", "\u{202e}", "\u{200d}", "#", "\"#", "\"##",
    "//", "/*", "*/", "r#\"", "${x}", "$x", "\\u{41}", "\\n", "`", "\u{d7ff}", "{c}", "{:?}", "a{b", "}b", "#a", " ", "  ",
];

/// Puts odd characters into literals without making them clash.
fn nasty_literals(text: &str, rng: &mut Rng) -> String {
    let mut p = match parse(text) {
        Ok(p) => p,
        Err(_) => return text.to_owned(),
    };
    let mut k = 0;
    for_terms(&mut p, &mut |t| {
        if let Term::Lit(s, _) = t {
            k += 1;
            if rng.chance(1, 2) {
                // the first character decides typing; most edits go behind it
                let x = if dict().now(rng, 8, 'w') { dict().word(rng) } else { (*rng.pick(NASTY_LITS)).to_owned() };
                if rng.chance(1, 3) {
                    *s = x.to_owned()
                } else {
                    s.push_str(&x)
                }
            }
        }
    });
    print(&p)
}

fn c02_gen(rng: &mut Rng, _: usize) -> Case {
    for _ in 0..20 {
        let nk = if rng.chance(2, 3) { NamesKind::Nasty } else { NamesKind::Plain };
        let (mut t, _) = good_program(rng, Some(nk), 250);
        if rng.chance(1, 3) {
            for _ in 0..4 {
                let u = nasty_literals(&t, rng);
                if let Verdict::Good(..) = judge(&u) {
                    t = u;
                    break;
                }
            }
        }
        return Case::new("compile", &t);
    }
    Case::new("compile", "match \"a\";")
}

fn nfc_and_unraw(p: &Program) -> bool {
    // raw spelling of names that are no keywords, and names that Rust normalises, are outside
    tokens(p).iter().all(|t| match t {
        Tok::Word(w) => match w.strip_prefix("r#") {
            Some(x) => syn::parse_str::<syn::Ident>(x).is_err(),
            None => !w.chars().any(|c| ('\u{300}'..='\u{36f}').contains(&c)),
        },
        _ => true,
    })
}

fn c02(cs: &[Case]) -> Vec<V> {
    let mut codes = vec![];
    let pre: Vec<Result<(Core, String), V>> = cs
        .iter()
        .map(|c| {
            let p = match parse(&c.prog) {
                Ok(p) => p,
                Err(_) => return Err(skip("syntax")),
            };
            if !nfc_and_unraw(&p) {
                return Err(skip("names Rust itself would change"));
            }
            let e = emit(c)?;
            codes.push(e.1.clone());
            Ok(e)
        })
        .collect();
    let mut rs = batch::compiles(&codes).into_iter();
    cs.iter()
        .zip(pre)
        .map(|(c, e)| {
            let (core, text) = match e {
                Ok(x) => x,
                Err(v) => return v,
            };
            match rs.next().expect("an outcome each") {
                Ok(()) => {
                    let p = parse(&c.prog).expect("parsed");
                    let mut seen = BTreeSet::new();
                    let mut repeats = false;
                    for t in tokens(&p) {
                        if let Tok::Word(w) = t {
                            use heck::SnakeCase;
                            repeats |= !seen.insert(w.to_snake_case());
                        }
                    }
                    V::Pass {
                        nontrivial: core.size() > 2,
                        n: 1,
                        tags: vec![
                            if repeats { "names recur" } else { "names differ" }.into(),
                            format!("kilobytes {}", match text.len() / 1024 {
                                0..=1 => "0-1",
                                2..=7 => "2-7",
                                8..=31 => "8-31",
                                _ => "32+",
                            }),
                        ],
                    }
                }
                Err(m) => V::Fail(format!("rustc: {}", m.join("; "))),
            }
        })
        .collect()
}

// ---------------------------------------------------------------- C03

fn c03(cs: &[Case]) -> Vec<V> {
    let rs = run_all(cs, false, false, false);
    over_inputs(cs, rs, |_, w, cw, o| {
        if o.boxed.as_deref() == Some("differs") {
            return Err(format!("boxed: on {:?} a parse into a box gives something else", w));
        }
        if o.again.as_deref() == Some("differs") {
            return Err(format!("again: parsed again, {:?} gives something else", w));
        }
        if let Some(Taken::Ok(s)) = &o.taken {
            let n = o.counts.consumed.min(cw.len());
            let used: String = cw[..n].iter().collect();
            if *s != used {
                return Err(format!("prefix: of {:?} the text {:?} was consumed and prints as {:?}", w, used, s));
            }
        }
        if let Some(Parsed::Ok { shown, again, .. }) = &o.parsed {
            if shown != w {
                return Err(format!("whole: {:?} prints as {:?}", w, shown));
            }
            if again != "same" {
                return Err(format!("again: printing and parsing {:?} gives: {}", w, again));
            }
        }
        Ok(())
    })
    .into_iter()
    .map(|v| match v {
        V::Pass { nontrivial, n, tags } => V::Pass {
            nontrivial: nontrivial && tags.iter().any(|t| t == "has inputs in the language"),
            n,
            tags,
        },
        v => v,
    })
    .collect()
}

// ---------------------------------------------------------------- C26

fn c26_gen(rng: &mut Rng, _: usize) -> Case {
    let (text, core) = good_program(rng, None, 300);
    let mut c = Case::new("run", &text);
    // words of the language, close to each other
    let s = Sampler::new(&core);
    let mut v = s.inputs(rng, 40, MAXIN);
    let mut al = s.alpha.clone();
    rng.shuffle(&mut al);
    al.truncate(3);
    for w in lang::short_words(&al, 30, 4) {
        v.push(w.into_iter().collect())
    }
    if rng.chance(1, 6) {
        v.extend(s.long(rng, 3))
    }
    v.sort();
    v.dedup();
    v.retain(|w| lang::accepts(&core, &w.chars().collect::<Vec<_>>()));
    rng.shuffle(&mut v);
    v.truncate(24);
    c.inputs = v;
    c
}

fn c26(cs: &[Case]) -> Vec<V> {
    let rs = run_all_with(cs, false, false, false, true);
    cs.iter()
        .zip(rs)
        .map(|(_, r)| {
            let r = match r {
                Ok(r) => r,
                Err(v) => return v,
            };
            if r.outs.is_empty() {
                return skip("no inputs");
            }
            match r.outs[0].values.as_deref() {
                None => skip(&format!("no result, not this property: {:?}", r.outs[0].crash)),
                Some(m) => match m.strip_prefix("fine ").and_then(|n| n.parse::<u64>().ok()) {
                    Some(n) => V::Pass {
                        nontrivial: n > 1,
                        n: n * n,
                        tags: vec![format!("results {}", match n {
                            0 | 1 => n.to_string(),
                            2..=4 => "2-4".to_owned(),
                            5..=9 => "5-9".to_owned(),
                            _ => "10+".to_owned(),
                        })],
                    },
                    None => V::Fail(m.to_owned()),
                },
            }
        })
        .collect()
}

// ---------------------------------------------------------------- C04

fn c04(cs: &[Case]) -> Vec<V> {
    let rs = run_all(cs, false, true, false);
    let rs: Vec<Result<Ran, V>> = rs
        .into_iter()
        .map(|r| {
            let r = r?;
            let code = Code::read(&r.text).map_err(|m| skip(&format!("emitted code not understood: {}", m)))?;
            let m = emitted::line_up(&code, &r.core).map_err(|m| V::Fail(format!("shape: {}", m)))?;
            // unit types and literals go together one to one, and print as the literal
            for (t, ls) in &m.lits {
                if ls.len() > 1 {
                    return Err(V::Fail(format!("shape: {} stands for {:?}", t, ls)));
                }
            }
            for o in &r.outs {
                for (t, s) in &o.units {
                    if let Some(ls) = m.lits.get(t) {
                        if !ls.contains(s) {
                            return Err(V::Fail(format!("order: {} stands in the places of {:?} but is {:?}", t, ls, s)));
                        }
                    }
                }
            }
            Ok(r)
        })
        .collect();
    over_inputs(cs, rs, |r, w, cw, o| {
        if o.boxed.as_deref() == Some("differs") {
            return Err(format!("boxed: on {:?} a parse into a box gives something else", w));
        }
        if o.again.as_deref() == Some("differs") {
            return Err(format!("again: parsed again, {:?} gives something else", w));
        }
        if let Some(Parsed::Ok { debug, .. }) = &o.parsed {
            if let Some(d) = lang::derive(&r.core, cw, cw.len()) {
                let code = Code::read(&r.text).map_err(|m| format!("code: {}", m))?;
                let want = emitted::debug_of(&code, &r.core, &d);
                if *debug != want {
                    return Err(format!("derivation: {:?} gives {}, its derivation is {}", w, debug, want));
                }
            }
        }
        Ok(())
    })
    .into_iter()
    .map(|v| match v {
        V::Pass { nontrivial, n, tags } => V::Pass {
            nontrivial: nontrivial && tags.iter().any(|t| t == "has inputs in the language"),
            n,
            tags,
        },
        v => v,
    })
    .collect()
}

// ---------------------------------------------------------------- C17

/// Line and column after the first `i` characters.
pub fn place(c: &[char], i: usize) -> (usize, usize) {
    let (mut line, mut col) = (1, 0);
    for k in 0..i {
        let brk = match c[k] {
            '\n' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}' => true,
            '\r' => c.get(k + 1) != Some(&'\n'),
            _ => false,
        };
        if brk {
            line += 1;
            col = 0
        } else {
            col += 1
        }
    }
    (line, col)
}

fn err_ok(core: &Core, w: &[char], e: &PErr) -> Result<(), String> {
    let k = lang::longest_viable(core, w);
    let p = place(w, k);
    let text: String = w.iter().collect();
    let here = format!("on {:?} ({})", text, e.shown);
    if (e.line, e.col) != p {
        return Err(format!(
            "position: {} reported at {}:{}, the longest prefix that can be extended ends at {}:{}",
            here, e.line, e.col, p.0, p.1
        ));
    }
    let in_language = lang::accepts(core, &w[..k]);
    let kind = e.kind.as_str();
    let want = if k == w.len() {
        "end"
    } else if in_language {
        "continues"
    } else {
        "found"
    };
    let got = match kind {
        "end" | "continues" => kind,
        _ => "found",
    };
    if want != got {
        return Err(format!("kind: {} is of kind {:?}, should be {:?}", here, kind, want));
    }
    let viable_with = |pre: &[char], s: &str| {
        let mut v = pre.to_vec();
        v.extend(s.chars());
        lang::viable(core, &v)
    };
    match kind {
        "branch" => {
            if e.got != w[k].to_string() {
                return Err(format!("found: {} names {:?}", here, e.got));
            }
            for c in e.expected.chars() {
                if !viable_with(&w[..k], &c.to_string()) {
                    return Err(format!("expected: {} lists {:?}, which could not come there", here, c));
                }
                if !e.shown.contains(&format!("{:?}", c)) {
                    return Err(format!("message: {} does not show {:?}", here, c));
                }
            }
            if !e.shown.contains(&format!("{:?}", w[k])) {
                return Err(format!("message: {} does not show what was found", here));
            }
            if let Some((before, after)) = crate::rt::split_message(&e.shown) {
                if !before.contains(&format!("{:?}", w[k])) || e.expected.chars().any(|c| !after.contains(&format!("{:?}", c))) {
                    return Err(format!("message: {} swaps what was found and expected", here));
                }
            }
        }
        "string" => {
            let n = e.got.chars().count();
            if n == 0 || n > k + 1 {
                return Err(format!("found: {} names {:?}", here, e.got));
            }
            let start = k + 1 - n;
            let real: String = w[start..=k].iter().collect();
            if e.got != real {
                return Err(format!("found: {} names {:?}, there is {:?}", here, e.got, real));
            }
            if e.expected.is_empty() || !viable_with(&w[..start], &e.expected) {
                return Err(format!("expected: {} wants {:?}, which could not come there", here, e.expected));
            }
            if !e.shown.contains(&format!("{:?}", e.expected)) || !e.shown.contains(&format!("{:?}", e.got)) {
                return Err(format!("message: {} does not show {:?} and {:?}", here, e.got, e.expected));
            }
            if let Some((before, after)) = crate::rt::split_message(&e.shown) {
                if !before.contains(&format!("{:?}", e.got)) || !after.contains(&format!("{:?}", e.expected)) {
                    return Err(format!("message: {} swaps what was found and expected", here));
                }
            }
        }
        _ => {}
    }
    if !e.shown.starts_with(&format!("{}:{}", p.0, p.1)) && !(e.shown.contains(&p.0.to_string()) && e.shown.contains(&p.1.to_string())) {
        return Err(format!("message: {} does not show the position", here));
    }
    Ok(())
}

fn c17_gen(rng: &mut Rng, i: usize) -> Case {
    let mut c = run_gen(rng, i);
    // more that go wrong late, and line ends in the middle
    if let Verdict::Good(core, _) = judge(&c.prog) {
        for _ in 0..4 {
            if !lang::productive(&core) {
                c = run_gen(rng, i);
            }
        }
        if let Verdict::Good(core, _) = judge(&c.prog) {
            let s = Sampler::new(&core);
            let mut more = vec![];
            for _ in 0..10 {
                let b = rng.range(2, 20);
                if let Some(w) = s.word(rng, b) {
                    let m = s.mutate(rng, &w, &[]);
                    more.push(m);
                    let mut t = w;
                    t.push(s.any_char(rng));
                    more.push(t);
                }
            }
            more.retain(|w| w.chars().count() <= MAXIN);
            c.inputs.extend(more);
            c.inputs.sort();
            c.inputs.dedup();
        }
    }
    c
}

fn c17(cs: &[Case]) -> Vec<V> {
    let rs: Vec<Result<Ran, V>> = run_all(cs, false, false, false)
        .into_iter()
        .map(|r| {
            let r = r?;
            if lang::productive(&r.core) {
                Ok(r)
            } else {
                Err(skip("a part matches nothing"))
            }
        })
        .collect();
    over_inputs(cs, rs, |r, w, cw, o| {
        if o.boxed.as_deref() == Some("differs") {
            return Err(format!("boxed: on {:?} a parse into a box gives something else", w));
        }
        if o.again.as_deref() == Some("errs") {
            return Err(format!("again: parsed again, {:?} gives another error", w));
        }
        if let Some(Parsed::Err(e)) = &o.parsed {
            if !lang::accepts(&r.core, cw) {
                return err_ok(&r.core, cw, e);
            }
        }
        let _ = w;
        Ok(())
    })
    .into_iter()
    .map(|v| match v {
        V::Pass { nontrivial, n, tags } => V::Pass {
            nontrivial: nontrivial && tags.iter().any(|t| t == "has inputs outside the language"),
            n,
            tags,
        },
        v => v,
    })
    .collect()
}

// ---------------------------------------------------------------- C25

fn d_nodes(d: &D) -> usize {
    1 + match d {
        D::Eps | D::Lit(_) => 0,
        D::Cat(v) => v.iter().map(d_nodes).sum(),
        D::Alt(_, d) | D::Rec(d) => d_nodes(d),
    }
}

fn c25_gen(rng: &mut Rng, i: usize) -> Case {
    let mut c = run_gen(rng, i);
    if let Verdict::Good(core, _) = judge(&c.prog) {
        let s = Sampler::new(&core);
        let mut more = vec![];
        for _ in 0..10 {
            let b = rng.range(0, 20);
            if let Some(w) = s.word(rng, b) {
                // arbitrary continuations
                let tail = match rng.below(5) {
                    0 => s.word(rng, 4).unwrap_or_default(),
                    1 => "\r\n\r".to_owned(),
                    2 => "\n".to_owned(),
                    3 => dict().char(rng).to_string().repeat(rng.range(1, 3)),
                    _ => s.soup(rng, 6),
                };
                more.push(w + &tail)
            }
        }
        more.retain(|w| w.chars().count() <= MAXIN);
        c.inputs.extend(more);
        c.inputs.sort();
        c.inputs.dedup();
    }
    c
}

fn c25(cs: &[Case]) -> Vec<V> {
    let rs = run_all(cs, false, false, true);
    over_inputs(cs, rs, |r, w, cw, o| {
        match &o.taken {
            Some(Taken::Loop) => return Err(format!("operations: on {:?} the number of stream operations has no bound", w)),
            Some(Taken::Ok(_)) | Some(Taken::Err(_)) => {}
            _ => return Ok(()),
        }
        let n = &o.counts;
        let productive = lang::productive(&r.core);
        if n.pulled > n.consumed + 1 {
            return Err(format!("lookahead: on {:?} {} characters were requested, {} consumed", w, n.pulled, n.consumed));
        }
        let rest: String = cw[n.consumed.min(cw.len())..].iter().collect();
        // what is consumed belongs to the text, and what goes wrong is left where it is
        match &o.taken {
            Some(Taken::Ok(_)) => {
                let upto = (0..=n.consumed.min(cw.len())).rev().find(|k| lang::accepts(&r.core, &cw[..*k]));
                if let Some(k) = upto {
                    if k < n.consumed {
                        return Err(format!("consumed: of {:?} {} characters are consumed, the first {} are the text", w, n.consumed, k));
                    }
                }
            }
            _ => {
                let k = lang::longest_viable(&r.core, cw);
                if productive && n.consumed > k {
                    return Err(format!("consumed: of {:?} {} characters are consumed, wrong after {}", w, n.consumed, k));
                }
            }
        }
        if n.rest != rest {
            return Err(format!("rest: of {:?} {} characters are consumed, and {:?} is left", w, n.consumed, n.rest));
        }
        if let Some(s) = &o.streams {
            if s != "same" {
                return Err(format!("streams: on {:?} other results for: {}", w, s));
            }
        }
        let size = r.core.size();
        if n.ops > 4 * (size + 4) * (n.consumed + 2) {
            return Err(format!("operations: on {:?} {} stream operations for {} characters", w, n.ops, n.consumed));
        }
        if let (Some(Taken::Ok(_)), Some(d)) = (&o.taken, lang::derive(&r.core, cw, n.consumed.min(cw.len()))) {
            if n.ops > 6 * (n.consumed + d_nodes(&d)) + 16 {
                return Err(format!(
                    "operations: on {:?} {} stream operations for {} characters and {} steps of the derivation",
                    w,
                    n.ops,
                    n.consumed,
                    d_nodes(&d)
                ));
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C23

fn is_class(c: &Core) -> bool {
    match &c.k {
        K::Lit(s) => s.chars().count() == 1,
        K::Alt(v, _) => v.iter().all(is_class),
        _ => false,
    }
}

fn c23_gen(rng: &mut Rng, _: usize) -> Case {
    // distinct characters, dealt to a tree of choices
    let n = match rng.below(5) {
        0 => rng.range(1, 3),
        1 | 2 => rng.range(2, 8),
        3 => rng.range(5, 25),
        _ if rng.chance(1, 6) => count(rng, 400),
        _ => rng.range(20, 60),
    };
    let mut cs: Vec<char> = vec![];
    let kind = *rng.pick(&[Chars::Plain, Chars::Mixed, Chars::Mixed, Chars::Ascii]);
    if n > 60 {
        let from = *rng.pick(&[0x21, 0xa1, 0x3b1, 0x4e00, 0x1f300]);
        cs.extend((from..from + n as u32).filter_map(std::char::from_u32));
    }
    for _ in 0..4 {
        cs.extend(alphabet(rng, kind, true));
        while cs.len() < n && rng.chance(3, 4) {
            if let Some(c) = std::char::from_u32(rng.below(0x110000) as u32) {
                cs.push(c)
            }
        }
    }
    cs.sort_unstable();
    cs.dedup();
    rng.shuffle(&mut cs);
    cs.truncate(n.max(1));
    fn tree(cs: &[char], rng: &mut Rng) -> G {
        if cs.len() == 1 {
            return G::Lit(cs[0].to_string());
        }
        let k = match rng.below(4) {
            0 => rng.range(2, cs.len()),
            1 => cs.len() - rng.below((cs.len() - 1).min(3)),
            _ => rng.range(2, cs.len().min(9)),
        };
        let mut cuts: Vec<usize> = (1..cs.len()).collect();
        rng.shuffle(&mut cuts);
        cuts.truncate(k - 1);
        cuts.sort_unstable();
        let mut v = vec![];
        let mut from = 0;
        for to in cuts.into_iter().chain(Some(cs.len())) {
            v.push(tree(&cs[from..to], rng));
            from = to;
        }
        G::Alt(v)
    }
    let g = tree(&cs, rng);
    let mut gp = GP { lets: vec![], goal: g };
    let names = {
        let k = names_kind(rng);
        pool(rng, k)
    };
    let mut w = Wrap {
        rng,
        next: 0,
        stars: Default::default(),
        names: names.clone(),
    };
    for _ in 0..w.rng.below(5) {
        w.step(&mut gp)
    }
    let l = w.rng.below(4);
    w.label_some(&mut gp, l);
    let p = name(&gp, names, rng);
    let mut c = Case::new("class", &print(&p));
    c.inputs = cs.iter().map(|c| c.to_string()).collect();
    c
}

fn c23(cs: &[Case]) -> Vec<V> {
    // only classes get the glue
    let pick: Vec<bool> = cs
        .iter()
        .map(|c| match judge(&c.prog) {
            Verdict::Good(core, _) => is_class(&core),
            _ => false,
        })
        .collect();
    let some: Vec<Case> = cs.iter().zip(&pick).filter(|x| *x.1).map(|x| x.0.clone()).collect();
    let rs = run_all(&some, true, false, false);
    let mut vs = over_inputs(&some, rs, |_, w, _, o| {
        if let Some(Parsed::Ok { .. }) = &o.parsed {
            match &o.ch {
                Some(c) if c == w => {}
                Some(c) => return Err(format!("converts: {:?} converts to {:?}", w, c)),
                None => return Err(format!("converts: {:?} does not convert", w)),
            }
        }
        Ok(())
    })
    .into_iter();
    pick.into_iter()
        .map(|p| if p { vs.next().expect("verdict") } else { skip("no class of characters") })
        .collect()
}

// ---------------------------------------------------------------- C21

fn c21_gen(rng: &mut Rng, _: usize) -> Case {
    for _ in 0..30 {
        let nk = names_kind(rng);
        let (gp, names) = match rng.below(8) {
            7 => wide_tree(rng, nk),
            0 | 1 => {
                let mut pr = Profile::random(rng);
                pr.names = nk;
                pr.labels = rng.range(1, 6);
                pr.wraps = rng.range(0, 8);
                good_tree(rng, pr)
            }
            2 | 3 => higher_order_tree(rng, nk),
            4 | 5 => small_tree(rng, nk),
            _ => {
                let mut pr = Profile::random(rng);
                pr.names = nk;
                pr.size = pr.size.min(14);
                pr.labels = rng.range(0, 6);
                good_tree(rng, pr)
            }
        };
        let t = print(&name(&gp, names, rng));
        if let Verdict::Good(core, _) = judge(&t) {
            if core.size() > 2 {
                return Case::new("names", &t);
            }
        }
    }
    Case::new("names", "match (\"a\":x) . \"b\";")
}

fn c21_one(c: &Case) -> V {
    let (core, text) = match emit(c) {
        Ok(x) => x,
        Err(v) => return v,
    };
    let code = match Code::read(&text) {
        Ok(c) => c,
        Err(m) => return skip(&format!("emitted code not understood: {}", m)),
    };
    match code.def("Ast") {
        Def::Alias(_) => {}
        Def::Other => return V::Fail("goal: there is nothing named Ast".into()),
        _ => return skip("another type is named Ast"),
    }
    let m = match emitted::line_up(&code, &core) {
        Ok(m) => m,
        Err(m) => return skip(&format!("shape, not this property: {}", m)),
    };
    // what has a name can be got at
    if let Some(t) = m.ty.values().map(|t| t.as_str()).chain(Some("Ast")).filter(|t| code.hidden.contains(*t)).min() {
        return V::Fail(format!("hidden: {} or a part of it is not public", t));
    }
    let mut checked = 0;
    let mut named = 0;
    let mut clashes = 0;
    let mut tags = BTreeSet::new();
    for (t, nodes) in emitted::by_type(&core, &m) {
        let d = code.def(&t);
        let mut fit = false;
        let mut unclear = false;
        let mut wanted = vec![];
        for n in &nodes {
            let kids: Vec<Core> = n.kids().into_iter().cloned().collect();
            let any = kids.iter().any(|k| !k.names.allowed().is_empty());
            wanted.push(kids.iter().map(|k| k.names.allowed()).collect::<Vec<_>>());
            let r = match &d {
                Def::Enum(v) => emitted::names_fit(&kids, &v.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), true),
                Def::Named(v) => {
                    if any {
                        emitted::names_fit(&kids, &v.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), false)
                    } else {
                        Some(false)
                    }
                }
                Def::Tuple(_) => Some(!any),
                _ => None,
            };
            match r {
                Some(true) => {
                    fit = true;
                    if any {
                        named += 1;
                        for k in &kids {
                            if !k.names.label.is_empty() {
                                tags.insert("label".to_owned());
                            } else if !k.names.lets.is_empty() {
                                tags.insert("let".to_owned());
                            } else if !k.names.vars.is_empty() {
                                tags.insert("parameter or recursion variable".to_owned());
                            }
                        }
                    }
                }
                Some(false) => {}
                None => unclear = true,
            }
        }
        if unclear && !fit {
            clashes += 1
        } else if !fit {
            let got: Vec<String> = match &d {
                Def::Enum(v) | Def::Named(v) => v.iter().map(|x| x.0.clone()).collect(),
                Def::Tuple(v) => vec![format!("a tuple of {}", v.len())],
                _ => vec![],
            };
            return V::Fail(format!("names: {} has {:?}, its parts are named {:?}", t, got, wanted));
        } else {
            checked += 1
        }
    }
    if clashes > 0 {
        tags.insert("some names clash".into());
    }
    V::Pass {
        nontrivial: named > 0,
        n: checked.max(1),
        tags: tags.into_iter().collect(),
    }
}

fn c21(cs: &[Case]) -> Vec<V> {
    cs.iter().map(c21_one).collect()
}

// ---------------------------------------------------------------- C13

fn c13_gen(rng: &mut Rng, i: usize) -> Case {
    if rng.chance(3, 5) {
        let mut c = run_gen(rng, i);
        c.inputs.truncate(14);
        if rng.chance(1, 3) {
            // the same program in another layout
            if let Ok(p) = parse(&c.prog) {
                c.prog = layout(&tokens(&p), *rng.pick(&[Layout::Tight, Layout::Wild, Layout::Wild]), rng);
            }
        }
        return c;
    }
    // mostly rejected
    let nk = names_kind(rng);
    let mut p = any_program(rng, nk);
    edit(&mut p, rng);
    let t = if rng.chance(1, 4) {
        let mut toks = tokens(&p);
        match rng.below(6) {
            0 => toks.truncate(rng.below(6)),
            1 => {
                let n = rng.below(toks.len() + 1);
                toks.truncate(n)
            }
            _ => {
                for _ in 0..rng.range(1, 2) {
                    damage_tokens(&mut toks, rng)
                }
            }
        }
        layout(&toks, Layout::Plain, rng)
    } else {
        print(&p)
    };
    let t = match (rng.chance(1, 3), parse(&t)) {
        (true, Ok(p)) => layout(&tokens(&p), *rng.pick(&[Layout::Tight, Layout::Wild, Layout::Wild]), rng),
        _ => t,
    };
    let mut c = Case::new("macro", &t);
    if let Verdict::Good(core, _) = judge(&t) {
        if core.size() <= 300 {
            c.inputs = inputs_for(&core, rng, 10);
            c.inputs.truncate(14);
        }
    }
    c
}

/// Whether a text means the same inside a macro invocation.
fn in_macro(t: &str) -> bool {
    use std::str::FromStr;
    let ts = match proc_macro2::TokenStream::from_str(t) {
        Ok(ts) => ts,
        Err(_) => return false,
    };
    fn deep(ts: proc_macro2::TokenStream) -> bool {
        ts.into_iter().all(|t| match t {
            // the place a metavariable would have, and doc comments
            proc_macro2::TokenTree::Punct(p) => p.as_char() != '$',
            proc_macro2::TokenTree::Group(g) => deep(g.stream()),
            proc_macro2::TokenTree::Literal(l) => {
                let s = l.to_string();
                !s.starts_with('c') && s.starts_with(|c: char| c == '"' || c == 'r' || c.is_ascii_digit())
                    && s.ends_with(|c: char| c == '"' || c == '#' || c.is_ascii_digit())
            }
            _ => true,
        })
    }
    !syntax::has_c_literal(t) && deep(ts)
}

fn c13(cs: &[Case]) -> Vec<V> {
    enum Kind {
        Skip(V),
        Runs(String, usize),
        Rejects(String),
    }
    let kinds: Vec<Kind> = cs
        .iter()
        .map(|c| {
            if !in_macro(&c.prog) {
                return Kind::Skip(skip("not the same tokens inside a macro"));
            }
            match judge(&c.prog) {
                Verdict::Unknown => return Kind::Skip(skip("expansion too large or endless")),
                Verdict::Good(core, _) if core.size() > 1500 => return Kind::Skip(skip("expansion too large or endless")),
                _ => {}
            }
            match crate::cli::compile(&batch::shared(), &c.prog) {
                Some(Ok(t)) => {
                    let n = match judge(&c.prog) {
                        Verdict::Good(core, _) => core.size(),
                        _ => 100,
                    };
                    Kind::Runs(t, n)
                }
                Some(Err(m)) => Kind::Rejects(m),
                None => Kind::Skip(skip("compiler did not end properly, not this property")),
            }
        })
        .collect();
    let mut jobs = vec![];
    for (c, k) in cs.iter().zip(&kinds) {
        if let Kind::Runs(t, n) = k {
            for src in [Source::Code(t.clone()), Source::Macro(c.prog.clone())] {
                jobs.push(Job {
                    src,
                    to_char: false,
                    full: true,
                    values: false,
                    size: *n,
                    inputs: c.inputs.clone(),
                    units: vec![],
                });
            }
        }
    }
    let rejected: Vec<String> = cs
        .iter()
        .zip(&kinds)
        .filter(|x| matches!(x.1, Kind::Rejects(_)))
        .map(|x| x.0.prog.clone())
        .collect();
    let mut outs = batch::run(&jobs).into_iter();
    let errs = if rejected.is_empty() { Ok(vec![]) } else { batch::macro_errors(&rejected) };
    let mut errs = match errs {
        Ok(v) => v.into_iter().map(Some).collect::<Vec<_>>(),
        Err(_) => rejected.iter().map(|_| None).collect(),
    }
    .into_iter();
    cs.iter()
        .zip(kinds)
        .map(|(c, k)| match k {
            Kind::Skip(v) => v,
            Kind::Rejects(m) => match errs.next().expect("errors") {
                None => skip("lost: macro errors"),
                Some(e) => {
                    if e.is_empty() {
                        return V::Fail(format!("accepted: the macro accepts what the command-line compiler rejects with {:?}", m));
                    }
                    if e.iter().any(|x| x.msg.contains("panicked")) {
                        return V::Fail(format!("panic: the macro panics on a program rejected with {:?}", m));
                    }
                    let same: Vec<_> = e.iter().filter(|x| x.msg == m).collect();
                    if same.is_empty() {
                        return V::Fail(format!("message: the macro says {:?}, the command-line compiler {:?}", e, m));
                    }
                    // the same place, where there is one: some errors are at the end of the text
                    let loc = match crate::real::code_text(&c.prog) {
                        Ok(Err(r)) => r.loc.map(|l| (l.line as usize, l.col as usize)),
                        _ => None,
                    };
                    if let Some(l) = loc.filter(|l| *l != (1, 0)) {
                        if same.iter().all(|s| s.at != Some(l)) {
                            return V::Fail(format!(
                                "place: the macro says {:?} at {:?}, the compiler at {:?}",
                                m, same[0].at, l
                            ));
                        }
                    }
                    V::Pass {
                        nontrivial: true,
                        n: 1,
                        tags: vec![if loc.map_or(false, |l| l != (1, 0)) { "rejected at a place" } else { "rejected" }.into()],
                    }
                }
            },
            Kind::Runs(..) => {
                let a = outs.next().expect("out");
                let b = outs.next().expect("out");
                match (a, b) {
                    (Out::Ran(a), Out::Ran(b)) => {
                        for ((w, x), y) in c.inputs.iter().zip(&a).zip(&b) {
                            if x != y {
                                return V::Fail(format!("differs: on {:?} the emitted code gives {:?}, the macro {:?}", w, x, y));
                            }
                        }
                        V::Pass {
                            nontrivial: !a.is_empty(),
                            n: a.len() as u64,
                            tags: vec!["accepted".into()],
                        }
                    }
                    (Out::Lost(m), _) | (_, Out::Lost(m)) => skip(&format!("lost: {}", m)),
                    (Out::NoCompile { .. }, Out::NoCompile { .. }) => skip("neither compiles, not this property"),
                    (Out::Ran(_), Out::NoCompile { msgs, .. }) => V::Fail(format!("macro only: the macro gives errors: {:?}", msgs)),
                    (Out::NoCompile { msgs, .. }, Out::Ran(_)) => V::Fail(format!("code only: the emitted code gives errors: {:?}", msgs)),
                }
            }
        })
        .collect()
}

// ---------------------------------------------------------------- all

const TRUST: &[&str] = &[
    "rustc compiles correctly, and proc-macro2 and syn split text into tokens correctly",
    "the reference model in harness/src/model.rs, lang.rs and syntax.rs states the properties",
];

fn both(d: &Path) -> Result<(), String> {
    batch::setup_rt(d)?;
    batch::setup_bins(d)
}

pub fn props() -> Vec<Prop> {
    let base = |id, gen, check, rule| Prop {
        id,
        quick: match id {
            "C01" | "C17" => 12_000,
            "C02" => 15_000,
            "C25" => 7_500,
            "C13" => 1000,
            "C23" => 1500,
            _ => 2400,
        },
        thorough: match id {
            "C01" | "C02" | "C17" | "C25" => 500_000,
            _ => 100_000,
        },
        batch: match id {
            "C01" | "C02" | "C17" | "C25" => 250,
            _ => 50,
        },
        crash: false,
        flaky_ok: false,
        gen,
        check,
        rule,
        assumptions: TRUST,
        known: None,
        setup: Some(batch::setup_rt),
    };
    vec![
        base("C01", c01_gen, c01, "the program has more than two nodes and at least one input was run"),
        base("C02", c02_mixed, c02, "the expanded program has more than two nodes"),
        base("C03", run_gen, c03, "the program has more than two nodes and a whole-input parse succeeded"),
        base("C04", run_gen, c04, "the program has more than two nodes and a whole-input parse succeeded"),
        base("C26", c26_gen, c26, "the parser accepts at least two of the inputs"),
        Prop {
            setup: Some(both),
            ..base("C13", c13_gen, c13, "rejected by the command-line compiler, or both parsers were run on an input")
        },
        base("C17", c17_mixed, c17, "the program has more than two nodes and some input is rejected"),
        Prop {
            quick: 60_000,
            thorough: 3_000_000,
            batch: 1,
            setup: None,
            ..base("C21", c21_gen, c21, "at least one sequence or choice with a named part has its names checked")
        },
        base("C23", c23_gen, c23, "the class has at least two characters"),
        base("C25", c25_mixed, c25, "the program has more than two nodes and at least one input was run"),
    ]
}
