//! Properties of the compiler front end and type checker.

use std::collections::BTreeSet;

use proc_macro2::TokenStream;
use quote::ToTokens;

use crate::engine::*;
use crate::gen::*;
use crate::lang;
use crate::model::*;
use crate::real::{self, Panicked, Phase, RErr, TNode, TK};
use crate::syntax::{self, *};
use crate::util::*;

fn each(cs: &[Case], f: impl Fn(&Case) -> V) -> Vec<V> {
    cs.iter().map(|c| f(c)).collect()
}

/// What the compiler does with a program up to types.
pub enum Obs {
    Accept,
    Reject(RErr),
    Panic(String),
}

pub fn observe(text: &str) -> Obs {
    match real::typed(text) {
        Ok(Ok(_)) => Obs::Accept,
        Ok(Err(e)) => Obs::Reject(e),
        Err(Panicked(m)) => Obs::Panic(m),
    }
}

impl std::fmt::Display for Obs {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Obs::Accept => write!(f, "accepted"),
            Obs::Reject(e) => write!(f, "rejected ({}: {})", e.kind, e.msg),
            Obs::Panic(m) => write!(f, "panicked ({})", m),
        }
    }
}

fn size_tag(core: &Core) -> String {
    let n = core.size();
    let b = match n {
        0..=4 => "1-4",
        5..=9 => "5-9",
        10..=19 => "10-19",
        20..=49 => "20-49",
        _ => "50+",
    };
    format!("nodes {}", b)
}

fn core_tags(core: &Core) -> Vec<String> {
    let mut fixes = 0;
    let mut eps = 0;
    let mut nested = 0;
    core.walk(&mut |x| match &x.k {
        K::Fix(_, b) => {
            fixes += 1;
            let mut inner = false;
            b.walk(&mut |y| inner |= matches!(y.k, K::Fix(..)));
            if inner {
                nested += 1
            }
        }
        K::Eps => eps += 1,
        _ => {}
    });
    let mut v = vec![size_tag(core)];
    v.push(format!("fixed points {}", if fixes > 2 { "3+".to_owned() } else { fixes.to_string() }));
    if nested > 0 {
        v.push("nested fixed points".into())
    }
    if eps > 0 {
        v.push("empty alternatives".into())
    }
    v
}

fn bad_kind(b: &Bad) -> &'static str {
    match b {
        Bad::FirstNullable => "first-nullable",
        Bad::FlastOverlap => "flast-overlap",
        Bad::BothNullable => "both-nullable",
        Bad::FirstOverlap => "first-overlap",
        Bad::Unguarded(_) => "unguarded",
        Bad::FunctionLeft => "function-left",
        Bad::FixOfNonFunction => "fix-of-non-function",
    }
}

fn call_kind(b: &BadCall) -> &'static str {
    match b {
        BadCall::NotAFunction => "not-a-function",
        BadCall::WrongArgs { .. } => "wrong-args",
    }
}

fn is_typing(b: &Bad) -> bool {
    !matches!(b, Bad::FunctionLeft | Bad::FixOfNonFunction)
}

fn kinds(rng: &mut Rng) -> NamesKind {
    if rng.chance(1, 4) {
        NamesKind::Nasty
    } else {
        NamesKind::Plain
    }
}

fn text_of(p: &Program, l: Layout, rng: &mut Rng) -> String {
    layout(&tokens(p), l, rng)
}

/// Programs close to the border of what is accepted.
pub fn near(rng: &mut Rng) -> Program {
    let nk = kinds(rng);
    match rng.below(30) {
        0..=8 => {
            let mut pr = Profile::random(rng);
            pr.names = nk;
            let mut p = good(rng, pr);
            for _ in 0..rng.range(1, 2) {
                edit(&mut p, rng)
            }
            p
        }
        9..=21 => small(rng, nk),
        22 | 23 => wide(rng, nk),
        24 => siblings(rng, nk),
        25 if rng.chance(1, 6) => large(rng, 540),
        26 if rng.chance(1, 3) => {
            let n = rng.range(1, 3);
            corpus(rng, n)
        }
        _ => any_program(rng, nk),
    }
}

// ---------------------------------------------------------------- C05

fn c05_gen(rng: &mut Rng, _: usize) -> Case {
    let p = near(rng);
    let text = print(&p);
    let mut c = Case::new("program", &text);
    // inputs for the derivation count
    if let Verdict::Good(core, _) = judge(&text) {
        c.inputs = lang::Sampler::new(&core).inputs(rng, 6, 24);
    }
    c
}

fn c05_one(c: &Case) -> V {
    let v = judge(&c.prog);
    if let Verdict::Unknown = v {
        return V::Skip("expansion too large or endless".into());
    }
    let o = observe(&c.prog);
    match (&v, &o) {
        (_, Obs::Panic(m)) => V::Skip(format!("panic: {}", m)),
        (Verdict::Types(core, t), o) => {
            let bad: Vec<&Bad> = t.violations.iter().map(|x| &x.bad).filter(|b| is_typing(b)).collect();
            if bad.is_empty() {
                return V::Skip("no typing violation".into());
            }
            if let Obs::Accept = o {
                return V::Fail(format!(
                    "accepted: the program breaks the discipline: {:?}",
                    t.violations.iter().map(|v| (&v.bad, &v.locs)).collect::<Vec<_>>()
                ));
            }
            let mut tags = core_tags(core);
            let ks: BTreeSet<&str> = bad.iter().map(|b| bad_kind(b)).collect();
            tags.extend(ks.iter().map(|k| format!("violates {}", k)));
            if ks.len() == 1 && bad.len() == 1 {
                tags.push("exactly one violation".into())
            }
            V::Pass {
                nontrivial: true,
                n: 1,
                tags,
            }
        }
        (Verdict::Good(core, _), Obs::Accept) => {
            let mut n = 1;
            for w in &c.inputs {
                let w: Vec<char> = w.chars().collect();
                if w.len() > 40 {
                    continue;
                }
                n += 1;
                if lang::derivations(core, &w) > 1 {
                    return V::Fail(format!("ambiguous: {:?} has two derivations", w.iter().collect::<String>()));
                }
            }
            V::Pass {
                nontrivial: false,
                n,
                tags: vec!["accepted and unambiguous".into()],
            }
        }
        (v, _) => V::pass(false, &[&format!("other: {}", v.word())]),
    }
}

// ---------------------------------------------------------------- C06

fn c06_gen(rng: &mut Rng, _: usize) -> Case {
    let nk = kinds(rng);
    let (kind, mut p) = match rng.below(10) {
        0..=4 => {
            let mut pr = Profile::random(rng);
            pr.names = nk;
            ("sound", good(rng, pr))
        }
        5..=7 => ("small", small(rng, nk)),
        8 if rng.chance(1, 20) => ("large", large(rng, 540)),
        8 if rng.chance(1, 8) => {
            let n = rng.below(3);
            ("corpus", corpus(rng, n))
        }
        8 => ("wide", wide(rng, nk)),
        _ => ("any", any_program(rng, nk)),
    };
    if rng.chance(1, 2) {
        shuffle_alts(&mut p, rng);
    }
    Case::new(kind, &print(&p))
}

fn c06_one(c: &Case) -> V {
    match judge(&c.prog) {
        Verdict::Good(core, _) => match observe(&c.prog) {
            Obs::Accept => {
                let mut tags = core_tags(&core);
                tags.push(format!("from {}", c.kind));
                if parse(&c.prog).map_or(false, |p| has_calls(&p)) {
                    tags.push("with calls".into())
                }
                V::Pass {
                    nontrivial: core.size() > 3,
                    n: 1,
                    tags,
                }
            }
            o => V::Fail(format!("rejected: a program meeting the discipline was {}", o)),
        },
        v => V::Skip(v.word().into()),
    }
}

// ---------------------------------------------------------------- C07

fn c07_gen(rng: &mut Rng, i: usize) -> Case {
    let mut c = c06_gen(rng, i);
    c.nums = vec![rng.u64() >> 8];
    c
}

fn compare_types(core: &Core, t: &Typing, n: &TNode, at: &str, count: &mut u64) -> Result<(), String> {
    *count += 1;
    let show = |k: &str| format!("{}: at {}", k, if at.is_empty() { "root" } else { at });
    match (&core.k, &n.k) {
        (K::Eps, TK::Eps) | (K::Cat(..), TK::Cat) | (K::Alt(..), TK::Alt) | (K::Fix(..), TK::Fix) | (K::Var(_), TK::Var(_)) => {}
        (K::Lit(a), TK::Lit(b)) if a == b => {}
        (a, b) => return Err(format!("{} {:?} became {:?}", show("structure"), a, b)),
    }
    let ty = &t.ty[&core.id];
    let set = |s: &Set| -> BTreeSet<char> { t.alpha.list(s).into_iter().collect() };
    if ty.null != n.null {
        return Err(format!("{} ({}) nullable should be {}", show("nullable"), core.canon(), ty.null));
    }
    if set(&ty.first) != n.first {
        return Err(format!(
            "{} ({}) first set should be {:?}, is {:?}",
            show("first set"),
            core.canon(),
            set(&ty.first),
            n.first
        ));
    }
    if set(&ty.flast) != n.flast {
        return Err(format!(
            "{} ({}) follow-last set should be {:?}, is {:?}",
            show("follow-last set"),
            core.canon(),
            set(&ty.flast),
            n.flast
        ));
    }
    let kids = core.kids();
    if kids.len() != n.kids.len() {
        return Err(format!("{} {} parts became {}", show("structure"), kids.len(), n.kids.len()));
    }
    for (i, (a, b)) in kids.iter().zip(&n.kids).enumerate() {
        compare_types(a, t, b, &format!("{}/{}", at, i), count)?;
    }
    Ok(())
}

fn c07_one(c: &Case) -> V {
    let (core, t) = match judge(&c.prog) {
        Verdict::Good(a, b) | Verdict::Types(a, b) => (a, b),
        v => return V::Skip(v.word().into()),
    };
    let n = match real::typed_tree(&c.prog) {
        Ok(Ok(n)) => n,
        Ok(Err(_)) => return V::Skip("rejected".into()),
        Err(Panicked(m)) => return V::Fail(format!("panic: reading the types panicked: {}", m)),
    };
    let mut count = 0;
    if let Err(m) = compare_types(&core, &t, &n, "", &mut count) {
        return V::Fail(m);
    }
    // the sets against strings of the language itself, for every sub-expression that is closed
    let mut rng = Rng::new(c.nums.first().copied().unwrap_or(0));
    fn closed(c: &Core) -> bool {
        let mut bound = BTreeSet::new();
        let mut used = BTreeSet::new();
        c.walk(&mut |x| match &x.k {
            K::Fix(id, _) => {
                bound.insert(*id);
            }
            K::Var(id) => {
                used.insert(*id);
            }
            _ => {}
        });
        used.is_subset(&bound)
    }
    fn sub<'a>(c: &'a Core, n: &'a TNode, out: &mut Vec<(&'a Core, &'a TNode)>) {
        if closed(c) {
            out.push((c, n));
        }
        for (a, b) in c.kids().into_iter().zip(&n.kids) {
            sub(a, b, out)
        }
    }
    let mut subs = vec![];
    sub(&core, &n, &mut subs);
    rng.shuffle(&mut subs);
    for (x, n) in subs.into_iter().take(6) {
        let s = lang::Sampler::new(x);
        for b in [1, 3, 6, 10] {
            if let Some(w) = s.word(&mut rng, b) {
                let w: Vec<char> = w.chars().collect();
                if w.len() > 60 {
                    continue;
                }
                count += 1;
                match w.first() {
                    None if !n.null => return V::Fail(format!("nullable: {} matches the empty string", x.canon())),
                    Some(f) if !n.first.contains(f) => {
                        return V::Fail(format!("first set: {} matches {:?}, first set {:?}", x.canon(), w, n.first))
                    }
                    _ => {}
                }
                // prefixes of a member that are members themselves
                let ends = lang::prefix_ends(x, &w);
                for e in 1..w.len() {
                    if ends & (1u128 << e) != 0 && !n.flast.contains(&w[e]) {
                        return V::Fail(format!(
                            "follow-last set: {} matches {:?} and its prefix of length {}, set {:?}",
                            x.canon(),
                            w,
                            e,
                            n.flast
                        ));
                    }
                }
            }
        }
    }
    let mut tags = core_tags(&core);
    let flast = n.flast.len();
    tags.push(if flast > 0 { "follow-last not empty".into() } else { "follow-last empty".into() });
    let mut rec = false;
    core.walk(&mut |x| rec |= matches!(x.k, K::Var(_)));
    V::Pass {
        nontrivial: core.size() > 3 && (flast > 0 || rec),
        n: count,
        tags,
    }
}

// ---------------------------------------------------------------- C08

fn c08_gen(rng: &mut Rng, _: usize) -> Case {
    let nk = kinds(rng);
    let p = match rng.below(10) {
        0..=5 => higher_order(rng, nk),
        6..=7 => {
            let mut pr = Profile::random(rng);
            pr.wraps = pr.wraps.max(2) + 2;
            pr.size = pr.size.min(25);
            pr.names = nk;
            good(rng, pr)
        }
        8 if rng.chance(1, 20) => large(rng, 540),
        _ => any_program(rng, nk),
    };
    let mut p = p;
    if rng.chance(1, 6) {
        for _ in 0..rng.range(1, 3) {
            abstract_out(&mut p, rng)
        }
    }
    Case::new("program", &print(&p))
}

fn count_calls(p: &Program) -> (usize, usize) {
    let mut p = p.clone();
    let mut calls = 0;
    for_calls(&mut p, &mut |c| {
        if c.terms.len() > 1 {
            calls += 1
        }
    });
    (p.lets.len(), calls)
}

fn c08_one(c: &Case) -> V {
    let p = match parse(&c.prog) {
        Ok(p) => p,
        Err(_) => return V::Skip("syntax".into()),
    };
    if mixed_raw(&p) {
        return V::Skip("a name both raw and not".into());
    }
    if !undeclared(&p).is_empty() {
        return V::Skip("undeclared".into());
    }
    let core = match expand(&p) {
        Ok(c) => c,
        Err(_) => return V::Skip("expansion too large or endless".into()),
    };
    if !bad_calls(&core).is_empty() {
        return V::Skip("misused call".into());
    }
    let mut bad_fix = false;
    core.walk(&mut |x| bad_fix |= matches!(x.k, K::BadFix(_)));
    if bad_fix {
        return V::Skip("misused fixed point".into());
    }
    match real::reduced(&c.prog) {
        Err(Panicked(m)) => V::Fail(format!("panic: {}", m)),
        Ok(Err(e)) => V::Fail(format!("rejected: expansion is fine, but {}: {}", e.kind, e.msg)),
        Ok(Ok(e)) => {
            let got = real::canon(&e);
            let want = core.canon();
            if got != want {
                return V::Fail(format!("expansion: should be {}, is {}", clip(&want, 800), clip(&got, 800)));
            }
            // a program without bad calls that expands the same way must also type the same way
            let (lets, calls) = count_calls(&p);
            let mut tags = vec![];
            tags.push(format!("calls {}", calls.min(4)));
            tags.push(format!("lets {}", lets.min(4)));
            tags.push(size_tag(&core));
            V::Pass {
                nontrivial: calls > 0 || lets > 1,
                n: 1,
                tags,
            }
        }
    }
}

// ---------------------------------------------------------------- C09

/// Gives every binder a name of its own; references follow by innermost scope.
pub fn alpha_rename(p: &Program) -> Option<Program> {
    struct A {
        n: usize,
        sc: Vec<(String, String)>,
        ok: bool,
    }
    impl A {
        fn bind(&mut self, i: &Id) -> Id {
            self.n += 1;
            let f = format!("uniq{}x", self.n);
            self.sc.push((i.plain().to_owned(), f.clone()));
            Id { name: f, loc: i.loc }
        }
        fn alt(&mut self, a: &Alt) -> Alt {
            let mut a = a.clone();
            for l in a.terms.iter_mut() {
                for c in l.cat.calls.iter_mut() {
                    for t in c.terms.iter_mut() {
                        self.term(t)
                    }
                }
            }
            a
        }
        fn term(&mut self, t: &mut Term) {
            match t {
                Term::Ident(i) => match self.sc.iter().rev().find(|s| s.0 == i.plain()) {
                    Some(s) => i.name = s.1.clone(),
                    None => self.ok = false,
                },
                Term::Fix(_, t) => self.term(t),
                Term::Paren(_, e) => **e = self.expr(e),
                _ => {}
            }
        }
        fn expr(&mut self, e: &Expr) -> Expr {
            match e {
                Expr::Alt(a) => Expr::Alt(self.alt(a)),
                Expr::Lambda(l) => {
                    let n = self.sc.len();
                    let params = l.params.iter().map(|i| self.bind(i)).collect();
                    let body = self.alt(&l.body);
                    self.sc.truncate(n);
                    Expr::Lambda(Lambda { params, body })
                }
            }
        }
    }
    let mut a = A {
        n: 0,
        sc: vec![],
        ok: true,
    };
    let mut lets = vec![];
    for l in &p.lets {
        let n = a.sc.len();
        let params = l.params.iter().map(|i| a.bind(i)).collect();
        let body = a.expr(&l.body);
        a.sc.truncate(n);
        let name = a.bind(&l.name);
        lets.push(LetStmt { name, params, body });
    }
    let goal = a.expr(&p.goal);
    if a.ok {
        Some(Program { lets, goal })
    } else {
        None
    }
}

fn c09_gen(rng: &mut Rng, _: usize) -> Case {
    let nk = kinds(rng);
    let mut p = match rng.below(10) {
        0..=4 => higher_order(rng, nk),
        5..=6 => {
            let mut pr = Profile::random(rng);
            pr.wraps += 3;
            pr.size = pr.size.min(20);
            pr.names = nk;
            good(rng, pr)
        }
        _ => any_program(rng, nk),
    };
    if rng.chance(1, 60) {
        pad(&mut p, rng)
    }
    // more clashes: bind names again, use others
    if rng.chance(1, 2) {
        let mut ids: Vec<String> = p.lets.iter().map(|l| l.name.name.clone()).collect();
        for_params(&mut p, &mut |ps| ids.extend(ps.iter().map(|i| i.name.clone())));
        ids.retain(|i| syn::parse_str::<syn::Ident>(i).is_ok());
        if !ids.is_empty() {
            match rng.below(3) {
                0 => for_params(&mut p, &mut |ps| {
                    for i in ps.iter_mut() {
                        if rng.chance(1, 4) {
                            *i = Id::new(rng.pick(&ids))
                        }
                    }
                }),
                1 => {
                    for l in p.lets.iter_mut() {
                        if rng.chance(1, 3) {
                            l.name = Id::new(rng.pick(&ids))
                        }
                    }
                }
                _ => {
                    let k = rng.range(2, 8);
                    for_terms(&mut p, &mut |t| {
                        if let Term::Ident(i) = t {
                            if rng.chance(1, k) {
                                *i = Id::new(rng.pick(&ids))
                            }
                        }
                    })
                }
            }
        }
    }
    Case::new("program", &print(&p))
}

fn outcome(text: &str) -> Result<String, String> {
    // canonical grammar, or the kind of error
    match real::reduced(text) {
        Err(Panicked(m)) => Err(m),
        Ok(Err(e)) => Ok(format!("error {} {:?}", e.kind, e.counts)),
        Ok(Ok(e)) => {
            let g = real::canon(&e);
            Ok(match real::typed(text) {
                Err(Panicked(m)) => return Err(m),
                Ok(Ok(_)) => format!("accepted {}", g),
                Ok(Err(e)) => format!("{} {}", e.kind, g),
            })
        }
    }
}

fn c09_one(c: &Case) -> V {
    let p = match parse(&c.prog) {
        Ok(p) => p,
        Err(_) => return V::Skip("syntax".into()),
    };
    if mixed_raw(&p) {
        return V::Skip("a name both raw and not".into());
    }
    let u = undeclared(&p);
    if !u.is_empty() {
        return match real::front_main(&c.prog) {
            Err(Panicked(m)) => V::Fail(format!("panic: {}", m)),
            Ok(Ok(_)) => V::Fail(format!("undeclared accepted: {:?} is not in scope", u[0].name)),
            Ok(Err(e)) => {
                let n = e.name.clone().unwrap_or_default();
                if e.phase != Phase::Convert || e.kind != "undeclared" {
                    V::Fail(format!("wrong error: undeclared name, but {}: {}", e.kind, e.msg))
                } else if !u.iter().any(|i| i.plain() == n) {
                    V::Fail(format!("wrong name: {:?} is in scope", n))
                } else if !e.msg.contains(&n) {
                    V::Fail(format!("message: {:?} does not name {:?}", e.msg, n))
                } else {
                    V::pass(true, &["undeclared name"])
                }
            }
        };
    }
    if let Ok(Err(e)) = real::front_main(&c.prog) {
        return V::Fail(format!("rejected: all names are in scope, but {}: {}", e.kind, e.msg));
    }
    if textual_size(&p) > 60_000 || matches!(expand(&p), Err(_)) {
        return V::Skip("expansion too large or endless".into());
    }
    let q = match alpha_rename(&p) {
        Some(q) => q,
        None => return V::Skip("undeclared".into()),
    };
    // how much shadowing there is
    let mut seen: Vec<String> = p.lets.iter().map(|l| l.name.plain().to_owned()).collect();
    for_params(&mut p.clone(), &mut |ps| seen.extend(ps.iter().map(|i| i.plain().to_owned())));
    let total = seen.len();
    let distinct: BTreeSet<String> = seen.into_iter().collect();
    let again = total - distinct.len();
    let (a, b) = match (outcome(&c.prog), outcome(&print(&q))) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(m), _) | (_, Err(m)) => return V::Fail(format!("panic: {}", m)),
    };
    if a != b {
        return V::Fail(format!(
            "binding: the program gives {}, with all names made unique it gives {}",
            clip(&a, 600),
            clip(&b, 600)
        ));
    }
    V::pass(
        total > 1 && again > 0,
        &[&format!("names bound again {}", again.min(4)), &format!("binders {}", total.min(8))],
    )
}

// ---------------------------------------------------------------- C10

fn c10_gen(rng: &mut Rng, _: usize) -> Case {
    let nk = kinds(rng);
    let mut p = match rng.below(10) {
        0..=3 => higher_order(rng, nk),
        4..=5 => any_program(rng, nk),
        6 if rng.chance(1, 20) => large(rng, 540),
        6 => small(rng, nk),
        _ => {
            let mut pr = Profile::random(rng);
            pr.wraps += 2;
            pr.size = pr.size.min(16);
            pr.names = nk;
            good(rng, pr)
        }
    };
    for _ in 0..rng.below(3) {
        edit(&mut p, rng)
    }
    if rng.chance(1, 20) {
        stretch(&mut p, rng)
    }
    Case::new("program", &print(&p))
}

fn c10_one(c: &Case) -> V {
    let misuse = |k: &str| matches!(k, "not-a-function" | "wrong-args" | "function-left" | "fix-of-non-function" | "call-left" | "let-left" | "free-variable" | "other");
    let v = judge(&c.prog);
    if let Verdict::Unknown = v {
        return V::Skip("expansion too large or endless".into());
    }
    let o = observe(&c.prog);
    if let Obs::Panic(m) = &o {
        return V::Fail(format!("panic: {}", m));
    }
    match v {
        Verdict::Calls(bs) => {
            let want: BTreeSet<String> = bs
                .iter()
                .map(|(b, _)| match b {
                    BadCall::NotAFunction => "not-a-function None".to_owned(),
                    BadCall::WrongArgs { want, got } => format!("wrong-args {:?}", Some((*want, *got))),
                })
                .collect();
            match &o {
                Obs::Reject(e) => {
                    let got = format!("{} {:?}", e.kind, e.counts);
                    if !want.contains(&got) {
                        return V::Fail(format!("wrong error: one of {:?} expected, got {} ({})", want, got, e.msg));
                    }
                    if let Some((w, g)) = e.counts {
                        // both numbers are stated
                        let nums: Vec<usize> = e
                            .msg
                            .split(|c: char| !c.is_ascii_digit())
                            .filter_map(|x| x.parse().ok())
                            .collect();
                        if !nums.contains(&w) || !nums.contains(&g) {
                            return V::Fail(format!("message: {:?} does not state {} and {}", e.msg, w, g));
                        }
                        // and which is which, as far as the words say
                        let after = |word: &str| {
                            let t = &e.msg[e.msg.find(word)? + word.len()..];
                            let t: String = t.trim_start().chars().take_while(|c| c.is_ascii_digit()).collect();
                            t.parse::<usize>().ok()
                        };
                        if after("takes").map_or(false, |n| n != w) || after(" but").map_or(false, |n| n != g) {
                            return V::Fail(format!("message: {:?}, it takes {} and got {}", e.msg, w, g));
                        }
                    }
                    V::pass(true, &[e.kind])
                }
                o => V::Fail(format!("misuse accepted: calls {:?}, {}", want, o)),
            }
        }
        Verdict::Types(_, t) => {
            let all: BTreeSet<&str> = t.violations.iter().map(|v| bad_kind(&v.bad)).collect();
            let mine: Vec<&&str> = all.iter().filter(|k| misuse(k)).collect();
            match &o {
                Obs::Accept if !mine.is_empty() => V::Fail(format!("misuse accepted: {:?}", mine)),
                Obs::Reject(e) if misuse(e.kind) && !all.contains(e.kind) => {
                    V::Fail(format!("false alarm: {} ({}), violations are {:?}", e.kind, e.msg, all))
                }
                Obs::Reject(e) if mine.len() == all.len() && !all.contains(e.kind) => {
                    V::Fail(format!("wrong error: {:?} expected, got {} ({})", mine, e.kind, e.msg))
                }
                _ => V::Pass {
                    nontrivial: !mine.is_empty(),
                    n: 1,
                    tags: all.iter().map(|s| (*s).to_owned()).collect(),
                },
            }
        }
        Verdict::Good(..) => match &o {
            Obs::Reject(e) if misuse(e.kind) => V::Fail(format!("false alarm: {} ({})", e.kind, e.msg)),
            _ => {
                let (lets, calls) = parse(&c.prog).map_or((0, 0), |p| count_calls(&p));
                V::pass(lets + calls > 0, &["no misuse"])
            }
        },
        Verdict::Unknown => V::Skip("expansion too large or endless".into()),
        v => V::Skip(v.word().into()),
    }
}

// ---------------------------------------------------------------- C11

fn c11_gen(rng: &mut Rng, _: usize) -> Case {
    let nk = kinds(rng);
    let p = match rng.below(4) {
        0 => small(rng, nk),
        1 => higher_order(rng, nk),
        2 if rng.chance(1, 40) => large(rng, 540),
        _ => any_program(rng, nk),
    };
    let mut t = tokens(&p);
    let l = *rng.pick(&[Layout::Plain, Layout::Tight, Layout::Wild, Layout::Wild]);
    match rng.below(10) {
        0..=4 => Case::new("program", &layout(&t, l, rng)),
        5..=7 => {
            damage_tokens(&mut t, rng);
            Case::new("damaged", &layout(&t, l, rng))
        }
        8 => Case::new("soup", &token_soup(rng)),
        _ => {
            let s = layout(&t, l, rng);
            Case::new("chars", &char_soup(rng, &s))
        }
    }
}

fn of_term(t: &chomp::nibble::Term) -> Term {
    use chomp::nibble::Term as T;
    let d = Loc::default();
    match t {
        T::Epsilon(_) => Term::Eps(d),
        T::Ident(i) => Term::Ident(Id::new(&i.to_string())),
        T::Literal(l) => Term::Lit(l.value(), d),
        T::Fix(f) => Term::Fix(d, Box::new(of_term(&f.expr))),
        T::Parens(p) => Term::Paren(d, Box::new(of_expr(&p.expr))),
    }
}

fn of_alt(a: &chomp::nibble::Alt) -> Alt {
    let d = Loc::default();
    let terms: Vec<Labelled> = a
        .0
        .iter()
        .map(|l| {
            let calls: Vec<Call> = l
                .cat
                .0
                .iter()
                .map(|c| Call {
                    terms: c.0.iter().map(of_term).collect(),
                })
                .collect();
            Labelled {
                cat: Cat {
                    dots: vec![d; calls.len().saturating_sub(1)],
                    calls,
                },
                label: l.label.as_ref().map(|l| Id::new(&l.label.to_string())),
            }
        })
        .collect();
    Alt {
        bars: vec![d; terms.len().saturating_sub(1)],
        terms,
    }
}

fn of_expr(e: &chomp::nibble::Expression) -> Expr {
    use chomp::nibble::Expression as X;
    match e {
        X::Alt(a) => Expr::Alt(of_alt(a)),
        X::Lambda(l) => Expr::Lambda(Lambda {
            params: l.args.iter().map(|i| Id::new(&i.to_string())).collect(),
            body: of_alt(&l.expr),
        }),
    }
}

fn c11_one(c: &Case) -> V {
    use std::str::FromStr;
    if has_c_literal(&c.prog) {
        // C14 knows
        return V::Skip("C string literal".into());
    }
    let reference = parse(&c.prog);
    let got = real::guard(|| syn::parse_str::<chomp::nibble::Statement>(&c.prog));
    let got = match got {
        Err(Panicked(m)) => return V::Fail(format!("panic: {}", m)),
        Ok(g) => g,
    };
    match (reference, got) {
        (Err(_), Err(_)) => V::pass(c.kind != "soup", &[&format!("rejected {}", c.kind)]),
        (Err(m), Ok(_)) => V::Fail(format!("accepted: not in the grammar ({})", m)),
        (Ok(_), Err(e)) => V::Fail(format!("rejected: in the grammar, but {}", e)),
        (Ok(p), Ok(s)) => {
            let printed: TokenStream = match real::guard(|| s.to_token_stream()) {
                Ok(t) => t,
                Err(Panicked(m)) => return V::Fail(format!("panic: printing: {}", m)),
            };
            let src = match TokenStream::from_str(&c.prog) {
                Ok(t) => t,
                Err(_) => return V::Skip("lexer".into()),
            };
            let a = flat_tokens(src);
            let text = printed.to_string();
            let b = flat_tokens(printed.clone());
            if a != b {
                return V::Fail(format!("tokens: {:?} printed as {:?}", a.join(" "), b.join(" ")));
            }
            // and through text and the parser again
            match real::guard(|| syn::parse_str::<chomp::nibble::Statement>(&text)) {
                Ok(Ok(s2)) => {
                    let t2 = flat_tokens(s2.to_token_stream());
                    if t2 != a {
                        return V::Fail(format!("second parse: {:?} differs", text));
                    }
                }
                Ok(Err(e)) => return V::Fail(format!("second parse: {:?}: {}", text, e)),
                Err(Panicked(m)) => return V::Fail(format!("panic: {}", m)),
            }
            // each expression of the program as a tree
            let want = syntax::strip(&p);
            let mut n = 2;
            let exprs: Vec<&Expr> = want.lets.iter().map(|l| &l.body).chain(std::iter::once(&want.goal)).collect();
            for e in exprs {
                let p1 = Program {
                    lets: vec![],
                    goal: e.clone(),
                };
                let t = print(&p1);
                let t = t.strip_prefix("match").unwrap_or(&t).trim().trim_end_matches(';').trim().to_owned();
                match real::guard(|| syn::parse_str::<chomp::nibble::Expression>(&t)) {
                    Ok(Ok(x)) => {
                        let got = of_expr(&x);
                        if got != *e {
                            return V::Fail(format!("tree: {:?} read as {:?}", t, got));
                        }
                        let back = flat_tokens(x.to_token_stream());
                        if Some(back) != TokenStream::from_str(&t).map(flat_tokens).ok() {
                            return V::Fail(format!("tokens: {:?} printed as {}", t, x.to_token_stream()));
                        }
                        n += 1;
                    }
                    Ok(Err(er)) => return V::Fail(format!("rejected: expression {:?}: {}", t, er)),
                    Err(Panicked(m)) => return V::Fail(format!("panic: {}", m)),
                }
            }
            V::Pass {
                nontrivial: a.len() > 6,
                n,
                tags: vec![format!("accepted {}", c.kind)],
            }
        }
    }
}

// ---------------------------------------------------------------- C12

fn c12_gen(rng: &mut Rng, _: usize) -> Case {
    let nk = NamesKind::Shared;
    let p = match rng.below(6) {
        0 => small(rng, nk),
        1 if rng.chance(1, 30) => large(rng, 300),
        1 => higher_order(rng, nk),
        2 | 3 => {
            let mut pr = Profile::random(rng);
            pr.names = nk;
            good(rng, pr)
        }
        _ => any_program(rng, nk),
    };
    let mut t = tokens(&p);
    for x in t.iter_mut() {
        // the self-hosted grammar has no empty literal
        if *x == Tok::Lit(String::new()) {
            *x = Tok::Word("_".into())
        }
    }
    let kind = if rng.chance(1, 3) {
        damage_tokens(&mut t, rng);
        "damaged"
    } else {
        "program"
    };
    Case::new(kind, &layout(&t, Layout::Shared, rng))
}

fn show_err(e: &RErr) -> String {
    format!("{} {:?} {:?}", e.kind, e.name, e.counts)
}

fn c12_one(c: &Case) -> V {
    if !shared_syntax(&c.prog) {
        return V::Skip("not in the syntax both support".into());
    }
    let m = match real::front_main(&c.prog) {
        Ok(m) => m,
        Err(Panicked(m)) => return V::Fail(format!("panic main: {}", m)),
    };
    let a = match real::front_auto(&c.prog) {
        Ok(m) => m,
        Err(Panicked(m)) => return V::Fail(format!("panic self-hosted: {}", m)),
    };
    let (m, a) = match (m, a) {
        (Err(x), Err(y)) => {
            return if x.phase == Phase::Convert && show_err(&x) != show_err(&y) {
                V::Fail(format!("different errors: main {}, self-hosted {} ({})", show_err(&x), show_err(&y), y.msg))
            } else {
                V::pass(c.kind == "damaged" || x.phase == Phase::Convert, &["both reject"])
            }
        }
        (Ok(_), Err(y)) => return V::Fail(format!("acceptance: only the self-hosted front end rejects: {}", y.msg)),
        (Err(x), Ok(_)) => return V::Fail(format!("acceptance: only the main front end rejects: {}", x.msg)),
        (Ok(m), Ok(a)) => (m, a),
    };
    let (dm, da) = (real::dump(&m), real::dump(&a));
    if dm != da {
        return V::Fail(format!("syntax: main {}, self-hosted {}", clip(&dm, 600), clip(&da, 600)));
    }
    let v = judge(&c.prog);
    if let Verdict::Unknown = v {
        return V::pass(true, &["same syntax, endless expansion"]);
    }
    let esc = c.prog.contains("\\");
    let tag = format!("{}{}", v.word(), if esc { ", with escapes" } else { "" });
    match (real::code_text(&c.prog), real::code_auto(&c.prog)) {
        (Ok(Ok(x)), Ok(Ok(y))) => {
            if x != y {
                return V::Fail(format!("code: differs at {:?}", first_diff(&x, &y)));
            }
        }
        (Ok(Err(x)), Ok(Err(y))) => {
            // which of several faults is reported is the same, as the syntax is
            if show_err(&x) != show_err(&y) {
                return V::Fail(format!("different errors: main {}, self-hosted {}", show_err(&x), show_err(&y)));
            }
        }
        (Err(Panicked(m)), _) => return V::Fail(format!("panic main: {}", m)),
        (_, Err(Panicked(m))) => return V::Fail(format!("panic self-hosted: {}", m)),
        (x, y) => {
            return V::Fail(format!(
                "acceptance: main accepts {}, self-hosted {}",
                matches!(x, Ok(Ok(_))),
                matches!(y, Ok(Ok(_)))
            ))
        }
    }
    V::pass(true, &[&tag])
}

pub fn first_diff(a: &str, b: &str) -> (String, String) {
    let i = a
        .char_indices()
        .zip(b.chars())
        .find(|((_, x), y)| x != y)
        .map_or(a.len().min(b.len()), |((i, _), _)| i);
    let cut = |s: &str| s.chars().skip(a[..i].chars().count().saturating_sub(30)).take(80).collect::<String>();
    (cut(a), cut(b))
}

// ---------------------------------------------------------------- C14

fn c14_gen(rng: &mut Rng, _: usize) -> Case {
    match rng.below(12) {
        0 => Case::new("soup", &token_soup(rng)),
        1 | 2 => {
            let p = any_program(rng, NamesKind::Nasty);
            let t = text_of(&p, Layout::Wild, rng);
            Case::new("chars", &char_soup(rng, &t))
        }
        3 => {
            let p = any_program(rng, NamesKind::Shared);
            let t = text_of(&p, Layout::Shared, rng);
            Case::new("chars shared", &char_soup(rng, &t))
        }
        4 => {
            let p = any_program(rng, NamesKind::Nasty);
            let mut t = tokens(&p);
            damage_tokens(&mut t, rng);
            Case::new("damaged", &layout(&t, Layout::Shared, rng))
        }
        5 => {
            // escapes in literals
            let n = rng.range(1, 6);
            let mut s = String::from("match \"");
            for _ in 0..n {
                match rng.below(6) {
                    0 => s.push_str(&format!("\\u{{{:x}}}", rng.below(0x120000))),
                    1 => s.push_str(&format!("\\x{:02x}", rng.below(256))),
                    2 => s.push_str(&format!("\\u{{{:0w$X}}}", 0xd700 + rng.below(0x1000), w = rng.range(1, 9))),
                    3 => s.push_str(rng.pick(&["\\n", "\\'", "\\\"", "\\\\", "\\0", "\\q", "\\", "\\u{}", "\\u", "\\x8", "\\\n  "])),
                    4 => s.push(std::char::from_u32(rng.below(0x110000) as u32).unwrap_or('x')),
                    _ => s.push_str(rng.pick(&["a", "b", " ", "\n", "é"])),
                }
            }
            s.push_str("\";");
            Case::new("escapes", &s)
        }
        6 if rng.chance(1, 12) => {
            let p = large(rng, 540);
            Case::new("large", &text_of(&p, Layout::Shared, rng))
        }
        6 => {
            let p = small(rng, NamesKind::Nasty);
            Case::new("small", &text_of(&p, Layout::Shared, rng))
        }
        7 | 8 => {
            let mut p = higher_order(rng, NamesKind::Nasty);
            for _ in 0..rng.below(4) {
                edit(&mut p, rng)
            }
            Case::new("higher order", &text_of(&p, Layout::Shared, rng))
        }
        9 => {
            let mut pr = Profile::random(rng);
            pr.names = NamesKind::Nasty;
            let p = good(rng, pr);
            Case::new("sound", &text_of(&p, Layout::Wild, rng))
        }
        _ => {
            let p = any_program(rng, NamesKind::Nasty);
            Case::new("any", &text_of(&p, Layout::Shared, rng))
        }
    }
}

fn c14_one(c: &Case) -> V {
    let v = judge(&c.prog);
    if let Verdict::Unknown = v {
        // may expand for ever
        return V::Skip("expansion too large or endless".into());
    }
    let show = |r: &real::Res<String>| match r {
        Ok(Ok(_)) => "code",
        Ok(Err(e)) => e.kind,
        Err(_) => "panic",
    };
    let a = real::code_text(&c.prog);
    if let Err(Panicked(m)) = &a {
        if m.starts_with("Unrecognized literal: `c") && has_c_literal(&c.prog) {
            return V::pass(false, &["known finding: C string literal"]);
        }
        return V::Fail(format!("main panics: {}", m));
    }
    // the self-hosted front end may read a text the main one does not
    let b = real::code_auto(&c.prog);
    if let Err(Panicked(m)) = &b {
        return V::Fail(format!("self-hosted panics: {}", m));
    }
    for r in [&a, &b] {
        if let Ok(Err(e)) = r {
            if e.msg.trim().is_empty() {
                return V::Fail("message: an error has no message".into());
            }
        }
    }
    V::pass(
        !matches!(a, Ok(Err(ref e)) if e.phase == Phase::Parse) || !matches!(b, Ok(Err(ref e)) if e.phase == Phase::Parse),
        &[&c.kind, &format!("main {}", show(&a)), &format!("self-hosted {}", show(&b))],
    )
}


/// Whether a text ends the compiler the wrong way, tried in a process of its own.
fn ends_badly(text: &str) -> bool {
    let mut ch = match std::process::Command::new(std::env::current_exe().expect("exe"))
        .args(["emit-one", text])
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
    {
        Ok(ch) => ch,
        Err(_) => return false,
    };
    let t = std::time::Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(st)) => break st.success(),
            _ if t.elapsed().as_secs() > 20 => {
                let _ = ch.kill();
                let _ = ch.wait();
                break false;
            }
            _ => std::thread::sleep(std::time::Duration::from_millis(5)),
        }
    };
    let mut out = String::new();
    if let Some(mut o) = ch.stdout.take() {
        use std::io::Read;
        let _ = o.read_to_string(&mut out);
    }
    !st || out.starts_with("panic")
}

fn c14_known() -> Vec<(String, bool)> {
    known_findings("C14")
        .into_iter()
        .map(|(input, what)| (format!("`{}`: {}", input, what), ends_badly(&input)))
        .collect()
}

// ---------------------------------------------------------------- C15

fn c15_gen(rng: &mut Rng, _: usize) -> Case {
    let nk = kinds(rng);
    let p = if rng.chance(3, 5) {
        let mut pr = Profile::random(rng);
        pr.names = nk;
        good(rng, pr)
    } else if rng.chance(1, 20) {
        large(rng, 540)
    } else {
        any_program(rng, nk)
    };
    let l = *rng.pick(&[Layout::Plain, Layout::Tight, Layout::Wild]);
    let mut c = Case::new("program", &text_of(&p, l, rng));
    for _ in 0..3 {
        if let Some(t) = relayout(&c.prog, rng) {
            c.inputs.push(t)
        }
    }
    c
}

pub fn emit_outcome(text: &str) -> String {
    match real::code_text(text) {
        Ok(Ok(s)) => format!("code {}", s),
        Ok(Err(e)) => format!("error {}", e.msg),
        Err(Panicked(m)) => format!("panic {}", m),
    }
}

fn c15_check(cs: &[Case]) -> Vec<V> {
    // one other process for all of them
    let skip: Vec<bool> = cs.iter().map(|c| matches!(judge(&c.prog), Verdict::Unknown)).collect();
    let progs: Vec<String> = cs.iter().zip(&skip).filter(|x| !x.1).map(|x| x.0.prog.clone()).collect();
    let sc = Scratch::new("c15");
    let f = sc.0.join("progs.json");
    std::fs::write(&f, serde_json::to_string(&progs).expect("json")).expect("write");
    let out = std::process::Command::new(std::env::current_exe().expect("exe"))
        .arg("emit-many")
        .arg(&f)
        .output()
        .expect("emit-many");
    let other: Vec<u64> = String::from_utf8_lossy(&out.stdout)
        .lines()
        .filter_map(|l| l.parse().ok())
        .collect();
    let mut other = other.into_iter();
    cs.iter()
        .zip(skip)
        .map(|(c, skip)| {
            if skip {
                return V::Skip("expansion too large or endless".into());
            }
            let a = emit_outcome(&c.prog);
            let o = other.next();
            if a.starts_with("panic") {
                return V::Skip("panic".into());
            }
            for _ in 0..3 {
                let b = emit_outcome(&c.prog);
                if a != b {
                    return V::Fail(format!("not repeatable: two runs differ: {:?}", first_diff(&a, &b)));
                }
            }
            match o {
                Some(h) if h == hash(&a) => {}
                Some(_) => return V::Fail("other process: the output differs".into()),
                None => return V::Fail("other process: no output".into()),
            }
            let toks = |t: &str| {
                use std::str::FromStr;
                TokenStream::from_str(t).map(flat_tokens).ok()
            };
            let t0 = toks(&c.prog);
            let mut n = 5;
            for v in &c.inputs {
                if t0.is_none() || toks(v) != t0 {
                    continue;
                }
                n += 1;
                let b = emit_outcome(v);
                if a != b {
                    return V::Fail(format!("layout: {:?} gives something else: {:?}", v, first_diff(&a, &b)));
                }
            }
            let acc = a.starts_with("code");
            V::Pass {
                nontrivial: acc || n > 5,
                n,
                tags: vec![if acc { "accepted" } else { "rejected" }.to_owned(), format!("layouts {}", n - 5)],
            }
        })
        .collect()
}

// ---------------------------------------------------------------- C22

fn c22_gen(rng: &mut Rng, _: usize) -> Case {
    let p = match rng.below(3) {
        0 => {
            let nk = kinds(rng);
            let mut p = higher_order(rng, nk);
            for _ in 0..rng.below(3) {
                edit(&mut p, rng)
            }
            p
        }
        _ => near(rng),
    };
    let l = *rng.pick(&[Layout::Plain, Layout::Tight, Layout::Wild, Layout::Wild]);
    Case::new("program", &text_of(&p, l, rng))
}

fn c22_one(c: &Case) -> V {
    let v = judge(&c.prog);
    if let Verdict::Unknown = v {
        return V::Skip("expansion too large or endless".into());
    }
    let o = observe(&c.prog);
    let e = match &o {
        Obs::Reject(e) => e,
        Obs::Accept => return V::Skip("accepted".into()),
        Obs::Panic(_) => return V::Skip("panic".into()),
    };
    let (want, phase): (Vec<(&'static str, Vec<Loc>)>, Phase) = match v {
        Verdict::Undeclared(u) => (u.iter().map(|i| ("undeclared", vec![i.loc])).collect(), Phase::Convert),
        Verdict::Calls(b) => (b.iter().map(|(b, l)| (call_kind(b), l.clone())).collect(), Phase::Reduce),
        Verdict::Types(_, t) => (t.violations.iter().map(|v| (bad_kind(&v.bad), v.locs.clone())).collect(), Phase::Type),
        Verdict::Syntax => return V::Skip("syntax".into()),
        Verdict::Good(..) => return V::Skip("good program rejected".into()),
        Verdict::Unknown => return V::Skip("expansion too large or endless".into()),
    };
    if e.phase != phase || !want.iter().any(|w| w.0 == e.kind) {
        return V::Fail(format!("kind: {} ({}) reported, the program has {:?}", e.kind, e.msg, want));
    }
    let l = match e.loc {
        Some(l) => l,
        None => return V::Fail("position: none".into()),
    };
    let same: Vec<&(&str, Vec<Loc>)> = want.iter().filter(|w| w.0 == e.kind).collect();
    if !same.iter().any(|w| w.1.is_empty() || w.1.contains(&l)) {
        return V::Fail(format!(
            "position: {} reported at {}:{}, should be one of {:?}",
            e.kind, l.line, l.col, same
        ));
    }
    let exact = same.iter().all(|w| !w.1.is_empty());
    V::Pass {
        nontrivial: exact,
        n: 1,
        tags: vec![
            e.kind.to_owned(),
            format!("places possible {}", same.iter().flat_map(|w| w.1.iter()).collect::<BTreeSet<_>>().len().min(4)),
            if l.line > 1 { "not on the first line".into() } else { "on the first line".into() },
        ],
    }
}

macro_rules! one {
    ($f:ident) => {
        |cs: &[Case]| each(cs, $f)
    };
}

const TRUST: &[&str] = &[
    "proc-macro2 and syn split text into tokens and decode string literals correctly",
    "the reference model in harness/src/model.rs and syntax.rs states the properties",
];

pub fn props() -> Vec<Prop> {
    let base = |id, gen, check, rule| Prop {
        id,
        quick: match id {
            "C15" => 30_000,
            "C12" => 120_000,
            "C09" => 150_000,
            _ => 250_000,
        },
        thorough: match id {
            "C15" => 1_500_000,
            "C12" | "C09" => 6_000_000,
            _ => 12_000_000,
        },
        batch: 1,
        crash: true,
        flaky_ok: false,
        gen,
        check,
        rule,
        assumptions: TRUST,
        known: None,
        setup: None,
    };
    vec![
        Prop {
            crash: false,
            ..base("C05", c05_gen, one!(c05_one), "the reference model finds at least one violation of the discipline in the expanded program")
        },
        base("C06", c06_gen, one!(c06_one), "the reference model finds no violation, and the expanded program has more than three nodes"),
        base("C07", c07_gen, one!(c07_one), "accepted, more than three nodes, and recursive or with a follow-last set that is not empty"),
        base("C08", c08_gen, one!(c08_one), "at least one call or two lets, and the expansion ends"),
        base("C09", c09_gen, one!(c09_one), "a name is bound more than once, or the program uses an undeclared name"),
        base("C10", c10_gen, one!(c10_one), "a misuse is present, or the program has lets or calls and none is"),
        Prop {
            crash: false,
            ..base("C11", c11_gen, one!(c11_one), "more than six tokens when accepted; a damaged program when rejected")
        },
        base("C12", c12_gen, one!(c12_one), "read by both front ends, or rejected after damage"),
        Prop {
            known: Some(c14_known),
            ..base("C14", c14_gen, one!(c14_one), "at least one front end gets past parsing")
        },
        Prop {
            batch: 40,
            crash: false,
            flaky_ok: true,
            ..base("C15", c15_gen, c15_check, "accepted, or at least one layout variant compared")
        },
        Prop {
            crash: false,
            ..base("C22", c22_gen, one!(c22_one), "rejected, and the reference model knows where each violation of the reported kind is")
        },
    ]
}
