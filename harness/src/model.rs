//! Reference semantics: scoping, call-by-name expansion, typing.  Written from the property
//! statements; shares no code with /repo.

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

use crate::syntax::*;

// ---------------------------------------------------------------- scoping

/// Locations of identifiers that are not in scope.
pub fn undeclared(p: &Program) -> Vec<Id> {
    fn alt(a: &Alt, sc: &mut Vec<String>, out: &mut Vec<Id>) {
        for l in &a.terms {
            for c in &l.cat.calls {
                for t in &c.terms {
                    term(t, sc, out)
                }
            }
        }
    }
    fn term(t: &Term, sc: &mut Vec<String>, out: &mut Vec<Id>) {
        match t {
            Term::Ident(i) => {
                if !sc.iter().any(|s| s == i.plain()) {
                    out.push(i.clone())
                }
            }
            Term::Fix(_, t) => term(t, sc, out),
            Term::Paren(_, e) => expr(e, sc, out),
            Term::Eps(_) | Term::Lit(..) => {}
        }
    }
    fn expr(e: &Expr, sc: &mut Vec<String>, out: &mut Vec<Id>) {
        match e {
            Expr::Alt(a) => alt(a, sc, out),
            Expr::Lambda(l) => {
                let n = sc.len();
                sc.extend(l.params.iter().map(|i| i.plain().to_owned()));
                alt(&l.body, sc, out);
                sc.truncate(n);
            }
        }
    }
    let mut sc = vec![];
    let mut out = vec![];
    for l in &p.lets {
        let n = sc.len();
        sc.extend(l.params.iter().map(|i| i.plain().to_owned()));
        expr(&l.body, &mut sc, &mut out);
        sc.truncate(n);
        sc.push(l.name.plain().to_owned());
    }
    expr(&p.goal, &mut sc, &mut out);
    out
}

// ---------------------------------------------------------------- expansion

/// Candidate names of a sub-expression by rank.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Names {
    pub label: BTreeSet<String>,
    pub lets: BTreeSet<String>,
    pub vars: BTreeSet<String>,
    /// Labels on the definition of a let: may or may not show through.
    pub soft: BTreeSet<String>,
}

impl Names {
    fn union(&mut self, o: &Names) {
        self.label.extend(o.label.iter().cloned());
        self.lets.extend(o.lets.iter().cloned());
        self.vars.extend(o.vars.iter().cloned());
        self.soft.extend(o.soft.iter().cloned());
    }
    /// The names the statement allows; empty means unnamed.
    pub fn allowed(&self) -> BTreeSet<String> {
        let mut s = if !self.label.is_empty() {
            self.label.clone()
        } else if !self.lets.is_empty() {
            self.lets.clone()
        } else {
            self.vars.clone()
        };
        s.extend(self.soft.iter().cloned());
        s
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum BadCall {
    NotAFunction,
    WrongArgs { want: usize, got: usize },
}

#[derive(Clone, Debug)]
pub enum K {
    Eps,
    Lit(String),
    Cat(Vec<Core>, Vec<Loc>),
    Alt(Vec<Core>, Vec<Loc>),
    Fix(usize, Box<Core>),
    Var(usize),
    /// A function in grammar position.
    BadLam,
    /// A fixed point of something that is no one-parameter function.
    BadFix(Vec<Core>),
    BadCall(BadCall, Loc, Vec<Core>),
}

#[derive(Clone, Debug)]
pub struct Core {
    pub k: K,
    pub names: Names,
    pub id: usize,
    /// Where a recursive reference may be reported.
    pub locs: Vec<Loc>,
}

impl Core {
    pub fn kids(&self) -> Vec<&Core> {
        match &self.k {
            K::Cat(v, _) | K::Alt(v, _) | K::BadFix(v) | K::BadCall(_, _, v) => v.iter().collect(),
            K::Fix(_, b) => vec![&**b],
            _ => vec![],
        }
    }
    pub fn size(&self) -> usize {
        1 + self.kids().iter().map(|k| k.size()).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self.kids().iter().map(|k| k.depth()).max().unwrap_or(0)
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Core)) {
        f(self);
        for k in self.kids() {
            k.walk(f)
        }
    }
    /// Canonical text: structure only.
    pub fn canon(&self) -> String {
        fn go(c: &Core, env: &mut Vec<usize>, o: &mut String) {
            match &c.k {
                K::Eps => o.push('_'),
                K::Lit(s) => o.push_str(&format!("{:?}", s)),
                K::Cat(v, _) => {
                    o.push('(');
                    for (i, x) in v.iter().enumerate() {
                        if i > 0 {
                            o.push('.')
                        }
                        go(x, env, o)
                    }
                    o.push(')')
                }
                K::Alt(v, _) => {
                    o.push('(');
                    for (i, x) in v.iter().enumerate() {
                        if i > 0 {
                            o.push('|')
                        }
                        go(x, env, o)
                    }
                    o.push(')')
                }
                K::Fix(id, b) => {
                    env.push(*id);
                    o.push_str(&format!("!{}", env.len()));
                    o.push('/');
                    go(b, env, o);
                    env.pop();
                }
                K::Var(id) => {
                    let p = env.iter().rposition(|x| x == id).map_or(0, |x| x + 1);
                    o.push_str(&format!("v{}", p))
                }
                K::BadLam => o.push_str("LAM"),
                K::BadFix(v) => {
                    o.push_str("BADFIX(");
                    for x in v {
                        go(x, env, o)
                    }
                    o.push(')')
                }
                K::BadCall(b, _, _) => o.push_str(&format!("BAD{:?}", b)),
            }
        }
        let mut o = String::new();
        go(self, &mut vec![], &mut o);
        o
    }
}

type Env<'a> = Option<Rc<Node<'a>>>;

struct Node<'a> {
    name: &'a str,
    b: Bind<'a>,
    next: Env<'a>,
}

#[derive(Clone)]
enum Bind<'a> {
    /// Unevaluated expression; names added to what it evaluates to.
    Term(&'a Term, Env<'a>, Names),
    LetBody(&'a LetStmt, Env<'a>),
    Rec(usize, String),
}

#[derive(Clone)]
enum Val<'a> {
    Gram(Core),
    Clo(&'a [Id], Body<'a>, Env<'a>, Names),
}

#[derive(Clone, Copy)]
enum Body<'a> {
    Alt(&'a Alt),
    Expr(&'a Expr),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Stop {
    Fuel,
    Undeclared,
}

struct Ev {
    fuel: usize,
    nodes: usize,
    ids: usize,
    fixes: usize,
    depth: usize,
}

type E<T> = Result<T, Stop>;

fn one(s: &str) -> BTreeSet<String> {
    let mut b = BTreeSet::new();
    b.insert(s.to_owned());
    b
}

impl Ev {
    fn tick(&mut self) -> E<()> {
        if self.fuel == 0 {
            return Err(Stop::Fuel);
        }
        self.fuel -= 1;
        Ok(())
    }
    fn mk(&mut self, k: K, locs: Vec<Loc>) -> E<Core> {
        if self.nodes == 0 {
            return Err(Stop::Fuel);
        }
        self.nodes -= 1;
        self.ids += 1;
        Ok(Core {
            k,
            names: Names::default(),
            id: self.ids,
            locs,
        })
    }
    fn lookup<'a>(&self, env: &Env<'a>, n: &str) -> Option<Bind<'a>> {
        let mut e = env;
        while let Some(x) = e {
            if x.name == n {
                return Some(x.b.clone());
            }
            e = &x.next;
        }
        None
    }
    fn gram<'a>(&mut self, v: Val<'a>) -> E<Core> {
        match v {
            Val::Gram(c) => Ok(c),
            Val::Clo(_, _, _, n) => {
                let mut c = self.mk(K::BadLam, vec![])?;
                c.names = n;
                Ok(c)
            }
        }
    }
    fn expr<'a>(&mut self, e: &'a Expr, env: &Env<'a>) -> E<Val<'a>> {
        match e {
            Expr::Alt(a) => self.alt(a, env),
            Expr::Lambda(l) => Ok(Val::Clo(
                &l.params,
                Body::Alt(&l.body),
                env.clone(),
                Names::default(),
            )),
        }
    }
    fn alt<'a>(&mut self, a: &'a Alt, env: &Env<'a>) -> E<Val<'a>> {
        if a.terms.len() == 1 {
            return self.labelled(&a.terms[0], env);
        }
        let mut v = vec![];
        for l in &a.terms {
            let x = self.labelled(l, env)?;
            v.push(self.gram(x)?);
        }
        let c = self.mk(K::Alt(v, a.bars.clone()), vec![])?;
        Ok(Val::Gram(c))
    }
    fn labelled<'a>(&mut self, l: &'a Labelled, env: &Env<'a>) -> E<Val<'a>> {
        self.labelled_in(l, env, false)
    }
    /// `covered`: another label is put right around this.
    fn labelled_in<'a>(&mut self, l: &'a Labelled, env: &Env<'a>, covered: bool) -> E<Val<'a>> {
        let inner = match &l.cat.calls[..] {
            [Call { terms }] => match &terms[..] {
                [Term::Paren(_, e)] => match &**e {
                    Expr::Alt(a) if a.terms.len() == 1 => Some(&a.terms[0]),
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        };
        let mut v = match inner {
            Some(x) => {
                self.tick()?;
                self.labelled_in(x, env, covered || l.label.is_some())?
            }
            None => self.cat(&l.cat, env)?,
        };
        if let (Some(i), false) = (&l.label, covered) {
            let n = match &mut v {
                Val::Gram(c) => &mut c.names,
                Val::Clo(_, _, _, n) => n,
            };
            n.label.insert(i.plain().to_owned());
        }
        if let Val::Gram(c) = &mut v {
            if matches!(c.k, K::Var(_) | K::BadCall(..)) {
                c.locs.push(l.cat.calls[0].terms[0].loc());
            }
        }
        Ok(v)
    }
    fn cat<'a>(&mut self, c: &'a Cat, env: &Env<'a>) -> E<Val<'a>> {
        if c.calls.len() == 1 {
            return self.call(&c.calls[0], env);
        }
        let mut v = vec![];
        for x in &c.calls {
            let x = self.call(x, env)?;
            v.push(self.gram(x)?);
        }
        let c = self.mk(K::Cat(v, c.dots.clone()), vec![])?;
        Ok(Val::Gram(c))
    }
    fn call<'a>(&mut self, c: &'a Call, env: &Env<'a>) -> E<Val<'a>> {
        if c.terms.len() == 1 {
            return self.term(&c.terms[0], env);
        }
        self.tick()?;
        let loc = c.terms[0].loc();
        let got = c.terms.len() - 1;
        match self.term(&c.terms[0], env)? {
            Val::Gram(g) => {
                let c = self.mk(K::BadCall(BadCall::NotAFunction, loc, vec![g]), vec![])?;
                Ok(Val::Gram(c))
            }
            Val::Clo(params, body, cenv, names) => {
                if params.len() != got {
                    let b = BadCall::WrongArgs {
                        want: params.len(),
                        got,
                    };
                    let c = self.mk(K::BadCall(b, loc, vec![]), vec![])?;
                    return Ok(Val::Gram(c));
                }
                let mut e = cenv;
                for (p, t) in params.iter().zip(&c.terms[1..]) {
                    e = Some(Rc::new(Node {
                        name: p.plain(),
                        b: Bind::Term(
                            t,
                            env.clone(),
                            Names {
                                vars: one(p.plain()),
                                ..Names::default()
                            },
                        ),
                        next: e,
                    }));
                }
                let mut v = self.body(body, &e)?;
                match &mut v {
                    Val::Gram(c) => {
                        c.names.union(&names);
                        c.locs.push(loc);
                    }
                    Val::Clo(_, _, _, n) => n.union(&names),
                }
                Ok(v)
            }
        }
    }
    fn body<'a>(&mut self, b: Body<'a>, env: &Env<'a>) -> E<Val<'a>> {
        self.depth += 1;
        if self.depth > 3000 {
            return Err(Stop::Fuel);
        }
        let r = match b {
            Body::Alt(a) => self.alt(a, env),
            Body::Expr(e) => self.expr(e, env),
        };
        self.depth -= 1;
        r
    }
    fn term<'a>(&mut self, t: &'a Term, env: &Env<'a>) -> E<Val<'a>> {
        self.tick()?;
        match t {
            Term::Eps(_) => Ok(Val::Gram(self.mk(K::Eps, vec![])?)),
            Term::Lit(s, _) => Ok(Val::Gram(self.mk(K::Lit(s.clone()), vec![])?)),
            Term::Paren(_, e) => self.expr(e, env),
            Term::Ident(i) => {
                let b = self.lookup(env, i.plain()).ok_or(Stop::Undeclared)?;
                self.depth += 1;
                if self.depth > 3000 {
                    return Err(Stop::Fuel);
                }
                let occ = one(i.plain());
                let mut v = match b {
                    Bind::Rec(id, n) => {
                        let mut c = self.mk(K::Var(id), vec![i.loc])?;
                        c.names.vars.insert(n);
                        Val::Gram(c)
                    }
                    Bind::Term(t, e, names) => {
                        let mut v = self.term(t, &e)?;
                        match &mut v {
                            Val::Gram(c) => c.names.union(&names),
                            Val::Clo(_, _, _, n) => n.union(&names),
                        }
                        v
                    }
                    Bind::LetBody(l, e) => {
                        let mut v = if l.params.is_empty() {
                            self.expr(&l.body, &e)?
                        } else {
                            Val::Clo(&l.params, Body::Expr(&l.body), e, Names::default())
                        };
                        let n = match &mut v {
                            Val::Gram(c) => &mut c.names,
                            Val::Clo(_, _, _, n) => n,
                        };
                        let mut soft = n.label.clone();
                        soft.extend(n.soft.iter().cloned());
                        soft.extend(n.lets.iter().cloned());
                        *n = Names {
                            lets: one(l.name.plain()),
                            soft,
                            ..Names::default()
                        };
                        v
                    }
                };
                self.depth -= 1;
                match &mut v {
                    Val::Gram(c) => c.names.vars.extend(occ),
                    Val::Clo(_, _, _, n) => n.vars.extend(occ),
                }
                Ok(v)
            }
            Term::Fix(_, t) => match self.term(t, env)? {
                Val::Gram(g) => Ok(Val::Gram(self.mk(K::BadFix(vec![g]), vec![])?)),
                Val::Clo(params, body, cenv, _) => {
                    let mut e = cenv;
                    let mut ids = vec![];
                    for p in params {
                        self.fixes += 1;
                        ids.push(self.fixes);
                        e = Some(Rc::new(Node {
                            name: p.plain(),
                            b: Bind::Rec(self.fixes, p.plain().to_owned()),
                            next: e,
                        }));
                    }
                    let v = self.body(body, &e)?;
                    let b = self.gram(v)?;
                    let k = if params.len() == 1 {
                        K::Fix(ids[0], Box::new(b))
                    } else {
                        K::BadFix(vec![b])
                    };
                    Ok(Val::Gram(self.mk(k, vec![])?))
                }
            },
        }
    }
}

pub const FUEL: usize = 60_000;
pub const NODES: usize = 4_000;

/// Expands a program.  `Err(Fuel)`: gave up (possibly endless).
pub fn expand(p: &Program) -> E<Core> {
    expand_with(p, FUEL, NODES)
}

pub fn expand_with(p: &Program, fuel: usize, nodes: usize) -> E<Core> {
    if !undeclared(p).is_empty() {
        return Err(Stop::Undeclared);
    }
    if textual_size(p) > 60_000 {
        return Err(Stop::Fuel);
    }
    let mut ev = Ev {
        fuel,
        nodes,
        ids: 0,
        fixes: 0,
        depth: 0,
    };
    let mut env: Env<'_> = None;
    for l in &p.lets {
        env = Some(Rc::new(Node {
            name: l.name.plain(),
            b: Bind::LetBody(l, env.clone()),
            next: env,
        }));
    }
    let v = ev.expr(&p.goal, &env)?;
    ev.gram(v)
}

/// Size of the program with all lets copied to their uses (unevaluated parts included), capped.
pub fn textual_size(p: &Program) -> usize {
    type Sc = Vec<(String, usize)>;
    fn term(t: &Term, sc: &mut Sc) -> usize {
        match t {
            Term::Ident(i) => sc
                .iter()
                .rev()
                .find(|(n, _)| n == i.plain())
                .map_or(1, |(_, s)| *s),
            Term::Fix(_, t) => 1 + term(t, sc),
            Term::Paren(_, e) => expr(e, sc),
            _ => 1,
        }
    }
    fn alt(a: &Alt, sc: &mut Sc) -> usize {
        let mut s = 1usize;
        for l in &a.terms {
            for c in &l.cat.calls {
                for t in &c.terms {
                    s = s.saturating_add(term(t, sc));
                }
            }
        }
        s
    }
    fn expr(e: &Expr, sc: &mut Sc) -> usize {
        match e {
            Expr::Alt(a) => alt(a, sc),
            Expr::Lambda(l) => with(&l.params, &mut |sc| alt(&l.body, sc), sc),
        }
    }
    fn with(ps: &[Id], f: &mut dyn FnMut(&mut Sc) -> usize, sc: &mut Sc) -> usize {
        let n = sc.len();
        sc.extend(ps.iter().map(|i| (i.plain().to_owned(), 1)));
        let r = f(sc);
        sc.truncate(n);
        r
    }
    let mut sc: Sc = vec![];
    for l in &p.lets {
        let s = with(&l.params, &mut |sc| expr(&l.body, sc), &mut sc);
        sc.push((l.name.plain().to_owned(), s.saturating_add(1)));
    }
    expr(&p.goal, &mut sc)
}

// ---------------------------------------------------------------- typing

const WORDS: usize = 9;
pub type Set = [u64; WORDS];

pub const NOSET: Set = [0; WORDS];

pub fn s_or(a: &Set, b: &Set) -> Set {
    let mut s = *a;
    for (x, y) in s.iter_mut().zip(b) {
        *x |= y
    }
    s
}
pub fn s_and(a: &Set, b: &Set) -> bool {
    (0..WORDS).any(|i| a[i] & b[i] != 0)
}
pub fn s_one(i: usize) -> Set {
    let mut s = NOSET;
    s[i / 64] |= 1 << (i % 64);
    s
}
pub fn s_has(s: &Set, i: usize) -> bool {
    s[i / 64] & (1 << (i % 64)) != 0
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Ty {
    pub null: bool,
    pub first: Set,
    pub flast: Set,
}

impl Ty {
    pub fn then(&self, o: &Ty) -> Ty {
        Ty {
            null: self.null && o.null,
            first: if self.null {
                s_or(&self.first, &o.first)
            } else {
                self.first
            },
            flast: if o.null {
                s_or(&s_or(&o.flast, &self.flast), &o.first)
            } else {
                o.flast
            },
        }
    }
    pub fn or(&self, o: &Ty) -> Ty {
        Ty {
            null: self.null || o.null,
            first: s_or(&self.first, &o.first),
            flast: s_or(&self.flast, &o.flast),
        }
    }
}

/// Characters that occur in a program, numbered.
#[derive(Default, Clone)]
pub struct Alphabet {
    pub chars: Vec<char>,
    map: HashMap<char, usize>,
}

impl Alphabet {
    pub fn of(c: &Core) -> Option<Alphabet> {
        let mut a = Alphabet::default();
        let mut ok = true;
        c.walk(&mut |x| {
            if let K::Lit(s) = &x.k {
                for ch in s.chars() {
                    if !a.map.contains_key(&ch) {
                        if a.chars.len() >= 64 * WORDS {
                            ok = false;
                            return;
                        }
                        a.map.insert(ch, a.chars.len());
                        a.chars.push(ch);
                    }
                }
            }
        });
        if ok {
            Some(a)
        } else {
            None
        }
    }
    pub fn ix(&self, c: char) -> Option<usize> {
        self.map.get(&c).copied()
    }
    pub fn list(&self, s: &Set) -> Vec<char> {
        let mut v: Vec<char> = (0..self.chars.len())
            .filter(|i| s_has(s, *i))
            .map(|i| self.chars[i])
            .collect();
        v.sort_unstable();
        v
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Bad {
    FirstNullable,
    FlastOverlap,
    BothNullable,
    FirstOverlap,
    Unguarded(String),
    FunctionLeft,
    FixOfNonFunction,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Violation {
    pub bad: Bad,
    /// Where it may be reported; empty when the statement does not say.
    pub locs: Vec<Loc>,
    pub node: usize,
}

pub struct Typing {
    pub alpha: Alphabet,
    pub ty: HashMap<usize, Ty>,
    pub violations: Vec<Violation>,
}

/// The types of all nodes (least fixed point) and everything that breaks the discipline.
pub fn typing(c: &Core) -> Option<Typing> {
    let alpha = Alphabet::of(c)?;
    let mut fix: BTreeMap<usize, Ty> = BTreeMap::new();
    let mut ty: HashMap<usize, Ty> = HashMap::new();
    fn go(
        c: &Core,
        a: &Alphabet,
        fix: &mut BTreeMap<usize, Ty>,
        ty: &mut HashMap<usize, Ty>,
        changed: &mut bool,
    ) -> Ty {
        let t = match &c.k {
            K::Eps => Ty {
                null: true,
                ..Ty::default()
            },
            K::Lit(s) => match s.chars().next() {
                None => Ty {
                    null: true,
                    ..Ty::default()
                },
                Some(ch) => Ty {
                    first: s_one(a.ix(ch).unwrap()),
                    ..Ty::default()
                },
            },
            K::Cat(v, _) => {
                let mut t = go(&v[0], a, fix, ty, changed);
                for x in &v[1..] {
                    let u = go(x, a, fix, ty, changed);
                    t = t.then(&u);
                }
                t
            }
            K::Alt(v, _) => {
                let mut t = go(&v[0], a, fix, ty, changed);
                for x in &v[1..] {
                    let u = go(x, a, fix, ty, changed);
                    t = t.or(&u);
                }
                t
            }
            K::Fix(id, b) => {
                let t = go(b, a, fix, ty, changed);
                let old = fix.insert(*id, t).unwrap_or_default();
                if old != t {
                    *changed = true;
                }
                t
            }
            K::Var(id) => fix.get(id).copied().unwrap_or_default(),
            K::BadLam => Ty::default(),
            K::BadFix(v) | K::BadCall(_, _, v) => {
                for x in v {
                    go(x, a, fix, ty, changed);
                }
                Ty::default()
            }
        };
        ty.insert(c.id, t);
        t
    }
    loop {
        let mut changed = false;
        go(c, &alpha, &mut fix, &mut ty, &mut changed);
        if !changed {
            break;
        }
    }
    let mut violations = vec![];
    // guard: fix variables bound inside the current consumption region are not usable
    fn check(c: &Core, ty: &HashMap<usize, Ty>, blocked: &mut Vec<usize>, out: &mut Vec<Violation>) {
        let mut push = |bad: Bad, locs: Vec<Loc>| {
            out.push(Violation {
                bad,
                locs,
                node: c.id,
            })
        };
        match &c.k {
            K::Eps | K::Lit(_) => {}
            K::Var(id) => {
                if blocked.contains(id) {
                    let n = c.names.allowed().iter().next().cloned().unwrap_or_default();
                    push(Bad::Unguarded(n), c.locs.clone())
                }
            }
            K::Cat(v, locs) => {
                let mut t = ty[&v[0].id];
                if t.null {
                    push(Bad::FirstNullable, vec![locs[0]]);
                }
                for (x, l) in v[1..].iter().zip(locs) {
                    let u = ty[&x.id];
                    if s_and(&t.flast, &u.first) {
                        push(Bad::FlastOverlap, vec![*l]);
                    }
                    t = t.then(&u);
                }
                check(&v[0], ty, blocked, out);
                let mut free = vec![];
                for x in &v[1..] {
                    check(x, ty, &mut free, out);
                }
            }
            K::Alt(v, locs) => {
                let mut t = ty[&v[0].id];
                for (x, l) in v[1..].iter().zip(locs) {
                    let u = ty[&x.id];
                    if t.null && u.null {
                        push(Bad::BothNullable, vec![*l]);
                    }
                    if s_and(&t.first, &u.first) {
                        push(Bad::FirstOverlap, vec![*l]);
                    }
                    t = t.or(&u);
                }
                for x in v {
                    check(x, ty, blocked, out);
                }
            }
            K::Fix(id, b) => {
                blocked.push(*id);
                check(b, ty, blocked, out);
                blocked.pop();
            }
            K::BadLam => push(Bad::FunctionLeft, vec![]),
            K::BadFix(v) => {
                push(Bad::FixOfNonFunction, vec![]);
                for x in v {
                    check(x, ty, blocked, out)
                }
            }
            K::BadCall(_, _, v) => {
                for x in v {
                    check(x, ty, blocked, out)
                }
            }
        }
    }
    check(c, &ty, &mut vec![], &mut violations);
    Some(Typing {
        alpha,
        ty,
        violations,
    })
}

/// Calls that go wrong, with their locations.
pub fn bad_calls(c: &Core) -> Vec<(BadCall, Vec<Loc>)> {
    let mut out = vec![];
    c.walk(&mut |x| {
        if let K::BadCall(b, l, _) = &x.k {
            let mut ls = vec![*l];
            ls.extend(x.locs.iter().copied());
            out.push((b.clone(), ls))
        }
    });
    out
}

// ---------------------------------------------------------------- verdict

/// What the compiler must do with a program.
pub enum Verdict {
    Syntax,
    Undeclared(Vec<Id>),
    Calls(Vec<(BadCall, Vec<Loc>)>),
    Types(Core, Typing),
    Good(Core, Typing),
    /// Expansion too large or endless: no statement.
    Unknown,
}

impl Verdict {
    pub fn word(&self) -> &'static str {
        match self {
            Verdict::Syntax => "syntax",
            Verdict::Undeclared(_) => "undeclared",
            Verdict::Calls(_) => "calls",
            Verdict::Types(..) => "types",
            Verdict::Good(..) => "good",
            Verdict::Unknown => "unknown",
        }
    }
}

pub fn judge(text: &str) -> Verdict {
    match parse(text) {
        Err(_) => Verdict::Syntax,
        Ok(p) => judge_program(&p),
    }
}

/// Whether an identifier occurs both raw and not; whether these are one name is not said anywhere.
pub fn mixed_raw(p: &Program) -> bool {
    let words: BTreeSet<String> = tokens(p)
        .into_iter()
        .filter_map(|t| match t {
            Tok::Word(w) => Some(w),
            _ => None,
        })
        .collect();
    words.iter().any(|w| w.strip_prefix("r#").map_or(false, |x| words.contains(x)))
}

pub fn judge_program(p: &Program) -> Verdict {
    if mixed_raw(p) {
        return Verdict::Unknown;
    }
    let u = undeclared(p);
    if !u.is_empty() {
        return Verdict::Undeclared(u);
    }
    match expand(p) {
        Err(_) => Verdict::Unknown,
        Ok(core) => {
            let b = bad_calls(&core);
            if !b.is_empty() {
                return Verdict::Calls(b);
            }
            match typing(&core) {
                None => Verdict::Unknown,
                Some(t) => {
                    if t.violations.is_empty() {
                        Verdict::Good(core, t)
                    } else {
                        Verdict::Types(core, t)
                    }
                }
            }
        }
    }
}
