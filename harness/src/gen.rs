//! Generators of Nibble programs.

use std::collections::{BTreeSet, HashMap, HashSet};

use crate::dict::dict;
use crate::syntax::*;
use crate::util::Rng;

// ---------------------------------------------------------------- trees with unique binders

#[derive(Clone, Debug, PartialEq)]
pub enum G {
    Eps,
    Lit(String),
    Cat(Vec<G>),
    Alt(Vec<G>),
    Fix(Box<G>),
    Lam(Vec<usize>, Box<G>),
    App(Box<G>, Vec<G>),
    Var(usize),
    Label(String, Box<G>),
}

#[derive(Clone, Debug)]
pub struct GP {
    pub lets: Vec<(usize, G)>,
    pub goal: G,
}

impl G {
    pub fn kids(&self) -> Vec<&G> {
        match self {
            G::Cat(v) | G::Alt(v) => v.iter().collect(),
            G::Fix(b) | G::Lam(_, b) | G::Label(_, b) => vec![&**b],
            G::App(f, a) => {
                let mut v = vec![&**f];
                v.extend(a.iter());
                v
            }
            _ => vec![],
        }
    }
    fn kids_mut(&mut self) -> Vec<&mut G> {
        match self {
            G::Cat(v) | G::Alt(v) => v.iter_mut().collect(),
            G::Fix(b) | G::Lam(_, b) | G::Label(_, b) => vec![&mut **b],
            G::App(f, a) => {
                let mut v = vec![&mut **f];
                v.extend(a.iter_mut());
                v
            }
            _ => vec![],
        }
    }
    pub fn size(&self) -> usize {
        1 + self.kids().iter().map(|k| k.size()).sum::<usize>()
    }
    fn at(&self, p: &[usize]) -> &G {
        match p.split_first() {
            None => self,
            Some((i, r)) => self.kids()[*i].at(r),
        }
    }
    fn at_mut(&mut self, p: &[usize]) -> &mut G {
        match p.split_first() {
            None => self,
            Some((i, r)) => self.kids_mut().swap_remove(*i).at_mut(r),
        }
    }
    pub fn free(&self) -> BTreeSet<usize> {
        fn go(g: &G, b: &mut Vec<usize>, o: &mut BTreeSet<usize>) {
            match g {
                G::Var(i) => {
                    if !b.contains(i) {
                        o.insert(*i);
                    }
                }
                G::Lam(ps, x) => {
                    let n = b.len();
                    b.extend(ps);
                    go(x, b, o);
                    b.truncate(n);
                }
                _ => {
                    for k in g.kids() {
                        go(k, b, o)
                    }
                }
            }
        }
        let mut o = BTreeSet::new();
        go(self, &mut vec![], &mut o);
        o
    }
    fn bound(&self, o: &mut HashSet<usize>) {
        if let G::Lam(ps, _) = self {
            o.extend(ps);
        }
        for k in self.kids() {
            k.bound(o)
        }
    }
    fn map_vars(&mut self, f: &dyn Fn(usize) -> usize) {
        match self {
            G::Var(i) => *i = f(*i),
            G::Lam(ps, b) => {
                for p in ps.iter_mut() {
                    *p = f(*p)
                }
                b.map_vars(f)
            }
            _ => {
                for k in self.kids_mut() {
                    k.map_vars(f)
                }
            }
        }
    }
}

/// Paths of all nodes that stand for grammars (not functions).
fn star_paths(g: &G, stars: &HashSet<usize>) -> Vec<Vec<usize>> {
    fn go(g: &G, p: &mut Vec<usize>, fun: bool, stars: &HashSet<usize>, o: &mut Vec<Vec<usize>>) {
        let is = match g {
            G::Lam(..) => false,
            G::Var(i) => stars.contains(i),
            _ => true,
        };
        if is && !fun {
            o.push(p.clone());
        }
        for (i, k) in g.kids().into_iter().enumerate() {
            let f = match g {
                G::Fix(_) => true,
                G::App(..) => i == 0,
                _ => false,
            };
            // a function argument is a lambda or a variable that is no grammar
            p.push(i);
            let body_fun = matches!(g, G::Lam(_, b) if matches!(**b, G::Lam(..)));
            go(k, p, f || body_fun, stars, o);
            p.pop();
        }
    }
    let mut o = vec![];
    go(g, &mut vec![], false, stars, &mut o);
    o
}

// ---------------------------------------------------------------- (A) well-typed by construction

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
struct T {
    null: bool,
    first: u64,
    flast: u64,
}

impl T {
    fn then(self, o: T) -> T {
        T {
            null: self.null && o.null,
            first: if self.null { self.first | o.first } else { self.first },
            flast: if o.null { o.flast | self.flast | o.first } else { o.flast },
        }
    }
    fn or(self, o: T) -> T {
        T {
            null: self.null || o.null,
            first: self.first | o.first,
            flast: self.flast | o.flast,
        }
    }
    /// Whether a thing of this type fits where `c` is the most that is allowed.
    fn fits(self, c: T) -> bool {
        (!self.null || c.null) && self.first & !c.first == 0 && self.flast & !c.flast == 0
    }
}

struct RV {
    id: usize,
    ty: T,
    free: bool,
}

pub struct Typed<'r> {
    rng: &'r mut Rng,
    alpha: Vec<char>,
    all: u64,
    next: usize,
    vars: Vec<RV>,
    pool: Vec<G>,
    wide: bool,
    longlit: bool,
    empties: bool,
    labels: usize,
    names: NamePool,
}

fn bits(m: u64) -> Vec<usize> {
    (0..64).filter(|i| m & (1 << i) != 0).collect()
}

impl<'r> Typed<'r> {
    fn fresh(&mut self) -> usize {
        self.next += 1;
        self.next
    }
    fn subset(&mut self, m: u64) -> u64 {
        let v = bits(m);
        if v.is_empty() {
            return 0;
        }
        let mut r = 0;
        for i in &v {
            if self.rng.chance(1, 2) {
                r |= 1 << i
            }
        }
        if r == 0 {
            r = 1 << v[self.rng.below(v.len())];
        }
        r
    }
    fn literal(&mut self, first: u64) -> Option<(G, T)> {
        let v = bits(first);
        if v.is_empty() {
            return None;
        }
        let f = *self.rng.pick(&v);
        let mut s = String::new();
        s.push(self.alpha[f]);
        let extra = match self.rng.below(10) {
            0..=5 => 0,
            6..=7 => 1,
            8 => 2,
            _ => {
                if self.longlit {
                    self.rng.range(3, 8)
                } else {
                    3
                }
            }
        };
        for _ in 0..extra {
            let c = *self.rng.pick(&self.alpha);
            s.push(c);
        }
        Some((
            G::Lit(s),
            T {
                null: false,
                first: 1 << f,
                flast: 0,
            },
        ))
    }
    fn leaf(&mut self, c: T) -> Option<(G, T)> {
        let us: Vec<usize> = (0..self.vars.len())
            .filter(|i| self.vars[*i].free && self.vars[*i].ty.fits(c))
            .collect();
        if !us.is_empty() && self.rng.chance(3, 5) {
            // the innermost is not always the interesting one
            let i = *self.rng.pick(&us);
            return Some((G::Var(self.vars[i].id), self.vars[i].ty));
        }
        if c.null && (c.first == 0 || self.rng.chance(1, 4)) {
            let g = if self.rng.chance(1, 12) { G::Lit(String::new()) } else { G::Eps };
            return Some((
                g,
                T {
                    null: true,
                    ..T::default()
                },
            ));
        }
        self.literal(c.first)
    }
    fn g(&mut self, size: usize, c: T) -> Option<(G, T)> {
        let r = self.g_(size, c)?;
        debug_assert!(r.1.fits(c));
        if r.0.size() <= 20 && self.rng.chance(1, 3) {
            self.pool.push(r.0.clone());
        }
        Some(r)
    }
    fn g_(&mut self, size: usize, c: T) -> Option<(G, T)> {
        if size <= 1 {
            return self.leaf(c);
        }
        if !self.pool.is_empty() && self.rng.chance(1, 6) {
            for _ in 0..3 {
                if let Some(r) = self.reuse(c) {
                    return Some(r);
                }
            }
        }
        for _ in 0..3 {
            let r = match self.rng.weighted(&[4, 3, 3, 2, 1]) {
                0 => self.cat(size, c),
                1 => self.alt(size, c),
                2 => self.fix(size, c),
                3 => self.opt(size, c),
                _ => self.plus(size, c),
            };
            if r.is_some() {
                return r;
            }
        }
        self.leaf(c)
    }
    fn cat(&mut self, size: usize, c: T) -> Option<(G, T)> {
        let n = match self.rng.below(8) {
            0..=3 => 2,
            4..=5 => 3,
            6 => 4,
            _ => self.rng.range(2, 7),
        };
        let m = if self.rng.chance(3, 4) { n - 1 } else { self.rng.below(n) };
        let share = ((size - 1) / n).max(1);
        let (g0, t0) = self.g(
            share,
            T {
                null: false,
                first: c.first,
                flast: if m == 0 { c.flast } else { self.all },
            },
        )?;
        let saved: Vec<bool> = self.vars.iter().map(|v| v.free).collect();
        for v in self.vars.iter_mut() {
            v.free = true;
        }
        let mut parts = vec![g0];
        let mut t = t0;
        let mut ok = true;
        for i in 1..n {
            let mut first = self.all & !t.flast;
            if i > m {
                first &= c.flast;
            }
            let ci = T {
                null: i != m,
                first,
                flast: if i >= m { c.flast } else { self.all },
            };
            let sz = if self.rng.chance(1, 3) { share * 2 } else { share };
            let r = if i != m && self.rng.chance(1, 2) {
                self.opt(sz, ci).or_else(|| self.g(sz, ci))
            } else {
                self.g(sz, ci)
            };
            match r {
                Some((g, u)) => {
                    parts.push(g);
                    t = t.then(u);
                }
                None => {
                    ok = i > m && parts.len() >= 2;
                    break;
                }
            }
        }
        for (v, f) in self.vars.iter_mut().zip(saved) {
            v.free = f;
        }
        if ok && parts.len() >= 2 && t.fits(c) {
            Some((G::Cat(parts), t))
        } else {
            None
        }
    }
    fn alt(&mut self, size: usize, c: T) -> Option<(G, T)> {
        let mut chars = bits(c.first);
        self.rng.shuffle(&mut chars);
        let want = if self.wide && self.rng.chance(1, 2) {
            self.rng.range(5, 20)
        } else {
            match self.rng.below(6) {
                0..=2 => 2,
                3..=4 => 3,
                _ => self.rng.range(2, 6),
            }
        };
        let nullbr = c.null && self.rng.chance(1, 2);
        let eps = nullbr && self.rng.chance(1, 2);
        let k = want.min(chars.len() + usize::from(eps));
        if k < 2 {
            return None;
        }
        let solid = k - usize::from(eps);
        let mut groups: Vec<u64> = vec![0; solid];
        for (i, ch) in chars.iter().enumerate() {
            let j = if i < solid { i } else { self.rng.below(solid + 1) };
            if j < solid {
                groups[j] |= 1 << ch;
            }
        }
        let nullat = if nullbr && !eps { Some(self.rng.below(solid)) } else { None };
        let share = ((size - 1) / k).max(1);
        let mut v = vec![];
        let mut t = T::default();
        for (j, first) in groups.into_iter().enumerate() {
            let cj = T {
                null: nullat == Some(j),
                first,
                flast: c.flast,
            };
            if let Some((g, u)) = self.g(share, cj) {
                let g = self.maybe_label(g);
                v.push(g);
                t = t.or(u);
            }
        }
        if eps {
            let i = self.rng.below(v.len() + 1);
            let e = self.maybe_label(G::Eps);
            v.insert(i, e);
            t.null = true;
        }
        if v.len() < 2 {
            return v.pop().map(|g| (g, t));
        }
        Some((G::Alt(v), t))
    }
    fn maybe_label(&mut self, g: G) -> G {
        if self.labels > 0 && self.rng.chance(self.labels, 10) {
            let l = self.names.label(self.rng);
            G::Label(l, Box::new(g))
        } else {
            g
        }
    }
    fn opt(&mut self, size: usize, c: T) -> Option<(G, T)> {
        if !c.null {
            return None;
        }
        let (g, t) = self.g(size.max(2) - 1, T { null: false, ..c })?;
        let t = T { null: true, ..t };
        let v = if self.rng.chance(2, 3) { vec![G::Eps, g] } else { vec![g, G::Eps] };
        Some((G::Alt(v), t))
    }
    fn plus(&mut self, size: usize, c: T) -> Option<(G, T)> {
        let s = c.first & c.flast;
        if s == 0 {
            return None;
        }
        let s = self.subset(s);
        let (x, tx) = self.g(
            size.max(3) - 2,
            T {
                null: false,
                first: s,
                flast: c.flast & !s,
            },
        )?;
        let p = self.fresh();
        let mut t = T {
            null: false,
            first: tx.first,
            flast: tx.flast | tx.first,
        };
        let mut g = G::Fix(Box::new(G::Lam(
            vec![p],
            Box::new(G::Cat(vec![x, G::Alt(vec![G::Eps, G::Var(p)])])),
        )));
        if c.null && self.rng.chance(1, 2) {
            g = G::Alt(vec![G::Eps, g]);
            t.null = true;
        }
        Some((g, t))
    }
    fn fix(&mut self, size: usize, c: T) -> Option<(G, T)> {
        let id = self.fresh();
        let first = if self.rng.chance(1, 3) { self.subset(c.first) } else { c.first };
        let flast = match self.rng.below(3) {
            0 => c.flast,
            1 => c.flast & first,
            _ => {
                if c.flast == 0 {
                    0
                } else {
                    self.subset(c.flast)
                }
            }
        };
        let ty = T {
            null: c.null && self.rng.chance(1, 2),
            first,
            flast,
        };
        self.vars.push(RV { id, ty, free: false });
        let mut r = None;
        for _ in 0..3 {
            r = match self.rng.below(4) {
                0 => self.rec_alt(size - 1, id, ty),
                1 => self.cat(size - 1, ty),
                _ => self.g(size - 1, ty),
            };
            match &r {
                Some((g, _)) if g.free().contains(&id) || (self.empties && self.rng.chance(1, 6)) => break,
                _ => {}
            }
        }
        self.vars.pop();
        let (g, t) = r?;
        if !g.free().contains(&id) && self.rng.chance(3, 4) {
            return Some((g, t));
        }
        if !self.empties && matches!(g, G::Cat(_)) && always_needs(&g, id) {
            // never matches anything
            return None;
        }
        Some((G::Fix(Box::new(G::Lam(vec![id], Box::new(g)))), t))
    }
    /// A base case and a recursive case.
    fn rec_alt(&mut self, size: usize, id: usize, c: T) -> Option<(G, T)> {
        let v = bits(c.first);
        if v.is_empty() || (v.len() < 2 && !c.null) {
            return None;
        }
        let (base, tb, rest) = if c.null && (v.len() < 2 || self.rng.chance(1, 2)) {
            (
                G::Eps,
                T {
                    null: true,
                    ..T::default()
                },
                c.first,
            )
        } else {
            let one = 1u64 << *self.rng.pick(&v);
            let (g, t) = self.g(
                size / 2,
                T {
                    null: false,
                    first: one,
                    flast: c.flast,
                },
            )?;
            (g, t, c.first & !one)
        };
        // item . x . tail
        let (head, th) = self.g(
            size / 3 + 1,
            T {
                null: false,
                first: rest,
                flast: self.all & !c.first,
            },
        )?;
        let mut t = th;
        let mut parts = vec![head];
        t = t.then(c);
        parts.push(G::Var(id));
        if self.rng.chance(1, 2) || !t.fits(T { null: false, first: rest, flast: c.flast }) {
            let saved: Vec<bool> = self.vars.iter().map(|v| v.free).collect();
            for v in self.vars.iter_mut() {
                v.free = true;
            }
            let r = self.g(
                size / 3 + 1,
                T {
                    null: false,
                    first: self.all & !t.flast,
                    flast: c.flast,
                },
            );
            for (v, f) in self.vars.iter_mut().zip(saved) {
                v.free = f;
            }
            let (g, u) = r?;
            parts.push(g);
            t = t.then(u);
        }
        if !t.fits(T { null: false, first: rest, flast: c.flast }) {
            return None;
        }
        let rec = self.maybe_label(G::Cat(parts));
        let base = self.maybe_label(base);
        let v = if self.rng.chance(1, 2) { vec![base, rec] } else { vec![rec, base] };
        Some((G::Alt(v), tb.or(t)))
    }
    /// A near copy of something made before.
    fn reuse(&mut self, c: T) -> Option<(G, T)> {
        let mut g = self.rng.pick(&self.pool).clone();
        if g.size() < 2 {
            return None;
        }
        // rename its own binders
        let mut b = HashSet::new();
        g.bound(&mut b);
        let mut m: HashMap<usize, usize> = HashMap::new();
        let mut b: Vec<usize> = b.into_iter().collect();
        b.sort_unstable();
        for i in b {
            m.insert(i, self.fresh());
        }
        let ids: Vec<usize> = self.vars.iter().map(|v| v.id).collect();
        for f in g.free() {
            if ids.is_empty() {
                return None;
            }
            // often another variable than the original's
            let to = if ids.contains(&f) && self.rng.chance(1, 3) { f } else { *self.rng.pick(&ids) };
            m.insert(f, to);
        }
        g.map_vars(&|i| m.get(&i).copied().unwrap_or(i));
        if self.rng.chance(1, 4) {
            // a small change somewhere
            let mut ps = vec![];
            all_paths(&g, &mut vec![], &mut ps);
            let p = self.rng.pick(&ps).clone();
            let a = *self.rng.pick(&self.alpha);
            match g.at_mut(&p) {
                G::Lit(s) => s.push(a),
                G::Cat(v) if v.len() > 2 => {
                    v.pop();
                }
                G::Alt(v) => v.reverse(),
                G::Label(_, b) => *g.at_mut(&p) = (**b).clone(),
                _ => {}
            }
        }
        let mut env: Vec<(usize, T, bool)> = self.vars.iter().map(|v| (v.id, v.ty, v.free)).collect();
        let alpha = self.alpha.clone();
        let t = check(&g, &mut env, &alpha)?;
        if t.fits(c) {
            Some((g, t))
        } else {
            None
        }
    }
}

/// Whether every string of `g` needs the variable (so its fixed point is empty).
fn always_needs(g: &G, id: usize) -> bool {
    match g {
        G::Var(i) => *i == id,
        G::Cat(v) => v.iter().any(|x| always_needs(x, id)),
        G::Alt(v) => v.iter().all(|x| always_needs(x, id)),
        G::Fix(b) | G::Lam(_, b) | G::Label(_, b) => always_needs(b, id),
        _ => false,
    }
}

fn all_paths(g: &G, p: &mut Vec<usize>, o: &mut Vec<Vec<usize>>) {
    o.push(p.clone());
    for (i, k) in g.kids().into_iter().enumerate() {
        p.push(i);
        all_paths(k, p, o);
        p.pop();
    }
}

/// Full check of a first-order tree; fixed points by iteration.
fn check(g: &G, env: &mut Vec<(usize, T, bool)>, alpha: &[char]) -> Option<T> {
    match g {
        G::Eps => Some(T {
            null: true,
            ..T::default()
        }),
        G::Lit(s) => Some(match s.chars().next() {
            None => T {
                null: true,
                ..T::default()
            },
            Some(c) => T {
                null: false,
                first: 1 << alpha.iter().position(|x| *x == c)?,
                flast: 0,
            },
        }),
        G::Label(_, b) => check(b, env, alpha),
        G::Var(i) => env.iter().find(|v| v.0 == *i && v.2).map(|v| v.1),
        G::Alt(v) => {
            let mut t = check(&v[0], env, alpha)?;
            for x in &v[1..] {
                let u = check(x, env, alpha)?;
                if t.null && u.null || t.first & u.first != 0 {
                    return None;
                }
                t = t.or(u);
            }
            Some(t)
        }
        G::Cat(v) => {
            let mut t = check(&v[0], env, alpha)?;
            if t.null {
                return None;
            }
            let saved: Vec<bool> = env.iter().map(|v| v.2).collect();
            for e in env.iter_mut() {
                e.2 = true
            }
            let mut ok = true;
            for x in &v[1..] {
                match check(x, env, alpha) {
                    Some(u) if t.flast & u.first == 0 => t = t.then(u),
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            for (e, s) in env.iter_mut().zip(saved) {
                e.2 = s
            }
            if ok {
                Some(t)
            } else {
                None
            }
        }
        G::Fix(b) => match &**b {
            G::Lam(ps, body) if ps.len() == 1 => {
                let mut t = T::default();
                loop {
                    env.push((ps[0], t, false));
                    let u = check(body, env, alpha);
                    env.pop();
                    let u = u?;
                    if u == t {
                        return Some(t);
                    }
                    t = u;
                }
            }
            _ => None,
        },
        _ => None,
    }
}

// ---------------------------------------------------------------- names

#[derive(Clone, Debug)]
pub struct NamePool {
    pub binders: Vec<String>,
    /// Additional names only lets and labels may have.
    pub any: Vec<String>,
    pub labels: Vec<String>,
}

const PLAIN: &[&str] = &["a", "b", "c", "x", "y", "f", "g", "opt", "list", "item", "rec", "s"];
const NASTY: &[&str] = &[
    "x1", "x_1", "x11", "X", "X1", "_x", "x_", "x__1", "fooBar", "foo_bar", "FooBar", "FOO_BAR", "foo__bar", "part", "part1",
    "part2", "Part", "branch", "Branch", "branch1", "Branch1", "Branch2", "lit", "lit1", "Lit1", "Lit2", "cat", "Cat1",
    "cat2", "alt", "Alt1", "alt2", "fix", "Fix1", "fix2", "epsilon", "Epsilon", "ast", "Ast", "Ast1", "__", "___", "_1",
    "_9", "a__b", "é", "É", "ñandú", "Ω", "日本", "日", "ß", "ǆ", "u", "i", "str", "char", "bool", "parse", "Parse",
    "Parser", "take", "TakeError", "input", "Self_", "inner", "fmt", "string", "Ok", "ok", "Err", "some", "Some", "none",
    "None", "Box", "box_", "vec", "A1", "a1", "a10", "a_10", "r#type", "r#fn", "r#match", "macro_rules", "union", "auto",
    "default", "dyn_", "async_", "r#async", "r#try", "main", "std", "core", "chewed", "Chewed", "x2y", "x_2y", "X2Y", "c",
    "C", "dump", "x1y2", "Z9", "write", "ident", "Iter", "LineCol", "result", "Result",
];
const KEYWORDS: &[&str] = &[
    "self", "Self", "super", "crate", "fn", "type", "struct", "enum", "impl", "match", "let", "mut", "ref", "where", "loop",
    "async", "await", "dyn", "try", "abstract", "yield", "true", "false", "pub", "mod", "use", "as", "in", "box", "static",
    "macro", "override", "priv", "typeof", "unsized", "virtual", "extern", "for", "if", "else", "return", "unsafe", "move",
];

/// Any identifier of ASCII letters, digits and underscores.
fn any_ident(rng: &mut Rng) -> String {
    const FIRST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
    const REST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
    loop {
        let mut s = String::from(char::from(*rng.pick(FIRST)));
        for _ in 0..rng.below(5) {
            s.push(char::from(*rng.pick(REST)))
        }
        if crate::dict::named(&s) {
            return s;
        }
    }
}

/// Names that differ in one place only, which may come late.
fn kin(rng: &mut Rng) -> Vec<String> {
    let n = *rng.pick(&[3usize, 8, 9, 15, 16, 17, 24, 31, 33, 40, 64, 65, 80, 130]);
    let letters = "abcdefghijklmnopqrstuvwxyz";
    let mut base: String = (0..n).map(|_| rng.pick(letters.as_bytes()).to_owned() as char).collect();
    base.insert(0, 'w');
    let mut v = vec![];
    for _ in 0..rng.range(2, 6) {
        let at = match rng.below(4) {
            0 => 0,
            1 => rng.below(n + 1),
            _ => n,
        };
        let mut c: Vec<char> = base.chars().collect();
        match rng.below(5) {
            0 => {
                c.remove(at);
            }
            1 => c.insert(at + 1, *rng.pick(&['1', 'a', 'Z', '_'])),
            _ => c[at] = *rng.pick(&['a', 'b', 'c', 'X', 'Y']),
        }
        v.push(c.into_iter().collect())
    }
    v.push(base);
    v
}

/// A name that ends in a number: past the edges of the machine words, with
/// zeros in front, or in digits of another script.
fn numbered(rng: &mut Rng) -> String {
    const STEMS: &[&str] = &["a", "x", "x_", "_", "Ab", "item", "branch", "part", "Lit", "foo_bar", "é"];
    const ENDS: &[&str] = &[
        "0", "00", "01", "007", "9", "99", "127", "128", "255", "256", "999", "1000", "32768", "65535", "65536", "99999",
        "000000", "2147483647", "2147483648", "4294967295", "4294967296", "9999999999", "9223372036854775808",
        "18446744073709551615", "18446744073709551616", "99999999999999999999", "340282366920938463463374607431768211456",
        "٣", "٣٣٣٣", "१२३४", "1٣", "99999999999_9",
    ];
    loop {
        let s = format!("{}{}", rng.pick(STEMS), rng.pick(ENDS));
        if syn::parse_str::<syn::Ident>(&s).is_ok() {
            return s;
        }
    }
}

impl NamePool {
    pub fn plain(rng: &mut Rng) -> NamePool {
        let n = rng.range(2, 7);
        let mut v: Vec<String> = (0..n).map(|_| (*rng.pick(PLAIN)).to_owned()).collect();
        if dict().now(rng, 20, 'n') {
            v.push(dict().name(rng));
        }
        if rng.chance(1, 10) {
            v.push(any_ident(rng))
        }
        if rng.chance(1, 20) {
            v = kin(rng)
        }
        v.sort();
        v.dedup();
        NamePool {
            labels: v.clone(),
            binders: v,
            any: vec![],
        }
    }
    pub fn nasty(rng: &mut Rng) -> NamePool {
        let mut p = NamePool::plain(rng);
        for _ in 0..rng.range(1, 6) {
            p.binders.push((*rng.pick(NASTY)).to_owned());
        }
        if dict().now(rng, 3, 'n') {
            p.binders.push(dict().name(rng));
        }
        // families that fall together after a change of case
        if rng.chance(1, 3) {
            let fams: &[&[&str]] = &[
                &["x1", "x_1", "X1", "x", "X", "_x", "x_"],
                &["foo_bar", "fooBar", "FooBar", "FOO_BAR", "foo__bar", "foo_bar1"],
                &["part", "part1", "part2", "Part", "p"],
                &["branch", "Branch1", "Branch2", "branch_2", "Branch"],
                &["lit", "Lit1", "cat", "Cat2", "alt", "Alt3", "fix", "Fix1"],
                &["_1", "_2", "__", "___", "__1"],
                &["a", "a1", "a11", "a1_1", "A", "a_1"],
                &["é", "É", "e"],
            ];
            p.binders = rng.pick(fams).iter().map(|s| (*s).to_owned()).collect();
        }
        if rng.chance(1, 3) {
            for _ in 0..rng.range(1, 3) {
                p.binders.push(numbered(rng));
            }
        }
        p.labels = p.binders.clone();
        for _ in 0..rng.below(4) {
            let k = (*rng.pick(KEYWORDS)).to_owned();
            p.any.push(k.clone());
            p.labels.push(k);
        }
        if rng.chance(1, 6) {
            p.labels.push("_".into());
        }
        p
    }
    /// Names both front ends read.
    pub fn shared(rng: &mut Rng) -> NamePool {
        let all = &[
            "a", "b", "c", "x", "y", "f", "opt", "list", "x1", "x_1", "X", "fooBar", "Foo_bar", "part", "Branch", "Ast", "ast",
            "matchx", "letter", "Lit1", "z_", "a__b", "mat", "le", "lets", "matches", "q9_",
        ];
        let n = rng.range(2, 7);
        let mut v: Vec<String> = (0..n).map(|_| (*rng.pick(all)).to_owned()).collect();
        if rng.chance(1, 20) {
            v = kin(rng)
        }
        if rng.chance(1, 3) {
            // the self-hosted front end has no names with an underscore in front
            v.push(format!("{}{}", rng.pick(&["k", "Q", "w", "J"]), any_ident(rng)));
            let n = any_ident(rng);
            if !n.starts_with('_') {
                v.push(n)
            }
        }
        if dict().now(rng, 20, 'n') {
            let n = dict().name(rng);
            if !n.starts_with("r#") && !n.starts_with('_') {
                v.push(n)
            }
        }
        v.sort();
        v.dedup();
        NamePool {
            labels: v.clone(),
            binders: v,
            any: vec![],
        }
    }
    fn label(&self, rng: &mut Rng) -> String {
        rng.pick(&self.labels).clone()
    }
}

fn plain_name(s: &str) -> &str {
    s.strip_prefix("r#").unwrap_or(s)
}

/// Picks spellings for binders so that every reference still finds its own binder.
struct Namer<'r> {
    rng: &'r mut Rng,
    pool: NamePool,
    fresh: usize,
    names: HashMap<usize, String>,
}

impl Namer<'_> {
    /// `others`: binders that must stay visible where the new one is in scope.
    fn choose(&mut self, id: usize, others: &BTreeSet<usize>, is_let: bool) {
        let taken: Vec<String> = others
            .iter()
            .filter(|o| **o != id)
            .filter_map(|o| self.names.get(o))
            .map(|s| plain_name(s).to_owned())
            .collect();
        for _ in 0..12 {
            let c = if is_let && !self.pool.any.is_empty() && self.rng.chance(1, 3) {
                self.rng.pick(&self.pool.any).clone()
            } else {
                self.rng.pick(&self.pool.binders).clone()
            };
            if !taken.iter().any(|t| t == plain_name(&c)) {
                self.names.insert(id, c);
                return;
            }
        }
        loop {
            self.fresh += 1;
            let c = format!("v{}", self.fresh);
            if !taken.contains(&c) {
                self.names.insert(id, c);
                return;
            }
        }
    }
    fn id(&self, i: usize) -> Id {
        Id::new(self.names.get(&i).map_or("undeclared", |s| s))
    }
    /// The spelling of a reference: sometimes raw for no reason is avoided, plain keywords are kept.
    fn params(&mut self, ps: &[usize], body: &G) -> Vec<Id> {
        let free = body.free();
        for (k, p) in ps.iter().enumerate() {
            // binders used in the body must not be hidden: earlier parameters and outer ones
            let mut others = free.clone();
            for q in &ps[k + 1..] {
                others.remove(q);
            }
            if !free.contains(p) && false {
                others.clear();
            }
            self.choose(*p, &others, false);
        }
        ps.iter().map(|p| self.id(*p)).collect()
    }
    fn expr(&mut self, g: &G) -> Expr {
        match g {
            G::Lam(ps, b) => {
                let params = self.params(ps, b);
                Expr::Lambda(Lambda {
                    params,
                    body: self.alt(b),
                })
            }
            _ => Expr::Alt(self.alt(g)),
        }
    }
    fn alt(&mut self, g: &G) -> Alt {
        match g {
            G::Alt(v) if v.len() > 1 => Alt {
                terms: v.iter().map(|x| self.labelled(x)).collect(),
                bars: vec![Loc::default(); v.len() - 1],
            },
            _ => Alt::one(self.labelled(g)),
        }
    }
    fn labelled(&mut self, g: &G) -> Labelled {
        match g {
            G::Label(l, b) => Labelled {
                cat: self.cat(b),
                label: Some(Id::new(l)),
            },
            _ => Labelled {
                cat: self.cat(g),
                label: None,
            },
        }
    }
    fn cat(&mut self, g: &G) -> Cat {
        match g {
            G::Cat(v) if v.len() > 1 => Cat {
                calls: v.iter().map(|x| self.call(x)).collect(),
                dots: vec![Loc::default(); v.len() - 1],
            },
            _ => Cat {
                calls: vec![self.call(g)],
                dots: vec![],
            },
        }
    }
    fn call(&mut self, g: &G) -> Call {
        match g {
            G::App(f, a) if !a.is_empty() => {
                let mut terms = vec![self.term(f)];
                for x in a {
                    terms.push(self.term(x));
                }
                Call { terms }
            }
            _ => Call {
                terms: vec![self.term(g)],
            },
        }
    }
    fn term(&mut self, g: &G) -> Term {
        let d = Loc::default();
        if self.rng.chance(1, 40) {
            return Term::Paren(d, Box::new(self.expr(g)));
        }
        match g {
            G::Eps => Term::Eps(d),
            G::Lit(s) => Term::Lit(s.clone(), d),
            G::Var(i) => Term::Ident(self.id(*i)),
            G::Fix(b) => Term::Fix(d, Box::new(self.term(b))),
            _ => Term::Paren(d, Box::new(self.expr(g))),
        }
    }
}

/// Gives names to a tree program.
pub fn name(gp: &GP, pool: NamePool, rng: &mut Rng) -> Program {
    let mut n = Namer {
        rng,
        pool,
        fresh: 0,
        names: HashMap::new(),
    };
    // free variables of everything after each let
    let k = gp.lets.len();
    let mut after: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); k + 1];
    after[k] = gp.goal.free();
    for i in (0..k).rev() {
        let mut s = after[i + 1].clone();
        s.extend(gp.lets[i].1.free());
        after[i] = s;
    }
    let mut lets = vec![];
    for (i, (id, g)) in gp.lets.iter().enumerate() {
        let sugar = matches!(g, G::Lam(..)) && n.rng.chance(3, 4);
        let (params, body) = match g {
            G::Lam(ps, b) if sugar => {
                let ps = n.params(ps, b);
                (ps, n.expr(b))
            }
            _ => (vec![], n.expr(g)),
        };
        n.choose(*id, &after[i + 1], true);
        lets.push(LetStmt {
            name: n.id(*id),
            params,
            body,
        });
    }
    let goal = n.expr(&gp.goal);
    Program { lets, goal }
}

// ---------------------------------------------------------------- rewriting with functions and lets

pub struct Wrap<'r> {
    pub rng: &'r mut Rng,
    pub next: usize,
    pub stars: HashSet<usize>,
    pub names: NamePool,
}

impl Wrap<'_> {
    fn fresh(&mut self, star: bool) -> usize {
        self.next += 1;
        if star {
            self.stars.insert(self.next);
        }
        self.next
    }
    fn collect_stars(&mut self, g: &G) {
        if let G::Fix(b) = g {
            if let G::Lam(ps, _) = &**b {
                self.stars.extend(ps);
            }
        }
        for k in g.kids() {
            self.collect_stars(k)
        }
    }
    fn let_ids(&self, gp: &GP) -> HashSet<usize> {
        gp.lets.iter().map(|l| l.0).collect()
    }
    /// Up to `max` disjoint star sub-paths of `s`, whose variables are not bound inside `s`.
    fn cut(&mut self, s: &G, max: usize) -> Vec<Vec<usize>> {
        let mut inner = HashSet::new();
        s.bound(&mut inner);
        let mut ps: Vec<Vec<usize>> = star_paths(s, &self.stars)
            .into_iter()
            .filter(|p| !p.is_empty() && s.at(p).free().iter().all(|v| !inner.contains(v)))
            .collect();
        self.rng.shuffle(&mut ps);
        let mut out: Vec<Vec<usize>> = vec![];
        for p in ps {
            if out.len() >= max {
                break;
            }
            if out.iter().all(|q| !q.starts_with(&p) && !p.starts_with(q)) {
                out.push(p);
            }
        }
        out
    }
    /// Turns the cuts into parameters.
    fn abstracted(&mut self, s: &G, cuts: &[Vec<usize>]) -> (Vec<usize>, G, Vec<G>) {
        let mut body = s.clone();
        let mut ps: Vec<usize> = vec![];
        let mut args: Vec<G> = vec![];
        for c in cuts {
            let sub = s.at(c).clone();
            // equal closed parts share a parameter
            if let Some(i) = args.iter().position(|a| *a == sub) {
                *body.at_mut(c) = G::Var(ps[i]);
                continue;
            }
            let p = self.fresh(true);
            *body.at_mut(c) = G::Var(p);
            ps.push(p);
            args.push(sub);
        }
        (ps, body, args)
    }
    fn junk(&mut self, depth: usize) -> G {
        match self.rng.below(if depth == 0 { 3 } else { 8 }) {
            0 => G::Eps,
            1 => G::Lit("a".into()),
            2 => G::Lit("b".into()),
            3 => G::Alt(vec![self.junk(depth - 1), self.junk(depth - 1)]),
            4 => G::Cat(vec![self.junk(depth - 1), self.junk(depth - 1)]),
            5 => {
                let x = self.fresh(true);
                G::Fix(Box::new(G::Lam(vec![x], Box::new(G::Var(x)))))
            }
            // a call that would be an error if it were made
            6 => G::App(Box::new(self.junk(depth - 1)), vec![self.junk(depth - 1)]),
            _ => {
                let x = self.fresh(true);
                let y = self.fresh(true);
                G::App(
                    Box::new(G::Lam(vec![x, y], Box::new(G::Var(x)))),
                    vec![self.junk(depth - 1)],
                )
            }
        }
    }
    /// One random rewriting of the goal or a let that keeps the meaning.
    pub fn step(&mut self, gp: &mut GP) {
        let k = self.rng.below(gp.lets.len() + 2);
        let at = if k < gp.lets.len() { Some(k) } else { None };
        let whole = match at {
            Some(i) => gp.lets[i].1.clone(),
            None => gp.goal.clone(),
        };
        let paths = star_paths(&whole, &self.stars);
        if paths.is_empty() {
            return;
        }
        let mut p = self.rng.pick(&paths).clone();
        // favour bigger parts
        if whole.at(&p).size() < 3 {
            p = self.rng.pick(&paths).clone();
        }
        let s = whole.at(&p).clone();
        if s.size() > 150 {
            return;
        }
        let lets = self.let_ids(gp);
        let new: G = match self.rng.below(12) {
            0 | 1 => {
                // let
                if s.free().iter().any(|v| !lets.contains(v)) || s.size() < 2 {
                    return;
                }
                let id = self.fresh(true);
                let pos = at.unwrap_or(gp.lets.len());
                gp.lets.insert(pos, (id, s.clone()));
                let v = G::Var(id);
                let at = at.map(|i| i + 1);
                let mut w = whole.clone();
                replace_equal(&mut w, &s, &v);
                match at {
                    Some(i) => gp.lets[i].1 = w,
                    None => gp.goal = w,
                }
                return;
            }
            2 | 3 => {
                // function
                if s.size() < 3 {
                    return;
                }
                let n = self.rng.range(1, 3);
                let cuts = self.cut(&s, n);
                let (mut ps, mut body, mut args) = self.abstracted(&s, &cuts);
                let mut inner = HashSet::new();
                body.bound(&mut inner);
                for v in body.free() {
                    if lets.contains(&v) || ps.contains(&v) {
                        continue;
                    }
                    let star = self.stars.contains(&v);
                    let q = self.fresh(star);
                    body.map_vars(&|i| if i == v { q } else { i });
                    ps.push(q);
                    args.push(G::Var(v));
                }
                if ps.is_empty() {
                    return;
                }
                if self.rng.chance(1, 2) {
                    let mut ix: Vec<usize> = (0..ps.len()).collect();
                    self.rng.shuffle(&mut ix);
                    ps = ix.iter().map(|i| ps[*i]).collect();
                    args = ix.iter().map(|i| args[*i].clone()).collect();
                }
                let id = self.fresh(false);
                let pos = at.unwrap_or(gp.lets.len());
                gp.lets.insert(pos, (id, G::Lam(ps, Box::new(body))));
                let at = at.map(|i| i + 1);
                let new = G::App(Box::new(G::Var(id)), args);
                match at {
                    Some(i) => *gp.lets[i].1.at_mut(&p) = new,
                    None => *gp.goal.at_mut(&p) = new,
                }
                return;
            }
            4 | 5 => {
                // call in place
                let n = self.rng.range(1, 4);
                let cuts = self.cut(&s, n);
                let (ps, body, args) = self.abstracted(&s, &cuts);
                if ps.is_empty() {
                    return;
                }
                G::App(Box::new(G::Lam(ps, Box::new(body))), args)
            }
            6 => {
                // ignored arguments
                let a = self.fresh(true);
                let b = self.fresh(true);
                let j = self.junk(2);
                if self.rng.chance(1, 2) {
                    G::App(Box::new(G::Lam(vec![a, b], Box::new(G::Var(a)))), vec![s, j])
                } else {
                    G::App(Box::new(G::Lam(vec![b, a], Box::new(G::Var(a)))), vec![j, s])
                }
            }
            7 => {
                // function handed to a function
                let cuts = self.cut(&s, 1);
                let (ps, body, args) = self.abstracted(&s, &cuts);
                if ps.is_empty() {
                    return;
                }
                let f = self.fresh(false);
                let x = self.fresh(true);
                let mut all = vec![G::Lam(ps, Box::new(body))];
                all.extend(args);
                G::App(
                    Box::new(G::Lam(
                        vec![f, x],
                        Box::new(G::App(Box::new(G::Var(f)), vec![G::Var(x)])),
                    )),
                    all,
                )
            }
            8 => {
                // one argument at a time
                let cuts = self.cut(&s, 2);
                let (ps, body, args) = self.abstracted(&s, &cuts);
                if ps.len() != 2 {
                    return;
                }
                G::App(
                    Box::new(G::App(
                        Box::new(G::Lam(vec![ps[0]], Box::new(G::Lam(vec![ps[1]], Box::new(body))))),
                        vec![args[0].clone()],
                    )),
                    vec![args[1].clone()],
                )
            }
            9 => {
                // fixed point of a named function
                match &s {
                    G::Fix(b) if matches!(&**b, G::Lam(..)) => {
                        let f = self.fresh(false);
                        G::App(
                            Box::new(G::Lam(vec![f], Box::new(G::Fix(Box::new(G::Var(f)))))),
                            vec![(**b).clone()],
                        )
                    }
                    _ => return,
                }
            }
            10 => {
                // repetition by a number: n s (/r/ r)
                let z = self.fresh(true);
                let f = self.fresh(false);
                let r = self.fresh(true);
                let zero = G::Lam(vec![z, f], Box::new(G::Var(z)));
                let mut n = zero;
                for _ in 0..self.rng.below(3) {
                    let z = self.fresh(true);
                    let f = self.fresh(false);
                    n = G::Lam(
                        vec![z, f],
                        Box::new(G::App(
                            Box::new(G::Var(f)),
                            vec![G::App(Box::new(n), vec![G::Var(z), G::Var(f)])],
                        )),
                    );
                }
                G::App(Box::new(n), vec![s, G::Lam(vec![r], Box::new(G::Var(r)))])
            }
            _ => {
                // the function under another name
                let i = self.fresh(false);
                let z = self.fresh(true);
                G::App(
                    Box::new(G::Lam(vec![i], Box::new(G::App(Box::new(G::Var(i)), vec![s])))),
                    vec![G::Lam(vec![z], Box::new(G::Var(z)))],
                )
            }
        };
        match at {
            Some(i) => *gp.lets[i].1.at_mut(&p) = new,
            None => *gp.goal.at_mut(&p) = new,
        }
    }
    /// Optional parts and repetitions through library functions.
    pub fn sugar(&mut self, gp: &mut GP) {
        fn rewrite(g: &mut G, opt: usize, plus: usize, used: &mut (bool, bool), rng: &mut Rng) {
            for k in g.kids_mut() {
                rewrite(k, opt, plus, used, rng)
            }
            if rng.chance(1, 4) {
                return;
            }
            let new = match &*g {
                G::Alt(v) if v.len() == 2 && v[0] == G::Eps => {
                    used.0 = true;
                    Some(G::App(Box::new(G::Var(opt)), vec![v[1].clone()]))
                }
                G::Fix(b) => match &**b {
                    G::Lam(ps, c) if ps.len() == 1 => match &**c {
                        G::Cat(v) if v.len() == 2 && !v[0].free().contains(&ps[0]) => {
                            let rec = G::Var(ps[0]);
                            let is = match &v[1] {
                                G::Alt(a) => a.len() == 2 && a[0] == G::Eps && a[1] == rec,
                                G::App(f, a) => **f == G::Var(opt) && a[..] == [rec],
                                _ => false,
                            };
                            if is {
                                used.1 = true;
                                Some(G::App(Box::new(G::Var(plus)), vec![v[0].clone()]))
                            } else {
                                None
                            }
                        }
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            };
            if let Some(n) = new {
                *g = n
            }
        }
        let opt = self.fresh(false);
        let plus = self.fresh(false);
        let mut used = (false, false);
        rewrite(&mut gp.goal, opt, plus, &mut used, self.rng);
        let s = self.fresh(true);
        let (i, p) = (self.fresh(true), self.fresh(true));
        let mut lib = vec![];
        if used.0 || used.1 {
            let mut none = G::Eps;
            if self.rng.chance(1, 2) {
                let l = self.names.label(self.rng);
                none = G::Label(l, Box::new(G::Eps));
            }
            lib.push((opt, G::Lam(vec![s], Box::new(G::Alt(vec![none, G::Var(s)])))));
        }
        if used.1 {
            lib.push((
                plus,
                G::Lam(
                    vec![i],
                    Box::new(G::Fix(Box::new(G::Lam(
                        vec![p],
                        Box::new(G::Cat(vec![
                            G::Var(i),
                            G::App(Box::new(G::Var(opt)), vec![G::Var(p)]),
                        ])),
                    )))),
                ),
            ));
        }
        gp.lets.splice(0..0, lib);
    }
    pub fn label_some(&mut self, gp: &mut GP, n: usize) {
        for _ in 0..n {
            let k = self.rng.below(gp.lets.len() + 2);
            let l = self.names.label(self.rng);
            let g = if k < gp.lets.len() { &mut gp.lets[k].1 } else { &mut gp.goal };
            let ps = star_paths(g, &self.stars);
            if ps.is_empty() {
                continue;
            }
            let p = self.rng.pick(&ps).clone();
            let old = g.at(&p).clone();
            let old = if self.rng.chance(1, 8) { G::Label(self.names.label(self.rng), Box::new(old)) } else { old };
            *g.at_mut(&p) = G::Label(l, Box::new(old));
        }
    }
}

fn replace_equal(g: &mut G, old: &G, new: &G) {
    if g == old {
        *g = new.clone();
        return;
    }
    for k in g.kids_mut() {
        replace_equal(k, old, new)
    }
}

// ---------------------------------------------------------------- alphabets and profiles

const SPECIAL: &[char] = &[
    '"', '\\', '\'', '{', '}', '\n', '\r', '\t', '\0', ' ', '#', 'é', 'ß', '€', '日', '\u{1F600}', '\u{10FFFF}', '\u{85}',
    '\u{2028}', '\u{202e}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{301}', '\u{feff}', '%',
    '$', '\u{b}', '\u{c}', '\u{1}', '\u{d7ff}', '\u{e000}',
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Chars {
    Plain,
    Mixed,
    Ascii,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum NamesKind {
    Plain,
    Nasty,
    Shared,
}

#[derive(Clone, Copy, Debug)]
pub struct Profile {
    pub chars: Chars,
    pub names: NamesKind,
    /// Rewriting steps.
    pub wraps: usize,
    pub labels: usize,
    pub size: usize,
    pub wide: bool,
    pub empties: bool,
}

impl Profile {
    pub fn random(rng: &mut Rng) -> Profile {
        let size = match rng.below(12) {
            0..=2 => rng.range(2, 6),
            3..=6 => rng.range(6, 14),
            7..=9 => rng.range(14, 30),
            10 => rng.range(30, 60),
            _ => rng.range(40, 90),
        };
        Profile {
            chars: if rng.chance(1, 3) { Chars::Mixed } else { Chars::Plain },
            names: if rng.chance(1, 4) { NamesKind::Nasty } else { NamesKind::Plain },
            wraps: match rng.below(4) {
                0 => 0,
                1 => rng.range(1, 2),
                2 => rng.range(2, 5),
                _ => rng.range(3, 9),
            },
            labels: rng.below(4),
            size,
            wide: rng.chance(1, 6),
            empties: rng.chance(1, 8),
        }
    }
}

/// A character that a shorter representation could confuse with another.
pub fn alias(rng: &mut Rng, c: char) -> char {
    let by = *rng.pick(&[1i64, 0x20, 0x40, 0x80, 0xff, 0x100, 0x101, 0x100, 0x200, 0x400, 0x800, 0x1000, 0x8000, 0xffff, 0x1_0000, 0x1_0001, 0x1_0000, 0x2_0000, 0x10_0000]);
    let by = if rng.chance(1, 4) { -by } else { by };
    let n = i64::from(u32::from(c)) + by;
    if n < 0 {
        return c;
    }
    std::char::from_u32(n as u32).unwrap_or(c)
}

pub fn alphabet(rng: &mut Rng, k: Chars, wide: bool) -> Vec<char> {
    let n = if wide { rng.range(8, 26) } else { rng.range(2, 8) };
    let mut v: Vec<char> = match k {
        Chars::Plain => "abcdefghijklmnopqrstuvwxyz0123456789".chars().take(n).collect(),
        Chars::Ascii => {
            let mut v: Vec<char> = (0..n).map(|_| char::from(rng.below(0x80) as u8)).collect();
            v.push('a');
            v
        }
        Chars::Mixed => {
            let mut v: Vec<char> = "abcdefghijklmnopqrstuvwxyz".chars().take(n / 2 + 1).collect();
            while v.len() < n {
                if rng.chance(1, 8) {
                    let c = std::char::from_u32(rng.below(0x110000) as u32).unwrap_or('z');
                    v.push(c)
                } else if dict().now(rng, 6, 'c') {
                    v.push(dict().char(rng))
                } else if rng.chance(1, 5) {
                    let c = *rng.pick(&v);
                    v.push(alias(rng, c))
                } else {
                    v.push(*rng.pick(SPECIAL))
                }
            }
            v
        }
    };
    v.sort_unstable();
    v.dedup();
    rng.shuffle(&mut v);
    v.truncate(60);
    v
}

pub fn pool(rng: &mut Rng, k: NamesKind) -> NamePool {
    match k {
        NamesKind::Plain => NamePool::plain(rng),
        NamesKind::Nasty => NamePool::nasty(rng),
        NamesKind::Shared => NamePool::shared(rng),
    }
}

/// A program meeting the typing discipline.
pub fn good_tree(rng: &mut Rng, pr: Profile) -> (GP, NamePool) {
    let alpha = alphabet(rng, pr.chars, pr.wide);
    let names = pool(rng, pr.names);
    let all = if alpha.len() == 64 { !0 } else { (1u64 << alpha.len()) - 1 };
    let mut t = Typed {
        rng,
        all,
        alpha,
        next: 0,
        vars: vec![],
        pool: vec![],
        wide: pr.wide,
        longlit: true,
        empties: pr.empties,
        labels: pr.labels,
        names: names.clone(),
    };
    let null = t.rng.chance(1, 3);
    let c = T {
        null,
        first: all,
        flast: all,
    };
    // Roots that are fixed points or choices are the interesting ones.
    let mut g = None;
    for _ in 0..4 {
        let r = match t.rng.below(5) {
            0 => t.cat(pr.size.max(2), c),
            1 => t.alt(pr.size.max(2), c),
            2 => t.fix(pr.size.max(2), c),
            _ => t.g(pr.size, c),
        };
        if let Some((x, _)) = r {
            let big = x.size() * 3 >= pr.size;
            g = Some(x);
            if big {
                break;
            }
        }
    }
    let g = g.unwrap_or_else(|| G::Lit("a".into()));
    let next = t.next;
    let mut gp = GP { lets: vec![], goal: g };
    let mut w = Wrap {
        rng,
        next,
        stars: HashSet::new(),
        names: names.clone(),
    };
    let goal = gp.goal.clone();
    w.collect_stars(&goal);
    if w.rng.chance(1, 3) {
        w.sugar(&mut gp);
    }
    for _ in 0..pr.wraps {
        w.step(&mut gp);
    }
    if pr.labels > 0 {
        let n = w.rng.below(4);
        w.label_some(&mut gp, n);
    }
    // an unused let now and then, possibly misusing things
    if w.rng.chance(1, 8) {
        let j = w.junk(2);
        let id = w.fresh(true);
        let at = w.rng.below(gp.lets.len() + 1);
        gp.lets.insert(at, (id, j));
    }
    (gp, names)
}

pub fn good(rng: &mut Rng, pr: Profile) -> Program {
    let (gp, names) = good_tree(rng, pr);
    name(&gp, names, rng)
}

// ---------------------------------------------------------------- (B) kinded programs of higher order

#[derive(Clone, Debug, PartialEq)]
enum Kd {
    S,
    F(Vec<Kd>, Box<Kd>),
}

struct Ho<'r> {
    rng: &'r mut Rng,
    next: usize,
    env: Vec<(usize, Kd)>,
    labels: usize,
    names: NamePool,
    budget: isize,
}

impl Ho<'_> {
    fn fresh(&mut self) -> usize {
        self.next += 1;
        self.next
    }
    fn kind(&mut self, depth: usize) -> Kd {
        if depth == 0 || self.rng.chance(3, 5) {
            return Kd::S;
        }
        let n = self.rng.range(1, 3);
        let a = (0..n).map(|_| self.kind(depth - 1)).collect();
        let r = if self.rng.chance(1, 6) { self.kind(depth - 1) } else { Kd::S };
        Kd::F(a, Box::new(r))
    }
    fn fun(&mut self, depth: usize) -> Kd {
        let n = self.rng.range(1, 3);
        let a = (0..n).map(|_| self.kind(depth)).collect();
        Kd::F(a, Box::new(Kd::S))
    }
    fn var_of(&mut self, k: &Kd) -> Option<G> {
        let v: Vec<usize> = self.env.iter().filter(|e| e.1 == *k).map(|e| e.0).collect();
        if v.is_empty() {
            None
        } else {
            Some(G::Var(*self.rng.pick(&v)))
        }
    }
    fn term(&mut self, k: &Kd, size: usize) -> G {
        self.budget -= 1;
        let size = if self.budget < 0 { 0 } else { size };
        match k {
            Kd::F(a, r) => {
                if self.rng.chance(1, 2) || size == 0 {
                    if let Some(v) = self.var_of(k) {
                        return v;
                    }
                }
                // a variable whose result is this
                if size > 1 && self.rng.chance(1, 4) {
                    if let Some(g) = self.app_to(k, size) {
                        return g;
                    }
                }
                let ps: Vec<usize> = a.iter().map(|_| self.fresh()).collect();
                let n = self.env.len();
                for (p, k) in ps.iter().zip(a) {
                    self.env.push((*p, k.clone()));
                }
                let b = self.term(r, size.saturating_sub(1));
                self.env.truncate(n);
                G::Lam(ps, Box::new(b))
            }
            Kd::S => {
                if size == 0 {
                    return self.small();
                }
                match self.rng.below(12) {
                    0..=1 => self.small(),
                    2..=3 => {
                        let n = self.rng.range(2, 3);
                        G::Cat((0..n).map(|_| self.term(&Kd::S, size / n)).collect())
                    }
                    4..=5 => {
                        let n = self.rng.range(2, 3);
                        let v = (0..n)
                            .map(|_| {
                                let g = self.term(&Kd::S, size / n);
                                self.maybe_label(g)
                            })
                            .collect();
                        G::Alt(v)
                    }
                    6..=7 => G::Fix(Box::new(self.term(&Kd::F(vec![Kd::S], Box::new(Kd::S)), size - 1))),
                    _ => self.app_to(&Kd::S, size).unwrap_or_else(|| self.small()),
                }
            }
        }
    }
    fn maybe_label(&mut self, g: G) -> G {
        if self.labels > 0 && self.rng.chance(self.labels, 10) {
            let l = self.names.label(self.rng);
            G::Label(l, Box::new(g))
        } else {
            g
        }
    }
    fn app_to(&mut self, k: &Kd, size: usize) -> Option<G> {
        let fs: Vec<(usize, Vec<Kd>)> = self
            .env
            .iter()
            .filter_map(|(i, t)| match t {
                Kd::F(a, r) if **r == *k => Some((*i, a.clone())),
                _ => None,
            })
            .collect();
        let (f, a) = if !fs.is_empty() && self.rng.chance(3, 4) {
            let (i, a) = self.rng.pick(&fs).clone();
            (G::Var(i), a)
        } else {
            let a = match self.fun(1) {
                Kd::F(a, _) => a,
                Kd::S => return None,
            };
            let t = Kd::F(a.clone(), Box::new(k.clone()));
            (self.term(&t, size / 2), a)
        };
        let n = a.len();
        let args = a.iter().map(|k| self.term(k, size / (n + 1))).collect();
        Some(G::App(Box::new(f), args))
    }
    fn small(&mut self) -> G {
        if self.rng.chance(1, 2) {
            if let Some(v) = self.var_of(&Kd::S) {
                return v;
            }
        }
        match self.rng.below(6) {
            0 => G::Eps,
            _ => {
                let n = self.rng.range(1, 2);
                let s: String = (0..n).map(|_| *self.rng.pick(&['a', 'b', 'c', 'd'])).collect();
                G::Lit(s)
            }
        }
    }
}

/// A simply-kinded program: its expansion ends, but it need not be well-typed as a grammar.
pub fn higher_order_tree(rng: &mut Rng, names: NamesKind) -> (GP, NamePool) {
    let names = pool(rng, names);
    let labels = rng.below(4);
    let budget = rng.range(8, 60) as isize;
    let mut h = Ho {
        rng,
        next: 0,
        env: vec![],
        labels,
        names: names.clone(),
        budget,
    };
    let mut lets = vec![];
    for _ in 0..h.rng.below(5) {
        let k = if h.rng.chance(1, 4) { Kd::S } else { h.fun(2) };
        let size = h.rng.range(2, 8);
        let g = h.term(&k, size);
        let id = h.fresh();
        h.env.push((id, k));
        lets.push((id, g));
    }
    let size = h.rng.range(3, 12);
    h.budget = h.budget.max(10);
    let goal = h.term(&Kd::S, size);
    (GP { lets, goal }, names)
}

pub fn higher_order(rng: &mut Rng, names: NamesKind) -> Program {
    let (gp, names) = higher_order_tree(rng, names);
    name(&gp, names, rng)
}

// ---------------------------------------------------------------- (C) edits

pub fn for_terms(p: &mut Program, f: &mut dyn FnMut(&mut Term)) {
    for_calls(p, &mut |c| {
        for t in c.terms.iter_mut() {
            fn go(t: &mut Term, f: &mut dyn FnMut(&mut Term)) {
                f(t);
                if let Term::Fix(_, x) = t {
                    go(x, f)
                }
            }
            go(t, f)
        }
    })
}

pub fn for_calls(p: &mut Program, f: &mut dyn FnMut(&mut Call)) {
    for_alts(p, &mut |a| {
        for l in a.terms.iter_mut() {
            for c in l.cat.calls.iter_mut() {
                f(c)
            }
        }
    })
}

/// All alternations, outer before inner.
pub fn for_alts(p: &mut Program, f: &mut dyn FnMut(&mut Alt)) {
    fn expr(e: &mut Expr, f: &mut dyn FnMut(&mut Alt)) {
        match e {
            Expr::Alt(a) => alt(a, f),
            Expr::Lambda(l) => alt(&mut l.body, f),
        }
    }
    fn alt(a: &mut Alt, f: &mut dyn FnMut(&mut Alt)) {
        f(a);
        for l in a.terms.iter_mut() {
            for c in l.cat.calls.iter_mut() {
                for t in c.terms.iter_mut() {
                    term(t, f)
                }
            }
        }
    }
    fn term(t: &mut Term, f: &mut dyn FnMut(&mut Alt)) {
        match t {
            Term::Fix(_, t) => term(t, f),
            Term::Paren(_, e) => expr(e, f),
            _ => {}
        }
    }
    for l in p.lets.iter_mut() {
        expr(&mut l.body, f)
    }
    expr(&mut p.goal, f)
}

pub fn for_params(p: &mut Program, f: &mut dyn FnMut(&mut Vec<Id>)) {
    fn expr(e: &mut Expr, f: &mut dyn FnMut(&mut Vec<Id>)) {
        match e {
            Expr::Alt(a) => alt(a, f),
            Expr::Lambda(l) => {
                f(&mut l.params);
                alt(&mut l.body, f)
            }
        }
    }
    fn alt(a: &mut Alt, f: &mut dyn FnMut(&mut Vec<Id>)) {
        for l in a.terms.iter_mut() {
            for c in l.cat.calls.iter_mut() {
                for t in c.terms.iter_mut() {
                    term(t, f)
                }
            }
        }
    }
    fn term(t: &mut Term, f: &mut dyn FnMut(&mut Vec<Id>)) {
        match t {
            Term::Fix(_, t) => term(t, f),
            Term::Paren(_, e) => expr(e, f),
            _ => {}
        }
    }
    for l in p.lets.iter_mut() {
        f(&mut l.params);
        expr(&mut l.body, f)
    }
    expr(&mut p.goal, f)
}

fn nth<T: Clone>(count: &dyn Fn(&mut dyn FnMut(&mut T)), rng: &mut Rng) -> usize {
    let mut n = 0;
    count(&mut |_| n += 1);
    rng.below(n.max(1))
}

/// One random edit, mostly breaking something.
pub fn edit(p: &mut Program, rng: &mut Rng) {
    // all identifiers around
    let mut ids: Vec<String> = p.lets.iter().map(|l| l.name.name.clone()).collect();
    for_params(p, &mut |ps| ids.extend(ps.iter().map(|i| i.name.clone())));
    ids.push("nowhere".into());
    let mut terms: Vec<Term> = vec![];
    for_terms(p, &mut |t| {
        if !matches!(t, Term::Paren(..)) || terms.len() % 3 == 0 {
            terms.push(t.clone())
        }
    });
    let d = Loc::default();
    let q = p.clone();
    let t_at = nth(&|f: &mut dyn FnMut(&mut Term)| for_terms(&mut q.clone(), f), rng);
    let c_at = nth(&|f: &mut dyn FnMut(&mut Call)| for_calls(&mut q.clone(), f), rng);
    let a_at = nth(&|f: &mut dyn FnMut(&mut Alt)| for_alts(&mut q.clone(), f), rng);
    let p_at = nth(&|f: &mut dyn FnMut(&mut Vec<Id>)| for_params(&mut q.clone(), f), rng);
    let mut k = 0usize;
    let op = rng.below(22);
    match op {
        0..=8 => for_terms(p, &mut |t| {
            if k == t_at {
                *t = match op {
                    0 => Term::Ident(Id::new(rng.pick(&ids))),
                    1 => Term::Eps(d),
                    2 => rng.pick(&terms).clone(),
                    3 => Term::Fix(d, Box::new(t.clone())),
                    4 => match t {
                        Term::Lit(s, _) => {
                            let mut s = s.clone();
                            match rng.below(3) {
                                0 => s = rng.pick(&["a", "b", "c", "d", "", "ab"]).to_string(),
                                1 => s.insert(0, 'a'),
                                _ => {
                                    s.pop();
                                }
                            }
                            Term::Lit(s, d)
                        }
                        Term::Fix(_, x) => (**x).clone(),
                        _ => t.clone(),
                    },
                    5 => Term::Paren(
                        d,
                        Box::new(Expr::Lambda(Lambda {
                            params: {
                                let mut i = Id::new(rng.pick(&ids));
                                if syn::parse_str::<syn::Ident>(&i.name).is_err() {
                                    i = Id::new("p");
                                }
                                vec![i]
                            },
                            body: match t.clone().to_expr() {
                                Expr::Alt(a) => a,
                                Expr::Lambda(l) => l.body,
                            },
                        })),
                    ),
                    6 => Term::Ident(Id::new(rng.pick(&ids))),
                    7 => Term::Paren(
                        d,
                        Box::new(Expr::Alt(Alt {
                            terms: vec![
                                Labelled {
                                    cat: Cat {
                                        calls: vec![Call {
                                            terms: vec![Term::Eps(d)],
                                        }],
                                        dots: vec![],
                                    },
                                    label: None,
                                },
                                Labelled {
                                    cat: Cat {
                                        calls: vec![Call { terms: vec![t.clone()] }],
                                        dots: vec![],
                                    },
                                    label: None,
                                },
                            ],
                            bars: vec![d],
                        })),
                    ),
                    _ => Term::Paren(d, Box::new(t.clone().to_expr())),
                }
            }
            k += 1;
        }),
        9..=12 => for_calls(p, &mut |c| {
            if k == c_at {
                match op {
                    9 => {
                        let t = rng.pick(&terms).clone();
                        let i = rng.below(c.terms.len() + 1);
                        c.terms.insert(i, t)
                    }
                    10 => {
                        if c.terms.len() > 1 {
                            let i = rng.below(c.terms.len());
                            c.terms.remove(i);
                        }
                    }
                    11 => {
                        if c.terms.len() > 2 {
                            let i = rng.range(1, c.terms.len() - 1);
                            let j = rng.range(1, c.terms.len() - 1);
                            c.terms.swap(i, j)
                        }
                    }
                    _ => {
                        let t = rng.pick(&terms).clone();
                        c.terms.push(t)
                    }
                }
            }
            k += 1;
        }),
        13..=19 => for_alts(p, &mut |a| {
            if k == a_at {
                let n = a.terms.len();
                let i = rng.below(n);
                match op {
                    13 => {
                        // drop an alternative
                        if n > 1 {
                            a.terms.remove(i);
                            a.bars.pop();
                        }
                    }
                    14 => {
                        // copy one
                        let t = a.terms[i].clone();
                        let j = rng.below(n + 1);
                        a.terms.insert(j, t);
                        a.bars.push(d);
                    }
                    15 => a.terms.reverse(),
                    16 => {
                        // drop a part
                        let c = &mut a.terms[i].cat;
                        if c.calls.len() > 1 {
                            let j = rng.below(c.calls.len());
                            c.calls.remove(j);
                            c.dots.pop();
                        }
                    }
                    17 => {
                        // add a part
                        let c = &mut a.terms[i].cat;
                        let j = rng.below(c.calls.len() + 1);
                        let t = rng.pick(&terms).clone();
                        c.calls.insert(j, Call { terms: vec![t] });
                        c.dots.push(d);
                    }
                    18 => {
                        let c = &mut a.terms[i].cat;
                        let m = c.calls.len();
                        let x = rng.below(m);
                        let y = rng.below(m);
                        c.calls.swap(x, y);
                    }
                    _ => {
                        // add an alternative
                        let t = rng.pick(&terms).clone();
                        let j = rng.below(n + 1);
                        a.terms.insert(
                            j,
                            Labelled {
                                cat: Cat {
                                    calls: vec![Call { terms: vec![t] }],
                                    dots: vec![],
                                },
                                label: None,
                            },
                        );
                        a.bars.push(d);
                    }
                }
            }
            k += 1;
        }),
        20 => for_params(p, &mut |ps| {
            if k == p_at && !ps.is_empty() {
                if rng.chance(1, 2) && ps.len() > 1 {
                    let i = rng.below(ps.len());
                    ps.remove(i);
                } else {
                    let c = rng.pick(ps).clone();
                    let i = rng.below(ps.len() + 1);
                    ps.insert(i, c);
                }
            }
            k += 1;
        }),
        _ => {
            let n = p.lets.len();
            if n > 0 {
                let i = rng.below(n);
                match rng.below(4) {
                    0 => {
                        p.lets.remove(i);
                    }
                    1 => {
                        let j = rng.below(n);
                        p.lets.swap(i, j)
                    }
                    2 => {
                        let c = rng.pick(&ids).clone();
                        p.lets[i].name = Id::new(&c)
                    }
                    _ => {
                        let l = p.lets[i].clone();
                        p.lets.insert(rng.below(n + 1), l)
                    }
                }
            }
        }
    }
}

/// Any program: sound ones, higher-order ones, damaged ones.
pub fn any_program(rng: &mut Rng, names: NamesKind) -> Program {
    if rng.chance(1, 25) {
        let n = rng.below(3);
        return corpus(rng, n);
    }
    let mut pr = Profile::random(rng);
    pr.names = names;
    if rng.chance(1, 2) {
        pr.size = pr.size.min(20);
    }
    let mut p = match rng.below(3) {
        0 => good(rng, pr),
        1 => higher_order(rng, names),
        _ => {
            if rng.chance(1, 2) {
                good(rng, pr)
            } else {
                higher_order(rng, names)
            }
        }
    };
    let n = match rng.below(4) {
        0 | 1 => 0,
        2 => 1,
        _ => rng.range(1, 4),
    };
    for _ in 0..n {
        edit(&mut p, rng)
    }
    if dict().now(rng, 8, 'c') {
        recolour(&mut p, rng)
    }
    if rng.chance(1, 40) {
        lengthen(&mut p, rng)
    }
    if rng.chance(1, 40) {
        abstract_out(&mut p, rng)
    }
    if rng.chance(1, 300) {
        pad(&mut p, rng)
    }
    p
}

/// Gives one function many more parameters, and perhaps one call as many more arguments.
pub fn stretch(p: &mut Program, rng: &mut Rng) {
    let k = match rng.below(3) {
        0 => dict().int(rng).clamp(1, 40),
        1 => rng.range(1, 12),
        _ => rng.range(6, 30),
    };
    let mut n = 0;
    for_params(p, &mut |v| n += usize::from(!v.is_empty()));
    if n == 0 {
        return;
    }
    let mut at = rng.below(n);
    let first = rng.chance(1, 2);
    for_params(p, &mut |v| {
        if !v.is_empty() {
            if at == 0 {
                let new = (0..k).map(|i| Id::new(&format!("padq{}", i)));
                if first {
                    *v = new.chain(v.drain(..)).collect()
                } else {
                    v.extend(new)
                }
            }
            at = at.wrapping_sub(1);
        }
    });
    if rng.chance(1, 2) {
        return;
    }
    let k = if rng.chance(3, 4) { k } else { rng.range(1, 20) };
    let mut n = 0;
    for_calls(p, &mut |c| n += usize::from(c.terms.len() > 1));
    if n == 0 {
        return;
    }
    let mut at = rng.below(n);
    for_calls(p, &mut |c| {
        if c.terms.len() > 1 {
            if at == 0 {
                let new = (0..k).map(|i| Term::Lit(i.to_string(), Loc::default()));
                if first {
                    let rest = c.terms.split_off(1);
                    c.terms.extend(new.chain(rest))
                } else {
                    c.terms.extend(new)
                }
            }
            at = at.wrapping_sub(1);
        }
    });
}

/// Turns literals in the body of a let into parameters and passes them at every use: the meaning stays.
pub fn abstract_out(p: &mut Program, rng: &mut Rng) {
    if p.lets.is_empty() {
        return;
    }
    let k = rng.below(p.lets.len());
    let name = p.lets[k].name.plain().to_owned();
    let had = p.lets[k].params.len();
    // bound once, and used as it is or called with all its arguments
    let mut bound = p.lets.iter().filter(|l| l.name.plain() == name).count();
    for_params(p, &mut |v| bound += v.iter().filter(|i| i.plain() == name || i.plain().starts_with("padq")).count());
    let mut uses = 0usize;
    for_terms(p, &mut |t| {
        if let Term::Ident(i) = t {
            uses += usize::from(i.plain() == name)
        }
    });
    let mut heads = 0usize;
    for_calls(p, &mut |c| {
        if let Term::Ident(i) = &c.terms[0] {
            if i.plain() == name && c.terms.len() == had + 1 {
                heads += 1
            }
        }
    });
    if bound != 1 || (had > 0 && heads != uses) {
        return;
    }
    let few = rng.range(1, 12);
    let mut args: Vec<String> = vec![];
    let mut params: Vec<Id> = vec![];
    let mut one = Program {
        lets: vec![],
        goal: p.lets[k].body.clone(),
    };
    for_terms(&mut one, &mut |t| {
        if let Term::Lit(s, _) = t {
            if params.len() < few && rng.chance(2, 3) {
                let id = format!("padq{}", params.len());
                args.push(s.clone());
                params.push(Id::new(&id));
                *t = Term::Ident(Id::new(&id));
            }
        }
    });
    for i in 0..rng.below(4) {
        args.push("z".into());
        params.push(Id::new(&format!("padr{}", i)));
    }
    if params.is_empty() {
        return;
    }
    let mut order: Vec<usize> = (0..params.len()).collect();
    rng.shuffle(&mut order);
    let front = rng.chance(1, 2);
    let args: Vec<Term> = order.iter().map(|i| Term::Lit(args[*i].clone(), Loc::default())).collect();
    let params: Vec<Id> = order.iter().map(|i| params[*i].clone()).collect();
    if had == 0 {
        // uses do not lie in the body itself, which is not in its own scope
        for_terms(p, &mut |t| {
            if let Term::Ident(i) = t {
                if i.plain() == name {
                    // marked, as what is put in is gone through as well
                    let mut terms = vec![Term::Ident(Id::new("\u{1}"))];
                    terms.extend(args.iter().cloned());
                    *t = Term::Paren(
                        Loc::default(),
                        Box::new(Expr::Alt(Alt {
                            terms: vec![Labelled {
                                cat: Cat {
                                    calls: vec![Call { terms }],
                                    dots: vec![],
                                },
                                label: None,
                            }],
                            bars: vec![],
                        })),
                    );
                }
            }
        });
        for_terms(p, &mut |t| {
            if let Term::Ident(i) = t {
                if i.name == "\u{1}" {
                    *i = Id::new(&name)
                }
            }
        });
    } else {
        for_calls(p, &mut |c| {
            let this = matches!(&c.terms[0], Term::Ident(i) if i.plain() == name);
            if this {
                if front {
                    let rest = c.terms.split_off(1);
                    c.terms.extend(args.iter().cloned().chain(rest))
                } else {
                    c.terms.extend(args.iter().cloned())
                }
            }
        });
    }
    let l = &mut p.lets[k];
    l.body = one.goal;
    if front {
        l.params = params.into_iter().chain(l.params.drain(..)).collect()
    } else {
        l.params.extend(params)
    }
}

/// Adds many bindings that nothing uses, so that the others are far away.
pub fn pad(p: &mut Program, rng: &mut Rng) {
    let n = match rng.below(4) {
        0 => dict().int(rng).clamp(2, 300) + rng.below(3),
        1 => rng.range(5, 30),
        2 => rng.range(20, 140),
        _ => rng.range(100, 300),
    };
    let at = rng.below(p.lets.len() + 1);
    let one = || Term::Lit("a".to_owned(), Loc::default()).to_expr();
    let new: Vec<LetStmt> = (0..n)
        .map(|i| LetStmt {
            name: Id::new(&format!("pad{}", i)),
            params: if rng.chance(1, 10) { vec![Id::new("padp")] } else { vec![] },
            body: one(),
        })
        .collect();
    let rest = p.lets.split_off(at);
    p.lets.extend(new);
    p.lets.extend(rest);
}

/// Exchanges letters for others, everywhere alike, or lengthens a literal: typing and shape stay.
pub fn recolour(p: &mut Program, rng: &mut Rng) {
    let mut used: BTreeSet<char> = BTreeSet::new();
    let mut lits = 0;
    for_terms(p, &mut |t| {
        if let Term::Lit(s, _) = t {
            used.extend(s.chars());
            lits += usize::from(!s.is_empty())
        }
    });
    for _ in 0..rng.range(1, 3) {
        let old: Vec<char> = used.iter().copied().collect();
        if old.is_empty() {
            return;
        }
        let a = *rng.pick(&old);
        let b = match rng.below(4) {
            0 | 1 => dict().char(rng),
            2 => {
                let c = *rng.pick(&old);
                alias(rng, c)
            }
            _ => *rng.pick(SPECIAL),
        };
        if used.contains(&b) {
            continue;
        }
        used.remove(&a);
        used.insert(b);
        for_terms(p, &mut |t| {
            if let Term::Lit(s, _) = t {
                *s = s.chars().map(|c| if c == a { b } else { c }).collect()
            }
        });
    }
    if lits > 0 && dict().now(rng, 6, 'w') {
        let w = dict().word(rng);
        let mut k = rng.below(lits);
        for_terms(p, &mut |t| {
            if let Term::Lit(s, _) = t {
                if !s.is_empty() {
                    if k == 0 {
                        if w.starts_with(s.as_str()) {
                            *s = w.clone()
                        } else {
                            s.push_str(&w)
                        }
                    }
                    k = k.wrapping_sub(1)
                }
            }
        });
    }
}

/// Puts one long text into all literals, or into many, at one place: literals that were alike
/// now differ only in front of it or behind it, or in one place within.
pub fn lengthen(p: &mut Program, rng: &mut Rng) {
    let n = *rng.pick(&[1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 40, 63, 64, 65]);
    let base = match rng.below(5) {
        4 => vec![' ', '\n', '\t', 'a'],
        0 => vec!['a'],
        1 => vec!['a', 'b'],
        2 => ('a'..='z').collect(),
        _ => vec!['x', '\u{e9}', '\u{4e00}', '\u{1f600}'],
    };
    let text: Vec<char> = (0..n).map(|i| if i < base.len() { base[i] } else { *rng.pick(&base) }).collect();
    let front = rng.chance(1, 2);
    let all = rng.chance(2, 3);
    let vary = rng.chance(1, 3);
    for_terms(p, &mut |t| {
        if let Term::Lit(s, _) = t {
            if s.is_empty() || !(all || rng.chance(1, 2)) {
                return;
            }
            let mut text = text.clone();
            if vary && rng.chance(1, 3) {
                let k = match rng.below(3) {
                    0 => n - 1,
                    1 => 0,
                    _ => rng.below(n),
                };
                text[k] = *rng.pick(&['b', 'q', 'A', '\u{ea}']);
            }
            let first = s.chars().next().map_or(0, char::len_utf8);
            let at = if front { first } else { s.len() };
            s.insert_str(at, &text.into_iter().collect::<String>());
        }
    });
}

// ---------------------------------------------------------------- (D) soup

const TOKENS: &[&str] = &[
    "let", "match", "=", ";", "|", ".", "!", "(", ")", "/", ":", "_", "a", "b", "x", "f", "\"a\"", "\"b\"", "\"\"", "r\"c\"",
    "'c'", "b\"x\"", "1", "1.5", "{", "}", "[", "]", ",", "==", "..", "||", "r#let", "r#x", "\"\\n\"", "\"\\u{41}\"", "fn",
    "'a", "//", "->", "1u8", "c\"x\"", "#", "$", "\"a\"suffix", "0x1",
];

pub fn token_soup(rng: &mut Rng) -> String {
    let n = rng.below(25);
    let mut o = String::new();
    if rng.chance(1, 2) {
        o.push_str("match ");
    }
    for _ in 0..n {
        if dict().now(rng, 40, 'w') {
            o.push_str(&dict().word(rng))
        } else {
            o.push_str(rng.pick(TOKENS))
        }
        if rng.chance(3, 4) {
            o.push(' ')
        }
    }
    if rng.chance(1, 2) {
        o.push(';');
    }
    o
}

pub fn char_soup(rng: &mut Rng, around: &str) -> String {
    let mut c: Vec<char> = if rng.chance(2, 3) { around.chars().collect() } else { vec![] };
    let n = if c.is_empty() { rng.below(40) } else { rng.range(1, 4) };
    let mut set: Vec<char> = "letmach =;|.!()/:_abx\"\\'u{}r#0123456789abcdefn\n\t[],*/éß日\u{1F600}\u{0}\u{feff}\u{2028}\u{202e}xX"
        .chars()
        .collect();
    for _ in 0..4 {
        set.push(dict().char(rng))
    }
    for _ in 0..n {
        let k = c.len();
        match rng.below(4) {
            0 if k > 0 => {
                c.remove(rng.below(k));
            }
            1 if k > 0 => c[rng.below(k)] = *rng.pick(&set),
            2 if k > 1 => {
                let i = rng.below(k);
                let j = (i + rng.below(6)).min(k - 1);
                let part: Vec<char> = c[i..=j].to_vec();
                let at = rng.below(k);
                for (x, y) in part.into_iter().enumerate() {
                    c.insert(at + x, y)
                }
            }
            _ => {
                let x = *rng.pick(&set);
                c.insert(rng.below(k + 1), x)
            }
        }
    }
    c.into_iter().collect()
}

/// Damage at the level of tokens.
pub fn damage_tokens(toks: &mut Vec<Tok>, rng: &mut Rng) {
    for _ in 0..rng.range(1, 3) {
        let n = toks.len();
        if n == 0 {
            return;
        }
        let extra = [
            Tok::P('('),
            Tok::P(')'),
            Tok::P('|'),
            Tok::P('.'),
            Tok::P('!'),
            Tok::P('/'),
            Tok::P(':'),
            Tok::P('='),
            Tok::P(';'),
            Tok::Word("_".into()),
            Tok::Word("let".into()),
            Tok::Word("match".into()),
            Tok::Word("x".into()),
            Tok::Lit("a".into()),
        ];
        match rng.below(4) {
            0 => {
                toks.remove(rng.below(n));
            }
            1 => {
                let t = rng.pick(&extra).clone();
                toks.insert(rng.below(n + 1), t)
            }
            2 => {
                let i = rng.below(n);
                toks[i] = rng.pick(&extra).clone()
            }
            _ => {
                let i = rng.below(n);
                let j = rng.below(n);
                toks.swap(i, j)
            }
        }
    }
}

// ---------------------------------------------------------------- (E) small dense programs

/// A small closed program over few characters, not made to be sound.
pub fn small_tree(rng: &mut Rng, names: NamesKind) -> (GP, NamePool) {
    struct S<'r> {
        rng: &'r mut Rng,
        next: usize,
        chars: usize,
        fixes: usize,
    }
    impl S<'_> {
        fn g(&mut self, size: usize, env: &mut Vec<usize>) -> G {
            if size <= 1 {
                if !env.is_empty() && self.rng.chance(2, 5) {
                    return G::Var(*self.rng.pick(env));
                }
                return match self.rng.below(9) {
                    0 => G::Eps,
                    1 if self.chars > 1 => {
                        let a = self.c();
                        let b = self.c();
                        G::Lit(format!("{}{}", a, b))
                    }
                    _ => G::Lit(self.c().to_string()),
                };
            }
            let fix = if self.fixes > 0 { 3 } else { 0 };
            match self.rng.weighted(&[5, 6, fix]) {
                k @ (0 | 1) => {
                    let n = if size > 3 && self.rng.chance(1, 3) { 3 } else { 2 };
                    let mut left = size - 1;
                    let mut v = vec![];
                    for i in 0..n {
                        let s = if i + 1 == n { left } else { self.rng.range(1, (left - (n - 1 - i).min(left - 1)).max(1)) };
                        left = left.saturating_sub(s).max(1);
                        v.push(self.g(s, env));
                    }
                    if k == 0 {
                        G::Cat(v)
                    } else {
                        G::Alt(v)
                    }
                }
                _ => {
                    self.fixes -= 1;
                    self.next += 1;
                    let id = self.next;
                    env.push(id);
                    let b = self.g(size - 1, env);
                    env.pop();
                    G::Fix(Box::new(G::Lam(vec![id], Box::new(b))))
                }
            }
        }
        fn c(&mut self) -> char {
            char::from(b'a' + self.rng.below(self.chars) as u8)
        }
    }
    let names = pool(rng, names);
    let chars = rng.range(2, 7);
    let fixes = rng.below(4);
    let size = rng.range(2, 11);
    let mut s = S {
        rng,
        next: 0,
        chars,
        fixes,
    };
    let goal = s.g(size, &mut vec![]);
    let next = s.next;
    let mut gp = GP { lets: vec![], goal };
    let n = if rng.chance(1, 3) { rng.range(1, 3) } else { 0 };
    let mut w = Wrap {
        rng,
        next,
        stars: HashSet::new(),
        names: names.clone(),
    };
    for _ in 0..n {
        w.step(&mut gp);
    }
    (gp, names)
}

pub fn small(rng: &mut Rng, names: NamesKind) -> Program {
    let (gp, names) = small_tree(rng, names);
    name(&gp, names, rng)
}

// ---------------------------------------------------------------- (G) big classes of characters

/// Few constructs over big classes of characters, which overlap in a character or not at all.
pub fn wide_tree(rng: &mut Rng, names: NamesKind) -> (GP, NamePool) {
    let names = pool(rng, names);
    let mut cs: Vec<char> = (' '..='~').collect();
    let ranges = [('\u{a1}', '\u{ff}'), ('\u{400}', '\u{44f}'), ('\u{3041}', '\u{3090}'), ('\u{fff0}', '\u{ffff}'), ('\u{1f600}', '\u{1f640}'), ('\0', '\u{1f}')];
    for (a, b) in ranges.iter() {
        if rng.chance(1, 4) {
            cs.extend((*a..=*b).collect::<Vec<_>>());
        }
    }
    if rng.chance(1, 2) {
        rng.shuffle(&mut cs)
    }
    let k = rng.range(2, 6);
    let mut classes: Vec<Vec<char>> = vec![];
    for _ in 0..k {
        let n = if rng.chance(1, 3) { rng.range(1, 3) } else { rng.range(4, 45) };
        let n = n.min(cs.len());
        classes.push(cs.drain(..n).collect());
    }
    classes.retain(|c| !c.is_empty());
    // look-alikes
    if rng.chance(1, 3) {
        for _ in 0..rng.range(1, 3) {
            let a = rng.below(classes.len());
            let b = rng.below(classes.len());
            let c = *rng.pick(&classes[a]);
            let d = alias(rng, c);
            if !classes.iter().any(|c| c.contains(&d)) {
                let at = rng.below(classes[b].len() + 1);
                classes[b].insert(at, d)
            }
        }
    }
    // an overlap
    if rng.chance(1, 2) && classes.len() > 1 {
        let a = rng.below(classes.len());
        let b = rng.below(classes.len());
        if a != b {
            let c = *rng.pick(&classes[a]);
            let at = rng.below(classes[b].len() + 1);
            classes[b].insert(at, c)
        }
    }
    let mut next = 0;
    fn class(cs: &[char], rng: &mut Rng) -> G {
        if cs.len() == 1 {
            let mut s = cs[0].to_string();
            if rng.chance(1, 6) {
                s.push('z')
            }
            return G::Lit(s);
        }
        if cs.len() > 3 && rng.chance(1, 4) {
            let m = rng.range(1, cs.len() - 1);
            return G::Alt(vec![class(&cs[..m], rng), class(&cs[m..], rng)]);
        }
        let long = rng.chance(1, 5);
        G::Alt(
            cs.iter()
                .map(|c| {
                    let mut s = c.to_string();
                    if long && rng.chance(1, 4) {
                        s.push('z')
                    }
                    G::Lit(s)
                })
                .collect(),
        )
    }
    fn put(cl: &[G], rng: &mut Rng, next: &mut usize) -> G {
        if cl.len() == 1 {
            let c = cl[0].clone();
            return match rng.below(8) {
                0 => G::Alt(vec![G::Eps, c]),
                1 | 2 => {
                    *next += 1;
                    let id = *next;
                    let end = if rng.chance(1, 2) {
                        G::Alt(vec![G::Eps, G::Cat(vec![c, G::Var(id)])])
                    } else {
                        G::Cat(vec![c, G::Alt(vec![G::Var(id), G::Eps])])
                    };
                    G::Fix(Box::new(G::Lam(vec![id], Box::new(end))))
                }
                _ => c,
            };
        }
        let m = rng.range(1, cl.len() - 1);
        let (a, b) = (put(&cl[..m], rng, next), put(&cl[m..], rng, next));
        match rng.below(4) {
            0 | 1 => G::Alt(vec![a, b]),
            2 => G::Cat(vec![a, b]),
            // the optional part in between
            _ => G::Cat(vec![a, G::Alt(vec![b, G::Eps])]),
        }
    }
    if rng.chance(2, 5) {
        // a long sequence instead of a class
        let n = if rng.chance(1, 2) { rng.range(8, 70) } else { rng.range(6, 24) };
        // parts of one type, which nothing but their order tells apart
        let uniform = rng.chance(1, 2);
        let mixed = rng.chance(1, 2);
        let two = |a: &str, b: &str| G::Alt(vec![G::Lit(a.into()), G::Lit(b.into())]);
        let part = |rng: &mut Rng| match rng.below(12) {
            0 if uniform && mixed => two("w", "x"),
            _ if uniform => two("y", "z"),
            0 => G::Eps,
            1 => G::Alt(vec![G::Lit("y".into()), G::Lit("z".into())]),
            2 => G::Lit("xy".into()),
            _ => G::Lit(char::from(b'a' + rng.below(20) as u8).to_string()),
        };
        let long = G::Cat((0..n).map(|i| if i == 0 && !uniform { G::Lit("q".into()) } else { part(rng) }).collect());
        let mut gp = GP { lets: vec![], goal: long };
        if rng.chance(1, 2) {
            let c = class(&classes[0], rng);
            gp.goal = G::Alt(vec![c, gp.goal])
        }
        let labels = match rng.below(3) {
            0 => 0,
            1 => rng.range(1, 4),
            _ => rng.range(5, 2 * n),
        };
        let mut w = Wrap {
            rng,
            next: 0,
            stars: HashSet::new(),
            names: names.clone(),
        };
        w.label_some(&mut gp, labels);
        return (gp, names);
    }
    let mut cl: Vec<G> = classes.iter().map(|c| class(c, rng)).collect();
    if rng.chance(1, 5) {
        // nearly the same again, after something that tells them apart
        let k = rng.below(cl.len());
        let mut again = cl[k].clone();
        if let G::Alt(v) = &mut again {
            let i = if rng.chance(1, 2) { v.len() - 1 } else { rng.below(v.len()) };
            match rng.below(3) {
                0 => v[i] = G::Lit("\u{3b1}".into()),
                1 if v.len() > 2 => {
                    v.remove(i);
                }
                _ => v.push(G::Lit("\u{3b1}".into())),
            }
        }
        let before = |s: &str, g: G| G::Cat(vec![G::Lit(s.into()), g]);
        cl[k] = before("\u{3b2}", cl[k].clone());
        cl.push(before("\u{3b3}", again));
    }
    let goal = put(&cl, rng, &mut next);
    let mut gp = GP { lets: vec![], goal };
    let n = if rng.chance(1, 3) { rng.range(1, 3) } else { 0 };
    let mut w = Wrap {
        rng,
        next,
        stars: HashSet::new(),
        names: names.clone(),
    };
    for _ in 0..n {
        w.step(&mut gp);
    }
    let l = w.rng.below(3);
    w.label_some(&mut gp, l);
    (gp, names)
}

pub fn wide(rng: &mut Rng, names: NamesKind) -> Program {
    let (gp, names) = wide_tree(rng, names);
    name(&gp, names, rng)
}

// ---------------------------------------------------------------- (I) grammars people wrote

const CORPUS: &[(usize, &str)] = &[
    (4, include_str!("../corpus/arith.nb")),
    (1, include_str!("../corpus/autonibble.nb")),
    (2, include_str!("../corpus/json.nb")),
    (3, include_str!("../corpus/nibble_exp.nb")),
    (2, include_str!("../corpus/ratata.nb")),
    (3, include_str!("../corpus/regex.nb")),
    (2, include_str!("../corpus/regex_fix.nb")),
    (2, include_str!("../corpus/sheep.nb")),
];

/// One of these, as it is or changed a little.
pub fn corpus(rng: &mut Rng, edits: usize) -> Program {
    let total: usize = CORPUS.iter().map(|c| c.0).sum();
    let mut k = rng.below(total);
    let text = CORPUS
        .iter()
        .find(|c| {
            let hit = k < c.0;
            k = k.wrapping_sub(c.0);
            hit
        })
        .map_or(CORPUS[0].1, |c| c.1);
    let mut p = parse(text).expect("corpus");
    for _ in 0..edits {
        edit(&mut p, rng)
    }
    if rng.chance(1, 4) {
        shuffle_alts(&mut p, rng);
    }
    p
}

// ---------------------------------------------------------------- (H) one thing very often

/// A count that now and then passes what fits into small integers.
pub fn count(rng: &mut Rng, max: usize) -> usize {
    let n = match rng.below(7) {
        6 => dict().int(rng).clamp(3, 600) + rng.below(3),
        0 | 1 => rng.range(8, 40),
        2 | 3 => {
            let k = *rng.pick(&[15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256]);
            k + rng.below(4)
        }
        4 => rng.range(40, 300),
        _ => rng.range(257, 540),
    };
    if n > max {
        rng.range(max / 2, max)
    } else {
        n
    }
}

/// One construct repeated or nested many times.  `max` bounds how often.
pub fn large(rng: &mut Rng, max: usize) -> Program {
    let n = count(rng, max);
    let deep = n.min(150);
    let ch = |i: usize| std::char::from_u32(if i < 26 { 0x61 + i } else { 0x4e00 + i } as u32).unwrap_or('x');
    let lit = |i: usize| format!("\"{}\"", ch(i));
    let list = |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(f).collect::<Vec<_>>().join(sep);
    let nest = |open: &str, mid: &str, close: &str, k: usize| format!("{}{}{}", open.repeat(k), mid, close.repeat(k));
    // one place where something else may stand
    let odd = rng.below(n);
    let other = *rng.pick(&["\"z\"", "\"z\"", "_", "\"a\"", "(\"y\" | \"z\")", "(\"y\":zed)", "!(/r/ (\"y\" . r | \"z\"))", "nobody"]);
    let labels = rng.chance(1, 4);
    let (lets, goal) = match rng.below(18) {
        0 | 1 => (
            String::new(),
            list(
                &|i| match i {
                    i if i == odd => other.to_owned(),
                    i if labels && i % 3 != 0 => format!("({}:l)", lit(i % 20)),
                    i => lit(i % 20),
                },
                " . ",
            ),
        ),
        2 | 3 => (
            String::new(),
            list(
                &|i| match i {
                    i if i == odd => other.to_owned(),
                    i if labels && i % 3 != 0 => format!("{}:l", lit(i)),
                    i => lit(i),
                },
                " | ",
            ),
        ),
        4 => {
            // two choices that differ late, or not at all
            let a = list(&lit, " | ");
            let b = list(&|i| if i == odd { other.to_owned() } else { lit(i) }, " | ");
            (String::new(), format!("(\"0\" . ({})) | (\"1\" . ({}))", a, b))
        }
        5 => {
            let a = list(&|i| lit(i % 7), " . ");
            let b = list(&|i| if i == odd { other.to_owned() } else { lit(i % 7) }, " . ");
            (String::new(), format!("(\"0\" . ({})) | (\"1\" . ({}))", a, b))
        }
        6 => (
            format!("let x0 = {};", other.replace("nobody", "\"n\"")) + &(1..n).map(|i| format!("let x{} = x{};", i, i - 1)).collect::<String>(),
            format!("x{}", rng.range(n - 1, n)),
        ),
        7 => (
            (0..n).map(|i| format!("let x{} = {};", i, lit(i))).collect::<String>(),
            list(&|i| format!("x{}", if i == odd { n - 1 - i } else { i }), if rng.chance(1, 2) { " . " } else { " | " }),
        ),
        8 => {
            // many parameters
            let k = if rng.chance(1, 3) { n - 1 } else { n };
            (
                format!("let f {} = {};", list(&|i| format!("p{}", i), " "), list(&|i| format!("p{}", i), " . ")),
                format!("f {}", (0..k).map(|i| lit(i % 26)).collect::<Vec<_>>().join(" ")),
            )
        }
        9 => (String::new(), nest("(", other, ")", deep)),
        10 => (String::new(), nest("\"a\" . (", other, ")", deep)),
        11 => (
            String::new(),
            (0..deep).map(|i| format!("{} | (", lit(i))).collect::<String>() + other + &")".repeat(deep),
        ),
        12 => (String::new(), nest("(", other, "):l", deep)),
        13 => (
            "let f x = \"(\" . x . \")\";".to_owned(),
            nest("(f ", other, ")", deep),
        ),
        14 => {
            // functions that return functions, or take them
            let k = deep.min(60);
            let ps: Vec<String> = (0..k).map(|i| format!("(/p{}/ ", i)).collect();
            (
                String::new(),
                format!("{}{}p{}{}{}", "(".repeat(k), ps.concat(), rng.below(k), ")".repeat(k), (0..k).map(|i| format!(" {})", lit(i % 26))).collect::<String>()),
            )
        }
        15 => (String::new(), format!("\"{}\" . {}", list(&|i| ch(i % 300).to_string(), ""), other)),
        16 => {
            let name = format!("n{}", "a_b".repeat(n));
            (format!("let {} = \"a\";", name), format!("{} . (\"b\":{}1) . {}", name, name, other))
        }
        _ => {
            let k = rng.range(2, 9);
            (
                String::new(),
                (0..k).map(|i| format!("!(/x{}/ {} . (", i, lit(i))).collect::<String>()
                    + &format!("{} | x{}", other, rng.below(k))
                    + &"))".repeat(k),
            )
        }
    };
    let text = format!("{} match {};", lets, goal);
    parse(&text).unwrap_or_else(|e| panic!("large program {:?}: {:?}", text, e))
}

/// Puts the alternatives of some choices in another order.
pub fn shuffle_alts(p: &mut Program, rng: &mut Rng) {
    for_alts(p, &mut |a| {
        if rng.chance(1, 2) {
            rng.shuffle(&mut a.terms)
        }
    });
}

// ---------------------------------------------------------------- (F) equal parts in different recursive contexts

/// Every branch of every choice starts with a letter of its own, so that almost everything is sound.
struct Led<'r> {
    rng: &'r mut Rng,
    next: usize,
    letters: Vec<char>,
    budget: isize,
}

impl Led<'_> {
    fn letter(&mut self) -> G {
        G::Lit(self.rng.pick(&self.letters).to_string())
    }
    fn fix(&mut self, depth: usize, env: &mut Vec<usize>) -> G {
        self.next += 1;
        let id = self.next;
        env.push(id);
        let b = self.choice(depth, env);
        env.pop();
        G::Fix(Box::new(G::Lam(vec![id], Box::new(b))))
    }
    fn choice(&mut self, depth: usize, env: &mut Vec<usize>) -> G {
        let mut starts = self.letters.clone();
        self.rng.shuffle(&mut starts);
        let n = self.rng.range(1, 3.min(starts.len() - 1));
        let mut v = vec![];
        for k in 0..=n {
            let mut c = vec![G::Lit(starts[k].to_string())];
            if k > 0 {
                let lo = self.rng.below(2);
                for _ in 0..self.rng.range(lo, 2) {
                    let g = self.item(depth, env);
                    c.push(g)
                }
            }
            v.push(if c.len() == 1 { c.remove(0) } else { G::Cat(c) })
        }
        self.rng.shuffle(&mut v);
        G::Alt(v)
    }
    fn item(&mut self, depth: usize, env: &mut Vec<usize>) -> G {
        self.budget -= 1;
        match self.rng.below(9) {
            0..=3 if !env.is_empty() => {
                // outer variables as often as the nearest one
                G::Var(*self.rng.pick(env))
            }
            4..=6 if depth > 0 && self.budget > 0 => self.fix(depth - 1, env),
            7 if depth > 0 && self.budget > 0 => {
                let g = self.choice(depth - 1, env);
                if self.rng.chance(1, 2) {
                    match g {
                        G::Alt(mut v) => {
                            v.insert(0, G::Eps);
                            G::Alt(v)
                        }
                        g => g,
                    }
                } else {
                    g
                }
            }
            _ => self.letter(),
        }
    }
}

fn fix_paths(g: &G, p: &mut Vec<usize>, o: &mut Vec<Vec<usize>>) {
    if let (G::Fix(_), false) = (g, p.is_empty()) {
        if !g.free().is_empty() {
            o.push(p.clone());
        }
    }
    for (i, k) in g.kids().iter().enumerate() {
        p.push(i);
        fix_paths(k, p, o);
        p.pop();
    }
}

fn lit_paths(g: &G, p: &mut Vec<usize>, o: &mut Vec<Vec<usize>>) {
    if let G::Lit(_) = g {
        o.push(p.clone());
    }
    for (i, k) in g.kids().iter().enumerate() {
        p.push(i);
        lit_paths(k, p, o);
        p.pop();
    }
}

/// Copies with binders of their own.
fn renewed(g: &G, next: &mut usize) -> G {
    let mut b = HashSet::new();
    g.bound(&mut b);
    let mut b: Vec<usize> = b.into_iter().collect();
    b.sort_unstable();
    let m: HashMap<usize, usize> = b
        .into_iter()
        .map(|i| {
            *next += 1;
            (i, *next)
        })
        .collect();
    let mut g = g.clone();
    g.map_vars(&|i| m.get(&i).copied().unwrap_or(i));
    g
}

/// The same open part within recursions that differ around it.
pub fn twins_tree(rng: &mut Rng, names: NamesKind) -> (GP, NamePool) {
    let names = pool(rng, names);
    let letters: Vec<char> = "abcdefgh".chars().take(rng.range(3, 6)).collect();
    let budget = rng.range(3, 12) as isize;
    let mut l = Led {
        rng,
        next: 0,
        letters: letters.clone(),
        budget,
    };
    // a recursion with an open recursion in it
    let mut outer = l.fix(2, &mut vec![]);
    let mut ps = vec![];
    for _ in 0..20 {
        ps.clear();
        fix_paths(&outer, &mut vec![], &mut ps);
        if !ps.is_empty() {
            break;
        }
        l.budget = l.rng.range(3, 12) as isize;
        outer = l.fix(2, &mut vec![]);
    }
    let mut next = l.next;
    let mut copies = vec![outer.clone()];
    if let false = ps.is_empty() {
        let keep = rng.pick(&ps).clone();
        for _ in 0..rng.range(1, 2) {
            let mut c = outer.clone();
            let mut ls = vec![];
            lit_paths(&c, &mut vec![], &mut ls);
            ls.retain(|p| !p.starts_with(&keep));
            // something else around the part: after what can come first, so that types stay, or anything
            let mut to = letters.clone();
            to.extend("xyz".chars());
            rng.shuffle(&mut to);
            let how = rng.below(4);
            let few = rng.range(1, 3);
            for p in ls {
                let lead = match p.split_last() {
                    Some((0, _)) => true,
                    Some((_, up)) => !matches!(c.at(up), G::Cat(_)),
                    None => true,
                };
                if let G::Lit(s) = c.at_mut(&p) {
                    let t = rng.pick(&to).to_string();
                    match how {
                        0 => {
                            *s = s
                                .chars()
                                .map(|x| letters.iter().position(|y| *y == x).map_or(x, |k| to[k]))
                                .collect()
                        }
                        _ if !rng.chance(1, few) => {}
                        1 if !lead => *s = t,
                        _ => s.push_str(&t),
                    }
                }
            }
            if rng.chance(1, 8) {
                if let G::Fix(b) = &mut c {
                    if let G::Lam(_, b) = &mut **b {
                        if let G::Alt(v) = &mut **b {
                            rng.shuffle(v)
                        }
                    }
                }
            }
            copies.push(renewed(&c, &mut next));
        }
    }
    rng.shuffle(&mut copies);
    let goal = match rng.below(4) {
        0 => {
            // one within the other
            let inner = copies.pop().unwrap_or(G::Eps);
            let mut host = copies.pop().unwrap_or_else(|| G::Lit("a".into()));
            let mut ls = vec![];
            lit_paths(&host, &mut vec![], &mut ls);
            if let false = ls.is_empty() {
                let p = rng.pick(&ls).clone();
                let old = host.at(&p).clone();
                *host.at_mut(&p) = G::Cat(vec![old, inner]);
            }
            host
        }
        _ if copies.len() == 1 => copies.remove(0),
        1 => G::Cat(copies),
        _ => {
            let marks = ['0', '1', '2', '3'];
            let v: Vec<G> = copies
                .into_iter()
                .enumerate()
                .map(|(k, c)| G::Cat(vec![G::Lit(marks[k].to_string()), c]))
                .collect();
            if rng.chance(1, 2) {
                G::Alt(v)
            } else {
                G::Cat(v)
            }
        }
    };
    let mut gp = GP { lets: vec![], goal };
    let n = if rng.chance(1, 3) { rng.range(1, 4) } else { 0 };
    let mut w = Wrap {
        rng,
        next,
        stars: HashSet::new(),
        names: names.clone(),
    };
    for _ in 0..n {
        w.step(&mut gp);
    }
    if w.rng.chance(1, 4) {
        w.collect_stars(&gp.goal.clone());
        w.label_some(&mut gp, 2);
    }
    (gp, names)
}

/// Two or three sequences or choices of many parts, which differ in one place.
pub fn siblings(rng: &mut Rng, names: NamesKind) -> Program {
    let n = if rng.chance(1, 3) { rng.range(3, 6) } else { rng.range(6, 26) };
    let choice = rng.chance(1, 2);
    let mut letters: Vec<char> = if rng.chance(1, 2) { ('a'..='z').collect() } else { (' '..='~').collect() };
    let from = letters.len();
    letters.extend("\u{e9}\u{e0}\u{3b1}\u{4e00}\u{1f600}".chars());
    if rng.chance(1, 2) {
        rng.shuffle(&mut letters)
    }
    letters.retain(|c| !matches!(c, '<' | '>' | '='));
    let kinds = *rng.pick(&[2usize, 3, 7, 64]);
    // what may stand at a place of a sequence
    let part = |i: usize, rng: &mut Rng| -> G {
        let a = letters[i % kinds % from].to_string();
        match rng.below(20) {
            0 => G::Lit(a + "x"),
            1 => {
                let b = letters[(i + 1) % letters.len()].to_string();
                if a == b {
                    G::Lit(a)
                } else {
                    G::Alt(vec![G::Lit(a), G::Lit(b)])
                }
            }
            _ => G::Lit(a),
        }
    };
    let first: Vec<G> = if choice {
        letters
            .iter()
            .take(n)
            .map(|c| {
                let mut s = c.to_string();
                if rng.chance(1, 12) {
                    s.push('x')
                }
                G::Lit(s)
            })
            .collect()
    } else {
        (0..n).map(|i| part(i, rng)).collect()
    };
    let n = first.len();
    let mut all = vec![first.clone()];
    for _ in 0..rng.range(1, 2) {
        let mut v = first.clone();
        let k = match rng.below(3) {
            0 => n - 1,
            _ => rng.below(n),
        };
        match rng.below(8) {
            0 => {
                let j = rng.below(n);
                v.swap(k, j)
            }
            1 if n > 2 => {
                v.remove(k);
            }
            2 if !choice => {
                let x = v[k].clone();
                v.insert(k, x)
            }
            3 => {
                if let G::Lit(s) = &mut v[k] {
                    s.push('x')
                }
            }
            4 => v[k] = G::Lit("=".into()),
            _ => v[k] = G::Lit((*rng.pick(&letters)).to_string()),
        }
        all.push(v)
    }
    rng.shuffle(&mut all);
    let whole = |v: Vec<G>| if choice { G::Alt(v) } else { G::Cat(v) };
    let goal = match rng.below(3) {
        0 if choice => G::Cat(all.into_iter().map(whole).collect()),
        1 => {
            let mut v = vec![];
            for a in all {
                v.push(whole(a));
                v.push(G::Lit("<".into()))
            }
            G::Cat(v)
        }
        _ => G::Alt(
            all.into_iter()
                .zip("<=>".chars())
                .map(|(a, c)| G::Cat(vec![G::Lit(c.to_string()), whole(a)]))
                .collect(),
        ),
    };
    let mut gp = GP { lets: vec![], goal };
    let names = pool(rng, names);
    let mut w = Wrap {
        rng,
        next: 0,
        stars: HashSet::new(),
        names: names.clone(),
    };
    if w.rng.chance(1, 2) {
        w.step(&mut gp)
    }
    let l = *w.rng.pick(&[0, 0, 1, 2, 5]);
    w.label_some(&mut gp, l);
    name(&gp, names, rng)
}

pub fn twins(rng: &mut Rng, names: NamesKind) -> Program {
    let (gp, names) = twins_tree(rng, names);
    name(&gp, names, rng)
}
