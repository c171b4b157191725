//! The language of an expanded program: recognition, derivations, prefixes, sampling.
//! Everything works on spans by least fixed points; no first sets, no lookahead.

use std::collections::{BTreeSet, HashMap, HashSet};

use crate::dict::dict;
use crate::model::*;
use crate::util::Rng;

/// Longest input the span tables handle.  Longer ones are read by prediction (`Pred`), which only
/// programs of the typing discipline admit.
pub const MAXLEN: usize = 120;
/// Longest of the ordinary inputs.
pub const MAXIN: usize = 60;

/// For every node id and start position the set of end positions.
pub struct Spans {
    pub tab: HashMap<usize, Vec<u128>>,
    pub len: usize,
}

pub fn spans(c: &Core, w: &[char]) -> Spans {
    assert!(w.len() <= MAXLEN);
    let n = w.len();
    let mut fix: HashMap<usize, Vec<u128>> = HashMap::new();
    let mut tab: HashMap<usize, Vec<u128>> = HashMap::new();
    fn go(
        c: &Core,
        w: &[char],
        fix: &mut HashMap<usize, Vec<u128>>,
        tab: &mut HashMap<usize, Vec<u128>>,
        changed: &mut bool,
    ) -> Vec<u128> {
        let n = w.len();
        let r: Vec<u128> = match &c.k {
            K::Eps => (0..=n).map(|i| 1u128 << i).collect(),
            K::Lit(s) => {
                let s: Vec<char> = s.chars().collect();
                (0..=n)
                    .map(|i| {
                        if i + s.len() <= n && w[i..i + s.len()] == s[..] {
                            1u128 << (i + s.len())
                        } else {
                            0
                        }
                    })
                    .collect()
            }
            K::Cat(v, _) => {
                let mut r = go(&v[0], w, fix, tab, changed);
                for x in &v[1..] {
                    let u = go(x, w, fix, tab, changed);
                    for e in r.iter_mut() {
                        let mut o = 0;
                        let mut m = *e;
                        while m != 0 {
                            let j = m.trailing_zeros() as usize;
                            m &= m - 1;
                            o |= u[j];
                        }
                        *e = o;
                    }
                }
                r
            }
            K::Alt(v, _) => {
                let mut r = go(&v[0], w, fix, tab, changed);
                for x in &v[1..] {
                    let u = go(x, w, fix, tab, changed);
                    for (a, b) in r.iter_mut().zip(u) {
                        *a |= b;
                    }
                }
                r
            }
            K::Fix(id, b) => {
                let r = go(b, w, fix, tab, changed);
                if fix.get(id) != Some(&r) {
                    if fix.contains_key(id) || r.iter().any(|x| *x != 0) {
                        *changed = true;
                    }
                    fix.insert(*id, r.clone());
                }
                r
            }
            K::Var(id) => fix.get(id).cloned().unwrap_or_else(|| vec![0; n + 1]),
            _ => vec![0; n + 1],
        };
        tab.insert(c.id, r.clone());
        r
    }
    loop {
        let mut changed = false;
        go(c, w, &mut fix, &mut tab, &mut changed);
        if !changed {
            break;
        }
    }
    Spans { tab, len: n }
}

pub fn accepts(c: &Core, w: &[char]) -> bool {
    if w.len() > MAXLEN {
        let (d, i) = Pred::new(c).run(w);
        return d.is_some() && i == w.len();
    }
    let s = spans(c, w);
    s.tab[&c.id][0] & (1u128 << w.len()) != 0
}

/// All lengths of prefixes in the language, for short inputs.
pub fn prefix_ends(c: &Core, w: &[char]) -> u128 {
    spans(c, w).tab[&c.id][0]
}

/// Number of derivations of the whole of `w`, at most 2 (2 = two or more).
pub fn derivations(c: &Core, w: &[char]) -> u8 {
    let n = w.len();
    type T = Vec<Vec<u8>>;
    let mut fix: HashMap<usize, T> = HashMap::new();
    fn add(a: u8, b: u8) -> u8 {
        (a + b).min(2)
    }
    fn go(c: &Core, w: &[char], fix: &mut HashMap<usize, T>, changed: &mut bool) -> T {
        let n = w.len();
        let zero = || vec![vec![0u8; n + 1]; n + 1];
        match &c.k {
            K::Eps => {
                let mut t = zero();
                for i in 0..=n {
                    t[i][i] = 1
                }
                t
            }
            K::Lit(s) => {
                let s: Vec<char> = s.chars().collect();
                let mut t = zero();
                for i in 0..=n {
                    if i + s.len() <= n && w[i..i + s.len()] == s[..] {
                        t[i][i + s.len()] = 1
                    }
                }
                t
            }
            K::Cat(v, _) => {
                let mut r = go(&v[0], w, fix, changed);
                for x in &v[1..] {
                    let u = go(x, w, fix, changed);
                    let mut t = zero();
                    for i in 0..=n {
                        for j in i..=n {
                            if r[i][j] > 0 {
                                for k in j..=n {
                                    if u[j][k] > 0 {
                                        t[i][k] = add(t[i][k], (r[i][j] * u[j][k]).min(2));
                                    }
                                }
                            }
                        }
                    }
                    r = t;
                }
                r
            }
            K::Alt(v, _) => {
                let mut r = go(&v[0], w, fix, changed);
                for x in &v[1..] {
                    let u = go(x, w, fix, changed);
                    for i in 0..=n {
                        for j in i..=n {
                            r[i][j] = add(r[i][j], u[i][j]);
                        }
                    }
                }
                r
            }
            K::Fix(id, b) => {
                let r = go(b, w, fix, changed);
                let old = fix.insert(*id, r.clone());
                match old {
                    Some(o) => {
                        if o != r {
                            *changed = true
                        }
                    }
                    None => {
                        if r.iter().flatten().any(|x| *x != 0) {
                            *changed = true
                        }
                    }
                }
                r
            }
            K::Var(id) => fix.get(id).cloned().unwrap_or_else(zero),
            _ => zero(),
        }
    }
    loop {
        let mut changed = false;
        let r = go(c, w, &mut fix, &mut changed);
        if !changed {
            return r[0][n];
        }
    }
}

/// A derivation tree.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum D {
    Eps,
    Lit(String),
    Cat(Vec<D>),
    Alt(usize, Box<D>),
    /// Through a recursive reference.
    Rec(Box<D>),
}

/// The derivation of `w[0..end]` (any, if several).
pub fn derive(c: &Core, w: &[char], end: usize) -> Option<D> {
    let w = &w[..end];
    if end > MAXLEN {
        let (d, i) = Pred::new(c).run(w);
        return d.filter(|_| i == end);
    }
    let s = spans(c, w);
    let mut fixes: HashMap<usize, &Core> = HashMap::new();
    c.walk(&mut |x| {
        if let K::Fix(id, b) = &x.k {
            fixes.insert(*id, b);
        }
    });
    fn go(c: &Core, i: usize, j: usize, s: &Spans, fixes: &HashMap<usize, &Core>, depth: usize) -> Option<D> {
        if depth > 2000 || s.tab[&c.id][i] & (1u128 << j) == 0 {
            return None;
        }
        match &c.k {
            K::Eps => Some(D::Eps),
            K::Lit(t) => Some(D::Lit(t.clone())),
            K::Alt(v, _) => {
                for (n, x) in v.iter().enumerate() {
                    if let Some(d) = go(x, i, j, s, fixes, depth + 1) {
                        return Some(D::Alt(n, Box::new(d)));
                    }
                }
                None
            }
            K::Cat(v, _) => {
                fn seq(
                    v: &[Core],
                    i: usize,
                    j: usize,
                    s: &Spans,
                    fixes: &HashMap<usize, &Core>,
                    depth: usize,
                    dead: &mut BTreeSet<(usize, usize)>,
                ) -> Option<Vec<D>> {
                    if v.is_empty() {
                        return if i == j { Some(vec![]) } else { None };
                    }
                    if dead.contains(&(v.len(), i)) {
                        return None;
                    }
                    let mut m = s.tab[&v[0].id][i];
                    while m != 0 {
                        let k = m.trailing_zeros() as usize;
                        m &= m - 1;
                        if k > j {
                            break;
                        }
                        if let Some(mut rest) = seq(&v[1..], k, j, s, fixes, depth, dead) {
                            if let Some(d) = go(&v[0], i, k, s, fixes, depth + 1) {
                                rest.insert(0, d);
                                return Some(rest);
                            }
                        }
                    }
                    dead.insert((v.len(), i));
                    None
                }
                seq(v, i, j, s, fixes, depth, &mut BTreeSet::new()).map(D::Cat)
            }
            K::Fix(_, b) => go(b, i, j, s, fixes, depth + 1),
            K::Var(id) => go(fixes[id], i, j, s, fixes, depth + 1).map(|d| D::Rec(Box::new(d))),
            _ => None,
        }
    }
    go(c, 0, end, &s, &fixes, 0)
}

// ---------------------------------------------------------------- productivity and prefixes

/// Least number of characters of a string of each node; absent = empty language.
pub fn minlen(c: &Core) -> HashMap<usize, usize> {
    let mut fix: HashMap<usize, usize> = HashMap::new();
    let mut tab: HashMap<usize, usize> = HashMap::new();
    fn go(
        c: &Core,
        fix: &mut HashMap<usize, usize>,
        tab: &mut HashMap<usize, usize>,
        changed: &mut bool,
    ) -> Option<usize> {
        let r = match &c.k {
            K::Eps => Some(0),
            K::Lit(s) => Some(s.chars().count()),
            K::Cat(v, _) => {
                let mut t = Some(0usize);
                for x in v {
                    let u = go(x, fix, tab, changed);
                    t = match (t, u) {
                        (Some(a), Some(b)) => Some(a.saturating_add(b)),
                        _ => None,
                    };
                }
                t
            }
            K::Alt(v, _) => {
                let mut t: Option<usize> = None;
                for x in v {
                    if let Some(u) = go(x, fix, tab, changed) {
                        t = Some(t.map_or(u, |t| t.min(u)));
                    }
                }
                t
            }
            K::Fix(id, b) => {
                let r = go(b, fix, tab, changed);
                if let Some(u) = r {
                    if fix.insert(*id, u) != Some(u) {
                        *changed = true
                    }
                }
                r
            }
            K::Var(id) => fix.get(id).copied(),
            _ => None,
        };
        if let Some(u) = r {
            tab.insert(c.id, u);
        }
        r
    }
    loop {
        let mut changed = false;
        go(c, &mut fix, &mut tab, &mut changed);
        if !changed {
            return tab;
        }
    }
}

/// Every sub-expression matches something.
pub fn productive(c: &Core) -> bool {
    let m = minlen(c);
    let mut ok = true;
    c.walk(&mut |x| ok &= m.contains_key(&x.id));
    ok
}

/// Whether `w` can be extended to a string of the language.  Needs a productive program.
pub fn viable(c: &Core, w: &[char]) -> bool {
    if w.len() > MAXLEN {
        return longest_viable(c, w) == w.len();
    }
    let s = spans(c, w);
    let n = w.len();
    let mut fix: HashMap<usize, u128> = HashMap::new();
    // mask of starts i from which w[i..] is a prefix of a string of the node
    fn go(c: &Core, w: &[char], s: &Spans, fix: &mut HashMap<usize, u128>, changed: &mut bool) -> u128 {
        let n = w.len();
        match &c.k {
            K::Eps => 1 << n,
            K::Lit(t) => {
                let t: Vec<char> = t.chars().collect();
                let mut m = 0;
                for i in 0..=n {
                    if n - i <= t.len() && w[i..] == t[..n - i] {
                        m |= 1 << i
                    }
                }
                m
            }
            K::Alt(v, _) => {
                let mut m = 0;
                for x in v {
                    m |= go(x, w, s, fix, changed)
                }
                m
            }
            K::Cat(v, _) => {
                // from the right: later parts matter only if the parts before end inside w
                let parts: Vec<u128> = v.iter().map(|x| go(x, w, s, fix, changed)).collect();
                let mut acc: u128 = parts[v.len() - 1];
                for k in (0..v.len() - 1).rev() {
                    let sp = &s.tab[&v[k].id];
                    let mut m = parts[k];
                    for (i, e) in sp.iter().enumerate() {
                        if e & acc != 0 {
                            m |= 1 << i
                        }
                    }
                    acc = m;
                }
                acc
            }
            K::Fix(id, b) => {
                let r = go(b, w, s, fix, changed);
                let old = fix.insert(*id, r).unwrap_or(0);
                if old != r {
                    *changed = true
                }
                r
            }
            K::Var(id) => fix.get(id).copied().unwrap_or(0),
            _ => 0,
        }
    }
    let _ = n;
    loop {
        let mut changed = false;
        let r = go(c, w, &s, &mut fix, &mut changed);
        if !changed {
            return r & 1 != 0;
        }
    }
}

/// Length of the longest viable prefix.
pub fn longest_viable(c: &Core, w: &[char]) -> usize {
    if w.len() > MAXLEN {
        return Pred::new(c).run(w).1;
    }
    let mut lo = 0;
    while lo < w.len() && viable(c, &w[..lo + 1]) {
        lo += 1;
    }
    lo
}

// ---------------------------------------------------------------- prediction

/// Reads by the next character, which decides everything in a program of the typing discipline.
/// For inputs too long for the span tables, with which it agrees on shorter ones (see the tests).
pub struct Pred<'a> {
    root: &'a Core,
    t: Typing,
    fixes: HashMap<usize, &'a Core>,
}

impl<'a> Pred<'a> {
    pub fn new(root: &'a Core) -> Pred<'a> {
        let t = typing(root).expect("an alphabet");
        assert!(t.violations.is_empty());
        let mut fixes = HashMap::new();
        root.walk(&mut |x| {
            if let K::Fix(id, b) = &x.k {
                fixes.insert(*id, &**b);
            }
        });
        Pred { root, t, fixes }
    }
    /// Whether this applies.
    pub fn fits(c: &Core) -> bool {
        typing(c).map_or(false, |t| t.violations.is_empty())
    }
    /// The derivation of the longest prefix that has one and its length, or nothing and the place
    /// of the first character that cannot come there.
    pub fn run(&self, w: &[char]) -> (Option<D>, usize) {
        let mut i = 0;
        let d = self.go(self.root, w, &mut i);
        (d, i)
    }
    fn go(&self, c: &Core, w: &[char], i: &mut usize) -> Option<D> {
        match &c.k {
            K::Eps => Some(D::Eps),
            K::Lit(s) => {
                for x in s.chars() {
                    if w.get(*i) != Some(&x) {
                        return None;
                    }
                    *i += 1;
                }
                Some(D::Lit(s.clone()))
            }
            K::Cat(v, _) => {
                let mut o = Vec::with_capacity(v.len());
                for x in v {
                    o.push(self.go(x, w, i)?);
                }
                Some(D::Cat(o))
            }
            K::Alt(v, _) => {
                let next = w.get(*i).and_then(|x| self.t.alpha.ix(*x));
                let n = v
                    .iter()
                    .position(|x| next.map_or(false, |k| s_has(&self.t.ty[&x.id].first, k)))
                    .or_else(|| v.iter().position(|x| self.t.ty[&x.id].null))?;
                let d = self.go(&v[n], w, i)?;
                Some(D::Alt(n, Box::new(d)))
            }
            K::Fix(_, b) => self.go(b, w, i),
            K::Var(id) => self.go(self.fixes[id], w, i).map(|d| D::Rec(Box::new(d))),
            _ => None,
        }
    }
}

// ---------------------------------------------------------------- sampling

pub struct Sampler<'a> {
    root: &'a Core,
    /// What contains a recursive reference.
    grows: HashSet<usize>,
    min: HashMap<usize, usize>,
    fixes: HashMap<usize, &'a Core>,
    pub alpha: Vec<char>,
}

impl<'a> Sampler<'a> {
    pub fn new(root: &'a Core) -> Sampler<'a> {
        let mut fixes = HashMap::new();
        let mut al = BTreeSet::new();
        let mut grows = HashSet::new();
        fn has_var(c: &Core, o: &mut HashSet<usize>) -> bool {
            let mut r = matches!(c.k, K::Var(_));
            for x in c.kids() {
                r |= has_var(x, o)
            }
            if r {
                o.insert(c.id);
            }
            r
        }
        has_var(root, &mut grows);
        root.walk(&mut |x| {
            if let K::Fix(id, b) = &x.k {
                fixes.insert(*id, &**b);
            }
            if let K::Lit(s) = &x.k {
                al.extend(s.chars());
            }
        });
        Sampler {
            root,
            grows,
            min: minlen(root),
            fixes,
            alpha: al.into_iter().collect(),
        }
    }
    /// A string of the language, or none if it is empty.
    pub fn word(&self, rng: &mut Rng, budget: usize) -> Option<String> {
        self.min.get(&self.root.id)?;
        let mut o = String::new();
        let mut b = budget as isize;
        let mut steps = 0usize;
        let long = budget > 100;
        if self.go(self.root, rng, &mut b, &mut o, &mut steps, 0, long) {
            Some(o)
        } else {
            None
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn go(&self, c: &Core, rng: &mut Rng, b: &mut isize, o: &mut String, steps: &mut usize, depth: usize, long: bool) -> bool {
        *steps += 1;
        if *steps > if long { 200_000 } else { 5000 } || depth > if long { 100_000 } else { 800 } {
            return false;
        }
        match &c.k {
            K::Eps => true,
            K::Lit(s) => {
                o.push_str(s);
                *b -= s.chars().count() as isize + 1;
                true
            }
            K::Cat(v, _) => v.iter().all(|x| self.go(x, rng, b, o, steps, depth + 1, long)),
            K::Alt(v, _) => {
                let can: Vec<&Core> = v.iter().filter(|x| self.min.contains_key(&x.id)).collect();
                if can.is_empty() {
                    return false;
                }
                let x = if *b <= 0 {
                    // the cheapest way out: least length, then least size
                    can.iter().min_by_key(|x| (self.min[&x.id], x.size())).unwrap()
                } else {
                    let more: Vec<&Core> = if long && rng.chance(49, 50) {
                        can.iter().filter(|x| self.grows.contains(&x.id)).copied().collect()
                    } else {
                        vec![]
                    };
                    if more.is_empty() {
                        can[rng.below(can.len())]
                    } else {
                        more[rng.below(more.len())]
                    }
                };
                self.go(x, rng, b, o, steps, depth + 1, long)
            }
            K::Fix(_, x) => self.go(x, rng, b, o, steps, depth + 1, long),
            K::Var(id) => {
                *b -= 1;
                self.go(self.fixes[id], rng, b, o, steps, depth + 1, long)
            }
            _ => false,
        }
    }

    /// Some long strings of the language and near misses, where there are any.
    pub fn long(&self, rng: &mut Rng, n: usize) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        if self.grows.is_empty() || !Pred::fits(self.root) {
            return v;
        }
        let cap = (60_000 / self.root.size().max(1)).clamp(150, 4000);
        for _ in 0..n {
            let b = match rng.below(3) {
                0 => rng.range(130, 300),
                1 => rng.range(200, 1000),
                _ => rng.range(300, 4000),
            };
            if let Some(w) = self.word(rng, b.min(cap)) {
                let k = w.chars().count();
                if k > MAXIN && k <= 2 * cap {
                    if rng.chance(1, 2) {
                        let m = self.mutate(rng, &w, &v);
                        v.push(m)
                    }
                    v.push(w)
                }
            }
        }
        v
    }

    /// Members, near misses and arbitrary strings.
    pub fn inputs(&self, rng: &mut Rng, n: usize, maxlen: usize) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        let mut members: Vec<String> = vec![];
        for k in 0..n {
            let b = match k % 4 {
                0 => 2,
                1 => 6,
                2 => 12,
                _ => 25,
            };
            let w = match self.word(rng, b) {
                Some(w) if w.chars().count() <= maxlen => w,
                _ => self.soup(rng, 6),
            };
            members.push(w.clone());
            if rng.chance(2, 5) {
                v.push(w);
            } else if rng.chance(1, 8) {
                // what may look as if it belonged to the word
                let end = *rng.pick(&["\n", "\r\n", "\r", " ", "\t", "\u{feff}", "\0", "\u{301}"]);
                let c = dict().char(rng).to_string();
                let end = if dict().now(rng, 4, 'c') { &c } else { end };
                v.push(if rng.chance(1, 4) { format!("{}{}", end, w) } else { format!("{}{}", w, end) });
            } else {
                let m = self.mutate(rng, &w, &members);
                v.push(m);
            }
        }
        v.push(String::new());
        v.push(self.soup(rng, 4));
        v.retain(|w| w.chars().count() <= maxlen);
        v.sort();
        v.dedup();
        rng.shuffle(&mut v);
        v
    }
    pub fn any_char(&self, rng: &mut Rng) -> char {
        if self.alpha.is_empty() || rng.chance(1, 8) {
            if dict().now(rng, 4, 'c') {
                return dict().char(rng);
            }
            *rng.pick(&[
                'q', 'é', '\n', '#', '\u{1F600}', '\u{2028}', '\r', ' ', '\t', '\0', '\u{feff}', '\u{85}', '\u{b}', '\u{7f}', '\u{301}', '\u{200b}',
                '\u{a0}', '\u{ffff}', '\u{10ffff}', '0', '"',
            ])
        } else {
            *rng.pick(&self.alpha)
        }
    }
    pub fn soup(&self, rng: &mut Rng, max: usize) -> String {
        (0..rng.below(max + 1)).map(|_| self.any_char(rng)).collect()
    }
    pub fn mutate(&self, rng: &mut Rng, w: &str, others: &[String]) -> String {
        let mut c: Vec<char> = w.chars().collect();
        for _ in 0..1 + rng.below(2) {
            let n = c.len();
            match rng.below(8) {
                0 if n > 0 => {
                    c.remove(rng.below(n));
                }
                1 => {
                    let x = self.any_char(rng);
                    c.insert(rng.below(n + 1), x)
                }
                2 if n > 0 => c[rng.below(n)] = self.any_char(rng),
                3 if n > 1 => {
                    let i = rng.below(n - 1);
                    c.swap(i, i + 1)
                }
                4 if n > 0 => c.truncate(rng.below(n)),
                5 => c.push(self.any_char(rng)),
                6 if !others.is_empty() => {
                    // splice with another member
                    let o: Vec<char> = rng.pick(others).chars().collect();
                    let i = rng.below(n + 1);
                    let j = rng.below(o.len() + 1);
                    c.truncate(i);
                    c.extend_from_slice(&o[j..]);
                }
                _ if n > 1 => {
                    let i = rng.below(n);
                    let j = rng.range(i, n - 1);
                    let dup: Vec<char> = c[i..=j].to_vec();
                    for (k, x) in dup.into_iter().enumerate() {
                        c.insert(j + 1 + k, x)
                    }
                }
                _ => {}
            }
        }
        c.into_iter().collect()
    }
}

/// All strings over `alpha` up to the length that keeps their number below `cap`.
pub fn short_words(alpha: &[char], cap: usize, maxlen: usize) -> Vec<Vec<char>> {
    let mut out: Vec<Vec<char>> = vec![vec![]];
    let mut level: Vec<Vec<char>> = vec![vec![]];
    if alpha.is_empty() {
        return out;
    }
    for _ in 0..maxlen {
        if out.len() + level.len() * alpha.len() > cap {
            break;
        }
        let mut next = vec![];
        for w in &level {
            for c in alpha {
                let mut x = w.clone();
                x.push(*c);
                next.push(x);
            }
        }
        out.extend(next.iter().cloned());
        level = next;
    }
    out
}

#[cfg(test)]
mod tests {
    use super::*;

    /// Prediction and span tables agree where both apply.
    #[test]
    fn pred() {
        crate::engine::big_stack(|| {
            let mut n = 0;
            for seed in 0..3000 {
                let mut rng = Rng::of(&[seed]);
                let (_, core) = crate::run::good_program(&mut rng, None, 300);
                let s = Sampler::new(&core);
                let p = Pred::new(&core);
                let ok = productive(&core);
                for w in s.inputs(&mut rng, 12, MAXIN) {
                    let w: Vec<char> = w.chars().collect();
                    let (d, i) = p.run(&w);
                    assert_eq!(d.is_some() && i == w.len(), accepts(&core, &w));
                    if d.is_some() {
                        assert_eq!(d, derive(&core, &w, i));
                    }
                    if ok {
                        assert_eq!(i, longest_viable(&core, &w), "{:?}", w);
                    }
                    n += 1;
                }
            }
            println!("{} inputs", n);
        })
    }
}
