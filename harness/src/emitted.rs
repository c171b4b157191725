//! The types in emitted code, and how they line up with an expanded program.

use std::collections::{BTreeMap, BTreeSet, HashMap};

use crate::lang::D;
use crate::model::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Def {
    Unit,
    Tuple(Vec<String>),
    Named(Vec<(String, String)>),
    Enum(Vec<(String, String)>),
    Alias(String),
    /// Something this reader has no notion of.
    Other,
}

#[derive(Clone, Debug, Default)]
pub struct Code {
    pub defs: BTreeMap<String, Def>,
    /// Types that are not public, or have a field that is not.
    pub hidden: BTreeSet<String>,
}

fn public(v: &syn::Visibility) -> bool {
    matches!(v, syn::Visibility::Public(_))
}

fn plain(i: &syn::Ident) -> String {
    let s = i.to_string();
    s.strip_prefix("r#").map(|x| x.to_owned()).unwrap_or(s)
}

/// The name of a type, boxes taken off.
fn ty(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => match p.path.segments.last() {
            Some(s) => {
                if s.ident == "Box" {
                    if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                        if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                            return ty(t);
                        }
                    }
                }
                plain(&s.ident)
            }
            None => "?".into(),
        },
        syn::Type::Paren(p) => ty(&p.elem),
        syn::Type::Group(p) => ty(&p.elem),
        _ => "?".into(),
    }
}

impl Code {
    pub fn read(text: &str) -> Result<Code, String> {
        let f = syn::parse_file(text).map_err(|e| e.to_string())?;
        let mut c = Code::default();
        for i in f.items {
            match i {
                syn::Item::Struct(s) => {
                    let d = match &s.fields {
                        syn::Fields::Unit => Def::Unit,
                        syn::Fields::Unnamed(u) if u.unnamed.is_empty() => Def::Unit,
                        syn::Fields::Unnamed(u) => Def::Tuple(u.unnamed.iter().map(|f| ty(&f.ty)).collect()),
                        syn::Fields::Named(u) => Def::Named(
                            u.named
                                .iter()
                                .map(|f| (f.ident.as_ref().map_or(String::new(), plain), ty(&f.ty)))
                                .collect(),
                        ),
                    };
                    if !public(&s.vis) || s.fields.iter().any(|f| !public(&f.vis)) {
                        c.hidden.insert(plain(&s.ident));
                    }
                    c.defs.insert(plain(&s.ident), d);
                }
                syn::Item::Enum(e) => {
                    let v = e
                        .variants
                        .iter()
                        .map(|v| {
                            let t = match &v.fields {
                                syn::Fields::Unnamed(u) if u.unnamed.len() == 1 => ty(&u.unnamed[0].ty),
                                syn::Fields::Named(u) if u.named.len() == 1 => ty(&u.named[0].ty),
                                _ => "?".into(),
                            };
                            (plain(&v.ident), t)
                        })
                        .collect();
                    if !public(&e.vis) {
                        c.hidden.insert(plain(&e.ident));
                    }
                    c.defs.insert(plain(&e.ident), Def::Enum(v));
                }
                syn::Item::Type(t) => {
                    if !public(&t.vis) {
                        c.hidden.insert(plain(&t.ident));
                    }
                    c.defs.insert(plain(&t.ident), Def::Alias(ty(&t.ty)));
                }
                _ => {}
            }
        }
        Ok(c)
    }

    /// Follows aliases.
    pub fn resolve(&self, n: &str) -> String {
        let mut n = n.to_owned();
        for _ in 0..10_000 {
            match self.defs.get(&n) {
                Some(Def::Alias(m)) => n = m.clone(),
                _ => return n,
            }
        }
        n
    }

    pub fn def(&self, n: &str) -> Def {
        match self.defs.get(n) {
            Some(d) => d.clone(),
            // the runtime's own type
            None if n == "Epsilon" => Def::Other,
            None => Def::Other,
        }
    }

    pub fn units(&self) -> Vec<String> {
        self.defs
            .iter()
            .filter(|(_, d)| **d == Def::Unit)
            .map(|(n, _)| n.clone())
            .collect()
    }
}

/// Which type each node of the program got.
#[derive(Debug, Default)]
pub struct Map {
    /// Node id to resolved type name.
    pub ty: HashMap<usize, String>,
    /// Literal texts by unit type.
    pub lits: BTreeMap<String, BTreeSet<String>>,
}

/// Lines up program and types; an error says where they differ in shape.
pub fn line_up(code: &Code, core: &Core) -> Result<Map, String> {
    let mut m = Map::default();
    let mut fixes: HashMap<usize, String> = HashMap::new();
    fn go(code: &Code, c: &Core, t: &str, m: &mut Map, fixes: &mut HashMap<usize, String>) -> Result<(), String> {
        let t = code.resolve(t);
        if let K::Fix(id, b) = &c.k {
            fixes.insert(*id, t.clone());
            m.ty.insert(c.id, t.clone());
            return go(code, b, &t, m, fixes);
        }
        if let K::Var(id) = &c.k {
            m.ty.insert(c.id, t.clone());
            return match fixes.get(id) {
                Some(u) if *u == t => Ok(()),
                u => Err(format!("a recursive reference has type {}, its fixed point {:?}", t, u)),
            };
        }
        m.ty.insert(c.id, t.clone());
        let d = code.def(&t);
        match (&c.k, d) {
            (K::Eps, Def::Unit) | (K::Eps, Def::Other) => Ok(()),
            (K::Lit(s), Def::Unit) => {
                m.lits.entry(t).or_default().insert(s.clone());
                Ok(())
            }
            (K::Cat(v, _), Def::Tuple(ts)) if ts.len() == v.len() => {
                for (x, t) in v.iter().zip(&ts) {
                    go(code, x, t, m, fixes)?
                }
                Ok(())
            }
            (K::Cat(v, _), Def::Named(ts)) | (K::Alt(v, _), Def::Enum(ts)) if ts.len() == v.len() => {
                for (x, t) in v.iter().zip(&ts) {
                    go(code, x, &t.1, m, fixes)?
                }
                Ok(())
            }
            (k, d) => {
                let what = match k {
                    K::Eps => "the empty string".to_owned(),
                    K::Lit(s) => format!("the literal {:?}", s),
                    K::Cat(v, _) => format!("a sequence of {}", v.len()),
                    K::Alt(v, _) => format!("a choice of {}", v.len()),
                    _ => "something else".into(),
                };
                Err(format!("type {} for {} is {:?}", t, what, d))
            }
        }
    }
    go(code, core, "Ast", &mut m, &mut fixes)?;
    Ok(m)
}

/// What `{:?}` must print for a derivation.
pub fn debug_of(code: &Code, core: &Core, d: &D) -> String {
    let mut fixes: HashMap<usize, &Core> = HashMap::new();
    core.walk(&mut |x| {
        if let K::Fix(id, b) = &x.k {
            fixes.insert(*id, b);
        }
    });
    fn go(code: &Code, c: &Core, t: &str, d: &D, fixes: &HashMap<usize, &Core>, o: &mut String) {
        let t = code.resolve(t);
        match (&c.k, d) {
            (K::Fix(_, b), d) => go(code, b, &t, d, fixes, o),
            (K::Var(id), D::Rec(d)) => go(code, fixes[id], &t, d, fixes, o),
            (K::Eps, _) | (K::Lit(_), _) => o.push_str(&t),
            (K::Cat(v, _), D::Cat(ds)) => match code.def(&t) {
                Def::Named(ts) => {
                    o.push_str(&t);
                    o.push_str(" { ");
                    for (i, ((x, t), d)) in v.iter().zip(&ts).zip(ds).enumerate() {
                        if i > 0 {
                            o.push_str(", ")
                        }
                        o.push_str(&t.0);
                        o.push_str(": ");
                        go(code, x, &t.1, d, fixes, o);
                    }
                    o.push_str(" }");
                }
                Def::Tuple(ts) => {
                    o.push_str(&t);
                    o.push('(');
                    for (i, ((x, t), d)) in v.iter().zip(&ts).zip(ds).enumerate() {
                        if i > 0 {
                            o.push_str(", ")
                        }
                        go(code, x, t, d, fixes, o);
                    }
                    o.push(')');
                }
                _ => o.push('?'),
            },
            (K::Alt(v, _), D::Alt(i, d)) => match code.def(&t) {
                Def::Enum(ts) => {
                    o.push_str(&ts[*i].0);
                    o.push('(');
                    go(code, &v[*i], &ts[*i].1, d, fixes, o);
                    o.push(')');
                }
                _ => o.push('?'),
            },
            _ => o.push('?'),
        }
    }
    let mut o = String::new();
    go(code, core, "Ast", d, &fixes, &mut o);
    o
}

// ---------------------------------------------------------------- names

fn ident(s: &str) -> bool {
    use syn::ext::IdentExt;
    use syn::parse::Parser;
    syn::Ident::parse_any.parse_str(s).is_ok()
}

/// A case change, unless nothing of the name is left.
fn cased(s: &str, camel: bool) -> String {
    use heck::{CamelCase, SnakeCase};
    let t = if camel { s.to_camel_case() } else { s.to_snake_case() };
    if ident(&t) {
        t
    } else {
        s.to_owned()
    }
}

/// Whether the names are the ones these sub-expressions should give.
/// `None`: the expected names clash, nothing is said about them.
pub fn names_fit(kids: &[Core], actual: &[String], camel: bool) -> Option<bool> {
    let default = if camel { "Branch" } else { "part" };
    // possible bases for each; the empty one stands for unnamed
    let opts: Vec<Vec<Option<String>>> = kids
        .iter()
        .map(|k| {
            let a = k.names.allowed();
            let mut v: Vec<Option<String>> = a.iter().map(|n| Some(cased(n, camel))).collect();
            if v.is_empty() {
                v.push(None)
            }
            v
        })
        .collect();
    let spell = |pick: &[&Option<String>]| -> Vec<String> {
        let mut seen: HashMap<&str, usize> = HashMap::new();
        pick.iter()
            .enumerate()
            .map(|(i, b)| match b {
                None => format!("{}{}", default, i + 1),
                Some(b) => {
                    let n = seen.entry(b.as_str()).or_insert(0);
                    *n += 1;
                    format!("{}{}", b, n)
                }
            })
            .collect()
    };
    // few choices in practice
    let total: usize = opts.iter().fold(1usize, |a, o| a.saturating_mul(o.len()));
    if total > 5000 {
        return None;
    }
    let mut fit = false;
    let mut clash = false;
    for mut k in 0..total {
        let pick: Vec<&Option<String>> = opts
            .iter()
            .map(|o| {
                let x = &o[k % o.len()];
                k /= o.len();
                x
            })
            .collect();
        let s = spell(&pick);
        let set: BTreeSet<&String> = s.iter().collect();
        if set.len() < s.len() {
            clash = true
        } else if s == actual {
            fit = true
        }
    }
    if fit {
        Some(true)
    } else if clash {
        None
    } else {
        Some(false)
    }
}

/// Every sequence and choice by the type it got.
pub fn by_type<'a>(core: &'a Core, m: &Map) -> BTreeMap<String, Vec<&'a Core>> {
    let mut out: BTreeMap<String, Vec<&Core>> = BTreeMap::new();
    core.walk(&mut |x| {
        if matches!(x.k, K::Cat(..) | K::Alt(..)) {
            if let Some(t) = m.ty.get(&x.id) {
                out.entry(t.clone()).or_default().push(x)
            }
        }
    });
    out
}
