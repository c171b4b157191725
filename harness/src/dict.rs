//! Constants of the code under test, to draw inputs from.  A fuzzer's dictionary: it steers the
//! generators and judges nothing.  What does not occur as often as `corpus/dict.json` says is drawn more often.

use std::collections::BTreeMap;
use std::path::Path;
use std::sync::OnceLock;

use proc_macro2::{TokenStream, TokenTree};
use serde_json::{json, Value};

use crate::util::Rng;

const DIRS: &[&str] = &["/repo/src", "/repo/chewed/src", "/repo/autonibble/src", "/repo/chomp-macro/src"];

#[derive(Default)]
pub struct Dict {
    pub chars: Vec<char>,
    pub words: Vec<String>,
    pub names: Vec<String>,
    pub ints: Vec<usize>,
    new_chars: Vec<char>,
    new_words: Vec<String>,
    new_names: Vec<String>,
    new_ints: Vec<usize>,
}

#[derive(Default)]
struct Found {
    chars: BTreeMap<char, usize>,
    words: BTreeMap<String, usize>,
    ints: BTreeMap<usize, usize>,
}

fn one<T: Ord>(m: &mut BTreeMap<T, usize>, t: T) {
    *m.entry(t).or_default() += 1
}

impl Found {
    fn tokens(&mut self, ts: TokenStream) {
        for t in ts {
            match t {
                TokenTree::Group(g) => self.tokens(g.stream()),
                TokenTree::Literal(l) => match syn::Lit::new(l) {
                    syn::Lit::Str(s) => self.word(s.value()),
                    syn::Lit::Char(c) => {
                        one(&mut self.chars, c.value())
                    }
                    syn::Lit::Byte(b) => {
                        one(&mut self.chars, char::from(b.value()))
                    }
                    syn::Lit::ByteStr(b) => self.word(String::from_utf8_lossy(&b.value()).into_owned()),
                    syn::Lit::Int(i) => {
                        if let Ok(n) = i.base10_parse::<u64>() {
                            if n <= 2000 {
                                one(&mut self.ints, n as usize)
                            }
                            if let Some(c) = u32::try_from(n).ok().and_then(std::char::from_u32) {
                                if n > 8 {
                                    one(&mut self.chars, c)
                                }
                            }
                        }
                    }
                    _ => {}
                },
                _ => {}
            }
        }
    }
    fn word(&mut self, s: String) {
        let n = s.chars().count();
        if n <= 16 {
            s.chars().for_each(|c| one(&mut self.chars, c))
        } else {
            s.chars().filter(|c| !c.is_ascii_alphanumeric()).for_each(|c| one(&mut self.chars, c))
        }
        if (2..=16).contains(&n) {
            one(&mut self.words, s)
        }
    }
    fn file(&mut self, p: &Path) {
        let Ok(t) = std::fs::read_to_string(p) else { return };
        if let Ok(ts) = t.parse::<TokenStream>() {
            self.tokens(ts)
        }
    }
    fn dir(&mut self, p: &Path) {
        let Ok(d) = std::fs::read_dir(p) else { return };
        for e in d.flatten() {
            let p = e.path();
            if p.is_dir() {
                self.dir(&p)
            } else if p.extension().map_or(false, |x| x == "rs") {
                self.file(&p)
            }
        }
    }
    fn all() -> Found {
        let mut f = Found::default();
        for d in DIRS {
            f.dir(Path::new(d))
        }
        f
    }
}

pub fn named(s: &str) -> bool {
    let t = s.strip_prefix("r#").unwrap_or(s);
    let mut c = t.chars();
    c.next().map_or(false, |x| x.is_ascii_alphabetic() || x == '_')
        && c.all(|x| x.is_ascii_alphanumeric() || x == '_')
        && t != "_"
        && syn::parse_str::<syn::Ident>(s).is_ok()
        && !["let", "match"].contains(&t)
}

/// The file that says what is old.
pub fn dump() -> String {
    let f = Found::all();
    let cs: BTreeMap<String, usize> = f.chars.iter().map(|(c, n)| (c.to_string(), *n)).collect();
    serde_json::to_string_pretty(&json!({"chars": cs, "words": f.words, "ints": f.ints})).expect("json")
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut f = Found::all();
        let old: Value = serde_json::from_str(include_str!("../corpus/dict.json")).unwrap_or(Value::Null);
        let grown = |k: &str, x: &str, n: usize| n != old[k][x].as_u64().unwrap_or(0) as usize;
        let mut d = Dict::default();
        // what has gone is as interesting as what has come
        for (k, _) in old["chars"].as_object().into_iter().flatten() {
            k.chars().take(1).for_each(|c| {
                f.chars.entry(c).or_default();
            })
        }
        for (k, _) in old["words"].as_object().into_iter().flatten() {
            f.words.entry(k.clone()).or_default();
        }
        for (c, n) in f.chars {
            if grown("chars", &c.to_string(), n) {
                if c.is_ascii_alphabetic() {
                    d.names.push(c.to_string());
                    d.new_names.push(c.to_string());
                }
                d.new_chars.push(c)
            }
            d.chars.push(c)
        }
        for (w, n) in f.words {
            if named(&w) {
                if grown("words", &w, n) {
                    d.new_names.push(w.clone())
                }
                d.names.push(w.clone())
            }
            if grown("words", &w, n) {
                d.new_words.push(w.clone())
            }
            d.words.push(w)
        }
        for (i, n) in f.ints {
            if grown("ints", &i.to_string(), n) {
                d.new_ints.push(i)
            }
            d.ints.push(i)
        }
        d
    })
}

fn pick<T: Clone>(rng: &mut Rng, all: &[T], new: &[T], default: T) -> T {
    if !new.is_empty() && rng.chance(1, 2) {
        return rng.pick(new).clone();
    }
    if all.is_empty() {
        return default;
    }
    rng.pick(all).clone()
}

impl Dict {
    pub fn char(&self, rng: &mut Rng) -> char {
        pick(rng, &self.chars, &self.new_chars, 'q')
    }
    pub fn word(&self, rng: &mut Rng) -> String {
        pick(rng, &self.words, &self.new_words, "qq".to_owned())
    }
    pub fn name(&self, rng: &mut Rng) -> String {
        pick(rng, &self.names, &self.new_names, "qq".to_owned())
    }
    pub fn int(&self, rng: &mut Rng) -> usize {
        pick(rng, &self.ints, &self.new_ints, 3)
    }
    /// Draws from the constants only now and then, more often if some are new.
    pub fn now(&self, rng: &mut Rng, n: usize, what: char) -> bool {
        let new = match what {
            'c' => !self.new_chars.is_empty(),
            'w' => !self.new_words.is_empty(),
            'n' => !self.new_names.is_empty(),
            _ => !self.new_ints.is_empty(),
        };
        rng.chance(if new { 3 } else { 1 }, n.max(3))
    }
}
