//! Compiles generated code and runs it on inputs.

use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use serde_json::Value;

use crate::engine::Scratch;
use crate::util::*;

const PRELUDE: &str = include_str!("../rt/prelude.rs");

#[derive(Clone, Debug)]
pub enum Source {
    Code(String),
    /// The program inside a macro invocation.
    Macro(String),
}

#[derive(Clone, Debug)]
pub struct Job {
    pub src: Source,
    /// Also convert results to `char`.
    pub to_char: bool,
    /// Also compare streams and count operations.
    pub full: bool,
    /// Also compare the results for all inputs with each other.
    pub values: bool,
    /// Nodes of the expanded program; bounds the work.
    pub size: usize,
    pub inputs: Vec<String>,
    /// Unit structs whose printed form is wanted.
    pub units: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PErr {
    pub kind: String,
    pub line: usize,
    pub col: usize,
    pub got: String,
    pub expected: String,
    pub shown: String,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Parsed {
    Ok { shown: String, debug: String, again: String },
    Err(PErr),
    Panic(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Taken {
    Ok(String),
    Err(PErr),
    Panic(String),
    Loop,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Counts {
    pub consumed: usize,
    pub pulled: usize,
    pub ops: usize,
    pub line: usize,
    pub col: usize,
    pub rest: String,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct InOut {
    pub parsed: Option<Parsed>,
    pub taken: Option<Taken>,
    pub counts: Counts,
    pub streams: Option<String>,
    pub ch: Option<String>,
    /// How the same text fares when it is parsed again.
    pub again: Option<String>,
    /// How a parse into a box compares.
    pub boxed: Option<String>,
    pub crash: Option<String>,
    /// How the results for all inputs compare, with the first input only.
    pub values: Option<String>,
    /// Printed forms of unit structs, with the first input only.
    pub units: Vec<(String, String)>,
}

#[derive(Clone, Debug)]
pub enum Out {
    /// rustc rejects the generated code (or the glue beside it).
    NoCompile { glue: bool, msgs: Vec<String> },
    Ran(Vec<InOut>),
    /// The batch could not be judged (the harness failed).
    Lost(String),
}

fn rustc() -> Command {
    let mut c = Command::new("rustc");
    c.env("RUST_BACKTRACE", "0").stdin(Stdio::null());
    c
}

/// Shared build products, made by the parent and announced through the environment.
pub fn shared() -> PathBuf {
    PathBuf::from(std::env::var_os("VH_SHARED").expect("VH_SHARED"))
}

/// The runtime, freshly compiled from the tree under test.
pub fn setup_rt(dir: &Path) -> Result<(), String> {
    let o = rustc()
        .args(["--edition", "2018", "--crate-name", "chewed", "--crate-type", "rlib"])
        .args(["-A", "warnings", "-Cdebuginfo=0", "-Copt-level=1", "-Cdebug-assertions=on", "-Coverflow-checks=on"])
        .arg("--out-dir")
        .arg(dir)
        .arg(crate::engine::repo().join("chewed/src/lib.rs"))
        .output()
        .map_err(|e| e.to_string())?;
    if o.status.success() {
        Ok(())
    } else {
        Err(String::from_utf8_lossy(&o.stderr).into_owned())
    }
}

/// The macro and the command-line compilers, built by cargo from the tree under test.
pub fn setup_bins(dir: &Path) -> Result<(), String> {
    let o = Command::new("cargo")
        .args(["build", "--offline", "--message-format=json"])
        .args(["-p", "chomp", "-p", "autonibble", "-p", "chomp-macro", "--bins", "--lib"])
        .arg("--manifest-path")
        .arg(crate::engine::repo().join("Cargo.toml"))
        .arg("--target-dir")
        .arg(crate::engine::verif().join("target/repo"))
        .env("RUSTFLAGS", "-Awarnings -Cdebuginfo=0")
        .stdin(Stdio::null())
        .stderr(Stdio::piped())
        .output()
        .map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(String::from_utf8_lossy(&o.stderr).into_owned());
    }
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let v: Value = match serde_json::from_str(l) {
            Ok(v) => v,
            Err(_) => continue,
        };
        if v["reason"] != "compiler-artifact" {
            continue;
        }
        let name = v["target"]["name"].as_str().unwrap_or("").replace('-', "_");
        let save = |from: &str, to: &str| fs::copy(from, dir.join(to)).map(|_| ()).map_err(|e| e.to_string());
        if let Some(e) = v["executable"].as_str() {
            save(e, &format!("bin_{}", name))?;
        }
        if name == "chomp_macro" {
            for f in v["filenames"].as_array().into_iter().flatten() {
                if let Some(f) = f.as_str() {
                    if f.ends_with(".so") {
                        save(f, "libchomp_macro.so")?;
                    }
                }
            }
        }
    }
    Ok(())
}

struct RustcError {
    files: BTreeSet<String>,
    msg: String,
    /// Where the primary span starts, line and column from 1.
    at: Option<(usize, usize)>,
}

/// Compiler errors by file.
fn errors(stderr: &str) -> Vec<RustcError> {
    let mut out = vec![];
    for l in stderr.lines() {
        let v: Value = match serde_json::from_str(l) {
            Ok(v) => v,
            Err(_) => continue,
        };
        if !v["level"].as_str().unwrap_or("").starts_with("error") {
            continue;
        }
        let mut files = BTreeSet::new();
        fn spans(v: &Value, files: &mut BTreeSet<String>) {
            for s in v["spans"].as_array().into_iter().flatten() {
                let mut s = s;
                loop {
                    if let Some(f) = s["file_name"].as_str() {
                        files.insert(f.rsplit('/').next().unwrap_or(f).to_owned());
                    }
                    if s["expansion"].is_null() {
                        break;
                    }
                    s = &s["expansion"]["span"];
                }
            }
        }
        spans(&v, &mut files);
        for c in v["children"].as_array().into_iter().flatten() {
            spans(c, &mut files);
        }
        let at = v["spans"].as_array().into_iter().flatten().find(|s| s["is_primary"] == true).and_then(|s| {
            Some((s["line_start"].as_u64()? as usize, s["column_start"].as_u64()? as usize))
        });
        out.push(RustcError {
            files,
            msg: v["message"].as_str().unwrap_or("").to_owned(),
            at,
        });
    }
    out
}

fn module_text(j: &Job) -> String {
    match &j.src {
        Source::Code(s) => s.clone(),
        Source::Macro(p) => format!("chomp_macro::nibble! {{ {}\n}}\n", p),
    }
}

fn compile(dir: &Path, root: &str, extra: &[&str], with_macro: bool) -> Result<Vec<RustcError>, String> {
    let mut c = rustc();
    c.current_dir(dir)
        .args(["--edition", "2018", "-A", "warnings", "-A", "text_direction_codepoint_in_literal", "--cap-lints", "allow"])
        .args(["-Cdebuginfo=0", "-Copt-level=0", "-Cdebug-assertions=on", "--error-format=json", "--crate-name", "runner"])
        .args(extra)
        .arg("--extern")
        .arg(format!("chewed={}", shared().join("libchewed.rlib").display()));
    if with_macro {
        c.arg("--extern")
            .arg(format!("chomp_macro={}", shared().join("libchomp_macro.so").display()));
    }
    let o = c.arg(root).output().map_err(|e| e.to_string())?;
    if o.status.success() {
        return Ok(vec![]);
    }
    let text = String::from_utf8_lossy(&o.stderr);
    let e = errors(&text);
    if e.is_empty() {
        return Err(format!("rustc failed without errors ({}): {}", o.status, clip(&text, 600)));
    }
    Ok(e)
}

/// Whether each piece of generated code compiles by itself with only the runtime around.
pub fn compiles(codes: &[String]) -> Vec<Result<(), Vec<String>>> {
    let jobs: Vec<Job> = codes
        .iter()
        .map(|c| Job {
            src: Source::Code(c.clone()),
            to_char: false,
            full: false,
            values: false,
            size: 1,
            inputs: vec![],
            units: vec![],
        })
        .collect();
    build(&jobs, true)
        .1
        .into_iter()
        .map(|r| match r {
            None => Ok(()),
            Some((_, m)) => Err(m),
        })
        .collect()
}

/// Builds a runner out of all jobs that compile.
fn build(jobs: &[Job], check_only: bool) -> (Result<Scratch, String>, Vec<Option<(bool, Vec<String>)>>) {
    let sc = Scratch::new("batch");
    let n = jobs.len();
    let mut bad: Vec<Option<(bool, Vec<String>)>> = vec![None; n];
    let with_macro = jobs.iter().any(|j| matches!(j.src, Source::Macro(_)));
    for (i, j) in jobs.iter().enumerate() {
        fs::write(sc.0.join(format!("g{}.rs", i)), module_text(j)).expect("write");
        fs::write(
            sc.0.join(format!("k{}.rs", i)),
            format!(
                "pub fn f(w: &str) -> String {{ crate::{}::<crate::g{}::Ast>(w, {}, {}) }}\npub fn r(n: usize) -> String {{ {} }}\npub fn u() -> String {{ let mut o = String::new(); {} o }}\n{}{}",
                if j.full { "drive_full" } else { "drive" },
                i,
                if j.to_char { "Some(conv)" } else { "None" },
                j.size,
                if j.full {
                    "String::new()".to_owned()
                } else {
                    format!("crate::again::<crate::g{}::Ast>(n)", i)
                },
                j.units
                    .iter()
                    .map(|u| format!("crate::unit(&mut o, {:?}, &crate::g{}::{});", u, i, u))
                    .collect::<String>(),
                if j.values {
                    format!("pub fn e(ws: &[String]) -> String {{ crate::values::<crate::g{}::Ast>(ws) }}\n", i)
                } else {
                    String::new()
                },
                if j.to_char {
                    format!("fn conv(a: crate::g{}::Ast) -> char {{ char::from(a) }}\n", i)
                } else {
                    String::new()
                }
            ),
        )
        .expect("write");
    }
    let root = |bad: &[Option<(bool, Vec<String>)>]| {
        let mut r = String::new();
        if check_only {
            for i in 0..n {
                if bad[i].is_none() {
                    r.push_str(&format!("pub mod g{};\n", i));
                }
            }
            // the names that users rely on exist and are parsers
            r.push_str("fn is<A: chewed::Parse + std::fmt::Debug + std::fmt::Display + PartialEq + Clone>() {}\n");
            for i in 0..n {
                if bad[i].is_none() {
                    r.push_str(&format!("mod k{};\n", i));
                }
            }
        } else {
            r.push_str(PRELUDE);
            for i in 0..n {
                if bad[i].is_none() {
                    r.push_str(&format!("pub mod g{};\nmod k{};\n", i, i));
                }
            }
            r.push_str("fn units(g: usize) -> String {\nmatch g {\n");
            for i in 0..n {
                if bad[i].is_none() && !jobs[i].units.is_empty() {
                    r.push_str(&format!("{} => k{}::u(),\n", i, i));
                }
            }
            r.push_str("_ => String::new() }\n}\nfn alike(g: usize, ws: &[String]) -> String {\nmatch g {\n");
            for i in 0..n {
                if bad[i].is_none() && jobs[i].values {
                    r.push_str(&format!("{} => k{}::e(ws),\n", i, i));
                }
            }
            r.push_str("_ => String::new() }\n}\n");
            r.push_str("fn repeated(g: usize, n: usize) -> String {\nmatch g {\n");
            for i in 0..n {
                if bad[i].is_none() && !jobs[i].full {
                    r.push_str(&format!("{} => k{}::r(n),\n", i, i));
                }
            }
            r.push_str("_ => String::new() }\n}\n");
            r.push_str("fn dispatch(g: usize, w: &str) -> String {\nmatch g {\n");
            for i in 0..n {
                if bad[i].is_none() {
                    r.push_str(&format!("{} => k{}::f(w),\n", i, i));
                }
            }
            r.push_str("_ => String::new() }\n}\n");
        }
        r
    };
    if check_only {
        for i in 0..n {
            fs::write(sc.0.join(format!("k{}.rs", i)), format!("fn f() {{ crate::is::<crate::g{}::Ast>() }}\n", i)).expect("write");
        }
    }
    let file = if check_only { "lib.rs" } else { "main.rs" };
    for _ in 0..n + 1 {
        fs::write(sc.0.join(file), root(&bad)).expect("write");
        let extra: &[&str] = if check_only {
            &["--crate-type", "rlib", "--emit=metadata"]
        } else {
            &["--crate-type", "bin", "-o", "runner"]
        };
        match compile(&sc.0, file, extra, with_macro) {
            Err(m) => return (Err(m), bad),
            Ok(es) if es.is_empty() => return (Ok(sc), bad),
            Ok(es) => {
                let mut hit: BTreeMap<usize, (bool, Vec<String>)> = BTreeMap::new();
                for RustcError { files, msg: m, .. } in &es {
                    for f in files {
                        let (k, rest) = f.split_at(1);
                        if let Some(i) = rest.strip_suffix(".rs").and_then(|x| x.parse::<usize>().ok()) {
                            if (k == "g" || k == "k") && i < n && bad[i].is_none() {
                                let e = hit.entry(i).or_insert((true, vec![]));
                                if k == "g" {
                                    e.0 = false;
                                }
                                if e.1.len() < 4 && !e.1.contains(m) {
                                    e.1.push(m.clone());
                                }
                            }
                        }
                    }
                }
                if hit.is_empty() {
                    return (
                        Err(format!(
                            "rustc errors outside generated code: {:?}",
                            es.iter().take(3).map(|e| (&e.files, &e.msg)).collect::<Vec<_>>()
                        )),
                        bad,
                    );
                }
                for (i, e) in hit {
                    bad[i] = Some(e);
                }
                if bad.iter().all(|b| b.is_some()) {
                    return (Ok(sc), bad);
                }
            }
        }
    }
    (Err("no end of compile errors".into()), bad)
}

fn text(s: &str) -> String {
    String::from_utf8_lossy(&unhex(s.strip_prefix('x').unwrap_or(s))).into_owned()
}

fn perr(f: &[&str]) -> PErr {
    let g = |i: usize| f.get(i).copied().unwrap_or("");
    PErr {
        kind: g(0).to_owned(),
        line: g(1).parse().unwrap_or(0),
        col: g(2).parse().unwrap_or(0),
        got: text(g(3)),
        expected: text(g(4)),
        shown: text(g(5)),
    }
}

fn absorb(o: &mut InOut, line: &str) {
    let f: Vec<&str> = line.split('\t').collect();
    let g = |i: usize| f.get(i).copied().unwrap_or("");
    match g(0) {
        "P" => {
            o.parsed = Some(match g(1) {
                "ok" => Parsed::Ok {
                    shown: text(g(2)),
                    debug: text(g(3)),
                    again: g(4).to_owned(),
                },
                "err" => Parsed::Err(perr(&f[2..])),
                _ => Parsed::Panic(text(g(2))),
            })
        }
        "T" => {
            o.taken = Some(match g(1) {
                "ok" => Taken::Ok(text(g(2))),
                "err" => Taken::Err(perr(&f[2..])),
                "loop" => Taken::Loop,
                _ => Taken::Panic(text(g(2))),
            })
        }
        "N" => {
            o.counts = Counts {
                consumed: g(1).parse().unwrap_or(0),
                pulled: g(2).parse().unwrap_or(0),
                ops: g(3).parse().unwrap_or(0),
                line: g(4).parse().unwrap_or(0),
                col: g(5).parse().unwrap_or(0),
                rest: text(g(6)),
            }
        }
        "S" => o.streams = Some(g(1).to_owned()),
        "U" => o.units.push((g(1).to_owned(), text(g(2)))),
        "V" => o.values = Some(text(g(1))),
        "X" => o.boxed = Some(g(1).to_owned()),
        "C" => o.ch = Some(text(g(1))),
        _ => {}
    }
}

/// Compiles and runs.
pub fn run(jobs: &[Job]) -> Vec<Out> {
    if jobs.is_empty() {
        return vec![];
    }
    let (built, bad) = build(jobs, false);
    let sc = match built {
        Ok(s) => s,
        Err(m) => {
            // one by one, so that a single piece of code cannot hide the rest
            if jobs.len() > 1 {
                return jobs.iter().flat_map(|j| run(std::slice::from_ref(j))).collect();
            }
            return vec![Out::Lost(m)];
        }
    };
    let mut list = String::new();
    let mut at: Vec<(usize, usize)> = vec![];
    let mut outs: Vec<Vec<InOut>> = vec![vec![]; jobs.len()];
    for (i, j) in jobs.iter().enumerate() {
        if bad[i].is_some() {
            continue;
        }
        for (k, w) in j.inputs.iter().enumerate() {
            list.push_str(&format!("{} {}\n", i, hex(w.as_bytes())));
            at.push((i, k));
            outs[i].push(InOut::default());
        }
    }
    fs::write(sc.0.join("jobs"), &list).expect("write");
    let mut start = 0;
    let mut lost: Option<String> = None;
    while start < at.len() {
        let o = match Command::new(sc.0.join("runner"))
            .arg(sc.0.join("jobs"))
            .arg(start.to_string())
            .stdin(Stdio::null())
            .stderr(Stdio::null())
            .output()
        {
            Ok(o) => o,
            Err(e) => {
                lost = Some(e.to_string());
                break;
            }
        };
        let mut cur: Option<usize> = None;
        let mut done = false;
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            if let Some(k) = l.strip_prefix("B\t") {
                cur = k.parse().ok();
            } else if l.starts_with("E\t") {
                start = cur.take().map_or(start, |k: usize| k + 1);
            } else if l == "D" {
                done = true;
            } else if let Some(k) = cur {
                if k < at.len() && l.starts_with("R\t") {
                    let f: Vec<&str> = l.split('\t').collect();
                    let (i, _) = at[k];
                    let w = text(f.get(1).copied().unwrap_or(""));
                    if let Some(n) = jobs[i].inputs.iter().position(|x| *x == w) {
                        outs[i][n].again = f.get(2).map(|s| s.to_string());
                    }
                } else if k < at.len() {
                    absorb(&mut outs[at[k].0][at[k].1], l);
                }
            }
        }
        if done {
            break;
        }
        match cur {
            Some(k) => {
                use std::os::unix::process::ExitStatusExt;
                // the limit is for all of them together
                if matches!(o.status.signal(), Some(24) | Some(9)) && start < k {
                    start = k;
                    continue;
                }
                let why = match o.status.signal() {
                    Some(24) | Some(9) => "did not end within 20 s of CPU time".to_owned(),
                    Some(s) => format!("died with signal {}", s),
                    None => format!("ended with {:?}", o.status.code()),
                };
                outs[at[k].0][at[k].1].crash = Some(why);
                start = k + 1;
            }
            None => {
                lost = Some(format!("runner ended early: {}", o.status));
                break;
            }
        }
    }
    bad.into_iter()
        .zip(outs)
        .map(|(b, o)| match b {
            Some((glue, msgs)) => Out::NoCompile { glue, msgs },
            None => match &lost {
                Some(m) => Out::Lost(m.clone()),
                None => Out::Ran(o),
            },
        })
        .collect()
}

/// An error at a macro invocation, and where in the program it points, if it does.
#[derive(Clone, Debug)]
pub struct MacroError {
    pub msg: String,
    /// Line and column in the program, the first from 1 and the second from 0.
    pub at: Option<(usize, usize)>,
}

/// What the macro says about programs that should be rejected: the errors at each invocation.
pub fn macro_errors(progs: &[String]) -> Result<Vec<Vec<MacroError>>, String> {
    let sc = Scratch::new("macro");
    let mut root = String::new();
    for (i, p) in progs.iter().enumerate() {
        fs::write(sc.0.join(format!("g{}.rs", i)), format!("chomp_macro::nibble! {{\n{}\n}}\n", p)).expect("write");
        root.push_str(&format!("pub mod g{};\n", i));
    }
    fs::write(sc.0.join("lib.rs"), root).expect("write");
    let es = compile(&sc.0, "lib.rs", &["--crate-type", "rlib", "--emit=metadata"], true)?;
    let mut out = vec![vec![]; progs.len()];
    for e in es {
        for f in &e.files {
            if let Some(i) = f
                .strip_prefix('g')
                .and_then(|x| x.strip_suffix(".rs"))
                .and_then(|x| x.parse::<usize>().ok())
            {
                if i < out.len() {
                    out[i].push(MacroError {
                        msg: e.msg.clone(),
                        at: e.at.filter(|at| at.0 > 1).map(|(l, c)| (l - 1, c - 1)),
                    });
                }
            }
        }
    }
    Ok(out)
}
