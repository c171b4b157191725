//! The engine: cases, sharded workers, crash attribution, confirmation, shrinking, evidence.

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::util::*;

/// A concrete test case.  Everything an oracle needs is in here.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Case {
    pub kind: String,
    pub prog: String,
    pub inputs: Vec<String>,
    pub nums: Vec<u64>,
}

impl Case {
    pub fn new(kind: &str, prog: &str) -> Case {
        Case {
            kind: kind.to_owned(),
            prog: prog.to_owned(),
            inputs: vec![],
            nums: vec![],
        }
    }
    pub fn json(&self) -> Value {
        json!({"kind": self.kind, "prog": self.prog, "inputs": self.inputs, "nums": self.nums})
    }
    pub fn of_json(v: &Value) -> Case {
        let strs = |v: &Value| -> Vec<String> {
            v.as_array()
                .map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_owned()).collect())
                .unwrap_or_default()
        };
        Case {
            kind: v["kind"].as_str().unwrap_or("").to_owned(),
            prog: v["prog"].as_str().unwrap_or("").to_owned(),
            inputs: strs(&v["inputs"]),
            nums: v["nums"]
                .as_array()
                .map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0)).collect())
                .unwrap_or_default(),
        }
    }
    pub fn weight(&self) -> usize {
        self.prog.len()
            + self.inputs.iter().map(|s| s.len() + 1).sum::<usize>()
            + self.nums.iter().map(|n| 1 + (64 - n.leading_zeros() as usize) / 8).sum::<usize>()
    }
}

#[derive(Clone, Debug)]
pub enum V {
    /// Held.  `n`: single evaluations made; `tags`: classes for the evidence.
    Pass { nontrivial: bool, n: u64, tags: Vec<String> },
    /// Broken; the text up to the first `:` is the class of the failure.
    Fail(String),
    /// Outside the domain of the property.
    Skip(String),
}

impl V {
    pub fn pass(nontrivial: bool, tags: &[&str]) -> V {
        V::Pass {
            nontrivial,
            n: 1,
            tags: tags.iter().map(|s| (*s).to_owned()).collect(),
        }
    }
    fn json(&self) -> Value {
        match self {
            V::Pass { nontrivial, n, tags } => json!({"p": nontrivial, "n": n, "t": tags}),
            V::Fail(m) => json!({ "f": m }),
            V::Skip(m) => json!({ "s": m }),
        }
    }
    fn of_json(v: &Value) -> V {
        if let Some(f) = v["f"].as_str() {
            V::Fail(f.to_owned())
        } else if let Some(s) = v["s"].as_str() {
            V::Skip(s.to_owned())
        } else {
            V::Pass {
                nontrivial: v["p"].as_bool().unwrap_or(false),
                n: v["n"].as_u64().unwrap_or(1),
                tags: v["t"]
                    .as_array()
                    .map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_owned()).collect())
                    .unwrap_or_default(),
            }
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    /// Cases per tier.
    pub quick: usize,
    pub thorough: usize,
    /// Cases handed to `check` at once.
    pub batch: usize,
    /// Whether a crash or endless loop of the process running a case breaks the property.
    pub crash: bool,
    /// Whether a failure that does not repeat still counts (the property is about repeatability).
    pub flaky_ok: bool,
    pub gen: fn(&mut Rng, usize) -> Case,
    pub check: fn(&[Case]) -> Vec<V>,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Known findings: (what fails, still failing?).
    pub known: Option<fn() -> Vec<(String, bool)>>,
    /// Build products all processes share, made once per run.
    pub setup: Option<fn(&Path) -> Result<(), String>>,
}

/// Makes the shared build products and announces them to child processes.
fn shared_setup(p: &Prop) -> Option<Scratch> {
    let f = p.setup?;
    let sc = Scratch::new("shared");
    if let Err(m) = f(&sc.0) {
        eprintln!("ERROR: setup for {} failed: {}", p.id, m);
        let _ = fs::remove_dir_all(&sc.0);
        std::process::exit(2);
    }
    std::env::set_var("VH_SHARED", &sc.0);
    Some(sc)
}

pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn repo() -> PathBuf {
    PathBuf::from("/repo")
}

/// Inputs recorded as failing, with what fails.
pub fn known_findings(id: &str) -> Vec<(String, String)> {
    let v: Value = fs::read_to_string(verif().join("known_findings.json"))
        .ok()
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or(Value::Null);
    v["findings"]
        .as_array()
        .into_iter()
        .flatten()
        .filter(|f| f["property"] == id)
        .map(|f| (f["input"].as_str().unwrap_or("").to_owned(), f["what"].as_str().unwrap_or("").to_owned()))
        .collect()
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1)
}

fn thorough() -> bool {
    std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough")
}

fn the_case(p: &Prop, seed: u64, i: usize) -> Case {
    let mut rng = Rng::of(&[seed, hash(p.id), i as u64]);
    (p.gen)(&mut rng, i)
}

/// Runs `f` on a thread with a big stack.
pub fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(f)
        .expect("thread")
        .join()
        .unwrap_or_else(|e| {
            eprintln!("harness: {}", panic_msg(&*e));
            std::process::exit(70)
        })
}

// ---------------------------------------------------------------- worker side

/// Cases after which a worker takes a new thread.
const RENEW: usize = 200;

fn worker(p: &'static Prop, seed: u64, start: usize, step: usize, total: usize, out: &Path) {
    let out = out.to_owned();
    let mut b = start;
    // threads are renewed so that per-thread tables of the token library do not grow
    while b * p.batch < total {
        let out = out.clone();
        let b0 = b;
        b = big_stack(move || {
            let mut f = fs::OpenOptions::new().create(true).append(true).open(&out).expect("out");
            let mut b = b0;
            let mut done = 0;
            while b * p.batch < total && done < RENEW {
                let ix: Vec<usize> = (b * p.batch..((b + 1) * p.batch).min(total)).collect();
                writeln!(f, "B {}", b).unwrap();
                let cases: Vec<Case> = ix.iter().map(|i| the_case(p, seed, *i)).collect();
                let vs = (p.check)(&cases);
                assert_eq!(vs.len(), cases.len(), "verdict per case");
                let mut s = String::new();
                for ((i, c), v) in ix.iter().zip(&cases).zip(&vs) {
                    let h = hash(&c.json().to_string());
                    s.push_str(&format!("R {} {} {}\n", i, h, v.json()));
                }
                s.push_str(&format!("E {}\n", b));
                f.write_all(s.as_bytes()).unwrap();
                done += ix.len();
                b += step;
            }
            b
        });
    }
    let mut f = fs::OpenOptions::new().append(true).create(true).open(&out).expect("out");
    writeln!(f, "D").unwrap();
}

fn eval_cmd(p: &'static Prop, file: &Path) {
    let v: Value = serde_json::from_str(&fs::read_to_string(file).expect("cases")).expect("json");
    let cases: Vec<Case> = v.as_array().expect("array").iter().map(Case::of_json).collect();
    let vs = big_stack(move || (p.check)(&cases));
    let mut s = String::new();
    for v in vs {
        s.push_str(&format!("V {}\n", v.json()));
    }
    print!("{}", s);
}

// ---------------------------------------------------------------- parent side

fn exe() -> PathBuf {
    std::env::current_exe().expect("exe")
}

pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = verif().join(".work").join(format!(
            "{}-{}-{}",
            tag,
            std::process::id(),
            N.fetch_add(1, Ordering::SeqCst)
        ));
        fs::create_dir_all(&d).expect("scratch");
        Scratch(d)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// CPU seconds of a process.
fn cpu(pid: u32) -> f64 {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ended {
    Fine,
    Crashed(String),
    Hung,
}

const HANG_CPU: f64 = 60.0;


fn status_text(st: std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match (st.signal(), st.code()) {
        (Some(s), _) => format!("signal {}", s),
        (_, Some(c)) => format!("exit {}", c),
        _ => "unknown".into(),
    }
}

/// Evaluates cases in one fresh process; on a crash, the verdicts are missing from there on.
fn eval_raw(p: &Prop, cases: &[Case]) -> (Vec<V>, Ended) {
    let sc = Scratch::new("eval");
    let f = sc.0.join("cases.json");
    fs::write(&f, Value::Array(cases.iter().map(Case::json).collect()).to_string()).expect("write");
    let out = sc.0.join("out");
    let mut ch = Command::new(exe())
        .arg("eval")
        .arg(p.id)
        .arg(&f)
        .stdin(Stdio::null())
        .stdout(fs::File::create(&out).expect("out"))
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let t0 = Instant::now();
    let ended = loop {
        match ch.try_wait().expect("wait") {
            Some(st) if st.success() => break Ended::Fine,
            Some(st) => break Ended::Crashed(status_text(st)),
            None => {
                if cpu(ch.id()) > HANG_CPU || t0.elapsed() > Duration::from_secs(300) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break Ended::Hung;
                }
                std::thread::sleep(Duration::from_millis(3));
            }
        }
    };
    let text = fs::read_to_string(&out).unwrap_or_default();
    let vs = text
        .lines()
        .filter_map(|l| l.strip_prefix("V "))
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .map(|v| V::of_json(&v))
        .collect();
    (vs, ended)
}

/// Evaluates one case in a fresh process, crashes turned into verdicts.
fn eval_one(p: &Prop, c: &Case) -> V {
    let (vs, e) = eval_raw(p, std::slice::from_ref(c));
    match e {
        Ended::Fine => vs.into_iter().next().unwrap_or_else(|| V::Skip("no verdict".into())),
        // 70: the harness itself panicked
        Ended::Crashed(s) if s == "exit 70" => V::Skip("harness error".into()),
        Ended::Crashed(s) => {
            if p.crash {
                V::Fail(format!("crash: the process died with {}", s))
            } else {
                V::Skip(format!("process died with {}", s))
            }
        }
        Ended::Hung => {
            if p.crash {
                V::Fail("hang: no end within 60 s of CPU time".into())
            } else {
                V::Skip("hang".into())
            }
        }
    }
}

fn eval_many(p: &Prop, cases: &[Case]) -> Vec<V> {
    if cases.is_empty() {
        return vec![];
    }
    let (vs, e) = eval_raw(p, cases);
    if e == Ended::Fine && vs.len() == cases.len() {
        return vs;
    }
    if cases.len() == 1 {
        return vec![eval_one(p, &cases[0])];
    }
    // split
    let m = cases.len() / 2;
    let mut a = eval_many(p, &cases[..m]);
    a.extend(eval_many(p, &cases[m..]));
    a
}

/// Evaluates a case after others in one fresh process.
fn eval_after(p: &Prop, before: &[Case], c: &Case) -> V {
    let mut all = before.to_vec();
    all.push(c.clone());
    let (mut vs, e) = eval_raw(p, &all);
    if e == Ended::Fine && vs.len() == all.len() {
        return vs.pop().expect("verdict");
    }
    V::Skip("the process died".into())
}

/// A failure that repeats: alone, or after the cases that ran before it in its process.
struct Confirmed {
    before: Vec<Case>,
    case: Case,
    msg: String,
    from: String,
}

fn confirm(p: &Prop, before: impl FnOnce() -> Vec<Case>, c: &Case, msg: &str, from: &str) -> Option<Confirmed> {
    let found = |before: Vec<Case>, msg: String| {
        Some(Confirmed {
            before,
            case: c.clone(),
            msg,
            from: from.to_owned(),
        })
    };
    let mut why = vec![];
    for k in 0..if p.flaky_ok { 6 } else { 3 } {
        match eval_one(p, c) {
            V::Fail(m) => return found(vec![], m),
            v => why.push(clip(&format!("{:?}", v), 200)),
        }
        if k == 1 && !p.flaky_ok {
            std::thread::sleep(Duration::from_millis(500));
        }
    }
    if p.flaky_ok {
        return found(vec![], format!("{} (not every run)", msg));
    }
    let mut before = before();
    if !before.is_empty() {
        let broken = |b: &[Case]| match eval_after(p, b, c) {
            V::Fail(m) if class(&m) == class(msg) => Some(m),
            _ => None,
        };
        if let Some(mut m) = broken(&before) {
            // fewer, while it still fails
            let t0 = Instant::now();
            let mut size = (before.len() + 1) / 2;
            while size > 0 && t0.elapsed() < Duration::from_secs(90) {
                let mut i = 0;
                while i < before.len() && t0.elapsed() < Duration::from_secs(90) {
                    let mut less = before.clone();
                    less.drain(i..(i + size).min(before.len()));
                    match broken(&less) {
                        Some(x) => {
                            before = less;
                            m = x;
                        }
                        None => i += size,
                    }
                }
                size = if size == 1 { 0 } else { (size + 1) / 2 };
            }
            return found(before, m);
        }
    }
    eprintln!("note: {} did not repeat for {} ({}): {}", clip(msg, 400), p.id, from, why.join("; "));
    None
}

fn class(m: &str) -> &str {
    m.split(':').next().unwrap_or("")
}

/// Greedy shrinking, batches of candidates in parallel processes.
fn shrink(p: &'static Prop, c: &Case, msg: &str, limit: Duration) -> (Case, String, usize) {
    let t0 = Instant::now();
    let mut best = c.clone();
    let mut best_msg = msg.to_owned();
    let mut tried: HashSet<String> = HashSet::new();
    let mut n = 0;
    let hang = class(msg) == "hang";
    if hang {
        return (best, best_msg, 0);
    }
    loop {
        let mut cands: Vec<Case> = crate::shrink::candidates(&best)
            .into_iter()
            .filter(|x| x.weight() < best.weight())
            .filter(|x| tried.insert(x.json().to_string()))
            .collect();
        // bold ones first
        cands.sort_by_key(|x| x.weight());
        let mut improved = false;
        let per = 8;
        'outer: for group in cands.chunks(per * 8) {
            if t0.elapsed() > limit {
                return (best, best_msg, n);
            }
            let parts: Vec<Vec<Case>> = group.chunks(per).map(|x| x.to_vec()).collect();
            let hs: Vec<_> = parts
                .into_iter()
                .map(|part| {
                    std::thread::spawn(move || {
                        let v = eval_many(p, &part);
                        (part, v)
                    })
                })
                .collect();
            let mut hit: Option<(Case, String)> = None;
            for h in hs {
                let (part, vs) = h.join().expect("shrink thread");
                n += part.len();
                for (c, v) in part.into_iter().zip(vs) {
                    if let V::Fail(m) = v {
                        if class(&m) == class(msg) && hit.as_ref().map_or(true, |(h, _)| c.weight() < h.weight()) {
                            hit = Some((c, m));
                        }
                    }
                }
            }
            if let Some((c, m)) = hit {
                best = c;
                best_msg = m;
                improved = true;
                break 'outer;
            }
        }
        if !improved {
            return (best, best_msg, n);
        }
    }
}

struct Tally {
    evaluations: u64,
    inner: u64,
    skipped: u64,
    nontrivial: BTreeSet<u64>,
    distinct: BTreeSet<u64>,
    tags: BTreeMap<String, u64>,
    skips: BTreeMap<String, u64>,
    sample_ix: Vec<usize>,
}

fn save_replay(p: &Prop, before: &[Case], c: &Case, msg: &str) -> PathBuf {
    let d = verif().join("evidence").join("replays");
    fs::create_dir_all(&d).expect("replays");
    let f = d.join(format!("{}-{:016x}.json", p.id, hash(&c.json().to_string())));
    let mut v = c.json();
    if !before.is_empty() {
        v["before"] = Value::Array(before.iter().map(Case::json).collect());
    }
    v["property"] = json!(p.id);
    v["message"] = json!(msg);
    v["replay_with"] = json!(format!("./check {} --replay {}", p.id, f.display()));
    fs::write(&f, serde_json::to_string_pretty(&v).expect("json")).expect("write");
    f
}

fn evidence(p: &Prop, tier: &str, seed: u64, t: &Tally, samples: Vec<Value>, regressions: usize, wall: f64, violations: u64) {
    let d = verif().join("evidence");
    fs::create_dir_all(&d).expect("evidence");
    let v = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.evaluations,
            "single_checks": t.inner,
            "distinct_cases": t.distinct.len(),
            "distinct_nontrivial": t.nontrivial.len(),
            "outside_domain": t.skipped,
            "rule": p.rule,
            "classes": t.tags,
            "outside_domain_reasons": t.skips,
            "saved_cases_replayed": regressions,
            "samples": samples,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    fs::write(d.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&v).expect("json")).expect("write");
}

fn regressions(p: &Prop) -> Vec<(PathBuf, Case)> {
    let d = verif().join("regressions").join(p.id);
    let mut v: Vec<PathBuf> = fs::read_dir(d)
        .map(|r| r.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    v.sort();
    v.into_iter()
        .filter_map(|f| {
            let s = fs::read_to_string(&f).ok()?;
            let j: Value = serde_json::from_str(&s).ok()?;
            Some((f, Case::of_json(&j)))
        })
        .collect()
}

fn run(p: &'static Prop) -> i32 {
    let t0 = Instant::now();
    let seed = seed();
    let tier = if thorough() { "thorough" } else { "quick" };
    let mut total = if thorough() { p.thorough } else { p.quick };
    if let Some(n) = std::env::var("VH_CASES").ok().and_then(|s| s.parse().ok()) {
        total = n;
    }
    let nw: usize = std::env::var("VH_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()));
    let mut tally = Tally {
        evaluations: 0,
        inner: 0,
        skipped: 0,
        nontrivial: BTreeSet::new(),
        distinct: BTreeSet::new(),
        tags: BTreeMap::new(),
        skips: BTreeMap::new(),
        sample_ix: vec![],
    };
    let mut failure: Option<Confirmed> = None;
    let mut unsteady = 0u64;
    let _shared = shared_setup(p);

    if let Some(k) = p.known {
        for (what, still) in k() {
            if still {
                println!("KNOWN-FINDING: property={} {}", p.id, what);
            }
        }
    }

    // saved cases first
    let regs = regressions(p);
    let nregs = regs.len();
    let rc: Vec<Case> = regs.iter().map(|r| r.1.clone()).collect();
    for ((f, c), v) in regs.iter().zip(eval_many(p, &rc)) {
        match v {
            V::Fail(m) => {
                failure = confirm(p, Vec::new, c, &m, &format!("saved case {}", f.display()));
                if failure.is_some() {
                    break;
                }
                unsteady += 1;
            }
            V::Skip(m) => eprintln!("note: saved case {} is outside the domain: {}", f.display(), m),
            V::Pass { .. } => {}
        }
    }

    let mut crashes_skipped = 0u64;
    if failure.is_none() {
        let sc = Scratch::new(&format!("run-{}", p.id));
        struct W {
            ch: Child,
            out: PathBuf,
            read: u64,
            buf: String,
            block: Option<usize>,
            cpu0: f64,
            done: bool,
            k: usize,
        }
        let spawn = |k: usize, start: usize, out: &Path| -> Child {
            Command::new(exe())
                .args([
                    "worker",
                    p.id,
                    &seed.to_string(),
                    &start.to_string(),
                    &nw.to_string(),
                    &total.to_string(),
                    out.to_str().expect("utf8"),
                ])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(fs::OpenOptions::new().create(true).append(true).open(sc.0.join(format!("err{}", k))).expect("err"))
                .spawn()
                .expect("spawn worker")
        };
        let mut ws: Vec<W> = (0..nw)
            .map(|k| {
                let out = sc.0.join(format!("w{}", k));
                W {
                    ch: spawn(k, k, &out),
                    out,
                    read: 0,
                    buf: String::new(),
                    block: None,
                    cpu0: 0.0,
                    done: false,
                    k,
                }
            })
            .collect();
        let mut fails: Vec<(usize, String)> = vec![];
        let mut harness_errors = 0;
        'run: loop {
            let mut alive = false;
            for w in ws.iter_mut() {
                if w.done {
                    continue;
                }
                let st = w.ch.try_wait().expect("wait");
                // read what is new
                if let Ok(f) = fs::File::open(&w.out) {
                    use std::io::{Read, Seek, SeekFrom};
                    let mut f = BufReader::new(f);
                    let _ = f.seek(SeekFrom::Start(w.read));
                    let mut bytes = vec![];
                    let _ = f.read_to_end(&mut bytes);
                    w.read += bytes.len() as u64;
                    w.buf.push_str(&String::from_utf8_lossy(&bytes));
                }
                let whole = w.buf.rfind('\n').map_or(0, |n| n + 1);
                let rest = w.buf.split_off(whole);
                let lines = std::mem::replace(&mut w.buf, rest);
                for line in lines.lines() {
                    if let Some(b) = line.strip_prefix("B ") {
                        w.block = b.parse().ok();
                        w.cpu0 = cpu(w.ch.id());
                    } else if line.starts_with("E ") {
                        w.block = None;
                    } else if line == "D" {
                        w.done = true;
                    } else if let Some(r) = line.strip_prefix("R ") {
                        let mut it = r.splitn(3, ' ');
                        let i: usize = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                        let h: u64 = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                        let v = serde_json::from_str::<Value>(it.next().unwrap_or("{}")).unwrap_or(Value::Null);
                        tally.evaluations += 1;
                        tally.distinct.insert(h);
                        match V::of_json(&v) {
                            V::Pass { nontrivial, n, tags } => {
                                tally.inner += n;
                                if nontrivial {
                                    tally.nontrivial.insert(h);
                                    if tally.sample_ix.len() < 400 {
                                        tally.sample_ix.push(i);
                                    }
                                }
                                for t in tags {
                                    *tally.tags.entry(t).or_insert(0) += 1;
                                }
                            }
                            V::Skip(s) => {
                                tally.skipped += 1;
                                *tally.skips.entry(class(&s).to_owned()).or_insert(0) += 1;
                            }
                            V::Fail(m) => fails.push((i, m)),
                        }
                    }
                }
                if w.done {
                    let _ = w.ch.wait();
                    continue;
                }
                alive = true;
                let hung = w.block.is_some() && st.is_none() && cpu(w.ch.id()) - w.cpu0 > if p.batch == 1 { HANG_CPU } else { 4.0 * HANG_CPU };
                if hung {
                    let _ = w.ch.kill();
                    let _ = w.ch.wait();
                }
                if st.is_some() || hung {
                    // died in a block
                    let b = match w.block.take() {
                        Some(b) => b,
                        None => {
                            // between blocks: a fault of the harness
                            eprintln!("worker {} of {} died outside a case", w.k, p.id);
                            harness_errors += 1;
                            w.done = true;
                            continue;
                        }
                    };
                    let ix: Vec<usize> = (b * p.batch..((b + 1) * p.batch).min(total)).collect();
                    let cs: Vec<Case> = ix.iter().map(|i| the_case(p, seed, *i)).collect();
                    for (i, v) in ix.into_iter().zip(eval_many(p, &cs)) {
                        match v {
                            V::Fail(m) => fails.push((i, m)),
                            V::Skip(s) if s == "harness error" => {
                                eprintln!("harness error on case {} of {}", i, p.id);
                                harness_errors += 1
                            }
                            V::Skip(_) => crashes_skipped += 1,
                            V::Pass { .. } => {}
                        }
                    }
                    w.ch = spawn(w.k, b + nw, &w.out);
                    w.cpu0 = 0.0;
                }
            }
            fails.sort();
            for (i, m) in fails.drain(..) {
                // what ran before it on the same thread
                let before = || {
                    let b = i / p.batch;
                    let per = (RENEW + p.batch - 1) / p.batch;
                    let from = (b / nw) - (b / nw) % per;
                    (from..b / nw + 1)
                        .flat_map(|j| {
                            let b = b % nw + nw * j;
                            b * p.batch..(b + 1) * p.batch
                        })
                        .filter(|k| *k < i)
                        .map(|k| the_case(p, seed, k))
                        .collect::<Vec<_>>()
                };
                failure = confirm(p, before, &the_case(p, seed, i), &m, &format!("case {} of seed {}", i, seed));
                if failure.is_some() {
                    break 'run;
                }
                unsteady += 1;
                if unsteady >= 12 {
                    break 'run;
                }
            }
            if !alive {
                break;
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        for w in ws.iter_mut() {
            let _ = w.ch.kill();
            let _ = w.ch.wait();
        }
        if failure.is_none() && harness_errors > 0 {
            for k in 0..nw {
                if let Ok(f) = fs::File::open(sc.0.join(format!("err{}", k))) {
                    for l in BufReader::new(f).lines().take(20).map_while(Result::ok) {
                        eprintln!("worker {}: {}", k, l);
                    }
                }
            }
            eprintln!("ERROR: the harness itself failed on {} cases", harness_errors);
            return 2;
        }
    }
    if crashes_skipped > 0 {
        tally.skips.insert("process died, not this property".into(), crashes_skipped);
        tally.skipped += crashes_skipped;
    }

    let samples: Vec<Value> = {
        let mut ix = tally.sample_ix.clone();
        ix.sort_unstable();
        let step = (ix.len() / 6).max(1);
        ix.iter()
            .step_by(step)
            .take(6)
            .map(|i| {
                let mut v = the_case(p, seed, *i).json();
                if let Some(a) = v["inputs"].as_array_mut() {
                    a.truncate(8);
                }
                if let Some(s) = v["prog"].as_str() {
                    v["prog"] = json!(clip(s, 1500));
                }
                v["index"] = json!(i);
                v
            })
            .collect()
    };

    if let Some(Confirmed { before, case, msg, from }) = failure {
        let (case, msg) = if before.is_empty() {
            let lim = Duration::from_secs(if thorough() { 240 } else { 90 });
            let (c, m2, n) = shrink(p, &case, &msg, lim);
            eprintln!("{}: found by {}, shrunk with {} trials", p.id, from, n);
            (c, m2)
        } else {
            eprintln!("{}: found by {}, needs {} cases before it", p.id, from, before.len());
            (case, msg)
        };
        let f = save_replay(p, &before, &case, &msg);
        evidence(p, tier, seed, &tally, samples, nregs, t0.elapsed().as_secs_f64(), 1);
        println!("{}: {}", p.id, clip(&msg, 3000));
        println!("program: {}", clip(&case.prog, 2000));
        if !case.inputs.is_empty() {
            println!("inputs: {:?}", case.inputs.iter().take(6).collect::<Vec<_>>());
        }
        for b in &before {
            println!("after: {}", clip(&b.prog, 2000));
        }
        println!("VIOLATION property={} replay={}", p.id, f.display());
        return 1;
    }
    if unsteady > 0 {
        tally.skips.insert("failed once, not again".into(), unsteady);
        if unsteady >= 12 {
            eprintln!("ERROR: {}: {} failures, none of which repeats", p.id, unsteady);
            return 2;
        }
    }
    evidence(p, tier, seed, &tally, samples, nregs, t0.elapsed().as_secs_f64(), 0);
    // no answer rather than an empty one
    let lost = tally.skips.get("lost").copied().unwrap_or(0);
    if lost * 10 > tally.evaluations || tally.evaluations == 0 {
        eprintln!("ERROR: {}: {} of {} cases could not be judged", p.id, lost, tally.evaluations);
        return 2;
    }
    println!(
        "{}: held on {} cases ({} distinct and non-trivial, {} single checks, {} outside the domain), seed {}, {:.1} s",
        p.id,
        tally.evaluations,
        tally.nontrivial.len(),
        tally.inner,
        tally.skipped,
        seed,
        t0.elapsed().as_secs_f64()
    );
    0
}

pub fn main(props: &'static [Prop]) {
    // quiet panics: they are caught and judged
    if std::env::var_os("VH_LOUD").is_none() {
        std::panic::set_hook(Box::new(|i| {
            // keep harness panics visible
            let file = i.location().map_or("", |l| l.file());
            if file.starts_with("src/") && std::env::args().nth(1).map_or(false, |a| a == "worker" || a == "eval") {
                eprintln!("panic in harness: {}", i);
            }
        }));
    }
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| -> &'static Prop {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("no property {}", id);
            std::process::exit(64)
        })
    };
    let n = |i: usize| args[i].parse::<usize>().expect("number");
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let p = find(&args[2]);
            std::process::exit(big_stack(move || run(p)))
        }
        Some("worker") => worker(find(&args[2]), args[3].parse().expect("seed"), n(4), n(5), n(6), Path::new(&args[7])),
        Some("eval") => eval_cmd(find(&args[2]), Path::new(&args[3])),
        Some("dict") => println!("{}", crate::dict::dump()),
        Some("has") => std::process::exit(if props.iter().any(|p| p.id == args[2]) { 0 } else { 1 }),
        Some("replay") => {
            let p = find(&args[2]);
            let j: Value = serde_json::from_str(&fs::read_to_string(&args[3]).expect("file")).expect("json");
            let c = Case::of_json(&j);
            let shared = shared_setup(p);
            let before: Vec<Case> = j["before"].as_array().into_iter().flatten().map(Case::of_json).collect();
            let v = if before.is_empty() { eval_one(p, &c) } else { eval_after(p, &before, &c) };
            drop(shared);
            match v {
                V::Fail(m) => {
                    println!("{}", m);
                    println!("VIOLATION property={} replay={}", p.id, args[3]);
                    std::process::exit(1)
                }
                v => println!("{:?}", v),
            }
        }
        Some("show") => {
            // vh show ID SEED FROM TO
            let p = find(&args[2]);
            let seed: u64 = args[3].parse().expect("seed");
            for i in n(4)..n(5) {
                let c = the_case(p, seed, i);
                println!("--- {} kind={} nums={:?}", i, c.kind, c.nums);
                println!("{}", c.prog);
                for x in c.inputs.iter().take(12) {
                    println!("    {:?}", x);
                }
            }
        }
        _ => {
            eprintln!("usage: run|replay|show ...");
            std::process::exit(64)
        }
    }
}
