//! The command-line compilers as processes.

use std::io::Write;
use std::path::Path;
use std::process::{Command, Stdio};

use crate::batch;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::real::{self, Panicked, RErr};
use crate::syntax::{self, *};
use crate::util::*;

/// How the process is run.
const PLAIN: u64 = 0;
const CHUNKS: u64 = 1;
const FULL: u64 = 2;
const CLOSED: u64 = 3;

fn gen(rng: &mut Rng, _: usize) -> Case {
    let nk = match rng.below(4) {
        0 => NamesKind::Nasty,
        1 => NamesKind::Shared,
        _ => NamesKind::Plain,
    };
    let text = match rng.below(12) {
        0..=4 => {
            let p = if rng.chance(1, 2) {
                let mut pr = Profile::random(rng);
                pr.names = nk;
                good(rng, pr)
            } else {
                small(rng, nk)
            };
            layout_any(&p, rng)
        }
        5..=7 => {
            let p = any_program(rng, nk);
            layout_any(&p, rng)
        }
        8 => token_soup(rng),
        9 => char_soup(rng, "match \"a\" | x . (b);"),
        10 => {
            let p = any_program(rng, nk);
            let mut t = tokens(&p);
            damage_tokens(&mut t, rng);
            layout(&t, Layout::Plain, rng)
        }
        _ => rng.pick(&["", " ", "\n", "\u{feff}", "\0", "match", "match \"a\"", "match \"a\";;", "#!/bin/sh\nmatch \"a\";", "\u{feff}match \"a\";", "match \"a\"; // end", "/* x */ match _;"])
            .to_string(),
    };
    let text = if rng.chance(1, 60) { long(text, rng) } else { text };
    let mut c = Case::new("text", &text);
    c.nums = vec![match rng.below(16) {
        0 | 1 => CHUNKS,
        2 => FULL,
        3 => CLOSED,
        _ => PLAIN,
    }];
    if rng.chance(1, 10) {
        // not UTF-8
        let mut b = text.clone().into_bytes();
        let bad: &[u8] = *rng.pick(&[&[0xffu8][..], &[0xc3], &[0xed, 0xa0, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0x80], &[0xe2, 0x82]]);
        let at = rng.below(b.len() + 1);
        let tail = b.split_off(at);
        b.extend_from_slice(bad);
        b.extend(tail);
        c.kind = "bytes".into();
        c.prog = String::new();
        c.inputs = vec![hex(&b)];
    }
    c
}

/// A comment of some thousand characters before or behind, perhaps with something after it.
fn long(text: String, rng: &mut Rng) -> String {
    let size = *rng.pick(&[1 << 10, 1 << 12, 1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 200_000, 1 << 18, 1 << 20]) + rng.below(64);
    let unit = *rng.pick(&["x", "\n", "ab c\n", "\u{20ac}", "\" ;"]);
    let filler = format!("/*{}*/", unit.repeat(size / unit.len()));
    match rng.below(4) {
        0 => format!("{}{}{}", text, filler, rng.pick(&["", "x", ";", "match \"a\";", "\""])),
        _ => format!("{} {}", filler, text),
    }
}

fn layout_any(p: &Program, rng: &mut Rng) -> String {
    let l = *rng.pick(&[Layout::Plain, Layout::Tight, Layout::Wild]);
    layout(&tokens(p), l, rng)
}

struct Ended {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}

/// The self-hosted front end reads by recursion, one call for each character of white space or of
/// a string.  It gets a large stack, and no texts that could need all of it.
const AUTO_STACK: u64 = 1 << 30;

fn auto_chars() -> usize {
    let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::getrlimit(libc::RLIMIT_STACK, &mut l) };
    // 2 kB each would do
    (l.rlim_max.min(AUTO_STACK) / 12_000) as usize
}

fn start(bin: &Path, input: &[u8], mode: u64, deep: bool) -> Result<Ended, String> {
    let mut cmd = Command::new(bin);
    cmd.env_clear().current_dir("/").stdin(Stdio::piped()).stderr(Stdio::piped());
    if mode == FULL {
        cmd.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| e.to_string())?);
    } else {
        cmd.stdout(Stdio::piped());
    }
    unsafe {
        use std::os::unix::process::CommandExt;
        cmd.pre_exec(move || {
            let cpu = libc::rlimit { rlim_cur: 30, rlim_max: 35 };
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            if deep {
                let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::getrlimit(libc::RLIMIT_STACK, &mut l);
                l.rlim_cur = l.rlim_max.min(AUTO_STACK);
                libc::setrlimit(libc::RLIMIT_STACK, &l);
            }
            libc::setrlimit(libc::RLIMIT_CPU, &cpu);
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            Ok(())
        });
    }
    let mut ch = cmd.spawn().map_err(|e| e.to_string())?;
    let mut stdin = ch.stdin.take().ok_or("stdin")?;
    if mode == CLOSED {
        drop(ch.stdout.take());
    }
    let data = input.to_vec();
    let t = std::thread::spawn(move || {
        if mode == CHUNKS {
            for (i, b) in data.chunks(if data.len() > 10_000 { 4099 } else { 7 }).enumerate() {
                if stdin.write_all(b).is_err() {
                    return;
                }
                if i < 3 {
                    std::thread::sleep(std::time::Duration::from_micros(300));
                }
            }
        } else {
            let _ = stdin.write_all(&data);
        }
    });
    let o = ch.wait_with_output().map_err(|e| e.to_string())?;
    let _ = t.join();
    Ok(Ended {
        code: o.status.code(),
        out: o.stdout,
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
    })
}

/// What the command-line compiler makes of a text: code or a message; none if it ends otherwise.
pub fn compile(dir: &Path, text: &str) -> Option<Result<String, String>> {
    let e = start(&dir.join("bin_chomp"), text.as_bytes(), PLAIN, false).ok()?;
    match e.code {
        Some(0) => Some(Ok(String::from_utf8(e.out).ok()?)),
        Some(1) => Some(Err(e.err.strip_suffix('\n').unwrap_or(&e.err).to_owned())),
        _ => None,
    }
}

/// Judges one run; `want`: what the compiler does with the text, none when it is not UTF-8.
fn judge_run(name: &str, e: &Ended, mode: u64, want: &Option<Result<String, RErr>>) -> Result<(), String> {
    let shown = format!(
        "{} ended with {:?}, {} bytes on standard output, {:?} on standard error",
        name,
        e.code,
        e.out.len(),
        clip(&e.err, 300)
    );
    let rejected = |msg: Option<&str>| -> Result<(), String> {
        if e.code != Some(1) {
            return Err(format!("status: a failure should end with 1, but {}", shown));
        }
        if !e.out.is_empty() {
            return Err(format!("output: a failure should print nothing on standard output, but {}", shown));
        }
        let err = e.err.strip_suffix('\n').unwrap_or(&e.err);
        if err.trim().is_empty() {
            return Err(format!("message: none; {}", shown));
        }
        if let Some(m) = msg {
            if !err.contains(m) {
                return Err(format!("message: should say {:?}, but {}", m, shown));
            }
            // one message
            if err.matches(m).count() > 1 && !m.is_empty() && err.len() >= 2 * m.len() && m.len() > 8 {
                return Err(format!("message: more than one; {}", shown));
            }
        }
        Ok(())
    };
    match want {
        None => rejected(None),
        Some(Err(r)) => rejected(Some(&r.msg)),
        Some(Ok(code)) => {
            if mode == FULL || mode == CLOSED {
                return rejected(None);
            }
            if e.code != Some(0) {
                return Err(format!("status: success should end with 0, but {}", shown));
            }
            if String::from_utf8_lossy(&e.out).trim_end() != code.trim_end() {
                return Err(format!("output: not the generated code; {}", shown));
            }
            if !e.err.is_empty() {
                return Err(format!("noise: success should print nothing on standard error, but {}", shown));
            }
            Ok(())
        }
    }
}

fn one(c: &Case) -> V {
    let bytes = if c.kind == "bytes" {
        unhex(c.inputs.get(0).map_or("", |s| s))
    } else {
        c.prog.clone().into_bytes()
    };
    let mode = c.nums.get(0).copied().unwrap_or(PLAIN);
    let text = String::from_utf8(bytes.clone()).ok();
    let mut tags = vec![match mode {
        CHUNKS => "input in pieces",
        FULL => "output device full",
        CLOSED => "output closed",
        _ => "plain",
    }
    .to_owned()];
    let mut accepted = false;
    for (bin, auto) in [("bin_chomp", false), ("bin_autonibble", true)] {
        if auto && text.as_ref().map_or(false, |t| t.chars().count() > auto_chars()) {
            continue;
        }
        let want = match &text {
            None => {
                tags.push("not UTF-8".into());
                None
            }
            Some(t) => {
                if syntax::has_c_literal(t) {
                    return V::Skip("C string literal, recorded elsewhere".into());
                }
                if let Ok(p) = parse(t) {
                    match judge_program(&p) {
                        Verdict::Unknown => return V::Skip("expansion too large or endless".into()),
                        Verdict::Good(..) | Verdict::Types(..) | Verdict::Calls(..) | Verdict::Undeclared(..) | Verdict::Syntax => {}
                    }
                }
                let r = if auto { real::code_auto(t) } else { real::code_text(t) };
                match r {
                    Ok(r) => Some(r),
                    Err(Panicked(_)) => return V::Skip("panic, not this property".into()),
                }
            }
        };
        // the main compiler's verdict also by the reference
        if let (Some(Ok(_)), Some(t), false) = (&want, &text, auto) {
            accepted = true;
            if !matches!(judge(t), Verdict::Good(..)) {
                return V::Skip("accepted though not good, not this property".into());
            }
        }
        match start(&batch::shared().join(bin), &bytes, mode, auto) {
            Err(m) => return V::Skip(format!("lost: {}", m)),
            Ok(e) => {
                if let Err(m) = judge_run(&bin[4..], &e, mode, &want) {
                    return V::Fail(m);
                }
            }
        }
        match &want {
            Some(Ok(_)) => tags.push(format!("accepted by {}", &bin[4..])),
            Some(Err(e)) => tags.push(format!("{} fails in {:?}", &bin[4..], e.phase)),
            None => {}
        }
    }
    let _ = accepted;
    V::Pass {
        nontrivial: bytes.len() > 3,
        n: 2,
        tags,
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        quick: 30_000,
        thorough: 1_000_000,
        batch: 1,
        crash: false,
        flaky_ok: false,
        gen,
        check: |cs| cs.iter().map(one).collect(),
        rule: "more than three bytes of input",
        assumptions: &[
            "the compiler as a library (checked by the other properties) decides what the tools should print",
            "the operating system delivers output, except to /dev/full",
        ],
        known: None,
        setup: Some(batch::setup_bins),
    }]
}
