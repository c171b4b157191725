//! One-step reductions of a case.

use crate::engine::Case;
use crate::gen::*;
use crate::syntax::*;

pub fn candidates(c: &Case) -> Vec<Case> {
    let mut out: Vec<Case> = vec![];
    let mut push = |x: Case| {
        if x != *c {
            out.push(x)
        }
    };
    // inputs: one alone, halves, without one
    let n = c.inputs.len();
    if n > 1 {
        for i in 0..n {
            push(Case {
                inputs: vec![c.inputs[i].clone()],
                ..c.clone()
            });
        }
        push(Case {
            inputs: c.inputs[..n / 2].to_vec(),
            ..c.clone()
        });
        push(Case {
            inputs: c.inputs[n / 2..].to_vec(),
            ..c.clone()
        });
        if n <= 20 {
            for i in 0..n {
                let mut v = c.inputs.clone();
                v.remove(i);
                push(Case { inputs: v, ..c.clone() });
            }
        }
    }
    if n > 0 {
        push(Case {
            inputs: vec![],
            ..c.clone()
        });
    }
    if n <= 4 {
        for i in 0..n {
            for t in text(&c.inputs[i]) {
                let mut v = c.inputs.clone();
                v[i] = t;
                push(Case { inputs: v, ..c.clone() });
            }
        }
    }
    // numbers: chunks out, values down
    let m = c.nums.len();
    let mut step = m / 2;
    while step >= 1 {
        let mut i = 0;
        while i + step <= m {
            let mut v = c.nums.clone();
            v.drain(i..i + step);
            push(Case { nums: v, ..c.clone() });
            i += step;
        }
        step /= 2;
    }
    if m <= 60 {
        for i in 0..m {
            for x in [0, c.nums[i] / 2, c.nums[i].saturating_sub(1)] {
                if x < c.nums[i] {
                    let mut v = c.nums.clone();
                    v[i] = x;
                    push(Case { nums: v, ..c.clone() });
                }
            }
        }
    }
    // the program
    match parse(&c.prog) {
        Ok(p) => {
            for q in programs(&p) {
                push(Case {
                    prog: print(&q),
                    ..c.clone()
                });
            }
            push(Case {
                prog: print(&p),
                ..c.clone()
            });
            if c.prog.chars().count() <= 60 {
                for t in text(&c.prog) {
                    push(Case { prog: t, ..c.clone() });
                }
            }
        }
        Err(_) => {
            for t in text(&c.prog) {
                push(Case { prog: t, ..c.clone() });
            }
        }
    }
    out
}

fn text(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let n = c.len();
    let mut out = vec![];
    let mut step = n;
    // long ones in big pieces first
    while step >= 1 && (n <= 150 || step >= n / 64) {
        let mut i = 0;
        while i < n {
            let j = (i + step).min(n);
            let mut v = c.clone();
            v.drain(i..j);
            out.push(v.into_iter().collect());
            i += step;
        }
        step /= 2;
    }
    out
}

fn programs(p: &Program) -> Vec<Program> {
    let mut out = vec![];
    for i in 0..p.lets.len() {
        let mut q = p.clone();
        q.lets.remove(i);
        out.push(q);
        if p.lets[i].params.is_empty() {
            // the definition as the goal
            let mut q = p.clone();
            q.goal = q.lets[i].body.clone();
            q.lets.truncate(i);
            out.push(q);
            // the definition in place
            let mut q = p.clone();
            let l = q.lets.remove(i);
            let t = Term::Paren(Loc::default(), Box::new(l.body.clone()));
            let name = l.name.plain().to_owned();
            for_terms(&mut q, &mut |x| {
                if let Term::Ident(j) = x {
                    if j.plain() == name {
                        j.name = "\u{1}".into()
                    }
                }
            });
            for_terms(&mut q, &mut |x| {
                if matches!(x, Term::Ident(j) if j.name == "\u{1}") {
                    *x = t.clone()
                }
            });
            out.push(q);
        }
    }
    let mut na = 0;
    for_alts(&mut p.clone(), &mut |_| na += 1);
    for at in 0..na {
        let mut edits: Vec<Box<dyn Fn(&mut Alt) -> bool>> = vec![];
        let mut sizes = (0, vec![]);
        let mut k = 0;
        for_alts(&mut p.clone(), &mut |a| {
            if k == at {
                sizes = (a.terms.len(), a.terms.iter().map(|l| l.cat.calls.len()).collect());
            }
            k += 1;
        });
        let (n, cats) = sizes;
        for i in 0..n {
            if n > 1 {
                edits.push(Box::new(move |a| {
                    a.terms.remove(i);
                    a.bars.pop();
                    true
                }));
                edits.push(Box::new(move |a| {
                    let t = a.terms[i].clone();
                    *a = Alt::one(t);
                    true
                }));
            }
            edits.push(Box::new(move |a| a.terms[i].label.take().is_some()));
            let m = cats[i];
            if m > 1 {
                for j in 0..m {
                    edits.push(Box::new(move |a| {
                        let c = &mut a.terms[i].cat;
                        c.calls.remove(j);
                        c.dots.pop();
                        true
                    }));
                    edits.push(Box::new(move |a| {
                        let c = &mut a.terms[i].cat;
                        let x = c.calls[j].clone();
                        c.calls = vec![x];
                        c.dots = vec![];
                        true
                    }));
                }
            }
        }
        // a lone parenthesised alternation takes the place of its surroundings
        edits.push(Box::new(|a| {
            if a.terms.len() == 1 && a.terms[0].cat.calls.len() == 1 && a.terms[0].cat.calls[0].terms.len() == 1 {
                if let Term::Paren(_, e) = &a.terms[0].cat.calls[0].terms[0] {
                    if let Expr::Alt(b) = &**e {
                        let b = b.clone();
                        *a = b;
                        return true;
                    }
                }
            }
            false
        }));
        for e in edits {
            let mut q = p.clone();
            let mut k = 0;
            let mut did = false;
            for_alts(&mut q, &mut |a| {
                if k == at && !did {
                    did = e(a);
                }
                k += 1;
            });
            if did {
                out.push(q)
            }
        }
    }
    let mut nc = 0;
    for_calls(&mut p.clone(), &mut |_| nc += 1);
    for at in 0..nc {
        let mut len = 0;
        let mut k = 0;
        for_calls(&mut p.clone(), &mut |c| {
            if k == at {
                len = c.terms.len()
            }
            k += 1;
        });
        if len < 2 {
            continue;
        }
        for i in 0..len {
            for alone in [true, false] {
                let mut q = p.clone();
                let mut k = 0;
                for_calls(&mut q, &mut |c| {
                    if k == at {
                        if alone {
                            let t = c.terms[i].clone();
                            c.terms = vec![t];
                        } else if c.terms.len() > i {
                            c.terms.remove(i);
                        }
                    }
                    k += 1;
                });
                out.push(q);
            }
        }
    }
    let mut nt = 0;
    for_terms(&mut p.clone(), &mut |_| nt += 1);
    for at in 0..nt {
        let mut opts: Vec<Term> = vec![];
        let mut k = 0;
        let d = Loc::default();
        for_terms(&mut p.clone(), &mut |t| {
            if k == at {
                match t {
                    Term::Eps(_) => {}
                    Term::Lit(s, _) => {
                        if s.chars().count() > 1 {
                            let c: Vec<char> = s.chars().collect();
                            opts.push(Term::Lit(c[..1].iter().collect(), d));
                            opts.push(Term::Lit(c[..c.len() - 1].iter().collect(), d));
                            opts.push(Term::Lit(c[1..].iter().collect(), d));
                        }
                    }
                    Term::Ident(_) => {}
                    Term::Fix(_, x) => {
                        opts.push((**x).clone());
                        opts.push(Term::Eps(d));
                        if let Term::Paren(_, e) = &**x {
                            if let Expr::Lambda(l) = &**e {
                                opts.push(Term::Paren(d, Box::new(Expr::Alt(l.body.clone()))));
                            }
                        }
                    }
                    Term::Paren(_, e) => {
                        opts.push(Term::Eps(d));
                        match &**e {
                            Expr::Lambda(l) => opts.push(Term::Paren(d, Box::new(Expr::Alt(l.body.clone())))),
                            Expr::Alt(a) => {
                                if a.terms.len() == 1 && a.terms[0].cat.calls.len() == 1 && a.terms[0].cat.calls[0].terms.len() == 1 {
                                    opts.push(a.terms[0].cat.calls[0].terms[0].clone())
                                }
                            }
                        }
                    }
                }
            }
            k += 1;
        });
        for o in opts {
            let mut q = p.clone();
            let mut k = 0;
            let mut did = false;
            for_terms(&mut q, &mut |t| {
                if k == at && !did {
                    *t = o.clone();
                    did = true;
                }
                k += 1;
            });
            out.push(q);
        }
    }
    let mut np = 0;
    for_params(&mut p.clone(), &mut |_| np += 1);
    for at in 0..np {
        for i in 0..6 {
            let mut q = p.clone();
            let mut k = 0;
            let mut did = false;
            for_params(&mut q, &mut |ps| {
                if k == at && ps.len() > i && ps.len() > 1 {
                    ps.remove(i);
                    did = true;
                }
                k += 1;
            });
            if did {
                out.push(q)
            }
        }
    }
    out
}
