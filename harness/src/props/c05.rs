//! C05: is_empty_re and get_string are exact.

use super::wide::*;
use crate::ctx::*;
use crate::dfa::*;
use crate::ensure;
use crate::props::common::*;
use crate::props::deep::*;
use crate::rng::*;
use crate::rx::*;
use crate::Family;
use aws_smt_strings::regular_expressions::{ReManager, RegLan};

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "depth2", quick: 368, thorough: 368, enumerated: true, run: depth2 },
        Family { name: "random", quick: 60_000, thorough: 8_000_000, enumerated: false, run: random },
        Family { name: "near-empty", quick: 60_000, thorough: 8_000_000, enumerated: false, run: nearly },
        Family { name: "long-witness", quick: 4_000, thorough: 600_000, enumerated: false, run: long },
        Family { name: "shared-manager", quick: 4_000, thorough: 600_000, enumerated: false, run: shared },
        Family { name: "deep", quick: 400, thorough: 60000, enumerated: false, run: deep_terms },
        Family { name: "giant", quick: 20, thorough: 2000, enumerated: false, run: giant_terms },
        Family { name: "giant-crowd", quick: 16, thorough: 2000, enumerated: false, run: crowd },
        Family { name: "classes", quick: 600, thorough: 200000, enumerated: false, run: many_classes },
        Family { name: "giant-classes", quick: 10, thorough: 1000, enumerated: false, run: giant_classes },
    ]
}

/// order: which of the two functions is called first
fn check(c: &mut Ctx, re: &mut ReManager, t: RegLan, d: &Dfa, al: &Alpha, order: bool, compile: bool) -> R {
    let want = d.is_empty();
    let (e, g);
    if order {
        e = re.is_empty_re(t);
        g = re.get_string(t);
    } else {
        g = re.get_string(t);
        e = re.is_empty_re(t);
    }
    c.count(if want { "empty_languages" } else { "nonempty_languages" }, 1);
    ensure!(e == want, "is_empty_re = {e}, but the language is {}empty", if want { "" } else { "not " });
    match g {
        None => ensure!(want, "get_string = None but the language is not empty"),
        Some(w) => {
            let v: Vec<u32> = w.iter().copied().collect();
            ensure!(!want, "get_string = {} but the language is empty", show_word(&v));
            ensure!(w.is_good() && v.iter().all(|&x| x <= MAXC), "get_string gives {} which is not a well-formed string", show_word(&v));
            ensure!(d.accepts(al, &v), "get_string gives {} which is not a member", show_word(&v));
            ensure!(re.str_in_re(&w, t), "str_in_re rejects the string {} given by get_string", show_word(&v));
            if compile {
                ensure!(re.compile(t).accepts(&w), "the compiled automaton rejects the string {} given by get_string", show_word(&v));
                c.count("witnesses_run_on_automata", 1);
            }
            c.count("witnesses", 1);
            c.count(&format!("witness_length_{}", if v.len() < 4 { v.len().to_string() } else if v.len() < 10 { "4_9".into() } else { "10_up".into() }), 1);
            c.max("witness_length", v.len() as u64);
        }
    }
    Ok(())
}

fn depth2(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    let (base, dfas) = small_terms();
    let al = small_alpha();
    let l = idx as usize;
    let mut re = ReManager::new();
    let terms = base.build(&mut re);
    check(c, &mut re, terms[l], &dfas[l], &al, true, true).map_err(|e| format!("{}: {e}", base.show(l)))?;
    for x in 0..base.ops.len() {
        for b in 0..4 {
            let (d, t, op) = match b {
                0 => (dfas[l].concat(&dfas[x], 500), re.concat(terms[l], terms[x]), Op::Concat(l, x)),
                1 => (dfas[l].inter(&dfas[x], 500), re.inter(terms[l], terms[x]), Op::Inter(l, x)),
                2 => (dfas[l].diff(&dfas[x], 500), re.diff(terms[l], terms[x]), Op::Diff(l, x)),
                _ => {
                    let u = re.union(terms[l], terms[x]);
                    (dfas[l].union(&dfas[x], 500).map(|d| d.comp()), re.complement(u), Op::Union(l, x))
                }
            };
            let Ok(d) = d else { continue };
            c.evals += 1;
            c.enumerated += 1;
            check(c, &mut re, t, &d, &al, (l + x) % 2 == 0, (l + x) % 7 == 0).map_err(|e| {
                let mut p = base.clone();
                let i = p.add(op);
                if b == 3 {
                    p.add(Op::Comp(i));
                }
                format!("{}: {e}", p.show(p.root()))
            })?;
        }
    }
    Ok(())
}

fn run(c: &mut Ctx, re: &mut ReManager, p: &Prog, r: &mut Rng, caps: (usize, usize)) -> R {
    // derivatives may be in the cache already, or not
    let warm = r.chance(1, 2);
    let al = p.alpha();
    let dfas = p.dfas(&al, caps.0);
    let Some(d) = &dfas[p.root()] else {
        c.count("ref_capped", 1);
        return Ok(());
    };
    let t = p.build(re);
    {
        // the number of derivatives is bounded on a separate manager so that this one stays cold
        let mut probe;
        let (re2, t2) = if warm {
            (&mut *re, t[p.root()])
        } else {
            probe = ReManager::new();
            let t2 = p.build(&mut probe)[p.root()];
            (&mut probe, t2)
        };
        if derivative_count(re2, t2, caps.1).is_none() {
            c.count("deriv_capped", 1);
            return Ok(());
        }
    }
    c.case(p.hash());
    check(c, re, t[p.root()], d, &al, r.chance(1, 2), r.chance(1, 4)).map_err(|e| format!("{}: {e}", p.show(p.root())))?;
    // sub-terms of the same program
    for _ in 0..2 {
        let i = r.us(p.ops.len());
        if let Some(d) = &dfas[i] {
            if derivative_count(re, t[i], caps.1).is_some() {
                check(c, re, t[i], d, &al, r.chance(1, 2), false).map_err(|e| format!("{}: {e}", p.show(i)))?;
            }
        }
    }
    c.sample(|| p.show(p.root()));
    Ok(())
}

fn random(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let p = diverse(r);
    run(c, &mut ReManager::new(), &p, r, (300, 500))
}

fn nearly(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let p = near_empty(r);
    run(c, &mut ReManager::new(), &p, r, (300, 500))
}

fn long(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let p = modular(r);
    run(c, &mut ReManager::new(), &p, r, (800, 3000))
}

fn shared(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut re = ReManager::new();
    for _ in 0..10 {
        let p = if r.chance(1, 2) { diverse(r) } else { near_empty(r) };
        run(c, &mut re, &p, r, (200, 300))?;
    }
    Ok(())
}

/// thousands of derivatives before the answer is known; witnesses of thousands of characters
fn go_deep(c: &mut Ctx, max: u64, r: &mut Rng) -> R {
    let x = deep(max, r);
    let mut re = ReManager::new();
    let Some(t) = build_deep(c, &x, max, &mut re) else { return Ok(()) };
    let e = t[x.p.root()];
    check(c, &mut re, e, &x.d, &x.al, r.chance(1, 2), r.chance(1, 4)).map_err(|m| format!("{}: {}", x.p.show(x.p.root()), cut(m)))?;
    c.sample(|| x.p.show(x.p.root()));
    Ok(())
}
fn deep_terms(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_deep(c, *r.pick(&[100, 300, 1_500, 5_000]), r)
}
fn giant_terms(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let sizes = [20_000, 80_000, 150_000];
    go_deep(c, sizes[i as usize % sizes.len()], r)
}

/// a manager with more than 2^16 terms
fn crowd(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    crowded(c, r, &mut |c, re, p, r| {
        run(c, re, p, r, (200, 300))
    })
}

/// tens to hundreds of derivative classes
fn go_classes(c: &mut Ctx, giant: bool, r: &mut Rng) -> R {
    let mut re = ReManager::new();
    wide_case(c, giant, &mut re, r, &mut |c, re, w, r| {
        let x = w.t[w.p.root()];
        check(c, re, x, &w.d, &w.al, r.chance(1, 2), r.chance(1, 4))
    })
}
fn many_classes(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_classes(c, false, r)
}
fn giant_classes(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_classes(c, true, r)
}
