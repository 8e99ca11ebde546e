//! C02: compile / try_compile yield a total DFA of exactly the language.

use super::wide::*;
use crate::ctx::*;
use crate::dfa::*;
use crate::ensure;
use crate::props::common::*;
use crate::props::deep::*;
use crate::rng::*;
use crate::rx::*;
use crate::walk::*;
use crate::Family;
use aws_smt_strings::automata::Automaton;
use aws_smt_strings::regular_expressions::{ReManager, RegLan};

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "depth2", quick: 368, thorough: 368, enumerated: true, run: depth2 },
        Family { name: "random", quick: 60_000, thorough: 6_000_000, enumerated: false, run: random },
        Family { name: "shared-manager", quick: 3_000, thorough: 300_000, enumerated: false, run: shared },
        Family { name: "large", quick: 600, thorough: 60_000, enumerated: false, run: large },
        Family { name: "depth3", quick: 0, thorough: 3680, enumerated: false, run: depth3 },
        Family { name: "deep", quick: 200, thorough: 30000, enumerated: false, run: deep_terms },
        Family { name: "giant", quick: 20, thorough: 1000, enumerated: false, run: giant_terms },
        Family { name: "giant-crowd", quick: 24, thorough: 2000, enumerated: false, run: crowd },
        Family { name: "classes", quick: 400, thorough: 200000, enumerated: false, run: many_classes },
        Family { name: "giant-classes", quick: 10, thorough: 1000, enumerated: false, run: giant_classes },
    ]
}

/// language, totality and determinism of one automaton
pub fn check_automaton(c: &mut Ctx, a: &Automaton, d: &Dfa, al: &Alpha, r: Option<&mut Rng>) -> R {
    let s = check_auto(a, a.initial_state(), d, 0, al)?;
    c.count("walk_pairs", s.pairs as u64);
    c.count("char_steps", s.steps as u64);
    // totality and consistency of next on every state (including ones a walk may not reach)
    let al2 = Alpha::new([auto_cuts(a), al.starts.clone()].concat());
    let e = extract(a, &al2)?;
    c.count("states", e.n() as u64);
    c.max("states", e.n() as u64);
    if let Some(r) = r {
        for _ in 0..4 {
            let w = if r.chance(1, 2) { guided_word(d, al, 12, r) } else { rand_word(al, 8, r) };
            let want = d.accepts(al, &w);
            ensure!(a.accepts(&sstr(&w)) == want, "accepts({}) = {}, expected {want}", show_word(&w), !want);
            let s = a.str_next(a.initial_state(), &sstr(&w));
            ensure!(s.is_final() == want, "str_next({}) is final: {}, expected {want}", show_word(&w), !want);
            // str_next from an arbitrary state = iterated next
            let st = a.state(r.us(a.num_states()));
            let x = a.str_next(st, &sstr(&w)).id();
            let y = w.iter().fold(st, |s, &ch| a.next(s, ch)).id();
            ensure!(x == y, "str_next differs from iterated next");
            let ch = r.below(MAXC as u64 + 1) as u32;
            let s = a.state(r.us(a.num_states()));
            let z = a.next(s, ch).id();
            ensure!(z as u32 == e.step(s.id() as u32, al2.atom(ch)), "next({}, {ch:#x}) = {z} unexpectedly", s.id());
            c.count("words", 1);
        }
    }
    Ok(())
}

fn check(c: &mut Ctx, re: &mut ReManager, t: RegLan, d: &Dfa, al: &Alpha, r: &mut Rng) -> R {
    let a = if r.chance(1, 2) {
        re.compile(t)
    } else {
        let n = re.compile(t).num_states();
        let n = *r.pick(&[n, n + 1, 2 * n + 5, usize::MAX]);
        match re.try_compile(t, n) {
            Some(a) => a,
            None => return Err(format!("try_compile with bound {n} gives no automaton")),
        }
    };
    check_automaton(c, &a, d, al, Some(r))
}

fn depth2(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    let (base, dfas) = small_terms();
    let al = small_alpha();
    let l = idx as usize;
    let mut re = ReManager::new();
    let terms = base.build(&mut re);
    let (a, d) = (re.compile(terms[l]), &dfas[l]);
    check_automaton(c, &a, d, &al, None).map_err(|e| format!("{}: {e}", base.show(l)))?;
    for x in 0..base.ops.len() {
        for b in 0..2 {
            let (d, t, op) = match b {
                0 => (dfas[l].concat(&dfas[x], 500), re.concat(terms[l], terms[x]), Op::Concat(l, x)),
                _ if l <= x => (dfas[l].union(&dfas[x], 500), re.union(terms[l], terms[x]), Op::Union(l, x)),
                _ => (dfas[l].inter(&dfas[x], 500), re.inter(terms[l], terms[x]), Op::Inter(l, x)),
            };
            let Ok(d) = d else { continue };
            let a = re.compile(t);
            c.evals += 1;
            c.enumerated += 1;
            check_automaton(c, &a, &d, &al, None).map_err(|e| {
                let mut p = base.clone();
                let i = p.add(op);
                format!("{}: {e}", p.show(i))
            })?;
        }
    }
    Ok(())
}

fn depth3(c: &mut Ctx, idx: u64, r: &mut Rng) -> R {
    let (base, dfas) = small_terms();
    let al = small_alpha();
    let l = (idx % 368) as usize;
    let mut re = ReManager::new();
    let terms = base.build(&mut re);
    for _ in 0..2000 {
        let (x, y) = (r.us(368), r.us(368));
        let (d1, t1) = match r.below(3) {
            0 => (dfas[l].concat(&dfas[x], 500), re.concat(terms[l], terms[x])),
            1 => (dfas[l].union(&dfas[x], 500), re.union(terms[l], terms[x])),
            _ => (dfas[l].inter(&dfas[x], 500), re.inter(terms[l], terms[x])),
        };
        let Ok(d1) = d1 else { continue };
        let (d2, t2) = match r.below(4) {
            0 => (d1.concat(&dfas[y], 500), re.concat(t1, terms[y])),
            1 => (dfas[y].concat(&d1, 500), re.concat(terms[y], t1)),
            2 => (d1.union(&dfas[y], 500), re.union(t1, terms[y])),
            _ => (d1.loop_range(0, None, 500), re.star(t1)),
        };
        let Ok(d2) = d2 else { continue };
        let Some(a) = re.try_compile(t2, 3000) else { continue };
        c.case(H::new().u(l as u64).u(x as u64).u(y as u64).u(c.evals).0);
        check_automaton(c, &a, &d2, &al, None).map_err(|e| format!("{t2}: {e}"))?;
    }
    Ok(())
}

fn random(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let p = diverse(r);
    let mut re = ReManager::new();
    let Some((t, al, d)) = prepared(c, &mut re, &p, 300, 400) else { return Ok(()) };
    c.case(p.hash());
    check(c, &mut re, t[p.root()], &d, &al, r).map_err(|e| format!("{}: {e}", p.show(p.root())))?;
    c.sample(|| p.show(p.root()));
    Ok(())
}

fn shared(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut re = ReManager::new();
    for _ in 0..12 {
        let p = diverse(r);
        let Some((t, al, d)) = prepared(c, &mut re, &p, 200, 300) else { continue };
        c.case(p.hash());
        check(c, &mut re, t[p.root()], &d, &al, r).map_err(|e| format!("{}: {e}", p.show(p.root())))?;
    }
    Ok(())
}

fn large(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut p = Prog::default();
    match r.below(3) {
        0 => {
            let g = Gen::random(r);
            p = g.prog(r.range(10, 30) as usize, r);
        }
        1 => {
            // Sigma* x Sigma^k: 2^(k+1) states
            let f = p.add(Op::Full);
            let a = p.add(Op::Range(97, 97 + r.below(3) as u32));
            let s = p.add(Op::AllChar);
            let e = p.add(Op::Exp(s, r.range(1, 6) as u32));
            p.add(Op::ConcatL(vec![f, a, e]));
        }
        _ => {
            let n = r.range(10, 60);
            let mut l = vec![];
            for _ in 0..n {
                let w: Vec<u32> = (0..r.range(1, 7)).map(|_| 97 + r.below(26) as u32).collect();
                l.push(p.add(Op::Str(w)));
            }
            let u = p.add(Op::UnionL(l));
            if r.chance(1, 2) {
                let f = p.add(Op::Full);
                p.add(Op::Concat(u, f));
            }
        }
    }
    let mut re = ReManager::new();
    let Some((t, al, d)) = prepared(c, &mut re, &p, 1500, 2500) else { return Ok(()) };
    c.case(p.hash());
    check(c, &mut re, t[p.root()], &d, &al, r).map_err(|e| format!("{}: {e}", p.show(p.root())))
}

/// automata with thousands of states
fn go_deep(c: &mut Ctx, max: u64, r: &mut Rng) -> R {
    let x = deep(max, r);
    let mut re = ReManager::new();
    let Some(t) = build_deep(c, &x, max, &mut re) else { return Ok(()) };
    let e = t[x.p.root()];
    let name = || x.p.show(x.p.root());
    let a = if r.chance(1, 2) {
        re.compile(e)
    } else {
        match re.try_compile(e, usize::MAX) {
            Some(a) => a,
            None => return Err(format!("{}: try_compile without bound gives no automaton", name())),
        }
    };
    check_automaton(c, &a, &x.d, &x.al, None).map_err(|m| format!("{}: {}", name(), cut(m)))?;
    for w in x.words(r, 6) {
        let want = x.d.accepts(&x.al, &w);
        let got = a.accepts(&sstr(&w));
        c.count("words", 1);
        ensure!(got == want, "{}: a word of length {} is a member: {want}, accepts gives {got}", name(), w.len());
    }
    c.sample(|| name());
    Ok(())
}
fn deep_terms(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_deep(c, *r.pick(&[100, 300, 1_500, 5_000]), r)
}
fn giant_terms(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let sizes = [20_000, 80_000];
    go_deep(c, sizes[i as usize % sizes.len()], r)
}

/// a manager with more than 2^16 terms
fn crowd(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    crowded(c, r, &mut |c, re, p, r| {
        let Some((t, al, d)) = prepared(c, re, p, 150, 200) else { return Ok(()) };
        c.case(p.hash());
        check(c, re, t[p.root()], &d, &al, r)
    })
}

/// tens to hundreds of derivative classes
fn go_classes(c: &mut Ctx, giant: bool, r: &mut Rng) -> R {
    let mut re = ReManager::new();
    wide_case(c, giant, &mut re, r, &mut |c, re, w, r| {
        let x = w.t[w.p.root()];
        check(c, re, x, &w.d, &w.al, r)
    })
}
fn many_classes(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_classes(c, false, r)
}
fn giant_classes(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_classes(c, true, r)
}
