//! C19: iter_derivatives enumerates the derivative closure exactly; try_compile honours its bound.

use super::wide::*;
use crate::ctx::*;
use crate::dfa::*;
use crate::ensure;
use crate::props::common::*;
use crate::props::deep::*;
use crate::rng::*;
use crate::rx::*;
use crate::walk::*;
use crate::Family;
use aws_smt_strings::regular_expressions::{ReManager, RegLan, RE};
use std::collections::HashSet;

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "depth2", quick: 368, thorough: 368, enumerated: true, run: depth2 },
        Family { name: "random", quick: 60_000, thorough: 8_000_000, enumerated: false, run: random },
        Family { name: "interleaved", quick: 6_000, thorough: 1_000_000, enumerated: false, run: interleaved },
        Family { name: "many", quick: 400, thorough: 60_000, enumerated: false, run: many },
        Family { name: "deep", quick: 40, thorough: 6000, enumerated: false, run: deep_terms },
        Family { name: "giant", quick: 14, thorough: 400, enumerated: false, run: giant_terms },
        Family { name: "giant-crowd", quick: 24, thorough: 2000, enumerated: false, run: crowd },
        Family { name: "classes", quick: 250, thorough: 200000, enumerated: false, run: many_classes },
        Family { name: "giant-classes", quick: 10, thorough: 1000, enumerated: false, run: giant_classes },
    ]
}

/// The derivatives of expressions of the depth2 family number at most a few dozen; an iteration
/// beyond this many terms is taken as non-terminating.
const LIMIT: usize = 5_000;

/// addresses of the terms listed by iter_derivatives (at most n)
fn listing(re: &mut ReManager, e: RegLan, n: usize) -> Vec<*const RE> {
    re.iter_derivatives(e).take(n).map(|x| x as *const RE).collect()
}

/// own closure, or an error when it exceeds the cap
fn check(c: &mut Ctx, re: &mut ReManager, e: RegLan, al: &Alpha, r: &mut Rng, cap: usize, must_end: bool, bounds: bool) -> Result<usize, String> {
    // must_end: the iterator runs first on what happens to be in the cache, else the closure is
    // computed first (and the case is skipped when it is too large)
    if !must_end && closure(re, e, cap).is_none() {
        c.count("deriv_capped", 1);
        return Ok(0);
    }
    let listed = listing(re, e, cap + 1);
    ensure!(listed.len() <= cap, "iter_derivatives lists more than {cap} terms");
    ensure!(!listed.is_empty() && std::ptr::eq(listed[0], e), "the first term of iter_derivatives is not the expression itself");
    let set: HashSet<*const RE> = listed.iter().copied().collect();
    ensure!(set.len() == listed.len(), "iter_derivatives yields {} terms, only {} distinct", listed.len(), set.len());
    let Some(own) = closure(re, e, cap) else { return Err(format!("{} terms listed but the closure has more than {cap}", listed.len())) };
    // closed under every character
    for &x in &own {
        if !set.contains(&(x as *const RE)) {
            continue;
        }
        for ch in rep_chars(al, &all_bounds(x.char_ranges())) {
            let y = re.char_derivative(x, ch);
            c.count("closure_steps", 1);
            ensure!(set.contains(&(y as *const RE)), "the derivative of a listed term w.r.t. {ch:#x} is not listed");
        }
    }
    // nothing but derivatives, all of them
    let own_set: HashSet<*const RE> = own.iter().map(|&x| x as *const RE).collect();
    ensure!(own_set == set, "iter_derivatives lists {} terms, the closure has {}", set.len(), own_set.len());
    for i in 0..own.len() {
        for j in 0..i.min(8) {
            ensure!(own[i] != own[j], "iter_derivatives yields equal terms");
        }
    }
    let k = own.len();
    c.count("derivatives", k as u64);
    c.max("derivatives", k as u64);
    if bounds {
        let mut ns = vec![0, k - 1, k, k + 1, usize::MAX];
        if k > 2 {
            ns.push(1);
            ns.push(r.range(1, k as u64 - 1) as usize);
        }
        ns.push(k + 1 + r.us(100));
        // bounds that do not fit 16 or 32 bits
        ns.push(*r.pick(&[
            1 << 16,
            (1 << 16) + k - 1,
            i32::MAX as usize,
            1 << 31,
            u32::MAX as usize,
            1 << 32,
            (1 << 32) + k - 1,
            (1 << 40) + 1,
            isize::MAX as usize,
            usize::MAX - 1,
        ]));
        r.shuffle(&mut ns);
        for n in ns {
            c.count("try_compile_calls", 1);
            match re.try_compile(e, n) {
                None => ensure!(n < k, "try_compile with bound {n} gives nothing, there are {k} derivatives"),
                Some(a) => {
                    ensure!(n >= k, "try_compile with bound {n} gives an automaton although there are {k} derivatives");
                    ensure!(a.num_states() == k, "try_compile gives {} states for {k} derivatives", a.num_states());
                    let m = a.states().count();
                    ensure!(m == k, "try_compile: {m} states listed for {k} derivatives");
                    c.count("try_compile_some", 1);
                }
            }
        }
        let a = re.compile(e);
        ensure!(a.num_states() == k, "compile gives {} states for {k} derivatives", a.num_states());
    }
    Ok(k)
}

fn depth2(c: &mut Ctx, idx: u64, r: &mut Rng) -> R {
    let (base, dfas) = small_terms();
    let al = small_alpha();
    let l = idx as usize;
    let mut re = ReManager::new();
    let terms = base.build(&mut re);
    let un: Vec<Op> = small_unary(l);
    let n = base.ops.len();
    for i in 0..2 * n + un.len() {
        let (t, op) = if i < n {
            let x = i;
            match (l + x) % 3 {
                0 => (re.union(terms[l], terms[x]), Op::Union(l, x)),
                1 => (re.inter(terms[l], terms[x]), Op::Inter(l, x)),
                _ => (re.diff(terms[l], terms[x]), Op::Diff(l, x)),
            }
        } else if i < 2 * n {
            let x = i - n;
            (re.concat(terms[l], terms[x]), Op::Concat(l, x))
        } else {
            let op = un[i - 2 * n].clone();
            let mut p = base.clone();
            let j = p.add(op.clone());
            (p.build_op(j, &mut re, &terms), op)
        };
        c.evals += 1;
        c.enumerated += 1;
        let name = || {
            let mut p = base.clone();
            let i = p.add(op.clone());
            p.show(i)
        };
        let k = check(c, &mut re, t, &al, r, LIMIT, true, i % 5 == 0).map_err(|e| format!("{}: {e}", name()))?;
        // at least as many derivatives as residual languages
        let d = match &op {
            Op::Union(x, y) => dfas[*x].union(&dfas[*y], 500),
            Op::Concat(x, y) => dfas[*x].concat(&dfas[*y], 500),
            _ => continue,
        };
        if let Ok(d) = d {
            ensure!(k >= d.n(), "{}: {k} derivatives for {} residual languages", name(), d.n());
        }
    }
    Ok(())
}

fn random(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let p = diverse(r);
    let mut re = ReManager::new();
    let t = p.build(&mut re);
    c.case(p.hash());
    check(c, &mut re, t[p.root()], &p.alpha(), r, 300, false, true).map_err(|e| format!("{}: {e}", p.show(p.root())))?;
    c.sample(|| p.show(p.root()));
    Ok(())
}

// several expressions in one manager; the iterator is abandoned, resumed on other expressions
fn interleaved(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut re = ReManager::new();
    let ps: Vec<Prog> = (0..4).map(|_| diverse(r)).collect();
    let ts: Vec<RegLan> = ps.iter().map(|p| p.build(&mut re)[p.root()]).collect();
    for p in &ps {
        c.case(p.hash());
    }
    for _ in 0..8 {
        let i = r.us(4);
        match r.below(3) {
            0 => {
                let k = r.range(1, 5) as usize;
                let v = listing(&mut re, ts[i], k);
                ensure!(std::ptr::eq(v[0], ts[i]), "{}: the first term is not the expression", ps[i].show(ps[i].root()));
                c.count("iterations_abandoned", 1);
            }
            1 => {
                let n = r.us(6);
                if let Some(a) = re.try_compile(ts[i], n) {
                    ensure!(a.num_states() <= n, "try_compile with bound {n} gives {} states", a.num_states());
                }
            }
            _ => {
                check(c, &mut re, ts[i], &ps[i].alpha(), r, 200, false, true)
                    .map_err(|e| format!("{}: {e}", ps[i].show(ps[i].root())))?;
            }
        }
    }
    Ok(())
}

fn many(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut p = Prog::default();
    match r.below(3) {
        0 => {
            let f = p.add(Op::Full);
            let a = p.add(Op::Range(97, 97 + r.below(3) as u32));
            let s = p.add(Op::AllChar);
            let e = p.add(Op::Exp(s, r.range(1, 7) as u32));
            p.add(Op::ConcatL(vec![f, a, e]));
        }
        1 => p = modular(r),
        _ => {
            let a = p.add(Op::Char(97));
            let b = p.add(Op::Str(vec![97, 98]));
            let u = p.add(Op::Union(a, b));
            let m = r.range(5, 60) as u32;
            p.add(Op::SmtLoop(u, m / 2, m));
        }
    }
    let mut re = ReManager::new();
    let t = p.build(&mut re);
    c.case(p.hash());
    check(c, &mut re, t[p.root()], &p.alpha(), r, 3000, false, true).map_err(|e| format!("{}: {e}", p.show(p.root())))?;
    Ok(())
}

/// thousands of derivatives
fn go_deep(c: &mut Ctx, max: u64, r: &mut Rng) -> R {
    let x = deep(max, r);
    let mut re = ReManager::new();
    let Some(t) = build_deep(c, &x, max, &mut re) else { return Ok(()) };
    let e = t[x.p.root()];
    let bounds = max < 10_000 || r.chance(1, 2);
    check(c, &mut re, e, &x.al, r, 6 * max as usize + 200, true, bounds)
        .map_err(|m| format!("{}: {}", x.p.show(x.p.root()), cut(m)))?;
    c.sample(|| x.p.show(x.p.root()));
    Ok(())
}
fn deep_terms(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_deep(c, *r.pick(&[100, 300, 1_500, 5_000]), r)
}
fn giant_terms(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let sizes = [20_000, 80_000];
    go_deep(c, sizes[i as usize % sizes.len()], r)
}

/// a manager with more than 2^16 terms
fn crowd(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    crowded(c, r, &mut |c, re, p, r| {
        let t = p.build(re);
        c.case(p.hash());
        check(c, re, t[p.root()], &p.alpha(), r, 200, false, true).map(|_| ())
    })
}

/// tens to hundreds of derivative classes
fn go_classes(c: &mut Ctx, giant: bool, r: &mut Rng) -> R {
    let mut re = ReManager::new();
    wide_case(c, giant, &mut re, r, &mut |c, re, w, r| {
        let x = w.t[w.p.root()];
        check(c, re, x, &w.al, r, 1000, false, true).map(|_| ())
    })
}
fn many_classes(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_classes(c, false, r)
}
fn giant_classes(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_classes(c, true, r)
}
