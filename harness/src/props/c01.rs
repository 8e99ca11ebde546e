//! C01: membership (and nullable) equals the denotation of the construction.

use super::wide::*;
use crate::ctx::*;
use crate::dfa::*;
use crate::ensure;
use crate::props::common::*;
use crate::props::deep::*;
use crate::rng::*;
use crate::rx::*;
use crate::walk::*;
use crate::Family;
use aws_smt_strings::regular_expressions::{ReManager, RegLan};
use aws_smt_strings::smt_regular_expressions as w;

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "depth2", quick: small_count(), thorough: small_count(), enumerated: true, run: depth2 },
        Family { name: "loop-algebra", quick: LOOP_CASES, thorough: LOOP_CASES, enumerated: true, run: loop_algebra },
        Family { name: "random", quick: 16_000, thorough: 3_000_000, enumerated: false, run: random },
        Family { name: "related", quick: 24_000, thorough: 3_000_000, enumerated: false, run: related_terms },
        Family { name: "patterns", quick: 6_000, thorough: 1_000_000, enumerated: false, run: patterns },
        Family { name: "huge-loops", quick: 12_000, thorough: 3_000_000, enumerated: false, run: huge },
        Family { name: "long-words", quick: 1_500, thorough: 300_000, enumerated: false, run: long_words },
        Family { name: "wrappers", quick: 3_000, thorough: 600_000, enumerated: false, run: wrappers },
        Family { name: "deep", quick: 400, thorough: 60000, enumerated: false, run: deep_terms },
        Family { name: "giant", quick: 20, thorough: 2000, enumerated: false, run: giant_terms },
        Family { name: "giant-crowd", quick: 24, thorough: 2000, enumerated: false, run: crowd },
        Family { name: "giant-wrappers", quick: 64, thorough: 2000, enumerated: false, run: wrappers_crowd },
        Family { name: "classes", quick: 400, thorough: 200000, enumerated: false, run: many_classes },
        Family { name: "giant-classes", quick: 10, thorough: 1000, enumerated: false, run: giant_classes },
    ]
}

fn small_count() -> u64 {
    small_terms().0.ops.len() as u64
}

// Every expression of depth <= 2: case = left operand (or operand of a unary operation)
fn depth2(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    let (base, dfas) = small_terms();
    let al = small_alpha();
    let left = idx as usize;
    let mut re = ReManager::new();
    let terms: Vec<RegLan> = base.build(&mut re);
    let check = |c: &mut Ctx, re: &mut ReManager, t: RegLan, d: &Dfa, show: &dyn Fn() -> String| -> R {
        c.evals += 1;
        c.enumerated += 1;
        ensure!(t.nullable == d.fin[0], "nullable is {} for {}", t.nullable, show());
        let s = check_term(re, t, d, 0, &al, 300).map_err(|e| format!("{}: {e}", show()))?;
        c.count("walk_pairs", s.pairs as u64);
        c.count("char_steps", s.steps as u64);
        c.count(if s.complete { "walks_complete" } else { "walks_capped" }, 1);
        Ok(())
    };
    check(c, &mut re, terms[left], &dfas[left], &|| base.show(left))?;
    let opts = dfas_opt(&dfas);
    for op in small_unary(left) {
        let mut p = base.clone();
        let i = p.add(op);
        let Ok(d) = p.node_dfa(i, &opts, &al, 500) else { c.count("ref_capped", 1); continue };
        let t = p.build_op(i, &mut re, &terms);
        check(c, &mut re, t, &d, &|| p.show(i))?;
    }
    for right in 0..base.ops.len() {
        for b in 0..4 {
            let (l, r) = (&dfas[left], &dfas[right]);
            let (d, op) = match b {
                0 => (l.concat(r, 500), Op::Concat(left, right)),
                1 => (l.union(r, 500), Op::Union(left, right)),
                2 => (l.inter(r, 500), Op::Inter(left, right)),
                _ => (l.diff(r, 500), Op::Diff(left, right)),
            };
            let Ok(d) = d else { c.count("ref_capped", 1); continue };
            let t = match b {
                0 => re.concat(terms[left], terms[right]),
                1 => re.union(terms[left], terms[right]),
                2 => re.inter(terms[left], terms[right]),
                _ => re.diff(terms[left], terms[right]),
            };
            check(c, &mut re, t, &d, &|| {
                let mut p = base.clone();
                let i = p.add(op.clone());
                p.show(i)
            })?;
        }
    }
    c.sample(|| format!("all unary/binary operations on {}", base.show(left)));
    Ok(())
}

// loops of loops and concatenations of loops, all small ranges
const RANGES: u64 = 9 * 10 / 2 + 9; // 0<=i<=j<=8, and [i, inf] for i<=8
const LOOP_CASES: u64 = RANGES * 6;

fn range_of(mut i: u64) -> (u32, Option<u32>) {
    if i < 9 {
        return (i as u32, None);
    }
    i -= 9;
    let mut a = 0;
    while i >= 9 - a {
        i -= 9 - a;
        a += 1;
    }
    (a as u32, Some((a + i) as u32))
}

fn loop_algebra(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    let form = idx / RANGES;
    let (i, j) = range_of(idx % RANGES);
    for second in 0..RANGES {
        let (k, l) = range_of(second);
        // multi-character bases get smaller bounds
        let small = |x: u32, y: Option<u32>| x <= 3 && y.is_none_or(|y| y <= 4);
        if form >= 2 && !(small(i, j) && small(k, l)) {
            continue;
        }
        let mut p = Prog::default();
        let a = p.add(Op::Char(97));
        let base = match form {
            0 | 1 => a,
            2 | 3 => {
                let b = p.add(Op::Opt(a));
                let e = p.add(Op::Char(98));
                p.add(Op::Union(b, e))
            }
            4 => p.add(Op::Str(vec![97, 98])),
            _ => {
                let ab = p.add(Op::Str(vec![97, 98]));
                p.add(Op::Union(a, ab))
            }
        };
        let x = p.add(Op::MkLoop(base, i, j));
        match form {
            0 | 2 | 4 | 5 => {
                p.add(Op::MkLoop(x, k, l));
            }
            _ => {
                let y = p.add(Op::MkLoop(base, k, l));
                p.add(Op::Concat(x, y));
            }
        }
        let mut re = ReManager::new();
        c.enumerated += 1;
        check_prog(c, &p, &mut re, 400, 1500, None)?;
    }
    Ok(())
}

fn random(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let g = Gen::random(r);
    let mut re = ReManager::new();
    // several programs in the same manager: terms and derivatives are shared
    for _ in 0..4 {
        let budget = r.range(2, 16) as usize;
        let p = g.prog(budget, r);
        c.case(p.hash());
        check_prog(c, &p, &mut re, 300, 400, Some(r))?;
        c.sample(|| p.show(p.root()));
    }
    Ok(())
}

// operands sharing parts; several programs per manager
fn related_terms(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut re = ReManager::new();
    for _ in 0..3 {
        let p = related(r);
        c.case(p.hash());
        check_prog(c, &p, &mut re, 300, 400, Some(r))?;
        // its parts
        let al = p.alpha();
        let dfas = p.dfas(&al, 100);
        let t = p.build(&mut re);
        for i in 0..p.root() {
            if let (Some(d), Op::UnionL(_) | Op::InterL(_) | Op::DiffL(..) | Op::Union(..) | Op::Inter(..) | Op::Concat(..)) = (&dfas[i], &p.ops[i]) {
                let s = check_term(&mut re, t[i], d, 0, &al, 200).map_err(|e| format!("{}: {e}", p.show(i)))?;
                c.count("walk_pairs", s.pairs as u64);
                c.count("parts_checked", 1);
            }
        }
        c.sample(|| p.show(p.root()));
    }
    Ok(())
}

fn patterns(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let pal = *r.pick(PALETTES);
    let mut re = ReManager::new();
    let mut p = Prog::default();
    let n = r.range(2, 4);
    let mut pats: Vec<Vec<Item>> = vec![];
    let mut nodes = vec![];
    for i in 0..n {
        let it = if i > 0 && r.chance(2, 3) {
            specialise(&pats[r.us(pats.len())].clone(), pal, r)
        } else {
            (0..r.range(1, 6)).map(|_| rand_item(pal, r)).collect()
        };
        nodes.push(add_pattern(&mut p, &it));
        pats.push(it);
    }
    r.shuffle(&mut nodes);
    p.add(Op::UnionL(nodes));
    c.case(p.hash());
    check_prog(c, &p, &mut re, 400, 600, Some(r))?;
    c.sample(|| p.show(p.root()));
    Ok(())
}

fn check_words(c: &mut Ctx, p: &Prog, re: &mut ReManager, t: &[RegLan], r: &mut Rng, n: usize, maxlen: usize) -> R {
    let al = p.alpha();
    for _ in 0..n {
        let word = rand_word(&al, maxlen, r);
        check_member(c, p, re, t, &word)?;
    }
    Ok(())
}

fn check_member(c: &mut Ctx, p: &Prog, re: &mut ReManager, t: &[RegLan], word: &[u32]) -> R {
    let m = p.mats(word);
    let root = p.root();
    let want = m[root].get(0, word.len());
    let got = re.str_in_re(&sstr(word), t[root]);
    c.count("membership_tests", 1);
    c.count(if want { "members" } else { "non_members" }, 1);
    ensure!(got == want, "str_in_re({}, {}) = {got}, expected {want}", show_word(word), p.show(root));
    Ok(())
}

fn huge(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut g = Gen::random(r);
    g.huge = true;
    g.wloop = r.range(2, 5);
    g.palette = PALETTES[r.us(2)].to_vec();
    let mut re = ReManager::new();
    let budget = r.range(2, 7) as usize;
    let p = g.prog(budget, r);
    c.case(p.hash());
    let t = p.build(&mut re);
    let m = p.mats(&[]);
    for (i, x) in t.iter().enumerate() {
        ensure!(x.nullable == m[i].get(0, 0), "nullable is {} for {}", x.nullable, p.show(i));
        c.count("nullable_checks", 1);
    }
    check_words(c, &p, &mut re, &t, r, 6, 5)?;
    check_words(c, &p, &mut re, &t, r, 4, 12)?;
    // words that repeat one block: these are the ones that loops accept
    let al = p.alpha();
    for _ in 0..4 {
        let b: Vec<u32> = (0..r.range(1, 3)).map(|_| rand_char(&al, r)).collect();
        let n = r.us(18 / b.len() + 1);
        let word: Vec<u32> = b.iter().copied().cycle().take(n * b.len()).collect();
        check_member(c, &p, &mut re, &t, &word)?;
    }
    c.sample(|| p.show(p.root()));
    Ok(())
}

fn long_words(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let g = Gen::random(r);
    let mut re = ReManager::new();
    let p = g.prog(r.range(2, 9) as usize, r);
    let al = p.alpha();
    let t = p.build(&mut re);
    let Some(d) = p.dfas(&al, 300).pop().unwrap() else {
        c.count("ref_capped", 1);
        return Ok(());
    };
    if derivative_count(&mut re, t[p.root()], 300).is_none() {
        c.count("deriv_capped", 1);
        return Ok(());
    }
    c.case(p.hash());
    for _ in 0..6 {
        let n = r.range(20, 400) as usize;
        let word = guided_word(&d, &al, n, r);
        let want = d.accepts(&al, &word);
        let got = re.str_in_re(&sstr(&word), t[p.root()]);
        c.count("membership_tests", 1);
        c.count(if want { "members" } else { "non_members" }, 1);
        c.max("word_length", word.len() as u64);
        ensure!(got == want, "str_in_re({}, {}) = {got}, expected {want}", show_word(&word), p.show(p.root()));
    }
    Ok(())
}

fn wrappers(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut rng = r.clone();
    let progs: Vec<Prog> = (0..3).map(|_| Gen::random(&mut rng).prog(rng.us(9) + 2, &mut rng)).collect();
    for p in &progs {
        c.case(p.hash());
    }
    let ps = progs.clone();
    let n = in_thread(move || {
        let mut n = 0u64;
        let mut built: Vec<Vec<RegLan>> = vec![];
        for p in &ps {
            built.push(p.build_wrap());
        }
        for (p, t) in ps.iter().zip(&built) {
            let al = p.alpha();
            let m = p.mats(&[]);
            for i in 0..p.ops.len() {
                ensure!(t[i].nullable == m[i].get(0, 0), "wrappers: nullable is {} for {}", t[i].nullable, p.show(i));
            }
            for _ in 0..10 {
                let word = rand_word(&al, 7, &mut rng);
                let m = p.mats(&word);
                // query every sub-term
                for i in 0..p.ops.len() {
                    let want = m[i].get(0, word.len());
                    let got = w::str_in_re(&sstr(&word), t[i]);
                    n += 1;
                    ensure!(got == want, "wrappers: str_in_re({}, {}) = {got}, expected {want}", show_word(&word), p.show(i));
                }
            }
        }
        Ok(n)
    })?;
    c.count("membership_tests", n);
    c.count("thread_local_managers", 1);
    Ok(())
}

/// exponents in the thousands (tens of thousands: huge)
fn go_deep(c: &mut Ctx, max: u64, r: &mut Rng) -> R {
    let x = deep(max, r);
    let mut re = ReManager::new();
    let Some(t) = build_deep(c, &x, max, &mut re) else { return Ok(()) };
    let e = t[x.p.root()];
    let name = || x.p.show(x.p.root());
    let s = check_term(&mut re, e, &x.d, 0, &x.al, 20 * max as usize + 1000).map_err(|m| format!("{}: {}", name(), cut(m)))?;
    c.count("walk_pairs", s.pairs as u64);
    c.max("walk_pairs", s.pairs as u64);
    for w in x.words(r, 6) {
        let want = x.d.accepts(&x.al, &w);
        let got = re.str_in_re(&sstr(&w), e);
        c.count("membership_tests", 1);
        c.count(if want { "members" } else { "non_members" }, 1);
        c.max("word_length", w.len() as u64);
        ensure!(got == want, "{}: a word of length {} is a member: {want}, str_in_re gives {got}", name(), w.len());
    }
    c.sample(|| name());
    Ok(())
}
fn deep_terms(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_deep(c, *r.pick(&[100, 300, 1_500, 5_000]), r)
}
fn giant_terms(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let sizes = [20_000, 80_000, 150_000];
    go_deep(c, sizes[i as usize % sizes.len()], r)
}

/// a manager with more than 2^16 terms
fn crowd(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    crowded(c, r, &mut |c, re, p, r| {
        c.case(p.hash());
        check_prog(c, p, re, 200, 200, Some(r))
    })
}

/// tens to hundreds of derivative classes
fn go_classes(c: &mut Ctx, giant: bool, r: &mut Rng) -> R {
    let mut re = ReManager::new();
    wide_case(c, giant, &mut re, r, &mut |c, re, w, r| {
        let x = w.t[w.p.root()];
        check_term(re, x, &w.d, 0, &w.al, 1000)?;
        for _ in 0..4 {
            check_member(c, &w.p, re, &w.t, &guided_word(&w.d, &w.al, 10, r))?;
        }
        Ok(())
    })
}
fn many_classes(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_classes(c, false, r)
}
fn giant_classes(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_classes(c, true, r)
}

/// more than 2^16 terms made through the SMT-LIB functions in one thread
fn wrappers_crowd(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    crowded_wrappers(c, r, &mut |c, p, t, r| {
        c.case(p.hash());
        let al = p.alpha();
        for _ in 0..6 {
            let word = rand_word(&al, 7, r);
            let m = p.mats(&word);
            for i in 0..p.ops.len() {
                let want = m[i].get(0, word.len());
                let got = w::str_in_re(&sstr(&word), t[i]);
                c.count("membership_tests", 1);
                ensure!(got == want, "wrappers: str_in_re({}, {}) = {got}, expected {want}", show_word(&word), p.show(i));
            }
        }
        Ok(())
    })
}
