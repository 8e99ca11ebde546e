//! C07: hash-consing. Same constructor, same arguments: the same object, whatever happened in
//! between; == is object identity; complement is an involution without fixed points; languages do
//! not depend on the history of the manager.

use crate::ctx::*;
use crate::dfa::*;
use crate::ensure;
use crate::props::common::*;
use crate::rng::*;
use crate::rx::*;
use crate::walk::*;
use crate::Family;
use aws_smt_strings::character_sets::CharSet;
use aws_smt_strings::regular_expressions::{ReManager, RegLan, RE};
use aws_smt_strings::smt_regular_expressions as w;
use std::collections::{HashMap, HashSet};

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "depth2-reissue", quick: 368, thorough: 368, enumerated: true, run: depth2 },
        Family { name: "histories", quick: 30_000, thorough: 5_000_000, enumerated: false, run: histories },
        Family { name: "reissue", quick: 30_000, thorough: 5_000_000, enumerated: false, run: reissue },
        Family { name: "classes", quick: 400, thorough: 60_000, enumerated: false, run: reissue_wide },
        Family { name: "leaves", quick: 160, thorough: 40_000, enumerated: false, run: leaves },
        Family { name: "permuted", quick: 30_000, thorough: 5_000_000, enumerated: false, run: permuted },
        Family { name: "growth", quick: 200, thorough: 30_000, enumerated: false, run: growth },
        Family { name: "thread-local", quick: 4_000, thorough: 600_000, enumerated: false, run: thread_local_manager },
        Family { name: "giant-crowd", quick: 32, thorough: 2000, enumerated: false, run: crowd },
        Family { name: "giant-wrappers", quick: 64, thorough: 2000, enumerated: false, run: wrappers_crowd },
    ]
}

fn same(a: RegLan, b: RegLan) -> R {
    ensure!(std::ptr::eq(a, b), "a different object ({} second construction)", if a == b { "equal" } else { "unequal" });
    ensure!(a == b, "the same object does not compare equal to itself");
    Ok(())
}

fn check_equality(c: &mut Ctx, terms: &[RegLan]) -> R {
    // all pairs when few, hashed otherwise
    if terms.len() <= 60 {
        for i in 0..terms.len() {
            for j in 0..=i {
                let (p, e) = (std::ptr::eq(terms[i], terms[j]), terms[i] == terms[j]);
                ensure!(p == e, "terms {} and {}: == gives {e}, pointer identity gives {p}", terms[i], terms[j]);
                c.count("pairs_compared", 1);
            }
        }
    } else {
        let p: HashSet<*const RE> = terms.iter().map(|&x| x as *const RE).collect();
        let e: HashSet<RegLan> = terms.iter().copied().collect();
        ensure!(p.len() == e.len(), "{} objects but {} classes of ==", p.len(), e.len());
        c.count("pairs_compared", terms.len() as u64);
    }
    Ok(())
}

fn check_identity(c: &mut Ctx, re: &mut ReManager, terms: &[RegLan]) -> R {
    check_equality(c, terms)?;
    for &x in terms {
        let y = re.complement(x);
        ensure!(y != x && !std::ptr::eq(y, x), "complement({x}) is {x} itself");
        let z = re.complement(y);
        ensure!(std::ptr::eq(z, x), "complement(complement({x})) is another object: {z}");
        ensure!(y.nullable != x.nullable, "complement({x}) has the same nullable flag");
        c.count("complements", 1);
    }
    Ok(())
}

fn depth2(c: &mut Ctx, idx: u64, r: &mut Rng) -> R {
    let (base, _) = small_terms();
    let l = idx as usize;
    let mut re = ReManager::new();
    let terms = base.build(&mut re);
    let ops: Vec<Op> = (0..terms.len())
        .flat_map(|x| [Op::Concat(l, x), Op::Union(l, x), Op::Inter(l, x), Op::Diff(l, x)])
        .chain(small_unary(l))
        .collect();
    let mut p = base.clone();
    let first: Vec<RegLan> = ops
        .iter()
        .map(|op| {
            let i = p.add(op.clone());
            p.build_op(i, &mut re, &terms)
        })
        .collect();
    // derivatives and emptiness tests in between
    for _ in 0..200 {
        let x = *r.pick(&first);
        re.char_derivative(x, 97);
        if r.chance(1, 8) {
            re.is_empty_re(x);
        }
    }
    for (i, &t) in first.iter().enumerate() {
        let u = p.build_op(base.ops.len() + i, &mut re, &terms);
        c.evals += 1;
        c.enumerated += 1;
        same(t, u).map_err(|e| format!("{}: {e}", p.show(base.ops.len() + i)))?;
    }
    // the depth-1 terms themselves
    for i in 0..base.ops.len() {
        let u = base.build_op(i, &mut re, &terms);
        same(terms[i], u).map_err(|e| format!("{}: {e}", base.show(i)))?;
    }
    check_identity(c, &mut re, &first)
}

/// unrelated and related work on the manager
fn disturb(c: &mut Ctx, re: &mut ReManager, known: &[RegLan], r: &mut Rng, steps: u64) -> Vec<RegLan> {
    let mut made = vec![];
    for _ in 0..steps {
        c.count("disturbances", 1);
        match r.below(8) {
            0 | 1 => {
                let p = diverse(r);
                made.extend(p.build(re));
            }
            2 if !known.is_empty() => {
                let mut x = *r.pick(known);
                for _ in 0..r.range(1, 5) {
                    let pts = rep_chars(&Alpha::new(vec![]), &all_bounds(x.char_ranges()));
                    let ch = *r.pick(&pts);
                    x = re.char_derivative(x, ch);
                    made.push(x);
                }
            }
            3 if !known.is_empty() => {
                let x = *r.pick(known);
                if derivative_count(re, x, 100).is_some() {
                    match r.below(4) {
                        0 => {
                            re.is_empty_re(x);
                        }
                        1 => {
                            re.get_string(x);
                        }
                        2 => {
                            re.compile(x);
                        }
                        _ => {
                            re.try_compile(x, 5);
                        }
                    }
                }
            }
            4 if !known.is_empty() => {
                let x = *r.pick(known);
                let y = *r.pick(known);
                made.push(match r.below(4) {
                    0 => re.concat(x, y),
                    1 => re.union(x, y),
                    2 => re.inter(y, x),
                    _ => re.diff(x, y),
                });
            }
            5 => {
                let x = r.below(MAXC as u64 + 1) as u32;
                let y = r.range(x as u64, MAXC as u64) as u32;
                made.push(re.range(x, y));
                made.push(re.char(x));
            }
            6 if !known.is_empty() => {
                let x = *r.pick(known);
                let ch = r.below(MAXC as u64 + 1) as u32;
                let _ = re.set_derivative(x, &CharSet::singleton(ch));
                re.complement(x);
            }
            _ => {
                let n = r.below(5);
                let s: Vec<u32> = (0..n).map(|_| 95 + r.below(6) as u32).collect();
                made.push(re.str(&sstr(&s)));
            }
        }
    }
    made
}

fn reissue(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_reissue(c, diverse(r), r)
}

/// unions of tens to hundreds of operands
fn reissue_wide(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let n = *r.pick(&[12u64, 40, 40, 100, 300]);
    let n = r.range(n / 2, n) as usize;
    go_reissue(c, super::wide::wide_prog(n, r), r).map_err(cut)
}

fn go_reissue(c: &mut Ctx, p: Prog, r: &mut Rng) -> R {
    c.case(p.hash());
    let mut re = ReManager::new();
    let n = r.below(4);
    disturb(c, &mut re, &[], r, n);
    let t = p.build(&mut re);
    let mut all = t.clone();
    for _ in 0..r.range(1, 3) {
        let n = r.range(1, 8);
        let made = disturb(c, &mut re, &all, r, n);
        all.extend(made);
        let mut order: Vec<usize> = (0..p.ops.len()).collect();
        r.shuffle(&mut order);
        for i in order {
            let u = p.build_op(i, &mut re, &t);
            c.count("reissues", 1);
            same(t[i], u).map_err(|e| format!("{}: {e}", p.show(i)))?;
        }
    }
    // and the whole program again
    let t2 = p.build(&mut re);
    for i in 0..t.len() {
        same(t[i], t2[i]).map_err(|e| format!("{}: {e}", p.show(i)))?;
    }
    r.shuffle(&mut all);
    all.truncate(60);
    check_identity(c, &mut re, &all)?;
    c.sample(|| p.show(p.root()));
    Ok(())
}

/// language of t as a canonical automaton, observed through derivatives
pub fn term_dfa(re: &mut ReManager, t: RegLan, al: &Alpha, cap: usize) -> Option<Dfa> {
    let mut idx: HashMap<*const RE, u32> = HashMap::new();
    let mut order = vec![t];
    idx.insert(t as *const RE, 0);
    let mut d = Dfa { k: al.k(), delta: vec![], fin: vec![] };
    let mut i = 0;
    while i < order.len() {
        let x = order[i];
        i += 1;
        d.fin.push(x.nullable);
        for a in 0..al.k() {
            let y = re.char_derivative(x, al.starts[a]);
            let n = order.len() as u32;
            let id = *idx.entry(y as *const RE).or_insert(n);
            if id == n {
                if order.len() >= cap {
                    return None;
                }
                order.push(y);
            }
            d.delta.push(id);
        }
    }
    Some(d.minimize(0))
}

fn compare(c: &mut Ctx, p: &Prog, al: &Alpha, fresh: &[Option<Dfa>], re: &mut ReManager, t: &[RegLan], what: &str, cap: usize) -> R {
    for i in 0..p.ops.len() {
        let Some(d) = &fresh[i] else { continue };
        match term_dfa(re, t[i], al, cap * 6) {
            None => c.count("other_history_capped", 1),
            Some(e) => {
                c.count("languages_compared", 1);
                if *d != e {
                    let x = d.product(&e, usize::MAX, |p, q| p != q).unwrap();
                    let w: Vec<u32> = x.shortest(0).unwrap().into_iter().map(|i| al.starts[i]).collect();
                    return Err(format!(
                        "{}: in a fresh manager {} is {}, but {what} it is {}",
                        p.show(i),
                        show_word(&w),
                        if d.accepts(al, &w) { "accepted" } else { "rejected" },
                        if e.accepts(al, &w) { "accepted" } else { "rejected" }
                    ));
                }
            }
        }
    }
    Ok(())
}

fn fresh_languages(c: &mut Ctx, p: &Prog, al: &Alpha, cap: usize) -> Vec<Option<Dfa>> {
    let mut re = ReManager::new();
    let t = p.build(&mut re);
    let v: Vec<Option<Dfa>> = t.iter().map(|&x| term_dfa(&mut re, x, al, cap)).collect();
    c.count("fresh_languages", v.iter().flatten().count() as u64);
    v
}

// same program on a fresh manager and on managers with a past
fn histories(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let p = diverse(r);
    c.case(p.hash());
    let al = p.alpha();
    let fresh = fresh_languages(c, &p, &al, 150);
    let mut re = ReManager::new();
    // the past: other programs, and pieces of this one
    let n = r.range(1, 10);
    let mut known = disturb(c, &mut re, &[], r, n);
    if r.chance(1, 2) {
        // sub-expressions in the reverse order, with fresh arguments
        for i in (0..p.ops.len()).rev() {
            if p.children(i).is_empty() {
                let x = p.build_op(i, &mut re, &[]);
                known.push(x);
            }
        }
    }
    let mut t: Vec<RegLan> = vec![];
    for i in 0..p.ops.len() {
        let x = p.build_op(i, &mut re, &t);
        t.push(x);
        known.push(x);
        if r.chance(1, 3) {
            let n = r.range(1, 2);
            let m = disturb(c, &mut re, &known, r, n);
            known.extend(m);
        }
    }
    compare(c, &p, &al, &fresh, &mut re, &t, "in a manager with a history", 150)?;
    c.sample(|| p.show(p.root()));
    Ok(())
}

// the same program with its independent steps in other orders (ids are handed out differently),
// and with the operands of commutative operations swapped
fn permuted(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let p = diverse(r);
    c.case(p.hash());
    let al = p.alpha();
    let fresh = fresh_languages(c, &p, &al, 150);
    let n = p.ops.len();
    let mut re = ReManager::new();
    let mut t: Vec<Option<RegLan>> = vec![None; n];
    let mut left: Vec<usize> = (0..n).collect();
    while !left.is_empty() {
        let ready: Vec<usize> = left.iter().copied().filter(|&i| p.children(i).iter().all(|&j| t[j].is_some())).collect();
        let i = *r.pick(&ready);
        let filler = re.empty();
        let args: Vec<RegLan> = t.iter().map(|x| x.unwrap_or(filler)).collect();
        let swapped = match &p.ops[i] {
            Op::Union(x, y) => Some(Op::Union(*y, *x)),
            Op::Inter(x, y) => Some(Op::Inter(*y, *x)),
            Op::UnionL(l) => {
                let mut l = l.clone();
                r.shuffle(&mut l);
                Some(Op::UnionL(l))
            }
            Op::InterL(l) => {
                let mut l = l.clone();
                r.shuffle(&mut l);
                Some(Op::InterL(l))
            }
            _ => None,
        };
        let x = match swapped {
            Some(op) if r.chance(1, 2) => {
                let q = Prog { ops: vec![op] };
                q.build_op(0, &mut re, &args)
            }
            _ => p.build_op(i, &mut re, &args),
        };
        t[i] = Some(x);
        left.retain(|&j| j != i);
    }
    let t: Vec<RegLan> = t.into_iter().map(|x| x.unwrap()).collect();
    compare(c, &p, &al, &fresh, &mut re, &t, "when built in another order", 150)
}

// thousands of terms between the two constructions
fn growth(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let p = diverse(r);
    c.case(p.hash());
    let al = p.alpha();
    let mut re = ReManager::new();
    let t = p.build(&mut re);
    let langs: Vec<Option<Dfa>> = t.iter().map(|&x| term_dfa(&mut re, x, &al, 150)).collect();
    let mut all = t.clone();
    let n = r.range(500, 4000);
    for i in 0..n {
        let x = *r.pick(&all);
        let y = if r.chance(1, 2) { *r.pick(&t) } else { *r.pick(&all) };
        let z = match r.below(6) {
            0 => re.char(i as u32),
            1 => re.range(i as u32, i as u32 + 5),
            2 => re.union(x, y),
            3 => re.inter(x, y),
            4 => re.char_derivative(x, 97),
            _ => {
                let s: Vec<u32> = (0..4).map(|k| ((i >> (2 * k)) & 3) as u32 + 97).collect();
                re.str(&sstr(&s))
            }
        };
        if all.len() < 3000 && z.to_string().len() < 60 {
            all.push(z);
        }
    }
    c.max("terms_in_between", n);
    for i in 0..p.ops.len() {
        let u = p.build_op(i, &mut re, &t);
        c.count("reissues", 1);
        same(t[i], u).map_err(|e| format!("{}: {e}", p.show(i)))?;
        if let Some(d) = &langs[i] {
            if let Some(e) = term_dfa(&mut re, t[i], &al, 400) {
                ensure!(*d == e, "{}: the language of the term changed over time", p.show(i));
                c.count("languages_compared", 1);
            }
        }
    }
    check_identity(c, &mut re, &all)
}

// the manager behind the SMT-LIB-named wrappers
fn thread_local_manager(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let p = Gen::random(r).prog(r.range(2, 8) as usize, r);
    c.case(p.hash());
    let mut rng = r.clone();
    let ps = p.clone();
    let n = in_thread(move || {
        let mut r = rng.clone();
        let al = ps.alpha();
        // a past
        let mut junk = vec![];
        for _ in 0..r.below(4) {
            junk.push(Gen::random(&mut r).prog(r.range(2, 6) as usize, &mut r).build_wrap());
        }
        let t = ps.build_wrap();
        for _ in 0..r.range(1, 4) {
            let q = Gen::random(&mut r).prog(r.range(2, 6) as usize, &mut r);
            junk.push(q.build_wrap());
            let x = *r.pick(&t);
            w::str_in_re(&sstr(&rand_word(&al, 6, &mut r)), x);
        }
        for i in 0..ps.ops.len() {
            let u = ps.build_wrap_op(i, &t);
            same(t[i], u).map_err(|e| format!("wrappers, {}: {e}", ps.show(i)))?;
            let y = w::re_comp(t[i]);
            ensure!(!std::ptr::eq(y, t[i]) && y != t[i], "wrappers: complement fixed point");
            ensure!(std::ptr::eq(w::re_comp(y), t[i]), "wrappers: complement is not an involution on {}", ps.show(i));
        }
        // languages: same answers as on a fresh private manager
        let mut re = ReManager::new();
        let f = ps.build(&mut re);
        let mut n = 0u64;
        for _ in 0..25 {
            let word = rand_word(&al, 7, &mut rng);
            for i in 0..ps.ops.len() {
                let a = w::str_in_re(&sstr(&word), t[i]);
                let b = re.str_in_re(&sstr(&word), f[i]);
                n += 1;
                ensure!(a == b, "{}: {} accepted by the wrapper: {a}, by a fresh manager: {b}", ps.show(i), show_word(&word));
            }
        }
        Ok(n)
    })?;
    c.count("words_compared", n);
    Ok(())
}

/// Thousands of ranges, strings and loops over ranges, pairwise different as languages, in one
/// manager: pairwise different objects, the same objects again later, each with its own language.
fn leaves(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let n = r.range(500, 6000) as usize;
    // starts and lengths from grids, or special values
    let step = 1u32 << r.below(14);
    let grid = r.range(2, 200);
    let point = |r: &mut Rng| match r.below(4) {
        0 => special_char(r),
        1 => r.below(MAXC as u64 + 1) as u32,
        _ => (r.below(grid) as u32 * step + r.below(3) as u32) % (MAXC + 1),
    };
    let mut known: HashMap<*const RE, Op3> = HashMap::new();
    let mut ops: Vec<Op3> = vec![];
    let mut seen = HashSet::new();
    while ops.len() < n {
        let (x, y) = (point(r), point(r));
        let (a, b) = match r.below(3) {
            0 => (x, x),
            1 => (x, (x + y % 300).min(MAXC)),
            _ => (x.min(y), x.max(y)),
        };
        let op = match r.below(6) {
            0 | 1 | 2 => Op3::Range(a, b),
            3 => {
                let mut w: Vec<u32> = (0..r.range(2, 4)).map(|_| point(r)).collect();
                if w.iter().all(|&v| v == w[0]) {
                    w[0] ^= 1;
                }
                Op3::Str(w)
            }
            _ => {
                let i = if r.chance(1, 2) { r.below(5) as u32 } else { 1 << r.below(32) };
                let j = match r.below(3) {
                    0 => None,
                    1 => Some(i.max(2)),
                    _ => Some(i.max(2).saturating_add(if r.chance(1, 2) { r.below(5) as u32 } else { 1 << r.below(31) })),
                };
                Op3::Loop(a, b, i, j)
            }
        };
        if seen.insert(op.clone()) {
            ops.push(op);
        }
        c.evals += 1;
    }
    let mut re = ReManager::new();
    let mut terms: Vec<RegLan> = vec![];
    for op in &ops {
        let t = op.build(&mut re);
        if let Some(o) = known.insert(t as *const RE, op.clone()) {
            return Err(format!("one object for {o:?} and {op:?} (in a manager with {} other terms)", terms.len()));
        }
        terms.push(t);
    }
    c.count("leaves", n as u64);
    for _ in 0..2 * n {
        let i = r.us(n);
        same(terms[i], ops[i].build(&mut re)).map_err(|e| format!("{:?}: {e}", ops[i]))?;
        c.count("reissues", 1);
    }
    for (op, &t) in ops.iter().zip(&terms) {
        for (w, want) in op.words() {
            let got = re.str_in_re(&sstr(&w), t);
            c.count("words_compared", 1);
            ensure!(got == want, "{op:?}: str_in_re({}) = {got} in a manager with {n} such terms", show_word(&w));
        }
    }
    check_equality(c, &terms)?;
    let some: Vec<RegLan> = (0..40).map(|_| *r.pick(&terms)).collect();
    check_identity(c, &mut re, &some)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Op3 {
    Range(u32, u32),
    Str(Vec<u32>),
    Loop(u32, u32, u32, Option<u32>),
}

impl Op3 {
    fn build(&self, re: &mut ReManager) -> RegLan {
        match self {
            Op3::Range(a, b) => re.range(*a, *b),
            Op3::Str(w) => re.str(&sstr(w)),
            Op3::Loop(a, b, i, j) => {
                let x = re.range(*a, *b);
                match j {
                    Some(j) => re.smt_loop(x, *i, *j),
                    None => {
                        let (y, z) = (re.exp(x, *i), re.star(x));
                        re.concat(y, z)
                    }
                }
            }
        }
    }

    /// a few words and whether they belong to the language
    fn words(&self) -> Vec<(Vec<u32>, bool)> {
        let mut v = vec![];
        match self {
            Op3::Range(a, b) => {
                v.extend([(vec![*a], true), (vec![*b], true), (vec![], false)]);
                if *a > 0 {
                    v.push((vec![a - 1], false));
                }
                if *b < MAXC {
                    v.push((vec![b + 1], false));
                }
            }
            Op3::Str(w) => {
                let mut x = w.clone();
                v.push((w.clone(), true));
                x[0] ^= 1;
                v.push((x, false));
                v.push((w[1..].to_vec(), false));
            }
            Op3::Loop(a, b, i, j) => {
                for k in [i.saturating_sub(1), *i, i + 1, j.unwrap_or(i + 7).min(9), j.unwrap_or(i + 8).min(9) + 1] {
                    if k < 20 {
                        let mut w = vec![*a; k as usize];
                        v.push((w.clone(), *i <= k && j.is_none_or(|j| k <= j)));
                        if k > 0 {
                            w[k as usize - 1] = *b;
                            v.push((w.clone(), *i <= k && j.is_none_or(|j| k <= j)));
                            if *a > 0 {
                                w[0] = a - 1;
                                v.push((w, false));
                            }
                        }
                    }
                }
            }
        }
        v
    }
}

/// a manager with more than 2^16 terms
fn crowd(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    crowded(c, r, &mut |c, re, p, _r| {
        c.case(p.hash());
        let al = p.alpha();
        let fresh = fresh_languages(c, p, &al, 100);
        let t = p.build(re);
        compare(c, p, &al, &fresh, re, &t, "in a manager with many terms", 100)?;
        for i in 0..p.ops.len() {
            let u = p.build_op(i, re, &t);
            c.count("reissues", 1);
            same(t[i], u).map_err(|e| format!("{}: {e}", p.show(i)))?;
        }
        check_identity(c, re, &t)
    })
}

/// the same through the SMT-LIB functions
fn wrappers_crowd(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    crowded_wrappers(c, r, &mut |c, p, t, r| {
        c.case(p.hash());
        for i in 0..p.ops.len() {
            let u = p.build_wrap_op(i, t);
            c.count("reissues", 1);
            same(t[i], u).map_err(|e| format!("wrappers, {}: {e}", p.show(i)))?;
            let y = w::re_comp(t[i]);
            ensure!(!std::ptr::eq(y, t[i]) && y != t[i], "wrappers: complement fixed point");
            ensure!(std::ptr::eq(w::re_comp(y), t[i]), "wrappers: complement is not an involution on {}", p.show(i));
        }
        check_equality(c, t)?;
        // languages: same answers as on a fresh private manager
        let mut re = ReManager::new();
        let f = p.build(&mut re);
        let al = p.alpha();
        for _ in 0..8 {
            let word = rand_word(&al, 7, r);
            for i in 0..p.ops.len() {
                let a = w::str_in_re(&sstr(&word), t[i]);
                let b = re.str_in_re(&sstr(&word), f[i]);
                c.count("words_compared", 1);
                ensure!(a == b, "{}: {} accepted by the wrapper: {a}, by a fresh manager: {b}", p.show(i), show_word(&word));
            }
        }
        Ok(())
    })
}
