//! C03: derivatives are left quotients; derivative classes are uniform and cover the alphabet;
//! set_derivative / class_derivative accept exactly what they should.

use super::wide::*;
use crate::ctx::*;
use crate::dfa::*;
use crate::ensure;
use crate::props::common::*;
use crate::props::deep::*;
use crate::rng::*;
use crate::rx::*;
use crate::walk::*;
use crate::Family;
use aws_smt_strings::character_sets::{CharSet, ClassId};
use aws_smt_strings::errors::Error;
use aws_smt_strings::regular_expressions::{ReManager, RegLan};

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "depth2", quick: 368, thorough: 368, enumerated: true, run: depth2 },
        Family { name: "random", quick: 40_000, thorough: 6_000_000, enumerated: false, run: random },
        Family { name: "call-order", quick: 12_000, thorough: 2_000_000, enumerated: false, run: call_order },
        Family { name: "wide", quick: 6_000, thorough: 800_000, enumerated: false, run: wide_classes },
        Family { name: "deep", quick: 200, thorough: 30000, enumerated: false, run: deep_terms },
        Family { name: "giant", quick: 20, thorough: 1000, enumerated: false, run: giant_terms },
        Family { name: "giant-crowd", quick: 24, thorough: 2000, enumerated: false, run: crowd },
        Family { name: "classes", quick: 400, thorough: 200000, enumerated: false, run: many_classes },
        Family { name: "giant-classes", quick: 10, thorough: 1000, enumerated: false, run: giant_classes },
    ]
}

/// class of c according to the intervals the term reports
fn class_of(rs: &[(u32, u32)], c: u32) -> ClassId {
    for (i, &(a, b)) in rs.iter().enumerate() {
        if a <= c && c <= b {
            return ClassId::Interval(i);
        }
    }
    ClassId::Complement
}

/// Structure of the derivative classes of x, and the reference state reached on each class:
/// all the characters of a class must lead to the same residual language.
fn classes(c: &mut Ctx, x: RegLan, d: &Dfa, q: u32, al: &Alpha) -> Result<(Vec<(u32, u32)>, Vec<u32>, Option<u32>), String> {
    let rs = all_bounds(x.char_ranges());
    for w in rs.windows(2) {
        ensure!(w[0].1 < w[1].0, "derivative classes not sorted/disjoint: {rs:x?}");
    }
    ensure!(x.num_deriv_classes() == rs.len(), "num_deriv_classes = {}, {} ranges", x.num_deriv_classes(), rs.len());
    // is there a character outside all intervals?
    let mut next = 0u32;
    let mut gap = false;
    for &(a, b) in &rs {
        gap |= a > next;
        next = b + 1;
    }
    gap |= next <= MAXC;
    ensure!(x.empty_complement() != gap, "empty_complement = {} but ranges are {rs:x?}", x.empty_complement());
    let ids: Vec<ClassId> = x.class_ids().collect();
    let mut want: Vec<ClassId> = (0..rs.len()).map(ClassId::Interval).collect();
    if gap {
        want.push(ClassId::Complement);
    }
    let mut sorted = ids.clone();
    sorted.sort_by_key(|x| match x {
        ClassId::Interval(i) => *i,
        ClassId::Complement => usize::MAX,
    });
    ensure!(sorted == want, "class_ids = {ids:?}, expected {want:?} for ranges {rs:x?}");
    for id in &want {
        ensure!(x.valid_class_id(*id), "valid_class_id({id}) is false");
    }
    // uniformity in the reference
    let mut target: Vec<Option<u32>> = vec![None; rs.len()];
    let mut comp: Option<u32> = None;
    for ch in rep_chars(al, &rs) {
        let p = d.step(q, al.atom(ch));
        let slot = match class_of(&rs, ch) {
            ClassId::Interval(i) => &mut target[i],
            ClassId::Complement => &mut comp,
        };
        match *slot {
            None => *slot = Some(p),
            Some(p0) => ensure!(
                p0 == p,
                "class {} is not uniform: characters of the class have different left quotients (e.g. {ch:#x})",
                class_of(&rs, ch)
            ),
        }
    }
    c.count("classes", ids.len() as u64);
    let t: Vec<u32> = target.into_iter().map(|x| x.unwrap()).collect();
    Ok((rs, t, comp))
}

/// All the derivative functions at one term x whose language is that of state q of d.
fn check_at(c: &mut Ctx, re: &mut ReManager, x: RegLan, d: &Dfa, q: u32, al: &Alpha, r: &mut Rng, nsets: usize) -> R {
    let (rs, target, comp) = classes(c, x, d, q, al)?;
    let want = |cid: ClassId| match cid {
        ClassId::Interval(i) => target[i],
        ClassId::Complement => comp.unwrap(),
    };
    // with hundreds of classes, each (derivative, residual) pair is checked once
    let many = rs.len() > 40;
    let mut seen = std::collections::HashSet::new();
    let mut lang = |c: &mut Ctx, re: &mut ReManager, y: RegLan, p: u32, what: &str| -> R {
        if many && !seen.insert((y as *const _ as usize, p)) {
            c.count("derivative_languages_known", 1);
            return Ok(());
        }
        let s = check_term(re, y, d, p, al, 60).map_err(|e| format!("{what}: {e}"))?;
        c.count("derivative_languages_checked", 1);
        c.count("walk_pairs", s.pairs as u64);
        Ok(())
    };
    let ids: Vec<ClassId> = x.class_ids().collect();
    for &cid in &ids {
        match re.class_derivative(x, cid) {
            Err(e) => return Err(format!("class_derivative({cid}) fails with {e}")),
            Ok(y) => {
                lang(c, re, y, want(cid), &format!("class_derivative({cid})"))?;
                let z = re.class_derivative_unchecked(x, cid);
                if z != y {
                    lang(c, re, z, want(cid), &format!("class_derivative_unchecked({cid})"))?;
                }
            }
        }
    }
    let mut chs = rep_chars(al, &rs);
    if chs.len() > 300 {
        // (each class has been used above)
        let ends = [chs[0], chs[1], chs[chs.len() - 2], chs[chs.len() - 1]];
        r.shuffle(&mut chs);
        chs.truncate(120);
        chs.extend(ends);
    }
    for ch in chs {
        let y = re.char_derivative(x, ch);
        c.count("char_derivatives", 1);
        lang(c, re, y, d.step(q, al.atom(ch)), &format!("char_derivative({ch:#x})"))?;
    }
    // invalid ids
    let n = rs.len();
    let mut bad = vec![ClassId::Interval(n), ClassId::Interval(n + 1 + r.us(5)), ClassId::Interval(usize::MAX)];
    if comp.is_none() {
        bad.push(ClassId::Complement);
    }
    for cid in bad {
        ensure!(!x.valid_class_id(cid), "valid_class_id({cid}) is true with {n} intervals");
        let e = re.class_derivative(x, cid);
        ensure!(e == Err(Error::BadClassId), "class_derivative({cid}) with an invalid id gives {e:?}");
        c.count("invalid_ids", 1);
    }
    // set derivatives
    let pts = rep_chars(al, &rs);
    for _ in 0..nsets {
        let a = *r.pick(&pts);
        let mut b = if r.chance(1, 3) { a } else { *r.pick(&pts) };
        if r.chance(1, 6) {
            b = (a + r.below(4) as u32).min(MAXC);
        }
        let (a, b) = (a.min(b), a.max(b));
        check_set(c, re, x, &rs, d, q, al, a, b)?;
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn check_set(c: &mut Ctx, re: &mut ReManager, x: RegLan, rs: &[(u32, u32)], d: &Dfa, q: u32, al: &Alpha, a: u32, b: u32) -> R {
    let s = CharSet::range(a, b);
    let inside = rs.iter().any(|&(l, h)| l <= a && b <= h);
    let disjoint = rs.iter().all(|&(l, h)| b < l || h < a);
    let got = re.set_derivative(x, &s);
    c.count("set_derivatives", 1);
    if inside || disjoint {
        c.count(if inside { "sets_inside_interval" } else { "sets_in_complement" }, 1);
        match got {
            Err(e) => Err(format!("set_derivative([{a:#x}, {b:#x}]) fails ({e}) although the set lies in one class of {rs:x?}")),
            Ok(y) => {
                check_term(re, y, d, d.step(q, al.atom(a)), al, 40)
                    .map_err(|e| format!("set_derivative([{a:#x}, {b:#x}]): {e}"))?;
                let z = re.set_derivative_unchecked(x, &s);
                if z != y {
                    check_term(re, z, d, d.step(q, al.atom(a)), al, 40)
                        .map_err(|e| format!("set_derivative_unchecked([{a:#x}, {b:#x}]): {e}"))?;
                }
                Ok(())
            }
        }
    } else {
        c.count("sets_straddling", 1);
        ensure!(got.is_err(), "set_derivative([{a:#x}, {b:#x}]) succeeds although the set meets several classes of {rs:x?}");
        Ok(())
    }
}

/// Check at x and at some of its iterated derivatives (random walk).
fn check_from(c: &mut Ctx, re: &mut ReManager, x: RegLan, d: &Dfa, al: &Alpha, r: &mut Rng, hops: usize, nsets: usize) -> R {
    let mut y = x;
    let mut q = 0;
    let mut w: Vec<u32> = vec![];
    for h in 0..=hops {
        check_at(c, re, y, d, q, al, r, nsets).map_err(|e| format!("derivative w.r.t. {}: {e}", show_word(&w)))?;
        if h < hops {
            let rs = all_bounds(y.char_ranges());
            let ch = *r.pick(&rep_chars(al, &rs));
            w.push(ch);
            q = d.step(q, al.atom(ch));
            // composition along the string, from the start
            let z = re.str_derivative(x, &sstr(&w));
            check_term(re, z, d, q, al, 60).map_err(|e| format!("str_derivative({}): {e}", show_word(&w)))?;
            c.count("str_derivatives", 1);
            y = if r.chance(1, 2) { z } else { re.char_derivative(y, ch) };
        }
    }
    Ok(())
}

fn depth2(c: &mut Ctx, idx: u64, r: &mut Rng) -> R {
    let (base, dfas) = small_terms();
    let al = small_alpha();
    let l = idx as usize;
    let mut re = ReManager::new();
    let terms = base.build(&mut re);
    for x in 0..base.ops.len() {
        let (d, t, op) = match x % 3 {
            0 => (dfas[l].concat(&dfas[x], 500), re.concat(terms[l], terms[x]), Op::Concat(l, x)),
            1 => (dfas[l].union(&dfas[x], 500), re.union(terms[l], terms[x]), Op::Union(l, x)),
            _ => (dfas[l].inter(&dfas[x], 500), re.inter(terms[l], terms[x]), Op::Inter(l, x)),
        };
        let Ok(d) = d else { continue };
        c.evals += 1;
        c.enumerated += 1;
        check_at(c, &mut re, t, &d, 0, &al, r, 2).map_err(|e| {
            let mut p = base.clone();
            let i = p.add(op);
            format!("{}: {e}", p.show(i))
        })?;
    }
    Ok(())
}

fn random(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let p = diverse(r);
    let mut re = ReManager::new();
    let al = p.alpha();
    let Some(d) = p.dfas(&al, 200).pop().unwrap() else {
        c.count("ref_capped", 1);
        return Ok(());
    };
    let t = p.build(&mut re);
    c.case(p.hash());
    check_from(c, &mut re, t[p.root()], &d, &al, r, 3, 8).map_err(|e| format!("{}: {e}", p.show(p.root())))?;
    c.sample(|| p.show(p.root()));
    Ok(())
}

// The cache must not depend on which member of a class, or which function, comes first; all
// functions are called in a random order on all sub-terms, and the answers compared.
fn call_order(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let p = diverse(r);
    let al = p.alpha();
    let dfas = p.dfas(&al, 150);
    let mut re = ReManager::new();
    let t = p.build(&mut re);
    c.case(p.hash());
    let mut todo: Vec<(usize, u32, u64)> = vec![];
    for i in 0..p.ops.len() {
        let Some(_) = &dfas[i] else { continue };
        let pts = rep_chars(&al, &all_bounds(t[i].char_ranges()));
        for _ in 0..6 {
            todo.push((i, *r.pick(&pts), r.below(4)));
        }
    }
    r.shuffle(&mut todo);
    todo.truncate(60);
    for (i, ch, how) in todo {
        let d = dfas[i].as_ref().unwrap();
        let x = t[i];
        let rs = all_bounds(x.char_ranges());
        let cid = class_of(&rs, ch);
        let y = match how {
            0 => re.char_derivative(x, ch),
            1 => re.class_derivative(x, cid).map_err(|e| format!("class_derivative({cid}): {e}"))?,
            2 => re.set_derivative(x, &CharSet::singleton(ch)).map_err(|e| format!("set_derivative({ch:#x}): {e}"))?,
            _ => re.str_derivative(x, &sstr(&[ch])),
        };
        check_term(&mut re, y, d, d.step(0, al.atom(ch)), &al, 80)
            .map_err(|e| format!("{} derived by {ch:#x} (function {how}): {e}", p.show(i)))?;
        c.count("derivative_languages_checked", 1);
    }
    Ok(())
}

fn wide_classes(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let p = wide(r);
    let mut re = ReManager::new();
    let al = p.alpha();
    let Some(d) = p.dfas(&al, 200).pop().unwrap() else { return Ok(()) };
    let t = p.build(&mut re);
    c.case(p.hash());
    check_at(c, &mut re, t[p.root()], &d, 0, &al, r, 60).map_err(|e| format!("{}: {e}", p.show(p.root())))
}

/// thousands of iterated derivatives
fn go_deep(c: &mut Ctx, max: u64, r: &mut Rng) -> R {
    let x = deep(max, r);
    let mut re = ReManager::new();
    let Some(t) = build_deep(c, &x, max, &mut re) else { return Ok(()) };
    let e = t[x.p.root()];
    let name = || x.p.show(x.p.root());
    check_at(c, &mut re, e, &x.d, 0, &x.al, r, 6).map_err(|m| format!("{}: {}", name(), cut(m)))?;
    for w in x.words(r, 4) {
        let y = re.str_derivative(e, &sstr(&w));
        let q = x.d.run(0, w.iter().map(|&ch| x.al.atom(ch)));
        check_at(c, &mut re, y, &x.d, q, &x.al, r, 4)
            .map_err(|m| format!("{}: derivative along a word of length {}: {}", name(), w.len(), cut(m)))?;
        c.count("long_derivatives", 1);
    }
    c.sample(|| name());
    Ok(())
}
fn deep_terms(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_deep(c, *r.pick(&[100, 300, 1_500, 5_000]), r)
}
fn giant_terms(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let sizes = [20_000, 80_000];
    go_deep(c, sizes[i as usize % sizes.len()], r)
}

/// a manager with more than 2^16 terms
fn crowd(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    crowded(c, r, &mut |c, re, p, r| {
        let Some((t, al, d)) = prepared(c, re, p, 150, 200) else { return Ok(()) };
        c.case(p.hash());
        check_from(c, re, t[p.root()], &d, &al, r, 2, 4)
    })
}

/// tens to hundreds of derivative classes
fn go_classes(c: &mut Ctx, giant: bool, r: &mut Rng) -> R {
    let mut re = ReManager::new();
    wide_case(c, giant, &mut re, r, &mut |c, re, w, r| {
        let x = w.t[w.p.root()];
        if giant {
            check_from(c, re, x, &w.d, &w.al, r, 0, 10)
        } else {
            check_from(c, re, x, &w.d, &w.al, r, 2, 40)
        }
    })
}
fn many_classes(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_classes(c, false, r)
}
fn giant_classes(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_classes(c, true, r)
}
