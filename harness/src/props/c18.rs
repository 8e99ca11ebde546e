//! C18: start_char / start_class are exact.

use super::wide::*;
use crate::ctx::*;
use crate::dfa::*;
use crate::ensure;
use crate::props::common::*;
use crate::props::deep::*;
use crate::rng::*;
use crate::rx::*;
use crate::walk::*;
use crate::Family;
use aws_smt_strings::character_sets::ClassId;
use aws_smt_strings::errors::Error;
use aws_smt_strings::regular_expressions::{ReManager, RegLan};

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "depth2", quick: 368, thorough: 368, enumerated: true, run: depth2 },
        Family { name: "random", quick: 60_000, thorough: 8_000_000, enumerated: false, run: random },
        Family { name: "near-empty", quick: 60_000, thorough: 8_000_000, enumerated: false, run: nearly },
        Family { name: "nested-empty", quick: 30_000, thorough: 4_000_000, enumerated: false, run: nested },
        Family { name: "deep", quick: 400, thorough: 60000, enumerated: false, run: deep_terms },
        Family { name: "giant", quick: 24, thorough: 2000, enumerated: false, run: giant_terms },
        Family { name: "giant-crowd", quick: 24, thorough: 2000, enumerated: false, run: crowd },
        Family { name: "classes", quick: 1200, thorough: 200000, enumerated: false, run: many_classes },
        Family { name: "giant-classes", quick: 6, thorough: 1000, enumerated: false, run: giant_classes },
    ]
}

/// all classes and characters (boundaries of all classes) of x, whose language is that of state q of d
fn check_at(c: &mut Ctx, re: &mut ReManager, x: RegLan, d: &Dfa, q: u32, al: &Alpha, live: &[bool], chars_first: bool) -> R {
    let rs = all_bounds(x.char_ranges());
    let pts = rep_chars(al, &rs);
    for phase in 0..2 {
        if (phase == 0) == chars_first {
            for &ch in &pts {
                let want = live[d.step(q, al.atom(ch)) as usize];
                let got = re.start_char(x, ch);
                c.count("start_char_calls", 1);
                c.count(if want { "answers_true" } else { "answers_false" }, 1);
                ensure!(got == want, "start_char({ch:#x}) = {got}, expected {want}");
            }
        } else {
            // expected answer for each class: must hold for every character of the class
            let mut want: Vec<Option<bool>> = vec![None; rs.len() + 1];
            let mut mixed = vec![false; rs.len() + 1];
            for &ch in &pts {
                let k = rs.iter().position(|&(l, h)| l <= ch && ch <= h).unwrap_or(rs.len());
                let v = live[d.step(q, al.atom(ch)) as usize];
                mixed[k] |= want[k].is_some_and(|w| w != v);
                want[k] = Some(v);
            }
            for (k, w) in want.iter().enumerate() {
                let cid = if k < rs.len() { ClassId::Interval(k) } else { ClassId::Complement };
                let got = re.start_class(x, cid);
                c.count("start_class_calls", 1);
                match w {
                    Some(w) => {
                        ensure!(!mixed[k], "class {cid}: the answer is not the same for all characters of the class");
                        ensure!(got == Ok(*w), "start_class({cid}) = {got:?}, expected {w}");
                    }
                    None => {
                        c.count("invalid_ids", 1);
                        ensure!(got == Err(Error::BadClassId), "start_class({cid}) = {got:?} for an empty class")
                    }
                }
            }
            for k in [rs.len(), rs.len() + 1, rs.len() + 7, usize::MAX] {
                let got = re.start_class(x, ClassId::Interval(k));
                c.count("invalid_ids", 1);
                ensure!(got == Err(Error::BadClassId), "start_class(Interval({k})) = {got:?} with {} intervals", rs.len());
            }
        }
    }
    Ok(())
}

fn depth2(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    let (base, dfas) = small_terms();
    let al = small_alpha();
    let l = idx as usize;
    let mut re = ReManager::new();
    let terms = base.build(&mut re);
    for x in 0..base.ops.len() {
        for b in 0..4 {
            let (d, t, op) = match b {
                0 => (dfas[l].concat(&dfas[x], 500), re.concat(terms[l], terms[x]), Op::Concat(l, x)),
                1 => (dfas[l].inter(&dfas[x], 500), re.inter(terms[l], terms[x]), Op::Inter(l, x)),
                2 => (dfas[l].diff(&dfas[x], 500), re.diff(terms[l], terms[x]), Op::Diff(l, x)),
                _ => (dfas[l].union(&dfas[x], 500), re.union(terms[l], terms[x]), Op::Union(l, x)),
            };
            let Ok(d) = d else { continue };
            c.evals += 1;
            c.enumerated += 1;
            check_at(c, &mut re, t, &d, 0, &al, &d.live(), (l + x) % 2 == 0).map_err(|e| {
                let mut p = base.clone();
                let i = p.add(op);
                format!("{}: {e}", p.show(i))
            })?;
        }
    }
    Ok(())
}

fn run(c: &mut Ctx, p: &Prog, r: &mut Rng) -> R {
    let al = p.alpha();
    let dfas = p.dfas(&al, 250);
    let Some(d) = &dfas[p.root()] else {
        c.count("ref_capped", 1);
        return Ok(());
    };
    let mut re = ReManager::new();
    let t = p.build(&mut re);
    {
        let mut probe = ReManager::new();
        let t2 = p.build(&mut probe)[p.root()];
        if derivative_count(&mut probe, t2, 400).is_none() {
            c.count("deriv_capped", 1);
            return Ok(());
        }
    }
    c.case(p.hash());
    check_at(c, &mut re, t[p.root()], d, 0, &al, &d.live(), r.chance(1, 2)).map_err(|e| format!("{}: {e}", p.show(p.root())))?;
    // sub-terms, then iterated derivatives
    for _ in 0..2 {
        let i = r.us(p.ops.len());
        if let Some(d) = &dfas[i] {
            if derivative_count(&mut re, t[i], 400).is_some() {
                check_at(c, &mut re, t[i], d, 0, &al, &d.live(), true).map_err(|e| format!("{}: {e}", p.show(i)))?;
            }
        }
    }
    let w = guided_word(d, &al, 5, r);
    let q = d.run(0, w.iter().map(|&x| al.atom(x)));
    let x = re.str_derivative(t[p.root()], &sstr(&w));
    check_at(c, &mut re, x, d, q, &al, &d.live(), true)
        .map_err(|e| format!("derivative of {} w.r.t. {}: {e}", p.show(p.root()), show_word(&w)))?;
    c.sample(|| p.show(p.root()));
    Ok(())
}

fn random(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    run(c, &diverse(r), r)
}

fn nearly(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    run(c, &near_empty(r), r)
}

/// concatenations, loops and unions around semantically empty expressions
fn nested(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let g = Gen::random(r);
    let mut p = near_empty(r);
    let mut x = p.root();
    for _ in 0..r.range(1, 3) {
        let budget = r.range(1, 3) as usize;
        x = match r.below(7) {
            0 => {
                let y = g.gen(&mut p, budget, r);
                p.add(Op::Concat(y, x))
            }
            1 => {
                let y = g.gen(&mut p, budget, r);
                p.add(Op::Concat(x, y))
            }
            2 => {
                let op = g.loop_op(x, r);
                p.add(op)
            }
            3 => {
                let y = g.gen(&mut p, budget, r);
                let o = p.add(Op::Opt(y));
                p.add(Op::ConcatL(vec![o, x]))
            }
            4 => {
                let y = g.gen(&mut p, budget, r);
                p.add(Op::Union(x, y))
            }
            5 => {
                let y = g.gen(&mut p, budget, r);
                p.add(Op::Inter(x, y))
            }
            _ => {
                let y = g.gen(&mut p, budget, r);
                let s = p.add(Op::Star(y));
                p.add(Op::ConcatL(vec![s, x, y]))
            }
        };
    }
    if p.root() != x {
        p.ops.truncate(x + 1);
    }
    run(c, &p, r)
}

/// thousands of derivatives before the answer is known
fn go_deep(c: &mut Ctx, max: u64, r: &mut Rng) -> R {
    let x = deep(max, r);
    let mut re = ReManager::new();
    let Some(t) = build_deep(c, &x, max, &mut re) else { return Ok(()) };
    let e = t[x.p.root()];
    let live = x.d.live();
    let name = || x.p.show(x.p.root());
    check_at(c, &mut re, e, &x.d, 0, &x.al, &live, r.chance(1, 2)).map_err(|m| format!("{}: {}", name(), cut(m)))?;
    for w in x.words(r, 2) {
        let y = re.str_derivative(e, &sstr(&w));
        let q = x.d.run(0, w.iter().map(|&ch| x.al.atom(ch)));
        check_at(c, &mut re, y, &x.d, q, &x.al, &live, true)
            .map_err(|m| format!("{}: derivative along a word of length {}: {}", name(), w.len(), cut(m)))?;
    }
    c.sample(|| name());
    Ok(())
}
fn deep_terms(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_deep(c, *r.pick(&[100, 300, 1_500, 5_000]), r)
}
fn giant_terms(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let sizes = [20_000, 80_000];
    go_deep(c, sizes[i as usize % sizes.len()], r)
}

/// a manager with more than 2^16 terms
fn crowd(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    crowded(c, r, &mut |c, re, p, r| {
        let Some((t, al, d)) = prepared(c, re, p, 150, 200) else { return Ok(()) };
        c.case(p.hash());
        check_at(c, re, t[p.root()], &d, 0, &al, &d.live(), r.chance(1, 2))
    })
}

/// tens to hundreds of derivative classes
fn go_classes(c: &mut Ctx, giant: bool, r: &mut Rng) -> R {
    let mut re = ReManager::new();
    wide_case(c, giant, &mut re, r, &mut |c, re, w, r| {
        let x = w.t[w.p.root()];
        check_at(c, re, x, &w.d, 0, &w.al, &w.d.live(), r.chance(1, 2))
    })
}
fn many_classes(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_classes(c, false, r)
}
fn giant_classes(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_classes(c, true, r)
}
