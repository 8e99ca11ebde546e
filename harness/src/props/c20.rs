//! C20: CharSet operations are exact interval algebra.

use crate::ctx::*;
use crate::dfa::MAXC;
use crate::ensure;
use crate::rng::*;
use crate::walk::bounds;
use crate::Family;
use aws_smt_strings::character_sets::CharSet;
use std::cmp::Ordering;

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "pairs", quick: 210, thorough: 528, enumerated: true, run: pairs },
        Family { name: "lists", quick: 45, thorough: 105, enumerated: true, run: lists },
        Family { name: "random", quick: 2_000_000, thorough: 300_000_000, enumerated: false, run: random },
        Family { name: "random-lists", quick: 500_000, thorough: 80_000_000, enumerated: false, run: random_lists },
        Family { name: "sweep", quick: 24, thorough: 1_000, enumerated: false, run: sweep },
    ]
}

type Iv = (u32, u32);

fn mk(x: Iv) -> CharSet {
    if x.0 == x.1 {
        CharSet::singleton(x.0)
    } else {
        CharSet::range(x.0, x.1)
    }
}

fn inter(a: Iv, b: Iv) -> Option<Iv> {
    let (x, y) = (a.0.max(b.0), a.1.min(b.1));
    (x <= y).then_some((x, y))
}

/// the union when it is an interval
fn union(a: Iv, b: Iv) -> Option<Iv> {
    let (lo, hi) = if a.0 <= b.0 { (a, b) } else { (b, a) };
    // no character between the two
    (lo.1 as u64 + 1 >= hi.0 as u64).then_some((lo.0, lo.1.max(hi.1)))
}

fn check_one(c: &mut Ctx, a: Iv) -> R {
    let x = CharSet::range(a.0, a.1);
    let n = (a.1 as u64) - (a.0 as u64) + 1;
    ensure!(x.size() as u64 == n, "size of {a:x?} is {}", x.size());
    ensure!(x.is_singleton() == (n == 1), "is_singleton of {a:x?}");
    ensure!(x.is_alphabet() == (n == MAXC as u64 + 1), "is_alphabet of {a:x?}");
    let p = x.pick();
    ensure!(a.0 <= p && p <= a.1, "pick of {a:x?} is {p:#x}");
    ensure!(x == mk(a), "singleton/range differ for {a:x?}");
    ensure!((x == CharSet::all_chars()) == (n == MAXC as u64 + 1), "== all_chars for {a:x?}");
    c.count("calls", 7);
    Ok(())
}

fn check_point(c: &mut Ctx, a: Iv, p: u32) -> R {
    let x = mk(a);
    ensure!(x.contains(p) == (a.0 <= p && p <= a.1), "{a:x?} contains {p:#x} is {}", x.contains(p));
    // all elements are smaller/larger
    ensure!(x.is_before(p) == (a.1 < p), "{a:x?} is_before {p:#x} is {}", x.is_before(p));
    ensure!(x.is_after(p) == (a.0 > p), "{a:x?} is_after {p:#x} is {}", x.is_after(p));
    c.count("calls", 3);
    Ok(())
}

fn check_pair(c: &mut Ctx, a: Iv, b: Iv) -> R {
    let (x, y) = (mk(a), mk(b));
    ensure!(x.covers(&y) == (a.0 <= b.0 && b.1 <= a.1), "{a:x?} covers {b:x?} is {}", x.covers(&y));
    let i = x.inter(&y).map(|s| bounds(&s));
    ensure!(i == inter(a, b), "inter of {a:x?} and {b:x?} is {i:x?}");
    let u = x.union(&y).map(|s| bounds(&s));
    ensure!(u == union(a, b), "union of {a:x?} and {b:x?} is {u:x?}");
    c.count(if u.is_some() { "unions" } else { "no_union" }, 1);
    let o = if a == b {
        Some(Ordering::Equal)
    } else if a.1 < b.0 {
        Some(Ordering::Less)
    } else if b.1 < a.0 {
        Some(Ordering::Greater)
    } else {
        None
    };
    let g = x.partial_cmp(&y);
    ensure!(g == o, "partial_cmp of {a:x?} and {b:x?} is {g:?}");
    ensure!((x < y) == (o == Some(Ordering::Less)), "{a:x?} < {b:x?}");
    ensure!((x > y) == (o == Some(Ordering::Greater)), "{a:x?} > {b:x?}");
    ensure!((x <= y) == o.is_some_and(|o| o.is_le()), "{a:x?} <= {b:x?}");
    ensure!((x >= y) == o.is_some_and(|o| o.is_ge()), "{a:x?} >= {b:x?}");
    ensure!((x == y) == (a == b), "{a:x?} == {b:x?}");
    c.count("calls", 9);
    Ok(())
}

fn check_list(c: &mut Ctx, v: &[Iv]) -> R {
    let s: Vec<CharSet> = v.iter().map(|&x| mk(x)).collect();
    let mut want = Some((0, MAXC));
    for &x in v {
        want = want.and_then(|w| inter(w, x));
    }
    let got = CharSet::inter_list(&s).map(|s| bounds(&s));
    c.count("calls", 1);
    c.count(if want.is_some() { "list_some" } else { "list_none" }, 1);
    ensure!(got == want, "inter_list of {v:x?} is {got:x?}, expected {want:x?}");
    Ok(())
}

fn coords(n: usize) -> Vec<u32> {
    let all = [
        0, 1, MAXC, MAXC - 1, 2, MAXC - 2, 0xFFFF, 0x10000, 97, 98, 3, MAXC - 3, 0x7F, 0x80, 0x1FFFF, 0x20000, 0xD7FF, 0xD800, 0xFFFD, 99,
        4, MAXC - 4, 255, 256, 0xE000, 0xDFFF, 100, 5, MAXC - 5, 0x10FFF, 0x8000, 0x7FFF,
    ];
    let mut v = all[..n].to_vec();
    v.sort_unstable();
    v
}

fn intervals(n: usize) -> Vec<Iv> {
    let p = coords(n);
    let mut v = vec![];
    for i in 0..n {
        for j in i..n {
            v.push((p[i], p[j]));
        }
    }
    v
}

fn pairs(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    let n = if c.tier == Tier::Quick { 20 } else { 32 };
    let v = intervals(n);
    let a = v[idx as usize];
    check_one(c, a)?;
    for p in coords(n) {
        for q in [p.wrapping_sub(1), p, p + 1] {
            if q <= MAXC {
                check_point(c, a, q)?;
            }
        }
    }
    for &b in &v {
        check_pair(c, a, b)?;
        check_list(c, &[a, b])?;
        c.evals += 1;
        c.enumerated += 1;
    }
    check_list(c, &[])?;
    check_list(c, &[a])?;
    c.sample(|| format!("{a:x?}"));
    Ok(())
}

fn lists(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    let v = intervals(if c.tier == Tier::Quick { 9 } else { 14 });
    let a = v[idx as usize];
    for &b in &v {
        for &d in &v {
            check_list(c, &[a, b, d])?;
            c.evals += 1;
            c.enumerated += 1;
            if inter(a, b).is_some() && c.tier == Tier::Quick {
                for &e in &v {
                    check_list(c, &[a, b, d, e])?;
                }
            }
        }
    }
    Ok(())
}

fn rand_point(r: &mut Rng) -> u32 {
    match r.below(5) {
        0 => r.below(8) as u32,
        1 => MAXC - r.below(8) as u32,
        2 => 97 + r.below(6) as u32,
        3 => (1u32 << r.below(18)).wrapping_add(r.below(3) as u32).wrapping_sub(1).min(MAXC),
        _ => r.below(MAXC as u64 + 1) as u32,
    }
}

fn rand_iv(r: &mut Rng) -> Iv {
    let (a, b) = (rand_point(r), rand_point(r));
    (a.min(b), a.max(b))
}

/// an interval likely to touch a
fn near(a: Iv, r: &mut Rng) -> Iv {
    let pts = [a.0, a.1, a.0.saturating_sub(1), (a.1 + 1).min(MAXC), a.0.saturating_sub(2), (a.1 + 2).min(MAXC), rand_point(r)];
    let (x, y) = (*r.pick(&pts), *r.pick(&pts));
    (x.min(y), x.max(y))
}

fn random(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let a = rand_iv(r);
    let b = if r.chance(3, 4) { near(a, r) } else { rand_iv(r) };
    let mut h = H::new();
    h.u((a.0 as u64) << 32 | a.1 as u64).u((b.0 as u64) << 32 | b.1 as u64);
    c.case(h.0);
    c.sample(|| format!("{a:x?} {b:x?}"));
    check_one(c, a)?;
    check_pair(c, a, b)?;
    check_pair(c, b, a)?;
    for p in [b.0, b.1, a.0, a.1] {
        check_point(c, a, p)?;
    }
    check_point(c, a, rand_point(r))
}

fn random_lists(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let n = r.us(9);
    let mut v: Vec<Iv> = vec![];
    let base = rand_iv(r);
    for _ in 0..n {
        v.push(match r.below(4) {
            0 => near(base, r),
            1 => (base.0.saturating_sub(r.below(50) as u32), (base.1 + r.below(50) as u32).min(MAXC)),
            2 => (0, MAXC),
            _ => {
                let p = r.range(base.0 as u64, base.1 as u64) as u32;
                (r.below(p as u64 + 1) as u32, r.range(p as u64, MAXC as u64) as u32)
            }
        });
    }
    let mut h = H::new();
    v.iter().for_each(|x| {
        h.u((x.0 as u64) << 32 | x.1 as u64);
    });
    c.case(h.0);
    check_list(c, &v)
}

/// membership of every character of the alphabet
fn sweep(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let a = rand_iv(r);
    let x = mk(a);
    let mut inside = 0u64;
    for p in 0..=MAXC {
        ensure!(x.contains(p) == (a.0 <= p && p <= a.1), "{a:x?} contains {p:#x}");
        ensure!(x.is_before(p) as u8 + x.is_after(p) as u8 + x.contains(p) as u8 == 1, "{a:x?} and {p:#x}: not exactly one of before, after, contains");
        ensure!(x.covers(&CharSet::singleton(p)) == x.contains(p), "{a:x?} covers {{{p:#x}}}");
        inside += x.contains(p) as u64;
    }
    ensure!(inside == x.size() as u64, "{a:x?}: size {} but {inside} characters", x.size());
    c.count("calls", 5 * (MAXC as u64 + 1));
    let mut h = H::new();
    h.u((a.0 as u64) << 32 | a.1 as u64);
    c.case(h.0);
    Ok(())
}
