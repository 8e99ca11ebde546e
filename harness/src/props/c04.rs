//! C04: minimize preserves the language, leaves no two equivalent states, and gives the
//! Myhill-Nerode index when all states are reachable.

use crate::ctx::*;
use crate::dfa::*;
use crate::ensure;
use crate::props::autos::*;
use crate::rng::*;
use crate::rx::*;
use crate::Family;
use aws_smt_strings::automata::{Automaton, AutomatonBuilder};
use aws_smt_strings::character_sets::CharSet;

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "all-3x2", quick: blocks(3, 2), thorough: blocks(3, 2), enumerated: true, run: all32 },
        Family { name: "all-4x1", quick: blocks(4, 1), thorough: blocks(4, 1), enumerated: true, run: all41 },
        Family { name: "all-3x3", quick: blocks(3, 3), thorough: blocks(3, 3), enumerated: true, run: all33 },
        Family { name: "all-5x1", quick: blocks(5, 1), thorough: blocks(5, 1), enumerated: true, run: all51 },
        Family { name: "all-4x2", quick: blocks(4, 2), thorough: blocks(4, 2), enumerated: true, run: all42 },
        Family { name: "all-6x1", quick: 0, thorough: blocks(6, 1), enumerated: true, run: all61 },
        Family { name: "random", quick: 60_000, thorough: 20_000_000, enumerated: false, run: random },
        Family { name: "small-random", quick: 60_000, thorough: 20_000_000, enumerated: false, run: small_random },
        Family { name: "compiled", quick: 20_000, thorough: 4_000_000, enumerated: false, run: compiled },
        Family { name: "skewed", quick: 20_000, thorough: 3_000_000, enumerated: false, run: skewed },
        Family { name: "large", quick: 1_500, thorough: 100_000, enumerated: false, run: large },
        Family { name: "wide", quick: 20, thorough: 4_000, enumerated: false, run: wide },
        Family { name: "giant-wide", quick: 8, thorough: 400, enumerated: false, run: huge_wide },
        Family { name: "giant", quick: 12, thorough: 400, enumerated: false, run: huge },
    ]
}

/// The monitor: transition structure before and after, both observed through the public API.
fn check_minimize(c: &mut Ctx, a: &mut Automaton, al0: &Alpha, r: Option<&mut Rng>) -> R {
    let (al, before, init) = observe(a, al0)?;
    a.minimize();
    let (al2, after, init2) = observe(a, &al)?;
    if al2 != al {
        // new class boundaries appeared: look at the old structure with the finer alphabet
        c.count("finer_classes", 1);
        let map: Vec<usize> = al2.starts.iter().map(|&s| al.atom(s)).collect();
        let mut f = Dfa { k: al2.k(), delta: vec![], fin: before.fin.clone() };
        for q in 0..before.n() {
            for &m in &map {
                f.delta.push(before.step(q as u32, m));
            }
        }
        return verdict(c, a, &f, init, &after, init2, &al2, r);
    }
    verdict(c, a, &before, init, &after, init2, &al, r)
}

#[allow(clippy::too_many_arguments)]
fn verdict(c: &mut Ctx, a: &mut Automaton, before: &Dfa, init: u32, after: &Dfa, init2: u32, al: &Alpha, r: Option<&mut Rng>) -> R {
    let (cls, m) = after.moore();
    if m != after.n() {
        let mut pair = (0, 0);
        'o: for i in 0..after.n() {
            for j in 0..i {
                if cls[i] == cls[j] {
                    pair = (j, i);
                    break 'o;
                }
            }
        }
        return Err(format!("after minimize, states s{} and s{} have the same residual language ({} states, {m} distinct)", pair.0, pair.1, after.n()));
    }
    let x = before.minimize(init);
    let y = after.minimize(init2);
    if x != y {
        let p = x.product(&y, usize::MAX, |p, q| p != q).unwrap();
        let w: Vec<u32> = p.shortest(0).unwrap().into_iter().map(|i| al.starts[i]).collect();
        return Err(format!("minimize changed the language: {} is {}accepted after", show_word(&w), if y.accepts(al, &w) { "" } else { "not " }));
    }
    let all = reachable(before, init).iter().all(|&b| b);
    if all {
        ensure!(after.n() == x.n(), "all {} states reachable, {} states after minimize, Myhill-Nerode index {}", before.n(), after.n(), x.n());
        c.count("all_reachable", 1);
    }
    check_finals(a, after)?;
    c.count("states_before", before.n() as u64);
    c.count("states_after", after.n() as u64);
    c.count(if after.n() < before.n() { "shrunk" } else { "already_minimal" }, 1);
    c.max("states", before.n() as u64);
    if let Some(r) = r {
        if before.n() <= 1000 && before.hopcroft() != before.moore_rounds() {
            return Err("HARNESS the two reference minimizations disagree".into());
        }
        for _ in 0..3 {
            let w = rand_word(al, 12, r);
            let want = x.accepts(al, &w);
            ensure!(a.accepts(&sstr(&w)) == want, "after minimize, accepts({}) is {}", show_word(&w), !want);
        }
        if r.chance(1, 4) {
            // minimizing again must not change anything
            a.minimize();
            let (al3, z, i3) = observe(a, al)?;
            ensure!(al3.k() != al.k() || z.minimize(i3) == x, "second minimize changed the language");
            ensure!(z.n() == after.n(), "second minimize: {} states, then {}", after.n(), z.n());
            check_finals(a, &z)?;
        }
    }
    Ok(())
}

const BLOCK: u64 = 512;
fn total(n: u64, k: u64) -> u64 {
    n.pow((n * k) as u32) << n
}
fn blocks(n: u64, k: u64) -> u64 {
    total(n, k).div_ceil(BLOCK)
}

// every automaton with n states and k letters; letters are 'a', 'b', .. (the last one is the rest of
// the alphabet, given as the default, or as an explicit label, or mixed)
fn enumerate(c: &mut Ctx, idx: u64, n: u64, k: u64) -> R {
    let al = Alpha::new((0..k as u32 - 1).map(|i| 98 + i).collect());
    for x in idx * BLOCK..((idx + 1) * BLOCK).min(total(n, k)) {
        let mut y = x;
        let fin: Vec<bool> = (0..n).map(|i| y >> i & 1 == 1).collect();
        y >>= n;
        let mut b = AutomatonBuilder::new(&0u64);
        for q in 0..n {
            let style = (x + q) % 3;
            for i in 0..k {
                let t = y % n;
                y /= n;
                if i == k - 1 && style > 0 {
                    b.set_default_successor(&q, &t);
                } else {
                    b.add_transition(&q, &CharSet::range(al.starts[i as usize], al.end(i as usize)), &t);
                }
            }
            if fin[q as usize] {
                b.mark_final(&q);
            }
        }
        c.evals += 1;
        c.enumerated += 1;
        let Ok(mut a) = b.build() else {
            c.count("build_rejected", 1);
            continue;
        };
        check_minimize(c, &mut a, &al, None).map_err(|e| format!("{n} states, {k} letters, automaton number {x}: {e}"))?;
    }
    Ok(())
}

fn all32(c: &mut Ctx, i: u64, _r: &mut Rng) -> R {
    enumerate(c, i, 3, 2)
}
fn all41(c: &mut Ctx, i: u64, _r: &mut Rng) -> R {
    enumerate(c, i, 4, 1)
}
fn all33(c: &mut Ctx, i: u64, _r: &mut Rng) -> R {
    enumerate(c, i, 3, 3)
}
fn all51(c: &mut Ctx, i: u64, _r: &mut Rng) -> R {
    enumerate(c, i, 5, 1)
}
fn all61(c: &mut Ctx, i: u64, _r: &mut Rng) -> R {
    enumerate(c, i, 6, 1)
}
fn all42(c: &mut Ctx, i: u64, _r: &mut Rng) -> R {
    enumerate(c, i, 4, 2)
}

fn run_shape(c: &mut Ctx, n: usize, k: usize, r: &mut Rng) -> R {
    let d = shaped(n, k, r);
    let al = rand_alpha(k, r);
    let map: Vec<usize> = (0..al.k()).map(|i| i.min(k - 1)).collect();
    let mut e = Dfa { k: al.k(), delta: vec![], fin: d.fin.clone() };
    for q in 0..d.n() {
        for &m in &map {
            e.delta.push(d.step(q as u32, m));
        }
    }
    let init = r.us(e.n()) as u32;
    let s = spec_of(&e, init, &al, r);
    c.case(s.hash());
    let Ok(mut a) = s.build() else {
        c.count("build_rejected", 1);
        return Ok(());
    };
    if r.chance(1, 3) {
        a.remove_unreachable_states();
        c.count("pruned_first", 1);
    }
    check_minimize(c, &mut a, &al, Some(r)).map_err(|e| format!("{}: {e}", s.show()))?;
    c.sample(|| s.show());
    Ok(())
}

fn random(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let n = r.range(1, 40) as usize;
    let k = r.range(1, 6) as usize;
    run_shape(c, n, k, r)
}

fn small_random(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let n = r.range(3, 9) as usize;
    let k = r.range(1, 4) as usize;
    run_shape(c, n, k, r)
}

// states with up to tens of labels of their own
fn skewed(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let k = *r.pick(&[4, 8, 24, 80]);
    let s = skewed_spec(8, k, r);
    c.case(s.hash());
    let Ok(mut a) = s.build() else {
        c.count("build_rejected", 1);
        return Ok(());
    };
    check_minimize(c, &mut a, &s.alpha(), Some(r)).map_err(|e| format!("{}: {e}", s.show()))
}

fn large(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let n = r.range(100, if c.tier == Tier::Thorough { 1500 } else { 900 }) as usize;
    let k = r.range(1, 5) as usize;
    run_shape(c, n, k, r)
}

fn compiled(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    use crate::props::common::*;
    use aws_smt_strings::regular_expressions::ReManager;
    let p = diverse(r);
    let mut re = ReManager::new();
    let t = p.build(&mut re);
    if derivative_count(&mut re, t[p.root()], 300).is_none() {
        c.count("deriv_capped", 1);
        return Ok(());
    }
    c.case(p.hash());
    let mut a = re.compile(t[p.root()]);
    check_minimize(c, &mut a, &p.alpha(), Some(r)).map_err(|e| format!("{}: {e}", p.show(p.root())))?;
    c.sample(|| p.show(p.root()));
    Ok(())
}

// few states, hundreds to tens of thousands of classes
fn wide(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_wide(c, false, r)
}
fn huge_wide(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_wide(c, true, r)
}

fn go_wide(c: &mut Ctx, huge: bool, r: &mut Rng) -> R {
    let n = r.range(1, 12) as usize;
    let k = if huge { r.range(65_000, 70_000) } else { r.range(250, 3_000) } as usize;
    let (d, al) = wide_dfa(n, k, r);
    let d = if r.chance(1, 2) { cloned(&d, 3, r) } else { d };
    let init = r.us(d.n()) as u32;
    let s = spec_of(&d, init, &al, r);
    c.case(s.hash());
    let Ok(mut a) = s.build() else {
        c.count("build_rejected", 1);
        return Ok(());
    };
    check_minimize(c, &mut a, &al, Some(r)).map_err(|e| format!("{n} states, {k} letters: {e}"))
}

// more than 2^16 states
fn huge(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let (d, al, init) = huge_dfa(i, if c.tier == Tier::Thorough { 2 } else { 1 }, r);
    let s = spec_of(&d, init, &al, r);
    c.case(s.hash());
    let Ok(mut a) = s.build() else {
        c.count("build_rejected", 1);
        return Ok(());
    };
    check_minimize(c, &mut a, &al, Some(r)).map_err(|e| format!("{} states: {e}", d.n()))
}
