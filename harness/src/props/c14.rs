//! C14: remove_unreachable_states, combined_char_partition, pick_alphabet, compile_successors, edges,
//! final_states and the counts agree with `next`.

use crate::ctx::*;
use crate::dfa::*;
use crate::ensure;
use crate::props::autos::*;
use crate::rng::*;
use crate::walk::*;
use crate::Family;
use std::collections::HashSet;
use aws_smt_strings::automata::Automaton;
use aws_smt_strings::character_sets::ClassId;

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "small", quick: 60_000, thorough: 20_000_000, enumerated: false, run: small },
        Family { name: "medium", quick: 20_000, thorough: 4_000_000, enumerated: false, run: medium },
        Family { name: "dense-table", quick: 6_000, thorough: 1_000_000, enumerated: false, run: dense },
        Family { name: "large", quick: 300, thorough: 60_000, enumerated: false, run: large },
        Family { name: "wide", quick: 20, thorough: 4_000, enumerated: false, run: wide },
        Family { name: "giant-wide", quick: 8, thorough: 400, enumerated: false, run: huge_wide },
        Family { name: "giant", quick: 8, thorough: 400, enumerated: false, run: huge },
    ]
}

/// all the views of the transition structure
fn check_views(c: &mut Ctx, a: &Automaton, al: &Alpha, d: &Dfa) -> R {
    let n = d.n();
    ensure!(a.num_states() == n, "num_states");
    check_finals(a, d)?;
    let fin: Vec<usize> = a.final_states().map(|s| s.id()).collect();
    let want: Vec<usize> = (0..n).filter(|&i| d.fin[i]).collect();
    let mut sorted = fin.clone();
    sorted.sort_unstable();
    ensure!(sorted == want, "final_states yields {fin:?}, the final states are {want:?}");
    for f in a.final_states() {
        ensure!(f.is_final(), "final_states yields s{} which is not final", f.id());
    }
    // edges: one per character class of the state, all characters covered
    for s in a.states() {
        let rs = all_bounds(s.char_ranges());
        let mut want: Vec<Option<usize>> = vec![None; al.k()];
        let mut seen = HashSet::new();
        let mut covered = vec![false; al.k()];
        for &(x, y) in &rs {
            covered[al.atom(x)..=al.atom(y)].fill(true);
        }
        for (cid, t) in a.edges(s) {
            ensure!(
                seen.insert(match cid {
                    ClassId::Interval(j) => j,
                    ClassId::Complement => usize::MAX,
                }),
                "edges of s{} yields class {cid} twice",
                s.id()
            );
            match cid {
                ClassId::Interval(j) => {
                    ensure!(j < rs.len(), "edges of s{} yields class {cid}; there are {} intervals", s.id(), rs.len());
                    for i in al.atom(rs[j].0)..=al.atom(rs[j].1) {
                        want[i] = Some(t.id());
                    }
                }
                ClassId::Complement => {
                    for i in 0..al.k() {
                        if !covered[i] {
                            want[i] = Some(t.id());
                        }
                    }
                }
            }
            c.count("edges", 1);
        }
        for i in 0..al.k() {
            let t = d.step(s.id() as u32, i) as usize;
            ensure!(want[i] == Some(t), "state s{}, character {:#x}: edges gives {:?}, next gives s{t}", s.id(), al.starts[i], want[i]);
        }
    }
    // combined partition
    let p = a.combined_char_partition();
    let rs: Vec<(u32, u32)> = all_bounds(p.ranges());
    let al2 = Alpha::new([al.starts.clone(), rs.iter().flat_map(|&(x, y)| [x, y + 1]).collect()].concat());
    let sorted = rs.windows(2).all(|w| w[0].1 < w[1].0);
    let class = |ch: u32| {
        if sorted {
            let j = rs.partition_point(|&(_, h)| h < ch);
            (j < rs.len() && rs[j].0 <= ch).then_some(j)
        } else {
            rs.iter().position(|&(l, h)| l <= ch && ch <= h)
        }
    };
    let mut rep: Vec<Option<u32>> = vec![None; rs.len() + 1];
    for i in 0..al2.k() {
        let ch = al2.starts[i];
        let k = class(ch).unwrap_or(rs.len());
        match rep[k] {
            None => rep[k] = Some(ch),
            Some(r0) => {
                for q in 0..n as u32 {
                    ensure!(
                        d.step(q, al.atom(r0)) == d.step(q, al.atom(ch)),
                        "combined partition puts {r0:#x} and {ch:#x} in one class but their successors in s{q} differ"
                    );
                }
            }
        }
    }
    let nonempty = rep.iter().flatten().count();
    ensure!(p.num_classes() == nonempty, "combined partition: num_classes = {}, {nonempty} non-empty classes", p.num_classes());
    let alphabet = a.pick_alphabet();
    c.count("alphabet_letters", alphabet.len() as u64);
    c.max("alphabet", alphabet.len() as u64);
    ensure!(alphabet.len() == nonempty, "pick_alphabet gives {} characters for {nonempty} classes", alphabet.len());
    let mut hit = vec![false; rs.len() + 1];
    for &ch in &alphabet {
        ensure!(ch <= MAXC, "pick_alphabet gives {ch:#x}");
        let k = class(ch).unwrap_or(rs.len());
        ensure!(!hit[k], "pick_alphabet gives two characters of the same class");
        hit[k] = true;
    }
    // compiled table
    let t = a.compile_successors();
    for s in a.states() {
        for (i, &ch) in alphabet.iter().enumerate() {
            let want = d.step(s.id() as u32, al.atom(ch));
            let got = t.eval(s.id() as u32, i as u32);
            ensure!(got == want, "compiled successor of s{} for letter {i} ({ch:#x}) is {got}, next gives s{want}", s.id());
            ensure!(a.next(s, ch).id() as u32 == want, "harness: next is not stable");
        }
    }
    c.count("table_cells", (n * alphabet.len()) as u64);
    Ok(())
}

/// The life of an automaton: views, then pruning and minimization in any order and number; all the
/// views are compared with `next` after each step.
fn check_auto14(c: &mut Ctx, a: &mut Automaton, r: &mut Rng) -> R {
    let (al, d, _) = observe(a, &Alpha::new(vec![]))?;
    c.max("states", d.n() as u64);
    check_views(c, a, &al, &d)?;
    let steps = *r.pick(&[1, 1, 1, 2, 2, 3, 4]);
    let mut hist = String::new();
    let mut first_min = r.chance(1, 3);
    for _ in 0..steps {
        if first_min || (!hist.is_empty() && r.chance(1, 2)) {
            first_min = false;
            a.minimize();
            hist.push_str(" minimize");
            let (al2, e, _) = observe(a, &al)?;
            check_views(c, a, &al2, &e).map_err(|e| format!("after{hist}: {e}"))?;
            c.count("after_minimize", 1);
        } else {
            check_prune(c, a, &al).map_err(|e| format!("after{hist} remove_unreachable_states: {e}"))?;
            hist.push_str(" remove_unreachable_states");
        }
    }
    // a life always ends with pruning
    if hist.ends_with("minimize") {
        check_prune(c, a, &al).map_err(|e| format!("after{hist} remove_unreachable_states: {e}"))?;
        c.count("pruned_after_minimize", 1);
    }
    Ok(())
}

fn check_prune(c: &mut Ctx, a: &mut Automaton, al0: &Alpha) -> R {
    let (al, d, init) = observe(a, al0)?;
    let reach = reachable(&d, init);
    let m = reach.iter().filter(|&&x| x).count();
    c.count(if m < d.n() { "with_unreachable_states" } else { "all_reachable" }, 1);
    a.remove_unreachable_states();
    ensure!(a.num_states() == m, "remove_unreachable_states: {} states left, {m} are reachable", a.num_states());
    let (al2, e, init2) = observe(a, &al)?;
    // the reachable parts must be isomorphic
    let mut map: Vec<Option<u32>> = vec![None; d.n()];
    let mut back: Vec<Option<u32>> = vec![None; e.n()];
    let mut st = vec![(init, init2)];
    map[init as usize] = Some(init2);
    back[init2 as usize] = Some(init);
    while let Some((q, p)) = st.pop() {
        ensure!(d.fin[q as usize] == e.fin[p as usize], "remove_unreachable_states: finality of s{q} changed");
        for i in 0..al2.k() {
            let (t, u) = (d.step(q, al.atom(al2.starts[i])), e.step(p, i));
            match (map[t as usize], back[u as usize]) {
                (None, None) => {
                    map[t as usize] = Some(u);
                    back[u as usize] = Some(t);
                    st.push((t, u));
                }
                (Some(x), Some(y)) if x == u && y == t => {}
                _ => {
                    return Err(format!(
                        "remove_unreachable_states: the successor of s{q} for {:#x} was s{t}, now state s{p} (formerly s{q}) goes to s{u}",
                        al2.starts[i]
                    ))
                }
            }
        }
    }
    check_views(c, a, &al2, &e)
}

fn go(c: &mut Ctx, r: &mut Rng, n: usize, k: usize) -> R {
    if let Some((mut a, s)) = any_automaton(c, n, k, r)? {
        check_auto14(c, &mut a, r).map_err(|e| format!("{s}: {e}"))?;
        c.sample(|| s);
    }
    Ok(())
}

fn small(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go(c, r, 6, 4)
}
fn medium(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go(c, r, 30, 12)
}
fn large(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go(c, r, 250, 40)
}

// tables in which the rows collide in varied patterns
fn dense(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let n = r.range(2, 40) as usize;
    let k = r.range(2, 24) as usize;
    let al = rand_alpha(k, r);
    let k = al.k();
    let density = r.range(1, 10);
    let mut d = rand_dfa(n, k, r);
    for q in 0..n {
        let home = r.us(n) as u32;
        let lo = r.us(k);
        let hi = r.range(lo as u64, k as u64 - 1) as usize;
        for i in 0..k {
            d.delta[q * k + i] = if r.chance(density, 10) || (i >= lo && i <= hi && r.chance(1, 2)) { r.us(n) as u32 } else { home };
        }
    }
    let init = r.us(n) as u32;
    let s = spec_of(&d, init, &al, r);
    c.case(s.hash());
    let Ok(mut a) = s.build() else {
        c.count("build_rejected", 1);
        return Ok(());
    };
    check_auto14(c, &mut a, r).map_err(|e| format!("{}: {e}", s.show()))
}

// few states, hundreds to tens of thousands of classes
fn wide(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_wide(c, false, r)
}
fn huge_wide(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_wide(c, true, r)
}

fn go_wide(c: &mut Ctx, huge: bool, r: &mut Rng) -> R {
    let n = r.range(1, 8) as usize;
    let k = if huge { r.range(65_000, 70_000) } else { r.range(250, 3_000) } as usize;
    let (d, al) = wide_dfa(n, k, r);
    let init = r.us(n) as u32;
    let s = spec_of(&d, init, &al, r);
    c.case(s.hash());
    let Ok(mut a) = s.build() else {
        c.count("build_rejected", 1);
        return Ok(());
    };
    check_auto14(c, &mut a, r).map_err(|e| format!("{n} states, {k} letters: {e}"))
}

// more than 2^16 states
fn huge(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let (mut d, al, init) = huge_dfa(i, 4, r);
    // mostly uniform rows: compile_successors takes quadratic time in the number of table entries
    let k = d.k;
    for q in 0..d.n() {
        if !r.chance(1, 100) {
            let t = d.delta[q * k];
            d.delta[q * k..(q + 1) * k].fill(t);
        }
    }
    let mut s = spec_of(&d, init, &al, r);
    let only_default: Vec<bool> = (0..d.n()).map(|q| d.delta[q * k..(q + 1) * k].iter().all(|&t| t == d.delta[q * k]) && !r.chance(1, 20)).collect();
    s.ops.retain(|o| match o {
        BOp::Final(_) => true,
        BOp::Default(q, _) | BOp::Trans(q, _, _) => !only_default[*q as usize],
    });
    s.ops.extend((0..d.n()).filter(|&q| only_default[q]).map(|q| BOp::Default(q as u32, d.delta[q * k])));
    c.case(s.hash());
    let Ok(mut a) = s.build() else {
        c.count("build_rejected", 1);
        return Ok(());
    };
    check_auto14(c, &mut a, r).map_err(|e| format!("{} states: {e}", d.n()))
}
