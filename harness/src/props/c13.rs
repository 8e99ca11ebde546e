//! C13: AutomatonBuilder::build accepts exactly the complete deterministic specifications and the
//! automaton returned has the initial state, final states and successors the caller gave.

use crate::ctx::*;
use crate::dfa::*;
use crate::ensure;
use crate::props::autos::*;
use crate::rng::*;
use crate::walk::*;
use crate::Family;
use aws_smt_strings::automata::{Automaton, AutomatonBuilder};

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "one-state-all", quick: ALL_BLOCKS, thorough: ALL_BLOCKS, enumerated: true, run: one_state },
        Family { name: "random", quick: 200_000, thorough: 40_000_000, enumerated: false, run: random },
        Family { name: "complete", quick: 60_000, thorough: 10_000_000, enumerated: false, run: complete },
        Family { name: "skewed", quick: 30_000, thorough: 5_000_000, enumerated: false, run: skewed },
        Family { name: "incremental", quick: 40_000, thorough: 10_000_000, enumerated: false, run: incremental },
        Family { name: "large", quick: 1_000, thorough: 200_000, enumerated: false, run: large },
        Family { name: "label-types", quick: 20_000, thorough: 4_000_000, enumerated: false, run: label_types },
        Family { name: "wide", quick: 10, thorough: 4_000, enumerated: false, run: wide },
        Family { name: "giant-wide", quick: 10, thorough: 400, enumerated: false, run: huge_wide },
        Family { name: "giant", quick: 10, thorough: 200, enumerated: false, run: huge },
    ]
}

/// Does the automaton have exactly the structure of d (state 0 initial)?
fn check_structure(c: &mut Ctx, a: &Automaton, d: &Dfa, al: &Alpha) -> R {
    let n = d.n();
    ensure!(a.num_states() == n, "{} states, {n} were specified", a.num_states());
    let mut map: Vec<Option<usize>> = vec![None; n];
    let mut order = vec![0u32];
    map[0] = Some(a.initial_state().id());
    let mut i = 0;
    let al2 = Alpha::new([auto_cuts(a), al.starts.clone()].concat());
    while i < order.len() {
        let q = order[i];
        i += 1;
        let s = a.state(map[q as usize].unwrap());
        ensure!(
            s.is_final() == d.fin[q as usize],
            "specified state #{q} is {}marked final, the automaton says {}",
            if d.fin[q as usize] { "" } else { "not " },
            s.is_final()
        );
        for x in 0..al2.k() {
            for ch in [al2.starts[x], al2.end(x)] {
                let t = d.step(q, al.atom(ch));
                let u = a.next(s, ch).id();
                c.count("next_checked", 1);
                match map[t as usize] {
                    None => {
                        map[t as usize] = Some(u);
                        order.push(t);
                    }
                    Some(v) => ensure!(
                        u == v,
                        "successor of specified state #{q} for {ch:#x} should be #{t} (automaton state s{v}) but next gives s{u}"
                    ),
                }
            }
        }
    }
    let mut used: Vec<usize> = map.iter().flatten().copied().collect();
    used.sort_unstable();
    let m = used.len();
    used.dedup();
    ensure!(used.len() == m, "two specified states became one state of the automaton");
    // unreachable part: same multiset of residual languages
    if m < n {
        c.count("specs_with_unreachable_states", 1);
        let e = extract(a, &al2)?;
        let mut both = Dfa { k: al2.k(), delta: vec![], fin: [d.fin.clone(), e.fin.clone()].concat() };
        for q in 0..n {
            for x in 0..al2.k() {
                both.delta.push(d.step(q as u32, al.atom(al2.starts[x])));
            }
        }
        both.delta.extend(e.delta.iter().map(|&t| t + n as u32));
        let (cls, k) = both.moore();
        let mut bal = vec![0i64; k];
        for (i, &x) in cls.iter().enumerate() {
            bal[x as usize] += if i < n { 1 } else { -1 };
        }
        ensure!(bal.iter().all(|&x| x == 0), "the states that are not reachable don't behave as specified");
    }
    let f = d.fin.iter().filter(|&&x| x).count();
    ensure!(a.num_final_states() == f, "num_final_states = {}, {f} states were marked final", a.num_final_states());
    Ok(())
}

fn judge(c: &mut Ctx, s: &Spec, got: Result<Automaton, aws_smt_strings::errors::Error>) -> R {
    let al = s.alpha();
    let (v, d) = s.reference(&al);
    c.count(
        match v {
            Verdict::Accept => "specs_valid",
            Verdict::Either => "specs_with_redundant_default",
            Verdict::Conflict => "specs_conflicting",
            Verdict::Incomplete => "specs_incomplete",
        },
        1,
    );
    match (v, got) {
        (Verdict::Conflict, Ok(_)) => Err("build accepts a specification with conflicting transitions".into()),
        (Verdict::Incomplete, Ok(_)) => Err("build accepts a specification that leaves characters without successor".into()),
        (Verdict::Accept, Err(e)) => Err(format!("build rejects a complete and conflict-free specification ({e})")),
        (Verdict::Accept | Verdict::Either, Ok(a)) => {
            c.count("automata_checked", 1);
            check_structure(c, &a, &d.unwrap(), &al)
        }
        (_, Err(_)) => {
            c.count("rejections", 1);
            Ok(())
        }
    }
}

// All specifications of one state's transitions: up to three labels over a 4-atom alphabet
// (10 intervals), three targets, default none/0/1/2; in two layouts of the alphabet.
const ALL: u64 = 2 * 4 * 31 * 31 * 31;
const ALL_BLOCK: u64 = 1024;
const ALL_BLOCKS: u64 = ALL.div_ceil(ALL_BLOCK);

fn one_state(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    for x in idx * ALL_BLOCK..((idx + 1) * ALL_BLOCK).min(ALL) {
        let mut y = x;
        let layout: [u32; 5] = if y % 2 == 0 { [0, 97, 98, 200, MAXC + 1] } else { [0, 1, 2, MAXC, MAXC + 1] };
        y /= 2;
        let dflt = y % 4;
        y /= 4;
        let mut ops = vec![];
        // other states are complete
        for q in 1..3 {
            ops.push(BOp::Default(q, q));
        }
        ops.push(BOp::Final(2));
        for _ in 0..3 {
            let l = y % 31;
            y /= 31;
            if l == 30 {
                continue;
            }
            let (mut iv, t) = ((l % 10) as usize, (l / 10) as u32);
            let mut a = 0;
            while iv >= 4 - a {
                iv -= 4 - a;
                a += 1;
            }
            ops.push(BOp::Trans(0, (layout[a], layout[a + iv + 1] - 1), t));
        }
        if dflt > 0 {
            ops.push(BOp::Default(0, dflt as u32 - 1));
        }
        let s = Spec { init: 0, ops };
        c.evals += 1;
        c.enumerated += 1;
        judge(c, &s, s.build()).map_err(|e| format!("{}: {e}", s.show()))?;
    }
    Ok(())
}

/// any call sequence
fn rand_spec(r: &mut Rng, maxn: u64) -> Spec {
    let n = r.range(1, maxn) as u32;
    let mut pts: Vec<u32> = match r.below(4) {
        0 => vec![0, 97, 98, 99, 100],
        1 => vec![0, 1, 2, 3, MAXC],
        2 => vec![0, MAXC - 2, MAXC - 1, MAXC],
        _ => {
            let mut v = vec![0];
            for _ in 0..r.range(1, 6) {
                v.push(r.range(1, MAXC as u64) as u32);
            }
            v
        }
    };
    pts.sort_unstable();
    pts.dedup();
    let al = Alpha::new(pts);
    let k = al.k();
    let mut ops = vec![];
    // most states follow a plan so that complete specifications are frequent
    for q in 0..n {
        let plan = r.below(10);
        if plan == 0 {
            continue;
        }
        if plan <= 3 || plan >= 7 {
            let mut i = 0;
            while i < k {
                let j = r.range(i as u64, k as u64 - 1) as usize;
                let t = r.below(n as u64) as u32;
                if !(plan == 9 && r.chance(1, 4)) {
                    ops.push(BOp::Trans(q, (al.starts[i], al.end(j)), t));
                    if r.chance(1, 8) {
                        // overlap, often with the same target
                        let t2 = if r.chance(2, 3) { t } else { r.below(n as u64) as u32 };
                        let i2 = r.us(k);
                        let j2 = r.range(i2 as u64, k as u64 - 1) as usize;
                        if t2 != t || (i2 <= j && i <= j2 && r.chance(1, 2)) {
                            ops.push(BOp::Trans(q, (al.starts[i2.min(j)], al.end(j.min(j2.max(i2.min(j))))), t2));
                        } else {
                            ops.push(BOp::Trans(q, (al.starts[i], al.end(i)), t2));
                        }
                    }
                }
                i = j + 1;
            }
            if plan <= 3 && r.chance(1, 2) && !ops.is_empty() {
                // drop one label and add a default
                let l = r.us(ops.len());
                ops.remove(l);
                ops.push(BOp::Default(q, r.below(n as u64) as u32));
            }
        } else {
            ops.push(BOp::Default(q, r.below(n as u64) as u32));
            for _ in 0..r.below(3) {
                let i = r.us(k);
                let j = r.range(i as u64, k as u64 - 1) as usize;
                ops.push(BOp::Trans(q, (al.starts[i], al.end(j)), r.below(n as u64) as u32));
            }
        }
        if r.chance(1, 3) {
            ops.push(BOp::Final(q));
        }
        if r.chance(1, 25) {
            ops.push(BOp::Final(q));
            ops.push(BOp::Default(q, r.below(n as u64 + 1) as u32));
        }
    }
    // duplicates and order
    if r.chance(1, 8) && !ops.is_empty() {
        let x = r.pick(&ops).clone();
        ops.push(x);
    }
    if r.chance(1, 2) {
        r.shuffle(&mut ops);
    }
    Spec { init: r.below(n as u64) as u32, ops }
}

fn random(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let s = rand_spec(r, 4);
    c.case(s.hash());
    judge(c, &s, s.build()).map_err(|e| format!("{}: {e}", s.show()))?;
    c.sample(|| s.show());
    Ok(())
}

fn complete_spec(n: usize, k: usize, r: &mut Rng) -> Spec {
    let al = rand_alpha(k, r);
    let d = shaped(n, al.k(), r);
    let init = r.us(d.n()) as u32;
    spec_of(&d, init, &al, r)
}

fn complete(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let n = r.range(1, 12) as usize;
    let k = r.range(1, 7) as usize;
    let mut s = complete_spec(n, k, r);
    match r.below(4) {
        // one call missing
        0 if !s.ops.is_empty() => {
            let i = r.us(s.ops.len());
            s.ops.remove(i);
            c.count("mutated", 1);
        }
        // one target changed on part of a label
        1 if !s.ops.is_empty() => {
            let i = r.us(s.ops.len());
            if let BOp::Trans(q, (a, b), _) = s.ops[i] {
                let x = r.range(a as u64, b as u64) as u32;
                s.ops.push(BOp::Trans(q, (x, x), r.below(n as u64) as u32));
                c.count("mutated", 1);
            }
        }
        _ => {}
    }
    c.case(s.hash());
    judge(c, &s, s.build()).map_err(|e| format!("{}: {e}", s.show()))
}

// tens of labels per state, most of them to one successor
fn skewed(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let maxk = *r.pick(&[4, 20, 20, 80]);
    let mut s = skewed_spec(5, maxk, r);
    match r.below(6) {
        0 if !s.ops.is_empty() => {
            let i = r.us(s.ops.len());
            s.ops.remove(i);
            c.count("mutated", 1);
        }
        1 if !s.ops.is_empty() => {
            let i = r.us(s.ops.len());
            if let BOp::Trans(q, (a, b), _) = s.ops[i] {
                let x = *r.pick(&[a, b, a / 2 + b / 2]);
                s.ops.push(BOp::Trans(q, (x, x), r.below(5) as u32));
                c.count("mutated", 1);
            }
        }
        2 => {
            let q = r.below(5) as u32;
            s.ops.push(BOp::Default(q, r.below(5) as u32));
            c.count("mutated", 1);
        }
        _ => {}
    }
    c.case(s.hash());
    judge(c, &s, s.build()).map_err(|e| format!("{}: {e}", s.show()))?;
    c.sample(|| s.show());
    Ok(())
}

// build in the middle of the call sequence, and several times; String labels
fn incremental(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let s = if r.chance(1, 2) { rand_spec(r, 4) } else { complete_spec(r.range(1, 6) as usize, r.range(1, 4) as usize, r) };
    c.case(s.hash());
    let lbl = |q: u32| format!("state-{q}");
    let mut b = AutomatonBuilder::new(&lbl(s.init));
    let mut at = 0;
    let len = s.ops.len();
    while at < len {
        let to = r.range(at as u64 + 1, len as u64) as usize;
        s.feed(&mut b, at, to, &lbl);
        at = to;
        let prefix = Spec { init: s.init, ops: s.ops[..at].to_vec() };
        for _ in 0..r.range(1, 2) {
            c.count("builds", 1);
            judge(c, &prefix, b.build()).map_err(|e| format!("builds interleaved with calls; so far {}: {e}", prefix.show()))?;
        }
    }
    Ok(())
}

fn large(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let n = r.range(20, 150) as usize;
    let k = r.range(2, 30) as usize;
    let s = complete_spec(n, k, r);
    c.case(s.hash());
    judge(c, &s, s.build()).map_err(|e| format!("{}: {e}", s.show()))
}

/// labels whose hashes all collide
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct SameHash(u32);
impl std::hash::Hash for SameHash {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_u64(0);
    }
}
/// labels hashed on part of their identity
#[derive(Clone, PartialEq, Eq, Debug)]
struct Partial(u32, u32);
impl std::hash::Hash for Partial {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_u32(self.0);
    }
}
/// labels with an identity coarser than their fields
#[derive(Clone, Debug)]
struct Coarse(u32, u32);
impl PartialEq for Coarse {
    fn eq(&self, o: &Coarse) -> bool {
        self.0 == o.0
    }
}
impl Eq for Coarse {}
impl std::hash::Hash for Coarse {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h);
    }
}

/// The caller's state type: only == and the Hash contract may matter
fn label_types(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    fn go<T: Eq + std::hash::Hash + Clone>(s: &Spec, lbl: &dyn Fn(u32) -> T) -> Result<Automaton, aws_smt_strings::errors::Error> {
        let mut b = AutomatonBuilder::new(&lbl(s.init));
        s.feed(&mut b, 0, s.ops.len(), lbl);
        b.build()
    }
    let s = if r.chance(1, 3) { rand_spec(r, 5) } else { complete_spec(r.range(1, 9) as usize, r.range(1, 5) as usize, r) };
    c.case(s.hash());
    let flip = std::cell::Cell::new(0u32);
    let (name, a) = match i % 7 {
        0 => ("colliding hashes", go(&s, &SameHash)),
        1 => ("partial hashes", go(&s, &|q| Partial(q / 3, q))),
        2 => (
            "coarse equality",
            go(&s, &|q| {
                flip.set(flip.get() + 1);
                Coarse(q, flip.get())
            }),
        ),
        3 => ("strings", go(&s, &|q| "x".repeat(q as usize))),
        4 => ("u64 with equal low words", go(&s, &|q| (q as u64) << 32)),
        5 => ("u128 with equal low words", go(&s, &|q| (q as u128) << 64)),
        _ => ("vectors", go(&s, &|q| vec![q % 2, q / 2 % 2, q / 4])),
    };
    c.count(&format!("labels: {name}"), 1);
    judge(c, &s, a).map_err(|e| format!("state labels with {name}: {}: {e}", s.show()))
}

// few states, hundreds to tens of thousands of labels
fn wide(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_wide(c, false, r)
}
fn huge_wide(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_wide(c, true, r)
}

fn go_wide(c: &mut Ctx, huge: bool, r: &mut Rng) -> R {
    let n = r.range(1, 6) as usize;
    let k = if huge { r.range(65_000, 70_000) } else { r.range(250, 3_000) } as usize;
    let (d, al) = wide_dfa(n, k, r);
    let init = r.us(n) as u32;
    let mut s = spec_of(&d, init, &al, r);
    match r.below(3) {
        0 => {
            let x = r.us(s.ops.len());
            s.ops.remove(x);
        }
        1 => {
            let x = r.us(s.ops.len());
            if let BOp::Trans(q, (a, b), _) = s.ops[x] {
                let y = r.range(a as u64, b as u64) as u32;
                s.ops.push(BOp::Trans(q, (y, y), r.below(n as u64) as u32));
            }
        }
        _ => {}
    }
    c.case(s.hash());
    judge(c, &s, s.build()).map_err(|e| format!("{n} states, {k} letters: {e}"))
}

// more than 2^16 states
fn huge(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let (d, al, init) = huge_dfa(i + 2 * (i % 2), 3, r);
    let mut s = spec_of(&d, init, &al, r);
    if r.chance(1, 3) {
        let x = r.us(s.ops.len());
        s.ops.remove(x);
    }
    c.case(s.hash());
    judge(c, &s, s.build()).map_err(|e| format!("{} states: {e}", d.n()))
}
