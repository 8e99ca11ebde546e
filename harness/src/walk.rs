//! Product walks of crate objects against reference DFAs.

use crate::dfa::{Alpha, Dfa, MAXC};
use crate::rx::show_word;
use aws_smt_strings::automata::{Automaton, State};
use aws_smt_strings::character_sets::CharSet;
use aws_smt_strings::regular_expressions::{ReManager, RegLan, RE};
use std::collections::HashMap;

/// Bounds of a CharSet, observed through `contains` only (its fields are private).
pub fn bounds(s: &CharSet) -> (u32, u32) {
    let p = s.pick();
    if !s.contains(p) {
        // fall back on an exhaustive search
        let a = (0..=MAXC).find(|&x| s.contains(x)).expect("harness: empty CharSet");
        let b = (0..=MAXC).rev().find(|&x| s.contains(x)).unwrap();
        return (a, b);
    }
    if p == 0 || !s.contains(p - 1) {
        // common case
        let (mut lo, mut hi) = (p, MAXC);
        if s.contains(MAXC) {
            return (p, MAXC);
        }
        if !s.contains(p + 1) {
            return (p, p);
        }
        // contains(lo), !contains(hi)
        while lo + 1 < hi {
            let m = (lo + hi) / 2;
            if s.contains(m) {
                lo = m
            } else {
                hi = m
            }
        }
        return (p, lo);
    }
    let (mut lo, mut hi) = (0, p);
    if s.contains(0) {
        hi = 0;
    } else {
        while lo + 1 < hi {
            let m = (lo + hi) / 2;
            if s.contains(m) {
                hi = m
            } else {
                lo = m
            }
        }
    }
    let a = hi;
    let (mut lo, mut hi) = (p, MAXC);
    if s.contains(MAXC) {
        return (a, MAXC);
    }
    while lo + 1 < hi {
        let m = (lo + hi) / 2;
        if s.contains(m) {
            lo = m
        } else {
            hi = m
        }
    }
    (a, lo)
}

pub fn all_bounds<'a>(it: impl Iterator<Item = &'a CharSet>) -> Vec<(u32, u32)> {
    it.map(bounds).collect()
}

/// All characters at which something may change, on both sides of each boundary.
pub fn rep_chars(al: &Alpha, ranges: &[(u32, u32)]) -> Vec<u32> {
    let mut v = Vec::with_capacity(2 * al.k() + 4 * ranges.len());
    for i in 0..al.k() {
        v.push(al.starts[i]);
        v.push(al.end(i));
    }
    for &(a, b) in ranges {
        v.push(a);
        v.push(b);
        if a > 0 {
            v.push(a - 1);
        }
        if b < MAXC {
            v.push(b + 1);
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WalkStat {
    pub pairs: usize,
    pub steps: usize,
    pub complete: bool,
}

fn path(parent: &[(usize, u32)], mut i: usize) -> Vec<u32> {
    let mut w = vec![];
    while parent[i].0 != usize::MAX {
        w.push(parent[i].1);
        i = parent[i].0;
    }
    w.reverse();
    w
}

/// Language of the term t versus language of state q0 of d. All words are covered when the walk is
/// complete: every pair (iterated derivative, DFA state) is visited and every character class
/// boundary of both is followed.
pub fn check_term(
    re: &mut ReManager,
    t: RegLan,
    d: &Dfa,
    q0: u32,
    al: &Alpha,
    cap: usize,
) -> Result<WalkStat, String> {
    let mut seen: HashMap<(*const RE, u32), usize> = HashMap::new();
    let mut order = vec![(t, q0)];
    let mut parent = vec![(usize::MAX, 0u32)];
    seen.insert((t as *const RE, q0), 0);
    let mut i = 0;
    let mut steps = 0;
    let mut complete = true;
    while i < order.len() {
        let (x, q) = order[i];
        if x.nullable != d.fin[q as usize] {
            let w = path(&parent, i);
            return Err(format!(
                "after reading {} the term is {} but the reference says {}",
                show_word(&w),
                if x.nullable { "nullable (word accepted)" } else { "not nullable (word rejected)" },
                if d.fin[q as usize] { "member" } else { "not a member" }
            ));
        }
        let rs = all_bounds(x.char_ranges());
        for c in rep_chars(al, &rs) {
            let y = re.char_derivative(x, c);
            let p = d.step(q, al.atom(c));
            steps += 1;
            let key = (y as *const RE, p);
            if !seen.contains_key(&key) {
                if order.len() >= cap {
                    complete = false;
                    // still check nullability of the frontier
                    if y.nullable != d.fin[p as usize] {
                        let mut w = path(&parent, i);
                        w.push(c);
                        return Err(format!(
                            "word {}: crate says {}, reference says {}",
                            show_word(&w),
                            y.nullable,
                            d.fin[p as usize]
                        ));
                    }
                    continue;
                }
                seen.insert(key, order.len());
                order.push((y, p));
                parent.push((i, c));
            }
        }
        i += 1;
    }
    Ok(WalkStat { pairs: order.len(), steps, complete })
}

/// Same for automata (always complete: the number of states is finite and known)
pub fn check_auto(a: &Automaton, s0: &State, d: &Dfa, q0: u32, al: &Alpha) -> Result<WalkStat, String> {
    let mut seen: HashMap<(usize, u32), usize> = HashMap::new();
    let mut order = vec![(s0.id(), q0)];
    let mut parent = vec![(usize::MAX, 0u32)];
    seen.insert((s0.id(), q0), 0);
    let mut i = 0;
    let mut steps = 0;
    while i < order.len() {
        let (s, q) = order[i];
        let st = a.state(s);
        if st.is_final() != d.fin[q as usize] {
            return Err(format!(
                "word {} leads to state {} which is {}final; reference says {}",
                show_word(&path(&parent, i)),
                s,
                if st.is_final() { "" } else { "not " },
                if d.fin[q as usize] { "member" } else { "not a member" }
            ));
        }
        let rs = all_bounds(st.char_ranges());
        for c in rep_chars(al, &rs) {
            let y = a.next(st, c).id();
            let p = d.step(q, al.atom(c));
            steps += 1;
            if !seen.contains_key(&(y, p)) {
                seen.insert((y, p), order.len());
                order.push((y, p));
                parent.push((i, c));
            }
        }
        i += 1;
    }
    Ok(WalkStat { pairs: order.len(), steps, complete: true })
}

/// cut points of all states of an automaton
pub fn auto_cuts(a: &Automaton) -> Vec<u32> {
    let mut v = vec![0];
    for s in a.states() {
        for (x, y) in all_bounds(s.char_ranges()) {
            v.push(x);
            v.push(y + 1);
        }
    }
    v
}

/// Transition structure of the automaton as seen through `next` (state order = crate's ids).
/// `al` must refine the automaton's classes.
pub fn extract(a: &Automaton, al: &Alpha) -> Result<Dfa, String> {
    let n = a.num_states();
    let ids: Vec<usize> = a.states().map(|s| s.id()).collect();
    if ids != (0..n).collect::<Vec<_>>() {
        return Err(format!("states() yields ids {ids:?} for an automaton with {n} states"));
    }
    let k = al.k();
    let mut d = Dfa { k, delta: Vec::with_capacity(n * k), fin: Vec::with_capacity(n) };
    for s in a.states() {
        d.fin.push(s.is_final());
        for i in 0..k {
            let t = a.next(s, al.starts[i]).id();
            let t2 = a.next(s, al.end(i)).id();
            if t != t2 {
                return Err(format!(
                    "state {}: next differs inside the class [{:#x}, {:#x}]: {t} vs {t2}",
                    s.id(),
                    al.starts[i],
                    al.end(i)
                ));
            }
            if t >= n {
                return Err(format!("state {}: successor id {t} out of range", s.id()));
            }
            d.delta.push(t as u32);
        }
    }
    Ok(d)
}
