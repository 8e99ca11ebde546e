//! Automaton specifications (builder call sequences), their reference meaning, and generators.

use crate::ctx::*;
use crate::dfa::*;
use crate::rng::*;
use crate::walk::*;
use aws_smt_strings::automata::{Automaton, AutomatonBuilder};
use aws_smt_strings::character_sets::CharSet;
use aws_smt_strings::errors::Error;
use std::collections::{HashMap, HashSet};
use std::hash::Hash;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum BOp {
    Final(u32),
    Default(u32, u32),
    Trans(u32, (u32, u32), u32),
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub init: u32,
    pub ops: Vec<BOp>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    /// complete and conflict-free, defaults only where needed
    Accept,
    /// complete and conflict-free, but some default is not needed anywhere
    Either,
    Conflict,
    Incomplete,
}

impl Spec {
    pub fn show(&self) -> String {
        let mut s = format!("init {};", self.init);
        for op in self.ops.iter().take(60) {
            s.push_str(&match op {
                BOp::Final(q) => format!(" final {q};"),
                BOp::Default(q, t) => format!(" {q} -default-> {t};"),
                BOp::Trans(q, (a, b), t) => format!(" {q} -[{a:#x},{b:#x}]-> {t};"),
            });
        }
        s
    }

    pub fn hash(&self) -> u64 {
        let mut h = H::new();
        h.u(self.init as u64);
        for op in &self.ops {
            match op {
                BOp::Final(q) => h.u(1).u(*q as u64),
                BOp::Default(q, t) => h.u(2).u(*q as u64).u(*t as u64),
                BOp::Trans(q, (a, b), t) => h.u(3).u(*q as u64).u(*a as u64).u(*b as u64).u(*t as u64),
            };
        }
        h.0
    }

    pub fn feed<T: Eq + Hash + Clone>(&self, b: &mut AutomatonBuilder<T>, from: usize, to: usize, lbl: &dyn Fn(u32) -> T) {
        for op in &self.ops[from..to] {
            match op {
                BOp::Final(q) => b.mark_final(&lbl(*q)),
                BOp::Default(q, t) => b.set_default_successor(&lbl(*q), &lbl(*t)),
                BOp::Trans(q, (x, y), t) => b.add_transition(&lbl(*q), &CharSet::range(*x, *y), &lbl(*t)),
            };
        }
    }

    pub fn build(&self) -> Result<Automaton, Error> {
        let mut b = AutomatonBuilder::new(&self.init);
        self.feed(&mut b, 0, self.ops.len(), &|x| x);
        b.build()
    }

    pub fn alpha(&self) -> Alpha {
        let mut v = vec![];
        for op in &self.ops {
            if let BOp::Trans(_, (a, b), _) = op {
                v.push(*a);
                v.push(*b + 1);
            }
        }
        Alpha::new(v)
    }

    /// states in order of first mention
    pub fn states(&self) -> Vec<u32> {
        let mut v = vec![];
        let mut seen = HashSet::new();
        let mut add = |x: u32| {
            if seen.insert(x) {
                v.push(x)
            }
        };
        add(self.init);
        for op in &self.ops {
            match op {
                BOp::Final(q) => add(*q),
                BOp::Default(q, t) | BOp::Trans(q, _, t) => {
                    add(*q);
                    add(*t)
                }
            }
        }
        v
    }

    /// What the caller specified: verdict and, when complete, the transition structure
    /// (state i of the result = i-th state mentioned, 0 = initial).
    pub fn reference(&self, al: &Alpha) -> (Verdict, Option<Dfa>) {
        let st = self.states();
        let index: HashMap<u32, usize> = st.iter().enumerate().map(|(i, &q)| (q, i)).collect();
        let idx = |q: u32| index[&q];
        let n = st.len();
        let k = al.k();
        let mut explicit: Vec<Option<u32>> = vec![None; n * k];
        let mut default: Vec<Option<u32>> = vec![None; n];
        let mut fin = vec![false; n];
        let mut conflict = false;
        for op in &self.ops {
            match op {
                BOp::Final(q) => fin[idx(*q)] = true,
                BOp::Default(q, t) => default[idx(*q)] = Some(idx(*t) as u32),
                BOp::Trans(q, (a, b), t) => {
                    let (q, t) = (idx(*q), idx(*t) as u32);
                    for i in al.atom(*a)..=al.atom(*b) {
                        let e = &mut explicit[q * k + i];
                        conflict |= e.is_some_and(|x| x != t);
                        *e = Some(t);
                    }
                }
            }
        }
        if conflict {
            return (Verdict::Conflict, None);
        }
        let mut redundant = false;
        let mut delta = vec![0; n * k];
        for q in 0..n {
            let mut used = false;
            for i in 0..k {
                delta[q * k + i] = match (explicit[q * k + i], default[q]) {
                    (Some(t), _) => t,
                    (None, Some(t)) => {
                        used = true;
                        t
                    }
                    (None, None) => return (Verdict::Incomplete, None),
                };
            }
            redundant |= default[q].is_some() && !used;
        }
        let d = Dfa { k, delta, fin };
        (if redundant { Verdict::Either } else { Verdict::Accept }, Some(d))
    }
}

/// A complete, conflict-free specification of the DFA d (with initial state init)
pub fn spec_of(d: &Dfa, init: u32, al: &Alpha, r: &mut Rng) -> Spec {
    let mut ops = vec![];
    let n = d.n() as u32;
    let k = d.k;
    let uniform = r.chance(1, 4);
    let fixed_style = r.below(4);
    for q in 0..n {
        if d.fin[q as usize] {
            ops.push(BOp::Final(q));
        }
        let style = if uniform { fixed_style } else { r.below(4) };
        // maximal runs of atoms with one successor
        let mut runs: Vec<(usize, usize, u32)> = vec![];
        for i in 0..k {
            let t = d.step(q, i);
            match runs.last_mut() {
                Some(x) if x.2 == t && style != 1 => x.1 = i,
                _ => runs.push((i, i, t)),
            }
        }
        let mut hole = usize::MAX;
        if style != 0 {
            // with a default: some run is left out
            hole = if style == 2 { runs.len() - 1 } else { r.us(runs.len()) };
            ops.push(BOp::Default(q, runs[hole].2));
        }
        let dflt = if hole < usize::MAX { Some(runs[hole].2) } else { None };
        let skip_all = r.chance(1, 2);
        for (j, &(a, b, t)) in runs.iter().enumerate() {
            if j == hole || (Some(t) == dflt && (skip_all || r.chance(1, 3))) {
                continue;
            }
            ops.push(BOp::Trans(q, (al.starts[a], al.end(b)), t));
            if r.chance(1, 20) {
                // redundant overlapping label with the same successor
                ops.push(BOp::Trans(q, (al.starts[b], al.end(b)), t));
            }
        }
    }
    if r.chance(3, 4) {
        r.shuffle(&mut ops);
    }
    Spec { init, ops }
}

/// Few states with up to `maxk` labels each, most to one successor; the default successor is that one, another
/// one, one no label leads to, or none; the characters left to it lie anywhere. Complete and conflict-free.
pub fn skewed_spec(maxn: u64, maxk: u64, r: &mut Rng) -> Spec {
    let n = r.range(1, maxn) as u32;
    let mut ops = vec![];
    for q in 0..n {
        if r.chance(1, 3) {
            ops.push(BOp::Final(q));
        }
        let k = match r.below(4) {
            0 => r.range(1, 4.min(maxk)),
            1 => *r.pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]).min(&maxk),
            _ => r.range(1, maxk),
        } as usize;
        let step = match r.below(3) {
            0 => 1,
            1 => 3,
            _ => (MAXC as u64 + 1) / k as u64,
        };
        let base = match r.below(3) {
            0 => 0,
            1 => MAXC as u64 + 1 - k as u64 * step,
            _ => r.below(MAXC as u64 + 2 - k as u64 * step),
        };
        let mut cuts: Vec<u32> = (0..k as u64).map(|i| (base + i * step + r.below(step)) as u32).collect();
        if r.chance(1, 2) {
            cuts.push(0);
        }
        cuts.sort_unstable();
        cuts.dedup();
        // the successors
        let major = r.below(n as u64) as u32;
        let share = *r.pick(&[30u64, 45, 50, 55, 70, 90, 100]);
        let mut succ: Vec<Option<u32>> =
            cuts.iter().map(|_| Some(if r.below(100) < share { major } else { r.below(n as u64) as u32 })).collect();
        let dflt = match r.below(5) {
            0 => None,
            1 => Some(major),
            2 => (0..n).find(|t| succ.iter().all(|x| *x != Some(*t))),
            _ => Some(r.below(n as u64) as u32),
        };
        let mut hole = cuts[0] > 0;
        if let Some(d) = dflt {
            // left out: what leads to the default, and some other parts
            let gaps = *r.pick(&[0, 0, 3, 20, 50]);
            for x in succ.iter_mut() {
                if (*x == Some(d) && r.chance(2, 3)) || r.below(100) < gaps {
                    *x = None;
                    hole = true;
                }
            }
            if r.chance(1, 4) {
                *succ.last_mut().unwrap() = None;
                hole = true;
            }
            if hole {
                ops.push(BOp::Default(q, d));
            }
        } else if hole {
            ops.push(BOp::Trans(q, (0, cuts[0] - 1), major));
        }
        for (i, x) in succ.iter().enumerate() {
            let Some(t) = *x else { continue };
            let b = if i + 1 < cuts.len() { cuts[i + 1] - 1 } else { MAXC };
            ops.push(BOp::Trans(q, (cuts[i], b), t));
        }
    }
    match r.below(3) {
        0 => r.shuffle(&mut ops),
        1 => ops.reverse(),
        _ => (),
    }
    Spec { init: r.below(n as u64) as u32, ops }
}

pub fn rand_alpha(k: usize, r: &mut Rng) -> Alpha {
    let mut v = vec![];
    match r.below(4) {
        0 => v.extend((0..k as u32).map(|i| 97 + i)),
        1 => v.extend((0..k as u32).map(|i| i)),
        2 => v.extend((0..k as u32).map(|i| MAXC - i)),
        _ => {
            while v.len() + 1 < k {
                let x = match r.below(3) {
                    0 => r.below(200) as u32,
                    1 => MAXC - r.below(200) as u32,
                    _ => r.range(1, MAXC as u64) as u32,
                };
                if x > 0 && !v.contains(&x) {
                    v.push(x)
                }
            }
        }
    }
    let mut al = Alpha::new(v);
    al.starts.truncate(k);
    al
}

/// random complete transition structure
pub fn rand_dfa(n: usize, k: usize, r: &mut Rng) -> Dfa {
    let fin = match r.below(10) {
        0 => vec![false; n],
        1 => vec![true; n],
        2 => {
            let f = r.us(n);
            (0..n).map(|i| i == f).collect()
        }
        _ => {
            let p = r.range(1, 9);
            (0..n).map(|_| r.chance(p, 10)).collect()
        }
    };
    let mut delta = Vec::with_capacity(n * k);
    let shape = r.below(6);
    let few: Vec<u32> = (0..3).map(|_| r.us(n) as u32).collect();
    for q in 0..n {
        let home = r.us(n) as u32;
        for _ in 0..k {
            delta.push(match shape {
                0 => r.us(n) as u32,
                // mostly one successor per state, few exceptions
                1 => {
                    if r.chance(1, 5) {
                        r.us(n) as u32
                    } else {
                        home
                    }
                }
                // successors close to the state
                2 => ((q as u64 + r.below(3)) % n as u64) as u32,
                // a few popular successors
                3 => *r.pick(&few),
                // mostly forward (dag-like)
                4 => r.range(q as u64, n as u64 - 1) as u32,
                _ => {
                    if r.chance(1, 2) {
                        q as u32
                    } else {
                        r.us(n) as u32
                    }
                }
            });
        }
    }
    Dfa { k, delta, fin }
}

/// every state of d replaced by some clones, with transitions to random clones
pub fn cloned(d: &Dfa, max_clones: u64, r: &mut Rng) -> Dfa {
    let mut group: Vec<Vec<u32>> = vec![];
    let mut owner: Vec<u32> = vec![];
    for q in 0..d.n() {
        let m = r.range(1, max_clones);
        group.push((0..m).map(|i| (owner.len() as u64 + i) as u32).collect());
        owner.extend((0..m).map(|_| q as u32));
    }
    let mut perm: Vec<u32> = (0..owner.len() as u32).collect();
    r.shuffle(&mut perm);
    let n = owner.len();
    let mut delta = vec![0; n * d.k];
    let mut fin = vec![false; n];
    for x in 0..n {
        let p = perm[x] as usize;
        fin[p] = d.fin[owner[x] as usize];
        for a in 0..d.k {
            let t = d.step(owner[x], a) as usize;
            delta[p * d.k + a] = perm[*r.pick(&group[t]) as usize];
        }
    }
    Dfa { k: d.k, delta, fin }
}

/// A random DFA of one of several shapes with at most about n states
pub fn shaped(n: usize, k: usize, r: &mut Rng) -> Dfa {
    match r.below(13) {
        // hubs: a few large sets of states most transitions lead to, told apart only after the
        // rest (a chain) has been split
        8 => {
            let mut d = rand_dfa(n, k, r);
            let h = r.range(1, n as u64 - 1 + (n == 1) as u64) as usize % n;
            let into = r.range(2, 9);
            for q in 0..n {
                d.fin[q] = q + 1 == n || (q >= h && r.chance(1, n as u64));
                for a in 0..k {
                    d.delta[q * k + a] = if a == 0 {
                        if q >= h { (q + 1).min(n - 1) } else { r.us(n) }
                    } else if r.below(10) <= into && h > 0 {
                        r.us(h)
                    } else {
                        r.us(n)
                    } as u32;
                }
            }
            d
        }
        // every letter permutes the states
        9 => {
            let mut d = rand_dfa(n, k, r);
            for a in 0..k {
                let mut p: Vec<u32> = (0..n as u32).collect();
                match r.below(3) {
                    0 => r.shuffle(&mut p),
                    1 => p.rotate_left(r.us(n)),
                    _ => {
                        for i in (1..n).step_by(2) {
                            if r.chance(3, 4) {
                                p.swap(i - 1, i);
                            }
                        }
                    }
                }
                for q in 0..n {
                    d.delta[q * k + a] = p[q];
                }
            }
            if r.chance(1, 2) {
                let f = r.us(n);
                d.fin = (0..n).map(|q| q == f).collect();
            }
            d
        }
        // trees
        10 => {
            let mut d = rand_dfa(n, k, r);
            let lab = r.range(1, 4) as usize;
            for q in 0..n {
                d.fin[q] = if r.chance(1, 40) { r.chance(1, 2) } else { q % lab == 0 };
                for a in 0..k {
                    let t = q * k + a + 1;
                    d.delta[q * k + a] = if t < n { t } else { q / k.max(2) } as u32;
                }
            }
            d
        }
        // pairs of counters
        11 => {
            let x = r.range(1, (n as f64).sqrt().max(1.0) as u64) as usize;
            let y = (n / x).max(1);
            let n = x * y;
            let mut d = rand_dfa(n, k, r);
            let (u, v) = (r.range(1, x as u64) as usize, r.range(1, y as u64) as usize);
            for q in 0..n {
                let (i, j) = (q / y, q % y);
                d.fin[q] = i % u == 0 && j % v == 0;
                for a in 0..k {
                    let (i, j) = match a {
                        0 => ((i + 1) % x, j),
                        1 => (i, (j + 1) % y),
                        2 => ((i + 1).min(x - 1), j),
                        _ => (0, j),
                    };
                    d.delta[q * k + a] = (i * y + j) as u32;
                }
            }
            d
        }
        // two shapes next to each other with a few bridges
        12 if n >= 4 => {
            let m = r.range(1, n as u64 - 1) as usize;
            let (d, e) = (shaped(m, k, r), shaped(n - m, k, r));
            let off = d.n() as u32;
            let mut f = Dfa { k, delta: d.delta.clone(), fin: [d.fin.clone(), e.fin.clone()].concat() };
            f.delta.extend(e.delta.iter().map(|&x| x + off));
            for _ in 0..r.range(1, 5) {
                let cell = r.us(f.delta.len());
                f.delta[cell] = r.us(f.fin.len()) as u32;
            }
            f
        }
        0 | 1 => rand_dfa(n, k, r),
        2 | 3 => {
            let m = r.range(1, (n as u64 / 2).max(1)) as usize;
            let d = rand_dfa(m, k, r);
            cloned(&d, 4, r)
        }
        // unary-like cycle with letters acting the same way or resetting
        4 => {
            let step = r.range(1, n as u64) as usize;
            let period = r.range(1, n as u64) as usize;
            let mut d = rand_dfa(n, k, r);
            for q in 0..n {
                d.fin[q] = q % period == 0;
                for a in 0..k {
                    d.delta[q * k + a] = match a {
                        0 => ((q + 1) % n) as u32,
                        1 => ((q + step) % n) as u32,
                        2 => 0,
                        _ => q as u32,
                    };
                }
            }
            d
        }
        // chain into a sink: distances to the final state matter
        5 => {
            let mut d = rand_dfa(n, k, r);
            for q in 0..n {
                d.fin[q] = q + 1 == n || (q + 2 == n && r.chance(1, 2));
                for a in 0..k {
                    d.delta[q * k + a] = match a {
                        0 => (q + 1).min(n - 1) as u32,
                        1 => q.saturating_sub(1) as u32,
                        _ => q as u32,
                    };
                }
            }
            d
        }
        // binary cyclic words: finality follows a Sturmian/de Bruijn-like word on a cycle
        6 => {
            let mut d = rand_dfa(n, k, r);
            let (mut x, mut y) = (vec![false], vec![false, true]);
            while y.len() < n {
                let z = [y.clone(), x].concat();
                x = y;
                y = z;
            }
            for q in 0..n {
                d.fin[q] = y[q];
                for a in 0..k {
                    d.delta[q * k + a] = if a == 0 { ((q + 1) % n) as u32 } else { ((q + n - 1) % n) as u32 };
                }
            }
            d
        }
        // two copies of the same automaton (everything equivalent in pairs), possibly one altered cell
        _ => {
            let m = (n / 2).max(1);
            let d = rand_dfa(m, k, r);
            let mut e = Dfa { k, delta: d.delta.clone(), fin: [d.fin.clone(), d.fin.clone()].concat() };
            e.delta.extend(d.delta.iter().map(|&x| x + m as u32));
            if r.chance(1, 2) {
                let cell = r.us(e.delta.len());
                e.delta[cell] = r.us(2 * m) as u32;
            }
            e
        }
    }
}

pub fn reachable(d: &Dfa, init: u32) -> Vec<bool> {
    let mut seen = vec![false; d.n()];
    seen[init as usize] = true;
    let mut st = vec![init];
    while let Some(q) = st.pop() {
        for a in 0..d.k {
            let t = d.step(q, a);
            if !seen[t as usize] {
                seen[t as usize] = true;
                st.push(t);
            }
        }
    }
    seen
}

/// The crate's automaton as a transition structure over an alphabet refining all its classes.
pub fn observe(a: &Automaton, extra: &Alpha) -> Result<(Alpha, Dfa, u32), String> {
    let al = Alpha::new([auto_cuts(a), extra.starts.clone()].concat());
    let d = extract(a, &al)?;
    Ok((al, d, a.initial_state().id() as u32))
}

/// number of final states as reported in two ways
pub fn check_finals(a: &Automaton, d: &Dfa) -> R {
    let n = d.fin.iter().filter(|&&x| x).count();
    crate::ensure!(
        a.num_final_states() == n,
        "num_final_states = {} but {n} states are final",
        a.num_final_states()
    );
    Ok(())
}

/// a small automaton for automata properties: built or compiled
pub fn any_automaton(c: &mut Ctx, maxn: usize, maxk: usize, r: &mut Rng) -> Result<Option<(Automaton, String)>, String> {
    if r.chance(1, 8) {
        let k = if r.chance(1, 4) { 80 } else { 12 };
        let s = skewed_spec(maxn.min(6) as u64, k, r);
        c.case(s.hash());
        c.count("built_skewed", 1);
        return match s.build() {
            Ok(a) => Ok(Some((a, s.show()))),
            Err(_) => {
                c.count("build_rejected", 1);
                Ok(None)
            }
        };
    }
    if r.chance(1, 4) {
        let p = crate::props::common::diverse(r);
        let mut re = aws_smt_strings::regular_expressions::ReManager::new();
        let t = p.build(&mut re);
        if crate::props::common::derivative_count(&mut re, t[p.root()], 300).is_none() {
            c.count("deriv_capped", 1);
            return Ok(None);
        }
        c.case(p.hash());
        c.count("compiled", 1);
        let a = re.compile(t[p.root()]);
        Ok(Some((a, p.show(p.root()))))
    } else {
        let n = r.range(1, maxn as u64) as usize;
        let k = r.range(1, maxk as u64) as usize;
        let d = shaped(n, k, r);
        let al = rand_alpha(k, r);
        let d = if al.k() < d.k {
            // fewer atoms than letters: restrict
            let mut e = Dfa { k: al.k(), delta: vec![], fin: d.fin.clone() };
            for q in 0..d.n() {
                for a in 0..al.k() {
                    e.delta.push(d.step(q as u32, a));
                }
            }
            e
        } else {
            d
        };
        let init = r.us(d.n()) as u32;
        let s = spec_of(&d, init, &al, r);
        c.case(s.hash());
        c.count("built", 1);
        match s.build() {
            Ok(a) => Ok(Some((a, s.show()))),
            // acceptance of specifications is C13's subject
            Err(_) => {
                c.count("build_rejected", 1);
                Ok(None)
            }
        }
    }
}

/// more than 2^16 states; equivalences are settled by short words
pub fn huge_dfa(i: u64, maxk: u64, r: &mut Rng) -> (Dfa, Alpha, u32) {
    let n = r.range(65_537, 75_000) as usize;
    let k = r.range(1, maxk) as usize;
    let al = rand_alpha(k, r);
    let k = al.k();
    let mut d = match i % 4 {
        0 => rand_dfa(n, k, r),
        1 => {
            let m = n / 3;
            let d = rand_dfa(m, k, r);
            cloned(&d, 5, r)
        }
        // a cycle
        2 => {
            let mut d = rand_dfa(n, k, r);
            for q in 0..n {
                d.delta[q * k] = ((q + 1) % n) as u32;
                for a in 1..k {
                    d.delta[q * k + a] = ((q + a * 7) % n) as u32;
                }
            }
            d
        }
        // a path to a sink
        _ => {
            let mut d = rand_dfa(n, k, r);
            for q in 0..n {
                d.delta[q * k] = (q + 1).min(n - 1) as u32;
                for a in 1..k {
                    d.delta[q * k + a] = if r.chance(1, 3) { r.us(n) as u32 } else { q as u32 };
                }
            }
            d
        }
    };
    for f in d.fin.iter_mut() {
        *f = r.chance(1, 2);
    }
    let init = r.us(d.n()) as u32;
    (d, al, if i % 4 == 3 { r.below(10) as u32 } else { init })
}

/// n states over k letters (k large)
pub fn wide_dfa(n: usize, k: usize, r: &mut Rng) -> (Dfa, Alpha) {
    let step = (MAXC as u64 / k as u64).max(1);
    let mut cuts = vec![];
    let dense = r.chance(1, 3);
    let base = if r.chance(1, 2) { 0 } else { MAXC - k as u32 };
    for i in 0..k as u64 {
        cuts.push(if dense { base + i as u32 } else { (i * step + r.below(step)) as u32 });
    }
    let mut al = Alpha::new(cuts);
    al.starts.truncate(k);
    let mut d = rand_dfa(n, al.k(), r);
    if r.chance(2, 3) {
        // all rows are equal except for one letter in each state: only that letter separates it
        let k = al.k();
        if n < 3 {
            return (d, al);
        }
        // two equivalent sinks in turns, so that no two letters fall in one class
        let (s1, s2) = (n - 1, n - 2);
        for q in 0..n {
            for a in 0..k {
                d.delta[q * k + a] = if (a + q) % 2 == 0 { s1 } else { s2 } as u32;
            }
        }
        let n = n - 2;
        d.fin.fill(false);
        let last = r.us(n);
        d.fin[last] = true;
        for q in 0..n {
            let l = match r.below(3) {
                0 => k - 1 - r.us(k.min(3)),
                1 => (r.us(k) & !0xff) + r.us(4).min(k - 1),
                _ => r.us(k),
            }
            .min(k - 1);
            d.delta[q * k + l] = if q == 0 { last as u32 } else { r.us(q) as u32 };
        }
    }
    (d, al)
}
