//! Expressions with hundreds of derivative classes.

use crate::dfa::MAXC;
use crate::rng::*;
use crate::rx::*;

/// n disjoint ranges of characters, in increasing order
pub fn letters(n: usize, r: &mut Rng) -> Vec<(u32, u32)> {
    let n32 = n as u32;
    let mut v = vec![];
    match r.below(6) {
        // neighbours, one character each
        0 => {
            let b = *r.pick(&[0, 1, 97, 0xFF00, MAXC + 1 - n32, 0x10000 - n32 / 2]);
            v.extend((0..n32).map(|i| (b + i, b + i)));
        }
        // isolated characters
        1 => {
            let s = r.range(2, 90) as u32;
            let b = r.below((MAXC - n32 * s) as u64) as u32;
            v.extend((0..n32).map(|i| (b + s * i, b + s * i)));
        }
        // the whole alphabet
        2 => {
            let s = (MAXC + 1) / n32;
            v.extend((0..n32).map(|i| (s * i, if i + 1 == n32 { MAXC } else { s * (i + 1) - 1 })));
        }
        // the whole alphabet but for one character, one class or one of the ends
        3 => {
            let s = (MAXC + 1) / n32;
            v.extend((0..n32).map(|i| (s * i, if i + 1 == n32 { MAXC } else { s * (i + 1) - 1 })));
            let k = *r.pick(&[0, n - 1, n / 2]);
            if r.chance(1, 3) {
                v.remove(k);
            } else if r.chance(1, 2) {
                v[k].0 += 1;
            } else {
                v[k].1 -= 1;
            }
        }
        // ranges with and without gaps
        _ => {
            let mut x = r.below(200) as u32;
            for _ in 0..n {
                let y = x + if r.chance(1, 2) { 0 } else { r.below(60) as u32 };
                v.push((x, y.min(MAXC)));
                x = y + 1 + if r.chance(1, 2) { 0 } else { r.below(30) as u32 };
            }
        }
    }
    v
}

struct W<'a> {
    p: Prog,
    x: Vec<usize>,
    tails: Vec<usize>,
    r: &'a mut Rng,
}

impl W<'_> {
    fn tail(&mut self, i: usize, mode: u64) -> usize {
        let t = self.tails.len();
        let n = self.x.len();
        match mode {
            0 => self.tails[i % t],
            1 => self.tails[i * t / n],
            // one letter is different from the others
            2 => self.tails[usize::from(i == n / 2) % t],
            3 => self.tails[usize::from(i + 1 == n) % t],
            4 => self.tails[usize::from(i == 0) % t],
            _ => *self.r.pick(&self.tails),
        }
    }
    /// union of x_i t_i
    fn table(&mut self) -> usize {
        let mode = self.r.below(6);
        let swap = self.r.chance(1, 8);
        let mut l = vec![];
        // (a union of n such terms has derivatives that are unions of n terms: n^4 subsumption tests)
        let n = if swap { self.x.len().min(60) } else { self.x.len() };
        for i in 0..n {
            let t = self.tail(i, mode);
            let x = self.x[i];
            l.push(self.p.add(if swap { Op::Concat(t, x) } else { Op::Concat(x, t) }));
        }
        self.join(l)
    }
    fn join(&mut self, mut l: Vec<usize>) -> usize {
        if self.r.chance(1, 2) {
            self.r.shuffle(&mut l);
        }
        if l.len() <= 60 && self.r.chance(1, 3) {
            // one by one
            let mut u = l[0];
            for &x in &l[1..] {
                u = self.p.add(Op::Union(u, x));
            }
            u
        } else {
            self.p.add(Op::UnionL(l))
        }
    }
    /// x_i x_f(i) for a permutation f
    fn pairs(&mut self) -> usize {
        let mut q: Vec<usize> = (0..self.x.len()).collect();
        match self.r.below(3) {
            0 => q.rotate_left(1),
            1 => q.reverse(),
            _ => self.r.shuffle(&mut q),
        }
        let mut l = vec![];
        for i in 0..self.x.len() {
            let (a, b) = (self.x[i], self.x[q[i]]);
            l.push(self.p.add(Op::Concat(a, b)));
        }
        self.join(l)
    }
    fn class(&mut self) -> usize {
        let k = self.r.range(1, 4) as usize;
        let l: Vec<usize> = self.x.iter().copied().enumerate().filter(|(i, _)| i % (k + 1) != k).map(|(_, x)| x).collect();
        self.join(l)
    }
    fn body(&mut self) -> usize {
        match self.r.below(8) {
            0..=3 => self.table(),
            4 => self.pairs(),
            5 => self.class(),
            6 => {
                let c = self.class();
                let t = self.table();
                self.p.add(Op::Concat(c, t))
            }
            _ => {
                // everything but x_i t_i
                let n = self.x.len().min(60);
                let f = self.p.add(Op::Full);
                let mut l = vec![];
                for i in 0..n {
                    let t = self.tail(i, 0);
                    let x = self.x[i];
                    l.push(self.p.add(Op::Concat(x, t)));
                }
                self.p.add(Op::DiffL(f, l))
            }
        }
    }
}

/// an expression over about n letters
pub fn wide_prog(n: usize, r: &mut Rng) -> Prog {
    let mut p = Prog::default();
    let mut x = vec![];
    for (a, b) in letters(n, r) {
        x.push(p.add(if a == b { Op::Char(a) } else { Op::Range(a, b) }));
    }
    let mut tails = vec![];
    for _ in 0..r.range(1, 5) {
        let y = *r.pick(&x);
        let t = match r.below(9) {
            0 => p.add(Op::Eps),
            1 => p.add(Op::Full),
            2 => p.add(Op::AllChar),
            3 => y,
            4 => p.add(Op::Star(y)),
            5 => p.add(Op::Comp(y)),
            6 => {
                let z = *r.pick(&x);
                p.add(Op::Concat(y, z))
            }
            7 => p.add(Op::Str(vec![97, 98])),
            _ => p.add(Op::Opt(y)),
        };
        tails.push(t);
    }
    let mut w = W { p, x, tails, r };
    let e = w.body();
    let n = w.r.below(10);
    match n {
        0 => {
            w.p.add(Op::Comp(e));
        }
        1 => {
            w.p.add(Op::Star(e));
        }
        2 => {
            let k = w.r.range(1, 3) as u32;
            w.p.add(Op::SmtLoop(e, k - 1, k));
        }
        3 => {
            let f = w.body();
            w.p.add(Op::Inter(e, f));
        }
        4 => {
            let f = w.body();
            w.p.add(Op::Diff(e, f));
        }
        5 => {
            let f = w.body();
            w.p.add(Op::Union(e, f));
        }
        6 => {
            let f = w.body();
            let g = w.p.add(Op::Comp(f));
            w.p.add(Op::Union(e, g));
        }
        _ => {
            // make e the root
            let x = w.p.add(Op::Eps);
            w.p.add(Op::Concat(e, x));
        }
    }
    w.p
}

pub fn wide_size(giant: bool, r: &mut Rng) -> usize {
    let m = if giant { *r.pick(&[300u64, 300, 600, 1000]) } else { *r.pick(&[12u64, 40, 40, 100]) };
    r.range(m / 2, m) as usize
}

use super::common::*;
use crate::ctx::*;
use crate::dfa::*;
use aws_smt_strings::regular_expressions::*;

pub struct Wide {
    pub p: Prog,
    pub t: Vec<RegLan>,
    pub d: Dfa,
    pub al: Alpha,
}

/// a random expression with many classes, its terms and its reference automaton
pub fn wide_case(
    c: &mut Ctx,
    giant: bool,
    re: &mut ReManager,
    r: &mut Rng,
    f: &mut dyn FnMut(&mut Ctx, &mut ReManager, &Wide, &mut Rng) -> R,
) -> R {
    let n = wide_size(giant, r);
    let p = wide_prog(n, r);
    if c.verbose {
        println!("  {}", cut(p.show(p.root())));
    }
    let al = p.alpha();
    let Some(d) = p.dfas(&al, if giant { 700 } else { 250 }).pop().unwrap() else {
        c.count("ref_capped", 1);
        return Ok(());
    };
    let cap = if giant { 800 } else { 300 };
    let t = if r.chance(1, 2) {
        // leave the manager cold
        let mut probe = ReManager::new();
        let u = p.build(&mut probe);
        if derivative_count(&mut probe, u[p.root()], cap).is_none() {
            c.count("deriv_capped", 1);
            return Ok(());
        }
        p.build(re)
    } else {
        let t = p.build(re);
        if derivative_count(re, t[p.root()], cap).is_none() {
            c.count("deriv_capped", 1);
            return Ok(());
        }
        t
    };
    c.case(p.hash());
    c.max("classes", t[p.root()].num_deriv_classes() as u64);
    let w = Wide { p, t, d, al };
    f(c, re, &w, r).map_err(|e| cut(format!("{}: {e}", cut(w.p.show(w.p.root())))))
}
