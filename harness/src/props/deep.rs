//! Expressions with thousands of derivatives whose languages are known in closed form: words over
//! one character class x counted by length (plus, possibly, every word that leaves x).

use crate::dfa::*;
use crate::rng::*;
use crate::rx::*;

pub struct Deep {
    pub p: Prog,
    pub d: Dfa,
    pub al: Alpha,
    /// a character of x, a character outside x (when there is one)
    pub x: u32,
    pub other: Option<u32>,
    /// lengths at which the set of member lengths changes
    pub edges: Vec<usize>,
}

/// lengths n with x^n in the language; eventually periodic: position of n is n, or
/// t + (n - t) mod p when n >= t + p
#[derive(Clone)]
struct Lens {
    bits: Vec<bool>,
    /// all the words with a character outside x belong to the language
    rest: bool,
}

struct Maker<'a> {
    p: &'a mut Prog,
    x: usize,
    t: usize,
    period: usize,
    r: &'a mut Rng,
    marks: Vec<u64>,
}

impl Maker<'_> {
    fn set(&self, f: impl Fn(u64) -> bool) -> Lens {
        Lens { bits: (0..self.t + self.period).map(|n| f(n as u64)).collect(), rest: false }
    }
    /// a length of the order of magnitude wanted, often related to an earlier one
    fn size(&mut self) -> u64 {
        let hi = self.t as u64 / 2;
        let v = if !self.marks.is_empty() && self.r.chance(2, 3) {
            let m = *self.r.pick(&self.marks);
            (m + self.r.below(3)).saturating_sub(1).min(hi)
        } else if self.r.chance(1, 5) {
            self.r.below(4)
        } else {
            // the largest ones all exceed 2^16
            self.r.range(if hi > 70_000 { hi / 16 * 15 } else { hi / 2 }, hi)
        };
        self.marks.push(v);
        v
    }
    fn modulus(&mut self) -> u32 {
        let l: Vec<u64> = (1..=self.period as u64).filter(|m| self.period as u64 % m == 0).collect();
        *self.r.pick(&l) as u32
    }
    fn leaf(&mut self) -> (usize, Lens) {
        let x = self.x;
        match self.r.below(10) {
            0 | 1 => {
                let n = self.size();
                (self.p.add(Op::Exp(x, n as u32)), self.set(|k| k == n))
            }
            2 | 3 => {
                let (a, b) = (self.size(), self.size());
                let (a, b) = (a.min(b), a.max(b));
                let op = if self.r.chance(1, 2) { Op::SmtLoop(x, a as u32, b as u32) } else { Op::MkLoop(x, a as u32, Some(b as u32)) };
                (self.p.add(op), self.set(|k| a <= k && k <= b))
            }
            4 => {
                let a = self.size();
                (self.p.add(Op::MkLoop(x, a as u32, None)), self.set(|k| a <= k))
            }
            5 => {
                let m = self.modulus();
                let e = self.p.add(Op::Exp(x, m));
                (self.p.add(Op::Star(e)), self.set(|k| k % m as u64 == 0))
            }
            6 => {
                let (n, m) = (self.size(), self.modulus());
                let a = self.p.add(Op::Exp(x, n as u32));
                let e = self.p.add(Op::Exp(x, m));
                let s = self.p.add(Op::Star(e));
                (self.p.add(Op::Concat(a, s)), self.set(|k| k >= n && (k - n) % m as u64 == 0))
            }
            7 => {
                // (x^m){a,b}
                let m = self.r.range(1, 6);
                let (a, b) = (self.size() / m, self.size() / m);
                let (a, b) = (a.min(b), a.max(b));
                let e = self.p.add(Op::Exp(x, m as u32));
                (self.p.add(Op::SmtLoop(e, a as u32, b as u32)), self.set(|k| k % m == 0 && a * m <= k && k <= b * m))
            }
            8 => {
                // (x{i,j}){a,b}
                let i = self.r.range(0, 3);
                let j = i + self.r.below(3);
                let m = j.max(1);
                let (mut a, mut b) = (self.size() / m, self.size() / m);
                if a.min(b) * (j - i) + 1 < i {
                    // not equal to one loop: the derivatives are large unions
                    (a, b) = (a % 20, b % 20);
                }
                let (a, b) = (a.min(b), a.max(b));
                let e = self.p.add(Op::SmtLoop(x, i as u32, j as u32));
                let l = self.p.add(Op::SmtLoop(e, a as u32, b as u32));
                // k in [i y, j y] for some y in [a, b]: try the least y with k <= j y
                let f = |k: u64| {
                    if j == 0 {
                        return k == 0;
                    }
                    let y = k.div_ceil(j).max(a);
                    y <= b && i * y <= k
                };
                (l, self.set(f))
            }
            _ => {
                // x^a x{0,c} = x{a,a+c}
                let a = self.size() / 2;
                let c = self.size() / 2;
                let e = self.p.add(Op::Exp(x, a as u32));
                let l = self.p.add(Op::SmtLoop(x, 0, c as u32));
                (self.p.add(Op::Concat(e, l)), self.set(|k| a <= k && k <= a + c))
            }
        }
    }
    fn expr(&mut self, depth: u32) -> (usize, Lens) {
        if depth == 0 {
            return self.leaf();
        }
        let (e, l) = self.expr(depth - 1);
        if self.r.chance(1, 4) {
            let c = self.p.add(Op::Comp(e));
            return (c, Lens { bits: l.bits.iter().map(|b| !b).collect(), rest: !l.rest });
        }
        let (f, m) = self.leaf();
        let zip = |g: &dyn Fn(bool, bool) -> bool| Lens {
            bits: l.bits.iter().zip(&m.bits).map(|(&a, &b)| g(a, b)).collect(),
            rest: g(l.rest, m.rest),
        };
        match self.r.below(4) {
            0 => (self.p.add(Op::Union(e, f)), zip(&|a, b| a || b)),
            1 => (self.p.add(Op::Diff(e, f)), zip(&|a, b| a && !b)),
            2 => (self.p.add(Op::Diff(f, e)), zip(&|a, b| b && !a)),
            _ => (self.p.add(Op::Inter(e, f)), zip(&|a, b| a && b)),
        }
    }
}

/// lengths up to about max
pub fn deep(max: u64, r: &mut Rng) -> Deep {
    let l = deep_list(max, 1, r);
    let (p, al, x, other, mut v) = l;
    let (e, d, edges) = v.pop().unwrap();
    assert_eq!(e, p.root());
    Deep { p, d, al, x, other, edges }
}

type Item = (usize, Dfa, Vec<usize>);

/// several expressions of one program over the same class, with related lengths
pub fn deep_list(max: u64, count: usize, r: &mut Rng) -> (Prog, Alpha, u32, Option<u32>, Vec<Item>) {
    let mut p = Prog::default();
    let (x, lo, hi) = match r.below(5) {
        0 => (p.add(Op::AllChar), 0, MAXC),
        1 => (p.add(Op::Range(97, 122)), 97, 122),
        2 => (p.add(Op::Range(0, 97)), 0, 97),
        _ => (p.add(Op::Char(97)), 97, 97),
    };
    let other = if hi == MAXC { None } else { Some(hi + 1) };
    let period = *r.pick(&[1usize, 1, 2, 3, 6]);
    let scale = r.range(if max >= 80_000 { max / 32 * 29 } else { max / 2 }, max) as usize;
    let common_wrap = r.below(4);
    let mut raw = vec![];
    let mut marks = vec![];
    for _ in 0..count {
        let depth = *r.pick(&[0, 1, 1, 2, 2, 3]);
        let (mut e, lens) = {
            let mut m = Maker { p: &mut p, x, t: 2 * scale, period, r, marks };
            let y = m.expr(depth);
            marks = m.marks;
            y
        };
        // 0: as is; 1: followed by another character; 2: preceded by one
        let wrap = if lens.rest || other.is_none() { 0 } else if r.chance(4, 5) { common_wrap } else { r.below(4) };
        match wrap {
            1 => {
                let b = p.add(Op::Char(hi + 1));
                e = p.add(Op::Concat(e, b));
            }
            2 => {
                let b = p.add(Op::Char(hi + 1));
                e = p.add(Op::Concat(b, e));
            }
            _ => {}
        }
        raw.push((e, lens, wrap));
    }
    let al = p.alpha();
    let k = al.k();
    let mut out = vec![];
    for (e, lens, wrap) in raw {
        let n = lens.bits.len();
        // states: 0..n lengths, n = dead (or everything), n + 1 = after the final b / before the first b
        let mut d = Dfa { k, delta: vec![n as u32; (n + 2) * k], fin: vec![false; n + 2] };
        let xs: Vec<bool> = (0..k).map(|i| lo <= al.starts[i] && al.end(i) <= hi).collect();
        let b = other.map(|o| al.atom(o));
        for q in 0..n {
            let next = if q + 1 < n { q + 1 } else { n - period };
            for i in 0..k {
                if xs[i] {
                    d.delta[q * k + i] = next as u32;
                }
            }
            if wrap == 1 {
                if lens.bits[q] {
                    d.delta[q * k + b.unwrap()] = n as u32 + 1;
                }
            } else {
                d.fin[q] = lens.bits[q];
            }
        }
        d.fin[n] = lens.rest;
        let mut init = 0;
        if wrap == 1 {
            d.fin[n + 1] = true;
        }
        if wrap == 2 {
            d.delta[(n + 1) * k + b.unwrap()] = 0;
            init = n as u32 + 1;
        }
        let d = d.minimize(init);
        let edges = (1..n).filter(|&i| lens.bits[i] != lens.bits[i - 1]).take(40).collect();
        out.push((e, d, edges));
    }
    (p, al, lo, other, out)
}

impl Deep {
    /// words around the interesting lengths
    pub fn words(&self, r: &mut Rng, count: usize) -> Vec<Vec<u32>> {
        let mut v = vec![];
        for _ in 0..count {
            let mut n = if self.edges.is_empty() || r.chance(1, 6) { r.us(20) } else { *r.pick(&self.edges) };
            n = (n + r.us(4)).saturating_sub(2);
            let mut w = vec![self.x; n];
            if let Some(o) = self.other {
                match r.below(4) {
                    0 => w.push(o),
                    1 => w.insert(0, o),
                    2 if n > 0 => {
                        let i = r.us(n);
                        w[i] = o
                    }
                    _ => {}
                }
            }
            v.push(w);
        }
        v
    }
}
