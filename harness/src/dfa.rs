//! Reference DFAs over an atomised alphabet. Everything here is independent of the crate.
//! A `Dfa` returned by a public operation is always the canonical minimal complete DFA
//! (states numbered in BFS order), so language equality is structural equality.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

/// fast hashing of integer keys
#[derive(Default)]
pub struct Mix(u64);
impl Hasher for Mix {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = crate::rng::mix(self.0 ^ x);
    }
}

pub const MAXC: u32 = 0x2FFFF;

/// Partition of [0, MAXC] in atoms: atom i = [starts[i], starts[i+1]-1]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Alpha {
    pub starts: Vec<u32>,
}

impl Alpha {
    pub fn new(mut cuts: Vec<u32>) -> Alpha {
        cuts.push(0);
        cuts.retain(|&x| x <= MAXC);
        cuts.sort_unstable();
        cuts.dedup();
        Alpha { starts: cuts }
    }
    pub fn k(&self) -> usize {
        self.starts.len()
    }
    pub fn atom(&self, c: u32) -> usize {
        self.starts.partition_point(|&s| s <= c) - 1
    }
    pub fn end(&self, i: usize) -> u32 {
        if i + 1 < self.starts.len() {
            self.starts[i + 1] - 1
        } else {
            MAXC
        }
    }
    /// atoms included in [a, b] (the alphabet must be cut at a and b+1)
    pub fn set(&self, a: u32, b: u32) -> Vec<bool> {
        (0..self.k())
            .map(|i| self.starts[i] >= a && self.end(i) <= b)
            .collect()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Dfa {
    pub k: usize,
    pub delta: Vec<u32>,
    pub fin: Vec<bool>,
}

/// state-count cap exceeded
#[derive(Debug, Clone, Copy)]
pub struct TooBig;
pub type Res = Result<Dfa, TooBig>;

impl Dfa {
    pub fn n(&self) -> usize {
        self.fin.len()
    }
    #[inline]
    pub fn step(&self, q: u32, a: usize) -> u32 {
        self.delta[q as usize * self.k + a]
    }

    pub fn empty(k: usize) -> Dfa {
        Dfa { k, delta: vec![0; k], fin: vec![false] }
    }
    pub fn full(k: usize) -> Dfa {
        Dfa { k, delta: vec![0; k], fin: vec![true] }
    }
    pub fn eps(k: usize) -> Dfa {
        Dfa { k, delta: vec![1; 2 * k], fin: vec![true, false] }
    }
    pub fn chars(set: &[bool]) -> Dfa {
        let k = set.len();
        let mut delta = vec![2u32; 3 * k];
        for a in 0..k {
            if set[a] {
                delta[a] = 1;
            }
        }
        Dfa { k, delta, fin: vec![false, true, false] }.minimize(0)
    }
    pub fn word(k: usize, w: &[usize]) -> Dfa {
        let n = w.len() + 2;
        let dead = (n - 1) as u32;
        let mut delta = vec![dead; n * k];
        for (i, &a) in w.iter().enumerate() {
            delta[i * k + a] = (i + 1) as u32;
        }
        let mut fin = vec![false; n];
        fin[w.len()] = true;
        Dfa { k, delta, fin }.minimize(0)
    }

    pub fn is_empty(&self) -> bool {
        // canonical minimal: empty iff single non-final state
        self.n() == 1 && !self.fin[0]
    }
    pub fn is_eps(&self) -> bool {
        self.n() == 2 && self.fin[0] && !self.fin[1] && self.delta.iter().all(|&x| x == 1)
    }

    pub fn run(&self, q: u32, w: impl Iterator<Item = usize>) -> u32 {
        w.fold(q, |q, a| self.step(q, a))
    }

    pub fn accepts(&self, alpha: &Alpha, w: &[u32]) -> bool {
        self.fin[self.run(0, w.iter().map(|&c| alpha.atom(c))) as usize]
    }

    /// states from which a final state is reachable
    pub fn live(&self) -> Vec<bool> {
        let n = self.n();
        let mut rev: Vec<Vec<u32>> = vec![vec![]; n];
        for q in 0..n {
            for a in 0..self.k {
                rev[self.delta[q * self.k + a] as usize].push(q as u32);
            }
        }
        let mut live = self.fin.clone();
        let mut st: Vec<u32> = (0..n as u32).filter(|&q| live[q as usize]).collect();
        while let Some(q) = st.pop() {
            for &p in &rev[q as usize] {
                if !live[p as usize] {
                    live[p as usize] = true;
                    st.push(p);
                }
            }
        }
        live
    }

    /// Moore's partition refinement on all states (not only reachable ones).
    /// Returns (class of each state, number of classes)
    pub fn moore(&self) -> (Vec<u32>, usize) {
        if self.n() > 1000 {
            return self.hopcroft();
        }
        self.moore_rounds()
    }

    pub fn moore_rounds(&self) -> (Vec<u32>, usize) {
        let n = self.n();
        let k = self.k;
        let mut cls: Vec<u32> = self.fin.iter().map(|&f| f as u32).collect();
        let mut count = {
            let f = self.fin.iter().any(|&x| x) as usize;
            let g = self.fin.iter().any(|&x| !x) as usize;
            f + g
        };
        loop {
            let mut new = cls.clone();
            let mut c = count;
            for a in 0..k {
                let mut map: HashMap<u64, u32, BuildHasherDefault<Mix>> = HashMap::default();
                for q in 0..n {
                    let key = (new[q] as u64) << 32 | cls[self.delta[q * k + a] as usize] as u64;
                    let m = map.len() as u32;
                    new[q] = *map.entry(key).or_insert(m);
                }
                c = map.len();
            }
            cls = new;
            if c == count {
                return (cls, c);
            }
            count = c;
        }
    }

    /// Same classes by Hopcroft's algorithm (n log n), for large automata with long distinguishing
    /// words. The result is checked to be stable; that it is the coarsest stable partition follows
    /// from splitting only when forced to.
    pub fn hopcroft(&self) -> (Vec<u32>, usize) {
        let (n, k) = (self.n(), self.k);
        // inverse transitions, letter by letter, in compressed rows
        let mut start = vec![0u32; n * k + 1];
        for q in 0..n {
            for a in 0..k {
                start[self.delta[q * k + a] as usize * k + a + 1] += 1;
            }
        }
        for i in 0..n * k {
            start[i + 1] += start[i];
        }
        let mut fill = start.clone();
        let mut pre = vec![0u32; n * k];
        for q in 0..n {
            for a in 0..k {
                let r = self.delta[q * k + a] as usize * k + a;
                pre[fill[r] as usize] = q as u32;
                fill[r] += 1;
            }
        }
        // blocks are segments of elems
        let mut elems: Vec<u32> = (0..n as u32).collect();
        elems.sort_by_key(|&q| self.fin[q as usize]);
        let mut loc = vec![0u32; n];
        for (i, &q) in elems.iter().enumerate() {
            loc[q as usize] = i as u32;
        }
        let nf = self.fin.iter().filter(|&&f| !f).count();
        let mut block = vec![0u32; n];
        let mut seg: Vec<(u32, u32)> = vec![];
        for (lo, hi) in [(0, nf), (nf, n)] {
            if lo < hi {
                for &q in &elems[lo..hi] {
                    block[q as usize] = seg.len() as u32;
                }
                seg.push((lo as u32, hi as u32));
            }
        }
        let mut work: Vec<u32> = (0..seg.len() as u32).collect();
        let mut marked: Vec<u32> = vec![0; seg.len()];
        while let Some(b) = work.pop() {
            // the splitter as it is now
            let (lo, hi) = seg[b as usize];
            let members: Vec<u32> = elems[lo as usize..hi as usize].to_vec();
            for a in 0..k {
                let mut touched: Vec<u32> = vec![];
                for &q in &members {
                    let r = q as usize * k + a;
                    for j in start[r]..start[r + 1] {
                        let p = pre[j as usize];
                        let bp = block[p as usize] as usize;
                        let first = seg[bp].0 + marked[bp];
                        if marked[bp] == 0 {
                            touched.push(bp as u32);
                        }
                        // move p to the marked front of its block
                        let lp = loc[p as usize];
                        let other = elems[first as usize];
                        elems.swap(lp as usize, first as usize);
                        loc[p as usize] = first;
                        loc[other as usize] = lp;
                        marked[bp] += 1;
                    }
                }
                for &t in &touched {
                    let (lo, hi) = seg[t as usize];
                    let m = marked[t as usize];
                    marked[t as usize] = 0;
                    if lo + m == hi {
                        continue;
                    }
                    // the smaller part becomes the new block
                    let nb = seg.len() as u32;
                    let (keep, new) = if m * 2 <= hi - lo { ((lo + m, hi), (lo, lo + m)) } else { ((lo, lo + m), (lo + m, hi)) };
                    seg[t as usize] = keep;
                    seg.push(new);
                    marked.push(0);
                    for &q in &elems[new.0 as usize..new.1 as usize] {
                        block[q as usize] = nb;
                    }
                    work.push(nb);
                }
            }
        }
        for &(lo, hi) in &seg {
            let r = elems[lo as usize] as usize;
            for &q in &elems[lo as usize..hi as usize] {
                assert!(
                    self.fin[q as usize] == self.fin[r]
                        && (0..k).all(|a| block[self.delta[q as usize * k + a] as usize] == block[self.delta[r * k + a] as usize]),
                    "reference partition is not stable"
                );
            }
        }
        // number the classes by first state
        let mut num = vec![u32::MAX; seg.len()];
        let mut c = 0;
        for q in 0..n {
            let b = block[q] as usize;
            if num[b] == u32::MAX {
                num[b] = c;
                c += 1;
            }
            block[q] = num[b];
        }
        (block, seg.len())
    }

    /// canonical minimal DFA of the language of state `init`
    pub fn minimize(&self, init: u32) -> Dfa {
        let k = self.k;
        // reachable part
        let mut idx = vec![u32::MAX; self.n()];
        let mut order = vec![init];
        idx[init as usize] = 0;
        let mut i = 0;
        while i < order.len() {
            let q = order[i];
            i += 1;
            for a in 0..k {
                let t = self.step(q, a);
                if idx[t as usize] == u32::MAX {
                    idx[t as usize] = order.len() as u32;
                    order.push(t);
                }
            }
        }
        let mut d = Dfa { k, delta: Vec::with_capacity(order.len() * k), fin: Vec::new() };
        for &q in &order {
            d.fin.push(self.fin[q as usize]);
            for a in 0..k {
                d.delta.push(idx[self.step(q, a) as usize]);
            }
        }
        let (cls, c) = d.moore();
        if c == d.n() {
            return d; // already BFS-numbered
        }
        // quotient, numbered in BFS order
        let mut rep = vec![u32::MAX; c];
        for q in 0..d.n() {
            if rep[cls[q] as usize] == u32::MAX {
                rep[cls[q] as usize] = q as u32;
            }
        }
        let mut num = vec![u32::MAX; c];
        let mut order = vec![cls[0]];
        num[cls[0] as usize] = 0;
        let mut r = Dfa { k, delta: Vec::with_capacity(c * k), fin: Vec::with_capacity(c) };
        let mut i = 0;
        while i < order.len() {
            let q = rep[order[i] as usize];
            i += 1;
            r.fin.push(d.fin[q as usize]);
            for a in 0..k {
                let t = cls[d.step(q, a) as usize] as usize;
                if num[t] == u32::MAX {
                    num[t] = order.len() as u32;
                    order.push(t as u32);
                }
                r.delta.push(num[t]);
            }
        }
        r
    }

    pub fn comp(&self) -> Dfa {
        let mut d = self.clone();
        for f in d.fin.iter_mut() {
            *f = !*f;
        }
        d
    }

    pub fn product(&self, o: &Dfa, cap: usize, f: impl Fn(bool, bool) -> bool) -> Res {
        assert_eq!(self.k, o.k);
        let k = self.k;
        let mut map: HashMap<(u32, u32), u32> = HashMap::new();
        let mut order = vec![(0u32, 0u32)];
        map.insert((0, 0), 0);
        let mut d = Dfa { k, delta: vec![], fin: vec![] };
        let mut i = 0;
        while i < order.len() {
            let (p, q) = order[i];
            i += 1;
            d.fin.push(f(self.fin[p as usize], o.fin[q as usize]));
            for a in 0..k {
                let t = (self.step(p, a), o.step(q, a));
                let m = order.len() as u32;
                let id = *map.entry(t).or_insert(m);
                if id == m {
                    if order.len() >= cap {
                        return Err(TooBig);
                    }
                    order.push(t);
                }
                d.delta.push(id);
            }
        }
        Ok(d.minimize(0))
    }
    pub fn union(&self, o: &Dfa, cap: usize) -> Res {
        self.product(o, cap, |a, b| a || b)
    }
    pub fn inter(&self, o: &Dfa, cap: usize) -> Res {
        self.product(o, cap, |a, b| a && b)
    }
    pub fn diff(&self, o: &Dfa, cap: usize) -> Res {
        self.product(o, cap, |a, b| a && !b)
    }

    /// a shortest word (atoms) of L(self) \ L(o), if any
    pub fn not_included(&self, o: &Dfa) -> Option<Vec<usize>> {
        let k = self.k;
        let mut map: HashMap<(u32, u32), (usize, usize)> = HashMap::new();
        let mut order = vec![(0u32, 0u32)];
        map.insert((0, 0), (usize::MAX, 0));
        let mut i = 0;
        while i < order.len() {
            let (p, q) = order[i];
            if self.fin[p as usize] && !o.fin[q as usize] {
                let mut w = vec![];
                let mut cur = order[i];
                loop {
                    let (pre, a) = map[&cur];
                    if pre == usize::MAX {
                        break;
                    }
                    w.push(a);
                    cur = order[pre];
                }
                w.reverse();
                return Some(w);
            }
            for a in 0..k {
                let t = (self.step(p, a), o.step(q, a));
                if let std::collections::hash_map::Entry::Vacant(e) = map.entry(t) {
                    e.insert((i, a));
                    order.push(t);
                }
            }
            i += 1;
        }
        None
    }

    pub fn concat(&self, o: &Dfa, cap: usize) -> Res {
        let k = self.k;
        if self.is_empty() || o.is_empty() {
            return Ok(Dfa::empty(k));
        }
        if self.is_eps() {
            return Ok(o.clone());
        }
        if o.is_eps() {
            return Ok(self.clone());
        }
        let live = o.live();
        let mut map: HashMap<(u32, Vec<u32>), u32> = HashMap::new();
        let start = (0u32, if self.fin[0] { vec![0u32] } else { vec![] });
        let mut order = vec![start.clone()];
        map.insert(start, 0);
        let mut d = Dfa { k, delta: vec![], fin: vec![] };
        let mut i = 0;
        while i < order.len() {
            let (p, s) = order[i].clone();
            i += 1;
            d.fin.push(s.iter().any(|&q| o.fin[q as usize]));
            for a in 0..k {
                let p2 = self.step(p, a);
                let mut s2: Vec<u32> = s
                    .iter()
                    .map(|&q| o.step(q, a))
                    .filter(|&q| live[q as usize])
                    .collect();
                if self.fin[p2 as usize] {
                    s2.push(0);
                }
                s2.sort_unstable();
                s2.dedup();
                let m = order.len() as u32;
                let key = (p2, s2);
                let id = match map.get(&key) {
                    Some(&id) => id,
                    None => {
                        if order.len() >= cap {
                            return Err(TooBig);
                        }
                        map.insert(key.clone(), m);
                        order.push(key);
                        m
                    }
                };
                d.delta.push(id);
            }
        }
        Ok(d.minimize(0))
    }

    pub fn star(&self, cap: usize) -> Res {
        let k = self.k;
        if self.is_empty() || self.is_eps() {
            return Ok(Dfa::eps(k));
        }
        let live = self.live();
        // key: (is the very first state, set of states)
        let mut map: HashMap<(bool, Vec<u32>), u32> = HashMap::new();
        let start = (true, vec![0u32]);
        let mut order = vec![start.clone()];
        map.insert(start, 0);
        let mut d = Dfa { k, delta: vec![], fin: vec![] };
        let mut i = 0;
        while i < order.len() {
            let (first, s) = order[i].clone();
            i += 1;
            d.fin.push(first || s.iter().any(|&q| self.fin[q as usize]));
            for a in 0..k {
                let mut s2: Vec<u32> = s
                    .iter()
                    .map(|&q| self.step(q, a))
                    .filter(|&q| live[q as usize])
                    .collect();
                if s2.iter().any(|&q| self.fin[q as usize]) {
                    s2.push(0);
                }
                s2.sort_unstable();
                s2.dedup();
                let key = (false, s2);
                let m = order.len() as u32;
                let id = match map.get(&key) {
                    Some(&id) => id,
                    None => {
                        if order.len() >= cap {
                            return Err(TooBig);
                        }
                        map.insert(key.clone(), m);
                        order.push(key);
                        m
                    }
                };
                d.delta.push(id);
            }
        }
        Ok(d.minimize(0))
    }

    pub fn power(&self, mut e: u32, cap: usize) -> Res {
        let mut r = Dfa::eps(self.k);
        if e == 0 {
            return Ok(r);
        }
        if self.is_empty() || self.is_eps() {
            return Ok(self.clone());
        }
        let mut b = self.clone();
        loop {
            if e & 1 == 1 {
                r = r.concat(&b, cap)?;
            }
            e >>= 1;
            if e == 0 {
                return Ok(r);
            }
            let b2 = b.concat(&b, cap)?;
            if b2 == b {
                return r.concat(&b, cap);
            }
            b = b2;
        }
    }

    /// L^i ∪ ... ∪ L^j (j = None: no upper bound)
    pub fn loop_range(&self, i: u32, j: Option<u32>, cap: usize) -> Res {
        if let Some(j) = j {
            if i > j {
                return Ok(Dfa::empty(self.k));
            }
        }
        let head = self.power(i, cap)?;
        let tail = match j {
            None => self.star(cap)?,
            Some(j) => self.union(&Dfa::eps(self.k), cap)?.power(j - i, cap)?,
        };
        head.concat(&tail, cap)
    }

    /// residual language of state q
    pub fn residual(&self, q: u32) -> Dfa {
        self.minimize(q)
    }

    /// shortest accepted word from state q
    pub fn shortest(&self, q0: u32) -> Option<Vec<usize>> {
        let n = self.n();
        let mut pre: Vec<Option<(u32, usize)>> = vec![None; n];
        let mut seen = vec![false; n];
        let mut queue = vec![q0];
        seen[q0 as usize] = true;
        let mut i = 0;
        while i < queue.len() {
            let q = queue[i];
            i += 1;
            if self.fin[q as usize] {
                let mut w = vec![];
                let mut c = q;
                while let Some((p, a)) = pre[c as usize] {
                    w.push(a);
                    c = p;
                }
                w.reverse();
                return Some(w);
            }
            for a in 0..self.k {
                let t = self.step(q, a);
                if !seen[t as usize] {
                    seen[t as usize] = true;
                    pre[t as usize] = Some((q, a));
                    queue.push(t);
                }
            }
        }
        None
    }
}
