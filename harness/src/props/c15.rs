//! C15: LoopRange arithmetic equals arithmetic on the sets of naturals it denotes.

use crate::ctx::*;
use crate::ensure;
use crate::rng::*;
use crate::Family;
use aws_smt_strings::loop_ranges::LoopRange;

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "small", quick: 66, thorough: 190, enumerated: true, run: small },
        Family { name: "boundary", quick: 350, thorough: 779, enumerated: true, run: boundary },
        Family { name: "random", quick: 2_000_000, thorough: 300_000_000, enumerated: false, run: random },
        Family { name: "gaps", quick: 1_000_000, thorough: 150_000_000, enumerated: false, run: gaps },
    ]
}

/// a non-empty upward-closed or finite interval
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Set {
    a: u128,
    b: Option<u128>,
}

type Spec = (u32, Option<u32>);

fn mk(s: Spec) -> LoopRange {
    match s {
        (a, None) => LoopRange::infinite(a),
        (a, Some(b)) => LoopRange::finite(a, b),
    }
}

fn set(s: Spec) -> Set {
    Set { a: s.0 as u128, b: s.1.map(|x| x as u128) }
}

fn show(s: Spec) -> String {
    match s {
        (a, None) => format!("[{a}, inf)"),
        (a, Some(b)) => format!("[{a}, {b}]"),
    }
}

impl Set {
    fn fits(&self) -> bool {
        self.a <= u32::MAX as u128 && self.b.is_none_or(|b| b <= u32::MAX as u128)
    }
    fn range(&self) -> LoopRange {
        match self.b {
            None => LoopRange::infinite(self.a as u32),
            Some(b) => LoopRange::finite(self.a as u32, b as u32),
        }
    }
    fn add(&self, o: &Set) -> Set {
        Set { a: self.a + o.a, b: self.b.and_then(|x| o.b.map(|y| x + y)) }
    }
    /// sums of y elements
    fn fold(&self, y: u128) -> Set {
        if y == 0 {
            Set { a: 0, b: Some(0) }
        } else {
            Set { a: self.a * y, b: self.b.map(|b| b * y) }
        }
    }
    /// smallest interval that contains all products
    fn product_hull(&self, o: &Set) -> Set {
        let hi = if self.b == Some(0) || o.b == Some(0) {
            Some(0)
        } else {
            self.b.and_then(|x| o.b.map(|y| x * y))
        };
        Set { a: self.a * o.a, b: hi }
    }
}

/// is the union of the y-fold sums of r, for y in s, an interval? (it then is the product hull)
fn no_gap(r: &Set, s: &Set) -> bool {
    if s.b == Some(s.a) {
        return true;
    }
    // [y*a, y*b] and [(y+1)*a, (y+1)*b] must touch for all y in s except the last.
    // With y = 0 the first is {0}. The gap (y+1)*a - y*b decreases with y (a <= b), so
    // it is enough to look at the first y.
    let y = s.a;
    let lo = r.fold(y);
    let hi = r.fold(y + 1);
    match lo.b {
        None => true,
        Some(e) => hi.a <= e + 1,
    }
}

/// operation whose exact result is `want`: a panic is allowed only when it does not fit
fn op(c: &mut Ctx, want: Set, f: impl FnOnce() -> LoopRange, name: impl Fn() -> String) -> Result<bool, String> {
    c.count("operations", 1);
    match catch(f) {
        Caught::Ok(g) => {
            ensure!(want.fits(), "{} = {g:?}, the exact result {want:?} does not fit in 32 bits", name());
            ensure!(g == want.range(), "{} = {g:?}, expected {want:?}", name());
            Ok(true)
        }
        Caught::Panic(l, m) => {
            ensure!(!want.fits(), "{} panicked ({l}: {m}), expected {want:?}", name());
            c.count("overflow_panics", 1);
            Ok(false)
        }
    }
}

fn check_one(c: &mut Ctx, s: Spec, pts: &[u32]) -> R {
    let (x, sx) = (mk(s), set(s));
    let n = |f: &str| format!("{}.{f}", show(s));
    for &p in pts {
        let want = s.0 <= p && s.1.is_none_or(|b| p <= b);
        ensure!(x.contains(p) == want, "{}({p}) = {}", n("contains"), !want);
    }
    ensure!(x.start() == s.0, "{}() = {}", n("start"), x.start());
    ensure!(x.is_finite() == s.1.is_some(), "{}()", n("is_finite"));
    ensure!(x.is_infinite() == s.1.is_none(), "{}()", n("is_infinite"));
    ensure!(x.is_point() == (s.1 == Some(s.0)), "{}()", n("is_point"));
    ensure!(x.is_zero() == (s == (0, Some(0))), "{}()", n("is_zero"));
    ensure!(x.is_one() == (s == (1, Some(1))), "{}()", n("is_one"));
    ensure!(x.is_all() == (s == (0, None)), "{}()", n("is_all"));
    if s.1 == Some(s.0) {
        ensure!(x == LoopRange::point(s.0), "point({}) is not {}", s.0, show(s));
    }
    ensure!((x == LoopRange::opt()) == (s == (0, Some(1))), "{} == opt", show(s));
    ensure!((x == LoopRange::star()) == (s == (0, None)), "{} == star", show(s));
    ensure!((x == LoopRange::plus()) == (s == (1, None)), "{} == plus", show(s));
    // predecessors, 0 is kept
    let want = Set { a: sx.a.saturating_sub(1), b: sx.b.map(|b| b.saturating_sub(1)) };
    op(c, want, || x.shift(), || n("shift()"))?;
    for &k in pts {
        op(c, sx.fold(k as u128), || x.scale(k), || n(&format!("scale({k})")))?;
        op(c, sx.add(&Set { a: k as u128, b: Some(k as u128) }), || x.add_point(k), || n(&format!("add_point({k})")))?;
    }
    Ok(())
}

fn check_pair(c: &mut Ctx, s: Spec, t: Spec) -> R {
    let (x, y) = (mk(s), mk(t));
    let (sx, sy) = (set(s), set(t));
    let n = |f: &str| format!("{}.{f}({})", show(s), show(t));
    op(c, sx.add(&sy), || x.add(&y), || n("add"))?;
    let inc = s.0 <= t.0 && (s.1.is_none() || t.1.is_some_and(|b| b <= s.1.unwrap()));
    ensure!(x.includes(&y) == inc, "{} = {}", n("includes"), !inc);
    ensure!((x == y) == (s == t), "{}", n("=="));
    // mul: contains all products
    let hull = sx.product_hull(&sy);
    c.count("operations", 1);
    let m = match catch(|| x.mul(&y)) {
        Caught::Ok(g) => {
            ensure!(hull.fits(), "{} = {g:?}, the products {hull:?} don't fit in 32 bits", n("mul"));
            let lo = g.contains(hull.a as u32);
            let hi = match hull.b {
                None => g.is_infinite(),
                Some(b) => g.contains(b as u32),
            };
            ensure!(lo && hi, "{} = {g:?} doesn't contain all products: {hull:?}", n("mul"));
            Some(g)
        }
        Caught::Panic(l, p) => {
            ensure!(!hull.fits(), "{} panicked ({l}: {p}), the products are in {hull:?}", n("mul"));
            c.count("overflow_panics", 1);
            None
        }
    };
    let e = x.right_mul_is_exact(&y);
    c.count("exactness_tests", 1);
    if let Some(m) = m {
        let want = no_gap(&sx, &sy) && m == hull.range();
        c.count(if want { "exact" } else { "not_exact" }, 1);
        ensure!(e == want, "{} = {e}, the product is {m:?}", n("right_mul_is_exact"));
    } else if e {
        ensure!(no_gap(&sx, &sy), "{} although there is a gap", n("right_mul_is_exact"));
    }
    Ok(())
}

/// independent brute force: bit sets of the naturals below LIM
const LIM: usize = 512;
type Bits = [u64; LIM / 64];

fn bits(s: Spec) -> Bits {
    let mut b = [0; LIM / 64];
    for i in 0..LIM as u32 {
        if s.0 <= i && s.1.is_none_or(|e| i <= e) {
            b[i as usize / 64] |= 1 << (i % 64);
        }
    }
    b
}

fn range_bits(r: &LoopRange) -> Bits {
    let mut b = [0; LIM / 64];
    for i in 0..LIM {
        if r.contains(i as u32) {
            b[i / 64] |= 1 << (i % 64);
        }
    }
    b
}

fn elems(b: &Bits) -> impl Iterator<Item = usize> + '_ {
    (0..LIM).filter(|i| b[i / 64] >> (i % 64) & 1 == 1)
}

fn sums(x: &Bits, y: &Bits, lim: usize) -> Bits {
    let mut b = [0; LIM / 64];
    for i in elems(x).take_while(|&i| i < lim) {
        for j in elems(y).take_while(|&j| i + j < lim) {
            b[(i + j) / 64] |= 1 << ((i + j) % 64);
        }
    }
    b
}

fn prefix(b: &Bits, lim: usize) -> Vec<usize> {
    elems(b).take_while(|&i| i < lim).collect()
}

fn small(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    let n = if c.tier == Tier::Quick { 10 } else { 18 };
    let mut v: Vec<Spec> = vec![];
    for i in 0..=n {
        for j in i..=n {
            v.push((i, Some(j)));
        }
    }
    // 66 or 190 finite ranges; with the infinite ones
    for i in 0..=n {
        v.push((i, None));
    }
    let lim = 140;
    let mut mine = vec![v[idx as usize]];
    let fin = (v.len() - n as usize - 1) as u64;
    if idx + fin < v.len() as u64 {
        mine.push(v[(idx + fin) as usize]);
    }
    let pts: Vec<u32> = (0..=n + 2).chain([255, 256, 65536, u32::MAX - 1, u32::MAX]).collect();
    for s in mine {
        check_one(c, s, &pts)?;
        let (x, bx) = (mk(s), bits(s));
        // predecessors
        let mut pre: Vec<usize> = elems(&bx).map(|i| i.saturating_sub(1)).filter(|&i| i < lim).collect();
        pre.dedup();
        ensure!(prefix(&range_bits(&x.shift()), lim) == pre, "{}.shift() = {:?}", show(s), x.shift());
        for &t in &v {
            check_pair(c, s, t)?;
            let (y, by) = (mk(t), bits(t));
            let want = sums(&bx, &by, lim);
            ensure!(prefix(&range_bits(&x.add(&y)), lim) == prefix(&want, lim), "{}.add({}) = {:?}", show(s), show(t), x.add(&y));
            let m = x.mul(&y);
            for i in prefix(&bx, 24) {
                for j in prefix(&by, 24) {
                    ensure!(m.contains((i * j) as u32), "{}.mul({}) = {m:?} does not contain {i}*{j}", show(s), show(t));
                }
            }
            // union of the folds, computed by repeated sums
            let mut fold = bits((0, Some(0)));
            let mut all = [0; LIM / 64];
            for k in 0..=lim as u32 {
                if by[k as usize / 64] >> (k % 64) & 1 == 1 {
                    for w in 0..all.len() {
                        all[w] |= fold[w];
                    }
                }
                if t.1.is_some_and(|e| k >= e) || k > 40 {
                    break;
                }
                fold = sums(&fold, &bx, lim);
                if k <= n + 1 {
                    ensure!(
                        prefix(&range_bits(&x.scale(k + 1)), lim) == prefix(&fold, lim),
                        "{}.scale({}) = {:?}",
                        show(s),
                        k + 1,
                        x.scale(k + 1)
                    );
                }
            }
            // only up to 40 are certain to be complete when s may contain 1 (k stops after 41)
            let l = if t.1.is_none() { 40 } else { lim };
            let brute = prefix(&all, l) == prefix(&range_bits(&m), l);
            // a gap, if any, is below 40 when t is infinite: the first gap starts at y*b+1 with
            // y = start of t and b <= end of s; only test when it is in range
            let visible = t.1.is_some() || (t.0 * s.1.unwrap_or(0).max(s.0) + s.0) < 40;
            let e = x.right_mul_is_exact(&y);
            if visible {
                c.count("brute_force_products", 1);
                ensure!(e == brute, "{}.right_mul_is_exact({}) = {e}, by enumeration {brute}", show(s), show(t));
            }
            c.evals += 1;
            c.enumerated += 1;
        }
    }
    c.sample(|| show(v[idx as usize]));
    Ok(())
}

fn limits(tier: Tier) -> Vec<u32> {
    let mut v = vec![
        0, 1, 2, 3, 4, 5, 7, 0xFFFF, 0x10000, 0x10001, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFD, 0xFFFFFFFE, 0xFFFFFFFF, 46341, 46340, 65521, 0xAAAAAAAA,
        0x55555555, 0x55555556, 0x40000000, 0x3FFFFFFF, 100,
    ];
    if tier == Tier::Thorough {
        v.extend([6, 10, 11, 255, 256, 257, 0x1FFFF, 0x1000000, 0xFFFFFF, 1000003, 715827882, 715827883, 613566756]);
    }
    v.sort_unstable();
    v
}

fn boundary(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    let p = limits(c.tier);
    let mut v: Vec<Spec> = vec![];
    for i in 0..p.len() {
        for j in i..p.len() {
            v.push((p[i], Some(p[j])));
        }
        v.push((p[i], None));
    }
    let Some(&s) = v.get(idx as usize) else { return Err(format!("HARNESS {} ranges", v.len())) };
    if idx == 0 {
        let q = if c.tier == Tier::Quick { 350 } else { 779 };
        ensure!(v.len() == q, "HARNESS {} ranges", v.len());
    }
    check_one(c, s, &p)?;
    for &t in &v {
        check_pair(c, s, t)?;
        c.evals += 1;
        c.enumerated += 1;
    }
    Ok(())
}

fn rand_num(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => r.below(5) as u32,
        1 => r.below(100) as u32,
        2 => u32::MAX - r.below(5) as u32,
        3 => 65536 - 50 + r.below(100) as u32,
        _ => (r.next() as u32) >> r.below(32),
    }
}

fn rand_spec(r: &mut Rng) -> Spec {
    let (a, b) = (rand_num(r), rand_num(r));
    match r.below(5) {
        0 => (a, None),
        1 => (a, Some(a)),
        2 => (a, Some(a.saturating_add(r.below(4) as u32))),
        _ => (a.min(b), Some(a.max(b))),
    }
}

fn hash(c: &mut Ctx, s: Spec, t: Spec) {
    let mut h = H::new();
    h.u(s.0 as u64).u(s.1.map_or(u64::MAX, |x| x as u64)).u(t.0 as u64).u(t.1.map_or(u64::MAX, |x| x as u64));
    c.case(h.0);
}

fn random(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let (s, t) = (rand_spec(r), rand_spec(r));
    hash(c, s, t);
    c.sample(|| format!("{} {}", show(s), show(t)));
    let pts = [t.0, t.1.unwrap_or(t.0), s.0, s.1.unwrap_or(0), s.0.wrapping_sub(1), s.1.unwrap_or(0).wrapping_add(1)];
    check_one(c, s, &pts)?;
    check_pair(c, s, t)
}

/// ranges near the gap criterion: c*(b-a) close to a-1
fn gaps(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let a = (rand_num(r) as u64).min(u32::MAX as u64 - 70000);
    let width = (rand_num(r) as u64) >> r.below(20);
    let b = (a + width).min(u32::MAX as u64);
    let w = (b - a).max(1);
    let c0 = (a.saturating_sub(1) / w) as i64 + r.below(5) as i64 - 2;
    let c0 = c0.clamp(0, u32::MAX as i64) as u32;
    let t = match r.below(3) {
        0 => (c0, None),
        1 => (c0, Some(c0.saturating_add(1))),
        _ => (c0, Some(c0.saturating_add(r.below(1000) as u32))),
    };
    let s = if r.chance(1, 10) { (a as u32, None) } else { (a as u32, Some(b as u32)) };
    hash(c, s, t);
    check_pair(c, s, t)
}
