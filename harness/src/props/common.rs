//! Pieces shared by the regular-expression properties.

use crate::ctx::*;
use crate::dfa::*;
use crate::ensure;
use crate::rng::*;
use crate::rx::*;
use crate::walk::*;
use aws_smt_strings::regular_expressions::{ReManager, RegLan};
use std::cell::OnceCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static SMALL: OnceCell<(Prog, Vec<Dfa>)> = const { OnceCell::new() };
}

pub fn small_alpha() -> Alpha {
    Alpha::new(vec![97, 98, 99])
}

/// all expressions of depth <= 1 over 8 leaves, with their DFAs
pub fn small_terms() -> (Prog, Vec<Dfa>) {
    SMALL.with(|s| {
        s.get_or_init(|| {
            let mut p = Prog::default();
            p.add(Op::Empty);
            p.add(Op::Full);
            p.add(Op::AllChar);
            p.add(Op::Eps);
            p.add(Op::SigmaPlus);
            p.add(Op::Char(97));
            p.add(Op::Char(98));
            p.add(Op::Range(97, 98));
            let n = p.ops.len();
            for x in 0..n {
                for op in small_unary(x) {
                    p.add(op);
                }
                for y in 0..n {
                    p.add(Op::Concat(x, y));
                    p.add(Op::Union(x, y));
                    p.add(Op::Inter(x, y));
                    p.add(Op::Diff(x, y));
                }
            }
            let al = small_alpha();
            let d = p.dfas(&al, 1000).into_iter().map(|x| x.unwrap()).collect();
            (p, d)
        })
        .clone()
    })
}

pub fn small_unary(x: usize) -> Vec<Op> {
    vec![
        Op::Comp(x),
        Op::Star(x),
        Op::Plus(x),
        Op::Opt(x),
        Op::Exp(x, 0),
        Op::Exp(x, 1),
        Op::Exp(x, 2),
        Op::Exp(x, 3),
        Op::SmtLoop(x, 0, 2),
        Op::SmtLoop(x, 1, 2),
        Op::SmtLoop(x, 2, 3),
        Op::SmtLoop(x, 2, 1),
        Op::MkLoop(x, 2, None),
    ]
}

pub fn dfas_opt(d: &[Dfa]) -> Vec<Option<Dfa>> {
    d.iter().map(|x| Some(x.clone())).collect()
}

/// Number of iterated derivatives if at most cap, computed with char_derivative on class
/// boundaries (not with the crate's iterator).
pub fn derivative_count(re: &mut ReManager, e: RegLan, cap: usize) -> Option<usize> {
    closure(re, e, cap).map(|v| v.len())
}

pub fn closure(re: &mut ReManager, e: RegLan, cap: usize) -> Option<Vec<RegLan>> {
    let mut seen = std::collections::HashSet::new();
    let mut order = vec![e];
    seen.insert(e as *const _);
    let mut i = 0;
    let none = Alpha::new(vec![]);
    while i < order.len() {
        let x = order[i];
        i += 1;
        for c in rep_chars(&none, &all_bounds(x.char_ranges())) {
            let y = re.char_derivative(x, c);
            if seen.insert(y as *const _) {
                if order.len() >= cap {
                    return None;
                }
                order.push(y);
            }
        }
    }
    Some(order)
}

/// Build p in re; check nullable of every node and the language of the root (all words, by a
/// product walk) and, if rng is given, membership of some words through the public test.
pub fn check_prog(
    c: &mut Ctx,
    p: &Prog,
    re: &mut ReManager,
    ref_cap: usize,
    walk_cap: usize,
    rng: Option<&mut Rng>,
) -> R {
    let al = p.alpha();
    let t = p.build(re);
    let dfas = p.dfas(&al, ref_cap);
    let eps = p.mats(&[]);
    c.evals += if rng.is_none() { 1 } else { 0 };
    for i in 0..p.ops.len() {
        let want = eps[i].get(0, 0);
        if let Some(d) = &dfas[i] {
            if d.fin[0] != want {
                return Err(format!("HARNESS reference semantics disagree on epsilon for {}", p.show(i)));
            }
        }
        c.count("nullable_checks", 1);
        ensure!(t[i].nullable == want, "nullable is {} for {}", t[i].nullable, p.show(i));
    }
    for f in p.features() {
        c.count(&format!("op_{f}"), 1);
    }
    let root = p.root();
    if let Some(d) = &dfas[root] {
        let s = check_term(re, t[root], d, 0, &al, walk_cap).map_err(|e| format!("{}: {e}", p.show(root)))?;
        c.count("walk_pairs", s.pairs as u64);
        c.count("char_steps", s.steps as u64);
        c.count(if s.complete { "walks_complete" } else { "walks_capped" }, 1);
    } else {
        c.count("ref_capped", 1);
    }
    if let Some(rng) = rng {
        for k in 0..6 {
            let word = match &dfas[root] {
                Some(d) if k % 2 == 0 => guided_word(d, &al, 10, rng),
                _ => rand_word(&al, 6, rng),
            };
            let want = p.mats(&word)[root].get(0, word.len());
            if let Some(d) = &dfas[root] {
                if d.accepts(&al, &word) != want {
                    return Err(format!(
                        "HARNESS reference semantics disagree on {} in {}",
                        show_word(&word),
                        p.show(root)
                    ));
                }
            }
            let got = re.str_in_re(&sstr(&word), t[root]);
            c.count("membership_tests", 1);
            c.count(if want { "members" } else { "non_members" }, 1);
            ensure!(got == want, "str_in_re({}, {}) = {got}, expected {want}", show_word(&word), p.show(root));
        }
    }
    Ok(())
}

/// Run f in a fresh thread (fresh thread-local manager).
pub fn in_thread<T: Send>(f: impl FnOnce() -> Result<T, String> + Send) -> Result<T, String> {
    std::thread::scope(|scope| {
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(scope, move || match catch_unwind(AssertUnwindSafe(f)) {
                Ok(r) => r,
                Err(_) => {
                    let (loc, msg) = last_panic();
                    if is_harness(&loc) {
                        Err(format!("HARNESS panic at {loc}: {msg}"))
                    } else {
                        Err(format!("the code under test panicked at {loc}: {msg}"))
                    }
                }
            })
            .expect("harness: spawn");
        h.join().unwrap_or_else(|_| Err("HARNESS thread died".into()))
    })
}

/// A program from one of several families of shapes.
pub fn diverse(r: &mut Rng) -> Prog {
    match r.below(15) {
        12..=14 => related(r),
        0..=5 => {
            let g = Gen::random(r);
            let budget = r.range(2, 14) as usize;
            g.prog(budget, r)
        }
        6 => {
            // unions / intersections of patterns
            let pal = *r.pick(PALETTES);
            let mut p = Prog::default();
            let n = r.range(1, 4);
            let mut l = vec![];
            for _ in 0..n {
                let it: Vec<Item> = (0..r.range(1, 5)).map(|_| rand_item(pal, r)).collect();
                l.push(add_pattern(&mut p, &it));
            }
            let op = if r.chance(2, 3) { Op::UnionL(l) } else { Op::InterL(l) };
            p.add(op);
            p
        }
        7 => dictionary(r),
        8 => modular(r),
        9 => near_empty(r),
        10 => wide(r),
        _ => {
            // boolean combination of two random expressions and their complements
            let g = Gen::random(r);
            let mut p = Prog::default();
            let x = g.gen(&mut p, 5, r);
            let y = g.gen(&mut p, 5, r);
            let cx = p.add(Op::Comp(x));
            let cy = p.add(Op::Comp(y));
            let u = p.add(Op::Union(x, cy));
            let v = p.add(Op::Inter(cx, y));
            let z = g.gen(&mut p, 3, r);
            let w = p.add(Op::Concat(u, z));
            match r.below(3) {
                0 => p.add(Op::Diff(w, v)),
                1 => p.add(Op::Union(w, v)),
                _ => p.add(Op::Inter(w, u)),
            };
            p
        }
    }
}

/// Combinations of expressions made of the same parts: variants of one operand behind the same or
/// different prefixes, before the same suffix, in loops with different bounds, under complements.
pub fn related(r: &mut Rng) -> Prog {
    let mut g = Gen::random(r);
    if r.chance(1, 2) {
        // two or three letters: everything overlaps
        let n = r.range(2, 3) as usize;
        g.palette.truncate(n);
    }
    let mut p = Prog::default();
    let mut pool: Vec<usize> = vec![];
    for _ in 0..r.range(1, 3) {
        let x = if r.chance(1, 2) {
            let it: Vec<Item> = (0..r.range(1, 3)).map(|_| loopy_item(&g.palette, r)).collect();
            add_pattern(&mut p, &it)
        } else {
            let n = r.range(1, 4) as usize;
            g.gen(&mut p, n, r)
        };
        pool.push(x);
    }
    for _ in 0..r.range(1, 3) {
        let x = *r.pick(&pool);
        let y = if r.chance(3, 4) { variant(&g, &mut p, x, r) } else { *r.pick(&pool) };
        let n = r.range(2, 3) as usize;
        let l = match r.below(7) {
            6 => {
                // patterns with the same first (or last) items
                let item = |r: &mut Rng| loopy_item(&g.palette, r);
                let same: Vec<Item> = (0..r.range(1, 2)).map(|_| item(r)).collect();
                let front = r.chance(2, 3);
                (0..n)
                    .map(|_| {
                        let mut rest: Vec<Item> = (0..r.below(3)).map(|_| item(r)).collect();
                        if front {
                            rest.splice(0..0, same.iter().cloned());
                        } else {
                            rest.extend(same.iter().cloned());
                        }
                        add_pattern(&mut p, &rest)
                    })
                    .collect()
            }
            0 | 1 => {
                // the same prefix, often a loop
                let f = part(&g, &mut p, &pool, r);
                let mut l = vec![p.add(Op::Concat(f, x)), p.add(Op::Concat(f, y))];
                if n == 3 {
                    let z = variant(&g, &mut p, y, r);
                    l.push(p.add(Op::Concat(f, z)));
                }
                l
            }
            2 => {
                let f = part(&g, &mut p, &pool, r);
                vec![p.add(Op::Concat(x, f)), p.add(Op::Concat(y, f))]
            }
            3 => {
                // different letters in front
                let mut cs = g.palette.clone();
                r.shuffle(&mut cs);
                let mut l = vec![];
                let mut z = x;
                for c in cs.into_iter().take(n) {
                    let a = p.add(Op::Char(c));
                    l.push(p.add(Op::Concat(a, z)));
                    z = if z == x { y } else { variant(&g, &mut p, x, r) };
                }
                l
            }
            4 => {
                let (o1, o2) = (g.loop_op(x, r), g.loop_op(if r.chance(1, 2) { x } else { y }, r));
                let (u, v) = (p.add(o1), p.add(o2));
                if r.chance(1, 2) {
                    let w = p.add(Op::Concat(u, v));
                    let t = variant(&g, &mut p, x, r);
                    vec![w, t]
                } else {
                    vec![u, v]
                }
            }
            _ => {
                // laws of De Morgan, almost
                let u = if r.chance(1, 2) { p.add(Op::Union(x, y)) } else { p.add(Op::Inter(x, y)) };
                let (cx, cy) = (p.add(Op::Comp(x)), p.add(Op::Comp(y)));
                let v = if r.chance(1, 2) { p.add(Op::Union(cx, cy)) } else { p.add(Op::Inter(cx, cy)) };
                vec![u, v]
            }
        };
        let z = match r.below(8) {
            0..=2 => p.add(Op::UnionL(l)),
            3..=5 => p.add(Op::InterL(l)),
            6 => p.add(Op::DiffL(l[0], l[1..].to_vec())),
            _ => p.add(Op::ConcatL(l)),
        };
        pool.push(z);
    }
    p
}

/// like rand_item with more loops over letters
fn loopy_item(pal: &[u32], r: &mut Rng) -> Item {
    let (c, d) = (*r.pick(pal), *r.pick(pal));
    let (a, b) = match r.below(3) {
        0 => (c.min(d), c.max(d)),
        _ => (c, c),
    };
    match r.below(8) {
        0 => rand_item(pal, r),
        1..=4 => Item::Set(a, b),
        5 => {
            let i = r.below(3) as u32;
            Item::Rep(a, b, i, Some(i + r.below(3) as u32))
        }
        _ => Item::Rep(a, b, r.below(3) as u32, None),
    }
}

/// an expression made of x
fn variant(g: &Gen, p: &mut Prog, x: usize, r: &mut Rng) -> usize {
    let op = match r.below(8) {
        0 | 1 => Op::Comp(x),
        2 | 3 => g.loop_op(x, r),
        4 => {
            let a = g.leaf(r);
            let a = p.add(a);
            Op::Concat(a, x)
        }
        5 => {
            let a = g.leaf(r);
            let a = p.add(a);
            Op::Concat(x, a)
        }
        6 => {
            let a = g.leaf(r);
            let a = p.add(a);
            Op::Union(a, x)
        }
        _ => Op::Concat(x, x),
    };
    p.add(op)
}

/// a prefix or suffix: a loop over a leaf, a leaf, or something used already
fn part(g: &Gen, p: &mut Prog, pool: &[usize], r: &mut Rng) -> usize {
    match r.below(4) {
        0 => *r.pick(pool),
        1 => {
            let a = g.leaf(r);
            p.add(a)
        }
        _ => {
            let a = g.leaf(r);
            let a = p.add(a);
            let op = g.loop_op(a, r);
            p.add(op)
        }
    }
}

/// union of words (trie-like automata, many one-character transitions)
pub fn dictionary(r: &mut Rng) -> Prog {
    let mut p = Prog::default();
    let pal = *r.pick(PALETTES);
    let n = r.range(1, 9);
    let len = r.range(1, 6);
    let mut l = vec![];
    for _ in 0..n {
        let w: Vec<u32> = (0..r.below(len + 1)).map(|_| *r.pick(pal)).collect();
        l.push(p.add(Op::Str(w)));
    }
    let u = p.add(Op::UnionL(l));
    match r.below(5) {
        0 => {
            p.add(Op::Star(u));
        }
        1 => {
            p.add(Op::Comp(u));
        }
        2 => {
            let s = p.add(Op::Full);
            p.add(Op::ConcatL(vec![s, u, s]));
        }
        3 => {
            p.add(Op::Exp(u, 2));
        }
        _ => {}
    }
    p
}

/// intersections of (a^m)* shapes: long shortest members, large automata
pub fn modular(r: &mut Rng) -> Prog {
    let mut p = Prog::default();
    let a = *r.pick(&[97u32, 0, MAXC]);
    let x = match r.below(3) {
        0 => p.add(Op::Char(a)),
        1 => p.add(Op::Range(a.saturating_sub(1), a)),
        _ => p.add(Op::AllChar),
    };
    let n = r.range(1, 3);
    let mut l = vec![];
    for _ in 0..n {
        let m = r.range(2, 7) as u32;
        let e = p.add(Op::Exp(x, m));
        let s = p.add(Op::Star(e));
        let s = match r.below(3) {
            0 => {
                let k = p.add(Op::Exp(x, r.below(m as u64) as u32));
                p.add(Op::Concat(k, s))
            }
            1 => p.add(Op::Comp(s)),
            _ => s,
        };
        l.push(s);
    }
    if r.chance(1, 2) {
        l.push(p.add(Op::SigmaPlus));
    }
    p.add(Op::InterL(l));
    if r.chance(1, 3) {
        let root = p.root();
        let y = p.add(Op::Char(98));
        p.add(Op::Concat(root, y));
    }
    p
}

/// expressions whose language is often empty without being syntactically empty
pub fn near_empty(r: &mut Rng) -> Prog {
    let g = Gen::random(r);
    let mut p = Prog::default();
    let x = g.gen(&mut p, 6, r);
    let y = if r.chance(1, 2) { x } else { g.gen(&mut p, 4, r) };
    // y2: something that contains or equals y
    let y2 = match r.below(5) {
        0 => p.add(Op::Star(y)),
        1 => p.add(Op::Opt(y)),
        2 => {
            let z = g.gen(&mut p, 3, r);
            p.add(Op::Union(y, z))
        }
        3 => {
            let e = p.add(Op::Plus(y));
            let o = p.add(Op::Opt(e));
            p.add(Op::Union(o, y))
        }
        _ => p.add(Op::MkLoop(y, 1, None)),
    };
    let e = match r.below(4) {
        0 => p.add(Op::Diff(x, y2)),
        1 => {
            let c = p.add(Op::Comp(y2));
            p.add(Op::Inter(c, x))
        }
        2 => {
            let f = p.add(Op::Full);
            let a = p.add(Op::Char(g.palette[0]));
            let b = p.add(Op::Char(g.palette[1]));
            let l = p.add(Op::Concat(f, a));
            let m = p.add(Op::Concat(f, b));
            p.add(Op::InterL(vec![x, l, m]))
        }
        _ => {
            let l = p.add(Op::Exp(x, 2));
            let c = p.add(Op::Comp(y2));
            p.add(Op::Inter(l, c))
        }
    };
    match r.below(5) {
        0 => {
            let z = g.gen(&mut p, 3, r);
            p.add(Op::Concat(z, e));
        }
        1 => {
            let z = g.gen(&mut p, 3, r);
            p.add(Op::Concat(e, z));
        }
        2 => {
            let z = g.gen(&mut p, 2, r);
            p.add(Op::Union(z, e));
        }
        3 => {
            let op = g.loop_op(e, r);
            p.add(op);
        }
        _ => {
            if p.root() != e {
                p.ops.truncate(e + 1);
            }
        }
    }
    p
}

/// many disjoint character ranges in one state
pub fn wide(r: &mut Rng) -> Prog {
    let mut p = Prog::default();
    let n = r.range(3, 14) as u32;
    let base = *r.pick(&[0u32, 97, 0xFFF0, MAXC - 60]);
    let width = r.range(1, 3) as u32;
    let gap = r.below(2) as u32;
    let tails: Vec<usize> = {
        let a = p.add(Op::Eps);
        let b = p.add(Op::Char(98));
        let f = p.add(Op::Full);
        let s = p.add(Op::Star(b));
        vec![a, b, f, s]
    };
    let mut l = vec![];
    let mut lo = base;
    for _ in 0..n {
        let hi = lo + width - 1;
        if hi > MAXC {
            break;
        }
        let x = p.add(Op::Range(lo, hi));
        let t = *r.pick(&tails);
        l.push(p.add(Op::Concat(x, t)));
        lo = hi + 1 + gap;
    }
    r.shuffle(&mut l);
    p.add(Op::UnionL(l));
    match r.below(4) {
        0 => {
            let x = p.root();
            p.add(Op::Star(x));
        }
        1 => {
            let x = p.root();
            p.add(Op::Comp(x));
        }
        _ => {}
    }
    p
}

/// Build a random program of manageable size: returns (program, terms, reference DFA of the root).
/// None (counted) when the reference or the number of derivatives exceeds the caps.
pub fn prepared(
    c: &mut Ctx,
    re: &mut ReManager,
    p: &Prog,
    ref_cap: usize,
    deriv_cap: usize,
) -> Option<(Vec<RegLan>, Alpha, Dfa)> {
    let al = p.alpha();
    let Some(d) = p.dfas(&al, ref_cap).pop().unwrap() else {
        c.count("ref_capped", 1);
        return None;
    };
    let t = p.build(re);
    if derivative_count(re, t[p.root()], deriv_cap).is_none() {
        c.count("deriv_capped", 1);
        return None;
    }
    Some((t, al, d))
}

/// shorten a message (words of thousands of characters)
pub fn cut(s: String) -> String {
    if s.chars().count() <= 600 {
        return s;
    }
    let v: Vec<char> = s.chars().collect();
    format!("{} ... {}", v[..300].iter().collect::<String>(), v[v.len() - 250..].iter().collect::<String>())
}

/// Build a deep expression in a manager of its own; None when it has too many derivatives
pub fn build_deep(c: &mut Ctx, x: &crate::props::deep::Deep, max: u64, re: &mut ReManager) -> Option<Vec<RegLan>> {
    if c.verbose {
        println!("  {}", x.p.show(x.p.root()));
    }
    let t = x.p.build(re);
    let n = {
        // counted elsewhere: re stays cold
        let mut probe = ReManager::new();
        let u = x.p.build(&mut probe);
        derivative_count(&mut probe, u[x.p.root()], 6 * max as usize + 100)
    };
    match n {
        None => {
            c.count("deriv_capped", 1);
            None
        }
        Some(n) => {
            c.case(x.p.hash());
            c.max("derivatives", n as u64);
            Some(t)
        }
    }
}

struct Capture(u64);
impl std::hash::Hasher for Capture {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b.iter().rev() {
            self.0 = self.0 << 8 | x as u64;
        }
    }
    fn write_usize(&mut self, x: usize) {
        self.0 = x as u64;
    }
}

/// what a term feeds to a hasher: its number when terms are hashed by their number
fn number(t: RegLan) -> u64 {
    use std::hash::Hash;
    let mut h = Capture(0);
    t.hash(&mut h);
    h.0
}

/// More than 2^16 (or 2^17) terms in one manager: programs checked before, and after, in such a
/// way that the numbers of early and late terms agree modulo a power of two.
pub fn crowded(c: &mut Ctx, r: &mut Rng, check: &mut dyn FnMut(&mut Ctx, &mut ReManager, &Prog, &mut Rng) -> R) -> R {
    let mut re = ReManager::new();
    let early: Vec<Prog> = (0..40).map(|_| diverse(r)).collect();
    for p in &early {
        check(c, &mut re, p, r).map_err(|e| format!("{}: {e}", p.show(p.root())))?;
    }
    let goal = *r.pick(&[1u64 << 16, 1 << 16, 1 << 17]) + r.below(300);
    let mut made = 0u64;
    let base = r.below(1 << 16) as u32;
    let mut prev = re.all_chars();
    for i in 0..200_000u32 {
        let lo = (base + i) % (MAXC + 1);
        let x = match i % 4 {
            0 => re.char(lo),
            1 => re.range(lo, MAXC),
            2 => re.concat(prev, prev),
            _ => re.star(prev),
        };
        made += 1;
        prev = x;
        let n = number(x);
        if (made..1 << 24).contains(&n) && n >= goal || made >= goal {
            break;
        }
    }
    c.max("terms_in_one_manager", made);
    let late: Vec<Prog> = (0..40).map(|_| diverse(r)).collect();
    for p in late.iter().chain(early.iter().take(10)) {
        check(c, &mut re, p, r).map_err(|e| format!("after {made} other terms: {}: {e}", p.show(p.root())))?;
    }
    Ok(())
}

/// The same through the SMT-LIB functions and the manager of one thread: terms made early and late,
/// and early terms combined with late ones.
pub fn crowded_wrappers(
    c: &mut Ctx,
    r: &mut Rng,
    check: &mut (dyn FnMut(&mut Ctx, &Prog, &[RegLan], &mut Rng) -> R + Send),
) -> R {
    use aws_smt_strings::smt_regular_expressions as w;
    in_thread(move || {
        let mut early: Vec<(Prog, Vec<RegLan>)> = vec![];
        let mut mixed: Vec<(Prog, Vec<RegLan>)> = vec![];
        for i in 0..60 {
            let p = diverse(r);
            if i % 2 == 0 {
                let t = p.build_wrap();
                check(c, &p, &t, r).map_err(|e| format!("{}: {e}", p.show(p.root())))?;
                early.push((p, t));
            } else {
                let mut t = vec![];
                for k in 0..r.us(p.ops.len()) {
                    t.push(p.build_wrap_op(k, &t));
                }
                mixed.push((p, t));
            }
        }
        let goal = *r.pick(&[1u64 << 16, 1 << 16, 1 << 17, 1 << 18]) + r.below(300);
        // which functions make the terms
        let kinds: Vec<u64> = (0..r.range(1, 8)).map(|_| r.below(10)).chain([0]).collect();
        let base = r.below(MAXC as u64 + 1) as u32;
        let top = sstr(&[MAXC]);
        let mut prev = w::re_allchar();
        let mut made = 0u64;
        for i in 0..600_000u32 {
            let lo = (base + i / kinds.len() as u32) % (MAXC + 1);
            let s = sstr(&[lo]);
            let x = match kinds[i as usize % kinds.len()] {
                0 => w::str_to_re(&s),
                1 => w::re_range(&s, &top),
                2 => w::re_concat(prev, prev),
                3 => w::re_star(prev),
                4 => w::re_comp(prev),
                5 => w::str_to_re(&sstr(&[lo, lo ^ 1])),
                6 => w::re_plus(w::str_to_re(&s)),
                7 => w::re_loop(w::re_allchar(), i % 1000, 1000 + i / 1000),
                8 => w::re_power(w::str_to_re(&s), 2 + i % 3),
                _ => {
                    let x = w::str_to_re(&sstr(&[98, lo, 99]));
                    w::str_in_re(&sstr(&[98, lo]), x);
                    x
                }
            };
            made += 1;
            prev = x;
            let n = number(x);
            if (made..1 << 24).contains(&n) && n >= goal || made >= goal {
                break;
            }
        }
        c.max("terms_in_one_thread", made);
        let after = |p: &Prog, e: String| format!("after {made} other terms made by {kinds:?} in this thread: {}: {e}", p.show(p.root()));
        for (p, t) in early.iter() {
            check(c, p, t, r).map_err(|e| after(p, format!("built before: {e}")))?;
        }
        for (p, mut t) in mixed {
            let n = t.len();
            for k in n..p.ops.len() {
                t.push(p.build_wrap_op(k, &t));
            }
            check(c, &p, &t, r).map_err(|e| after(&p, format!("operations 0..{n} built before: {e}")))?;
        }
        for _ in 0..20 {
            let p = diverse(r);
            let t = p.build_wrap();
            check(c, &p, &t, r).map_err(|e| after(&p, e))?;
        }
        Ok(())
    })
}
