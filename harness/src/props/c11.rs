//! C11: CharPartition queries agree with the set-theoretic meaning of the partition.

use crate::ctx::*;
use crate::dfa::MAXC;
use crate::ensure;
use crate::props::autos::any_automaton;
use crate::props::parts::*;
use crate::rng::*;
use crate::walk::{all_bounds, bounds};
use crate::Family;
use aws_smt_strings::character_sets::*;
use aws_smt_strings::errors::Error;

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "layouts", quick: 1597 * SYSTEMS as u64, thorough: 10946 * SYSTEMS as u64, enumerated: true, run: layout },
        Family { name: "lists", quick: 16 * SYSTEMS as u64, thorough: 22 * SYSTEMS as u64, enumerated: true, run: lists },
        Family { name: "random", quick: 40_000, thorough: 6_000_000, enumerated: false, run: random },
        Family { name: "random-lists", quick: 200_000, thorough: 20_000_000, enumerated: false, run: random_lists },
        Family { name: "large", quick: 60, thorough: 3_000, enumerated: false, run: large },
        Family { name: "automata", quick: 10_000, thorough: 1_000_000, enumerated: false, run: automata },
        Family { name: "long-lists", quick: 20_000, thorough: 2_000_000, enumerated: false, run: long_lists },
        Family { name: "giant", quick: 48, thorough: 4_000, enumerated: false, run: giant },
    ]
}

/// what a set is with respect to a partition (independent of any search)
fn relation(p: &Ivs, a: u32, b: u32) -> CoverResult {
    if let Some(i) = p.iter().position(|&(x, y)| x <= a && b <= y) {
        CoverResult::CoveredBy(i)
    } else if p.iter().all(|&(x, y)| b < x || y < a) {
        CoverResult::DisjointFromAll
    } else {
        CoverResult::Overlaps
    }
}

fn key(id: &ClassId) -> u64 {
    match id {
        ClassId::Interval(i) => *i as u64,
        ClassId::Complement => u64::MAX,
    }
}

fn check_classes(c: &mut Ctx, x: &CharPartition, p: &Ivs) -> R {
    let n = p.len();
    let full = covers_alphabet(p);
    let k = n + !full as usize;
    ensure!(x.len() == n, "len = {} for {n} intervals", x.len());
    ensure!(x.is_empty() == (n == 0), "is_empty = {}", x.is_empty());
    let rs = ranges_of(x);
    ensure!(rs == *p, "the intervals are {}, expected {}", show(&rs), show(p));
    for i in 0..n {
        ensure!(x.get(i) == p[i], "get({i}) = {:?}", x.get(i));
        ensure!((x.start(i), x.end(i)) == p[i], "start/end of interval {i} are {:?}", (x.start(i), x.end(i)));
        ensure!(bounds(&x.interval(i)) == p[i], "interval({i}) = {}", x.interval(i));
        let y = x.pick(i);
        ensure!(class_of(p, y) == Some(i), "pick({i}) = {y:#x}");
    }
    ensure!(x.empty_complement() == full, "empty_complement = {}", x.empty_complement());
    ensure!(x.num_classes() == k, "num_classes = {}, expected {k}", x.num_classes());
    for i in [0, 1, n.wrapping_sub(1), n, n + 1, n + 2, 1000 + n, usize::MAX] {
        ensure!(x.valid_class_id(ClassId::Interval(i)) == (i < n), "valid_class_id(Interval({i})) with {n} intervals");
    }
    ensure!(x.valid_class_id(ClassId::Complement) != full, "valid_class_id(Complement)");
    let mut want: Vec<ClassId> = (0..n).map(ClassId::Interval).collect();
    if !full {
        let w = x.pick_complement();
        ensure!(w <= MAXC && class_of(p, w).is_none(), "pick_complement = {w:#x} is not in the complementary class");
        want.push(ClassId::Complement);
    } else {
        ensure!(x.pick_complement() > MAXC, "pick_complement = {:#x} although the intervals cover the alphabet", x.pick_complement());
    }
    want.sort_by_key(key);
    let ids: Vec<ClassId> = x.class_ids().take(k + 3).collect();
    let mut sorted = ids.clone();
    sorted.sort_by_key(key);
    ensure!(sorted == want, "class_ids lists {ids:?}");
    ensure!(x.class_ids().size_hint() == (k, Some(k)), "size_hint of class_ids is {:?}, {k} classes", x.class_ids().size_hint());
    for &id in &ids {
        ensure!(x.valid_class_id(id), "class_ids lists the invalid {id}");
        let y = x.pick_in_class(id);
        ensure!(y <= MAXC && cid(class_of(p, y)) == id, "pick_in_class({id}) = {y:#x}");
    }
    let picks: Vec<u32> = x.picks().take(k + 3).collect();
    ensure!(picks.iter().all(|&y| y <= MAXC), "picks lists {picks:x?}");
    let mut pc: Vec<ClassId> = picks.iter().map(|&y| cid(class_of(p, y))).collect();
    pc.sort_by_key(key);
    ensure!(pc == want, "picks lists {picks:x?}: not one character per class");
    c.count("class_queries", (4 * n + 3 * k + 8) as u64);
    Ok(())
}

fn check_set(c: &mut Ctx, x: &CharPartition, p: &Ivs, a: u32, b: u32) -> R {
    let want = relation(p, a, b);
    let s = CharSet::range(a, b);
    let got = x.interval_cover(&s);
    ensure!(got == want, "interval_cover([{a:#x}, {b:#x}]) = {got:?}, expected {want:?}");
    let good = want != CoverResult::Overlaps;
    ensure!(x.good_char_set(&s) == good, "good_char_set([{a:#x}, {b:#x}]) is not {good}");
    let cl = x.class_of_set(&s);
    let wcl = match want {
        CoverResult::CoveredBy(i) => Ok(ClassId::Interval(i)),
        CoverResult::DisjointFromAll => Ok(ClassId::Complement),
        CoverResult::Overlaps => Err(Error::AmbiguousCharSet),
    };
    ensure!(cl == wcl, "class_of_set([{a:#x}, {b:#x}]) = {cl:?}, expected {wcl:?}");
    c.count(
        match want {
            CoverResult::CoveredBy(_) => "sets_covered",
            CoverResult::DisjointFromAll => "sets_disjoint",
            CoverResult::Overlaps => "sets_overlapping",
        },
        1,
    );
    Ok(())
}

fn check_char(c: &mut Ctx, x: &CharPartition, p: &Ivs, ch: u32) -> R {
    let want = cid(class_of_sorted(p, ch));
    let got = x.class_of_char(ch);
    c.count("chars", 1);
    ensure!(got == want, "class_of_char({ch:#x}) = {got}, expected {want}");
    Ok(())
}

/// character and set queries on a partition that has the first k intervals of p and will get the others
fn probe(c: &mut Ctx, x: &CharPartition, p: &Ivs, k: usize, r: &mut Rng) -> R {
    let now: Ivs = p[..k].to_vec();
    let mut pts = vec![0, MAXC];
    // inside, beside and between the intervals to come, and around the last ones
    for &(a, b) in p.iter().skip(k.saturating_sub(2)).take(5) {
        pts.extend([a, b, a + (b - a) / 2, a.saturating_sub(1), (b + 1).min(MAXC)]);
    }
    r.shuffle(&mut pts);
    for &ch in &pts {
        check_char(c, x, &now, ch)?;
    }
    for w in pts.windows(2).take(4) {
        check_set(c, x, &now, w[0].min(w[1]), w[0].max(w[1]))?;
    }
    c.count("queries_between_pushes", pts.len() as u64);
    Ok(())
}

/// every way of building p; all must be the same partition
fn built(c: &mut Ctx, p: &Ivs, r: &mut Rng) -> Result<CharPartition, String> {
    let mut x = CharPartition::new();
    check_classes(c, &x, &vec![])?;
    for (i, &(a, b)) in p.iter().enumerate() {
        x.push(a, b);
        if p.len() <= 12 || i + 2 >= p.len() {
            check_classes(c, &x, &p[..=i].to_vec()).map_err(|e| format!("after {} pushes: {e}", i + 1))?;
        }
        if p.len() <= 12 || r.chance(1, 8) {
            probe(c, &x, p, i + 1, r).map_err(|e| format!("after {} pushes of {}: {e}", i + 1, show(p)))?;
        }
    }
    let mut s = sets(p);
    let l = CharPartition::try_from_list(&s).map_err(|e| format!("try_from_list: {e:?}"))?;
    ensure!(l == x, "try_from_list and push give different partitions");
    for _ in 0..4 {
        r.shuffle(&mut s);
        let y = CharPartition::try_from_iter(s.iter().copied()).map_err(|e| format!("try_from_iter: {e:?}"))?;
        check_classes(c, &y, p).map_err(|e| format!("try_from_iter: {e}"))?;
        ensure!(y == l, "try_from_iter: the order of the input matters");
    }
    s.reverse();
    ensure!(CharPartition::try_from_iter(s.iter().copied()) == Ok(l.clone()), "try_from_iter: the order of the input matters");
    if !p.is_empty() {
        // from_set, then push
        let mut y = CharPartition::from_set(&CharSet::range(p[0].0, p[0].1));
        check_classes(c, &y, &vec![p[0]]).map_err(|e| format!("from_set: {e}"))?;
        for &(a, b) in &p[1..] {
            y.push(a, b);
        }
        check_classes(c, &y, p).map_err(|e| format!("from_set and push: {e}"))?;
        // try_from_iter, then push
        let k = r.us(p.len() + 1);
        let mut y = CharPartition::try_from_list(&sets(&p[..k].to_vec())).map_err(|e| format!("try_from_list: {e:?}"))?;
        probe(c, &y, p, k, r).map_err(|e| format!("try_from_list of {k} intervals: {e}"))?;
        let z = y.clone();
        for &(a, b) in &p[k..] {
            y.push(a, b);
        }
        probe(c, &z, p, k, r).map_err(|e| format!("copy of {k} intervals: {e}"))?;
        probe(c, &y, p, p.len(), r).map_err(|e| format!("try_from_list of {k} intervals, then push: {e}"))?;
        check_classes(c, &y, p).map_err(|e| format!("try_from_iter of {k} intervals and push: {e}"))?;
        ensure!(y == x, "partitions built in two ways differ");
    }
    c.count("partitions", 1);
    c.max("intervals", p.len() as u64);
    Ok(x)
}

fn layout(c: &mut Ctx, idx: u64, r: &mut Rng) -> R {
    let k = if c.tier == Tier::Quick { 8 } else { 10 };
    let n = c_layouts(k);
    let sys = (idx / n.len() as u64) as usize;
    let l = &n[(idx % n.len() as u64) as usize];
    let cl = cells(k, sys);
    let p = instance(l, &cl);
    let e = |m: String| format!("{}: {m}", show(&p));
    let x = built(c, &p, r).map_err(e)?;
    let pts = neighbours(cl.iter().flat_map(|&(a, b)| [a, b]));
    for (i, &a) in pts.iter().enumerate() {
        check_char(c, &x, &p, a).map_err(e)?;
        for &b in &pts[i..] {
            check_set(c, &x, &p, a, b).map_err(e)?;
        }
    }
    c.evals += 1;
    c.enumerated += 1;
    c.sample(|| show(&p));
    Ok(())
}

pub fn c_layouts(k: usize) -> &'static Vec<Vec<(usize, usize)>> {
    use std::sync::OnceLock;
    static L: OnceLock<Vec<Vec<Vec<(usize, usize)>>>> = OnceLock::new();
    &L.get_or_init(|| (0..=10).map(layouts).collect())[k]
}

fn disjoint(v: &[(u32, u32)]) -> bool {
    for i in 0..v.len() {
        for j in 0..i {
            if v[i].0 <= v[j].1 && v[j].0 <= v[i].1 {
                return false;
            }
        }
    }
    true
}

fn check_list(c: &mut Ctx, v: &[(u32, u32)]) -> R {
    let ok = disjoint(v);
    let s: Vec<CharSet> = v.iter().map(|&(a, b)| CharSet::range(a, b)).collect();
    let got = CharPartition::try_from_list(&s);
    let got2 = CharPartition::try_from_iter(s.iter().copied());
    ensure!(got == got2, "{v:x?}: try_from_list and try_from_iter differ");
    match got {
        Ok(x) => {
            c.count("lists_accepted", 1);
            ensure!(ok, "{v:x?}: overlapping sets were accepted");
            let mut p = v.to_vec();
            p.sort_unstable();
            check_classes(c, &x, &p).map_err(|e| format!("{v:x?}: {e}"))?;
        }
        Err(e) => {
            c.count("lists_rejected", 1);
            ensure!(!ok, "{v:x?}: disjoint sets were rejected ({e:?})");
            ensure!(e == Error::NonDisjointCharSets, "{v:x?}: error {e:?}");
        }
    }
    Ok(())
}

/// all lists of at most four intervals over 5 (6) cells that start with the given interval
fn lists(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    let k = if c.tier == Tier::Quick { 5 } else { 6 };
    let mut iv = vec![];
    for i in 0..k {
        for j in i..k {
            iv.push((i, j));
        }
    }
    let n = iv.len() as u64 + 1;
    let cl = cells(k, (idx / n) as usize);
    let iv: Ivs = iv.iter().map(|&(i, j)| (cl[i].0, cl[j].1)).collect();
    let first = (idx % n) as usize;
    if first == 0 {
        return check_list(c, &[]);
    }
    let a = iv[first - 1];
    check_list(c, &[a])?;
    for &b in &iv {
        check_list(c, &[a, b])?;
        for &d in &iv {
            check_list(c, &[a, b, d])?;
            for &e in &iv {
                check_list(c, &[a, b, d, e])?;
            }
        }
    }
    let m = iv.len() as u64;
    c.evals += 1 + m + m * m + m * m * m;
    c.enumerated += 1 + m + m * m + m * m * m;
    Ok(())
}

fn rand_point(pts: &[u32], r: &mut Rng) -> u32 {
    if r.chance(4, 5) {
        *r.pick(pts)
    } else {
        r.below(MAXC as u64 + 1) as u32
    }
}

fn random(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let p = rand_ivs(r, 120);
    let mut h = H::new();
    hash(&mut h, &p);
    c.case(h.0);
    let e = |m: String| format!("{}: {m}", show(&p));
    let x = built(c, &p, r).map_err(e)?;
    let pts = points(&p);
    for &a in &pts {
        check_char(c, &x, &p, a).map_err(e)?;
        check_set(c, &x, &p, a, a).map_err(e)?;
    }
    for _ in 0..150 {
        let (a, b) = (rand_point(&pts, r), rand_point(&pts, r));
        check_set(c, &x, &p, a.min(b), a.max(b)).map_err(e)?;
    }
    // sets close to one interval or one gap
    for i in 0..p.len().min(30) {
        let i = if p.len() > 30 { r.us(p.len()) } else { i };
        let (a, b) = p[i];
        let nxt = if i + 1 < p.len() { p[i + 1].0 } else { MAXC };
        for (u, v) in [(a, b), (b, nxt), (b + 1, nxt), (b + 1, nxt.saturating_sub(1)), (a.saturating_sub(1), a), (b, b + 1), (0, a), (0, b), (a, MAXC), (b + 1, MAXC)] {
            if u <= v && v <= MAXC {
                check_set(c, &x, &p, u, v).map_err(e)?;
            }
        }
    }
    c.sample(|| show(&p));
    Ok(())
}

fn random_lists(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut v = rand_ivs(r, 16);
    r.shuffle(&mut v);
    match r.below(4) {
        0 if !v.is_empty() => {
            // one more interval that may overlap one or several
            let (a, b) = *r.pick(&v);
            let q = match r.below(5) {
                0 => (a, b),
                1 => (a.saturating_sub(r.below(3) as u32), a),
                2 => (b, (b + r.below(3) as u32).min(MAXC)),
                3 => (a.saturating_sub(r.below(20) as u32), (b + r.below(20) as u32).min(MAXC)),
                _ => {
                    let m = r.range(a as u64, b as u64) as u32;
                    (m, m)
                }
            };
            let i = r.us(v.len() + 1);
            v.insert(i, q);
        }
        1 => {
            let x = r.below(MAXC as u64 + 1) as u32;
            let y = (x as u64 + (r.next() >> r.below(64)) % 1000).min(MAXC as u64) as u32;
            let i = r.us(v.len() + 1);
            v.insert(i, (x, y));
        }
        _ => (),
    }
    let mut h = H::new();
    hash(&mut h, &v);
    c.case(h.0);
    c.sample(|| show(&v));
    check_list(c, &v)
}

/// all characters of the alphabet, hundreds of intervals
fn large(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let p = rand_ivs(r, if i % 2 == 0 { 400 } else { 8 });
    let mut h = H::new();
    hash(&mut h, &p);
    c.case(h.0);
    let e = |m: String| format!("{}: {m}", show(&p));
    let x = built(c, &p, r).map_err(e)?;
    let mut j = 0;
    for ch in 0..=MAXC {
        while j < p.len() && p[j].1 < ch {
            j += 1;
        }
        let want = if j < p.len() && p[j].0 <= ch { ClassId::Interval(j) } else { ClassId::Complement };
        let got = x.class_of_char(ch);
        ensure!(got == want, "{}: class_of_char({ch:#x}) = {got}, expected {want}", show(&p));
        let one = x.class_of_set(&CharSet::singleton(ch));
        ensure!(one == Ok(want), "{}: class_of_set({{{ch:#x}}}) = {one:?}, expected {want}", show(&p));
    }
    c.count("chars", MAXC as u64 + 1);
    c.count("alphabet_sweeps", 1);
    Ok(())
}

/// char_set_next of built and compiled automata
fn automata(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let Some((a, name)) = any_automaton(c, 8, 6, r)? else { return Ok(()) };
    for s in a.states() {
        let p = all_bounds(s.char_ranges());
        let pts = points(&p);
        for _ in 0..40 {
            let (x, y) = (rand_point(&pts, r), rand_point(&pts, r));
            let (x, y) = (x.min(y), x.max(y));
            let want = relation(&p, x, y);
            let got = a.char_set_next(s, &CharSet::range(x, y)).map(|t| t.id());
            c.count("char_set_next_calls", 1);
            let m = || format!("{name}: state {}, char_set_next([{x:#x}, {y:#x}]) = {got:?}", s.id());
            match want {
                CoverResult::Overlaps => ensure!(got == Err(Error::AmbiguousCharSet), "{} but the set meets several classes", m()),
                _ => {
                    let t = a.next(s, x).id();
                    ensure!(got == Ok(t), "{} but next({x:#x}) = {t}", m());
                    ensure!(a.next(s, y).id() == t, "{}: next is not uniform on the set", m());
                }
            }
        }
    }
    c.sample(|| name.clone());
    Ok(())
}

/// tens or hundreds of sets, shuffled, with at most one conflict
fn long_lists(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let max = if r.chance(1, 20) { 300 } else { 60 };
    let n = r.range(8, max) as u32;
    let spread = if r.chance(1, 3) { 3 } else { r.range(3, 600) as u32 };
    let mut v: Ivs = (0..n)
        .map(|i| {
            let a = i * spread + r.below(2) as u32;
            (a, a + r.below(spread as u64 - 1) as u32)
        })
        .collect();
    if r.chance(1, 2) {
        v.iter_mut().for_each(|x| *x = (MAXC - x.1, MAXC - x.0));
    }
    if r.chance(2, 3) {
        let &(a, b) = r.pick(&v);
        let k = match r.below(5) {
            0 => (a, b),
            1 => (b, b),
            2 => (a, a),
            // contains many
            3 => (a, (b + r.below(10 * spread as u64) as u32).min(MAXC)),
            _ => (a.saturating_sub(r.below(10 * spread as u64) as u32), a),
        };
        v.push(k);
    }
    match r.below(4) {
        0 => v.sort_unstable(),
        1 => {
            v.sort_unstable();
            v.reverse();
        }
        2 => {
            v.sort_unstable();
            let k = r.us(v.len());
            v.rotate_left(k);
        }
        _ => r.shuffle(&mut v),
    }
    let mut h = H::new();
    hash(&mut h, &v);
    c.case(h.0);
    check_list(c, &v).map_err(|e| e.chars().take(600).collect())
}

/// thousands of intervals, more than 2^16 in every other case
fn giant(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let p = giant_ivs(i % 2 == 0, r);
    let n = p.len();
    let mut h = H::new();
    hash(&mut h, &p);
    c.case(h.0);
    let e = |m: String| format!("{}: {m}", show(&p));
    let x = pushed(&p);
    let mut s = sets(&p);
    r.shuffle(&mut s);
    let y = CharPartition::try_from_list(&s).map_err(|m| e(format!("try_from_list: {m:?}")))?;
    let z = CharPartition::try_from_iter(s.iter().copied()).map_err(|m| e(format!("try_from_iter: {m:?}")))?;
    ensure!(x == y && x == z, "{}: partitions built in different ways differ", show(&p));
    // one conflict
    let k = r.us(n);
    let at = r.us(n + 1);
    s.insert(at, CharSet::singleton(if r.chance(1, 2) { p[k].0 } else { p[k].1 }));
    ensure!(CharPartition::try_from_list(&s) == Err(Error::NonDisjointCharSets), "{}: a list with a conflict is accepted", show(&p));
    let full = covers_alphabet(&p);
    ensure!(x.len() == n && ranges_of(&x) == p, "{}: the intervals are {}", show(&p), show(&ranges_of(&x)));
    ensure!(x.empty_complement() == full && x.num_classes() == n + !full as usize, "{}: {} classes", show(&p), x.num_classes());
    for i in [0, n - 1, n, n + 1, n + 65536, n.wrapping_sub(65536), usize::MAX] {
        ensure!(x.valid_class_id(ClassId::Interval(i)) == (i < n), "{}: valid_class_id(Interval({i}))", show(&p));
    }
    ensure!(x.valid_class_id(ClassId::Complement) != full, "{}: valid_class_id(Complement)", show(&p));
    let mut ids: Vec<ClassId> = x.class_ids().take(n + 3).collect();
    ids.sort_by_key(key);
    let want: Vec<ClassId> = (0..n).map(ClassId::Interval).chain((!full).then_some(ClassId::Complement)).collect();
    ensure!(ids == want, "{}: class_ids lists {} classes", show(&p), ids.len());
    let mut pc: Vec<ClassId> = x.picks().take(n + 3).map(|y| cid(class_of_sorted(&p, y))).collect();
    pc.sort_by_key(key);
    ensure!(pc == want, "{}: picks does not list one character per class", show(&p));
    for (i, &(a, b)) in p.iter().enumerate() {
        ensure!(x.get(i) == (a, b) && bounds(&x.interval(i)) == (a, b) && (x.start(i), x.end(i)) == (a, b), "{}: interval {i}", show(&p));
        let (y, z) = (x.pick(i), x.pick_in_class(ClassId::Interval(i)));
        ensure!(a <= y && y <= b && a <= z && z <= b, "{}: pick({i}) = {y:#x}, pick_in_class = {z:#x}", show(&p));
    }
    if !full {
        let w = x.pick_complement();
        ensure!(w <= MAXC && class_of_sorted(&p, w).is_none(), "{}: pick_complement = {w:#x}", show(&p));
    }
    for ch in 0..=MAXC {
        check_char(c, &x, &p, ch).map_err(e)?;
    }
    for _ in 0..2000 {
        let i = r.us(n);
        let (a, b) = p[i];
        let (u, v) = match r.below(4) {
            0 => (a, b),
            1 => (a, (b + r.below(3) as u32).min(MAXC)),
            2 => (a.saturating_sub(r.below(3) as u32), b),
            _ => {
                let u = r.range(a.saturating_sub(2) as u64, b as u64 + 1).min(MAXC as u64) as u32;
                (u, (u + r.below(4) as u32).min(MAXC))
            }
        };
        let (k, l) = (class_of_sorted(&p, u), class_of_sorted(&p, v));
        let j = p.partition_point(|&(_, b)| b < u);
        let rel = match (k, l) {
            (Some(k), Some(l)) if k == l => CoverResult::CoveredBy(k),
            (None, None) if j == p.len() || v < p[j].0 => CoverResult::DisjointFromAll,
            _ => CoverResult::Overlaps,
        };
        let got = x.interval_cover(&CharSet::range(u, v));
        ensure!(got == rel, "{}: interval_cover([{u:#x}, {v:#x}]) = {got:?}, expected {rel:?}", show(&p));
        let got = x.class_of_set(&CharSet::range(u, v)).ok();
        let rel = match rel {
            CoverResult::CoveredBy(i) => Some(ClassId::Interval(i)),
            CoverResult::DisjointFromAll => Some(ClassId::Complement),
            CoverResult::Overlaps => None,
        };
        ensure!(got == rel, "{}: class_of_set([{u:#x}, {v:#x}]) = {got:?}, expected {rel:?}", show(&p));
    }
    c.max("intervals", n as u64);
    Ok(())
}
