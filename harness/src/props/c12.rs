//! C12: merge_partitions / merge_partition_list are the coarsest common refinement.

use crate::ctx::*;
use crate::dfa::MAXC;
use crate::ensure;
use crate::props::c11::c_layouts;
use crate::props::parts::*;
use crate::rng::*;
use crate::Family;
use aws_smt_strings::character_sets::*;

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "pairs", quick: 233 * SYSTEMS as u64, thorough: 610 * SYSTEMS as u64, enumerated: true, run: pairs },
        Family { name: "triples", quick: 34 * SYSTEMS as u64, thorough: 89 * SYSTEMS as u64, enumerated: true, run: triples },
        Family { name: "random", quick: 250_000, thorough: 40_000_000, enumerated: false, run: random },
        Family { name: "lists", quick: 100_000, thorough: 20_000_000, enumerated: false, run: lists },
        Family { name: "shifted", quick: 150_000, thorough: 20_000_000, enumerated: false, run: shifted },
        Family { name: "large", quick: 2_000, thorough: 300_000, enumerated: false, run: large },
        Family { name: "giant", quick: 64, thorough: 8_000, enumerated: false, run: giant },
    ]
}

/// The reference: maximal runs of characters with the same tuple of classes (not all complementary)
fn reference(ps: &[&Ivs]) -> Ivs {
    let al = joint(ps);
    let mut out: Ivs = vec![];
    let mut prev: Vec<Option<usize>> = vec![None; ps.len()];
    for i in 0..al.k() {
        let (a, b) = (al.starts[i], al.end(i));
        let t: Vec<Option<usize>> = ps.iter().map(|p| class_of_sorted(p, a)).collect();
        if t.iter().any(|x| x.is_some()) {
            if t == prev && out.last().is_some_and(|l| l.1 + 1 == a) {
                out.last_mut().unwrap().1 = b;
            } else {
                out.push((a, b));
            }
        }
        prev = t;
    }
    out
}

fn check_result(c: &mut Ctx, m: &CharPartition, want: &Ivs) -> R {
    let got = ranges_of(m);
    c.count("merges", 1);
    c.count("merged_intervals", got.len() as u64);
    for w in got.windows(2) {
        ensure!(w[0].1 < w[1].0, "the intervals are not sorted and disjoint: {}", show(&got));
    }
    ensure!(got == *want, "got {}, expected {}", show(&got), show(want));
    ensure!(m.len() == want.len(), "len = {}", m.len());
    let full = covers_alphabet(want);
    ensure!(m.empty_complement() == full, "empty_complement = {}", m.empty_complement());
    ensure!(m.num_classes() == want.len() + !full as usize, "num_classes = {}", m.num_classes());
    if full {
        c.count("empty_complements", 1);
    } else {
        let w = m.pick_complement();
        ensure!(w <= MAXC && class_of_sorted(want, w).is_none(), "the witness {w:#x} of the complementary class is in an interval");
    }
    Ok(())
}

/// class by class, through the crate's own queries
fn check_same_class(c: &mut Ctx, x: &CharPartition, y: &CharPartition, m: &CharPartition, pts: &[u32]) -> R {
    let cl: Vec<(ClassId, ClassId, ClassId)> =
        pts.iter().map(|&ch| (x.class_of_char(ch), y.class_of_char(ch), m.class_of_char(ch))).collect();
    for i in 0..pts.len() {
        let (a, b, d) = cl[i];
        ensure!(
            (d == ClassId::Complement) == (a == ClassId::Complement && b == ClassId::Complement),
            "{:#x} is in classes {a} and {b}, but in class {d} of the merge",
            pts[i]
        );
        for j in 0..i {
            let same = cl[j].2 == d;
            ensure!(
                !same || (cl[j].0 == a && cl[j].1 == b),
                "{:#x} and {:#x} are in the same class {d} of the merge but not of both arguments",
                pts[j],
                pts[i]
            );
        }
        c.count("chars_classified", 1);
    }
    Ok(())
}

fn check_pair(c: &mut Ctx, p: &Ivs, q: &Ivs, x: &CharPartition, y: &CharPartition, deep: bool) -> R {
    let want = reference(&[p, q]);
    let e = |m: String| format!("merge of {} and {}: {m}", show(p), show(q));
    let m = merge_partitions(x, y);
    check_result(c, &m, &want).map_err(e)?;
    let m2 = merge_partitions(y, x);
    check_result(c, &m2, &want).map_err(|m| format!("merge of {} and {}: {m}", show(q), show(p)))?;
    if deep {
        let pts = neighbours(p.iter().chain(q).flat_map(|&(a, b)| [a, b]));
        check_same_class(c, x, y, &m, &pts).map_err(e)?;
        // merging again changes nothing
        check_result(c, &merge_partitions(&m, x), &want).map_err(e)?;
        check_result(c, &merge_partitions(&m, &m2), &want).map_err(e)?;
        let none = CharPartition::new();
        check_result(c, &merge_partitions(x, &none), p).map_err(|m| format!("merge of {} and the empty partition: {m}", show(p)))?;
        check_result(c, &merge_partitions(&none, x), p).map_err(|m| format!("merge of the empty partition and {}: {m}", show(p)))?;
        check_result(c, &merge_partitions(x, x), p).map_err(|m| format!("merge of {} with itself: {m}", show(p)))?;
        check_result(c, &merge_partition_list([x, y].into_iter()), &want).map_err(|m| format!("list of {} and {}: {m}", show(p), show(q)))?;
    }
    ensure!(ranges_of(x) == *p && ranges_of(y) == *q, "an argument was modified");
    Ok(())
}

fn pairs(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    let k = if c.tier == Tier::Quick { 6 } else { 7 };
    let l = c_layouts(k);
    let cl = cells(k, (idx / l.len() as u64) as usize);
    let i = (idx % l.len() as u64) as usize;
    let p = instance(&l[i], &cl);
    let x = pushed(&p);
    for (j, lj) in l.iter().enumerate() {
        let q = instance(lj, &cl);
        check_pair(c, &p, &q, &x, &pushed(&q), (i + j) % 4 == 0)?;
        c.evals += 1;
        c.enumerated += 1;
    }
    c.sample(|| show(&p));
    Ok(())
}

fn triples(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    let k = if c.tier == Tier::Quick { 4 } else { 5 };
    let l = c_layouts(k);
    let cl = cells(k, (idx / l.len() as u64) as usize);
    let p = instance(&l[(idx % l.len() as u64) as usize], &cl);
    let x = pushed(&p);
    for lj in l {
        let q = instance(lj, &cl);
        let y = pushed(&q);
        for lk in l {
            let s = instance(lk, &cl);
            let z = pushed(&s);
            let want = reference(&[&p, &q, &s]);
            let m = merge_partition_list([&x, &y, &z].into_iter());
            check_result(c, &m, &want).map_err(|m| format!("list of {}, {}, {}: {m}", show(&p), show(&q), show(&s)))?;
            c.evals += 1;
            c.enumerated += 1;
        }
    }
    Ok(())
}

/// q shares end points with p
fn related(p: &Ivs, r: &mut Rng) -> Ivs {
    let mut cuts: Vec<u32> = p.iter().flat_map(|&(a, b)| [a, b + 1]).filter(|_| r.chance(2, 3)).collect();
    for _ in 0..r.below(4) {
        let x = match r.below(3) {
            0 if !p.is_empty() => {
                let (a, b) = *r.pick(p);
                r.range(a as u64, b as u64) as u32
            }
            1 => *r.pick(&[0, 1, MAXC, MAXC - 1]),
            _ => r.below(MAXC as u64 + 1) as u32,
        };
        cuts.push(x);
    }
    cuts.retain(|&x| x <= MAXC);
    cuts.sort_unstable();
    cuts.dedup();
    if r.chance(1, 3) {
        cuts.push(MAXC + 1);
    }
    let mut v = vec![];
    for i in 1..cuts.len() {
        if r.chance(3, 4) {
            v.push((cuts[i - 1], cuts[i] - 1));
        }
    }
    v
}

/// the same partition, built in some way
fn some_build(p: &Ivs, r: &mut Rng) -> Result<CharPartition, String> {
    match r.below(3) {
        0 => {
            let mut s = sets(p);
            r.shuffle(&mut s);
            CharPartition::try_from_iter(s.into_iter()).map_err(|e| format!("try_from_iter: {e:?}"))
        }
        1 if !p.is_empty() => {
            let mut x = CharPartition::from_set(&CharSet::range(p[0].0, p[0].1));
            for &(a, b) in &p[1..] {
                x.push(a, b);
            }
            Ok(x)
        }
        _ => Ok(pushed(p)),
    }
}

fn random(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let p = rand_ivs(r, 20);
    let q = if r.chance(2, 3) { related(&p, r) } else { rand_ivs(r, 20) };
    let mut h = H::new();
    hash(&mut h, &p);
    hash(&mut h, &q);
    c.case(h.0);
    c.sample(|| format!("{} {}", show(&p), show(&q)));
    let (x, y) = (some_build(&p, r)?, some_build(&q, r)?);
    check_pair(c, &p, &q, &x, &y, r.chance(1, 3))
}

fn lists(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let n = r.us(7);
    let first = rand_ivs(r, 8);
    let mut ps: Vec<Ivs> = vec![];
    for _ in 0..n {
        ps.push(match r.below(5) {
            0 => vec![],
            1 => first.clone(),
            2 | 3 => related(&first, r),
            _ => rand_ivs(r, 8),
        });
    }
    let mut h = H::new();
    ps.iter().for_each(|p| hash(&mut h, p));
    c.case(h.0);
    let want = reference(&ps.iter().collect::<Vec<_>>());
    let mut xs: Vec<CharPartition> = vec![];
    for p in &ps {
        xs.push(some_build(p, r)?);
    }
    let e = |m: String| format!("list of {}: {m}", ps.iter().map(show).collect::<Vec<_>>().join(", "));
    for _ in 0..4 {
        let m = merge_partition_list(xs.iter());
        check_result(c, &m, &want).map_err(e)?;
        r.shuffle(&mut xs);
    }
    // the empty partition anywhere, repeated elements
    let mut v: Vec<&CharPartition> = xs.iter().collect();
    let none = CharPartition::new();
    v.insert(r.us(v.len() + 1), &none);
    if !xs.is_empty() {
        let k = r.us(xs.len());
        v.push(&xs[k]);
    }
    check_result(c, &merge_partition_list(v.into_iter()), &want).map_err(e)?;
    c.max("list", n as u64);
    Ok(())
}

fn large(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let p = rand_ivs(r, 400);
    let q = if r.chance(1, 2) { related(&p, r) } else { rand_ivs(r, 400) };
    let mut h = H::new();
    hash(&mut h, &p);
    hash(&mut h, &q);
    c.case(h.0);
    let (x, y) = (pushed(&p), pushed(&q));
    check_pair(c, &p, &q, &x, &y, false)
}

/// thousands of intervals, more than 2^16 in one or both arguments
fn giant(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let p = giant_ivs(i % 2 == 0, r);
    let q = match r.below(4) {
        0 => rand_ivs(r, 20),
        1 => p.iter().step_by(2).map(|&(a, b)| (a, if r.chance(1, 2) { b } else { a })).collect(),
        2 => p.iter().map(|&(_, b)| (b, b)).collect(),
        _ => giant_ivs(r.chance(1, 2), r),
    };
    let mut h = H::new();
    hash(&mut h, &p);
    hash(&mut h, &q);
    c.case(h.0);
    let want = reference(&[&p, &q]);
    let (x, y) = (pushed(&p), pushed(&q));
    let e = |m: String| format!("merge of {} and {}: {m}", show(&p), show(&q));
    check_result(c, &merge_partitions(&x, &y), &want).map_err(e)?;
    check_result(c, &merge_partitions(&y, &x), &want).map_err(e)?;
    // as a list, with a third one
    let t = rand_ivs(r, 12);
    let z = pushed(&t);
    let want = reference(&[&p, &q, &t]);
    check_result(c, &merge_partition_list([&x, &y, &z].into_iter()), &want).map_err(e)?;
    check_result(c, &merge_partition_list([&z, &x, &y].into_iter()), &want).map_err(e)?;
    c.max("merged_intervals_in_one", want.len() as u64);
    Ok(())
}

/// two partitions that agree in many aggregates (number of intervals, first, last, sums, lengths)
/// and differ in one or two boundaries
fn shifted(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let p = loop {
        let n = *r.pick(&[3, 6, 9, 20, 70]);
        let p = rand_ivs(r, n);
        if !p.is_empty() {
            break p;
        }
    };
    let mut q = p.clone();
    let ok = |v: &Ivs| {
        v.iter().all(|&(a, b)| a <= b && b <= MAXC) && v.windows(2).all(|w| w[0].1 < w[1].0)
    };
    for _ in 0..r.range(1, 3) {
        let mut v = q.clone();
        let (i, j) = (r.us(v.len()), r.us(v.len()));
        let d = *r.pick(&[1u32, 1, 1, 2, 5, 256]);
        match r.below(8) {
            // ends: one up, one down
            0 => {
                v[i].1 = v[i].1.wrapping_add(d);
                v[j].1 = v[j].1.wrapping_sub(d);
            }
            1 => {
                v[i].0 = v[i].0.wrapping_add(d);
                v[j].0 = v[j].0.wrapping_sub(d);
            }
            // a whole interval moves, another one moves back
            2 => {
                v[i].0 = v[i].0.wrapping_add(d);
                v[i].1 = v[i].1.wrapping_add(d);
                v[j].0 = v[j].0.wrapping_sub(d);
                v[j].1 = v[j].1.wrapping_sub(d);
            }
            3 => {
                v[i].0 = v[i].0.wrapping_add(d);
                v[i].1 = v[i].1.wrapping_add(d);
            }
            // the gap after i moves
            4 if i + 1 < v.len() => {
                v[i].1 = v[i].1.wrapping_add(d);
                v[i + 1].0 = v[i + 1].0.wrapping_add(d);
            }
            5 => v[i].1 = v[i].1.wrapping_add(d),
            6 => v[i].0 = v[i].0.wrapping_sub(d),
            _ if v.len() > 1 => {
                let x = v[i];
                v.remove(i);
                // split another one, same number of intervals
                let j = r.us(v.len());
                let (a, b) = v[j];
                if b > a {
                    let m = r.range(a as u64, b as u64 - 1) as u32;
                    v[j] = (a, m);
                    v.insert(j + 1, (m + 1, b));
                } else {
                    v.insert(i, x);
                }
            }
            _ => (),
        }
        if ok(&v) {
            q = v;
        }
    }
    let mut h = H::new();
    hash(&mut h, &p);
    hash(&mut h, &q);
    c.case(h.0);
    let (x, y) = (some_build(&p, r)?, some_build(&q, r)?);
    check_pair(c, &p, &q, &x, &y, r.chance(1, 6))?;
    // as a list, with a third one of the same kind
    let mut t = p.clone();
    let i = r.us(t.len());
    t[i].0 = t[i].1;
    let z = some_build(&t, r)?;
    let want = reference(&[&p, &q, &t]);
    let mut l = [&x, &y, &z, &x];
    r.shuffle(&mut l);
    check_result(c, &merge_partition_list(l.into_iter()), &want)
        .map_err(|m| format!("list of {}, {}, {} and a repeated one: {m}", show(&p), show(&q), show(&t)))
}
