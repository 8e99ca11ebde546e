//! C16: included_in never claims an inclusion that does not hold; unions lose nothing.

use crate::ctx::*;
use crate::dfa::*;
use crate::props::common::*;
use crate::props::deep::deep_list;
use crate::rng::*;
use crate::rx::*;
use crate::walk::*;
use crate::Family;
use aws_smt_strings::regular_expressions::{ReManager, RegLan};
use std::cell::OnceCell;

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "small-pairs", quick: 368, thorough: 368, enumerated: true, run: small_pairs },
        Family { name: "pattern-pairs", quick: SHORT.len() as u64, thorough: SHORT.len() as u64, enumerated: true, run: pattern_pairs },
        Family { name: "pattern-pairs-4", quick: 0, thorough: 4681, enumerated: true, run: pattern_pairs4 },
        Family { name: "patterns", quick: 60_000, thorough: 10_000_000, enumerated: false, run: patterns },
        Family { name: "wrapped", quick: 30_000, thorough: 5_000_000, enumerated: false, run: wrapped },
        Family { name: "contexts", quick: 40_000, thorough: 6_000_000, enumerated: false, run: contexts },
        Family { name: "terms", quick: 20_000, thorough: 4_000_000, enumerated: false, run: terms },
        Family { name: "unions", quick: 40_000, thorough: 6_000_000, enumerated: false, run: unions },
        Family { name: "deep", quick: 1_000, thorough: 150_000, enumerated: false, run: deep_pairs },
        Family { name: "giant", quick: 8, thorough: 2_000, enumerated: false, run: giant_pairs },
        Family { name: "long-patterns", quick: 4_000, thorough: 600_000, enumerated: false, run: long_patterns },
        Family { name: "classes", quick: 3_000, thorough: 300_000, enumerated: false, run: many_classes },
        Family { name: "segments", quick: 80_000, thorough: 10_000_000, enumerated: false, run: segments },
    ]
}

// 1 + 7 + 49 + 343 + the 4-item sequences over 5 items
struct Short;
impl Short {
    const fn len(&self) -> usize {
        1 + 8 + 64 + 512 + 625
    }
}
const SHORT: Short = Short;

const AB: u32 = 97;

fn item(i: u64) -> Item {
    match i {
        0 => Item::Set(AB, AB),
        1 => Item::Any,
        2 => Item::Set(0, MAXC),
        3 => Item::Set(AB + 1, AB + 1),
        4 => Item::Rep(AB, AB, 0, None),
        5 => Item::Set(AB, AB + 1),
        6 => Item::Rep(0, MAXC, 1, Some(2)),
        _ => Item::NotSet(AB, AB),
    }
}

fn seq(mut i: u64) -> Vec<Item> {
    let mut n = 1u64;
    let mut len = 0;
    while len < 4 && i >= n {
        i -= n;
        n *= 8;
        len += 1;
        if len == 4 {
            n = 625;
        }
    }
    let base = if len == 4 { 5 } else { 8 };
    (0..len)
        .map(|_| {
            let x = i % base;
            i /= base;
            item(x)
        })
        .collect()
}

fn seq4(mut i: u64) -> Vec<Item> {
    let mut n = 1u64;
    let mut len = 0;
    while i >= n {
        i -= n;
        n *= 8;
        len += 1;
    }
    (0..len)
        .map(|_| {
            let x = i % 8;
            i /= 8;
            item(x)
        })
        .collect()
}

type Table = (Vec<Dfa>, Vec<Vec<Item>>);

thread_local! {
    static PATS: OnceCell<Table> = const { OnceCell::new() };
    static PATS4: OnceCell<Table> = const { OnceCell::new() };
}

fn table(n: u64, f: fn(u64) -> Vec<Item>) -> Table {
    let al = small_alpha();
    let mut v = vec![];
    let mut d = vec![];
    for i in 0..n {
        let it = f(i);
        let mut p = Prog::default();
        add_pattern(&mut p, &it);
        d.push(p.dfas(&al, 2000).pop().unwrap().expect("harness: pattern DFA too big"));
        v.push(it);
    }
    (d, v)
}

fn explain(a: &str, b: &str, w: &[usize], al: &Alpha) -> String {
    let w: Vec<u32> = w.iter().map(|&i| al.starts[i]).collect();
    format!("included_in answers true for\n  r = {a}\n  s = {b}\nbut {} is in r and not in s", show_word(&w))
}

fn show_pat(it: &[Item]) -> String {
    let mut p = Prog::default();
    let i = add_pattern(&mut p, it);
    p.show(i)
}

fn pattern_pairs(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    PATS.with(|t| {
        let (d, v) = t.get_or_init(|| table(SHORT.len() as u64, seq));
        all_pairs(c, idx as usize, d, v)
    })
}

fn pattern_pairs4(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    PATS4.with(|t| {
        let (d, v) = t.get_or_init(|| table(4681, seq4));
        all_pairs(c, idx as usize, d, v)
    })
}

fn all_pairs(c: &mut Ctx, i: usize, d: &[Dfa], v: &[Vec<Item>]) -> R {
    let al = small_alpha();
    let mut re = ReManager::new();
    let mut p = Prog::default();
    let roots: Vec<usize> = v.iter().map(|it| add_pattern(&mut p, it)).collect();
    let t = p.build(&mut re);
    let a = t[roots[i]];
    for j in 0..v.len() {
        c.evals += 1;
        c.enumerated += 1;
        if a.included_in(t[roots[j]]) {
            c.count("claims_true", 1);
            if let Some(w) = d[i].not_included(&d[j]) {
                return Err(explain(&show_pat(&v[i]), &show_pat(&v[j]), &w, &al));
            }
        } else {
            c.count("claims_false", 1);
        }
    }
    Ok(())
}

fn small_pairs(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    let (base, d) = small_terms();
    let al = small_alpha();
    let mut re = ReManager::new();
    let t = base.build(&mut re);
    let i = idx as usize;
    for j in 0..t.len() {
        c.evals += 1;
        c.enumerated += 1;
        if t[i].included_in(t[j]) {
            c.count("claims_true", 1);
            if let Some(w) = d[i].not_included(&d[j]) {
                return Err(explain(&base.show(i), &base.show(j), &w, &al));
            }
            // the union is pruned
            let u = re.union(t[i], t[j]);
            let du = d[i].union(&d[j], 1000).unwrap();
            check_term(&mut re, u, &du, 0, &al, 200).map_err(|e| format!("(union {} {}): {e}", base.show(i), base.show(j)))?;
            c.count("unions_checked", 1);
        } else {
            c.count("claims_false", 1);
        }
    }
    Ok(())
}

/// all ordered pairs of the given nodes
fn check_nodes(c: &mut Ctx, p: &Prog, nodes: &[usize], t: &[RegLan], dfas: &[Option<Dfa>], al: &Alpha) -> R {
    for &i in nodes {
        for &j in nodes {
            if i == j {
                continue;
            }
            let (Some(di), Some(dj)) = (&dfas[i], &dfas[j]) else { continue };
            c.count("pairs", 1);
            if t[i].included_in(t[j]) {
                c.count("claims_true", 1);
                if t[i] != t[j] {
                    c.count("claims_true_distinct_terms", 1);
                }
                if let Some(w) = di.not_included(dj) {
                    return Err(explain(&p.show(i), &p.show(j), &w, al));
                }
            } else {
                c.count("claims_false", 1);
                c.count(if di.not_included(dj).is_none() { "missed_inclusions" } else { "true_negatives" }, 1);
            }
        }
    }
    Ok(())
}

fn pats(p: &mut Prog, r: &mut Rng, n: usize, maxlen: u64) -> Vec<usize> {
    let pal = if r.chance(2, 3) { PALETTES[r.us(2)] } else { *r.pick(PALETTES) };
    let mut v: Vec<Vec<Item>> = vec![];
    let mut nodes = vec![];
    for i in 0..n {
        let it: Vec<Item> = if i > 0 && r.chance(3, 4) {
            let b = v[r.us(v.len())].clone();
            match r.below(6) {
                0 => {
                    // swap two items
                    let mut b = b;
                    if b.len() > 1 {
                        let x = r.us(b.len());
                        let y = r.us(b.len());
                        b.swap(x, y);
                    }
                    b
                }
                1 => {
                    // drop an item
                    let mut b = b;
                    if !b.is_empty() {
                        let x = r.us(b.len());
                        b.remove(x);
                    }
                    b
                }
                _ => specialise(&b, pal, r),
            }
        } else {
            (0..r.range(1, maxlen)).map(|_| rand_item(pal, r)).collect()
        };
        if it.len() > 14 {
            continue;
        }
        nodes.push(add_pattern(p, &it));
        v.push(it);
    }
    nodes
}

fn patterns(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut p = Prog::default();
    let nodes = pats(&mut p, r, 5, 8);
    let al = p.alpha();
    c.case(p.hash());
    let dfas = p.dfas(&al, 400);
    let mut re = ReManager::new();
    let t = p.build(&mut re);
    check_nodes(c, &p, &nodes, &t, &dfas, &al)?;
    c.sample(|| nodes.iter().map(|&i| p.show(i)).collect::<Vec<_>>().join("  vs  "));
    Ok(())
}

// unions, intersections, complements, concatenations and loops around related patterns
fn wrapped(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut p = Prog::default();
    let mut nodes = pats(&mut p, r, 4, 4);
    for _ in 0..5 {
        let x = *r.pick(&nodes);
        let y = *r.pick(&nodes);
        let z = match r.below(9) {
            0 => p.add(Op::Comp(x)),
            1 => p.add(Op::Union(x, y)),
            2 => p.add(Op::Inter(x, y)),
            3 => p.add(Op::Concat(x, y)),
            4 => p.add(Op::Diff(x, y)),
            5 => p.add(Op::Star(x)),
            6 => p.add(Op::MkLoop(x, 1, Some(2))),
            7 => {
                let f = p.add(Op::Full);
                let l = [f, x, f, y];
                let a = r.us(3);
                let b = r.range(a as u64 + 1, 4) as usize;
                p.add(Op::ConcatL(l[a..b].to_vec()))
            }
            _ => {
                let cx = p.add(Op::Comp(x));
                p.add(Op::Union(cx, y))
            }
        };
        nodes.push(z);
    }
    let al = p.alpha();
    c.case(p.hash());
    let dfas = p.dfas(&al, 250);
    let mut re = ReManager::new();
    let t = p.build(&mut re);
    check_nodes(c, &p, &nodes, &t, &dfas, &al)
}

// the same constructors, or slightly different ones, around a few compound operands: nested loops,
// complements, intersections, unions, concatenations
fn contexts(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut p = Prog::default();
    let mut base = if r.chance(1, 2) {
        pats(&mut p, r, 3, 3)
    } else {
        let pal = PALETTES[r.us(2)];
        (0..3).map(|_| add_pattern(&mut p, &[rand_item(pal, r)])).collect()
    };
    base.push(if r.chance(1, 2) { p.add(Op::Eps) } else { p.add(Op::AllChar) });
    for _ in 0..r.range(1, 3) {
        let x = *r.pick(&base);
        let y = *r.pick(&base);
        base.push(match r.below(4) {
            0 => p.add(Op::Union(x, y)),
            1 => p.add(Op::Inter(x, y)),
            2 => p.add(Op::Concat(x, y)),
            _ => p.add(Op::Comp(x)),
        });
    }
    let kind = r.below(5);
    let side = *r.pick(&base);
    let mut nodes = vec![];
    for _ in 0..9 {
        let x = *r.pick(&base);
        let mut z = x;
        for _ in 0..r.range(1, 2) {
            let k = if r.chance(1, 5) { r.below(5) } else { kind };
            z = match k {
                0 | 1 => {
                    let i = *r.pick(&[0, 0, 1, 1, 2, 3]);
                    let j = match r.below(5) {
                        0..=2 => None,
                        d => Some(i + d as u32 - 2),
                    };
                    p.add(Op::MkLoop(z, i, j))
                }
                2 => p.add(Op::Comp(z)),
                3 => {
                    if r.chance(1, 2) {
                        p.add(Op::Inter(z, side))
                    } else {
                        p.add(Op::Union(z, side))
                    }
                }
                _ => {
                    if r.chance(1, 2) {
                        p.add(Op::Concat(z, side))
                    } else {
                        p.add(Op::Concat(side, z))
                    }
                }
            };
        }
        nodes.push(z);
    }
    if r.chance(1, 2) {
        nodes.extend(base);
    }
    let al = p.alpha();
    c.case(p.hash());
    let dfas = p.dfas(&al, 150);
    let mut re = ReManager::new();
    let t = p.build(&mut re);
    check_nodes(c, &p, &nodes, &t, &dfas, &al)?;
    // pruning by these answers
    let (x, y) = (*r.pick(&nodes), *r.pick(&nodes));
    if let (Some(a), Some(b)) = (&dfas[x], &dfas[y]) {
        if let Ok(d) = a.union(b, 400) {
            let u = re.union(t[x], t[y]);
            check_term(&mut re, u, &d, 0, &al, 300).map_err(|e| format!("(union {} {}): {e}", p.show(x), p.show(y)))?;
            c.count("unions_checked", 1);
        }
    }
    Ok(())
}

fn terms(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let p = diverse(r);
    let al = p.alpha();
    c.case(p.hash());
    let dfas = p.dfas(&al, 200);
    let mut re = ReManager::new();
    let t = p.build(&mut re);
    let mut nodes: Vec<usize> = (0..p.ops.len()).collect();
    r.shuffle(&mut nodes);
    nodes.truncate(14);
    check_nodes(c, &p, &nodes, &t, &dfas, &al)
}

// union_list / union over many related operands: languages of the result
fn unions(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut p = Prog::default();
    let n = r.range(2, 7) as usize;
    let mut nodes = pats(&mut p, r, n, 5);
    if r.chance(1, 3) {
        let x = *r.pick(&nodes);
        nodes.push(p.add(Op::Comp(x)));
    }
    if r.chance(1, 3) {
        let x = *r.pick(&nodes);
        let y = *r.pick(&nodes);
        nodes.push(p.add(Op::Inter(x, y)));
    }
    if r.chance(1, 3) {
        let x = *r.pick(&nodes);
        let f = p.add(Op::Full);
        nodes.push(p.add(Op::Concat(x, f)));
        nodes.push(p.add(Op::Concat(f, x)));
    }
    r.shuffle(&mut nodes);
    if r.chance(1, 2) {
        p.add(Op::UnionL(nodes));
    } else {
        let mut x = nodes[0];
        for &y in &nodes[1..] {
            x = if r.chance(1, 2) { p.add(Op::Union(x, y)) } else { p.add(Op::Union(y, x)) };
        }
    }
    c.case(p.hash());
    let al = p.alpha();
    let Some(d) = p.dfas(&al, 400).pop().unwrap() else {
        c.count("ref_capped", 1);
        return Ok(());
    };
    let mut re = ReManager::new();
    let t = p.build(&mut re);
    let s = check_term(&mut re, t[p.root()], &d, 0, &al, 300).map_err(|e| format!("{}: {e}", p.show(p.root())))?;
    c.count("unions_checked", 1);
    c.count("walk_pairs", s.pairs as u64);
    Ok(())
}

fn go_deep(c: &mut Ctx, max: u64, r: &mut Rng) -> R {
    let n = r.range(2, 4) as usize;
    let (p, al, _, _, items) = deep_list(max, n, r);
    c.case(p.hash());
    let mut re = ReManager::new();
    let t = p.build(&mut re);
    for (i, di, _) in &items {
        for (j, dj, _) in &items {
            if i == j {
                continue;
            }
            c.count("pairs", 1);
            if t[*i].included_in(t[*j]) {
                c.count("claims_true", 1);
                if let Some(w) = di.not_included(dj) {
                    return Err(format!(
                        "included_in answers true for\n  r = {}\n  s = {}\nbut {} is in r and not in s",
                        p.show(*i),
                        p.show(*j),
                        cut(show_word(&w.iter().map(|&a| al.starts[a]).collect::<Vec<_>>()))
                    ));
                }
            } else {
                c.count("claims_false", 1);
            }
        }
    }
    // a union of them all
    let mut u = items[0].1.clone();
    for (_, d, _) in &items[1..] {
        match u.union(d, 12 * max as usize + 100) {
            Ok(d) => u = d,
            Err(_) => {
                c.count("ref_capped", 1);
                return Ok(());
            }
        }
    }
    let x = re.union_list(items.iter().map(|(i, _, _)| t[*i]));
    check_term(&mut re, x, &u, 0, &al, 6 * max as usize + 1000)
        .map_err(|e| format!("(union {}): {}", items.iter().map(|(i, _, _)| p.show(*i)).collect::<Vec<_>>().join(" "), cut(e)))?;
    c.count("unions_checked", 1);
    Ok(())
}
fn deep_pairs(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_deep(c, *r.pick(&[20, 100, 300, 1_500]), r)
}
fn giant_pairs(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    go_deep(c, *r.pick(&[5_000, 20_000, 80_000]), r)
}

// ---- patterns of tens to hundreds of items: members of r are sampled and matched against s

fn matches(it: &[Item], w: &[u32]) -> bool {
    let n = w.len();
    let mut cur = vec![false; n + 1];
    cur[0] = true;
    for x in it {
        let mut next = vec![false; n + 1];
        match x {
            Item::Set(a, b) => {
                for i in 0..n {
                    next[i + 1] = cur[i] && *a <= w[i] && w[i] <= *b;
                }
            }
            Item::Any => {
                let mut on = false;
                for i in 0..=n {
                    on |= cur[i];
                    next[i] = on;
                }
            }
            Item::AnyPlus => {
                let mut on = false;
                for i in 0..=n {
                    next[i] = on;
                    on |= cur[i];
                }
            }
            Item::Rep(a, b, lo, hi) => {
                for i in 0..=n {
                    if cur[i] {
                        let mut k = 0;
                        loop {
                            if k >= *lo {
                                next[i + k as usize] = true;
                            }
                            if i + k as usize == n || hi.is_some_and(|h| k >= h) || w[i + k as usize] < *a || w[i + k as usize] > *b {
                                break;
                            }
                            k += 1;
                        }
                    }
                }
            }
            _ => unreachable!(),
        }
        cur = next;
    }
    cur[n]
}

/// a member of r, likely to look like the beginning of a member of s where r leaves freedom
fn member(it: &[Item], pal: &[u32], r: &mut Rng) -> Vec<u32> {
    let mut w = vec![];
    let lazy = r.below(3);
    for x in it {
        let (a, b, lo, hi) = match x {
            Item::Set(a, b) => (*a, *b, 1, 1),
            Item::Any => (0, MAXC, 0, 3),
            Item::AnyPlus => (0, MAXC, 1, 3),
            Item::Rep(a, b, lo, hi) => (*a, *b, *lo, hi.unwrap_or(lo + 3)),
            _ => unreachable!(),
        };
        let n = match lazy {
            0 => lo,
            _ => r.range(lo as u64, hi as u64) as u32,
        };
        let inside: Vec<u32> = pal.iter().copied().filter(|&x| a <= x && x <= b).collect();
        for _ in 0..n {
            w.push(match r.below(4) {
                0 => a,
                1 => b,
                _ if !inside.is_empty() => *r.pick(&inside),
                _ => r.range(a as u64, b as u64) as u32,
            });
        }
    }
    w
}

fn long_patterns(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let pal = *r.pick(PALETTES);
    let mut v: Vec<Vec<Item>> = vec![];
    let n = *r.pick(&[16u64, 33, 65, 130, 300]);
    let n = r.range(n * 3 / 4, n + 8);
    let anys = r.range(1, 12);
    let reps = r.chance(1, 5);
    let simple = |pal: &[u32], r: &mut Rng| loop {
        let it = if r.below(n) < anys { Item::Any } else { rand_item(pal, r) };
        if matches!(it, Item::Set(..)) || (reps && matches!(it, Item::Rep(..))) || (it == Item::Any && r.below(n) < 3 * anys) {
            return it;
        }
    };
    let first: Vec<Item> = (0..n).map(|_| simple(pal, r)).collect();
    v.push(first);
    for _ in 0..3 {
        let b = v[r.us(v.len())].clone();
        let mut it: Vec<Item> = vec![];
        // local changes only
        let noise = r.below(8).saturating_sub(5);
        for x in &b {
            if r.below(n) < noise {
                it.extend(specialise(std::slice::from_ref(x), pal, r));
            } else if *x == Item::Any {
                for _ in 0..*r.pick(&[0u64, 1, 2, 20]) {
                    it.push(simple(pal, r));
                }
                if r.chance(1, 2) {
                    it.push(Item::Any);
                }
            } else {
                it.push(x.clone());
            }
        }
        it.retain(|x| matches!(x, Item::Set(..) | Item::Rep(..) | Item::Any | Item::AnyPlus));
        v.push(it);
    }
    let mut p = Prog::default();
    let nodes: Vec<usize> = v.iter().map(|it| add_pattern(&mut p, it)).collect();
    c.case(p.hash());
    let mut re = ReManager::new();
    let t = p.build(&mut re);
    for i in 0..v.len() {
        for j in 0..v.len() {
            if i == j {
                continue;
            }
            c.count("pairs", 1);
            if !t[nodes[i]].included_in(t[nodes[j]]) {
                c.count("claims_false", 1);
                continue;
            }
            c.count("claims_true", 1);
            for _ in 0..6 {
                let w = member(&v[i], pal, r);
                c.count("members_sampled", 1);
                if !matches(&v[i], &w) {
                    return Err("HARNESS sampled word does not match its own pattern".into());
                }
                if !matches(&v[j], &w) {
                    return Err(format!(
                        "included_in answers true for\n  r = {}\n  s = {}\nbut {} is in r and not in s",
                        cut(p.show(nodes[i])),
                        cut(p.show(nodes[j])),
                        cut(show_word(&w))
                    ));
                }
            }
        }
    }
    Ok(())
}

// ---- literals between flexible parts: those of r overlap, are out of order, cut, or altered

fn segments(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let pal: &[u32] = *r.pick(&[&[97, 98][..], &[97, 98], &[97], &[97, 98, 99], &[0, MAXC], &[97, 0x10061]]);
    let lit = |n: u64, r: &mut Rng| -> Vec<Item> {
        let set = r.chance(1, 5);
        (0..n)
            .map(|_| {
                let x = *r.pick(pal);
                if set && r.chance(1, 3) {
                    let y = *r.pick(pal);
                    Item::Set(x.min(y), x.max(y))
                } else {
                    Item::Set(x, x)
                }
            })
            .collect()
    };
    let big = r.chance(1, 6);
    let k = r.range(1, 4);
    let segs: Vec<Vec<Item>> = (0..k)
        .map(|_| {
            let n = if big { r.range(1, 10) } else { r.range(1, 4) };
            lit(n, r)
        })
        .collect();
    let gap = |r: &mut Rng| match r.below(8) {
        0 => Item::AnyPlus,
        1 => Item::Rep(0, MAXC, r.below(3) as u32, None),
        2 => Item::Rep(0, MAXC, r.below(2) as u32, Some(1 + r.below(3) as u32)),
        _ => Item::Any,
    };
    // s
    let mut s: Vec<Item> = vec![];
    if r.chance(2, 3) {
        s.push(gap(r));
    }
    for (i, x) in segs.iter().enumerate() {
        if i > 0 {
            s.push(gap(r));
        }
        s.extend(x.iter().cloned());
    }
    if r.chance(2, 3) {
        s.push(gap(r));
    }
    let mut all = vec![s];
    for _ in 0..4 {
        let mut v = segs.clone();
        // at most one alteration most of the time
        for _ in 0..*r.pick(&[0u64, 0, 0, 1, 1, 2]) {
            let i = r.us(v.len());
            match r.below(6) {
                0 => {
                    v.remove(i);
                }
                1 => {
                    let j = r.us(v.len());
                    v.swap(i, j);
                }
                2 => {
                    v[i].pop();
                }
                3 => {
                    v[i].remove(0);
                }
                4 => {
                    let j = r.us(v[i].len());
                    v[i][j] = lit(1, r).remove(0);
                }
                _ => {
                    let x = v[i].clone();
                    v.insert(i, x);
                }
            }
            v.retain(|x| !x.is_empty());
            if v.is_empty() {
                break;
            }
        }
        let filler = |r: &mut Rng| {
            let n = r.below(4);
            let mut f = lit(n, r);
            if r.chance(1, 3) {
                f = vec![Item::Set(120, 120); n as usize];
            }
            f
        };
        let mut w: Vec<Item> = vec![];
        match r.below(4) {
            0 => w.push(gap(r)),
            1 => w.extend(filler(r)),
            _ => (),
        }
        for (i, x) in v.iter().enumerate() {
            let mut from = 0;
            if i > 0 {
                match r.below(5) {
                    0 => w.push(gap(r)),
                    1 => w.extend(filler(r)),
                    2 => (),
                    // as much overlap with what precedes as possible
                    _ => {
                        from = (0..=x.len().min(w.len())).rev().find(|&n| w[w.len() - n..] == x[..n]).unwrap();
                        if from == x.len() && r.chance(1, 2) {
                            from = 0;
                        }
                    }
                }
            }
            w.extend(x[from..].iter().cloned());
        }
        match r.below(4) {
            0 => w.push(gap(r)),
            1 => w.extend(filler(r)),
            _ => (),
        }
        all.push(w);
    }
    let mut p = Prog::default();
    let nodes: Vec<usize> = all.iter().map(|it| add_pattern(&mut p, it)).collect();
    let al = p.alpha();
    c.case(p.hash());
    let dfas = p.dfas(&al, 1000);
    let mut re = ReManager::new();
    let t = p.build(&mut re);
    check_nodes(c, &p, &nodes, &t, &dfas, &al)?;
    c.sample(|| nodes.iter().map(|&i| p.show(i)).collect::<Vec<_>>().join("  vs  "));
    Ok(())
}

// ---- expressions with tens of derivative classes, and parts of them

fn many_classes(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut p = super::wide::wide_prog(r.range(6, 60) as usize, r);
    let mut nodes: Vec<usize> = (0..p.ops.len()).filter(|&i| !matches!(p.ops[i], Op::Char(_) | Op::Range(..))).collect();
    while nodes.len() > 9 {
        let k = r.us(nodes.len() - 1);
        nodes.remove(k);
    }
    // unions of some operands, shuffled; sets and their complements
    for i in 0..p.ops.len() {
        if let Op::UnionL(l) = p.ops[i].clone() {
            for _ in 0..2 {
                let mut l = l.clone();
                r.shuffle(&mut l);
                l.truncate(l.len() - r.us(l.len().min(4)));
                nodes.push(p.add(Op::UnionL(l)));
            }
            break;
        }
    }
    let x = *r.pick(&nodes);
    nodes.push(p.add(Op::Comp(x)));
    let al = p.alpha();
    c.case(p.hash());
    let dfas = p.dfas(&al, 120);
    let mut re = ReManager::new();
    let t = p.build(&mut re);
    check_nodes(c, &p, &nodes, &t, &dfas, &al).map_err(cut)?;
    let (x, y) = (*r.pick(&nodes), *r.pick(&nodes));
    if let (Some(a), Some(b)) = (&dfas[x], &dfas[y]) {
        if let Ok(d) = a.union(b, 300) {
            let u = re.union(t[x], t[y]);
            check_term(&mut re, u, &d, 0, &al, 200).map_err(|e| cut(format!("(union {} {}): {e}", p.show(x), p.show(y))))?;
            c.count("unions_checked", 1);
        }
    }
    Ok(())
}
