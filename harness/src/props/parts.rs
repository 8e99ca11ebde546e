//! Reference model of character partitions and layouts shared by C11, C12 and C20.

use crate::dfa::{Alpha, MAXC};
use crate::rng::*;
use crate::walk::bounds;
use aws_smt_strings::character_sets::{CharPartition, CharSet, ClassId};

/// sorted disjoint intervals
pub type Ivs = Vec<(u32, u32)>;

pub fn class_of(p: &Ivs, c: u32) -> Option<usize> {
    p.iter().position(|&(a, b)| a <= c && c <= b)
}

/// faster version for large partitions (p is sorted)
pub fn class_of_sorted(p: &Ivs, c: u32) -> Option<usize> {
    let i = p.partition_point(|&(_, b)| b < c);
    (i < p.len() && p[i].0 <= c).then_some(i)
}

pub fn cid(x: Option<usize>) -> ClassId {
    match x {
        Some(i) => ClassId::Interval(i),
        None => ClassId::Complement,
    }
}

pub fn covers_alphabet(p: &Ivs) -> bool {
    let mut next = 0;
    for &(a, b) in p {
        if a != next {
            return false;
        }
        next = b + 1;
    }
    next > MAXC
}

/// All layouts over k unit positions: position = complement, start of an interval, or
/// continuation of the interval of the previous position.
pub fn layouts(k: usize) -> Vec<Vec<(usize, usize)>> {
    fn rec(i: usize, k: usize, cur: &mut Vec<(usize, usize)>, out: &mut Vec<Vec<(usize, usize)>>) {
        if i == k {
            out.push(cur.clone());
            return;
        }
        rec(i + 1, k, cur, out);
        for j in i..k {
            cur.push((i, j));
            rec(j + 1, k, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    rec(0, k, &mut vec![], &mut out);
    out
}

/// Coordinate systems: k cells, each an interval of characters, in increasing order.
pub fn cells(k: usize, system: usize) -> Vec<(u32, u32)> {
    let k32 = k as u32;
    match system {
        // unit cells at the bottom
        0 => (0..k32).map(|i| (i, i)).collect(),
        // unit cells at the top
        1 => (0..k32).map(|i| (MAXC + 1 - k32 + i, MAXC + 1 - k32 + i)).collect(),
        // the whole alphabet
        2 => {
            let w = (MAXC + 1) / k32;
            (0..k32).map(|i| (i * w, if i + 1 == k32 { MAXC } else { (i + 1) * w - 1 })).collect()
        }
        // whole alphabet: unit cells at both ends, one wide cell in the middle
        3 => {
            let m = k / 2;
            (0..k)
                .map(|i| {
                    if i < m {
                        (i as u32, i as u32)
                    } else if i == m {
                        (m as u32, MAXC - (k - m - 1) as u32)
                    } else {
                        (MAXC - (k - 1 - i) as u32, MAXC - (k - 1 - i) as u32)
                    }
                })
                .collect()
        }
        // separated cells of growing width, strictly inside the alphabet
        _ => (0..k32).map(|i| (100 + i * 1000, 100 + i * 1000 + i * 7)).collect(),
    }
}

pub const SYSTEMS: usize = 5;

pub fn instance(l: &[(usize, usize)], cells: &[(u32, u32)]) -> Ivs {
    l.iter().map(|&(i, j)| (cells[i].0, cells[j].1)).collect()
}

/// characters that matter for the given points: the points and their neighbours, and the ends
pub fn neighbours(v: impl Iterator<Item = u32>) -> Vec<u32> {
    let mut out = vec![0, 1, MAXC - 1, MAXC];
    for x in v {
        out.push(x);
        if x > 0 {
            out.push(x - 1);
        }
        if x < MAXC {
            out.push(x + 1);
        }
    }
    out.sort_unstable();
    out.dedup();
    out
}

pub fn points(p: &Ivs) -> Vec<u32> {
    neighbours(p.iter().flat_map(|&(a, b)| [a, b]))
}

pub fn pushed(p: &Ivs) -> CharPartition {
    let mut x = CharPartition::new();
    for &(a, b) in p {
        x.push(a, b);
    }
    x
}

pub fn sets(p: &Ivs) -> Vec<CharSet> {
    p.iter().map(|&(a, b)| CharSet::range(a, b)).collect()
}

pub fn ranges_of(p: &CharPartition) -> Ivs {
    p.ranges().map(bounds).collect()
}

pub fn rand_ivs(r: &mut Rng, max: u64) -> Ivs {
    let n = match r.below(8) {
        0 => r.below(3),
        1..=5 => r.below(max.min(12) + 1),
        _ => r.below(max + 1),
    } as usize;
    let style = r.below(5);
    let mut cuts: Vec<u32> = vec![];
    while cuts.len() < 2 * n {
        let x = match style {
            0 => r.below(2 * n as u64 + 4),
            1 => MAXC as u64 - r.below(2 * n as u64 + 4),
            2 => 97 + r.below(3 * n as u64 + 3),
            _ => r.below(MAXC as u64 + 1),
        } as u32;
        if !cuts.contains(&x) {
            cuts.push(x);
        }
    }
    cuts.sort_unstable();
    let mut v: Ivs = vec![];
    let mut i = 0;
    while i + 1 < cuts.len() {
        if r.chance(1, 4) {
            v.push((cuts[i], cuts[i]));
            i += 1;
        } else {
            // up to the next cut, or adjacent to it
            let b = if r.chance(1, 3) { cuts[i + 1] - 1 } else { cuts[i + 1] };
            v.push((cuts[i], b));
            i += if b == cuts[i + 1] { 2 } else { 1 };
        }
    }
    if r.chance(1, 8) && !v.is_empty() {
        v[0].0 = 0;
        v.last_mut().unwrap().1 = MAXC;
    }
    if r.chance(1, 8) {
        // close all gaps
        for i in 1..v.len() {
            v[i].0 = v[i - 1].1 + 1;
        }
    }
    v
}

/// elementary alphabet of several partitions
pub fn joint(ps: &[&Ivs]) -> Alpha {
    Alpha::new(ps.iter().flat_map(|p| p.iter().flat_map(|&(a, b)| [a, b + 1])).collect())
}

pub fn show(p: &Ivs) -> String {
    let mut s = String::from("{");
    for (i, (a, b)) in p.iter().enumerate() {
        if i == 24 {
            s.push_str(&format!(" ... {} intervals", p.len()));
            break;
        }
        s.push_str(&format!(" [{a:#x}, {b:#x}]"));
    }
    s.push_str(" }");
    s
}

pub fn hash(h: &mut H, p: &Ivs) {
    h.u(p.len() as u64);
    for &(a, b) in p {
        h.u((a as u64) << 32 | b as u64);
    }
}

/// thousands of intervals (more than 2^16 when huge)
pub fn giant_ivs(huge: bool, r: &mut Rng) -> Ivs {
    let n = if huge { r.range(65_500, 98_000) } else { r.range(250, 5000) } as u32;
    // average room per interval
    let room = (MAXC + 1) / n;
    let style = r.below(4);
    let mut v: Ivs = vec![];
    let mut at = if r.chance(1, 2) { 0 } else { r.below(room as u64 + 1) as u32 };
    for _ in 0..n {
        let w = if room < 3 || style == 0 { 0 } else { r.below(room as u64) as u32 };
        if at + w > MAXC {
            break;
        }
        v.push((at, at + w));
        let gap = match style {
            0 => r.below(room as u64) as u32,
            1 => 0,
            2 => r.chance(1, 2) as u32,
            _ => (room - 1).saturating_sub(w),
        };
        at += w + 1 + gap;
    }
    if r.chance(1, 8) {
        v[0].0 = 0;
        v.last_mut().unwrap().1 = MAXC;
    }
    v
}
