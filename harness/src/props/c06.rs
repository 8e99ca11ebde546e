//! C06: string search/substring/replace functions against the definitions of the SMT-LIB theory.

use crate::ctx::*;
use crate::dfa::MAXC;
use crate::ensure;
use crate::rng::*;
use crate::rx::{show_word, sstr};
use crate::Family;
use aws_smt_strings::smt_strings::*;

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "exhaustive-ab", quick: 127, thorough: 511, enumerated: true, run: exhaustive_ab },
        Family { name: "exhaustive-extreme", quick: 121, thorough: 364, enumerated: true, run: exhaustive_3 },
        Family { name: "seams", quick: 46 * 46, thorough: 46 * 46, enumerated: true, run: seams },
        Family { name: "surrogates", quick: 1024, thorough: 1024, enumerated: true, run: surrogates },
        Family { name: "random", quick: 600_000, thorough: 100_000_000, enumerated: false, run: random },
        Family { name: "periodic", quick: 300_000, thorough: 50_000_000, enumerated: false, run: periodic },
        Family { name: "long", quick: 160, thorough: 6_000, enumerated: false, run: long },
        Family { name: "look-alikes", quick: 60_000, thorough: 10_000_000, enumerated: false, run: look_alikes },
        Family { name: "long-patterns", quick: 6_000, thorough: 600_000, enumerated: false, run: long_patterns },
        Family { name: "needles", quick: 40_000, thorough: 8_000_000, enumerated: false, run: needles },
        Family { name: "giant", quick: 24, thorough: 2_000, enumerated: false, run: giant_patterns },
    ]
}

// ---- the theory, on sequences of code points

fn occurs(s: &[u32], p: &[u32], k: usize) -> bool {
    k + p.len() <= s.len() && &s[k..k + p.len()] == p
}

/// least occurrence of p in s at or after k
fn first(s: &[u32], p: &[u32], k: usize) -> Option<usize> {
    (k..=s.len()).find(|&j| occurs(s, p, j))
}

fn substr(s: &[u32], i: i64, n: i64) -> Vec<u32> {
    let l = s.len() as i64;
    if i < 0 || i >= l || n <= 0 {
        return vec![];
    }
    s[i as usize..(i + n).min(l) as usize].to_vec()
}

fn indexof(s: &[u32], p: &[u32], i: i64) -> i64 {
    if i < 0 || i > s.len() as i64 {
        return -1;
    }
    first(s, p, i as usize).map_or(-1, |j| j as i64)
}

fn replace(s: &[u32], p: &[u32], r: &[u32]) -> Vec<u32> {
    match first(s, p, 0) {
        None => s.to_vec(),
        Some(j) => [&s[..j], r, &s[j + p.len()..]].concat(),
    }
}

fn replace_all(s: &[u32], p: &[u32], r: &[u32]) -> Vec<u32> {
    if p.is_empty() {
        return s.to_vec();
    }
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        if occurs(s, p, i) {
            out.extend_from_slice(r);
            i += p.len();
        } else {
            out.push(s[i]);
            i += 1;
        }
    }
    out
}

fn raw(s: &SmtString) -> Vec<u32> {
    s.iter().copied().collect()
}

fn eq(got: &SmtString, want: &[u32], what: impl Fn() -> String) -> R {
    let g = raw(got);
    ensure!(g == want, "{} = {}, expected {}", what(), show_word(&g), show_word(want));
    ensure!(got.len() == want.len(), "{}: wrong length", what());
    Ok(())
}

pub fn indices(l: usize, out: &mut Vec<i32>) {
    out.clear();
    out.extend([i32::MIN, i32::MIN + 1, -65536, -256, -2, -1]);
    out.extend(0..=(l as i32 + 3));
    out.extend([255, 256, 257, 65535, 65536, 65537, 1 << 24, i32::MAX - 1, i32::MAX]);
    let l = l as i64;
    // values that overflow when added to an index
    for x in [i32::MAX as i64 - l, i32::MAX as i64 - l + 1, i32::MIN as i64 + l, -l, -l - 1] {
        out.push(x as i32);
    }
    out.sort();
    out.dedup();
}

fn check_one(c: &mut Ctx, s: &[u32], ss: &SmtString, idx: &[i32]) -> R {
    let w = |f: &str| format!("{f}({})", show_word(s));
    ensure!(str_len(ss) as i64 == s.len() as i64, "{} = {}", w("str_len"), str_len(ss));
    for &i in idx {
        eq(&str_at(ss, i), &substr(s, i as i64, 1), || format!("str_at({}, {i})", show_word(s)))?;
        for &n in idx {
            eq(&str_substr(ss, i, n), &substr(s, i as i64, n as i64), || format!("str_substr({}, {i}, {n})", show_word(s)))?;
        }
    }
    c.count("calls", (idx.len() * (idx.len() + 1) + 1) as u64);
    ensure!(raw(ss) == s, "{}: the argument was modified", show_word(s));
    Ok(())
}

fn check_two(c: &mut Ctx, s: &[u32], ss: &SmtString, p: &[u32], ps: &SmtString, idx: &[i32]) -> R {
    let w = |f: &str| format!("{f}({}, {})", show_word(s), show_word(p));
    eq(&str_concat(ss, ps), &[s, p].concat(), || w("str_concat"))?;
    let (pre, suf, sub) = (
        (s.len() <= p.len()) && p[..s.len()] == *s,
        (s.len() <= p.len()) && p[p.len() - s.len()..] == *s,
        first(s, p, 0).is_some(),
    );
    let (pre2, suf2) = (occurs(s, p, 0), s.len() >= p.len() && occurs(s, p, s.len() - p.len()));
    ensure!(str_prefixof(ss, ps) == pre, "{} is not {pre}", w("str_prefixof"));
    ensure!(str_suffixof(ss, ps) == suf, "{} is not {suf}", w("str_suffixof"));
    ensure!(str_prefixof(ps, ss) == pre2, "str_prefixof({}, {}) is not {pre2}", show_word(p), show_word(s));
    ensure!(str_suffixof(ps, ss) == suf2, "str_suffixof({}, {}) is not {suf2}", show_word(p), show_word(s));
    ensure!(str_contains(ss, ps) == sub, "{} is not {sub}", w("str_contains"));
    for &i in idx {
        let got = str_indexof(ss, ps, i) as i64;
        let want = indexof(s, p, i as i64);
        ensure!(got == want, "str_indexof({}, {}, {i}) = {got}, expected {want}", show_word(s), show_word(p));
        if want >= 0 {
            c.count("indexof_found", 1);
        }
    }
    c.count("calls", 6 + idx.len() as u64);
    if sub {
        c.count("contained", 1);
    }
    Ok(())
}

fn check_three(c: &mut Ctx, s: &[u32], ss: &SmtString, p: &[u32], ps: &SmtString, r: &[u32], rs: &SmtString) -> R {
    let w = |f: &str| format!("{f}({}, {}, {})", show_word(s), show_word(p), show_word(r));
    eq(&str_replace(ss, ps, rs), &replace(s, p, r), || w("str_replace"))?;
    let all = replace_all(s, p, r);
    eq(&str_replace_all(ss, ps, rs), &all, || w("str_replace_all"))?;
    c.count("calls", 2);
    if all != s {
        c.count("replacements", 1);
    }
    Ok(())
}

/// the i-th word over an alphabet, shortest first
pub fn nth_word(mut i: u64, alpha: &[u32]) -> Vec<u32> {
    let k = alpha.len() as u64;
    let mut v = vec![];
    while i > 0 {
        i -= 1;
        v.push(alpha[(i % k) as usize]);
        i /= k;
    }
    v.reverse();
    v
}

fn exhaustive(c: &mut Ctx, idx: u64, alpha: &[u32], np: u64, reps: u64) -> R {
    let s = nth_word(idx, alpha);
    let ss = sstr(&s);
    let mut ix = vec![];
    indices(s.len(), &mut ix);
    check_one(c, &s, &ss, &ix)?;
    c.evals += 1;
    c.enumerated += 1;
    for j in 0..np {
        let p = nth_word(j, alpha);
        let ps = sstr(&p);
        check_two(c, &s, &ss, &p, &ps, &ix)?;
        c.evals += 1;
        c.enumerated += 1;
        for k in 0..reps {
            let r = nth_word(k, alpha);
            check_three(c, &s, &ss, &p, &ps, &r, &sstr(&r))?;
            c.evals += 1;
            c.enumerated += 1;
        }
        // the pattern or the text as the replacement (aliased arguments)
        check_three(c, &s, &ss, &p, &ps, &p, &ps)?;
        check_three(c, &s, &ss, &p, &ps, &s, &ss)?;
    }
    check_two(c, &s, &ss, &s, &ss, &ix)?;
    check_three(c, &s, &ss, &s, &ss, &s, &ss)?;
    c.sample(|| show_word(&s));
    Ok(())
}

fn exhaustive_ab(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    exhaustive(c, idx, &[97, 98], 127, 15)
}

fn exhaustive_3(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    exhaustive(c, idx, &[0, 0x100, MAXC], 40, 13)
}

/// two special characters brought together by every operation
fn seams(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    let (x, y) = (SPECIAL[idx as usize / 46].min(MAXC), SPECIAL[idx as usize % 46].min(MAXC));
    let ix = [-1, 0, 1, 2, 3, 4];
    c.evals += 1;
    c.enumerated += 1;
    let words = [vec![], vec![x], vec![y], vec![x, y], vec![y, x], vec![x, x], vec![97, x], vec![y, 98], vec![x, 97, y], vec![97, x, y], vec![x, y, 98]];
    for s in &words {
        let ss = sstr(s);
        check_one(c, s, &ss, &ix)?;
        for p in &words {
            let ps = sstr(p);
            check_two(c, s, &ss, p, &ps, &ix)?;
            for t in &words[..6] {
                check_three(c, s, &ss, p, &ps, t, &sstr(t))?;
            }
        }
        check_three(c, s, &ss, &[97], &sstr(&[97]), &[], &sstr(&[]))?;
        check_three(c, s, &ss, &[97], &sstr(&[97]), &[x], &sstr(&[x]))?;
    }
    c.sample(|| show_word(&[x, y]));
    Ok(())
}

/// every high surrogate next to every low surrogate
fn surrogates(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    let hi = 0xD800 + idx as u32;
    let a = sstr(&[97, hi]);
    let sep = sstr(&[97]);
    let nothing = sstr(&[]);
    for lo in 0xDC00..0xE000 {
        let b = sstr(&[lo, 98]);
        eq(&str_concat(&a, &b), &[97, hi, lo, 98], || "str_concat".to_string())?;
        let s = sstr(&[hi, 97, lo]);
        eq(&str_replace(&s, &sep, &nothing), &[hi, lo], || "str_replace".to_string())?;
        eq(&str_replace_all(&s, &sep, &nothing), &[hi, lo], || "str_replace_all".to_string())?;
        let t = sstr(&[hi, lo]);
        eq(&str_replace(&a, &sstr(&[hi]), &t), &[97, hi, lo], || "str_replace".to_string())?;
        eq(&str_substr(&t, 0, 1), &[hi], || "str_substr".to_string())?;
        eq(&str_at(&t, 1), &[lo], || "str_at".to_string())?;
        ensure!(str_len(&t) == 2 && str_contains(&t, &sstr(&[lo])) && str_indexof(&t, &sstr(&[lo]), 0) == 1, "search in {}", show_word(&[hi, lo]));
        c.evals += 1;
        c.enumerated += 1;
    }
    c.sample(|| format!("{hi:#x} before all low surrogates"));
    Ok(())
}

fn rand_str(alpha: &[u32], max: u64, r: &mut Rng) -> Vec<u32> {
    let n = r.below(max + 1);
    (0..n).map(|_| *r.pick(alpha)).collect()
}

pub fn rand_alphabet(r: &mut Rng) -> Vec<u32> {
    match r.below(8) {
        6 => {
            let (h, l) = (0xD800 + r.below(0x400) as u32, 0xDC00 + r.below(0x400) as u32);
            vec![h, l, *r.pick(&[0xDBFF, 97]), *r.pick(&[0xDC00, 98])]
        }
        7 => (0..r.range(2, 6)).map(|_| special_char(r)).collect(),
        0 => vec![97],
        1 => vec![97, 98],
        2 => vec![0, MAXC, 0xFFFD],
        3 => vec![0x61, 0x161, 0x10061, 0x20061],
        4 => vec![92, 117, 123, 125, 34, 48],
        _ => (0..r.range(1, 6)).map(|_| r.below(MAXC as u64 + 1) as u32).collect(),
    }
}

fn some_indices(l: usize, r: &mut Rng) -> Vec<i32> {
    let mut all = vec![];
    indices(l, &mut all);
    let mut v: Vec<i32> = (0..4).map(|_| *r.pick(&all)).collect();
    v.push(r.below(l as u64 + 2) as i32);
    v.push(r.next() as i32);
    v.push((r.next() as i32) & 0xffff);
    v
}

fn check_all(c: &mut Ctx, s: &[u32], p: &[u32], t: &[u32], r: &mut Rng) -> R {
    let (ss, ps, ts) = (sstr(s), sstr(p), sstr(t));
    let ix = some_indices(s.len(), r);
    let mut h = H::new();
    h.s(s).s(p).s(t);
    c.case(h.0);
    check_one(c, s, &ss, &ix)?;
    check_two(c, s, &ss, p, &ps, &ix)?;
    check_three(c, s, &ss, p, &ps, t, &ts)?;
    c.sample(|| format!("{}, {}, {}", show_word(s), show_word(p), show_word(t)));
    Ok(())
}

fn random(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let al = rand_alphabet(r);
    let s = rand_str(&al, 40, r);
    let p = if !s.is_empty() && r.chance(3, 4) {
        // a factor of s, sometimes with one changed or one more character
        let i = r.us(s.len());
        let n = r.us((s.len() - i).min(12)) + 1;
        let mut p = s[i..(i + n).min(s.len())].to_vec();
        match r.below(5) {
            0 => {
                let k = r.us(p.len());
                p[k] = *r.pick(&al);
            }
            1 => p.push(*r.pick(&al)),
            _ => (),
        }
        p
    } else {
        rand_str(&al, 5, r)
    };
    let t = match r.below(4) {
        0 => p.clone(),
        1 => [&p[..], &p[..]].concat(),
        _ => rand_str(&al, 6, r),
    };
    check_all(c, &s, &p, &t, r)
}

fn periodic(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let al = rand_alphabet(r);
    let base = rand_str(&al, 4, r);
    let mut s = vec![];
    for _ in 0..r.range(1, 12) {
        s.extend_from_slice(&base);
        if r.chance(1, 6) {
            s.push(*r.pick(&al));
        }
        if r.chance(1, 6) {
            s.pop();
        }
    }
    let n = r.us(s.len().min(10) + 1);
    let mut p: Vec<u32> = base.iter().cycle().take(if base.is_empty() { 0 } else { n }).copied().collect();
    if r.chance(1, 3) && !p.is_empty() {
        let k = p.len() - 1;
        p[k] = *r.pick(&al);
    }
    let t = if r.chance(1, 3) { rand_str(&al, 3, r) } else { base };
    check_all(c, &s, &p, &t, r)
}

/// texts longer than 2^8 and 2^16
fn long(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let al = rand_alphabet(r);
    let n = match i % 4 {
        0 => r.range(250, 260),
        1 => r.range(1000, 3000),
        2 => r.range(65530, 65540),
        _ => r.range(66000, 140_000),
    } as usize;
    let filler = rand_str(&al, 3, r);
    let mut s: Vec<u32> = vec![];
    while s.len() < n {
        s.extend_from_slice(&filler);
        s.push(*r.pick(&al));
    }
    let marker = MAXC - 1;
    let at = s.len() - 1 - r.us(20);
    s[at] = marker;
    let mut p = vec![marker];
    if r.chance(1, 2) {
        p.push(s[(at + 1).min(s.len() - 1)]);
    }
    let t = rand_str(&al, 5, r);
    let (ss, ps, ts) = (sstr(&s), sstr(&p), sstr(&t));
    let mut h = H::new();
    h.s(&s).s(&p).s(&t);
    c.case(h.0);
    let l = s.len() as i32;
    for a in [0, 1, 200, 255, 256, 257, at as i32 - 1, at as i32, at as i32 + 1, l - 1, l, l + 1, 65535, 65536, 65537, i32::MAX, -1] {
        eq(&str_at(&ss, a), &substr(&s, a as i64, 1), || format!("str_at(a string of length {l}, {a})"))?;
        for b in [0, 1, 255, 256, 65535, 65536, 65537, l - a.min(l), l, i32::MAX, -1] {
            let want = substr(&s, a as i64, b as i64);
            ensure!(raw(&str_substr(&ss, a, b)) == want, "str_substr(a string of length {l}, {a}, {b}) is wrong");
        }
        let want = indexof(&s, &p, a as i64);
        let got = str_indexof(&ss, &ps, a) as i64;
        ensure!(got == want, "str_indexof in a string of length {l} from {a} gives {got}, expected {want}");
        let want = indexof(&s, &[], a as i64);
        let got = str_indexof(&ss, &EMPTY, a) as i64;
        ensure!(got == want, "str_indexof of the empty string in a string of length {l} from {a} gives {got}, expected {want}");
    }
    ensure!(str_len(&ss) == l, "str_len is {} for a string of length {l}", str_len(&ss));
    ensure!(str_contains(&ss, &ps) == first(&s, &p, 0).is_some(), "str_contains on a string of length {l}");
    ensure!(raw(&str_replace(&ss, &ps, &ts)) == replace(&s, &p, &t), "str_replace on a string of length {l}");
    ensure!(raw(&str_replace_all(&ss, &ps, &ts)) == replace_all(&s, &p, &t), "str_replace_all on a string of length {l}");
    let one = vec![*r.pick(&al)];
    ensure!(
        raw(&str_replace_all(&ss, &sstr(&one), &ts)) == replace_all(&s, &one, &t),
        "str_replace_all of a character on a string of length {l}"
    );
    ensure!(raw(&str_concat(&ss, &ss)) == [&s[..], &s[..]].concat(), "str_concat of strings of length {l}");
    let k = r.us(s.len());
    let (pre, suf) = (sstr(&s[..k]), sstr(&s[k..]));
    ensure!(str_prefixof(&pre, &ss) && str_suffixof(&suf, &ss), "prefix/suffix of a string of length {l}");
    let mut q = s[..k].to_vec();
    if let Some(x) = q.last_mut() {
        *x ^= 1;
        ensure!(!str_prefixof(&sstr(&q), &ss), "str_prefixof: last character differs, length {k}");
    }
    let mut q = s[k..].to_vec();
    q[0] ^= 1;
    ensure!(!str_suffixof(&sstr(&q), &ss), "str_suffixof: first character differs");
    c.count("calls", 17 * 14 + 8);
    c.max("length", s.len() as u64);
    Ok(())
}

/// a word of the same length that many digests or truncations confuse with p
fn confusable(p: &[u32], r: &mut Rng) -> Vec<u32> {
    let mut q = p.to_vec();
    let n = q.len();
    match r.below(8) {
        // same value in some base: digest modulo anything
        0 | 1 | 2 if n >= 2 => {
            const BASES: [u32; 24] = [2, 3, 7, 10, 16, 31, 32, 33, 37, 64, 127, 128, 131, 137, 251, 255, 256, 257, 509, 911, 1009, 8191, 65536, 65599];
            let b = *r.pick(&BASES);
            for _ in 0..r.range(1, 2) {
                let i = r.range(1, n as u64 - 1) as usize;
                // most significant first, or last
                let (hi, lo) = if r.chance(3, 4) { (i - 1, i) } else { (i, i - 1) };
                if q[lo] >= b && q[hi] < MAXC {
                    q[lo] -= b;
                    q[hi] += 1;
                } else if q[lo] + b <= MAXC && q[hi] > 0 {
                    q[lo] += b;
                    q[hi] -= 1;
                }
            }
        }
        // same multiset
        3 if n >= 2 => {
            let (i, j) = (r.us(n), r.us(n));
            q.swap(i, j);
        }
        4 => q.reverse(),
        5 if n >= 1 => {
            let k = 1 + r.us(n);
            q.rotate_left(k % n);
        }
        // equal low bits
        6 if n >= 1 => {
            let i = r.us(n);
            let d = *r.pick(&[0x80, 0x100, 0x8000, 0x10000, 0x20000]);
            q[i] = if q[i] >= d { q[i] - d } else { (q[i] + d).min(MAXC) };
        }
        // same sum or xor
        _ if n >= 2 => {
            let (i, j) = (r.us(n), r.us(n));
            if i != j {
                let d = 1 << r.below(8);
                if r.chance(1, 2) && q[i] >= d && q[j] + d <= MAXC {
                    q[i] -= d;
                    q[j] += d;
                } else if q[i] ^ d <= MAXC && q[j] ^ d <= MAXC {
                    q[i] ^= d;
                    q[j] ^= d;
                }
            }
        }
        _ => (),
    }
    q
}

/// texts made of words that are close to the pattern
fn look_alikes(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let al: Vec<u32> = if r.chance(1, 2) { (0x20..0x7F).collect() } else { (0..4).map(|_| r.below(MAXC as u64 + 1) as u32).collect() };
    let n = if r.chance(1, 5) { r.range(8, 40) } else { r.range(1, 7) };
    let p: Vec<u32> = (0..n).map(|_| *r.pick(&al)).collect();
    let mut s = vec![];
    for _ in 0..r.range(1, 12) {
        match r.below(8) {
            0 => s.extend_from_slice(&p),
            1 => s.push(*r.pick(&al)),
            2 => s.extend_from_slice(&p[..r.us(p.len() + 1)]),
            _ => s.extend(confusable(&p, r)),
        }
    }
    let t = if r.chance(1, 3) { confusable(&p, r) } else { rand_str(&al, 6, r) };
    check_all(c, &s, &p, &t, r)?;
    let q = confusable(&p, r);
    check_all(c, &p, &q, &t, r)
}

/// a pattern that occurs at one or two places of a long, monotonous text: at its ends, around its
/// middle and around multiples of powers of two
fn needles(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let al = rand_alphabet(r);
    let n = match r.below(4) {
        0 => r.range(10, 70),
        1 => r.range(60, 300),
        2 => *r.pick(&[128u64, 256, 512, 1024, 2048]) + r.below(5) - 2,
        _ => r.range(500, 2100),
    } as usize;
    let filler = rand_str(&al, 3, r);
    let filler = if filler.is_empty() { vec![97] } else { filler };
    let mut s: Vec<u32> = filler.iter().cycle().take(n).copied().collect();
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 6) {
            let k = r.us(n);
            s[k] = *r.pick(&al);
        }
    }
    let m = (if r.chance(1, 6) { r.range(8, 70) } else { r.range(1, 8) } as usize).min(n);
    let p: Vec<u32> = match r.below(3) {
        0 => (0..m).map(|_| special_char(r)).collect(),
        1 => (0..m).map(|_| 98 + r.below(4) as u32).collect(),
        _ => {
            // filler and something else
            let k = r.us(m);
            (0..m).map(|i| if i == k { special_char(r) } else { *r.pick(&filler) }).collect()
        }
    };
    for _ in 0..r.range(1, 2) {
        let b = match r.below(6) {
            0 => 0,
            1 => n,
            2 | 3 => n / 2,
            4 => {
                let b = *r.pick(&[8usize, 16, 32, 64, 128, 256, 512, 1024]);
                b * r.us(n / b + 1)
            }
            _ => r.us(n + 1),
        };
        // the occurrence begins up to m characters before the place
        let i = b.saturating_sub(r.us(m + 1)).min(n - m);
        let w = if r.chance(5, 6) { p.clone() } else { confusable(&p, r) };
        s[i..i + m].copy_from_slice(&w);
    }
    let t = match r.below(3) {
        0 => vec![],
        1 => rand_str(&al, 5, r),
        _ => p[..r.us(m)].to_vec(),
    };
    let (ss, ps, ts) = (sstr(&s), sstr(&p), sstr(&t));
    let mut h = H::new();
    h.s(&s).s(&p).s(&t);
    c.case(h.0);
    let mut ix = vec![0, 1, n as i32 / 2, n as i32 - m as i32, n as i32 - m as i32 + 1, n as i32];
    if let Some(j) = first(&s, &p, 0) {
        ix.extend([j as i32, j as i32 + 1]);
    }
    let short = |e: String| e.chars().take(600).collect::<String>();
    check_two(c, &s, &ss, &p, &ps, &ix).map_err(short)?;
    check_three(c, &s, &ss, &p, &ps, &t, &ts).map_err(short)?;
    c.max("length", n as u64);
    Ok(())
}

/// longest proper border structure: periodic words with a few changes, as texts and patterns
fn hard_text(n: usize, r: &mut Rng) -> Vec<u32> {
    let al = rand_alphabet(r);
    match r.below(3) {
        0 => {
            // Fibonacci word
            let (mut a, mut b) = (vec![al[0]], vec![*al.last().unwrap()]);
            while b.len() < n {
                let x = [&b[..], &a[..]].concat();
                a = b;
                b = x;
            }
            b.truncate(n);
            b
        }
        1 => {
            let m = r.range(1, 12) as usize;
            let base: Vec<u32> = (0..m).map(|_| *r.pick(&al)).collect();
            let mut s: Vec<u32> = base.iter().cycle().take(n).copied().collect();
            for _ in 0..r.below(4) {
                let k = r.us(n);
                s[k] = *r.pick(&al);
            }
            s
        }
        _ => (0..n).map(|_| *r.pick(&al)).collect(),
    }
}

/// patterns longer than a machine word, than 2^8, ...
fn long_patterns(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let n = r.range(100, 900) as usize;
    let s = hard_text(n, r);
    let m = *r.pick(&[31u64, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]) + r.below(2) * r.below(40);
    let m = (m as usize).min(n);
    let i = r.us(n - m + 1);
    let mut p = s[i..i + m].to_vec();
    match r.below(4) {
        0 => {
            let k = r.us(m);
            p[k] = (p[k] + 1).min(MAXC);
        }
        1 => p = confusable(&p, r),
        _ => (),
    }
    let t = match r.below(3) {
        0 => vec![],
        1 => p[..m / 2].to_vec(),
        _ => hard_text(r.range(1, 300) as usize, r),
    };
    let mut s = s;
    if r.chance(1, 3) {
        let x = s.clone();
        s.extend(x);
    }
    check_all(c, &s, &p, &t, r)
}

/// patterns, texts and replacements longer than 2^16
fn giant_patterns(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let n = r.range(65_500, 70_000) as usize;
    // the separator occurs at the ends only: occurrences are easy to see
    let mut p = hard_text(n, r);
    p.iter_mut().for_each(|x| *x = (*x).min(MAXC - 1));
    p[0] = MAXC;
    if r.chance(1, 2) {
        p[n - 1] = MAXC;
    }
    let mut near = p.clone();
    let k = n - 1 - r.us(2) * r.us(n - 1);
    near[k] = if near[k] == 5 { 6 } else { 5 };
    let t = if r.chance(1, 2) { rand_str(&[97], 3, r) } else { hard_text(r.range(65_500, 70_000) as usize, r) };
    let mut s = vec![];
    let k = r.range(1, 3);
    for j in 0..k {
        if r.chance(1, 2) {
            s.extend_from_slice(&near);
        }
        if (i + j) % 4 != 0 {
            s.extend_from_slice(&p);
        }
        let m = r.below(5) as usize;
        s.extend_from_slice(&near[1..1 + m]);
    }
    let (ss, ps, ts) = (sstr(&s), sstr(&p), sstr(&t));
    let mut h = H::new();
    h.s(&s).s(&p).s(&t);
    c.case(h.0);
    let l = s.len() as i32;
    let ix = [0, 1, 65535, 65536, 65537, l - n as i32 - 1, l - n as i32, l - n as i32 + 1, l - 1, l, l + 1, i32::MAX, -1];
    check_two(c, &s, &ss, &p, &ps, &ix).map_err(|e| e.chars().take(300).collect::<String>())?;
    check_three(c, &s, &ss, &p, &ps, &t, &ts).map_err(|e| e.chars().take(300).collect::<String>())?;
    c.max("length", s.len() as u64);
    c.max("pattern_length", n as u64);
    Ok(())
}
