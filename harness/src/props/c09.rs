//! C09: lexicographic order and integer/code conversions, with and without overflow checks.

use crate::ctx::*;
use crate::dfa::MAXC;
use crate::ensure;
use crate::props::c06::{nth_word, rand_alphabet};
use crate::rng::*;
use crate::rx::{show_word, sstr};
use crate::Family;
use aws_smt_strings::smt_strings::*;
use std::cmp::Ordering;

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "codes", quick: 0x300, thorough: 0x300, enumerated: true, run: codes },
        Family { name: "code-limits", quick: 1, thorough: 1, enumerated: true, run: code_limits },
        Family { name: "order-small", quick: 160, thorough: 585, enumerated: true, run: order_small },
        Family { name: "order-random", quick: 1_000_000, thorough: 200_000_000, enumerated: false, run: order_random },
        Family { name: "order-prefixed", quick: 300_000, thorough: 50_000_000, enumerated: false, run: order_prefixed },
        Family { name: "order-long", quick: 400, thorough: 40_000, enumerated: false, run: order_long },
        Family { name: "to-int-long", quick: 200, thorough: 20_000, enumerated: false, run: to_int_long },
        Family { name: "digits-small", quick: 11_111, thorough: 111_111, enumerated: true, run: digits_small },
        Family { name: "int-boundary", quick: 1, thorough: 1, enumerated: true, run: int_boundary },
        Family { name: "to-int", quick: 1_000_000, thorough: 200_000_000, enumerated: false, run: to_int_random },
        Family { name: "from-int", quick: 600_000, thorough: 100_000_000, enumerated: false, run: from_int_random },
        Family { name: "from-int-sweep", quick: 200, thorough: 32_768, enumerated: true, run: from_int_sweep },
    ]
}

fn is_digit(c: u32) -> bool {
    (48..=57).contains(&c)
}

enum ToInt {
    Value(i64),
    TooBig,
}

fn to_int(s: &[u32]) -> ToInt {
    if s.is_empty() || s.iter().any(|&c| !is_digit(c)) {
        return ToInt::Value(-1);
    }
    let mut x: u64 = 0;
    for &c in s {
        x = x * 10 + (c - 48) as u64;
        if x > i32::MAX as u64 {
            return ToInt::TooBig;
        }
    }
    ToInt::Value(x as i64)
}

fn check_to_int(c: &mut Ctx, s: &[u32]) -> R {
    let ss = sstr(s);
    c.count("to_int_calls", 1);
    let show = || if s.len() > 60 { format!("{}... ({} characters)", show_word(&s[..60]), s.len()) } else { show_word(s) };
    match (to_int(s), catch(|| str_to_int(&ss))) {
        (ToInt::Value(v), Caught::Ok(g)) => {
            c.count(if v < 0 { "to_int_minus_one" } else { "to_int_values" }, 1);
            ensure!(g as i64 == v, "str_to_int({}) = {g}, expected {v}", show())
        }
        (ToInt::Value(v), Caught::Panic(loc, msg)) => {
            return Err(format!("str_to_int({}) panicked ({loc}: {msg}), expected {v}", show()))
        }
        (ToInt::TooBig, Caught::Ok(g)) => {
            return Err(format!("str_to_int({}) = {g}, the value doesn't fit: expected a panic", show()))
        }
        (ToInt::TooBig, Caught::Panic(..)) => c.count("to_int_overflow_panics", 1),
    }
    Ok(())
}

fn decimal(n: i64) -> Vec<u32> {
    // own conversion
    let mut v = vec![];
    let mut n = n as u64;
    loop {
        v.push(48 + (n % 10) as u32);
        n /= 10;
        if n == 0 {
            break;
        }
    }
    v.reverse();
    v
}

fn raw(s: &SmtString) -> Vec<u32> {
    s.iter().copied().collect()
}

fn check_from_int(c: &mut Ctx, n: i32) -> R {
    let s = str_from_int(n);
    let want = if n < 0 { vec![] } else { decimal(n as i64) };
    ensure!(raw(&s) == want, "str_from_int({n}) = {}", show_word(&raw(&s)));
    let back = str_to_int(&s);
    ensure!(back == if n < 0 { -1 } else { n }, "str_to_int(str_from_int({n})) = {back}");
    c.count("from_int_calls", 1);
    Ok(())
}

fn check_from_code(c: &mut Ctx, x: i32) -> R {
    let s = str_from_code(x);
    let valid = (0..=MAXC as i64).contains(&(x as i64));
    let want: Vec<u32> = if valid { vec![x as u32] } else { vec![] };
    ensure!(raw(&s) == want, "str_from_code({x}) = {}", show_word(&raw(&s)));
    let back = str_to_code(&s);
    ensure!(back == if valid { x } else { -1 }, "str_to_code(str_from_code({x})) = {back}");
    c.count("from_code_calls", 1);
    Ok(())
}

fn codes(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    for x in idx * 256..(idx + 1) * 256 {
        let x = x as u32;
        check_from_code(c, x as i32)?;
        let s = sstr(&[x]);
        ensure!(str_to_code(&s) == x as i32, "str_to_code of {x:#x} is {}", str_to_code(&s));
        ensure!(str_is_digit(&s) == is_digit(x), "str_is_digit of {x:#x} is {}", str_is_digit(&s));
        check_to_int(c, &[x])?;
        check_to_int(c, &[49, x])?;
        check_to_int(c, &[x, 50])?;
        // too many characters
        for t in [vec![x, x], vec![x, 48], vec![48, x], vec![x, x, x]] {
            let s = sstr(&t);
            ensure!(str_to_code(&s) == -1, "str_to_code({}) = {}", show_word(&t), str_to_code(&s));
            ensure!(!str_is_digit(&s), "str_is_digit({})", show_word(&t));
        }
        // order of single characters, of a character and its neighbours
        for y in [x.wrapping_sub(1), x, x + 1, x ^ 0x100, x ^ 0x10000, x ^ 0x8000, 0, MAXC] {
            if y <= MAXC {
                check_order(c, &[x], &[y])?;
                check_order(c, &[y, x], &[y])?;
            }
        }
        c.evals += 1;
        c.enumerated += 1;
    }
    Ok(())
}

fn code_limits(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut v = vec![i32::MIN, i32::MIN + 1, -1, -2, -256, -65536, i32::MAX, i32::MAX - 1, 0x10FFFF, 0x110000, 0x7FFFFFF];
    for x in 0x30000..0x30400 {
        v.push(x);
        v.push(-x);
    }
    for b in 0..31 {
        for d in -2..=2 {
            v.push((1i32 << b).wrapping_add(d));
            v.push((-(1i64 << b)) as i32 + d);
        }
    }
    for _ in 0..2000 {
        v.push(r.next() as i32);
    }
    for x in v {
        c.evals += 1;
        check_from_code(c, x)?;
        check_from_int(c, x)?;
    }
    c.enumerated += 1;
    ensure!(str_to_code(&EMPTY) == -1, "str_to_code of the empty string");
    ensure!(!str_is_digit(&EMPTY), "str_is_digit of the empty string");
    check_to_int(c, &[])
}

// ---- order

fn lex(a: &[u32], b: &[u32]) -> Ordering {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (None, _) => return Ordering::Less,
            (_, None) => return Ordering::Greater,
            (Some(x), Some(y)) if x < y => return Ordering::Less,
            (Some(x), Some(y)) if x > y => return Ordering::Greater,
            _ => (),
        }
    }
    Ordering::Equal
}

fn check_order(c: &mut Ctx, a: &[u32], b: &[u32]) -> R {
    let o = lex(a, b);
    let (sa, sb) = (sstr(a), sstr(b));
    c.count("comparisons", 4);
    let w = |f: &str, x: &[u32], y: &[u32]| format!("{f}({}, {})", show_word(x), show_word(y));
    ensure!(str_lt(&sa, &sb) == o.is_lt(), "{} is not {}", w("str_lt", a, b), o.is_lt());
    ensure!(str_le(&sa, &sb) == o.is_le(), "{} is not {}", w("str_le", a, b), o.is_le());
    ensure!(str_lt(&sb, &sa) == o.is_gt(), "{} is not {}", w("str_lt", b, a), o.is_gt());
    ensure!(str_le(&sb, &sa) == o.is_ge(), "{} is not {}", w("str_le", b, a), o.is_ge());
    ensure!((sa == sb) == o.is_eq(), "{} {}", w("==", a, b), sa == sb);
    Ok(())
}

/// all pairs (and, through the reference, all triples) of short words
fn order_small(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    let alpha = [0, 97, 98, MAXC];
    let a = nth_word(idx, &alpha);
    for j in 0..c_words(c.tier) {
        let b = nth_word(j, &alpha);
        check_order(c, &a, &b)?;
        c.evals += 1;
        c.enumerated += 1;
    }
    let s = sstr(&a);
    ensure!(!str_lt(&s, &s) && str_le(&s, &s), "{} compared with itself", show_word(&a));
    Ok(())
}

fn c_words(t: Tier) -> u64 {
    match t {
        Tier::Quick => 340,
        Tier::Thorough => 1364,
    }
}

fn order_random(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let al = rand_alphabet(r);
    let n = if r.chance(1, 200) { r.below(400) } else { r.below(24) };
    let a: Vec<u32> = (0..n).map(|_| *r.pick(&al)).collect();
    let mut b = a.clone();
    match r.below(7) {
        0 => b.truncate(r.us(a.len() + 1)),
        1 => b.push(*r.pick(&al)),
        2 | 3 if !b.is_empty() => {
            let k = r.us(b.len());
            b[k] = *r.pick(&al);
            if r.chance(1, 2) {
                b.truncate(k + 1 + r.us(b.len() - k));
            }
            if r.chance(1, 3) && k + 1 < b.len() {
                let k2 = r.range(k as u64 + 1, b.len() as u64 - 1) as usize;
                b[k2] = *r.pick(&al);
            }
        }
        4 if b.len() > 1 => {
            let (i, j) = (r.us(b.len()), r.us(b.len()));
            b.swap(i, j);
        }
        5 => b = (0..r.below(24)).map(|_| *r.pick(&al)).collect(),
        _ => (),
    }
    let mut h = H::new();
    h.s(&a).s(&b);
    c.case(h.0);
    c.sample(|| format!("{} ~ {}", show_word(&a), show_word(&b)));
    check_order(c, &a, &b)
}

/// long common prefixes
fn order_long(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let al = rand_alphabet(r);
    let n = match i % 4 {
        0 => r.range(250, 260),
        1 => r.range(1000, 5000),
        _ => r.range(65_500, 70_000),
    } as usize;
    let a: Vec<u32> = (0..n).map(|_| *r.pick(&al)).collect();
    let mut b = a.clone();
    let k = if r.chance(1, 2) { n - 1 - r.us(3) } else { r.us(n) };
    match r.below(6) {
        0 => b.truncate(k),
        1 => b.push(*r.pick(&al)),
        2 => b[k] ^= 1,
        3 => b[k] = b[k].saturating_sub(1),
        4 => {
            b[k] = (b[k] + 1).min(MAXC);
            b.truncate(k + 1);
        }
        _ => {
            b[k] = (b[k] + 1).min(MAXC);
            let j = r.us(n);
            b[j] = b[j].saturating_sub(1);
        }
    }
    b.iter_mut().for_each(|x| *x = (*x).min(MAXC));
    let mut h = H::new();
    h.s(&a).s(&b);
    c.case(h.0);
    c.max("compared_length", n as u64);
    check_order(c, &a, &b).map_err(|e| format!("{} against {} characters, first difference at most {k}: {}...", n, b.len(), e.chars().take(100).collect::<String>()))
}

/// thousands of digits
fn to_int_long(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let n = match i % 3 {
        0 => r.range(250, 260),
        1 => r.range(1000, 5000),
        _ => r.range(65_500, 70_000),
    } as usize;
    let mut s = vec![48; n];
    match r.below(4) {
        0 => s.extend(decimal(r.below(1 << 32) as i64)),
        1 => {
            let k = r.us(n);
            s[k] = 49;
        }
        2 => {
            let k = r.us(n);
            s[k] = *r.pick(&[47, 58, 0x130, 0x10030]);
            s.extend(decimal(r.below(1 << 30) as i64));
        }
        _ => (),
    }
    let mut h = H::new();
    h.s(&s);
    c.case(h.0);
    c.max("digits", s.len() as u64);
    check_to_int(c, &s)
}

// ---- integers

/// all words over the digits up to length 4 (5), and over a mixed alphabet
fn digits_small(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    let d: Vec<u32> = (48..58).collect();
    c.evals += 1;
    c.enumerated += 1;
    check_to_int(c, &nth_word(idx, &d))?;
    check_to_int(c, &nth_word(idx, &[48, 49, 57, 47, 58, 45, 43, 32, 0x660, 0x130, 0x10030]))?;
    check_from_int(c, idx as i32)
}

/// values around each multiple of 2^31 with up to 12 digits that can wrap to something plausible,
/// powers of ten, each with and without leading zeros and with a non-digit
fn int_boundary(c: &mut Ctx, _i: u64, _r: &mut Rng) -> R {
    let mut v: Vec<i64> = vec![];
    for k in 0..=60i64 {
        for d in -40..=40 {
            v.push(k * (1 << 31) + d);
        }
    }
    for k in (1..500i64).map(|k| k * (1 << 32)) {
        for d in [-1, 0, 1, 7, 123456789, i32::MAX as i64] {
            v.push(k + d);
        }
    }
    let mut p = 1i64;
    for _ in 0..18 {
        for d in -12..=12 {
            v.push(p + d);
            v.push(p * 2 + d);
            v.push(p * 9 + d);
        }
        p *= 10;
    }
    // every prefix of ten or more digits starting like i32::MAX
    for d in 0..1000 {
        v.push(2147483000 + d);
        v.push(21474830000 + d * 10);
        v.push(214748300000 + d);
        v.push(4294967000 + d);
        v.push(429496700000 + d);
    }
    v.retain(|&x| x >= 0);
    for x in v {
        let s = decimal(x);
        c.evals += 1;
        check_to_int(c, &s)?;
        for z in [1, 2, 9, 10, 11, 30] {
            let mut t = vec![48; z];
            t.extend_from_slice(&s);
            check_to_int(c, &t)?;
        }
        for i in [0, s.len() / 2, s.len()] {
            for bad in [47, 58, 45, 32, 97, 0x661, 0xFF11, 0x10031] {
                let mut t = s.clone();
                t.insert(i, bad);
                check_to_int(c, &t)?;
            }
        }
        if x <= i32::MAX as i64 {
            check_from_int(c, x as i32)?;
        }
    }
    for z in 1..200 {
        check_to_int(c, &vec![48; z])?;
        let mut t = vec![48; z];
        t.push(49);
        check_to_int(c, &t)?;
        t.insert(0, 49);
        check_to_int(c, &t)?;
        check_to_int(c, &vec![57; z])?;
    }
    c.enumerated += 1;
    Ok(())
}

fn to_int_random(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut s: Vec<u32> = vec![];
    if r.chance(1, 3) {
        s.extend(vec![48; r.us(20)]);
    }
    match r.below(6) {
        0 => s.extend(decimal((r.next() >> (1 + r.below(40))) as i64)),
        1 => s.extend(decimal(r.below(1 << 33) as i64)),
        2 => s.extend(decimal((i32::MAX as i64) - 50 + r.below(100) as i64)),
        3 => s.extend(decimal(((r.below(1 << 20) << 32) + r.below(1 << 31)) as i64)),
        4 => s.extend((0..r.below(50)).map(|_| 48 + r.below(10) as u32)),
        _ => s.extend((0..r.range(9, 13)).map(|_| 48 + r.below(10) as u32)),
    }
    for _ in 0..r.below(3).min(r.below(3)) {
        let i = r.us(s.len() + 1);
        let bad = match r.below(5) {
            0 => 47,
            1 => 58,
            2 => *r.pick(&[45, 43, 32, 46, 95, 101, 9, 10]),
            3 => 48 + r.below(10) as u32 + 0x100 * r.below(0x300) as u32,
            _ => r.below(MAXC as u64 + 1) as u32,
        };
        if r.chance(1, 2) && i < s.len() {
            s[i] = bad;
        } else {
            s.insert(i, bad);
        }
    }
    let mut h = H::new();
    h.s(&s);
    c.case(h.0);
    c.sample(|| show_word(&s));
    check_to_int(c, &s)
}

fn from_int_random(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let n = (r.next() as i32) >> r.below(31);
    let mut h = H::new();
    h.u(n as u64);
    c.case(h.0);
    check_from_int(c, n)?;
    check_from_int(c, n.checked_neg().unwrap_or(0))?;
    check_from_code(c, n)
}

/// a block of 2^16 consecutive integers (all of them in the thorough tier)
fn from_int_sweep(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    let blocks = 32_768u64;
    let step = if c.tier == Tier::Quick { 163 } else { 1 };
    let b = (idx * step) % blocks;
    let every = if c.tier == Tier::Quick { 61 } else { 1 };
    let mut n = b << 16;
    while n < (b + 1) << 16 {
        let v = n as i32;
        let s = str_from_int(v);
        ensure!(s.len() == decimal(v as i64).len() && raw(&s) == decimal(v as i64), "str_from_int({v}) = {}", show_word(&raw(&s)));
        let back = str_to_int(&s);
        ensure!(back == v, "str_to_int(str_from_int({v})) = {back}");
        c.evals += 1;
        c.enumerated += 1;
        n += every;
    }
    c.count("from_int_blocks", 1);
    Ok(())
}

/// a common prefix, then a difference where comparing bytes, halves, UTF-8, UTF-16 or digits may mislead
fn order_prefixed(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let style = r.below(6);
    let ch = |r: &mut Rng| -> u32 {
        match style {
            0 => r.below(128) as u32,
            1 => r.below(0x800) as u32,
            2 => r.range(0x10000, MAXC as u64) as u32,
            3 => *r.pick(&[0, 1, 0xFF, 0x100, 0x101, 0xFFFF, 0x10000, 0x10001, MAXC]),
            4 => (r.below(3) << 16 | r.below(3) << 8 | r.below(3)) as u32,
            _ => r.below(MAXC as u64 + 1) as u32,
        }
    };
    let n = match r.below(3) {
        0 => r.below(10),
        1 => *r.pick(&[7u64, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256]) + r.below(3),
        _ => r.below(300),
    };
    let mut a: Vec<u32> = (0..n).map(|_| ch(r)).collect();
    if r.chance(1, 3) && n > 0 {
        // a constant prefix
        let x = a[0];
        a.iter_mut().for_each(|y| *y = x);
    }
    let mut b = a.clone();
    let (x, y) = match r.below(9) {
        0 => (0xFF, 0x100),
        1 => (0xFFFF, 0x10000),
        2 => (r.range(0xD800, 0xDFFF) as u32, r.range(0xE000, 0xFFFF) as u32),
        3 => (r.range(0xD800, 0xFFFF) as u32, r.range(0x10000, MAXC as u64) as u32),
        4 => {
            // low bytes and high bytes disagree
            let h = r.below(2) as u32;
            let l = r.range(1, 0xFFFF) as u32;
            (h << 16 | l, (h + 1) << 16 | r.below(l as u64) as u32)
        }
        5 => {
            let h = r.below(0x2FE) as u32;
            let l = r.range(1, 0xFF) as u32;
            (h << 8 | l, (h + 1) << 8 | r.below(l as u64) as u32)
        }
        6 => {
            let x = ch(r);
            (x, (x + 1).min(MAXC))
        }
        7 => (0, ch(r)),
        _ => (ch(r), ch(r)),
    };
    if r.chance(1, 8) {
        a.push(x);
    } else {
        a.push(x);
        b.push(y);
    }
    // anything after the difference
    let tail = |v: &mut Vec<u32>, r: &mut Rng| match r.below(4) {
        0 => v.push(MAXC),
        1 => v.push(0),
        2 => (0..r.below(20)).for_each(|_| v.push(ch(r))),
        _ => (),
    };
    tail(&mut a, r);
    tail(&mut b, r);
    let mut h = H::new();
    h.s(&a).s(&b);
    c.case(h.0);
    check_order(c, &a, &b)
}
