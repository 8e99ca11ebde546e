//! C17: every SmtString handed out contains only SMT-LIB characters.

use crate::ctx::*;
use crate::dfa::MAXC;
use crate::ensure;
use crate::props::common::*;
use crate::rng::*;
use crate::rx::*;
use crate::Family;
use aws_smt_strings::regular_expressions::ReManager;
use aws_smt_strings::smt_regular_expressions::*;
use aws_smt_strings::smt_strings::*;

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "chars", quick: 0x1100, thorough: 0x1100, enumerated: true, run: chars },
        Family { name: "integers", quick: 0x1100, thorough: 0x1100, enumerated: true, run: integers },
        Family { name: "large-integers", quick: 64, thorough: 64, enumerated: true, run: large_integers },
        Family { name: "mixed", quick: 300_000, thorough: 40_000_000, enumerated: false, run: mixed },
        Family { name: "texts", quick: 300_000, thorough: 40_000_000, enumerated: false, run: texts },
        Family { name: "operations", quick: 200_000, thorough: 20_000_000, enumerated: false, run: operations },
        Family { name: "seams", quick: 1024, thorough: 1024, enumerated: true, run: seams },
        Family { name: "regex", quick: 30_000, thorough: 4_000_000, enumerated: false, run: regex },
        Family { name: "long", quick: 60, thorough: 20_000, enumerated: false, run: long },
    ]
}

fn raw(s: &SmtString) -> Vec<u32> {
    s.iter().copied().collect()
}

/// well-formed as reported by is_good, iter, char, as_ref
fn good(c: &mut Ctx, s: &SmtString, what: impl Fn() -> String) -> R {
    let bad = s.iter().position(|&x| x > MAXC);
    c.count("strings", 1);
    ensure!(bad.is_none(), "{}: {} contains {:#x}", what(), show_word(&raw(s)), s.char(bad.unwrap()));
    ensure!(s.is_good(), "{}: is_good is false", what());
    ensure!(good_string(s.as_ref()), "{}: good_string is false", what());
    Ok(())
}

/// usable with the other functions
fn usable(c: &mut Ctx, s: &SmtString, what: impl Fn() -> String) -> R {
    let mut re = ReManager::new();
    let e = re.str(s);
    ensure!(re.str_in_re(s, e), "{}: not in its own str.to_re", what());
    let n = re.smt_range(s, s);
    ensure!(n.nullable == false, "{}: range is nullable", what());
    let d = s.to_string();
    good(c, &parse_smt_literal(&d), || format!("{}: printed and parsed", what()))?;
    let _ = (s.to_unicode_string(), s.is_unicode(), str_to_code(s), str_is_digit(s), str_len(s));
    let w = re.get_string(e);
    ensure!(w.as_ref() == Some(s), "{}: get_string of its str.to_re is {w:?}", what());
    c.count("strings_used", 1);
    Ok(())
}

/// every Rust char through the text constructors
fn chars(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    for x in idx * 256..(idx + 1) * 256 {
        let Some(ch) = char::from_u32(x as u32) else { continue };
        c.evals += 1;
        c.enumerated += 1;
        let v = [
            (SmtString::from(ch), 1, "from a char"),
            (SmtString::from(ch.to_string().as_str()), 1, "from a &str"),
            (SmtString::from(ch.to_string()), 1, "from a String"),
            (SmtString::from(format!("a{ch}").as_str()), 2, "from a &str, second character"),
            (SmtString::from(format!("{ch}{ch}b")), 3, "from a String, three characters"),
            (parse_smt_literal(&ch.to_string()), 1, "parse"),
            (parse_smt_literal(&format!("a{ch}")), 2, "parse, second character"),
            (parse_smt_literal(&format!("\\{ch}")), 2, "parse, after a backslash"),
            (parse_smt_literal(&format!("\\u0041{ch}")), 2, "parse, after an escape"),
        ];
        for (s, n, w) in &v {
            good(c, s, || format!("{w}: {x:#x}"))?;
            ensure!(s.len() <= *n || ch == '\\', "{w}: {x:#x} gives {} characters", s.len());
            if x <= MAXC as u64 && *n == 1 {
                ensure!(raw(s) == [x as u32], "{w}: {x:#x} gives {}", show_word(&raw(s)));
            }
        }
        for t in [format!("\\u{ch}"), format!("\\u{{{ch}"), format!("\\u{{12{ch}"), format!("\\u00{ch}"), format!("\\u{{2FFFF{ch}"), format!("\\u{{12}}{ch}")] {
            good(c, &parse_smt_literal(&t), || format!("parse of {t:?}"))?;
        }
        if x % 64 == 7 || x > 0x2FF00 && x < 0x30100 || x > 0x10FFF0 || (0xFF0..0x1010).contains(&(x & 0x1FFFF)) {
            for (s, _, w) in &v {
                usable(c, s, || format!("{w}: {x:#x}"))?;
            }
        }
    }
    Ok(())
}

fn expected(x: u32) -> u32 {
    if x <= MAXC {
        x
    } else {
        0xFFFD
    }
}

fn check_int(c: &mut Ctx, x: u32, y: u32) -> R {
    let (ex, ey) = (expected(x), expected(y));
    let v: Vec<(SmtString, Vec<u32>, &str)> = vec![
        (SmtString::from(x), vec![ex], "From<u32>"),
        (SmtString::from(vec![x]), vec![ex], "From<Vec>"),
        (SmtString::from(&[x]), vec![ex], "From<&[u32; 1]>"),
        (SmtString::from(&[x][..]), vec![ex], "From<&[u32]>"),
        (SmtString::from(vec![y, x]), vec![ey, ex], "From<Vec>"),
        (SmtString::from(&[x, y]), vec![ex, ey], "From<&[u32; 2]>"),
        (SmtString::from(&[y, x][..]), vec![ey, ex], "From<&[u32]>"),
        (SmtString::from(vec![y, x, y]), vec![ey, ex, ey], "From<Vec>"),
        (SmtString::from(&[x, x, y, x]), vec![ex, ex, ey, ex], "From<&[u32; 4]>"),
        (SmtString::from(&[y, y, x][..]), vec![ey, ey, ex], "From<&[u32]>"),
    ];
    for (s, want, w) in &v {
        good(c, s, || format!("{w} of {x:#x}, {y:#x}"))?;
        ensure!(raw(s) == *want, "{w} of {x:#x}, {y:#x} is {}", show_word(&raw(s)));
    }
    c.count("integers", 1);
    Ok(())
}

fn integers(c: &mut Ctx, idx: u64, r: &mut Rng) -> R {
    for x in idx * 256..(idx + 1) * 256 {
        c.evals += 1;
        c.enumerated += 1;
        check_int(c, x as u32, 97)?;
        check_int(c, x as u32, r.next() as u32 >> r.below(32))?;
    }
    Ok(())
}

fn large_integers(c: &mut Ctx, idx: u64, r: &mut Rng) -> R {
    for k in 0..2000u64 {
        let x = match k % 4 {
            // values whose low bits look valid
            0 => (idx << 26 | k) as u32,
            1 => u32::MAX - (k as u32) * 64 - idx as u32,
            2 => (idx as u32) * 0x30000 + k as u32,
            _ => r.next() as u32,
        };
        c.evals += 1;
        c.enumerated += 1;
        check_int(c, x, MAXC)?;
        check_int(c, x, MAXC + 1)?;
        good(c, &str_from_code(x as i32), || format!("str_from_code({})", x as i32))?;
        good(c, &str_from_int(x as i32), || format!("str_from_int({})", x as i32))?;
    }
    Ok(())
}

fn any_int(r: &mut Rng) -> u32 {
    match r.below(7) {
        6 => special_char(r),
        0 => MAXC - r.below(3) as u32,
        1 => MAXC + r.below(4) as u32,
        2 => r.below(128) as u32,
        3 => r.next() as u32,
        4 => r.below(0x110000) as u32,
        _ => r.below(MAXC as u64 + 1) as u32,
    }
}

fn mixed(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let n = if r.chance(1, 100) { r.range(100, 2000) } else { r.below(20) };
    let mut v: Vec<u32> = (0..n).map(|_| r.below(MAXC as u64 + 1) as u32).collect();
    // a few invalid integers at random places (often just one)
    for _ in 0..r.below(4) {
        if !v.is_empty() {
            let i = r.us(v.len());
            v[i] = any_int(r);
        }
    }
    let mut h = H::new();
    h.s(&v);
    c.case(h.0);
    let want: Vec<u32> = v.iter().map(|&x| expected(x)).collect();
    for (s, w) in [(SmtString::from(v.clone()), "From<Vec>"), (SmtString::from(&v[..]), "From<&[u32]>")] {
        good(c, &s, || format!("{w} of {v:x?}"))?;
        ensure!(raw(&s) == want, "{w} of {v:x?} is {}", show_word(&raw(&s)));
        if r.chance(1, 8) && n < 20 {
            usable(c, &s, || format!("{w} of {v:x?}"))?;
        }
    }
    c.sample(|| show_word(&want));
    Ok(())
}

fn texts(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut t = String::new();
    for _ in 0..r.range(1, 8) {
        match r.below(9) {
            0 => t.push_str("\\u{"),
            1 => t.push_str("\\u"),
            2 => t.push('}'),
            3 => t.push_str(&format!("\\u{{{:x}}}", r.next() >> r.range(40, 63))),
            4 => t.push_str(&format!("\\u{:x}", r.below(0x11000))),
            5 => {
                for _ in 0..r.below(8) {
                    t.push(*r.pick(&['0', '2', '3', 'f', 'F', '9']));
                }
            }
            6 => t.push(char::from_u32(0x30000 + r.below(0xE0000) as u32).unwrap_or('x')),
            _ => {
                if let Some(x) = char::from_u32(any_int(r)) {
                    t.push(x)
                }
            }
        }
    }
    let mut h = H::new();
    t.chars().for_each(|x| {
        h.u(x as u64);
    });
    c.case(h.0);
    for (s, w) in [(parse_smt_literal(&t), "parse"), (SmtString::from(t.as_str()), "From<&str>"), (SmtString::from(t.clone()), "From<String>")] {
        good(c, &s, || format!("{w} of {t:?}"))?;
        if r.chance(1, 10) {
            usable(c, &s, || format!("{w} of {t:?}"))?;
        }
    }
    c.sample(|| format!("{t:?}"));
    Ok(())
}

fn rand_good(r: &mut Rng) -> SmtString {
    let v: Vec<u32> = (0..r.below(10))
        .map(|_| match r.below(6) {
            4 | 5 => special_char(r),
            0 => 97 + r.below(2) as u32,
            1 => MAXC - r.below(2) as u32,
            2 => r.below(2) as u32,
            _ => r.below(MAXC as u64 + 1) as u32,
        })
        .collect();
    match r.below(3) {
        0 => SmtString::from(v),
        1 => SmtString::from(&v[..]),
        _ => {
            let t: String = v.iter().filter_map(|&x| char::from_u32(x)).collect();
            SmtString::from(t)
        }
    }
}

/// all functions, composed, on a pool of strings
fn operations(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    in_thread(|| operations_case(c, i, r))
}

fn operations_case(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut pool: Vec<SmtString> = (0..4).map(|_| rand_good(r)).collect();
    let mut h = H::new();
    pool.iter().for_each(|s| {
        h.s(s.as_ref());
    });
    c.case(h.0);
    for _ in 0..12 {
        let (a, b, d) = (r.pick(&pool).clone(), r.pick(&pool).clone(), r.pick(&pool).clone());
        let int = |r: &mut Rng| match r.below(3) {
            0 => r.below(12) as i32 - 2,
            1 => r.next() as i32,
            _ => *r.pick(&[i32::MIN, i32::MAX, 0x2FFFF, 0x30000, -1]),
        };
        let (i, j) = (int(r), int(r));
        let (s, w) = match r.below(11) {
            0 => (str_concat(&a, &b), "str_concat"),
            1 => (str_at(&a, i), "str_at"),
            2 => (str_substr(&a, i, j), "str_substr"),
            3 => (str_replace(&a, &b, &d), "str_replace"),
            4 => (str_replace_all(&a, &b, &d), "str_replace_all"),
            5 => (str_from_code(i), "str_from_code"),
            6 => (str_from_int(i), "str_from_int"),
            7 => (str_replace_re(&a, str_to_re(&b), &d), "str_replace_re"),
            8 => (str_replace_re_all(&a, re_union(str_to_re(&b), re_allchar()), &d), "str_replace_re_all"),
            9 => (str_replace_re_all(&a, re_opt(str_to_re(&b)), &d), "str_replace_re_all"),
            _ => (parse_smt_literal(&a.to_string()), "parse of a printed string"),
        };
        good(c, &s, || format!("{w} on {}, {}, {}, {i}, {j}", show_word(a.as_ref()), show_word(b.as_ref()), show_word(d.as_ref())))?;
        // predicates don't panic
        let _ = (str_lt(&s, &a), str_le(&a, &s), str_prefixof(&s, &a), str_suffixof(&s, &a), str_contains(&a, &s), str_indexof(&a, &s, i));
        if r.chance(1, 8) && s.len() < 30 {
            usable(c, &s, || format!("{w} on {}, {}, {}", show_word(a.as_ref()), show_word(b.as_ref()), show_word(d.as_ref())))?;
        }
        if s.len() < 200 {
            let k = r.us(pool.len());
            pool[k] = s;
        }
    }
    Ok(())
}

/// every high surrogate brought next to every low surrogate: no operation may fuse them into
/// something else (most pairs encode characters beyond the range)
fn seams(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    let hi = 0xD800 + idx as u32;
    let a = sstr(&[hi]);
    let sep = sstr(&[97]);
    let nothing = sstr(&[]);
    for lo in 0xDC00..0xE000u32 {
        let b = sstr(&[lo]);
        let s = sstr(&[hi, 97, lo]);
        let t = sstr(&[hi, lo]);
        let all = [
            str_concat(&a, &b),
            str_replace(&s, &sep, &nothing),
            str_replace_all(&s, &sep, &nothing),
            str_replace(&sstr(&[hi, 97]), &sep, &b),
            str_replace_all(&sstr(&[97, lo]), &sep, &a),
            SmtString::from(vec![hi, lo]),
            SmtString::from(&[hi, lo][..]),
            SmtString::from(&[hi, lo]),
            str_substr(&t, 0, 2),
            str_at(&t, 0),
            str_at(&t, 1),
        ];
        for x in &all {
            good(c, x, || format!("an operation on {hi:#x} and {lo:#x}"))?;
        }
        if lo % 64 == 0 {
            let x = parse_smt_literal(&format!("\\u{{{hi:x}}}\\u{lo:04x}"));
            good(c, &x, || format!("the literal with {hi:#x} and {lo:#x}"))?;
            usable(c, &x, || format!("the literal with {hi:#x} and {lo:#x}"))?;
        }
        c.evals += 1;
        c.enumerated += 1;
    }
    c.sample(|| format!("{hi:#x} before all low surrogates"));
    Ok(())
}

/// witnesses and regex replacement for diverse expressions
fn regex(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    in_thread(|| regex_case(c, i, r))
}

fn regex_case(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let p = match r.below(4) {
        0 => wide(r),
        1 => near_empty(r),
        _ => diverse(r),
    };
    let mut re = ReManager::new();
    let t = p.build(&mut re);
    c.case(p.hash());
    c.sample(|| p.show(p.root()));
    let mut last = None;
    for (i, &e) in t.iter().enumerate() {
        if derivative_count(&mut re, e, 300).is_none() {
            c.count("deriv_capped", 1);
            continue;
        }
        if let Some(w) = re.get_string(e) {
            c.count("witnesses", 1);
            good(c, &w, || format!("get_string({})", p.show(i)))?;
            usable(c, &w, || format!("get_string({})", p.show(i)))?;
            last = Some(w);
        }
    }
    if let Some(w) = last {
        let al = p.alpha();
        let terms = p.build_wrap();
        let e = terms[p.root()];
        let s = rand_word(&al, 10, r);
        let s = str_concat(&sstr(&s), &w);
        let d = rand_good(r);
        good(c, &str_replace_re(&s, e, &d), || format!("str_replace_re with {}", p.show(p.root())))?;
        good(c, &str_replace_re_all(&s, e, &d), || format!("str_replace_re_all with {}", p.show(p.root())))?;
    }
    Ok(())
}

/// strings longer than 2^8 and 2^16
fn long(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let n = match i % 3 {
        0 => r.range(250, 260),
        1 => r.range(1000, 5000),
        _ => r.range(65_500, 70_000),
    } as usize;
    let mut v: Vec<u32> = (0..n).map(|_| if r.chance(1, 10) { r.below(MAXC as u64 + 1) as u32 } else { 97 }).collect();
    let bad = if r.chance(1, 2) { n - 1 - r.us(3) } else { r.us(n) };
    v[bad] = MAXC + 1 + (r.next() as u32 >> r.range(2, 31));
    let mut h = H::new();
    h.s(&v);
    c.case(h.0);
    let want: Vec<u32> = v.iter().map(|&x| expected(x)).collect();
    for (s, w) in [(SmtString::from(v.clone()), "From<Vec>"), (SmtString::from(&v[..]), "From<&[u32]>")] {
        good(c, &s, || format!("{w} of {n} integers"))?;
        ensure!(raw(&s) == want, "{w} of {n} integers, {:#x} at index {bad}", v[bad]);
        let d = s.to_string();
        good(c, &parse_smt_literal(&d), || format!("{w} of {n} integers, printed and parsed"))?;
        let _ = (s.to_unicode_string(), s.is_unicode(), str_to_code(&s), str_is_digit(&s), str_len(&s), str_lt(&s, &s), str_contains(&s, &s));
        let t = sstr(&v.iter().map(|&x| x.min(0xFF)).collect::<Vec<u32>>());
        good(c, &str_replace_all(&s, &sstr(&[97]), &t.iter().copied().take(3).collect::<Vec<u32>>().into()), || "str_replace_all of a long string".to_string())?;
        good(c, &str_concat(&s, &t), || "str_concat of long strings".to_string())?;
    }
    let t: String = v.iter().filter_map(|&x| char::from_u32(x)).chain([char::from_u32(0x30000).unwrap()]).collect();
    for (s, w) in [(parse_smt_literal(&t), "parse"), (SmtString::from(t.as_str()), "From<&str>"), (SmtString::from(t.clone()), "From<String>")] {
        good(c, &s, || format!("{w} of a text of {n} characters"))?;
    }
    c.max("length", n as u64);
    Ok(())
}
