//! C08: literals: parsing follows the SMT-LIB escapes; printing round-trips.

use crate::ctx::*;
use crate::dfa::MAXC;
use crate::ensure;
use crate::props::c06::nth_word;
use crate::rng::*;
use crate::rx::{show_word, sstr};
use crate::Family;
use aws_smt_strings::smt_strings::*;

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "short-texts", quick: 2801, thorough: 19_608, enumerated: true, run: short_texts },
        Family { name: "escapes", quick: 1024, thorough: 1024, enumerated: true, run: escapes },
        Family { name: "digit-runs", quick: 2396, thorough: 2396, enumerated: true, run: digit_runs },
        Family { name: "characters", quick: 0x300, thorough: 0x300, enumerated: true, run: characters },
        Family { name: "escape-like", quick: 2801, thorough: 19_608, enumerated: true, run: escape_like },
        Family { name: "escape-pairs", quick: 46 * 46, thorough: 46 * 46, enumerated: true, run: escape_pairs },
        Family { name: "random-texts", quick: 1_000_000, thorough: 150_000_000, enumerated: false, run: random_texts },
        Family { name: "random-strings", quick: 1_000_000, thorough: 150_000_000, enumerated: false, run: random_strings },
        Family { name: "prefixed", quick: 200_000, thorough: 30_000_000, enumerated: false, run: prefixed },
        Family { name: "long", quick: 200, thorough: 10_000, enumerated: false, run: long },
    ]
}

fn hex(c: u32) -> Option<u32> {
    match c {
        48..=57 => Some(c - 48),
        65..=70 => Some(c - 55),
        97..=102 => Some(c - 87),
        _ => None,
    }
}

/// escape sequence at the start of t: (value, length)
fn escape(t: &[u32]) -> Option<(u32, usize)> {
    if t.len() < 2 || t[0] != 92 || t[1] != 117 {
        return None;
    }
    let t = &t[2..];
    if t.first() == Some(&123) {
        let n = t[1..].iter().take_while(|&&c| hex(c).is_some()).count();
        if (1..=5).contains(&n) && t.get(n + 1) == Some(&125) {
            let v = t[1..=n].iter().fold(0, |v, &c| v * 16 + hex(c).unwrap());
            if v <= MAXC {
                return Some((v, n + 4));
            }
        }
        None
    } else if t.len() >= 4 && t[..4].iter().all(|&c| hex(c).is_some()) {
        Some((t[..4].iter().fold(0, |v, &c| v * 16 + hex(c).unwrap()), 6))
    } else {
        None
    }
}

/// the string denoted by a text of SMT-LIB characters
fn decode(t: &[u32]) -> (Vec<u32>, u64) {
    let mut out = vec![];
    let mut n = 0;
    let mut i = 0;
    while i < t.len() {
        match escape(&t[i..]) {
            Some((v, l)) => {
                out.push(v);
                i += l;
                n += 1;
            }
            None => {
                out.push(t[i]);
                i += 1;
            }
        }
    }
    (out, n)
}

fn text(t: &[u32]) -> String {
    t.iter().map(|&c| char::from_u32(c).expect("HARNESS text")).collect()
}

fn raw(s: &SmtString) -> Vec<u32> {
    s.iter().copied().collect()
}

fn check_text(c: &mut Ctx, t: &[u32]) -> R {
    let (want, n) = decode(t);
    let s = text(t);
    let got = raw(&parse_smt_literal(&s));
    c.count("texts", 1);
    c.count("escapes_decoded", n);
    if n == 0 && t.contains(&92) {
        c.count("texts_with_malformed_escapes_only", 1);
    }
    ensure!(got == want, "parse_smt_literal({s:?}) = {}, expected {}", show_word(&got), show_word(&want));
    Ok(())
}

/// the body of a printed literal, with doubled quotes undone
fn body(d: &str) -> Result<Vec<u32>, String> {
    let v: Vec<u32> = d.chars().map(|c| c as u32).collect();
    ensure!(v.len() >= 2 && v[0] == 34 && v[v.len() - 1] == 34, "{d:?} is not enclosed in double quotes");
    undouble(&v[1..v.len() - 1]).ok_or_else(|| format!("{d:?}: a double quote is not doubled"))
}

fn undouble(v: &[u32]) -> Option<Vec<u32>> {
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        out.push(v[i]);
        if v[i] == 34 {
            if v.get(i + 1) != Some(&34) {
                return None;
            }
            i += 1;
        }
        i += 1;
    }
    Some(out)
}

fn check_display(c: &mut Ctx, w: &[u32]) -> R {
    let s = sstr(w);
    let d = s.to_string();
    c.count("strings_printed", 1);
    ensure!(d.bytes().all(|b| (32..127).contains(&b)), "{} prints as {d:?}: not printable ASCII only", show_word(w));
    let b = body(&d)?;
    let (den, _) = decode(&b);
    ensure!(den == w, "{} prints as {d}, a literal that denotes {}", show_word(w), show_word(&den));
    let back = raw(&parse_smt_literal(&text(&b)));
    ensure!(back == w, "{} prints as {d}, read back as {}", show_word(w), show_word(&back));
    let d2 = format!("{s}");
    ensure!(d == d2, "to_string and format! differ");
    Ok(())
}

fn check_char(c: &mut Ctx, x: u32) -> R {
    for (name, t) in [("char_to_smt", char_to_smt(x)), ("smt_char_as_string", smt_char_as_string(x))] {
        ensure!(t.bytes().all(|b| (32..127).contains(&b)), "{name}({x:#x}) = {t:?}: not printable ASCII only");
        let v: Vec<u32> = t.chars().map(|c| c as u32).collect();
        let Some(v) = undouble(&v) else { return Err(format!("{name}({x:#x}) = {t:?}: a double quote is not doubled")) };
        let (den, _) = decode(&v);
        ensure!(den == [x], "{name}({x:#x}) = {t:?} denotes {}", show_word(&den));
        let back = raw(&parse_smt_literal(&text(&v)));
        ensure!(back == [x], "{name}({x:#x}) = {t:?}, read back as {}", show_word(&back));
        c.count("characters_printed", 1);
    }
    Ok(())
}

const SEVEN: [u32; 7] = [92, 117, 123, 125, 50, 70, 34];

/// all words of length 3..=7 (9) over \ u { } 2 F ": a prefix, all suffixes
fn short_texts(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    let n = if c.tier == Tier::Quick { 3 } else { 4 };
    let p = nth_word(idx, &SEVEN);
    check_text(c, &p)?;
    each_suffix(&p, n, &SEVEN, &mut |t| {
        c.evals += 1;
        c.enumerated += 1;
        check_text(c, t)
    })?;
    c.sample(|| show_word(&p));
    Ok(())
}

fn escape_like(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    let p = nth_word(idx, &SEVEN);
    check_display(c, &p)?;
    let n = if c.tier == Tier::Quick { 3 } else { 4 };
    each_suffix(&p, n, &SEVEN, &mut |t| {
        c.evals += 1;
        c.enumerated += 1;
        check_display(c, t)
    })
}

fn each_suffix(p: &[u32], n: usize, alpha: &[u32], f: &mut dyn FnMut(&[u32]) -> R) -> R {
    let k = alpha.len();
    let mut t = p.to_vec();
    t.resize(p.len() + n, 0);
    for i in 0..k.pow(n as u32) {
        let mut x = i;
        for j in 0..n {
            t[p.len() + j] = alpha[x % k];
            x /= k;
        }
        f(&t)?;
    }
    Ok(())
}

/// every value 0..0x40000 in every form, with characters around
fn escapes(c: &mut Ctx, idx: u64, r: &mut Rng) -> R {
    for v in idx * 256..(idx + 1) * 256 {
        let v = v as u32;
        let case = |s: String, k: u64| match k % 3 {
            0 => s,
            1 => s.to_uppercase(),
            _ => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
        };
        let mut forms = vec![];
        for k in 0..3 {
            for w in 1..=6 {
                forms.push(format!("\\u{{{}}}", case(format!("{v:0w$x}"), k)));
            }
            forms.push(format!("\\u{}", case(format!("{v:04x}"), k)));
        }
        for f in forms {
            let f: Vec<u32> = f.chars().map(|c| c as u32).collect();
            check_text(c, &f)?;
            // truncated
            check_text(c, &f[..r.us(f.len() + 1)])?;
            // in a context
            let mut t = nth_word(r.below(3000), &[92, 117, 123, 125, 48, 65, 34, 97, 0x100]);
            t.extend_from_slice(&f);
            t.extend(nth_word(r.below(3000), &[92, 117, 123, 125, 48, 65, 34, 97, 0x100]));
            check_text(c, &t)?;
            c.evals += 3;
            c.enumerated += 1;
        }
    }
    Ok(())
}

/// two special values next to each other (surrogate halves, the byte order mark, quotes, ...), in every form
fn escape_pairs(c: &mut Ctx, idx: u64, r: &mut Rng) -> R {
    let (x, y) = (SPECIAL[idx as usize / 46], SPECIAL[idx as usize % 46]);
    let forms = |v: u32| {
        let mut f = vec![format!("\\u{{{v:x}}}"), format!("\\u{v:04X}"), format!("\\u{{{v:05X}}}"), format!("{v:04x}")];
        f.extend(char::from_u32(v).filter(|_| v <= MAXC).map(|c| c.to_string()));
        f
    };
    let tails = ["", "\\", "0", "}", "\\u{DC00}", "\\udc00", "\\u{d83d}\\u{de00}", "a"];
    for f in forms(x) {
        for g in forms(y) {
            for sep in ["", "}", "\\", "\\u", "a", "\u{1F600}"] {
                let t = format!("{f}{sep}{g}{}", *r.pick(&tails));
                let t: Vec<u32> = t.chars().map(|c| c as u32).collect();
                c.evals += 1;
                c.enumerated += 1;
                check_text(c, &t)?;
                if t.iter().all(|&x| x <= MAXC) {
                    check_display(c, &t)?;
                }
            }
        }
    }
    if x <= MAXC && y <= MAXC {
        for w in [vec![x, y], vec![y, x, y], vec![92, x, y], vec![x, 92, y], vec![92, 117, 123, x, y, 125], vec![92, 117, x, y, x, y]] {
            check_display(c, &w)?;
        }
    }
    Ok(())
}

/// `\u{` + up to 7 digits and other characters + `}`, `\u` + digits
fn digit_runs(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    // 4 digits over 7 characters: 2401 words of length 4 minus... enumerated as nth words
    let al = [48, 50, 51, 102, 65, 103, 125];
    let p = nth_word(idx + 400, &al);
    for head in [&[92, 117, 123][..], &[92, 117], &[92, 117, 123, 123], &[92, 92, 117, 123], &[92, 85, 123], &[92, 117, 123, 48]] {
        let base = [head, &p[..]].concat();
        each_suffix(&base, 2, &al, &mut |t| {
            c.evals += 1;
            c.enumerated += 1;
            check_text(c, t)?;
            let mut t = t.to_vec();
            t.push(125);
            check_text(c, &t)
        })?;
    }
    Ok(())
}

/// every character: alone, after a backslash, in texts and in strings
fn characters(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    for x in idx * 256..(idx + 1) * 256 {
        let x = x as u32;
        c.evals += 1;
        c.enumerated += 1;
        check_char(c, x)?;
        for w in [
            vec![x],
            vec![x, x],
            vec![92, x],
            vec![x, 92],
            vec![92, 117, x],
            vec![92, 117, 123, x, 125],
            vec![92, 117, x, 48, 48, 48],
            vec![92, 117, 48, 48, 48, x],
            vec![x, 125],
            vec![x, 48, 48, 48, 48],
            vec![34, x, 34],
        ] {
            check_display(c, &w)?;
            if char::from_u32(x).is_some() {
                check_text(c, &w)?;
            }
        }
    }
    Ok(())
}

fn fragment(t: &mut Vec<u32>, r: &mut Rng) {
    let push = |t: &mut Vec<u32>, s: &str| t.extend(s.chars().map(|c| c as u32));
    match r.below(12) {
        0 => push(t, "\\"),
        1 => push(t, "\\u"),
        2 => push(t, "\\u{"),
        3 => push(t, "}"),
        4..=5 => {
            for _ in 0..r.below(7) {
                t.push(*r.pick(&[48, 49, 50, 51, 57, 65, 70, 71, 97, 102, 103, 96, 64, 58, 47]));
            }
        }
        6 => {
            let v = if r.chance(1, 2) { r.below(0x40000) as u32 } else { *r.pick(&SPECIAL) };
            push(t, &format!("\\u{{{v:x}}}"));
        }
        7 => {
            let v = if r.chance(1, 2) { r.below(0x10000) as u32 } else { *r.pick(&SPECIAL) };
            push(t, &format!("\\u{v:04X}"));
        }
        8 => push(t, "\""),
        9 => t.push(*r.pick(&[0xFF11, 0x660, 0xFF21, 0xFF55, 0xFF5B, 0x155, 0x175, 0x15C, 0x2005C, 0x131, 85, 120, 110, 10, 9, 0])),
        _ => {
            let x = match r.below(4) {
                0 => r.below(128) as u32,
                1 => r.below(0x3000) as u32,
                _ => r.below(MAXC as u64 + 1) as u32,
            };
            t.push(x);
        }
    }
}

fn random_texts(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut t = vec![];
    for _ in 0..r.range(1, 10) {
        fragment(&mut t, r);
    }
    // texts are Rust strings: no surrogates
    t.retain(|&x| char::from_u32(x).is_some());
    let mut h = H::new();
    h.s(&t);
    c.case(h.0);
    c.sample(|| show_word(&t));
    check_text(c, &t)
}

fn random_strings(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut t = vec![];
    for _ in 0..r.range(0, 8) {
        fragment(&mut t, r);
        if r.chance(1, 5) {
            t.push(0xD800 + r.below(0x800) as u32);
        }
    }
    let mut h = H::new();
    h.s(&t);
    c.case(h.0);
    check_display(c, &t)
}

fn long(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    // every 16th is longer than 2^16
    let n = if i % 16 == 7 { r.range(65_000, 140_000) } else { r.range(1000, 20_000) } as usize;
    let mut t = vec![];
    while t.len() < n {
        fragment(&mut t, r);
    }
    let mut h = H::new();
    h.s(&t);
    c.case(h.0);
    check_display(c, &t)?;
    t.retain(|&x| char::from_u32(x).is_some());
    check_text(c, &t)
}

/// a long prefix of characters of 1, 2, 3 or 4 bytes without escape sequences, then fragments
fn prefixed(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut t: Vec<u32> = vec![];
    for _ in 0..r.range(1, 2) {
        let n = match r.below(4) {
            0 => *r.pick(&[15u64, 16, 31, 32, 63, 64, 127, 128, 255, 256]),
            1 => r.range(1, 24),
            2 => r.range(1, 300),
            _ => r.range(16, 80),
        };
        let style = r.below(7);
        let same = r.chance(1, 2);
        let mut x = 0;
        for i in 0..n {
            if i == 0 || !same {
                x = match style {
                    0 => r.range(32, 126) as u32,
                    1 => r.range(0x80, 0x7FF) as u32,
                    2 => r.range(0x800, 0xFFFF) as u32,
                    3 => r.range(0x10000, MAXC as u64) as u32,
                    4 => *r.pick(&[97, 0xE9, 0x4E2D, 0x1F600]),
                    5 => *r.pick(&[97, 0x155C, 0x2005C, 0xDC5C, 0x175]),
                    _ => *r.pick(&[97, 34, 117, 123, 125, 48]),
                };
            }
            t.push(x);
        }
        for _ in 0..r.range(1, 6) {
            fragment(&mut t, r);
        }
    }
    let mut h = H::new();
    h.s(&t);
    c.case(h.0);
    check_display(c, &t)?;
    t.retain(|&x| char::from_u32(x).is_some());
    check_text(c, &t)
}
