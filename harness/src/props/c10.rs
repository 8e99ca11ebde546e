//! C10: str_replace_re / str_replace_re_all against leftmost-shortest matching.

use crate::ctx::*;
use crate::dfa::*;
use crate::ensure;
use crate::props::c06::nth_word;
use crate::props::common::*;
use crate::rng::*;
use crate::rx::*;
use crate::span::Mat;
use crate::Family;
use aws_smt_strings::regular_expressions::RegLan;
use aws_smt_strings::smt_regular_expressions::*;
use aws_smt_strings::smt_strings::SmtString;

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "small", quick: 364, thorough: 1093, enumerated: true, run: small },
        Family { name: "depth2", quick: 368, thorough: 368, enumerated: true, run: depth2 },
        Family { name: "random", quick: 40_000, thorough: 6_000_000, enumerated: false, run: random },
        Family { name: "patterns", quick: 40_000, thorough: 6_000_000, enumerated: false, run: patterns },
        Family { name: "long", quick: 400, thorough: 60_000, enumerated: false, run: long },
        Family { name: "periodic", quick: 3_000, thorough: 300_000, enumerated: false, run: periodic },
        Family { name: "long-matches", quick: 400, thorough: 60_000, enumerated: false, run: long_matches },
        Family { name: "classes", quick: 800, thorough: 200_000, enumerated: false, run: many_classes },
        Family { name: "giant-wrappers", quick: 64, thorough: 2000, enumerated: false, run: wrappers_crowd },
    ]
}

// ---- the theory. m(i, j): the factor s[i..j] belongs to the language

/// leftmost, then shortest match in s[from..], of length at least min
fn leftmost(n: usize, from: usize, min: usize, m: &dyn Fn(usize, usize) -> bool) -> Option<(usize, usize)> {
    for i in from..=n {
        for j in i + min..=n {
            if m(i, j) {
                return Some((i, j));
            }
        }
    }
    None
}

fn replace(s: &[u32], t: &[u32], m: &dyn Fn(usize, usize) -> bool) -> (Vec<u32>, u64) {
    match leftmost(s.len(), 0, 0, m) {
        None => (s.to_vec(), 0),
        Some((i, j)) => ([&s[..i], t, &s[j..]].concat(), 1),
    }
}

fn replace_all(s: &[u32], t: &[u32], m: &dyn Fn(usize, usize) -> bool) -> (Vec<u32>, u64) {
    let mut out = vec![];
    let mut at = 0;
    let mut n = 0;
    while let Some((i, j)) = leftmost(s.len(), at, 1, m) {
        out.extend_from_slice(&s[at..i]);
        out.extend_from_slice(t);
        at = j;
        n += 1;
    }
    out.extend_from_slice(&s[at..]);
    (out, n)
}

fn raw(s: &SmtString) -> Vec<u32> {
    s.iter().copied().collect()
}

fn check(c: &mut Ctx, e: RegLan, s: &[u32], ss: &SmtString, t: &[u32], m: &dyn Fn(usize, usize) -> bool, name: &dyn Fn() -> String) -> R {
    let (want, k) = replace(s, t, m);
    let ts = sstr(t);
    let got = raw(&str_replace_re(ss, e, &ts));
    ensure!(
        got == want,
        "str_replace_re({}, {}, {}) = {}, expected {}",
        show_word(s),
        name(),
        show_word(t),
        show_word(&got),
        show_word(&want)
    );
    let (want, n) = replace_all(s, t, m);
    let got = raw(&str_replace_re_all(ss, e, &ts));
    ensure!(
        got == want,
        "str_replace_re_all({}, {}, {}) = {}, expected {}",
        show_word(s),
        name(),
        show_word(t),
        show_word(&got),
        show_word(&want)
    );
    c.count("replace_calls", 1);
    c.count("replace_all_calls", 1);
    c.count("matches", k);
    c.count("non_empty_matches", n);
    c.max("matches_in_one_call", n);
    if k == 0 {
        c.count("no_match", 1);
    }
    Ok(())
}

fn by_matrix(m: &Mat) -> impl Fn(usize, usize) -> bool + '_ {
    move |i, j| m.get(i, j)
}

/// characters of the small alphabet
fn reps() -> Vec<u32> {
    let al = small_alpha();
    let mut v: Vec<u32> = (0..al.k()).map(|i| al.starts[i]).collect();
    v.retain(|&x| x > 0);
    v.truncate(3);
    v
}

/// one word, all small expressions
fn small(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    in_thread(|| small_case(c, i, r))
}

fn small_case(c: &mut Ctx, idx: u64, _r: &mut Rng) -> R {
    let (base, _) = small_terms();
    let al = reps();
    if al.len() != 3 {
        return Err(format!("HARNESS {} characters", al.len()));
    }
    let w = nth_word(idx, &al);
    let ws = sstr(&w);
    let terms = base.build_wrap();
    let mats = base.mats(&w);
    let reps: [Vec<u32>; 4] = [vec![], vec![al[0]], vec![al[0], al[1], al[0]], vec![0x2FFFF, 0]];
    for (x, &e) in terms.iter().enumerate() {
        let m = by_matrix(&mats[x]);
        for t in &reps {
            check(c, e, &w, &ws, t, &m, &|| base.show(x))?;
            c.evals += 1;
            c.enumerated += 1;
        }
        // replacement = the text itself
        check(c, e, &w, &ws, &w, &m, &|| base.show(x))?;
    }
    c.sample(|| show_word(&w));
    Ok(())
}

/// concatenations and boolean combinations of small terms on words of length up to 5
fn depth2(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    in_thread(|| depth2_case(c, i, r))
}

fn depth2_case(c: &mut Ctx, idx: u64, r: &mut Rng) -> R {
    let (base, _) = small_terms();
    let al = reps();
    let l = idx as usize;
    let terms = base.build_wrap();
    let n = base.ops.len();
    for x in 0..n {
        let op = match (x + l) % 4 {
            0 => Op::Union(l, x),
            1 => Op::Inter(l, x),
            2 => Op::Diff(l, x),
            _ => Op::Concat(l, x),
        };
        let mut p = base.clone();
        let i = p.add(op);
        let e = p.build_wrap_op(i, &terms);
        let used = {
            // matrices of the new node only
            let mut q = Prog::default();
            let a = copy(&base, l, &mut q);
            let b = copy(&base, x, &mut q);
            let op = match (x + l) % 4 {
                0 => Op::Union(a, b),
                1 => Op::Inter(a, b),
                2 => Op::Diff(a, b),
                _ => Op::Concat(a, b),
            };
            q.add(op);
            q
        };
        for _ in 0..3 {
            let w = nth_word(r.below(1093), &al);
            let mats = used.mats(&w);
            let m = by_matrix(&mats[used.root()]);
            let t = nth_word(r.below(13), &al);
            check(c, e, &w, &sstr(&w), &t, &m, &|| used.show(used.root()))?;
            let mut h = H::new();
            h.u(used.hash()).s(&w).s(&t);
            c.case(h.0);
        }
    }
    Ok(())
}

/// copy node i of p (with its children) to q
fn copy(p: &Prog, i: usize, q: &mut Prog) -> usize {
    let mut map = vec![usize::MAX; p.ops.len()];
    fn rec(p: &Prog, i: usize, q: &mut Prog, map: &mut Vec<usize>) -> usize {
        if map[i] != usize::MAX {
            return map[i];
        }
        let ch = p.children(i);
        for k in ch {
            rec(p, k, q, map);
        }
        let op = p.ops[i].map_children(&|k| map[k]);
        map[i] = q.add(op);
        map[i]
    }
    rec(p, i, q, &mut map)
}

/// random text with factors close to the language
fn texts(p: &Prog, d: Option<&Dfa>, al: &Alpha, maxlen: usize, r: &mut Rng) -> Vec<u32> {
    let mut s = vec![];
    while s.len() < maxlen && !r.chance(1, 7) {
        match d {
            Some(d) if r.chance(2, 3) => {
                let mut w = guided_word(d, al, 8, r);
                if r.chance(1, 4) && !w.is_empty() {
                    let i = r.us(w.len());
                    w[i] = rand_char(al, r);
                }
                if r.chance(1, 4) {
                    w.pop();
                }
                s.extend(w);
            }
            _ => s.extend(rand_word(al, 3, r)),
        }
    }
    let _ = p;
    s.truncate(maxlen);
    s
}

fn one(c: &mut Ctx, p: &Prog, terms: &[RegLan], d: Option<&Dfa>, al: &Alpha, r: &mut Rng) -> R {
    let root = p.root();
    for _ in 0..3 {
        let maxlen = if r.chance(1, 4) { 40 } else { 14 };
        let s = texts(p, d, al, maxlen, r);
        let t = match r.below(5) {
            0 => vec![],
            1 => s.iter().copied().take(4).collect(),
            _ => rand_word(al, 3, r),
        };
        let mats = p.mats(&s);
        let m = by_matrix(&mats[root]);
        let mut h = H::new();
        h.u(p.hash()).s(&s).s(&t);
        c.case(h.0);
        check(c, terms[root], &s, &sstr(&s), &t, &m, &|| p.show(root))?;
        // any sub-expression
        let k = r.us(p.ops.len());
        let m = by_matrix(&mats[k]);
        check(c, terms[k], &s, &sstr(&s), &t, &m, &|| p.show(k))?;
    }
    Ok(())
}

fn random(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    in_thread(|| random_case(c, i, r))
}

fn random_case(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    // two expressions in one manager, used alternately
    let ps = [diverse(r), diverse(r)];
    let terms: Vec<Vec<RegLan>> = ps.iter().map(|p| p.build_wrap()).collect();
    for _ in 0..2 {
        for (p, t) in ps.iter().zip(&terms) {
            let al = p.alpha();
            let d = p.dfas(&al, 300).pop().flatten();
            one(c, p, t, d.as_ref(), &al, r)?;
        }
    }
    c.sample(|| ps[0].show(ps[0].root()));
    Ok(())
}

/// dead ends, matches that start inside other partial matches, shortest against longest
fn patterns(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    in_thread(|| patterns_case(c, i, r))
}

fn patterns_case(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut p = Prog::default();
    let pal = [97, 98, 99];
    match r.below(3) {
        0 => {
            // (u|v|...) for words that are prefixes and factors of each other
            let n = r.range(1, 5);
            let mut l = vec![];
            for _ in 0..n {
                let w: Vec<u32> = (0..r.below(6)).map(|_| pal[r.us(2)]).collect();
                l.push(p.add(Op::Str(w)));
            }
            p.add(Op::UnionL(l));
        }
        1 => {
            let items: Vec<Item> = (0..r.range(1, 5)).map(|_| rand_item(&pal, r)).collect();
            add_pattern(&mut p, &items);
        }
        _ => {
            let w: Vec<u32> = (0..r.range(1, 5)).map(|_| pal[r.us(2)]).collect();
            let a = p.add(Op::Str(w));
            let i = r.below(3) as u32;
            let l = p.add(Op::MkLoop(a, i, if r.chance(1, 2) { None } else { Some(i + r.below(3) as u32) }));
            let w: Vec<u32> = (0..r.below(4)).map(|_| pal[r.us(2)]).collect();
            let b = p.add(Op::Str(w));
            let x = p.add(Op::Concat(l, b));
            if r.chance(1, 3) {
                let f = p.add(Op::SigmaPlus);
                p.add(Op::Inter(x, f));
            }
        }
    }
    let terms = p.build_wrap();
    let al = p.alpha();
    let d = p.dfas(&al, 300).pop().flatten();
    one(c, &p, &terms, None, &Alpha::new(vec![97, 98, 99, 100]), r)?;
    one(c, &p, &terms, d.as_ref(), &al, r)
}

/// long texts; the oracle runs the reference automaton
fn long(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    in_thread(|| long_case(c, i, r))
}

fn long_case(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let p = diverse(r);
    let al = p.alpha();
    let Some(d) = p.dfas(&al, 300).pop().flatten() else {
        c.count("ref_capped", 1);
        return Ok(());
    };
    let terms = p.build_wrap();
    let n = r.range(100, 1500) as usize;
    let mut s = vec![];
    while s.len() < n {
        s.extend(texts(&p, Some(&d), &al, 60, r));
        s.push(rand_char(&al, r));
    }
    by_dfa(c, &p, &terms, &d, &al, &s, r)
}

/// matches of hundreds or thousands of characters, texts of more than 2^16 (few matches)
fn long_matches(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    in_thread(|| long_matches_case(c, i, r))
}

fn long_matches_case(c: &mut Ctx, idx: u64, r: &mut Rng) -> R {
    let mut p = Prog::default();
    let (a, b, z) = (97, 98, 122);
    let n = if r.chance(1, 2) { r.range(250, 260) } else { r.range(20, 1200) } as u32;
    let sa = p.add(Op::Char(a));
    let sb = p.add(Op::Char(b));
    let sz = p.add(Op::Char(z));
    match r.below(4) {
        // a{n} z
        0 => {
            let l = p.add(Op::MkLoop(sa, n, if r.chance(1, 2) { None } else { Some(n + r.below(30) as u32) }));
            p.add(if r.chance(1, 2) { Op::Concat(l, sz) } else { Op::Opt(l) });
        }
        // z (a|b)* z
        1 => {
            let u = p.add(Op::Union(sa, sb));
            let l = p.add(Op::Star(u));
            let x = p.add(Op::Concat(sz, l));
            p.add(Op::Concat(x, sz));
        }
        // at least n characters and no z before the end
        2 => {
            let u = p.add(Op::Union(sa, sb));
            let l = p.add(Op::MkLoop(u, n, None));
            let o = p.add(Op::Opt(sz));
            p.add(Op::Concat(l, o));
        }
        _ => {
            let w = p.add(Op::Str((0..n.min(400)).map(|_| *r.pick(&[a, a, a, b])).collect()));
            let u = p.add(Op::Union(w, sz));
            p.add(if r.chance(1, 2) { Op::Opt(u) } else { Op::Plus(u) });
        }
    }
    let al = p.alpha();
    let Some(d) = p.dfas(&al, 4000).pop().flatten() else {
        c.count("ref_capped", 1);
        return Ok(());
    };
    let terms = p.build_wrap();
    let live = d.live();
    let mut s: Vec<u32> = vec![];
    // non-matching parts are short: matching is quadratic
    for _ in 0..r.range(1, 4) {
        match r.below(3) {
            0 => s.extend((0..r.below(2 * n as u64)).map(|_| *r.pick(&[a, a, a, a, b]))),
            1 => s.extend(vec![a; r.us(2 * n as usize)]),
            _ => {
                // a member of the language
                let mut q = 0;
                for _ in 0..3 * n {
                    if d.fin[q as usize] && r.chance(1, 3) {
                        break;
                    }
                    let k = (0..al.k()).filter(|&k| live[d.step(q, k) as usize]).collect::<Vec<_>>();
                    if k.is_empty() {
                        break;
                    }
                    let k = *r.pick(&k);
                    s.push(al.starts[k]);
                    q = d.step(q, k);
                }
            }
        }
        s.push(*r.pick(&[a, z, 99]));
    }
    if idx % 16 == 3 {
        // characters which start no match, or end it at once
        let k = r.range(65_500, 66_000) as usize;
        let dead = if d.live()[d.step(0, al.atom(99)) as usize] { z } else { 99 };
        s.splice(0..0, vec![dead; k]);
    }
    by_dfa(c, &p, &terms, &d, &al, &s, r)
}

fn by_dfa(c: &mut Ctx, p: &Prog, terms: &[RegLan], d: &Dfa, al: &Alpha, s: &[u32], r: &mut Rng) -> R {
    // shortest match from each position (0: empty)
    let live = d.live();
    let (mut short, mut short1) = (vec![None; s.len() + 1], vec![None; s.len() + 1]);
    for i in 0..=s.len() {
        let mut q = 0;
        if d.fin[q as usize] {
            short[i] = Some(i);
        }
        for j in i..s.len() {
            q = d.step(q, al.atom(s[j]));
            if d.fin[q as usize] {
                short1[i] = Some(j + 1);
                break;
            }
            if !live[q as usize] {
                break;
            }
        }
        if short[i].is_none() {
            short[i] = short1[i];
        }
    }
    let t = rand_word(al, 5, r);
    let mut h = H::new();
    h.u(p.hash()).s(s).s(&t);
    c.case(h.0);
    let root = p.root();
    let e = terms[root];
    let want = match (0..=s.len()).find_map(|i| short[i].map(|j| (i, j))) {
        None => s.to_vec(),
        Some((i, j)) => {
            c.max("match_length", (j - i) as u64);
            [&s[..i], &t[..], &s[j..]].concat()
        }
    };
    let got = raw(&str_replace_re(&sstr(s), e, &sstr(&t)));
    ensure!(got == want, "str_replace_re of {} in a text of length {}", p.show(root), s.len());
    let mut want = vec![];
    let mut i = 0;
    while i < s.len() {
        match short1[i] {
            Some(j) => {
                c.max("match_length", (j - i) as u64);
                want.extend_from_slice(&t);
                i = j;
                c.count("non_empty_matches", 1);
            }
            None => {
                want.push(s[i]);
                i += 1;
            }
        }
    }
    let got = raw(&str_replace_re_all(&sstr(s), e, &sstr(&t)));
    ensure!(got == want, "str_replace_re_all of {} in a text of length {}", p.show(root), s.len());
    c.count("long_texts", 1);
    c.max("text_length", s.len() as u64);
    Ok(())
}

/// more than 2^16 terms made through the SMT-LIB functions in one thread
fn wrappers_crowd(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    crowded_wrappers(c, r, &mut |c, p, t, r| {
        let al = p.alpha();
        let d = p.dfas(&al, 100).pop().flatten();
        one(c, p, t, d.as_ref(), &al, r)
    })
}

/// attempts that fail, or succeed, at positions which differ by a chosen period
fn periodic(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    in_thread(|| periodic_case(c, i, r))
}

fn periodic_case(c: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut p = Prog::default();
    let pal = [97, 98, 99];
    let n = r.range(2, 8);
    let w: Vec<u32> = (0..n).map(|_| pal[r.us(3)]).collect();
    match r.below(6) {
        0 => {
            p.add(Op::Str(w.clone()));
        }
        1 => {
            // w | w'
            let mut v = w.clone();
            let k = r.us(v.len());
            v[k] = pal[r.us(3)];
            v.truncate(k + 1 + r.us(v.len() - k));
            let a = p.add(Op::Str(w.clone()));
            let b = p.add(Op::Str(v));
            p.add(Op::Union(a, b));
        }
        2 => {
            // w sigma{k} z
            let a = p.add(Op::Str(w.clone()));
            let s = p.add(Op::AllChar);
            let k = r.range(1, 12) as u32;
            let l = p.add(Op::MkLoop(s, if r.chance(1, 2) { k } else { 0 }, Some(k)));
            let z = p.add(Op::Char(122));
            p.add(Op::ConcatL(vec![a, l, z]));
        }
        3 => {
            // (w)+ z
            let a = p.add(Op::Str(w.clone()));
            let s = p.add(Op::Plus(a));
            let z = p.add(Op::Char(122));
            p.add(Op::Concat(s, z));
        }
        4 => {
            // w without some factor afterwards
            let a = p.add(Op::Str(w.clone()));
            let f = p.add(Op::Range(97, 99));
            let l = p.add(Op::MkLoop(f, r.below(4) as u32, Some(4 + r.below(20) as u32)));
            let z = p.add(Op::Char(122));
            p.add(Op::ConcatL(vec![a, l, z]));
        }
        _ => {
            let q = diverse(r);
            p = q;
        }
    }
    let al = p.alpha();
    let Some(d) = p.dfas(&al, 400).pop().flatten() else {
        c.count("ref_capped", 1);
        return Ok(());
    };
    let terms = p.build_wrap();
    let period = match r.below(4) {
        0 => *r.pick(&[2usize, 3, 4, 8, 10, 16]),
        1 => *r.pick(&[31usize, 32, 33, 63, 64, 65, 100]),
        2 => *r.pick(&[127usize, 128, 255, 256, 257]),
        _ => *r.pick(&[512usize, 1000, 1024]),
    };
    let n = period * r.range(2, 5) as usize + r.us(20);
    // filler: characters that start no match, or part of one
    let fill = *r.pick(&[120u32, 120, 97, 98]);
    let mut s = vec![fill; n];
    // pieces at the same offset in several periods: some complete, most of them not
    for _ in 0..r.range(1, 4) {
        let off = r.us(period);
        let mut k = 0;
        let base: Vec<u32> = if r.chance(1, 2) { w.clone() } else { guided_word(&d, &al, 12, r) };
        while k * period + off < n {
            if r.chance(3, 4) {
                let mut v = base.clone();
                let drift = if r.chance(1, 6) { r.us(2) } else { 0 };
                match r.below(5) {
                    0 => v.truncate(r.us(v.len() + 1)),
                    1 if !v.is_empty() => {
                        let x = r.us(v.len());
                        v[x] = pal[r.us(3)];
                    }
                    2 => v.push(122),
                    3 => {
                        v.extend((0..r.below(6)).map(|_| pal[r.us(3)]));
                        v.push(122);
                    }
                    _ => (),
                }
                for (x, &ch) in v.iter().enumerate() {
                    let at = k * period + off + drift + x;
                    if at < n {
                        s[at] = ch;
                    }
                }
            }
            k += 1;
        }
    }
    by_dfa(c, &p, &terms, &d, &al, &s, r)
}

/// expressions with tens to hundreds of derivative classes
fn many_classes(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    in_thread(|| many_classes_case(c, i, r))
}

fn many_classes_case(c: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let n = super::wide::wide_size(i % 40 == 7, r);
    let p = super::wide::wide_prog(n.min(300), r);
    let al = p.alpha();
    let Some(d) = p.dfas(&al, 250).pop().flatten() else {
        c.count("ref_capped", 1);
        return Ok(());
    };
    let mut re = aws_smt_strings::regular_expressions::ReManager::new();
    let u = p.build(&mut re);
    if derivative_count(&mut re, u[p.root()], 300).is_none() {
        c.count("deriv_capped", 1);
        return Ok(());
    }
    c.max("classes", u[p.root()].num_deriv_classes() as u64);
    let terms = p.build_wrap();
    for _ in 0..4 {
        let maxlen = if r.chance(1, 4) { 40 } else { 12 };
        let s = texts(&p, Some(&d), &al, maxlen, r);
        by_dfa(c, &p, &terms, &d, &al, &s, r)?;
    }
    Ok(())
}
