//! Construction programs: sequences of constructor calls, their denotation (two independent
//! reference semantics) and their execution on the real crate.

use crate::dfa::{Alpha, Dfa, TooBig, MAXC};
use crate::rng::{Rng, H};
use crate::span::Mat;
use aws_smt_strings::character_sets::CharSet;
use aws_smt_strings::loop_ranges::LoopRange;
use aws_smt_strings::regular_expressions::{ReManager, RegLan};
use aws_smt_strings::smt_regular_expressions as w;
use aws_smt_strings::smt_strings::SmtString;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Empty,
    Full,
    AllChar,
    Eps,
    SigmaPlus,
    Char(u32),
    Range(u32, u32),
    CharSet(u32, u32),
    SmtRange(Vec<u32>, Vec<u32>),
    Str(Vec<u32>),
    Concat(usize, usize),
    ConcatL(Vec<usize>),
    Union(usize, usize),
    UnionL(Vec<usize>),
    Inter(usize, usize),
    InterL(Vec<usize>),
    Comp(usize),
    Diff(usize, usize),
    DiffL(usize, Vec<usize>),
    Star(usize),
    Plus(usize),
    Opt(usize),
    Exp(usize, u32),
    SmtLoop(usize, u32, u32),
    MkLoop(usize, u32, Option<u32>),
}

impl Op {
    pub fn map_children(&self, f: &dyn Fn(usize) -> usize) -> Op {
        use Op::*;
        let list = |l: &[usize]| l.iter().map(|&x| f(x)).collect::<Vec<_>>();
        match self {
            Concat(x, y) => Concat(f(*x), f(*y)),
            Union(x, y) => Union(f(*x), f(*y)),
            Inter(x, y) => Inter(f(*x), f(*y)),
            Diff(x, y) => Diff(f(*x), f(*y)),
            ConcatL(l) => ConcatL(list(l)),
            UnionL(l) => UnionL(list(l)),
            InterL(l) => InterL(list(l)),
            DiffL(x, l) => DiffL(f(*x), list(l)),
            Comp(x) => Comp(f(*x)),
            Star(x) => Star(f(*x)),
            Plus(x) => Plus(f(*x)),
            Opt(x) => Opt(f(*x)),
            Exp(x, i) => Exp(f(*x), *i),
            SmtLoop(x, i, j) => SmtLoop(f(*x), *i, *j),
            MkLoop(x, i, j) => MkLoop(f(*x), *i, *j),
            leaf => leaf.clone(),
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub ops: Vec<Op>,
}

pub fn sstr(v: &[u32]) -> SmtString {
    SmtString::from(v)
}

pub fn show_word(w: &[u32]) -> String {
    let mut s = String::from("\"");
    for &c in w {
        if (33..127).contains(&c) && c != 34 && c != 92 {
            s.push(char::from_u32(c).unwrap());
        } else {
            s.push_str(&format!("\\u{{{c:x}}}"));
        }
    }
    s.push('"');
    s
}

fn show_char(c: u32) -> String {
    show_word(&[c])
}

impl Prog {
    pub fn root(&self) -> usize {
        self.ops.len() - 1
    }

    pub fn add(&mut self, op: Op) -> usize {
        self.ops.push(op);
        self.ops.len() - 1
    }

    /// s-expression of node i (shared sub-terms are expanded, within limits)
    pub fn show(&self, i: usize) -> String {
        let mut budget = 400usize;
        self.show_rec(i, &mut budget)
    }

    fn show_list(&self, head: &str, l: &[usize], b: &mut usize) -> String {
        let mut s = format!("({head}");
        for &x in l {
            s.push(' ');
            s.push_str(&self.show_rec(x, b));
        }
        s.push(')');
        s
    }

    fn show_rec(&self, i: usize, b: &mut usize) -> String {
        if *b == 0 {
            return "...".into();
        }
        *b -= 1;
        use Op::*;
        match &self.ops[i] {
            Empty => "none".into(),
            Full => "all".into(),
            AllChar => "allchar".into(),
            Eps => "eps".into(),
            SigmaPlus => "sigma_plus".into(),
            Char(c) => format!("(char {})", show_char(*c)),
            Range(x, y) => format!("(range {} {})", show_char(*x), show_char(*y)),
            CharSet(x, y) => format!("(char_set {} {})", show_char(*x), show_char(*y)),
            SmtRange(x, y) => format!("(re.range {} {})", show_word(x), show_word(y)),
            Str(x) => format!("(str {})", show_word(x)),
            Concat(x, y) => self.show_list("concat", &[*x, *y], b),
            ConcatL(l) => self.show_list("concat_list", l, b),
            Union(x, y) => self.show_list("union", &[*x, *y], b),
            UnionL(l) => self.show_list("union_list", l, b),
            Inter(x, y) => self.show_list("inter", &[*x, *y], b),
            InterL(l) => self.show_list("inter_list", l, b),
            Comp(x) => self.show_list("comp", &[*x], b),
            Diff(x, y) => self.show_list("diff", &[*x, *y], b),
            DiffL(x, l) => {
                let mut v = vec![*x];
                v.extend(l);
                self.show_list("diff_list", &v, b)
            }
            Star(x) => self.show_list("star", &[*x], b),
            Plus(x) => self.show_list("plus", &[*x], b),
            Opt(x) => self.show_list("opt", &[*x], b),
            Exp(x, k) => self.show_list(&format!("exp {k}"), &[*x], b),
            SmtLoop(x, i, j) => self.show_list(&format!("smt_loop {i} {j}"), &[*x], b),
            MkLoop(x, i, j) => {
                let j = j.map_or("inf".to_string(), |j| j.to_string());
                self.show_list(&format!("mk_loop {i} {j}"), &[*x], b)
            }
        }
    }

    pub fn hash(&self) -> u64 {
        let mut h = H::new();
        for op in &self.ops {
            use std::hash::{Hash, Hasher};
            struct HH(u64);
            impl Hasher for HH {
                fn finish(&self) -> u64 {
                    self.0
                }
                fn write(&mut self, b: &[u8]) {
                    for &x in b {
                        self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
                    }
                }
            }
            let mut hh = HH(0xcbf29ce484222325);
            op.hash(&mut hh);
            h.u(hh.finish());
        }
        h.0
    }

    /// every character at which the meaning of some leaf changes
    pub fn cuts(&self) -> Vec<u32> {
        let mut v = vec![0];
        let mut rng = |a: u32, b: u32| {
            v.push(a);
            v.push(b + 1);
        };
        for op in &self.ops {
            match op {
                Op::Char(c) => rng(*c, *c),
                Op::Range(a, b) | Op::CharSet(a, b) => rng(*a, *b),
                Op::SmtRange(a, b) if a.len() == 1 && b.len() == 1 && a[0] <= b[0] => {
                    rng(a[0], b[0])
                }
                Op::Str(s) => {
                    for &c in s {
                        rng(c, c)
                    }
                }
                _ => (),
            }
        }
        v
    }

    pub fn alpha(&self) -> Alpha {
        Alpha::new(self.cuts())
    }

    /// sets of nodes that the root depends on
    pub fn used(&self) -> Vec<bool> {
        let mut u = vec![false; self.ops.len()];
        let r = self.root();
        u[r] = true;
        for i in (0..=r).rev() {
            if u[i] {
                for c in self.children(i) {
                    u[c] = true;
                }
            }
        }
        u
    }

    pub fn children(&self, i: usize) -> Vec<usize> {
        use Op::*;
        match &self.ops[i] {
            Concat(x, y) | Union(x, y) | Inter(x, y) | Diff(x, y) => vec![*x, *y],
            ConcatL(l) | UnionL(l) | InterL(l) => l.clone(),
            DiffL(x, l) => {
                let mut v = vec![*x];
                v.extend(l);
                v
            }
            Comp(x) | Star(x) | Plus(x) | Opt(x) | Exp(x, _) | SmtLoop(x, ..) | MkLoop(x, ..) => {
                vec![*x]
            }
            _ => vec![],
        }
    }

    // ---- semantics 1: DFAs

    pub fn node_dfa(&self, i: usize, done: &[Option<Dfa>], al: &Alpha, cap: usize) -> Result<Dfa, TooBig> {
        use Op::*;
        let k = al.k();
        let get = |x: &usize| done[*x].as_ref().ok_or(TooBig);
        let chars = |a: u32, b: u32| Dfa::chars(&al.set(a, b));
        let fold = |l: &Vec<usize>, z: Dfa, f: &dyn Fn(&Dfa, &Dfa) -> Result<Dfa, TooBig>| {
            let mut r = z;
            for x in l {
                r = f(&r, get(x)?)?;
            }
            Ok(r)
        };
        // balanced, for operations that are associative
        let tree = |l: &Vec<usize>, z: Dfa, f: &dyn Fn(&Dfa, &Dfa) -> Result<Dfa, TooBig>| {
            if l.len() < 8 {
                return fold(l, z, f);
            }
            let mut v: Vec<Dfa> = l.iter().map(|x| get(x).cloned()).collect::<Result<_, _>>()?;
            while v.len() > 1 {
                v = v.chunks(2).map(|x| if x.len() == 2 { f(&x[0], &x[1]) } else { Ok(x[0].clone()) }).collect::<Result<_, _>>()?;
            }
            Ok(v.pop().unwrap())
        };
        match &self.ops[i] {
            Empty => Ok(Dfa::empty(k)),
            Full => Ok(Dfa::full(k)),
            AllChar => Ok(chars(0, MAXC)),
            Eps => Ok(Dfa::eps(k)),
            SigmaPlus => chars(0, MAXC).loop_range(1, None, cap),
            Char(c) => Ok(chars(*c, *c)),
            Range(a, b) | CharSet(a, b) => Ok(chars(*a, *b)),
            SmtRange(a, b) => Ok(if a.len() == 1 && b.len() == 1 && a[0] <= b[0] {
                chars(a[0], b[0])
            } else {
                Dfa::empty(k)
            }),
            Str(s) => Ok(Dfa::word(k, &s.iter().map(|&c| al.atom(c)).collect::<Vec<_>>())),
            Concat(x, y) => get(x)?.concat(get(y)?, cap),
            Union(x, y) => get(x)?.union(get(y)?, cap),
            Inter(x, y) => get(x)?.inter(get(y)?, cap),
            Diff(x, y) => get(x)?.diff(get(y)?, cap),
            ConcatL(l) => fold(l, Dfa::eps(k), &|a, b| a.concat(b, cap)),
            UnionL(l) => tree(l, Dfa::empty(k), &|a, b| a.union(b, cap)),
            InterL(l) => tree(l, Dfa::full(k), &|a, b| a.inter(b, cap)),
            DiffL(x, l) if l.len() >= 8 => get(x)?.diff(&tree(l, Dfa::empty(k), &|a, b| a.union(b, cap))?, cap),
            DiffL(x, l) => fold(l, get(x)?.clone(), &|a, b| a.diff(b, cap)),
            Comp(x) => Ok(get(x)?.comp()),
            Star(x) => get(x)?.loop_range(0, None, cap),
            Plus(x) => get(x)?.loop_range(1, None, cap),
            Opt(x) => get(x)?.loop_range(0, Some(1), cap),
            Exp(x, n) => get(x)?.loop_range(*n, Some(*n), cap),
            SmtLoop(x, i, j) => get(x)?.loop_range(*i, Some(*j), cap),
            MkLoop(x, i, j) => get(x)?.loop_range(*i, *j, cap),
        }
    }

    /// DFAs of all nodes (None where the cap was exceeded)
    pub fn dfas(&self, al: &Alpha, cap: usize) -> Vec<Option<Dfa>> {
        let mut v: Vec<Option<Dfa>> = Vec::with_capacity(self.ops.len());
        for i in 0..self.ops.len() {
            let d = self.node_dfa(i, &v, al, cap).ok();
            v.push(d);
        }
        v
    }

    // ---- semantics 2: span matrices

    pub fn mats(&self, word: &[u32]) -> Vec<Mat> {
        use Op::*;
        let n = word.len();
        assert!(n <= 62);
        let mut m: Vec<Mat> = Vec::with_capacity(self.ops.len());
        let chars = |a: u32, b: u32| {
            let mut x = Mat::zero(n);
            for (i, &c) in word.iter().enumerate() {
                if a <= c && c <= b {
                    x.r[i] = 1 << (i + 1);
                }
            }
            x
        };
        for op in &self.ops {
            let x = match op {
                Empty => Mat::zero(n),
                Full => Mat::full(n),
                AllChar => chars(0, MAXC),
                Eps => Mat::id(n),
                SigmaPlus => chars(0, MAXC).loop_range(1, None),
                Char(c) => chars(*c, *c),
                Range(a, b) | CharSet(a, b) => chars(*a, *b),
                SmtRange(a, b) => {
                    if a.len() == 1 && b.len() == 1 && a[0] <= b[0] {
                        chars(a[0], b[0])
                    } else {
                        Mat::zero(n)
                    }
                }
                Str(s) => {
                    let mut x = Mat::zero(n);
                    for i in 0..=n {
                        if i + s.len() <= n && word[i..i + s.len()] == s[..] {
                            x.r[i] = 1 << (i + s.len());
                        }
                    }
                    x
                }
                Concat(x, y) => m[*x].mul(&m[*y]),
                Union(x, y) => m[*x].or(&m[*y]),
                Inter(x, y) => m[*x].and(&m[*y]),
                Diff(x, y) => m[*x].and(&m[*y].comp()),
                ConcatL(l) => l.iter().fold(Mat::id(n), |a, b| a.mul(&m[*b])),
                UnionL(l) => l.iter().fold(Mat::zero(n), |a, b| a.or(&m[*b])),
                InterL(l) => l.iter().fold(Mat::full(n), |a, b| a.and(&m[*b])),
                DiffL(x, l) => l.iter().fold(m[*x].clone(), |a, b| a.and(&m[*b].comp())),
                Comp(x) => m[*x].comp(),
                Star(x) => m[*x].star(),
                Plus(x) => m[*x].loop_range(1, None),
                Opt(x) => m[*x].loop_range(0, Some(1)),
                Exp(x, k) => m[*x].pow(*k),
                SmtLoop(x, i, j) => m[*x].loop_range(*i, Some(*j)),
                MkLoop(x, i, j) => m[*x].loop_range(*i, *j),
            };
            m.push(x);
        }
        m
    }

    // ---- execution on the crate

    pub fn build_op(&self, i: usize, re: &mut ReManager, t: &[RegLan]) -> RegLan {
        use Op::*;
        let list = |l: &Vec<usize>| l.iter().map(|&x| t[x]).collect::<Vec<RegLan>>();
        match &self.ops[i] {
            Empty => re.empty(),
            Full => re.full(),
            AllChar => re.all_chars(),
            Eps => re.epsilon(),
            SigmaPlus => re.sigma_plus(),
            Char(c) => re.char(*c),
            Range(a, b) => re.range(*a, *b),
            CharSet(a, b) => re.char_set(self::CharSet::range(*a, *b)),
            SmtRange(a, b) => re.smt_range(&sstr(a), &sstr(b)),
            Str(s) => re.str(&sstr(s)),
            Concat(x, y) => re.concat(t[*x], t[*y]),
            Union(x, y) => re.union(t[*x], t[*y]),
            Inter(x, y) => re.inter(t[*x], t[*y]),
            Diff(x, y) => re.diff(t[*x], t[*y]),
            ConcatL(l) => re.concat_list(list(l)),
            UnionL(l) => re.union_list(list(l)),
            InterL(l) => re.inter_list(list(l)),
            DiffL(x, l) => re.diff_list(t[*x], list(l)),
            Comp(x) => re.complement(t[*x]),
            Star(x) => re.star(t[*x]),
            Plus(x) => re.plus(t[*x]),
            Opt(x) => re.opt(t[*x]),
            Exp(x, k) => re.exp(t[*x], *k),
            SmtLoop(x, i, j) => re.smt_loop(t[*x], *i, *j),
            MkLoop(x, i, None) => re.mk_loop(t[*x], LoopRange::infinite(*i)),
            MkLoop(x, i, Some(j)) => re.mk_loop(t[*x], LoopRange::finite(*i, *j)),
        }
    }

    pub fn build(&self, re: &mut ReManager) -> Vec<RegLan> {
        let mut t = Vec::with_capacity(self.ops.len());
        for i in 0..self.ops.len() {
            let x = self.build_op(i, re, &t);
            t.push(x);
        }
        t
    }

    /// Same with the SMT-LIB-named wrappers on the thread-local manager.
    pub fn build_wrap_op(&self, i: usize, t: &[RegLan]) -> RegLan {
        use Op::*;
        let list = |l: &Vec<usize>| l.iter().map(|&x| t[x]).collect::<Vec<RegLan>>();
        match &self.ops[i] {
            Empty => w::re_none(),
            Full => w::re_all(),
            AllChar => w::re_allchar(),
            Eps => w::str_to_re(&sstr(&[])),
            SigmaPlus => w::re_plus(w::re_allchar()),
            Char(c) => w::str_to_re(&sstr(&[*c])),
            Range(a, b) | CharSet(a, b) => w::re_range(&sstr(&[*a]), &sstr(&[*b])),
            SmtRange(a, b) => w::re_range(&sstr(a), &sstr(b)),
            Str(s) => w::str_to_re(&sstr(s)),
            Concat(x, y) => w::re_concat(t[*x], t[*y]),
            Union(x, y) => w::re_union(t[*x], t[*y]),
            Inter(x, y) => w::re_inter(t[*x], t[*y]),
            Diff(x, y) => w::re_diff(t[*x], t[*y]),
            ConcatL(l) => w::re_concat_list(list(l)),
            UnionL(l) => w::re_union_list(list(l)),
            InterL(l) => w::re_inter_list(list(l)),
            DiffL(x, l) => w::re_diff_list(t[*x], list(l)),
            Comp(x) => w::re_comp(t[*x]),
            Star(x) => w::re_star(t[*x]),
            Plus(x) => w::re_plus(t[*x]),
            Opt(x) => w::re_opt(t[*x]),
            Exp(x, k) => w::re_power(t[*x], *k),
            SmtLoop(x, i, j) => w::re_loop(t[*x], *i, *j),
            MkLoop(x, i, Some(j)) => w::re_loop(t[*x], *i, *j),
            MkLoop(x, i, None) => {
                let s = w::re_star(t[*x]);
                let p = w::re_power(t[*x], *i);
                w::re_concat(p, s)
            }
        }
    }

    pub fn build_wrap(&self) -> Vec<RegLan> {
        let mut t = Vec::with_capacity(self.ops.len());
        for i in 0..self.ops.len() {
            let x = self.build_wrap_op(i, &t);
            t.push(x);
        }
        t
    }

    pub fn features(&self) -> Vec<&'static str> {
        use Op::*;
        let mut v: Vec<&'static str> = self
            .ops
            .iter()
            .map(|op| match op {
                Empty => "none",
                Full => "all",
                AllChar => "allchar",
                Eps => "epsilon",
                SigmaPlus => "sigma_plus",
                Char(_) => "char",
                Range(..) => "range",
                CharSet(..) => "char_set",
                SmtRange(..) => "smt_range",
                Str(_) => "str",
                Concat(..) => "concat",
                ConcatL(_) => "concat_list",
                Union(..) => "union",
                UnionL(_) => "union_list",
                Inter(..) => "inter",
                InterL(_) => "inter_list",
                Comp(_) => "complement",
                Diff(..) => "diff",
                DiffL(..) => "diff_list",
                Star(_) => "star",
                Plus(_) => "plus",
                Opt(_) => "opt",
                Exp(..) => "exp",
                SmtLoop(..) => "smt_loop",
                MkLoop(_, _, None) => "mk_loop_inf",
                MkLoop(..) => "mk_loop_fin",
            })
            .collect();
        v.sort_unstable();
        v.dedup();
        v
    }
}

// ---- generation

#[derive(Clone)]
pub struct Gen {
    pub palette: Vec<u32>,
    /// small loop bounds are drawn in 0..=bound
    pub bound: u32,
    /// allow huge loop bounds
    pub huge: bool,
    /// probability (in %) of reusing an existing node
    pub reuse: u64,
    /// weights: boolean operations, concatenation, loops
    pub wbool: u64,
    pub wcat: u64,
    pub wloop: u64,
    /// upper limit on arity for list operations
    pub arity: usize,
}

pub const PALETTES: &[&[u32]] = &[
    &[97, 98],
    &[97, 98, 99, 100],
    &[0, 1, 2, 3],
    &[MAXC - 3, MAXC - 2, MAXC - 1, MAXC],
    &[0, 1, 97, 98, 0xFFFF, 0x10000, MAXC - 1, MAXC],
    &[48, 57, 65, 90, 97, 122],
    &[0, MAXC],
    &[34, 92, 117, 123, 0xFFFD, 0xD800],
    &[0xD83D, 0xDE00, 0xDBFF, 0xDFFF, 97],
    &[97, 0x161, 0x10061, 0x20061],
];

pub const HUGE: &[u32] = &[
    7, 15, 16, 17, 31, 64, 100, 255, 256, 1000, 65535, 65536, 65537, 1 << 20, i32::MAX as u32,
    1 << 31, u32::MAX - 1, u32::MAX,
];

impl Gen {
    pub fn random(rng: &mut Rng) -> Gen {
        let palette = if rng.chance(1, 2) { PALETTES[rng.us(2)] } else { *rng.pick(PALETTES) };
        Gen {
            palette: palette.to_vec(),
            bound: rng.range(2, 4) as u32,
            huge: false,
            reuse: *rng.pick(&[5, 15, 30]),
            wbool: rng.range(1, 4),
            wcat: rng.range(1, 5),
            wloop: rng.range(1, 4),
            arity: rng.range(2, 4) as usize,
        }
    }

    fn ch(&self, rng: &mut Rng) -> u32 {
        *rng.pick(&self.palette)
    }

    pub fn leaf(&self, rng: &mut Rng) -> Op {
        let c = self.ch(rng);
        let d = self.ch(rng);
        let (a, b) = if c <= d { (c, d) } else { (d, c) };
        match rng.below(24) {
            0 => Op::Empty,
            1 => Op::Full,
            2 => Op::AllChar,
            3 => Op::Eps,
            4 => Op::SigmaPlus,
            5..=9 => Op::Char(c),
            10..=12 => Op::Range(a, b),
            13 => Op::CharSet(a, b),
            14 => Op::SmtRange(vec![a], vec![b]),
            15 => match rng.below(4) {
                0 => Op::SmtRange(vec![b], vec![a]),
                1 => Op::SmtRange(vec![], vec![a]),
                2 => Op::SmtRange(vec![a], vec![a, b]),
                _ => Op::SmtRange(vec![a, b], vec![b]),
            },
            16 => Op::Full,
            _ => {
                let n = rng.range(0, 4) as usize;
                Op::Str((0..n).map(|_| self.ch(rng)).collect())
            }
        }
    }

    fn bnd(&self, rng: &mut Rng) -> u32 {
        if self.huge && rng.chance(1, 3) {
            *rng.pick(HUGE)
        } else {
            rng.below(self.bound as u64 + 1) as u32
        }
    }

    pub fn loop_op(&self, x: usize, rng: &mut Rng) -> Op {
        let i = self.bnd(rng);
        let j = self.bnd(rng);
        let (lo, hi) = if i <= j { (i, j) } else { (j, i) };
        match rng.below(9) {
            0 | 1 => Op::Star(x),
            2 => Op::Plus(x),
            3 => Op::Opt(x),
            4 => Op::Exp(x, i),
            5 => Op::SmtLoop(x, i, j),
            6 => Op::SmtLoop(x, lo, hi),
            7 => Op::MkLoop(x, lo, Some(hi)),
            _ => Op::MkLoop(x, lo, None),
        }
    }

    /// add nodes to p for a random expression with about `budget` operations
    pub fn gen(&self, p: &mut Prog, budget: usize, rng: &mut Rng) -> usize {
        if !p.ops.is_empty() && rng.chance(self.reuse, 100) {
            return rng.us(p.ops.len());
        }
        if budget <= 1 {
            let op = self.leaf(rng);
            return p.add(op);
        }
        let total = self.wbool + self.wcat + self.wloop;
        let r = rng.below(total);
        if r < self.wloop {
            let x = self.gen(p, budget - 1, rng);
            let op = self.loop_op(x, rng);
            p.add(op)
        } else if r < self.wloop + self.wcat {
            let l = self.split(p, budget - 1, rng);
            if l.len() == 2 && rng.chance(2, 3) {
                p.add(Op::Concat(l[0], l[1]))
            } else {
                p.add(Op::ConcatL(l))
            }
        } else {
            match rng.below(10) {
                0 | 1 => {
                    let x = self.gen(p, budget - 1, rng);
                    p.add(Op::Comp(x))
                }
                2..=5 => {
                    let l = self.split(p, budget - 1, rng);
                    if l.len() == 2 && rng.chance(2, 3) {
                        p.add(Op::Union(l[0], l[1]))
                    } else {
                        p.add(Op::UnionL(l))
                    }
                }
                6..=8 => {
                    let l = self.split(p, budget - 1, rng);
                    if l.len() == 2 && rng.chance(2, 3) {
                        p.add(Op::Inter(l[0], l[1]))
                    } else {
                        p.add(Op::InterL(l))
                    }
                }
                _ => {
                    let l = self.split(p, budget - 1, rng);
                    if l.len() == 2 && rng.chance(2, 3) {
                        p.add(Op::Diff(l[0], l[1]))
                    } else {
                        p.add(Op::DiffL(l[0], l[1..].to_vec()))
                    }
                }
            }
        }
    }

    fn split(&self, p: &mut Prog, budget: usize, rng: &mut Rng) -> Vec<usize> {
        let n = if rng.chance(1, 20) {
            rng.us(2) // 0- or 1-element lists
        } else {
            rng.range(2, self.arity as u64) as usize
        };
        let n = n.max(1);
        let mut left = budget.max(n);
        let mut v = vec![];
        for i in 0..n {
            let rest = n - i - 1;
            let b = if rest == 0 {
                left
            } else {
                1 + rng.us((left - rest).max(1))
            };
            left = left.saturating_sub(b);
            v.push(self.gen(p, b, rng));
        }
        v
    }

    pub fn prog(&self, budget: usize, rng: &mut Rng) -> Prog {
        let mut p = Prog::default();
        let r = self.gen(&mut p, budget, rng);
        if r + 1 != p.ops.len() {
            // root must come last: rebuild as union with itself is not neutral for coverage,
            // so just truncate
            p.ops.truncate(r + 1);
        }
        p
    }
}

/// random word over the atoms of al: representatives are boundaries of atoms
pub fn rand_char(al: &Alpha, rng: &mut Rng) -> u32 {
    let i = rng.us(al.k());
    let (a, b) = (al.starts[i], al.end(i));
    match rng.below(4) {
        0 => a,
        1 => b,
        2 => rng.range(a as u64, b as u64) as u32,
        _ => a,
    }
}

pub fn rand_word(al: &Alpha, maxlen: usize, rng: &mut Rng) -> Vec<u32> {
    let n = rng.us(maxlen + 1);
    // favour atoms below the last so words don't leave the interesting part
    (0..n).map(|_| rand_char(al, rng)).collect()
}

/// random word steered toward acceptance by d (live states preferred)
pub fn guided_word(d: &Dfa, al: &Alpha, maxlen: usize, rng: &mut Rng) -> Vec<u32> {
    let live = d.live();
    let n = rng.us(maxlen + 1);
    let mut q = 0u32;
    let mut w = vec![];
    for _ in 0..n {
        let mut c = rand_char(al, rng);
        for _ in 0..4 {
            if live[d.step(q, al.atom(c)) as usize] {
                break;
            }
            c = rand_char(al, rng);
        }
        q = d.step(q, al.atom(c));
        w.push(c);
    }
    if let Some(tail) = d.shortest(q) {
        if w.len() + tail.len() <= maxlen {
            for a in tail {
                let c = if rng.chance(1, 2) { al.starts[a] } else { al.end(a) };
                w.push(c);
            }
        }
    }
    w
}

// ---- pattern-like expressions (concatenations of character sets and loops), the shape
// that the crate's subsumption test looks at

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    /// one character in [a, b]
    Set(u32, u32),
    /// any string
    Any,
    /// loop over a set
    Rep(u32, u32, u32, Option<u32>),
    /// complement of a one-character set
    NotSet(u32, u32),
    /// some other sub-expression: (set1 | set2 set1)
    Alt(u32, u32),
    /// inter(set*, Sigma+)
    Mix(u32, u32),
    /// any non-empty string
    AnyPlus,
}

impl Item {
    pub fn add(&self, p: &mut Prog) -> usize {
        match self {
            Item::Set(a, b) => p.add(Op::Range(*a, *b)),
            Item::Any => p.add(Op::Full),
            Item::AnyPlus => p.add(Op::SigmaPlus),
            Item::Rep(a, b, i, j) => {
                let x = p.add(Op::Range(*a, *b));
                p.add(Op::MkLoop(x, *i, *j))
            }
            Item::NotSet(a, b) => {
                let x = p.add(Op::Range(*a, *b));
                p.add(Op::Comp(x))
            }
            Item::Alt(a, b) => {
                let x = p.add(Op::Char(*a));
                let y = p.add(Op::Char(*b));
                let z = p.add(Op::Concat(y, x));
                p.add(Op::Union(x, z))
            }
            Item::Mix(a, b) => {
                let x = p.add(Op::Range(*a, *b));
                let x = p.add(Op::Star(x));
                let y = p.add(Op::SigmaPlus);
                p.add(Op::Inter(x, y))
            }
        }
    }
}

pub fn add_pattern(p: &mut Prog, items: &[Item]) -> usize {
    let l: Vec<usize> = items.iter().map(|x| x.add(p)).collect();
    p.add(Op::ConcatL(l))
}

pub fn rand_item(pal: &[u32], rng: &mut Rng) -> Item {
    let c = *rng.pick(pal);
    let d = *rng.pick(pal);
    let (a, b) = if c <= d { (c, d) } else { (d, c) };
    match rng.below(16) {
        0..=4 => Item::Set(c, c),
        5..=6 => Item::Set(a, b),
        7 => Item::Set(0, MAXC),
        8..=11 => Item::Any,
        12 => Item::Rep(a, b, rng.below(2) as u32, None),
        13 => {
            let i = rng.below(3) as u32;
            Item::Rep(a, b, i, Some(i + rng.below(3) as u32))
        }
        14 => match rng.below(3) {
            0 => Item::NotSet(c, c),
            1 => Item::Alt(c, d),
            _ => Item::Mix(a, b),
        },
        _ => Item::AnyPlus,
    }
}

/// a pattern that is likely (but not sure) to be included in `items`
pub fn specialise(items: &[Item], pal: &[u32], rng: &mut Rng) -> Vec<Item> {
    let mut v = vec![];
    for it in items {
        match it {
            Item::Set(a, b) => {
                if rng.chance(1, 12) {
                    v.push(rand_item(pal, rng));
                } else {
                    let inside: Vec<u32> =
                        pal.iter().copied().filter(|x| a <= x && x <= b).collect();
                    if inside.is_empty() || rng.chance(1, 3) {
                        v.push(it.clone())
                    } else {
                        let c = *rng.pick(&inside);
                        let d = *rng.pick(&inside);
                        v.push(Item::Set(c.min(d), c.max(d)))
                    }
                }
            }
            Item::Any | Item::AnyPlus => {
                let n = rng.below(4);
                for _ in 0..n {
                    v.push(rand_item(pal, rng));
                }
            }
            _ => match rng.below(4) {
                0 => v.push(rand_item(pal, rng)),
                _ => v.push(it.clone()),
            },
        }
    }
    if rng.chance(1, 8) && !v.is_empty() {
        let i = rng.us(v.len());
        v.remove(i);
    }
    if rng.chance(1, 8) {
        let i = rng.us(v.len() + 1);
        v.insert(i, rand_item(pal, rng));
    }
    v
}
