//! Boolean span matrices: for a word w of length n <= 62, M[i] bit j <=> w[i..j] is in L.
//! Exact for every loop bound (fast exponentiation), independent of the DFA model.

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Mat {
    pub n: usize,
    pub r: Vec<u64>,
}

impl Mat {
    pub fn zero(n: usize) -> Mat {
        Mat { n, r: vec![0; n + 1] }
    }
    pub fn id(n: usize) -> Mat {
        Mat { n, r: (0..=n).map(|i| 1u64 << i).collect() }
    }
    pub fn full(n: usize) -> Mat {
        let all = if n + 1 >= 64 { u64::MAX } else { (1u64 << (n + 1)) - 1 };
        Mat { n, r: (0..=n).map(|i| all & !((1u64 << i) - 1)).collect() }
    }
    pub fn get(&self, i: usize, j: usize) -> bool {
        self.r[i] >> j & 1 == 1
    }
    pub fn or(&self, o: &Mat) -> Mat {
        Mat { n: self.n, r: self.r.iter().zip(&o.r).map(|(a, b)| a | b).collect() }
    }
    pub fn and(&self, o: &Mat) -> Mat {
        Mat { n: self.n, r: self.r.iter().zip(&o.r).map(|(a, b)| a & b).collect() }
    }
    pub fn comp(&self) -> Mat {
        let f = Mat::full(self.n);
        Mat { n: self.n, r: self.r.iter().zip(&f.r).map(|(a, b)| !a & b).collect() }
    }
    pub fn mul(&self, o: &Mat) -> Mat {
        let mut m = Mat::zero(self.n);
        for i in 0..=self.n {
            let mut bits = self.r[i];
            let mut x = 0;
            while bits != 0 {
                let j = bits.trailing_zeros() as usize;
                bits &= bits - 1;
                x |= o.r[j];
            }
            m.r[i] = x;
        }
        m
    }
    pub fn pow(&self, mut e: u32) -> Mat {
        let mut r = Mat::id(self.n);
        let mut b = self.clone();
        while e > 0 {
            if e & 1 == 1 {
                r = r.mul(&b);
            }
            e >>= 1;
            if e > 0 {
                b = b.mul(&b);
            }
        }
        r
    }
    pub fn star(&self) -> Mat {
        let mut c = self.or(&Mat::id(self.n));
        loop {
            let d = c.mul(&c);
            if d == c {
                return c;
            }
            c = d;
        }
    }
    pub fn loop_range(&self, i: u32, j: Option<u32>) -> Mat {
        match j {
            None => self.pow(i).mul(&self.star()),
            Some(j) if i > j => Mat::zero(self.n),
            Some(j) => self.pow(i).mul(&self.or(&Mat::id(self.n)).pow(j - i)),
        }
    }
}
