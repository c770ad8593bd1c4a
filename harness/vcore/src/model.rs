//! Reference model of Cl(p,q,s), written from the definition: a blade is the
//! product of its generators in descending order, distinct generators
//! anticommute, and a generator squares to +1, -1 or 0.
use num::{One, Zero};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::ops::{Add, Mul, Neg, Sub};

pub trait R:
    Clone
    + PartialEq
    + Debug
    + Zero
    + One
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + Neg<Output = Self>
{
}
impl<T> R for T where
    T: Clone
        + PartialEq
        + Debug
        + Zero
        + One
        + Add<Output = T>
        + Sub<Output = T>
        + Mul<Output = T>
        + Neg<Output = T>
{
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Alg {
    pub sig: Vec<i8>,
}

impl Alg {
    /// `"++-0"`
    pub fn parse(s: &str) -> Alg {
        Alg {
            sig: s
                .chars()
                .map(|c| match c {
                    '+' => 1,
                    '-' => -1,
                    '0' => 0,
                    _ => panic!("bad signature {s}"),
                })
                .collect(),
        }
    }
    pub fn dim(&self) -> usize {
        self.sig.len()
    }
    pub fn mask(&self) -> u64 {
        if self.dim() == 64 {
            u64::MAX
        } else {
            (1u64 << self.dim()) - 1
        }
    }
    fn mask_of(&self, v: i8) -> u64 {
        let mut m = 0;
        for (i, s) in self.sig.iter().enumerate() {
            if *s == v {
                m |= 1 << i;
            }
        }
        m
    }
    pub fn real(&self) -> u64 {
        self.mask_of(1)
    }
    pub fn imag(&self) -> u64 {
        self.mask_of(-1)
    }
    pub fn null(&self) -> u64 {
        self.mask_of(0)
    }
    pub fn nonnull_dim(&self) -> usize {
        self.sig.iter().filter(|s| **s != 0).count()
    }
    pub fn null_dim(&self) -> usize {
        self.dim() - self.nonnull_dim()
    }
    /// Side of the matrices of the representation.
    pub fn side(&self) -> usize {
        1 << ((self.nonnull_dim() + 1) / 2)
    }
    /// The same generators with all the squares zero.
    pub fn grassmann(&self) -> Alg {
        Alg {
            sig: vec![0; self.dim()],
        }
    }

    /// Product of two blades: append the generators of `b` one by one (highest
    /// first) to the sorted list of generators of `a`, moving each to its place.
    pub fn geo(&self, a: u64, b: u64) -> (u64, i8) {
        let mut cur = a;
        let mut sign = 1i8;
        for g in (0..self.dim()).rev() {
            if b >> g & 1 == 0 {
                continue;
            }
            // the new generator passes everything that is smaller
            let smaller = cur & ((1u64 << g) - 1);
            if smaller.count_ones() % 2 == 1 {
                sign = -sign;
            }
            if cur >> g & 1 == 1 {
                sign *= self.sig[g];
                cur &= !(1u64 << g);
            } else {
                cur |= 1 << g;
            }
        }
        (cur, sign)
    }

    /// Sign of sorting the concatenated generators, with equal ones dropped in
    /// pairs (every square taken as +1).
    pub fn reorder(&self, a: u64, b: u64) -> i8 {
        Alg {
            sig: vec![1; self.dim()],
        }
        .geo(a, b)
        .1
    }

    /// The same by bubble sort of explicit lists; used to validate `geo`.
    pub fn geo_slow(&self, a: u64, b: u64) -> (u64, i8) {
        let mut l: Vec<usize> = vec![];
        for m in [a, b] {
            for g in (0..self.dim()).rev() {
                if m >> g & 1 == 1 {
                    l.push(g);
                }
            }
        }
        let mut sign = 1i8;
        loop {
            let mut changed = false;
            for i in 1..l.len() {
                if l[i - 1] < l[i] {
                    l.swap(i - 1, i);
                    sign = -sign;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let mut idx = 0u64;
        let mut i = 0;
        while i < l.len() {
            if i + 1 < l.len() && l[i] == l[i + 1] {
                sign *= self.sig[l[i]];
                i += 2;
            } else {
                idx |= 1 << l[i];
                i += 1;
            }
        }
        (idx, sign)
    }

    pub fn wedge(&self, a: u64, b: u64) -> Option<(u64, i8)> {
        if a & b != 0 {
            None
        } else {
            Some(self.geo(a, b))
        }
    }

    pub fn mul<T: R>(&self, a: &Mv<T>, b: &Mv<T>) -> Mv<T> {
        let mut r = Mv::new();
        for (i, x) in &a.c {
            for (j, y) in &b.c {
                let (k, s) = self.geo(*i, *j);
                r.acc(k, s, x.clone() * y.clone());
            }
        }
        r.norm()
    }

    pub fn wedge_mv<T: R>(&self, a: &Mv<T>, b: &Mv<T>) -> Mv<T> {
        let mut r = Mv::new();
        for (i, x) in &a.c {
            for (j, y) in &b.c {
                if let Some((k, s)) = self.wedge(*i, *j) {
                    r.acc(k, s, x.clone() * y.clone());
                }
            }
        }
        r.norm()
    }

    /// dual(b) ^ b = pseudoscalar
    pub fn dual<T: R>(&self, a: &Mv<T>) -> Mv<T> {
        a.map_idx(|i| {
            let d = self.mask() & !i;
            (d, self.reorder(d, i))
        })
    }
    /// b ^ undual(b) = pseudoscalar
    pub fn undual<T: R>(&self, a: &Mv<T>) -> Mv<T> {
        a.map_idx(|i| {
            let d = self.mask() & !i;
            (d, self.reorder(i, d))
        })
    }
    pub fn meet<T: R>(&self, a: &Mv<T>, b: &Mv<T>) -> Mv<T> {
        self.undual(&self.wedge_mv(&self.dual(a), &self.dual(b)))
    }

    /// Reversal: write the generators in the opposite order and sort them back.
    pub fn rev<T: R>(&self, a: &Mv<T>) -> Mv<T> {
        a.map_idx(|i| {
            let k = i.count_ones();
            // moving k generators into the opposite order takes k(k-1)/2 swaps
            (i, if (k * k.saturating_sub(1) / 2) % 2 == 0 { 1 } else { -1 })
        })
    }
    pub fn flip<T: R>(&self, a: &Mv<T>, mask: u64) -> Mv<T> {
        a.map_idx(|i| (i, if (i & mask).count_ones() % 2 == 0 { 1 } else { -1 }))
    }
    pub fn pow<T: R>(&self, a: &Mv<T>, n: usize) -> Mv<T> {
        let mut r = Mv::scalar(T::one());
        for _ in 0..n {
            r = self.mul(&r, a);
        }
        r
    }
    /// Square of a blade: +1, -1 or 0
    pub fn sq(&self, b: u64) -> i8 {
        self.geo(b, b).1
    }
}


/// A multivector of the model: non-zero coefficients by blade index.
#[derive(Clone, Debug, PartialEq)]
pub struct Mv<T> {
    pub c: BTreeMap<u64, T>,
}

impl<T: R> Mv<T> {
    pub fn new() -> Self {
        Mv { c: BTreeMap::new() }
    }
    pub fn scalar(t: T) -> Self {
        Self::blade(0, t)
    }
    pub fn blade(i: u64, t: T) -> Self {
        let mut r = Self::new();
        r.c.insert(i, t);
        r.norm()
    }
    /// The last of repeated indices wins.
    pub fn from_terms(terms: impl IntoIterator<Item = (u64, T)>) -> Self {
        let mut r = Self::new();
        for (i, t) in terms {
            r.c.insert(i, t);
        }
        r.norm()
    }
    pub fn norm(mut self) -> Self {
        self.c.retain(|_, v| !v.is_zero());
        self
    }
    pub fn get(&self, i: u64) -> T {
        self.c.get(&i).cloned().unwrap_or_else(T::zero)
    }
    pub fn set(&mut self, i: u64, t: T) {
        if t.is_zero() {
            self.c.remove(&i);
        } else {
            self.c.insert(i, t);
        }
    }
    pub fn acc(&mut self, i: u64, sign: i8, t: T) {
        let old = self.c.remove(&i).unwrap_or_else(T::zero);
        let new = match sign {
            0 => old,
            1 => old + t,
            _ => old - t,
        };
        self.c.insert(i, new);
    }
    pub fn map_idx(&self, f: impl Fn(u64) -> (u64, i8)) -> Self {
        let mut r = Self::new();
        for (i, t) in &self.c {
            let (j, s) = f(*i);
            match s {
                0 => {}
                1 => {
                    r.c.insert(j, t.clone());
                }
                _ => {
                    r.c.insert(j, -t.clone());
                }
            }
        }
        r.norm()
    }
    pub fn map<U: R>(&self, f: impl Fn(&T) -> U) -> Mv<U> {
        Mv::from_terms(self.c.iter().map(|(i, t)| (*i, f(t))))
    }
    pub fn filter(&self, f: impl Fn(u64) -> bool) -> Self {
        Mv {
            c: self
                .c
                .iter()
                .filter(|(i, _)| f(**i))
                .map(|(i, t)| (*i, t.clone()))
                .collect(),
        }
    }
    pub fn grade(&self, g: usize) -> Self {
        self.filter(|i| i.count_ones() as usize == g)
    }
    pub fn add(&self, o: &Self) -> Self {
        let mut r = self.clone();
        for (i, t) in &o.c {
            r.acc(*i, 1, t.clone());
        }
        r.norm()
    }
    pub fn sub(&self, o: &Self) -> Self {
        let mut r = self.clone();
        for (i, t) in &o.c {
            r.acc(*i, -1, t.clone());
        }
        r.norm()
    }
    pub fn neg(&self) -> Self {
        self.map(|t| -t.clone())
    }
    /// Multiplication of every coefficient by `s` from the right.
    pub fn scale(&self, s: &T) -> Self {
        self.map(|t| t.clone() * s.clone())
    }
    pub fn is_zero(&self) -> bool {
        self.c.is_empty()
    }
    pub fn len(&self) -> usize {
        self.c.len()
    }
}

#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn fast_is_slow() {
        for s in ["+", "-", "0", "+-0", "++--", "-+-00", "+-+-+", "-+--00"] {
            let a = Alg::parse(s);
            for i in 0..=a.mask() {
                for j in 0..=a.mask() {
                    let (k1, s1) = a.geo(i, j);
                    let (k2, s2) = a.geo_slow(i, j);
                    assert_eq!(s1, s2);
                    if s1 != 0 {
                        assert_eq!(k1, k2);
                    }
                }
            }
        }
        let a = Alg::parse(&"+-".repeat(32));
        let mut x = 1u64;
        for _ in 0..200 {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let y = x.rotate_left(17) ^ 0x1234567;
            assert_eq!(a.geo(x, y), a.geo_slow(x, y));
        }
    }
}
