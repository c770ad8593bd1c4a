//! Exact coefficient rings with no overflow: a prime field, a non-commutative
//! ring of 2x2 matrices over it, and a ring with nilpotents.
use num::{One, Zero};
use std::fmt;
use std::ops::{Add, Div, Mul, Neg, Sub};

pub const P: i64 = 10007;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Fp(pub i64);

impl Fp {
    pub fn new(x: i64) -> Fp {
        Fp(x.rem_euclid(P))
    }
    pub fn inv(self) -> Fp {
        assert!(self.0 != 0, "division by zero in Fp");
        let mut r = 1;
        let mut b = self.0;
        let mut e = P - 2;
        while e > 0 {
            if e & 1 == 1 {
                r = r * b % P;
            }
            b = b * b % P;
            e >>= 1;
        }
        Fp(r)
    }
}

macro_rules! ops {
    ($t:ty, $($tr:ident $f:ident |$a:ident, $b:ident| $e:expr;)*) => {$(
        impl $tr for $t {
            type Output = $t;
            fn $f(self, rhs: $t) -> $t { let ($a, $b) = (&self, &rhs); $e }
        }
        impl<'x> $tr<&'x $t> for &'x $t {
            type Output = $t;
            fn $f(self, rhs: &'x $t) -> $t { let ($a, $b) = (self, rhs); $e }
        }
    )*};
}
macro_rules! neg {
    ($t:ty, |$a:ident| $e:expr) => {
        impl Neg for $t {
            type Output = $t;
            fn neg(self) -> $t {
                let $a = &self;
                $e
            }
        }
        impl<'x> Neg for &'x $t {
            type Output = $t;
            fn neg(self) -> $t {
                let $a = self;
                $e
            }
        }
    };
}

ops! {Fp,
    Add add |a, b| Fp((a.0 + b.0) % P);
    Sub sub |a, b| Fp((a.0 + P - b.0) % P);
    Mul mul |a, b| Fp(a.0 * b.0 % P);
    Div div |a, b| Fp(a.0 * b.inv().0 % P);
}
neg!(Fp, |a| Fp((P - a.0) % P));
impl Zero for Fp {
    fn zero() -> Self {
        Fp(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for Fp {
    fn one() -> Self {
        Fp(1)
    }
}
impl fmt::Display for Fp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

/// 2x2 matrices over Fp, row by row.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct M2(pub [Fp; 4]);

ops! {M2,
    Add add |a, b| M2([a.0[0] + b.0[0], a.0[1] + b.0[1], a.0[2] + b.0[2], a.0[3] + b.0[3]]);
    Sub sub |a, b| M2([a.0[0] - b.0[0], a.0[1] - b.0[1], a.0[2] - b.0[2], a.0[3] - b.0[3]]);
    Mul mul |a, b| M2([
        a.0[0] * b.0[0] + a.0[1] * b.0[2], a.0[0] * b.0[1] + a.0[1] * b.0[3],
        a.0[2] * b.0[0] + a.0[3] * b.0[2], a.0[2] * b.0[1] + a.0[3] * b.0[3],
    ]);
}
neg!(M2, |a| M2([-a.0[0], -a.0[1], -a.0[2], -a.0[3]]));
impl Zero for M2 {
    fn zero() -> Self {
        M2([Fp(0); 4])
    }
    fn is_zero(&self) -> bool {
        self.0.iter().all(|x| x.0 == 0)
    }
}
impl One for M2 {
    fn one() -> Self {
        M2([Fp(1), Fp(0), Fp(0), Fp(1)])
    }
}

/// Dual numbers over Fp: a + b eps, eps^2 = 0 (a ring with zero divisors and a derivative).
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Dual(pub Fp, pub Fp);
ops! {Dual,
    Add add |a, b| Dual(a.0 + b.0, a.1 + b.1);
    Sub sub |a, b| Dual(a.0 - b.0, a.1 - b.1);
    Mul mul |a, b| Dual(a.0 * b.0, a.0 * b.1 + a.1 * b.0);
}
neg!(Dual, |a| Dual(-a.0, -a.1));
impl Zero for Dual {
    fn zero() -> Self {
        Dual(Fp(0), Fp(0))
    }
    fn is_zero(&self) -> bool {
        self.0 .0 == 0 && self.1 .0 == 0
    }
}
impl One for Dual {
    fn one() -> Self {
        Dual(Fp(1), Fp(0))
    }
}

/// Integers modulo 12: products of non-zero elements can be zero.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Z12(pub i64);
impl Z12 {
    pub fn new(x: i64) -> Z12 {
        Z12(x.rem_euclid(12))
    }
}
ops! {Z12,
    Add add |a, b| Z12::new(a.0 + b.0);
    Sub sub |a, b| Z12::new(a.0 - b.0);
    Mul mul |a, b| Z12::new(a.0 * b.0);
}
neg!(Z12, |a| Z12::new(-a.0));
impl Zero for Z12 {
    fn zero() -> Self {
        Z12(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for Z12 {
    fn one() -> Self {
        Z12(1)
    }
}
