//! One interface to the dense, the sparse and the quaternion multivectors, so that a law is
//! written once. Everything goes through the public API of the library.
use std::fmt::Debug;
use tclifford::quaternion::{Quaternion, QuaternionAlgebra};
use tclifford::types::{DivRing, Ring, WedgeProduct};
use tclifford::{ClAlgebra, ClError, Multivector, One, SparseMultivector, Zero};
use vcore::gens::{Coeff, Terms};
use vcore::model::{Mv, R};
use vcore::rings::{Dual, Fp, M2, Z12};

/// A coefficient type that can be made of four small integers.
pub trait Coef: Ring + R {
    const NAME: &'static str;
    fn mk(c: &Coeff) -> Self;
}

macro_rules! coefs {
    ($($t:ty, $n:literal, |$c:ident| $e:expr;)*) => {$(
        impl Coef for $t {
            const NAME: &'static str = $n;
            fn mk($c: &Coeff) -> Self { $e }
        }
    )*};
}
pub type C64 = num::complex::Complex64;
pub type C32 = num::complex::Complex32;
coefs! {
    i64, "i64", |c| c[0] as i64;
    i32, "i32", |c| c[0];
    i128, "i128", |c| c[0] as i128;
    f64, "f64", |c| c[0] as f64;
    f32, "f32", |c| c[0] as f32;
    C64, "complex64", |c| C64::new(c[0] as f64, c[1] as f64);
    C32, "complex32", |c| C32::new(c[0] as f32, c[1] as f32);
    num::complex::Complex<i64>, "complex<i64>", |c| num::complex::Complex::new(c[0] as i64, c[1] as i64);
    num::BigRational, "rational", |c| num::BigRational::new((c[0] as i64).into(), (1 + (c[1].unsigned_abs() % 7) as i64).into());
    num::BigInt, "bigint", |c| num::BigInt::from(c[0]);
    Fp, "fp", |c| Fp::new(c[0] as i64);
    M2, "m2", |c| M2([Fp::new(c[0] as i64), Fp::new(c[1] as i64), Fp::new(c[2] as i64), Fp::new(c[3] as i64)]);
    Z12, "z12", |c| Z12::new(c[0] as i64);
    Dual, "dual", |c| Dual(Fp::new(c[0] as i64), Fp::new(c[1] as i64));
}

pub fn terms_of<T: Coef>(t: &Terms) -> Vec<(usize, T)> {
    t.iter().map(|(i, c)| (*i as usize, T::mk(c))).collect()
}

pub fn model_of<T: Coef>(t: &Terms) -> Mv<T> {
    Mv::from_terms(t.iter().map(|(i, c)| (*i, T::mk(c))))
}

pub type Form = u8;

macro_rules! binop {
    ($form:expr, $a:expr, $op:tt, $b:expr) => {
        match $form % 4 {
            0 => $a $op $b,
            1 => $a $op $b.clone(),
            2 => $a.clone() $op $b,
            _ => $a.clone() $op $b.clone(),
        }
    };
}

pub trait MvLike<T: Ring + R>: Sized + Clone + PartialEq {
    type Alg: ClAlgebra;
    const KIND: &'static str;

    fn from_indexed(t: Vec<(usize, T)>) -> Result<Self, ClError>;
    fn from_indexed_ref(t: &[(usize, T)]) -> Result<Self, ClError>;
    fn from_vec(t: Vec<T>) -> Result<Self, ClError>;
    fn from_vec_ref(t: &[T]) -> Result<Self, ClError>;
    /// The same from iterators that promise nothing or little about their length
    fn from_lazy(t: Vec<(usize, T)>, how: u8) -> Result<Self, ClError>;
    fn from_vec_lazy(t: Vec<T>, how: u8) -> Result<Self, ClError>;
    fn scalar(t: T) -> Self;
    fn zero_() -> Self;
    fn one_() -> Self;
    fn default_() -> Self;
    fn get(&self, i: usize) -> T;
    fn set(self, i: usize, t: T) -> Self;
    /// Non-zero coefficients in the order of enumeration
    fn enumerate(&self) -> Vec<(usize, T)>;
    fn grade_enumerate_(&self, g: usize) -> Vec<(usize, T)>;
    fn grade_(&self, g: usize) -> Self;
    fn grade_dense(&self, g: usize) -> Multivector<T, Self::Alg>;
    fn grade_sparse(&self, g: usize) -> SparseMultivector<T, Self::Alg>;
    fn vector_part(&self) -> Vec<T>;
    fn scalar_(&self) -> T;
    fn zero_test(&self) -> bool;
    fn one_test(&self) -> bool;
    fn add_(&self, o: &Self, form: Form) -> Self;
    fn sub_(&self, o: &Self, form: Form) -> Self;
    fn mul_(&self, o: &Self, form: Form) -> Self;
    fn smul_(&self, s: &T, form: Form) -> Self;
    fn neg_(&self, form: Form) -> Self;
    fn naive_mul(&self, o: &Self) -> Self;
    fn naive_wedge(&self, o: &Self) -> Self;
    fn naive_meet(&self, o: &Self) -> Self;
    fn wedge_(&self, o: &Self) -> Self;
    fn meet_(&self, o: &Self) -> Self;
    fn dual_(&self) -> Self;
    fn undual_(&self) -> Self;
    fn rev_(&self) -> Self;
    fn flip_(&self) -> Self;
    fn flip_sub(&self, mask: usize) -> Self;
    fn vdot_(&self, o: &Self) -> T;
    fn vsdot_(&self, o: &Self) -> T;
    fn mag2_(&self) -> T;
    fn pow_(&self, n: usize) -> Self;
    fn dense(&self) -> Multivector<T, Self::Alg>;
    fn sparse(&self) -> SparseMultivector<T, Self::Alg>;

    fn build(t: &Terms) -> Self
    where
        T: Coef,
    {
        match Self::from_indexed(terms_of::<T>(t)) {
            Ok(m) => m,
            Err(e) => panic!("valid terms rejected with {e:?}: {t:?}"),
        }
    }

    /// Coefficients as the library reports them: enumeration and reading by index must agree.
    fn read(&self) -> Result<Mv<T>, String> {
        let mut m = Mv::new();
        let mut seen = std::collections::BTreeSet::new();
        for (i, t) in self.enumerate() {
            if !seen.insert(i) {
                return Err(format!("index {i:#b} enumerated twice"));
            }
            let g = self.get(i);
            if !(g == t) {
                return Err(format!("index {i:#b} enumerated as {t:?} and read as {g:?}"));
            }
            if !t.is_zero() {
                m.c.insert(i as u64, t);
            }
        }
        Ok(m)
    }
}

macro_rules! impl_mvlike {
    ($ty:ident, $kind:literal) => {
        impl<T, A> MvLike<T> for $ty<T, A>
        where
            T: Ring + R,
            A: ClAlgebra,
        {
            type Alg = A;
            const KIND: &'static str = $kind;
            impl_mvlike!(@common T, $ty<T, A>);
            fn wedge_(&self, o: &Self) -> Self {
                self.wedge(o)
            }
            fn meet_(&self, o: &Self) -> Self {
                self.meet(o)
            }
        }
    };
    (@common $T:ident, $ty:ty) => {
        fn from_indexed(t: Vec<(usize, $T)>) -> Result<Self, ClError> {
            <$ty>::from_indexed_iter(t.into_iter())
        }
        fn from_indexed_ref(t: &[(usize, $T)]) -> Result<Self, ClError> {
            <$ty>::from_indexed_iter_ref(t.iter().map(|(i, c)| (*i, c)))
        }
        fn from_vec(t: Vec<$T>) -> Result<Self, ClError> {
            <$ty>::from_vector(t)
        }
        fn from_vec_ref(t: &[$T]) -> Result<Self, ClError> {
            <$ty>::from_vector_ref(t.iter())
        }
        fn from_lazy(t: Vec<(usize, $T)>, how: u8) -> Result<Self, ClError> {
            let mut it = t.into_iter();
            match how {
                0 => <$ty>::from_indexed_iter(it.filter(|_| true)),
                1 => <$ty>::from_indexed_iter(std::iter::from_fn(move || it.next())),
                2 => <$ty>::from_indexed_iter(it.chain(std::iter::once_with(|| (0, $T::zero())).skip(1))),
                _ => <$ty>::from_indexed_iter(it.map(Some).chain(std::iter::repeat(None)).map_while(|x| x)),
            }
        }
        fn from_vec_lazy(t: Vec<$T>, how: u8) -> Result<Self, ClError> {
            let mut it = t.into_iter();
            match how {
                0 => <$ty>::from_vector(it.filter(|_| true)),
                1 => <$ty>::from_vector(std::iter::from_fn(move || it.next())),
                2 => <$ty>::from_vector(it.collect::<std::collections::VecDeque<_>>()),
                _ => <$ty>::from_vector(it.map(Some).chain(std::iter::repeat(None)).map_while(|x| x)),
            }
        }
        fn scalar(t: $T) -> Self {
            <$ty>::from_scalar(t)
        }
        fn zero_() -> Self {
            <$ty as Zero>::zero()
        }
        fn one_() -> Self {
            <$ty as One>::one()
        }
        fn default_() -> Self {
            <$ty as Default>::default()
        }
        fn get(&self, i: usize) -> $T {
            self.get_by_idx(i)
        }
        fn set(self, i: usize, t: $T) -> Self {
            self.set_by_idx(i, t)
        }
        fn enumerate(&self) -> Vec<(usize, $T)> {
            self.coeff_enumerate().take(1 << 20).map(|(i, t)| (i, t.clone())).collect()
        }
        fn grade_enumerate_(&self, g: usize) -> Vec<(usize, $T)> {
            self.grade_enumerate(g).take(1 << 20).map(|(i, t)| (i, t.clone())).collect()
        }
        fn grade_(&self, g: usize) -> Self {
            self.grade_extract(g)
        }
        fn grade_dense(&self, g: usize) -> Multivector<$T, Self::Alg> {
            self.grade_extract_as(g)
        }
        fn grade_sparse(&self, g: usize) -> SparseMultivector<$T, Self::Alg> {
            self.grade_extract_as(g)
        }
        fn vector_part(&self) -> Vec<$T> {
            self.extract_vector().to_vec()
        }
        fn scalar_(&self) -> $T {
            self.scalar_part()
        }
        fn zero_test(&self) -> bool {
            self.is_zero()
        }
        fn one_test(&self) -> bool {
            self.is_one()
        }
        fn add_(&self, o: &Self, form: Form) -> Self {
            binop!(form, self, +, o)
        }
        fn sub_(&self, o: &Self, form: Form) -> Self {
            binop!(form, self, -, o)
        }
        fn mul_(&self, o: &Self, form: Form) -> Self {
            binop!(form, self, *, o)
        }
        fn smul_(&self, s: &$T, form: Form) -> Self {
            binop!(form, self, *, s)
        }
        fn neg_(&self, form: Form) -> Self {
            if form % 2 == 0 {
                -self
            } else {
                -self.clone()
            }
        }
        fn naive_mul(&self, o: &Self) -> Self {
            self.naive_mul_impl(o)
        }
        fn naive_wedge(&self, o: &Self) -> Self {
            self.naive_wedge_impl(o)
        }
        fn naive_meet(&self, o: &Self) -> Self {
            self.naive_meet_impl(o)
        }
        fn dual_(&self) -> Self {
            self.dual()
        }
        fn undual_(&self) -> Self {
            self.undual()
        }
        fn rev_(&self) -> Self {
            self.rev()
        }
        fn flip_(&self) -> Self {
            self.flip()
        }
        fn flip_sub(&self, mask: usize) -> Self {
            self.flip_subspace(mask)
        }
        fn vdot_(&self, o: &Self) -> $T {
            self.vdot(o)
        }
        fn vsdot_(&self, o: &Self) -> $T {
            self.vsdot(o)
        }
        fn mag2_(&self) -> $T {
            self.mag2()
        }
        fn pow_(&self, n: usize) -> Self {
            self.pow(n)
        }
        fn dense(&self) -> Multivector<$T, Self::Alg> {
            self.to_storage_type()
        }
        fn sparse(&self) -> SparseMultivector<$T, Self::Alg> {
            self.to_storage_type()
        }
    };
}

impl_mvlike!(Multivector, "dense");
impl_mvlike!(SparseMultivector, "sparse");

impl<T> MvLike<T> for Quaternion<T>
where
    T: DivRing + R + Copy,
{
    type Alg = QuaternionAlgebra;
    const KIND: &'static str = "quaternion";
    impl_mvlike!(@common T, Quaternion<T>);
    // There is no optimized wedge product for quaternions
    fn wedge_(&self, o: &Self) -> Self {
        self.naive_wedge_impl(o)
    }
    fn meet_(&self, o: &Self) -> Self {
        self.naive_meet_impl(o)
    }
}

/// Compares a library value with the model.
pub fn check<T: Ring + R, M: MvLike<T>>(what: &str, got: &M, want: &Mv<T>) -> Result<(), String> {
    let g = got.read().map_err(|e| format!("{what} ({}): {e}", M::KIND))?;
    if g == *want {
        Ok(())
    } else {
        Err(format!(
            "{what} ({}): got {}, expected {}",
            M::KIND,
            show(&g),
            show(want)
        ))
    }
}

pub fn show<T: Debug>(m: &Mv<T>) -> String {
    let mut s = String::from("{");
    for (k, (i, t)) in m.c.iter().enumerate() {
        if k == 12 {
            s.push_str("...");
            break;
        }
        s.push_str(&format!("{i:#b}: {t:?}, "));
    }
    s.push('}');
    s
}
