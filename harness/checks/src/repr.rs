//! Helpers for the laws about matrix representations: everything is compared as complex
//! coefficients with a tolerance that follows the size of the operands.
use crate::{Alg, Coeff, Mv, Outcome, Terms, C32, C64};
use tclifford::types::{FromComplex, IntoComplex64, Ring};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tclifford::{ClAlgebra, FFTRepr, Multivector};

/// Scalars a representation can be made from.
pub trait Fc: Ring + Clone + FromComplex + IntoComplex64 + std::fmt::Debug + 'static {
    const NAME: &'static str;
    const EPS: f64;
    fn mk(c: &Coeff) -> Self;
    fn c64(&self) -> C64;
}
/// Numbers that need the whole mantissa.
fn frac(a: i32, b: i32) -> f64 {
    a as f64 + b as f64 / 997.0
}
impl Fc for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = 1e-13;
    fn mk(c: &Coeff) -> Self {
        frac(c[0], c[2])
    }
    fn c64(&self) -> C64 {
        C64::new(*self, 0.)
    }
}
impl Fc for C64 {
    const NAME: &'static str = "complex64";
    const EPS: f64 = 1e-13;
    fn mk(c: &Coeff) -> Self {
        C64::new(frac(c[0], c[2]), frac(c[1], c[3]))
    }
    fn c64(&self) -> C64 {
        *self
    }
}
impl Fc for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = 1e-6;
    fn mk(c: &Coeff) -> Self {
        frac(c[0], c[2]) as f32
    }
    fn c64(&self) -> C64 {
        C64::new(*self as f64, 0.)
    }
}
impl Fc for C32 {
    const NAME: &'static str = "complex32";
    const EPS: f64 = 1e-6;
    fn mk(c: &Coeff) -> Self {
        C32::new(frac(c[0], c[2]) as f32, frac(c[1], c[3]) as f32)
    }
    fn c64(&self) -> C64 {
        C64::new(self.re as f64, self.im as f64)
    }
}

pub fn mv_of<T: Fc, A: ClAlgebra>(t: &Terms) -> Multivector<T, A> {
    match Multivector::from_indexed_iter(t.iter().map(|(i, c)| (*i as usize, T::mk(c)))) {
        Ok(m) => m,
        Err(e) => panic!("valid terms rejected with {e:?}: {t:?}"),
    }
}

pub fn cmodel<T: Fc>(t: &Terms) -> Mv<C64> {
    Mv::from_terms(t.iter().map(|(i, c)| (*i, T::mk(c).c64())))
}

pub fn read<T: Fc, A: ClAlgebra>(m: &Multivector<T, A>) -> Mv<C64> {
    Mv::from_terms(m.coeff_enumerate().map(|(i, c)| (i as u64, c.c64())))
}

/// Sum of the norms of the coefficients.
pub fn l1(m: &Mv<C64>) -> f64 {
    m.c.values().map(|c| c.norm()).sum()
}

/// Every coefficient within `tol`; anything that is not a number fails.
pub fn close(what: &str, got: &Mv<C64>, want: &Mv<C64>, tol: f64) -> Outcome {
    for i in got.c.keys().chain(want.c.keys()) {
        let (g, w) = (got.get(*i), want.get(*i));
        if !((g - w).norm() <= tol) {
            return Err(format!("{what}: coefficient {i:#b} is {g}, expected {w} (tolerance {tol:e})"));
        }
    }
    Ok(())
}

pub fn close_c(what: &str, got: C64, want: C64, tol: f64) -> Outcome {
    if (got - want).norm() <= tol {
        Ok(())
    } else {
        Err(format!("{what} is {got}, expected {want} (tolerance {tol:e})"))
    }
}

/// The multivector a representation stands for.
pub fn back<A: ClAlgebra>(r: &FFTRepr<A>) -> Mv<C64> {
    read(&r.ifft::<C64>())
}

pub fn shape_of(alg: &Alg) -> (usize, usize, usize) {
    (1 << alg.null_dim(), alg.side(), alg.side())
}

/// A pair and powers of two it is scaled with. Nothing may depend on the scale.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Sized2 {
    pub sig: String,
    pub a: Terms,
    pub b: Terms,
    pub e: i16,
    pub f: i16,
}
pub fn sized(sigs: Vec<&'static str>, cap: usize) -> BoxedStrategy<Sized2> {
    let e = || {
        prop_oneof![
            proptest::sample::select(vec![0i16, -300, -200, -100, -60, -50, -40, -34, -30, -27, -24, -20, -10, 10, 20, 40, 60, 100, 300]),
            -300i16..=300,
        ]
    };
    crate::pick(sigs)
        .prop_flat_map(move |s| {
            let d = s.len();
            (Just(s), crate::gens::pair(d, crate::cap_for(d).min(cap)), e(), e())
        })
        .prop_map(|(sig, (a, b), e, f)| Sized2 { sig, a, b, e, f })
        .boxed()
}
pub fn class_sized(c: &Sized2) -> crate::Class {
    let size = match c.e {
        i16::MIN..=-27 => "tiny",
        -26..=-1 => "small",
        0..=26 => "large",
        _ => "huge",
    };
    crate::class(format!("dim {}, {size}", c.sig.len()), crate::gens::support(&c.a) > 0 && crate::gens::support(&c.b) > 0)
}
pub fn valid_sized(c: &Sized2) -> bool {
    let m = crate::gens::mask(c.sig.len());
    c.e.abs() <= 300 && c.f.abs() <= 300 && c.a.iter().chain(&c.b).all(|(i, _)| i & !m == 0)
}
pub fn exp2(e: i16) -> f64 {
    (e as f64).exp2()
}
pub fn mv_sized<A: ClAlgebra>(t: &Terms, e: i16) -> Multivector<C64, A> {
    match Multivector::from_indexed_iter(t.iter().map(|(i, c)| (*i as usize, <C64 as Fc>::mk(c) * exp2(e)))) {
        Ok(m) => m,
        Err(e) => panic!("valid coefficients are rejected with {e:?}"),
    }
}
/// `got` is `want` times a power of two, up to rounding.
pub fn same_scaled(what: &str, got: impl Iterator<Item = C64>, e: i16, want: impl Iterator<Item = C64>, tol: f64) -> Outcome {
    let k = exp2(-e);
    let (got, want): (Vec<C64>, Vec<C64>) = (got.map(|x| x * k).collect(), want.collect());
    crate::same(&format!("{what}: number of entries"), &got.len(), &want.len())?;
    for (x, y) in got.iter().zip(&want) {
        crate::ensure((x - y).norm() <= tol, || format!("{what}: entry {x} * 2^{e} when the operands are scaled, {y} * 2^{e} expected"))?;
    }
    Ok(())
}
pub fn same_scaled_repr<A: ClAlgebra>(what: &str, got: &FFTRepr<A>, e: i16, want: &FFTRepr<A>, tol: f64) -> Outcome {
    same_scaled(what, got.view().iter().copied(), e, want.view().iter().copied(), tol)
}
pub fn all_coeffs<A: ClAlgebra>(m: &Multivector<C64, A>) -> Vec<C64> {
    m.coeff_array_view().iter().copied().collect()
}

/// The same representation, stored in another order of the entries.
pub fn relayout<A: ClAlgebra>(f: FFTRepr<A>, how: usize) -> FFTRepr<A> {
    use ndarray::{s, Array3, Axis, ShapeBuilder};
    let a = f.into_array3();
    let (p, m, n) = a.dim();
    let b = match how % 6 {
        // as it comes, or row by row
        0 => a,
        1 => Array3::from_shape_fn((p, m, n), |i| a[i]),
        // the first index runs fastest
        2 => {
            let mut b = Array3::zeros((p, m, n).f());
            b.assign(&a);
            b
        }
        // rows and columns exchanged
        3 => {
            let mut b = Array3::from_shape_fn((p, n, m), |(i, j, k)| a[(i, k, j)]);
            b.swap_axes(1, 2);
            b
        }
        // backwards
        4 => {
            let mut b = Array3::from_shape_fn((p, m, n), |(i, j, k)| a[(p - 1 - i, m - 1 - j, n - 1 - k)]);
            for i in 0..3 {
                b.invert_axis(Axis(i));
            }
            b
        }
        // with gaps
        _ => Array3::from_shape_fn((p, m, 2 * n), |(i, j, k)| if k % 2 == 0 { a[(i, j, k / 2)] } else { C64::new(77., 7.) }).slice_move(s![.., .., ..;2]),
    };
    match FFTRepr::from_array3(b) {
        Ok(f) => f,
        Err(e) => panic!("an array of the right shape is rejected with {e:?}"),
    }
}

/// Elements with a short algebraic relation: idempotents and nilpotents made of blades that
/// commute with each other.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Special {
    pub sig: String,
    /// Blades to be used when they commute with the earlier ones
    pub blades: Vec<u64>,
    pub signs: u64,
    /// A blade to make the nilpotent with
    pub turn: u64,
    /// A factor in sixteenths
    pub x: i32,
    pub n: usize,
    pub complex: bool,
}

impl Special {
    /// `p p = p` and, when there is one, `q q = 0`
    pub fn elements(&self) -> (Mv<C64>, Option<Mv<C64>>) {
        let alg = Alg::parse(&self.sig);
        let mut used: Vec<u64> = vec![];
        let mut p = Mv::scalar(C64::new(1., 0.));
        for (k, b) in self.blades.iter().enumerate() {
            let unit = match alg.sq(*b) {
                1 => C64::new(1., 0.),
                -1 if self.complex => C64::new(0., 1.),
                _ => continue,
            };
            if *b == 0 || used.len() >= 3 || used.contains(b) || used.iter().any(|u| alg.geo(*u, *b) != alg.geo(*b, *u)) {
                continue;
            }
            used.push(*b);
            let half = if self.signs >> k & 1 == 1 { -0.5 } else { 0.5 };
            p = alg.mul(&p, &Mv::from_terms([(0, C64::new(0.5, 0.)), (*b, unit * half)]));
        }
        // c p has the square c p c p, zero when c anticommutes with one of the blades
        let c = self.turn;
        let turns = used.iter().any(|u| {
            let (x, y) = (alg.geo(c, *u), alg.geo(*u, c));
            x.0 == y.0 && x.1 == -y.1
        });
        let q = turns.then(|| alg.mul(&Mv::from_terms([(c, C64::new(1., 0.))]), &p));
        (p, q)
    }
    pub fn factor(&self) -> f64 {
        self.x as f64 / 16.
    }
}

pub fn specials(sigs: Vec<&'static str>) -> BoxedStrategy<Special> {
    let some = |d: usize| any::<u64>().prop_map(move |b| b & crate::gens::mask(d));
    crate::pick(sigs.into_iter().filter(|s| s.len() <= 8).collect())
        .prop_flat_map(move |s| {
            let d = s.len();
            let x = prop_oneof![2 => Just(16), 1 => Just(-16), 1 => Just(32), 2 => -48i32..=48];
            (Just(s), proptest::collection::vec(some(d), 1..12), any::<u64>(), some(d), x, 0usize..40, any::<bool>())
        })
        .prop_map(|(sig, blades, signs, turn, x, n, complex)| Special { sig, blades, signs: signs & 0xfff, turn, x, n, complex })
        .boxed()
}
pub fn valid_special(c: &Special) -> bool {
    let m = crate::gens::mask(c.sig.len());
    c.x.abs() <= 48 && c.n < 40 && c.blades.len() <= 12 && c.blades.iter().chain([&c.turn]).all(|b| b & !m == 0)
}
pub fn class_special(c: &Special) -> crate::Class {
    let (p, q) = c.elements();
    let kind = if q.is_some() { "with nilpotent" } else { "idempotent only" };
    crate::class(format!("dim {}, {} terms, {kind}", c.sig.len(), p.len()), p.len() > 1)
}
