//! C26: approximate equality is decided coefficient by coefficient.
use checks::algs::*;
use checks::repr::Fc;
use checks::*;
use ndarray::Array3;
use tclifford::quaternion::Quaternion;
use tclifford::types::Ring;
use tclifford::{ClAlgebra, FFTRepr, Multivector, Norm, SparseMultivector, Zero};

/// A multivector, a difference and a precision, all in units that are exact in binary.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Near {
    sig: String,
    a: Terms,
    d: Terms,
    /// In units of 1/1024
    precision: u32,
    /// Unit of the difference is 2^-unit
    unit: u8,
    /// Everything is multiplied by 2^scale
    #[serde(default)]
    scale: i16,
    /// The difference and the precision are further multiplied by 2^-fine
    #[serde(default)]
    fine: u8,
}

trait Approx: Ring + Norm + Clone {
    fn value(c: &Coeff, unit: f64) -> Self;
    fn size(&self) -> f64;
}
impl Approx for f64 {
    fn value(c: &Coeff, unit: f64) -> f64 {
        c[0] as f64 * unit
    }
    fn size(&self) -> f64 {
        self.abs()
    }
}
impl Approx for f32 {
    fn value(c: &Coeff, unit: f64) -> f32 {
        c[0] as f32 * unit as f32
    }
    fn size(&self) -> f64 {
        self.abs() as f64
    }
}
/// Complex differences are multiples of 3 + 4i, whose norms are exact
impl Approx for C64 {
    fn value(c: &Coeff, unit: f64) -> C64 {
        let k = [C64::new(3., 4.), C64::new(-4., 3.), C64::new(0., 5.), C64::new(-5., 0.)][c[1].rem_euclid(4) as usize];
        k * (c[0] as f64 * unit)
    }
    fn size(&self) -> f64 {
        // |re| and |im| are 3k and 4k or 0 and 5k
        let (x, y) = (self.re.abs(), self.im.abs());
        if x == 0. || y == 0. {
            x + y
        } else {
            x.min(y) / 3. * 5.
        }
    }
}

fn decide<T: Approx>(d: &Terms, unit: f64, precision: f64) -> bool {
    // a later term replaces an earlier one of the same blade
    let mut m = std::collections::BTreeMap::new();
    for (i, c) in d {
        m.insert(*i, T::value(c, unit));
    }
    m.values().all(|x| x.size() < precision)
}

/// Units of the coefficients and of the difference, and the precision
fn params(c: &Near) -> (f64, f64, f64) {
    let s = (c.scale as f64).exp2();
    let f = s * (-(c.fine as f64)).exp2();
    (s, f * (-(c.unit as f64)).exp2(), f * c.precision.max(1) as f64 / 1024.)
}

macro_rules! kind {
    ($name:ident, $ty:ident, $kind:literal) => {
        fn $name<T: Approx, A: ClAlgebra>(c: &Near) -> Outcome {
            let (base, unit, precision) = params(c);
            let mut a = $ty::<T, A>::zero();
            for (i, x) in &c.a {
                a = a.set_by_idx(*i as usize, T::value(x, base));
            }
            let mut b = a.clone();
            let mut last = std::collections::BTreeMap::new();
            for (i, x) in &c.d {
                last.insert(*i as usize, T::value(x, unit));
            }
            for (i, x) in last {
                let v = b.get_by_idx(i).ref_add(&x);
                b = b.set_by_idx(i, v);
            }
            let want = decide::<T>(&c.d, unit, precision);
            same(&format!("{} approx_eq with precision {precision}", $kind), &a.approx_eq(&b, precision), &want)?;
            same(&format!("{} approx_eq with precision {precision}, swapped", $kind), &b.approx_eq(&a, precision), &want)?;
            ensure(a.approx_eq(&a, precision), || "a value is not close to itself".into())
        }
    };
}
kind!(dense, Multivector, "dense");
kind!(sparse, SparseMultivector, "sparse");

fn quaternion<T: Approx + Copy + tclifford::types::DivRing>(c: &Near) -> Outcome {
    let (base, unit, precision) = params(c);
    let mut a = Quaternion::<T>::zero();
    for (i, x) in &c.a {
        a = a.set_by_idx(*i as usize, T::value(x, base));
    }
    let mut last = std::collections::BTreeMap::new();
    for (i, x) in &c.d {
        last.insert(*i as usize, T::value(x, unit));
    }
    let mut b = a;
    for (i, x) in last {
        b = b.set_by_idx(i, b.get_by_idx(i) + x);
    }
    let want = decide::<T>(&c.d, unit, precision);
    same(&format!("quaternion approx_eq with precision {precision}"), &a.approx_eq(&b, precision), &want)?;
    same("swapped", &b.approx_eq(&a, precision), &want)
}

fn kinds<A: ClAlgebra>(c: &Near) -> Outcome {
    dense::<f64, A>(c)?;
    sparse::<f64, A>(c)?;
    dense::<C64, A>(c)?;
    sparse::<C64, A>(c)?;
    if c.scale.abs() <= 80 && c.fine == 0 {
        dense::<f32, A>(c)?;
    }
    Ok(())
}
fn kinds_sparse<A: ClAlgebra>(c: &Near) -> Outcome {
    sparse::<f64, A>(c)?;
    sparse::<C64, A>(c)
}

/// Entries of a representation by position.
fn reprs<A: ClAlgebra>(c: &Near) -> Outcome {
    let alg = Alg::parse(&c.sig);
    // every array of the shape is a representation when the number of non-null generators is even
    if alg.nonnull_dim() % 2 == 1 {
        return repr_elements::<A>(c);
    }
    let (base, unit, precision) = params(c);
    let shape = checks::repr::shape_of(&alg);
    let n = shape.0 * shape.1 * shape.2;
    let fill = |t: &Terms, unit: f64, base: &Array3<C64>| {
        let mut r = base.clone();
        let mut last = std::collections::BTreeMap::new();
        for (i, x) in t {
            last.insert(*i as usize % n, C64::value(x, unit));
        }
        for (i, x) in &last {
            r.as_slice_mut().unwrap()[*i] += *x;
        }
        (r, last)
    };
    let (a, _) = fill(&c.a, base, &Array3::zeros(shape));
    let (b, d) = fill(&c.d, unit, &a);
    let make = |x: &Array3<C64>| FFTRepr::<A>::from_array3(x.clone()).map_err(|e| format!("an array of the right shape is rejected with {e:?}"));
    let (fa, fb) = (checks::repr::relayout(make(&a)?, c.a.len()), checks::repr::relayout(make(&b)?, c.d.len()));
    let want = d.values().all(|x| x.size() < precision);
    same(&format!("representation approx_eq with precision {precision}"), &fa.approx_eq(&fb, precision), &want)?;
    same("the same, swapped", &fb.approx_eq(&fa, precision), &want)?;
    let equal = d.values().all(|x| x.is_zero());
    same("equality of representations", &(fa == fb), &equal)?;
    same("inequality of representations", &(fb != fa), &!equal)?;
    ensure(fa == make(&a)?, || "equal arrays make different representations".into())?;
    same("zero test", &fa.is_zero(), &a.iter().all(|x| x.is_zero()))?;
    let (z, only) = fill(&c.d, unit, &Array3::zeros(shape));
    same("zero test", &make(&z)?.is_zero(), &only.values().all(|x| x.is_zero()))?;
    ensure(FFTRepr::<A>::zero().is_zero(), || "zero is not zero".into())
}
fn repr_elements<A: ClAlgebra>(c: &Near) -> Outcome {
    let m = checks::repr::mv_of::<C64, A>(&c.a);
    let d = checks::repr::mv_of::<C64, A>(&c.d);
    let (f, g) = (m.fft(), d.fft());
    same("zero test", &f.is_zero(), &m.is_zero())?;
    same("equality", &(f == g), &(m == d))?;
    ensure(f == m.fft(), || "the same multivector has different representations".into())?;
    let (x, y) = (f.clone().into_array3(), g.clone().into_array3());
    let (base, _, precision) = params(c);
    let precision = precision / base;
    let worst = x.iter().zip(y.iter()).map(|(p, q)| (p - q).norm()).fold(0., f64::max);
    if (worst - precision).abs() > 1e-9 {
        same("approx_eq", &f.approx_eq(&g, precision), &(worst < precision))?;
    }
    let _ = <f64 as Fc>::NAME;
    Ok(())
}

fn nears(sigs: Vec<&'static str>) -> BoxedStrategy<Near> {
    pick(sigs)
        .prop_flat_map(|s| {
            let d = s.len();
            // the interesting precisions are around the differences
            let pair = prop_oneof![
                // 5 / 1024 units of k
                (0u32..=40).prop_map(|k| (k, 10u8)),
                (1u32..=64, 0u8..=12).prop_map(|(p, u)| (p * 16, u)),
                (1u32..=200_000, 0u8..=12),
            ];
            let small = (any::<u64>(), prop_oneof![-9i32..=9, -2i32..=2], 0i32..4).prop_map(move |(i, x, k)| (i & gens::mask(d), [x, k, 0, 0]));
            (Just(s), gens::terms(d, 16), proptest::collection::vec(small, 0..6), pair, prop_oneof![2 => Just(0i16), 1 => -80i16..=80, 1 => -300i16..=300], prop_oneof![3 => Just(0u8), 1 => 1u8..=32, 1 => 28u8..=32])
        })
        .prop_map(|(sig, a, d, (precision, unit), scale, fine)| Near { sig, a, d, precision, unit, scale, fine: fine.min(41 - unit) })
        .boxed()
}
fn valid(c: &Near) -> bool {
    c.unit <= 12 && c.unit + c.fine.min(50) <= 41 && c.scale.abs() <= 300 && c.precision <= 1 << 20 && c.a.iter().chain(c.d.iter()).all(|(i, x)| i & !gens::mask(c.sig.len()) == 0 && x[0].abs() <= 300)
}
fn class_near(c: &Near) -> Class {
    let (_, unit, precision) = params(c);
    let worst = c.d.iter().map(|(_, x)| x[0].abs() as f64 * unit).fold(0., f64::max);
    let k = if worst == 0. {
        "no difference"
    } else if worst == precision {
        "difference equal to the precision"
    } else if worst < precision {
        "difference below the precision"
    } else {
        "difference above the precision"
    };
    class(k, worst != 0.)
}

/// Values that differ in one coefficient by the least possible amount
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Last {
    sig: String,
    a: Terms,
    at: u64,
    imaginary: bool,
    /// Last places
    n: u8,
    /// Quarters of the difference
    precision: u8,
}
fn next(x: f64, n: u8) -> f64 {
    if x == 0. {
        return n as f64 * (-60f64).exp2();
    }
    f64::from_bits(x.to_bits() + n as u64)
}
fn last_place<A: ClAlgebra>(c: &Last) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let want = c.precision > 4;
    // the real case
    let at = (c.at & alg.mask()) as usize;
    let a = checks::repr::mv_of::<f64, A>(&c.a);
    let x = a.get_by_idx(at);
    let y = next(x, c.n);
    let p = (y - x).abs() * c.precision as f64 / 4.;
    if p > 0. {
        let b = a.clone().set_by_idx(at, y);
        for (l, r) in [(&a, &b), (&b, &a)] {
            same(&format!("approx_eq with a difference of {:e} and precision {p:e}", y - x), &l.approx_eq(r, p), &want)?;
            same(&format!("sparse approx_eq with a difference of {:e} and precision {p:e}", y - x), &l.to_sparse().approx_eq(&r.to_sparse(), p), &want)?;
        }
    }
    // the entries of a representation and complex coefficients
    let m = checks::repr::mv_of::<C64, A>(&c.a);
    let z = m.get_by_idx(at);
    let w = if c.imaginary { C64::new(z.re, next(z.im, c.n)) } else { C64::new(next(z.re, c.n), z.im) };
    let p = (w - z).norm() * c.precision as f64 / 4.;
    if p > 0. {
        let b = m.clone().set_by_idx(at, w);
        for (l, r) in [(&m, &b), (&b, &m)] {
            same(&format!("complex approx_eq with a difference of {:e} and precision {p:e}", w - z), &l.approx_eq(r, p), &want)?;
            same(&format!("complex sparse approx_eq with a difference of {:e} and precision {p:e}", w - z), &l.to_sparse().approx_eq(&r.to_sparse(), p), &want)?;
        }
    }
    let f = m.fft();
    let arr = f.clone().into_array3();
    let k = (c.at % arr.len() as u64) as usize;
    let mut other = arr.clone();
    let entry = other.iter_mut().nth(k).unwrap();
    let z = *entry;
    let w = if c.imaginary { C64::new(z.re, next(z.im, c.n)) } else { C64::new(next(z.re, c.n), z.im) };
    *entry = w;
    let p = (w - z).norm() * c.precision as f64 / 4.;
    if p > 0. {
        let g = FFTRepr::<A>::from_array3(other).map_err(|e| format!("an array of the right shape is rejected with {e:?}"))?;
        for (l, r) in [(&f, &g), (&g, &f)] {
            same(&format!("approx_eq of representations with a difference of {:e} and precision {p:e}", w - z), &l.approx_eq(r, p), &want)?;
            ensure(l != r, || "representations that differ are equal".into())?;
        }
    }
    Ok(())
}

fn main() {
    Check::new("C26")
        .assume("precisions are positive; differences are exact in binary, so that they can be equal to the precision")
        .law_on(
            "multivectors",
            "random pairs of dense and sparse multivectors (f64, f32, complex) that differ in up to five coefficients, with precisions around the differences; non-trivial when they differ",
            (24_000, 500_000),
            || nears(sigs_all()),
            class_near,
            valid,
            |c| dispatch_all!(c.sig.as_str(), kinds[](c)),
        )
        .law_on(
            "many-generators",
            "the same, sparse, with 12 to 48 generators",
            (8_000, 100_000),
            || nears(sigs_big()),
            class_near,
            valid,
            |c| dispatch_big!(c.sig.as_str(), kinds_sparse[](c)),
        )
        .law_on(
            "quaternions",
            "the same for quaternions",
            (8_000, 100_000),
            || nears(vec!["--"]),
            class_near,
            |c| valid(c) && c.sig == "--",
            |c| {
                quaternion::<f64>(c)?;
                quaternion::<C64>(c)
            },
        )
        .law_on(
            "representations",
            "the same for matrix representations, with exact equality and the zero test",
            (24_000, 500_000),
            || nears(sigs_all()),
            class_near,
            valid,
            |c| dispatch_all!(c.sig.as_str(), reprs[](c)),
        )
        .law_on(
            "last-place",
            "multivectors and representations with full mantissas that differ in one number by one to four units of its last place, with precisions from a quarter to twice the difference; non-trivial when the value is not zero",
            (8_000, 200_000),
            || {
                pick(sigs_all())
                    .prop_flat_map(|s| {
                        let d = s.len();
                        let n = (any::<u64>(), any::<bool>(), 1u8..=4, 1u8..=8);
                        (Just(s), gens::terms(d, 16), n)
                    })
                    .prop_map(|(sig, a, (at, imaginary, n, precision))| {
                        // mostly a number that is not zero
                        let at = if at % 4 > 0 && !a.is_empty() { a[at as usize % a.len()].0 } else { at };
                        Last { sig, a, at, imaginary, n, precision }
                    })
                    .boxed()
            },
            |c| class(format!("precision {}/4 of {} last places", c.precision, c.n), gens::support(&c.a) > 0),
            |c| (1..=4).contains(&c.n) && (1..=8).contains(&c.precision) && c.a.iter().all(|(i, _)| i & !gens::mask(c.sig.len()) == 0),
            |c| dispatch_all!(c.sig.as_str(), last_place[](c)),
        )
        .main()
}
