//! C18: division undoes multiplication.
use checks::algs::*;
use checks::*;
use num::BigRational;
use tclifford::algebra::DivisionAlgebra;
use tclifford::quaternion::Quaternion;
use tclifford::types::DivRing;
use tclifford::{ClAlgebra, Multivector, SparseMultivector, Zero};
use vcore::rings::Fp;

macro_rules! forms {
    ($a:expr, $b:expr) => {
        [$a / $b, $a / $b.clone(), $a.clone() / $b, $a.clone() / $b.clone()]
    };
}

/// The element that gives a when multiplied by b from the right.
fn quotient<T: Coef + DivRing>(alg: &Alg, a: &Mv<T>, b: &Mv<T>) -> Option<Mv<T>> {
    // conj(b) b = norm
    let conj = Mv::from_terms(b.c.iter().map(|(i, x)| (*i, if *i == 0 { x.clone() } else { -x.clone() })));
    let n = alg.mul(&conj, b).get(0);
    if n.is_zero() {
        return None;
    }
    Some(alg.mul(a, &conj).map(|x| x.clone() / n.clone()))
}

fn judge<T: Coef + DivRing, M: MvLike<T>>(c: &Two, got: [M; 4]) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let (a, b) = (model_of::<T>(&c.a), model_of::<T>(&c.b));
    let want = quotient(&alg, &a, &b).ok_or("no quotient")?;
    for (k, q) in got.iter().enumerate() {
        check(&format!("a / b, form {k}"), q, &want)?;
        check("a / b * b", &q.mul_(&M::build(&c.b), 0), &a)?;
    }
    Ok(())
}

fn exact<A: ClAlgebra + DivisionAlgebra, T: Coef + DivRing>(c: &Two) -> Outcome {
    let alg = Alg::parse(&c.sig);
    if quotient(&alg, &model_of::<T>(&c.a), &model_of::<T>(&c.b)).is_none() {
        return Ok(());
    }
    let (a, b) = (Multivector::<T, A>::build(&c.a), Multivector::<T, A>::build(&c.b));
    judge::<T, _>(c, forms!(&a, &b))?;
    check("b / b", &(&b / &b), &Mv::scalar(T::one()))?;
    let (a, b) = (SparseMultivector::<T, A>::build(&c.a), SparseMultivector::<T, A>::build(&c.b));
    check("b / b", &(&b / &b), &Mv::scalar(T::one()))?;
    judge::<T, _>(c, forms!(&a, &b))
}

fn quaternions<T: Coef + DivRing + Copy>(c: &Two) -> Outcome {
    if quotient(&Alg::parse("--"), &model_of::<T>(&c.a), &model_of::<T>(&c.b)).is_none() {
        return Ok(());
    }
    let (a, b) = (Quaternion::<T>::build(&c.a), Quaternion::<T>::build(&c.b));
    judge::<T, _>(c, forms!(&a, &b))?;
    judge::<T, _>(c, [a / b, a / b, a / b, a / b])
}

/// Floating point: the quotient times the divisor is close to the dividend.
fn float<A: ClAlgebra + DivisionAlgebra>(c: &Scaled) -> Outcome {
    fn go<T: Coef + DivRing, M: MvLike<T>>(c: &Scaled, make: impl Fn(f64) -> T, norm: impl Fn(&T) -> f64, eps: f64, div: impl Fn(&M, &M) -> [M; 4]) -> Outcome {
        let build = |t: &Terms, e: i8| {
            let mut m = M::zero_();
            for (i, x) in &model_of::<T>(t).c {
                m = m.set(*i as usize, x.clone() * make((e as f64).exp2() / 7.));
            }
            m
        };
        let (a, b) = (build(&c.a, c.ea), build(&c.b, c.eb));
        let n = b.enumerate().iter().fold(T::zero(), |s, (_, x)| s + x.clone() * x.clone());
        let lb: f64 = b.enumerate().iter().map(|(_, x)| norm(x)).sum();
        // complex coefficients can cancel in the norm
        if norm(&n) * 100. < lb * lb || lb == 0. {
            return Ok(());
        }
        let la: f64 = a.enumerate().iter().map(|(_, x)| norm(x)).sum();
        for (k, q) in div(&a, &b).iter().enumerate() {
            let r = q.mul_(&b, 0);
            for i in 0..4 {
                let err = norm(&(r.get(i) - a.get(i)));
                ensure(err <= eps * la * 100., || {
                    format!("({} {}) a / b * b, form {k}: coefficient {i} is {:?}, expected {:?}", M::KIND, T::NAME, r.get(i), a.get(i))
                })?;
            }
        }
        Ok(())
    }
    go::<f64, Multivector<f64, A>>(c, |x| x, |x| x.abs(), 1e-14, |a, b| forms!(a, b))?;
    go::<f64, SparseMultivector<f64, A>>(c, |x| x, |x| x.abs(), 1e-14, |a, b| forms!(a, b))?;
    go::<f32, Multivector<f32, A>>(c, |x| x as f32, |x| x.abs() as f64, 1e-5, |a, b| forms!(a, b))?;
    go::<C64, Multivector<C64, A>>(c, |x| C64::new(x, 0.), |x| x.norm(), 1e-13, |a, b| forms!(a, b))?;
    go::<C64, SparseMultivector<C64, A>>(c, |x| C64::new(x, 0.), |x| x.norm(), 1e-13, |a, b| forms!(a, b))?;
    if c.sig == "--" {
        go::<f64, Quaternion<f64>>(c, |x| x, |x| x.abs(), 1e-14, |a, b| forms!(a, b))?;
        go::<C64, Quaternion<C64>>(c, |x| C64::new(x, 0.), |x| x.norm(), 1e-13, |a, b| forms!(a, b))?;
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Scaled {
    sig: String,
    a: Terms,
    ea: i8,
    b: Terms,
    eb: i8,
}

/// A multivector of any algebra and a scalar
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct ByScalar {
    sig: String,
    a: Terms,
    s: i32,
}

fn scalars<A: ClAlgebra>(c: &ByScalar) -> Outcome {
    fn go<T: Coef + DivRing, M: MvLike<T>>(c: &ByScalar, s: T, div: impl Fn(&M, &T) -> [M; 4]) -> Outcome {
        let a = model_of::<T>(&c.a);
        let m = M::build(&c.a);
        let want = a.map(|x| x.clone() / s.clone());
        for (k, q) in div(&m, &s).iter().enumerate() {
            check(&format!("division by a scalar, form {k}"), q, &want)?;
        }
        let r = T::one() / s.clone();
        check("product with the reciprocal", &m.smul_(&r, 0), &want)?;
        check("dividend", &m, &a)
    }
    if Fp::new(c.s as i64) == Fp(0) {
        return Ok(());
    }
    go::<Fp, Multivector<Fp, A>>(c, Fp::new(c.s as i64), |a, b| forms!(a, b))?;
    go::<Fp, SparseMultivector<Fp, A>>(c, Fp::new(c.s as i64), |a, b| forms!(a, b))?;
    let s = BigRational::new(c.s.into(), 3.into());
    go::<BigRational, Multivector<BigRational, A>>(c, s.clone(), |a, b| forms!(a, b))?;
    go::<BigRational, SparseMultivector<BigRational, A>>(c, s, |a, b| forms!(a, b))?;
    // powers of two divide exactly
    let s = (c.s.rem_euclid(40) as f64 - 20.).exp2();
    go::<f64, Multivector<f64, A>>(c, s, |a, b| forms!(a, b))?;
    go::<C64, SparseMultivector<C64, A>>(c, C64::new(s, 0.), |a, b| forms!(a, b))
}

/// A multivector with quaternions as coefficients and the index of a quaternion whose inverse is exact
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct ByQuaternion {
    sig: String,
    a: Terms,
    s: [i8; 4],
    e: i8,
}

type Q = [f64; 4];
/// Product of quaternions with basis 1, i, j, k
fn hamilton(a: &Q, b: &Q) -> Q {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
/// Norms of these are powers of two
fn exact_inverse(s: &[i8; 4]) -> bool {
    s.iter().all(|x| x.abs() <= 1) && [1, 2, 4].contains(&s.iter().map(|x| x.abs()).sum::<i8>())
}

fn by_quaternion<A: ClAlgebra>(c: &ByQuaternion) -> Outcome {
    // the blade with index 3 is the product of the generators from the last to the first: -k
    let quat = |q: &Q| Quaternion::<f64>::from_indexed_iter([q[0], q[1], q[2], -q[3]].into_iter().enumerate()).unwrap();
    let scale = (c.e as f64).exp2();
    let s: Q = c.s.map(|x| x as f64 * scale);
    let n: f64 = s.iter().map(|x| x * x).sum();
    let inverse: Q = [s[0] / n, -s[1] / n, -s[2] / n, -s[3] / n];
    let a: std::collections::BTreeMap<u64, Q> = c.a.iter().map(|(i, x)| (*i, x.map(|x| x as f64))).collect();
    let s = quat(&s);
    macro_rules! go {
        ($M:ident, $kind:expr) => {{
            let m = $M::<Quaternion<f64>, A>::from_indexed_iter(a.iter().map(|(i, q)| (*i as usize, quat(q)))).map_err(|e| format!("valid terms rejected with {e:?}"))?;
            for (k, q) in forms!(&m, &s).iter().enumerate() {
                for (i, x) in &a {
                    let (got, want) = (q.get_by_idx(*i as usize), quat(&hamilton(x, &inverse)));
                    ensure(got == want, || format!("({}) division by a quaternion, form {k}: coefficient {i:#b} is {got}, expected {want}", $kind))?;
                }
                let extra = q.coeff_enumerate().filter(|(i, x)| !x.is_zero() && !a.contains_key(&(*i as u64))).count();
                ensure(extra == 0, || format!("({}) division by a quaternion, form {k}: {extra} more coefficients", $kind))?;
                ensure(&(q * &s) == &m, || format!("({}) the quotient by a quaternion, form {k}, times the quaternion is not the dividend", $kind))?;
            }
        }};
    }
    go!(Multivector, "dense");
    go!(SparseMultivector, "sparse");
    Ok(())
}

fn nontrivial(c: &Two) -> Class {
    let (x, y) = (gens::support(&c.a), gens::support(&c.b));
    class(format!("{} generators, terms {} / {}", c.sig.len(), size_label(x), size_label(y)), x > 0 && y > 1)
}

fn main() {
    Check::new("C18")
        .assume("divisors with a norm that is zero (or, for complex coefficients, cancels to below 1%) are outside the claim")
        .law(
            "prime-field",
            "random pairs over a prime field in the two division algebras, dense and sparse, all operand forms; non-trivial when the divisor has two terms",
            30_000,
            600_000,
            || two(sigs_div()),
            nontrivial,
            |c| dispatch_div!(c.sig.as_str(), exact[Fp](c)),
        )
        .law(
            "rational",
            "the same over the rational numbers",
            12_000,
            200_000,
            || two(sigs_div()),
            nontrivial,
            |c| dispatch_div!(c.sig.as_str(), exact[BigRational](c)),
        )
        .law_on(
            "quaternions",
            "the same for the quaternion type",
            (20_000, 400_000),
            || two(vec!["--"]),
            nontrivial,
            |c| c.sig == "--" && c.a.iter().chain(c.b.iter()).all(|(i, _)| *i < 4),
            quaternions::<Fp>,
        )
        .law_on(
            "floats",
            "floating-point and complex pairs of different scales; non-trivial when the divisor has two terms",
            (16_000, 300_000),
            || {
                (two(sigs_div()), -12i8..=12, -12i8..=12)
                    .prop_map(|(c, ea, eb)| Scaled { sig: c.sig, a: c.a, ea, b: c.b, eb })
                    .boxed()
            },
            |c| {
                let (x, y) = (gens::support(&c.a), gens::support(&c.b));
                class(format!("{} generators", c.sig.len()), x > 0 && y > 1)
            },
            |c| {
                c.ea.abs() <= 12 && c.eb.abs() <= 12 && c.a.iter().chain(c.b.iter()).all(|(i, _)| i & !gens::mask(c.sig.len()) == 0)
            },
            |c| dispatch_div!(c.sig.as_str(), float[](c)),
        )
        .law_on(
            "by-scalars",
            "random multivectors of all signatures divided by a scalar; non-trivial when not zero",
            (16_000, 300_000),
            || {
                pick(sigs_all())
                    .prop_flat_map(|s| {
                        let d = s.len();
                        (Just(s), gens::terms(d, cap_for(d).min(40)), -999i32..=999)
                    })
                    .prop_map(|(sig, a, s)| ByScalar { sig, a, s })
                    .boxed()
            },
            |c| class(format!("dim {}", c.sig.len()), gens::support(&c.a) > 0 && c.s.abs() > 1),
            |c| c.a.iter().all(|(i, _)| i & !gens::mask(c.sig.len()) == 0),
            |c| dispatch_all!(c.sig.as_str(), scalars[](c)),
        )
        .law_on(
            "by-quaternions",
            "random multivectors with quaternions as coefficients divided by a quaternion whose inverse is exact, compared to Hamilton's product from the right; non-trivial when the divisor does not commute with some coefficient",
            (12_000, 200_000),
            || {
                let s = [-1i8..=1, -1i8..=1, -1i8..=1, -1i8..=1].prop_filter("norm is a power of two", exact_inverse);
                (pick(sigs_few().into_iter().filter(|s| s.len() <= 6).collect()), s, -6i8..=6)
                    .prop_flat_map(|(sig, s, e)| {
                        let d = sig.len();
                        let q = [-9i32..=9, -9i32..=9, -9i32..=9, -9i32..=9];
                        let a = proptest::collection::vec((any::<u64>().prop_map(move |b| b & gens::mask(d)), q), 0..8);
                        (Just(sig), a, Just(s), Just(e))
                    })
                    .prop_map(|(sig, a, s, e)| ByQuaternion { sig, a, s, e })
                    .boxed()
            },
            |c| {
                let s: Q = c.s.map(|x| x as f64);
                let differs = c.a.iter().any(|(_, x)| {
                    let x = x.map(|x| x as f64);
                    hamilton(&x, &s) != hamilton(&s, &x)
                });
                class(format!("dim {}, terms {}", c.sig.len(), size_label(c.a.len())), differs)
            },
            |c| exact_inverse(&c.s) && c.e.abs() <= 6 && c.a.iter().all(|(i, x)| i & !gens::mask(c.sig.len()) == 0 && x.iter().all(|x| x.abs() <= 1000)),
            |c| dispatch_few!(c.sig.as_str(), by_quaternion[](c)),
        )
        .main()
}
