//! C06: addition, subtraction, negation and scalar operations act coefficient-wise.
use checks::algs::*;
use checks::*;
use tclifford::{ClAlgebra, Multivector, SparseMultivector};
use vcore::rings::{Fp, M2};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Lin {
    sig: String,
    a: Terms,
    b: Terms,
    s: Coeff,
    form: u8,
}

fn lin(sigs: Vec<&'static str>) -> BoxedStrategy<Lin> {
    (two(sigs), gens::coeff())
        .prop_map(|(t, s)| Lin { sig: t.sig, a: t.a, b: t.b, s, form: t.form })
        .boxed()
}
fn class_lin(c: &Lin) -> Class {
    let (x, y) = (gens::support(&c.a), gens::support(&c.b));
    class(format!("dim {}, terms {} + {}", c.sig.len(), size_label(x), size_label(y)), x > 0 && y > 0)
}

fn one<T: Coef, M: MvLike<T>>(c: &Lin) -> Outcome {
    let (ma, mb) = (model_of::<T>(&c.a), model_of::<T>(&c.b));
    let (a, b) = (M::build(&c.a), M::build(&c.b));
    let s = T::mk(&c.s);
    check("a + b", &a.add_(&b, c.form), &ma.add(&mb))?;
    check("a - b", &a.sub_(&b, c.form), &ma.sub(&mb))?;
    check("-a", &a.neg_(c.form), &ma.neg())?;
    check("a * s", &a.smul_(&s, c.form), &ma.scale(&s))?;
    check("a - a", &a.sub_(&a, c.form), &Mv::new())?;
    check("a + a", &a.add_(&a, c.form), &ma.add(&ma))?;
    check("a + 0", &a.add_(&M::zero_(), c.form), &ma)?;
    check("0 + a", &M::zero_().add_(&a, c.form), &ma)?;
    check("0 - a", &M::zero_().sub_(&a, c.form), &ma.neg())?;
    check("a", &a, &ma)?;
    check("b", &b, &mb)?;
    check("default", &M::default_(), &Mv::new())?;
    check("one", &M::one_(), &Mv::scalar(T::one()))?;
    same("is_zero(a)", &a.zero_test(), &ma.is_zero())?;
    same("is_one(a)", &a.one_test(), &(ma == Mv::scalar(T::one())))?;
    same("is_one(1)", &M::one_().one_test(), &true)?;
    same("is_zero(a - b)", &a.sub_(&b, 0).zero_test(), &(ma == mb))?;
    same("a == b", &(a == b), &(ma == mb))?;
    same("b == a", &(b == a), &(ma == mb))?;
    same("a == a + b - b", &(a == a.add_(&b, 0).sub_(&b, 0)), &true)
}
fn both<A: ClAlgebra, T: Coef>(c: &Lin) -> Outcome {
    one::<T, Multivector<T, A>>(c)?;
    one::<T, SparseMultivector<T, A>>(c)
}
fn sparse_only<A: ClAlgebra, T: Coef>(c: &Lin) -> Outcome {
    one::<T, SparseMultivector<T, A>>(c)
}

/// Equality of values that differ in a few given coefficients and were built in different ways.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Eq {
    sig: String,
    a: Terms,
    delta: Terms,
}

fn equality<A: ClAlgebra>(c: &Eq) -> Outcome {
    fn go<M: MvLike<i64>>(c: &Eq) -> Outcome {
        let ma = model_of::<i64>(&c.a);
        let md = model_of::<i64>(&c.delta);
        let mb = ma.add(&md);
        let a = M::build(&c.a);
        // the second value is reached by single updates
        let mut b = M::build(&c.a);
        for (i, _) in &c.delta {
            b = b.set(*i as usize, mb.get(*i));
        }
        let want = md.is_zero();
        same("a == b", &(a == b), &want)?;
        same("b == a", &(b == a), &want)?;
        same("a != b", &(a != b), &!want)?;
        // and back
        for (i, _) in &c.delta {
            b = b.set(*i as usize, ma.get(*i));
        }
        same("a == b after undoing", &(a == b && b == a), &true)?;
        same("is_zero", &b.zero_test(), &ma.is_zero())
    }
    go::<Multivector<i64, A>>(c)?;
    go::<SparseMultivector<i64, A>>(c)
}

fn eqs() -> BoxedStrategy<Eq> {
    pick(sigs_all())
        .prop_flat_map(|s| {
            let d = s.len();
            (
                Just(s),
                gens::terms(d, cap_for(d)),
                proptest::collection::vec((any::<u64>(), prop_oneof![Just(0i32), -2i32..=2]), 0..4),
            )
        })
        .prop_map(|(sig, a, d)| {
            let m = gens::mask(sig.len());
            let delta = d.into_iter().map(|(i, x)| (i & m, [x; 4])).collect();
            Eq { sig, a, delta }
        })
        .boxed()
}

fn div_exact<A: ClAlgebra>(c: &Lin) -> Outcome {
    fn go<T: Coef + tclifford::types::DivRing, M: MvLike<T>>(c: &Lin, a: [M; 4]) -> Outcome {
        let ma = model_of::<T>(&c.a);
        let s = T::mk(&c.s);
        let want = ma.map(|x| x.clone() / s.clone());
        for m in a {
            check("a / s", &m, &want)?;
        }
        Ok(())
    }
    macro_rules! forms {
        ($M:ty, $T:ty) => {{
            let a = <$M as MvLike<$T>>::build(&c.a);
            let s = <$T as Coef>::mk(&c.s);
            go::<$T, $M>(c, [&a / &s, &a / s.clone(), a.clone() / &s, a.clone() / s.clone()])?;
            let b = <$M as MvLike<$T>>::build(&c.a);
            ensure(a == b, || "division changed its operand".into())?;
        }};
    }
    forms!(Multivector<Fp, A>, Fp);
    forms!(SparseMultivector<Fp, A>, Fp);
    forms!(Multivector<num::BigRational, A>, num::BigRational);
    // floating-point quotients may differ in the last bits
    let s = f64::mk(&c.s);
    let ma = model_of::<f64>(&c.a);
    let near = |kind: &str, got: Mv<f64>| {
        for i in ma.c.keys().chain(got.c.keys()) {
            let (g, w) = (got.get(*i), ma.get(*i) / s);
            ensure((g - w).abs() <= 1e-14 * w.abs(), || format!("a / s ({kind} f64): coefficient {i:#b} is {g}, expected {w}"))?;
        }
        Outcome::Ok(())
    };
    let a = Multivector::<f64, A>::build(&c.a);
    for m in [&a / &s, &a / s, a.clone() / &s, a.clone() / s] {
        near("dense", m.read()?)?;
    }
    check("a", &a, &ma)?;
    let a = SparseMultivector::<f64, A>::build(&c.a);
    for m in [&a / &s, &a / s, a.clone() / &s, a.clone() / s] {
        near("sparse", m.read()?)?;
    }
    check("a", &a, &ma)
}

/// Coefficient-wise operations give the same floating-point numbers as on the coefficients.
fn wide_one<M: MvLike<f64>>(c: &Wide) -> Outcome {
    let (ma, mb) = (wide_model(&c.a), wide_model(&c.b));
    let (a, b) = (wide_mv::<M>(&c.a), wide_mv::<M>(&c.b));
    let s = f64::from_bits(c.s);
    check("a + b", &a.add_(&b, c.form), &ma.add(&mb))?;
    check("a - b", &a.sub_(&b, c.form), &ma.sub(&mb))?;
    check("-a", &a.neg_(c.form), &ma.neg())?;
    check("a * s", &a.smul_(&s, c.form), &ma.scale(&s))?;
    check("a - a", &a.sub_(&a, c.form), &Mv::new())?;
    check("a + 0", &a.add_(&M::zero_(), c.form), &ma)?;
    check("0 - b", &M::zero_().sub_(&b, c.form), &mb.neg())?;
    check("a", &a, &ma)?;
    check("b", &b, &mb)?;
    same("is_zero(a)", &a.zero_test(), &ma.is_zero())?;
    same("is_one(a)", &a.one_test(), &(ma == Mv::scalar(1.0)))?;
    same("a == b", &(a == b), &(ma == mb))?;
    same("b == a", &(b == a), &(ma == mb))?;
    // one coefficient in its last place
    if let Some((i, x)) = c.a.first() {
        let y = f64::from_bits(x ^ 1);
        if y.is_finite() && f64::from_bits(*x) != y {
            let other = a.clone().set(*i as usize, y);
            same("a == a changed in the last place", &(a == other), &false)?;
            same("a changed in the last place == a", &(other == a), &false)?;
        }
    }
    Ok(())
}
fn wide_numbers<A: ClAlgebra>(c: &Wide) -> Outcome {
    wide_one::<Multivector<f64, A>>(c)?;
    wide_one::<SparseMultivector<f64, A>>(c)
}

fn main() {
    Check::new("C06")
        .assume("the reference model is correct")
        .law(
            "linear-i64",
            "random pairs of integer multivectors of the listed signatures and a random scalar, every operand form; non-trivial when both are non-zero",
            40_000,
            1_000_000,
            || lin(sigs_all()),
            class_lin,
            |c| dispatch_all!(c.sig.as_str(), both[i64](c)),
        )
        .law(
            "linear-13-to-16-generators",
            "the same, dense and sparse, with 13 to 16 generators",
            800,
            16_000,
            || lin(sigs_vast()),
            class_lin,
            |c| dispatch_vast!(c.sig.as_str(), both[i64](c)),
        )
        .budget(300)
        .law(
            "linear-many-generators",
            "the same, sparse, with 12 to 48 generators",
            16_000,
            400_000,
            || lin(sigs_big()),
            class_lin,
            |c| dispatch_big!(c.sig.as_str(), sparse_only[i64](c)),
        )
        .law(
            "linear-matrices",
            "the same over 2x2 matrices: the scalar multiplies from the right",
            12_000,
            300_000,
            || lin(sigs_few()),
            class_lin,
            |c| dispatch_few!(c.sig.as_str(), both[M2](c)),
        )
        .law(
            "linear-f64",
            "the same with small integers held as f64",
            12_000,
            300_000,
            || lin(sigs_few()),
            class_lin,
            |c| dispatch_few!(c.sig.as_str(), both[f64](c)),
        )
        .law(
            "equality",
            "a multivector and its copy changed in 0 to 3 coefficients; non-trivial when at least one is listed",
            30_000,
            600_000,
            eqs,
            |c| class(if model_of::<i64>(&c.delta).is_zero() { "equal" } else { "different" }, !c.delta.is_empty()),
            |c| dispatch_all!(c.sig.as_str(), equality[](c)),
        )
        .law_on(
            "division-by-scalar",
            "random multivectors over a prime field, rationals and f64, and a non-zero scalar, every operand form; non-trivial when non-zero",
            (12_000, 300_000),
            || {
                lin(sigs_few())
                    .prop_map(|mut c| {
                        if c.s[0] == 0 {
                            c.s[0] = 7;
                        }
                        c
                    })
                    .boxed()
            },
            class_lin,
            |c| c.s[0] != 0,
            |c| dispatch_few!(c.sig.as_str(), div_exact[](c)),
        )
        .law_on(
            "linear-any-finite-number",
            "the same with f64 numbers of any finite size, tiny and huge; non-trivial when both are non-zero",
            (12_000, 300_000),
            || wide(sigs_few()),
            class_wide,
            valid_wide,
            |c| dispatch_few!(c.sig.as_str(), wide_numbers[](c)),
        )
        .main()
}
