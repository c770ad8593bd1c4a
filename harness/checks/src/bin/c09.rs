//! C09: scalar products and magnitudes equal the scalar parts they abbreviate.
use checks::algs::*;
use checks::*;
use tclifford::{ClAlgebra, Multivector, SparseMultivector};
use vcore::rings::{Fp, M2};

fn one<T: Coef, M: MvLike<T>>(c: &Two) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let (ma, mb) = (model_of::<T>(&c.a), model_of::<T>(&c.b));
    let (a, b) = (M::build(&c.a), M::build(&c.b));
    let mut dot = T::zero();
    let mut plain = T::zero();
    let mut mag = T::zero();
    for (i, x) in &ma.c {
        let p = x.clone() * mb.get(*i);
        plain = plain + p.clone();
        dot = match alg.sq(*i) {
            1 => dot + p,
            -1 => dot - p,
            _ => dot,
        };
        // rev(b) b = product of the squares of the generators
        let mut s = 1;
        for g in 0..alg.dim() {
            if i >> g & 1 == 1 {
                s *= alg.sig[g];
            }
        }
        let q = x.clone() * x.clone();
        mag = match s {
            1 => mag + q,
            -1 => mag - q,
            _ => mag,
        };
    }
    same(&format!("vdot ({})", M::KIND), &a.vdot_(&b), &dot)?;
    same(&format!("vsdot ({})", M::KIND), &a.vsdot_(&b), &plain)?;
    same(&format!("mag2 ({})", M::KIND), &a.mag2_(), &mag)?;
    if c.a == c.b {
        same("vdot with itself", &a.vdot_(&a), &dot)?;
        same("vsdot with itself", &a.vsdot_(&a), &plain)?;
    }
    if c.form == 0 {
        same("scalar part of the product", &a.mul_(&b, 0).scalar_(), &dot)?;
        same("scalar part of rev(a) a", &a.rev_().mul_(&a, 0).scalar_(), &mag)?;
    }
    check("a", &a, &ma)?;
    check("b", &b, &mb)
}
fn both<A: ClAlgebra, T: Coef>(c: &Two) -> Outcome {
    one::<T, Multivector<T, A>>(c)?;
    one::<T, SparseMultivector<T, A>>(c)
}
fn sparse_only<A: ClAlgebra, T: Coef>(c: &Two) -> Outcome {
    one::<T, SparseMultivector<T, A>>(c)
}

/// Exact over a prime field.
fn revm<A: ClAlgebra>(c: &OneMv) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let ma = model_of::<Fp>(&c.a);
    let mag = alg.mul(&alg.rev(&ma), &ma).get(0);
    if mag.0 == 0 {
        return Ok(());
    }
    let want = alg.rev(&ma).map(|x| *x / mag);
    let (d, s) = (Multivector::<Fp, A>::build(&c.a), SparseMultivector::<Fp, A>::build(&c.a));
    check("revm", &d.revm(), &want)?;
    check("revm", &s.revm(), &want)?;
    same("scalar part of revm(a) a", &(d.revm() * &d).scalar_part(), &Fp(1))?;
    same("scalar part of revm(a) a", &(s.revm() * &s).scalar_part(), &Fp(1))?;
    check("a", &d, &ma)
}

/// Small integers keep every complex product exact; only the division rounds.
fn complex<A: ClAlgebra>(c: &OneMv) -> Outcome {
    fn go<T, M>(c: &OneMv, cmag2: impl Fn(&M) -> T, revcm: impl Fn(&M) -> M, conj: impl Fn(T) -> T, norm: impl Fn(&T) -> f64) -> Outcome
    where
        T: Coef + tclifford::types::DivRing,
        M: MvLike<T>,
    {
        let alg = Alg::parse(&c.sig);
        let ma = model_of::<T>(&c.a);
        let m = M::build(&c.a);
        let rc = alg.rev(&ma).map(|z| conj(z.clone()));
        let mut mag = T::zero();
        for (i, x) in &ma.c {
            let p = rc.get(*i) * x.clone();
            mag = match alg.sq(*i) {
                1 => mag + p,
                -1 => mag - p,
                _ => mag,
            };
        }
        same(&format!("cmag2 ({} {})", M::KIND, T::NAME), &cmag2(&m), &mag)?;
        if mag.is_zero() {
            return Ok(());
        }
        let got = revcm(&m).read()?;
        for i in ma.c.keys().chain(got.c.keys()) {
            let want = rc.get(*i) / mag.clone();
            let err = norm(&(got.get(*i) - want.clone()));
            ensure(err <= 1e-12 * norm(&want), || {
                format!("revcm ({} {}): coefficient {i:#b} is {:?}, expected {want:?}", M::KIND, T::NAME, got.get(*i))
            })?;
        }
        Ok(())
    }
    go::<C64, Multivector<C64, A>>(c, |m| m.cmag2(), |m| m.revcm(), |z| z.conj(), |z| z.norm())?;
    go::<C64, SparseMultivector<C64, A>>(c, |m| m.cmag2(), |m| m.revcm(), |z| z.conj(), |z| z.norm())?;
    go::<f64, Multivector<f64, A>>(c, |m| m.cmag2(), |m| m.revcm(), |z| z, |z| z.abs())
}

fn main() {
    Check::new("C09")
        .assume("the reference model is correct")
        .assume("elements of magnitude zero are outside the claim about the inverse magnitude")
        .law(
            "dots-i64",
            "random pairs of integer multivectors of the listed signatures, dense and sparse; non-trivial when both are non-zero",
            50_000,
            1_000_000,
            || two(sigs_all()),
            class_two,
            |c| dispatch_all!(c.sig.as_str(), both[i64](c)),
        )
        .law(
            "dots-13-to-16-generators",
            "the same, dense and sparse, with 13 to 16 generators",
            1_600,
            30_000,
            || two(sigs_vast()),
            class_two,
            |c| dispatch_vast!(c.sig.as_str(), both[i64](c)),
        )
        .budget(300)
        .law(
            "dots-many-generators",
            "the same, sparse, with 12 to 48 generators",
            16_000,
            300_000,
            || two(sigs_big()),
            class_two,
            |c| dispatch_big!(c.sig.as_str(), sparse_only[i64](c)),
        )
        .law(
            "dots-matrices",
            "the same over 2x2 matrices: the left factor stays on the left",
            12_000,
            300_000,
            || two(sigs_few()),
            class_two,
            |c| dispatch_few!(c.sig.as_str(), both[M2](c)),
        )
        .law(
            "inverse-magnitude",
            "random multivectors over a prime field; non-trivial when the magnitude is not zero",
            16_000,
            300_000,
            || one_mv(sigs_few()),
            |c| {
                let alg = Alg::parse(&c.sig);
                let m = model_of::<Fp>(&c.a);
                let mag = m.c.iter().fold(Fp(0), |s, (i, x)| {
                    let p = *x * *x;
                    match alg.geo(*i, *i).1 * if (i.count_ones() / 2) % 2 == 0 { 1 } else { -1 } {
                        1 => s + p,
                        -1 => s - p,
                        _ => s,
                    }
                });
                class(format!("dim {}", c.sig.len()), mag.0 != 0)
            },
            |c| dispatch_few!(c.sig.as_str(), revm[](c)),
        )
        .law(
            "complex-magnitude",
            "random complex and real multivectors with integer parts; non-trivial when non-zero",
            16_000,
            300_000,
            || one_mv(sigs_few()),
            class_one,
            |c| dispatch_few!(c.sig.as_str(), complex[](c)),
        )
        .main()
}
