//! C04: dual, undual and the regressive product are consistent for every signature.
use checks::algs::*;
use checks::*;
use tclifford::{ClAlgebra, Multivector, SparseMultivector};
use vcore::rings::{Fp, M2};

fn meet<T: Coef, M: MvLike<T>>(c: &Two) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let (ma, mb) = (model_of::<T>(&c.a), model_of::<T>(&c.b));
    let want = alg.meet(&ma, &mb);
    let (a, b) = (M::build(&c.a), M::build(&c.b));
    check("meet", &a.meet_(&b), &want)?;
    check("left operand after meet", &a, &ma)?;
    check("right operand after meet", &b, &mb)?;
    if c.a == c.b {
        check("meet with itself", &a.meet_(&a), &want)?;
    }
    match c.form % 4 {
        0 => check("naive meet", &a.naive_meet(&b), &want)?,
        1 => check("undual(dual ^ dual)", &a.dual_().wedge_(&b.dual_()).undual_(), &want)?,
        _ => {}
    }
    Ok(())
}

fn both_meet<A: ClAlgebra, T: Coef>(c: &Two) -> Outcome {
    meet::<T, Multivector<T, A>>(c)?;
    meet::<T, SparseMultivector<T, A>>(c)
}
fn sparse_meet<A: ClAlgebra, T: Coef>(c: &Two) -> Outcome {
    meet::<T, SparseMultivector<T, A>>(c)
}

fn duals<T: Coef, M: MvLike<T>>(c: &OneMv) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let ma = model_of::<T>(&c.a);
    let a = M::build(&c.a);
    check("dual", &a.dual_(), &alg.dual(&ma))?;
    check("undual", &a.undual_(), &alg.undual(&ma))?;
    check("undual(dual)", &a.dual_().undual_(), &ma)?;
    check("dual(undual)", &a.undual_().dual_(), &ma)?;
    check("operand after dual", &a, &ma)
}
fn both_duals<A: ClAlgebra, T: Coef>(c: &OneMv) -> Outcome {
    duals::<T, Multivector<T, A>>(c)?;
    duals::<T, SparseMultivector<T, A>>(c)
}
fn sparse_duals<A: ClAlgebra, T: Coef>(c: &OneMv) -> Outcome {
    duals::<T, SparseMultivector<T, A>>(c)
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Blade {
    sig: String,
    a: u64,
}

/// The defining relations on a single blade, without the model of the dual.
fn blade<A: ClAlgebra>(c: &Blade) -> Outcome {
    fn go<M: MvLike<i64>>(c: &Blade) -> Outcome {
        let mask = Alg::parse(&c.sig).mask();
        let b = M::build(&vec![(c.a, [1; 4])]);
        let i = Mv::blade(mask, 1i64);
        check("dual(b) ^ b", &b.dual_().wedge_(&b), &i)?;
        check("b ^ undual(b)", &b.wedge_(&b.undual_()), &i)?;
        check("meet with the pseudoscalar", &b.meet_(&M::build(&vec![(mask, [1; 4])])), &Mv::blade(c.a, 1))
    }
    go::<Multivector<i64, A>>(c)?;
    go::<SparseMultivector<i64, A>>(c)
}

fn blades(thorough: bool) -> Vec<Blade> {
    let mut v = vec![];
    for s in sigs_all() {
        if s.len() <= if thorough { 10 } else { 8 } {
            for a in 0..1u64 << s.len() {
                v.push(Blade { sig: s.into(), a });
            }
        }
    }
    v
}

fn meet_laws<A: ClAlgebra, T: Coef>(c: &Three) -> Outcome {
    fn go<T: Coef, M: MvLike<T>>(c: &Three) -> Outcome {
        let (a, b, d) = (M::build(&c.a), M::build(&c.b), M::build(&c.c));
        ensure(a.meet_(&b).meet_(&d) == a.meet_(&b.meet_(&d)), || {
            format!("{}: the regressive product is not associative", M::KIND)
        })?;
        ensure(a.meet_(&b.add_(&d, 0)) == a.meet_(&b).add_(&a.meet_(&d), 0), || {
            format!("{}: the regressive product does not distribute", M::KIND)
        })?;
        ensure(a.meet_(&b).dual_() == a.dual_().wedge_(&b.dual_()), || {
            format!("{}: dual(a v b) != dual(a) ^ dual(b)", M::KIND)
        })
    }
    go::<T, Multivector<T, A>>(c)?;
    go::<T, SparseMultivector<T, A>>(c)
}

/// Duals and products with a single term need no sums and are exact for numbers of any size.
fn wide_one<M: MvLike<f64>>(c: &Wide) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let (ma, a) = (wide_model(&c.a), wide_mv::<M>(&c.a));
    check("dual", &a.dual_(), &alg.dual(&ma))?;
    check("undual", &a.undual_(), &alg.undual(&ma))?;
    check("undual(dual)", &a.dual_().undual_(), &ma)?;
    for t in c.b.chunks(1).take(3) {
        let (mt, t) = (wide_model(t), wide_mv::<M>(t));
        check("a v t", &a.meet_(&t), &alg.meet(&ma, &mt))?;
        check("t v a", &t.meet_(&a), &alg.meet(&mt, &ma))?;
        check("naive a v t", &a.naive_meet(&t), &alg.meet(&ma, &mt))?;
    }
    check("a", &a, &ma)
}
fn wide_numbers<A: ClAlgebra>(c: &Wide) -> Outcome {
    wide_one::<Multivector<f64, A>>(c)?;
    wide_one::<SparseMultivector<f64, A>>(c)
}

fn main() {
    Check::new("C04")
        .assume("the reference model (sorting of generators) is correct")
        .each(
            "every-blade",
            "every basis blade of the signatures with up to 8 (thorough: 10) generators, dense and sparse",
            blades,
            |c| class(format!("dim {}", c.sig.len()), true),
            |c| dispatch_all!(c.sig.as_str(), blade[](c)),
        )
        .law(
            "duals",
            "random integer multivectors of the listed signatures; non-trivial when non-zero",
            40_000,
            800_000,
            || one_mv(sigs_all()),
            class_one,
            |c| dispatch_all!(c.sig.as_str(), both_duals[i64](c)),
        )
        .law(
            "duals-13-to-16-generators",
            "the same, dense and sparse, with 13 to 16 generators",
            1_600,
            30_000,
            || one_mv(sigs_vast()),
            class_one,
            |c| dispatch_vast!(c.sig.as_str(), both_duals[i64](c)),
        )
        .budget(60)
        .law(
            "duals-many-generators",
            "the same, sparse, with 12 to 48 generators",
            10_000,
            200_000,
            || one_mv(sigs_big()),
            class_one,
            |c| dispatch_big!(c.sig.as_str(), sparse_duals[i64](c)),
        )
        .law(
            "meet-i64",
            "random pairs of integer multivectors of the listed signatures, dense and sparse; non-trivial when both are non-zero",
            24_000,
            800_000,
            || two(sigs_all()),
            class_two,
            |c| dispatch_all!(c.sig.as_str(), both_meet[i64](c)),
        )
        .law(
            "meet-i64-recursive",
            "the same for 6 and more generators",
            8_000,
            300_000,
            || two(sigs_all().into_iter().filter(|s| s.len() >= 6).collect()),
            class_two,
            |c| dispatch_all!(c.sig.as_str(), both_meet[i64](c)),
        )
        .law(
            "meet-13-generators",
            "the same, dense and sparse, with 13 generators",
            32,
            600,
            || two(sigs_vast().into_iter().filter(|s| s.len() == 13).collect()),
            class_two,
            |c| dispatch_vast!(c.sig.as_str(), both_meet[i64](c)),
        )
        .budget(60)
        .law(
            "meet-many-generators",
            "the same, sparse, with 12 to 48 generators",
            10_000,
            200_000,
            || two(sigs_big()),
            class_two,
            |c| dispatch_big!(c.sig.as_str(), sparse_meet[i64](c)),
        )
        .law(
            "meet-matrices",
            "the same over 2x2 matrices (non-commutative coefficients)",
            10_000,
            200_000,
            || two(sigs_few()),
            class_two,
            |c| dispatch_few!(c.sig.as_str(), both_meet[M2](c)),
        )
        .law(
            "regressive-laws",
            "associativity, distributivity and duality on random triples over a prime field; non-trivial when all are non-zero",
            8_000,
            160_000,
            || three(sigs_few(), 20),
            class_three,
            |c| dispatch_few!(c.sig.as_str(), meet_laws[Fp](c)),
        )
        .law_on(
            "any-finite-number",
            "duals, and products of multivectors with single terms, the numbers of any finite size; non-trivial when both are non-zero",
            (8_000, 200_000),
            || wide(sigs_few()),
            class_wide,
            valid_wide,
            |c| dispatch_few!(c.sig.as_str(), wide_numbers[](c)),
        )
        .main()
}
