//! C03: the wedge product is the exterior product, whatever the signature.
use checks::algs::*;
use checks::*;
use tclifford::{ClAlgebra, Multivector, SparseMultivector};
use vcore::rings::{Fp, M2};

fn one<T: Coef, M: MvLike<T>>(c: &Two, ma: &Mv<T>, mb: &Mv<T>, want: &Mv<T>) -> Outcome {
    let (a, b) = (M::build(&c.a), M::build(&c.b));
    check("wedge", &a.wedge_(&b), want)?;
    check("left operand after wedge", &a, ma)?;
    check("right operand after wedge", &b, mb)?;
    if c.a == c.b {
        check("a ^ a with one object", &a.wedge_(&a), want)?;
    }
    if c.form % 2 == 0 {
        check("naive wedge", &a.naive_wedge(&b), want)?;
    }
    Ok(())
}

fn both<A: ClAlgebra, T: Coef>(c: &Two) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let (ma, mb) = (model_of::<T>(&c.a), model_of::<T>(&c.b));
    let want = alg.wedge_mv(&ma, &mb);
    one::<T, Multivector<T, A>>(c, &ma, &mb, &want)?;
    one::<T, SparseMultivector<T, A>>(c, &ma, &mb, &want)
}

fn sparse_only<A: ClAlgebra, T: Coef>(c: &Two) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let (ma, mb) = (model_of::<T>(&c.a), model_of::<T>(&c.b));
    let want = alg.wedge_mv(&ma, &mb);
    one::<T, SparseMultivector<T, A>>(c, &ma, &mb, &want)
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Row {
    sig: String,
    a: u64,
}

fn blades<A: ClAlgebra>(c: &Row) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let a = Multivector::<i64, A>::build(&vec![(c.a, [2; 4])]);
    for b in 0..=alg.mask() {
        let want = alg.wedge(c.a, b).map_or(Mv::new(), |(k, s)| Mv::blade(k, 6 * s as i64));
        let m = Multivector::<i64, A>::build(&vec![(b, [3; 4])]);
        check("blade ^ blade", &a.wedge_(&m), &want).map_err(|e| format!("b = {b:#b}: {e}"))?;
    }
    Ok(())
}

fn laws<A: ClAlgebra, T: Coef, M: MvLike<T>>(c: &Three) -> Outcome {
    let (a, b, d) = (M::build(&c.a), M::build(&c.b), M::build(&c.c));
    ensure(a.wedge_(&b).wedge_(&d) == a.wedge_(&b.wedge_(&d)), || {
        format!("{}: (a^b)^c != a^(b^c)", M::KIND)
    })?;
    ensure(
        a.wedge_(&b.add_(&d, 0)) == a.wedge_(&b).add_(&a.wedge_(&d), 0),
        || format!("{}: a^(b+c) != a^b + a^c", M::KIND),
    )?;
    // grade k and grade l parts add up to grade k + l
    let (k, l) = (c.a.len() % (c.sig.len() + 1), c.b.len() % (c.sig.len() + 1));
    let w = a.grade_(k).wedge_(&b.grade_(l));
    ensure(w.grade_(k + l) == w, || format!("{}: the wedge of grades {k} and {l} is not of grade {}", M::KIND, k + l))?;
    let v = a.grade_(1);
    if !T::NAME.starts_with("m2") {
        ensure(v.wedge_(&v).zero_test(), || format!("{}: v ^ v != 0", M::KIND))?;
    }
    Ok(())
}

fn laws_both<A: ClAlgebra, T: Coef>(c: &Three) -> Outcome {
    laws::<A, T, Multivector<T, A>>(c)?;
    laws::<A, T, SparseMultivector<T, A>>(c)
}

fn from_dim(d: usize) -> Vec<&'static str> {
    sigs_all().into_iter().filter(|s| s.len() >= d).collect()
}

/// Products with a single term need no sums and are exact for numbers of any size.
fn wide_one<M: MvLike<f64>>(c: &Wide) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let (ma, a) = (wide_model(&c.a), wide_mv::<M>(&c.a));
    for t in c.b.chunks(1).take(3) {
        let (mt, t) = (wide_model(t), wide_mv::<M>(t));
        check("a ^ t", &a.wedge_(&t), &alg.wedge_mv(&ma, &mt))?;
        check("t ^ a", &t.wedge_(&a), &alg.wedge_mv(&mt, &ma))?;
        check("naive a ^ t", &a.naive_wedge(&t), &alg.wedge_mv(&ma, &mt))?;
    }
    check("a", &a, &ma)
}
fn wide_numbers<A: ClAlgebra>(c: &Wide) -> Outcome {
    wide_one::<Multivector<f64, A>>(c)?;
    wide_one::<SparseMultivector<f64, A>>(c)
}

fn main() {
    Check::new("C03")
        .assume("the reference model (sorting of generators) is correct")
        .each(
            "every-pair-of-blades",
            "all pairs of blades of the signatures with up to 6 (thorough: 8) generators, a row per case",
            |thorough| {
                let mut v = vec![];
                for s in sigs_all() {
                    if s.len() <= if thorough { 8 } else { 6 } {
                        for a in 0..1u64 << s.len() {
                            v.push(Row { sig: s.into(), a });
                        }
                    }
                }
                v
            },
            |c| class(format!("dim {}", c.sig.len()), true),
            |c| dispatch_all!(c.sig.as_str(), blades[](c)),
        )
        .law(
            "wedge-i64",
            "random pairs of integer multivectors of the listed signatures, dense and sparse; non-trivial when both are non-zero",
            30_000,
            1_000_000,
            || two(sigs_all()),
            class_two,
            |c| dispatch_all!(c.sig.as_str(), both[i64](c)),
        )
        .law(
            "wedge-i64-recursive",
            "the same for 6 and more generators, where the dense product is recursive",
            10_000,
            400_000,
            || two(from_dim(6)),
            class_two,
            |c| dispatch_all!(c.sig.as_str(), both[i64](c)),
        )
        .law(
            "wedge-13-generators",
            "the same, dense and sparse, with 13 generators",
            48,
            1_000,
            || two(sigs_vast().into_iter().filter(|s| s.len() == 13).collect()),
            class_two,
            |c| dispatch_vast!(c.sig.as_str(), both[i64](c)),
        )
        .budget(60)
        .law(
            "wedge-many-generators",
            "random pairs of sparse multivectors with 12 to 48 generators",
            20_000,
            400_000,
            || two(sigs_big()),
            class_two,
            |c| dispatch_big!(c.sig.as_str(), sparse_only[i64](c)),
        )
        .law(
            "wedge-matrices",
            "random pairs over 2x2 matrices (non-commutative coefficients)",
            20_000,
            400_000,
            || two(sigs_few()),
            class_two,
            |c| dispatch_few!(c.sig.as_str(), both[M2](c)),
        )
        .law(
            "wedge-f64",
            "random pairs with small integers held as f64",
            10_000,
            200_000,
            || two(sigs_few()),
            class_two,
            |c| dispatch_few!(c.sig.as_str(), both[f64](c)),
        )
        .law(
            "exterior-laws",
            "associativity, distributivity, grading, v ^ v = 0 on random triples over a prime field; non-trivial when all three are non-zero",
            10_000,
            200_000,
            || three(sigs_few(), 20),
            class_three,
            |c| dispatch_few!(c.sig.as_str(), laws_both[Fp](c)),
        )
        .law_on(
            "wedge-any-finite-number",
            "products of multivectors with single terms, the numbers of any finite size; non-trivial when both are non-zero",
            (8_000, 200_000),
            || wide(sigs_few()),
            class_wide,
            valid_wide,
            |c| dispatch_few!(c.sig.as_str(), wide_numbers[](c)),
        )
        .main()
}
