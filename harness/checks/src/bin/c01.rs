//! C01: the geometric product is the Clifford product of the declared signature.
use checks::algs::*;
use checks::*;
use tclifford::{ClAlgebra, Multivector, SparseMultivector};
use vcore::rings::{Fp, M2};

#[macro_use]
#[path = "../huge.rs"]
mod huge;

/// One product against the model, with unchanged operands and the naive implementation agreeing.
fn product<T: Coef, M: MvLike<T>>(c: &Two, alg: &Alg, ma: &Mv<T>, mb: &Mv<T>, want: &Mv<T>) -> Outcome {
    let _ = alg;
    let (a, b) = (M::build(&c.a), M::build(&c.b));
    let p = a.mul_(&b, c.form);
    check("a * b", &p, want)?;
    check("a after a * b", &a, ma)?;
    check("b after a * b", &b, mb)?;
    if c.a == c.b {
        check("a * a with one object", &a.mul_(&a, 0), want)?;
    }
    if c.form == 0 {
        check("naive product", &a.naive_mul(&b), want)?;
    }
    Ok(())
}

fn both<A: ClAlgebra, T: Coef>(c: &Two) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let (ma, mb) = (model_of::<T>(&c.a), model_of::<T>(&c.b));
    let want = alg.mul(&ma, &mb);
    product::<T, Multivector<T, A>>(c, &alg, &ma, &mb, &want)?;
    product::<T, SparseMultivector<T, A>>(c, &alg, &ma, &mb, &want)
}

fn sparse_only<A: ClAlgebra, T: Coef>(c: &Two) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let (ma, mb) = (model_of::<T>(&c.a), model_of::<T>(&c.b));
    let want = alg.mul(&ma, &mb);
    product::<T, SparseMultivector<T, A>>(c, &alg, &ma, &mb, &want)
}

/// Every pair of basis blades of an algebra, multiplied as multivectors.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct BladeRow {
    sig: String,
    a: u64,
}

fn blades<A: ClAlgebra>(c: &BladeRow) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let a = Multivector::<i64, A>::build(&vec![(c.a, [1; 4])]);
    let s = SparseMultivector::<i64, A>::build(&vec![(c.a, [1; 4])]);
    for b in 0..=alg.mask() {
        let (k, sign) = alg.geo(c.a, b);
        let want = Mv::blade(k, 3 * sign as i64);
        let tb = vec![(b, [3; 4])];
        check("blade * blade", &(&a * &Multivector::<i64, A>::build(&tb)), &want)
            .map_err(|e| format!("b = {b:#b}: {e}"))?;
        check("blade * blade", &(&s * &SparseMultivector::<i64, A>::build(&tb)), &want)
            .map_err(|e| format!("b = {b:#b}: {e}"))?;
    }
    Ok(())
}

/// Associativity, distributivity and unit, on the library alone.
fn ring_laws<A: ClAlgebra, T: Coef>(c: &Three) -> Outcome {
    type D<T, A> = Multivector<T, A>;
    let (a, b, d) = (D::<T, A>::build(&c.a), D::<T, A>::build(&c.b), D::<T, A>::build(&c.c));
    ensure((&a * &b) * &d == &a * (&b * &d), || "(ab)c != a(bc)".into())?;
    ensure(&a * (&b + &d) == &a * &b + &a * &d, || "a(b+c) != ab + ac".into())?;
    ensure((&a + &b) * &d == &a * &d + &b * &d, || "(a+b)c != ac + bc".into())?;
    let one = D::<T, A>::one_();
    ensure(&one * &a == a && &a * &one == a, || "1 is not neutral".into())?;
    let (a, b, d) = (a.to_sparse(), b.to_sparse(), d.to_sparse());
    ensure((&a * &b) * &d == &a * (&b * &d), || "sparse (ab)c != a(bc)".into())?;
    let one = SparseMultivector::<T, A>::one_();
    ensure(&one * &a == a && &a * &one == a, || "sparse 1 is not neutral".into())
}

fn blade_rows(thorough: bool) -> Vec<BladeRow> {
    let mut v = vec![];
    for s in sigs_all() {
        if s.len() <= if thorough { 8 } else { 6 } {
            for a in 0..1u64 << s.len() {
                v.push(BladeRow { sig: s.into(), a });
            }
        }
    }
    v
}

/// Products with a single term need no sums and are exact for numbers of any size.
fn wide_one<M: MvLike<f64>>(c: &Wide) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let (ma, a) = (wide_model(&c.a), wide_mv::<M>(&c.a));
    for t in c.b.chunks(1).take(3) {
        let (mt, t) = (wide_model(t), wide_mv::<M>(t));
        check("a * t", &a.mul_(&t, c.form), &alg.mul(&ma, &mt))?;
        check("t * a", &t.mul_(&a, c.form), &alg.mul(&mt, &ma))?;
        check("naive a * t", &a.naive_mul(&t), &alg.mul(&ma, &mt))?;
    }
    check("a", &a, &ma)
}
fn wide_numbers<A: ClAlgebra>(c: &Wide) -> Outcome {
    wide_one::<Multivector<f64, A>>(c)?;
    wide_one::<SparseMultivector<f64, A>>(c)
}

fn main() {
    Check::new("C01")
        .assume("the reference model (sorting of generators with contraction) is correct")
        .each(
            "every-pair-of-blades",
            "all pairs of basis blades of all listed signatures, dense and sparse; every case is a row of a multiplication table",
            blade_rows,
            |c| class(sig_label(&c.sig), true),
            |c| dispatch_all!(c.sig.as_str(), blades[](c)),
        )
        .law(
            "product-i64",
            "random pairs of integer multivectors of the listed signatures; non-trivial when both are non-zero",
            80_000,
            1_600_000,
            || two(sigs_all()),
            class_two,
            |c| dispatch_all!(c.sig.as_str(), both[i64](c)),
        )
        .law(
            "product-13-to-16-generators",
            "the same, dense and sparse, with 13 to 16 generators",
            1_600,
            30_000,
            || two(sigs_vast()),
            class_two,
            |c| dispatch_vast!(c.sig.as_str(), both[i64](c)),
        )
        .budget(300)
        .law(
            "product-many-generators",
            "random pairs of sparse integer multivectors with 12 to 48 generators; non-trivial when both are non-zero",
            20_000,
            400_000,
            || two(sigs_big()),
            class_two,
            |c| dispatch_big!(c.sig.as_str(), sparse_only[i64](c)),
        )
        .law(
            "product-all-index-bits",
            "random pairs of sparse integer multivectors with 63 and 64 generators; non-trivial when both are non-zero",
            20_000,
            200_000,
            || two(huge::sigs_huge()),
            class_two,
            |c| dispatch_huge!(c.sig.as_str(), sparse_only[i64](c)),
        )
        .law(
            "product-f64",
            "random pairs of multivectors with small integer values held as f64 (exact); non-trivial when both are non-zero",
            20_000,
            400_000,
            || two(sigs_few()),
            class_two,
            |c| dispatch_few!(c.sig.as_str(), both[f64](c)),
        )
        .law(
            "product-complex",
            "the same over complex numbers with small integer parts; non-trivial when both are non-zero",
            20_000,
            400_000,
            || two(sigs_few()),
            class_two,
            |c| dispatch_few!(c.sig.as_str(), both[C64](c)),
        )
        .law(
            "product-matrices",
            "the same over 2x2 matrices over a prime field (non-commutative); non-trivial when both are non-zero",
            20_000,
            400_000,
            || two(sigs_few()),
            class_two,
            |c| dispatch_few!(c.sig.as_str(), both[M2](c)),
        )
        .law(
            "ring-laws",
            "random triples over a prime field; non-trivial when all three are non-zero",
            20_000,
            400_000,
            || three(sigs_few(), 24),
            class_three,
            |c| dispatch_few!(c.sig.as_str(), ring_laws[Fp](c)),
        )
        .law_on(
            "product-any-finite-number",
            "products of multivectors with single terms, the numbers of any finite size; non-trivial when both are non-zero",
            (8_000, 200_000),
            || wide(sigs_few()),
            class_wide,
            valid_wide,
            |c| dispatch_few!(c.sig.as_str(), wide_numbers[](c)),
        )
        .main()
}
