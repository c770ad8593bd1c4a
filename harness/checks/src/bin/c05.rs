//! C05: reversal, grade involution and subspace flips are the right (anti)automorphisms.
use checks::algs::*;
use checks::*;
use tclifford::{ClAlgebra, Multivector, SparseMultivector};
use vcore::rings::{Fp, M2};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Masked {
    sig: String,
    a: Terms,
    mask: u64,
}

fn masked(sigs: Vec<&'static str>) -> BoxedStrategy<Masked> {
    pick(sigs)
        .prop_flat_map(|s| {
            let d = s.len();
            (Just(s), caps(d).prop_flat_map(move |cap| gens::terms(d, cap)), any::<u64>(), 0u8..6)
        })
        .prop_map(|(sig, a, m, k)| {
            let full = gens::mask(sig.len());
            let mask = match k {
                0 => 0,
                1 => full,
                2 => 1 << (m % sig.len() as u64),
                3 => m, // may select generators that do not exist
                _ => m & full,
            };
            Masked { sig, a, mask }
        })
        .boxed()
}

fn class_masked(c: &Masked) -> Class {
    let x = gens::support(&c.a);
    class(format!("dim {}, terms {}", c.sig.len(), size_label(x)), x > 0)
}

fn invol<T: Coef, M: MvLike<T>>(c: &Masked) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let ma = model_of::<T>(&c.a);
    let a = M::build(&c.a);
    check("rev", &a.rev_(), &alg.rev(&ma))?;
    check("flip", &a.flip_(), &alg.flip(&ma, u64::MAX))?;
    check("flip_subspace", &a.flip_sub(c.mask as usize), &alg.flip(&ma, c.mask))?;
    check("rev rev", &a.rev_().rev_(), &ma)?;
    check("flip flip", &a.flip_().flip_(), &ma)?;
    check("operand", &a, &ma)
}
fn both<A: ClAlgebra, T: Coef>(c: &Masked) -> Outcome {
    invol::<T, Multivector<T, A>>(c)?;
    invol::<T, SparseMultivector<T, A>>(c)
}
fn sparse_only<A: ClAlgebra, T: Coef>(c: &Masked) -> Outcome {
    invol::<T, SparseMultivector<T, A>>(c)
}

/// Reversal by definition: multiply the generators of a blade in the opposite order.
fn rev_by_products<A: ClAlgebra>(c: &(String, u64)) -> Outcome {
    let alg = Alg::parse(&c.0);
    let mut p = SparseMultivector::<i64, A>::one_();
    let mut q = SparseMultivector::<i64, A>::one_();
    for g in (0..alg.dim()).rev() {
        if c.1 >> g & 1 == 1 {
            let e = SparseMultivector::<i64, A>::build(&vec![(1 << g, [1; 4])]);
            p = &p * &e;
            q = &e * &q;
        }
    }
    ensure(p.rev() == q, || "the reversal is not the product in the opposite order".into())?;
    ensure(p.to_dense().rev() == q.to_dense(), || "dense reversal".into())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct TwoM {
    sig: String,
    a: Terms,
    b: Terms,
    mask: u64,
}

fn autos<A: ClAlgebra, T: Coef>(c: &TwoM) -> Outcome {
    fn go<T: Coef, M: MvLike<T>>(c: &TwoM) -> Outcome {
        let (a, b) = (M::build(&c.a), M::build(&c.b));
        let p = a.mul_(&b, 0);
        let m = c.mask as usize;
        ensure(p.flip_() == a.flip_().mul_(&b.flip_(), 0), || format!("{}: flip(ab) != flip(a) flip(b)", M::KIND))?;
        ensure(p.flip_sub(m) == a.flip_sub(m).mul_(&b.flip_sub(m), 0), || {
            format!("{}: the subspace flip does not respect the product", M::KIND)
        })?;
        if T::NAME != "m2" {
            ensure(p.rev_() == b.rev_().mul_(&a.rev_(), 0), || format!("{}: rev(ab) != rev(b) rev(a)", M::KIND))?;
        }
        let s = a.add_(&b, 0);
        ensure(s.rev_() == a.rev_().add_(&b.rev_(), 0), || format!("{}: rev is not additive", M::KIND))?;
        ensure(s.flip_sub(m) == a.flip_sub(m).add_(&b.flip_sub(m), 0), || format!("{}: flip is not additive", M::KIND))
    }
    go::<T, Multivector<T, A>>(c)?;
    go::<T, SparseMultivector<T, A>>(c)
}

fn two_m() -> BoxedStrategy<TwoM> {
    (two(sigs_few()), any::<u64>())
        .prop_map(|(t, m)| TwoM { mask: m & gens::mask(t.sig.len()), sig: t.sig, a: t.a, b: t.b })
        .boxed()
}
fn class_two_m(c: &TwoM) -> Class {
    let (x, y) = (gens::support(&c.a), gens::support(&c.b));
    class(format!("dim {}, terms {} x {}", c.sig.len(), size_label(x), size_label(y)), x > 0 && y > 0)
}

fn complex_rev<A: ClAlgebra>(c: &OneMv) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let ma = model_of::<C64>(&c.a);
    let want = alg.rev(&ma).map(|z| z.conj());
    check("revc", &Multivector::<C64, A>::build(&c.a).revc(), &want)?;
    check("revc", &SparseMultivector::<C64, A>::build(&c.a).revc(), &want)?;
    let mr = model_of::<f64>(&c.a);
    let want = alg.rev(&mr);
    check("revc of reals", &Multivector::<f64, A>::build(&c.a).revc(), &want)?;
    check("revc of reals", &SparseMultivector::<f64, A>::build(&c.a).revc(), &want)
}

/// Only signs change, whatever the size of the numbers.
fn wide_one<M: MvLike<f64>>(c: &Wide) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let (ma, a) = (wide_model(&c.a), wide_mv::<M>(&c.a));
    check("rev", &a.rev_(), &alg.rev(&ma))?;
    check("flip", &a.flip_(), &alg.flip(&ma, u64::MAX))?;
    check("flip_subspace", &a.flip_sub(c.s as usize), &alg.flip(&ma, c.s))?;
    check("rev rev", &a.rev_().rev_(), &ma)?;
    check("operand", &a, &ma)
}
fn wide_numbers<A: ClAlgebra>(c: &Wide) -> Outcome {
    wide_one::<Multivector<f64, A>>(c)?;
    wide_one::<SparseMultivector<f64, A>>(c)
}

fn main() {
    Check::new("C05")
        .assume("the reference model is correct")
        .each(
            "reversed-products",
            "every basis blade of the signatures with up to 6 (thorough: 8) generators, as products of generators in both orders",
            |t| {
                let mut v = vec![];
                for s in sigs_all() {
                    if s.len() <= if t { 8 } else { 6 } {
                        for a in 0..1u64 << s.len() {
                            v.push((s.to_string(), a));
                        }
                    }
                }
                v
            },
            |c| class(format!("dim {}", c.0.len()), true),
            |c| dispatch_all!(c.0.as_str(), rev_by_products[](c)),
        )
        .law(
            "involutions-i64",
            "random integer multivectors of the listed signatures and random subspace masks; non-trivial when non-zero",
            50_000,
            1_000_000,
            || masked(sigs_all()),
            class_masked,
            |c| dispatch_all!(c.sig.as_str(), both[i64](c)),
        )
        .law(
            "involutions-13-to-16-generators",
            "the same, dense and sparse, with 13 to 16 generators",
            1_600,
            30_000,
            || masked(sigs_vast()),
            class_masked,
            |c| dispatch_vast!(c.sig.as_str(), both[i64](c)),
        )
        .budget(300)
        .law(
            "involutions-many-generators",
            "the same, sparse, with 12 to 48 generators",
            20_000,
            400_000,
            || masked(sigs_big()),
            class_masked,
            |c| dispatch_big!(c.sig.as_str(), sparse_only[i64](c)),
        )
        .law(
            "involutions-matrices",
            "the same over 2x2 matrices",
            10_000,
            200_000,
            || masked(sigs_few()),
            class_masked,
            |c| dispatch_few!(c.sig.as_str(), both[M2](c)),
        )
        .law(
            "automorphisms",
            "products and sums of random pairs over a prime field; non-trivial when both are non-zero",
            16_000,
            320_000,
            two_m,
            class_two_m,
            |c| dispatch_few!(c.sig.as_str(), autos[Fp](c)),
        )
        .law(
            "automorphisms-matrices",
            "flips of products over non-commutative coefficients",
            8_000,
            160_000,
            two_m,
            class_two_m,
            |c| dispatch_few!(c.sig.as_str(), autos[M2](c)),
        )
        .law(
            "complex-reversal",
            "random complex and real multivectors; non-trivial when non-zero",
            16_000,
            320_000,
            || one_mv(sigs_few()),
            class_one,
            |c| dispatch_few!(c.sig.as_str(), complex_rev[](c)),
        )
        .law_on(
            "involutions-any-finite-number",
            "the same with f64 numbers of any finite size; non-trivial when non-zero",
            (8_000, 200_000),
            || wide(sigs_few()),
            class_wide,
            valid_wide,
            |c| dispatch_few!(c.sig.as_str(), wide_numbers[](c)),
        )
        .main()
}
