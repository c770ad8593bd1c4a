//! C17: powers equal repeated products.
use checks::algs::*;
use checks::repr::*;
use checks::*;
use tclifford::{ClAlgebra, Multivector, SparseMultivector};
use tclifford::quaternion::Quaternion;
use vcore::rings::{Fp, M2};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Power {
    sig: String,
    a: Terms,
    n: usize,
    m: usize,
}

fn one<T: Coef, M: MvLike<T>>(c: &Power) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let m = model_of::<T>(&c.a);
    let a = M::build(&c.a);
    let p = a.pow_(c.n);
    check(&format!("power {}", c.n), &p, &alg.pow(&m, c.n))?;
    check("a", &a, &m)?;
    let q = a.pow_(c.m);
    let s = a.pow_(c.n + c.m);
    ensure(s == p.mul_(&q, 0), || format!("power {} is not the product of powers {} and {}", c.n + c.m, c.n, c.m))?;
    ensure(s == q.mul_(&p, 0), || format!("powers {} and {} do not commute", c.n, c.m))?;
    ensure(p.pow_(c.m) == a.pow_(c.n * c.m), || format!("power {} of power {} is not power {}", c.m, c.n, c.n * c.m))?;
    ensure(a.pow_(0).one_test(), || "power 0 is not one".into())?;
    ensure(a.pow_(1) == a, || "power 1 is not the element".into())
}
fn both<A: ClAlgebra, T: Coef>(c: &Power) -> Outcome {
    one::<T, Multivector<T, A>>(c)?;
    one::<T, SparseMultivector<T, A>>(c)
}
fn sparse_only<A: ClAlgebra, T: Coef>(c: &Power) -> Outcome {
    one::<T, SparseMultivector<T, A>>(c)
}

fn powers(sigs: Vec<&'static str>, cap: usize, top: usize) -> BoxedStrategy<Power> {
    pick(sigs)
        .prop_flat_map(move |s| {
            let d = s.len();
            let n = move || prop_oneof![2 => 0..=top.min(8), 2 => 0..=top];
            (Just(s), gens::terms(d, cap.min(cap_for(d))), n(), n())
        })
        .prop_map(|(sig, a, n, m)| Power { sig, a, n, m })
        .boxed()
}
fn class_power(c: &Power) -> Class {
    let n = gens::support(&c.a);
    let e = match c.n {
        0 | 1 => "0-1",
        2 | 3 => "2-3",
        4..=8 => "4-8",
        _ => "9+",
    };
    class(format!("dim {}, terms {}, exponent {e}", c.sig.len(), size_label(n)), n > 0 && c.n > 1)
}
fn in_alg(c: &Power) -> bool {
    c.a.iter().all(|(i, _)| i & !gens::mask(c.sig.len()) == 0)
}

/// Exponents of every size, among them powers of two and their neighbours
fn exponent(bits: u32) -> BoxedStrategy<usize> {
    prop_oneof![
        0usize..=20,
        0usize..=5000,
        (0usize..=1 << bits),
        (0u32..=bits, -1i64..=1).prop_map(|(k, e)| ((1i64 << k) + e) as usize),
        (0u32..bits, 0u32..bits).prop_map(|(k, l)| (1usize << k) + (1usize << l)),
    ]
    .boxed()
}

/// Powers of a blade with any exponent have a closed form.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Blade {
    sig: String,
    b: u64,
    c: i32,
    n: usize,
}

fn fp_pow(x: Fp, mut n: usize) -> Fp {
    let (mut r, mut b) = (Fp(1), x);
    while n > 0 {
        if n & 1 == 1 {
            r = r * b;
        }
        b = b * b;
        n >>= 1;
    }
    r
}
fn blade<A: ClAlgebra>(c: &Blade) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let x = Fp::new(c.c as i64);
    let s = match alg.sq(c.b) {
        0 if c.n >= 2 => 0,
        -1 if c.n / 2 % 2 == 1 => -1,
        _ => 1,
    };
    let want = Mv::from_terms([(if c.n % 2 == 1 { c.b } else { 0 }, fp_pow(x, c.n) * Fp::new(s))]);
    let t: Terms = vec![(c.b, [c.c, 0, 0, 0])];
    check(&format!("power {}", c.n), &SparseMultivector::<Fp, A>::build(&t).pow(c.n), &want)?;
    if alg.dim() <= 6 {
        check(&format!("power {}", c.n), &Multivector::<Fp, A>::build(&t).pow(c.n), &want)?;
        // a unit blade stays exact in the representation
        let u: Terms = vec![(c.b, [1, 0, 0, 0])];
        let one = Mv::from_terms([(if c.n % 2 == 1 { c.b } else { 0 }, C64::new(s as f64, 0.))]);
        close("power of a unit blade (representation)", &back(&mv_of::<C64, A>(&u).fft().pow(c.n)), &one, 1e-9)?;
    }
    Ok(())
}

/// Powers of a blade times a phase, and of one plus a null blade, have a closed form too.
fn unit<A: ClAlgebra>(c: &Blade) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let m = |t: &[(u64, C64)]| Multivector::<C64, A>::from_indexed_iter(t.iter().map(|(i, x)| (*i as usize, *x))).unwrap().fft();
    let one = C64::new(1., 0.);
    let sq = alg.sq(c.b);
    if sq == 0 {
        // 1 + n c b, all integers
        let x = C64::new((c.c % 16) as f64, 0.);
        let want = Mv::from_terms([(0, one), (c.b, x * c.n as f64)]);
        return close(&format!("power {} of one plus a null blade (representation)", c.n), &back(&m(&[(0, one), (c.b, x)]).pow(c.n)), &want, 1e-12 * (1. + l1(&want)));
    }
    let n = c.n % (1 << 22);
    let u = C64::from_polar(1., c.c as f64 / 7.);
    let s = if sq == -1 && n / 2 % 2 == 1 { -1. } else { 1. };
    let want = Mv::from_terms([(if n % 2 == 1 { c.b } else { 0 }, C64::from_polar(s, u.arg() * n as f64))]);
    close(&format!("power {n} of a blade times a phase (representation)"), &back(&m(&[(c.b, u)]).pow(n)), &want, 2e-14 * (n + 50) as f64)
}

/// Powers of random elements with exponents of any size; the model takes thirds of the exponent.
fn long<A: ClAlgebra>(c: &Power) -> Outcome {
    fn thirds(alg: &Alg, a: &Mv<Fp>, n: usize) -> Mv<Fp> {
        if n < 3 {
            return alg.pow(a, n);
        }
        let x = thirds(alg, a, n / 3);
        alg.mul(&alg.pow(&x, 3), &alg.pow(a, n % 3))
    }
    let want = thirds(&Alg::parse(&c.sig), &model_of::<Fp>(&c.a), c.n);
    check(&format!("power {}", c.n), &Multivector::<Fp, A>::build(&c.a).pow(c.n), &want)?;
    check(&format!("power {}", c.n), &SparseMultivector::<Fp, A>::build(&c.a).pow(c.n), &want)?;
    if c.sig == "--" {
        check(&format!("power {}", c.n), &Quaternion::<Fp>::build(&c.a).pow(c.n), &want)?;
    }
    Ok(())
}

fn repr<A: ClAlgebra>(c: &Power) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let m = cmodel::<C64>(&c.a);
    // keep the powers moderate
    let l = l1(&m);
    let k = if l > 1. { 1.25 / l } else { 1. };
    let m = m.map(|x| x * k);
    let f = relayout(Multivector::<C64, A>::from_indexed_iter(m.c.iter().map(|(i, x)| (*i as usize, *x))).unwrap().fft(), m.len());
    let g = f.clone();
    let tol = 1e-13 * (c.n + 2) as f64 * (l * k).max(1.).powi(c.n as i32);
    close(&format!("power {} (representation)", c.n), &back(&f.pow(c.n)), &alg.pow(&m, c.n), tol)?;
    ensure(f == g, || "the power changed its base".into())?;
    let tol = 1e-13 * (c.n + c.m + 2) as f64 * (l * k).max(1.).powi((c.n + c.m) as i32) * alg.side() as f64;
    ensure(f.pow(c.n + c.m).approx_eq(&(f.pow(c.n) * f.pow(c.m)), tol), || "exponents do not add up (representation)".into())?;
    ensure(f.pow(0).approx_eq(&num::One::one(), 1e-300), || "power 0 of a representation is not one".into())
}

/// A power is homogeneous, also for tiny and huge coefficients.
fn scales<A: ClAlgebra>(c: &Sized2) -> Outcome {
    let n = (c.f.unsigned_abs() % 6) as usize;
    let e = c.e / 2;
    let l = l1(&cmodel::<C64>(&c.a));
    let (a, x) = (mv_sized::<A>(&c.a, 0), mv_sized::<A>(&c.a, e));
    let tol = 1e-12 * l.powi(n as i32);
    same_scaled("power", all_coeffs(&x.pow(n)).into_iter(), e * n as i16, all_coeffs(&a.pow(n)).into_iter(), tol)?;
    same_scaled_repr("power of the representation", &x.fft().pow(n), e * n as i16, &a.fft().pow(n), tol)
}

/// Powers of idempotents, involutions and nilpotents, scaled and shifted.
fn special<A: ClAlgebra>(c: &Special) -> Outcome {
    let (p, q) = c.elements();
    let (x, n) = (c.factor() / 2., c.n);
    let one = Mv::scalar(C64::new(1., 0.));
    // (a + b p)^n = a^n + ((a + b)^n - a^n) p, (a + b q)^n = a^n + n a^(n-1) b q
    let pw = |v: f64| v.powi(n as i32);
    let mut all = vec![];
    for (a, b) in [(0., 1.), (0., x), (-1., 2.), (1., x - 1.)] {
        all.push((one.map(|v| v * a).add(&p.map(|v| v * b)), one.map(|v| v * pw(a)).add(&p.map(|v| v * (pw(a + b) - pw(a))))));
    }
    if let Some(q) = q {
        let first = |a: f64| if n == 0 { 0. } else { n as f64 * a.powi(n as i32 - 1) };
        for (a, b) in [(0., 1.), (0., x), (1., x), (-1., 1.)] {
            all.push((one.map(|v| v * a).add(&q.map(|v| v * b)), one.map(|v| v * pw(a)).add(&q.map(|v| v * (b * first(a))))));
        }
    }
    for (m, want) in all {
        let tol = 1e-11 * (1. + x.abs() + (1. + x.abs()).powi(n as i32));
        let d = Multivector::<C64, A>::from_indexed_iter(m.c.iter().map(|(i, v)| (*i as usize, *v))).unwrap();
        close(&format!("power {n} (dense)"), &read(&d.pow(n)), &want, tol)?;
        close(&format!("power {n} (sparse)"), &read(&d.to_sparse().pow(n).to_dense()), &want, tol)?;
        close(&format!("power {n} (representation)"), &back(&relayout(d.fft(), n).pow(n)), &want, tol)?;
    }
    Ok(())
}

fn main() {
    Check::new("C17")
        .assume("the reference multiplies n copies one after another")
        .law(
            "prime-field",
            "random multivectors of all signatures, dense and sparse, exponents up to 24; non-trivial when non-zero with an exponent above one",
            12_000,
            300_000,
            || powers(sigs_all().into_iter().filter(|s| s.len() <= 6).collect(), 12, 24),
            class_power,
            |c| dispatch_all!(c.sig.as_str(), both[Fp](c)),
        )
        .law(
            "prime-field-7-to-10-generators",
            "the same with 7 to 10 generators, few terms and exponents up to 12",
            2_000,
            50_000,
            || powers(sigs_all().into_iter().filter(|s| (7..=10).contains(&s.len())).collect(), 4, 12),
            class_power,
            |c| dispatch_all!(c.sig.as_str(), both[Fp](c)),
        )
        .law(
            "prime-field-13-to-16-generators",
            "the same with 13 to 16 generators, few terms and exponents up to 8",
            160,
            4_000,
            || powers(sigs_vast(), 3, 8),
            class_power,
            |c| dispatch_vast!(c.sig.as_str(), both[Fp](c)),
        )
        .budget(300)
        .law(
            "large-exponents",
            "the same with up to three generators and exponents up to 400",
            6_000,
            150_000,
            || powers(sigs_all().into_iter().filter(|s| s.len() <= 3).collect(), 8, 400),
            class_power,
            |c| dispatch_all!(c.sig.as_str(), both[Fp](c)),
        )
        .law(
            "many-generators",
            "the same, sparse, with 12 to 48 generators, two terms and exponents up to 12",
            4_000,
            100_000,
            || powers(sigs_big(), 3, 12),
            class_power,
            |c| dispatch_big!(c.sig.as_str(), sparse_only[Fp](c)),
        )
        .law(
            "matrices",
            "the same over 2x2 matrices",
            6_000,
            150_000,
            || powers(sigs_few().into_iter().filter(|s| s.len() <= 5).collect(), 10, 12),
            class_power,
            |c| dispatch_few!(c.sig.as_str(), both[M2](c)),
        )
        .law_on(
            "quaternions",
            "the same for the quaternion type over the prime field",
            (6_000, 150_000),
            || powers(vec!["--"], 4, 60),
            class_power,
            |c| c.sig == "--" && in_alg(c),
            one::<Fp, Quaternion<Fp>>,
        )
        .law_on(
            "blades",
            "multiples of one blade and any exponent up to 2^62, compared to the closed form",
            (12_000, 300_000),
            || {
                pick(sigs_all())
                    .prop_flat_map(|s| {
                        let d = s.len();
                        let n = exponent(62);
                        (Just(s), any::<u64>().prop_map(move |b| b & gens::mask(d)), -99i32..=99, n)
                    })
                    .prop_map(|(sig, b, c, n)| Blade { sig, b, c, n })
                    .boxed()
            },
            |c| class(format!("dim {}, square {}", c.sig.len(), Alg::parse(&c.sig).sq(c.b)), c.c != 0 && c.n > 1),
            |c| c.b & !gens::mask(c.sig.len()) == 0,
            |c| dispatch_all!(c.sig.as_str(), blade[](c)),
        )
        .law_on(
            "long-exponents",
            "random multivectors over the prime field with up to 4 generators and any exponent up to 2^62, compared to a model that takes thirds of the exponent; non-trivial when not zero and the exponent exceeds 1",
            (8_000, 200_000),
            || {
                pick(sigs_all().into_iter().filter(|s| s.len() <= 4).collect())
                    .prop_flat_map(|s| {
                        let d = s.len();
                        (Just(s), gens::terms(d, 8), exponent(62))
                    })
                    .prop_map(|(sig, a, n)| Power { sig, a, n, m: 0 })
                    .boxed()
            },
            |c| class(format!("dim {}, exponent of {} bits", c.sig.len(), (usize::BITS - c.n.leading_zeros()).div_ceil(8) * 8), gens::support(&c.a) > 0 && c.n > 1),
            in_alg,
            |c| dispatch_all!(c.sig.as_str(), long[](c)),
        )
        .law_on(
            "unit-representations",
            "powers of the matrix representation of a blade times a phase (exponents to 2^22) or of one plus a null blade (to 2^40), compared to the closed form",
            (6_000, 150_000),
            || {
                pick(sigs_all().into_iter().filter(|s| s.len() <= 8).collect())
                    .prop_flat_map(|s| {
                        let d = s.len();
                        let n = prop_oneof![exponent(21), exponent(39)];
                        (Just(s), any::<u64>().prop_map(move |b| b & gens::mask(d)), -99i32..=99, n)
                    })
                    .prop_map(|(sig, b, c, n)| Blade { sig, b, c, n })
                    .boxed()
            },
            |c| class(format!("dim {}, square {}", c.sig.len(), Alg::parse(&c.sig).sq(c.b)), c.c != 0 && c.n > 1),
            |c| c.b & !gens::mask(c.sig.len()) == 0 && c.n <= 1 << 40,
            |c| dispatch_all!(c.sig.as_str(), unit[](c)),
        )
        .law_on(
            "representations",
            "powers of matrix representations of random complex multivectors, exponents up to 24",
            (8_000, 200_000),
            || powers(sigs_all().into_iter().filter(|s| s.len() <= 6).collect(), 12, 24),
            class_power,
            |c| in_alg(c) && c.n <= 100 && c.m <= 100,
            |c| dispatch_all!(c.sig.as_str(), repr[](c)),
        )
        .law_on(
            "representations-7-and-more-generators",
            "the same with 7 to 12 generators and exponents up to 8",
            (1_500, 40_000),
            || powers(sigs_all().into_iter().filter(|s| s.len() >= 7).collect(), 4, 8),
            class_power,
            |c| in_alg(c) && c.n <= 100 && c.m <= 100,
            |c| dispatch_all!(c.sig.as_str(), repr[](c)),
        )
        .law_on(
            "scales",
            "powers up to the fifth of complex multivectors scaled by powers of two between 2^-150 and 2^150; non-trivial when not zero",
            (4_000, 80_000),
            || sized(sigs_few().into_iter().filter(|s| s.len() <= 6).collect(), 24),
            class_sized,
            valid_sized,
            |c| dispatch_few!(c.sig.as_str(), scales[](c)),
        )
        .law_on(
            "idempotents-and-nilpotents",
            "powers of scaled and shifted idempotents, involutions and nilpotents, compared to the closed form; non-trivial when the idempotent is neither zero nor one",
            (3_000, 80_000),
            || specials(sigs_all()),
            class_special,
            valid_special,
            |c| dispatch_all!(c.sig.as_str(), special[](c)),
        )
        .main()
}
