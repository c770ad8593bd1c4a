//! C16: the exponential agrees with its power series in every form.
use checks::algs::*;
use checks::repr::*;
use checks::*;
use tclifford::{ClAlgebra, Multivector, Norm, SparseMultivector};

/// A multivector scaled to a given sum of norms of its coefficients.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Arg {
    sig: String,
    a: Terms,
    /// In hundredths
    size: u32,
    complex: bool,
}

fn argument(c: &Arg) -> Mv<C64> {
    let m = Mv::from_terms(c.a.iter().map(|(i, k)| {
        (*i, if c.complex { <C64 as Fc>::mk(k) } else { C64::new(<f64 as Fc>::mk(k), 0.) })
    }));
    let n = l1(&m);
    if n == 0. {
        m
    } else {
        m.map(|x| x * (c.size as f64 / 100. / n))
    }
}

/// Power series of a / 2^k, squared k times.
fn series(alg: &Alg, a: &Mv<C64>) -> Mv<C64> {
    let mut k = 0;
    let mut x = a.clone();
    while l1(&x) > 0.5 {
        x = x.map(|v| v * 0.5);
        k += 1;
    }
    let one = Mv::scalar(C64::new(1., 0.));
    // 1 + x (1 + x/2 (1 + x/3 (...)))
    let mut r = one.clone();
    for i in (1..=16).rev() {
        r = one.add(&alg.mul(&x, &r).map(|v| v / i as f64));
    }
    for _ in 0..k {
        r = alg.mul(&r, &r);
    }
    r
}

trait Scalar: Fc + Norm + From<f64> {
    fn of(c: C64) -> Self;
}
impl Scalar for f64 {
    fn of(c: C64) -> f64 {
        c.re
    }
}
impl Scalar for C64 {
    fn of(c: C64) -> C64 {
        c
    }
}

fn dense<T: Scalar, A: ClAlgebra>(m: &Mv<C64>) -> Multivector<T, A> {
    Multivector::from_indexed_iter(m.c.iter().map(|(i, x)| (*i as usize, T::of(*x)))).unwrap()
}
fn sparse<T: Scalar, A: ClAlgebra>(m: &Mv<C64>) -> SparseMultivector<T, A> {
    SparseMultivector::from_indexed_iter(m.c.iter().map(|(i, x)| (*i as usize, T::of(*x)))).unwrap()
}

fn forms<A: ClAlgebra, T: Scalar>(m: &Mv<C64>, want: &Mv<C64>, tol: f64) -> Outcome {
    let d = dense::<T, A>(m);
    let e = d.exp();
    close("exp (dense)", &read(&e), want, tol)?;
    close("argument (dense)", &read(&d), m, 0.)?;
    let s = sparse::<T, A>(m).exp();
    close("exp (sparse)", &Mv::from_terms(s.coeff_enumerate().map(|(i, c)| (i as u64, c.c64()))), want, tol)?;
    let f = relayout(d.fft(), m.len());
    let g = f.exp();
    same("shape of the exponential", &g.shape(), &f.shape())?;
    close("exp (representation)", &back(&g), want, tol)?;
    close("exp (representation, read as the scalar type)", &read(&g.ifft::<T>()), want, tol)?;

    let n = dense::<T, A>(&m.neg()).exp();
    let one = Mv::scalar(C64::new(1., 0.));
    let size: f64 = l1(&read(&e)) * l1(&read(&n));
    close("exp(a) exp(-a)", &read(&(&e * &n)), &one, 1e-12 * size.max(1.) + tol * (l1(&read(&n)) + l1(want)))?;
    Ok(())
}

fn test<A: ClAlgebra>(c: &Arg) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let m = argument(c);
    let want = series(&alg, &m);
    let tol = 2e-13 * (1. + l1(&m)) * l1(&m).exp();
    if c.complex {
        forms::<A, C64>(&m, &want, tol)
    } else {
        forms::<A, f64>(&m, &want, tol)
    }
}

fn args(sigs: Vec<&'static str>, cap: usize) -> BoxedStrategy<Arg> {
    pick(sigs)
        .prop_flat_map(move |s| {
            let d = s.len();
            let size = prop_oneof![
                2 => 0u32..=100,
                2 => 100u32..=300,
                1 => 300u32..=1000,
                2 => proptest::sample::select(vec![1u32, 50, 99, 100, 101, 200, 300, 400, 500, 600, 700]),
            ];
            (Just(s), gens::terms(d, cap), size, any::<bool>())
        })
        .prop_map(|(sig, a, size, complex)| Arg { sig, a, size, complex })
        .boxed()
}
fn valid(c: &Arg) -> bool {
    c.size <= 1000 && c.a.len() <= 80 && c.a.iter().all(|(i, _)| i & !gens::mask(c.sig.len()) == 0)
}
fn class_arg(c: &Arg) -> Class {
    let n = gens::support(&c.a);
    let s = match c.size {
        0..=99 => "below 1",
        100..=300 => "1 to 3",
        _ => "3 to 10",
    };
    class(
        format!("dim {}, terms {}, size {s}, {}", c.sig.len(), size_label(n), if c.complex { "complex" } else { "real" }),
        n > 1 && c.size > 0,
    )
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Blade {
    sig: String,
    b: u64,
    re: i32,
    im: i32,
    scalar: i32,
}

fn blade<A: ClAlgebra>(c: &Blade) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let (x, s) = (C64::new(c.re as f64 / 64., c.im as f64 / 64.), c.scalar as f64 / 16.);
    let b = c.b;
    if b == 0 {
        return Ok(());
    }
    let m = Mv::from_terms([(0, C64::new(s, 0.)), (b, x)]);
    let (p, q) = match alg.sq(b) {
        1 => (x.cosh(), x.sinh()),
        -1 => (x.cos(), x.sin()),
        _ => (C64::new(1., 0.), x),
    };
    let want = Mv::from_terms([(0, p * s.exp()), (b, q * s.exp())]);
    // the norm of the parts, not of their sum, limits the precision
    let size = match alg.sq(b) {
        1 => x.re.abs(),
        -1 => x.im.abs(),
        _ => x.norm().min(2.),
    };
    let tol = 3e-14 * (1. + x.norm() + s.abs()) * (1. + x.norm() + s.abs()) * (size + s.abs()).exp() * (1. + x.norm());
    if c.im == 0 {
        forms::<A, f64>(&m, &want, tol)
    } else {
        forms::<A, C64>(&m, &want, tol)
    }
}

/// A large multiple of one blade: rotations and translations stay small, boosts are compared relatively.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Large {
    sig: String,
    b: u64,
    x: i32,
}
fn large<A: ClAlgebra>(c: &Large) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let sq = alg.sq(c.b);
    // up to 1024, nilpotent blades up to 2^26, growing ones up to 256
    let x = match sq {
        _ if c.b == 0 => c.x as f64 / 256.,
        1 => c.x as f64 / 256.,
        -1 => c.x as f64 / 64.,
        _ => c.x as f64 * 1024.,
    };
    let m = Mv::from_terms([(c.b, C64::new(x, 0.))]);
    let (want, scale) = match sq {
        _ if c.b == 0 => (Mv::scalar(C64::new(x.exp(), 0.)), x.exp()),
        1 => (Mv::from_terms([(0, C64::new(x.cosh(), 0.)), (c.b, C64::new(x.sinh(), 0.))]), x.cosh()),
        -1 => (Mv::from_terms([(0, C64::new(x.cos(), 0.)), (c.b, C64::new(x.sin(), 0.))]), 1.),
        _ => (Mv::from_terms([(0, C64::new(1., 0.)), (c.b, C64::new(x, 0.))]), 1. + x.abs()),
    };
    let tol = 1e-14 * (10. + if sq == 0 { 0. } else { x.abs() }) * scale;
    let d = dense::<f64, A>(&m);
    close("exp (dense)", &read(&d.exp()), &want, tol)?;
    let s = sparse::<f64, A>(&m).exp();
    close("exp (sparse)", &Mv::from_terms(s.coeff_enumerate().map(|(i, c)| (i as u64, c.c64()))), &want, tol)?;
    close("exp (representation)", &back(&d.fft().exp()), &want, 4. * tol)
}

/// Commuting blades: exp(a + b) = exp(a) exp(b)
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Commuting {
    sig: String,
    terms: Vec<(u64, i32)>,
}

fn commuting<A: ClAlgebra>(c: &Commuting) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let mut used: Vec<(u64, f64)> = vec![];
    for (b, x) in &c.terms {
        if used.iter().all(|(u, _)| u != b && (alg.sq(*u) == 0 || alg.geo(*u, *b) == alg.geo(*b, *u))) && alg.sq(*b) != 0 {
            used.push((*b, *x as f64 / 32.));
        }
    }
    let m = Mv::from_terms(used.iter().map(|(b, x)| (*b, C64::new(*x, 0.))));
    let mut want = Mv::scalar(C64::new(1., 0.));
    for (b, x) in &used {
        let f = match alg.sq(*b) {
            1 => [x.cosh(), x.sinh()],
            _ => [x.cos(), x.sin()],
        };
        let f = if *b == 0 { Mv::scalar(C64::new(x.exp(), 0.)) } else { Mv::from_terms([(0, C64::new(f[0], 0.)), (*b, C64::new(f[1], 0.))]) };
        want = alg.mul(&want, &f);
    }
    let n = l1(&m);
    forms::<A, f64>(&m, &want, 2e-13 * (1. + n) * n.exp())
}

fn commutings() -> BoxedStrategy<Commuting> {
    // many blades of even grade, the later ones are dropped when they do not commute
    pick(sigs_nondeg().into_iter().filter(|s| s.len() <= 8).collect())
        .prop_flat_map(|s| {
            let d = s.len();
            let step = prop_oneof![1 => Just(1u64), 1 => Just(3)];
            (Just(s), proptest::collection::vec((any::<u64>(), step, -32i32..=32), 1..40)).prop_map(move |(sig, v)| Commuting {
                sig,
                terms: v.into_iter().map(|(b, s, x)| (b.wrapping_mul(s) & gens::mask(d), x)).collect(),
            })
        })
        .boxed()
}

/// A tiny argument still moves the result: exp(a) - 1 is a + a^2 / 2 + ...
fn tiny<A: ClAlgebra>(c: &Sized2) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let l = l1(&cmodel::<C64>(&c.a)).max(1.);
    // 2^-6 down to 2^-40
    let e = -6 - c.e.abs() % 35;
    let t = exp2(e);
    let m = cmodel::<C64>(&c.a).map(|x| x * (t / l));
    let want = series(&alg, &m);
    let x = dense::<C64, A>(&m);
    let one = Mv::scalar(C64::new(1., 0.));
    // rounding of the scalar part is absolute, the other parts are as precise as the argument
    let parts = |what: &str, got: Mv<C64>, other: f64| {
        close_c(&format!("scalar part of {what}"), got.get(0), want.get(0), 1e-14)?;
        close(what, &got.sub(&Mv::scalar(got.get(0))), &want.sub(&Mv::scalar(want.get(0))), other)
    };
    parts("exp (dense)", read(&x.exp()), 1e-13 * t)?;
    parts("exp (sparse)", read(&sparse::<C64, A>(&m).exp().to_dense()), 1e-13 * t)?;
    parts("exp (representation)", back(&x.fft().exp()), 1e-15 + 1e-13 * t)?;
    ensure(l1(&want.sub(&one)) <= 2. * t, || "the reference is wrong".into())
}

/// exp(x p) = 1 + (e^x - 1) p when p p = p, exp(x (2 p - 1)) = cosh x + (2 p - 1) sinh x,
/// exp(x q) = 1 + x q when q q = 0
fn special<A: ClAlgebra>(c: &Special) -> Outcome {
    let (p, q) = c.elements();
    let x = c.factor();
    let one = Mv::scalar(C64::new(1., 0.));
    let run = |m: Mv<C64>, want: Mv<C64>| {
        let n = l1(&m);
        let tol = 2e-13 * (1. + n) * n.exp();
        if c.complex {
            forms::<A, C64>(&m, &want, tol)
        } else {
            forms::<A, f64>(&m, &want, tol)
        }
    };
    run(p.map(|v| v * x), one.add(&p.map(|v| v * x.exp_m1())))?;
    let s = p.add(&p).sub(&one);
    run(s.map(|v| v * x), one.map(|v| v * x.cosh()).add(&s.map(|v| v * x.sinh())))?;
    match q {
        Some(q) => run(q.map(|v| v * x), one.add(&q.map(|v| v * x))),
        None => Ok(()),
    }
}

fn main() {
    Check::new("C16")
        .assume("the sum of norms of the coefficients is at most 10 (blades: 16), tolerances grow with its exponential")
        .assume("the reference is the power series of a halved argument, squared back")
        .law_on(
            "series",
            "random real and complex multivectors of all signatures scaled to a size between 0 and 10; non-trivial with two terms",
            (6_000, 200_000),
            || args(sigs_all().into_iter().filter(|s| s.len() <= 6).collect(), 20),
            class_arg,
            valid,
            |c| dispatch_all!(c.sig.as_str(), test[](c)),
        )
        .law_on(
            "series-many-generators",
            "the same with seven to ten generators and few terms",
            (800, 20_000),
            || args(sigs_all().into_iter().filter(|s| s.len() > 6).collect(), 4),
            class_arg,
            valid,
            |c| dispatch_all!(c.sig.as_str(), test[](c)),
        )
        .law_on(
            "blades",
            "a scalar and a multiple of one blade, compared to the closed form; non-trivial when the blade has a non-zero coefficient",
            (8_000, 200_000),
            || {
                pick(sigs_all())
                    .prop_flat_map(|s| {
                        let d = s.len();
                        (
                            Just(s),
                            any::<u64>().prop_map(move |b| b & gens::mask(d)),
                            prop_oneof![-64i32..=64, -1024i32..=1024],
                            prop_oneof![2 => Just(0), 1 => -64i32..=64],
                            prop_oneof![2 => Just(0), 1 => -64i32..=64],
                        )
                    })
                    .prop_map(|(sig, b, re, im, scalar)| Blade { sig, b, re, im, scalar })
                    .boxed()
            },
            |c| {
                let k = if c.b == 0 { 2 } else { Alg::parse(&c.sig).sq(c.b) };
                class(format!("dim {}, square {k}", c.sig.len()), c.b != 0 && (c.re != 0 || c.im != 0))
            },
            |c| c.b & !gens::mask(c.sig.len()) == 0 && c.re.abs() <= 1024 && c.im.abs() <= 64 && c.scalar.abs() <= 64,
            |c| dispatch_all!(c.sig.as_str(), blade[](c)),
        )
        .law_on(
            "large",
            "large multiples of one blade, real: up to 1024 when it squares to minus one, 256 when to one, 2^26 when to zero; non-trivial when above 16",
            (4_000, 80_000),
            || {
                pick(sigs_all().into_iter().filter(|s| s.len() <= 10).collect())
                    .prop_flat_map(|s| {
                        let d = s.len();
                        (Just(s), any::<u64>().prop_map(move |b| b & gens::mask(d)), prop_oneof![-65536i32..=65536, -4096i32..=4096])
                    })
                    .prop_map(|(sig, b, x)| Large { sig, b, x })
                    .boxed()
            },
            |c| {
                let k = if c.b == 0 { 2 } else { Alg::parse(&c.sig).sq(c.b) };
                class(format!("dim {}, square {k}", c.sig.len()), c.x.abs() > 4096)
            },
            |c| c.b & !gens::mask(c.sig.len()) == 0 && c.x.abs() <= 65536,
            |c| dispatch_all!(c.sig.as_str(), large[](c)),
        )
        .law_on(
            "commuting",
            "sums of commuting blades, compared to the product of closed forms; non-trivial with two terms",
            (2_500, 60_000),
            commutings,
            |c| class(format!("dim {}", c.sig.len()), c.terms.len() > 1),
            |c| c.terms.len() <= 40 && c.terms.iter().all(|(b, x)| b & !gens::mask(c.sig.len()) == 0 && x.abs() <= 32),
            |c| dispatch_nondeg!(c.sig.as_str(), commuting[](c)),
        )
        .law_on(
            "tiny",
            "arguments of size 2^-6 to 2^-40; the parts other than the scalar are compared relative to the argument; non-trivial when not zero",
            (4_000, 80_000),
            || sized(sigs_few().into_iter().filter(|s| s.len() <= 7).collect(), 12),
            class_sized,
            valid_sized,
            |c| dispatch_few!(c.sig.as_str(), tiny[](c)),
        )
        .law_on(
            "idempotents-and-nilpotents",
            "multiples of idempotents, of involutions and of nilpotents made of commuting blades, compared to the closed form; non-trivial when the idempotent is neither zero nor one",
            (1_500, 40_000),
            || specials(sigs_all()),
            class_special,
            valid_special,
            |c| dispatch_all!(c.sig.as_str(), special[](c)),
        )
        .main()
}
