//! C13: inversion of a representation finds the inverse exactly when there is one.
use checks::algs::*;
use checks::repr::*;
use checks::*;
use ndarray::Array2;
use tclifford::algebra::NonDegenerate;
use tclifford::{ClAlgebra, FFTRepr, Multivector, One, Zero};

type M = Array2<C64>;

/// Inverse by Gauss-Jordan elimination with full pivoting.
fn reference_inverse(a: &M) -> Option<M> {
    let n = a.nrows();
    let mut a = a.clone();
    let mut b = M::eye(n);
    let mut col: Vec<usize> = (0..n).collect();
    for k in 0..n {
        let mut best = (k, k);
        let mut big = -1.;
        for i in k..n {
            for j in k..n {
                if a[(i, j)].norm() > big {
                    big = a[(i, j)].norm();
                    best = (i, j);
                }
            }
        }
        if !(big > 0.) {
            return None;
        }
        for j in 0..n {
            a.swap((k, j), (best.0, j));
            b.swap((k, j), (best.0, j));
        }
        for i in 0..n {
            a.swap((i, k), (i, best.1));
        }
        col.swap(k, best.1);
        let p = a[(k, k)];
        for j in 0..n {
            a[(k, j)] /= p;
            b[(k, j)] /= p;
        }
        for i in 0..n {
            if i != k {
                let f = a[(i, k)];
                if f.norm() != 0. {
                    for j in 0..n {
                        let (x, y) = (a[(k, j)], b[(k, j)]);
                        a[(i, j)] -= f * x;
                        b[(i, j)] -= f * y;
                    }
                }
            }
        }
    }
    let mut r = M::zeros((n, n));
    for k in 0..n {
        for j in 0..n {
            r[(col[k], j)] = b[(k, j)];
        }
    }
    Some(r)
}

fn norm(a: &M) -> f64 {
    a.rows().into_iter().map(|r| r.iter().map(|x| x.norm()).sum::<f64>()).fold(0., f64::max)
}

/// Condition number, infinite for singular matrices
fn condition(a: &M) -> f64 {
    match reference_inverse(a) {
        None => f64::INFINITY,
        Some(i) => {
            let c = norm(a) * norm(&i);
            if c.is_finite() {
                c
            } else {
                f64::INFINITY
            }
        }
    }
}

const WELL: f64 = 1e6;

fn dot(a: &M, b: &M) -> M {
    let n = a.nrows();
    let mut r = M::zeros((n, n));
    for i in 0..n {
        for k in 0..n {
            let x = a[(i, k)];
            for j in 0..n {
                r[(i, j)] += x * b[(k, j)];
            }
        }
    }
    r
}

fn judge<A: ClAlgebra + NonDegenerate>(f: &FFTRepr<A>) -> Outcome {
    let m = f.clone().into_array2();
    let c = condition(&m);
    let before = f.clone();
    let inv = f.inv();
    ensure(*f == before, || "inversion changed its operand".into())?;
    match inv {
        None => ensure(c > WELL, || format!("an element of condition number {c:.3e} is reported as non-invertible")),
        Some(g) => {
            if c > WELL {
                return Ok(());
            }
            same("shape of the inverse", &g.shape(), &f.shape())?;
            let tol = 1e-12 * c;
            let one = M::eye(m.nrows());
            let gi = g.clone().into_array2();
            for (name, p) in [("a inv(a)", dot(&m, &gi)), ("inv(a) a", dot(&gi, &m))] {
                let err = (&p - &one).iter().fold(0f64, |s, x| if x.norm() <= s { s } else { x.norm() });
                ensure(err <= tol, || format!("{name} differs from one by {err:e}, condition number {c:.3e}"))?;
            }
            // the same through the operations of the library
            ensure((f * &g).approx_eq(&FFTRepr::one(), tol * 10.), || "a * inv(a) != 1".into())?;
            ensure((&g * f).approx_eq(&FFTRepr::one(), tol * 10.), || "inv(a) * a != 1".into())
        }
    }
}

fn element<A: ClAlgebra + NonDegenerate>(c: &OneMv) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let m = cmodel::<C64>(&c.a);
    let f = relayout(mv_of::<C64, A>(&c.a).fft(), c.a.len());
    judge(&f)?;
    let k = condition(&f.clone().into_array2());
    if let (true, Some(g)) = (k <= WELL, f.inv()) {
        // the inverse is an element of the same algebra
        let gm = back(&g);
        if m.len() * gm.len() <= 5000 {
            let tol = 1e-11 * k * alg.side() as f64;
            close("a inv(a) as multivectors", &alg.mul(&m, &gm), &Mv::scalar(C64::new(1., 0.)), tol)?;
            close("inv(a) a as multivectors", &alg.mul(&gm, &m), &Mv::scalar(C64::new(1., 0.)), tol)?;
        }
    }
    Ok(())
}

fn class_element(c: &OneMv) -> Class {
    // a scalar that dominates makes the element invertible; otherwise it is left to chance
    let m = cmodel::<C64>(&c.a);
    let s = m.get(0).norm();
    class(
        format!("dim {}, {}", c.sig.len(), if 2. * s > l1(&m) { "dominating scalar" } else { "other" }),
        m.len() > 1,
    )
}

/// Products of vectors have a known inverse.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Versor {
    sig: String,
    vs: Vec<Vec<i8>>,
}

fn versor<A: ClAlgebra + NonDegenerate>(c: &Versor) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let mut p = Mv::scalar(C64::new(1., 0.));
    let mut q = p.clone();
    for v in &c.vs {
        let m = Mv::from_terms(v.iter().enumerate().map(|(i, x)| (1 << i, C64::new(*x as f64, 0.))));
        let s = alg.mul(&m, &m).get(0);
        if s.norm() == 0. {
            continue;
        }
        p = alg.mul(&p, &m);
        q = alg.mul(&m.map(|x| x / s), &q);
    }
    let f = relayout(Multivector::<C64, A>::from_indexed_iter(p.c.iter().map(|(i, x)| (*i as usize, *x))).unwrap().fft(), p.len());
    judge(&f)?;
    let k = condition(&f.clone().into_array2());
    if k <= WELL {
        match f.inv() {
            None => return Err("a product of invertible vectors is reported as non-invertible".into()),
            Some(g) => close("inverse of a product of vectors", &back(&g), &q, 1e-11 * k * (1. + l1(&q)))?,
        }
    }
    Ok(())
}

fn versors() -> BoxedStrategy<Versor> {
    pick(sigs_nondeg())
        .prop_flat_map(|s| {
            let d = s.len();
            let entry = prop_oneof![3 => Just(0i8), 2 => -2i8..=2, 1 => -9i8..=9];
            let v = prop_oneof![
                proptest::collection::vec(-3i8..=3, d),
                proptest::collection::vec(entry, d),
                (0..d, prop_oneof![Just(1i8), Just(-1), Just(3)]).prop_map(move |(i, x)| {
                    let mut v = vec![0; d];
                    v[i] = x;
                    v
                })
            ];
            (Just(s), proptest::collection::vec(v, 0..4))
        })
        .prop_map(|(sig, vs)| Versor { sig, vs })
        .boxed()
}

/// Matrices with a given pattern of zeros, for the algebras where every matrix is an element.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Mat {
    sig: String,
    kind: u8,
    perm: u64,
    vals: Vec<[i8; 2]>,
    scale: i16,
}

fn perm(n: usize, seed: u64) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        p.swap(i, (gens::mix(seed ^ i as u64) % (i as u64 + 1)) as usize);
    }
    p
}

fn matrix_of(c: &Mat) -> M {
    let n = Alg::parse(&c.sig).side();
    let val = |i: usize, j: usize| {
        let k = c.vals.len();
        if k == 0 {
            return C64::new(0., 0.);
        }
        let v = c.vals[(i * n + j) % k];
        C64::new(v[0] as f64, v[1] as f64)
    };
    let p = perm(n, c.perm);
    let one = C64::new(1., 0.);
    let mut m = M::zeros((n, n));
    match c.kind % 6 {
        // monomial
        0 => {
            for i in 0..n {
                let v = val(i, 0);
                m[(i, p[i])] = if v.norm() == 0. { one } else { v };
            }
        }
        // rows of a unit lower triangle times a unit upper triangle, permuted
        1 | 2 => {
            let (mut l, mut u) = (M::eye(n), M::eye(n));
            for i in 0..n {
                for j in 0..i {
                    let v = val(i, j);
                    l[(i, j)] = C64::new(v.re.signum() * (v.re.abs() > 5.) as u8 as f64, 0.);
                    u[(j, i)] = C64::new(0., v.im.signum() * (v.im.abs() > 5.) as u8 as f64);
                }
            }
            let a = dot(&l, &u);
            for i in 0..n {
                for j in 0..n {
                    m[(p[i], j)] = a[(i, j)];
                }
            }
        }
        // sparse, anything can happen
        3 => {
            for i in 0..n {
                for j in 0..n {
                    let v = val(i, j);
                    if v.re.abs() > 5. {
                        m[(i, j)] = C64::new(v.re.signum(), (v.im / 5.).trunc());
                    }
                }
                m[(i, p[i])] = one;
            }
        }
        // tiny pivots
        4 => {
            for i in 0..n {
                for j in 0..n {
                    let v = val(i, j);
                    m[(i, j)] = v * 1e-10;
                }
            }
            for i in 0..n {
                m[(i, p[i])] += C64::new(1. + val(i, i).re.abs(), 0.);
            }
        }
        // dense
        _ => {
            for i in 0..n {
                for j in 0..n {
                    m[(i, j)] = val(p[i], j);
                }
            }
        }
    }
    m * C64::new((c.scale as f64).exp2(), 0.)
}

fn matrices<A: ClAlgebra + NonDegenerate>(c: &Mat) -> Outcome {
    match FFTRepr::<A>::from_array2(matrix_of(c)) {
        Ok(f) => judge(&f),
        Err(e) => Err(format!("a matrix of the right shape is rejected with {e:?}")),
    }
}

fn mats() -> BoxedStrategy<Mat> {
    let sigs = sigs_nondeg().into_iter().filter(|s| s.len() % 2 == 0).collect();
    (
        pick(sigs),
        0u8..6,
        any::<u64>(),
        proptest::collection::vec([-9i8..=9, -9i8..=9], 1..80),
        prop_oneof![3 => Just(0i16), 1 => -60i16..=60, 1 => -300i16..=300],
    )
        .prop_map(|(sig, kind, perm, vals, scale)| Mat { sig, kind, perm, vals, scale })
        .boxed()
}

fn class_mat(c: &Mat) -> Class {
    let k = condition(&matrix_of(c));
    let kind = ["monomial", "triangles", "triangles", "sparse", "tiny pivots", "dense"][c.kind as usize % 6];
    class(
        format!("side {}, {kind}, {}", Alg::parse(&c.sig).side(), if k <= WELL { "well-conditioned" } else { "other" }),
        k <= WELL,
    )
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Divisor {
    sig: String,
    b: u64,
    k: i16,
    signs: u8,
}

fn zero_divisor<A: ClAlgebra + NonDegenerate>(c: &Divisor) -> Outcome {
    let (s, t) = (if c.signs & 1 == 0 { 1. } else { -1. }, if c.signs & 2 == 0 { 1. } else { -1. });
    let x = s * (c.k as f64).exp2();
    let m = Multivector::<f64, A>::zero().set_by_idx(0, x).set_by_idx(c.b as usize, x * t);
    ensure(m.fft().inv().is_none(), || format!("{c:?} is a zero divisor, but an inverse is reported"))?;
    ensure(FFTRepr::<A>::zero().inv().is_none(), || "zero is reported as invertible".into())
}

fn divisors() -> BoxedStrategy<Divisor> {
    pick(sigs_nondeg())
        .prop_flat_map(|s| {
            let d = s.len();
            (Just(s), any::<u64>(), prop_oneof![-40i16..=40, -300i16..=300], 0u8..4).prop_map(move |(sig, b, k, signs)| {
                let alg = Alg::parse(&sig);
                let mut b = b & gens::mask(d);
                // the next blade that squares to +1
                for _ in 0..1 << d {
                    if b != 0 && alg.sq(b) == 1 {
                        break;
                    }
                    b = (b + 1) & gens::mask(d);
                }
                // some of the smallest algebras have none
                if alg.sq(b) != 1 {
                    b = 0;
                }
                Divisor { sig, b, k, signs }
            })
        })
        .boxed()
}

/// 1 + (x - 1) p has the inverse 1 + (1/x - 1) p and 1 + x q has 1 - x q.
fn special<A: ClAlgebra + NonDegenerate>(c: &Special) -> Outcome {
    let (p, q) = c.elements();
    let one = Mv::scalar(C64::new(1., 0.));
    let x = if c.x == 0 { 1. } else { c.factor() };
    let repr = |m: &Mv<C64>| {
        let d = Multivector::<C64, A>::from_indexed_iter(m.c.iter().map(|(i, v)| (*i as usize, *v))).unwrap();
        relayout(d.fft(), c.n)
    };
    let run = |m: Mv<C64>, want: Mv<C64>| match repr(&m).inv() {
        None => Err(format!("no inverse, expected {want:?}")),
        Some(i) => close("inverse", &back(&i), &want, 1e-10),
    };
    run(one.add(&p.map(|v| v * (x - 1.))), one.add(&p.map(|v| v * (1. / x - 1.))))?;
    run(p.add(&p).sub(&one), p.add(&p).sub(&one))?;
    if let Some(q) = q {
        run(one.add(&q.map(|v| v * x)), one.sub(&q.map(|v| v * x)))?;
    }
    Ok(())
}

fn main() {
    Check::new("C13")
        .assume("the reference inverse (full pivoting) decides what is well-conditioned: condition number up to 1e6")
        .assume("elements that are neither well-conditioned nor exact zero divisors of the stated form are not judged")
        .law_on(
            "elements",
            "random complex multivectors of the non-degenerate signatures; non-trivial with more than one term",
            (12_000, 300_000),
            || {
                (one_mv(sigs_nondeg()), 0i32..4)
                    .prop_map(|(mut c, k)| {
                        if k > 0 {
                            c.a.push((0, [k * 60, 0, 0, 0]));
                        }
                        c
                    })
                    .boxed()
            },
            class_element,
            |c| c.a.iter().all(|(i, _)| i & !gens::mask(c.sig.len()) == 0),
            |c| dispatch_nondeg!(c.sig.as_str(), element[](c)),
        )
        .law_on(
            "versors",
            "products of up to three vectors, whose inverse is known; non-trivial when there is a vector",
            (12_000, 300_000),
            versors,
            |c| class(format!("dim {}, {} vectors", c.sig.len(), c.vs.len()), !c.vs.is_empty()),
            |c| c.vs.iter().all(|v| v.len() <= c.sig.len()),
            |c| dispatch_nondeg!(c.sig.as_str(), versor[](c)),
        )
        .law(
            "matrices",
            "matrices with zero patterns, tiny pivots and scales in the even non-degenerate signatures; non-trivial when well-conditioned",
            20_000,
            500_000,
            mats,
            class_mat,
            |c| dispatch_nondeg!(c.sig.as_str(), matrices[](c)),
        )
        .law_on(
            "zero-divisors",
            "elements +-2^k (1 +- b) with b * b = 1, and zero",
            (12_000, 300_000),
            divisors,
            |c| class(format!("dim {}", c.sig.len()), c.b != 0),
            |c| {
                let alg = Alg::parse(&c.sig);
                c.b != 0 && c.b & !alg.mask() == 0 && alg.sq(c.b) == 1 || (alg.dim() <= 2 && c.b == 0)
            },
            |c| if c.b == 0 { Ok(()) } else { dispatch_nondeg!(c.sig.as_str(), zero_divisor[](c)) },
        )
        .law_on(
            "idempotents-and-nilpotents",
            "elements made of an idempotent or a nilpotent and the scalars, whose inverses have a closed form; non-trivial when the idempotent is neither zero nor one",
            (3_000, 80_000),
            || specials(sigs_nondeg()),
            class_special,
            valid_special,
            |c| dispatch_nondeg!(c.sig.as_str(), special[](c)),
        )
        .main()
}
