//! C14: half-spin representations are faithful homomorphisms of the even subalgebra.
use checks::algs::*;
use checks::repr::*;
use checks::*;
use ndarray::Array2;
use tclifford::algebra::NonDegenerate;
use tclifford::{ClAlgebra, FFTRepr, Multivector, One};

type M = Array2<C64>;

fn even(t: &Terms, parity: u32) -> Terms {
    t.iter().filter(|(i, _)| i.count_ones() % 2 == parity).cloned().collect()
}

fn near(what: &str, a: &M, b: &M, tol: f64) -> Outcome {
    ensure(a.dim() == b.dim() && a.iter().zip(b.iter()).all(|(x, y)| (x - y).norm() <= tol), || {
        format!("{what}: {a} and {b} differ")
    })
}

fn bits(x: &C64) -> (u64, u64) {
    // +0 and -0 are the same entry
    ((x.re + 0.).to_bits(), (x.im + 0.).to_bits())
}

fn halves<A: ClAlgebra + NonDegenerate>(c: &Two) -> Outcome {
    let side = Alg::parse(&c.sig).side();
    let (ea, eb) = (even(&c.a, 0), even(&c.b, 0));
    let (a, b) = (mv_of::<C64, A>(&ea), mv_of::<C64, A>(&eb));
    let (la, lb) = (l1(&cmodel::<C64>(&ea)), l1(&cmodel::<C64>(&eb)));
    let spin = |m: &Multivector<C64, A>| relayout(m.fft(), m.coeff_enumerate().filter(|(_, x)| x.norm() != 0.).count()).into_half_spin_repr();
    let (a0, a1) = spin(&a);
    let (b0, b1) = spin(&b);
    for h in [&a0, &a1, &b0, &b1] {
        same("shape of a half", &h.dim(), &(side / 2, side / 2))?;
    }
    let (s0, s1) = spin(&(&a + &b));
    near("first half of a sum", &s0, &(&a0 + &b0), 1e-12 * (la + lb))?;
    near("second half of a sum", &s1, &(&a1 + &b1), 1e-12 * (la + lb))?;
    let tol = 1e-12 * (la * lb);
    let (p0, p1) = spin(&(&a * &b));
    near("first half of a product", &p0, &a0.dot(&b0), tol)?;
    near("second half of a product", &p1, &a1.dot(&b1), tol)?;
    let (p0, p1) = (a.fft() * b.fft()).into_half_spin_repr();
    near("first half of a product of representations", &p0, &a0.dot(&b0), tol)?;
    near("second half of a product of representations", &p1, &a1.dot(&b1), tol)?;
    let (i0, i1) = FFTRepr::<A>::one().into_half_spin_repr();
    near("first half of one", &i0, &M::eye(side / 2), 0.)?;
    near("second half of one", &i1, &M::eye(side / 2), 0.)?;

    // together exactly the entries of the full representation (it is zero elsewhere)
    let full = a.fft().into_array2();
    let mut want: Vec<_> = full.indexed_iter().filter(|((i, j), _)| (i ^ j).count_ones() % 2 == 0).map(|(_, x)| bits(x)).collect();
    let mut got: Vec<_> = a0.iter().chain(a1.iter()).map(bits).collect();
    want.sort();
    got.sort();
    ensure(got == want, || "the halves do not contain the entries of the full representation".into())?;
    let rest: f64 = full.indexed_iter().filter(|((i, j), _)| (i ^ j).count_ones() % 2 == 1).map(|(_, x)| x.norm()).sum();
    ensure(rest <= 1e-12 * (1. + la), || "the representation of an even element has unexpected entries".into())?;
    let size: f64 = a0.iter().chain(a1.iter()).map(|x| x.norm()).sum();
    ensure(la == 0. || size > 1e-6, || "a non-zero even element has zero halves".into())?;

    // odd parts do not matter
    let (x0, x1) = spin(&mv_of::<C64, A>(&c.a));
    let all = l1(&cmodel::<C64>(&c.a));
    near("first half with an odd part", &x0, &a0, 1e-12 * all)?;
    near("second half with an odd part", &x1, &a1, 1e-12 * all)
}

/// Homogeneous, also for tiny and huge coefficients.
fn scales<A: ClAlgebra + NonDegenerate>(c: &Sized2) -> Outcome {
    let (f, g) = (mv_sized::<A>(&c.a, 0).fft().into_half_spin_repr(), mv_sized::<A>(&c.a, c.e).fft().into_half_spin_repr());
    let tol = 1e-13 * l1(&cmodel::<C64>(&c.a));
    same_scaled("first half", g.0.iter().copied(), c.e, f.0.iter().copied(), tol)?;
    same_scaled("second half", g.1.iter().copied(), c.e, f.1.iter().copied(), tol)
}

fn main() {
    Check::new("C14")
        .assume("rounding is bounded relative to the sums of norms of the coefficients")
        .law_on(
            "halves",
            "random pairs of complex multivectors of the non-degenerate signatures, their even parts and the full ones; non-trivial when both even parts have two terms",
            (24_000, 500_000),
            || {
                (two(sigs_nondeg()), any::<bool>())
                    .prop_map(|(mut c, make_even)| {
                        if make_even && c.sig.len() > 1 {
                            for t in [&mut c.a, &mut c.b] {
                                for (i, _) in t.iter_mut() {
                                    if i.count_ones() % 2 == 1 {
                                        *i ^= 1;
                                    }
                                }
                            }
                        }
                        c
                    })
                    .boxed()
            },
            |c| {
                let (x, y) = (gens::support(&even(&c.a, 0)), gens::support(&even(&c.b, 0)));
                class(format!("dim {}, even terms {} x {}", c.sig.len(), size_label(x), size_label(y)), x > 1 && y > 1)
            },
            |c| c.a.iter().chain(c.b.iter()).all(|(i, _)| i & !gens::mask(c.sig.len()) == 0),
            |c| dispatch_nondeg!(c.sig.as_str(), halves[](c)),
        )
        .law_on(
            "scales",
            "complex multivectors scaled by powers of two between 2^-300 and 2^300; non-trivial when not zero",
            (6_000, 120_000),
            || sized(sigs_nondeg(), 24),
            class_sized,
            valid_sized,
            |c| dispatch_nondeg!(c.sig.as_str(), scales[](c)),
        )
        .main()
}
