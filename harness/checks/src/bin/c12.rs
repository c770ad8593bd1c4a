//! C12: reversal, flip, trace and magnitude of a representation match the multivector.
use checks::algs::*;
use checks::repr::*;
use checks::*;
use tclifford::{ClAlgebra, FFTRepr, Multivector, Zero};

fn invol<A: ClAlgebra, T: Fc>(c: &OneMv) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let m = cmodel::<T>(&c.a);
    let r = relayout(mv_of::<T, A>(&c.a).fft(), c.a.len());
    let n = 1. + l1(&m);
    let tol = 1e-12 * n;
    close("rev", &back(&r.rev()), &alg.rev(&m), tol)?;
    close("flip", &back(&r.flip()), &alg.flip(&m, u64::MAX), tol)?;
    // not only what can be transformed back, but the same representation
    let mv = mv_of::<T, A>(&c.a);
    ensure(r.rev().approx_eq(&mv.rev().fft(), tol), || "rev differs from the representation of rev".into())?;
    ensure(r.flip().approx_eq(&mv.flip().fft(), tol), || "flip differs from the representation of flip".into())?;
    ensure(r.rev().rev().approx_eq(&r, tol), || "rev twice".into())?;
    ensure(r.flip().flip().approx_eq(&r, tol), || "flip twice".into())?;
    close_c("ntrace", r.ntrace(), m.get(0), tol)?;
    close_c("trace", r.trace(), m.get(0) * alg.side() as f64, tol * alg.side() as f64)?;
    let mag = alg.mul(&alg.rev(&m), &m).get(0);
    close_c("mag2", r.mag2(), mag, tol * n)?;
    ensure(r == mv.fft(), || "the operand changed".into())
}

fn products<A: ClAlgebra>(c: &Two) -> Outcome {
    let (a, b) = (mv_of::<C64, A>(&c.a).fft(), relayout(mv_of::<C64, A>(&c.b).fft(), c.b.len()));
    let tol = 1e-12 * (1. + l1(&cmodel::<C64>(&c.a)) * l1(&cmodel::<C64>(&c.b)));
    let p = &a * &b;
    ensure(p.rev().approx_eq(&(b.rev() * a.rev()), tol), || "rev(ab) != rev(b) rev(a)".into())?;
    ensure(p.flip().approx_eq(&(a.flip() * b.flip()), tol), || "flip(ab) != flip(a) flip(b)".into())?;
    close_c("trace(ab) - trace(ba)", p.ntrace() - (&b * &a).ntrace(), C64::new(0., 0.), tol * 10.)
}

fn blade<A: ClAlgebra>(c: &(String, u64)) -> Outcome {
    let alg = Alg::parse(&c.0);
    let one = C64::new(1., 0.);
    let r: FFTRepr<A> = Multivector::<f64, A>::zero().set_by_idx(c.1 as usize, 1.).fft();
    let m = Mv::blade(c.1, one);
    close("rev", &back(&r.rev()), &alg.rev(&m), 1e-12)?;
    close("flip", &back(&r.flip()), &alg.flip(&m, u64::MAX), 1e-12)?;
    close_c("ntrace", r.ntrace(), m.get(0), 1e-12)?;
    let mut s = 1.;
    for g in 0..alg.dim() {
        if c.1 >> g & 1 == 1 {
            s *= alg.sig[g] as f64;
        }
    }
    close_c("mag2", r.mag2(), C64::new(s, 0.), 1e-12)
}

/// Homogeneous, also for tiny and huge coefficients.
fn scales<A: ClAlgebra>(c: &Sized2) -> Outcome {
    let (f, g) = (mv_sized::<A>(&c.a, 0).fft(), mv_sized::<A>(&c.a, c.e).fft());
    let l = l1(&cmodel::<C64>(&c.a));
    same_scaled_repr("rev", &g.rev(), c.e, &f.rev(), 1e-13 * l)?;
    same_scaled_repr("flip", &g.flip(), c.e, &f.flip(), 1e-13 * l)?;
    let one = |x: C64| std::iter::once(x);
    same_scaled("ntrace", one(g.ntrace()), c.e, one(f.ntrace()), 1e-13 * l)?;
    same_scaled("trace", one(g.trace()), c.e, one(f.trace()), 1e-12 * l * f.shape().1 as f64)?;
    same_scaled("mag2", one(g.mag2()), 2 * c.e, one(f.mag2()), 1e-12 * l * l)
}

fn main() {
    Check::new("C12")
        .assume("rounding is bounded relative to the sum of norms of the coefficients")
        .each(
            "every-blade",
            "every basis blade of the signatures with up to 7 (thorough: 10) generators",
            |t| {
                let mut v = vec![];
                for s in sigs_all() {
                    if s.len() <= if t { 10 } else { 7 } {
                        for a in 0..1u64 << s.len() {
                            v.push((s.to_string(), a));
                        }
                    }
                }
                v
            },
            |c| class(sig_label(&c.0), true),
            |c| dispatch_all!(c.0.as_str(), blade[](c)),
        )
        .law(
            "complex",
            "random complex multivectors of the listed signatures; non-trivial when non-zero",
            30_000,
            600_000,
            || one_mv(sigs_all()),
            class_one,
            |c| dispatch_all!(c.sig.as_str(), invol[C64](c)),
        )
        .law(
            "real",
            "the same for real multivectors",
            12_000,
            300_000,
            || one_mv(sigs_few()),
            class_one,
            |c| dispatch_few!(c.sig.as_str(), invol[f64](c)),
        )
        .law(
            "products",
            "random pairs; non-trivial when both are non-zero",
            12_000,
            300_000,
            || two(sigs_few()),
            class_two,
            |c| dispatch_few!(c.sig.as_str(), products[](c)),
        )
        .law(
            "involutions-13-to-16-generators",
            "the same with 13 to 16 generators",
            96,
            2_000,
            || one_mv(sigs_vast()),
            class_one,
            |c| dispatch_vast!(c.sig.as_str(), invol[C64](c)),
        )
        .budget(60)
        .law_on(
            "scales",
            "complex multivectors scaled by powers of two between 2^-300 and 2^300; non-trivial when not zero",
            (6_000, 120_000),
            || sized(sigs_few(), 24),
            class_sized,
            valid_sized,
            |c| dispatch_few!(c.sig.as_str(), scales[](c)),
        )
        .main()
}
