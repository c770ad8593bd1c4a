//! C24: complexification is a faithful homomorphism onto the all-positive algebra.
use checks::algs::*;
use checks::repr::{all_coeffs, class_sized, mv_sized, same_scaled, sized, valid_sized, Sized2};
use checks::repr::{close, l1, Fc};
use checks::*;
use tclifford::types::WedgeProduct;
use tclifford::{ClAlgebra, Multivector, SparseMultivector};

fn i_pow(k: u32) -> C64 {
    [C64::new(1., 0.), C64::new(0., 1.), C64::new(-1., 0.), C64::new(0., -1.)][k as usize % 4]
}

/// The model: a negative generator is i times a positive one, so a blade with k of them loses
/// the factor i^-k.
fn complexified(alg: &Alg, m: &Mv<C64>) -> Mv<C64> {
    Mv::from_terms(m.c.iter().map(|(i, c)| (*i, i_pow(3 * (i & alg.imag()).count_ones()) * c)))
}
fn positive(sig: &str) -> Alg {
    Alg::parse(&sig.replace('-', "+"))
}
fn model<T: Fc>(t: &Terms) -> Mv<C64> {
    Mv::from_terms(t.iter().map(|(i, c)| (*i, T::mk(c).c64())))
}
fn list<T: Fc>(t: &Terms) -> Vec<(usize, T)> {
    t.iter().map(|(i, c)| (*i as usize, T::mk(c))).collect()
}

fn alg_dense<T, A: ClAlgebra>(_: &Multivector<T, A>, c: &OneMv) -> Outcome
where
    T: tclifford::types::Ring + Clone,
{
    metadata::<A>(c)
}
/// What the complexified algebra says about itself.
fn metadata<A: ClAlgebra>(c: &OneMv) -> Outcome {
    let alg = Alg::parse(&c.sig);
    same("dim", &A::dim(), &alg.dim())?;
    same("positive generators", &(A::real_mask() as u64), &(alg.real() | alg.imag()))?;
    same("negative generators", &A::imag_mask(), &0)?;
    same("null generators", &(A::proj_mask() as u64), &alg.null())?;
    same("number of positive generators", &A::real_dim(), &alg.nonnull_dim())?;
    same("number of negative generators", &A::imag_dim(), &0)?;
    same("number of null generators", &A::proj_dim(), &alg.null_dim())?;
    for (n, name) in names(&c.sig).into_iter().enumerate() {
        let want = if alg.sig[n] < 0 { format!("(i*{name})") } else { name };
        same("name of a generator", &A::axis_name(n), &want)?;
    }
    Ok(())
}

/// The representation of the complexified multivector is the one of the original, and
/// complexifying again changes nothing.
fn representation<A: ClAlgebra>(c: &OneMv) -> Outcome {
    let a = Multivector::<C64, A>::build(&c.a);
    let z: Multivector<C64, _> = a.complexify();
    let (x, y) = (a.fft().into_array3(), z.fft().into_array3());
    let tol = 1e-13 * (1. + l1(&model_of::<C64>(&c.a)));
    same("shape", &x.shape(), &y.shape())?;
    for (p, q) in x.iter().zip(y.iter()) {
        ensure((p - q).norm() <= tol, || format!("entries of the representations are {p} and {q}"))?;
    }
    let zz: Multivector<C64, _> = z.complexify();
    check("complexified twice", &zz, &z.read()?)?;
    let w: Multivector<C64, _> = zz.decomplexify();
    check("and back once", &w, &z.read()?)
}

fn round<T: Fc, A: ClAlgebra>(c: &OneMv) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let m = model::<T>(&c.a);
    let want = complexified(&alg, &m);
    let s = SparseMultivector::<T, A>::from_indexed_iter(list::<T>(&c.a).into_iter()).unwrap();
    // the coefficients that were given, as the sparse multivector reports them
    let back = |what: &str, got: Vec<(usize, T)>| -> Outcome {
        let got = Mv::from_terms(got.into_iter().map(|(i, x)| (i as u64, x.c64())));
        ensure(got == m, || format!("{what} ({}): got {}, expected {}", T::NAME, show(&got), show(&m)))
    };
    macro_rules! there_and_back {
        ($from:expr, $mid:ident, $what:literal) => {{
            let z: $mid<C64, _> = $from.complexify();
            check(concat!("complexified ", $what), &z, &want)?;
            let r: SparseMultivector<T, A> = z.decomplexify();
            back(concat!($what, " back to sparse"), r.enumerate_ref())?;
            if A::dim() <= 16 {
                let r: Multivector<T, A> = z.decomplexify();
                back(concat!($what, " back to dense"), r.enumerate_ref())?;
            }
            z
        }};
    }
    there_and_back!(s, SparseMultivector, "sparse to sparse");
    if A::dim() <= 16 {
        let d = Multivector::<T, A>::from_indexed_iter(list::<T>(&c.a).into_iter()).unwrap();
        let z = there_and_back!(s, Multivector, "sparse to dense");
        alg_dense(&z, c)?;
        there_and_back!(d, Multivector, "dense to dense");
        there_and_back!(d, SparseMultivector, "dense to sparse");
        back("operand", d.enumerate_ref())?;
    }
    back("operand", s.enumerate_ref())
}

trait Listed<T> {
    fn enumerate_ref(&self) -> Vec<(usize, T)>;
}
impl<T: Fc, A: ClAlgebra> Listed<T> for Multivector<T, A> {
    fn enumerate_ref(&self) -> Vec<(usize, T)> {
        self.coeff_enumerate().map(|(i, x)| (i, x.clone())).collect()
    }
}
impl<T: Fc, A: ClAlgebra> Listed<T> for SparseMultivector<T, A> {
    fn enumerate_ref(&self) -> Vec<(usize, T)> {
        self.coeff_enumerate().map(|(i, x)| (i, x.clone())).collect()
    }
}

fn rounds<A: ClAlgebra>(c: &OneMv) -> Outcome {
    round::<f64, A>(c)?;
    round::<f32, A>(c)?;
    round::<C64, A>(c)?;
    round::<C32, A>(c)
}

/// Any element of the complexified algebra goes back and forth, too.
fn from_above<A: ClAlgebra>(c: &OneMv) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let m = model_of::<C64>(&c.a);
    let down = Mv::from_terms(m.c.iter().map(|(i, x)| (*i, i_pow((i & alg.imag()).count_ones()) * x)));
    fn build<A: ClAlgebra>(_: &SparseMultivector<C64, A>, t: &Terms) -> SparseMultivector<C64, A> {
        SparseMultivector::build(t)
    }
    // names the type
    let empty: SparseMultivector<C64, _> = SparseMultivector::<C64, A>::zero_().complexify();
    let z = build(&empty, &c.a);
    let d: SparseMultivector<C64, A> = z.decomplexify();
    check("decomplexified", &d, &down)?;
    let again: SparseMultivector<C64, _> = d.complexify();
    ensure(again == z, || "complexifying the decomplexified element gives another one".into())?;
    // real scalars take the real parts
    let real: SparseMultivector<f64, A> = z.decomplexify();
    check("real parts", &real, &Mv::from_terms(down.c.iter().map(|(i, x)| (*i, x.re))))
}

fn hom<T: Fc + Coef, A: ClAlgebra>(c: &Two) -> Outcome {
    let (alg, pos) = (Alg::parse(&c.sig), positive(&c.sig));
    let small = |t: &Terms| -> Vec<(usize, T)> { t.iter().map(|(i, c)| (*i as usize, <T as Coef>::mk(c))).collect() };
    let a = Multivector::<T, A>::from_indexed_iter(small(&c.a).into_iter()).unwrap();
    let b = Multivector::<T, A>::from_indexed_iter(small(&c.b).into_iter()).unwrap();
    let (za, zb): (Multivector<C64, _>, Multivector<C64, _>) = (a.complexify(), b.complexify());
    let zp: Multivector<C64, _> = (&a * &b).complexify();
    let zs: Multivector<C64, _> = (&a + &b).complexify();
    let zw: Multivector<C64, _> = a.wedge(&b).complexify();
    // coefficients are integers, and the products are exact in double precision only
    let (ma, mb) = (
        Mv::from_terms(small(&c.a).into_iter().map(|(i, x)| (i as u64, x.c64()))),
        Mv::from_terms(small(&c.b).into_iter().map(|(i, x)| (i as u64, x.c64()))),
    );
    let tol = if T::EPS < 1e-9 { 0. } else { l1(&ma) * l1(&mb) * T::EPS } + 1e-30;
    let exact = |what: &str, x: &Multivector<C64, _>, y: &Mv<C64>| close(&format!("{what} ({})", <T as Fc>::NAME), &x.read()?, y, tol);
    let p = &za * &zb;
    exact("product of complexified", &p, &pos.mul(&complexified(&alg, &ma), &complexified(&alg, &mb)))?;
    exact("product of complexified against the complexified product", &p, &zp.read()?)?;
    exact("complexified product", &zp, &complexified(&alg, &alg.mul(&ma, &mb)))?;
    exact("sum", &(&za + &zb), &zs.read()?)?;
    exact("wedge", &za.wedge(&zb), &zw.read()?)?;
    exact("reversal", &za.rev(), &complexified(&alg, &alg.rev(&ma)))?;
    exact("flip", &za.flip(), &complexified(&alg, &alg.flip(&ma, u64::MAX)))?;
    // the product comes back
    let back: Multivector<C64, A> = p.decomplexify();
    exact_back(&back, &alg.mul(&ma, &mb), tol)?;
    // sparse
    let (sa, sb): (SparseMultivector<C64, _>, SparseMultivector<C64, _>) = (a.to_sparse().complexify(), b.complexify());
    let sp: SparseMultivector<C64, _> = (a.to_sparse() * b.to_sparse()).complexify();
    close("sparse product", &(&sa * &sb).read()?, &sp.read()?, tol)
}
fn exact_back<A: ClAlgebra>(m: &Multivector<C64, A>, want: &Mv<C64>, tol: f64) -> Outcome {
    close("product transformed back", &m.read()?, want, tol)
}
fn homs<A: ClAlgebra>(c: &Two) -> Outcome {
    hom::<f64, A>(c)?;
    hom::<C64, A>(c)?;
    hom::<f32, A>(c)
}

/// Linear, also for tiny and huge coefficients.
fn scales<A: ClAlgebra>(c: &Sized2) -> Outcome {
    let (a, x) = (mv_sized::<A>(&c.a, 0), mv_sized::<A>(&c.a, c.e));
    let z: Vec<C64> = all_coeffs(&a.complexify());
    let w = x.complexify();
    same_scaled("complexified", all_coeffs(&w).into_iter(), c.e, z.into_iter(), 0.)?;
    let back: Multivector<C64, A> = w.decomplexify();
    same_scaled("and back", all_coeffs(&back).into_iter(), c.e, all_coeffs(&a).into_iter(), 0.)
}

fn main() {
    Check::new("C24")
        .assume("coefficients are finite; multiplication by 1, i, -1 and -i is exact")
        .law(
            "round-trip",
            "random multivectors of all signatures over f64, f32 and both complex types, through every combination of dense and sparse; non-trivial when not zero",
            12_000,
            250_000,
            || one_mv(sigs_all()),
            class_one,
            |c| dispatch_all!(c.sig.as_str(), rounds[](c)),
        )
        .law(
            "many-generators",
            "the same, sparse, with 12 to 48 generators",
            6_000,
            100_000,
            || one_mv(sigs_big()),
            class_one,
            |c| dispatch_big!(c.sig.as_str(), rounds[](c)),
        )
        .law(
            "round-trip-13-to-16-generators",
            "the same, dense and sparse, with 13 to 16 generators",
            200,
            4_000,
            || one_mv(sigs_vast()),
            class_one,
            |c| dispatch_vast!(c.sig.as_str(), rounds[](c)),
        )
        .budget(60)
        .law(
            "from-above",
            "random complex multivectors of the complexified algebra, back and forth",
            8_000,
            100_000,
            || one_mv(sigs_all()),
            class_one,
            |c| dispatch_all!(c.sig.as_str(), from_above[](c)),
        )
        .law(
            "representation",
            "random complex multivectors; the representation before and after complexification, and complexification applied twice",
            6_000,
            100_000,
            || one_mv(sigs_few()),
            class_one,
            |c| dispatch_few!(c.sig.as_str(), representation[](c)),
        )
        .law(
            "homomorphism",
            "random pairs; products, sums, wedge products and involutions of complexified multivectors",
            10_000,
            200_000,
            || two(sigs_few()),
            class_two,
            |c| dispatch_few!(c.sig.as_str(), homs[](c)),
        )
        .law_on(
            "scales",
            "complex multivectors scaled by powers of two between 2^-300 and 2^300; non-trivial when not zero",
            (6_000, 120_000),
            || sized(sigs_few(), 24),
            class_sized,
            valid_sized,
            |c| dispatch_few!(c.sig.as_str(), scales[](c)),
        )
        .main()
}
