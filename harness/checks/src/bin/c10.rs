//! C10: the matrix representation of a multivector loses nothing.
use checks::algs::*;
use checks::repr::*;
use checks::*;
use ndarray::{Array2, Array3, ShapeBuilder};
use tclifford::algebra::NonDegenerate;
use tclifford::{ClAlgebra, FFTRepr, Multivector, Zero};

fn roundtrip<A: ClAlgebra, T: Fc>(c: &OneMv) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let m = mv_of::<T, A>(&c.a);
    let want = cmodel::<T>(&c.a);
    let r = m.fft();
    same("shape of the representation", &r.shape(), &shape_of(&alg))?;
    same("shape of the view", &r.view().dim(), &shape_of(&alg))?;
    let tol = T::EPS * (1. + l1(&want));
    close(&format!("fft and back ({})", T::NAME), &read(&r.ifft::<T>()), &want, tol)?;
    close("fft and back as complex numbers", &back(&r), &want, tol)?;
    close("the operand", &read(&m), &want, 0.)?;
    if !want.is_zero() {
        ensure(!r.is_zero(), || "a non-zero multivector has a zero representation".into())?;
    }
    Ok(())
}

fn linear<A: ClAlgebra>(c: &Two) -> Outcome {
    let (a, b) = (mv_of::<C64, A>(&c.a), mv_of::<C64, A>(&c.b));
    let s = C64::new(c.form as f64 - 1.5, 0.25);
    let lhs = (&a * s + &b).fft();
    let rhs = a.fft() * s + b.fft();
    let tol = 1e-12 * (1. + 2. * l1(&cmodel::<C64>(&c.a)) + l1(&cmodel::<C64>(&c.b)));
    ensure(lhs.view().iter().zip(rhs.view().iter()).all(|(x, y)| (x - y).norm() <= tol), || {
        "the representation of a linear combination is not the combination of representations".into()
    })
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Arr {
    sig: String,
    dims: [usize; 3],
    /// memory layout: 0 rows, 1 columns, 2 reversed rows
    layout: u8,
    vals: Vec<[i8; 2]>,
}

fn array(c: &Arr) -> Array3<C64> {
    let [p, q, r] = c.dims;
    let val = |i: usize, j: usize, k: usize| {
        let n = c.vals.len();
        if n == 0 {
            return C64::new(0., 0.);
        }
        let v = c.vals[(i * q * r + j * r + k) % n];
        C64::new(v[0] as f64, v[1] as f64 / 4.)
    };
    match c.layout % 3 {
        0 => Array3::from_shape_fn((p, q, r), |(i, j, k)| val(i, j, k)),
        1 => {
            let mut a = Array3::zeros((p, q, r).f());
            for ((i, j, k), x) in a.indexed_iter_mut() {
                *x = val(i, j, k);
            }
            a
        }
        _ => {
            let mut a = Array3::from_shape_fn((p, q, r), |(i, j, k)| val(i, if q > 0 { q - 1 - j } else { 0 }, k));
            a.invert_axis(ndarray::Axis(1));
            a
        }
    }
}

fn arrays<A: ClAlgebra>(c: &Arr) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let (p, q, r) = shape_of(&alg);
    let ok = c.dims == [p, q, r];
    let a = array(c);
    match FFTRepr::<A>::from_array3(a.clone()) {
        Err(_) if !ok => Ok(()),
        Err(e) => Err(format!("shape {:?} rejected with {e:?}", c.dims)),
        Ok(_) if !ok => Err(format!("shape {:?} accepted, should be {:?}", c.dims, (p, q, r))),
        Ok(f) => {
            ensure(f.view() == a, || "the view differs from the given array".into())?;
            same("shape", &f.shape(), &(p, q, r))?;
            same("is_zero", &f.is_zero(), &a.iter().all(|x| x.re == 0. && x.im == 0.))?;
            if alg.nonnull_dim() % 2 == 0 {
                // every matrix represents something
                let again = f.ifft::<C64>().fft();
                ensure(again.approx_eq(&f, 1e-9), || "the array does not survive going to a multivector and back".into())?;
            }
            ensure(f.into_array3() == a, || "into_array3 differs from the given array".into())
        }
    }
}

fn matrices<A: ClAlgebra + NonDegenerate>(c: &Arr) -> Outcome {
    let side = Alg::parse(&c.sig).side();
    let a = array(c);
    let m: Array2<C64> = a.index_axis_move(ndarray::Axis(0), 0);
    let ok = m.dim() == (side, side);
    match FFTRepr::<A>::from_array2(m.clone()) {
        Err(_) if !ok => Ok(()),
        Err(e) => Err(format!("a matrix of shape {:?} rejected with {e:?}", m.dim())),
        Ok(_) if !ok => Err(format!("a matrix of shape {:?} accepted, should be {side}x{side}", m.dim())),
        Ok(f) => {
            ensure(f.view().index_axis(ndarray::Axis(0), 0) == m, || "the view differs from the given matrix".into())?;
            ensure(f.clone().into_array2() == m, || "into_array2 differs from the given matrix".into())?;
            ensure(f.into_array3().into_shape_clone((side, side)).unwrap() == m, || "into_array3 differs".into())
        }
    }
}

fn arrs(sigs: Vec<&'static str>, first: bool) -> BoxedStrategy<Arr> {
    (
        pick(sigs),
        0u8..10,
        [0usize..9, 0usize..9, 0usize..9],
        0u8..3,
        proptest::collection::vec([-20i8..=20, -20i8..=20], 1..24),
    )
        .prop_map(move |(sig, kind, any, layout, vals)| {
            let (p, q, r) = shape_of(&Alg::parse(&sig));
            let dims = match kind {
                0 => any,
                1 => [p * 2, q, r],
                2 => [p, q * 2, r],
                3 => [p, q, r * 2],
                4 => [p, q * 2, r / 2],
                5 => [p * 4, q / 2, r / 2],
                _ => [p, q, r],
            };
            let dims = if first { dims } else { [1, dims[1], dims[2]] };
            Arr { sig, dims, layout, vals }
        })
        .boxed()
}

fn class_arr(c: &Arr) -> Class {
    let (p, q, r) = shape_of(&Alg::parse(&c.sig));
    let ok = c.dims == [p, q, r];
    class(
        format!(
            "{} shape, layout {}",
            if ok {
                "right"
            } else if c.dims.iter().product::<usize>() == p * q * r {
                "wrong shape of the right size, wrong"
            } else {
                "wrong"
            },
            c.layout
        ),
        true,
    )
}
fn small(c: &Arr) -> bool {
    c.dims.iter().all(|d| *d <= 4096) && c.dims.iter().product::<usize>() <= 1 << 16
}
fn small_matrix(c: &Arr) -> bool {
    small(c) && c.dims[0] == 1
}

fn blade<A: ClAlgebra>(c: &(String, u64)) -> Outcome {
    let r = Multivector::<f64, A>::zero().set_by_idx(c.1 as usize, 1.).fft();
    close("a basis blade", &back(&r), &Mv::blade(c.1, C64::new(1., 0.)), 1e-12)?;
    // a blade is a monomial matrix: one unit entry in every row of its layer
    let (p, q, _) = shape_of(&Alg::parse(&c.0));
    let v = r.view();
    let layer = (c.1 >> Alg::parse(&c.0).nonnull_dim()) as usize;
    for i in 0..p {
        for j in 0..q {
            let n: f64 = v.slice(ndarray::s![i, j, ..]).iter().map(|x| x.norm()).sum();
            let want = if i == layer { 1. } else { 0. };
            ensure((n - want).abs() < 1e-12, || format!("row {j} of layer {i} of blade {:#b} sums to {n}", c.1))?;
        }
    }
    Ok(())
}

/// The transforms are linear, also for tiny and huge coefficients.
fn scales<A: ClAlgebra>(c: &Sized2) -> Outcome {
    let (a, x) = (mv_sized::<A>(&c.a, 0), mv_sized::<A>(&c.a, c.e));
    let tol = 1e-13 * l1(&cmodel::<C64>(&c.a));
    let (f, g) = (a.fft(), x.fft());
    same_scaled_repr("representation", &g, c.e, &f, tol)?;
    same_scaled("round trip", all_coeffs(&g.ifft::<C64>()).into_iter(), c.e, all_coeffs(&a).into_iter(), tol)
}

fn main() {
    Check::new("C10")
        .assume("coefficients are moderate, so that rounding is relative to their sum")
        .each(
            "every-blade",
            "every basis blade of the signatures with up to 7 (thorough: 10) generators",
            |t| {
                let mut v = vec![];
                for s in sigs_all() {
                    if s.len() <= if t { 10 } else { 7 } {
                        for a in 0..1u64 << s.len() {
                            v.push((s.to_string(), a));
                        }
                    }
                }
                v
            },
            |c| class(sig_label(&c.0), true),
            |c| dispatch_all!(c.0.as_str(), blade[](c)),
        )
        .law(
            "roundtrip-f64",
            "random f64 multivectors with full mantissas in the listed signatures; non-trivial when non-zero",
            30_000,
            600_000,
            || one_mv(sigs_all()),
            class_one,
            |c| dispatch_all!(c.sig.as_str(), roundtrip[f64](c)),
        )
        .law(
            "roundtrip-complex64",
            "the same for complex coefficients",
            30_000,
            600_000,
            || one_mv(sigs_all()),
            class_one,
            |c| dispatch_all!(c.sig.as_str(), roundtrip[C64](c)),
        )
        .law(
            "roundtrip-f32",
            "the same for f32",
            10_000,
            200_000,
            || one_mv(sigs_few()),
            class_one,
            |c| dispatch_few!(c.sig.as_str(), roundtrip[f32](c)),
        )
        .law(
            "roundtrip-complex32",
            "the same for complex f32",
            10_000,
            200_000,
            || one_mv(sigs_few()),
            class_one,
            |c| dispatch_few!(c.sig.as_str(), roundtrip[C32](c)),
        )
        .law(
            "linear",
            "random pairs; non-trivial when both are non-zero",
            10_000,
            200_000,
            || two(sigs_few()),
            class_two,
            |c| dispatch_few!(c.sig.as_str(), linear[](c)),
        )
        .law_on(
            "arrays",
            "random arrays of the documented shape and near it, in three memory layouts",
            (16_000, 300_000),
            || arrs(sigs_all().into_iter().filter(|s| s.len() <= 8).collect(), true),
            class_arr,
            small,
            |c| dispatch_all!(c.sig.as_str(), arrays[](c)),
        )
        .law_on(
            "matrices",
            "the same for matrices in non-degenerate signatures",
            (16_000, 300_000),
            || arrs(sigs_nondeg(), false),
            class_arr,
            small_matrix,
            |c| dispatch_nondeg!(c.sig.as_str(), matrices[](c)),
        )
        .law(
            "roundtrip-13-to-16-generators",
            "the same with 13 to 16 generators",
            240,
            4_000,
            || one_mv(sigs_vast()),
            class_one,
            |c| dispatch_vast!(c.sig.as_str(), roundtrip[C64](c)),
        )
        .budget(60)
        .law_on(
            "scales",
            "complex multivectors scaled by powers of two between 2^-300 and 2^300; non-trivial when not zero",
            (8_000, 150_000),
            || sized(sigs_few(), 24),
            class_sized,
            valid_sized,
            |c| dispatch_few!(c.sig.as_str(), scales[](c)),
        )
        .main()
}
