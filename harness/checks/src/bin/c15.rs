//! C15: the raw transform of coefficient arrays is an invertible algebra homomorphism.
use checks::repr::*;
use checks::*;
use ndarray::{s, Array1, Array2, ArrayView1, ShapeBuilder};
use tclifford::clifft::{clifft, iclifft, iclifft_into, imaginary_flip, parity_flip, reversal};
use tclifford::types::IntoComplex64;
use vcore::rings::Fp;

type V = Array1<C64>;
type M = Array2<C64>;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Arrays {
    len: usize,
    a: Vec<Coeff>,
    b: Vec<Coeff>,
    /// 0 plain, 1 every second element, 2 backwards
    stride: u8,
}

fn coef(v: &[Coeff], i: usize) -> Coeff {
    if v.is_empty() {
        [0; 4]
    } else {
        // not periodic in powers of two
        v[(gens::mix(i as u64) % v.len() as u64) as usize]
    }
}

fn with_view<T: Clone + Fc, X>(len: usize, stride: u8, f: impl Fn(usize) -> T, g: impl FnOnce(ArrayView1<T>) -> X) -> X {
    match stride % 3 {
        0 => g(Array1::from_shape_fn(len, f).view()),
        1 => {
            let a = Array1::from_shape_fn(2 * len, |i| if i % 2 == 0 { f(i / 2) } else { T::mk(&[77, 7, 0, 0]) });
            g(a.slice(s![..;2]))
        }
        _ => {
            let a = Array1::from_shape_fn(len, |i| f(len - 1 - i));
            g(a.slice(s![..;-1]))
        }
    }
}

fn side_of(dim: usize) -> usize {
    1 << ((dim + 1) / 2)
}

fn vec_of(m: &Mv<C64>, len: usize) -> V {
    Array1::from_shape_fn(len, |i| m.get(i as u64))
}

fn near(what: &str, a: &V, b: &V, tol: f64) -> Outcome {
    ensure(a.len() == b.len(), || format!("{what}: length {} instead of {}", a.len(), b.len()))?;
    for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
        ensure((x - y).norm() <= tol, || format!("{what}: element {i:#b} is {x}, expected {y}"))?;
    }
    Ok(())
}
fn near_m(what: &str, a: &M, b: &M, tol: f64) -> Outcome {
    ensure(a.dim() == b.dim() && a.iter().zip(b.iter()).all(|(x, y)| (x - y).norm() <= tol), || format!("{what}: matrices differ"))
}

fn transform<T: Fc + IntoComplex64>(c: &Arrays) -> Outcome {
    let r = with_view(c.len, c.stride, |i| T::mk(&coef(&c.a, i)), |v| clifft(v));
    if !c.len.is_power_of_two() {
        return ensure(r.is_err(), || format!("an array of length {} is transformed", c.len));
    }
    let ma = match r {
        Ok(m) => m,
        Err(e) => return Err(format!("an array of length {} is rejected with {e:?}", c.len)),
    };
    let dim = c.len.ilog2() as usize;
    let side = side_of(dim);
    same("shape", &ma.dim(), &(side, side))?;
    let alg = Alg { sig: vec![1; dim] };
    let mod_a = Mv::from_terms((0..c.len).map(|i| (i as u64, T::mk(&coef(&c.a, i)).c64())));
    let mod_b = Mv::from_terms((0..c.len).map(|i| (i as u64, T::mk(&coef(&c.b, i)).c64())));
    let (la, lb) = (l1(&mod_a), l1(&mod_b));
    let tol = 1e-13 * (1. + la);
    let full = side * side;
    let inverse = |what: &str, m: &M| match iclifft(m.view()) {
        Ok(v) => Ok(v),
        Err(e) => Err(format!("{what}: the inverse is rejected with {e:?}")),
    };
    near("round trip", &inverse("round trip", &ma)?, &vec_of(&mod_a, full), tol)?;
    // into a given place
    let mut dest = V::from_elem(2 * full, C64::new(5., 5.));
    let res = match c.stride % 3 {
        1 => iclifft_into(ma.view(), dest.slice_mut(s![..;2])),
        2 => iclifft_into(ma.t().t(), dest.slice_mut(s![full..])),
        _ => iclifft_into(ma.view(), dest.slice_mut(s![..full])),
    };
    ensure(res.is_ok(), || "iclifft_into rejected a destination of the right size".into())?;
    let placed = match c.stride % 3 {
        1 => dest.slice(s![..;2]).to_owned(),
        2 => dest.slice(s![full..]).to_owned(),
        _ => dest.slice(s![..full]).to_owned(),
    };
    near("iclifft_into", &placed, &vec_of(&mod_a, full), tol)?;
    let untouched = dest.iter().filter(|x| **x == C64::new(5., 5.)).count();
    ensure(untouched >= full, || "iclifft_into wrote outside of its destination".into())?;

    let mb = with_view(c.len, 0, |i| T::mk(&coef(&c.b, i)), |v| clifft(v)).map_err(|e| format!("{e:?}"))?;
    let ptol = 1e-13 * (1. + la * lb) * 4.;
    if dim <= 7 {
        let p = alg.mul(&mod_a, &mod_b);
        near("product", &inverse("product", &ma.dot(&mb))?, &vec_of(&p, full), ptol)?;
    }
    near("sum", &inverse("sum", &(&ma + &mb))?, &vec_of(&mod_a.add(&mod_b), full), tol + 1e-13 * lb)?;
    near("parity flip", &inverse("parity flip", &parity_flip(ma.view()))?, &vec_of(&alg.flip(&mod_a, u64::MAX), full), tol)?;
    // every second generator is the imaginary one
    let im = imaginary_flip(ma.view()).map_err(|e| format!("imaginary_flip: {e:?}"))?;
    near("imaginary flip", &inverse("imaginary flip", &im)?, &vec_of(&alg.flip(&mod_a, 0xAAAAAAAAAAAAAAAA), full), tol)?;
    let rev = reversal(ma.view()).map_err(|e| format!("reversal: {e:?}"))?;
    near("reversal", &inverse("reversal", &rev)?, &vec_of(&alg.rev(&mod_a), full), tol)?;
    let rp = reversal(ma.dot(&mb).view()).map_err(|e| format!("{e:?}"))?;
    let rb = reversal(mb.view()).map_err(|e| format!("{e:?}"))?;
    near_m("reversal of a product", &rp, &rb.dot(&rev), ptol)
}

fn arrays() -> BoxedStrategy<Arrays> {
    let len = prop_oneof![
        6 => (0u32..=6).prop_map(|k| 1usize << k),
        1 => (7u32..=10).prop_map(|k| 1usize << k),
        3 => 0usize..=70,
        1 => 0usize..=1030,
    ];
    (
        len,
        proptest::collection::vec(gens::coeff(), 1..20),
        proptest::collection::vec(gens::coeff(), 1..20),
        0u8..3,
    )
        .prop_map(|(len, a, b, stride)| Arrays { len, a, b, stride })
        .boxed()
}
fn class_arrays(c: &Arrays) -> Class {
    if c.len.is_power_of_two() {
        class(format!("2^{} elements, stride {}", c.len.ilog2(), c.stride), true)
    } else {
        class("length is not a power of two", true)
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Shapes {
    rows: usize,
    cols: usize,
    dest: usize,
    layout: u8,
    vals: Vec<Coeff>,
}

fn shapes_test(c: &Shapes) -> Outcome {
    let val = |i: usize, j: usize| <C64 as Fc>::mk(&coef(&c.vals, i * 1000 + j));
    let m: M = match c.layout % 2 {
        0 => M::from_shape_fn((c.rows, c.cols), |(i, j)| val(i, j)),
        _ => {
            let mut m = M::zeros((c.rows, c.cols).f());
            for ((i, j), x) in m.indexed_iter_mut() {
                *x = val(i, j);
            }
            m
        }
    };
    let ok = c.rows == c.cols && c.rows.is_power_of_two();
    let at = format!("{}x{} matrix", c.rows, c.cols);
    let r = iclifft(m.view());
    same(&format!("iclifft accepts a {at}"), &r.is_ok(), &ok)?;
    same(&format!("imaginary_flip accepts a {at}"), &imaginary_flip(m.view()).is_ok(), &ok)?;
    same(&format!("reversal accepts a {at}"), &reversal(m.view()).is_ok(), &ok)?;
    let mut dest = V::zeros(c.dest);
    let fits = ok && c.dest == c.rows * c.cols;
    same(&format!("iclifft_into accepts a {at} and {} places", c.dest), &iclifft_into(m.view(), dest.view_mut()).is_ok(), &fits)?;
    let p = parity_flip(m.view());
    same("shape of the parity flip", &p.dim(), &m.dim())?;
    if let Ok(v) = r {
        let n: f64 = m.iter().map(|x| x.norm()).sum();
        // every matrix is the transform of something
        let again = clifft(v.view()).map_err(|e| format!("{e:?}"))?;
        near_m("back to the matrix", &again, &m, 1e-12 * (1. + n))?;
        if fits {
            near("iclifft_into", &dest, &v, 1e-12 * (1. + n))?;
        }
        let twice = imaginary_flip(imaginary_flip(m.view()).unwrap().view()).unwrap();
        near_m("imaginary flip twice", &twice, &m, 0.)?;
        let twice = reversal(reversal(m.view()).unwrap().view()).unwrap();
        near_m("reversal twice", &twice, &m, 0.)?;
        near_m("parity flip twice", &parity_flip(p.view()), &m, 0.)?;
    }
    // the involutions work over any field
    let f = Array2::from_shape_fn((c.rows, c.cols), |(i, j)| Fp::new(coef(&c.vals, i * 1000 + j)[0] as i64));
    ensure(parity_flip(parity_flip(f.view()).view()) == f, || "parity flip twice over a prime field".into())?;
    same(&format!("reversal over a prime field accepts a {at}"), &reversal(f.view()).is_ok(), &ok)?;
    if ok {
        ensure(reversal(reversal(f.view()).unwrap().view()).unwrap() == f, || "reversal twice over a prime field".into())?;
    }
    Ok(())
}

fn shapes() -> BoxedStrategy<Shapes> {
    let n = || prop_oneof![2 => 0usize..=9, 2 => (0u32..=5).prop_map(|k| 1usize << k), 1 => 0usize..=33];
    (n(), n(), any::<bool>(), 0u8..6, 0usize..40, 0u8..2, proptest::collection::vec(gens::coeff(), 1..16))
        .prop_map(|(rows, cols, square, d, other, layout, vals)| {
            let cols = if square { rows } else { cols };
            let dest = match d {
                0 => other,
                1 => rows * cols + 1,
                2 => (rows * cols).saturating_sub(1),
                3 => rows * cols * 2,
                _ => rows * cols,
            };
            Shapes { rows, cols, dest, layout, vals }
        })
        .boxed()
}
fn class_shapes(c: &Shapes) -> Class {
    let ok = c.rows == c.cols && c.rows.is_power_of_two();
    class(
        format!(
            "{}, destination {}",
            if ok {
                "right shape"
            } else if c.rows == c.cols {
                "square of a wrong side"
            } else {
                "not square"
            },
            if c.dest == c.rows * c.cols { "right" } else { "wrong" }
        ),
        true,
    )
}

/// Long arrays: the transform is linear and invertible, products are checked on single blades.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Long {
    dim: u32,
    /// added to the length
    off: i64,
    terms: Vec<(u64, Coeff)>,
    other: Vec<(u64, Coeff)>,
    e: i16,
}

fn long(c: &Long) -> Outcome {
    let len = ((1i64 << c.dim) + c.off).max(0) as usize;
    let fill = |t: &[(u64, Coeff)], e: i16| {
        let mut v = V::zeros(len);
        for (i, x) in t {
            if len > 0 {
                v[(*i % len as u64) as usize] += <C64 as Fc>::mk(x) * exp2(e);
            }
        }
        v
    };
    let a = fill(&c.terms, 0);
    let r = clifft(a.view());
    if !len.is_power_of_two() {
        return ensure(r.is_err(), || format!("an array of length {len} is transformed"));
    }
    let m = r.map_err(|e| format!("an array of length {len} is rejected with {e:?}"))?;
    let dim = len.ilog2() as usize;
    let side = side_of(dim);
    same("shape", &m.dim(), &(side, side))?;
    let size: f64 = a.iter().map(|x| x.norm()).sum();
    let tol = 1e-13 * size;
    let back = iclifft(m.view()).map_err(|e| format!("the inverse is rejected with {e:?}"))?;
    let mut padded = V::zeros(side * side);
    padded.slice_mut(s![..len]).assign(&a);
    near("round trip", &back, &padded, tol)?;
    // scaled
    let ms = clifft(fill(&c.terms, c.e).view()).map_err(|e| format!("{e:?}"))?;
    same_scaled("transform", ms.iter().copied(), c.e, m.iter().copied(), tol)?;
    let bs = iclifft(ms.view()).map_err(|e| format!("{e:?}"))?;
    same_scaled("round trip", bs.iter().copied(), c.e, padded.iter().copied(), tol)?;
    // transposed and column-major matrices are the same matrices
    let t = m.t().as_standard_layout().to_owned();
    near("round trip of a transposed view", &iclifft(t.t()).map_err(|e| format!("{e:?}"))?, &padded, tol)?;
    let alg = Alg { sig: vec![1; dim] };
    let model = |v: &V| Mv::from_terms(v.iter().enumerate().filter(|(_, x)| x.norm() != 0.).map(|(i, x)| (i as u64, *x)));
    let ma = model(&a);
    let inverse = |m: &M| iclifft(m.view()).map_err(|e| format!("the inverse is rejected with {e:?}"));
    near("parity flip", &inverse(&parity_flip(m.view()))?, &vec_of(&alg.flip(&ma, u64::MAX), side * side), tol)?;
    let im = imaginary_flip(m.view()).map_err(|e| format!("imaginary_flip: {e:?}"))?;
    near("imaginary flip", &inverse(&im)?, &vec_of(&alg.flip(&ma, 0xAAAAAAAAAAAAAAAA), side * side), tol)?;
    let rev = reversal(m.view()).map_err(|e| format!("reversal: {e:?}"))?;
    near("reversal", &inverse(&rev)?, &vec_of(&alg.rev(&ma), side * side), tol)?;
    let b = fill(&c.other, 0);
    let mb = clifft(b.view()).map_err(|e| format!("{e:?}"))?;
    let lb: f64 = b.iter().map(|x| x.norm()).sum();
    if side <= 64 {
        near("product", &inverse(&m.dot(&mb))?, &vec_of(&alg.mul(&ma, &model(&b)), side * side), 1e-12 * size * lb)?;
    }
    Ok(())
}
fn longs() -> BoxedStrategy<Long> {
    let off = prop_oneof![12 => Just(0i64), 1 => Just(1), 1 => Just(-1), 1 => -1000i64..1000, 1 => Just(1 << 11), 1 => Just(1 << 12)];
    let dim = prop_oneof![24 => 7u32..=12, 4 => 13u32..=14, 1 => 15u32..=16];
    let t = || proptest::collection::vec((any::<u64>(), gens::coeff()), 1..12);
    (dim, off, t(), t(), -300i16..=300).prop_map(|(dim, off, terms, other, e)| Long { dim, off, terms, other, e }).boxed()
}

fn main() {
    let small = |c: &Arrays| c.len <= 2048;
    Check::new("C15")
        .assume("coefficients are moderate, so that rounding is relative to their sum")
        .law_on(
            "transform-complex64",
            "random arrays of any length up to 1030 (mostly powers of two), plain, strided and reversed",
            (16_000, 300_000),
            arrays,
            class_arrays,
            small,
            transform::<C64>,
        )
        .law_on("transform-f64", "the same for f64", (12_000, 200_000), arrays, class_arrays, small, transform::<f64>)
        .law_on("transform-f32", "the same for f32", (6_000, 100_000), arrays, class_arrays, small, transform::<f32>)
        .law_on("transform-complex32", "the same for complex f32", (6_000, 100_000), arrays, class_arrays, small, transform::<C32>)
        .law_on(
            "shapes",
            "matrices of any shape up to 33x33 and destinations of any length",
            (20_000, 400_000),
            shapes,
            class_shapes,
            |c| c.rows <= 64 && c.cols <= 64 && c.dest <= 20_000,
            shapes_test,
        )
        .law_on(
            "long-arrays",
            "arrays of 2^7 to 2^16 elements (and lengths that are not powers of two) with few elements that are not zero, scaled by powers of two between 2^-300 and 2^300; transposed matrices",
            (700, 12_000),
            longs,
            |c| class(format!("2^{} + {}", c.dim, c.off.signum()), !c.terms.is_empty()),
            |c| c.dim <= 16 && c.off.abs() <= 5000 && c.e.abs() <= 300,
            long,
        )
        .budget(300)
        .main()
}
