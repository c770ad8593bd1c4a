//! C25: multivectors work over any coefficient ring.
use checks::algs::*;
use checks::*;
use num::{BigInt, BigRational};
use std::collections::BTreeMap;
use tclifford::quaternion::Quaternion;
use tclifford::types::Ring;
use tclifford::{ClAlgebra, Multivector, SparseMultivector};
use vcore::model::R;
use vcore::rings::{Dual, Fp, M2, P, Z12};

/// Two multivectors, a scalar and a small exponent, mask and grade.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Ops {
    sig: String,
    a: Terms,
    b: Terms,
    s: Coeff,
    n: usize,
    mask: u64,
}
fn ops(sigs: Vec<&'static str>, cap: usize) -> BoxedStrategy<Ops> {
    pick(sigs)
        .prop_flat_map(move |s| {
            let d = s.len();
            (Just(s), gens::pair(d, cap_for(d).min(cap)), gens::coeff(), 0usize..5, any::<u64>())
        })
        .prop_map(|(sig, (a, b), s, n, m)| Ops { mask: m & gens::mask(sig.len()), sig, a, b, s, n })
        .boxed()
}
fn valid(c: &Ops) -> bool {
    c.n <= 6 && c.a.iter().chain(&c.b).all(|(i, _)| i & !gens::mask(c.sig.len()) == 0)
}
fn class_ops(c: &Ops) -> Class {
    let (x, y) = (gens::support(&c.a), gens::support(&c.b));
    class(format!("dim {}, terms {} x {}", c.sig.len(), size_label(x), size_label(y)), x > 0 && y > 0)
}

/// All ring-generic operations of one kind of multivector.
fn results<T: Ring + R, M: MvLike<T>>(c: &Ops, mk: fn(&Coeff) -> T) -> Result<Vec<(&'static str, Mv<T>)>, String> {
    let build = |t: &Terms| M::from_indexed(t.iter().map(|(i, x)| (*i as usize, mk(x))).collect()).map_err(|e| format!("valid terms rejected with {e:?}"));
    let (a, b, s) = (build(&c.a)?, build(&c.b)?, mk(&c.s));
    let g = c.mask.count_ones() as usize;
    let scalar = |x: T| Ok(Mv::from_terms([(0, x)]));
    let mut out = vec![];
    let all: Vec<(&'static str, Result<Mv<T>, String>)> = vec![
        ("construction", a.read()),
        ("sum", a.add_(&b, 0).read()),
        ("difference", a.sub_(&b, 1).read()),
        ("negation", a.neg_(0).read()),
        ("multiple", a.smul_(&s, 0).read()),
        ("product", a.mul_(&b, 0).read()),
        ("naive product", a.naive_mul(&b).read()),
        ("wedge", a.wedge_(&b).read()),
        ("naive wedge", a.naive_wedge(&b).read()),
        ("meet", a.meet_(&b).read()),
        ("naive meet", a.naive_meet(&b).read()),
        ("dual", a.dual_().read()),
        ("undual", a.undual_().read()),
        ("reversal", a.rev_().read()),
        ("flip", a.flip_().read()),
        ("subspace flip", a.flip_sub(c.mask as usize).read()),
        ("grade", a.grade_(g).read()),
        ("dot product", scalar(a.vsdot_(&b))),
        ("signature dot product", scalar(a.vdot_(&b))),
        ("squared magnitude", scalar(a.mag2_())),
        ("scalar part", scalar(a.scalar_())),
        ("power", a.pow_(c.n).read()),
        ("other storage", a.sparse().read()),
        ("vector part", Ok(Mv::from_terms(a.vector_part().into_iter().enumerate().map(|(i, x)| (1 << i, x))))),
    ];
    for (name, r) in all {
        out.push((name, r.map_err(|e| format!("{name}: {e}"))?));
    }
    Ok(out)
}

/// The same by the model.
fn expected<T: R>(c: &Ops, mk: fn(&Coeff) -> T) -> Vec<(&'static str, Mv<T>)> {
    let alg = Alg::parse(&c.sig);
    let build = |t: &Terms| Mv::from_terms(t.iter().map(|(i, x)| (*i, mk(x))));
    let (a, b, s) = (build(&c.a), build(&c.b), mk(&c.s));
    let scalar = |m: Mv<T>| m.grade(0);
    let mut dot = T::zero();
    for (i, x) in &a.c {
        dot = dot + x.clone() * b.get(*i);
    }
    vec![
        ("construction", a.clone()),
        ("sum", a.add(&b)),
        ("difference", a.sub(&b)),
        ("negation", a.neg()),
        ("multiple", a.scale(&s)),
        ("product", alg.mul(&a, &b)),
        ("naive product", alg.mul(&a, &b)),
        ("wedge", alg.wedge_mv(&a, &b)),
        ("naive wedge", alg.wedge_mv(&a, &b)),
        ("meet", alg.meet(&a, &b)),
        ("naive meet", alg.meet(&a, &b)),
        ("dual", alg.dual(&a)),
        ("undual", alg.undual(&a)),
        ("reversal", alg.rev(&a)),
        ("flip", alg.flip(&a, u64::MAX)),
        ("subspace flip", alg.flip(&a, c.mask)),
        ("grade", a.grade(c.mask.count_ones() as usize)),
        ("dot product", Mv::from_terms([(0, dot)])),
        ("signature dot product", scalar(alg.mul(&a, &b))),
        ("squared magnitude", scalar(alg.mul(&alg.rev(&a), &a))),
        ("scalar part", a.grade(0)),
        ("power", alg.pow(&a, c.n)),
        ("other storage", a.clone()),
        ("vector part", a.grade(1)),
    ]
}

fn compare<T: R>(what: &str, got: &[(&'static str, Mv<T>)], want: &[(&'static str, Mv<T>)]) -> Outcome {
    for ((n, g), (_, w)) in got.iter().zip(want) {
        ensure(g == w, || format!("{n} ({what}): got {}, expected {}", show(g), show(w)))?;
    }
    Ok(())
}

fn ring<T: Ring + R, A: ClAlgebra>(c: &Ops, name: &str, mk: fn(&Coeff) -> T) -> Outcome {
    let want = expected(c, mk);
    compare(&format!("{name}, dense"), &results::<T, Multivector<T, A>>(c, mk)?, &want)?;
    compare(&format!("{name}, sparse"), &results::<T, SparseMultivector<T, A>>(c, mk)?, &want)
}
fn quaternion_of(c: &Coeff) -> Quaternion<Fp> {
    Quaternion::from_indexed_iter((0..4).map(|i| (i, Fp::new(c[i] as i64)))).unwrap()
}
fn rings_a<A: ClAlgebra>(c: &Ops) -> Outcome {
    ring::<M2, A>(c, "matrices", M2::mk)?;
    ring::<Z12, A>(c, "integers modulo 12", Z12::mk)?;
    ring::<Dual, A>(c, "dual numbers", Dual::mk)
}
fn rings_b<A: ClAlgebra>(c: &Ops) -> Outcome {
    ring::<num::complex::Complex<i64>, A>(c, "Gaussian integers", Coef::mk)?;
    ring::<BigRational, A>(c, "rationals", Coef::mk)?;
    ring::<i128, A>(c, "i128", Coef::mk)
}
/// Quaternions over a prime field: not commutative, with the library's own type.
fn rings_q<A: ClAlgebra>(c: &Ops) -> Outcome {
    fn mk(c: &Coeff) -> Qm {
        Qm([0, 1, 2, 3].map(|i| Fp::new(c[i] as i64)))
    }
    // the model has its own quaternions: blades of Cl(0,2) are 1, e0, e1, e1 e0
    let want = expected(c, mk);
    let down = |r: Vec<(&'static str, Mv<Quaternion<Fp>>)>| -> Vec<(&'static str, Mv<Qm>)> {
        r.into_iter().map(|(n, m)| (n, Mv::from_terms(m.c.iter().map(|(i, q)| (*i, Qm([0, 1, 2, 3].map(|k| q.get_by_idx(k)))))))).collect()
    };
    compare("quaternions, dense", &down(results::<_, Multivector<Quaternion<Fp>, A>>(c, quaternion_of)?), &want)?;
    compare("quaternions, sparse", &down(results::<_, SparseMultivector<Quaternion<Fp>, A>>(c, quaternion_of)?), &want)
}

/// Quaternions of the model, by the coefficients of 1, x, y, yx with x^2 = y^2 = -1.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Qm([Fp; 4]);
impl std::ops::Add for Qm {
    type Output = Qm;
    fn add(self, o: Qm) -> Qm {
        Qm([0, 1, 2, 3].map(|i| self.0[i] + o.0[i]))
    }
}
impl std::ops::Sub for Qm {
    type Output = Qm;
    fn sub(self, o: Qm) -> Qm {
        Qm([0, 1, 2, 3].map(|i| self.0[i] - o.0[i]))
    }
}
impl std::ops::Neg for Qm {
    type Output = Qm;
    fn neg(self) -> Qm {
        Qm(self.0.map(|x| -x))
    }
}
impl std::ops::Mul for Qm {
    type Output = Qm;
    fn mul(self, o: Qm) -> Qm {
        let ([a, b, c, d], [e, f, g, h]) = (self.0, o.0);
        // z = yx: xy = -z, yx = z, xz = x y x = y, zx = y x x = -y, yz = y y x = -x, zy = y x y = x
        Qm([
            a * e - b * f - c * g - d * h,
            a * f + b * e - c * h + d * g,
            a * g + c * e + b * h - d * f,
            a * h + d * e - b * g + c * f,
        ])
    }
}
impl num::Zero for Qm {
    fn zero() -> Qm {
        Qm([Fp(0); 4])
    }
    fn is_zero(&self) -> bool {
        self.0.iter().all(|x| x.0 == 0)
    }
}
impl num::One for Qm {
    fn one() -> Qm {
        Qm([Fp(1), Fp(0), Fp(0), Fp(0)])
    }
}

/// The images of the results are the results of the images.
fn images<A: ClAlgebra>(c: &Ops) -> Outcome {
    let modp = |x: &BigInt| {
        let r: BigInt = ((x % P) + P) % P;
        Fp::new(r.to_string().parse().unwrap())
    };
    fn through<T: R, U: R>(name: &str, got: &[(&'static str, Mv<T>)], want: &[(&'static str, Mv<U>)], f: &dyn Fn(&T) -> U) -> Outcome {
        let img: Vec<(&'static str, Mv<U>)> = got.iter().map(|(n, m)| (*n, Mv::from_terms(m.c.iter().map(|(i, x)| (*i, f(x)))))).collect();
        compare(name, &img, want)
    }
    fn big_mk(c: &Coeff) -> BigInt {
        BigInt::from(c[0]) * 1_000_003i64 * 1_000_003i64 * 1_000_003i64 + BigInt::from(c[1])
    }
    fn big_fp(c: &Coeff) -> Fp {
        let k = Fp::new(1_000_003);
        Fp::new(c[0] as i64) * k * k * k + Fp::new(c[1] as i64)
    }
    let dense = results::<_, Multivector<BigInt, A>>(c, big_mk)?;
    let sparse = results::<_, SparseMultivector<BigInt, A>>(c, big_mk)?;
    let field_d = results::<_, Multivector<Fp, A>>(c, big_fp)?;
    let field_s = results::<_, SparseMultivector<Fp, A>>(c, big_fp)?;
    through("integers modulo a prime, dense", &dense, &field_d, &modp)?;
    through("integers modulo a prime, sparse", &sparse, &field_s, &modp)?;
    compare("dense against sparse", &dense, &sparse)?;
    // dual numbers to their bodies, and integers into matrices
    let dual = results::<_, Multivector<Dual, A>>(c, Dual::mk)?;
    let body = results::<_, Multivector<Fp, A>>(c, Fp::mk)?;
    through("bodies of dual numbers", &dual, &body, &|x: &Dual| x.0)?;
    // conjugation of Gaussian integers
    fn conj(c: &Coeff) -> num::complex::Complex<i64> {
        num::complex::Complex::new(c[0] as i64, -c[1] as i64)
    }
    let z = results::<_, SparseMultivector<num::complex::Complex<i64>, A>>(c, Coef::mk)?;
    let zc = results::<_, SparseMultivector<num::complex::Complex<i64>, A>>(c, conj)?;
    through("conjugation", &z, &zc, &|x: &num::complex::Complex<i64>| x.conj())
}

// ---- multivectors as coefficients ----

/// An element of the tensor product: coefficients by pairs of blades.
type Tensor = BTreeMap<(u64, u64), i64>;

/// Terms of the outer algebra, each with up to three terms of the inner one.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Nested {
    sig: String,
    inner: String,
    a: Vec<(u64, u64, i32)>,
    b: Vec<(u64, u64, i32)>,
}
const INNER: [&str; 5] = ["+-", "--", "+0", "+-+-", "+++0"];

fn tensor(t: &[(u64, u64, i32)]) -> Tensor {
    let mut r = Tensor::new();
    for (i, j, x) in t {
        *r.entry((*i, *j)).or_default() += *x as i64;
    }
    clean(r)
}
fn clean(mut t: Tensor) -> Tensor {
    t.retain(|_, x| *x != 0);
    t
}
fn tensor_mul(f: impl Fn(u64, u64) -> (u64, i8), g: impl Fn(u64, u64) -> (u64, i8), a: &Tensor, b: &Tensor) -> Tensor {
    let mut r = Tensor::new();
    for ((i, j), x) in a {
        for ((k, l), y) in b {
            let ((m, s), (n, t)) = (f(*i, *k), g(*j, *l));
            *r.entry((m, n)).or_default() += (s * t) as i64 * x * y;
        }
    }
    clean(r)
}

macro_rules! nested {
    ($name:ident, $outer:ident, $inner:ident, $kind:literal) => {
        fn $name<A: ClAlgebra, B: ClAlgebra + std::fmt::Debug>(c: &Nested) -> Outcome {
            type In<B> = $inner<i64, B>;
            type Out<A, B> = $outer<In<B>, A>;
            let (oa, ob) = (Alg::parse(&c.sig), Alg::parse(&c.inner));
            let build = |t: &Tensor| -> Out<A, B> {
                let mut m: BTreeMap<u64, In<B>> = BTreeMap::new();
                for ((i, j), x) in t {
                    let e = m.remove(i).unwrap_or_else(In::<B>::zero_);
                    m.insert(*i, e.set_by_idx(*j as usize, *x));
                }
                Out::<A, B>::from_indexed_iter(m.into_iter().map(|(i, e)| (i as usize, e))).unwrap()
            };
            let read = |what: &str, m: &Out<A, B>, want: &Tensor| -> Outcome {
                let mut r = Tensor::new();
                for (i, e) in m.coeff_enumerate() {
                    for (j, x) in e.coeff_enumerate() {
                        r.insert((i as u64, j as u64), *x);
                    }
                }
                ensure(clean(r.clone()) == *want, || format!("{what} ({}): got {r:?}, expected {want:?}", $kind))
            };
            let (ta, tb) = (tensor(&c.a), tensor(&c.b));
            let (a, b) = (build(&ta), build(&tb));
            read("construction", &a, &ta)?;
            let p = tensor_mul(|i, k| oa.geo(i, k), |j, l| ob.geo(j, l), &ta, &tb);
            read("product", &(&a * &b), &p)?;
            let zero_blade = |x: Option<(u64, i8)>| x.unwrap_or((0, 0));
            let w = tensor_mul(|i, k| zero_blade(oa.wedge(i, k)), |j, l| ob.geo(j, l), &ta, &tb);
            read("wedge", &a.wedge_(&b), &w)?;
            let rev = |t: &Tensor| -> Tensor { t.iter().map(|((i, j), x)| ((*i, *j), if i.count_ones() / 2 % 2 == 1 { -x } else { *x })).collect() };
            read("reversal", &a.rev(), &rev(&ta))?;
            let mut s = ta.clone();
            for (k, x) in &tb {
                *s.entry(*k).or_default() += x;
            }
            read("sum", &(&a + &b), &clean(s))?;
            let part = |t: Tensor| -> BTreeMap<u64, i64> { t.into_iter().filter(|((i, _), _)| *i == 0).map(|((_, j), x)| (j, x)).collect() };
            let inner = |what: &str, e: In<B>, want: BTreeMap<u64, i64>| -> Outcome {
                let got: BTreeMap<u64, i64> = e.coeff_enumerate().filter(|(_, x)| **x != 0).map(|(j, x)| (j as u64, *x)).collect();
                same(&format!("{what} ({})", $kind), &got, &want)
            };
            inner("signature dot product", a.vdot(&b), part(p))?;
            inner("squared magnitude", a.mag2(), part(tensor_mul(|i, k| oa.geo(i, k), |j, l| ob.geo(j, l), &rev(&ta), &ta)))?;
            // the inner and the outer generators commute
            let (ea, eb) = (build(&tensor(&c.a[..c.a.len().min(1)])), tb.iter().map(|((_, j), x)| ((0, *j), *x)).collect::<Tensor>());
            let outer_only: Tensor = tensor(&c.a).iter().map(|((i, _), x)| ((*i, 0), *x)).collect();
            let (o, i) = (build(&outer_only), build(&eb));
            ensure(&o * &i == &i * &o, || format!("outer and inner elements do not commute ({})", $kind))?;
            read("unit", &(&ea * &Out::<A, B>::one_()), &tensor(&c.a[..c.a.len().min(1)]))
        }
    };
}
nested!(dense_dense, Multivector, Multivector, "dense of dense");
nested!(dense_sparse, Multivector, SparseMultivector, "dense of sparse");
nested!(sparse_dense, SparseMultivector, Multivector, "sparse of dense");
nested!(sparse_sparse, SparseMultivector, SparseMultivector, "sparse of sparse");
fn kinds<A: ClAlgebra, B: ClAlgebra + std::fmt::Debug>(c: &Nested) -> Outcome {
    dense_dense::<A, B>(c)?;
    dense_sparse::<A, B>(c)?;
    sparse_dense::<A, B>(c)?;
    sparse_sparse::<A, B>(c)
}
fn outer<A: ClAlgebra>(c: &Nested) -> Outcome {
    match c.inner.as_str() {
        "+-" => kinds::<A, Apm>(c),
        "--" => kinds::<A, Amm>(c),
        "+0" => kinds::<A, Apn>(c),
        "+-+-" => kinds::<A, Apmpm>(c),
        _ => kinds::<A, Apppn>(c),
    }
}
fn nests() -> BoxedStrategy<Nested> {
    (pick(sigs_few()), pick(INNER.to_vec()))
        .prop_flat_map(|(s, t)| {
            let (d, e) = (s.len(), t.len());
            let term = move || (any::<u64>(), any::<u64>(), -9i32..=9).prop_map(move |(i, j, x)| (i & gens::mask(d), j & gens::mask(e), x));
            (Just(s), Just(t), proptest::collection::vec(term(), 0..12), proptest::collection::vec(term(), 0..12))
        })
        .prop_map(|(sig, inner, a, b)| Nested { sig, inner, a, b })
        .boxed()
}
fn valid_nested(c: &Nested) -> bool {
    INNER.contains(&c.inner.as_str())
        && c.a.iter().chain(&c.b).all(|(i, j, _)| i & !gens::mask(c.sig.len()) == 0 && j & !gens::mask(c.inner.len()) == 0)
}
fn class_nested(c: &Nested) -> Class {
    class(
        format!("dim {} over {}, terms {} x {}", c.sig.len(), c.inner, size_label(c.a.len()), size_label(c.b.len())),
        tensor(&c.a).keys().any(|(i, j)| *i != 0 && *j != 0) && !tensor(&c.b).is_empty(),
    )
}

fn main() {
    Check::new("C25")
        .assume("the coefficient types are rings with exact arithmetic")
        .law_on(
            "unusual-rings",
            "random pairs over 2x2 matrices (not commutative), integers modulo 12 and dual numbers (zero divisors), 24 operations, dense and sparse; non-trivial when both are non-zero",
            (8_000, 150_000),
            || ops(sigs_few(), 24),
            class_ops,
            valid,
            |c| dispatch_few!(c.sig.as_str(), rings_a[](c)),
        )
        .law_on(
            "number-rings",
            "the same over Gaussian integers, rationals and i128",
            (4_000, 80_000),
            || ops(sigs_few(), 12),
            class_ops,
            |c| valid(c) && c.a.iter().chain(&c.b).all(|(_, x)| x.iter().all(|v| v.abs() <= 300)),
            |c| dispatch_few!(c.sig.as_str(), rings_b[](c)),
        )
        .law_on(
            "quaternion-ring",
            "the same over quaternions of a prime field",
            (4_000, 80_000),
            || ops(sigs_few(), 16),
            class_ops,
            valid,
            |c| dispatch_few!(c.sig.as_str(), rings_q[](c)),
        )
        .law_on(
            "homomorphisms",
            "random pairs over large integers and modulo a prime, dual numbers and their bodies, Gaussian integers and their conjugates",
            (4_000, 80_000),
            || ops(sigs_few(), 12),
            class_ops,
            |c| valid(c) && c.a.iter().chain(&c.b).all(|(_, x)| x.iter().all(|v| v.abs() <= 300)),
            |c| dispatch_few!(c.sig.as_str(), images[](c)),
        )
        .law_on(
            "tensor-product",
            "random pairs of multivectors of multivectors, in all four combinations of storage, against coefficients by pairs of blades",
            (10_000, 200_000),
            nests,
            class_nested,
            valid_nested,
            |c| dispatch_few!(c.sig.as_str(), outer[](c)),
        )
        .main()
}
