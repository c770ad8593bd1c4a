//! C19: quaternions follow Hamilton's rules and agree with the multivectors they are.
use checks::dispatch_div;
use checks::*;
use ndarray::Array2;
use num::{One, Zero};
use tclifford::quaternion::Quaternion;
use tclifford::types::DivRing;
use tclifford::{ClAlgebra, Multivector, Norm};
use vcore::rings::Fp;

/// Real part and the multiples of i, j, k.
type H<T> = [T; 4];

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Pair {
    a: [Coeff; 4],
    b: [Coeff; 4],
    s: Coeff,
    form: u8,
}

fn h<T: Coef>(c: &[Coeff; 4]) -> H<T> {
    [T::mk(&c[0]), T::mk(&c[1]), T::mk(&c[2]), T::mk(&c[3])]
}
fn q<T: Coef + DivRing + Copy>(x: &H<T>) -> Quaternion<T> {
    Quaternion::from_scalar(x[0]) + Quaternion::i() * x[1] + Quaternion::j() * x[2] + Quaternion::k() * x[3]
}
/// The multiple of k is minus the coefficient of the product of both generators in the order of
/// the index.
fn parts<T: Coef + DivRing + Copy>(x: &Quaternion<T>) -> H<T> {
    [x.get_by_idx(0), x.get_by_idx(1), x.get_by_idx(2), -x.get_by_idx(3)]
}
fn hamilton<T: Coef + Copy>(a: &H<T>, b: &H<T>) -> H<T> {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
fn conj<T: Coef + Copy>(a: &H<T>) -> H<T> {
    [a[0], -a[1], -a[2], -a[3]]
}
fn norm2<T: Coef + Copy>(a: &H<T>) -> T {
    a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
}
fn zip<T: Copy>(a: &H<T>, b: &H<T>, f: impl Fn(T, T) -> T) -> H<T> {
    [f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2]), f(a[3], b[3])]
}

fn rules<T: Coef + DivRing + Copy>(c: &Pair) -> Outcome {
    let (a, b) = (h::<T>(&c.a), h::<T>(&c.b));
    let (qa, qb) = (q(&a), q(&b));
    let n = T::NAME;
    same(&format!("parts ({n})"), &parts(&qa), &a)?;
    same(&format!("product ({n})"), &parts(&qa.mul_(&qb, c.form)), &hamilton(&a, &b))?;
    same(&format!("product by value ({n})"), &parts(&(qa * qb)), &hamilton(&a, &b))?;
    same(&format!("sum ({n})"), &parts(&qa.add_(&qb, c.form)), &zip(&a, &b, |x, y| x + y))?;
    same(&format!("difference ({n})"), &parts(&qa.sub_(&qb, c.form)), &zip(&a, &b, |x, y| x - y))?;
    same(&format!("negation ({n})"), &parts(&qa.neg_(c.form)), &zip(&a, &a, |x, _| -x))?;
    same(&format!("conjugate ({n})"), &parts(&qa.conj()), &conj(&a))?;
    ensure((qa * qb).conj() == qb.conj() * qa.conj(), || format!("conjugation does not reverse the product ({n})"))?;
    let m = norm2(&a);
    same(&format!("a conj(a) ({n})"), &parts(&(qa * qa.conj())), &[m, T::zero(), T::zero(), T::zero()])?;
    same(&format!("conj(a) a ({n})"), &parts(&(qa.conj() * qa)), &[m, T::zero(), T::zero(), T::zero()])?;
    if T::NAME != "f32" && T::NAME != "complex32" {
        let p = qa * qb;
        same(&format!("norm of the product ({n})"), &(p * p.conj()).scalar_part(), &(m * norm2(&b)))?;
    }
    let s = T::mk(&c.s);
    same(&format!("multiple ({n})"), &parts(&qa.smul_(&s, c.form)), &zip(&a, &a, |x, _| x * s))?;

    let one = Quaternion::<T>::one();
    let (i, j, k) = (Quaternion::<T>::i(), Quaternion::<T>::j(), Quaternion::<T>::k());
    for (name, x) in [("i i", i * i), ("j j", j * j), ("k k", k * k), ("i j k", i * j * k)] {
        ensure(x == -one, || format!("{name} is not -1 ({n})"))?;
    }
    ensure(i * j == k && j * k == i && k * i == j, || format!("i j = k and so on ({n})"))?;
    ensure(j * i == -k && k * j == -i && i * k == -j, || format!("j i = -k and so on ({n})"))
}

/// The same operations on the dense multivectors of an algebra with two negative generators.
fn as_multivectors<A: ClAlgebra, T: Coef + DivRing + Copy>(c: &Pair) -> Outcome {
    let build = |t: &[Coeff; 4]| -> (Quaternion<T>, Multivector<T, A>) {
        let x: Vec<(usize, T)> = (0..4).map(|i| (i, T::mk(&t[i]))).collect();
        (Quaternion::from_indexed(x.clone()).unwrap(), Multivector::from_indexed(x).unwrap())
    };
    let (qa, ma) = build(&c.a);
    let (qb, mb) = build(&c.b);
    let s = T::mk(&c.s);
    let eq = |what: &str, x: Quaternion<T>, y: Multivector<T, A>| {
        let v = |m: &Mv<T>| (0..4).map(|i| m.get(i)).collect::<Vec<_>>();
        same(&format!("{what} ({})", T::NAME), &v(&x.read()?), &v(&y.read()?))
    };
    eq("a", qa, ma.clone())?;
    eq("sum", qa + qb, &ma + &mb)?;
    eq("difference", qa - qb, &ma - &mb)?;
    eq("product", qa * qb, &ma * &mb)?;
    eq("naive product", qa.naive_mul(&qb), &ma * &mb)?;
    eq("multiple", qa * s, &ma * &s)?;
    eq("negation", -qa, -&ma)?;
    eq("wedge", qa.wedge_(&qb), ma.wedge_(&mb))?;
    eq("meet", qa.meet_(&qb), ma.meet_(&mb))?;
    eq("dual", qa.dual(), ma.dual())?;
    eq("undual", qa.undual(), ma.undual())?;
    eq("rev", qa.rev(), ma.rev())?;
    eq("flip", qa.flip(), ma.flip())?;
    eq("conjugate", qa.conj(), ma.rev().flip())?;
    for mask in 0..4 {
        eq("flip of a subspace", qa.flip_subspace(mask), ma.flip_subspace(mask))?;
    }
    for g in (0..6).chain(gens::wild_grades(1)) {
        eq("grade", qa.grade_extract(g), ma.grade_extract(g))?;
    }
    for n in 0..5 {
        eq("power", qa.pow(n), ma.pow(n))?;
    }
    let st = |what: &str, x: T, y: T| same(&format!("{what} ({})", T::NAME), &x, &y);
    st("vdot", qa.vdot(&qb), ma.vdot(&mb))?;
    st("vsdot", qa.vsdot(&qb), ma.vsdot(&mb))?;
    st("mag2", qa.mag2(), ma.mag2())?;
    st("scalar part", qa.scalar_part(), ma.scalar_part())?;
    same("vector", &qa.vector_part(), &ma.vector_part())?;
    same("zero test", &qa.is_zero(), &ma.is_zero())?;
    same("one test", &qa.is_one(), &ma.is_one())?;
    same("equality", &(qa == qb), &(ma == mb))?;
    eq("set", qa.set_by_idx(c.form as usize, s), ma.set_by_idx(c.form as usize, s))
}

fn multivectors<A: ClAlgebra>(c: &Pair) -> Outcome {
    as_multivectors::<A, i64>(c)?;
    as_multivectors::<A, Fp>(c)?;
    as_multivectors::<A, C64>(c)?;
    as_multivectors::<A, i128>(c)
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Matrices {
    shape: [usize; 3],
    vals: Vec<[Coeff; 4]>,
}

fn matrices<A: ClAlgebra>(c: &Matrices) -> Outcome {
    fn go<A: ClAlgebra, T: Coef + DivRing + Copy + 'static>(c: &Matrices) -> Outcome {
        let [l, m, n] = c.shape;
        if c.vals.is_empty() {
            return Ok(());
        }
        let val = |k: usize| h::<T>(&c.vals[(gens::mix(k as u64) % c.vals.len() as u64) as usize]);
        let a = Array2::from_shape_fn((l, m), |(i, j)| q(&val(i * 100 + j)));
        let b = Array2::from_shape_fn((m, n), |(i, j)| q(&val(7777 + i * 100 + j)));
        let d = |x: &Quaternion<T>| -> Multivector<T, A> {
            Multivector::from_indexed((0..4).map(|i| (i, x.get_by_idx(i))).collect()).unwrap()
        };
        let p = a.dot(&b);
        let sum = &a + &a;
        for i in 0..l {
            for j in 0..n {
                let mut want = Multivector::<T, A>::zero();
                for k in 0..m {
                    want = want + d(&a[(i, k)]) * d(&b[(k, j)]);
                }
                ensure(d(&p[(i, j)]) == want, || format!("entry {i},{j} of the product of matrices ({})", T::NAME))?;
            }
            for j in 0..m {
                ensure(d(&sum[(i, j)]) == d(&a[(i, j)]) + d(&a[(i, j)]), || "sum of matrices".into())?;
            }
        }
        let one = Array2::<Quaternion<T>>::eye(m);
        ensure(a.dot(&one) == a, || format!("identity matrix ({})", T::NAME))
    }
    go::<A, i64>(c)?;
    go::<A, f64>(c)?;
    go::<A, Fp>(c)
}

fn norms(c: &Pair) -> Outcome {
    let (a, b) = (h::<f64>(&c.a), h::<f64>(&c.b));
    let (qa, qb) = (q(&a), q(&b));
    let want = norm2(&a).sqrt();
    let near = |what: &str, x: f64, y: f64| ensure((x - y).abs() <= 1e-13 * y, || format!("{what} is {x}, expected {y}"));
    near("norm", Norm::norm(&qa), want)?;
    near("norm of the product", Norm::norm(&(qa * qb)), want * norm2(&b).sqrt())?;
    near("norm of the conjugate", Norm::norm(&qa.conj()), want)?;
    let ca = h::<C64>(&c.a);
    near("norm (complex)", Norm::norm(&q(&ca)), ca.iter().map(|x| x.norm_sqr()).sum::<f64>().sqrt())?;
    let fa = h::<f32>(&c.a);
    ensure((Norm::norm(&q(&fa)) - want).abs() <= 1e-6 * want, || "norm (f32)".into())
}

fn quad() -> BoxedStrategy<[Coeff; 4]> {
    let c = || prop_oneof![3 => gens::coeff(), 1 => Just([0; 4])];
    [c(), c(), c(), c()].boxed()
}
fn pairs() -> BoxedStrategy<Pair> {
    (quad(), quad(), gens::coeff(), 0u8..4).prop_map(|(a, b, s, form)| Pair { a, b, s, form }).boxed()
}
fn class_pair(c: &Pair) -> Class {
    let n = |t: &[Coeff; 4]| t.iter().filter(|x| x[0] != 0).count();
    class(format!("parts {} x {}", n(&c.a), n(&c.b)), n(&c.a) > 1 && n(&c.b) > 1)
}

fn main() {
    Check::new("C19")
        .assume("Hamilton's formulas, written out")
        .law(
            "hamilton",
            "random pairs of quaternions over nine scalar types; non-trivial when both have two parts",
            12_000,
            300_000,
            pairs,
            class_pair,
            |c| {
                rules::<f64>(c)?;
                rules::<f32>(c)?;
                rules::<i64>(c)?;
                rules::<i128>(c)?;
                rules::<C64>(c)?;
                rules::<C32>(c)?;
                rules::<num::complex::Complex<i64>>(c)?;
                rules::<Fp>(c)
            },
        )
        .law(
            "multivectors",
            "the same operation on the quaternions and on the dense multivectors",
            12_000,
            300_000,
            pairs,
            class_pair,
            |c| dispatch_div!("--", multivectors[](c)),
        )
        .law(
            "norms",
            "norms of random quaternions",
            12_000,
            300_000,
            pairs,
            class_pair,
            norms,
        )
        .law_on(
            "matrices",
            "matrices of quaternions up to 4x4",
            (4_000, 80_000),
            || {
                ([1usize..=4, 1usize..=4, 1usize..=4], proptest::collection::vec(quad(), 1..12))
                    .prop_map(|(shape, vals)| Matrices { shape, vals })
                    .boxed()
            },
            |c| class(format!("{:?}", c.shape), true),
            |c| c.shape.iter().all(|n| (1..=4).contains(n)),
            |c| dispatch_div!("--", matrices[](c)),
        )
        .main()
}
