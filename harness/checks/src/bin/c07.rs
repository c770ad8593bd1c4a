//! C07: dense and sparse storage are interchangeable through any history of operations.
use checks::algs::*;
use checks::*;
use tclifford::{ClAlgebra, Multivector, SparseMultivector};
use vcore::rings::{Fp, Z12};

const REGS: usize = 3;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    Terms(usize, Terms),
    Scalar(usize, Coeff),
    Vector(usize, Vec<Coeff>),
    Set(usize, u64, Coeff),
    Add(usize, usize, usize, u8),
    Sub(usize, usize, usize, u8),
    Mul(usize, usize, usize, u8),
    Wedge(usize, usize, usize),
    Meet(usize, usize, usize),
    Neg(usize, usize, u8),
    Scale(usize, usize, Coeff, u8),
    Pow(usize, usize, usize),
    Rev(usize, usize),
    Flip(usize, usize),
    FlipSub(usize, usize, u64),
    Dual(usize, usize),
    Undual(usize, usize),
    Grade(usize, usize, usize),
    /// Lists of grades in any order, with repetitions
    Grades(usize, usize, Vec<usize>),
    RetainGrades(usize, Vec<usize>),
    /// keep the indices that share a generator with the mask
    Filter(usize, usize, u64),
    /// the same in place, after multiplying by the coefficient
    FilterMul(usize, u64, Coeff),
    /// every coefficient becomes zero
    FilterZero(usize),
    /// the dense value becomes the converted sparse one and the other way round
    Exchange(usize),
    /// the values are rebuilt from their own enumeration
    Rebuild(usize),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct History {
    sig: String,
    ops: Vec<Op>,
}

/// Mostly a grade of the algebra, sometimes a number far from any
fn grade(d: usize) -> BoxedStrategy<usize> {
    prop_oneof![
        5 => 0..=d + 1,
        1 => (0..=d, 0usize..16).prop_map(|(g, k)| {
            let w = gens::wild_grades(g);
            w[k % w.len()]
        }),
    ]
    .boxed()
}

fn grade_list(d: usize) -> BoxedStrategy<Vec<usize>> {
    prop_oneof![
        3 => proptest::collection::vec(0..=d + 1, 0..=6),
        1 => proptest::sample::subsequence((0..=d + 1).collect::<Vec<_>>(), 0..=d + 2),
        2 => Just((0..=d).collect::<Vec<_>>()).prop_shuffle(),
        1 => Just((0..=d).rev().collect::<Vec<_>>()),
        2 => proptest::collection::vec(grade(d), 1..=4),
    ]
    .boxed()
}

fn op(d: usize, cap: usize) -> BoxedStrategy<Op> {
    let m = gens::mask(d);
    let r = || 0..REGS;
    let form = || 0u8..4;
    let idx = move || any::<u64>().prop_map(move |x| x & m);
    prop_oneof![
        4 => (r(), gens::terms(d, cap)).prop_map(|(a, t)| Op::Terms(a, t)),
        1 => (r(), gens::coeff()).prop_map(|(a, c)| Op::Scalar(a, c)),
        1 => (r(), proptest::collection::vec(gens::coeff(), d)).prop_map(|(a, c)| Op::Vector(a, c)),
        3 => (r(), idx(), gens::coeff()).prop_map(|(a, i, c)| Op::Set(a, i, c)),
        2 => (r(), idx()).prop_map(|(a, i)| Op::Set(a, i, [0; 4])),
        4 => (r(), r(), r(), form()).prop_map(|(a, b, c, f)| Op::Add(a, b, c, f)),
        4 => (r(), r(), r(), form()).prop_map(|(a, b, c, f)| Op::Sub(a, b, c, f)),
        4 => (r(), r(), r(), form()).prop_map(|(a, b, c, f)| Op::Mul(a, b, c, f)),
        2 => (r(), r(), r()).prop_map(|(a, b, c)| Op::Wedge(a, b, c)),
        2 => (r(), r(), r()).prop_map(|(a, b, c)| Op::Meet(a, b, c)),
        1 => (r(), r(), form()).prop_map(|(a, b, f)| Op::Neg(a, b, f)),
        2 => (r(), r(), gens::coeff(), form()).prop_map(|(a, b, c, f)| Op::Scale(a, b, c, f)),
        1 => (r(), r(), 0usize..4).prop_map(|(a, b, n)| Op::Pow(a, b, n)),
        1 => (r(), r()).prop_map(|(a, b)| Op::Rev(a, b)),
        1 => (r(), r()).prop_map(|(a, b)| Op::Flip(a, b)),
        1 => (r(), r(), idx()).prop_map(|(a, b, i)| Op::FlipSub(a, b, i)),
        1 => (r(), r()).prop_map(|(a, b)| Op::Dual(a, b)),
        1 => (r(), r()).prop_map(|(a, b)| Op::Undual(a, b)),
        1 => (r(), r(), grade(d)).prop_map(|(a, b, g)| Op::Grade(a, b, g)),
        1 => (r(), r(), grade_list(d)).prop_map(|(a, b, g)| Op::Grades(a, b, g)),
        2 => (r(), grade_list(d)).prop_map(|(a, g)| Op::RetainGrades(a, g)),
        1 => (r(), r(), idx()).prop_map(|(a, b, i)| Op::Filter(a, b, i)),
        2 => (r(), idx(), gens::coeff()).prop_map(|(a, i, c)| Op::FilterMul(a, i, c)),
        1 => r().prop_map(Op::FilterZero),
        3 => r().prop_map(Op::Exchange),
        1 => r().prop_map(Op::Rebuild),
    ]
    .boxed()
}

fn histories(sigs: Vec<&'static str>) -> BoxedStrategy<History> {
    pick(sigs)
        .prop_flat_map(|s| {
            let d = s.len();
            (Just(s), proptest::collection::vec(op(d, cap_for(d).min(20)), 1..18))
        })
        .prop_map(|(sig, ops)| History { sig, ops })
        .boxed()
}

/// Reduced histories may leave the domain of the generator.
fn valid(h: &History) -> bool {
    let m = gens::mask(h.sig.len());
    h.ops.iter().all(|o| match o {
        Op::Terms(a, t) => *a < REGS && t.iter().all(|(i, _)| i & !m == 0),
        Op::Vector(a, v) => *a < REGS && v.len() == h.sig.len(),
        Op::Set(a, i, _) => *a < REGS && i & !m == 0,
        Op::Scalar(a, _)
        | Op::FilterZero(a)
        | Op::Exchange(a)
        | Op::Rebuild(a)
        | Op::RetainGrades(a, _)
        | Op::FilterMul(a, _, _) => *a < REGS,
        Op::Add(a, b, c, _) | Op::Sub(a, b, c, _) | Op::Mul(a, b, c, _) | Op::Wedge(a, b, c) | Op::Meet(a, b, c) => {
            *a < REGS && *b < REGS && *c < REGS
        }
        Op::Pow(a, b, n) => *a < REGS && *b < REGS && *n < 4,
        Op::Neg(a, b, _)
        | Op::Scale(a, b, _, _)
        | Op::Rev(a, b)
        | Op::Flip(a, b)
        | Op::FlipSub(a, b, _)
        | Op::Dual(a, b)
        | Op::Undual(a, b)
        | Op::Grade(a, b, _)
        | Op::Grades(a, b, _)
        | Op::Filter(a, b, _) => *a < REGS && *b < REGS,
    })
}

fn class_history(h: &History) -> Class {
    let products = h
        .ops
        .iter()
        .filter(|o| matches!(o, Op::Mul(..) | Op::Wedge(..) | Op::Meet(..) | Op::Pow(..)))
        .count();
    let loads = h.ops.iter().filter(|o| matches!(o, Op::Terms(_, t) if gens::support(t) > 0)).count();
    class(
        format!("dim {}, {} steps", h.sig.len(), if h.ops.len() < 6 { "1-5" } else { "6-17" }),
        loads > 0 && products > 0 && h.ops.len() >= 4,
    )
}

fn in_grades(list: &[usize], i: u64) -> bool {
    list.contains(&(i.count_ones() as usize))
}

/// The operations both kinds have under the same name; false when it is not one of them.
fn common<T: Coef, M: MvLike<T>>(r: &mut [M], o: &Op) -> bool {
    match o {
        Op::Terms(a, t) => r[*a] = M::build(t),
        Op::Scalar(a, c) => r[*a] = M::scalar(T::mk(c)),
        Op::Vector(a, v) => r[*a] = M::from_vec(v.iter().map(T::mk).collect()).expect("a vector of the right length"),
        Op::Set(a, i, c) => r[*a] = r[*a].clone().set(*i as usize, T::mk(c)),
        Op::Add(a, b, c, f) => r[*a] = r[*b].add_(&r[*c], *f),
        Op::Sub(a, b, c, f) => r[*a] = r[*b].sub_(&r[*c], *f),
        Op::Mul(a, b, c, f) => r[*a] = r[*b].mul_(&r[*c], *f),
        Op::Wedge(a, b, c) => r[*a] = r[*b].wedge_(&r[*c]),
        Op::Meet(a, b, c) => r[*a] = r[*b].meet_(&r[*c]),
        Op::Neg(a, b, f) => r[*a] = r[*b].neg_(*f),
        Op::Scale(a, b, c, f) => r[*a] = r[*b].smul_(&T::mk(c), *f),
        Op::Pow(a, b, n) => r[*a] = r[*b].pow_(*n),
        Op::Rev(a, b) => r[*a] = r[*b].rev_(),
        Op::Flip(a, b) => r[*a] = r[*b].flip_(),
        Op::FlipSub(a, b, m) => r[*a] = r[*b].flip_sub(*m as usize),
        Op::Dual(a, b) => r[*a] = r[*b].dual_(),
        Op::Undual(a, b) => r[*a] = r[*b].undual_(),
        Op::Grade(a, b, g) => r[*a] = r[*b].grade_(*g),
        Op::Rebuild(a) => r[*a] = M::from_indexed(r[*a].enumerate()).expect("own coefficients"),
        _ => return false,
    }
    true
}

fn model_step<T: Coef>(alg: &Alg, r: &mut [Mv<T>], o: &Op) {
    match o {
        Op::Terms(a, t) => r[*a] = model_of(t),
        Op::Scalar(a, c) => r[*a] = Mv::scalar(T::mk(c)),
        Op::Vector(a, v) => r[*a] = Mv::from_terms(v.iter().enumerate().map(|(i, c)| (1 << i, T::mk(c)))),
        Op::Set(a, i, c) => r[*a].set(*i, T::mk(c)),
        Op::Add(a, b, c, _) => r[*a] = r[*b].add(&r[*c]),
        Op::Sub(a, b, c, _) => r[*a] = r[*b].sub(&r[*c]),
        Op::Mul(a, b, c, _) => r[*a] = alg.mul(&r[*b], &r[*c]),
        Op::Wedge(a, b, c) => r[*a] = alg.wedge_mv(&r[*b], &r[*c]),
        Op::Meet(a, b, c) => r[*a] = alg.meet(&r[*b], &r[*c]),
        Op::Neg(a, b, _) => r[*a] = r[*b].neg(),
        Op::Scale(a, b, c, _) => r[*a] = r[*b].scale(&T::mk(c)),
        Op::Pow(a, b, n) => r[*a] = alg.pow(&r[*b], *n),
        Op::Rev(a, b) => r[*a] = alg.rev(&r[*b]),
        Op::Flip(a, b) => r[*a] = alg.flip(&r[*b], u64::MAX),
        Op::FlipSub(a, b, m) => r[*a] = alg.flip(&r[*b], *m),
        Op::Dual(a, b) => r[*a] = alg.dual(&r[*b]),
        Op::Undual(a, b) => r[*a] = alg.undual(&r[*b]),
        Op::Grade(a, b, g) => r[*a] = r[*b].grade(*g),
        Op::Grades(a, b, m) => r[*a] = r[*b].filter(|i| in_grades(m, i)),
        Op::RetainGrades(a, m) => r[*a] = r[*a].filter(|i| in_grades(m, i)),
        Op::Filter(a, b, m) => r[*a] = r[*b].filter(|i| i & m != 0),
        Op::FilterMul(a, m, c) => r[*a] = r[*a].scale(&T::mk(c)).filter(|i| i & m != 0),
        Op::FilterZero(a) => r[*a] = Mv::new(),
        Op::Exchange(_) | Op::Rebuild(_) => {}
    }
}

fn sparse_step<T: Coef, A: ClAlgebra>(r: &mut [SparseMultivector<T, A>], o: &Op) {
    if common(r, o) {
        return;
    }
    match o {
        Op::Grades(a, b, m) => r[*a] = r[*b].grades_extract(m),
        Op::RetainGrades(a, m) => r[*a].retain_grades(m),
        Op::Filter(a, b, m) => r[*a] = r[*b].clone().filtered(|i, _| *i as u64 & m != 0),
        Op::FilterMul(a, m, c) => {
            let c = T::mk(c);
            r[*a].filter_inplace(|i, x| {
                *x = x.clone() * c.clone();
                *i as u64 & m != 0
            })
        }
        Op::FilterZero(a) => r[*a].filter_inplace(|_, x| {
            *x = T::zero();
            true
        }),
        _ => {}
    }
}

fn dense_step<T: Coef, A: ClAlgebra>(r: &mut [Multivector<T, A>], o: &Op) {
    if common(r, o) {
        return;
    }
    match o {
        Op::Grades(a, b, m) => r[*a] = r[*b].filter(|i, _| in_grades(m, i as u64)),
        Op::RetainGrades(a, m) => {
            let mut s = Multivector::<T, A>::zero_();
            for g in m.iter().copied().collect::<std::collections::BTreeSet<_>>() {
                s = s + r[*a].grade_extract(g);
            }
            r[*a] = s
        }
        Op::Filter(a, b, m) => r[*a] = r[*b].filter(|i, _| i as u64 & m != 0),
        Op::FilterMul(a, m, c) => r[*a] = (&r[*a] * T::mk(c)).filter(|i, _| i as u64 & m != 0),
        Op::FilterZero(a) => r[*a] = r[*a].filter(|_, _| false),
        _ => {}
    }
}

fn check_sparse<T: Coef, A: ClAlgebra>(s: &SparseMultivector<T, A>, m: &Mv<T>) -> Outcome {
    check("value", s, m)?;
    same("number of sparse coefficients", &s.coeff_count(), &m.len())?;
    for (i, c) in s.coeff_enumerate() {
        ensure(!c.is_zero(), || format!("a zero coefficient is present at {i:#b}"))?;
    }
    same("is_zero", &tclifford::Zero::is_zero(s), &m.is_zero())
}

/// Work a product is allowed to cost.
fn too_big<T: Coef>(m: &[Mv<T>], o: &Op) -> bool {
    match o {
        Op::Mul(_, b, c, _) | Op::Wedge(_, b, c) | Op::Meet(_, b, c) => m[*b].len() * m[*c].len() > 5000,
        Op::Pow(_, b, n) => *n > 1 && m[*b].len() > 24,
        _ => false,
    }
}

fn both<A: ClAlgebra, T: Coef>(h: &History) -> Outcome {
    let alg = Alg::parse(&h.sig);
    let mut m = vec![Mv::<T>::new(); REGS];
    let mut d = vec![Multivector::<T, A>::zero_(); REGS];
    let mut s = vec![SparseMultivector::<T, A>::zero_(); REGS];
    for (n, o) in h.ops.iter().enumerate() {
        if too_big(&m, o) {
            continue;
        }
        model_step(&alg, &mut m, o);
        if let Op::Exchange(a) = o {
            let new_d = s[*a].to_dense();
            s[*a] = d[*a].to_sparse();
            d[*a] = new_d;
        } else {
            dense_step(&mut d, o);
            sparse_step(&mut s, o);
        }
        for k in 0..REGS {
            let at = |e: String| format!("after step {n} ({o:?}), register {k}: {e}");
            check("value", &d[k], &m[k]).map_err(at)?;
            check_sparse(&s[k], &m[k]).map_err(at)?;
        }
    }
    for k in 0..REGS {
        ensure(d[k].to_sparse() == s[k], || format!("register {k}: to_sparse differs from the sparse value"))?;
        ensure(s[k].to_dense() == d[k], || format!("register {k}: to_dense differs from the dense value"))?;
        check("round trip", &d[k].to_sparse().to_dense(), &m[k])?;
        check_sparse(&s[k].to_dense().to_sparse(), &m[k])?;
        for g in 0..=alg.dim() {
            let want = m[k].grade(g);
            check("dense grade as sparse", &d[k].grade_sparse(g), &want)?;
            check("sparse grade as dense", &s[k].grade_dense(g), &want)?;
            check_sparse(&d[k].grade_sparse(g), &want)?;
        }
    }
    Ok(())
}

fn sparse_only<A: ClAlgebra, T: Coef>(h: &History) -> Outcome {
    let alg = Alg::parse(&h.sig);
    let mut m = vec![Mv::<T>::new(); REGS];
    let mut s = vec![SparseMultivector::<T, A>::zero_(); REGS];
    for (n, o) in h.ops.iter().enumerate() {
        if too_big(&m, o) {
            continue;
        }
        model_step(&alg, &mut m, o);
        sparse_step(&mut s, o);
        for k in 0..REGS {
            check_sparse(&s[k], &m[k]).map_err(|e| format!("after step {n} ({o:?}), register {k}: {e}"))?;
        }
    }
    Ok(())
}

fn main() {
    Check::new("C07")
        .assume("the reference model is correct")
        .assume("products whose cost is over a bound are skipped on both sides")
        .law_on(
            "histories-field",
            "random histories of 1 to 17 operations on three registers held dense and sparse, over a prime field; non-trivial with at least four steps, a loaded value and a product",
            (40_000, 600_000),
            || histories(sigs_few()),
            class_history,
            valid,
            |h| dispatch_few!(h.sig.as_str(), both[Fp](h)),
        )
        .law_on(
            "histories-zero-divisors",
            "the same over the integers modulo 12, where products of non-zero coefficients vanish",
            (40_000, 600_000),
            || histories(sigs_few()),
            class_history,
            valid,
            |h| dispatch_few!(h.sig.as_str(), both[Z12](h)),
        )
        .law_on(
            "histories-many-generators",
            "the same on sparse values with 12 to 48 generators",
            (20_000, 300_000),
            || histories(sigs_big()),
            class_history,
            valid,
            |h| dispatch_big!(h.sig.as_str(), sparse_only[Z12](h)),
        )
        .main()
}
