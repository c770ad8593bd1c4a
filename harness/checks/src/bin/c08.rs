//! C08: construction and coefficient access are faithful and reject malformed input.
use checks::algs::*;
use checks::*;
use tclifford::{ClAlgebra, Multivector, SparseMultivector};
use vcore::rings::Fp;

#[macro_use]
#[path = "../huge.rs"]
mod huge;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Access {
    sig: String,
    a: Terms,
    /// indices written one by one, inside or outside of the algebra
    sets: Terms,
    /// indices to read
    probes: Vec<u64>,
    /// coefficients of a vector, of any length
    v: Vec<Coeff>,
    /// an index to be put among the terms
    odd: (usize, u64),
}

fn any_index(d: usize) -> BoxedStrategy<u64> {
    let m = gens::mask(d);
    prop_oneof![
        4 => any::<u64>().prop_map(move |x| x & m),
        1 => Just(m),
        1 => Just(m.wrapping_add(1)),
        1 => Just(m.wrapping_add(2)),
        1 => any::<u64>(),
        1 => (0u32..64).prop_map(|b| 1u64 << b),
        1 => (0u32..64, any::<u64>()).prop_map(move |(b, x)| (x & m) | 1u64 << b),
        1 => Just(u64::MAX),
        1 => Just(0),
    ]
    .boxed()
}

fn access(sigs: Vec<&'static str>) -> BoxedStrategy<Access> {
    pick(sigs)
        .prop_flat_map(|s| {
            let d = s.len();
            (
                Just(s),
                caps(d).prop_flat_map(move |cap| gens::terms(d, cap)),
                proptest::collection::vec((any_index(d), gens::coeff()), 0..5),
                proptest::collection::vec(any_index(d), 0..6),
                prop_oneof![
                    2 => proptest::collection::vec(gens::coeff(), d),
                    1 => proptest::collection::vec(gens::coeff(), 0..d + 3),
                ],
                (0usize..10, any_index(d)),
            )
        })
        .prop_map(|(sig, a, sets, probes, v, odd)| Access { sig, a, sets, probes, v, odd })
        .boxed()
}

fn class_access(c: &Access) -> Class {
    let m = gens::mask(c.sig.len());
    let out = c.sets.iter().any(|x| x.0 & !m != 0) || c.probes.iter().any(|x| x & !m != 0) || c.odd.1 & !m != 0;
    class(
        format!(
            "dim {}, {}, {} vector",
            c.sig.len(),
            if out { "indices outside" } else { "indices inside" },
            if c.v.len() == c.sig.len() { "full" } else { "wrong" }
        ),
        gens::support(&c.a) > 0 || out,
    )
}

fn one<T: Coef, M: MvLike<T>>(c: &Access) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let (d, mask) = (alg.dim(), alg.mask());
    let mut ma = model_of::<T>(&c.a);
    let terms = terms_of::<T>(&c.a);
    let mut a = M::build(&c.a);
    check("from_indexed_iter", &a, &ma)?;
    match M::from_indexed_ref(&terms) {
        Ok(r) => check("from_indexed_iter_ref", &r, &ma)?,
        Err(e) => return Err(format!("from_indexed_iter_ref rejected valid terms with {e:?}")),
    }
    // a term that may be outside
    let mut t = terms.clone();
    let at = c.odd.0.min(t.len());
    t.insert(at, (c.odd.1 as usize, T::one()));
    let want_ok = c.odd.1 & !mask == 0;
    let lazy = (0..4).map(|how| ("from_indexed_iter of a lazy iterator", M::from_lazy(t.clone(), how)));
    for (name, r) in [("from_indexed_iter", M::from_indexed(t.clone())), ("from_indexed_iter_ref", M::from_indexed_ref(&t))].into_iter().chain(lazy) {
        match r {
            Ok(r) if want_ok => check(name, &r, &Mv::from_terms(t.iter().map(|(i, c)| (*i as u64, c.clone()))))?,
            Err(_) if !want_ok => {}
            Ok(_) => return Err(format!("{name} accepted index {:#x} in {d} dimensions", c.odd.1)),
            Err(e) => return Err(format!("{name} rejected index {:#x} in {d} dimensions with {e:?}", c.odd.1)),
        }
    }
    // vectors
    let v: Vec<T> = c.v.iter().map(T::mk).collect();
    let lazy = (0..4).map(|how| ("from_vector of a lazy iterator", M::from_vec_lazy(v.clone(), how)));
    for (name, r) in [("from_vector", M::from_vec(v.clone())), ("from_vector_ref", M::from_vec_ref(&v))].into_iter().chain(lazy) {
        match r {
            Ok(r) if v.len() == d => {
                check(name, &r, &Mv::from_terms(v.iter().enumerate().map(|(i, c)| (1 << i, c.clone()))))?;
                same("extract_vector(from_vector)", &r.vector_part(), &v)?;
            }
            Err(_) if v.len() != d => {}
            Ok(_) => return Err(format!("{name} accepted {} coordinates in {d} dimensions", v.len())),
            Err(e) => return Err(format!("{name} rejected {d} coordinates in {d} dimensions with {e:?}")),
        }
    }
    if let Some(s) = v.first() {
        check("from_scalar", &M::scalar(s.clone()), &Mv::scalar(s.clone()))?;
        same("scalar_part(from_scalar)", &M::scalar(s.clone()).scalar_(), s)?;
    }
    // reading
    let read = |a: &M, ma: &Mv<T>| -> Outcome {
        same("scalar_part", &a.scalar_(), &ma.get(0))?;
        let want: Vec<T> = (0..d).map(|i| ma.get(1 << i)).collect();
        same("extract_vector", &a.vector_part(), &want)?;
        for p in &c.probes {
            let want = if p & !mask == 0 { ma.get(*p) } else { T::zero() };
            same(&format!("get_by_idx({p:#x}) ({})", M::KIND), &a.get(*p as usize), &want)?;
        }
        if d <= 6 {
            for i in 0..=mask {
                same(&format!("get_by_idx({i:#b}) ({})", M::KIND), &a.get(i as usize), &ma.get(i))?;
            }
        }
        for i in ma.c.keys() {
            same(&format!("get_by_idx({i:#b}) ({})", M::KIND), &a.get(*i as usize), &ma.get(*i))?;
        }
        Ok(())
    };
    read(&a, &ma)?;
    let all: usize = (0..=d + 1).map(|g| ma.grade(g).len()).sum();
    same("sum of the grade sizes", &all, &ma.len())?;
    if d <= 12 || M::KIND != "dense" {
        let present = ma.c.keys().next().map_or(0, |i| i.count_ones() as usize);
        for g in (0..=d + 1).chain(gens::wild_grades(present).into_iter().filter(|g| *g > d)) {
            let mut seen = Mv::new();
            let mut idx = std::collections::BTreeSet::new();
            for (i, x) in a.grade_enumerate_(g) {
                ensure(i.count_ones() as usize == g && i as u64 & !mask == 0, || format!("index {i:#b} enumerated in grade {g}"))?;
                ensure(idx.insert(i), || format!("index {i:#b} enumerated twice in grade {g}"))?;
                seen.set(i as u64, x);
            }
            same(&format!("grade_enumerate({g}) ({})", M::KIND), &seen, &ma.grade(g))?;
            check(&format!("grade_extract({g})"), &a.grade_(g), &ma.grade(g))?;
        }
    }
    // single updates
    for (i, x) in &c.sets {
        a = a.set(*i as usize, T::mk(x));
        if i & !mask == 0 {
            ma.set(*i, T::mk(x));
        }
        check(&format!("after set_by_idx({i:#x})"), &a, &ma)?;
    }
    read(&a, &ma)
}

fn view<T: Coef, A: ClAlgebra>(c: &Access) -> Outcome {
    let a = Multivector::<T, A>::build(&c.a);
    let ma = model_of::<T>(&c.a);
    let v = a.coeff_array_view();
    same("length of the coefficient array", &v.len(), &(1usize << c.sig.len()))?;
    for (i, x) in v.iter().enumerate() {
        ensure(*x == ma.get(i as u64), || format!("coefficient array at {i:#b} is {x:?}"))?;
    }
    Ok(())
}

fn both<A: ClAlgebra, T: Coef>(c: &Access) -> Outcome {
    one::<T, Multivector<T, A>>(c)?;
    one::<T, SparseMultivector<T, A>>(c)?;
    view::<T, A>(c)
}
fn sparse_only<A: ClAlgebra, T: Coef>(c: &Access) -> Outcome {
    one::<T, SparseMultivector<T, A>>(c)
}
fn quaternions(c: &Access) -> Outcome {
    one::<f64, tclifford::quaternion::Quaternion<f64>>(c)?;
    one::<Fp, tclifford::quaternion::Quaternion<Fp>>(c)
}

fn valid(c: &Access) -> bool {
    let m = gens::mask(c.sig.len());
    c.a.iter().all(|(i, _)| i & !m == 0)
}

/// Numbers of any size are kept as they are, also infinite ones and those that are no numbers.
fn wide_one<M: MvLike<f64>>(c: &Wide) -> Outcome {
    let mask = Alg::parse(&c.sig).mask();
    let ma = wide_model(&c.a);
    let a = wide_mv::<M>(&c.a);
    check("from_indexed_iter", &a, &ma)?;
    check("converted to dense", &a.dense(), &ma)?;
    check("converted to sparse", &a.sparse(), &ma)?;
    same("scalar_part", &a.scalar_(), &ma.get(0))?;
    for g in 0..=c.sig.len() {
        check("grade_extract", &a.grade_(g), &ma.grade(g))?;
    }
    // the same indices with other numbers
    let strange = |k: usize, x: u64| match k % 3 {
        0 => f64::INFINITY,
        1 => f64::NAN,
        _ => f64::from_bits(x),
    };
    let is = |g: f64, w: f64| g == w || g.is_nan() && w.is_nan();
    let t: Vec<(usize, f64)> = c.b.iter().enumerate().map(|(k, (i, x))| (*i as usize, strange(k, *x))).collect();
    let b = M::from_indexed(t.clone()).map_err(|e| format!("valid terms rejected with {e:?}"))?;
    let s = t.iter().fold(M::zero_(), |m, (i, x)| m.set(*i, *x));
    let by = [("built", b.clone()), ("set one by one", s)];
    for (how, m) in &by {
        for i in 0..=mask {
            let want = t.iter().find(|x| x.0 as u64 == i).map_or(0.0, |x| x.1);
            for (name, g) in [("read", m.get(i as usize)), ("read from dense", m.dense().get(i as usize)), ("read from sparse", m.sparse().get(i as usize))] {
                ensure(is(g, want), || format!("{how} ({}): {name} at {i:#b} as {g} instead of {want}", M::KIND))?;
            }
            if mask > 63 && i > 15 {
                break;
            }
        }
        let mut seen: Vec<(usize, f64)> = m.enumerate().into_iter().filter(|x| x.1 != 0.0).collect();
        let mut want: Vec<(usize, f64)> = t.iter().filter(|x| x.1 != 0.0).cloned().collect();
        seen.sort_by_key(|x| x.0);
        want.sort_by_key(|x| x.0);
        ensure(seen.len() == want.len() && seen.iter().zip(&want).all(|(g, w)| g.0 == w.0 && is(g.1, w.1)), || {
            format!("{how} ({}): enumerated as {seen:?} instead of {want:?}", M::KIND)
        })?;
    }
    Ok(())
}
fn wide_numbers<A: ClAlgebra>(c: &Wide) -> Outcome {
    wide_one::<Multivector<f64, A>>(c)?;
    wide_one::<SparseMultivector<f64, A>>(c)
}

fn main() {
    Check::new("C08")
        .assume("the index type has 64 bits")
        .law_on(
            "access-i64",
            "random terms, updates, reads and vectors, in and out of range, in the listed signatures; non-trivial when the value is non-zero or an index is out of range",
            (40_000, 800_000),
            || access(sigs_all()),
            class_access,
            valid,
            |c| dispatch_all!(c.sig.as_str(), both[i64](c)),
        )
        .law_on(
            "access-field",
            "the same over a prime field",
            (12_000, 300_000),
            || access(sigs_few()),
            class_access,
            valid,
            |c| dispatch_few!(c.sig.as_str(), both[Fp](c)),
        )
        .law_on(
            "access-13-to-16-generators",
            "the same, dense and sparse, with 13 to 16 generators",
            (1_600, 30_000),
            || access(sigs_vast()),
            class_access,
            valid,
            |c| dispatch_vast!(c.sig.as_str(), both[i64](c)),
        )
        .budget(300)
        .law_on(
            "access-many-generators",
            "the same, sparse, with 12 to 48 generators",
            (12_000, 300_000),
            || access(sigs_big()),
            class_access,
            valid,
            |c| dispatch_big!(c.sig.as_str(), sparse_only[i64](c)),
        )
        .law_on(
            "access-all-index-bits",
            "the same, sparse, with 63 and 64 generators",
            (12_000, 300_000),
            || access(huge::sigs_huge()),
            class_access,
            valid,
            |c| dispatch_huge!(c.sig.as_str(), sparse_only[i64](c)),
        )
        .law_on(
            "access-quaternion",
            "the same for the quaternion type",
            (12_000, 300_000),
            || access(vec!["--"]),
            class_access,
            valid,
            quaternions,
        )
        .law_on(
            "access-any-number",
            "f64 numbers of any size, and infinite ones and those that are no numbers, written and read; non-trivial when both are non-zero",
            (8_000, 200_000),
            || wide(sigs_few()),
            class_wide,
            valid_wide,
            |c| dispatch_few!(c.sig.as_str(), wide_numbers[](c)),
        )
        .main()
}
