//! C29: a result depends on the values of the operands only.
use checks::algs::*;
use checks::repr::*;
use checks::*;
use ndarray::Array1;
use tclifford::algebra::NonDegenerate;
use tclifford::clifft::{clifft, iclifft};
use tclifford::quaternion::Quaternion;
use tclifford::types::DivRing;
use tclifford::{ClAlgebra, Multivector, SparseMultivector};
use vcore::rings::{Fp, M2};

/// One operation
#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
struct Job {
    sig: String,
    /// What to do
    op: u8,
    /// Coefficients and storage
    kind: u8,
    /// How the operands are built
    route: u8,
    a: Terms,
    b: Terms,
}

/// Operations that are carried out in several orders and by several threads
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Jobs {
    jobs: Vec<Job>,
    threads: u8,
}

const KINDS: u8 = 14;
const OPS: u8 = 16;

/// The same value in different ways
fn value<T: Coef, M: MvLike<T>>(t: &Terms, route: u8) -> M {
    let m = model_of::<T>(t);
    let in_order = m.c.iter().map(|(i, x)| (*i as usize, x.clone()));
    match route % 6 {
        0 => M::build(t),
        // from the last to the first
        1 => in_order.rev().fold(M::zero_(), |m, (i, x)| m.set(i, x)),
        // something else first
        2 => in_order.fold(M::one_().neg_(0), |m, (i, x)| m.set(i, x)).set(0, m.get(0)),
        // as a sum of single terms
        3 => in_order.fold(M::zero_(), |s, (i, x)| s.add_(&M::zero_().set(i, x), 0)),
        // a clone whose original is changed
        4 => {
            let a = M::build(t);
            let b = a.clone();
            let _ = a.set(0, T::one() + m.get(0)).set(1, T::one());
            b
        }
        // a changed clone, changed back
        _ => {
            let a = M::build(t);
            let b = a.clone().set(0, T::one() + m.get(0));
            drop(a);
            b.set(0, m.get(0))
        }
    }
}

fn ring<T: Coef, M: MvLike<T>>(c: &Job) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let (ma, mb) = (model_of::<T>(&c.a), model_of::<T>(&c.b));
    let (a, b) = (value::<T, M>(&c.a, c.route), value::<T, M>(&c.b, c.route / 6));
    let what = format!("operation {} ({})", c.op, T::NAME);
    let f = c.route;
    match c.op % OPS {
        0 | 1 => check(&what, &a.mul_(&b, f), &alg.mul(&ma, &mb))?,
        2 => check(&what, &a.wedge_(&b), &alg.wedge_mv(&ma, &mb))?,
        3 => check(&what, &a.meet_(&b), &alg.meet(&ma, &mb))?,
        4 => check(&what, &a.dual_(), &alg.dual(&ma))?,
        5 => check(&what, &a.undual_(), &alg.undual(&ma))?,
        6 => check(&what, &a.rev_(), &alg.rev(&ma))?,
        7 => check(&what, &a.flip_(), &alg.flip(&ma, alg.mask()))?,
        8 => check(&what, &a.add_(&b, f), &ma.add(&mb))?,
        9 => check(&what, &a.sub_(&b, f), &ma.sub(&mb))?,
        10 => check(&what, &a.pow_(3), &alg.pow(&ma, 3))?,
        11 => same(&what, &a.vdot_(&b), &alg.mul(&ma, &mb).get(0))?,
        12 => same(&what, &a.mag2_(), &alg.mul(&alg.rev(&ma), &ma).get(0))?,
        13 => same(&what, &(a == b), &(ma == mb))?,
        14 => {
            for g in 0..=alg.dim() {
                check(&what, &a.grade_(g), &ma.grade(g))?;
            }
        }
        _ => {
            check(&what, &a.dense(), &ma)?;
            check(&what, &a.sparse(), &ma)?;
        }
    }
    // the operands are what they were
    check("left operand afterwards", &a, &ma)?;
    check("right operand afterwards", &b, &mb)
}

fn float<A: ClAlgebra, T: Fc>(c: &Job) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let (ma, mb) = (cmodel::<T>(&c.a), cmodel::<T>(&c.b));
    let (a, b) = (mv_of::<T, A>(&c.a), mv_of::<T, A>(&c.b));
    let (la, lb) = (l1(&ma), l1(&mb));
    let tol = 1e-12;
    let (fa, fb) = (|| relayout(a.fft(), c.route as usize), || relayout(b.fft(), c.route as usize / 6));
    match c.op % 8 {
        0 | 1 => close("product of representations", &back(&(fa() * fb())), &alg.mul(&ma, &mb), tol * (1. + la * lb))?,
        2 => close("sum of representations", &back(&(fa() + fb())), &ma.add(&mb), tol * (1. + la + lb))?,
        3 => close("reversed representation", &back(&fa().rev()), &alg.rev(&ma), tol * (1. + la))?,
        4 => close("flipped representation", &back(&fa().flip()), &alg.flip(&ma, alg.mask()), tol * (1. + la))?,
        5 => close("round trip", &back(&fa()), &ma, tol * (1. + la))?,
        6 => {
            let z: Multivector<C64, _> = a.complexify();
            let want = Mv::from_terms(ma.c.iter().map(|(i, x)| (*i, C64::new(0., -1.).powu((i & alg.imag()).count_ones()) * x)));
            close("complexified", &read(&z), &want, tol * (1. + la))?;
            let back: Multivector<C64, A> = z.decomplexify();
            close("complexified and back", &read(&back), &ma, tol * (1. + la))?
        }
        _ => {
            let n = 1usize << alg.dim();
            let v = Array1::from_shape_fn(n, |i| ma.get(i as u64));
            let m = clifft(v.view()).map_err(|e| format!("transform rejects an array of length {n} with {e:?}"))?;
            let w = iclifft(m.view()).map_err(|e| format!("inverse transform rejects a transform with {e:?}"))?;
            for (i, x) in w.iter().enumerate() {
                ensure((x - ma.get(i as u64)).norm() <= tol * (1. + la), || format!("transform and back: element {i} is {x}"))?;
            }
        }
    }
    close("operand afterwards", &read(&a), &ma, 0.)
}

/// One plus something small has an inverse, and its exponential a short series.
fn small(c: &Job) -> Mv<C64> {
    let m = cmodel::<C64>(&c.a);
    let l = l1(&m);
    m.map(|x| x * (0.25 / (1. + l)))
}
fn make<A: ClAlgebra>(m: &Mv<C64>) -> Multivector<C64, A> {
    Multivector::from_indexed_iter(m.c.iter().map(|(i, x)| (*i as usize, *x))).unwrap()
}
fn exponential<A: ClAlgebra>(c: &Job) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let x = small(c);
    let one = Mv::scalar(C64::new(1., 0.));
    let mut want = one.clone();
    for i in (1..=16).rev() {
        want = one.add(&alg.mul(&x, &want).map(|v| v / i as f64));
    }
    let a = make::<A>(&x);
    match c.op % 3 {
        0 => close("exponential", &read(&a.exp()), &want, 1e-12),
        1 => close("exponential (sparse)", &Mv::from_terms(a.to_sparse().exp().coeff_enumerate().map(|(i, x)| (i as u64, *x))), &want, 1e-12),
        _ => close("exponential (representation)", &back(&a.fft().exp()), &want, 1e-12),
    }
}
fn inverse<A: ClAlgebra + NonDegenerate>(c: &Job) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let one = Mv::scalar(C64::new(1., 0.));
    let x = one.add(&small(c));
    match make::<A>(&x).fft().inv() {
        Some(y) => close("product with the inverse", &alg.mul(&x, &back(&y)), &one, 1e-11),
        None => Err("an element near one is reported as not invertible".into()),
    }
}
fn quaternion<T: Coef + DivRing + Copy>(c: &Job) -> Outcome {
    ring::<T, Quaternion<T>>(c)
}

fn eval<A: ClAlgebra>(c: &Job) -> Outcome {
    match c.kind % KINDS {
        0 => ring::<Fp, Multivector<Fp, A>>(c),
        1 => ring::<Fp, SparseMultivector<Fp, A>>(c),
        2 => ring::<i64, Multivector<i64, A>>(c),
        3 => ring::<i64, SparseMultivector<i64, A>>(c),
        4 => ring::<M2, Multivector<M2, A>>(c),
        5 => ring::<M2, SparseMultivector<M2, A>>(c),
        6 => ring::<C64, Multivector<C64, A>>(c),
        7 if c.sig == "--" => quaternion::<Fp>(c),
        8 if c.sig == "--" => quaternion::<f64>(c),
        7 | 8 | 9 => float::<A, C64>(c),
        10 => float::<A, f64>(c),
        11 | 12 => exponential::<A>(c),
        _ if c.sig.contains('0') => float::<A, C64>(c),
        _ => dispatch_nondeg!(c.sig.as_str(), inverse[](c)),
    }
}
fn run(c: &Job) -> Outcome {
    dispatch_few!(c.sig.as_str(), eval[](c))
}

fn all(jobs: &[Job], order: impl Iterator<Item = usize>, how: &str) -> Outcome {
    for i in order {
        run(&jobs[i]).map_err(|e| format!("{how}, operation number {i}: {e}"))?;
    }
    Ok(())
}
fn mixed(c: &Jobs) -> Outcome {
    let n = c.jobs.len();
    all(&c.jobs, 0..n, "in order")?;
    all(&c.jobs, (0..n).rev(), "in reverse order")?;
    all(&c.jobs, (0..n).flat_map(|i| [i, i]), "each one twice")?;
    let k = c.threads as usize;
    std::thread::scope(|s| {
        let t: Vec<_> = (0..k).map(|t| s.spawn(move || all(&c.jobs, (0..n).map(|i| (i + t) % n), "in several threads"))).collect();
        t.into_iter()
            .map(|t| t.join().unwrap_or_else(|p| Err(format!("a thread panics: {:?}", p.downcast_ref::<String>()))))
            .fold(Ok(()), |a: Outcome, b| a.and(b))
    })
}

fn job() -> BoxedStrategy<Job> {
    pick(sigs_few())
        .prop_flat_map(|s| {
            let d = s.len();
            (Just(s), 0..OPS, 0..KINDS, 0u8..36, gens::pair(d, 12))
        })
        .prop_map(|(sig, op, kind, route, (a, b))| Job { sig, op, kind, route, a, b })
        .boxed()
}

/// Operations that are mostly variations of the one before
fn jobs() -> BoxedStrategy<Jobs> {
    let vary = (0u8..10, job(), any::<u64>());
    (job(), proptest::collection::vec(vary, 1..7), 0u8..4)
        .prop_map(|(first, rest, threads)| {
            let mut jobs = vec![first];
            for (how, new, x) in rest {
                let mut j = jobs.last().unwrap().clone();
                match how {
                    0 | 1 => j = new,
                    2 => j.op = new.op,
                    3 => j.kind = new.kind,
                    4 => {
                        let other: Vec<_> = sigs_few().into_iter().filter(|s| s.len() == j.sig.len()).collect();
                        j.sig = other[x as usize % other.len()].into();
                    }
                    5 => std::mem::swap(&mut j.a, &mut j.b),
                    6 => j.a.iter_mut().for_each(|t| t.1 = t.1.map(|x| -x)),
                    7 => {
                        if !j.a.is_empty() {
                            let k = x as usize % j.a.len();
                            j.a[k].1[0] += 1;
                        }
                    }
                    8 => j.route = new.route,
                    _ => {
                        // from some operation before
                        j = jobs[x as usize % jobs.len()].clone();
                    }
                }
                jobs.push(j);
            }
            Jobs { jobs, threads }
        })
        .boxed()
}

fn main() {
    Check::new("C29")
        .assume("threads are scheduled by the operating system: of the interleavings only those that happen to occur are seen")
        .law_on(
            "mixed-operations",
            "lists of two to seven operations, mostly variations of each other, on operands built in different ways, carried out in order, in reverse order, twice each and by up to three threads, each result compared to the model; non-trivial when two operations differ and an operand is not zero",
            (8_000, 200_000),
            jobs,
            |c| {
                let differ = c.jobs.iter().any(|j| j != &c.jobs[0]);
                class(format!("{} operations, {} threads", c.jobs.len(), c.threads), differ && c.jobs.iter().any(|j| gens::support(&j.a) > 0))
            },
            |c| c.threads < 8 && c.jobs.iter().all(|j| sigs_few().contains(&j.sig.as_str()) && j.a.iter().chain(&j.b).all(|(i, x)| i & !gens::mask(j.sig.len()) == 0 && x.iter().all(|x| x.abs() <= 1000))),
            mixed,
        )
        .main()
}
