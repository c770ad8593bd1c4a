//! C27: embedding an algebra into a larger one, in any order of generators, preserves everything.
use checks::algs::*;
use checks::repr::{close, l1};
use checks::*;
use tclifford::algebra::NonDegenerate;
use tclifford::{ClAlgebra, FFTRepr, Multivector, SparseMultivector};
use vcore::rings::Fp;

/// Multivectors of the algebra whose generators are some generators of `big`, in the order of `map`.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Emb {
    big: String,
    map: Vec<usize>,
    a: Terms,
    b: Terms,
    n: usize,
    mask: u64,
}

impl Emb {
    fn small(&self) -> String {
        let b: Vec<char> = self.big.chars().collect();
        self.map.iter().map(|k| b[*k]).collect()
    }

    /// Image of a blade: the images of its generators, sorted into descending order.
    fn blade(&self, i: u64) -> (u64, i8) {
        let mut l: Vec<usize> = (0..self.map.len()).rev().filter(|g| i >> g & 1 == 1).map(|g| self.map[g]).collect();
        let mut sign = 1;
        // insertion sort, every swap of neighbours changes the sign
        for k in 1..l.len() {
            for j in (1..=k).rev() {
                if l[j - 1] < l[j] {
                    l.swap(j - 1, j);
                    sign = -sign;
                }
            }
        }
        (l.iter().fold(0, |m, g| m | 1 << g), sign)
    }
    fn image<T: vcore::model::R>(&self, m: &Mv<T>) -> Mv<T> {
        m.map_idx(|i| self.blade(i))
    }
    fn image_mask(&self, mask: u64) -> u64 {
        (0..self.map.len()).filter(|g| mask >> g & 1 == 1).fold(0, |m, g| m | 1 << self.map[g])
    }
}

fn is_listed(sig: &str) -> bool {
    sigs_all().contains(&sig)
}
fn valid(c: &Emb) -> bool {
    let d = c.big.len();
    let mut seen = vec![false; d];
    for k in &c.map {
        if *k >= d || seen[*k] {
            return false;
        }
        seen[*k] = true;
    }
    let m = gens::mask(c.map.len());
    !c.map.is_empty() && is_listed(&c.small()) && c.a.iter().chain(&c.b).all(|(i, _)| i & !m == 0) && c.mask & !m == 0 && c.n < 6
}

/// Some generators of the signature in some order, with the null ones last.
fn maps(big: String, most: usize) -> BoxedStrategy<(String, Vec<usize>)> {
    let d = big.len();
    let sig: Vec<char> = big.chars().collect();
    let some = (Just((0..d).collect::<Vec<_>>()).prop_shuffle(), 1..=most.min(d).min(4));
    // a permutation of generators with equal squares keeps the signature
    let all = proptest::collection::vec((0..d, 0..d), 0..6);
    (some, all, 0u8..4)
        .prop_map(move |((order, k), swaps, kind)| {
            let mut map: Vec<usize>;
            if kind == 0 && is_listed(&big) && d <= most {
                map = (0..d).collect();
                for (i, j) in swaps {
                    if sig[i] == sig[j] {
                        map.swap(i, j);
                    }
                }
            } else {
                map = order[..k].to_vec();
                map.sort_by_key(|g| sig[*g] == '0');
            }
            (big.clone(), map)
        })
        .boxed()
}
fn embs(sigs: Vec<&'static str>, most: usize, cap: usize) -> BoxedStrategy<Emb> {
    pick(sigs)
        .prop_flat_map(move |s| maps(s, most))
        .prop_flat_map(move |(big, map)| {
            let d = map.len();
            (Just((big, map)), gens::pair(d, cap_for(d).min(cap)), 0usize..6, any::<u64>().prop_map(move |x| x & gens::mask(d)))
        })
        .prop_map(|((big, map), (a, b), n, mask)| Emb { big, map, a, b, n, mask })
        .boxed()
}
fn class_emb(c: &Emb) -> Class {
    let mut sorted = c.map.clone();
    sorted.sort();
    class(
        format!("{} generators into {}{}", c.map.len(), c.big.len(), if sorted == c.map { "" } else { ", reordered" }),
        gens::support(&c.a) > 0 && gens::support(&c.b) > 0 && c.map.len() > 1,
    )
}

type Results<T> = Vec<(String, Mv<T>)>;

fn list<T: Clone>(m: &Mv<T>) -> Vec<(usize, T)> {
    m.c.iter().map(|(i, x)| (*i as usize, x.clone())).collect()
}

fn ops<M: MvLike<Fp>>(a: &Mv<Fp>, b: &Mv<Fp>, n: usize, mask: u64, revm: impl Fn(&M) -> M, out: &mut Results<Fp>) -> Outcome {
    let (x, y) = match (M::from_indexed(list(a)), M::from_indexed(list(b))) {
        (Ok(x), Ok(y)) => (x, y),
        _ => return Err("valid coefficients are rejected".into()),
    };
    let mut put = |name: &str, m: M| {
        m.read().map(|r| out.push((format!("{name} ({})", M::KIND), r)))
    };
    put("a + b", x.add_(&y, 0))?;
    put("a - b", x.sub_(&y, 1))?;
    put("a * b", x.mul_(&y, 0))?;
    put("b * a", y.mul_(&x, 2))?;
    put("a ^ b", x.wedge_(&y))?;
    put("rev(a)", x.rev_())?;
    put("flip(a)", x.flip_())?;
    put("flip of a subspace", x.flip_sub(mask as usize))?;
    put("grade of a", x.grade_(n))?;
    put("vdot", M::scalar(x.vdot_(&y)))?;
    put("vsdot", M::scalar(x.vsdot_(&y)))?;
    put("mag2", M::scalar(x.mag2_()))?;
    if x.enumerate().len() <= 24 {
        put("power", x.pow_(n))?;
    }
    put("commutator", x.mul_(&y, 0).sub_(&y.mul_(&x, 0), 0))?;
    if x.mag2_().0 != 0 {
        put("revm", revm(&x))?;
        put("revm(a) b a", revm(&x).mul_(&y, 0).mul_(&x, 0))?;
    }
    Ok(())
}
fn results_dense<A: ClAlgebra>(a: &Mv<Fp>, b: &Mv<Fp>, n: usize, mask: u64) -> Result<Results<Fp>, String> {
    let mut out = vec![];
    ops::<Multivector<Fp, A>>(a, b, n, mask, |x| x.revm(), &mut out)?;
    ops::<SparseMultivector<Fp, A>>(a, b, n, mask, |x| x.revm(), &mut out)?;
    Ok(out)
}
fn results_sparse<A: ClAlgebra>(a: &Mv<Fp>, b: &Mv<Fp>, n: usize, mask: u64) -> Result<Results<Fp>, String> {
    let mut out = vec![];
    ops::<SparseMultivector<Fp, A>>(a, b, n, mask, |x| x.revm(), &mut out)?;
    Ok(out)
}

fn compare(c: &Emb, small: &Results<Fp>, big: &Results<Fp>) -> Outcome {
    same("number of results", &small.len(), &big.len())?;
    for ((what, x), (what2, y)) in small.iter().zip(big) {
        let want = c.image(x);
        ensure(want == *y, || {
            format!("{what2} in {} is {}, but the image of {what} in {} is {}", c.big, show(y), c.small(), show(&want))
        })?;
    }
    Ok(())
}

fn embedding(c: &Emb) -> Outcome {
    let (a, b) = (model_of::<Fp>(&c.a), model_of::<Fp>(&c.b));
    let small_sig = c.small();
    let small = dispatch_all!(small_sig.as_str(), results_dense[](&a, &b, c.n, c.mask))?;
    let (ia, ib, im) = (c.image(&a), c.image(&b), c.image_mask(c.mask));
    let big = dispatch_all!(c.big.as_str(), results_dense[](&ia, &ib, c.n, im))?;
    compare(c, &small, &big)
}
fn embedding_big(c: &Emb) -> Outcome {
    let (a, b) = (model_of::<Fp>(&c.a), model_of::<Fp>(&c.b));
    let small_sig = c.small();
    let small = dispatch_all!(small_sig.as_str(), results_sparse[](&a, &b, c.n, c.mask))?;
    let (ia, ib, im) = (c.image(&a), c.image(&b), c.image_mask(c.mask));
    let big = dispatch_big!(c.big.as_str(), results_sparse[](&ia, &ib, c.n, im))?;
    compare(c, &small, &big)
}

/// Coefficients of moderate size with full mantissas
fn complex_of(t: &Terms) -> Mv<C64> {
    let m = Mv::from_terms(t.iter().map(|(i, c)| (*i, C64::new(c[0] as f64 + c[2] as f64 / 997., c[1] as f64 + c[3] as f64 / 991.))));
    let l = l1(&m);
    if l > 4. {
        m.map(|x| x * (4. / l))
    } else {
        m
    }
}
fn float_ops<A: ClAlgebra>(a: &Mv<C64>, b: &Mv<C64>, n: usize) -> Result<Results<C64>, String> {
    let (x, y) = match (
        Multivector::<C64, A>::from_indexed_iter(list(a).into_iter()),
        Multivector::<C64, A>::from_indexed_iter(list(b).into_iter()),
    ) {
        (Ok(x), Ok(y)) => (x, y),
        _ => return Err("valid coefficients are rejected".into()),
    };
    let (f, g) = (x.fft(), y.fft());
    let back = |r: FFTRepr<A>| r.ifft::<C64>().read();
    Ok(vec![
        ("exp (dense)".into(), x.exp().read()?),
        ("exp (sparse)".into(), x.to_sparse().exp().read()?),
        ("exp (representation)".into(), back(f.exp())?),
        ("product of representations".into(), back(&f * &g)?),
        ("reversal of a representation".into(), back(f.rev())?),
        ("flip of a representation".into(), back(f.flip())?),
        ("power of a representation".into(), back(f.pow(n))?),
        ("normalized trace".into(), Mv::scalar(f.ntrace())),
        ("magnitude of a representation".into(), Mv::scalar(f.mag2())),
    ])
}
fn floats(c: &Emb) -> Outcome {
    let (a, b) = (complex_of(&c.a), complex_of(&c.b));
    let small_sig = c.small();
    let small = dispatch_all!(small_sig.as_str(), float_ops[](&a, &b, c.n))?;
    let (ia, ib) = (c.image(&a), c.image(&b));
    let big = dispatch_all!(c.big.as_str(), float_ops[](&ia, &ib, c.n))?;
    for ((what, x), (_, y)) in small.iter().zip(&big) {
        // everything is bounded by the fifth power of the size, or its exponential
        let tol = 1e-12 * (1. + l1(&a)).powi(6).max(100.);
        close(&format!("{what} in {} against its value in {}", c.big, small_sig), y, &c.image(x), tol)?;
    }
    Ok(())
}

fn inverse<A: ClAlgebra + NonDegenerate>(a: &Mv<C64>) -> Result<Option<Mv<C64>>, String> {
    let x = Multivector::<C64, A>::from_indexed_iter(list(a).into_iter()).map_err(|e| format!("{e:?}"))?;
    match x.fft().inv() {
        None => Ok(None),
        Some(r) => r.ifft::<C64>().read().map(Some),
    }
}
fn inverses(c: &Emb) -> Outcome {
    let a = complex_of(&c.a);
    let small_sig = c.small();
    let small = dispatch_nondeg!(small_sig.as_str(), inverse[](&a))?;
    let Some(inv) = small else { return Ok(()) };
    // well-conditioned in the small algebra is well-conditioned in the large one
    let k = l1(&a) * l1(&inv);
    if !(k < 1e4) {
        return Ok(());
    }
    let ia = c.image(&a);
    match dispatch_nondeg!(c.big.as_str(), inverse[](&ia))? {
        None => Err(format!("an element is invertible in {small_sig} and not in {}", c.big)),
        Some(r) => close(&format!("inverse in {} against its value in {small_sig}", c.big), &r, &c.image(&inv), 1e-12 * k * k * l1(&inv)),
    }
}
fn valid_nondeg(c: &Emb) -> bool {
    valid(c) && !c.big.contains('0')
}

fn main() {
    Check::new("C27")
        .assume("permutations of generators are sorted by the check itself; products are not modelled")
        .law_on(
            "embeddings",
            "pairs over a prime field in an algebra of up to four generators (or a reordering of all of them), embedded in a listed algebra, 16 operations, dense and sparse; non-trivial when both are non-zero and two generators take part",
            (30_000, 500_000),
            || embs(sigs_all(), 8, 48),
            class_emb,
            valid,
            embedding,
        )
        .budget(900)
        .law_on(
            "embeddings-many-generators",
            "the same, sparse, into 12 to 48 generators",
            (12_000, 200_000),
            || embs(sigs_big(), 4, 48),
            class_emb,
            valid,
            embedding_big,
        )
        .budget(900)
        .law_on(
            "exponentials-and-representations",
            "complex pairs of size up to 4: exponentials and operations of representations",
            (5_000, 80_000),
            || embs(sigs_few(), 8, 16),
            class_emb,
            valid,
            floats,
        )
        .budget(900)
        .law_on(
            "inverses",
            "complex elements of non-degenerate algebras; the inverse of the image is the image of the inverse",
            (6_000, 100_000),
            || embs(sigs_nondeg(), 6, 16),
            class_emb,
            valid_nondeg,
            inverses,
        )
        .budget(900)
        .main()
}
