//! C28: products of invertible vectors act as orthogonal transformations.
use checks::algs::*;
use checks::repr::{back, close, l1};
use checks::*;
use tclifford::algebra::NonDegenerate;
use tclifford::{ClAlgebra, FFTRepr, Multivector, One, SparseMultivector};
use vcore::rings::Fp;

/// The vectors are given by some of their coordinates.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Versor {
    sig: String,
    vs: Vec<Vec<(usize, i32)>>,
    x: Terms,
    y: Terms,
    u: Vec<(usize, i32)>,
}

fn square(alg: &Alg, v: &[(usize, i32)]) -> i64 {
    v.iter().map(|(g, c)| alg.sig[*g] as i64 * *c as i64 * *c as i64).sum()
}
fn dot(alg: &Alg, v: &[(usize, i32)], w: &[(usize, i32)]) -> i64 {
    v.iter().flat_map(|(g, c)| w.iter().map(move |(h, d)| if g == h { alg.sig[*g] as i64 * *c as i64 * *d as i64 } else { 0 })).sum()
}
fn proper(alg: &Alg, v: &[(usize, i32)]) -> bool {
    let mut seen = 0u64;
    v.iter().all(|(g, c)| {
        let new = *g < alg.dim() && seen >> g & 1 == 0 && c.abs() <= 1000;
        seen |= 1 << (g % 64);
        new
    })
}
fn valid(c: &Versor) -> bool {
    let alg = Alg::parse(&c.sig);
    let m = alg.mask();
    (1..=24).contains(&c.vs.len())
        && c.vs.iter().all(|v| proper(&alg, v) && Fp::new(square(&alg, v)).0 != 0)
        && proper(&alg, &c.u)
        && c.x.iter().chain(&c.y).all(|(i, _)| i & !m == 0)
}

fn vectors(d: usize, most: usize) -> BoxedStrategy<Vec<(usize, i32)>> {
    let coord = prop_oneof![4 => Just(1), 2 => Just(-1), 6 => -9..10i32, 2 => -1000..1001i32];
    (Just((0..d).collect::<Vec<_>>()).prop_shuffle(), proptest::collection::vec(coord, 1..=most.min(d)))
        .prop_map(|(gs, cs)| gs.into_iter().zip(cs).collect())
        .boxed()
}
/// A vector without an inverse gets one more unit of its first generator that is not null.
fn make_invertible(alg: &Alg, mut v: Vec<(usize, i32)>) -> Vec<(usize, i32)> {
    for _ in 0..3 {
        if Fp::new(square(alg, &v)).0 != 0 {
            return v;
        }
        match v.iter_mut().find(|(g, _)| alg.sig[*g] != 0) {
            Some((_, c)) => *c = (*c + 1) % 1000,
            None => v.push(((0..alg.dim()).find(|g| alg.sig[*g] != 0).unwrap(), 1)),
        }
    }
    vec![((0..alg.dim()).find(|g| alg.sig[*g] != 0).unwrap(), 1)]
}
fn versors(sigs: Vec<&'static str>, cap: usize) -> BoxedStrategy<Versor> {
    pick(sigs.into_iter().filter(|s| s.contains(['+', '-'])).collect())
        .prop_flat_map(move |sig| {
            let d = sig.len();
            let most = if d <= 5 { d } else if d <= 8 { 4 } else { 3 };
            let count = if d <= 8 { 1..=5 } else { 1..=3 };
            // and products of many generators
            let many = Just((0..d).collect::<Vec<_>>())
                .prop_shuffle()
                .prop_flat_map(|gs| (1..=gs.len().min(24)).prop_map(move |k| gs[..k].iter().map(|g| vec![(*g, 1)]).collect::<Vec<_>>()));
            (
                Just(sig),
                prop_oneof![4 => proptest::collection::vec(vectors(d, most), count), 1 => many],
                gens::pair(d, cap_for(d).min(cap)),
                vectors(d, most),
            )
        })
        .prop_map(|(sig, vs, (x, y), u)| {
            let alg = Alg::parse(&sig);
            let vs = vs.into_iter().map(|v| make_invertible(&alg, v)).collect();
            Versor { sig, vs, x, y, u }
        })
        .boxed()
}
fn class_versor(c: &Versor) -> Class {
    let wide = c.vs.iter().filter(|v| v.iter().filter(|t| t.1 != 0).count() > 1).count();
    class(
        format!("dim {}, {} vectors", c.sig.len(), c.vs.len()),
        wide > 0 && gens::support(&c.x) > 0,
    )
}

fn grades<T: Clone>(m: &Mv<T>) -> Vec<u32> {
    let mut g: Vec<u32> = m.c.keys().map(|i| i.count_ones()).collect();
    g.sort();
    g.dedup();
    g
}

fn action<M: MvLike<Fp>>(c: &Versor, revm: impl Fn(&M) -> M) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let fp = |x: i64| Fp::new(x);
    let vector = |v: &[(usize, i32)]| {
        M::from_indexed(v.iter().map(|(g, c)| (1usize << g, fp(*c as i64))).collect()).map_err(|e| format!("{e:?}"))
    };
    let vs: Vec<M> = c.vs.iter().map(|v| vector(v)).collect::<Result<_, _>>()?;
    let eq = |what: &str, got: &M, want: &M| -> Outcome {
        let (g, w) = (got.read()?, want.read()?);
        ensure(g == w, || format!("{} of {}: {} instead of {}", what, M::KIND, show(&g), show(&w)))
    };
    // one vector: its square and its reflection
    let u = vector(&c.u)?;
    for (v, coords) in vs.iter().zip(&c.vs) {
        let q = fp(square(&alg, coords));
        eq("square of a vector", &v.mul_(v, 0), &M::scalar(q))?;
        let k = fp(2 * dot(&alg, coords, &c.u)) * q.inv();
        eq("reflection in a vector", &v.mul_(&u, 0).mul_(&revm(v), 0), &v.smul_(&k, 0).sub_(&u, 0))?;
        let anti = v.mul_(&u, 0).add_(&u.mul_(v, 0), 0);
        eq("anticommutator of vectors", &anti, &M::scalar(fp(2 * dot(&alg, coords, &c.u))))?;
    }
    // their product
    let mut v = M::one_();
    let mut q = fp(1);
    let mut w = u.clone();
    let mut image = u.clone();
    for (t, coords) in vs.iter().zip(&c.vs) {
        v = v.mul_(t, 1);
        q = q * fp(square(&alg, coords));
    }
    for t in vs.iter().rev() {
        w = t.mul_(&w, 0).mul_(&revm(t), 0);
    }
    let parity = c.vs.len() as u32 % 2;
    ensure(grades(&v.read()?).iter().all(|g| g % 2 == parity), || "a product of vectors mixes even and odd grades".into())?;
    same("mag2 of the product", &v.mag2_(), &q)?;
    eq("flip of the product", &v.flip_(), &if parity == 1 { v.neg_(0) } else { v.clone() })?;
    eq("reversal of the product", &v.rev_(), &vs.iter().rev().fold(M::one_(), |m, t| m.mul_(t, 1)))?;
    let inv = revm(&v);
    eq("product with its inverse", &v.mul_(&inv, 0), &M::one_())?;
    eq("inverse with the product", &inv.mul_(&v, 0), &M::one_())?;
    let act = |x: &M| v.mul_(x, 0).mul_(&inv, 0);
    image = act(&image);
    eq("the reflections one by one", &w, &image)?;
    ensure(grades(&image.read()?).iter().all(|g| *g == 1), || "a vector is not taken to a vector".into())?;
    // everything else follows the vectors
    let (x, y) = (M::build(&c.x), M::build(&c.y));
    let (ax, ay) = (act(&x), act(&y));
    for g in 0..=alg.dim().min(8) {
        eq("grade of the image", &ax.grade_(g), &act(&x.grade_(g)))?;
    }
    same("vdot of the images", &ax.vdot_(&ay), &x.vdot_(&y))?;
    same("mag2 of the image", &ax.mag2_(), &x.mag2_())?;
    same("scalar of the image", &ax.scalar_(), &x.scalar_())?;
    eq("product of the images", &ax.mul_(&ay, 0), &act(&x.mul_(&y, 0)))?;
    eq("outer product of the images", &ax.wedge_(&ay), &act(&x.wedge_(&y)))?;
    eq("reversal of the image", &ax.rev_(), &act(&x.rev_()))?;
    eq("flip of the image", &ax.flip_(), &act(&x.flip_()))?;
    // and the top blade is kept up to the sign of the transformation
    if alg.dim() < 60 {
        let top = M::from_indexed(vec![(alg.mask() as usize, fp(1))]).map_err(|e| format!("{e:?}"))?;
        let odd = c.vs.len() * (alg.dim() - 1) % 2 == 1;
        eq("image of the top blade", &act(&top), &if odd { top.neg_(0) } else { top.clone() })?;
    }
    Ok(())
}
fn both<A: ClAlgebra>(c: &Versor) -> Outcome {
    action::<Multivector<Fp, A>>(c, |x| x.revm())?;
    action::<SparseMultivector<Fp, A>>(c, |x| x.revm())
}
fn sparse<A: ClAlgebra>(c: &Versor) -> Outcome {
    action::<SparseMultivector<Fp, A>>(c, |x| x.revm())
}

/// The same with inverses of matrices.
fn matrices<A: ClAlgebra + NonDegenerate>(c: &Versor) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let mut r = FFTRepr::<A>::one();
    let mut want: Vec<f64> = vec![0.; alg.dim()];
    for (g, x) in &c.u {
        want[*g] = *x as f64;
    }
    let mut k = 1.;
    for v in &c.vs {
        let m = Multivector::<f64, A>::from_indexed_iter(v.iter().map(|(g, x)| (1usize << g, *x as f64))).map_err(|e| format!("{e:?}"))?;
        r = r * m.fft();
        let size: f64 = v.iter().map(|(_, x)| (*x as f64).powi(2)).sum();
        k *= size / (square(&alg, v) as f64).abs();
    }
    // products of vectors close to the light cone are ill-conditioned
    if !(k < 1e4) {
        return Ok(());
    }
    for v in c.vs.iter().rev() {
        let q = square(&alg, v) as f64;
        let s = 2. * v.iter().map(|(g, x)| alg.sig[*g] as f64 * *x as f64 * want[*g]).sum::<f64>() / q;
        want.iter_mut().for_each(|x| *x = -*x);
        for (g, x) in v {
            want[*g] += s * *x as f64;
        }
    }
    let Some(inv) = r.inv() else { return Err("a product of invertible vectors has no inverse".into()) };
    let u = Multivector::<f64, A>::from_indexed_iter(c.u.iter().map(|(g, x)| (1usize << g, *x as f64))).map_err(|e| format!("{e:?}"))?;
    let got = back(&(r * u.fft() * inv));
    let want = Mv::from_terms(want.iter().enumerate().map(|(g, x)| (1u64 << g, C64::new(*x, 0.))));
    let scale = 1. + c.u.iter().map(|(_, x)| (*x as f64).abs()).sum::<f64>();
    close("image of a vector", &got, &want, 1e-12 * scale * k * k)
}
fn valid_nondeg(c: &Versor) -> bool {
    valid(c) && !c.sig.contains('0')
}

/// The exponential of a plane is a rotation, a boost or a translation.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Plane {
    sig: String,
    i: usize,
    j: usize,
    t: i32,
    u: Vec<(usize, i32)>,
}
fn planes() -> BoxedStrategy<Plane> {
    pick(sigs_few().into_iter().filter(|s| s.len() >= 2).collect())
        .prop_flat_map(|sig| {
            let d = sig.len();
            (Just(sig), 0..d, 1..d, -400..401i32, vectors(d, 6))
        })
        .prop_map(|(sig, i, k, t, u)| {
            let j = (i + k) % sig.len();
            Plane { sig, i, j, t, u }
        })
        .boxed()
}
fn valid_plane(c: &Plane) -> bool {
    let alg = Alg::parse(&c.sig);
    c.i != c.j && c.i < alg.dim() && c.j < alg.dim() && proper(&alg, &c.u) && c.t.abs() <= 400
}
fn rotation<A: ClAlgebra>(c: &Plane) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let t = c.t as f64 / 100.;
    let b = 1u64 << c.i | 1 << c.j;
    let (_, s) = alg.geo(b, b);
    let (co, si) = match s {
        1 => (t.cosh(), t.sinh()),
        -1 => (t.cos(), t.sin()),
        _ => (1., t),
    };
    // a generator of the plane anticommutes with it, the others commute
    let mut want = Mv::new();
    for (g, x) in &c.u {
        let x = *x as f64;
        if *g == c.i || *g == c.j {
            let (k, sign) = alg.geo(b, 1 << g);
            want.acc(1 << g, 1, C64::new(co * x, 0.));
            want.acc(k, sign, C64::new(si * x, 0.));
        } else {
            want.acc(1 << g, 1, C64::new(x, 0.));
        }
    }
    let want = want.norm();
    let half = Multivector::<f64, A>::from_indexed_iter([(b as usize, t / 2.)].into_iter()).map_err(|e| format!("{e:?}"))?;
    let u = Multivector::<f64, A>::from_indexed_iter(c.u.iter().map(|(g, x)| (1usize << g, *x as f64))).map_err(|e| format!("{e:?}"))?;
    let tol = 1e-12 * (1. + l1(&want)) * (1. + t.abs().exp());
    let r = half.exp();
    close("rotation", &checks::repr::read(&(&r * &u * r.rev())), &want, tol)?;
    let rs = half.to_sparse().exp();
    close("rotation, sparse", &checks::repr::read(&(&rs * &u.to_sparse() * rs.rev()).to_dense()), &want, tol)?;
    let f = half.fft().exp();
    close("rotation, representation", &back(&(&f * u.fft() * f.rev())), &want, tol)
}

fn main() {
    Check::new("C28")
        .assume("every generated vector is invertible modulo the prime, by construction")
        .law_on(
            "versors",
            "up to 5 invertible vectors, or more generators, over a prime field, two multivectors and a vector they act on, dense and sparse; non-trivial when some vector has two coordinates and the first multivector is not zero",
            (12_000, 200_000),
            || versors(sigs_all().into_iter().filter(|s| s.len() <= 9).collect(), 16),
            class_versor,
            valid,
            |c| dispatch_all!(c.sig.as_str(), both[](c)),
        )
        .law_on(
            "versors-many-generators",
            "the same, sparse, up to 3 vectors of up to 3 coordinates or up to 24 generators, 12 to 48 generators",
            (5_000, 80_000),
            || versors(sigs_big(), 6),
            class_versor,
            valid,
            |c| dispatch_big!(c.sig.as_str(), sparse[](c)),
        )
        .law_on(
            "versors-as-matrices",
            "the action on vectors through the inverse of the representation, against the reflection formula; products too close to the light cone are skipped",
            (8_000, 150_000),
            || versors(sigs_nondeg(), 2),
            class_versor,
            valid_nondeg,
            |c| dispatch_nondeg!(c.sig.as_str(), matrices[](c)),
        )
        .law_on(
            "rotations",
            "exponentials of multiples of a plane of two generators acting on vectors, dense, sparse and representation; non-trivial when the plane moves the vector",
            (8_000, 150_000),
            planes,
            |c| class(format!("dim {}, plane {}{}", c.sig.len(), &c.sig[c.i..=c.i], &c.sig[c.j..=c.j]), c.t != 0 && c.u.iter().any(|(g, x)| *x != 0 && (*g == c.i || *g == c.j))),
            valid_plane,
            |c| dispatch_few!(c.sig.as_str(), rotation[](c)),
        )
        .main()
}
