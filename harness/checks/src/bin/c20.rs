//! C20: projective geometry means Euclidean geometry.
use checks::algs::*;
use checks::*;
use tclifford::algebra::PGAlgebra;
use tclifford::pga::PGAMV;
use tclifford::types::WedgeProduct;
use tclifford::{ClAlgebra, ClError, Multivector, SparseMultivector};

/// Points, a direction and a rotation in one projective space.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Scene {
    sig: String,
    /// Coordinates in eighths
    points: Vec<Vec<i32>>,
    plane: Vec<i32>,
    offset: i32,
    shift: Vec<i32>,
    axes: [usize; 2],
    angle: i32,
}

fn vec_of(x: &[i32]) -> Vec<f64> {
    x.iter().map(|c| *c as f64 / 8.).collect()
}
fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
fn size(a: &[f64]) -> f64 {
    a.iter().map(|x| x.abs()).fold(1., f64::max)
}
fn at(what: &str, got: &[f64], want: &[f64], tol: f64) -> Outcome {
    for (g, w) in got.iter().zip(want) {
        ensure((g - w).abs() <= tol, || format!("{what}: {got:?}, expected {want:?}"))?;
    }
    same("number of coordinates", &got.len(), &want.len())
}
fn ok<M>(what: &str, r: Result<M, ClError>) -> Result<M, String> {
    r.map_err(|e| format!("{what} is rejected with {e:?}"))
}

/// Determinant by elimination, small sizes.
fn det(mut m: Vec<Vec<f64>>) -> f64 {
    let n = m.len();
    let mut d = 1.;
    for k in 0..n {
        let p = (k..n).max_by(|a, b| m[*a][k].abs().total_cmp(&m[*b][k].abs())).unwrap();
        if m[p][k] == 0. {
            return 0.;
        }
        if p != k {
            m.swap(p, k);
            d = -d;
        }
        d *= m[k][k];
        for i in k + 1..n {
            let f = m[i][k] / m[k][k];
            for j in k..n {
                let x = m[k][j];
                m[i][j] -= f * x;
            }
        }
    }
    d
}

/// What the laws need of both kinds of multivectors.
trait P<const S: usize>: MvLike<f64> + PGAMV<S> + WedgeProduct {
    fn exp_(&self) -> Self;
}
impl<A: ClAlgebra + PGAlgebra<S>, const S: usize> P<S> for Multivector<f64, A> {
    fn exp_(&self) -> Self {
        self.exp()
    }
}
impl<A: ClAlgebra + PGAlgebra<S>, const S: usize> P<S> for SparseMultivector<f64, A> {
    fn exp_(&self) -> Self {
        self.exp()
    }
}

fn sandwich<M: MvLike<f64>>(m: &M, x: &M) -> M {
    m.rev_().mul_(x, 0).mul_(m, 0)
}

fn scene<M: P<S>, const S: usize>(c: &Scene) -> Outcome {
    let pts: Vec<Vec<f64>> = c.points.iter().map(|p| vec_of(p)).collect();
    let shift = vec_of(&c.shift);
    let e = |n: usize| M::zero_().set(1 << n, 1.);
    let (s, t) = (c.axes[0], c.axes[1]);
    let theta = c.angle as f64 / 50.;
    let rotor = if s == t {
        M::one_()
    } else {
        e(s).mul_(&e(t), 0).smul_(&(theta / 2.), 0).exp_()
    };
    let rotate = |p: &[f64]| {
        let mut r = p.to_vec();
        if s != t {
            r[s] = p[s] * theta.cos() - p[t] * theta.sin();
            r[t] = p[s] * theta.sin() + p[t] * theta.cos();
        }
        r
    };
    let tr = ok("a translation", M::pga_translation(shift.clone()))?;
    let add = |p: &[f64]| p.iter().zip(&shift).map(|(a, b)| a + b).collect::<Vec<_>>();
    let n = vec_of(&c.plane);
    for p in &pts {
        let z = size(p) + size(&shift);
        let x = ok("a point", M::pga_point(p.clone()))?;
        at("coordinates of a point", &x.pga_extract_point(), p, 1e-13 * z)?;
        // a multiple is the same point
        at("coordinates of a multiple", &x.smul_(&-2.5, 0).pga_extract_point(), p, 1e-13 * z)?;
        at("translated point", &sandwich(&tr, &x).pga_extract_point(), &add(p), 1e-11 * z * z)?;
        at("point translated back", &sandwich(&tr.rev_(), &sandwich(&tr, &x)).pga_extract_point(), p, 1e-11 * z * z)?;
        at("rotated point", &sandwich(&rotor, &x).pga_extract_point(), &rotate(p), 1e-11 * z * z)?;
        // rotated, then translated
        let m = rotor.mul_(&tr, 0);
        at("rotated and translated point", &sandwich(&m, &x).pga_extract_point(), &add(&rotate(p)), 1e-11 * z * z)?;

        // incidence: n p + d = offset
        let mut eq = n.clone();
        let off = c.offset as f64 / 8.;
        eq.push(off - dot(&n, p));
        if eq.iter().all(|x| *x == 0.) {
            continue;
        }
        let h = ok("a hyperplane", M::pga_hyperplane(eq.clone()))?;
        let w = h.wedge(&x).enumerate().iter().map(|(_, x)| x.abs()).sum::<f64>();
        let want = off.abs() / dot(&eq, &eq).sqrt() / (1. + dot(p, p)).sqrt();
        ensure((w - want).abs() <= 1e-12, || {
            format!("incidence of the point {p:?} and the hyperplane {eq:?} is {w}, expected {want}")
        })?;
    }

    // the join of as many points as there are dimensions
    if pts.len() > S {
        let ms: Vec<M> = pts.iter().map(|p| M::pga_point(p.clone()).unwrap()).collect();
        let mut join = ms[0].clone();
        for m in &ms[1..S] {
            join = join.meet(m);
        }
        // all orders of a regressive product of elements of this grade agree up to a sign
        let eq: Vec<f64> = (0..=S).map(|i| join.get(1 << i)).collect();
        ensure(join.enumerate().iter().all(|(i, x)| i.count_ones() == 1 || *x == 0.), || "the join of points is not a hyperplane".into())?;
        let norm: f64 = pts[..S].iter().map(|p| (1. + dot(p, p)).sqrt()).product();
        for p in &pts {
            let mut q = p.clone();
            q.push(1.);
            let got = dot(&eq, &q).abs();
            let mut m: Vec<Vec<f64>> = pts[..S].to_vec();
            m.push(p.clone());
            let rows = m
                .iter()
                .map(|r| {
                    let mut r = r.clone();
                    r.push(1.);
                    r
                })
                .collect();
            let want = det(rows).abs() / norm;
            ensure((got - want).abs() <= 1e-11 * (1. + size(p)), || {
                format!("the join of {:?} at {p:?} is {got}, expected {want}", &pts[..S])
            })?;
        }
        // hyperplanes through the first point, with the directions to the others as normals,
        // intersect in it
        let normals: Vec<Vec<f64>> = pts[1..=S].iter().map(|p| p.iter().zip(&pts[0]).map(|(a, b)| a - b).collect()).collect();
        let scale: f64 = normals.iter().map(|n| size(n)).product();
        let d = det(normals.clone());
        if d.abs() > 1e-3 * scale {
            let mut x = M::one_();
            for n in &normals {
                let mut eq = n.clone();
                eq.push(-dot(n, &pts[0]));
                x = x.wedge(&ok("a hyperplane", M::pga_hyperplane(eq))?);
            }
            let z = size(&pts[0]);
            at("intersection of hyperplanes", &x.pga_extract_point(), &pts[0], 1e-8 * z * z)?;
        }
    }
    Ok(())
}

fn both<A: ClAlgebra + PGAlgebra<S>, const S: usize>(c: &Scene) -> Outcome {
    scene::<Multivector<f64, A>, S>(c)?;
    scene::<SparseMultivector<f64, A>, S>(c)
}

fn coords(d: usize) -> BoxedStrategy<Vec<i32>> {
    prop_oneof![
        1 => Just(vec![0; d]),
        4 => proptest::collection::vec(-40i32..=40, d),
        1 => proptest::collection::vec(prop_oneof![Just(0), -400i32..=400], d),
    ]
    .boxed()
}
fn scenes() -> BoxedStrategy<Scene> {
    pick(sigs_pga())
        .prop_flat_map(|s| {
            let d = s.len() - 1;
            (
                Just(s),
                proptest::collection::vec(coords(d), d + 1),
                coords(d),
                prop_oneof![Just(0), -40i32..=40],
                coords(d),
                [0..d, 0..d],
                -200i32..=200,
            )
        })
        .prop_map(|(sig, points, plane, offset, shift, axes, angle)| Scene { sig, points, plane, offset, shift, axes, angle })
        .boxed()
}
fn valid(c: &Scene) -> bool {
    let d = c.sig.len() - 1;
    let small = |v: &Vec<i32>| v.len() == d && v.iter().all(|x| x.abs() <= 400);
    c.points.iter().all(small) && small(&c.plane) && small(&c.shift) && c.axes.iter().all(|a| *a < d) && c.angle.abs() <= 200 && c.offset.abs() <= 40
}

/// Any number of coordinates
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Arity {
    sig: String,
    n: usize,
}
fn arity<A: ClAlgebra + PGAlgebra<S>, const S: usize>(c: &Arity) -> Outcome {
    fn go<M: P<S>, const S: usize>(n: usize) -> Outcome {
        let v: Vec<f64> = (0..n).map(|i| i as f64 + 1.).collect();
        same(&format!("point of {n} coordinates accepted ({})", M::KIND), &M::pga_point(v.clone()).is_ok(), &(n == S))?;
        same(&format!("hyperplane of {n} coefficients accepted ({})", M::KIND), &M::pga_hyperplane(v.clone()).is_ok(), &(n == S + 1))?;
        let t = M::pga_translation(v.clone());
        same(&format!("translation of {n} coordinates accepted ({})", M::KIND), &t.is_ok(), &(n <= S))?;
        if let Ok(t) = t {
            // the missing coordinates are zero
            let mut w = v;
            w.resize(S, 0.);
            let o = sandwich(&t, &M::pga_point(vec![0.; S]).map_err(|e| format!("the origin is rejected with {e:?}"))?);
            at("translated origin", &o.pga_extract_point(), &w, 1e-12)?;
        }
        Ok(())
    }
    go::<Multivector<f64, A>, S>(c.n)?;
    go::<SparseMultivector<f64, A>, S>(c.n)
}

fn main() {
    Check::new("C20")
        .assume("coordinates up to 50 in steps of 1/8 (from 1e-18 to 1e21 in the law of coordinates)")
        .assume("hyperplanes are intersected when their normals are not close to dependent")
        .law_on(
            "scenes",
            "a point per dimension and one more, a plane, a translation and a rotation in spaces of one to seven dimensions; non-trivial when the points differ",
            (6_000, 150_000),
            scenes,
            |c| {
                let mut p = c.points.clone();
                p.sort();
                p.dedup();
                class(format!("{} dimensions, {}", c.sig.len() - 1, if p.len() == c.points.len() { "different points" } else { "repeated points" }), p.len() > 1)
            },
            valid,
            |c| dispatch_pga_spc!(c.sig.as_str(), both[](c)),
        )
        .law(
            "coordinates",
            "points and translations with coordinates of any scale between 1e-18 and 1e21, also mixed; non-trivial when one is not zero",
            6_000,
            150_000,
            || {
                pick(sigs_pga())
                    .prop_flat_map(|s| {
                        let d = s.len() - 1;
                        (Just(s), proptest::collection::vec((prop_oneof![4 => -1000i32..=1000, 1 => Just(0)], prop_oneof![2 => -20i8..=20, 1 => -60i8..=60, 1 => Just(0i8)]), d))
                    })
                    .prop_map(|(sig, p)| Far { sig, p })
                    .boxed()
            },
            |c| class(format!("{} dimensions", c.sig.len() - 1), c.p.iter().any(|x| x.0 != 0)),
            |c| dispatch_pga_spc!(c.sig.as_str(), far[](c)),
        )
        .each(
            "arity",
            "every number of coordinates up to dimension + 4 for every projective signature",
            |_| sigs_pga().iter().flat_map(|s| (0..s.len() + 4).map(|n| Arity { sig: s.to_string(), n })).collect(),
            |c| class(format!("{} dimensions", c.sig.len() - 1), true),
            |c| dispatch_pga_spc!(c.sig.as_str(), arity[](c)),
        )
        .main()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Far {
    sig: String,
    p: Vec<(i32, i8)>,
}
fn far<A: ClAlgebra + PGAlgebra<S>, const S: usize>(c: &Far) -> Outcome {
    let mut p: Vec<f64> = c.p.iter().map(|(m, e)| *m as f64 * ((*e).clamp(-60, 60) as f64).exp2()).collect();
    p.resize(S, 0.);
    for (name, got) in [
        ("dense", Multivector::<f64, A>::pga_point(p.clone()).map(|x| x.pga_extract_point())),
        ("sparse", SparseMultivector::<f64, A>::pga_point(p.clone()).map(|x| x.pga_extract_point())),
    ] {
        let got = ok("a point", got)?;
        for (g, w) in got.iter().zip(&p) {
            ensure((g - w).abs() <= 1e-13 * w.abs(), || format!("coordinates ({name}): {got:?}, expected {p:?}"))?;
        }
    }
    fn moved<M: P<S>, const S: usize>(p: &[f64]) -> Outcome {
        let t = ok("a translation", M::pga_translation(p.to_vec()))?;
        let o = ok("the origin", M::pga_point(vec![0.; S]))?;
        let got = sandwich(&t, &o).pga_extract_point();
        for (g, w) in got.iter().zip(p) {
            ensure((g - w).abs() <= 1e-13 * w.abs(), || format!("translated origin ({}): {got:?}, expected {p:?}", M::KIND))?;
        }
        // a hyperplane with these coefficients
        if p.iter().any(|x| *x != 0.) {
            let mut eq = p.to_vec();
            eq.push(p[0] / 3.);
            let h = ok("a hyperplane", M::pga_hyperplane(eq.clone()))?;
            let norm = eq.iter().map(|x| x * x).sum::<f64>().sqrt();
            for (i, w) in eq.iter().enumerate() {
                ensure((h.get(1 << i) * norm - w).abs() <= 1e-13 * w.abs(), || format!("hyperplane ({}) {eq:?}: coefficient {i} is {}", M::KIND, h.get(1 << i)))?;
            }
        }
        Ok(())
    }
    moved::<Multivector<f64, A>, S>(&p)?;
    moved::<SparseMultivector<f64, A>, S>(&p)
}
