//! C11: arithmetic on matrix representations equals arithmetic on multivectors.
use checks::algs::*;
use checks::repr::*;
use checks::*;
use tclifford::algebra::{NonDegenerate, SplitSignature};
use tclifford::{ClAlgebra, FFTRepr, Multivector, One, Zero};
use vcore::rings::Fp;

/// Operations on a stack of representations.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    Push(usize),
    Zero,
    One,
    Add(u8),
    Sub(u8),
    Mul(u8),
    Neg(u8),
    /// multiplication by a real number
    MulR(i8, u8),
    MulC(i8, i8, u8),
    DivR(i8, u8),
    DivC(i8, i8, u8),
    Dup,
    Swap,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Expr {
    sig: String,
    leaves: Vec<Terms>,
    ops: Vec<Op>,
}

fn exprs(sigs: Vec<&'static str>) -> BoxedStrategy<Expr> {
    let f = || 0u8..4;
    let nz = || prop_oneof![-5i8..=-1, 1i8..=5];
    let op = prop_oneof![
        6 => (0usize..3).prop_map(Op::Push),
        1 => Just(Op::Zero),
        1 => Just(Op::One),
        4 => f().prop_map(Op::Add),
        4 => f().prop_map(Op::Sub),
        7 => f().prop_map(Op::Mul),
        1 => f().prop_map(Op::Neg),
        1 => (-5i8..=5, f()).prop_map(|(s, f)| Op::MulR(s, f)),
        1 => (-5i8..=5, -5i8..=5, f()).prop_map(|(s, t, f)| Op::MulC(s, t, f)),
        1 => (nz(), f()).prop_map(|(s, f)| Op::DivR(s, f)),
        1 => (nz(), -5i8..=5, f()).prop_map(|(s, t, f)| Op::DivC(s, t, f)),
        1 => Just(Op::Dup),
        1 => Just(Op::Swap),
    ];
    pick(sigs)
        .prop_flat_map(move |s| {
            let d = s.len();
            (
                Just(s),
                proptest::collection::vec(gens::terms(d, cap_for(d).min(24)), 3),
                proptest::collection::vec(op.clone(), 0..12),
            )
        })
        .prop_map(|(sig, leaves, ops)| {
            let mut all = vec![Op::Push(0), Op::Push(1)];
            all.extend(ops);
            Expr { sig, leaves, ops: all }
        })
        .boxed()
}

fn valid(c: &Expr) -> bool {
    let m = gens::mask(c.sig.len());
    !c.leaves.is_empty()
        && c.leaves.iter().flatten().all(|(i, _)| i & !m == 0)
        && c.ops.iter().all(|o| match o {
            Op::DivR(s, _) => *s != 0,
            Op::DivC(s, t, _) => *s != 0 || *t != 0,
            _ => true,
        })
}

macro_rules! bin {
    ($f:expr, $a:expr, $op:tt, $b:expr) => {{
        let (a, b) = (&$a, &$b);
        match $f % 4 { 0 => a $op b, 1 => a $op b.clone(), 2 => a.clone() $op b, _ => a.clone() $op b.clone() }
    }};
}

struct Item<A: ClAlgebra> {
    r: FFTRepr<A>,
    /// the same evaluated on multivectors of the library
    d: Multivector<C64, A>,
    m: Mv<C64>,
    /// bound on the sum of norms
    bound: f64,
}

fn eval<A: ClAlgebra, T: Fc>(c: &Expr) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let mut st: Vec<Item<A>> = vec![];
    for (n, o) in c.ops.iter().enumerate() {
        let new = match o {
            Op::Push(k) => {
                let t = &c.leaves[k % c.leaves.len()];
                let m = cmodel::<T>(t);
                let bound = l1(&m);
                Item { r: relayout(mv_of::<T, A>(t).fft(), t.len()), d: Multivector::from_indexed_iter(m.c.iter().map(|(i, c)| (*i as usize, *c))).unwrap(), m, bound }
            }
            Op::Zero => Item { r: FFTRepr::zero(), d: Multivector::zero(), m: Mv::new(), bound: 0. },
            Op::One => Item { r: FFTRepr::one(), d: Multivector::one(), m: Mv::scalar(C64::new(1., 0.)), bound: 1. },
            Op::Add(f) | Op::Sub(f) | Op::Mul(f) => {
                if st.len() < 2 {
                    continue;
                }
                let y = st.pop().unwrap();
                let x = st.pop().unwrap();
                let grow = if matches!(o, Op::Mul(_)) { x.bound * y.bound } else { x.bound + y.bound };
                if grow > 1e13 || (matches!(o, Op::Mul(_)) && x.m.len() * y.m.len() > 4000) {
                    st.push(x);
                    continue;
                }
                let (cx, cy) = (x.r.clone(), y.r.clone());
                let i = match o {
                    Op::Add(_) => Item { r: bin!(f, x.r, +, y.r), d: &x.d + &y.d, m: x.m.add(&y.m), bound: grow },
                    Op::Sub(_) => Item { r: bin!(f, x.r, -, y.r), d: &x.d - &y.d, m: x.m.sub(&y.m), bound: grow },
                    _ => Item { r: bin!(f, x.r, *, y.r), d: &x.d * &y.d, m: alg.mul(&x.m, &y.m), bound: grow },
                };
                ensure(cx == x.r && cy == y.r, || format!("step {n} ({o:?}) changed an operand"))?;
                i
            }
            Op::Dup => match st.last() {
                None => continue,
                Some(x) => Item { r: x.r.clone(), d: x.d.clone(), m: x.m.clone(), bound: x.bound },
            },
            Op::Swap => {
                if st.len() > 1 {
                    let l = st.len();
                    st.swap(l - 1, l - 2);
                }
                continue;
            }
            Op::Neg(f) => match st.pop() {
                None => continue,
                Some(x) => Item { r: if f % 2 == 0 { -&x.r } else { -x.r.clone() }, d: -&x.d, m: x.m.neg(), bound: x.bound },
            },
            Op::MulR(s, f) => match st.pop() {
                None => continue,
                Some(x) => {
                    let s = *s as f64 / 2.;
                    let z = C64::new(s, 0.);
                    Item { r: bin!(f, x.r, *, s), d: &x.d * z, m: x.m.scale(&z), bound: x.bound * s.abs() }
                }
            },
            Op::MulC(s, t, f) => match st.pop() {
                None => continue,
                Some(x) => {
                    let z = C64::new(*s as f64, *t as f64 / 2.);
                    Item { r: bin!(f, x.r, *, z), d: &x.d * z, m: x.m.scale(&z), bound: x.bound * z.norm() }
                }
            },
            Op::DivR(s, f) => match st.pop() {
                None => continue,
                Some(x) => {
                    let s = *s as f64 / 2.;
                    let z = C64::new(s, 0.);
                    Item { r: bin!(f, x.r, /, s), d: &x.d / z, m: x.m.map(|c| c / z), bound: x.bound / s.abs() }
                }
            },
            Op::DivC(s, t, f) => match st.pop() {
                None => continue,
                Some(x) => {
                    let z = C64::new(*s as f64, *t as f64 / 2.);
                    Item { r: bin!(f, x.r, /, z), d: &x.d / z, m: x.m.map(|c| c / z), bound: x.bound / z.norm() }
                }
            },
        };
        let tol = 1e-12 * new.bound + 1e-12;
        same("shape", &new.r.shape(), &shape_of(&alg))?;
        close(&format!("step {n} ({o:?})"), &back(&new.r), &new.m, tol)?;
        close(&format!("step {n} ({o:?}) on multivectors"), &read(&new.d), &new.m, tol)?;
        st.push(new);
    }
    Ok(())
}

fn class_expr(c: &Expr) -> Class {
    let muls = c.ops.iter().filter(|o| matches!(o, Op::Mul(_))).count();
    let full = c.leaves.iter().all(|l| gens::support(l) > 0);
    class(format!("{}, {} products", sig_label(&c.sig), muls.min(4)), muls > 0 && full)
}

fn simple<A: ClAlgebra>(c: &Two) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let (a, b) = (mv_of::<f64, A>(&c.a), mv_of::<f64, A>(&c.b));
    let (ma, mb) = (cmodel::<f64>(&c.a), cmodel::<f64>(&c.b));
    let (fa, fb) = (a.fft(), b.fft());
    let tol = 1e-12 * (1. + l1(&ma) * l1(&mb));
    let p = bin!(c.form, fa, *, fb);
    close("product", &read(&p.ifft::<f64>()), &alg.mul(&ma, &mb), tol)?;
    // one value as both operands
    let la = l1(&ma);
    if ma.len() <= 32 {
        close("product with itself", &read(&(&fa * &fa).ifft::<f64>()), &alg.mul(&ma, &ma), 1e-12 * (1. + la * la))?;
    }
    close("sum with itself", &read(&(&fa + &fa).ifft::<f64>()), &ma.add(&ma), 1e-12 * (1. + la))?;
    close("difference with itself", &read(&(&fa - &fa).ifft::<f64>()), &Mv::new(), 1e-12 * (1. + la))?;
    ensure(fa == a.fft() && fb == b.fft(), || "the product changed an operand".into())
}

/// The real transform of the split algebras is a matrix representation over any field.
fn split<A: ClAlgebra + SplitSignature + NonDegenerate>(c: &Two) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let (a, b) = (Multivector::<Fp, A>::build(&c.a), Multivector::<Fp, A>::build(&c.b));
    let (ra, rb) = (a.real_fft(), b.real_fft());
    let side = alg.side();
    same("shape", &ra.dim(), &(side, side))?;
    ensure((&a + &b).real_fft() == &ra + &rb, || "the real transform is not additive".into())?;
    let p = (&a * &b).real_fft();
    for i in 0..side {
        for j in 0..side {
            let mut s = Fp(0);
            for k in 0..side {
                s = s + ra[(i, k)] * rb[(k, j)];
            }
            ensure(p[(i, j)] == s, || format!("the real transform of the product differs at ({i}, {j})"))?;
        }
    }
    if a != b {
        ensure(ra != rb, || "different multivectors have the same real transform".into())?;
    }
    Ok(())
}

/// Sums and products are homogeneous, also for tiny and huge coefficients.
fn scales<A: ClAlgebra>(c: &Sized2) -> Outcome {
    let (a, b) = (mv_sized::<A>(&c.a, 0).fft(), mv_sized::<A>(&c.b, 0).fft());
    let (x, y, z) = (mv_sized::<A>(&c.a, c.e).fft(), mv_sized::<A>(&c.b, c.f).fft(), mv_sized::<A>(&c.b, c.e).fft());
    let (la, lb) = (l1(&cmodel::<C64>(&c.a)), l1(&cmodel::<C64>(&c.b)));
    same_scaled_repr("product", &(&x * &y), c.e + c.f, &(&a * &b), 1e-12 * la * lb)?;
    same_scaled_repr("sum", &(&x + &z), c.e, &(&a + &b), 1e-13 * (la + lb))?;
    same_scaled_repr("difference", &(&x - &z), c.e, &(&a - &b), 1e-13 * (la + lb))?;
    let s = exp2(c.f);
    same_scaled_repr("real multiple", &(&x * s), c.e + c.f, &a, 1e-13 * la)?;
    same_scaled_repr("complex multiple", &(&x * C64::new(s, 0.)), c.e + c.f, &a, 1e-13 * la)?;
    same_scaled_repr("real quotient", &(&x / s), c.e - c.f, &a, 1e-13 * la)?;
    same_scaled_repr("complex quotient", &(&x / C64::new(s, 0.)), c.e - c.f, &a, 1e-13 * la)
}

fn main() {
    Check::new("C11")
        .assume("rounding is bounded relative to the product of the sums of norms of the coefficients")
        .law_on(
            "expressions-complex",
            "random expressions over three complex multivectors of the listed signatures; non-trivial with a product and non-zero leaves",
            (16_000, 400_000),
            || exprs(sigs_all()),
            class_expr,
            valid,
            |c| dispatch_all!(c.sig.as_str(), eval[C64](c)),
        )
        .law_on(
            "expressions-real",
            "the same over real multivectors",
            (12_000, 300_000),
            || exprs(sigs_few()),
            class_expr,
            valid,
            |c| dispatch_few!(c.sig.as_str(), eval[f64](c)),
        )
        .law(
            "products",
            "random pairs with full mantissas; non-trivial when both are non-zero",
            20_000,
            400_000,
            || two(sigs_all()),
            class_two,
            |c| dispatch_all!(c.sig.as_str(), simple[](c)),
        )
        .law(
            "split-signatures",
            "random pairs over a prime field through the real transform; non-trivial when both are non-zero",
            6_000,
            100_000,
            || two(sigs_split()),
            class_two,
            |c| dispatch_split!(c.sig.as_str(), split[](c)),
        )
        .law(
            "products-13-to-16-generators",
            "products of two multivectors with 13 to 16 generators",
            96,
            1_600,
            || two(sigs_vast()),
            class_two,
            |c| dispatch_vast!(c.sig.as_str(), simple[](c)),
        )
        .budget(60)
        .law_on(
            "scales",
            "pairs scaled by powers of two between 2^-300 and 2^300; non-trivial when both are non-zero",
            (6_000, 120_000),
            || sized(sigs_few(), 24),
            class_sized,
            valid_sized,
            |c| dispatch_few!(c.sig.as_str(), scales[](c)),
        )
        .main()
}
