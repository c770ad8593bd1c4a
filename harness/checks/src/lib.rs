//! Bridge between the reference model and the library under test.
#![recursion_limit = "512"]
pub mod algs;
pub mod mv;
pub mod repr;

pub use mv::*;
pub use proptest::prelude::*;
pub use serde::{Deserialize, Serialize};
pub use vcore::gens::{self, Coeff, Terms};
pub use vcore::model::{Alg, Mv};
pub use vcore::runner::{class, ensure, same, Check, Class, Law, Outcome, Source};

/// Two multivectors of one algebra and the operand form of the operators.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Two {
    pub sig: String,
    pub a: Terms,
    pub b: Terms,
    pub form: u8,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct OneMv {
    pub sig: String,
    pub a: Terms,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Three {
    pub sig: String,
    pub a: Terms,
    pub b: Terms,
    pub c: Terms,
}

/// Bound on the number of terms that keeps a product cheap in any dimension.
pub fn cap_for(dim: usize) -> usize {
    match dim {
        0..=6 => 64,
        7 => 128,
        8 => 96,
        9 | 10 => 48,
        _ => 16,
    }
}

/// Mostly that bound, sometimes everything (or many terms when there are many generators).
pub fn caps(dim: usize) -> BoxedStrategy<usize> {
    let most = match dim {
        0..=6 => 64,
        7..=10 => 1 << dim,
        _ => 120,
    };
    prop_oneof![
        if dim > 10 { 15u32 } else { 40 } => Just(cap_for(dim)),
        1u32 => Just(most),
    ]
    .boxed()
}

/// One of the signatures; among others, those with many generators are rare.
pub fn pick(sigs: Vec<&'static str>) -> BoxedStrategy<String> {
    let least = sigs.iter().map(|s| s.len()).min().unwrap_or(0);
    let weighted: Vec<&'static str> = sigs
        .into_iter()
        .flat_map(|s| {
            let n = match s.len() {
                _ if least > 10 => 1,
                0..=8 => 8,
                9..=10 => 4,
                _ => 1,
            };
            std::iter::repeat(s).take(n)
        })
        .collect();
    proptest::sample::select(weighted).prop_map(|s| s.to_string()).boxed()
}

pub fn two(sigs: Vec<&'static str>) -> BoxedStrategy<Two> {
    pick(sigs)
        .prop_flat_map(|s| {
            let d = s.len();
            (Just(s), caps(d).prop_flat_map(move |cap| gens::pair(d, cap)), 0u8..4)
        })
        .prop_map(|(sig, (a, b), form)| Two { sig, a, b, form })
        .boxed()
}

pub fn one_mv(sigs: Vec<&'static str>) -> BoxedStrategy<OneMv> {
    pick(sigs)
        .prop_flat_map(|s| {
            let d = s.len();
            (Just(s), caps(d).prop_flat_map(move |cap| gens::terms(d, cap)))
        })
        .prop_map(|(sig, a)| OneMv { sig, a })
        .boxed()
}

pub fn three(sigs: Vec<&'static str>, cap: usize) -> BoxedStrategy<Three> {
    pick(sigs)
        .prop_flat_map(move |s| {
            let d = s.len();
            (
                Just(s),
                gens::pair(d, cap_for(d).min(cap)),
                gens::terms(d, cap_for(d).min(cap)),
            )
        })
        .prop_map(|(sig, (a, b), c)| Three { sig, a, b, c })
        .boxed()
}

/// Signature with the number of generators that makes a readable label.
pub fn sig_label(sig: &str) -> String {
    let a = Alg::parse(sig);
    format!(
        "dim {} ({}+ {}- {}null)",
        a.dim(),
        a.real().count_ones(),
        a.imag().count_ones(),
        a.null().count_ones()
    )
}

pub fn size_label(n: usize) -> &'static str {
    match n {
        0 => "0",
        1 => "1",
        2..=5 => "2-5",
        6..=15 => "6-15",
        _ => "16+",
    }
}

pub fn class_two(c: &Two) -> Class {
    let (x, y) = (gens::support(&c.a), gens::support(&c.b));
    class(
        format!("dim {}, terms {} x {}", c.sig.len(), size_label(x), size_label(y)),
        x > 0 && y > 0,
    )
}

pub fn class_one(c: &OneMv) -> Class {
    let x = gens::support(&c.a);
    class(format!("dim {}, terms {}", c.sig.len(), size_label(x)), x > 0)
}

pub fn class_three(c: &Three) -> Class {
    let x = [gens::support(&c.a), gens::support(&c.b), gens::support(&c.c)];
    class(
        format!("dim {}, least terms {}", c.sig.len(), size_label(*x.iter().min().unwrap())),
        x.iter().all(|n| *n > 0),
    )
}

/// Two multivectors over f64 and a scalar of any finite size, each number given by its bits.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Wide {
    pub sig: String,
    pub a: Vec<(u64, u64)>,
    pub b: Vec<(u64, u64)>,
    pub s: u64,
    pub form: u8,
}

/// Bits of a finite number: any, ordinary, tiny, huge, at the ends of the range.
pub fn float_bits() -> BoxedStrategy<u64> {
    let edges: Vec<u64> = [0.0, -0.0, 1.0, -1.0, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, 5e-324, -5e-324, 1e-300, 1e300, 1e-16, 1e-9]
        .iter()
        .map(|x: &f64| x.to_bits())
        .collect();
    prop_oneof![
        4 => any::<u64>(),
        3 => (-8.0f64..8.0).prop_map(f64::to_bits),
        2 => (0u64..1 << 52, any::<bool>()).prop_map(|(m, s)| m | (s as u64) << 63),
        2 => proptest::sample::select(edges),
        1 => (any::<i32>()).prop_map(|x| (x as f64).to_bits()),
    ]
    .prop_map(|b| if f64::from_bits(b).is_finite() { b } else { b & !(1 << 62) })
    .boxed()
}

pub fn wide(sigs: Vec<&'static str>) -> BoxedStrategy<Wide> {
    fn number_terms(d: usize) -> BoxedStrategy<Vec<(u64, u64)>> {
        let m = gens::mask(d);
        proptest::collection::vec((any::<u64>().prop_map(move |i| i & m), float_bits()), 0..cap_for(d).min(24))
            .prop_map(|v| v.into_iter().collect::<std::collections::BTreeMap<_, _>>().into_iter().collect())
            .boxed()
    }
    pick(sigs)
        .prop_flat_map(|s| {
            let d = s.len();
            (Just(s), number_terms(d), number_terms(d), 0u8..4, float_bits(), 0u8..4)
        })
        .prop_map(|(sig, a, mut b, share, s, form)| {
            // often with some indices, or also some numbers, in common
            for (k, (i, x)) in a.iter().enumerate() {
                if share > 0 && k % 4 < share as usize {
                    match b.iter_mut().find(|t| t.0 == *i) {
                        Some(t) => t.1 = if k % 2 == 0 { *x } else { *x ^ 1 << 63 },
                        None => b.push((*i, if k % 3 == 0 { *x } else { s })),
                    }
                }
            }
            Wide { sig, a, b, s, form }
        })
        .boxed()
}

pub fn valid_wide(c: &Wide) -> bool {
    let m = gens::mask(c.sig.len());
    [&c.a, &c.b].iter().all(|t| {
        let set: std::collections::BTreeSet<u64> = t.iter().map(|x| x.0).collect();
        set.len() == t.len() && t.iter().all(|(i, x)| i & !m == 0 && f64::from_bits(*x).is_finite())
    }) && f64::from_bits(c.s).is_finite()
}

pub fn class_wide(c: &Wide) -> Class {
    let size = |t: &[(u64, u64)]| t.iter().filter(|x| f64::from_bits(x.1) != 0.0).count();
    let small = c.a.iter().any(|x| f64::from_bits(x.1) != 0.0 && f64::from_bits(x.1).abs() < 1e-200);
    class(
        format!("dim {}, terms {} + {}{}", c.sig.len(), size_label(size(&c.a)), size_label(size(&c.b)), if small { ", tiny" } else { "" }),
        size(&c.a) > 0 && size(&c.b) > 0,
    )
}

pub fn wide_terms(t: &[(u64, u64)]) -> Vec<(usize, f64)> {
    t.iter().map(|(i, x)| (*i as usize, f64::from_bits(*x))).collect()
}

pub fn wide_model(t: &[(u64, u64)]) -> Mv<f64> {
    Mv::from_terms(t.iter().map(|(i, x)| (*i, f64::from_bits(*x))))
}

pub fn wide_mv<M: MvLike<f64>>(t: &[(u64, u64)]) -> M {
    match M::from_indexed(wide_terms(t)) {
        Ok(m) => m,
        Err(e) => panic!("valid terms rejected with {e:?}: {t:?}"),
    }
}
