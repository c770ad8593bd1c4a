//! C02: basis-blade sign queries agree with generator reordering.
use checks::algs::*;
use checks::*;
use tclifford::types::Sign;
use tclifford::ClAlgebra;

#[macro_use]
#[path = "../huge.rs"]
mod huge;

fn num(s: Sign) -> i8 {
    match s {
        Sign::Plus => 1,
        Sign::Minus => -1,
        Sign::Null => 0,
    }
}

fn one_pair<A: ClAlgebra>(alg: &Alg, all_plus: &Alg, a: u64, b: u64) -> Outcome {
    let (i, j) = (a as usize, b as usize);
    let reorder = all_plus.geo(a, b).1;
    let e = |q: &str, got: i8, want: i8| {
        ensure(got == want, || format!("{q}({a:#b}, {b:#b}) = {got}, expected {want}"))
    };
    e("reordering sign", num(A::ac_product_sign(i, j)), reorder)?;
    e("negated reordering sign", num(A::ac_negated_product_sign(i, j)), -reorder)?;
    e("wedge sign", num(A::blade_wedge_product_sign(i, j)), alg.wedge(a, b).map_or(0, |x| x.1))?;
    e("geometric sign", num(A::blade_geo_product_sign(i, j)), alg.geo(a, b).1)
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Row {
    sig: String,
    a: u64,
}

fn row<A: ClAlgebra>(c: &Row) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let plus = Alg { sig: vec![1; alg.dim()] };
    for b in 0..=alg.mask() {
        one_pair::<A>(&alg, &plus, c.a, b)?;
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Pair {
    sig: String,
    a: u64,
    b: u64,
}

fn pair<A: ClAlgebra>(c: &Pair) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let plus = Alg { sig: vec![1; alg.dim()] };
    one_pair::<A>(&alg, &plus, c.a, c.b)?;
    one_pair::<A>(&alg, &plus, c.b, c.a)
}

fn blade(dim: usize) -> BoxedStrategy<u64> {
    let m = gens::mask(dim);
    prop_oneof![
        3 => any::<u64>().prop_map(move |x| x & m),
        2 => (any::<u64>(), any::<u64>()).prop_map(move |(x, y)| x & y & m),
        2 => (0..=dim, any::<u64>()).prop_map(move |(g, s)| gens::blade_of_grade(dim, g, s)),
        1 => (0..dim).prop_map(|i| 1u64 << i),
        1 => (0..=dim).prop_map(move |i| gens::mask(i) & m),
        1 => (0..=dim).prop_map(move |i| m & !gens::mask(i)),
        1 => Just(m),
    ]
    .boxed()
}

fn pairs(sigs: Vec<&'static str>) -> BoxedStrategy<Pair> {
    pick(sigs)
        .prop_flat_map(|s| {
            let d = s.len();
            (Just(s), blade(d), blade(d), 0u8..6)
        })
        .prop_map(|(sig, a, b, rel)| {
            let m = Alg::parse(&sig).mask();
            let b = match rel {
                0 => a,
                1 => m & !a,
                2 => b & !a,
                _ => b,
            };
            Pair { sig, a, b }
        })
        .boxed()
}

fn class_pair(c: &Pair) -> Class {
    let common = c.a & c.b;
    let alg = Alg::parse(&c.sig);
    class(
        format!(
            "dim {}, {}",
            c.sig.len(),
            if common == 0 {
                "disjoint"
            } else if common & alg.null() != 0 {
                "common null generator"
            } else {
                "common generators"
            }
        ),
        c.a != 0 && c.b != 0,
    )
}

fn rows(thorough: bool) -> Vec<Row> {
    let mut v = vec![];
    for s in sigs_all() {
        if s.len() <= if thorough { 10 } else { 7 } {
            for a in 0..1u64 << s.len() {
                v.push(Row { sig: s.into(), a });
            }
        }
    }
    v
}

fn signs(c: &(i8, i8)) -> Outcome {
    let s = |x| match x {
        1 => Sign::Plus,
        -1 => Sign::Minus,
        _ => Sign::Null,
    };
    same("product of signs", &num(s(c.0) * s(c.1)), &(c.0 * c.1))
}

fn main() {
    Check::new("C02")
        .assume("the reference model (sorting of generators with contraction) is correct")
        .each(
            "sign-products",
            "all nine products of signs",
            |_| (-1..=1).flat_map(|a| (-1..=1).map(move |b| (a, b))).collect(),
            |_| class("sign pair", true),
            signs,
        )
        .each(
            "every-pair",
            "all pairs of blades of all listed signatures with up to 7 (thorough: 10) generators, one row of the table per case; all count as non-trivial",
            rows,
            |c| class(format!("dim {}", c.sig.len()), true),
            |c| dispatch_all!(c.sig.as_str(), row[](c)),
        )
        .law(
            "pairs-dense-signatures",
            "random pairs of blades (uniform, by grade, runs, complements, equal); non-trivial when neither is the scalar",
            60_000,
            2_000_000,
            || pairs(sigs_all()),
            class_pair,
            |c| dispatch_all!(c.sig.as_str(), pair[](c)),
        )
        .law(
            "pairs-many-generators",
            "the same for 12 to 48 generators",
            80_000,
            2_000_000,
            || pairs(sigs_big()),
            class_pair,
            |c| dispatch_big!(c.sig.as_str(), pair[](c)),
        )
        .law(
            "pairs-all-index-bits",
            "the same for 63 and 64 generators",
            80_000,
            2_000_000,
            || pairs(huge::sigs_huge()),
            class_pair,
            |c| dispatch_huge!(c.sig.as_str(), pair[](c)),
        )
        .main()
}
