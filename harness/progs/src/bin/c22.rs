//! C22: a declared algebra reports its declaration. Every case is a program with some
//! declarations, which is compiled and run; it prints what the algebras say about themselves.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::gens::mix;
use vcore::runner::{class, Check, Class, Outcome};
use vcore::rustcx::runs;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Decl {
    sig: String,
    /// Empty for the default names
    names: Vec<String>,
    /// pub, pub(crate), private, private without a list of names
    vis: u8,
    /// Makes the blades whose labels are printed
    seed: u64,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Batch {
    decls: Vec<Decl>,
}

/// Dimensions up to which the dense basis, the representation basis and whole enumerations are
/// printed
const DENSE: usize = 10;
const REPR: usize = 7;
const WHOLE: usize = 13;
/// Bound on the number of indices taken from an enumeration in larger algebras
const SOME: usize = 3000;

const PROGRAM: &str = r##"
use tclifford::{declare_algebra, ClAlgebra, ClBasis, FFTRepr, Multivector, SparseMultivector};
const DENSE: usize = {DENSE};
const REPR: usize = {REPR};
const WHOLE: usize = {WHOLE};
const SOME: usize = {SOME};
fn summary(limit: usize, it: impl Iterator<Item = usize>) -> String {
    let v: Vec<usize> = it.take(limit).collect();
    let mut w = v.clone();
    w.sort();
    w.dedup();
    let sum = w.iter().fold(0u64, |s, i| s.wrapping_mul(6364136223846793005).wrapping_add(*i as u64 + 1));
    format!("{} {} {:x}", v.len(), w.len(), sum)
}
fn weights(limit: usize, it: impl Iterator<Item = usize>) -> String {
    let v: Vec<usize> = it.take(limit).collect();
    let mut w = v.clone();
    w.sort();
    w.dedup();
    let lo = v.iter().map(|i| i.count_ones()).min().unwrap_or(0);
    let hi = v.iter().map(|i| i.count_ones()).max().unwrap_or(0);
    let all = v.iter().fold(0, |s, i| s | i);
    format!("{} {} {lo} {hi} {all:x}", v.len(), w.len())
}
fn coeffs(c: Vec<(usize, i64)>) -> String {
    let mut c: Vec<(usize, i64)> = c.into_iter().filter(|(_, x)| *x != 0).collect();
    c.sort();
    format!("{c:?}")
}
fn describe<A: ClAlgebra + ClBasis<N>, const N: usize>(n: usize, blades: &[usize], grades: &[usize]) {
    let d = A::dim();
    println!("{n} dim {d}");
    println!("{n} dims {} {} {}", A::real_dim(), A::imag_dim(), A::proj_dim());
    println!("{n} masks {:x} {:x} {:x}", A::real_mask(), A::imag_mask(), A::proj_mask());
    println!("{n} signature {:?}", A::signature());
    println!("{n} signaturef {:?}", A::signaturef());
    println!("{n} names {:?}", (0..N).map(|i| A::axis_name(i)).collect::<Vec<_>>());
    for b in blades {
        println!("{n} label {b:x} {:?}", A::blade_label(*b));
        println!("{n} reversed label {b:x} {:?}", A::blade_label_rev(*b));
    }
    if N <= WHOLE {
        println!("{n} indices {}", summary(2 << N, A::index_iter()));
    } else {
        let v: Vec<usize> = A::index_iter().take(SOME).collect();
        let mut w = v.clone();
        w.sort();
        w.dedup();
        println!("{n} indices {} {} {}", v.len(), w.len(), w.iter().all(|i| N == 64 || i >> N == 0));
    }
    for g in grades {
        if N <= WHOLE {
            println!("{n} grade {g} {}", summary(2 << N, A::grade_index_iter(*g)));
        } else {
            println!("{n} grade {g} {}", weights(SOME, A::grade_index_iter(*g)));
        }
    }
    if N <= DENSE {
        for (k, b) in A::basis::<i64>().iter().enumerate() {
            println!("{n} dense {k} {}", coeffs(b.coeff_enumerate().map(|(i, x)| (i, *x)).collect()));
            println!("{n} dense square {k} {}", coeffs((b * b).coeff_enumerate().map(|(i, x)| (i, *x)).collect()));
        }
        for (k, b) in Multivector::<i64, A>::basis().iter().enumerate() {
            println!("{n} dense too {k} {}", coeffs(b.coeff_enumerate().map(|(i, x)| (i, *x)).collect()));
        }
    }
    for (k, b) in A::basis_sparse::<i64>().iter().enumerate() {
        println!("{n} sparse {k} {}", coeffs(b.coeff_enumerate().map(|(i, x)| (i, *x)).collect()));
        println!("{n} sparse square {k} {}", coeffs((b * b).coeff_enumerate().map(|(i, x)| (i, *x)).collect()));
    }
    for (k, b) in SparseMultivector::<i64, A>::basis().iter().enumerate() {
        println!("{n} sparse too {k} {}", coeffs(b.coeff_enumerate().map(|(i, x)| (i, *x)).collect()));
    }
    if N <= REPR {
        for (k, b) in FFTRepr::<A>::basis().iter().enumerate() {
            let m: Multivector<f64, A> = b.ifft();
            println!("{n} representation {k} {}", coeffs(m.coeff_enumerate().map(|(i, x)| (i, (x * 4096.).round() as i64)).collect()));
        }
    }
}
fn main() {
{MAIN}
}
"##;

fn blades(d: &Decl) -> Vec<u64> {
    let m = vcore::gens::mask(d.sig.len());
    let mut v = vec![0, m];
    v.extend((0..5).map(|k| mix(d.seed.wrapping_add(k)) & m));
    v.extend((0..3).map(|k| mix(d.seed ^ (k + 77)) & mix(d.seed ^ (k + 99)) & m));
    v
}
fn grades(d: &Decl) -> Vec<usize> {
    let n = d.sig.len();
    // numbers that no grade is
    let far = [(1 << 32) + n / 2, usize::MAX - n];
    if n <= WHOLE {
        return (0..=n + 1).chain(far).collect();
    }
    let mut v = vec![0, 1, 2, n / 3, n / 2, n - 3, n - 2, n - 1, n, n + 1];
    v.push(3 + (mix(d.seed) % (n as u64 - 5)) as usize);
    v.extend(far);
    v
}

fn program(b: &Batch) -> String {
    let mut calls = String::new();
    let mut decls = String::new();
    for (i, d) in b.decls.iter().enumerate() {
        let s = d.sig.chars().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
        let n = d.names.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", ");
        decls += &match d.vis % 4 {
            0 => format!("declare_algebra!(pub D{i}, [{s}], [{n}]);\n"),
            1 => format!("declare_algebra!(pub(crate) D{i}, [{s}], [{n}]);\n"),
            3 if d.names.is_empty() => format!("declare_algebra!(D{i}, [{s}]);\n"),
            _ => format!("declare_algebra!(D{i}, [{s}], [{n}]);\n"),
        };
        calls += &format!("    describe::<D{i}, {}>({i}, &{:?}, &{:?});\n", d.sig.len(), blades(d), grades(d));
    }
    let p = PROGRAM
        .replace("{DENSE}", &DENSE.to_string())
        .replace("{REPR}", &REPR.to_string())
        .replace("{WHOLE}", &WHOLE.to_string())
        .replace("{SOME}", &SOME.to_string())
        .replace("{MAIN}", &calls);
    p + &decls
}

fn binomial(n: u128, k: u128) -> u128 {
    (0..k.min(n)).fold(1, |b, i| b * (n - i) / (i + 1)) * (k <= n) as u128
}
fn summary(v: impl Iterator<Item = u64>) -> String {
    let v: Vec<u64> = v.collect();
    let sum = v.iter().fold(0u64, |s, i| s.wrapping_mul(6364136223846793005).wrapping_add(*i + 1));
    format!("{} {} {:x}", v.len(), v.len(), sum)
}

/// What the program must print, apart from the numbers of enumerated indices that are cut off.
fn expected(n: usize, d: &Decl, out: &mut Vec<String>) {
    let s: Vec<char> = d.sig.chars().collect();
    let dim = s.len();
    let mask = |x: char| s.iter().enumerate().filter(|(_, c)| **c == x).fold(0u64, |m, (i, _)| m | 1 << i);
    let count = |x: char| s.iter().filter(|c| **c == x).count();
    let val = |c: &char| match c {
        '+' => 1i8,
        '-' => -1,
        _ => 0,
    };
    let names: Vec<String> = if d.names.is_empty() { (0..dim).map(|i| format!("e{i}")).collect() } else { d.names.clone() };
    out.push(format!("{n} dim {dim}"));
    out.push(format!("{n} dims {} {} {}", count('+'), count('-'), count('0')));
    out.push(format!("{n} masks {:x} {:x} {:x}", mask('+'), mask('-'), mask('0')));
    out.push(format!("{n} signature {:?}", s.iter().map(val).collect::<Vec<_>>()));
    out.push(format!("{n} signaturef {:?}", s.iter().map(|c| val(c) as f64).collect::<Vec<_>>()));
    out.push(format!("{n} names {names:?}"));
    for b in blades(d) {
        let up: Vec<&str> = (0..dim).filter(|i| b >> i & 1 == 1).map(|i| names[i].as_str()).collect();
        let down: Vec<&str> = up.iter().rev().cloned().collect();
        out.push(format!("{n} label {b:x} {:?}", down.join("^")));
        out.push(format!("{n} reversed label {b:x} {:?}", up.join("^")));
    }
    if dim <= WHOLE {
        out.push(format!("{n} indices {}", summary(0..1 << dim)));
    } else {
        out.push(format!("{n} indices {SOME} {SOME} true"));
    }
    let m = vcore::gens::mask(dim);
    for g in grades(d) {
        if dim <= WHOLE {
            out.push(format!("{n} grade {g} {}", summary((0..1u64 << dim).filter(|i| i.count_ones() as usize == g))));
        } else {
            let all = if g > dim { 0 } else { binomial(dim as u128, g as u128) };
            let k = all.min(SOME as u128);
            let w = if k == 0 { 0 } else { g };
            if all <= SOME as u128 {
                let m = if k == 0 || g == 0 { 0 } else { m };
                out.push(format!("{n} grade {g} {k} {k} {w} {w} {m:x}"));
            } else {
                // which of the indices come first is not claimed
                out.push(format!("{n} grade {g} {k} {k} {w} {w} "));
            }
        }
    }
    let square = |k: usize| if s[k] == '0' { "[]".to_string() } else { format!("[(0, {})]", val(&s[k])) };
    let one = |k: usize, x: i64| format!("[({}, {x})]", 1u64 << k);
    if dim <= DENSE {
        for k in 0..dim {
            out.push(format!("{n} dense {k} {}", one(k, 1)));
            out.push(format!("{n} dense square {k} {}", square(k)));
        }
        for k in 0..dim {
            out.push(format!("{n} dense too {k} {}", one(k, 1)));
        }
    }
    for k in 0..dim {
        out.push(format!("{n} sparse {k} {}", one(k, 1)));
        out.push(format!("{n} sparse square {k} {}", square(k)));
    }
    for k in 0..dim {
        out.push(format!("{n} sparse too {k} {}", one(k, 1)));
    }
    if dim <= REPR {
        for k in 0..dim {
            out.push(format!("{n} representation {k} {}", one(k, 4096)));
        }
    }
}

fn test(b: &Batch) -> Outcome {
    let about = |n: &str| n.split(' ').next().and_then(|n| n.parse::<usize>().ok()).and_then(|n| b.decls.get(n)).map(|d| format!("{d:?}")).unwrap_or_default();
    let text = program(b);
    let got = runs(env!("CARGO_MANIFEST_DIR"), &text).map_err(|e| format!("the program with the declarations {:?}: {e}", b.decls))?;
    let mut want = vec![];
    for (n, d) in b.decls.iter().enumerate() {
        expected(n, d, &mut want);
    }
    let got: Vec<&str> = got.lines().collect();
    for (g, w) in got.iter().zip(&want) {
        let cut = w.ends_with(' ');
        let ok = if cut { g.starts_with(w.as_str()) } else { g == w };
        if !ok {
            return Err(format!("the program prints {g:?} instead of {w:?} about {}", about(w)));
        }
        if cut {
            let n: usize = w.split(' ').next().unwrap().parse().unwrap();
            let dim = b.decls[n].sig.len();
            let all = u64::from_str_radix(g.rsplit(' ').next().unwrap(), 16).unwrap_or(u64::MAX);
            if all & !vcore::gens::mask(dim) != 0 {
                return Err(format!("the program prints {g:?}, with an index outside of the algebra, about {}", about(w)));
            }
        }
    }
    if got.len() != want.len() {
        return Err(format!("the program prints {} lines instead of {}", got.len(), want.len()));
    }
    Ok(())
}

fn valid(b: &Batch) -> bool {
    b.decls.len() <= 24
        && b.decls.iter().all(|d| {
            let s = &d.sig;
            (1..=64).contains(&s.len())
                && s.chars().all(|c| "+-0".contains(c))
                && !s.trim_end_matches('0').contains('0')
                && (d.names.is_empty() || d.names.len() == s.len())
                && d.vis < 4
        })
}

fn name() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-zA-Z]{1,3}[0-9]{0,2}",
        1 => "[γεαβ∞]{1,2}_?[0-9]?",
        1 => "[ -~]{0,8}",
        1 => any::<u8>().prop_map(|n| format!("e{n}")),
    ]
    .boxed()
}

fn decl(small: bool) -> BoxedStrategy<Decl> {
    let sig = if small {
        prop_oneof![3 => ("[+-]{0,6}", "0{0,4}").prop_map(|(a, b)| a + &b), 1 => "[+]{1,8}0", 1 => "(\\+-){1,5}"].boxed()
    } else {
        prop_oneof![
            2 => ("[+-]{5,20}", "0{0,9}").prop_map(|(a, b)| a + &b),
            2 => ("[+-]{10,40}", "0{0,24}").prop_map(|(a, b)| a + &b),
            1 => ("[+-]{56}", "[+-]{0,8}", Just("0".repeat(64))).prop_map(|(a, b, c)| (a + &b + &c)[..64].to_string()),
            1 => ("[+-]{63}", "[-+0]{0,1}").prop_map(|(a, b)| a + &b),
            1 => (1usize..=64).prop_map(|n| "+".repeat(n)),
            1 => (1usize..=64).prop_map(|n| "-".repeat(n)),
            1 => (1usize..=64).prop_map(|n| "0".repeat(n)),
        ]
        .boxed()
    };
    sig.prop_map(|s| if s.is_empty() { "+".to_string() } else { s })
        .prop_flat_map(|s| {
            let n = s.len();
            (Just(s), prop_oneof![1 => Just(vec![]), 2 => proptest::collection::vec(name(), n)], 0u8..4, any::<u64>())
        })
        .prop_map(|(sig, names, vis, seed)| Decl { sig, names, vis, seed })
        .boxed()
}

fn every_small(thorough: bool) -> Vec<Batch> {
    let max = if thorough { 8 } else { 5 };
    let mut all = vec![];
    for dim in 1..=max {
        for nulls in 0..=dim {
            for bits in 0..1u32 << (dim - nulls) {
                let mut sig: String = (0..dim - nulls).map(|i| if bits >> i & 1 == 1 { '-' } else { '+' }).collect();
                sig += &"0".repeat(nulls);
                let k = all.len();
                let names = match k % 3 {
                    0 => vec![],
                    1 => (0..dim).map(|i| format!("v{}", (b'a' + i as u8) as char)).collect(),
                    _ => (0..dim).rev().map(|i| format!("e{i}")).collect(),
                };
                all.push(Decl { sig, names, vis: (k / 3 % 4) as u8, seed: k as u64 });
            }
        }
    }
    all.chunks(10).map(|c| Batch { decls: c.to_vec() }).collect()
}

fn label(b: &Batch) -> Class {
    let most = b.decls.iter().map(|d| d.sig.len()).max().unwrap_or(0);
    let l = match most {
        0..=3 => "at most 3",
        4..=6 => "4-6",
        7..=12 => "7-12",
        13..=31 => "13-31",
        32..=62 => "32-62",
        _ => "63-64",
    };
    class(format!("{} declarations, {l} generators", b.decls.len()), !b.decls.is_empty())
}

fn main() {
    Check::new("C22")
        .assume("enumerations of more than 8192 indices are looked at up to the first 3000 indices")
        .each(
            "small-signatures",
            "every signature with at most 5 (thorough: 8) generators with default and given names, ten in a program that is compiled and run",
            every_small,
            label,
            test,
        )
        .budget(60)
        .law_on(
            "signatures",
            "programs with six random declarations of at most 10 generators with random names",
            (56, 800),
            || proptest::collection::vec(decl(true), 6).prop_map(|decls| Batch { decls }).boxed(),
            label,
            valid,
            test,
        )
        .budget(60)
        .law_on(
            "many-generators",
            "programs with four random declarations of up to 64 generators",
            (48, 600),
            || proptest::collection::vec(decl(false), 4).prop_map(|decls| Batch { decls }).boxed(),
            label,
            valid,
            test,
        )
        .budget(60)
        .main()
}
