//! Generators of multivectors. A multivector is a list of (blade index, four
//! small integers); the rings build their coefficients from the integers.
use proptest::collection::vec;
use proptest::prelude::*;

pub type Coeff = [i32; 4];
pub type Terms = Vec<(u64, Coeff)>;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mask(dim: usize) -> u64 {
    if dim >= 64 {
        u64::MAX
    } else {
        (1 << dim) - 1
    }
}

pub fn coeff() -> impl Strategy<Value = Coeff> {
    prop_oneof![
        6 => [-9i32..=9, -9i32..=9, -9i32..=9, -9i32..=9],
        3 => (prop_oneof![Just(1i32), Just(-1), Just(2), Just(-3)], -2i32..=2, -2i32..=2, -2i32..=2).prop_map(|(a, b, c, d)| [a, b, c, d]),
        1 => Just([0; 4]),
        // units, purely imaginary numbers, equal and opposite parts
        2 => (prop_oneof![Just(1i32), Just(-1), -9i32..=9], 0usize..6).prop_map(|(x, k)| match k {
            0 => [x, 0, 0, 0],
            1 => [0, x, 0, 0],
            2 => [0, 0, x, 0],
            3 => [0, 0, 0, x],
            4 => [x; 4],
            _ => [x, -x, x, -x],
        }),
        1 => [-300i32..=300, -300i32..=300, -300i32..=300, -300i32..=300],
    ]
}

/// A blade index with exactly `g` generators.
pub fn blade_of_grade(dim: usize, g: usize, seed: u64) -> u64 {
    let g = g.min(dim);
    let mut idx = 0u64;
    let mut s = seed;
    while (idx.count_ones() as usize) < g {
        s = mix(s);
        idx |= 1 << (s % dim as u64);
    }
    idx
}

fn expand(dim: usize, cap: usize, shape: u8, seed: u64, cs: &[Coeff]) -> Terms {
    let m = mask(dim);
    let r = |k: u64| mix(seed ^ mix(k));
    let c = |k: usize| cs[k % cs.len()];
    let all = if dim < 20 { 1usize << dim } else { usize::MAX };
    match shape {
        0 => vec![],
        1 => vec![(r(0) & m, c(0))],
        // a few terms
        2 | 3 => cs.iter().enumerate().map(|(k, c)| (r(k as u64) & m, *c)).take(cap).collect(),
        // a vector
        4 => (0..dim).map(|i| (1u64 << i, c(r(i as u64) as usize % 64))).take(cap.max(1)).collect(),
        // a homogeneous element
        5 => {
            let g = r(0) as usize % (dim + 1);
            (0..cs.len() as u64)
                .map(|k| (blade_of_grade(dim, g, r(k + 1)), c(k as usize)))
                .take(cap)
                .collect()
        }
        // an even element
        6 => cs
            .iter()
            .enumerate()
            .map(|(k, c)| {
                let i = r(k as u64) & m;
                (if i.count_ones() % 2 == 1 { i ^ 1 } else { i }, *c)
            })
            .take(cap)
            .collect(),
        // everything, in some order, with some density
        7 | 8 => {
            let n = all.min(cap);
            let density = [1, 1, 2, 4][(seed % 4) as usize];
            let mut t: Terms = vec![];
            for k in 0..n {
                let i = if all <= cap { k as u64 } else { r(k as u64) & m };
                if r(!(k as u64)) % density == 0 {
                    t.push((i, c(r(k as u64 + 77) as usize % 64)));
                }
            }
            if seed & 64 != 0 {
                t.reverse();
            }
            t
        }
        // around the ends of the index range
        9 => {
            let top = 1u64 << (dim - 1);
            let pts = [m, top, m ^ 1, 0, 1, m & !top, top | 1, m >> 1];
            cs.iter().enumerate().map(|(k, c)| (pts[(r(k as u64) % 8) as usize], *c)).take(cap).collect()
        }
        // blades that are products of each other, so that many products meet in one blade
        10 => {
            let (x, y, z) = (r(1) & m, blade_of_grade(dim, 1 + r(2) as usize % 3, r(3)), blade_of_grade(dim, 2, r(4)));
            let low = seed & 2 != 0;
            let x = if low { blade_of_grade(dim, 2, r(5)) } else { x };
            cs.iter()
                .enumerate()
                .map(|(k, c)| {
                    let b = r(k as u64 + 6);
                    ([0, x][b as usize & 1] ^ [0, y][b as usize >> 1 & 1] ^ [0, z][b as usize >> 2 & 1], *c)
                })
                .take(cap)
                .collect()
        }
        // low grades together: scalar, vectors, bivectors
        11 => cs.iter().enumerate().map(|(k, c)| (blade_of_grade(dim, (r(k as u64) % 3) as usize, r(k as u64 + 500)), *c)).take(cap).collect(),
        // the same near the pseudoscalar
        12 => cs.iter().enumerate().map(|(k, c)| (m ^ blade_of_grade(dim, (r(k as u64) % 3) as usize, r(k as u64 + 500)), *c)).take(cap).collect(),
        // repeated indices and zeros
        _ => {
            let mut t: Terms = vec![];
            for (k, c) in cs.iter().enumerate() {
                let i = r(k as u64 / 2) & m;
                t.push((i, *c));
                if r(k as u64 + 1000) % 3 == 0 {
                    t.push((i, [0; 4]));
                }
            }
            t.truncate(cap.max(1));
            t
        }
    }
}

/// Multivectors of an algebra with `dim` generators, with at most `cap` terms.
pub fn terms(dim: usize, cap: usize) -> BoxedStrategy<Terms> {
    (0u8..14, any::<u64>(), vec(coeff(), 1..=14))
        .prop_map(move |(shape, seed, cs)| expand(dim, cap, shape, seed, &cs))
        .boxed()
}

/// Two multivectors, sometimes related.
pub fn pair(dim: usize, cap: usize) -> BoxedStrategy<(Terms, Terms)> {
    (terms(dim, cap), terms(dim, cap), 0u8..12)
        .prop_map(|(a, b, rel)| match rel {
            0 => (a.clone(), a),
            1 => {
                let n = a.iter().map(|(i, c)| (*i, [-c[0], -c[1], -c[2], -c[3]])).collect();
                (a, n)
            }
            2 => {
                let n = a
                    .iter()
                    .enumerate()
                    .map(|(k, (i, c))| (*i, b.get(k).map(|x| x.1).unwrap_or(*c)))
                    .collect();
                (a, n)
            }
            // the same blades up to one common factor
            3 => match a.first() {
                Some((f, _)) => {
                    let f = *f;
                    let n = a.iter().enumerate().map(|(k, (i, c))| (*i ^ f, b.get(k).map(|x| x.1).unwrap_or(*c))).collect();
                    (a, n)
                }
                None => (a, b),
            },
            _ => (a, b),
        })
        .boxed()
}

/// How many different indices have a coefficient.
pub fn support(t: &Terms) -> usize {
    let mut m = std::collections::BTreeMap::new();
    for (i, c) in t {
        m.insert(*i, *c);
    }
    m.values().filter(|c| **c != [0; 4]).count()
}

/// Numbers that a grade of the algebra looks like when it is cut to fewer bits or made signed
pub fn wild_grades(g: usize) -> Vec<usize> {
    vec![
        g + 32,
        g + 64,
        g + 128,
        g + (1 << 8),
        g + (1 << 16),
        g + (1 << 31),
        g + (1 << 32),
        usize::MAX >> 1,
        g + (1 << 63),
        usize::MAX - g,
    ]
}
