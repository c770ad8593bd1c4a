//! C21: displayed multivectors can be read back.
use checks::algs::*;
use checks::*;
use std::fmt::{Display, LowerExp, UpperExp};
use tclifford::{ClAlgebra, Multivector, SparseMultivector};
use vcore::rings::Fp;

/// A multivector and the way to format it.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Shown {
    sig: String,
    a: Terms,
    /// 0 plain, 1 lower exponent, 2 upper exponent
    form: u8,
    plus: bool,
    alternate: bool,
    precision: Option<u8>,
}

fn display<T: Display>(x: &T, c: &Shown) -> String {
    match (c.plus, c.alternate, c.precision) {
        (false, false, None) => format!("{x}"),
        (true, false, None) => format!("{x:+}"),
        (false, true, None) => format!("{x:#}"),
        (true, true, None) => format!("{x:+#}"),
        (false, false, Some(p)) => format!("{x:.*}", p as usize),
        (true, false, Some(p)) => format!("{x:+.*}", p as usize),
        (false, true, Some(p)) => format!("{x:#.*}", p as usize),
        (true, true, Some(p)) => format!("{x:+#.*}", p as usize),
    }
}
fn lower<T: LowerExp>(x: &T, c: &Shown) -> String {
    match (c.plus, c.alternate, c.precision) {
        (false, false, None) => format!("{x:e}"),
        (true, false, None) => format!("{x:+e}"),
        (false, true, None) => format!("{x:#e}"),
        (true, true, None) => format!("{x:+#e}"),
        (false, false, Some(p)) => format!("{x:.*e}", p as usize),
        (true, false, Some(p)) => format!("{x:+.*e}", p as usize),
        (false, true, Some(p)) => format!("{x:#.*e}", p as usize),
        (true, true, Some(p)) => format!("{x:+#.*e}", p as usize),
    }
}
fn upper<T: UpperExp>(x: &T, c: &Shown) -> String {
    match (c.plus, c.alternate, c.precision) {
        (false, false, None) => format!("{x:E}"),
        (true, false, None) => format!("{x:+E}"),
        (false, true, None) => format!("{x:#E}"),
        (true, true, None) => format!("{x:+#E}"),
        (false, false, Some(p)) => format!("{x:.*E}", p as usize),
        (true, false, Some(p)) => format!("{x:+.*E}", p as usize),
        (false, true, Some(p)) => format!("{x:#.*E}", p as usize),
        (true, true, Some(p)) => format!("{x:+#.*E}", p as usize),
    }
}

/// Splits at " + " outside of parentheses.
fn split(s: &str) -> Vec<String> {
    let b = s.as_bytes();
    let (mut depth, mut from, mut out) = (0i32, 0, vec![]);
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'(' => depth += 1,
            b')' => depth -= 1,
            b' ' if depth == 0 && s[i..].starts_with(" + ") => {
                out.push(s[from..i].to_string());
                from = i + 3;
                i += 2;
            }
            _ => {}
        }
        i += 1;
    }
    out.push(s[from..].to_string());
    out
}

/// Text of a term into the text of the coefficient and the blade. The second field says
/// whether the coefficient was parenthesised.
fn term(s: &str, alg: &Alg, names: &[String], alternate: bool) -> Result<(String, bool, u64), String> {
    let (coeff, label) = if s.starts_with('(') {
        let mut depth = 0;
        let end = s
            .char_indices()
            .find(|(_, c)| {
                depth += (*c == '(') as i32 - (*c == ')') as i32;
                depth == 0
            })
            .map(|(i, _)| i)
            .ok_or(format!("parentheses do not match in {s:?}"))?;
        (&s[1..end], &s[end + 1..])
    } else {
        match s.find(' ') {
            Some(i) => (&s[..i], &s[i..]),
            None => (s, ""),
        }
    };
    let mut idx = 0;
    if !label.is_empty() {
        let l = label.strip_prefix(' ').ok_or(format!("no space before the label in {s:?}"))?;
        let mut last: Option<usize> = None;
        for n in l.split('^') {
            let k = names.iter().position(|m| m == n).ok_or(format!("unknown generator {n:?} in {s:?}"))?;
            // descending, or ascending in the alternate form
            let ordered = match last {
                None => true,
                Some(p) => (k > p) == alternate && k != p,
            };
            ensure(ordered, || format!("the generators of the label are out of order in {s:?}"))?;
            last = Some(k);
            idx |= 1 << k;
        }
    }
    let _ = alg;
    Ok((coeff.to_string(), s.starts_with('('), idx))
}

trait Readable: Coef {
    fn value(c: &Coeff) -> Self;
    fn parse(s: &str) -> Option<Self>;
    /// Whether the text may stand for the value
    fn fits(got: &Self, want: &Self, c: &Shown) -> bool;
}

/// A negative zero in a complex number is printed by the complex type as "+-0".
fn parse_f64(s: &str) -> Option<f64> {
    match s.strip_prefix('+').filter(|t| t.starts_with('-')) {
        Some(t) => t.parse().ok().filter(|x| *x == 0.),
        None => s.parse().ok(),
    }
}
/// A real number within half a unit of the last requested digit
fn fits_f64(got: f64, want: f64, c: &Shown) -> bool {
    match (c.precision, c.form) {
        (None, _) => got == want,
        (Some(p), 0) => (got - want).abs() <= 0.500001 * 10f64.powi(-(p as i32)) + 1e-15 * want.abs(),
        (Some(p), _) => (got - want).abs() <= (0.500001 * 10f64.powi(-(p as i32)) + 1e-15) * want.abs(),
    }
}
fn scaled(a: i32, b: i32, e: i32) -> f64 {
    (a as f64 + b as f64 / 997.) * 10f64.powi(e)
}
impl Readable for f64 {
    fn value(c: &Coeff) -> f64 {
        match c[3] % 3 {
            0 => c[0] as f64,
            1 => scaled(c[0], c[2], c[1]),
            _ => c[0] as f64 / 8.,
        }
    }
    fn parse(s: &str) -> Option<f64> {
        parse_f64(s)
    }
    fn fits(got: &f64, want: &f64, c: &Shown) -> bool {
        fits_f64(*got, *want, c)
    }
}
impl Readable for i64 {
    fn value(c: &Coeff) -> i64 {
        match c[3] % 2 {
            0 => c[0] as i64,
            _ => c[0] as i64 * 1_000_003 + c[1] as i64,
        }
    }
    fn parse(s: &str) -> Option<i64> {
        s.parse().ok().or_else(|| {
            let x = parse_f64(s)?;
            (x.fract() == 0.).then_some(x as i64)
        })
    }
    fn fits(got: &i64, want: &i64, c: &Shown) -> bool {
        match (c.precision, c.form) {
            (None, _) | (Some(_), 0) => got == want,
            _ => fits_f64(*got as f64, *want as f64, c),
        }
    }
}
impl Readable for C64 {
    fn value(c: &Coeff) -> C64 {
        match c[3] % 3 {
            0 => C64::new(c[0] as f64, c[1] as f64),
            1 => C64::new(scaled(c[0], c[2], c[1] % 20), scaled(c[1], c[2], c[0] % 20)),
            _ => C64::new(c[0] as f64, 0.),
        }
    }
    fn parse(s: &str) -> Option<C64> {
        let t = s.strip_suffix('i')?;
        let b = t.as_bytes();
        let k = (1..b.len()).rev().find(|k| matches!(b[*k], b'+' | b'-') && !matches!(b[*k - 1], b'e' | b'E'))?;
        let k = if k > 1 && b[k - 1] == b'+' && !matches!(b[k - 2], b'e' | b'E') { k - 1 } else { k };
        Some(C64::new(parse_f64(&t[..k])?, parse_f64(&t[k..])?))
    }
    fn fits(got: &C64, want: &C64, c: &Shown) -> bool {
        fits_f64(got.re, want.re, c) && fits_f64(got.im, want.im, c)
    }
}
impl Readable for Fp {
    fn value(c: &Coeff) -> Fp {
        Fp::new(c[0] as i64)
    }
    fn parse(s: &str) -> Option<Fp> {
        s.parse().ok().map(Fp)
    }
    fn fits(got: &Fp, want: &Fp, _: &Shown) -> bool {
        got == want
    }
}

fn read_back<T: Readable>(c: &Shown, text: &str, want: &Mv<T>) -> Outcome {
    let alg = Alg::parse(&c.sig);
    let names = names(&c.sig);
    let fail = |m: String| Err(format!("{m} (text {text:?})"));
    if want.is_zero() {
        let t = text.trim_start_matches('(').trim_end_matches(')');
        return match T::parse(t) {
            Some(x) if x == T::zero() => Ok(()),
            _ => fail("the zero multivector does not print as zero".into()),
        };
    }
    let mut seen = std::collections::BTreeSet::new();
    for s in split(text) {
        let (coeff, parens, idx) = match term(&s, &alg, &names, c.alternate) {
            Ok(x) => x,
            Err(e) => return fail(e),
        };
        if !seen.insert(idx) {
            return fail(format!("blade {idx:#b} is listed twice"));
        }
        if coeff.contains(['+', '-']) && !parens {
            return fail(format!("the coefficient {coeff:?} has a sign and no parentheses"));
        }
        let Some(mut x) = T::parse(&coeff) else {
            return fail(format!("the coefficient {coeff:?} cannot be read"));
        };
        if c.plus && coeff.starts_with(|c: char| c.is_ascii_digit()) && T::NAME != "fp" {
            return fail(format!("the sign was requested, but {coeff:?} has none"));
        }
        if (c.form == 1 && !coeff.contains('e') || c.form == 2 && !coeff.contains('E')) && T::NAME != "fp" {
            return fail(format!("the exponent was requested, but {coeff:?} has none"));
        }
        if c.alternate && idx.count_ones() / 2 % 2 == 1 {
            // the label is reversed, and the sign with it
            x = -x;
        }
        let w = want.get(idx);
        if w == T::zero() || !T::fits(&x, &w, c) {
            return fail(format!("blade {idx:#b} reads as {x:?}, expected {w:?}"));
        }
    }
    if seen.len() != want.len() {
        return fail(format!("{} terms are listed instead of {}", seen.len(), want.len()));
    }
    Ok(())
}

fn values<T: Readable>(c: &Shown) -> (Vec<(usize, T)>, Mv<T>) {
    let t: Vec<(usize, T)> = c.a.iter().map(|(i, x)| (*i as usize, T::value(x))).collect();
    let m = Mv::from_terms(t.iter().map(|(i, x)| (*i as u64, x.clone())));
    (m.c.iter().map(|(i, x)| (*i as usize, x.clone())).collect(), m)
}

fn text<T: Readable + Display + LowerExp + UpperExp, A: ClAlgebra>(c: &Shown) -> Outcome {
    let (t, m) = values::<T>(c);
    let s = SparseMultivector::<T, A>::from_indexed_iter(t.iter().cloned()).unwrap();
    let f = |d: String, e: String, u: String| match c.form % 3 {
        0 => d,
        1 => e,
        _ => u,
    };
    read_back(c, &f(display(&s, c), lower(&s, c), upper(&s, c)), &m)?;
    if A::dim() <= 8 {
        let d = Multivector::<T, A>::from_indexed_iter(t.into_iter()).unwrap();
        read_back(c, &f(display(&d, c), lower(&d, c), upper(&d, c)), &m)?;
    }
    Ok(())
}
/// Types that only have the plain form.
fn plain<A: ClAlgebra>(c: &Shown) -> Outcome {
    let (t, m) = values::<Fp>(c);
    let s = SparseMultivector::<Fp, A>::from_indexed_iter(t.iter().cloned()).unwrap();
    read_back(c, &display(&s, c), &m)?;
    let d = Multivector::<Fp, A>::from_indexed_iter(t.into_iter()).unwrap();
    read_back(c, &display(&d, c), &m)
}
fn floats<A: ClAlgebra>(c: &Shown) -> Outcome {
    text::<f64, A>(c)
}
fn integers<A: ClAlgebra>(c: &Shown) -> Outcome {
    text::<i64, A>(c)
}
fn complex<A: ClAlgebra>(c: &Shown) -> Outcome {
    text::<C64, A>(c)
}

/// Signatures whose generator names differ from those of the coefficients
const OUTER: [&str; 5] = ["0", "--", "++-", "+-+-", "+++0"];

/// Reads the text of a coefficient that is a multivector with two generators.
fn read_inner(text: &str, alternate: bool) -> Result<[i64; 4], String> {
    let (alg, names) = (Alg::parse("+-"), names("+-"));
    let mut got = [0i64; 4];
    for t in split(text) {
        let (k, _, j) = term(&t, &alg, &names, alternate)?;
        let v = k.parse::<i64>().map_err(|_| format!("{k:?} is not a number"))?;
        got[j as usize] += if alternate && j == 3 { -v } else { v };
    }
    Ok(got)
}

/// The coefficients are multivectors themselves, with other generators.
fn nested<A: ClAlgebra>(c: &Shown) -> Outcome {
    type In = Multivector<i64, Apm>;
    let (alg, outer) = (Alg::parse(&c.sig), names(&c.sig));
    let mut want: std::collections::BTreeMap<u64, [i64; 4]> =
        c.a.iter().map(|(i, x)| (*i, [x[0] as i64, x[1] as i64, x[2] as i64, x[3] as i64])).collect();
    want.retain(|_, x| *x != [0; 4]);
    let inner = |x: &[i64; 4]| In::from_indexed_iter(x.iter().enumerate().map(|(i, v)| (i, *v))).unwrap();
    let terms: Vec<(usize, In)> = want.iter().map(|(i, x)| (*i as usize, inner(x))).collect();
    let d = Multivector::<In, A>::from_indexed_iter(terms.iter().cloned()).unwrap();
    let s = SparseMultivector::<In, A>::from_indexed_iter(terms.iter().cloned()).unwrap();
    for text in [display(&d, c), display(&s, c)] {
        let fail = |m: String| format!("{m} (text {text:?})");
        if want.is_empty() {
            same("zero", &text.trim_matches(['(', ')', '+']), &"0")?;
            continue;
        }
        let mut got = std::collections::BTreeMap::new();
        for s in split(&text) {
            let (coeff, idx) = if s.starts_with('(') && term(&s, &alg, &outer, c.alternate).is_ok() {
                let (coeff, _, idx) = term(&s, &alg, &outer, c.alternate).map_err(fail)?;
                (coeff, idx)
            } else {
                // one inner term: number, perhaps inner label, perhaps outer label
                let (head, last) = s.rsplit_once(' ').unwrap_or((&s, ""));
                let own = last.split('^').next().is_some_and(|n| outer.iter().any(|m| m == n));
                if own {
                    let (_, _, idx) = term(&format!("1 {last}"), &alg, &outer, c.alternate).map_err(fail)?;
                    (head.to_string(), idx)
                } else {
                    (s.clone(), 0)
                }
            };
            let sign = if c.alternate && idx.count_ones() / 2 % 2 == 1 { -1 } else { 1 };
            let v = read_inner(&coeff, c.alternate).map_err(fail)?.map(|v| v * sign);
            ensure(got.insert(idx, v).is_none(), || fail(format!("blade {idx:#b} is listed twice")))?;
        }
        same(&format!("coefficients read from {text:?}"), &got, &want)?;
    }
    Ok(())
}

fn shown(sigs: Vec<&'static str>, cap: usize) -> BoxedStrategy<Shown> {
    pick(sigs)
        .prop_flat_map(move |s| {
            let d = s.len();
            (
                Just(s),
                prop_oneof![8 => gens::terms(d, cap), 1 => Just(vec![])],
                0u8..3,
                any::<bool>(),
                any::<bool>(),
                prop_oneof![2 => Just(None), 1 => (0u8..=9).prop_map(Some)],
            )
        })
        .prop_map(|(sig, a, form, plus, alternate, precision)| Shown { sig, a, form, plus, alternate, precision })
        .boxed()
}
fn valid(c: &Shown) -> bool {
    c.form < 3 && c.precision.is_none_or(|p| p <= 12) && c.a.iter().all(|(i, x)| i & !gens::mask(c.sig.len()) == 0 && x.iter().all(|v| v.abs() <= 300))
}
fn class_shown(c: &Shown) -> Class {
    let f = ["plain", "lower", "upper"][c.form as usize % 3];
    class(
        format!(
            "{f}{}{}{}, terms {}",
            if c.plus { " sign" } else { "" },
            if c.alternate { " alternate" } else { "" },
            if c.precision.is_some() { " precision" } else { "" },
            size_label(gens::support(&c.a))
        ),
        gens::support(&c.a) > 1,
    )
}

fn main() {
    Check::new("C21")
        .assume("numbers are displayed by their own types; the order of terms is not claimed")
        .assume("generator names do not contain spaces, carets or parentheses")
        .law_on(
            "floats",
            "random f64 multivectors of all signatures, dense and sparse, in all 12 forms and with any precision up to 9; non-trivial with two terms",
            (16_000, 300_000),
            || shown(sigs_all(), 24),
            class_shown,
            valid,
            |c| dispatch_all!(c.sig.as_str(), floats[](c)),
        )
        .law_on(
            "many-generators",
            "the same with 12 to 48 generators",
            (3_000, 60_000),
            || shown(sigs_big(), 8),
            class_shown,
            valid,
            |c| dispatch_big!(c.sig.as_str(), floats[](c)),
        )
        .law_on(
            "integers",
            "the same for i64",
            (10_000, 200_000),
            || shown(sigs_few(), 24),
            class_shown,
            valid,
            |c| dispatch_few!(c.sig.as_str(), integers[](c)),
        )
        .law_on(
            "complex",
            "the same for complex numbers, whose text has inner signs",
            (10_000, 200_000),
            || shown(sigs_few(), 24),
            class_shown,
            valid,
            |c| dispatch_few!(c.sig.as_str(), complex[](c)),
        )
        .law_on(
            "prime-field",
            "the same for a type that never prints a sign",
            (4_000, 60_000),
            || shown(sigs_few(), 24).prop_map(|mut c| {
                c.form = 0;
                c
            }).boxed(),
            class_shown,
            valid,
            |c| dispatch_few!(c.sig.as_str(), plain[](c)),
        )
        .law_on(
            "nested",
            "multivectors of multivectors in plain and alternate form",
            (6_000, 100_000),
            || shown(OUTER.to_vec(), 12).prop_map(|mut c| {
                c.form = 0;
                c.plus = false;
                c
            }).boxed(),
            class_shown,
            |c| valid(c) && !c.plus && OUTER.contains(&c.sig.as_str()),
            |c| dispatch_few!(c.sig.as_str(), nested[](c)),
        )
        .main()
}
