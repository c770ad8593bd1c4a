//! C23: the compiler rejects what makes no sense in a signature, and accepts the rest.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::gens::mix;
use vcore::runner::{class, Check, Class, Outcome};
use vcore::rustcx::compiles;

/// A program about one signature (and another one for the kinds that mix algebras).
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Program {
    kind: String,
    sig: String,
    other: String,
    /// Number of names
    names: usize,
    /// Which operation
    op: usize,
    /// Dense or sparse
    sparse: bool,
    /// Visibility and operand form
    form: usize,
}

fn declare(name: &str, sig: &str, names: usize, form: usize) -> String {
    let s = sig.chars().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
    let n = (0..names).map(|i| format!("\"n{i}\"")).collect::<Vec<_>>().join(", ");
    match form % 4 {
        0 => format!("declare_algebra!(pub {name}, [{s}], [{n}]);"),
        1 => format!("declare_algebra!(pub(crate) {name}, [{s}], [{n}]);"),
        2 => format!("declare_algebra!({name}, [{s}], [{n}]);"),
        _ if names == 0 => format!("declare_algebra!({name}, [{s}]);"),
        _ => format!("declare_algebra!({name}, [{s}], [{n}]);"),
    }
}

const HEAD: &str = "use tclifford::{declare_algebra, ClAlgebra, FFTRepr, Multivector, SparseMultivector, types::WedgeProduct, pga::PGAMV};\nfn main() {}\n";

const MIX_MV: [&str; 15] = [
    "let _ = a + b;",
    "let _ = a - b;",
    "let _ = a * b;",
    "let _ = a.wedge(b);",
    "let _ = a.meet(b);",
    "let _ = a.vdot(b);",
    "let _ = a.vsdot(b);",
    "let _ = *a == *b;",
    "let _ = a.approx_eq(b, 1e-9);",
    "let _ = a.naive_mul_impl(b);",
    "let _ = a.naive_wedge_impl(b);",
    "let _ = a.naive_meet_impl(b);",
    "let mut v = vec![a.rev()]; v.push(b.rev());",
    "let v = [a.dual(), b.undual()];",
    "let f = [a.exp(), b.flip()];",
];
const MIX_REPR: [&str; 7] = [
    "let _ = a + b;",
    "let _ = a - b;",
    "let _ = a * b;",
    "let _ = *a == *b;",
    "let _ = a.approx_eq(b, 1e-9);",
    "let v = [a.ifft::<f64>(), b.ifft::<f64>()];",
    "let v = [a.rev(), b.exp()];",
];
const MIX_BOTH: [&str; 2] = ["let v = [a.fft(), r.rev()];", "let v = [a.rev(), r.ifft::<f64>()];"];

/// The program, and the same program in the nearest signature that allows it.
fn text(c: &Program) -> Option<(String, String)> {
    let d = c.sig.len();
    if d == 0 || c.sig.chars().any(|x| !"+-0".contains(x)) || c.other.is_empty() || c.other.chars().any(|x| !"+-0".contains(x)) {
        return None;
    }
    let names = if c.names == 1 { d } else { 0 };
    let mv = if c.sparse { "SparseMultivector" } else { "Multivector" };
    let owned = c.form % 3 == 0;
    let amp = if owned { "" } else { "&" };
    let with = |sig: &str, body: &str| {
        format!("{HEAD}{}\n{body}\n", declare("X", sig, if names == 0 { 0 } else { sig.len() }, c.form))
    };
    Some(match c.kind.as_str() {
        "mixed multivectors" | "mixed representations" | "mixed forms" => {
            let (ta, tb, body) = match c.kind.as_str() {
                "mixed multivectors" => {
                    let op = MIX_MV[c.op % MIX_MV.len()];
                    (format!("{mv}<f64, X>"), format!("{mv}<f64, Y>"), op.to_string())
                }
                "mixed representations" => ("FFTRepr<X>".into(), "FFTRepr<Y>".into(), MIX_REPR[c.op % MIX_REPR.len()].to_string()),
                _ => ("Multivector<f64, X>".into(), "FFTRepr<Y>".into(), MIX_BOTH[c.op % 2].replace("r.", "b.")),
            };
            let arithmetic = body.contains("a + b") || body.contains("a - b") || body.contains("a * b");
            let f = if arithmetic && owned {
                format!("fn f(a: {ta}, b: {tb}) {{ {body} }}")
            } else {
                format!("fn f(a: &{ta}, b: &{tb}) {{ {body} }}")
            };
            let y = declare("Y", &c.other, 0, c.form);
            (with(&c.sig, &format!("{y}\n{f}")), with(&c.sig, &format!("type Y = X;\n{f}")))
        }
        "null order" => {
            let mut s: Vec<char> = c.sig.chars().collect();
            s.sort_by_key(|x| *x == '0');
            (with(&c.sig, ""), with(&s.into_iter().collect::<String>(), ""))
        }
        "names" => (
            format!("{HEAD}{}\n", declare("X", &c.sig, c.names, c.form % 3)),
            format!("{HEAD}{}\n", declare("X", &c.sig, d, c.form % 3)),
        ),
        "inverse" | "half-spin" => {
            let f = if c.kind == "inverse" { "a.inv()" } else { "a.into_half_spin_repr()" };
            let body = format!("fn f(a: FFTRepr<X>) {{ let _ = {f}; }}");
            (with(&c.sig, &body), with(&c.sig.replace('0', "+"), &body))
        }
        "division" => {
            let body = format!("fn f(a: {amp}{mv}<f64, X>, b: {amp}{mv}<f64, X>) {{ let _ = a / b; }}");
            (with(&c.sig, &body), with(if c.op % 2 == 0 { "-" } else { "--" }, &body))
        }
        "projective" => {
            let call = [
                format!("fn f(p: Vec<f64>) {{ let _ = {mv}::<f64, X>::pga_point(p); }}"),
                format!("fn f(p: Vec<f64>) {{ let _ = {mv}::<f64, X>::pga_hyperplane(p); }}"),
                format!("fn f(p: Vec<f64>) {{ let _ = {mv}::<f64, X>::pga_translation(p); }}"),
                format!("fn f(p: {mv}<f64, X>) {{ let _ = p.pga_extract_point(); }}"),
                format!("fn f(p: {mv}<f64, X>) -> [f64; N] {{ p.pga_extract_point() }}"),
            ];
            let body = |sig: &str| call[c.op % call.len()].replace("N]", &format!("{}]", sig.len() - 1));
            let good = if d == 1 { "+0".to_string() } else { "+".repeat(d - 1) + "0" };
            (with(&c.sig, &body(&c.sig)), with(&good, &body(&good)))
        }
        // the counterpart of division that every signature allows
        "scalar division" => {
            let body = format!("fn f(a: {amp}{mv}<f64, X>, b: {amp}f64) {{ let _ = a / b; }}");
            (with(&c.sig, &body), with(&c.sig, &body))
        }
        _ => return None,
    })
}

/// What the signature allows; None where nothing is claimed.
fn allowed(c: &Program) -> Option<bool> {
    let s = c.sig.as_str();
    let ordered = !s.trim_end_matches('0').contains('0');
    if !ordered && c.kind != "null order" {
        return None;
    }
    if c.other.trim_end_matches('0').contains('0') {
        return None;
    }
    Some(match c.kind.as_str() {
        "mixed multivectors" | "mixed representations" | "mixed forms" => false,
        "null order" => ordered,
        "names" => c.names == s.len() || c.names == 0,
        "inverse" | "half-spin" => !s.contains('0'),
        "division" => s == "-" || s == "--",
        "projective" => {
            if s == "0" {
                return None;
            }
            s.ends_with('0') && s[..s.len() - 1].chars().all(|x| x == '+')
        }
        "scalar division" => true,
        _ => return None,
    })
}

fn test(c: &Program) -> Outcome {
    let (Some((program, twin)), Some(allowed)) = (text(c), allowed(c)) else {
        return Ok(());
    };
    let verdict = |t: &str| compiles(env!("CARGO_MANIFEST_DIR"), t);
    let r = verdict(&program);
    match (&r, allowed) {
        (Ok(()), false) => return Err(format!("the program compiles, but it must not:\n{program}")),
        (Err(e), true) => return Err(format!("the program does not compile ({}), but it must:\n{program}", e[0])),
        _ => {}
    }
    if !allowed {
        // it is rejected for its reason only: the same program in a right signature compiles
        if let Err(e) = verdict(&twin) {
            return Err(format!("the program does not compile ({}), but it must:\n{twin}", e[0]));
        }
    }
    Ok(())
}

fn signature(max: usize) -> BoxedStrategy<String> {
    prop_oneof![
        6 => ("[+-]{0,6}", "0{0,3}").prop_map(|(a, b)| a + &b),
        2 => "[+]{1,6}0",
        1 => "[+]{0,4}[+-]0",
        1 => "[+]{1,4}00",
        2 => "-{1,4}",
        1 => "[+-]{1,3}",
    ]
    .prop_map(move |s: String| {
        let s: String = s.chars().rev().take(max).collect::<Vec<_>>().into_iter().rev().collect();
        if s.is_empty() {
            "+".to_string()
        } else {
            s
        }
    })
    .boxed()
}

fn programs(kinds: &'static [&'static str]) -> BoxedStrategy<Program> {
    (proptest::sample::select(kinds), signature(9), signature(4), any::<u64>(), any::<bool>(), 0usize..12)
        .prop_map(|(kind, sig, other, r, sparse, form)| {
            let mut sig = sig;
            let mut other = other;
            let op = (mix(r) % 64) as usize;
            let mut names = (r % 2) as usize;
            match kind {
                "null order" => {
                    // rotate, so that the null generators can come anywhere
                    let k = op % sig.len();
                    sig = sig[k..].to_string() + &sig[..k];
                }
                "names" => {
                    let d = sig.len() as i64;
                    names = match r % 6 {
                        0 => d as usize,
                        1 => (d - 1) as usize,
                        2 => 2 * d as usize,
                        3 => 1,
                        4 => (op % 12) as usize,
                        _ => d as usize + 1,
                    };
                }
                k if k.starts_with("mixed") => {
                    // also different algebras of one signature
                    if r % 3 == 0 {
                        other = sig.clone();
                    }
                }
                _ => {}
            }
            Program { kind: kind.to_string(), sig, other, names, op, sparse, form }
        })
        .boxed()
}

fn class_program(c: &Program) -> Class {
    match allowed(c) {
        Some(a) => class(format!("{}, {}", c.kind, if a { "to accept" } else { "to reject" }), true),
        None => class("outside", false),
    }
}

/// Sizes around the number of bits of an index.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Size {
    pattern: String,
    n: usize,
}
fn size(c: &Size) -> Outcome {
    let sig: String = c.pattern.chars().cycle().take(c.n.saturating_sub(1)).collect::<String>() + "0";
    let r = compiles(env!("CARGO_MANIFEST_DIR"), &format!("{HEAD}{}\n", declare("X", &sig, 0, 0)));
    match (r, c.n <= 64) {
        (Ok(()), false) => Err(format!("an algebra of {} generators is accepted", c.n)),
        (Err(e), true) => Err(format!("an algebra of {} generators is rejected: {}", c.n, e[0])),
        _ => Ok(()),
    }
}

fn main() {
    Check::new("C23")
        .assume("a program is judged by the type checker of the installed compiler")
        .assume("a rejected program has a twin in a right signature that is accepted")
        .law(
            "mixing",
            "programs that mix two algebras (of one or different signatures) in every binary operation of multivectors and representations",
            320,
            6_000,
            || programs(&["mixed multivectors", "mixed multivectors", "mixed representations", "mixed forms"]),
            class_program,
            test,
        )
        .budget(120)
        .law(
            "declarations",
            "declarations with null generators anywhere and any number of names",
            320,
            6_000,
            || programs(&["null order", "names"]),
            class_program,
            test,
        )
        .budget(120)
        .law(
            "operations",
            "operations that only some signatures allow",
            480,
            9_000,
            || programs(&["inverse", "half-spin", "division", "projective", "projective", "scalar division"]),
            class_program,
            test,
        )
        .budget(120)
        .each(
            "sizes",
            "algebras with 60 to 70 generators",
            |t| {
                let mut v = vec![];
                for (k, n) in [(0, 64), (1, 65), (0, 66), (1, 63), (0, 70), (1, 80), (0, 65), (1, 64)].into_iter().take(if t { 8 } else { 4 }) {
                    v.push(Size { pattern: ["+", "+-"][k].to_string(), n });
                }
                v
            },
            |c| class(if c.n <= 64 { "to accept" } else { "to reject" }, true),
            size,
        )
        .budget(10)
        .main()
}
