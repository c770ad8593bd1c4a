#!/usr/bin/env python3
"""Writes harness/checks/src/algs.rs: the declared algebras and the dispatch macros."""
import itertools, os

def sigs(dim):
    """All declarable signatures: null generators come last."""
    out = []
    for nulls in range(dim + 1):
        for s in itertools.product("+-", repeat=dim - nulls):
            out.append("".join(s) + "0" * nulls)
    return out

quick = []
for d in range(1, 5):
    quick += sigs(d)
quick += ["+++++", "-----", "00000", "+-+-+", "-+-+-", "++--+", "+++--", "-+++0", "++++0", "----0",
          "+--00", "-++00", "+-000", "--000", "+0000", "-0000"]
quick += ["++++-", "-++++", "+----", "--+-0", "+-+-0", "---00", "+++00", "++000"]
quick += ["++++++", "------", "000000", "+-+-+-", "-+-+-+", "+++---", "--+-++", "+++++0", "-++-+0", "-----0",
          "++++00", "+-+-00", "--++00", "-+-000", "+++000", "+-0000", "--0000", "-00000"]
quick += ["+++++-", "-+++++", "+-----", "++++--", "-+--+-", "--++-0", "+-+++0", "--+--0", "+---00", "++-+00", "----00",
          "+-+000", "---000", "++0000", "+00000"]
quick += ["+++++++", "-------", "0000000", "+-+-+-+", "-++-+-0", "++++++0", "+-+-000", "-+-0000", "--+++00"]
quick += ["++++++++", "--------", "+-+-+-+-", "-+-+++--", "+++++++0", "++--+-00", "+-+-0000", "00000000", "-++-+000"]
quick += ["++++++-", "+------", "--+--+0", "+++0000", "+++++++-", "-+++++++", "++-----0", "----0000"]
quick += ["+-+-+-+-+", "-++--+000", "----++++0"]
quick += ["+-+-+-+-+-", "-+++--+-00", "++++++++++"]
quick += ["+-000000", "-0000000", "+-+-+-+-+-+", "++--+++-000", "-+-+-+-+-+-+", "++++----0000", "--+-+-++-+-0"]
wide = []
for d in (5, 6):
    wide += [s for s in sigs(d) if s not in quick]
allq7 = sigs(7)
wide += [s for s in allq7[::9] if s not in quick]
wide += [s for s in sigs(8)[::29] if s not in quick]
wide += ["-++-+-+-+--", "-+-+-+--0000", "++++----++00"]

big = ["+" * 12, "-+" * 6 + "0", "+-" * 8, "++-" * 6 + "00", "+-+-" * 5, "-" * 31, "+" * 32, "+-" * 16 + "0",
       "-++" * 15 + "000"]
# Declaring these takes seconds, so only the checks that need them include them
vast = ["+-+-+-+-+-+-+", "+-+++-+--0000", "-++-+-+--++-00", "--+-++--+++-+-+", "--+++-+++-++-000"]
huge = ["-+" * 28 + "0" * 7, "+" * 20 + "-" * 20 + "+-" * 4 + "0" * 16]

names = {
    "+++0": ["x", "y", "z", "e"],
    "-+++": ["t", "x", "y", "z"],
    "++": ["alpha", "b_2"],
    "++-": ["a", "b", "n"],
    "+-+-": ["p1", "m1", "p2", "m2"],
    "--": ["I", "J"],
    "+++++0": ["u0", "u1", "u2", "u3", "u4", "inf"],
    "0": ["eps"],
}

def ident(s):
    if len(s) > 20:
        return "B%d_%d" % (len(s), (big + huge).index(s))
    return "A" + s.replace("+", "p").replace("-", "m").replace("0", "n")

def is_pga(s):
    return len(s) >= 2 and s[-1] == "0" and set(s[:-1]) == {"+"}
def is_split(s):
    return len(s) % 2 == 0 and all(s[i] == "+-"[i % 2] for i in range(len(s)))

out = ["// Generated by tools/gen_algs.py", "#![allow(clippy::all)]", "use tclifford::declare_algebra;", ""]
W = '#[cfg(feature = "wide")] '
for s in quick + wide + big + vast:
    pre = W if s in wide else ""
    ns = names.get(s, [])
    out.append('%sdeclare_algebra!(pub %s, [%s], [%s]);' % (pre, ident(s), ",".join(s), ",".join('"%s"' % n for n in ns)))
out.append("")
out.append("/// Names of the generators as they were declared.")
out.append("pub fn names(sig: &str) -> Vec<String> {")
out.append("    let l: &[&str] = match sig {")
for s, ns in names.items():
    out.append('        "%s" => &[%s],' % (s, ", ".join('"%s"' % n for n in ns)))
out.append("        _ => return (0..sig.len()).map(|i| format!(\"e{i}\")).collect(),")
out.append("    };")
out.append("    l.iter().map(|s| s.to_string()).collect()")
out.append("}")

def lst(name, l, doc, base="$crate::algs", out=out):
    out.append("")
    out.append("/// " + doc)
    out.append("pub fn sigs_%s() -> Vec<&'static str> {" % name)
    out.append("    vec![")
    for s in l:
        out.append('        %s"%s",' % (W if s in wide else "", s))
    out.append("    ]")
    out.append("}")
    for suffix, extra in (("", ""), ("_dim", ", %d"), ("_spc", ", %d")):
        if suffix == "_spc" and name != "pga":
            continue
        out.append("#[macro_export]")
        out.append("macro_rules! dispatch_%s%s {" % (name, suffix))
        out.append("    ($sig:expr, $f:ident [$($g:ty),*] ($($arg:expr),*)) => {")
        out.append("        match $sig {")
        for s in l:
            e = ""
            if suffix == "_dim": e = ", %d" % len(s)
            if suffix == "_spc": e = ", %d" % (len(s) - 1)
            out.append('            %s"%s" => $f::<%s::%s $(, $g)*%s>($($arg),*),' % (W if s in wide else "", s, base, ident(s), e))
        out.append('            other => panic!("no such algebra: {}", other),')
        out.append("        }")
        out.append("    };")
        out.append("}")

dense = quick + wide
few = ["+", "-", "0", "--", "+-", "+0", "+++", "-++0", "++-", "+-+-", "--00", "+++0", "+--00", "-+++0", "+-+-+", "++--0-"[:5],
       "+-+-+-", "-++-+0", "+-+-00", "+-+-+-+", "-+-0000"]
few = [s for s in few if s in dense]
lst("all", dense, "Signatures of dense and sparse multivectors")
lst("few", few, "A small selection for laws that are instantiated over many coefficient types")
lst("big", big, "Signatures with many generators (sparse multivectors only)")
lst("vast", vast, "Signatures with 13 to 16 generators for dense multivectors")
lst("nondeg", [s for s in dense if "0" not in s], "Signatures without null generators")
lst("split", [s for s in dense if is_split(s)], "Signatures [+,-,+,-,...]")
lst("pga", [s for s in dense if is_pga(s)], "Projective signatures [+,...,+,0]")
lst("div", ["-", "--"], "Complex and quaternionic signatures")

p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/checks/src/algs.rs")
open(p, "w").write("\n".join(out) + "\n")
print(len(quick), "quick,", len(wide), "wide,", len(big), "big", len(few), "few")

out2 = ["// Generated by tools/gen_algs.py; used as `mod huge` of a check", "use tclifford::declare_algebra;", ""]
for s in huge:
    out2.append('declare_algebra!(pub %s, [%s], []);' % (ident(s), ",".join(s)))
lst("huge", huge, "Signatures with 63 and 64 generators (sparse multivectors only)", "crate::huge", out2)
open(os.path.join(os.path.dirname(p), "huge.rs"), "w").write("\n".join(out2).replace("#[macro_export]\n", "") + "\n")
