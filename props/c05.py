"""C05: a lone float placeholder accepts exactly what the standard library parses, with that value."""
from fractions import Fraction

from lib.core import rs
from lib.gen import Sites, call

ANY = {"r": [{"n": []}, 0, None, True]}


def halfway(w, thorough):
    """Texts exactly at, just below and just above the middle of neighbouring floats (any double rounding shows)."""
    mant, emax, bias = (23, 254, 150) if w == 32 else (52, 2046, 1075)
    step = (1 if thorough else 5) if w == 32 else (16 if thorough else 61)
    out = []
    for e in sorted(set(list(range(0, emax, step)) + [0, 1, emax - 1, bias - mant, bias])):
        for f in (0, 1, (1 << mant) // 3, (1 << mant) - 2, (1 << mant) - 1):
            m = Fraction(2 * (f + ((1 << mant) if e else 0)) + 1, 2) * Fraction(2) ** (max(e, 1) - bias)
            k = m.denominator.bit_length() - 1
            n = m.numerator * 10 ** k // m.denominator
            out += [f"{n}e-{k}", f"{n}1e-{k + 1}", f"-{n - 1}9e-{k + 1}"]
            if k == 0:
                out += [f"{n}.0", f"{n}.{'0' * 20}1"]
    return out


def main(ck):
    S = Sites()
    toks = ["0", "1", "9", ".", "e", "E", "+", "-", "inf", "INF", "iNf", "infinity", "Infinity", "INFINITY", "nan", "NaN", "NAN", "_", " ", "f", "0x"]
    main_space = [
        {"tokens": toks, "max": 5 if ck.thorough else 4},
        {"alpha": "05.e-+E", "max": 7 if ck.thorough else 6},
        {"alpha": "infatyINFATY", "max": 4},
        {"product": [["", "+", "-"], ["inf", "INF", "infinity", "INFINITY", "nan", "NAN", "infinite", "infini"]], "edits": "infatyINFATY0.e+- "},
        {"product": [["", "+", "-", "++", "+-"], ["", "0", "1", "007", "12345678901234567890"], ["", "."], ["", "0", "5", "000"], ["", "e", "E"], ["", "+", "-"], ["", "0", "5", "308", "400", "99999999999"]]},
        {"list": ["1" * k for k in range(1, 400, 7)] + ["0." + "0" * k + "1" for k in range(0, 400, 7)] + ["1e%d" % e for e in range(-400, 400, 3)]
            + ["16777217", "9007199254740993", "3.4028236e38", "3.4028235e38", "1.7976931348623159e308", "2.2250738585072011e-308", "1e-45", "7e-46", "5e-324", "2e-324"]},
    ]
    cheap = main_space[3:] + [{"tokens": toks, "max": 3}, {"alpha": "05.e-+E", "max": 5}]
    for w in (32, 64):
        t = f"f{w}"
        shown = {"floats": w}
        mid = {"list": halfway(w, ck.thorough)}
        full = f"FullF{w}"
        # acceptance and value against the standard library's own parser
        S.add(call(f'"{{{t}}}"', ret=t), [{"ph": {"re": ANY, "conv": t}}], main_space + [shown, mid], coarse=True)
        S.add(call('"{}"', [t], ret=t), [{"ph": {"re": ANY, "conv": t}}], cheap + [shown, mid], coarse=True)
        S.add(f"res(<{t} as sscanf::FromScanf>::from_str(i))", [{"ph": {"re": ANY, "conv": t}}], cheap + [shown, mid], coarse=True)
        S.add(call(f'"{{sscanf::{full}}}"', ret=f"sscanf::{full}"), [{"ph": {"re": ANY, "conv": full}}], cheap + [shown, mid], coarse=True)
        S.add(call('"{}"', [f"sscanf::{full}"], ret=f"sscanf::{full}"), [{"ph": {"re": ANY, "conv": full}}], cheap, coarse=True)
        S.add(call(f'"<{{{t}}}>"', ret=t), ["<", {"ph": {"re": ANY, "conv": t}}, ">"],
              [{"product": [["<"], ["", "+", "-"], ["", "0", "12"], ["", "."], ["", "0", "5"], ["", "e", "E"], ["", "+", "-"], ["", "0", "5"], [">"]]},
               {"alpha": "05.e-+E", "max": 5, "pre": "<", "post": ">"}], coarse=True)
        node = {"items": ["<", {"ph": {"re": ANY, "conv": t}}, ">"], "name": "S", "kind": "tuple", "fields": [{"src": 0}]}
        S.add(call('"{S}"', ret="S"), [{"ph": node}],
              [{"product": [["<"], ["", "+", "-"], ["", "0", "12", "inf", "nan"], ["", "."], ["", "0", "5"], ["", "e", "E"], ["", "+", "-"], ["", "0", "5"], [">"]]}], coarse=True,
              decl=f"#[derive(Debug, sscanf::FromScanf)] #[sscanf(format = \"<{{}}>\")] struct S({t});")
        # between separators: the documented pattern, and each piece's own value
        S.add(call(f'"{{{t}}} {{{t}}}"', ret=f"({t}, {t})"), [{"ph": t}, " ", {"ph": t}],
              [{"product": [["1", "-1.5", "1e5", "inf", "nan", ".5", "5.", "+infinity"], [" "], ["2", "-2.25e-3", "INF", "NaN", "0.", "e"]], "edits": " .e-1"}])
    ck.assumptions.append("the standard library's f32/f64 parser defines the grammar and the values (property statement)")
    ck.run_sites(S.sites, S.inputs)
    return ck.finish(
        "f32, f64, FullF32, FullF64, alone, between literals, by from_str and as a derived field: every sequence of up to 4 (5) of 21 grammar "
        "tokens, every string up to length 6 (7) over digits, dot, exponent and signs, near-misses of inf/infinity/nan, and for every "
        "binary exponent several values of each sign in five printed forms; texts at, just below and just above the middle of neighbouring "
        "floats over the whole exponent range.")
