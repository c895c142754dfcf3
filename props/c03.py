"""C03: decimal integers: the exact number or an error."""
from lib.core import rs
from lib.gen import Sites, call

PRIM = [s + b for s in "iu" for b in ("8", "16", "32", "64", "128", "size")]
ANY = {"re": {"r": [{"n": []}, 0, None, True]}}


def bits(t):
    b = t.lower().replace("nonzero", "")[1:]
    return 64 if b == "size" else int(b)


def texts(t):
    """numbers at and around every limit of the type"""
    n = bits(t)
    signed = t.lower().replace("nonzero", "")[0] == "i"
    lim = set()
    for w in {n, n - 1, 8, 16, 32, 64, 128, 7, 15, 31, 63, 127}:
        for d in range(-3, 4):
            lim.add(2 ** w + d)
            lim.add(-(2 ** w) + d)
    for e in range(0, 42):
        for d in (-1, 0, 1):
            lim.add(10 ** e + d)
            lim.add(-(10 ** e) + d)
            lim.add(5 * 10 ** e + d)
    out = []
    for v in sorted(lim):
        out.append(str(v))
        if v >= 0:
            out.append("+" + str(v))
    for k in range(1, 46):
        for d in "1290":
            out.append(d * k)
            out.append("-" + d * k)
        out.append("0" * k + "1")
        out.append("0" * k + str(2 ** (n - signed) - 1))
    return out


def main(ck):
    S = Sites()
    names = [(t, t) for t in PRIM] + [("NonZero" + t.capitalize(), "std::num::NonZero" + t.capitalize()) for t in PRIM]
    for t, path in names:
        n = bits(t)
        short = {"alpha": "019+-2", "max": 7 if ck.thorough else 5}
        foreign = {"alpha": "01+- .a_x\n", "max": 4}
        uni = {"tokens": ["1", "٣", "９", "𝟗", "+", "-", "−", "²"], "max": 3}
        allv = {"range": "-70000..70000"} if n <= 16 else {"range": "-1300..1300"}
        lim = {"list": texts(t)}
        lim_edit = {"product": [[str(v) for v in (2 ** n - 1, 2 ** (n - 1) - 1, -(2 ** (n - 1)), 2 ** (n - 1), -(2 ** (n - 1)) - 1, 2 ** n)]],
                    "edits": "0123456789+-_. "}
        lone = [short, foreign, uni, allv, lim, lim_edit]
        S.add(call(rs("{" + path + "}"), ret=path), [{"ph": t}], lone)
        S.add(call('"{}"', [path], ret=path), [{"ph": t}], [short, lim, lim_edit])
        S.add(call('"{0}"', [path], ret=path), [{"ph": t}], [uni, lim])
        # in front of other text: as many digits as it may take, and no more
        rest = [{"alpha": "019+-x", "max": 4}, lim, uni, {"list": ["1" * k + "x" for k in range(1, 45)] + ["9" * k for k in range(1, 45)]}]
        S.add(call(rs("{" + path + "}{str}"), ret=f"({path}, &str)"), [{"ph": t}, {"ph": "str"}], rest)
        S.add(call(rs("{str}{" + path + "}"), ret=f"(&str, {path})"), [{"ph": "str"}, {"ph": t}], rest)
        S.add(call(rs("{0}{0}"), [path], ret=f"({path}, {path})"), [{"ph": t}, {"ph": t}], rest)
        # from_str of a number is the number or an error
        S.add(f"res(<{path} as sscanf::FromScanf>::from_str(i))", [{"ph": dict(ANY, conv=t)}], [short, foreign, allv, lim, lim_edit])
        # as a field of a derived type
        node = {"items": ["<", {"ph": t}, ">"], "name": "S", "kind": "tuple", "fields": [{"src": 0}]}
        S.add(call('"{S}"', ret="S"), [{"ph": node}],
              [{"product": [["<"], [x for x in texts(t)], [">"]]}, {"alpha": "09+-", "max": 4, "pre": "<", "post": ">"}],
              decl=f"#[derive(Debug, sscanf::FromScanf)] #[sscanf(format = \"<{{}}>\")] struct S({path});")
    ck.run_sites(S.sites, S.inputs)
    return ck.finish(
        "All 24 integer types alone (three ways of naming them, from_str, a derived field) and before or after text; every string up "
        "to length 5 (7) over digits and signs, every value of the 8- and 16-bit types and beyond, every limit and power of ten with "
        "all one-character edits, every digit count up to 45, Unicode digits and foreign characters.")
