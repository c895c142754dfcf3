"""C04: radix options: digits, prefix, sign, digit count, value."""
from lib.core import rs
from lib.gen import Sites, call

PRIM = [s + b for s in "iu" for b in ("8", "16", "32", "64", "128", "size")]
OPTS = ["x", "o", "b", "#x", "#o", "#b", "x#", "o#", "b#"] + [f"r{r}" for r in range(2, 37)]
DIG = "0123456789abcdefghijklmnopqrstuvwxyz"


def base(n, r):
    if n == 0:
        return "0"
    out = ""
    while n:
        out = DIG[n % r] + out
        n //= r
    return out


def radix(o):
    o = o.strip("#")
    return {"x": 16, "o": 8, "b": 2}.get(o) or int(o[1:])


def bits(t):
    return 64 if t.endswith("size") else int(t[1:])


def mixed(s, k):
    return "".join(c.upper() if (i + k) % 2 else c for i, c in enumerate(s))


def numbers(t, o):
    """texts of the numbers at every limit, in every case, with and without prefix and sign"""
    r, n = radix(o), bits(t)
    lim = set()
    for w in {n, n - 1}:
        for d in range(-2, 3):
            lim.add(2 ** w + d)
    k = len(base(2 ** n - 1, r))
    for e in {1, k - 2, k - 1, k, k + 1}:
        if e >= 0:
            for d in (-1, 0, 1):
                lim.add(r ** e + d)
    lim |= {0, 1, r - 1, r, r + 1}
    if n == 8:
        lim |= set(range(0, 300))
    elif n == 16:
        lim |= set(range(0, 65600, 977))
    out = []
    pre = {"x": ["", "0x", "0X"], "o": ["", "0o", "0O"], "b": ["", "0b", "0B"]}.get(o.strip("#"), [""])
    for v in sorted(x for x in lim if x >= 0):
        s = base(v, r)
        forms = {s} if s.isdigit() else ({s, s.upper()} if n == 8 and v < 300 else {s, s.upper(), mixed(s, 0), mixed(s, 1)})
        for f in sorted(forms):
            for p in pre:
                for sg in ("", "-", "+"):
                    out.append(sg + p + f)
    for j in range(1, k + 3):
        for c in {"0", "1", DIG[r - 1], DIG[r - 1].upper()}:
            for p in pre:
                out.append(p + c * j)
        out.append("0" * j + "1")
        out.append("-" + DIG[r - 1] * j)
    return out


def main(ck):
    S = Sites()
    for t in PRIM:
        for o in OPTS:
            r = radix(o)
            p = o.strip("#")
            al = ["0", "1", "-", "+", DIG[r - 1], DIG[r - 1].upper()]
            if r < 36:
                al += [DIG[r], DIG[r].upper()]
            if p in "xob":
                al += [p, p.upper()]
            al = "".join(sorted(set(al)))
            short = {"alpha": al, "max": 5 if ck.thorough else 4}
            foreign = {"tokens": ["0", "1", "\u212a", "\u017f", "٣", "²", " ", "_", ".", "０", "ａ", "'", "z", "Z", "/", ":", "@", "G", "[", "`", "g", "{"], "max": 2 if not ck.thorough else 3}
            nums = {"list": numbers(t, o)}
            mx = base(2 ** bits(t) - 1, r)
            edits = {"product": [["", "0" + p] if p in "xob" else [""], [mx, mx.upper()]], "edits": "0" + DIG[r - 1] + DIG[min(r, 35)] + "-_x"}
            ty = f"{t}:{o}"
            S.add(call(rs("{" + ty + "}"), ret=t), [{"ph": ty}], [short, foreign, nums, edits])
            S.add(call(rs("{" + ty + "}{str}"), ret=f"({t}, &str)"), [{"ph": ty}, {"ph": "str"}], [short, foreign, nums, edits])
            if ck.thorough or t in ("i8", "u8", "u16", "i64", "u128"):
                S.add(call(rs("{:" + o + "}{}"), [t, t], ret=f"({t}, {t})"), [{"ph": ty}, {"ph": t}], [short, nums])
                node = {"items": ["<", {"ph": ty}, ">"], "name": "S", "kind": "tuple", "fields": [{"src": 0}]}
                S.add(call('"{S}"', ret="S"), [{"ph": node}], [{"product": [["<"], numbers(t, o), [">"]]}],
                      decl=f"#[derive(Debug, sscanf::FromScanf)] #[sscanf(format = \"<{{:{o}}}>\")] struct S({t});")
    # the legacy hexadecimal type: optional prefix, any number of digits
    hexd = {"s": [["0", "9"], ["a", "f"], ["A", "F"]]}
    pat = {"a": [{"c": [{"l": "0"}, {"s": [["x"], ["X"]]}, {"r": [hexd, 1, None, True]}]}, {"r": [hexd, 1, None, True]}]}
    node = {"re": pat, "conv": "HexNumber"}
    hn = [{"alpha": "01fFgxX-+", "max": 5}, {"list": numbers("u64", "x")}, {"list": ["0" * 30 + "1", "0x" + "0" * 30 + "1", "1" + "0" * 16]}]
    S.add(call('"{sscanf::HexNumber}"', ret="sscanf::HexNumber"), [{"ph": node}], hn)
    S.add(call('"{}"', ["sscanf::HexNumber"], ret="sscanf::HexNumber"), [{"ph": node}], hn)
    S.add(call('"{sscanf::HexNumber}{str}"', ret="(sscanf::HexNumber, &str)"), [{"ph": node}, {"ph": "str"}], hn)
    S.add(call('"x{sscanf::HexNumber}x{sscanf::HexNumber}"', ret="(sscanf::HexNumber, sscanf::HexNumber)"),
          ["x", {"ph": node}, "x", {"ph": node}], [{"alpha": "01fxX", "max": 6, "pre": "x"}])
    ck.run_sites(S.sites, S.inputs)
    return ck.finish(
        "12 integer types x 44 options (x, o, b, both # forms, r2..r36), alone, followed by text, followed by a decimal, in a derived "
        "field, and HexNumber; every string up to length 4 (5) over signs, 0, 1, prefix letters, the largest digit and the first "
        "non-digit in both cases; foreign look-alike characters; all 8-bit values, every limit and digit count in every case, with all edits of the largest value.")
