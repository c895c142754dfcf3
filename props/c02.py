"""C02: a parse is a split of the whole input, values in placeholder order."""
import itertools
from lib.core import rs, raw
from lib.gen import Sites, call, esc, ret_of, SAMPLES

# placeholder text in the format, the model's type, the Rust type of the value, colliding tokens
TYPES = {
    "u8": ("{u8}", "u8", "u8", "19"),
    "i8": ("{i8}", "i8", "i8", "1-+"),
    "u16": ("{u16}", "u16", "u16", "19"),
    "str": ("{str}", "str", "&str", "a1"),
    "String": ("{String}", "String", "String", "a1"),
    "char": ("{char}", "char", "char", "a1é"),
    "bool": ("{bool}", "bool", "bool", ""),
    "f32": ("{f32}", "f32", "f32", "1.e"),
    "hex": ("{u8:x}", "u8:x", "u8", "1a0x"),
    "re": ("{str:/[a1]+:?/}", {"re": {"c": [{"r": [{"s": [["a"], ["1"]]}, 1, None, True]}, {"r": [{"l": ":"}, 0, 1, True]}]}, "conv": "str"}, "&str", "a1:"),
    "nz": ("{std::num::NonZeroU8}", "NonZeroU8", "std::num::NonZeroU8", "10"),
    "path": ("{std::path::PathBuf}", "PathBuf", "std::path::PathBuf", "a1"),
}

SAMPLE = {"u8": ["3", "25", "256"], "i8": ["-4", "+12", "-129"], "u16": ["500", "99999"], "str": ["w", "1a"], "String": ["own", ":"],
          "char": ["c", "1"], "bool": ["true", "false"], "f32": ["0.5", "-1e2", "inf"], "hex": ["0xF", "fF", "100"],
          "re": ["a:", "1a"], "nz": ["9", "10", "0"], "path": ["/p", "1"]}


def main(ck):
    S = Sites()

    def add(parts, n):
        """parts: alternating literal, type, literal, ..., literal"""
        lits, tys = parts[0::2], parts[1::2]
        f = lits[0] + "".join(TYPES[t][0] + esc(l) for t, l in zip(tys, lits[1:]))
        items = [lits[0]]
        for t, l in zip(tys, lits[1:]):
            items += [{"ph": TYPES[t][1]}, l]
        alpha = []
        for c in "".join(lits) + "".join(TYPES[t][3] for t in tys) + "1:":
            if c not in alpha:
                alpha.append(c)
        alpha = alpha[:8]
        specs = []
        # length bound such that the space stays below n strings
        k = 1
        while sum(len(alpha) ** j for j in range(k + 2)) <= n:
            k += 1
        specs.append({"alpha": "".join(sorted(alpha)), "max": k})
        if "bool" in tys or "f32" in tys or len(tys) < 3:
            toks = ["true", "false", "t", "1", "99", "-", ":", ".5", "1e", "inf", "nan", "a\n", "é"]
            if "bool" not in tys:
                toks = toks[3:]
            specs.append({"tokens": toks, "max": 3 if n < 3000 else 4})
        prod = [[lits[0]]]
        for t, l in zip(tys, lits[1:]):
            prod += [SAMPLE[t][: 2 if len(tys) > 2 else 3], [l]]
        specs.append({"product": prod, "edits": "1:" if len(tys) > 1 else "1:a-"})
        S.add(call(rs(f), ret=ret_of([TYPES[t][2] for t in tys])), items, specs, src=f"sscanf!(input, {rs(f)})")

    allt = list(TYPES)
    seps = ["", ":", "1", "-", "a"]
    # one placeholder between literals
    for t in allt:
        for a, b in itertools.product(["", ":", "1", "a"], repeat=2):
            add([a, t, b], 4000)
    # two placeholders: all pairs, all separators
    for t, u in itertools.product(allt, repeat=2):
        for s in (seps if ck.thorough else ["", ":", "1"]):
            add(["", t, s, u, ""], 20000 if ck.thorough else 4000)
    # two placeholders with literals outside
    small = ["u8", "i8", "str", "char", "hex", "f32"]
    for t, u in itertools.product(small, repeat=2):
        for a, s, b in [("1", "", "1"), ("", "1", "1"), ("1", "1", ""), (":", "", ":"), ("a", "", "a"), ("a", "a", "a")]:
            add([a, t, s, u, b], 4000)
    # three placeholders
    three = ["u8", "i8", "str", "char", "hex", "re", "f32", "bool"] if ck.thorough else ["u8", "i8", "str", "char", "hex", "re"]
    for t, u, v in itertools.product(three, repeat=3):
        for a, b in ([("", ""), (":", ""), ("", ":"), (":", ":"), ("1", "")] if ck.thorough else [("", ""), (":", ""), ("", "1")]):
            add(["", t, a, u, b, v, ""], 20000 if ck.thorough else 4000)
    # longer formats and many placeholders: order of the values
    many = ["u8", "i8", "char", "str", "bool", "u16", "f32", "hex", "String", "nz", "path", "re"]
    for n in (4, 6, 8, 10, 12):
        for rot in range(0, 12, 3 if not ck.thorough else 1):
            tys = (many[rot:] + many[:rot])[:n]
            parts = [""]
            for t in tys:
                parts += [t, ";"]
            f = "".join(TYPES[t][0] + ";" for t in tys)
            items = []
            prod = []
            for k, t in enumerate(tys):
                items += [{"ph": TYPES[t][1]}, ";"]
                ok = {"u8": "3", "i8": "-4", "u16": "500", "str": "w", "String": "own", "char": "c", "bool": "true", "f32": "0.5",
                      "hex": "0xF", "re": "a:", "nz": "9", "path": "/p"}[t]
                prod += [[ok, "1"] if k < 4 else [ok], [";"]]
            S.add(call(rs(f), ret=ret_of([TYPES[t][2] for t in tys])), items, [{"product": prod, "edits": "1;-"}],
                  src=f"sscanf!(input, {rs(f)})")
    # no placeholder at all: the result is ()
    for t in ["", "a", "1", "a1", "{}", "\n"]:
        S.add(call(rs(esc(t)), ret="()"), [t], [{"alpha": "a1{}\n ", "max": 4}])
    ck.run_sites(S.sites, S.inputs)
    return ck.finish(
        "Formats of up to three placeholders over 12 kinds of placeholder and adjoining or separating literals, and some of up to "
        "twelve; every input up to a length over the colliding characters of the format, and every sequence of up to 3 (4) tokens.")
