"""C14: autogen variants match exactly their name in the chosen case style."""
import itertools
from lib.core import rs, raw
from lib.gen import Sites
from lib.dtypes import st, fld, ph, DER, TYPES, CODE

STYLES = {
    None: lambda w: "".join(x.capitalize() for x in w),
    "CaseSensitive": lambda w: "".join(x.capitalize() for x in w),
    "lower case": lambda w: " ".join(w),
    "UPPER CASE": lambda w: " ".join(w).upper(),
    "lowercase": lambda w: "".join(w),
    "UPPERCASE": lambda w: "".join(w).upper(),
    "PascalCase": lambda w: "".join(x.capitalize() for x in w),
    "camelCase": lambda w: w[0] + "".join(x.capitalize() for x in w[1:]),
    "snake_case": lambda w: "_".join(w),
    "SCREAMING_SNAKE_CASE": lambda w: "_".join(w).upper(),
    "kebab-case": lambda w: "-".join(w),
    "SCREAMING-KEBAB-CASE": lambda w: "-".join(w).upper(),
}
CI = "CaseInsensitive"
# names in words; the letters k and s are only used where a Unicode case folding cannot matter
NAMES = [["ab"], ["foo"], ["foo", "bar"], ["one", "two", "end"], ["be", "or", "not", "to"], ["hello", "world"], ["lo", "lo"], ["long", "name", "with", "four"], ["a"], ["x", "yz"], ["screaming"], ["kept", "case"]]
# names with underscores, capital words and acronyms: every style finds the same words in them
SPLIT = [("Foo_Bar", "foo bar"), ("foo_bar", "foo bar"), ("FOO_BAR", "foo bar"), ("fooBar", "foo bar"), ("Foo_barBaz", "foo bar baz"), ("HTTPServer", "http server"), ("XMLHttpRequest", "xml http request"), ("BAR", "bar"), ("foo", "foo"), ("Http_Server", "http server")]
ASIS = ["foo", "FOO", "foo_bar", "Foo_Bar", "HTTPServer", "V2", "A1b2", "fooBar", "X", "É", "ÑandúX", "_a", "Abc_", "XMLHttp2Request", "FooBAR", "BAR"]


def ident(w):
    return "".join(x.capitalize() for x in w)


def ci(text):
    return {"pat": {"c": [{"s": [[c, c] for c in sorted({x.lower(), x.upper()}) if len(c) == 1]} for x in text]}}


def attr(style, k=0):
    name = "autogenerate" if k % 2 else "autogen"
    return f"#[sscanf({name})]" if style is None else f"#[sscanf({name} = {rs(style)})]"


def pattern(style, name, w):
    if style == CI:
        return [ci(name)]
    return [STYLES[style](w) if w else name]


def main(ck):
    S, progs = Sites(), []
    k = 0

    def renderings(w):
        return sorted({f(w) for f in STYLES.values()} | {"".join(w).swapcase(), "".join(w).title()})

    def caps(t, n=10):
        return [["%s" % c for c in sorted({x.lower(), x.upper()})] for x in t[:n]] + ([[t[n:]]] if t[n:] else [])

    def site(d, node, specs, more=""):
        nonlocal k
        k += 1
        src = d.replace(DER, "")
        S.add('res(sscanf::sscanf!(i, "{T}"))', [ph(node)], specs, decl=d, deep=True, src=src)
        if k % 3 == 0:
            S.add('res(sscanf::sscanf!(i, "{T}{u8}"))', [ph(node), ph("u8")], [{"product": [s["product"][0] if len(s.get("product", ())) == 1 else [""], ["1", ""]]} for s in specs if "product" in s] or specs, decl=d, deep=True, src="{T}{u8} with " + src, may_be_empty=True)
        if k % 3 == 1:
            S.add("res(<T as sscanf::FromScanf>::from_str(i))", [ph(node)], specs, decl=d, deep=True, src="from_str: " + src)

    def neighbourhood(words, styles_of=None):
        texts = sorted({r for w in words for r in renderings(w)})
        return {"product": [texts], "edits": "aA _-1"}

    # one variant
    for style in list(STYLES) + [CI]:
        for w in NAMES:
            n = ident(w)
            d = f"{attr(style, k)} {DER}pub enum T {{ {n} }}"
            node = {"name": "T", "enum": [st(pattern(style, n, w), n, "unit")]}
            specs = [neighbourhood([w]), {"product": caps("".join(w), 12 if ck.thorough else 9)}]
            if len(w) > 1:
                specs.append({"product": sum([[[x, x.upper(), x.capitalize()], ["", " ", "_", "-", "  "]] for x in w], [])[:-1]})
            site(d, node, specs)
    for style in STYLES:
        if style in (None, "CaseSensitive"):
            continue
        for n, w in SPLIT:
            w = w.split()
            d = f"{attr(style, k)} #[allow(non_camel_case_types)] {DER}pub enum T {{ {n} }}"
            node = {"name": "T", "enum": [st(pattern(style, n, w), n, "unit")]}
            site(d, node, [{"product": [sorted({n, n.lower(), n.upper(), *renderings(w)})], "edits": "aA _-1"}])
    # names as they are
    for style in (None, "CaseSensitive", CI):
        for n in ASIS:
            d = f"{attr(style, k)} {DER}pub enum T {{ {n} }}"
            node = {"name": "T", "enum": [st(pattern(style, n, None), n, "unit")]}
            texts = sorted({n, n.lower(), n.upper(), n.swapcase(), n.replace("_", ""), n.replace("_", "-"), n.replace("_", " "), n.capitalize()})
            site(d, node, [{"product": [texts], "edits": "aA _-1"}])
    # raw identifiers are names like others
    for style in list(STYLES) + [CI]:
        for n in ("type", "Yield", "abstract", "ab", "fn"):
            if style == CI and ("s" in n or "k" in n):
                continue
            d = f"{attr(style, k)} #[allow(non_camel_case_types)] {DER}pub enum T {{ r#{n} }}"
            node = {"name": "T", "enum": [st([ci(n)] if style == CI else [n] if style in (None, "CaseSensitive") else pattern(style, n, [n.lower()]), n, "unit")]}
            site(d, node, [{"product": [sorted({n, n.lower(), n.upper(), n.title(), "r#" + n, "r" + n, "r_" + n.lower(), "R" + n.title()})], "edits": "aA _-1r#"}])
    # several variants: the first that matches; overridden, skipped and with fields
    words = [["ab"], ["ab", "cd"], ["abcd"], ["cd"]]
    shapes = {
        "plain": lambda n, w, s: (n, st(pattern(s, n, w), n, "unit")),
        "own": lambda n, w, s: (f'#[sscanf("own {n}")] {n}', st([f"own {n}"], n, "unit")),
        "fields": lambda n, w, s: (f'#[sscanf("{{}}{n}")] {n}(u8)', st([ph("u8"), n], n, "tuple", fld(0, 0))),
        "trans": lambda n, w, s: (f"#[sscanf(transparent)] {n}(U)", st([ph("@U")], n, "tuple", fld(0, 0))),
        "skip": lambda n, w, s: (f"#[sscanf(skip)] {n}", None),
        "skipf": lambda n, w, s: (f"#[sscanf(skip)] {n} {{ a: String }}", None),
        "unit()": lambda n, w, s: (f"{n}()", st(pattern(s, n, w), n, "unit")),
        "unit{}": lambda n, w, s: (f"{n} {{}}", st(pattern(s, n, w), n, "unit")),
        "rawfmt": lambda n, w, s: (f'#[sscanf(r"[xy]{n}")] {n}', st([{"pat": {"s": [["x", "y"]]}}, n], n, "unit")),
    }
    sh = list(shapes)
    for style in list(STYLES) + [CI]:
        for a, b, c in (itertools.product(sh, repeat=3) if ck.thorough else [(sh[i % 9], sh[(i // 9 + i) % 9], sh[(2 * i + i // 9) % 9]) for i in range(27)] + [(x, y, "plain") for x in sh[:5] for y in sh[:5]]):
            for order in ([words[:3]] if (k + len(a)) % 2 else [words[:3][::-1]]) + ([[words[2], words[1], words[3]]] if ck.thorough else []):
                parts, nodes = [], []
                for shp, w in zip((a, b, c), order):
                    src, node = shapes[shp](ident(w), w, style)
                    parts.append(src)
                    if node:
                        nodes.append(node)
                d = f"{attr(style, k)} {DER}pub enum T {{ {', '.join(parts)} }}"
                if not nodes:
                    progs.append({"code": d, "src": d.replace(DER, ""), "accept": False, "why": "everything is skipped"})
                    continue
                texts = sorted({r for w in words for r in renderings(w)} | {"own " + ident(w) for w in words} | {p + ident(w) for w in words for p in ("1", "x", "300")} | {"u1", "u300"})
                site(d, {"name": "T", "enum": nodes}, [{"product": [texts], "edits": "" if not ck.thorough else "a "}])
    # many variants at once
    for style in list(STYLES) + [CI]:
        ns = NAMES if k % 2 else NAMES[::-1]
        d = f"{attr(style)} {DER}pub enum T {{ {', '.join(ident(w) for w in ns)} }}"
        node = {"name": "T", "enum": [st(pattern(style, ident(w), w), ident(w), "unit") for w in ns]}
        site(d, node, [neighbourhood(ns)])
    # the value of autogen
    good = [s for s in STYLES if s] + [CI]
    vals = set(good)
    for s in good:
        vals |= {s + "x", s[:-1], " " + s, s + " ", s.swapcase(), s.replace(" ", "  "), s.replace("_", "__"), s.replace("-", "_"), s.replace("_", "-"), s.replace(" ", ""), s.replace("case", "Case"), s[0].swapcase() + s[1:], s.upper(), s.lower(), s.title()}
    vals |= {"", "kebab", "snake", "Snake", "Upper", "Train-Case", "Title Case", "{}", "case"}
    for s in sorted(vals):
        flat = s.lower().replace(" ", "").replace("_", "").replace("-", "")
        acc = s in good
        if not acc and flat == "caseinsensitive":
            acc = None
        if s == "Train-Case":
            acc = False
        for a in ("autogen", "autogenerate"):
            d = f"#[sscanf({a} = {rs(s)})] {DER}pub enum T {{ AbCd }}"
            progs.append({"code": d, "src": d.replace(DER, ""), "accept": acc, "why": "no such case style"})
    for a in ("autogen", "autogenerate"):
        for v in ["1", "snake_case", "true", "'a'", "b\"snake_case\"", "\"snake_case\" + \"\"", "(\"snake_case\", 1)"]:
            d = f"#[sscanf({a} = {v})] {DER}pub enum T {{ AbCd }}"
            progs.append({"code": d, "src": d.replace(DER, ""), "accept": False, "why": "not a string"})
        for body in ["A(u8)", "A { x: u8 }", "A, B(u8)", "B(u8), A", "#[sscanf(skip)] A, B(u8)", "A, #[sscanf(\"b\")] B(u8)", "A, #[sscanf(\"{}\")] B"]:
            d = f"#[sscanf({a})] {DER}pub enum T {{ {body} }}"
            progs.append({"code": d, "src": d.replace(DER, ""), "accept": False, "why": "fields without a format"})
    ck.check_verdicts(progs, prelude=CODE)
    ck.run_sites(S.sites, S.inputs, types=TYPES, prelude=CODE)
    ck.assumptions.append("word boundaries at digits are only checked for CaseSensitive and CaseInsensitive; Unicode folding of k and s is not tested")
    return ck.finish(
        "13 case settings x 12 names of one to four words: every rendering of the name in every style and separator, every capitalisation and every one-character edit; ten names with underscores and acronyms; enums of three variants "
        "out of nine shapes (own format, fields, skipped, transparent, raw format); twelve variants at once; some 150 values of autogen.")
