"""C09: every format string is either accepted as documented or a compile error."""
import itertools
from lib.core import rs, raw
from lib.gen import Sites, call, ret_of
from lib import fmtref

# one-letter type names, so that short strings can name a type
KNOWN = {"a": "u8", "x": "char", "r": "bool", "é": "u8", "u8": "u8", "str": "str", "i16": "i16", "String": "String"}
PRELUDE = "pub type a = u8; pub type x = char; pub type r = bool; pub type é = u8;"
ANY = {"r": [{"n": []}, 0, None, True]}
SAMPLE = {"u8": ["2", "20"], "char": ["x", "é"], "bool": ["true"], "str": ["a", "2x"], "i16": ["-2"], "String": ["a"]}


def main(ck):
    progs, S = [], Sites()
    bodies = []
    cands = {}

    def classify(text):
        """(parse result or None, reason)"""
        try:
            return fmtref.parse(text), ""
        except fmtref.Bad as e:
            return None, str(e)
        except fmtref.Unspecified as e:
            return "unspecified", str(e)

    def add(text, lit, run=True, unspecified=False):
        """text: what the literal stands for"""
        p, why = classify(text)
        cands[lit] = (text, p, why, run, unspecified)
        if isinstance(p, list):
            bodies.extend(fmtref.regexes(p))

    full = "{}:/#xr20aé\\ "
    for n in range(0, 5):
        for t in itertools.product(full, repeat=n):
            t = "".join(t)
            if n >= 3 and "{" not in t and "}" not in t:
                continue
            add(t, raw(t))
    core = "{}:/xa"
    for n in ((5, 6, 7) if ck.thorough else (5,)):
        for t in itertools.product(core, repeat=n):
            t = "".join(t)
            if "{" in t:
                add(t, raw(t))
    if ck.thorough:
        for t in itertools.product(full, repeat=5):
            t = "".join(t)
            if t[0] == "{" or t[-1] == "}":
                add(t, raw(t), run="}}" in t)
    # options in full, on an integer
    for n in range(0, 4):
        for t in itertools.product("xob#r1236/}{+ -é", repeat=n):
            t = "{u8:" + "".join(t) + "}"
            add(t, raw(t))
    for k in list(range(0, 300)) + [1000, 10 ** 30]:
        add("{u8:r%d}" % k, raw("{u8:r%d}" % k))
    for ty in ["str", "a", "x", "i16", "u8", "&str", "f32", "bool", "String", "std::primitive::u8", "core::primitive::str", "::std::primitive::u8", "Vec<u8>", "u8;", "u8,u8", "u8>", "<u8", "u8 u8", "[u8]",
               "(u8)", "(u8,u8)", "&u8", "&mut str", "*const u8", "fn()", "!", "_", "dyn T", "impl T", "'a", "1u8", "-1", "0.5", "\"u8\"", "u8//", "u8/*", "r\"", "self", "crate", "Self", "super", "if", "18446744073709551616", "<u8 as T>::X", "::", ":::", "é::é", "u8::"]:
        for o in ["", ":x", ":/a/", ":#", ":", ":r16", ":/", "::x"]:
            t = "{" + ty + o + "}"
            add(t, raw(t), run=False, unspecified=ty not in ("str", "a", "x", "i16", "u8", "String") )
    # plain literals: characters written with escapes
    toks = ["{", "}", ":", "/", "a", "\\\\", "\\n", '\\"', "\\u{41}", "\\x61", "é", "\\\n  "]
    val = {"\\\\": "\\", "\\n": "\n", '\\"': '"', "\\u{41}": "A", "\\x61": "a", "\\\n  ": ""}
    for n in range(0, 5):
        for t in itertools.product(toks if n < 4 or ck.thorough else toks[:9], repeat=n):
            lit = '"' + "".join(t) + '"'
            text = "".join(val.get(c, c) for c in t)
            marked = "".join(chr(0xE000 + k) if c in val else c for k, c in enumerate(t))
            p, why = classify(marked)
            # an escape inside a name or an option other than a regex: not documented
            odd = isinstance(p, list) and any(x[0] == "ph" and any("\ue000" <= c <= "\uf000" for c in x[1] + (x[2][1] if x[2] and x[2][0] == "radix" else "")) for x in p)
            q, _ = classify(text)
            if not odd and not isinstance(p, list) and isinstance(q, list):
                odd = "\\x61" in t or "\\\n  " in t
            add(text, lit, run=n < 4, unspecified=odd)
    ok = ck.regex_ok(bodies)

    def code(m, lit, args):
        return f"fn f(i: &str) {{ let _ = {m}{lit}{args}); }}"

    k = 0
    for lit, (text, p, why, run, unspecified) in cands.items():
        k += 1
        good = None
        lists = [[]]
        if isinstance(p, list):
            for types in ([], ["u8"], ["u8", "i16"], ["u8", "i16", "u8"]):
                try:
                    good = (types, fmtref.bind(p, types, KNOWN, ok.get))
                    break
                except fmtref.Bad as e:
                    why = str(e)
                except fmtref.Unspecified:
                    unspecified = True
                    break
        elif p == "unspecified":
            unspecified = True
        if good is None and "{" in text:
            lists = [[], ["u8"]] + ([["u8", "i16"]] if text.count("{") > 2 else [])
        if unspecified:
            good = None
        if good:
            types, bound = good
            args = "".join(", " + t for t in types)
            if not run or not set(text) & set("{}\\"):
                progs.append({"code": code("sscanf::sscanf!(i, ", lit, args), "src": f"sscanf!(input, {lit}{args})", "accept": True})
                continue
            items, prod, tys, simple = [], [], [], True
            for b in bound:
                if b[0] == "lit":
                    items.append(b[1])
                    prod.append([b[1]])
                    continue
                t, o = KNOWN.get(b[1], b[1]), b[2]
                rt = {"str": "&str"}.get(t, t)
                tys.append(rt)
                if o is None:
                    items.append({"ph": t})
                    prod.append(SAMPLE[t])
                elif o[0] == "radix":
                    items.append({"ph": f"{t}:{o[1]}"})
                    prod.append(["0x2", "2", "10"])
                else:
                    items.append(None)
                    simple = len(bound) == 1 and t == "str"
                    rx = o[1]
                    prod.append(["2", "a", "x", "", rx])
            if simple and tys and items == [None]:
                items = [{"ph": {"re": ANY, "conv": "rx:" + rx}}]
            elif None in items:
                progs.append({"code": code("sscanf::sscanf!(i, ", lit, args), "src": f"sscanf!(input, {lit}{args})", "accept": True})
                continue
            S.add(call(lit, types, ret=ret_of(tys)), items, [{"product": prod, "edits": "{}\\:/2a"}, {"list": [text, "", "2", "a"]}],
                  src=f"sscanf!(input, {lit}{args})", coarse=True, may_be_empty=True)
            continue
        acc = None if unspecified else False
        for n, types in enumerate(lists):
            args = "".join(", " + t for t in types)
            # malformed text is malformed for every macro
            m = "sscanf::sscanf!(i, " if (k + n) % 3 else "sscanf::sscanf_get_regex!("
            progs.append({"code": code(m, lit, args), "src": f"{m}{lit}{args})", "accept": acc, "why": why})
        if p is None and len(lit) < 9 and k % 2 and not unspecified:
            progs.append({"code": code("sscanf::sscanf_unescaped!(i, ", lit, ""), "src": f"sscanf_unescaped!(input, {lit})", "accept": False, "why": why})
            progs.append({"code": f"#[derive(sscanf::FromScanf)] #[sscanf(format = {lit})] struct S {{ a: u8 }}", "src": f"#[derive(FromScanf)] #[sscanf(format = {lit})] struct S {{ a: u8 }}", "accept": False, "why": why})
    # a string literal with a suffix is none of the forms of a format string
    for lit in ['""', '"a"', '"{u8}"', '"{}"', '"{u8:x}{str}"', 'r"{u8}"', 'r#"{u8}"#', '"{u8:/a/}"', '"{u8}b"', '"é"']:
        for suf in ["b", "u8", "str", "foo", "_x", "é", "f32", "r"] + (["s", "format", "x1", "usize", "i"] if ck.thorough else []):
            args = ", u8" if lit == '"{}"' else ""
            for m in ("sscanf::sscanf!(i, ", "sscanf::sscanf_unescaped!(i, ", "sscanf::sscanf_get_regex!("):
                progs.append({"code": code(m, lit + suf, args), "src": f"{m}{lit}{suf}{args})", "accept": False, "why": "a string literal has no suffix"})
            if lit in ('"a"', '"{}"', 'r"{u8}"'):
                field = "{ #[sscanf(default)] a: u8 }" if "{" not in lit else "(u8);" if lit == '"{}"' else "{ #[sscanf(default)] a: u8 }"
                for key in ("format = ", "", "format_unescaped = "):
                    d = f"#[derive(sscanf::FromScanf)] #[sscanf({key}{lit}{suf})] struct S {field}"
                    progs.append({"code": d, "src": d, "accept": False, "why": "a string literal has no suffix"})
                    f2 = field.replace(";", "")
                    d = f"#[derive(sscanf::FromScanf)] enum S {{ #[sscanf({key}{lit}{suf})] A {f2} }}"
                    progs.append({"code": d, "src": d, "accept": False, "why": "a string literal has no suffix"})
    ck.check_verdicts(progs, prelude=PRELUDE, full=lambda j: False, per_shard=8000)
    ck.run_sites(S.sites, S.inputs, prelude=PRELUDE)
    ck.assumptions.append("not specified by the documentation and only checked for macro panics: blanks inside a placeholder, +n or leading zeros in an index or radix, escapes inside a type name, unusual Rust type syntax")
    return ck.finish(
        "Every string of up to 4 (5) characters out of { } : / # x r 2 0 a é \\ blank, up to 5 (7) out of { } : / x a, every option of up to 3 "
        "characters out of 16, radixes 0-299, unusual type names, and every sequence of up to 4 tokens with escapes in plain literals, literals with a suffix: compile error exactly for "
        "the malformed ones, no macro panic or hang; accepted ones with a brace or backslash run on inputs with all one-character edits.")
