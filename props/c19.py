"""C19: unescaped formats are the written regex with placeholders, on the whole input."""
import itertools
from lib.core import rs, raw
from lib.gen import Sites
from lib.dtypes import st, fld, ph, rep, cls, D09, DER, CODE, TYPES

AB = {"s": [["a", "b"]]}
# text in the format (braces of the regex doubled) -> pattern
ATOMS = {
    "a": {"l": "a"}, "ba": {"l": "ba"}, ".": ".", ".*": rep(".", 0), ".*?": rep(".", 0, None, False), ".+?": rep(".", 1, None, False), "a*": rep({"l": "a"}, 0), "b+?": rep({"l": "b"}, 1, None, False), "a?": rep({"l": "a"}, 0, 1),
    "[ab]": AB, "[^a]": {"n": [["a"]]}, "[ab]{{2}}": rep(AB, 2, 2), "a{{1,2}}": rep({"l": "a"}, 1, 2), "a{{2,}}": rep({"l": "a"}, 2), "a{{1,2}}?": rep({"l": "a"}, 1, 2, False), "\\d": "d", "\\d{{2}}": rep("d", 2, 2), "\\D": {"n": [["0", "9"]]},
    "(?:a|b)": {"a": [{"l": "a"}, {"l": "b"}]}, "(?:ab|a)": {"a": [{"l": "ab"}, {"l": "a"}]}, "(?:a|ab)": {"a": [{"l": "a"}, {"l": "ab"}]}, "(?:a|ba)*": rep({"a": [{"l": "a"}, {"l": "ba"}]}, 0), "(?:b|)": {"a": [{"l": "b"}, {"c": []}]},
    "\\.": {"l": "."}, "\\*": {"l": "*"}, "\\(": {"l": "("}, "\\|": {"l": "|"}, "\\\\": {"l": "\\"}, "\\{{": {"l": "{"}, "\\}}": {"l": "}"}, "}}": {"l": "}"}, "[{{]": {"l": "{"}, "[{{}}]": {"s": [["{"], ["}"]]}, "[\\]]": {"l": "]"}, "\\[": {"l": "["},
    "\\x61": {"l": "a"}, "\\u{{62}}": {"l": "b"}, "(?i:a)": {"s": [["a"], ["A"]]}, "\\n": {"l": "\n"}, "(?s:.)": {"n": []}, "é": {"l": "é"}, "/": {"l": "/"}, '"': {"l": '"'}, ":": {"l": ":"}, "[.]": {"l": "."}, "(?:)": {"c": []}, "#": {"l": "#"}, " ": {"l": " "},
}
PHS = {"u8": ("u8", "u8", "u8"), "str": ("str", "str", "String"), "char": ("char", "char", "char"), "ab": ("str:/[ab]+/", {"re": rep(AB), "conv": "str"}, "String"), "i8x": ("i8:x", "i8:x", "i8"), "E": ("E", "@E", "E"), "X": ("X", "@X", "X"), "H": ("H", "@H", "H")}
UNSPEC = set()


def alphabet(text):
    al = {"a", "b"} if any(c in text for c in "ab.D]*") or True else set()
    if "d" in text or "u8" in text or "i8" in text:
        al.add("1")
    for c in "(|\\{}[]*.é/\":# ":
        if {"(": "\\(", "|": "\\|", "\\": "\\\\", "[": "\\[", "]": "\\]", "*": "\\*", ".": "\\."}.get(c, c) in text or (c in "{}" and ("[{{" in text or "\\" + c * 2 in text)):
            al.add(c)
    if "." in text or "\\n" in text or "[^" in text or "\\D" in text:
        al.add("\n")
    if "?i" in text:
        al.add("A")
    if "{{2" not in text.replace("\\{{", "") and "{{1" not in text:
        pass
    return "".join(sorted(al))


def main(ck):
    S = Sites()

    def add(pieces, k, space=None):
        """pieces: (text, pattern) or a key of PHS; k picks the forms"""
        lit = "".join(p[0] if isinstance(p, tuple) else "{%s}" % PHS[p][0] for p in pieces)
        items = [{"pat": p[1]} if isinstance(p, tuple) else ph(PHS[p][1]) for p in pieces]
        phs = [p for p in pieces if not isinstance(p, tuple)]
        al = alphabet(lit)
        n = 5 if len(al) <= 3 else 4 if len(al) <= 5 else 3
        n += ck.thorough
        spec = space or [{"alpha": al, "max": n}]
        nospace = lit.replace("std::", "")
        q = (raw, rs)[k % 2]
        # the macro
        both = ck.thorough or len(pieces) == 1 or len(phs) == 1 == len(pieces) - 1
        if both or k % 5 < 2:
            S.add(f"res(sscanf::sscanf_unescaped!(i, {q(lit)}))", items, spec, src=f"sscanf_unescaped!(input, {q(lit)})", may_be_empty=True)
        if not (both or k % 5 >= 2):
            return
        # derived
        fmt = "".join(p[0] if isinstance(p, tuple) else "{" + (":" + PHS[p][0].split(":", 1)[1] if ":" in PHS[p][0] else "") + "}" for p in pieces)
        attr = [f"#[sscanf(format_unescaped = {rs(fmt)})]", f"#[sscanf(format_unescaped = {raw(fmt)})]", f"#[sscanf({raw(fmt)})]"][k % 3]
        tys = [PHS[p][2] for p in phs]
        node = st(items, "T", "tuple" if tys else "unit", *[fld(j, j) for j in range(len(tys))])
        body = f"({', '.join(tys)})" if tys else ""
        if k % 4 in (0, 1):
            decl, nd = DER + attr + f" pub struct T{body};", node
        else:
            decl = DER + f"pub enum T {{ #[sscanf(\"zz\")] Z, {attr} V{body}, #[sscanf(\"b{{}}\")] Y(String) }}"
            nd = {"name": "T", "enum": [st(["zz"], "Z", "unit"), dict(node, name="V"), st(["b", ph("str")], "Y", "tuple", fld(0, 0))]}
        src = decl.replace(DER, "")
        use = (k // 2) % 4
        wrap = lambda pre, post: [dict(s, pre=pre, post=post, max=max(2, n - 1)) if "alpha" in s else s for s in spec]
        if use == 0:
            S.add("res(<T as sscanf::FromScanf>::from_str(i))", [ph(nd)], spec, decl=decl, src="from_str: " + src, may_be_empty=True)
        elif use == 1:
            S.add('res(sscanf::sscanf!(i, "a{T}b"))', ["a", ph(nd), "b"], wrap("a", "b") + spec, decl=decl, src="a{T}b with " + src, may_be_empty=True)
        elif use == 2:
            S.add('res(sscanf::sscanf!(i, "{T}{str}"))', [ph(nd), ph("str")], spec, decl=decl, src="{T}{str} with " + src, may_be_empty=True)
        else:
            S.add('res(sscanf::sscanf_unescaped!(i, "[ab]?{char}{T}a*"))', [{"pat": rep(AB, 0, 1)}, ph("char"), ph(nd), {"pat": rep({"l": "a"}, 0)}], spec, decl=decl, src="[ab]?{char}{T}a* with " + src, may_be_empty=True)

    k = 0
    A = list(ATOMS.items())
    for n in (1, 2):
        for seq in itertools.product(A + ["u8", "str", "char", "ab"], repeat=n):
            k += 1
            if n == 2 and not ck.thorough and k % 7 and all(isinstance(p, tuple) for p in seq):
                continue
            add(list(seq), k)
    small = [a for a in A if a[0] in ("a", ".*", ".*?", "a*", "[ab]", "[ab]{{2}}", "\\d", "(?:a|ab)", "(?:a|ba)*", "\\{{", "a?")]
    for seq in itertools.product(small + ["u8", "str", "ab"], repeat=3):
        k += 1
        nph = sum(not isinstance(p, tuple) for p in seq)
        if nph in (1, 2) and (ck.thorough or k % 7 == 0):
            add(list(seq), k)
    # placeholders of all kinds with a regex on both sides
    for p, (l, r) in itertools.product(PHS, itertools.product([("", {"c": []})] + A, repeat=2)):
        k += 1
        if p in ("E", "X", "H", "i8x") and (ck.thorough or (l[0] in ("", "a", ".*", ".*?", "\\d", "(?:a|ab)", "[ab]{{2}}")) and k % 2):
            add([l, p, r] if l[0] else [p, r], k, space=[{"product": [["", "a", "ab", "7", "bb"], ["a", "b3", "bc7", "xc400", "b300"] if p == "E" else ["v1", "ww2", "v999"] if p == "X" else ["1ah", "2bch"] if p == "H" else ["7", "-0x1", "ff"], ["", "a", "{", "b", "1", "\\", "12"]], "edits": "a1"}])
    # alternations at the top level, without placeholders (a branch that does not take part has no value)
    alts = ["a", "b", "ab", "a*", "", "[ab]", "\\d", "a.", "(?:a|b)b", "\\|", "}}"]
    pat = {"": {"c": []}, "ab": {"l": "ab"}, "b": {"l": "b"}, "a.": {"c": [{"l": "a"}, "."]}, "(?:a|b)b": {"c": [ATOMS["(?:a|b)"], {"l": "b"}]}}
    P = lambda t: pat.get(t) or ATOMS[t]
    for n in (2, 3):
        for seq in itertools.product(alts, repeat=n):
            for j in range(4):
                k += 1
                if ck.thorough or k % (2 if n == 2 else 19) == 0:
                    add([("|".join(seq), {"a": [P(t) for t in seq]})], k)
    # ... and around groups with placeholders that always take part; repeated ones give their last piece
    def grp(text, pat, tys, spec):
        nonlocal k
        for j in range(4):
            k += 1
            q = (raw, rs)[k % 2]
            if j == 0:
                S.add(f"res(sscanf::sscanf_unescaped!(i, {q(text)}))", [{"pat": pat}], spec, src=f"sscanf_unescaped!(input, {q(text)})", may_be_empty=True)
                continue
            if ":" in text.replace("(?:", "") or "{u8}" not in text:
                continue
            fmt = text.replace("{u8}", "{}").replace("{str}", "{}").replace("{char}", "{}").replace("{E}", "{}")
            node = st([{"pat": pat}], "T", "tuple", *[fld(m, m) for m in range(len(tys))])
            decl = DER + f"#[sscanf(format_unescaped = {q(fmt)})] pub struct T({', '.join(tys)});"
            S.add(["res(<T as sscanf::FromScanf>::from_str(i))", 'res(sscanf::sscanf!(i, "{T}{str}"))', 'res(sscanf::sscanf!(i, "a{T}"))'][j - 1],
                  [[ph(node)], [ph(node), ph("str")], ["a", ph(node)]][j - 1], spec, decl=decl, src=decl.replace(DER, ""), may_be_empty=True)
    U, C = ph("u8"), ph("char")
    sp = [{"alpha": "a1b,", "max": 6 if ck.thorough else 5}]
    for t, p, ty in [
        ("(?:a{u8}|a{u8})", None, None), ("(?:{u8},)+", rep({"c": [U, {"l": ","}]}), ["u8"]), ("(?:{u8},)+?a*", {"c": [rep({"c": [U, {"l": ","}]}, 1, None, False), rep({"l": "a"}, 0)]}, ["u8"]),
        ("(?:a{u8}b)", {"c": [{"l": "a"}, U, {"l": "b"}]}, ["u8"]), ("(?:(?:a|b){u8}){{2}}", rep({"c": [AB, U]}, 2, 2), ["u8"]), ("{u8}(?:,{u8})+", {"c": [U, rep({"c": [{"l": ","}, U]})]}, ["u8", "u8"]),
        ("(?:{char}{u8})+{char}", {"c": [rep({"c": [C, U]}), C]}, ["char", "u8", "char"]), ("(?:a|b(?:a|1)){u8}", {"c": [{"a": [{"l": "a"}, {"c": [{"l": "b"}, {"a": [{"l": "a"}, {"l": "1"}]}]}]}, U]}, ["u8"]),
        ("(?:{u8}|{u8})", None, None), ("(?:.{u8})*1", None, None), ("(?:{u8}{{0}}a)", None, None), ("(?:(?:{u8}a){{1,2}},){{1,2}}", rep({"c": [rep({"c": [U, {"l": "a"}]}, 1, 2), {"l": ","}]}, 1, 2), ["u8"]),
        ("(?i:A{char}B)", {"c": [{"s": [["a"], ["A"]]}, C, {"s": [["b"], ["B"]]}]}, ["char"]), ("(?i:A{str}B){str}", {"c": [{"s": [["a"], ["A"]]}, ph("str"), {"s": [["b"], ["B"]]}, ph("str")]}, ["String", "String"]),
    ]:
        if p is not None:
            grp(t, p, ty, sp)
    # verbose mode, also with a comment at the end
    for pieces in [[("(?x) a b", {"l": "ab"})], [("(?x)a#b", {"l": "a"})], [("(?x) a # b", {"l": "a"})], [("(?x:a b)b b", {"l": "abb b"})], [("(?x)a # )(", {"l": "a"})], [("(?x)[ab]#{{", AB)], [("(?x) # b", {"c": []})], [("(?x)a#b\nb", {"l": "ab"})], [("(?x) a # b\n b#a", {"l": "ab"})],
                   [("(?x) a | b b # a", {"a": [{"l": "a"}, {"l": "bb"}]})], [("(?x)a\\#b#b", {"l": "a#b"})], [("(?x)a{{2}}#{{", {"l": "aa"})], [("(?x: a # b\n) b", {"l": "a b"})], [("(?x)a#b\n", {"l": "a"})], [("(?x)a(?-x) #", {"l": "a #"})],
                   [("(?x) a ", {"l": "a"}), "u8", (" # b", {"c": []})], [("(?x)", {"c": []}), "str", ("#", {"c": []})], [("(?x)", {"c": []}), "char", (" a # }}", {"l": "a"})], [("(?x)b#a\n", {"l": "b"}), "str", (" b#", {"l": "b"}), ], [("(?x) [ab] ", AB), "char", ("#a\n", {"c": []}), "str", ("#(", {"c": []})]]:
        text = "".join(p[0] if isinstance(p, tuple) else "1" for p in pieces)
        al = "".join(sorted({"a", "b", "#", " "} | ({"1"} if "1" in text else set())))
        for _ in range(8 if not ck.thorough else 24):
            k += 1
            if "\n" in text and k % 2 == 0:
                continue  # a raw literal of several lines is as good, but is not written on one line here
            add(pieces, k if ck.thorough else 5 * k + (0 if _ % 2 else 3), space=[{"alpha": al, "max": 4 + ck.thorough}])
    # types with such formats inside types with such formats
    nest = [("a|ab", {"a": [{"l": "a"}, {"l": "ab"}]}), ("[ab]{{2}}|b", {"a": [rep(AB, 2, 2), {"l": "b"}]}), (".*?", rep(".", 0, None, False)), ("a*", rep({"l": "a"}, 0))]
    for (t1, p1), (t2, p2), outer in itertools.product(nest, nest, ["{}|1{{0}}".replace("|1{{0}}", ""), "b?{}1*", "(?:{}b)+"]):
        d = DER + f"#[sscanf(format_unescaped = {raw(t1)})] pub struct A; " + DER + f"pub enum B {{ #[sscanf({raw(t2)})] V, #[sscanf(\"1{{}}\")] W(A) }} "
        a = st([{"pat": p1}], "A", "unit")
        b = {"name": "B", "enum": [st([{"pat": p2}], "V", "unit"), st(["1", ph(a)], "W", "tuple", fld(0, 0))]}
        op = {"{}": ph(b), "b?{}1*": {"c": [rep({"l": "b"}, 0, 1), ph(b), rep({"l": "1"}, 0)]}, "(?:{}b)+": rep({"c": [ph(b), {"l": "b"}]})}[outer]
        if outer == "(?:{}b)+" and t2 in (".*?", "a*"):
            continue
        d += DER + f"#[sscanf(format_unescaped = {raw(outer)})] pub struct T(B);"
        node = st([{"pat": op}] if outer != "{}" else [op], "T", "tuple", fld(0, 0))
        src = d.replace(DER, "")
        S.add("res(<T as sscanf::FromScanf>::from_str(i))", [ph(node)], [{"alpha": "ab1", "max": 6}], decl=d, src="from_str: " + src, may_be_empty=True)
        S.add('res(sscanf::sscanf!(i, "{A}{T}{B}"))', [ph(a), ph(node), ph(b)], [{"alpha": "ab1", "max": 6}], decl=d, src="{A}{T}{B}: " + src, may_be_empty=True)
        S.add('res(sscanf::sscanf_unescaped!(i, "{A}|{T}"))'.replace("|", "1?"), [ph(a), {"pat": rep({"l": "1"}, 0, 1)}, ph(node)], [{"alpha": "ab1", "max": 6}], decl=d, src="{A}1?{T}: " + src, may_be_empty=True)
    ck.run_sites(S.sites, S.inputs, types=TYPES, prelude=CODE)
    return ck.finish(
        ("" if ck.thorough else "Of the following, single pieces and pieces next to placeholders in full, every second to nineteenth of the longer combinations: ") +
        "Regex texts of one and two pieces out of 48 atoms (classes, repetitions incl. counted and lazy ones, groups, alternations, escapes, doubled braces) and four placeholders, of three pieces out of 14, "
        "every kind of placeholder between atoms, all alternations of two and three branches out of 11, placeholders inside groups and repetitions: in sscanf_unescaped! and as format_unescaped / omitted name of structs and variants, "
        "used by from_str, between literals, before a placeholder and inside another unescaped format, nested in one another; on every string up to length 3-6 over the characters that matter.")
