"""C11: a derived struct puts each placeholder's value into the field it names."""
import itertools
from lib.core import rs, raw
from lib.gen import Sites
from lib.dtypes import st, fld, ph, rep, D09, DER, TYPES, CODE

# kinds of fields: attribute, type, node of the placeholder or None, map of the model, constant, pieces
K = {
    "u8": ("", "u8", "u8", None, None, ["7", "300"]),
    "str": ("", "&'a str", "str", None, None, ["w", "1"]),
    "dflt": ("#[sscanf(default)]", "u8", None, None, "0", None),
    "dexp": ("#[sscanf(default = { let x = 3; x + 1 })]", "u8", None, None, "4", None),
    "map": ("#[sscanf(map = |v: u8| v as u32 + 1)]", "u32", "u8", "inc", None, ["7", "255", "256"]),
    "fmap": ("#[sscanf(filter_map = |v: i16| if v % 2 == 0 { Some(v / 2) } else { None })]", "i16", "i16", "even", None, ["8", "-2", "3"]),
    "from": ("#[sscanf(from = u8)]", "u64", "u8", None, None, ["7", "300"]),
    "try": ("#[sscanf(try_from = i16)]", "u8", "i16", "u8", None, ["7", "-1", "256"]),
    "opt": ("#[sscanf(map = |v| Some(v))]".replace("|v|", "|v: char|"), "Option<char>", "char", "some", None, ["c", "1"]),
    "mstr": ("#[sscanf(map = |s: &str| s.chars().count())]", "usize", "str", "strlen", None, ["abc", "é"]),
    "enum": ("", "E", "@E", None, None, ["a", "b5", "b300", "1c2"]),
    "own": ("", "String", "str", None, None, ["xy", "1"]),
    "cow": ("", "std::borrow::Cow<'a, str>", "str", None, None, ["x"]),
    "nodef": ("#[sscanf(default = NoDefault(vec![1, 2]))]", "NoDefault", None, None, "NoDefault([1, 2])", None),
    "into": ("#[sscanf(from = &str)]", "String", "str", None, None, ["q", "12"]),
    "fstr": ("#[sscanf(filter_map = |s: &'a str| if s.len() % 2 == 0 { Some(s) } else { None })]", "&'a str", "str", "evenlen", None, ["ab", "a"]),
}
PRE = CODE + "\n#[derive(Debug)] pub struct NoDefault(pub Vec<u8>);"


def bind(names, defaults, tokens):
    """names: how the fields may be named; tokens: placeholder names, "" for empty ones.
    Returns the field of each placeholder, or a reason why that is an error."""
    taken = set(defaults)
    out = [None] * len(tokens)
    for k, t in enumerate(tokens):
        if t == "":
            continue
        if t not in names:
            return "no such field"
        f = names.index(t)
        if f in taken:
            return "two sources for a field"
        taken.add(f)
        out[k] = f
    rest = [f for f in range(len(names)) if f not in taken]
    for k, t in enumerate(tokens):
        if t == "":
            if not rest:
                return "too many placeholders"
            out[k] = rest.pop(0)
    if rest:
        return "a field without source"
    return out


def decl(name, named, names, fields, fmt, life=False, attrs=""):
    body = ", ".join(f"{a} {n}: {t}" if named else f"{a} {t}" for n, (a, t) in zip(names, fields))
    g = "<'a>" if life else ""
    return DER + attrs + (f"#[sscanf(format = {fmt})] " if fmt else "") + (f"pub struct {name}{g} {{ {body} }}" if named else f"pub struct {name}{g}({body});")


def main(ck):
    S, progs = Sites(), []

    def accept(name, d, node, specs, life=False, alone=False):
        S.add(f'res(sscanf::sscanf!(i, "{{{name}}}"))', [ph(node)], specs, decl=d, deep=True, src=d.replace(DER, ""))
        if alone:
            t = name + ("<'_>" if life else "")
            S.add(f"res(<{t} as sscanf::FromScanf>::from_str(i))", [ph(node)], specs, decl=d, deep=True, src="from_str: " + d.replace(DER, ""))

    # A: every sequence of placeholder names
    for n in range(0, 4):
        for named in (True, False):
            names = ["a", "b", "c"][:n] if named else ["0", "1", "2"][:n]
            toks = [""] + names + ["d" if named else "3"]
            for nd in range(2 ** n):
                defaults = [f for f in range(n) if nd >> f & 1]
                for ln in range(0, n + 2):
                    if ln > 3 and len(defaults) > 1 and not ck.thorough:
                        continue
                    for seq in itertools.product(toks, repeat=ln):
                        b = bind(names, defaults, list(seq))
                        fields = [("#[sscanf(default = 77)]" if f in defaults else "", "u8") for f in range(n)]
                        fmt = "".join("{%s};" % t for t in seq)
                        d = decl("S", named, names, fields, rs(fmt))
                        if isinstance(b, str):
                            progs.append({"code": d, "src": d.replace(DER, ""), "accept": False, "why": b})
                            continue
                        for types in ([["u8"] * 3] + ([["u8", "char", "String"], ["String", "i8", "bool"]] if n > 1 else [])):
                            const = {"u8": "77", "i8": "77", "char": "'d'", "String": '"d"', "bool": "true"}
                            dexp = {"u8": "77", "i8": "77", "char": "'d'", "String": "String::from(\"d\")", "bool": "true"}
                            fields = [(f"#[sscanf(default = {dexp[types[f]]})]" if f in defaults else "", types[f]) for f in range(n)]
                            pieces = {"u8": ["1", "20"], "i8": ["-1", "20"], "char": ["x", "1"], "String": ["s", "1"], "bool": ["true"]}
                            d = decl("S", named, names, fields, rs(fmt))
                            items, prod = [], []
                            for k, f in enumerate(b):
                                items += [ph(types[f]), ";"]
                                prod += [[p + (str(k) if types[f] == "u8" else "") for p in pieces[types[f]]], [";"]]
                            node = st(items, "S", "named" if named else "tuple",
                                      *[fld(names[f], None if f in defaults else b.index(f), None, const[types[f]] if f in defaults else None) for f in range(n)])
                            if n == 0:
                                node["kind"] = "unit"
                            accept("S", d, node, [{"product": prod, "edits": ";1"}], alone=len(seq) < 2)
    # fields with raw identifiers are named by their name
    for n in range(1, 4):
        src, names = ["r#type", "r#fn", "c"][:n], ["type", "fn", "c"][:n]
        toks = [""] + names + ["struct"]
        for nd in range(2 ** n):
            defaults = [f for f in range(n) if nd >> f & 1]
            for ln in range(0, n + 1):
                for seq in itertools.product(toks, repeat=ln):
                    b = bind(names, defaults, list(seq))
                    fields = [("#[sscanf(default = 77)]" if f in defaults else "", "u8") for f in range(n)]
                    for kind in ("struct", "enum"):
                        d = decl("S", True, src, fields, rs("".join("{%s};" % t for t in seq)))
                        node = None if isinstance(b, str) else st(sum([[ph("u8"), ";"] for _ in b], []), "S", "named", *[fld(names[f], None if f in defaults else b.index(f), None, "77" if f in defaults else None) for f in range(n)])
                        if kind == "enum":
                            body = ", ".join(f"{a} {x}: {t}" for x, (a, t) in zip(src, fields))
                            d = DER + "pub enum S { #[sscanf(\"x\")] W, #[sscanf(" + rs("".join("{%s};" % t for t in seq)) + ")] r#V { " + body + " } }"
                            node = node and {"name": "S", "enum": [st(["x"], "W", "unit"), dict(node, name="V")]}
                        if node is None:
                            progs.append({"code": d, "src": d.replace(DER, ""), "accept": False, "why": b})
                        else:
                            accept("S", d, node, [{"product": sum([[["1", f"2{k}"], [";"]] for k in range(ln)], []), "edits": ";1"}], alone=ln < 2)
    # options on the placeholders of a struct
    RX = {"re": rep({"s": [["1", "2"], ["a", "a"]]}), "conv": "u8"}
    for o1, o2 in itertools.product(["", ":x", ":/[12a]+/", ":#b", ":r3"], repeat=2):
        for t1, t2 in [("", ""), ("b", ""), ("b", "a"), ("", "a"), ("", "b"), ("a", "b")]:
            b = bind(["a", "b"], [], [t1, t2])
            if isinstance(b, str):
                continue
            node1 = lambda o: RX if "/" in o else "u8" + o
            d = decl("S", True, ["a", "b"], [("", "u8")] * 2, rs("{%s%s} {%s%s}" % (t1, o1, t2, o2)))
            node = st([ph(node1(o1)), " ", ph(node1(o2))], "S", "named", fld("a", b.index(0)), fld("b", b.index(1)))
            accept("S", d, node, [{"product": [["1", "2a", "0b1", "12"], [" "], ["1", "a", "0b11", "0x2"]], "edits": " 1"}])
    # B: every sequence of kinds of fields
    kinds = list(K)
    small = ["u8", "str", "dflt", "dexp", "map", "fmap", "from", "try", "enum"]

    def attrs_case(ks, named, order, fmtkind):
        n = len(ks)
        names = list("abcdefgh"[:n]) if named else [str(k) for k in range(n)]
        src = [f for f in order if K[ks[f]][2]]
        if fmtkind == "implicit":
            src = [f for f in range(n) if K[ks[f]][2]]
            toks = [""] * len(src)
        elif fmtkind == "mixed" and len(src) > 1:
            # the last placeholder's field is named, the others are empty
            last = src[0]
            src = [f for f in range(n) if K[ks[f]][2] and f != last] + [last]
            toks = [""] * (len(src) - 1) + [names[last]]
        else:
            toks = [names[f] for f in src]
        fields = [(K[k][0], K[k][1]) for k in ks]
        life = any("'a" in K[k][1] for k in ks)
        fmt = ":".join("{%s}" % t for t in toks)
        d = decl("S", named, names, fields, rs(fmt), life)
        items, prod = [], []
        for j, f in enumerate(src):
            items += ([":"] if j else []) + [ph(K[ks[f]][2])]
            prod += ([[":"]] if j else []) + [K[ks[f]][5]]
        node = st(items, "S", "named" if named else "tuple",
                  *[fld(names[f], src.index(f) if K[k][2] else None, K[k][3], K[k][4]) for f, k in enumerate(ks)])
        accept("S", d, node, [{"product": prod, "edits": "1" if n > 2 else "1:a"}], life, alone=n < 2)

    for n in (1, 2, 3):
        pool = kinds if n < 3 or ck.thorough else small
        for ks in itertools.product(pool, repeat=n):
            if n == 1:
                variants = [(True, (0,), "named"), (False, (0,), "named"), (True, (0,), "implicit"), (False, (0,), "implicit")]
            elif n == 2:
                variants = [(True, (1, 0), "named"), (False, (1, 0), "named"), (True, (0, 1), "implicit"), (False, (0, 1), "mixed")]
            else:
                h = sum(kinds.index(k) * (i + 1) for i, k in enumerate(ks))
                perms = list(itertools.permutations(range(3)))
                variants = [(h % 2 == 0, perms[1 + h % 5], "named"), (h % 2 == 1, (h % 3, 0, 0), "mixed")]
                if ck.thorough:
                    variants += [(h % 2 == 1, p, "named") for p in perms] + [(True, (0, 1, 2), "implicit")]
            for named, order, kind in variants:
                if kind == "mixed":
                    # any field that has a placeholder may be the named one
                    order = [f for f in list(order) + list(range(n)) if K[ks[f]][2]]
                attrs_case(ks, named, order, kind)
    # C: every order of many fields
    for n in (4, 5) if not ck.thorough else (4, 5, 6):
        for p in itertools.permutations(range(n)):
            for named in (True, False):
                if n == 5 and not ck.thorough and named == (p[0] % 2 == 0):
                    continue
                names = [["x", "y", "u8", "str", "x1", "i"][k] for k in range(n)] if named else [str(k) for k in range(n)]
                d = decl("S", named, names, [("", "u8")] * n, rs(",".join("{%s}" % names[f] for f in p)))
                items = sum([[",", ph("u8")] for _ in p], [])[1:]
                node = st(items, "S", "named" if named else "tuple", *[fld(names[f], p.index(f)) for f in range(n)])
                accept("S", d, node, [{"list": [",".join(str(k + 1) for k in range(n)), ",".join(str(k * 7 + 100) for k in range(n)), ",".join(str(k * 60) for k in range(n)), ",".join(str(300 - k * 60) for k in range(n))]}])
    # long tuple structs: indices of two digits
    for n in (10, 11, 12, 15):
        for rot in range(n):
            p = [(k + rot) % n for k in range(n)]
            d = decl("S", False, [""] * n, [("", "u8")] * n, rs(",".join("{%d}" % f if (f + rot) % 3 or rot else "{}" for f in p) if rot else ",".join("{}" for f in p)))
            items = sum([[",", ph("u8")] for _ in p], [])[1:]
            node = st(items, "S", "tuple", *[fld(f, p.index(f)) for f in range(n)])
            accept("S", d, node, [{"list": [",".join(str(k + 1) for k in range(n)), ",".join(str(k + 1) for k in range(n - 1))]}])
    # more fields, named and not, in reverse and in steps
    for n in (16, 17, 20, 33, 65) if not ck.thorough else (16, 17, 18, 20, 31, 32, 33, 63, 64, 65, 66, 100, 130):
        for step in [s for s in (-1, 3, 7, n // 2 + 1) if __import__("math").gcd(s, n) == 1]:
            p = [(k * step + step // 2) % n for k in range(n)]
            for named in (True, False):
                names = [f"f{k * 11 % 97}x{k}" for k in range(n)] if named else [str(k) for k in range(n)]
                d = decl("S", named, names, [("", "u8")] * n, rs(",".join("{%s}" % names[f] for f in p)))
                items = sum([[",", ph("u8")] for _ in p], [])[1:]
                node = st(items, "S", "named" if named else "tuple", *[fld(names[f], p.index(f)) for f in range(n)])
                accept("S", d, node, [{"list": [",".join(str(k + 1) for k in range(n)), ",".join(str(255 - k) for k in range(n)), ",".join(str(k + 1) for k in range(n - 1))]}])
    # names that generated code or the format might confuse
    for names in [["src", "value"], ["n", "start_len"], ["catcher", "res"], ["f", "error"], ["u8", "String"], ["Self_", "REGEX"], ["x", "b"], ["é", "ñ"], ["r", "d"], ["default", "map"], ["remaining", "expected"], ["_a", "__"]]:
        for seq in (names, names[::-1], ["", names[0]], ["", ""], [names[1], ""]):
            b = bind(names, [], seq)
            fields = [("#[sscanf(map = |value: u8| { let src = value; let n = src; n as u32 + 1 })]", "u32"), ("", "u16")]
            d = decl("S", True, names, fields, rs("{%s} {%s}" % tuple(seq)))
            ty = ["u8", "u16"]
            node = st([ph(ty[b[0]]), " ", ph(ty[b[1]])], "S", "named", fld(names[0], b.index(0), "inc"), fld(names[1], b.index(1)))
            accept("S", d, node, [{"product": [["1", "255", "256", "65536"], [" "], ["3", "255", "256", "65536"]]}])
    # conversions that do not fit are errors, not guesses
    for f, why in [
        ("#[sscanf(default)] a: NoDefault", "no Default"), ("#[sscanf(default = \"x\")] a: u8", "wrong type"), ("#[sscanf(map = |x: u8| x)] a: u16", "wrong type"), ("#[sscanf(from = u16)] a: u8", "no From"),
        ("#[sscanf(try_from = char)] a: String", ""), ("#[sscanf(filter_map = |x: u8| x)] a: u8", "no Option"), ("a: NoDefault", "not FromScanf"), ("#[sscanf(map = |x: NoDefault| 1)] a: u8", "not FromScanf"),
    ]:
        fmt = '""' if "default" in f and "a: NoDefault" in f or "default =" in f else '"{a}"'
        d = DER + f"#[sscanf({fmt})] pub struct S {{ {f} }}"
        ok = f.startswith("#[sscanf(try_from = char)]")
        progs.append({"code": d, "src": d.replace(DER, ""), "accept": ok, "why": why})
    ck.log(len(S.sites), "sites", len(progs), "rejected")
    ck.check_verdicts(progs, prelude=PRE, per_shard=4000)
    ck.run_sites(S.sites, S.inputs, types=TYPES, prelude=PRE)
    return ck.finish(
        "Every sequence of placeholder names ({}, each field, an unknown one) for structs and tuple structs of up to three fields with every set of default "
        "fields: compile error exactly when a field is missing, doubled or unknown, else all values and near misses; every sequence of up to three fields out of 16 (9) kinds of "
        "field attributes; all orders of up to 5 (6) fields; structs of up to 65 (130) fields in several orders; names that collide with generated code.")
