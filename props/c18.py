"""C18: derive attributes mean what is documented, where documented; everything else is a compile error."""
import itertools
from lib.gen import Sites
from lib.dtypes import st, fld, ph, rep

D = "#[derive(Debug, sscanf::FromScanf)] "
PRE = """
pub fn seven() -> u8 { 7 } pub const SEVEN: u8 = 7; pub fn id(x: u8) -> u8 { x } pub trait Tr { type Out; } impl Tr for u8 { type Out = u8; }
#[derive(Debug)] pub struct Ge<T>(pub u8, pub std::marker::PhantomData<T>);
impl<T> std::str::FromStr for Ge<T> { type Err = std::num::ParseIntError; fn from_str(s: &str) -> Result<Self, Self::Err> { s.parse().map(|x| Ge(x, std::marker::PhantomData)) } }
impl<T> sscanf::RegexRepresentation for Ge<T> { const REGEX: &'static str = r"[0-9]+"; }
impl<T> From<Ge<T>> for u8 { fn from(g: Ge<T>) -> u8 { g.0 } }
pub mod ge { pub use super::Ge; }
"""
PRE = PRE.replace("super::Ge", "crate::pre::Ge")
# shape: (declaration after the attributes with %s for the body name, kind, field types)
SHAPES = {"unit": ("T;", "unit", []), "named0": ("T {}", "unit", []), "tuple0": ("T();", "unit", []), "tuple1": ("T(u8);", "tuple", ["u8"]),
          "named1": ("T { x: u8 }", "named", ["u8"]), "tuple2": ("T(u8, char);", "tuple", ["u8", "char"]), "named2": ("T { x: u8, y: char }", "named", ["u8", "char"])}
# values: (text, kind): what kind of thing it is
VALUES = [("", "none"), (' = "a+%P"', "str"), (' = r"a+%P"', "str"), (' = r#"a+%P"#', "str"), (" = 5", "expr"), (" = seven()", "expr"), (" = u8", "type"), (" = |x: u8| x", "map"), (" = |x: u8| Some(x)", "filter"),
          (" =", "bad"), ("()", "bad"), ('("a+%P")', "bad"), (' "a+%P"', "bad"), (": u8", "bad"), (" = b\"a+%P\"", "lit"), (" = c\"a\"", "lit"), (" = 'a'", "lit"), (" = 1.5", "lit"), (" = true", "lit"),
          (' = "a+%P" "b"', "bad"), (" = = 5", "bad"), (' == "a+%P"', "bad"), (" = |x| x", "cl"), (" = || 5", "cl"), (" = |a: u8, b: u8| a", "cl"), (" = |a: u8, b| a", "cl"), (" = id", "path")]
NAMES = ["format", "format_unescaped", "transparent", "skip", "autogen", "autogenerate", "default", "map", "filter_map", "from", "try_from"]
WRONG = ["formatt", "Format", "FORMAT", "form", "foo", "defaults", "Default", "filtermap", "filter-map", "tryfrom", "into", "regex", "auto_gen", "skipped", "sscanf", "a::b", "format.x", "5", "'a'", "b\"a\"", "1.5", "c\"a\"", "true", "|x: u8| x", "(format = \"a\")",
         "format =, ", ",", "format format", ";", "\"a\" + \"b\"", "format = \"a\"; "]
OMITTED = [('"a+%P"', "lit"), ('r"a+%P"', "rx"), ('r#"a+%P"#', "rx")]


def meaning(ctx, name, kind, nfields):
    """what an attribute at a struct or variant means: lit, rx, transparent, skip, or None if it is an error"""
    if name in ("format", "format_unescaped") and kind == "str":
        return "lit" if name == "format" else "rx"
    if name == "transparent" and kind == "none" and nfields == 1:
        return "transparent"
    if ctx == "variant" and name == "skip" and kind == "none":
        return "skip"
    return None


def item(mean, shape):
    """model of the struct or variant T"""
    _, kind, types = SHAPES[shape]
    fs = [fld(n, k) for k, n in enumerate("xy"[:len(types)] if kind == "named" else range(len(types)))]
    head = {"lit": ["a+"], "rx": [{"pat": rep({"l": "a"})}], "transparent": []}[mean]
    return st(head + [ph(t) for t in types], "T", kind, *fs)


def single(ctx):
    """every single attribute: (text, function of the number of fields -> meaning)"""
    for n in NAMES:
        for v, k in VALUES:
            yield n + v, (lambda nf, n=n, k=k: meaning(ctx, n, k, nf))
    for w in WRONG:
        yield w, lambda nf: None
        if w[0].isalpha() and w.isidentifier():
            yield w + ' = "a+%P"', lambda nf: None
    for o, m in OMITTED:
        yield o, lambda nf, m=m: m
        yield o + " = 5", lambda nf: None
        yield o + " " + o, lambda nf: None


def main(ck):
    progs, keys, S = [], set(), Sites()

    def add(code, accept, why="attributes"):
        if code not in keys:
            keys.add(code)
            progs.append({"code": code, "src": code.replace(D, ""), "accept": accept, "why": why})

    def site(decl, node):
        S.add("res(sscanf::sscanf!(i, \"<{T}>\"))", ["<", ph(node), ">"],
              [{"alpha": "a+7z", "max": 4, "pre": "<", "post": ">"}, {"product": [["<"], ["", "a", "aa", "a+", "z", "Z", "A"], ["", "7", "77", "377"], ["", "c", "+", ">"], [">"]]}],
              decl=decl, src=decl.replace(D, ""), may_be_empty=True)

    def host(ctx, attrs, shape):
        """declaration of T with these attributes"""
        body, kind, types = SHAPES[shape]
        P = "{}" * len(types)
        attrs = attrs.replace("%P", P)
        if ctx == "struct":
            return D + attrs + " pub struct " + body
        v = body.replace("T", "V", 1).rstrip(";")
        return D + f'pub enum T {{ #[sscanf("z")] Z, {attrs} {v}, #[sscanf("a")] Y }}'

    def node(ctx, mean, shape):
        if ctx == "struct":
            return item(mean, shape)
        vs = [st(["z"], "Z", "unit"), st(["a"], "Y", "unit")]
        if mean not in (None, "skip"):
            vs.insert(1, dict(item(mean, shape), name="V"))
        return {"name": "T", "enum": vs}

    # A: single attributes on structs and variants
    for ctx in ("struct", "variant"):
        for shape, (_, _, types) in SHAPES.items():
            for text, m in single(ctx):
                mean = m(len(types))
                decl = host(ctx, f"#[sscanf({text})]", shape)
                add(decl, mean is not None)
                if mean:
                    site(decl, node(ctx, mean, shape))
            # nothing, or nothing that counts
            for a in ["", "#[sscanf()]", "#[doc = \"a\"]", "#[allow(dead_code)]", "#[sscanf()] #[sscanf()]"]:
                decl = host(ctx, a, shape)
                add(decl, ctx == "variant", "no format")
                if ctx == "variant":
                    site(decl, node(ctx, None, shape))
            for a in ["#[sscanf]", '#[sscanf = "a+%P"]', '#[sscanf = 5]', "#[sscanf] #[sscanf(\"a+%P\")]", "#[sscanf(\"a+%P\")] #[sscanf]"]:
                add(host(ctx, a, shape), False)
            # what does not matter
            for text, mean in (('"a+%P"', "lit"), ('r"a+%P"', "rx"), ('format = "a+%P"', "lit"), ("transparent", "transparent"), ("skip", "skip")):
                if (mean == "skip" and ctx == "struct") or (mean == "transparent" and len(types) != 1):
                    continue
                for w in ["#[sscanf(%s,)]", "#[sscanf( %s , )]", "#[sscanf()] #[sscanf(%s)]", "#[sscanf(%s)] #[sscanf()]", "#[doc = \"{x}\"] #[sscanf(%s)] #[allow(dead_code)]", "#[cfg_attr(all(), sscanf(%s))]", "#[cfg_attr(any(), sscanf)] #[sscanf(%s)]"]:
                    decl = host(ctx, w.replace("%s", text), shape)
                    add(decl, True)
                    site(decl, node(ctx, mean, shape))
                for w in ["#[sscanf(,%s)]", "#[sscanf(%s,,)]", "#[sscanf((%s))]", "#[sscanf(%s;)]"]:
                    add(host(ctx, w.replace("%s", text), shape), False)
    # B: pairs (thorough: triples): never two
    pool = {"struct": ['"a+%P"', 'r"a+%P"', 'format = "a+%P"', 'format_unescaped = "a+%P"', "transparent", "skip", 'autogen = "snake_case"', "autogen", "default", "default = 5", "map = |x: u8| x", "from = u8", "foo", "format", "sscanf"],
            "enum": ["autogen", "autogenerate", 'autogen = "snake_case"', 'autogenerate = "UPPERCASE"', 'autogen = "CaseSensitive"', '"a"', 'r"a"', 'format = "a"', "skip", "transparent", "default", "from = u8", "foo", "autogen = \"foo\""],
            "field": ["default", "default = 5", "map = |x: u8| x", "filter_map = |x: u8| Some(x)", "from = u8", "try_from = u8", '"a"', 'r"a"', 'format = "{}"', "skip", "autogen", "transparent", "foo", "map", "from"]}
    pool["variant"] = pool["struct"]

    def lists(texts):
        """the attributes over one or more lists"""
        yield "#[sscanf(" + ", ".join(texts) + ")]"
        yield " ".join(f"#[sscanf({t})]" for t in texts)
        if len(texts) > 2:
            yield f"#[sscanf({texts[0]}, {texts[1]})] #[sscanf({texts[2]})]"
            yield f"#[sscanf({texts[0]})] #[sscanf({texts[1]}, {texts[2]})]"

    FIELD = {"ts": 'pub struct T(%A u8);', "ns": "pub struct T { %A x: u8 }", "tv": "pub enum T { %F V(%A u8) }", "nv": "pub enum T { %F V { %A x: u8 } }",
             "t2": "pub struct T(char, %A u8);", "n2": "pub struct T { %A x: u8, y: char }"}

    def fdecl(shape, attrs, fmt):
        f = f'#[sscanf("{fmt}")]'
        b = FIELD[shape].replace("%A", attrs)
        return D + (b.replace("%F", f) if "%F" in b else f + " " + b)

    for n in (2, 3) if ck.thorough else (2,):
        for ctx in ("struct", "variant"):
            for shape in ("tuple1", "named1", "unit") if n == 2 else ("tuple1",):
                for texts in itertools.product(pool[ctx], repeat=n):
                    for a in lists(texts):
                        add(host(ctx, a, shape), False)
        for texts in itertools.product(pool["enum"], repeat=n):
            for a in lists(texts):
                add(D + a + " pub enum T { A, #[sscanf(\"b{}\")] B(u8) }", False)
        for shape in ("ts", "nv") if n == 2 else ("ts",):
            for texts in itertools.product(pool["field"], repeat=n):
                for a in lists(texts):
                    add(fdecl(shape, a, "a{}"), False)
    # C: single attributes on enums, and which variants that constructs
    CASES = ["CaseSensitive", "CaseInsensitive", "lower case", "UPPER CASE", "lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]
    en = " pub enum T { A, #[sscanf(\"b{}\")] B(u8) }"
    an = {"name": "T", "enum": [st(["A"], "A", "unit"), st(["b", ph("u8")], "B", "tuple", fld(0, 0))]}
    for n in NAMES:
        for v, k in VALUES:
            ok = n in ("autogen", "autogenerate") and k == "none"
            add(D + f"#[sscanf({n}{v})]".replace("%P", "") + en, ok)
            if ok:
                site(D + f"#[sscanf({n}{v})]" + en, an)
        for c in CASES + ["", "snake-case", "Snake_Case", "snake case", "SnakeCase", "kebab_case", "lower", "title", "Title Case", "TRAIN-CASE", "Train-Case", "screaming_snake_case", "UPPER", "case_sensitive ", " snake_case", "snake_case "]:
            for q in ('"%s"', 'r"%s"'):
                add(D + f"#[sscanf({n} = {q % c})]" + en, n in ("autogen", "autogenerate") and c in CASES if c not in ("case_sensitive ",) else None)
    for w in WRONG + [o for o, _ in OMITTED]:
        add(D + f"#[sscanf({w})]".replace("%P", "") + en, False)
    for a in ["#[sscanf]", '#[sscanf = "autogen"]']:
        add(D + a + en, False)
    VK = {"plain": ("{n}", None), "fmt": ('#[sscanf("{l}")] {n}', True), "tplain": ("{n}(u8)", None), "tfmt": ('#[sscanf("{l}{{}}")] {n}(u8)', True), "skip": ("#[sscanf(skip)] {n}", False), "tskip": ("#[sscanf(skip)] {n}(u8, String)", False),
          "trans": ("#[sscanf(transparent)] {n}(u8)", True), "trans0": ("#[sscanf(transparent)] {n}", "bad"), "trans2": ("#[sscanf(transparent)] {n}(u8, u8)", "bad"), "empty": ("#[sscanf()] {n}", None), "disc": ("{n} = 3", None)}
    for size in (0, 1, 2, 3):
        for kinds in itertools.product(VK, repeat=size):
            if size == 3 and not ck.thorough and not set(kinds) <= {"plain", "fmt", "tplain", "skip", "trans", "tskip"}:
                continue
            if "disc" in kinds and (size > 2 or any(k in ("tplain", "tfmt", "tskip", "trans", "trans2", "disc") for k in kinds if k != "disc") or kinds.count("disc") > 1):
                continue
            body = ", ".join(VK[k][0].format(n="ABC"[j], l="abc"[j]) for j, k in enumerate(kinds))
            for a in ["", "#[sscanf()]", "#[sscanf(autogen)]", '#[sscanf(autogenerate = "snake_case")]']:
                auto = "auto" in a
                vs, bad = [], size == 0
                for j, k in enumerate(kinds):
                    n, l = "ABC"[j], "abc"[j]
                    g = VK[k][1]
                    if g == "bad" or (g is None and auto and k == "tplain"):
                        bad = True
                    elif g is None and auto:
                        vs.append(st([l if "snake" in a else n], n, "unit"))
                    elif k == "fmt":
                        vs.append(st([l], n, "unit"))
                    elif k == "tfmt":
                        vs.append(st([l, ph("u8")], n, "tuple", fld(0, 0)))
                    elif k == "trans":
                        vs.append(st([ph("u8")], n, "tuple", fld(0, 0)))
                decl = D + a + f" pub enum T {{ {body} }}"
                ok = not bad and bool(vs)
                add(decl, ok, "variants")
                if ok and (size < 3 or ck.thorough or kinds[0] in ("skip", "tplain")):
                    S.add("res(sscanf::sscanf!(i, \"<{T}>\"))", ["<", ph({"name": "T", "enum": vs}), ">"],
                          [{"alpha": "abcABC1", "max": 2, "pre": "<", "post": ">"}], decl=decl, src=decl.replace(D, ""), may_be_empty=True)
    # D: single attributes on fields
    def fmean(name, v, k):
        """(model node, map) for a field in the format, constant for one outside; None: error"""
        if name == "default":
            if k == "none":
                return "const", "0"
            if k == "expr":
                return "const", v.split("=")[1].strip().replace("seven()", "7")
        if name in ("map", "filter_map") and k == ("map" if name == "map" else "filter"):
            return "ph", None
        if name in ("from", "try_from") and k == "type":
            return "ph", None
        return None
    extra = [(n, " = " + v, ok, None) for n, v, ok in [
        ("default", "{ 5 }", "const:5"), ("default", "SEVEN", "const:7"), ("default", "u8::MAX", "const:255"), ("default", "\"a\".len() as u8", "const:1"), ("default", "if true { 1 } else { 2 }", "const:1"), ("default", "Default::default()", "const:0"),
        ("default", "1 + 2 * 3", "const:7"), ("default", "(|| 5)()", "const:5"), ("default", "{ let x = [1u8, 2]; x[1] }", "const:2"), ("default", "match 5 { 5 => 1, _ => 2 }", "const:1"), ("default", "1 < 2", None), ("default", "300u16", None), ("default", "undefined", None), ("default", "loop { break 4 }", "const:4"),
        ("map", "|_: u8| 5", "k5"), ("map", "|x: u8| -> u8 { x }", "id"), ("map", "move |x: u8| x", "id"), ("map", "|mut x: u8| { x += 0; x }", "id"), ("map", "|x: u8| id(x)", "id"), ("map", "|x: u8,| x", "id"), ("map", "|x: std::primitive::u8| x", "id"), ("map", "|x: Ge<u8>| x.0", "ge"),
        ("map", "|x: u8| Some(x)", None), ("map", "|x: u8| 'c'", None), ("map", "|x: u8| x as u16", None), ("map", "|x: &u8| *x", None), ("map", "|x: (u8)| x.0", None), ("map", "|x: Nope| 5", None), ("map", "|| -> u8 { 5 }", None), ("map", "|x: u8, y: u8| x", None), ("map", "5", None), ("map", "u8::from", None), ("map", "\"|x: u8| x\"", None), ("map", "|x: u8|", None),
        ("filter_map", "|x: u8| if x > 5 { Some(x) } else { None }", "f5"), ("filter_map", "|x: u8| -> Option<u8> { Some(x) }", "id"), ("filter_map", "|x: u8| x", None), ("filter_map", "|x: u8| Ok::<u8, ()>(x)", None), ("filter_map", "|x| Some(x)", None), ("filter_map", "|| Some(5)", None), ("filter_map", "|x: u8, y: u8| Some(x)", None), ("filter_map", "Some", None),
        ("from", "Ge<u8>", "ge"), ("from", "ge::Ge<Vec<u8>>", "ge"), ("from", "crate::pre::Ge<(u8, char)>", "ge"), ("from", "std::primitive::u8", "id"), ("from", "::std::primitive::u8", "id"), ("from", "<u8 as Tr>::Out", "id"), ("from", "bool", "bool"), ("from", "Ge<u8>,", "ge"), ("from", "u16", None), ("from", "&u8", None), ("from", "(u8, u8)", None), ("from", "[u8; 2]", None),
        ("from", "Ge<u8> + 1", None), ("from", "u8 + 1", None), ("from", "Ge<", None), ("from", "fn(u8) -> u8", None), ("from", "!", None), ("from", "_", None), ("from", "impl Clone", None), ("from", "dyn Clone", None), ("from", "u8, u8", None), ("from", "Nope", None), ("from", "\"u8\"", None), ("from", "id", None),
        ("try_from", "Ge<u8>", "ge"), ("try_from", "i16", "i16"), ("try_from", "std::primitive::i16", "i16"), ("try_from", "u8", "id"), ("try_from", "&i16", None), ("try_from", "String", None), ("try_from", "|x: u8| x", None), ("try_from", "5", None), ("try_from", "Ge<u8>>", None),
    ]]
    node_of = {"id": ("u8", None), "k5": ("u8", "k5"), "f5": ("u8", "f5"), "ge": ({"re": rep({"s": [["0", "9"]]}), "conv": "u8"}, None), "bool": ("bool", "booln"), "i16": ("i16", "u8")}
    allf = []
    for n in NAMES:
        for v, k in VALUES:
            m = fmean(n, v.replace("%P", ""), k)
            allf.append((n + v.replace("%P", ""), m and (("const:" + m[1]) if m[0] == "const" else "id")))
    allf += [(n + v, m) for n, v, m, _ in extra]
    allf += [(w, None) for w in WRONG] + [(o.replace("%P", "{}"), None) for o, _ in OMITTED]
    spec = [{"product": [["<"], ["a"], ["", "7", "0", "5", "300", "-1", "true", "x"], ["", "c", "7", "b"], [">"]], "edits": "a7"}]
    for shape in FIELD:
        two = shape in ("t2", "n2")
        kind = "tuple" if shape[0] == "t" else "named"
        names = (["0", "1"] if two else ["0"]) if kind == "tuple" else (["x", "y"] if two else ["x"])
        me = "1" if shape == "t2" else names[0]
        for text, m in allf:
            for fmt, mentioned in [("a{}{}" if two else "a{}", True), ("a{}" if two else "a", False), ("a{%s}" % me + ("{}" if two else ""), True)]:
                if fmt == "a{}{}" and two:
                    order = names
                elif "{%s}" % me in fmt:
                    order = [me] + [n for n in names if n != me]
                else:
                    order = [n for n in names if n != me] if not mentioned else names
                if m is None:
                    ok = False
                elif m.startswith("const:"):
                    ok = not mentioned
                else:
                    ok = mentioned
                attrs = f"#[sscanf({text})]"
                decl = fdecl(shape, attrs, fmt)
                add(decl, ok)
                if not ok:
                    continue
                fields, phs = [], {}
                for n in names:
                    if n == me and m.startswith("const:"):
                        fields.append(fld(n, const=m[6:]))
                    else:
                        fields.append(fld(n, order.index(n), map=node_of[m][1] if n == me else None))
                        phs[n] = ph(node_of[m][0]) if n == me else ph("char")
                inner = st(["a"] + [phs[n] for n in order], "V" if shape[1] == "v" else "T", kind, *fields)
                nd = {"name": "T", "enum": [inner]} if shape[1] == "v" else inner
                S.add("res(sscanf::sscanf!(i, \"<{T}>\"))", ["<", ph(nd), ">"], spec, decl=decl, src=decl.replace(D, ""), may_be_empty=True)
        for a in ["", "#[sscanf()]", "#[sscanf()] #[doc = \"a\"]"]:
            for fmt, ok in [("a{}{}" if two else "a{}", True), ("a{}" if two else "a", False)]:
                add(fdecl(shape, a, fmt), ok)
        for a in ["#[sscanf]", "#[sscanf = 5]", "#[sscanf] #[sscanf(from = u8)]"]:
            add(fdecl(shape, a, "a{}{}" if two else "a{}"), False)
    # transparent: exactly one field, whatever the fields are marked with
    FA = ["", "#[sscanf()]", "#[sscanf(default)]", "#[sscanf(default = 5)]", "#[sscanf(map = |x: u8| x)]", "#[sscanf(filter_map = |x: u8| Some(x))]", "#[sscanf(from = u8)]", "#[sscanf(try_from = u8)]", "#[doc = \"a\"]"]
    for n in (2, 3):
        for fa in itertools.product(FA, repeat=n):
            if n == 3 and not ck.thorough and len(set(fa)) > 2:
                continue
            t = ", ".join(f"{a} u8" for a in fa)
            m = ", ".join(f"{a} {x}: u8" for x, a in zip("xyz", fa))
            for d in (f"#[sscanf(transparent)] pub struct T({t});", f"#[sscanf(transparent)] pub struct T {{ {m} }}", f"pub enum T {{ #[sscanf(transparent)] V({t}) }}", f"pub enum T {{ #[sscanf(\"z\")] Z, #[sscanf(transparent)] V {{ {m} }} }}"):
                add(D + d, False, "transparent with several fields")
    # E: other items
    for a in ["", '#[sscanf("a")]', '#[sscanf("{x}")]', "#[sscanf(transparent)]", "#[sscanf(autogen)]"]:
        add("#[derive(sscanf::FromScanf)] " + a + " pub union T { x: u8, y: i8 }", False, "union")
        add(D + a + " pub enum T {}", False, "no variants")
    ck.check_verdicts(progs, PRE, full=lambda j: j % 4 == 0 or ck.thorough)
    ck.run_sites(S.sites, S.inputs, prelude=PRE)
    return ck.finish(
        "Every single attribute (11 names x 27 value forms, 31 other tokens, omitted names with plain and raw literals) on 7 struct shapes, 7 variant shapes, enums and 6 field positions (mentioned in the format or not), "
        "78 further field values (closures, types, expressions); every ordered pair (thorough: triple) of 15 attributes in one list or several on structs, variants, enums and fields; empty lists, foreign attributes, cfg_attr, commas; "
        "every enum of up to three variants out of 11 kinds with and without autogen; unions. Accepted exactly where the documentation allows it, and the accepted ones compared with the model at run time.")
