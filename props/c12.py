"""C12: a derived enum yields the first declared variant that matches."""
import itertools
from lib.core import rs, raw
from lib.gen import Sites
from lib.dtypes import st, fld, ph, rep, D09, DER, TYPES, CODE

# kinds of variants: attributes, fields, model node (None: never constructed); N is the name of the variant
V = {
    "a": ('#[sscanf("a")]', "", (["a"], "unit")),
    "ab": ('#[sscanf(format = "ab")]', "", (["ab"], "unit")),
    "empty": ('#[sscanf("")]', "", ([""], "unit")),
    "u8": ('#[sscanf("{}")]', "(u8)", ([ph("u8")], "tuple", fld(0, 0))),
    "au8": ('#[sscanf(format = "a{x}")]', "{ x: u8 }", (["a", ph("u8")], "named", fld("x", 0))),
    "str": ('#[sscanf("{}")]', "(String)", ([ph("str")], "tuple", fld(0, 0))),
    "two": ('#[sscanf("{}b{}")]', "(char, u8)", ([ph("char"), "b", ph("u8")], "tuple", fld(0, 0), fld(1, 1))),
    "rev": ('#[sscanf("{y}{x}")]', "{ x: u8, y: char }", ([ph("char"), ph("u8")], "named", fld("x", 1), fld("y", 0))),
    "trans": ("#[sscanf(transparent)]", "(TE)", ([ph("@TE")], "tuple", fld(0, 0))),
    "fmap": ('#[sscanf("{v}")]', "{ #[sscanf(filter_map = |v: u8| if v % 2 == 0 { Some(v / 2) } else { None })] v: u8 }", ([ph("u8")], "named", fld("v", 0, "even"))),
    "dflt": ('#[sscanf("{}b")]', "(#[sscanf(default = 9)] u8, u8)", ([ph("u8"), "b"], "tuple", fld(0, None, None, "9"), fld(1, 0))),
    "nest": ('#[sscanf("{}{}")]', "(E, u8)", ([ph("@E"), ph("u8")], "tuple", fld(0, 0), fld(1, 1))),
    "hand": ('#[sscanf("{}")]', "(H)", ([ph("@H")], "tuple", fld(0, 0))),
    "rx": ('#[sscanf(format_unescaped = "[ab]+?{}|1{{2}}")]'.replace("|1{{2}}", ""), "(u8)", ([{"pat": rep({"s": [["a", "b"]]}, 1, None, False)}, ph("u8")], "tuple", fld(0, 0))),
    "skip": ("#[sscanf(skip)]", "(u8)", None),
    "none": ("", "{ a: String }", None),
    "unit": ("", "", None),
}
POOLS = {"quick": ["a", "ab", "u8", "au8", "str", "two", "trans", "fmap", "dflt", "nest", "none"]}


def variant(kind, name):
    attr, fields, m = V[kind]
    node = None
    if m:
        node = st(m[0], name, m[1], *m[2:])
    return f"{attr} {name}{fields}", node


def enum(name, kinds, life="", attrs=""):
    parts, nodes = [], []
    for k, kind in enumerate(kinds):
        src, node = variant(kind, f"V{k}")
        parts.append(src)
        if node:
            nodes.append(node)
    return f"{DER}{attrs}pub enum {name}{life} {{ {', '.join(parts)} }}", ({"name": name, "enum": nodes} if nodes else None)


def main(ck):
    S, progs = Sites(), []
    lens = {"list": ["", "a", "b", "1", "bc7", "1b5", "1,2", "1,200", "xc400", "b300", "a300", "2", "3", "256", "ab1", "abb12", "1ah", "2bch", "bc77", "b3", "a4", "1b256", "ab", "aab"]}
    alone = [{"alpha": "ab1", "max": 5 if ck.thorough else 4}, lens]
    inner = [{"product": [["<", "1"], ["", "a", "b", "1", "ab", "a1", "ab1", "1b1", "2", "256", "b3", "1,2", "bc7", "bc71", "1ah", "1b256", "aa"], ["8", "b", ">9"]], "edits": "1ab"}]

    def add(kinds, where):
        d, node = enum("T", kinds)
        if node is None:
            progs.append({"code": d, "src": d.replace(DER, ""), "accept": False, "why": "no variant can be constructed"})
            return
        src = d.replace(DER, "")
        if where == 0:
            S.add('res(sscanf::sscanf!(i, "{T}"))', [ph(node)], alone, decl=d, deep=True, src=src)
        elif where == 1:
            S.add('res(sscanf::sscanf!(i, "{char}{T}{String}"))', [ph("char"), ph(node), ph("str")], inner, decl=d, deep=True, src="{char}{T}{String} with " + src)
        elif where == 2:
            S.add("res(<T as sscanf::FromScanf>::from_str(i))", [ph(node)], alone, decl=d, deep=True, src="from_str: " + src)
        else:
            # inside another derived type, twice
            d2 = d + " " + DER + '#[sscanf("{b}{a};{c}")] pub struct S { pub a: T, pub b: u8, pub c: T }'
            n2 = st([ph("u8"), ph(node), ";", ph(node)], "S", "named", fld("a", 1), fld("b", 0), fld("c", 2))
            p = ["", "a", "1", "ab", "b1", "a3", "7b", "1,2", "bc7", "1b1", "1ah", "256"]
            S.add('res(sscanf::sscanf!(i, "{S}{u8}"))', [ph(n2), ph("u8")], [{"product": [["1", "25"], p, [";"], p, ["7"]]}], decl=d2, deep=True, src="{S}{u8} with " + src)

    every = list(V)
    for n in (1, 2):
        for kinds in itertools.product(every, repeat=n):
            h = every.index(kinds[0]) + every.index(kinds[-1])
            for w in (range(4) if n == 1 or ck.thorough else (h % 4, (h + 1) % 4)):
                add(kinds, w)
    pool = every if ck.thorough else POOLS["quick"]
    for j, kinds in enumerate(itertools.product(pool, repeat=3)):
        for w in (range(4) if ck.thorough else [(j + j // 11 + j // 121) % 4]):
            add(kinds, w)
    if ck.thorough:
        p4 = ["a", "au8", "str", "two", "trans", "nest", "hand", "none"]
        for j, kinds in enumerate(itertools.product(p4, repeat=4)):
            add(kinds, (j + j // 8 + j // 64) % 4)
    # all kinds in one enum, every rotation: the chosen variant has all the others before or after it
    for r in range(len(every)):
        for w in range(4):
            add(every[r:] + every[:r], w)
            add((every[r:] + every[:r])[::-1], w)
    # two enums next to each other
    for a, b in itertools.product(["a", "u8", "au8", "two", "trans", "nest", "none"], repeat=2):
        if a == b == "none":
            continue
        d1, n1 = enum("T", [a, "ab", b])
        d2, n2 = enum("R", [b, "u8", a])
        S.add('res(sscanf::sscanf!(i, "{T}{R}{u8}{T}"))', [ph(n1), ph(n2), ph("u8"), ph(n1)],
              [{"product": [["a", "ab", "a1", "b1", "1b1"], ["1", "a", "25", "bc7"], ["3", ""], ["a", "ab", "12", "1,2"]]}], decl=d1 + " " + d2, deep=True)
    # borrowing, generic and otherwise adorned enums
    for d, node, r in [
        ("pub enum T<'x> { #[sscanf(\"a{}\")] A(&'x str), #[sscanf(\"{s}b{c}\")] B { c: std::borrow::Cow<'x, str>, s: &'x str }, C(&'x u8) }",
         {"name": "T", "enum": [st(["a", ph("str")], "A", "tuple", fld(0, 0)), st([ph("str"), "b", ph("str")], "B", "named", fld("c", 1), fld("s", 0))]}, "T"),
        ("#[repr(u8)] #[derive(Clone, Copy, PartialEq)] pub enum T { /** doc */ #[sscanf(\"a\")] A = 5, #[allow(dead_code)] B = 9, #[sscanf(\"b\")] #[doc = \"x\"] C = 1 }",
         {"name": "T", "enum": [st(["a"], "A", "unit"), st(["b"], "C", "unit")]}, "T"),
        ("pub enum T<A: Default + std::fmt::Debug, const K: usize> { #[sscanf(\"a{}\")] A(u8, #[sscanf(default)] A), #[sscanf(\"b{}\")] B(#[sscanf(map = |x: u8| [x; K])] [u8; K]) }",
         {"name": "T", "enum": [st(["a", ph("u8")], "A", "tuple", fld(0, 0), fld(1, None, None, '""')), st(["b", ph("u8")], "B", "tuple", fld(0, 0, "pair"))]}, "T<String, 2>"),
        ("pub enum T { #[sscanf(\"{0}\", )] A(u8,), #[sscanf()] #[sscanf(\"b\")] B {}, #[sscanf(\"c\")] C(), #[sscanf(\"d\",)] D, }",
         {"name": "T", "enum": [st([ph("u8")], "A", "tuple", fld(0, 0)), st(["b"], "B", "unit"), st(["c"], "C", "unit"), st(["d"], "D", "unit")]}, "T"),
    ]:
        d = DER + d
        S.add(f'res(sscanf::sscanf!(i, "{{{r}}}"))', [ph(node)], [{"alpha": "ab1cd", "max": 4}], decl=d, deep=True)
        S.add(f'res(sscanf::sscanf!(i, "{{}}{{}}", {r}, u8))', [ph(node), ph("u8")], [{"alpha": "ab1cd", "max": 4}], decl=d, deep=True)
    for d, why in [("pub enum T {}", "no variant"), ("pub enum T { A, B(u8) }", "no format"), ("pub enum T { #[sscanf(skip)] A }", "all skipped"), ("#[sscanf(autogen)] pub enum T { #[sscanf(skip)] A }", "all skipped"), ("#[sscanf()] pub enum T { A }", "no format"),
                   ("pub enum T { #[sscanf(\"{}\")] A }", "too many placeholders"), ("pub enum T { #[sscanf(\"a\")] A(u8) }", "field without source"), ("pub enum T { #[sscanf(transparent)] A }", "no field"), ("pub enum T { #[sscanf(transparent)] A(u8, u8) }", "two fields"),
                   ("pub enum T { #[sscanf(\"{x}\")] A { x: u8 }, #[sscanf(\"{x}\")] B { y: u8 } }", "unknown field"), ("pub enum T { #[sscanf(\"{x}{x}\")] A { x: u8 } }", "doubled field")]:
        progs.append({"code": DER + d, "src": d, "accept": False, "why": why})
    ck.check_verdicts(progs, prelude=CODE)
    ck.run_sites(S.sites, S.inputs, types=TYPES, prelude=CODE)
    return ck.finish(
        "Every sequence of up to two out of 17 kinds of variants (alone, between placeholders, by from_str, twice in a struct), of three out of 11 (17; thorough also four of 8), all kinds in one enum in every rotation, "
        "pairs of enums, generic and borrowing enums; every input up to length 4 (5) over a, b, 1 and samples that fit several variants.")
