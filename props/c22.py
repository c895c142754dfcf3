"""C22: a wrong number of captures is reported, never turned into a wrong value."""
from lib.core import MODES
from lib.gen import Sites
from lib.dtypes import st, fld, ph, rep, DER, TYPES, CODE

RE = {0: "op?", 1: "o(p)?", 2: "(o)((?:p))?", 3: "((o)(p)?)"}
PIECE = {"re": {"c": [{"l": "o"}, rep({"l": "p"}, 0, 1)]}, "conv": "Faulty"}
CUSTOM = {"re": {"c": [{"l": "o"}, rep({"l": "p"}, 0, 1)]}, "conv": "Faulty"}
BASE = "#[derive(Default)] pub struct K; impl std::fmt::Debug for K { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(\"Faulty\") } } impl sscanf::RegexRepresentation for K { const REGEX: &'static str = r\"%s\"; } "
HANDW = BASE + ("impl<'t> sscanf::FromScanf<'t> for K { type Err = std::convert::Infallible; const NUM_CAPTURES: usize = %d; "
                "fn from_matches(src: &mut sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> { for _ in 0..%d { src.next(); } Ok(K) } } ")
FROMSTR = BASE + "impl std::str::FromStr for K { type Err = std::num::ParseIntError; fn from_str(_: &str) -> Result<Self, Self::Err> { Ok(K) } } "


def contexts(ck):
    """(declarations, call, model items, captures behind K's own in the whole pattern, inputs, number of K in the pattern's own regex)"""
    K = ph(PIECE)
    o = ["o", "op"]

    def two(decl, ty, node, after, pieces, tag=""):
        """a derived type: by macro, followed by more, by from_str"""
        yield decl, f'res(sscanf::sscanf!(i, "{{{ty}}}"))', [ph(node)], after, [pieces]
        yield decl, f'res(sscanf::sscanf!(i, "{{u8}},{{{ty}}},{{u8}}"))', [ph("u8"), ",", ph(node), ",", ph("u8")], after + 1, [["1", "300"], [","], pieces, [","], ["2"]]
        yield decl, f"res(<{ty} as sscanf::FromScanf>::from_str(i))", [ph(node)], after, [pieces]

    for macro in ("sscanf", "sscanf_unescaped"):
        yield "", f'res(sscanf::{macro}!(i, "{{K}}"))', [K], 0, [o]
        yield "", f'res(sscanf::{macro}!(i, "{{}}{{u8}}", K))', [K, ph("u8")], 1, [o, ["7", "300"]]
    yield "", 'res(sscanf::sscanf!(i, "{u8}{K}"))', [ph("u8"), K], 0, [["7", "300"], o]
    yield "", 'res(sscanf::sscanf!(i, "{u8}:{K}:{str}"))', [ph("u8"), ":", K, ":", ph("str")], 1, [["7"], [":"], o, [":"], ["o", "7"]]
    yield "", 'res(sscanf::sscanf!(i, "{str}{K}{str}{str}"))', [ph("str"), K, ph("str"), ph("str")], 2, [["o", "7"], o, ["o", "pp"], ["p"]]
    yield "", 'res(sscanf::sscanf!(i, "{E}{K}{P}"))', [ph("@E"), K, ph("@P")], 3, [["a", "bc7", "b300"], o, ["1,2", "1,200"]]
    yield "", 'res(sscanf::sscanf!(i, "{N}{K}{HO}{T}"))', [ph("@N"), K, ph("@HO"), ph("@T")], 5, [["[a|1,2]"], o, ["o2", "on", "o3"], ["u5"]]
    yield "", 'res(sscanf::sscanf!(i, "{K}{u8}{K}"))', [K, ph("u8"), K], 2, [o, ["7", "300"], o]
    # in derived structs
    for decl, node, after in (
            (DER + '#[sscanf("{a}-{b}")] pub struct S { a: K, b: u8 } ', st([K, "-", ph("u8")], "S", "named", fld("a", 0), fld("b", 1)), 1),
            (DER + '#[sscanf("{a}-{b}")] pub struct S { b: u8, #[sscanf(default = 3)] d: u8, a: K } ', st([K, "-", ph("u8")], "S", "named", fld("b", 1), fld("d", None, None, "3"), fld("a", 0)), 1),
            (DER + '#[sscanf(r"{}-{}")] pub struct S(K, String); ', st([K, "-", ph("str")], "S", "tuple", fld(0, 0), fld(1, 1)), 1),
            (DER + '#[sscanf("{a}-{b}")] pub struct S { #[sscanf(map = |k: K| { k })] a: K, #[sscanf(from = u8)] b: u64 } ', st([K, "-", ph("u8")], "S", "named", fld("a", 0), fld("b", 1)), 1)):
        yield from two(decl, "S", node, after, ["o-7", "op-7", "o-300", "op-o"])
    yield from two(DER + '#[sscanf("{b}-{a}")] pub struct S { a: K, b: u8 } ', "S", st([ph("u8"), "-", K], "S", "named", fld("a", 1), fld("b", 0)), 0, ["7-o", "7-op", "300-o"])
    yield from two(DER + '#[sscanf(transparent)] pub struct S(K); ', "S", st([K], "S", "tuple", fld(0, 0)), 0, o)
    # in variants of enums: only the variant that matches takes its captures
    for ty, after in (("A", 6), ("B", 4), ("C", 0)):
        v = {"A": ("A(u8)", 'x{}', ph("u8")), "B": ("B(u8)", 'y{}', ph("u8")), "C": ("C(u8, u8)", "z{}{}", None)}
        variants, nodes = [], []
        for n in "ABC":
            if n == ty:
                variants.append(f'#[sscanf("k{{}}")] {n}(K)')
                nodes.append(st(["k", K], n, "tuple", fld(0, 0)))
            elif n == "C":
                variants.append('#[sscanf("z{}{}")] C(u8, char)')
                nodes.append(st(["z", ph("u8"), ph("char")], "C", "tuple", fld(0, 0), fld(1, 1)))
            else:
                variants.append(f'#[sscanf("{n.lower()}{{}}")] {n}(u8)')
                nodes.append(st([n.lower(), ph("u8")], n, "tuple", fld(0, 0)))
        behind = {"A": 2 + 3, "B": 3, "C": 0}[ty]
        yield from two(DER + "pub enum V { " + ", ".join(variants) + " } ", "V", {"name": "V", "enum": nodes}, behind, ["ko", "kop", "a7", "b7", "z7o", "a300"])
    # two faulty variants, a faulty one that is skipped, one that has no format, a defaulted field
    yield from two(DER + 'pub enum V { #[sscanf("k{}")] A(K), #[sscanf("{}k")] B(K), #[sscanf("{}")] C(u8) } ', "V",
                   {"name": "V", "enum": [st(["k", K], "A", "tuple", fld(0, 0)), st([K, "k"], "B", "tuple", fld(0, 0)), st([ph("u8")], "C", "tuple", fld(0, 0))]}, 2, ["ko", "opk", "7"])
    # deeper
    decl = DER + '#[sscanf("<{a}{b}>")] pub struct I { a: K, b: char } ' + DER + 'pub enum J { #[sscanf("{}{}")] A(u8, I), #[sscanf("{}")] B(I), #[sscanf("j")] C } '
    I = st(["<", K, ph("char"), ">"], "I", "named", fld("a", 0), fld("b", 1))
    J = {"name": "J", "enum": [st([ph("u8"), ph(I)], "A", "tuple", fld(0, 0), fld(1, 1)), st([ph(I)], "B", "tuple", fld(0, 0)), st(["j"], "C", "unit")]}
    yield from two(decl, "J", J, 1, ["7<oo>", "<opp>", "j", "<op>", "300<o7>"])
    decl += DER + '#[sscanf("{e}/{j}/{t}")] pub struct L { j: J, t: String, e: E } '
    L = st([ph("@E"), "/", ph(J), "/", ph("str")], "L", "named", fld("j", 1), fld("t", 2), fld("e", 0))
    yield from two(decl, "L", L, 2, ["a/<opp>/o", "bc7/7<o7>/p", "b300/j/x", "a/j/x"])


def main(ck):
    S = Sites()
    kinds = []
    for g in range(3 if not ck.thorough else 4):
        for c in range(0, g + 4):
            for t in range(0, c + 3) if c == g + 1 or ck.thorough else sorted({0, c, g + 1}):
                kinds.append((f"{g} groups, NUM_CAPTURES {c}, takes {t}", HANDW % (RE[g], c, t), g, c, t, True))
        kinds.append((f"FromStr, {g} groups", FROMSTR % RE[g], g, 1, 1, False))
    n = {"always": 0, "when taken": 0, "sound": 0}

    def add(kind, decl, code, items, after, prod, custom=False, only_always=False):
        what, kdecl, g, c, t, hand = kind
        always = c != (1 if custom else g + 1)
        if only_always and not always:
            return
        sound = not always and min(t, c + after) == c
        for mode in MODES:
            fault = None if sound else {"always": always, "strict": mode[1]}
            n["always" if always else "sound" if sound else "when taken"] += 1
            S.add(code + ("" if mode[1] else " "), items, [{"product": prod, "edits": "o" if not ck.thorough else "o7"}], decl=kdecl + decl, deep=True, fault=fault, mode=mode, one_mode=True,
                  src=f"{code.strip()} with {decl.replace(DER, '')}and K: {what}" + ("" if mode[1] else " (no debug assertions)"))

    K = ph(CUSTOM)
    for kind in kinds:
        for decl, code, items, after, prod in contexts(ck):
            add(kind, decl, code, items, after, prod)
        # with a regex option the pattern of the type is not used
        o = ["o", "op"]
        add(kind, "", 'res(sscanf::sscanf!(i, "{K:/op?/}"))', [K], 0, [o], custom=True)
        add(kind, "", 'res(sscanf::sscanf!(i, "{K:/op?/}{u8}"))', [K, ph("u8")], 1, [o, ["7", "300"]], custom=True)
        d = DER + '#[sscanf("{a:/op?/}{b}")] pub struct S { b: u8, a: K } '
        node = st([K, ph("u8")], "S", "named", fld("b", 1), fld("a", 0))
        add(kind, d, 'res(sscanf::sscanf!(i, "{S}{u8}"))', [ph(node), ph("u8")], 2, [o, ["7", "300"], ["7"]], custom=True)
        add(kind, d, "res(<S as sscanf::FromScanf>::from_str(i))", [ph(node)], 1, [o, ["7", "300"]], custom=True)
        # not part of the pattern
        d = DER + '#[sscanf("{}")] pub struct S(u8, #[sscanf(default)] K); '
        node = st([ph("u8")], "S", "tuple", fld(0, 0), fld(1, const="Faulty"))
        sound = (kind[0], kind[1], 0, 1, 1, kind[5])
        add(sound, d, 'res(sscanf::sscanf!(i, "{S}"))', [ph(node)], 0, [["7", "300"]])
        d = DER + 'pub enum S { #[sscanf(skip)] A(K), #[sscanf("{}")] B(u8), C(K) } '
        node = {"name": "S", "enum": [st([ph("u8")], "B", "tuple", fld(0, 0))]}
        add(sound, d, 'res(sscanf::sscanf!(i, "{S}"))', [ph(node)], 0, [["7", "300"]])
        add(sound, d, "res(<S as sscanf::FromScanf>::from_str(i))", [ph(node)], 0, [["7", "300"]])
        # the regex itself, and the type's own from_str
        add(kind, "", 'groups(&*sscanf::sscanf_get_regex!("{K}{u8}"), i, &[1], 0)', [ph(PIECE), ph("u8")], 1, [o, ["7"]], only_always=True)
        if kind[5]:
            add(kind, "", "res(<K as sscanf::FromScanf>::from_str(i))", [ph(PIECE)], 0, [o], only_always=True)
    ck.run_sites(S.sites, S.inputs, types=TYPES, prelude=CODE)
    ck.cov["calls that cannot succeed"] = n["always"]
    ck.cov["calls that cannot succeed where the type is taken"] = n["when taken"]
    ck.cov["calls that are sound"] = n["sound"]
    return ck.finish(
        "Hand-written types whose pattern has 0 to 2 (3) capture groups, which declare 0 to groups + 3 captures and take 0 to declared + 2, and FromStr types with groups in their pattern: alone, before, between and behind "
        "plain, derived, enum and hand-written types, twice, in structs (also mapped, reordered, transparent), in every variant of an enum, nested three deep, with regex options, by from_str, as the regex; as defaulted fields and "
        "in skipped variants, where nothing is wrong; with and without debug assertions.")
