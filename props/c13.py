"""C13: nested types take exactly their own captures, wherever they stand."""
import itertools
from lib.core import rs, raw
from lib.gen import Sites, call, ret_of, esc
from lib.dtypes import POOL, st, fld, ph, DER, TYPES, CODE

PLAIN = {"u8": ("u8", "u8", ["3", "256"]), "str": ("&str", "str", ["q", "1"]), "char": ("char", "char", ["7", "a"]), "bool": ("bool", "bool", ["true"]),
         "f32": ("f32", "f32", ["1.5"])}


def info(t):
    """(type in a placeholder, type as written in Rust, model node, accepted pieces, failing pieces)"""
    if t in PLAIN:
        return t, PLAIN[t][0], PLAIN[t][1], PLAIN[t][2], []
    p = POOL[t]
    return p["ty"], p["ret"], "@" + t, p["pieces"], p["bad"]


def field_ty(t):
    """type of a field: borrowed ones are left out where the struct has no lifetime"""
    return info(t)[0]


def main(ck):
    S = Sites()
    owned = [t for t in POOL if t not in ("L", "C")]
    allt = list(POOL) + list(PLAIN)

    def fmt_site(tys, sep, npieces, edits, inline=True):
        f = sep.join("{%s}" % (info(t)[0] if inline else "") for t in tys)
        items, prod = [], []
        for k, t in enumerate(tys):
            ty, ret, node, good, bad = info(t)
            if k:
                items.append(sep)
                prod.append([sep])
            items.append(ph(node))
            prod.append(good[:npieces] + bad[:1])
        a = () if inline else [info(t)[0] for t in tys]
        S.add(call(rs(f), a, ret_of([info(t)[1] for t in tys]).replace("<'_>", "<'_>")), items, [{"product": prod, "edits": edits}], deep=True, src=f"sscanf!(input, {rs(f)})")

    # every pair, with and without a separator; every triple of a smaller pool
    for a, b in itertools.product(allt, repeat=2):
        for k, sep in enumerate(["", ";", "a"]):
            fmt_site([a, b], sep, 3, "1a;", inline=k != 1)
    three = ["U", "P", "E", "D", "N", "TE", "HO", "u8", "str"] if not ck.thorough else ["U", "P", "L", "E", "Z", "D", "N", "NN", "T", "TE", "X", "M", "H", "HO", "W", "u8", "str", "char"]
    for tys in itertools.product(three, repeat=3):
        fmt_site(list(tys), ";" if sum(map(ord, "".join(tys))) % 2 else "", 2, "1" if not ck.thorough else "1a;")
    if ck.thorough:
        for tys in itertools.product(["E", "D", "N", "HO", "u8"], repeat=4):
            fmt_site(list(tys), "/", 2, "1")
    # long formats: every type once, rotated, and each type many times
    for r in range(len(allt)):
        fmt_site((allt[r:] + allt[:r])[:12], "~", 1, "~1")
        fmt_site([allt[r]] * 5, "~", 1, "~1")
    # wrapped in a derived struct, the placeholders in another order than the fields, among plain placeholders
    wrapped = [t for t in owned + ["u8", "char"] if t != "G"]
    k = 0
    for a, b in itertools.product(wrapped, repeat=2):
        k += 1
        ia, ib = info(a), info(b)
        d = DER + '#[sscanf("{y}:{x}")] pub struct WR { pub x: %s, pub y: %s }' % (ia[0], ib[0])
        node = st([ph(ib[2]), ":", ph(ia[2])], "WR", "named", fld("x", 1), fld("y", 0))
        prod = [ib[3][:2] + ib[4][:1], [":"], ia[3][:2] + ia[4][:1]]
        S.add('res(sscanf::sscanf!(i, "{u8}|{WR}|{E}"))', [ph("u8"), "|", ph(node), "|", ph("@E")], [{"product": [["5"], ["|"]] + prod + [["|"], ["bc7", "a"]], "edits": "1:|" if k % 3 == 0 else "1"}], decl=d, deep=True,
              src="{u8}|{WR}|{E} with " + d.replace(DER, ""))
        # as variants of an enum, before and after each other
        d = DER + 'pub enum WE { #[sscanf("({}:{})")] A(%s, %s), #[sscanf("{z}={y}")] B { y: %s, z: %s }, #[sscanf("{}")] C(%s) }' % (ia[0], ib[0], ia[0], ib[0], ia[0])
        node = {"name": "WE", "enum": [st(["(", ph(ia[2]), ":", ph(ib[2]), ")"], "A", "tuple", fld(0, 0), fld(1, 1)),
                                       st([ph(ib[2]), "=", ph(ia[2])], "B", "named", fld("y", 1), fld("z", 0)), st([ph(ia[2])], "C", "tuple", fld(0, 0))]}
        A, B = ia[3][:2] + ia[4][:1], ib[3][:2] + ib[4][:1]
        specs = [{"product": [["", "("], A, ["", ":"], B, [")", "", "8"]]}, {"product": [B, ["="], A, ["", "1"]]}, {"product": [A, ["9", "", "a"]]}]
        S.add('res(sscanf::sscanf!(i, "{WE}{String}"))', [ph(node), ph("str")], specs, decl=d, deep=True, src="{WE}{String} with " + d.replace(DER, ""))
    # the same nested one to four levels deep
    for t in wrapped:
        ty, ret, node, good, bad = info(t)
        decls, cur, curty = "", node, ty
        for depth in range(1, 5):
            n = f"L{depth}"
            if depth % 2:
                decls += DER + f'#[sscanf("{{b}}{{a}}{{c}}")] pub struct {n} {{ pub a: {curty}, pub b: char, #[sscanf(default = {depth})] pub d: u8, pub c: E }} '
                cur = st([ph("char"), ph(cur), ph("@E")], n, "named", fld("a", 1), fld("b", 0), fld("d", None, None, str(depth)), fld("c", 2))
            else:
                decls += DER + f'pub enum {n} {{ #[sscanf("{{}}:{{}}")] A(E, {curty}), #[sscanf("{{}}{{}}")] B({curty}, u8), #[sscanf("!")] Z }} '
                cur = {"name": n, "enum": [st([ph("@E"), ":", ph(cur)], "A", "tuple", fld(0, 0), fld(1, 1)), st([ph(cur), ph("u8")], "B", "tuple", fld(0, 0), fld(1, 1)), st(["!"], "Z", "unit")]}
            curty = n
            prod = [good[:2] + bad[:1]]
            for k in range(1, depth + 1):
                prod = [["<"]] + prod + [["a", "bc7"]] if k % 2 else ([["", "a:"]] + prod + [["", "4"]])
            S.add(f'res(sscanf::sscanf!(i, "{{{n}}}{{u8}}"))', [ph(cur), ph("u8")], [{"product": prod + [["5", "x"]], "edits": "a"}], decl=decls, deep=True, src=f"{{{n}}}{{u8}} with " + decls.replace(DER, ""))
            S.add(f"res(<{n} as sscanf::FromScanf>::from_str(i))", [ph(cur)], [{"product": prod}], decl=decls, deep=True, src=f"from_str of {n}: " + decls.replace(DER, ""))
    ck.run_sites(S.sites, S.inputs, types=TYPES, prelude=CODE)
    return ck.finish(
        "Every pair out of 24 plain, derived, nested, hand-written (with their own and with optional groups) and FromStr types in three separations, every triple out of 9 (18; 5^4), "
        "rotations of 12 types, five times the same type; pairs wrapped in a struct and in an enum; every type nested one to four levels deep; all sample pieces with one-character edits.")
