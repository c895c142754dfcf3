"""C24: nothing depends on size (numbers of placeholders, types, fields, variants, levels; lengths of literals, names and inputs)."""
from lib.core import rs
from lib.gen import Sites, ret_of
from lib.dtypes import st, fld, ph, rep, cls, DER, TYPES, CODE

AUX = """
pub struct Tup(pub Vec<String>);
impl std::fmt::Debug for Tup { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "({})", self.0.join(", ")) } }
"""
# cycled: (type in a placeholder, model, Rust type, accepted, one that fails)
CYC = [("u8", "u8", "u8", "3", "300"), ("str", "str", "&str", "a-b", None), ("char", "char", "char", "é", None), ("i16", "i16", "i16", "-44", "99999"), ("bool", "bool", "bool", "true", None),
       ("P", "@P", "P", "1,2", "1,200"), ("String", "String", "String", "x y", None), ("HO", "@HO", "HO", "on", "o3"), ("u8:x", "u8:x", "u8", "0xfF", None), ("E", "@E", "E", "bc7", "b300"), ("f32", "f32", "f32", "1.5", None)]
STR = ph("str")


def main(ck):
    S = Sites()
    T = ck.thorough
    ns = list(range(1, 41 if not T else 80)) + [48, 63, 64, 65, 85, 86, 99, 100, 101, 127, 128, 129] + ([180, 200, 255, 256, 257, 300, 512] if T else [255, 256, 257])

    def cyc(n, rot=0, plain=False):
        c = [x for x in CYC if ":" not in x[0]] if plain else CYC
        return [c[(k + rot) % len(c)] for k in range(n)]

    def tup(macro, fmt, args, rets):
        """a tuple of any number: Debug stops at twelve"""
        n = len(rets)
        call = f"sscanf::{macro}!(i, {fmt}{''.join(', ' + a for a in args)})"
        if n < 2:
            return f"res({call})"
        return f"let r: Result<{ret_of(rets)}, sscanf::Error> = {call}; res(r.map(|t| Tup(vec![{', '.join(f'format!(chr, t.{k})' for k in range(n)).replace('chr', chr(34) + '{:?}' + chr(34))}])))"

    def inputs(tys, sep=";"):
        """all accepted; each of some of them failing, missing or in excess"""
        ok = [t[3] for t in tys]
        n = len(ok)
        out = [sep.join(ok), sep.join(ok) + sep, sep + sep.join(ok), "", sep.join(ok[::-1])]
        for k in sorted({0, 1, n // 2, n - 2, n - 1} | ({j for j in range(n)} if n <= 24 else {10, 11, 12, n // 3})):
            if 0 <= k < n:
                out.append(sep.join(ok[:k] + ok[k + 1:]))
                out.append(sep.join(ok[:k] + ["", *ok[k + 1:]]))
                out.append(sep.join(ok[:k] + [ok[k], *ok[k:]]))
                if tys[k][4]:
                    out.append(sep.join(ok[:k] + [tys[k][4], *ok[k + 1:]]))
        return [{"list": out}]

    def items(tys):
        its = []
        for k, t in enumerate(tys):
            its += [";", ph(t[1])] if k else [ph(t[1])]
        return its
    for n in ns:
        tys = cyc(n, n)
        its, ins = items(tys), inputs(tys)
        rets = [t[2] for t in tys]
        fmt = ";".join("{" + t[0] + "}" for t in tys)
        S.add(tup("sscanf", rs(fmt), [], rets), its, ins, src=f"{n} placeholders with types", deep=True)
        # in the list, in order, by index reversed, each type used by several placeholders
        pl = cyc(n, n, True)
        its2, ins2, rets2 = items(pl), inputs(pl), [t[2] for t in pl]
        S.add(tup("sscanf", rs(";".join(["{}"] * n)), [t[0] for t in pl], rets2), its2, ins2, src=f"{n} listed types", deep=True)
        S.add(tup("sscanf_unescaped", rs(";".join("{%d}" % (n - 1 - k) for k in range(n))), [t[0] for t in pl[::-1]], rets2), its2, ins2, src=f"{n} listed types by index in reverse", deep=True)
        few = pl[:min(n, 10)]
        used = [few[(k * 7) % len(few)] for k in range(n)]
        idx = [(k * 7) % len(few) for k in range(n)]
        if set(idx) == set(range(len(few))):
            S.add(tup("sscanf", rs(";".join("{%d}" % k for k in idx)), [t[0] for t in few], [t[2] for t in used]), items(used), inputs(used), src=f"{n} placeholders for {len(few)} listed types", deep=True)
        # structs: tuple in order, named in reverse, indices, with defaults between
        fields = [t[2].replace("&str", "&'a str") for t in tys]
        lt = "<'a>" if "&str" in rets else ""
        S.add('res(sscanf::sscanf!(i, "{S}"))', [ph(st(its, "S", "tuple", *[fld(k, k) for k in range(n)]))], ins, deep=True, src=f"a tuple struct of {n} fields",
              decl=f'{DER}#[sscanf(format = {rs(";".join("{" + "".join(t[0].partition(":")[1:]) + "}" for t in tys))})] pub struct S{lt}({", ".join(fields)}); ')
        S.add("res(<S as sscanf::FromScanf>::from_str(i))", [ph(st(its, "S", "named", *[fld(f"f{k}", k) for k in range(n)][::-1]))], ins, deep=True, src=f"a struct of {n} fields in reverse",
              decl=f'{DER}#[sscanf(format = {rs(";".join("{f%d%s}" % (k, "".join(t[0].partition(":")[1:])) for k, t in enumerate(tys)))})] pub struct S{lt} {{ {", ".join([f"f{k}: {f}" for k, f in enumerate(fields)][::-1])} }} ')
        S.add('res(sscanf::sscanf!(i, "<{S}>"))', ["<", ph(st(its, "S", "tuple", *[x for k in range(n) for x in (fld(2 * k, const=str(k % 251)), fld(2 * k + 1, n - 1 - k))])), ">"],
              [{"list": ["<" + x + ">" for x in ins[0]["list"]]}], deep=True, src=f"a tuple struct of {n} fields by index, each behind a defaulted one",
              decl=f'{DER}#[sscanf(format = {rs(";".join("{%d%s}" % (2 * (n - 1 - k) + 1, "".join(t[0].partition(":")[1:])) for k, t in enumerate(tys)))})] pub struct S{lt}({", ".join(f"#[sscanf(default = {k % 251})] u8, {f}" for k, f in enumerate(fields[::-1]))}); ')
        # enums: a value in every variant
        var, nodes, lst = [], [], ["", "v", "v0", f"v{n}:1"]
        for k in range(n):
            t = tys[k]
            o = "".join(t[0].partition(":")[1:])
            kind = k % 3
            if kind == 0:
                var.append(f'#[sscanf(format = "v{k}:{{{o}}}")] V{k}({t[2]})'.replace("&str", "&'a str"))
                nodes.append(st([f"v{k}:", ph(t[1])], f"V{k}", "tuple", fld(0, 0)))
            elif kind == 1:
                var.append(f'#[sscanf(format = "v{k}:{{y{o}}}/{{x}}")] V{k} {{ x: u8, y: {t[2]} }}'.replace("&str", "&'a str"))
                nodes.append(st([f"v{k}:", ph(t[1]), "/", ph("u8")], f"V{k}", "named", fld("x", 1), fld("y", 0)))
            else:
                var.append(f'#[sscanf("v{k}:{t[3]}")] V{k}')
                nodes.append(st([f"v{k}:{t[3]}"], f"V{k}", "unit"))
            for x in (t[3], t[4] or "", t[3] + "/7", t[3] + "/700"):
                lst.append(f"v{k}:{x}")
        lt2 = "<'a>" if any("&'a" in v for v in var) else ""
        E = {"name": "V", "enum": nodes}
        S.add('res(sscanf::sscanf!(i, "{V}"))', [ph(E)], [{"list": lst}], decl=f"{DER}pub enum V{lt2} {{ {', '.join(var)} }} ", deep=True, src=f"an enum of {n} variants")
        S.add('res(sscanf::sscanf!(i, "{u8}-{V}-{V}-{u8}"))', [ph("u8"), "-", ph(E), "-", ph(E), "-", ph("u8")], [{"list": [f"1-{a}-{b}-2" for sh in (0, 1, 4, 12) for a, b in zip(lst, lst[sh:] + lst[:sh])]}], decl=f"{DER}pub enum V{lt2} {{ {', '.join(var)} }} ", deep=True, src=f"an enum of {n} variants twice")
        names = [f"V{k}x" for k in range(n)]
        S.add("res(<V as sscanf::FromScanf>::from_str(i))", [ph({"name": "V", "enum": [st([x.lower()], x, "unit") for x in names]})], [{"list": [x.lower() for x in names] + names + ["", "v", "vx"]}],
              decl=f'{DER}#[sscanf(autogen = "lowercase")] pub enum V {{ {", ".join(names)} }} ', deep=True, src=f"autogen of {n} variants")
    # levels of nesting: structs, enums, transparent ones, in turn
    for n in list(range(1, 17)) + [24, 32, 48] + ([64, 96] if T else []):
        decl, node = DER + '#[sscanf("{a}:{b}")] pub struct S0 { b: u8, a: char } ', st([ph("char"), ":", ph("u8")], "S0", "named", fld("b", 1), fld("a", 0))
        good, bad, off = "x:7", "x:300", "x7"
        for k in range(1, n + 1):
            p = f"S{k - 1}"
            if k % 3 == 1:
                decl += DER + f'#[sscanf("<{{}},{{}}>")] pub struct S{k}(u8, {p}); '
                node = st(["<", ph("u8"), ",", ph(node), ">"], f"S{k}", "tuple", fld(0, 0), fld(1, 1))
                good, bad, off = f"<{k},{good}>", f"<{k},{bad}>", f"<{k},{off}>"
            elif k % 3 == 2:
                decl += DER + f'pub enum S{k} {{ #[sscanf("({{}}")] A({p}, #[sscanf(default)] u8), #[sscanf("[{{0}}]")] B({p}) }} '
                node = {"name": f"S{k}", "enum": [st(["(", ph(node)], "A", "tuple", fld(0, 0), fld(1, const="0")), st(["[", ph(node), "]"], "B", "tuple", fld(0, 0))]}
                good, bad, off = f"[{good}]", f"[{bad}]", f"({off}]"
                if n > 11:      # the pattern doubles at each of these levels
                    decl = decl[:decl.rindex(DER)] + DER + f'pub enum S{k} {{ #[sscanf("()")] A, #[sscanf("[{{0}}]")] B({p}) }} '
                    node = {"name": f"S{k}", "enum": [st(["()"], "A", "unit"), {**node["enum"][1]}]}
            else:
                decl += DER + f"#[sscanf(transparent)] pub struct S{k} {{ t: {p} }} "
                node = st([ph(node)], f"S{k}", "named", fld("t", 0))
        lst = [good, bad, off, good + "x", "x" + good, good.replace("x", "é"), good.replace("7", "77")]
        S.add(f'res(sscanf::sscanf!(i, "{{S{n}}}"))', [ph(node)], [{"list": lst}], decl=decl, deep=True, src=f"{n} levels")
        S.add(f"res(<S{n} as sscanf::FromScanf>::from_str(i))", [ph(node)], [{"list": lst}], decl=decl, deep=True, src=f"{n} levels, from_str")
        S.add(f'res(sscanf::sscanf!(i, "{{u8}}{{S{n}}}{{S0}}"))', [ph("u8"), ph(node), ph(st([ph("char"), ":", ph("u8")], "S0", "named", fld("b", 1), fld("a", 0)))], [{"list": [f"1{x}y:8" for x in lst]}], decl=decl, deep=True, src=f"{n} levels between others")
    # lengths: of literals, names and custom regexes in the program
    for n in list(range(1, 34)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097] + ([20000] if T else []):
        for unit in ("a", "é", ".", "{", "ab("):
            lit = (unit * n)[:n]
            esc = lit.replace("{", "{{")
            lst = [lit + "7" + lit, lit + "300" + lit, lit + lit, lit[1:] + "7" + lit, lit + "7" + lit[1:], lit + "7" + lit + unit, lit + "7", "7" + lit, lit[:-1] + "x7" + lit]
            S.add(f"res(sscanf::sscanf!(i, {rs(esc + '{u8}' + esc)}))", [lit, ph("u8"), lit], [{"list": lst}], deep=True, src=f"literals of {n} characters ({unit})")
            if unit in "aé" and n < 300:
                lst = [lit, lit[:-1], lit + "a", "", lit.upper() if unit == "a" else lit[1:]]
                S.add(f"res(sscanf::sscanf!(i, {rs('{str:/' + lit + '/}')}))", [ph({"re": {"l": lit}, "conv": "str"})], [{"list": lst}], deep=True, src=f"a custom regex of {n} characters ({unit})")
        name = ("long_name" * n)[:n] + "q"
        S.add(f"res(<S as sscanf::FromScanf>::from_str(i))", [ph(st([ph("u8"), "-", ph("i8")], "S", "named", fld("z", 1), fld(name, 0)))], [{"list": ["1-2", "1-", "300-2", "3--4"]}], deep=True, src=f"a field name of {n + 1} characters",
              decl=f'{DER}#[sscanf("{{{name}}}-{{z}}")] pub struct S {{ z: i8, {name}: u8 }} ')
        tn = ("LongName" * n)[:n] + "Q"
        S.add(f'res(sscanf::sscanf!(i, "{{{tn}}}/{{}}", {tn}))', [ph(st(["s", ph("u8")], tn, "tuple", fld(0, 0))), "/", ph(st(["s", ph("u8")], tn, "tuple", fld(0, 0)))], [{"list": ["s1/s2", "s1/s300", "s300/s1", "s1/2"]}], deep=True, src=f"a type name of {n + 1} characters",
              decl=f'{DER}#[sscanf("s{{}}")] pub struct {tn}(u8); ')
        if n < 70:
            m = "".join(f"pub mod m{k} {{ " for k in range(n)) + DER.replace("sscanf::", "::sscanf::") + '#[sscanf("s{}")] pub struct D(pub u8); ' + "} " * n
            path = "::".join(f"m{k}" for k in range(n)) + "::D"
            S.add(f'res(sscanf::sscanf!(i, "{{{path}}},{{}}", {path}))', [ph(st(["s", ph("u8")], "D", "tuple", fld(0, 0))), ",", ph(st(["s", ph("u8")], "D", "tuple", fld(0, 0)))], [{"list": ["s1,s2", "s300,s2", "s1,s300", "s1,"]}], decl=m, deep=True, src=f"a path of {n + 1} segments")
    # lengths of inputs
    pieces = []
    for n in list(range(0, 20)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097] + [65535, 65536, 65537] + ([1 << 20] if T else []):
        pieces += [("a" * n), ("aé" * n)[:n], ("€" * n), ("a" * n + "-"), ("0" * n + "7"), "\U0001f600" * n]
    big = [p for p in pieces if len(p) > 5000]
    small = [p for p in pieces if len(p) <= 5000]
    for name, node, ret in (("str", "str", "&str"), ("String", "str", "String"), ("Cow<str>", "str", "Cow"), ("std::path::PathBuf", "PathBuf", "")):
        S.add(f'res(sscanf::sscanf!(i, "{{{name}}}"))'.replace("Cow<str>", "std::borrow::Cow<str>"), [ph(node)], [{"list": small + big}], src=f"long inputs for {name}")
        S.add(f'res(sscanf::sscanf!(i, "<{{{name}}}-{{u8}}>"))'.replace("Cow<str>", "std::borrow::Cow<str>"), ["<", ph(node), "-", ph("u8"), ">"], [{"list": [f"<{p}-{x}>" for p in small for x in ("7", "300")] + [f"<{p}-7>" for p in big]}], src=f"long inputs for {name}, then a number")
    S.add('res(sscanf::sscanf!(i, "{u8}-{str}"))', [ph("u8"), "-", STR], [{"list": [f"7-{p}" for p in pieces]}], src="a number, then long text")
    S.add('res(sscanf::sscanf!(i, "{str:/[a0]*/}{u8}"))', [ph({"re": rep(cls("a", "0"), 0), "conv": "str"}), ph("u8")], [{"list": [p + "7" for p in pieces]}], src="a long custom regex piece, then a number")
    S.add('res(sscanf::sscanf!(i, "{u8}"))', [ph("u8")], [{"list": pieces}], src="a number on long inputs", deep=True)
    S.add('res(sscanf::sscanf!(i, "{f64}"))', [ph("f64")], [{"list": [p for p in pieces if set(p) <= {"0", "7"}] + ["0." + p for p in pieces if set(p) <= {"0", "7"}] + ["1" * n + "e" + "0" * m + "1" for n in (1, 20, 400, 5000) for m in (0, 5, 40, 3000)]}], src="a float of many digits", deep=True)
    S.add('res(sscanf::sscanf!(i, "{i128:r2}"))', [ph("i128:r2")], [{"list": ["1" * n for n in range(1, 140)] + ["-1" + "0" * n for n in range(1, 140)]}], src="a number of many binary digits", deep=True)
    node = st(["(", STR, ")", STR], "S", "named", fld("a", 0), fld("b", 1))
    S.add('res(sscanf::sscanf!(i, "{S}"))', [ph(node)], [{"list": [f"({p}){q}" for p in small[::5] for q in ("a", "", p)] + [f"({p})b" for p in big]}], decl=f'{DER}#[sscanf("({{a}}){{b}}")] pub struct S<\'a> {{ a: &\'a str, b: std::borrow::Cow<\'a, str> }} ', src="long inputs for a struct")
    ck.run_sites(S.sites, S.inputs, types=TYPES, prelude=CODE + AUX)
    return ck.finish(
        f"Every number of placeholders, listed types (in order, by index in reverse, shared), struct fields (in order, reversed, by index between defaulted ones) and enum variants (three shapes, twice in a call, autogen) from 1 to {40 if not T else 79} and some up to {257 if not T else 512}, "
        "on inputs with all pieces right and with each of some failing, missing or doubled; 1 to 16 and some up to 48 (96) levels of nesting; literals, custom regexes, field, type and path names from 1 to 33 and some up to 4097 characters; "
        "pieces of 0 to 19 and some up to 65537 (1048576) characters of one to four bytes, numbers of up to 5000 digits.")
