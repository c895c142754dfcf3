"""C23: a derived generic type is parsed, at every instantiation, like the type written out."""
import zlib
from lib.gen import Sites
from lib.dtypes import st, fld, ph, rep, cls, DER, TYPES, CODE

AUX = """
pub fn mk<T: Default>() -> T { T::default() }
pub trait Tr { const D: u8; type A: Default + std::fmt::Debug; fn up(x: u8) -> Self::A; }
#[derive(Debug, Clone, Copy, Default, PartialEq)] pub struct Ti; #[derive(Debug, Clone, Copy, Default, PartialEq)] pub struct Tj;
impl Tr for Ti { const D: u8 = 3; type A = u16; fn up(x: u8) -> u16 { x as u16 + 1 } }
impl Tr for Tj { const D: u8 = 4; type A = Option<u8>; fn up(x: u8) -> Option<u8> { Some(x) } }
"""
# name -> Rust type, Debug of its default, map from u8, conversion of a piece (or what is not available)
INST = {
    "u8": ("u8", "0", None, "u8"), "u64": ("u64", "0", None, "u64"), "String": ("String", '""', False, "str"), "char": ("char", "'\\0'", "charof", "char"),
    "bool": ("bool", "false", False, "bool"), "opt": ("Option<u8>", "None", "some", False), "unit": ("()", "()", False, False), "vec": ("Vec<String>", "[]", False, False),
    "i128": ("std::primitive::i128", "0", None, "i128"), "nest": ("Box<Option<std::string::String>>", "None", False, False), "f32": ("f32", "0.0", False, "f32"),
}
NUM = rep(cls("09", "a"))
FS = ["{T}: std::str::FromStr + 'static", "<{T} as std::str::FromStr>::Err: std::error::Error"]


def slots():
    """name, attribute, type of the field, placeholder's option (None: no placeholder), bounds, instances: (Rust type, item or None, fld arguments)"""
    conv = [n for n, v in INST.items() if v[3]]
    fu8 = [n for n, v in INST.items() if v[2] is not False]
    rx = lambda n: ph({"re": NUM, "conv": INST[n][3]})
    nums = ["5", "a", "77a", "300"]
    yield "FromStr", "", "{T}", ":/[0-9a]+/", FS, [(INST[n][0], rx(n), {}) for n in conv], nums
    yield "FromScanf", "", "{T}", ":/[0-9a]+/", ["{T}: for<'x> sscanf::FromScanf<'x>"], [(INST[n][0], rx(n), {}) for n in conv], nums
    yield "default", "#[sscanf(default)] ", "{T}", None, ["{T}: Default"], [(v[0], None, {"const": v[1]}) for v in INST.values()], None
    yield "default expression", "#[sscanf(default = mk::<{T}>())] ", "{T}", None, ["{T}: Default"], [(v[0], None, {"const": v[1]}) for v in INST.values()], None
    u = ["0", "9", "65", "300"]
    yield "map", "#[sscanf(map = |x: u8| {T}::from(x))] ", "{T}", "", ["{T}: From<u8>"], [(INST[n][0], ph("u8"), {"map": INST[n][2]}) for n in fu8], u
    yield "filter_map", "#[sscanf(filter_map = |x: u8| if x > 5 { Some({T}::from(x)) } else { None })] ", "{T}", "", ["{T}: From<u8>"], [(INST[n][0], ph("u8"), {"map": "f5"}) for n in ("u8", "u64", "i128")], u
    yield "from", "#[sscanf(from = u8)] ", "{T}", "", ["{T}: From<u8>"], [(INST[n][0], ph("u8"), {"map": INST[n][2]}) for n in fu8], u
    yield "try_from", "#[sscanf(try_from = i16)] ", "{T}", "", ["{T}: TryFrom<i16>", "<{T} as TryFrom<i16>>::Error: std::error::Error + 'static"], [("u8", ph("i16"), {"map": "u8"}), ("i64", ph("i16"), {})], ["0", "-7", "300", "70000"]
    yield "map from the parameter", "#[sscanf(map = |x: {T}| Some(x))] ", "Option<{T}>", ":/[0-9a]+/", ["{T}: for<'x> sscanf::FromScanf<'x>"], [(INST[n][0], rx(n), {"map": "some"}) for n in conv], nums
    yield "PhantomData", "#[sscanf(default)] ", "std::marker::PhantomData<{T}>", None, [], [("u8", None, {"const": "PhantomData<u8>"}), ("()", None, {"const": "PhantomData<()>"}), ("[u8; 2]", None, {"const": "PhantomData<[u8; 2]>"}),
                                                                                          ("(u8, bool)", None, {"const": "PhantomData<(u8, bool)>"}), ("fn(u8) -> u8", None, {"const": "PhantomData<fn(u8) -> u8>"})], None
    yield "PhantomData of unsized", "#[sscanf(default)] ", "std::marker::PhantomData<{T}>", None, ["{T}: ?Sized"], [("str", None, {"const": "PhantomData<str>"}), ("[u8]", None, {"const": "PhantomData<[u8]>"}), ("u8", None, {"const": "PhantomData<u8>"})], None
    yield "Vec", "#[sscanf(default)] ", "Vec<{T}>", None, [], [("u8", None, {"const": "[]"}), ("Vec<std::primitive::bool>", None, {"const": "[]"})], None
    yield "associated type", "#[sscanf(default)] ", "{T}::A", None, ["{T}: Tr"], [("Ti", None, {"const": "0"}), ("Tj", None, {"const": "None"})], None
    yield "associated function", "#[sscanf(map = |x: u8| {T}::up(x))] ", "<{T} as Tr>::A", "", ["{T}: Tr"], [("Ti", ph("u8"), {"map": "inc"}), ("Tj", ph("u8"), {"map": "some"})], u
    yield "associated constant", "#[sscanf(default = ({T}::D, None))] ", "(u8, Option<{T}>)", None, ["{T}: Tr + std::fmt::Debug"], [("Ti", None, {"const": "(3, None)"}), ("Tj", None, {"const": "(4, None)"})], None
    yield "function pointer", "#[sscanf(default)] ", "Option<fn({T}) -> {T}>", None, [], [("u8", None, {"const": "None"}), ("String", None, {"const": "None"})], None


def forms(bounds, ty):
    """name, parameters with {X} for the extra ones, where clause, arguments, extra fields: (declaration, fld)"""
    inline = all(b.startswith("{T}: ") for b in bounds)
    unsized = "{T}: ?Sized" in bounds
    where = ", ".join(b for b in bounds)
    w = f" where {where}" if where and not unsized else ""
    own = "T: ?Sized" if unsized else "T"
    if inline:
        yield "inline bounds", "<T" + ("".join(": " * (k == 0) + " + " * (k > 0) + b[5:] for k, b in enumerate(bounds))) + ">", "", "<%s>", []
    yield "where clause", f"<{own}>", w + ("," if w else ""), "<%s>", []
    yield "trailing commas", f"<{own},>", w, "<%s,>", []
    yield "default type", f"<{own} = {ty}>", w, "", []
    yield "with a constant", f"<{own}, const K: usize>", w, "<%s, 3>", [("#[sscanf(default = [7; K])] {k}[u8; K]", fld("k", const="[7, 7, 7]"))]
    yield "with two constants in front", f"<const J: u8, const B: bool, {own}>", w, "<4, true, %s>", [("#[sscanf(default = (J, B))] {k}(u8, bool)", fld("k", const="(4, true)"))]
    yield "with a lifetime", f"<'a, {own}>", w, "<'_, %s>", [("{k}&'a str", "str")]
    yield "with a lifetime left out", f"<'a, {own}>", w, "<%s>", [("{k}&'a str", "str")]
    yield "with bounded lifetimes", f"<'a, 'b: 'a, {own}>", w + (", " if w else " where ") + "'b: 'a", "<'_, '_, %s>", [("{k}&'a str", "str"), ("#[sscanf(default = \"\")] {k}&'b str", fld("l", const='""'))]
    yield "with a lifetime beyond the input's", f"<'a, {own}>", w, "<'static, %s>", [("#[sscanf(default)] {k}Option<&'a str>", fld("k", const="None"))]
    yield "with a lifetime of the input's and one beyond", f"<'a, 'b: 'a, {own}>", w, "<'_, 'static, %s>", [("{k}&'a str", "str"), ("#[sscanf(default = &[1])] {k}&'b [u8]", fld("l", const="[1]"))]
    yield "with another type", f"<U, {own}>", w + (", " if w else " where ") + "U: Default + Into<u64>", "<u32, %s>", [("#[sscanf(default)] {k}U", fld("k", const="0"))]


def main(ck):
    S = Sites()
    for what, attr, fty, opt, bounds, insts, samples in slots():
        b = [x.replace("{T}", "T") for x in bounds]
        A, F = attr.replace("{T}", "T"), fty.replace("{T}", "T")
        for k, (ity, item, fk) in enumerate(insts):
            for form, params, where, args, extra in forms(bounds, ity):
                params, where = params.replace("{T}", "T"), where.replace("{T}", "T")
                spelled = "S" + (args % ity if "%s" in args else args)
                for host in ("named", "tuple", "enum", "enum tuple"):
                    named = host in ("named", "enum")
                    # the fields: d, then those of the form, then n
                    nm = lambda x: f"{x}: " if named else ""
                    decls, fmt, items, fields, prod = [A + nm("d") + F], "", [], [], []
                    if opt is not None:
                        fmt += "{d" + opt + "}" if named else "{" + opt + "}"
                        items.append(item)
                        fields.append(fld("d" if named else 0, 0, fk.get("map")))
                        prod.append(samples)
                    else:
                        fields.append(fld("d" if named else 0, const=fk["const"]))
                    for (d, f), x in zip(extra, "kl"):
                        decls.append(d.replace("{k}", nm(x)))
                        if f == "str":
                            fmt += "," + ("{k}" if named else "{}")
                            items += [",", ph("str")]
                            fields.append(fld("k" if named else len(fields), sum(isinstance(y, dict) and "ph" in y for y in items) - 1))
                            prod += [[","], ["a", "9-"]]
                        else:
                            f = dict(f)
                            f["name"] = f["name"] if named else str(len(fields))
                            fields.append(f)
                    decls.append(nm("n") + "u8")
                    fmt += "-" + ("{n}" if named else "{}")
                    items += ["-", ph("u8")]
                    fields.append(fld("n" if named else len(fields), sum(isinstance(y, dict) and "ph" in y for y in items) - 1))
                    prod += [["-"], ["7", "256"]]
                    # merge the literals that stand next to each other
                    its = []
                    for y in items:
                        if isinstance(y, str) and its and isinstance(its[-1], str):
                            its[-1] += y
                        else:
                            its.append(y)
                    body = "{ " + ", ".join(decls) + " }" if named else "(" + ", ".join(decls) + ")"
                    if host == "named":
                        decl = f'{DER}#[sscanf("{fmt}")] pub struct S{params}{where} {body} '
                    elif host == "tuple":
                        decl = f'{DER}#[sscanf("{fmt}")] pub struct S{params}{body}{where.rstrip(",") if where else ""}; '
                    else:
                        decl = f'{DER}pub enum S{params}{where} {{ #[sscanf("k{{}}")] K(u8), #[sscanf(skip)] X(Option<std::marker::PhantomData<T>>), #[sscanf("{fmt}")] V{body}, #[sscanf("k")] Z }} '
                    node = st(its, "S", "named" if named else "tuple", *fields)
                    if host.startswith("enum"):
                        node = {"name": "S", "enum": [st(["k", ph("u8")], "K", "tuple", fld(0, 0)), {**node, "name": "V"}, st(["k"], "Z", "unit")]}
                    alone = [{"product": prod, "edits": "9-"}] + ([{"list": ["k", "k7", "k300"]}] if host.startswith("enum") else [])
                    two = [{"product": [["1", "x"], ["/"]] + prod + [["/"], ["2"]]}]
                    lt = "'_" in args or "left out" in form
                    src = f"{what}, {form}, {host}: "

                    def add(code, its, specs, more="", note=""):
                        S.add(code, its, specs, decl=decl + more, deep=True, src=f"{src}{decl.replace(DER, '')}{more.replace(DER, '')}{code}")
                    add(f'res(sscanf::sscanf!(i, "{{{spelled}}}"))', [ph(node)], alone)
                    # all the ways to use it for some of the declarations
                    if not ck.thorough and zlib.crc32((src + ity).encode()) % 5:
                        continue
                    add(f'res(sscanf::sscanf!(i, "{{}}", {spelled}))', [ph(node)], alone)
                    add(f'res(sscanf::sscanf!(i, "{{u8}}/{{{spelled}}}/{{u8}}"))', [ph("u8"), "/", ph(node), "/", ph("u8")], two)
                    add(f"res(<{spelled} as sscanf::FromScanf>::from_str(i))", [ph(node)], alone)
                    al = spelled.replace("'_", "'x") if "'_" in spelled else ("S<'x, " + spelled[2:] if lt else spelled)
                    if lt:
                        add('res(sscanf::sscanf!(i, "{Al}"))', [ph(node)], alone, f"pub type Al<'x> = {al}; ")
                    else:
                        add('res(sscanf::sscanf!(i, "{Al}"))', [ph(node)], alone, f"pub type Al = {spelled}; ")
                        inner = st(["<", ph("u8"), "/", ph(node), ">"], "W", "tuple", fld(0, 1), fld(1, 0))
                        add('res(sscanf::sscanf!(i, "{W}"))', [ph(inner)], [{"product": [["<"], ["1"], ["/"]] + prod + [[">"]]}], f'{DER}#[sscanf("<{{1}}/{{0}}>")] pub struct W({spelled}, u8); ')
                        # two instantiations in one call and in one type
                        ity2, item2, fk2 = insts[(k + 1) % len(insts)]
                        if args and ity2 != ity:
                            f2 = [dict(x) for x in fields]
                            f2[0].pop("map", None)
                            f2[0].update({x: y for x, y in fk2.items() if y is not None})
                            i2 = [item2 if opt is not None and x is its[0] else x for x in its]
                            node2 = st(i2, "S", "named" if named else "tuple", *f2)
                            if host.startswith("enum"):
                                node2 = {"name": "S", "enum": [node["enum"][0], {**node2, "name": "V"}, node["enum"][2]]}
                            sp2 = "S" + args % ity2
                            add(f'res(sscanf::sscanf!(i, "{{{spelled}}}/{{{sp2}}}"))', [ph(node), "/", ph(node2)], [{"product": prod + [["/"]] + prod}])
                            both = st([ph(node2), "/", ph(node)], "W", "named", fld("a", 1), fld("b", 0))
                            add('res(<W as sscanf::FromScanf>::from_str(i))', [ph(both)], [{"product": prod + [["/"]] + prod}], f'{DER}#[sscanf("{{b}}/{{a}}")] pub struct W {{ a: {spelled}, b: {sp2} }} ')
    ck.run_sites(S.sites, S.inputs, types=TYPES, prelude=CODE + AUX)
    return ck.finish(
        "Derived structs (named, tuple) and enums with a type parameter that is parsed (FromStr or FromScanf bound), defaulted, mapped, filtered, converted, wrapped, phantom (also unsized), projected to an associated type, constant or function; "
        "bounds inline, in a where clause, defaulted, with trailing commas, next to const, lifetime and other type parameters; 2 to 11 instantiations each; as placeholder, in the list, between others, by from_str, through an alias, "
        "inside another derived type, two instantiations in one call and in one type. Oracle: the model of the type with the argument written out.")
