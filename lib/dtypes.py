"""A pool of types with FromScanf: declarations for the programs and nodes for the model.
POOL[name] = (Rust declaration, model node, type in a placeholder, Rust type of the value, pieces)
Pieces: accepted first, then ones whose conversion fails, if there are any."""


def st(items, name, kind, *fields):
    return {"items": items, "name": name, "kind": kind, "fields": [dict(f) for f in fields]}


def fld(name, src=None, map=None, const=None):
    d = {"name": str(name)}
    if src is not None:
        d["src"] = src
    if map:
        d["map"] = map
    if const is not None:
        d["const"] = const
    return d


def ph(node):
    return {"ph": node}


def cls(*r):
    return {"s": [[x[0], x[-1]] for x in r]}


def rep(p, a=1, b=None, greedy=True):
    return {"r": [p, a, b, greedy]}


D09 = {"s": [["0", "9"]]}
NOXERR = ("#[derive(Debug)] pub struct NE(String); impl std::fmt::Display for NE { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result "
          "{ write!(f, \"x in {}\", self.0) } } impl std::error::Error for NE {} ")
HAND = ("#[derive(Debug)] pub struct %(n)s(%(f)s); impl sscanf::RegexRepresentation for %(n)s { const REGEX: &'static str = r\"%(re)s\"; } "
        "impl<'t> sscanf::FromScanf<'t> for %(n)s { type Err = %(err)s; const NUM_CAPTURES: usize = %(k)d; "
        "fn from_matches(src: &mut sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> { %(body)s } }")

POOL = {}


def add(name, decl, node, pieces, ty=None, ret=None, bad=()):
    POOL[name] = dict(decl=decl, node=node, pieces=pieces, bad=list(bad), ty=ty or name, ret=ret or ty or name)


DER = "#[derive(Debug, sscanf::FromScanf)] "
add("U", DER + '#[sscanf(format = "u{}")] pub struct U(pub u8);',
    st(["u", ph("u8")], "U", "tuple", fld(0, 0)), ["u7", "u42"], bad=["u300"])
add("P", DER + '#[sscanf("{b},{a}")] pub struct P { pub a: i8, pub b: u16 }',
    st([ph("u16"), ",", ph("i8")], "P", "named", fld("a", 1), fld("b", 0)), ["1,2", "33,-4"], bad=["70000,1", "1,200"])
add("L", DER + '#[sscanf(format = "<{}>")] pub struct L<\'a>(pub &\'a str);',
    st(["<", ph("str"), ">"], "L", "tuple", fld(0, 0)), ["<a>", "<u7>"], ret="L<'_>")
add("C", DER + '#[sscanf(format = "{s}={c}")] pub struct C<\'c> { pub c: std::borrow::Cow<\'c, str>, pub s: String }',
    st([ph("str"), "=", ph("str")], "C", "named", fld("c", 1), fld("s", 0)), ["a=b", "1=2"], ret="C<'_>")
add("E", DER + 'pub enum E { #[sscanf("a")] A, #[sscanf("b{}")] B(u8), #[sscanf("{y}c{x}")] C { x: u8, y: char }, N(u8), #[sscanf("b{}")] D(String) }',
    {"name": "E", "enum": [st(["a"], "A", "unit"), st(["b", ph("u8")], "B", "tuple", fld(0, 0)),
                           st([ph("char"), "c", ph("u8")], "C", "named", fld("x", 1), fld("y", 0)),
                           st(["b", ph("String")], "D", "tuple", fld(0, 0))]},
    ["a", "b3", "bcc", "bc7", "b-"], bad=["b300", "xc400"])
add("Z", DER + '#[sscanf("z")] pub struct Z;', st(["z"], "Z", "unit"), ["z"])
add("ZB", DER + '#[sscanf("y")] pub struct ZB {}', st(["y"], "ZB", "unit"), ["y"])
add("D", DER + '#[sscanf("d")] pub struct D { #[sscanf(default = 5)] pub x: u8, #[sscanf(default)] pub y: String }',
    st(["d"], "D", "named", fld("x", const="5"), fld("y", const='""')), ["d"])
add("N", DER + '#[sscanf("[{e}|{}]")] pub struct N { pub p: P, pub e: E }',
    st(["[", ph("@E"), "|", ph("@P"), "]"], "N", "named", fld("p", 1), fld("e", 0)), ["[a|1,2]", "[bc7|3,-4]", "[b|u|5,6]"],
    bad=["[b300|1,2]", "[a|1,200]"])
add("NN", DER + 'pub enum NN { #[sscanf("x{}{}")] X(E, U), #[sscanf("{1}{0}")] Y(U, P), #[sscanf("n")] W }',
    {"name": "NN", "enum": [st(["x", ph("@E"), ph("@U")], "X", "tuple", fld(0, 0), fld(1, 1)),
                            st([ph("@P"), ph("@U")], "Y", "tuple", fld(0, 1), fld(1, 0)), st(["n"], "W", "unit")]},
    ["xau7", "xbc7u8", "1,2u3", "n"], bad=["xau300", "1,200u3"])
add("T", DER + "#[sscanf(transparent)] pub struct T(pub U);", st([ph("@U")], "T", "tuple", fld(0, 0)), ["u5"], bad=["u256"])
add("TE", DER + "pub enum TE { #[sscanf(transparent)] A(P), #[sscanf(transparent)] B { v: E } }",
    {"name": "TE", "enum": [st([ph("@P")], "A", "tuple", fld(0, 0)), st([ph("@E")], "B", "named", fld("v", 0))]},
    ["1,2", "a", "bc7"], bad=["1,200", "b300"])
add("X", DER + '#[sscanf(format_unescaped = "(?:v|ww){}")] pub struct X(pub u8);',
    st([{"pat": {"a": [{"l": "v"}, {"l": "ww"}]}}, ph("u8")], "X", "tuple", fld(0, 0)), ["v1", "ww2"], bad=["v999"])
add("M", DER + '#[sscanf("{a};{b};{c};{d}")] pub struct M { #[sscanf(map = |v: u8| v as u32 + 1)] pub a: u32, #[sscanf(filter_map = |v: i16| if v % 2 == 0 { Some(v / 2) } else { None })] '
    'pub b: i16, #[sscanf(from = u8)] pub c: u64, #[sscanf(try_from = i16)] pub d: u8 }',
    st([ph("u8"), ";", ph("i16"), ";", ph("u8"), ";", ph("i16")], "M", "named", fld("a", 0, "inc"), fld("b", 1, "even"), fld("c", 2), fld("d", 3, "u8")),
    ["1;2;3;4"], bad=["1;3;3;4", "1;2;3;-4", "300;3;3;-4"])
add("H", HAND % dict(n="H", f="u8, char", re="([0-9])([a-c]+(h))", err="std::convert::Infallible", k=4,
                     body="src.next().unwrap().unwrap(); let a = src.next().unwrap().unwrap().as_str().parse().unwrap(); let b = src.next().unwrap().unwrap().as_str().chars().next().unwrap(); src.next().unwrap(); Ok(H(a, b))"),
    {"re": {"c": [D09, rep(cls("ac")), {"l": "h"}]}, "conv": "H"}, ["1ah", "2bch"])
add("HO", NOXERR.replace("NE", "HE").replace("x in ", "odd ") + HAND % dict(n="HO", f="Option<u8>, bool", re="o(?:([0-9])|(n))?", err="HE", k=3,
    body="src.next().unwrap().unwrap(); let a: Option<u8> = src.next().unwrap().map(|m| m.as_str().parse().unwrap()); let b = src.next().unwrap().is_some(); "
         "if a.is_some_and(|v| v % 2 == 1) { return Err(HE(a.unwrap().to_string())); } Ok(HO(a, b))"),
    {"re": {"c": [{"l": "o"}, {"r": [{"a": [D09, {"l": "n"}]}, 0, 1, True]}]}, "conv": "HO"}, ["o", "o2", "on"], bad=["o3"])
add("W", "#[derive(Debug)] pub struct NoX(String); " + NOXERR + "impl std::str::FromStr for NoX { type Err = NE; fn from_str(s: &str) -> Result<Self, NE> { if s.contains(|c| c == 'x' || c == 'X') { Err(NE(s.into())) } else { Ok(NoX(s.to_string())) } } } "
    "impl sscanf::RegexRepresentation for NoX { const REGEX: &'static str = \"[k-x]{2}\"; }",
    {"re": rep(cls("kx"), 2, 2), "conv": "NoX"}, ["kn", "vw"], ty="NoX", bad=["kx"])
add("G", DER + '#[sscanf("{k}#{v:/[0-9]+/}")] pub struct G<K, V = u8> where K: Default + std::fmt::Debug, V: std::str::FromStr + sscanf::RegexRepresentation + \'static, <V as std::str::FromStr>::Err: std::error::Error { '
    '#[sscanf(map = |s: u16| { let _ = s; K::default() })] pub k: K, pub v: V }',
    st([ph("u16"), "#", ph({"re": rep(D09), "conv": "u8"})], "G", "named", fld("k", 0, "default_string"), fld("v", 1)), ["1#2"], ty="G<String>", bad=["1#300", "70000#1"])
add("R", DER + '#[sscanf("{:x}r{:/[12]+/}")] pub struct R(pub u8, pub u8);',
    st([ph("u8:x"), "r", ph({"re": rep(cls("12")), "conv": "u8"})], "R", "tuple", fld(0, 0), fld(1, 1)),
    ["0xFr1", "ar12"], bad=["1r1212", "0x100r1"])

CODE = "\n".join(t["decl"] for t in POOL.values())
TYPES = {n: t["node"] for n, t in POOL.items()}
