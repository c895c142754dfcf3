"""C10: all ways of writing the same parse give the same result."""
import itertools
import re
from lib.core import rs, raw
from lib.gen import Sites, call, esc, ret_of
from lib import dtypes

U = {"re": {"r": [{"s": [["a", "b"]]}, 1, None, True]}, "conv": "str"}
# format as literals and placeholders: (type text, option text, model node, Rust type of the value)
PH = {
    "u8": ("u8", "", "u8", "u8"), "i16": ("i16", "", "i16", "i16"), "str": ("str", "", "str", "&str"), "String": ("String", "", "str", "String"),
    "char": ("char", "", "char", "char"), "hex": ("u8", ":x", "u8:x", "u8"), "bin": ("i8", ":#b", "i8:#b", "i8"),
    "re": ("str", ":/[ab]+/", U, "&str"), "path": ("std::path::PathBuf", "", "PathBuf", "std::path::PathBuf"),
    "f64": ("f64", "", "f64", "f64"), "cow": ("std::borrow::Cow<str>", "", "str", "std::borrow::Cow<str>"),
    "P": ("P", "", "@P", "P"), "E": ("E", "", "@E", "E"), "H": ("H", "", "@H", "H"),
}
PIECES = {"u8": ["1", "25", "256"], "i16": ["-1", "+25"], "str": ["a", "1b"], "String": ["a", "1b"], "char": ["a", "1", "é"], "hex": ["1", "0xa"], "bin": ["0b1", "-0b1", "1"],
          "re": ["a", "bb"], "path": ["a"], "f64": ["1.5", "-1e1"], "cow": ["a", "1"], "P": ["1,2"], "E": ["a", "b1", "bcc", "1c2"], "H": ["1ah"]}
FORMATS = [
    ["", "u8", ""], ["a", "i16", "-", "str", "b"], ["", "str", "", "u8", ""], ["{", "char", "}", "String", ""], ["é\"", "hex", "\\", "bin", ""],
    ["", "u8", ",", "i16", ",", "char", ""], ["", "re", "", "str", "1", "u8", ""], ["", "path", ":", "f64", "'"], ["", "cow", "=", "str", "\n"],
    ["(", "P", ")", "u8", ""], ["", "E", "", "E", ""], ["", "H", "", "u8", "", "E", "."], ["", "u8", "/", "P", "/", "H", ""], ["a{}b"], [""],
]


def unfold(fmt):
    return fmt[0::2], fmt[1::2]


def literal(text, k):
    if k == 0:
        return rs(text)
    if k == 1:
        return raw(text)
    if k == 2:
        return 'r##"' + text + '"##'
    out = ""
    for n, c in enumerate(text):
        if k == 3:
            # every character outside placeholders' names in its own escape form; the documented spellings of a character
            out += "\\u{%x}" % ord(c) if (ord(c) > 127 or c in "\"\\\n'-,=:.()") else c
        else:
            out += "\\x%02x" % ord(c) if ord(c) < 128 and not c.isalnum() and c not in "{}:/#[]+<>" else c
    return '"' + out + '"'


KINDS = {
    # name: (statements before the call, expression)
    "&str": ("", "i"), "&&str": ("let x = &i;", "x"), "&&&str": ("let x = &&i;", "x"), "*&&str": ("let x = &i;", "*x"), "&i": ("", "&i"),
    "String": ("let x = String::from(i);", "x"), "&String": ("let x = &String::from(i);", "x"), "ref String": ("let x = String::from(i);", "&x"),
    "&mut String": ("let mut y = String::from(i); let x = &mut y;", "x"), "mut &mut str": ("let mut y = String::from(i); let x: &mut str = &mut y;", "x"),
    "as_str": ("let x = String::from(i);", "x.as_str()"), "slice": ("let x = String::from(i);", "x[..]"), "&slice": ("let x = String::from(i);", "&x[..]"),
    "deref": ("let x = String::from(i);", "*x"), "Cow b": ("let x = std::borrow::Cow::Borrowed(i);", "x"), "Cow o": ("let x: std::borrow::Cow<str> = std::borrow::Cow::Owned(i.to_string());", "x"),
    "Box<str>": ("let x: Box<str> = i.into();", "x"), "Rc<str>": ("let x: std::rc::Rc<str> = i.into();", "x"), "Arc<str>": ("let x: std::sync::Arc<str> = i.into();", "x"),
    "Box<String>": ("let x = Box::new(String::from(i));", "x"), "Rc<String>": ("let x = std::rc::Rc::new(String::from(i));", "x"), "&Rc": ("let x: &std::rc::Rc<str> = &i.into();", "x"),
    "tuple field": ("let x = (1, String::from(i));", "x.1"), "struct field": ("struct F { s: String } let x = F { s: i.into() };", "x.s"), "index": ("let x = [String::new(), String::from(i)];", "x[1]"),
    "vec index": ("let x = vec![i];", "x[0]"), "method": ("struct F(String); impl F { fn get(&self) -> &str { &self.0 } fn s(&self) -> &String { &self.0 } } let x = F(i.into());", "x.get()"),
    "trim": ("let x = format!(\"{i}\");", "x.trim_end_matches('\\u{7}')"), "block": ("", "{ let _ = 1; i }"), "if": ("", "if i.is_empty() { i } else { &i[0..] }"), "match": ("", "match 1 { _ => i }"),
    "paren": ("", "(i)"), "closure call": ("let f = || i;", "f()"), "unwrap": ("let x = Some(i);", "x.unwrap()"), "as_ref": ("let x = Some(String::from(i));", "x.as_ref().unwrap()"),
    "Ref": ("let y = std::cell::RefCell::new(String::from(i)); let x = y.borrow();", "x"), "guard": ("let y = std::sync::Mutex::new(String::from(i)); let x = y.lock().unwrap();", "x"),
    "own Deref": ("struct F(String); impl std::ops::Deref for F { type Target = str; fn deref(&self) -> &str { &self.0 } } let x = F(i.into());", "x"), "var input": ("let input = i;", "input"),
    "cast": ("", "i as &str"), "unsafe": ("", "unsafe { i }"), "range": ("", "&i[..i.len()]"), "str from utf8": ("let x = i.as_bytes();", "std::str::from_utf8(x).unwrap()"), "var src": ("let src = i; let cap = 1; let matcher = 3; let value = 0; let f = 0;", "src"),
}


def main(ck):
    S = Sites()

    def space(fmt, edits="1a-"):
        lits, tys = unfold(fmt)
        prod = [[lits[0]]]
        for t, l in zip(tys, lits[1:]):
            prod += [PIECES[t][: 3 if len(tys) < 3 else 2], [l]]
        return [{"product": prod, "edits": edits + ("," if "P" in tys else "")}, {"alpha": "".join(sorted(set("".join(lits) + "1ab")))[:6], "max": 4 if ck.thorough else 3}]

    def items(fmt, text=False):
        lits, tys = unfold(fmt)
        out = [lits[0]]
        for t, l in zip(tys, lits[1:]):
            out += [{"ph": {"text": PH[t][2]} if text else PH[t][2]}, l]
        return out

    def spell(fmt, modes):
        """modes per placeholder: inline, implicit or index; returns format text and type list"""
        lits, tys = unfold(fmt)
        listed = [t for t, m in zip(tys, modes) if m == "implicit"]
        ni = len(listed)
        idx = [t for t, m in zip(tys, modes) if m == "index"]
        order = listed + idx[::-1]
        n = len(order)
        text = esc(lits[0])
        seen = 0
        for t, m, l in zip(tys, modes, lits[1:]):
            if m == "inline":
                name = PH[t][0]
            elif m == "implicit":
                name = ""
            else:
                seen += 1
                name = str(n - seen)
            text += "{" + name + PH[t][1] + "}" + esc(l)
        return text, [PH[t][0] for t in order]

    for fmt in FORMATS:
        tys = fmt[1::2]
        ret = ret_of([PH[t][3] for t in tys]) if tys else "()"
        first = True
        for modes in itertools.product(["inline", "implicit", "index"], repeat=len(tys)):
            text, types = spell(fmt, modes)
            for k in range(5):
                if k == 3 and "inline" in modes and any(":" in PH[t][0] for t in tys):
                    continue
                S.add(call(literal(text, k), types, ret), items(fmt), space(fmt))
            S.add(call(raw(text), types, ret, macro="scanf"), items(fmt), space(fmt))
            # the text is a regex in the unescaped forms: literals are spelled as regexes
            rtext = "".join(("\\" + c if c in "()." else c) for c in text) if "\\" not in text and "{{" not in text and not any(":/" in PH[t][1] for t in tys) else None
            if rtext is not None and "[" not in text:
                for m in ("sscanf_unescaped", "scanf_unescaped"):
                    S.add(call(raw(rtext), types, ret, macro=m), items(fmt), space(fmt))
            for m in ("sscanf_get_regex", "scanf_get_regex"):
                # capture groups are the placeholders' texts; a type with groups of its own counts them too
                a = "".join(", " + t for t in types)
                offs, at = [], "1"
                for t in tys:
                    offs.append(at)
                    at += f" + <{PH[t][0]} as sscanf::FromScanf>::NUM_CAPTURES" if t in "PEH" else " + 1"
                one = f"{{ let r: &'static sscanf::regex::Regex = sscanf::{m}!({raw(text)}{a}); groups(r, i, &[{', '.join(offs)}], {at}) }}"
                if tys:
                    S.add(one, items(fmt, text=True), space(fmt))
            if first and tys:
                first = False
                for name, (pre, expr) in KINDS.items():
                    for m in (("sscanf", "scanf") if name in ("String", "&str", "Cow b") else ("sscanf",)):
                        S.add("{ " + pre + " let r = " + f"sscanf::{m}!({expr}, {raw(text)}{''.join(', ' + t for t in types)})" + "; res(r) }", items(fmt), space(fmt, "1"),
                              src=f"[input as {name}] {pre} {m}!({expr}, {raw(text)})")
    # paths to the same types, in the placeholder and in the list
    for t, paths in {"u8": ["std::primitive::u8", "::std::primitive::u8", "::core::primitive::u8", "self::U8", "crate::pre::U8", "<u8 as Same>::T", "<::std::primitive::u8 as self::Same>::T"],
                     "i16": ["core::primitive::i16", "::core::primitive::i16"], "String": ["std::string::String", "::std::string::String", "<String as Same>::T", "<::std::string::String as crate::pre::Same>::T"], "char": ["::std::primitive::char", "<char as Same>::T"],
                     "path": ["::std::path::PathBuf", "<::std::path::PathBuf as Same>::T"], "f64": ["::core::primitive::f64", "<f64 as ::std::ops::Add>::Output"], "cow": ["::std::borrow::Cow<str>", "std::borrow::Cow<::std::primitive::str>", "std::borrow::Cow<'_, str>", "::std::borrow::Cow<'_, core::primitive::str>"],
                     "str": ["::std::primitive::str", "::core::primitive::str", "std::primitive::str"], "P": ["self::P", "crate::pre::P", "<P as Same>::T"], "E": ["crate::pre::E", "super::pre::E"], "H": ["self::H"]}.items():
        for path in paths:
            # the name of an associated type does not hide that it is the user's
            for a, b in [("", ""), ("x", "{"), (":", "::")]:
                its, sp = [a, {"ph": PH[t][2]}, b], [{"product": [[a], PIECES[t], [b]], "edits": "1a-:"}]
                ret = ret_of([PH[t][3]])
                for k in (0, 1, 2):
                    S.add(call(literal(esc(a) + "{" + path + "}" + esc(b), k), [], ret), its, sp)
                S.add(call(raw(esc(a) + "{}" + esc(b)), [path], ret), its, sp)
                if t in ("str", "String", "cow") and "Same" not in path:
                    S.add(call(raw(esc(a) + "{" + path + ":/[ab]+/}" + esc(b)), [], ret), [a, {"ph": U}, b], sp)
    # imported names instead of paths, trailing comma, called through other macros
    S.add('{ use sscanf::sscanf; res(sscanf!(i, "{u8}")) }', [{"ph": "u8"}], space(FORMATS[0]))
    S.add('{ use sscanf::*; res(sscanf!(i, "{}", u8,)) }', [{"ph": "u8"}], space(FORMATS[0]))
    S.add('{ use sscanf::sscanf as parse; res(parse!(i, "{u8}",)) }', [{"ph": "u8"}], space(FORMATS[0]))
    # the same call through a macro_rules macro
    W = "macro_rules! m { (%s) => { sscanf::sscanf!(%s) } } "
    for ty, opt, node, pc in [("u8", "", "u8", 0), ("str", "", "str", 0), ("String", "", "str", 0), ("&str", "", "str", 0), ("u8", ":x", "u8:x", 0), ("i8", ":#b", "i8:#b", 0), ("i16", ":r7", "i16:r7", 0),
                              ("std::borrow::Cow<str>", "", "str", 0), ("P", "", "@P", 1), ("E", "", "@E", 1), ("str", ":/[ab]+/", U, 0)]:
        sp = [{"product": [["1", "a", "0b1", "1,2", "b1", "255", "-1"]], "edits": "1a-"}]
        for k in ["ty", "tt", "path", "ident", "tokens"]:
            if (k != "ty" and ty == "&str") or (k in ("tt", "ident") and "::" in ty):
                continue
            for ik in ["expr", "ident", "tt"]:
                pat = "$i:" + ik + ", " + ("$($t:tt)*" if k == "tokens" else "$t:" + k)
                use = "$($t)*" if k == "tokens" else "$t"
                S.add("{ " + W % (pat, '$i, "{' + opt + '}", ' + use) + f"res(m!(i, {ty})) }}", [{"ph": node}], sp)
        S.add("{ " + W % ("$i:expr, $f:literal", "$i, $f") + f'res(m!(i, "{{{ty}{opt}}}")) }}', [{"ph": node}], sp)
        S.add("{ " + W % ("$($t:tt)*", "$($t)*") + f'res(m!(i, "{{{ty}{opt}}}")) }}', [{"ph": node}], sp)
        for e in ["$i.trim_end_matches('~')", "&$i", "($i)", "&$i[..]", "{ $i }", "&&*$i", "if $i.len() > 0 { $i } else { &$i[0..] }"]:
            for ik in ["expr", "ident", "tt"]:
                S.add("{ " + W % ("$i:" + ik + ", $t:ty", e + ', "{' + opt + '}", $t') + f"res(m!(i, {ty})) }}", [{"ph": node}], sp)
            S.add("{ macro_rules! m { ($i:expr, $t:ty) => { { let x = $i; sscanf::sscanf!(" + e.replace("$i", "x") + ', "{' + opt + '}", $t) } } } ' + f"res(m!(i, {ty})) }}", [{"ph": node}], sp)
    # derived types written by a macro_rules macro
    for k in ["ty", "tt", "path", "ident"]:
        for attr, pre, mp, const in [("", "{x}", None, None), ("#[sscanf(default = $t::default())]", "", None, "0"), ("#[sscanf(map = |x: $t| x + 1)]", "{x}", "inc", None), ("#[sscanf(from = $t)]", "{x}", None, None),
                                     ("#[sscanf(filter_map = |x: $t| if x % 2 == 0 { Some(x / 2) } else { None })]", "{x}", "even", None), ("#[sscanf(try_from = $t)]", "{x}", None, None)]:
            fx = dtypes.fld("x", None if const else 0, mp, const)
            y = {"re": {"s": [["1", "3"]]}, "conv": "u8"}
            node = dtypes.st(([dtypes.ph("u8")] if not const else []) + [",", dtypes.ph(y)], "Q", "named", fx, dtypes.fld("y", 0 if const else 1))
            specs = [{"product": [["1", "2", "99", ""], [","], ["1", "3", "4"]], "edits": "1,"}]
            d = f'macro_rules! m {{ ($i:ident, $t:{k}) => {{ #[derive(Debug, sscanf::FromScanf)] #[sscanf("{pre},{{y:/[1-3]/}}")] struct $i {{ {attr} x: $t, y: $t }} }} }} m!(Q, u8);'
            S.add('res(sscanf::sscanf!(i, "{Q}"))', [dtypes.ph(node)], specs, decl=d)
            d = f'macro_rules! m {{ ($i:ident, $t:{k}) => {{ #[derive(Debug, sscanf::FromScanf)] enum $i {{ #[sscanf("{pre},{{y:/[1-3]/}}")] Q {{ {attr} x: $t, y: $t }} }} }} }} m!(QE, u8);'
            S.add('res(sscanf::sscanf!(i, "{QE}"))', [dtypes.ph({"name": "QE", "enum": [node]})], specs, decl=d)
    # ... with borrowed texts, whole or in part from outside, and closures
    for args, body, conv in [("&'a str", "$t", "str"), ("Cow<'a, str>", "$t", "str"), ("std::borrow::Cow<'a, str>", "$t", "str"), ("str", "&$l $t", "str"), ("str", "Cow<$l, $t>", "str"), ("str", "::std::borrow::Cow<$l, $t>", "str"), ("::std::primitive::str", "&$l $t", "str"), ("u8", "$t", "u8"), ("Cow<'a, str>", "#[sscanf(map = |x: $t| x)] $t", "str"),
                             ("&'a str", "#[sscanf(map = |x: $t| x)] $t", "str"), ("str", "#[sscanf(map = |x: &$l $t| x)] &$l $t", "str"), ("&'a str", "#[sscanf(filter_map = |x: $t| Some(x))] $t", "str"), ("String", "#[sscanf(from = &str)] $t", "str"), ("String", "$t", "str")]:
        for decl, node in [("#[sscanf(\"a{{}}\")] pub struct $n<$l>({0}, #[sscanf(default)] Option<&$l str>);", dtypes.st(["a", dtypes.ph(conv)], "Q", "tuple", dtypes.fld(0, 0), dtypes.fld(1, None, None, "None"))),
                           ("#[sscanf(\"a{{x}}\")] pub struct $n<$l> {{ #[sscanf(default)] y: Option<&$l str>, {1} }}", dtypes.st(["a", dtypes.ph(conv)], "Q", "named", dtypes.fld("y", None, None, "None"), dtypes.fld("x", 0))),
                           ("pub enum $n<$l> {{ #[sscanf(skip)] Z(&$l str), #[sscanf(\"b\")] W, #[sscanf(\"a{{}}\")] Q({0}) }}", {"name": "Q", "enum": [dtypes.st(["b"], "W", "unit"), dtypes.st(["a", dtypes.ph(conv)], "Q", "tuple", dtypes.fld(0, 0))]})]:
            named = re.sub(r"((?:#\[sscanf.*?\)\] )?)(.*)", r"\1x: \2", body, count=1)
            d = "use std::borrow::Cow; macro_rules! m { ($n:ident, $l:lifetime, $t:ty) => { #[derive(Debug, sscanf::FromScanf)] " + decl.format(body, named) + " } } m!(Q, 'a, " + args + ");"
            S.add('res(sscanf::sscanf!(i, "{Q}"))', [dtypes.ph(node)], [{"product": [["a", "b", ""], ["", "1", "x", "25"]], "edits": "ab1"}], decl=d)
            S.add("res(<Q as sscanf::FromScanf>::from_str(i))", [dtypes.ph(node)], [{"product": [["a", "b", ""], ["", "1", "x", "25"]], "edits": "ab1"}], decl=d)
    for k in ("expr", "tt"):
        for attr, e, mp in [("map", "|x: u8| x + 1", "inc"), ("map", "|x: u8| -> u8 { x + 1 }", "inc"), ("filter_map", "|x: u8| if x % 2 == 0 { Some(x / 2) } else { None }", "even"), ("filter_map", "|x: u8| { (x % 2 == 0).then(|| x / 2) }", "even")]:
            pat, use = ("$e:expr", "$e") if k == "expr" else ("$($e:tt)*", "$($e)*")
            d = f'macro_rules! m {{ ($n:ident, {pat}) => {{ #[derive(Debug, sscanf::FromScanf)] #[sscanf("{{}}")] pub struct $n(#[sscanf({attr} = {use})] u8); }} }} m!(Q, {e});'
            S.add('res(sscanf::sscanf!(i, "{Q}"))', [dtypes.ph(dtypes.st([dtypes.ph("u8")], "Q", "tuple", dtypes.fld(0, 0, mp)))], [{"product": [["1", "2", "99", ""]], "edits": "1,"}], decl=d)
    for ty, arg, use in [("str", "str", "&$t"), ("str", "std::primitive::str", "&$t"), ("std::borrow::Cow<str>", "str", "std::borrow::Cow<$t>"), ("std::borrow::Cow<str>", "str", "::std::borrow::Cow<$t>"), ("std::borrow::Cow<str>", "std::borrow::Cow<'_, str>", "$t")]:
        for opt, node in [("", "str"), (":/[ab]+/", U)]:
            S.add("{ " + W % ("$i:expr, $t:ty", '$i, "{' + opt + '}", ' + use) + f"res(m!(i, {arg})) }}", [{"ph": node}], [{"product": [["1", "a", "0b1", "1,2", "b1", "255", "-1"]], "edits": "1a-"}])
    # from_str against sscanf!(.., "{T}"): both against the same model
    for n, t in dtypes.POOL.items():
        pieces = t["pieces"] + t["bad"]
        specs = [{"product": [pieces], "edits": "a1,x-"}, {"alpha": "ab1," + t["pieces"][0][0], "max": 5 if ck.thorough else 4}]
        for code in (f'res(sscanf::sscanf!(i, "{{{t["ty"]}}}"))', f'res(sscanf::sscanf!(i, "{{}}", {t["ty"]}))') + (
                () if n == "W" else (f"res(<{t['ret']} as sscanf::FromScanf>::from_str(i))", f"{{ let r: Result<{t['ret']}, sscanf::Error> = sscanf::FromScanf::from_str(i); res(r) }}")):
            S.add(code, [{"ph": "@" + n}], specs, deep=True)
        S.add(f'groups(sscanf::sscanf_get_regex!("{{{t["ty"]}}}"), i, &[1], 1 + <{t["ret"]} as sscanf::FromScanf>::NUM_CAPTURES)', [{"ph": {"text": "@" + n}}], specs)
    # types that have FromScanf from FromStr parse as their FromStr does
    ANY = {"r": [{"n": []}, 0, None, True]}
    for ty, conv in [("u8", "u8"), ("i8", "i8"), ("u64", "u64"), ("i128", "i128"), ("usize", "usize"), ("std::num::NonZeroU8", "NonZeroU8"), ("std::num::NonZeroI16", "NonZeroI16"), ("bool", "bool"), ("char", "char"),
                     ("f32", "f32"), ("f64", "f64"), ("String", "str"), ("std::path::PathBuf", "Path"), ("NoX", "NoX")]:
        # a char and a bool have no useful overlap with the other alphabets
        specs = [{"alpha": "+-019.e", "max": 5 if ck.thorough else 4}, {"alpha": "a x\n", "max": 4},
                 {"list": ["true", "false", "True", "é", "\U0001f600", "255", "256", "-128", "-129", "inf", "NaN", "+inf", "1e400", "18446744073709551615", "18446744073709551616"]}]
        S.add(f"res(<{ty} as sscanf::FromScanf>::from_str(i))", [{"ph": {"re": ANY, "conv": conv}}], specs, deep=True)
    ck.run_sites(S.sites, S.inputs, types=dtypes.TYPES, prelude=dtypes.CODE + "pub trait Same { type T; } impl<X> Same for X { type T = X; } pub type U8 = u8; ")
    return ck.finish(
        "15 formats in every combination of inline, listed and indexed types, five spellings of the literal, both names of each macro, 45 kinds of input expression; the groups of "
        "sscanf_get_regex!; from_str and sscanf! on 21 derived, hand-written and FromStr types; each on all samples with one-character edits and short strings.")
