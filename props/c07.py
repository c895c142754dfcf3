"""C07: a custom regex placeholder matches exactly the regex the user wrote."""
import itertools
import re
from lib.core import rs, raw
from lib.gen import Sites, call
from lib import fmtref

NL = {"l": "\n"}
ANYCH = {"n": []}
# regex text -> model pattern
ATOMS = {
    "a": {"l": "a"}, "b": {"l": "b"}, ".": ".", "\\/": {"l": "/"}, "\\\\": {"l": "\\"}, "\\d": "d", "\\.": {"l": "."},
    "[ab]": {"s": [["a", "b"]]}, "[^a]": {"n": [["a"]]}, "[^\\/]": {"n": [["/"]]}, "[\\]a]": {"s": [["]"], ["a"]]},
    "\\{": {"l": "{"}, "\\}": {"l": "}"}, "}": {"l": "}"}, "é": {"l": "é"}, ":": {"l": ":"}, '"': {"l": '"'}, " ": {"l": " "},
    "\\n": NL, "\\x61": {"l": "a"}, "\\u{62}": {"l": "b"}, "\\D": {"n": [["0", "9"]]}, "#": {"l": "#"}, "(?:ab)": {"l": "ab"},
    "[{}]": {"s": [["{"], ["}"]]}, "[\\\\]": {"s": [["\\"]]}, "[\\d\\/]": {"a": ["d", {"l": "/"}]}, "(?i:a)": {"s": [["a"], ["A"]]},
    "\\*": {"l": "*"}, "\\(": {"l": "("}, "\\|": {"l": "|"}, "\\?": {"l": "?"}, "\\[": {"l": "["}, "\\^": {"l": "^"}, "\\$": {"l": "$"},
}
REPS = {"": None, "*": (0, None, True), "+": (1, None, True), "?": (0, 1, True), "{2}": (2, 2, True), "{1,2}": (1, 2, True),
        "{2,}": (2, None, True), "*?": (0, None, False), "+?": (1, None, False), "??": (0, 1, False), "{1,2}?": (1, 2, False)}


def rep(a, r):
    p = ATOMS[a] if isinstance(a, str) else a
    return p if REPS[r] is None else {"r": [p, *REPS[r]]}


def bodies(thorough):
    """(regex text, pattern)"""
    for a in ATOMS:
        for r in REPS:
            yield a + r, rep(a, r)
    for a, b in itertools.product(ATOMS, repeat=2):
        yield a + b, {"c": [ATOMS[a], ATOMS[b]]}
    small = ["a", ".", "\\/", "\\\\", "\\d", "[ab]", "}"]
    for (a, r), (b, q) in itertools.product(itertools.product(small, ["", "*", "{2}", "+?"] if not thorough else list(REPS)), repeat=2):
        yield a + r + b + q, {"c": [rep(a, r), rep(b, q)]}
    for a, b in itertools.product(small, repeat=2):
        yield f"{a}|{b}", {"a": [ATOMS[a], ATOMS[b]]}
        yield f"{a}|{a}{b}", {"a": [ATOMS[a], {"c": [ATOMS[a], ATOMS[b]]}]}
        for r in ("", "+", "{2}", "*?"):
            g = {"a": [ATOMS[a], ATOMS[b]]}
            yield f"(?:{a}|{b}){r}", rep(g, r)
    for a, b, c in itertools.product(["a", "\\/", "\\\\", "\\d", "\\}"], repeat=3):
        yield a + b + c, {"c": [ATOMS[a], ATOMS[b], ATOMS[c]]}
    if thorough:
        for t in itertools.product(["a", "\\/", "\\\\", "\\d", "\\}", ".", "}"], repeat=4):
            yield "".join(t), {"c": [ATOMS[a] for a in t]}


def main(ck):
    S = Sites()

    def lits(f, k):
        if "\\" in f or '"' in f:
            return [raw(f), rs(f)] if k % 3 == 0 else [(raw, rs)[k % 2](f)]
        return [(raw, rs)[k % 2](f)]

    seen = set()
    for k, (body, pat) in enumerate(bodies(ck.thorough)):
        if body in seen:
            continue
        seen.add(body)
        al = {"a", "b"} | {c for c in body if c not in "[]()|?*+,^$"} | ({"1"} if "d" in body.lower() else set())
        al |= {c for c, t in zip("*(|?[^$]", ["\\*", "\\(", "\\|", "\\?", "\\[", "\\^", "\\$", "\\]"]) if t in body}
        al = sorted(al - set("xudDi62")) + (["\n"] if "n" in body or "." in body else []) + (["A"] if "?i" in body else [])
        al = "".join(dict.fromkeys(c for c in al if c != "n" or "n" not in body))
        n = 5 if len(al) <= 4 else 4 if len(al) <= 6 else 3
        spec = [{"alpha": al, "max": n}]
        node = {"re": pat, "conv": "str"}
        # every body alone or next to another placeholder; the shorter ones (thorough: all) both ways
        both = ck.thorough or len(body) <= 3
        for lit in [] if not both and k % 4 in (1, 2) else lits("{str:/" + body + "/}", k):
            S.add(call(lit, ret="&str"), [{"ph": node}], spec, src=f"sscanf!(input, {lit})", may_be_empty=True)
        if not both and k % 4 in (0, 3):
            pass
        elif k % 4 < 2 or ck.thorough:
            for lit in lits("{:/" + body + "/}{}", k + 1):
                S.add(call(lit, ["str", "str"], ret="(&str, &str)"), [{"ph": node}, {"ph": "str"}], spec, src=f"sscanf!(input, {lit}, str, str)", may_be_empty=True)
        else:
            for lit in lits("a{0}{String:/" + body + "/}b", k + 1):
                S.add(call(lit, ["char"], ret="(char, String)"), ["a", {"ph": "char"}, {"ph": node}, "b"],
                      [{"alpha": al, "max": n, "pre": "aé", "post": "b"}], src=f"sscanf!(input, {lit}, char)", may_be_empty=True)
    # verbose mode: blanks and comments belong to the regex, also when it ends in a comment
    L = lambda t: {"l": t}
    for body, pat in [("(?x) a b", L("ab")), ("(?x)a#b", L("a")), ("(?x) a # b", L("a")), ("(?x:a b)b b", L("abb b")), ("(?x: a b ) #", L("ab #")), ("(?x)a # }", L("a")), ("(?x)a # \\/ b", L("a")), ("(?x)a # ) (", L("a")), ("(?x)a#", L("a")), ("(?x)[ab]#{", ATOMS["[ab]"]),
                      ("(?x) # b", {"c": []}), ("(?x) a # b\n b", L("ab")), ("(?x) a # b\n b # a", L("ab")), ("(?x: a # b\n) b", L("a b")), ("(?ix) a b # a", {"c": [{"s": [["a"], ["A"]]}, {"s": [["b"], ["B"]]}]}), ("(?x)a(?-x) b", L("a b")), ("(?x) a (?-x)#", L("a#")),
                      ("(?x) a | b b # a", {"a": [L("a"), L("bb")]}), ("(?x)(?:a#)\n|b)+#)", rep({"a": [L("a"), L("b")]}, "+")), ("(?x)a\\#b # b", L("a#b")), ("(?x)a\\ b#", L("a b")), ("(?x) a{2} # {2}", L("aa")), ("(?x)(?:(?x)a#\n)b", L("ab")), ("(?x)a#\n", L("a")), ("(?x)a#b\n\n", L("a")), ("a #b", L("a #b"))]:
        al = "".join(sorted({"a", "b", "#", " "} | ({"A"} if "?i" in body else set()) | ({"\n"} if "\n" in body else set()) | set("){" if len(body) < 12 else "")))
        sp, node = [{"alpha": al, "max": 4 if len(al) < 6 else 3}], {"re": pat, "conv": "str"}
        sp3 = [{"alpha": al, "max": 4, "pre": "(", "post": ")"}]
        for q in ([rs] if "\n" in body else [raw, rs]):
            f = "{str:/" + body + "/}"
            S.add(call(q(f), ret="&str"), [{"ph": node}], sp, src=f"sscanf!(input, {q(f)})", may_be_empty=True)
            f = "({:/" + body + "/}){}"
            S.add(call(q(f), ["str", "str"], ret="(&str, &str)"), ["(", {"ph": node}, ")", {"ph": "str"}], sp3 + [{"alpha": al, "max": 3, "pre": "(", "post": ")b"}], src=f"sscanf!(input, {q(f)}, str, str)", may_be_empty=True)
            f = "{f:/" + body + "/}b"
            for k, (d, nd) in enumerate([(f"#[derive(Debug, sscanf::FromScanf)] #[sscanf(format = {q(f)})] struct S {{ f: String }}", {"name": "S", "kind": "named", "items": [{"ph": node}, "b"], "fields": [{"name": "f", "src": 0}]}),
                                         (f"#[derive(Debug, sscanf::FromScanf)] enum S {{ #[sscanf(format = {q(f)})] V {{ f: String }}, #[sscanf(\"\")] W }}", {"name": "S", "enum": [{"name": "V", "kind": "named", "items": [{"ph": node}, "b"], "fields": [{"name": "f", "src": 0}]}, {"name": "W", "kind": "unit", "items": [], "fields": []}]})]):
                S.add(call('"{S}{str}"', ret="(S, &str)"), [{"ph": nd}, {"ph": "str"}], sp, decl=d, src="{S}{str} with " + d, may_be_empty=True)
                S.add("res(<S as sscanf::FromScanf>::from_str(i))", [{"ph": nd}], sp, decl=d, src="from_str: " + d, may_be_empty=True)
    # every type with its own conversion of the piece; the type's usual pattern plays no part
    word = "#[derive(Debug)] pub struct Word(String); impl std::str::FromStr for Word { type Err = std::convert::Infallible; fn from_str(s: &str) -> Result<Self, Self::Err> { Ok(Word(s.to_string())) } }"
    nox = ("#[derive(Debug)] pub struct NoX(String); #[derive(Debug)] pub struct NE; impl std::fmt::Display for NE { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, \"ne\") } } impl std::error::Error for NE {} "
           "impl std::str::FromStr for NoX { type Err = NE; fn from_str(s: &str) -> Result<Self, NE> { if s.contains(|c| c == 'x' || c == 'X') { Err(NE) } else { Ok(NoX(s.to_string())) } } } "
           "impl sscanf::RegexRepresentation for NoX { const REGEX: &'static str = \"never\"; }")
    anyp = {"r": [ANYCH, 0, None, True]}
    for body, pat, specs in [
        ("[0-9]{2}", {"r": [{"s": [["0", "9"]]}, 2, 2, True]}, [{"alpha": "0129,", "max": 5}]),
        ("-?\\d+", {"c": [{"r": [{"l": "-"}, 0, 1, True]}, {"r": ["d", 1, None, True]}]}, [{"alpha": "-+12,", "max": 5}, {"tokens": ["-", "128", "9", "255", "256", "٣"], "max": 3}]),
        ("[^,]*", {"r": [{"n": [[","]]}, 0, None, True]}, [{"alpha": "1,.ex-", "max": 4}, {"tokens": ["true", "false", "inf", "1", ",", "x"], "max": 3}]),
        ("(?s:.*)", anyp, [{"alpha": "1.ex-,\n", "max": 5}]),
    ]:
        for ty, conv, decl, ret in [("u8", "u8", "", "u8"), ("i8", "i8", "", "i8"), ("f32", "f32", "", "f32"), ("String", "str", "", "String"),
                                    ("std::num::NonZeroU8", "NonZeroU8", "", "std::num::NonZeroU8"), ("u128", "u128", "", "u128"),
                                    ("Word", "Word", word, "Word"), ("NoX", "NoX", nox, "NoX"), ("str", "str", "", "&str"),
                                    ("std::borrow::Cow<str>", "str", "", "std::borrow::Cow<str>")]:
            node = {"re": pat, "conv": conv}
            for f, args, items, r in [("{" + ty + ":/" + body + "/}", [], [{"ph": node}], ret),
                                      ("{:/" + body + "/}", [ty], [{"ph": node}], ret),
                                      ("{" + ty + ":/" + body + "/},{0:/" + body + "/}", [ty], [{"ph": node}, ",", {"ph": node}], f"({ret}, {ret})")]:
                S.add(call(raw(f), args, ret=r), items, specs, decl=decl, src=f"{decl[:40]} sscanf!(input, {raw(f)}{''.join(', ' + a for a in args)})")
        for lit in (raw, rs):
            f = "{a:/" + body + "/}/{:/" + body + "/}"
            node = {"name": "S", "kind": "named", "items": [{"ph": {"re": pat, "conv": "u8"}}, "/", {"ph": {"re": pat, "conv": "str"}}],
                    "fields": [{"name": "a", "src": 0}, {"name": "b", "src": 1}]}
            S.add(call('"<{S}>"', ret="S"), ["<", {"ph": node}, ">"], [{"product": [["<"], ["1", "12", "-5", "+7", "300", ""], ["/"], ["1", "12", "-5", "", "a/b", ","], [">"]], "edits": "/1,\\"}],
                  decl=f"#[derive(Debug, sscanf::FromScanf)] #[sscanf(format = {lit(f)})] struct S {{ a: u8, b: String }}")
    ck.run_sites(S.sites, S.inputs)

    # accept or reject: every text between the slashes
    alpha = ["a", "/", "\\", "}", "{", "(", ")", "[", "]", "?", ":", "*", "|", "d"]
    texts = ["".join(t) for n in range(0, 4) for t in itertools.product(alpha, repeat=n)]
    small = ["a", "/", "\\", "}", "(", ")", "?", ":", "d"]
    for n in ((4, 5) if ck.thorough else (4,)):
        texts += ["".join(t) for t in itertools.product(small, repeat=n)]
    tiny = ["/", "\\", "}", "a"]
    for n in ((5, 6, 7) if ck.thorough else (5, 6)):
        texts += ["".join(t) for t in itertools.product(tiny, repeat=n)]
    texts += ["(?P<n>a)", "(?P<n>a)b", "a(b)c", "(?:a(b))", "(a|b)", "(?:(?:(a)))", "(a)*", "\\((a)\\)", "[(]a[)]", "(?i)a", "(?i:(a))", "((?:a))",
              "a{2,1}", "a{", "[z-a]", "\\p{L}", "\\p{X}", "\\8", "(?<n>a)", "[[:alpha:]]", "\\Aa", "a\\z", "(?x) a b", "(?x)a#", "(?x) a # b", "(?x)a#)", "(?x)(#a", "(?x)(#a\n)", "(?x:a#)", "(?x:a#b\n)", "(?x)(?:#a\n)#", "(?x)a{2#}", "(?", "(?:", "x{1000}"]
    texts = list(dict.fromkeys(texts))
    forms = []
    for t in texts:
        f = "{str:/" + t + "/}"
        try:
            forms.append((t, f, fmtref.parse(f), ""))
        except fmtref.Bad as e:
            forms.append((t, f, None, str(e)))
    ok = ck.regex_ok([b for _, _, p, _ in forms if p for b in fmtref.regexes(p)])
    progs, T = [], Sites()
    for t, f, p, why in forms:
        acc = False
        if re.search(r"(?<!\\)(?:\\\\)*\\:", t):
            acc = None  # newer versions of the regex syntax allow this escape
        elif p:
            try:
                bound = fmtref.bind(p, [], {"str": 1}, ok.get)
                acc = True
            except fmtref.Bad as e:
                why = str(e)
        for lit in ([raw(f), rs(f)] if "\\" in f and len(t) <= 4 else [raw(f)]):
            progs.append({"code": f"fn f(i: &str) {{ let _ = sscanf::sscanf!(i, {lit}); }}", "src": f"sscanf!(input, {lit})", "accept": acc, "why": why})
        if acc and (len(t) <= 3 or ck.thorough) and (len(t) < 3 or "\\" in t or "d" not in t):
            items = [{"ph": {"re": {"r": [ANYCH, 0, None, True]}, "conv": "rx:" + x[2][1]}} if x[0] == "ph" else x[1] for x in bound]
            al = "".join(sorted({c for c in t if c not in "d"} | set("a1/\\")))[:7]
            T.add(call(raw(f), ret="&str"), items, [{"alpha": al, "max": 3}], coarse=True, may_be_empty=True, src=f"sscanf!(input, {raw(f)})")
    ck.check_verdicts(progs, full=lambda j: False)
    ck.run_sites(T.sites, T.inputs)
    ck.assumptions.append("for the accept/reject part and the texts enumerated character by character, the regex crate decides what is a regex and what it matches")
    return ck.finish(
        "Regexes of up to 3 (4) atoms out of 35 (escapes, classes, groups, braces, quotes) with 11 repetitions and alternations, as raw and plain "
        "literals, alone and next to other placeholders, with 10 target types, on every string up to length 3-5 over their characters; and "
        "every text of up to 3 characters out of 14, 4 (5) out of 9 and 6 (7) out of / \\ } a between the slashes: accepted exactly if a regex "
        "without capture groups that ends there, and then matching what the regex crate matches.")
