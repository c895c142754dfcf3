"""C01: literal text matches only itself, on the whole input."""
import itertools
from lib.core import rs, raw
from lib.gen import Sites, call, esc

META = ".*+?()[]{}|^$\\/#-&~ a"
EXTRA = "éß日😀\u00a0\u2028\u0301K\u212a"


def spellings(text):
    """every way to write this format text (braces already doubled) as a string literal"""
    out = [rs(text)]
    if "\r" not in text and "\0" not in text:
        out.append(raw(text))
    if not set(text) & set("{}"):
        out.append('"' + "".join("\\u{%x}" % ord(c) for c in text) + '"')
        if all(ord(c) < 128 for c in text):
            out.append('"' + "".join("\\x%02x" % ord(c) for c in text) + '"')
    return out


def main(ck):
    S = Sites()

    def lit_inputs(pieces, edits):
        """pieces: list of alternatives; everything within one edit"""
        specs = [{"product": pieces, "edits": edits}]
        return specs

    def near(text):
        """characters that could be confused with those of the text"""
        e = set(text) | set("a \n.\\0{}|")
        for c in text:
            e |= set(c.swapcase())
        return "".join(sorted(e))

    def variants(text):
        """texts that a wrong escaping would take for this one"""
        v = {text, esc(text), "".join("\\" + c for c in text), text * 2, text.swapcase(), ""}
        v |= {text.replace("\\", ""), text.replace(" ", ""), text + "\n", "\n" + text, " " + text, text + " "}
        v |= {text.encode("unicode_escape").decode(), text.replace("{{", "{").replace("}}", "}")}
        v |= {"ab", "x", "1", "\\d", "\\"}
        return sorted(v)

    def add(text, before, after, lit, extra=""):
        """placeholder before / after the text (None or a u8), with this spelling of the text"""
        pre = "{u8}" if before else ""
        post = "{u8}" if after else ""
        f = lit[:lit.index('"') + 1] + pre + lit[lit.index('"') + 1:lit.rindex('"')] + post + lit[lit.rindex('"'):]
        items = ([{"ph": "u8"}] if before else []) + [text] + ([{"ph": "u8"}] if after else [])
        ret = {0: "()", 1: "u8", 2: "(u8, u8)"}[bool(before) + bool(after)]
        num = ["5", "12"]
        pieces = ([num] if before else []) + [[text]] + ([num] if after else [])
        pv = ([["5"]] if before else []) + [variants(text)] + ([["5"]] if after else [])
        S.add(call(f, ret=ret), items, [{"product": pieces, "edits": near(text)}, {"product": pv}], src=f"sscanf!(input, {f})")

    chars = [chr(c) for c in range(128)] + list(EXTRA)
    for c in chars:
        for lit in spellings(esc(c)):
            add(c, 0, 0, lit)
        add("x" + c + "y", 0, 0, rs(esc("x" + c + "y")))
        digit = c.isdigit()
        if not digit:
            for lit in spellings(esc(c)):
                add(c, 1, 1, lit)
            add(c, 1, 0, spellings(esc(c))[-1])
            add(c, 0, 1, spellings(esc(c))[0])
        else:
            add(c, 0, 1, rs(c))
    # every text of two (thorough: three) characters that have a meaning in a regex
    two = META + "dnbw,:=<P1\n"
    for t in itertools.product(two, repeat=2):
        t = "".join(t)
        add(t, 0, 0, rs(esc(t)) if "\n" in t else raw(esc(t)))
    three = META if ck.thorough else ".*([{}|\\^a"
    for t in itertools.product(three, repeat=3):
        t = "".join(t)
        add(t, 0, 0, raw(esc(t)) if len(set(t)) > 1 else rs(esc(t)))
    # texts around placeholders where a brace stands next to one
    br = ["", "{", "}", "{{", "}}", "{}", "}{", "a{", "}a", "\\", "\\{", "/", ":"]
    for a, b, c in itertools.product(br, br if ck.thorough else ["", "{", "}", "}{", "\\"], br if ck.thorough else ["", "{", "}", "\\"]):
        f = esc(a) + "{u8}" + esc(b) + "{u8}" + esc(c) if b else esc(a) + "{u8}" + esc(c)
        items = [a, {"ph": "u8"}, b, {"ph": "u8"}, c] if b else [a, {"ph": "u8"}, c]
        pieces = [[a], ["5", "0"], [b], ["12"], [c]] if b else [[a], ["5", "0"], [c]]
        lit = raw(f) if (len(a) + len(c)) % 2 else rs(f)
        S.add(call(lit, ret="(u8, u8)" if b else "u8"), items,
              [{"product": pieces, "edits": "{}\\5 "}], src=f"sscanf!(input, {lit})")
    # line continuation, long text, several spellings in one literal
    for lit, text in [('"a\\\n     b"', "ab"), ('"a\\\n\n \t b\\\n"', "ab"), ('"\\\n  {{"', "{"),
                      ('"a\\n\\\n  b"', "a\nb"), ('"\\u{41}\\x42C\\u{00_44}"', "ABCD"), ('"\\\'\\""', "'\""),
                      ('r##"a"#b"##', 'a"#b'), ('r#"\\n\\x41"#', "\\n\\x41"), ('"a\nb"', "a\nb"), ('r"a\nb"', "a\nb"),
                      ('"\\\\n"', "\\n"), ('"\\\\\\\\"', "\\\\"), ('"\\u{1F600}"', "😀"), ('"\\t \\t"', "\t \t"),
                      (rs("long. " * 300), "long. " * 300), (rs("(" * 200), "(" * 200), ('""', "")] + [
                      # a continuation skips blanks, tabs and line breaks, but no other white space
                      ('"%s\\\n%s%s%s"' % (a, x, w, b), a + w + b) for w in "\x0b\x0c\x85\xa0\u2003\u2028\u3000\ufeff" for x in ("", " ", "\n\t") for a in ("", "a") for b in ("", " b")]:
        S.add(call(lit, ret="()"), [text], [{"product": [[text]], "edits": near(text[:8])}, {"product": [variants(text)]}],
              src=f"sscanf!(input, {lit})")
    # the same texts in derived types, as struct, variant and inside another format
    for c in chars:
        e = esc(c)
        lit = (rs if ord(c) % 2 else lambda t: spellings(t)[-1])(e)
        if c.isdigit():
            continue
        lit2 = lit[:lit.rindex('"')] + "{}" + lit[lit.index('"') + 1:]
        node = {"items": [c, {"ph": "u8"}, c], "name": "S", "kind": "tuple", "fields": [{"src": 0}]}
        S.add(call('"<{S}>"', ret="S"), ["<", {"ph": node}, ">"],
              [{"product": [["<"], [c], ["5", "12"], [c], [">"]], "edits": near(c)}, {"product": [["<"], variants(c), ["5"], variants(c), [">"]]}],
              decl=f"#[derive(Debug, sscanf::FromScanf)] #[sscanf(format = {lit2})] struct S(u8);",
              src=f"#[sscanf(format = {lit2})] struct S(u8); sscanf!(input, \"<{{S}}>\")")
        if ord(c) < 128:
            en = {"name": "E", "enum": [{"items": [c, "x"], "name": "A", "kind": "unit"}, {"items": ["x", c], "name": "B", "kind": "unit"}]}
            la = lit[:lit.rindex('"')] + "x" + lit[lit.rindex('"'):]
            lb = lit[:lit.index('"') + 1] + "x" + lit[lit.index('"') + 1:]
            S.add(call('"{E}"', ret="E"), [{"ph": en}],
                  [{"product": [[c + "x", "x" + c]], "edits": near(c)}, {"product": [variants(c + "x")]}, {"product": [variants("x" + c)]}],
                  decl=f"#[derive(Debug, sscanf::FromScanf)] enum E {{ #[sscanf(format = {la})] A, #[sscanf(format = {lb})] B }}",
                  src=f"enum E {{ #[sscanf(format = {la})] A, #[sscanf(format = {lb})] B }}")
    ck.run_sites(S.sites, S.inputs)
    return ck.finish(
        "Every ASCII character and a set of others, in every literal spelling, alone, next to and between placeholders and in "
        "derived types; every text of 2 and 3 characters over the regex metacharacters. Inputs: the text with sample numbers, "
        "everything within one edit of it, and texts that a missing or doubled escape would accept.")
