"""Reference parser for format strings, written from the documentation."""

OPTIONS = {"x", "o", "b", "#x", "#o", "#b", "x#", "o#", "b#"}


class Bad(Exception):
    """malformed: has to be a compile error. at: the part at fault, as positions in the text"""
    def __init__(self, why, *at):
        super().__init__(why)
        self.at = at


class Unspecified(Exception):
    """the documentation does not say"""


def parse(s, where=None, out=None):
    """[("lit", text) | ("ph", name, option)], option being None, ("radix", text) or ("regex", body)
    where: a list that gets the positions of each placeholder: (start, end of the name, end); out: the list to fill"""
    out, text, i = [] if out is None else out, "", 0
    n = len(s)
    while i < n:
        c = s[i]
        if c in "{}" and i + 1 < n and s[i + 1] == c:
            text += c
            i += 2
        elif c == "}":
            raise Bad("standalone }", i, i + 1)
        elif c == "{":
            if text:
                out.append(("lit", text))
                text = ""
            st = i
            i, ph = placeholder(s, i + 1)
            out.append(ph)
            if where is not None:
                where.append((st, st + 1 + len(ph[1]), i))
        else:
            text += c
            i += 1
    if text:
        out.append(("lit", text))
    return out


def placeholder(s, i):
    n, st = len(s), i
    while True:
        if i >= n:
            raise Bad("unclosed placeholder", st - 1, n)
        if s[i] == "}":
            return i + 1, ("ph", s[st:i], None)
        if s[i] == ":":
            if i + 1 < n and s[i + 1] == ":":
                i += 2
                continue
            break
        i += 1
    name = s[st:i]
    op = i
    i += 1
    if i >= n:
        raise Bad("unclosed placeholder", st - 1, n)
    if s[i] == "}":
        raise Bad("empty option", op, i + 1)
    if s[i] == "/":
        body, i = "", i + 1
        while True:
            if i >= n:
                raise Bad("unterminated regex", op, n)
            if s[i] == "/":
                break
            if s[i] == "\\":
                if i + 1 >= n:
                    raise Bad("unterminated regex", op, n)
                body += "/" if s[i + 1] == "/" else s[i:i + 2]
                i += 2
            else:
                body += s[i]
                i += 1
        i += 1
        if i >= n:
            raise Bad("unclosed placeholder", st - 1, n)
        if s[i] != "}":
            raise Bad("regex not followed by }", op, i + 1)
        return i + 1, ("ph", name, ("regex", body))
    e = s.find("}", i)
    if e < 0:
        raise Bad("unclosed placeholder", st - 1, n)
    o = s[i:e]
    if o in OPTIONS:
        return e + 1, ("ph", name, ("radix", o))
    if o[:1] == "r" and o[1:].isascii() and o[1:].lstrip("+").isdigit():
        d = o[1:]
        if 2 <= int(d) <= 36:
            if d != str(int(d)):
                raise Unspecified("radix " + d)
            return e + 1, ("ph", name, ("radix", o))
        raise Bad("radix out of range", op, e + 1)
    raise Bad("unknown option " + o, op, e + 1)


INTS = {s + b for s in "iu" for b in ("8", "16", "32", "64", "128", "size")}


def bind(parsed, types, known, regex_ok):
    """Resolves placeholders. types: names after the format; known: {name: model node} of valid type names;
    regex_ok: body -> bool. Returns [("lit", text) | ("ph", type name, option)]."""
    used, nxt, out = set(), 0, []
    todo = None
    for p in parsed:
        if p[0] == "lit":
            out.append(p)
            continue
        _, name, opt = p
        if name == "":
            if nxt >= len(types):
                raise Bad("more placeholders than types")
            used.add(nxt)
            t = types[nxt]
            nxt += 1
        elif name.isascii() and name.isdigit():
            if int(name) >= len(types):
                raise Bad("index out of range")
            if name != str(int(name)):
                todo = Unspecified("index " + name)
            used.add(int(name))
            t = types[int(name)]
        elif name in known:
            t = name
        elif "//" in name or "/*" in name:
            raise Unspecified("comment in a type name")
        elif "".join(name.split()) in known or name.strip() in known or (name.strip().lstrip("+").isdigit() and name.isascii()):
            raise Unspecified("name " + repr(name))
        else:
            raise Bad("not a type: " + name)
        if opt and opt[0] == "radix" and t not in INTS:
            raise Bad("radix on " + t)
        if opt and opt[0] == "regex" and not regex_ok(opt[1]):
            raise Bad("invalid regex")
        out.append(("ph", t, opt))
    if len(used) != len(types):
        raise Bad("unused type")
    if todo:
        raise todo
    return out


def regexes(parsed):
    return [p[2][1] for p in parsed if p[0] == "ph" and p[2] and p[2][0] == "regex"]
