"""Helpers that the generators share."""
from lib.core import rs, raw


def esc(text):
    """literal text as it is written in a format string"""
    return text.replace("{", "{{").replace("}", "}}")


class Sites:
    """Collects call sites and their (deduplicated) input spaces."""

    def __init__(self):
        self.sites = []
        self.inputs = []
        self._idx = {}
        self.keys = set()

    def inp(self, spec):
        k = repr(spec)
        if k not in self._idx:
            self._idx[k] = len(self.inputs)
            self.inputs.append(spec)
        return self._idx[k]

    def add(self, code, items, specs, src=None, decl="", **kw):
        key = (code, decl)
        if key in self.keys:
            return
        self.keys.add(key)
        self.sites.append(dict(id=f"s{len(self.sites)}", code=code, items=items, decl=decl,
                               src=src or (decl + " " + code).strip(), **{"in": [self.inp(s) for s in specs]}, **kw))


def call(fmt_lit, args=(), ret=None, macro="sscanf", inp="i"):
    """observed call; ret annotates the type of the result, so that a different type cannot compile"""
    a = "".join(", " + x for x in args)
    m = f"sscanf::{macro}!({inp}, {fmt_lit}{a})"
    if ret is None:
        return f"res({m})"
    return f"{{ let r: Result<{ret}, sscanf::Error> = {m}; res(r) }}"


def ret_of(types):
    """Rust type of the result for these placeholder types"""
    if len(types) == 1:
        return types[0]
    return "(" + ", ".join(types) + ")"


SAMPLES = {
    "u8": ["0", "7", "42", "255"],
    "i8": ["-128", "+5", "9"],
    "u16": ["0", "65535"],
    "str": ["a", "bc", "7x"],
    "&str": ["a", "bc", "7x"],
    "String": ["a", "bc"],
    "char": ["a", "7", "é"],
    "bool": ["true", "false"],
    "f32": ["1.5", "-2", "inf"],
    "f64": ["1.5", "-2e3", "nan"],
}
