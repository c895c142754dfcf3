"""From a bound format (lib/fmtref.py) to model items and Rust result types."""
NODES = {"u8": "u8", "i8": "i8", "i16": "i16", "u16": "u16", "u32": "u32", "i64": "i64", "char": "char", "f32": "f32", "f64": "f64",
         "str": "str", "&str": "str", "String": "String", "bool": "bool", "usize": "usize", "i128": "i128", "u128": "u128"}
RUST = {"str": "&str"}


def model_items(bound, patterns):
    """patterns: {regex body: model pattern}"""
    items, types = [], []
    for b in bound:
        if b[0] == "lit":
            items.append(b[1])
            continue
        _, t, opt = b
        types.append(RUST.get(t, t))
        if opt is None:
            items.append({"ph": NODES[t]})
        elif opt[0] == "radix":
            items.append({"ph": f"{t}:{opt[1]}"})
        else:
            conv = {"String": "str", "&str": "str"}.get(t, t)
            items.append({"ph": {"re": patterns[opt[1]], "conv": conv}})
    return items, types
