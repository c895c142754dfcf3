//! Named conversions and maps that generated programs and the model have in common by meaning
//! (the programs define their own side in Rust, next to the call site).

use crate::model::{ConvErr, NamedConv};

fn fail<T>(m: &str) -> Result<T, ConvErr> {
    Err((vec![], m.to_string()))
}

pub fn conv(name: &str) -> NamedConv {
    match name {
        // the piece and where it is, to check that it is borrowed from the input
        "str@" => |s, at| Ok(format!("{:?}", format!("{at}:{s}"))),
        "Path" => |s, _| Ok(format!("{:?}", std::path::Path::new(s))),
        // a type that wraps the piece
        "Word" => |s, _| Ok(format!("Word({s:?})")),
        // c22.py
        "Faulty" => |_, _| Ok("Faulty".into()),
        // a FromStr type that rejects pieces containing 'x' (or 'X')
        "NoX" => |s, _| {
            if s.contains(['x', 'X']) {
                fail(&format!("x in {s}"))
            } else {
                Ok(format!("NoX({s:?})"))
            }
        },
        // hand-written types with capture groups of their own (lib/dtypes.py)
        "H" => |s, _| {
            let mut c = s.chars();
            let (a, b) = (c.next().unwrap(), c.next().unwrap());
            Ok(format!("H({a}, {b:?})"))
        },
        "HO" => |s, _| match &s[1..] {
            "" => Ok("HO(None, false)".into()),
            "n" => Ok("HO(None, true)".into()),
            d if d.parse::<u8>().unwrap() % 2 == 1 => fail(&format!("odd {d}")),
            d => Ok(format!("HO(Some({d}), false)")),
        },
        "HexNumber" => |s, _| {
            let d = s.strip_prefix("0x").or(s.strip_prefix("0X")).unwrap_or(s);
            match crate::model::int_value(false, 64, false, false, d, 16) {
                Some(v) => Ok(format!("HexNumber({v})")),
                None => fail("hex"),
            }
        },
        "FullF32" => |s, _| match s.parse::<f32>() {
            Ok(v) => Ok(format!("FullF32({v:?})")),
            Err(_) => fail("invalid float literal"),
        },
        "FullF64" => |s, _| match s.parse::<f64>() {
            Ok(v) => Ok(format!("FullF64({v:?})")),
            Err(_) => fail("invalid float literal"),
        },
        // c15.py: "!" and k times "+" is an error with k levels
        "FD" => |s, _| match s.strip_prefix('!') {
            Some(k) => fail(&format!("root {}", k.len())),
            None => Ok(format!("FD({})", s.len())),
        },
        "HD" => |s, _| if s == "%" { fail("root 1") } else { Ok(format!("HD({s:?})")) },
        // c16.py
        "Cb" => |s, _| match crate::model::int_value(false, 8, false, false, s, 10) {
            Some(v) => Ok(format!("Cb({v})")),
            None => fail("number too large to fit in target type"),
        },
        "CbH" => |s, _| Ok(format!("CbH({s:?}, {})", s.contains('d'))),
        // digit ( digit ( .. ) ), by its own FromStr or by a call of sscanf
        "Rec" | "Rec0" => |s, _| {
            fn go(s: &str) -> Result<String, ConvErr> {
                match s.find('(') {
                    None => match crate::model::int_value(false, 8, false, false, s, 10) {
                        Some(v) => Ok(format!("Rec({v}, None)")),
                        None => fail("number too large to fit in target type"),
                    },
                    Some(k) => {
                        let inner = go(s[k + 1..].strip_suffix(')').unwrap())?;
                        Ok(format!("Rec({}, Some({inner}))", &s[..k]))
                    }
                }
            }
            go(s)
        },
        "len" => |s, _| Ok(s.chars().count().to_string()),
        "unit" => |_, _| Ok("()".into()),
        n => panic!("conversion {n}"),
    }
}

/// A string from its Debug form.
fn undebug(v: &str) -> String {
    let mut it = v[1..v.len() - 1].chars();
    let mut s = String::new();
    while let Some(c) = it.next() {
        s.push(match (c, if c == '\\' { it.next() } else { None }) {
            ('\\', Some('u')) => {
                let hex: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                char::from_u32(u32::from_str_radix(&hex, 16).unwrap()).unwrap()
            }
            // all that matters here is that they take one byte
            (_, Some(c)) => c,
            (c, None) => c,
        });
    }
    s
}

pub fn map(name: &str) -> fn(&str) -> Result<String, ConvErr> {
    match name {
        "double" => |v| Ok((v.parse::<i128>().unwrap() * 2).to_string()),
        "inc" => |v| Ok((v.parse::<i128>().unwrap() + 1).to_string()),
        "default_string" => |_| Ok("\"\"".into()),
        "k5" => |_| Ok("5".into()),
        "booln" => |v| Ok((v == "true") as u8).map(|b| b.to_string()),
        "f5" => |v| {
            if v.parse::<i128>().unwrap() > 5 {
                Ok(v.to_string())
            } else {
                fail("filter")
            }
        },
        "charof" => |v| Ok(format!("{:?}", char::from(v.parse::<u8>().unwrap()))),
        "some" => |v| Ok(format!("Some({v})")),
        "even" => |v| {
            let n = v.parse::<i128>().unwrap();
            if n % 2 == 0 {
                Ok((n / 2).to_string())
            } else {
                fail("filter")
            }
        },
        "u8" => |v| match v.parse::<u8>() {
            Ok(x) => Ok(x.to_string()),
            Err(_) => fail("out of range integral type conversion attempted"),
        },
        "FT" => |v| match v.chars().nth(1) {
            Some(c) if c.is_ascii_digit() => Ok(format!("FT({c})")),
            _ => fail("root 2"),
        },
        "CbT" => |v| match v.parse::<u8>() {
            Ok(x) => Ok(format!("CbT({x})")),
            Err(_) => fail("out of range integral type conversion attempted"),
        },
        "CbF" => |v| Ok(format!("CbF({v})")),
        // a string literal's content length
        "strlen" => |v| Ok(undebug(v).chars().count().to_string()),
        "evenlen" => |v| {
            if undebug(v).len() % 2 == 0 {
                Ok(v.to_string())
            } else {
                fail("filter")
            }
        },
        "pair" => |v| Ok(format!("[{v}, {v}]")),
        "id" => |v| Ok(v.to_string()),
        "wrap" => |v| Ok(format!("W({v})")),
        n => panic!("map {n}"),
    }
}
