//! A minimal JSON reader/writer (the spec files come from our own generator).

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, j)| j).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            J::Null => &[],
            o => panic!("not an array: {o:?}"),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            o => panic!("not a string: {o:?}"),
        }
    }
    pub fn opt_str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn num(&self) -> i64 {
        match self {
            J::Num(n) => *n,
            o => panic!("not a number: {o:?}"),
        }
    }
    pub fn opt_num(&self) -> Option<i64> {
        match self {
            J::Num(n) => Some(*n),
            _ => None,
        }
    }
    pub fn truthy(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
}

pub fn parse(s: &str) -> J {
    let b: Vec<char> = s.chars().collect();
    let mut p = 0;
    let j = value(&b, &mut p);
    ws(&b, &mut p);
    assert_eq!(p, b.len());
    j
}
fn ws(b: &[char], p: &mut usize) {
    while *p < b.len() && b[*p].is_whitespace() {
        *p += 1;
    }
}
fn value(b: &[char], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        '{' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if b[*p] == '}' {
                    *p += 1;
                    return J::Obj(v);
                }
                if b[*p] == ',' {
                    *p += 1;
                    continue;
                }
                let k = match value(b, p) {
                    J::Str(s) => s,
                    o => panic!("{o:?}"),
                };
                ws(b, p);
                assert_eq!(b[*p], ':');
                *p += 1;
                v.push((k, value(b, p)));
            }
        }
        '[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if b[*p] == ']' {
                    *p += 1;
                    return J::Arr(v);
                }
                if b[*p] == ',' {
                    *p += 1;
                    continue;
                }
                v.push(value(b, p));
            }
        }
        '"' => {
            *p += 1;
            let mut s = String::new();
            loop {
                match b[*p] {
                    '"' => {
                        *p += 1;
                        return J::Str(s);
                    }
                    '\\' => {
                        *p += 1;
                        match b[*p] {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'r' => s.push('\r'),
                            'b' => s.push('\u{8}'),
                            'f' => s.push('\u{c}'),
                            'u' => {
                                let h = |q: usize| {
                                    u32::from_str_radix(&b[q..q + 4].iter().collect::<String>(), 16).unwrap()
                                };
                                let mut c = h(*p + 1);
                                *p += 4;
                                if (0xd800..0xdc00).contains(&c) {
                                    let lo = h(*p + 3);
                                    c = 0x10000 + ((c - 0xd800) << 10) + (lo - 0xdc00);
                                    *p += 6;
                                }
                                s.push(char::from_u32(c).unwrap());
                            }
                            c => s.push(c),
                        }
                        *p += 1;
                    }
                    c => {
                        s.push(c);
                        *p += 1;
                    }
                }
            }
        }
        't' => {
            *p += 4;
            J::Bool(true)
        }
        'f' => {
            *p += 5;
            J::Bool(false)
        }
        'n' => {
            *p += 4;
            J::Null
        }
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p].is_ascii_digit() || b[*p] == '-') {
                *p += 1;
            }
            J::Num(b[st..*p].iter().collect::<String>().parse().unwrap())
        }
    }
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
