//! The reference model: written from sscanf's documentation, sharing no code with it.
//!
//! A format is a transition system. Its states are (program counter, input position), its
//! transitions consume one character or choose a branch; branches are ordered. `search` explores
//! it depth first in that order with a visited set, so that it finds the first accepting path in
//! priority order, or proves by exhausting the reachable states that there is none.

use crate::json::J;

#[derive(Debug, Clone)]
pub enum Set {
    One(char),
    Ranges(Vec<(char, char)>, bool),
    Dot,
    UniDigit,
}
impl Set {
    pub fn has(&self, c: char) -> bool {
        match self {
            Set::One(x) => *x == c,
            Set::Ranges(r, neg) => r.iter().any(|(a, b)| *a <= c && c <= *b) != *neg,
            Set::Dot => c != '\n',
            Set::UniDigit => is_digit(c),
        }
    }
}
/// Unicode Nd, the documented meaning of \d. Membership of non-ASCII characters is taken from the
/// regex crate's one-character class.
fn is_digit(c: char) -> bool {
    if c.is_ascii() {
        return c.is_ascii_digit();
    }
    thread_local!(static D: regex::Regex = regex::Regex::new(r"^\d$").unwrap());
    let mut b = [0; 4];
    D.with(|d| d.is_match(c.encode_utf8(&mut b)))
}

#[derive(Debug, Clone)]
pub enum Pat {
    Set(Set),
    Lit(String),
    Cat(Vec<Pat>),
    Alt(Vec<Pat>),
    Rep(Box<Pat>, u32, Option<u32>, bool),
    Cap(usize, Box<Pat>),
    /// a placeholder of this type, replaced when captures are numbered
    Node(Box<Node>),
}

#[derive(Debug, Clone)]
enum Inst {
    Set(Set),
    Split(usize, usize),
    Jmp(usize),
    Save(usize),
    Match,
}

#[derive(Debug, Clone, Default)]
pub struct Prog {
    insts: Vec<Inst>,
    nslots: usize,
}

#[derive(Default, Clone, Copy)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
}

impl Prog {
    pub fn compile(p: &Pat) -> Prog {
        let mut g = Prog::default();
        g.emit(p);
        g.insts.push(Inst::Match);
        g
    }
    fn emit(&mut self, p: &Pat) {
        match p {
            Pat::Set(s) => self.insts.push(Inst::Set(s.clone())),
            Pat::Lit(s) => {
                for c in s.chars() {
                    self.insts.push(Inst::Set(Set::One(c)));
                }
            }
            Pat::Cat(v) => {
                for x in v {
                    self.emit(x);
                }
            }
            Pat::Alt(v) => {
                let mut jumps = vec![];
                for (i, x) in v.iter().enumerate() {
                    if i + 1 < v.len() {
                        let s = self.insts.len();
                        self.insts.push(Inst::Split(s + 1, 0));
                        self.emit(x);
                        jumps.push(self.insts.len());
                        self.insts.push(Inst::Jmp(0));
                        let n = self.insts.len();
                        self.insts[s] = Inst::Split(s + 1, n);
                    } else {
                        self.emit(x);
                    }
                }
                let n = self.insts.len();
                for j in jumps {
                    self.insts[j] = Inst::Jmp(n);
                }
            }
            Pat::Rep(x, min, max, greedy) => {
                for _ in 0..*min {
                    self.emit(x);
                }
                let split = |greedy: bool, body: usize, end: usize| {
                    if greedy {
                        Inst::Split(body, end)
                    } else {
                        Inst::Split(end, body)
                    }
                };
                match max {
                    None => {
                        let s = self.insts.len();
                        self.insts.push(Inst::Jmp(0));
                        self.emit(x);
                        self.insts.push(Inst::Jmp(s));
                        let n = self.insts.len();
                        self.insts[s] = split(*greedy, s + 1, n);
                    }
                    Some(m) => {
                        let mut splits = vec![];
                        for _ in *min..*m {
                            splits.push(self.insts.len());
                            self.insts.push(Inst::Jmp(0));
                            self.emit(x);
                        }
                        let n = self.insts.len();
                        for s in splits {
                            self.insts[s] = split(*greedy, s + 1, n);
                        }
                    }
                }
            }
            Pat::Cap(i, x) => {
                self.nslots = self.nslots.max(2 * i + 2);
                self.insts.push(Inst::Save(2 * i));
                self.emit(x);
                self.insts.push(Inst::Save(2 * i + 1));
            }
            Pat::Node(_) => unreachable!(),
        }
    }

    /// The first accepting path in priority order over the whole of `input` (from position 0 to
    /// the end), as its capture slots in bytes.
    pub fn search(&self, input: &str, st: &mut Stats) -> Option<Vec<Option<usize>>> {
        let n = input.len() + 1;
        let mut visited = vec![false; self.insts.len() * n];
        enum Job {
            Go(usize, usize),
            Restore(usize, Option<usize>),
        }
        let mut slots = vec![None; self.nslots];
        let mut stack = vec![Job::Go(0, 0)];
        while let Some(job) = stack.pop() {
            let (mut pc, mut pos) = match job {
                Job::Restore(i, v) => {
                    slots[i] = v;
                    continue;
                }
                Job::Go(a, b) => (a, b),
            };
            loop {
                st.transitions += 1;
                let seen = &mut visited[pc * n + pos];
                if *seen {
                    break;
                }
                *seen = true;
                st.states += 1;
                match &self.insts[pc] {
                    Inst::Set(s) => match input[pos..].chars().next() {
                        Some(c) if s.has(c) => {
                            pos += c.len_utf8();
                            pc += 1;
                        }
                        _ => break,
                    },
                    Inst::Split(a, b) => {
                        stack.push(Job::Go(*b, pos));
                        pc = *a;
                    }
                    Inst::Jmp(a) => pc = *a,
                    Inst::Save(i) => {
                        stack.push(Job::Restore(*i, slots[*i]));
                        slots[*i] = Some(pos);
                        pc += 1;
                    }
                    Inst::Match => {
                        if pos == input.len() {
                            return Some(slots);
                        }
                        break;
                    }
                }
            }
        }
        None
    }
}

// ------------------------------------------------------------------------------------------------
// types

#[derive(Debug, Clone)]
pub enum Conv {
    /// decimal integer: signed, bits, nonzero
    Int(bool, u32, bool),
    /// radix, prefix letter, prefix required
    Radix(bool, u32, u32, Option<char>, bool),
    F32,
    F64,
    Str,
    Char,
    Bool,
    /// the piece has to match this regex as a whole (regex crate); the value is the piece
    Rx(regex::Regex),
    /// any named function of `convs`
    Named(String),
}

#[derive(Debug, Clone)]
pub enum Node {
    Leaf(Pat, Conv),
    /// like Leaf, but an arbitrary pattern around several nodes, and the result built from them
    Struct(Pat, Build),
    Enum(String, Vec<(Pat, Build)>),
    /// a reference to a named type of the spec
    Ref(String),
    /// the piece that another node takes, converted as a whole
    Text(Box<Node>, Conv),
}

/// How the Debug form of a value is made from the Debug forms of its parts.
#[derive(Debug, Clone)]
pub struct Build {
    pub name: String,
    /// "named", "tuple", "unit", or "bare" for the single part itself (transparent)
    pub kind: String,
    pub fields: Vec<Field>,
}
#[derive(Debug, Clone)]
pub struct Field {
    pub name: String,
    pub src: Option<usize>,
    pub map: Option<String>,
    pub konst: Option<String>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Outcome {
    No,
    /// names along the way, outermost first, and the message of the original error
    Fail(Vec<String>, String),
    Ok(String),
    Panic(String),
}

pub struct Caps<'a> {
    pub input: &'a str,
    pub slots: Vec<Option<usize>>,
}
impl<'a> Caps<'a> {
    fn piece(&self, i: usize) -> Option<(usize, &'a str)> {
        let a = self.slots[2 * i]?;
        let b = self.slots[2 * i + 1]?;
        Some((a, &self.input[a..b]))
    }
}

pub type ConvErr = (Vec<String>, String);
pub type NamedConv = fn(&str, usize) -> Result<String, ConvErr>;

pub struct Model {
    pub prog: Prog,
    root: Vec<RNode>,
}

/// A node whose captures are numbered
enum RNode {
    Leaf(usize, Conv),
    Struct(Vec<RNode>, Build),
    Enum(String, Vec<(usize, Vec<RNode>, Build)>),
}

pub struct Types<'a> {
    pub named: &'a std::collections::HashMap<String, Node>,
    pub convs: &'a dyn Fn(&str) -> NamedConv,
    pub maps: &'a dyn Fn(&str) -> fn(&str) -> Result<String, ConvErr>,
}

impl Model {
    pub fn new(items: &Pat, types: &Types) -> Model {
        let mut next = 0;
        let mut root = vec![];
        let pat = number(items, &mut next, &mut root, types);
        Model { prog: Prog::compile(&pat), root }
    }
    /// Decides one input: the Debug forms of the values in placeholder order.
    pub fn run(&self, input: &str, types: &Types, st: &mut Stats) -> Result<Vec<String>, Outcome> {
        let slots = self.prog.search(input, st).ok_or(Outcome::No)?;
        let caps = Caps { input, slots };
        let mut out = vec![];
        for n in &self.root {
            out.push(eval(n, &caps, types).map_err(|(c, m)| Outcome::Fail(c, m))?);
        }
        Ok(out)
    }
    pub fn outcome(&self, input: &str, types: &Types, st: &mut Stats) -> Outcome {
        match self.run(input, types, st) {
            Ok(v) if v.len() == 1 => Outcome::Ok(v.into_iter().next().unwrap()),
            Ok(v) => Outcome::Ok(format!("({})", v.join(", "))),
            Err(o) => o,
        }
    }
}

fn number(p: &Pat, next: &mut usize, nodes: &mut Vec<RNode>, types: &Types) -> Pat {
    let mut all = |v: &[Pat]| v.iter().map(|x| number(x, next, nodes, types)).collect::<Vec<_>>();
    match p {
        Pat::Set(_) | Pat::Lit(_) => p.clone(),
        Pat::Cat(v) => Pat::Cat(all(v)),
        Pat::Alt(v) => Pat::Alt(all(v)),
        Pat::Rep(x, a, b, g) => Pat::Rep(Box::new(number(x, next, nodes, types)), *a, *b, *g),
        Pat::Cap(..) => unreachable!(),
        Pat::Node(n) => {
            let (p, r) = number_node(n, next, types);
            nodes.push(r);
            p
        }
    }
}
fn number_node(n: &Node, next: &mut usize, types: &Types) -> (Pat, RNode) {
    match n {
        Node::Leaf(p, c) => {
            let i = *next;
            *next += 1;
            (Pat::Cap(i, Box::new(p.clone())), RNode::Leaf(i, c.clone()))
        }
        Node::Struct(items, b) => {
            let mut v = vec![];
            let p = number(items, next, &mut v, types);
            (p, RNode::Struct(v, b.clone()))
        }
        Node::Enum(name, vars) => {
            let mut alts = vec![];
            let mut rs = vec![];
            for (items, b) in vars {
                let i = *next;
                *next += 1;
                let mut v = vec![];
                let p = number(items, next, &mut v, types);
                alts.push(Pat::Cap(i, Box::new(p)));
                rs.push((i, v, b.clone()));
            }
            (Pat::Alt(alts), RNode::Enum(name.clone(), rs))
        }
        Node::Ref(name) => {
            let n = types.named.get(name).unwrap_or_else(|| panic!("no type {name}"));
            number_node(n, next, types)
        }
        Node::Text(n, c) => {
            let i = *next;
            *next += 1;
            (Pat::Cap(i, Box::new(strip_node(n, types))), RNode::Leaf(i, c.clone()))
        }
    }
}

/// The texts a node accepts, without its captures
fn strip_node(n: &Node, types: &Types) -> Pat {
    match n {
        Node::Leaf(p, _) => p.clone(),
        Node::Struct(p, _) => strip(p, types),
        Node::Enum(_, vars) => Pat::Alt(vars.iter().map(|(p, _)| strip(p, types)).collect()),
        Node::Ref(name) => strip_node(&types.named[name], types),
        Node::Text(n, _) => strip_node(n, types),
    }
}
fn strip(p: &Pat, types: &Types) -> Pat {
    let all = |v: &[Pat]| v.iter().map(|x| strip(x, types)).collect::<Vec<_>>();
    match p {
        Pat::Set(_) | Pat::Lit(_) => p.clone(),
        Pat::Cat(v) => Pat::Cat(all(v)),
        Pat::Alt(v) => Pat::Alt(all(v)),
        Pat::Rep(x, a, b, g) => Pat::Rep(Box::new(strip(x, types)), *a, *b, *g),
        Pat::Cap(..) => unreachable!(),
        Pat::Node(n) => strip_node(n, types),
    }
}

fn eval(n: &RNode, caps: &Caps, types: &Types) -> Result<String, ConvErr> {
    match n {
        RNode::Leaf(i, c) => {
            let (at, s) = caps.piece(*i).expect("model: leaf did not take part");
            convert(c, s, at, types)
        }
        RNode::Struct(nodes, b) => build(&b.name, nodes, b, caps, types),
        RNode::Enum(name, vars) => {
            for (i, nodes, b) in vars {
                if caps.piece(*i).is_some() {
                    return build(name, nodes, b, caps, types);
                }
            }
            panic!("model: no variant took part")
        }
    }
}

fn build(tname: &str, nodes: &[RNode], b: &Build, caps: &Caps, types: &Types) -> Result<String, ConvErr> {
    // conversions happen in placeholder order; the first failure is the result
    let mut vals: Vec<Option<String>> = vec![None; b.fields.len()];
    for (k, n) in nodes.iter().enumerate() {
        let fi = b.fields.iter().position(|f| f.src == Some(k)).expect("unused placeholder");
        let f = &b.fields[fi];
        let wrap = |(mut c, m): ConvErr| {
            c.insert(0, tname.to_string());
            (c, if m == "filter" { format!("filter_map of {}", f.name) } else { m })
        };
        let v = eval(n, caps, types).map_err(wrap)?;
        vals[fi] = Some(match &f.map {
            None => v,
            Some(m) => (types.maps)(m)(&v).map_err(wrap)?,
        });
    }
    let vals: Vec<String> = vals
        .into_iter()
        .zip(&b.fields)
        .map(|(v, f)| v.unwrap_or_else(|| f.konst.clone().expect("field without source")))
        .collect();
    Ok(match b.kind.as_str() {
        "unit" => b.name.clone(),
        "bare" => vals.into_iter().next().unwrap(),
        "tuple" => format!("{}({})", b.name, vals.join(", ")),
        "named" => {
            let f: Vec<String> =
                vals.iter().zip(&b.fields).map(|(v, f)| format!("{}: {}", f.name, v)).collect();
            format!("{} {{ {} }}", b.name, f.join(", "))
        }
        k => panic!("kind {k}"),
    })
}

// ------------------------------------------------------------------------------------------------
// conversions

/// Exact value of a digit string, as sign and magnitude; None beyond 2^192.
pub fn magnitude(digits: &str, radix: u32) -> Option<[u64; 3]> {
    let mut m = [0u64; 3];
    for c in digits.chars() {
        let mut carry = digit(c)? as u128;
        if carry >= radix as u128 {
            return None;
        }
        for limb in m.iter_mut() {
            let x = *limb as u128 * radix as u128 + carry;
            *limb = x as u64;
            carry = x >> 64;
        }
        if carry != 0 {
            return Some([u64::MAX; 3]);
        }
    }
    Some(m)
}
fn digit(c: char) -> Option<u32> {
    Some(match c {
        '0'..='9' => c as u32 - '0' as u32,
        'a'..='z' => c as u32 - 'a' as u32 + 10,
        'A'..='Z' => c as u32 - 'A' as u32 + 10,
        _ => return None,
    })
}

/// The canonical decimal text of the number, if it is a value of the type
pub fn int_value(signed: bool, bits: u32, nonzero: bool, neg: bool, digits: &str, radix: u32) -> Option<String> {
    if digits.is_empty() {
        return None;
    }
    let m = magnitude(digits, radix)?;
    if m[2] != 0 {
        return None;
    }
    let v = (m[1] as u128) << 64 | m[0] as u128;
    if neg && !signed {
        return None;
    }
    if v == 0 {
        return if nonzero { None } else { Some("0".into()) };
    }
    let top = if signed { bits - 1 } else { bits };
    let ok = if neg {
        v <= 1u128 << top
    } else if top == 128 {
        true
    } else {
        v < 1u128 << top
    };
    if !ok {
        return None;
    }
    Some(format!("{}{}", if neg { "-" } else { "" }, v))
}

fn convert(c: &Conv, s: &str, at: usize, types: &Types) -> Result<String, ConvErr> {
    let err = |m: &str| Err((vec![], m.to_string()));
    match c {
        Conv::Int(signed, bits, nonzero) => {
            let (neg, d) = sign(s);
            match int_value(*signed, *bits, *nonzero, neg, d, 10) {
                Some(v) => Ok(v),
                None => err(&int_error(*signed, *bits, *nonzero, s, 10)),
            }
        }
        Conv::Radix(signed, bits, radix, prefix, required) => {
            let (neg, mut d) = sign(s);
            let mut had = false;
            if let Some(p) = prefix {
                let b = d.as_bytes();
                if b.len() >= 2 && b[0] == b'0' && (b[1] as char).to_ascii_lowercase() == *p {
                    d = &d[2..];
                    had = true;
                }
            }
            if *required && !had {
                return err(match radix {
                    16 => "Missing prefix: 0x",
                    8 => "Missing prefix: 0o",
                    _ => "Missing prefix: 0b",
                });
            }
            match int_value(*signed, *bits, false, neg, d, *radix) {
                Some(v) => Ok(v),
                None => err(&int_error(*signed, *bits, false, &format!("{}{d}", if neg { "-" } else { "" }), *radix)),
            }
        }
        Conv::F32 => match s.parse::<f32>() {
            Ok(v) => Ok(format!("{v:?}")),
            Err(e) => err(&e.to_string()),
        },
        Conv::F64 => match s.parse::<f64>() {
            Ok(v) => Ok(format!("{v:?}")),
            Err(e) => err(&e.to_string()),
        },
        Conv::Str => Ok(format!("{s:?}")),
        Conv::Char => match (s.chars().count(), s.chars().next()) {
            (1, Some(c)) => Ok(format!("{c:?}")),
            (0, _) => err("cannot parse char from empty string"),
            _ => err("too many characters in string"),
        },
        Conv::Bool if s == "true" || s == "false" => Ok(s.to_string()),
        Conv::Bool => err("provided string was not `true` or `false`"),
        Conv::Rx(r) => {
            if r.is_match(s) {
                Ok(format!("{s:?}"))
            } else {
                err("regex")
            }
        }
        Conv::Named(n) => (types.convs)(n)(s, at),
    }
}
/// The original error: what the standard library says about this text
fn int_error(signed: bool, bits: u32, nonzero: bool, text: &str, radix: u32) -> String {
    use std::num::*;
    macro_rules! go {
        ($($b:literal $u:ident $i:ident $nu:ident $ni:ident),*) => {
            match (bits, signed, nonzero) {
                $(($b, false, false) => $u::from_str_radix(text, radix).err().map(|e| e.to_string()),
                  ($b, true, false) => $i::from_str_radix(text, radix).err().map(|e| e.to_string()),
                  ($b, false, true) => text.parse::<$nu>().err().map(|e| e.to_string()),
                  ($b, true, true) => text.parse::<$ni>().err().map(|e| e.to_string()),)*
                _ => None,
            }
        };
    }
    go!(8 u8 i8 NonZeroU8 NonZeroI8, 16 u16 i16 NonZeroU16 NonZeroI16, 32 u32 i32 NonZeroU32 NonZeroI32,
        64 u64 i64 NonZeroU64 NonZeroI64, 128 u128 i128 NonZeroU128 NonZeroI128)
    .expect("model: no value, but std has one")
}
fn sign(s: &str) -> (bool, &str) {
    match s.as_bytes().first() {
        Some(b'-') => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    }
}

// ------------------------------------------------------------------------------------------------
// built-in types, from the documented table

fn set(r: &[(char, char)]) -> Pat {
    Pat::Set(Set::Ranges(r.to_vec(), false))
}
fn opt(p: Pat) -> Pat {
    Pat::Rep(Box::new(p), 0, Some(1), true)
}
/// "up to n digits" of the documented table (which has 20 for the 64 bit types, signed ones too)
fn digits10(bits: u32) -> u32 {
    match bits {
        8 => 3,
        16 => 5,
        32 => 10,
        64 => 20,
        _ => 39,
    }
}
/// digits that a number of this width needs
pub fn digits_radix(bits: u32, radix: u32) -> u32 {
    let mut v: u128 = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
    let mut n = 0;
    while v > 0 {
        v /= radix as u128;
        n += 1;
    }
    n
}
pub fn int_ty(name: &str) -> Option<(bool, u32, bool)> {
    let (base, nz) = match name.strip_prefix("NonZero") {
        Some(b) => (b.to_lowercase(), true),
        None => (name.to_string(), false),
    };
    let signed = match base.chars().next()? {
        'i' => true,
        'u' => false,
        _ => return None,
    };
    let bits = match &base[1..] {
        "8" => 8,
        "16" => 16,
        "32" => 32,
        "64" | "size" => 64,
        "128" => 128,
        _ => return None,
    };
    Some((signed, bits, nz))
}
pub fn builtin(name: &str) -> Option<Node> {
    if let Some((signed, bits, nz)) = int_ty(name) {
        let s = opt(if signed { set(&[('-', '-'), ('+', '+')]) } else { Pat::Lit("+".into()) });
        let n = digits10(bits);
        let d = Pat::Set(Set::UniDigit);
        let body = if nz {
            Pat::Cat(vec![set(&[('1', '9')]), Pat::Rep(Box::new(d), 0, Some(n - 1), true)])
        } else {
            Pat::Rep(Box::new(d), 1, Some(n), true)
        };
        return Some(Node::Leaf(Pat::Cat(vec![s, body]), Conv::Int(signed, bits, nz)));
    }
    Some(match name {
        "str" | "String" => Node::Leaf(Pat::Rep(Box::new(Pat::Set(Set::Dot)), 1, None, false), Conv::Str),
        "PathBuf" => Node::Leaf(Pat::Rep(Box::new(Pat::Set(Set::Dot)), 1, None, true), Conv::Named("Path".into())),
        "char" => Node::Leaf(Pat::Set(Set::Dot), Conv::Char),
        "bool" => Node::Leaf(Pat::Alt(vec![Pat::Lit("true".into()), Pat::Lit("false".into())]), Conv::Bool),
        "f32" => Node::Leaf(float(), Conv::F32),
        "f64" => Node::Leaf(float(), Conv::F64),
        _ => return None,
    })
}
fn word_ci(w: &str) -> Pat {
    Pat::Cat(w.chars().map(|c| set(&[(c, c), (c.to_ascii_uppercase(), c.to_ascii_uppercase())])).collect())
}
fn float() -> Pat {
    let d = || Pat::Set(Set::UniDigit);
    let some = |g| Pat::Rep(Box::new(d()), g, None, true);
    let dot = || Pat::Lit(".".into());
    Pat::Cat(vec![
        opt(set(&[('+', '+'), ('-', '-')])),
        Pat::Alt(vec![
            word_ci("inf"),
            word_ci("infinity"),
            word_ci("nan"),
            Pat::Cat(vec![
                Pat::Alt(vec![
                    some(1),
                    Pat::Cat(vec![some(1), dot(), some(0)]),
                    Pat::Cat(vec![some(0), dot(), some(1)]),
                ]),
                opt(Pat::Cat(vec![word_ci("e"), opt(set(&[('+', '+'), ('-', '-')])), some(1)])),
            ]),
        ]),
    ])
}
/// {:x} and friends; `opt` as written, without the colon
pub fn radix_node(ty: &str, opt_text: &str) -> Node {
    let (signed, bits, _) = int_ty(ty).unwrap();
    let (required, o) = match opt_text.strip_prefix('#') {
        Some(o) => (true, o),
        None => (opt_text.ends_with('#'), opt_text.trim_end_matches('#')),
    };
    let (radix, prefix) = match o {
        "x" => (16, Some('x')),
        "o" => (8, Some('o')),
        "b" => (2, Some('b')),
        r => (r[1..].parse().unwrap(), None),
    };
    let s = opt(if signed { set(&[('-', '-'), ('+', '+')]) } else { Pat::Lit("+".into()) });
    let mut r = vec![];
    if radix <= 10 {
        r.push(('0', (b'0' + radix as u8 - 1) as char));
    } else {
        r.push(('0', '9'));
        r.push(('a', (b'a' + radix as u8 - 11) as char));
        r.push(('A', (b'A' + radix as u8 - 11) as char));
    }
    let digits = Pat::Rep(Box::new(set(&r)), 1, Some(digits_radix(bits, radix)), true);
    let mut v = vec![s];
    if let Some(p) = prefix {
        let pre = Pat::Cat(vec![Pat::Lit("0".into()), word_ci(&p.to_string())]);
        v.push(if required { pre } else { opt(pre) });
    }
    v.push(digits);
    Node::Leaf(Pat::Cat(v), Conv::Radix(signed, bits, radix, prefix, required))
}

// ------------------------------------------------------------------------------------------------
// reading a model from a spec

fn one(s: &str) -> char {
    let mut i = s.chars();
    let c = i.next().unwrap();
    assert!(i.next().is_none());
    c
}
pub fn read_pat(j: &J) -> Pat {
    match j {
        J::Str(s) if s == "." => Pat::Set(Set::Dot),
        J::Str(s) if s == "d" => Pat::Set(Set::UniDigit),
        J::Obj(v) => {
            let (k, x) = &v[0];
            match k.as_str() {
                "l" => Pat::Lit(x.str().into()),
                "s" | "n" => Pat::Set(Set::Ranges(
                    x.arr()
                        .iter()
                        .map(|r| {
                            let r = r.arr();
                            (one(r[0].str()), one(r[r.len() - 1].str()))
                        })
                        .collect(),
                    k == "n",
                )),
                "ph" => Pat::Node(Box::new(read_node(x))),
                "c" => Pat::Cat(x.arr().iter().map(read_pat).collect()),
                "a" => Pat::Alt(x.arr().iter().map(read_pat).collect()),
                "r" => {
                    let a = x.arr();
                    Pat::Rep(
                        Box::new(read_pat(&a[0])),
                        a[1].num() as u32,
                        a[2].opt_num().map(|n| n as u32),
                        a[3].truthy(),
                    )
                }
                k => panic!("pattern kind {k}"),
            }
        }
        o => panic!("pattern {o:?}"),
    }
}
pub fn read_conv(s: &str) -> Conv {
    match s {
        "str" => Conv::Str,
        "char" => Conv::Char,
        "bool" => Conv::Bool,
        "f32" => Conv::F32,
        "f64" => Conv::F64,
        n if n.starts_with("rx:") => Conv::Rx(regex::Regex::new(&format!("^(?:{})$", &n[3..])).unwrap()),
        n => match int_ty(n) {
            Some((s, b, z)) => Conv::Int(s, b, z),
            None => Conv::Named(n.into()),
        },
    }
}
/// "u8" | "u8:x" | {"re": pat, "conv": name} | {"struct": .., } | {"enum": ..} | "@Name"
pub fn read_node(j: &J) -> Node {
    match j {
        J::Str(s) => {
            if let Some(n) = s.strip_prefix('@') {
                return Node::Ref(n.into());
            }
            match s.split_once(':') {
                None => builtin(s).unwrap_or_else(|| panic!("type {s}")),
                Some((t, o)) => radix_node(t, o),
            }
        }
        J::Obj(_) => {
            if !j.get("re").is_null() {
                Node::Leaf(read_pat(j.get("re")), read_conv(j.get("conv").str()))
            } else if !j.get("text").is_null() {
                // what this node accepts, converted as a single piece
                let c = j.get("conv").opt_str().unwrap_or("str");
                Node::Text(Box::new(read_node(j.get("text"))), read_conv(c))
            } else if !j.get("enum").is_null() {
                Node::Enum(
                    j.get("name").str().into(),
                    j.get("enum").arr().iter().map(|v| (read_items(v.get("items")), read_build(v))).collect(),
                )
            } else {
                Node::Struct(read_items(j.get("items")), read_build(j))
            }
        }
        o => panic!("node {o:?}"),
    }
}
/// Array of: "text" (literal), {"ph": node}, {"pat": pattern}
pub fn read_items(j: &J) -> Pat {
    let f = |i: &J| match i {
        J::Str(s) => Pat::Lit(s.clone()),
        o if !o.get("pat").is_null() => read_pat(o.get("pat")),
        o => Pat::Node(Box::new(read_node(o.get("ph")))),
    };
    Pat::Cat(j.arr().iter().map(f).collect())
}
fn read_build(j: &J) -> Build {
    Build {
        name: j.get("name").str().into(),
        kind: j.get("kind").str().into(),
        fields: j
            .get("fields")
            .arr()
            .iter()
            .map(|f| Field {
                name: f.get("name").opt_str().unwrap_or("").into(),
                src: f.get("src").opt_num().map(|n| n as usize),
                map: f.get("map").opt_str().map(Into::into),
                konst: f.get("const").opt_str().map(Into::into),
            })
            .collect(),
    }
}
