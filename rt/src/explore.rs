//! Runs every call site of a generated program on every input of its bounded input space and
//! compares each result with the model's.

use crate::json::{self, J};
use crate::model::*;
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type SiteFn = fn(&str) -> Outcome;

/// All the inputs that an input spec stands for, each once, in a fixed order.
pub fn inputs(specs: &[&J]) -> Vec<String> {
    let mut seen = HashSet::new();
    let mut out = vec![];
    for s in specs {
        let mut add = |x: String| {
            if seen.insert(x.clone()) {
                out.push(x);
            }
        };
        if !s.get("list").is_null() {
            for x in s.get("list").arr() {
                add(x.str().into());
            }
        }
        if let Some(alpha) = s.get("alpha").opt_str() {
            // every string up to the length
            let pre = s.get("pre").opt_str().unwrap_or("");
            let post = s.get("post").opt_str().unwrap_or("");
            let alpha: Vec<char> = alpha.chars().collect();
            let mut layer = vec![String::new()];
            add(format!("{pre}{post}"));
            for _ in 0..s.get("max").num() {
                let mut next = Vec::with_capacity(layer.len() * alpha.len());
                for x in &layer {
                    for c in &alpha {
                        let mut y = x.clone();
                        y.push(*c);
                        add(format!("{pre}{y}{post}"));
                        next.push(y);
                    }
                }
                layer = next;
            }
        }
        if !s.get("tokens").is_null() {
            // every sequence of tokens up to the length
            let toks: Vec<&str> = s.get("tokens").arr().iter().map(|t| t.str()).collect();
            let mut layer = vec![String::new()];
            add(String::new());
            for _ in 0..s.get("max").num() {
                let mut next = vec![];
                for x in &layer {
                    for t in &toks {
                        let y = format!("{x}{t}");
                        add(y.clone());
                        next.push(y);
                    }
                }
                layer = next;
            }
        }
        if !s.get("product").is_null() {
            let mut all = vec![String::new()];
            for choices in s.get("product").arr() {
                let mut next = vec![];
                for x in &all {
                    for c in choices.arr() {
                        next.push(format!("{x}{}", c.str()));
                    }
                }
                all = next;
            }
            let edits: Vec<char> = s.get("edits").opt_str().unwrap_or("").chars().collect();
            for x in &all {
                add(x.clone());
            }
            if !edits.is_empty() {
                for x in &all {
                    let cs: Vec<char> = x.chars().collect();
                    for i in 0..=cs.len() {
                        for e in &edits {
                            let mut y: String = cs[..i].iter().collect();
                            y.push(*e);
                            y.extend(&cs[i..]);
                            add(y);
                            if i < cs.len() {
                                let mut y: String = cs[..i].iter().collect();
                                y.push(*e);
                                y.extend(&cs[i + 1..]);
                                add(y);
                            }
                        }
                        if i < cs.len() {
                            let mut y: String = cs[..i].iter().collect();
                            y.extend(&cs[i + 1..]);
                            add(y);
                        }
                    }
                }
            }
        }
        if let Some(w) = s.get("floats").opt_num() {
            // values of every exponent, with several mantissas, as Rust prints them
            let (ebits, mbits) = if w == 32 { (8, 23) } else { (11, 52) };
            for e in 0..1u64 << ebits {
                let mut ms = vec![0, 1, (1u64 << mbits) - 1, 1 << (mbits - 1), 0x5555_5555_5555_5555 & ((1 << mbits) - 1)];
                if e == 0 || e % 64 == 5 {
                    ms.extend((0..mbits).map(|k| 1u64 << k));
                    ms.extend((0..mbits).map(|k| ((1u64 << mbits) - 1) ^ (1u64 << k)));
                }
                for m in ms {
                    for sign in 0..2u64 {
                        let b = sign << (ebits + mbits) | e << mbits | m;
                        if w == 32 {
                            let v = f32::from_bits(b as u32);
                            for t in [format!("{v}"), format!("{v:?}"), format!("{v:e}"), format!("{v:E}"), format!("{v:+}")] {
                                add(t);
                            }
                        } else {
                            let v = f64::from_bits(b);
                            for t in [format!("{v}"), format!("{v:?}"), format!("{v:e}"), format!("{v:E}"), format!("{v:+}")] {
                                add(t);
                            }
                        }
                    }
                }
            }
        }
        if let Some(r) = s.get("range").opt_str() {
            // every integer of a range, in its decimal form (and signed form)
            let (a, b) = r.split_once("..").unwrap();
            let (a, b): (i64, i64) = (a.parse().unwrap(), b.parse().unwrap());
            for n in a..=b {
                add(n.to_string());
                if n >= 0 {
                    add(format!("+{n}"));
                }
            }
        }
    }
    // some of them with a character before or behind that a careless step could drop or take in, twice, and in the other case
    let framed = !specs.iter().any(|s| s.get("unframed").truthy()) && specs.iter().any(|s| ["product", "tokens", "alpha"].iter().any(|k| !s.get(k).is_null()));
    if framed {
        let n = out.len();
        let mut bases: Vec<usize> = (0..n.min(8)).chain((0..8).map(|k| n / 8 * k)).collect();
        bases.sort();
        bases.dedup();
        for b in bases {
            let x = out[b].clone();
            for c in ["\0", " ", "\n", "\r\n", "\t", "\u{b}", "\u{a0}", "\u{85}", "\u{2028}", "\u{200b}", "\u{feff}", "\u{301}", "\"", "\\"] {
                out.push(format!("{c}{x}"));
                out.push(format!("{x}{c}"));
            }
            out.push(format!("{x}{x}"));
            out.push(x.to_ascii_uppercase());
            out.push(x.to_ascii_lowercase());
        }
        let mut seen = HashSet::new();
        out.retain(|x| seen.insert(x.clone()));
    }
    out
}

pub fn call(f: SiteFn, input: &str) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| f(input))) {
        Ok(o) => o,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Outcome::Panic(m)
        }
    }
}

fn agree(want: &Outcome, got: &Outcome, deep: bool, coarse: bool) -> bool {
    match (want, got) {
        (Outcome::No | Outcome::Fail(..), Outcome::No | Outcome::Fail(..)) if coarse => true,
        (Outcome::Fail(a, b), Outcome::Fail(c, d)) => !deep || (a == c && b == d),
        (a, b) => a == b,
    }
}

/// Calls that involve an implementation which takes or declares a wrong number of captures (c22.py):
/// "always" means that the pattern itself gives it away, so that no call can succeed; otherwise a call whose
/// value would contain the faulty type must not succeed (strict: has to panic, with a message by sscanf).
fn agree_fault(want: &Outcome, got: &Outcome, fault: &J, first: bool) -> bool {
    let reported = |o: &Outcome| matches!(o, Outcome::Panic(m) if m.contains("sscanf"));
    if fault.get("always").truthy() {
        return if first { reported(got) } else { matches!(got, Outcome::Panic(_)) };
    }
    match want {
        Outcome::Ok(v) if v.contains("Faulty") => {
            if fault.get("strict").truthy() {
                reported(got)
            } else {
                !matches!(got, Outcome::Ok(_) | Outcome::No)
            }
        }
        // the conversion that fails may stand before or after the faulty type
        Outcome::Fail(..) => matches!(got, Outcome::Fail(..) | Outcome::Panic(_)),
        _ => want == got,
    }
}

pub fn show(o: &Outcome) -> String {
    match o {
        Outcome::No => "MatchFailed".into(),
        Outcome::Fail(c, m) if c.is_empty() => format!("ParsingFailed({m})"),
        Outcome::Fail(c, m) => format!("ParsingFailed({}: {m})", c.join(" > ")),
        Outcome::Ok(s) => format!("Ok({s})"),
        Outcome::Panic(s) => format!("panic({})", s.lines().next().unwrap_or("")),
    }
}

/// Entry point of a generated shard. Arguments: spec file, or spec file, site id, input.
pub fn main(sites: &[(&str, SiteFn)]) {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let spec = json::parse(&std::fs::read_to_string(&args[1]).unwrap());
    let by_id: HashMap<&str, SiteFn> = sites.iter().copied().collect();
    let mut named = HashMap::new();
    if let J::Obj(v) = spec.get("types") {
        for (n, j) in v {
            named.insert(n.clone(), read_node(j));
        }
    }
    let types = Types { named: &named, convs: &crate::convs::conv, maps: &crate::convs::map };
    let input_specs = spec.get("inputs").arr();
    let only = args.get(2).cloned();

    let mut cache: HashMap<Vec<i64>, std::rc::Rc<Vec<String>>> = HashMap::new();
    let mut st = Stats::default();
    let (mut runs, mut oks, mut fails, mut nos) = (0u64, 0u64, 0u64, 0u64);
    let mut nsites = 0;
    let mut violations: Vec<String> = vec![];
    let mut total_violations = 0u64;
    let mut samples: Vec<String> = vec![];
    for s in spec.get("sites").arr() {
        let id = s.get("id").str();
        if only.as_deref().is_some_and(|o| o != id) {
            continue;
        }
        // a site that did not compile is reported by the driver
        let Some(&f) = by_id.get(id) else { continue };
        nsites += 1;
        eprintln!("@{id}");
        let model = Model::new(&read_items(s.get("items")), &types);
        let coarse = s.get("coarse").truthy();
        let deep = s.get("deep").truthy();
        let list = match args.get(3) {
            Some(i) => std::rc::Rc::new(vec![i.clone()]),
            None => {
                let key: Vec<i64> = s.get("in").arr().iter().map(|n| n.num()).collect();
                if key.len() > 1 || cache.len() > 400 {
                    cache.clear();
                }
                cache
                    .entry(key.clone())
                    .or_insert_with(|| {
                        std::rc::Rc::new(inputs(
                            &key.iter().map(|&n| &input_specs[n as usize]).collect::<Vec<_>>(),
                        ))
                    })
                    .clone()
            }
        };
        let mut here = 0;
        let mut site_oks = 0;
        for input in list.iter() {
            let want = model.outcome(input, &types, &mut st);
            let got = call(f, input);
            runs += 1;
            match want {
                Outcome::Ok(_) => {
                    oks += 1;
                    site_oks += 1;
                }
                Outcome::No => nos += 1,
                _ => fails += 1,
            }
            if only.is_some() {
                println!("input {input:?}\n  required: {}\n  got:      {}", show(&want), show(&got));
            }
            let fault = s.get("fault");
            let same = if fault.is_null() { agree(&want, &got, deep, coarse) } else { agree_fault(&want, &got, fault, input == &list[0]) };
            if !same {
                here += 1;
                total_violations += 1;
                if here <= 2 && violations.len() < 40 {
                    violations.push(format!(
                        "{{\"site\":{},\"input\":{},\"want\":{},\"got\":{}}}",
                        json::quote(id),
                        json::quote(input),
                        json::quote(&if fault.is_null() || !matches!(want, Outcome::Ok(_)) { show(&want) } else { format!("{} or, if that takes the faulty type, a panic", show(&want)) }),
                        json::quote(&show(&got))
                    ));
                }
            }
            if samples.len() < 3 && site_oks == 1 && !matches!(want, Outcome::No) && nsites % 7 == 1 {
                samples.push(format!(
                    "{{\"site\":{},\"input\":{},\"result\":{}}}",
                    json::quote(id),
                    json::quote(input),
                    json::quote(&show(&want))
                ));
                site_oks += 1;
            }
        }
        if site_oks == 0 && !s.get("may_be_empty").truthy() && args.get(3).is_none() {
            // no input of the space is accepted: the site explores nothing of interest
            samples.push(format!("{{\"site\":{},\"vacuous\":true}}", json::quote(id)));
        }
    }
    println!(
        "{{\"sites\":{nsites},\"runs\":{runs},\"ok\":{oks},\"fail\":{fails},\"nomatch\":{nos},\"states\":{},\"transitions\":{},\"nviol\":{total_violations},\"violations\":[{}],\"samples\":[{}]}}",
        st.states,
        st.transitions,
        violations.join(","),
        samples.join(",")
    );
}
