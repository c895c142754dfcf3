//! Which texts are regexes without capture groups (asked of the regex crate).
use crate::json::{self, quote};

/// argument: a file with a JSON array of texts; prints a JSON array of 0/1
pub fn main() {
    let f = std::env::args().nth(1).unwrap();
    let j = json::parse(&std::fs::read_to_string(f).unwrap());
    let v: Vec<String> = j
        .arr()
        .iter()
        .map(|b| match regex::Regex::new(b.str()) {
            Ok(r) if r.captures_len() == 1 => "1".into(),
            _ => "0".to_string(),
        })
        .collect();
    let _ = quote;
    println!("[{}]", v.join(","));
}
