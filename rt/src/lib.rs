//! Reference model and exhaustive explorer for sscanf. See /verif/DESIGN.md.
pub mod convs;
pub mod explore;
pub mod hist;
mod inside;
pub mod json;
pub mod model;
pub mod rx;

use std::fmt::Debug;

/// What an implementation call did.
pub use model::Outcome as O;

/// Observes the result of a `sscanf!` call.
pub fn res<T: Debug>(r: Result<T, sscanf::Error>) -> O {
    match r {
        Ok(v) => O::Ok(format!("{v:?}")),
        Err(e) => err(e),
    }
}
pub fn err(e: sscanf::Error) -> O {
    let (names, root, bad) = chain(&e);
    if let Some(b) = bad {
        return O::Fail(names, format!("BROKEN CHAIN {b}"));
    }
    match e {
        sscanf::Error::MatchFailed if names.is_empty() => O::No,
        sscanf::Error::MatchFailed => O::Fail(names, "MatchFailed with a source".into()),
        sscanf::Error::ParsingFailed(_) => O::Fail(names, root),
    }
}
/// Walks from the error to its root: the derived types on the way, what the root is, and whether
/// some message on the way does not contain the message of its cause.
pub fn chain(e: &sscanf::Error) -> (Vec<String>, String, Option<String>) {
    use std::error::Error;
    let mut names = vec![];
    let mut bad = None;
    let mut at: &(dyn Error + 'static) = e;
    loop {
        if let Some(d) = at.downcast_ref::<sscanf::errors::FromScanfFailedError>() {
            names.push(d.type_name.to_string());
            if !d.to_string().contains(d.type_name) || d.source().map(|s| s.to_string()) != Some(d.error.to_string()) {
                bad = Some(format!("{d}: source {:?}", d.source().map(|s| s.to_string())));
            }
        }
        macro_rules! from_str {
            ($($t:ty),*) => { $(if let Some(d) = at.downcast_ref::<sscanf::errors::FromStrFailedError<$t>>() {
                if d.type_name != std::any::type_name::<$t>() || d.source().map(|s| s.to_string()) != Some(d.error.to_string()) {
                    bad = Some(format!("{d}: source {:?}", d.source().map(|s| s.to_string())));
                }
            })* };
        }
        use std::num::*;
        from_str!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize, f32, f64, bool, char, String,
            NonZeroU8, NonZeroI8, NonZeroU16, NonZeroI16, NonZeroU64, NonZeroI64);
        match at.source() {
            None => break,
            Some(s) => {
                if !at.to_string().contains(&s.to_string()) {
                    bad = Some(format!("{at:?} does not contain {s:?}"));
                }
                at = s;
            }
        }
    }
    let root = match at.downcast_ref::<sscanf::errors::FilterMapNoneError>() {
        Some(f) if f.to_string().contains(f.field_name) => format!("filter_map of {}", f.field_name),
        _ => at.to_string(),
    };
    (names, root, bad)
}
/// Observes the capture groups (with these numbers) of a regex on an input.
pub fn groups(r: &sscanf::regex::Regex, i: &str, nums: &[usize], len: usize) -> O {
    if r.captures_len() != len {
        return O::Panic(format!("{} groups instead of {len}", r.captures_len()));
    }
    let c = r.captures(i);
    if r.is_match(i) != c.is_some() {
        return O::Panic("is_match and captures differ".into());
    }
    match c {
        None => O::No,
        Some(c) if c.get(0).map(|m| m.as_str()) != Some(i) => O::Panic("the match is not the whole input".into()),
        Some(c) if nums.len() == 1 => O::Ok(format!("{:?}", c.get(nums[0]).map_or("", |m| m.as_str()))),
        Some(c) => O::Ok(format!(
            "({})",
            nums.iter().map(|n| format!("{:?}", c.get(*n).map_or("", |m| m.as_str()))).collect::<Vec<_>>().join(", ")
        )),
    }
}
