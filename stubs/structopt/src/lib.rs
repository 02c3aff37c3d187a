//! A stand-in for the part of structopt that /repo uses: the real crate is not available offline,
//! and its successors ask more of the types. Reads `-n value`, `-nvalue`, `-n=value`,
//! `--name value` and `--name=value`; anything else is an error (status 1), as is a missing option.
use std::ffi::OsString;
pub use structopt_derive::StructOpt;

pub trait StructOpt: Sized {
    fn from_iter<I>(iter: I) -> Self
    where
        I: IntoIterator,
        I::Item: Into<OsString> + Clone;
    fn from_args() -> Self {
        Self::from_iter(std::env::args_os())
    }
}

pub struct Spec {
    pub short: &'static str,
    pub long: &'static str,
    pub flag: bool,
    pub default: Option<&'static str>,
}

fn fail(s: String) -> ! {
    eprintln!("error: {s}");
    std::process::exit(1)
}

pub fn scan(args: impl Iterator<Item = OsString>, specs: &[Spec]) -> Vec<Option<String>> {
    let mut found: Vec<Option<String>> = specs.iter().map(|_| None).collect();
    let mut args = args.skip(1).map(|a| a.into_string().unwrap_or_else(|_| fail("invalid UTF-8 was detected".into())));
    while let Some(a) = args.next() {
        let (i, rest) = if let Some(x) = a.strip_prefix("--") {
            let (n, v) = x.split_once('=').map_or((x, None), |(n, v)| (n, Some(v.to_string())));
            (specs.iter().position(|s| !n.is_empty() && s.long == n), v)
        } else if let Some(x) = a.strip_prefix('-').filter(|x| !x.is_empty()) {
            let i = specs.iter().position(|s| !s.short.is_empty() && x.starts_with(s.short));
            let v = i.map(|i| &x[specs[i].short.len()..]).filter(|v| !v.is_empty()).map(|v| v.strip_prefix('=').unwrap_or(v).to_string());
            (i, v)
        } else {
            (None, None)
        };
        if i.is_none() && (a == "--help" || a == "-h" || a == "--version" || a == "-V") {
            println!("usage: see the source");
            std::process::exit(0);
        }
        let Some(i) = i else { fail(format!("found argument '{a}' which wasn't expected")) };
        if found[i].is_some() {
            fail(format!("the argument '{a}' was provided more than once"));
        }
        found[i] = Some(match (specs[i].flag, rest) {
            (true, _) => String::new(),
            (false, Some(v)) => v,
            (false, None) => args.next().filter(|v| !v.starts_with('-')).unwrap_or_else(|| fail(format!("the argument '{a}' requires a value"))),
        });
    }
    found
}

pub fn required(found: &Option<String>, spec: &Spec) -> String {
    match (found, spec.default) {
        (Some(v), _) => v.clone(),
        (None, Some(d)) => d.to_string(),
        (None, None) => fail(format!("the argument '--{}' was not provided", spec.long)),
    }
}

pub fn parse<T: std::str::FromStr>(s: &str, spec: &Spec) -> T
where
    T::Err: std::fmt::Display,
{
    s.parse().unwrap_or_else(|e| fail(format!("invalid value for '--{}': {e}", spec.long)))
}
