//! The code tables of the SMBIOS specification, as this library names them.
//! `tables/enums.tsv`: enumeration, code or code range, variant, text, long text;
//! `{n}` stands for the code, `{X}` for the code in hexadecimal.

use crate::obs::SEP;
use std::collections::HashMap;
use std::sync::OnceLock;

pub struct Row {
    pub lo: u32,
    pub hi: u32,
    pub debug: String,
    pub text: String,
    pub long: String,
}

pub type Tables = HashMap<String, Vec<Row>>;

pub fn tables() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        let mut m: Tables = HashMap::new();
        for line in include_str!("../tables/enums.tsv").lines() {
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let f: Vec<&str> = line.split('\t').collect();
            assert_eq!(f.len(), 5, "{line}");
            let (lo, hi) = match f[1].split_once('-') {
                Some((a, b)) => (a, b),
                None => (f[1], f[1]),
            };
            let row = Row {
                lo: u32::from_str_radix(lo, 16).unwrap(),
                hi: u32::from_str_radix(hi, 16).unwrap(),
                debug: f[2].into(),
                text: f[3].into(),
                long: f[4].into(),
            };
            m.entry(f[0].into()).or_default().push(row);
        }
        m
    })
}

fn row(name: &str, code: u32) -> &'static Row {
    let t = tables()
        .get(name)
        .unwrap_or_else(|| panic!("no table {name}"));
    t.iter()
        .find(|r| r.lo <= code && code <= r.hi)
        .unwrap_or_else(|| panic!("no row {name} {code:#x}"))
}

fn fill(s: &str, code: u32) -> String {
    s.replace("{n}", &code.to_string())
        .replace("{X}", &format!("{code:X}"))
}

/// variant, text and long text, separated
pub fn e(name: &str, code: u32) -> String {
    let r = row(name, code);
    format!(
        "{}{SEP}{}{SEP}{}",
        fill(&r.debug, code),
        fill(&r.text, code),
        fill(&r.long, code)
    )
}
/// variant
pub fn d(name: &str, code: u32) -> String {
    fill(&row(name, code).debug, code)
}
/// text
pub fn text(name: &str, code: u32) -> String {
    fill(&row(name, code).text, code)
}
