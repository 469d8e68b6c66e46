//! One check per property, made of parts.

pub mod bits;
pub mod config;
pub mod derived;
pub mod entry;
pub mod fields;
pub mod giant;
pub mod kinds;
pub mod pure;
pub mod robust;
pub mod rows;
pub mod walks;

use crate::raw::{hexbytes, Raw, Ver};
use crate::run::Part;
use serde::{Deserialize, Serialize};

/// one structure under a version
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct One {
    pub ver: Ver,
    pub raw: Raw,
}
pub fn one((ver, raw): (Ver, Raw)) -> One {
    One { ver, raw }
}

/// a buffer walked under an entry point
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Table {
    pub ver: Ver,
    /// 64-bit entry point
    pub v3: bool,
    pub declared: u32,
    #[serde(with = "hexbytes")]
    pub buf: Vec<u8>,
}

pub const IDS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
    "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21",
];
pub fn ids() -> &'static [&'static str] {
    IDS
}

pub fn parts(id: &str) -> Vec<Part> {
    match id {
        "C01" => robust::c01(),
        "C02" => robust::c02(),
        "C03" => entry::c03(),
        "C04" => walks::c04(),
        "C05" => walks::c05(),
        "C06" => walks::c06(),
        "C07" => kinds::c07(),
        "C08" => kinds::c08(),
        "C09" => fields::c09(),
        "C10" => fields::c10(),
        "C11" => fields::c11(),
        "C12" => fields::c12(),
        "C13" => fields::c13(),
        "C14" => fields::c14(),
        "C15" => fields::c15(),
        "C16" => fields::c16(),
        "C17" => kinds::c17(),
        "C18" => bits::c18(),
        "C19" => derived::c19(),
        "C20" => pure::c20(),
        "C21" => config::c21(),
        _ => {
            eprintln!("no property {id}");
            std::process::exit(2);
        }
    }
}

pub fn assumptions(id: &str) -> Vec<&'static str> {
    let mut v = vec![
        "exploration: absence of a violation is shown for the generated cases only, not for all inputs",
        "the reference model and the code tables in /verif/harness are right; they were written from the SMBIOS layouts and compared with the code",
    ];
    match id {
        "C21" => v.push("inputs of up to some hundred kilobytes"),
        "C02" => v.push("a read outside the buffer shows in a value, or reaches an unmapped page right before or behind it"),
        "C07" | "C09" | "C10" | "C11" | "C12" | "C13" | "C14" | "C15" => {
            v.push("strings are valid UTF-8, as the library's interface takes them to be")
        }
        _ => {}
    }
    v
}
