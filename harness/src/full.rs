//! Everything a user can get out of a decoded item, as one text.

use crate::obs::{self, item, Item};
use dmidecode::bitfield::BitField;
use dmidecode::{EntryPoint, MalformedStructureError, Structure};
use std::fmt::Write;
use std::hash::{Hash, Hasher};

pub type Decoded<'a> = Result<Structure<'a>, MalformedStructureError>;

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

const MANY: usize = 1000;

fn bits<'a, B: BitField<'a>>(out: &mut String, b: &B) {
    for f in b.iter().take(MANY) {
        let _ = write!(out, "{f:?}{f}{f:#}");
    }
    for f in b.significants().take(MANY) {
        let _ = write!(out, "|{}{f}", *f.position);
    }
    for r in b.reserved().take(MANY) {
        let _ = write!(out, "|{r:?}");
    }
    out.push('\n');
}

/// The estimate of an iterator against what it yields.
fn hints<I: Iterator + Clone>(out: &mut String, what: &str, it: &I) {
    let n = it.clone().take(obs::NEST_LIMIT).count();
    let (low, high) = it.size_hint();
    assert!(
        low <= n && high.is_none_or(|h| n <= h),
        "{what}: {n} items, but the size hint is {low}..{high:?}"
    );
    let last = it.clone().take(obs::NEST_LIMIT).last().is_some();
    let nth = it.clone().nth(n / 2).is_some();
    let step = it.clone().take(obs::NEST_LIMIT).step_by(3).count();
    let _ = write!(out, "{n} {last} {nth} {step}\n");
}

/// A decoded structure, rendered in every way the interface offers.
pub fn structure(s: &Structure<'_>) -> String {
    let mut out = format!("{s:?}\n{s:#?}\n");
    let o = obs::observe(s);
    for (k, v) in &o.fields {
        let _ = write!(out, "{k}={v}\n");
    }
    match s {
        Structure::Bios(b) => {
            bits(&mut out, &b.bios_characteristics);
            if let Some(x) = &b.bios_characteristics_exttension_1 {
                bits(&mut out, x);
            }
            if let Some(x) = &b.bios_characteristics_exttension_2 {
                bits(&mut out, x);
            }
        }
        Structure::Enclosure(b) => {
            if let Some(x) = &b.contained_elements {
                hints(&mut out, "contained elements", x);
                for e in x.clone() {
                    let _ = write!(out, "{e:?}{e}");
                }
            }
        }
        Structure::SystemSlots(b) => {
            bits(&mut out, &b.slot_characteristics_1);
            if let Some(x) = &b.slot_characteristics_2 {
                bits(&mut out, x);
            }
            if let Some(x) = &b.peer_devices {
                hints(&mut out, "peer devices", x);
                for e in x.clone() {
                    let _ = write!(out, "{e:?}{e}");
                }
            }
        }
        Structure::OemStrings(b) => hints(&mut out, "strings", &b.strings),
        Structure::SystemConfigurationOptions(b) => hints(&mut out, "strings", &b.strings),
        Structure::BiosLanguage(b) => {
            hints(&mut out, "languages", &b.installable_languages);
            if let Some(x) = &b.flags {
                bits(&mut out, x);
            }
        }
        Structure::GroupAssociations(b) => hints(&mut out, "group items", &b.items),
        Structure::SystemEventLog(b) => {
            bits(&mut out, &b.log_status);
            if let Some(x) = &b.supported_event_log_type_descriptors {
                hints(&mut out, "descriptors", x);
            }
        }
        Structure::Other(b) => {
            for i in (0..=8).chain(250..=255u8) {
                let _ = write!(out, "{:?}", b.find_string(i));
            }
            for off in (0..=20).chain([60, 254, 255, 256, usize::MAX]) {
                let _ = write!(
                    out,
                    "{:?}{:?}{:?}{:?}{:?}{:?}{:?}",
                    b.get::<u8>(off),
                    b.get::<u16>(off),
                    b.get::<u32>(off),
                    b.get::<u64>(off),
                    b.get::<u128>(off),
                    b.get_string(off),
                    b.get_slice(off, 7)
                );
            }
        }
        _ => {}
    }
    out
}

pub fn decoded(r: &Decoded<'_>) -> String {
    match r {
        Ok(s) => structure(s),
        Err(e) => format!("{e:?}\n{e:#?}\n{e}\n{:?}", item(r)),
    }
}

/// What the standard error trait adds; only with the feature, so no part of a
/// rendering.
#[cfg(feature = "dmi-std")]
fn causes(e: &MalformedStructureError) {
    use std::error::Error;
    let mut n = 0;
    let mut at = e.source();
    while let Some(x) = at {
        let _ = format!("{x}{x:?}");
        n += 1;
        assert!(n < 100, "the causes of {e:?} do not end");
        at = x.source();
    }
}
#[cfg(not(feature = "dmi-std"))]
fn causes(_: &MalformedStructureError) {}

/// All items of a walk. Panics where the walk does not end in time, and on
/// copies that differ.
pub fn table(ep: &EntryPoint, buf: &[u8]) -> Vec<String> {
    let limit = crate::raw::max_items(buf);
    let mut v = vec![];
    let mut it = ep.structures(buf);
    while let Some(r) = it.next() {
        v.push(decoded(&r));
        if let Ok(s) = &r {
            #[allow(clippy::eq_op)]
            let same = s == s && s.clone() == *s && hash_of(s) == hash_of(&s.clone());
            assert!(same, "a copy of {s:?} differs from it");
        }
        if let Err(e) = &r {
            causes(e);
        }
        assert!(
            v.len() <= limit,
            "more than {limit} items from {} bytes",
            buf.len()
        );
    }
    for _ in 0..3 {
        assert!(it.next().is_none(), "an item after the end");
    }
    v
}

/// The outcome of a search.
pub fn search(buf: &[u8]) -> (Option<EntryPoint>, String) {
    match EntryPoint::search(buf) {
        Ok(e) => {
            let t = format!(
                "{e:?} {e:#?} {} {}.{} {} {:#x} {} {:?}",
                e.len(),
                e.major(),
                e.minor(),
                e.revision(),
                e.smbios_address(),
                e.smbios_len(),
                e.to_version()
            );
            (Some(e), t)
        }
        Err(e) => (None, format!("{e:?} {e:#?} {e}")),
    }
}

/// Any entry point: the fields are public, so a version need not be valid.
pub fn any_entry(ver: crate::raw::Ver, declared: u32, v3: bool) -> Result<EntryPoint, String> {
    let mut ep = crate::raw::entry((3, 0), declared, v3)?;
    match &mut ep {
        EntryPoint::V2(e) => (e.major, e.minor) = ver,
        EntryPoint::V3(e) => (e.major, e.minor) = ver,
        #[allow(unreachable_patterns)]
        _ => return Err("entry point of an unknown kind".into()),
    }
    Ok(ep)
}

/// Kind of an item, for labels.
pub fn class(r: &Item) -> &'static str {
    match r {
        Item::Ok(o) => o.kind,
        Item::Err(..) => "error",
    }
}
