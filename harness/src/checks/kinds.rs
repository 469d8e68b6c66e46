//! C07 strings, C08 dispatch and raw access, C17 enumerations.

use super::{one, One};
use crate::gen::{self, structure_of, Style, Sweep};
use crate::guided::{guided, Slot, Slots};
use crate::model::{chemistry, element, info, model, Expect};
use crate::obs::{self, hex, ErrObs, Item, Obs, SEP};
use crate::raw::{decode_one, entry, Raw, Ver};
use crate::run::{exhaustive, random, Cx, Part};
use crate::tables;
use dmidecode::{MalformedStructureError, RawStructure, Structure};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

// --- C07 ------------------------------------------------------------------

fn textual(v: &str) -> bool {
    v.contains('"')
}

fn string_fields(c: &One, cx: &mut Cx) -> Result<(), String> {
    let got = decode_one(c.ver, &c.raw)?;
    match (model(c.ver, &c.raw), got) {
        (Expect::Ok(want), Item::Ok(got)) => {
            for (k, g) in got.values().fields {
                let w = want.get(&k).unwrap_or("(none)");
                if !textual(&g) && !textual(w) {
                    continue;
                }
                if w.len() > 2 {
                    cx.nontrivial();
                }
                if g != w {
                    return Err(format!("{}.{k} is {g}, but refers to {w}", got.kind));
                }
            }
            Ok(())
        }
        (Expect::Err(why), Item::Ok(got))
            if why.iter().any(|e| matches!(e, ErrObs::StringIndex { .. })) =>
        {
            Err(format!("{} is decoded despite {why:?}", got.kind))
        }
        (Expect::Err(why), Item::Err(ErrObs::StringIndex { index, .. }, _)) => {
            cx.nontrivial();
            cx.label("dangling reference");
            if why
                .iter()
                .any(|e| matches!(e, ErrObs::StringIndex { index: i, .. } if *i == index))
            {
                Ok(())
            } else {
                Err(format!("string {index} is reported missing, but {why:?}"))
            }
        }
        (Expect::Ok(_), Item::Err(ErrObs::StringIndex { index, .. }, t)) => Err(format!(
            "string {index} of {} is reported missing: {t}",
            c.raw.strings.len()
        )),
        _ => Ok(()),
    }
}

/// Decode one raw structure and hand it over.
fn with_raw<T>(
    ver: Ver,
    r: &Raw,
    f: impl FnOnce(&RawStructure<'_>, &[u8]) -> Result<T, String>,
) -> Result<T, String> {
    let buf = r.encode();
    let ep = entry(ver, buf.len() as u32, buf.len() > 0xFFFF)?;
    let mut it = ep.structures(&buf);
    match it.next() {
        Some(Ok(Structure::Other(o))) => f(&o, &buf),
        x => Err(format!("kind {} is not raw: {x:?}", r.kind)),
    }
}

fn is_missing(e: &MalformedStructureError, kind: u8, handle: u16, i: u8) -> bool {
    matches!(e, MalformedStructureError::InvalidStringIndex(t, h, x)
        if format!("{t:?}") == info(kind) && (*h, *x) == (handle, i))
}

/// the string of a number
fn numbered(r: &Raw, i: u8) -> Option<&str> {
    match i {
        0 => Some(""),
        i => r.strings.get(i as usize - 1).map(|s| s.as_str()),
    }
}
/// the string whose number stands at an offset
fn string_at(o: &RawStructure<'_>, r: &Raw, off: usize) -> Result<(), String> {
    match (o.get_string(off), r.u(off, 1)) {
        (Ok(g), Some(i)) if Some(g) == numbered(r, i as u8) => Ok(()),
        (Err(e), Some(i))
            if numbered(r, i as u8).is_none() && is_missing(&e, r.kind, r.handle, i as u8) =>
        {
            Ok(())
        }
        (Err(MalformedStructureError::InvalidSlice(_)), None) => Ok(()),
        (g, i) => Err(format!("string at {off} is {g:?}, reference there {i:?}")),
    }
}

fn lookup(c: &One, cx: &mut Cx) -> Result<(), String> {
    with_raw(c.ver, &c.raw, |o, _| {
        let r = &c.raw;
        if !r.strings.is_empty() {
            cx.nontrivial();
        }
        if r.strings.len() > 255 {
            cx.label("more than 255 strings");
        }
        let want = |i| numbered(r, i);
        for i in 0..=255u8 {
            match (o.find_string(i), want(i)) {
                (Ok(g), Some(w)) if g == w => {}
                (Err(e), None) if is_missing(&e, r.kind, r.handle, i) => {}
                (g, w) => return Err(format!("string {i} is {g:?}, expected {w:?}")),
            }
        }
        for off in 0..r.len() + 6 {
            string_at(o, r, off)?;
        }
        Ok(())
    })
}

fn raw_kind() -> BoxedStrategy<u8> {
    prop_oneof![Just(5u8), Just(6), Just(10), 23u8..=126, 127u8..=255].boxed()
}

fn raw_one() -> BoxedStrategy<One> {
    let data = prop_oneof![4 => vec(gen::byte(), 0..=60), 1 => vec(gen::byte(), 0..=251)];
    (
        gen::version(),
        raw_kind(),
        gen::handle(),
        data,
        gen::strings(),
        any::<bool>(),
    )
        .prop_map(|(ver, kind, handle, mut data, strings, refs)| {
            if refs {
                let n = strings.len().min(255) + 2;
                data.iter_mut().for_each(|b| *b = (*b as usize % n) as u8);
            }
            One {
                ver,
                raw: Raw {
                    kind,
                    handle,
                    data,
                    strings,
                },
            }
        })
        .boxed()
}

/// The string list of the kinds that are one.
fn lists(c: &One, cx: &mut Cx) -> Result<(), String> {
    let mut raw = c.raw.clone();
    raw.kind = [11, 12, 13][c.raw.handle as usize % 3];
    raw.data.resize(0x20, 0);
    if raw.kind == 12 {
        raw.strings.truncate(255);
        raw.data[0] = raw.strings.len() as u8;
    }
    if raw.strings.len() > 1 {
        cx.nontrivial();
    }
    let max = if raw.kind == 13 { 255 } else { usize::MAX };
    let want = obs::list(raw.strings.iter().take(max).map(|s| obs::t(s)).collect());
    match decode_one(c.ver, &raw)? {
        Item::Ok(o) => {
            let got = o.get(if raw.kind == 13 {
                "languages"
            } else {
                "strings"
            });
            if got == Some(&want) {
                Ok(())
            } else {
                Err(format!("the strings of {} are {got:?}, not {want}", o.kind))
            }
        }
        e => Err(format!("kind {} gives {}", raw.kind, e.brief())),
    }
}

const STRING_KINDS: &[u8] = &[0, 1, 2, 3, 4, 7, 8, 9, 11, 12, 13, 14, 17, 22];

pub fn c07() -> Vec<Part> {
    fn mixed() -> BoxedStrategy<One> {
        structure_of(STRING_KINDS, Style::Mixed)
            .prop_map(one)
            .boxed()
    }
    fn clean() -> BoxedStrategy<One> {
        structure_of(STRING_KINDS, Style::Clean)
            .prop_map(one)
            .boxed()
    }
    const SWEEP: Sweep = Sweep {
        kinds: STRING_KINDS,
    };
    vec![
        random(
            "fields",
            "structures of all kinds with string fields, 0-260 strings of 1-400 bytes, references valid or dangling; \
             non-trivial: a field refers to a string, or dangles; oracle: the n-th encoded string",
            (300_000, 10_000_000),
            mixed,
            string_fields,
        ),
        random("clean", "the same, never dangling", (300_000, 10_000_000), clean, string_fields),
        exhaustive(
            "sweep",
            "each value of each byte of these structures, under 17 versions, with nine strings; non-trivial and oracle: as before",
            |_| SWEEP.size(),
            |i| one(SWEEP.at(i)),
            string_fields,
        ),
        random(
            "lookup",
            "a raw structure: look up all numbers 0-255 and every offset in and past the section; non-trivial: it has strings; \
             oracle: the n-th encoded string, or an error with that number",
            (40_000, 1_500_000),
            raw_one,
            lookup,
        ),
        random(
            "lists",
            "OEM strings, configuration options and languages over random string sets; non-trivial: at least two strings; \
             oracle: all of them (of languages the first 255, which have numbers), in order",
            (80_000, 3_000_000),
            raw_one,
            lists,
        ),
        guided(
            "guided",
            "structures as in fields, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for fields",
            (2_000_000, 60_000_000),
            mixed,
            string_fields,
        ),
        guided(
            "guided-lookup",
            "structures as in lookup, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for lookup",
            (30_000, 2_000_000),
            raw_one,
            lookup,
        ),
        guided(
            "guided-lists",
            "string sets as in lists, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for lists",
            (150_000, 12_000_000),
            raw_one,
            lists,
        ),
    ]
}

// --- C08 ------------------------------------------------------------------

fn variant(kind: u8) -> &'static str {
    match kind {
        0 => "Bios",
        1 => "System",
        2 => "BaseBoard",
        3 => "Enclosure",
        4 => "Processor",
        7 => "Cache",
        8 => "PortConnector",
        9 => "SystemSlots",
        11 => "OemStrings",
        12 => "SystemConfigurationOptions",
        13 => "BiosLanguage",
        14 => "GroupAssociations",
        15 => "SystemEventLog",
        16 => "PhysicalMemoryArray",
        17 => "MemoryDevice",
        18 => "MemoryError32",
        19 => "MemoryArrayMappedAddress",
        20 => "MemoryDeviceMappedAddress",
        21 => "BuiltInPointingDevice",
        22 => "PortableBattery",
        _ => "Other",
    }
}

fn dispatch(c: &One, cx: &mut Cx) -> Result<(), String> {
    let r = &c.raw;
    match decode_one(c.ver, r)? {
        Item::Ok(o) => {
            cx.nontrivial();
            let want = variant(r.kind);
            if o.kind != want {
                return Err(format!("kind {} gives {}, not {want}", r.kind, o.kind));
            }
            if o.get("handle") != Some(&r.handle.to_string()) {
                return Err(format!("handle {:?}, not {}", o.get("handle"), r.handle));
            }
            if want == "Other" {
                let Expect::Ok(m) = model(c.ver, r) else {
                    unreachable!()
                };
                if let Some(d) = o.diff(&m) {
                    return Err(format!("kind {}: decoded vs encoded: {d}", r.kind));
                }
            }
            Ok(())
        }
        Item::Err(
            ErrObs::StringIndex {
                info: t, handle, ..
            }
            | ErrObs::Length {
                info: t, handle, ..
            },
            text,
        ) => {
            if (t, handle) == (info(r.kind), r.handle) && variant(r.kind) != "Other" {
                Ok(())
            } else {
                Err(format!(
                    "kind {}, handle {} gives {text:?}",
                    r.kind, r.handle
                ))
            }
        }
        Item::Err(e, text) if variant(r.kind) == "Other" => {
            Err(format!("kind {} gives {e:?}: {text:?}", r.kind))
        }
        _ => Ok(()),
    }
}

fn kind_at(i: u64) -> One {
    let kind = i as u8;
    let i = i / 256;
    let ver = gen::VERSIONS[(i % 17) as usize];
    let len = match i / 17 {
        0 => gen::full_len(kind, ver).max(gen::min_len(kind, ver)),
        k => 4 + (k as usize - 1) * 3,
    };
    let mut raw = gen::base(kind, ver, 0, len);
    raw.handle = (kind as u16) << 8 | !kind as u16;
    one((ver, raw))
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Access {
    ver: Ver,
    raw: Raw,
    at: Vec<(u64, u64)>,
}

impl Slots for Access {
    fn slots<'a>(&'a mut self, out: &mut Vec<Slot<'a>>) {
        out.push(Slot::Ver(&mut self.ver));
        self.raw.slots(out);
        for (a, b) in &mut self.at {
            out.push(Slot::U64(a));
            out.push(Slot::U64(b));
        }
    }
}

fn offset() -> BoxedStrategy<u64> {
    prop_oneof![
        8 => 0u64..70,
        2 => 0u64..300,
        1 => any::<u64>(),
        1 => (0u64..40).prop_map(|d| u64::MAX - d),
        1 => (0u64..40).prop_map(|d| i64::MAX as u64 - 20 + d),
        1 => (0u64..8).prop_map(|d| u32::MAX as u64 - 4 + d),
    ]
    .boxed()
}

fn access() -> BoxedStrategy<Access> {
    (raw_one(), vec((offset(), offset()), 1..12))
        .prop_map(|(o, at)| Access {
            ver: o.ver,
            raw: o.raw,
            at,
        })
        .boxed()
}

fn accessors(c: &Access, cx: &mut Cx) -> Result<(), String> {
    with_raw(c.ver, &c.raw, |o, _| {
        let r = &c.raw;
        if o.data != r.data.as_slice() || o.length as usize != r.len() || o.handle != r.handle {
            return Err(format!("{o:?} is not {r:?}"));
        }
        if (o.version.major, o.version.minor) != c.ver || format!("{:?}", o.info) != info(r.kind) {
            return Err(format!("version or kind of {o:?}"));
        }
        macro_rules! num {
            ($t:ty, $off:expr) => {
                match (o.get::<$t>($off), r.u($off, std::mem::size_of::<$t>())) {
                    (Ok(g), Some(w)) if g as u128 == w => cx.nontrivial(),
                    (Err(MalformedStructureError::InvalidSlice(_)), None) => {}
                    (g, w) => {
                        return Err(format!(
                            "{} at {:#x} is {g:?}, not {w:?}",
                            stringify!($t),
                            $off
                        ))
                    }
                }
            };
        }
        let each = 0..r.len() + 20;
        for off in each.chain(c.at.iter().map(|a| a.0 as usize)) {
            string_at(o, r, off)?;
            num!(u8, off);
            num!(u16, off);
            num!(u32, off);
            num!(u64, off);
            num!(u128, off);
        }
        for (off, size) in &c.at {
            let (off, size) = (*off as usize, *size as usize);
            for size in [
                size,
                size % 5,
                (r.len() + 4).wrapping_sub(off),
                r.len().wrapping_sub(off),
            ] {
                let (g, w) = (o.get_slice(off, size), r.bytes(off, size));
                if g != w {
                    return Err(format!("{size} bytes at {off:#x} are {g:?}, not {w:?}"));
                }
            }
        }
        Ok(())
    })
}

pub fn c08() -> Vec<Part> {
    fn mixed() -> BoxedStrategy<One> {
        let all: &'static [u8] = Box::leak((0..=255u8).collect::<Vec<u8>>().into_boxed_slice());
        structure_of(all, Style::Mixed).prop_map(one).boxed()
    }
    vec![
        exhaustive(
            "kinds",
            "all 256 type numbers x 17 versions x regular section lengths (the longest layout, then 4, 7, ... 64); non-trivial: \
             decodes; oracle: the number's kind and handle; raw ones keep number, version, length, bytes, strings, and name",
            |_| 256 * 17 * 22,
            kind_at,
            dispatch,
        ),
        random(
            "random",
            "random structures of all type numbers; non-trivial and oracle: as before",
            (150_000, 6_000_000),
            mixed,
            dispatch,
        ),
        random(
            "access",
            "raw structures of 0-251 bytes: numbers of 1 to 16 bytes and strings by their number at every offset and at extreme \
             ones, slices of any size at any offset; non-trivial: some number is there; oracle: little-endian value of the encoded bytes, or a failure",
            (100_000, 4_000_000),
            access,
            accessors,
        ),
        guided(
            "guided",
            "structures as in random, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for kinds",
            (2_000_000, 60_000_000),
            mixed,
            dispatch,
        ),
        guided(
            "guided-access",
            "cases as in access, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for access",
            (200_000, 8_000_000),
            access,
            accessors,
        ),
    ]
}

// --- C17 ------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Code {
    name: String,
    code: u32,
}

fn code_count(_: bool) -> u64 {
    crate::enums::all().iter().map(|e| e.max as u64 + 1).sum()
}
fn code_at(mut i: u64) -> Code {
    use std::sync::OnceLock;
    static NAMES: OnceLock<Vec<(&'static str, u64)>> = OnceLock::new();
    let names = NAMES.get_or_init(|| {
        crate::enums::all()
            .iter()
            .map(|e| (e.name, e.max as u64 + 1))
            .collect()
    });
    for (n, k) in names {
        if i < *k {
            return Code {
                name: n.to_string(),
                code: i as u32,
            };
        }
        i -= k;
    }
    unreachable!()
}
fn by_name(name: &str) -> &'static crate::enums::En {
    use std::sync::OnceLock;
    static ALL: OnceLock<Vec<crate::enums::En>> = OnceLock::new();
    ALL.get_or_init(crate::enums::all)
        .iter()
        .find(|e| e.name == name)
        .expect("enumeration")
}

fn code_meaning(c: &Code, cx: &mut Cx) -> Result<(), String> {
    let en = by_name(&c.name);
    let (dbg, text, long) = (en.conv)(c.code);
    cx.nontrivial();
    let got = if text.is_empty() && long.is_empty() {
        dbg
    } else {
        format!("{dbg}{SEP}{text}{SEP}{long}")
    };
    let want = if got.contains(SEP) {
        tables::e(&c.name, c.code)
    } else {
        tables::d(&c.name, c.code)
    };
    if got != want {
        return Err(format!("{} {:#x} is {got:?}, not {want:?}", c.name, c.code));
    }
    if let Some(back) = en.back {
        let b = back(c.code);
        if b != c.code {
            return Err(format!("{} {:#x} converts back to {b:#x}", c.name, c.code));
        }
    }
    Ok(())
}

/// enumerated fields of each kind
fn enum_keys(kind: u8) -> &'static [&'static str] {
    match kind {
        1 => &["wakeup"],
        2 => &["board_type"],
        3 => &[
            "type",
            "boot_state",
            "psu_state",
            "thermal_state",
            "security",
            "elements",
        ],
        4 => &["type", "family", "upgrade"],
        7 => &["ecc", "type", "assoc", "config"],
        8 => &["int_type", "ext_type", "port_type"],
        9 => &["type", "bus_width", "usage", "length", "phys_width"],
        15 => &["format", "descriptors"],
        16 => &["location", "use", "ecc"],
        17 => &["form", "type", "technology"],
        18 => &["type", "granularity", "operation"],
        21 => &["type", "interface"],
        22 => &["chemistry"],
        _ => &["info"],
    }
}
const ENUM_KINDS: &[u8] = &[1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 18, 21, 22];

fn same_keys(keys: &[&str], got: &Obs, want: &Obs) -> Result<(), String> {
    for k in keys {
        for k in [k.to_string(), format!("{k}#")] {
            if got.get(&k) != want.get(&k) {
                return Err(format!(
                    "{}.{k} is {:?}, not {:?}",
                    got.kind,
                    got.get(&k),
                    want.get(&k)
                ));
            }
        }
    }
    Ok(())
}

fn enum_fields(c: &One, cx: &mut Cx) -> Result<(), String> {
    if let (Expect::Ok(want), Item::Ok(got)) = (model(c.ver, &c.raw), decode_one(c.ver, &c.raw)?) {
        cx.nontrivial();
        same_keys(enum_keys(c.raw.kind), &got, &want)?;
    }
    Ok(())
}

/// every 16-bit processor family, through the second field
fn family_at(i: u64) -> One {
    let ver = [(2, 6), (3, 0), (3, 7)][(i >> 16) as usize % 3];
    let mut raw = gen::base(4, ver, 0, 0x32);
    raw.data[2] = 0xFE;
    raw.data[0x24] = i as u8;
    raw.data[0x25] = (i >> 8) as u8;
    one((ver, raw))
}

fn smt(v: u32) -> (String, String) {
    let named = |a: &str, b: &str| (a.to_string(), b.to_string());
    match v {
        0 => named("OutOfRangeVoltagePlus2_5Num1", "+2.5V Out of range, #1"),
        1 => named("OutOfRangeVoltagePlus2_5Num2", "+2.5V Out of range, #2"),
        2 => named("OutOfRangeVoltagePlus3_3", "+3.3V Out of range"),
        3 => named("OutOfRangeVoltagePlus5", "+5V Out of range"),
        4 => named("OutOfRangeVoltageMinus5", "-5V Out of range"),
        5 => named("OutOfRangeVoltagePlus12", "+12V Out of range"),
        6 => named("OutOfRangeVoltageMinus12", "-12V Out of range"),
        7..=0x0F => (
            format!("OutOfRangeVoltageReserved({v})"),
            format!("Out-of-range voltage reserved: {v}"),
        ),
        0x10 => named(
            "OutOfRangeTemperatureSystemBoard",
            "System board temperature out of range",
        ),
        0x11..=0x14 => (
            format!("OutOfRangeTemperatureProcessor{}", v - 0x10),
            format!("Processor #{} temperature out of range", v - 0x10),
        ),
        0x15..=0x1F => (
            format!("OutOfRangeTemperatureReserved({v})"),
            format!("Out-of-range temperatures reserved: {v}"),
        ),
        0x20..=0x27 => (
            format!("OutOfRangeFan({})", v - 0x20),
            format!("Fan {} Out of range", v - 0x20),
        ),
        0x30 => named(
            "ChassisSecureSwitchActivated",
            "Chassis secure switch activated",
        ),
        0x1_0000..=0x1_FFFF => (
            format!("OutOfRangeSystemManagementProbe({})", v & 0xFFFF),
            format!(
                "A system-management probe or cooling device with handle 0x{:04X} is out of range",
                v & 0xFFFF
            ),
        ),
        0x8000_0000.. => (format!("OemAssigned({v})"), format!("OEM assigned: {v}")),
        _ => (format!("Reserved({v})"), format!("Reserved: {v}")),
    }
}
fn smt_meaning(v: &u32, cx: &mut Cx) -> Result<(), String> {
    use dmidecode::structures::system_event_log::log_record_format::SystemManagementType;
    cx.nontrivial();
    let got = SystemManagementType::from(*v);
    let got = (format!("{got:?}"), format!("{got}"));
    if got == smt(*v) {
        Ok(())
    } else {
        Err(format!(
            "system management type {v:#x} is {got:?}, not {:?}",
            smt(*v)
        ))
    }
}
fn smt_at(i: u64) -> u32 {
    let i = i as u32;
    match i {
        0..=0x2_1FFF => i,
        _ => {
            let k = i - 0x2_2000;
            let top = 1u32 << (k / 64 % 32);
            top.wrapping_sub(32).wrapping_add(k % 64)
        }
    }
}

fn chem_at(i: u64) -> (u8, u8) {
    (i as u8, (i >> 8) as u8)
}
/// battery chemistry with and without its text; element types
fn chem(c: &(u8, u8), cx: &mut Cx) -> Result<(), String> {
    cx.nontrivial();
    let mut raw = gen::base(22, (2, 2), 0, 0x1A);
    raw.data[5] = c.0;
    raw.data[0x10] = c.1;
    let nth = match c.1 {
        0 => Some(""),
        i => raw.strings.get(i as usize - 1).map(|s| s.as_str()),
    };
    match decode_one((2, 2), &raw)? {
        Item::Ok(o) => {
            let got = format!(
                "{}{SEP}{}",
                o.get("chemistry").unwrap(),
                o.get("chemistry#").unwrap()
            );
            if got != chemistry(c.0, nth) {
                return Err(format!("chemistry {:#x} with {nth:?} is {got:?}", c.0));
            }
        }
        e => return Err(e.brief()),
    }
    let rec = [c.0, c.1, c.0 ^ c.1];
    let got = dmidecode::structures::enclosure::ContainedElement::from(&rec[..]).to_string();
    if got != element(&rec) {
        return Err(format!(
            "element {rec:02x?} reads {got:?}, not {:?}",
            element(&rec)
        ));
    }
    Ok(())
}

/// An event log type descriptor made from its two bytes.
fn descriptor(c: &u16, cx: &mut Cx) -> Result<(), String> {
    use dmidecode::structures::system_event_log::EventLogTypeDescriptor;
    cx.nontrivial();
    let [a, b] = c.to_le_bytes();
    let d = EventLogTypeDescriptor::from([a, b]);
    let (x, y) = (d.log_type, d.variable_data_format_type);
    let got = format!("{x:?}/{y:?}{SEP}{x}/{y}{SEP}{}", hex(&<[u8; 2]>::from(d)));
    let want = crate::model::descriptor(a, b);
    if got != want {
        return Err(format!(
            "descriptor {a:#x} {b:#x} is {got:?}, expected {want:?}"
        ));
    }
    Ok(())
}

pub fn c17() -> Vec<Part> {
    fn clean() -> BoxedStrategy<One> {
        structure_of(ENUM_KINDS, Style::Clean).prop_map(one).boxed()
    }
    const SWEEP: Sweep = Sweep { kinds: ENUM_KINDS };
    vec![
        exhaustive(
            "codes",
            "every code of all 38 enumerations; every case counts; oracle: code table (variant, text, long text), and the \
             conversion back",
            code_count,
            code_at,
            code_meaning,
        ),
        exhaustive(
            "fields",
            "each value of each byte of all kinds with enumerated fields, under 17 versions; non-trivial: decodes; oracle: the \
             code table, applied to the enumerated fields",
            |_| SWEEP.size(),
            |i| one(SWEEP.at(i)),
            enum_fields,
        ),
        random(
            "random",
            "random well-formed structures with enumerated fields; non-trivial and oracle: as before",
            (200_000, 8_000_000),
            clean,
            enum_fields,
        ),
        exhaustive(
            "families",
            "every 16-bit processor family through the second field, under three versions; non-trivial and oracle: as before",
            |_| 3 << 16,
            family_at,
            enum_fields,
        ),
        exhaustive(
            "management",
            "system management types 0-0x21FFF and around each power of two; every case counts; oracle: the table",
            |_| 0x2_2000 + 64 * 32,
            smt_at,
            smt_meaning,
        ),
        exhaustive(
            "chemistry",
            "every battery chemistry code x every text reference, and every element type; every case counts; oracle: the table",
            |_| 1 << 16,
            chem_at,
            chem,
        ),
        exhaustive(
            "descriptors",
            "every pair of event log type and data format code as one descriptor; every case counts; oracle: the table for both \
             halves, and the conversion back to the two bytes",
            |_| 1 << 16,
            |i| i as u16,
            descriptor,
        ),
    ]
}
