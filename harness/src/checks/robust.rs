//! C01 any bytes are handled, C02 only the given bytes are read.

use super::entry::{image, image_bytes, single, Image};
use super::walks::{big, big_table, frames, numerous, soup, tables, Big, Frame};
use super::Table;
use crate::enums;
use crate::full::{self, any_entry};
use crate::gen::{self, any_kind, structure_of, structures, Style};
use crate::guided::{guided, reshape, without, Mutator, Slot, Slots};
use crate::obs::{hex, item, spans, Item};
use crate::raw::{decode_one, encode_all, hexbytes, Raw, Ver};
use crate::run::{exhaustive, random, Cx, Part};
use dmidecode::bitfield::BitField;
use dmidecode::structures::bios::RomSize;
use dmidecode::structures::cache::{CacheConfiguration, CacheSize, CacheSize2};
use dmidecode::structures::enclosure::{ContainedElement, ContainedElementType};
use dmidecode::structures::portable_battery::DesignCapacity;
use dmidecode::structures::processor::{ProcessorFamily, Voltage};
use dmidecode::structures::system_event_log::log_record_format::{
    PostResults, SystemManagementType,
};
use dmidecode::structures::system_event_log::{AccessMethod, EventLogTypeDescriptor, LogStatus};
use dmidecode::structures::system_slots::{
    Device, DeviceAndFunctionNumber, PeerDevices, SlotCharacteristics1, SlotCharacteristics2,
    SlotPitch,
};
use dmidecode::TryFromBytes;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::sync::OnceLock;

// --- generators -------------------------------------------------------------

/// Versions that need not exist.
fn any_version() -> BoxedStrategy<Ver> {
    prop_oneof![6 => gen::version(), 2 => (0u8..=4, 0u8..=16), 1 => any::<(u8, u8)>()].boxed()
}
fn reversion(s: BoxedStrategy<Table>) -> BoxedStrategy<Table> {
    (s, any_version(), any::<u8>())
        .prop_map(|(mut t, v, k)| {
            if k & 1 == 0 {
                t.ver = v;
            }
            t
        })
        .boxed()
}
pub fn any_soup() -> BoxedStrategy<Table> {
    reversion(soup())
}
pub fn any_tables() -> BoxedStrategy<Table> {
    reversion(tables())
}
/// One structure, its bytes disturbed anywhere.
pub fn disturbed() -> BoxedStrategy<Table> {
    (
        structure_of(gen::DECODED, Style::Mixed),
        any_version(),
        vec((any::<u16>(), gen::byte()), 0..4),
        (any::<bool>(), any::<bool>(), 0u32..12),
    )
        .prop_map(|((ver, raw), v, flips, (other, v3, more))| {
            let mut buf = raw.encode();
            let n = buf.len();
            for (i, b) in flips {
                // the header only now and then
                let i = i as usize % n;
                if i >= 4 || b & 1 == 1 {
                    buf[i] = b;
                }
            }
            let declared = n as u32 + if more > 8 { more } else { 0 };
            Table {
                ver: if other { v } else { ver },
                v3,
                declared,
                buf,
            }
        })
        .boxed()
}

pub fn any_mixed() -> BoxedStrategy<Table> {
    prop_oneof![disturbed(), any_tables(), any_soup()].boxed()
}

// --- C01 ----------------------------------------------------------------------

fn class(cx: &mut Cx, ep: &dmidecode::EntryPoint, buf: &[u8]) {
    let mut n = 0;
    for r in ep.structures(buf).take(40) {
        n += 1;
        match &r {
            Ok(dmidecode::Structure::Other(_)) => cx.label("raw structure"),
            Ok(_) => {
                cx.nontrivial();
                cx.label("decoded structure")
            }
            Err(_) => {
                cx.nontrivial();
                cx.label("error")
            }
        }
    }
    if n == 0 {
        cx.label("no item");
    }
}

fn survives(c: &Table, cx: &mut Cx) -> Result<(), String> {
    let ep = any_entry(c.ver, c.declared, c.v3)?;
    class(cx, &ep, &c.buf);
    full::table(&ep, &c.buf);
    // the ways of an iterator
    let limit = crate::raw::max_items(&c.buf);
    let it = ep.structures(&c.buf);
    let n = it.clone().take(limit + 1).count();
    let (low, high) = it.size_hint();
    if low > n || high.is_some_and(|h| h < n) {
        return Err(format!("{n} items, but the size hint is {low}..{high:?}"));
    }
    let skipped = it.clone().skip(n / 2).take(limit + 1).count();
    if skipped != n - n / 2 {
        return Err(format!(
            "{n} items, but {skipped} behind the first {}",
            n / 2
        ));
    }
    let ok = it.clone().take(limit + 1).filter(|r| r.is_ok()).count();
    if it.clone().flatten().take(limit + 1).count() != ok {
        return Err("skipping errors loses or repeats structures".into());
    }
    let _ = (
        format!("{it:?}"),
        full::hash_of(&it),
        it.clone() == it,
        it.last(),
    );
    Ok(())
}
fn survives_big(c: &Big, cx: &mut Cx) -> Result<(), String> {
    survives(&big_table(c), cx)
}

pub fn any_image() -> BoxedStrategy<Image> {
    prop_oneof![image(), single()].boxed()
}

/// Search, then walk the image as the entry point says, and from its start.
fn image_survives(c: &Image, cx: &mut Cx) -> Result<(), String> {
    let b = image_bytes(c);
    let (ep, _) = full::search(&b);
    let Some(ep) = ep else { return Ok(()) };
    cx.nontrivial();
    let at = usize::try_from(ep.smbios_address())
        .unwrap_or(usize::MAX)
        .min(b.len());
    let window = |from: usize| &b[from..b.len().min(from + 4096)];
    full::table(&ep, window(at));
    full::table(&ep, window(0));
    full::table(&ep, window(b.len().saturating_sub(100)));
    Ok(())
}

/// An entry point and a table in one image, found and walked.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Dump {
    v3: bool,
    ver: Ver,
    gap: u16,
    declared: i32,
    address: u64,
    #[serde(with = "hexbytes")]
    table: Vec<u8>,
}
fn dump() -> BoxedStrategy<Dump> {
    (tables(), 0u16..80, -20i32..20, any::<u8>(), any::<u64>())
        .prop_map(|(t, gap, d, k, a)| Dump {
            v3: t.v3,
            ver: t.ver,
            gap,
            declared: if k & 7 == 0 { d } else { 0 },
            address: if k >> 3 == 0 { a } else { u64::MAX },
            table: t.buf,
        })
        .boxed()
}
fn dump_survives(c: &Dump, cx: &mut Cx) -> Result<(), String> {
    let pad = c.gap as usize * 16;
    let size = if c.v3 { 0x18 } else { 0x1F };
    let at = pad + size + (c.gap as usize & 7);
    let address = if c.address == u64::MAX {
        at as u64
    } else {
        c.address
    };
    let declared = (c.table.len() as i64 + c.declared as i64).max(0) as u32;
    let mut b = vec![0u8; pad];
    if c.v3 {
        let mut e = crate::raw::ep_v3_bytes(c.ver, declared);
        e[16..24].copy_from_slice(&address.to_le_bytes());
        crate::raw::fix_checksum(&mut e, 5, 0x18);
        b.extend(e);
    } else {
        let mut e = b"_SM_\0\x1f".to_vec();
        e.extend([c.ver.0, c.ver.1]);
        e.extend([0; 8]);
        e.extend(b"_DMI_\0");
        e.extend((declared as u16).to_le_bytes());
        e.extend((address as u32).to_le_bytes());
        e.extend([1, 0, 0]);
        crate::raw::fix_checksum(&mut e, 4, 0x1F);
        b.extend(e);
    }
    b.resize(at, 0xEE);
    b.extend(&c.table);
    let (ep, text) = full::search(&b);
    let Some(ep) = ep else {
        return Err(format!("a valid entry point is not found: {text}"));
    };
    let from = usize::try_from(ep.smbios_address())
        .unwrap_or(usize::MAX)
        .min(b.len());
    if !full::table(&ep, &b[from..]).is_empty() {
        cx.nontrivial();
    }
    Ok(())
}

/// kind x version x length x filling
const GRID_VERSIONS: [Ver; 20] = [
    (0, 0),
    (1, 9),
    (2, 0),
    (2, 1),
    (2, 2),
    (2, 3),
    (2, 4),
    (2, 5),
    (2, 6),
    (2, 7),
    (2, 8),
    (3, 0),
    (3, 1),
    (3, 2),
    (3, 3),
    (3, 4),
    (3, 5),
    (3, 6),
    (3, 7),
    (255, 255),
];
const GRID_FILLS: u64 = 6;
fn grid_size(_: bool) -> u64 {
    21 * GRID_VERSIONS.len() as u64 * 252 * GRID_FILLS
}
fn grid_at(i: u64) -> Table {
    let k = i % 21;
    let kind = if k == 20 {
        10
    } else {
        gen::DECODED[k as usize]
    };
    let i = i / 21;
    let ver = GRID_VERSIONS[(i % 20) as usize];
    let i = i / 20;
    let len = 4 + (i % 252) as usize;
    let i = i / 252;
    let mut raw = gen::base(kind, ver, (i % 3) as u8, len);
    match i / 3 {
        0 => {}
        // counts and lengths that do not fit
        _ => {
            for (j, b) in raw.data.iter_mut().enumerate() {
                if matches!(j + 4, 0x12..=0x16) {
                    *b = [0xFF, 0x80, 0x01][(i % 3) as usize];
                }
            }
            raw.strings.truncate((i % 3) as usize);
        }
    }
    let buf = raw.encode();
    Table {
        ver,
        v3: false,
        declared: buf.len() as u32,
        buf,
    }
}

/// Values reached without a table: every code of every conversion.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Code {
    pub which: u32,
    pub value: u64,
}
fn enums_all() -> &'static [enums::En] {
    static ALL: OnceLock<Vec<enums::En>> = OnceLock::new();
    ALL.get_or_init(enums::all)
}
fn code_total() -> u64 {
    enums_all().iter().map(|e| e.max as u64 + 1).sum()
}
pub fn codes(_: bool) -> u64 {
    code_total() + 10 * 65536
}
pub fn code_at(mut i: u64) -> Code {
    for (n, e) in enums_all().iter().enumerate() {
        if i <= e.max as u64 {
            return Code {
                which: n as u32,
                value: i,
            };
        }
        i -= e.max as u64 + 1;
    }
    Code {
        which: 1000 + (i >> 16) as u32,
        value: i & 0xFFFF,
    }
}
fn all_bits<'a, B: BitField<'a>>(out: &mut String, b: &B) {
    let n = b
        .iter()
        .take(1000)
        .map(|f| out.push_str(&format!("{f}{f:#}{f:?}")))
        .count();
    b.significants()
        .take(1000)
        .for_each(|f| out.push_str(&format!("{f}{f:#}")));
    let m = b
        .reserved()
        .take(1000)
        .map(|r| out.push_str(&format!("{r:?}")))
        .count();
    assert!(n < 1000 && m < 1000, "endless iteration over bits");
}
/// What a conversion gives, in all its texts.
pub fn code_text(c: &Code) -> Result<String, String> {
    if c.which < 1000 {
        let all = enums_all();
        let e = all.get(c.which as usize).ok_or("no such conversion")?;
        return Ok(format!(
            "{:?} {:?}",
            (e.conv)(c.value as u32),
            e.back.map(|back| back(c.value as u32))
        ));
    }
    let v = c.value;
    let mut out = String::new();
    // all of 16 bits, and the same spread over more
    let wide = [
        v,
        v << 16,
        v << 32,
        v << 48,
        v * 0x1_0001_0001_0001,
        !v,
        !(v << 16),
        !(v << 48),
    ];
    match c.which - 1000 {
        0 => {
            let x = CacheSize::from(v as u16);
            out = format!("{x:?}{}{:?}", x.bytes(), CacheConfiguration::from(v as u16));
        }
        1 => {
            for w in wide {
                let x = CacheSize2::from(w as u32);
                out += &format!("{x:?}{}", x.bytes());
            }
        }
        2 => {
            let x = SlotPitch::from(v as u16);
            let f = ProcessorFamily::from(v as u8);
            out = format!("{x:?}{x}{f:?}{f}{f:#}");
        }
        3 => {
            for w in wide {
                let a = AccessMethod::new(v as u8, w as u32);
                let a2 = AccessMethod::new((w >> 8) as u8, v as u32);
                out += &format!("{a:?}{a}{a:#}{a2}{a2:#}{}{}", a.address(), a2.address());
            }
        }
        4 => {
            for w in wide {
                let x = SystemManagementType::from(w as u32);
                out += &format!("{x:?}{x}{x:#}");
            }
            all_bits(&mut out, &PostResults::from(wide[v as usize % 8]));
        }
        5 => {
            for basic in [0, 1, 0x7F, 0x80, 0xFE, 0xFF] {
                let (a, b) = (
                    RomSize {
                        basic,
                        extended: Some(v as u16),
                    },
                    RomSize {
                        basic,
                        extended: None,
                    },
                );
                out += &format!("{} {} ", u64::from(a), u64::from(b));
            }
            for m in [0u8, 1, 2, 16, 255] {
                out += &format!(
                    "{} ",
                    u64::from(DesignCapacity::Data {
                        value: v as u16,
                        multiplier: m
                    })
                );
            }
            out += &format!("{}", u64::from(DesignCapacity::Unknown));
        }
        6 => {
            let b = v as u8;
            let x = Voltage::from(b);
            let d = DeviceAndFunctionNumber::from(b);
            let t = ContainedElementType::from(b);
            out = format!("{x:?}{x}{x:#}{d:?}{}{t:?}{t}", u8::from(d));
            all_bits(&mut out, &SlotCharacteristics1::from(b));
            all_bits(&mut out, &SlotCharacteristics2::from(b));
            all_bits(&mut out, &LogStatus::from(b));
        }
        7 => {
            let d = EventLogTypeDescriptor::from([v as u8, (v >> 8) as u8]);
            out = format!("{d:?}{:?}", <[u8; 2]>::from(d));
        }
        _ => {
            let bytes = [
                v as u8,
                (v >> 8) as u8,
                3,
                4,
                5,
                6,
                7,
                8,
                9,
                10,
                11,
                12,
                13,
                14,
                15,
                16,
                17,
                18,
            ];
            out = short_slices(&bytes[..(v % 19) as usize]);
        }
    }
    Ok(out)
}
fn code_survives(c: &Code, cx: &mut Cx) -> Result<(), String> {
    cx.nontrivial();
    code_text(c).map(|_| ())
}

/// Conversions from a slice of any length.
fn short_slices(b: &[u8]) -> String {
    let d = Device::from(b);
    let p: Vec<Device> = PeerDevices::from(b).take(1000).collect();
    let e = ContainedElement::from(b);
    format!(
        "{d:?}{d}{p:?}{e:?}{e}{:?}{:?}{:?}{:?}{:?}",
        u8::try_from_bytes(b).ok(),
        u16::try_from_bytes(b).ok(),
        u32::try_from_bytes(b).ok(),
        u64::try_from_bytes(b).ok(),
        u128::try_from_bytes(b).ok()
    )
}

pub fn c01() -> Vec<Part> {
    const ORACLE: &str = "oracle: no panic, overflow, abort or endless iteration in the walk, its adaptors, and every \
                          accessor, nested iterator, conversion, comparison and text of each item";
    fn say(s: &str) -> &'static str {
        Box::leak(format!("{s}; {ORACLE}").into_boxed_str())
    }
    vec![
        random(
            "structures",
            say("one structure of a decoded kind with up to three bytes overwritten, also in its strings (invalid UTF-8), under \
                 versions 0.0 to 255.255; non-trivial: a decoded structure or an error is due"),
            (160_000, 6_000_000),
            disturbed,
            survives,
        ),
        random(
            "tables",
            say("0-10 structures, damaged as for C04, under any version and declared length; non-trivial: as before"),
            (60_000, 2_000_000),
            any_tables,
            survives,
        ),
        random(
            "bytes",
            say("up to 160 bytes with many zeros and small numbers, under any version and declared length; non-trivial: as before"),
            (400_000, 16_000_000),
            any_soup,
            survives,
        ),
        random(
            "large",
            say("tables of up to 240 KB, many just around 64 KiB; non-trivial: as before"),
            (160, 6_000),
            big,
            survives_big,
        ),
        random(
            "numerous",
            say("up to 65540 structures of four to six bytes; non-trivial: as before"),
            (40, 1_500),
            numerous,
            survives_big,
        ),
        super::rows::survive(),
        super::giant::walks(),
        exhaustive(
            "lengths",
            say("every decoded kind and a raw one x 20 versions x every length 4-255 x 6 fillings, with counts that fit and \
                 that do not; non-trivial: as before"),
            grid_size,
            grid_at,
            survives,
        ),
        random(
            "images",
            say("memory images as for C03, searched, then walked from the address found and elsewhere; non-trivial: an entry \
                 point is found"),
            (100_000, 4_000_000),
            any_image,
            image_survives,
        ),
        random(
            "dumps",
            say("an entry point and a table, damaged or not, in one image: searched and walked; non-trivial: there are items"),
            (40_000, 2_000_000),
            dump,
            dump_survives,
        ),
        exhaustive(
            "codes",
            "every code of every public conversion, 65536 values of each computed quantity also spread over 32 and 64 bits, \
             slices of 0-18 bytes; oracle: conversion, way back and texts complete; every case counts",
            codes,
            code_at,
            code_survives,
        ),
        guided(
            "guided",
            say("structures, tables and bytes as before, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for structures"),
            (600_000, 20_000_000),
            any_mixed,
            survives,
        ),
        guided(
            "guided-images",
            say("images as before, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for images"),
            (300_000, 10_000_000),
            any_image,
            image_survives,
        ),
    ]
}

// --- C02 ----------------------------------------------------------------------

/// Put bytes somewhere in memory, with others around them.
fn surrounded<T>(
    b: &[u8],
    fill: &[u8],
    before: usize,
    behind: usize,
    f: impl FnOnce(&[u8]) -> T,
) -> T {
    let mut mem: Vec<u8> = fill.iter().cycle().take(before).copied().collect();
    mem.extend_from_slice(b);
    mem.extend(fill.iter().cycle().take(behind));
    f(&mem[before..before + b.len()])
}

/// Memory whose neighbours cannot be read.
struct Guarded {
    base: *mut u8,
    len: usize,
}
const PAGE: usize = 4096;
const ROOM: usize = 1 << 20;
impl Guarded {
    fn new() -> Self {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                ROOM + 2 * PAGE,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            let base = (p as *mut u8).add(PAGE);
            assert_eq!(
                libc::mprotect(base as *mut _, ROOM, libc::PROT_READ | libc::PROT_WRITE),
                0
            );
            Guarded { base, len: ROOM }
        }
    }
    /// right before the page that cannot be read, or right behind one
    fn with<T>(&self, b: &[u8], at_end: bool, f: impl FnOnce(&[u8]) -> T) -> T {
        assert!(b.len() <= self.len);
        unsafe {
            let p = if at_end {
                self.base.add(self.len - b.len())
            } else {
                self.base
            };
            std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
            f(std::slice::from_raw_parts(p, b.len()))
        }
    }
}
thread_local! {
    static GUARDED: Cell<Option<&'static Guarded>> = const { Cell::new(None) };
}
fn guarded_memory() -> &'static Guarded {
    GUARDED.with(|g| match g.get() {
        Some(m) => m,
        None => {
            let m: &'static Guarded = Box::leak(Box::new(Guarded::new()));
            g.set(Some(m));
            m
        }
    })
}

/// A table and two surroundings.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Placed {
    table: Table,
    before: (u8, u8),
    #[serde(with = "hexbytes")]
    fill: Vec<u8>,
}
fn placed(t: BoxedStrategy<Table>) -> BoxedStrategy<Placed> {
    let fill = prop_oneof![
        1 => Just(vec![0u8]),
        1 => Just(vec![0xFFu8]),
        2 => vec(any::<u8>(), 1..=24),
        1 => Just(b"_SM_".to_vec()),
    ];
    (t, any::<(u8, u8)>(), fill)
        .prop_map(|(table, before, fill)| Placed {
            table,
            before,
            fill,
        })
        .boxed()
}
impl Slots for Placed {
    fn slots<'a>(&'a mut self, out: &mut Vec<Slot<'a>>) {
        self.table.slots(out);
        out.push(Slot::U8(&mut self.before.0));
        out.push(Slot::U8(&mut self.before.1));
        out.push(Slot::Bytes(&mut self.fill, 32));
    }
    fn mend(&mut self, m: &mut Mutator) {
        self.table.mend(m);
        if self.fill.is_empty() {
            self.fill.push(0);
        }
    }
}
pub fn first_difference(what: &str, a: &[String], b: &[String]) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let i = a
        .iter()
        .zip(b)
        .position(|(x, y)| x != y)
        .unwrap_or(a.len().min(b.len()));
    let none = String::from("(no item)");
    let (x, y) = (a.get(i).unwrap_or(&none), b.get(i).unwrap_or(&none));
    let j = x
        .bytes()
        .zip(y.bytes())
        .position(|(p, q)| p != q)
        .unwrap_or(0);
    let cut = |s: &str| {
        s.bytes()
            .skip(j.saturating_sub(60))
            .take(120)
            .map(|b| b as char)
            .collect::<String>()
    };
    Err(format!(
        "{what}: item {i} differs: ...{:?} vs ...{:?}",
        cut(x),
        cut(y)
    ))
}
fn placement(c: &Placed, cx: &mut Cx) -> Result<(), String> {
    let t = &c.table;
    let ep = any_entry(t.ver, t.declared, t.v3)?;
    let a = surrounded(&t.buf, &[0xA5], c.before.0 as usize, 300, |b| {
        full::table(&ep, b)
    });
    let b = surrounded(&t.buf, &c.fill, c.before.1 as usize, 300, |b| {
        full::table(&ep, b)
    });
    if !a.is_empty() {
        cx.nontrivial();
    }
    first_difference("other bytes around the buffer", &a, &b)
}

fn faultless(c: &Table, cx: &mut Cx) -> Result<(), String> {
    let ep = any_entry(c.ver, c.declared, c.v3)?;
    class(cx, &ep, &c.buf);
    if c.buf.len() > ROOM {
        return Ok(());
    }
    let g = guarded_memory();
    let a = g.with(&c.buf, true, |b| full::table(&ep, b));
    let b = g.with(&c.buf, false, |b| full::table(&ep, b));
    first_difference("at the end vs the start of mapped memory", &a, &b)
}
fn faultless_big(c: &Big, cx: &mut Cx) -> Result<(), String> {
    faultless(&big_table(c), cx)
}

fn search_placed(c: &Image, cx: &mut Cx) -> Result<(), String> {
    let body = image_bytes(c);
    if body.len() > ROOM {
        return Ok(());
    }
    let g = guarded_memory();
    let a = g.with(&body, true, |b| full::search(b).1);
    let b = g.with(&body, false, |b| full::search(b).1);
    if !a.starts_with("NotFound") {
        cx.nontrivial();
    }
    // behind it lies what would complete a cut entry point
    let x = surrounded(&body, &[0], c.shift as usize, 300, |b| full::search(b).1);
    let y = surrounded(&body, b"_SM_\xff\x1f\x02", 3, 300, |b| full::search(b).1);
    let z = surrounded(&body, b"_SM3_\xff\x18\x03", 16, 300, |b| full::search(b).1);
    for o in [&b, &x, &y, &z] {
        if *o != a {
            return Err(format!("the search gives {a} here and {o} elsewhere"));
        }
    }
    Ok(())
}

/// What is handed out lies in the structure's own bytes.
fn inside(c: &Table, cx: &mut Cx) -> Result<(), String> {
    let ep = any_entry(c.ver, c.declared, c.v3)?;
    let base = c.buf.as_ptr() as usize;
    let frames = frames(c.ver.0, c.declared, &c.buf);
    for (i, r) in ep
        .structures(&c.buf)
        .enumerate()
        .take(crate::raw::max_items(&c.buf))
    {
        let Ok(s) = r else { continue };
        for sp in spans(&s) {
            if sp.is_empty() {
                continue;
            }
            cx.nontrivial();
            let (a, z) = (sp.as_ptr() as usize, sp.as_ptr() as usize + sp.len());
            if a < base || z > base + c.buf.len() {
                return Err(format!(
                    "item {i} hands out {:?}, which is not in the buffer",
                    hex(sp)
                ));
            }
            let (a, z) = (a - base, z - base);
            match frames.get(i) {
                Some(Frame::Whole(f, e) | Frame::Straddles(f, e)) if *f + 4 <= a && z <= *e => {}
                f => {
                    return Err(format!(
                        "item {i} hands out bytes {a}..{z}, but lies at {f:?}"
                    ))
                }
            }
        }
    }
    Ok(())
}

/// Other strings, and other bytes behind the structure: nothing but text changes.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Behind {
    ver: Ver,
    raw: Raw,
    strings: Vec<String>,
    next: Vec<Raw>,
}
fn behind() -> BoxedStrategy<Behind> {
    (
        structure_of(gen::DECODED, Style::Mixed),
        vec(gen::string(), 20),
        structures(0..=2, any_kind(), Style::Mixed),
    )
        .prop_map(|((ver, raw), pool, (_, next))| {
            let strings = raw
                .strings
                .iter()
                .enumerate()
                .map(|(i, _)| pool[i % 20].clone())
                .collect();
            Behind {
                ver,
                raw,
                strings,
                next,
            }
        })
        .boxed()
}
impl Slots for Behind {
    fn slots<'a>(&'a mut self, out: &mut Vec<Slot<'a>>) {
        out.push(Slot::Ver(&mut self.ver));
        self.raw.slots(out);
        self.next.iter_mut().for_each(|r| r.slots(out));
    }
    fn shape(&mut self, m: &mut Mutator) {
        reshape(&mut self.next, 3, m)
    }
    fn mend(&mut self, m: &mut Mutator) {
        // as many other strings as there are
        let n = self.raw.strings.len();
        self.strings.truncate(n);
        while self.strings.len() < n {
            let s = format!("other {}", m.below(1000));
            self.strings.push(s);
        }
    }
    fn fewer(&mut self, i: usize) -> bool {
        without(&mut self.next, 0, i)
    }
}
fn short_at(i: u64) -> Behind {
    let kinds = gen::DECODED.len() as u64;
    let kind = gen::DECODED[(i % kinds) as usize];
    let i = i / kinds;
    let ver = gen::VERSIONS[(i % 17) as usize];
    let i = i / 17;
    let (fill, len) = ((i % 3) as u8, 4 + (i / 3) as usize);
    let mut raw = gen::base(kind, ver, fill, len);
    let next = vec![gen::base(gen::DECODED[len % 20], ver, 2, 0x20)];
    // zeros where references may be, whether the strings are there or not
    if len % 2 == 0 {
        raw.strings.truncate(1);
        raw.data.iter_mut().for_each(|b| *b = (*b != 0) as u8);
    }
    let strings = raw
        .strings
        .iter()
        .map(|s| format!("\u{7f}\u{1}\u{ff}{}", s.to_uppercase()))
        .collect();
    Behind {
        ver,
        raw,
        strings,
        next,
    }
}
fn own_bytes(c: &Behind, cx: &mut Cx) -> Result<(), String> {
    let other = Raw {
        strings: c.strings.clone(),
        ..c.raw.clone()
    };
    let a = decode_one(c.ver, &c.raw)?;
    let b = decode_one(c.ver, &other)?;
    match (&a, &b) {
        (Item::Ok(a), Item::Ok(b)) => {
            cx.nontrivial();
            if a.kind != b.kind || a.fields.len() != b.fields.len() {
                return Err(format!("with other strings {} becomes {}", a.kind, b.kind));
            }
            let has_text = |v: &str| v.contains('"');
            for ((k, x), (_, y)) in a.fields.iter().zip(&b.fields) {
                let text = has_text(x)
                    || has_text(y)
                    || has_text(a.get(k.trim_end_matches('#')).unwrap_or(""));
                if x != y && !text {
                    return Err(format!(
                        "with other strings {}.{k} changes from {x} to {y}",
                        a.kind
                    ));
                }
            }
        }
        (Item::Err(..), Item::Err(..)) if a == b => {}
        _ => {
            return Err(format!(
                "with other strings {} becomes {}",
                a.brief(),
                b.brief()
            ))
        }
    }
    // the same with something behind it
    let mut buf = c.raw.encode();
    buf.extend(encode_all(&c.next));
    let ep = crate::raw::entry(c.ver, buf.len() as u32, buf.len() > 0xFFFF)?;
    let got = ep
        .structures(&buf)
        .next()
        .map(|r| item(&r))
        .ok_or("no item")?;
    match got.diff(&a) {
        None => Ok(()),
        Some(d) => Err(format!("with something behind it vs alone: {d}")),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Slice {
    #[serde(with = "hexbytes")]
    bytes: Vec<u8>,
    at: Vec<(u64, u64)>,
}
fn slices() -> BoxedStrategy<Slice> {
    let at =
        prop_oneof![6 => 0u64..40, 1 => any::<u64>(), 1 => (0u64..9).prop_map(|d| u64::MAX - d)];
    (vec(gen::byte(), 0..24), vec((at.clone(), at), 1..6))
        .prop_map(|(bytes, at)| Slice { bytes, at })
        .boxed()
}
/// Conversions from short slices, and the accessors of a raw structure.
fn short(c: &Slice, cx: &mut Cx) -> Result<(), String> {
    if c.bytes.len() < 16 {
        cx.nontrivial();
    }
    let g = guarded_memory();
    let a = g.with(&c.bytes, true, short_slices);
    let b = g.with(&c.bytes, false, short_slices);
    let d = surrounded(&c.bytes, &[0xFF], 1, 40, short_slices);
    if a != b || a != d {
        return Err(format!(
            "{} converts to {a}, {b} or {d}, depending on what is around it",
            hex(&c.bytes)
        ));
    }
    let raw = Raw {
        kind: 200,
        handle: 1,
        data: c.bytes.clone(),
        strings: vec![],
    };
    let buf = raw.encode();
    let ep = crate::raw::ep_v2((3, 0), buf.len() as u16);
    g.with(&buf, true, |b| {
        let Some(Ok(dmidecode::Structure::Other(o))) = ep.structures(b).next() else {
            return Err("a raw structure is not found".to_string());
        };
        for (off, size) in &c.at {
            let (off, size) = (*off as usize, *size as usize);
            if let Some(s) = o.get_slice(off, size) {
                if Some(s) != raw.bytes(off, size) {
                    return Err(format!("{size} bytes at {off:#x} are {s:?}"));
                }
            }
            let _ = (
                o.get::<u8>(off),
                o.get::<u16>(off),
                o.get::<u32>(off),
                o.get::<u64>(off),
                o.get::<u128>(off),
            );
            let _ = o.get_string(off);
        }
        Ok(())
    })
}

pub fn c02() -> Vec<Part> {
    fn placed_one() -> BoxedStrategy<Placed> {
        placed(disturbed())
    }
    fn placed_mixed() -> BoxedStrategy<Placed> {
        placed(any_mixed())
    }
    fn placed_tables() -> BoxedStrategy<Placed> {
        placed(any_tables())
    }
    vec![
        random(
            "surroundings",
            "one structure, disturbed as for C01, decoded at two places with other bytes around it; non-trivial: there are \
             items; oracle: all values, texts and errors are the same",
            (120_000, 5_000_000),
            placed_one,
            placement,
        ),
        random(
            "surroundings-tables",
            "the same with damaged tables, also with a declared length past the buffer",
            (50_000, 2_000_000),
            placed_tables,
            placement,
        ),
        random(
            "guard-pages",
            "structures, tables and bytes as for C01 right before, then right behind a page that cannot be read; non-trivial: \
             a decoded structure or an error is due; oracle: no fault, and the same outcome",
            (120_000, 5_000_000),
            any_mixed,
            faultless,
        ),
        random(
            "guard-pages-large",
            "the same with tables of up to 240 KB",
            (120, 5_000),
            big,
            faultless_big,
        ),
        random(
            "guard-pages-numerous",
            "the same with up to 65540 structures of four to six bytes",
            (24, 1_000),
            numerous,
            faultless_big,
        ),
        exhaustive(
            "guard-pages-lengths",
            "every decoded kind and a raw one x 20 versions x every length 4-255 x 6 fillings; non-trivial and oracle: as for \
             guard-pages",
            grid_size,
            grid_at,
            faultless,
        ),
        random(
            "search",
            "memory images as for C03 at both ends of mapped memory and among bytes that complete a cut entry point; \
             non-trivial: an anchor is found; oracle: no fault, and the same outcome",
            (100_000, 4_000_000),
            any_image,
            search_placed,
        ),
        random(
            "handed-out",
            "damaged tables; non-trivial: a string or slice is handed out; oracle: each lies inside its own structure",
            (100_000, 4_000_000),
            any_tables,
            inside,
        ),
        random(
            "own-bytes",
            "structures, many too short for their version, whose strings are replaced and behind which others follow; \
             non-trivial: it is decoded; oracle: nothing but text changes",
            (200_000, 8_000_000),
            behind,
            own_bytes,
        ),
        exhaustive(
            "own-bytes-lengths",
            "every decoded kind x 17 versions x lengths 4-107 x 3 fillings, the same; non-trivial and oracle: as before",
            |_| gen::DECODED.len() as u64 * 17 * 3 * 104,
            short_at,
            own_bytes,
        ),
        random(
            "slices",
            "slices of 0-23 bytes converted, and accessors at any offset, at both ends of mapped memory; non-trivial: under 16 \
             bytes; oracle: no fault, the same outcome, nothing but the section is handed out",
            (200_000, 8_000_000),
            slices,
            short,
        ),
        guided(
            "guided",
            "tables as in surroundings, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for surroundings",
            (200_000, 8_000_000),
            placed_mixed,
            placement,
        ),
        guided(
            "guided-pages",
            "tables as in guard-pages, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for guard-pages",
            (300_000, 10_000_000),
            any_mixed,
            faultless,
        ),
        guided(
            "guided-own-bytes",
            "structures as in own-bytes, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for own-bytes",
            (800_000, 20_000_000),
            behind,
            own_bytes,
        ),
    ]
}
