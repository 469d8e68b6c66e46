//! C19: quantities computed from encoded fields.

use super::bits::with_structure;
use super::{one, One};
use crate::gen::{self, structure_of, Style, Sweep};
use crate::guided::{guided, Slot, Slots};
use crate::model::{self, model, Expect};
use crate::obs::{hex, observe, Item, SEP};
use crate::raw::decode_one;
use crate::run::{exhaustive, random, Cx, Part};
use dmidecode::structures::bios::RomSize;
use dmidecode::structures::cache::{CacheConfiguration, CacheSize, CacheSize2};
use dmidecode::structures::enclosure::ContainedElement;
use dmidecode::structures::portable_battery::DesignCapacity;
use dmidecode::structures::processor::Voltage;
use dmidecode::structures::system_event_log::AccessMethod;
use dmidecode::structures::system_slots::{
    Device, DeviceAndFunctionNumber, PeerDevices, SlotPitch,
};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

fn is(what: &str, got: impl ToString, want: impl ToString) -> Result<(), String> {
    let (got, want) = (
        got.to_string().replace(SEP, " / "),
        want.to_string().replace(SEP, " / "),
    );
    if got == want {
        Ok(())
    } else {
        Err(format!("{what} is {got}, but denotes {want}"))
    }
}

/// The derived quantities of whole structures.
const DERIVED: &[&str] = &[
    "rom#",
    "bios_rev",
    "bios_rev#",
    "fw_rev",
    "fw_rev#",
    "voltage",
    "voltage#",
    "config",
    "max_size",
    "max_size#",
    "installed",
    "installed#",
    "max_size2",
    "max_size2#",
    "installed2",
    "installed2#",
    "devfn",
    "devfn#",
    "peers",
    "peers#",
    "pitch",
    "pitch#",
    "elements",
    "access",
    "access#",
    "date",
    "date#",
    "serial",
    "serial#",
    "capacity",
    "capacity#",
];
const KINDS: &[u8] = &[0, 3, 4, 7, 9, 15, 22];

fn quantities(c: &One, cx: &mut Cx) -> Result<(), String> {
    let got = decode_one(c.ver, &c.raw)?;
    let (Expect::Ok(want), Item::Ok(got)) = (model(c.ver, &c.raw), got) else {
        cx.label("not decoded");
        return Ok(());
    };
    for k in DERIVED {
        // strings, numbers of texts and the like are no quantities
        if (*k == "voltage" || *k == "serial")
            && !["Processor", "PortableBattery"].contains(&want.kind)
        {
            continue;
        }
        if let Some(w) = want.get(k).filter(|w| *w != "-") {
            cx.nontrivial();
            is(
                &format!("{}.{k}", want.kind),
                got.get(k).unwrap_or("(nothing)"),
                w,
            )?;
        }
    }
    Ok(())
}

/// All small encodings, by number.
fn small(i: &u64, cx: &mut Cx) -> Result<(), String> {
    cx.nontrivial();
    let (which, v) = (i >> 16, *i as u16);
    match which {
        0 => {
            is(
                "cache size",
                text(CacheSize::from(v)),
                model::cache_size(v as u64, 16),
            )?;
            let s = CacheSize::from(v);
            is(
                "cache size in bytes",
                s.bytes(),
                (v & 0x7FFF) as u64 * if v & 0x8000 != 0 { 65536 } else { 1024 },
            )
        }
        1 => is(
            "cache configuration",
            format!("{:?}", CacheConfiguration::from(v)),
            model::cache_config(v),
        ),
        2 => {
            let p = SlotPitch::from(v);
            is("slot pitch", format!("{p:?}{SEP}{p}"), model::pitch(v))
        }
        3 => {
            // packed date, where there is no text
            let mut raw = gen::base(22, (2, 2), 0, 0x1A);
            raw.data[2] = 0;
            raw.data[0x0E..0x10].copy_from_slice(&v.to_le_bytes());
            with_structure((2, 2), &raw, |s| {
                let o = observe(s);
                let got = format!(
                    "{}{SEP}{}",
                    o.get("date").unwrap_or(""),
                    o.get("date#").unwrap_or("")
                );
                is("manufacture date", got, model::sbds_date(v))
            })
        }
        4 | 5 => {
            // extended size with the basic one at its marker and just below
            let basic = if which == 4 { 0xFF } else { 0xFE };
            let got = u64::from(RomSize {
                basic,
                extended: Some(v),
            });
            is("ROM size", got, model::rom_bytes(basic, Some(v)))
        }
        6 => {
            let basic = v as u8;
            let ext = [
                None,
                Some(0u16),
                Some(0x3FFF),
                Some(0x7FFF),
                Some(0xC000),
                Some(0xFFFF),
                Some(0x4001),
                Some(16),
            ];
            let ext = ext[(v >> 8) as usize % 8];
            is(
                "ROM size",
                u64::from(RomSize {
                    basic,
                    extended: ext,
                }),
                model::rom_bytes(basic, ext),
            )
        }
        7 => {
            let b = v as u8;
            match v >> 8 {
                0 => {
                    let x = Voltage::from(b);
                    is(
                        "voltage",
                        format!("{x:?}{SEP}{x}{SEP}{x:#}"),
                        model::voltage(b),
                    )
                }
                1 => {
                    let x = DeviceAndFunctionNumber::from(b);
                    is(
                        "device and function",
                        format!("{x:?}{SEP}{}", u8::from(x)),
                        model::devfn(b),
                    )
                }
                _ => {
                    let rec = [b, (v >> 8) as u8, b ^ 0x5A, 7];
                    let n = (v >> 8) as usize % 5;
                    let x = ContainedElement::from(&rec[..n]);
                    is("element", x.to_string(), model::element(&rec[..n.min(3)]))
                }
            }
        }
        _ => {
            let unknown = DesignCapacity::Unknown;
            is("unknown capacity", u64::from(unknown), 0)?;
            let multiplier = [0, 1, 2, 10, 100, 127, 128, 255][(which - 8) as usize];
            let got = u64::from(DesignCapacity::Data {
                value: v,
                multiplier,
            });
            is("capacity", got, v as u64 * multiplier as u64)
        }
    }
}
fn text(s: CacheSize) -> String {
    format!("{s:?}{SEP}{}", s.bytes())
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Wide {
    method: u8,
    dword: u32,
    group: [u8; 5],
    multiplier: u8,
}
impl Slots for Wide {
    fn slots<'a>(&'a mut self, out: &mut Vec<Slot<'a>>) {
        out.push(Slot::U8(&mut self.method));
        out.push(Slot::U32(&mut self.dword));
        out.push(Slot::U8(&mut self.multiplier));
        self.group.iter_mut().for_each(|b| out.push(Slot::U8(b)));
    }
}
fn wide() -> BoxedStrategy<Wide> {
    let dword = prop_oneof![
        4 => any::<u32>(),
        1 => (0u32..32, -1i64..=1).prop_map(|(b, d)| ((1i64 << b) + d) as u32),
        1 => any::<[u8; 4]>().prop_map(|b| u32::from_le_bytes(b.map(|x| if x & 1 == 0 { 0 } else { x }))),
        1 => Just(u32::MAX),
    ];
    let method = prop_oneof![3 => 0u8..6, 1 => any::<u8>(), 1 => 0x7Eu8..0x82];
    (method, dword, any::<[u8; 5]>(), gen::byte())
        .prop_map(|(method, dword, group, multiplier)| Wide {
            method,
            dword,
            group,
            multiplier,
        })
        .boxed()
}
fn wide_check(c: &Wide, cx: &mut Cx) -> Result<(), String> {
    cx.nontrivial();
    let s = CacheSize2::from(c.dword);
    is(
        "cache size 2",
        format!("{s:?}{SEP}{}", s.bytes()),
        model::cache_size(c.dword as u64, 32),
    )?;
    let a = AccessMethod::new(c.method, c.dword);
    is(
        "access method",
        format!("{a:?}{SEP}{a}{SEP}{a:#}{SEP}{:#x}", a.address()),
        model::access(c.method, c.dword),
    )?;
    // an address handed back denotes the same access
    if AccessMethod::new(c.method, a.address()) != a {
        return Err(format!(
            "{a:?} gives address {:#x}, which denotes {:?}",
            a.address(),
            AccessMethod::new(c.method, a.address())
        ));
    }
    let d = Device::from(&c.group[..]);
    is("device group", hex(&<[u8; 5]>::from(&d)), hex(&c.group))?;
    let got = format!(
        "{}/{}/{}/{}{SEP}{d}{SEP}{}",
        d.segment_group_number,
        d.bus_number,
        u8::from(d.device_and_function_number),
        d.data_bus_width,
        hex(&<[u8; 5]>::from(&d))
    );
    is("peer device", got, model::peer(&c.group))?;
    // the same one among others, and a rest that is no whole one
    let mut groups = c.group.repeat(1 + c.multiplier as usize % 4);
    let n = groups.len() / 5;
    groups.extend_from_slice(&c.group[..c.method as usize % 5]);
    let all: Vec<Device> = PeerDevices::from(&groups[..]).take(10).collect();
    if all.len() < n || all[..n].iter().any(|x| *x != d) {
        return Err(format!("{n} times {d:?} give {all:?}"));
    }
    let v = c.dword as u16;
    let got = u64::from(DesignCapacity::Data {
        value: v,
        multiplier: c.multiplier,
    });
    is("capacity", got, v as u64 * c.multiplier as u64)
}

pub fn c19() -> Vec<Part> {
    fn clean() -> BoxedStrategy<One> {
        structure_of(KINDS, Style::Clean).prop_map(one).boxed()
    }
    const SWEEP: Sweep = Sweep { kinds: KINDS };
    vec![
        exhaustive(
            "small",
            "every 16-bit cache size, cache configuration, slot pitch, packed date and extended ROM size, every basic ROM size, \
             voltage, device/function number, element record, and battery capacities under 8 multipliers; every case counts; \
             oracle: the unit arithmetic of the specification in wide integers",
            |_| 16 << 16,
            |i| i,
            small,
        ),
        random(
            "wide",
            "random 32-bit cache sizes and access addresses under any method, peer device groups, capacities; every case \
             counts; oracle: as before, and back again",
            (400_000, 20_000_000),
            wide,
            wide_check,
        ),
        random(
            "structures",
            "random well-formed BIOS, enclosure, processor, cache, slot, event log and battery structures; non-trivial: has a \
             quantity; oracle: as before, on the encoded bytes",
            (300_000, 12_000_000),
            clean,
            quantities,
        ),
        exhaustive(
            "sweep",
            "each value of each byte of these structures under 17 versions, patterns over neighbouring bytes; non-trivial and \
             oracle: as before",
            |_| SWEEP.size(),
            |i| one(SWEEP.at(i)),
            quantities,
        ),
        guided(
            "guided-wide",
            "numbers as in wide, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for wide",
            (1_000_000, 40_000_000),
            wide,
            wide_check,
        ),
        guided(
            "guided",
            "structures as in structures, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for structures",
            (2_000_000, 60_000_000),
            clean,
            quantities,
        ),
    ]
}
