//! C18: bit fields and flag sets.

use crate::gen;
use crate::guided::{guided, Slot, Slots};
use crate::raw::{ep_v2, Raw, Ver};
use crate::run::{exhaustive, random, Cx, Part};
use dmidecode::bitfield::{BitField, Flag, FlagType, Iter, Layout, Position, ReservedRange};
use dmidecode::structures::system_event_log::log_record_format::PostResults;
use dmidecode::structures::system_event_log::LogStatus;
use dmidecode::structures::system_slots::{SlotCharacteristics1, SlotCharacteristics2};
use dmidecode::Structure;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::OnceLock;

/// JSON numbers end at 64 bits
mod hex128 {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &u128, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{v:x}"))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<u128, D::Error> {
        u128::from_str_radix(&String::deserialize(d)?, 16).map_err(serde::de::Error::custom)
    }
}

/// one bit as described
#[derive(Clone, Debug, PartialEq)]
struct Bit {
    kind: char,
    short: String,
    long: String,
}
impl Bit {
    fn of(t: &FlagType<'_>) -> Bit {
        let (kind, short, long) = match t {
            FlagType::Significant(a, b) => ('S', *a, *b),
            FlagType::Reserved(a) => ('R', *a, *a),
            FlagType::Unknown => ('U', "Unknown", "Unknown"),
            #[allow(unreachable_patterns)]
            _ => ('?', "", ""),
        };
        Bit {
            kind,
            short: short.into(),
            long: long.into(),
        }
    }
}

/// What a user sees of a bit field.
#[derive(Clone, Debug, PartialEq)]
struct Seen {
    flags: Vec<(usize, bool, Bit)>,
    significant: Vec<(usize, String, String)>,
    reserved: Vec<(String, usize, usize)>,
    collected: u128,
}

fn flag(f: &Flag<'_>) -> Result<(usize, bool, Bit), String> {
    let b = Bit::of(&f.type_);
    if *f.position != f.position.0 {
        return Err(format!("position {:?} reads {}", f.position, *f.position));
    }
    let (short, long) = (format!("{f}"), format!("{f:#}"));
    if (&short, &long) != (&b.short, &b.long) {
        return Err(format!(
            "bit {} of {b:?} reads {short:?} / {long:?}",
            f.position.0
        ));
    }
    Ok((f.position.0, f.is_set, b))
}
fn range(r: &ReservedRange<'_>) -> (String, usize, usize) {
    (r.description.into(), *r.range.start(), *r.range.end())
}
const MANY: usize = 1000;

fn see<'a, B: BitField<'a>>(b: &B) -> Result<Seen, String> {
    let value: u128 = b.value().into();
    let mut flags = vec![];
    let mut set = vec![];
    for f in b.iter().take(MANY) {
        flags.push(flag(&f)?);
        if f.is_set {
            set.push(f.position);
        }
    }
    let mut significant = vec![];
    for f in b.significants().take(MANY) {
        let (p, is, b) = flag(&f)?;
        if !is {
            return Err(format!("significant bit {p} is not set"));
        }
        significant.push((p, b.short, b.long));
    }
    let reserved = b.reserved().take(MANY).map(|r| range(&r)).collect();
    let collected: u128 = if set.iter().all(|p| p.0 < 128) {
        set.iter().collect()
    } else {
        return Err("a position past 127".into());
    };
    if collected != value {
        return Err(format!(
            "the positions set make {collected:#x}, the value is {value:#x}"
        ));
    }
    Ok(Seen {
        flags,
        significant,
        reserved,
        collected,
    })
}

/// The same from the layout and the value.
fn due(bits: usize, value: u128, layout: &[Bit]) -> Seen {
    let unknown = Bit {
        kind: 'U',
        short: "Unknown".into(),
        long: "Unknown".into(),
    };
    let at = |i: usize| layout.get(i).cloned().unwrap_or(unknown.clone());
    let is = |i: usize| value >> i & 1 == 1;
    let mut reserved: Vec<(String, usize, usize)> = vec![];
    for i in (0..bits).filter(|i| at(*i).kind == 'R') {
        let d = at(i).short;
        match reserved.last_mut() {
            Some((e, _, end)) if *e == d && *end + 1 == i => *end = i,
            _ => reserved.push((d, i, i)),
        }
    }
    Seen {
        flags: (0..bits).map(|i| (i, is(i), at(i))).collect(),
        significant: (0..bits)
            .filter(|i| is(*i) && at(*i).kind != 'R')
            .map(|i| (i, at(i).short, at(i).long))
            .collect(),
        reserved,
        collected: value,
    }
}

fn same(got: Seen, want: Seen) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    if got.flags != want.flags {
        let i = got
            .flags
            .iter()
            .zip(&want.flags)
            .position(|(a, b)| a != b)
            .unwrap_or(got.flags.len().min(want.flags.len()));
        return Err(format!(
            "bit {i} is {:?}, expected {:?}",
            got.flags.get(i),
            want.flags.get(i)
        ));
    }
    if got.significant != want.significant {
        return Err(format!(
            "significant bits are {:?}, expected {:?}",
            got.significant, want.significant
        ));
    }
    Err(format!(
        "reserved runs are {:?}, expected {:?}",
        got.reserved, want.reserved
    ))
}

// --- the library's own bit fields -----------------------------------------

const NAMES: &[(&str, usize)] = &[
    ("Characteristics", 64),
    ("CharacteristicsExtension1", 8),
    ("CharacteristicsExtension2", 8),
    ("LanguageFlags", 8),
    ("SlotCharacteristics1", 8),
    ("SlotCharacteristics2", 8),
    ("LogStatus", 8),
    ("PostResults", 64),
];

fn layouts() -> &'static BTreeMap<String, Vec<Bit>> {
    static L: OnceLock<BTreeMap<String, Vec<Bit>>> = OnceLock::new();
    L.get_or_init(|| {
        let mut m: BTreeMap<String, Vec<Bit>> = BTreeMap::new();
        for l in include_str!("../../tables/layouts.tsv").lines() {
            let f: Vec<&str> = l.split('\t').collect();
            let un = |s: &str| s.replace("\\n", "\n");
            let v = m.entry(f[0].into()).or_default();
            assert_eq!(v.len(), f[1].parse::<usize>().unwrap());
            v.push(Bit {
                kind: f[2].chars().next().unwrap(),
                short: un(f[3]),
                long: un(f[4]),
            });
        }
        m
    })
}

/// Decode one structure and look at it.
pub fn with_structure<T>(
    ver: Ver,
    raw: &Raw,
    f: impl FnOnce(&Structure<'_>) -> Result<T, String>,
) -> Result<T, String> {
    let buf = raw.encode();
    let ep = ep_v2(ver, buf.len() as u16);
    match ep.structures(&buf).next() {
        Some(Ok(s)) => f(&s),
        x => Err(format!(
            "kind {} of {} bytes is not decoded: {x:?}",
            raw.kind,
            raw.len()
        )),
    }
}

fn put(r: &mut Raw, off: usize, v: &[u8]) {
    r.data[off - 4..off - 4 + v.len()].copy_from_slice(v);
}

fn own(i: usize, v: u64) -> Result<Seen, String> {
    let byte = v as u8;
    let bios = |f: fn(&dmidecode::Bios<'_>) -> Result<Seen, String>| {
        let mut r = gen::base(0, (3, 1), 0, 0x1A);
        put(&mut r, 0x0A, &v.to_le_bytes());
        if i > 0 {
            put(&mut r, 0x0A, &[0x5A; 8]);
            put(&mut r, 0x12, &[!byte, !byte]);
            put(&mut r, 0x11 + i, &[byte]);
        }
        with_structure((3, 1), &r, |s| match s {
            Structure::Bios(b) => f(b),
            s => Err(format!("{s:?}")),
        })
    };
    match i {
        0 => bios(|b| see(&b.bios_characteristics)),
        1 => bios(|b| {
            b.bios_characteristics_exttension_1
                .as_ref()
                .ok_or("absent".to_string())
                .and_then(see)
        }),
        2 => bios(|b| {
            b.bios_characteristics_exttension_2
                .as_ref()
                .ok_or("absent".to_string())
                .and_then(see)
        }),
        3 => {
            let mut r = gen::base(13, (2, 1), 0, 0x16);
            put(&mut r, 5, &[byte]);
            with_structure((2, 1), &r, |s| match s {
                Structure::BiosLanguage(b) => {
                    b.flags.as_ref().ok_or("absent".to_string()).and_then(see)
                }
                s => Err(format!("{s:?}")),
            })
        }
        4 => see(&SlotCharacteristics1::from(byte)),
        5 => see(&SlotCharacteristics2::from(byte)),
        6 => see(&LogStatus::from(byte)),
        _ => see(&PostResults::from(v)),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Own {
    field: u8,
    value: u64,
}
fn own_check(c: &Own, cx: &mut Cx) -> Result<(), String> {
    let (name, bits) = NAMES[c.field as usize % NAMES.len()];
    let value = if bits == 8 { c.value & 0xFF } else { c.value };
    if value != 0 {
        cx.nontrivial();
    }
    let got = own(c.field as usize % NAMES.len(), value).map_err(|e| format!("{name}: {e}"))?;
    same(got, due(bits, value as u128, &layouts()[name])).map_err(|e| format!("{name}: {e}"))
}
/// the bytes exhaustively, of the wide ones each bit alone, each pair and the complements
fn own_at(i: u64) -> Own {
    if i < 6 * 256 {
        return Own {
            field: [1, 2, 3, 4, 5, 6][(i / 256) as usize],
            value: i % 256,
        };
    }
    let i = i - 6 * 256;
    let (a, b, inv) = (i % 64, i / 64 % 64, i / 4096 % 2);
    let v = 1u64 << a | 1 << b;
    Own {
        field: [0, 7][(i / 8192) as usize % 2],
        value: if inv == 1 { !v } else { v },
    }
}
impl Slots for Own {
    fn slots<'a>(&'a mut self, out: &mut Vec<Slot<'a>>) {
        out.push(Slot::U64(&mut self.value));
    }
}
fn own_random() -> BoxedStrategy<Own> {
    (
        prop::sample::select(&[0u8, 7][..]),
        any::<u64>(),
        any::<u64>(),
        any::<bool>(),
    )
        .prop_map(|(field, a, b, thin)| Own {
            field,
            value: if thin { a & b & (a >> 7) } else { a },
        })
        .boxed()
}

pub fn dump() {
    for (i, (name, _)) in NAMES.iter().enumerate() {
        let s = own(i, 0).unwrap();
        for (p, _, b) in s.flags {
            let esc = |s: &str| s.replace('\n', "\\n");
            println!(
                "{name}\t{p}\t{}\t{}\t{}",
                b.kind,
                esc(&b.short),
                esc(&b.long)
            );
        }
    }
}

// --- any layout -----------------------------------------------------------

const DESCRIPTIONS: [(&str, &str); 6] = [
    ("A", "A long"),
    ("B", "B long"),
    ("", "nothing"),
    ("Reserved", "Reserved"),
    ("C", "C"),
    ("A", "B long"),
];
const NOTES: [&str; 4] = ["Reserved", "Reserved for OEM", "Res", ""];

const fn scramble(x: u64) -> u64 {
    let mut x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}
/// A pseudo-random layout; how reserved bits cluster depends on the seed too.
const fn layout<const N: usize>(seed: u64) -> [FlagType<'static>; N] {
    let mut a = [FlagType::Unknown; N];
    let mut i = 0;
    let stay = scramble(seed) % 4;
    while i < N {
        let x = scramble(seed << 16 | i as u64);
        if i > 0 && x % 4 < stay {
            a[i] = a[i - 1];
        } else {
            let y = (x >> 8) as usize;
            a[i] = match (x >> 40) % 5 {
                0 | 1 => FlagType::Reserved(NOTES[y % NOTES.len()]),
                2 | 3 => FlagType::Significant(DESCRIPTIONS[y % 6].0, DESCRIPTIONS[y % 6].1),
                _ => FlagType::Unknown,
            };
        }
        i += 1;
    }
    a
}
const LENGTHS: [usize; 8] = [0, 1, 7, 8, 16, 33, 64, 128];
const fn cut(l: &'static [FlagType<'static>], n: usize) -> Layout<'static> {
    if n >= l.len() {
        l
    } else {
        l.split_at(n).0
    }
}

struct Custom<const SEED: u64, T>(T);
const SEEDS: u64 = 48;
macro_rules! dispatch {
    ($seed:expr, $v:expr, $t:ty, $($s:literal)*) => {
        match $seed % SEEDS {
            $( $s => {
                let b = Custom::<$s, $t>($v);
                Ok((see(&b)?, <Custom<$s, $t> as BitField>::LAYOUT.iter().map(Bit::of).collect()))
            } )*
            _ => unreachable!(),
        }
    };
}
trait Wide: Sized {
    fn see(self, seed: u64) -> Result<(Seen, Vec<Bit>), String>;
}
macro_rules! custom {
    ($($t:ty),*) => { $(
        impl<const SEED: u64> BitField<'static> for Custom<SEED, $t> {
            type Size = $t;
            const LAYOUT: Layout<'static> =
                cut(&const { layout::<130>(SEED) }, if SEED % 3 == 0 { LENGTHS[(SEED / 3 % 8) as usize] } else { 130 });
            fn value(&self) -> $t {
                self.0
            }
        }
        impl Wide for $t {
            fn see(self, seed: u64) -> Result<(Seen, Vec<Bit>), String> {
                dispatch!(seed, self, $t, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29
                    30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47)
            }
        }
    )* };
}
custom!(u8, u16, u32, u64, u128);

/// One run of reserved bits from the first bit (A < 8) or to the last (A >= 8), each
/// length, between bits of one other sort.
struct Run<const A: usize, const B: usize, T>(T);
const fn run(a: usize, b: usize) -> [FlagType<'static>; 128] {
    let n = a % 8 * 16 + b;
    let other = match n % 3 {
        0 => FlagType::Unknown,
        1 => FlagType::Significant("A", "A long"),
        _ => FlagType::Reserved("Res"),
    };
    let mut l = [other; 128];
    let mut i = 0;
    while i < 128 {
        if a < 8 && i <= n || a >= 8 && i >= n {
            l[i] = FlagType::Reserved("Reserved");
        }
        i += 1;
    }
    l
}
impl<const A: usize, const B: usize> BitField<'static> for Run<A, B, u128> {
    type Size = u128;
    const LAYOUT: Layout<'static> = &const { run(A, B) };
    fn value(&self) -> u128 {
        self.0
    }
}
impl<const A: usize, const B: usize> BitField<'static> for Run<A, B, u64> {
    type Size = u64;
    const LAYOUT: Layout<'static> = &const { run(A, B) };
    fn value(&self) -> u64 {
        self.0
    }
}
macro_rules! runs {
    ($name:ident, $t:ty) => {
        fn $name(a: usize, b: usize, v: $t) -> Result<Seen, String> {
            macro_rules! low {
                ($a2:literal) => {
                    runs!(@ $a2, b, v, $t, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15)
                };
            }
            match a {
                0 => low!(0),
                1 => low!(1),
                2 => low!(2),
                3 => low!(3),
                4 => low!(4),
                5 => low!(5),
                6 => low!(6),
                7 => low!(7),
                8 => low!(8),
                9 => low!(9),
                10 => low!(10),
                11 => low!(11),
                12 => low!(12),
                13 => low!(13),
                14 => low!(14),
                _ => low!(15),
            }
        }
    };
    (@ $a:literal, $b:expr, $v:expr, $t:ty, $($s:literal)*) => {
        match $b {
            $( $s => see(&Run::<$a, $s, $t>($v)), )*
            _ => unreachable!(),
        }
    };
}
runs!(run_u64, u64);
runs!(run_u128, u128);

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct RunCase {
    run: u8,
    wide: bool,
    #[serde(with = "hex128")]
    value: u128,
}
fn run_at(i: u64) -> RunCase {
    let x = scramble(i) as u128 * (scramble(!i) as u128 | 1);
    RunCase {
        run: i as u8,
        wide: i / 256 % 2 == 1,
        value: [0, u128::MAX, x, x.rotate_left(64)][(i / 512) as usize % 4],
    }
}
fn run_check(c: &RunCase, cx: &mut Cx) -> Result<(), String> {
    let (a, b) = (c.run as usize / 16, c.run as usize % 16);
    let layout: Vec<Bit> = run(a, b).iter().map(Bit::of).collect();
    cx.nontrivial();
    if c.wide {
        same(run_u128(a, b, c.value)?, due(128, c.value, &layout))
    } else {
        let v = c.value as u64;
        same(run_u64(a, b, v)?, due(64, v as u128, &layout))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Value {
    /// 8 << width bits
    width: u8,
    seed: u64,
    #[serde(with = "hex128")]
    value: u128,
}
fn value() -> BoxedStrategy<u128> {
    prop_oneof![
        4 => any::<u128>(),
        2 => (any::<u128>(), any::<u128>()).prop_map(|(a, b)| a & b & a.rotate_left(7)),
        2 => (0u32..128).prop_map(|i| 1 << i),
        1 => (0u32..128).prop_map(|i| !(1 << i)),
        1 => Just(u128::MAX),
        1 => Just(0),
    ]
    .boxed()
}
fn values() -> BoxedStrategy<Value> {
    (0u8..5, 0..SEEDS, value())
        .prop_map(|(width, seed, value)| Value { width, seed, value })
        .boxed()
}
fn narrow(width: u8, v: u128) -> (usize, u128) {
    let bits = 8usize << width;
    (
        bits,
        if bits == 128 {
            v
        } else {
            v & ((1 << bits) - 1)
        },
    )
}
fn custom_check(c: &Value, cx: &mut Cx) -> Result<(), String> {
    let (bits, v) = narrow(c.width, c.value);
    let (got, layout) = match c.width {
        0 => (v as u8).see(c.seed),
        1 => (v as u16).see(c.seed),
        2 => (v as u32).see(c.seed),
        3 => (v as u64).see(c.seed),
        _ => v.see(c.seed),
    }?;
    if v != 0 {
        cx.nontrivial();
    }
    if !got.reserved.is_empty() {
        cx.label("reserved runs");
    }
    same(got, due(bits, v, &layout))
}

/// Iter over a layout made at run time, from any position.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Free {
    width: u8,
    #[serde(with = "hex128")]
    value: u128,
    from: u8,
    layout: Vec<(u8, u8)>,
}
fn free() -> BoxedStrategy<Free> {
    (
        0u8..5,
        value(),
        any::<u8>(),
        prop::collection::vec((any::<u8>(), 0u8..6), 0..=130),
    )
        .prop_map(|(width, value, from, layout)| Free {
            width,
            value,
            from,
            layout,
        })
        .boxed()
}
fn free_check(c: &Free, cx: &mut Cx) -> Result<(), String> {
    let layout: Vec<FlagType<'_>> = c
        .layout
        .iter()
        .map(|(k, d)| match k {
            0..=99 => FlagType::Reserved(NOTES[*d as usize % 4]),
            100..=220 => {
                FlagType::Significant(DESCRIPTIONS[*d as usize].0, DESCRIPTIONS[*d as usize].1)
            }
            _ => FlagType::Unknown,
        })
        .collect();
    let (bits, v) = narrow(c.width, c.value);
    let from = c.from as usize % (bits + 1);
    fn run<T: Into<u128> + Copy>(
        value: T,
        index: usize,
        layout: Layout<'_>,
    ) -> Result<Vec<(usize, bool, Bit)>, String> {
        Iter {
            value,
            index,
            layout,
        }
        .take(MANY)
        .map(|f| flag(&f))
        .collect()
    }
    let got = match c.width {
        0 => run(v as u8, from, &layout),
        1 => run(v as u16, from, &layout),
        2 => run(v as u32, from, &layout),
        3 => run(v as u64, from, &layout),
        _ => run(v, from, &layout),
    }?;
    if v != 0 && !layout.is_empty() {
        cx.nontrivial();
    }
    let want = due(bits, v, &layout.iter().map(Bit::of).collect::<Vec<_>>())
        .flags
        .split_off(from);
    let rest = |flags| Seen {
        flags,
        significant: vec![],
        reserved: vec![],
        collected: 0,
    };
    same(rest(got), rest(want))
}

/// Collecting positions, in any order.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Collect {
    width: u8,
    positions: Vec<u8>,
}
fn collects() -> BoxedStrategy<Collect> {
    (
        0u8..6,
        prop_oneof![
            prop::collection::vec(any::<u8>(), 0..12),
            prop::collection::vec(any::<u8>(), 0..140)
        ],
    )
        .prop_map(|(width, positions)| Collect { width, positions })
        .boxed()
}
fn collect_check(c: &Collect, cx: &mut Cx) -> Result<(), String> {
    let bits = if c.width == 5 {
        usize::BITS as usize
    } else {
        8 << c.width
    };
    let mut seen = std::collections::BTreeSet::new();
    let pos: Vec<Position> = c
        .positions
        .iter()
        .map(|p| Position(*p as usize % bits))
        .filter(|p| seen.insert(p.0))
        .collect();
    if !pos.is_empty() {
        cx.nontrivial();
    }
    let want = pos.iter().fold(0u128, |a, p| a | 1 << p.0);
    macro_rules! both {
        ($t:ty) => {
            (
                pos.iter().collect::<$t>() as u128,
                pos.iter().copied().collect::<$t>() as u128,
            )
        };
    }
    let got = match c.width {
        0 => both!(u8),
        1 => both!(u16),
        2 => both!(u32),
        3 => both!(u64),
        4 => both!(u128),
        _ => both!(usize),
    };
    if got == (want, want) {
        Ok(())
    } else {
        Err(format!("positions {pos:?} make {got:x?}, not {want:#x}"))
    }
}

// --- named flags ----------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Named {
    set: u8,
    value: u16,
}

macro_rules! names {
    ($s:expr, $value:expr, $mask:expr, $t:ty; $($n:ident = $bit:expr),* $(,)?) => {{
        let s = $s;
        let v = $value as u64 & $mask;
        if s.bits() as u64 != v {
            return Err(format!("{} {:#x} is kept as {:#x}", stringify!($t), $value, s.bits()));
        }
        $(
            let want = v & $bit == $bit;
            let flag = <$t>::$n;
            if s.contains(flag.clone()) != want || flag.bits() as u64 != $bit {
                return Err(format!("{}::{} of {:#x} is {}, its bits are {:#x}", stringify!($t), stringify!($n), $value,
                    s.contains(flag), <$t>::$n.bits()));
            }
        )*
        Ok(())
    }};
}

fn named_check(c: &Named, cx: &mut Cx) -> Result<(), String> {
    use dmidecode::structures::*;
    let v = c.value;
    if v != 0 {
        cx.nontrivial();
    }
    let one = |kind: u8, ver: Ver, len: usize, off: usize, wide: bool| {
        let mut r = gen::base(kind, ver, if v & 1 == 1 { 1 } else { 0 }, len);
        if wide {
            put(&mut r, off, &v.to_le_bytes());
        } else {
            put(&mut r, off, &[v as u8]);
        }
        r
    };
    let b = v & 0xFF;
    match c.set {
        0 => with_structure((2, 4), &one(2, (2, 4), 0x0F, 9, false), |s| {
            let Structure::BaseBoard(x) = s else {
                return Err(format!("{s:?}"));
            };
            let Some(x) = x.feature_flags.as_ref() else {
                return Err("flags absent".into());
            };
            names!(x, b, 0x1F, baseboard::BaseBoardFlags; HOSTING = 1, REQUIRES_DAUGHTER = 2, IS_REMOVABLE = 4,
                IS_REPLACEABLE = 8, IS_HOT_SWAPPABLE = 16)
        }),
        1 => with_structure((3, 0), &one(4, (3, 0), 0x30, 0x18, false), |s| {
            let Structure::Processor(x) = s else {
                return Err(format!("{s:?}"));
            };
            names!(&x.status, b, 0x47, processor::ProcessorStatus; CPU_SOCKET_POPULATED = 0x40, CPU_ENABLED = 1,
                CPU_DISABLED_BY_USER = 2, CPU_DISABLED_BY_BIOS = 3, CPU_IDLE = 4, CPU_OTHER = 7)
        }),
        2 => with_structure((3, 0), &one(4, (3, 0), 0x30, 0x26, true), |s| {
            let Structure::Processor(x) = s else {
                return Err(format!("{s:?}"));
            };
            let Some(x) = x.processor_characteristics.as_ref() else {
                return Err("characteristics absent".into());
            };
            names!(x, v, 0x2FF, processor::ProcessorCharacteristics; RESERVED = 1, UNKNOWN = 2, CAPABLE_64BIT = 4,
                MULTICORE = 8, HARDWARE_THREAD = 0x10, EXECUTE_PROTECTION = 0x20, ENHANCED_VIRTUALIZATION = 0x40,
                POWER_PERFORMANCE_CONTROL = 0x80, ARM64_SOC_ID = 0x200)
        }),
        3 | 4 => with_structure(
            (2, 1),
            &one(7, (2, 1), 0x13, if c.set == 3 { 0x0B } else { 0x0D }, true),
            |s| {
                let Structure::Cache(x) = s else {
                    return Err(format!("{s:?}"));
                };
                let x = if c.set == 3 {
                    &x.supported_sram_type
                } else {
                    &x.current_sram_type
                };
                names!(x, v, 0x7F, cache::CacheSramType; OTHER = 1, UNKNOWN = 2, NONBURST = 4, BURST = 8, PIPELINE_BURST = 0x10,
                SYNCHRONOUS = 0x20, ASYNCHRONOUS = 0x40)
            },
        ),
        5 => with_structure((3, 2), &one(17, (3, 2), 0x54, 0x13, true), |s| {
            let Structure::MemoryDevice(x) = s else {
                return Err(format!("{s:?}"));
            };
            names!(&x.type_detail, v, 0xFFFE, memory_device::Detail; RESERVED = 0, OTHER = 2, UNKNOWN = 4, FAST_PAGED = 8,
                STATIC_COLUMN = 0x10, PSEUDO_STATIC = 0x20, RAMBUS = 0x40, SYNCHRONOUS = 0x80, CMOS = 0x100, EDO = 0x200,
                WINDOW_DRAM = 0x400, CACHE_DRAM = 0x800, NON_VOLATILE = 0x1000, REGISTERED = 0x2000, UNREGISTERED = 0x4000,
                LRDIMM = 0x8000)
        }),
        6 => with_structure((3, 2), &one(17, (3, 2), 0x54, 0x29, true), |s| {
            let Structure::MemoryDevice(x) = s else {
                return Err(format!("{s:?}"));
            };
            let Some(x) = x.operating_mode_capability.as_ref() else {
                return Err("modes absent".into());
            };
            names!(x, v, 0x3E, memory_device::OperatingModes; RESERVED = 0, OTHER = 2, UNKNOWN = 4, VOLATILE = 8,
                BYTE_ACCESSIBLE_PERSISTENT = 0x10, BLOCK_ACCESSIBLE_PERSISTENT = 0x20)
        }),
        _ => match processor::Voltage::from(b as u8) {
            processor::Voltage::Legacy(x) => {
                names!(&x, b, 7, processor::VoltageLegacy; VOLTAGE_CAPABILITY_5V0 = 1,
                VOLTAGE_CAPABILITY_3V3 = 2, VOLTAGE_CAPABILITY_2V9 = 4)
            }
            x if b < 8 => Err(format!("voltage {b:#x} is {x:?}")),
            _ => Ok(()),
        },
    }
}
fn named_at(i: u64) -> Named {
    match i {
        0..=0x4_FFFF => Named {
            set: [2, 3, 4, 5, 6][(i >> 16) as usize],
            value: i as u16,
        },
        _ => Named {
            set: [0, 1, 7][(i >> 8) as usize % 3],
            value: i as u16 & 0xFF,
        },
    }
}

pub fn c18() -> Vec<Part> {
    vec![
        exhaustive(
            "own",
            "the library's eight bit fields, read through structures where they have no constructor: every value of the 8-bit \
             ones; of the 64-bit ones every one or two bits set or cleared; non-trivial: a bit is set; oracle: layout table",
            |_| 6 * 256 + 2 * 8192,
            own_at,
            own_check,
        ),
        guided(
            "guided",
            "values as in own-random, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for own",
            (500_000, 20_000_000),
            own_random,
            own_check,
        ),
        random("own-random", "random values of the 64-bit ones; oracle: as before", (40_000, 2_000_000), own_random, own_check),
        random(
            "layouts",
            "48 pseudo-random layouts of 0-130 bits with clustered reserved, significant and unknown bits, at 8 to 128 bits \
             width; non-trivial: a bit is set; oracle: definition of the three views",
            (200_000, 10_000_000),
            values,
            custom_check,
        ),
        exhaustive(
            "runs",
            "layouts with one run of equal reserved bits of each length 1-128, from the first bit or to the last, between bits \
             of one other sort, at 64 and 128 bits width, four values each; every case counts; oracle: as before",
            |_| 256 * 2 * 4,
            run_at,
            run_check,
        ),
        random(
            "iter",
            "flag iterator over random layouts, values and starting positions; non-trivial: a bit is set and the layout is not \
             empty; oracle: as before",
            (200_000, 10_000_000),
            free,
            free_check,
        ),
        random(
            "collect",
            "distinct positions in any order collected to each integer type, by value and by reference; non-trivial: there are \
             positions; oracle: the integer with those bits",
            (200_000, 10_000_000),
            collects,
            collect_check,
        ),
        exhaustive(
            "named",
            "every value of the eight flag sets, through structures; non-trivial: a bit is set; oracle: the named bit",
            |_| 5 * 65536 + 3 * 256,
            named_at,
            named_check,
        ),
    ]
}
