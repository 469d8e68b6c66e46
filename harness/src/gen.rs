//! Generators: versions, structures, tables, entry points.

use crate::raw::{Raw, Ver};
use proptest::collection::vec;
use proptest::prelude::*;

/// What the generator knows about a kind: total lengths of its layouts, where
/// string references are, and values worth trying at some offsets.
pub struct Spec {
    pub kind: u8,
    pub lens: &'static [usize],
    pub refs: &'static [usize],
    pub hot: &'static [(usize, &'static [u8])],
}

pub const SPECS: &[Spec] = &[
    Spec {
        kind: 0,
        lens: &[0x12, 0x13, 0x14, 0x18, 0x1A],
        refs: &[4, 5, 8],
        hot: &[(9, &[0xFF]), (0x19, &[0x00, 0x40, 0x80, 0xC0, 0x3F, 0x7F])],
    },
    Spec {
        kind: 1,
        lens: &[0x08, 0x19, 0x1B],
        refs: &[4, 5, 6, 7, 0x19, 0x1A],
        hot: &[],
    },
    Spec {
        kind: 2,
        lens: &[0x08, 0x09, 0x0A, 0x0B, 0x0D, 0x0E, 0x0F, 0x13],
        refs: &[4, 5, 6, 7, 8, 0x0A],
        hot: &[],
    },
    Spec {
        kind: 3,
        lens: &[0x09, 0x0D, 0x11, 0x13, 0x15, 0x16, 0x19, 0x1C],
        refs: &[4, 6, 7, 8],
        hot: &[],
    },
    Spec {
        kind: 4,
        lens: &[0x1A, 0x20, 0x23, 0x28, 0x2A, 0x30, 0x32],
        refs: &[4, 7, 0x10, 0x20, 0x21, 0x22],
        hot: &[
            (6, &[0xFE]),
            (0x23, &[0xFF]),
            (0x24, &[0xFF]),
            (0x25, &[0xFF]),
        ],
    },
    Spec {
        kind: 7,
        lens: &[0x0F, 0x13, 0x1B],
        refs: &[4],
        hot: &[
            (8, &[0x80, 0xFF]),
            (0x0A, &[0x80, 0xFF]),
            (0x16, &[0x80, 0xFF]),
            (0x1A, &[0x80, 0xFF]),
        ],
    },
    Spec {
        kind: 8,
        lens: &[0x09],
        refs: &[4, 6],
        hot: &[],
    },
    Spec {
        kind: 9,
        lens: &[0x0C, 0x0D, 0x11, 0x12, 0x13, 0x14, 0x18],
        refs: &[4],
        hot: &[
            (0x0D, &[0xFF]),
            (0x0E, &[0xFF]),
            (0x0F, &[0xFF]),
            (0x10, &[0xFF]),
        ],
    },
    Spec {
        kind: 11,
        lens: &[0x05],
        refs: &[],
        hot: &[],
    },
    Spec {
        kind: 12,
        lens: &[0x05],
        refs: &[],
        hot: &[],
    },
    Spec {
        kind: 13,
        lens: &[0x15, 0x16],
        refs: &[],
        hot: &[],
    },
    Spec {
        kind: 14,
        lens: &[0x05, 0x08, 0x0B, 0x0E, 0x11],
        refs: &[4],
        hot: &[],
    },
    Spec {
        kind: 15,
        lens: &[0x14, 0x17, 0x19, 0x1D],
        refs: &[],
        hot: &[(0x0A, &[0, 1, 2, 3, 4, 5, 0x80])],
    },
    Spec {
        kind: 16,
        lens: &[0x0F, 0x17],
        refs: &[],
        hot: &[
            (7, &[0]),
            (8, &[0]),
            (9, &[0]),
            (0x0A, &[0x80]),
            (0x0B, &[0xFE]),
            (0x0C, &[0xFF]),
        ],
    },
    Spec {
        kind: 17,
        lens: &[0x15, 0x17, 0x1B, 0x1C, 0x20, 0x22, 0x28, 0x54, 0x5C, 0x64],
        refs: &[0x10, 0x11, 0x17, 0x18, 0x19, 0x1A, 0x2B],
        hot: &[
            (6, &[0xFE, 0xFF]),
            (7, &[0xFF]),
            (8, &[0xFF]),
            (9, &[0xFF]),
            (0x0A, &[0xFF]),
            (0x0B, &[0xFF]),
            (0x0C, &[0xFF]),
            (0x0D, &[0xFF, 0x7F]),
        ],
    },
    Spec {
        kind: 18,
        lens: &[0x17],
        refs: &[],
        hot: &[],
    },
    Spec {
        kind: 19,
        lens: &[0x0F, 0x1F],
        refs: &[],
        hot: &[],
    },
    Spec {
        kind: 20,
        lens: &[0x13, 0x23],
        refs: &[],
        hot: &[],
    },
    Spec {
        kind: 21,
        lens: &[0x07],
        refs: &[],
        hot: &[],
    },
    Spec {
        kind: 22,
        lens: &[0x10, 0x1A],
        refs: &[4, 5, 6, 7, 8, 0x0E, 0x14],
        hot: &[(9, &[2])],
    },
];

pub const DECODED: &[u8] = &[
    0, 1, 2, 3, 4, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22,
];

pub fn spec(kind: u8) -> Option<&'static Spec> {
    SPECS.iter().find(|s| s.kind == kind)
}

/// Lengths the given version allows for the kinds with exact lengths.
pub fn exact_len(kind: u8, ver: Ver) -> Option<usize> {
    Some(match kind {
        9 if ver < (2, 1) => 0x0C,
        9 if ver < (2, 6) => 0x0D,
        9 if ver < (3, 2) => 0x11,
        15 if ver < (2, 1) => 0x14,
        18 if ver >= (2, 1) => 0x17,
        19 if ver >= (2, 7) => 0x1F,
        19 if ver >= (2, 1) => 0x0F,
        20 if ver >= (2, 7) => 0x23,
        20 if ver >= (2, 1) => 0x13,
        21 if ver >= (2, 1) => 0x07,
        22 if ver >= (2, 2) => 0x1A,
        22 if ver >= (2, 1) => 0x10,
        _ => return None,
    })
}

/// Versions 2.0 and up, around every one that matters.
pub const VERSIONS: &[Ver] = &[
    (2, 0),
    (2, 1),
    (2, 2),
    (2, 3),
    (2, 4),
    (2, 5),
    (2, 6),
    (2, 7),
    (2, 8),
    (3, 0),
    (3, 1),
    (3, 2),
    (3, 3),
    (3, 4),
    (3, 5),
    (3, 6),
    (3, 7),
];

pub fn version() -> BoxedStrategy<Ver> {
    prop_oneof![
        14 => prop::sample::select(VERSIONS),
        1 => (2u8..=255, any::<u8>()),
        1 => (2u8..=4, 0u8..=16),
    ]
    .boxed()
}

/// A byte that is often 0, all ones, small or just around a sign bit.
pub fn byte() -> impl Strategy<Value = u8> + Clone {
    any::<u16>().prop_map(|v| {
        let b = v as u8;
        match v >> 8 {
            0..=15 => 0,
            16..=47 => b & 7,
            48..=71 => 0xFF,
            72..=79 => [0x7F, 0x80, 0xFE, 0x40][b as usize & 3],
            80..=95 => b & 0x1F,
            _ => b,
        }
    })
}

/// A number of so many bits, at an edge or written down somewhere.
fn number(bits: u32, k: u32) -> u64 {
    let mask = u64::MAX >> (64 - bits);
    let v = k as u64 >> 3;
    let near = [0, 0, 0, 1, u64::MAX][(v >> 24) as usize % 5];
    match k & 7 {
        0 => mask,
        1 => 0,
        2 => 1 << (v % bits as u64),
        3 => mask >> (v % bits as u64),
        4 => mask ^ (1 << (v % bits as u64)),
        _ => crate::guided::some_number(v).wrapping_add(near) & mask,
    }
}

const WORDS: &[&str] = &[
    "a",
    "AB",
    "Dell Inc.",
    "To Be Filled By O.E.M.",
    "0",
    " ",
    "x y",
    "Intel\u{ae} Xeon\u{2122}",
    "\u{1f600}",
    "\u{7f}",
    "\t",
    "DIMM_A1",
    "\u{80}",
    "\u{7ff}\u{800}",
    "en|US|iso8859-1",
    "1.2.3",
];

pub fn string() -> BoxedStrategy<String> {
    prop_oneof![
        6 => vec(33u8..=126, 1..12).prop_map(|b| String::from_utf8(b).unwrap()),
        3 => prop::sample::select(WORDS).prop_map(String::from),
        2 => any::<u32>().prop_map(|k| crate::guided::some_text(k as u64).to_string()),
        1 => vec(prop_oneof![Just('\u{1}'), any::<char>(), Just('\u{ff}')], 1..20)
            .prop_map(|c| c.into_iter().map(|c| if c == '\0' { '?' } else { c }).collect()),
        1 => (length(), 33u8..=126, any::<bool>()).prop_map(|(n, c, space)| {
            let mut s = (c as char).to_string().repeat(n);
            if space {
                s.insert(n / 2, ' ');
                s.push(' ');
            }
            s
        }),
        1 => vec(prop_oneof![2 => Just(' '), 5 => prop::char::range('!', '~')], 1..10).prop_map(|c| c.into_iter().collect()),
    ]
    .boxed()
}
/// mostly short, around the sizes at which a counter ends, rarely very long
fn length() -> impl Strategy<Value = usize> + Clone {
    any::<(u16, u16)>().prop_map(|(k, v)| {
        let v = v as usize;
        match k {
            0..=39 => 65520 + v % 40,
            40..=1999 => 400 + v % 2600,
            2000..=9999 => [62, 126, 253, 509, 1022][v % 5] + v / 5 % 6,
            _ => 1 + v % 400,
        }
    })
}

pub fn strings() -> BoxedStrategy<Vec<String>> {
    prop_oneof![
        1 => Just(vec![]),
        12 => vec(string(), 0..=8),
        1 => vec(string(), 9..=20),
        1 => (250usize..=260, 33u8..=126).prop_map(|(n, c)| {
            (0..n).map(|i| format!("{}{i}", c as char)).collect()
        }),
    ]
    .boxed()
}
/// the same, never more than 20: where a table has many structures
pub fn few_strings() -> BoxedStrategy<Vec<String>> {
    prop_oneof![1 => Just(vec![]), 6 => vec(string(), 0..=5)].boxed()
}

/// How far a generated structure follows its layout.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    /// length and references as the version requires: never an error
    Clean,
    /// mostly so
    Mixed,
}

#[derive(Clone, Debug)]
struct Seed {
    handle: u16,
    len_mode: u16,
    len: u8,
    bytes: Vec<u8>,
    refs: Vec<u16>,
    hot: Vec<u16>,
    /// numbers of two to eight bytes: where, and which
    words: Vec<(u8, u32)>,
    k: (u16, u8, u8),
}

/// any handle, often one at an edge
pub fn handle() -> impl Strategy<Value = u16> + Clone {
    const EDGES: [u16; 12] = [
        0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFEFF, 0xFF00, 0xFFFE, 0xFFFF,
    ];
    any::<u32>().prop_map(|v| {
        let h = v as u16;
        match v >> 24 {
            0..=63 => EDGES[h as usize % 12],
            64..=95 => h & 0xFF,
            _ => h,
        }
    })
}

fn seed() -> impl Strategy<Value = Seed> {
    (
        handle(),
        any::<u16>(),
        any::<u8>(),
        vec(byte(), 0..=110),
        vec(any::<u16>(), 8),
        vec(any::<u16>(), 8),
        vec(any::<(u8, u32)>(), 0..=3),
        (any::<u16>(), any::<u8>(), any::<u8>()),
    )
        .prop_map(|(handle, len_mode, len, bytes, refs, hot, words, k)| Seed {
            handle,
            len_mode,
            len,
            bytes,
            refs,
            hot,
            words,
            k,
        })
}

fn build(kind: u8, ver: Ver, s: Seed, strings: Vec<String>, style: Style) -> Raw {
    let mut want = s.len as usize % 252 + 4;
    let clean = style == Style::Clean;
    if let Some(sp) = spec(kind) {
        let pick = |i: usize| sp.lens[i % sp.lens.len()];
        let exact = exact_len(kind, ver);
        want = match s.len_mode % 16 {
            // bytes past the last layout are allowed, where lengths are minima
            0 if clean && exact.is_none() => pick(s.len as usize) + s.len as usize % 80,
            // lists as long as can be
            1 | 2 if matches!(kind, 3 | 9 | 14 | 15) && exact.is_none() => want,
            _ if clean => exact.unwrap_or_else(|| pick(s.len as usize)),
            0 => want,
            1 => want % 0x40 + 4,
            2 => pick(s.len as usize) + 1,
            3 => pick(s.len as usize) - 1,
            4 => pick(s.len as usize) + s.len as usize % 80,
            5 | 6 => pick(s.len as usize),
            _ => exact.unwrap_or_else(|| pick(s.len as usize)),
        }
        .clamp(4, 255);
        if clean {
            want = want.max(min_len(kind, ver));
        }
    }
    let mut data: Vec<u8> = (4..want)
        .map(|i| match s.bytes.get(i - 4) {
            Some(b) => *b,
            None if s.bytes.is_empty() => 0,
            None => s.bytes[i % s.bytes.len()]
                .wrapping_mul(3)
                .wrapping_add(i as u8),
        })
        .collect();
    for (at, k) in &s.words {
        let w = [2, 4, 8, 2][*k as usize & 3];
        let at = *at as usize % data.len().max(1);
        if at + w <= data.len() {
            let v = number(8 * w as u32, *k >> 2);
            data[at..at + w].copy_from_slice(&v.to_le_bytes()[..w]);
        }
    }
    let mut strings = strings;
    fn set(data: &mut [u8], off: usize, v: u8) {
        if let Some(b) = data.get_mut(off - 4) {
            *b = v;
        }
    }
    if let Some(sp) = spec(kind) {
        for (i, (off, vals)) in sp.hot.iter().enumerate() {
            let h = s.hot[i % 8] >> (i / 8);
            if h & 1 == 1 {
                set(&mut data, *off, vals[(h >> 4) as usize % vals.len()]);
            }
        }
        let n = strings.len().min(255);
        let reference = |v: u16| -> u8 {
            let valid = ((v >> 5) as usize % (n + 1)) as u8;
            match v % 32 {
                _ if clean => valid,
                30 => (n + 1).min(255) as u8,
                31 => (v >> 8) as u8,
                _ => valid,
            }
        };
        for (i, off) in sp.refs.iter().enumerate() {
            set(&mut data, *off, reference(s.refs[i]));
        }
        let (mode, a, b) = s.k;
        let free = |from: usize| want.saturating_sub(from);
        match kind {
            3 if clean || mode % 8 != 0 => {
                // contained elements that fit, and a string behind them
                let room = free(0x15);
                let size = match b % 16 {
                    0..=5 => 3,
                    // one large record, or anything
                    14 => room / (1 + (b >> 4) as usize % 3),
                    15 => (b as usize * 7) % 256,
                    k => [0, 1, 2, 4, 5, 6, 7, 8][k as usize - 6],
                };
                let max = if size == 0 { 8 } else { room / size };
                let count = if mode % 16 == 1 && !clean {
                    max + 1
                } else {
                    a as usize % (max + 1)
                };
                set(&mut data, 0x13, count.min(255) as u8);
                set(&mut data, 0x14, size as u8);
                set(
                    &mut data,
                    (0x15 + count * size).min(255),
                    reference(s.refs[7]),
                );
            }
            9 if clean || mode % 8 != 0 => {
                let max = free(0x13) / 5;
                let count = if mode % 16 == 1 && !clean {
                    max + 1
                } else {
                    a as usize % (max + 1)
                };
                set(&mut data, 0x12, count as u8);
            }
            12 if clean || mode % 8 != 0 => {
                strings.truncate(255);
                let n = strings.len() as u8;
                set(&mut data, 4, n);
            }
            15 if want > 0x16 && (clean || mode % 8 != 0) && exact_len(15, ver).is_none() => {
                // descriptors that fill the section exactly
                let room = free(0x17);
                let size = match b % 8 {
                    0 => 1,
                    1 => 3,
                    2 => 4,
                    3 if room == 0 => 0,
                    // one or two large ones
                    4 => (room / (1 + (b >> 3) as usize % 2)).max(1),
                    5 => 1 + (b >> 3) as usize,
                    _ => 2,
                };
                let count = if size == 0 {
                    a as usize % 16
                } else {
                    room / size
                };
                set(&mut data, 0x15, count as u8);
                set(&mut data, 0x16, size as u8);
                data.truncate(0x17 + count * size - 4);
            }
            16 if mode % 4 == 0 => {
                for (off, v) in [(7, 0), (8, 0), (9, 0), (0x0A, 0x80)] {
                    set(&mut data, off, v);
                }
            }
            _ => {}
        }
    }
    Raw {
        kind,
        handle: s.handle,
        data,
        strings,
    }
}

/// The least length at which a structure of this kind is never an error.
pub fn min_len(kind: u8, ver: Ver) -> usize {
    match kind {
        0 => 0x12,
        1 | 2 => 0x08,
        3 => 0x09,
        4 => 0x1A,
        7 => 0x0F,
        8 => 0x09,
        9 => exact_len(9, ver).unwrap_or(0x11),
        12 | 14 => 0x05,
        13 => {
            if ver >= (2, 1) {
                0x16
            } else {
                0x15
            }
        }
        15 => exact_len(15, ver).unwrap_or(0x17),
        16 => {
            if ver >= (2, 7) {
                0x17
            } else {
                0x0F
            }
        }
        17 => 0x15,
        18 => 0x17,
        19 => exact_len(19, ver).unwrap_or(0x0F),
        20 => exact_len(20, ver).unwrap_or(0x13),
        21 => 0x07,
        22 => exact_len(22, ver).unwrap_or(0x10),
        _ => 4,
    }
}

/// One structure of one of the kinds, for a given version.
pub fn structure_of(kinds: &'static [u8], style: Style) -> BoxedStrategy<(Ver, Raw)> {
    (version(), prop::sample::select(kinds), seed(), strings())
        .prop_map(move |(ver, kind, s, strings)| (ver, build(kind, ver, s, strings, style)))
        .boxed()
}

pub fn any_kind() -> BoxedStrategy<u8> {
    prop_oneof![8 => prop::sample::select(DECODED), 2 => any::<u8>(), 1 => 125u8..=130, 1 => Just(127)].boxed()
}

/// A sequence of structures for one version.
pub fn structures(
    count: std::ops::RangeInclusive<usize>,
    kind: BoxedStrategy<u8>,
    style: Style,
) -> BoxedStrategy<(Ver, Vec<Raw>)> {
    (version(), vec((kind, seed(), few_strings()), count))
        .prop_map(move |(ver, v)| {
            let rs = v
                .into_iter()
                .map(|(kind, s, strings)| build(kind, ver, s, strings, style))
                .collect();
            (ver, rs)
        })
        .boxed()
}

/// The longest layout of a kind under a version.
pub fn full_len(kind: u8, ver: Ver) -> usize {
    exact_len(kind, ver).unwrap_or_else(|| match kind {
        3 => 0x1C,
        9 => 0x1D,
        15 => 0x1D,
        _ => spec(kind).map_or(0x10, |s| *s.lens.last().unwrap()),
    })
}

/// A regular structure, for sweeps: distinct bytes (fill 0), zeros (1) or ones (2)
/// with every reference and count in order.
pub fn base(kind: u8, ver: Ver, fill: u8, len: usize) -> Raw {
    let mut data: Vec<u8> = (4..len.max(4))
        .map(|i| match fill {
            0 => (i * 37 % 251) as u8,
            1 => 0,
            _ => 0xFF,
        })
        .collect();
    let strings: Vec<String> = (1..=9)
        .map(|i| format!("str{}", "abcdefghijk".repeat(i % 3) + &i.to_string()))
        .collect();
    let mut set = |off: usize, v: usize| {
        if let Some(b) = data.get_mut(off - 4) {
            *b = v as u8;
        }
    };
    if let Some(sp) = spec(kind) {
        if fill != 1 {
            for (i, off) in sp.refs.iter().enumerate() {
                set(*off, i % 9 + 1);
            }
        }
    }
    match kind {
        3 => {
            let room = len.saturating_sub(0x16) / 3;
            set(0x13, room.min(2));
            set(0x14, 3);
            set(0x15 + 3 * room.min(2), 7);
        }
        9 => set(0x12, (len.saturating_sub(0x18) / 5).min(1)),
        12 => set(4, strings.len()),
        15 if ver >= (2, 1) => {
            set(0x15, len.saturating_sub(0x17) / 2);
            set(0x16, 2);
        }
        _ => {}
    }
    Raw {
        kind,
        handle: 0x1234 ^ (kind as u16) << 3,
        data,
        strings,
    }
}

/// A sweep over one kind and version: every value of every byte, and telling
/// patterns over two, four and eight neighbouring bytes, in three surroundings.
pub struct Sweep {
    pub kinds: &'static [u8],
}
const PATTERNS: [(u8, u8); 6] = [
    (0x00, 0x80),
    (0xFF, 0x7F),
    (0x00, 0x00),
    (0xFF, 0xFF),
    (0x01, 0x00),
    (0x00, 0x01),
];

impl Sweep {
    fn per(&self, kind: u8, ver: Ver) -> u64 {
        let n = full_len(kind, ver).max(min_len(kind, ver)) as u64 - 4;
        n * (256 + 3 * 3 * (PATTERNS.len() as u64 + 1))
    }
    pub fn size(&self) -> u64 {
        self.kinds
            .iter()
            .flat_map(|k| VERSIONS.iter().map(move |v| self.per(*k, *v)))
            .sum()
    }
    pub fn at(&self, mut i: u64) -> (Ver, Raw) {
        for k in self.kinds {
            for v in VERSIONS {
                let n = self.per(*k, *v);
                if i < n {
                    return self.case(*k, *v, i);
                }
                i -= n;
            }
        }
        unreachable!()
    }
    fn case(&self, kind: u8, ver: Ver, i: u64) -> (Ver, Raw) {
        let len = full_len(kind, ver).max(min_len(kind, ver));
        let n = (len - 4) as u64;
        let (off, j) = ((i % n) as usize, i / n);
        if j < 256 {
            let mut r = base(kind, ver, 0, len);
            r.data[off] = j as u8;
            return (ver, r);
        }
        let j = j - 256;
        let (fill, j) = ((j % 3) as u8, j / 3);
        let (width, j) = ([2, 4, 8][(j % 3) as usize], (j / 3) as usize);
        let mut r = base(kind, ver, fill, len);
        let end = (off + width).min(r.data.len());
        // the last one: all ones but the lowest bit
        let (low, top) = PATTERNS.get(j).copied().unwrap_or((0xFF, 0xFF));
        let w = &mut r.data[off..end];
        w.fill(low);
        *w.last_mut().unwrap() = top;
        match (j, low, top) {
            (6, ..) => w[0] = 0xFE,
            (4, ..) => {
                w.fill(0);
                w[0] = 1;
            }
            _ => {}
        }
        (ver, r)
    }
}
