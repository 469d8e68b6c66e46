//! C03: the entry point search.

use crate::guided::{guided, Mutator, Slot, Slots};
use crate::raw::hexbytes;
use crate::run::{random, Cx, Part};
use dmidecode::{EntryPoint, InvalidEntryPointError};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Image {
    /// fill before the first piece and between pieces
    fill: u8,
    /// bytes at offsets, later ones overwrite
    pieces: Vec<Piece>,
    len: u32,
    /// offset of the buffer in memory
    pub shift: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Piece {
    at: u32,
    #[serde(with = "hexbytes")]
    bytes: Vec<u8>,
}

impl Image {
    /// Change one byte of the first piece, an entry point, keeping its sum.
    /// Makes the first piece a valid entry point that lies inside.
    pub fn mend(&mut self) {
        let Some(p) = self.pieces.first_mut() else {
            return;
        };
        let (size, sum_at, len_at) = if p.bytes.starts_with(b"_SM3_") {
            (24, 5, 6)
        } else {
            (31, 4, 5)
        };
        p.bytes.resize(p.bytes.len().max(size), 0);
        p.bytes[..4].copy_from_slice(if size == 24 { b"_SM3" } else { b"_SM_" });
        p.bytes[len_at] = p.bytes[len_at].clamp(size as u8, p.bytes.len().min(255) as u8);
        p.bytes[len_at + 1] = p.bytes[len_at + 1].max(2);
        let n = p.bytes[len_at] as usize;
        p.bytes[sum_at] = 0;
        p.bytes[sum_at] = 0u8.wrapping_sub(p.bytes[..n].iter().fold(0, |a, b| a.wrapping_add(*b)));
        self.len = self.len.max(p.at + p.bytes.len() as u32);
        self.pieces.truncate(1);
    }
    pub fn nudge(&mut self, i: usize, by: u8) {
        if let Some(p) = self.pieces.first_mut().filter(|p| p.bytes.len() > 10) {
            let i = 8 + i % (p.bytes.len() - 8);
            let sum_at = if p.bytes.starts_with(b"_SM3_") { 5 } else { 4 };
            p.bytes[i] = p.bytes[i].wrapping_add(by);
            p.bytes[sum_at] = p.bytes[sum_at].wrapping_sub(by);
        }
    }
}

impl Slots for Image {
    fn slots<'a>(&'a mut self, out: &mut Vec<Slot<'a>>) {
        out.push(Slot::U8(&mut self.fill));
        out.push(Slot::U8(&mut self.shift));
        out.push(Slot::U32(&mut self.len));
        for p in &mut self.pieces {
            out.push(Slot::U32(&mut p.at));
            out.push(Slot::Bytes(&mut p.bytes, 300));
        }
    }
    fn shape(&mut self, m: &mut Mutator) {
        let n = self.pieces.len();
        match m.below(4) {
            0 if n > 1 => {
                let i = m.below(n);
                self.pieces.remove(i);
            }
            1 if n > 0 && n < 6 => {
                let mut p = self.pieces[m.below(n)].clone();
                p.at = p.at.wrapping_add(16 * (1 + m.below(12) as u32));
                self.pieces.push(p);
            }
            2 if n > 0 => {
                let i = m.below(n);
                self.pieces[i].at = self.pieces[i].at / 16 * 16;
            }
            _ => {
                self.len = self
                    .pieces
                    .iter()
                    .map(|p| p.at % 8192 + p.bytes.len() as u32)
                    .max()
                    .unwrap_or(0)
            }
        }
    }
    fn mend(&mut self, m: &mut Mutator) {
        self.len = self.len.min(9000);
        for p in &mut self.pieces {
            p.at %= 8192;
            // the sum of one that is whole
            let (size, sum_at, len_at) = if p.bytes.starts_with(b"_SM3_") {
                (24, 5, 6)
            } else {
                (31, 4, 5)
            };
            let n = p.bytes.get(len_at).map_or(0, |n| *n as usize);
            if n >= size && n <= p.bytes.len() && m.below(4) != 0 {
                p.bytes[sum_at] = 0;
                p.bytes[sum_at] =
                    0u8.wrapping_sub(p.bytes[..n].iter().fold(0, |a, b| a.wrapping_add(*b)));
            }
        }
    }
    fn fewer(&mut self, i: usize) -> bool {
        if i < self.pieces.len() {
            self.pieces.remove(i);
            return true;
        }
        false
    }
}

pub fn image_bytes(c: &Image) -> Vec<u8> {
    let mut b = vec![c.fill; c.len as usize];
    for p in &c.pieces {
        for (i, x) in p.bytes.iter().enumerate() {
            if let Some(y) = b.get_mut(p.at as usize + i) {
                *y = *x;
            }
        }
    }
    b
}

/// everything an entry point exposes
#[derive(Debug, PartialEq, Clone)]
pub struct Fields {
    v3: bool,
    nums: Vec<u64>,
    accessors: Vec<u64>,
}

#[derive(Debug, PartialEq, Clone)]
pub enum Out {
    Found(Fields),
    NotFound,
    TooOld(u8),
    BadSize(u8),
    BadChecksum(u8),
}

fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}

pub fn reference(b: &[u8]) -> Vec<Out> {
    let mut at = None;
    let mut i = 0;
    while i < b.len() {
        let rest = &b[i..b.len().min(i + 16)];
        if rest.starts_with(b"_SM_") {
            at = Some((i, false));
            break;
        }
        if rest.starts_with(b"_SM3_") {
            at = Some((i, true));
            break;
        }
        i += 16;
    }
    let Some((at, v3)) = at else {
        return vec![Out::NotFound];
    };
    let e = &b[at..];
    let (min, len_at) = if v3 { (0x18, 6) } else { (0x1F, 5) };
    let mut bad = vec![];
    if e.len() < min {
        bad.push(Out::BadSize(e.len() as u8));
        if let Some(l) = e.get(len_at).filter(|l| (**l as usize) < min) {
            bad.push(Out::BadSize(*l));
        }
        return bad;
    }
    let len = e[len_at] as usize;
    let major = e[len_at + 1];
    if len < min {
        bad.push(Out::BadSize(len as u8));
    }
    if major < 2 {
        bad.push(Out::TooOld(major));
    }
    if len > e.len() {
        bad.push(Out::BadSize(e.len() as u8));
    } else if len >= min {
        let sum = e[..len].iter().fold(0u8, |a, x| a.wrapping_add(*x));
        if sum != 0 {
            bad.push(Out::BadChecksum(sum));
        }
    }
    if !bad.is_empty() {
        return bad;
    }
    vec![Out::Found(if v3 {
        Fields {
            v3,
            nums: vec![
                le(&e[0..5]),
                e[5] as u64,
                e[6] as u64,
                e[7] as u64,
                e[8] as u64,
                e[9] as u64,
                e[10] as u64,
                le(&e[12..16]),
                le(&e[16..24]),
            ],
            accessors: vec![
                e[6] as u64,
                e[7] as u64,
                e[8] as u64,
                e[10] as u64,
                le(&e[16..24]),
                le(&e[12..16]),
            ],
        }
    } else {
        Fields {
            v3,
            nums: vec![
                le(&e[0..4]),
                e[4] as u64,
                e[5] as u64,
                e[6] as u64,
                e[7] as u64,
                le(&e[8..10]),
                e[10] as u64,
                le(&e[11..16]),
                le(&e[16..21]),
                e[21] as u64,
                le(&e[22..24]),
                le(&e[24..28]),
                le(&e[28..30]),
                e[30] as u64,
            ],
            accessors: vec![
                e[5] as u64,
                e[6] as u64,
                e[7] as u64,
                e[10] as u64,
                le(&e[24..28]),
                le(&e[22..24]),
            ],
        }
    })]
}

pub fn observe(r: &Result<EntryPoint, InvalidEntryPointError>) -> Result<Out, String> {
    let text = |want: String, e: &InvalidEntryPointError| {
        let got = format!("{e}");
        if got == want {
            Ok(())
        } else {
            Err(format!("error text {got:?}, but states {want:?}"))
        }
    };
    Ok(match r {
        Err(e @ InvalidEntryPointError::NotFound) => {
            text("Input did not contain a valid SMBIOS entry point".into(), e)?;
            Out::NotFound
        }
        Err(e @ InvalidEntryPointError::TooOldVersion(v)) => {
            text(format!("Input version number was below 2.0: {v}"), e)?;
            Out::TooOld(*v)
        }
        Err(e @ InvalidEntryPointError::BadSize(v)) => {
            text(
                format!("Input contained an invalid-sized SMBIOS entry: {v}"),
                e,
            )?;
            Out::BadSize(*v)
        }
        Err(e @ InvalidEntryPointError::BadChecksum(v)) => {
            text(
                format!("SMBIOS entry point has an invalid checksum: {v}"),
                e,
            )?;
            Out::BadChecksum(*v)
        }
        Ok(ep) => {
            let v = ep.to_version();
            if (v.major, v.minor) != (ep.major(), ep.minor()) {
                return Err(format!("version {v:?}, but {}.{}", ep.major(), ep.minor()));
            }
            let accessors = vec![
                ep.len() as u64,
                ep.major() as u64,
                ep.minor() as u64,
                ep.revision() as u64,
                ep.smbios_address(),
                ep.smbios_len() as u64,
            ];
            let (v3, nums) = match *ep {
                EntryPoint::V2(e) => (
                    false,
                    vec![
                        e.signature as u64,
                        e.checksum as u64,
                        e.len as u64,
                        e.major as u64,
                        e.minor as u64,
                        e.struct_max as u64,
                        e.revision as u64,
                        le(&{ e.formatted }),
                        le(&{ e.dmi_signature }),
                        e.dmi_checksum as u64,
                        e.smbios_len as u64,
                        e.smbios_address as u64,
                        e.smbios_count as u64,
                        e.bcd_revision as u64,
                    ],
                ),
                EntryPoint::V3(e) => (
                    true,
                    vec![
                        le(&{ e.signature }),
                        e.checksum as u64,
                        e.len as u64,
                        e.major as u64,
                        e.minor as u64,
                        e.docrev as u64,
                        e.revision as u64,
                        e.smbios_len_max as u64,
                        e.smbios_address,
                    ],
                ),
            };
            Out::Found(Fields {
                v3,
                nums,
                accessors,
            })
        }
    })
}

fn search(c: &Image, cx: &mut Cx) -> Result<(), String> {
    let body = image_bytes(c);
    let mut mem = vec![0x33; c.shift as usize & 15];
    let shift = mem.len();
    mem.extend_from_slice(&body);
    let got = observe(&EntryPoint::search(&mem[shift..]))?;
    let want = reference(&body);
    match &want[0] {
        Out::NotFound => cx.label("none"),
        Out::Found(f) => {
            cx.nontrivial();
            cx.label(if f.v3 { "64-bit" } else { "32-bit" })
        }
        _ => {
            cx.nontrivial();
            cx.label("defective")
        }
    }
    if want.contains(&got) {
        Ok(())
    } else {
        Err(format!("search gives {got:?}, expected one of {want:?}"))
    }
}

/// An entry point, mostly valid.
fn entry_point() -> BoxedStrategy<Vec<u8>> {
    (
        any::<bool>(),
        vec(any::<u8>(), 31),
        any::<[u8; 8]>(),
        vec(any::<u8>(), 0..=40),
    )
        .prop_map(|(v3, fields, k, extra)| {
            let (sig, min, len_at, sum_at): (&[u8], usize, usize, usize) = if v3 {
                (b"_SM3_", 0x18, 6, 5)
            } else {
                (b"_SM_", 0x1F, 5, 4)
            };
            let mut b = fields;
            b.truncate(min);
            b[..sig.len()].copy_from_slice(sig);
            b[len_at + 1] = match k[0] {
                0..=99 => 2,
                100..=199 => 3,
                200..=214 => k[1] % 2,
                v => v,
            };
            // bytes past the fields, counted in the length and the checksum
            let len = match k[2] {
                0..=159 => min,
                160..=219 => min + extra.len(),
                220..=235 => k[3] as usize % (min + 1),
                236..=245 => min - 1,
                _ => k[3] as usize,
            };
            b[len_at] = len as u8;
            b.extend(extra);
            let n = (len as u8 as usize).min(b.len());
            if sum_at < n {
                crate::raw::fix_checksum(&mut b, sum_at, n);
            }
            match k[4] {
                0..=29 => b[sum_at] = b[sum_at].wrapping_add(k[5].max(1)),
                30..=44 => {
                    let at = 4 + k[6] as usize % (b.len() - 4);
                    b[at] ^= k[5].max(1)
                }
                _ => {}
            }
            b
        })
        .boxed()
}

fn piece() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        4 => entry_point(),
        1 => Just(b"_SM_".to_vec()),
        1 => Just(b"_SM3_".to_vec()),
        1 => prop::sample::select(&["_SM3", "_SM", "_DMI_", "_SM2_", "_sm_", "SM_", "__SM_", "_SM3__SM_"][..])
            .prop_map(|b| b.as_bytes().to_vec()),
        1 => vec(any::<u8>(), 1..40),
    ]
    .boxed()
}

pub fn image() -> BoxedStrategy<Image> {
    (
        prop::sample::select(&[0u8, 0xFF, b'_', 0xA5][..]),
        vec((any::<u16>(), 0u8..=20, any::<u8>(), piece()), 0..=5),
        (any::<u8>(), any::<u16>()),
        any::<u8>(),
    )
        .prop_map(|(fill, v, (mode, cut), shift)| {
            let far = mode % 16 == 0;
            let mut at = 0u32;
            let mut end = 0u32;
            let mut pieces = vec![];
            for (skip, kind, mis, bytes) in v {
                at += match (far, skip % 4) {
                    (true, 0) => skip as u32 * 2,
                    (_, 1) => 0,
                    _ => skip as u32 % 200,
                };
                // mostly on a paragraph
                at = if kind < 15 {
                    at.next_multiple_of(16)
                } else {
                    at + mis as u32 % 16
                };
                end = at + bytes.len() as u32;
                pieces.push(Piece { at, bytes });
                at = end;
            }
            let len = match mode / 16 {
                // cut in the last piece, or somewhere behind it
                0..=3 => end.saturating_sub(cut as u32 % 48),
                4..=7 => end,
                _ => end + cut as u32 % 300,
            };
            Image {
                fill,
                pieces,
                len,
                shift,
            }
        })
        .boxed()
}

/// Flip any bytes of one valid entry point on a paragraph.
pub fn single() -> BoxedStrategy<Image> {
    (
        entry_point(),
        vec((0usize..31, any::<u8>()), 0..=2),
        0u32..4,
        0u32..70,
        any::<u8>(),
    )
        .prop_map(|(mut bytes, flips, para, tail, shift)| {
            for (i, x) in flips {
                if let Some(b) = bytes.get_mut(i) {
                    *b = x;
                }
            }
            let len = para * 16 + bytes.len() as u32 + tail;
            let len = if tail < 20 { len - tail * 2 } else { len };
            Image {
                fill: 0,
                pieces: vec![Piece {
                    at: para * 16,
                    bytes,
                }],
                len,
                shift,
            }
        })
        .boxed()
}

/// Megabytes of nothing before it.
fn far() -> BoxedStrategy<Image> {
    let at = prop_oneof![
        2 => 0u32..(1 << 22),
        // around the powers of two, in paragraphs
        3 => (8u32..22, -2i32..3).prop_map(|(b, d)| ((1i32 << b) + d) as u32),
    ];
    (at, image(), any::<bool>())
        .prop_map(|(paras, mut i, drop_first)| {
            if drop_first && i.pieces.len() > 1 {
                i.pieces.remove(0);
            }
            for p in &mut i.pieces {
                p.at += paras * 16;
            }
            i.len += paras * 16;
            i
        })
        .boxed()
}

fn near() -> BoxedStrategy<Image> {
    prop_oneof![image(), single()]
        .prop_map(|mut i| {
            i.len = i.len.min(9000);
            i.pieces.iter_mut().for_each(|p| p.at %= 8192);
            i
        })
        .boxed()
}

pub fn c03() -> Vec<Part> {
    vec![
        random(
            "images",
            "memory images with up to five pieces - entry points of both kinds, valid or with a wrong length, version or \
             checksum, anchors, look-alikes, noise - on or off 16-byte paragraphs, from 0 to some 600 KB in, cut anywhere; \
             non-trivial: an anchor lies on a paragraph; oracle: reference search",
            (200_000, 4_000_000),
            image,
            search,
        ),
        random(
            "single",
            "one entry point on a paragraph with up to two bytes changed, followed by 0-70 bytes or cut; non-trivial and \
             oracle: as before",
            (400_000, 12_000_000),
            single,
            search,
        ),
        random(
            "far",
            "the same images behind up to 64 MiB, many around powers of two; non-trivial and oracle: as before",
            (400, 10_000),
            far,
            search,
        ),
        guided(
            "guided",
            "images as in images and single, of at most 9000 bytes after a change, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for images",
            (3_000_000, 40_000_000),
            near,
            search,
        ),
        super::giant::search(),
    ]
}
