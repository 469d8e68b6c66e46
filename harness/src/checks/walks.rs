//! C04 framing, C05 independence of neighbours, C06 errors.

use super::{one, One, Table};
use crate::gen::{self, any_kind, structure_of, structures, Style};
use crate::guided::{guided, reshape, without, Mutator, Slot, Slots};
use crate::model::{err_text, info, model, Expect};
use crate::obs::{ErrObs, Item};
use crate::raw::{decode_frame, decode_one, encode_all, entry, walk, Raw, Ver};
use crate::run::{exhaustive, random, Cx, Part};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

/// What lies at an offset of a table.
#[derive(Clone, Debug, PartialEq)]
pub enum Frame {
    /// from, end
    Whole(usize, usize),
    /// its terminator lies past the declared table, but within the buffer:
    /// an error or the structure
    Straddles(usize, usize),
    BadSize(usize, u8),
    Unterminated(usize),
}

pub fn frames(major: u8, declared: u32, buf: &[u8]) -> Vec<Frame> {
    frames_in(major, declared, buf, |from| from)
}
/// the same, where it is known that no terminator lies before `skip` of an offset
pub fn frames_in(
    major: u8,
    declared: u32,
    buf: &[u8],
    skip: impl Fn(usize) -> usize,
) -> Vec<Frame> {
    let limit = (declared as usize).min(buf.len());
    let mut v = vec![];
    let mut at = 0;
    while at + 4 <= limit {
        let len = buf[at + 1] as usize;
        if len < 4 || at + len >= limit {
            v.push(Frame::BadSize(at, len as u8));
            break;
        }
        let strings = at + len;
        let from = skip(strings);
        let Some(i) = buf[from..].windows(2).position(|w| w == [0, 0]) else {
            v.push(Frame::Unterminated(at));
            break;
        };
        let end = from + i + 2;
        if end > limit {
            v.push(Frame::Straddles(at, end));
            break;
        }
        v.push(Frame::Whole(at, end));
        if major >= 3 && buf[at] == 127 {
            break;
        }
        at = end;
    }
    v
}

/// One item against one frame; only framing is judged.
fn framed(ver: Ver, buf: &[u8], f: &Frame, got: &Item) -> Result<(), String> {
    let whole = |from: usize, end: usize| -> Result<(), String> {
        let b = &buf[from..end];
        match got {
            Item::Err(ErrObs::BadSize(..) | ErrObs::Unterminated(_), t) => {
                return Err(format!("a whole structure at {from} gives {t:?}"))
            }
            Item::Ok(o) if o.kind == "Other" => {
                let handle = u16::from_le_bytes([b[2], b[3]]);
                let want = [
                    ("info", info(b[0])),
                    ("length", b[1].to_string()),
                    ("handle", handle.to_string()),
                    ("data", crate::obs::hex(&b[4..b[1] as usize])),
                    ("version", format!("{}.{}", ver.0, ver.1)),
                ];
                for (k, w) in want {
                    if o.get(k) != Some(&w) {
                        return Err(format!(
                            "structure at {from}: {k} is {:?}, not {w}",
                            o.get(k)
                        ));
                    }
                }
            }
            _ => {}
        }
        // and it is what its own bytes give
        let alone = decode_frame(ver, b)?;
        match got.diff(&alone) {
            None => Ok(()),
            Some(d) => Err(format!("structure at {from}: in the table vs alone: {d}")),
        }
    };
    match (f, got) {
        (Frame::Whole(a, b), _) => whole(*a, *b),
        (Frame::Straddles(a, _), Item::Err(ErrObs::Unterminated(o), _)) if *o as usize == *a => {
            Ok(())
        }
        (Frame::Straddles(a, b), _) => whole(*a, *b),
        (Frame::BadSize(a, l), Item::Err(ErrObs::BadSize(x, y), _))
            if (*x as usize, *y) == (*a, *l) =>
        {
            Ok(())
        }
        (Frame::Unterminated(a), Item::Err(ErrObs::Unterminated(x), _)) if *x as usize == *a => {
            Ok(())
        }
        (f, g) => Err(format!("expected {f:?}, got {}", g.brief())),
    }
}

pub fn framing(c: &Table, cx: &mut Cx) -> Result<(), String> {
    let ep = entry(c.ver, c.declared, c.v3)?;
    let got = walk(&ep, &c.buf)?;
    let want = frames(c.ver.0, c.declared, &c.buf);
    if want.len() >= 2 {
        cx.nontrivial();
    }
    match want.last() {
        Some(Frame::BadSize(..)) => cx.label("ends with a bad size"),
        Some(Frame::Unterminated(..)) => cx.label("ends unterminated"),
        Some(Frame::Straddles(..)) => cx.label("ends across the declared length"),
        Some(Frame::Whole(a, _)) if c.buf[*a] == 127 && c.ver.0 >= 3 => {
            cx.label("ends at the end marker")
        }
        Some(Frame::Whole(..)) => cx.label("ends at the end"),
        None => cx.label("empty"),
    }
    if c.buf.len() > 0x10000 {
        cx.label("over 64 KiB");
    }
    for (f, g) in want.iter().zip(&got) {
        framed(c.ver, &c.buf, f, g)?;
    }
    if want.len() != got.len() {
        return Err(format!(
            "{} items, expected {}; the first too many or too few: {:?} / {:?}",
            got.len(),
            want.len(),
            got.get(want.len()).map(|g| g.brief()),
            want.get(got.len())
        ));
    }
    if want.len() <= 24 {
        let start = ep.structures(&c.buf);
        let items: Vec<_> = start.clone().collect();
        crate::obs::ways(&start, &items, |a, b| match (a, b) {
            (Ok(a), Ok(b)) => a == b,
            (Err(a), Err(b)) => format!("{a:?}") == format!("{b:?}"),
            _ => false,
        })?;
    }
    Ok(())
}

/// Ways to damage or cut a table.
#[derive(Clone, Debug)]
struct Damage {
    declare: (u8, u16),
    flips: Vec<(u16, u8)>,
    header: Option<(u16, u8)>,
    tail: (u8, Vec<u8>),
    v3: bool,
}
fn damage(calm: u32) -> impl Strategy<Value = Damage> {
    (
        (any::<u8>(), any::<u16>()),
        prop_oneof![calm => Just(vec![]), 1 => vec((any::<u16>(), gen::byte()), 1..4)],
        prop_oneof![calm => Just(None), 1 => (any::<u16>(), gen::byte()).prop_map(Some)],
        (any::<u8>(), vec(gen::byte(), 0..20)),
        any::<bool>(),
    )
        .prop_map(|(declare, flips, header, tail, v3)| Damage {
            declare,
            flips,
            header,
            tail,
            v3,
        })
}

fn damaged(ver: Ver, rs: &[Raw], d: Damage) -> Table {
    let mut buf = vec![];
    let mut starts = vec![];
    for r in rs {
        starts.push(buf.len());
        r.encode_into(&mut buf);
    }
    let whole = buf.len();
    if let (Some((i, l)), false) = (d.header, starts.is_empty()) {
        // the length byte of one structure
        let s = starts[i as usize % starts.len()];
        buf[s + 1] = l;
    }
    for (i, x) in d.flips {
        let n = buf.len().max(1);
        if let Some(b) = buf.get_mut(i as usize % n) {
            *b = x;
        }
    }
    match d.tail.0 {
        0..=79 => buf.extend(&d.tail.1),
        80..=109 => buf.extend(d.tail.1.iter().map(|_| 0)),
        110..=139 => {
            buf.truncate(buf.len().saturating_sub(d.tail.1.len()));
        }
        _ => {}
    }
    let k = d.declare.1 as usize;
    let declared = match d.declare.0 {
        0..=119 => whole,
        120..=169 => buf.len(),
        170..=194 => whole.saturating_sub(k % 12),
        195..=209 => whole + k % 12,
        210..=229 => k % (whole + 1),
        230..=239 => 0xFFFF,
        240..=247 => 0xFFFF_FFFF - k % 3,
        _ => k,
    } as u32;
    Table {
        ver,
        v3: d.v3,
        declared,
        buf,
    }
}

pub fn tables() -> BoxedStrategy<Table> {
    (structures(0..=10, any_kind(), Style::Mixed), damage(4))
        .prop_map(|((ver, rs), d)| damaged(ver, &rs, d))
        .boxed()
}
/// short structures whose kinds are not decoded: all is about framing
fn raw_tables() -> BoxedStrategy<Table> {
    let kind = prop_oneof![6 => prop::sample::select(&[5u8, 6, 10, 23, 126, 128, 255][..]), 1 => Just(127u8)].boxed();
    (structures(0..=12, kind, Style::Mixed), damage(3))
        .prop_map(|((ver, mut rs), d)| {
            for r in &mut rs {
                r.data.truncate(r.handle as usize % 9);
                r.strings.truncate(3);
            }
            damaged(ver, &rs, d)
        })
        .boxed()
}
pub fn small_tables() -> BoxedStrategy<Table> {
    prop_oneof![tables(), raw_tables(), soup()].boxed()
}
/// bytes, with many zeros and small numbers
pub fn soup() -> BoxedStrategy<Table> {
    let b = prop_oneof![4 => Just(0u8), 3 => 0u8..24, 1 => Just(127u8), 2 => any::<u8>()];
    (
        gen::version(),
        any::<bool>(),
        vec(b, 0..160),
        any::<u8>(),
        any::<u8>(),
    )
        .prop_map(|(ver, v3, buf, k, x)| {
            let declared = match k {
                0..=159 => buf.len() as u32,
                160..=199 => x as u32,
                200..=229 => buf.len() as u32 + x as u32,
                _ => u32::MAX - x as u32,
            };
            Table {
                ver,
                v3,
                declared,
                buf,
            }
        })
        .boxed()
}

/// Many structures of one shape: a table past 64 KiB, and the same damages.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Big {
    pub ver: Ver,
    pub unit: Vec<Raw>,
    pub times: u32,
    /// 64-bit entry point
    pub v3: bool,
    pub last: Raw,
    /// length byte of the last structure
    pub broken: Option<u8>,
    pub unterminated: bool,
}
pub fn big() -> BoxedStrategy<Big> {
    (
        structures(2..=5, any_kind(), Style::Mixed),
        structure_of(gen::DECODED, Style::Mixed),
        (1u32..120, any::<u8>(), gen::byte()),
    )
        .prop_map(|((ver, mut unit), (_, mut last), (kb, mode, len))| {
            unit.retain(|r| r.kind != 127);
            if unit.is_empty() {
                unit.push(Raw {
                    kind: 200,
                    handle: 1,
                    data: vec![1; 100],
                    strings: vec!["x".into()],
                });
            }
            last.strings.truncate(9);
            let size = encode_all(&unit).len() as u32;
            // also just around 65536
            let bytes = if mode & 1 == 1 { 65536 } else { kb * 2048 };
            Big {
                ver,
                unit,
                times: bytes / size,
                v3: mode & 8 == 0,
                last,
                broken: (mode & 6 == 2).then_some(len),
                unterminated: mode & 6 == 4,
            }
        })
        .boxed()
}
/// Very many small structures: also past 256 and 65536 of them.
pub fn numerous() -> BoxedStrategy<Big> {
    (
        (
            gen::version(),
            vec((any::<u8>(), gen::handle(), 0usize..3), 1..3),
        ),
        structure_of(gen::DECODED, Style::Mixed),
        (any::<u8>(), -4i32..5, 0u32..3000, gen::byte()),
    )
        .prop_map(|((ver, unit), (_, mut last), (mode, d, n, len))| {
            let unit: Vec<Raw> = unit
                .into_iter()
                .map(|(k, handle, n)| Raw {
                    kind: if gen::DECODED.contains(&k) || k == 127 {
                        k | 0x80
                    } else {
                        k
                    },
                    handle,
                    data: vec![k; n],
                    strings: vec![],
                })
                .collect();
            last.strings.truncate(5);
            let count = match mode >> 5 {
                0 | 1 => (256 + d) as u32,
                2 => (65536 + d) as u32,
                3 => (32768 + d) as u32,
                _ => n,
            };
            Big {
                ver,
                times: count / unit.len() as u32,
                unit,
                v3: mode & 8 == 0,
                last,
                broken: (mode & 6 == 2).then_some(len),
                unterminated: mode & 6 == 4,
            }
        })
        .boxed()
}
pub fn big_table(c: &Big) -> Table {
    let unit = encode_all(&c.unit);
    let mut buf = unit.repeat(c.times as usize);
    let at = buf.len();
    c.last.encode_into(&mut buf);
    if let Some(l) = c.broken {
        buf[at + 1] = l;
    }
    if c.unterminated {
        while buf.last() == Some(&0) {
            buf.pop();
        }
        buf.push(0);
    }
    Table {
        ver: c.ver,
        v3: c.v3,
        declared: buf.len() as u32,
        buf,
    }
}
fn big_framing(c: &Big, cx: &mut Cx) -> Result<(), String> {
    framing(&big_table(c), cx)
}

pub fn c04() -> Vec<Part> {
    vec![
        random(
            "tables",
            "0-10 structures of any kinds, version and string sets, under either entry point, with the declared length exact, \
             short, long or absurd, bytes behind the table or missing, length bytes and others overwritten; non-trivial: at \
             least two items are due; oracle: reference walk, each structure against its own bytes",
            (100_000, 3_000_000),
            tables,
            framing,
        ),
        random(
            "short",
            "the same with 0-12 short structures of kinds that are not decoded",
            (200_000, 8_000_000),
            raw_tables,
            framing,
        ),
        random(
            "bytes",
            "up to 160 bytes with many zeros and small numbers; non-trivial and oracle: as before",
            (400_000, 16_000_000),
            soup,
            framing,
        ),
        random(
            "large",
            "tables of up to 240 KB, many just around 64 KiB, whole or damaged at the end; non-trivial and oracle: as before",
            (400, 12_000),
            big,
            big_framing,
        ),
        random(
            "numerous",
            "up to 65540 structures of four to six bytes, many about 256, 32768 and 65536; non-trivial and oracle: as before",
            (120, 3_000),
            numerous,
            big_framing,
        ),
        super::rows::frame_rows(),
        super::rows::frame_far(),
        super::giant::walks(),
        guided(
            "guided",
            "tables as in tables and short, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for tables",
            (1_000_000, 40_000_000),
            small_tables,
            framing,
        ),
    ]
}

// --- C05 ------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Many {
    ver: Ver,
    v3: bool,
    structs: Vec<Raw>,
}
fn many() -> BoxedStrategy<Many> {
    (structures(1..=12, any_kind(), Style::Mixed), any::<bool>())
        .prop_map(|((ver, structs), v3)| Many { ver, v3, structs })
        .boxed()
}

impl Slots for Many {
    fn slots<'a>(&'a mut self, out: &mut Vec<Slot<'a>>) {
        out.push(Slot::Ver(&mut self.ver));
        out.push(Slot::Bool(&mut self.v3));
        self.structs.iter_mut().for_each(|r| r.slots(out));
    }
    fn shape(&mut self, m: &mut Mutator) {
        reshape(&mut self.structs, 16, m)
    }
    fn fewer(&mut self, i: usize) -> bool {
        without(&mut self.structs, 1, i)
    }
}

fn independent(c: &Many, cx: &mut Cx) -> Result<(), String> {
    let buf = encode_all(&c.structs);
    let ep = entry(c.ver, buf.len() as u32, c.v3)?;
    let got = walk(&ep, &buf)?;
    let mut n = c.structs.len();
    if c.ver.0 >= 3 {
        n = c
            .structs
            .iter()
            .position(|r| r.kind == 127)
            .map_or(n, |i| i + 1);
    }
    if n >= 2 {
        cx.nontrivial();
    }
    for (i, (r, g)) in c.structs.iter().take(n).zip(&got).enumerate() {
        if matches!(g, Item::Err(..)) {
            cx.label(if i + 1 < n {
                "error before others"
            } else {
                "error at the end"
            });
        }
        let alone = decode_one(c.ver, r)?;
        if let Some(d) = g.diff(&alone) {
            return Err(format!("structure {i}: in the table vs alone: {d}"));
        }
    }
    if got.len() != n {
        return Err(format!("{n} structures give {} items", got.len()));
    }
    Ok(())
}

/// The same structure far into a table, after neighbours of some size.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Far {
    ver: Ver,
    raw: Raw,
    before: Vec<(u8, u16)>,
    after: Vec<Raw>,
}
fn far() -> BoxedStrategy<Far> {
    (
        structure_of(gen::DECODED, Style::Mixed),
        vec(
            (
                any::<u8>(),
                prop_oneof![1u16..300, 1u16..9000, Just(65535u16)],
            ),
            0..4,
        ),
        structures(0..=2, any_kind(), Style::Mixed),
    )
        .prop_map(|((ver, raw), before, (_, after))| Far {
            ver,
            raw,
            before,
            after,
        })
        .boxed()
}
fn far_same(c: &Far, cx: &mut Cx) -> Result<(), String> {
    let mut buf = vec![];
    for (i, (x, n)) in c.before.iter().enumerate() {
        Raw {
            kind: if *x == 127 { 128 } else { *x },
            handle: i as u16,
            data: vec![*x; *x as usize % 250],
            strings: vec![((x % 90) as char)
                .to_string()
                .replace('\0', "a")
                .repeat(*n as usize)],
        }
        .encode_into(&mut buf);
    }
    if buf.len() > 0xFFFF {
        cx.label("beyond 64 KiB");
    }
    let at = c.before.len();
    c.raw.encode_into(&mut buf);
    buf.extend(encode_all(&c.after));
    let ep = entry(c.ver, buf.len() as u32, true)?;
    let got = walk(&ep, &buf)?;
    if !c.before.is_empty() {
        cx.nontrivial();
    }
    let Some(g) = got.get(at) else {
        return Err(format!("only {} items", got.len()));
    };
    match g.diff(&decode_one(c.ver, &c.raw)?) {
        None => Ok(()),
        Some(d) => Err(format!("in the table vs alone: {d}")),
    }
}

/// every structure of a long table, against itself alone
fn big_same(c: &Big, cx: &mut Cx) -> Result<(), String> {
    let mut buf = encode_all(&c.unit).repeat(c.times as usize);
    c.last.encode_into(&mut buf);
    let ep = entry(c.ver, buf.len() as u32, c.v3)?;
    let got = walk(&ep, &buf)?;
    let n = c.unit.len() * c.times as usize;
    let alone: Vec<Item> = c
        .unit
        .iter()
        .map(|r| decode_one(c.ver, r))
        .collect::<Result<_, _>>()?;
    let last = decode_one(c.ver, &c.last)?;
    if got.len() != n + 1 {
        return Err(format!("{} structures give {} items", n + 1, got.len()));
    }
    if n > 255 {
        cx.nontrivial();
    }
    for (i, g) in got.iter().enumerate() {
        let a = if i == n {
            &last
        } else {
            &alone[i % c.unit.len()]
        };
        if let Some(d) = g.diff(a) {
            return Err(format!("structure {i} of {n}: in the table vs alone: {d}"));
        }
    }
    Ok(())
}

pub fn c05() -> Vec<Part> {
    vec![
        random(
            "neighbours",
            "1-12 whole structures, many with malformed bodies; non-trivial: at least two are due; oracle: each item equals, \
             field by field and text by text, what the same structure gives alone, and none is missing",
            (120_000, 5_000_000),
            many,
            independent,
        ),
        random(
            "far",
            "a structure behind up to three others with strings of up to 64 KiB; non-trivial: something stands before it; \
             oracle: as before",
            (60_000, 2_000_000),
            far,
            far_same,
        ),
        random(
            "long",
            "tables of up to 240 KB of structures of any kinds, malformed bodies among them; non-trivial: at least 256 \
             structures; oracle: as before",
            (300, 10_000),
            big,
            big_same,
        ),
        random(
            "numerous",
            "up to 65540 structures; non-trivial and oracle: as before",
            (80, 2_000),
            numerous,
            big_same,
        ),
        super::rows::same_far(),
        guided(
            "guided",
            "structures as in neighbours, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for neighbours",
            (1_500_000, 40_000_000),
            many,
            independent,
        ),
    ]
}

// --- C06 ------------------------------------------------------------------

fn says(e: &ErrObs, text: &str) -> Result<(), String> {
    match err_text(e) {
        Some(want) if want != text => Err(format!("{e:?} reads {text:?}, not {want:?}")),
        _ if text.is_empty() => Err(format!("{e:?} has no text")),
        _ => Ok(()),
    }
}

fn body_error(c: &One, cx: &mut Cx) -> Result<(), String> {
    let got = decode_one(c.ver, &c.raw)?;
    match (model(c.ver, &c.raw), got) {
        (Expect::Ok(_), Item::Ok(_)) => {
            cx.label("well-formed");
            Ok(())
        }
        (Expect::Ok(x), e) => Err(format!("a well-formed {} gives {}", x.kind, e.brief())),
        // whether it has to be an error is another question
        (Expect::Err(_), Item::Ok(_)) => {
            cx.label("not an error");
            Ok(())
        }
        (Expect::Err(want), Item::Err(e, text)) => {
            cx.nontrivial();
            cx.label(match &e {
                ErrObs::StringIndex { .. } => "dangling reference",
                ErrObs::Length { .. } => "length",
                _ => "other",
            });
            says(&e, &text)?;
            let own = |i: &str, h: u16| i == info(c.raw.kind) && h == c.raw.handle;
            let fits = want.contains(&e)
                || want.contains(&ErrObs::Slice)
                    && matches!(&e, ErrObs::Length { info, handle, .. } if own(info, *handle));
            if fits {
                Ok(())
            } else {
                Err(format!("the error is {e:?}, expected one of {want:?}"))
            }
        }
    }
}

fn clean_ok(c: &One, cx: &mut Cx) -> Result<(), String> {
    cx.nontrivial();
    match decode_one(c.ver, &c.raw)? {
        Item::Ok(_) => Ok(()),
        e => Err(format!(
            "a well-formed structure of kind {} gives {}",
            c.raw.kind,
            e.brief()
        )),
    }
}

/// The framing error of a table, if one is due, with its text.
pub fn frame_error(c: &Table, cx: &mut Cx) -> Result<(), String> {
    let want = frames(c.ver.0, c.declared, &c.buf);
    let got = walk(&entry(c.ver, c.declared, c.v3)?, &c.buf)?;
    for (i, g) in got.iter().enumerate() {
        let Item::Err(e, text) = g else { continue };
        says(e, text)?;
        let ok = match (e, want.get(i)) {
            (ErrObs::BadSize(o, l), Some(Frame::BadSize(a, b))) => {
                cx.nontrivial();
                (*o as usize, *l) == (*a, *b)
            }
            (ErrObs::Unterminated(o), Some(Frame::Unterminated(a) | Frame::Straddles(a, _))) => {
                cx.nontrivial();
                *o as usize == *a
            }
            (ErrObs::BadSize(..) | ErrObs::Unterminated(_), _) => false,
            (
                ErrObs::StringIndex {
                    info: t, handle, ..
                }
                | ErrObs::Length {
                    info: t, handle, ..
                },
                Some(Frame::Whole(a, _)),
            ) => {
                cx.label("error in the body of a neighbour");
                *t == info(c.buf[*a]) && *handle == u16::from_le_bytes([c.buf[a + 2], c.buf[a + 3]])
            }
            _ => true,
        };
        if !ok {
            return Err(format!("item {i} is {e:?}, but there is {:?}", want.get(i)));
        }
    }
    Ok(())
}
fn big_error(c: &Big, cx: &mut Cx) -> Result<(), String> {
    frame_error(&big_table(c), cx)
}

pub fn c06() -> Vec<Part> {
    fn mixed() -> BoxedStrategy<One> {
        structure_of(gen::DECODED, Style::Mixed)
            .prop_map(one)
            .boxed()
    }
    fn clean() -> BoxedStrategy<One> {
        structure_of(gen::DECODED, Style::Clean)
            .prop_map(one)
            .boxed()
    }
    /// kind x version x length: every length error; each reference, dangling
    fn short(i: u64) -> One {
        let kinds = gen::DECODED.len() as u64;
        let kind = gen::DECODED[(i % kinds) as usize];
        let i = i / kinds;
        let ver = gen::VERSIONS[(i % 17) as usize];
        let i = i / 17;
        let fill = if i % 2 == 0 { 0 } else { 2 };
        let mut raw = gen::base(kind, ver, fill, 4 + (i / 2) as usize);
        raw.handle = (0xABCDu32 + 977 * i as u32) as u16;
        one((ver, raw))
    }
    fn dangling(i: u64) -> One {
        let kinds = gen::DECODED.len() as u64;
        let kind = gen::DECODED[(i % kinds) as usize];
        let i = i / kinds;
        let ver = gen::VERSIONS[(i % 17) as usize];
        let i = i / 17;
        let len = gen::full_len(kind, ver).max(gen::min_len(kind, ver));
        let mut raw = gen::base(kind, ver, 0, len);
        let refs = gen::spec(kind).unwrap().refs;
        if let Some(off) = refs.get((i % 8) as usize) {
            if let Some(b) = raw.data.get_mut(off - 4) {
                *b = (i / 8) as u8;
            }
        }
        raw.handle = (i * 51) as u16;
        one((ver, raw))
    }
    vec![
        random(
            "bodies",
            "random structures, also too short or with dangling references; non-trivial: it is an error; oracle: the error \
             names a defect the structure has, with its own type, handle, string number or required length, and its text says so",
            (400_000, 12_000_000),
            mixed,
            body_error,
        ),
        exhaustive(
            "lengths",
            "every decoded kind x 17 versions x lengths 4 to 79 x 2 fillings; non-trivial and oracle: as before",
            |_| gen::DECODED.len() as u64 * 17 * 2 * 76,
            short,
            body_error,
        ),
        exhaustive(
            "references",
            "every decoded kind x 17 versions x each string reference x each number 0-255, with nine strings; non-trivial and \
             oracle: as before",
            |_| gen::DECODED.len() as u64 * 17 * 8 * 256,
            dangling,
            body_error,
        ),
        random(
            "well-formed",
            "structures with length and references as the version requires; oracle: no error; every case counts",
            (300_000, 8_000_000),
            clean,
            clean_ok,
        ),
        random(
            "framing",
            "tables as for C04; non-trivial: the walk ends in a framing error; oracle: offset, length and text as due",
            (100_000, 3_000_000),
            tables,
            frame_error,
        ),
        random(
            "framing-short",
            "short raw tables as for C04; non-trivial and oracle: as before",
            (200_000, 8_000_000),
            raw_tables,
            frame_error,
        ),
        random(
            "framing-large",
            "tables of up to 240 KB; non-trivial and oracle: as before",
            (400, 12_000),
            big,
            big_error,
        ),
        random(
            "framing-numerous",
            "up to 65540 structures of four to six bytes; non-trivial and oracle: as before",
            (120, 3_000),
            numerous,
            big_error,
        ),
        super::rows::errors_far(),
        guided(
            "guided",
            "structures as in bodies, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for bodies",
            (2_000_000, 60_000_000),
            mixed,
            body_error,
        ),
        guided(
            "guided-framing",
            "tables as in framing, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for framing",
            (1_000_000, 30_000_000),
            small_tables,
            frame_error,
        ),
    ]
}
