//! C09-C15: decoded values against the reference decoder. C16: presence.

use super::{one, One};
use crate::gen::{self, structure_of, Style, Sweep, VERSIONS};
use crate::guided::guided;
use crate::model::{model, Expect};
use crate::obs::Item;
use crate::raw::{decode_one, Ver};
use crate::run::{exhaustive, random, Cx, Part};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

/// Values (not texts) as the layout places them, or an error where one is due.
pub fn faithful(c: &One, cx: &mut Cx) -> Result<(), String> {
    let got = decode_one(c.ver, &c.raw)?;
    match (model(c.ver, &c.raw), got) {
        (Expect::Ok(want), Item::Ok(got)) => {
            cx.label("decoded");
            if c.raw.data.iter().any(|b| *b != 0) {
                cx.nontrivial();
            }
            match got.values().diff(&want.values()) {
                None => Ok(()),
                Some(d) => Err(format!("decoded vs encoded: {d}")),
            }
        }
        (Expect::Ok(want), e @ Item::Err(..)) => {
            Err(format!("{} is not decoded: {}", want.kind, e.brief()))
        }
        (Expect::Err(why), Item::Ok(got)) => {
            Err(format!("{} is decoded, but is an error: {why:?}", got.kind))
        }
        (Expect::Err(_), Item::Err(..)) => {
            cx.label("error");
            cx.nontrivial();
            Ok(())
        }
    }
}

const RULE: &str = "one structure of the kinds concerned, standing alone, of any version from 2.0 on: random length around \
 the layouts' lengths, bytes biased to zeros, ones and markers, references mostly valid, 0-260 strings; non-trivial: the \
 section has a non-zero byte and decodes, or is an error; oracle: reference decoder";
const RULE_CLEAN: &str =
    "the same, with length and references always as the version requires; non-trivial: as before";
const RULE_SWEEP: &str = "every kind concerned, under 17 versions, at its longest layout: each value of each byte, and \
 patterns (sign bit, all ones, zeros, one) over each 2, 4 and 8 neighbouring bytes in 3 surroundings; non-trivial: as before";

const RULE_GUIDED: &str = "structures as in mixed, changed step by step towards new branches and comparisons in the code; \
 non-trivial and oracle: as before";

macro_rules! faithful_parts {
    ($f:ident, $kinds:expr) => {
        pub fn $f() -> Vec<Part> {
            const KINDS: &[u8] = $kinds;
            fn mixed() -> BoxedStrategy<One> {
                structure_of(KINDS, Style::Mixed).prop_map(one).boxed()
            }
            fn clean() -> BoxedStrategy<One> {
                structure_of(KINDS, Style::Clean).prop_map(one).boxed()
            }
            vec![
                random("mixed", RULE, (300_000, 12_000_000), mixed, faithful),
                random("clean", RULE_CLEAN, (300_000, 12_000_000), clean, faithful),
                exhaustive(
                    "sweep",
                    RULE_SWEEP,
                    |_| Sweep { kinds: KINDS }.size(),
                    |i| one(Sweep { kinds: KINDS }.at(i)),
                    faithful,
                ),
                guided(
                    "guided",
                    RULE_GUIDED,
                    (2_000_000, 60_000_000),
                    mixed,
                    faithful,
                ),
            ]
        }
    };
}
faithful_parts!(c09, &[0, 1, 13]);
faithful_parts!(c10, &[2, 3]);
faithful_parts!(c11, &[4, 7]);
faithful_parts!(c12, &[8, 9]);
faithful_parts!(c13, &[16, 17, 18, 19, 20]);
faithful_parts!(c14, &[11, 12, 14, 15]);
faithful_parts!(c15, &[21, 22]);

// --- C16 ------------------------------------------------------------------

fn there(v: &str) -> bool {
    v != "-" && v != "None"
}

/// Each field is there exactly when it is due.
fn presence(c: &One, cx: &mut Cx) -> Result<(), String> {
    let got = decode_one(c.ver, &c.raw)?;
    match (model(c.ver, &c.raw), got) {
        (Expect::Ok(want), Item::Ok(got)) => {
            let mut absent = false;
            for (k, w) in want.fields.iter().filter(|(k, _)| !k.ends_with('#')) {
                absent |= !there(w);
                let Some(g) = got.get(k) else {
                    return Err(format!("{}.{k}: no such field", want.kind));
                };
                if there(g) != there(w) {
                    let what = if there(w) {
                        "is absent, but due"
                    } else {
                        "is present, but not due"
                    };
                    return Err(format!("{}.{k} {what}: {g} vs {w}", want.kind));
                }
            }
            cx.nontrivial();
            cx.label(if absent {
                "some fields absent"
            } else {
                "all fields present"
            });
            Ok(())
        }
        (Expect::Ok(want), e) => Err(format!("{} is not decoded: {}", want.kind, e.brief())),
        (Expect::Err(why), Item::Ok(got)) => {
            Err(format!("{} is decoded, but is an error: {why:?}", got.kind))
        }
        _ => {
            cx.label("error");
            Ok(())
        }
    }
}

/// versions around the ones that matter, and far ones
const GRID: &[Ver] = &[
    (2, 0),
    (2, 1),
    (2, 2),
    (2, 3),
    (2, 4),
    (2, 5),
    (2, 6),
    (2, 7),
    (2, 8),
    (2, 9),
    (2, 255),
    (3, 0),
    (3, 1),
    (3, 2),
    (3, 3),
    (3, 4),
    (3, 5),
    (3, 7),
    (3, 255),
    (4, 0),
    (9, 1),
    (255, 255),
];

fn grid_len(thorough: bool) -> u64 {
    if thorough {
        252
    } else {
        125
    }
}
fn grid_size(thorough: bool) -> u64 {
    gen::DECODED.len() as u64 * GRID.len() as u64 * 3 * grid_len(thorough)
}
fn grid_at(i: u64) -> One {
    let mut i = i as usize;
    let mut take = |n: usize| {
        let r = i % n;
        i /= n;
        r
    };
    let kind = gen::DECODED[take(gen::DECODED.len())];
    let ver = GRID[take(GRID.len())];
    let fill = take(3) as u8;
    let len = 4 + i;
    let mut raw = gen::base(kind, ver, fill, len);
    if kind == 15 && ver >= (2, 1) && len > 0x17 && (len - 0x17) % 2 == 1 {
        // an odd rest: one-byte descriptors fill it
        raw.data[0x15 - 4] = (len - 0x17) as u8;
        raw.data[0x16 - 4] = 1;
    }
    one((ver, raw))
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, Hash)]
pub struct Grow {
    ver: Ver,
    to: Ver,
    raw: crate::raw::Raw,
    #[serde(with = "crate::raw::hexbytes")]
    more: Vec<u8>,
}

fn grow() -> BoxedStrategy<Grow> {
    (
        structure_of(gen::DECODED, Style::Clean),
        gen::version(),
        prop::collection::vec(gen::byte(), 0..=24),
        any::<bool>(),
    )
        .prop_map(|((ver, raw), other, mut more, both)| {
            let to = if both || more.is_empty() {
                ver.max(other)
            } else {
                ver
            };
            more.truncate(251 - raw.data.len().min(251));
            Grow { ver, to, raw, more }
        })
        .boxed()
}

/// A newer version or a longer section keeps what was there.
fn keeps(c: &Grow, cx: &mut Cx) -> Result<(), String> {
    let mut longer = c.raw.clone();
    longer.data.extend_from_slice(&c.more);
    let (Expect::Ok(wa), Expect::Ok(wb)) = (model(c.ver, &c.raw), model(c.to, &longer)) else {
        cx.label("not comparable");
        return Ok(());
    };
    let (a, b) = (decode_one(c.ver, &c.raw)?, decode_one(c.to, &longer)?);
    let (Item::Ok(a), Item::Ok(b)) = (&a, &b) else {
        return Err(format!("before {}, after {}", a.brief(), b.brief()));
    };
    if c.to > c.ver || !c.more.is_empty() {
        cx.nontrivial();
    }
    for (k, v) in a.values().fields {
        // where the specification itself redefines a field, it may change
        let redefined = wa.get(&k) != wb.get(&k);
        if there(&v) && !redefined && b.get(&k) != Some(v.as_str()) {
            return Err(format!(
                "{}.{k} changes from {v} to {:?} with version {:?} -> {:?} and {} more bytes",
                a.kind,
                b.get(&k),
                c.ver,
                c.to,
                c.more.len()
            ));
        }
    }
    Ok(())
}

/// Versions compare as (major, minor) do, also as the entry point gives them.
fn ordered(c: &(Ver, Ver, bool), cx: &mut Cx) -> Result<(), String> {
    use dmidecode::SmbiosVersion;
    let (a, b, v3) = *c;
    let made = |v: Ver| SmbiosVersion::from((v.0 as usize, v.1 as usize));
    let (x, y) = (made(a), made(b));
    if (x.major, x.minor) != a {
        return Err(format!("version {a:?} becomes {x:?}"));
    }
    if x.cmp(&y) != a.cmp(&b) || x.partial_cmp(&y) != a.partial_cmp(&b) || (x == y) != (a == b) {
        return Err(format!("{x:?} and {y:?} do not compare as {a:?} and {b:?}"));
    }
    if (x < y, x <= y, x > y, x >= y) != (a < b, a <= b, a > b, a >= b)
        || x.max(y) != made(a.max(b))
    {
        return Err(format!("{x:?} and {y:?} do not compare as {a:?} and {b:?}"));
    }
    if a.0 >= 2 {
        let e = crate::raw::entry(a, 100, v3)?;
        if e.to_version() != x || (e.major(), e.minor()) != a {
            return Err(format!(
                "an entry point of version {a:?} gives {:?}",
                e.to_version()
            ));
        }
    }
    if a != b {
        cx.nontrivial();
    }
    Ok(())
}
fn version_pairs() -> BoxedStrategy<(Ver, Ver, bool)> {
    (
        any::<Ver>(),
        any::<Ver>(),
        gen::version(),
        any::<u8>(),
        any::<bool>(),
    )
        .prop_map(|(a, b, g, how, v3)| match how % 6 {
            0 => (a, b, v3),
            1 => (a, (a.0, b.1), v3),
            2 => (a, (b.0, a.1), v3),
            3 => (a, (a.0, a.1.wrapping_add(1)), v3),
            4 => (g, (a.0 % 5, a.1 % 9), v3),
            _ => (g, (a.0.wrapping_add(1), b.1), v3),
        })
        .boxed()
}

pub fn c16() -> Vec<Part> {
    fn mixed() -> BoxedStrategy<One> {
        structure_of(gen::DECODED, Style::Mixed)
            .prop_map(one)
            .boxed()
    }
    debug_assert!(VERSIONS.len() == 17);
    vec![
        exhaustive(
            "grid",
            "every decoded kind x 22 versions x every section length from 4 to 128 (thorough: 255) x 3 fillings; non-trivial: \
             decodes; oracle: the table of which version and length bring which field",
            grid_size,
            grid_at,
            presence,
        ),
        random(
            "presence",
            "random structures of all kinds, versions, lengths; non-trivial: decodes; oracle: as for the grid",
            (400_000, 12_000_000),
            mixed,
            presence,
        ),
        random(
            "growth",
            "a structure, decoded again under a higher version and with bytes appended; non-trivial: version or length \
             really grows and both decode; oracle: fields present before are unchanged unless redefined",
            (400_000, 12_000_000),
            grow,
            keeps,
        ),
        random(
            "order",
            "pairs of versions, most sharing or neighbouring in one half; non-trivial: they differ; oracle: they compare as \
             (major, minor) pairs, made from numbers or taken from an entry point",
            (100_000, 4_000_000),
            version_pairs,
            ordered,
        ),
        guided(
            "guided",
            "structures as in presence, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for the grid",
            (3_000_000, 60_000_000),
            mixed,
            presence,
        ),
    ]
}
