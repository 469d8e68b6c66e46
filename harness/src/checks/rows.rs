//! Long rows of one structure or string, and structures far into a table.

use super::walks::{frame_error, framing};
use super::Table;
use crate::full;
use crate::gen;
use crate::obs::Item;
use crate::raw::{decode_one, entry, max_items, walk, Raw, Ver};
use crate::run::{exhaustive, Cx, Part};
use serde::{Deserialize, Serialize};

/// `times` equal structures, or one with as many strings or as long a string.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Row {
    ver: Ver,
    kind: u8,
    form: u8,
    times: u32,
}
const VERSIONS: [Ver; 2] = [(2, 8), (3, 4)];

fn row_size(_: bool) -> u64 {
    256 * 2 * 4
}
fn row_at(i: u64) -> Row {
    let form = (i / 512) as u8;
    Row {
        ver: VERSIONS[i as usize / 256 % 2],
        kind: i as u8,
        form,
        times: match form {
            0 => 120_000,
            1 => 60_000,
            2 => 70_000,
            _ => 1 << 20,
        },
    }
}
fn row_unit(c: &Row) -> Raw {
    let full = gen::full_len(c.kind, c.ver).max(gen::min_len(c.kind, c.ver));
    let mut r = gen::base(c.kind, c.ver, 1, if c.form == 0 { 4 } else { full });
    r.strings.clear();
    match c.form {
        2 => r.strings = vec!["s".into(); c.times as usize],
        3 => r.strings = vec!["s".repeat(c.times as usize)],
        _ => {}
    }
    r
}
fn row_table(c: &Row) -> (Vec<u8>, usize) {
    let n = if c.form < 2 { c.times as usize } else { 1 };
    (row_unit(c).encode().repeat(n), n)
}

fn row_survives(c: &Row, cx: &mut Cx) -> Result<(), String> {
    let (buf, n) = row_table(c);
    let ep = entry(c.ver, buf.len() as u32, true)?;
    cx.nontrivial();
    if n == 1 {
        full::table(&ep, &buf);
        return Ok(());
    }
    let limit = max_items(&buf);
    let it = ep.structures(&buf);
    if it.clone().take(limit + 1).count() > limit {
        return Err(format!("more than {limit} items"));
    }
    let _ = (
        it.clone().nth(n - 1),
        it.clone().last(),
        it.clone().skip(n).next(),
    );
    let _ = it.clone().flatten().count();
    let _ = it.clone().find(|_| false).is_some();
    for r in it.take(1) {
        let _ = format!("{r:?}");
    }
    Ok(())
}

fn row_framing(c: &Row, cx: &mut Cx) -> Result<(), String> {
    let (buf, n) = row_table(c);
    let ep = entry(c.ver, buf.len() as u32, true)?;
    cx.nontrivial();
    let due = if c.kind == 127 && c.ver.0 >= 3 { 1 } else { n };
    let mut it = ep.structures(&buf);
    let first = it.next().ok_or("no item")?;
    let mut k = 1;
    for r in it {
        k += 1;
        let same = match (&first, &r) {
            (Ok(a), Ok(b)) => a == b,
            (Err(a), Err(b)) => format!("{a:?}") == format!("{b:?}"),
            _ => false,
        };
        if !same {
            return Err(format!("item {k} of a row is {r:?}, the first {first:?}"));
        }
        if k > due {
            break;
        }
    }
    if k != due {
        return Err(format!("{k} items or more of {due}"));
    }
    Ok(())
}

/// Behind one structure, exactly at an offset: whole, of a length below four, of one
/// past the table, without terminator.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct At {
    ver: Ver,
    offset: u32,
    form: u8,
    raw: Raw,
}
fn at_table(c: &At) -> Table {
    // a structure without references, up to there
    let before = gen::base(16, (2, 7), 0, 0x17);
    let mut buf = vec![];
    let fixed = before.len() + 2;
    let text = (c.offset as usize).saturating_sub(fixed).max(1);
    Raw {
        strings: vec!["b".repeat(text)],
        ..before
    }
    .encode_into(&mut buf);
    let at = buf.len();
    c.raw.encode_into(&mut buf);
    match c.form {
        1 => buf[at + 1] = c.raw.handle as u8 % 4,
        2 => buf.truncate(at + c.raw.len()),
        3 => {
            while buf.last() == Some(&0) {
                buf.pop();
            }
            buf.truncate(buf.len().max(at + c.raw.len()));
            buf.push(0);
        }
        _ => {}
    }
    Table {
        ver: c.ver,
        v3: true,
        declared: buf.len() as u32,
        buf,
    }
}
const DELTAS: [i64; 5] = [0, 1, -1, 2, -7];
fn offset_at(i: u64) -> u32 {
    ((256i64 << (i / 5)) + DELTAS[(i % 5) as usize]) as u32
}
fn offsets(thorough: bool) -> u64 {
    5 * if thorough { 20 } else { 18 }
}
fn broken_size(t: bool) -> u64 {
    offsets(t) * 3
}
fn broken_at(i: u64) -> At {
    let kinds = [126u8, 1, 17, 200, 127];
    let kind = kinds[(i / 3 % 5) as usize];
    let ver = VERSIONS[(i / 15 % 2) as usize];
    let mut raw = gen::base(kind, ver, 0, 0x20);
    raw.handle = i as u16;
    At {
        ver,
        offset: offset_at(i / 3),
        form: 1 + (i % 3) as u8,
        raw,
    }
}
fn whole_size(t: bool) -> u64 {
    offsets(t) * 8
}
/// all decoded kinds in turn at each offset
fn whole_at(i: u64) -> At {
    let kinds = gen::DECODED;
    let kind = kinds[(i % kinds.len() as u64) as usize];
    let ver = VERSIONS[(i / 3 % 2) as usize];
    let len = gen::full_len(kind, ver).max(gen::min_len(kind, ver));
    let mut raw = gen::base(kind, ver, 0, len);
    if i % 4 == 3 {
        // no string is there
        raw.strings.clear();
    }
    raw.handle = i as u16;
    At {
        ver,
        offset: offset_at(i / 8),
        form: 0,
        raw,
    }
}
fn at_framing(c: &At, cx: &mut Cx) -> Result<(), String> {
    framing(&at_table(c), cx)
}
fn at_error(c: &At, cx: &mut Cx) -> Result<(), String> {
    frame_error(&at_table(c), cx)
}
fn at_same(c: &At, cx: &mut Cx) -> Result<(), String> {
    let t = at_table(c);
    let got = walk(&entry(t.ver, t.declared, true)?, &t.buf)?;
    cx.nontrivial();
    let [first, g] = got.as_slice() else {
        return Err(format!("{} items of two structures", got.len()));
    };
    if let Item::Err(_, e) = first {
        return Err(format!("the structure before: {e}"));
    }
    match g.diff(&decode_one(c.ver, &c.raw)?) {
        None => Ok(()),
        Some(d) => Err(format!("at {:#x} vs alone: {d}", c.offset)),
    }
}

pub fn survive() -> Part {
    exhaustive(
        "rows",
        "all 256 type numbers at two versions: 120000 equal structures without data in a row, 60000 of full length, one \
         with 70000 strings, one with a string of 1 MiB; every case counts; oracle: no stack overflow, panic or endless \
         iteration in the walk and its adaptors, and in every accessor of the single ones",
        row_size,
        row_at,
        row_survives,
    )
}
pub fn frame_rows() -> Part {
    exhaustive(
        "rows",
        "all 256 type numbers at two versions: 120000 equal structures without data in a row, 60000 of full length; every \
         case counts; oracle: as many items (one, if it ends the table), each equal to the first",
        |_| 1024,
        row_at,
        row_framing,
    )
}
pub fn frame_far() -> Part {
    exhaustive(
        "far",
        "a structure that is whole, has a length below 4, ends with the table or is not terminated, at offsets 2^8 to 2^25 \
         (thorough 2^27) and near; non-trivial and oracle: as before",
        |t| broken_size(t) + whole_size(t),
        |i| {
            // whole ones first: their number depends on the tier
            if i % 11 < 8 {
                whole_at(i / 11 * 8 + i % 11)
            } else {
                broken_at(i / 11 * 3 + i % 11 - 8)
            }
        },
        at_framing,
    )
}
pub fn same_far() -> Part {
    exhaustive(
        "offsets",
        "a structure of each decoded kind in turn, with or without its strings, at offsets 2^8 to 2^25 (thorough 2^27) and \
         near, behind one with a string up to there; every case counts; oracle: as before",
        whole_size,
        whole_at,
        at_same,
    )
}
pub fn errors_far() -> Part {
    exhaustive(
        "framing-far",
        "a structure with a length below 4, one that ends with the table and one that is not terminated, at offsets 2^8 to \
         2^25 (thorough 2^27) and near; non-trivial and oracle: as before",
        broken_size,
        broken_at,
        at_error,
    )
}
