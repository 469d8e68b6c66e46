//! C20: decoding again, copies of iterators, equality and hashes.

use super::entry::{image_bytes, single, Image};
use super::walks::tables;
use super::{one, One, Table};
use crate::full::{self, hash_of};
use crate::gen::{self, any_kind, structure_of, structures, Style};
use crate::guided::{guided, reshape, without, Mutator, Slot, Slots};
use crate::obs::{item, observe, ways};
use crate::raw::{encode_all, entry, max_items, walk, Raw, Ver};
use crate::run::{exhaustive, random, Cx, Part};
use dmidecode::bitfield::BitField;
use dmidecode::structures::system_event_log::log_record_format::PostResults;
use dmidecode::{EntryPoint, Structure};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::hash::Hash;

// --- repeats ------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Twice {
    table: Table,
    /// walked in between
    other: Table,
    shift: u8,
}
fn twice() -> BoxedStrategy<Twice> {
    (tables(), tables(), any::<u8>())
        .prop_map(|(table, other, shift)| Twice {
            table,
            other,
            shift,
        })
        .boxed()
}
impl Slots for Twice {
    fn slots<'a>(&'a mut self, out: &mut Vec<Slot<'a>>) {
        self.table.slots(out);
        self.other.slots(out);
        out.push(Slot::U8(&mut self.shift));
    }
    fn mend(&mut self, m: &mut Mutator) {
        self.table.mend(m);
        self.other.mend(m);
    }
}
fn repeats(c: &Twice, cx: &mut Cx) -> Result<(), String> {
    let t = &c.table;
    let ep = entry(t.ver, t.declared, t.v3)?;
    let ep2 = entry(t.ver, t.declared, t.v3)?;
    if ep != ep2 || hash_of(&ep) != hash_of(&ep2) {
        return Err("the same entry point differs from itself".into());
    }
    let first = full::table(&ep, &t.buf);
    let before = t.buf.clone();
    let _ = full::table(
        &entry(c.other.ver, c.other.declared, c.other.v3)?,
        &c.other.buf,
    );
    let mut mem = vec![0xEE; c.shift as usize & 31];
    let shift = mem.len();
    mem.extend(&t.buf);
    let copy = &mem[shift..];
    let second = full::table(&ep2, copy);
    if first.len() >= 2 {
        cx.nontrivial();
    }
    if let Some(i) = (0..first.len().max(second.len())).find(|i| first.get(*i) != second.get(*i)) {
        return Err(format!(
            "item {i} is {:?} at first, then {:?}",
            first.get(i),
            second.get(i)
        ));
    }
    let n = max_items(&t.buf);
    for (i, (a, b)) in ep
        .structures(&t.buf)
        .zip(ep2.structures(copy))
        .enumerate()
        .take(n)
    {
        match (&a, &b) {
            (Ok(x), Ok(y)) => {
                if x != y || y != x || hash_of(x) != hash_of(y) {
                    return Err(format!(
                        "item {i}, decoded twice, does not equal itself: {x:?}"
                    ));
                }
            }
            (Err(x), Err(y)) if format!("{x:?}{x}") == format!("{y:?}{y}") => {}
            _ => return Err(format!("item {i} is {a:?}, then {b:?}")),
        }
    }
    if before != t.buf {
        return Err("the table has been modified".into());
    }
    Ok(())
}

// --- histories ----------------------------------------------------------------

/// Operations on a set of cursors that starts with one.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, Hash)]
pub enum Op {
    Next(u8),
    Copy(u8),
    Nth(u8, u8),
    Drop(u8),
    Finish(u8),
    /// count, last, fold, size hint
    Ways(u8),
    /// the copy and the original swap roles
    Assign(u8, u8),
}
fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        6 => any::<u8>().prop_map(Op::Next),
        3 => any::<u8>().prop_map(Op::Copy),
        1 => (any::<u8>(), 0u8..5).prop_map(|(i, n)| Op::Nth(i, n)),
        1 => any::<u8>().prop_map(Op::Drop),
        1 => any::<u8>().prop_map(Op::Finish),
        1 => any::<u8>().prop_map(Op::Ways),
        1 => any::<(u8, u8)>().prop_map(|(i, j)| Op::Assign(i, j)),
    ]
}

/// Every cursor yields, from where it stands, what the whole sequence has there.
fn history<I>(
    what: &str,
    start: &I,
    ops: &[Op],
    show: fn(&I::Item) -> String,
) -> Result<usize, String>
where
    I: Iterator + Clone + PartialEq + Hash + Debug,
{
    let all: Vec<String> = start.clone().take(3000).map(|x| show(&x)).collect();
    let mut cursors = vec![(start.clone(), 0usize)];
    let mut steps = 0;
    for o in ops {
        let n = cursors.len();
        let (i, skip) = match o {
            Op::Next(i) => (*i as usize % n, 0),
            Op::Nth(i, k) => (*i as usize % n, *k as usize),
            Op::Copy(i) => {
                let c = cursors[*i as usize % n].clone();
                let orig = &cursors[*i as usize % n].0;
                if c.0 != *orig
                    || hash_of(&c.0) != hash_of(orig)
                    || format!("{:?}", c.0) != format!("{orig:?}")
                {
                    return Err(format!("{what}: a copy differs from {orig:?}"));
                }
                if n < 8 {
                    cursors.push(c);
                }
                continue;
            }
            Op::Drop(i) => {
                if n > 1 {
                    cursors.remove(*i as usize % n);
                }
                continue;
            }
            Op::Assign(i, j) => {
                cursors[*i as usize % n] = cursors[*j as usize % n].clone();
                continue;
            }
            Op::Finish(i) => {
                let (c, at) = cursors[*i as usize % n].clone();
                let rest: Vec<String> = c.take(3000).map(|x| show(&x)).collect();
                if at <= all.len() && rest != all[at..] {
                    return Err(format!(
                        "{what}: from {at} on {rest:?}, the sequence has {:?}",
                        &all[at..]
                    ));
                }
                steps += 1;
                continue;
            }
            Op::Ways(i) => {
                let (c, at) = &cursors[*i as usize % n];
                if *at <= all.len() {
                    let rest: Vec<I::Item> = c.clone().take(3000).collect();
                    ways(c, &rest, |a, b| show(a) == show(b))
                        .map_err(|e| format!("{what} from {at} on: {e}"))?;
                    steps += 1;
                }
                continue;
            }
        };
        let (c, at) = &mut cursors[i];
        if *at > all.len() {
            continue; // past its end
        }
        let got = c.nth(skip).map(|x| show(&x));
        let want = all.get(*at + skip);
        if got.as_ref() != want {
            return Err(format!(
                "{what}: item {} is {got:?}, the sequence has {want:?}",
                *at + skip
            ));
        }
        *at = if want.is_some() {
            *at + skip + 1
        } else {
            usize::MAX
        };
        steps += 1;
    }
    Ok(steps)
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Walks {
    ver: Ver,
    v3: bool,
    structs: Vec<Raw>,
    ops: Vec<Op>,
}
fn walks() -> BoxedStrategy<Walks> {
    (
        structures(1..=8, any_kind(), Style::Mixed),
        any::<bool>(),
        vec(op(), 1..30),
    )
        .prop_map(|((ver, structs), v3, ops)| Walks {
            ver,
            v3,
            structs,
            ops,
        })
        .boxed()
}
impl Slots for Walks {
    fn slots<'a>(&'a mut self, out: &mut Vec<Slot<'a>>) {
        out.push(Slot::Ver(&mut self.ver));
        out.push(Slot::Bool(&mut self.v3));
        self.structs.iter_mut().for_each(|r| r.slots(out));
    }
    fn shape(&mut self, m: &mut Mutator) {
        if m.below(2) == 0 {
            reorder(&mut self.ops, m)
        } else {
            reshape(&mut self.structs, 12, m)
        }
    }
    fn fewer(&mut self, i: usize) -> bool {
        let n = self.structs.len();
        if i < n {
            return without(&mut self.structs, 1, i);
        }
        i - n < self.ops.len() && {
            self.ops.remove(i - n);
            true
        }
    }
}
fn walk_history(c: &Walks, cx: &mut Cx) -> Result<(), String> {
    let buf = encode_all(&c.structs);
    let ep = entry(c.ver, buf.len() as u32, c.v3)?;
    walk(&ep, &buf)?;
    let n = history("walk", &ep.structures(&buf), &c.ops, |r| {
        format!("{:?}", item(r))
    })?;
    if n >= 2
        && c.ops
            .iter()
            .any(|o| matches!(o, Op::Copy(_) | Op::Assign(..)))
    {
        cx.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Nested {
    ver: Ver,
    raw: Raw,
    ops: Vec<Op>,
}
const ITERATORS: &[u8] = &[0, 3, 9, 11, 12, 13, 14, 15];
fn nested() -> BoxedStrategy<Nested> {
    (structure_of(ITERATORS, Style::Clean), vec(op(), 1..40))
        .prop_map(|((ver, raw), ops)| Nested { ver, raw, ops })
        .boxed()
}
impl Slots for Nested {
    fn slots<'a>(&'a mut self, out: &mut Vec<Slot<'a>>) {
        out.push(Slot::Ver(&mut self.ver));
        self.raw.slots(out);
    }
    fn shape(&mut self, m: &mut Mutator) {
        reorder(&mut self.ops, m)
    }
    fn fewer(&mut self, i: usize) -> bool {
        i < self.ops.len() && {
            self.ops.remove(i);
            true
        }
    }
}
fn reorder(ops: &mut Vec<Op>, m: &mut Mutator) {
    let n = ops.len();
    if n == 0 {
        return;
    }
    let (i, j) = (m.below(n), m.below(n));
    match m.below(3) {
        0 => {
            ops.remove(i);
        }
        1 if n < 60 => {
            let o = ops[i];
            ops.insert(j, o);
        }
        _ => ops.swap(i, j),
    }
}
fn bit_history<'a, B: BitField<'a>>(b: &B, ops: &[Op]) -> Result<usize, String>
where
    B::Size: PartialEq + Hash,
{
    let show = |f: &dmidecode::bitfield::Flag<'a>| format!("{f:?} {f} {f:#}");
    Ok(history("bits", &b.iter(), ops, show)?
        + history("significant bits", &b.significants(), ops, show)?
        + history("reserved bits", &b.reserved(), ops, |r| format!("{r:?}"))?)
}
fn nested_history(c: &Nested, cx: &mut Cx) -> Result<(), String> {
    let buf = c.raw.encode();
    let ep = entry(c.ver, buf.len() as u32, buf.len() > 0xFFFF)?;
    let s = match ep.structures(&buf).next() {
        Some(Ok(s)) => s,
        _ => return Ok(()),
    };
    let kept = s.clone();
    let before = full::structure(&s);
    let o = &c.ops[..];
    let text = |s: &&str| s.to_string();
    let n = match &s {
        Structure::Bios(b) => {
            let mut n = bit_history(&b.bios_characteristics, o)?;
            if let Some(x) = &b.bios_characteristics_exttension_2 {
                n += bit_history(x, o)?;
            }
            n + bit_history(&PostResults::from(c.raw.u(0x0A, 8).unwrap_or(5) as u64), o)?
        }
        Structure::Enclosure(b) => match &b.contained_elements {
            Some(x) => history("contained elements", x, o, |e| format!("{e:?}"))?,
            None => 0,
        },
        Structure::SystemSlots(b) => {
            let n = bit_history(&b.slot_characteristics_1, o)?;
            match &b.peer_devices {
                Some(x) => n + history("peer devices", x, o, |e| format!("{e:?}"))?,
                None => n,
            }
        }
        Structure::OemStrings(b) => history("strings", &b.strings, o, text)?,
        Structure::SystemConfigurationOptions(b) => history("strings", &b.strings, o, text)?,
        Structure::BiosLanguage(b) => history("languages", &b.installable_languages, o, text)?,
        Structure::GroupAssociations(b) => {
            history("group items", &b.items, o, |e| format!("{e:?}"))?
        }
        Structure::SystemEventLog(b) => {
            let n = bit_history(&b.log_status, o)?;
            match &b.supported_event_log_type_descriptors {
                Some(x) => n + history("descriptors", x, o, |e| format!("{e:?}"))?,
                None => n,
            }
        }
        _ => 0,
    };
    if n >= 2 {
        cx.nontrivial();
    }
    if s != kept || hash_of(&s) != hash_of(&kept) || full::structure(&s) != before {
        return Err(format!("iterating over copies changes {kept:?}"));
    }
    Ok(())
}

// --- equality -----------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Pair {
    ver: (Ver, Ver),
    a: Raw,
    b: Raw,
}
#[derive(Clone, Debug)]
enum Change {
    Byte(u16, u8),
    Handle(u16),
    Text(u8, String),
    Swap(u8, u8),
    More(String),
    Version(Ver),
    Cut(u8),
    Grow(u8),
    Regroup(u8),
    Kind(u8),
}
fn change() -> impl Strategy<Value = Change> {
    prop_oneof![
        8 => (any::<u16>(), gen::byte()).prop_map(|(i, b)| Change::Byte(i, b)),
        1 => any::<u16>().prop_map(Change::Handle),
        2 => (any::<u8>(), gen::string()).prop_map(|(i, s)| Change::Text(i, s)),
        1 => any::<(u8, u8)>().prop_map(|(i, j)| Change::Swap(i, j)),
        1 => gen::string().prop_map(Change::More),
        1 => gen::version().prop_map(Change::Version),
        1 => (1u8..9).prop_map(Change::Cut),
        1 => (1u8..9).prop_map(Change::Grow),
        2 => any::<u8>().prop_map(Change::Regroup),
        1 => any_kind().prop_map(Change::Kind),
    ]
}
fn changed(ver: Ver, a: Raw, changes: Vec<Change>) -> Pair {
    let mut b = a.clone();
    let mut v2 = ver;
    for c in changes {
        match c {
            Change::Byte(i, x) if !b.data.is_empty() => {
                let n = b.data.len();
                b.data[i as usize % n] = x;
            }
            Change::Handle(h) => b.handle = h,
            Change::Text(i, s) if !b.strings.is_empty() => {
                let n = b.strings.len();
                b.strings[i as usize % n] = s;
            }
            Change::Swap(i, j) if !b.strings.is_empty() => {
                let n = b.strings.len();
                b.strings.swap(i as usize % n, j as usize % n);
            }
            Change::More(s) => b.strings.push(s),
            Change::Version(v) => v2 = v,
            Change::Cut(n) => {
                let n = b.data.len().saturating_sub(n as usize);
                b.data.truncate(n);
            }
            Change::Grow(n) => {
                let n = (b.data.len() + n as usize).min(251);
                b.data.resize(n, n as u8);
            }
            // the same bytes, counted in other groups
            Change::Regroup(x) => {
                let at = match b.kind {
                    3 => 0x13,
                    15 => 0x15,
                    _ => continue,
                };
                let Some([p, q]) = b.data.get(at - 4..at - 2).map(|s| [s[0], s[1]]) else {
                    continue;
                };
                let (p, q) = match x % 3 {
                    0 => (q, p),
                    1 if p % 2 == 0 => (p / 2, q.saturating_mul(2)),
                    _ if q % 2 == 0 => (p.saturating_mul(2), q / 2),
                    _ => (p.wrapping_add(1), q),
                };
                b.data[at - 4] = p;
                b.data[at - 3] = q;
            }
            Change::Kind(k) => b.kind = k,
            _ => {}
        }
    }
    Pair {
        ver: (ver, v2),
        a,
        b,
    }
}
fn pair() -> BoxedStrategy<Pair> {
    (
        structure_of(gen::DECODED, Style::Clean),
        vec(change(), 1..4),
    )
        .prop_map(|((ver, a), ch)| changed(ver, a, ch))
        .boxed()
}
fn raw_pair() -> BoxedStrategy<Pair> {
    (
        structure_of(&[5, 10, 32, 127, 128, 255], Style::Clean),
        vec(change(), 1..4),
    )
        .prop_map(|((ver, mut a), ch)| {
            a.data.truncate(a.handle as usize % 30);
            changed(ver, a, ch)
        })
        .boxed()
}
/// each byte of each layout changed, one at a time
fn byte_pair(i: u64) -> Pair {
    let kinds = gen::DECODED.len() as u64;
    let kind = gen::DECODED[(i % kinds) as usize];
    let i = i / kinds;
    let ver = [
        (2, 0),
        (2, 1),
        (2, 3),
        (2, 5),
        (2, 6),
        (2, 7),
        (3, 0),
        (3, 2),
        (3, 4),
    ][(i % 9) as usize];
    let i = i / 9;
    let len = gen::full_len(kind, ver).max(gen::min_len(kind, ver));
    let a = gen::base(kind, ver, (i % 2) as u8, len);
    let mut b = a.clone();
    let at = (i / 2 / 9) as usize;
    if let Some(x) = b.data.get_mut(at) {
        *x = x.wrapping_add([1, 2, 4, 8, 16, 32, 64, 128, 255][(i / 2 % 9) as usize]);
    } else {
        b.handle ^= 1 << (at % 16);
    }
    Pair {
        ver: (ver, ver),
        a,
        b,
    }
}

impl Slots for Pair {
    fn slots<'a>(&'a mut self, out: &mut Vec<Slot<'a>>) {
        out.push(Slot::Ver(&mut self.ver.0));
        out.push(Slot::Ver(&mut self.ver.1));
        self.a.slots(out);
        self.b.slots(out);
    }
    fn shape(&mut self, m: &mut Mutator) {
        match m.below(4) {
            0 => self.b = self.a.clone(),
            1 => self.b.data.clone_from(&self.a.data),
            2 => self.b.strings.clone_from(&self.a.strings),
            _ => self.ver.1 = self.ver.0,
        }
    }
}
fn equality(c: &Pair, cx: &mut Cx) -> Result<(), String> {
    let (x, y) = (c.a.encode(), c.b.encode());
    let e1 = entry(c.ver.0, x.len() as u32, x.len() > 0xFFFF)?;
    let e2 = entry(c.ver.1, y.len() as u32, y.len() > 0xFFFF)?;
    let (Some(Ok(a)), Some(Ok(b))) = (e1.structures(&x).next(), e2.structures(&y).next()) else {
        cx.label("not both decoded");
        return Ok(());
    };
    let (oa, ob) = (observe(&a), observe(&b));
    let equal = a == b;
    #[allow(clippy::nonminimal_bool)]
    if (b == a) != equal || (a != b) == equal || a != a.clone() || b != b.clone() {
        return Err(format!("equality of {a:?} and {b:?} contradicts itself"));
    }
    cx.label(if equal { "equal" } else { "different" });
    match oa.diff(&ob) {
        Some(d) => {
            cx.nontrivial();
            if equal {
                return Err(format!("these differ but compare equal: {d}"));
            }
        }
        None if equal => {
            cx.nontrivial();
            if hash_of(&a) != hash_of(&b) {
                return Err(format!(
                    "equal values with different hashes: {a:?} and {b:?}"
                ));
            }
            let same_bytes = x == y && c.ver.0 == c.ver.1;
            if same_bytes && format!("{a:?}{a:#?}") != format!("{b:?}{b:#?}") {
                return Err(format!(
                    "equal values with different renderings: {a:?} and {b:?}"
                ));
            }
        }
        // differ in something not exposed; the same bytes have to be equal
        None => {
            if x == y && c.ver.0 == c.ver.1 {
                return Err(format!("the same bytes give unequal values: {a:?}"));
            }
        }
    }
    // a copy is a full one
    let (ca, cb) = (a.clone(), b.clone());
    if full::structure(&ca) != full::structure(&a) || hash_of(&cb) != hash_of(&b) {
        return Err(format!("a copy of {a:?} differs"));
    }
    Ok(())
}

// --- the small values ---------------------------------------------------------

/// enumeration (or other value), two codes
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Codes {
    of: String,
    a: u32,
    b: u32,
}
/// all pairs of 8-bit codes; of 16-bit ones each with its neighbours
fn codes_of(i: u64) -> Codes {
    let all = crate::enums::all();
    let n = all.len() as u64;
    let e = &all[(i % n) as usize];
    let (hi, lo) = ((i / n >> 8) as u32 & 255, (i / n) as u32 & 255);
    let (a, b) = if e.max > 255 {
        let a = (hi << 8 | lo) & e.max;
        (
            a,
            if a & 1 == 0 {
                a ^ 0x100
            } else {
                a.wrapping_add(1) & e.max
            },
        )
    } else {
        (hi.min(e.max), lo.min(e.max))
    };
    Codes {
        of: e.name.into(),
        a,
        b,
    }
}
fn codes_agree(c: &Codes, cx: &mut Cx) -> Result<(), String> {
    let Some(e) = crate::enums::all().into_iter().find(|e| e.name == c.of) else {
        return Err(format!("no enumeration {}", c.of));
    };
    if c.a != c.b {
        cx.nontrivial();
    }
    (e.pair)(c.a, c.b).map_err(|m| format!("{}, codes {:#x} and {:#x}: {m}", c.of, c.a, c.b))
}

fn entry_points(c: &(Image, Image), cx: &mut Cx) -> Result<(), String> {
    let (x, y) = (image_bytes(&c.0), image_bytes(&c.1));
    let (Ok(a), Ok(b)) = (EntryPoint::search(&x), EntryPoint::search(&y)) else {
        return Ok(());
    };
    cx.nontrivial();
    let see = |e: &EntryPoint| super::entry::observe(&Ok(*e));
    let copy = a;
    if copy != a
        || see(&copy)? != see(&a)?
        || hash_of(&copy) != hash_of(&a)
        || EntryPoint::search(&x).ok() != Some(a)
    {
        return Err(format!("{a:?}, found again or copied, differs"));
    }
    if a == b && (see(&a)? != see(&b)? || hash_of(&a) != hash_of(&b))
        || (a == b) != (b == a)
        || (a != b) == (a == b)
    {
        return Err(format!("{a:?} == {b:?} is {}", a == b));
    }
    Ok(())
}
fn two_images() -> BoxedStrategy<(Image, Image)> {
    (single(), single(), any::<u8>(), any::<[u8; 2]>())
        .prop_map(|(mut a, mut b, k, flip)| {
            if k % 8 != 0 {
                a.mend();
                b.mend();
            }
            if k < 40 {
                return (a, b);
            }
            // one byte of the first, with the checksum put right again
            let mut c = a.clone();
            c.nudge(flip[0] as usize, flip[1]);
            (a, c)
        })
        .boxed()
}

pub fn c20() -> Vec<Part> {
    fn mixed() -> BoxedStrategy<One> {
        structure_of(gen::DECODED, Style::Mixed)
            .prop_map(one)
            .boxed()
    }
    fn identical(c: &One, cx: &mut Cx) -> Result<(), String> {
        let p = Pair {
            ver: (c.ver, c.ver),
            a: c.raw.clone(),
            b: c.raw.clone(),
        };
        equality(&p, cx)
    }
    vec![
        random(
            "repeats",
            "damaged tables as for C04, walked twice at different places with another walk in between; non-trivial: at least \
             two items; oracle: equal values, hashes, texts and errors, and the table unmodified",
            (50_000, 2_000_000),
            twice,
            repeats,
        ),
        random(
            "walk-histories",
            "1-8 structures and 1-29 operations next, nth, copy, drop, assign, finish on up to eight walks; non-trivial: two \
             or more items and a copy; oracle: each walk yields from its position what the one walk from the start does",
            (60_000, 2_000_000),
            walks,
            walk_history,
        ),
        random(
            "nested-histories",
            "the same with the iterators inside decoded structures and over bit fields; non-trivial: two or more steps; \
             oracle: as before, and the structure is as it was",
            (120_000, 5_000_000),
            nested,
            nested_history,
        ),
        random(
            "identical",
            "a structure decoded from two copies of its bytes; non-trivial: it is decoded; oracle: equal, with equal hash and text",
            (100_000, 4_000_000),
            mixed,
            identical,
        ),
        random(
            "pairs",
            "a structure and one with one to three changes to bytes, strings, handle, length, grouping, kind or version; \
             non-trivial: both are decoded and compare equal or differ in something exposed; oracle: what differs in a field \
             or string is unequal, equal values have equal fields and hashes",
            (300_000, 12_000_000),
            pair,
            equality,
        ),
        random(
            "raw-pairs",
            "the same with raw structures",
            (100_000, 4_000_000),
            raw_pair,
            equality,
        ),
        exhaustive(
            "byte-pairs",
            "every decoded kind x 9 versions x 2 fillings x each byte changed in 9 ways; non-trivial and oracle: as before",
            |_| gen::DECODED.len() as u64 * 9 * 2 * 9 * 100,
            byte_pair,
            equality,
        ),
        exhaustive(
            "codes",
            "the values of every pair of codes of every enumeration (16-bit codes: with two others each); non-trivial: different \
             codes; oracle: equality is symmetric, equal values have one text and one hash, the same code equal values",
            |_| crate::enums::all().len() as u64 * 65536,
            codes_of,
            codes_agree,
        ),
        random(
            "entry-points",
            "pairs of entry points, most differing in one byte; non-trivial: both are found; oracle: found again it is \
             equal, and equal ones have equal fields and hashes",
            (100_000, 4_000_000),
            two_images,
            entry_points,
        ),
        guided(
            "guided-repeats",
            "tables as in repeats, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for repeats",
            (100_000, 4_000_000),
            twice,
            repeats,
        ),
        guided(
            "guided-walks",
            "structures and operations as in walk-histories, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for walk-histories",
            (120_000, 4_000_000),
            walks,
            walk_history,
        ),
        guided(
            "guided-nested",
            "structures and operations as in nested-histories, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for nested-histories",
            (300_000, 10_000_000),
            nested,
            nested_history,
        ),
        guided(
            "guided-pairs",
            "pairs as in pairs, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for pairs",
            (600_000, 20_000_000),
            pair,
            equality,
        ),
    ]
}
