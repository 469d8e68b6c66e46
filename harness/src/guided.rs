//! Guided generation: cases that made the code under test do something new are
//! kept and changed further; numbers it compares with find their way into them.
//! A failing case is shrunk step by step.

use crate::checks::{One, Table};
use crate::gen;
use crate::raw::{Raw, Ver};
use crate::run::{self, Check, Cx, Failure, Mode, Part, Stats, SHARDS};
use crate::trace::{mix, traced, Cmp, Span};
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::hash::Hash;
use std::sync::OnceLock;

/// Something of a case that may be changed.
pub enum Slot<'a> {
    U8(&'a mut u8),
    U16(&'a mut u16),
    U32(&'a mut u32),
    U64(&'a mut u64),
    Bool(&'a mut bool),
    Ver(&'a mut Ver),
    /// at most so many
    Bytes(&'a mut Vec<u8>, usize),
    Strings(&'a mut Vec<String>),
}
/// What may be changed in a case; every result is in the domain of its check.
pub trait Slots: Clone {
    fn slots<'a>(&'a mut self, out: &mut Vec<Slot<'a>>);
    /// another number or order of things
    fn shape(&mut self, _: &mut Mutator) {}
    /// after a change
    fn mend(&mut self, _: &mut Mutator) {}
    /// fewer things; false: there is no i-th way
    fn fewer(&mut self, _: usize) -> bool {
        false
    }
}

impl Slots for One {
    fn slots<'a>(&'a mut self, out: &mut Vec<Slot<'a>>) {
        out.push(Slot::Ver(&mut self.ver));
        self.raw.slots(out);
    }
}
impl Slots for Table {
    fn slots<'a>(&'a mut self, out: &mut Vec<Slot<'a>>) {
        out.push(Slot::Ver(&mut self.ver));
        out.push(Slot::Bool(&mut self.v3));
        out.push(Slot::U32(&mut self.declared));
        out.push(Slot::Bytes(&mut self.buf, 3000));
    }
    fn mend(&mut self, m: &mut Mutator) {
        if m.below(2) == 0 {
            self.declared = self.buf.len() as u32;
        }
    }
}
impl Slots for Raw {
    fn slots<'a>(&'a mut self, out: &mut Vec<Slot<'a>>) {
        out.push(Slot::U16(&mut self.handle));
        out.push(Slot::Bytes(&mut self.data, 251));
        out.push(Slot::Strings(&mut self.strings));
    }
}
/// a list of structures
pub fn reshape(v: &mut Vec<Raw>, max: usize, m: &mut Mutator) {
    let n = v.len();
    match m.below(6) {
        0 if n > 1 => {
            let i = m.below(n);
            v.remove(i);
        }
        1 if n > 1 => {
            let (i, j) = (m.below(n), m.below(n));
            v.swap(i, j);
        }
        2 if n > 0 => {
            let i = m.below(n);
            v[i].kind = if m.below(3) == 0 {
                m.next() as u8
            } else {
                gen::DECODED[m.below(20)]
            };
        }
        3 if n > 1 => {
            let (i, j) = (m.below(n), m.below(n));
            v[i].handle = v[j].handle;
            if m.below(2) == 0 {
                v[i].kind = v[j].kind;
            }
        }
        4 if n > 1 => {
            let (i, j) = (m.below(n), m.below(n));
            v[i].strings = v[j].strings.clone();
        }
        _ if n > 0 && n < max => {
            let r = v[m.below(n)].clone();
            let at = m.below(n + 1);
            v.insert(at, r);
        }
        _ => {}
    }
}
pub fn without(v: &mut Vec<Raw>, least: usize, i: usize) -> bool {
    if i >= v.len() || v.len() <= least {
        return false;
    }
    v.remove(i);
    true
}

pub struct Mutator {
    state: u64,
    cmps: Vec<Cmp>,
    spans: Vec<Span>,
    consts: Vec<u64>,
    snippets: Vec<Vec<u8>>,
}

impl Mutator {
    pub fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.state)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    /// a number of so many bits: one compared with, written down, at an edge, or any
    fn number(&mut self, bits: u32, old: u64) -> u64 {
        let mask = if bits == 64 {
            u64::MAX
        } else {
            (1 << bits) - 1
        };
        let near = self.below(5) as u64;
        let v = match self.below(12) {
            0..=2 if !self.cmps.is_empty() => {
                let i = self.below(self.cmps.len());
                self.cmps[i].1.wrapping_add(near / 2).wrapping_sub(near / 4)
            }
            3 if !self.consts.is_empty() => {
                let i = self.below(self.consts.len());
                self.consts[i]
            }
            4 => hints().numbers[self.below(hints().numbers.len())]
                .wrapping_add(near / 2)
                .wrapping_sub(near / 4),
            5 => 1 << self.below(bits as usize),
            6 => mask >> self.below(bits as usize),
            7 => old.wrapping_add(near).wrapping_sub(2),
            8 => old ^ 1 << self.below(bits as usize),
            9 => self.below(8) as u64,
            _ => self.next(),
        };
        v & mask
    }
    fn length(&mut self, old: usize, header: usize, max: usize) -> usize {
        let v = match self.below(4) {
            0 => old + self.below(8),
            1 => old.saturating_sub(self.below(8)),
            _ => (self.number(16, old as u64 + header as u64) as usize).saturating_sub(header),
        };
        // one that is too large becomes some length, mostly a short one
        if v > max {
            let n = 1 << self.below(12);
            self.below(max.min(n) + 1)
        } else {
            v
        }
    }
    fn text(&mut self, s: &mut String) {
        match self.below(6) {
            0 => *s = hints().text(self.next()).into(),
            1 => {
                let n = self.length(s.len(), 0, 700).max(1);
                let c = s.chars().next().unwrap_or('x');
                *s = s.chars().chain(std::iter::repeat(c)).take(n).collect();
            }
            2 => s.push([' ', 'a', '0', '\u{e9}', '\u{7f}'][self.below(5)]),
            3 => s.insert(0, [' ', '\t', '0', '.'][self.below(4)]),
            _ => {
                let mut c: Vec<char> = s.chars().collect();
                let i = self.below(c.len());
                c[i] = match self.below(4) {
                    0 => ' ',
                    1 => char::from_u32(self.next() as u32 % 0x3000).unwrap_or('x'),
                    _ => (33 + self.below(94)) as u8 as char,
                };
                *s = c.into_iter().collect();
            }
        }
        s.retain(|c| c != '\0');
        if s.is_empty() {
            s.push('x');
        }
    }
    /// bytes that stand in the code, or that were compared with
    fn known(&mut self) -> Vec<u8> {
        let h = hints();
        match self.below(4) {
            0 | 1 if !self.spans.is_empty() => {
                let i = self.below(self.spans.len());
                let (a, b) = &self.spans[i];
                if self.state & 4 == 0 { a } else { b }.clone()
            }
            2 if !h.bytes.is_empty() => h.bytes[self.below(h.bytes.len())].clone(),
            _ => h.text(self.next()).as_bytes().to_vec(),
        }
    }
    fn bytes(&mut self, b: &mut Vec<u8>, max: usize) {
        let n = b.len();
        match self.below(13) {
            12 if n > 0 => {
                let s = self.known();
                let at = self.below(n);
                for (i, x) in s.iter().enumerate() {
                    if let Some(y) = b.get_mut(at + i) {
                        *y = *x;
                    }
                }
            }
            0 => {
                let to = self.length(n, 4, max);
                let fill = if self.below(2) == 0 {
                    0
                } else {
                    self.next() as u8
                };
                b.resize(to, fill);
            }
            1 if n > 0 => {
                let i = self.below(n);
                let k = 1 + self.below((n - i).min(16));
                b.drain(i..i + k);
            }
            2 if n < max => {
                let i = self.below(n + 1);
                let k = 1 + self.below((max - n).min(8));
                let x = self.next() as u8;
                b.splice(i..i, std::iter::repeat(x).take(k));
            }
            3 if n > 0 && !self.snippets.is_empty() => {
                let s = self.below(self.snippets.len());
                let from = self.below(self.snippets[s].len());
                let s = &self.snippets[s][from..];
                let (s, at) = (
                    s[..s.len().min(1 + self.state as usize % 40)].to_vec(),
                    self.below(n),
                );
                for (i, x) in s.iter().enumerate() {
                    if let Some(y) = b.get_mut(at + i) {
                        *y = *x;
                    }
                }
            }
            4 if n > 0 => {
                let (i, j) = (self.below(n), self.below(n));
                let k = 1 + self.below(16);
                for d in 0..k {
                    if i + d < n && j + d < n {
                        b[i + d] = b[j + d];
                    }
                }
            }
            5..=8 if n > 0 => {
                // a number of several bytes
                let w = [2, 4, 8][self.below(3)].min(n);
                let i = self.below(n - w + 1);
                let old = b[i..i + w].iter().rev().fold(0, |a, x| a << 8 | *x as u64);
                let v = self.number(8 * w as u32, old);
                b[i..i + w].copy_from_slice(&v.to_le_bytes()[..w]);
            }
            _ if n > 0 => {
                let i = self.below(n);
                b[i] = self.number(8, b[i] as u64) as u8;
            }
            _ => {}
        }
    }
    fn strings(&mut self, v: &mut Vec<String>) {
        let n = v.len();
        match self.below(8) {
            0 => {
                let to = self.length(n, 0, 300);
                while v.len() > to {
                    v.pop();
                }
                while v.len() < to {
                    v.push(format!("s{}", v.len()));
                }
            }
            1 if n > 0 => {
                let i = self.below(n);
                v.remove(i);
            }
            2 if n < 300 => {
                let i = self.below(n + 1);
                let t = hints().text(self.next()).into();
                v.insert(i, t);
            }
            3 if n > 0 => {
                let (i, j) = (self.below(n), self.below(n));
                v[i] = v[j].clone();
            }
            _ if n > 0 => {
                let i = self.below(n);
                self.text(&mut v[i]);
            }
            _ => v.push("x".into()),
        }
    }
    fn change(&mut self, s: Slot) {
        match s {
            Slot::U8(x) => *x = self.number(8, *x as u64) as u8,
            Slot::U16(x) => *x = self.number(16, *x as u64) as u16,
            Slot::U32(x) => *x = self.number(32, *x as u64) as u32,
            Slot::U64(x) => *x = self.number(64, *x),
            Slot::Bool(x) => *x = !*x,
            Slot::Ver(v) => {
                let low = v.0.min(2);
                match self.below(4) {
                    0 => v.0 = (self.number(8, v.0 as u64) as u8).max(low),
                    1 => v.1 = self.number(8, v.1 as u64) as u8,
                    _ => *v = gen::VERSIONS[self.below(gen::VERSIONS.len())],
                }
            }
            Slot::Bytes(b, max) => self.bytes(b, max),
            Slot::Strings(v) => self.strings(v),
        }
    }
    /// The same for bytes that were compared at once.
    fn substitute_span(&mut self, slots: Vec<Slot>) {
        if self.spans.is_empty() {
            return;
        }
        let i = self.below(self.spans.len());
        let (mut from, mut to) = self.spans[i].clone();
        if self.below(2) == 0 {
            std::mem::swap(&mut from, &mut to);
        }
        let texts = std::str::from_utf8(&from)
            .ok()
            .zip(std::str::from_utf8(&to).ok().filter(|t| !t.contains('\0')));
        let mut at: Vec<(usize, usize)> = vec![];
        for (i, s) in slots.iter().enumerate() {
            match s {
                Slot::Bytes(b, _) => at.extend(
                    (0..(b.len() + 1).saturating_sub(from.len()))
                        .filter(|p| b[*p..].starts_with(&from))
                        .map(|p| (i, p)),
                ),
                Slot::Strings(l) => {
                    if let Some((f, _)) = texts {
                        at.extend((0..l.len()).filter(|j| l[*j].contains(f)).map(|j| (i, j)))
                    }
                }
                _ => {}
            }
        }
        if at.is_empty() {
            return;
        }
        let (i, p) = at[self.below(at.len())];
        match slots.into_iter().nth(i) {
            Some(Slot::Bytes(b, _)) => b[p..p + to.len()].copy_from_slice(&to),
            Some(Slot::Strings(l)) => {
                let (f, t) = texts.unwrap();
                l[p] = l[p].replacen(f, t, 1);
            }
            _ => {}
        }
    }
    /// Put what something was compared with in its place, wherever it may stand.
    fn substitute(&mut self, slots: Vec<Slot>) {
        if self.cmps.is_empty() {
            return;
        }
        let i = self.below(self.cmps.len());
        let (_, k, v) = self.cmps[i];
        let k = match self.below(6) {
            0 => k.wrapping_add(1),
            1 => k.wrapping_sub(1),
            _ => k,
        };
        // places: slot, position, width
        let mut at: Vec<(usize, usize, usize)> = vec![];
        for (i, s) in slots.iter().enumerate() {
            match s {
                Slot::U8(x) if **x as u64 == v => at.push((i, 0, 0)),
                Slot::U16(x) if **x as u64 == v => at.push((i, 0, 0)),
                Slot::U32(x) if **x as u64 == v => at.push((i, 0, 0)),
                Slot::U64(x) if **x == v => at.push((i, 0, 0)),
                Slot::Ver(x) => {
                    if x.0 as u64 == v {
                        at.push((i, 0, 0));
                    }
                    if x.1 as u64 == v {
                        at.push((i, 1, 0));
                    }
                }
                Slot::Bytes(b, _) => {
                    if b.len() as u64 == v || b.len() as u64 + 4 == v {
                        at.push((i, 0, 0));
                    }
                    for w in [1, 2, 4, 8] {
                        if w < 8 && (v >> (8 * w) != 0 || k >> (8 * w) != 0) {
                            continue;
                        }
                        let le = &v.to_le_bytes()[..w];
                        for (p, x) in b.windows(w).enumerate() {
                            if x == le {
                                at.push((i, p, w));
                            }
                        }
                    }
                }
                Slot::Strings(l) => {
                    if l.len() as u64 == v {
                        at.push((i, 0, 0));
                    }
                    for (j, s) in l.iter().enumerate() {
                        if s.len() as u64 == v {
                            at.push((i, j, 1));
                        }
                        if let (Ok(x), Ok(_)) = (u8::try_from(v), u8::try_from(k)) {
                            if x < 128 && s.as_bytes().contains(&x) {
                                at.push((i, j, 2));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if at.is_empty() {
            return;
        }
        let (i, p, w) = at[self.below(at.len())];
        match slots.into_iter().nth(i).unwrap() {
            Slot::U8(x) => *x = k as u8,
            Slot::U16(x) => *x = k as u16,
            Slot::U32(x) => *x = k as u32,
            Slot::U64(x) => *x = k,
            Slot::Bool(_) => {}
            Slot::Ver(x) if p == 0 => x.0 = (k as u8).max(x.0.min(2)),
            Slot::Ver(x) => x.1 = k as u8,
            Slot::Bytes(b, max) if w == 0 => {
                let n = if b.len() as u64 == v {
                    k
                } else {
                    k.saturating_sub(4)
                };
                b.resize((n as usize).min(max), 0);
            }
            Slot::Bytes(b, _) => b[p..p + w].copy_from_slice(&k.to_le_bytes()[..w]),
            Slot::Strings(l) => match w {
                0 => {
                    let n = (k as usize).min(300);
                    l.truncate(n);
                    while l.len() < n {
                        l.push(format!("s{}", l.len()));
                    }
                }
                1 => {
                    let n = (k as usize).clamp(1, 5000);
                    let c = l[p].chars().next().unwrap_or('x');
                    let mut t: String = l[p].chars().take(n).collect();
                    while t.len() < n {
                        t.push(if c.is_ascii() { c } else { 'x' });
                    }
                    l[p] = t;
                }
                _ => {
                    let (from, to) = (v as u8 as char, k as u8 as char);
                    if to != '\0' && to.is_ascii() {
                        l[p] = l[p].replacen(from, &to.to_string(), 1);
                    }
                }
            },
        }
    }
    fn mutate<C: Slots>(&mut self, c: &mut C) {
        for _ in 0..1 << self.below(4) {
            match self.below(10) {
                0 => c.shape(self),
                1..=4 => {
                    let mut slots = vec![];
                    c.slots(&mut slots);
                    if !self.spans.is_empty() && self.below(4) == 0 {
                        self.substitute_span(slots);
                    } else {
                        self.substitute(slots);
                    }
                }
                _ => {
                    let mut slots = vec![];
                    c.slots(&mut slots);
                    if !slots.is_empty() {
                        let i = self.below(slots.len());
                        self.change(slots.swap_remove(i));
                    }
                }
            }
        }
        c.mend(self);
    }
}

/// Numbers and texts that stand in the code under test: things to try, no more.
struct Hints {
    numbers: Vec<u64>,
    texts: Vec<String>,
    /// those of them that are not descriptions
    terms: Vec<String>,
    bytes: Vec<Vec<u8>>,
}
impl Hints {
    fn text(&self, k: u64) -> &str {
        let from = if k & 1 == 0 || self.terms.is_empty() {
            &self.texts
        } else {
            &self.terms
        };
        &from[(k >> 1) as usize % from.len()]
    }
}
/// some text that may mean something to the code
pub fn some_text(k: u64) -> &'static str {
    hints().text(k)
}
/// some number that may
pub fn some_number(k: u64) -> u64 {
    let n = &hints().numbers;
    n[k as usize % n.len()]
}
fn hints() -> &'static Hints {
    static H: OnceLock<Hints> = OnceLock::new();
    H.get_or_init(|| {
        let mut numbers: Vec<u64> = vec![
            0,
            1,
            0xFF,
            0x7FFF,
            0x8000,
            0xFFFE,
            0xFFFF,
            0x7FFF_FFFF,
            0x8000_0000,
            0xFFFF_FFFF,
            u64::MAX,
        ];
        let mut texts: Vec<String> = [
            "Not Specified",
            "None",
            "Unknown",
            "Default string",
            " ",
            "x",
            "N/A",
            "0",
            "\u{e9}",
        ]
        .map(String::from)
        .to_vec();
        let (mut bytes, mut terms) = (vec![], vec![]);
        let mut files = vec![];
        collect(std::path::Path::new("/repo/src"), &mut files);
        files.sort();
        for f in files {
            if let Ok(s) = std::fs::read_to_string(&f) {
                let s = s.split("#[cfg(test)]").next().unwrap();
                literals(s, &mut numbers, &mut texts, &mut terms);
                arrays(s, &mut bytes);
            }
        }
        numbers.sort();
        numbers.dedup();
        texts.sort();
        texts.dedup();
        terms.sort();
        terms.dedup();
        bytes.sort();
        bytes.dedup();
        Hints {
            numbers,
            texts,
            terms,
            bytes,
        }
    })
}
fn collect(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            collect(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p);
        }
    }
}
fn number(w: &str) -> Option<u64> {
    if !w.starts_with(|c: char| c.is_ascii_digit()) {
        return None;
    }
    let w: String = w.chars().filter(|c| *c != '_').collect();
    let w = ["usize", "u128", "u64", "u32", "u16", "u8", "i32", "i64"]
        .iter()
        .find_map(|t| w.strip_suffix(t))
        .unwrap_or(&w);
    if let Some(h) = w.strip_prefix("0x") {
        u64::from_str_radix(h, 16).ok()
    } else if let Some(b) = w.strip_prefix("0b") {
        u64::from_str_radix(b, 2).ok()
    } else {
        w.parse().ok()
    }
}
/// lists of bytes
fn arrays(src: &str, out: &mut Vec<Vec<u8>>) {
    for part in src.split('[').skip(1) {
        let Some((list, _)) = part.split_once(']') else {
            continue;
        };
        let items: Option<Vec<u8>> = list
            .trim()
            .trim_end_matches(',')
            .split(',')
            .map(|w| number(w.trim()).and_then(|v| u8::try_from(v).ok()))
            .collect();
        out.extend(items.filter(|v| (2..=64).contains(&v.len())));
    }
}
fn literals(src: &str, numbers: &mut Vec<u64>, texts: &mut Vec<String>, terms: &mut Vec<String>) {
    for line in src.lines() {
        let line = line.trim();
        if line.starts_with("//") {
            continue;
        }
        let description = line.starts_with(['"', '#']) || line.contains("write!(");
        for (i, part) in line.split('"').enumerate() {
            if i % 2 == 1 {
                if !part.is_empty() && part.len() < 60 && !part.contains(['{', '\\', '\0']) {
                    texts.push(part.into());
                    if !description {
                        terms.push(part.into());
                    }
                }
                continue;
            }
            for w in part.split(|c: char| !c.is_ascii_alphanumeric() && c != '_') {
                numbers.extend(number(w));
            }
        }
    }
}

// --- shrinking ----------------------------------------------------------------

/// The j-th way to make a slot simpler; false: none.
fn simpler(s: Slot, j: usize) -> bool {
    macro_rules! num {
        ($x:expr) => {{
            let old = *$x;
            *$x = match j {
                0 => 0,
                1 => old / 2,
                2 => old.saturating_sub(1),
                _ => return false,
            };
            *$x != old || j < 2
        }};
    }
    match s {
        Slot::U8(x) => num!(x),
        Slot::U16(x) => num!(x),
        Slot::U32(x) => num!(x),
        Slot::U64(x) => num!(x),
        Slot::Bool(x) => j == 0 && std::mem::replace(x, false),
        Slot::Ver(_) => false,
        Slot::Bytes(b, _) => {
            let n = b.len();
            match j {
                0 => b.truncate(n / 2),
                1 => b.truncate(n - n / 4),
                2 => b.truncate(n.saturating_sub(1)),
                3 => b.fill(0),
                _ if j - 4 < n => b[j - 4] = 0,
                _ if j - 4 - n < n => {
                    b.remove(j - 4 - n);
                }
                _ => return false,
            }
            true
        }
        Slot::Strings(v) => {
            let n = v.len();
            match j {
                0 => v.clear(),
                1 => v.truncate(n / 2),
                2 => v.truncate(n.saturating_sub(1)),
                _ if (j - 3) / 4 < n => {
                    let i = (j - 3) / 4;
                    let k = v[i].chars().count();
                    match (j - 3) % 4 {
                        0 => v[i] = "x".into(),
                        1 => v[i] = v[i].chars().take((k / 2).max(1)).collect(),
                        2 => v[i] = v[i].chars().take((k - 1).max(1)).collect(),
                        _ => {
                            v.remove(i);
                        }
                    }
                }
                _ => return false,
            }
            true
        }
    }
}
const SHRINKS: usize = 20_000;

fn shrink<C: Slots + PartialEqJson>(
    mut c: C,
    mut message: String,
    fails: impl Fn(&C) -> Option<String>,
) -> (C, String) {
    let mut left = SHRINKS;
    let started = std::time::Instant::now();
    'again: while left > 0 && started.elapsed().as_secs() < 60 {
        let mut try_it = |t: C, c: &mut C| {
            if left == 0 || t.json() == c.json() {
                return false;
            }
            left -= 1;
            if let Some(m) = fails(&t) {
                *c = t;
                message = m;
                return true;
            }
            false
        };
        let mut i = 0;
        loop {
            let mut t = c.clone();
            if !t.fewer(i) {
                break;
            }
            if try_it(t, &mut c) {
                continue 'again;
            }
            i += 1;
        }
        let mut i = 0;
        loop {
            let mut j = 0;
            let mut any = false;
            loop {
                let mut t = c.clone();
                let mut slots = vec![];
                t.slots(&mut slots);
                if i >= slots.len() {
                    break;
                }
                any = true;
                if !simpler(slots.swap_remove(i), j) {
                    break;
                }
                if try_it(t, &mut c) {
                    continue 'again;
                }
                j += 1;
            }
            if !any {
                break;
            }
            i += 1;
        }
        break;
    }
    (c, message)
}
pub trait PartialEqJson {
    fn json(&self) -> String;
}
impl<T: Serialize> PartialEqJson for T {
    fn json(&self) -> String {
        serde_json::to_string(self).unwrap()
    }
}

// --- the loop -----------------------------------------------------------------

struct Seen(Vec<u64>);
impl Seen {
    /// is it new?
    fn add(&mut self, f: u64) -> bool {
        let h = mix(f) as usize % (self.0.len() * 64);
        let (w, b) = (h / 64, 1 << (h % 64));
        let new = self.0[w] & b == 0;
        self.0[w] |= b;
        new
    }
}
const KEPT: usize = 4000;

/// branches a case may take on average (or twice what fresh ones take)
const FAIR: u64 = 4000;

pub fn guided<C>(
    name: &'static str,
    rule: &'static str,
    cases: (u32, u32),
    strategy: fn() -> BoxedStrategy<C>,
    check: Check<C>,
) -> Part
where
    C: Slots + std::fmt::Debug + Serialize + DeserializeOwned + Hash + 'static,
{
    Part {
        name,
        rule,
        exhaustive: false,
        guided: true,
        shard: Box::new(move |prop, shard, mode, progress| {
            run_shard(name, cases, strategy, check, prop, shard, mode, progress)
        }),
        replay: Box::new(move |v| {
            let c: C =
                serde_json::from_value(v.clone()).map_err(|e| format!("unreadable case: {e}"))?;
            run::isolated(check, &c)
        }),
    }
}

#[allow(clippy::too_many_arguments)]
fn run_shard<C>(
    name: &str,
    cases: (u32, u32),
    strategy: fn() -> BoxedStrategy<C>,
    check: Check<C>,
    prop: &str,
    shard: u64,
    mode: Mode,
    progress: &dyn Fn(u64),
) -> (Stats, Option<Failure>)
where
    C: Slots + std::fmt::Debug + Serialize + DeserializeOwned + Hash + 'static,
{
    let n = if mode.thorough { cases.1 } else { cases.0 };
    let n = run::draft().map_or(n, |d| (n as f64 * d.scale) as u32) as u64 / SHARDS + 1;
    let seed = run::seed(mode.seed, prop, name, shard);
    let mut fresh = TestRunner::new_with_rng(
        Config::default(),
        TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
    );
    let strategy = strategy();
    let mut m = Mutator {
        state: u64::from_le_bytes(seed[..8].try_into().unwrap()),
        cmps: vec![],
        spans: vec![],
        consts: vec![],
        snippets: vec![],
    };
    let mut seen = Seen(vec![0; 1 << 15]);
    let mut kept: Vec<(C, Vec<Cmp>, u64, Vec<Span>)> = vec![];
    let mut st = Stats::default();
    let (mut work, mut fair) = (0, FAIR);
    let mut have_const = std::collections::HashSet::new();
    for i in 0..n {
        if run::stopped() {
            break;
        }
        if run::time_is_up(mode) {
            st.left_out = n - i;
            break;
        }
        progress(i);
        let c = if kept.is_empty() || i < 200 || m.below(16) == 0 {
            match strategy.new_tree(&mut fresh) {
                Ok(t) => t.current(),
                Err(e) => panic!("generator gave up: {e}"),
            }
        } else {
            let k = kept.len();
            let mut pick = || {
                if m.below(2) == 0 {
                    k - 1 - m.below(k.min(24))
                } else {
                    m.below(k)
                }
            };
            // the cheapest of some, of many where the shard has done a lot
            let tries = if work > (i + 100) * fair { 12 } else { 2 };
            let mut p = pick();
            for _ in 0..tries {
                let q = pick();
                if kept[q].2 < kept[p].2 {
                    p = q;
                }
            }
            if m.below(8) == 0 && tries == 2 {
                p = m.below(k);
            }
            m.cmps.clone_from(&kept[p].1);
            m.spans.clone_from(&kept[p].3);
            let mut c = kept[p].0.clone();
            m.mutate(&mut c);
            c
        };
        let mut cx = Cx::default();
        let fails = |c: &C| {
            if mode.isolate_from.is_some() {
                run::isolated(check, c).err()
            } else {
                run::eval(check, c, &mut Cx::default()).err()
            }
        };
        if let Some(from) = mode.isolate_from {
            if i >= from {
                if let Err(message) = run::isolated(check, &c) {
                    let (c, message) = shrink(c, message, fails);
                    return (
                        st,
                        Some(Failure {
                            case: serde_json::to_value(&c).unwrap(),
                            message,
                        }),
                    );
                }
                if i >= from + run::ISOLATED {
                    break;
                }
            }
        }
        let mut new = false;
        let (mut cmps, mut spans) = (vec![], vec![]);
        let mut cost = 0;
        let r = traced(
            || run::eval(check, &c, &mut cx),
            |t| {
                cost = t.work;
                t.features(|f| new |= seen.add(f));
                if new {
                    st.edges.extend(t.edges());
                    t.cmps.sort_unstable();
                    t.cmps.dedup();
                    t.cmps.retain(|(_, k, v)| k != v);
                    cmps.clone_from(&t.cmps);
                    spans.clone_from(&t.spans);
                }
            },
        );
        work += cost;
        if i + 1 == 200 {
            fair = (work / 100).max(FAIR);
        }
        run::tally(&mut st, &c, &cx);
        if let Err(message) = r {
            let (c, message) = if run::draft().is_some() {
                (c, message)
            } else {
                shrink(c, message, fails)
            };
            return (
                st,
                Some(Failure {
                    case: serde_json::to_value(&c).unwrap(),
                    message,
                }),
            );
        }
        if new {
            for (_, k, _) in &cmps {
                if *k > 1 && have_const.len() < 20_000 && have_const.insert(*k) {
                    m.consts.push(*k);
                }
            }
            // all of a few, or every n-th of many
            let step = cmps.len() / 200 + 1;
            let cmps: Vec<Cmp> = cmps.into_iter().step_by(step).collect();
            let mut copy = c.clone();
            let mut slots = vec![];
            copy.slots(&mut slots);
            for s in slots {
                if let Slot::Bytes(b, _) = s {
                    if !b.is_empty() && b.len() < 2000 {
                        if m.snippets.len() < 200 {
                            m.snippets.push(b.clone());
                        } else {
                            let at = m.below(200);
                            m.snippets[at] = b.clone();
                        }
                    }
                }
            }
            if kept.len() < KEPT {
                kept.push((c, cmps, cost, spans));
            } else {
                let at = m.below(KEPT);
                kept[at] = (c, cmps, cost, spans);
            }
        }
    }
    st.kept += kept.len() as u64;
    (st, None)
}
