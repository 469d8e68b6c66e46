//! C21: the same outcome in every build. Other builds of this program, with and
//! without the std feature and with and without overflow checks, are asked.

use super::entry::{image_bytes, Image};
use super::robust::{
    any_image, any_mixed, any_soup, any_tables, code_at, code_text, codes, disturbed, Code,
};
use super::walks::{big, big_table, numerous, Big};
use super::Table;
use crate::full::{self, any_entry};
use crate::guided::guided;
use crate::run::{exhaustive, guarded, random, Cx, Part};
use std::cell::RefCell;
use std::io::{BufReader, BufWriter, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// A request, as bytes.
fn table_request(t: &Table) -> Vec<u8> {
    let mut v = vec![0, t.ver.0, t.ver.1, t.v3 as u8];
    v.extend(t.declared.to_le_bytes());
    v.extend(&t.buf);
    v
}
fn search_request(b: &[u8]) -> Vec<u8> {
    let mut v = vec![1];
    v.extend(b);
    v
}
fn code_request(c: &Code) -> Vec<u8> {
    let mut v = vec![2];
    v.extend(c.which.to_le_bytes());
    v.extend(c.value.to_le_bytes());
    v
}

/// Items of a walk or a search, as text; what panics says so.
fn answer(q: &[u8]) -> Vec<String> {
    let r = guarded(|| match q {
        [0, a, b, v3, rest @ ..] => {
            let declared = u32::from_le_bytes(rest[..4].try_into().unwrap());
            Ok(full::table(
                &any_entry((*a, *b), declared, *v3 == 1)?,
                &rest[4..],
            ))
        }
        [1, image @ ..] => {
            let (ep, text) = full::search(image);
            let mut v = vec![text];
            if let Some(ep) = ep {
                v.extend(full::table(&ep, &image[image.len().saturating_sub(600)..]));
            }
            Ok(v)
        }
        [2, rest @ ..] => {
            let which = u32::from_le_bytes(rest[..4].try_into().unwrap());
            let value = u64::from_le_bytes(rest[4..].try_into().unwrap());
            Ok(vec![code_text(&Code { which, value })?])
        }
        _ => Err("no such request".into()),
    });
    r.unwrap_or_else(|_| vec!["PANIC".into()])
}

fn put(w: &mut impl Write, b: &[u8]) -> std::io::Result<()> {
    w.write_all(&(b.len() as u32).to_le_bytes())?;
    w.write_all(b)
}
fn take(r: &mut impl Read) -> std::io::Result<Vec<u8>> {
    let mut n = [0u8; 4];
    r.read_exact(&mut n)?;
    let mut b = vec![0; u32::from_le_bytes(n) as usize];
    r.read_exact(&mut b)?;
    Ok(b)
}
const SPLIT: char = '\u{2}';

/// Answer requests until there are no more.
pub fn serve() {
    let mut i = BufReader::new(std::io::stdin().lock());
    let mut o = BufWriter::new(std::io::stdout().lock());
    while let Ok(q) = take(&mut i) {
        let a = answer(&q).join(&SPLIT.to_string());
        if put(&mut o, a.as_bytes()).and_then(|_| o.flush()).is_err() {
            break;
        }
    }
}

/// Name of the other builds, and where they are: DMIVERIF_BUILDS, or beside this one.
const BUILDS: &[(&str, &str)] = &[
    ("no std, checked", "checked-nostd"),
    ("std, optimised", "shipped-std"),
    ("no std, optimised", "shipped-nostd"),
];

struct Helper {
    child: Child,
    to: BufWriter<ChildStdin>,
    from: BufReader<ChildStdout>,
}
impl Helper {
    fn start(dir: &str) -> Helper {
        let base = std::env::var("DMIVERIF_BUILDS").unwrap_or_else(|_| {
            let me = std::env::current_exe().expect("own path");
            me.ancestors()
                .nth(2)
                .expect("target folder")
                .join("builds")
                .display()
                .to_string()
        });
        let path = format!("{base}/{dir}/dmiverif");
        let mut child = Command::new(&path)
            .arg("serve")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| {
                eprintln!("{path}: {e}");
                std::process::exit(2)
            });
        let to = BufWriter::new(child.stdin.take().unwrap());
        let from = BufReader::new(child.stdout.take().unwrap());
        Helper { child, to, from }
    }
    fn ask(&mut self, q: &[u8]) -> Option<String> {
        put(&mut self.to, q).and_then(|_| self.to.flush()).ok()?;
        String::from_utf8(take(&mut self.from).ok()?).ok()
    }
}
impl Drop for Helper {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static HELPERS: RefCell<(u32, Vec<Option<Helper>>)> = const { RefCell::new((0, vec![])) };
}

fn compare(q: &[u8]) -> Result<Vec<String>, String> {
    let mine = answer(q);
    HELPERS.with(|h| {
        let mut h = h.borrow_mut();
        let me = std::process::id();
        if h.0 != me {
            // after a fork the others' pipes belong to the parent
            for x in h.1.drain(..) {
                std::mem::forget(x);
            }
            h.0 = me;
            h.1.extend(BUILDS.iter().map(|_| None));
        }
        for (i, (name, dir)) in BUILDS.iter().enumerate() {
            let helper = h.1[i].get_or_insert_with(|| Helper::start(dir));
            let Some(theirs) = helper.ask(q) else {
                h.1[i] = None;
                return Err(format!(
                    "the build with {name} ends abruptly, the one with std, checked gives {} items",
                    mine.len()
                ));
            };
            if theirs != mine.join(&SPLIT.to_string()) {
                let theirs: Vec<String> = theirs.split(SPLIT).map(String::from).collect();
                return super::robust::first_difference(
                    &format!("std, checked vs {name}"),
                    &mine,
                    &theirs,
                )
                .map(|_| vec![]);
            }
        }
        Ok(mine.clone())
    })
}

fn table(c: &Table, cx: &mut Cx) -> Result<(), String> {
    let items = compare(&table_request(c))?;
    if !items.is_empty() {
        cx.nontrivial();
    }
    if items == ["PANIC"] {
        cx.label("panics in all builds");
    }
    Ok(())
}
fn large(c: &Big, cx: &mut Cx) -> Result<(), String> {
    table(&big_table(c), cx)
}
fn image(c: &Image, cx: &mut Cx) -> Result<(), String> {
    let items = compare(&search_request(&image_bytes(c)))?;
    if !items[0].starts_with("NotFound") {
        cx.nontrivial();
    }
    Ok(())
}
fn code(c: &Code, cx: &mut Cx) -> Result<(), String> {
    cx.nontrivial();
    compare(&code_request(c)).map(|_| ())
}

pub fn c21() -> Vec<Part> {
    vec![
        random(
            "structures",
            "one structure of a decoded kind, disturbed as for C01, decoded by four builds {std, no std} x {overflow and debug \
             checks, optimised without}; non-trivial: there are items; oracle: all values, errors and texts are the same",
            (60_000, 2_500_000),
            disturbed,
            table,
        ),
        random(
            "tables",
            "the same with damaged tables as for C01",
            (20_000, 800_000),
            any_tables,
            table,
        ),
        random(
            "bytes",
            "the same with up to 160 bytes with many zeros and small numbers",
            (80_000, 3_000_000),
            any_soup,
            table,
        ),
        random(
            "large",
            "the same with tables of up to 240 KB",
            (60, 2_000),
            big,
            large,
        ),
        random(
            "numerous",
            "the same with up to 65540 structures of four to six bytes",
            (24, 800),
            numerous,
            large,
        ),
        random(
            "images",
            "the same with memory images as for C03, searched; non-trivial: an anchor is found",
            (30_000, 1_200_000),
            any_image,
            image,
        ),
        exhaustive(
            "codes",
            "the same with every code of every public conversion and the value ranges of C01; every case counts",
            codes,
            code_at,
            code,
        ),
        guided(
            "guided",
            "tables as in structures, tables and bytes, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for structures",
            (300_000, 10_000_000),
            any_mixed,
            table,
        ),
        guided(
            "guided-images",
            "images as in images, changed step by step towards new branches and comparisons in the code; non-trivial and oracle: as for images",
            (60_000, 2_000_000),
            any_image,
            image,
        ),
    ]
}
