//! Buffers past 4 GiB: a table whose first structure has strings up to there,
//! and an image whose entry point lies there. All but the two ends is one piece
//! of memory mapped again and again.

use super::entry::{observe, reference, Image};
use super::walks::{frames_in, Frame};
use crate::raw::{entry, hexbytes, Ver};
use crate::run::{random, Cx, Part};
use dmidecode::{EntryPoint, MalformedStructureError, Structure};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering;
use std::sync::{Condvar, Mutex, OnceLock};
use std::time::Instant;

const PIECE: usize = 64 << 20;
const END: usize = 1 << 16;
pub const GIB4: usize = 1 << 32;

/// `len` bytes, all `fill` but for the first and last 64 KiB, which are zero
struct Memory {
    base: *mut u8,
    mapped: usize,
}
impl Memory {
    fn new(fill: u8, len: usize) -> Option<Memory> {
        let mapped = len.next_multiple_of(4096);
        unsafe {
            let anon = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE;
            let rw = libc::PROT_READ | libc::PROT_WRITE;
            let p = libc::mmap(std::ptr::null_mut(), mapped, libc::PROT_NONE, anon, -1, 0);
            if p == libc::MAP_FAILED {
                return None;
            }
            let m = Memory {
                base: p as *mut u8,
                mapped,
            };
            let fd = libc::memfd_create(c"fill".as_ptr(), 0);
            if fd < 0 || libc::ftruncate(fd, PIECE as i64) != 0 {
                libc::close(fd);
                return None;
            }
            let mut at = 0;
            while at < mapped {
                let n = PIECE.min(mapped - at);
                let q = libc::mmap(
                    m.base.add(at) as *mut _,
                    n,
                    rw,
                    libc::MAP_SHARED | libc::MAP_FIXED,
                    fd,
                    0,
                );
                if q == libc::MAP_FAILED {
                    libc::close(fd);
                    return None;
                }
                if at == 0 {
                    std::slice::from_raw_parts_mut(m.base, PIECE).fill(fill);
                }
                at += n;
            }
            libc::close(fd);
            for (from, n) in [(0, END), (mapped - 2 * END, 2 * END)] {
                let q = libc::mmap(
                    m.base.add(from) as *mut _,
                    n,
                    rw,
                    anon | libc::MAP_FIXED,
                    -1,
                    0,
                );
                if q == libc::MAP_FAILED {
                    return None;
                }
                std::slice::from_raw_parts_mut(m.base.add(from), n).fill(fill);
            }
            Some(m)
        }
    }
    fn put(&mut self, at: usize, b: &[u8]) {
        let ends = at + b.len() <= END || at >= self.mapped - 2 * END;
        assert!(ends && at + b.len() <= self.mapped);
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.base.add(at), b.len()) }
    }
    fn bytes(&self, len: usize) -> &[u8] {
        assert!(len <= self.mapped);
        unsafe { std::slice::from_raw_parts(self.base, len) }
    }
}
impl Drop for Memory {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.base as *mut _, self.mapped) };
    }
}

/// No more than two at a time: their pages count again each time they are mapped.
/// None once the time is up, which depends on how fast the code goes through 4 GiB.
fn in_turn(cx: &mut Cx, f: impl FnOnce(&mut Cx) -> Result<(), String>) -> Result<(), String> {
    static BEGUN: OnceLock<Instant> = OnceLock::new();
    let begun = *BEGUN.get_or_init(Instant::now);
    crate::run::slow();
    static FREE: (Mutex<u8>, Condvar) = (Mutex::new(2), Condvar::new());
    struct Turn;
    impl Drop for Turn {
        fn drop(&mut self) {
            *FREE.0.lock().unwrap_or_else(|e| e.into_inner()) += 1;
            FREE.1.notify_one();
        }
    }
    let lock = FREE.0.lock().unwrap_or_else(|e| e.into_inner());
    *FREE
        .1
        .wait_while(lock, |n| *n == 0)
        .unwrap_or_else(|e| e.into_inner()) -= 1;
    let _turn = Turn;
    let time = if crate::run::THOROUGH.load(Ordering::SeqCst) {
        1500
    } else {
        60
    };
    if begun.elapsed().as_secs() > time {
        cx.label("left out for time");
        return Ok(());
    }
    f(cx)
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Giant {
    ver: Ver,
    kind: u8,
    section: u8,
    /// what follows the giant string, from this far before (or behind) 4 GiB on
    from: i64,
    #[serde(with = "hexbytes")]
    tail: Vec<u8>,
    /// buffer and declared length, relative to 4 GiB
    len: i64,
    declared: u32,
}
fn giant() -> BoxedStrategy<Giant> {
    let piece = prop_oneof![
        4 => (any::<u8>(), 0u8..6).prop_map(|(k, n)| {
            // a small structure
            let mut v = vec![k, 4 + n, k, n];
            v.extend(vec![k; n as usize]);
            v.extend([b'y', 0, 0]);
            v
        }),
        1 => vec(prop_oneof![Just(0u8), 0u8..12, any::<u8>()], 0..12),
        1 => Just(vec![127, 4, 0, 0, 0, 0]),
    ];
    (
        (
            crate::gen::version(),
            prop_oneof![Just(126u8), 128u8..=255],
            prop_oneof![Just(4u8), 5u8..=255],
        ),
        -40i64..=12,
        vec(piece, 0..8),
        (
            prop_oneof![4 => 60i64..200, 2 => -6i64..8, 1 => Just(0x8000i64)],
            prop_oneof![3 => Just(0u32), 1 => 0u32..40],
        ),
    )
        .prop_map(|((ver, kind, section), from, pieces, (len, less))| {
            let mut tail = vec![0, 0];
            pieces.into_iter().for_each(|p| tail.extend(p));
            Giant {
                ver,
                kind,
                section,
                from,
                tail,
                len,
                declared: u32::MAX - less,
            }
        })
        .boxed()
}
fn at(d: i64) -> usize {
    (GIB4 as i64 + d) as usize
}
/// What an item says about where it comes from.
fn brief(r: &Result<Structure<'_>, MalformedStructureError>) -> String {
    match r {
        Ok(Structure::Other(o)) => {
            format!("{:?} {} {} {:02x?}", o.info, o.length, o.handle, o.data)
        }
        Ok(_) => "decoded".into(),
        Err(MalformedStructureError::BadSize(o, l)) => format!("bad size {o} {l}"),
        Err(MalformedStructureError::UnterminatedStrings(o)) => format!("unterminated {o}"),
        Err(_) => "malformed".into(),
    }
}
fn walk_giant(c: &Giant, cx: &mut Cx) -> Result<(), String> {
    in_turn(cx, |cx| walk_giant_now(c, cx))
}
fn walk_giant_now(c: &Giant, cx: &mut Cx) -> Result<(), String> {
    let size = at(c.len.max(c.from + c.tail.len() as i64)).max(at(END as i64 / 2));
    let Some(mut m) = Memory::new(b'x', size) else {
        cx.label("no memory");
        return Ok(());
    };
    m.put(0, &[c.kind, c.section, 0x34, 0x12]);
    m.put(at(c.from), &c.tail);
    let buf = m.bytes(at(c.len));
    let ep = entry(c.ver, c.declared, true)?;
    // the first terminator is the one put there, or there is none
    let scan_from = at(c.from).min(buf.len());
    let want = frames_in(c.ver.0, c.declared, buf, |from| {
        if from < scan_from {
            scan_from
        } else {
            from
        }
    });
    let mut got = vec![];
    for r in ep.structures(buf) {
        got.push(brief(&r));
        if got.len() > want.len() + 3 {
            break;
        }
    }
    if want.len() > 1 {
        cx.nontrivial();
    }
    if got.len() != want.len() {
        return Err(format!(
            "{} items, expected {}: {got:?}",
            got.len(),
            want.len()
        ));
    }
    for (g, w) in got.iter().zip(&want) {
        let whole = |a: usize| {
            let b = &buf[a..];
            let handle = u16::from_le_bytes([b[2], b[3]]);
            let info = dmidecode::InfoType::from(b[0]);
            // a decoded kind is judged elsewhere
            g == "decoded"
                || g == "malformed"
                || *g == format!("{info:?} {} {handle} {:02x?}", b[1], &b[4..b[1] as usize])
        };
        let ok = match w {
            Frame::Whole(a, _) => whole(*a),
            Frame::Straddles(a, _) => whole(*a) || *g == format!("unterminated {a}"),
            Frame::BadSize(a, l) => *g == format!("bad size {a} {l}"),
            Frame::Unterminated(a) => *g == format!("unterminated {a}"),
        };
        if !ok {
            return Err(format!("{w:?} gives {g}"));
        }
    }
    Ok(())
}

/// An entry point about 4 GiB into an image.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct FarImage {
    paragraphs: i64,
    image: Image,
}
fn far_image() -> BoxedStrategy<FarImage> {
    (prop_oneof![-3i64..4, 0i64..2000], super::entry::single())
        .prop_map(|(paragraphs, image)| FarImage { paragraphs, image })
        .boxed()
}
fn search_giant(c: &FarImage, cx: &mut Cx) -> Result<(), String> {
    in_turn(cx, |cx| search_giant_now(c, cx))
}
fn search_giant_now(c: &FarImage, cx: &mut Cx) -> Result<(), String> {
    let b = super::entry::image_bytes(&c.image);
    let from = at(16 * c.paragraphs);
    let Some(mut m) = Memory::new(0, from + b.len()) else {
        cx.label("no memory");
        return Ok(());
    };
    m.put(from, &b);
    let got = observe(&EntryPoint::search(m.bytes(from + b.len())))?;
    cx.nontrivial();
    let want = reference(&b);
    if want.contains(&got) {
        Ok(())
    } else {
        Err(format!("search gives {got:?}, expected one of {want:?}"))
    }
}

pub fn walks() -> Part {
    random(
        "giant",
        "a table past 4 GiB: one structure whose strings end around there, then small ones and noise; declared length \
         at its maximum; non-trivial: more than one item is due; oracle: reference walk, which also bounds the walk",
        (16, 400),
        giant,
        walk_giant,
    )
}
pub fn search() -> Part {
    random(
        "giant",
        "one entry point, valid or not, some 4 GiB into an image; every case counts; oracle: reference search",
        (8, 200),
        far_image,
        search_giant,
    )
}
