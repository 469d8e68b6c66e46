//! What the code under test did: branches taken and numbers compared. Filled by
//! the compiler's instrumentation where the build asks for it (see trace.sh),
//! empty elsewhere.

use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicU32, Ordering};

/// a comparison: width in bytes, the constant (or one side), the other side
pub type Cmp = (u8, u64, u64);
/// one side and the other, of the same length
pub type Span = (Vec<u8>, Vec<u8>);

const EDGES: usize = 1 << 16;
const CMPS: usize = 1 << 12;

#[derive(Default)]
pub struct Trace {
    hits: Vec<u8>,
    touched: Vec<u32>,
    pub cmps: Vec<Cmp>,
    /// stretches of bytes that were compared and differ
    pub spans: Vec<Span>,
    /// those with a constant: its hash, and how many bits are off
    close: Vec<u64>,
    /// branches taken, all together
    pub work: u64,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static TRACE: UnsafeCell<Trace> = const { UnsafeCell::new(Trace { hits: vec![], touched: vec![], cmps: vec![], spans: vec![], close: vec![], work: 0 }) };
}
static GUARDS: AtomicU32 = AtomicU32::new(0);

/// number of branches in the code under test; none: it is not instrumented
pub fn edges() -> u32 {
    GUARDS.load(Ordering::SeqCst)
}

/// Run something and look at what it did.
pub fn traced<T>(f: impl FnOnce() -> T, look: impl FnOnce(&mut Trace)) -> T {
    TRACE.with(|t| {
        let t = unsafe { &mut *t.get() };
        t.hits.resize(EDGES, 0);
        for i in t.touched.drain(..) {
            t.hits[i as usize] = 0;
        }
        t.cmps.clear();
        t.spans.clear();
        t.close.clear();
        t.work = 0;
    });
    ON.set(true);
    let r = f();
    ON.set(false);
    TRACE.with(|t| look(unsafe { &mut *t.get() }));
    r
}

impl Trace {
    pub fn edges(&self) -> &[u32] {
        &self.touched
    }
    /// Branches with how often roughly, constants with how close.
    pub fn features(&self, mut f: impl FnMut(u64)) {
        for e in &self.touched {
            let n = match self.hits[*e as usize] {
                n @ 0..=3 => n,
                4..=7 => 4,
                8..=15 => 5,
                16..=31 => 6,
                32..=127 => 7,
                _ => 8,
            };
            f((*e as u64) << 8 | n as u64);
        }
        self.close.iter().for_each(|x| f(*x));
    }
}
pub fn mix(v: u64) -> u64 {
    let v = (v ^ v >> 31).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let v = (v ^ v >> 29).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    v ^ v >> 32
}

/// Addresses differ from run to run.
fn address(v: u64) -> bool {
    matches!(v >> 40, 0x55..=0x57 | 0x7A..=0x7F)
}
fn compared(fixed: bool, size: u8, k: u64, v: u64) {
    if !ON.get() || address(v) || address(k) {
        return;
    }
    TRACE.with(|t| {
        let t = unsafe { &mut *t.get() };
        if t.cmps.len() < CMPS {
            t.cmps.push((size, k, v));
            if fixed && size > 1 && k > 0xFF {
                t.close
                    .push(1 << 40 | mix(k) >> 24 << 8 | (k ^ v).count_ones() as u64);
            }
        }
    })
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, end: *mut u32) {
    let mut p = start;
    while p < end {
        if *p == 0 {
            *p = GUARDS.fetch_add(1, Ordering::SeqCst) % (EDGES as u32 - 1) + 1;
        }
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if !ON.get() {
        return;
    }
    let g = *guard;
    TRACE.with(|t| {
        let t = &mut *t.get();
        t.work += 1;
        let h = &mut t.hits[g as usize];
        if *h == 0 {
            t.touched.push(g);
        }
        *h = h.saturating_add(1);
    })
}
macro_rules! callbacks {
    ($($name:ident $t:ty;)*) => {
        $(#[no_mangle]
        pub extern "C" fn $name(a: $t, b: $t) {
            compared(true, std::mem::size_of::<$t>() as u8, a as u64, b as u64)
        })*
    };
}
callbacks! {
    __sanitizer_cov_trace_const_cmp1 u8;
    __sanitizer_cov_trace_const_cmp2 u16;
    __sanitizer_cov_trace_const_cmp4 u32;
    __sanitizer_cov_trace_const_cmp8 u64;
}
macro_rules! both {
    ($($name:ident $t:ty;)*) => {
        $(#[no_mangle]
        pub extern "C" fn $name(a: $t, b: $t) {
            let n = std::mem::size_of::<$t>() as u8;
            compared(false, n, a as u64, b as u64);
            compared(false, n, b as u64, a as u64)
        })*
    };
}
both! {
    __sanitizer_cov_trace_cmp1 u8;
    __sanitizer_cov_trace_cmp2 u16;
    __sanitizer_cov_trace_cmp4 u32;
    __sanitizer_cov_trace_cmp8 u64;
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    if !ON.get() {
        return;
    }
    let (n, bits) = (*cases, *cases.add(1));
    // bytes are tried out anyway
    if bits > 8 || n <= 24 {
        for i in 0..n.min(64) {
            compared(true, (bits / 8).max(1) as u8, *cases.add(2 + i as usize), v);
        }
    }
}

/// The comparisons of slices and strings, which the code leaves to the C library.
#[cfg(dmiverif_traced)]
mod spans {
    use super::{ON, TRACE};
    use std::ffi::c_void;

    const SPANS: usize = 64;

    #[inline(always)]
    unsafe fn compare(a: *const u8, b: *const u8, n: usize) -> i32 {
        let mut i = 0;
        while i + 8 <= n {
            let x = (a.add(i) as *const u64).read_unaligned();
            let y = std::ptr::read_volatile(&(b.add(i) as *const u64).read_unaligned());
            if x != y {
                break;
            }
            i += 8;
        }
        while i < n {
            let (x, y) = (std::ptr::read_volatile(a.add(i)), *b.add(i));
            if x != y {
                differ(a, b, n);
                return x as i32 - y as i32;
            }
            i += 1;
        }
        0
    }
    #[inline(never)]
    unsafe fn differ(a: *const u8, b: *const u8, n: usize) {
        if !(2..=64).contains(&n) || !ON.get() {
            return;
        }
        // what is done here compares nothing that way
        ON.set(false);
        TRACE.with(|t| {
            let t = &mut *t.get();
            let known = |(x, y): &super::Span| {
                x.len() == n && (0..n).all(|i| x[i] == *a.add(i) && y[i] == *b.add(i))
            };
            if t.spans.len() < SPANS && !t.spans.iter().any(known) {
                let take = |p: *const u8| (0..n).map(|i| *p.add(i)).collect();
                t.spans.push((take(a), take(b)));
            }
        });
        ON.set(true);
    }
    #[no_mangle]
    pub unsafe extern "C" fn memcmp(a: *const c_void, b: *const c_void, n: usize) -> i32 {
        compare(a as *const u8, b as *const u8, n)
    }
    #[no_mangle]
    pub unsafe extern "C" fn bcmp(a: *const c_void, b: *const c_void, n: usize) -> i32 {
        compare(a as *const u8, b as *const u8, n)
    }
}
