//! Building SMBIOS tables: structures, string sets, entry points.

use crate::obs::{item, Item};
use dmidecode::{EntryPoint, EntryPointV2};
use serde::{Deserialize, Serialize};

pub type Ver = (u8, u8);

pub mod hexbytes {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&crate::obs::hex(v))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        let s = String::deserialize(d)?;
        (0..s.len() / 2)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(serde::de::Error::custom))
            .collect()
    }
}

/// One structure: type number, handle, formatted section behind the header, strings.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Raw {
    pub kind: u8,
    pub handle: u16,
    #[serde(with = "hexbytes")]
    pub data: Vec<u8>,
    pub strings: Vec<String>,
}

impl Raw {
    /// total formatted length, header included
    pub fn len(&self) -> usize {
        self.data.len() + 4
    }
    pub fn is_empty(&self) -> bool {
        false
    }
    pub fn encode_into(&self, out: &mut Vec<u8>) {
        assert!(self.data.len() <= 251);
        out.push(self.kind);
        out.push(self.len() as u8);
        out.extend_from_slice(&self.handle.to_le_bytes());
        out.extend_from_slice(&self.data);
        for s in &self.strings {
            debug_assert!(!s.is_empty() && !s.contains('\0'));
            out.extend_from_slice(s.as_bytes());
            out.push(0);
        }
        if self.strings.is_empty() {
            out.push(0);
        }
        out.push(0);
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut v = vec![];
        self.encode_into(&mut v);
        v
    }
    /// value at a specification offset, if all its bytes are in the section
    pub fn bytes(&self, off: usize, size: usize) -> Option<&[u8]> {
        let s = off.checked_sub(4)?;
        self.data.get(s..s.checked_add(size)?)
    }
    pub fn u(&self, off: usize, size: usize) -> Option<u128> {
        self.bytes(off, size)
            .map(|b| b.iter().rev().fold(0u128, |a, x| (a << 8) | *x as u128))
    }
}

pub fn encode_all(rs: &[Raw]) -> Vec<u8> {
    let mut v = vec![];
    for r in rs {
        r.encode_into(&mut v);
    }
    v
}

/// What the other fields of an entry point say, which a walk has no use for: each of
/// them nothing, something small, the most, or anything.
struct Noise(u64);
impl Noise {
    fn new(ver: Ver, declared: u32) -> Noise {
        let seed = (ver.0 as u64) << 40 | (ver.1 as u64) << 32 | declared as u64;
        Noise(seed ^ 0x5EED << 48)
    }
    fn field(&mut self) -> u32 {
        self.0 = crate::trace::mix(self.0.wrapping_add(0x9E37_79B9_7F4A_7C15));
        let v = self.0 as u32;
        match self.0 >> 60 {
            0..=5 => 0,
            6..=9 => v % 8,
            10 => u32::MAX,
            _ => v,
        }
    }
}

pub fn ep_v2(ver: Ver, declared: u16) -> EntryPoint {
    let mut n = Noise::new(ver, declared as u32);
    EntryPoint::V2(EntryPointV2 {
        signature: u32::from_le_bytes(*b"_SM_"),
        checksum: n.field() as u8,
        len: 0x1F,
        major: ver.0,
        minor: ver.1,
        struct_max: n.field() as u16,
        revision: n.field() as u8,
        formatted: [0; 5].map(|_| n.field() as u8),
        dmi_signature: *b"_DMI_",
        dmi_checksum: n.field() as u8,
        smbios_len: declared,
        smbios_address: n.field(),
        smbios_count: n.field() as u16,
        bcd_revision: n.field() as u8,
    })
}

pub fn fix_checksum(b: &mut [u8], at: usize, len: usize) {
    b[at] = 0;
    let s = b[..len].iter().fold(0u8, |a, x| a.wrapping_add(*x));
    b[at] = s.wrapping_neg();
}

pub fn ep_v3_bytes(ver: Ver, declared: u32) -> Vec<u8> {
    let mut b = b"_SM3_\0\x18".to_vec();
    let mut n = Noise::new(ver, declared);
    b.extend_from_slice(&[ver.0, ver.1]);
    b.extend([0; 3].map(|_| n.field() as u8));
    b.extend_from_slice(&declared.to_le_bytes());
    b.extend_from_slice(&n.field().to_le_bytes());
    b.extend_from_slice(&n.field().to_le_bytes());
    fix_checksum(&mut b, 5, 0x18);
    b
}

/// An entry point declaring a version and a table length. The 32-bit kind is
/// put together from its public fields, the 64-bit one has to be searched.
pub fn entry(ver: Ver, declared: u32, v3: bool) -> Result<EntryPoint, String> {
    if !v3 && declared <= 0xFFFF {
        return Ok(ep_v2(ver, declared as u16));
    }
    let b = ep_v3_bytes(ver, declared);
    EntryPoint::search(&b).map_err(|e| format!("a valid 64-bit entry point is rejected: {e}"))
}

/// Upper bound of items of a walk: each takes at least six bytes, plus one error.
pub fn max_items(buf: &[u8]) -> usize {
    buf.len() / 6 + 1
}

/// Walk to the end; an error string if the walk does not end in time.
pub fn walk(ep: &EntryPoint, buf: &[u8]) -> Result<Vec<Item>, String> {
    let mut v = vec![];
    let limit = max_items(buf);
    let mut it = ep.structures(buf);
    loop {
        match it.next() {
            None => break,
            Some(r) => v.push(item(&r)),
        }
        if v.len() > limit {
            return Err(format!(
                "walk yields more than {limit} items from {} bytes",
                buf.len()
            ));
        }
    }
    for _ in 0..3 {
        if it.next().is_some() {
            return Err("walk yields an item after it has ended".into());
        }
    }
    Ok(v)
}

/// Decode one well-framed structure standing alone.
pub fn decode_one(ver: Ver, raw: &Raw) -> Result<Item, String> {
    decode_frame(ver, &raw.encode())
}

/// The same from its bytes. Where it lies in memory varies with its handle.
pub fn decode_frame(ver: Ver, frame: &[u8]) -> Result<Item, String> {
    let shift = frame.get(2).map_or(0, |b| *b as usize & 7);
    let mut mem = vec![0x5A; shift];
    mem.extend_from_slice(frame);
    let buf = &mem[shift..];
    let ep = entry(ver, buf.len() as u32, buf.len() > 0xFFFF)?;
    let mut v = walk(&ep, buf)?;
    if v.len() != 1 {
        return Err(format!("one structure gives {} items", v.len()));
    }
    Ok(v.pop().unwrap())
}
