//! Reference decoder: what a well-framed structure denotes under the SMBIOS
//! layouts, written from the specification's tables (offsets include the
//! four-byte header) and independent of how the library reads them.

use crate::obs::{hex, list, n, t, ErrObs, Obs, SEP};
use crate::raw::{Raw, Ver};
use crate::tables;

pub enum Expect {
    Ok(Obs),
    /// The structure is an error; each of these describes a defect it has.
    Err(Vec<ErrObs>),
}

struct M<'a> {
    r: &'a Raw,
    errs: Vec<ErrObs>,
    x: Obs,
}

pub fn info(kind: u8) -> String {
    tables::d("InfoType", kind as u32)
}

fn te(name: &'static str) -> impl Fn(u128) -> String {
    move |c| tables::e(name, c as u32)
}
fn td(name: &'static str) -> impl Fn(u128) -> String {
    move |c| tables::d(name, c as u32)
}
fn hx(v: u128) -> String {
    format!("{v:#x}")
}
fn opt(v: Option<String>) -> String {
    v.unwrap_or_else(|| "-".into())
}

impl<'a> M<'a> {
    fn new(r: &'a Raw, kind: &'static str) -> Self {
        let mut m = M {
            r,
            errs: vec![],
            x: Obs::new(kind),
        };
        m.put("handle", n(r.handle));
        m
    }
    fn put(&mut self, k: &str, v: String) {
        self.x.put(k, v);
    }
    fn len(&self) -> usize {
        self.r.len()
    }
    fn has(&self, total: usize) -> bool {
        self.len() >= total
    }
    fn slice(&mut self) {
        if !self.errs.contains(&ErrObs::Slice) {
            self.errs.push(ErrObs::Slice);
        }
    }
    /// number, there or the structure is an error
    fn u(&mut self, off: usize, size: usize) -> u128 {
        match self.r.u(off, size) {
            Some(v) => v,
            None => {
                self.slice();
                0
            }
        }
    }
    fn uo(&self, off: usize, size: usize) -> Option<u128> {
        self.r.u(off, size)
    }
    fn nth(&self, i: u8) -> Option<&str> {
        match i {
            0 => Some(""),
            i => self.r.strings.get(i as usize - 1).map(|s| s.as_str()),
        }
    }
    fn dangling(&self, i: u8) -> ErrObs {
        ErrObs::StringIndex {
            info: info(self.r.kind),
            handle: self.r.handle,
            index: i,
        }
    }
    /// string, there or the structure is an error
    fn s(&mut self, off: usize) -> String {
        match self.uo(off, 1) {
            None => {
                self.slice();
                String::new()
            }
            Some(i) => self.st(i as u8),
        }
    }
    fn st(&mut self, i: u8) -> String {
        match self.nth(i) {
            Some(s) => t(s),
            None => {
                let e = self.dangling(i);
                self.errs.push(e);
                String::new()
            }
        }
    }
    /// string, absent when its reference is absent, an error when dangling
    fn so(&mut self, off: usize) -> Option<String> {
        self.uo(off, 1).map(|i| self.st(i as u8))
    }
    fn num(&mut self, k: &str, off: usize, size: usize) {
        let v = self.u(off, size);
        self.put(k, n(v));
    }
    fn num_o(&mut self, k: &str, there: bool, off: usize, size: usize) {
        let v = if there { self.uo(off, size) } else { None };
        self.put(k, opt(v.map(n)));
    }
    /// number, absent when equal to the marker
    fn num_f(&mut self, k: &str, off: usize, size: usize, marker: u128) {
        let v = self.uo(off, size).filter(|v| *v != marker);
        self.put(k, opt(v.map(n)));
    }
    fn str(&mut self, k: &str, off: usize) {
        let v = self.s(off);
        self.put(k, v);
    }
    fn str_o(&mut self, k: &str, there: bool, off: usize) {
        let v = if there { self.so(off) } else { None };
        self.put(k, opt(v));
    }
    fn f(&mut self, k: &str, off: usize, size: usize, f: impl Fn(u128) -> String) {
        let v = self.u(off, size);
        self.put(k, f(v));
    }
    fn f_o(&mut self, k: &str, there: bool, off: usize, size: usize, f: impl Fn(u128) -> String) {
        let v = if there { self.uo(off, size) } else { None };
        self.put(k, opt(v.map(f)));
    }
    fn length(&self, spec: &str, len: usize) -> Expect {
        Expect::Err(vec![ErrObs::Length {
            info: info(self.r.kind),
            handle: self.r.handle,
            spec: spec.into(),
            len: len as u8,
        }])
    }
    fn done(self) -> Expect {
        if self.errs.is_empty() {
            Expect::Ok(self.x)
        } else {
            Expect::Err(self.errs)
        }
    }
}

pub fn model(ver: Ver, r: &Raw) -> Expect {
    match r.kind {
        0 => bios(ver, r),
        1 => system(ver, r),
        2 => baseboard(r),
        3 => enclosure(r),
        4 => processor(ver, r),
        7 => cache(ver, r),
        8 => port_connector(r),
        9 => slots(ver, r),
        11 => oem_strings(r),
        12 => config_options(r),
        13 => language(ver, r),
        14 => groups(r),
        15 => event_log(ver, r),
        16 => memory_array(ver, r),
        17 => memory_device(r),
        18 => memory_error(ver, r),
        19 => array_mapped(ver, r),
        20 => device_mapped(ver, r),
        21 => pointing(ver, r),
        22 => battery(ver, r),
        _ => other(ver, r),
    }
}

pub fn rom_bytes(basic: u8, ext: Option<u16>) -> u64 {
    match ext {
        Some(e) if basic == 0xFF => {
            let size = (e & 0x3FFF) as u64;
            match e >> 14 {
                0 => size * (1 << 20),
                1 => size * (1 << 30),
                _ => 16 << 20,
            }
        }
        _ => (basic as u64 + 1) * 65536,
    }
}

fn revision(a: u128, b: u128) -> String {
    if a == 0xFF && b == 0xFF {
        format!("{a}.{b}{SEP}N/A")
    } else {
        format!("{a}.{b}{SEP}{a}.{b}")
    }
}

fn bios(ver: Ver, r: &Raw) -> Expect {
    let mut m = M::new(r, "Bios");
    if !m.has(0x12) {
        return m.length("minimum of ", 0x12);
    }
    m.str("vendor", 0x04);
    m.str("bios_version", 0x05);
    m.num("segment", 0x06, 2);
    m.str("release_date", 0x08);
    m.num("rom_basic", 0x09, 1);
    m.f("characteristics", 0x0A, 8, hx);
    let g24 = ver >= (2, 4) && m.has(0x18);
    let g31 = ver >= (3, 1) && m.has(0x1A);
    m.f_o("ext1", ver >= (2, 1), 0x12, 1, hx);
    m.f_o("ext2", g24, 0x13, 1, hx);
    let rev = |m: &M, off| revision(m.uo(off, 1).unwrap(), m.uo(off + 1, 1).unwrap());
    let (b, f) = if g24 {
        (rev(&m, 0x14), rev(&m, 0x16))
    } else {
        ("-".into(), "-".into())
    };
    m.put("bios_rev", b);
    m.put("fw_rev", f);
    m.num_o("rom_extended", g31, 0x18, 2);
    let ext = if g31 {
        m.uo(0x18, 2).map(|v| v as u16)
    } else {
        None
    };
    let basic = m.u(0x09, 1) as u8;
    m.put("rom#", n(rom_bytes(basic, ext)));
    m.done()
}

fn system(ver: Ver, r: &Raw) -> Expect {
    let mut m = M::new(r, "System");
    if !m.has(0x08) {
        return m.length("minimum of ", 0x08);
    }
    m.str("manufacturer", 0x04);
    m.str("product", 0x05);
    m.str("version", 0x06);
    m.str("serial", 0x07);
    let g21 = ver >= (2, 1) && m.has(0x19);
    let g24 = ver >= (2, 4) && m.has(0x1B);
    let uuid = if g21 {
        let mut b = r.bytes(0x08, 16).unwrap().to_vec();
        if ver >= (2, 6) {
            // the first three groups are little-endian
            b[0..4].reverse();
            b[4..6].reverse();
            b[6..8].reverse();
        }
        hex(&b)
    } else {
        "-".into()
    };
    m.put("uuid", uuid);
    m.f_o("wakeup", g21, 0x18, 1, td("WakeupType"));
    m.str_o("sku", g24, 0x19);
    m.str_o("family", g24, 0x1A);
    m.done()
}

fn baseboard(r: &Raw) -> Expect {
    let mut m = M::new(r, "BaseBoard");
    if !m.has(0x08) {
        return m.length("minimum of ", 0x08);
    }
    m.str("manufacturer", 0x04);
    m.str("product", 0x05);
    m.str("version", 0x06);
    m.str("serial", 0x07);
    m.str_o("asset", true, 0x08);
    m.f_o("flags", true, 0x09, 1, |v| n(v & 0x1F));
    m.str_o("location", true, 0x0A);
    m.num_o("chassis_handle", true, 0x0B, 2);
    m.f_o("board_type", true, 0x0D, 1, te("BoardType"));
    m.done()
}

pub fn element(rec: &[u8]) -> String {
    let at = |i: usize| rec.get(i).copied().unwrap_or(0);
    let ty = at(0);
    let what = if ty & 0x80 == 0 {
        format!("Baseboard type: {}", tables::text("BoardType", ty as u32))
    } else {
        format!(
            "Structure type: {}",
            tables::text("InfoType", (ty & 0x7F) as u32)
        )
    };
    format!("{what} ({}-{})", at(1), at(2))
}

fn enclosure(r: &Raw) -> Expect {
    let mut m = M::new(r, "Enclosure");
    if !m.has(0x09) {
        return m.length("minimum of ", 0x09);
    }
    m.str("manufacturer", 0x04);
    m.f("lock", 0x05, 1, |v| n(v & 0x80 != 0));
    m.f("type", 0x05, 1, |v| {
        tables::e("EnclosureType", v as u32 & 0x7F)
    });
    m.str("version", 0x06);
    m.str("serial", 0x07);
    m.str("asset", 0x08);
    m.f_o("boot_state", true, 0x09, 1, te("State"));
    m.f_o("psu_state", true, 0x0A, 1, te("State"));
    m.f_o("thermal_state", true, 0x0B, 1, te("State"));
    m.f_o("security", true, 0x0C, 1, te("SecurityStatus"));
    m.num_o("oem", true, 0x0D, 4);
    m.num_o("height", true, 0x11, 1);
    m.num_o("cords", true, 0x12, 1);
    let (count, size) = (m.uo(0x13, 1), m.uo(0x14, 1));
    let mut elements = None;
    let mut sku = None;
    if let (Some(c), Some(l)) = (count, size) {
        let (c, l) = (c as usize, l as usize);
        if let Some(b) = r.bytes(0x15, c * l) {
            elements = Some(if l == 0 {
                list(vec![])
            } else {
                list((0..c).map(|i| element(&b[i * l..(i + 1) * l])).collect())
            });
            sku = m.so(0x15 + c * l);
        }
    }
    m.put(
        "elem_count",
        opt(elements.as_ref().map(|_| n(count.unwrap()))),
    );
    m.put("elements", opt(elements));
    m.put("sku", opt(sku));
    m.done()
}

pub fn voltage(v: u8) -> String {
    if v & 0x80 != 0 {
        let x = v & 0x7F;
        let text = format!("Current voltage: {}.{} V", x / 10, x % 10);
        format!("Current({x}){SEP}{text}{SEP}{text}")
    } else if v & 0x78 != 0 {
        let text = format!("Undefined 0b{v:b}");
        format!("Undefined({v}){SEP}{text}{SEP}{text}")
    } else {
        let caps = [("5V0", "5.5V "), ("3V3", "3.3V "), ("2V9", "2.9V ")];
        let set: Vec<_> = (0..3)
            .filter(|i| v >> i & 1 == 1)
            .map(|i| caps[i])
            .collect();
        let names: Vec<_> = set
            .iter()
            .map(|c| format!("VOLTAGE_CAPABILITY_{}", c.0))
            .collect();
        let dbg = if set.is_empty() {
            "0x0".to_string()
        } else {
            names.join(" | ")
        };
        let text = if set.is_empty() {
            "Voltage capability unknown".to_string()
        } else {
            format!(
                "Processor socket accept: {}",
                set.iter().map(|c| c.1).collect::<String>()
            )
        };
        format!("Legacy(VoltageLegacy({dbg})){SEP}{text}{SEP}{text}")
    }
}

fn processor(ver: Ver, r: &Raw) -> Expect {
    let mut m = M::new(r, "Processor");
    if !m.has(0x1A) {
        return m.length("minimum of ", 0x1A);
    }
    let g21 = ver >= (2, 1) && m.has(0x20);
    let g23 = ver >= (2, 3) && m.has(0x23);
    let g25 = ver >= (2, 5) && m.has(0x28);
    let g26 = ver >= (2, 6) && m.has(0x2A);
    let g30 = ver >= (3, 0) && m.has(0x30);
    m.str("socket", 0x04);
    m.f("type", 0x05, 1, td("ProcessorType"));
    let fam = m.u(0x06, 1);
    let fam = if fam == 0xFE && g26 {
        m.u(0x28, 2)
    } else {
        fam
    };
    m.put("family", tables::e("ProcessorFamily", fam as u32));
    m.str("manufacturer", 0x07);
    m.num("id", 0x08, 8);
    m.str("version", 0x10);
    m.f("voltage", 0x11, 1, |v| voltage(v as u8));
    m.num("external_clock", 0x12, 2);
    m.num("max_speed", 0x14, 2);
    m.num("current_speed", 0x16, 2);
    m.f("status", 0x18, 1, |v| n(v & 0x47));
    m.f("upgrade", 0x19, 1, te("ProcessorUpgrade"));
    m.num_o("l1", g21, 0x1A, 2);
    m.num_o("l2", g21, 0x1C, 2);
    m.num_o("l3", g21, 0x1E, 2);
    m.str_o("serial", g23, 0x20);
    m.str_o("asset", g23, 0x21);
    m.str_o("part", g23, 0x22);
    for (i, k) in ["cores", "cores_enabled", "threads"].iter().enumerate() {
        let v = if !g25 {
            None
        } else {
            let small = m.uo(0x23 + i, 1);
            if g30 && small == Some(0xFF) {
                m.uo(0x2A + 2 * i, 2)
            } else {
                small
            }
        };
        m.put(k, opt(v.map(n)));
    }
    m.f_o("characteristics", g25, 0x26, 2, |v| n(v & 0x02FF));
    m.done()
}

pub fn cache_config(v: u16) -> String {
    format!(
        "CacheConfiguration {{ level: {}, socketed: {}, location: {}, enabled_at_boot_time: {}, operational_mode: {} }}",
        tables::d("CacheLevel", v as u32 & 7),
        v >> 3 & 1 == 1,
        tables::d("CacheLocation", v as u32 >> 5 & 3),
        v >> 7 & 1 == 1,
        tables::d("CacheOperationalMode", v as u32 >> 8 & 3),
    )
}
/// size field of the given width in bits
pub fn cache_size(v: u64, bits: u32) -> String {
    let top = 1u64 << (bits - 1);
    let size = v & (top - 1);
    if v & top != 0 {
        format!("Granularity64K({size}){SEP}{}", size * 64 * 1024)
    } else {
        format!("Granularity1K({size}){SEP}{}", size * 1024)
    }
}

fn cache(ver: Ver, r: &Raw) -> Expect {
    let mut m = M::new(r, "Cache");
    if !m.has(0x0F) {
        return m.length("minimum of ", 0x0F);
    }
    let g21 = ver >= (2, 1) && m.has(0x13);
    let g31 = ver >= (3, 1) && m.has(0x1B);
    m.str("socket", 0x04);
    m.f("config", 0x05, 2, |v| cache_config(v as u16));
    m.f("max_size", 0x07, 2, |v| cache_size(v as u64, 16));
    m.f("installed", 0x09, 2, |v| cache_size(v as u64, 16));
    m.f("sram_supported", 0x0B, 2, |v| n(v & 0x7F));
    m.f("sram_current", 0x0D, 2, |v| n(v & 0x7F));
    m.num_o("speed", g21, 0x0F, 1);
    m.f_o("ecc", g21, 0x10, 1, te("CacheErrorCorrectionType"));
    m.f_o("type", g21, 0x11, 1, te("SystemCacheType"));
    m.f_o("assoc", g21, 0x12, 1, te("CacheAssociativity"));
    m.f_o("max_size2", g31, 0x13, 4, |v| cache_size(v as u64, 32));
    m.f_o("installed2", g31, 0x17, 4, |v| cache_size(v as u64, 32));
    m.done()
}

fn port_connector(r: &Raw) -> Expect {
    let mut m = M::new(r, "PortConnector");
    if !m.has(0x09) {
        return m.length("minimum of ", 0x09);
    }
    m.str("int_ref", 0x04);
    m.f("int_type", 0x05, 1, te("ConnectorType"));
    m.str("ext_ref", 0x06);
    m.f("ext_type", 0x07, 1, te("ConnectorType"));
    m.f("port_type", 0x08, 1, te("PortType"));
    m.done()
}

pub fn devfn(v: u8) -> String {
    format!("DeviceAndFunctionNumber({}, {}){SEP}{v}", v >> 3, v & 7)
}
pub fn peer(b: &[u8]) -> String {
    let seg = b[0] as u16 | (b[1] as u16) << 8;
    format!(
        "{seg}/{}/{}/{}{SEP}{seg:04x}:{:02x}:{:02x}.{:x} (Width {}){SEP}{}",
        b[2],
        b[3],
        b[4],
        b[2],
        b[3] >> 3,
        b[3] & 7,
        b[4],
        hex(b)
    )
}
pub fn pitch(v: u16) -> String {
    if v == 0 {
        format!("SlotPitch(0){SEP}Not given or is unknown")
    } else {
        format!("SlotPitch({v}){SEP}{}.{:02} mm", v / 100, v % 100)
    }
}

fn slots(ver: Ver, r: &Raw) -> Expect {
    let mut m = M::new(r, "SystemSlots");
    let exact = match ver {
        (2, 0) => Some(0x0C),
        (2, 1..=5) => Some(0x0D),
        (2, _) | (3, 0) | (3, 1) => Some(0x11),
        _ => None,
    };
    if let Some(l) = exact {
        if m.len() != l {
            return m.length("", l);
        }
    } else if !m.has(0x11) {
        return m.length("minimum of ", 0x11);
    }
    m.str("designation", 0x04);
    m.f("type", 0x05, 1, te("SlotType"));
    m.f("bus_width", 0x06, 1, te("SlotWidth"));
    m.f("usage", 0x07, 1, te("CurrentUsage"));
    m.f("length", 0x08, 1, te("SlotLength"));
    m.num("id", 0x09, 2);
    m.f("char1", 0x0B, 1, hx);
    m.f_o("char2", true, 0x0C, 1, hx);
    m.num_f("segment", 0x0D, 2, 0xFFFF);
    m.num_f("bus", 0x0F, 1, 0xFF);
    let df = m.uo(0x10, 1).filter(|v| *v != 0xFF);
    m.put("devfn", opt(df.map(|v| devfn(v as u8))));
    m.num_o("width", true, 0x11, 1);
    let k = m.uo(0x12, 1).unwrap_or(0) as usize;
    let peers = m
        .uo(0x12, 1)
        .and_then(|_| r.bytes(0x13, 5 * k))
        .map(|b| list(b.chunks(5).map(peer).collect()));
    m.put("peers", opt(peers));
    m.num_o("info", true, 0x14 + 5 * k, 1);
    m.f_o("phys_width", true, 0x15 + 5 * k, 1, te("SlotWidth"));
    m.f_o("pitch", true, 0x16 + 5 * k, 2, |v| pitch(v as u16));
    m.done()
}

fn all_strings(r: &Raw) -> String {
    list(r.strings.iter().map(|s| t(s)).collect())
}

fn oem_strings(r: &Raw) -> Expect {
    let mut m = M::new(r, "OemStrings");
    m.put("strings", all_strings(r));
    m.done()
}
fn config_options(r: &Raw) -> Expect {
    let mut m = M::new(r, "SystemConfigurationOptions");
    let c = m.u(0x04, 1);
    if m.errs.is_empty() && c as usize != r.strings.len() {
        let e = m.dangling(c as u8);
        m.errs.push(e);
    }
    m.put("strings", all_strings(r));
    m.done()
}

fn language(ver: Ver, r: &Raw) -> Expect {
    let mut m = M::new(r, "BiosLanguage");
    let (flags, current) = if ver >= (2, 1) {
        if !m.has(0x16) {
            return m.length("minimum of ", 0x16);
        }
        (Some(0x05), 0x15)
    } else {
        if !m.has(0x15) {
            return m.length("minimum of ", 0x15);
        }
        (None, 0x14)
    };
    let v = flags.and_then(|off| m.uo(off, 1)).map(hx);
    m.put("flags", opt(v));
    m.num("current", current, 1);
    let l = list(r.strings.iter().take(255).map(|s| t(s)).collect());
    m.put("languages", l);
    m.done()
}

fn groups(r: &Raw) -> Expect {
    let mut m = M::new(r, "GroupAssociations");
    if !m.has(0x05) {
        return m.length("minimum of ", 0x05);
    }
    m.str("name", 0x04);
    let b = &r.data[1..];
    let items = (0..b.len() / 3)
        .map(|i| {
            format!(
                "{}:{}",
                b[3 * i],
                b[3 * i + 1] as u16 | (b[3 * i + 2] as u16) << 8
            )
        })
        .collect();
    m.put("items", list(items));
    m.done()
}

pub fn access(method: u8, address: u32) -> String {
    let [b0, b1, b2, _] = address.to_le_bytes();
    let w = b0 as u16 | (b1 as u16) << 8;
    let (dbg, short, long, back) = match method {
        0 => (
            format!("IndexedIoOne8bitIndexOne8bitData {{ index: {b0}, data: {b2} }}"),
            "Indexed I/O, one 8-bit index port, one 8-bit data port".to_string(),
            format!("Indexed I/O, one 8-bit index port, one 8-bit data port: Index 0x{b0:02X}, Data 0x{b2:02X}"),
            address & 0x00FF_00FF,
        ),
        1 => (
            format!("IndexedIoTwo8bitIndexOne8bitData {{ index: [{b0}, {b1}], data: {b2} }}"),
            "Indexed I/O, two 8-bit index ports, one 8-bit data port".into(),
            format!("Indexed I/O, two 8-bit index ports, one 8-bit data port: Index [{b0:X}, {b1:X}], Data 0x{b2:02X}"),
            address & 0x00FF_FFFF,
        ),
        2 => (
            format!("IndexedIoOne16bitIndexOne8bitData {{ index: {w}, data: {b2} }}"),
            "Indexed I/O, one 16-bit index port, one 8-bit data port".into(),
            format!("Indexed I/O, one 16-bit index port, one 8-bit data port: Index 0x{w:04X}, Data 0x{b2:02X}"),
            address & 0x00FF_FFFF,
        ),
        3 => (
            format!("MemoryMappedPhysicaAddress {{ physical_address: {address} }}"),
            "Memory-mapped physical 32-bit address".into(),
            format!("Memory-mapped physical 32-bit address: 0x{address:08X}"),
            address,
        ),
        4 => (
            format!("GeneralPurposeNonVolatileData {{ gpnv_handle: {w} }}"),
            "General-purpose non-volatile data functions".into(),
            format!("General-Purpose NonVolatile Data functions, handle 0x{w:04X}"),
            w as u32,
        ),
        0x80..=0xFF => (
            format!("OemSpecific {{ method: {method}, address: {address} }}"),
            format!("OEM-specific: {method}"),
            format!("BIOS Vendor/OEM-specific: Method {method}, Address 0x{address:08X}"),
            address,
        ),
        _ => (
            format!("Available {{ method: {method}, address: {address} }}"),
            format!("Available: {method}"),
            format!("Available: Method {method}, Address 0x{address:08X}"),
            address,
        ),
    };
    format!("{dbg}{SEP}{short}{SEP}{long}{SEP}{back:#x}")
}

pub fn descriptor(a: u8, b: u8) -> String {
    let (x, y) = ("EventLogType", "VariableDataFormatType");
    format!(
        "{}/{}{SEP}{}/{}{SEP}{}",
        tables::d(x, a as u32),
        tables::d(y, b as u32),
        tables::text(x, a as u32),
        tables::text(y, b as u32),
        hex(&[a, b])
    )
}

fn event_log(ver: Ver, r: &Raw) -> Expect {
    let mut m = M::new(r, "SystemEventLog");
    let (x, y) = (m.uo(0x15, 1), m.uo(0x16, 1));
    let (x, y) = if ver < (2, 1) {
        if m.len() != 0x14 {
            return m.length("", 0x14);
        }
        (0, 0)
    } else {
        match (x, y) {
            (Some(x), Some(y)) => {
                let want = 0x17 + x as usize * y as usize;
                if m.len() != want {
                    return m.length("17h+(x*y) = ", want);
                }
                (x as usize, y as usize)
            }
            _ => return m.length("minimum of ", 0x17),
        }
    };
    m.num("area_length", 0x04, 2);
    m.num("header_offset", 0x06, 2);
    m.num("data_offset", 0x08, 2);
    let (method, address) = (m.u(0x0A, 1), m.u(0x10, 4));
    m.put("access", access(method as u8, address as u32));
    m.f("status", 0x0B, 1, hx);
    m.num("token", 0x0C, 4);
    m.f_o("format", true, 0x14, 1, te("LogHeaderFormat"));
    let d = if ver < (2, 1) {
        None
    } else if y < 2 {
        Some(list(vec![]))
    } else {
        r.bytes(0x17, x * y)
            .map(|b| list((0..x).map(|i| descriptor(b[i * y], b[i * y + 1])).collect()))
    };
    m.put("descriptors", opt(d));
    m.done()
}

fn memory_array(ver: Ver, r: &Raw) -> Expect {
    let mut m = M::new(r, "PhysicalMemoryArray");
    if ver < (2, 1) {
        m.put("location", tables::e("MemoryArrayLocation", 2));
        m.put("use", tables::e("MemoryArrayUse", 2));
        m.put("ecc", tables::e("MemoryArrayErrorCorrectionTypes", 2));
        for k in ["capacity", "error_handle", "ext_capacity"] {
            m.put(k, "-".into());
        }
        m.put("devices", n(0));
        return m.done();
    }
    m.f("location", 0x04, 1, te("MemoryArrayLocation"));
    m.f("use", 0x05, 1, te("MemoryArrayUse"));
    m.f("ecc", 0x06, 1, te("MemoryArrayErrorCorrectionTypes"));
    let cap = m.u(0x07, 4);
    m.num_f("capacity", 0x07, 4, 0x8000_0000);
    let _ = m.u(0x0B, 2);
    m.num_f("error_handle", 0x0B, 2, 0xFFFE);
    m.num("devices", 0x0D, 2);
    let ext = if ver >= (2, 7) && cap == 0x8000_0000 {
        Some(m.u(0x0F, 8)).filter(|v| *v != 0)
    } else {
        None
    };
    m.put("ext_capacity", opt(ext.map(n)));
    m.done()
}

fn memory_device(r: &Raw) -> Expect {
    let mut m = M::new(r, "MemoryDevice");
    if !m.has(0x15) {
        return m.length("at least ", 0x15);
    }
    m.num("array", 0x04, 2);
    m.num_f("error_handle", 0x06, 2, 0xFFFE);
    m.num_f("total_width", 0x08, 2, 0xFFFF);
    m.num_f("data_width", 0x0A, 2, 0xFFFF);
    m.num_f("size", 0x0C, 2, 0xFFFF);
    m.f("form", 0x0E, 1, td("FormFactor"));
    m.num("set", 0x0F, 1);
    m.str("locator", 0x10);
    m.str("bank", 0x11);
    m.f("type", 0x12, 1, td("MemoryDevice.Type"));
    m.f("detail", 0x13, 2, |v| n(v & 0xFFFE));
    m.num_f("speed", 0x15, 2, 0);
    for (k, off) in [
        ("manufacturer", 0x17),
        ("serial", 0x18),
        ("asset", 0x19),
        ("part", 0x1A),
    ] {
        let v = m.so(off).unwrap_or_else(|| t(""));
        m.put(k, v);
    }
    let v = m.uo(0x1B, 1).unwrap_or(0);
    m.put("attributes", n(v));
    let v = m.uo(0x1C, 4).unwrap_or(0);
    m.put("ext_size", n(v));
    m.num_f("conf_speed", 0x20, 2, 0);
    m.num_f("min_v", 0x22, 2, 0);
    m.num_f("max_v", 0x24, 2, 0);
    m.num_f("conf_v", 0x26, 2, 0);
    m.f_o("technology", true, 0x28, 1, td("MemoryTechnology"));
    m.f_o("modes", true, 0x29, 2, |v| n(v & 0x3E));
    // a dangling firmware version is taken as absent
    let v = m.uo(0x2B, 1).and_then(|i| m.nth(i as u8).map(t));
    m.put("firmware", opt(v));
    m.num_o("mod_manufacturer", true, 0x2C, 2);
    m.num_o("mod_product", true, 0x2E, 2);
    m.num_o("ctl_manufacturer", true, 0x30, 2);
    m.num_o("ctl_product", true, 0x32, 2);
    m.num_o("nv_size", true, 0x34, 8);
    m.num_o("v_size", true, 0x3C, 8);
    m.num_o("cache_size", true, 0x44, 8);
    m.num_o("logical_size", true, 0x4C, 8);
    m.num_o("ext_speed", true, 0x54, 4);
    m.num_o("ext_conf_speed", true, 0x58, 4);
    m.done()
}

fn memory_error(ver: Ver, r: &Raw) -> Expect {
    let mut m = M::new(r, "MemoryError32");
    if ver >= (2, 1) && m.len() != 0x17 {
        return m.length("", 0x17);
    }
    m.f("type", 0x04, 1, te("ErrorType"));
    m.f("granularity", 0x05, 1, te("ErrorGranularity"));
    m.f("operation", 0x06, 1, te("ErrorOperation"));
    m.num("syndrome", 0x07, 4);
    m.num("array_address", 0x0B, 4);
    m.num("device_address", 0x0F, 4);
    m.num("resolution", 0x13, 4);
    m.done()
}

fn array_mapped(ver: Ver, r: &Raw) -> Expect {
    let mut m = M::new(r, "MemoryArrayMappedAddress");
    let want = if ver >= (2, 7) { 0x1F } else { 0x0F };
    if ver >= (2, 1) && m.len() != want {
        return m.length("", want);
    }
    m.num("start", 0x04, 4);
    m.num("end", 0x08, 4);
    m.num("array", 0x0C, 2);
    m.num("width", 0x0E, 1);
    m.num_o("ext_start", true, 0x0F, 8);
    m.num_o("ext_end", true, 0x17, 8);
    m.done()
}

fn device_mapped(ver: Ver, r: &Raw) -> Expect {
    let mut m = M::new(r, "MemoryDeviceMappedAddress");
    let want = if ver >= (2, 7) { 0x23 } else { 0x13 };
    if ver >= (2, 1) && m.len() != want {
        return m.length("", want);
    }
    m.num("start", 0x04, 4);
    m.num("end", 0x08, 4);
    m.num("device", 0x0C, 2);
    m.num("array_mapped", 0x0E, 2);
    m.num("row", 0x10, 1);
    m.num("interleave", 0x11, 1);
    m.num("depth", 0x12, 1);
    m.num_o("ext_start", true, 0x13, 8);
    m.num_o("ext_end", true, 0x1B, 8);
    m.done()
}

fn pointing(ver: Ver, r: &Raw) -> Expect {
    let mut m = M::new(r, "BuiltInPointingDevice");
    if ver >= (2, 1) && m.len() != 0x07 {
        return m.length("", 0x07);
    }
    m.f("type", 0x04, 1, te("Pointing.Type"));
    m.f("interface", 0x05, 1, te("Pointing.Interface"));
    m.num("buttons", 0x06, 1);
    m.done()
}

fn same(dbg: String, text: String) -> String {
    format!("{dbg}{SEP}{text}{SEP}{text}")
}
pub fn sbds_date(d: u16) -> String {
    let (y, mo, da) = (1980 + (d >> 9), d >> 5 & 0xF, d & 0x1F);
    same(
        format!("SmartBatteryDataSpecification {{ year: {y}, month: {mo}, date: {da} }}"),
        format!("{y:04}-{mo:02}-{da:02}"),
    )
}
pub fn chemistry(code: u8, text: Option<&str>) -> String {
    let p = match code {
        1 => ("Other", "Other"),
        2 => match text {
            Some(s) => return same(format!("SmartBatteryDataSpecification({s:?})"), s.into()),
            None => ("Unknown", "Unknown"),
        },
        3 => ("LeadAcid", "Lead Acid"),
        4 => ("NickelCadmium", "Nickel Cadmium"),
        5 => ("NickelMetalHydride", "Nickel metal hydride"),
        6 => ("LithiumIon", "Lithium-ion"),
        7 => ("ZincAir", "Zinc air"),
        8 => ("LithiumPolymer", "Lithium Polymer"),
        v => return same(format!("Undefined({v})"), format!("Undefined: {v}")),
    };
    same(p.0.into(), p.1.into())
}

fn battery(ver: Ver, r: &Raw) -> Expect {
    let mut m = M::new(r, "PortableBattery");
    if ver >= (2, 1) {
        let want = if ver >= (2, 2) { 0x1A } else { 0x10 };
        if m.len() != want {
            return m.length("", want);
        }
    }
    m.str("location", 0x04);
    m.str("manufacturer", 0x05);
    // a dangling reference counts as not given for the fields with a smart-battery form
    let given = |m: &M, off| {
        m.uo(off, 1)
            .filter(|i| *i != 0)
            .and_then(|i| m.nth(i as u8).map(|s| s.to_string()))
    };
    let date = match (given(&m, 0x06), m.uo(0x12, 2)) {
        (Some(s), _) => same(format!("Basic({s:?})"), s),
        (None, Some(d)) => sbds_date(d as u16),
        _ => same("None".into(), String::new()),
    };
    m.put("date", date);
    let serial = match (given(&m, 0x07), m.uo(0x10, 2)) {
        (Some(s), _) => same(format!("Basic({s:?})"), s),
        (None, Some(w)) => same(
            format!("SmartBatteryDataSpecification({w})"),
            format!("0x{w:02X}"),
        ),
        _ => same("None".into(), String::new()),
    };
    m.put("serial", serial);
    m.str("name", 0x08);
    let code = m.u(0x09, 1) as u8;
    let text = m
        .uo(0x14, 1)
        .and_then(|i| m.nth(i as u8))
        .map(|s| s.to_string());
    m.put("chemistry", chemistry(code, text.as_deref()));
    let cap = m.u(0x0A, 2);
    let mult = m.uo(0x15, 1).unwrap_or(1);
    m.put(
        "capacity",
        if cap == 0 {
            format!("Unknown{SEP}0")
        } else {
            format!(
                "Data {{ value: {cap}, multiplier: {mult} }}{SEP}{}",
                cap * mult
            )
        },
    );
    m.num("voltage", 0x0C, 2);
    m.str("sbds_version", 0x0E);
    m.num("max_error", 0x0F, 1);
    m.num_o("oem", true, 0x16, 4);
    m.done()
}

fn other(ver: Ver, r: &Raw) -> Expect {
    let mut m = M::new(r, "Other");
    m.put("version", format!("{}.{}", ver.0, ver.1));
    m.put("info", tables::e("InfoType", r.kind as u32));
    m.put("length", n(r.len()));
    m.put("data", hex(&r.data));
    m.put(
        "strings",
        list(r.strings.iter().take(255).map(|s| t(s)).collect()),
    );
    m.done()
}

/// The text that states an error.
pub fn err_text(e: &ErrObs) -> Option<String> {
    Some(match e {
        ErrObs::BadSize(o, l) => {
            format!("Structure at offset {o} with length {l} extends beyond SMBIOS")
        }
        ErrObs::Unterminated(o) => format!("Structure at offset {o} with unterminated strings"),
        ErrObs::StringIndex {
            info,
            handle,
            index,
        } => {
            format!("Structure {info} with handle {handle} has invalid string index {index}")
        }
        ErrObs::Length {
            info,
            handle,
            spec,
            len,
        } => {
            format!("Formatted section length of structure {info} with handle {handle} should be {spec}{len} bytes")
        }
        ErrObs::Slice | ErrObs::Unnamed => return None,
    })
}
