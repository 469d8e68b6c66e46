//! Observation: everything a user can read off a decoded structure through the
//! public interface, as an ordered list of (field, rendered value).

use dmidecode::bitfield::BitField;
use dmidecode::{MalformedStructureError, RawStructure, Structure};
use std::fmt::{Debug, Display};

/// between a value and its texts and computed quantities
pub const SEP: char = '\u{1}';

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Obs {
    pub kind: &'static str,
    pub fields: Vec<(String, String)>,
}

impl Obs {
    pub fn new(kind: &'static str) -> Self {
        Obs {
            kind,
            fields: vec![],
        }
    }
    /// What stands behind the separator - texts and computed quantities - is
    /// kept under a key of its own, with a `#` at its end.
    pub fn put(&mut self, k: &str, v: String) {
        match v.split_once(SEP) {
            None => self.fields.push((k.to_string(), v)),
            Some((a, b)) => {
                self.fields.push((k.to_string(), a.to_string()));
                self.fields.push((format!("{k}#"), b.to_string()));
            }
        }
    }
    /// The values alone, without texts and computed quantities.
    pub fn values(&self) -> Obs {
        Obs {
            kind: self.kind,
            fields: self
                .fields
                .iter()
                .filter(|(k, _)| !k.ends_with('#'))
                .cloned()
                .collect(),
        }
    }
    pub fn diff(&self, other: &Obs) -> Option<String> {
        if self.kind != other.kind {
            return Some(format!("kind: {} vs {}", self.kind, other.kind));
        }
        for (k, v) in &self.fields {
            match other.fields.iter().find(|(k2, _)| k2 == k) {
                Some((_, v2)) if v2 == v => {}
                Some((_, v2)) => return Some(format!("{}.{k}: {v} vs {v2}", self.kind)),
                None => return Some(format!("{}.{k}: {v} vs (nothing)", self.kind)),
            }
        }
        for (k, v) in &other.fields {
            if !self.fields.iter().any(|(k2, _)| k2 == k) {
                return Some(format!("{}.{k}: (nothing) vs {v}", self.kind));
            }
        }
        None
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.fields
            .iter()
            .find(|(k2, _)| k2 == k)
            .map(|(_, v)| v.as_str())
    }
}

/// text
pub fn t(s: &str) -> String {
    format!("{s:?}")
}
/// number
pub fn n<T: Display>(v: T) -> String {
    format!("{v}")
}
/// optional
pub fn o<T>(v: Option<T>, f: impl Fn(T) -> String) -> String {
    match v {
        None => "-".into(),
        Some(v) => f(v),
    }
}
/// enumerated value without text
pub fn d<T: Debug>(v: T) -> String {
    format!("{v:?}")
}
/// enumerated value with its texts
pub fn e<T: Debug + Display>(v: T) -> String {
    format!("{v:?}{SEP}{v}{SEP}{v:#}")
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn list(v: Vec<String>) -> String {
    if v.iter().any(|x| x.contains(SEP)) {
        let (a, b): (Vec<_>, Vec<_>) = v
            .iter()
            .map(|x| x.split_once(SEP).unwrap_or((x, "")))
            .unzip();
        format!("[{}]{SEP}[{}]", a.join(", "), b.join(", "))
    } else {
        format!("[{}]", v.join(", "))
    }
}
fn bf<'a, B: BitField<'a>>(b: &B) -> String
where
    B::Size: Into<u128>,
{
    let v: u128 = b.value().into();
    format!("{v:#x}")
}

/// Upper bound for nested iterators: a section has at most 251 bytes, a string
/// set (one string per two bytes) is bounded by the buffer.
pub const NEST_LIMIT: usize = 100_000;

fn bounded<I: Iterator + Clone>(what: &str, it: I) -> Vec<I::Item>
where
    I::Item: PartialEq,
{
    let start = it.clone();
    let mut v = vec![];
    for x in it {
        v.push(x);
        if v.len() > NEST_LIMIT {
            panic!("endless iteration: {what}");
        }
    }
    if v.len() <= 24 {
        if let Err(e) = ways(&start, &v, |a, b| a == b) {
            panic!("{what}: {e}");
        }
    }
    v
}

/// All ways to go through an iterator see the items that `next` gives.
pub fn ways<I: Iterator + Clone>(
    start: &I,
    all: &[I::Item],
    same: impl Fn(&I::Item, &I::Item) -> bool,
) -> Result<(), String> {
    let n = all.len();
    let (low, high) = start.size_hint();
    if low > n || high.is_some_and(|h| h < n) {
        return Err(format!("{n} items, but the size hint is {low}..{high:?}"));
    }
    let count = start.clone().count();
    if count != n {
        return Err(format!("{n} items, but count gives {count}"));
    }
    let equal = |a: Option<I::Item>, b: Option<&I::Item>| match (&a, b) {
        (Some(a), Some(b)) => same(a, b),
        (a, b) => a.is_none() && b.is_none(),
    };
    if !equal(start.clone().last(), all.last()) {
        return Err("last gives another item than the last next".into());
    }
    for k in [0, n / 2, n.saturating_sub(1), n] {
        let mut it = start.clone();
        if !equal(it.nth(k), all.get(k)) {
            return Err(format!("nth({k}) gives another item than next does"));
        }
        if k < n && !equal(it.next(), all.get(k + 1)) {
            return Err(format!("the item behind nth({k}) is another one"));
        }
    }
    let agree = start.clone().fold(Some(0), |at, x| {
        at.filter(|i| all.get(*i).is_some_and(|y| same(&x, y)))
            .map(|i| i + 1)
    });
    if agree != Some(n) {
        return Err("fold sees other items than next".into());
    }
    Ok(())
}

pub fn raw_strings(r: &RawStructure<'_>) -> Vec<String> {
    let mut v = vec![];
    for i in 1..=255u8 {
        match r.find_string(i) {
            Ok(s) => v.push(t(s)),
            Err(_) => break,
        }
    }
    v
}

pub fn observe(s: &Structure<'_>) -> Obs {
    match s {
        Structure::Bios(b) => {
            let mut x = Obs::new("Bios");
            x.put("handle", n(b.handle));
            x.put("vendor", t(b.vendor));
            x.put("bios_version", t(b.bios_version));
            x.put("segment", n(b.bios_starting_address_segment));
            x.put("release_date", t(b.bios_release_date));
            x.put("rom_basic", n(b.rom_size.basic));
            x.put("rom_extended", o(b.rom_size.extended, n));
            x.put("rom#", n(u64::from(b.rom_size)));
            x.put("characteristics", bf(&b.bios_characteristics));
            x.put("ext1", o(b.bios_characteristics_exttension_1, |v| bf(&v)));
            x.put("ext2", o(b.bios_characteristics_exttension_2, |v| bf(&v)));
            x.put(
                "bios_rev",
                o(b.bios_revision, |v| {
                    format!("{}.{}{SEP}{v}", v.major, v.minor)
                }),
            );
            x.put(
                "fw_rev",
                o(b.firmware_revision, |v| {
                    format!("{}.{}{SEP}{v}", v.major, v.minor)
                }),
            );
            x
        }
        Structure::System(b) => {
            let mut x = Obs::new("System");
            x.put("handle", n(b.handle));
            x.put("manufacturer", t(b.manufacturer));
            x.put("product", t(b.product));
            x.put("version", t(b.version));
            x.put("serial", t(b.serial));
            x.put("uuid", o(b.uuid, |u| hex(u.as_bytes())));
            x.put("wakeup", o(b.wakeup.as_ref(), d));
            x.put("sku", o(b.sku, t));
            x.put("family", o(b.family, t));
            x
        }
        Structure::BaseBoard(b) => {
            let mut x = Obs::new("BaseBoard");
            x.put("handle", n(b.handle));
            x.put("manufacturer", t(b.manufacturer));
            x.put("product", t(b.product));
            x.put("version", t(b.version));
            x.put("serial", t(b.serial));
            x.put("asset", o(b.asset, t));
            x.put("flags", o(b.feature_flags.as_ref(), |f| n(f.bits())));
            x.put("location", o(b.location_in_chassis, t));
            x.put("chassis_handle", o(b.chassis_handle, n));
            x.put("board_type", o(b.board_type.as_ref(), e));
            x
        }
        Structure::Enclosure(b) => {
            let mut x = Obs::new("Enclosure");
            x.put("handle", n(b.handle));
            x.put("manufacturer", t(b.manufacturer));
            x.put("lock", n(b.chassis_lock));
            x.put("type", e(b.enclosure_type));
            x.put("version", t(b.version));
            x.put("serial", t(b.serial_number));
            x.put("asset", t(b.asset_tag_number));
            x.put("boot_state", o(b.boot_up_state, e));
            x.put("psu_state", o(b.power_supply_state, e));
            x.put("thermal_state", o(b.thermal_state, e));
            x.put("security", o(b.security_status, e));
            x.put("oem", o(b.oem_defined, n));
            x.put("height", o(b.height, n));
            x.put("cords", o(b.power_cords_number, n));
            x.put(
                "elem_count",
                o(b.contained_elements.as_ref(), |c| n(c.count())),
            );
            x.put(
                "elements",
                o(b.contained_elements.clone(), |c| {
                    list(
                        bounded("contained elements", c)
                            .into_iter()
                            .map(n)
                            .collect(),
                    )
                }),
            );
            x.put("sku", o(b.sku_number, t));
            x
        }
        Structure::Processor(b) => {
            let mut x = Obs::new("Processor");
            x.put("handle", n(b.handle));
            x.put("socket", t(b.socket_designation));
            x.put("type", d(b.processor_type));
            x.put("family", e(b.processor_family));
            x.put("manufacturer", t(b.processor_manufacturer));
            x.put("id", n(b.processor_id));
            x.put("version", t(b.processor_version));
            x.put("voltage", e(&b.voltage));
            x.put("external_clock", n(b.external_clock));
            x.put("max_speed", n(b.max_speed));
            x.put("current_speed", n(b.current_speed));
            x.put("status", n(b.status.bits()));
            x.put("upgrade", e(&b.processor_upgrade));
            x.put("l1", o(b.l1_cache_handle, n));
            x.put("l2", o(b.l2_cache_handle, n));
            x.put("l3", o(b.l3_cache_handle, n));
            x.put("serial", o(b.serial_number, t));
            x.put("asset", o(b.asset_tag, t));
            x.put("part", o(b.part_number, t));
            x.put("cores", o(b.core_count, n));
            x.put("cores_enabled", o(b.core_enabled, n));
            x.put("threads", o(b.thread_count, n));
            x.put(
                "characteristics",
                o(b.processor_characteristics.as_ref(), |c| n(c.bits())),
            );
            x
        }
        Structure::Cache(b) => {
            let mut x = Obs::new("Cache");
            x.put("handle", n(b.handle));
            x.put("socket", t(b.socket_designation));
            x.put("config", d(&b.cache_configuration));
            x.put(
                "max_size",
                format!(
                    "{:?}{SEP}{}",
                    b.maximum_cache_size,
                    b.maximum_cache_size.bytes()
                ),
            );
            x.put(
                "installed",
                format!("{:?}{SEP}{}", b.installed_size, b.installed_size.bytes()),
            );
            x.put("sram_supported", n(b.supported_sram_type.bits()));
            x.put("sram_current", n(b.current_sram_type.bits()));
            x.put("speed", o(b.cache_speed, n));
            x.put("ecc", o(b.error_correction_type, e));
            x.put("type", o(b.system_cache_type, e));
            x.put("assoc", o(b.associativity, e));
            x.put(
                "max_size2",
                o(b.maximum_cache_size_2, |v| {
                    format!("{v:?}{SEP}{}", v.bytes())
                }),
            );
            x.put(
                "installed2",
                o(b.installed_size_2, |v| format!("{v:?}{SEP}{}", v.bytes())),
            );
            x
        }
        Structure::PortConnector(b) => {
            let mut x = Obs::new("PortConnector");
            x.put("handle", n(b.handle));
            x.put("int_ref", t(b.internal_reference_designator));
            x.put("int_type", e(b.internal_connector_type));
            x.put("ext_ref", t(b.external_reference_designator));
            x.put("ext_type", e(b.external_connector_type));
            x.put("port_type", e(b.port_type));
            x
        }
        Structure::SystemSlots(b) => {
            let mut x = Obs::new("SystemSlots");
            x.put("handle", n(b.handle));
            x.put("designation", t(b.slot_designation));
            x.put("type", e(b.slot_type));
            x.put("bus_width", e(b.slot_data_bus_width));
            x.put("usage", e(b.current_usage));
            x.put("length", e(b.slot_length));
            x.put("id", n(b.slot_id));
            x.put("char1", bf(&b.slot_characteristics_1));
            x.put("char2", o(b.slot_characteristics_2, |v| bf(&v)));
            x.put("segment", o(b.segment_group_number, n));
            x.put("bus", o(b.bus_number, n));
            x.put(
                "devfn",
                o(b.device_and_function_number, |v| {
                    format!("{v:?}{SEP}{}", u8::from(v))
                }),
            );
            x.put("width", o(b.data_bus_width, n));
            x.put(
                "peers",
                o(b.peer_devices.clone(), |p| {
                    list(
                        bounded("peer devices", p)
                            .into_iter()
                            .map(|v| {
                                format!(
                                    "{}/{}/{}/{}{SEP}{v}{SEP}{}",
                                    v.segment_group_number,
                                    v.bus_number,
                                    u8::from(v.device_and_function_number),
                                    v.data_bus_width,
                                    hex(&<[u8; 5]>::from(&v))
                                )
                            })
                            .collect(),
                    )
                }),
            );
            x.put("info", o(b.slot_information, n));
            x.put("phys_width", o(b.slot_physical_width, e));
            x.put("pitch", o(b.slot_pitch, |v| format!("{v:?}{SEP}{v}")));
            x
        }
        Structure::OemStrings(b) => {
            let mut x = Obs::new("OemStrings");
            x.put("handle", n(b.handle));
            x.put(
                "strings",
                list(bounded("strings", b.strings).into_iter().map(t).collect()),
            );
            x
        }
        Structure::SystemConfigurationOptions(b) => {
            let mut x = Obs::new("SystemConfigurationOptions");
            x.put("handle", n(b.handle));
            x.put(
                "strings",
                list(bounded("strings", b.strings).into_iter().map(t).collect()),
            );
            x
        }
        Structure::BiosLanguage(b) => {
            let mut x = Obs::new("BiosLanguage");
            x.put("handle", n(b.handle));
            x.put(
                "languages",
                list(
                    bounded("languages", b.installable_languages.clone())
                        .into_iter()
                        .map(t)
                        .collect(),
                ),
            );
            x.put("flags", o(b.flags, |v| bf(&v)));
            x.put("current", n(b.current_language));
            x
        }
        Structure::GroupAssociations(b) => {
            let mut x = Obs::new("GroupAssociations");
            x.put("handle", n(b.handle));
            x.put("name", t(b.group_name));
            x.put(
                "items",
                list(
                    bounded("group items", b.items)
                        .into_iter()
                        .map(|i| format!("{}:{}", i.type_, i.handle))
                        .collect(),
                ),
            );
            x
        }
        Structure::SystemEventLog(b) => {
            let mut x = Obs::new("SystemEventLog");
            x.put("handle", n(b.handle));
            x.put("area_length", n(b.log_area_length));
            x.put("header_offset", n(b.log_header_start_offset));
            x.put("data_offset", n(b.log_data_start_offset));
            x.put(
                "access",
                format!(
                    "{}{SEP}{:#x}",
                    e(b.access_method),
                    b.access_method.address()
                ),
            );
            x.put("status", bf(&b.log_status));
            x.put("token", n(b.log_change_token));
            x.put("format", o(b.log_header_format, e));
            x.put(
                "descriptors",
                o(b.supported_event_log_type_descriptors.clone(), |v| {
                    list(
                        bounded("descriptors", v)
                            .into_iter()
                            .map(|v| {
                                format!(
                                    "{:?}/{:?}{SEP}{}/{}{SEP}{}",
                                    v.log_type,
                                    v.variable_data_format_type,
                                    v.log_type,
                                    v.variable_data_format_type,
                                    hex(&<[u8; 2]>::from(v))
                                )
                            })
                            .collect(),
                    )
                }),
            );
            x
        }
        Structure::PhysicalMemoryArray(b) => {
            let mut x = Obs::new("PhysicalMemoryArray");
            x.put("handle", n(b.handle));
            x.put("location", e(b.location));
            x.put("use", e(b.r#use));
            x.put("ecc", e(b.memory_error_correction));
            x.put("capacity", o(b.maximum_capacity, n));
            x.put("error_handle", o(b.memory_error_information_handle, n));
            x.put("devices", n(b.number_of_memory_devices));
            x.put("ext_capacity", o(b.extended_maximum_capacity, n));
            x
        }
        Structure::MemoryDevice(b) => {
            let mut x = Obs::new("MemoryDevice");
            x.put("handle", n(b.handle));
            x.put("array", n(b.physical_memory_handle));
            x.put("error_handle", o(b.memory_error_handle, n));
            x.put("total_width", o(b.total_width, n));
            x.put("data_width", o(b.data_width, n));
            x.put("size", o(b.size, n));
            x.put("form", d(b.form_factor));
            x.put("set", o(b.device_set, n));
            x.put("locator", t(b.device_locator));
            x.put("bank", t(b.bank_locator));
            x.put("type", d(b.memory_type));
            x.put("detail", n(b.type_detail.bits()));
            x.put("speed", o(b.speed, n));
            x.put("manufacturer", t(b.manufacturer));
            x.put("serial", t(b.serial));
            x.put("asset", t(b.asset_tag));
            x.put("part", t(b.part_number));
            x.put("attributes", n(b.attributes));
            x.put("ext_size", n(b.extended_size));
            x.put("conf_speed", o(b.configured_memory_speed, n));
            x.put("min_v", o(b.minimum_voltage, n));
            x.put("max_v", o(b.maximum_voltage, n));
            x.put("conf_v", o(b.configured_voltage, n));
            x.put("technology", o(b.memory_technology, d));
            x.put(
                "modes",
                o(b.operating_mode_capability.as_ref(), |v| n(v.bits())),
            );
            x.put("firmware", o(b.firmware_version, t));
            x.put("mod_manufacturer", o(b.module_manufacturer, n));
            x.put("mod_product", o(b.module_product_id, n));
            x.put(
                "ctl_manufacturer",
                o(b.memory_subsystem_controller_manufacturer_id, n),
            );
            x.put(
                "ctl_product",
                o(b.memory_subsystem_controller_product_id, n),
            );
            x.put("nv_size", o(b.non_volatile_size, n));
            x.put("v_size", o(b.volatile_size, n));
            x.put("cache_size", o(b.cache_size, n));
            x.put("logical_size", o(b.logical_size, n));
            x.put("ext_speed", o(b.extended_speed, n));
            x.put("ext_conf_speed", o(b.extended_configured_memory_speed, n));
            x
        }
        Structure::MemoryError32(b) => {
            let mut x = Obs::new("MemoryError32");
            x.put("handle", n(b.handle));
            x.put("type", e(b.error_type));
            x.put("granularity", e(b.error_granularity));
            x.put("operation", e(b.error_operation));
            x.put("syndrome", n(b.vendor_syndrome));
            x.put("array_address", n(b.memory_array_error_address));
            x.put("device_address", n(b.device_error_address));
            x.put("resolution", n(b.error_resolution));
            x
        }
        Structure::MemoryArrayMappedAddress(b) => {
            let mut x = Obs::new("MemoryArrayMappedAddress");
            x.put("handle", n(b.handle));
            x.put("start", n(b.starting_address));
            x.put("end", n(b.ending_address));
            x.put("array", n(b.memory_array_handle));
            x.put("width", n(b.partition_width));
            x.put("ext_start", o(b.extended_starting_address, n));
            x.put("ext_end", o(b.extended_ending_address, n));
            x
        }
        Structure::MemoryDeviceMappedAddress(b) => {
            let mut x = Obs::new("MemoryDeviceMappedAddress");
            x.put("handle", n(b.handle));
            x.put("start", n(b.starting_address));
            x.put("end", n(b.ending_address));
            x.put("device", n(b.memory_device_handle));
            x.put("array_mapped", n(b.memory_array_mapped_address_handle));
            x.put("row", n(b.partition_row_position));
            x.put("interleave", n(b.interleave_position));
            x.put("depth", n(b.interleaved_data_depth));
            x.put("ext_start", o(b.extended_starting_address, n));
            x.put("ext_end", o(b.extended_ending_address, n));
            x
        }
        Structure::BuiltInPointingDevice(b) => {
            let mut x = Obs::new("BuiltInPointingDevice");
            x.put("handle", n(b.handle));
            x.put("type", e(b.type_));
            x.put("interface", e(b.interface));
            x.put("buttons", n(b.number_of_buttons));
            x
        }
        Structure::PortableBattery(b) => {
            let mut x = Obs::new("PortableBattery");
            x.put("handle", n(b.handle));
            x.put("location", t(b.location));
            x.put("manufacturer", t(b.manufacturer));
            x.put("date", e(b.manufacture_date));
            x.put("serial", e(b.serial_number));
            x.put("name", t(b.device_name));
            x.put("chemistry", e(b.device_chemistry));
            x.put(
                "capacity",
                format!(
                    "{:?}{SEP}{}",
                    b.design_capacity,
                    u64::from(b.design_capacity)
                ),
            );
            x.put("voltage", n(b.design_voltage));
            x.put("sbds_version", t(b.sbds_version_number));
            x.put("max_error", n(b.maximum_error_in_battery_data));
            x.put("oem", o(b.oem_specific, n));
            x
        }
        Structure::Other(b) => {
            let mut x = Obs::new("Other");
            x.put(
                "version",
                format!("{}.{}", b.version.major, b.version.minor),
            );
            x.put("info", e(b.info));
            x.put("length", n(b.length));
            x.put("handle", n(b.handle));
            x.put("data", hex(b.data));
            x.put("strings", list(raw_strings(b)));
            x
        }
        #[allow(unreachable_patterns)]
        other => {
            let mut x = Obs::new("?");
            x.put("debug", format!("{other:?}"));
            x
        }
    }
}

/// An error item, as far as a user can take it apart.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum ErrObs {
    BadSize(u32, u8),
    Unterminated(u32),
    StringIndex {
        info: String,
        handle: u16,
        index: u8,
    },
    Slice,
    Length {
        info: String,
        handle: u16,
        spec: String,
        len: u8,
    },
    /// a kind this harness does not know
    Unnamed,
}

pub fn observe_err(err: &MalformedStructureError) -> (ErrObs, String) {
    let text = format!("{err}");
    let _ = format!("{err:?}{err:#?}");
    let obs = match err {
        MalformedStructureError::BadSize(a, b) => ErrObs::BadSize(*a, *b),
        MalformedStructureError::UnterminatedStrings(a) => ErrObs::Unterminated(*a),
        MalformedStructureError::InvalidStringIndex(i, h, x) => ErrObs::StringIndex {
            info: format!("{i:?}"),
            handle: *h,
            index: *x,
        },
        MalformedStructureError::InvalidSlice(_) => ErrObs::Slice,
        MalformedStructureError::InvalidFormattedSectionLength(i, h, s, l) => ErrObs::Length {
            info: format!("{i:?}"),
            handle: *h,
            spec: s.to_string(),
            len: *l,
        },
        #[allow(unreachable_patterns)]
        _ => ErrObs::Unnamed,
    };
    (obs, text)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Item {
    Ok(Obs),
    Err(ErrObs, String),
}

pub fn item(r: &Result<Structure<'_>, MalformedStructureError>) -> Item {
    match r {
        Ok(s) => Item::Ok(observe(s)),
        Err(e) => {
            let (o, t) = observe_err(e);
            Item::Err(o, t)
        }
    }
}

impl Item {
    pub fn diff(&self, other: &Item) -> Option<String> {
        match (self, other) {
            (Item::Ok(a), Item::Ok(b)) => a.diff(b),
            (a, b) if a == b => None,
            (a, b) => Some(format!("{} vs {}", a.brief(), b.brief())),
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Item::Ok(o) => format!("Ok({})", o.kind),
            Item::Err(e, t) => format!("Err({e:?}: {t:?})"),
        }
    }
}

/// Every string and slice a decoded value hands out.
pub fn spans<'a>(s: &Structure<'a>) -> Vec<&'a [u8]> {
    let mut v: Vec<&'a [u8]> = vec![];
    fn st<'a>(v: &mut Vec<&'a [u8]>, s: &'a str) {
        v.push(s.as_bytes());
    }
    fn so<'a>(v: &mut Vec<&'a [u8]>, s: Option<&'a str>) {
        v.extend(s.map(|s| s.as_bytes()));
    }
    match s {
        Structure::Bios(b) => [b.vendor, b.bios_version, b.bios_release_date]
            .iter()
            .for_each(|s| st(&mut v, s)),
        Structure::System(b) => {
            [b.manufacturer, b.product, b.version, b.serial]
                .iter()
                .for_each(|s| st(&mut v, s));
            [b.sku, b.family].iter().for_each(|s| so(&mut v, *s));
        }
        Structure::BaseBoard(b) => {
            [b.manufacturer, b.product, b.version, b.serial]
                .iter()
                .for_each(|s| st(&mut v, s));
            [b.asset, b.location_in_chassis]
                .iter()
                .for_each(|s| so(&mut v, *s));
        }
        Structure::Enclosure(b) => {
            [
                b.manufacturer,
                b.version,
                b.serial_number,
                b.asset_tag_number,
            ]
            .iter()
            .for_each(|s| st(&mut v, s));
            so(&mut v, b.sku_number);
        }
        Structure::Processor(b) => {
            [
                b.socket_designation,
                b.processor_manufacturer,
                b.processor_version,
            ]
            .iter()
            .for_each(|s| st(&mut v, s));
            [b.serial_number, b.asset_tag, b.part_number]
                .iter()
                .for_each(|s| so(&mut v, *s));
        }
        Structure::Cache(b) => st(&mut v, b.socket_designation),
        Structure::PortConnector(b) => [
            b.internal_reference_designator,
            b.external_reference_designator,
        ]
        .iter()
        .for_each(|s| st(&mut v, s)),
        Structure::SystemSlots(b) => st(&mut v, b.slot_designation),
        Structure::OemStrings(b) => bounded("strings", b.strings)
            .iter()
            .for_each(|s| st(&mut v, s)),
        Structure::SystemConfigurationOptions(b) => bounded("strings", b.strings)
            .iter()
            .for_each(|s| st(&mut v, s)),
        Structure::BiosLanguage(b) => bounded("languages", b.installable_languages.clone())
            .iter()
            .for_each(|s| st(&mut v, s)),
        Structure::GroupAssociations(b) => st(&mut v, b.group_name),
        Structure::MemoryDevice(b) => {
            [
                b.device_locator,
                b.bank_locator,
                b.manufacturer,
                b.serial,
                b.asset_tag,
                b.part_number,
            ]
            .iter()
            .for_each(|s| st(&mut v, s));
            so(&mut v, b.firmware_version);
        }
        Structure::PortableBattery(b) => {
            use dmidecode::structures::portable_battery::{
                DeviceChemistry, ManufactureDate, SerialNumber,
            };
            [
                b.location,
                b.manufacturer,
                b.device_name,
                b.sbds_version_number,
            ]
            .iter()
            .for_each(|s| st(&mut v, s));
            if let ManufactureDate::Basic(s) = b.manufacture_date {
                st(&mut v, s);
            }
            if let SerialNumber::Basic(s) = b.serial_number {
                st(&mut v, s);
            }
            if let DeviceChemistry::SmartBatteryDataSpecification(s) = b.device_chemistry {
                st(&mut v, s);
            }
        }
        Structure::Other(b) => {
            v.push(b.data);
            for i in 1..=255u8 {
                match b.find_string(i) {
                    Ok(s) => st(&mut v, s),
                    Err(_) => break,
                }
            }
        }
        _ => {}
    }
    v
}
