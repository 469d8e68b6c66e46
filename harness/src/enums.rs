//! The enumerations of the library with a conversion from a code, by name.

use std::fmt::{Debug, Display};

pub struct En {
    pub name: &'static str,
    pub max: u32,
    /// (Debug, Display, {:#})
    pub conv: fn(u32) -> (String, String, String),
    /// back to the code, where the library has such a conversion
    pub back: Option<fn(u32) -> u32>,
    /// compares the values of two codes
    pub pair: fn(u32, u32) -> Result<(), String>,
}

fn agree<T: Debug + Clone + PartialEq + std::hash::Hash>(
    a: T,
    b: T,
    same: bool,
) -> Result<(), String> {
    let hash = crate::full::hash_of::<T>;
    let (x, y) = (format!("{a:?}"), format!("{b:?}"));
    let equal = a == b;
    #[allow(clippy::nonminimal_bool)]
    if equal != (b == a) || equal == (a != b) || a.clone() != a || !(b == b.clone()) {
        return Err(format!("equality of {x} and {y} contradicts itself"));
    }
    if same && !equal {
        return Err(format!("{x}, decoded twice, differs from itself"));
    }
    if equal && x != y {
        return Err(format!("{x} compares equal to {y}"));
    }
    if equal && hash(&a) != hash(&b)
        || hash(&a) != hash(&a.clone())
        || format!("{:?}", a.clone()) != x
    {
        return Err(format!("equal values, different hashes: {x} and {y}"));
    }
    Ok(())
}

fn dd<T: Debug + Display>(v: T) -> (String, String, String) {
    (format!("{v:?}"), format!("{v}"), format!("{v:#}"))
}
fn d<T: Debug>(v: T) -> (String, String, String) {
    (format!("{v:?}"), String::new(), String::new())
}

macro_rules! en {
    ($out:ident, $name:literal, $t:ty, $int:ty, $max:expr, $f:ident) => {
        $out.push(En {
            name: $name,
            max: $max,
            conv: |c| $f(<$t>::from(c as $int)),
            back: None,
            pair: |a, b| agree(<$t>::from(a as $int), <$t>::from(b as $int), a == b),
        });
    };
    ($out:ident, $name:literal, $t:ty, $int:ty, $max:expr, $f:ident, back) => {
        $out.push(En {
            name: $name,
            max: $max,
            conv: |c| $f(<$t>::from(c as $int)),
            back: Some(|c| <$int>::from(<$t>::from(c as $int)) as u32),
            pair: |a, b| agree(<$t>::from(a as $int), <$t>::from(b as $int), a == b),
        });
    };
}

pub fn all() -> Vec<En> {
    use dmidecode::structures::*;
    let mut v = vec![];
    en!(v, "InfoType", dmidecode::InfoType, u8, 255, dd);
    en!(v, "WakeupType", system::WakeupType, u8, 255, d);
    en!(v, "BoardType", baseboard::BoardType, u8, 255, dd);
    en!(v, "EnclosureType", enclosure::EnclosureType, u8, 255, dd);
    en!(v, "State", enclosure::State, u8, 255, dd);
    en!(v, "SecurityStatus", enclosure::SecurityStatus, u8, 255, dd);
    en!(v, "ProcessorType", processor::ProcessorType, u8, 255, d);
    en!(
        v,
        "ProcessorFamily",
        processor::ProcessorFamily,
        u16,
        65535,
        dd
    );
    en!(
        v,
        "ProcessorUpgrade",
        processor::ProcessorUpgrade,
        u8,
        255,
        dd
    );
    en!(v, "CacheLevel", cache::CacheLevel, u16, 7, dd);
    en!(v, "CacheLocation", cache::CacheLocation, u16, 3, dd);
    en!(
        v,
        "CacheOperationalMode",
        cache::CacheOperationalMode,
        u16,
        3,
        dd
    );
    en!(
        v,
        "CacheErrorCorrectionType",
        cache::CacheErrorCorrectionType,
        u8,
        255,
        dd
    );
    en!(v, "SystemCacheType", cache::SystemCacheType, u8, 255, dd);
    en!(
        v,
        "CacheAssociativity",
        cache::CacheAssociativity,
        u8,
        255,
        dd
    );
    en!(
        v,
        "ConnectorType",
        port_connector::ConnectorType,
        u8,
        255,
        dd
    );
    en!(v, "PortType", port_connector::PortType, u8, 255, dd);
    en!(v, "SlotType", system_slots::SlotType, u8, 255, dd);
    en!(v, "SlotWidth", system_slots::SlotWidth, u8, 255, dd);
    en!(v, "CurrentUsage", system_slots::CurrentUsage, u8, 255, dd);
    en!(v, "SlotLength", system_slots::SlotLength, u8, 255, dd);
    en!(
        v,
        "LogHeaderFormat",
        system_event_log::LogHeaderFormat,
        u8,
        255,
        dd
    );
    en!(
        v,
        "EventLogType",
        system_event_log::EventLogType,
        u8,
        255,
        dd,
        back
    );
    en!(
        v,
        "VariableDataFormatType",
        system_event_log::VariableDataFormatType,
        u8,
        255,
        dd,
        back
    );
    en!(
        v,
        "MemoryArrayLocation",
        physical_memory_array::MemoryArrayLocation,
        u8,
        255,
        dd
    );
    en!(
        v,
        "MemoryArrayUse",
        physical_memory_array::MemoryArrayUse,
        u8,
        255,
        dd
    );
    en!(
        v,
        "MemoryArrayErrorCorrectionTypes",
        physical_memory_array::MemoryArrayErrorCorrectionTypes,
        u8,
        255,
        dd
    );
    en!(
        v,
        "MemoryDevice.ErrorGranularity",
        memory_device::ErrorGranularity,
        u8,
        255,
        d
    );
    en!(
        v,
        "MemoryDevice.ErrorOperation",
        memory_device::ErrorOperation,
        u8,
        255,
        d
    );
    en!(
        v,
        "MemoryDevice.ErrorType",
        memory_device::ErrorType,
        u8,
        255,
        d
    );
    en!(v, "FormFactor", memory_device::FormFactor, u8, 255, d);
    en!(
        v,
        "MemoryTechnology",
        memory_device::MemoryTechnology,
        u8,
        255,
        d
    );
    en!(v, "MemoryDevice.Type", memory_device::Type, u8, 255, d);
    en!(v, "ErrorType", memory_error_32::ErrorType, u8, 255, dd);
    en!(
        v,
        "ErrorGranularity",
        memory_error_32::ErrorGranularity,
        u8,
        255,
        dd
    );
    en!(
        v,
        "ErrorOperation",
        memory_error_32::ErrorOperation,
        u8,
        255,
        dd
    );
    en!(
        v,
        "Pointing.Type",
        built_in_pointing_device::Type,
        u8,
        255,
        dd
    );
    en!(
        v,
        "Pointing.Interface",
        built_in_pointing_device::Interface,
        u8,
        255,
        dd
    );
    v
}
