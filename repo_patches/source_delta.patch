From 2cd48adeb05742aa13488403619a145e2aa64d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:02 +0000
Subject: [PATCH 01/29] fix: accept an entry point followed by 256 or more
 bytes

The remaining buffer size was truncated to u8 before it was compared with
the entry point length, so a valid entry point was rejected as BadSize
depending on how many bytes followed it.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4b6db4b..d21024f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -225,7 +225,7 @@ impl EntryPoint {
                 );
 
                 lib_ensure!(
-                    sub_buffer.len() as u8 >= entry_point.len(),
+                    sub_buffer.len() >= entry_point.len() as usize,
                     InvalidEntryPointError::BadSize(sub_buffer.len() as u8)
                 );
 
-- 
2.43.0


From 0db51c221ea14a9528f5bc2de1700dcf9c4d1308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:04 +0000
Subject: [PATCH 02/29] fix: do not walk past the end of a buffer shorter than
 the declared table

Structures::next panicked (or read a header out of bounds) when the table
length in the entry point exceeded the buffer given to structures().
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d21024f..0830411 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -164,7 +164,8 @@ impl EntryPoint {
     pub fn structures<'buffer>(&self, buffer: &'buffer [u8]) -> Structures<'buffer> {
         Structures {
             smbios_version: self.to_version(),
-            smbios_len: self.smbios_len(),
+            // never walk past the end of a buffer shorter than the declared table
+            smbios_len: self.smbios_len().min(u32::try_from(buffer.len()).unwrap_or(u32::MAX)),
             idx: 0u32,
             buffer,
         }
-- 
2.43.0


From add33d4fd15d650a20a0cbaf31ee64e700dd0921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:07 +0000
Subject: [PATCH 03/29] fix: report a structure shorter than its header instead
 of panicking

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0830411..325c3a2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -531,7 +531,7 @@ impl<'buffer> Structures<'buffer> {
         let_as_struct!(header, HeaderPacked, working);
 
         let strings_idx: u32 = self.idx + header.len as u32;
-        if strings_idx >= self.smbios_len {
+        if (header.len as usize) < mem::size_of::<HeaderPacked>() || strings_idx >= self.smbios_len {
             return Some(Err(MalformedStructureError::BadSize(self.idx, header.len)));
         }
 
-- 
2.43.0


From a3f8359d98292252b9d375977a0a86410a9ad133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:09 +0000
Subject: [PATCH 04/29] fix: do not overflow on raw structure offsets inside
 the header or out of range

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 325c3a2..87fb8fe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -642,15 +642,15 @@ impl<'buffer> RawStructure<'buffer> {
     /// section* it may be ignored to return [None] value of structure field. In this case *Formatted
     /// section* length automatically hide non-existing values
     pub fn get<T: TryFromBytes<'buffer, T>>(&self, offset: usize) -> Result<T, MalformedStructureError> {
-        // Ignore header
-        let start = offset - 4;
         let size = core::mem::size_of::<T>();
-        let slice = self.data.get(start..(start + size)).unwrap_or(&[]);
+        let slice = self.get_slice(offset, size).unwrap_or(&[]);
         TryFromBytes::try_from_bytes(slice).map_err(MalformedStructureError::InvalidSlice)
     }
     /// Wrapper to self.data.get(..) with header offset correction
     pub fn get_slice(&self, offset: usize, size: usize) -> Option<&'buffer [u8]> {
-        self.data.get(offset - 4..offset - 4 + size)
+        // Ignore header
+        let start = offset.checked_sub(4)?;
+        self.data.get(start..start.checked_add(size)?)
     }
     /// Get *STRING* by offset declared in SMBIOS Reference Specification
     pub fn get_string(&self, offset: usize) -> Result<&'buffer str, MalformedStructureError> {
-- 
2.43.0


From e9fbb19ff22b6614e387ac1e310cd0d04e3e9069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:43 +0000
Subject: [PATCH 05/29] fix: do not read fixed layouts past the end of a short
 formatted section

The packed layouts of types 0, 1, 2, 4, 8 and 13 were read through a raw
pointer without comparing their size with the formatted section, which is an
out-of-bounds read (undefined behaviour) for short structures at the end of
the buffer and reports string bytes as fields elsewhere. Fields that the
section does not contain are now absent; a section shorter than the oldest
layout is an InvalidFormattedSectionLength error.
---
 src/structures/000_bios.rs           | 14 ++++++++++++--
 src/structures/001_system.rs         | 16 ++++++++++++++--
 src/structures/002_baseboard.rs      | 15 ++++++++++++++-
 src/structures/004_processor.rs      | 21 ++++++++++++++++-----
 src/structures/008_port_connector.rs |  9 +++++++++
 src/structures/013_bios_language.rs  | 18 ++++++++++++++++++
 6 files changed, 83 insertions(+), 10 deletions(-)

diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index c566d60..13eed66 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -3,6 +3,7 @@
 //! BIOS Information structure
 
 use core::fmt;
+use core::mem::size_of;
 
 use crate::bitfield::{BitField, FlagType, Layout};
 use crate::{MalformedStructureError, RawStructure};
@@ -126,7 +127,7 @@ impl<'buffer> Bios<'buffer> {
         }
 
         match structure.version {
-            v if v >= (3, 1).into() => {
+            v if v >= (3, 1).into() && structure.data.len() >= size_of::<BiosPacked3_1>() => {
                 let_as_struct!(packed, BiosPacked3_1, structure.data);
                 Ok(Bios {
                     handle: structure.handle,
@@ -155,7 +156,7 @@ impl<'buffer> Bios<'buffer> {
                     }),
                 })
             }
-            v if v >= (2, 4).into() => {
+            v if v >= (2, 4).into() && structure.data.len() >= size_of::<BiosPacked2_4>() => {
                 let_as_struct!(packed, BiosPacked2_4, structure.data);
                 Ok(Bios {
                     handle: structure.handle,
@@ -185,6 +186,15 @@ impl<'buffer> Bios<'buffer> {
                 })
             }
             _ => {
+                lib_ensure!(
+                    structure.data.len() >= size_of::<BiosPacked2_0>(),
+                    MalformedStructureError::InvalidFormattedSectionLength(
+                        structure.info,
+                        structure.handle,
+                        "minimum of ",
+                        0x12
+                    )
+                );
                 let_as_struct!(packed, BiosPacked2_0, structure.data);
                 Ok(Bios {
                     handle: structure.handle,
diff --git a/src/structures/001_system.rs b/src/structures/001_system.rs
index 603bc16..8cb68ce 100644
--- a/src/structures/001_system.rs
+++ b/src/structures/001_system.rs
@@ -5,6 +5,8 @@
 //! associated with a single system instance and contains one and only one System Information
 //! (Type 1) structure.
 
+use core::mem::size_of;
+
 use crate::{MalformedStructureError, RawStructure};
 
 /// The wakeup type defined in the SMBIOS specification.
@@ -107,7 +109,17 @@ impl<'buffer> System<'buffer> {
             family: u8,
         }
 
-        if structure.version < (2, 1).into() {
+        lib_ensure!(
+            structure.data.len() >= size_of::<SystemPacked2_0>(),
+            MalformedStructureError::InvalidFormattedSectionLength(
+                structure.info,
+                structure.handle,
+                "minimum of ",
+                0x08
+            )
+        );
+
+        if structure.version < (2, 1).into() || structure.data.len() < size_of::<SystemPacked2_1>() {
             let_as_struct!(packed, SystemPacked2_0, structure.data);
 
             Ok(System {
@@ -121,7 +133,7 @@ impl<'buffer> System<'buffer> {
                 sku: None,
                 family: None,
             })
-        } else if structure.version < (2, 4).into() {
+        } else if structure.version < (2, 4).into() || structure.data.len() < size_of::<SystemPacked2_4>() {
             let_as_struct!(packed, SystemPacked2_1, structure.data);
 
             Ok(System {
diff --git a/src/structures/002_baseboard.rs b/src/structures/002_baseboard.rs
index df02bbd..5aa1b3d 100644
--- a/src/structures/002_baseboard.rs
+++ b/src/structures/002_baseboard.rs
@@ -117,7 +117,20 @@ impl<'buffer> BaseBoard<'buffer> {
             board_type: u8,
         }
 
-        let_as_struct!(packed, BaseBoardPacked, structure.data);
+        lib_ensure!(
+            structure.data.len() >= 4,
+            MalformedStructureError::InvalidFormattedSectionLength(
+                structure.info,
+                structure.handle,
+                "minimum of ",
+                0x08
+            )
+        );
+        // fields behind the end of the formatted section are not reported, so pad them
+        let mut data = [0u8; core::mem::size_of::<BaseBoardPacked>()];
+        let len = structure.data.len().min(data.len());
+        data[..len].copy_from_slice(&structure.data[..len]);
+        let_as_struct!(packed, BaseBoardPacked, data);
 
         let asset = if structure.data.len() > 4 {
             Some(structure.find_string(packed.asset)?)
diff --git a/src/structures/004_processor.rs b/src/structures/004_processor.rs
index 7489fd0..aa03afb 100644
--- a/src/structures/004_processor.rs
+++ b/src/structures/004_processor.rs
@@ -7,6 +7,7 @@
 //! describe the 80487 co1021 processor.
 
 use core::fmt;
+use core::mem::size_of;
 
 use bitflags::bitflags;
 
@@ -615,7 +616,17 @@ impl<'buffer> Processor<'buffer> {
             thread_count_2: u16,
         }
 
-        if structure.version < (2, 1).into() {
+        lib_ensure!(
+            structure.data.len() >= size_of::<ProcessorPacked2_0>(),
+            MalformedStructureError::InvalidFormattedSectionLength(
+                structure.info,
+                structure.handle,
+                "minimum of ",
+                0x1A
+            )
+        );
+
+        if structure.version < (2, 1).into() || structure.data.len() < size_of::<ProcessorPacked2_1>() {
             let_as_struct!(packed, ProcessorPacked2_0, structure.data);
 
             Ok(Processor {
@@ -643,7 +654,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: None,
                 processor_characteristics: None,
             })
-        } else if structure.version < (2, 3).into() {
+        } else if structure.version < (2, 3).into() || structure.data.len() < size_of::<ProcessorPacked2_3>() {
             let_as_struct!(packed, ProcessorPacked2_1, structure.data);
 
             Ok(Processor {
@@ -671,7 +682,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: None,
                 processor_characteristics: None,
             })
-        } else if structure.version < (2, 5).into() {
+        } else if structure.version < (2, 5).into() || structure.data.len() < size_of::<ProcessorPacked2_5>() {
             let_as_struct!(packed, ProcessorPacked2_3, structure.data);
 
             Ok(Processor {
@@ -699,7 +710,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: None,
                 processor_characteristics: None,
             })
-        } else if structure.version < (2, 6).into() {
+        } else if structure.version < (2, 6).into() || structure.data.len() < size_of::<ProcessorPacked2_6>() {
             let_as_struct!(packed, ProcessorPacked2_5, structure.data);
 
             Ok(Processor {
@@ -727,7 +738,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: Some(packed.thread_count as u16),
                 processor_characteristics: None,
             })
-        } else if structure.version < (3, 0).into() {
+        } else if structure.version < (3, 0).into() || structure.data.len() < size_of::<ProcessorPacked3_0>() {
             let_as_struct!(packed, ProcessorPacked2_6, structure.data);
             // smbios spec specifies 0xFE as an indicator to obtain processor
             // family from the Processor Family 2 field.
diff --git a/src/structures/008_port_connector.rs b/src/structures/008_port_connector.rs
index 07f2763..b5d58e3 100644
--- a/src/structures/008_port_connector.rs
+++ b/src/structures/008_port_connector.rs
@@ -136,6 +136,15 @@ impl<'a> PortConnector<'a> {
             external_connector_type: u8,
             port_type: u8,
         }
+        lib_ensure!(
+            structure.data.len() >= core::mem::size_of::<PortConnectorPacked>(),
+            MalformedStructureError::InvalidFormattedSectionLength(
+                structure.info,
+                structure.handle,
+                "minimum of ",
+                0x09
+            )
+        );
         let_as_struct!(packed, PortConnectorPacked, structure.data);
 
         Ok(PortConnector {
diff --git a/src/structures/013_bios_language.rs b/src/structures/013_bios_language.rs
index 4879e47..4ddeed6 100644
--- a/src/structures/013_bios_language.rs
+++ b/src/structures/013_bios_language.rs
@@ -50,6 +50,15 @@ impl<'a> BiosLanguage<'a> {
 
         match structure.version {
             v if v >= (2, 1).into() => {
+                lib_ensure!(
+                    structure.data.len() >= core::mem::size_of::<BiosLanguagePacked2_1>(),
+                    MalformedStructureError::InvalidFormattedSectionLength(
+                        structure.info,
+                        structure.handle,
+                        "minimum of ",
+                        0x16
+                    )
+                );
                 let_as_struct!(packed, BiosLanguagePacked2_1, structure.data);
                 Ok(BiosLanguage {
                     handle: structure.handle,
@@ -59,6 +68,15 @@ impl<'a> BiosLanguage<'a> {
                 })
             }
             _ => {
+                lib_ensure!(
+                    structure.data.len() >= core::mem::size_of::<BiosLanguagePacked2_0>(),
+                    MalformedStructureError::InvalidFormattedSectionLength(
+                        structure.info,
+                        structure.handle,
+                        "minimum of ",
+                        0x15
+                    )
+                );
                 let_as_struct!(packed, BiosLanguagePacked2_0, structure.data);
                 Ok(BiosLanguage {
                     handle: structure.handle,
-- 
2.43.0


From 23163b8a4a93705e8bf084518340320815415eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:05 +0000
Subject: [PATCH 06/29] fix: select the cache layout by the version that
 introduced it

The version gates were off by one: SMBIOS 3.1 tables lost the second sizes,
2.1 tables lost speed, error correction, type and associativity, and 2.0
tables panicked. A formatted section too short for a layout was read out of
bounds.
---
 src/structures/007_cache.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/structures/007_cache.rs b/src/structures/007_cache.rs
index 7b1c8b7..5ad18ea 100644
--- a/src/structures/007_cache.rs
+++ b/src/structures/007_cache.rs
@@ -6,6 +6,7 @@
 //! depending on the SMBIOS version.
 
 use core::fmt;
+use core::mem::size_of;
 
 use bitflags::bitflags;
 
@@ -212,7 +213,7 @@ impl<'buffer> Cache<'buffer> {
         }
 
         match structure.version {
-            v if v > (3, 1).into() => {
+            v if v >= (3, 1).into() && structure.data.len() >= size_of::<CachePacked3_1>() => {
                 let_as_struct!(packed, CachePacked3_1, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -230,7 +231,7 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: Some(packed.installed_size_2.into()),
                 })
             }
-            v if v > (2, 1).into() => {
+            v if v >= (2, 1).into() && structure.data.len() >= size_of::<CachePacked2_1>() => {
                 let_as_struct!(packed, CachePacked2_1, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -248,7 +249,16 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: None,
                 })
             }
-            v if v > (2, 0).into() => {
+            _ => {
+                lib_ensure!(
+                    structure.data.len() >= size_of::<CachePacked2_0>(),
+                    MalformedStructureError::InvalidFormattedSectionLength(
+                        structure.info,
+                        structure.handle,
+                        "minimum of ",
+                        0x0F
+                    )
+                );
                 let_as_struct!(packed, CachePacked2_0, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -266,7 +276,6 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: None,
                 })
             }
-            _ => unreachable!(),
         }
     }
 }
-- 
2.43.0


From 240372a3324afa43aaee2d4358d2b3dab4593d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:08 +0000
Subject: [PATCH 07/29] fix: decode memory arrays of SMBIOS 2.1 and 2.7 tables
 and short ones

The version gates were off by one (a 2.1 table gave an all-default array
without handle, a 2.7 table lost the extended capacity), and a formatted
section that ends early panicked instead of giving an error.
---
 src/structures/016_physical_memory_array.rs | 25 ++++++++++++---------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/structures/016_physical_memory_array.rs b/src/structures/016_physical_memory_array.rs
index c446863..3b332e0 100644
--- a/src/structures/016_physical_memory_array.rs
+++ b/src/structures/016_physical_memory_array.rs
@@ -196,21 +196,23 @@ pub struct PhysicalMemoryArray {
 
 impl PhysicalMemoryArray {
     pub(crate) fn try_from(structure: RawStructure) -> Result<Self, MalformedStructureError> {
-        let mut pma = PhysicalMemoryArray::default();
+        let mut pma = PhysicalMemoryArray {
+            handle: structure.handle,
+            ..PhysicalMemoryArray::default()
+        };
         let mut mem_pointer = 0;
-        if structure.version > (2, 1).into() {
-            pma.handle = structure.handle;
-            pma.location = MemoryArrayLocation::from(structure.data[mem_pointer]);
+        if structure.version >= (2, 1).into() {
+            pma.location = structure.get::<u8>(0x04)?.into();
             mem_pointer += 1;
-            pma.r#use = MemoryArrayUse::from(structure.data[mem_pointer]);
+            pma.r#use = structure.get::<u8>(0x05)?.into();
             mem_pointer += 1;
-            pma.memory_error_correction = MemoryArrayErrorCorrectionTypes::from(structure.data[mem_pointer]);
+            pma.memory_error_correction = structure.get::<u8>(0x06)?.into();
             mem_pointer += 1;
             pma.maximum_capacity = get_optional_dword(&mut mem_pointer, structure.data, 0x80000000)?;
             pma.memory_error_information_handle = get_optional_word(&mut mem_pointer, structure.data, 0xFFFE)?;
             pma.number_of_memory_devices = get_word(&mut mem_pointer, structure.data)?;
         }
-        if structure.version > (2, 7).into() {
+        if structure.version >= (2, 7).into() {
             pma.extended_maximum_capacity = if pma.maximum_capacity.is_none() {
                 get_optional_qword(&mut mem_pointer, structure.data, 0)?
             } else {
@@ -250,7 +252,8 @@ fn get_optional_word(pointer: &mut usize, data: &[u8], none_val: u16) -> Result<
 
 fn get_word(pointer: &mut usize, data: &[u8]) -> Result<u16, MalformedStructureError> {
     let word = u16::from_le_bytes(
-        data[*pointer..(*pointer + 2)]
+        data.get(*pointer..(*pointer + 2))
+            .unwrap_or(&[])
             .try_into()
             .map_err(MalformedStructureError::InvalidSlice)?,
     );
@@ -260,7 +263,8 @@ fn get_word(pointer: &mut usize, data: &[u8]) -> Result<u16, MalformedStructureE
 
 fn get_dword(pointer: &mut usize, data: &[u8]) -> Result<u32, MalformedStructureError> {
     let dword = u32::from_le_bytes(
-        data[*pointer..(*pointer + 4)]
+        data.get(*pointer..(*pointer + 4))
+            .unwrap_or(&[])
             .try_into()
             .map_err(MalformedStructureError::InvalidSlice)?,
     );
@@ -270,7 +274,8 @@ fn get_dword(pointer: &mut usize, data: &[u8]) -> Result<u32, MalformedStructure
 
 fn get_qword(pointer: &mut usize, data: &[u8]) -> Result<u64, MalformedStructureError> {
     let qword = u64::from_le_bytes(
-        data[*pointer..(*pointer + 8)]
+        data.get(*pointer..(*pointer + 8))
+            .unwrap_or(&[])
             .try_into()
             .map_err(MalformedStructureError::InvalidSlice)?,
     );
-- 
2.43.0


From 70792ae81502ddcf2c0e518a316e46247f75bd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:35 +0000
Subject: [PATCH 08/29] fix: do not overflow the size of the contained elements
 of an enclosure

---
 src/structures/003_enclosure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/003_enclosure.rs b/src/structures/003_enclosure.rs
index a50ede4..6ba9b49 100644
--- a/src/structures/003_enclosure.rs
+++ b/src/structures/003_enclosure.rs
@@ -421,7 +421,7 @@ impl<'buffer> ContainedElements<'buffer> {
             });
         }
 
-        let length = (count * record_length) as usize;
+        let length = count as usize * record_length as usize;
         let chunks = data.get(0..length)?.chunks(record_length as usize);
         *data = &data[length..];
         Some(Self {
-- 
2.43.0


From e46cd615774a9f74d342d66a86cbfa3f6ab2d6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:37 +0000
Subject: [PATCH 09/29] fix: do not read contained elements and peer devices
 past a short record

Both conversions read a packed layout through a raw pointer whatever the
length of the given slice (an enclosure record length of 1 or 2, or any
caller of these public conversions).
---
 src/structures/003_enclosure.rs    | 6 +++++-
 src/structures/009_system_slots.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/structures/003_enclosure.rs b/src/structures/003_enclosure.rs
index 6ba9b49..633a02e 100644
--- a/src/structures/003_enclosure.rs
+++ b/src/structures/003_enclosure.rs
@@ -468,7 +468,11 @@ impl From<&[u8]> for ContainedElement {
             minimum: u8,
             maximum: u8,
         }
-        let_as_struct!(packed, ContainedElement2_3, data);
+        // a short record has no bounds, do not read them from behind it
+        let mut record = [0u8; core::mem::size_of::<ContainedElement2_3>()];
+        let len = data.len().min(record.len());
+        record[..len].copy_from_slice(&data[..len]);
+        let_as_struct!(packed, ContainedElement2_3, record);
         ContainedElement {
             type_: packed.type_.into(),
             minimum: packed.minimum,
diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index 3e32189..27ce795 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -797,7 +797,11 @@ impl From<u8> for SlotCharacteristics2 {
 
 impl<'a> From<&'a [u8]> for Device {
     fn from(data: &'a [u8]) -> Device {
-        let_as_struct!(packed, DevicePacked, data);
+        // do not read missing bytes from behind a short group
+        let mut group = [0u8; core::mem::size_of::<DevicePacked>()];
+        let len = data.len().min(group.len());
+        group[..len].copy_from_slice(&data[..len]);
+        let_as_struct!(packed, DevicePacked, group);
         Device {
             segment_group_number: packed.segment_group_number,
             bus_number: packed.bus_number,
-- 
2.43.0


From 2859ff437131adcf586fea7b8b06b6c324334713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:39 +0000
Subject: [PATCH 10/29] fix: report a group association without a body instead
 of underflowing

---
 src/structures/014_group_associations.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/structures/014_group_associations.rs b/src/structures/014_group_associations.rs
index e78e9f7..1393f4e 100644
--- a/src/structures/014_group_associations.rs
+++ b/src/structures/014_group_associations.rs
@@ -41,15 +41,15 @@ pub struct GroupItem {
 impl<'a> GroupAssociations<'a> {
     pub(crate) fn try_from(structure: RawStructure<'a>) -> Result<Self, MalformedStructureError> {
         let handle = structure.handle;
-        let slice =
-            structure
-                .get_slice(0x05, structure.length as usize - 0x05)
-                .ok_or(InvalidFormattedSectionLength(
-                    InfoType::GroupAssociations,
-                    handle,
-                    "",
-                    structure.length,
-                ))?;
+        let slice = (structure.length as usize)
+            .checked_sub(0x05)
+            .and_then(|size| structure.get_slice(0x05, size))
+            .ok_or(InvalidFormattedSectionLength(
+                InfoType::GroupAssociations,
+                handle,
+                "minimum of ",
+                0x05,
+            ))?;
         Ok(GroupAssociations {
             handle,
             group_name: structure.get_string(0x04)?,
-- 
2.43.0


From 0c4197072f854c5b30272aaa6e412e29aac50e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:42 +0000
Subject: [PATCH 11/29] fix: do not overflow the index of the installable
 languages iterator

With 255 languages (or with next() called again after the end) the u8 index
overflowed: a panic in checked builds and an endless iteration otherwise.
---
 src/structures/013_bios_language.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/structures/013_bios_language.rs b/src/structures/013_bios_language.rs
index 4ddeed6..fe050ff 100644
--- a/src/structures/013_bios_language.rs
+++ b/src/structures/013_bios_language.rs
@@ -99,7 +99,11 @@ impl<'a> Iterator for InstallableLanguages<'a> {
     type Item = &'a str;
     fn next(&mut self) -> Option<Self::Item> {
         let index = self.index;
-        self.index += 1;
+        // 0 marks that the last possible string (FFh) has been returned
+        if index == 0 {
+            return None;
+        }
+        self.index = index.wrapping_add(1);
         self.structure.find_string(index).ok()
     }
 }
-- 
2.43.0


From 7c2fe49dac6189604c83d930fd157f463d769b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:30 +0000
Subject: [PATCH 12/29] fix: do not panic on event logs with empty type
 descriptors

A descriptor length of 0 (with any count) is accepted by the length check but
made chunks() panic.
---
 src/structures/015_system_event_log/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/structures/015_system_event_log/mod.rs b/src/structures/015_system_event_log/mod.rs
index 0c8711b..9ccc6c9 100644
--- a/src/structures/015_system_event_log/mod.rs
+++ b/src/structures/015_system_event_log/mod.rs
@@ -356,7 +356,8 @@ impl fmt::Display for LogHeaderFormat {
 
 impl<'a> SupportedEventLogTypeDescriptors<'a> {
     fn new(data: &'a [u8], size: usize) -> Self {
-        Self(data.chunks(size))
+        // the data is empty when the size is 0, but chunks(0) panics
+        Self(data.chunks(size.max(1)))
     }
 }
 impl PartialEq for SupportedEventLogTypeDescriptors<'_> {
-- 
2.43.0


From f4bd5665b3ceecbf529e97ec961b594af0429edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:32 +0000
Subject: [PATCH 13/29] fix: state the real minimum length of an event log in
 its error

---
 src/structures/015_system_event_log/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/015_system_event_log/mod.rs b/src/structures/015_system_event_log/mod.rs
index 9ccc6c9..ee4aa17 100644
--- a/src/structures/015_system_event_log/mod.rs
+++ b/src/structures/015_system_event_log/mod.rs
@@ -181,7 +181,7 @@ impl<'a> SystemEventLog<'a> {
                         InfoType::SystemEventLog,
                         handle,
                         "minimum of ",
-                        0,
+                        0x17,
                     ))
                 }
             }
-- 
2.43.0


From 322eb29f83385573b13189f4bc9c7e29d6aebd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:34 +0000
Subject: [PATCH 14/29] fix: do not panic on BIOS ROM sizes without a usable
 extended size

FFh denotes 16 MB before SMBIOS 3.1 (64K * (n + 1)) and 16 MB or more
afterwards; both a missing extended size and a reserved unit in it panicked.
---
 src/structures/000_bios.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index 13eed66..7316579 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -327,18 +327,20 @@ impl BitField<'_> for CharacteristicsExtension2 {
 
 impl From<RomSize> for u64 {
     fn from(rom_size: RomSize) -> Self {
+        // 64K * (n + 1); FFh is 16 MB, or more if there is an extended size
+        let basic = (rom_size.basic as u64 + 1) * (64 << 10);
         if rom_size.basic != 0xFF {
-            (rom_size.basic + 1) as u64 * (64 << 10)
+            basic
         } else if let Some(extended) = rom_size.extended {
             let unit = (extended >> 14) & 0b11;
             let size = (extended & 0x3fff) as u64;
             match unit {
                 0b00 => size << 20,
                 0b01 => size << 30,
-                _ => unimplemented!(),
+                _ => basic,
             }
         } else {
-            unreachable!();
+            basic
         }
     }
 }
-- 
2.43.0


From 5bb1d7715a6480ccfd2aedd58b34d657c0db12e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:36 +0000
Subject: [PATCH 15/29] fix: compute battery capacities above 65535 mWh without
 overflow

---
 src/structures/022_portable_battery.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/022_portable_battery.rs b/src/structures/022_portable_battery.rs
index c1d4600..21676a5 100644
--- a/src/structures/022_portable_battery.rs
+++ b/src/structures/022_portable_battery.rs
@@ -236,7 +236,7 @@ impl From<DesignCapacity> for u64 {
     fn from(dc: DesignCapacity) -> Self {
         match dc {
             DesignCapacity::Unknown => 0,
-            DesignCapacity::Data { value, multiplier } => (value * multiplier as u16).into(),
+            DesignCapacity::Data { value, multiplier } => value as u64 * multiplier as u64,
         }
     }
 }
-- 
2.43.0


From c90443a116d9f0aa0900db02542a359c30180473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:38 +0000
Subject: [PATCH 16/29] fix: decode SFF-8639 (U.2) slot types as such

---
 src/structures/009_system_slots.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index 27ce795..f3fd7e5 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -437,13 +437,13 @@ impl From<u8> for SlotType {
             0x1C => SlotType::MxmType4,
             0x1D => SlotType::Mxm3TypeA,
             0x1E => SlotType::Mxm3TypeB,
-            0x1F => SlotType::PciExpressGen2,
-            0x20 => SlotType::PciExpressGen3,
+            0x1F => SlotType::U2PciExpressGen2,
+            0x20 => SlotType::U2PciExpressGen3,
             0x21 => SlotType::PciExpressMini52pin1,
             0x22 => SlotType::PciExpressMini52pin2,
             0x23 => SlotType::PciExpressMini76pin,
-            0x24 => SlotType::PciExpressGen4,
-            0x25 => SlotType::PciExpressGen5,
+            0x24 => SlotType::U2PciExpressGen4,
+            0x25 => SlotType::U2PciExpressGen5,
             0x26 => SlotType::OcpNic3Small,
             0x27 => SlotType::OcpNic3Large,
             0x28 => SlotType::OcpNicPriorTo3,
-- 
2.43.0


From d1a3bf4837bc332964cd40eecdcead9e18d46ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:40 +0000
Subject: [PATCH 17/29] fix: print the slot pitch in its documented unit of
 1/100 mm

---
 src/structures/009_system_slots.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index f3fd7e5..529b7c4 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -881,7 +881,7 @@ impl fmt::Display for SlotPitch {
         if self.0 == 0 {
             write!(f, "Not given or is unknown")
         } else {
-            write!(f, "{:.1} mm", (self.0 as f32) / 10.0)
+            write!(f, "{:.2} mm", (self.0 as f32) / 100.0)
         }
     }
 }
-- 
2.43.0


From 71d4ba5d6f175d32822d881e0ceab7f21c4f1777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:42 +0000
Subject: [PATCH 18/29] fix: decode memory device form factors by their SMBIOS
 codes

The codes below DIMM (09h) were off by one: SMBIOS defines 01h Other,
02h Unknown, 03h SIMM ... 08h proprietary card.
---
 src/structures/017_memory_device.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/structures/017_memory_device.rs b/src/structures/017_memory_device.rs
index 41cea72..1774b77 100644
--- a/src/structures/017_memory_device.rs
+++ b/src/structures/017_memory_device.rs
@@ -122,15 +122,14 @@ pub enum FormFactor {
 impl From<u8> for FormFactor {
     fn from(_type: u8) -> FormFactor {
         match _type {
-            0 => FormFactor::Other,
-            1 => FormFactor::Unknown,
-            2 => FormFactor::Simm,
-            3 => FormFactor::Sip,
-            4 => FormFactor::Chip,
-            5 => FormFactor::Dip,
-            6 => FormFactor::Zip,
-            7 => FormFactor::ProprietaryCard,
-            8 => FormFactor::Dimm,
+            1 => FormFactor::Other,
+            2 => FormFactor::Unknown,
+            3 => FormFactor::Simm,
+            4 => FormFactor::Sip,
+            5 => FormFactor::Chip,
+            6 => FormFactor::Dip,
+            7 => FormFactor::Zip,
+            8 => FormFactor::ProprietaryCard,
             9 => FormFactor::Dimm,
             10 => FormFactor::Tsop,
             11 => FormFactor::RowOfChips,
-- 
2.43.0


From 08ca8780eb2d59c6a14aab3f72f146a82cfcc74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:44 +0000
Subject: [PATCH 19/29] fix: decode PC-98 and CXL memory array locations by
 their SMBIOS codes

SMBIOS assigns A0h to A4h, not 0Bh to 0Fh, to these locations.
---
 src/structures/016_physical_memory_array.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/structures/016_physical_memory_array.rs b/src/structures/016_physical_memory_array.rs
index 3b332e0..424c75d 100644
--- a/src/structures/016_physical_memory_array.rs
+++ b/src/structures/016_physical_memory_array.rs
@@ -42,11 +42,11 @@ impl From<u8> for MemoryArrayLocation {
             8 => Self::PcmciaAddOnCard,
             9 => Self::ProprietaryAddOnCard,
             10 => Self::NuBus,
-            11 => Self::Pc98c20AddOnCard,
-            12 => Self::Pc98c24AddOnCard,
-            13 => Self::Pc98eAddOnCard,
-            14 => Self::Pc98LocalBusAddOnCard,
-            15 => Self::CxlAddOnCard,
+            0xA0 => Self::Pc98c20AddOnCard,
+            0xA1 => Self::Pc98c24AddOnCard,
+            0xA2 => Self::Pc98eAddOnCard,
+            0xA3 => Self::Pc98LocalBusAddOnCard,
+            0xA4 => Self::CxlAddOnCard,
             t => Self::Undefined(t),
         }
     }
-- 
2.43.0


From 97ab0a3433812123dd5fb790f130966d96527ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:46 +0000
Subject: [PATCH 20/29] fix: report a baseboard chassis handle only when both
 its bytes are present

---
 src/structures/002_baseboard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/002_baseboard.rs b/src/structures/002_baseboard.rs
index 5aa1b3d..a15a0bd 100644
--- a/src/structures/002_baseboard.rs
+++ b/src/structures/002_baseboard.rs
@@ -147,7 +147,7 @@ impl<'buffer> BaseBoard<'buffer> {
         } else {
             None
         };
-        let chassis_handle = if structure.data.len() > 7 {
+        let chassis_handle = if structure.data.len() > 8 {
             Some(packed.chassis_handle)
         } else {
             None
-- 
2.43.0


From 107acbfadc32ff3b78b73c662a5245ca254c7cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:48 +0000
Subject: [PATCH 21/29] fix: report processor characteristics of SMBIOS 2.5
 tables

---
 src/structures/004_processor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/structures/004_processor.rs b/src/structures/004_processor.rs
index aa03afb..127f76c 100644
--- a/src/structures/004_processor.rs
+++ b/src/structures/004_processor.rs
@@ -736,7 +736,9 @@ impl<'buffer> Processor<'buffer> {
                 core_count: Some(packed.core_count as u16),
                 core_enabled: Some(packed.core_enabled as u16),
                 thread_count: Some(packed.thread_count as u16),
-                processor_characteristics: None,
+                processor_characteristics: Some(ProcessorCharacteristics::from_bits_truncate(
+                    packed.processor_characteristics,
+                )),
             })
         } else if structure.version < (3, 0).into() || structure.data.len() < size_of::<ProcessorPacked3_0>() {
             let_as_struct!(packed, ProcessorPacked2_6, structure.data);
-- 
2.43.0


From b1507e5d64db7ec3f49405026c8c37963b5c4cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:50 +0000
Subject: [PATCH 22/29] fix: accept memory devices of SMBIOS 2.1 to 2.6 tables

The decoder announces everything after the 2.1 layout (15h bytes) as
optional, but rejected the 2.1 (15h), 2.3 (1Bh) and 2.6 (1Ch) layouts because
the later non-optional fields were required. They now have the value that
SMBIOS defines for 'not given'.
---
 src/structures/017_memory_device.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/structures/017_memory_device.rs b/src/structures/017_memory_device.rs
index 1774b77..d538d4c 100644
--- a/src/structures/017_memory_device.rs
+++ b/src/structures/017_memory_device.rs
@@ -389,6 +389,9 @@ impl<'a> MemoryDevice<'a> {
             ));
         }
 
+        // 0 is the number of a string that is not given
+        let optional_string = |offset| structure.find_string(structure.get::<u8>(offset).unwrap_or(0));
+
         Ok(MemoryDevice {
             handle,
             physical_memory_handle: structure.get::<u16>(0x04)?,
@@ -403,12 +406,12 @@ impl<'a> MemoryDevice<'a> {
             memory_type: structure.get::<u8>(0x12)?.into(),
             type_detail: Detail::from_bits_truncate(structure.get::<u16>(0x13)?),
             speed: structure.get::<u16>(0x15).ok().filter(|v| v != &0x0000),
-            manufacturer: structure.get_string(0x17)?,
-            serial: structure.get_string(0x18)?,
-            asset_tag: structure.get_string(0x19)?,
-            part_number: structure.get_string(0x1A)?,
-            attributes: structure.get::<u8>(0x1B)?,
-            extended_size: structure.get::<u32>(0x1C)?,
+            manufacturer: optional_string(0x17)?,
+            serial: optional_string(0x18)?,
+            asset_tag: optional_string(0x19)?,
+            part_number: optional_string(0x1A)?,
+            attributes: structure.get::<u8>(0x1B).unwrap_or(0),
+            extended_size: structure.get::<u32>(0x1C).unwrap_or(0),
             configured_memory_speed: structure.get::<u16>(0x20).ok().filter(|v| v != &0x0000),
             minimum_voltage: structure.get::<u16>(0x22).ok().filter(|v| v != &0x0000),
             maximum_voltage: structure.get::<u16>(0x24).ok().filter(|v| v != &0x0000),
-- 
2.43.0


From 3a87039aa26874e6b6ee22cd8e616602037cb368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:53 +0000
Subject: [PATCH 23/29] fix: separate the words of the memory device length
 error

---
 src/structures/017_memory_device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/017_memory_device.rs b/src/structures/017_memory_device.rs
index d538d4c..4fd746b 100644
--- a/src/structures/017_memory_device.rs
+++ b/src/structures/017_memory_device.rs
@@ -384,7 +384,7 @@ impl<'a> MemoryDevice<'a> {
             return Err(InvalidFormattedSectionLength(
                 InfoType::MemoryDevice,
                 handle,
-                "at least",
+                "at least ",
                 0x15,
             ));
         }
-- 
2.43.0


From cc98f91fa505a0bf0eafd0df26772e98999b7a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:12 +0000
Subject: [PATCH 24/29] fix: report single reserved bits that follow other
 reserved bits

The end of a reserved range was forgotten between two calls, so a one-bit
range right after a differently described one was reported as n..=0.
---
 src/bitfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bitfield.rs b/src/bitfield.rs
index 9272f3a..80b78b9 100644
--- a/src/bitfield.rs
+++ b/src/bitfield.rs
@@ -291,7 +291,7 @@ impl<'a, T> Reserved<'a, T> {
 impl<'a, T: Into<u128> + Copy + fmt::Debug> Iterator for Reserved<'a, T> {
     type Item = ReservedRange<'a>;
     fn next(&mut self) -> Option<Self::Item> {
-        let mut end = 0;
+        let mut end = self.start;
         for Flag {
             position: Position(p),
             type_,
-- 
2.43.0


From 7c992421973828746ad4db10eea96610fc590520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:14 +0000
Subject: [PATCH 25/29] fix: iterate bit fields with the default (empty) layout

The default layout of the trait made iter() panic; bits without a layout
entry are of the default (unknown) type.
---
 src/bitfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bitfield.rs b/src/bitfield.rs
index 80b78b9..0ddb9a8 100644
--- a/src/bitfield.rs
+++ b/src/bitfield.rs
@@ -188,7 +188,7 @@ impl<'a, T: Into<u128> + Copy> Iterator for Iter<'a, T> {
             Some(Flag {
                 position: Position(p),
                 is_set,
-                type_: self.layout[p],
+                type_: self.layout.get(p).copied().unwrap_or_default(),
             })
         }
     }
-- 
2.43.0


From 04e5b13843709cda0d943c66af44210642d6d31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:36 +0000
Subject: [PATCH 26/29] fix: state the real minimum length of an enclosure in
 its error

The number given left out the four header bytes, so a structure of length 5
to 8 was rejected for not having a minimum of 5 bytes.
---
 src/structures/003_enclosure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/003_enclosure.rs b/src/structures/003_enclosure.rs
index 633a02e..b3a30c7 100644
--- a/src/structures/003_enclosure.rs
+++ b/src/structures/003_enclosure.rs
@@ -197,7 +197,7 @@ impl<'buffer> Enclosure<'buffer> {
                 structure.info,
                 structure.handle,
                 "minimum of ",
-                core::mem::size_of::<EnclosurePacked2_0>() as u8,
+                0x09,
             ));
         }
 
-- 
2.43.0


From 2e7cd943ce6eac82d698398ac192419e1c59a095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:39 +0000
Subject: [PATCH 27/29] fix: report the first BIOS characteristics extension
 byte from version 2.1 on

As documented on the field, the byte at offset 12h is defined from SMBIOS 2.1
on, but it was only reported for complete structures of version 2.4.
---
 src/structures/000_bios.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index 7316579..3070aaa 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -207,7 +207,12 @@ impl<'buffer> Bios<'buffer> {
                         extended: None,
                     },
                     bios_characteristics: Characteristics(packed.bios_characteristics),
-                    bios_characteristics_exttension_1: None,
+                    // the first extension byte is there from version 2.1 on
+                    bios_characteristics_exttension_1: structure
+                        .data
+                        .get(size_of::<BiosPacked2_0>())
+                        .filter(|_| structure.version >= (2, 1).into())
+                        .map(|&byte| CharacteristicsExtension1(byte)),
                     bios_characteristics_exttension_2: None,
                     bios_revision: None,
                     firmware_revision: None,
-- 
2.43.0


From 6ad494b208da466410312585b532e0b1531be7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:14 +0000
Subject: [PATCH 28/29] fix: yield event log type descriptors longer than two
 bytes

SMBIOS lets the length of each descriptor grow in later versions and asks
software not to assume it; such descriptors were accepted but none was yielded.
---
 src/structures/015_system_event_log/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/structures/015_system_event_log/mod.rs b/src/structures/015_system_event_log/mod.rs
index ee4aa17..ce8f9ae 100644
--- a/src/structures/015_system_event_log/mod.rs
+++ b/src/structures/015_system_event_log/mod.rs
@@ -375,7 +375,8 @@ impl Iterator for SupportedEventLogTypeDescriptors<'_> {
     type Item = EventLogTypeDescriptor;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let next = self.0.next()?;
+        // an entry may be longer than the two bytes defined so far
+        let next = self.0.next()?.get(..2)?;
         next.try_into().ok().map(|a: [u8; 2]| EventLogTypeDescriptor {
             log_type: a[0].into(),
             variable_data_format_type: a[1].into(),
-- 
2.43.0


From 3ce32e943748656d124bc5bf8b537fa212f7c439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:53 +0000
Subject: [PATCH 29/29] fix: walk tables whose last structure ends past 4 GiB
 without overflow

---
 src/lib.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 87fb8fe..2fc0d6b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -523,21 +523,24 @@ impl<'buffer> Iterator for Structures<'buffer> {
 
 impl<'buffer> Structures<'buffer> {
     fn next_raw(&mut self) -> Option<Result<RawStructure<'buffer>, MalformedStructureError>> {
-        if (self.idx + mem::size_of::<HeaderPacked>() as u32) > self.smbios_len {
+        let idx = self.idx as usize;
+        let smbios_len = self.smbios_len as usize;
+        let data_idx = idx + mem::size_of::<HeaderPacked>();
+        if data_idx > smbios_len {
             return None;
         }
 
-        let working = &self.buffer[(self.idx as usize)..];
+        let working = &self.buffer[idx..];
         let_as_struct!(header, HeaderPacked, working);
 
-        let strings_idx: u32 = self.idx + header.len as u32;
-        if (header.len as usize) < mem::size_of::<HeaderPacked>() || strings_idx >= self.smbios_len {
+        let strings_idx = idx + header.len as usize;
+        if (header.len as usize) < mem::size_of::<HeaderPacked>() || strings_idx >= smbios_len {
             return Some(Err(MalformedStructureError::BadSize(self.idx, header.len)));
         }
 
-        let term = find_nulnul(&self.buffer[(strings_idx as usize)..]);
-        let strings_len = match term {
-            Some(terminator) => (terminator + 1) as u32,
+        let term = find_nulnul(&self.buffer[strings_idx..]);
+        let end_idx = match term {
+            Some(terminator) => strings_idx + terminator + 1,
             None => {
                 return Some(Err(MalformedStructureError::UnterminatedStrings(self.idx)));
             }
@@ -548,11 +551,12 @@ impl<'buffer> Structures<'buffer> {
             info: header.kind.into(),
             length: header.len,
             handle: header.handle,
-            data: &self.buffer[(self.idx + mem::size_of::<HeaderPacked>() as u32) as usize..strings_idx as usize],
-            strings: &self.buffer[strings_idx as usize..(strings_idx + strings_len) as usize],
+            data: &self.buffer[data_idx..strings_idx],
+            strings: &self.buffer[strings_idx..end_idx],
         };
 
-        self.idx = strings_idx + strings_len;
+        // The buffer may reach past what an u32 can index, but no structure starts there.
+        self.idx = u32::try_from(end_idx).unwrap_or(u32::MAX);
 
         Some(Ok(structure))
     }
-- 
2.43.0

