From 3839d17679f8be5985f245b620ea73912475d3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:52 +0000
Subject: [PATCH 01/38] fix: decode DPT 9 values with exponent >= 8 and with
 mantissa -2048

The exponent of a 2 byte float is unsigned, and 0x8000 style encodings
(negative sign, zero mantissa bits) underflowed the mantissa and panicked.
---
 src/dp_types.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 89cb7ed..bde57b4 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -251,19 +251,13 @@ fn bytes_to_float(bytes: &[u8]) -> Result<f32, Whatever> {
         Ok(v) => v,
         Err(e) => whatever!("Wrong bytes count, {:?}", e),
     });
-    let sign = if value & 0x8000 > 0 { -1f32 } else { 1f32 };
-    let mut exp = ((value & 0b0111_1000_0000_0000) >> 11) as i16;
-    if (exp & 8) > 0 {
-        exp -= 1;
-        exp ^= 0xf;
-        exp += -1;
-    }
-    let mut mantissa = value & 0x07ff;
-    if sign < 0.0 {
-        mantissa -= 1;
-        mantissa ^= 0x7ff;
-    }
-    let mantissa: f32 = mantissa as f32 * sign;
+    // The exponent is unsigned, sign bit and mantissa together are a 12 bit two's complement number
+    let exp = (value & 0b0111_1000_0000_0000) >> 11;
+    let mut mantissa = (value & 0x07ff) as i16;
+    if value & 0x8000 > 0 {
+        mantissa -= 2048;
+    }
+    let mantissa = mantissa as f32;
     Ok((0.01 * mantissa) * (1 << exp) as f32)
 }
 
-- 
2.43.0


From 35cd5a9896c11e19ea419bde007281ebf56d7231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:52 +0000
Subject: [PATCH 02/38] fix: encode every DPT 9 value to its nearest
 representation

Values that round to mantissa 2048 (20.48) were encoded as 0, small negative
values that round to 0 as -20.48, values outside the range overflowed the
exponent and infinite values never terminated.
---
 src/dp_types.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index bde57b4..9ea41e4 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -226,20 +226,22 @@ fn _float_to_bytes(value: f32) -> Vec<u8> {
 // https://github.com/calimero-project/calimero-core/blob/d6fee46dbfeda9ddc90e77e25444dc1b1dd98f82/src/tuwien/auto/calimero/dptxlator/DPTXlator2ByteFloat.java#L300
 //
 fn calimero_float_to_bytes(v: f32) -> Vec<u8> {
-    let mut v = v * 100.0;
+    // Limit to the encodable range, -671088.64 to 670760.96
+    let mut v = (v * 100.0).clamp(-67108864.0, 67076096.0);
     let mut exp = 0;
     while v < -2048.0 {
         v /= 2.0;
         exp += 1;
     }
-    while v > 2048.0 {
+    while v.round() > 2047.0 {
         v /= 2.0;
         exp += 1;
     }
 
-    let m = v.round() as i16 & 0x7ff;
+    let rounded = v.round() as i16;
+    let m = rounded & 0x7ff;
     let mut msb: u8 = (exp << 3 | m >> 8) as u8;
-    if v < 0.0 {
+    if rounded < 0 {
         msb |= 0x80;
     }
     let lsb = (m & 0xff) as u8;
-- 
2.43.0


From 12d7bea405b639112aa5b17ae21440fcf8764af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:52 +0000
Subject: [PATCH 03/38] fix: implement PdtKnxByte::is_small

Writing a byte datapoint with APDU::group_value_write_pd panicked.
---
 src/dp_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 9ea41e4..dc88211 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -296,7 +296,7 @@ impl Pdt<u8> for PdtKnxByte {
     }
 
     fn is_small(&self) -> bool {
-        todo!()
+        false
     }
 }
 
-- 
2.43.0


From 73c43c1c16d53068bd90bbe043cd6c29bfc8d496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:52 +0000
Subject: [PATCH 04/38] fix: saturate percent_v16 instead of overflowing

---
 src/dp_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index dc88211..d9feb9b 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -120,7 +120,7 @@ impl PdtKnxInt {
         Self {
             code: "8.010".to_string(),
             unit: "%".to_string(),
-            value: value * 100,
+            value: value.saturating_mul(100),
         }
     }
 }
-- 
2.43.0


From d7e3edfa008a4b586e1aade184578959839c62e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:52 +0000
Subject: [PATCH 05/38] fix: label decoded ULong and B1U3 datapoints with their
 own type

---
 src/dp_types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index d9feb9b..7864c24 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -366,7 +366,7 @@ impl Pdt<u32> for PdtKnxULong {
         let mut reader = Cursor::new(b);
         let value = reader.read_u32::<BigEndian>().with_whatever_context(|e| "Unable to get 4 bytes {e}")?;
         Ok(Self {
-            code: "8.x".to_string(),
+            code: "12.x".to_string(),
             value,
         })
     }
@@ -449,7 +449,7 @@ impl Pdt<u8> for PdtKnxB1U3 {
     {
         let value = b.get(0).with_whatever_context(|| "Should have at least one byte")?;
         Ok(Self {
-            code: "0.x".to_string(),
+            code: "3.x".to_string(),
             bit: (value & 8) > 0,
             step: value & 0b111,
         })
-- 
2.43.0


From 57833bbab8ec63b694befcefee238d90667caa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:52 +0000
Subject: [PATCH 06/38] fix: reject addresses whose parts do not fit their
 field

32/0/1 or 16.0.1 were accepted and silently became another address on the bus.
---
 src/packets/addresses.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/packets/addresses.rs b/src/packets/addresses.rs
index 6676108..3e3a61b 100644
--- a/src/packets/addresses.rs
+++ b/src/packets/addresses.rs
@@ -60,6 +60,7 @@ impl TryFrom<&str> for KnxAddress {
             } else if parts.len() == 2 {
                 let main = parts.first().unwrap();
                 let main = match main.parse::<u8>() {
+                    Ok(main) if main > 31 => whatever!("Main address {} is out of range", main),
                     Ok(main) => main,
                     Err(e) => whatever!("Unable to parse main address {:?}", e),
                 };
@@ -73,11 +74,13 @@ impl TryFrom<&str> for KnxAddress {
             } else if parts.len() == 3 {
                 let main = parts.first().unwrap();
                 let main = match main.parse::<u8>() {
+                    Ok(main) if main > 31 => whatever!("Main address {} is out of range", main),
                     Ok(main) => main,
                     Err(e) => whatever!("Unable to parse main address {:?}", e),
                 };
                 let mid = parts.get(1).unwrap();
                 let mid = match mid.parse::<u8>() {
+                    Ok(mid) if mid > 7 => whatever!("Mid address {} is out of range", mid),
                     Ok(mid) => mid,
                     Err(e) => whatever!("Unable to parse mid address {:?}", e),
                 };
@@ -133,10 +136,12 @@ impl TryFrom<&str> for IndividualAddress {
             whatever!("Individial address should be in the format area.line.address instead of {:?}", value);
         }
         let area = match parts.first().unwrap().parse::<u8>() {
+            Ok(a) if a > 15 => whatever!("Area {} is out of range", a),
             Ok(a) => a,
             Err(e) => whatever!("Unable to parse area value {:?}, error {:?}", parts.first(), e),
         };
         let line = match parts.get(1).unwrap().parse::<u8>() {
+            Ok(l) if l > 15 => whatever!("Line {} is out of range", l),
             Ok(l) => l,
             Err(e) => whatever!("Unable to parse line value {:?}, error {:?}", parts.get(1), e),
         };
@@ -177,7 +182,7 @@ impl TryFrom<&str> for Group3LevelAddress {
         }
 
         match (parts[0].parse::<u8>(), parts[1].parse::<u8>(), parts[2].parse::<u8>()) {
-            (Ok(main), Ok(middle), Ok(sub)) => Ok(Self { main, middle, sub }),
+            (Ok(main), Ok(middle), Ok(sub)) if main <= 31 && middle <= 7 => Ok(Self { main, middle, sub }),
             _ => whatever!("Unable to parse parts in u8"),
         }
     }
-- 
2.43.0


From aa17d07b2871fe0223a318fc01b9fae8fc12d524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:52 +0000
Subject: [PATCH 07/38] fix: place the main group of 2 level addresses in the
 upper 5 bits

1/2 addressed the group 0/1/2 instead of 1/0/2.
---
 src/packets/addresses.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packets/addresses.rs b/src/packets/addresses.rs
index 3e3a61b..2c99e25 100644
--- a/src/packets/addresses.rs
+++ b/src/packets/addresses.rs
@@ -224,7 +224,7 @@ impl fmt::Debug for Group2LevelAddress {
 impl Group2LevelAddress {
     pub fn to_u16(&self) -> u16 {
         let mut addr = 0u16;
-        addr |= (self.main as u16) << 8_u16;
+        addr |= (self.main as u16) << 11_u16;
         addr |= (self.sub) as u16;
 
         addr
-- 
2.43.0


From e602acea12c62e79de97ff5c84c00802ea3edcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:46 +0000
Subject: [PATCH 08/38] fix: do not panic on a small group write without data

Same treatment as group_value_write_pd.
---
 src/packets/apdu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packets/apdu.rs b/src/packets/apdu.rs
index 2d50caf..ea489d6 100644
--- a/src/packets/apdu.rs
+++ b/src/packets/apdu.rs
@@ -28,7 +28,7 @@ impl APDU {
     }
 
     pub fn group_value_write(data: Vec<u8>, small: bool) -> Self {
-        let data = if small { APDUData::Small(data[0]) } else { APDUData::Big(data) };
+        let data = if small { APDUData::Small(*data.first().unwrap_or(&0)) } else { APDUData::Big(data) };
         Self {
             apci: APCI::a_group_value_write(),
             data,
-- 
2.43.0


From 5edb2460d7180bd6c7fedcdb676cb50c8a401707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:46 +0000
Subject: [PATCH 09/38] fix: send requests for individual addresses as
 individual addressed frames

The address type flag was always set, so 1.1.1 addressed the group 2/1/1.
---
 src/packets/emi.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index e606324..0346772 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -167,7 +167,10 @@ impl LDataReqMessage {
         control |= 1 << 4; // Domain broadcast
         control |= (self.priority & 0x3) << 2;
 
-        let control2 = 0xe0u8;
+        let control2 = match self.dest_address {
+            KnxAddress::Individual(_) => 0x60u8,
+            _ => 0xe0u8, // Destination is a group address
+        };
         let mut packet = vec![CEMIMessageCode::LDataReq as u8, 0, control, control2, 0, 0];
 
         // packet.write_u16::<BigEndian>(0).unwrap();
-- 
2.43.0


From e0a324d57648ca8b6f2deb2529c42bdfe74a720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:46 +0000
Subject: [PATCH 10/38] fix: reject L_Data.ind frames shorter than their length
 field

The missing part of the value was silently filled with zeros.
---
 src/packets/emi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index 0346772..c1db8ab 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -114,7 +114,7 @@ impl LDataInd {
 
         let mut value = vec![0; length as usize];
         if length > 0 {
-            if let Err(e) = reader.read(&mut value) {
+            if let Err(e) = reader.read_exact(&mut value) {
                 whatever!("Unable to read value of length {}, {:?}", length, e);
             }
         } else {
-- 
2.43.0


From f84479df0f93a5eb4ca9a86119ff4b878fe510c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:46 +0000
Subject: [PATCH 11/38] fix: reject cEMI frames with inconsistent additional
 infos

The position overflowed for infos longer than 253 bytes, missing bytes were
filled with zeros and infos could reach into the service information.
---
 src/packets/emi.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index c1db8ab..eebf4cd 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -1,7 +1,7 @@
 use super::{addresses::KnxAddress, tpdu::TPDU};
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
 use log::{debug, warn};
-use snafu::{whatever, Whatever};
+use snafu::{ensure_whatever, whatever, Whatever};
 use std::io::{Cursor, Read};
 use tracing::instrument;
 
@@ -208,7 +208,7 @@ impl CEMI {
 
         let mut additional_infos = Vec::new();
         let mut position = 0;
-        while position < additional_infos_size {
+        while position < additional_infos_size as usize {
             let additional_info_type: CEMIAdditionalInfoType = match packet_reader.read_u8() {
                 Ok(info_type) => match info_type.try_into() {
                     Ok(t) => t,
@@ -222,7 +222,7 @@ impl CEMI {
             };
 
             let mut additional_info = vec![0; additional_info_size as usize];
-            if let Err(e) = packet_reader.read(&mut additional_info) {
+            if let Err(e) = packet_reader.read_exact(&mut additional_info) {
                 whatever!("Unable to read additional info {:?}", e);
             }
 
@@ -230,8 +230,13 @@ impl CEMI {
                 info_type: additional_info_type,
                 value: additional_info,
             });
-            position += additional_info_size + 2;
+            position += additional_info_size as usize + 2;
         }
+        ensure_whatever!(
+            position == additional_infos_size as usize,
+            "Additional infos exceed their announced size {}",
+            additional_infos_size
+        );
 
         let mut service_info = Vec::new();
         if let Err(e) = packet_reader.read_to_end(&mut service_info) {
-- 
2.43.0


From c5310886d39aec1642bcbad62ad9b784a571d47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:46 +0000
Subject: [PATCH 12/38] fix: reject tunneling requests with a wrong total
 length

A total length below 10 panicked, a total length beyond the received data
filled the cEMI frame with zeros.
---
 src/packets/tunneling.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/packets/tunneling.rs b/src/packets/tunneling.rs
index 7b2ca92..bc8a4a2 100644
--- a/src/packets/tunneling.rs
+++ b/src/packets/tunneling.rs
@@ -47,7 +47,10 @@ impl TunnelingRequest {
         };
 
         let size = match packet_reader.read_u16::<BigEndian>() {
-            Ok(size) => size,
+            Ok(size) => {
+                ensure_whatever!(size >= 10, "Packet size should be at least 10 instead of {}", size);
+                size
+            }
             Err(e) => whatever!("Unable to read packet size {:?}", e),
         };
 
@@ -74,7 +77,7 @@ impl TunnelingRequest {
         };
 
         let mut cemi = vec![0; size as usize - 10];
-        if let Err(e) = packet_reader.read(&mut cemi) {
+        if let Err(e) = packet_reader.read_exact(&mut cemi) {
             whatever!("Unable to read cemi part {:?}", e);
         }
 
-- 
2.43.0


From 8148e22a6173230b208409dc885ed4f11ab522ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:46 +0000
Subject: [PATCH 13/38] fix: encode feature responses with their own service
 type and status

---
 src/packets/tunneling.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packets/tunneling.rs b/src/packets/tunneling.rs
index bc8a4a2..f04e51e 100644
--- a/src/packets/tunneling.rs
+++ b/src/packets/tunneling.rs
@@ -209,13 +209,13 @@ pub struct FeatureResp {
 
 impl FeatureResp {
     pub fn packet(&self) -> Vec<u8> {
-        let mut packet = vec![0x06, 0x10, 0x04, 0x24, 0, 0x0d];
+        let mut packet = vec![0x06, 0x10, 0x04, 0x23, 0, 0x0d];
         packet.write_u8(4).unwrap();
         packet.write_u8(self.communication_channel_id).unwrap();
         packet.write_u8(self.sequence_nr).unwrap();
         packet.write_u8(0).unwrap();
         packet.write_u8(self.feature as u8).unwrap();
-        packet.write_u8(0).unwrap();
+        packet.write_u8(self.status).unwrap();
         packet.write_u8(self.value).unwrap();
         packet
     }
-- 
2.43.0


From f3aafa73d92bc5cd7d50eefd78b970a03f50effb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:46 +0000
Subject: [PATCH 14/38] fix: write the two byte total length of connection
 responses

---
 src/packets/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 92a0169..e512e2b 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -293,7 +293,7 @@ impl ConnectionResponse {
     }
 
     pub fn packet(&self) -> Vec<u8> {
-        let mut packet = vec![0x06, 0x10, 0x02, 0x06, 0x08, self.communication_channel_id, self.status];
+        let mut packet = vec![0x06, 0x10, 0x02, 0x06, 0x00, 0x14, self.communication_channel_id, self.status];
         packet.extend_from_slice(&self.data_endpoint.packet());
         packet.extend_from_slice(&self.crd.packet());
         packet
-- 
2.43.0


From eb40559e75ce5fb115b23b729c3c75050e44409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:46 +0000
Subject: [PATCH 15/38] fix: parse the KNXnet/IP header of disconnect requests

Every well formed disconnect request was rejected.
---
 src/packets/core.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index e512e2b..b8b68ce 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -476,13 +476,12 @@ impl DisconnectRequest {
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>) -> Result<Self, Whatever> {
-        let header_size = match packet_reader.read_u8() {
-            Ok(header_size) => {
-                ensure_whatever!(header_size >= 8, "Header size should be at least 8 instead of {}", header_size);
-                header_size
-            }
-            Err(e) => whatever!("Unable to read header size {:?}", e),
-        };
+        let header = KnxNetIpHeader::from_packet(packet_reader)?;
+        ensure_whatever!(
+            header.service_type_identifier == 0x0209,
+            "Disconnect request should be 0x0209 instead of {:2X}",
+            header.service_type_identifier
+        );
 
         let communication_channel_id = match packet_reader.read_u8() {
             Ok(communication_channel_id) => communication_channel_id,
-- 
2.43.0


From 68d13d9977918afef42d3702bdcfffebd0cf8634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:46 +0000
Subject: [PATCH 16/38] fix: write the DIB headers of search responses

---
 src/packets/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index b8b68ce..7f921c6 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -656,8 +656,8 @@ impl SearchResponse {
         let mut packet = vec![0x06, 0x10, 0x02, 0x02];
 
         let mut control_endpoint_packet = self.control_endpoint.packet();
-        let mut device_hardware_packet = self.device_hardware.packet();
-        let mut supported_service_families_packet = self.supported_service_families.packet();
+        let mut device_hardware_packet = DIB::DeviceInformation(self.device_hardware.clone()).packet();
+        let mut supported_service_families_packet = DIB::SupportedServiceFamilies(self.supported_service_families.clone()).packet();
         let size = packet.len() + 2 + control_endpoint_packet.len() + device_hardware_packet.len() + supported_service_families_packet.len();
 
         packet.write_u16::<BigEndian>(size as u16).unwrap();
-- 
2.43.0


From 3234fa953fb21b9c850cf6945f8b51f3d00e0fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:46 +0000
Subject: [PATCH 17/38] fix: respect the structure length of DIBs

Structure lengths smaller than their header underflowed, manufacturer data was
read beyond its block and the padding was not part of the written length.
---
 src/packets/core.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 7f921c6..53187f0 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -843,14 +843,15 @@ impl DIB {
             Self::ManufacturerData(manufacturer_data) => (DescriptionTypeCode::ManufacturerData, manufacturer_data.packet()),
         };
 
-        let structure_length = 2 + data_packet.len();
+        let data_length = 2 + data_packet.len();
+        let structure_length = data_length + data_length % 2;
         packet.write_u8(structure_length as u8).unwrap();
         packet.write_u8(type_code as u8).unwrap();
         packet.extend_from_slice(&data_packet);
 
         // 7.5.4.1
         // Structure length must be even. Add a padding of 0x00 if necessary.
-        if structure_length % 2 != 0 {
+        if data_length % 2 != 0 {
             packet.write_u8(0x00).unwrap();
         }
 
@@ -998,6 +999,7 @@ impl DeviceInformationDIB {
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
+        ensure_whatever!(structure_length == 54, "Device information DIB size should be 54 instead of {}", structure_length);
         let knx_medium = packet_reader.read_u8().whatever_context("Unable to read knx mediumn")?;
         let knx_medium = KnxMedium::try_from(knx_medium)?;
         let knx_device_status = packet_reader.read_u8().whatever_context("Unable to read knx device status")?;
@@ -1071,6 +1073,11 @@ impl SupportedServiceFamiliesDIB {
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
+        ensure_whatever!(
+            structure_length >= 2 && structure_length % 2 == 0,
+            "Invalid supported service families DIB size {}",
+            structure_length
+        );
         let mut service_families = Vec::new();
         for _ in 0..(structure_length - 2) / 2 {
             // -2 because of length and type
@@ -1112,6 +1119,7 @@ impl IpConfigDIB {
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
+        ensure_whatever!(structure_length == 16, "IP config DIB size should be 16 instead of {}", structure_length);
         let mut ip_address = [0; 4];
         packet_reader.read_exact(&mut ip_address).whatever_context("Unable to read ip address")?;
         let ip_address = Ipv4Addr::from(ip_address);
@@ -1168,6 +1176,7 @@ impl IpCurrentConfigDIB {
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
+        ensure_whatever!(structure_length == 20, "IP current config DIB size should be 20 instead of {}", structure_length);
         let mut current_ip_address = [0; 4];
         packet_reader
             .read_exact(&mut current_ip_address)
@@ -1273,7 +1282,8 @@ impl ManufacturerDataDIB {
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
         let knx_manufacturer_id = packet_reader.read_u16::<BigEndian>().whatever_context("Unable to read knx manufacturer id")?;
 
-        let mut manufacturer_specific_data = vec![0; structure_length as usize];
+        ensure_whatever!(structure_length >= 4, "Manufacturer data DIB size should be at least 4 instead of {}", structure_length);
+        let mut manufacturer_specific_data = vec![0; structure_length as usize - 4]; // - length, type and manufacturer id
         packet_reader
             .read_exact(&mut manufacturer_specific_data)
             .whatever_context("Unable to read manufacturer specific data")?;
-- 
2.43.0


From 634fce6f57a53ef134746b2963cb4c71ef0479a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:46 +0000
Subject: [PATCH 18/38] fix: KNX addresses DIB contains individual addresses

KNX individual addresses have 2 bytes, they were read and written as IPv4
addresses with 4 bytes.
---
 src/packets/core.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 53187f0..54bd3ce 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -1221,41 +1221,44 @@ impl IpCurrentConfigDIB {
 pub struct KNXAddressesDIB {
     pub structure_length: u8,
     pub description_type_code: DescriptionTypeCode,
-    pub knx_individual_address: Ipv4Addr,
-    pub additional_individual_addresses: Vec<Ipv4Addr>,
+    pub knx_individual_address: IndividualAddress,
+    pub additional_individual_addresses: Vec<IndividualAddress>,
 }
 
 impl KNXAddressesDIB {
     pub fn packet(&self) -> Vec<u8> {
         let mut packet = Vec::new();
-        packet.extend_from_slice(&self.knx_individual_address.octets());
+        packet.write_u16::<BigEndian>(self.knx_individual_address.to_u16()).unwrap();
         for address in &self.additional_individual_addresses {
-            packet.extend_from_slice(&address.octets());
+            packet.write_u16::<BigEndian>(address.to_u16()).unwrap();
         }
         packet
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
-        let mut knx_individual_address = [0; 4];
-        packet_reader
-            .read_exact(&mut knx_individual_address)
+        ensure_whatever!(
+            structure_length >= 4 && structure_length % 2 == 0,
+            "Invalid KNX addresses DIB size {}",
+            structure_length
+        );
+        let knx_individual_address = packet_reader
+            .read_u16::<BigEndian>()
             .whatever_context("Unable to read knx individual address")?;
 
         let mut additional_individual_addresses = Vec::new();
 
         for _ in 0..(structure_length - 4) / 2 {
             // - 1 byte structure length - 2 byte description type code  - 2 bytes knx individual address
-            let mut additional_individual_address = [0; 4];
-            packet_reader
-                .read_exact(&mut additional_individual_address)
+            let additional_individual_address = packet_reader
+                .read_u16::<BigEndian>()
                 .whatever_context("Unable to read additional individual address")?;
-            additional_individual_addresses.push(Ipv4Addr::from(additional_individual_address));
+            additional_individual_addresses.push(IndividualAddress::from_u16(additional_individual_address));
         }
 
         Ok(Self {
             structure_length,
             description_type_code: DescriptionTypeCode::KNXAddresses,
-            knx_individual_address: Ipv4Addr::from(knx_individual_address),
+            knx_individual_address: IndividualAddress::from_u16(knx_individual_address),
             additional_individual_addresses,
         })
     }
-- 
2.43.0


From 974caa0682d2606293b22aa57e2216c09381d9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:46 +0000
Subject: [PATCH 19/38] fix: accept friendly names shorter than 30 bytes

The name is filled up with NULL characters as stated in 7.5.4.2.
---
 src/packets/core.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 54bd3ce..6f6c008 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -956,9 +956,11 @@ impl DeviceInformationDIB {
         mac_address: [u8; 6],
         friendly_name: String,
     ) -> Result<Self, Whatever> {
-        let friendly_name = ISO_8859_1
+        let mut friendly_name = ISO_8859_1
             .encode(&friendly_name, EncoderTrap::Strict)
             .whatever_context("Unable to encode device friendly name")?;
+        // Fill up with NULL characters
+        friendly_name.resize(friendly_name.len().max(30), 0x00);
         let friendly_name = friendly_name
             .try_into()
             .map_err(|_err| "")
-- 
2.43.0


From ea5d0c5080afef3d690fc863b7f83ef28a362f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:10 +0000
Subject: [PATCH 20/38] fix: parse only the received bytes of a datagram

The receive buffers were parsed including their unused part, which turned
truncated frames into valid ones, and frames longer than 100 bytes were cut.
---
 src/transport/udp.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 9142dea..9eca375 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -225,8 +225,9 @@ impl UdpTransport {
         };
 
         let mut resp = vec![0; 100];
-        if let Err(e) = self.socket.recv(&mut resp).await {
-            whatever!("Connectionstate not responded {:?}", e);
+        match self.socket.recv(&mut resp).await {
+            Ok(count) => resp.truncate(count),
+            Err(e) => whatever!("Connectionstate not responded {:?}", e),
         }
         debug!("Connectiostate response {:0x?}", resp);
         let mut cursor = Cursor::new(resp.as_slice());
@@ -291,16 +292,17 @@ impl UdpTransport {
             .await
             .expect("Unable to send request");
 
-        let mut buffer = vec![0; 100];
+        let mut buffer = vec![0; 512];
         let mut responses = Vec::new();
 
         loop {
             select! {
                 n_bytes = socket.recv(&mut buffer) => {
                     match n_bytes {
-                        Ok(_n_bytes) => {
+                        Ok(n_bytes) => {
+                            let buffer = &buffer[..n_bytes];
                             debug!("Search response {:0x?}", buffer);
-                            let mut cursor = Cursor::new(buffer.as_slice());
+                            let mut cursor = Cursor::new(buffer);
                             let resp = SearchResponse::from_packet(&mut cursor)?;
                             debug!("Parsed search response {:0x?}", resp);
                             responses.push(resp);
@@ -389,8 +391,10 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
     }
 
     let mut resp = vec![0; 100];
-    if let Err(e) = timeout(Duration::from_secs(30), socket.recv(&mut resp)).await {
-        whatever!("Target device does not respond {:?}", e);
+    match timeout(Duration::from_secs(30), socket.recv(&mut resp)).await {
+        Ok(Ok(count)) => resp.truncate(count),
+        Ok(Err(e)) => whatever!("Unable to receive connection response {:?}", e),
+        Err(e) => whatever!("Target device does not respond {:?}", e),
     }
     debug!("Connection response {:0x?}", resp);
 
@@ -406,9 +410,11 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
 
 pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_knx_tx: Sender<CEMI>) -> TransportResult<String> {
     loop {
-        let mut data = vec![0; 100];
+        let mut data = vec![0; 512];
         let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
 
+        data.truncate(count);
+
         if count > 0 {
             let resp = parse_response(data)?;
 
-- 
2.43.0


From c7ef4fb8fa169c2ce0e8340f3379184601656a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:11 +0000
Subject: [PATCH 21/38] fix: ignore datagrams that can not be parsed

Any unknown datagram, for example a feature info requested by the monitor,
tore down the connection without telling the knxip device.
---
 src/transport/udp.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 9eca375..bb28bd7 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -416,7 +416,13 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
         data.truncate(count);
 
         if count > 0 {
-            let resp = parse_response(data)?;
+            let resp = match parse_response(data) {
+                Ok(resp) => resp,
+                Err(e) => {
+                    warn!("Ignoring datagram from knxip target {:?}", e);
+                    continue;
+                }
+            };
 
             match resp {
                 TunnelingResponse::TunnelingRequest(req) => {
-- 
2.43.0


From 83b418d20d5607f668ad519ffcdead78932e07f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:12 +0000
Subject: [PATCH 22/38] fix: reconnect after the knxip device closed the
 connection

The receive task ended while the transport still reported a connection.
---
 src/transport/udp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index bb28bd7..2fa9d9b 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -472,7 +472,7 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
                     if let Err(e) = socket.send(&disconnect_resp.packet()).await {
                         warn!("Unable to send disconnect response to knxip target {:?}", e);
                     }
-                    break Ok("KNX device requested disconnection".into());
+                    whatever!("KNX device requested disconnection");
                 }
             }
         }
-- 
2.43.0


From 0bc8def3c991253064c8dd026a0467a402fcf9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:13 +0000
Subject: [PATCH 23/38] fix: keep the connection alive when received messages
 are not read

After 100 unread messages the receive task stalled: acks were no longer sent
and every heart beat cancelled and lost an already acknowledged message.
The task of a dropped client reconnected forever.
---
 src/transport/udp.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 2fa9d9b..1d5fbb7 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -4,7 +4,7 @@ use crate::transport;
 use std::sync::Arc;
 use std::time::Duration;
 use std::{io::Cursor, net::SocketAddr};
-use tokio::sync::mpsc::Sender;
+use tokio::sync::mpsc::{error::TrySendError, Sender};
 use tokio::time::{interval, sleep, timeout};
 use tokio::{io, select};
 
@@ -440,9 +440,10 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
                             continue;
                         }
                     };
-                    match from_knx_tx.send(cemi).await {
+                    match from_knx_tx.try_send(cemi) {
                         Ok(_) => (),
-                        Err(e) => whatever!("Unable to pass received request from knx device, {:?}", e),
+                        Err(TrySendError::Full(cemi)) => warn!("Too many unread messages, dropping {:?}", cemi),
+                        Err(TrySendError::Closed(_)) => break Ok("Client was dropped".into()),
                     };
                 }
                 TunnelingResponse::TunnelingAck(_) => {}
-- 
2.43.0


From f4d272596e28e6a1e5232510a7b98c084a1a23a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:15 +0000
Subject: [PATCH 24/38] fix: discard repeated tunneling requests

When an ack gets lost the knxip device repeats the request, which was delivered
twice.
---
 src/transport/udp.rs         | 19 +++++++++++++++++--
 src/transport/udp_monitor.rs |  6 +++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 1d5fbb7..e91e549 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -135,6 +135,9 @@ impl UdpTransport {
                 //
                 heart_beat.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Delay);
 
+                // Sequence number of the last request received on the current connection
+                let mut last_sequence_nr = None;
+
                 'main: loop {
                     // If connection data is none we don't have a valid connection
                     // with KNXIP device
@@ -142,6 +145,7 @@ impl UdpTransport {
                     if connection_data.lock().await.is_none() {
                         info!("No valid connection with KNXIP device, create it");
                         let connection = connect(socket.clone()).await;
+                        last_sequence_nr = None;
                         let communication_channel_id = connection.get_communication_channel_id();
 
                         info!("Created communication channel ID {:?}", communication_channel_id);
@@ -151,7 +155,7 @@ impl UdpTransport {
 
                     'recv: loop {
                         tokio::select! {
-                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone()) => {
+                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), &mut last_sequence_nr) => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     debug!("Exit from reconnection loop");
@@ -408,7 +412,11 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
     Ok(connection)
 }
 
-pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_knx_tx: Sender<CEMI>) -> TransportResult<String> {
+pub(crate) async fn handle_recv_from_knx_device(
+    socket: Arc<MyUdpSocket>,
+    from_knx_tx: Sender<CEMI>,
+    last_sequence_nr: &mut Option<u8>,
+) -> TransportResult<String> {
     loop {
         let mut data = vec![0; 512];
         let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
@@ -431,6 +439,12 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
                         whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                     }
 
+                    // 03.08.04 Tunneling section 2.6, a repeated request is acknowledged and discarded
+                    if last_sequence_nr.replace(req.sequence_nr) == Some(req.sequence_nr) {
+                        debug!("Discard repeated tunneling request {}", req.sequence_nr);
+                        continue;
+                    }
+
                     let mut cemi = Cursor::new(req.get_cemi().as_slice());
 
                     let cemi = match CEMI::from_packet(&mut cemi) {
@@ -448,6 +462,7 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
                 }
                 TunnelingResponse::TunnelingAck(_) => {}
                 TunnelingResponse::FeatureResponse(resp) => {
+                    last_sequence_nr.replace(resp.sequence_nr);
                     let ack = TunnelingAck::new(resp.communication_channel_id, resp.sequence_nr, 0);
 
                     if let Err(e) = socket.send(&ack.packet()).await {
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 573c883..9acf739 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -92,6 +92,9 @@ impl UdpMonitorTransport {
                 //
                 heart_beat.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Delay);
 
+                // Sequence number of the last request received on the current connection
+                let mut last_sequence_nr = None;
+
                 'main: loop {
                     // If connection data is none we don't have a valid connection
                     // with KNXIP device
@@ -99,6 +102,7 @@ impl UdpMonitorTransport {
                     if connection_data.lock().await.is_none() {
                         info!("No valid connection with KNXIP device, create it");
                         let connection = connect(socket.clone()).await;
+                        last_sequence_nr = None;
                         let communication_channel_id = connection.get_communication_channel_id();
 
                         if enable_busmonitor(&socket, communication_channel_id).await.is_err() {
@@ -121,7 +125,7 @@ impl UdpMonitorTransport {
 
                     loop {
                         tokio::select! {
-                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone()) => {
+                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), &mut last_sequence_nr) => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     break 'main;
-- 
2.43.0


From c708bffc7478f47fb5084b065e4973ed8bf151f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:16 +0000
Subject: [PATCH 25/38] fix: a write succeeds only with its own positive
 confirmation

The confirmation of another request or a negative one was taken as success, any
bus traffic in between as failure.
---
 src/transport/udp.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index e91e549..2a09764 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -5,7 +5,7 @@ use std::sync::Arc;
 use std::time::Duration;
 use std::{io::Cursor, net::SocketAddr};
 use tokio::sync::mpsc::{error::TrySendError, Sender};
-use tokio::time::{interval, sleep, timeout};
+use tokio::time::{interval, sleep, timeout, timeout_at, Instant};
 use tokio::{io, select};
 
 use log::{debug, info, trace, warn};
@@ -566,23 +566,33 @@ impl UdpClient {
 
     pub async fn write_group_address_value(&self, addr: KnxAddress, value: Vec<u8>, small: bool) -> TransportResult<()> {
         debug!("Write {:?} to {:?}", value, addr);
+        let expected_addr = addr.to_u16();
         let apdu = APDU::group_value_write(value, small);
         let tpdu = TPDU::t_data_group(apdu);
         let req = LDataReqMessage::new(addr, tpdu);
         debug!("LDataReq {:?}", req);
 
         let transport = self.transport.lock().await;
+        let mut rx = transport.rx.lock().await;
+        // Messages received before the request do not belong to it
+        while rx.try_recv().is_ok() {}
         transport.tunnel_req(req.packet()).await?;
         debug!("Write request sent to bus");
-        let mut rx = transport.rx.lock().await;
+        let deadline = Instant::now() + self.get_write_timeout();
         loop {
-            match timeout(self.get_write_timeout(), rx.recv()).await {
+            match timeout_at(deadline, rx.recv()).await {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
                     let data_con = LDataCon::from_cemi(cemi);
                     debug!("Parsed confirmation cEMI {:?}", data_con);
-                    return Ok(());
+                    match data_con {
+                        Ok(data_con) if data_con.l_data.dest == expected_addr => {
+                            ensure_whatever!(data_con.confirm, "Write request was not confirmed by the bus");
+                            return Ok(());
+                        }
+                        _ => (),
+                    }
                 }
-                Ok(Some(cemi)) => whatever!("Unknown cEMI message code {:?}", cemi.msg_code),
+                Ok(Some(cemi)) => debug!("Ignoring cEMI with message code {:?}", cemi.msg_code),
                 Ok(None) => whatever!("No more data will be received from client"),
                 Err(_) => whatever!("Write request timed out"),
             }
-- 
2.43.0


From e8be93925870d9296a9a147d7c82311d7cd40617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:18 +0000
Subject: [PATCH 26/38] fix: a read returns only the value of its group address

Outdated values waiting in the queue, read requests of other devices and
telegrams to an individual address with the same number were returned as value.
A malformed telegram aborted the read and bus traffic extended its timeout.
---
 src/packets/emi.rs   | 12 ++++++++++++
 src/transport/udp.rs | 14 +++++++++-----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index eebf4cd..6160947 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -136,6 +136,18 @@ impl LDataInd {
             value,
         })
     }
+
+    /// Is it a group telegram carrying a value, an A_GroupValue_Response or A_GroupValue_Write?
+    /// 03.03.07 Application Layer section 3.1
+    pub fn is_group_value(&self) -> bool {
+        match self.cemi.service_info.as_slice() {
+            [_, control2, _, _, _, _, _, tpci, apci, ..] => {
+                let apci = (*tpci as u16 & 0x03) << 2 | *apci as u16 >> 6;
+                control2 & 0x80 > 0 && (apci == 1 || apci == 2)
+            }
+            _ => false,
+        }
+    }
 }
 
 // L_Data request message
diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 2a09764..20fe223 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -538,19 +538,23 @@ impl UdpClient {
         debug!("LDataReq {:?}", req);
 
         let transport = self.transport.lock().await;
-        transport.tunnel_req(req.packet()).await?;
         let mut rx = transport.rx.lock().await;
+        // Messages received before the request may be outdated
+        while rx.try_recv().is_ok() {}
+        transport.tunnel_req(req.packet()).await?;
+        let deadline = Instant::now() + self.get_read_timeout();
         loop {
-            match timeout(self.get_read_timeout(), rx.recv()).await {
+            match timeout_at(deadline, rx.recv()).await {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
                     let data_con = LDataCon::from_cemi(cemi);
                     debug!("Parsed confirmation cEMI {:?}", data_con);
                 }
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataInd as u8 => {
-                    let data_ind = LDataInd::from_cemi(cemi)?;
+                    let data_ind = LDataInd::from_cemi(cemi);
                     debug!("Parsed indication cEMI {:?}", data_ind);
-                    if data_ind.l_data.dest == expected_addr {
-                        return Ok(data_ind.value);
+                    match data_ind {
+                        Ok(data_ind) if data_ind.l_data.dest == expected_addr && data_ind.is_group_value() => return Ok(data_ind.value),
+                        _ => (),
                     }
                 }
                 Ok(Some(cemi)) => warn!("Unknown cEMI message code {:?}", cemi.msg_code),
-- 
2.43.0


From 9217364634f6c09c707e15fba8356c6c165e2cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:20 +0000
Subject: [PATCH 27/38] fix: wait for control responses through the receive
 task

The receive task consumes the responses to connection state and disconnect
requests: waiting for them on the socket hung or took the datagrams of the
receive task, and a successful disconnect was reported as error while the
transport still reported a connection. Socket errors panicked.
---
 src/transport/udp.rs         | 53 ++++++++++++++++++++++++++----------
 src/transport/udp_monitor.rs | 41 +++++++++++++++++++---------
 2 files changed, 66 insertions(+), 28 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 20fe223..0fb375b 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -39,6 +39,9 @@ impl ConnectionData {
     }
 }
 
+/// 03.08.02 Core section 5.8.1, CONNECTIONSTATE_REQUEST_TIMEOUT
+pub(crate) const CONTROL_TIMEOUT: Duration = Duration::from_secs(10);
+
 #[derive(Debug, Snafu)]
 pub enum Error {
     #[snafu(whatever, display("{message}"))]
@@ -101,6 +104,7 @@ struct UdpTransport {
     socket: Arc<MyUdpSocket>,
     connection_data: Arc<Mutex<Option<ConnectionData>>>,
     rx: Arc<Mutex<mpsc::Receiver<CEMI>>>,
+    control_rx: Mutex<mpsc::Receiver<TunnelingResponse>>,
 }
 
 impl UdpTransport {
@@ -121,6 +125,7 @@ impl UdpTransport {
         let connection_data: Arc<Mutex<Option<ConnectionData>>> = Arc::new(Mutex::new(None));
 
         let (from_knx_tx, rx) = mpsc::channel(100);
+        let (control_tx, control_rx) = mpsc::channel(10);
 
         tokio::spawn({
             let socket = socket.clone();
@@ -155,7 +160,7 @@ impl UdpTransport {
 
                     'recv: loop {
                         tokio::select! {
-                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), &mut last_sequence_nr) => {
+                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), control_tx.clone(), &mut last_sequence_nr) => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     debug!("Exit from reconnection loop");
@@ -186,6 +191,7 @@ impl UdpTransport {
                     let mut data = connection_data.lock().await;
                     *data = None;
                 }
+                *connection_data.lock().await = None;
                 debug!("UpdTransport receive task exited");
             }
         });
@@ -194,6 +200,7 @@ impl UdpTransport {
             socket,
             connection_data,
             rx: Arc::new(Mutex::new(rx)),
+            control_rx: Mutex::new(control_rx),
         })
     }
 
@@ -224,18 +231,24 @@ impl UdpTransport {
 
     pub async fn get_connectionstate(&self) -> TransportResult<ConnectionstateResponse> {
         let req = ConnectionstateRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?);
+        let mut control_rx = self.control_rx.lock().await;
+        while control_rx.try_recv().is_ok() {}
         if let Err(e) = self.socket.send(&req.packet()).await {
             whatever!("Unable to send connection state request {:?}", e);
         };
 
-        let mut resp = vec![0; 100];
-        match self.socket.recv(&mut resp).await {
-            Ok(count) => resp.truncate(count),
-            Err(e) => whatever!("Connectionstate not responded {:?}", e),
+        let deadline = Instant::now() + CONTROL_TIMEOUT;
+        loop {
+            match timeout_at(deadline, control_rx.recv()).await {
+                Ok(Some(TunnelingResponse::ConnectionstateResponse(resp))) => {
+                    debug!("Connectiostate response {:0x?}", resp);
+                    return Ok(resp);
+                }
+                Ok(Some(_)) => (),
+                Ok(None) => whatever!("Transport closed before connectionstate response"),
+                Err(e) => whatever!("Connectionstate not responded {:?}", e),
+            }
         }
-        debug!("Connectiostate response {:0x?}", resp);
-        let mut cursor = Cursor::new(resp.as_slice());
-        Ok(ConnectionstateResponse::from_packet(&mut cursor)?)
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
@@ -267,12 +280,17 @@ impl UdpTransport {
     pub async fn disconnect(&self) -> Result<(), Whatever> {
         let req = DisconnectRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?).packet();
         debug!("Request disconnect for connection {}", self.get_communication_channel_id().await?);
-        self.socket.send(&req).await.expect("Unable to send request");
+        let mut control_rx = self.control_rx.lock().await;
+        while control_rx.try_recv().is_ok() {}
+        if let Err(e) = self.socket.send(&req).await {
+            whatever!("Unable to send disconnect request {:?}", e);
+        }
 
-        let mut rx = self.rx.lock().await;
-        match rx.recv().await {
-            Some(_resp) => Ok(()),
-            None => whatever!("Transport closed before disconnection response"),
+        // The receive task ends with the disconnect response
+        let closed = async { while control_rx.recv().await.is_some() {} };
+        match timeout(CONTROL_TIMEOUT, closed).await {
+            Ok(()) => Ok(()),
+            Err(e) => whatever!("Disconnect request not responded {:?}", e),
         }
     }
 
@@ -415,6 +433,7 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
 pub(crate) async fn handle_recv_from_knx_device(
     socket: Arc<MyUdpSocket>,
     from_knx_tx: Sender<CEMI>,
+    control_tx: Sender<TunnelingResponse>,
     last_sequence_nr: &mut Option<u8>,
 ) -> TransportResult<String> {
     loop {
@@ -470,8 +489,11 @@ pub(crate) async fn handle_recv_from_knx_device(
                     }
                 }
                 TunnelingResponse::ConnectionstateResponse(resp) => {
-                    if resp.status != 0 {
-                        warn!("Connection state response with error {}", resp.status);
+                    let status = resp.status;
+                    // Nobody has to wait for it
+                    let _ = control_tx.try_send(TunnelingResponse::ConnectionstateResponse(resp));
+                    if status != 0 {
+                        warn!("Connection state response with error {}", status);
                         whatever!("KNX device signaled a connection state error");
                     }
                 }
@@ -481,6 +503,7 @@ pub(crate) async fn handle_recv_from_knx_device(
                     } else {
                         warn!("Unable to disconnect, status code {:?}", resp);
                     }
+                    let _ = control_tx.try_send(TunnelingResponse::DisconnectResponse(resp));
                     break Ok("KNX device disconnected by our will".into());
                 }
                 TunnelingResponse::DisconnectRequest(req) => {
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 9acf739..a84c77f 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -4,7 +4,6 @@ use crate::packets::apdu::APDU;
 use crate::packets::core::ConnectionResponse;
 use crate::packets::core::ConnectionstateRequest;
 use crate::packets::core::DisconnectRequest;
-use crate::packets::core::DisconnectResponse;
 use crate::packets::core::HPAI;
 use crate::packets::emi::CEMIMessageCode;
 use crate::packets::emi::LDataCon;
@@ -18,6 +17,8 @@ use crate::packets::tunneling::TunnelingRequest;
 use crate::transport::udp::connect;
 use crate::transport::udp::handle_recv_from_knx_device;
 use crate::transport::udp::MyUdpSocket;
+use crate::transport::udp::TunnelingResponse;
+use crate::transport::udp::CONTROL_TIMEOUT;
 use log::debug;
 use log::info;
 use log::warn;
@@ -25,14 +26,13 @@ use snafu::whatever;
 use snafu::ResultExt;
 use snafu::Whatever;
 use std::fmt::Debug;
-use std::io::Cursor;
 use std::net::SocketAddr;
 use std::sync::Arc;
 use std::time::Duration;
 use tokio::net::ToSocketAddrs;
 use tokio::net::UdpSocket;
 use tokio::sync::{mpsc, Mutex};
-use tokio::time::interval;
+use tokio::time::{interval, timeout};
 use tracing::instrument;
 
 struct ConnectionData {
@@ -55,6 +55,7 @@ struct UdpMonitorTransport {
     socket: Arc<MyUdpSocket>,
     connection_data: Arc<Mutex<Option<ConnectionData>>>,
     rx: Arc<Mutex<mpsc::Receiver<CEMI>>>,
+    control_rx: Mutex<mpsc::Receiver<TunnelingResponse>>,
     on_connection: Arc<Mutex<Vec<mpsc::Sender<()>>>>,
 }
 
@@ -76,6 +77,7 @@ impl UdpMonitorTransport {
         let connection_data: Arc<Mutex<Option<ConnectionData>>> = Arc::new(Mutex::new(None));
 
         let (from_knx_tx, rx) = mpsc::channel(100);
+        let (control_tx, control_rx) = mpsc::channel(10);
         let on_connection = Arc::new(Mutex::new(Vec::<mpsc::Sender<()>>::new()));
 
         tokio::spawn({
@@ -125,7 +127,7 @@ impl UdpMonitorTransport {
 
                     loop {
                         tokio::select! {
-                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), &mut last_sequence_nr) => {
+                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), control_tx.clone(), &mut last_sequence_nr) => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     break 'main;
@@ -158,6 +160,7 @@ impl UdpMonitorTransport {
                     let mut data = connection_data.lock().await;
                     *data = None;
                 }
+                *connection_data.lock().await = None;
                 debug!("UpdTransport receive task ended");
             }
         });
@@ -166,6 +169,7 @@ impl UdpMonitorTransport {
             socket,
             connection_data,
             rx: Arc::new(Mutex::new(rx)),
+            control_rx: Mutex::new(control_rx),
             on_connection,
         })
     }
@@ -233,17 +237,28 @@ impl UdpMonitorTransport {
         let communication_channel_id = self.communication_channel_id().await?;
         let req = DisconnectRequest::new(communication_channel_id, self.control_endpoint().await?).packet();
         debug!("Request disconnect for connection {}", communication_channel_id);
-        self.socket.send(&req).await.expect("Unable to send request");
-
-        let mut resp = vec![0; 100];
-        self.socket.recv(&mut resp).await.expect("Unable to get response");
-        let mut resp_cursor = Cursor::new(resp.as_slice());
+        let mut control_rx = self.control_rx.lock().await;
+        while control_rx.try_recv().is_ok() {}
+        if let Err(e) = self.socket.send(&req).await {
+            whatever!("Unable to send disconnect request {:?}", e);
+        }
 
-        match DisconnectResponse::from_packet(&mut resp_cursor) {
-            Ok(resp) => {
-                debug!("Disconnect response status {}", resp.status);
-                Ok(resp.status)
+        // The receive task ends with the disconnect response
+        let closed = async {
+            let mut status = None;
+            while let Some(resp) = control_rx.recv().await {
+                if let TunnelingResponse::DisconnectResponse(resp) = resp {
+                    status = Some(resp.status);
+                }
+            }
+            status
+        };
+        match timeout(CONTROL_TIMEOUT, closed).await {
+            Ok(Some(status)) => {
+                debug!("Disconnect response status {}", status);
+                Ok(status)
             }
+            Ok(None) => whatever!("Transport closed before disconnection response"),
             Err(e) => whatever!("Unable to request disconnection for id {}, {:?}", communication_channel_id, e),
         }
     }
-- 
2.43.0


From 740d371c577537377ed34434cd7a1e5895312b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:22 +0000
Subject: [PATCH 28/38] fix: take channel id and sequence number from the same
 connection

A reconnection between the two sent the request with a sequence number of the
previous connection.
---
 src/transport/udp.rs         | 13 +++++++------
 src/transport/udp_monitor.rs | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 0fb375b..b328fb3 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -204,12 +204,13 @@ impl UdpTransport {
         })
     }
 
-    async fn get_next_sequence_nr(&self) -> Result<u8, Whatever> {
+    /// Channel id and next sequence number of the same connection
+    async fn get_next_sequence_nr(&self) -> Result<(u8, u8), Whatever> {
         match self.connection_data.lock().await.as_mut() {
             Some(data) => {
                 let num = data.sequence_nr;
                 data.sequence_nr = data.sequence_nr.wrapping_add(1);
-                Ok(num)
+                Ok((data.communication_channel_id, num))
             }
             None => whatever!("Disconnected from knx device, NR"),
         }
@@ -252,8 +253,8 @@ impl UdpTransport {
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let tunneled_req = TunnelingRequest::new(self.get_communication_channel_id().await?, sequence_nr, req);
+        let (communication_channel_id, sequence_nr) = self.get_next_sequence_nr().await?;
+        let tunneled_req = TunnelingRequest::new(communication_channel_id, sequence_nr, req);
         debug!("TunnelingRequest {:?}", tunneled_req);
         let req = tunneled_req.packet();
         debug!("======================");
@@ -266,8 +267,8 @@ impl UdpTransport {
     }
 
     pub async fn set_feature(&self, feature: KnxIpFeature, value: u8) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let req = FeatureSet::new(self.get_communication_channel_id().await?, sequence_nr, feature, value);
+        let (communication_channel_id, sequence_nr) = self.get_next_sequence_nr().await?;
+        let req = FeatureSet::new(communication_channel_id, sequence_nr, feature, value);
         debug!("FeatureSet request {:?}", req);
         let req = req.packet();
         debug!("Raw tunnel request: {:02x?}", req);
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index a84c77f..5e3fbd0 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -192,12 +192,13 @@ impl UdpMonitorTransport {
         }
     }
 
-    async fn get_next_sequence_nr(&self) -> Result<u8, Whatever> {
+    /// Channel id and next sequence number of the same connection
+    async fn get_next_sequence_nr(&self) -> Result<(u8, u8), Whatever> {
         match self.connection_data.lock().await.as_mut() {
             Some(data) => {
                 let num = data.sequence_nr;
                 data.sequence_nr = data.sequence_nr.wrapping_add(1);
-                Ok(num)
+                Ok((data.communication_channel_id, num))
             }
             None => whatever!("Disconnected from knx device, NR"),
         }
@@ -208,8 +209,8 @@ impl UdpMonitorTransport {
     }
 
     pub async fn set_feature(&self, feature: KnxIpFeature, value: u8) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let req = FeatureSet::new(self.communication_channel_id().await?, sequence_nr, feature, value);
+        let (communication_channel_id, sequence_nr) = self.get_next_sequence_nr().await?;
+        let req = FeatureSet::new(communication_channel_id, sequence_nr, feature, value);
         debug!("FeatureSet request {:?}", req);
         let req = req.packet();
         debug!("Raw tunnel request: {:02x?}", req);
@@ -220,8 +221,8 @@ impl UdpMonitorTransport {
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let tunneled_req = TunnelingRequest::new(self.communication_channel_id().await?, sequence_nr, req);
+        let (communication_channel_id, sequence_nr) = self.get_next_sequence_nr().await?;
+        let tunneled_req = TunnelingRequest::new(communication_channel_id, sequence_nr, req);
         debug!("TunnelingRequest {:?}", tunneled_req);
         let req = tunneled_req.packet();
         debug!("======================");
-- 
2.43.0


From 66a453a3d11e42b24fb934347081f4e2be325698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:23 +0000
Subject: [PATCH 29/38] fix: a search lasts its timeout and survives invalid
 responses

One invalid datagram discarded all found devices, every datagram restarted the
timeout and an unreachable network panicked.
---
 src/transport/udp.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index b328fb3..e67996b 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -313,10 +313,11 @@ impl UdpTransport {
         socket
             .send_to(&req, (SYSTEM_MULTICAST_ADDRESS, DISCOVERY_ENDPOINT_PORT))
             .await
-            .expect("Unable to send request");
+            .whatever_context("Unable to send search request")?;
 
         let mut buffer = vec![0; 512];
         let mut responses = Vec::new();
+        let deadline = Instant::now() + timeout;
 
         loop {
             select! {
@@ -326,16 +327,20 @@ impl UdpTransport {
                             let buffer = &buffer[..n_bytes];
                             debug!("Search response {:0x?}", buffer);
                             let mut cursor = Cursor::new(buffer);
-                            let resp = SearchResponse::from_packet(&mut cursor)?;
-                            debug!("Parsed search response {:0x?}", resp);
-                            responses.push(resp);
+                            match SearchResponse::from_packet(&mut cursor) {
+                                Ok(resp) => {
+                                    debug!("Parsed search response {:0x?}", resp);
+                                    responses.push(resp);
+                                }
+                                Err(e) => warn!("Ignoring search response {:?}", e),
+                            }
                         },
                         Err(e) => {
                             whatever!("Unable to get response {:?}", e);
                         }
                     }
                 },
-                _ = tokio::time::sleep(timeout) => {
+                _ = tokio::time::sleep_until(deadline) => {
                      debug!("Search timeout received {} responses", responses.len());
                      break;
                 }
-- 
2.43.0


From 6fa41db698bf162248cd2d2e557c9d210e9b9589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:24 +0000
Subject: [PATCH 30/38] fix: do not wait for on connect listeners

A listener that does not read its notifications blocked the monitor.
---
 src/transport/udp_monitor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 5e3fbd0..bd1aa6f 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -31,7 +31,7 @@ use std::sync::Arc;
 use std::time::Duration;
 use tokio::net::ToSocketAddrs;
 use tokio::net::UdpSocket;
-use tokio::sync::{mpsc, Mutex};
+use tokio::sync::{mpsc, mpsc::error::TrySendError, Mutex};
 use tokio::time::{interval, timeout};
 use tracing::instrument;
 
@@ -118,7 +118,8 @@ impl UdpMonitorTransport {
                         let mut active_on_connection = Vec::new();
                         let mut on_connection = on_connection.lock().await;
                         for tx in on_connection.iter() {
-                            if tx.send(()).await.is_ok() {
+                            // A full channel still has a notification to be read
+                            if !matches!(tx.try_send(()), Err(TrySendError::Closed(_))) {
                                 active_on_connection.push(tx.clone());
                             }
                         }
-- 
2.43.0


From 7742bd9468037da1b548338d930881aef77a144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:26 +0000
Subject: [PATCH 31/38] fix: refuse to write values longer than a frame

The length field of the frame overflowed.
---
 src/transport/udp.rs         | 1 +
 src/transport/udp_monitor.rs | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index e67996b..aca823e 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -599,6 +599,7 @@ impl UdpClient {
 
     pub async fn write_group_address_value(&self, addr: KnxAddress, value: Vec<u8>, small: bool) -> TransportResult<()> {
         debug!("Write {:?} to {:?}", value, addr);
+        ensure_whatever!(value.len() <= 253, "Value of {} bytes does not fit in a frame", value.len());
         let expected_addr = addr.to_u16();
         let apdu = APDU::group_value_write(value, small);
         let tpdu = TPDU::t_data_group(apdu);
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index bd1aa6f..a19f4ab 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -22,6 +22,7 @@ use crate::transport::udp::CONTROL_TIMEOUT;
 use log::debug;
 use log::info;
 use log::warn;
+use snafu::ensure_whatever;
 use snafu::whatever;
 use snafu::ResultExt;
 use snafu::Whatever;
@@ -358,6 +359,7 @@ impl UdpMonitor {
 
     pub async fn write_group_address_value(&self, addr: KnxAddress, value: Vec<u8>, small: bool) -> TransportResult<()> {
         debug!("Write {:?} to {:?}", value, addr);
+        ensure_whatever!(value.len() <= 253, "Value of {} bytes does not fit in a frame", value.len());
         let apdu = APDU::group_value_write(value, small);
         let tpdu = TPDU::t_data_group(apdu);
         let req = LDataReqMessage::new(addr, tpdu);
-- 
2.43.0


From e49240a1df6a655916e5c97b71dd975ed987581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:27 +0000
Subject: [PATCH 32/38] fix: wait for the connection response among other
 datagrams

A telegram still in flight from the previous connection failed the connection
attempt, and the response was left for the next attempt.
---
 src/transport/udp.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index aca823e..cf0eba1 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -418,12 +418,22 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
         whatever!("Unable to send connection request {:?}", e);
     }
 
-    let mut resp = vec![0; 100];
-    match timeout(Duration::from_secs(30), socket.recv(&mut resp)).await {
-        Ok(Ok(count)) => resp.truncate(count),
+    // Other datagrams, for example from a previous connection, may arrive before the response
+    let response = async {
+        loop {
+            let mut resp = vec![0; 100];
+            let count = socket.recv(&mut resp).await?;
+            resp.truncate(count);
+            if resp.get(2..4) == Some(&[0x02, 0x06]) {
+                return io::Result::Ok(resp);
+            }
+        }
+    };
+    let resp = match timeout(Duration::from_secs(30), response).await {
+        Ok(Ok(resp)) => resp,
         Ok(Err(e)) => whatever!("Unable to receive connection response {:?}", e),
         Err(e) => whatever!("Target device does not respond {:?}", e),
-    }
+    };
     debug!("Connection response {:0x?}", resp);
 
     let mut resp_cursor = Cursor::new(resp.as_slice());
-- 
2.43.0


From 078d21e1c267f4b368d2cc644e10df5ac43e1a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:46 +0000
Subject: [PATCH 33/38] fix: a tunnelling request that cannot be sent does not
 use up a sequence number

---
 src/transport/udp.rs         | 50 +++++++++++++++++++-----------------
 src/transport/udp_monitor.rs | 50 +++++++++++++++++++-----------------
 2 files changed, 52 insertions(+), 48 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index cf0eba1..91ae95c 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -204,13 +204,17 @@ impl UdpTransport {
         })
     }
 
-    /// Channel id and next sequence number of the same connection
-    async fn get_next_sequence_nr(&self) -> Result<(u8, u8), Whatever> {
+    /// Sends the packet built for the channel id and next sequence number of the
+    /// connection, a packet that could not be sent does not use up its number
+    async fn send_numbered(&self, packet: impl FnOnce(u8, u8) -> Vec<u8>) -> Result<(), Whatever> {
         match self.connection_data.lock().await.as_mut() {
             Some(data) => {
-                let num = data.sequence_nr;
+                let req = packet(data.communication_channel_id, data.sequence_nr);
+                if let Err(e) = self.socket.send(&req).await {
+                    whatever!("Unable to send request {:?}", e);
+                }
                 data.sequence_nr = data.sequence_nr.wrapping_add(1);
-                Ok((data.communication_channel_id, num))
+                Ok(())
             }
             None => whatever!("Disconnected from knx device, NR"),
         }
@@ -253,29 +257,27 @@ impl UdpTransport {
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
-        let (communication_channel_id, sequence_nr) = self.get_next_sequence_nr().await?;
-        let tunneled_req = TunnelingRequest::new(communication_channel_id, sequence_nr, req);
-        debug!("TunnelingRequest {:?}", tunneled_req);
-        let req = tunneled_req.packet();
-        debug!("======================");
-        debug!("[OUT] Raw tunnel request: {:02x?}", req);
-        debug!("======================");
-        if let Err(e) = self.socket.send(&req).await {
-            whatever!("Unable to send request {:?}", e);
-        }
-        Ok(())
+        self.send_numbered(|communication_channel_id, sequence_nr| {
+            let tunneled_req = TunnelingRequest::new(communication_channel_id, sequence_nr, req);
+            debug!("TunnelingRequest {:?}", tunneled_req);
+            let req = tunneled_req.packet();
+            debug!("======================");
+            debug!("[OUT] Raw tunnel request: {:02x?}", req);
+            debug!("======================");
+            req
+        })
+        .await
     }
 
     pub async fn set_feature(&self, feature: KnxIpFeature, value: u8) -> Result<(), Whatever> {
-        let (communication_channel_id, sequence_nr) = self.get_next_sequence_nr().await?;
-        let req = FeatureSet::new(communication_channel_id, sequence_nr, feature, value);
-        debug!("FeatureSet request {:?}", req);
-        let req = req.packet();
-        debug!("Raw tunnel request: {:02x?}", req);
-        if let Err(e) = self.socket.send(&req).await {
-            whatever!("Unable to send request {:?}", e);
-        }
-        Ok(())
+        self.send_numbered(|communication_channel_id, sequence_nr| {
+            let req = FeatureSet::new(communication_channel_id, sequence_nr, feature, value);
+            debug!("FeatureSet request {:?}", req);
+            let req = req.packet();
+            debug!("Raw tunnel request: {:02x?}", req);
+            req
+        })
+        .await
     }
 
     pub async fn disconnect(&self) -> Result<(), Whatever> {
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index a19f4ab..e13c0f4 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -194,13 +194,17 @@ impl UdpMonitorTransport {
         }
     }
 
-    /// Channel id and next sequence number of the same connection
-    async fn get_next_sequence_nr(&self) -> Result<(u8, u8), Whatever> {
+    /// Sends the packet built for the channel id and next sequence number of the
+    /// connection, a packet that could not be sent does not use up its number
+    async fn send_numbered(&self, packet: impl FnOnce(u8, u8) -> Vec<u8>) -> Result<(), Whatever> {
         match self.connection_data.lock().await.as_mut() {
             Some(data) => {
-                let num = data.sequence_nr;
+                let req = packet(data.communication_channel_id, data.sequence_nr);
+                if let Err(e) = self.socket.send(&req).await {
+                    whatever!("Unable to send request {:?}", e);
+                }
                 data.sequence_nr = data.sequence_nr.wrapping_add(1);
-                Ok((data.communication_channel_id, num))
+                Ok(())
             }
             None => whatever!("Disconnected from knx device, NR"),
         }
@@ -211,29 +215,27 @@ impl UdpMonitorTransport {
     }
 
     pub async fn set_feature(&self, feature: KnxIpFeature, value: u8) -> Result<(), Whatever> {
-        let (communication_channel_id, sequence_nr) = self.get_next_sequence_nr().await?;
-        let req = FeatureSet::new(communication_channel_id, sequence_nr, feature, value);
-        debug!("FeatureSet request {:?}", req);
-        let req = req.packet();
-        debug!("Raw tunnel request: {:02x?}", req);
-        if let Err(e) = self.socket.send(&req).await {
-            whatever!("Unable to send request {:?}", e);
-        }
-        Ok(())
+        self.send_numbered(|communication_channel_id, sequence_nr| {
+            let req = FeatureSet::new(communication_channel_id, sequence_nr, feature, value);
+            debug!("FeatureSet request {:?}", req);
+            let req = req.packet();
+            debug!("Raw tunnel request: {:02x?}", req);
+            req
+        })
+        .await
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
-        let (communication_channel_id, sequence_nr) = self.get_next_sequence_nr().await?;
-        let tunneled_req = TunnelingRequest::new(communication_channel_id, sequence_nr, req);
-        debug!("TunnelingRequest {:?}", tunneled_req);
-        let req = tunneled_req.packet();
-        debug!("======================");
-        debug!("[OUT] Raw tunnel request: {:02x?}", req);
-        debug!("======================");
-        if let Err(e) = self.socket.send(&req).await {
-            whatever!("Unable to send request {:?}", e);
-        }
-        Ok(())
+        self.send_numbered(|communication_channel_id, sequence_nr| {
+            let tunneled_req = TunnelingRequest::new(communication_channel_id, sequence_nr, req);
+            debug!("TunnelingRequest {:?}", tunneled_req);
+            let req = tunneled_req.packet();
+            debug!("======================");
+            debug!("[OUT] Raw tunnel request: {:02x?}", req);
+            debug!("======================");
+            req
+        })
+        .await
     }
 
     pub async fn disconnect(&self) -> Result<u8, Whatever> {
-- 
2.43.0


From 8f3e8e00a5ad5c34084051c6e56c4c80066b75f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:14 +0000
Subject: [PATCH 34/38] fix: a heart beat does not cancel the handling of a
 received message

---
 src/transport/udp.rs         | 9 ++++++++-
 src/transport/udp_monitor.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 91ae95c..7083c09 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -158,9 +158,16 @@ impl UdpTransport {
                         *connection_data = Some(ConnectionData::from_connection_response(connection));
                     }
 
+                    // The heart beat must not cancel a message that is being handled
+                    let mut recv = Box::pin(handle_recv_from_knx_device(
+                        socket.clone(),
+                        from_knx_tx.clone(),
+                        control_tx.clone(),
+                        &mut last_sequence_nr,
+                    ));
                     'recv: loop {
                         tokio::select! {
-                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), control_tx.clone(), &mut last_sequence_nr) => {
+                            resp = &mut recv => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     debug!("Exit from reconnection loop");
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index e13c0f4..9bbbda8 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -127,9 +127,16 @@ impl UdpMonitorTransport {
                         *on_connection = active_on_connection;
                     }
 
+                    // The heart beat must not cancel a message that is being handled
+                    let mut recv = Box::pin(handle_recv_from_knx_device(
+                        socket.clone(),
+                        from_knx_tx.clone(),
+                        control_tx.clone(),
+                        &mut last_sequence_nr,
+                    ));
                     loop {
                         tokio::select! {
-                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), control_tx.clone(), &mut last_sequence_nr) => {
+                            resp = &mut recv => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     break 'main;
-- 
2.43.0


From 998129ccd745835b04dbe8ab32bd61e90722cdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:18 +0000
Subject: [PATCH 35/38] fix: requests longer than a standard frame are marked
 as extended frames

---
 src/packets/emi.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index 6160947..6fa5a7a 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -173,8 +173,13 @@ impl LDataReqMessage {
     }
 
     pub fn packet(&self) -> Vec<u8> {
+        let mut tpdu_packet = self.tpdu.packet();
+        let length = tpdu_packet.len() - 1; // Count of APCI values
+
         let mut control = 0u8;
-        control |= 1 << 7; // Frame type standard
+        if length <= 15 {
+            control |= 1 << 7; // Frame type standard, longer ones need an extended frame
+        }
         control |= 1 << 5; // No repetition on error
         control |= 1 << 4; // Domain broadcast
         control |= (self.priority & 0x3) << 2;
@@ -188,8 +193,7 @@ impl LDataReqMessage {
         // packet.write_u16::<BigEndian>(0).unwrap();
         packet.write_u16::<BigEndian>(self.dest_address.to_u16()).unwrap();
 
-        let mut tpdu_packet = self.tpdu.packet();
-        packet.write_u8(tpdu_packet.len() as u8 - 1).unwrap(); // Count of APCI values
+        packet.write_u8(length as u8).unwrap();
         packet.append(&mut tpdu_packet);
 
         packet
-- 
2.43.0


From 90176b63ed35742f60d38600060c600486222ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:02 +0000
Subject: [PATCH 36/38] fix: status and disconnect requests take channel and
 endpoint from one connection

---
 src/transport/udp.rs         | 14 +++++++++-----
 src/transport/udp_monitor.rs | 16 +++++-----------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 7083c09..fa3a1f4 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -227,6 +227,7 @@ impl UdpTransport {
         }
     }
 
+    #[cfg(test)]
     async fn get_communication_channel_id(&self) -> Result<u8, Whatever> {
         match self.connection_data.lock().await.as_ref() {
             Some(data) => Ok(data.communication_channel_id),
@@ -234,15 +235,17 @@ impl UdpTransport {
         }
     }
 
-    async fn get_control_endpoint(&self) -> Result<HPAI, Whatever> {
+    /// Channel id and control endpoint of the current connection, a reconnection changes both
+    async fn get_control_data(&self) -> Result<(u8, HPAI), Whatever> {
         match self.connection_data.lock().await.as_ref() {
-            Some(data) => Ok(data.control_endpoint.clone()),
+            Some(data) => Ok((data.communication_channel_id, data.control_endpoint.clone())),
             None => whatever!("Disconnected from knx device, HPAI"),
         }
     }
 
     pub async fn get_connectionstate(&self) -> TransportResult<ConnectionstateResponse> {
-        let req = ConnectionstateRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?);
+        let (communication_channel_id, control_endpoint) = self.get_control_data().await?;
+        let req = ConnectionstateRequest::new(communication_channel_id, control_endpoint);
         let mut control_rx = self.control_rx.lock().await;
         while control_rx.try_recv().is_ok() {}
         if let Err(e) = self.socket.send(&req.packet()).await {
@@ -288,8 +291,9 @@ impl UdpTransport {
     }
 
     pub async fn disconnect(&self) -> Result<(), Whatever> {
-        let req = DisconnectRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?).packet();
-        debug!("Request disconnect for connection {}", self.get_communication_channel_id().await?);
+        let (communication_channel_id, control_endpoint) = self.get_control_data().await?;
+        let req = DisconnectRequest::new(communication_channel_id, control_endpoint).packet();
+        debug!("Request disconnect for connection {}", communication_channel_id);
         let mut control_rx = self.control_rx.lock().await;
         while control_rx.try_recv().is_ok() {}
         if let Err(e) = self.socket.send(&req).await {
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 9bbbda8..334754e 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -187,16 +187,10 @@ impl UdpMonitorTransport {
         self.on_connection.lock().await.push(tx);
     }
 
-    async fn communication_channel_id(&self) -> Result<u8, Whatever> {
+    /// Channel id and control endpoint of the current connection, a reconnection changes both
+    async fn control_data(&self) -> Result<(u8, HPAI), Whatever> {
         match self.connection_data.lock().await.as_ref() {
-            Some(data) => Ok(data.communication_channel_id),
-            None => whatever!("Disconnected from knx device, ID"),
-        }
-    }
-
-    async fn control_endpoint(&self) -> Result<HPAI, Whatever> {
-        match self.connection_data.lock().await.as_ref() {
-            Some(data) => Ok(data.control_endpoint.clone()),
+            Some(data) => Ok((data.communication_channel_id, data.control_endpoint.clone())),
             None => whatever!("Disconnected from knx device, HPAI"),
         }
     }
@@ -246,8 +240,8 @@ impl UdpMonitorTransport {
     }
 
     pub async fn disconnect(&self) -> Result<u8, Whatever> {
-        let communication_channel_id = self.communication_channel_id().await?;
-        let req = DisconnectRequest::new(communication_channel_id, self.control_endpoint().await?).packet();
+        let (communication_channel_id, control_endpoint) = self.control_data().await?;
+        let req = DisconnectRequest::new(communication_channel_id, control_endpoint).packet();
         debug!("Request disconnect for connection {}", communication_channel_id);
         let mut control_rx = self.control_rx.lock().await;
         while control_rx.try_recv().is_ok() {}
-- 
2.43.0


From 50f6915a20d31b4cb1ccb65a8d1e3f46d4734c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:38 +0000
Subject: [PATCH 37/38] fix: Keep a place for the disconnect response among
 unread control responses

---
 src/transport/udp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index fa3a1f4..d90f12d 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -519,8 +519,10 @@ pub(crate) async fn handle_recv_from_knx_device(
                 }
                 TunnelingResponse::ConnectionstateResponse(resp) => {
                     let status = resp.status;
-                    // Nobody has to wait for it
-                    let _ = control_tx.try_send(TunnelingResponse::ConnectionstateResponse(resp));
+                    // Nobody has to wait for it, the last place is kept for a disconnect response
+                    if control_tx.capacity() > 1 {
+                        let _ = control_tx.try_send(TunnelingResponse::ConnectionstateResponse(resp));
+                    }
                     if status != 0 {
                         warn!("Connection state response with error {}", status);
                         whatever!("KNX device signaled a connection state error");
-- 
2.43.0


From 1e6a6f746da2919d2d3f908760c5fd8f704eea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:53 +0000
Subject: [PATCH 38/38] fix: a search may last for any duration

---
 src/transport/udp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index d90f12d..660ab28 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -330,7 +330,7 @@ impl UdpTransport {
 
         let mut buffer = vec![0; 512];
         let mut responses = Vec::new();
-        let deadline = Instant::now() + timeout;
+        let mut time_up = Box::pin(sleep(timeout));
 
         loop {
             select! {
@@ -353,7 +353,7 @@ impl UdpTransport {
                         }
                     }
                 },
-                _ = tokio::time::sleep_until(deadline) => {
+                _ = &mut time_up => {
                      debug!("Search timeout received {} responses", responses.len());
                      break;
                 }
-- 
2.43.0

