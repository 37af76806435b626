From db9f3ebcdfadf991557be173f46ce8bf5ae6e035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:06 +0000
Subject: [PATCH 01/26] fix: reject undefined funct7 in SLL, SLT, SLTU, XOR, OR
 and AND

The decoder looked at funct7 only for ADD/SUB and SRL/SRA. Any other
register-register word was accepted whatever its funct7, for example
0x40c59533 (funct7 of "sub") decoded as SLL.
---
 src/decode/base_i.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/decode/base_i.rs b/src/decode/base_i.rs
index 6be5892..aa7899b 100644
--- a/src/decode/base_i.rs
+++ b/src/decode/base_i.rs
@@ -79,17 +79,35 @@ pub mod bit_32 {
                     0b010_0000 => Ok(BaseIOpcode::SUB),
                     _ => Err(DecodingError::InvalidFunct7),
                 },
-                0b001 => Ok(BaseIOpcode::SLL),
-                0b010 => Ok(BaseIOpcode::SLT),
-                0b011 => Ok(BaseIOpcode::SLTU),
-                0b100 => Ok(BaseIOpcode::XOR),
+                0b001 => match funct7 {
+                    0b000_0000 => Ok(BaseIOpcode::SLL),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
+                0b010 => match funct7 {
+                    0b000_0000 => Ok(BaseIOpcode::SLT),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
+                0b011 => match funct7 {
+                    0b000_0000 => Ok(BaseIOpcode::SLTU),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
+                0b100 => match funct7 {
+                    0b000_0000 => Ok(BaseIOpcode::XOR),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
                 0b101 => match funct7 {
                     0b000_0000 => Ok(BaseIOpcode::SRL),
                     0b010_0000 => Ok(BaseIOpcode::SRA),
                     _ => Err(DecodingError::InvalidFunct7),
                 },
-                0b110 => Ok(BaseIOpcode::OR),
-                0b111 => Ok(BaseIOpcode::AND),
+                0b110 => match funct7 {
+                    0b000_0000 => Ok(BaseIOpcode::OR),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
+                0b111 => match funct7 {
+                    0b000_0000 => Ok(BaseIOpcode::AND),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
                 _ => Err(DecodingError::InvalidFunct3),
             },
             0b111_0011 => match funct3 {
-- 
2.43.0


From 0d91d48effbb28ded4a8cb57cf79d72e039575a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:06 +0000
Subject: [PATCH 02/26] fix: reject undefined funct3 in JALR

JALR is only defined with funct3 = 0; the seven other values are reserved
and used to decode as JALR.
---
 src/decode/base_i.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decode/base_i.rs b/src/decode/base_i.rs
index aa7899b..4d12abe 100644
--- a/src/decode/base_i.rs
+++ b/src/decode/base_i.rs
@@ -15,7 +15,10 @@ pub mod bit_32 {
             0b011_0111 => Ok(BaseIOpcode::LUI),
             0b001_0111 => Ok(BaseIOpcode::AUIPC),
             0b110_1111 => Ok(BaseIOpcode::JAL),
-            0b110_0111 => Ok(BaseIOpcode::JALR),
+            0b110_0111 => match funct3 {
+                0b000 => Ok(BaseIOpcode::JALR),
+                _ => Err(DecodingError::InvalidFunct3),
+            },
             0b110_0011 => match funct3 {
                 0b000 => Ok(BaseIOpcode::BEQ),
                 0b001 => Ok(BaseIOpcode::BNE),
-- 
2.43.0


From 3b6230a7d1e40b674054b1512986443bd86051f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:07 +0000
Subject: [PATCH 03/26] fix: reject undefined funct7 in SLLIW and SLLW

Words such as 0x4010103b, with the funct7 of "subw", decoded as SLLW.
SLLIW ignored its upper seven bits as well.
---
 src/decode/base_i.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/decode/base_i.rs b/src/decode/base_i.rs
index 4d12abe..90bf6e1 100644
--- a/src/decode/base_i.rs
+++ b/src/decode/base_i.rs
@@ -126,7 +126,10 @@ pub mod bit_32 {
             },
             0b001_1011 => match funct3 {
                 0b000 => only_rv64(BaseIOpcode::ADDIW, isa),
-                0b001 => only_rv64(BaseIOpcode::SLLIW, isa),
+                0b001 => match funct7 {
+                    0b000_0000 => only_rv64(BaseIOpcode::SLLIW, isa),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
                 0b101 => match funct7 {
                     0b000_0000 => only_rv64(BaseIOpcode::SRLIW, isa),
                     0b010_0000 => only_rv64(BaseIOpcode::SRAIW, isa),
@@ -140,7 +143,10 @@ pub mod bit_32 {
                     0b010_0000 => only_rv64(BaseIOpcode::SUBW, isa),
                     _ => Err(DecodingError::InvalidFunct7),
                 },
-                0b001 => only_rv64(BaseIOpcode::SLLW, isa),
+                0b001 => match funct7 {
+                    0b000_0000 => only_rv64(BaseIOpcode::SLLW, isa),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
                 0b101 => match funct7 {
                     0b000_0000 => only_rv64(BaseIOpcode::SRLW, isa),
                     0b010_0000 => only_rv64(BaseIOpcode::SRAW, isa),
-- 
2.43.0


From 185eea125ee32dc8f9d62a34f33b5ecb22a580ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:07 +0000
Subject: [PATCH 04/26] fix: require rd and rs1 to be zero in ECALL and EBREAK

Both are single encodings. Words with other register fields are reserved
but decoded as ECALL or EBREAK.
---
 src/decode/base_i.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decode/base_i.rs b/src/decode/base_i.rs
index 90bf6e1..71dc994 100644
--- a/src/decode/base_i.rs
+++ b/src/decode/base_i.rs
@@ -116,6 +116,9 @@ pub mod bit_32 {
             0b111_0011 => match funct3 {
                 0b000 => match funct7 {
                     0b000_0000 => match funct5 {
+                        0b00000 | 0b00001 if inst.slice(19, 7) != 0 => {
+                            Err(DecodingError::InvalidOpcode)
+                        }
                         0b00000 => Ok(BaseIOpcode::ECALL),
                         0b00001 => Ok(BaseIOpcode::EBREAK),
                         _ => Err(DecodingError::InvalidFunct5),
-- 
2.43.0


From ac9ef58dac01eee2dc55d14e3738dbb2d4768ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:08 +0000
Subject: [PATCH 05/26] fix: require rd to be zero in SFENCE.VMA

SFENCE.VMA has no destination register; words with a non-zero rd field are
reserved but were accepted.
---
 src/decode/priv_extension.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decode/priv_extension.rs b/src/decode/priv_extension.rs
index 5d18af3..50bcaa9 100644
--- a/src/decode/priv_extension.rs
+++ b/src/decode/priv_extension.rs
@@ -12,7 +12,8 @@ pub mod bit_32 {
             0b0011_0000_0010_0000_0000_0000_0111_0011 => Ok(PrivOpcode::MRET),
             0b0001_0000_0101_0000_0000_0000_0111_0011 => Ok(PrivOpcode::WFI),
             _ => match funct7 {
-                0b000_1001 => Ok(PrivOpcode::SFENCE_VMA),
+                0b000_1001 if inst.slice(11, 7) == 0 => Ok(PrivOpcode::SFENCE_VMA),
+                0b000_1001 => Err(DecodingError::InvalidOpcode),
                 _ => Err(DecodingError::InvalidFunct7),
             },
         }
-- 
2.43.0


From 8f753f3f56c6eb8c9609f80c20facde024cd444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:08 +0000
Subject: [PATCH 06/26] fix: require rs2 to be zero in LR.W and LR.D

Load-reserved has no second source. A non-zero rs2 field is reserved but
was accepted and dropped.
---
 src/decode/a_extension.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decode/a_extension.rs b/src/decode/a_extension.rs
index 63468f1..f92e300 100644
--- a/src/decode/a_extension.rs
+++ b/src/decode/a_extension.rs
@@ -8,8 +8,11 @@ pub mod bit_32 {
         let funct3: u8 = u8::try_from(inst.slice(14, 12)).unwrap();
         let funct7: u8 = u8::try_from(inst.slice(31, 27)).unwrap();
 
+        let rs2: u8 = u8::try_from(inst.slice(24, 20)).unwrap();
+
         match opmap {
             0b010_1111 => match funct3 {
+                0b010 | 0b011 if funct7 == 0b00010 && rs2 != 0 => Err(DecodingError::InvalidOpcode),
                 0b010 => match funct7 {
                     0b00010 => Ok(AOpcode::LR_W),
                     0b00011 => Ok(AOpcode::SC_W),
-- 
2.43.0


From 390d47a35590f2faa8cad61c9b09bcfb31a5f034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:08 +0000
Subject: [PATCH 07/26] fix: decode csrrs on a counter with a source register
 as CSRRS

Reading a counter is "csrrs rd, counter, zero". With any other source
register the word is an ordinary CSRRS, but it was reported as RDCYCLE,
RDTIME or RDINSTRET and the source register was lost.
---
 src/decode/inst_32.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index c176267..4ad2964 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -132,6 +132,7 @@ impl DecodeUtil for u32 {
         let funct5: u8 = u8::try_from(self.slice(31, 27)).unwrap();
         let funct7: u8 = u8::try_from(self.slice(31, 25)).unwrap();
         let csr: u16 = u16::try_from(self.slice(31, 20)).unwrap();
+        let rs1: u8 = u8::try_from(self.slice(19, 15)).unwrap();
 
         match opmap {
             0b000_1111 => match funct3 {
@@ -161,7 +162,7 @@ impl DecodeUtil for u32 {
                 },
                 0b010 => match csr {
                     // csrrs rd, (cycle|time|instret), zero
-                    0xc00..=0xc02 | 0xc80..=0xc82 => Ok(Extensions::Zicntr),
+                    0xc00..=0xc02 | 0xc80..=0xc82 if rs1 == 0 => Ok(Extensions::Zicntr),
                     _ => Ok(Extensions::Zicsr),
                 },
                 0b100 => Ok(Extensions::Zicfiss),
-- 
2.43.0


From 8a790ffffcb844cb357d64091600f5817447d5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:09 +0000
Subject: [PATCH 08/26] fix: decode RDCYCLEH, RDTIMEH and RDINSTRETH on RV32
 only

The upper halves of the counters do not exist on RV64, where the same words
are a plain CSRRS.
---
 src/decode.rs         | 2 +-
 src/decode/inst_16.rs | 4 ++--
 src/decode/inst_32.rs | 8 +++++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 7c05a47..3f4fd5b 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -148,7 +148,7 @@ trait DecodeUtil {
     ///
     /// # Errors
     /// It will throws `UnknownExtension` if the extension is unsupported.
-    fn parse_extension(self) -> Result<Extensions, DecodingError>;
+    fn parse_extension(self, isa: Isa) -> Result<Extensions, DecodingError>;
 
     /// Convert i32 to a sign-extended any size number.
     /// # Arguments
diff --git a/src/decode/inst_16.rs b/src/decode/inst_16.rs
index e49bc0e..6399723 100644
--- a/src/decode/inst_16.rs
+++ b/src/decode/inst_16.rs
@@ -29,7 +29,7 @@ impl Decode for u16 {
     }
 
     fn parse_opcode(self, isa: Isa) -> Result<OpcodeKind, DecodingError> {
-        let extension = self.parse_extension();
+        let extension = self.parse_extension(isa);
 
         match extension {
             Ok(Extensions::C) => Ok(OpcodeKind::C(c_extension::bit_16::parse_opcode(self, isa)?)),
@@ -79,7 +79,7 @@ impl DecodeUtil for u16 {
         (self >> start) & (2_u16.pow(end - start + 1) - 1)
     }
 
-    fn parse_extension(self) -> Result<Extensions, DecodingError> {
+    fn parse_extension(self, _isa: Isa) -> Result<Extensions, DecodingError> {
         match self {
             0b0110_0000_1000_0001 | 0b0110_0010_1000_0001 => Ok(Extensions::Zicfiss),
             _ => Ok(Extensions::C),
diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index 4ad2964..7c60115 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -28,7 +28,7 @@ impl Decode for u32 {
     }
 
     fn parse_opcode(self, isa: Isa) -> Result<OpcodeKind, DecodingError> {
-        let extension = self.parse_extension();
+        let extension = self.parse_extension(isa);
 
         match extension {
             Ok(Extensions::BaseI) => {
@@ -126,7 +126,7 @@ impl DecodeUtil for u32 {
         (self >> start) & (2_u32.pow(end - start + 1) - 1)
     }
 
-    fn parse_extension(self) -> Result<Extensions, DecodingError> {
+    fn parse_extension(self, isa: Isa) -> Result<Extensions, DecodingError> {
         let opmap: u8 = u8::try_from(self.slice(6, 0)).unwrap();
         let funct3: u8 = u8::try_from(self.slice(14, 12)).unwrap();
         let funct5: u8 = u8::try_from(self.slice(31, 27)).unwrap();
@@ -162,7 +162,9 @@ impl DecodeUtil for u32 {
                 },
                 0b010 => match csr {
                     // csrrs rd, (cycle|time|instret), zero
-                    0xc00..=0xc02 | 0xc80..=0xc82 if rs1 == 0 => Ok(Extensions::Zicntr),
+                    0xc00..=0xc02 if rs1 == 0 => Ok(Extensions::Zicntr),
+                    // the upper halves exist only on Rv32
+                    0xc80..=0xc82 if rs1 == 0 && matches!(isa, Isa::Rv32) => Ok(Extensions::Zicntr),
                     _ => Ok(Extensions::Zicsr),
                 },
                 0b100 => Ok(Extensions::Zicfiss),
-- 
2.43.0


From 65057cf7711a941b517c1731125bc743a1dd4144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:03 +0000
Subject: [PATCH 09/26] fix: reject reserved register fields in SSPUSH,
 SSPOPCHK and SSRDP

SSPUSH needs rd and rs1 to be zero. SSPOPCHK needs rd to be zero and checks
only ra or t0. SSRDP needs a destination other than zero. Words breaking
these rules are not shadow-stack instructions but were decoded as such,
with the offending field reported as zero or dropped.
---
 src/decode/zicfiss_extension.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/decode/zicfiss_extension.rs b/src/decode/zicfiss_extension.rs
index fab2de4..456e952 100644
--- a/src/decode/zicfiss_extension.rs
+++ b/src/decode/zicfiss_extension.rs
@@ -5,16 +5,20 @@ pub mod bit_32 {
     pub fn parse_opcode(inst: u32) -> Result<ZicfissOpcode, DecodingError> {
         let opmap: u8 = u8::try_from(inst.slice(6, 0)).unwrap();
         let funct3: u8 = u8::try_from(inst.slice(14, 12)).unwrap();
+        let rd: u8 = u8::try_from(inst.slice(11, 7)).unwrap();
         let rs1: u8 = u8::try_from(inst.slice(19, 15)).unwrap();
         let funct7_rs2: u16 = u16::try_from(inst.slice(31, 20)).unwrap();
 
         match opmap {
             0b111_0011 => match funct3 {
                 0b100 => match funct7_rs2 {
-                    0b1100_1110_0001 | 0b1100_1110_0101 => Ok(ZicfissOpcode::SSPUSH),
+                    0b1100_1110_0001 | 0b1100_1110_0101 if rd == 0 && rs1 == 0 => {
+                        Ok(ZicfissOpcode::SSPUSH)
+                    }
                     0b1100_1101_1100 => match rs1 {
-                        0b0_0000 => Ok(ZicfissOpcode::SSRDP),
-                        _ => Ok(ZicfissOpcode::SSPOPCHK),
+                        0b0_0000 if rd != 0 => Ok(ZicfissOpcode::SSRDP),
+                        0b0_0001 | 0b0_0101 if rd == 0 => Ok(ZicfissOpcode::SSPOPCHK),
+                        _ => Err(DecodingError::InvalidOpcode),
                     },
                     _ => Err(DecodingError::InvalidOpcode),
                 },
-- 
2.43.0


From b3844ca7fb75b9efd539ee6f74ad3830231f88b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:04 +0000
Subject: [PATCH 10/26] fix: accept SSAMOSWAP.D on RV64 only

The doubleword atomic swap does not exist on RV32, where it was accepted.
---
 src/decode/inst_32.rs           | 2 +-
 src/decode/zicfiss_extension.rs | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index 7c60115..31f4848 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -43,7 +43,7 @@ impl Decode for u32 {
                 self,
             )?)),
             Ok(Extensions::Zicfiss) => Ok(OpcodeKind::Zicfiss(
-                zicfiss_extension::bit_32::parse_opcode(self)?,
+                zicfiss_extension::bit_32::parse_opcode(self, isa)?,
             )),
             Ok(Extensions::Zicntr) => Ok(OpcodeKind::Zicntr(
                 zicntr_extension::bit_32::parse_opcode(self)?,
diff --git a/src/decode/zicfiss_extension.rs b/src/decode/zicfiss_extension.rs
index 456e952..0e016bd 100644
--- a/src/decode/zicfiss_extension.rs
+++ b/src/decode/zicfiss_extension.rs
@@ -1,8 +1,9 @@
 pub mod bit_32 {
-    use super::super::{DecodeUtil, DecodingError};
+    use super::super::{only_rv64, DecodeUtil, DecodingError};
     use crate::instruction::zicfiss_extension::ZicfissOpcode;
+    use crate::Isa;
 
-    pub fn parse_opcode(inst: u32) -> Result<ZicfissOpcode, DecodingError> {
+    pub fn parse_opcode(inst: u32, isa: Isa) -> Result<ZicfissOpcode, DecodingError> {
         let opmap: u8 = u8::try_from(inst.slice(6, 0)).unwrap();
         let funct3: u8 = u8::try_from(inst.slice(14, 12)).unwrap();
         let rd: u8 = u8::try_from(inst.slice(11, 7)).unwrap();
@@ -26,7 +27,7 @@ pub mod bit_32 {
             },
             0b010_1111 => match funct3 {
                 0b010 => Ok(ZicfissOpcode::SSAMOSWAP_W),
-                0b011 => Ok(ZicfissOpcode::SSAMOSWAP_D),
+                0b011 => only_rv64(ZicfissOpcode::SSAMOSWAP_D, isa),
                 _ => Err(DecodingError::InvalidFunct3),
             },
             _ => Err(DecodingError::InvalidOpcode),
-- 
2.43.0


From 78fccb50444de5a8d2784e08d07d84f47f14cf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:04 +0000
Subject: [PATCH 11/26] fix: do not decode C.ADD with destination x0 as
 C.EBREAK

"c.add zero, rs2" is a hint and has no effect. The 31 parcels 0x9006 to
0x907e were reported as a breakpoint instead. Only 0x9002 is C.EBREAK.
---
 src/decode/c_extension.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/decode/c_extension.rs b/src/decode/c_extension.rs
index 5b59a6b..9372898 100644
--- a/src/decode/c_extension.rs
+++ b/src/decode/c_extension.rs
@@ -76,12 +76,12 @@ pub mod bit_16 {
                     0b0 => Ok(COpcode::JR),
                     _ => Ok(COpcode::MV),
                 },
-                0b1 => match mi_flag {
-                    0b0 => Ok(COpcode::EBREAK),
-                    _ => match lo_flag {
-                        0b0 => Ok(COpcode::JALR),
-                        _ => Ok(COpcode::ADD),
+                0b1 => match lo_flag {
+                    0b0 => match mi_flag {
+                        0b0 => Ok(COpcode::EBREAK),
+                        _ => Ok(COpcode::JALR),
                     },
+                    _ => Ok(COpcode::ADD),
                 },
                 _ => Err(DecodingError::InvalidOpcode),
             },
-- 
2.43.0


From bdbd1d9a78ff49bb1096251417de0ecfcc04ba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:05 +0000
Subject: [PATCH 12/26] fix: reject C.ADDI4SPN and C.ADDI16SP with a zero
 immediate

Both require a non-zero immediate. The zero encodings are reserved but were
accepted.
---
 src/decode/c_extension.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/decode/c_extension.rs b/src/decode/c_extension.rs
index 9372898..ce6a35f 100644
--- a/src/decode/c_extension.rs
+++ b/src/decode/c_extension.rs
@@ -3,9 +3,14 @@ pub mod bit_16 {
     use crate::instruction::c_extension::COpcode;
     use crate::Isa;
 
-    fn quadrant0(_inst: u16, opmap: u8, isa: Isa) -> Result<COpcode, DecodingError> {
+    fn quadrant0(inst: u16, opmap: u8, isa: Isa) -> Result<COpcode, DecodingError> {
+        let nzuimm: u16 = inst.slice(12, 5);
+
         match opmap {
-            0b000 => Ok(COpcode::ADDI4SPN),
+            0b000 => match nzuimm {
+                0 => Err(DecodingError::InvalidOpcode),
+                _ => Ok(COpcode::ADDI4SPN),
+            },
             0b010 => Ok(COpcode::LW),
             0b011 => only_rv64(COpcode::LD, isa),
             0b110 => Ok(COpcode::SW),
@@ -31,7 +36,10 @@ pub mod bit_16 {
             },
             0b010 => Ok(COpcode::LI),
             0b011 => match mi_flag {
-                0b00010 => Ok(COpcode::ADDI16SP),
+                0b00010 => match (bit_12, inst.slice(6, 2)) {
+                    (0, 0) => Err(DecodingError::InvalidOpcode),
+                    _ => Ok(COpcode::ADDI16SP),
+                },
                 _ => Ok(COpcode::LUI),
             },
             0b100 => match sr_flag {
-- 
2.43.0


From 7ac3505fac58307b02fbeec3a851eb37d975ee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:05 +0000
Subject: [PATCH 13/26] fix: reject C.ADDIW, C.LWSP, C.LDSP and C.JR on
 register x0

These encodings are reserved when the register field is zero but were
accepted.
---
 src/decode/c_extension.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/decode/c_extension.rs b/src/decode/c_extension.rs
index ce6a35f..5f2c01d 100644
--- a/src/decode/c_extension.rs
+++ b/src/decode/c_extension.rs
@@ -32,7 +32,10 @@ pub mod bit_16 {
             },
             0b001 => match isa {
                 Isa::Rv32 => Ok(COpcode::JAL),
-                Isa::Rv64 => Ok(COpcode::ADDIW),
+                Isa::Rv64 => match mi_flag {
+                    0b00000 => Err(DecodingError::InvalidOpcode),
+                    _ => Ok(COpcode::ADDIW),
+                },
             },
             0b010 => Ok(COpcode::LI),
             0b011 => match mi_flag {
@@ -77,11 +80,15 @@ pub mod bit_16 {
 
         match opmap {
             0b000 => Ok(COpcode::SLLI),
+            0b010 | 0b011 if mi_flag == 0 => Err(DecodingError::InvalidOpcode),
             0b010 => Ok(COpcode::LWSP),
             0b011 => only_rv64(COpcode::LDSP, isa),
             0b100 => match hi_flag {
                 0b0 => match lo_flag {
-                    0b0 => Ok(COpcode::JR),
+                    0b0 => match mi_flag {
+                        0b0 => Err(DecodingError::InvalidOpcode),
+                        _ => Ok(COpcode::JR),
+                    },
                     _ => Ok(COpcode::MV),
                 },
                 0b1 => match lo_flag {
-- 
2.43.0


From 5deb4dd25a0da48f818118d3eca2e7a5b58bade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:05 +0000
Subject: [PATCH 14/26] fix: reject compressed shifts by 32 or more on RV32

C.SLLI, C.SRLI and C.SRAI need the top bit of the shift amount to be zero on
RV32. The decoder accepted such words and reported a shift of up to 63.
---
 src/decode/c_extension.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/decode/c_extension.rs b/src/decode/c_extension.rs
index 5f2c01d..02f7551 100644
--- a/src/decode/c_extension.rs
+++ b/src/decode/c_extension.rs
@@ -46,6 +46,9 @@ pub mod bit_16 {
                 _ => Ok(COpcode::LUI),
             },
             0b100 => match sr_flag {
+                0b00 | 0b01 if bit_12 == 1 && matches!(isa, Isa::Rv32) => {
+                    Err(DecodingError::OnlyRv64Inst)
+                }
                 0b00 => Ok(COpcode::SRLI),
                 0b01 => Ok(COpcode::SRAI),
                 0b10 => Ok(COpcode::ANDI),
@@ -79,7 +82,10 @@ pub mod bit_16 {
         let hi_flag: u8 = u8::try_from(inst.slice(12, 12)).unwrap();
 
         match opmap {
-            0b000 => Ok(COpcode::SLLI),
+            0b000 => match hi_flag {
+                0b1 => only_rv64(COpcode::SLLI, isa),
+                _ => Ok(COpcode::SLLI),
+            },
             0b010 | 0b011 if mi_flag == 0 => Err(DecodingError::InvalidOpcode),
             0b010 => Ok(COpcode::LWSP),
             0b011 => only_rv64(COpcode::LDSP, isa),
-- 
2.43.0


From 34c06b8d392cde8192969362871ecf770e7309e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:06 +0000
Subject: [PATCH 15/26] fix: return an error for a usize that is too wide to be
 an instruction

Converting such a value with Instruction::try_from panicked, for example on
0x400010 or on any 32-bit instruction with garbage in the upper half.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 931c6c4..72beafd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,11 +77,11 @@ impl TryFrom<usize> for Instruction {
     fn try_from(inst: usize) -> Result<Self, Self::Error> {
         if inst & 0b11 == 0b11 {
             u32::try_from(inst)
-                .expect("Truncation of usize to u32 failed.")
+                .map_err(|_| DecodingError::Not32BitInst)?
                 .decode(Isa::Rv64)
         } else {
             u16::try_from(inst)
-                .expect("Truncation of usize to u16 failed.")
+                .map_err(|_| DecodingError::Not16BitInst)?
                 .decode(Isa::Rv64)
         }
     }
-- 
2.43.0


From 90fcb8e9ec8d7a4308f529c45d8f0414caaa323c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:06 +0000
Subject: [PATCH 16/26] fix: return an error when a parser gets a shadow-stack
 opcode of the other length

parse_rd, parse_rs1, parse_rs2 and parse_imm report opcodes of the wrong
length with an error, except for the shadow-stack ones. There they hit
unreachable!() or returned fields of a different instruction.
---
 src/decode/inst_16.rs | 17 +++++++++++++----
 src/decode/inst_32.rs | 13 +++++++++++++
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/decode/inst_16.rs b/src/decode/inst_16.rs
index 6399723..677c552 100644
--- a/src/decode/inst_16.rs
+++ b/src/decode/inst_16.rs
@@ -1,6 +1,7 @@
 use super::{c_extension, zicfiss_extension};
 use super::{Decode, DecodeUtil, DecodingError};
 
+use crate::instruction::zicfiss_extension::ZicfissOpcode;
 use crate::instruction::{InstFormat, Instruction, OpcodeKind};
 use crate::{Extensions, Isa};
 
@@ -43,7 +44,9 @@ impl Decode for u16 {
     fn parse_rd(self, opkind: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_rd(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_rd(self, opc)),
+            OpcodeKind::Zicfiss(opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)) => {
+                Ok(zicfiss_extension::bit_16::parse_rd(self, opc))
+            }
             _ => Err(DecodingError::Not16BitInst),
         }
     }
@@ -51,7 +54,9 @@ impl Decode for u16 {
     fn parse_rs1(self, opkind: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_rs1(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_rs1(self, opc)),
+            OpcodeKind::Zicfiss(opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)) => {
+                Ok(zicfiss_extension::bit_16::parse_rs1(self, opc))
+            }
             _ => Err(DecodingError::Not16BitInst),
         }
     }
@@ -59,7 +64,9 @@ impl Decode for u16 {
     fn parse_rs2(self, opkind: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_rs2(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_rs2(self, opc)),
+            OpcodeKind::Zicfiss(opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)) => {
+                Ok(zicfiss_extension::bit_16::parse_rs2(self, opc))
+            }
             _ => Err(DecodingError::Not16BitInst),
         }
     }
@@ -67,7 +74,9 @@ impl Decode for u16 {
     fn parse_imm(self, opkind: &OpcodeKind, _isa: Isa) -> Result<Option<i32>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_imm(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_imm(self, opc)),
+            OpcodeKind::Zicfiss(opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)) => {
+                Ok(zicfiss_extension::bit_16::parse_imm(self, opc))
+            }
             _ => Err(DecodingError::Not16BitInst),
         }
     }
diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index 31f4848..e53a58e 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -3,6 +3,7 @@ use super::{
     zicntr_extension, zicsr_extension, zifencei_extension,
 };
 use super::{Decode, DecodeUtil, DecodingError};
+use crate::instruction::zicfiss_extension::ZicfissOpcode;
 use crate::instruction::{InstFormat, Instruction, OpcodeKind};
 use crate::{Extensions, Isa};
 
@@ -66,6 +67,9 @@ impl Decode for u32 {
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_rd(self, opc)),
             OpcodeKind::Zifencei(opc) => Ok(zifencei_extension::bit_32::parse_rd(self, opc)),
             OpcodeKind::Zicsr(opc) => Ok(zicsr_extension::bit_32::parse_rd(self, opc)),
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_32::parse_rd(self, opc)),
             OpcodeKind::Zicntr(opc) => Ok(zicntr_extension::bit_32::parse_rd(self, opc)),
             OpcodeKind::Zicboz(opc) => Ok(zicboz_extension::bit_32::parse_rd(self, opc)),
@@ -81,6 +85,9 @@ impl Decode for u32 {
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_rs1(self, opc)),
             OpcodeKind::Zifencei(opc) => Ok(zifencei_extension::bit_32::parse_rs1(self, opc)),
             OpcodeKind::Zicsr(opc) => Ok(zicsr_extension::bit_32::parse_rs1(self, opc)),
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_32::parse_rs1(self, opc)),
             OpcodeKind::Zicntr(opc) => Ok(zicntr_extension::bit_32::parse_rs1(self, opc)),
             OpcodeKind::Zicboz(opc) => Ok(zicboz_extension::bit_32::parse_rs1(self, opc)),
@@ -96,6 +103,9 @@ impl Decode for u32 {
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_rs2(self, opc)),
             OpcodeKind::Zifencei(opc) => Ok(zifencei_extension::bit_32::parse_rs2(self, opc)),
             OpcodeKind::Zicsr(opc) => Ok(zicsr_extension::bit_32::parse_rs2(self, opc)),
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_32::parse_rs2(self, opc)),
             OpcodeKind::Zicntr(opc) => Ok(zicntr_extension::bit_32::parse_rs2(self, opc)),
             OpcodeKind::Zicboz(opc) => Ok(zicboz_extension::bit_32::parse_rs2(self, opc)),
@@ -111,6 +121,9 @@ impl Decode for u32 {
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_imm(self, opc)),
             OpcodeKind::Zifencei(opc) => Ok(zifencei_extension::bit_32::parse_imm(self, opc)),
             OpcodeKind::Zicsr(opc) => Ok(zicsr_extension::bit_32::parse_imm(self, opc)),
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_32::parse_imm(self, opc)),
             OpcodeKind::Zicntr(opc) => Ok(zicntr_extension::bit_32::parse_imm(self, opc)),
             OpcodeKind::Zicboz(opc) => Ok(zicboz_extension::bit_32::parse_imm(self, opc)),
-- 
2.43.0


From ed95c5c0e1ecf901f987a03a1da707757725240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:06 +0000
Subject: [PATCH 17/26] fix: print the register of SSPUSH, SSPOPCHK and their
 compressed forms

SSPUSH and SSPOPCHK had each other's format: formatting a decoded SSPOPCHK
panicked and SSPUSH always showed "zero". The compressed forms were marked
as having no operand, which made formatting panic too.
---
 src/instruction.rs                   | 4 ++--
 src/instruction/zicfiss_extension.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index e96591b..3b5a329 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -417,13 +417,13 @@ pub enum InstFormat {
 
     /// Only rs1 name
     /// ```ignore
-    /// sspush ra
+    /// sspopchk t0
     /// ```
     OnlyRs1,
 
     /// Only rs2 name
     /// ```ignore
-    /// sspopchk t0
+    /// sspush ra
     /// ```
     OnlyRs2,
 }
diff --git a/src/instruction/zicfiss_extension.rs b/src/instruction/zicfiss_extension.rs
index b3ccb51..7ff96fe 100644
--- a/src/instruction/zicfiss_extension.rs
+++ b/src/instruction/zicfiss_extension.rs
@@ -40,11 +40,11 @@ impl Display for ZicfissOpcode {
 impl Opcode for ZicfissOpcode {
     fn get_format(&self) -> InstFormat {
         match self {
-            ZicfissOpcode::SSPUSH => InstFormat::OnlyRs1,
-            ZicfissOpcode::SSPOPCHK => InstFormat::OnlyRs2,
+            ZicfissOpcode::SSPUSH => InstFormat::OnlyRs2,
+            ZicfissOpcode::SSPOPCHK => InstFormat::OnlyRs1,
             ZicfissOpcode::SSRDP => InstFormat::OnlyRd,
             ZicfissOpcode::SSAMOSWAP_W | ZicfissOpcode::SSAMOSWAP_D => InstFormat::AFormat,
-            ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK => InstFormat::NoOperand,
+            ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK => InstFormat::OnlyRd,
         }
     }
 }
-- 
2.43.0


From 28436b52571e068ec8e0e3565adb9a058a633728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:07 +0000
Subject: [PATCH 18/26] fix: do not panic when formatting SFENCE.VMA

It uses the register format but has no destination register, so formatting
unwrapped a missing value.
---
 src/instruction.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/instruction.rs b/src/instruction.rs
index 3b5a329..60373d9 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -47,6 +47,13 @@ impl Display for Instruction {
     #[allow(clippy::too_many_lines)]
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self.inst_format {
+            InstFormat::RFormat if self.opc == OpcodeKind::Priv(PrivOpcode::SFENCE_VMA) => write!(
+                f,
+                "{} {}, {}",
+                self.opc,
+                reg2str(self.rs1.unwrap()),
+                reg2str(self.rs2.unwrap())
+            ),
             InstFormat::RFormat | InstFormat::MFormat => {
                 write!(
                     f,
-- 
2.43.0


From aa292ff3b014e920c4fc94e6e339c5915899a1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:07 +0000
Subject: [PATCH 19/26] fix: drop the stray comma from the name of MULHSU

The instruction was printed as "mulhsu, a0, a1, a2".
---
 src/instruction/m_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instruction/m_extension.rs b/src/instruction/m_extension.rs
index 97d6eb3..8589422 100644
--- a/src/instruction/m_extension.rs
+++ b/src/instruction/m_extension.rs
@@ -29,7 +29,7 @@ impl Display for MOpcode {
         match self {
             MOpcode::MUL => write!(f, "mul"),
             MOpcode::MULH => write!(f, "mulh"),
-            MOpcode::MULHSU => write!(f, "mulhsu,"),
+            MOpcode::MULHSU => write!(f, "mulhsu"),
             MOpcode::MULHU => write!(f, "mulhu"),
             MOpcode::DIV => write!(f, "div"),
             MOpcode::DIVU => write!(f, "divu"),
-- 
2.43.0


From d74d556d68ae8a2b402542fee0ff9871faea8e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:08 +0000
Subject: [PATCH 20/26] fix: print FENCE as "fence"

FENCE.I is a different instruction, which the decoder does not accept.
---
 src/instruction/zifencei_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instruction/zifencei_extension.rs b/src/instruction/zifencei_extension.rs
index cba0e63..47f2e60 100644
--- a/src/instruction/zifencei_extension.rs
+++ b/src/instruction/zifencei_extension.rs
@@ -13,7 +13,7 @@ pub enum ZifenceiOpcode {
 impl Display for ZifenceiOpcode {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self {
-            ZifenceiOpcode::FENCE => write!(f, "fence.i"),
+            ZifenceiOpcode::FENCE => write!(f, "fence"),
         }
     }
 }
-- 
2.43.0


From be8b5347a163c4a618dbdc8cdd7139fd959a1dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:08 +0000
Subject: [PATCH 21/26] fix: print stores and branches with their operands in
 the right place

A store was printed with its base and source registers swapped, so
"sw a0, 4(sp)" came out as "sw sp, 4(a0)". Branches were printed in the
same memory-operand form. The text now follows the documented formats.
---
 src/instruction.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 60373d9..797f4e0 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -98,13 +98,21 @@ impl Display for Instruction {
                 reg2str(self.rs1.unwrap()),
                 self.imm.unwrap()
             ),
-            InstFormat::CsFormat | InstFormat::SFormat | InstFormat::BFormat => write!(
+            InstFormat::CsFormat | InstFormat::SFormat => write!(
                 f,
                 "{} {}, {}({})",
                 self.opc,
-                reg2str(self.rs1.unwrap()),
+                reg2str(self.rs2.unwrap()),
                 self.imm.unwrap(),
+                reg2str(self.rs1.unwrap()),
+            ),
+            InstFormat::BFormat => write!(
+                f,
+                "{} {}, {}, {}",
+                self.opc,
+                reg2str(self.rs1.unwrap()),
                 reg2str(self.rs2.unwrap()),
+                self.imm.unwrap()
             ),
             InstFormat::CiwFormat => {
                 write!(
-- 
2.43.0


From 0462127aa688a2f7ae8a33e6c20660185783dcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:08 +0000
Subject: [PATCH 22/26] fix: print the register name in compressed branches and
 shifts

C.BEQZ, C.BNEZ, C.SRLI, C.SRAI and C.ANDI showed a bare register number.
---
 src/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 797f4e0..98f0c28 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -193,7 +193,7 @@ impl Display for Instruction {
                     f,
                     "{} {}, {}",
                     self.opc,
-                    self.rs1.unwrap(),
+                    reg2str(self.rs1.unwrap()),
                     self.imm.unwrap(),
                 )
             }
-- 
2.43.0


From 82f98e65fff7190c53b6becd5f95452e970aeca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:09 +0000
Subject: [PATCH 23/26] fix: print the shift amount of immediate shifts

"slli a0, a1, 3" was printed as "slli a0, a1".
---
 src/instruction.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 98f0c28..4d181fe 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -84,10 +84,11 @@ impl Display for Instruction {
             InstFormat::RShamtFormat => {
                 write!(
                     f,
-                    "{} {}, {}",
+                    "{} {}, {}, {}",
                     self.opc,
                     reg2str(self.rd.unwrap()),
                     reg2str(self.rs1.unwrap()),
+                    self.imm.unwrap()
                 )
             }
             InstFormat::ClFormat | InstFormat::ALrFormat | InstFormat::IFormat => write!(
@@ -290,7 +291,7 @@ pub enum InstFormat {
 
     /// Regular format with shamt
     /// ```ignore
-    /// srai rd, rs1
+    /// srai rd, rs1, shamt
     /// ```
     RShamtFormat,
 
-- 
2.43.0


From fea109eeaa7e620110ac4e23b7679c158b4d5f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:09 +0000
Subject: [PATCH 24/26] fix: print atomic instructions in their documented form

The address register was printed in the place of the value register, so
"amoadd.w a0, a1, (a2)" came out as "amoadd.w a0, a2, a1". LR.W showed its
ordering bits as a trailing number, and LR.D had a different format than
LR.W.
---
 src/instruction.rs             | 34 ++++++++++++++++------------------
 src/instruction/a_extension.rs |  3 +--
 2 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 4d181fe..5f76588 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -64,23 +64,21 @@ impl Display for Instruction {
                     reg2str(self.rs2.unwrap())
                 )
             }
-            InstFormat::AFormat => match self.opc {
-                OpcodeKind::A(AOpcode::LR_W | AOpcode::LR_D) => write!(
-                    f,
-                    "{} {}, {}",
-                    self.opc,
-                    reg2str(self.rd.unwrap()),
-                    reg2str(self.rs1.unwrap()),
-                ),
-                _ => write!(
-                    f,
-                    "{} {}, {}, {}",
-                    self.opc,
-                    reg2str(self.rd.unwrap()),
-                    reg2str(self.rs1.unwrap()),
-                    reg2str(self.rs2.unwrap())
-                ),
-            },
+            InstFormat::AFormat => write!(
+                f,
+                "{} {}, {}, ({})",
+                self.opc,
+                reg2str(self.rd.unwrap()),
+                reg2str(self.rs2.unwrap()),
+                reg2str(self.rs1.unwrap())
+            ),
+            InstFormat::ALrFormat => write!(
+                f,
+                "{} {}, ({})",
+                self.opc,
+                reg2str(self.rd.unwrap()),
+                reg2str(self.rs1.unwrap()),
+            ),
             InstFormat::RShamtFormat => {
                 write!(
                     f,
@@ -91,7 +89,7 @@ impl Display for Instruction {
                     self.imm.unwrap()
                 )
             }
-            InstFormat::ClFormat | InstFormat::ALrFormat | InstFormat::IFormat => write!(
+            InstFormat::ClFormat | InstFormat::IFormat => write!(
                 f,
                 "{} {}, {}, {}",
                 self.opc,
diff --git a/src/instruction/a_extension.rs b/src/instruction/a_extension.rs
index 0cb6e43..0ef3402 100644
--- a/src/instruction/a_extension.rs
+++ b/src/instruction/a_extension.rs
@@ -65,7 +65,7 @@ impl Display for AOpcode {
 impl Opcode for AOpcode {
     fn get_format(&self) -> InstFormat {
         match self {
-            AOpcode::LR_W => InstFormat::ALrFormat,
+            AOpcode::LR_W | AOpcode::LR_D => InstFormat::ALrFormat,
             AOpcode::SC_W
             | AOpcode::AMOSWAP_W
             | AOpcode::AMOADD_W
@@ -76,7 +76,6 @@ impl Opcode for AOpcode {
             | AOpcode::AMOMAX_W
             | AOpcode::AMOMINU_W
             | AOpcode::AMOMAXU_W
-            | AOpcode::LR_D
             | AOpcode::SC_D
             | AOpcode::AMOSWAP_D
             | AOpcode::AMOADD_D
-- 
2.43.0


From c8e9f57248c0cd6b68695e63cdb74612a6d5b389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:09 +0000
Subject: [PATCH 25/26] fix: mark the hexadecimal immediate of C.ADDI4SPN as
 such

It was printed as bare digits, so an offset of 16 read as 10.
---
 src/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 5f76588..5aa617f 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -116,7 +116,7 @@ impl Display for Instruction {
             InstFormat::CiwFormat => {
                 write!(
                     f,
-                    "{} {}, sp, {:x}",
+                    "{} {}, sp, {:#x}",
                     self.opc,
                     reg2str(self.rd.unwrap()),
                     self.imm.unwrap()
-- 
2.43.0


From b73855772a65bdab1271b9eb705fd7621df16d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:10 +0000
Subject: [PATCH 26/26] fix: print C.LI, C.LUI, C.LWSP and C.LDSP without a
 bogus source register

They do not read their destination. The stack-relative loads showed it in
the place of sp.
---
 src/instruction.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 5aa617f..fad0b55 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -143,16 +143,30 @@ impl Display for Instruction {
             InstFormat::CjFormat => {
                 write!(f, "{} {}", self.opc, self.imm.unwrap())
             }
-            InstFormat::CiFormat => {
-                write!(
+            InstFormat::CiFormat => match self.opc {
+                OpcodeKind::C(COpcode::LI | COpcode::LUI) => write!(
+                    f,
+                    "{} {}, {}",
+                    self.opc,
+                    reg2str(self.rd.unwrap()),
+                    self.imm.unwrap()
+                ),
+                OpcodeKind::C(COpcode::LWSP | COpcode::LDSP) => write!(
+                    f,
+                    "{} {}, {}(sp)",
+                    self.opc,
+                    reg2str(self.rd.unwrap()),
+                    self.imm.unwrap()
+                ),
+                _ => write!(
                     f,
                     "{} {}, {}, {}",
                     self.opc,
                     reg2str(self.rd.unwrap()),
                     reg2str(self.rd.unwrap()),
                     self.imm.unwrap()
-                )
-            }
+                ),
+            },
             InstFormat::CrFormat => match self.opc {
                 OpcodeKind::C(COpcode::JR) => {
                     write!(f, "{} zero, 0({})", self.opc, reg2str(self.rs1.unwrap()),)
-- 
2.43.0

