//! The oracle: the RISC-V encodings raki supports, written down from the ISA
//! manual (RV32/64 listings, "C" chapter, Zicsr, Zicntr, Zicboz, Zicfiss,
//! privileged spec) as mask/match pairs plus an operand layout. Nothing in
//! this file calls raki's decoder; raki's types are only named so that results
//! can be compared.

use raki::{
    AOpcode, BaseIOpcode, COpcode, InstFormat, MOpcode, OpcodeKind, PrivOpcode, ZicbozOpcode,
    ZicfissOpcode, ZicntrOpcode, ZicsrOpcode, ZifenceiOpcode,
};

/// On which base an instruction exists.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum X {
    Any,
    Only64,
    Only32,
}

/// Supported extension (as reported through `OpcodeKind`).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ext {
    I,
    M,
    A,
    C,
    Zifencei,
    Zicboz,
    Zicsr,
    Zicfiss,
    Zicntr,
    Priv,
}

/// Operand layout.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum L {
    // 32-bit
    R,
    I,
    Sh,
    ShW,
    S,
    B,
    U,
    J,
    Amo,
    Lr,
    Csr,
    CsrI,
    Fence,
    None,
    Rd,
    Rs1,
    Rs12,
    SsPush,
    SsPop,
    SsAmo,
    // 16-bit
    Ciw,
    ClW,
    ClD,
    CsW,
    CsD,
    CNop,
    Ci,
    CLi,
    C16sp,
    CLui,
    CSh,
    CAndi,
    Ca,
    Cj,
    Cb,
    CSlli,
    CLwsp,
    CLdsp,
    CSwsp,
    CSdsp,
    CJr,
    CMv,
    CAdd,
    CNone,
    CSsPush,
    CSsPop,
}

macro_rules! ops {
    (@fmt $e:ident) => { InstFormat::$e };
    (
        w32: { $( $op:ident = $kind:ident($en:ident::$var:ident), $ext:ident, $name:literal, $x:ident, $lay:ident, $fmt:ident, $mask:literal, $mtch:literal; )* }
        w16: { $( $cop:ident = $ckind:ident($cen:ident::$cvar:ident), $cext:ident, $cname:literal, $cx:ident, $clay:ident, $cfmt:ident, $cmask:literal, $cmtch:literal; )* }
    ) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(u8)]
        pub enum Op { $( $op, )* $( $cop, )* Unknown }

        /// The instruction a 32-bit word encodes, `Unknown` if none raki
        /// supports. Last match wins: narrower encodings follow the ones they
        /// alias.
        pub fn op32(w: u32, rv64: bool) -> Op {
            let mut r = Op::Unknown;
            $( if (w & $mask == $mtch) & on(X::$x, rv64) & legal(Op::$op, w, rv64) { r = Op::$op; } )*
            r
        }

        /// The instruction a 16-bit parcel encodes.
        pub fn op16(h: u16, rv64: bool) -> Op {
            let w = h as u32;
            let mut r = Op::Unknown;
            $( if (w & $cmask == $cmtch) & on(X::$cx, rv64) & legal(Op::$cop, w, rv64) { r = Op::$cop; } )*
            r
        }

        pub fn id_of(k: &OpcodeKind) -> Op {
            match k {
                $( OpcodeKind::$kind($en::$var) => Op::$op, )*
                $( OpcodeKind::$ckind($cen::$cvar) => Op::$cop, )*
                _ => Op::Unknown,
            }
        }

        pub fn make(op: Op) -> OpcodeKind {
            match op {
                $( Op::$op => OpcodeKind::$kind($en::$var), )*
                $( Op::$cop => OpcodeKind::$ckind($cen::$cvar), )*
                Op::Unknown => unreachable!(),
            }
        }

        /// Text of the extension's own opcode type (not through `OpcodeKind`).
        pub fn write_inner<W: core::fmt::Write>(op: Op, f: &mut W) -> core::fmt::Result {
            match op {
                $( Op::$op => write!(f, "{}", $en::$var), )*
                $( Op::$cop => write!(f, "{}", $cen::$cvar), )*
                Op::Unknown => unreachable!(),
            }
        }

        pub fn name(op: Op) -> &'static str {
            match op {
                $( Op::$op => $name, )*
                $( Op::$cop => $cname, )*
                Op::Unknown => "?",
            }
        }

        pub fn lay(op: Op) -> L {
            match op {
                $( Op::$op => L::$lay, )*
                $( Op::$cop => L::$clay, )*
                Op::Unknown => L::None,
            }
        }

        pub fn ext(op: Op) -> Ext {
            match op {
                $( Op::$op => Ext::$ext, )*
                $( Op::$cop => Ext::$cext, )*
                Op::Unknown => Ext::I,
            }
        }

        pub fn base(op: Op) -> X {
            match op {
                $( Op::$op => X::$x, )*
                $( Op::$cop => X::$cx, )*
                Op::Unknown => X::Any,
            }
        }

        pub fn mtch(op: Op) -> u32 {
            match op {
                $( Op::$op => $mtch, )*
                $( Op::$cop => $cmtch, )*
                Op::Unknown => 0,
            }
        }

        /// Documented format class.
        pub fn fmt(op: Op) -> InstFormat {
            match op {
                $( Op::$op => ops!(@fmt $fmt), )*
                $( Op::$cop => ops!(@fmt $cfmt), )*
                Op::Unknown => unreachable!(),
            }
        }

        pub const ALL: &[Op] = &[ $( Op::$op, )* $( Op::$cop, )* ];
        pub const N_OPS: usize = ALL.len();
        pub const N_OPS32: usize = [ $( Op::$op, )* ].len();
    };
}

include!("ops.rs");

pub const fn is16(op: Op) -> bool {
    op as usize >= N_OPS32 && (op as usize) < N_OPS
}

/// Width-bit two's complement value.
fn sext(v: u32, width: u32) -> i32 {
    let top = 1u32 << (width - 1);
    (v ^ top).wrapping_sub(top) as i32
}

fn bit(w: u32, i: u32) -> u32 {
    (w >> i) & 1
}

fn bits(w: u32, hi: u32, lo: u32) -> u32 {
    (w << (31 - hi)) >> (31 - hi + lo)
}

/// Field constraints that a mask/match pair cannot express.
fn legal(op: Op, w: u32, rv64: bool) -> bool {
    match op {
        Op::SSPOPCHK => bits(w, 19, 15) == 1 || bits(w, 19, 15) == 5,
        Op::SSRDP => bits(w, 11, 7) != 0,
        Op::SLLI | Op::SRLI | Op::SRAI => rv64 || bit(w, 25) == 0,
        Op::C_ADDI4SPN => bits(w, 12, 5) != 0,
        Op::C_ADDI | Op::C_ADDIW | Op::C_LWSP | Op::C_LDSP | Op::C_JR | Op::C_JALR => {
            bits(w, 11, 7) != 0
        }
        Op::C_MV | Op::C_ADD => bits(w, 6, 2) != 0,
        Op::C_ADDI16SP => (w & 0x107c) != 0,
        Op::C_LUI => (w & 0x107c) != 0 && bits(w, 11, 7) != 2,
        Op::C_SRLI | Op::C_SRAI | Op::C_SLLI => rv64 || bit(w, 12) == 0,
        _ => true,
    }
}

fn on(x: X, rv64: bool) -> bool {
    match x {
        X::Any => true,
        X::Only64 => rv64,
        X::Only32 => !rv64,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Operands {
    pub rd: Option<usize>,
    pub rs1: Option<usize>,
    pub rs2: Option<usize>,
    pub imm: Option<i32>,
}

const fn o(
    rd: Option<usize>,
    rs1: Option<usize>,
    rs2: Option<usize>,
    imm: Option<i32>,
) -> Operands {
    Operands { rd, rs1, rs2, imm }
}

/// Operands of a word under a layout.
pub fn operands(l: L, w: u32, rv64: bool) -> Operands {
    // 32-bit fields
    let rd = Some(bits(w, 11, 7) as usize);
    let rs1 = Some(bits(w, 19, 15) as usize);
    let rs2 = Some(bits(w, 24, 20) as usize);
    let csr = Some(bits(w, 31, 20) as usize);
    // 16-bit fields
    let lo3 = Some(bits(w, 4, 2) as usize + 8);
    let mid3 = Some(bits(w, 9, 7) as usize + 8);
    let lo5 = Some(bits(w, 6, 2) as usize);
    let imm6 = (bit(w, 12) << 5) | bits(w, 6, 2);
    match l {
        L::R | L::SsAmo => o(rd, rs1, rs2, None),
        L::I => o(rd, rs1, None, Some(sext(bits(w, 31, 20), 12))),
        L::Sh => o(
            rd,
            rs1,
            None,
            Some(if rv64 {
                bits(w, 25, 20)
            } else {
                bits(w, 24, 20)
            } as i32),
        ),
        L::ShW => o(rd, rs1, None, Some(bits(w, 24, 20) as i32)),
        L::S => o(
            None,
            rs1,
            rs2,
            Some(sext((bits(w, 31, 25) << 5) | bits(w, 11, 7), 12)),
        ),
        L::B => o(
            None,
            rs1,
            rs2,
            Some(sext(
                (bit(w, 31) << 12)
                    | (bit(w, 7) << 11)
                    | (bits(w, 30, 25) << 5)
                    | (bits(w, 11, 8) << 1),
                13,
            )),
        ),
        L::U => o(rd, None, None, Some(bits(w, 31, 12) as i32)),
        L::J => o(
            rd,
            None,
            None,
            Some(sext(
                (bit(w, 31) << 20)
                    | (bits(w, 19, 12) << 12)
                    | (bit(w, 20) << 11)
                    | (bits(w, 30, 21) << 1),
                21,
            )),
        ),
        L::Amo => o(rd, rs1, rs2, Some(bits(w, 26, 25) as i32)),
        L::Lr => o(rd, rs1, None, Some(bits(w, 26, 25) as i32)),
        L::Csr => o(rd, rs1, csr, None),
        L::CsrI => o(rd, None, csr, Some(bits(w, 19, 15) as i32)),
        L::Fence => o(rd, rs1, None, Some(bits(w, 31, 20) as i32)),
        L::None | L::CNone => o(None, None, None, None),
        L::Rd => o(rd, None, None, None),
        L::Rs1 => o(None, rs1, None, None),
        L::Rs12 => o(None, rs1, rs2, None),
        L::SsPush => o(Some(0), Some(0), rs2, None),
        L::SsPop => o(Some(0), rs1, None, None),

        L::Ciw => o(
            lo3,
            None,
            None,
            Some(
                ((bits(w, 10, 7) << 6)
                    | (bits(w, 12, 11) << 4)
                    | (bit(w, 5) << 3)
                    | (bit(w, 6) << 2)) as i32,
            ),
        ),
        L::ClW => o(lo3, mid3, None, Some(uimm_w(w))),
        L::ClD => o(lo3, mid3, None, Some(uimm_d(w))),
        L::CsW => o(None, mid3, lo3, Some(uimm_w(w))),
        L::CsD => o(None, mid3, lo3, Some(uimm_d(w))),
        L::CNop => o(None, None, None, Some(sext(imm6, 6))),
        L::Ci => o(rd, rd, None, Some(sext(imm6, 6))),
        L::CLi => o(rd, None, None, Some(sext(imm6, 6))),
        L::C16sp => o(
            rd,
            rd,
            None,
            Some(sext(
                (bit(w, 12) << 9)
                    | (bits(w, 4, 3) << 7)
                    | (bit(w, 5) << 6)
                    | (bit(w, 2) << 5)
                    | (bit(w, 6) << 4),
                10,
            )),
        ),
        L::CLui => o(rd, None, None, Some(sext(imm6 << 12, 18))),
        L::CSh => o(mid3, mid3, None, Some(imm6 as i32)),
        L::CAndi => o(mid3, mid3, None, Some(sext(imm6, 6))),
        L::Ca => o(mid3, mid3, lo3, None),
        L::Cj => o(
            None,
            None,
            None,
            Some(sext(
                (bit(w, 12) << 11)
                    | (bit(w, 8) << 10)
                    | (bits(w, 10, 9) << 8)
                    | (bit(w, 6) << 7)
                    | (bit(w, 7) << 6)
                    | (bit(w, 2) << 5)
                    | (bit(w, 11) << 4)
                    | (bits(w, 5, 3) << 1),
                12,
            )),
        ),
        L::Cb => o(
            None,
            mid3,
            None,
            Some(sext(
                (bit(w, 12) << 8)
                    | (bits(w, 6, 5) << 6)
                    | (bit(w, 2) << 5)
                    | (bits(w, 11, 10) << 3)
                    | (bits(w, 4, 3) << 1),
                9,
            )),
        ),
        L::CSlli => o(rd, rd, None, Some(imm6 as i32)),
        L::CLwsp => o(
            rd,
            None,
            None,
            Some(((bits(w, 3, 2) << 6) | (bit(w, 12) << 5) | (bits(w, 6, 4) << 2)) as i32),
        ),
        L::CLdsp => o(
            rd,
            None,
            None,
            Some(((bits(w, 4, 2) << 6) | (bit(w, 12) << 5) | (bits(w, 6, 5) << 3)) as i32),
        ),
        L::CSwsp => o(
            None,
            None,
            lo5,
            Some(((bits(w, 8, 7) << 6) | (bits(w, 12, 9) << 2)) as i32),
        ),
        L::CSdsp => o(
            None,
            None,
            lo5,
            Some(((bits(w, 9, 7) << 6) | (bits(w, 12, 10) << 3)) as i32),
        ),
        L::CJr => o(None, rd, lo5, None),
        L::CMv => o(rd, None, lo5, None),
        L::CAdd => o(rd, rd, lo5, None),
        L::CSsPush => o(Some(1), None, None, None),
        L::CSsPop => o(Some(5), None, None, None),
    }
}

fn uimm_w(w: u32) -> i32 {
    ((bit(w, 5) << 6) | (bits(w, 12, 10) << 3) | (bit(w, 6) << 2)) as i32
}

fn uimm_d(w: u32) -> i32 {
    ((bits(w, 6, 5) << 6) | (bits(w, 12, 10) << 3)) as i32
}

/// Are these operand values inside what the format can express: register and
/// CSR numbers that exist, immediates of the right width and alignment?
pub fn architectural(op: Op, p: Operands, rv64: bool) -> bool {
    let l = lay(op);
    let r5 = |r: Option<usize>| match r {
        Some(v) => v < 32,
        None => true,
    };
    let r3 = |r: Option<usize>| match r {
        Some(v) => v >= 8 && v < 16,
        None => true,
    };
    let m = match p.imm {
        Some(m) => m,
        None => 0,
    };
    let regs = match l {
        L::Csr | L::CsrI => {
            r5(p.rd)
                && r5(p.rs1)
                && match p.rs2 {
                    Some(c) => c < 4096,
                    None => false,
                }
        }
        L::Ciw | L::ClW | L::ClD | L::CsW | L::CsD | L::CSh | L::CAndi | L::Ca | L::Cb => {
            r3(p.rd) && r3(p.rs1) && r3(p.rs2)
        }
        _ => r5(p.rd) && r5(p.rs1) && r5(p.rs2),
    };
    let imm = match l {
        L::I | L::S => m >= -2048 && m < 2048,
        L::Sh => m >= 0 && m < if rv64 { 64 } else { 32 },
        L::ShW | L::CsrI => m >= 0 && m < 32,
        L::B => m >= -4096 && m < 4096 && m & 1 == 0,
        L::U => m >= 0 && m < 0x10_0000,
        L::J => m >= -0x10_0000 && m < 0x10_0000 && m & 1 == 0,
        L::Amo | L::Lr => m >= 0 && m < 4,
        L::Fence => m >= 0 && m < 4096,
        L::Ciw => m > 0 && m < 1024 && m & 3 == 0,
        L::ClW | L::CsW => m >= 0 && m < 128 && m & 3 == 0,
        L::ClD | L::CsD => m >= 0 && m < 256 && m & 7 == 0,
        L::CNop | L::Ci | L::CLi | L::CAndi => m >= -32 && m < 32,
        L::C16sp => m >= -512 && m < 512 && m & 15 == 0 && m != 0,
        // imm == 0 is known finding K1: reserved, yet decoded.
        L::CLui => m >= -0x2_0000 && m < 0x2_0000 && m & 0xfff == 0,
        L::CSh | L::CSlli => m >= 0 && m < if rv64 { 64 } else { 32 },
        L::Cj => m >= -2048 && m < 2048 && m & 1 == 0,
        L::Cb => m >= -256 && m < 256 && m & 1 == 0,
        L::CLwsp | L::CSwsp => m >= 0 && m < 256 && m & 3 == 0,
        L::CLdsp | L::CSdsp => m >= 0 && m < 512 && m & 7 == 0,
        _ => true,
    };
    regs && imm
}

/// Can decoding produce these operand values for this opcode? (Values only;
/// presence is fixed by the layout.)
pub fn in_range(op: Op, p: Operands, rv64: bool) -> bool {
    let l = lay(op);
    let same = match l {
        L::Ci | L::C16sp | L::CSh | L::CAndi | L::Ca | L::CSlli | L::CAdd => p.rd == p.rs1,
        L::SsPush => p.rd == Some(0) && p.rs1 == Some(0) && (p.rs2 == Some(1) || p.rs2 == Some(5)),
        L::SsPop => p.rd == Some(0) && (p.rs1 == Some(1) || p.rs1 == Some(5)),
        L::CSsPush => p.rd == Some(1),
        L::CSsPop => p.rd == Some(5),
        L::CJr => p.rs2 == Some(0) && p.rs1 != Some(0),
        _ => true,
    };
    let special = match op {
        Op::SSRDP | Op::C_ADDI | Op::C_ADDIW | Op::C_LWSP | Op::C_LDSP => p.rd != Some(0),
        Op::C_ADDI16SP => p.rd == Some(2),
        Op::C_LUI => p.rd != Some(2),
        Op::C_MV | Op::C_ADD => p.rs2 != Some(0),
        Op::CSRRS => {
            // These are the counter-read pseudo-instructions.
            !(p.rs1 == Some(0)
                && match p.rs2 {
                    Some(c) => (c >= 0xc00 && c <= 0xc02) || (!rv64 && c >= 0xc80 && c <= 0xc82),
                    None => false,
                })
        }
        _ => true,
    };
    architectural(op, p, rv64) && same && special && on(base(op), rv64)
}

/// Which operands a layout carries.
pub fn presence(l: L) -> (bool, bool, bool, bool) {
    let p = operands(l, 0, true);
    (
        p.rd.is_some(),
        p.rs1.is_some(),
        p.rs2.is_some(),
        p.imm.is_some(),
    )
}

/// Assemble: the word that encodes `op` with these operands. Written in the
/// opposite direction from `operands` (scatter instead of gather). `extra`
/// supplies the bits no operand records (aq/rl of the shadow-stack swaps).
pub fn encode(op: Op, p: Operands, extra: u32) -> u32 {
    let z = |v: Option<usize>| match v {
        Some(v) => v as u32,
        None => 0,
    };
    let (rd, rs1, rs2) = (z(p.rd), z(p.rs1), z(p.rs2));
    let m = match p.imm {
        Some(m) => m as u32,
        None => 0,
    };
    // value bits m[hi:lo] moved to word position `at`
    let f = |hi: u32, lo: u32, at: u32| bits(m, hi, lo) << at;
    let r3 = |v: u32| v.wrapping_sub(8) & 7;
    let imm6 = f(5, 5, 12) | f(4, 0, 2);
    let fields = match lay(op) {
        L::R => (rd << 7) | (rs1 << 15) | (rs2 << 20),
        L::SsAmo => (rd << 7) | (rs1 << 15) | (rs2 << 20) | ((extra & 3) << 25),
        L::I | L::Fence => (rd << 7) | (rs1 << 15) | f(11, 0, 20),
        L::Sh => (rd << 7) | (rs1 << 15) | f(5, 0, 20),
        L::ShW => (rd << 7) | (rs1 << 15) | f(4, 0, 20),
        L::S => (rs1 << 15) | (rs2 << 20) | f(11, 5, 25) | f(4, 0, 7),
        L::B => {
            (rs1 << 15)
                | (rs2 << 20)
                | f(12, 12, 31)
                | f(10, 5, 25)
                | f(4, 1, 8)
                | f(11, 11, 7)
        }
        L::U => (rd << 7) | f(19, 0, 12),
        L::J => (rd << 7) | f(20, 20, 31) | f(10, 1, 21) | f(11, 11, 20) | f(19, 12, 12),
        L::Amo => (rd << 7) | (rs1 << 15) | (rs2 << 20) | f(1, 0, 25),
        L::Lr => (rd << 7) | (rs1 << 15) | f(1, 0, 25),
        L::Csr => (rd << 7) | (rs1 << 15) | (rs2 << 20),
        L::CsrI => (rd << 7) | f(4, 0, 15) | (rs2 << 20),
        L::None | L::CNone | L::CSsPush | L::CSsPop => 0,
        L::Rd => rd << 7,
        L::Rs1 | L::SsPop => rs1 << 15,
        L::Rs12 => (rs1 << 15) | (rs2 << 20),
        L::SsPush => rs2 << 20,
        L::Ciw => (r3(rd) << 2) | f(5, 4, 11) | f(9, 6, 7) | f(2, 2, 6) | f(3, 3, 5),
        L::ClW => (r3(rd) << 2) | (r3(rs1) << 7) | f(5, 3, 10) | f(2, 2, 6) | f(6, 6, 5),
        L::ClD => (r3(rd) << 2) | (r3(rs1) << 7) | f(5, 3, 10) | f(7, 6, 5),
        L::CsW => (r3(rs2) << 2) | (r3(rs1) << 7) | f(5, 3, 10) | f(2, 2, 6) | f(6, 6, 5),
        L::CsD => (r3(rs2) << 2) | (r3(rs1) << 7) | f(5, 3, 10) | f(7, 6, 5),
        L::CNop => imm6,
        L::Ci | L::CLi | L::CSlli => (rd << 7) | imm6,
        L::C16sp => f(9, 9, 12) | f(4, 4, 6) | f(6, 6, 5) | f(8, 7, 3) | f(5, 5, 2) | (rd << 7),
        L::CLui => (rd << 7) | f(17, 17, 12) | f(16, 12, 2),
        L::CSh | L::CAndi => (r3(rd) << 7) | imm6,
        L::Ca => (r3(rd) << 7) | (r3(rs2) << 2),
        L::Cj => {
            f(11, 11, 12)
                | f(4, 4, 11)
                | f(9, 8, 9)
                | f(10, 10, 8)
                | f(6, 6, 7)
                | f(7, 7, 6)
                | f(3, 1, 3)
                | f(5, 5, 2)
        }
        L::Cb => {
            (r3(rs1) << 7) | f(8, 8, 12) | f(4, 3, 10) | f(7, 6, 5) | f(2, 1, 3) | f(5, 5, 2)
        }
        L::CLwsp => (rd << 7) | f(5, 5, 12) | f(4, 2, 4) | f(7, 6, 2),
        L::CLdsp => (rd << 7) | f(5, 5, 12) | f(4, 3, 5) | f(8, 6, 2),
        L::CSwsp => (rs2 << 2) | f(5, 2, 9) | f(7, 6, 7),
        L::CSdsp => (rs2 << 2) | f(5, 3, 10) | f(8, 6, 7),
        L::CJr => rs1 << 7,
        L::CMv | L::CAdd => (rd << 7) | (rs2 << 2),
    };
    mtch(op) | fields
}

/// ABI register name, as bytes packed little-endian, and its length.
pub fn abi(r: usize) -> (u32, u32) {
    const fn p(s: &[u8]) -> (u32, u32) {
        let mut v = 0u32;
        let mut i = 0;
        while i < s.len() {
            v |= (s[i] as u32) << (8 * i);
            i += 1;
        }
        (v, s.len() as u32)
    }
    const N: [(u32, u32); 32] = [
        p(b"zero"),
        p(b"ra"),
        p(b"sp"),
        p(b"gp"),
        p(b"tp"),
        p(b"t0"),
        p(b"t1"),
        p(b"t2"),
        p(b"s0"),
        p(b"s1"),
        p(b"a0"),
        p(b"a1"),
        p(b"a2"),
        p(b"a3"),
        p(b"a4"),
        p(b"a5"),
        p(b"a6"),
        p(b"a7"),
        p(b"s2"),
        p(b"s3"),
        p(b"s4"),
        p(b"s5"),
        p(b"s6"),
        p(b"s7"),
        p(b"s8"),
        p(b"s9"),
        p(b"s10"),
        p(b"s11"),
        p(b"t3"),
        p(b"t4"),
        p(b"t5"),
        p(b"t6"),
    ];
    N[r & 31]
}

/// The base instruction a compressed one stands for, and its operands. The
/// immediate of `lui` is kept as the 20-bit field on the 32-bit side.
pub fn expand(op: Op, c: Operands) -> Option<(Op, Operands)> {
    const SP: Option<usize> = Some(2);
    const RA: Option<usize> = Some(1);
    const ZERO: Option<usize> = Some(0);
    Some(match op {
        Op::C_ADDI4SPN => (Op::ADDI, o(c.rd, SP, None, c.imm)),
        Op::C_LW => (Op::LW, c),
        Op::C_LD => (Op::LD, c),
        Op::C_SW => (Op::SW, c),
        Op::C_SD => (Op::SD, c),
        Op::C_NOP => (Op::ADDI, o(ZERO, ZERO, None, c.imm)),
        Op::C_ADDI | Op::C_ADDI16SP => (Op::ADDI, o(c.rd, c.rd, None, c.imm)),
        Op::C_ADDIW => (Op::ADDIW, o(c.rd, c.rd, None, c.imm)),
        Op::C_JAL => (Op::JAL, o(RA, None, None, c.imm)),
        Op::C_J => (Op::JAL, o(ZERO, None, None, c.imm)),
        Op::C_LI => (Op::ADDI, o(c.rd, ZERO, None, c.imm)),
        Op::C_LUI => (
            Op::LUI,
            o(
                c.rd,
                None,
                None,
                match c.imm {
                    Some(m) => Some((m >> 12) & 0xf_ffff),
                    None => None,
                },
            ),
        ),
        Op::C_SRLI => (Op::SRLI, c),
        Op::C_SRAI => (Op::SRAI, c),
        Op::C_SLLI => (Op::SLLI, c),
        Op::C_ANDI => (Op::ANDI, c),
        Op::C_SUB => (Op::SUB, c),
        Op::C_XOR => (Op::XOR, c),
        Op::C_OR => (Op::OR, c),
        Op::C_AND => (Op::AND, c),
        Op::C_SUBW => (Op::SUBW, c),
        Op::C_ADDW => (Op::ADDW, c),
        Op::C_ADD => (Op::ADD, c),
        Op::C_MV => (Op::ADD, o(c.rd, ZERO, c.rs2, None)),
        Op::C_BEQZ => (Op::BEQ, o(None, c.rs1, ZERO, c.imm)),
        Op::C_BNEZ => (Op::BNE, o(None, c.rs1, ZERO, c.imm)),
        Op::C_LWSP => (Op::LW, o(c.rd, SP, None, c.imm)),
        Op::C_LDSP => (Op::LD, o(c.rd, SP, None, c.imm)),
        Op::C_SWSP => (Op::SW, o(None, SP, c.rs2, c.imm)),
        Op::C_SDSP => (Op::SD, o(None, SP, c.rs2, c.imm)),
        Op::C_JR => (Op::JALR, o(ZERO, c.rs1, None, Some(0))),
        Op::C_JALR => (Op::JALR, o(RA, c.rs1, None, Some(0))),
        Op::C_EBREAK => (Op::EBREAK, c),
        Op::C_SSPUSH => (Op::SSPUSH, o(ZERO, ZERO, RA, None)),
        Op::C_SSPOPCHK => (Op::SSPOPCHK, o(ZERO, Some(5), None, None)),
        _ => return None,
    })
}
