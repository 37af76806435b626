//! The properties. Each takes its inputs from a [`Src`] and panics when the
//! real code breaks the property on them. Oracle-side `reach` calls mark the
//! situations that must be possible for the property to mean anything.

use crate::reach;
use crate::spec::{self, Ext, Op, Operands, L, X};
use crate::src::Src;
use crate::text::{expected, Acc};
use core::fmt::Write;
use raki::{Decode, DecodingError, Instruction, Isa, OpcodeKind};

/// Known findings that the committed list declares (set by the runner).
const KNOWN: Option<&str> = option_env!("RAKI_KNOWN");

const fn listed(tag: &[u8; 2]) -> bool {
    match KNOWN {
        None => false,
        Some(s) => {
            let b = s.as_bytes();
            let mut i = 0;
            while i + 1 < b.len() {
                if b[i] == tag[0] && b[i + 1] == tag[1] {
                    return true;
                }
                i += 1;
            }
            false
        }
    }
}

/// K1: `c.lui` with a zero immediate is reserved but decodes as `C.LUI`.
const K1: bool = listed(b"K1");
/// K2: `fence.i` is refused.
const K2: bool = listed(b"K2");

/// Second attempt at the display properties, when decoding produces operands
/// the layout of some opcodes does not call for: records of these opcodes come
/// from decoding a symbolic word. `all`, or opcode numbers of three digits.
const EXACT: [bool; spec::N_OPS + 1] = exact();
/// Keeps decoding out of the other display harnesses altogether.
const SOME_EXACT: bool = option_env!("RAKI_EXACT").is_some();

const fn exact() -> [bool; spec::N_OPS + 1] {
    let mut set = [false; spec::N_OPS + 1];
    if let Some(t) = option_env!("RAKI_EXACT") {
        let b = t.as_bytes();
        if b[0] == b'a' {
            return [true; spec::N_OPS + 1];
        }
        let mut i = 0;
        while i + 2 < b.len() {
            let n = (b[i] - b'0') as usize * 100 + (b[i + 1] - b'0') as usize * 10 + (b[i + 2] - b'0') as usize;
            set[n] = true;
            i += 4;
        }
    }
    set
}

fn isa(rv64: bool) -> Isa {
    if rv64 {
        Isa::Rv64
    } else {
        Isa::Rv32
    }
}

fn ops(i: &Instruction) -> Operands {
    Operands {
        rd: i.rd,
        rs1: i.rs1,
        rs2: i.rs2,
        imm: i.imm,
    }
}

fn id(r: &Result<Instruction, DecodingError>) -> Op {
    match r {
        Ok(i) => spec::id_of(&i.opc),
        Err(_) => Op::Unknown,
    }
}

fn is_fence_i(w: u32) -> bool {
    w & 0x707f == 0x100f
}

fn is_clui_zero(h: u16) -> bool {
    h & 0xf07f == 0x6001 && (h >> 7) & 31 != 2 && h != 0x6081 && h != 0x6281
}

// ---------------------------------------------------------------- decoding

/// Decoding returns, with a result or an error, on any word.
pub fn total32<S: Src>(s: &mut S) {
    let (w, rv64) = (s.u32(), s.bool());
    reach!(w & 3 == 3 && rv64);
    reach!(w & 3 != 3 && !rv64);
    let _ = w.decode(isa(rv64));
}

pub fn total16<S: Src>(s: &mut S) {
    let (h, rv64) = (s.u16(), s.bool());
    reach!(h & 3 == 3 && rv64);
    reach!(h & 3 != 3 && !rv64);
    let _ = h.decode(isa(rv64));
}

/// A word decodes as an instruction of `family` exactly when it encodes it.
fn recognise32<S: Src>(s: &mut S, family: fn(Ext) -> bool) {
    let (w, rv64) = (s.u32(), s.bool());
    let want = spec::op32(w, rv64);
    let r = w.decode(isa(rv64));
    let got = id(&r);
    let want_in = want != Op::Unknown && family(spec::ext(want));
    reach!(want_in && rv64);
    reach!(want_in && !rv64);
    reach!(!want_in);
    let got_in = match &r {
        Ok(i) => family(ext_of(&i.opc)),
        Err(_) => false,
    };
    if want_in {
        assert!(r.is_ok(), "a valid encoding is refused");
        assert!(got == want, "a valid encoding decodes as something else");
    } else if got_in {
        panic!("decoded as an instruction this word does not encode");
    }
}

fn ext_of(k: &OpcodeKind) -> Ext {
    match k {
        OpcodeKind::BaseI(_) => Ext::I,
        OpcodeKind::M(_) => Ext::M,
        OpcodeKind::A(_) => Ext::A,
        OpcodeKind::C(_) => Ext::C,
        OpcodeKind::Zifencei(_) => Ext::Zifencei,
        OpcodeKind::Zicboz(_) => Ext::Zicboz,
        OpcodeKind::Zicsr(_) => Ext::Zicsr,
        OpcodeKind::Zicfiss(_) => Ext::Zicfiss,
        OpcodeKind::Zicntr(_) => Ext::Zicntr,
        OpcodeKind::Priv(_) => Ext::Priv,
    }
}

pub fn rec_i<S: Src>(s: &mut S) {
    recognise32(s, |e| e == Ext::I);
}
pub fn rec_m<S: Src>(s: &mut S) {
    recognise32(s, |e| e == Ext::M);
}
pub fn rec_a<S: Src>(s: &mut S) {
    recognise32(s, |e| e == Ext::A);
}
pub fn rec_csr<S: Src>(s: &mut S) {
    recognise32(s, |e| e == Ext::Zicsr || e == Ext::Zicntr);
}
pub fn rec_priv<S: Src>(s: &mut S) {
    recognise32(s, |e| e == Ext::Zicboz || e == Ext::Priv);
}
pub fn rec_ss32<S: Src>(s: &mut S) {
    recognise32(s, |e| e == Ext::Zicfiss);
}

/// FENCE and FENCE.I.
pub fn rec_fence<S: Src>(s: &mut S) {
    let (w, rv64) = (s.u32(), s.bool());
    let r = w.decode(isa(rv64));
    reach!(w & 0x707f == 0x000f);
    reach!(is_fence_i(w));
    let kind_in = match &r {
        Ok(i) => ext_of(&i.opc) == Ext::Zifencei,
        Err(_) => false,
    };
    if w & 0x707f == 0x000f {
        assert!(id(&r) == Op::FENCE, "fence is not decoded as fence");
    } else if is_fence_i(w) {
        assert!(id(&r) != Op::FENCE, "fence.i is decoded as fence");
        assert!(kind_in || (K2 && r.is_err()), "fence.i is refused");
    } else {
        assert!(!kind_in, "decoded as a fence this word does not encode");
    }
}

fn recognise16<S: Src>(s: &mut S, family: fn(Ext) -> bool) {
    let (h, rv64) = (s.u16(), s.bool());
    let want = spec::op16(h, rv64);
    let r = h.decode(isa(rv64));
    let got = id(&r);
    let want_in = want != Op::Unknown && family(spec::ext(want));
    reach!(want_in && rv64);
    reach!(want_in && !rv64);
    reach!(!want_in);
    let got_in = match &r {
        Ok(i) => family(ext_of(&i.opc)),
        Err(_) => false,
    };
    if want_in {
        assert!(r.is_ok(), "a valid encoding is refused");
        assert!(got == want, "a valid encoding decodes as something else");
    } else if got_in {
        assert!(
            K1 && is_clui_zero(h) && got == Op::C_LUI,
            "decoded as an instruction this parcel does not encode"
        );
    }
}

pub fn rec_c<S: Src>(s: &mut S) {
    recognise16(s, |e| e == Ext::C);
}
pub fn rec_ss16<S: Src>(s: &mut S) {
    recognise16(s, |e| e == Ext::Zicfiss);
}

/// Words that encode nothing supported are refused.
pub fn reject32<S: Src>(s: &mut S) {
    let (w, rv64) = (s.u32(), s.bool());
    reach!(w & 3 != 3);
    reach!(w & 0x7f == 0x33 && spec::op32(w, rv64) == Op::Unknown);
    let r = w.decode(isa(rv64));
    if w & 3 != 3 {
        assert!(r.is_err(), "a word that is not 32 bits long is accepted");
    }
    // fence.i is rec_fence's business.
    if spec::op32(w, rv64) == Op::Unknown && !is_fence_i(w) {
        assert!(r.is_err(), "an unassigned word is accepted");
    }
}

pub fn reject16<S: Src>(s: &mut S) {
    let (h, rv64) = (s.u16(), s.bool());
    reach!(h & 3 == 3);
    reach!(h & 3 != 3 && spec::op16(h, rv64) == Op::Unknown);
    let r = h.decode(isa(rv64));
    if h & 3 == 3 {
        assert!(r.is_err(), "half of a 32-bit instruction is accepted");
    }
    if spec::op16(h, rv64) == Op::Unknown && !(K1 && is_clui_zero(h)) {
        assert!(r.is_err(), "an unassigned parcel is accepted");
    }
}

// ---------------------------------------------------------------- operands

fn want32<S: Src>(s: &mut S) -> Option<(Operands, Operands)> {
    let (w, rv64) = (s.u32(), s.bool());
    let op = spec::op32(w, rv64);
    s.assume(op != Op::Unknown);
    reach!(spec::ext(op) == Ext::A);
    reach!(spec::lay(op) == L::B);
    reach!(spec::lay(op) == L::CsrI);
    let r = w.decode(isa(rv64));
    match r {
        Ok(i) if spec::id_of(&i.opc) == op => {
            Some((ops(&i), spec::operands(spec::lay(op), w, rv64)))
        }
        _ => None,
    }
}

fn want16<S: Src>(s: &mut S) -> Option<(Operands, Operands)> {
    let (h, rv64) = (s.u16(), s.bool());
    let op = spec::op16(h, rv64);
    s.assume(op != Op::Unknown);
    reach!(spec::lay(op) == L::Cj);
    reach!(spec::lay(op) == L::CLdsp);
    reach!(spec::lay(op) == L::C16sp);
    let r = h.decode(isa(rv64));
    match r {
        Ok(i) if spec::id_of(&i.opc) == op => {
            Some((ops(&i), spec::operands(spec::lay(op), h as u32, rv64)))
        }
        _ => None,
    }
}

pub fn regs32<S: Src>(s: &mut S) {
    if let Some((got, want)) = want32(s) {
        assert!(got.rd == want.rd, "wrong destination register");
        assert!(got.rs1 == want.rs1, "wrong first source register");
        assert!(got.rs2 == want.rs2, "wrong second source register or CSR");
    }
}

pub fn imm32<S: Src>(s: &mut S) {
    if let Some((got, want)) = want32(s) {
        assert!(got.imm == want.imm, "wrong immediate");
    }
}

pub fn regs16<S: Src>(s: &mut S) {
    if let Some((got, want)) = want16(s) {
        assert!(got.rd == want.rd, "wrong destination register");
        assert!(got.rs1 == want.rs1, "wrong first source register");
        assert!(got.rs2 == want.rs2, "wrong second source register");
    }
}

pub fn imm16<S: Src>(s: &mut S) {
    if let Some((got, want)) = want16(s) {
        assert!(got.imm == want.imm, "wrong immediate");
    }
}

/// Operands stay inside what the format can express.
pub fn range32<S: Src>(s: &mut S) {
    let (w, rv64) = (s.u32(), s.bool());
    reach!(spec::op32(w, rv64) != Op::Unknown);
    if let Ok(i) = w.decode(isa(rv64)) {
        range(&i, rv64);
    }
}

pub fn range16<S: Src>(s: &mut S) {
    let (h, rv64) = (s.u16(), s.bool());
    reach!(spec::op16(h, rv64) != Op::Unknown);
    if let Ok(i) = h.decode(isa(rv64)) {
        range(&i, rv64);
    }
}

fn range(i: &Instruction, rv64: bool) {
    let op = spec::id_of(&i.opc);
    if op != Op::Unknown {
        assert!(
            spec::architectural(op, ops(i), rv64),
            "an operand is outside the range of its format"
        );
    }
}

/// The register parsers stay in range even when opcode and word do not belong
/// together.
pub fn range_parsers<S: Src>(s: &mut S) {
    let (w, op) = (s.u32(), any_op(s));
    let k = spec::make(op);
    reach!(is_csr(op));
    reach!(spec::is16(op));
    let below = |r: Result<Option<usize>, DecodingError>, n: usize| match r {
        Ok(Some(v)) => assert!(v < n, "a register or CSR number that does not exist"),
        _ => {}
    };
    let rs2 = if is_csr(op) { 4096 } else { 32 };
    below(w.parse_rd(&k), 32);
    below(w.parse_rs1(&k), 32);
    below(w.parse_rs2(&k), rs2);
    let h = w as u16;
    below(h.parse_rd(&k), 32);
    below(h.parse_rs1(&k), 32);
    below(h.parse_rs2(&k), rs2);
}

/// Different words decode to different instructions.
pub fn distinct32<S: Src>(s: &mut S) {
    let (v, w, rv64) = (s.u32(), s.u32(), s.bool());
    s.assume(v != w);
    reach!(spec::op32(v, rv64) == Op::BEQ && spec::op32(w, rv64) == Op::BEQ);
    reach!(spec::ext(spec::op32(v, rv64)) == Ext::A && (v ^ w) == 1 << 25);
    // The shadow-stack swap does not record its ordering bits.
    let swap = |w: u32| w & 0xf800_607f == 0x4800_202f;
    s.assume(!(swap(v) && swap(w) && (v ^ w) & !(3 << 25) == 0));
    if let (Ok(a), Ok(b)) = (v.decode(isa(rv64)), w.decode(isa(rv64))) {
        assert!(a != b, "two words decode to the same instruction");
    }
}

pub fn distinct16<S: Src>(s: &mut S) {
    let (g, h, rv64) = (s.u16(), s.u16(), s.bool());
    s.assume(g != h);
    reach!(spec::op16(g, rv64) == Op::C_J && spec::op16(h, rv64) == Op::C_J);
    if let (Ok(a), Ok(b)) = (g.decode(isa(rv64)), h.decode(isa(rv64))) {
        assert!(a != b, "two parcels decode to the same instruction");
    }
}

/// A position in a byte stream is an instruction of one length at most.
pub fn one_length<S: Src>(s: &mut S) {
    let (w, x, y) = (s.u32(), s.bool(), s.bool());
    reach!(spec::op32(w, x) != Op::Unknown);
    reach!(spec::op16(w as u16, y) != Op::Unknown);
    let (long, short) = (w.decode(isa(x)), (w as u16).decode(isa(y)));
    assert!(
        !(long.is_ok() && short.is_ok()),
        "the same bytes are an instruction of either length"
    );
    if let Ok(i) = long {
        assert!(!i.is_compressed, "a 32-bit word is flagged compressed");
    }
    if let Ok(i) = short {
        assert!(i.is_compressed, "a 16-bit parcel is not flagged compressed");
    }
}

/// Decoding has no memory: another decoding in between changes nothing.
pub fn repeat32<S: Src>(s: &mut S) {
    let (w, v, h) = (s.u32(), s.u32(), s.u16());
    let (x, y, z) = (s.bool(), s.bool(), s.bool());
    reach!(spec::op32(w, x) != Op::Unknown);
    reach!(spec::op32(w, x) == Op::Unknown);
    let before = w.decode(isa(x));
    let _ = v.decode(isa(y));
    let _ = h.decode(isa(z));
    assert!(alike(&before, &w.decode(isa(x))), "the second decoding differs");
}

pub fn repeat16<S: Src>(s: &mut S) {
    let (h, v, g) = (s.u16(), s.u32(), s.u16());
    let (x, y, z) = (s.bool(), s.bool(), s.bool());
    reach!(spec::op16(h, x) != Op::Unknown);
    reach!(spec::op16(h, x) == Op::Unknown);
    let before = h.decode(isa(x));
    let _ = v.decode(isa(y));
    let _ = g.decode(isa(z));
    assert!(alike(&before, &h.decode(isa(x))), "the second decoding differs");
}

fn alike(a: &Result<Instruction, DecodingError>, b: &Result<Instruction, DecodingError>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => core::mem::discriminant(a) == core::mem::discriminant(b),
        _ => false,
    }
}

// ------------------------------------------------------- RV32 against RV64

fn rv32_shamt_too_big(op: Op, i: &Instruction) -> bool {
    matches!(
        op,
        Op::SLLI | Op::SRLI | Op::SRAI | Op::C_SLLI | Op::C_SRLI | Op::C_SRAI
    ) && match i.imm {
        Some(m) => m >= 32,
        None => false,
    }
}

/// Both bases read a word alike, apart from what the ISA makes base-specific.
pub fn xlen32<S: Src>(s: &mut S) {
    let w = s.u32();
    reach!(spec::op32(w, true) != Op::Unknown && spec::op32(w, false) == Op::Unknown);
    reach!(spec::op32(w, true) != spec::op32(w, false) && spec::op32(w, false) != Op::Unknown);
    let a = w.decode(Isa::Rv32);
    let b = w.decode(Isa::Rv64);
    xlen(a, b);
}

pub fn xlen16<S: Src>(s: &mut S) {
    let h = s.u16();
    reach!(spec::op16(h, true) != Op::Unknown && spec::op16(h, false) == Op::Unknown);
    reach!(spec::op16(h, true) == Op::C_ADDIW);
    let a = h.decode(Isa::Rv32);
    let b = h.decode(Isa::Rv64);
    xlen(a, b);
}

fn xlen(a: Result<Instruction, DecodingError>, b: Result<Instruction, DecodingError>) {
    match (a, b) {
        (Ok(a), b) => {
            let x = spec::id_of(&a.opc);
            assert!(
                spec::base(x) != X::Only64,
                "an RV64-only instruction is decoded on RV32"
            );
            match b {
                Ok(b) => {
                    let y = spec::id_of(&b.opc);
                    assert!(
                        spec::base(y) != X::Only32,
                        "an RV32-only instruction is decoded on RV64"
                    );
                    if spec::base(x) == X::Any {
                        assert!(a == b, "the same word is read differently on RV64");
                    } else {
                        assert!(
                            (x == Op::C_JAL && y == Op::C_ADDIW)
                                || (x != Op::C_JAL && y == Op::CSRRS),
                            "an RV32-only word has the wrong RV64 meaning"
                        );
                    }
                }
                Err(_) => assert!(
                    spec::base(x) == X::Only32,
                    "a word valid on RV32 is refused on RV64"
                ),
            }
        }
        (Err(_), Ok(b)) => {
            let y = spec::id_of(&b.opc);
            assert!(
                spec::base(y) == X::Only64 || rv32_shamt_too_big(y, &b),
                "a word valid on RV64 is refused on RV32"
            );
        }
        (Err(_), Err(_)) => {}
    }
}

// ------------------------------------------------------------------ errors

fn only64(a: Result<Instruction, DecodingError>, b: Result<Instruction, DecodingError>) {
    assert!(
        !matches!(b, Err(DecodingError::OnlyRv64Inst)),
        "RV64 decoding complains about an RV64-only instruction"
    );
    match a {
        Err(DecodingError::OnlyRv64Inst) => {
            assert!(b.is_ok(), "called RV64-only, but RV64 refuses it as well")
        }
        Err(_) => {
            if let Ok(i) = b {
                assert!(
                    spec::base(spec::id_of(&i.opc)) != X::Only64,
                    "an RV64-only instruction is refused for another reason"
                );
            }
        }
        Ok(_) => {}
    }
}

/// "Only RV64" is said of exactly the words it is true of.
pub fn err_only64_32<S: Src>(s: &mut S) {
    let w = s.u32();
    reach!(spec::op32(w, true) == Op::LD);
    reach!(spec::op32(w, true) == Op::AMOMAXU_D);
    only64(w.decode(Isa::Rv32), w.decode(Isa::Rv64));
}

pub fn err_only64_16<S: Src>(s: &mut S) {
    let h = s.u16();
    reach!(spec::op16(h, true) == Op::C_LD);
    only64(h.decode(Isa::Rv32), h.decode(Isa::Rv64));
}

/// The remaining documented error causes.
pub fn err_cause32<S: Src>(s: &mut S) {
    let (w, rv64) = (s.u32(), s.bool());
    let r = w.decode(isa(rv64));
    let (maj, f3, f7) = (w & 0x7f, (w >> 12) & 7, w >> 25);
    let known_major = matches!(
        maj,
        0x37 | 0x17 | 0x6f | 0x67 | 0x63 | 0x03 | 0x23 | 0x13 | 0x33 | 0x73 | 0x1b | 0x3b | 0x2f
            | 0x0f
    );
    let amo_f5 = matches!(w >> 27, 0 | 1 | 2 | 3 | 4 | 8 | 9 | 12 | 16 | 20 | 24 | 28);
    let bad_f3 = (maj == 0x63 && (f3 == 2 || f3 == 3))
        || (maj == 0x03 && f3 == 7)
        || (maj == 0x23 && f3 >= 4)
        || (maj == 0x67 && f3 != 0)
        || (maj == 0x1b && !(f3 == 0 || f3 == 1 || f3 == 5))
        || (maj == 0x2f && amo_f5 && !(f3 == 2 || f3 == 3));
    let bad_f7 = maj == 0x33 && !(f7 == 0 || f7 == 1 || (f7 == 0x20 && (f3 == 0 || f3 == 5)));
    // Shift amounts leave six or seven bits of function code.
    let bad_shift = maj == 0x13
        && ((f3 == 1 && f7 & !1 != 0) || (f3 == 5 && f7 & !1 != 0 && f7 & !1 != 0x20))
        || maj == 0x1b && ((f3 == 1 && f7 != 0) || (f3 == 5 && f7 != 0 && f7 != 0x20));
    reach!(!known_major);
    reach!(bad_f3);
    reach!(bad_f7);
    reach!(bad_shift && rv64);
    reach!(bad_shift && !rv64);
    if !known_major {
        assert!(
            matches!(r, Err(DecodingError::InvalidOpcode)),
            "an unsupported major opcode is not reported as such"
        );
    }
    if bad_f3 {
        assert!(
            matches!(r, Err(DecodingError::InvalidFunct3)),
            "an undefined funct3 is not reported as such"
        );
    }
    if bad_f7 {
        assert!(
            matches!(r, Err(DecodingError::InvalidFunct7)),
            "an undefined funct7 is not reported as such"
        );
    }
    if bad_shift {
        assert!(
            matches!(
                r,
                Err(DecodingError::InvalidFunct6) | Err(DecodingError::InvalidFunct7)
            ),
            "an undefined shift function is not reported as such"
        );
    }
}

pub fn err_cause16<S: Src>(s: &mut S) {
    let (h, rv64) = (s.u16(), s.bool());
    let r = h.decode(isa(rv64));
    reach!(h == 0);
    reach!(h != 0);
    assert!(
        matches!(r, Err(DecodingError::IllegalInstruction)) == (h == 0),
        "\"illegal instruction\" must mean the all-zero parcel"
    );
}

// ------------------------------------------------------------- consistency

/// The decoded record is what the individual parsers say.
pub fn record32<S: Src>(s: &mut S) {
    let (w, rv64) = (s.u32(), s.bool());
    let i = isa(rv64);
    reach!(spec::op32(w, rv64) != Op::Unknown);
    match (w.decode(i), w.parse_opcode(i)) {
        (Ok(d), Ok(k)) => {
            assert!(Ok(d.rd) == w.parse_rd(&k), "rd differs");
            assert!(Ok(d.rs1) == w.parse_rs1(&k), "rs1 differs");
            assert!(Ok(d.rs2) == w.parse_rs2(&k), "rs2 differs");
            assert!(Ok(d.imm) == w.parse_imm(&k, i), "imm differs");
            assert!(d.opc == k, "opcode differs");
            assert!(d.inst_format == k.get_format(), "format differs");
            assert!(!d.is_compressed, "a 32-bit word is flagged compressed");
        }
        (Err(a), Err(b)) => assert!(a == b, "different error"),
        _ => panic!("decoding and opcode parsing disagree"),
    }
}

pub fn record16<S: Src>(s: &mut S) {
    let (h, rv64) = (s.u16(), s.bool());
    let i = isa(rv64);
    reach!(spec::op16(h, rv64) != Op::Unknown);
    match (h.decode(i), h.parse_opcode(i)) {
        (Ok(d), Ok(k)) => {
            assert!(Ok(d.rd) == h.parse_rd(&k), "rd differs");
            assert!(Ok(d.rs1) == h.parse_rs1(&k), "rs1 differs");
            assert!(Ok(d.rs2) == h.parse_rs2(&k), "rs2 differs");
            assert!(Ok(d.imm) == h.parse_imm(&k, i), "imm differs");
            assert!(d.opc == k, "opcode differs");
            assert!(d.inst_format == k.get_format(), "format differs");
            assert!(d.is_compressed, "a 16-bit parcel is not flagged compressed");
        }
        (Err(a), Err(b)) => assert!(h == 0 || a == b, "different error"),
        _ => panic!("decoding and opcode parsing disagree"),
    }
}

fn any_op<S: Src>(s: &mut S) -> Op {
    let n = s.u8() as usize;
    s.assume(n < spec::N_OPS);
    spec::ALL[n]
}

/// Every opcode has its documented format class.
pub fn formats<S: Src>(s: &mut S) {
    let op = any_op(s);
    reach!(op == Op::SSPUSH);
    let k = spec::make(op);
    assert!(k.get_format() == spec::fmt(op), "wrong format class");
    assert!(spec::id_of(&k) == op);
}

/// Parsers fed an opcode of the other length say so; with one of their own
/// length they answer, whatever the word.
pub fn length32<S: Src>(s: &mut S) {
    let (w, rv64, op) = (s.u32(), s.bool(), any_op(s));
    let k = spec::make(op);
    let c = spec::is16(op);
    reach!(c);
    reach!(!c);
    let wrong = |e: Option<DecodingError>| {
        if c {
            assert!(
                e == Some(DecodingError::Not32BitInst),
                "a 16-bit opcode is not refused by a 32-bit parser"
            );
        } else {
            assert!(e.is_none(), "a 32-bit opcode is refused by a 32-bit parser");
        }
    };
    wrong(w.parse_rd(&k).err());
    wrong(w.parse_rs1(&k).err());
    wrong(w.parse_rs2(&k).err());
    wrong(w.parse_imm(&k, isa(rv64)).err());
}

pub fn length16<S: Src>(s: &mut S) {
    let (h, rv64, op) = (s.u16(), s.bool(), any_op(s));
    let k = spec::make(op);
    let c = spec::is16(op);
    reach!(c);
    reach!(!c);
    let wrong = |e: Option<DecodingError>| {
        if c {
            assert!(e.is_none(), "a 16-bit opcode is refused by a 16-bit parser");
        } else {
            assert!(
                e == Some(DecodingError::Not16BitInst),
                "a 32-bit opcode is not refused by a 16-bit parser"
            );
        }
    };
    wrong(h.parse_rd(&k).err());
    wrong(h.parse_rs1(&k).err());
    wrong(h.parse_rs2(&k).err());
    wrong(h.parse_imm(&k, isa(rv64)).err());
}

/// `Instruction::try_from(usize)`.
pub fn from_usize<S: Src>(s: &mut S) {
    let x = s.usize();
    reach!(x & 3 == 3 && x > 0xffff_ffff);
    reach!(x & 3 != 3 && x > 0xffff);
    let r = Instruction::try_from(x);
    if x & 3 == 3 {
        if x <= 0xffff_ffff {
            assert!(
                r == (x as u32).decode(Isa::Rv64),
                "differs from decoding the 32-bit word on RV64"
            );
        } else {
            assert!(r.is_err(), "a value wider than 32 bits is accepted");
        }
    } else if x <= 0xffff {
        assert!(
            r == (x as u16).decode(Isa::Rv64),
            "differs from decoding the 16-bit parcel on RV64"
        );
    } else {
        assert!(r.is_err(), "a value wider than 16 bits is accepted");
    }
}

/// Re-assembling a decoded record gives back the word.
pub fn lossless32<S: Src>(s: &mut S) {
    let (w, rv64) = (s.u32(), s.bool());
    reach!(spec::op32(w, rv64) != Op::Unknown);
    if let Ok(i) = w.decode(isa(rv64)) {
        let op = spec::id_of(&i.opc);
        if op != Op::Unknown {
            assert!(
                spec::encode(op, ops(&i), (w >> 25) & 3) == w,
                "the decoded record does not determine the word"
            );
        }
    }
}

pub fn lossless16<S: Src>(s: &mut S) {
    let (h, rv64) = (s.u16(), s.bool());
    reach!(spec::op16(h, rv64) != Op::Unknown);
    if let Ok(i) = h.decode(isa(rv64)) {
        let op = spec::id_of(&i.opc);
        if op != Op::Unknown {
            assert!(
                spec::encode(op, ops(&i), 0) == h as u32,
                "the decoded record does not determine the parcel"
            );
        }
    }
}

/// A compressed instruction and its expansion decode to the same operands.
pub fn expansion<S: Src>(s: &mut S) {
    let (h, rv64) = (s.u16(), s.bool());
    let op = spec::op16(h, rv64);
    s.assume(op != Op::Unknown);
    reach!(op == Op::C_J);
    reach!(op == Op::C_LWSP);
    let e = spec::expand(op, spec::operands(spec::lay(op), h as u32, rv64));
    let Some((long, fields)) = e else { return };
    let w = spec::encode(long, fields, 0);
    let (c, i) = (h.decode(isa(rv64)), w.decode(isa(rv64)));
    let Ok(i) = i else {
        panic!("the expansion is refused")
    };
    let Ok(c) = c else {
        panic!("the compressed form is refused")
    };
    let Some((named, want)) = spec::expand(spec::id_of(&c.opc), ops(&c)) else {
        panic!("the compressed form decodes as something else")
    };
    assert!(spec::id_of(&i.opc) == named, "the two forms are different instructions");
    let got = ops(&i);
    assert!(got.rd == want.rd, "rd differs from the expansion's");
    assert!(got.rs1 == want.rs1, "rs1 differs from the expansion's");
    assert!(got.rs2 == want.rs2, "rs2 differs from the expansion's");
    assert!(got.imm == want.imm, "imm differs from the expansion's");
}

fn any_format<S: Src>(s: &mut S) -> (u8, raki::InstFormat) {
    // A format is drawn through an opcode that has it.
    let op = any_op(s);
    (op as u8, spec::fmt(op))
}

fn opt_r<S: Src>(s: &mut S) -> Option<usize> {
    let (p, v) = (s.bool(), s.usize());
    if p {
        Some(v)
    } else {
        None
    }
}

fn opt_i<S: Src>(s: &mut S) -> Option<i32> {
    let (p, v) = (s.bool(), s.i32());
    if p {
        Some(v)
    } else {
        None
    }
}

/// Instructions are equal exactly when all their fields are.
pub fn equality<S: Src>(s: &mut S) {
    let mk = |s: &mut S| {
        let op = any_op(s);
        let (_, f) = any_format(s);
        (
            op,
            Instruction {
                opc: spec::make(op),
                rd: opt_r(s),
                rs1: opt_r(s),
                rs2: opt_r(s),
                imm: opt_i(s),
                inst_format: f,
                is_compressed: s.bool(),
            },
        )
    };
    let (x, a) = mk(s);
    let (y, b) = mk(s);
    let f = |i: &Instruction| core::mem::discriminant(&i.inst_format);
    let same = x == y
        && a.rd == b.rd
        && a.rs1 == b.rs1
        && a.rs2 == b.rs2
        && a.imm == b.imm
        && f(&a) == f(&b)
        && a.is_compressed == b.is_compressed;
    reach!(same);
    reach!(!same);
    assert!((a == b) == same, "equality is not field-wise");
    assert!((b == a) == same, "equality is not symmetric");
}

// -------------------------------------------------------------------- text

/// What every display harness assumes of a decoded record: the operands its
/// layout calls for, with values decoding can produce, under the opcode's own
/// format. Established here for every word.
pub fn display_link32<S: Src>(s: &mut S) {
    let (w, rv64) = (s.u32(), s.bool());
    reach!(spec::op32(w, rv64) != Op::Unknown);
    if let Ok(i) = w.decode(isa(rv64)) {
        link(s, &i, rv64);
    }
}

pub fn display_link16<S: Src>(s: &mut S) {
    let (h, rv64) = (s.u16(), s.bool());
    reach!(spec::op16(h, rv64) != Op::Unknown);
    if let Ok(i) = h.decode(isa(rv64)) {
        link(s, &i, rv64);
    }
}

fn link<S: Src>(s: &mut S, i: &Instruction, rv64: bool) {
    let op = spec::id_of(&i.opc);
    if s.native() {
        // A counterexample to the link only matters if the text goes wrong.
        let mut t = String::new();
        write!(t, "{i}").unwrap();
        if op != Op::Unknown {
            let want = expected::<10>(op, ops(i)).to_text();
            assert!(t == want, "text is {t:?}, expected {want:?}");
        }
        // Otherwise the opcode and its like have to go through decoding.
        print!("EXACT {:03}", op as u8);
        for &o in spec::ALL {
            if op != Op::Unknown && spec::ext(o) == spec::ext(op) && spec::lay(o) == spec::lay(op) {
                print!(" {:03}", o as u8);
            }
        }
        println!();
        return;
    }
    if EXACT[op as usize] {
        let known = op != Op::Unknown;
        assert!(!known || i.inst_format == i.opc.get_format(), "LINK");
        return;
    }
    assert!(op != Op::Unknown, "LINK");
    assert!(i.inst_format == i.opc.get_format(), "LINK");
    assert!(has_layout(op, ops(i)), "LINK");
    assert!(spec::in_range(op, ops(i), rv64), "LINK");
}

fn is_csr(op: Op) -> bool {
    matches!(spec::lay(op), L::Csr | L::CsrI)
}

fn has_layout(op: Op, p: Operands) -> bool {
    let (rd, rs1, rs2, imm) = spec::presence(spec::lay(op));
    p.rd.is_some() == rd && p.rs1.is_some() == rs1 && p.rs2.is_some() == rs2 && p.imm.is_some() == imm
}

/// Operands as decoding produces them, for a fixed opcode.
fn operands_of<S: Src, const OP: u8>(s: &mut S) -> Operands {
    let op = const { spec::ALL[OP as usize] };
    let (p, good, witness);
    if SOME_EXACT && const { EXACT[OP as usize] } {
        let (w, rv64) = (s.u32(), s.bool());
        let r = if spec::is16(op) {
            witness = spec::op16(w as u16, rv64) == op;
            (w as u16).decode(isa(rv64))
        } else {
            witness = spec::op32(w, rv64) == op;
            w.decode(isa(rv64))
        };
        good = id(&r) == op;
        p = match r {
            Ok(i) => ops(&i),
            Err(_) => NONE,
        };
    } else {
        let rv64 = s.bool();
        let (rd, rs1, rs2, imm) = spec::presence(spec::lay(op));
        p = Operands {
            rd: if rd { Some((s.u8() & 31) as usize) } else { None },
            rs1: if rs1 { Some((s.u8() & 31) as usize) } else { None },
            rs2: if rs2 {
                Some(if is_csr(op) {
                    (s.u16() & 4095) as usize
                } else {
                    (s.u8() & 31) as usize
                })
            } else {
                None
            },
            imm: if imm { Some(s.i32()) } else { None },
        };
        good = spec::in_range(op, p, rv64);
        witness = good;
    }
    reach!(witness);
    s.assume(good);
    p
}

const NONE: Operands = Operands {
    rd: None,
    rs1: None,
    rs2: None,
    imm: None,
};

fn record<S: Src, const OP: u8>(s: &mut S) -> Instruction {
    let op = const { spec::ALL[OP as usize] };
    let p = operands_of::<S, OP>(s);
    let opc = spec::make(op);
    let inst_format = opc.get_format();
    Instruction {
        opc,
        rd: p.rd,
        rs1: p.rs1,
        rs2: p.rs2,
        imm: p.imm,
        inst_format,
        is_compressed: spec::is16(op),
    }
}

/// Counts, discards.
struct Null;
impl Write for Null {
    fn write_str(&mut self, _: &str) -> core::fmt::Result {
        Ok(())
    }
}

pub fn display_total<S: Src, const OP: u8>(s: &mut S) {
    let i = record::<S, OP>(s);
    assert!(write!(Null, "{i}").is_ok(), "formatting reports an error");
}

pub fn display_text<S: Src, const OP: u8>(s: &mut S) {
    let op = const { spec::ALL[OP as usize] };
    let i = record::<S, OP>(s);
    if s.native() {
        let mut t = String::new();
        write!(t, "{i}").unwrap();
        let want = expected::<10>(op, ops(&i)).to_text();
        assert!(t == want, "text is {t:?}, expected {want:?}");
        return;
    }
    let mut t = Acc::new();
    assert!(write!(t, "{i}").is_ok(), "formatting reports an error");
    let want = if SOME_EXACT && const { EXACT[OP as usize] } {
        expected::<10>(op, ops(&i))
    } else {
        expected::<6>(op, ops(&i))
    };
    assert!(t.same(&want), "wrong text");
}

/// Fails at the `at`-th write.
struct Failing {
    at: u8,
    calls: u8,
    failed: bool,
    after: bool,
}
impl Write for Failing {
    fn write_str(&mut self, _: &str) -> core::fmt::Result {
        if self.failed {
            self.after = true;
        }
        let hit = self.calls == self.at;
        self.calls = self.calls.wrapping_add(1);
        if hit {
            self.failed = true;
            Err(core::fmt::Error)
        } else {
            Ok(())
        }
    }
}

/// A failing sink: the failure is passed on and nothing more is written.
pub fn display_fails<S: Src, const OP: u8>(s: &mut S) {
    let i = record::<S, OP>(s);
    let mut f = Failing {
        at: s.u8(),
        calls: 0,
        failed: false,
        after: false,
    };
    let r = write!(f, "{i}");
    assert!(r.is_err() == f.failed, "the sink's error is lost or invented");
    assert!(!f.after, "text is written after the sink failed");
}

/// The mnemonic is the instruction's, on both levels, and no other's.
pub fn mnemonic<S: Src, const OP: u8>(_s: &mut S) {
    let op = const { spec::ALL[OP as usize] };
    reach!(true);
    let mut want = Acc::new();
    want.lit(spec::name(op));
    let mut t = Acc::new();
    assert!(write!(t, "{}", spec::make(op)).is_ok());
    assert!(t.same(&want), "wrong mnemonic");
    let mut u = Acc::new();
    assert!(spec::write_inner(op, &mut u).is_ok());
    assert!(u.same(&want), "wrong mnemonic of the extension opcode");
}
