//! Assembly text as an integer, and the oracle for it.

use crate::spec::{abi, lay, name, Op, Operands, L};
use core::fmt;

/// Text sink. The bytes written so far are the digits of a 384-bit integer,
/// so appending is a shift and comparing two texts is comparing integers,
/// which the solver handles far better than a buffer with a symbolic index.
#[derive(Debug)]
pub struct Acc {
    pub a: [u128; 3],
    pub n: usize,
}

/// Longest piece a single `write_str` may carry.
pub const PIECE: usize = 16;

impl Acc {
    pub const fn new() -> Self {
        Acc { a: [0; 3], n: 0 }
    }
    #[inline(always)]
    fn push(&mut self, c: u8) {
        self.a[2] = (self.a[2] << 8) | (self.a[1] >> 120);
        self.a[1] = (self.a[1] << 8) | (self.a[0] >> 120);
        self.a[0] = (self.a[0] << 8) | c as u128;
        self.n += 1;
    }
    pub fn same(&self, o: &Acc) -> bool {
        self.n == o.n && self.a[0] == o.a[0] && self.a[1] == o.a[1] && self.a[2] == o.a[2]
    }
    pub fn lit(&mut self, s: &str) {
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            self.push(b[i]);
            i += 1;
        }
    }
    pub fn reg(&mut self, r: Option<usize>) {
        let (v, n) = abi(r.unwrap());
        let mut i = 0;
        while i < 4 {
            if i < n {
                self.push((v >> (8 * i)) as u8);
            }
            i += 1;
        }
    }
    /// Signed decimal. `D` bounds the number of digits.
    pub fn dec<const D: usize>(&mut self, v: i64) {
        if v < 0 {
            self.push(b'-');
        }
        let mut u = if v < 0 { v.wrapping_neg() } else { v } as u32;
        let mut d = [0u8; 10];
        let mut i = 0;
        while i < D {
            d[i] = (u % 10) as u8;
            u /= 10;
            i += 1;
        }
        // Leading zeros are skipped, the last digit never is.
        let mut seen = false;
        while i > 0 {
            i -= 1;
            if d[i] != 0 || i == 0 {
                seen = true;
            }
            if seen {
                self.push(b'0' + d[i]);
            }
        }
    }
    /// `0x` and the lower-case hexadecimal of the 32-bit pattern.
    pub fn hex(&mut self, v: u32) {
        self.lit("0x");
        let mut seen = false;
        let mut i = 8;
        while i > 0 {
            i -= 1;
            let d = ((v >> (4 * i)) & 15) as u8;
            if d != 0 || i == 0 {
                seen = true;
            }
            if seen {
                self.push(if d < 10 { b'0' + d } else { b'a' + d - 10 });
            }
        }
    }
    pub fn to_text(&self) -> String {
        let mut v = Vec::new();
        for i in (0..self.n.min(48)).rev() {
            v.push((self.a[i / 16] >> (8 * (i % 16))) as u8);
        }
        String::from_utf8_lossy(&v).into_owned()
    }
}

impl fmt::Write for Acc {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let b = s.as_bytes();
        let n = b.len();
        assert!(n <= PIECE, "text piece longer than the sink accepts");
        let mut i = 0;
        while i < PIECE {
            if i < n {
                self.push(b[i]);
            }
            i += 1;
        }
        Ok(())
    }
}

/// The text an instruction must render as. `D` bounds decimal digits.
pub fn expected<const D: usize>(op: Op, p: Operands) -> Acc {
    let mut t = Acc::new();
    t.lit(name(op));
    let imm = |t: &mut Acc| t.dec::<D>(p.imm.unwrap() as i64);
    match lay(op) {
        L::None | L::Fence | L::CNone | L::CNop => {}
        L::R => regs3(&mut t, p.rd, p.rs1, p.rs2),
        L::Ca | L::CAdd => regs3(&mut t, p.rd, p.rd, p.rs2),
        L::I | L::Sh | L::ShW | L::ClW | L::ClD => {
            t.lit(" ");
            t.reg(p.rd);
            t.lit(", ");
            t.reg(p.rs1);
            t.lit(", ");
            imm(&mut t);
        }
        L::Ci | L::C16sp | L::CSlli => {
            t.lit(" ");
            t.reg(p.rd);
            t.lit(", ");
            t.reg(p.rd);
            t.lit(", ");
            imm(&mut t);
        }
        L::S | L::CsW | L::CsD => {
            t.lit(" ");
            t.reg(p.rs2);
            t.lit(", ");
            imm(&mut t);
            t.lit("(");
            t.reg(p.rs1);
            t.lit(")");
        }
        L::B => {
            t.lit(" ");
            t.reg(p.rs1);
            t.lit(", ");
            t.reg(p.rs2);
            t.lit(", ");
            imm(&mut t);
        }
        L::U | L::J => {
            t.lit(" ");
            t.reg(p.rd);
            t.lit(", ");
            t.hex(p.imm.unwrap() as u32);
        }
        L::Amo | L::SsAmo => {
            t.lit(" ");
            t.reg(p.rd);
            t.lit(", ");
            t.reg(p.rs2);
            t.lit(", (");
            t.reg(p.rs1);
            t.lit(")");
        }
        L::Lr => {
            t.lit(" ");
            t.reg(p.rd);
            t.lit(", (");
            t.reg(p.rs1);
            t.lit(")");
        }
        L::Csr => {
            t.lit(" ");
            t.reg(p.rd);
            t.lit(", ");
            t.hex(p.rs2.unwrap() as u32);
            t.lit(", ");
            t.reg(p.rs1);
        }
        L::CsrI => {
            t.lit(" ");
            t.reg(p.rd);
            t.lit(", ");
            t.dec::<D>(p.rs2.unwrap() as i64);
            t.lit(", ");
            imm(&mut t);
        }
        L::Rd | L::CSsPush | L::CSsPop => {
            t.lit(" ");
            t.reg(p.rd);
        }
        L::Rs1 | L::SsPop => {
            t.lit(" ");
            t.reg(p.rs1);
        }
        L::SsPush => {
            t.lit(" ");
            t.reg(p.rs2);
        }
        L::Rs12 => {
            t.lit(" ");
            t.reg(p.rs1);
            t.lit(", ");
            t.reg(p.rs2);
        }
        L::Ciw => {
            t.lit(" ");
            t.reg(p.rd);
            t.lit(", sp, ");
            t.hex(p.imm.unwrap() as u32);
        }
        L::CLi | L::CLui => {
            t.lit(" ");
            t.reg(p.rd);
            t.lit(", ");
            imm(&mut t);
        }
        L::CSh | L::CAndi | L::Cb => {
            t.lit(" ");
            t.reg(p.rs1);
            t.lit(", ");
            imm(&mut t);
        }
        L::Cj => {
            t.lit(" ");
            imm(&mut t);
        }
        L::CLwsp | L::CLdsp => {
            t.lit(" ");
            t.reg(p.rd);
            t.lit(", ");
            imm(&mut t);
            t.lit("(sp)");
        }
        L::CSwsp | L::CSdsp => {
            t.lit(" ");
            t.reg(p.rs2);
            t.lit(", ");
            imm(&mut t);
            t.lit("(sp)");
        }
        L::CJr => {
            t.lit(if matches!(op, Op::C_JR) {
                " zero, 0("
            } else {
                " ra, 0("
            });
            t.reg(p.rs1);
            t.lit(")");
        }
        L::CMv => {
            t.lit(" ");
            t.reg(p.rd);
            t.lit(", ");
            t.reg(p.rs2);
        }
    }
    t
}

fn regs3(t: &mut Acc, a: Option<usize>, b: Option<usize>, c: Option<usize>) {
    t.lit(" ");
    t.reg(a);
    t.lit(", ");
    t.reg(b);
    t.lit(", ");
    t.reg(c);
}
