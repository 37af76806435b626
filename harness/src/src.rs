//! Where a property takes its inputs from.
//!
//! Under Kani every draw is a fresh symbolic value. In a native replay the
//! draws are read back, in the same order, from the solver's counterexample.

/// Reachability witness: must be satisfiable, or the harness is vacuous. A
/// macro, so that every use is a solver goal of its own.
#[macro_export]
macro_rules! reach {
    ($c:expr) => {
        #[cfg(kani)]
        kani::cover!($c, "WITNESS");
    };
}

pub trait Src {
    fn u8(&mut self) -> u8;
    fn u16(&mut self) -> u16;
    fn u32(&mut self) -> u32;
    fn i32(&mut self) -> i32;
    fn usize(&mut self) -> usize;
    fn bool(&mut self) -> bool;
    fn assume(&mut self, c: bool);
    /// Running a counterexample outside the solver?
    fn native(&self) -> bool;
}

#[cfg(kani)]
pub struct Sym;

#[cfg(kani)]
impl Src for Sym {
    fn u8(&mut self) -> u8 {
        kani::any()
    }
    fn u16(&mut self) -> u16 {
        kani::any()
    }
    fn u32(&mut self) -> u32 {
        kani::any()
    }
    fn i32(&mut self) -> i32 {
        kani::any()
    }
    fn usize(&mut self) -> usize {
        kani::any()
    }
    fn bool(&mut self) -> bool {
        kani::any()
    }
    fn assume(&mut self, c: bool) {
        kani::assume(c);
    }
    #[inline(always)]
    fn native(&self) -> bool {
        false
    }
}

/// Replays recorded draws.
pub struct Replay {
    pub vals: std::collections::VecDeque<Vec<u8>>,
    pub drawn: Vec<String>,
    pub assume_failed: bool,
}

/// Payload used to unwind out of a property whose assumption does not hold.
pub struct AssumeFailed;

impl Replay {
    fn take<const N: usize>(&mut self) -> [u8; N] {
        let mut out = [0u8; N];
        if let Some(v) = self.vals.pop_front() {
            for (o, b) in out.iter_mut().zip(v.iter()) {
                *o = *b;
            }
        }
        out
    }
}

impl Src for Replay {
    fn u8(&mut self) -> u8 {
        let v = u8::from_le_bytes(self.take());
        self.drawn.push(format!("{v:#04x}"));
        v
    }
    fn u16(&mut self) -> u16 {
        let v = u16::from_le_bytes(self.take());
        self.drawn.push(format!("{v:#06x}"));
        v
    }
    fn u32(&mut self) -> u32 {
        let v = u32::from_le_bytes(self.take());
        self.drawn.push(format!("{v:#010x}"));
        v
    }
    fn i32(&mut self) -> i32 {
        let v = i32::from_le_bytes(self.take());
        self.drawn.push(format!("{v}"));
        v
    }
    fn usize(&mut self) -> usize {
        let v = usize::from_le_bytes(self.take());
        self.drawn.push(format!("{v:#x}"));
        v
    }
    fn bool(&mut self) -> bool {
        let v = self.take::<1>()[0] & 1 == 1;
        self.drawn.push(format!("{v}"));
        v
    }
    fn assume(&mut self, c: bool) {
        if !c {
            self.assume_failed = true;
            std::panic::panic_any(AssumeFailed);
        }
    }
    fn native(&self) -> bool {
        true
    }
}
