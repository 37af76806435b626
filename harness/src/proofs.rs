//! Kani harnesses: one per line of `list.rs`, and four per batch of opcodes.

use crate::spec::Op;
use crate::src::Sym;

macro_rules! harnesses {
    ($($n:ident)*) => {
        $(
            #[kani::proof]
            fn $n() {
                crate::props::$n(&mut Sym);
            }
        )*
    };
}
include!("list.rs");

macro_rules! batches {
    ($($b:ident: $($op:ident)*;)*) => {
        mod text { use super::*; $( #[kani::proof] fn $b() { $( crate::props::display_text::<Sym, { Op::$op as u8 }>(&mut Sym); )* } )* }
        mod shown { use super::*; $( #[kani::proof] fn $b() { $( crate::props::display_total::<Sym, { Op::$op as u8 }>(&mut Sym); )* } )* }
        mod fails { use super::*; $( #[kani::proof] fn $b() { $( crate::props::display_fails::<Sym, { Op::$op as u8 }>(&mut Sym); )* } )* }
        mod names { use super::*; $( #[kani::proof] fn $b() { $( crate::props::mnemonic::<Sym, { Op::$op as u8 }>(&mut Sym); )* } )* }
    };
}
include!("batches.rs");
