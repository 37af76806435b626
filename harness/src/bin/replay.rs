//! Runs one property natively on the values of a counterexample.
//!
//! `replay FILE`: FILE holds the harness name on the first line, then one line
//! per drawn value, its little-endian bytes in hexadecimal.
//! Exit 1: the property is broken. 0: it holds. 3: not a valid input.
//!
//! `replay --known ID`: exit 1 if the known finding is still there, else 0.

use raki::{Decode, Isa};
use raki_props::props::*;
use raki_props::spec::Op;
use raki_props::src::{AssumeFailed, Replay};
use std::panic::{catch_unwind, AssertUnwindSafe};

macro_rules! harnesses {
    ($($n:ident)*) => {
        fn run_plain(name: &str, s: &mut Replay) -> bool {
            match name {
                $( stringify!($n) => $n(s), )*
                _ => return false,
            }
            true
        }
    };
}
include!("../list.rs");

macro_rules! batches {
    ($($b:ident: $($op:ident)*;)*) => {
        fn run_batch(kind: &str, name: &str, s: &mut Replay) -> bool {
            match (kind, name) {
                $(
                    ("text", stringify!($b)) => { $( display_text::<Replay, { Op::$op as u8 }>(s); )* }
                    ("shown", stringify!($b)) => { $( display_total::<Replay, { Op::$op as u8 }>(s); )* }
                    ("fails", stringify!($b)) => { $( display_fails::<Replay, { Op::$op as u8 }>(s); )* }
                    ("names", stringify!($b)) => { $( mnemonic::<Replay, { Op::$op as u8 }>(s); )* }
                )*
                _ => return false,
            }
            true
        }
    };
}
include!("../batches.rs");

fn run(name: &str, s: &mut Replay) -> bool {
    match name.split_once("::") {
        None => run_plain(name, s),
        Some((kind, b)) => run_batch(kind, b, s),
    }
}

fn known(id: &str) -> bool {
    match id {
        "K1" => 0x6381u16.decode(Isa::Rv64).is_ok(),
        "K2" => 0x0000_100fu32.decode(Isa::Rv64).is_err(),
        _ => false,
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "--known" {
        std::process::exit(known(&a[2]) as i32);
    }
    let body = std::fs::read_to_string(&a[1]).expect("readable replay file");
    let mut lines = body.lines().filter(|l| !l.starts_with('#'));
    let name = lines.next().unwrap_or("").trim().to_string();
    let vals = lines
        .map(|l| {
            l.split_whitespace()
                .map(|b| u8::from_str_radix(b, 16).expect("hexadecimal byte"))
                .collect()
        })
        .collect();
    let mut s = Replay {
        vals,
        drawn: Vec::new(),
        assume_failed: false,
    };
    let r = catch_unwind(AssertUnwindSafe(|| run(&name, &mut s)));
    println!("{name}({})", s.drawn.join(", "));
    match r {
        Ok(true) => println!("holds"),
        Ok(false) => {
            println!("no such harness");
            std::process::exit(3);
        }
        Err(p) if p.is::<AssumeFailed>() => {
            println!("outside the property's assumptions");
            std::process::exit(3);
        }
        Err(p) => {
            let m = p
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| p.downcast_ref::<String>().cloned())
                .unwrap_or_default();
            println!("broken: {m}");
            std::process::exit(1);
        }
    }
}
