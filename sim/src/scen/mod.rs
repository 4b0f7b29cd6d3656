//! The scenarios: one per property.
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
#[cfg(feature = "cli")]
pub mod c24;
pub mod c25;
pub mod c26;
pub mod c27;
#[cfg(feature = "work")]
pub mod c28;
pub mod c29;
pub mod c30;
pub mod c31;
pub mod damage;

use crate::ctx::{Cx, R};

pub struct Scenario {
    pub id: &'static str,
    pub run: fn(&Cx) -> R,
    /// runs per quick and thorough check
    pub quick: u64,
    pub thorough: u64,
    /// what makes a run count as distinct and non-trivial
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

pub const REAL: &str = "kdbx-rs (all of src/ except src/bin), xml-rs, libflate, aes, twofish, cbc, chacha20, salsa20, sha2, hmac, rust-argon2, base64, uuid, rand, getrandom, chrono, std::io, std::fs";
pub const STUB: &str = "input and output streams, file contents (memory files behind open/read/close), operating system randomness, wall clock, thread scheduler, disk persistence";

pub fn all() -> Vec<Scenario> {
    vec![
        c01::scenario(),
        c02::scenario(),
        c03::scenario(),
        c04::scenario(),
        c05::scenario(),
        c06::scenario(),
        c07::scenario(),
        c08::scenario(),
        c09::scenario(),
        c10::scenario(),
        c11::scenario(),
        c12::scenario(),
        c13::scenario(),
        c14::scenario(),
        c15::scenario(),
        c16::scenario(),
        c17::scenario(),
        c18::scenario(),
        c19::scenario(),
        c20::scenario(),
        c21::scenario(),
        #[cfg(feature = "cli")]
        c24::scenario(),
        c25::scenario(),
        c26::scenario(),
        c27::scenario(),
        #[cfg(feature = "work")]
        c28::scenario(),
        c29::scenario(),
        c30::scenario(),
        c31::scenario(),
    ]
}
