//! Decimal literals: what is read is what is written.
#[cfg(not(kani))]
use crate::kani;
use crate::io::mps::number::parse::Parse;
use crate::number::{Rational64, Sign};

/// What the standard library does, in a way that's easy to encode.
fn find(wanted: u8, bytes: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < bytes.len() {
        if bytes[i] == wanted {
            return Some(i);
        }
        i += 1;
    }
    None
}
/// What an error says is not decided here.
fn message(_: std::fmt::Arguments<'_>) -> String { String::new() }

/// What a text means: the digits, and how many of them are decimals. Nothing when it's not a
/// decimal literal.
fn meaning(text: &[u8]) -> Option<(bool, u128, usize)> {
    let negative = !text.is_empty() && text[0] == b'-';
    let (mut value, mut decimals, mut digits, mut dot) = (0_u128, 0, false, false);
    let mut i = if negative { 1 } else { 0 };
    while i < text.len() {
        match text[i] {
            b'0'..=b'9' => {
                value = value * 10 + (text[i] - b'0') as u128;
                digits = true;
                if dot {
                    decimals += 1;
                }
            }
            b'.' if !dot => dot = true,
            _ => return None,
        }
        i += 1;
    }
    if digits { Some((negative, value, decimals)) } else { None }
}

/// The fraction read is the one written, whichever of its representations it is.
fn same(value: u128, decimals: usize, numerator: u64, denominator: u64) -> bool {
    let mut power = 1_u128;
    let mut i = 0;
    while i < decimals {
        power *= 10;
        i += 1;
    }
    if denominator as u128 == power {
        numerator as u128 == value
    } else {
        let (quotient, remainder) = (power / denominator as u128, power % denominator as u128);
        remainder == 0 && numerator as u128 * quotient == value
    }
}

fn judge(bytes: &[u8], must: bool) {
    let result = Rational64::parse(unsafe { std::str::from_utf8_unchecked(bytes) }).ok();
    // A plus sign may be accepted or not
    let plus = !bytes.is_empty() && bytes[0] == b'+';
    match (meaning(if plus { &bytes[1..] } else { bytes }), result) {
        (Some((negative, value, decimals)), Some(r)) => {
            assert!(!(plus && negative), "something that is not a decimal literal is read as one");
            assert!(same(value, decimals, r.numerator, r.denominator), "the value read is not the one written");
            assert!(r.sign == if value == 0 { Sign::Zero } else if negative { Sign::Negative } else { Sign::Positive }, "the sign read is not the one written");
        }
        (Some(_), None) => assert!(!must || plus, "a decimal literal is rejected"),
        (None, Some(_)) => assert!(false, "something that is not a decimal literal is read as one"),
        (None, None) => {}
    }
}

/// Any text of this many ASCII characters.
fn ascii<const N: usize>() {
    let bytes: [u8; N] = kani::any();
    for i in 0..N {
        kani::assume(bytes[i] < 128);
    }
    judge(&bytes, true);
}
/// Any text with one two byte character in it.
fn wide<const N: usize>(at: usize) {
    let bytes: [u8; N] = kani::any();
    for i in 0..N {
        kani::assume(if i == at { 0xc2 <= bytes[i] && bytes[i] <= 0xdf } else if i == at + 1 { 0x80 <= bytes[i] && bytes[i] <= 0xbf } else { bytes[i] < 128 });
    }
    judge(&bytes, true);
}
/// Any digits at the question marks of a text.
fn digits<const N: usize>(text: &[u8; N], must: bool) {
    let mut bytes = *text;
    let negative = text[0] == b'-';
    let (mut value, mut decimals, mut dot) = (0_u128, 0, false);
    for i in 0..N {
        if text[i] == b'?' {
            bytes[i] = any_digit();
        }
        if text[i] == b'.' {
            dot = true;
        } else if text[i] != b'-' {
            value = value * 10 + (bytes[i] - b'0') as u128;
            if dot {
                decimals += 1;
            }
        }
    }
    match Rational64::parse(unsafe { std::str::from_utf8_unchecked(&bytes) }) {
        Ok(r) => {
            assert!(r.sign == if value == 0 { Sign::Zero } else if negative { Sign::Negative } else { Sign::Positive }, "the sign read is not the one written");
            // Only fractions of a power of ten are judged here.
            let mut power = 1_u128;
            for d in 0..=N {
                let mut numerator = r.numerator as u128;
                if d <= decimals && r.denominator as u128 == power {
                    for _ in d..decimals {
                        numerator *= 10;
                    }
                    assert!(numerator == value, "the value read is not the one written");
                }
                if d < 20 {
                    power *= 10;
                }
            }
            assert!(decimals >= 20 || r.denominator as u128 <= power_of_ten(decimals), "the value read has more decimals than the one written");
        }
        Err(_) => assert!(!must, "a decimal literal is rejected"),
    }
}
/// Written out such that the symbolic execution sees that it's not a dot.
fn any_digit() -> u8 {
    match kani::any::<u8>() {
        0 => b'0', 1 => b'1', 2 => b'2', 3 => b'3', 4 => b'4',
        5 => b'5', 6 => b'6', 7 => b'7', 8 => b'8', _ => b'9',
    }
}
fn power_of_ten(exponent: usize) -> u128 {
    let mut power = 1_u128;
    for _ in 0..exponent {
        power *= 10;
    }
    power
}

macro_rules! harness {
    ($($name:ident, $unwind:literal: $body:expr;)*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            #[cfg_attr(kani, kani::solver(kissat))]
            #[cfg_attr(kani, kani::stub(std::fmt::format, message))]
            #[cfg_attr(kani, kani::stub(core::slice::memchr::memchr, find))]
            pub fn $name() { $body; }
        )*
        /// For replaying a counterexample.
        #[cfg(not(kani))]
        pub fn run(name: &str) -> bool {
            $( if name == stringify!($name) { $name(); return true; } )*
            false
        }
    }
}
pub mod quick {
use super::*;
harness! {
    ascii_0, 3: ascii::<0>();
    ascii_1, 3: ascii::<1>();
    ascii_2, 4: ascii::<2>();
    ascii_3, 5: ascii::<3>();
    ascii_4, 6: ascii::<4>();
    wide_2, 4: wide::<2>(0);
    wide_3, 5: wide::<3>(1);
    signed_7, 9: digits(b"-??.???", true);
    fraction_17, 19: digits(b"9999999999999.???", true);
    small_20, 22: digits(b".000000000000000????", true);
    small_22, 24: digits(b"-.000000000000000000??", false);
    edge_21, 23: digits(b"1.844674407370955161?", false);
    over_21, 23: digits(b"9.99999999999999999??", false);
    after_9, 11: digits(b"-0.0??0??", true);
    edge_22, 24: digits(b"18446744073709551.6???", false);
}
}
pub mod thorough {
use super::*;
harness! {
    ascii_5, 7: ascii::<5>();
    ascii_6, 8: ascii::<6>();
    wide_4, 6: wide::<4>(1);
    wide_4_back, 6: wide::<4>(2);
    mixed_7, 9: digits(b"????.??", true);
    mixed_10, 12: digits(b"????.?????", true);
    whole_12, 14: digits(b"????????????", true);
    edge_20, 22: digits(b"184467440737095516??", false);
    edge_20_wide, 22: digits(b"1844674407370955????", false);
}
}
