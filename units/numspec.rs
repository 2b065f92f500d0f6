// Shared: the texts of numbers.
//@ include common.rs
//@ include text.rs
//@ include number.rs
//@ head #![feature(sized_hierarchy)]
//@ crate svd-encoder skip EncodeError
//@ module spec
use crate::encoder::config::*;
use vstd::std_specs::convert::IntoSpec;
#[verifier::external_trait_specification]
pub trait ExUpperHex: std::marker::PointeeSized { type ExternalTraitSpecificationFor: std::fmt::UpperHex; }
#[verifier::external_trait_specification]
pub trait ExLowerHex: std::marker::PointeeSized { type ExternalTraitSpecificationFor: std::fmt::LowerHex; }
#[verifier::external_trait_specification]
pub trait ExBinary: std::marker::PointeeSized { type ExternalTraitSpecificationFor: std::fmt::Binary; }
#[verifier::external_trait_specification]
pub trait ExDisplay: std::marker::PointeeSized { type ExternalTraitSpecificationFor: std::fmt::Display; }
// ---------------------------------------------------------------- what the format names promise
pub open spec fn zeros(n: nat) -> Seq<char> { Seq::new(n, |i: int| '0') }
// at least w digits, filled up with zeros
pub open spec fn padded(d: Seq<char>, w: nat) -> Seq<char> { if d.len() >= w { d } else { zeros((w - d.len()) as nat) + d } }
pub open spec fn hex(n: nat, upper: bool, w: nat) -> Seq<char> { seq!['0', 'x'] + padded(digits(n, 16, upper), w) }
pub open spec fn width16(n: nat) -> nat { if n > u32::MAX { 16 } else { 8 } }
pub open spec fn number_text(n: nat, f: NumberFormat) -> Seq<char> {
    match f {
        NumberFormat::UpperHex => hex(n, true, 0),
        NumberFormat::UpperHex8 => hex(n, true, 8),
        NumberFormat::UpperHex16 => hex(n, true, width16(n)),
        NumberFormat::LowerHex => hex(n, false, 0),
        NumberFormat::LowerHex8 => hex(n, false, 8),
        NumberFormat::LowerHex16 => hex(n, false, width16(n)),
        NumberFormat::Dec => dec(n),
        NumberFormat::Bin => seq!['0', 'b'] + digits(n, 2, false),
    }
}
pub open spec fn num_of<T: Into<u64>>(v: T) -> nat { <T as IntoSpec<u64>>::into_spec(v) as nat }
// ---------------------------------------------------------------- std::fmt on unsigned integers
#[verifier::external_body]
pub fn vx_push_alt_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + hex(num_of::<T>(*v), true, 0) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_0_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + hex(num_of::<T>(*v), true, 8) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_8_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + hex(num_of::<T>(*v), true, 16) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + hex(num_of::<T>(*v), false, 0) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_0_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + hex(num_of::<T>(*v), false, 8) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_8_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + hex(num_of::<T>(*v), false, 16) { unimplemented!() }
// widths the code does not use today
#[verifier::external_body]
pub fn vx_push_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + digits(num_of::<T>(*v), 16, true) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_3_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, true), 1) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_3_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, true), 3) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_4_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, true), 2) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_4_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, true), 4) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_5_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, true), 3) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_5_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, true), 5) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_6_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, true), 4) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_6_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, true), 6) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_7_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, true), 5) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_7_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, true), 7) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_8_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, true), 6) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_8_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, true), 8) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_9_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, true), 7) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_9_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, true), 9) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_0_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, true), 10) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_1_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, true), 9) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_1_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, true), 11) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_2_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, true), 10) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_2_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, true), 12) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_3_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, true), 11) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_3_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, true), 13) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_4_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, true), 12) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_4_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, true), 14) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_5_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, true), 13) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_5_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, true), 15) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_6_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, true), 14) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_6_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, true), 16) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_7_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, true), 15) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_7_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, true), 17) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_8_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, true), 18) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_9_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, true), 17) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_9_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, true), 19) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_2_0_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, true), 18) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_2_0_X<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, true), 20) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + digits(num_of::<T>(*v), 16, false) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_3_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, false), 1) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_3_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, false), 3) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_4_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, false), 2) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_4_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, false), 4) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_5_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, false), 3) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_5_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, false), 5) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_6_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, false), 4) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_6_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, false), 6) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_7_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, false), 5) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_7_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, false), 7) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_8_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, false), 6) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_8_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, false), 8) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_9_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, false), 7) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_9_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, false), 9) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_0_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, false), 10) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_1_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, false), 9) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_1_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, false), 11) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_2_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, false), 10) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_2_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, false), 12) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_3_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, false), 11) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_3_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, false), 13) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_4_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, false), 12) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_4_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, false), 14) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_5_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, false), 13) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_5_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, false), 15) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_6_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, false), 14) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_6_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, false), 16) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_7_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, false), 15) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_7_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, false), 17) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_8_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, false), 18) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_9_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, false), 17) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_9_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, false), 19) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_2_0_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'x'] + padded(digits(num_of::<T>(*v), 16, false), 18) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_2_0_x<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 16, false), 20) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + digits(num_of::<T>(*v), 2, false) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_3_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'b'] + padded(digits(num_of::<T>(*v), 2, false), 1) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_3_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 2, false), 3) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_4_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'b'] + padded(digits(num_of::<T>(*v), 2, false), 2) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_4_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 2, false), 4) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_5_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'b'] + padded(digits(num_of::<T>(*v), 2, false), 3) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_5_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 2, false), 5) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_6_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'b'] + padded(digits(num_of::<T>(*v), 2, false), 4) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_6_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 2, false), 6) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_7_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'b'] + padded(digits(num_of::<T>(*v), 2, false), 5) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_7_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 2, false), 7) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_8_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'b'] + padded(digits(num_of::<T>(*v), 2, false), 6) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_8_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 2, false), 8) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_9_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'b'] + padded(digits(num_of::<T>(*v), 2, false), 7) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_9_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 2, false), 9) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_0_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'b'] + padded(digits(num_of::<T>(*v), 2, false), 8) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_0_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 2, false), 10) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_1_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'b'] + padded(digits(num_of::<T>(*v), 2, false), 9) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_1_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 2, false), 11) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_2_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'b'] + padded(digits(num_of::<T>(*v), 2, false), 10) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_2_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 2, false), 12) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_3_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'b'] + padded(digits(num_of::<T>(*v), 2, false), 11) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_3_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 2, false), 13) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_4_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'b'] + padded(digits(num_of::<T>(*v), 2, false), 12) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_4_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 2, false), 14) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_5_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'b'] + padded(digits(num_of::<T>(*v), 2, false), 13) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_5_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 2, false), 15) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_6_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'b'] + padded(digits(num_of::<T>(*v), 2, false), 14) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_6_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 2, false), 16) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_7_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'b'] + padded(digits(num_of::<T>(*v), 2, false), 15) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_7_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 2, false), 17) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_8_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'b'] + padded(digits(num_of::<T>(*v), 2, false), 16) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_8_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 2, false), 18) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_1_9_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'b'] + padded(digits(num_of::<T>(*v), 2, false), 17) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_1_9_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 2, false), 19) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_2_0_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'b'] + padded(digits(num_of::<T>(*v), 2, false), 18) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_2_0_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 2, false), 20) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_3_4_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'b'] + padded(digits(num_of::<T>(*v), 2, false), 32) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_3_4_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 2, false), 34) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_0_6_6_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'b'] + padded(digits(num_of::<T>(*v), 2, false), 64) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_0_6_6_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + padded(digits(num_of::<T>(*v), 2, false), 66) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_alt_b<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + seq!['0', 'b'] + digits(num_of::<T>(*v), 2, false) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_num<T: Into<u64>>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + dec(num_of::<T>(*v)) { unimplemented!() }
//@ module encoder::config
use vstd::std_specs::convert::IntoSpec;
//@ fn svd-encoder/src/config.rs format_number -> r
//@ subst vx_push ( =>> vx_push_num (
    requires <T as IntoSpec<u64>>::obeys_into_spec(),
    ensures r@ == number_text(num_of(value), format),
//@ endfn
