// C27: encoder options.
//@ include common.rs
//@ include text.rs
//@ crate svd-encoder skip EncodeError
//@ module spec
use crate::encoder::config::{IdentifierFormat, NumberFormat, FieldBitRangeFormat, Sorting, DerivableSorting, RcSorting, Config as EncoderConfig};
use crate::svd::bitrange::BitRangeType;
// ---------------------------------------------------------------- meanings of the option values
pub open spec fn case_of(s: Seq<char>) -> Option<IdentifierFormat> {
    if s == "Camel"@ { Some(IdentifierFormat::Camel) } else if s == "Pascal"@ { Some(IdentifierFormat::Pascal) }
    else if s == "Snake"@ { Some(IdentifierFormat::Snake) } else if s == "Constant"@ { Some(IdentifierFormat::Constant) } else { None }
}
pub open spec fn format_of(s: Seq<char>) -> Option<NumberFormat> {
    if s == "UpperHex"@ { Some(NumberFormat::UpperHex) } else
    if s == "UpperHex8"@ { Some(NumberFormat::UpperHex8) } else
    if s == "UpperHex16"@ { Some(NumberFormat::UpperHex16) } else
    if s == "LowerHex"@ { Some(NumberFormat::LowerHex) } else
    if s == "LowerHex8"@ { Some(NumberFormat::LowerHex8) } else
    if s == "LowerHex16"@ { Some(NumberFormat::LowerHex16) } else
    if s == "Dec"@ { Some(NumberFormat::Dec) } else
    if s == "Bin"@ { Some(NumberFormat::Bin) } else
    { None }
}
pub open spec fn bit_range_of(s: Seq<char>) -> Option<FieldBitRangeFormat> {
    if s == "BitRange"@ { Some(FieldBitRangeFormat(BitRangeType::BitRange)) } else if s == "OffsetWidth"@ { Some(FieldBitRangeFormat(BitRangeType::OffsetWidth)) }
    else if s == "MsbLsb"@ { Some(FieldBitRangeFormat(BitRangeType::MsbLsb)) } else { None }
}
// a sorting is a list of words separated by commas
pub open spec fn has_word(p: Seq<Seq<char>>, w: &str) -> bool { exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == w@ }
pub open spec fn order_of(p: Seq<Seq<char>>) -> Option<Sorting> {
    if has_word(p, "Offset") { Some(Sorting::Offset) } else if has_word(p, "OffsetReversed") { Some(Sorting::OffsetReversed) }
    else if has_word(p, "Name") { Some(Sorting::Name) } else { None }
}
pub open spec fn derivable_of(p: Seq<Seq<char>>) -> DerivableSorting {
    if has_word(p, "DerivedLast") { DerivableSorting::DeriveLast(order_of(p)) } else { DerivableSorting::Unchanged(order_of(p)) }
}
pub open spec fn sorting_of(s: Seq<char>) -> Option<DerivableSorting> { Some(derivable_of(split_char(s, ','))) }
pub open spec fn rc_sorting_of(s: Seq<char>) -> Option<RcSorting> {
    let p = split_char(s, ',');
    Some(if has_word(p, "RegistersFirst") { RcSorting::RegistersFirst(derivable_of(p)) }
        else if has_word(p, "ClustersFirst") { RcSorting::ClustersFirst(derivable_of(p)) } else { RcSorting::Unchanged(derivable_of(p)) })
}
pub open spec fn texts(p: Seq<&str>) -> Seq<Seq<char>> { Seq::new(p.len(), |i: int| p[i]@) }
pub open spec fn has_text<'a>(p: Seq<&'a str>, w: &'a str) -> bool { has_word(texts(p), w) }
pub assume_specification<T: PartialEq>[ <[T]>::contains ](s: &[T], x: &T) -> (r: bool)
    ensures r == is_in(s@, *x),
;
pub uninterp spec fn is_in<T>(s: Seq<T>, x: T) -> bool;
//@ module ax
use crate::encoder::config::{IdentifierFormat, NumberFormat, FieldBitRangeFormat, DerivableSorting, RcSorting};
// <[&str]>::contains compares texts
pub broadcast axiom fn ax_contains_str<'a>(s: Seq<&'a str>, x: &'a str)
    ensures #[trigger] is_in::<&'a str>(s, x) == has_text(s, x),
;
// what `from_str` has to give for the types of this crate (definitions of parse_spec; the impls are verified against them below)
pub broadcast axiom fn ax_parse_case(s: Seq<char>) ensures #[trigger] parse_spec::<IdentifierFormat>(s) == case_of(s);
pub broadcast axiom fn ax_parse_format(s: Seq<char>) ensures #[trigger] parse_spec::<NumberFormat>(s) == format_of(s);
pub broadcast axiom fn ax_parse_bit_range(s: Seq<char>) ensures #[trigger] parse_spec::<FieldBitRangeFormat>(s) == bit_range_of(s);
pub broadcast axiom fn ax_parse_sorting(s: Seq<char>) ensures #[trigger] parse_spec::<DerivableSorting>(s) == sorting_of(s);
pub broadcast axiom fn ax_parse_rc_sorting(s: Seq<char>) ensures #[trigger] parse_spec::<RcSorting>(s) == rc_sorting_of(s);
pub broadcast group vx_axioms_config { ax_contains_str, ax_parse_case, ax_parse_format, ax_parse_bit_range, ax_parse_sorting, ax_parse_rc_sorting }
//@ module spec
// setting the option `name` to the text `value`: the new configuration, None if the value has no meaning for it
pub open spec fn updated(c: EncoderConfig, name: Seq<char>, value: Seq<char>) -> Option<EncoderConfig> {
    if name == "peripheral_name"@ { match case_of(value) { Some(v) => Some(EncoderConfig { peripheral_name: Some(v), ..c }), None => None } } else
    if name == "peripheral_base_address"@ { match format_of(value) { Some(v) => Some(EncoderConfig { peripheral_base_address: v, ..c }), None => None } } else
    if name == "peripheral_sorting"@ { match sorting_of(value) { Some(v) => Some(EncoderConfig { peripheral_sorting: v, ..c }), None => None } } else
    if name == "address_block_offset"@ { match format_of(value) { Some(v) => Some(EncoderConfig { address_block_offset: v, ..c }), None => None } } else
    if name == "address_block_size"@ { match format_of(value) { Some(v) => Some(EncoderConfig { address_block_size: v, ..c }), None => None } } else
    if name == "interrupt_name"@ { match case_of(value) { Some(v) => Some(EncoderConfig { interrupt_name: Some(v), ..c }), None => None } } else
    if name == "cluster_name"@ { match case_of(value) { Some(v) => Some(EncoderConfig { cluster_name: Some(v), ..c }), None => None } } else
    if name == "cluster_address_offset"@ { match format_of(value) { Some(v) => Some(EncoderConfig { cluster_address_offset: v, ..c }), None => None } } else
    if name == "register_cluster_sorting"@ { match rc_sorting_of(value) { Some(v) => Some(EncoderConfig { register_cluster_sorting: v, ..c }), None => None } } else
    if name == "register_name"@ { match case_of(value) { Some(v) => Some(EncoderConfig { register_name: Some(v), ..c }), None => None } } else
    if name == "register_address_offset"@ { match format_of(value) { Some(v) => Some(EncoderConfig { register_address_offset: v, ..c }), None => None } } else
    if name == "register_size"@ { match format_of(value) { Some(v) => Some(EncoderConfig { register_size: v, ..c }), None => None } } else
    if name == "register_reset_value"@ { match format_of(value) { Some(v) => Some(EncoderConfig { register_reset_value: v, ..c }), None => None } } else
    if name == "register_reset_mask"@ { match format_of(value) { Some(v) => Some(EncoderConfig { register_reset_mask: v, ..c }), None => None } } else
    if name == "field_name"@ { match case_of(value) { Some(v) => Some(EncoderConfig { field_name: Some(v), ..c }), None => None } } else
    if name == "field_bit_range"@ { match bit_range_of(value) { Some(v) => Some(EncoderConfig { field_bit_range: Some(v), ..c }), None => None } } else
    if name == "field_sorting"@ { match sorting_of(value) { Some(v) => Some(EncoderConfig { field_sorting: v, ..c }), None => None } } else
    if name == "enumerated_values_name"@ { match case_of(value) { Some(v) => Some(EncoderConfig { enumerated_values_name: Some(v), ..c }), None => None } } else
    if name == "enumerated_value_name"@ { match case_of(value) { Some(v) => Some(EncoderConfig { enumerated_value_name: Some(v), ..c }), None => None } } else
    if name == "enumerated_value_value"@ { match format_of(value) { Some(v) => Some(EncoderConfig { enumerated_value_value: v, ..c }), None => None } } else
    if name == "dim_dim"@ { match format_of(value) { Some(v) => Some(EncoderConfig { dim_dim: v, ..c }), None => None } } else
    if name == "dim_increment"@ { match format_of(value) { Some(v) => Some(EncoderConfig { dim_increment: v, ..c }), None => None } } else
    if name == "dim_array_index_header_enum_name"@ { match case_of(value) { Some(v) => Some(EncoderConfig { dim_array_index_header_enum_name: Some(v), ..c }), None => None } } else
    { Some(c) }
}
//@ module encoder::config
use std::str::FromStr;
//@ fn svd-encoder/src/config.rs <IdentifierFormat as FromStr>::from_str as-trait -> r
//@ start
    broadcast use crate::ax::vx_axioms_config;
//@ endfn
//@ fn svd-encoder/src/config.rs <NumberFormat as FromStr>::from_str as-trait -> r
//@ start
    broadcast use crate::ax::vx_axioms_config;
//@ endfn
//@ fn svd-encoder/src/config.rs <FieldBitRangeFormat as FromStr>::from_str as-trait -> r
//@ start
    broadcast use crate::ax::vx_axioms_config;
//@ endfn
//@ fn svd-encoder/src/config.rs Sorting::from_parts -> r
    ensures r == order_of(texts(parts@)),
//@ start
    broadcast use crate::ax::vx_axioms_config;
//@ endfn
//@ fn svd-encoder/src/config.rs DerivableSorting::from_parts -> r
    ensures r == derivable_of(texts(parts@)),
//@ start
    broadcast use crate::ax::vx_axioms_config;
//@ endfn
//@ fn svd-encoder/src/config.rs <DerivableSorting as FromStr>::from_str as-trait -> r
//@ start
    broadcast use crate::ax::vx_axioms_config;
//@ after let parts
    proof { assert(texts(parts@) =~= split_char(s@, ',')); }
//@ endfn
//@ fn svd-encoder/src/config.rs <RcSorting as FromStr>::from_str as-trait -> r
//@ start
    broadcast use crate::ax::vx_axioms_config;
//@ after let parts
    proof { assert(texts(parts@) =~= split_char(s@, ',')); }
//@ endfn
//@ fn svd-encoder/src/config.rs Config::update
    requires updated(*old(self), name@, value@) is Some,
    ensures Some(*final(self)) == updated(*old(self), name@, value@),
//@ start
    broadcast use crate::ax::vx_axioms_config;
//@ endfn
//@ fn svd-encoder/src/config.rs Config::peripheral_name -> r
    ensures r == (Config { peripheral_name: val, ..self }),
//@ endfn
//@ fn svd-encoder/src/config.rs Config::peripheral_base_address -> r
    ensures r == (Config { peripheral_base_address: val, ..self }),
//@ endfn
//@ fn svd-encoder/src/config.rs Config::peripheral_sorting -> r
    ensures r == (Config { peripheral_sorting: val, ..self }),
//@ endfn
//@ fn svd-encoder/src/config.rs Config::address_block_offset -> r
    ensures r == (Config { address_block_offset: val, ..self }),
//@ endfn
//@ fn svd-encoder/src/config.rs Config::address_block_size -> r
    ensures r == (Config { address_block_size: val, ..self }),
//@ endfn
//@ fn svd-encoder/src/config.rs Config::interrupt_name -> r
    ensures r == (Config { interrupt_name: val, ..self }),
//@ endfn
//@ fn svd-encoder/src/config.rs Config::cluster_name -> r
    ensures r == (Config { cluster_name: val, ..self }),
//@ endfn
//@ fn svd-encoder/src/config.rs Config::cluster_address_offset -> r
    ensures r == (Config { cluster_address_offset: val, ..self }),
//@ endfn
//@ fn svd-encoder/src/config.rs Config::register_cluster_sorting -> r
    ensures r == (Config { register_cluster_sorting: val, ..self }),
//@ endfn
//@ fn svd-encoder/src/config.rs Config::register_name -> r
    ensures r == (Config { register_name: val, ..self }),
//@ endfn
//@ fn svd-encoder/src/config.rs Config::register_address_offset -> r
    ensures r == (Config { register_address_offset: val, ..self }),
//@ endfn
//@ fn svd-encoder/src/config.rs Config::register_size -> r
    ensures r == (Config { register_size: val, ..self }),
//@ endfn
//@ fn svd-encoder/src/config.rs Config::register_reset_value -> r
    ensures r == (Config { register_reset_value: val, ..self }),
//@ endfn
//@ fn svd-encoder/src/config.rs Config::register_reset_mask -> r
    ensures r == (Config { register_reset_mask: val, ..self }),
//@ endfn
//@ fn svd-encoder/src/config.rs Config::field_name -> r
    ensures r == (Config { field_name: val, ..self }),
//@ endfn
//@ fn svd-encoder/src/config.rs Config::field_bit_range -> r
    ensures r == (Config { field_bit_range: val, ..self }),
//@ endfn
//@ fn svd-encoder/src/config.rs Config::field_sorting -> r
    ensures r == (Config { field_sorting: val, ..self }),
//@ endfn
//@ fn svd-encoder/src/config.rs Config::enumerated_values_name -> r
    ensures r == (Config { enumerated_values_name: val, ..self }),
//@ endfn
//@ fn svd-encoder/src/config.rs Config::enumerated_value_name -> r
    ensures r == (Config { enumerated_value_name: val, ..self }),
//@ endfn
//@ fn svd-encoder/src/config.rs Config::enumerated_value_value -> r
    ensures r == (Config { enumerated_value_value: val, ..self }),
//@ endfn
//@ fn svd-encoder/src/config.rs Config::dim_dim -> r
    ensures r == (Config { dim_dim: val, ..self }),
//@ endfn
//@ fn svd-encoder/src/config.rs Config::dim_increment -> r
    ensures r == (Config { dim_increment: val, ..self }),
//@ endfn
