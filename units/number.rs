// Shared: what a text means as a number or a boolean in an SVD file.
//@ module spec
// a binary number whose don't-care digits count as 0
pub open spec fn bin_care(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| if c == 'x' || c == 'X' { '0' } else { c }) }
// the number a text denotes
pub open spec fn number(s: Seq<char>) -> Option<nat> {
    if "0x"@.is_prefix_of(s) || "0X"@.is_prefix_of(s) { rust_uint(s.skip(2), 16) }
    else if "#"@.is_prefix_of(s) { rust_uint(bin_care(s.skip(1)), 2) }
    else if "0b"@.is_prefix_of(s) { rust_uint(bin_care(s.skip(2)), 2) }
    else { rust_uint(s, 10) }
}
pub open spec fn boolean(s: Seq<char>) -> Option<bool> {
    if s == "0"@ || s == "false"@ { Some(false) } else if s == "1"@ || s == "true"@ { Some(true) } else { None }
}
