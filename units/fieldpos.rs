// C02: the position of a field element.
//@ include numbers.rs
//@ include brspec.rs
//@ module spec
pub open spec fn br_off_width(o: u32, w: u32) -> Option<BitRange> {
    if o + w <= 0x1_0000_0000 { Some(BitRange { offset: o, width: w, range_type: BitRangeType::OffsetWidth }) } else { None }
}
impl Reads for BitRange {
    type Object = BitRange;
    type Config = Config;
    open spec fn reads(x: X, c: Config) -> Option<BitRange> {
        if child(x, "bitRange"@) is Some {
            match child(x, "bitRange"@)->0.text { Some(t) => br_read(t), None => None }
        } else if child(x, "lsb"@) is Some && child(x, "msb"@) is Some {
            match (child_reads::<u32>(x, "msb"@, ()), child_reads::<u32>(x, "lsb"@, ())) {
                (Some(m), Some(l)) => br_span(m, l, BitRangeType::MsbLsb),
                _ => None,
            }
        } else {
            match (child_reads::<u32>(x, "bitOffset"@, ()), child_reads::<u32>(x, "bitWidth"@, ())) {
                (Some(o), Some(w)) => br_off_width(o, w),
                _ => None,
            }
        }
    }
}
//@ fn svd-parser/src/bitrange.rs <BitRange as Parse>::parse as-trait -> r
//@ opt result
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<BitRange>) -> bool { r == <BitRange as Reads>::reads(x, c) }
//@ start
    broadcast use crate::spec::lemma_utf8_inj_b, crate::ax::vx_axioms_text, crate::ax::vx_axioms_str;
    proof {
        if child(tree.x(), "bitRange"@) is Some && child(tree.x(), "bitRange"@)->0.text is Some {
            let text = child(tree.x(), "bitRange"@)->0.text->0;
            if text.len() >= 2 && text[0] == '[' && text.last() == ']' { lemma_br_slice(text); lemma_split_len(text.subrange(1, text.len() - 1), ':'); }
        }
    }
//@ endfn
