// C01: bit ranges and their `[msb:lsb]` text.
//@ include common.rs
//@ include brspec.rs
//@ fn svd-rs/src/bitrange.rs BitRange::lsb -> r
    ensures r == self.offset,
//@ endfn
//@ fn svd-rs/src/bitrange.rs BitRange::msb -> r
    ensures br_ok(*self) ==> r == self.offset + self.width - 1,
//@ endfn
//@ fn svd-rs/src/bitrange.rs BitRange::bit_range -> r
    ensures br_ok(*self) ==> r@ == br_text((self.offset + self.width - 1) as nat, self.offset as nat),
//@ end
//@ endfn
//@ fn svd-rs/src/bitrange.rs BitRange::from_offset_width -> r
    ensures r == (BitRange { offset, width, range_type: BitRangeType::OffsetWidth }),
//@ endfn
//@ fn svd-rs/src/bitrange.rs BitRange::from_msb_lsb -> r
    requires msb >= lsb, msb - lsb < u32::MAX,
    ensures Some(r) == br_span(msb, lsb, BitRangeType::MsbLsb),
//@ endfn
//@ fn svd-rs/src/bitrange.rs BitRange::from_bit_range -> r
    ensures r == br_read(text@),
//@ start
    broadcast use crate::spec::lemma_utf8_inj_b, crate::ax::vx_axioms_text, crate::ax::vx_axioms_str;
    proof {
        if text@.len() >= 2 && text@[0] == '[' && text@.last() == ']' { lemma_br_slice(text@); lemma_split_len(text@.subrange(1, text@.len() - 1), ':'); }
        if text@.len() == 1 && text@[0] == '[' && text@.last() == ']' { assert(false); }
        if text@.len() >= 2 {
            let t = text@.skip(1);
            assert(t.take(t.len() - 1) =~= text@.subrange(1, text@.len() - 1));
            assert(t.last() == text@.last());
            let inner = text@.subrange(1, text@.len() - 1);
            assert forall|a: Seq<char>, m: Seq<char>, b: Seq<char>| inner == #[trigger] (a + m + b) && m.len() == 1 && m[0] == ':' && split_char(a, ':') == seq![a]
                implies split_char(inner, ':') == seq![a] + split_char(b, ':')
                    && (parse_spec::<u32>(b) is Some ==> split_char(b, ':') == seq![b])
                    && (split_char(b, ':').len() == 1 ==> split_char(b, ':') == seq![b])
            by { lemma_br_once(inner, a, m, b); }
        }
    }
//@ endfn
// the three notations name the same bits
pub fn three_notations(b: BitRange)
    requires br_ok(b),
{
    let x = BitRange::from_offset_width(b.offset, b.width);
    let t = b.bit_range();
    let z = BitRange::from_bit_range(t.as_str());
    proof { lemma_br_round(b); }
    assert(z is Some && z->0.offset == x.offset && z->0.width == x.width);
    let m = x.msb();
    let l = x.lsb();
    let y = BitRange::from_msb_lsb(m, l);
    assert(y.offset == x.offset && y.width == x.width);
}
