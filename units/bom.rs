// C26: a byte-order mark in front of the document.
//@ include text.rs
//@ module spec
pub open spec fn without_bom(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '\u{feff}' { s.drop_first() } else { s } }
pub open spec fn bom() -> Seq<u8> { seq![0xefu8, 0xbbu8, 0xbfu8] }
// the first three bytes of a text are ef bb bf exactly when its first character is U+FEFF
pub proof fn lemma_bom(s: Seq<char>)
    ensures
        s.len() > 0 && s[0] == '\u{feff}' ==> bom().is_prefix_of(encode_utf8(s)) && blen(s) >= 3
            && is_char_boundary(encode_utf8(s), 3) && is_char_boundary(encode_utf8(s), blen(s) as int)
            && encode_utf8(s).subrange(3, blen(s) as int) == encode_utf8(s.drop_first()),
        bom().is_prefix_of(encode_utf8(s)) ==> s.len() > 0 && s[0] == '\u{feff}',
{
    broadcast use vstd::utf8::group_utf8_lib;
    if s.len() > 0 {
        encode_utf8_first_scalar(s);
        lemma_sub(s, 1, s.len() as int);
        lemma_cut(s, 1);
        assert(s.take(s.len() as int) == s && s.subrange(1, s.len() as int) == s.drop_first());
        assert(s.take(1) =~= seq![s[0]]);
        assert(s.take(1).drop_first() =~= Seq::<char>::empty());
        assert(encode_utf8(s.take(1)) =~= encode_scalar(s[0] as u32));
        assert(encode_scalar(0xfeffu32) =~= bom()) by (compute);
        let b = encode_utf8(s);
        if bom().is_prefix_of(b) {
            assert(b[0] == 0xefu8 && b[1] == 0xbbu8 && b[2] == 0xbfu8);
            assert(is_leading_byte_width_3(0xefu8) && !is_leading_byte_width_1(0xefu8) && !is_leading_byte_width_2(0xefu8)) by (compute);
            assert(codepoint_width_3(0xefu8, 0xbbu8, 0xbfu8) == 0xfeff) by (compute);
            assert(decode_first_codepoint(b) == 0xfeff);
        }
    }
}
//@ module parser
use crate::spec::*;
use vstd::string::StringSliceAdditionalSpecFns;
//@ fn svd-parser/src/lib.rs trim_utf8_bom -> r
    ensures r@ == without_bom(s@),
//@ start
    broadcast use {crate::spec::lemma_utf8_inj_b, crate::ax::vx_axioms_text, crate::ax::vx_axioms_str};
    proof {
        lemma_bom(s@);
        assert(s@.len() > 0 ==> s@.skip(1) =~= s@.drop_first());
        let b = s.spec_bytes();
        assert(bom().is_prefix_of(b) <==> b.len() >= 3 && b[0] == 0xefu8 && b[1] == 0xbbu8 && b[2] == 0xbfu8);
    }
//@ endfn
