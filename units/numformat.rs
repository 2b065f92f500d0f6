// C11: the texts of numbers, and that they read back.
//@ include numspec.rs
//@ module spec
// ---------------------------------------------------------------- every text reads back as the number it was written from
pub proof fn lemma_zeros(d: Seq<char>, k: nat, radix: nat)
    requires 2 <= radix <= 36, num(d, radix) is Some,
    ensures num(zeros(k) + d, radix) == num(d, radix),
    decreases d.len() + k,
{
    let s = zeros(k) + d;
    if k == 0 { assert(s =~= d); }
    else if d.len() == 1 {
        assert(s.drop_last() =~= zeros(k));
        lemma_all_zeros(k, radix);
        assert(s.last() == d[0]);
        assert(0 * radix == 0);
    } else {
        assert(s.drop_last() =~= zeros(k) + d.drop_last());
        lemma_zeros(d.drop_last(), k, radix);
    }
}
pub proof fn lemma_all_zeros(k: nat, radix: nat)
    requires k > 0, 2 <= radix <= 36,
    ensures num(zeros(k), radix) == Some(0nat),
    decreases k,
{
    let s = zeros(k);
    assert(digit('0', radix) == Some(0nat));
    if k > 1 {
        assert(s.drop_last() =~= zeros((k - 1) as nat));
        lemma_all_zeros((k - 1) as nat, radix);
        assert(0 * radix == 0);
    }
}
pub proof fn lemma_hex(n: nat, upper: bool, w: nat)
    ensures number(hex(n, upper, w)) == Some(n),
{
    let d = digits(n, 16, upper);
    let p = padded(d, w);
    lemma_digits(n, 16, upper);
    if d.len() < w { lemma_zeros(d, (w - d.len()) as nat, 16); assert(p[0] == '0'); } else { assert(p[0] == d[0]); }
    reveal_strlit("0x");
    let s = hex(n, upper, w);
    assert(s.skip(2) =~= p);
    assert(s.subrange(0, 2) =~= "0x"@);
    assert("0x"@.is_prefix_of(s));
}
pub proof fn lemma_reads_back(n: nat, f: NumberFormat)
    ensures number(number_text(n, f)) == Some(n),
{
    let s = number_text(n, f);
    reveal_strlit("0x"); reveal_strlit("0X"); reveal_strlit("#"); reveal_strlit("0b");
    match f {
        NumberFormat::UpperHex => lemma_hex(n, true, 0),
        NumberFormat::UpperHex8 => lemma_hex(n, true, 8),
        NumberFormat::UpperHex16 => lemma_hex(n, true, width16(n)),
        NumberFormat::LowerHex => lemma_hex(n, false, 0),
        NumberFormat::LowerHex8 => lemma_hex(n, false, 8),
        NumberFormat::LowerHex16 => lemma_hex(n, false, width16(n)),
        NumberFormat::Dec => {
            lemma_digits(n, 10, false);
            assert forall|i: int| 0 <= i < s.len() implies digit(#[trigger] s[i], 10) is Some by {}
            // no prefix of the other notations: their second character is not a decimal digit
            if s.len() > 1 { assert(digit(s[1], 10) is Some); }
            if "0x"@.is_prefix_of(s) { assert(s.subrange(0, 2)[1] == 'x'); }
            if "0X"@.is_prefix_of(s) { assert(s.subrange(0, 2)[1] == 'X'); }
            if "#"@.is_prefix_of(s) { assert(s.subrange(0, 1)[0] == '#'); assert(digit(s[0], 10) is Some); }
            if "0b"@.is_prefix_of(s) { assert(s.subrange(0, 2)[1] == 'b'); }
        }
        NumberFormat::Bin => {
            lemma_digits(n, 2, false);
            let d = digits(n, 2, false);
            assert(s.skip(2) =~= d);
            assert(s.subrange(0, 2) =~= "0b"@);
            assert(s[0] == '0' && s[1] == 'b');
            if "0x"@.is_prefix_of(s) { assert(s.subrange(0, 2)[1] == 'x'); }
            if "0X"@.is_prefix_of(s) { assert(s.subrange(0, 2)[1] == 'X'); }
            if "#"@.is_prefix_of(s) { assert(s.subrange(0, 1)[0] == '#'); }
            assert(bin_care(d) =~= d) by {
                assert forall|i: int| 0 <= i < d.len() implies #[trigger] bin_care(d)[i] == d[i] by { assert(digit(d[i], 2) is Some); }
            }
        }
    }
}
// the prefix, digit case and width each format name promises
pub open spec fn upper_hex(c: char) -> bool { '0' <= c <= '9' || 'A' <= c <= 'F' }
pub open spec fn lower_hex(c: char) -> bool { '0' <= c <= '9' || 'a' <= c <= 'f' }
pub proof fn lemma_case(n: nat, upper: bool)
    ensures forall|i: int| 0 <= i < digits(n, 16, upper).len() ==> if upper { upper_hex(#[trigger] digits(n, 16, upper)[i]) } else { lower_hex(digits(n, 16, upper)[i]) },
    decreases n,
{
    let d = digits(n, 16, upper);
    if n >= 16 {
        lemma_case(n / 16, upper);
        let r = digits(n / 16, 16, upper);
        assert forall|i: int| 0 <= i < d.len() implies if upper { upper_hex(#[trigger] d[i]) } else { lower_hex(d[i]) } by {
            if i < r.len() { assert(d[i] == r[i]); } else { assert(d[i] == digit_char(n % 16, upper)); }
        }
    } else { assert(d[0] == digit_char(n, upper)); }
}
pub proof fn lemma_shape(n: nat, upper: bool, w: nat)
    ensures
        hex(n, upper, w).len() >= 2 + w,
        hex(n, upper, w)[0] == '0' && hex(n, upper, w)[1] == 'x',
        forall|i: int| 2 <= i < hex(n, upper, w).len() ==> if upper { upper_hex(#[trigger] hex(n, upper, w)[i]) } else { lower_hex(hex(n, upper, w)[i]) },
        digits(n, 16, upper).len() >= w ==> hex(n, upper, w) == hex(n, upper, 0),
{
    lemma_case(n, upper);
    lemma_digits(n, 16, upper);
    let p = padded(digits(n, 16, upper), w);
    assert forall|i: int| 2 <= i < hex(n, upper, w).len() implies if upper { upper_hex(#[trigger] hex(n, upper, w)[i]) } else { lower_hex(hex(n, upper, w)[i]) } by {
        assert(hex(n, upper, w)[i] == p[i - 2]);
        if digits(n, 16, upper).len() < w && i - 2 >= w - digits(n, 16, upper).len() { assert(p[i - 2] == digits(n, 16, upper)[i - 2 - (w - digits(n, 16, upper).len())]); }
    }
}
//@ module spec
// a 32 bit and a 64 bit number, written and read
pub fn write_u32(v: u32, f: NumberFormat) -> (r: String)
    ensures fit(number(r@), u32::MAX as nat) == Some(v as nat),
{
    proof { lemma_reads_back(v as nat, f); }
    crate::encoder::config::format_number(v, f)
}
pub fn write_u64(v: u64, f: NumberFormat) -> (r: String)
    ensures fit(number(r@), u64::MAX as nat) == Some(v as nat),
{
    broadcast use crate::ax::vx_axioms;
    proof { lemma_reads_back(v as nat, f); }
    crate::encoder::config::format_number(v, f)
}
