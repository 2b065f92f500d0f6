// C07: bit masks of fields, field arrays and registers.
//@ include iters.rs
//@ module spec
pub open spec fn bit(m: u64, k: int) -> bool { (m >> (k as u64)) & 1 == 1 }
// the bits of a field that starts at bit o
pub open spec fn in_bits(o: int, w: int, k: int) -> bool { o <= k < o + w }
pub open spec fn fits64(f: FieldInfo) -> bool { f.bit_range.width >= 1 && f.bit_range.offset + f.bit_range.width <= 64 }
pub open spec fn elem_offset(f: FieldInfo, d: DimElement, i: int) -> int { f.bit_range.offset + i * d.dim_increment }
pub open spec fn field_fits(f: Field) -> bool {
    match f {
        MaybeArray::Single(f) => fits64(f),
        MaybeArray::Array(f, d) => fits64(f) && forall|i: int| 0 <= i < d.dim ==> (#[trigger] elem_offset(f, d, i)) + f.bit_range.width <= 64,
    }
}
// bit k belongs to the field or to one of the array's elements
pub open spec fn field_bit(f: Field, k: int) -> bool {
    match f {
        MaybeArray::Single(f) => in_bits(f.bit_range.offset as int, f.bit_range.width as int, k),
        MaybeArray::Array(f, d) => exists|i: int| 0 <= i < d.dim && in_bits(#[trigger] elem_offset(f, d, i), f.bit_range.width as int, k),
    }
}
pub proof fn lemma_mask(o: u32, w: u32)
    requires 1 <= w, o + w <= 64,
    ensures
        forall|k: int| 0 <= k < 64 ==> (#[trigger] bit((!0u64 >> (64 - w) as u32) << o, k) <==> in_bits(o as int, w as int, k)),
        !0u64 == u64::MAX,
        w < 64 ==> 1u64 << w >= 1 && ((1u64 << w) - 1) as u64 == !0u64 >> (64 - w) as u32,
{
    assert(!0u64 == u64::MAX) by (bit_vector);
    if w < 64 {
        let p = (64 - w) as u32;
        assert(1u64 << w >= 1 && sub(1u64 << w, 1) == !0u64 >> p) by (bit_vector) requires w >= 1, w < 64, p == 64 - w;
    }
    assert forall|k: int| 0 <= k < 64 implies (#[trigger] bit((!0u64 >> (64 - w) as u32) << o, k) <==> in_bits(o as int, w as int, k)) by {
        let j = k as u64;
        let p = (64 - w) as u32;
        assert(((((!0u64 >> p) << o) >> j) & 1 == 1) <==> (o as u64 <= j && j < o as u64 + w as u64)) by (bit_vector)
            requires 1 <= w, w <= 64, o <= 63, (o as u64) + (w as u64) <= 64, j < 64, p == 64 - w;
    }
}
pub proof fn lemma_shift(m: u64, s: u32)
    requires s < 64,
    ensures forall|k: int| 0 <= k < 64 ==> (#[trigger] bit(m << s, k) <==> k >= s && bit(m, k - s)),
{
    assert forall|k: int| 0 <= k < 64 implies (#[trigger] bit(m << s, k) <==> k >= s && bit(m, k - s)) by {
        let j = k as u64;
        let l = (k - s) as u64;
        if k >= s {
            assert(((m << s) >> j) & 1 == (m >> l) & 1) by (bit_vector) requires s < 64, j < 64, j >= s, l == j - s as u64;
        } else {
            assert(((m << s) >> j) & 1 == 0) by (bit_vector) requires s < 64, j < s;
        }
    }
}
pub proof fn lemma_or(a: u64, b: u64)
    ensures forall|k: int| 0 <= k < 64 ==> (#[trigger] bit(a | b, k) <==> bit(a, k) || bit(b, k)),
{
    assert forall|k: int| 0 <= k < 64 implies (#[trigger] bit(a | b, k) <==> bit(a, k) || bit(b, k)) by {
        let j = k as u64;
        assert((((a | b) >> j) & 1 == 1) <==> ((a >> j) & 1 == 1) || ((b >> j) & 1 == 1)) by (bit_vector) requires j < 64;
    }
}
pub proof fn lemma_or_all(a: u64)
    ensures forall|b: u64, k: int| 0 <= k < 64 ==> (#[trigger] bit(a | b, k) <==> bit(a, k) || bit(b, k)),
{
    assert forall|b: u64, k: int| 0 <= k < 64 implies (#[trigger] bit(a | b, k) <==> bit(a, k) || bit(b, k)) by { lemma_or(a, b); }
}
pub proof fn lemma_zero()
    ensures forall|k: int| 0 <= k < 64 ==> !#[trigger] bit(0, k),
{
    assert forall|k: int| 0 <= k < 64 implies !#[trigger] bit(0, k) by {
        let j = k as u64;
        assert((0u64 >> j) & 1 == 0) by (bit_vector) requires j < 64;
    }
}
//@ fn svd-rs/src/field.rs FieldInfo::bitmask -> r
    requires fits64(*self),
    ensures forall|k: int| 0 <= k < 64 ==> (#[trigger] bit(r, k) <==> in_bits(self.bit_range.offset as int, self.bit_range.width as int, k)),
//@ start
    proof { lemma_mask(self.bit_range.offset, self.bit_range.width); }
//@ endfn
//@ fn svd-rs/src/field.rs Field::bitmask -> r
    requires field_fits(*self),
    ensures forall|k: int| 0 <= k < 64 ==> (#[trigger] bit(r, k) <==> field_bit(*self, k)),
//@ loop 0
    invariant
        *self == MaybeArray::Array(*f, *d),
        field_fits(*self),
        forall|k: int| 0 <= k < 64 ==> (#[trigger] bit(mask, k) <==> in_bits(f.bit_range.offset as int, f.bit_range.width as int, k)),
        forall|k: int| 0 <= k < 64 ==> (#[trigger] bit(bits, k) <==> exists|j: int| 0 <= j < i && in_bits(#[trigger] elem_offset(*f, *d, j), f.bit_range.width as int, k)),
//@ start
    proof { lemma_zero(); }
//@ loopstart 0
    let ghost bits0 = bits;
    assert(elem_offset(*f, *d, i as int) + f.bit_range.width <= 64);
    proof { lemma_shift(mask, (i * d.dim_increment) as u32); lemma_or(bits0, mask << (i * d.dim_increment) as u32); }
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfo::bitmask -> r
    requires forall|i: int| 0 <= i < fields_of(*self).len() ==> field_fits(#[trigger] fields_of(*self)[i]),
    ensures forall|k: int| 0 <= k < 64 ==> (#[trigger] bit(r, k) <==> exists|i: int| 0 <= i < fields_of(*self).len() && field_bit(#[trigger] fields_of(*self)[i], k)),
//@ opt fold-loop u64
//@ find 0
    let ghost full = vx_f.remaining();
    let ghost fs = fields_of(*self);
    assert forall|j: int| 0 <= j < fs.len() implies #[trigger] fs[j] == *full[j] by { assert(vals(full)[j] == *full[j]); }
    proof { lemma_zero(); }
//@ loop 0
    invariant_except_break
        it_on(&vx_f, full),
        forall|k: int| 0 <= k < 64 ==> (#[trigger] bit(vx_r, k) <==> exists|i: int| 0 <= i < it_pos(&vx_f, full) && field_bit(#[trigger] fs[i], k)),
    invariant
        full.len() == fs.len(),
        forall|i: int| 0 <= i < full.len() ==> *(#[trigger] full[i]) == fs[i],
        forall|i: int| 0 <= i < fs.len() ==> field_fits(#[trigger] fs[i]),
    ensures
        forall|k: int| 0 <= k < 64 ==> (#[trigger] bit(vx_r, k) <==> exists|i: int| 0 <= i < fs.len() && field_bit(#[trigger] fs[i], k)),
    decreases it_dec(&vx_f)
//@ loopstart 0
    let ghost pos = it_pos(&vx_f, full);
    assert(*f == fs[pos - 1]);
    let ghost r0 = vx_r;
    proof { lemma_or_all(r0); }
//@ loopend 0
    assert forall|k: int| 0 <= k < 64 implies (#[trigger] bit(vx_r, k) <==> exists|i: int| 0 <= i < pos && field_bit(#[trigger] fs[i], k)) by {
    }
//@ endfn
