//@ include validate_level.rs
// needs at most `size` bits: below 2^size
pub open spec fn fits(value: u64, size: u32) -> bool {
    size >= 64 || (value as nat) < vstd::arithmetic::power2::pow2(size as nat)
}
pub open spec fn rp_ok_parts(size: Option<u32>, value: Option<u64>, mask: Option<u64>, lvl: ValidateLevel) -> Result<(), crate::svd::registerproperties::Error> {
    if size is Some && value is Some && !fits(value->0, size->0) {
        Err(crate::svd::registerproperties::Error::ValueTooLarge(value->0, size->0))
    } else if strict(lvl) && size is Some && mask is Some && !fits(mask->0, size->0) {
        Err(crate::svd::registerproperties::Error::MaskTooLarge(mask->0, size->0))
    } else if strict(lvl) && value is Some && mask is Some && (value->0 & mask->0) != value->0 {
        Err(crate::svd::registerproperties::Error::MaskConflict(value->0, mask->0))
    } else {
        Ok(())
    }
}
pub open spec fn rp_valid(p: RegisterProperties, lvl: ValidateLevel) -> Result<(), SvdError> {
    if lvl == ValidateLevel::Disabled { Ok(()) } else {
        match rp_ok_parts(p.size, p.reset_value, p.reset_mask, lvl) {
            Ok(_) => Ok(()),
            Err(e) => Err(SvdError::RegisterProperties(e)),
        }
    }
}
pub open spec fn rp_modified(p: RegisterProperties, b: RegisterProperties) -> RegisterProperties {
    RegisterProperties {
        size: if b.size is Some { b.size } else { p.size },
        access: if b.access is Some { b.access } else { p.access },
        protection: if b.protection is Some { b.protection } else { p.protection },
        reset_value: if b.reset_value is Some { b.reset_value } else { p.reset_value },
        reset_mask: if b.reset_mask is Some { b.reset_mask } else { p.reset_mask },
    }
}
pub proof fn lemma_bits(v: u64)
    ensures
        forall|s: u32| (64 - (#[trigger] vstd::std_specs::bits::u64_leading_zeros(v)) > s) <==> !#[trigger] fits(v, s),
{
    assert forall|s: u32| (64 - (#[trigger] vstd::std_specs::bits::u64_leading_zeros(v)) > s) <==> !#[trigger] fits(v, s) by {
        lemma_bits1(v, s);
    }
}
pub proof fn lemma_bits1(v: u64, s: u32)
    ensures (64 - vstd::std_specs::bits::u64_leading_zeros(v) > s) <==> !fits(v, s),
{
    broadcast use vstd::std_specs::bits::group_bits_axioms;
    vstd::std_specs::bits::axiom_u64_leading_zeros(v);
    let lz = vstd::std_specs::bits::u64_leading_zeros(v);
    if s < 64 {
        let k = s as u64;
        vstd::bits::lemma_u64_pow2_no_overflow(k as nat);
        vstd::bits::lemma_u64_shl_is_mul(1, k);
        // v < 2^s  <==>  v >> s == 0
        assert((v < (1u64 << k)) <==> (v >> k) == 0) by (bit_vector) requires k < 64;
        if v == 0 {
        } else {
            let t = (63 - lz) as u64;
            assert((v >> t) & 1u64 != 0u64);
            if t >= k {
                assert((v >> k) != 0) by (bit_vector) requires (v >> t) & 1u64 != 0u64, t >= k, t < 64;
            } else {
                let u = (t + 1) as u64;
                assert(v >> u == 0);
                assert((v >> k) == 0) by (bit_vector) requires v >> u == 0, u <= k, k < 64;
            }
        }
    }
}
//@ fn svd-rs/src/registerproperties.rs check_reset_value -> r
    ensures r == rp_ok_parts(size, value, mask, lvl),
//@ start
    proof {
        if value is Some { lemma_bits(value->0); } if mask is Some { lemma_bits(mask->0); }
        // the same test written otherwise
        if value is Some && mask is Some {
            let v = value->0; let m = mask->0;
            assert((v & m == v) == (v & !m == 0)) by (bit_vector);
            assert((v & m == v) == (!m & v == 0)) by (bit_vector);
            assert((v & m == v) == (m & v == v)) by (bit_vector);
            assert((v & m == v) == (v | m == m)) by (bit_vector);
            assert((v & m == v) == (m | v == m)) by (bit_vector);
        }
    }
//@ endfn
//@ fn svd-rs/src/registerproperties.rs RegisterProperties::validate -> r
    ensures r == rp_valid(*self, lvl),
//@ endfn
//@ fn svd-rs/src/registerproperties.rs RegisterProperties::build -> r
    ensures
        rp_valid(self, lvl) is Ok ==> r == Ok::<RegisterProperties, SvdError>(self),
        rp_valid(self, lvl) matches Err(e) ==> r == Err::<RegisterProperties, SvdError>(e),
//@ endfn
//@ fn svd-rs/src/registerproperties.rs RegisterProperties::modify_from -> r
    ensures
        *final(self) == rp_modified(*old(self), builder),
        r == rp_valid(rp_modified(*old(self), builder), lvl),
//@ endfn
//@ fn svd-rs/src/registerproperties.rs RegisterProperties::size -> r
    ensures r == (RegisterProperties { size: value, ..self }),
//@ endfn
//@ fn svd-rs/src/registerproperties.rs RegisterProperties::access -> r
    ensures r == (RegisterProperties { access: value, ..self }),
//@ endfn
//@ fn svd-rs/src/registerproperties.rs RegisterProperties::protection -> r
    ensures r == (RegisterProperties { protection: value, ..self }),
//@ endfn
//@ fn svd-rs/src/registerproperties.rs RegisterProperties::reset_value -> r
    ensures r == (RegisterProperties { reset_value: value, ..self }),
//@ endfn
//@ fn svd-rs/src/registerproperties.rs RegisterProperties::reset_mask -> r
    ensures r == (RegisterProperties { reset_mask: value, ..self }),
//@ endfn
//@ fn svd-rs/src/registerproperties.rs RegisterProperties::new -> r
    ensures r == (RegisterProperties { size: None, access: None, protection: None, reset_value: None, reset_mask: None }),
//@ endfn
