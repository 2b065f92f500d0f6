// C24: what the encoder writes.
//@ include numspec.rs
//@ include keywords.rs
//@ include sort.rs
//@ include bitrange.rs
//@ include dimprint.rs
//@ include encspec.rs
//@ noext encoder
//@ module encoder
use crate::encoder::config::*;
pub struct EncodeError;
//@ module spec
use crate::encoder::config::*;
// writes everything as it is: no renaming, no sorting, the field's own notation
pub open spec fn plain(c: Config) -> bool {
    &&& c.peripheral_name is None && c.interrupt_name is None && c.cluster_name is None && c.register_name is None && c.field_name is None
    &&& c.enumerated_values_name is None && c.enumerated_value_name is None && c.dim_array_index_header_enum_name is None
    &&& c.field_bit_range is None
    &&& c.peripheral_sorting == DerivableSorting::Unchanged(None) && c.field_sorting == DerivableSorting::Unchanged(None)
    &&& c.register_cluster_sorting == RcSorting::Unchanged(DerivableSorting::Unchanged(None))
}
//@ fn svd-encoder/src/config.rs <DerivableSorting as Default>::default as-trait -> r
    ensures r == DerivableSorting::Unchanged(None),
//@ endfn
//@ fn svd-encoder/src/config.rs <RcSorting as Default>::default as-trait -> r
    ensures r == RcSorting::Unchanged(DerivableSorting::Unchanged(None)),
//@ endfn
//@ fn svd-encoder/src/config.rs <Config as Default>::default as-trait -> r
    ensures plain(r),
//@ endfn
//@ module encoder
//@ fn svd-encoder/src/lib.rs new_node -> r
    ensures node(r) == leaf(name, text@),
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ endfn
//@ fn svd-encoder/src/lib.rs trait Encode::encode -> r
    requires self.enc_ok(),
    ensures r matches Ok(e) && exists|c: Config| plain(c) && el(e) == self.enc(c),
//@ impltext
    spec fn enc(&self, c: Config) -> XN;
    spec fn enc_ok(&self) -> bool;
    fn encode_with_config(&self, config: &Config) -> (r: Result<Element, Self::Error>)
        requires self.enc_ok(),
        ensures r matches Ok(e) && el(e) == self.enc(*config);
//@ endfn
//@ fn svd-encoder/src/lib.rs trait Encode::encode_node -> r
    requires self.enc_ok(),
    ensures r matches Ok(n) && exists|c: Config| plain(c) && node(n) == XK::El(self.enc(c)),
//@ endfn
//@ fn svd-encoder/src/lib.rs trait Encode::encode_node_with_config -> r
    requires self.enc_ok(),
    ensures r matches Ok(n) && node(n) == XK::El(self.enc(*config)),
//@ endfn
//@ fn svd-encoder/src/access.rs <Access as Encode>::encode_with_config as-trait -> r
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { leaf_n("access", self.kw()) }
    open spec fn enc_ok(&self) -> bool { true }
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ endfn
//@ fn svd-encoder/src/addressblock.rs <AddressBlockUsage as Encode>::encode_with_config as-trait -> r
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { leaf_n("usage", self.kw()) }
    open spec fn enc_ok(&self) -> bool { true }
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ endfn
//@ fn svd-encoder/src/datatype.rs <DataType as Encode>::encode_with_config as-trait -> r
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { leaf_n("dataType", self.kw()) }
    open spec fn enc_ok(&self) -> bool { true }
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ endfn
//@ fn svd-encoder/src/endian.rs <Endian as Encode>::encode_with_config as-trait -> r
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { leaf_n("endian", self.kw()) }
    open spec fn enc_ok(&self) -> bool { true }
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ endfn
//@ fn svd-encoder/src/modifiedwritevalues.rs <ModifiedWriteValues as Encode>::encode_with_config as-trait -> r
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { leaf_n("modifiedWriteValues", self.kw()) }
    open spec fn enc_ok(&self) -> bool { true }
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ endfn
//@ fn svd-encoder/src/protection.rs <Protection as Encode>::encode_with_config as-trait -> r
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { leaf_n("protection", self.kw()) }
    open spec fn enc_ok(&self) -> bool { true }
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ endfn
//@ fn svd-encoder/src/readaction.rs <ReadAction as Encode>::encode_with_config as-trait -> r
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { leaf_n("readAction", self.kw()) }
    open spec fn enc_ok(&self) -> bool { true }
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ endfn
//@ fn svd-encoder/src/usage.rs <Usage as Encode>::encode_with_config as-trait -> r
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { leaf_n("usage", self.kw()) }
    open spec fn enc_ok(&self) -> bool { true }
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ endfn
//@ module spec
// ---------------------------------------------------------------- what each element is written as
pub open spec fn enc_cpu(v: Cpu) -> XN {
    let k = Seq::<XK>::empty().push(leaf("name", v.name@)).push(leaf("revision", v.revision@)).push(leaf("endian", v.endian.kw()))
        .push(leaf("mpuPresent", v.mpu_present.disp())).push(leaf("fpuPresent", v.fpu_present.disp()));
    let k = with(k, "fpuDP", btxt(v.fpu_double_precision));
    let k = with(k, "dspPresent", btxt(v.dsp_present));
    let k = with(k, "icachePresent", btxt(v.icache_present));
    let k = with(k, "dcachePresent", btxt(v.dcache_present));
    let k = with(k, "itcmPresent", btxt(v.itcm_present));
    let k = with(k, "dtcmPresent", btxt(v.dtcm_present));
    let k = with(k, "vtorPresent", btxt(v.vtor_present));
    let k = k.push(leaf("nvicPrioBits", dec(v.nvic_priority_bits as nat)));
    let k = k.push(leaf("vendorSystickConfig", v.has_vendor_systick.disp()));
    let k = with(k, "deviceNumInterrupts", dtxt(v.device_num_interrupts));
    let k = with(k, "sauNumRegions", dtxt(v.sau_num_regions));
    xn("cpu", k)
}
//@ fn svd-encoder/src/cpu.rs <Cpu as Encode>::encode_with_config as-trait -> r
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { enc_cpu(*self) }
    open spec fn enc_ok(&self) -> bool { true }
//@ opt nolit
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ endfn
//@ module spec
pub open spec fn enc_ab(v: AddressBlock, c: Config) -> XN {
    let k = Seq::<XK>::empty().push(leaf("offset", number_text(v.offset as nat, c.address_block_offset)))
        .push(leaf("size", number_text(v.size as nat, c.address_block_size))).push(leaf("usage", v.usage.kw()));
    let k = with(k, "protection", match v.protection { Some(p) => Some(p.kw()), None => None });
    xn("addressBlock", k)
}
//@ module encoder::addressblock
use crate::encoder::config::*;
//@ fn svd-encoder/src/addressblock.rs <AddressBlock as Encode>::encode_with_config as-trait -> r
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { enc_ab(*self, c) }
    open spec fn enc_ok(&self) -> bool { true }
//@ opt nolit
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ endfn
//@ module spec
pub open spec fn enc_interrupt(v: Interrupt, c: Config) -> XN {
    let k = Seq::<XK>::empty().push(leaf("name", cased(v.name@, c.interrupt_name)));
    let k = with(k, "description", txt(v.description));
    let k = k.push(leaf("value", dec(v.value as nat)));
    xn("interrupt", k)
}
//@ module encoder::interrupt
use crate::encoder::config::*;
//@ fn svd-encoder/src/interrupt.rs <Interrupt as Encode>::encode_with_config as-trait -> r
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { enc_interrupt(*self, c) }
    open spec fn enc_ok(&self) -> bool { true }
//@ opt nolit
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ endfn
//@ module spec
pub open spec fn enc_wcr(v: WriteConstraintRange) -> XN {
    xn("range", Seq::<XK>::empty().push(leaf("minimum", dec(v.min as nat))).push(leaf("maximum", dec(v.max as nat))))
}
pub open spec fn enc_wc(v: WriteConstraint) -> XN {
    xn("writeConstraint", Seq::<XK>::empty().push(match v {
        WriteConstraint::WriteAsRead(b) => leaf("writeAsRead", b.disp()),
        WriteConstraint::UseEnumeratedValues(b) => leaf("useEnumeratedValues", b.disp()),
        WriteConstraint::Range(w) => XK::El(enc_wcr(w)),
    }))
}
//@ fn svd-encoder/src/writeconstraint.rs <WriteConstraint as Encode>::encode_with_config as-trait -> r
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { enc_wc(*self) }
    open spec fn enc_ok(&self) -> bool { true }
//@ opt nolit
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ endfn
//@ fn svd-encoder/src/writeconstraint.rs <WriteConstraintRange as Encode>::encode_with_config as-trait -> r
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { enc_wcr(*self) }
    open spec fn enc_ok(&self) -> bool { true }
//@ opt nolit
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ endfn
//@ module spec
pub open spec fn enc_br(v: BitRange, c: Config) -> Seq<XK> {
    match match c.field_bit_range { Some(f) => f.0, None => v.range_type } {
        BitRangeType::BitRange => Seq::<XK>::empty().push(leaf("bitRange", br_text((v.offset + v.width - 1) as nat, v.offset as nat))),
        BitRangeType::MsbLsb => Seq::<XK>::empty().push(leaf("lsb", dec(v.offset as nat))).push(leaf("msb", dec((v.offset + v.width - 1) as nat))),
        BitRangeType::OffsetWidth => Seq::<XK>::empty().push(leaf("bitOffset", dec(v.offset as nat))).push(leaf("bitWidth", dec(v.width as nat))),
    }
}
//@ module encoder::bitrange
use crate::encoder::config::*;
//@ fn svd-encoder/src/bitrange.rs encode_bitrange -> r
    requires br_ok(*br),
    ensures r matches Ok(v) && kids(v@) == enc_br(*br, *config),
//@ opt nolit
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ endfn
//@ module spec
pub open spec fn enc_ev(v: EnumeratedValue, c: Config) -> XN {
    let k = Seq::<XK>::empty().push(leaf("name", cased(v.name@, c.enumerated_value_name)));
    let k = with(k, "description", txt(v.description));
    let k = with(k, "value", ntxt(v.value, c.enumerated_value_value));
    let k = with(k, "isDefault", btxt(v.is_default));
    xn("enumeratedValue", k)
}
//@ module encoder::enumeratedvalue
use crate::encoder::config::*;
//@ fn svd-encoder/src/enumeratedvalue.rs <EnumeratedValue as Encode>::encode_with_config as-trait -> r
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { enc_ev(*self, c) }
    open spec fn enc_ok(&self) -> bool { true }
//@ opt nolit
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ endfn
//@ module spec
pub open spec fn ev_enc(c: Config) -> spec_fn(EnumeratedValue) -> XN { |v: EnumeratedValue| enc_ev(v, c) }
pub open spec fn enc_evs(v: EnumeratedValues, c: Config) -> XN {
    let k = with(Seq::<XK>::empty(), "name", ctxt(v.name, c.enumerated_values_name));
    let k = with(k, "usage", match v.usage { Some(u) => Some(u.kw()), None => None });
    XN { name: "enumeratedValues"@, attrs: derived_attr(v.derived_from, c.enumerated_values_name), kids: k + els(v.values@, ev_enc(c)) }
}
//@ module encoder::enumeratedvalues
use crate::encoder::config::*;
//@ fn svd-encoder/src/enumeratedvalues.rs <EnumeratedValues as Encode>::encode_with_config as-trait -> r
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { enc_evs(*self, c) }
    open spec fn enc_ok(&self) -> bool { true }
//@ opt nolit
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ beforeloop 0
    let ghost full = it.remaining();
    let ghost k0 = kids(base.children@);
    assert(k0 + els(self.values@.take(0), ev_enc(*config)) =~= k0);
    assert(self.values@.take(self.values@.len() as int) =~= self.values@);
//@ loop 0 desugar iter it
    invariant_except_break
        it_on(&it, full),
        kids(base.children@) == k0 + els(self.values@.take(it_pos(&it, full)), ev_enc(*config)),
    invariant
        full.len() == self.values@.len(), forall|i: int| 0 <= i < full.len() ==> *(#[trigger] full[i]) == self.values@[i],
        base.name@ == "enumeratedValues"@, base.attributes@ == derived_attr(self.derived_from, config.enumerated_values_name),
        self.values@.take(self.values@.len() as int) == self.values@,
    ensures
        kids(base.children@) == k0 + els(self.values@, ev_enc(*config)),
    decreases it_dec(&it)
//@ loopstart 0
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
    let ghost n = it_pos(&it, full) - 1;
    assert(*v == self.values@[n]);
    assert(k0 + els(self.values@.take(n + 1), ev_enc(*config)) =~= (k0 + els(self.values@.take(n), ev_enc(*config))).push(XK::El(enc_ev(*v, *config))));
//@ endfn
//@ module encoder
//@ fn svd-encoder/src/lib.rs trait EncodeChildren::encode -> r
    requires self.encs_ok(),
    ensures r matches Ok(v) && exists|c: Config| plain(c) && kids(v@) == self.encs(c),
//@ impltext
    spec fn encs(&self, c: Config) -> Seq<XK>;
    spec fn encs_ok(&self) -> bool;
    fn encode_with_config(&self, config: &Config) -> (r: Result<Vec<XMLNode>, Self::Error>)
        requires self.encs_ok(),
        ensures r matches Ok(v) && kids(v@) == self.encs(*config);
//@ endfn
//@ module spec
pub open spec fn enc_rp(v: RegisterProperties, c: Config) -> Seq<XK> {
    let k = with(Seq::<XK>::empty(), "size", ntxt32(v.size, c.register_size));
    let k = with(k, "access", match v.access { Some(a) => Some(a.kw()), None => None });
    let k = with(k, "protection", match v.protection { Some(p) => Some(p.kw()), None => None });
    let k = with(k, "resetValue", ntxt(v.reset_value, c.register_reset_value));
    with(k, "resetMask", ntxt(v.reset_mask, c.register_reset_mask))
}
//@ module encoder::registerproperties
use crate::encoder::config::*;
//@ fn svd-encoder/src/registerproperties.rs <RegisterProperties as EncodeChildren>::encode_with_config as-trait -> r
//@ impltext
    open spec fn encs(&self, c: Config) -> Seq<XK> { enc_rp(*self, c) }
    open spec fn encs_ok(&self) -> bool { true }
//@ opt nolit
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ endfn
//@ module ax
// walking over a map visits each of its entries
use crate::encoder::AttrMap;
pub open spec fn attr_items<'a>(m: AttrMap) -> Seq<(&'a String, &'a String)> { items_of::<(&'a String, &'a String), &'a AttrMap>(&m) }
pub broadcast axiom fn ax_items_attrs<'a>(m: &'a AttrMap)
    ensures #![trigger items_of::<(&'a String, &'a String), &'a AttrMap>(m)]
        forall|i: int| 0 <= i < (items_of::<(&'a String, &'a String), &'a AttrMap>(m)).len() ==>
            m@.contains_pair((#[trigger] items_of::<(&'a String, &'a String), &'a AttrMap>(m)[i]).0@, items_of::<(&'a String, &'a String), &'a AttrMap>(m)[i].1@),
        forall|k: Seq<char>| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < items_of::<(&'a String, &'a String), &'a AttrMap>(m).len()
            && (#[trigger] items_of::<(&'a String, &'a String), &'a AttrMap>(m)[i]).0@ == k,
;
//@ module spec
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxCloned<T>(std::marker::PhantomData<T>);
#[verifier::external]
impl<T> Iterator for VxCloned<T> { type Item = T; fn next(&mut self) -> Option<T> { unimplemented!() } }
#[verifier::external_body]
pub fn vx_cloned<'a, T: Clone>(it: core::slice::Iter<'a, T>) -> (r: VxCloned<T>)
    ensures
        items_of::<T, VxCloned<T>>(r).len() == vstd::std_specs::iter::IteratorSpec::remaining(&it).len(),
        forall|i: int| 0 <= i < items_of::<T, VxCloned<T>>(r).len() ==> cloned::<T>(*vstd::std_specs::iter::IteratorSpec::remaining(&it)[i], #[trigger] items_of::<T, VxCloned<T>>(r)[i]),
{ unimplemented!() }
pub open spec fn has_key(s: Seq<(&String, &String)>, n: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i]).0@ == k }
//@ module encoder
#[verifier::external_body]
pub struct AttrIter<'a>(std::marker::PhantomData<&'a ()>);
#[verifier::external]
impl<'a> Iterator for AttrIter<'a> { type Item = (&'a String, &'a String); fn next(&mut self) -> Option<(&'a String, &'a String)> { unimplemented!() } }
#[verifier::external]
impl<'a> IntoIterator for &'a AttrMap { type Item = (&'a String, &'a String); type IntoIter = AttrIter<'a>; fn into_iter(self) -> AttrIter<'a> { unimplemented!() } }
pub trait ElementMerge: Sized {
    spec fn tree(self) -> XN;
    fn merge(&mut self, r: &Self)
        ensures final(self).tree() == merged(old(self).tree(), r.tree());
}
//@ fn svd-encoder/src/lib.rs <Element as ElementMerge>::merge as-trait
//@ impltext
    open spec fn tree(self) -> XN { el(self) }
//@ opt vx-into
//@ opt vx-cloned
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
    let ghost a0 = self.attributes@;
//@ beforeloop 0
    broadcast use crate::ax::ax_items_attrs;
    let ghost full = it.remaining();
//@ loop 0 desugar iter it
    invariant_except_break
        it_on(&it, full),
        forall|k: Seq<char>| #[trigger] self.attributes@.contains_key(k) <==> a0.contains_key(k) || has_key(full, it_pos(&it, full), k),
        forall|k: Seq<char>| #[trigger] self.attributes@.contains_key(k) ==> self.attributes@[k] == if has_key(full, it_pos(&it, full), k) { r.attributes@[k] } else { a0[k] },
    invariant
        full == items_of::<(&String, &String), &AttrMap>(&r.attributes),
        self.name == old(self).name, kids(self.children@) == kids(old(self).children@) + kids(r.children@),
    ensures
        forall|k: Seq<char>| #[trigger] self.attributes@.contains_key(k) <==> a0.contains_key(k) || has_key(full, full.len() as int, k),
        forall|k: Seq<char>| #[trigger] self.attributes@.contains_key(k) ==> self.attributes@[k] == if has_key(full, full.len() as int, k) { r.attributes@[k] } else { a0[k] },
    decreases it_dec(&it)
//@ loopstart 0
    broadcast use crate::ax::ax_items_attrs;
    let ghost n = it_pos(&it, full) - 1;
    assert((key, val) == full[n]);
    assert forall|k: Seq<char>| has_key(full, n + 1, k) == (has_key(full, n, k) || k == key@) by {
        if k == key@ { assert(full[n].0@ == k); }
        if has_key(full, n, k) { let i = choose|i: int| 0 <= i < n && (#[trigger] full[i]).0@ == k; assert(full[i].0@ == k); }
    }
//@ afterloop 0
    assert forall|k: Seq<char>| has_key(full, full.len() as int, k) == r.attributes@.contains_key(k) by {
        if has_key(full, full.len() as int, k) { let i = choose|i: int| 0 <= i < full.len() && (#[trigger] full[i]).0@ == k; assert(r.attributes@.contains_pair(full[i].0@, full[i].1@)); }
    }
    assert(self.attributes@ =~= a0.union_prefer_right(r.attributes@));
//@ endfn
//@ module spec
// ---------------------------------------------------------------- arrays
// does the encoder print the indexes as a range (when they are one)?  `indexes_as_range` is a function of its receiver
pub uninterp spec fn shown_as_range(d: DimElement) -> bool;
pub open spec fn first_index(d: DimElement) -> int { choose|a: int| #[trigger] counts_from(d, a) }
pub open spec fn index_text(d: DimElement, v: Vec<String>) -> Seq<char> {
    if shown_as_range(d) { dec(first_index(d) as nat) + "-"@ + dec((first_index(d) + d.dim - 1) as nat) } else { join(texts_of(Some(v))->0, ',') }
}
pub proof fn lemma_first_index(d: DimElement, a: int)
    requires counts_from(d, a),
    ensures first_index(d) == a,
{
    let b = first_index(d);
    assert(counts_from(d, b));
    assert(index_of(d, 0) == dec(a as nat) && index_of(d, 0) == dec(b as nat));
    lemma_digits(a as nat, 10, false);
    lemma_digits(b as nat, 10, false);
}
pub open spec fn enc_dai(v: DimArrayIndex, c: Config) -> XN {
    let k = with(Seq::<XK>::empty(), "headerEnumName", ctxt(v.header_enum_name, c.dim_array_index_header_enum_name));
    xn("dimArrayIndex", k + els(v.values@, ev_enc(c)))
}
pub open spec fn enc_dim(v: DimElement, c: Config) -> XN {
    let k = Seq::<XK>::empty().push(leaf("dim", number_text(v.dim as nat, c.dim_dim))).push(leaf("dimIncrement", number_text(v.dim_increment as nat, c.dim_increment)));
    let k = with(k, "dimIndex", match v.dim_index { Some(l) => Some(index_text(v, l)), None => None });
    let k = with(k, "dimName", txt(v.dim_name));
    let k = with_el(k, match v.dim_array_index { Some(d) => Some(enc_dai(d, c)), None => None });
    xn("dimElement", k)
}
pub trait JoinShim { fn vx_join(&self, by: &str) -> String; }
impl JoinShim for Vec<String> {
    #[verifier::external_body]
    fn vx_join(&self, by: &str) -> (r: String)
        ensures by@.len() == 1 ==> r@ == join(Seq::new(self@.len(), |i: int| self@[i]@), by@[0]),
    { unimplemented!() }
}
pub assume_specification<A>[ std::ops::RangeInclusive::<A>::start ](r: &std::ops::RangeInclusive<A>) -> (s: &A)
    ensures *s == r@.start,
;
pub assume_specification<A>[ std::ops::RangeInclusive::<A>::end ](r: &std::ops::RangeInclusive<A>) -> (s: &A)
    ensures *s == r@.end,
;
//@ module svd::dimelement
//@ fn svd-rs/src/dimelement.rs DimElement::indexes_as_range -> r
    requires dim_ok(*self),
    ensures
        r is Some == shown_as_range(*self),
        r matches Some(x) ==> counts_from(*self, x@.start as int) && x@.end == x@.start + self.dim - 1 && !x@.exhausted,
//@ trusted
//@ endfn
//@ module encoder::dimelement
use crate::encoder::config::*;
//@ fn svd-encoder/src/dimelement.rs <DimElement as Encode>::encode_with_config as-trait -> r
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { enc_dim(*self, c) }
    open spec fn enc_ok(&self) -> bool { dim_ok(*self) }
//@ opt nolit
//@ opt vx-join
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
    proof { reveal_strlit(","); reveal_strlit("-"); assert forall|a: int| #[trigger] counts_from(*self, a) implies first_index(*self) == a by { lemma_first_index(*self, a); } }
//@ endfn
//@ fn svd-encoder/src/dimelement.rs <DimArrayIndex as Encode>::encode_with_config as-trait -> r
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { enc_dai(*self, c) }
    open spec fn enc_ok(&self) -> bool { true }
//@ opt nolit
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ beforeloop 0
    let ghost full = it.remaining();
    let ghost k0 = kids(base.children@);
    assert(k0 + els(self.values@.take(0), ev_enc(*config)) =~= k0);
    assert(self.values@.take(self.values@.len() as int) =~= self.values@);
//@ loop 0 desugar iter it
    invariant_except_break
        it_on(&it, full),
        kids(base.children@) == k0 + els(self.values@.take(it_pos(&it, full)), ev_enc(*config)),
    invariant
        full.len() == self.values@.len(), forall|i: int| 0 <= i < full.len() ==> *(#[trigger] full[i]) == self.values@[i],
        base.name@ == "dimArrayIndex"@, base.attributes@ == no_attrs(),
        self.values@.take(self.values@.len() as int) == self.values@,
    ensures
        kids(base.children@) == k0 + els(self.values@, ev_enc(*config)),
    decreases it_dec(&it)
//@ loopstart 0
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
    let ghost n = it_pos(&it, full) - 1;
    assert(*v == self.values@[n]);
    assert(k0 + els(self.values@.take(n + 1), ev_enc(*config)) =~= (k0 + els(self.values@.take(n), ev_enc(*config))).push(XK::El(enc_ev(*v, *config))));
//@ endfn
//@ module spec
// ---------------------------------------------------------------- fields
pub open spec fn evs_enc(c: Config) -> spec_fn(EnumeratedValues) -> XN { |v: EnumeratedValues| enc_evs(v, c) }
pub open spec fn enc_fi(v: FieldInfo, c: Config) -> XN {
    let k = with(Seq::<XK>::empty().push(leaf("name", cased(v.name@, c.field_name))), "description", txt(v.description)) + enc_br(v.bit_range, c);
    let k = with(k, "access", match v.access { Some(a) => Some(a.kw()), None => None });
    let k = with(k, "modifiedWriteValues", match v.modified_write_values { Some(a) => Some(a.kw()), None => None });
    let k = with_el(k, match v.write_constraint { Some(a) => Some(enc_wc(a)), None => None });
    let k = with(k, "readAction", match v.read_action { Some(a) => Some(a.kw()), None => None });
    XN { name: "field"@, attrs: derived_attr(v.derived_from, c.field_name), kids: k + els(v.enumerated_values@, evs_enc(c)) }
}
pub open spec fn enc_field(v: Field, c: Config) -> XN {
    match v { MaybeArray::Single(i) => enc_fi(i, c), MaybeArray::Array(i, a) => merged(merged(xn("field", Seq::empty()), enc_dim(a, c)), enc_fi(i, c)) }
}
// bit positions and indexes that exist
pub open spec fn field_enc_ok(v: Field) -> bool { br_ok(info_of(v).bit_range) && dims_ok(v) }
pub open spec fn dims_ok<T>(v: MaybeArray<T>) -> bool { match v { MaybeArray::Single(_) => true, MaybeArray::Array(_, a) => dim_ok(a) } }
//@ module encoder::field
use crate::encoder::config::*;
use crate::encoder::bitrange::encode_bitrange;
//@ fn svd-encoder/src/field.rs <Field as Encode>::encode_with_config as-trait -> r
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { enc_field(*self, c) }
    open spec fn enc_ok(&self) -> bool { field_enc_ok(*self) }
//@ opt nolit
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ endfn
//@ fn svd-encoder/src/field.rs <FieldInfo as Encode>::encode_with_config as-trait -> r
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { enc_fi(*self, c) }
    open spec fn enc_ok(&self) -> bool { br_ok(self.bit_range) }
//@ opt nolit
//@ opt map-iter
//@ opt vx-collect
//@ start
    broadcast use {crate::spec::vx_kids, crate::spec::lemma_kids_els, crate::ax::vx_axioms_disp};
//@ closure 0
|v: &EnumeratedValues| -> (r: Result<XMLNode, EncodeError>) ensures r matches Ok(n) && node(n) == XK::El(enc_evs(*v, *config))
//@ endfn
//@ module spec
// ---------------------------------------------------------------- registers
pub open spec fn field_enc<'a>(c: Config) -> spec_fn(&'a Field) -> XN { |v: &'a Field| enc_field(*v, c) }
pub open spec fn fields_ok(v: Option<Vec<Field>>) -> bool { v matches Some(f) ==> forall|i: int| 0 <= i < f@.len() ==> field_enc_ok(#[trigger] f@[i]) }
// the fields, as configured; no element when there are none
pub open spec fn enc_fields(v: Option<Vec<Field>>, c: Config) -> Option<XN> {
    match v {
        Some(f) if f@.len() > 0 => Some(xn("fields", els(fields_in_order(f@, c.field_sorting), field_enc(c)))),
        _ => None,
    }
}
pub open spec fn enc_ri(v: RegisterInfo, c: Config) -> XN {
    let k = Seq::<XK>::empty().push(leaf("name", cased(v.name@, c.register_name)));
    let k = with(k, "displayName", txt(v.display_name));
    let k = with(k, "description", txt(v.description));
    let k = with(k, "alternateGroup", txt(v.alternate_group));
    let k = with(k, "alternateRegister", ctxt(v.alternate_register, c.register_name));
    let k = k.push(leaf("addressOffset", number_text(v.address_offset as nat, c.register_address_offset))) + enc_rp(v.properties, c);
    let k = with(k, "dataType", match v.datatype { Some(a) => Some(a.kw()), None => None });
    let k = with(k, "modifiedWriteValues", match v.modified_write_values { Some(a) => Some(a.kw()), None => None });
    let k = with_el(k, match v.write_constraint { Some(a) => Some(enc_wc(a)), None => None });
    let k = with(k, "readAction", match v.read_action { Some(a) => Some(a.kw()), None => None });
    XN { name: "register"@, attrs: derived_attr(v.derived_from, c.register_name), kids: with_el(k, enc_fields(v.fields, c)) }
}
pub open spec fn enc_reg(v: Register, c: Config) -> XN {
    match v { MaybeArray::Single(i) => enc_ri(i, c), MaybeArray::Array(i, a) => merged(merged(xn("register", Seq::empty()), enc_dim(a, c)), enc_ri(i, c)) }
}
pub open spec fn reg_enc_ok(v: Register) -> bool { dims_ok(v) && fields_ok(info_of(v).fields) }
// each element of a permutation is one of the originals
pub proof fn lemma_members<T>(a: Seq<T>, b: Seq<T>)
    requires a.to_multiset() =~= b.to_multiset(),
    ensures a.len() == b.len(), forall|k: int| 0 <= k < a.len() ==> b.contains(#[trigger] a[k]),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.len() == a.to_multiset().len() && b.len() == b.to_multiset().len());
    assert forall|k: int| 0 <= k < a.len() implies b.contains(#[trigger] a[k]) by {
        assert(a.contains(a[k]));
        assert(a.to_multiset().count(a[k]) > 0);
        assert(b.to_multiset().count(a[k]) > 0);
    }
}
pub open spec fn among<T>(s: Seq<T>, x: T) -> bool { exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == x }
pub proof fn lemma_among<T>(s: Seq<T>, r: Seq<&T>)
    requires r.to_multiset() =~= refs(s).to_multiset(),
    ensures r.len() == s.len(), forall|k: int| 0 <= k < r.len() ==> among(s, *(#[trigger] r[k])),
{
    lemma_members(r, refs(s));
    assert forall|k: int| 0 <= k < r.len() implies among(s, *(#[trigger] r[k])) by {
        assert(refs(s).contains(r[k]));
        let j = choose|j: int| 0 <= j < refs(s).len() && refs(s)[j] == r[k];
        assert(s[j] == *r[k]);
    }
}
//@ module encoder::register
//@ fn svd-encoder/src/register.rs <Register as Encode>::encode_with_config as-trait -> r
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { enc_reg(*self, c) }
    open spec fn enc_ok(&self) -> bool { reg_enc_ok(*self) }
//@ opt nolit
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ endfn
//@ fn svd-encoder/src/register.rs <RegisterInfo as Encode>::encode_with_config as-trait -> r
//@ attr #[verifier::rlimit(120)]
//@ attr #[verifier::spinoff_prover]
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { enc_ri(*self, c) }
    open spec fn enc_ok(&self) -> bool { fields_ok(self.fields) }
//@ opt nolit
//@ opt map-iter
//@ opt vx-collect
//@ start
    broadcast use {crate::spec::vx_kids, crate::spec::lemma_kids_els, crate::ax::vx_axioms_disp, crate::ax::vx_axioms_items, crate::ax::ax_slice_iter_ends};
    proof { if self.fields is Some { let s = self.fields->0@; lemma_fields_in_order(s, config.field_sorting); lemma_among(s, fields_in_order(s, config.field_sorting)); } }
//@ closure 0
|field: &Field| -> (r: Result<XMLNode, EncodeError>) requires field_enc_ok(*field) ensures r matches Ok(n) && node(n) == XK::El(enc_field(*field, *config))
//@ closure 1
|field: &Field| -> (r: Result<XMLNode, EncodeError>) requires field_enc_ok(*field) ensures r matches Ok(n) && node(n) == XK::El(enc_field(*field, *config))
//@ endfn
//@ module spec
// ---------------------------------------------------------------- clusters
pub open spec fn enc_ci(v: ClusterInfo, c: Config) -> XN
    decreases v,
{
    let k = Seq::<XK>::empty().push(leaf("name", cased(v.name@, c.cluster_name)));
    let k = with(k, "description", txt(v.description));
    let k = with(k, "alternateCluster", ctxt(v.alternate_cluster, c.cluster_name));
    let k = with(k, "headerStructName", txt(v.header_struct_name));
    let k = k.push(leaf("addressOffset", number_text(v.address_offset as nat, c.cluster_address_offset))) + enc_rp(v.default_register_properties, c);
    let sub = Seq::new(v.children@.len(), |i: int| if 0 <= i < v.children@.len() { XK::El(enc_rc(v.children@[i], c)) } else { arbitrary() });
    XN { name: "cluster"@, attrs: derived_attr(v.derived_from, c.cluster_name), kids: k + sub }
}
pub open spec fn enc_rc(v: RegisterCluster, c: Config) -> XN
    decreases v,
{
    match v { RegisterCluster::Register(r) => enc_reg(r, c), RegisterCluster::Cluster(k) => enc_cluster(k, c) }
}
pub open spec fn enc_cluster(v: Cluster, c: Config) -> XN
    decreases v,
{
    match v { MaybeArray::Single(i) => enc_ci(i, c), MaybeArray::Array(i, a) => merged(merged(xn("cluster", Seq::empty()), enc_dim(a, c)), enc_ci(i, c)) }
}
pub open spec fn rc_enc<'a>(c: Config) -> spec_fn(&'a RegisterCluster) -> XN { |v: &'a RegisterCluster| enc_rc(*v, c) }
pub open spec fn ci_enc_ok(v: ClusterInfo) -> bool
    decreases v,
{ forall|i: int| 0 <= i < v.children@.len() ==> rc_enc_ok(#[trigger] v.children@[i]) }
pub open spec fn rc_enc_ok(v: RegisterCluster) -> bool
    decreases v,
{ match v { RegisterCluster::Register(r) => reg_enc_ok(r), RegisterCluster::Cluster(k) => cluster_enc_ok(k) } }
pub open spec fn cluster_enc_ok(v: Cluster) -> bool
    decreases v,
{ dims_ok(v) && match v { MaybeArray::Single(i) => ci_enc_ok(i), MaybeArray::Array(i, a) => ci_enc_ok(i) } }
//@ module encoder::cluster
use crate::encoder::config::*;
//@ fn svd-encoder/src/cluster.rs <Cluster as Encode>::encode_with_config as-trait -> r
    decreases self,
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { enc_cluster(*self, c) }
    open spec fn enc_ok(&self) -> bool { cluster_enc_ok(*self) }
//@ opt nolit
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ endfn
//@ fn svd-encoder/src/cluster.rs <ClusterInfo as Encode>::encode_with_config as-trait -> r
    decreases self,
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { enc_ci(*self, c) }
    open spec fn enc_ok(&self) -> bool { ci_enc_ok(*self) }
//@ opt nolit
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp, crate::ax::vx_axioms_items};
    let ghost sub = enc_ci(*self, *config).kids;
//@ beforeloop 0
    let ghost full = it.remaining();
    let ghost k0 = kids(e.children@);
    let ghost rs = crate::spec::refs(self.children@);
    assert(k0 + els(rs.take(0), rc_enc(*config)) =~= k0);
    assert(rs.take(rs.len() as int) =~= rs);
//@ loop 0 desugar iter it
    invariant_except_break
        it_on(&it, full),
        kids(e.children@) == k0 + els(rs.take(it_pos(&it, full)), rc_enc(*config)),
    invariant
        full.len() == self.children@.len(), forall|i: int| 0 <= i < full.len() ==> *(#[trigger] full[i]) == self.children@[i],
        rs == crate::spec::refs(self.children@), ci_enc_ok(*self),
        e.name@ == "cluster"@, e.attributes@ == no_attrs(),
        rs.take(rs.len() as int) == rs,
    ensures
        kids(e.children@) == k0 + els(rs, rc_enc(*config)),
    decreases it_dec(&it)
//@ loopstart 0
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
    let ghost n = it_pos(&it, full) - 1;
    assert(*c == self.children@[n]);
    assert(k0 + els(rs.take(n + 1), rc_enc(*config)) =~= (k0 + els(rs.take(n), rc_enc(*config))).push(XK::El(enc_rc(*c, *config))));
//@ afterloop 0
    assert(enc_ci(*self, *config).kids =~= k0 + els(rs, rc_enc(*config)));
//@ endfn
//@ module encoder::registercluster
use crate::encoder::config::*;
//@ fn svd-encoder/src/registercluster.rs <RegisterCluster as Encode>::encode_with_config as-trait -> r
    decreases self,
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { enc_rc(*self, c) }
    open spec fn enc_ok(&self) -> bool { rc_enc_ok(*self) }
//@ opt nolit
//@ endfn
//@ module spec
// ---------------------------------------------------------------- peripherals
pub open spec fn ab_enc(c: Config) -> spec_fn(AddressBlock) -> XN { |v: AddressBlock| enc_ab(v, c) }
pub open spec fn int_enc(c: Config) -> spec_fn(Interrupt) -> XN { |v: Interrupt| enc_interrupt(v, c) }
pub open spec fn enc_pi(v: PeripheralInfo, c: Config) -> XN {
    let k = Seq::<XK>::empty().push(leaf("name", cased(v.name@, c.peripheral_name)));
    let k = with(k, "displayName", txt(v.display_name));
    let k = with(k, "version", txt(v.version));
    let k = with(k, "description", txt(v.description));
    let k = with(k, "alternatePeripheral", ctxt(v.alternate_peripheral, c.peripheral_name));
    let k = with(k, "groupName", txt(v.group_name));
    let k = with(k, "prependToName", ctxt(v.prepend_to_name, c.peripheral_name));
    let k = with(k, "appendToName", ctxt(v.append_to_name, c.peripheral_name));
    let k = with(k, "headerStructName", ctxt(v.header_struct_name, c.peripheral_name));
    let k = k.push(leaf("baseAddress", number_text(v.base_address as nat, c.peripheral_base_address))) + enc_rp(v.default_register_properties, c);
    let k = match v.address_block { Some(a) => k + els(a@, ab_enc(c)), None => k };
    let k = k + els(v.interrupt@, int_enc(c));
    let k = match v.registers { Some(r) => k.push(XK::El(xn("registers", els(rcs_in_order(r@, c.register_cluster_sorting), rc_enc(c))))), None => k };
    XN { name: "peripheral"@, attrs: derived_attr(v.derived_from, c.peripheral_name), kids: k }
}
pub open spec fn enc_per(v: Peripheral, c: Config) -> XN {
    match v { MaybeArray::Single(i) => enc_pi(i, c), MaybeArray::Array(i, a) => merged(merged(xn("peripheral", Seq::empty()), enc_dim(a, c)), enc_pi(i, c)) }
}
pub open spec fn pi_enc_ok(v: PeripheralInfo) -> bool { v.registers matches Some(r) ==> forall|i: int| 0 <= i < r@.len() ==> rc_enc_ok(#[trigger] r@[i]) }
pub open spec fn per_enc_ok(v: Peripheral) -> bool { dims_ok(v) && pi_enc_ok(info_of(v)) }
//@ module encoder::peripheral
//@ fn svd-encoder/src/peripheral.rs <Peripheral as Encode>::encode_with_config as-trait -> r
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { enc_per(*self, c) }
    open spec fn enc_ok(&self) -> bool { per_enc_ok(*self) }
//@ opt nolit
//@ start
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
//@ endfn
//@ fn svd-encoder/src/peripheral.rs <PeripheralInfo as Encode>::encode_with_config as-trait -> r
//@ attr #[verifier::rlimit(120)]
//@ attr #[verifier::spinoff_prover]
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { enc_pi(*self, c) }
    open spec fn enc_ok(&self) -> bool { pi_enc_ok(*self) }
//@ opt nolit
//@ opt map-iter
//@ opt vx-collect
//@ start
    broadcast use {crate::spec::vx_kids, crate::spec::lemma_kids_els, crate::ax::vx_axioms_disp, crate::ax::vx_axioms_items, crate::ax::ax_slice_iter_ends};
    proof { if self.registers is Some { let s = self.registers->0@; lemma_rcs_in_order(s, config.register_cluster_sorting); lemma_among(s, rcs_in_order(s, config.register_cluster_sorting)); } }
//@ beforeloop 0
    let ghost full = it.remaining();
    let ghost k0 = kids(elem.children@);
    assert(k0 + els(v@.take(0), ab_enc(*config)) =~= k0);
    assert(v@.take(v@.len() as int) =~= v@);
//@ loop 0 desugar iter it
    invariant_except_break
        it_on(&it, full),
        kids(elem.children@) == k0 + els(v@.take(it_pos(&it, full)), ab_enc(*config)),
    invariant
        full.len() == v@.len(), forall|i: int| 0 <= i < full.len() ==> *(#[trigger] full[i]) == v@[i],
        elem.name@ == "peripheral"@, elem.attributes@ == no_attrs(),
        v@.take(v@.len() as int) == v@,
    ensures
        kids(elem.children@) == k0 + els(v@, ab_enc(*config)),
    decreases it_dec(&it)
//@ loopstart 0
    broadcast use {crate::spec::vx_kids, crate::ax::vx_axioms_disp};
    let ghost n = it_pos(&it, full) - 1;
    assert(*ab == v@[n]);
    assert(k0 + els(v@.take(n + 1), ab_enc(*config)) =~= (k0 + els(v@.take(n), ab_enc(*config))).push(XK::El(enc_ab(*ab, *config))));
//@ closure 0
|interrupt: &Interrupt| -> (r: Result<XMLNode, EncodeError>) ensures r matches Ok(n) && node(n) == XK::El(enc_interrupt(*interrupt, *config))
//@ closure 1
|e: &RegisterCluster| -> (r: Result<XMLNode, EncodeError>) requires rc_enc_ok(*e) ensures r matches Ok(n) && node(n) == XK::El(enc_rc(*e, *config))
//@ closure 2
|e: &RegisterCluster| -> (r: Result<XMLNode, EncodeError>) requires rc_enc_ok(*e) ensures r matches Ok(n) && node(n) == XK::El(enc_rc(*e, *config))
//@ closure 3
|e: &RegisterCluster| -> (r: Result<XMLNode, EncodeError>) requires rc_enc_ok(*e) ensures r matches Ok(n) && node(n) == XK::El(enc_rc(*e, *config))
//@ closure 4
|e: &RegisterCluster| -> (r: Result<XMLNode, EncodeError>) requires rc_enc_ok(*e) ensures r matches Ok(n) && node(n) == XK::El(enc_rc(*e, *config))
//@ endfn
//@ module spec
// ---------------------------------------------------------------- devices
pub open spec fn per_enc<'a>(c: Config) -> spec_fn(&'a Peripheral) -> XN { |v: &'a Peripheral| enc_per(*v, c) }
pub open spec fn enc_device(v: Device, c: Config) -> XN {
    let k = with(Seq::<XK>::empty(), "vendor", txt(v.vendor));
    let k = with(k, "vendorID", txt(v.vendor_id)).push(leaf("name", v.name@));
    let k = with(k, "series", txt(v.series)).push(leaf("version", v.version@)).push(leaf("description", v.description@));
    let k = with(k, "licenseText", txt(v.license_text));
    let k = with_el(k, match v.cpu { Some(p) => Some(enc_cpu(p)), None => None });
    let k = with(k, "headerSystemFilename", txt(v.header_system_filename));
    let k = with(k, "headerDefinitionsPrefix", txt(v.header_definitions_prefix));
    let k = k.push(leaf("addressUnitBits", dec(v.address_unit_bits as nat))).push(leaf("width", dec(v.width as nat)));
    let k = k + enc_rp(v.default_register_properties, c);
    XN {
        name: "device"@,
        attrs: no_attrs().insert("schemaVersion"@, v.schema_version@).insert("xmlns:xs"@, v.xmlns_xs@).insert("xs:noNamespaceSchemaLocation"@, v.no_namespace_schema_location@),
        kids: k.push(XK::El(xn("peripherals", els(pers_in_order(v.peripherals@, c.peripheral_sorting), per_enc(c))))),
    }
}
pub open spec fn device_enc_ok(v: Device) -> bool { forall|i: int| 0 <= i < v.peripherals@.len() ==> per_enc_ok(#[trigger] v.peripherals@[i]) }
//@ module encoder::device
//@ fn svd-encoder/src/device.rs <Device as Encode>::encode_with_config as-trait -> r
//@ impltext
    open spec fn enc(&self, c: Config) -> XN { enc_device(*self, c) }
    open spec fn enc_ok(&self) -> bool { device_enc_ok(*self) }
//@ opt nolit
//@ opt map-iter
//@ opt vx-collect
//@ start
    broadcast use {crate::spec::vx_kids, crate::spec::lemma_kids_els, crate::ax::vx_axioms_disp, crate::ax::vx_axioms_items, crate::ax::ax_slice_iter_ends};
    proof { let s = self.peripherals@; lemma_pers_in_order(s, config.peripheral_sorting); lemma_among(s, pers_in_order(s, config.peripheral_sorting)); }
//@ closure 0
|peripheral: &Peripheral| -> (r: Result<XMLNode, EncodeError>) requires per_enc_ok(*peripheral) ensures r matches Ok(n) && node(n) == XK::El(enc_per(*peripheral, *config))
//@ closure 1
|peripheral: &Peripheral| -> (r: Result<XMLNode, EncodeError>) requires per_enc_ok(*peripheral) ensures r matches Ok(n) && node(n) == XK::El(enc_per(*peripheral, *config))
//@ endfn
//@ module encoder
// writing the element down: assumed of xmltree (`written` is the text, indented or not)
pub uninterp spec fn written(e: XN, indent: bool, pad: bool) -> Seq<char>;
pub struct EmitterConfig { pub perform_indent: bool, pub pad_self_closing: bool, pub vx_rest: u8 }
impl EmitterConfig {
    #[verifier::external_body]
    pub fn new() -> (r: EmitterConfig) ensures r.vx_rest == 0 { unimplemented!() }
}
impl Element {
    #[verifier::external_body]
    pub fn write_with_config(&self, w: &mut Vec<u8>, c: EmitterConfig) -> (r: Result<(), EmitError>)
        ensures r is Ok, c.vx_rest == 0 ==> final(w)@ == old(w)@ + vstd::utf8::encode_utf8(written(el(*self), c.perform_indent, c.pad_self_closing)),
    { unimplemented!() }
}
#[verifier::external_body]
#[derive(Debug)]
pub struct EmitError(());
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub assume_specification[ String::from_utf8 ](v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures
        r is Ok <==> exists|s: Seq<char>| #[trigger] vstd::utf8::encode_utf8(s) == v@,
        r matches Ok(t) ==> vstd::utf8::encode_utf8(t@) == v@,
;
//@ fn svd-encoder/src/lib.rs encode_with_config -> r
    requires d.enc_ok(),
    ensures r matches Ok(t) && exists|i: bool, p: bool| t@ == #[trigger] written(enc_device(*d, *config), i, p),
//@ start
    broadcast use crate::spec::lemma_utf8_inj_b;
    proof { assert forall|i: bool, p: bool| Seq::<u8>::empty() + vstd::utf8::encode_utf8(#[trigger] written(enc_device(*d, *config), i, p)) =~= vstd::utf8::encode_utf8(written(enc_device(*d, *config), i, p)) by {} }
//@ endfn
//@ fn svd-encoder/src/lib.rs encode -> r
    requires d.enc_ok(),
    ensures r matches Ok(t) && exists|c: Config, i: bool, p: bool| plain(c) && t@ == #[trigger] written(enc_device(*d, c), i, p),
//@ endfn
