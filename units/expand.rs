// C08: the elements of an array.
//@ include array.rs
//@ include names.rs
//@ include dimidx.rs
//@ module svd
pub trait Description {
    spec fn desc_spec(&self) -> Option<Seq<char>>;
    fn description(&self) -> (r: Option<&str>)
        ensures opt_text(r) == self.desc_spec();
}
//@ module spec
pub open spec fn opt_text(r: Option<&str>) -> Option<Seq<char>> { match r { Some(t) => Some(t@), None => None } }
pub open spec fn opt_string(r: Option<String>) -> Option<Seq<char>> { match r { Some(t) => Some(t@), None => None } }
//@ fn svd-rs/src/peripheral.rs <PeripheralInfo as Description>::description as-trait -> r
//@ impltext
    open spec fn desc_spec(&self) -> Option<Seq<char>> { opt_string(self.description) }
//@ endfn
//@ fn svd-rs/src/cluster.rs <ClusterInfo as Description>::description as-trait -> r
//@ impltext
    open spec fn desc_spec(&self) -> Option<Seq<char>> { opt_string(self.description) }
//@ endfn
//@ fn svd-rs/src/register.rs <RegisterInfo as Description>::description as-trait -> r
//@ impltext
    open spec fn desc_spec(&self) -> Option<Seq<char>> { opt_string(self.description) }
//@ endfn
//@ fn svd-rs/src/field.rs <FieldInfo as Description>::description as-trait -> r
//@ impltext
    open spec fn desc_spec(&self) -> Option<Seq<char>> { opt_string(self.description) }
//@ endfn
//@ module spec
// the index put in place of the marker
pub open spec fn marked(t: Seq<char>, idx: Seq<char>) -> Seq<char> { replace_all(replace_all(t, seq!['[', '%', 's', ']'], idx), seq!['%', 's'], idx) }
// the dimArrayIndex entry whose value is the index
pub open spec fn is_entry(v: EnumeratedValue, idx: Seq<char>) -> bool { v.value matches Some(n) && dec(n as nat) == idx }
pub open spec fn entry_in(v: Seq<EnumeratedValue>, idx: Seq<char>) -> Option<EnumeratedValue>
    decreases v.len(),
{
    if v.len() == 0 { None } else if is_entry(v[0], idx) { Some(v[0]) } else { entry_in(v.drop_first(), idx) }
}
pub open spec fn entry_of(d: DimElement, idx: Seq<char>) -> Option<EnumeratedValue> { match d.dim_array_index { Some(a) => entry_in(a.values@, idx), None => None } }
pub open spec fn elem_name(name: Seq<char>, d: DimElement, idx: Seq<char>) -> Seq<char> { match entry_of(d, idx) { Some(e) => e.name@, None => marked(name, idx) } }
pub open spec fn opt_marked(t: Option<Seq<char>>, idx: Seq<char>) -> Option<Seq<char>> { match t { Some(t) => Some(marked(t, idx)), None => None } }
pub open spec fn elem_desc(desc: Option<Seq<char>>, d: DimElement, idx: Seq<char>) -> Option<Seq<char>> {
    match entry_of(d, idx) { Some(e) if e.description is Some => opt_string(e.description), _ => opt_marked(desc, idx) }
}
pub open spec fn entry_pred(idx: Seq<char>) -> spec_fn(EnumeratedValue) -> bool { |v: EnumeratedValue| is_entry(v, idx) }
pub proof fn lemma_entry(v: Seq<EnumeratedValue>, idx: Seq<char>)
    ensures
        forall|i: int| #[trigger] first_is(v, entry_pred(idx), i) ==> entry_in(v, idx) == Some(v[i]),
        none_is(v, entry_pred(idx)) ==> entry_in(v, idx) is None,
    decreases v.len(),
{
    if v.len() > 0 {
        lemma_entry(v.drop_first(), idx);
        let p = entry_pred(idx);
        assert forall|i: int| #[trigger] first_is(v, p, i) implies entry_in(v, idx) == Some(v[i]) by {
            if i > 0 {
                assert(!p(v[0]));
                assert forall|j: int| 0 <= j < i - 1 implies !p(#[trigger] v.drop_first()[j]) by { assert(v.drop_first()[j] == v[j + 1]); }
                assert(first_is(v.drop_first(), p, i - 1));
            } else { assert(p(v[0])); }
        }
        if none_is(v, p) {
            assert(!p(v[0]));
            assert forall|j: int| 0 <= j < v.drop_first().len() implies !p(#[trigger] v.drop_first()[j]) by { assert(v.drop_first()[j] == v[j + 1]); }
        }
    }
}
//@ module svd::array
use crate::spec::*;
use crate::svd::*;
use std::borrow::Cow;
//@ fn svd-rs/src/array.rs names -> r
    requires dim_ok(*dim),
    ensures yields(r, dim.dim as nat, |i: int, s: String| s@ == elem_name(info.name_spec(), *dim, index_of(*dim, i))),
//@ opt vx-map
//@ start
    broadcast use {crate::ax::vx_axioms_dim, crate::ax::vx_axioms_cow, crate::ax::vx_axioms_text, crate::ax::vx_axioms};
//@ closure 0
move |i: Cow<'a, str>| -> (s: String) ensures s@ == elem_name(info.name_spec(), *dim, cow_text(i))
//@ closurestart 0
    broadcast use {crate::ax::vx_axioms_dim, crate::ax::vx_axioms_cow, crate::ax::vx_axioms_text, crate::ax::vx_axioms};
    let ghost idx = cow_text(i);
    proof { reveal_strlit("%s"); reveal_strlit("[%s]"); assert("%s"@ =~= seq!['%', 's']); assert("[%s]"@ =~= seq!['[', '%', 's', ']']);
        if dim.dim_array_index is Some { lemma_entry(dim.dim_array_index->0.values@, idx); } }
//@ find 0
    let ghost full = vx_f.remaining();
    let ghost v0 = dai.values@;
    proof { assert forall|j: int| 0 <= j < v0.len() implies #[trigger] v0[j] == *full[j] by {} }
//@ found 0
    proof { if vx_r is Some { assert(first_is(v0, entry_pred(idx), full.len() - vx_f.remaining().len() - 1)); } else { assert(none_is(v0, entry_pred(idx))); } }
//@ closure 1
|e: &&EnumeratedValue| -> (b: bool) ensures b == is_entry(**e, cow_text(i))
//@ closurestart 1
    broadcast use {crate::ax::vx_axioms_dim, crate::ax::vx_axioms_cow, crate::ax::vx_axioms_text, crate::ax::vx_axioms};
//@ endfn
//@ fn svd-rs/src/array.rs descriptions -> r
    requires dim_ok(*dim),
    ensures yields(r, dim.dim as nat, |i: int, s: Option<String>| opt_string(s) == elem_desc(info.desc_spec(), *dim, index_of(*dim, i))),
//@ opt vx-map
//@ start
    broadcast use {crate::ax::vx_axioms_dim, crate::ax::vx_axioms_cow, crate::ax::vx_axioms_text, crate::ax::vx_axioms};
//@ closure 0
move |i: Cow<'a, str>| -> (s: Option<String>) ensures opt_string(s) == elem_desc(info.desc_spec(), *dim, cow_text(i))
//@ closurestart 0
    broadcast use {crate::ax::vx_axioms_dim, crate::ax::vx_axioms_cow, crate::ax::vx_axioms_text, crate::ax::vx_axioms};
    let ghost idx = cow_text(i);
    proof { reveal_strlit("%s"); reveal_strlit("[%s]"); assert("%s"@ =~= seq!['%', 's']); assert("[%s]"@ =~= seq!['[', '%', 's', ']']);
        if dim.dim_array_index is Some { lemma_entry(dim.dim_array_index->0.values@, idx); } }
//@ find 0
    let ghost full = vx_f.remaining();
    let ghost v0 = dai.values@;
    proof { assert forall|j: int| 0 <= j < v0.len() implies #[trigger] v0[j] == *full[j] by {} }
//@ found 0
    proof { if vx_r is Some { assert(first_is(v0, entry_pred(idx), full.len() - vx_f.remaining().len() - 1)); } else { assert(none_is(v0, entry_pred(idx))); } }
//@ closure 1
|e: &&EnumeratedValue| -> (b: bool) ensures b == is_entry(**e, cow_text(i))
//@ closurestart 1
    broadcast use {crate::ax::vx_axioms_dim, crate::ax::vx_axioms_cow, crate::ax::vx_axioms_text, crate::ax::vx_axioms};
//@ endfn
//@ module spec
// where the i-th element lies
pub open spec fn at(base: int, d: DimElement, i: int) -> int { base + i * d.dim_increment }
// every element's address is representable
pub open spec fn fits(base: int, d: DimElement, max: int) -> bool { dim_ok(d) && (d.dim > 0 ==> at(base, d, d.dim - 1) <= max) }
pub proof fn lemma_at(base: int, d: DimElement, max: int, i: int)
    requires fits(base, d, max), 0 <= i < d.dim, 0 <= base,
    ensures 0 <= i * d.dim_increment <= at(base, d, i) <= max,
{
    assert(0 <= i * d.dim_increment <= (d.dim - 1) * d.dim_increment) by (nonlinear_arith) requires 0 <= i <= d.dim - 1, 0 <= d.dim_increment;
}
//@ module svd::register
//@ fn svd-rs/src/register.rs address_offsets -> r
    requires fits(info.address_offset as int, *dim, u32::MAX as int),
    ensures yields(r, dim.dim as nat, |i: int, o: u32| o == at(info.address_offset as int, *dim, i)),
//@ closure 0
move |i: u32| -> (o: u32) requires i < dim.dim ensures o == at(info.address_offset as int, *dim, i as int)
//@ closurestart 0
    proof { lemma_at(info.address_offset as int, *dim, u32::MAX as int, i as int); }
//@ endfn
//@ module spec
pub open spec fn reg_elem(x: RegisterInfo, info: RegisterInfo, d: DimElement, i: int) -> bool {
    &&& x == (RegisterInfo { name: x.name, description: x.description, address_offset: x.address_offset, display_name: x.display_name, ..info })
    &&& x.name@ == elem_name(info.name@, d, index_of(d, i))
    &&& opt_string(x.description) == elem_desc(opt_string(info.description), d, index_of(d, i))
    &&& x.address_offset == at(info.address_offset as int, d, i)
    &&& opt_string(x.display_name) == opt_marked(opt_string(info.display_name), index_of(d, i))
}
//@ module svd::register
use std::borrow::Cow;
//@ fn svd-rs/src/register.rs expand -> r
    requires fits(info.address_offset as int, *dim, u32::MAX as int),
    ensures yields(r, dim.dim as nat, |i: int, x: RegisterInfo| reg_elem(x, *info, *dim, i)),
//@ opt vx-map
//@ start
    broadcast use crate::ax::ax_zip_ends;
//@ closure 0
|t: (((Cow<'a, str>, String), Option<String>), u32)| -> (x: RegisterInfo)
    ensures
        x == (RegisterInfo { name: t.0.0.1, description: t.0.1, address_offset: t.1, display_name: x.display_name, ..*info }),
        opt_string(x.display_name) == opt_marked(opt_string(info.display_name), cow_text(t.0.0.0)),
//@ closurestart 0
    broadcast use {crate::ax::vx_axioms_dim, crate::ax::vx_axioms_cow, crate::ax::vx_axioms_text, crate::ax::vx_axioms};
    proof { reveal_strlit("%s"); reveal_strlit("[%s]"); assert("%s"@ =~= seq!['%', 's']); assert("[%s]"@ =~= seq!['[', '%', 's', ']']); }
//@ endfn
//@ module svd::cluster
//@ fn svd-rs/src/cluster.rs address_offsets -> r
    requires fits(info.address_offset as int, *dim, u32::MAX as int),
    ensures yields(r, dim.dim as nat, |i: int, o: u32| o == at(info.address_offset as int, *dim, i)),
//@ closure 0
move |i: u32| -> (o: u32) requires i < dim.dim ensures o == at(info.address_offset as int, *dim, i as int)
//@ closurestart 0
    proof { lemma_at(info.address_offset as int, *dim, u32::MAX as int, i as int); }
//@ endfn
//@ module spec
pub open spec fn cluster_elem(x: ClusterInfo, info: ClusterInfo, d: DimElement, i: int) -> bool {
    &&& x == (ClusterInfo { name: x.name, description: x.description, address_offset: x.address_offset, ..info })
    &&& x.name@ == elem_name(info.name@, d, index_of(d, i))
    &&& opt_string(x.description) == elem_desc(opt_string(info.description), d, index_of(d, i))
    &&& x.address_offset == at(info.address_offset as int, d, i)
}
//@ fn svd-rs/src/cluster.rs expand -> r
    requires fits(info.address_offset as int, *dim, u32::MAX as int),
    ensures yields(r, dim.dim as nat, |i: int, x: ClusterInfo| cluster_elem(x, *info, *dim, i)),
//@ opt vx-map
//@ start
    broadcast use crate::ax::ax_zip_ends;
//@ closure 0
|t: ((String, Option<String>), u32)| -> (x: ClusterInfo)
    ensures x == (ClusterInfo { name: t.0.0, description: t.0.1, address_offset: t.1, ..*info }),
//@ endfn
//@ module svd::peripheral
//@ fn svd-rs/src/peripheral.rs base_addresses -> r
    requires fits(info.base_address as int, *dim, u64::MAX as int),
    ensures yields(r, dim.dim as nat, |i: int, o: u64| o == at(info.base_address as int, *dim, i)),
//@ closure 0
|i: u64| -> (o: u64) requires i < dim.dim ensures o == at(info.base_address as int, *dim, i as int)
//@ closurestart 0
    proof { lemma_at(info.base_address as int, *dim, u64::MAX as int, i as int); }
//@ endfn
//@ module spec
pub open spec fn per_elem(x: PeripheralInfo, info: PeripheralInfo, d: DimElement, i: int) -> bool {
    &&& x == (PeripheralInfo { name: x.name, description: x.description, base_address: x.base_address, display_name: x.display_name, ..info })
    &&& x.name@ == elem_name(info.name@, d, index_of(d, i))
    &&& opt_string(x.description) == elem_desc(opt_string(info.description), d, index_of(d, i))
    &&& x.base_address == at(info.base_address as int, d, i)
    &&& opt_string(x.display_name) == opt_marked(opt_string(info.display_name), index_of(d, i))
}
//@ module svd::peripheral
use std::borrow::Cow;
//@ fn svd-rs/src/peripheral.rs expand -> r
    requires fits(info.base_address as int, *dim, u64::MAX as int),
    ensures yields(r, dim.dim as nat, |i: int, x: PeripheralInfo| per_elem(x, *info, *dim, i)),
//@ opt vx-map
//@ start
    broadcast use crate::ax::ax_zip_ends;
//@ closure 0
|t: (((Cow<'a, str>, String), Option<String>), u64)| -> (x: PeripheralInfo)
    ensures
        x == (PeripheralInfo { name: t.0.0.1, description: t.0.1, base_address: t.1, display_name: x.display_name, ..*info }),
        opt_string(x.display_name) == opt_marked(opt_string(info.display_name), cow_text(t.0.0.0)),
//@ closurestart 0
    broadcast use {crate::ax::vx_axioms_dim, crate::ax::vx_axioms_cow, crate::ax::vx_axioms_text, crate::ax::vx_axioms};
    proof { reveal_strlit("%s"); reveal_strlit("[%s]"); assert("%s"@ =~= seq!['%', 's']); assert("[%s]"@ =~= seq!['[', '%', 's', ']']); }
//@ endfn
//@ fn svd-rs/src/field.rs FieldInfo::bit_offset -> r
    ensures r == self.bit_range.offset,
//@ endfn
//@ fn svd-rs/src/field.rs FieldInfo::bit_width -> r
    ensures r == self.bit_range.width,
//@ endfn
//@ fn svd-rs/src/bitrange.rs BitRange::from_offset_width -> r
    ensures r == (BitRange { offset, width, range_type: BitRangeType::OffsetWidth }),
//@ endfn
//@ module svd::field
//@ fn svd-rs/src/field.rs bit_offsets -> r
    requires fits(info.bit_range.offset as int, *dim, u32::MAX as int),
    ensures yields(r, dim.dim as nat, |i: int, o: u32| o == at(info.bit_range.offset as int, *dim, i)),
//@ closure 0
|i: u32| -> (o: u32) requires i < dim.dim ensures o == at(info.bit_range.offset as int, *dim, i as int)
//@ closurestart 0
    proof { lemma_at(info.bit_range.offset as int, *dim, u32::MAX as int, i as int); }
//@ endfn
//@ module spec
pub open spec fn field_elem(x: FieldInfo, info: FieldInfo, d: DimElement, i: int) -> bool {
    &&& x == (FieldInfo { name: x.name, description: x.description, bit_range: x.bit_range, ..info })
    &&& x.name@ == elem_name(info.name@, d, index_of(d, i))
    &&& opt_string(x.description) == elem_desc(opt_string(info.description), d, index_of(d, i))
    &&& x.bit_range.offset == at(info.bit_range.offset as int, d, i)
    &&& x.bit_range.width == info.bit_range.width
    &&& x.bit_range.range_type == BitRangeType::OffsetWidth
}
//@ fn svd-rs/src/field.rs expand -> r
    requires fits(info.bit_range.offset as int, *dim, u32::MAX as int),
    ensures yields(r, dim.dim as nat, |i: int, x: FieldInfo| field_elem(x, *info, *dim, i)),
//@ opt vx-map
//@ start
    broadcast use crate::ax::ax_zip_ends;
//@ closure 0
|t: ((String, Option<String>), u32)| -> (x: FieldInfo)
    ensures x == (FieldInfo { name: t.0.0, description: t.0.1, bit_range: BitRange { offset: t.1, width: info.bit_range.width, range_type: BitRangeType::OffsetWidth }, ..*info }),
//@ endfn
