// C22: the order in which the encoder writes elements.
//@ head #![feature(allocator_api)]
//@ include extend.rs
//@ include iters.rs
//@ include dimtext.rs
//@ include iter_ax.rs
//@ include sortspec.rs
//@ crate svd-encoder skip EncodeError
//@ module spec
use crate::encoder::config::*;
use std::cmp::Reverse;
pub open spec fn per_addr<'a>() -> spec_fn(&'a Peripheral) -> u64 { |p: &'a Peripheral| info_of(*p).base_address }
pub open spec fn per_addr_rev<'a>() -> spec_fn(&'a Peripheral) -> Reverse<u64> { |p: &'a Peripheral| Reverse(info_of(*p).base_address) }
pub open spec fn per_name<'a>() -> spec_fn(&'a Peripheral) -> &'a String { |p: &'a Peripheral| &info_of(*p).name }
// ordered as configured
pub open spec fn sorted_pers<'a>(s: Seq<&'a Peripheral>, o: Option<Sorting>) -> Seq<&'a Peripheral> {
    match o {
        None => s,
        Some(Sorting::Offset) => stable_sort(s, per_addr()),
        Some(Sorting::OffsetReversed) => stable_sort(s, per_addr_rev()),
        Some(Sorting::Name) => stable_sort(s, per_name()),
    }
}
//@ module encoder::device
use crate::encoder::config::*;
use crate::spec::*;
//@ fn svd-encoder/src/device.rs sort_peripherals -> r
    ensures final(refs)@ == sorted_pers(old(refs)@, sorting),
//@ closure 0
|p: &&Peripheral| -> (k: u64) ensures k == per_addr()(*p)
//@ closure 1
|p: &&Peripheral| -> (k: std::cmp::Reverse<u64>) ensures k == per_addr_rev()(*p)
//@ closure 2
|p: &&Peripheral| -> (k: &String) ensures k == per_name()(*p)
//@ endfn
//@ module spec
pub open spec fn common_per<'a>() -> spec_fn(&'a Peripheral) -> bool { |p: &'a Peripheral| info_of(*p).derived_from is None }
pub open spec fn derived_per<'a>() -> spec_fn(&'a Peripheral) -> bool { |p: &'a Peripheral| info_of(*p).derived_from is Some }
pub open spec fn pers_in_order<'a>(s: Seq<Peripheral>, o: DerivableSorting) -> Seq<&'a Peripheral> {
    match o {
        DerivableSorting::Unchanged(o) => sorted_pers(refs(s), o),
        DerivableSorting::DeriveLast(o) => sorted_pers(refs(s).filter(common_per()), o) + sorted_pers(refs(s).filter(derived_per()), o),
    }
}
//@ fn svd-encoder/src/device.rs sort_derived_peripherals -> r
    ensures r@ == pers_in_order(peripherals@, sorting),
//@ opt vx-filter
//@ start
    broadcast use {crate::ax::vx_axioms, crate::ax::vx_axioms_items};
//@ closure 0
|p: &&Peripheral| -> (b: bool) ensures b == common_per()(*p)
//@ closure 1
|p: &&Peripheral| -> (b: bool) ensures b == derived_per()(*p)
//@ before sort_peripherals(&mut refs
    assert(refs@ =~= crate::spec::refs(peripherals@));
//@ before sort_peripherals(&mut common
    assert(common_refs@ =~= crate::spec::refs(peripherals@).filter(common_per()));
    assert(derived_refs@ =~= crate::spec::refs(peripherals@).filter(derived_per()));
//@ endfn
//@ module spec
// ---------------------------------------------------------------- registers and clusters
pub open spec fn rc_offset(c: RegisterCluster) -> u32 { match c { RegisterCluster::Register(r) => info_of(r).address_offset, RegisterCluster::Cluster(r) => info_of(r).address_offset } }
pub open spec fn rc_text(c: RegisterCluster) -> String { match c { RegisterCluster::Register(r) => info_of(r).name, RegisterCluster::Cluster(r) => info_of(r).name } }
pub open spec fn rc_derived(c: RegisterCluster) -> Option<String> { match c { RegisterCluster::Register(r) => info_of(r).derived_from, RegisterCluster::Cluster(r) => info_of(r).derived_from } }
//@ fn svd-rs/src/registercluster.rs RegisterCluster::name -> r
    ensures *r == rc_text(*self),
//@ endfn
//@ fn svd-rs/src/registercluster.rs RegisterCluster::derived_from -> r
    ensures *r == rc_derived(*self),
//@ endfn
//@ fn svd-rs/src/registercluster.rs RegisterCluster::address_offset -> r
    ensures r == rc_offset(*self),
//@ endfn
pub open spec fn rc_addr<'a>() -> spec_fn(&'a RegisterCluster) -> u32 { |p: &'a RegisterCluster| rc_offset(*p) }
pub open spec fn rc_addr_rev<'a>() -> spec_fn(&'a RegisterCluster) -> Reverse<u32> { |p: &'a RegisterCluster| Reverse(rc_offset(*p)) }
pub open spec fn rc_name<'a>() -> spec_fn(&'a RegisterCluster) -> &'a String { |p: &'a RegisterCluster| &rc_text(*p) }
// ordered as configured
pub open spec fn sorted_rcs<'a>(s: Seq<&'a RegisterCluster>, o: Option<Sorting>) -> Seq<&'a RegisterCluster> {
    match o {
        None => s,
        Some(Sorting::Offset) => stable_sort(s, rc_addr()),
        Some(Sorting::OffsetReversed) => stable_sort(s, rc_addr_rev()),
        Some(Sorting::Name) => stable_sort(s, rc_name()),
    }
}

pub open spec fn common_rc<'a>() -> spec_fn(&'a RegisterCluster) -> bool { |p: &'a RegisterCluster| rc_derived(*p) is None }
pub open spec fn derived_rc<'a>() -> spec_fn(&'a RegisterCluster) -> bool { |p: &'a RegisterCluster| rc_derived(*p) is Some }
pub open spec fn rcs_derivable<'a>(s: Seq<&'a RegisterCluster>, o: DerivableSorting) -> Seq<&'a RegisterCluster> {
    match o {
        DerivableSorting::Unchanged(o) => sorted_rcs(s, o),
        DerivableSorting::DeriveLast(o) => sorted_rcs(s.filter(common_rc()), o) + sorted_rcs(s.filter(derived_rc()), o),
    }
}
pub open spec fn is_reg<'a>() -> spec_fn(&'a RegisterCluster) -> bool { |p: &'a RegisterCluster| *p is Register }
pub open spec fn is_cluster<'a>() -> spec_fn(&'a RegisterCluster) -> bool { |p: &'a RegisterCluster| *p is Cluster }
pub open spec fn rcs_in_order<'a>(s: Seq<RegisterCluster>, o: RcSorting) -> Seq<&'a RegisterCluster> {
    match o {
        RcSorting::Unchanged(o) => rcs_derivable(refs(s), o),
        RcSorting::RegistersFirst(o) => rcs_derivable(refs(s).filter(is_reg()), o) + rcs_derivable(refs(s).filter(is_cluster()), o),
        RcSorting::ClustersFirst(o) => rcs_derivable(refs(s).filter(is_cluster()), o) + rcs_derivable(refs(s).filter(is_reg()), o),
    }
}
//@ module encoder::peripheral
use crate::encoder::config::*;
use crate::spec::*;
//@ fn svd-encoder/src/peripheral.rs sort_register_cluster -> r
    ensures final(refs)@ == sorted_rcs(old(refs)@, sorting),
//@ closure 0
|p: &&RegisterCluster| -> (k: u32) ensures k == rc_addr()(*p)
//@ closure 1
|p: &&RegisterCluster| -> (k: std::cmp::Reverse<u32>) ensures k == rc_addr_rev()(*p)
//@ closure 2
|p: &&RegisterCluster| -> (k: &String) ensures k == rc_name()(*p)
//@ endfn
//@ fn svd-encoder/src/peripheral.rs sort_derived_register_cluster -> r
    ensures r@ == rcs_derivable(items_of::<&'a RegisterCluster, _>(rcs), sorting),
//@ opt vx-into
//@ start
    broadcast use {crate::ax::vx_axioms, crate::ax::vx_axioms_items, crate::ax::ax_slice_iter_ends};
    let ghost all = items_of::<&'a RegisterCluster, _>(rcs);
    reveal(Seq::filter);
//@ before sort_register_cluster(&mut refs
    assert(refs@ =~= all);
//@ beforeloop 0
    let ghost full = it.remaining();
    assert(full =~= all);
    assert(all.take(0) =~= Seq::empty());
    assert(all.take(all.len() as int) =~= all);
//@ loop 0 desugar iter it
    invariant_except_break
        it_on(&it, full),
        common_refs@ == all.take(it_pos(&it, full)).filter(common_rc()),
        derived_refs@ == all.take(it_pos(&it, full)).filter(derived_rc()),
    invariant full == all, all.take(all.len() as int) == all,
    ensures common_refs@ == all.filter(common_rc()), derived_refs@ == all.filter(derived_rc()),
    decreases it_dec(&it),
//@ loopstart 0
    reveal(Seq::filter);
    let ghost k = it_pos(&it, full) - 1;
    assert(all.take(k + 1).drop_last() =~= all.take(k));
//@ endfn
//@ fn svd-encoder/src/peripheral.rs rc_sort -> r
    ensures
        r.obeys_prophetic_iter_laws(), r.decrease() is Some,
        r.will_return_none() ==> r.remaining() == rcs_in_order(v@, if register_first { RcSorting::RegistersFirst(sorting) } else { RcSorting::ClustersFirst(sorting) }),
        r.remaining().is_prefix_of(rcs_in_order(v@, if register_first { RcSorting::RegistersFirst(sorting) } else { RcSorting::ClustersFirst(sorting) })),
//@ opt vx-filter
//@ opt vx-chain
//@ start
    broadcast use {crate::ax::vx_axioms, crate::ax::vx_axioms_items, crate::ax::ax_slice_iter_ends};
//@ closure 0
|rc: &&RegisterCluster| -> (b: bool) ensures b == is_reg()(*rc)
//@ closure 1
|rc: &&RegisterCluster| -> (b: bool) ensures b == is_cluster()(*rc)
//@ endfn
//@ module spec
// ---------------------------------------------------------------- fields
// a field is derived when it, or one of its enumerated-values sets, names another element
pub open spec fn field_derived(f: Field) -> bool {
    info_of(f).derived_from is Some || exists|i: int| 0 <= i < info_of(f).enumerated_values@.len() && (#[trigger] info_of(f).enumerated_values@[i]).derived_from is Some
}
//@ fn svd-rs/src/field.rs FieldInfo::bit_offset -> r
    ensures r == self.bit_range.offset,
//@ endfn
pub open spec fn field_addr<'a>() -> spec_fn(&'a Field) -> u32 { |p: &'a Field| info_of(*p).bit_range.offset }
pub open spec fn field_addr_rev<'a>() -> spec_fn(&'a Field) -> Reverse<u32> { |p: &'a Field| Reverse(info_of(*p).bit_range.offset) }
pub open spec fn field_name<'a>() -> spec_fn(&'a Field) -> &'a String { |p: &'a Field| &info_of(*p).name }
// ordered as configured
pub open spec fn sorted_fields<'a>(s: Seq<&'a Field>, o: Option<Sorting>) -> Seq<&'a Field> {
    match o {
        None => s,
        Some(Sorting::Offset) => stable_sort(s, field_addr()),
        Some(Sorting::OffsetReversed) => stable_sort(s, field_addr_rev()),
        Some(Sorting::Name) => stable_sort(s, field_name()),
    }
}

pub open spec fn common_field<'a>() -> spec_fn(&'a Field) -> bool { |p: &'a Field| !field_derived(*p) }
pub open spec fn derived_field<'a>() -> spec_fn(&'a Field) -> bool { |p: &'a Field| field_derived(*p) }
pub open spec fn fields_in_order<'a>(s: Seq<Field>, o: DerivableSorting) -> Seq<&'a Field> {
    match o {
        DerivableSorting::Unchanged(o) => sorted_fields(refs(s), o),
        DerivableSorting::DeriveLast(o) => sorted_fields(refs(s).filter(common_field()), o) + sorted_fields(refs(s).filter(derived_field()), o),
    }
}
//@ module encoder::register
use crate::encoder::config::*;
use crate::spec::*;
//@ fn svd-encoder/src/register.rs sort_fields -> r
    ensures final(refs)@ == sorted_fields(old(refs)@, sorting),
//@ closure 0
|p: &&Field| -> (k: u32) ensures k == field_addr()(*p)
//@ closure 1
|p: &&Field| -> (k: std::cmp::Reverse<u32>) ensures k == field_addr_rev()(*p)
//@ closure 2
|p: &&Field| -> (k: &String) ensures k == field_name()(*p)
//@ endfn
//@ fn svd-encoder/src/register.rs sort_derived_fields -> r
    ensures r@ == fields_in_order(v@, sorting),
//@ start
    broadcast use {crate::ax::vx_axioms, crate::ax::vx_axioms_items, crate::ax::ax_slice_iter_ends};
    let ghost all = crate::spec::refs(v@);
    reveal(Seq::filter);
//@ before sort_fields(&mut refs
    assert(refs@ =~= all);
//@ beforeloop 0
    let ghost full = it.remaining();
    assert(full =~= all);
    assert(all.take(0) =~= Seq::empty());
    assert(all.take(all.len() as int) =~= all);
//@ loop 0 desugar iter it
    invariant_except_break
        it_on(&it, full),
        common_refs@ == all.take(it_pos(&it, full)).filter(common_field()),
        derived_refs@ == all.take(it_pos(&it, full)).filter(derived_field()),
    invariant full == all, all.take(all.len() as int) == all,
    ensures common_refs@ == all.filter(common_field()), derived_refs@ == all.filter(derived_field()),
    decreases it_dec(&it),
//@ loopstart 0
    broadcast use {crate::ax::vx_axioms, crate::ax::vx_axioms_items, crate::ax::ax_slice_iter_ends};
    reveal(Seq::filter);
    let ghost k = it_pos(&it, full) - 1;
    assert(f == all[k]);
    assert(all.take(k + 1).drop_last() =~= all.take(k));
    let ghost evs = info_of(*f).enumerated_values@;
    let ghost d0 = derived_refs@;
//@ beforeloop 1
    let ghost full1 = it1.remaining();
//@ loop 1 desugar iter it1
    invariant_except_break it_on(&it1, full1), !derived, derived_refs@ == d0,
        forall|i: int| 0 <= i < it_pos(&it1, full1) ==> (#[trigger] evs[i]).derived_from is None,
    invariant full1.len() == evs.len(), forall|i: int| 0 <= i < full1.len() ==> *(#[trigger] full1[i]) == evs[i],
        evs == info_of(*f).enumerated_values@,
    ensures
        derived == (exists|i: int| 0 <= i < evs.len() && (#[trigger] evs[i]).derived_from is Some),
        derived_refs@ == (if derived { d0.push(f) } else { d0 }),
    decreases it_dec(&it1),
//@ loopstart 1
    assert(*ev == evs[it_pos(&it1, full1) - 1]);
//@ endfn
//@ module spec
// ---------------------------------------------------------------- the property
// ordered as configured, equal keys in their original order, nothing lost or added
pub open spec fn ordered_pers<'a>(r: Seq<&'a Peripheral>, s: Seq<&'a Peripheral>, o: Option<Sorting>) -> bool {
    &&& r.to_multiset() =~= s.to_multiset()
    &&& match o {
        None => r == s,
        Some(Sorting::Offset) => in_order(r, per_addr()) && forall|k: u64| r.filter(#[trigger] same_key(per_addr(), k)) =~= s.filter(same_key(per_addr(), k)),
        Some(Sorting::OffsetReversed) => in_order(r, per_addr_rev()) && forall|k: Reverse<u64>| r.filter(#[trigger] same_key(per_addr_rev(), k)) =~= s.filter(same_key(per_addr_rev(), k)),
        Some(Sorting::Name) => in_order(r, per_name()) && forall|k: &String| r.filter(#[trigger] same_key(per_name(), k)) =~= s.filter(same_key(per_name(), k)),
    }
}
pub proof fn lemma_sorted_pers<'a>(s: Seq<&'a Peripheral>, o: Option<Sorting>)
    ensures ordered_pers(sorted_pers(s, o), s, o),
{
    lemma_total();
    match o {
        None => {}
        Some(Sorting::Offset) => lemma_stable_sort(s, per_addr()),
        Some(Sorting::OffsetReversed) => lemma_stable_sort(s, per_addr_rev()),
        Some(Sorting::Name) => lemma_stable_sort(s, per_name()),
    }
}
pub proof fn lemma_pers_in_order<'a>(s: Seq<Peripheral>, o: DerivableSorting)
    ensures
        pers_in_order(s, o).to_multiset() =~= refs(s).to_multiset(),
        o matches DerivableSorting::Unchanged(k) ==> ordered_pers(pers_in_order(s, o), refs(s), k),
        o matches DerivableSorting::DeriveLast(k) ==> exists|a: Seq<&'a Peripheral>, b: Seq<&'a Peripheral>| pers_in_order(s, o) == #[trigger] (a + b)
            && ordered_pers(a, refs(s).filter(common_per()), k) && ordered_pers(b, refs(s).filter(derived_per()), k),
{
    let s: Seq<&'a Peripheral> = refs(s);
    match o {
        DerivableSorting::Unchanged(k) => lemma_sorted_pers(s, k),
        DerivableSorting::DeriveLast(k) => {
            let (p, q) = (common_per(), derived_per());
            let (a, b) = (sorted_pers(s.filter(p), k), sorted_pers(s.filter(q), k));
            lemma_sorted_pers(s.filter(p), k);
            lemma_sorted_pers(s.filter(q), k);
            lemma_partition(s, p, q);
            lemma_concat_multiset(a, b, s.filter(p), s.filter(q));
            assert(a + b == a + b);
        }
    }
}
// ordered as configured, equal keys in their original order, nothing lost or added
pub open spec fn ordered_fields<'a>(r: Seq<&'a Field>, s: Seq<&'a Field>, o: Option<Sorting>) -> bool {
    &&& r.to_multiset() =~= s.to_multiset()
    &&& match o {
        None => r == s,
        Some(Sorting::Offset) => in_order(r, field_addr()) && forall|k: u32| r.filter(#[trigger] same_key(field_addr(), k)) =~= s.filter(same_key(field_addr(), k)),
        Some(Sorting::OffsetReversed) => in_order(r, field_addr_rev()) && forall|k: Reverse<u32>| r.filter(#[trigger] same_key(field_addr_rev(), k)) =~= s.filter(same_key(field_addr_rev(), k)),
        Some(Sorting::Name) => in_order(r, field_name()) && forall|k: &String| r.filter(#[trigger] same_key(field_name(), k)) =~= s.filter(same_key(field_name(), k)),
    }
}
pub proof fn lemma_sorted_fields<'a>(s: Seq<&'a Field>, o: Option<Sorting>)
    ensures ordered_fields(sorted_fields(s, o), s, o),
{
    lemma_total();
    match o {
        None => {}
        Some(Sorting::Offset) => lemma_stable_sort(s, field_addr()),
        Some(Sorting::OffsetReversed) => lemma_stable_sort(s, field_addr_rev()),
        Some(Sorting::Name) => lemma_stable_sort(s, field_name()),
    }
}
pub proof fn lemma_fields_in_order<'a>(s: Seq<Field>, o: DerivableSorting)
    ensures
        fields_in_order(s, o).to_multiset() =~= refs(s).to_multiset(),
        o matches DerivableSorting::Unchanged(k) ==> ordered_fields(fields_in_order(s, o), refs(s), k),
        o matches DerivableSorting::DeriveLast(k) ==> exists|a: Seq<&'a Field>, b: Seq<&'a Field>| fields_in_order(s, o) == #[trigger] (a + b)
            && ordered_fields(a, refs(s).filter(common_field()), k) && ordered_fields(b, refs(s).filter(derived_field()), k),
{
    let s: Seq<&'a Field> = refs(s);
    match o {
        DerivableSorting::Unchanged(k) => lemma_sorted_fields(s, k),
        DerivableSorting::DeriveLast(k) => {
            let (p, q) = (common_field(), derived_field());
            let (a, b) = (sorted_fields(s.filter(p), k), sorted_fields(s.filter(q), k));
            lemma_sorted_fields(s.filter(p), k);
            lemma_sorted_fields(s.filter(q), k);
            lemma_partition(s, p, q);
            lemma_concat_multiset(a, b, s.filter(p), s.filter(q));
            assert(a + b == a + b);
        }
    }
}
// ordered as configured, equal keys in their original order, nothing lost or added
pub open spec fn ordered_rcs<'a>(r: Seq<&'a RegisterCluster>, s: Seq<&'a RegisterCluster>, o: Option<Sorting>) -> bool {
    &&& r.to_multiset() =~= s.to_multiset()
    &&& match o {
        None => r == s,
        Some(Sorting::Offset) => in_order(r, rc_addr()) && forall|k: u32| r.filter(#[trigger] same_key(rc_addr(), k)) =~= s.filter(same_key(rc_addr(), k)),
        Some(Sorting::OffsetReversed) => in_order(r, rc_addr_rev()) && forall|k: Reverse<u32>| r.filter(#[trigger] same_key(rc_addr_rev(), k)) =~= s.filter(same_key(rc_addr_rev(), k)),
        Some(Sorting::Name) => in_order(r, rc_name()) && forall|k: &String| r.filter(#[trigger] same_key(rc_name(), k)) =~= s.filter(same_key(rc_name(), k)),
    }
}
pub proof fn lemma_sorted_rcs<'a>(s: Seq<&'a RegisterCluster>, o: Option<Sorting>)
    ensures ordered_rcs(sorted_rcs(s, o), s, o),
{
    lemma_total();
    match o {
        None => {}
        Some(Sorting::Offset) => lemma_stable_sort(s, rc_addr()),
        Some(Sorting::OffsetReversed) => lemma_stable_sort(s, rc_addr_rev()),
        Some(Sorting::Name) => lemma_stable_sort(s, rc_name()),
    }
}
pub proof fn lemma_rcs_derivable<'a>(s: Seq<&'a RegisterCluster>, o: DerivableSorting)
    ensures
        rcs_derivable(s, o).to_multiset() =~= s.to_multiset(),
        o matches DerivableSorting::Unchanged(k) ==> ordered_rcs(rcs_derivable(s, o), s, k),
        o matches DerivableSorting::DeriveLast(k) ==> exists|a: Seq<&'a RegisterCluster>, b: Seq<&'a RegisterCluster>| rcs_derivable(s, o) == #[trigger] (a + b)
            && ordered_rcs(a, s.filter(common_rc()), k) && ordered_rcs(b, s.filter(derived_rc()), k),
{
    let s: Seq<&'a RegisterCluster> = s;
    match o {
        DerivableSorting::Unchanged(k) => lemma_sorted_rcs(s, k),
        DerivableSorting::DeriveLast(k) => {
            let (p, q) = (common_rc(), derived_rc());
            let (a, b) = (sorted_rcs(s.filter(p), k), sorted_rcs(s.filter(q), k));
            lemma_sorted_rcs(s.filter(p), k);
            lemma_sorted_rcs(s.filter(q), k);
            lemma_partition(s, p, q);
            lemma_concat_multiset(a, b, s.filter(p), s.filter(q));
            assert(a + b == a + b);
        }
    }
}
pub proof fn lemma_rcs_in_order<'a>(s: Seq<RegisterCluster>, o: RcSorting)
    ensures
        rcs_in_order(s, o).to_multiset() =~= refs::<RegisterCluster>(s).to_multiset(),
        o == RcSorting::Unchanged(DerivableSorting::Unchanged(None)) ==> rcs_in_order(s, o) == refs::<RegisterCluster>(s),
{
    let t: Seq<&'a RegisterCluster> = refs(s);
    lemma_partition(t, is_reg(), is_cluster());
    match o {
        RcSorting::Unchanged(k) => lemma_rcs_derivable(t, k),
        RcSorting::RegistersFirst(k) | RcSorting::ClustersFirst(k) => {
            lemma_rcs_derivable(t.filter(is_reg()), k);
            lemma_rcs_derivable(t.filter(is_cluster()), k);
            lemma_concat_multiset(rcs_derivable(t.filter(is_reg()), k), rcs_derivable(t.filter(is_cluster()), k), t.filter(is_reg()), t.filter(is_cluster()));
            lemma_concat_multiset(rcs_derivable(t.filter(is_cluster()), k), rcs_derivable(t.filter(is_reg()), k), t.filter(is_cluster()), t.filter(is_reg()));
        }
    }
}
