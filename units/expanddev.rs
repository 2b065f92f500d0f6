// C16, C17: a whole device expanded.
//@ head #![feature(allocator_api)]
//@ include indexing.rs trusted
//@ include extend.rs
//@ noext parser::expand
//@ module svd::registercluster first
impl vstd::std_specs::convert::FromSpecImpl<Register> for RegisterCluster {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Register) -> Self { RegisterCluster::Register(v) }
}
//@ module spec
//@ fn svd-rs/src/registercluster.rs <RegisterCluster as From<Register>>::from as-trait -> r
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfo::single -> r
    ensures r == MaybeArray::<RegisterInfo>::Single(self),
//@ endfn
pub assume_specification<T: std::default::Default>[ std::mem::take ](a: &mut T) -> (r: T)
    ensures r == *old(a), call_ensures(T::default, (), *final(a)),
;
//@ module ax
// what an iterator gives to `extend`
pub broadcast axiom fn ax_items_iter<I: Iterator>(i: I)
    requires vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&i), vstd::std_specs::iter::IteratorSpec::decrease(&i) is Some, #[trigger] crate::spec::used_up(i),
    ensures
        crate::spec::items_of::<I::Item, I>(i) == vstd::std_specs::iter::IteratorSpec::remaining(&i),
        vstd::std_specs::iter::IteratorSpec::will_return_none(&i),
;
//@ module spec
// ---------------------------------------------------------------- texts and lists with a given content
pub open spec fn text_of(t: Seq<char>) -> String { choose|s: String| s@ == t }
pub open spec fn opt_text_of(t: Option<Seq<char>>) -> Option<String> { match t { Some(t) => Some(text_of(t)), None => None } }
pub open spec fn list_of<T>(s: Seq<T>) -> Vec<T> { choose|v: Vec<T>| v@ == s }
pub proof fn lemma_text_of(s: String)
    ensures text_of(s@) == s,
{
    broadcast use crate::ax::ax_string_ext;
    assert(text_of(s@)@ =~= s@);
}
pub proof fn lemma_opt_text_of(s: Option<String>)
    ensures opt_text_of(opt_string(s)) == s,
{
    if let Some(t) = s { lemma_text_of(t); }
}
pub proof fn lemma_list_of<T>(v: Vec<T>)
    ensures list_of(v@) == v,
{
    broadcast use crate::ax::ax_vec_ext;
    assert(list_of(v@)@ =~= v@);
}
// ---------------------------------------------------------------- the elements of an array
pub open spec fn reg_nth(info: RegisterInfo, d: DimElement, i: int) -> RegisterInfo {
    RegisterInfo {
        name: text_of(nth_name(info.name@, d, i)),
        description: opt_text_of(elem_desc(opt_string(info.description), d, index_of(d, i))),
        address_offset: at(info.address_offset as int, d, i) as u32,
        display_name: opt_text_of(opt_marked(opt_string(info.display_name), index_of(d, i))),
        ..info
    }
}
pub open spec fn per_nth(info: PeripheralInfo, d: DimElement, i: int) -> PeripheralInfo {
    PeripheralInfo {
        name: text_of(nth_name(info.name@, d, i)),
        description: opt_text_of(elem_desc(opt_string(info.description), d, index_of(d, i))),
        base_address: at(info.base_address as int, d, i) as u64,
        display_name: opt_text_of(opt_marked(opt_string(info.display_name), index_of(d, i))),
        ..info
    }
}
pub open spec fn field_nth(info: FieldInfo, d: DimElement, i: int) -> FieldInfo {
    FieldInfo {
        name: text_of(nth_name(info.name@, d, i)),
        description: opt_text_of(elem_desc(opt_string(info.description), d, index_of(d, i))),
        bit_range: BitRange { offset: at(info.bit_range.offset as int, d, i) as u32, width: info.bit_range.width, range_type: BitRangeType::OffsetWidth },
        ..info
    }
}
pub proof fn lemma_reg_nth(x: RegisterInfo, info: RegisterInfo, d: DimElement, i: int)
    requires reg_elem(x, info, d, i),
    ensures x == reg_nth(info, d, i),
{ lemma_text_of(x.name); lemma_opt_text_of(x.description); lemma_opt_text_of(x.display_name); }
pub proof fn lemma_per_nth(x: PeripheralInfo, info: PeripheralInfo, d: DimElement, i: int)
    requires per_elem(x, info, d, i),
    ensures x == per_nth(info, d, i),
{ lemma_text_of(x.name); lemma_opt_text_of(x.description); lemma_opt_text_of(x.display_name); }
pub proof fn lemma_field_nth(x: FieldInfo, info: FieldInfo, d: DimElement, i: int)
    requires field_elem(x, info, d, i),
    ensures x == field_nth(info, d, i),
{ lemma_text_of(x.name); lemma_opt_text_of(x.description); }
// ---------------------------------------------------------------- what expansion gives
pub enum Out<T> {
    Done(T),
    // a reference cannot be followed, or a cluster is derived from one it is part of
    Refused,
    // an address or index is not representable
    Unfit,
    // cannot happen (lemma_never)
    Never,
}
// some list holds s
pub open spec fn held<T>(s: Seq<T>) -> bool { exists|v: Vec<T>| #[trigger] v@ == s }
pub open spec fn fine<T>(o: Out<T>) -> bool { o is Done || o is Refused }
// one set of enumerated values of the field at fp
pub open spec fn ev_out(ix: Ix, e: EnumeratedValues, fp: Parts) -> Out<EnumeratedValues> {
    match e.derived_from {
        None => Out::Done(e),
        Some(d) => match evs_derived(ix, EnumeratedValues { derived_from: None, ..e }, d@, fp) { Some((z, _)) => Out::Done(z), None => Out::Refused },
    }
}
// .. all sets s, after those in acc
pub open spec fn evs_out(ix: Ix, acc: Seq<EnumeratedValues>, s: Seq<EnumeratedValues>, fp: Parts) -> Out<Seq<EnumeratedValues>>
    decreases s.len(),
{
    if s.len() == 0 { Out::Done(acc) } else {
        match ev_out(ix, s[0], fp) {
            Out::Done(e) => evs_out(ix, acc.push(e), s.drop_first(), fp),
            Out::Refused => Out::Refused, Out::Unfit => Out::Unfit, Out::Never => Out::Never,
        }
    }
}
// the fields in place of f, whose references have been followed
pub open spec fn field_elems(f: Field) -> Out<Seq<Field>> {
    match f {
        MaybeArray::Single(_) => Out::Done(seq![f]),
        MaybeArray::Array(info, d) => if fits(info.bit_range.offset as int, d, u32::MAX as int) { Out::Done(Seq::new(d.dim as nat, |i: int| MaybeArray::Single(field_nth(info, d, i)))) } else { Out::Unfit },
    }
}
pub open spec fn field_out(ix: Ix, f: Field, rp: Parts) -> Out<Seq<Field>> {
    match based(ix.fields, f, rp) {
        None => Out::Refused,
        Some((z, fp)) => match evs_out(ix, Seq::empty(), info_of(z).enumerated_values@, fp) {
            Out::Done(v) => if !held(v) { Out::Unfit } else { field_elems(with_info(z, FieldInfo { enumerated_values: list_of(v), ..info_of(z) })) },
            Out::Refused => Out::Refused, Out::Unfit => Out::Unfit, Out::Never => Out::Never,
        },
    }
}
pub open spec fn fields_out(ix: Ix, acc: Seq<Field>, s: Seq<Field>, rp: Parts) -> Out<Seq<Field>>
    decreases s.len(),
{
    if s.len() == 0 { Out::Done(acc) } else {
        match field_out(ix, s[0], rp) { Out::Done(v) => fields_out(ix, acc + v, s.drop_first(), rp), o => o }
    }
}
pub open spec fn as_kid(r: Register) -> RegisterCluster { RegisterCluster::Register(r) }
pub open spec fn reg_elems(r: Register) -> Out<Seq<RegisterCluster>> {
    match r {
        MaybeArray::Single(_) => Out::Done(seq![as_kid(r)]),
        MaybeArray::Array(info, d) => if fits(info.address_offset as int, d, u32::MAX as int) { Out::Done(Seq::new(d.dim as nat, |i: int| as_kid(MaybeArray::Single(reg_nth(info, d, i))))) } else { Out::Unfit },
    }
}
pub open spec fn reg_out(ix: Ix, r: Register, path: Parts) -> Out<Seq<RegisterCluster>> {
    match based(ix.registers, r, path) {
        None => Out::Refused,
        Some((z, rp)) => match info_of(z).fields {
            None => reg_elems(z),
            Some(fs) => match fields_out(ix, Seq::empty(), fs@, rp) {
                Out::Done(v) => if !held(v) { Out::Unfit } else { reg_elems(with_info(z, RegisterInfo { fields: Some(list_of(v)), ..info_of(z) })) },
                Out::Refused => Out::Refused, Out::Unfit => Out::Unfit, Out::Never => Out::Never,
            },
        },
    }
}
// register r of a cluster with this name and offset, as a register of what the cluster lies in
pub open spec fn flat_reg(r: Register, name: Seq<char>, offset: int) -> Register {
    with_info(r, RegisterInfo { name: text_of(name + seq!['_'] + info_of(r).name@), address_offset: (info_of(r).address_offset + offset) as u32, ..info_of(r) })
}
pub open spec fn flat_out(acc: Seq<RegisterCluster>, name: Seq<char>, offset: int, s: Seq<RegisterCluster>) -> Out<Seq<RegisterCluster>>
    decreases s.len(),
{
    if s.len() == 0 { Out::Done(acc) } else {
        match s[0] {
            RegisterCluster::Cluster(_) => Out::Never,
            RegisterCluster::Register(r) => if info_of(r).address_offset + offset > u32::MAX { Out::Unfit } else { flat_out(acc.push(as_kid(flat_reg(r, name, offset))), name, offset, s.drop_first()) },
        }
    }
}
// .. of the elements from k on of an array of clusters
pub open spec fn flats_out(acc: Seq<RegisterCluster>, info: ClusterInfo, s: Seq<RegisterCluster>, d: DimElement, k: int) -> Out<Seq<RegisterCluster>>
    decreases d.dim - k,
{
    if k >= d.dim { Out::Done(acc) } else {
        match flat_out(acc, nth_name(info.name@, d, k), at(info.address_offset as int, d, k), s) { Out::Done(v) => flats_out(v, info, s, d, k + 1), o => o }
    }
}
// the registers s of cluster c (or of every element of it), after acc
pub open spec fn cluster_elems(acc: Seq<RegisterCluster>, c: Cluster, s: Seq<RegisterCluster>) -> Out<Seq<RegisterCluster>> {
    match c {
        MaybeArray::Single(c) => flat_out(acc, c.name@, c.address_offset as int, s),
        MaybeArray::Array(info, d) => if fits(info.address_offset as int, d, u32::MAX as int) { flats_out(acc, info, s, d, 0) } else { Out::Unfit },
    }
}
pub proof fn lemma_flats(acc: Seq<RegisterCluster>, a: ClusterInfo, b: ClusterInfo, s: Seq<RegisterCluster>, d: DimElement, k: int)
    requires a.name == b.name, a.address_offset == b.address_offset,
    ensures flats_out(acc, a, s, d, k) == flats_out(acc, b, s, d, k),
    decreases d.dim - k,
{
    if k < d.dim {
        if let Out::Done(v) = flat_out(acc, nth_name(a.name@, d, k), at(a.address_offset as int, d, k), s) { lemma_flats(v, a, b, s, d, k + 1); }
    }
}
// the registers in place of s, after those in acc
pub open spec fn kids_out(ix: Ix, acc: Seq<RegisterCluster>, s: Seq<RegisterCluster>, path: Parts, active: Set<Parts>) -> Out<Seq<RegisterCluster>>
    decreases left(ix.clusters, active), s.len(),
    via kids_out_dec
{
    if s.len() == 0 { Out::Done(acc) } else {
        match s[0] {
            RegisterCluster::Register(r) => match reg_out(ix, r, path) { Out::Done(v) => kids_out(ix, acc + v, s.drop_first(), path, active), o => o },
            RegisterCluster::Cluster(c) => match based(ix.clusters, c, path) {
                None => Out::Refused,
                Some((z, cp)) => if active.contains(cp) { Out::Refused } else if !ix.clusters.contains_key(cp) { Out::Never } else {
                    match kids_out(ix, Seq::empty(), info_of(z).children@, cp, active.insert(cp)) {
                        Out::Done(v) => match cluster_elems(acc, z, v) {
                            Out::Done(v) => kids_out(ix, v, s.drop_first(), path, active),
                            o => o,
                        },
                        o => o,
                    }
                },
            },
        }
    }
}
#[via_fn]
proof fn kids_out_dec(ix: Ix, acc: Seq<RegisterCluster>, s: Seq<RegisterCluster>, path: Parts, active: Set<Parts>)
{
    if s.len() > 0 {
        if let RegisterCluster::Cluster(c) = s[0] {
            if let Some((z, cp)) = based(ix.clusters, c, path) {
                if !active.contains(cp) && ix.clusters.contains_key(cp) { lemma_left(ix.clusters, active, cp); }
            }
        }
    }
}
// what stands in place of cluster c, after acc
pub open spec fn cluster_out(ix: Ix, acc: Seq<RegisterCluster>, c: Cluster, path: Parts, active: Set<Parts>) -> Out<Seq<RegisterCluster>> {
    match based(ix.clusters, c, path) {
        None => Out::Refused,
        Some((z, cp)) => if active.contains(cp) { Out::Refused } else if !ix.clusters.contains_key(cp) { Out::Never } else {
            match kids_out(ix, Seq::empty(), info_of(z).children@, cp, active.insert(cp)) {
                Out::Done(v) => cluster_elems(acc, z, v),
                o => o,
            }
        },
    }
}
pub open spec fn kid_out(ix: Ix, acc: Seq<RegisterCluster>, x: RegisterCluster, path: Parts, active: Set<Parts>) -> Out<Seq<RegisterCluster>> {
    match x {
        RegisterCluster::Register(r) => match reg_out(ix, r, path) { Out::Done(v) => Out::Done(acc + v), o => o },
        RegisterCluster::Cluster(c) => cluster_out(ix, acc, c, path, active),
    }
}
pub open spec fn per_elems(p: Peripheral) -> Out<Seq<Peripheral>> {
    match p {
        MaybeArray::Single(_) => Out::Done(seq![p]),
        MaybeArray::Array(info, d) => if fits(info.base_address as int, d, u64::MAX as int) { Out::Done(Seq::new(d.dim as nat, |i: int| MaybeArray::Single(per_nth(info, d, i)))) } else { Out::Unfit },
    }
}
pub open spec fn per_out(ix: Ix, p: Peripheral) -> Out<Seq<Peripheral>> {
    match based(ix.peripherals, p, Seq::empty()) {
        None => Out::Refused,
        Some((z, path)) => match info_of(z).registers {
            None => per_elems(z),
            Some(s) => match kids_out(ix, Seq::empty(), s@, path, Set::empty()) {
                Out::Done(v) => if !held(v) { Out::Unfit } else { per_elems(with_info(z, PeripheralInfo { registers: Some(list_of(v)), ..info_of(z) })) },
                Out::Refused => Out::Refused, Out::Unfit => Out::Unfit, Out::Never => Out::Never,
            },
        },
    }
}
pub open spec fn pers_out(ix: Ix, acc: Seq<Peripheral>, s: Seq<Peripheral>) -> Out<Seq<Peripheral>>
    decreases s.len(),
{
    if s.len() == 0 { Out::Done(acc) } else {
        match per_out(ix, s[0]) { Out::Done(v) => pers_out(ix, acc + v, s.drop_first()), o => o }
    }
}
pub open spec fn device_out(d: Device) -> Out<Seq<Peripheral>> { pers_out(index_spec(d), Seq::empty(), d.peripherals@) }
//@ module parser::expand
use std::mem::take;
//@ fn svd-parser/src/expand.rs expand_field -> r
    requires fine(field_out(ix_of(*index), f, reg_parts(*rpath))),
    ensures
        r is Ok ==> (field_out(ix_of(*index), f, reg_parts(*rpath)) matches Out::Done(v) && final(fields)@ == old(fields)@ + v),
        r is Err ==> field_out(ix_of(*index), f, reg_parts(*rpath)) is Refused,
//@ opt vx-map-all
//@ start
    broadcast use {crate::ax::vx_axioms_device, crate::ax::ax_items_iter};
    let ghost f0 = f;
    let ghost mut y = f;
    let ghost (b0, n0) = (fields@, fields@.len() as int);
    let ghost ix = ix_of(*index);
//@ preloop 0
    let ghost z = f;
    let ghost fp = field_parts(fpath);
    let ghost s = info_of(f).enumerated_values@;
    let ghost mut done: Seq<EnumeratedValues> = Seq::empty();
    assert(based(ix.fields, f0, reg_parts(*rpath)) == Some((f, field_parts(fpath))));
//@ beforeloop 0
    let ghost full = it.remaining();
    proof { assert(s.skip(0) =~= s); }
//@ loop 0 itermut iter it
    invariant_except_break
        it.obeys_prophetic_iter_laws(), it.will_return_none(), it.decrease() is Some,
        it.remaining().len() <= full.len(),
        it.remaining() == full.skip(full.len() - it.remaining().len()),
        done.len() == full.len() - it.remaining().len(),
        forall|i: int| 0 <= i < done.len() ==> #[trigger] done[i] == *final(full[i]),
        evs_out(ix, done, s.skip(done.len() as int), fp) == evs_out(ix, Seq::empty(), s, fp),
    invariant
        full.len() == s.len(),
        ix == ix_of(*index), fp == field_parts(fpath),
        forall|i: int| 0 <= i < full.len() ==> *(#[trigger] full[i]) == s[i],
        fine(evs_out(ix, Seq::empty(), s, fp)),
        evs_out(ix, Seq::empty(), s, fp) is Refused ==> field_out(ix, f0, reg_parts(*rpath)) is Refused,
    ensures
        done.len() == full.len(),
        forall|i: int| 0 <= i < done.len() ==> #[trigger] done[i] == *final(full[i]),
        evs_out(ix, Seq::empty(), s, fp) == Out::Done(done),
    decreases (match it.decrease() { Some(n) => n, None => 0 })
//@ loopstart 0
    let ghost k = done.len() as int;
    assert(*ev == s[k]);
    assert(s.skip(k)[0] == s[k]);
    assert(s.skip(k).drop_first() =~= s.skip(k + 1));
//@ loopend 0
    proof { done = done.push(*ev); }
//@ afterloop 0
    assert(info_of(f).enumerated_values@ =~= done);
    proof { lemma_list_of(info_of(f).enumerated_values); }
    assert(f == with_info(z, FieldInfo { enumerated_values: list_of(done), ..info_of(z) }));
    proof { y = f; }
    assert(field_out(ix, f0, reg_parts(*rpath)) == field_elems(y));
//@ result
    proof {
        match y {
            MaybeArray::Single(_) => { assert(fields@ =~= b0 + seq![y]); }
            MaybeArray::Array(info, d) => {
                let v = Seq::new(d.dim as nat, |i: int| MaybeArray::Single(field_nth(info, d, i)));
                assert(fields@.len() == n0 + d.dim);
                assert forall|j: int| n0 <= j < n0 + d.dim implies #[trigger] fields@[j] == v[j - n0] by { lemma_field_nth(info_of(fields@[j]), info, d, j - n0); }
                assert(fields@ =~= b0 + v);
            }
        }
    }
//@ closure 0
|t: FieldInfo| -> (x: Field) ensures x == MaybeArray::<FieldInfo>::Single(t)
//@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ endfn
//@ fn svd-parser/src/expand.rs expand_register_array -> res
    requires fine(reg_out(ix_of(*index), r, block_parts(*path))),
    ensures
        res is Ok ==> (reg_out(ix_of(*index), r, block_parts(*path)) matches Out::Done(v) && final(regs)@ == old(regs)@ + v),
        res is Err ==> reg_out(ix_of(*index), r, block_parts(*path)) is Refused,
//@ opt vx-map-all
//@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ start
    broadcast use {crate::ax::vx_axioms_device, crate::ax::ax_items_iter};
    let ghost r0 = r;
    let ghost (b0, n0) = (regs@, regs@.len() as int);
    let ghost ix = ix_of(*index);
//@ preloop 0
    let ghost rp = reg_parts(rpath);
    let ghost s = info_of((based(ix.registers, r0, block_parts(*path))->0).0).fields->0@;
    assert(based(ix.registers, r0, block_parts(*path)) matches Some((z, p)) && p == rp && info_of(z).fields is Some);
//@ beforeloop 0
    let ghost full = it.remaining();
    proof { assert(s.skip(0) =~= s); assert(field@ =~= Seq::<Field>::empty()); }
//@ loop 0 desugar iter it
    invariant_except_break it_on(&it, full), fields_out(ix, field@, s.skip(it_pos(&it, full)), rp) == fields_out(ix, Seq::empty(), s, rp),
    invariant full == s, rp == reg_parts(rpath), ix == ix_of(*index), fine(fields_out(ix, Seq::empty(), s, rp)),
    ensures fields_out(ix, Seq::empty(), s, rp) == Out::Done(field@),
    decreases it_dec(&it),
//@ loopstart 0
    let ghost k = it_pos(&it, full) - 1;
    assert(f == s[k]);
    assert(s.skip(k)[0] == s[k]);
    assert(s.skip(k).drop_first() =~= s.skip(k + 1));
//@ afterloop 0
    proof { lemma_list_of(*field); }
//@ closure 0
|t: RegisterInfo| -> (x: RegisterCluster) ensures x == as_kid(MaybeArray::<RegisterInfo>::Single(t))
//@ result
    let ghost y = r;
    proof {
        assert(reg_out(ix, r0, block_parts(*path)) == reg_elems(y));
        match y {
            MaybeArray::Single(_) => { assert(regs@ =~= b0 + seq![as_kid(y)]); }
            MaybeArray::Array(info, d) => {
                let v = Seq::new(d.dim as nat, |i: int| as_kid(MaybeArray::Single(reg_nth(info, d, i))));
                assert(regs@.len() == n0 + d.dim);
                assert forall|j: int| n0 <= j < n0 + d.dim implies #[trigger] regs@[j] == v[j - n0] by { lemma_reg_nth(info_of(regs@[j]->Register_0), info, d, j - n0); }
                assert(regs@ =~= b0 + v);
            }
        }
    }
//@ endfn
//@ fn svd-parser/src/expand.rs expand_cluster
    requires fine(flat_out(regs@, c.name@, c.address_offset as int, c.children@)),
    ensures flat_out(old(regs)@, c.name@, c.address_offset as int, c.children@) == Out::Done(final(regs)@),
//@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ start
    broadcast use {crate::ax::vx_axioms_device};
    let ghost (b0, s, name, offset) = (regs@, c.children@, c.name@, c.address_offset as int);
//@ beforeloop 0
    let ghost full = it.remaining();
    proof { assert(s.skip(0) =~= s); }
//@ loop 0 desugar iter it
    invariant_except_break it_on(&it, full), flat_out(regs@, name, offset, s.skip(it_pos(&it, full))) == flat_out(b0, name, offset, s),
    invariant full == s, fine(flat_out(b0, name, offset, s)), name == c.name@, offset == c.address_offset,
    ensures flat_out(b0, name, offset, s) == Out::Done(regs@),
    decreases it_dec(&it),
//@ loopstart 0
    let ghost k = it_pos(&it, full) - 1;
    let ghost x0 = rc;
    assert(x0 == s[k]);
    assert(s.skip(k)[0] == s[k]);
    assert(s.skip(k).drop_first() =~= s.skip(k + 1));
    proof { reveal_strlit("_"); assert("_"@ =~= seq!['_']); }
//@ loopend 0
    proof {
        let x = regs@.last();
        lemma_text_of(info_of(x->Register_0).name);
        assert(info_of(x->Register_0).name@ =~= name + seq!['_'] + info_of(x0->Register_0).name@);
    }
//@ endfn
//@ module spec
// the children one by one
pub proof fn lemma_kids_step(ix: Ix, acc: Seq<RegisterCluster>, s: Seq<RegisterCluster>, path: Parts, active: Set<Parts>)
    requires s.len() > 0,
    ensures kids_out(ix, acc, s, path, active) == (match kid_out(ix, acc, s[0], path, active) { Out::Done(v) => kids_out(ix, v, s.drop_first(), path, active), o => o }),
{
}
pub proof fn lemma_kids_none(ix: Ix, acc: Seq<RegisterCluster>, s: Seq<RegisterCluster>, path: Parts, active: Set<Parts>)
    requires s.len() == 0,
    ensures kids_out(ix, acc, s, path, active) == Out::Done(acc),
{
}
// the children of a cluster are given apart from it
pub proof fn lemma_elems_of(acc: Seq<RegisterCluster>, a: Cluster, b: Cluster, s: Seq<RegisterCluster>)
    requires b == with_info(a, ClusterInfo { children: info_of(b).children, ..info_of(a) }),
    ensures cluster_elems(acc, a, s) == cluster_elems(acc, b, s),
{
    if let MaybeArray::Array(_, d) = a { lemma_flats(acc, info_of(a), info_of(b), s, d, 0); }
}
//@ module parser::expand
//@ fn svd-parser/src/expand.rs expand_register_cluster -> r
    requires fine(kid_out(ix_of(*index), regs@, rc, block_parts(*path), seen_of(active@))),
    ensures
        r is Ok ==> kid_out(ix_of(*index), old(regs)@, rc, block_parts(*path), seen_of(old(active)@)) == Out::Done(final(regs)@) && final(active)@ == old(active)@,
        r is Err ==> kid_out(ix_of(*index), old(regs)@, rc, block_parts(*path), seen_of(old(active)@)) is Refused,
    decreases left(shown(index.clusters@), seen_of(old(active)@)), 1int,
//@ endfn
//@ fn svd-parser/src/expand.rs expand_cluster_array -> r
    requires fine(cluster_out(ix_of(*index), regs@, vx_c, block_parts(*path), seen_of(active@))),
    ensures
        r is Ok ==> cluster_out(ix_of(*index), old(regs)@, vx_c, block_parts(*path), seen_of(old(active)@)) == Out::Done(final(regs)@) && final(active)@ == old(active)@,
        r is Err ==> cluster_out(ix_of(*index), old(regs)@, vx_c, block_parts(*path), seen_of(old(active)@)) is Refused,
    decreases left(shown(index.clusters@), seen_of(old(active)@)), 0int,
//@ sigsubst mut c: Cluster =>> vx_c: Cluster
//@ start
    hide(kids_out); hide(left);
    let mut c = vx_c;
    broadcast use {crate::ax::vx_axioms_device, lemma_seen, lemma_seen_has};
    let ghost c0 = c;
    let ghost (b0, a0) = (regs@, active@);
    let ghost ix = ix_of(*index);
    let ghost pp = block_parts(*path);
//@ preloop 0
    let ghost z = (based(ix.clusters, c0, pp)->0).0;
    let ghost cp = block_parts(cpath);
    let ghost s = info_of(z).children@;
    let ghost act = seen_of(a0).insert(cp);
    assert(based(ix.clusters, c0, pp) == Some((z, cp)));
    assert(cluster_out(ix, b0, c0, pp, seen_of(a0)) == (match kids_out(ix, Seq::empty(), s, cp, act) { Out::Done(v) => cluster_elems(b0, z, v), o => o }));
    assert(active@ =~= a0.push(cpath));
    proof { lemma_left(ix.clusters, seen_of(a0), cp); }
//@ beforeloop 0
    let ghost full = it.remaining();
    proof { assert forall|acc: Seq<RegisterCluster>| #[trigger] kids_out(ix, acc, s.skip(s.len() as int), cp, act) == Out::Done(acc) by { lemma_kids_none(ix, acc, s.skip(s.len() as int), cp, act); } }
    proof { assert(s.skip(0) =~= s); assert(info_of(c).children@ =~= Seq::<RegisterCluster>::empty()); }
//@ loop 0 desugar iter it
    invariant_except_break it_on(&it, full), kids_out(ix, info_of(c).children@, s.skip(it_pos(&it, full)), cp, act) == kids_out(ix, Seq::empty(), s, cp, act),
    invariant full == s, cp == block_parts(cpath), ix == ix_of(*index), active@ == a0.push(cpath), seen_of(active@) == act, regs@ == b0,
        left(shown(index.clusters@), act) < left(shown(index.clusters@), seen_of(a0)), a0 == old(active)@, pp == block_parts(*path), c0 == vx_c, b0 == old(regs)@,
        forall|acc: Seq<RegisterCluster>| #[trigger] kids_out(ix, acc, s.skip(s.len() as int), cp, act) == Out::Done(acc),
        kids_out(ix, Seq::empty(), s, cp, act) is Refused ==> cluster_out(ix, b0, c0, pp, seen_of(a0)) is Refused,
        fine(kids_out(ix, Seq::empty(), s, cp, act)), c == with_info(z, ClusterInfo { children: info_of(c).children, ..info_of(z) }),
    ensures kids_out(ix, Seq::empty(), s, cp, act) == Out::Done(info_of(c).children@),
    decreases it_dec(&it),
//@ loopstart 0
    let ghost k = it_pos(&it, full) - 1;
    broadcast use crate::ax::vx_axioms_device;
    assert(rc == s[k]);
    assert(s.skip(k)[0] == s[k]);
    assert(s.skip(k).drop_first() =~= s.skip(k + 1));
    proof { lemma_kids_step(ix, info_of(c).children@, s.skip(k), cp, act); }
//@ afterloop 0
    proof { lemma_elems_of(b0, z, c, info_of(c).children@); }
    assert(cluster_out(ix, b0, c0, pp, seen_of(a0)) == cluster_elems(b0, c, info_of(c).children@));
//@ preloop 1
    let ghost s1 = info.children@;
    assert(cluster_out(ix, b0, c0, pp, seen_of(a0)) == flats_out(b0, info, s1, dim, 0));
//@ beforeloop 1
    let ghost full1 = it.remaining();
    let ghost wn = it.will_return_none();
//@ loop 1 desugar iter it
    invariant_except_break it_on(&it, full1), wn == it.will_return_none(), flats_out(regs@, info, s1, dim, it_pos(&it, full1)) == flats_out(b0, info, s1, dim, 0),
    invariant s1 == info.children@, fits(info.address_offset as int, dim, u32::MAX as int), full1.len() <= dim.dim, wn ==> full1.len() == dim.dim, fine(flats_out(b0, info, s1, dim, 0)), info.children@ == s1,
        forall|i: int| 0 <= i < full1.len() ==> cluster_elem(#[trigger] full1[i], info, dim, i),
    ensures flats_out(b0, info, s1, dim, 0) == Out::Done(regs@),
    decreases it_dec(&it),
//@ loopstart 1
    let ghost k = it_pos(&it, full1) - 1;
    broadcast use crate::ax::vx_axioms_device;
    assert(cluster_elem(c, info, dim, k));
//@ endfn
//@ module spec
pub proof fn lemma_pers_step(ix: Ix, acc: Seq<Peripheral>, s: Seq<Peripheral>)
    requires s.len() > 0,
    ensures pers_out(ix, acc, s) == (match per_out(ix, s[0]) { Out::Done(v) => pers_out(ix, acc + v, s.drop_first()), o => o }),
{
}
//@ include expandfacts.rs
//@ module parser::expand
//@ fn svd-parser/src/expand.rs expand -> r
    requires device_dims(*indevice), !(device_out(*indevice) is Unfit),
    ensures
        r is Ok ==> (device_out(*indevice) matches Out::Done(v) && r->Ok_0 == (Device { peripherals: r->Ok_0.peripherals, ..*indevice }) && r->Ok_0.peripherals@ == v && plain_pers(v)),
        r is Err ==> device_out(*indevice) is Refused,
//@ opt vx-map-all
//@ start
    hide(kids_out); hide(left); hide(pers_out);
    broadcast use {crate::ax::vx_axioms_device, crate::ax::ax_items_iter};
    let ghost d0 = *indevice;
    proof { lemma_device_out(d0); }
//@ preloop 0
    let ghost ix = ix_of(index);
    let ghost ps = d0.peripherals@;
    assert(ix == index_spec(d0));
//@ beforeloop 0
    let ghost full = it.remaining();
    proof {
        assert(ps.skip(0) =~= ps); assert(device.peripherals@ =~= Seq::<Peripheral>::empty());
        assert forall|acc: Seq<Peripheral>| #[trigger] pers_out(ix, acc, ps.skip(ps.len() as int)) == Out::Done(acc) by { reveal(pers_out); }
    }
//@ loop 0 desugar iter it
    invariant_except_break it_on(&it, full), pers_out(ix, device.peripherals@, ps.skip(it_pos(&it, full))) == device_out(d0),
    invariant full == ps, ix == ix_of(index), d0 == *indevice, fine(device_out(d0)), device == (Device { peripherals: device.peripherals, ..d0 }),
        forall|acc: Seq<Peripheral>| #[trigger] pers_out(ix, acc, ps.skip(ps.len() as int)) == Out::Done(acc),
    ensures device_out(d0) == Out::Done(device.peripherals@),
    decreases it_dec(&it),
//@ loopstart 0
    broadcast use {crate::ax::vx_axioms_device, crate::ax::ax_items_iter};
    let ghost k = it_pos(&it, full) - 1;
    assert(p == ps[k]);
    assert(ps.skip(k)[0] == ps[k]);
    assert(ps.skip(k).drop_first() =~= ps.skip(k + 1));
    proof { lemma_pers_step(ix, device.peripherals@, ps.skip(k)); }
    let ghost p0 = p;
    let ghost b0 = device.peripherals@;
    let ghost n0 = b0.len() as int;
    assert(fine(per_out(ix, p0)));
    assert(per_out(ix, p0) is Refused ==> device_out(d0) is Refused);
//@ preloop 1
    let ghost pp = block_parts(path);
    let ghost s = info_of((based(ix.peripherals, p0, Seq::empty())->0).0).registers->0@;
    assert(based(ix.peripherals, p0, Seq::empty()) matches Some((z, q)) && q == pp && info_of(z).registers is Some);
//@ beforeloop 1
    let ghost full1 = it.remaining();
    proof {
        assert(s.skip(0) =~= s); assert(regs@ =~= Seq::<RegisterCluster>::empty());
        assert forall|acc: Seq<RegisterCluster>| #[trigger] kids_out(ix, acc, s.skip(s.len() as int), pp, Set::empty()) == Out::Done(acc) by { lemma_kids_none(ix, acc, s.skip(s.len() as int), pp, Set::empty()); }
    }
//@ loop 1 desugar iter it
    invariant_except_break it_on(&it, full1), kids_out(ix, regs@, s.skip(it_pos(&it, full1)), pp, Set::empty()) == kids_out(ix, Seq::empty(), s, pp, Set::empty()),
    invariant full1 == s, ix == ix_of(index), pp == block_parts(path), d0 == *indevice,
        fine(kids_out(ix, Seq::empty(), s, pp, Set::empty())),
        kids_out(ix, Seq::empty(), s, pp, Set::empty()) is Refused ==> device_out(d0) is Refused,
        forall|acc: Seq<RegisterCluster>| #[trigger] kids_out(ix, acc, s.skip(s.len() as int), pp, Set::empty()) == Out::Done(acc),
    ensures kids_out(ix, Seq::empty(), s, pp, Set::empty()) == Out::Done(regs@),
    decreases it_dec(&it),
//@ loopstart 1
    broadcast use {crate::ax::vx_axioms_device, crate::ax::ax_items_iter};
    let ghost k = it_pos(&it, full1) - 1;
    assert(rc == s[k]);
    assert(s.skip(k)[0] == s[k]);
    assert(s.skip(k).drop_first() =~= s.skip(k + 1));
    proof { lemma_kids_step(ix, regs@, s.skip(k), pp, Set::empty()); lemma_seen_none(Seq::<BlockPath>::empty()); }
//@ afterloop 1
    proof { lemma_list_of(*regs); }
//@ loopend 0
    let ghost y = p;
    proof {
        assert(per_out(ix, p0) == per_elems(y));
        match y {
            MaybeArray::Single(_) => { assert(device.peripherals@ =~= b0 + seq![y]); }
            MaybeArray::Array(info, d) => {
                let v = Seq::new(d.dim as nat, |i: int| MaybeArray::Single(per_nth(info, d, i)));
                assert(device.peripherals@.len() == n0 + d.dim);
                assert forall|j: int| n0 <= j < n0 + d.dim implies #[trigger] device.peripherals@[j] == v[j - n0] by { lemma_per_nth(info_of(device.peripherals@[j]), info, d, j - n0); }
                assert(device.peripherals@ =~= b0 + v);
            }
        }
    }
//@ closure 0
|t: PeripheralInfo| -> (x: Peripheral) ensures x == MaybeArray::<PeripheralInfo>::Single(t)
//@ endfn
