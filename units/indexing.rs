// C16, C17: the index of an unexpanded device.
//@ include chains.rs trusted
//@ noext parser::expand
//@ module spec
// ---------------------------------------------------------------- every array index is there
pub open spec fn dim_of<T>(m: MaybeArray<T>) -> bool { match m { MaybeArray::Single(_) => true, MaybeArray::Array(_, d) => dim_ok(d) } }
pub open spec fn reg_dims(r: Register) -> bool { dim_of(r) && forall|i: int| 0 <= i < fields_of(info_of(r)).len() ==> dim_of(#[trigger] fields_of(info_of(r))[i]) }
pub open spec fn kids_dims(s: Seq<RegisterCluster>) -> bool
    decreases s,
{
    forall|i: int| 0 <= i < s.len() ==> match #[trigger] s[i] {
        RegisterCluster::Register(r) => reg_dims(r),
        RegisterCluster::Cluster(MaybeArray::Single(c)) => kids_dims(c.children@),
        RegisterCluster::Cluster(MaybeArray::Array(c, d)) => dim_ok(d) && kids_dims(c.children@),
    }
}
pub open spec fn cluster_dims(c: Cluster) -> bool { dim_of(c) && kids_dims(info_of(c).children@) }
pub open spec fn per_dims(p: Peripheral) -> bool { dim_of(p) && kids_dims(children_of(info_of(p))) }
pub open spec fn device_dims(d: Device) -> bool { forall|i: int| 0 <= i < d.peripherals@.len() ==> per_dims(#[trigger] d.peripherals@[i]) }
pub proof fn lemma_kids_dims(s: Seq<RegisterCluster>)
    requires kids_dims(s),
    ensures
        forall|i: int| 0 <= i < regs_of(s).len() ==> reg_dims(#[trigger] regs_of(s)[i]),
        forall|i: int| 0 <= i < clusters_of(s).len() ==> cluster_dims(#[trigger] clusters_of(s)[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_first();
        assert forall|i: int| 0 <= i < t.len() implies match #[trigger] t[i] {
            RegisterCluster::Register(r) => reg_dims(r),
            RegisterCluster::Cluster(MaybeArray::Single(c)) => kids_dims(c.children@),
            RegisterCluster::Cluster(MaybeArray::Array(c, d)) => dim_ok(d) && kids_dims(c.children@),
        } by { assert(t[i] == s[i + 1]); }
        assert(kids_dims(t));
        lemma_kids_dims(t);
        assert(s[0] == s[0]);
        match s[0] {
            RegisterCluster::Register(r) => {
                let q = seq![r] + regs_of(t);
                assert forall|i: int| 0 <= i < q.len() implies reg_dims(#[trigger] q[i]) by { if i > 0 { assert(q[i] == regs_of(t)[i - 1]); } }
            },
            RegisterCluster::Cluster(c) => {
                let q = seq![c] + clusters_of(t);
                assert(cluster_dims(c));
                assert forall|i: int| 0 <= i < q.len() implies cluster_dims(#[trigger] q[i]) by { if i > 0 { assert(q[i] == clusters_of(t)[i - 1]); } }
            },
        }
    }
}
// ---------------------------------------------------------------- what the index holds
// the name of element i of an array
pub open spec fn nth_name(name: Seq<char>, d: DimElement, i: int) -> Seq<char> { elem_name(name, d, index_of(d, i)) }
// the enumerated values of the field at fp
pub open spec fn put_evs(ix: Ix, fp: Parts, s: Seq<EnumeratedValues>) -> Ix
    decreases s.len(),
{
    if s.len() == 0 { ix } else {
        put_evs(match s[0].name { Some(n) => Ix { evs: ix.evs.insert(fp.push(n@), s[0]), ..ix }, None => ix }, fp, s.drop_first())
    }
}
// field x, called name, in the scope path
pub open spec fn put_field_as(ix: Ix, path: Parts, x: Field, name: Seq<char>) -> Ix {
    let i = put_evs(ix, path.push(name), info_of(x).enumerated_values@);
    Ix { fields: i.fields.insert(path.push(name), x), ..i }
}
// .. under the names its elements have, from element k on
pub open spec fn put_field_names(ix: Ix, path: Parts, x: Field, d: DimElement, k: int) -> Ix
    decreases d.dim - k,
{
    if k >= d.dim { ix } else { put_field_names(put_field_as(ix, path, x, nth_name(info_of(x).name@, d, k)), path, x, d, k + 1) }
}
// .. under every name it has
pub open spec fn put_field(ix: Ix, path: Parts, x: Field) -> Ix {
    put_field_as(match x { MaybeArray::Array(_, d) => put_field_names(ix, path, x, d, 0), MaybeArray::Single(_) => ix }, path, x, info_of(x).name@)
}
pub open spec fn put_fields(ix: Ix, path: Parts, s: Seq<Field>) -> Ix
    decreases s.len(),
{ if s.len() == 0 { ix } else { put_fields(put_field(ix, path, s[0]), path, s.drop_first()) } }
// register x, called name, in the scope path
pub open spec fn put_reg_as(ix: Ix, path: Parts, x: Register, name: Seq<char>) -> Ix {
    let i = put_fields(ix, path.push(name), fields_of(info_of(x)));
    Ix { registers: i.registers.insert(path.push(name), x), ..i }
}
// .. under the names its elements have, from element k on
pub open spec fn put_reg_names(ix: Ix, path: Parts, x: Register, d: DimElement, k: int) -> Ix
    decreases d.dim - k,
{
    if k >= d.dim { ix } else { put_reg_names(put_reg_as(ix, path, x, nth_name(info_of(x).name@, d, k)), path, x, d, k + 1) }
}
// .. under every name it has
pub open spec fn put_reg(ix: Ix, path: Parts, x: Register) -> Ix {
    put_reg_as(match x { MaybeArray::Array(_, d) => put_reg_names(ix, path, x, d, 0), MaybeArray::Single(_) => ix }, path, x, info_of(x).name@)
}
pub open spec fn put_regs(ix: Ix, path: Parts, s: Seq<Register>) -> Ix
    decreases s.len(),
{ if s.len() == 0 { ix } else { put_regs(put_reg(ix, path, s[0]), path, s.drop_first()) } }
// cluster x, called name, in the scope path
pub open spec fn put_cluster_as(ix: Ix, path: Parts, x: Cluster, name: Seq<char>) -> Ix
    decreases x, 0int, 0int,
{
    let s = match x { MaybeArray::Single(c) => c.children@, MaybeArray::Array(c, _) => c.children@ };
    let i = put_kids(put_regs(ix, path.push(name), regs_of(s)), path.push(name), s);
    Ix { clusters: i.clusters.insert(path.push(name), x), ..i }
}
pub open spec fn put_cluster_names(ix: Ix, path: Parts, x: Cluster, d: DimElement, k: int) -> Ix
    decreases x, 1int, d.dim - k,
{
    if k >= d.dim { ix } else { put_cluster_names(put_cluster_as(ix, path, x, nth_name(info_of(x).name@, d, k)), path, x, d, k + 1) }
}
pub open spec fn put_cluster(ix: Ix, path: Parts, x: Cluster) -> Ix
    decreases x, 2int, 0int,
{
    put_cluster_as(match x { MaybeArray::Array(_, d) => put_cluster_names(ix, path, x, d, 0), MaybeArray::Single(_) => ix }, path, x, info_of(x).name@)
}
// the clusters among s
pub open spec fn put_kids(ix: Ix, path: Parts, s: Seq<RegisterCluster>) -> Ix
    decreases s, 3int, 0int,
{
    if s.len() == 0 { ix } else {
        put_kids(match s[0] { RegisterCluster::Cluster(c) => put_cluster(ix, path, c), _ => ix }, path, s.drop_first())
    }
}
pub open spec fn put_clusters(ix: Ix, path: Parts, s: Seq<Cluster>) -> Ix
    decreases s.len(),
{ if s.len() == 0 { ix } else { put_clusters(put_cluster(ix, path, s[0]), path, s.drop_first()) } }
pub proof fn lemma_kids(ix: Ix, path: Parts, s: Seq<RegisterCluster>)
    ensures put_kids(ix, path, s) == put_clusters(ix, path, clusters_of(s)),
    decreases s.len(),
{
    if s.len() > 0 {
        match s[0] {
            RegisterCluster::Cluster(c) => {
                lemma_kids(put_cluster(ix, path, c), path, s.drop_first());
                let q = seq![c] + clusters_of(s.drop_first());
                assert(q.drop_first() =~= clusters_of(s.drop_first()));
            },
            _ => lemma_kids(ix, path, s.drop_first()),
        }
    }
}
// peripheral x, called name, in the scope path
pub open spec fn put_per_as(ix: Ix, path: Parts, x: Peripheral, name: Seq<char>) -> Ix {
    let i = put_kids(put_regs(ix, path.push(name), regs_of(children_of(info_of(x)))), path.push(name), children_of(info_of(x)));
    Ix { peripherals: i.peripherals.insert(path.push(name), x), ..i }
}
// .. under the names its elements have, from element k on
pub open spec fn put_per_names(ix: Ix, path: Parts, x: Peripheral, d: DimElement, k: int) -> Ix
    decreases d.dim - k,
{
    if k >= d.dim { ix } else { put_per_names(put_per_as(ix, path, x, nth_name(info_of(x).name@, d, k)), path, x, d, k + 1) }
}
// .. under every name it has
pub open spec fn put_per(ix: Ix, path: Parts, x: Peripheral) -> Ix {
    put_per_as(match x { MaybeArray::Array(_, d) => put_per_names(ix, path, x, d, 0), MaybeArray::Single(_) => ix }, path, x, info_of(x).name@)
}
pub open spec fn put_pers(ix: Ix, s: Seq<Peripheral>) -> Ix
    decreases s.len(),
{ if s.len() == 0 { ix } else { put_pers(put_per(ix, Seq::empty(), s[0]), s.drop_first()) } }
pub open spec fn no_ix() -> Ix { Ix { peripherals: Map::empty(), clusters: Map::empty(), registers: Map::empty(), fields: Map::empty(), evs: Map::empty() } }
// the elements of a device by path: every element under each of its names, a later one with the same path in place of an earlier
pub open spec fn index_spec(d: Device) -> Ix { put_pers(no_ix(), d.peripherals@) }
pub proof fn lemma_names_next(ix: Ix, path: Parts, x: Cluster, d: DimElement, k: int)
    requires k < d.dim,
    ensures put_cluster_names(ix, path, x, d, k) == put_cluster_names(put_cluster_as(ix, path, x, nth_name(info_of(x).name@, d, k)), path, x, d, k + 1),
{
}
pub proof fn lemma_clusters_smaller(s: Seq<RegisterCluster>)
    ensures forall|i: int| 0 <= i < clusters_of(s).len() ==> decreases_to!(s => #[trigger] clusters_of(s)[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_first();
        lemma_clusters_smaller(t);
        assert(decreases_to!(s => t));
        assert(decreases_to!(s => s[0]));
        if let RegisterCluster::Cluster(c) = s[0] {
            let q = seq![c] + clusters_of(t);
            assert forall|i: int| 0 <= i < q.len() implies decreases_to!(s => #[trigger] q[i]) by { if i > 0 { assert(q[i] == clusters_of(t)[i - 1]); } }
        }
    }
}
pub proof fn lemma_shown_empty<K: Located, T>(m: Map<K, &T>)
    requires m == Map::<K, &T>::empty(),
    ensures shown(m) == Map::<Parts, T>::empty(),
{
    assert forall|p: Parts| !shown(m).contains_key(p) by { if shown(m).contains_key(p) { let k = lemma_shown_key(m, p); } }
    assert(shown(m) =~= Map::<Parts, T>::empty());
}
//@ module parser::expand
impl<'a> Default for Index<'a> {
    // derived (trusted)
    #[verifier::external_body]
    fn default() -> (r: Self)
        ensures r.peripherals@ == Map::<BlockPath, &'a Peripheral>::empty(), r.clusters@ == Map::<BlockPath, &'a Cluster>::empty(),
            r.registers@ == Map::<RegisterPath, &'a Register>::empty(), r.fields@ == Map::<FieldPath, &'a Field>::empty(), r.evs@ == Map::<EnumPath, &'a EnumeratedValues>::empty(),
    { unimplemented!() }
}
//@ fn svd-parser/src/expand.rs Index::add_field
    requires dim_of(*f),
    ensures ix_of(*final(self)) == put_field(ix_of(*old(self)), reg_parts(*path), *f),
//@ start
    broadcast use {crate::ax::vx_axioms_index, crate::ax::vx_axioms_device, vstd::std_specs::hash::group_hash_axioms, lemma_shown, lemma_shown_insert};
//@ beforeloop 0
    let ghost full0 = it.remaining();
    let ghost wn = it.will_return_none();
    let ghost d = *dim;
    let ghost base = ix_of(*self);
//@ loop 0 desugar iter it
    invariant_except_break it_on(&it, full0), wn == it.will_return_none(), put_field_names(ix_of(*self), reg_parts(*path), *f, d, it_pos(&it, full0)) == put_field_names(base, reg_parts(*path), *f, d, 0),
    invariant full0.len() <= d.dim, wn ==> full0.len() == d.dim, dim_of(*f),
        forall|i: int| 0 <= i < full0.len() ==> (#[trigger] full0[i])@ == nth_name(info_of(*f).name@, d, i),
    ensures ix_of(*self) == put_field_names(base, reg_parts(*path), *f, d, 0),
    decreases it_dec(&it),
//@ loopstart 0
    broadcast use {crate::ax::vx_axioms_index, crate::ax::vx_axioms_device, vstd::std_specs::hash::group_hash_axioms, lemma_shown, lemma_shown_insert};
    let ghost k = it_pos(&it, full0) - 1;
    assert(name@ == nth_name(info_of(*f).name@, d, k));
//@ beforeloop 1
    let ghost full1 = it.remaining();
    let ghost evs1 = info_of(*f).enumerated_values@;
    let ghost ix1 = ix_of(*self);
    proof { assert(evs1.skip(0) =~= evs1); }
//@ loop 1 desugar iter it
    invariant_except_break it_on(&it, full1), put_evs(ix_of(*self), field_parts(fpath), evs1.skip(it_pos(&it, full1))) == put_evs(ix1, field_parts(fpath), evs1),
    invariant full1.len() == evs1.len(), forall|i: int| 0 <= i < evs1.len() ==> *(#[trigger] full1[i]) == evs1[i],
    ensures ix_of(*self) == put_evs(ix1, field_parts(fpath), evs1),
    decreases it_dec(&it),
//@ loopstart 1
    broadcast use {crate::ax::vx_axioms_index, crate::ax::vx_axioms_device, vstd::std_specs::hash::group_hash_axioms, lemma_shown, lemma_shown_insert};
    let ghost k = it_pos(&it, full1) - 1;
    assert(*evs == evs1[k]);
    assert(evs1.skip(k)[0] == evs1[k]);
    assert(evs1.skip(k).drop_first() =~= evs1.skip(k + 1));
//@ beforeloop 2
    let ghost full2 = it.remaining();
    let ghost evs2 = info_of(*f).enumerated_values@;
    let ghost ix2 = ix_of(*self);
    proof { assert(evs2.skip(0) =~= evs2); }
//@ loop 2 desugar iter it
    invariant_except_break it_on(&it, full2), put_evs(ix_of(*self), field_parts(fpath), evs2.skip(it_pos(&it, full2))) == put_evs(ix2, field_parts(fpath), evs2),
    invariant full2.len() == evs2.len(), forall|i: int| 0 <= i < evs2.len() ==> *(#[trigger] full2[i]) == evs2[i],
    ensures ix_of(*self) == put_evs(ix2, field_parts(fpath), evs2),
    decreases it_dec(&it),
//@ loopstart 2
    broadcast use {crate::ax::vx_axioms_index, crate::ax::vx_axioms_device, vstd::std_specs::hash::group_hash_axioms, lemma_shown, lemma_shown_insert};
    let ghost k = it_pos(&it, full2) - 1;
    assert(*evs == evs2[k]);
    assert(evs2.skip(k)[0] == evs2[k]);
    assert(evs2.skip(k).drop_first() =~= evs2.skip(k + 1));
//@ endfn
//@ fn svd-parser/src/expand.rs Index::add_register
    requires reg_dims(*r),
    ensures ix_of(*final(self)) == put_reg(ix_of(*old(self)), block_parts(*path), *r),
//@ start
    broadcast use {crate::ax::vx_axioms_index, crate::ax::vx_axioms_device, vstd::std_specs::hash::group_hash_axioms, lemma_shown, lemma_shown_insert};
//@ beforeloop 0
    let ghost full0 = it.remaining();
    let ghost wn = it.will_return_none();
    let ghost d = *dim;
    let ghost base = ix_of(*self);
//@ loop 0 desugar iter it
    invariant_except_break it_on(&it, full0), wn == it.will_return_none(), put_reg_names(ix_of(*self), block_parts(*path), *r, d, it_pos(&it, full0)) == put_reg_names(base, block_parts(*path), *r, d, 0),
    invariant full0.len() <= d.dim, wn ==> full0.len() == d.dim, reg_dims(*r),
        forall|i: int| 0 <= i < full0.len() ==> (#[trigger] full0[i])@ == nth_name(info_of(*r).name@, d, i),
    ensures ix_of(*self) == put_reg_names(base, block_parts(*path), *r, d, 0),
    decreases it_dec(&it),
//@ loopstart 0
    broadcast use {crate::ax::vx_axioms_index, crate::ax::vx_axioms_device, vstd::std_specs::hash::group_hash_axioms, lemma_shown, lemma_shown_insert};
    let ghost k = it_pos(&it, full0) - 1;
    assert(name@ == nth_name(info_of(*r).name@, d, k));
//@ beforeloop 1
    let ghost full1 = it.remaining();
    let ghost s1 = fields_of(info_of(*r));
    let ghost ix1 = ix_of(*self);
    proof { assert(vals(full1) == s1); assert(s1.skip(0) =~= s1); }
//@ loop 1 desugar iter it
    invariant_except_break it_on(&it, full1), put_fields(ix_of(*self), reg_parts(rpath), s1.skip(it_pos(&it, full1))) == put_fields(ix1, reg_parts(rpath), s1),
    invariant full1.len() == s1.len(), forall|i: int| 0 <= i < s1.len() ==> *(#[trigger] full1[i]) == s1[i], forall|i: int| 0 <= i < s1.len() ==> dim_of(#[trigger] s1[i]),
    ensures ix_of(*self) == put_fields(ix1, reg_parts(rpath), s1),
    decreases it_dec(&it),
//@ loopstart 1
    let ghost k = it_pos(&it, full1) - 1;
    assert(*f == s1[k]);
    assert(s1.skip(k)[0] == s1[k]);
    assert(s1.skip(k).drop_first() =~= s1.skip(k + 1));
//@ beforeloop 2
    let ghost full2 = it.remaining();
    let ghost s2 = fields_of(info_of(*r));
    let ghost ix2 = ix_of(*self);
    proof { assert(vals(full2) == s2); assert(s2.skip(0) =~= s2); }
//@ loop 2 desugar iter it
    invariant_except_break it_on(&it, full2), put_fields(ix_of(*self), reg_parts(rpath), s2.skip(it_pos(&it, full2))) == put_fields(ix2, reg_parts(rpath), s2),
    invariant full2.len() == s2.len(), forall|i: int| 0 <= i < s2.len() ==> *(#[trigger] full2[i]) == s2[i], forall|i: int| 0 <= i < s2.len() ==> dim_of(#[trigger] s2[i]),
    ensures ix_of(*self) == put_fields(ix2, reg_parts(rpath), s2),
    decreases it_dec(&it),
//@ loopstart 2
    let ghost k = it_pos(&it, full2) - 1;
    assert(*f == s2[k]);
    assert(s2.skip(k)[0] == s2[k]);
    assert(s2.skip(k).drop_first() =~= s2.skip(k + 1));
//@ endfn
//@ fn svd-parser/src/expand.rs Index::add_cluster
    requires cluster_dims(*c),
    ensures ix_of(*final(self)) == put_cluster(ix_of(*old(self)), block_parts(*path), *c),
    decreases *c,
//@ start
    broadcast use {crate::ax::vx_axioms_index, crate::ax::vx_axioms_device, vstd::std_specs::hash::group_hash_axioms, lemma_shown, lemma_shown_insert};
    let ghost c0 = *c;
    let ghost ch = info_of(*c).children@;
    proof { lemma_kids_dims(ch); lemma_clusters_smaller(ch); assert(decreases_to!(c0 => ch)); }
//@ beforeloop 0
    let ghost full0 = it.remaining();
    let ghost wn = it.will_return_none();
    let ghost d = *dim;
    let ghost base = ix_of(*self);
//@ loop 0 desugar iter it
    invariant_except_break it_on(&it, full0), wn == it.will_return_none(), put_cluster_names(ix_of(*self), block_parts(*path), *c, d, it_pos(&it, full0)) == put_cluster_names(base, block_parts(*path), *c, d, 0),
    invariant full0.len() <= d.dim, wn ==> full0.len() == d.dim, cluster_dims(*c), *c == c0, ch == info_of(c0).children@, decreases_to!(c0 => ch),
        forall|i: int| 0 <= i < full0.len() ==> (#[trigger] full0[i])@ == nth_name(info_of(*c).name@, d, i),
    ensures ix_of(*self) == put_cluster_names(base, block_parts(*path), *c, d, 0),
    decreases it_dec(&it),
//@ loopstart 0
    proof { lemma_kids_dims(ch); lemma_clusters_smaller(ch); }
    broadcast use {crate::ax::vx_axioms_index, crate::ax::vx_axioms_device, vstd::std_specs::hash::group_hash_axioms, lemma_shown, lemma_shown_insert};
    let ghost k = it_pos(&it, full0) - 1;
    assert(name@ == nth_name(info_of(*c).name@, d, k));
//@ loopstart 0
    let ghost before0 = ix_of(*self);
//@ loopend 0
    proof {
        assert(ix_of(*self) == put_cluster_as(before0, block_parts(*path), c0, nth_name(info_of(c0).name@, d, k)));
        lemma_names_next(before0, block_parts(*path), c0, d, k);
    }
//@ beforeloop 1
    let ghost full1 = it.remaining();
    let ghost s1 = regs_of(ch);
    let ghost ix1 = ix_of(*self);
    proof { assert(vals(full1) == s1); assert(s1.skip(0) =~= s1); }
//@ loop 1 desugar iter it
    invariant_except_break it_on(&it, full1), put_regs(ix_of(*self), block_parts(cpath), s1.skip(it_pos(&it, full1))) == put_regs(ix1, block_parts(cpath), s1),
    invariant full1.len() == s1.len(), forall|i: int| 0 <= i < s1.len() ==> *(#[trigger] full1[i]) == s1[i], forall|i: int| 0 <= i < s1.len() ==> reg_dims(#[trigger] s1[i]),
    ensures ix_of(*self) == put_regs(ix1, block_parts(cpath), s1),
    decreases it_dec(&it),
//@ loopstart 1
    let ghost k = it_pos(&it, full1) - 1;
    assert(*r == s1[k]);
    assert(s1.skip(k)[0] == s1[k]);
    assert(s1.skip(k).drop_first() =~= s1.skip(k + 1));
//@ beforeloop 2
    let ghost full2 = it.remaining();
    let ghost s2 = clusters_of(ch);
    let ghost ix2 = ix_of(*self);
    proof { assert(vals(full2) == s2); assert(s2.skip(0) =~= s2); }
//@ loop 2 desugar iter it
    invariant_except_break it_on(&it, full2), put_clusters(ix_of(*self), block_parts(cpath), s2.skip(it_pos(&it, full2))) == put_clusters(ix2, block_parts(cpath), s2),
    invariant full2.len() == s2.len(), forall|i: int| 0 <= i < s2.len() ==> *(#[trigger] full2[i]) == s2[i], forall|i: int| 0 <= i < s2.len() ==> cluster_dims(#[trigger] s2[i]), forall|i: int| 0 <= i < s2.len() ==> decreases_to!(c0 => #[trigger] s2[i]), *c == c0,
    ensures ix_of(*self) == put_clusters(ix2, block_parts(cpath), s2),
    decreases it_dec(&it),
//@ loopstart 2
    let ghost k = it_pos(&it, full2) - 1;
    assert(*c == s2[k]);
    assert(s2.skip(k)[0] == s2[k]);
    assert(s2.skip(k).drop_first() =~= s2.skip(k + 1));
//@ afterloop 2
    proof { lemma_kids(ix2, block_parts(cpath), ch); }
//@ beforeloop 3
    let ghost full3 = it.remaining();
    let ghost s3 = regs_of(ch);
    let ghost ix3 = ix_of(*self);
    proof { assert(vals(full3) == s3); assert(s3.skip(0) =~= s3); }
//@ loop 3 desugar iter it
    invariant_except_break it_on(&it, full3), put_regs(ix_of(*self), block_parts(cpath), s3.skip(it_pos(&it, full3))) == put_regs(ix3, block_parts(cpath), s3),
    invariant full3.len() == s3.len(), forall|i: int| 0 <= i < s3.len() ==> *(#[trigger] full3[i]) == s3[i], forall|i: int| 0 <= i < s3.len() ==> reg_dims(#[trigger] s3[i]),
    ensures ix_of(*self) == put_regs(ix3, block_parts(cpath), s3),
    decreases it_dec(&it),
//@ loopstart 3
    let ghost k = it_pos(&it, full3) - 1;
    assert(*r == s3[k]);
    assert(s3.skip(k)[0] == s3[k]);
    assert(s3.skip(k).drop_first() =~= s3.skip(k + 1));
//@ beforeloop 4
    let ghost full4 = it.remaining();
    let ghost s4 = clusters_of(ch);
    let ghost ix4 = ix_of(*self);
    proof { assert(vals(full4) == s4); assert(s4.skip(0) =~= s4); }
//@ loop 4 desugar iter it
    invariant_except_break it_on(&it, full4), put_clusters(ix_of(*self), block_parts(cpath), s4.skip(it_pos(&it, full4))) == put_clusters(ix4, block_parts(cpath), s4),
    invariant full4.len() == s4.len(), forall|i: int| 0 <= i < s4.len() ==> *(#[trigger] full4[i]) == s4[i], forall|i: int| 0 <= i < s4.len() ==> cluster_dims(#[trigger] s4[i]), forall|i: int| 0 <= i < s4.len() ==> decreases_to!(c0 => #[trigger] s4[i]), *c == c0,
    ensures ix_of(*self) == put_clusters(ix4, block_parts(cpath), s4),
    decreases it_dec(&it),
//@ loopstart 4
    let ghost k = it_pos(&it, full4) - 1;
    assert(*c == s4[k]);
    assert(s4.skip(k)[0] == s4[k]);
    assert(s4.skip(k).drop_first() =~= s4.skip(k + 1));
//@ afterloop 4
    proof { lemma_kids(ix4, block_parts(cpath), ch); }
//@ endfn
//@ fn svd-parser/src/expand.rs Index::add_peripheral
    requires per_dims(*p),
    ensures ix_of(*final(self)) == put_per(ix_of(*old(self)), Seq::empty(), *p),
//@ start
    broadcast use {crate::ax::vx_axioms_index, crate::ax::vx_axioms_device, vstd::std_specs::hash::group_hash_axioms, lemma_shown, lemma_shown_insert};
    let ghost ch = children_of(info_of(*p));
    proof { lemma_kids_dims(ch); assert(forall|t: Seq<char>| #[trigger] Seq::<Seq<char>>::empty().push(t) =~= seq![t]); }
//@ beforeloop 0
    let ghost full0 = it.remaining();
    let ghost wn = it.will_return_none();
    let ghost d = *dim;
    let ghost base = ix_of(*self);
//@ loop 0 desugar iter it
    invariant_except_break it_on(&it, full0), wn == it.will_return_none(), put_per_names(ix_of(*self), Seq::empty(), *p, d, it_pos(&it, full0)) == put_per_names(base, Seq::empty(), *p, d, 0),
    invariant full0.len() <= d.dim, wn ==> full0.len() == d.dim, per_dims(*p), ch == children_of(info_of(*p)),
        forall|i: int| 0 <= i < full0.len() ==> (#[trigger] full0[i])@ == nth_name(info_of(*p).name@, d, i),
    ensures ix_of(*self) == put_per_names(base, Seq::empty(), *p, d, 0),
    decreases it_dec(&it),
//@ loopstart 0
    proof { lemma_kids_dims(ch); assert(forall|t: Seq<char>| #[trigger] Seq::<Seq<char>>::empty().push(t) =~= seq![t]); }
    broadcast use {crate::ax::vx_axioms_index, crate::ax::vx_axioms_device, vstd::std_specs::hash::group_hash_axioms, lemma_shown, lemma_shown_insert};
    let ghost k = it_pos(&it, full0) - 1;
    assert(name@ == nth_name(info_of(*p).name@, d, k));
//@ beforeloop 1
    let ghost full1 = it.remaining();
    let ghost s1 = regs_of(ch);
    let ghost ix1 = ix_of(*self);
    proof { assert(vals(full1) == s1); assert(s1.skip(0) =~= s1); }
//@ loop 1 desugar iter it
    invariant_except_break it_on(&it, full1), put_regs(ix_of(*self), block_parts(path), s1.skip(it_pos(&it, full1))) == put_regs(ix1, block_parts(path), s1),
    invariant full1.len() == s1.len(), forall|i: int| 0 <= i < s1.len() ==> *(#[trigger] full1[i]) == s1[i], forall|i: int| 0 <= i < s1.len() ==> reg_dims(#[trigger] s1[i]),
    ensures ix_of(*self) == put_regs(ix1, block_parts(path), s1),
    decreases it_dec(&it),
//@ loopstart 1
    let ghost k = it_pos(&it, full1) - 1;
    assert(*r == s1[k]);
    assert(s1.skip(k)[0] == s1[k]);
    assert(s1.skip(k).drop_first() =~= s1.skip(k + 1));
//@ beforeloop 2
    let ghost full2 = it.remaining();
    let ghost s2 = clusters_of(ch);
    let ghost ix2 = ix_of(*self);
    proof { assert(vals(full2) == s2); assert(s2.skip(0) =~= s2); }
//@ loop 2 desugar iter it
    invariant_except_break it_on(&it, full2), put_clusters(ix_of(*self), block_parts(path), s2.skip(it_pos(&it, full2))) == put_clusters(ix2, block_parts(path), s2),
    invariant full2.len() == s2.len(), forall|i: int| 0 <= i < s2.len() ==> *(#[trigger] full2[i]) == s2[i], forall|i: int| 0 <= i < s2.len() ==> cluster_dims(#[trigger] s2[i]),
    ensures ix_of(*self) == put_clusters(ix2, block_parts(path), s2),
    decreases it_dec(&it),
//@ loopstart 2
    let ghost k = it_pos(&it, full2) - 1;
    assert(*c == s2[k]);
    assert(s2.skip(k)[0] == s2[k]);
    assert(s2.skip(k).drop_first() =~= s2.skip(k + 1));
//@ afterloop 2
    proof { lemma_kids(ix2, block_parts(path), ch); }
//@ beforeloop 3
    let ghost full3 = it.remaining();
    let ghost s3 = regs_of(ch);
    let ghost ix3 = ix_of(*self);
    proof { assert(vals(full3) == s3); assert(s3.skip(0) =~= s3); }
//@ loop 3 desugar iter it
    invariant_except_break it_on(&it, full3), put_regs(ix_of(*self), block_parts(path), s3.skip(it_pos(&it, full3))) == put_regs(ix3, block_parts(path), s3),
    invariant full3.len() == s3.len(), forall|i: int| 0 <= i < s3.len() ==> *(#[trigger] full3[i]) == s3[i], forall|i: int| 0 <= i < s3.len() ==> reg_dims(#[trigger] s3[i]),
    ensures ix_of(*self) == put_regs(ix3, block_parts(path), s3),
    decreases it_dec(&it),
//@ loopstart 3
    let ghost k = it_pos(&it, full3) - 1;
    assert(*r == s3[k]);
    assert(s3.skip(k)[0] == s3[k]);
    assert(s3.skip(k).drop_first() =~= s3.skip(k + 1));
//@ beforeloop 4
    let ghost full4 = it.remaining();
    let ghost s4 = clusters_of(ch);
    let ghost ix4 = ix_of(*self);
    proof { assert(vals(full4) == s4); assert(s4.skip(0) =~= s4); }
//@ loop 4 desugar iter it
    invariant_except_break it_on(&it, full4), put_clusters(ix_of(*self), block_parts(path), s4.skip(it_pos(&it, full4))) == put_clusters(ix4, block_parts(path), s4),
    invariant full4.len() == s4.len(), forall|i: int| 0 <= i < s4.len() ==> *(#[trigger] full4[i]) == s4[i], forall|i: int| 0 <= i < s4.len() ==> cluster_dims(#[trigger] s4[i]),
    ensures ix_of(*self) == put_clusters(ix4, block_parts(path), s4),
    decreases it_dec(&it),
//@ loopstart 4
    let ghost k = it_pos(&it, full4) - 1;
    assert(*c == s4[k]);
    assert(s4.skip(k)[0] == s4[k]);
    assert(s4.skip(k).drop_first() =~= s4.skip(k + 1));
//@ afterloop 4
    proof { lemma_kids(ix4, block_parts(path), ch); }
//@ endfn
//@ fn svd-parser/src/expand.rs Index::create -> r
    requires device_dims(*device),
    ensures ix_of(r) == index_spec(*device),
//@ beforeloop 0
    let ghost full = it.remaining();
    let ghost ps = device.peripherals@;
    proof {
        lemma_shown_empty(index.peripherals@); lemma_shown_empty(index.clusters@); lemma_shown_empty(index.registers@); lemma_shown_empty(index.fields@); lemma_shown_empty(index.evs@);
        assert(ps.skip(0) =~= ps);
    }
//@ loop 0 desugar iter it
    invariant_except_break it_on(&it, full), put_pers(ix_of(index), ps.skip(it_pos(&it, full))) == put_pers(no_ix(), ps),
    invariant full.len() == ps.len(), ps == device.peripherals@, device_dims(*device), forall|i: int| 0 <= i < ps.len() ==> *(#[trigger] full[i]) == ps[i],
    ensures ix_of(index) == put_pers(no_ix(), ps),
    decreases it_dec(&it),
//@ loopstart 0
    let ghost k = it_pos(&it, full) - 1;
    assert(*p == ps[k]);
    assert(ps.skip(k)[0] == ps[k]);
    assert(ps.skip(k).drop_first() =~= ps.skip(k + 1));
//@ endfn
