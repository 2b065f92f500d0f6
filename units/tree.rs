// C21: validation of an element and everything below it.
//@ include valid.rs
//@ include iters.rs
//@ module svd::cluster
use core::ops::Deref as _;
//@ module svd::field
use core::ops::Deref as _;
//@ module svd::peripheral
use core::ops::Deref as _;
//@ module svd::register
use core::ops::Deref as _;
//@ module spec
pub open spec fn evs_all(e: EnumeratedValues, lvl: ValidateLevel) -> bool {
    evs_ok(e, lvl) && forall|i: int| 0 <= i < e.values@.len() ==> ev_ok(#[trigger] e.values@[i], lvl)
}
pub open spec fn field_all(f: FieldInfo, lvl: ValidateLevel) -> bool {
    field_ok(f, lvl) && forall|i: int| 0 <= i < f.enumerated_values@.len() ==> evs_all(#[trigger] f.enumerated_values@[i], lvl)
}
pub open spec fn reg_all(x: RegisterInfo, lvl: ValidateLevel) -> bool {
    &&& reg_ok(x, lvl)
    &&& (rp_valid(x.properties, lvl) is Ok)
    &&& forall|i: int| 0 <= i < fields_of(x).len() ==> field_all(info_of(#[trigger] fields_of(x)[i]), lvl)
}
pub open spec fn cl_all(x: ClusterInfo, lvl: ValidateLevel) -> bool
    decreases x,
{
    &&& cl_ok(x, lvl)
    &&& (rp_valid(x.default_register_properties, lvl) is Ok)
    &&& forall|i: int| 0 <= i < x.children@.len() ==> child_all(#[trigger] x.children@[i], lvl)
}
pub open spec fn child_all(c: RegisterCluster, lvl: ValidateLevel) -> bool
    decreases c,
{
    match c {
        RegisterCluster::Register(r) => reg_all(info_of(r), lvl),
        RegisterCluster::Cluster(MaybeArray::Single(k)) => cl_all(k, lvl),
        RegisterCluster::Cluster(MaybeArray::Array(k, _)) => cl_all(k, lvl),
    }
}
pub open spec fn per_all(x: PeripheralInfo, lvl: ValidateLevel) -> bool {
    &&& per_ok(x, lvl)
    &&& (rp_valid(x.default_register_properties, lvl) is Ok)
    &&& forall|i: int| 0 <= i < children_of(x).len() ==> child_all(#[trigger] children_of(x)[i], lvl)
}
pub open spec fn dev_all(x: Device, lvl: ValidateLevel) -> bool {
    &&& dev_ok(x, lvl)
    &&& (rp_valid(x.default_register_properties, lvl) is Ok)
    &&& forall|i: int| 0 <= i < x.peripherals@.len() ==> per_all(info_of(#[trigger] x.peripherals@[i]), lvl)
}
pub open spec fn regs_all(s: Seq<Register>, lvl: ValidateLevel) -> bool { forall|i: int| 0 <= i < s.len() ==> reg_all(info_of(#[trigger] s[i]), lvl) }
pub open spec fn clusters_all(s: Seq<Cluster>, lvl: ValidateLevel) -> bool { forall|i: int| 0 <= i < s.len() ==> cl_all(info_of(#[trigger] s[i]), lvl) }
pub open spec fn children_all(s: Seq<RegisterCluster>, lvl: ValidateLevel) -> bool { forall|i: int| 0 <= i < s.len() ==> child_all(#[trigger] s[i], lvl) }
// all children are valid exactly when all registers and all clusters among them are
pub proof fn lemma_children_all(s: Seq<RegisterCluster>, lvl: ValidateLevel)
    ensures
        children_all(s, lvl) <==> regs_all(regs_of(s), lvl) && clusters_all(clusters_of(s), lvl),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_first();
        lemma_children_all(t, lvl);
        assert(s =~= seq![s[0]] + t);
        assert(children_all(s, lvl) <==> child_all(s[0], lvl) && children_all(t, lvl)) by {
            assert(forall|i: int| 0 <= i < t.len() ==> t[i] == #[trigger] s[i + 1]);
            assert(forall|i: int| 0 < i < s.len() ==> #[trigger] s[i] == t[i - 1]);
        }
        match s[0] {
            RegisterCluster::Register(r) => {
                let (a, b) = (regs_of(s), regs_of(t));
                assert(a =~= seq![r] + b);
                assert(a[0] == r);
                assert(forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[i + 1]);
                assert(forall|i: int| 0 < i < a.len() ==> #[trigger] a[i] == b[i - 1]);
            }
            RegisterCluster::Cluster(r) => {
                let (a, b) = (clusters_of(s), clusters_of(t));
                assert(a =~= seq![r] + b);
                assert(a[0] == r);
                assert(forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[i + 1]);
                assert(forall|i: int| 0 < i < a.len() ==> #[trigger] a[i] == b[i - 1]);
            }
        }
    }
}
// clusters below a cluster are smaller
pub proof fn lemma_clusters_smaller(s: Seq<RegisterCluster>, i: int)
    requires 0 <= i < clusters_of(s).len(),
    ensures exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == RegisterCluster::Cluster(clusters_of(s)[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_first();
        match s[0] {
            RegisterCluster::Cluster(r) => {
                if i == 0 { assert(s[0] == RegisterCluster::Cluster(clusters_of(s)[i])); } else {
                    lemma_clusters_smaller(t, i - 1);
                    let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] == RegisterCluster::Cluster(clusters_of(t)[i - 1]);
                    assert(s[j + 1] == t[j]);
                }
            }
            _ => {
                lemma_clusters_smaller(t, i);
                let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] == RegisterCluster::Cluster(clusters_of(t)[i]);
                assert(s[j + 1] == t[j]);
            }
        }
    }
}
//@ fn svd-rs/src/enumeratedvalues.rs EnumeratedValues::validate_all -> r
    ensures r is Ok <==> evs_all(*self, lvl),
//@ beforeloop 0
    let ghost full0 = it0.remaining();
//@ loop 0 desugar iter it0
    invariant_except_break
        it_on(&it0, full0),
        forall|i: int| 0 <= i < it_pos(&it0, full0) ==> ev_ok(#[trigger] self.values@[i], lvl),
    invariant
        full0.len() == self.values@.len(),
        forall|i: int| 0 <= i < full0.len() ==> *(#[trigger] full0[i]) == self.values@[i],
    ensures
        forall|i: int| 0 <= i < self.values@.len() ==> ev_ok(#[trigger] self.values@[i], lvl),
    decreases it_dec(&it0)
//@ loopstart 0
    assert(*ev == self.values@[it_pos(&it0, full0) - 1]);
//@ endfn
//@ fn svd-rs/src/field.rs FieldInfo::validate_all -> r
    ensures r is Ok <==> field_all(*self, lvl),
//@ beforeloop 0
    let ghost full0 = it0.remaining();
//@ loop 0 desugar iter it0
    invariant_except_break
        it_on(&it0, full0),
        forall|i: int| 0 <= i < it_pos(&it0, full0) ==> evs_all(#[trigger] self.enumerated_values@[i], lvl),
    invariant
        full0.len() == self.enumerated_values@.len(),
        forall|i: int| 0 <= i < full0.len() ==> *(#[trigger] full0[i]) == self.enumerated_values@[i],
    ensures
        forall|i: int| 0 <= i < self.enumerated_values@.len() ==> evs_all(#[trigger] self.enumerated_values@[i], lvl),
    decreases it_dec(&it0)
//@ loopstart 0
    assert(*evs == self.enumerated_values@[it_pos(&it0, full0) - 1]);
//@ endfn
//@ fn svd-rs/src/field.rs Field::validate_all -> r
    ensures r is Ok <==> field_all(info_of(*self), lvl),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfo::validate_all -> r
    ensures r is Ok <==> reg_all(*self, lvl),
//@ beforeloop 0
    let ghost full0 = it0.remaining();
    assert forall|i: int| 0 <= i < full0.len() implies *(#[trigger] full0[i]) == fields_of(*self)[i] by { assert(vals(full0)[i] == *full0[i]); }
//@ loop 0 desugar iter it0
    invariant_except_break
        it_on(&it0, full0),
        forall|i: int| 0 <= i < it_pos(&it0, full0) ==> field_all(info_of(#[trigger] fields_of(*self)[i]), lvl),
    invariant
        full0.len() == fields_of(*self).len(),
        forall|i: int| 0 <= i < full0.len() ==> *(#[trigger] full0[i]) == fields_of(*self)[i],
        (rp_valid(self.properties, lvl) is Ok),
    ensures
        forall|i: int| 0 <= i < fields_of(*self).len() ==> field_all(info_of(#[trigger] fields_of(*self)[i]), lvl),
    decreases it_dec(&it0)
//@ loopstart 0
    assert(*f == fields_of(*self)[it_pos(&it0, full0) - 1]);
//@ endfn
//@ fn svd-rs/src/register.rs Register::validate_all -> r
    ensures r is Ok <==> reg_all(info_of(*self), lvl),
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfo::validate_all -> r
    ensures r is Ok <==> cl_all(*self, lvl),
    decreases *self,
//@ start
    proof { lemma_children_all(self.children@, lvl); assert(cl_all(*self, lvl) ==> children_all(self.children@, lvl)); }
//@ beforeloop 0
    let ghost full0 = it0.remaining();
    assert forall|i: int| 0 <= i < full0.len() implies *(#[trigger] full0[i]) == regs_of(self.children@)[i] by { assert(vals(full0)[i] == *full0[i]); }
//@ loop 0 desugar iter it0
    invariant_except_break
        it_on(&it0, full0),
        forall|i: int| 0 <= i < it_pos(&it0, full0) ==> reg_all(info_of(#[trigger] regs_of(self.children@)[i]), lvl),
    invariant
        full0.len() == regs_of(self.children@).len(),
        forall|i: int| 0 <= i < full0.len() ==> *(#[trigger] full0[i]) == regs_of(self.children@)[i],
        (rp_valid(self.default_register_properties, lvl) is Ok),
        cl_all(*self, lvl) ==> regs_all(regs_of(self.children@), lvl) && clusters_all(clusters_of(self.children@), lvl),
    ensures
        forall|i: int| 0 <= i < regs_of(self.children@).len() ==> reg_all(info_of(#[trigger] regs_of(self.children@)[i]), lvl),
    decreases it_dec(&it0)
//@ loopstart 0
    assert(*r == regs_of(self.children@)[it_pos(&it0, full0) - 1]);
//@ beforeloop 1
    let ghost full1 = it1.remaining();
    assert forall|i: int| 0 <= i < full1.len() implies *(#[trigger] full1[i]) == clusters_of(self.children@)[i] by { assert(vals(full1)[i] == *full1[i]); }
//@ loop 1 desugar iter it1
    invariant_except_break
        it_on(&it1, full1),
        forall|i: int| 0 <= i < it_pos(&it1, full1) ==> cl_all(info_of(#[trigger] clusters_of(self.children@)[i]), lvl),
    invariant
        full1.len() == clusters_of(self.children@).len(),
        forall|i: int| 0 <= i < full1.len() ==> *(#[trigger] full1[i]) == clusters_of(self.children@)[i],
        (rp_valid(self.default_register_properties, lvl) is Ok),
        cl_all(*self, lvl) ==> regs_all(regs_of(self.children@), lvl) && clusters_all(clusters_of(self.children@), lvl),
    ensures
        forall|i: int| 0 <= i < clusters_of(self.children@).len() ==> cl_all(info_of(#[trigger] clusters_of(self.children@)[i]), lvl),
    decreases it_dec(&it1)
//@ loopstart 1
    assert(*c == clusters_of(self.children@)[it_pos(&it1, full1) - 1]);
    proof { lemma_clusters_smaller(self.children@, it_pos(&it1, full1) - 1); }

    assert(exists|j: int| 0 <= j < self.children@.len() && #[trigger] self.children@[j] == RegisterCluster::Cluster(*c));
    let ghost j = choose|j: int| 0 <= j < self.children@.len() && #[trigger] self.children@[j] == RegisterCluster::Cluster(*c);
    assert(decreases_to!(*self => self.children));
    assert(decreases_to!(self.children => self.children@));
    assert(decreases_to!(self.children@ => self.children@[j]));
    assert(decreases_to!(self.children@[j] => self.children@[j]->Cluster_0));
    assert(self.children@[j]->Cluster_0 == *c);
//@ endfn
//@ fn svd-rs/src/cluster.rs Cluster::validate_all -> r
    ensures r is Ok <==> cl_all(info_of(*self), lvl),
    decreases *self,
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfo::validate_all -> r
    ensures r is Ok <==> per_all(*self, lvl),
//@ start
    proof { lemma_children_all(children_of(*self), lvl); assert(per_all(*self, lvl) ==> children_all(children_of(*self), lvl)); }
//@ beforeloop 2
    let ghost full2 = it2.remaining();
    assert forall|i: int| 0 <= i < full2.len() implies *(#[trigger] full2[i]) == regs_of(children_of(*self))[i] by { assert(vals(full2)[i] == *full2[i]); }
//@ loop 2 desugar iter it2
    invariant_except_break
        it_on(&it2, full2),
        forall|i: int| 0 <= i < it_pos(&it2, full2) ==> reg_all(info_of(#[trigger] regs_of(children_of(*self))[i]), lvl),
    invariant
        full2.len() == regs_of(children_of(*self)).len(),
        forall|i: int| 0 <= i < full2.len() ==> *(#[trigger] full2[i]) == regs_of(children_of(*self))[i],
        (rp_valid(self.default_register_properties, lvl) is Ok),
        per_all(*self, lvl) ==> regs_all(regs_of(children_of(*self)), lvl) && clusters_all(clusters_of(children_of(*self)), lvl),
    ensures
        forall|i: int| 0 <= i < regs_of(children_of(*self)).len() ==> reg_all(info_of(#[trigger] regs_of(children_of(*self))[i]), lvl),
    decreases it_dec(&it2)
//@ loopstart 2
    assert(*r == regs_of(children_of(*self))[it_pos(&it2, full2) - 1]);
//@ beforeloop 3
    let ghost full3 = it3.remaining();
    assert forall|i: int| 0 <= i < full3.len() implies *(#[trigger] full3[i]) == clusters_of(children_of(*self))[i] by { assert(vals(full3)[i] == *full3[i]); }
//@ loop 3 desugar iter it3
    invariant_except_break
        it_on(&it3, full3),
        forall|i: int| 0 <= i < it_pos(&it3, full3) ==> cl_all(info_of(#[trigger] clusters_of(children_of(*self))[i]), lvl),
    invariant
        full3.len() == clusters_of(children_of(*self)).len(),
        forall|i: int| 0 <= i < full3.len() ==> *(#[trigger] full3[i]) == clusters_of(children_of(*self))[i],
        (rp_valid(self.default_register_properties, lvl) is Ok),
        per_all(*self, lvl) ==> regs_all(regs_of(children_of(*self)), lvl) && clusters_all(clusters_of(children_of(*self)), lvl),
    ensures
        forall|i: int| 0 <= i < clusters_of(children_of(*self)).len() ==> cl_all(info_of(#[trigger] clusters_of(children_of(*self))[i]), lvl),
    decreases it_dec(&it3)
//@ loopstart 3
    assert(*c == clusters_of(children_of(*self))[it_pos(&it3, full3) - 1]);
//@ endfn
//@ fn svd-rs/src/peripheral.rs Peripheral::validate_all -> r
    ensures r is Ok <==> per_all(info_of(*self), lvl),
//@ endfn
//@ fn svd-rs/src/device.rs Device::validate_all -> r
    ensures r is Ok <==> dev_all(*self, lvl),
//@ beforeloop 0
    let ghost full0 = it0.remaining();
//@ loop 0 desugar iter it0
    invariant_except_break
        it_on(&it0, full0),
        forall|i: int| 0 <= i < it_pos(&it0, full0) ==> per_all(info_of(#[trigger] self.peripherals@[i]), lvl),
    invariant
        full0.len() == self.peripherals@.len(),
        forall|i: int| 0 <= i < full0.len() ==> *(#[trigger] full0[i]) == self.peripherals@[i],
        (rp_valid(self.default_register_properties, lvl) is Ok),
    ensures
        forall|i: int| 0 <= i < self.peripherals@.len() ==> per_all(info_of(#[trigger] self.peripherals@[i]), lvl),
    decreases it_dec(&it0)
//@ loopstart 0
    assert(*p == self.peripherals@[it_pos(&it0, full0) - 1]);
//@ endfn
