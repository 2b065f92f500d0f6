// Shared: the child iterators of svd-rs (registers(), clusters(), all_registers()).
//@ include std.rs
//@ include array.rs
//@ module ax
// an iterator over a slice ends
pub broadcast axiom fn ax_slice_iter_ends<T>(it: &core::slice::Iter<T>)
    ensures #[trigger] vstd::std_specs::iter::IteratorSpec::decrease(it) is Some,
;
pub broadcast axiom fn ax_slice_iter_mut_ends<T>(it: &core::slice::IterMut<T>)
    ensures #[trigger] vstd::std_specs::iter::IteratorSpec::decrease(it) is Some,
;
//@ module spec
pub open spec fn vals<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
// the children of one kind, in document order
pub open spec fn regs_of(s: Seq<RegisterCluster>) -> Seq<Register>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        match s[0] { RegisterCluster::Register(r) => seq![r] + regs_of(s.drop_first()), _ => regs_of(s.drop_first()) }
    }
}
pub open spec fn clusters_of(s: Seq<RegisterCluster>) -> Seq<Cluster>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        match s[0] { RegisterCluster::Cluster(r) => seq![r] + clusters_of(s.drop_first()), _ => clusters_of(s.drop_first()) }
    }
}
// every register at any depth, in document order
pub open spec fn all_regs_to(s: Seq<RegisterCluster>, n: nat) -> Seq<Register>
    decreases s, n,
{
    if n == 0 || n > s.len() { Seq::empty() } else {
        all_regs_to(s, (n - 1) as nat) + match s[n - 1] {
            RegisterCluster::Register(r) => seq![r],
            RegisterCluster::Cluster(MaybeArray::Single(c)) => all_regs_to(c.children@, c.children@.len()),
            RegisterCluster::Cluster(MaybeArray::Array(c, _)) => all_regs_to(c.children@, c.children@.len()),
        }
    }
}
pub open spec fn all_regs(s: Seq<RegisterCluster>) -> Seq<Register> { all_regs_to(s, s.len()) }
pub open spec fn children_of(p: PeripheralInfo) -> Seq<RegisterCluster> { match p.registers { Some(v) => v@, None => Seq::empty() } }
pub open spec fn fields_of(r: RegisterInfo) -> Seq<Field> { match r.fields { Some(v) => v@, None => Seq::empty() } }
//@ module svd::registercluster
use crate::spec::*;
use crate::svd::*;
use vstd::std_specs::iter::IteratorSpec as _;
impl<'a> vstd::std_specs::iter::IteratorSpecImpl for RegisterIter<'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn peek(&self, i: int) -> Option<Self::Item> { None }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Self::Item> { refs(regs_of(vals(vstd::std_specs::iter::IteratorSpec::remaining(&self.all)))) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { vstd::std_specs::iter::IteratorSpec::will_return_none(&self.all) }
    open spec fn decrease(&self) -> Option<nat> { vstd::std_specs::iter::IteratorSpec::decrease(&self.all) }
}
impl<'a> vstd::std_specs::iter::IteratorSpecImpl for ClusterIter<'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn peek(&self, i: int) -> Option<Self::Item> { None }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Self::Item> { refs(clusters_of(vals(vstd::std_specs::iter::IteratorSpec::remaining(&self.all)))) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { vstd::std_specs::iter::IteratorSpec::will_return_none(&self.all) }
    open spec fn decrease(&self) -> Option<nat> { vstd::std_specs::iter::IteratorSpec::decrease(&self.all) }
}
//@ fn svd-rs/src/registercluster.rs <RegisterIter<'a> as Iterator>::next as-trait -> r
    decreases it_dec(&self.all),
//@ start
    broadcast use crate::ax::ax_slice_iter_ends;
    let ghost rest = vals(self.all.remaining());
    assert(self.all.remaining().len() > 0 ==> vals(self.all.remaining().drop_first()) =~= rest.drop_first());
//@ endfn
//@ fn svd-rs/src/registercluster.rs <ClusterIter<'a> as Iterator>::next as-trait -> r
    decreases it_dec(&self.all),
//@ start
    broadcast use crate::ax::ax_slice_iter_ends;
    let ghost rest = vals(self.all.remaining());
    assert(self.all.remaining().len() > 0 ==> vals(self.all.remaining().drop_first()) =~= rest.drop_first());
//@ endfn
//@ module spec
// a child iterator that will hand out exactly these elements
#[verifier::prophetic]
pub open spec fn visits<'a, T: 'a, I: Iterator<Item = &'a T>>(it: I, s: Seq<T>) -> bool {
    &&& vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&it)
    &&& vstd::std_specs::iter::IteratorSpec::decrease(&it) is Some
    &&& vals(vstd::std_specs::iter::IteratorSpec::remaining(&it)) =~= s
}
//@ fn svd-rs/src/peripheral.rs PeripheralInfo::registers -> r
    ensures visits(r, regs_of(children_of(*self))),
//@ start
    broadcast use {crate::ax::ax_slice_iter_ends, crate::ax::ax_slice_iter_mut_ends};
//@ result
    assert(vals(vx_ret.all.remaining()) =~= children_of(*self));
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfo::clusters -> r
    ensures visits(r, clusters_of(children_of(*self))),
//@ start
    broadcast use {crate::ax::ax_slice_iter_ends, crate::ax::ax_slice_iter_mut_ends};
//@ result
    assert(vals(vx_ret.all.remaining()) =~= children_of(*self));
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfo::registers -> r
    ensures visits(r, regs_of(self.children@)),
//@ start
    broadcast use {crate::ax::ax_slice_iter_ends, crate::ax::ax_slice_iter_mut_ends};
//@ result
    assert(vals(vx_ret.all.remaining()) =~= self.children@);
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfo::clusters -> r
    ensures visits(r, clusters_of(self.children@)),
//@ start
    broadcast use {crate::ax::ax_slice_iter_ends, crate::ax::ax_slice_iter_mut_ends};
//@ result
    assert(vals(vx_ret.all.remaining()) =~= self.children@);
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfo::fields -> r
    ensures visits(r, fields_of(*self)),
//@ start
    broadcast use {crate::ax::ax_slice_iter_ends, crate::ax::ax_slice_iter_mut_ends};
//@ result
    assert(vals(vx_ret.remaining()) =~= fields_of(*self));
//@ endfn
