// C15: expansion of register properties.
//@ include array.rs
//@ include derive.rs
//@ module spec
use vstd::std_specs::iter::IteratorSpec;
// a register whose defaults are d
pub open spec fn xp_reg(r: RegisterInfo, d: RegisterProperties) -> RegisterInfo {
    if r.derived_from is Some { r } else { RegisterInfo { properties: r.properties.derived(d), ..r } }
}
// n is the cluster c with the defaults d expanded: only properties of registers below change
pub open spec fn xp_cluster(c: ClusterInfo, d: RegisterProperties, n: ClusterInfo) -> bool
    decreases c,
{
    if c.derived_from is Some { n == c } else {
        &&& n == ClusterInfo { children: n.children, ..c }
        &&& n.children.len() == c.children.len()
        &&& forall|i: int| 0 <= i < c.children.len() ==> xp_child(#[trigger] c.children@[i], c.default_register_properties.derived(d), n.children@[i])
    }
}
pub open spec fn xp_child(a: RegisterCluster, d: RegisterProperties, n: RegisterCluster) -> bool
    decreases a,
{
    match (a, n) {
        (RegisterCluster::Register(r), RegisterCluster::Register(s)) => s == with_info(r, xp_reg(info_of(r), d)),
        (RegisterCluster::Cluster(MaybeArray::Single(c)), RegisterCluster::Cluster(MaybeArray::Single(c2))) => xp_cluster(c, d, c2),
        (RegisterCluster::Cluster(MaybeArray::Array(c, k)), RegisterCluster::Cluster(MaybeArray::Array(c2, k2))) => k == k2 && xp_cluster(c, d, c2),
        _ => false,
    }
}
pub open spec fn xp_children(a: Seq<RegisterCluster>, d: RegisterProperties, n: Seq<RegisterCluster>) -> bool {
    &&& n.len() == a.len()
    &&& forall|i: int| 0 <= i < a.len() ==> xp_child(#[trigger] a[i], d, n[i])
}
pub open spec fn xp_periph(p: PeripheralInfo, d: RegisterProperties, n: PeripheralInfo) -> bool {
    if p.derived_from is Some { n == p } else {
        &&& n == PeripheralInfo { registers: n.registers, ..p }
        &&& match (p.registers, n.registers) {
            (None, None) => true,
            (Some(a), Some(b)) => xp_children(a@, p.default_register_properties.derived(d), b@),
            _ => false,
        }
    }
}
pub open spec fn xp_peripheral(p: Peripheral, d: RegisterProperties, n: Peripheral) -> bool {
    n == with_info(p, info_of(n)) && xp_periph(info_of(p), d, info_of(n))
}
//@ module parser::expand
use vstd::std_specs::iter::IteratorSpec;
//@ fn svd-parser/src/expand.rs expand_properties_registers
    ensures xp_children(old(regs)@, *default, final(regs)@),
    decreases old(regs)@,
//@ loop 0 itermut iter it
    invariant_except_break
        it.obeys_prophetic_iter_laws(), it.will_return_none(), it.decrease() is Some,
        it.remaining().len() <= full.len(),
        it.remaining() == full.skip(full.len() - it.remaining().len()),
        forall|i: int| 0 <= i < full.len() - it.remaining().len() ==> xp_child(#[trigger] r0[i], d0, *final(full[i])),
    invariant
        full.len() == r0.len(),
        r0 == old(regs)@,
        forall|i: int| 0 <= i < full.len() ==> *(#[trigger] full[i]) == r0[i],
    ensures
        forall|i: int| 0 <= i < full.len() ==> xp_child(#[trigger] r0[i], d0, *final(full[i])),
    decreases (match it.decrease() { Some(n) => n, None => 0 })
//@ start
let ghost r0 = regs@;
let ghost d0 = *default;
//@ beforeloop 0
let ghost full = it.remaining();
//@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ endfn
//@ fn svd-parser/src/expand.rs expand_properties
    ensures
        *final(device) == (Device { peripherals: final(device).peripherals, ..*old(device) }),
        final(device).peripherals.len() == old(device).peripherals.len(),
        forall|i: int| 0 <= i < old(device).peripherals.len() ==>
            xp_peripheral(#[trigger] old(device).peripherals@[i], old(device).default_register_properties, final(device).peripherals@[i]),
//@ loop 0 itermut iter it
    invariant_except_break
        it.obeys_prophetic_iter_laws(), it.will_return_none(), it.decrease() is Some,
        it.remaining().len() <= full.len(),
        it.remaining() == full.skip(full.len() - it.remaining().len()),
        forall|i: int| 0 <= i < full.len() - it.remaining().len() ==> xp_peripheral(#[trigger] p0[i], d0, *final(full[i])),
    invariant
        full.len() == p0.len(),
        p0 == old(device).peripherals@,
        forall|i: int| 0 <= i < full.len() ==> *(#[trigger] full[i]) == p0[i],
    ensures
        forall|i: int| 0 <= i < full.len() ==> xp_peripheral(#[trigger] p0[i], d0, *final(full[i])),
    decreases (match it.decrease() { Some(n) => n, None => 0 })
//@ start
let ghost p0 = device.peripherals@;
let ghost d0 = device.default_register_properties;
//@ beforeloop 0
let ghost full = it.remaining();
//@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ endfn
