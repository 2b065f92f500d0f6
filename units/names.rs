// Shared: the Name trait and its implementations.
//@ include common.rs
//@ module svd
pub trait Name {
    spec fn name_spec(&self) -> Seq<char>;
    fn name(&self) -> (r: &str)
        ensures r@ == self.name_spec();
}
//@ module spec
//@ fn svd-rs/src/peripheral.rs <PeripheralInfo as Name>::name as-trait -> r
//@ impltext
    open spec fn name_spec(&self) -> Seq<char> { self.name@ }
//@ endfn
//@ fn svd-rs/src/cluster.rs <ClusterInfo as Name>::name as-trait -> r
//@ impltext
    open spec fn name_spec(&self) -> Seq<char> { self.name@ }
//@ endfn
//@ fn svd-rs/src/register.rs <RegisterInfo as Name>::name as-trait -> r
//@ impltext
    open spec fn name_spec(&self) -> Seq<char> { self.name@ }
//@ endfn
//@ fn svd-rs/src/field.rs <FieldInfo as Name>::name as-trait -> r
//@ impltext
    open spec fn name_spec(&self) -> Seq<char> { self.name@ }
//@ endfn
