// C13: DeriveFrom for every kind of element.
//@ include validate_level.rs
//@ module svd::derive_from
// the trait, with its contract as a specification function per type
pub trait DeriveFrom: Sized {
    spec fn derived(self, other: Self) -> Self;
    fn derive_from(&self, other: &Self) -> (r: Self)
        ensures r == self.derived(*other);
}
//@ module spec
pub open spec fn first<T>(a: Option<T>, b: Option<T>) -> Option<T> { if a is Some { a } else { b } }
pub open spec fn first_vec<T>(a: Vec<T>, b: Vec<T>) -> Vec<T> { if a@.len() == 0 { b } else { a } }
//@ fn svd-rs/src/derive_from.rs <RegisterProperties as DeriveFrom>::derive_from as-trait -> r
//@ impltext
    open spec fn derived(self, other: Self) -> Self {
        RegisterProperties {
            size: first(self.size, other.size),
            access: first(self.access, other.access),
            protection: first(self.protection, other.protection),
            reset_value: first(self.reset_value, other.reset_value),
            reset_mask: first(self.reset_mask, other.reset_mask),
        }
    }
//@ endfn
//@ fn svd-rs/src/derive_from.rs <ClusterInfo as DeriveFrom>::derive_from as-trait -> r
//@ impltext
    open spec fn derived(self, other: Self) -> Self {
        ClusterInfo {
            default_register_properties: self.default_register_properties.derived(other.default_register_properties),
            header_struct_name: first(self.header_struct_name, other.header_struct_name),
            children: first_vec(self.children, other.children),
            ..self
        }
    }
//@ endfn
//@ fn svd-rs/src/derive_from.rs <EnumeratedValues as DeriveFrom>::derive_from as-trait -> r
//@ impltext
    open spec fn derived(self, other: Self) -> Self {
        EnumeratedValues {
            usage: first(self.usage, other.usage),
            values: first_vec(self.values, other.values),
            ..self
        }
    }
//@ endfn
//@ fn svd-rs/src/derive_from.rs <PeripheralInfo as DeriveFrom>::derive_from as-trait -> r
//@ impltext
    open spec fn derived(self, other: Self) -> Self {
        PeripheralInfo {
            version: first(self.version, other.version),
            description: first(self.description, other.description),
            group_name: first(self.group_name, other.group_name),
            prepend_to_name: first(self.prepend_to_name, other.prepend_to_name),
            append_to_name: first(self.append_to_name, other.append_to_name),
            header_struct_name: first(self.header_struct_name, other.header_struct_name),
            default_register_properties: self.default_register_properties.derived(other.default_register_properties),
            registers: first(self.registers, other.registers),
            address_block: first(self.address_block, other.address_block),
            interrupt: first_vec(self.interrupt, other.interrupt),
            ..self
        }
    }
//@ endfn
//@ fn svd-rs/src/derive_from.rs <RegisterInfo as DeriveFrom>::derive_from as-trait -> r
//@ impltext
    open spec fn derived(self, other: Self) -> Self {
        RegisterInfo {
            description: first(self.description, other.description),
            properties: self.properties.derived(other.properties),
            fields: first(self.fields, other.fields),
            write_constraint: first(self.write_constraint, other.write_constraint),
            read_action: first(self.read_action, other.read_action),
            modified_write_values: first(self.modified_write_values, other.modified_write_values),
            ..self
        }
    }
//@ endfn
//@ fn svd-rs/src/derive_from.rs <FieldInfo as DeriveFrom>::derive_from as-trait -> r
//@ impltext
    open spec fn derived(self, other: Self) -> Self {
        FieldInfo {
            description: first(self.description, other.description),
            access: first(self.access, other.access),
            enumerated_values: first_vec(self.enumerated_values, other.enumerated_values),
            write_constraint: first(self.write_constraint, other.write_constraint),
            read_action: first(self.read_action, other.read_action),
            modified_write_values: first(self.modified_write_values, other.modified_write_values),
            ..self
        }
    }
//@ endfn
