// C28: what an element is read as with and without `ignore_enums`. Both readings of the same element are
// compared through the relations `parse` is proved to keep (parse.rs), for every tree.
//@ include parse.rs trusted
//@ module spec
// the same text; an empty text may be taken as absent
pub open spec fn blank(a: Option<String>) -> bool { a is None || a->0@.len() == 0 }
pub open spec fn texts_alike(a: Option<String>, b: Option<String>) -> bool { a == b || (blank(a) && blank(b)) }
pub proof fn lemma_same_text(a: Option<String>, b: Option<String>, t: Option<Seq<char>>)
    requires same_text(a, t), same_text(b, t),
    ensures texts_alike(a, b),
{ broadcast use crate::ax::ax_string_ext; if a is Some && b is Some { assert(a->0@ =~= b->0@); } }
pub broadcast proof fn lemma_opt_text(x: X, k: Seq<char>, a: Option<String>, b: Option<String>)
    requires #[trigger] opt_text(x, k, a), #[trigger] opt_text(x, k, b),
    ensures texts_alike(a, b),
{ lemma_same_text(a, b, crate::parser::elementext::text_of(x, k)); }
pub broadcast proof fn lemma_req_text(x: X, k: Seq<char>, a: String, b: String)
    requires #[trigger] req_text(x, k, a), #[trigger] req_text(x, k, b),
    ensures a == b,
{ broadcast use crate::ax::ax_string_ext; assert(a@ =~= b@); }
pub broadcast proof fn lemma_opt_attr(x: X, k: Seq<char>, a: Option<String>, b: Option<String>)
    requires #[trigger] opt_attr(x, k, a), #[trigger] opt_attr(x, k, b),
    ensures a == b,
{ broadcast use crate::ax::ax_string_ext; if attr(x, k) is Some { assert(a->0@ =~= b->0@); } }
pub broadcast proof fn lemma_text_or(x: X, k: Seq<char>, d: Seq<char>, a: String, b: String)
    requires #[trigger] text_or(x, k, d, a), #[trigger] text_or(x, k, d, b),
    ensures a == b,
{ broadcast use crate::ax::ax_string_ext; assert(a@ =~= b@); }
pub broadcast proof fn lemma_str_or(t: Option<Seq<char>>, d: Seq<char>, a: String, b: String)
    requires #[trigger] str_or(t, d, a), #[trigger] str_or(t, d, b),
    ensures a == b,
{ broadcast use crate::ax::ax_string_ext; assert(a@ =~= b@); }
pub broadcast group alike_texts { lemma_opt_text, lemma_req_text, lemma_opt_attr, lemma_text_or, lemma_str_or }
// ---------------------------------------------------------------- values
pub open spec fn ev_alike(a: EnumeratedValue, b: EnumeratedValue) -> bool { a.name == b.name && texts_alike(a.description, b.description) && a.value == b.value && a.is_default == b.is_default }
pub proof fn lemma_ev(x: X, c: Config, d: Config, a: EnumeratedValue, b: EnumeratedValue)
    requires EnumeratedValue::says(x, c, Some(a)), EnumeratedValue::says(x, d, Some(b)),
    ensures ev_alike(a, b),
{ broadcast use alike_texts; }
pub open spec fn vals_alike(a: Seq<EnumeratedValue>, b: Seq<EnumeratedValue>) -> bool { a.len() == b.len() && forall|k: int| #![trigger a[k]] #![trigger b[k]] 0 <= k < a.len() ==> ev_alike(a[k], b[k]) }
pub proof fn lemma_vals(s: Seq<X>, c: Config, d: Config, a: Seq<EnumeratedValue>, b: Seq<EnumeratedValue>)
    requires all_el::<EnumeratedValue>(s, c, a), all_el::<EnumeratedValue>(s, d, b),
    ensures vals_alike(a, b),
{
    assert forall|k: int| 0 <= k < a.len() implies ev_alike(#[trigger] a[k], b[k]) by { assert(EnumeratedValue::says(s[k], c, Some(a[k]))); assert(EnumeratedValue::says(s[k], d, Some(b[k]))); lemma_ev(s[k], c, d, a[k], b[k]); }
}
pub open spec fn wc_alike(a: WriteConstraint, b: WriteConstraint) -> bool { a == b }
pub proof fn lemma_wc(x: X, c: Config, d: Config, a: WriteConstraint, b: WriteConstraint)
    requires WriteConstraint::says(x, c, Some(a)), WriteConstraint::says(x, d, Some(b)),
    ensures wc_alike(a, b),
{ 
    assert("writeAsRead"@ != "useEnumeratedValues"@) by { reveal_strlit("writeAsRead"); reveal_strlit("useEnumeratedValues"); assert("writeAsRead"@.len() != "useEnumeratedValues"@.len()); }
    assert("range"@ != "useEnumeratedValues"@) by { reveal_strlit("range"); reveal_strlit("useEnumeratedValues"); assert("range"@.len() != "useEnumeratedValues"@.len()); }
    assert("range"@ != "writeAsRead"@) by { reveal_strlit("range"); reveal_strlit("writeAsRead"); assert("range"@.len() != "writeAsRead"@.len()); }
}
pub open spec fn evs_alike(a: EnumeratedValues, b: EnumeratedValues) -> bool { texts_alike(a.name, b.name) && a.usage == b.usage && a.derived_from == b.derived_from && vals_alike(a.values@, b.values@) }
pub proof fn lemma_evs(x: X, c: Config, d: Config, a: EnumeratedValues, b: EnumeratedValues)
    requires EnumeratedValues::says(x, c, Some(a)), EnumeratedValues::says(x, d, Some(b)),
    ensures evs_alike(a, b),
{ broadcast use alike_texts; lemma_vals(evs_kids(x), c, d, a.values@, b.values@); }
pub open spec fn sets_alike(a: Seq<EnumeratedValues>, b: Seq<EnumeratedValues>) -> bool { a.len() == b.len() && forall|k: int| #![trigger a[k]] #![trigger b[k]] 0 <= k < a.len() ==> evs_alike(a[k], b[k]) }
pub proof fn lemma_sets(s: Seq<X>, c: Config, d: Config, a: Seq<EnumeratedValues>, b: Seq<EnumeratedValues>)
    requires all_el::<EnumeratedValues>(s, c, a), all_el::<EnumeratedValues>(s, d, b),
    ensures sets_alike(a, b),
{
    assert forall|k: int| 0 <= k < a.len() implies evs_alike(#[trigger] a[k], b[k]) by { assert(EnumeratedValues::says(s[k], c, Some(a[k]))); assert(EnumeratedValues::says(s[k], d, Some(b[k]))); lemma_evs(s[k], c, d, a[k], b[k]); }
}
pub proof fn lemma_rp(x: X, c: Config, d: Config, a: RegisterProperties, b: RegisterProperties)
    requires RegisterProperties::says(x, c, Some(a)), RegisterProperties::says(x, d, Some(b)),
    ensures a == b,
{ }
// ---------------------------------------------------------------- arrays
pub open spec fn idx_alike(a: Option<Vec<String>>, b: Option<Vec<String>>) -> bool { a == b || ((a is None || a->0@.len() == 0) && (b is None || b->0@.len() == 0)) }
pub open spec fn dai_alike(a: Option<DimArrayIndex>, b: Option<DimArrayIndex>) -> bool {
    match a {
        None => b is None,
        Some(a) => b matches Some(b) && texts_alike(a.header_enum_name, b.header_enum_name) && vals_alike(a.values@, b.values@),
    }
}
pub open spec fn dim_alike(a: DimElement, b: DimElement) -> bool {
    a.dim == b.dim && a.dim_increment == b.dim_increment && idx_alike(a.dim_index, b.dim_index) && texts_alike(a.dim_name, b.dim_name) && dai_alike(a.dim_array_index, b.dim_array_index)
}
pub proof fn lemma_dim(x: X, c: Config, d: Config, a: DimElement, b: DimElement)
    requires DimElement::says(x, c, Some(a)), DimElement::says(x, d, Some(b)),
    ensures dim_alike(a, b),
{
    broadcast use alike_texts;
    if let Some(n) = child(x, "dimArrayIndex"@) { lemma_vals(dai_kids(n), c, d, a.dim_array_index->0.values@, b.dim_array_index->0.values@); }
}
pub open spec fn ma_alike<T>(a: MaybeArray<T>, b: MaybeArray<T>, f: spec_fn(T, T) -> bool) -> bool {
    match a {
        MaybeArray::Single(v) => b matches MaybeArray::Single(w) && f(v, w),
        MaybeArray::Array(v, d) => b matches MaybeArray::Array(w, e) && f(v, w) && dim_alike(d, e),
    }
}
pub open spec fn inf<T>(a: MaybeArray<T>) -> T { match a { MaybeArray::Single(v) => v, MaybeArray::Array(v, _) => v } }
pub proof fn lemma_ma<T: Name>(tag: Seq<char>, x: X, c: Config, d: Config, p: spec_fn(Option<T>) -> bool, q: spec_fn(Option<T>) -> bool, a: MaybeArray<T>, b: MaybeArray<T>, f: spec_fn(T, T) -> bool)
    requires ma_says::<T>(tag, x, c, p, Some(a)), ma_says::<T>(tag, x, d, q, Some(b)), p(Some(inf(a))) && q(Some(inf(b))) ==> f(inf(a), inf(b)),
    ensures ma_alike(a, b, f),
{
    if let MaybeArray::Array(_, e) = a { if let MaybeArray::Array(_, g) = b { lemma_dim(x, c, d, e, g); } }
}
// ---------------------------------------------------------------- fields
// b is a, without its enumerated values and its write constraint
pub open spec fn field_bare(a: FieldInfo, b: FieldInfo) -> bool {
    &&& a.name == b.name
    &&& texts_alike(a.description, b.description)
    &&& a.bit_range == b.bit_range
    &&& a.access == b.access
    &&& a.modified_write_values == b.modified_write_values
    &&& a.read_action == b.read_action
    &&& a.derived_from == b.derived_from
    &&& b.write_constraint is None && b.enumerated_values@.len() == 0
}
pub open spec fn ignoring(c: Config, d: Config) -> bool { !c.ignore_enums && d.ignore_enums && c.validate_level == d.validate_level }
pub proof fn lemma_field(x: X, c: Config, d: Config, a: FieldInfo, b: FieldInfo)
    requires ignoring(c, d), FieldInfo::says(x, c, Some(a)), FieldInfo::says(x, d, Some(b)),
    ensures field_bare(a, b),
{ broadcast use alike_texts; }
pub open spec fn fields_bare(a: Seq<Field>, b: Seq<Field>) -> bool { a.len() == b.len() && forall|k: int| #![trigger a[k]] #![trigger b[k]] 0 <= k < a.len() ==> ma_alike(a[k], b[k], |v: FieldInfo, w: FieldInfo| field_bare(v, w)) }
pub proof fn lemma_fields(s: Seq<X>, c: Config, d: Config, a: Seq<Field>, b: Seq<Field>)
    requires ignoring(c, d), all_el::<Field>(s, c, a), all_el::<Field>(s, d, b),
    ensures fields_bare(a, b),
{
    assert forall|k: int| 0 <= k < a.len() implies ma_alike(#[trigger] a[k], b[k], |v: FieldInfo, w: FieldInfo| field_bare(v, w)) by {
        assert(Field::says(s[k], c, Some(a[k]))); assert(Field::says(s[k], d, Some(b[k])));
        if FieldInfo::says(s[k], c, Some(inf(a[k]))) && FieldInfo::says(s[k], d, Some(inf(b[k]))) { lemma_field(s[k], c, d, inf(a[k]), inf(b[k])); }
        lemma_ma::<FieldInfo>("field"@, s[k], c, d, |i: Option<FieldInfo>| FieldInfo::says(s[k], c, i), |i: Option<FieldInfo>| FieldInfo::says(s[k], d, i), a[k], b[k], |v: FieldInfo, w: FieldInfo| field_bare(v, w));
    }
}
// what a field is read as when enums are ignored does not depend on the ignored parts
pub open spec fn ignored(k: Seq<char>) -> bool { k == "writeConstraint"@ || k == "enumeratedValues"@ }
pub open spec fn same_but_ignored(x: X, y: X) -> bool {
    x.elem == y.elem && x.name == y.name && x.attrs == y.attrs && forall|k: Seq<char>| !ignored(k) ==> #[trigger] child(x, k) == child(y, k)
}
pub proof fn lemma_not_ignored()
    ensures
        !ignored("name"@), !ignored("description"@), !ignored("access"@), !ignored("modifiedWriteValues"@), !ignored("readAction"@),
        !ignored("bitRange"@), !ignored("bitOffset"@), !ignored("bitWidth"@), !ignored("lsb"@), !ignored("msb"@),
        !ignored("dim"@), !ignored("dimIncrement"@), !ignored("dimIndex"@), !ignored("dimName"@), !ignored("dimArrayIndex"@),
{
    reveal_strlit("writeConstraint"); reveal_strlit("enumeratedValues");
    reveal_strlit("name"); reveal_strlit("description"); reveal_strlit("access"); reveal_strlit("modifiedWriteValues"); reveal_strlit("readAction");
    reveal_strlit("bitRange"); reveal_strlit("bitOffset"); reveal_strlit("bitWidth"); reveal_strlit("lsb"); reveal_strlit("msb");
    reveal_strlit("dim"); reveal_strlit("dimIncrement"); reveal_strlit("dimIndex"); reveal_strlit("dimName"); reveal_strlit("dimArrayIndex");
    assert("writeConstraint"@.len() == 15 && "enumeratedValues"@.len() == 16);
    assert("name"@.len() == 4 && "description"@.len() == 11 && "access"@.len() == 6 && "modifiedWriteValues"@.len() == 19 && "readAction"@.len() == 10);
    assert("bitRange"@.len() == 8 && "bitOffset"@.len() == 9 && "bitWidth"@.len() == 8 && "lsb"@.len() == 3 && "msb"@.len() == 3);
    assert("dim"@.len() == 3 && "dimIncrement"@.len() == 12 && "dimIndex"@.len() == 8 && "dimName"@.len() == 7 && "dimArrayIndex"@.len() == 13);
}
pub proof fn lemma_field_indifferent(x: X, y: X, d: Config, r: Option<FieldInfo>)
    requires d.ignore_enums, same_but_ignored(x, y),
    ensures FieldInfo::says(x, d, r) == FieldInfo::says(y, d, r),
{
    lemma_not_ignored();
    assert forall|v: FieldInfo| field_of(x, d, v) == #[trigger] field_of(y, d, v) by { assert(BitRange::says(x, d, Some(v.bit_range)) == BitRange::says(y, d, Some(v.bit_range))); }
    assert(BitRange::says(x, d, None) == BitRange::says(y, d, None));
    if r is None {
        if FieldInfo::says(x, d, r) && exists|v: FieldInfo| field_of(x, d, v) && !#[trigger] field_ok(v, d.validate_level) {
            let v = choose|v: FieldInfo| field_of(x, d, v) && !#[trigger] field_ok(v, d.validate_level);
            assert(field_of(y, d, v));
        }
        if FieldInfo::says(y, d, r) && exists|v: FieldInfo| field_of(y, d, v) && !#[trigger] field_ok(v, d.validate_level) {
            let v = choose|v: FieldInfo| field_of(y, d, v) && !#[trigger] field_ok(v, d.validate_level);
            assert(field_of(x, d, v));
        }
    }
}
// ---------------------------------------------------------------- registers
// b is a, with its fields bare
pub open spec fn reg_bare(a: RegisterInfo, b: RegisterInfo) -> bool {
    &&& a.name == b.name
    &&& texts_alike(a.display_name, b.display_name)
    &&& texts_alike(a.description, b.description)
    &&& texts_alike(a.alternate_group, b.alternate_group)
    &&& texts_alike(a.alternate_register, b.alternate_register)
    &&& a.address_offset == b.address_offset
    &&& a.properties == b.properties
    &&& a.datatype == b.datatype
    &&& a.modified_write_values == b.modified_write_values
    &&& a.write_constraint == b.write_constraint
    &&& a.read_action == b.read_action
    &&& a.derived_from == b.derived_from
    &&& fields_of_bare(a.fields, b.fields)
}
pub open spec fn fields_of_bare(a: Option<Vec<Field>>, b: Option<Vec<Field>>) -> bool {
    match a {
        Some(a) => (b matches Some(b) && fields_bare(a@, b@)) || (a@.len() == 0 && b is None),
        None => b is None || b->0@.len() == 0,
    }
}
pub proof fn lemma_reg(x: X, c: Config, d: Config, a: RegisterInfo, b: RegisterInfo)
    requires ignoring(c, d), RegisterInfo::says(x, c, Some(a)), RegisterInfo::says(x, d, Some(b)),
    ensures reg_bare(a, b),
{
    broadcast use alike_texts;
    lemma_rp(x, c, d, a.properties, b.properties);
    if let Some(n) = child(x, "writeConstraint"@) { lemma_wc(n, c, d, a.write_constraint->0, b.write_constraint->0); }
    if let Some(n) = child(x, "fields"@) { if a.fields is Some && b.fields is Some { lemma_fields(kid_els(n), c, d, a.fields->0@, b.fields->0@); } }
}
pub open spec fn mreg_bare(a: Register, b: Register) -> bool { ma_alike(a, b, |v: RegisterInfo, w: RegisterInfo| reg_bare(v, w)) }
pub proof fn lemma_mreg(x: X, c: Config, d: Config, a: Register, b: Register)
    requires ignoring(c, d), Register::says(x, c, Some(a)), Register::says(x, d, Some(b)),
    ensures mreg_bare(a, b),
{
    if RegisterInfo::says(x, c, Some(inf(a))) && RegisterInfo::says(x, d, Some(inf(b))) { lemma_reg(x, c, d, inf(a), inf(b)); }
    lemma_ma::<RegisterInfo>("register"@, x, c, d, |i: Option<RegisterInfo>| RegisterInfo::says(x, c, i), |i: Option<RegisterInfo>| RegisterInfo::says(x, d, i), a, b, |v: RegisterInfo, w: RegisterInfo| reg_bare(v, w));
}
// ---------------------------------------------------------------- clusters
// b is a, with the fields of all its registers bare
pub open spec fn ci_bare(a: ClusterInfo, b: ClusterInfo) -> bool
    decreases a, 0nat
{
    &&& a.name == b.name
    &&& texts_alike(a.description, b.description)
    &&& texts_alike(a.alternate_cluster, b.alternate_cluster)
    &&& texts_alike(a.header_struct_name, b.header_struct_name)
    &&& a.address_offset == b.address_offset
    &&& a.default_register_properties == b.default_register_properties
    &&& a.derived_from == b.derived_from
    &&& a.children@.len() == b.children@.len()
    &&& forall|k: int| #![trigger a.children@[k]] #![trigger b.children@[k]] 0 <= k < a.children@.len() ==> rc_bare(a.children@[k], b.children@[k])
}
pub open spec fn rc_bare(a: RegisterCluster, b: RegisterCluster) -> bool
    decreases a, 0nat
{
    match a {
        RegisterCluster::Register(v) => b matches RegisterCluster::Register(w) && mreg_bare(v, w),
        RegisterCluster::Cluster(MaybeArray::Single(v)) => b matches RegisterCluster::Cluster(MaybeArray::Single(w)) && ci_bare(v, w),
        RegisterCluster::Cluster(MaybeArray::Array(v, e)) => b matches RegisterCluster::Cluster(MaybeArray::Array(w, g)) && ci_bare(v, w) && dim_alike(e, g),
    }
}
pub proof fn lemma_ci(x: X, c: Config, d: Config, a: ClusterInfo, b: ClusterInfo)
    requires ignoring(c, d), ci_says(x, c, Some(a)), ci_says(x, d, Some(b)),
    ensures ci_bare(a, b),
    decreases x, 0nat,
{
    broadcast use alike_texts;
    assert(ci_of(x, c, a) && ci_of(x, d, b));
    lemma_rp(x, c, d, a.default_register_properties, b.default_register_properties);
    assert forall|k: int| #![trigger a.children@[k]] #![trigger b.children@[k]] 0 <= k < a.children@.len() implies rc_bare(a.children@[k], b.children@[k]) by {
        let n = rc_kids(x)[k];
        lemma_filter_in(x.kids, |n: X| n.elem && (tagged(n, "register"@) || tagged(n, "cluster"@)), k);
        lemma_kid_dec(x, n);
        lemma_rc(n, c, d, a.children@[k], b.children@[k]);
    }
}
pub proof fn lemma_rc(x: X, c: Config, d: Config, a: RegisterCluster, b: RegisterCluster)
    requires ignoring(c, d), rc_says(x, c, Some(a)), rc_says(x, d, Some(b)),
    ensures rc_bare(a, b),
    decreases x, 1nat,
{
    if x.name == "register"@ {
        lemma_mreg(x, c, d, a->Register_0, b->Register_0);
    } else {
        let (v, w) = (a->Cluster_0, b->Cluster_0);
        if ci_says(x, c, Some(inf(v))) && ci_says(x, d, Some(inf(w))) { lemma_ci(x, c, d, inf(v), inf(w)); }
        lemma_ma::<ClusterInfo>("cluster"@, x, c, d, |i: Option<ClusterInfo>| ci_says(x, c, i), |i: Option<ClusterInfo>| ci_says(x, d, i), v, w, |p: ClusterInfo, q: ClusterInfo| ci_bare(p, q));
    }
}
// ---------------------------------------------------------------- peripherals
pub open spec fn rcs_bare(a: Seq<RegisterCluster>, b: Seq<RegisterCluster>) -> bool { a.len() == b.len() && forall|k: int| #![trigger a[k]] #![trigger b[k]] 0 <= k < a.len() ==> rc_bare(a[k], b[k]) }
pub open spec fn registers_bare(a: Option<Vec<RegisterCluster>>, b: Option<Vec<RegisterCluster>>) -> bool {
    match a {
        Some(a) => (b matches Some(b) && rcs_bare(a@, b@)) || (a@.len() == 0 && b is None),
        None => b is None || b->0@.len() == 0,
    }
}
pub proof fn lemma_blocks(x: X, c: Config, d: Config, a: Option<Vec<AddressBlock>>, b: Option<Vec<AddressBlock>>)
    requires opt_blocks(x, c, a), opt_blocks(x, d, b),
    ensures a == b,
{
    broadcast use crate::ax::ax_vec_ext;
    if a is Some {
        let s = kids_named(x, "addressBlock"@);
        assert forall|k: int| 0 <= k < s.len() implies a->0@[k] == b->0@[k] by { assert(AddressBlock::says(s[k], c, Some(a->0@[k]))); assert(AddressBlock::says(s[k], d, Some(b->0@[k]))); }
        assert(a->0@ =~= b->0@);
    }
}
pub open spec fn int_alike(a: Interrupt, b: Interrupt) -> bool { a.name == b.name && texts_alike(a.description, b.description) && a.value == b.value }
pub open spec fn ints_alike(a: Seq<Interrupt>, b: Seq<Interrupt>) -> bool { a.len() == b.len() && forall|k: int| #![trigger a[k]] #![trigger b[k]] 0 <= k < a.len() ==> int_alike(a[k], b[k]) }
pub proof fn lemma_ints(s: Seq<X>, c: Config, d: Config, a: Seq<Interrupt>, b: Seq<Interrupt>)
    requires all_el::<Interrupt>(s, c, a), all_el::<Interrupt>(s, d, b),
    ensures ints_alike(a, b),
{
    broadcast use alike_texts;
    assert forall|k: int| 0 <= k < a.len() implies int_alike(#[trigger] a[k], b[k]) by { assert(Interrupt::says(s[k], c, Some(a[k]))); assert(Interrupt::says(s[k], d, Some(b[k]))); }
}
pub open spec fn per_bare(a: PeripheralInfo, b: PeripheralInfo) -> bool {
    &&& a.name == b.name
    &&& texts_alike(a.display_name, b.display_name)
    &&& texts_alike(a.version, b.version)
    &&& texts_alike(a.description, b.description)
    &&& texts_alike(a.alternate_peripheral, b.alternate_peripheral)
    &&& texts_alike(a.group_name, b.group_name)
    &&& texts_alike(a.prepend_to_name, b.prepend_to_name)
    &&& texts_alike(a.append_to_name, b.append_to_name)
    &&& texts_alike(a.header_struct_name, b.header_struct_name)
    &&& a.base_address == b.base_address
    &&& a.default_register_properties == b.default_register_properties
    &&& a.address_block == b.address_block
    &&& ints_alike(a.interrupt@, b.interrupt@)
    &&& registers_bare(a.registers, b.registers)
    &&& a.derived_from == b.derived_from
}
pub proof fn lemma_per(x: X, c: Config, d: Config, a: PeripheralInfo, b: PeripheralInfo)
    requires ignoring(c, d), PeripheralInfo::says(x, c, Some(a)), PeripheralInfo::says(x, d, Some(b)),
    ensures per_bare(a, b),
{
    broadcast use alike_texts;
    lemma_rp(x, c, d, a.default_register_properties, b.default_register_properties);
    lemma_blocks(x, c, d, a.address_block, b.address_block);
    lemma_ints(kids_named(x, "interrupt"@), c, d, a.interrupt@, b.interrupt@);
    if let Some(n) = child(x, "registers"@) { if a.registers is Some && b.registers is Some {
        let (p, q, s) = (a.registers->0@, b.registers->0@, kid_els(n));
        assert forall|k: int| #![trigger p[k]] #![trigger q[k]] 0 <= k < p.len() implies rc_bare(p[k], q[k]) by { assert(RegisterCluster::says(s[k], c, Some(p[k]))); assert(RegisterCluster::says(s[k], d, Some(q[k]))); lemma_rc(s[k], c, d, p[k], q[k]); }
    } }
}
pub open spec fn mper_bare(a: Peripheral, b: Peripheral) -> bool { ma_alike(a, b, |v: PeripheralInfo, w: PeripheralInfo| per_bare(v, w)) }
// ---------------------------------------------------------------- the device
// b is a, with the enumerated values and the write constraints of all fields removed
pub open spec fn dev_bare(a: Device, b: Device) -> bool {
    &&& texts_alike(a.vendor, b.vendor)
    &&& texts_alike(a.vendor_id, b.vendor_id)
    &&& a.name == b.name
    &&& texts_alike(a.series, b.series)
    &&& a.version == b.version
    &&& a.description == b.description
    &&& texts_alike(a.license_text, b.license_text)
    &&& a.cpu == b.cpu
    &&& texts_alike(a.header_system_filename, b.header_system_filename)
    &&& texts_alike(a.header_definitions_prefix, b.header_definitions_prefix)
    &&& a.address_unit_bits == b.address_unit_bits
    &&& a.width == b.width
    &&& a.default_register_properties == b.default_register_properties
    &&& a.peripherals@.len() == b.peripherals@.len()
    &&& forall|k: int| #![trigger a.peripherals@[k]] #![trigger b.peripherals@[k]] 0 <= k < a.peripherals@.len() ==> mper_bare(a.peripherals@[k], b.peripherals@[k])
    &&& a.xmlns_xs == b.xmlns_xs
    &&& a.no_namespace_schema_location == b.no_namespace_schema_location
    &&& a.schema_version == b.schema_version
}
pub proof fn lemma_cpu(x: X, c: Config, d: Config, a: Cpu, b: Cpu)
    requires Cpu::says(x, c, Some(a)), Cpu::says(x, d, Some(b)),
    ensures a == b,
{ broadcast use alike_texts; }
pub proof fn lemma_dev(x: X, c: Config, d: Config, a: Device, b: Device)
    requires ignoring(c, d), Device::says(x, c, Some(a)), Device::says(x, d, Some(b)),
    ensures dev_bare(a, b),
{
    reveal(dev_of);
    broadcast use alike_texts;
    lemma_rp(x, c, d, a.default_register_properties, b.default_register_properties);
    if let Some(n) = child(x, "cpu"@) { lemma_cpu(n, c, d, a.cpu->0, b.cpu->0); }
    let s = kid_els(child(x, "peripherals"@)->0);
    assert forall|k: int| #![trigger a.peripherals@[k]] #![trigger b.peripherals@[k]] 0 <= k < a.peripherals@.len() implies mper_bare(a.peripherals@[k], b.peripherals@[k]) by {
        let (p, q) = (a.peripherals@[k], b.peripherals@[k]);
        assert(Peripheral::says(s[k], c, Some(p))); assert(Peripheral::says(s[k], d, Some(q)));
        if PeripheralInfo::says(s[k], c, Some(inf(p))) && PeripheralInfo::says(s[k], d, Some(inf(q))) { lemma_per(s[k], c, d, inf(p), inf(q)); }
        lemma_ma::<PeripheralInfo>("peripheral"@, s[k], c, d, |i: Option<PeripheralInfo>| PeripheralInfo::says(s[k], c, i), |i: Option<PeripheralInfo>| PeripheralInfo::says(s[k], d, i), p, q, |v: PeripheralInfo, w: PeripheralInfo| per_bare(v, w));
    }
}
