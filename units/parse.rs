// C25, C28: what the parser makes of each element.
//@ include build.rs trusted
//@ include numbers.rs trusted
//@ include kwparse.rs trusted
//@ include dimparse.rs trusted
//@ include fieldpos.rs trusted
//@ include names.rs
//@ include nodes.rs
//@ module parser
pub use crate::parser::array::*;
//@ module spec
// ---------------------------------------------------------------- properties of an element
// the text of child k; an empty text may be taken as absent
pub open spec fn same_text(v: Option<String>, t: Option<Seq<char>>) -> bool {
    match t {
        None => v is None,
        Some(t) => (v matches Some(s) && s@ == t) || (v is None && t.len() == 0),
    }
}
pub open spec fn opt_text(x: X, k: Seq<char>, v: Option<String>) -> bool { same_text(v, crate::parser::elementext::text_of(x, k)) }
pub open spec fn req_text(x: X, k: Seq<char>, v: String) -> bool { crate::parser::elementext::text_of(x, k) == Some(v@) }
pub open spec fn no_text(x: X, k: Seq<char>) -> bool { crate::parser::elementext::text_of(x, k) is None }
// the attribute k
pub open spec fn opt_attr(x: X, k: Seq<char>, v: Option<String>) -> bool {
    match attr(x, k) { None => v is None, Some(t) => v matches Some(s) && s@ == t }
}
// child k, read as a T
pub open spec fn opt_el<T: Parse>(x: X, k: Seq<char>, c: T::Config, v: Option<T::Object>) -> bool {
    match child(x, k) { None => v is None, Some(n) => v matches Some(o) && T::says(n, c, Some(o)) }
}
pub open spec fn opt_bad<T: Parse>(x: X, k: Seq<char>, c: T::Config) -> bool { child(x, k) matches Some(n) && T::says(n, c, None) }
pub open spec fn req_el<T: Parse>(x: X, k: Seq<char>, c: T::Config, v: T::Object) -> bool { child(x, k) matches Some(n) && T::says(n, c, Some(v)) }
pub open spec fn req_bad<T: Parse>(x: X, k: Seq<char>, c: T::Config) -> bool { child(x, k) matches Some(n) ==> T::says(n, c, None) }
// the elements s, each read as a T, in order
pub open spec fn all_el<T: Parse>(s: Seq<X>, c: T::Config, v: Seq<T::Object>) -> bool {
    s.len() == v.len() && forall|k: int| #![trigger s[k]] #![trigger v[k]] 0 <= k < s.len() ==> T::says(s[k], c, Some(v[k]))
}
pub open spec fn one_bad<T: Parse>(s: Seq<X>, c: T::Config) -> bool { exists|k: int| 0 <= k < s.len() && T::says(#[trigger] s[k], c, None) }
// the children called k
pub open spec fn kids_named(x: X, k: Seq<char>) -> Seq<X> { x.kids.filter(|n: X| n.elem && tagged(n, k)) }
pub open spec fn kid_els(x: X) -> Seq<X> { x.kids.filter(|n: X| n.elem) }
//@ fn svd-parser/src/lib.rs optional -> r
    ensures
        r matches Ok(v) ==> opt_el::<T>(e.x(), n@, *config, v),
        r is Err ==> opt_bad::<T>(e.x(), n@, *config),
//@ endfn
// ---------------------------------------------------------------- Interrupt
pub open spec fn int_of(x: X, c: Config, v: Interrupt) -> bool {
    req_text(x, "name"@, v.name) && opt_text(x, "description"@, v.description) && req_el::<u32>(x, "value"@, (), v.value)
}
//@ fn svd-parser/src/interrupt.rs <Interrupt as Parse>::parse as-trait -> r
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<Interrupt>) -> bool {
        match r {
            Some(v) => tagged(x, "interrupt"@) && int_of(x, c, v),
            None => !tagged(x, "interrupt"@) || no_text(x, "name"@) || req_bad::<u32>(x, "value"@, ()),
        }
    }
//@ endfn
// ---------------------------------------------------------------- AddressBlock
pub open spec fn ab_of(x: X, c: Config, v: AddressBlock) -> bool {
    req_el::<u32>(x, "offset"@, (), v.offset) && req_el::<u32>(x, "size"@, (), v.size)
    && req_el::<AddressBlockUsage>(x, "usage"@, c, v.usage) && opt_el::<Protection>(x, "protection"@, c, v.protection)
}
//@ fn svd-parser/src/addressblock.rs <AddressBlock as Parse>::parse as-trait -> r
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<AddressBlock>) -> bool {
        match r {
            Some(v) => ab_of(x, c, v),
            None => req_bad::<u32>(x, "offset"@, ()) || req_bad::<u32>(x, "size"@, ()) || req_bad::<AddressBlockUsage>(x, "usage"@, c) || opt_bad::<Protection>(x, "protection"@, c),
        }
    }
//@ endfn
// ---------------------------------------------------------------- RegisterProperties
pub open spec fn rp_of(x: X, c: Config, v: RegisterProperties) -> bool {
    opt_el::<u32>(x, "size"@, (), v.size) && opt_el::<Access>(x, "access"@, c, v.access) && opt_el::<Protection>(x, "protection"@, c, v.protection)
    && opt_el::<u64>(x, "resetValue"@, (), v.reset_value) && opt_el::<u64>(x, "resetMask"@, (), v.reset_mask)
}
//@ fn svd-parser/src/registerproperties.rs <RegisterProperties as Parse>::parse as-trait -> r
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<RegisterProperties>) -> bool {
        match r {
            Some(v) => rp_of(x, c, v) && rp_valid(v, c.validate_level) is Ok,
            None => opt_bad::<u32>(x, "size"@, ()) || opt_bad::<Access>(x, "access"@, c) || opt_bad::<Protection>(x, "protection"@, c)
                || opt_bad::<u64>(x, "resetValue"@, ()) || opt_bad::<u64>(x, "resetMask"@, ())
                || exists|v: RegisterProperties| rp_of(x, c, v) && #[trigger] rp_valid(v, c.validate_level) is Err,
        }
    }
//@ endfn
// ---------------------------------------------------------------- Cpu
pub open spec fn cpu_of(x: X, c: Config, v: Cpu) -> bool {
    &&& req_text(x, "name"@, v.name)
    &&& req_text(x, "revision"@, v.revision)
    &&& req_el::<Endian>(x, "endian"@, c, v.endian)
    &&& req_el::<BoolParse>(x, "mpuPresent"@, (), v.mpu_present)
    &&& req_el::<BoolParse>(x, "fpuPresent"@, (), v.fpu_present)
    &&& opt_el::<BoolParse>(x, "fpuDP"@, (), v.fpu_double_precision)
    &&& opt_el::<BoolParse>(x, "dspPresent"@, (), v.dsp_present)
    &&& opt_el::<BoolParse>(x, "icachePresent"@, (), v.icache_present)
    &&& opt_el::<BoolParse>(x, "dcachePresent"@, (), v.dcache_present)
    &&& opt_el::<BoolParse>(x, "itcmPresent"@, (), v.itcm_present)
    &&& opt_el::<BoolParse>(x, "dtcmPresent"@, (), v.dtcm_present)
    &&& opt_el::<BoolParse>(x, "vtorPresent"@, (), v.vtor_present)
    &&& req_el::<u32>(x, "nvicPrioBits"@, (), v.nvic_priority_bits)
    &&& req_el::<BoolParse>(x, "vendorSystickConfig"@, (), v.has_vendor_systick)
    &&& opt_el::<u32>(x, "deviceNumInterrupts"@, (), v.device_num_interrupts)
    &&& opt_el::<u32>(x, "sauNumRegions"@, (), v.sau_num_regions)
}
pub open spec fn cpu_bad(x: X, c: Config) -> bool {
    ||| no_text(x, "name"@)
    ||| no_text(x, "revision"@)
    ||| req_bad::<Endian>(x, "endian"@, c)
    ||| req_bad::<BoolParse>(x, "mpuPresent"@, ())
    ||| req_bad::<BoolParse>(x, "fpuPresent"@, ())
    ||| opt_bad::<BoolParse>(x, "fpuDP"@, ())
    ||| opt_bad::<BoolParse>(x, "dspPresent"@, ())
    ||| opt_bad::<BoolParse>(x, "icachePresent"@, ())
    ||| opt_bad::<BoolParse>(x, "dcachePresent"@, ())
    ||| opt_bad::<BoolParse>(x, "itcmPresent"@, ())
    ||| opt_bad::<BoolParse>(x, "dtcmPresent"@, ())
    ||| opt_bad::<BoolParse>(x, "vtorPresent"@, ())
    ||| req_bad::<u32>(x, "nvicPrioBits"@, ())
    ||| req_bad::<BoolParse>(x, "vendorSystickConfig"@, ())
    ||| opt_bad::<u32>(x, "deviceNumInterrupts"@, ())
    ||| opt_bad::<u32>(x, "sauNumRegions"@, ())
}
//@ fn svd-parser/src/cpu.rs <Cpu as Parse>::parse as-trait -> r
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<Cpu>) -> bool {
        match r { Some(v) => tagged(x, "cpu"@) && cpu_of(x, c, v), None => !tagged(x, "cpu"@) || cpu_bad(x, c) }
    }
//@ endfn
// ---------------------------------------------------------------- EnumeratedValue
pub open spec fn ev_of(x: X, c: Config, v: EnumeratedValue) -> bool {
    &&& req_text(x, "name"@, v.name)
    &&& opt_text(x, "description"@, v.description)
    &&& opt_el::<u64>(x, "value"@, (), v.value)
    &&& v.is_default == child_reads::<BoolParse>(x, "isDefault"@, ())
}
//@ fn svd-parser/src/enumeratedvalue.rs <EnumeratedValue as Parse>::parse as-trait -> r
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<EnumeratedValue>) -> bool {
        match r {
            Some(v) => tagged(x, "enumeratedValue"@) && ev_of(x, c, v) && ev_ok(v, c.validate_level),
            None => !tagged(x, "enumeratedValue"@) || no_text(x, "name"@) || opt_bad::<u64>(x, "value"@, ())
                || exists|v: EnumeratedValue| ev_of(x, c, v) && !#[trigger] ev_ok(v, c.validate_level),
        }
    }
//@ endfn
// ---------------------------------------------------------------- EnumeratedValues
pub open spec fn evs_kids(x: X) -> Seq<X> { x.kids.filter(|n: X| n.elem && n.name != "name"@ && n.name != "headerEnumName"@ && n.name != "usage"@) }
pub open spec fn evs_of(x: X, c: Config, v: EnumeratedValues) -> bool {
    &&& opt_text(x, "name"@, v.name)
    &&& opt_el::<Usage>(x, "usage"@, c, v.usage)
    &&& opt_attr(x, "derivedFrom"@, v.derived_from)
    &&& all_el::<EnumeratedValue>(evs_kids(x), c, v.values@)
}
//@ fn svd-parser/src/enumeratedvalues.rs <EnumeratedValues as Parse>::parse as-trait -> r
//@ opt vx-nodes
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<EnumeratedValues>) -> bool {
        match r {
            Some(v) => tagged(x, "enumeratedValues"@) && evs_of(x, c, v) && evs_ok(v, c.validate_level),
            None => !tagged(x, "enumeratedValues"@) || opt_bad::<Usage>(x, "usage"@, c) || one_bad::<EnumeratedValue>(evs_kids(x), c)
                || exists|v: EnumeratedValues| evs_of(x, c, v) && !#[trigger] evs_ok(v, c.validate_level),
        }
    }
//@ closure 0
|t: &Node| -> (b: bool) ensures b == (t.x().elem && t.x().name != "name"@ && t.x().name != "headerEnumName"@ && t.x().name != "usage"@)
//@ closure 1
|t: Node| -> (r: Result<EnumeratedValue, SVDErrorAt>) ensures r matches Ok(v) ==> EnumeratedValue::says(t.x(), *config, Some(v)), r is Err ==> EnumeratedValue::says(t.x(), *config, None)
//@ endfn
// ---------------------------------------------------------------- WriteConstraint
//@ fn svd-parser/src/writeconstraint.rs <WriteConstraintRange as Parse>::parse as-trait -> r
//@ impltext
    open spec fn says(x: X, c: (), r: Option<WriteConstraintRange>) -> bool {
        match r {
            Some(v) => req_el::<u64>(x, "minimum"@, (), v.min) && req_el::<u64>(x, "maximum"@, (), v.max),
            None => req_bad::<u64>(x, "minimum"@, ()) || req_bad::<u64>(x, "maximum"@, ()),
        }
    }
//@ endfn
pub open spec fn wc_kind(x: X, k: Seq<char>) -> bool { kid_els(x).len() == 1 && kid_els(x)[0].name == k }
// the first child element is the first one of its name
pub proof fn lemma_first_el(s: Seq<X>)
    requires s.filter(|n: X| n.elem).len() > 0,
    ensures child_in(s, s.filter(|n: X| n.elem)[0].name) == Some(s.filter(|n: X| n.elem)[0]),
    decreases s.len(),
{
    let p = |n: X| n.elem;
    reveal_with_fuel(Seq::filter, 3);
    if s.len() > 0 {
        let a = seq![s[0]];
        let b = s.drop_first();
        Seq::filter_distributes_over_add(a, b, p);
        assert(s =~= a + b);
        assert(a.drop_last() =~= Seq::<X>::empty());
        if s[0].elem {
            assert(a.filter(p) =~= a);
            assert(s.filter(p)[0] == s[0]);
        } else {
            assert(!p(a.last()));
            assert(a.drop_last().filter(p) =~= Seq::<X>::empty());
            assert(a.filter(p) =~= Seq::<X>::empty());
            assert(s.filter(p) =~= b.filter(p));
            lemma_first_el(b);
        }
    }
}
//@ fn svd-parser/src/writeconstraint.rs <WriteConstraint as Parse>::parse as-trait -> r
//@ start
proof { if kid_els(tree.x()).len() > 0 { lemma_first_el(tree.x().kids); } }
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<WriteConstraint>) -> bool {
        match r {
            Some(WriteConstraint::WriteAsRead(b)) => wc_kind(x, "writeAsRead"@) && req_el::<BoolParse>(x, "writeAsRead"@, (), b),
            Some(WriteConstraint::UseEnumeratedValues(b)) => wc_kind(x, "useEnumeratedValues"@) && req_el::<BoolParse>(x, "useEnumeratedValues"@, (), b),
            Some(WriteConstraint::Range(g)) => wc_kind(x, "range"@) && req_el::<WriteConstraintRange>(x, "range"@, (), g),
            None => {
                ||| !wc_kind(x, "writeAsRead"@) && !wc_kind(x, "useEnumeratedValues"@) && !wc_kind(x, "range"@)
                ||| wc_kind(x, "writeAsRead"@) && req_bad::<BoolParse>(x, "writeAsRead"@, ())
                ||| wc_kind(x, "useEnumeratedValues"@) && req_bad::<BoolParse>(x, "useEnumeratedValues"@, ())
                ||| wc_kind(x, "range"@) && req_bad::<WriteConstraintRange>(x, "range"@, ())
            },
        }
    }
//@ endfn
// ---------------------------------------------------------------- DimElement
pub open spec fn dai_kids(x: X) -> Seq<X> { x.kids.filter(|n: X| n.elem && n.name != "headerEnumName"@) }
pub open spec fn dai_of(x: X, c: Config, v: DimArrayIndex) -> bool {
    &&& opt_text(x, "headerEnumName"@, v.header_enum_name)
    &&& all_el::<EnumeratedValue>(dai_kids(x), c, v.values@)
}
//@ fn svd-parser/src/dimelement.rs <DimArrayIndex as Parse>::parse as-trait -> r
//@ opt vx-nodes
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<DimArrayIndex>) -> bool {
        match r {
            Some(v) => dai_of(x, c, v),
            None => one_bad::<EnumeratedValue>(dai_kids(x), c),
        }
    }
//@ closure 0
|t: &Node| -> (b: bool) ensures b == (t.x().elem && t.x().name != "headerEnumName"@)
//@ closure 1
|t: Node| -> (r: Result<EnumeratedValue, SVDErrorAt>) ensures r matches Ok(v) ==> EnumeratedValue::says(t.x(), *config, Some(v)), r is Err ==> EnumeratedValue::says(t.x(), *config, None)
//@ endfn
pub open spec fn opt_indexes(x: X, c: Config, v: Option<Vec<String>>) -> bool {
    match child(x, "dimIndex"@) {
        None => v is None,
        Some(n) => match <DimIndex as Reads>::reads(n, c) { Some(l) => v == Some(l) || (v is None && l@.len() == 0), None => false },
    }
}
pub open spec fn dim_of(x: X, c: Config, v: DimElement) -> bool {
    &&& req_el::<u32>(x, "dim"@, (), v.dim)
    &&& req_el::<u32>(x, "dimIncrement"@, (), v.dim_increment)
    &&& opt_indexes(x, c, v.dim_index)
    &&& opt_text(x, "dimName"@, v.dim_name)
    &&& opt_el::<DimArrayIndex>(x, "dimArrayIndex"@, c, v.dim_array_index)
}
//@ fn svd-parser/src/dimelement.rs <DimElement as Parse>::parse as-trait -> r
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<DimElement>) -> bool {
        match r {
            Some(v) => dim_of(x, c, v),
            None => req_bad::<u32>(x, "dim"@, ()) || req_bad::<u32>(x, "dimIncrement"@, ()) || opt_bad::<DimIndex>(x, "dimIndex"@, c) || opt_bad::<DimArrayIndex>(x, "dimArrayIndex"@, c),
        }
    }
//@ endfn
// ---------------------------------------------------------------- elements and arrays of elements
pub open spec fn holder(n: Seq<char>) -> bool { contains_text(n, seq!['%', 's']) }
pub open spec fn count_ok(d: DimElement) -> bool { d.dim_index matches Some(l) ==> l@.len() == d.dim }
pub open spec fn ma_says<T: Name>(tag: Seq<char>, x: X, c: Config, info: spec_fn(Option<T>) -> bool, r: Option<MaybeArray<T>>) -> bool {
    match r {
        Some(MaybeArray::Single(v)) => tagged(x, tag) && child(x, "dimIncrement"@) is None && info(Some(v)),
        Some(MaybeArray::Array(v, d)) => tagged(x, tag) && child(x, "dimIncrement"@) is Some && info(Some(v)) && DimElement::says(x, c, Some(d)) && holder(v.name_spec()) && count_ok(d),
        None => {
            ||| !tagged(x, tag)
            ||| info(None)
            ||| child(x, "dimIncrement"@) is Some && DimElement::says(x, c, None)
            ||| child(x, "dimIncrement"@) is Some && exists|v: T| info(Some(v)) && !holder(#[trigger] v.name_spec())
            ||| child(x, "dimIncrement"@) is Some && exists|d: DimElement| #[trigger] DimElement::says(x, c, Some(d)) && !count_ok(d)
        },
    }
}
//@ fn svd-parser/src/lib.rs check_has_placeholder -> r
    ensures r is Ok <==> holder(name@),
//@ start
    proof { crate::spec::lemma_pat_in_str(name@, "%s"); assert("%s"@ =~= seq!['%', 's']); }
//@ endfn
//@ fn svd-parser/src/array.rs parse_array -> r
    ensures
        r matches Ok(v) ==> ma_says::<T>(tag@, tree.x(), *config, |i: Option<T>| T::says(tree.x(), *config, i), Some(v)),
        r is Err ==> ma_says::<T>(tag@, tree.x(), *config, |i: Option<T>| T::says(tree.x(), *config, i), None),
//@ endfn
// ---------------------------------------------------------------- fields
pub open spec fn field_of(x: X, c: Config, v: FieldInfo) -> bool {
    &&& BitRange::says(x, c, Some(v.bit_range))
    &&& req_text(x, "name"@, v.name)
    &&& opt_text(x, "description"@, v.description)
    &&& opt_el::<Access>(x, "access"@, c, v.access)
    &&& opt_el::<ModifiedWriteValues>(x, "modifiedWriteValues"@, c, v.modified_write_values)
    &&& opt_el::<ReadAction>(x, "readAction"@, c, v.read_action)
    &&& opt_attr(x, "derivedFrom"@, v.derived_from)
    &&& if c.ignore_enums { v.write_constraint is None && v.enumerated_values@.len() == 0 } else {
            opt_el::<WriteConstraint>(x, "writeConstraint"@, c, v.write_constraint) && all_el::<EnumeratedValues>(kids_named(x, "enumeratedValues"@), c, v.enumerated_values@)
        }
}
//@ fn svd-parser/src/field.rs <FieldInfo as Parse>::parse as-trait -> r
//@ opt vx-nodes
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<FieldInfo>) -> bool {
        match r {
            Some(v) => tagged(x, "field"@) && field_of(x, c, v) && field_ok(v, c.validate_level),
            None => {
                ||| !tagged(x, "field"@)
                ||| BitRange::says(x, c, None)
                ||| no_text(x, "name"@)
                ||| opt_bad::<Access>(x, "access"@, c)
                ||| opt_bad::<ModifiedWriteValues>(x, "modifiedWriteValues"@, c)
                ||| opt_bad::<ReadAction>(x, "readAction"@, c)
                ||| !c.ignore_enums && opt_bad::<WriteConstraint>(x, "writeConstraint"@, c)
                ||| !c.ignore_enums && one_bad::<EnumeratedValues>(kids_named(x, "enumeratedValues"@), c)
                ||| exists|v: FieldInfo| field_of(x, c, v) && !#[trigger] field_ok(v, c.validate_level)
            },
        }
    }
//@ closure 0
|t: &Node| -> (b: bool) ensures b == (t.x().elem && tagged(t.x(), "enumeratedValues"@))
//@ closure 1
|t: Node| -> (r: Result<EnumeratedValues, SVDErrorAt>) ensures r matches Ok(v) ==> EnumeratedValues::says(t.x(), *config, Some(v)), r is Err ==> EnumeratedValues::says(t.x(), *config, None)
//@ endfn
//@ fn svd-parser/src/field.rs <Field as Parse>::parse as-trait -> r
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<Field>) -> bool { ma_says::<FieldInfo>("field"@, x, c, |i: Option<FieldInfo>| FieldInfo::says(x, c, i), r) }
//@ endfn
// ---------------------------------------------------------------- registers
pub open spec fn opt_fields(x: X, c: Config, v: Option<Vec<Field>>) -> bool {
    match child(x, "fields"@) {
        None => v is None,
        Some(n) => (v matches Some(l) && all_el::<Field>(kid_els(n), c, l@)) || (v is None && kid_els(n).len() == 0),
    }
}
pub open spec fn reg_of(x: X, c: Config, v: RegisterInfo) -> bool {
    &&& req_text(x, "name"@, v.name)
    &&& opt_text(x, "displayName"@, v.display_name)
    &&& opt_text(x, "description"@, v.description)
    &&& opt_text(x, "alternateGroup"@, v.alternate_group)
    &&& opt_text(x, "alternateRegister"@, v.alternate_register)
    &&& req_el::<u32>(x, "addressOffset"@, (), v.address_offset)
    &&& RegisterProperties::says(x, c, Some(v.properties))
    &&& opt_el::<DataType>(x, "dataType"@, c, v.datatype)
    &&& opt_el::<ModifiedWriteValues>(x, "modifiedWriteValues"@, c, v.modified_write_values)
    &&& opt_el::<WriteConstraint>(x, "writeConstraint"@, c, v.write_constraint)
    &&& opt_el::<ReadAction>(x, "readAction"@, c, v.read_action)
    &&& opt_fields(x, c, v.fields)
    &&& opt_attr(x, "derivedFrom"@, v.derived_from)
}
//@ fn svd-parser/src/register.rs <RegisterInfo as Parse>::parse as-trait -> r
//@ opt vx-nodes
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<RegisterInfo>) -> bool {
        match r {
            Some(v) => reg_of(x, c, v) && reg_ok(v, c.validate_level),
            None => {
                ||| no_text(x, "name"@)
                ||| req_bad::<u32>(x, "addressOffset"@, ())
                ||| RegisterProperties::says(x, c, None)
                ||| opt_bad::<DataType>(x, "dataType"@, c)
                ||| opt_bad::<ModifiedWriteValues>(x, "modifiedWriteValues"@, c)
                ||| opt_bad::<WriteConstraint>(x, "writeConstraint"@, c)
                ||| opt_bad::<ReadAction>(x, "readAction"@, c)
                ||| child(x, "fields"@) matches Some(n) && one_bad::<Field>(kid_els(n), c)
                ||| exists|v: RegisterInfo| reg_of(x, c, v) && !#[trigger] reg_ok(v, c.validate_level)
            },
        }
    }
//@ closure 0
|t: Node| -> (r: Result<Field, SVDErrorAt>) ensures r matches Ok(v) ==> Field::says(t.x(), *config, Some(v)), r is Err ==> Field::says(t.x(), *config, None)
//@ endfn
//@ fn svd-parser/src/register.rs <Register as Parse>::parse as-trait -> r
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<Register>) -> bool { ma_says::<RegisterInfo>("register"@, x, c, |i: Option<RegisterInfo>| RegisterInfo::says(x, c, i), r) }
//@ endfn
// ---------------------------------------------------------------- clusters
pub open spec fn rc_kids(x: X) -> Seq<X> { x.kids.filter(|n: X| n.elem && (tagged(n, "register"@) || tagged(n, "cluster"@))) }
pub open spec fn rc_says(x: X, c: Config, r: Option<RegisterCluster>) -> bool
    decreases x, 3nat
{
    if x.name == "register"@ {
        match r { Some(RegisterCluster::Register(v)) => Register::says(x, c, Some(v)), Some(RegisterCluster::Cluster(_)) => false, None => Register::says(x, c, None) }
    } else if x.name == "cluster"@ {
        match r { Some(RegisterCluster::Cluster(v)) => cl_says(x, c, Some(v)), Some(RegisterCluster::Register(_)) => false, None => cl_says(x, c, None) }
    } else { r is None }
}
pub open spec fn cl_says(x: X, c: Config, r: Option<Cluster>) -> bool
    decreases x, 2nat
{
    ma_says::<ClusterInfo>("cluster"@, x, c, |i: Option<ClusterInfo>| ci_says(x, c, i), r)
}
pub open spec fn ci_of(x: X, c: Config, v: ClusterInfo) -> bool
    decreases x, 0nat via ci_dec
{
    &&& req_text(x, "name"@, v.name)
    &&& opt_text(x, "description"@, v.description)
    &&& opt_text(x, "alternateCluster"@, v.alternate_cluster)
    &&& opt_text(x, "headerStructName"@, v.header_struct_name)
    &&& req_el::<u32>(x, "addressOffset"@, (), v.address_offset)
    &&& RegisterProperties::says(x, c, Some(v.default_register_properties))
    &&& opt_attr(x, "derivedFrom"@, v.derived_from)
    &&& v.children@.len() == rc_kids(x).len()
    &&& forall|k: int| #![trigger rc_kids(x)[k]] #![trigger v.children@[k]] 0 <= k < rc_kids(x).len() ==> rc_says(rc_kids(x)[k], c, Some(v.children@[k]))
}
#[via_fn]
proof fn ci_dec(x: X, c: Config, v: ClusterInfo) {
    assert forall|k: int| 0 <= k < rc_kids(x).len() implies decreases_to!(x => #[trigger] rc_kids(x)[k]) by { lemma_filter_in(x.kids, |n: X| n.elem && (tagged(n, "register"@) || tagged(n, "cluster"@)), k); lemma_kid_dec(x, rc_kids(x)[k]); }
}
pub proof fn lemma_filter_in<T>(s: Seq<T>, p: spec_fn(T) -> bool, k: int)
    requires 0 <= k < s.filter(p).len(),
    ensures s.contains(s.filter(p)[k]), p(s.filter(p)[k]),
    decreases s.len(),
{
    reveal_with_fuel(Seq::filter, 3);
    if s.len() > 0 {
        let f = s.drop_last().filter(p);
        if k < f.len() {
            lemma_filter_in(s.drop_last(), p, k);
            let i = choose|i: int| 0 <= i < s.drop_last().len() && s.drop_last()[i] == f[k];
            assert(s[i] == f[k]);
        } else { assert(s[s.len() - 1] == s.filter(p)[k]); }
    }
}
pub proof fn lemma_kid_dec(x: X, n: X)
    requires x.kids.contains(n),
    ensures decreases_to!(x => n),
{
    let i = choose|i: int| 0 <= i < x.kids.len() && x.kids[i] == n;
    assert(decreases_to!(x.kids => x.kids[i]));
}
pub open spec fn ci_says(x: X, c: Config, r: Option<ClusterInfo>) -> bool
    decreases x, 1nat via ci_says_dec
{
    match r {
        Some(v) => ci_of(x, c, v) && cl_ok(v, c.validate_level),
        None => {
            ||| no_text(x, "name"@)
            ||| req_bad::<u32>(x, "addressOffset"@, ())
            ||| RegisterProperties::says(x, c, None)
            ||| exists|k: int| 0 <= k < rc_kids(x).len() && rc_says(#[trigger] rc_kids(x)[k], c, None)
            ||| exists|v: ClusterInfo| ci_of(x, c, v) && !#[trigger] cl_ok(v, c.validate_level)
        },
    }
}
#[via_fn]
proof fn ci_says_dec(x: X, c: Config, r: Option<ClusterInfo>) {
    assert forall|k: int| 0 <= k < rc_kids(x).len() implies decreases_to!(x => #[trigger] rc_kids(x)[k]) by { lemma_filter_in(x.kids, |n: X| n.elem && (tagged(n, "register"@) || tagged(n, "cluster"@)), k); lemma_kid_dec(x, rc_kids(x)[k]); }
}
//@ module svd::registercluster first
impl vstd::std_specs::convert::FromSpecImpl<Register> for RegisterCluster {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Register) -> Self { RegisterCluster::Register(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<Cluster> for RegisterCluster {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Cluster) -> Self { RegisterCluster::Cluster(v) }
}
//@ module spec
//@ fn svd-rs/src/registercluster.rs <RegisterCluster as From<Register>>::from as-trait -> r
//@ endfn
//@ fn svd-rs/src/registercluster.rs <RegisterCluster as From<Cluster>>::from as-trait -> r
//@ endfn
//@ fn svd-parser/src/registercluster.rs <RegisterCluster as Parse>::parse as-trait -> r
    decreases tree.x(), 3nat
//@ opt result
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<RegisterCluster>) -> bool { rc_says(x, c, r) }
//@ endfn
// (`parse_array` at T = ClusterInfo)
//@ fn svd-parser/src/array.rs parse_array rename parse_cluster_array -> r
    ensures
        r matches Ok(v) ==> ma_says::<ClusterInfo>(tag@, tree.x(), *config, |i: Option<ClusterInfo>| ci_says(tree.x(), *config, i), Some(v)),
        r is Err ==> ma_says::<ClusterInfo>(tag@, tree.x(), *config, |i: Option<ClusterInfo>| ci_says(tree.x(), *config, i), None),
    decreases tree.x(), 1nat
//@ sigsubst <T> =>>
//@ sigsubst MaybeArray<T> =>> MaybeArray<ClusterInfo>
//@ sigsubst where T: Parse<Object = T, Error = SVDErrorAt, Config = Config> + Name, =>>
//@ subst T::parse =>> ClusterInfo::parse
//@ endfn
//@ fn svd-parser/src/cluster.rs <Cluster as Parse>::parse as-trait -> r
    decreases tree.x(), 2nat
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<Cluster>) -> bool { cl_says(x, c, r) }
//@ subst parse_array =>> parse_cluster_array
//@ endfn
//@ fn svd-parser/src/cluster.rs <ClusterInfo as Parse>::parse as-trait -> r
    decreases tree.x(), 0nat
//@ opt vx-nodes
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<ClusterInfo>) -> bool { ci_says(x, c, r) }
//@ closure 0
|t: &Node| -> (b: bool) ensures b == (t.x().elem && (tagged(t.x(), "register"@) || tagged(t.x(), "cluster"@)))
//@ closure 1
|t: Node| -> (r: Result<RegisterCluster, SVDErrorAt>) requires tree.x().kids.contains(t.x()) ensures r matches Ok(v) ==> rc_says(t.x(), *config, Some(v)), r is Err ==> rc_says(t.x(), *config, None)
//@ start
proof { assert(rc_kids(tree.x()).len() >= 0); }
//@ closurestart 1
proof { lemma_kid_dec(tree.x(), t.x()); }
//@ endfn
// ---------------------------------------------------------------- peripherals
pub open spec fn opt_blocks(x: X, c: Config, v: Option<Vec<AddressBlock>>) -> bool {
    match v { Some(l) => l@.len() > 0 && all_el::<AddressBlock>(kids_named(x, "addressBlock"@), c, l@), None => kids_named(x, "addressBlock"@).len() == 0 }
}
pub open spec fn opt_registers(x: X, c: Config, v: Option<Vec<RegisterCluster>>) -> bool {
    match child(x, "registers"@) {
        None => v is None,
        Some(n) => (v matches Some(l) && all_el::<RegisterCluster>(kid_els(n), c, l@)) || (v is None && kid_els(n).len() == 0),
    }
}
pub open spec fn per_of(x: X, c: Config, v: PeripheralInfo) -> bool {
    &&& req_text(x, "name"@, v.name)
    &&& opt_text(x, "displayName"@, v.display_name)
    &&& opt_text(x, "version"@, v.version)
    &&& opt_text(x, "description"@, v.description)
    &&& opt_text(x, "alternatePeripheral"@, v.alternate_peripheral)
    &&& opt_text(x, "groupName"@, v.group_name)
    &&& opt_text(x, "prependToName"@, v.prepend_to_name)
    &&& opt_text(x, "appendToName"@, v.append_to_name)
    &&& opt_text(x, "headerStructName"@, v.header_struct_name)
    &&& req_el::<u64>(x, "baseAddress"@, (), v.base_address)
    &&& RegisterProperties::says(x, c, Some(v.default_register_properties))
    &&& opt_blocks(x, c, v.address_block)
    &&& all_el::<Interrupt>(kids_named(x, "interrupt"@), c, v.interrupt@)
    &&& opt_registers(x, c, v.registers)
    &&& opt_attr(x, "derivedFrom"@, v.derived_from)
}
//@ fn svd-parser/src/peripheral.rs <PeripheralInfo as Parse>::parse as-trait -> r
//@ opt vx-nodes
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<PeripheralInfo>) -> bool {
        match r {
            Some(v) => tagged(x, "peripheral"@) && per_of(x, c, v) && per_ok(v, c.validate_level),
            None => {
                ||| !tagged(x, "peripheral"@)
                ||| no_text(x, "name"@)
                ||| req_bad::<u64>(x, "baseAddress"@, ())
                ||| RegisterProperties::says(x, c, None)
                ||| one_bad::<AddressBlock>(kids_named(x, "addressBlock"@), c)
                ||| one_bad::<Interrupt>(kids_named(x, "interrupt"@), c)
                ||| child(x, "registers"@) matches Some(n) && one_bad::<RegisterCluster>(kid_els(n), c)
                ||| exists|v: PeripheralInfo| per_of(x, c, v) && !#[trigger] per_ok(v, c.validate_level)
            },
        }
    }
//@ closure 0
|t: &Node| -> (b: bool) ensures b == (t.x().elem && tagged(t.x(), "addressBlock"@))
//@ closure 1
|i: Node| -> (r: Result<AddressBlock, SVDErrorAt>) ensures r matches Ok(v) ==> AddressBlock::says(i.x(), *config, Some(v)), r is Err ==> AddressBlock::says(i.x(), *config, None)
//@ closure 2
|t: &Node| -> (b: bool) ensures b == (t.x().elem && tagged(t.x(), "interrupt"@))
//@ closure 3
|i: Node| -> (r: Result<Interrupt, SVDErrorAt>) ensures r matches Ok(v) ==> Interrupt::says(i.x(), *config, Some(v)), r is Err ==> Interrupt::says(i.x(), *config, None)
//@ closure 4
|t: Node| -> (r: Result<RegisterCluster, SVDErrorAt>) ensures r matches Ok(v) ==> RegisterCluster::says(t.x(), *config, Some(v)), r is Err ==> RegisterCluster::says(t.x(), *config, None)
//@ endfn
//@ fn svd-parser/src/peripheral.rs <Peripheral as Parse>::parse as-trait -> r
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<Peripheral>) -> bool { ma_says::<PeripheralInfo>("peripheral"@, x, c, |i: Option<PeripheralInfo>| PeripheralInfo::says(x, c, i), r) }
//@ endfn
// ---------------------------------------------------------------- Device
// the value of child k, d where there is none
pub open spec fn text_or(x: X, k: Seq<char>, d: Seq<char>, v: String) -> bool { match crate::parser::elementext::text_of(x, k) { Some(t) => v@ == t, None => v@ == d } }
pub open spec fn num_or(x: X, k: Seq<char>, d: u32, v: u32) -> bool { match child(x, k) { Some(n) => u32::says(n, (), Some(v)), None => v == d } }
pub open spec fn str_or(t: Option<Seq<char>>, d: Seq<char>, v: String) -> bool { match t { Some(t) => v@ == t, None => v@ == d } }
pub open spec fn xs_uri(x: X) -> Option<Seq<char>> { ns_uri(x, Some("xs"@)) }
// (opaque, and proved through the builder: unfolding it on every path through `parse` is expensive)
#[verifier::opaque]
pub open spec fn dev_of(x: X, c: Config, v: Device) -> bool {
    &&& opt_text(x, "vendor"@, v.vendor)
    &&& opt_text(x, "vendorID"@, v.vendor_id)
    &&& req_text(x, "name"@, v.name)
    &&& opt_text(x, "series"@, v.series)
    &&& text_or(x, "version"@, "1.0"@, v.version)
    &&& text_or(x, "description"@, ""@, v.description)
    &&& opt_text(x, "licenseText"@, v.license_text)
    &&& opt_el::<Cpu>(x, "cpu"@, c, v.cpu)
    &&& opt_text(x, "headerSystemFilename"@, v.header_system_filename)
    &&& opt_text(x, "headerDefinitionsPrefix"@, v.header_definitions_prefix)
    &&& num_or(x, "addressUnitBits"@, 8, v.address_unit_bits)
    &&& num_or(x, "width"@, 32, v.width)
    &&& RegisterProperties::says(x, c, Some(v.default_register_properties))
    &&& child(x, "peripherals"@) matches Some(n) && all_el::<Peripheral>(kid_els(n), c, v.peripherals@)
    &&& str_or(xs_uri(x), "http://www.w3.org/2001/XMLSchema-instance"@, v.xmlns_xs)
    &&& str_or(match xs_uri(x) { Some(u) => attr_ns(x, u, "noNamespaceSchemaLocation"@), None => None }, "CMSIS-SVD_Schema_1_1.xsd"@, v.no_namespace_schema_location)
    &&& str_or(attr(x, "schemaVersion"@), "1.1"@, v.schema_version)
}
// what the builder has been given
pub open spec fn text_is(b: Option<String>, t: Option<Seq<char>>) -> bool { match b { Some(s) => t == Some(s@), None => t is None } }
pub open spec fn tx(x: X, k: Seq<char>) -> Option<Seq<char>> { crate::parser::elementext::text_of(x, k) }
pub open spec fn dev_built(x: X, c: Config, b: DeviceBuilder) -> bool {
    &&& text_is(b.vendor, tx(x, "vendor"@))
    &&& text_is(b.vendor_id, tx(x, "vendorID"@))
    &&& text_is(b.name, tx(x, "name"@))
    &&& text_is(b.series, tx(x, "series"@))
    &&& text_is(b.license_text, tx(x, "licenseText"@))
    &&& text_is(b.header_system_filename, tx(x, "headerSystemFilename"@))
    &&& text_is(b.header_definitions_prefix, tx(x, "headerDefinitionsPrefix"@))
    &&& text_is(b.version, tx(x, "version"@))
    &&& text_is(b.description, tx(x, "description"@))
    &&& opt_el::<Cpu>(x, "cpu"@, c, b.cpu)
    &&& opt_el::<u32>(x, "addressUnitBits"@, (), b.address_unit_bits)
    &&& opt_el::<u32>(x, "width"@, (), b.width)
    &&& RegisterProperties::says(x, c, Some(b.default_register_properties))
    &&& child(x, "peripherals"@) matches Some(n) && b.peripherals matches Some(p) && all_el::<Peripheral>(kid_els(n), c, p@)
    &&& text_is(b.xmlns_xs, xs_uri(x))
    &&& text_is(b.no_namespace_schema_location, match xs_uri(x) { Some(u) => attr_ns(x, u, "noNamespaceSchemaLocation"@), None => None })
    &&& text_is(b.schema_version, attr(x, "schemaVersion"@))
}
pub proof fn lemma_dev_of(x: X, c: Config, b: DeviceBuilder, v: Device)
    requires dev_built(x, c, b), dev_stores(v, b),
    ensures dev_of(x, c, v),
{ reveal(dev_of); }
// what a device has to give at the strict level
pub open spec fn dev_lacks(x: X) -> bool { no_text(x, "version"@) || no_text(x, "description"@) || child(x, "addressUnitBits"@) is None || child(x, "width"@) is None }
//@ fn svd-parser/src/device.rs <Device as Parse>::parse as-trait -> r
//@ opt vx-nodes
//@ subst tree.attribute((xmlns_xs, "noNamespaceSchemaLocation")) =>> tree.attribute_ns((xmlns_xs, "noNamespaceSchemaLocation"))
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<Device>) -> bool {
        match r {
            Some(v) => tagged(x, "device"@) && dev_of(x, c, v) && dev_ok(v, c.validate_level) && (strict(c.validate_level) ==> !dev_lacks(x)),
            None => {
                ||| !tagged(x, "device"@)
                ||| no_text(x, "name"@)
                ||| opt_bad::<Cpu>(x, "cpu"@, c)
                ||| RegisterProperties::says(x, c, None)
                ||| opt_bad::<u32>(x, "addressUnitBits"@, ())
                ||| opt_bad::<u32>(x, "width"@, ())
                ||| child(x, "peripherals"@) matches Some(n) ==> one_bad::<Peripheral>(kid_els(n), c)
                ||| strict(c.validate_level) && dev_lacks(x)
                ||| weak(c.validate_level) && (child(x, "peripherals"@) matches Some(n) && kid_els(n).len() == 0)
            },
        }
    }
//@ start
proof { assert forall|b: DeviceBuilder, v: Device| dev_built(tree.x(), *config, b) && #[trigger] dev_stores(v, b) implies dev_of(tree.x(), *config, v) by { lemma_dev_of(tree.x(), *config, b, v); } }
//@ closure 0
|t: Node| -> (r: Result<Peripheral, SVDErrorAt>) ensures r matches Ok(v) ==> Peripheral::says(t.x(), *config, Some(v)), r is Err ==> Peripheral::says(t.x(), *config, None)
//@ endfn
