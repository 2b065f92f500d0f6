// C14: deriving single elements and arrays.
//@ include derive.rs
//@ include text.rs
//@ include names.rs
//@ module svd::derive_from
pub open spec fn has_placeholder(n: Seq<char>) -> bool { contains_text(n, seq!['%', 's']) }
//@ fn svd-rs/src/derive_from.rs <MaybeArray<T> as DeriveFrom>::derive_from as-trait -> r
//@ impltext
    open spec fn derived(self, other: Self) -> Self {
        match self {
            MaybeArray::Single(info) => match other {
                MaybeArray::Single(o) => MaybeArray::Single(info.derived(o)),
                MaybeArray::Array(o, dim) =>
                    if has_placeholder(info.name_spec()) {
                        MaybeArray::Array(info.derived(o), DimElement { dim_name: None, ..dim })
                    } else {
                        MaybeArray::Single(info.derived(o))
                    },
            },
            MaybeArray::Array(info, dim) => MaybeArray::Array(info.derived(match other {
                MaybeArray::Single(o) => o,
                MaybeArray::Array(o, _) => o,
            }), dim),
        }
    }
//@ start
proof {
    if let MaybeArray::Single(info) = self { crate::spec::lemma_pat_in_str(info.name_spec(), "%s"); }
    assert("%s"@ =~= seq!['%', 's']);
}
//@ endfn
