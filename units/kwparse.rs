// C12: the parsers of keyword elements.
//@ include keywords.rs
//@ include parser.rs
//@ module spec
pub open spec fn kw_read<K: Keyword>(s: Seq<char>) -> Option<K> {
    if exists|v: K| #[trigger] v.kw() == s { Some(choose|v: K| #[trigger] v.kw() == s) } else { None }
}
impl Reads for Access {
    type Object = Access;
    type Config = Config;
    open spec fn reads(x: X, c: Config) -> Option<Access> { match el_text(x) { Some(t) => kw_read::<Access>(t), None => None } }
}
//@ fn svd-parser/src/access.rs <Access as Parse>::parse as-trait -> r
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<Access>) -> bool { r == <Access as Reads>::reads(x, c) }
//@ start
proof { assert forall|a: Access, b: Access| a.kw() == b.kw() implies a == b by { distinct_access(a, b); } }
//@ endfn
impl Reads for Usage {
    type Object = Usage;
    type Config = Config;
    open spec fn reads(x: X, c: Config) -> Option<Usage> { match el_text(x) { Some(t) => kw_read::<Usage>(t), None => None } }
}
//@ fn svd-parser/src/usage.rs <Usage as Parse>::parse as-trait -> r
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<Usage>) -> bool { r == <Usage as Reads>::reads(x, c) }
//@ start
proof { assert forall|a: Usage, b: Usage| a.kw() == b.kw() implies a == b by { distinct_usage(a, b); } }
//@ endfn
impl Reads for Endian {
    type Object = Endian;
    type Config = Config;
    open spec fn reads(x: X, c: Config) -> Option<Endian> { match el_text(x) { Some(t) => kw_read::<Endian>(t), None => None } }
}
//@ fn svd-parser/src/endian.rs <Endian as Parse>::parse as-trait -> r
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<Endian>) -> bool { r == <Endian as Reads>::reads(x, c) }
//@ start
proof { assert forall|a: Endian, b: Endian| a.kw() == b.kw() implies a == b by { distinct_endian(a, b); } }
//@ endfn
impl Reads for Protection {
    type Object = Protection;
    type Config = Config;
    open spec fn reads(x: X, c: Config) -> Option<Protection> { match el_text(x) { Some(t) => kw_read::<Protection>(t), None => None } }
}
//@ fn svd-parser/src/protection.rs <Protection as Parse>::parse as-trait -> r
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<Protection>) -> bool { r == <Protection as Reads>::reads(x, c) }
//@ start
proof { assert forall|a: Protection, b: Protection| a.kw() == b.kw() implies a == b by { distinct_protection(a, b); } }
//@ endfn
impl Reads for ReadAction {
    type Object = ReadAction;
    type Config = Config;
    open spec fn reads(x: X, c: Config) -> Option<ReadAction> { match el_text(x) { Some(t) => kw_read::<ReadAction>(t), None => None } }
}
//@ fn svd-parser/src/readaction.rs <ReadAction as Parse>::parse as-trait -> r
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<ReadAction>) -> bool { r == <ReadAction as Reads>::reads(x, c) }
//@ start
proof { assert forall|a: ReadAction, b: ReadAction| a.kw() == b.kw() implies a == b by { distinct_readaction(a, b); } }
//@ endfn
impl Reads for ModifiedWriteValues {
    type Object = ModifiedWriteValues;
    type Config = Config;
    open spec fn reads(x: X, c: Config) -> Option<ModifiedWriteValues> { match el_text(x) { Some(t) => kw_read::<ModifiedWriteValues>(t), None => None } }
}
//@ fn svd-parser/src/modifiedwritevalues.rs <ModifiedWriteValues as Parse>::parse as-trait -> r
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<ModifiedWriteValues>) -> bool { r == <ModifiedWriteValues as Reads>::reads(x, c) }
//@ start
proof { assert forall|a: ModifiedWriteValues, b: ModifiedWriteValues| a.kw() == b.kw() implies a == b by { distinct_modifiedwritevalues(a, b); } }
//@ endfn
impl Reads for DataType {
    type Object = DataType;
    type Config = Config;
    open spec fn reads(x: X, c: Config) -> Option<DataType> { match el_text(x) { Some(t) => kw_read::<DataType>(t), None => None } }
}
//@ fn svd-parser/src/datatype.rs <DataType as Parse>::parse as-trait -> r
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<DataType>) -> bool { r == <DataType as Reads>::reads(x, c) }
//@ start
proof { assert forall|a: DataType, b: DataType| a.kw() == b.kw() implies a == b by { distinct_datatype(a, b); } }
//@ endfn
impl Reads for AddressBlockUsage {
    type Object = AddressBlockUsage;
    type Config = Config;
    open spec fn reads(x: X, c: Config) -> Option<AddressBlockUsage> { match el_text(x) { Some(t) => kw_read::<AddressBlockUsage>(t), None => None } }
}
//@ fn svd-parser/src/addressblock.rs <AddressBlockUsage as Parse>::parse as-trait -> r
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<AddressBlockUsage>) -> bool { r == <AddressBlockUsage as Reads>::reads(x, c) }
//@ start
proof { assert forall|a: AddressBlockUsage, b: AddressBlockUsage| a.kw() == b.kw() implies a == b by { distinct_addressblock(a, b); } }
//@ endfn
