// C12: keyword vocabularies. The tables are those of the CMSIS-SVD schema, written independently of the code.
//@ include common.rs
//@ include std.rs
pub trait Keyword: Sized { spec fn kw(self) -> Seq<char>; }

impl Keyword for Access {
    open spec fn kw(self) -> Seq<char> {
        match self {
            Access::ReadOnly => "read-only"@,
            Access::ReadWrite => "read-write"@,
            Access::ReadWriteOnce => "read-writeOnce"@,
            Access::WriteOnce => "writeOnce"@,
            Access::WriteOnly => "write-only"@,
        }
    }
}
pub proof fn distinct_access(a: Access, b: Access)
    ensures a.kw() == b.kw() ==> a == b,
{
    reveal_strlit("read-only"); reveal_strlit("read-write"); reveal_strlit("read-writeOnce"); reveal_strlit("writeOnce"); reveal_strlit("write-only");
    assert("read-only"@.len() != "read-write"@.len());
    assert("read-only"@.len() != "read-writeOnce"@.len());
    assert("read-only"@[0] != "writeOnce"@[0]);
    assert("read-only"@.len() != "write-only"@.len());
    assert("read-write"@.len() != "read-writeOnce"@.len());
    assert("read-write"@.len() != "writeOnce"@.len());
    assert("read-write"@[0] != "write-only"@[0]);
    assert("read-writeOnce"@.len() != "writeOnce"@.len());
    assert("read-writeOnce"@.len() != "write-only"@.len());
    assert("writeOnce"@.len() != "write-only"@.len());
}
//@ fn svd-rs/src/access.rs Access::as_str -> r
    ensures r@ == self.kw(),
//@ endfn
//@ fn svd-rs/src/access.rs Access::parse_str -> r
    ensures
        r matches Some(v) ==> v.kw() == s@,
        r is None ==> forall|v: Access| #[trigger] v.kw() != s@,
//@ endfn
// reading what was written gives the value back: over the two contracts
pub fn round_access(v: Access) {
    let s = v.as_str();
    let r = Access::parse_str(s);
    proof { if r is Some { distinct_access(r->0, v); } }
    assert(r == Some(v));
}
impl Keyword for Usage {
    open spec fn kw(self) -> Seq<char> {
        match self {
            Usage::Read => "read"@,
            Usage::Write => "write"@,
            Usage::ReadWrite => "read-write"@,
        }
    }
}
pub proof fn distinct_usage(a: Usage, b: Usage)
    ensures a.kw() == b.kw() ==> a == b,
{
    reveal_strlit("read"); reveal_strlit("write"); reveal_strlit("read-write");
    assert("read"@.len() != "write"@.len());
    assert("read"@.len() != "read-write"@.len());
    assert("write"@.len() != "read-write"@.len());
}
//@ fn svd-rs/src/usage.rs Usage::as_str -> r
    ensures r@ == self.kw(),
//@ endfn
//@ fn svd-rs/src/usage.rs Usage::parse_str -> r
    ensures
        r matches Some(v) ==> v.kw() == s@,
        r is None ==> forall|v: Usage| #[trigger] v.kw() != s@,
//@ endfn
// reading what was written gives the value back: over the two contracts
pub fn round_usage(v: Usage) {
    let s = v.as_str();
    let r = Usage::parse_str(s);
    proof { if r is Some { distinct_usage(r->0, v); } }
    assert(r == Some(v));
}
impl Keyword for Endian {
    open spec fn kw(self) -> Seq<char> {
        match self {
            Endian::Little => "little"@,
            Endian::Big => "big"@,
            Endian::Selectable => "selectable"@,
            Endian::Other => "other"@,
        }
    }
}
pub proof fn distinct_endian(a: Endian, b: Endian)
    ensures a.kw() == b.kw() ==> a == b,
{
    reveal_strlit("little"); reveal_strlit("big"); reveal_strlit("selectable"); reveal_strlit("other");
    assert("little"@.len() != "big"@.len());
    assert("little"@.len() != "selectable"@.len());
    assert("little"@.len() != "other"@.len());
    assert("big"@.len() != "selectable"@.len());
    assert("big"@.len() != "other"@.len());
    assert("selectable"@.len() != "other"@.len());
}
//@ fn svd-rs/src/endian.rs Endian::as_str -> r
    ensures r@ == self.kw(),
//@ endfn
//@ fn svd-rs/src/endian.rs Endian::parse_str -> r
    ensures
        r matches Some(v) ==> v.kw() == s@,
        r is None ==> forall|v: Endian| #[trigger] v.kw() != s@,
//@ endfn
// reading what was written gives the value back: over the two contracts
pub fn round_endian(v: Endian) {
    let s = v.as_str();
    let r = Endian::parse_str(s);
    proof { if r is Some { distinct_endian(r->0, v); } }
    assert(r == Some(v));
}
impl Keyword for Protection {
    open spec fn kw(self) -> Seq<char> {
        match self {
            Protection::Secure => "s"@,
            Protection::NonSecure => "n"@,
            Protection::Privileged => "p"@,
        }
    }
}
pub proof fn distinct_protection(a: Protection, b: Protection)
    ensures a.kw() == b.kw() ==> a == b,
{
    reveal_strlit("s"); reveal_strlit("n"); reveal_strlit("p");
    assert("s"@[0] != "n"@[0]);
    assert("s"@[0] != "p"@[0]);
    assert("n"@[0] != "p"@[0]);
}
//@ fn svd-rs/src/protection.rs Protection::as_str -> r
    ensures r@ == self.kw(),
//@ endfn
//@ fn svd-rs/src/protection.rs Protection::parse_str -> r
    ensures
        r matches Some(v) ==> v.kw() == s@,
        r is None ==> forall|v: Protection| #[trigger] v.kw() != s@,
//@ endfn
// reading what was written gives the value back: over the two contracts
pub fn round_protection(v: Protection) {
    let s = v.as_str();
    let r = Protection::parse_str(s);
    proof { if r is Some { distinct_protection(r->0, v); } }
    assert(r == Some(v));
}
impl Keyword for ReadAction {
    open spec fn kw(self) -> Seq<char> {
        match self {
            ReadAction::Clear => "clear"@,
            ReadAction::Set => "set"@,
            ReadAction::Modify => "modify"@,
            ReadAction::ModifyExternal => "modifyExternal"@,
        }
    }
}
pub proof fn distinct_readaction(a: ReadAction, b: ReadAction)
    ensures a.kw() == b.kw() ==> a == b,
{
    reveal_strlit("clear"); reveal_strlit("set"); reveal_strlit("modify"); reveal_strlit("modifyExternal");
    assert("clear"@.len() != "set"@.len());
    assert("clear"@.len() != "modify"@.len());
    assert("clear"@.len() != "modifyExternal"@.len());
    assert("set"@.len() != "modify"@.len());
    assert("set"@.len() != "modifyExternal"@.len());
    assert("modify"@.len() != "modifyExternal"@.len());
}
//@ fn svd-rs/src/readaction.rs ReadAction::as_str -> r
    ensures r@ == self.kw(),
//@ endfn
//@ fn svd-rs/src/readaction.rs ReadAction::parse_str -> r
    ensures
        r matches Some(v) ==> v.kw() == s@,
        r is None ==> forall|v: ReadAction| #[trigger] v.kw() != s@,
//@ endfn
// reading what was written gives the value back: over the two contracts
pub fn round_readaction(v: ReadAction) {
    let s = v.as_str();
    let r = ReadAction::parse_str(s);
    proof { if r is Some { distinct_readaction(r->0, v); } }
    assert(r == Some(v));
}
impl Keyword for ModifiedWriteValues {
    open spec fn kw(self) -> Seq<char> {
        match self {
            ModifiedWriteValues::OneToClear => "oneToClear"@,
            ModifiedWriteValues::OneToSet => "oneToSet"@,
            ModifiedWriteValues::OneToToggle => "oneToToggle"@,
            ModifiedWriteValues::ZeroToClear => "zeroToClear"@,
            ModifiedWriteValues::ZeroToSet => "zeroToSet"@,
            ModifiedWriteValues::ZeroToToggle => "zeroToToggle"@,
            ModifiedWriteValues::Clear => "clear"@,
            ModifiedWriteValues::Set => "set"@,
            ModifiedWriteValues::Modify => "modify"@,
        }
    }
}
pub proof fn distinct_modifiedwritevalues(a: ModifiedWriteValues, b: ModifiedWriteValues)
    ensures a.kw() == b.kw() ==> a == b,
{
    reveal_strlit("oneToClear"); reveal_strlit("oneToSet"); reveal_strlit("oneToToggle"); reveal_strlit("zeroToClear"); reveal_strlit("zeroToSet"); reveal_strlit("zeroToToggle"); reveal_strlit("clear"); reveal_strlit("set"); reveal_strlit("modify");
    assert("oneToClear"@.len() != "oneToSet"@.len());
    assert("oneToClear"@.len() != "oneToToggle"@.len());
    assert("oneToClear"@.len() != "zeroToClear"@.len());
    assert("oneToClear"@.len() != "zeroToSet"@.len());
    assert("oneToClear"@.len() != "zeroToToggle"@.len());
    assert("oneToClear"@.len() != "clear"@.len());
    assert("oneToClear"@.len() != "set"@.len());
    assert("oneToClear"@.len() != "modify"@.len());
    assert("oneToSet"@.len() != "oneToToggle"@.len());
    assert("oneToSet"@.len() != "zeroToClear"@.len());
    assert("oneToSet"@.len() != "zeroToSet"@.len());
    assert("oneToSet"@.len() != "zeroToToggle"@.len());
    assert("oneToSet"@.len() != "clear"@.len());
    assert("oneToSet"@.len() != "set"@.len());
    assert("oneToSet"@.len() != "modify"@.len());
    assert("oneToToggle"@[0] != "zeroToClear"@[0]);
    assert("oneToToggle"@.len() != "zeroToSet"@.len());
    assert("oneToToggle"@.len() != "zeroToToggle"@.len());
    assert("oneToToggle"@.len() != "clear"@.len());
    assert("oneToToggle"@.len() != "set"@.len());
    assert("oneToToggle"@.len() != "modify"@.len());
    assert("zeroToClear"@.len() != "zeroToSet"@.len());
    assert("zeroToClear"@.len() != "zeroToToggle"@.len());
    assert("zeroToClear"@.len() != "clear"@.len());
    assert("zeroToClear"@.len() != "set"@.len());
    assert("zeroToClear"@.len() != "modify"@.len());
    assert("zeroToSet"@.len() != "zeroToToggle"@.len());
    assert("zeroToSet"@.len() != "clear"@.len());
    assert("zeroToSet"@.len() != "set"@.len());
    assert("zeroToSet"@.len() != "modify"@.len());
    assert("zeroToToggle"@.len() != "clear"@.len());
    assert("zeroToToggle"@.len() != "set"@.len());
    assert("zeroToToggle"@.len() != "modify"@.len());
    assert("clear"@.len() != "set"@.len());
    assert("clear"@.len() != "modify"@.len());
    assert("set"@.len() != "modify"@.len());
}
//@ fn svd-rs/src/modifiedwritevalues.rs ModifiedWriteValues::as_str -> r
    ensures r@ == self.kw(),
//@ endfn
//@ fn svd-rs/src/modifiedwritevalues.rs ModifiedWriteValues::parse_str -> r
    ensures
        r matches Some(v) ==> v.kw() == s@,
        r is None ==> forall|v: ModifiedWriteValues| #[trigger] v.kw() != s@,
//@ endfn
// reading what was written gives the value back: over the two contracts
pub fn round_modifiedwritevalues(v: ModifiedWriteValues) {
    let s = v.as_str();
    let r = ModifiedWriteValues::parse_str(s);
    proof { if r is Some { distinct_modifiedwritevalues(r->0, v); } }
    assert(r == Some(v));
}
impl Keyword for DataType {
    open spec fn kw(self) -> Seq<char> {
        match self {
            DataType::U8 => "uint8_t"@,
            DataType::U16 => "uint16_t"@,
            DataType::U32 => "uint32_t"@,
            DataType::U64 => "uint64_t"@,
            DataType::I8 => "int8_t"@,
            DataType::I16 => "int16_t"@,
            DataType::I32 => "int32_t"@,
            DataType::I64 => "int64_t"@,
            DataType::U8Ptr => "uint8_t *"@,
            DataType::U16Ptr => "uint16_t *"@,
            DataType::U32Ptr => "uint32_t *"@,
            DataType::U64Ptr => "uint64_t *"@,
            DataType::I8Ptr => "int8_t *"@,
            DataType::I16Ptr => "int16_t *"@,
            DataType::I32Ptr => "int32_t *"@,
            DataType::I64Ptr => "int64_t *"@,
        }
    }
}
pub proof fn distinct_datatype(a: DataType, b: DataType)
    ensures a.kw() == b.kw() ==> a == b,
{
    reveal_strlit("uint8_t"); reveal_strlit("uint16_t"); reveal_strlit("uint32_t"); reveal_strlit("uint64_t"); reveal_strlit("int8_t"); reveal_strlit("int16_t"); reveal_strlit("int32_t"); reveal_strlit("int64_t"); reveal_strlit("uint8_t *"); reveal_strlit("uint16_t *"); reveal_strlit("uint32_t *"); reveal_strlit("uint64_t *"); reveal_strlit("int8_t *"); reveal_strlit("int16_t *"); reveal_strlit("int32_t *"); reveal_strlit("int64_t *");
    assert("uint8_t"@.len() != "uint16_t"@.len());
    assert("uint8_t"@.len() != "uint32_t"@.len());
    assert("uint8_t"@.len() != "uint64_t"@.len());
    assert("uint8_t"@.len() != "int8_t"@.len());
    assert("uint8_t"@[0] != "int16_t"@[0]);
    assert("uint8_t"@[0] != "int32_t"@[0]);
    assert("uint8_t"@[0] != "int64_t"@[0]);
    assert("uint8_t"@.len() != "uint8_t *"@.len());
    assert("uint8_t"@.len() != "uint16_t *"@.len());
    assert("uint8_t"@.len() != "uint32_t *"@.len());
    assert("uint8_t"@.len() != "uint64_t *"@.len());
    assert("uint8_t"@.len() != "int8_t *"@.len());
    assert("uint8_t"@.len() != "int16_t *"@.len());
    assert("uint8_t"@.len() != "int32_t *"@.len());
    assert("uint8_t"@.len() != "int64_t *"@.len());
    assert("uint16_t"@[4] != "uint32_t"@[4]);
    assert("uint16_t"@[4] != "uint64_t"@[4]);
    assert("uint16_t"@.len() != "int8_t"@.len());
    assert("uint16_t"@.len() != "int16_t"@.len());
    assert("uint16_t"@.len() != "int32_t"@.len());
    assert("uint16_t"@.len() != "int64_t"@.len());
    assert("uint16_t"@.len() != "uint8_t *"@.len());
    assert("uint16_t"@.len() != "uint16_t *"@.len());
    assert("uint16_t"@.len() != "uint32_t *"@.len());
    assert("uint16_t"@.len() != "uint64_t *"@.len());
    assert("uint16_t"@[0] != "int8_t *"@[0]);
    assert("uint16_t"@.len() != "int16_t *"@.len());
    assert("uint16_t"@.len() != "int32_t *"@.len());
    assert("uint16_t"@.len() != "int64_t *"@.len());
    assert("uint32_t"@[4] != "uint64_t"@[4]);
    assert("uint32_t"@.len() != "int8_t"@.len());
    assert("uint32_t"@.len() != "int16_t"@.len());
    assert("uint32_t"@.len() != "int32_t"@.len());
    assert("uint32_t"@.len() != "int64_t"@.len());
    assert("uint32_t"@.len() != "uint8_t *"@.len());
    assert("uint32_t"@.len() != "uint16_t *"@.len());
    assert("uint32_t"@.len() != "uint32_t *"@.len());
    assert("uint32_t"@.len() != "uint64_t *"@.len());
    assert("uint32_t"@[0] != "int8_t *"@[0]);
    assert("uint32_t"@.len() != "int16_t *"@.len());
    assert("uint32_t"@.len() != "int32_t *"@.len());
    assert("uint32_t"@.len() != "int64_t *"@.len());
    assert("uint64_t"@.len() != "int8_t"@.len());
    assert("uint64_t"@.len() != "int16_t"@.len());
    assert("uint64_t"@.len() != "int32_t"@.len());
    assert("uint64_t"@.len() != "int64_t"@.len());
    assert("uint64_t"@.len() != "uint8_t *"@.len());
    assert("uint64_t"@.len() != "uint16_t *"@.len());
    assert("uint64_t"@.len() != "uint32_t *"@.len());
    assert("uint64_t"@.len() != "uint64_t *"@.len());
    assert("uint64_t"@[0] != "int8_t *"@[0]);
    assert("uint64_t"@.len() != "int16_t *"@.len());
    assert("uint64_t"@.len() != "int32_t *"@.len());
    assert("uint64_t"@.len() != "int64_t *"@.len());
    assert("int8_t"@.len() != "int16_t"@.len());
    assert("int8_t"@.len() != "int32_t"@.len());
    assert("int8_t"@.len() != "int64_t"@.len());
    assert("int8_t"@.len() != "uint8_t *"@.len());
    assert("int8_t"@.len() != "uint16_t *"@.len());
    assert("int8_t"@.len() != "uint32_t *"@.len());
    assert("int8_t"@.len() != "uint64_t *"@.len());
    assert("int8_t"@.len() != "int8_t *"@.len());
    assert("int8_t"@.len() != "int16_t *"@.len());
    assert("int8_t"@.len() != "int32_t *"@.len());
    assert("int8_t"@.len() != "int64_t *"@.len());
    assert("int16_t"@[3] != "int32_t"@[3]);
    assert("int16_t"@[3] != "int64_t"@[3]);
    assert("int16_t"@.len() != "uint8_t *"@.len());
    assert("int16_t"@.len() != "uint16_t *"@.len());
    assert("int16_t"@.len() != "uint32_t *"@.len());
    assert("int16_t"@.len() != "uint64_t *"@.len());
    assert("int16_t"@.len() != "int8_t *"@.len());
    assert("int16_t"@.len() != "int16_t *"@.len());
    assert("int16_t"@.len() != "int32_t *"@.len());
    assert("int16_t"@.len() != "int64_t *"@.len());
    assert("int32_t"@[3] != "int64_t"@[3]);
    assert("int32_t"@.len() != "uint8_t *"@.len());
    assert("int32_t"@.len() != "uint16_t *"@.len());
    assert("int32_t"@.len() != "uint32_t *"@.len());
    assert("int32_t"@.len() != "uint64_t *"@.len());
    assert("int32_t"@.len() != "int8_t *"@.len());
    assert("int32_t"@.len() != "int16_t *"@.len());
    assert("int32_t"@.len() != "int32_t *"@.len());
    assert("int32_t"@.len() != "int64_t *"@.len());
    assert("int64_t"@.len() != "uint8_t *"@.len());
    assert("int64_t"@.len() != "uint16_t *"@.len());
    assert("int64_t"@.len() != "uint32_t *"@.len());
    assert("int64_t"@.len() != "uint64_t *"@.len());
    assert("int64_t"@.len() != "int8_t *"@.len());
    assert("int64_t"@.len() != "int16_t *"@.len());
    assert("int64_t"@.len() != "int32_t *"@.len());
    assert("int64_t"@.len() != "int64_t *"@.len());
    assert("uint8_t *"@.len() != "uint16_t *"@.len());
    assert("uint8_t *"@.len() != "uint32_t *"@.len());
    assert("uint8_t *"@.len() != "uint64_t *"@.len());
    assert("uint8_t *"@.len() != "int8_t *"@.len());
    assert("uint8_t *"@[0] != "int16_t *"@[0]);
    assert("uint8_t *"@[0] != "int32_t *"@[0]);
    assert("uint8_t *"@[0] != "int64_t *"@[0]);
    assert("uint16_t *"@[4] != "uint32_t *"@[4]);
    assert("uint16_t *"@[4] != "uint64_t *"@[4]);
    assert("uint16_t *"@.len() != "int8_t *"@.len());
    assert("uint16_t *"@.len() != "int16_t *"@.len());
    assert("uint16_t *"@.len() != "int32_t *"@.len());
    assert("uint16_t *"@.len() != "int64_t *"@.len());
    assert("uint32_t *"@[4] != "uint64_t *"@[4]);
    assert("uint32_t *"@.len() != "int8_t *"@.len());
    assert("uint32_t *"@.len() != "int16_t *"@.len());
    assert("uint32_t *"@.len() != "int32_t *"@.len());
    assert("uint32_t *"@.len() != "int64_t *"@.len());
    assert("uint64_t *"@.len() != "int8_t *"@.len());
    assert("uint64_t *"@.len() != "int16_t *"@.len());
    assert("uint64_t *"@.len() != "int32_t *"@.len());
    assert("uint64_t *"@.len() != "int64_t *"@.len());
    assert("int8_t *"@.len() != "int16_t *"@.len());
    assert("int8_t *"@.len() != "int32_t *"@.len());
    assert("int8_t *"@.len() != "int64_t *"@.len());
    assert("int16_t *"@[3] != "int32_t *"@[3]);
    assert("int16_t *"@[3] != "int64_t *"@[3]);
    assert("int32_t *"@[3] != "int64_t *"@[3]);
}
//@ fn svd-rs/src/datatype.rs DataType::as_str -> r
    ensures r@ == self.kw(),
//@ endfn
//@ fn svd-rs/src/datatype.rs DataType::parse_str -> r
    ensures
        r matches Some(v) ==> v.kw() == s@,
        r is None ==> forall|v: DataType| #[trigger] v.kw() != s@,
//@ endfn
// reading what was written gives the value back: over the two contracts
pub fn round_datatype(v: DataType) {
    let s = v.as_str();
    let r = DataType::parse_str(s);
    proof { if r is Some { distinct_datatype(r->0, v); } }
    assert(r == Some(v));
}
impl Keyword for AddressBlockUsage {
    open spec fn kw(self) -> Seq<char> {
        match self {
            AddressBlockUsage::Registers => "registers"@,
            AddressBlockUsage::Buffer => "buffer"@,
            AddressBlockUsage::Reserved => "reserved"@,
        }
    }
}
pub proof fn distinct_addressblock(a: AddressBlockUsage, b: AddressBlockUsage)
    ensures a.kw() == b.kw() ==> a == b,
{
    reveal_strlit("registers"); reveal_strlit("buffer"); reveal_strlit("reserved");
    assert("registers"@.len() != "buffer"@.len());
    assert("registers"@.len() != "reserved"@.len());
    assert("buffer"@.len() != "reserved"@.len());
}
//@ fn svd-rs/src/addressblock.rs AddressBlockUsage::as_str -> r
    ensures r@ == self.kw(),
//@ endfn
//@ fn svd-rs/src/addressblock.rs AddressBlockUsage::parse_str -> r
    ensures
        r matches Some(v) ==> v.kw() == s@,
        r is None ==> forall|v: AddressBlockUsage| #[trigger] v.kw() != s@,
//@ endfn
// reading what was written gives the value back: over the two contracts
pub fn round_addressblock(v: AddressBlockUsage) {
    let s = v.as_str();
    let r = AddressBlockUsage::parse_str(s);
    proof { if r is Some { distinct_addressblock(r->0, v); } }
    assert(r == Some(v));
}
//@ fn svd-rs/src/access.rs Access::can_read -> r
    // readable unless the keyword says write only (once or always)
    ensures r == !(self.kw() == "write-only"@ || self.kw() == "writeOnce"@),
//@ start
proof { distinct_access(self, Access::WriteOnly); distinct_access(self, Access::WriteOnce); }
//@ endfn
//@ fn svd-rs/src/access.rs Access::can_write -> r
    ensures r == (self.kw() != "read-only"@),
//@ start
proof { distinct_access(self, Access::ReadOnly); }
//@ endfn
