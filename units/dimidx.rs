// Shared: the indexes of an array.
//@ include common.rs
//@ include text.rs
//@ include iter_ax.rs
//@ module spec
use std::borrow::Cow;
// the i-th index of an array
pub open spec fn index_of(d: DimElement, i: int) -> Seq<char> { match d.dim_index { Some(v) => v@[i]@, None => dec(i as nat) } }
// as many index texts as elements (what the parser checks)
pub open spec fn dim_ok(d: DimElement) -> bool { d.dim_index matches Some(v) ==> v@.len() >= d.dim }
pub open spec fn cow_text<'a>(c: Cow<'a, str>) -> Seq<char> { match c { Cow::Borrowed(t) => t@, Cow::Owned(t) => t@ } }
//@ module ax
pub broadcast axiom fn ax_cow_ref<'a, 'b>(c: &'b Cow<'a, str>)
    ensures (#[trigger] cow_ref(c))@ == cow_text(*c),
;
pub broadcast axiom fn ax_string_cow_obeys<'a>()
    ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<Cow<'a, str>>>::obeys_eq_spec(),
;
pub broadcast axiom fn ax_string_cow_eq<'a>(a: String, b: Cow<'a, str>)
    ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<Cow<'a, str>>>::eq_spec(&a, &b) == (a@ == cow_text(b)),
;
pub broadcast group vx_axioms_cow { ax_cow_ref, ax_string_cow_obeys, ax_string_cow_eq }
//@ module spec
pub uninterp spec fn cow_ref<'a, 'b, B: ?Sized + ToOwned>(c: &'b Cow<'a, B>) -> &'b B;
pub assume_specification<'a, 'b, B: ?Sized + ToOwned>[ <Cow<'a, B> as core::ops::Deref>::deref ](c: &'b Cow<'a, B>) -> (r: &'b B)
    ensures r == cow_ref(c),
;
//@ private Indexes
//@ module ax
use std::borrow::Cow;
// a text is its characters
pub broadcast axiom fn ax_str_ext(a: &str, b: &str)
    requires #[trigger] a@ =~= #[trigger] b@,
    ensures a == b,
;
pub broadcast axiom fn ax_cow_from_str<'a>(v: &'a str)
    ensures #[trigger] <Cow<'a, str> as vstd::std_specs::convert::FromSpec<&'a str>>::from_spec(v) == Cow::<'a, str>::Borrowed(v),
;
pub broadcast axiom fn ax_cow_from_str_obeys<'a>()
    ensures #[trigger] <Cow<'a, str> as vstd::std_specs::convert::FromSpec<&'a str>>::obeys_from_spec(),
;
pub broadcast axiom fn ax_cow_from_string<'a>(v: String)
    ensures #[trigger] <Cow<'a, str> as vstd::std_specs::convert::FromSpec<String>>::from_spec(v) == Cow::<'a, str>::Owned(v),
;
pub broadcast axiom fn ax_cow_from_string_obeys<'a>()
    ensures #[trigger] <Cow<'a, str> as vstd::std_specs::convert::FromSpec<String>>::obeys_from_spec(),
;
pub broadcast axiom fn ax_text_of<'a>(s: String)
    ensures (#[trigger] str_of::<'a>(s))@ == s@,
;
pub broadcast axiom fn ax_dec_string(i: nat)
    ensures (#[trigger] dec_string(i))@ == dec(i),
;
pub broadcast axiom fn ax_char_from_u8(v: u8)
    ensures #[trigger] <char as vstd::std_specs::convert::FromSpec<u8>>::from_spec(v) == v as char,
;
pub broadcast axiom fn ax_char_from_u8_obeys()
    ensures #[trigger] <char as vstd::std_specs::convert::FromSpec<u8>>::obeys_from_spec(),
;
// what `{}` writes
pub broadcast axiom fn ax_u32_to_string(v: u32, s: String)
    requires #[trigger] vstd::string::to_string_from_display_ensures::<u32>(&v, s),
    ensures s@ == dec(v as nat),
;
pub broadcast axiom fn ax_u64_to_string(v: u64, s: String)
    requires #[trigger] vstd::string::to_string_from_display_ensures::<u64>(&v, s),
    ensures s@ == dec(v as nat),
;
pub broadcast axiom fn ax_char_to_string(v: char, s: String)
    requires #[trigger] vstd::string::to_string_from_display_ensures::<char>(&v, s),
    ensures s@ == seq![v],
;
pub broadcast group vx_axioms_dim { ax_str_ext, ax_char_from_u8_obeys, ax_char_from_u8, ax_text_of, ax_dec_string, ax_cow_from_str, ax_cow_from_str_obeys, ax_cow_from_string, ax_cow_from_string_obeys, ax_u32_to_string, ax_u64_to_string, ax_char_to_string }
//@ module spec
// ---------------------------------------------------------------- the indexes of an array
pub uninterp spec fn str_of<'a>(s: String) -> &'a str; // String::as_str
pub uninterp spec fn dec_string(i: nat) -> String; // the decimal of a number
pub open spec fn index_cow<'a>(ix: Option<Vec<String>>, i: int) -> Cow<'a, str> { match ix { Some(v) => Cow::Borrowed(str_of(v@[i])), None => Cow::Owned(dec_string(i as nat)) } }
//@ module svd::dimelement
use crate::spec::*;
use crate::svd::*;
use std::borrow::Cow;
use std::ops::RangeInclusive;
use vstd::std_specs::iter::IteratorSpec as _;
impl<'a> Indexes<'a> {
    #[verifier::type_invariant]
    pub closed spec fn inv(self) -> bool { self.i <= self.dim && (*self.dim_index matches Some(v) ==> v@.len() >= self.dim) }
    pub closed spec fn rest(self) -> Seq<Cow<'a, str>> { Seq::new((self.dim - self.i) as nat, |k: int| index_cow(*self.dim_index, self.i + k)) }
}
impl<'a> vstd::std_specs::iter::IteratorSpecImpl for Indexes<'a> {
    closed spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    closed spec fn peek(&self, i: int) -> Option<Self::Item> { None }
    #[verifier::prophetic]
    closed spec fn remaining(&self) -> Seq<Self::Item> { self.rest() }
    #[verifier::prophetic]
    closed spec fn will_return_none(&self) -> bool { true }
    closed spec fn decrease(&self) -> Option<nat> { Some((self.dim - self.i) as nat) }
}
//@ fn svd-rs/src/dimelement.rs <Indexes<'a> as Iterator>::next as-trait -> r
//@ start
    broadcast use crate::ax::vx_axioms_dim;
    proof { use_type_invariant(&*self); }
//@ result
    assert(old(self).i < old(self).dim ==> self.rest() =~= old(self).rest().drop_first());
//@ endfn
//@ fn svd-rs/src/dimelement.rs DimElement::indexes -> r
    requires dim_ok(*self),
    ensures yields(r, self.dim as nat, |i: int, c: Cow<str>| cow_text(c) == index_of(*self, i)),
//@ start
    broadcast use crate::ax::vx_axioms_dim;
//@ endfn
