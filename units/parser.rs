// Shared: the parser's traits, errors and text access.
//@ include common.rs
//@ include xml.rs
//@ item svd-parser/src/lib.rs SVDError
//@ item svd-parser/src/lib.rs SVDErrorAt noteq
//@ item svd-parser/src/lib.rs Config
//@ item svd-parser/src/bitrange.rs InvalidBitRange
//@ item svd-parser/src/types.rs BoolParse
//@ module parser
pub use crate::xml::*;
pub use self::elementext::*;
pub use self::types::BoolParse;
use crate::svd;
// says(x, c, r): r is what the element x has to be read as, None if it has to be reported as an error
pub trait Parse: Sized {
    type Object;
    type Error;
    type Config;
    spec fn says(x: X, c: Self::Config, r: Option<Self::Object>) -> bool;
    fn parse(elem: &Node, config: &Self::Config) -> (r: Result<Self::Object, Self::Error>)
        ensures
            r matches Ok(v) ==> Self::says(elem.x(), *config, Some(v)),
            r is Err ==> Self::says(elem.x(), *config, None);
}
// elements that stand for exactly one object: reads(x, c), None if it has to be reported as an error
pub trait Reads: Sized {
    type Object;
    type Config;
    spec fn reads(x: X, c: Self::Config) -> Option<Self::Object>;
}
//@ module parser::elementext
use vstd::std_specs::iter::IteratorSpec;
// trimmed text of an element
pub open spec fn el_text(x: X) -> Option<Seq<char>> { match x.text { Some(t) => Some(trimmed(t)), None => None } }
// trimmed text of a child element; an absent or empty element has none
pub open spec fn text_of(x: X, k: Seq<char>) -> Option<Seq<char>> { match child(x, k) { Some(c) => el_text(c), None => None } }
pub open spec fn child_reads<T: Reads>(x: X, k: Seq<char>, c: T::Config) -> Option<T::Object> {
    match child(x, k) { Some(n) => T::reads(n, c), None => None }
}
// ElementExt is implemented for Node alone: its methods are taken as methods of Node (a trait would make
// the parsers and the methods that call them one recursive definition); the generic text arguments
// `K: AsRef<str>` at `&str`
//@ fn svd-parser/src/lib.rs SVDError::at -> r
    ensures r.error == self,
//@ endfn
//@ fn svd-parser/src/elementext.rs <Node<'_, '_> as ElementExt>::get_child -> r
    ensures
        r is Some <==> child(self.x(), k@) is Some,
        r matches Some(c) ==> child(self.x(), k@) == Some(c.x()),
//@ sigsubst <K> =>>
//@ sigsubst k: K =>> k: &str
//@ sigsubst where K: AsRef<str>, =>>
//@ subst k.as_ref() =>> k
//@ closure 0
|c: &Node| -> (b: bool) ensures b == tagged(c.x(), k@)
//@ start
broadcast use crate::xml::lemma_child_char;
//@ endfn
//@ fn svd-parser/src/elementext.rs <Node<'_, '_> as ElementExt>::get_child_text_opt -> r
    ensures
        r is Ok,
        r matches Ok(t) ==> (t is Some <==> text_of(self.x(), k@) is Some) && (t is Some ==> t->0@ == text_of(self.x(), k@)->0),
//@ sigsubst <K> =>>
//@ sigsubst k: K =>> k: &str
//@ sigsubst where K: AsRef<str>, =>>
//@ endfn
//@ fn svd-parser/src/elementext.rs <Node<'_, '_> as ElementExt>::get_child_text -> r
    ensures
        r is Ok <==> text_of(self.x(), k@) is Some,
        r matches Ok(t) ==> t@ == text_of(self.x(), k@)->0,
//@ sigsubst <K> =>>
//@ sigsubst k: K =>> k: &str
//@ sigsubst where K: AsRef<str>, =>>
//@ subst k.as_ref() =>> k
//@ endfn
//@ fn svd-parser/src/elementext.rs <Node<'_, '_> as ElementExt>::get_text -> r
    ensures
        r is Ok <==> el_text(self.x()) is Some,
        r matches Ok(t) ==> t@ == el_text(self.x())->0,
        r matches Err(e) ==> e.error is EmptyTag,
//@ endfn
//@ fn svd-parser/src/elementext.rs <Node<'_, '_> as ElementExt>::get_child_elem -> r
    ensures
        r is Ok <==> child(self.x(), n@) is Some,
        r matches Ok(c) ==> child(self.x(), n@) == Some(c.x()),
//@ endfn
//@ include number.rs
//@ module spec
use crate::parser::*;
