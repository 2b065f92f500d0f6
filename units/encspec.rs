// Shared: the part of xmltree the encoder uses (assumed), over an abstract tree.
//@ include convert.rs
//@ module spec
pub ghost struct XN { pub name: Seq<char>, pub attrs: Map<Seq<char>, Seq<char>>, pub kids: Seq<XK> }
pub ghost enum XK { El(XN), Text(Seq<char>) }
//@ module encoder::config
pub enum Boundary { Underscore, Hyphen, Space, LowerUpper, UpperLower, Acronym, LowerDigit, UpperDigit, DigitLower, DigitUpper }
pub enum Case { Upper, Lower, Title, Toggle, Camel, Pascal, UpperCamel, Snake, UpperSnake, ScreamingSnake, Kebab, Cobol, UpperKebab, Train, Flat, UpperFlat, Alternating }
pub struct StateConverter<'a> { pub text: &'a str, pub boundaries: Vec<Boundary> }
pub trait Casing {
    fn with_boundaries<'a>(&'a self, b: &[Boundary]) -> StateConverter<'a>;
}
impl Casing for str {
    #[verifier::external_body]
    fn with_boundaries<'a>(&'a self, b: &[Boundary]) -> (r: StateConverter<'a>)
        ensures r.text@ == self@, r.boundaries@ == b@,
    { unimplemented!() }
}
impl<'a> StateConverter<'a> {
    #[verifier::external_body]
    pub fn to_case(self, c: Case) -> (r: String)
        ensures r@ == to_case_spec(self.text@, self.boundaries@, c),
    { unimplemented!() }
}
//@ fn svd-encoder/src/config.rs change_case -> r
    ensures r@ == cased(s@, case),
//@ start
    broadcast use {crate::ax::vx_axioms_disp, crate::ax::vx_axioms_text, crate::ax::vx_axioms_str};
//@ endfn
//@ module encoder
#[verifier::external_body]
pub struct AttrMap(std::marker::PhantomData<()>);
impl View for AttrMap { type V = Map<Seq<char>, Seq<char>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>; }
impl AttrMap {
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: String) -> (r: Option<String>)
        ensures final(self)@ == old(self)@.insert(k@, v@),
    { unimplemented!() }
}
pub struct Element { pub name: String, pub attributes: AttrMap, pub children: Vec<XMLNode> }
pub enum XMLNode { Element(Element), Text(String) }
impl Clone for XMLNode { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Element {
    #[verifier::external_body]
    pub fn new(name: &str) -> (r: Element)
        ensures r.name@ == name@, r.attributes@ == Map::<Seq<char>, Seq<char>>::empty(), r.children@ == Seq::<XMLNode>::empty(),
    { unimplemented!() }
}
//@ module spec
use crate::encoder::{Element, XMLNode};
use crate::encoder::config::*;
pub open spec fn el(e: Element) -> XN
    decreases e,
{ XN { name: e.name@, attrs: e.attributes@, kids: Seq::new(e.children@.len(), |i: int| if 0 <= i < e.children@.len() { node(e.children@[i]) } else { arbitrary() }) } }
pub open spec fn node(n: XMLNode) -> XK
    decreases n,
{ match n { XMLNode::Element(e) => XK::El(el(e)), XMLNode::Text(t) => XK::Text(t@) } }
pub open spec fn kids(s: Seq<XMLNode>) -> Seq<XK> { s.map_values(|n: XMLNode| node(n)) }
pub broadcast proof fn lemma_el_kids(e: Element)
    ensures (#[trigger] el(e)).kids == kids(e.children@),
{ assert(el(e).kids =~= kids(e.children@)); }
pub broadcast proof fn lemma_node(e: Element)
    ensures #[trigger] node(XMLNode::Element(e)) == XK::El(el(e)),
{}
pub broadcast proof fn lemma_kids_push(s: Seq<XMLNode>, n: XMLNode)
    ensures #[trigger] kids(s.push(n)) == kids(s).push(node(n)),
{ assert(kids(s.push(n)) =~= kids(s).push(node(n))); }
pub broadcast proof fn lemma_kids_add(s: Seq<XMLNode>, t: Seq<XMLNode>)
    ensures #[trigger] kids(s + t) == kids(s) + kids(t),
{ assert(kids(s + t) =~= kids(s) + kids(t)); }
pub broadcast proof fn lemma_kids_empty()
    ensures #[trigger] kids(Seq::<XMLNode>::empty()) == Seq::<XK>::empty(),
{ assert(kids(Seq::<XMLNode>::empty()) =~= Seq::<XK>::empty()); }
pub broadcast group vx_kids { lemma_el_kids, lemma_node, lemma_kids_push, lemma_kids_add, lemma_kids_empty }
// ---------------------------------------------------------------- building blocks of the expected tree
pub open spec fn no_attrs() -> Map<Seq<char>, Seq<char>> { Map::empty() }
pub open spec fn xn(name: &str, kids: Seq<XK>) -> XN { XN { name: name@, attrs: no_attrs(), kids } }
// <name>text</name>
pub open spec fn leaf_n(name: &str, text: Seq<char>) -> XN { xn(name, seq![XK::Text(text)]) }
pub open spec fn leaf(name: &str, text: Seq<char>) -> XK { XK::El(leaf_n(name, text)) }
// the same after other children, if there is a text
pub open spec fn with(k: Seq<XK>, name: &str, text: Option<Seq<char>>) -> Seq<XK> { match text { Some(t) => k.push(leaf(name, t)), None => k } }
pub open spec fn with_el(k: Seq<XK>, e: Option<XN>) -> Seq<XK> { match e { Some(e) => k.push(XK::El(e)), None => k } }
pub open spec fn txt(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
pub open spec fn btxt(s: Option<bool>) -> Option<Seq<char>> { match s { Some(b) => Some(b.disp()), None => None } }
impl Disp for bool { open spec fn disp(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } } }
//@ module ax
pub broadcast axiom fn ax_str_to_string(v: &str, s: String)
    requires #[trigger] vstd::string::to_string_from_display_ensures::<str>(v, s),
    ensures s@ == v@,
;
pub broadcast axiom fn ax_string_to_string(v: String, s: String)
    requires #[trigger] vstd::string::to_string_from_display_ensures::<String>(&v, s),
    ensures s@ == v@,
;
pub broadcast axiom fn ax_bool_to_string(v: bool, s: String)
    requires #[trigger] vstd::string::to_string_from_display_ensures::<bool>(&v, s),
    ensures s@ == v.disp(),
;
pub broadcast group vx_axioms_disp { ax_bool_to_string, ax_u32_to_string, ax_u64_to_string, ax_str_to_string, ax_string_to_string, ax_string_from_str, ax_string_from_str_obeys }
//@ module spec
pub open spec fn dtxt(n: Option<u32>) -> Option<Seq<char>> { match n { Some(n) => Some(dec(n as nat)), None => None } }
pub open spec fn ntxt32(n: Option<u32>, f: NumberFormat) -> Option<Seq<char>> { match n { Some(n) => Some(number_text(n as nat, f)), None => None } }
pub open spec fn ntxt(n: Option<u64>, f: NumberFormat) -> Option<Seq<char>> { match n { Some(n) => Some(number_text(n as nat, f)), None => None } }
// a name written in the configured case
pub open spec fn cased(s: Seq<char>, f: Option<IdentifierFormat>) -> Seq<char> { match f { None => s, Some(f) => recased(s, f) } }
pub open spec fn ctxt(s: Option<String>, f: Option<IdentifierFormat>) -> Option<Seq<char>> { match s { Some(s) => Some(cased(s@, f)), None => None } }
// convert_case, with the encoder's word boundaries; `%s` stays as it is
pub open spec fn recased(s: Seq<char>, f: IdentifierFormat) -> Seq<char> {
    replace_all(to_case_spec(s, seq![Boundary::Underscore, Boundary::Hyphen, Boundary::Space, Boundary::LowerUpper, Boundary::UpperLower, Boundary::Acronym],
        match f { IdentifierFormat::Camel => Case::Camel, IdentifierFormat::Pascal => Case::Pascal, IdentifierFormat::Snake => Case::Snake, IdentifierFormat::Constant => Case::UpperSnake }), "%S"@, "%s"@)
}
pub uninterp spec fn to_case_spec(s: Seq<char>, b: Seq<Boundary>, c: Case) -> Seq<char>;
pub open spec fn merged(a: XN, b: XN) -> XN { XN { name: a.name, attrs: a.attrs.union_prefer_right(b.attrs), kids: a.kids + b.kids } }
pub open spec fn derived_attr(d: Option<String>, f: Option<IdentifierFormat>) -> Map<Seq<char>, Seq<char>> {
    match d { Some(d) => no_attrs().insert("derivedFrom"@, cased(d@, f)), None => no_attrs() }
}
// the trees of a list of elements
pub open spec fn els<T>(s: Seq<T>, f: spec_fn(T) -> XN) -> Seq<XK> { Seq::new(s.len(), |i: int| XK::El(f(s[i]))) }
pub broadcast proof fn lemma_kids_els<T>(a: Seq<XMLNode>, s: Seq<T>, f: spec_fn(T) -> XN)
    requires collected(a), a.len() == s.len(), forall|i: int| 0 <= i < a.len() ==> node(#[trigger] a[i]) == XK::El(f(s[i])),
    ensures #![trigger collected(a), els(s, f)] kids(a) == els(s, f),
{ assert(kids(a) =~= els(s, f)); }
