// Shared: the part of roxmltree the parser uses, as an assumed contract over an abstract tree.
//@ include text.rs
//@ module xml
use vstd::std_specs::iter::IteratorSpec;
// an XML node as the parser sees it
pub ghost struct X {
    pub elem: bool,
    pub name: Seq<char>,               // tag name of an element, "" otherwise
    pub text: Option<Seq<char>>,       // roxmltree's text(): an element's leading text, a text node's own
    pub attrs: Seq<(Seq<char>, Seq<char>)>,
    pub kids: Seq<X>,
}
#[verifier::external_body]
pub struct Node<'a, 'input>(std::marker::PhantomData<(&'a (), &'input ())>);
impl<'a, 'input> Copy for Node<'a, 'input> {}
impl<'a, 'input> Clone for Node<'a, 'input> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct NodeId(u32);
#[verifier::external_body]
pub struct TagName<'a>(std::marker::PhantomData<&'a ()>);
#[verifier::external_body]
pub struct Children<'a>(std::marker::PhantomData<&'a ()>);
#[verifier::external]
impl<'a> Iterator for Children<'a> { type Item = Node<'a, 'a>; fn next(&mut self) -> Option<Node<'a, 'a>> { unimplemented!() } }
pub open spec fn attr(x: X, k: Seq<char>) -> Option<Seq<char>>
{
    attr_in(x.attrs, k)
}
pub open spec fn attr_in(a: Seq<(Seq<char>, Seq<char>)>, k: Seq<char>) -> Option<Seq<char>>
    decreases a.len(),
{
    if a.len() == 0 { None } else if a[0].0 == k { Some(a[0].1) } else { attr_in(a.drop_first(), k) }
}
// is x an element called k
pub open spec fn tagged(x: X, k: Seq<char>) -> bool { x.elem && x.name == k }
// the first child element called k
pub open spec fn child_in(s: Seq<X>, k: Seq<char>) -> Option<X>
    decreases s.len(),
{
    if s.len() == 0 { None } else if tagged(s[0], k) { Some(s[0]) } else { child_in(s.drop_first(), k) }
}
pub open spec fn child(x: X, k: Seq<char>) -> Option<X> { child_in(x.kids, k) }
pub proof fn lemma_child_none(s: Seq<X>, k: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> !tagged(#[trigger] s[i], k),
    ensures child_in(s, k) is None,
    decreases s.len(),
{
    if s.len() > 0 {
        assert(!tagged(s[0], k));
        assert forall|i: int| 0 <= i < s.drop_first().len() implies !tagged(#[trigger] s.drop_first()[i], k) by { assert(!tagged(s[i + 1], k)); }
        lemma_child_none(s.drop_first(), k);
    }
}
pub proof fn lemma_child_at(s: Seq<X>, k: Seq<char>, n: int)
    requires 0 <= n < s.len(), tagged(s[n], k), forall|i: int| 0 <= i < n ==> !tagged(#[trigger] s[i], k),
    ensures child_in(s, k) == Some(s[n]),
    decreases s.len(),
{
    if n > 0 {
        assert(!tagged(s[0], k));
        assert forall|i: int| 0 <= i < n - 1 implies !tagged(#[trigger] s.drop_first()[i], k) by { assert(!tagged(s[i + 1], k)); }
        lemma_child_at(s.drop_first(), k, n - 1);
    }
}
pub broadcast proof fn lemma_child_char(s: Seq<X>, k: Seq<char>)
    ensures
        (#[trigger] child_in(s, k)) is None ==> forall|i: int| 0 <= i < s.len() ==> !tagged(#[trigger] s[i], k),
        child_in(s, k) matches Some(c) ==> exists|n: int| 0 <= n < s.len() && tagged(#[trigger] s[n], k) && c == s[n]
            && forall|i: int| 0 <= i < n ==> !tagged(#[trigger] s[i], k),
{
    if exists|n: int| 0 <= n < s.len() && tagged(#[trigger] s[n], k) {
        let n = first_tagged(s, k, 0);
        lemma_first_tagged(s, k, 0);
        lemma_child_at(s, k, n);
    } else {
        lemma_child_none(s, k);
    }
}
pub open spec fn first_tagged(s: Seq<X>, k: Seq<char>, a: int) -> int
    decreases s.len() - a,
{ if a < 0 || a >= s.len() || tagged(s[a], k) { a } else { first_tagged(s, k, a + 1) } }
pub proof fn lemma_first_tagged(s: Seq<X>, k: Seq<char>, a: int)
    requires 0 <= a <= s.len(), exists|n: int| a <= n < s.len() && tagged(#[trigger] s[n], k),
    ensures a <= first_tagged(s, k, a) < s.len(), tagged(s[first_tagged(s, k, a)], k), forall|i: int| a <= i < first_tagged(s, k, a) ==> !tagged(#[trigger] s[i], k),
    decreases s.len() - a,
{ if !tagged(s[a], k) { lemma_first_tagged(s, k, a + 1); } }
pub open spec fn opt_str(s: Option<&str>) -> Option<Seq<char>> { match s { Some(t) => Some(t@), None => None } }
// the namespace a prefix stands for at an element, and attributes of a namespace
pub uninterp spec fn ns_uri(x: X, prefix: Option<Seq<char>>) -> Option<Seq<char>>;
pub uninterp spec fn attr_ns(x: X, uri: Seq<char>, k: Seq<char>) -> Option<Seq<char>>;
// what the nodes of an iterator stand for
pub open spec fn xs<'a>(s: Seq<Node<'a, 'a>>) -> Seq<X> { s.map_values(|n: Node<'a, 'a>| n.x()) }
impl<'a, 'input> Node<'a, 'input> {
    pub uninterp spec fn x(&self) -> X;
    #[verifier::external_body]
    pub fn children(&self) -> (r: Children<'a>)
        ensures
            r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
            r.remaining().len() == self.x().kids.len(),
            xs(r.remaining()) == self.x().kids,
            forall|i: int| #![trigger r.remaining()[i]] #![trigger self.x().kids[i]] 0 <= i < r.remaining().len() ==> r.remaining()[i].x() == self.x().kids[i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn has_tag_name(&self, k: &str) -> (r: bool)
        ensures r == tagged(self.x(), k@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn tag_name(&self) -> (r: TagName<'a>)
        ensures r.spec_name() == self.x().name,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_element(&self) -> (r: bool)
        ensures r == self.x().elem,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn text(&self) -> (r: Option<&'a str>)
        ensures
            r is Some <==> self.x().text is Some,
            r matches Some(t) ==> t@ == self.x().text->0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn attribute(&self, k: &str) -> (r: Option<&'a str>)
        ensures
            r is Some <==> attr(self.x(), k@) is Some,
            r matches Some(t) ==> t@ == attr(self.x(), k@)->0,
    { unimplemented!() }
    // the elements after this one in its parent
    pub uninterp spec fn later(&self) -> Seq<X>;
    #[verifier::external_body]
    pub fn first_element_child(&self) -> (r: Option<Node<'a, 'input>>)
        ensures
            r is None <==> self.x().kids.filter(|n: X| n.elem).len() == 0,
            r matches Some(n) ==> n.x() == self.x().kids.filter(|n: X| n.elem)[0] && n.later() == self.x().kids.filter(|n: X| n.elem).skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_sibling_element(&self) -> (r: Option<Node<'a, 'input>>)
        ensures
            r is None <==> self.later().len() == 0,
            r matches Some(n) ==> n.x() == self.later()[0] && n.later() == self.later().skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lookup_namespace_uri(&self, prefix: Option<&str>) -> (r: Option<&'a str>)
        ensures
            r is Some <==> ns_uri(self.x(), opt_str(prefix)) is Some,
            r matches Some(t) ==> t@ == ns_uri(self.x(), opt_str(prefix))->0,
    { unimplemented!() }
    // `attribute((uri, k))`
    #[verifier::external_body]
    pub fn attribute_ns(&self, n: (&str, &str)) -> (r: Option<&'a str>)
        ensures
            r is Some <==> attr_ns(self.x(), n.0@, n.1@) is Some,
            r matches Some(t) ==> t@ == attr_ns(self.x(), n.0@, n.1@)->0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn id(&self) -> (r: NodeId)
    { unimplemented!() }
}
impl<'a> TagName<'a> {
    pub uninterp spec fn spec_name(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn name(&self) -> (r: &'a str)
        ensures r@ == self.spec_name(),
    { unimplemented!() }
}
