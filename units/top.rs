// parse_with_config: the byte-order mark, the device element, and the two expansions, in this order.
// The device parser and the expansions are taken as relations here: what they relate is proved in
// parse.rs, expand_properties.rs and expanddev.rs.
//@ include bom.rs
//@ include parser.rs
//@ module xml
// what the document library reads a text as: its root node
pub uninterp spec fn doc(s: Seq<char>) -> Option<X>;
#[verifier::external_body]
pub struct Document<'input>(std::marker::PhantomData<&'input ()>);
#[verifier::external_body]
pub struct XmlError(());
#[verifier::external_body]
pub struct TextPos(());
impl<'input> Document<'input> {
    pub uninterp spec fn root_x(&self) -> X;
    #[verifier::external_body]
    pub fn parse(text: &'input str) -> (r: Result<Document<'input>, XmlError>)
        ensures
            r is Ok <==> doc(text@) is Some,
            r matches Ok(d) ==> doc(text@) == Some(d.root_x()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn root<'a>(&'a self) -> (r: Node<'a, 'input>)
        ensures r.x() == self.root_x(),
    { unimplemented!() }
    // the identities in the parser's errors are those of nodes of the same document
    #[verifier::external_body]
    pub fn get_node<'a>(&'a self, id: NodeId) -> (r: Option<Node<'a, 'input>>)
        ensures r is Some,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn text_pos_at(&self, pos: usize) -> TextPos
    { unimplemented!() }
}
impl PartialEq for NodeId { #[verifier::external_body] fn eq(&self, o: &NodeId) -> bool { unimplemented!() } }
impl NodeId {
    #[verifier::external_body]
    pub fn new(id: u32) -> NodeId { unimplemented!() }
}
impl<'a, 'input> Node<'a, 'input> {
    #[verifier::external_body]
    pub fn range(&self) -> std::ops::Range<usize> { unimplemented!() }
    #[verifier::external_body]
    pub fn ancestors(&self) -> (r: Children<'a>)
        ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
    { unimplemented!() }
}
//@ module anyhow
#[verifier::external_body]
pub struct Error(());
pub type Result<T> = std::result::Result<T, Error>;
impl From<crate::parser::SVDErrorAt> for Error { #[verifier::external_body] fn from(e: crate::parser::SVDErrorAt) -> Error { unimplemented!() } }
pub trait Context<T> {
    fn with_context<C, F: FnOnce() -> C>(self, f: F) -> std::result::Result<T, Error>;
}
impl<T> Context<T> for std::result::Result<T, Error> {
    // a context is put around an error; a value stays
    #[verifier::external_body]
    fn with_context<C, F: FnOnce() -> C>(self, f: F) -> (r: std::result::Result<T, Error>)
        ensures r is Ok <==> self is Ok, r matches Ok(v) ==> self matches Ok(w) && v == w,
    { unimplemented!() }
}
impl From<crate::xml::XmlError> for Error { #[verifier::external_body] fn from(e: crate::xml::XmlError) -> Error { unimplemented!() } }
//@ module parser
pub uninterp spec fn dev_parsed(x: X, c: Config, d: svd::Device) -> bool;
pub uninterp spec fn dev_refused(x: X, c: Config) -> bool;
pub uninterp spec fn props_set(a: svd::Device, b: svd::Device) -> bool;
pub uninterp spec fn dev_expanded(a: svd::Device, b: svd::Device) -> bool;
pub uninterp spec fn dev_unexpandable(a: svd::Device) -> bool;
// what a text is parsed as
pub open spec fn dev_stated(c: Config, x: X, d: svd::Device) -> bool {
    if c.expand_properties { exists|b: svd::Device| #[trigger] dev_parsed(x, c, b) && props_set(b, d) } else { dev_parsed(x, c, d) }
}
pub open spec fn dev_read(c: Config, x: X, d: svd::Device) -> bool {
    if c.expand { exists|b: svd::Device| dev_stated(c, x, b) && #[trigger] dev_expanded(b, d) } else { dev_stated(c, x, d) }
}
pub open spec fn device_el(s: Seq<char>) -> Option<X> { match doc(without_bom(s)) { Some(root) => child(root, "device"@), None => None } }
use crate::anyhow;
use crate::anyhow::Context;
use crate::svd::Device;
impl crate::spec::Disp for TextPos { uninterp spec fn disp(&self) -> Seq<char>; }
impl Parse for Device {
    type Object = Device;
    type Error = SVDErrorAt;
    type Config = Config;
    open spec fn says(x: X, c: Config, r: Option<Device>) -> bool { match r { Some(d) => dev_parsed(x, c, d), None => dev_refused(x, c) } }
    #[verifier::external_body]
    fn parse(elem: &Node, config: &Config) -> Result<Device, SVDErrorAt> { unimplemented!() }
}
//@ module parser::expand
#[verifier::external_body]
pub fn expand_properties(device: &mut Device)
    ensures props_set(*old(device), *final(device)),
{ unimplemented!() }
#[verifier::external_body]
pub fn expand(indevice: &Device) -> (r: anyhow::Result<Device>)
    ensures
        r matches Ok(d) ==> dev_expanded(*indevice, d),
        r is Err ==> dev_unexpandable(*indevice),
{ unimplemented!() }
//@ module parser
//@ fn svd-parser/src/lib.rs parse_with_config -> r
    ensures
        r matches Ok(d) ==> device_el(xml@) is Some && dev_read(*config, device_el(xml@)->0, d),
        r is Err ==> match device_el(xml@) {
            None => true,
            Some(x) => dev_refused(x, *config) || config.expand && exists|b: svd::Device| dev_stated(*config, x, b) && #[trigger] dev_unexpandable(b),
        },
//@ start
    broadcast use {crate::ax::vx_axioms_text, crate::ax::vx_axioms_str};
//@ loop 0 desugar iter it
    invariant it.obeys_prophetic_iter_laws(), it.decrease() is Some, res is Err,
    decreases it_dec(&it),
//@ endfn
//@ fn svd-parser/src/lib.rs parse -> r
    ensures
        r matches Ok(d) ==> exists|c: Config| #[trigger] Config::def_ok(c) && device_el(xml@) is Some && dev_read(c, device_el(xml@)->0, d),
//@ endfn
