// C23: element paths.
//@ include text.rs
//@ include iter_ax.rs
//@ include convert.rs
//@ module spec
use crate::parser::expand::*;
use vstd::std_specs::convert::IntoSpec;
// components joined with dots
pub open spec fn joined(v: Seq<Seq<char>>) -> Seq<char>
    decreases v.len(),
{ if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { joined(v.drop_last()) + seq!['.'] + v.last() } }
pub open spec fn dot_free(v: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < v.len() ==> no_char(#[trigger] v[i], '.') }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn strs(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn block_parts(p: BlockPath) -> Seq<Seq<char>> { seq![p.peripheral@] + texts(p.path@) }
pub open spec fn reg_parts(p: RegisterPath) -> Seq<Seq<char>> { block_parts(p.block).push(p.name@) }
pub open spec fn field_parts(p: FieldPath) -> Seq<Seq<char>> { reg_parts(p.register).push(p.name@) }
pub open spec fn enum_parts(p: EnumPath) -> Seq<Seq<char>> { field_parts(p.field).push(p.name@) }
// the scope in front of the last component
pub open spec fn scope_is(b: Option<BlockPath>, v: Seq<Seq<char>>) -> bool {
    match b { None => v.len() == 0, Some(p) => block_parts(p) == v }
}
pub open spec fn reg_scope_is(b: Option<RegisterPath>, v: Seq<Seq<char>>) -> bool {
    match b { None => v.len() == 0, Some(p) => reg_parts(p) == v }
}
pub proof fn lemma_joined_first(a: Seq<char>, v: Seq<Seq<char>>)
    requires v.len() > 0,
    ensures joined(seq![a] + v) == a + seq!['.'] + joined(v),
    decreases v.len(),
{
    let w = seq![a] + v;
    assert(w.drop_last() =~= seq![a] + v.drop_last());
    assert(w.last() == v.last());
    if v.len() == 1 {
        assert(w.drop_last() =~= seq![a]);
        assert(joined(w) == joined(seq![a]) + seq!['.'] + v[0]);
        assert(joined(seq![a]) == a);
    } else {
        lemma_joined_first(a, v.drop_last());
        assert(v.drop_last().len() > 0);
        assert(w.len() > 1);
        assert(joined(w) =~= a + seq!['.'] + joined(v));
    }
}
// a text is its components joined with dots
pub proof fn lemma_split_joined(s: Seq<char>)
    ensures joined(split_char(s, '.')) == s, dot_free(split_char(s, '.')),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_first();
        let r = split_char(t, '.');
        lemma_split_joined(t);
        lemma_split_len(t, '.');
        if s[0] == '.' {
            lemma_joined_first(Seq::empty(), r);
            assert(Seq::<char>::empty() + seq!['.'] + t =~= s);
        } else {
            let v = seq![seq![s[0]] + r[0]] + r.drop_first();
            assert forall|i: int| 0 <= i < v.len() implies no_char(#[trigger] v[i], '.') by {
                assert(no_char(r[i], '.'));
                if i == 0 { assert forall|j: int| 0 <= j < v[0].len() implies #[trigger] v[0][j] != '.' by { if j > 0 { assert(v[0][j] == r[0][j - 1]); } } }
            }
            if r.len() == 1 {
                assert(r.drop_first() =~= Seq::empty());
                assert(v =~= seq![seq![s[0]] + r[0]]);
                assert(seq![s[0]] + t =~= s);
            } else {
                let q = r.drop_first();
                lemma_joined_first(r[0], q);
                lemma_joined_first(seq![s[0]] + r[0], q);
                assert(seq![r[0]] + q =~= r);
                assert(seq![s[0]] + r[0] + seq!['.'] + joined(q) =~= seq![s[0]] + t);
                assert(seq![s[0]] + t =~= s);
            }
        }
    }
}
// the components of joined dot-free components are those components
pub proof fn lemma_joined_split(v: Seq<Seq<char>>)
    requires v.len() > 0, dot_free(v),
    ensures split_char(joined(v), '.') == v,
    decreases v.len(),
{
    let q = v.drop_first();
    assert(no_char(v[0], '.'));
    if v.len() == 1 {
        lemma_split_none(v[0], '.');
        assert(v =~= seq![v[0]]);
    } else {
        assert forall|i: int| 0 <= i < q.len() implies no_char(#[trigger] q[i], '.') by { assert(no_char(v[i + 1], '.')); }
        lemma_joined_split(q);
        lemma_joined_first(v[0], q);
        assert(seq![v[0]] + q =~= v);
        lemma_split_first(v[0], '.', joined(q));
    }
}
// cutting the last component off
pub proof fn lemma_split_last(a: Seq<char>, b: Seq<char>)
    requires no_char(b, '.'),
    ensures split_char(a + seq!['.'] + b, '.') == split_char(a, '.').push(b),
{
    let v = split_char(a, '.').push(b);
    lemma_split_joined(a);
    lemma_split_len(a, '.');
    assert(v.drop_last() =~= split_char(a, '.'));
    assert(joined(v) == a + seq!['.'] + b);
    assert forall|i: int| 0 <= i < v.len() implies no_char(#[trigger] v[i], '.') by { if i < v.len() - 1 { assert(no_char(split_char(a, '.')[i], '.')); } }
    lemma_joined_split(v);
}
pub proof fn lemma_eq_parts(p: Seq<Seq<char>>, name: Seq<char>, s: Seq<char>)
    requires p.len() > 0,
    ensures
        forall|a: Seq<char>, m: Seq<char>, b: Seq<char>| s == #[trigger] (a + m + b) && m.len() == 1 && m[0] == '.' && split_char(b, '.') == seq![b]
            ==> ((split_char(s, '.') == p.push(name)) == (split_char(a, '.') == p && b == name)),
        split_char(s, '.') == seq![s] ==> split_char(s, '.') != p.push(name),
        dot_free(p.push(name)) ==> (split_char(s, '.') == p.push(name)) == (s == joined(p.push(name))),
{
    let q = p.push(name);
    assert forall|a: Seq<char>, m: Seq<char>, b: Seq<char>| s == #[trigger] (a + m + b) && m.len() == 1 && m[0] == '.' && split_char(b, '.') == seq![b]
        implies ((split_char(s, '.') == q) == (split_char(a, '.') == p && b == name)) by {
        assert(m =~= seq!['.']);
        lemma_split_joined(b);
        assert(no_char(seq![b][0], '.'));
        lemma_split_last(a, b);
        assert(split_char(s, '.').drop_last() =~= split_char(a, '.'));
        assert(split_char(s, '.').last() == b);
        assert(q.drop_last() =~= p);
        assert(q.last() == name);
    }
    assert(q.len() >= 2);
    assert(seq![s].len() == 1);
    lemma_split_joined(s);
    if dot_free(q) { lemma_joined_split(q); }
}
// what is printed so far
pub uninterp spec fn printed(f: std::fmt::Formatter<'_>) -> Seq<char>;
pub assume_specification<'a, 'b>[ std::fmt::Formatter::<'a>::write_str ](f: &'b mut std::fmt::Formatter<'a>, s: &str) -> (r: std::fmt::Result)
    ensures r is Ok ==> printed(*final(f)) == printed(*old(f)) + s@,
;
// what a conversion to String gives
pub open spec fn into_text<T: Into<String>>(v: T) -> Option<Seq<char>> {
    if <T as IntoSpec<String>>::obeys_into_spec() { Some(<T as IntoSpec<String>>::into_spec(v)@) } else { None }
}
//@ module ax
// comparing texts compares their characters
pub broadcast axiom fn ax_eq_string_ref<'a>(a: &String, b: &&'a str)
    ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&'a str>>::eq_spec(a, b) == (a@ == (*b)@),
;
pub broadcast axiom fn ax_eq_string_ref_obeys<'a>()
    ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&'a str>>::obeys_eq_spec(),
;
pub broadcast axiom fn ax_eq_string_str(a: &String, b: &str)
    ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::eq_spec(a, b) == (a@ == b@),
;
pub broadcast axiom fn ax_eq_string_str_obeys()
    ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec(),
;
pub broadcast axiom fn ax_eq_str_string(a: &str, b: &String)
    ensures #[trigger] <str as vstd::std_specs::cmp::PartialEqSpec<String>>::eq_spec(a, b) == (a@ == b@),
;
pub broadcast axiom fn ax_eq_str_string_obeys()
    ensures #[trigger] <str as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec(),
;
// no object is larger than isize::MAX bytes
pub broadcast axiom fn ax_strings_len(v: Vec<String>)
    ensures #[trigger] v@.len() < isize::MAX,
;
pub broadcast group vx_axioms_paths { ax_strings_len, ax_eq_string_ref, ax_eq_string_ref_obeys, ax_eq_string_str, ax_eq_string_str_obeys, ax_eq_str_string, ax_eq_str_string_obeys }
//@ module spec
//@ item svd-parser/src/expand.rs BlockPath eq,hash
//@ item svd-parser/src/expand.rs RegisterPath eq,hash
//@ item svd-parser/src/expand.rs FieldPath eq,hash
//@ item svd-parser/src/expand.rs EnumPath eq,hash
//@ module parser::expand
use std::fmt;
use crate::spec::*;
use vstd::std_specs::iter::IteratorSpec as _;
impl vstd::std_specs::fmt::DisplaySpecImpl for BlockPath {
    open spec fn fmt_req(&self, f: &std::fmt::Formatter<'_>) -> bool { true }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<str> for BlockPath {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &str) -> bool { split_char(other@, '.') == block_parts(*self) }
}
impl vstd::std_specs::fmt::DisplaySpecImpl for RegisterPath {
    open spec fn fmt_req(&self, f: &std::fmt::Formatter<'_>) -> bool { true }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<str> for RegisterPath {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &str) -> bool { split_char(other@, '.') == reg_parts(*self) }
}
impl vstd::std_specs::fmt::DisplaySpecImpl for FieldPath {
    open spec fn fmt_req(&self, f: &std::fmt::Formatter<'_>) -> bool { true }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<str> for FieldPath {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &str) -> bool { split_char(other@, '.') == field_parts(*self) }
}
impl vstd::std_specs::fmt::DisplaySpecImpl for EnumPath {
    open spec fn fmt_req(&self, f: &std::fmt::Formatter<'_>) -> bool { true }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<str> for EnumPath {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &str) -> bool { split_char(other@, '.') == enum_parts(*self) }
}
//@ fn svd-parser/src/expand.rs BlockPath::new -> r
    ensures into_text(p) matches Some(t) ==> block_parts(r) == seq![t] && r.peripheral@ == t && r.path@.len() == 0,
//@ result
    assert(texts(vx_ret.path@) =~= Seq::empty());
//@ endfn
//@ fn svd-parser/src/expand.rs BlockPath::parse_vec -> r
    requires v@.len() > 0,
    ensures scope_is(r.0, strs(v@).drop_last()), r.1@ == v@.last()@,
//@ start
    broadcast use {crate::ax::vx_axioms_device, crate::ax::vx_axioms_paths};
    let ghost v0 = v@;
//@ before let block
    assert(strs(v0).drop_last() =~= strs(v@));
//@ result
    proof {
        if vx_ret.0 is Some { let b = vx_ret.0->0; assert(b.path@.len() == v0.len() - 2); assert(b.peripheral@ == v0[0]@); assert(block_parts(b) =~= strs(v0).drop_last()); }
    }
//@ endfn
//@ fn svd-parser/src/expand.rs BlockPath::parse_str -> r
    ensures
        scope_is(r.0, split_char(s@, '.').drop_last()), r.1@ == split_char(s@, '.').last(),
//@ start
    proof { lemma_split_len(s@, '.'); lemma_split_joined(s@); assert(forall|w: Seq<&str>| w.len() == split_char(s@, '.').len() && (forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i])@ == split_char(s@, '.')[i]) ==> #[trigger] strs(w) =~= split_char(s@, '.')); }
//@ endfn
//@ fn svd-parser/src/expand.rs <BlockPath as PartialEq<str>>::eq as-trait -> r
    ensures dot_free(block_parts(*self)) ==> r == (other@ == joined(block_parts(*self))),
//@ start
    broadcast use {crate::ax::vx_axioms_device, crate::ax::vx_axioms_paths, crate::spec::lemma_utf8_inj_b, crate::ax::vx_axioms_text, crate::ax::vx_axioms_str};
    let ghost ps = block_parts(*self);
    let ghost sp = split_char(other@, '.');
    proof {
        lemma_split_joined(other@);
        lemma_split_len(other@, '.');
        if dot_free(ps) { lemma_joined_split(ps); }
    }
//@ beforeloop 0
    let ghost full = it.remaining();
    let ghost wn = it.will_return_none();
    proof { broadcast use crate::ax::ax_zip_ends; assert(wn ==> full.len() == self.path@.len()); }
//@ loop 0 desugar iter it
    invariant_except_break it_on(&it, full), wn == it.will_return_none(), forall|i: int| 0 <= i < it_pos(&it, full) ==> (#[trigger] self.path@[i])@ == sp[i + 1],
    invariant
        sp == split_char(other@, '.'), ps == block_parts(*self), sp.len() == ps.len(),
        dot_free(ps) ==> split_char(joined(ps), '.') == ps, joined(sp) == other@,
        full.len() <= self.path@.len(), wn ==> full.len() == self.path@.len(),
        forall|i: int| 0 <= i < full.len() ==> (#[trigger] full[i]).0@ == sp[i + 1] && *full[i].1 == self.path@[i],
    ensures wn, forall|i: int| 0 <= i < full.len() ==> (#[trigger] self.path@[i])@ == sp[i + 1],
    decreases it_dec(&it),
//@ loopstart 0
    broadcast use {crate::ax::vx_axioms_device, crate::ax::vx_axioms_paths, crate::spec::lemma_utf8_inj_b, crate::ax::vx_axioms_text, crate::ax::vx_axioms_str};
//@ afterloop 0
    assert(sp =~= ps);
//@ endfn
//@ fn svd-parser/src/expand.rs <BlockPath as fmt::Display>::fmt as-trait -> r
    ensures r is Ok ==> printed(*final(f)) == printed(*old(f)) + joined(block_parts(*self)),
//@ beforeloop 0
    let ghost full = it.remaining();
    let ghost p0 = printed(*old(f));
    let ghost ps = texts(self.path@);
    let ghost head = seq![self.peripheral@];
    proof { assert(head + ps.take(0) =~= head); assert(ps.take(ps.len() as int) =~= ps); }
//@ loop 0 desugar iter it
    invariant_except_break it_on(&it, full), printed(*f) == p0 + joined(head + ps.take(it_pos(&it, full))),
    invariant full.len() == self.path@.len(), forall|i: int| 0 <= i < full.len() ==> *(#[trigger] full[i]) == self.path@[i],
        ps == texts(self.path@), ps.take(ps.len() as int) == ps, head == seq![self.peripheral@],
    ensures printed(*f) == p0 + joined(head + ps),
    decreases it_dec(&it),
//@ loopstart 0
    let ghost k = it_pos(&it, full) - 1;
    assert(*p == self.path@[k]);
    proof {
        let w = head + ps.take(k + 1);
        assert(w.drop_last() =~= head + ps.take(k));
        reveal_strlit("."); assert("."@ =~= seq!['.']);
    }
//@ endfn
//@ fn svd-parser/src/expand.rs RegisterPath::new -> r
    ensures into_text(name) matches Some(t) ==> reg_parts(r) == block_parts(block).push(t),
//@ endfn
//@ fn svd-parser/src/expand.rs <RegisterPath as PartialEq<str>>::eq as-trait -> r
    ensures dot_free(reg_parts(*self)) ==> r == (other@ == joined(reg_parts(*self))),
//@ start
    broadcast use {crate::ax::vx_axioms_device, crate::ax::vx_axioms_paths, crate::spec::lemma_utf8_inj_b, crate::ax::vx_axioms_text, crate::ax::vx_axioms_str};
    proof { lemma_eq_parts(block_parts(self.block), self.name@, other@); }
//@ endfn
//@ fn svd-parser/src/expand.rs <RegisterPath as fmt::Display>::fmt as-trait -> r
    ensures r is Ok ==> printed(*final(f)) == printed(*old(f)) + joined(reg_parts(*self)),
//@ result
    proof { assert(reg_parts(*self).drop_last() =~= block_parts(self.block)); }
//@ endfn
//@ fn svd-parser/src/expand.rs FieldPath::new -> r
    ensures into_text(name) matches Some(t) ==> field_parts(r) == reg_parts(register).push(t),
//@ endfn
//@ fn svd-parser/src/expand.rs <FieldPath as PartialEq<str>>::eq as-trait -> r
    ensures dot_free(field_parts(*self)) ==> r == (other@ == joined(field_parts(*self))),
//@ start
    broadcast use {crate::ax::vx_axioms_device, crate::ax::vx_axioms_paths, crate::spec::lemma_utf8_inj_b, crate::ax::vx_axioms_text, crate::ax::vx_axioms_str};
    proof { lemma_eq_parts(reg_parts(self.register), self.name@, other@); }
//@ endfn
//@ fn svd-parser/src/expand.rs <FieldPath as fmt::Display>::fmt as-trait -> r
    ensures r is Ok ==> printed(*final(f)) == printed(*old(f)) + joined(field_parts(*self)),
//@ result
    proof { assert(field_parts(*self).drop_last() =~= reg_parts(self.register)); }
//@ endfn
//@ fn svd-parser/src/expand.rs EnumPath::new -> r
    ensures into_text(name) matches Some(t) ==> enum_parts(r) == field_parts(field).push(t),
//@ endfn
//@ fn svd-parser/src/expand.rs <EnumPath as PartialEq<str>>::eq as-trait -> r
    ensures dot_free(enum_parts(*self)) ==> r == (other@ == joined(enum_parts(*self))),
//@ start
    broadcast use {crate::ax::vx_axioms_device, crate::ax::vx_axioms_paths, crate::spec::lemma_utf8_inj_b, crate::ax::vx_axioms_text, crate::ax::vx_axioms_str};
    proof { lemma_eq_parts(field_parts(self.field), self.name@, other@); }
//@ endfn
//@ fn svd-parser/src/expand.rs <EnumPath as fmt::Display>::fmt as-trait -> r
    ensures r is Ok ==> printed(*final(f)) == printed(*old(f)) + joined(enum_parts(*self)),
//@ result
    proof { assert(enum_parts(*self).drop_last() =~= field_parts(self.field)); }
//@ endfn
//@ fn svd-parser/src/expand.rs RegisterPath::parse_vec -> r
    requires v@.len() > 0,
    ensures scope_is(r.0, strs(v@).drop_last()), r.1@ == v@.last()@,
//@ endfn
//@ fn svd-parser/src/expand.rs RegisterPath::parse_str -> r
    ensures
        scope_is(r.0, split_char(s@, '.').drop_last()), r.1@ == split_char(s@, '.').last(),
//@ endfn
//@ fn svd-parser/src/expand.rs FieldPath::parse_vec -> r
    requires v@.len() > 0, v@.len() != 2,
    ensures reg_scope_is(r.0, strs(v@).drop_last()), r.1@ == v@.last()@,
//@ start
    broadcast use {crate::ax::vx_axioms_device, crate::ax::vx_axioms_paths};
    let ghost v0 = v@;
//@ before let register
    assert(strs(v0).drop_last() =~= strs(v@));
//@ result
    proof {
        if vx_ret.0 is Some { assert(reg_parts(vx_ret.0->0) =~= strs(v0).drop_last()); }
    }
//@ endfn
//@ fn svd-parser/src/expand.rs FieldPath::parse_str -> r
    requires split_char(s@, '.').len() != 2,
    ensures
        reg_scope_is(r.0, split_char(s@, '.').drop_last()), r.1@ == split_char(s@, '.').last(),
//@ start
    proof { lemma_split_len(s@, '.'); lemma_split_joined(s@); assert(forall|w: Seq<&str>| w.len() == split_char(s@, '.').len() && (forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i])@ == split_char(s@, '.')[i]) ==> #[trigger] strs(w) =~= split_char(s@, '.')); }
//@ endfn
//@ fn svd-parser/src/expand.rs BlockPath::new_cluster -> r
    ensures into_text(name) matches Some(t) ==> block_parts(r) == block_parts(*self).push(t),
//@ endfn
//@ fn svd-parser/src/expand.rs BlockPath::new_register -> r
    ensures into_text(name) matches Some(t) ==> reg_parts(r) == block_parts(*self).push(t),
//@ endfn
//@ fn svd-parser/src/expand.rs RegisterPath::new_field -> r
    ensures into_text(name) matches Some(t) ==> field_parts(r) == reg_parts(*self).push(t),
//@ endfn
//@ fn svd-parser/src/expand.rs FieldPath::new_enum -> r
    ensures into_text(name) matches Some(t) ==> enum_parts(r) == field_parts(*self).push(t),
//@ endfn
//@ fn svd-parser/src/expand.rs BlockPath::name -> r
    requires self.path@.len() > 0,
    ensures r@ == block_parts(*self).last(),
//@ endfn
//@ fn svd-parser/src/expand.rs BlockPath::parent -> r
    ensures
        r is None <==> self.path@.len() == 0,
        r matches Some(p) ==> block_parts(p) == block_parts(*self).drop_last(),
//@ endfn
//@ fn svd-parser/src/expand.rs RegisterPath::peripheral -> r
    ensures r@ == reg_parts(*self)[0],
//@ endfn
//@ fn svd-parser/src/expand.rs FieldPath::register -> r
    ensures reg_parts(*r) == field_parts(*self).drop_last(),
//@ endfn
//@ fn svd-parser/src/expand.rs FieldPath::peripheral -> r
    ensures r@ == field_parts(*self)[0],
//@ endfn
//@ fn svd-parser/src/expand.rs EnumPath::field -> r
    ensures field_parts(*r) == enum_parts(*self).drop_last(),
//@ endfn
//@ fn svd-parser/src/expand.rs EnumPath::register -> r
    ensures reg_parts(*r) == enum_parts(*self).drop_last().drop_last(),
//@ endfn
//@ fn svd-parser/src/expand.rs EnumPath::peripheral -> r
    ensures r@ == enum_parts(*self)[0],
//@ endfn
