// C17: what a derivedFrom reference stands for.
//@ include paths.rs trusted
//@ include derive_array.rs trusted
//@ include expand.rs trusted
//@ include iters.rs trusted
//@ noext parser::expand
//@ module spec
use std::collections::HashMap;
#[verifier::external_body]
pub struct AnyError;
#[verifier::external_body]
pub fn vx_anyhow_any() -> AnyError { unimplemented!() }
#[verifier::external_body]
pub fn vx_anyhow(s: &str) -> AnyError { unimplemented!() }
// ---------------------------------------------------------------- the index
pub type Parts = Seq<Seq<char>>;
pub trait Located: Sized {
    spec fn parts(self) -> Parts;
    // a path is its components
    proof fn located(a: Self, b: Self)
        requires a.parts() == b.parts(),
        ensures a == b;
}
pub proof fn lemma_texts(a: Vec<String>, b: Vec<String>)
    requires texts(a@) == texts(b@),
    ensures a == b,
{
    broadcast use {crate::ax::ax_vec_ext, crate::ax::ax_string_ext};
    assert(a@.len() == texts(a@).len() && b@.len() == texts(b@).len());
    assert forall|i: int| 0 <= i < a@.len() implies a@[i] == b@[i] by {
        assert(texts(a@)[i] == a@[i]@ && texts(b@)[i] == b@[i]@);
        assert(a@[i]@ =~= b@[i]@);
    }
    assert(a@ =~= b@);
}
pub proof fn lemma_push_parts(a: Parts, s: Seq<char>, b: Parts, t: Seq<char>)
    requires a.push(s) == b.push(t),
    ensures a == b, s == t,
{
    assert(a.push(s).drop_last() =~= a);
    assert(b.push(t).drop_last() =~= b);
    assert(a.push(s).last() == s && b.push(t).last() == t);
}
impl Located for BlockPath {
    open spec fn parts(self) -> Parts { block_parts(self) }
    proof fn located(a: Self, b: Self) {
        broadcast use crate::ax::ax_string_ext;
        assert(block_parts(a)[0] == a.peripheral@ && block_parts(b)[0] == b.peripheral@);
        assert(a.peripheral@ =~= b.peripheral@);
        assert(block_parts(a).drop_first() =~= texts(a.path@));
        assert(block_parts(b).drop_first() =~= texts(b.path@));
        lemma_texts(a.path, b.path);
    }
}
impl Located for RegisterPath {
    open spec fn parts(self) -> Parts { reg_parts(self) }
    proof fn located(a: Self, b: Self) {
        broadcast use crate::ax::ax_string_ext;
        lemma_push_parts(block_parts(a.block), a.name@, block_parts(b.block), b.name@);
        BlockPath::located(a.block, b.block);
        assert(a.name@ =~= b.name@);
    }
}
impl Located for FieldPath {
    open spec fn parts(self) -> Parts { field_parts(self) }
    proof fn located(a: Self, b: Self) {
        broadcast use crate::ax::ax_string_ext;
        lemma_push_parts(reg_parts(a.register), a.name@, reg_parts(b.register), b.name@);
        RegisterPath::located(a.register, b.register);
        assert(a.name@ =~= b.name@);
    }
}
impl Located for EnumPath {
    open spec fn parts(self) -> Parts { enum_parts(self) }
    proof fn located(a: Self, b: Self) {
        broadcast use crate::ax::ax_string_ext;
        lemma_push_parts(field_parts(a.field), a.name@, field_parts(b.field), b.name@);
        FieldPath::located(a.field, b.field);
        assert(a.name@ =~= b.name@);
    }
}
// the elements an index holds, by path
pub open spec fn shown<K: Located, T>(m: Map<K, &T>) -> Map<Parts, T> {
    Map::new(m.dom().map(|k: K| k.parts()), |p: Parts| *m[choose|k: K| #[trigger] m.contains_key(k) && k.parts() == p])
}
pub broadcast proof fn lemma_shown<K: Located, T>(m: Map<K, &T>, k: K)
    ensures
        #![trigger shown(m), m.contains_key(k)]
        #![trigger shown(m).contains_key(k.parts())]
        shown(m).contains_key(k.parts()) == m.contains_key(k),
        m.contains_key(k) ==> shown(m)[k.parts()] == *m[k],
{
    let f = |k: K| k.parts();
    if m.contains_key(k) {
        assert(m.dom().contains(k));
        assert(f(k) == k.parts());
        assert(m.dom().map(f).contains(k.parts()));
        let j = choose|j: K| #[trigger] m.contains_key(j) && j.parts() == k.parts();
        K::located(j, k);
    }
    if shown(m).contains_key(k.parts()) {
        let j = choose|j: K| m.dom().contains(j) && f(j) == k.parts();
        K::located(j, k);
    }
}
pub proof fn lemma_shown_key<K: Located, T>(m: Map<K, &T>, p: Parts) -> (k: K)
    requires shown(m).contains_key(p),
    ensures m.contains_key(k), k.parts() == p,
{
    let f = |k: K| k.parts();
    let j = choose|j: K| m.dom().contains(j) && f(j) == p;
    j
}
pub broadcast proof fn lemma_shown_insert<K: Located, T>(m: Map<K, &T>, k: K, v: &T)
    ensures #[trigger] shown(m.insert(k, v)) == shown(m).insert(k.parts(), *v),
{
    let (a, b) = (shown(m.insert(k, v)), shown(m).insert(k.parts(), *v));
    lemma_shown(m.insert(k, v), k);
    assert forall|p: Parts| a.contains_key(p) implies b.contains_key(p) && a[p] == b[p] by {
        let j = lemma_shown_key(m.insert(k, v), p);
        lemma_shown(m.insert(k, v), j);
        if p == k.parts() { K::located(j, k); } else { assert(j != k); lemma_shown(m, j); }
    }
    assert forall|p: Parts| b.contains_key(p) implies a.contains_key(p) by {
        if p != k.parts() { let j = lemma_shown_key(m, p); lemma_shown(m.insert(k, v), j); }
    }
    assert(a =~= b);
}
// the paths in a list of them
pub open spec fn seen_of<K: Located>(v: Seq<K>) -> Set<Parts> { v.to_set().map(|k: K| k.parts()) }
pub broadcast proof fn lemma_seen<K: Located>(v: Seq<K>, x: K)
    ensures
        #![trigger seen_of(v.push(x))]
        seen_of(v.push(x)) == seen_of(v).insert(x.parts()),
{
    let f = |k: K| k.parts();
    let (a, b) = (seen_of(v.push(x)), seen_of(v).insert(x.parts()));
    assert forall|p: Parts| a.contains(p) implies b.contains(p) by {
        let k = choose|k: K| v.push(x).to_set().contains(k) && f(k) == p;
        let i = choose|i: int| 0 <= i < v.push(x).len() && v.push(x)[i] == k;
        if i < v.len() { assert(v[i] == k); assert(v.to_set().contains(k)); assert(f(k) == p); }
    }
    assert forall|p: Parts| b.contains(p) implies a.contains(p) by {
        if p == x.parts() { assert(v.push(x)[v.len() as int] == x); assert(v.push(x).to_set().contains(x)); assert(f(x) == p); }
        else {
            let k = choose|k: K| v.to_set().contains(k) && f(k) == p;
            let i = choose|i: int| 0 <= i < v.len() && v[i] == k;
            assert(v.push(x)[i] == k);
            assert(v.push(x).to_set().contains(k)); assert(f(k) == p);
        }
    }
    assert(a =~= b);
}
pub broadcast proof fn lemma_seen_has<K: Located>(v: Seq<K>, x: K)
    ensures
        #![trigger v.contains(x), seen_of(v)]
        seen_of(v).contains(x.parts()) == v.contains(x),
{
    let f = |k: K| k.parts();
    if seen_of(v).contains(x.parts()) {
        let k = choose|k: K| v.to_set().contains(k) && f(k) == x.parts();
        K::located(k, x);
        let i = choose|i: int| 0 <= i < v.len() && v[i] == k;
        assert(v[i] == x);
    }
    if v.contains(x) {
        assert(v.to_set().contains(x));
        assert(f(x) == x.parts());
    }
}
pub proof fn lemma_seen_none<K: Located>(v: Seq<K>)
    requires v.len() == 0,
    ensures seen_of(v) == Set::<Parts>::empty(),
{
    assert(v.to_set() =~= Set::<K>::empty());
    assert(seen_of(v) =~= Set::<Parts>::empty());
}
// how many elements a reference can still lead to
pub open spec fn left<T>(m: Map<Parts, T>, seen: Set<Parts>) -> nat { m.dom().difference(seen).len() }
pub proof fn lemma_left<T>(m: Map<Parts, T>, seen: Set<Parts>, p: Parts)
    requires m.contains_key(p), !seen.contains(p),
    ensures left(m, seen.insert(p)) < left(m, seen),
{
    assert(m.dom().difference(seen.insert(p)) =~= m.dom().difference(seen).remove(p));
}
// ---------------------------------------------------------------- references
// a reference of one component names an element beside it, a longer one is a full path
pub open spec fn scoped(d: Seq<char>, scope: Parts) -> Parts { let v = split_char(d, '.'); if v.len() == 1 { scope.push(v[0]) } else { v } }
pub trait Refers: Sized {
    spec fn nm(self) -> Seq<char>;
    spec fn reference(self) -> Option<Seq<char>>;
    spec fn unref(self) -> Self;
    // has no content of its own
    spec fn bare(self) -> bool;
    // the path a reference stands for; none if it is incomplete
    spec fn resolve(d: Seq<char>, scope: Parts) -> Option<Parts>;
}
impl Refers for Peripheral {
    open spec fn nm(self) -> Seq<char> { info_of(self).name@ }
    open spec fn reference(self) -> Option<Seq<char>> { opt_string(info_of(self).derived_from) }
    open spec fn unref(self) -> Self { with_info(self, PeripheralInfo { derived_from: None, ..info_of(self) }) }
    open spec fn bare(self) -> bool { info_of(self).registers is None }
    open spec fn resolve(d: Seq<char>, scope: Parts) -> Option<Parts> { Some(seq![d]) }
}
impl Refers for Cluster {
    open spec fn nm(self) -> Seq<char> { info_of(self).name@ }
    open spec fn reference(self) -> Option<Seq<char>> { opt_string(info_of(self).derived_from) }
    open spec fn unref(self) -> Self { with_info(self, ClusterInfo { derived_from: None, ..info_of(self) }) }
    open spec fn bare(self) -> bool { info_of(self).children@.len() == 0 }
    open spec fn resolve(d: Seq<char>, scope: Parts) -> Option<Parts> { Some(scoped(d, scope)) }
}
impl Refers for Register {
    open spec fn nm(self) -> Seq<char> { info_of(self).name@ }
    open spec fn reference(self) -> Option<Seq<char>> { opt_string(info_of(self).derived_from) }
    open spec fn unref(self) -> Self { with_info(self, RegisterInfo { derived_from: None, ..info_of(self) }) }
    open spec fn bare(self) -> bool { info_of(self).fields is None }
    open spec fn resolve(d: Seq<char>, scope: Parts) -> Option<Parts> { Some(scoped(d, scope)) }
}
impl Refers for Field {
    open spec fn nm(self) -> Seq<char> { info_of(self).name@ }
    open spec fn reference(self) -> Option<Seq<char>> { opt_string(info_of(self).derived_from) }
    open spec fn unref(self) -> Self { with_info(self, FieldInfo { derived_from: None, ..info_of(self) }) }
    open spec fn bare(self) -> bool { info_of(self).enumerated_values@.len() == 0 }
    open spec fn resolve(d: Seq<char>, scope: Parts) -> Option<Parts> { if split_char(d, '.').len() == 2 { None } else { Some(scoped(d, scope)) } }
}
// x with what the reference d gives it, and where its content comes from (none: it has its own);
// nothing if the reference, or one it leads to, is incomplete, names nothing or has been followed already
pub open spec fn chain<T: DeriveFrom + Refers>(m: Map<Parts, T>, x: T, d: Seq<char>, scope: Parts, seen: Set<Parts>) -> Option<(T, Option<Parts>)>
    decreases left(m, seen),
    via chain_dec::<T>
{
    match T::resolve(d, scope) {
        None => None,
        Some(p) => if seen.contains(p) || !m.contains_key(p) { None } else {
            let (t, here) = (m[p], if x.bare() { Some(p) } else { None });
            match t.reference() {
                None => Some((x.derived(t), here)),
                Some(e) => match chain(m, x.derived(t), e, p.drop_last(), seen.insert(p)) {
                    None => None,
                    Some((z, deeper)) => Some((z, first(deeper, here))),
                },
            }
        },
    }
}
#[via_fn]
proof fn chain_dec<T: DeriveFrom + Refers>(m: Map<Parts, T>, x: T, d: Seq<char>, scope: Parts, seen: Set<Parts>)
{
    if let Some(p) = T::resolve(d, scope) { if !(seen.contains(p) || !m.contains_key(p)) { lemma_left(m, seen, p); } }
}
// an element with its own reference followed, and the path of its content
pub open spec fn based<T: DeriveFrom + Refers>(m: Map<Parts, T>, x: T, scope: Parts) -> Option<(T, Parts)> {
    match x.reference() {
        None => Some((x, scope.push(x.nm()))),
        Some(d) => match chain(m, x.unref(), d, scope, set![scope.push(x.nm())]) {
            None => None,
            Some((z, p)) => Some((z, match p { Some(p) => p, None => scope.push(z.nm()) })),
        },
    }
}
pub open spec fn opt_parts<K: Located>(p: Option<K>) -> Option<Parts> { match p { Some(p) => Some(p.parts()), None => None } }
pub proof fn lemma_scoped(d: Seq<char>)
    ensures split_char(d, '.').len() >= 1, split_char(d, '.').drop_last().push(split_char(d, '.').last()) == split_char(d, '.'),
        split_char(d, '.').len() == 1 ==> split_char(d, '.').last() == split_char(d, '.')[0],
{
    lemma_split_len(d, '.');
    let v = split_char(d, '.');
    assert(v.drop_last().push(v.last()) =~= v);
}
//@ module ax
pub broadcast axiom fn ax_key_block() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<crate::parser::expand::BlockPath>();
pub broadcast axiom fn ax_key_reg() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<crate::parser::expand::RegisterPath>();
pub broadcast axiom fn ax_key_field() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<crate::parser::expand::FieldPath>();
pub broadcast axiom fn ax_key_enum() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<crate::parser::expand::EnumPath>();
pub broadcast group vx_axioms_index { ax_key_block, ax_key_reg, ax_key_field, ax_key_enum }
//@ module spec
// equality of a type is identity
pub open spec fn plain_eq<T: PartialEq>() -> bool {
    <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() && forall|a: T, b: T| #[trigger] <T as vstd::std_specs::cmp::PartialEqSpec>::eq_spec(&a, &b) == (a == b)
}
pub assume_specification<T: PartialEq>[ <[T]>::contains ](s: &[T], x: &T) -> (r: bool)
    ensures plain_eq::<T>() ==> r == s@.contains(*x),
;
pub assume_specification<T: std::ops::Deref>[ Option::<T>::as_deref ](a: &Option<T>) -> (r: Option<&<T as std::ops::Deref>::Target>)
    ensures r is Some == a is Some, r is Some ==> deref_of(&a->0, r->0),
;
pub uninterp spec fn deref_of<T: std::ops::Deref>(a: &T, r: &<T as std::ops::Deref>::Target) -> bool;
//@ module ax
pub broadcast axiom fn ax_optstr_eq<'a, 'b>(a: Option<&'a str>, b: Option<&'b str>)
    ensures #[trigger] <Option<&'a str> as vstd::std_specs::cmp::PartialEqSpec<Option<&'b str>>>::eq_spec(&a, &b) == (match a { None => b is None, Some(x) => b matches Some(y) && x@ == y@ }),
;
pub broadcast axiom fn ax_optstr_eq_obeys()
    ensures #[trigger] <Option<&str> as vstd::std_specs::cmp::PartialEqSpec<Option<&str>>>::obeys_eq_spec(),
;
pub broadcast axiom fn ax_deref_string(a: &String, r: &str)
    requires #[trigger] crate::spec::deref_of::<String>(a, r),
    ensures r@ == a@,
;
pub broadcast group vx_axioms_optstr { ax_deref_string, ax_optstr_eq, ax_optstr_eq_obeys }
//@ module spec
//@ item svd-parser/src/expand.rs Index noclone,nodefault
//@ module parser::expand
use std::collections::HashMap;
pub type Result<T, E = AnyError> = core::result::Result<T, E>;
//@ module spec
pub proof fn lemma_one_seen<K: Located>()
    ensures forall|v: Seq<K>| #![trigger seen_of(v)] v.len() == 1 ==> seen_of(v) == set![v[0].parts()],
{
    assert forall|v: Seq<K>| #![trigger seen_of(v)] v.len() == 1 implies seen_of(v) == set![v[0].parts()] by {
        lemma_seen_none(Seq::<K>::empty());
        lemma_seen(Seq::<K>::empty(), v[0]);
        assert(Seq::<K>::empty().push(v[0]) =~= v);
        assert(set![v[0].parts()] =~= Set::<Parts>::empty().insert(v[0].parts()));
    }
}
//@ fn svd-parser/src/expand.rs derive_cluster_chain -> r
    ensures
        r matches Ok(q) ==> chain(shown(index.clusters@), *old(c), dpath@, block_parts(*path), seen_of(old(visited)@)) == Some((*final(c), opt_parts(q))),
        r is Err ==> chain(shown(index.clusters@), *old(c), dpath@, block_parts(*path), seen_of(old(visited)@)) is None,
    decreases left(shown(index.clusters@), seen_of(old(visited)@)),
//@ start
    broadcast use {crate::ax::vx_axioms_index, crate::ax::vx_axioms_device, vstd::std_specs::hash::group_hash_axioms, lemma_shown, lemma_seen, lemma_seen_has};
    proof {
        lemma_scoped(dpath@);
        let p = scoped(dpath@, block_parts(*path));
        if shown(index.clusters@).contains_key(p) && !seen_of(visited@).contains(p) { lemma_left(shown(index.clusters@), seen_of(visited@), p); }
        assert(forall|s: Parts, t: Seq<char>| #[trigger] s.push(t).drop_last() =~= s);
    }
//@ endfn
//@ fn svd-parser/src/expand.rs derive_cluster -> r
    ensures
        r matches Ok(q) ==> chain(shown(index.clusters@), *old(c), dpath@, block_parts(*path), set![block_parts(*path).push(old(c).nm())]) == Some((*final(c), opt_parts(q))),
        r is Err ==> chain(shown(index.clusters@), *old(c), dpath@, block_parts(*path), set![block_parts(*path).push(old(c).nm())]) is None,
//@ start
    broadcast use {crate::ax::vx_axioms_index, crate::ax::vx_axioms_device, vstd::std_specs::hash::group_hash_axioms, lemma_shown, lemma_seen, lemma_seen_has};
    proof { lemma_one_seen::<BlockPath>(); }
//@ endfn
//@ fn svd-parser/src/expand.rs derive_register_chain -> res
    ensures
        res matches Ok(q) ==> chain(shown(index.registers@), *old(r), dpath@, block_parts(*path), seen_of(old(visited)@)) == Some((*final(r), opt_parts(q))),
        res is Err ==> chain(shown(index.registers@), *old(r), dpath@, block_parts(*path), seen_of(old(visited)@)) is None,
    decreases left(shown(index.registers@), seen_of(old(visited)@)),
//@ start
    broadcast use {crate::ax::vx_axioms_index, crate::ax::vx_axioms_device, vstd::std_specs::hash::group_hash_axioms, lemma_shown, lemma_seen, lemma_seen_has};
    proof {
        lemma_scoped(dpath@);
        let p = scoped(dpath@, block_parts(*path));
        if shown(index.registers@).contains_key(p) && !seen_of(visited@).contains(p) { lemma_left(shown(index.registers@), seen_of(visited@), p); }
        assert(forall|s: Parts, t: Seq<char>| #[trigger] s.push(t).drop_last() =~= s);
    }
//@ endfn
//@ fn svd-parser/src/expand.rs derive_register -> res
    ensures
        res matches Ok(q) ==> chain(shown(index.registers@), *old(r), dpath@, block_parts(*path), set![block_parts(*path).push(old(r).nm())]) == Some((*final(r), opt_parts(q))),
        res is Err ==> chain(shown(index.registers@), *old(r), dpath@, block_parts(*path), set![block_parts(*path).push(old(r).nm())]) is None,
//@ start
    broadcast use {crate::ax::vx_axioms_index, crate::ax::vx_axioms_device, vstd::std_specs::hash::group_hash_axioms, lemma_shown, lemma_seen, lemma_seen_has};
    proof { lemma_one_seen::<RegisterPath>(); }
//@ endfn
//@ fn svd-parser/src/expand.rs derive_field_chain -> r
    ensures
        r matches Ok(q) ==> chain(shown(index.fields@), *old(f), dpath@, reg_parts(*rpath), seen_of(old(visited)@)) == Some((*final(f), opt_parts(q))),
        r is Err ==> chain(shown(index.fields@), *old(f), dpath@, reg_parts(*rpath), seen_of(old(visited)@)) is None,
    decreases left(shown(index.fields@), seen_of(old(visited)@)),
//@ start
    broadcast use {crate::ax::vx_axioms_index, crate::ax::vx_axioms_device, vstd::std_specs::hash::group_hash_axioms, lemma_shown, lemma_seen, lemma_seen_has};
    proof {
        lemma_scoped(dpath@);
        let p = scoped(dpath@, reg_parts(*rpath));
        if shown(index.fields@).contains_key(p) && !seen_of(visited@).contains(p) { lemma_left(shown(index.fields@), seen_of(visited@), p); }
        assert(forall|s: Parts, t: Seq<char>| #[trigger] s.push(t).drop_last() =~= s);
        assert(forall|w: Seq<&str>| w.len() == split_char(dpath@, '.').len() && (forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i])@ == split_char(dpath@, '.')[i]) ==> #[trigger] strs(w) =~= split_char(dpath@, '.'));
    }
//@ attr #[verifier::rlimit(40)]
//@ endfn
//@ fn svd-parser/src/expand.rs derive_field -> r
    ensures
        r matches Ok(q) ==> chain(shown(index.fields@), *old(f), dpath@, reg_parts(*rpath), set![reg_parts(*rpath).push(old(f).nm())]) == Some((*final(f), opt_parts(q))),
        r is Err ==> chain(shown(index.fields@), *old(f), dpath@, reg_parts(*rpath), set![reg_parts(*rpath).push(old(f).nm())]) is None,
//@ start
    broadcast use {crate::ax::vx_axioms_index, crate::ax::vx_axioms_device, vstd::std_specs::hash::group_hash_axioms, lemma_shown, lemma_seen, lemma_seen_has};
    proof { lemma_one_seen::<FieldPath>(); }
//@ endfn
//@ fn svd-parser/src/expand.rs derive_peripheral_chain -> res
    ensures
        res matches Ok(q) ==> chain(shown(index.peripherals@), *old(p), dpath@, Seq::empty(), seen_of(old(visited)@)) == Some((*final(p), opt_parts(q))),
        res is Err ==> chain(shown(index.peripherals@), *old(p), dpath@, Seq::empty(), seen_of(old(visited)@)) is None,
    decreases left(shown(index.peripherals@), seen_of(old(visited)@)),
//@ start
    broadcast use {crate::ax::vx_axioms_index, crate::ax::vx_axioms_device, vstd::std_specs::hash::group_hash_axioms, lemma_shown, lemma_seen, lemma_seen_has};
    proof {
        lemma_scoped(dpath@);
        let p = seq![dpath@];
        if shown(index.peripherals@).contains_key(p) && !seen_of(visited@).contains(p) { lemma_left(shown(index.peripherals@), seen_of(visited@), p); }
        assert(forall|s: Parts, t: Seq<char>| #[trigger] s.push(t).drop_last() =~= s);
        assert(seq![dpath@].drop_last() =~= Seq::<Seq<char>>::empty());
    }
//@ endfn
//@ fn svd-parser/src/expand.rs derive_peripheral -> r
    ensures
        r matches Ok(q) ==> chain(shown(index.peripherals@), *old(p), dpath@, Seq::empty(), set![seq![old(p).nm()]]) == Some((*final(p), opt_parts(q))),
        r is Err ==> chain(shown(index.peripherals@), *old(p), dpath@, Seq::empty(), set![seq![old(p).nm()]]) is None,
//@ start
    broadcast use {crate::ax::vx_axioms_index, crate::ax::vx_axioms_device, vstd::std_specs::hash::group_hash_axioms, lemma_shown, lemma_seen, lemma_seen_has};
    proof { lemma_one_seen::<BlockPath>(); }
//@ endfn
// ---------------------------------------------------------------- enumerated values
pub struct Ix {
    pub peripherals: Map<Parts, Peripheral>,
    pub clusters: Map<Parts, Cluster>,
    pub registers: Map<Parts, Register>,
    pub fields: Map<Parts, Field>,
    pub evs: Map<Parts, EnumeratedValues>,
}
pub open spec fn ix_of(i: crate::parser::expand::Index) -> Ix {
    Ix { peripherals: shown(i.peripherals@), clusters: shown(i.clusters@), registers: shown(i.registers@), fields: shown(i.fields@), evs: shown(i.evs@) }
}
// the set called d of the first field that has one
pub open spec fn first_with(fs: Seq<Field>, evs: Map<Parts, EnumeratedValues>, rp: Parts, d: Seq<char>) -> Option<Parts>
    decreases fs.len(),
{
    if fs.len() == 0 { None } else {
        let p = rp.push(info_of(fs[0]).name@).push(d);
        if evs.contains_key(p) { Some(p) } else { first_with(fs.drop_first(), evs, rp, d) }
    }
}
// NAME: a set of the same register; FIELD.NAME: the same register; REGISTER.FIELD.NAME: the same block; else a full path
pub open spec fn evs_path(ix: Ix, d: Seq<char>, fp: Parts) -> Option<Parts> {
    let v = split_char(d, '.');
    let rp = fp.drop_last();
    if v.len() == 1 {
        if ix.registers.contains_key(rp) { first_with(fields_of(info_of(ix.registers[rp])), ix.evs, rp, v[0]) } else { None }
    } else if v.len() == 2 { Some(rp.push(v[0]).push(v[1]))
    } else if v.len() == 3 { Some(rp.drop_last().push(v[0]).push(v[1]).push(v[2]))
    } else { Some(v) }
}
pub open spec fn chain_evs(ix: Ix, x: EnumeratedValues, d: Seq<char>, fp: Parts, seen: Set<Parts>) -> Option<(EnumeratedValues, Parts)>
    decreases left(ix.evs, seen),
    via chain_evs_dec
{
    match evs_path(ix, d, fp) {
        None => None,
        Some(p) => if seen.contains(p) || !ix.evs.contains_key(p) { None } else {
            let t = ix.evs[p];
            match opt_string(t.derived_from) {
                None => Some((x.derived(t), p)),
                Some(e) => chain_evs(ix, x.derived(t), e, p.drop_last(), seen.insert(p)),
            }
        },
    }
}
#[via_fn]
proof fn chain_evs_dec(ix: Ix, x: EnumeratedValues, d: Seq<char>, fp: Parts, seen: Set<Parts>)
{
    if let Some(p) = evs_path(ix, d, fp) { if !(seen.contains(p) || !ix.evs.contains_key(p)) { lemma_left(ix.evs, seen, p); } }
}
pub open spec fn evs_named(x: EnumeratedValues, fp: Parts) -> Set<Parts> { match x.name { Some(n) => set![fp.push(n@)], None => Set::empty() } }
pub open spec fn evs_derived(ix: Ix, x: EnumeratedValues, d: Seq<char>, fp: Parts) -> Option<(EnumeratedValues, Parts)> {
    if opt_string(x.name) == Some(d) { None } else { chain_evs(ix, x, d, fp, evs_named(x, fp)) }
}
pub open spec fn evs_found<'a, 'b>(o: Option<(&'b &'a EnumeratedValues, EnumPath)>, p: Option<Parts>, m: Map<EnumPath, &'a EnumeratedValues>) -> bool {
    match o { Some(t) => p == Some(enum_parts(t.1)) && m.contains_key(t.1) && *t.0 == m[t.1], None => p is None }
}
// what the lookup gives
pub open spec fn evs_at<'a, 'b>(o: Option<(&'b &'a EnumeratedValues, EnumPath)>, p: Option<Parts>, m: Map<EnumPath, &'a EnumeratedValues>) -> bool {
    match o {
        Some(t) => p == Some(enum_parts(t.1)) && shown(m).contains_key(enum_parts(t.1)) && **t.0 == shown(m)[enum_parts(t.1)],
        None => p matches Some(p) ==> !shown(m).contains_key(p),
    }
}
pub proof fn lemma_three(v: Parts)
    ensures
        v.len() == 1 ==> v.drop_last().len() == 0 && v.last() == v[0],
        v.len() == 2 ==> v.drop_last().len() == 1 && v.drop_last().last() == v[0] && v.last() == v[1],
        v.len() == 3 ==> v.drop_last().drop_last() =~= seq![v[0]] && v.drop_last().last() == v[1] && v.last() == v[2],
        v.len() >= 2 ==> v.drop_last().drop_last().push(v.drop_last().last()).push(v.last()) =~= v,
        v.len() >= 3 ==> v.drop_last().drop_last().drop_last().push(v.drop_last().drop_last().last()).push(v.drop_last().last()).push(v.last()) =~= v,
{
}
pub broadcast proof fn lemma_strs_pop(v: Seq<&str>)
    requires v.len() > 0,
    ensures #![trigger strs(v.drop_last())] strs(v.drop_last()) == strs(v).drop_last(), strs(v).last() == v.last()@,
        v.len() >= 2 ==> strs(v.drop_last()).last() == v[v.len() - 2]@,
{
    assert(strs(v.drop_last()) =~= strs(v).drop_last());
}
//@ module parser::expand
//@ fn svd-parser/src/expand.rs derive_enumerated_values_chain -> r
    ensures
        r matches Ok(q) ==> chain_evs(ix_of(*index), *old(ev), dpath@, field_parts(*fpath), seen_of(old(visited)@)) == Some((*final(ev), enum_parts(q))),
        r is Err ==> chain_evs(ix_of(*index), *old(ev), dpath@, field_parts(*fpath), seen_of(old(visited)@)) is None,
    decreases left(shown(index.evs@), seen_of(old(visited)@)),
//@ start
    broadcast use {crate::ax::vx_axioms_index, crate::ax::vx_axioms_device, vstd::std_specs::hash::group_hash_axioms, lemma_shown, lemma_seen, lemma_seen_has, lemma_strs_pop};
    proof {
        lemma_scoped(dpath@);
        lemma_three(split_char(dpath@, '.'));
        let fp = field_parts(*fpath);
        assert(fp.drop_last() =~= reg_parts(fpath.register));
        assert(fp.drop_last().drop_last() =~= block_parts(fpath.register.block));
        assert(forall|w: Seq<&str>| w.len() == split_char(dpath@, '.').len() && (forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i])@ == split_char(dpath@, '.')[i]) ==> #[trigger] strs(w) =~= split_char(dpath@, '.'));
        match evs_path(ix_of(*index), dpath@, fp) {
            Some(p) => { if shown(index.evs@).contains_key(p) && !seen_of(visited@).contains(p) { lemma_left(shown(index.evs@), seen_of(visited@), p); } },
            None => {},
        }
        assert(forall|s: Parts, t: Seq<char>| #[trigger] s.push(t).drop_last() =~= s);
    }
//@ loop 0 desugar iter it
    invariant_except_break it_on(&it, full), found is None,
        first_with(fs.skip(it_pos(&it, full)), shown(index.evs@), reg_parts(*rdpath), dname@) == first_with(fs, shown(index.evs@), reg_parts(*rdpath), dname@),
    invariant full.len() == fs.len(), forall|i: int| 0 <= i < fs.len() ==> *(#[trigger] full[i]) == fs[i],
    ensures
        evs_found(found, first_with(fs, shown(index.evs@), reg_parts(*rdpath), dname@), index.evs@),
    decreases it_dec(&it),
//@ beforeloop 0
    let ghost full = it.remaining();
    let ghost fs = fields_of(info_of(**r));
    assert(vals(full) == fs);
    assert(fs.skip(0) =~= fs);
//@ loopstart 0
    broadcast use {crate::ax::vx_axioms_index, crate::ax::vx_axioms_device, vstd::std_specs::hash::group_hash_axioms, lemma_shown, lemma_seen, lemma_seen_has};
    let ghost k = it_pos(&it, full) - 1;
    assert(*f == fs[k]);
    assert(fs.skip(k)[0] == fs[k]);
    assert(fs.skip(k).drop_first() =~= fs.skip(k + 1));
//@ after let epath = EnumPath::new(fdpath, dname);
    assert(evs_path(ix_of(*index), dpath@, field_parts(*fpath)) == Some(enum_parts(epath))) by {
        let n = split_char(dpath@, '.').len();
        assert(n == 2 || n == 3 || n >= 4);
    }
    assert(epath.parts() == enum_parts(epath));
    assert(shown(index.evs@).contains_key(epath.parts()) == index.evs@.contains_key(epath));
//@ before if let Some((d, epath)) = d
    assert(evs_at(d, evs_path(ix_of(*index), dpath@, field_parts(*fpath)), index.evs@));
//@ attr #[verifier::rlimit(40)]
//@ endfn
//@ fn svd-parser/src/expand.rs derive_enumerated_values -> r
    ensures
        r matches Ok(q) ==> evs_derived(ix_of(*index), *old(ev), dpath@, field_parts(*fpath)) == Some((*final(ev), enum_parts(q))),
        r is Err ==> evs_derived(ix_of(*index), *old(ev), dpath@, field_parts(*fpath)) is None,
//@ start
    broadcast use {crate::ax::vx_axioms_index, crate::ax::vx_axioms_device, crate::ax::vx_axioms_optstr, vstd::std_specs::hash::group_hash_axioms, lemma_shown, lemma_seen, lemma_seen_has};
    proof { lemma_one_seen::<EnumPath>(); lemma_seen_none::<EnumPath>(Seq::empty()); }
//@ endfn
