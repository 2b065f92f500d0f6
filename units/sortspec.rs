// Shared: the stable sort, and what the standard library's sort_by_key does.
//@ module spec
// the standard order of keys
pub uninterp spec fn key_le<K>(a: K, b: K) -> bool;
// texts by their characters' code points (which is the order of their bytes in UTF-8)
pub open spec fn text_le(a: Seq<char>, b: Seq<char>) -> bool
    decreases a.len(),
{ a.len() == 0 || b.len() > 0 && (a[0] < b[0] || a[0] == b[0] && text_le(a.drop_first(), b.drop_first())) }
#[verifier::external_type_specification]
pub struct ExReverse<T>(std::cmp::Reverse<T>);
//@ module ax
pub broadcast axiom fn ax_key_u32(a: u32, b: u32) ensures #[trigger] key_le::<u32>(a, b) == (a <= b);
pub broadcast axiom fn ax_key_u64(a: u64, b: u64) ensures #[trigger] key_le::<u64>(a, b) == (a <= b);
pub broadcast axiom fn ax_key_rev<T>(a: std::cmp::Reverse<T>, b: std::cmp::Reverse<T>) ensures #[trigger] key_le::<std::cmp::Reverse<T>>(a, b) == key_le::<T>(b.0, a.0);
pub broadcast axiom fn ax_key_text<'a>(a: &'a String, b: &'a String) ensures #[trigger] key_le::<&'a String>(a, b) == text_le(a@, b@);
pub broadcast group vx_axioms_keys { ax_key_u32, ax_key_u64, ax_key_rev, ax_key_text }
//@ module spec
// insert x after everything that is not greater
pub open spec fn insert_sorted<T, K>(s: Seq<T>, x: T, key: spec_fn(T) -> K) -> Seq<T>
    decreases s.len(),
{
    if s.len() > 0 && !key_le(key(s.last()), key(x)) { insert_sorted(s.drop_last(), x, key).push(s.last()) } else { s.push(x) }
}
pub open spec fn stable_sort<T, K>(s: Seq<T>, key: spec_fn(T) -> K) -> Seq<T>
    decreases s.len(),
{ if s.len() == 0 { s } else { insert_sorted(stable_sort(s.drop_last(), key), s.last(), key) } }
pub open spec fn total<K>() -> bool {
    &&& forall|a: K, b: K| #[trigger] key_le(a, b) || key_le(b, a)
    &&& forall|a: K, b: K, c: K| #[trigger] key_le(a, b) && #[trigger] key_le(b, c) ==> key_le(a, c)
}
pub open spec fn in_order<T, K>(s: Seq<T>, key: spec_fn(T) -> K) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> key_le(key(#[trigger] s[i]), key(#[trigger] s[j])) }
// those with the same key as k, in order of appearance
pub open spec fn same_key<T, K>(key: spec_fn(T) -> K, k: K) -> spec_fn(T) -> bool { |x: T| key_le(key(x), k) && key_le(k, key(x)) }
proof fn lemma_insert<T, K>(s: Seq<T>, x: T, key: spec_fn(T) -> K)
    requires total::<K>(), in_order(s, key),
    ensures
        insert_sorted(s, x, key).to_multiset() =~= s.to_multiset().insert(x),
        in_order(insert_sorted(s, x, key), key),
        insert_sorted(s, x, key).len() == s.len() + 1,
        forall|i: int| 0 <= i < insert_sorted(s, x, key).len() ==> (#[trigger] insert_sorted(s, x, key)[i]) == x || s.contains(insert_sorted(s, x, key)[i]),
        forall|k: K| insert_sorted(s, x, key).filter(#[trigger] same_key(key, k)) =~= s.push(x).filter(same_key(key, k)),
    decreases s.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let r = insert_sorted(s, x, key);
    if s.len() > 0 && !key_le(key(s.last()), key(x)) {
        let (t, l) = (s.drop_last(), s.last());
        let q = insert_sorted(t, x, key);
        lemma_insert(t, x, key);
        assert(s =~= t.push(l));
        assert forall|i: int| 0 <= i < q.len() implies key_le(key(#[trigger] q[i]), key(l)) by {
            if q[i] != x { let j = choose|j: int| 0 <= j < t.len() && t[j] == q[i]; assert(s[j] == q[i]); }
        }
        assert(in_order(r, key)) by {
            assert forall|i: int, j: int| 0 <= i <= j < r.len() implies key_le(key(#[trigger] r[i]), key(#[trigger] r[j])) by {
                if j < q.len() { assert(r[i] == q[i] && r[j] == q[j]); }
            }
        }
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]) == x || s.contains(r[i]) by {
            if i < q.len() { assert(r[i] == q[i]); if q[i] != x { let j = choose|j: int| 0 <= j < t.len() && t[j] == q[i]; assert(s[j] == q[i]); } }
            else { assert(s[s.len() - 1] == l); }
        }
        assert forall|k: K| r.filter(#[trigger] same_key(key, k)) =~= s.push(x).filter(same_key(key, k)) by {
            let p = same_key(key, k);
            lemma_filter_push(q, l, p);
            lemma_filter_push(t, x, p);
            lemma_filter_push(t, l, p);
            lemma_filter_push(s, x, p);
            assert(q.filter(p) == t.push(x).filter(p));
            // l and x have different keys
            assert(!(p(l) && p(x)));
        }
    } else {
        assert forall|i: int, j: int| 0 <= i <= j < r.len() implies key_le(key(#[trigger] r[i]), key(#[trigger] r[j])) by {
            if j == s.len() && i < s.len() { assert(key_le(key(s[i]), key(s[s.len() - 1]))); }
        }
    }
}
proof fn lemma_filter_push<T>(s: Seq<T>, x: T, p: spec_fn(T) -> bool)
    ensures s.push(x).filter(p) == (if p(x) { s.filter(p).push(x) } else { s.filter(p) }),
{
    reveal(Seq::filter);
    assert(s.push(x).drop_last() =~= s);
}
// the stable sort is an ordered rearrangement, equal keys in their original order
pub proof fn lemma_stable_sort<T, K>(s: Seq<T>, key: spec_fn(T) -> K)
    requires total::<K>(),
    ensures
        stable_sort(s, key).to_multiset() =~= s.to_multiset(),
        in_order(stable_sort(s, key), key),
        forall|k: K| stable_sort(s, key).filter(#[trigger] same_key(key, k)) =~= s.filter(same_key(key, k)),
    decreases s.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_stable_sort(t, key);
        lemma_insert(stable_sort(t, key), s.last(), key);
        assert(s =~= t.push(s.last()));
        assert forall|k: K| stable_sort(s, key).filter(#[trigger] same_key(key, k)) =~= s.filter(same_key(key, k)) by {
            let p = same_key(key, k);
            lemma_filter_push(stable_sort(t, key), s.last(), p);
            lemma_filter_push(t, s.last(), p);
        }
    }
}
proof fn lemma_text_le(a: Seq<char>, b: Seq<char>)
    ensures text_le(a, b) || text_le(b, a),
    decreases a.len(),
{ if a.len() > 0 && b.len() > 0 && a[0] == b[0] { lemma_text_le(a.drop_first(), b.drop_first()); } }
proof fn lemma_text_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires text_le(a, b), text_le(b, c),
    ensures text_le(a, c),
    decreases a.len(),
{ if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lemma_text_trans(a.drop_first(), b.drop_first(), c.drop_first()); } }
// the keys in use are totally ordered
pub proof fn lemma_total()
    ensures total::<u32>(), total::<u64>(), total::<std::cmp::Reverse<u32>>(), total::<std::cmp::Reverse<u64>>(), total::<&String>(),
{
    broadcast use crate::ax::vx_axioms_keys;
    assert forall|a: &String, b: &String| #[trigger] key_le(a, b) || key_le(b, a) by { lemma_text_le(a@, b@); }
    assert forall|a: &String, b: &String, c: &String| #[trigger] key_le(a, b) && #[trigger] key_le(b, c) implies key_le(a, c) by { lemma_text_trans(a@, b@, c@); }
}
// `<[T]>::sort_by_key` is the stable sort
pub assume_specification<T, K: Ord, F: FnMut(&T) -> K>[ <[T]>::sort_by_key ](s: &mut [T], f: F)
    requires forall|x: &T| f.requires((x,)),
    ensures
        final(s)@.len() == old(s)@.len(),
        forall|key: spec_fn(T) -> K| #![trigger stable_sort(old(s)@, key)]
            (forall|x: T, k: K| #[trigger] f.ensures((&x,), k) ==> k == key(x)) ==> final(s)@ == stable_sort(old(s)@, key),
;
//@ module ax
pub broadcast axiom fn ax_items_vec<T>(v: Vec<T>) ensures #[trigger] items_of::<T, Vec<T>>(v) == v@;
pub broadcast axiom fn ax_items_vec_ref<'a, T>(v: &'a Vec<T>) ensures #[trigger] items_of::<&'a T, &'a Vec<T>>(v) == refs::<T>(v@);
pub broadcast group vx_axioms_items { ax_items_vec, ax_items_vec_ref }
//@ module spec
#[verifier::external_body]
pub fn vx_into_iter<T, I: IntoIterator<Item = T>>(i: I) -> (r: I::IntoIter)
    ensures
        vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r),
        vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
        vstd::std_specs::iter::IteratorSpec::will_return_none(&r),
        vstd::std_specs::iter::IteratorSpec::remaining(&r) == items_of::<T, I>(i),
{ i.into_iter() }
// two groups together are a rearrangement of the whole
pub proof fn lemma_partition<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool)
    requires forall|x: T| #[trigger] q(x) == !p(x),
    ensures (s.filter(p) + s.filter(q)).to_multiset() =~= s.to_multiset(),
    decreases s.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    vstd::seq_lib::lemma_multiset_commutative(s.filter(p), s.filter(q));
    if s.len() > 0 {
        let (t, x) = (s.drop_last(), s.last());
        assert(s =~= t.push(x));
        lemma_partition(t, p, q);
        lemma_filter_push(t, x, p);
        lemma_filter_push(t, x, q);
        vstd::seq_lib::lemma_multiset_commutative(t.filter(p), t.filter(q));
    } else { reveal(Seq::filter); assert(s.filter(p) + s.filter(q) =~= s); }
}
pub proof fn lemma_concat_multiset<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, d: Seq<T>)
    requires a.to_multiset() =~= c.to_multiset(), b.to_multiset() =~= d.to_multiset(),
    ensures (a + b).to_multiset() =~= (c + d).to_multiset(), (a + b).to_multiset() =~= (d + c).to_multiset(),
{
    vstd::seq_lib::lemma_multiset_commutative(a, b);
    vstd::seq_lib::lemma_multiset_commutative(c, d);
    vstd::seq_lib::lemma_multiset_commutative(d, c);
}
