// Shared: collecting the children of a node that are wanted.
//@ include parser.rs
//@ include iter_ax.rs
//@ module spec
use crate::xml::*;
// the items of s whose flag is set
pub open spec fn select<T>(s: Seq<T>, b: Seq<bool>) -> Seq<T>
    decreases s.len(),
{
    if s.len() == 0 || b.len() < s.len() { Seq::empty() } else {
        let r = select(s.drop_last(), b.take(s.len() - 1));
        if b[s.len() - 1] { r.push(s.last()) } else { r }
    }
}
pub proof fn lemma_select_push<T>(s: Seq<T>, b: Seq<bool>, x: T, f: bool)
    requires s.len() == b.len(),
    ensures select(s.push(x), b.push(f)) == if f { select(s, b).push(x) } else { select(s, b) },
{
    assert(s.push(x).drop_last() =~= s);
    assert(b.push(f).take(s.len() as int) =~= b);
}
// selecting by the flags a predicate gives is filtering by it
pub proof fn lemma_select_filter<'a>(s: Seq<Node<'a, 'a>>, b: Seq<bool>, p: spec_fn(X) -> bool)
    requires s.len() == b.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] b[i] == p(s[i].x()),
    ensures xs(select(s, b)) == xs(s).filter(p),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let b1 = b.take(s.len() - 1);
        assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] b1[i] == p(s.drop_last()[i].x()) by { assert(b1[i] == b[i]); }
        lemma_select_filter(s.drop_last(), b1, p);
        assert(xs(s).drop_last() =~= xs(s.drop_last()));
        assert(b[s.len() - 1] == p(s[s.len() - 1].x()));
        assert(xs(select(s, b)) =~= xs(s).filter(p));
    } else { assert(xs(select(s, b)) =~= xs(s).filter(p)); }
}
// g gave v for the nodes s
pub open spec fn gave<'a, T, E, G: Fn(Node<'a, 'a>) -> Result<T, E>>(g: G, s: Seq<X>, v: Seq<T>) -> bool {
    &&& s.len() == v.len()
    &&& forall|k: int| #![trigger s[k]] #![trigger v[k]] 0 <= k < s.len() ==> gave_one::<T, E, G>(g, s[k], Ok(v[k]))
}
pub open spec fn gave_one<'a, T, E, G: Fn(Node<'a, 'a>) -> Result<T, E>>(g: G, x: X, r: Result<T, E>) -> bool {
    exists|n: Node<'a, 'a>| n.x() == x && #[trigger] g.ensures((n,), r)
}
// g gave the error e for one of the nodes s
pub open spec fn failed<'a, T, E, G: Fn(Node<'a, 'a>) -> Result<T, E>>(g: G, s: Seq<X>, e: E) -> bool {
    exists|k: int| 0 <= k < s.len() && gave_one::<T, E, G>(g, #[trigger] s[k], Err(e))
}
// the flags of f are those of p
pub open spec fn decides<'a, F: Fn(&Node<'a, 'a>) -> bool>(f: F, p: spec_fn(X) -> bool) -> bool {
    forall|n: &Node<'a, 'a>, b: bool| #[trigger] f.ensures((n,), b) ==> b == p(n.x())
}
// `i.filter(f).map(g).collect()` into a `Result`: what g gives for the wanted nodes, up to the first error
pub fn vx_nodes<'a, T, E, F: Fn(&Node<'a, 'a>) -> bool, G: Fn(Node<'a, 'a>) -> Result<T, E>>(i: Children<'a>, f: F, g: G) -> (r: Result<Vec<T>, E>)
    requires
        vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&i),
        vstd::std_specs::iter::IteratorSpec::decrease(&i) is Some,
        forall|n: &Node<'a, 'a>| #[trigger] f.requires((n,)),
        forall|n: Node<'a, 'a>| xs(vstd::std_specs::iter::IteratorSpec::remaining(&i)).contains(n.x()) && f.ensures((&n,), true) ==> #[trigger] g.requires((n,)),
    ensures
        r matches Ok(v) ==> forall|p: spec_fn(X) -> bool| decides(f, p) ==> gave(g, #[trigger] xs(vstd::std_specs::iter::IteratorSpec::remaining(&i)).filter(p), v@),
        r matches Err(e) ==> forall|p: spec_fn(X) -> bool| decides(f, p) ==> failed::<T, E, G>(g, #[trigger] xs(vstd::std_specs::iter::IteratorSpec::remaining(&i)).filter(p), e),
{
    let ghost full = vstd::std_specs::iter::IteratorSpec::remaining(&i);
    let mut it = i;
    let mut v: Vec<T> = Vec::new();
    let ghost mut b: Seq<bool> = Seq::empty();
    loop
        invariant
            it_on(&it, full), it_pos(&it, full) == b.len(), b.len() <= full.len(),
            full == vstd::std_specs::iter::IteratorSpec::remaining(&i),
            vstd::std_specs::iter::IteratorSpec::will_return_none(&it) ==> vstd::std_specs::iter::IteratorSpec::will_return_none(&i),
            forall|n: &Node<'a, 'a>| #[trigger] f.requires((n,)),
            forall|n: Node<'a, 'a>| xs(full).contains(n.x()) && f.ensures((&n,), true) ==> #[trigger] g.requires((n,)),
            forall|k: int| 0 <= k < b.len() ==> f.ensures((&full[k],), #[trigger] b[k]),
            v@.len() == select(full.take(b.len() as int), b).len(),
            forall|k: int| #![trigger v@[k]] 0 <= k < v@.len() ==> g.ensures((select(full.take(b.len() as int), b)[k],), Result::<T, E>::Ok(v@[k])),
        decreases it_dec(&it)
    {
        let ghost n = b.len() as int;
        let ghost b0 = b;
        match it.next() {
            Some(x) => {
                assert(full[n] == x);
                assert(xs(full)[n] == x.x());
                let w = f(&x);
                proof {
                    lemma_select_push(full.take(n), b, x, w);
                    assert(full.take(n + 1) =~= full.take(n).push(x));
                    b = b.push(w);
                    assert forall|k: int| 0 <= k < b.len() implies f.ensures((&full[k],), #[trigger] b[k]) by { if k < n { assert(b[k] == b0[k]); } }
                }
                if w {
                    match g(x) {
                        Ok(y) => { v.push(y); }
                        Err(e) => {
                            assert(g.ensures((full[n],), Result::<T, E>::Err(e)));
                            assert forall|p: spec_fn(X) -> bool| decides(f, p) implies failed::<T, E, G>(g, #[trigger] xs(full).filter(p), e) by {
                                let s = xs(full).filter(p);
                                assert(f.ensures((&full[n],), b[n]));
                                assert(p(xs(full)[n]));
                                xs(full).lemma_filter_contains(p, n);
                                let k = choose|k: int| 0 <= k < s.len() && s[k] == xs(full)[n];
                                assert(full[n].x() == s[k]);
                                assert(gave_one(g, s[k], Result::<T, E>::Err(e)));
                            }
                            return Err(e);
                        }
                    }
                }
            }
            None => {
                proof {
                    assert(b.len() == full.len());
                    assert(full.take(b.len() as int) =~= full);
                    assert forall|p: spec_fn(X) -> bool| decides(f, p) implies gave(g, #[trigger] xs(full).filter(p), v@) by {
                        assert forall|k: int| 0 <= k < full.len() implies #[trigger] b[k] == p(full[k].x()) by { assert(f.ensures((&full[k],), b[k])); }
                        lemma_select_filter(full, b, p);
                        let s = xs(full).filter(p);
                        let q = select(full, b);
                        assert(s.len() == q.len());
                        assert forall|k: int| #![trigger s[k]] #![trigger v@[k]] 0 <= k < s.len() implies gave_one(g, s[k], Result::<T, E>::Ok(v@[k])) by {
                            assert(xs(q)[k] == s[k]);
                            assert(q[k].x() == s[k]);
                            assert(g.ensures((q[k],), Result::<T, E>::Ok(v@[k])));
                        }
                    }
                }
                return Ok(v);
            }
        }
    }
}
