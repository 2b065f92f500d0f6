// C09: dimIndex elements.
//@ include parser.rs
//@ include dimtext.rs
//@ item svd-parser/src/dimelement.rs DimIndex
// proved in unit dim
//@ module svd::dimelement
use crate::spec::*;
//@ fn svd-rs/src/dimelement.rs DimElement::parse_indexes -> r
    ensures indexes_of(text@, texts_of(r)),
//@ trusted
//@ endfn
//@ module spec
use crate::parser::elementext::*;
// the index list a text denotes
pub open spec fn dim_index_of(s: Seq<char>) -> Option<Vec<String>> { choose|r: Option<Vec<String>>| indexes_of(s, texts_of(r)) }
pub proof fn lemma_dim_index(s: Seq<char>, r: Option<Vec<String>>)
    requires indexes_of(s, texts_of(r)),
    ensures dim_index_of(s) == r,
{
    broadcast use crate::ax::vx_axioms;
    let q = dim_index_of(s);
    assert(indexes_of(s, texts_of(q)));
    if !no_char(s, '-') {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == '-';
        lemma_has_first_dash(s, i);
    }
    assert(texts_of(q) == texts_of(r));
    if r is Some && q is Some {
        assert forall|i: int| 0 <= i < r->0@.len() implies #[trigger] r->0@[i] == q->0@[i] by {
            assert(texts_of(r)->0[i] == r->0@[i]@);
            assert(texts_of(q)->0[i] == q->0@[i]@);
        }
        assert(texts_of(r)->0.len() == texts_of(q)->0.len());
        assert(r->0@ =~= q->0@);
    }
}
pub proof fn lemma_has_first_dash(s: Seq<char>, i: int)
    requires 0 <= i < s.len(), s[i] == '-',
    ensures exists|k: int| #[trigger] first_dash(s, k),
    decreases i,
{
    if no_char(s.take(i), '-') { assert(first_dash(s, i)); }
    else {
        let j = choose|j: int| 0 <= j < i && #[trigger] s.take(i)[j] == '-';
        lemma_has_first_dash(s, j);
    }
}
use crate::parser::dimelement::*;
impl Reads for DimIndex {
    type Object = Vec<String>;
    type Config = Config;
    open spec fn reads(x: X, c: Config) -> Option<Vec<String>> { match el_text(x) { Some(t) => dim_index_of(t), None => None } }
}
//@ fn svd-parser/src/dimelement.rs <DimIndex as Parse>::parse as-trait -> r
//@ impltext
    open spec fn says(x: X, c: Config, r: Option<Vec<String>>) -> bool { r == <DimIndex as Reads>::reads(x, c) }
//@ start
    proof {
        if el_text(tree.x()) is Some {
            let t = el_text(tree.x())->0;
            assert forall|r: Option<Vec<String>>| #[trigger] indexes_of(t, texts_of(r)) implies dim_index_of(t) == r by { lemma_dim_index(t, r); }
        }
    }
//@ endfn
