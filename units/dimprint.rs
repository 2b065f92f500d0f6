// Shared: printing the indexes of an array, and reading them back.
//@ include dimtext.rs
//@ include dimidx.rs
//@ module spec
// the indexes are the canonical decimals a, a + 1, ..
pub open spec fn counts_from(d: DimElement, a: int) -> bool {
    d.dim >= 1 && 0 <= a && a + d.dim - 1 <= u32::MAX && forall|i: int| 0 <= i < d.dim ==> #[trigger] index_of(d, i) == dec((a + i) as nat)
}
// ---------------------------------------------------------------- printing and reading back
pub open spec fn join(v: Seq<Seq<char>>, c: char) -> Seq<char>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { v[0] + seq![c] + join(v.drop_first(), c) }
}
// a list of indexes that a comma-separated text can state
pub open spec fn plain_list(v: Seq<Seq<char>>) -> bool { v.len() >= 1 && forall|i: int| 0 <= i < v.len() ==> no_char(#[trigger] v[i], ',') && no_char(v[i], '-') }
pub proof fn lemma_join(v: Seq<Seq<char>>)
    requires plain_list(v),
    ensures split_char(join(v, ','), ',') == v, no_char(join(v, ','), '-'),
    decreases v.len(),
{
    let j = join(v, ',');
    assert(no_char(v[0], ','));
    if v.len() == 1 {
        lemma_split_none(v[0], ',');
        assert(v =~= seq![v[0]]);
    } else {
        let w = v.drop_first();
        assert forall|i: int| 0 <= i < w.len() implies no_char(#[trigger] w[i], ',') && no_char(w[i], '-') by { assert(w[i] == v[i + 1]); }
        lemma_join(w);
        lemma_split_first(v[0], ',', join(w, ','));
        assert(seq![v[0]] + w =~= v);
        assert forall|i: int| 0 <= i < j.len() implies #[trigger] j[i] != '-' by {
            if i < v[0].len() { assert(v[0][i] == j[i]); } else if i > v[0].len() { assert(join(w, ',')[i - v[0].len() - 1] == j[i]); }
        }
    }
}
// C09: a list printed as text (as a range when it is one) is read back as that list
pub proof fn lemma_printed_list_reads_back(d: DimElement, r: Option<Seq<Seq<char>>>)
    requires
        d.dim_index is Some, d.dim_index->0@.len() == d.dim,
    ensures
        forall|a: int| #[trigger] counts_from(d, a) && indexes_of(dec(a as nat) + seq!['-'] + dec((a + d.dim - 1) as nat), r) ==> r == texts_of(d.dim_index),
        plain_list(texts_of(d.dim_index)->0) && indexes_of(join(texts_of(d.dim_index)->0, ','), r) ==> r == texts_of(d.dim_index),
{
    let l = texts_of(d.dim_index)->0;
    assert forall|a: int| #[trigger] counts_from(d, a) && indexes_of(dec(a as nat) + seq!['-'] + dec((a + d.dim - 1) as nat), r) implies r == texts_of(d.dim_index) by {
        let (x, y) = (dec(a as nat), dec((a + d.dim - 1) as nat));
        let t = x + seq!['-'] + y;
        lemma_digits(a as nat, 10, false);
        lemma_digits((a + d.dim - 1) as nat, 10, false);
        assert(no_char(x, '-'));
        lemma_first_dash(t, x, y);
        assert(t[x.len() as int] == '-' && t.take(x.len() as int) =~= x);
        assert(first_dash(t, x.len() as int));
        assert(r == nonempty(dec_range(a, a + d.dim - 1)));
        assert forall|i: int| 0 <= i < d.dim implies #[trigger] l[i] == dec((a + i) as nat) by { assert(index_of(d, i) == dec((a + i) as nat)); }
        assert(dec_range(a, a + d.dim - 1) =~= l);
    }
    if plain_list(l) { lemma_join(l); }
}
