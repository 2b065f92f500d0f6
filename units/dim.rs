// C09: dimIndex texts; the indexes of an array.
//@ include common.rs
//@ include text.rs
//@ include iter_ax.rs
//@ include dimtext.rs
//@ include dimprint.rs
//@ fn svd-rs/src/dimelement.rs DimElement::parse_indexes -> r
    ensures indexes_of(text@, texts_of(r)),
//@ opt map-iter
//@ start
broadcast use {crate::ax::vx_axioms_dim, crate::ax::vx_axioms_text, crate::ax::vx_axioms_str, crate::ax::ax_range_empty};
    proof {
        lemma_contains_char(text@, '-');
        lemma_split_len(text@, ',');
        assert forall|a: Seq<char>, b: Seq<char>| text@ == #[trigger] (a + seq!['-'] + b) && split_char(a, '-') == seq![a] implies
            !no_char(text@, '-') && forall|k: int| #[trigger] first_dash(text@, k) ==> k == a.len() && text@.take(k) == a && text@.skip(k + 1) == b by {
            lemma_no_char(a, '-');
            lemma_first_dash(text@, a, b);
        }
        if split_char(text@, '-') == seq![text@] { lemma_no_char(text@, '-'); }
    }
//@ before if let (Ok
    let ghost (sa, sb) = (start@, end@);
    assert(forall|m: Seq<char>| #[trigger] '-'.front(m) == Some(m.len()) ==> m =~= seq!['-']);
    assert(text@ == sa + seq!['-'] + sb);
    proof { lemma_one_byte(sa); lemma_one_byte(sb); }
//@ result
    proof {
        let t = texts_of(vx_ret);
        if no_char(text@, '-') { assert(t->0 =~= split_char(text@, ',')); }
        else {
            assert forall|k: int| #[trigger] first_dash(text@, k) implies t == range_of(text@.take(k), text@.skip(k + 1)) by {
                let (a, b) = (text@.take(k), text@.skip(k + 1));
                lemma_one_byte(a);
                lemma_one_byte(b);
                match (fit(rust_uint(a, 10), u32::MAX as nat), fit(rust_uint(b, 10), u32::MAX as nat)) {
                    (Some(x), Some(y)) => { if x <= y { assert(t is Some); assert(t->0 =~= dec_range(x as int, y as int)); } else { assert(t is None); } },
                    _ => {
                        if a.len() == 1 && b.len() == 1 && (is_lower_letter(a[0]) && is_lower_letter(b[0]) || is_upper_letter(a[0]) && is_upper_letter(b[0])) {
                            if a[0] as int <= b[0] as int { assert(t is Some); assert(t->0 =~= letter_range(a[0] as int, b[0] as int)); } else { assert(t is None); }
                        } else { assert(t is None); }
                    }
                }
            }
        }
    }
//@ closure 0
|i: u32| -> (s: String) ensures s@ == dec(i as nat)
//@ closure 1
|c: u8| -> (s: String) ensures s@ == seq![c as char]
//@ closure 2
|s: &str| -> (t: String) ensures t@ == s@
//@ endfn
//@ module spec
// the smallest / largest item of an iterator over numbers
pub trait IterShim<'a>: Sized {
    #[verifier::prophetic]
    spec fn items(self) -> Seq<&'a u32>;
    fn vx_min(self) -> (r: Option<&'a u32>)
        ensures
            r is None <==> self.items().len() == 0,
            r matches Some(m) ==> self.items().contains(m) && forall|i: int| 0 <= i < self.items().len() ==> *m <= *(#[trigger] self.items()[i]),
    ;
    fn vx_max(self) -> (r: Option<&'a u32>)
        ensures
            r is None <==> self.items().len() == 0,
            r matches Some(m) ==> self.items().contains(m) && forall|i: int| 0 <= i < self.items().len() ==> *(#[trigger] self.items()[i]) <= *m,
    ;
}
impl<'a> IterShim<'a> for core::slice::Iter<'a, u32> {
    #[verifier::prophetic]
    open spec fn items(self) -> Seq<&'a u32> { self.remaining() }
    #[verifier::external_body]
    fn vx_min(self) -> (r: Option<&'a u32>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_max(self) -> (r: Option<&'a u32>) { unimplemented!() }
}
//@ fn svd-rs/src/dimelement.rs DimElement::indexes_as_range -> r
    requires dim_ok(*self),
    ensures
        r matches Some(x) ==> counts_from(*self, x@.start as int) && x@.end == x@.start + self.dim - 1 && !x@.exhausted,
//@ start
broadcast use {crate::ax::vx_axioms_dim, crate::ax::vx_axioms_cow, crate::ax::vx_axioms_text, crate::ax::vx_axioms_str, crate::ax::ax_range_empty};
//@ beforeloop 0
    let ghost full = it.remaining();
//@ loop 0 desugar iter it
    invariant_except_break
        it_on(&it, full),
        integers@.len() == it_pos(&it, full),
        forall|i: int| 0 <= i < integers@.len() ==> index_of(*self, i) == dec((#[trigger] integers@[i]) as nat),
    invariant
        full.len() == self.dim,
        forall|i: int| 0 <= i < full.len() ==> cow_text(#[trigger] full[i]) == index_of(*self, i),
    ensures
        integers@.len() == self.dim,
        forall|i: int| 0 <= i < integers@.len() ==> index_of(*self, i) == dec((#[trigger] integers@[i]) as nat),
    decreases it_dec(&it)
//@ loopstart 0
    broadcast use {crate::ax::vx_axioms_dim, crate::ax::vx_axioms_cow};
    assert(idx == full[it_pos(&it, full) - 1]);
    assert(cow_text(idx) == index_of(*self, integers@.len() as int));
//@ beforeloop 1
    let ghost full2 = it2.remaining();
    assert(min <= max);
    assert(full2.len() == self.dim);
    assert forall|i: int| 0 <= i < full2.len() implies *(#[trigger] full2[i]).0 == integers@[i] && full2[i].1 == min + i by {}
//@ loop 1 desugar iter it2
    invariant_except_break
        it_on(&it2, full2),
        forall|i: int| 0 <= i < it_pos(&it2, full2) ==> #[trigger] integers@[i] == min + i,
    invariant
        full2.len() == self.dim,
        integers@.len() == self.dim,
        forall|i: int| 0 <= i < full2.len() ==> *(#[trigger] full2[i]).0 == integers@[i] && full2[i].1 == min + i,
    ensures
        forall|i: int| 0 <= i < integers@.len() ==> #[trigger] integers@[i] == min + i,
    decreases it_dec(&it2)
//@ loopstart 1
    assert(r == full2[it_pos(&it2, full2) - 1].1);
//@ afterloop 1
    assert forall|i: int| 0 <= i < self.dim implies #[trigger] index_of(*self, i) == dec((min + i) as nat) by { assert(integers@[i] == min + i); }
//@ endfn
