// C10: numbers and booleans.
//@ include parser.rs
//@ module ax
// no character outside ASCII has a lower-case form that reads as part of a binary number
pub broadcast axiom fn ax_lower_other(c: char)
    requires c as u32 > 0x7f,
    ensures (#[trigger] lower_other(c)).len() > 0, forall|i: int| 0 <= i < lower_other(c).len() ==> { let d = #[trigger] lower_other(c)[i]; d != '0' && d != '1' && d != 'x' && d != '+' },
;
//@ module spec
pub open spec fn x_to_0(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| if c == 'x' { '0' } else { c }) }
pub proof fn lemma_replace_x(s: Seq<char>)
    ensures replace_all(s, seq!['x'], seq!['0']) == x_to_0(s),
    decreases s.len(),
{
    let t = seq!['x'];
    if s.len() > 0 {
        lemma_replace_x(s.drop_first());
        if t.is_prefix_of(s) {
            assert(s.subrange(0, 1)[0] == t[0]);
            assert(s.skip(1) =~= s.drop_first());
        } else if s[0] == 'x' {
            assert(s.subrange(0, 1) =~= t);
        }
        assert(replace_all(s, t, seq!['0']) =~= x_to_0(s)) by { assert(x_to_0(s)[0] == if s[0] == 'x' { '0' } else { s[0] }); assert(x_to_0(s).drop_first() =~= x_to_0(s.drop_first())); }
    } else { assert(replace_all(s, t, seq!['0']) =~= x_to_0(s)); }
}
// characters that may not occur in a binary number
pub open spec fn bad(c: char) -> bool { digit(c, 2) is None }
pub proof fn lemma_num_bad(s: Seq<char>, i: int)
    requires 0 <= i < s.len(), bad(s[i]),
    ensures num(s, 2) is None,
    decreases s.len(),
{
    if i < s.len() - 1 { lemma_num_bad(s.drop_last(), i); }
}
pub proof fn lemma_lower_ascii(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 0x7f,
    ensures lower(s) == s.map_values(|c: char| ascii_lower(c)),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_first().len() implies (#[trigger] s.drop_first()[i]) as u32 <= 0x7f by { assert(s[i + 1] as u32 <= 0x7f); }
        lemma_lower_ascii(s.drop_first());
        assert(lower(s) =~= s.map_values(|c: char| ascii_lower(c)));
    } else { assert(lower(s) =~= s.map_values(|c: char| ascii_lower(c))); }
}
pub proof fn lemma_lower_cat(a: Seq<char>, b: Seq<char>)
    ensures lower(a + b) == lower(a) + lower(b),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); assert(lower(a) + lower(b) =~= lower(b)); }
    else { lemma_lower_cat(a.drop_first(), b); assert((a + b).drop_first() =~= a.drop_first() + b); assert(lower(a + b) =~= lower(a) + lower(b)); }
}
// a bad character of s (not `+`) outlives lowering
pub proof fn lemma_lower_at(s: Seq<char>, i: int)
    requires 0 <= i < s.len(),
    ensures exists|k: int| i <= k < lower(s).len() && lower_char(s[i]).len() > 0 && #[trigger] lower(s)[k] == lower_char(s[i])[0], lower(s).len() >= s.len(), i == 0 ==> lower(s)[0] == lower_char(s[0])[0],
    decreases s.len(),
{
    broadcast use crate::ax::ax_lower_other;
    let a = lower_char(s[0]);
    assert(a.len() > 0);
    let r = lower(s.drop_first());
    if i == 0 { assert(lower(s)[0] == a[0]); if s.len() > 1 { lemma_lower_at(s.drop_first(), 0); } }
    else {
        lemma_lower_at(s.drop_first(), i - 1);
        let k = choose|k: int| i - 1 <= k < r.len() && #[trigger] r[k] == lower_char(s.drop_first()[i - 1])[0];
        assert(lower(s)[k + a.len()] == r[k]);
    }
}
pub proof fn lemma_bin_body(s: Seq<char>)
    ensures num(x_to_0(lower(s)), 2) == num(bin_care(s), 2),
{
    broadcast use crate::ax::ax_lower_other;
    if forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 0x7f {
        lemma_lower_ascii(s);
        let a = x_to_0(lower(s));
        let b = bin_care(s);
        if forall|i: int| 0 <= i < s.len() ==> !bad(#[trigger] b[i]) {
            assert(a =~= b) by {
                assert forall|i: int| 0 <= i < s.len() implies a[i] == b[i] by { assert(!bad(b[i])); }
            }
        } else {
            let i = choose|i: int| 0 <= i < s.len() && bad(#[trigger] b[i]);
            lemma_num_bad(b, i);
            assert(bad(a[i]));
            lemma_num_bad(a, i);
        }
    } else {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]) as u32 > 0x7f;
        assert(bin_care(s)[i] == s[i]);
        lemma_num_bad(bin_care(s), i);
        lemma_lower_at(s, i);
        let l = lower(s);
        let k = choose|k: int| i <= k < l.len() && #[trigger] l[k] == lower_char(s[i])[0];
        assert(bad(l[k]) && l[k] != 'x');
        assert(x_to_0(l)[k] == l[k]);
        lemma_num_bad(x_to_0(l), k);
    }
}
// lowering and replacing x reads a binary number as replacing its don't-care digits does
pub proof fn lemma_bin(s: Seq<char>)
    ensures rust_uint(replace_all(lower(s), seq!['x'], seq!['0']), 2) == rust_uint(bin_care(s), 2),
{
    broadcast use crate::ax::ax_lower_other;
    lemma_replace_x(lower(s));
    lemma_bin_body(s);
    if s.len() > 0 {
        lemma_lower_at(s, 0);
        if s[0] == '+' {
            lemma_bin_body(s.drop_first());
            assert(lower(s) =~= seq!['+'] + lower(s.drop_first()));
            assert(x_to_0(lower(s)).drop_first() =~= x_to_0(lower(s.drop_first())));
            assert(bin_care(s).drop_first() =~= bin_care(s.drop_first()));
        } else {
            assert(lower(s)[0] != '+');
        }
    }
}
// what the parser computes for a text with prefix p
pub proof fn lemma_cut_low(s: Seq<char>, p: Seq<char>)
    requires p.is_prefix_of(s), p == "#"@ || p == "0b"@,
    ensures
        lower(s).len() >= p.len(),
        lower(s).skip(p.len() as int) == lower(s.skip(p.len() as int)),
        blen(p) == p.len(),
        blen(lower(s)) >= p.len(),
        is_char_boundary(encode_utf8(lower(s)), p.len() as int),
        is_char_boundary(encode_utf8(lower(s)), blen(lower(s)) as int),
        encode_utf8(lower(s)).subrange(p.len() as int, blen(lower(s)) as int) == encode_utf8(lower(s.skip(p.len() as int))),
{
    reveal_strlit("#"); reveal_strlit("0b");
    let r = s.skip(p.len() as int);
    assert(s =~= p + r);
    lemma_lower_cat(p, r);
    lemma_lower_ascii(p);
    assert(lower(p) =~= p);
    assert(lower(s) == p + lower(r));
    assert(lower(s).skip(p.len() as int) =~= lower(r));
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] lower(s)[i]) as u32 <= 0x7f by { assert(lower(s)[i] == p[i]); }
    lemma_cut_front(lower(s), p.len() as int);
    lemma_blen_ascii(p);
}
pub proof fn lemma_cut_pre(s: Seq<char>, p: Seq<char>)
    requires p.is_prefix_of(s), p == "0x"@ || p == "0X"@ || p == "#"@ || p == "0b"@,
    ensures
        blen(p) == p.len(),
        blen(s) >= p.len(),
        is_char_boundary(encode_utf8(s), p.len() as int),
        is_char_boundary(encode_utf8(s), blen(s) as int),
        encode_utf8(s).subrange(p.len() as int, blen(s) as int) == encode_utf8(s.skip(p.len() as int)),
{
    reveal_strlit("0x"); reveal_strlit("0X"); reveal_strlit("#"); reveal_strlit("0b");
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] s[i]) as u32 <= 0x7f by { assert(s[i] == p[i]); }
    lemma_cut_front(s, p.len() as int);
    lemma_blen_ascii(p);
}
impl Reads for u32 {
    type Object = u32;
    type Config = ();
    open spec fn reads(x: X, c: ()) -> Option<u32> {
        match el_text(x) {
            Some(t) => match fit(number(t), u32::MAX as nat) { Some(n) => Some(n as u32), None => None },
            None => None,
        }
    }
}
//@ fn svd-parser/src/types.rs <u32 as Parse>::parse as-trait -> r
//@ opt result
//@ impltext
    open spec fn says(x: X, c: (), r: Option<u32>) -> bool { r == <u32 as Reads>::reads(x, c) }
//@ start
broadcast use {crate::spec::lemma_utf8_inj_b, crate::ax::vx_axioms_text, crate::ax::vx_axioms_str};
proof {
    reveal_strlit("#"); reveal_strlit("0"); reveal_strlit("0X"); reveal_strlit("0b"); reveal_strlit("0x"); reveal_strlit("x");
    let s = el_text(tree.x());
    if s is Some {
        let s = s->0;
        let hash = "#"@;
        if "0x"@.is_prefix_of(s) { lemma_cut_pre(s, "0x"@); }
        if "0X"@.is_prefix_of(s) { lemma_cut_pre(s, "0X"@); lemma_blen_ascii("0x"@); }
        if hash.is_prefix_of(s) { lemma_cut_pre(s, hash); lemma_cut_low(s, hash); lemma_bin(s.skip(1)); }
        if "0b"@.is_prefix_of(s) { lemma_cut_pre(s, "0b"@); lemma_cut_low(s, "0b"@); lemma_bin(s.skip(2)); }
        assert("x"@ =~= seq!['x']);
        assert("0"@ =~= seq!['0']);
        assert(hash =~= seq!['#']);
        assert(hash.is_prefix_of(s) <==> s.len() > 0 && s[0] == '#') by {
            if s.len() > 0 && s[0] == '#' { assert(s.subrange(0, 1) =~= hash); }
            if hash.is_prefix_of(s) { assert(s.subrange(0, 1)[0] == '#'); }
        }
    }
}
//@ endfn
impl Reads for u64 {
    type Object = u64;
    type Config = ();
    open spec fn reads(x: X, c: ()) -> Option<u64> {
        match el_text(x) {
            Some(t) => match fit(number(t), u64::MAX as nat) { Some(n) => Some(n as u64), None => None },
            None => None,
        }
    }
}
//@ fn svd-parser/src/types.rs <u64 as Parse>::parse as-trait -> r
//@ opt result
//@ impltext
    open spec fn says(x: X, c: (), r: Option<u64>) -> bool { r == <u64 as Reads>::reads(x, c) }
//@ start
broadcast use {crate::spec::lemma_utf8_inj_b, crate::ax::vx_axioms_text, crate::ax::vx_axioms_str};
proof {
    reveal_strlit("#"); reveal_strlit("0"); reveal_strlit("0X"); reveal_strlit("0b"); reveal_strlit("0x"); reveal_strlit("x");
    let s = el_text(tree.x());
    if s is Some {
        let s = s->0;
        let hash = "#"@;
        if "0x"@.is_prefix_of(s) { lemma_cut_pre(s, "0x"@); }
        if "0X"@.is_prefix_of(s) { lemma_cut_pre(s, "0X"@); lemma_blen_ascii("0x"@); }
        if hash.is_prefix_of(s) { lemma_cut_pre(s, hash); lemma_cut_low(s, hash); lemma_bin(s.skip(1)); }
        if "0b"@.is_prefix_of(s) { lemma_cut_pre(s, "0b"@); lemma_cut_low(s, "0b"@); lemma_bin(s.skip(2)); }
        assert("x"@ =~= seq!['x']);
        assert("0"@ =~= seq!['0']);
        assert(hash =~= seq!['#']);
        assert(hash.is_prefix_of(s) <==> s.len() > 0 && s[0] == '#') by {
            if s.len() > 0 && s[0] == '#' { assert(s.subrange(0, 1) =~= hash); }
            if hash.is_prefix_of(s) { assert(s.subrange(0, 1)[0] == '#'); }
        }
    }
}
//@ endfn
impl Reads for BoolParse {
    type Object = bool;
    type Config = ();
    open spec fn reads(x: X, c: ()) -> Option<bool> {
        match el_text(x) { Some(t) => boolean(t), None => None }
    }
}
//@ fn svd-parser/src/types.rs <BoolParse as Parse>::parse as-trait -> r
//@ impltext
    open spec fn says(x: X, c: (), r: Option<bool>) -> bool { r == <BoolParse as Reads>::reads(x, c) }
//@ start
broadcast use {crate::spec::lemma_utf8_inj_b, crate::ax::vx_axioms_text, crate::ax::vx_axioms_str};
proof { reveal_strlit("true"); reveal_strlit("false");
    assert("true"@.len() == 4 && "false"@.len() == 5 && "0"@.len() == 1 && "1"@.len() == 1 && "0"@[0] == '0' && "1"@[0] == '1'); }
//@ endfn
//@ fn svd-parser/src/elementext.rs <Node<'_, '_> as ElementExt>::get_child_u32 -> r
    ensures
        r matches Ok(v) ==> child_reads::<u32>(self.x(), n@, ()) == Some(v),
        r is Err ==> child_reads::<u32>(self.x(), n@, ()) is None,
//@ endfn
//@ fn svd-parser/src/elementext.rs <Node<'_, '_> as ElementExt>::get_child_u64 -> r
    ensures
        r matches Ok(v) ==> child_reads::<u64>(self.x(), n@, ()) == Some(v),
        r is Err ==> child_reads::<u64>(self.x(), n@, ()) is None,
//@ endfn
//@ fn svd-parser/src/elementext.rs <Node<'_, '_> as ElementExt>::get_child_bool -> r
    ensures
        r matches Ok(v) ==> child_reads::<BoolParse>(self.x(), n@, ()) == Some(v),
        r is Err ==> child_reads::<BoolParse>(self.x(), n@, ()) is None,
//@ endfn
