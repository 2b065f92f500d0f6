// C18: traversals and lookups.
//@ include strings.rs
//@ include iters.rs
//@ module spec
pub open spec fn p_reg(n: Seq<char>) -> spec_fn(Register) -> bool { |v: Register| info_of(v).name@ == n }
pub open spec fn p_cluster(n: Seq<char>) -> spec_fn(Cluster) -> bool { |v: Cluster| info_of(v).name@ == n }
pub open spec fn p_field(n: Seq<char>) -> spec_fn(Field) -> bool { |v: Field| info_of(v).name@ == n }
pub open spec fn p_periph(n: Seq<char>) -> spec_fn(Peripheral) -> bool { |v: Peripheral| info_of(v).name@ == n }
pub open spec fn p_int(n: Seq<char>) -> spec_fn(Interrupt) -> bool { |v: Interrupt| v.name@ == n }
//@ fn svd-rs/src/peripheral.rs PeripheralInfo::get_register -> r
    ensures found(regs_of(children_of(*self)), p_reg(name@), r),
//@ find 0
    let ghost full = vx_f.remaining();
    assert forall|j: int| 0 <= j < regs_of(children_of(*self)).len() implies #[trigger] regs_of(children_of(*self))[j] == *full[j] by { assert(vals(full)[j] == *full[j]); }
//@ found 0
    proof { if vx_r is Some { assert(first_is(regs_of(children_of(*self)), p_reg(name@), full.len() - vx_f.remaining().len() - 1)); } }
//@ closure 0
|f: &&Register| -> (b: bool) ensures b == (info_of(**f).name@ == name@)
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfo::get_cluster -> r
    ensures found(clusters_of(children_of(*self)), p_cluster(name@), r),
//@ find 0
    let ghost full = vx_f.remaining();
    assert forall|j: int| 0 <= j < clusters_of(children_of(*self)).len() implies #[trigger] clusters_of(children_of(*self))[j] == *full[j] by { assert(vals(full)[j] == *full[j]); }
//@ found 0
    proof { if vx_r is Some { assert(first_is(clusters_of(children_of(*self)), p_cluster(name@), full.len() - vx_f.remaining().len() - 1)); } }
//@ closure 0
|f: &&Cluster| -> (b: bool) ensures b == (info_of(**f).name@ == name@)
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfo::get_interrupt -> r
    ensures found(self.interrupt@, p_int(name@), r),
//@ find 0
    let ghost full = vx_f.remaining();
    assert forall|j: int| 0 <= j < self.interrupt@.len() implies #[trigger] self.interrupt@[j] == *full[j] by { assert(vals(full)[j] == *full[j]); }
//@ found 0
    proof { if vx_r is Some { assert(first_is(self.interrupt@, p_int(name@), full.len() - vx_f.remaining().len() - 1)); } }
//@ closure 0
|e: &&Interrupt| -> (b: bool) ensures b == ((**e).name@ == name@)
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfo::get_register -> r
    ensures found(regs_of(self.children@), p_reg(name@), r),
//@ find 0
    let ghost full = vx_f.remaining();
    assert forall|j: int| 0 <= j < regs_of(self.children@).len() implies #[trigger] regs_of(self.children@)[j] == *full[j] by { assert(vals(full)[j] == *full[j]); }
//@ found 0
    proof { if vx_r is Some { assert(first_is(regs_of(self.children@), p_reg(name@), full.len() - vx_f.remaining().len() - 1)); } }
//@ closure 0
|f: &&Register| -> (b: bool) ensures b == (info_of(**f).name@ == name@)
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfo::get_cluster -> r
    ensures found(clusters_of(self.children@), p_cluster(name@), r),
//@ find 0
    let ghost full = vx_f.remaining();
    assert forall|j: int| 0 <= j < clusters_of(self.children@).len() implies #[trigger] clusters_of(self.children@)[j] == *full[j] by { assert(vals(full)[j] == *full[j]); }
//@ found 0
    proof { if vx_r is Some { assert(first_is(clusters_of(self.children@), p_cluster(name@), full.len() - vx_f.remaining().len() - 1)); } }
//@ closure 0
|f: &&Cluster| -> (b: bool) ensures b == (info_of(**f).name@ == name@)
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfo::get_field -> r
    ensures found(fields_of(*self), p_field(name@), r),
//@ find 0
    let ghost full = vx_f.remaining();
    assert forall|j: int| 0 <= j < fields_of(*self).len() implies #[trigger] fields_of(*self)[j] == *full[j] by { assert(vals(full)[j] == *full[j]); }
//@ found 0
    proof { if vx_r is Some { assert(first_is(fields_of(*self), p_field(name@), full.len() - vx_f.remaining().len() - 1)); } }
//@ closure 0
|f: &&Field| -> (b: bool) ensures b == (info_of(**f).name@ == name@)
//@ endfn
//@ fn svd-rs/src/device.rs Device::get_peripheral -> r
    ensures found(self.peripherals@, p_periph(name@), r),
//@ find 0
    let ghost full = vx_f.remaining();
    assert forall|j: int| 0 <= j < self.peripherals@.len() implies #[trigger] self.peripherals@[j] == *full[j] by { assert(vals(full)[j] == *full[j]); }
//@ found 0
    proof { if vx_r is Some { assert(first_is(self.peripherals@, p_periph(name@), full.len() - vx_f.remaining().len() - 1)); } }
//@ closure 0
|f: &&Peripheral| -> (b: bool) ensures b == (info_of(**f).name@ == name@)
//@ endfn
//@ module spec
// elements of the trees s
pub open spec fn size_to(s: Seq<RegisterCluster>, n: nat) -> nat
    decreases s, n,
{
    if n == 0 || n > s.len() { 0 } else {
        size_to(s, (n - 1) as nat) + 1 + match s[n - 1] {
            RegisterCluster::Register(r) => 0,
            RegisterCluster::Cluster(MaybeArray::Single(c)) => size_to(c.children@, c.children@.len()),
            RegisterCluster::Cluster(MaybeArray::Array(c, _)) => size_to(c.children@, c.children@.len()),
        }
    }
}
pub open spec fn size_of_all(s: Seq<RegisterCluster>) -> nat { size_to(s, s.len()) }
pub proof fn lemma_prefix(s: Seq<RegisterCluster>, t: Seq<RegisterCluster>, n: nat)
    requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> s[i] == t[i],
    ensures all_regs_to(s, n) == all_regs_to(t, n), size_to(s, n) == size_to(t, n),
    decreases n,
{
    if n > 0 { lemma_prefix(s, t, (n - 1) as nat); }
}
pub proof fn lemma_concat(s: Seq<RegisterCluster>, t: Seq<RegisterCluster>)
    ensures all_regs(s + t) == all_regs(s) + all_regs(t), size_of_all(s + t) == size_of_all(s) + size_of_all(t),
    decreases t.len(),
{
    if t.len() == 0 {
        assert(s + t =~= s);
        assert(all_regs(s) + all_regs(t) =~= all_regs(s));
    } else {
        let u = t.drop_last();
        lemma_concat(s, u);
        let a = s + t;
        assert(a.drop_last() =~= s + u);
        lemma_prefix(a, s + u, (a.len() - 1) as nat);
        lemma_prefix(t, u, (t.len() - 1) as nat);
        assert(a[a.len() - 1] == t[t.len() - 1]);
        assert(all_regs(a) =~= all_regs(s) + all_regs(t));
    }
}
pub open spec fn kids(c: Cluster) -> Seq<RegisterCluster> { info_of(c).children@ }
pub proof fn lemma_one(x: RegisterCluster)
    ensures
        x matches RegisterCluster::Register(r) ==> all_regs(seq![x]) == seq![r],
        x matches RegisterCluster::Cluster(c) ==> all_regs(seq![x]) == all_regs(kids(c)) && size_of_all(seq![x]) == 1 + size_of_all(kids(c)),
        size_of_all(seq![x]) >= 1,
{
    let s = seq![x];
    assert(all_regs_to(s, 0) =~= Seq::empty());
    assert(size_to(s, 0) == 0);
    assert(all_regs_to(s, 1) == all_regs_to(s, 0) + match x {
            RegisterCluster::Register(r) => seq![r],
            RegisterCluster::Cluster(MaybeArray::Single(c)) => all_regs_to(c.children@, c.children@.len()),
            RegisterCluster::Cluster(MaybeArray::Array(c, _)) => all_regs_to(c.children@, c.children@.len()),
        });
    assert(all_regs(s) =~= match x {
            RegisterCluster::Register(r) => seq![r],
            RegisterCluster::Cluster(c) => all_regs(kids(c)),
        });
}
// the pending trees, the next one last
pub open spec fn pending(s: Seq<RegisterCluster>) -> Seq<RegisterCluster> { s.reverse() }
pub proof fn lemma_pop(s: Seq<RegisterCluster>)
    requires s.len() > 0,
    ensures
        all_regs(pending(s)) == all_regs(seq![s.last()]) + all_regs(pending(s.drop_last())),
        size_of_all(pending(s)) == size_of_all(seq![s.last()]) + size_of_all(pending(s.drop_last())),
{
    assert(pending(s) =~= seq![s.last()] + pending(s.drop_last()));
    lemma_concat(seq![s.last()], pending(s.drop_last()));
}
pub proof fn lemma_push_rev(s: Seq<RegisterCluster>, k: Seq<RegisterCluster>)
    ensures
        all_regs(pending(s + k.reverse())) == all_regs(k) + all_regs(pending(s)),
        size_of_all(pending(s + k.reverse())) == size_of_all(k) + size_of_all(pending(s)),
{
    assert(pending(s + k.reverse()) =~= k + pending(s));
    lemma_concat(k, pending(s));
}
//@ module svd::registercluster
//@ fn svd-rs/src/registercluster.rs <AllRegistersIter<'a> as Iterator>::next -> r
    ensures
        match r {
            Some(x) => all_regs(pending(vals(old(self).rem@))) == seq![*x] + all_regs(pending(vals(final(self).rem@))),
            None => all_regs(pending(vals(old(self).rem@))).len() == 0 && final(self).rem@.len() == 0,
        },
//@ sigsubst Option<Self::Item> =>> Option<&'a Register>
//@ start
    broadcast use {vstd::std_specs::iter::rev_postcondition, crate::ax::ax_slice_iter_ends};
    let ghost want = all_regs(pending(vals(self.rem@)));
    let ghost size0 = size_of_all(pending(vals(self.rem@)));
//@ loop 0
    invariant
        want == all_regs(pending(vals(self.rem@))),
        want == all_regs(pending(vals(old(self).rem@))),
        size_of_all(pending(vals(self.rem@))) <= size0,
    ensures
        self.rem@.len() == 0,
    decreases size_of_all(pending(vals(self.rem@)))
//@ loopstart 0
    let ghost st = vals(self.rem@);
    proof {
        // the stack before this element was taken off it
        assert forall|x: Seq<&RegisterCluster>| x.len() > 0 && x.drop_last() == self.rem@ && *x.last() == *b implies #[trigger] vals(x) == st.push(*b) by {
            assert(vals(x) =~= st.push(*b));
        }
        lemma_pop(st.push(*b));
        lemma_one(*b);
        assert(st.push(*b).drop_last() =~= st);
        assert(want == all_regs(seq![*b]) + all_regs(pending(st)));
    }
//@ before return Some
    assert(want == seq![*reg] + all_regs(pending(st)));
//@ beforeloop 1
    let ghost full = it.remaining();
    assert(vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&it));
    assert(vstd::std_specs::iter::IteratorSpec::decrease(&it) is Some);
    assert(full.len() == kids(*cluster).len());
    let ghost k = kids(*cluster).reverse();
//@ loop 1 desugar iter it
    invariant_except_break
        it_on(&it, full),
        vals(self.rem@) =~= st + k.take(it_pos(&it, full)),
    invariant
        k == kids(*cluster).reverse(),
        full.len() == k.len(),
        forall|i: int| 0 <= i < full.len() ==> *(#[trigger] full[i]) == k[i],
    ensures
        vals(self.rem@) =~= st + k,
    decreases it_dec(&it)
//@ loopstart 1
    let ghost pos = it_pos(&it, full);
    assert(*c == k[pos - 1]);
    assert(k.take(pos) =~= k.take(pos - 1).push(k[pos - 1]));
    let ghost pre = self.rem@;
//@ loopend 1
    assert(vals(self.rem@) =~= vals(pre).push(*c));
    assert((st + k.take(pos - 1)).push(k[pos - 1]) =~= st + k.take(pos));
//@ afterloop 1
    proof { lemma_push_rev(st, kids(*cluster)); assert(vals(self.rem@) == st + k); }
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfo::all_registers -> r
    ensures all_regs(pending(vals(r.rem@))) == all_regs(children_of(*self)),
//@ result
    assert(pending(vals(vx_ret.rem@)) =~= children_of(*self));
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfo::all_registers -> r
    ensures all_regs(pending(vals(r.rem@))) == all_regs(self.children@),
//@ result
    assert(pending(vals(vx_ret.rem@)) =~= self.children@);
//@ endfn
//@ module spec
// the elements behind mutable references: now, and when the borrow ends
pub open spec fn cur<T>(s: Seq<&mut T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
#[verifier::prophetic]
pub open spec fn fin<T>(s: Seq<&mut T>) -> Seq<T> { Seq::new(s.len(), |i: int| *final(s[i])) }
//@ fn svd-rs/src/registercluster.rs <RegisterIterMut<'a> as Iterator>::next -> r
    ensures
        match r {
            Some(x) => {
                &&& regs_of(cur(old(self).all.remaining())) == seq![*x] + regs_of(cur(final(self).all.remaining()))
                &&& regs_of(fin(old(self).all.remaining())) == seq![*final(x)] + regs_of(fin(final(self).all.remaining()))
            },
            None => regs_of(cur(old(self).all.remaining())).len() == 0 && regs_of(fin(old(self).all.remaining())).len() == 0,
        },
    decreases it_dec(&old(self).all),
//@ sigsubst Option<Self::Item> =>> Option<&'a mut Register>
//@ start
    broadcast use crate::ax::ax_slice_iter_mut_ends;
    let ghost a = cur(self.all.remaining());
    let ghost b = fin(self.all.remaining());
    assert(self.all.remaining().len() > 0 ==> cur(self.all.remaining().drop_first()) =~= a.drop_first());
    assert(self.all.remaining().len() > 0 ==> fin(self.all.remaining().drop_first()) =~= b.drop_first());
//@ endfn
//@ fn svd-rs/src/registercluster.rs <ClusterIterMut<'a> as Iterator>::next -> r
    ensures
        match r {
            Some(x) => {
                &&& clusters_of(cur(old(self).all.remaining())) == seq![*x] + clusters_of(cur(final(self).all.remaining()))
                &&& clusters_of(fin(old(self).all.remaining())) == seq![*final(x)] + clusters_of(fin(final(self).all.remaining()))
            },
            None => clusters_of(cur(old(self).all.remaining())).len() == 0 && clusters_of(fin(old(self).all.remaining())).len() == 0,
        },
    decreases it_dec(&old(self).all),
//@ sigsubst Option<Self::Item> =>> Option<&'a mut Cluster>
//@ start
    broadcast use crate::ax::ax_slice_iter_mut_ends;
    let ghost a = cur(self.all.remaining());
    let ghost b = fin(self.all.remaining());
    assert(self.all.remaining().len() > 0 ==> cur(self.all.remaining().drop_first()) =~= a.drop_first());
    assert(self.all.remaining().len() > 0 ==> fin(self.all.remaining().drop_first()) =~= b.drop_first());
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfo::registers_mut -> r
    ensures
        cur(r.all.remaining()) =~= children_of(*old(self)),
        fin(r.all.remaining()) =~= children_of(*final(self)),
        *final(self) == (PeripheralInfo { registers: final(self).registers, ..*old(self) }),
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfo::clusters_mut -> r
    ensures
        cur(r.all.remaining()) =~= children_of(*old(self)),
        fin(r.all.remaining()) =~= children_of(*final(self)),
        *final(self) == (PeripheralInfo { registers: final(self).registers, ..*old(self) }),
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfo::registers_mut -> r
    ensures
        cur(r.all.remaining()) =~= old(self).children@,
        fin(r.all.remaining()) =~= final(self).children@,
        *final(self) == (ClusterInfo { children: final(self).children, ..*old(self) }),
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfo::clusters_mut -> r
    ensures
        cur(r.all.remaining()) =~= old(self).children@,
        fin(r.all.remaining()) =~= final(self).children@,
        *final(self) == (ClusterInfo { children: final(self).children, ..*old(self) }),
//@ endfn
//@ fn svd-rs/src/registercluster.rs <AllRegistersIterMut<'a> as Iterator>::next -> r
    ensures
        match r {
            Some(x) => {
                &&& all_regs(pending(cur(old(self).rem@))) == seq![*x] + all_regs(pending(cur(final(self).rem@)))
                &&& all_regs(pending(fin(old(self).rem@))) == seq![*final(x)] + all_regs(pending(fin(final(self).rem@)))
            },
            None => all_regs(pending(cur(old(self).rem@))).len() == 0 && all_regs(pending(fin(old(self).rem@))).len() == 0,
        },
//@ sigsubst Option<Self::Item> =>> Option<&'a mut Register>
//@ start
    broadcast use {vstd::std_specs::iter::rev_postcondition, crate::ax::ax_slice_iter_mut_ends};
    let ghost want = all_regs(pending(cur(self.rem@)));
    let ghost wantf = all_regs(pending(fin(self.rem@)));
//@ loop 0
    invariant
        want == all_regs(pending(cur(self.rem@))),
        want == all_regs(pending(cur(old(self).rem@))),
        wantf == all_regs(pending(fin(self.rem@))),
        wantf == all_regs(pending(fin(old(self).rem@))),
    ensures
        self.rem@.len() == 0,
    decreases size_of_all(pending(cur(self.rem@)))
//@ loopstart 0
    let ghost st = cur(self.rem@);
    let ghost stf = fin(self.rem@);
    let ghost bv = *b;
    let ghost bf = *final(b);
    assert forall|x: Seq<&mut RegisterCluster>| x.len() > 0 && x.drop_last() == self.rem@ && x.last() == b implies #[trigger] cur(x) == st.push(bv) by {
        assert(cur(x) =~= st.push(bv));
    }
    assert forall|x: Seq<&mut RegisterCluster>| x.len() > 0 && x.drop_last() == self.rem@ && x.last() == b implies #[trigger] fin(x) == stf.push(bf) by {
        assert(fin(x) =~= stf.push(bf));
    }
    proof {
        lemma_pop(st.push(bv));
        lemma_one(bv);
        assert(st.push(bv).drop_last() =~= st);
        assert(want == all_regs(seq![bv]) + all_regs(pending(st)));
    }
    assert(wantf == all_regs(seq![bf]) + all_regs(pending(stf))) by {
        lemma_pop(stf.push(bf));
        assert(stf.push(bf).drop_last() =~= stf);
    }
    assert(bf matches RegisterCluster::Register(r) ==> all_regs(seq![bf]) == seq![r]) by { lemma_one(bf); }
    assert(bf matches RegisterCluster::Cluster(c) ==> all_regs(seq![bf]) == all_regs(kids(c))) by { lemma_one(bf); }
//@ beforeloop 1
    let ghost full = it.remaining();
    let ghost k = kids(bv->Cluster_0).reverse();
    let ghost kf = fin(full);
//@ loop 1 desugar iter it
    invariant_except_break
        it_on(&it, full),
        cur(self.rem@) =~= st + k.take(it_pos(&it, full)),
        fin(self.rem@) =~= stf + kf.take(it_pos(&it, full)),
    invariant
        full.len() == k.len() == kf.len(),
        kf == fin(full),
        forall|i: int| 0 <= i < full.len() ==> *(#[trigger] full[i]) == k[i],
    ensures
        cur(self.rem@) =~= st + k,
        fin(self.rem@) =~= stf + kf,
    decreases it_dec(&it)
//@ loopstart 1
    let ghost pos = it_pos(&it, full);
    assert(*c == k[pos - 1]);
    assert(*final(c) == kf[pos - 1]);
    assert(k.take(pos) =~= k.take(pos - 1).push(k[pos - 1]));
    assert(kf.take(pos) =~= kf.take(pos - 1).push(kf[pos - 1]));
    let ghost pre = self.rem@;
    let ghost c0 = *c;
    let ghost cf = *final(c);
//@ loopend 1
    assert(cur(self.rem@) =~= cur(pre).push(c0));
    assert(fin(self.rem@) =~= fin(pre).push(cf));
    assert((st + k.take(pos - 1)).push(k[pos - 1]) =~= st + k.take(pos));
    assert((stf + kf.take(pos - 1)).push(kf[pos - 1]) =~= stf + kf.take(pos));
//@ afterloop 1
    proof {
        lemma_push_rev(st, kids(bv->Cluster_0));
        assert(cur(self.rem@) == st + k);
    }
    assert(bf is Cluster && kf =~= kids(bf->Cluster_0).reverse());
    assert(all_regs(pending(stf + kf)) == all_regs(kids(bf->Cluster_0)) + all_regs(pending(stf))) by { lemma_push_rev(stf, kids(bf->Cluster_0)); }
    assert(fin(self.rem@) == stf + kf);
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfo::all_registers_mut -> r
    ensures
        pending(cur(r.rem@)) =~= children_of(*old(self)),
        pending(fin(r.rem@)) =~= children_of(*final(self)),
        *final(self) == (PeripheralInfo { registers: final(self).registers, ..*old(self) }),
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfo::all_registers_mut -> r
    ensures
        pending(cur(r.rem@)) =~= old(self).children@,
        pending(fin(r.rem@)) =~= final(self).children@,
        *final(self) == (ClusterInfo { children: final(self).children, ..*old(self) }),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfo::fields_mut -> r
    ensures
        cur(r.remaining()) =~= fields_of(*old(self)),
        fin(r.remaining()) =~= fields_of(*final(self)),
        r.remaining().len() == fields_of(*old(self)).len(),
        vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r),
        *final(self) == (RegisterInfo { fields: final(self).fields, ..*old(self) }),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfo::get_mut_field -> r
    ensures
        match r {
            Some(e) => (exists|i: int| #[trigger] first_is(fields_of(*old(self)), p_field(name@), i) && *e == fields_of(*old(self))[i])
                && *final(self) == (RegisterInfo { fields: final(self).fields, ..*old(self) }),
            None => none_is(fields_of(*old(self)), p_field(name@)),
        },
//@ find 0
    let ghost full = vx_f.remaining();
    let ghost v0 = fields_of(*old(self));
    assert forall|j: int| 0 <= j < v0.len() implies #[trigger] v0[j] == *full[j] by { assert(cur(full)[j] == *full[j]); }
//@ found 0
    proof { if vx_r is Some { assert(first_is(v0, p_field(name@), full.len() - vx_f.remaining().len() - 1)); } }
//@ closure 0
|f: &&mut Field| -> (b: bool) ensures b == (info_of(*old(*f)).name@ == name@)
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfo::get_mut_interrupt -> r
    ensures
        match r {
            Some(e) => (exists|i: int| #[trigger] first_is(old(self).interrupt@, p_int(name@), i) && *e == old(self).interrupt@[i])
                && *final(self) == (PeripheralInfo { interrupt: final(self).interrupt, ..*old(self) }),
            None => none_is(old(self).interrupt@, p_int(name@)),
        },
//@ find 0
    let ghost full = vx_f.remaining();
    let ghost v0 = old(self).interrupt@;
    assert forall|j: int| 0 <= j < v0.len() implies #[trigger] v0[j] == *full[j] by { assert(cur(full)[j] == *full[j]); }
//@ found 0
    proof { if vx_r is Some { assert(first_is(v0, p_int(name@), full.len() - vx_f.remaining().len() - 1)); } }
//@ closure 0
|e: &&mut Interrupt| -> (b: bool) ensures b == (old(*e).name@ == name@)
//@ endfn
//@ fn svd-rs/src/device.rs Device::get_mut_peripheral -> r
    ensures
        match r {
            Some(e) => (exists|i: int| #[trigger] first_is(old(self).peripherals@, p_periph(name@), i) && *e == old(self).peripherals@[i])
                && *final(self) == (Device { peripherals: final(self).peripherals, ..*old(self) }),
            None => none_is(old(self).peripherals@, p_periph(name@)),
        },
//@ find 0
    let ghost full = vx_f.remaining();
    let ghost v0 = old(self).peripherals@;
    assert forall|j: int| 0 <= j < v0.len() implies #[trigger] v0[j] == *full[j] by { assert(cur(full)[j] == *full[j]); }
//@ found 0
    proof { if vx_r is Some { assert(first_is(v0, p_periph(name@), full.len() - vx_f.remaining().len() - 1)); } }
//@ closure 0
|f: &&mut Peripheral| -> (b: bool) ensures b == (info_of(*old(*f)).name@ == name@)
//@ endfn
//@ module spec
pub proof fn lemma_first_reg(s: Seq<RegisterCluster>)
    ensures regs_of(s).len() <= s.len(), clusters_of(s).len() <= s.len(),
    decreases s.len(),
{ if s.len() > 0 { lemma_first_reg(s.drop_first()); } }
//@ fn svd-rs/src/peripheral.rs PeripheralInfo::get_mut_register -> r
    ensures
        match r {
            Some(e) => (exists|i: int| #[trigger] first_is(regs_of(children_of(*old(self))), p_reg(name@), i) && *e == regs_of(children_of(*old(self)))[i])
                && *final(self) == (PeripheralInfo { registers: final(self).registers, ..*old(self) }),
            None => none_is(regs_of(children_of(*old(self))), p_reg(name@)),
        },
//@ opt find-loop &mut Register
//@ find 0
    broadcast use crate::ax::ax_slice_iter_mut_ends;
    let ghost v0 = regs_of(children_of(*old(self)));
    let ghost mut pos = 0int;
//@ loop 0
    invariant_except_break
        vx_r is None,
        0 <= pos <= v0.len(),
        regs_of(cur(vx_f.all.remaining())) =~= v0.skip(pos),
        forall|j: int| 0 <= j < pos ==> !p_reg(name@)(#[trigger] v0[j]),
    invariant
        v0 == regs_of(children_of(*old(self))),
    ensures
        match vx_r {
            Some(e) => 1 <= pos <= v0.len() && first_is(v0, p_reg(name@), pos - 1) && *e == v0[pos - 1],
            None => none_is(v0, p_reg(name@)),
        },
    decreases v0.len() - pos
//@ loopstart 0
    assert(v0.skip(pos)[0] == *vx_x);
    assert(v0.skip(pos).drop_first() =~= v0.skip(pos + 1));
    proof { pos = pos + 1; }
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfo::get_mut_cluster -> r
    ensures
        match r {
            Some(e) => (exists|i: int| #[trigger] first_is(clusters_of(children_of(*old(self))), p_cluster(name@), i) && *e == clusters_of(children_of(*old(self)))[i])
                && *final(self) == (PeripheralInfo { registers: final(self).registers, ..*old(self) }),
            None => none_is(clusters_of(children_of(*old(self))), p_cluster(name@)),
        },
//@ opt find-loop &mut Cluster
//@ find 0
    broadcast use crate::ax::ax_slice_iter_mut_ends;
    let ghost v0 = clusters_of(children_of(*old(self)));
    let ghost mut pos = 0int;
//@ loop 0
    invariant_except_break
        vx_r is None,
        0 <= pos <= v0.len(),
        clusters_of(cur(vx_f.all.remaining())) =~= v0.skip(pos),
        forall|j: int| 0 <= j < pos ==> !p_cluster(name@)(#[trigger] v0[j]),
    invariant
        v0 == clusters_of(children_of(*old(self))),
    ensures
        match vx_r {
            Some(e) => 1 <= pos <= v0.len() && first_is(v0, p_cluster(name@), pos - 1) && *e == v0[pos - 1],
            None => none_is(v0, p_cluster(name@)),
        },
    decreases v0.len() - pos
//@ loopstart 0
    assert(v0.skip(pos)[0] == *vx_x);
    assert(v0.skip(pos).drop_first() =~= v0.skip(pos + 1));
    proof { pos = pos + 1; }
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfo::get_mut_register -> r
    ensures
        match r {
            Some(e) => (exists|i: int| #[trigger] first_is(regs_of(old(self).children@), p_reg(name@), i) && *e == regs_of(old(self).children@)[i])
                && *final(self) == (ClusterInfo { children: final(self).children, ..*old(self) }),
            None => none_is(regs_of(old(self).children@), p_reg(name@)),
        },
//@ opt find-loop &mut Register
//@ find 0
    broadcast use crate::ax::ax_slice_iter_mut_ends;
    let ghost v0 = regs_of(old(self).children@);
    let ghost mut pos = 0int;
//@ loop 0
    invariant_except_break
        vx_r is None,
        0 <= pos <= v0.len(),
        regs_of(cur(vx_f.all.remaining())) =~= v0.skip(pos),
        forall|j: int| 0 <= j < pos ==> !p_reg(name@)(#[trigger] v0[j]),
    invariant
        v0 == regs_of(old(self).children@),
    ensures
        match vx_r {
            Some(e) => 1 <= pos <= v0.len() && first_is(v0, p_reg(name@), pos - 1) && *e == v0[pos - 1],
            None => none_is(v0, p_reg(name@)),
        },
    decreases v0.len() - pos
//@ loopstart 0
    assert(v0.skip(pos)[0] == *vx_x);
    assert(v0.skip(pos).drop_first() =~= v0.skip(pos + 1));
    proof { pos = pos + 1; }
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfo::get_mut_cluster -> r
    ensures
        match r {
            Some(e) => (exists|i: int| #[trigger] first_is(clusters_of(old(self).children@), p_cluster(name@), i) && *e == clusters_of(old(self).children@)[i])
                && *final(self) == (ClusterInfo { children: final(self).children, ..*old(self) }),
            None => none_is(clusters_of(old(self).children@), p_cluster(name@)),
        },
//@ opt find-loop &mut Cluster
//@ find 0
    broadcast use crate::ax::ax_slice_iter_mut_ends;
    let ghost v0 = clusters_of(old(self).children@);
    let ghost mut pos = 0int;
//@ loop 0
    invariant_except_break
        vx_r is None,
        0 <= pos <= v0.len(),
        clusters_of(cur(vx_f.all.remaining())) =~= v0.skip(pos),
        forall|j: int| 0 <= j < pos ==> !p_cluster(name@)(#[trigger] v0[j]),
    invariant
        v0 == clusters_of(old(self).children@),
    ensures
        match vx_r {
            Some(e) => 1 <= pos <= v0.len() && first_is(v0, p_cluster(name@), pos - 1) && *e == v0[pos - 1],
            None => none_is(v0, p_cluster(name@)),
        },
    decreases v0.len() - pos
//@ loopstart 0
    assert(v0.skip(pos)[0] == *vx_x);
    assert(v0.skip(pos).drop_first() =~= v0.skip(pos + 1));
    proof { pos = pos + 1; }
//@ endfn
