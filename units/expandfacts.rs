// C16: what comes out of an expansion.
//@ module spec
// ---------------------------------------------------------------- every cluster is in the index
pub open spec fn cov(dom: Set<Parts>, s: Seq<RegisterCluster>, path: Parts) -> bool
    decreases s,
{
    forall|i: int| 0 <= i < s.len() ==> match #[trigger] s[i] {
        RegisterCluster::Register(_) => true,
        RegisterCluster::Cluster(MaybeArray::Single(c)) => dom.contains(path.push(c.name@)) && cov(dom, c.children@, path.push(c.name@)),
        RegisterCluster::Cluster(MaybeArray::Array(c, _)) => dom.contains(path.push(c.name@)) && cov(dom, c.children@, path.push(c.name@)),
    }
}
pub open spec fn cluster_cov(dom: Set<Parts>, c: Cluster, path: Parts) -> bool { dom.contains(path.push(info_of(c).name@)) && cov(dom, info_of(c).children@, path.push(info_of(c).name@)) }
pub proof fn lemma_cov_at(dom: Set<Parts>, s: Seq<RegisterCluster>, path: Parts, i: int)
    requires cov(dom, s, path), 0 <= i < s.len(), s[i] is Cluster,
    ensures cluster_cov(dom, s[i]->Cluster_0, path),
{ assert(s[i] == s[i]); }
pub proof fn lemma_cov_make(dom: Set<Parts>, s: Seq<RegisterCluster>, path: Parts)
    requires forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Cluster ==> cluster_cov(dom, s[i]->Cluster_0, path),
    ensures cov(dom, s, path),
{
    assert forall|i: int| 0 <= i < s.len() implies match #[trigger] s[i] {
        RegisterCluster::Register(_) => true,
        RegisterCluster::Cluster(MaybeArray::Single(c)) => dom.contains(path.push(c.name@)) && cov(dom, c.children@, path.push(c.name@)),
        RegisterCluster::Cluster(MaybeArray::Array(c, _)) => dom.contains(path.push(c.name@)) && cov(dom, c.children@, path.push(c.name@)),
    } by { if s[i] is Cluster { assert(cluster_cov(dom, s[i]->Cluster_0, path)); } }
}
pub proof fn lemma_cov_more(a: Set<Parts>, b: Set<Parts>, s: Seq<RegisterCluster>, path: Parts)
    requires cov(a, s, path), a.subset_of(b),
    ensures cov(b, s, path),
    decreases s,
{
    assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Cluster implies cluster_cov(b, s[i]->Cluster_0, path) by {
        lemma_cov_at(a, s, path, i);
        assert(decreases_to!(s => s[i]));
        match s[i] {
            RegisterCluster::Cluster(MaybeArray::Single(c)) => lemma_cov_more(a, b, c.children@, path.push(c.name@)),
            RegisterCluster::Cluster(MaybeArray::Array(c, _)) => lemma_cov_more(a, b, c.children@, path.push(c.name@)),
            _ => {},
        }
    }
    lemma_cov_make(b, s, path);
}
pub open spec fn closed(ix: Ix) -> bool {
    &&& forall|p: Parts| #[trigger] ix.clusters.contains_key(p) ==> cov(ix.clusters.dom(), info_of(ix.clusters[p]).children@, p)
    &&& forall|p: Parts| #[trigger] ix.peripherals.contains_key(p) ==> cov(ix.clusters.dom(), children_of(info_of(ix.peripherals[p])), p)
}
pub open spec fn same_blocks(a: Ix, b: Ix) -> bool { a.clusters == b.clusters && a.peripherals == b.peripherals }
pub proof fn lemma_put_evs(ix: Ix, fp: Parts, s: Seq<EnumeratedValues>)
    ensures same_blocks(put_evs(ix, fp, s), ix),
    decreases s.len(),
{ if s.len() > 0 { lemma_put_evs(match s[0].name { Some(n) => Ix { evs: ix.evs.insert(fp.push(n@), s[0]), ..ix }, None => ix }, fp, s.drop_first()); } }
pub proof fn lemma_put_field_as(ix: Ix, path: Parts, x: Field, name: Seq<char>)
    ensures same_blocks(put_field_as(ix, path, x, name), ix),
{ lemma_put_evs(ix, path.push(name), info_of(x).enumerated_values@); }
pub proof fn lemma_put_field_names(ix: Ix, path: Parts, x: Field, d: DimElement, k: int)
    ensures same_blocks(put_field_names(ix, path, x, d, k), ix),
    decreases d.dim - k,
{ if k < d.dim { lemma_put_field_as(ix, path, x, nth_name(info_of(x).name@, d, k)); lemma_put_field_names(put_field_as(ix, path, x, nth_name(info_of(x).name@, d, k)), path, x, d, k + 1); } }
pub proof fn lemma_put_fields(ix: Ix, path: Parts, s: Seq<Field>)
    ensures same_blocks(put_fields(ix, path, s), ix),
    decreases s.len(),
{
    if s.len() > 0 {
        let x = s[0];
        if let MaybeArray::Array(_, d) = x { lemma_put_field_names(ix, path, x, d, 0); lemma_put_field_as(put_field_names(ix, path, x, d, 0), path, x, info_of(x).name@); } else { lemma_put_field_as(ix, path, x, info_of(x).name@); }
        lemma_put_fields(put_field(ix, path, x), path, s.drop_first());
    }
}
pub proof fn lemma_put_reg_as(ix: Ix, path: Parts, x: Register, name: Seq<char>)
    ensures same_blocks(put_reg_as(ix, path, x, name), ix),
{ lemma_put_fields(ix, path.push(name), fields_of(info_of(x))); }
pub proof fn lemma_put_reg_names(ix: Ix, path: Parts, x: Register, d: DimElement, k: int)
    ensures same_blocks(put_reg_names(ix, path, x, d, k), ix),
    decreases d.dim - k,
{ if k < d.dim { lemma_put_reg_as(ix, path, x, nth_name(info_of(x).name@, d, k)); lemma_put_reg_names(put_reg_as(ix, path, x, nth_name(info_of(x).name@, d, k)), path, x, d, k + 1); } }
pub proof fn lemma_put_regs(ix: Ix, path: Parts, s: Seq<Register>)
    ensures same_blocks(put_regs(ix, path, s), ix),
    decreases s.len(),
{
    if s.len() > 0 {
        let x = s[0];
        if let MaybeArray::Array(_, d) = x { lemma_put_reg_names(ix, path, x, d, 0); lemma_put_reg_as(put_reg_names(ix, path, x, d, 0), path, x, info_of(x).name@); } else { lemma_put_reg_as(ix, path, x, info_of(x).name@); }
        lemma_put_regs(put_reg(ix, path, x), path, s.drop_first());
    }
}
// b holds more clusters than a, and what they consist of
pub open spec fn more(a: Ix, b: Ix) -> bool { closed(b) && a.clusters.dom().subset_of(b.clusters.dom()) && a.peripherals == b.peripherals }
pub proof fn lemma_closed_same(a: Ix, b: Ix)
    requires closed(a), same_blocks(a, b),
    ensures closed(b), more(a, b),
{
}
pub proof fn lemma_put_cluster_as(ix: Ix, path: Parts, x: Cluster, name: Seq<char>)
    requires closed(ix),
    ensures more(ix, put_cluster_as(ix, path, x, name)), put_cluster_as(ix, path, x, name).clusters.contains_key(path.push(name)),
        cov(put_cluster_as(ix, path, x, name).clusters.dom(), info_of(x).children@, path.push(name)),
    decreases x, 0int, 0int,
{
    let s = match x { MaybeArray::Single(c) => c.children@, MaybeArray::Array(c, _) => c.children@ };
    let q = path.push(name);
    let i0 = put_regs(ix, q, regs_of(s));
    lemma_put_regs(ix, q, regs_of(s));
    lemma_closed_same(ix, i0);
    assert(decreases_to!(x => s)) by { match x { MaybeArray::Single(c) => { assert(decreases_to!(x => c)); assert(decreases_to!(c => c.children)); }, MaybeArray::Array(c, _) => { assert(decreases_to!(x => c)); } } }
    lemma_put_kids(i0, q, s);
    let i = put_kids(i0, q, s);
    let r = put_cluster_as(ix, path, x, name);
    assert(r == Ix { clusters: i.clusters.insert(q, x), ..i });
    lemma_cov_more(i.clusters.dom(), r.clusters.dom(), s, q);
    assert forall|p: Parts| #[trigger] r.clusters.contains_key(p) implies cov(r.clusters.dom(), info_of(r.clusters[p]).children@, p) by {
        if p != q { assert(i.clusters.contains_key(p)); lemma_cov_more(i.clusters.dom(), r.clusters.dom(), info_of(i.clusters[p]).children@, p); }
    }
    assert forall|p: Parts| #[trigger] r.peripherals.contains_key(p) implies cov(r.clusters.dom(), children_of(info_of(r.peripherals[p])), p) by {
        assert(i.peripherals.contains_key(p)); lemma_cov_more(i.clusters.dom(), r.clusters.dom(), children_of(info_of(i.peripherals[p])), p);
    }
}
pub proof fn lemma_put_cluster_names(ix: Ix, path: Parts, x: Cluster, d: DimElement, k: int)
    requires closed(ix),
    ensures more(ix, put_cluster_names(ix, path, x, d, k)),
    decreases x, 1int, d.dim - k,
{
    if k < d.dim {
        lemma_put_cluster_as(ix, path, x, nth_name(info_of(x).name@, d, k));
        lemma_put_cluster_names(put_cluster_as(ix, path, x, nth_name(info_of(x).name@, d, k)), path, x, d, k + 1);
    }
}
pub proof fn lemma_put_cluster(ix: Ix, path: Parts, x: Cluster)
    requires closed(ix),
    ensures more(ix, put_cluster(ix, path, x)), cluster_cov(put_cluster(ix, path, x).clusters.dom(), x, path),
    decreases x, 2int, 0int,
{
    if let MaybeArray::Array(_, d) = x {
        lemma_put_cluster_names(ix, path, x, d, 0);
        lemma_put_cluster_as(put_cluster_names(ix, path, x, d, 0), path, x, info_of(x).name@);
    } else { lemma_put_cluster_as(ix, path, x, info_of(x).name@); }
}
pub proof fn lemma_put_kids(ix: Ix, path: Parts, s: Seq<RegisterCluster>)
    requires closed(ix),
    ensures more(ix, put_kids(ix, path, s)), cov(put_kids(ix, path, s).clusters.dom(), s, path),
    decreases s, 3int, 0int,
{
    let r = put_kids(ix, path, s);
    if s.len() > 0 {
        assert(decreases_to!(s => s[0]));
        if let RegisterCluster::Cluster(c) = s[0] { lemma_put_cluster(ix, path, c); }
        let i = match s[0] { RegisterCluster::Cluster(c) => put_cluster(ix, path, c), _ => ix };
        assert(decreases_to!(s => s.drop_first()));
        lemma_put_kids(i, path, s.drop_first());
        assert forall|j: int| 0 <= j < s.len() && (#[trigger] s[j]) is Cluster implies cluster_cov(r.clusters.dom(), s[j]->Cluster_0, path) by {
            if j == 0 { let c = s[0]->Cluster_0; lemma_cov_more(i.clusters.dom(), r.clusters.dom(), info_of(c).children@, path.push(info_of(c).name@)); }
            else { assert(s[j] == s.drop_first()[j - 1]); lemma_cov_at(r.clusters.dom(), s.drop_first(), path, j - 1); }
        }
    }
    lemma_cov_make(r.clusters.dom(), s, path);
}
pub open spec fn bigger(a: Ix, b: Ix) -> bool { closed(b) && a.clusters.dom().subset_of(b.clusters.dom()) }
pub proof fn lemma_put_per_as(ix: Ix, path: Parts, x: Peripheral, name: Seq<char>)
    requires closed(ix),
    ensures bigger(ix, put_per_as(ix, path, x, name)), cov(put_per_as(ix, path, x, name).clusters.dom(), children_of(info_of(x)), path.push(name)),
{
    let s = children_of(info_of(x));
    let q = path.push(name);
    let i0 = put_regs(ix, q, regs_of(s));
    lemma_put_regs(ix, q, regs_of(s));
    lemma_closed_same(ix, i0);
    lemma_put_kids(i0, q, s);
    let i = put_kids(i0, q, s);
    let r = put_per_as(ix, path, x, name);
    assert forall|p: Parts| #[trigger] r.clusters.contains_key(p) implies cov(r.clusters.dom(), info_of(r.clusters[p]).children@, p) by { assert(i.clusters.contains_key(p)); }
    assert forall|p: Parts| #[trigger] r.peripherals.contains_key(p) implies cov(r.clusters.dom(), children_of(info_of(r.peripherals[p])), p) by {
        if p != q { assert(i.peripherals.contains_key(p)); }
    }
}
pub proof fn lemma_put_per_names(ix: Ix, path: Parts, x: Peripheral, d: DimElement, k: int)
    requires closed(ix),
    ensures bigger(ix, put_per_names(ix, path, x, d, k)),
    decreases d.dim - k,
{
    if k < d.dim {
        lemma_put_per_as(ix, path, x, nth_name(info_of(x).name@, d, k));
        lemma_put_per_names(put_per_as(ix, path, x, nth_name(info_of(x).name@, d, k)), path, x, d, k + 1);
    }
}
pub proof fn lemma_put_per(ix: Ix, path: Parts, x: Peripheral)
    requires closed(ix),
    ensures bigger(ix, put_per(ix, path, x)), cov(put_per(ix, path, x).clusters.dom(), children_of(info_of(x)), path.push(info_of(x).name@)),
{
    if let MaybeArray::Array(_, d) = x {
        lemma_put_per_names(ix, path, x, d, 0);
        lemma_put_per_as(put_per_names(ix, path, x, d, 0), path, x, info_of(x).name@);
    } else { lemma_put_per_as(ix, path, x, info_of(x).name@); }
}
pub open spec fn pers_cov(dom: Set<Parts>, s: Seq<Peripheral>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> cov(dom, children_of(info_of(#[trigger] s[i])), Seq::<Seq<char>>::empty().push(info_of(s[i]).name@))
}
pub proof fn lemma_put_pers(ix: Ix, s: Seq<Peripheral>)
    requires closed(ix),
    ensures bigger(ix, put_pers(ix, s)), pers_cov(put_pers(ix, s).clusters.dom(), s),
    decreases s.len(),
{
    if s.len() > 0 {
        let i = put_per(ix, Seq::empty(), s[0]);
        let r = put_pers(ix, s);
        lemma_put_per(ix, Seq::empty(), s[0]);
        lemma_put_pers(i, s.drop_first());
        assert forall|j: int| 0 <= j < s.len() implies cov(r.clusters.dom(), children_of(info_of(#[trigger] s[j])), Seq::<Seq<char>>::empty().push(info_of(s[j]).name@)) by {
            if j == 0 { lemma_cov_more(i.clusters.dom(), r.clusters.dom(), children_of(info_of(s[0])), Seq::<Seq<char>>::empty().push(info_of(s[0]).name@)); }
            else { assert(s[j] == s.drop_first()[j - 1]); }
        }
    }
}
pub proof fn lemma_index_closed(d: Device)
    ensures closed(index_spec(d)), pers_cov(index_spec(d).clusters.dom(), d.peripherals@),
{ lemma_put_pers(no_ix(), d.peripherals@); }
// ---------------------------------------------------------------- what a followed reference leaves
pub proof fn lemma_chain_cluster(m: Map<Parts, Cluster>, x: Cluster, d: Seq<char>, scope: Parts, seen: Set<Parts>)
    ensures chain(m, x, d, scope, seen) matches Some((z, q)) ==> z.nm() == x.nm() && z.reference() == x.reference()
        && (match q { Some(p) => m.contains_key(p) && info_of(z).children@ == info_of(m[p]).children@, None => info_of(z).children@ == info_of(x).children@ })
        && (!x.bare() ==> info_of(z).children@ == info_of(x).children@),
    decreases left(m, seen),
{
    if let Some(p) = Cluster::resolve(d, scope) { if !seen.contains(p) && m.contains_key(p) {
        lemma_left(m, seen, p);
        if let Some(e) = m[p].reference() { lemma_chain_cluster(m, x.derived(m[p]), e, p.drop_last(), seen.insert(p)); }
    } }
}
pub proof fn lemma_chain_per(m: Map<Parts, Peripheral>, x: Peripheral, d: Seq<char>, scope: Parts, seen: Set<Parts>)
    ensures chain(m, x, d, scope, seen) matches Some((z, q)) ==> z.nm() == x.nm() && z.reference() == x.reference()
        && (match q { Some(p) => m.contains_key(p) && info_of(z).registers == info_of(m[p]).registers, None => info_of(z).registers == info_of(x).registers })
        && (!x.bare() ==> info_of(z).registers == info_of(x).registers),
    decreases left(m, seen),
{
    if let Some(p) = Peripheral::resolve(d, scope) { if !seen.contains(p) && m.contains_key(p) {
        lemma_left(m, seen, p);
        if let Some(e) = m[p].reference() { lemma_chain_per(m, x.derived(m[p]), e, p.drop_last(), seen.insert(p)); }
    } }
}
pub proof fn lemma_chain_reg(m: Map<Parts, Register>, x: Register, d: Seq<char>, scope: Parts, seen: Set<Parts>)
    ensures chain(m, x, d, scope, seen) matches Some((z, q)) ==> z.nm() == x.nm() && z.reference() == x.reference(),
    decreases left(m, seen),
{
    if let Some(p) = Register::resolve(d, scope) { if !seen.contains(p) && m.contains_key(p) {
        lemma_left(m, seen, p);
        if let Some(e) = m[p].reference() { lemma_chain_reg(m, x.derived(m[p]), e, p.drop_last(), seen.insert(p)); }
    } }
}
pub proof fn lemma_chain_field(m: Map<Parts, Field>, x: Field, d: Seq<char>, scope: Parts, seen: Set<Parts>)
    ensures chain(m, x, d, scope, seen) matches Some((z, q)) ==> z.nm() == x.nm() && z.reference() == x.reference(),
    decreases left(m, seen),
{
    if let Some(p) = Field::resolve(d, scope) { if !seen.contains(p) && m.contains_key(p) {
        lemma_left(m, seen, p);
        if let Some(e) = m[p].reference() { lemma_chain_field(m, x.derived(m[p]), e, p.drop_last(), seen.insert(p)); }
    } }
}
pub proof fn lemma_chain_evs(ix: Ix, x: EnumeratedValues, d: Seq<char>, fp: Parts, seen: Set<Parts>)
    ensures chain_evs(ix, x, d, fp, seen) matches Some((z, _)) ==> z.derived_from == x.derived_from,
    decreases left(ix.evs, seen),
{
    if let Some(p) = evs_path(ix, d, fp) { if !seen.contains(p) && ix.evs.contains_key(p) {
        lemma_left(ix.evs, seen, p);
        if let Some(e) = opt_string(ix.evs[p].derived_from) { lemma_chain_evs(ix, x.derived(ix.evs[p]), e, p.drop_last(), seen.insert(p)); }
    } }
}
// ---------------------------------------------------------------- the result is flat and has no references
pub open spec fn no_ref_evs(s: Seq<EnumeratedValues>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).derived_from is None }
pub open spec fn plain_field(f: Field) -> bool { f is Single && info_of(f).derived_from is None && no_ref_evs(info_of(f).enumerated_values@) }
pub open spec fn plain_fields(s: Seq<Field>) -> bool { forall|i: int| 0 <= i < s.len() ==> plain_field(#[trigger] s[i]) }
pub open spec fn plain_reg(r: Register) -> bool { r is Single && info_of(r).derived_from is None && plain_fields(fields_of(info_of(r))) }
pub open spec fn flat(s: Seq<RegisterCluster>) -> bool { forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]) matches RegisterCluster::Register(r) && plain_reg(r)) }
pub open spec fn plain_per(p: Peripheral) -> bool { p is Single && info_of(p).derived_from is None && flat(children_of(info_of(p))) }
pub open spec fn plain_pers(s: Seq<Peripheral>) -> bool { forall|i: int| 0 <= i < s.len() ==> plain_per(#[trigger] s[i]) }
pub proof fn lemma_evs_out(ix: Ix, acc: Seq<EnumeratedValues>, s: Seq<EnumeratedValues>, fp: Parts)
    requires no_ref_evs(acc),
    ensures fine(evs_out(ix, acc, s, fp)), evs_out(ix, acc, s, fp) matches Out::Done(v) ==> no_ref_evs(v),
    decreases s.len(),
{
    if s.len() > 0 {
        let e = s[0];
        if let Some(d) = e.derived_from { let x = EnumeratedValues { derived_from: None, ..e }; lemma_chain_evs(ix, x, d@, fp, evs_named(x, fp)); }
        if let Out::Done(z) = ev_out(ix, e, fp) { lemma_evs_out(ix, acc.push(z), s.drop_first(), fp); }
    }
}
pub proof fn lemma_held<T>(s: Seq<T>)
    requires held(s),
    ensures list_of(s)@ == s,
{
}
pub proof fn lemma_field_out(ix: Ix, f: Field, rp: Parts)
    ensures !(field_out(ix, f, rp) is Never), field_out(ix, f, rp) matches Out::Done(v) ==> plain_fields(v),
{
    if let Some(d) = f.reference() { lemma_chain_field(ix.fields, f.unref(), d, rp, set![rp.push(f.nm())]); }
    if let Some((z, fp)) = based(ix.fields, f, rp) {
        lemma_evs_out(ix, Seq::empty(), info_of(z).enumerated_values@, fp);
        if let Out::Done(v) = evs_out(ix, Seq::empty(), info_of(z).enumerated_values@, fp) {
            if held(v) {
                let y = with_info(z, FieldInfo { enumerated_values: list_of(v), ..info_of(z) });
                assert(z.reference() is None);
                assert(info_of(y).derived_from is None);
                if let Out::Done(w) = field_elems(y) { assert forall|i: int| 0 <= i < w.len() implies plain_field(#[trigger] w[i]) by {} }
            }
        }
    }
}
pub proof fn lemma_fields_out(ix: Ix, acc: Seq<Field>, s: Seq<Field>, rp: Parts)
    requires plain_fields(acc),
    ensures !(fields_out(ix, acc, s, rp) is Never), fields_out(ix, acc, s, rp) matches Out::Done(v) ==> plain_fields(v),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_field_out(ix, s[0], rp);
        if let Out::Done(v) = field_out(ix, s[0], rp) {
            assert(plain_fields(acc + v));
            lemma_fields_out(ix, acc + v, s.drop_first(), rp);
        }
    }
}
pub proof fn lemma_reg_out(ix: Ix, r: Register, path: Parts)
    ensures !(reg_out(ix, r, path) is Never), reg_out(ix, r, path) matches Out::Done(v) ==> flat(v),
{
    if let Some(d) = r.reference() { lemma_chain_reg(ix.registers, r.unref(), d, path, set![path.push(r.nm())]); }
    if let Some((z, rp)) = based(ix.registers, r, path) {
        assert(z.reference() is None);
        assert(info_of(z).derived_from is None);
        match info_of(z).fields {
            None => { if let Out::Done(w) = reg_elems(z) { assert forall|i: int| 0 <= i < w.len() implies ((#[trigger] w[i]) matches RegisterCluster::Register(r) && plain_reg(r)) by {} } },
            Some(fs) => {
                lemma_fields_out(ix, Seq::empty(), fs@, rp);
                if let Out::Done(v) = fields_out(ix, Seq::empty(), fs@, rp) {
                    if held(v) {
                        let y = with_info(z, RegisterInfo { fields: Some(list_of(v)), ..info_of(z) });
                        if let Out::Done(w) = reg_elems(y) { assert forall|i: int| 0 <= i < w.len() implies ((#[trigger] w[i]) matches RegisterCluster::Register(r) && plain_reg(r)) by {} }
                    }
                }
            },
        }
    }
}
pub proof fn lemma_flat_out(acc: Seq<RegisterCluster>, name: Seq<char>, offset: int, s: Seq<RegisterCluster>)
    requires flat(acc), flat(s),
    ensures !(flat_out(acc, name, offset, s) is Never), flat_out(acc, name, offset, s) matches Out::Done(v) ==> flat(v),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(s[0] == s[0]);
        let r = s[0]->Register_0;
        let x = as_kid(flat_reg(r, name, offset));
        assert(plain_reg(flat_reg(r, name, offset)));
        assert(flat(acc.push(x)));
        assert(flat(s.drop_first())) by { assert forall|i: int| 0 <= i < s.drop_first().len() implies ((#[trigger] s.drop_first()[i]) matches RegisterCluster::Register(r) && plain_reg(r)) by { assert(s.drop_first()[i] == s[i + 1]); } }
        lemma_flat_out(acc.push(x), name, offset, s.drop_first());
    }
}
pub proof fn lemma_flats_out(acc: Seq<RegisterCluster>, info: ClusterInfo, s: Seq<RegisterCluster>, d: DimElement, k: int)
    requires flat(acc), flat(s),
    ensures !(flats_out(acc, info, s, d, k) is Never), flats_out(acc, info, s, d, k) matches Out::Done(v) ==> flat(v),
    decreases d.dim - k,
{
    if k < d.dim {
        lemma_flat_out(acc, nth_name(info.name@, d, k), at(info.address_offset as int, d, k), s);
        if let Out::Done(v) = flat_out(acc, nth_name(info.name@, d, k), at(info.address_offset as int, d, k), s) { lemma_flats_out(v, info, s, d, k + 1); }
    }
}
pub proof fn lemma_cluster_elems(acc: Seq<RegisterCluster>, c: Cluster, s: Seq<RegisterCluster>)
    requires flat(acc), flat(s),
    ensures !(cluster_elems(acc, c, s) is Never), cluster_elems(acc, c, s) matches Out::Done(v) ==> flat(v),
{
    match c {
        MaybeArray::Single(c) => lemma_flat_out(acc, c.name@, c.address_offset as int, s),
        MaybeArray::Array(info, d) => lemma_flats_out(acc, info, s, d, 0),
    }
}
pub proof fn lemma_based_cluster(ix: Ix, c: Cluster, path: Parts)
    requires closed(ix), cluster_cov(ix.clusters.dom(), c, path),
    ensures based(ix.clusters, c, path) matches Some((z, cp)) ==> ix.clusters.contains_key(cp) && cov(ix.clusters.dom(), info_of(z).children@, cp),
{
    if let Some(d) = c.reference() { lemma_chain_cluster(ix.clusters, c.unref(), d, path, set![path.push(c.nm())]); }
}
pub proof fn lemma_kids_out(ix: Ix, acc: Seq<RegisterCluster>, s: Seq<RegisterCluster>, path: Parts, active: Set<Parts>)
    requires closed(ix), cov(ix.clusters.dom(), s, path), flat(acc),
    ensures !(kids_out(ix, acc, s, path, active) is Never), kids_out(ix, acc, s, path, active) matches Out::Done(v) ==> flat(v),
    decreases left(ix.clusters, active), s.len(),
{
    if s.len() > 0 {
        let t = s.drop_first();
        assert(cov(ix.clusters.dom(), t, path)) by {
            assert forall|j: int| 0 <= j < t.len() && (#[trigger] t[j]) is Cluster implies cluster_cov(ix.clusters.dom(), t[j]->Cluster_0, path) by { assert(t[j] == s[j + 1]); lemma_cov_at(ix.clusters.dom(), s, path, j + 1); }
            lemma_cov_make(ix.clusters.dom(), t, path);
        }
        match s[0] {
            RegisterCluster::Register(r) => {
                lemma_reg_out(ix, r, path);
                if let Out::Done(v) = reg_out(ix, r, path) { assert(flat(acc + v)); lemma_kids_out(ix, acc + v, t, path, active); }
            },
            RegisterCluster::Cluster(c) => {
                lemma_cov_at(ix.clusters.dom(), s, path, 0);
                lemma_based_cluster(ix, c, path);
                if let Some((z, cp)) = based(ix.clusters, c, path) {
                    if !active.contains(cp) {
                        lemma_left(ix.clusters, active, cp);
                        lemma_kids_out(ix, Seq::empty(), info_of(z).children@, cp, active.insert(cp));
                        if let Out::Done(v) = kids_out(ix, Seq::empty(), info_of(z).children@, cp, active.insert(cp)) {
                            lemma_cluster_elems(acc, z, v);
                            if let Out::Done(w) = cluster_elems(acc, z, v) { lemma_kids_out(ix, w, t, path, active); }
                        }
                    }
                }
            },
        }
    }
}
pub proof fn lemma_per_out(ix: Ix, p: Peripheral)
    requires closed(ix), cov(ix.clusters.dom(), children_of(info_of(p)), Seq::<Seq<char>>::empty().push(info_of(p).name@)),
    ensures !(per_out(ix, p) is Never), per_out(ix, p) matches Out::Done(v) ==> plain_pers(v),
{
    let e = Seq::<Seq<char>>::empty();
    if let Some(d) = p.reference() { lemma_chain_per(ix.peripherals, p.unref(), d, e, set![e.push(p.nm())]); }
    if let Some((z, path)) = based(ix.peripherals, p, e) {
        assert(z.reference() is None);
        assert(info_of(z).derived_from is None);
        assert(cov(ix.clusters.dom(), children_of(info_of(z)), path));
        match info_of(z).registers {
            None => { if let Out::Done(w) = per_elems(z) { assert forall|i: int| 0 <= i < w.len() implies plain_per(#[trigger] w[i]) by {} } },
            Some(s) => {
                lemma_kids_out(ix, Seq::empty(), s@, path, Set::empty());
                if let Out::Done(v) = kids_out(ix, Seq::empty(), s@, path, Set::empty()) {
                    if held(v) {
                        let y = with_info(z, PeripheralInfo { registers: Some(list_of(v)), ..info_of(z) });
                        if let Out::Done(w) = per_elems(y) { assert forall|i: int| 0 <= i < w.len() implies plain_per(#[trigger] w[i]) by {} }
                    }
                }
            },
        }
    }
}
pub proof fn lemma_pers_out(ix: Ix, acc: Seq<Peripheral>, s: Seq<Peripheral>)
    requires closed(ix), pers_cov(ix.clusters.dom(), s), plain_pers(acc),
    ensures !(pers_out(ix, acc, s) is Never), pers_out(ix, acc, s) matches Out::Done(v) ==> plain_pers(v),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(s[0] == s[0]);
        lemma_per_out(ix, s[0]);
        let t = s.drop_first();
        assert(pers_cov(ix.clusters.dom(), t)) by {
            assert forall|i: int| 0 <= i < t.len() implies cov(ix.clusters.dom(), children_of(info_of(#[trigger] t[i])), Seq::<Seq<char>>::empty().push(info_of(t[i]).name@)) by { assert(t[i] == s[i + 1]); }
        }
        if let Out::Done(v) = per_out(ix, s[0]) { assert(plain_pers(acc + v)); lemma_pers_out(ix, acc + v, t); }
    }
}
// no device is expanded to anything else: single peripherals, registers and fields, without references
pub proof fn lemma_device_out(d: Device)
    ensures !(device_out(d) is Never), device_out(d) matches Out::Done(v) ==> plain_pers(v),
{
    lemma_index_closed(d);
    lemma_pers_out(index_spec(d), Seq::empty(), d.peripherals@);
}
