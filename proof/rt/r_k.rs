// ------------------------------------------------------------------ lists of what was read
pub proof fn lemma_good_props(v: Vec<Property>, n: int, ty: Seq<char>, e: Env, st: Seq<String>, sl: Option<u32>)
    requires 0 <= n <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> good(#[trigger] v@[i], ty, false, e, st, sl)
    ensures wok_props(v, n, e.cv), small(enc_props(v, n, e.cv)) ==> (forall|i: int| 0 <= i < n ==> rt_prop(#[trigger] v@[i], ty, false, e, st, sl))
    decreases n
{
    if n > 0 {
        lemma_good_props(v, n - 1, ty, e, st, sl);
        assert(good(v@[n - 1], ty, false, e, st, sl));
    }
}
pub proof fn lemma_rt_all(v: Vec<Property>, n: int, ty: Seq<char>, e: Env, st: Seq<String>, sl: Option<u32>)
    requires 0 <= n <= v@.len(), forall|i: int| 0 <= i < n ==> rt_prop(#[trigger] v@[i], ty, false, e, st, sl)
    ensures rt_props(v, n, ty, e, st, sl)
    decreases n
{ if n > 0 { lemma_rt_all(v, n - 1, ty, e, st, sl); } }
/// bytes per element of what is written
pub proof fn lemma_len_unknown(v: Vec<Property>, n: int, ty: Seq<char>, e: Env, st: Seq<String>, sl: Option<u32>)
    requires 0 <= n <= v@.len(), !is_kind(ty), forall|i: int| 0 <= i < n ==> rt_prop(#[trigger] v@[i], ty, false, e, st, sl)
    ensures n > 0 ==> sl is Some, n > 0 ==> enc_props(v, n, e.cv).len() == n * sl->Some_0, n == 0 ==> enc_props(v, n, e.cv).len() == 0
    decreases n
{
    if n > 0 {
        lemma_len_unknown(v, n - 1, ty, e, st, sl);
        assert(rt_prop(v@[n - 1], ty, false, e, st, sl));
        let k = sl->Some_0 as int;
        match v@[n - 1] { Property::UnknownProperty(x) => { assert(enc_prop(v@[n - 1], false, e.cv) == x.raw@); assert(x.raw@.len() == k); }, _ => { assert(false); } }
        assert((n - 1) * k + k == n * k) by (nonlinear_arith);
        assert(enc_props(v, n, e.cv) == enc_props(v, n - 1, e.cv) + enc_prop(v@[n - 1], false, e.cv));
    }
}
pub proof fn lemma_len_byte(v: Vec<Property>, n: int, e: Env, st: Seq<String>, sl: Option<u32>)
    requires 0 <= n <= v@.len(), forall|i: int| 0 <= i < n ==> rt_prop(#[trigger] v@[i], "ByteProperty"@, false, e, st, sl)
    ensures sl is None || sl->Some_0 <= 2 ==> enc_props(v, n, e.cv).len() == n, sl is Some && sl->Some_0 > 2 ==> enc_props(v, n, e.cv).len() >= 5 * n
    decreases n
{
    if n > 0 {
        lemma_len_byte(v, n - 1, e, st, sl);
        assert(rt_prop(v@[n - 1], "ByteProperty"@, false, e, st, sl));
        lemma_kinds_apart();
        assert(enc_props(v, n, e.cv) == enc_props(v, n - 1, e.cv) + enc_prop(v@[n - 1], false, e.cv));
        match v@[n - 1] { Property::ByteProperty(b) => { assert(enc_prop(v@[n - 1], false, e.cv) == eb_byte(b.value)); match b.value { BytePropertyValue::Namespaced(s) => { lemma_string_len(s@); }, _ => {} } }, _ => { assert(false); } }
    }
}
/// the element size found in what was read and the one found in what is written lead to the same elements
#[verifier::spinoff_prover]
pub proof fn lemma_resize(v: Vec<Property>, ty: Seq<char>, e: Env, st: Seq<String>, sl: Option<u32>, zl: Option<u32>)
    requires forall|i: int| 0 <= i < v@.len() ==> rt_prop(#[trigger] v@[i], ty, false, e, st, sl),
        v@.len() > 0 ==> zl == Some((enc_props(v, v@.len() as int, e.cv).len() / v@.len()) as u32), small(enc_props(v, v@.len() as int, e.cv))
    ensures rt_props(v, v@.len() as int, ty, e, st, zl)
{
    let n = v@.len() as int; let l = enc_props(v, n, e.cv).len() as int;
    if n > 0 {
        if !is_kind(ty) {
            lemma_len_unknown(v, n, ty, e, st, sl);
            let k = sl->Some_0 as int;
            assert(n * k / n == k) by (nonlinear_arith) requires n > 0;
            assert(zl == sl);
        } else if ty == "ByteProperty"@ {
            lemma_len_byte(v, n, e, st, sl);
            if sl is None || sl->Some_0 <= 2 { assert(l / n == 1) by (nonlinear_arith) requires n > 0, l == n; }
            else {
                assert(5 <= l / n <= l) by (nonlinear_arith) requires n > 0, l >= 5 * n;
            }
        }
        assert forall|i: int| 0 <= i < n implies rt_prop(#[trigger] v@[i], ty, false, e, st, zl) by {
            assert(rt_prop(v@[i], ty, false, e, st, sl));
            lemma_kinds_apart();
        }
    }
    lemma_rt_all(v, n, ty, e, st, zl);
}
pub proof fn lemma_good_svs(v: Vec<StructPropertyValue>, n: int, e: Env, st: Seq<String>, tn: Seq<char>)
    requires 0 <= n <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> good_sv(#[trigger] v@[i], e, st, tn)
    ensures wok_svs(v, n, e.cv), small(enc_svs(v, n, e.cv)) ==> rt_svs(v, n, e, st, tn)
    decreases n
{
    if n > 0 {
        lemma_good_svs(v, n - 1, e, st, tn);
        assert(good_sv(v@[n - 1], e, st, tn));
    }
}
pub open spec fn pk_good(ty: Seq<char>, e: Env, st: Seq<String>) -> spec_fn(Property) -> bool { |x: Property| good(x, ty, false, e, st, None) }
pub proof fn lemma_good_pairs(v: IndexMap<Property, Property>, n: int, kt: Seq<char>, vt: Seq<char>, e: Env, st: Seq<String>)
    requires 0 <= n <= v@.len(), all_kv(v@, pk_good(kt, e, st.push(mkstr("Key"@))), pk_good(vt, e, st.push(mkstr("Value"@))))
    ensures wok_pairs(v, n, e.cv), small(enc_pairs(v, n, e.cv)) ==> rt_pairs(v, n, kt, vt, e, st)
    decreases n
{
    if n > 0 {
        lemma_good_pairs(v, n - 1, kt, vt, e, st);
        assert(pk_good(kt, e, st.push(mkstr("Key"@)))(v@[n - 1].0));
    }
}
pub proof fn lemma_good_kprops(v: IndexMap<String, Property>, n: int, vt: Seq<char>, e: Env, st: Seq<String>)
    requires 0 <= n <= v@.len(), all_kv(v@, pk_str(), pk_good(vt, e, st.push(mkstr("Value"@))))
    ensures wok_kprops(v, n, e.cv), small(enc_kprops(v, n, e.cv)) ==> rt_kprops(v, n, vt, e, st)
    decreases n
{
    if n > 0 {
        lemma_good_kprops(v, n - 1, vt, e, st);
        assert(pk_str()(v@[n - 1].0));
    }
}
/// the values of one name
pub open spec fn good_vals(v: Vec<Property>, e: Env, st: Seq<String>) -> bool {
    v@.len() > 0 && forall|j: int| 0 <= j < v@.len() ==> good(#[trigger] v@[j], kind_of(v@[j]), true, e, st, None)
}
pub open spec fn good_fields(s: Seq<(String, Vec<Property>)>, e: Env, st: Seq<String>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0@ != "None"@ && str_ok(s[i].0@) && good_vals(s[i].1, e, st.push(s[i].0))
}
pub proof fn lemma_good_field(k: Seq<char>, v: Vec<Property>, n: int, e: Env, st: Seq<String>)
    requires 0 <= n <= v@.len(), str_ok(k), good_vals(v, e, st)
    ensures wok_field(k, v, n, e.cv), small(enc_field(k, v, n, e.cv)) ==> rt_field(v, n, e, st)
    decreases n
{
    if n > 0 {
        lemma_good_field(k, v, n - 1, e, st);
        assert(good(v@[n - 1], kind_of(v@[n - 1]), true, e, st, None));
    }
}
pub proof fn lemma_good_fields(v: IndexMap<String, Vec<Property>>, n: int, e: Env, st: Seq<String>)
    requires 0 <= n <= v@.len(), good_fields(v@, e, st)
    ensures wok_fields(v, n, e.cv), small(enc_fields(v, n, e.cv)) ==> rt_fields(v, n, e, st)
    decreases n
{
    if n > 0 {
        lemma_good_fields(v, n - 1, e, st);
        assert(v@[n - 1].0@ != "None"@);
        lemma_good_field(v@[n - 1].0@, v@[n - 1].1, v@[n - 1].1@.len() as int, e, st.push(v@[n - 1].0));
    }
}
/// how long the lists may still become
pub open spec fn room_for(s: Seq<(String, Vec<Property>)>, k: int) -> bool {
    s.len() + k < LIM && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1@.len() + k < LIM
}
pub proof fn lemma_push_good(s: Seq<(String, Vec<Property>)>, k: String, x: Property, e: Env, st: Seq<String>, l: int)
    requires im_nodup(s), good_fields(s, e, st), room_for(s, l), l > 0, k@ != "None"@, str_ok(k@), good(x, kind_of(x), true, e, st.push(k), None)
    ensures im_nodup(im_push(s, k, x)), good_fields(im_push(s, k, x), e, st), room_for(im_push(s, k, x), l - 1)
{
    broadcast use {ax_mkvec, ax_keq_str};
    lemma_find(s, k);
    let r = im_push(s, k, x);
    let at = match im_find(s, k) { Some(i) => i, None => s.len() as int };
    let old = if at < s.len() { s[at].1@ } else { Seq::empty() };
    assert(r[at].0 == k);
    assert(r[at].1@ =~= old.push(x));
    assert(good_vals(r[at].1, e, st.push(k))) by {
        if at < s.len() { assert(s[at].0@ != "None"@); assert(good_vals(s[at].1, e, st.push(s[at].0))); }
        let v = r[at].1;
        assert forall|j: int| 0 <= j < v@.len() implies good(#[trigger] v@[j], kind_of(v@[j]), true, e, st.push(k), None) by {
            if j < old.len() { assert(v@[j] == s[at].1@[j]); }
        }
    }
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).0@ != "None"@ && str_ok(r[i].0@) && good_vals(r[i].1, e, st.push(r[i].0)) && r[i].1@.len() + (l - 1) < LIM by {
        if i != at { assert(r[i] == s[i]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies !keq((#[trigger] r[i]).0, (#[trigger] r[j]).0) by {
        if j < s.len() { assert(!keq(s[i].0, s[j].0)); } else { assert(!keq(s[i].0, k)); }
    }
}
