// ------------------------------------------------------------------ maps as they are built while reading
pub open spec fn all_kv<K, V>(s: Seq<(K, V)>, pk: spec_fn(K) -> bool, pv: spec_fn(V) -> bool) -> bool {
    forall|i: int| 0 <= i < s.len() ==> pk((#[trigger] s[i]).0) && pv(s[i].1)
}
pub proof fn lemma_find<K, V>(s: Seq<(K, V)>, k: K)
    ensures match im_find(s, k) {
        Some(i) => 0 <= i < s.len() && keq(s[i].0, k),
        None => forall|i: int| 0 <= i < s.len() ==> !keq((#[trigger] s[i]).0, k),
    }
    decreases s.len()
{
    if s.len() > 0 && !keq(s.last().0, k) {
        lemma_find(s.drop_last(), k);
        assert forall|i: int| im_find(s, k) is None && 0 <= i < s.len() implies !keq((#[trigger] s[i]).0, k) by {
            if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); }
        }
    }
}
pub proof fn lemma_insert_all<K, V>(s: Seq<(K, V)>, k: K, v: V, pk: spec_fn(K) -> bool, pv: spec_fn(V) -> bool)
    requires im_nodup(s), all_kv(s, pk, pv), pk(k), pv(v)
    ensures im_nodup(im_insert(s, k, v)), all_kv(im_insert(s, k, v), pk, pv), im_insert(s, k, v).len() <= s.len() + 1
{
    lemma_find(s, k);
    let r = im_insert(s, k, v);
    assert forall|i: int| 0 <= i < r.len() implies pk((#[trigger] r[i]).0) && pv(r[i].1) by { if i < s.len() { assert(pk(s[i].0)); } }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies !keq((#[trigger] r[i]).0, (#[trigger] r[j]).0) by {
        if j < s.len() { assert(!keq(s[i].0, s[j].0)); } else { assert(!keq(s[i].0, k)); }
    }
}
// ------------------------------------------------------------------ text
pub proof fn lemma_all_args(v: Vec<FormatArgumentValue>, n: int, cv: Seq<(Guid, u32)>)
    requires forall|i: int| 0 <= i < v@.len() ==> wok_arg(#[trigger] v@[i], cv)
    ensures wok_args(v, n, cv)
    decreases n
{ if 0 < n <= v@.len() { lemma_all_args(v, n - 1, cv); } }
pub open spec fn pk_str() -> spec_fn(String) -> bool { |k: String| str_ok(k@) }
pub open spec fn pv_arg(cv: Seq<(Guid, u32)>) -> spec_fn(FormatArgumentValue) -> bool { |v: FormatArgumentValue| wok_arg(v, cv) }
pub proof fn lemma_all_named(m: IndexMap<String, FormatArgumentValue>, n: int, cv: Seq<(Guid, u32)>)
    requires all_kv(m@, pk_str(), pv_arg(cv))
    ensures wok_named(m, n, cv)
    decreases n
{ if 0 < n <= m@.len() { lemma_all_named(m, n - 1, cv); assert(pk_str()(m@[n - 1].0)); } }
pub open spec fn up(d: Seq<u8>, p: int, q: int) -> bool { p <= q <= d.len() }
pub proof fn b_text(d: Seq<u8>, p: int, cv: Seq<(Guid, u32)>)
    requires 0 <= p
    ensures p_text(d, p, cv) matches Ok((x, q)) ==> wok_text(x, cv) && up(d, p + 5, q)
    decreases d.len() - p, 0int, 0int
{ if p + 4 <= d.len() { b_hist(d, p + 4, cv); } }
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn b_hist(d: Seq<u8>, p: int, cv: Seq<(Guid, u32)>)
    requires 0 <= p
    ensures p_hist(d, p, cv) matches Ok((x, q)) ==> wok_hist(x, cv) && up(d, p + 1, q)
    decreases d.len() - p, 0int, 0int
{
    broadcast use {lemma_read_fstring, lemma_read_string};
    let s = p + 1;
    if s <= d.len() {
        b_text(d, s, cv);
        b_arg(d, s, cv);
        if let Ok((_, q)) = p_text(d, s, cv) {
            if let Ok((n, q)) = p_i32(d, q) {
                b_args(d, q, cv, n as int, Seq::empty());
                b_named(d, q, cv, n as int, Seq::empty());
            }
        }
        if let Ok((_, q)) = p_fstring(d, s) { b_arg(d, q, cv); }
    }
}
pub proof fn b_arg(d: Seq<u8>, p: int, cv: Seq<(Guid, u32)>)
    requires 0 <= p
    ensures p_arg(d, p, cv) matches Ok((x, q)) ==> wok_arg(x, cv) && up(d, p + 1, q)
    decreases d.len() - p, 0int, 0int
{ if p + 1 <= d.len() { b_text(d, p + 1, cv); } }
pub proof fn b_args(d: Seq<u8>, p: int, cv: Seq<(Guid, u32)>, n: int, acc: Seq<FormatArgumentValue>)
    requires 0 <= p <= d.len(), forall|i: int| 0 <= i < acc.len() ==> wok_arg(#[trigger] acc[i], cv), n <= i32::MAX, acc.len() + (if n > 0 { n } else { 0 }) <= i32::MAX
    ensures p_args(d, p, cv, n, acc) matches Ok((v, q)) ==> wok_args(v, v@.len() as int, cv) && up(d, p, q)
    decreases d.len() - p, 1int, n
{
    if n <= 0 {
        broadcast use {ax_mkvec};
        lemma_all_args(mkvec(acc), acc.len() as int, cv);
    } else {
        b_arg(d, p, cv);
        if let Ok((v, q)) = p_arg(d, p, cv) { if p < q <= d.len() { b_args(d, q, cv, n - 1, acc.push(v)); } }
    }
}
pub proof fn b_named(d: Seq<u8>, p: int, cv: Seq<(Guid, u32)>, n: int, acc: Seq<(String, FormatArgumentValue)>)
    requires 0 <= p <= d.len(), im_nodup(acc), all_kv(acc, pk_str(), pv_arg(cv)), n <= i32::MAX, acc.len() + (if n > 0 { n } else { 0 }) <= i32::MAX
    ensures p_named(d, p, cv, n, acc) matches Ok((v, q)) ==> wok_named(v, v@.len() as int, cv) && up(d, p, q)
    decreases d.len() - p, 1int, n
{
    if n <= 0 {
        broadcast use {ax_mkim};
        lemma_all_named(mkim(acc), acc.len() as int, cv);
    } else {
        lemma_read_string(d, p);
        if let Ok((k, q)) = p_string(d, p) {
            if p <= q <= d.len() {
                b_arg(d, q, cv);
                if let Ok((v, q)) = p_arg(d, q, cv) {
                    if p < q <= d.len() {
                        lemma_insert_all(acc, k, v, pk_str(), pv_arg(cv));
                        b_named(d, q, cv, n - 1, im_insert(acc, k, v));
                    }
                }
            }
        }
    }
}
