// ------------------------------------------------------------------ hashing of maps
/// the entries' hashes, added up
pub open spec fn hsum<K, V>(s: Seq<(K, V)>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { hsum(s.drop_last()) + hfin(hcode_entry(s.last().0, s.last().1)) }
}
/// what a map feeds to a hasher
pub open spec fn map_hcode<K, V>(s: Seq<(K, V)>) -> Seq<u64> {
    hcode_usize(s.len() as usize) + hcode_u64((hsum(s) % 0x1_0000_0000_0000_0000) as u64)
}
/// Eq of two maps: as many entries, and every entry of the one is in the other
pub open spec fn map_eq<K, V>(a: Seq<(K, V)>, b: Seq<(K, V)>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] has_entry(b, a[i])
}
pub open spec fn has_entry<K, V>(b: Seq<(K, V)>, e: (K, V)) -> bool {
    exists|j: int| 0 <= j < b.len() && same_entry(e, #[trigger] b[j])
}
pub open spec fn same_entry<K, V>(a: (K, V), b: (K, V)) -> bool { keq(a.0, b.0) && a.1 == b.1 }
/// Eq of the keys is an equivalence
pub open spec fn keq_ok<K>() -> bool {
    &&& forall|a: K, b: K| #[trigger] keq(a, b) ==> keq(b, a)
    &&& forall|a: K, b: K, c: K| #[trigger] keq(a, b) && #[trigger] keq(b, c) ==> keq(a, c)
}
/// Hash of the keys agrees with their Eq
pub open spec fn hash_ok<K, V>() -> bool {
    forall|a: K, b: K, v: V| keq(a, b) ==> #[trigger] hcode_entry(a, v) == #[trigger] hcode_entry(b, v)
}
pub proof fn lemma_hsum_step<K, V>(s: Seq<(K, V)>, i: int)
    requires 0 <= i < s.len()
    ensures hsum(s.take(i + 1)) == hsum(s.take(i)) + hfin(hcode_entry(s[i].0, s[i].1))
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
proof fn lemma_hsum_remove<K, V>(s: Seq<(K, V)>, j: int)
    requires 0 <= j < s.len()
    ensures hsum(s) == hsum(s.remove(j)) + hfin(hcode_entry(s[j].0, s[j].1))
    decreases s.len()
{
    if j == s.len() - 1 {
        assert(s.remove(j) =~= s.drop_last());
    } else {
        lemma_hsum_remove(s.drop_last(), j);
        assert(s.remove(j).drop_last() =~= s.drop_last().remove(j));
        assert(s.remove(j).last() == s.last());
    }
}
proof fn lemma_hsum_eq<K, V>(a: Seq<(K, V)>, b: Seq<(K, V)>)
    requires map_eq(a, b), im_nodup(a), keq_ok::<K>(), hash_ok::<K, V>()
    ensures hsum(a) == hsum(b)
    decreases a.len()
{
    if a.len() > 0 {
        let n = a.len() - 1;
        assert(has_entry(b, a[n]));
        let j = choose|j: int| 0 <= j < b.len() && same_entry(a[n], #[trigger] b[j]);
        let c = b.remove(j);
        let d = a.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] has_entry(c, d[i]) by {
            assert(has_entry(b, a[i]));
            let k = choose|k: int| 0 <= k < b.len() && same_entry(a[i], #[trigger] b[k]);
            if k == j {
                assert(keq(a[i].0, b[j].0) && keq(b[j].0, a[n].0));
                assert(keq(a[i].0, a[n].0));
                assert(false);
            }
            let m = if k < j { k } else { k - 1 };
            assert(c[m] == b[k]);
            assert(same_entry(d[i], c[m]));
        }
        assert(im_nodup(d)) by {
            assert forall|i: int, k: int| 0 <= i < k < d.len() implies !keq((#[trigger] d[i]).0, (#[trigger] d[k]).0) by {
                assert(d[i] == a[i] && d[k] == a[k]);
            }
        }
        lemma_hsum_eq(d, c);
        lemma_hsum_remove(b, j);
        assert(hcode_entry(a[n].0, a[n].1) == hcode_entry(b[j].0, a[n].1));
    } else {
        assert(a =~= b);
    }
}
/// Maps that are equal, whatever the order of their entries, feed the same to a hasher.
pub proof fn lemma_map_hash<K, V>(a: IndexMap<K, V>, b: IndexMap<K, V>)
    requires map_eq(a@, b@), keq_ok::<K>(), hash_ok::<K, V>()
    ensures map_hcode(a@) == map_hcode(b@)
{
    broadcast use ax_im_ext;
    lemma_hsum_eq(a@, b@);
}
