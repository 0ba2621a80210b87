// ------------------------------------------------------------------ what was read can be written, and is in the form C01 speaks of
pub open spec fn good(x: Property, ty: Seq<char>, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>) -> bool {
    wok_prop(x, hdr, e.cv) && (small(enc_prop(x, hdr, e.cv)) ==> rt_prop(x, ty, hdr, e, st0, sl))
}
pub open spec fn good_sv(x: StructPropertyValue, e: Env, st: Seq<String>, tn: Seq<char>) -> bool {
    wok_sv(x, e.cv) && (small(enc_sv(x, e.cv)) ==> rt_sv(x, e, st, tn))
}
pub proof fn lemma_string_len(s: Seq<char>) ensures e_string(s).len() >= 5
{ reveal(e_string); broadcast use {lemma_e16_len, lemma_e32_len}; let w = enc16(s); lemma_e_words_len(w, w.len() as int); }
pub proof fn b_strings(d: Seq<u8>, p: int, n: int, acc: Seq<String>)
    requires 0 <= p, w_strings(acc, acc.len() as int), acc.len() + (if n > 0 { n } else { 0 }) <= u32::MAX
    ensures p_strings(d, p, n, acc) matches Ok((v, q)) ==> w_strings(v@, v@.len() as int) && p <= q
    decreases n
{
    broadcast use {ax_mkvec, lemma_read_string};
    if n > 0 {
        if let Ok((x, q)) = p_string(d, p) {
            lemma_w_strings(acc, acc.push(x), acc.len() as int);
            b_strings(d, q, n - 1, acc.push(x));
        }
    }
}
pub proof fn lemma_w_strings(a: Seq<String>, b: Seq<String>, n: int)
    requires w_strings(a, n), n <= a.len() <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures w_strings(b, n)
    decreases n
{ if n > 0 { lemma_w_strings(a, b, n - 1); } }
pub proof fn b_delegates(d: Seq<u8>, p: int, n: int, acc: Seq<Delegate>)
    requires 0 <= p, w_delegates(acc, acc.len() as int), acc.len() + (if n > 0 { n } else { 0 }) <= u32::MAX
    ensures p_delegates(d, p, n, acc) matches Ok((v, q)) ==> w_delegates(v@, v@.len() as int) && p <= q
    decreases n
{
    broadcast use {ax_mkvec, lemma_read_string};
    if n > 0 {
        if let Ok((x, q)) = p_delegate(d, p) {
            lemma_w_delegates(acc, acc.push(x), acc.len() as int);
            b_delegates(d, q, n - 1, acc.push(x));
        }
    }
}
pub proof fn lemma_w_delegates(a: Seq<Delegate>, b: Seq<Delegate>, n: int)
    requires w_delegates(a, n), n <= a.len() <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures w_delegates(b, n)
    decreases n
{ if n > 0 { lemma_w_delegates(a, b, n - 1); } }
/// the kinds that hold no other properties
pub open spec fn nested(ty: Seq<char>) -> bool { ty == "StructProperty"@ || ty == "ArrayProperty"@ || ty == "SetProperty"@ || ty == "MapProperty"@ }
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn b_leaf(d: Seq<u8>, p: int, e: Env, st0: Seq<String>, ty: Seq<char>, hdr: bool, sl: Option<u32>)
    requires 0 <= p, str_ok(ty), !nested(ty)
    ensures p_prop(d, p, e, st0, ty, hdr, sl) matches Ok((x, q)) ==> good(x, ty, hdr, e, st0, sl)
{
    lemma_kinds_apart();
    broadcast use {lemma_read_fstring, lemma_read_string, ax_mkstr, ax_mkvec};
    if ty == "TextProperty"@ {
        if hdr { b_text(d, p + 9, e.cv); } else { b_text(d, p, e.cv); }
    } else if ty == "MulticastInlineDelegateProperty"@ || ty == "MulticastSparseDelegateProperty"@ {
        let q = if hdr { p + 9 } else { p };
        b_delegates(d, q + 4, u32_at(d, q) as int, Seq::empty());
    } else if ty == "FieldPathProperty"@ {
        let q = if hdr { p + 9 } else { p };
        b_strings(d, q + 4, u32_at(d, q) as int, Seq::empty());
    }
}
