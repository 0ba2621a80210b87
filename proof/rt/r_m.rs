// ------------------------------------------------------------------ whatever reading returns can be written, and is of the form reading returns
pub open spec fn good_all(v: Seq<Property>, ty: Seq<char>, e: Env, st: Seq<String>, sl: Option<u32>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> good(#[trigger] v[i], ty, false, e, st, sl)
}
pub open spec fn good_structs(v: Seq<Property>, e: Env, st: Seq<String>, tn: Seq<char>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is StructPropertyValue && good_sv(v[i]->StructPropertyValue_0, e, st, tn)
}
pub open spec fn pair_good(m: Seq<(Property, Property)>, kt: Seq<char>, vt: Seq<char>, e: Env, st: Seq<String>) -> bool {
    all_kv(m, pk_good(kt, e, st.push(mkstr("Key"@))), pk_good(vt, e, st.push(mkstr("Value"@))))
}
pub proof fn b_sv_flat(d: Seq<u8>, p: int, e: Env, st: Seq<String>, tn: Seq<char>)
    requires 0 <= p, is_struct(tn)
    ensures p_sv(d, p, e, st, tn) matches Ok((x, q)) ==> good_sv(x, e, st, tn)
{
    lemma_structs_apart();
    if tn == "GameplayTagContainer"@ {
        if let Ok((n, q)) = p_i32(d, p) {
            b_strings(d, q, n as int, Seq::empty());
        }
    }
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn b_sv(d: Seq<u8>, p: int, e: Env, st: Seq<String>, tn: Seq<char>)
    requires 0 <= p <= d.len() < LIM
    ensures p_sv(d, p, e, st, tn) matches Ok((x, q)) ==> good_sv(x, e, st, tn)
    decreases d.len() - p, 3int, 0int
{
    if is_struct(tn) { b_sv_flat(d, p, e, st, tn); } else { b_fields(d, p, e, st, Seq::empty()); }
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn b_fields(d: Seq<u8>, p: int, e: Env, st: Seq<String>, acc: Seq<(String, Vec<Property>)>)
    requires 0 <= p <= d.len() < LIM, im_nodup(acc), good_fields(acc, e, st), room_for(acc, d.len() - p)
    ensures p_fields(d, p, e, st, acc) matches Ok((m, q)) ==> wok_fields(m, m@.len() as int, e.cv) && (small(enc_fields(m, m@.len() as int, e.cv)) ==> rt_fields(m, m@.len() as int, e, st))
    decreases d.len() - p, 2int, 0int
{
    broadcast use {lemma_read_string, ax_mkstr, ax_mkim};
    if let Ok((k, q)) = p_string(d, p) {
        if k@ == "None"@ {
            let m = mkim(acc);
            lemma_good_fields(m, m@.len() as int, e, st);
        } else if let Ok((t, q)) = p_string(d, q) {
            if p < q <= d.len() {
                b_prop(d, q, e, st.push(k), t@, true, None);
                if let Ok((x, z)) = p_prop(d, q, e, st.push(k), t@, true, None) {
                    if q <= z <= d.len() {
                        lemma_push_good(acc, k, x, e, st, d.len() - p);
                        let r = im_push(acc, k, x);
                        assert(room_for(r, d.len() - z));
                        b_fields(d, z, e, st, r);
                    }
                }
            }
        }
    }
}
pub proof fn b_structh(d: Seq<u8>, p: int, e: Env, st: Seq<String>)
    requires 0 <= p <= d.len() < LIM
    ensures p_structh(d, p, e, st) matches Ok((x, q)) ==> str_ok(x.type_name@) && good_sv(x.value, e, st, x.type_name@)
    decreases d.len() - p, 3int, 0int
{
    broadcast use {lemma_read_string, ax_mkstr};
    if let Ok((n, q)) = p_len_idx(d, p) {
        if let Ok((tn, q)) = p_string(d, q) {
            if let Ok((g, q)) = p_guid(d, q) {
                if let Ok((_z, q)) = p_zero(d, q) {
                    if p < q <= d.len() { b_sv(d, q, e, st, tn@); }
                }
            }
        }
    }
}
pub proof fn b_props(d: Seq<u8>, p: int, e: Env, st: Seq<String>, ty: Seq<char>, sl: Option<u32>, n: int, acc: Seq<Property>)
    requires 0 <= p <= d.len() < LIM, str_ok(ty), good_all(acc, ty, e, st, sl), acc.len() + n <= u32::MAX, acc.len() <= u32::MAX
    ensures p_props(d, p, e, st, ty, sl, n, acc) matches Ok((v, q)) ==> good_all(v@, ty, e, st, sl) && v@.len() <= u32::MAX && (n >= 0 ==> v@.len() == acc.len() + n)
    decreases d.len() - p, 5int, n
{
    broadcast use {ax_mkvec};
    if n > 0 {
        b_prop(d, p, e, st, ty, false, sl);
        if let Ok((x, q)) = p_prop(d, p, e, st, ty, false, sl) {
            if p <= q <= d.len() { b_props(d, q, e, st, ty, sl, n - 1, acc.push(x)); }
        }
    }
}
pub proof fn b_svs(d: Seq<u8>, p: int, e: Env, st: Seq<String>, tn: Seq<char>, n: int, acc: Seq<Property>)
    requires 0 <= p <= d.len() < LIM, good_structs(acc, e, st, tn), acc.len() + n <= u32::MAX, acc.len() <= u32::MAX
    ensures p_svs(d, p, e, st, tn, n, acc) matches Ok((v, q)) ==> good_structs(v@, e, st, tn) && v@.len() <= u32::MAX
    decreases d.len() - p, 5int, n
{
    broadcast use {ax_mkvec};
    if n > 0 {
        b_sv(d, p, e, st, tn);
        if let Ok((x, q)) = p_sv(d, p, e, st, tn) {
            if p <= q <= d.len() { b_svs(d, q, e, st, tn, n - 1, acc.push(Property::StructPropertyValue(x))); }
        }
    }
}
pub proof fn b_pairs(d: Seq<u8>, p: int, e: Env, st: Seq<String>, kt: Seq<char>, vt: Seq<char>, n: int, acc: Seq<(Property, Property)>)
    requires 0 <= p <= d.len() < LIM, str_ok(kt), str_ok(vt), im_nodup(acc), pair_good(acc, kt, vt, e, st), acc.len() + n <= u32::MAX, acc.len() <= u32::MAX
    ensures p_pairs(d, p, e, st, kt, vt, n, acc) matches Ok((m, q)) ==> pair_good(m@, kt, vt, e, st)
    decreases d.len() - p, 5int, n
{
    broadcast use {ax_mkim};
    let kst = st.push(mkstr("Key"@)); let vst = st.push(mkstr("Value"@));
    if n > 0 {
        b_prop(d, p, e, kst, kt, false, None);
        if let Ok((k, q)) = p_prop(d, p, e, kst, kt, false, None) {
            if p <= q <= d.len() {
                b_prop(d, q, e, vst, vt, false, None);
                if let Ok((x, z)) = p_prop(d, q, e, vst, vt, false, None) {
                    if p <= z <= d.len() {
                        lemma_insert_all(acc, k, x, pk_good(kt, e, kst), pk_good(vt, e, vst));
                        b_pairs(d, z, e, st, kt, vt, n - 1, im_insert(acc, k, x));
                    }
                }
            }
        }
    }
}
pub proof fn b_arrayb(d: Seq<u8>, p: int, e: Env, st: Seq<String>, len: u32, t: String)
    requires 0 <= p <= d.len() < LIM, str_ok(t@)
    ensures p_arrayb(d, p, e, st, len, t) matches Ok((x, q)) ==> good_array(x, e, st)
    decreases d.len() - p, 6int, 0int
{
    broadcast use {lemma_read_string, ax_mkstr};
    if let Ok((c, q)) = p_u32(d, p) {
        if t@ == "StructProperty"@ {
            if let Ok((f, q)) = p_string(d, q) {
            if let Ok((t2, q)) = p_string(d, q) {
            if let Ok((sz, q)) = p_u64(d, q) {
            if let Ok((tn, q)) = p_string(d, q) {
            if let Ok((g, q)) = p_guid(d, q) {
            if let Ok((_z, q)) = p_zero(d, q) {
                if p < q <= d.len() {
                    b_svs(d, q, e, st, tn@, c as int, Seq::empty());
                    if let Ok((v, z)) = p_svs(d, q, e, st, tn@, c as int, Seq::empty()) { b_structs(t, f, tn, g, v, e, st); }
                }
            } } } } } }
        } else {
            b_props(d, q, e, st, t@, arr_sl(c, len), c as int, Seq::empty());
            if let Ok((v, z)) = p_props(d, q, e, st, t@, arr_sl(c, len), c as int, Seq::empty()) { b_array(t, v, e, st, arr_sl(c, len)); }
        }
    }
}
pub proof fn b_arrayh(d: Seq<u8>, p: int, e: Env, st: Seq<String>)
    requires 0 <= p <= d.len() < LIM
    ensures p_arrayh(d, p, e, st) matches Ok((x, q)) ==> good_array(x, e, st)
    decreases d.len() - p, 3int, 0int
{
    broadcast use {lemma_read_string, ax_mkstr};
    if let Ok(((n, t), q)) = p_hdr1(d, p) {
        if p < q <= d.len() { b_arrayb(d, q, e, st, n, t); }
    }
}
pub open spec fn good_set(x: SetProperty, e: Env, st: Seq<String>) -> bool {
    wok_set(x, true, e.cv) && (small(enc_set(x, true, e.cv)) ==> rt_set(x, e, st))
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn b_setb(d: Seq<u8>, p: int, e: Env, st: Seq<String>, len: u32, t: String)
    requires 0 <= p <= d.len() < LIM, str_ok(t@)
    ensures p_setb(d, p, e, st, len, t) matches Ok((x, q)) ==> good_set(x, e, st)
    decreases d.len() - p, 6int, 0int
{
    if let Ok((f, q)) = p_u32(d, p) {
        if let Ok((c, q)) = p_u32(d, q) {
            let sl = Some(set_sl(c, len));
            b_props(d, q, e, st, t@, sl, c as int, Seq::empty());
            if let Ok((v, z)) = p_props(d, q, e, st, t@, sl, c as int, Seq::empty()) {
                let x = SetProperty { property_type: t, allocation_flags: f, properties: v };
                let n = v@.len() as int;
                lemma_good_props(v, n, t@, e, st, sl);
                if small(enc_set(x, true, e.cv)) {
                    lemma_resize(v, t@, e, st, sl, Some(set_sl(n as u32, (8 + enc_props(v, n, e.cv).len()) as u32)));
                }
            }
        }
    }
}
pub proof fn b_seth(d: Seq<u8>, p: int, e: Env, st: Seq<String>)
    requires 0 <= p <= d.len() < LIM
    ensures p_seth(d, p, e, st) matches Ok((x, q)) ==> good_set(x, e, st)
    decreases d.len() - p, 3int, 0int
{
    broadcast use {lemma_read_string, ax_mkstr};
    if let Ok(((n, t), q)) = p_hdr1(d, p) {
        if p < q <= d.len() { b_setb(d, q, e, st, n, t); }
    }
}
pub proof fn b_mapb(d: Seq<u8>, p: int, e: Env, st: Seq<String>, kt: String, vt: String)
    requires 0 <= p <= d.len() < LIM, str_ok(kt@), str_ok(vt@)
    ensures p_mapb(d, p, e, st, kt, vt) matches Ok((x, q)) ==> good_map(x, e, st)
    decreases d.len() - p, 6int, 0int
{
    if let Ok((f, q)) = p_u32(d, p) {
        if let Ok((c, q)) = p_u32(d, q) {
            b_pairs(d, q, e, st, kt@, vt@, c as int, Seq::empty());
            if let Ok((m, z)) = p_pairs(d, q, e, st, kt@, vt@, c as int, Seq::empty()) { b_map(kt, vt, f, m, e, st); }
        }
    }
}
pub proof fn b_maph(d: Seq<u8>, p: int, e: Env, st: Seq<String>)
    requires 0 <= p <= d.len() < LIM
    ensures p_maph(d, p, e, st) matches Ok((x, q)) ==> good_map(x, e, st)
    decreases d.len() - p, 3int, 0int
{
    broadcast use {lemma_read_string, ax_mkstr};
    if let Ok(((n, kt, vt), q)) = p_hdr2(d, p) {
        if p < q <= d.len() { b_mapb(d, q, e, st, kt, vt); }
    }
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn b_prop(d: Seq<u8>, p: int, e: Env, st0: Seq<String>, ty: Seq<char>, hdr: bool, sl: Option<u32>)
    requires 0 <= p <= d.len() < LIM, str_ok(ty)
    ensures p_prop(d, p, e, st0, ty, hdr, sl) matches Ok((x, q)) ==> good(x, ty, hdr, e, st0, sl)
    decreases d.len() - p, 4int, 0int
{
    let st = st0.push(mkstr(ty));
    lemma_kinds_apart();
    if !nested(ty) { b_leaf(d, p, e, st0, ty, hdr, sl); }
    else if ty == "StructProperty"@ {
        if hdr { b_structh(d, p, e, st); }
        else if e.h.contains_key(join_spec(st, "."@)) { b_sv(d, p, e, st, e.h[join_spec(st, "."@)]@); }
    }
    else if !hdr { }
    else if ty == "ArrayProperty"@ { b_arrayh(d, p, e, st); }
    else if ty == "SetProperty"@ { b_seth(d, p, e, st); }
    else { b_maph(d, p, e, st); }
}
