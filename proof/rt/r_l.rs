// ------------------------------------------------------------------ collections: the form chosen while reading
pub proof fn lemma_coll_each<A, B>(s: Seq<A>, n: int, f: spec_fn(A) -> Option<B>)
    requires 0 <= n <= s.len(), coll(s, n, f) is Some
    ensures coll(s, n, f)->Some_0.len() == n, forall|i: int| 0 <= i < n ==> f(#[trigger] s[i]) == Some(coll(s, n, f)->Some_0[i])
    decreases n
{
    if n > 0 {
        lemma_coll_each(s, n - 1, f);
        let r = coll(s, n - 1, f)->Some_0;
        assert forall|i: int| 0 <= i < n implies f(#[trigger] s[i]) == Some(coll(s, n, f)->Some_0[i]) by { if i < n - 1 { assert(f(s[i]) == Some(r[i])); } }
    }
}
pub proof fn lemma_collm_each<A, K, V>(s: Seq<A>, n: int, f: spec_fn(A) -> Option<(K, V)>, pk: spec_fn(K) -> bool, pv: spec_fn(V) -> bool)
    requires 0 <= n <= s.len(), collm(s, n, f) is Some, forall|i: int| 0 <= i < n && f(#[trigger] s[i]) is Some ==> pk(f(s[i])->Some_0.0) && pv(f(s[i])->Some_0.1)
    ensures collm(s, n, f)->Some_0.len() <= n, im_nodup(collm(s, n, f)->Some_0), all_kv(collm(s, n, f)->Some_0, pk, pv)
    decreases n
{
    if n > 0 {
        lemma_collm_each(s, n - 1, f, pk, pv);
        let b = f(s[n - 1])->Some_0;
        lemma_insert_all(collm(s, n - 1, f)->Some_0, b.0, b.1, pk, pv);
    }
}
pub proof fn lemma_w_each<T>(v: Seq<T>, n: int, g: spec_fn(T) -> bool)
    requires 0 <= n <= v.len(), forall|i: int| 0 <= i < n ==> g(#[trigger] v[i])
    ensures w_each(v, n, g)
    decreases n
{ if n > 0 { lemma_w_each(v, n - 1, g); } }
pub open spec fn pv_any<V>() -> spec_fn(V) -> bool { |v: V| true }
pub open spec fn pv_ostr() -> spec_fn(Option<String>) -> bool { |v: Option<String>| fstr_ok(osv(v)) }
pub proof fn lemma_map_sbool(v: Seq<(Property, Property)>, f: spec_fn((Property, Property)) -> Option<(String, bool)>)
    requires collm(v, v.len() as int, f) is Some, v.len() < LIM, forall|i: int| 0 <= i < v.len() && f(#[trigger] v[i]) is Some ==> str_ok(f(v[i])->Some_0.0@)
    ensures ({ let r = mkim(collm(v, v.len() as int, f)->Some_0); w_each(r@, r@.len() as int, fw_sbool()) })
{
    broadcast use ax_mkim;
    lemma_collm_each(v, v.len() as int, f, pk_str(), pv_any::<bool>());
    let r = collm(v, v.len() as int, f)->Some_0;
    assert forall|i: int| 0 <= i < r.len() implies fw_sbool()(#[trigger] r[i]) by { assert(pk_str()(r[i].0)); }
    lemma_w_each(r, r.len() as int, fw_sbool());
}
pub proof fn lemma_map_sint(v: Seq<(Property, Property)>, f: spec_fn((Property, Property)) -> Option<(String, i32)>)
    requires collm(v, v.len() as int, f) is Some, v.len() < LIM, forall|i: int| 0 <= i < v.len() && f(#[trigger] v[i]) is Some ==> str_ok(f(v[i])->Some_0.0@)
    ensures ({ let r = mkim(collm(v, v.len() as int, f)->Some_0); w_each(r@, r@.len() as int, fw_sint()) })
{
    broadcast use ax_mkim;
    lemma_collm_each(v, v.len() as int, f, pk_str(), pv_any::<i32>());
    let r = collm(v, v.len() as int, f)->Some_0;
    assert forall|i: int| 0 <= i < r.len() implies fw_sint()(#[trigger] r[i]) by { assert(pk_str()(r[i].0)); }
    lemma_w_each(r, r.len() as int, fw_sint());
}
pub proof fn lemma_map_sstr(v: Seq<(Property, Property)>, f: spec_fn((Property, Property)) -> Option<(String, Option<String>)>)
    requires collm(v, v.len() as int, f) is Some, v.len() < LIM, forall|i: int| 0 <= i < v.len() && f(#[trigger] v[i]) is Some ==> str_ok(f(v[i])->Some_0.0@) && fstr_ok(osv(f(v[i])->Some_0.1))
    ensures ({ let r = mkim(collm(v, v.len() as int, f)->Some_0); w_each(r@, r@.len() as int, fw_sstr()) })
{
    broadcast use ax_mkim;
    lemma_collm_each(v, v.len() as int, f, pk_str(), pv_ostr());
    let r = collm(v, v.len() as int, f)->Some_0;
    assert forall|i: int| 0 <= i < r.len() implies fw_sstr()(#[trigger] r[i]) by { assert(pk_str()(r[i].0)); }
    lemma_w_each(r, r.len() as int, fw_sstr());
}
pub proof fn lemma_map_props(v: Seq<(Property, Property)>, f: spec_fn((Property, Property)) -> Option<(String, Property)>, vt: Seq<char>, e: Env, st: Seq<String>)
    requires collm(v, v.len() as int, f) is Some, v.len() < LIM,
        forall|i: int| 0 <= i < v.len() && f(#[trigger] v[i]) is Some ==> str_ok(f(v[i])->Some_0.0@) && good(f(v[i])->Some_0.1, vt, false, e, st.push(mkstr("Value"@)), None)
    ensures ({ let r = mkim(collm(v, v.len() as int, f)->Some_0); wok_kprops(r, r@.len() as int, e.cv) && (small(enc_kprops(r, r@.len() as int, e.cv)) ==> rt_kprops(r, r@.len() as int, vt, e, st)) })
{
    broadcast use ax_mkim;
    lemma_collm_each(v, v.len() as int, f, pk_str(), pk_good(vt, e, st.push(mkstr("Value"@))));
    let r = mkim(collm(v, v.len() as int, f)->Some_0);
    lemma_good_kprops(r, r@.len() as int, vt, e, st);
}
pub open spec fn good_map(x: MapProperty, e: Env, st: Seq<String>) -> bool {
    wok_map(x, true, e.cv) && (small(enc_map(x, true, e.cv)) ==> rt_map(x, e, st))
}
/// a key of kind `kt` has a string that can be written
pub open spec fn key_wok(x: Property) -> bool {
    match x { Property::EnumProperty(k) => str_ok(k.value@), Property::NameProperty(k) => fstr_ok(osv(k.value)), Property::StrProperty(k) => fstr_ok(osv(k.value)), _ => true }
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn b_map(kt: String, vt: String, fl: u32, m: IndexMap<Property, Property>, e: Env, st: Seq<String>)
    requires str_ok(kt@), str_ok(vt@), all_kv(m@, pk_good(kt@, e, st.push(mkstr("Key"@))), pk_good(vt@, e, st.push(mkstr("Value"@))))
    ensures good_map(map_new(kt, vt, fl, HashableIndexMap(m)), e, st)
{
    broadcast use {ax_mkim, ax_im_ext};
    lemma_kinds_apart(); lemma_kinds();
    let v = m@; let n = v.len() as int;
    lemma_good_pairs(m, n, kt@, vt@, e, st);
    assert forall|i: int| 0 <= i < n implies key_wok((#[trigger] v[i]).0) && key_wok(v[i].1) && good(v[i].1, vt@, false, e, st.push(mkstr("Value"@)), None) by {
        assert(pk_good(kt@, e, st.push(mkstr("Key"@)))(v[i].0));
        assert(pk_good(vt@, e, st.push(mkstr("Value"@)))(v[i].1));
    }
    let x = map_new(kt, vt, fl, HashableIndexMap(m));
    match x {
        MapProperty::EnumBool { enum_bools } => { lemma_map_sbool(v, fm_enum_bools()); },
        MapProperty::NameBool { name_bools } => { lemma_map_sbool(v, fm_name_bools()); },
        MapProperty::StrBool { str_bools } => { lemma_map_sbool(v, fm_str_bools()); },
        MapProperty::EnumInt { enum_ints } => { lemma_map_sint(v, fm_enum_ints()); },
        MapProperty::NameInt { name_ints } => { lemma_map_sint(v, fm_name_ints()); },
        MapProperty::StrInt { str_ints } => { lemma_map_sint(v, fm_str_ints()); },
        MapProperty::StrStr { str_strs } => { lemma_map_sstr(v, fm_str_strs()); },
        MapProperty::EnumProperty { value_type, enum_props } => { lemma_map_props(v, fm_enum_props(), vt@, e, st); },
        MapProperty::NameProperty { value_type, name_props } => { lemma_map_props(v, fm_name_props(), vt@, e, st); },
        MapProperty::StrProperty { value_type, str_props } => { lemma_map_props(v, fm_str_props(), vt@, e, st); },
        MapProperty::Properties { key_type, value_type, allocation_flags, value } => {},
    }
}
pub open spec fn good_array(x: ArrayProperty, e: Env, st: Seq<String>) -> bool {
    wok_array(x, true, e.cv) && (small(enc_array(x, true, e.cv)) ==> rt_array(x, e, st))
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn b_array(t: String, v: Vec<Property>, e: Env, st: Seq<String>, sl: Option<u32>)
    requires str_ok(t@), t@ != "StructProperty"@, v@.len() <= u32::MAX, forall|i: int| 0 <= i < v@.len() ==> good(#[trigger] v@[i], t@, false, e, st, sl)
    ensures arr_new(t, None, v) is Some, good_array(arr_new(t, None, v)->Some_0, e, st)
{
    broadcast use {ax_mkvec};
    lemma_kinds_apart(); lemma_kinds();
    let n = v@.len() as int;
    lemma_good_props(v, n, t@, e, st, sl);
    let x = arr_new(t, None, v)->Some_0;
    match x {
        ArrayProperty::Bools { bools } => { lemma_w_each(bools@, bools@.len() as int, fw_bools()); },
        ArrayProperty::Bytes { bytes } => { lemma_w_each(bytes@, bytes@.len() as int, fw_bytes()); },
        ArrayProperty::Ints { ints } => { lemma_w_each(ints@, ints@.len() as int, fw_ints()); },
        ArrayProperty::Floats { floats } => { lemma_w_each(floats@, floats@.len() as int, fw_floats()); },
        ArrayProperty::Enums { enums } => {
            lemma_coll_each(v@, n, fa_enums());
            assert forall|i: int| 0 <= i < enums@.len() implies fw_enums()(#[trigger] enums@[i]) by { assert(good(v@[i], t@, false, e, st, sl)); assert(fa_enums()(v@[i]) == Some(enums@[i])); }
            lemma_w_each(enums@, enums@.len() as int, fw_enums());
        },
        ArrayProperty::Names { names } => {
            lemma_coll_each(v@, n, fa_names());
            assert forall|i: int| 0 <= i < names@.len() implies fw_names()(#[trigger] names@[i]) by { assert(good(v@[i], t@, false, e, st, sl)); assert(fa_names()(v@[i]) == Some(names@[i])); }
            lemma_w_each(names@, names@.len() as int, fw_names());
        },
        ArrayProperty::Strings { strings } => {
            lemma_coll_each(v@, n, fa_strings());
            assert forall|i: int| 0 <= i < strings@.len() implies fw_strings()(#[trigger] strings@[i]) by { assert(good(v@[i], t@, false, e, st, sl)); assert(fa_strings()(v@[i]) == Some(strings@[i])); }
            lemma_w_each(strings@, strings@.len() as int, fw_strings());
        },
        ArrayProperty::Structs { field_name, type_name, guid, structs } => {},
        ArrayProperty::Properties { property_type, properties } => {
            if small(enc_array(x, true, e.cv)) {
                lemma_resize(v, t@, e, st, sl, arr_sl(n as u32, (4 + enc_props(v, n, e.cv).len()) as u32));
            }
        },
    }
}
pub proof fn b_structs(t: String, f: String, tn: String, g: Guid, v: Vec<Property>, e: Env, st: Seq<String>)
    requires str_ok(f@), str_ok(tn@), t@ == "StructProperty"@,
        forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) is StructPropertyValue && good_sv(v@[i]->StructPropertyValue_0, e, st, tn@)
    ensures arr_new(t, Some((f, tn, g)), v) matches Some(x) ==> good_array(x, e, st)
{
    broadcast use {ax_mkvec, ax_vec_len};
    lemma_kinds();
    let n = v@.len() as int;
    if let Some(s) = coll(v@, n, fa_structs()) {
        lemma_coll_each(v@, n, fa_structs());
        let w = mkvec(s);
        assert forall|i: int| 0 <= i < w@.len() implies good_sv(#[trigger] w@[i], e, st, tn@) by { assert(fa_structs()(v@[i]) == Some(w@[i])); }
        lemma_good_svs(w, n, e, st, tn@);
    }
}
