// ------------------------------------------------------------------ reading back what was written: properties
pub broadcast axiom fn ax_keq_enum(a: EnumProperty, b: EnumProperty) ensures #[trigger] keq(Property::EnumProperty(a), Property::EnumProperty(b)) <==> a == b;
pub broadcast axiom fn ax_keq_name(a: NameProperty, b: NameProperty) ensures #[trigger] keq(Property::NameProperty(a), Property::NameProperty(b)) <==> a == b;
pub broadcast axiom fn ax_keq_strp(a: StrProperty, b: StrProperty) ensures #[trigger] keq(Property::StrProperty(a), Property::StrProperty(b)) <==> a == b;
pub proof fn lemma_delegates_size(v: Seq<Delegate>, n: int)
    requires 0 <= n <= v.len()
    ensures e_delegates(v, n).len() >= n
    decreases n
{ broadcast use {ax_all, lemma_string_size, lemma_fstring_size}; if n > 0 { lemma_delegates_size(v, n - 1); } }
pub proof fn lemma_strings_size(v: Seq<String>, n: int)
    requires 0 <= n <= v.len()
    ensures e_strings(v, n).len() >= n
    decreases n
{ broadcast use {ax_all, lemma_string_size}; if n > 0 { lemma_strings_size(v, n - 1); } }
pub proof fn lemma_pk_Int8Property(d: Seq<u8>, p: int, v: Int8Property, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::Int8Property(v), hdr, e.cv)), wok_prop(Property::Int8Property(v), hdr, e.cv), rt_prop(Property::Int8Property(v), "Int8Property"@, hdr, e, st0, sl), small(d)
    ensures kind_at(d, p, "Int8Property"@, hdr), p_prop(d, past(p, "Int8Property"@, hdr), e, st0, "Int8Property"@, hdr, sl) == Ok::<(Property, int), E>((Property::Int8Property(v), p + enc_prop(Property::Int8Property(v), hdr, e.cv).len()))
{ lemma_kinds_apart(); lemma_rt_i8(d, p, v, hdr); }
pub proof fn lemma_pk_Int16Property(d: Seq<u8>, p: int, v: Int16Property, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::Int16Property(v), hdr, e.cv)), wok_prop(Property::Int16Property(v), hdr, e.cv), rt_prop(Property::Int16Property(v), "Int16Property"@, hdr, e, st0, sl), small(d)
    ensures kind_at(d, p, "Int16Property"@, hdr), p_prop(d, past(p, "Int16Property"@, hdr), e, st0, "Int16Property"@, hdr, sl) == Ok::<(Property, int), E>((Property::Int16Property(v), p + enc_prop(Property::Int16Property(v), hdr, e.cv).len()))
{ lemma_kinds_apart(); lemma_rt_i16(d, p, v, hdr); }
pub proof fn lemma_pk_UInt16Property(d: Seq<u8>, p: int, v: UInt16Property, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::UInt16Property(v), hdr, e.cv)), wok_prop(Property::UInt16Property(v), hdr, e.cv), rt_prop(Property::UInt16Property(v), "UInt16Property"@, hdr, e, st0, sl), small(d)
    ensures kind_at(d, p, "UInt16Property"@, hdr), p_prop(d, past(p, "UInt16Property"@, hdr), e, st0, "UInt16Property"@, hdr, sl) == Ok::<(Property, int), E>((Property::UInt16Property(v), p + enc_prop(Property::UInt16Property(v), hdr, e.cv).len()))
{ lemma_kinds_apart(); lemma_rt_u16(d, p, v, hdr); }
pub proof fn lemma_pk_IntProperty(d: Seq<u8>, p: int, v: IntProperty, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::IntProperty(v), hdr, e.cv)), wok_prop(Property::IntProperty(v), hdr, e.cv), rt_prop(Property::IntProperty(v), "IntProperty"@, hdr, e, st0, sl), small(d)
    ensures kind_at(d, p, "IntProperty"@, hdr), p_prop(d, past(p, "IntProperty"@, hdr), e, st0, "IntProperty"@, hdr, sl) == Ok::<(Property, int), E>((Property::IntProperty(v), p + enc_prop(Property::IntProperty(v), hdr, e.cv).len()))
{ lemma_kinds_apart(); lemma_rt_i32(d, p, v, hdr); }
pub proof fn lemma_pk_UInt32Property(d: Seq<u8>, p: int, v: UInt32Property, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::UInt32Property(v), hdr, e.cv)), wok_prop(Property::UInt32Property(v), hdr, e.cv), rt_prop(Property::UInt32Property(v), "UInt32Property"@, hdr, e, st0, sl), small(d)
    ensures kind_at(d, p, "UInt32Property"@, hdr), p_prop(d, past(p, "UInt32Property"@, hdr), e, st0, "UInt32Property"@, hdr, sl) == Ok::<(Property, int), E>((Property::UInt32Property(v), p + enc_prop(Property::UInt32Property(v), hdr, e.cv).len()))
{ lemma_kinds_apart(); lemma_rt_u32(d, p, v, hdr); }
pub proof fn lemma_pk_Int64Property(d: Seq<u8>, p: int, v: Int64Property, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::Int64Property(v), hdr, e.cv)), wok_prop(Property::Int64Property(v), hdr, e.cv), rt_prop(Property::Int64Property(v), "Int64Property"@, hdr, e, st0, sl), small(d)
    ensures kind_at(d, p, "Int64Property"@, hdr), p_prop(d, past(p, "Int64Property"@, hdr), e, st0, "Int64Property"@, hdr, sl) == Ok::<(Property, int), E>((Property::Int64Property(v), p + enc_prop(Property::Int64Property(v), hdr, e.cv).len()))
{ lemma_kinds_apart(); lemma_rt_i64(d, p, v, hdr); }
pub proof fn lemma_pk_UInt64Property(d: Seq<u8>, p: int, v: UInt64Property, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::UInt64Property(v), hdr, e.cv)), wok_prop(Property::UInt64Property(v), hdr, e.cv), rt_prop(Property::UInt64Property(v), "UInt64Property"@, hdr, e, st0, sl), small(d)
    ensures kind_at(d, p, "UInt64Property"@, hdr), p_prop(d, past(p, "UInt64Property"@, hdr), e, st0, "UInt64Property"@, hdr, sl) == Ok::<(Property, int), E>((Property::UInt64Property(v), p + enc_prop(Property::UInt64Property(v), hdr, e.cv).len()))
{ lemma_kinds_apart(); lemma_rt_u64(d, p, v, hdr); }
pub proof fn lemma_pk_FloatProperty(d: Seq<u8>, p: int, v: FloatProperty, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::FloatProperty(v), hdr, e.cv)), wok_prop(Property::FloatProperty(v), hdr, e.cv), rt_prop(Property::FloatProperty(v), "FloatProperty"@, hdr, e, st0, sl), small(d)
    ensures kind_at(d, p, "FloatProperty"@, hdr), p_prop(d, past(p, "FloatProperty"@, hdr), e, st0, "FloatProperty"@, hdr, sl) == Ok::<(Property, int), E>((Property::FloatProperty(v), p + enc_prop(Property::FloatProperty(v), hdr, e.cv).len()))
{ lemma_kinds_apart(); lemma_rt_f32(d, p, v, hdr); }
pub proof fn lemma_pk_DoubleProperty(d: Seq<u8>, p: int, v: DoubleProperty, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::DoubleProperty(v), hdr, e.cv)), wok_prop(Property::DoubleProperty(v), hdr, e.cv), rt_prop(Property::DoubleProperty(v), "DoubleProperty"@, hdr, e, st0, sl), small(d)
    ensures kind_at(d, p, "DoubleProperty"@, hdr), p_prop(d, past(p, "DoubleProperty"@, hdr), e, st0, "DoubleProperty"@, hdr, sl) == Ok::<(Property, int), E>((Property::DoubleProperty(v), p + enc_prop(Property::DoubleProperty(v), hdr, e.cv).len()))
{ lemma_kinds_apart(); lemma_rt_f64(d, p, v, hdr); }
pub proof fn lemma_pk_BoolProperty(d: Seq<u8>, p: int, v: BoolProperty, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::BoolProperty(v), hdr, e.cv)), wok_prop(Property::BoolProperty(v), hdr, e.cv), rt_prop(Property::BoolProperty(v), "BoolProperty"@, hdr, e, st0, sl), small(d)
    ensures kind_at(d, p, "BoolProperty"@, hdr), p_prop(d, past(p, "BoolProperty"@, hdr), e, st0, "BoolProperty"@, hdr, sl) == Ok::<(Property, int), E>((Property::BoolProperty(v), p + enc_prop(Property::BoolProperty(v), hdr, e.cv).len()))
{ lemma_kinds_apart(); lemma_rt_bool(d, p, v, hdr); }
pub proof fn lemma_pk_ByteProperty(d: Seq<u8>, p: int, v: ByteProperty, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::ByteProperty(v), hdr, e.cv)), wok_prop(Property::ByteProperty(v), hdr, e.cv), rt_prop(Property::ByteProperty(v), "ByteProperty"@, hdr, e, st0, sl), small(d)
    ensures kind_at(d, p, "ByteProperty"@, hdr), p_prop(d, past(p, "ByteProperty"@, hdr), e, st0, "ByteProperty"@, hdr, sl) == Ok::<(Property, int), E>((Property::ByteProperty(v), p + enc_prop(Property::ByteProperty(v), hdr, e.cv).len()))
{ lemma_kinds_apart(); lemma_rt_byte(d, p, v, hdr, sl); }
pub proof fn lemma_pk_EnumProperty(d: Seq<u8>, p: int, v: EnumProperty, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::EnumProperty(v), hdr, e.cv)), wok_prop(Property::EnumProperty(v), hdr, e.cv), rt_prop(Property::EnumProperty(v), "EnumProperty"@, hdr, e, st0, sl), small(d)
    ensures kind_at(d, p, "EnumProperty"@, hdr), p_prop(d, past(p, "EnumProperty"@, hdr), e, st0, "EnumProperty"@, hdr, sl) == Ok::<(Property, int), E>((Property::EnumProperty(v), p + enc_prop(Property::EnumProperty(v), hdr, e.cv).len()))
{ lemma_kinds_apart(); lemma_rt_enum(d, p, v, hdr); }
pub proof fn lemma_pk_StrProperty(d: Seq<u8>, p: int, v: StrProperty, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::StrProperty(v), hdr, e.cv)), wok_prop(Property::StrProperty(v), hdr, e.cv), rt_prop(Property::StrProperty(v), "StrProperty"@, hdr, e, st0, sl), small(d)
    ensures kind_at(d, p, "StrProperty"@, hdr), p_prop(d, past(p, "StrProperty"@, hdr), e, st0, "StrProperty"@, hdr, sl) == Ok::<(Property, int), E>((Property::StrProperty(v), p + enc_prop(Property::StrProperty(v), hdr, e.cv).len()))
{ lemma_kinds_apart(); lemma_rt_str(d, p, v, hdr); }
pub proof fn lemma_pk_TextProperty(d: Seq<u8>, p: int, v: TextProperty, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::TextProperty(v), hdr, e.cv)), wok_prop(Property::TextProperty(v), hdr, e.cv), rt_prop(Property::TextProperty(v), "TextProperty"@, hdr, e, st0, sl), small(d)
    ensures kind_at(d, p, "TextProperty"@, hdr), p_prop(d, past(p, "TextProperty"@, hdr), e, st0, "TextProperty"@, hdr, sl) == Ok::<(Property, int), E>((Property::TextProperty(v), p + enc_prop(Property::TextProperty(v), hdr, e.cv).len()))
{ lemma_kinds_apart(); lemma_rt_textp(d, p, v, hdr, e.cv); }
pub proof fn lemma_pk_NameProperty(d: Seq<u8>, p: int, v: NameProperty, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::NameProperty(v), hdr, e.cv)), wok_prop(Property::NameProperty(v), hdr, e.cv), rt_prop(Property::NameProperty(v), "NameProperty"@, hdr, e, st0, sl), small(d)
    ensures kind_at(d, p, "NameProperty"@, hdr), p_prop(d, past(p, "NameProperty"@, hdr), e, st0, "NameProperty"@, hdr, sl) == Ok::<(Property, int), E>((Property::NameProperty(v), p + enc_prop(Property::NameProperty(v), hdr, e.cv).len()))
{ lemma_kinds_apart(); lemma_rt_name(d, p, v, hdr); }
pub proof fn lemma_pk_ObjectProperty(d: Seq<u8>, p: int, v: ObjectProperty, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::ObjectProperty(v), hdr, e.cv)), wok_prop(Property::ObjectProperty(v), hdr, e.cv), rt_prop(Property::ObjectProperty(v), "ObjectProperty"@, hdr, e, st0, sl), small(d)
    ensures kind_at(d, p, "ObjectProperty"@, hdr), p_prop(d, past(p, "ObjectProperty"@, hdr), e, st0, "ObjectProperty"@, hdr, sl) == Ok::<(Property, int), E>((Property::ObjectProperty(v), p + enc_prop(Property::ObjectProperty(v), hdr, e.cv).len()))
{ lemma_kinds_apart(); lemma_rt_object(d, p, v, hdr); }
pub proof fn lemma_pk_DelegateProperty(d: Seq<u8>, p: int, v: DelegateProperty, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::DelegateProperty(v), hdr, e.cv)), wok_prop(Property::DelegateProperty(v), hdr, e.cv), rt_prop(Property::DelegateProperty(v), "DelegateProperty"@, hdr, e, st0, sl), small(d)
    ensures kind_at(d, p, "DelegateProperty"@, hdr), p_prop(d, past(p, "DelegateProperty"@, hdr), e, st0, "DelegateProperty"@, hdr, sl) == Ok::<(Property, int), E>((Property::DelegateProperty(v), p + enc_prop(Property::DelegateProperty(v), hdr, e.cv).len()))
{ lemma_kinds_apart(); lemma_rt_delegate(d, p, v, hdr); }
pub proof fn lemma_pk_MulticastInlineDelegateProperty(d: Seq<u8>, p: int, v: MulticastInlineDelegateProperty, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::MulticastInlineDelegateProperty(v), hdr, e.cv)), wok_prop(Property::MulticastInlineDelegateProperty(v), hdr, e.cv), rt_prop(Property::MulticastInlineDelegateProperty(v), "MulticastInlineDelegateProperty"@, hdr, e, st0, sl), small(d)
    ensures kind_at(d, p, "MulticastInlineDelegateProperty"@, hdr), p_prop(d, past(p, "MulticastInlineDelegateProperty"@, hdr), e, st0, "MulticastInlineDelegateProperty"@, hdr, sl) == Ok::<(Property, int), E>((Property::MulticastInlineDelegateProperty(v), p + enc_prop(Property::MulticastInlineDelegateProperty(v), hdr, e.cv).len()))
{ lemma_kinds_apart(); broadcast use ax_all; lemma_delegates_size(v.value.delegates@, v.value.delegates@.len() as int); lemma_rt_inline(d, p, v, hdr); }
pub proof fn lemma_pk_MulticastSparseDelegateProperty(d: Seq<u8>, p: int, v: MulticastSparseDelegateProperty, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::MulticastSparseDelegateProperty(v), hdr, e.cv)), wok_prop(Property::MulticastSparseDelegateProperty(v), hdr, e.cv), rt_prop(Property::MulticastSparseDelegateProperty(v), "MulticastSparseDelegateProperty"@, hdr, e, st0, sl), small(d)
    ensures kind_at(d, p, "MulticastSparseDelegateProperty"@, hdr), p_prop(d, past(p, "MulticastSparseDelegateProperty"@, hdr), e, st0, "MulticastSparseDelegateProperty"@, hdr, sl) == Ok::<(Property, int), E>((Property::MulticastSparseDelegateProperty(v), p + enc_prop(Property::MulticastSparseDelegateProperty(v), hdr, e.cv).len()))
{ lemma_kinds_apart(); broadcast use ax_all; lemma_delegates_size(v.value.delegates@, v.value.delegates@.len() as int); lemma_rt_sparse(d, p, v, hdr); }
pub proof fn lemma_pk_FieldPathProperty(d: Seq<u8>, p: int, v: FieldPathProperty, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::FieldPathProperty(v), hdr, e.cv)), wok_prop(Property::FieldPathProperty(v), hdr, e.cv), rt_prop(Property::FieldPathProperty(v), "FieldPathProperty"@, hdr, e, st0, sl), small(d)
    ensures kind_at(d, p, "FieldPathProperty"@, hdr), p_prop(d, past(p, "FieldPathProperty"@, hdr), e, st0, "FieldPathProperty"@, hdr, sl) == Ok::<(Property, int), E>((Property::FieldPathProperty(v), p + enc_prop(Property::FieldPathProperty(v), hdr, e.cv).len()))
{ lemma_kinds_apart(); broadcast use ax_all; lemma_strings_size(v.value.path@, v.value.path@.len() as int); lemma_rt_fpath(d, p, v, hdr); }
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_pk_unknown(d: Seq<u8>, p: int, v: UnknownProperty, ty: Seq<char>, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::UnknownProperty(v), hdr, e.cv)), wok_prop(Property::UnknownProperty(v), hdr, e.cv), rt_prop(Property::UnknownProperty(v), ty, hdr, e, st0, sl), small(d)
    ensures kind_at(d, p, ty, hdr), p_prop(d, past(p, ty, hdr), e, st0, ty, hdr, sl) == Ok::<(Property, int), E>((Property::UnknownProperty(v), p + enc_prop(Property::UnknownProperty(v), hdr, e.cv).len()))
{
    broadcast use {ax_all, rt_base};
    let b = v.raw@;
    let m = e_string(ty) + e32(b.len() as u32) + e32(0) + seq![0u8];
    if hdr { assert(at(d, p, m + b)); }
}
pub proof fn lemma_coll_lift<T>(v: Seq<T>, l: Seq<Property>, n: int, f: spec_fn(Property) -> Option<T>)
    requires l.len() == v.len(), 0 <= n <= v.len(), forall|i: int| 0 <= i < v.len() ==> f(#[trigger] l[i]) == Some(v[i])
    ensures coll(l, n, f) == Some(v.subrange(0, n))
    decreases n
{
    if n > 0 { lemma_coll_lift(v, l, n - 1, f); assert(v.subrange(0, n - 1).push(v[n - 1]) =~= v.subrange(0, n)); }
    else { assert(v.subrange(0, 0) =~= Seq::empty()); }
}
pub proof fn lemma_collm_lift<V>(v: Seq<(String, V)>, l: Seq<(Property, Property)>, n: int, f: spec_fn((Property, Property)) -> Option<(String, V)>)
    requires l.len() == v.len(), 0 <= n <= v.len(), im_nodup(v), forall|i: int| 0 <= i < v.len() ==> f(#[trigger] l[i]) == Some(v[i])
    ensures collm(l, n, f) == Some(v.subrange(0, n))
    decreases n
{
    if n > 0 { lemma_collm_lift(v, l, n - 1, f); lemma_im_next(v, n - 1); }
    else { assert(v.subrange(0, 0) =~= Seq::empty()); }
}
pub open spec fn up_bools(x: bool) -> BoolProperty { BoolProperty { value: x } }
pub open spec fn ups_bools(v: Seq<bool>) -> Seq<Property> { Seq::new(v.len(), |i: int| Property::BoolProperty(up_bools(v[i]))) }
#[verifier::spinoff_prover]
pub proof fn lemma_rt_arr_bools(d: Seq<u8>, p: int, v: Vec<bool>, e: Env, st: Seq<String>)
    requires at(d, p, enc_array(ArrayProperty::Bools { bools: v }, false, e.cv)), wok_array(ArrayProperty::Bools { bools: v }, true, e.cv), small(d)
    ensures p_arrayb(d, p, e, st, enc_array(ArrayProperty::Bools { bools: v }, false, e.cv).len() as u32, mkstr("BoolProperty"@)) == Ok::<(ArrayProperty, int), E>((ArrayProperty::Bools { bools: v }, p + enc_array(ArrayProperty::Bools { bools: v }, false, e.cv).len()))
{
    let n = v@.len() as int;
    let b = e_each(v@, n, fe_bools());
    lemma_e32_len(n as u32);
    lemma_at_cat(d, p, e32(n as u32), b);
    assert forall|x: bool| (#[trigger] fe_bools()(x)).len() >= 1 by { broadcast use {ax_all, lemma_string_size, lemma_fstring_size}; }
    lemma_each_size(v@, n, fe_bools());
    let len = (4 + b.len()) as u32;
    let sl = arr_sl(n as u32, len);
    
    let pos = |k: int| p + 4 + e_each(v@, k, fe_bools()).len();
    let l = ups_bools(v@);
    assert forall|k: int| 0 <= k < n implies p_prop(d, pos(k), e, st, "BoolProperty"@, false, sl) == Ok::<(Property, int), E>((#[trigger] l[k], pos(k + 1))) && pos(k) <= pos(k + 1) <= d.len() by {
        lemma_at_each(d, p + 4, v@, k, n, fe_bools(), fw_bools());
        let x = up_bools(v@[k]);
        assert(enc_prop(Property::BoolProperty(x), false, e.cv) == fe_bools()(v@[k]));
        lemma_pk_BoolProperty(d, pos(k), x, false, e, st, sl);
    }
    assert(l.subrange(0, 0) =~= Seq::empty());
    lemma_props_read(d, e, st, "BoolProperty"@, sl, l, pos, 0, Seq::empty());
    assert(e_each(v@, 0, fe_bools()).len() == 0);
    assert forall|i: int| 0 <= i < n implies fa_bools()(#[trigger] l[i]) == Some(v@[i]) by {}
    lemma_coll_lift(v@, l, n, fa_bools());
    assert(v@.subrange(0, n) =~= v@);
    lemma_at_u32(d, p, n as u32);
    lemma_kinds_apart();
    broadcast use {ax_mkvec, ax_vec_ext, ax_vec_len, ax_mkstr, ax_str_ext};
}
pub proof fn lemma_bytes_len(v: Seq<u8>, n: int)
    requires 0 <= n <= v.len()
    ensures e_each(v, n, fe_bytes()).len() == n
    decreases n
{ if n > 0 { lemma_bytes_len(v, n - 1); } }
pub open spec fn up_bytes(x: u8) -> ByteProperty { ByteProperty { name: None, value: BytePropertyValue::Byte(x) } }
pub open spec fn ups_bytes(v: Seq<u8>) -> Seq<Property> { Seq::new(v.len(), |i: int| Property::ByteProperty(up_bytes(v[i]))) }
#[verifier::spinoff_prover]
pub proof fn lemma_rt_arr_bytes(d: Seq<u8>, p: int, v: Vec<u8>, e: Env, st: Seq<String>)
    requires at(d, p, enc_array(ArrayProperty::Bytes { bytes: v }, false, e.cv)), wok_array(ArrayProperty::Bytes { bytes: v }, true, e.cv), small(d)
    ensures p_arrayb(d, p, e, st, enc_array(ArrayProperty::Bytes { bytes: v }, false, e.cv).len() as u32, mkstr("ByteProperty"@)) == Ok::<(ArrayProperty, int), E>((ArrayProperty::Bytes { bytes: v }, p + enc_array(ArrayProperty::Bytes { bytes: v }, false, e.cv).len()))
{
    let n = v@.len() as int;
    let b = e_each(v@, n, fe_bytes());
    lemma_e32_len(n as u32);
    lemma_at_cat(d, p, e32(n as u32), b);
    assert forall|x: u8| (#[trigger] fe_bytes()(x)).len() >= 1 by { broadcast use {ax_all, lemma_string_size, lemma_fstring_size}; }
    lemma_each_size(v@, n, fe_bytes());
    let len = (4 + b.len()) as u32;
    let sl = arr_sl(n as u32, len);
    if n > 0 { lemma_bytes_len(v@, n); assert((n as int) / (n as int) == 1) by (nonlinear_arith) requires n > 0; assert(sl == Some(1u32)); }
    let pos = |k: int| p + 4 + e_each(v@, k, fe_bytes()).len();
    let l = ups_bytes(v@);
    assert forall|k: int| 0 <= k < n implies p_prop(d, pos(k), e, st, "ByteProperty"@, false, sl) == Ok::<(Property, int), E>((#[trigger] l[k], pos(k + 1))) && pos(k) <= pos(k + 1) <= d.len() by {
        lemma_at_each(d, p + 4, v@, k, n, fe_bytes(), fw_bytes());
        let x = up_bytes(v@[k]);
        assert(enc_prop(Property::ByteProperty(x), false, e.cv) == fe_bytes()(v@[k]));
        lemma_pk_ByteProperty(d, pos(k), x, false, e, st, sl);
    }
    assert(l.subrange(0, 0) =~= Seq::empty());
    lemma_props_read(d, e, st, "ByteProperty"@, sl, l, pos, 0, Seq::empty());
    assert(e_each(v@, 0, fe_bytes()).len() == 0);
    assert forall|i: int| 0 <= i < n implies fa_bytes()(#[trigger] l[i]) == Some(v@[i]) by {}
    lemma_coll_lift(v@, l, n, fa_bytes());
    assert(v@.subrange(0, n) =~= v@);
    lemma_at_u32(d, p, n as u32);
    lemma_kinds_apart();
    broadcast use {ax_mkvec, ax_vec_ext, ax_vec_len, ax_mkstr, ax_str_ext};
}
pub open spec fn up_enums(x: String) -> EnumProperty { EnumProperty { enum_type: None, value: x } }
pub open spec fn ups_enums(v: Seq<String>) -> Seq<Property> { Seq::new(v.len(), |i: int| Property::EnumProperty(up_enums(v[i]))) }
#[verifier::spinoff_prover]
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_rt_arr_enums(d: Seq<u8>, p: int, v: Vec<String>, e: Env, st: Seq<String>)
    requires at(d, p, enc_array(ArrayProperty::Enums { enums: v }, false, e.cv)), wok_array(ArrayProperty::Enums { enums: v }, true, e.cv), small(d)
    ensures p_arrayb(d, p, e, st, enc_array(ArrayProperty::Enums { enums: v }, false, e.cv).len() as u32, mkstr("EnumProperty"@)) == Ok::<(ArrayProperty, int), E>((ArrayProperty::Enums { enums: v }, p + enc_array(ArrayProperty::Enums { enums: v }, false, e.cv).len()))
{
    let n = v@.len() as int;
    let b = e_each(v@, n, fe_enums());
    lemma_e32_len(n as u32);
    lemma_at_cat(d, p, e32(n as u32), b);
    assert forall|x: String| (#[trigger] fe_enums()(x)).len() >= 1 by { broadcast use {ax_all, lemma_string_size, lemma_fstring_size}; }
    lemma_each_size(v@, n, fe_enums());
    let len = (4 + b.len()) as u32;
    let sl = arr_sl(n as u32, len);
    
    let pos = |k: int| p + 4 + e_each(v@, k, fe_enums()).len();
    let l = ups_enums(v@);
    assert forall|k: int| 0 <= k < n implies p_prop(d, pos(k), e, st, "EnumProperty"@, false, sl) == Ok::<(Property, int), E>((#[trigger] l[k], pos(k + 1))) && pos(k) <= pos(k + 1) <= d.len() by {
        lemma_at_each(d, p + 4, v@, k, n, fe_enums(), fw_enums());
        let x = up_enums(v@[k]);
        assert(enc_prop(Property::EnumProperty(x), false, e.cv) == fe_enums()(v@[k]));
        lemma_pk_EnumProperty(d, pos(k), x, false, e, st, sl);
    }
    assert(l.subrange(0, 0) =~= Seq::empty());
    lemma_props_read(d, e, st, "EnumProperty"@, sl, l, pos, 0, Seq::empty());
    assert(e_each(v@, 0, fe_enums()).len() == 0);
    assert forall|i: int| 0 <= i < n implies fa_enums()(#[trigger] l[i]) == Some(v@[i]) by {}
    lemma_coll_lift(v@, l, n, fa_enums());
    assert(v@.subrange(0, n) =~= v@);
    lemma_at_u32(d, p, n as u32);
    lemma_kinds_apart();
    broadcast use {ax_mkvec, ax_vec_ext, ax_vec_len, ax_mkstr, ax_str_ext};
}
pub open spec fn up_ints(x: i32) -> IntProperty { IntProperty { value: x } }
pub open spec fn ups_ints(v: Seq<i32>) -> Seq<Property> { Seq::new(v.len(), |i: int| Property::IntProperty(up_ints(v[i]))) }
#[verifier::spinoff_prover]
pub proof fn lemma_rt_arr_ints(d: Seq<u8>, p: int, v: Vec<i32>, e: Env, st: Seq<String>)
    requires at(d, p, enc_array(ArrayProperty::Ints { ints: v }, false, e.cv)), wok_array(ArrayProperty::Ints { ints: v }, true, e.cv), small(d)
    ensures p_arrayb(d, p, e, st, enc_array(ArrayProperty::Ints { ints: v }, false, e.cv).len() as u32, mkstr("IntProperty"@)) == Ok::<(ArrayProperty, int), E>((ArrayProperty::Ints { ints: v }, p + enc_array(ArrayProperty::Ints { ints: v }, false, e.cv).len()))
{
    let n = v@.len() as int;
    let b = e_each(v@, n, fe_ints());
    lemma_e32_len(n as u32);
    lemma_at_cat(d, p, e32(n as u32), b);
    assert forall|x: i32| (#[trigger] fe_ints()(x)).len() >= 1 by { broadcast use {ax_all, lemma_string_size, lemma_fstring_size}; }
    lemma_each_size(v@, n, fe_ints());
    let len = (4 + b.len()) as u32;
    let sl = arr_sl(n as u32, len);
    
    let pos = |k: int| p + 4 + e_each(v@, k, fe_ints()).len();
    let l = ups_ints(v@);
    assert forall|k: int| 0 <= k < n implies p_prop(d, pos(k), e, st, "IntProperty"@, false, sl) == Ok::<(Property, int), E>((#[trigger] l[k], pos(k + 1))) && pos(k) <= pos(k + 1) <= d.len() by {
        lemma_at_each(d, p + 4, v@, k, n, fe_ints(), fw_ints());
        let x = up_ints(v@[k]);
        assert(enc_prop(Property::IntProperty(x), false, e.cv) == fe_ints()(v@[k]));
        lemma_pk_IntProperty(d, pos(k), x, false, e, st, sl);
    }
    assert(l.subrange(0, 0) =~= Seq::empty());
    lemma_props_read(d, e, st, "IntProperty"@, sl, l, pos, 0, Seq::empty());
    assert(e_each(v@, 0, fe_ints()).len() == 0);
    assert forall|i: int| 0 <= i < n implies fa_ints()(#[trigger] l[i]) == Some(v@[i]) by {}
    lemma_coll_lift(v@, l, n, fa_ints());
    assert(v@.subrange(0, n) =~= v@);
    lemma_at_u32(d, p, n as u32);
    lemma_kinds_apart();
    broadcast use {ax_mkvec, ax_vec_ext, ax_vec_len, ax_mkstr, ax_str_ext};
}
pub open spec fn up_floats(x: OrderedFloat<f32>) -> FloatProperty { FloatProperty { value: x } }
pub open spec fn ups_floats(v: Seq<OrderedFloat<f32>>) -> Seq<Property> { Seq::new(v.len(), |i: int| Property::FloatProperty(up_floats(v[i]))) }
#[verifier::spinoff_prover]
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_rt_arr_floats(d: Seq<u8>, p: int, v: Vec<OrderedFloat<f32>>, e: Env, st: Seq<String>)
    requires at(d, p, enc_array(ArrayProperty::Floats { floats: v }, false, e.cv)), wok_array(ArrayProperty::Floats { floats: v }, true, e.cv), small(d)
    ensures p_arrayb(d, p, e, st, enc_array(ArrayProperty::Floats { floats: v }, false, e.cv).len() as u32, mkstr("FloatProperty"@)) == Ok::<(ArrayProperty, int), E>((ArrayProperty::Floats { floats: v }, p + enc_array(ArrayProperty::Floats { floats: v }, false, e.cv).len()))
{
    let n = v@.len() as int;
    let b = e_each(v@, n, fe_floats());
    lemma_e32_len(n as u32);
    lemma_at_cat(d, p, e32(n as u32), b);
    assert forall|x: OrderedFloat<f32>| (#[trigger] fe_floats()(x)).len() >= 1 by { broadcast use {ax_all, lemma_string_size, lemma_fstring_size}; }
    lemma_each_size(v@, n, fe_floats());
    let len = (4 + b.len()) as u32;
    let sl = arr_sl(n as u32, len);
    
    let pos = |k: int| p + 4 + e_each(v@, k, fe_floats()).len();
    let l = ups_floats(v@);
    assert forall|k: int| 0 <= k < n implies p_prop(d, pos(k), e, st, "FloatProperty"@, false, sl) == Ok::<(Property, int), E>((#[trigger] l[k], pos(k + 1))) && pos(k) <= pos(k + 1) <= d.len() by {
        lemma_at_each(d, p + 4, v@, k, n, fe_floats(), fw_floats());
        let x = up_floats(v@[k]);
        assert(enc_prop(Property::FloatProperty(x), false, e.cv) == fe_floats()(v@[k]));
        lemma_pk_FloatProperty(d, pos(k), x, false, e, st, sl);
    }
    assert(l.subrange(0, 0) =~= Seq::empty());
    lemma_props_read(d, e, st, "FloatProperty"@, sl, l, pos, 0, Seq::empty());
    assert(e_each(v@, 0, fe_floats()).len() == 0);
    assert forall|i: int| 0 <= i < n implies fa_floats()(#[trigger] l[i]) == Some(v@[i]) by {}
    lemma_coll_lift(v@, l, n, fa_floats());
    assert(v@.subrange(0, n) =~= v@);
    lemma_at_u32(d, p, n as u32);
    lemma_kinds_apart();
    broadcast use {ax_mkvec, ax_vec_ext, ax_vec_len, ax_mkstr, ax_str_ext};
}
pub open spec fn up_names(x: Option<String>) -> NameProperty { NameProperty { array_index: 0, value: x } }
pub open spec fn ups_names(v: Seq<Option<String>>) -> Seq<Property> { Seq::new(v.len(), |i: int| Property::NameProperty(up_names(v[i]))) }
#[verifier::spinoff_prover]
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_rt_arr_names(d: Seq<u8>, p: int, v: Vec<Option<String>>, e: Env, st: Seq<String>)
    requires at(d, p, enc_array(ArrayProperty::Names { names: v }, false, e.cv)), wok_array(ArrayProperty::Names { names: v }, true, e.cv), small(d)
    ensures p_arrayb(d, p, e, st, enc_array(ArrayProperty::Names { names: v }, false, e.cv).len() as u32, mkstr("NameProperty"@)) == Ok::<(ArrayProperty, int), E>((ArrayProperty::Names { names: v }, p + enc_array(ArrayProperty::Names { names: v }, false, e.cv).len()))
{
    let n = v@.len() as int;
    let b = e_each(v@, n, fe_names());
    lemma_e32_len(n as u32);
    lemma_at_cat(d, p, e32(n as u32), b);
    assert forall|x: Option<String>| (#[trigger] fe_names()(x)).len() >= 1 by { broadcast use {ax_all, lemma_string_size, lemma_fstring_size}; }
    lemma_each_size(v@, n, fe_names());
    let len = (4 + b.len()) as u32;
    let sl = arr_sl(n as u32, len);
    
    let pos = |k: int| p + 4 + e_each(v@, k, fe_names()).len();
    let l = ups_names(v@);
    assert forall|k: int| 0 <= k < n implies p_prop(d, pos(k), e, st, "NameProperty"@, false, sl) == Ok::<(Property, int), E>((#[trigger] l[k], pos(k + 1))) && pos(k) <= pos(k + 1) <= d.len() by {
        lemma_at_each(d, p + 4, v@, k, n, fe_names(), fw_names());
        let x = up_names(v@[k]);
        assert(enc_prop(Property::NameProperty(x), false, e.cv) == fe_names()(v@[k]));
        lemma_pk_NameProperty(d, pos(k), x, false, e, st, sl);
    }
    assert(l.subrange(0, 0) =~= Seq::empty());
    lemma_props_read(d, e, st, "NameProperty"@, sl, l, pos, 0, Seq::empty());
    assert(e_each(v@, 0, fe_names()).len() == 0);
    assert forall|i: int| 0 <= i < n implies fa_names()(#[trigger] l[i]) == Some(v@[i]) by {}
    lemma_coll_lift(v@, l, n, fa_names());
    assert(v@.subrange(0, n) =~= v@);
    lemma_at_u32(d, p, n as u32);
    lemma_kinds_apart();
    broadcast use {ax_mkvec, ax_vec_ext, ax_vec_len, ax_mkstr, ax_str_ext};
}
pub open spec fn up_strings(x: Option<String>) -> StrProperty { StrProperty { value: x } }
pub open spec fn ups_strings(v: Seq<Option<String>>) -> Seq<Property> { Seq::new(v.len(), |i: int| Property::StrProperty(up_strings(v[i]))) }
#[verifier::spinoff_prover]
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_rt_arr_strings(d: Seq<u8>, p: int, v: Vec<Option<String>>, e: Env, st: Seq<String>)
    requires at(d, p, enc_array(ArrayProperty::Strings { strings: v }, false, e.cv)), wok_array(ArrayProperty::Strings { strings: v }, true, e.cv), small(d)
    ensures p_arrayb(d, p, e, st, enc_array(ArrayProperty::Strings { strings: v }, false, e.cv).len() as u32, mkstr("StrProperty"@)) == Ok::<(ArrayProperty, int), E>((ArrayProperty::Strings { strings: v }, p + enc_array(ArrayProperty::Strings { strings: v }, false, e.cv).len()))
{
    let n = v@.len() as int;
    let b = e_each(v@, n, fe_strings());
    lemma_e32_len(n as u32);
    lemma_at_cat(d, p, e32(n as u32), b);
    assert forall|x: Option<String>| (#[trigger] fe_strings()(x)).len() >= 1 by { broadcast use {ax_all, lemma_string_size, lemma_fstring_size}; }
    lemma_each_size(v@, n, fe_strings());
    let len = (4 + b.len()) as u32;
    let sl = arr_sl(n as u32, len);
    
    let pos = |k: int| p + 4 + e_each(v@, k, fe_strings()).len();
    let l = ups_strings(v@);
    assert forall|k: int| 0 <= k < n implies p_prop(d, pos(k), e, st, "StrProperty"@, false, sl) == Ok::<(Property, int), E>((#[trigger] l[k], pos(k + 1))) && pos(k) <= pos(k + 1) <= d.len() by {
        lemma_at_each(d, p + 4, v@, k, n, fe_strings(), fw_strings());
        let x = up_strings(v@[k]);
        assert(enc_prop(Property::StrProperty(x), false, e.cv) == fe_strings()(v@[k]));
        lemma_pk_StrProperty(d, pos(k), x, false, e, st, sl);
    }
    assert(l.subrange(0, 0) =~= Seq::empty());
    lemma_props_read(d, e, st, "StrProperty"@, sl, l, pos, 0, Seq::empty());
    assert(e_each(v@, 0, fe_strings()).len() == 0);
    assert forall|i: int| 0 <= i < n implies fa_strings()(#[trigger] l[i]) == Some(v@[i]) by {}
    lemma_coll_lift(v@, l, n, fa_strings());
    assert(v@.subrange(0, n) =~= v@);
    lemma_at_u32(d, p, n as u32);
    lemma_kinds_apart();
    broadcast use {ax_mkvec, ax_vec_ext, ax_vec_len, ax_mkstr, ax_str_ext};
}
pub open spec fn key_enum(x: String) -> EnumProperty { EnumProperty { enum_type: None, value: x } }
pub open spec fn key_name(x: String) -> NameProperty { NameProperty { array_index: 0, value: Some(x) } }
pub open spec fn key_str(x: String) -> StrProperty { StrProperty { value: Some(x) } }
pub open spec fn val_bools(x: bool) -> BoolProperty { BoolProperty { value: x } }
pub open spec fn val_ints(x: i32) -> IntProperty { IntProperty { value: x } }
pub open spec fn val_strs(x: Option<String>) -> StrProperty { StrProperty { value: x } }
pub open spec fn ups_enum_bools(s: Seq<(String, bool)>) -> Seq<(Property, Property)> { Seq::new(s.len(), |i: int| (Property::EnumProperty(key_enum(s[i].0)), Property::BoolProperty(val_bools(s[i].1)))) }
#[verifier::spinoff_prover]
pub proof fn lemma_new_enum_bools(m: HashableIndexMap<String, bool>)
    requires im_nodup(ups_enum_bools(m.0@))
    ensures map_new(mkstr("EnumProperty"@), mkstr("BoolProperty"@), 0, HashableIndexMap(mkim(ups_enum_bools(m.0@)))) == (MapProperty::EnumBool { enum_bools: m })
{
    let s = m.0@;
    let n = s.len() as int;
    let l = ups_enum_bools(s);
    ax_im_ext(m.0);
    assert forall|i: int| 0 <= i < n implies fm_enum_bools()(#[trigger] l[i]) == Some(s[i]) by {}
    lemma_collm_lift(s, l, n, fm_enum_bools());
    assert(s.subrange(0, n) =~= s);
    lemma_kinds_apart();
    ax_mkim(l); ax_mkstr("EnumProperty"@); ax_mkstr("BoolProperty"@);
}
#[verifier::spinoff_prover]
pub proof fn lemma_el_enum_bools(d: Seq<u8>, p: int, s: Seq<(String, bool)>, i: int, e: Env, st: Seq<String>)
    requires at(d, p, e_each(s, s.len() as int, fe_sbool())), w_each(s, s.len() as int, fw_sbool()), 0 <= i < s.len(), small(d)
    ensures ({
        let a = p + e_each(s, i, fe_sbool()).len(); let b = a + e_string(s[i].0@).len(); let c = p + e_each(s, i + 1, fe_sbool()).len();
        p_prop(d, a, e, st.push(mkstr("Key"@)), "EnumProperty"@, false, None) == Ok::<(Property, int), E>((Property::EnumProperty(key_enum(s[i].0)), b))
            && p_prop(d, b, e, st.push(mkstr("Value"@)), "BoolProperty"@, false, None) == Ok::<(Property, int), E>((Property::BoolProperty(val_bools(s[i].1)), c)) && a <= b <= c <= d.len()
    })
{
    lemma_at_each(d, p, s, i, s.len() as int, fe_sbool(), fw_sbool());
    let x = key_enum(s[i].0); let y = val_bools(s[i].1);
    let a = p + e_each(s, i, fe_sbool()).len();
    lemma_at_cat(d, a, e_string(s[i].0@), enc_prop(Property::BoolProperty(y), false, e.cv));
    lemma_pk_EnumProperty(d, a, x, false, e, st.push(mkstr("Key"@)), None);
    lemma_pk_BoolProperty(d, a + e_string(s[i].0@).len(), y, false, e, st.push(mkstr("Value"@)), None);
}
#[verifier::spinoff_prover]
pub proof fn lemma_rt_map_enum_bools(d: Seq<u8>, p: int, m: HashableIndexMap<String, bool>, e: Env, st: Seq<String>)
    requires at(d, p, enc_map(MapProperty::EnumBool { enum_bools: m }, false, e.cv)), wok_map(MapProperty::EnumBool { enum_bools: m }, true, e.cv), small(d)
    ensures p_mapb(d, p, e, st, mkstr("EnumProperty"@), mkstr("BoolProperty"@)) == Ok::<(MapProperty, int), E>((MapProperty::EnumBool { enum_bools: m }, p + enc_map(MapProperty::EnumBool { enum_bools: m }, false, e.cv).len()))
{
    hide(p_prop); hide(map_new);
    let s = m.0@;
    let n = s.len() as int;
    let b = e_each(s, n, fe_sbool());
    lemma_e32_len(0); lemma_e32_len(n as u32);
    lemma_at_cat(d, p, e32(0) + e32(n as u32), b);
    lemma_at_cat(d, p, e32(0), e32(n as u32));
    assert forall|x: (String, bool)| (#[trigger] fe_sbool()(x)).len() >= 1 by { broadcast use {ax_all, lemma_string_size}; }
    lemma_each_size(s, n, fe_sbool());
    let pos = |i: int| p + 8 + e_each(s, i, fe_sbool()).len();
    let mid = |i: int| p + 8 + e_each(s, i, fe_sbool()).len() + e_string(s[i].0@).len();
    let l = ups_enum_bools(s);
    let sk = st.push(mkstr("Key"@)); let sv = st.push(mkstr("Value"@));
    assert forall|i: int| 0 <= i < n implies p_prop(d, pos(i), e, sk, "EnumProperty"@, false, None) == Ok::<(Property, int), E>(((#[trigger] l[i]).0, mid(i)))
            && p_prop(d, mid(i), e, sv, "BoolProperty"@, false, None) == Ok::<(Property, int), E>((l[i].1, pos(i + 1))) && pos(i) <= mid(i) <= pos(i + 1) <= d.len() by {
        lemma_el_enum_bools(d, p + 8, s, i, e, st);
    }
    ax_im_ext(m.0);
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies !keq((#[trigger] l[i]).0, (#[trigger] l[j]).0) by {
        broadcast use {ax_keq_enum, ax_keq_name, ax_keq_strp, ax_keq_str};
        assert(!keq(s[i].0, s[j].0));
    }
    assert(l.subrange(0, 0) =~= Seq::empty());
    lemma_pairs_read(d, e, st, "EnumProperty"@, "BoolProperty"@, l, pos, mid, 0, Seq::empty());
    lemma_at_u32(d, p, 0); lemma_at_u32(d, p + 4, n as u32);
    lemma_new_enum_bools(m);
    ax_mkstr("EnumProperty"@); ax_mkstr("BoolProperty"@);
}
pub open spec fn ups_enum_ints(s: Seq<(String, i32)>) -> Seq<(Property, Property)> { Seq::new(s.len(), |i: int| (Property::EnumProperty(key_enum(s[i].0)), Property::IntProperty(val_ints(s[i].1)))) }
#[verifier::spinoff_prover]
pub proof fn lemma_new_enum_ints(m: HashableIndexMap<String, i32>)
    requires im_nodup(ups_enum_ints(m.0@))
    ensures map_new(mkstr("EnumProperty"@), mkstr("IntProperty"@), 0, HashableIndexMap(mkim(ups_enum_ints(m.0@)))) == (MapProperty::EnumInt { enum_ints: m })
{
    let s = m.0@;
    let n = s.len() as int;
    let l = ups_enum_ints(s);
    ax_im_ext(m.0);
    assert forall|i: int| 0 <= i < n implies fm_enum_ints()(#[trigger] l[i]) == Some(s[i]) by {}
    lemma_collm_lift(s, l, n, fm_enum_ints());
    assert(s.subrange(0, n) =~= s);
    lemma_kinds_apart();
    ax_mkim(l); ax_mkstr("EnumProperty"@); ax_mkstr("IntProperty"@);
}
#[verifier::spinoff_prover]
pub proof fn lemma_el_enum_ints(d: Seq<u8>, p: int, s: Seq<(String, i32)>, i: int, e: Env, st: Seq<String>)
    requires at(d, p, e_each(s, s.len() as int, fe_sint())), w_each(s, s.len() as int, fw_sint()), 0 <= i < s.len(), small(d)
    ensures ({
        let a = p + e_each(s, i, fe_sint()).len(); let b = a + e_string(s[i].0@).len(); let c = p + e_each(s, i + 1, fe_sint()).len();
        p_prop(d, a, e, st.push(mkstr("Key"@)), "EnumProperty"@, false, None) == Ok::<(Property, int), E>((Property::EnumProperty(key_enum(s[i].0)), b))
            && p_prop(d, b, e, st.push(mkstr("Value"@)), "IntProperty"@, false, None) == Ok::<(Property, int), E>((Property::IntProperty(val_ints(s[i].1)), c)) && a <= b <= c <= d.len()
    })
{
    lemma_at_each(d, p, s, i, s.len() as int, fe_sint(), fw_sint());
    let x = key_enum(s[i].0); let y = val_ints(s[i].1);
    let a = p + e_each(s, i, fe_sint()).len();
    lemma_at_cat(d, a, e_string(s[i].0@), enc_prop(Property::IntProperty(y), false, e.cv));
    lemma_pk_EnumProperty(d, a, x, false, e, st.push(mkstr("Key"@)), None);
    lemma_pk_IntProperty(d, a + e_string(s[i].0@).len(), y, false, e, st.push(mkstr("Value"@)), None);
}
#[verifier::spinoff_prover]
pub proof fn lemma_rt_map_enum_ints(d: Seq<u8>, p: int, m: HashableIndexMap<String, i32>, e: Env, st: Seq<String>)
    requires at(d, p, enc_map(MapProperty::EnumInt { enum_ints: m }, false, e.cv)), wok_map(MapProperty::EnumInt { enum_ints: m }, true, e.cv), small(d)
    ensures p_mapb(d, p, e, st, mkstr("EnumProperty"@), mkstr("IntProperty"@)) == Ok::<(MapProperty, int), E>((MapProperty::EnumInt { enum_ints: m }, p + enc_map(MapProperty::EnumInt { enum_ints: m }, false, e.cv).len()))
{
    hide(p_prop); hide(map_new);
    let s = m.0@;
    let n = s.len() as int;
    let b = e_each(s, n, fe_sint());
    lemma_e32_len(0); lemma_e32_len(n as u32);
    lemma_at_cat(d, p, e32(0) + e32(n as u32), b);
    lemma_at_cat(d, p, e32(0), e32(n as u32));
    assert forall|x: (String, i32)| (#[trigger] fe_sint()(x)).len() >= 1 by { broadcast use {ax_all, lemma_string_size}; }
    lemma_each_size(s, n, fe_sint());
    let pos = |i: int| p + 8 + e_each(s, i, fe_sint()).len();
    let mid = |i: int| p + 8 + e_each(s, i, fe_sint()).len() + e_string(s[i].0@).len();
    let l = ups_enum_ints(s);
    let sk = st.push(mkstr("Key"@)); let sv = st.push(mkstr("Value"@));
    assert forall|i: int| 0 <= i < n implies p_prop(d, pos(i), e, sk, "EnumProperty"@, false, None) == Ok::<(Property, int), E>(((#[trigger] l[i]).0, mid(i)))
            && p_prop(d, mid(i), e, sv, "IntProperty"@, false, None) == Ok::<(Property, int), E>((l[i].1, pos(i + 1))) && pos(i) <= mid(i) <= pos(i + 1) <= d.len() by {
        lemma_el_enum_ints(d, p + 8, s, i, e, st);
    }
    ax_im_ext(m.0);
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies !keq((#[trigger] l[i]).0, (#[trigger] l[j]).0) by {
        broadcast use {ax_keq_enum, ax_keq_name, ax_keq_strp, ax_keq_str};
        assert(!keq(s[i].0, s[j].0));
    }
    assert(l.subrange(0, 0) =~= Seq::empty());
    lemma_pairs_read(d, e, st, "EnumProperty"@, "IntProperty"@, l, pos, mid, 0, Seq::empty());
    lemma_at_u32(d, p, 0); lemma_at_u32(d, p + 4, n as u32);
    lemma_new_enum_ints(m);
    ax_mkstr("EnumProperty"@); ax_mkstr("IntProperty"@);
}
pub open spec fn ups_name_bools(s: Seq<(String, bool)>) -> Seq<(Property, Property)> { Seq::new(s.len(), |i: int| (Property::NameProperty(key_name(s[i].0)), Property::BoolProperty(val_bools(s[i].1)))) }
#[verifier::spinoff_prover]
pub proof fn lemma_new_name_bools(m: HashableIndexMap<String, bool>)
    requires im_nodup(ups_name_bools(m.0@))
    ensures map_new(mkstr("NameProperty"@), mkstr("BoolProperty"@), 0, HashableIndexMap(mkim(ups_name_bools(m.0@)))) == (MapProperty::NameBool { name_bools: m })
{
    let s = m.0@;
    let n = s.len() as int;
    let l = ups_name_bools(s);
    ax_im_ext(m.0);
    assert forall|i: int| 0 <= i < n implies fm_name_bools()(#[trigger] l[i]) == Some(s[i]) by {}
    lemma_collm_lift(s, l, n, fm_name_bools());
    assert(s.subrange(0, n) =~= s);
    lemma_kinds_apart();
    ax_mkim(l); ax_mkstr("NameProperty"@); ax_mkstr("BoolProperty"@);
}
#[verifier::spinoff_prover]
pub proof fn lemma_el_name_bools(d: Seq<u8>, p: int, s: Seq<(String, bool)>, i: int, e: Env, st: Seq<String>)
    requires at(d, p, e_each(s, s.len() as int, fe_sbool())), w_each(s, s.len() as int, fw_sbool()), 0 <= i < s.len(), small(d)
    ensures ({
        let a = p + e_each(s, i, fe_sbool()).len(); let b = a + e_string(s[i].0@).len(); let c = p + e_each(s, i + 1, fe_sbool()).len();
        p_prop(d, a, e, st.push(mkstr("Key"@)), "NameProperty"@, false, None) == Ok::<(Property, int), E>((Property::NameProperty(key_name(s[i].0)), b))
            && p_prop(d, b, e, st.push(mkstr("Value"@)), "BoolProperty"@, false, None) == Ok::<(Property, int), E>((Property::BoolProperty(val_bools(s[i].1)), c)) && a <= b <= c <= d.len()
    })
{
    lemma_at_each(d, p, s, i, s.len() as int, fe_sbool(), fw_sbool());
    let x = key_name(s[i].0); let y = val_bools(s[i].1);
    let a = p + e_each(s, i, fe_sbool()).len();
    lemma_at_cat(d, a, e_string(s[i].0@), enc_prop(Property::BoolProperty(y), false, e.cv));
    lemma_pk_NameProperty(d, a, x, false, e, st.push(mkstr("Key"@)), None);
    lemma_pk_BoolProperty(d, a + e_string(s[i].0@).len(), y, false, e, st.push(mkstr("Value"@)), None);
}
#[verifier::spinoff_prover]
pub proof fn lemma_rt_map_name_bools(d: Seq<u8>, p: int, m: HashableIndexMap<String, bool>, e: Env, st: Seq<String>)
    requires at(d, p, enc_map(MapProperty::NameBool { name_bools: m }, false, e.cv)), wok_map(MapProperty::NameBool { name_bools: m }, true, e.cv), small(d)
    ensures p_mapb(d, p, e, st, mkstr("NameProperty"@), mkstr("BoolProperty"@)) == Ok::<(MapProperty, int), E>((MapProperty::NameBool { name_bools: m }, p + enc_map(MapProperty::NameBool { name_bools: m }, false, e.cv).len()))
{
    hide(p_prop); hide(map_new);
    let s = m.0@;
    let n = s.len() as int;
    let b = e_each(s, n, fe_sbool());
    lemma_e32_len(0); lemma_e32_len(n as u32);
    lemma_at_cat(d, p, e32(0) + e32(n as u32), b);
    lemma_at_cat(d, p, e32(0), e32(n as u32));
    assert forall|x: (String, bool)| (#[trigger] fe_sbool()(x)).len() >= 1 by { broadcast use {ax_all, lemma_string_size}; }
    lemma_each_size(s, n, fe_sbool());
    let pos = |i: int| p + 8 + e_each(s, i, fe_sbool()).len();
    let mid = |i: int| p + 8 + e_each(s, i, fe_sbool()).len() + e_string(s[i].0@).len();
    let l = ups_name_bools(s);
    let sk = st.push(mkstr("Key"@)); let sv = st.push(mkstr("Value"@));
    assert forall|i: int| 0 <= i < n implies p_prop(d, pos(i), e, sk, "NameProperty"@, false, None) == Ok::<(Property, int), E>(((#[trigger] l[i]).0, mid(i)))
            && p_prop(d, mid(i), e, sv, "BoolProperty"@, false, None) == Ok::<(Property, int), E>((l[i].1, pos(i + 1))) && pos(i) <= mid(i) <= pos(i + 1) <= d.len() by {
        lemma_el_name_bools(d, p + 8, s, i, e, st);
    }
    ax_im_ext(m.0);
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies !keq((#[trigger] l[i]).0, (#[trigger] l[j]).0) by {
        broadcast use {ax_keq_enum, ax_keq_name, ax_keq_strp, ax_keq_str};
        assert(!keq(s[i].0, s[j].0));
    }
    assert(l.subrange(0, 0) =~= Seq::empty());
    lemma_pairs_read(d, e, st, "NameProperty"@, "BoolProperty"@, l, pos, mid, 0, Seq::empty());
    lemma_at_u32(d, p, 0); lemma_at_u32(d, p + 4, n as u32);
    lemma_new_name_bools(m);
    ax_mkstr("NameProperty"@); ax_mkstr("BoolProperty"@);
}
pub open spec fn ups_name_ints(s: Seq<(String, i32)>) -> Seq<(Property, Property)> { Seq::new(s.len(), |i: int| (Property::NameProperty(key_name(s[i].0)), Property::IntProperty(val_ints(s[i].1)))) }
#[verifier::spinoff_prover]
pub proof fn lemma_new_name_ints(m: HashableIndexMap<String, i32>)
    requires im_nodup(ups_name_ints(m.0@))
    ensures map_new(mkstr("NameProperty"@), mkstr("IntProperty"@), 0, HashableIndexMap(mkim(ups_name_ints(m.0@)))) == (MapProperty::NameInt { name_ints: m })
{
    let s = m.0@;
    let n = s.len() as int;
    let l = ups_name_ints(s);
    ax_im_ext(m.0);
    assert forall|i: int| 0 <= i < n implies fm_name_ints()(#[trigger] l[i]) == Some(s[i]) by {}
    lemma_collm_lift(s, l, n, fm_name_ints());
    assert(s.subrange(0, n) =~= s);
    lemma_kinds_apart();
    ax_mkim(l); ax_mkstr("NameProperty"@); ax_mkstr("IntProperty"@);
}
#[verifier::spinoff_prover]
pub proof fn lemma_el_name_ints(d: Seq<u8>, p: int, s: Seq<(String, i32)>, i: int, e: Env, st: Seq<String>)
    requires at(d, p, e_each(s, s.len() as int, fe_sint())), w_each(s, s.len() as int, fw_sint()), 0 <= i < s.len(), small(d)
    ensures ({
        let a = p + e_each(s, i, fe_sint()).len(); let b = a + e_string(s[i].0@).len(); let c = p + e_each(s, i + 1, fe_sint()).len();
        p_prop(d, a, e, st.push(mkstr("Key"@)), "NameProperty"@, false, None) == Ok::<(Property, int), E>((Property::NameProperty(key_name(s[i].0)), b))
            && p_prop(d, b, e, st.push(mkstr("Value"@)), "IntProperty"@, false, None) == Ok::<(Property, int), E>((Property::IntProperty(val_ints(s[i].1)), c)) && a <= b <= c <= d.len()
    })
{
    lemma_at_each(d, p, s, i, s.len() as int, fe_sint(), fw_sint());
    let x = key_name(s[i].0); let y = val_ints(s[i].1);
    let a = p + e_each(s, i, fe_sint()).len();
    lemma_at_cat(d, a, e_string(s[i].0@), enc_prop(Property::IntProperty(y), false, e.cv));
    lemma_pk_NameProperty(d, a, x, false, e, st.push(mkstr("Key"@)), None);
    lemma_pk_IntProperty(d, a + e_string(s[i].0@).len(), y, false, e, st.push(mkstr("Value"@)), None);
}
#[verifier::spinoff_prover]
pub proof fn lemma_rt_map_name_ints(d: Seq<u8>, p: int, m: HashableIndexMap<String, i32>, e: Env, st: Seq<String>)
    requires at(d, p, enc_map(MapProperty::NameInt { name_ints: m }, false, e.cv)), wok_map(MapProperty::NameInt { name_ints: m }, true, e.cv), small(d)
    ensures p_mapb(d, p, e, st, mkstr("NameProperty"@), mkstr("IntProperty"@)) == Ok::<(MapProperty, int), E>((MapProperty::NameInt { name_ints: m }, p + enc_map(MapProperty::NameInt { name_ints: m }, false, e.cv).len()))
{
    hide(p_prop); hide(map_new);
    let s = m.0@;
    let n = s.len() as int;
    let b = e_each(s, n, fe_sint());
    lemma_e32_len(0); lemma_e32_len(n as u32);
    lemma_at_cat(d, p, e32(0) + e32(n as u32), b);
    lemma_at_cat(d, p, e32(0), e32(n as u32));
    assert forall|x: (String, i32)| (#[trigger] fe_sint()(x)).len() >= 1 by { broadcast use {ax_all, lemma_string_size}; }
    lemma_each_size(s, n, fe_sint());
    let pos = |i: int| p + 8 + e_each(s, i, fe_sint()).len();
    let mid = |i: int| p + 8 + e_each(s, i, fe_sint()).len() + e_string(s[i].0@).len();
    let l = ups_name_ints(s);
    let sk = st.push(mkstr("Key"@)); let sv = st.push(mkstr("Value"@));
    assert forall|i: int| 0 <= i < n implies p_prop(d, pos(i), e, sk, "NameProperty"@, false, None) == Ok::<(Property, int), E>(((#[trigger] l[i]).0, mid(i)))
            && p_prop(d, mid(i), e, sv, "IntProperty"@, false, None) == Ok::<(Property, int), E>((l[i].1, pos(i + 1))) && pos(i) <= mid(i) <= pos(i + 1) <= d.len() by {
        lemma_el_name_ints(d, p + 8, s, i, e, st);
    }
    ax_im_ext(m.0);
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies !keq((#[trigger] l[i]).0, (#[trigger] l[j]).0) by {
        broadcast use {ax_keq_enum, ax_keq_name, ax_keq_strp, ax_keq_str};
        assert(!keq(s[i].0, s[j].0));
    }
    assert(l.subrange(0, 0) =~= Seq::empty());
    lemma_pairs_read(d, e, st, "NameProperty"@, "IntProperty"@, l, pos, mid, 0, Seq::empty());
    lemma_at_u32(d, p, 0); lemma_at_u32(d, p + 4, n as u32);
    lemma_new_name_ints(m);
    ax_mkstr("NameProperty"@); ax_mkstr("IntProperty"@);
}
pub open spec fn ups_str_bools(s: Seq<(String, bool)>) -> Seq<(Property, Property)> { Seq::new(s.len(), |i: int| (Property::StrProperty(key_str(s[i].0)), Property::BoolProperty(val_bools(s[i].1)))) }
#[verifier::spinoff_prover]
pub proof fn lemma_new_str_bools(m: HashableIndexMap<String, bool>)
    requires im_nodup(ups_str_bools(m.0@))
    ensures map_new(mkstr("StrProperty"@), mkstr("BoolProperty"@), 0, HashableIndexMap(mkim(ups_str_bools(m.0@)))) == (MapProperty::StrBool { str_bools: m })
{
    let s = m.0@;
    let n = s.len() as int;
    let l = ups_str_bools(s);
    ax_im_ext(m.0);
    assert forall|i: int| 0 <= i < n implies fm_str_bools()(#[trigger] l[i]) == Some(s[i]) by {}
    lemma_collm_lift(s, l, n, fm_str_bools());
    assert(s.subrange(0, n) =~= s);
    lemma_kinds_apart();
    ax_mkim(l); ax_mkstr("StrProperty"@); ax_mkstr("BoolProperty"@);
}
#[verifier::spinoff_prover]
pub proof fn lemma_el_str_bools(d: Seq<u8>, p: int, s: Seq<(String, bool)>, i: int, e: Env, st: Seq<String>)
    requires at(d, p, e_each(s, s.len() as int, fe_sbool())), w_each(s, s.len() as int, fw_sbool()), 0 <= i < s.len(), small(d)
    ensures ({
        let a = p + e_each(s, i, fe_sbool()).len(); let b = a + e_string(s[i].0@).len(); let c = p + e_each(s, i + 1, fe_sbool()).len();
        p_prop(d, a, e, st.push(mkstr("Key"@)), "StrProperty"@, false, None) == Ok::<(Property, int), E>((Property::StrProperty(key_str(s[i].0)), b))
            && p_prop(d, b, e, st.push(mkstr("Value"@)), "BoolProperty"@, false, None) == Ok::<(Property, int), E>((Property::BoolProperty(val_bools(s[i].1)), c)) && a <= b <= c <= d.len()
    })
{
    lemma_at_each(d, p, s, i, s.len() as int, fe_sbool(), fw_sbool());
    let x = key_str(s[i].0); let y = val_bools(s[i].1);
    let a = p + e_each(s, i, fe_sbool()).len();
    lemma_at_cat(d, a, e_string(s[i].0@), enc_prop(Property::BoolProperty(y), false, e.cv));
    lemma_pk_StrProperty(d, a, x, false, e, st.push(mkstr("Key"@)), None);
    lemma_pk_BoolProperty(d, a + e_string(s[i].0@).len(), y, false, e, st.push(mkstr("Value"@)), None);
}
#[verifier::spinoff_prover]
pub proof fn lemma_rt_map_str_bools(d: Seq<u8>, p: int, m: HashableIndexMap<String, bool>, e: Env, st: Seq<String>)
    requires at(d, p, enc_map(MapProperty::StrBool { str_bools: m }, false, e.cv)), wok_map(MapProperty::StrBool { str_bools: m }, true, e.cv), small(d)
    ensures p_mapb(d, p, e, st, mkstr("StrProperty"@), mkstr("BoolProperty"@)) == Ok::<(MapProperty, int), E>((MapProperty::StrBool { str_bools: m }, p + enc_map(MapProperty::StrBool { str_bools: m }, false, e.cv).len()))
{
    hide(p_prop); hide(map_new);
    let s = m.0@;
    let n = s.len() as int;
    let b = e_each(s, n, fe_sbool());
    lemma_e32_len(0); lemma_e32_len(n as u32);
    lemma_at_cat(d, p, e32(0) + e32(n as u32), b);
    lemma_at_cat(d, p, e32(0), e32(n as u32));
    assert forall|x: (String, bool)| (#[trigger] fe_sbool()(x)).len() >= 1 by { broadcast use {ax_all, lemma_string_size}; }
    lemma_each_size(s, n, fe_sbool());
    let pos = |i: int| p + 8 + e_each(s, i, fe_sbool()).len();
    let mid = |i: int| p + 8 + e_each(s, i, fe_sbool()).len() + e_string(s[i].0@).len();
    let l = ups_str_bools(s);
    let sk = st.push(mkstr("Key"@)); let sv = st.push(mkstr("Value"@));
    assert forall|i: int| 0 <= i < n implies p_prop(d, pos(i), e, sk, "StrProperty"@, false, None) == Ok::<(Property, int), E>(((#[trigger] l[i]).0, mid(i)))
            && p_prop(d, mid(i), e, sv, "BoolProperty"@, false, None) == Ok::<(Property, int), E>((l[i].1, pos(i + 1))) && pos(i) <= mid(i) <= pos(i + 1) <= d.len() by {
        lemma_el_str_bools(d, p + 8, s, i, e, st);
    }
    ax_im_ext(m.0);
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies !keq((#[trigger] l[i]).0, (#[trigger] l[j]).0) by {
        broadcast use {ax_keq_enum, ax_keq_name, ax_keq_strp, ax_keq_str};
        assert(!keq(s[i].0, s[j].0));
    }
    assert(l.subrange(0, 0) =~= Seq::empty());
    lemma_pairs_read(d, e, st, "StrProperty"@, "BoolProperty"@, l, pos, mid, 0, Seq::empty());
    lemma_at_u32(d, p, 0); lemma_at_u32(d, p + 4, n as u32);
    lemma_new_str_bools(m);
    ax_mkstr("StrProperty"@); ax_mkstr("BoolProperty"@);
}
pub open spec fn ups_str_ints(s: Seq<(String, i32)>) -> Seq<(Property, Property)> { Seq::new(s.len(), |i: int| (Property::StrProperty(key_str(s[i].0)), Property::IntProperty(val_ints(s[i].1)))) }
#[verifier::spinoff_prover]
pub proof fn lemma_new_str_ints(m: HashableIndexMap<String, i32>)
    requires im_nodup(ups_str_ints(m.0@))
    ensures map_new(mkstr("StrProperty"@), mkstr("IntProperty"@), 0, HashableIndexMap(mkim(ups_str_ints(m.0@)))) == (MapProperty::StrInt { str_ints: m })
{
    let s = m.0@;
    let n = s.len() as int;
    let l = ups_str_ints(s);
    ax_im_ext(m.0);
    assert forall|i: int| 0 <= i < n implies fm_str_ints()(#[trigger] l[i]) == Some(s[i]) by {}
    lemma_collm_lift(s, l, n, fm_str_ints());
    assert(s.subrange(0, n) =~= s);
    lemma_kinds_apart();
    ax_mkim(l); ax_mkstr("StrProperty"@); ax_mkstr("IntProperty"@);
}
#[verifier::spinoff_prover]
pub proof fn lemma_el_str_ints(d: Seq<u8>, p: int, s: Seq<(String, i32)>, i: int, e: Env, st: Seq<String>)
    requires at(d, p, e_each(s, s.len() as int, fe_sint())), w_each(s, s.len() as int, fw_sint()), 0 <= i < s.len(), small(d)
    ensures ({
        let a = p + e_each(s, i, fe_sint()).len(); let b = a + e_string(s[i].0@).len(); let c = p + e_each(s, i + 1, fe_sint()).len();
        p_prop(d, a, e, st.push(mkstr("Key"@)), "StrProperty"@, false, None) == Ok::<(Property, int), E>((Property::StrProperty(key_str(s[i].0)), b))
            && p_prop(d, b, e, st.push(mkstr("Value"@)), "IntProperty"@, false, None) == Ok::<(Property, int), E>((Property::IntProperty(val_ints(s[i].1)), c)) && a <= b <= c <= d.len()
    })
{
    lemma_at_each(d, p, s, i, s.len() as int, fe_sint(), fw_sint());
    let x = key_str(s[i].0); let y = val_ints(s[i].1);
    let a = p + e_each(s, i, fe_sint()).len();
    lemma_at_cat(d, a, e_string(s[i].0@), enc_prop(Property::IntProperty(y), false, e.cv));
    lemma_pk_StrProperty(d, a, x, false, e, st.push(mkstr("Key"@)), None);
    lemma_pk_IntProperty(d, a + e_string(s[i].0@).len(), y, false, e, st.push(mkstr("Value"@)), None);
}
#[verifier::spinoff_prover]
pub proof fn lemma_rt_map_str_ints(d: Seq<u8>, p: int, m: HashableIndexMap<String, i32>, e: Env, st: Seq<String>)
    requires at(d, p, enc_map(MapProperty::StrInt { str_ints: m }, false, e.cv)), wok_map(MapProperty::StrInt { str_ints: m }, true, e.cv), small(d)
    ensures p_mapb(d, p, e, st, mkstr("StrProperty"@), mkstr("IntProperty"@)) == Ok::<(MapProperty, int), E>((MapProperty::StrInt { str_ints: m }, p + enc_map(MapProperty::StrInt { str_ints: m }, false, e.cv).len()))
{
    hide(p_prop); hide(map_new);
    let s = m.0@;
    let n = s.len() as int;
    let b = e_each(s, n, fe_sint());
    lemma_e32_len(0); lemma_e32_len(n as u32);
    lemma_at_cat(d, p, e32(0) + e32(n as u32), b);
    lemma_at_cat(d, p, e32(0), e32(n as u32));
    assert forall|x: (String, i32)| (#[trigger] fe_sint()(x)).len() >= 1 by { broadcast use {ax_all, lemma_string_size}; }
    lemma_each_size(s, n, fe_sint());
    let pos = |i: int| p + 8 + e_each(s, i, fe_sint()).len();
    let mid = |i: int| p + 8 + e_each(s, i, fe_sint()).len() + e_string(s[i].0@).len();
    let l = ups_str_ints(s);
    let sk = st.push(mkstr("Key"@)); let sv = st.push(mkstr("Value"@));
    assert forall|i: int| 0 <= i < n implies p_prop(d, pos(i), e, sk, "StrProperty"@, false, None) == Ok::<(Property, int), E>(((#[trigger] l[i]).0, mid(i)))
            && p_prop(d, mid(i), e, sv, "IntProperty"@, false, None) == Ok::<(Property, int), E>((l[i].1, pos(i + 1))) && pos(i) <= mid(i) <= pos(i + 1) <= d.len() by {
        lemma_el_str_ints(d, p + 8, s, i, e, st);
    }
    ax_im_ext(m.0);
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies !keq((#[trigger] l[i]).0, (#[trigger] l[j]).0) by {
        broadcast use {ax_keq_enum, ax_keq_name, ax_keq_strp, ax_keq_str};
        assert(!keq(s[i].0, s[j].0));
    }
    assert(l.subrange(0, 0) =~= Seq::empty());
    lemma_pairs_read(d, e, st, "StrProperty"@, "IntProperty"@, l, pos, mid, 0, Seq::empty());
    lemma_at_u32(d, p, 0); lemma_at_u32(d, p + 4, n as u32);
    lemma_new_str_ints(m);
    ax_mkstr("StrProperty"@); ax_mkstr("IntProperty"@);
}
pub open spec fn ups_str_strs(s: Seq<(String, Option<String>)>) -> Seq<(Property, Property)> { Seq::new(s.len(), |i: int| (Property::StrProperty(key_str(s[i].0)), Property::StrProperty(val_strs(s[i].1)))) }
#[verifier::spinoff_prover]
pub proof fn lemma_new_str_strs(m: HashableIndexMap<String, Option<String>>)
    requires im_nodup(ups_str_strs(m.0@))
    ensures map_new(mkstr("StrProperty"@), mkstr("StrProperty"@), 0, HashableIndexMap(mkim(ups_str_strs(m.0@)))) == (MapProperty::StrStr { str_strs: m })
{
    let s = m.0@;
    let n = s.len() as int;
    let l = ups_str_strs(s);
    ax_im_ext(m.0);
    assert forall|i: int| 0 <= i < n implies fm_str_strs()(#[trigger] l[i]) == Some(s[i]) by {}
    lemma_collm_lift(s, l, n, fm_str_strs());
    assert(s.subrange(0, n) =~= s);
    lemma_kinds_apart();
    ax_mkim(l); ax_mkstr("StrProperty"@); ax_mkstr("StrProperty"@);
}
#[verifier::spinoff_prover]
pub proof fn lemma_el_str_strs(d: Seq<u8>, p: int, s: Seq<(String, Option<String>)>, i: int, e: Env, st: Seq<String>)
    requires at(d, p, e_each(s, s.len() as int, fe_sstr())), w_each(s, s.len() as int, fw_sstr()), 0 <= i < s.len(), small(d)
    ensures ({
        let a = p + e_each(s, i, fe_sstr()).len(); let b = a + e_string(s[i].0@).len(); let c = p + e_each(s, i + 1, fe_sstr()).len();
        p_prop(d, a, e, st.push(mkstr("Key"@)), "StrProperty"@, false, None) == Ok::<(Property, int), E>((Property::StrProperty(key_str(s[i].0)), b))
            && p_prop(d, b, e, st.push(mkstr("Value"@)), "StrProperty"@, false, None) == Ok::<(Property, int), E>((Property::StrProperty(val_strs(s[i].1)), c)) && a <= b <= c <= d.len()
    })
{
    lemma_at_each(d, p, s, i, s.len() as int, fe_sstr(), fw_sstr());
    let x = key_str(s[i].0); let y = val_strs(s[i].1);
    let a = p + e_each(s, i, fe_sstr()).len();
    lemma_at_cat(d, a, e_string(s[i].0@), enc_prop(Property::StrProperty(y), false, e.cv));
    lemma_pk_StrProperty(d, a, x, false, e, st.push(mkstr("Key"@)), None);
    lemma_pk_StrProperty(d, a + e_string(s[i].0@).len(), y, false, e, st.push(mkstr("Value"@)), None);
}
#[verifier::spinoff_prover]
pub proof fn lemma_rt_map_str_strs(d: Seq<u8>, p: int, m: HashableIndexMap<String, Option<String>>, e: Env, st: Seq<String>)
    requires at(d, p, enc_map(MapProperty::StrStr { str_strs: m }, false, e.cv)), wok_map(MapProperty::StrStr { str_strs: m }, true, e.cv), small(d)
    ensures p_mapb(d, p, e, st, mkstr("StrProperty"@), mkstr("StrProperty"@)) == Ok::<(MapProperty, int), E>((MapProperty::StrStr { str_strs: m }, p + enc_map(MapProperty::StrStr { str_strs: m }, false, e.cv).len()))
{
    hide(p_prop); hide(map_new);
    let s = m.0@;
    let n = s.len() as int;
    let b = e_each(s, n, fe_sstr());
    lemma_e32_len(0); lemma_e32_len(n as u32);
    lemma_at_cat(d, p, e32(0) + e32(n as u32), b);
    lemma_at_cat(d, p, e32(0), e32(n as u32));
    assert forall|x: (String, Option<String>)| (#[trigger] fe_sstr()(x)).len() >= 1 by { broadcast use {ax_all, lemma_string_size}; }
    lemma_each_size(s, n, fe_sstr());
    let pos = |i: int| p + 8 + e_each(s, i, fe_sstr()).len();
    let mid = |i: int| p + 8 + e_each(s, i, fe_sstr()).len() + e_string(s[i].0@).len();
    let l = ups_str_strs(s);
    let sk = st.push(mkstr("Key"@)); let sv = st.push(mkstr("Value"@));
    assert forall|i: int| 0 <= i < n implies p_prop(d, pos(i), e, sk, "StrProperty"@, false, None) == Ok::<(Property, int), E>(((#[trigger] l[i]).0, mid(i)))
            && p_prop(d, mid(i), e, sv, "StrProperty"@, false, None) == Ok::<(Property, int), E>((l[i].1, pos(i + 1))) && pos(i) <= mid(i) <= pos(i + 1) <= d.len() by {
        lemma_el_str_strs(d, p + 8, s, i, e, st);
    }
    ax_im_ext(m.0);
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies !keq((#[trigger] l[i]).0, (#[trigger] l[j]).0) by {
        broadcast use {ax_keq_enum, ax_keq_name, ax_keq_strp, ax_keq_str};
        assert(!keq(s[i].0, s[j].0));
    }
    assert(l.subrange(0, 0) =~= Seq::empty());
    lemma_pairs_read(d, e, st, "StrProperty"@, "StrProperty"@, l, pos, mid, 0, Seq::empty());
    lemma_at_u32(d, p, 0); lemma_at_u32(d, p + 4, n as u32);
    lemma_new_str_strs(m);
    ax_mkstr("StrProperty"@); ax_mkstr("StrProperty"@);
}
// ------------------------------------------------------------------ mutual induction over the values
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_rt_sv(d: Seq<u8>, p: int, x: StructPropertyValue, e: Env, st: Seq<String>, tn: Seq<char>)
    requires at(d, p, enc_sv(x, e.cv)), wok_sv(x, e.cv), rt_sv(x, e, st, tn), small(d)
    ensures p_sv(d, p, e, st, tn) == Ok::<(StructPropertyValue, int), E>((x, p + enc_sv(x, e.cv).len()))
    decreases x, 9int
{
    lemma_structs_apart();
    match x {
        StructPropertyValue::CustomStruct(m) => { lemma_rt_flds(d, p, m.0, e, st); },
        _ => { lemma_rt_flat(d, p, x, e, st, tn); },
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_rt_flat(d: Seq<u8>, p: int, x: StructPropertyValue, e: Env, st: Seq<String>, tn: Seq<char>)
    requires at(d, p, enc_sv(x, e.cv)), wok_sv(x, e.cv), rt_sv(x, e, st, tn), small(d), !(x is CustomStruct)
    ensures p_sv(d, p, e, st, tn) == Ok::<(StructPropertyValue, int), E>((x, p + enc_sv(x, e.cv).len()))
{
    broadcast use {ax_all, rt_base};
    lemma_structs_apart();
    match x {
        StructPropertyValue::GameplayTagContainer(v) => {
            lemma_strings_size(v@, v@.len() as int);
            assert(v@.subrange(0, 0) =~= Seq::empty());
            lemma_rt_strings(d, p + 4, v@, 0, Seq::empty());
        },
        _ => {},
    }
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_rt_fld1(d: Seq<u8>, p: int, m: IndexMap<String, Vec<Property>>, e: Env, st: Seq<String>, i: int, j: int)
    requires at(d, p, enc_fields(m, m@.len() as int, e.cv)), wok_fields(m, m@.len() as int, e.cv), rt_fields(m, m@.len() as int, e, st), small(d), 0 <= i < m@.len(), 0 <= j < m@[i].1@.len()
    ensures fld_ok(d, p, m, e, st, i, j)
    decreases m, 0int
{
    broadcast use {ax_vec_dec, ax_im_dec};
    let k = m@[i].0; let v = m@[i].1; let x = v@[j];
    lemma_rt_fields(m, m@.len() as int, e, st, i);
    lemma_rt_field(v, v@.len() as int, e, st.push(k), j);
    lemma_at_fields(d, p, m, i, m@.len() as int, e.cv);
    let q = p + enc_fields(m, i, e.cv).len();
    lemma_at_field(d, q, k@, v, j, v@.len() as int, e.cv);
    let a = q + enc_field(k@, v, j, e.cv).len();
    lemma_at_cat(d, a, e_string(k@), enc_prop(x, true, e.cv));
    lemma_at_string(d, a, k@);
    lemma_string_size(k@);
    ax_str_ext(k);
    assert(decreases_to!(m => m@[i]));
    assert(decreases_to!(m@[i].1 => m@[i].1@[j]));
    lemma_rt_prop(d, a + e_string(k@).len(), x, kind_of(x), true, e, st.push(k), None);
    lemma_string_size(kind_of(x));
    lemma_kind_size(x, e.cv);
}
/// the stored kind is part of the encoding
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_kind_size(x: Property, cv: Seq<(Guid, u32)>)
    requires wok_prop(x, true, cv)
    ensures enc_prop(x, true, cv).len() >= e_string(kind_of(x)).len()
{}
pub proof fn lemma_rt_flds(d: Seq<u8>, p: int, m: IndexMap<String, Vec<Property>>, e: Env, st: Seq<String>)
    requires at(d, p, enc_fields(m, m@.len() as int, e.cv) + e_string("None"@)), wok_fields(m, m@.len() as int, e.cv), rt_fields(m, m@.len() as int, e, st), small(d)
    ensures p_fields(d, p, e, st, Seq::empty()) == Ok::<(IndexMap<String, Vec<Property>>, int), E>((m, p + enc_fields(m, m@.len() as int, e.cv).len() + e_string("None"@).len()))
    decreases m, 1int
{
    let n = m@.len() as int;
    lemma_at_cat(d, p, enc_fields(m, n, e.cv), e_string("None"@));
    lemma_none_ok();
    lemma_at_string(d, p + enc_fields(m, n, e.cv).len(), "None"@);
    assert forall|a: int, b: int| 0 <= a < n && 0 <= b < m@[a].1@.len() implies #[trigger] fld_ok(d, p, m, e, st, a, b) by { lemma_rt_fld1(d, p, m, e, st, a, b); }
    assert forall|a: int| 0 <= a < n implies (#[trigger] m@[a]).0@ != "None"@ && m@[a].1@.len() > 0 by { lemma_rt_fields(m, n, e, st, a); }
    lemma_fields_read(d, p, m, e, st, 0, 0);
    assert(m@.subrange(0, 0) =~= Seq::empty());
    assert(enc_fields(m, 0, e.cv).len() == 0);
    if n > 0 { assert(enc_field(m@[0].0@, m@[0].1, 0, e.cv).len() == 0); }
}
pub proof fn lemma_rt_props1(d: Seq<u8>, p: int, v: Vec<Property>, k: int, ty: Seq<char>, e: Env, st: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_props(v, v@.len() as int, e.cv)), wok_props(v, v@.len() as int, e.cv), rt_props(v, v@.len() as int, ty, e, st, sl), small(d), 0 <= k < v@.len()
    ensures p_prop(d, p + enc_props(v, k, e.cv).len(), e, st, ty, false, sl) == Ok::<(Property, int), E>((v@[k], p + enc_props(v, k + 1, e.cv).len())),
        enc_props(v, k, e.cv).len() <= enc_props(v, k + 1, e.cv).len() <= d.len() - p
    decreases v, 0int
{
    broadcast use ax_vec_dec;
    lemma_rt_props(v, v@.len() as int, ty, e, st, sl, k);
    lemma_at_props(d, p, v, k, v@.len() as int, e.cv);
    lemma_rt_prop(d, p + enc_props(v, k, e.cv).len(), v@[k], ty, false, e, st, sl);
}
pub proof fn lemma_rt_propsA(d: Seq<u8>, p: int, v: Vec<Property>, ty: Seq<char>, e: Env, st: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_props(v, v@.len() as int, e.cv)), wok_props(v, v@.len() as int, e.cv), rt_props(v, v@.len() as int, ty, e, st, sl), small(d)
    ensures p_props(d, p, e, st, ty, sl, v@.len() as int, Seq::empty()) == Ok::<(Vec<Property>, int), E>((v, p + enc_props(v, v@.len() as int, e.cv).len())), v@.len() <= i32::MAX
    decreases v, 1int
{
    let pos = |k: int| p + enc_props(v, k, e.cv).len();
    assert forall|k: int| 0 <= k < v@.len() implies p_prop(d, pos(k), e, st, ty, false, sl) == Ok::<(Property, int), E>((#[trigger] v@[k], pos(k + 1))) && pos(k) <= pos(k + 1) <= d.len() by {
        lemma_rt_props1(d, p, v, k, ty, e, st, sl);
    }
    assert(v@.subrange(0, 0) =~= Seq::empty());
    lemma_props_read(d, e, st, ty, sl, v@, pos, 0, Seq::empty());
    lemma_props_size(v, v@.len() as int, ty, e, st, sl);
    ax_vec_ext(v);
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_rt_svs1(d: Seq<u8>, p: int, v: Vec<StructPropertyValue>, k: int, e: Env, st: Seq<String>, tn: Seq<char>)
    requires at(d, p, enc_svs(v, v@.len() as int, e.cv)), wok_svs(v, v@.len() as int, e.cv), rt_svs(v, v@.len() as int, e, st, tn), small(d), 0 <= k < v@.len()
    ensures p_sv(d, p + enc_svs(v, k, e.cv).len(), e, st, tn) == Ok::<(StructPropertyValue, int), E>((v@[k], p + enc_svs(v, k + 1, e.cv).len())),
        enc_svs(v, k, e.cv).len() <= enc_svs(v, k + 1, e.cv).len() <= d.len() - p
    decreases v, 0int
{
    broadcast use ax_vec_dec;
    lemma_rt_svs(v, v@.len() as int, e, st, tn, k);
    lemma_at_svs(d, p, v, k, v@.len() as int, e.cv);
    lemma_rt_sv(d, p + enc_svs(v, k, e.cv).len(), v@[k], e, st, tn);
}
pub proof fn lemma_rt_svsA(d: Seq<u8>, p: int, v: Vec<StructPropertyValue>, e: Env, st: Seq<String>, tn: Seq<char>)
    requires at(d, p, enc_svs(v, v@.len() as int, e.cv)), wok_svs(v, v@.len() as int, e.cv), rt_svs(v, v@.len() as int, e, st, tn), small(d)
    ensures p_svs(d, p, e, st, tn, v@.len() as int, Seq::empty()) == Ok::<(Vec<Property>, int), E>((mkvec(svp(v@)), p + enc_svs(v, v@.len() as int, e.cv).len())), v@.len() <= i32::MAX
    decreases v, 1int
{
    let pos = |k: int| p + enc_svs(v, k, e.cv).len();
    assert forall|k: int| 0 <= k < v@.len() implies p_sv(d, pos(k), e, st, tn) == Ok::<(StructPropertyValue, int), E>((#[trigger] v@[k], pos(k + 1))) && pos(k) <= pos(k + 1) <= d.len() by {
        lemma_rt_svs1(d, p, v, k, e, st, tn);
    }
    assert(svp(v@).subrange(0, 0) =~= Seq::empty());
    lemma_svs_read(d, e, st, tn, v@, pos, 0, Seq::empty());
    lemma_svs_size(v, v@.len() as int, e.cv);
}
pub proof fn lemma_rt_pairs1(d: Seq<u8>, p: int, v: IndexMap<Property, Property>, k: int, kt: Seq<char>, vt: Seq<char>, e: Env, st: Seq<String>)
    requires at(d, p, enc_pairs(v, v@.len() as int, e.cv)), wok_pairs(v, v@.len() as int, e.cv), rt_pairs(v, v@.len() as int, kt, vt, e, st), small(d), 0 <= k < v@.len()
    ensures ({
        let a = p + enc_pairs(v, k, e.cv).len(); let b = a + enc_prop(v@[k].0, false, e.cv).len(); let c = p + enc_pairs(v, k + 1, e.cv).len();
        p_prop(d, a, e, st.push(mkstr("Key"@)), kt, false, None) == Ok::<(Property, int), E>((v@[k].0, b))
            && p_prop(d, b, e, st.push(mkstr("Value"@)), vt, false, None) == Ok::<(Property, int), E>((v@[k].1, c)) && a <= b <= c <= d.len()
    })
    decreases v, 0int
{
    broadcast use ax_im_dec;
    lemma_rt_pairs(v, v@.len() as int, kt, vt, e, st, k);
    lemma_at_pairs(d, p, v, k, v@.len() as int, e.cv);
    let a = p + enc_pairs(v, k, e.cv).len();
    lemma_at_cat(d, a, enc_prop(v@[k].0, false, e.cv), enc_prop(v@[k].1, false, e.cv));
    lemma_rt_prop(d, a, v@[k].0, kt, false, e, st.push(mkstr("Key"@)), None);
    lemma_rt_prop(d, a + enc_prop(v@[k].0, false, e.cv).len(), v@[k].1, vt, false, e, st.push(mkstr("Value"@)), None);
}
pub proof fn lemma_rt_pairsA(d: Seq<u8>, p: int, v: IndexMap<Property, Property>, kt: Seq<char>, vt: Seq<char>, e: Env, st: Seq<String>)
    requires at(d, p, enc_pairs(v, v@.len() as int, e.cv)), wok_pairs(v, v@.len() as int, e.cv), rt_pairs(v, v@.len() as int, kt, vt, e, st), small(d)
    ensures p_pairs(d, p, e, st, kt, vt, v@.len() as int, Seq::empty()) == Ok::<(IndexMap<Property, Property>, int), E>((v, p + enc_pairs(v, v@.len() as int, e.cv).len())), v@.len() <= i32::MAX
    decreases v, 1int
{
    let pos = |k: int| p + enc_pairs(v, k, e.cv).len();
    let mid = |k: int| p + enc_pairs(v, k, e.cv).len() + enc_prop(v@[k].0, false, e.cv).len();
    assert forall|k: int| 0 <= k < v@.len() implies p_prop(d, pos(k), e, st.push(mkstr("Key"@)), kt, false, None) == Ok::<(Property, int), E>(((#[trigger] v@[k]).0, mid(k)))
            && p_prop(d, mid(k), e, st.push(mkstr("Value"@)), vt, false, None) == Ok::<(Property, int), E>((v@[k].1, pos(k + 1))) && pos(k) <= mid(k) <= pos(k + 1) <= d.len() by {
        lemma_rt_pairs1(d, p, v, k, kt, vt, e, st);
    }
    ax_im_ext(v);
    assert(v@.subrange(0, 0) =~= Seq::empty());
    lemma_pairs_read(d, e, st, kt, vt, v@, pos, mid, 0, Seq::empty());
    lemma_pairs_size(v, v@.len() as int, kt, vt, e, st);
}
pub open spec fn ups_enum_props(s: Seq<(String, Property)>) -> Seq<(Property, Property)> { Seq::new(s.len(), |i: int| (Property::EnumProperty(key_enum(s[i].0)), s[i].1)) }
#[verifier::spinoff_prover]
pub proof fn lemma_new_enum_props(vt: String, m: HashableIndexMap<String, Property>)
    requires im_nodup(ups_enum_props(m.0@)), !own_form(vt@), vt@ != "StrProperty"@ || "EnumProperty"@ != "StrProperty"@
    ensures map_new(mkstr("EnumProperty"@), vt, 0, HashableIndexMap(mkim(ups_enum_props(m.0@)))) == (MapProperty::EnumProperty { value_type: vt, enum_props: m })
{
    let s = m.0@;
    let n = s.len() as int;
    let l = ups_enum_props(s);
    ax_im_ext(m.0);
    assert forall|i: int| 0 <= i < n implies fm_enum_props()(#[trigger] l[i]) == Some(s[i]) by {}
    lemma_collm_lift(s, l, n, fm_enum_props());
    assert(s.subrange(0, n) =~= s);
    lemma_kinds_apart();
    ax_mkim(l); ax_mkstr("EnumProperty"@);
}
pub proof fn lemma_rt_kp_enum(d: Seq<u8>, p: int, m: IndexMap<String, Property>, i: int, vt: Seq<char>, e: Env, st: Seq<String>)
    requires at(d, p, enc_kprops(m, m@.len() as int, e.cv)), wok_kprops(m, m@.len() as int, e.cv), rt_kprops(m, m@.len() as int, vt, e, st), small(d), 0 <= i < m@.len()
    ensures ({
        let a = p + enc_kprops(m, i, e.cv).len(); let b = a + e_string(m@[i].0@).len(); let c = p + enc_kprops(m, i + 1, e.cv).len();
        p_prop(d, a, e, st.push(mkstr("Key"@)), "EnumProperty"@, false, None) == Ok::<(Property, int), E>((Property::EnumProperty(key_enum(m@[i].0)), b))
            && p_prop(d, b, e, st.push(mkstr("Value"@)), vt, false, None) == Ok::<(Property, int), E>((m@[i].1, c)) && a <= b <= c <= d.len()
    })
    decreases m, 0int
{
    broadcast use ax_im_dec;
    lemma_rt_kprops(m, m@.len() as int, vt, e, st, i);
    lemma_at_kprops(d, p, m, i, m@.len() as int, e.cv);
    let a = p + enc_kprops(m, i, e.cv).len();
    lemma_at_cat(d, a, e_string(m@[i].0@), enc_prop(m@[i].1, false, e.cv));
    lemma_pk_EnumProperty(d, a, key_enum(m@[i].0), false, e, st.push(mkstr("Key"@)), None);
    lemma_rt_prop(d, a + e_string(m@[i].0@).len(), m@[i].1, vt, false, e, st.push(mkstr("Value"@)), None);
}
#[verifier::spinoff_prover]
pub proof fn lemma_rt_map_enum(d: Seq<u8>, p: int, vt: String, m: HashableIndexMap<String, Property>, e: Env, st: Seq<String>)
    requires at(d, p, enc_map(MapProperty::EnumProperty { value_type: vt, enum_props: m }, false, e.cv)), wok_map(MapProperty::EnumProperty { value_type: vt, enum_props: m }, true, e.cv), rt_map(MapProperty::EnumProperty { value_type: vt, enum_props: m }, e, st), small(d)
    ensures p_mapb(d, p, e, st, mkstr("EnumProperty"@), vt) == Ok::<(MapProperty, int), E>((MapProperty::EnumProperty { value_type: vt, enum_props: m }, p + enc_map(MapProperty::EnumProperty { value_type: vt, enum_props: m }, false, e.cv).len()))
    decreases m, 2int
{
    hide(p_prop); hide(map_new);
    let s = m.0@;
    let n = s.len() as int;
    let b = enc_kprops(m.0, n, e.cv);
    lemma_e32_len(0); lemma_e32_len(n as u32);
    lemma_at_cat(d, p, e32(0) + e32(n as u32), b);
    lemma_at_cat(d, p, e32(0), e32(n as u32));
    lemma_kprops_size(m.0, n, e.cv);
    lemma_kinds_apart();
    let pos = |i: int| p + 8 + enc_kprops(m.0, i, e.cv).len();
    let mid = |i: int| p + 8 + enc_kprops(m.0, i, e.cv).len() + e_string(s[i].0@).len();
    let l = ups_enum_props(s);
    let sk = st.push(mkstr("Key"@)); let sv = st.push(mkstr("Value"@));
    assert forall|i: int| 0 <= i < n implies p_prop(d, pos(i), e, sk, "EnumProperty"@, false, None) == Ok::<(Property, int), E>(((#[trigger] l[i]).0, mid(i)))
            && p_prop(d, mid(i), e, sv, vt@, false, None) == Ok::<(Property, int), E>((l[i].1, pos(i + 1))) && pos(i) <= mid(i) <= pos(i + 1) <= d.len() by {
        lemma_rt_kp_enum(d, p + 8, m.0, i, vt@, e, st);
    }
    ax_im_ext(m.0);
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies !keq((#[trigger] l[i]).0, (#[trigger] l[j]).0) by {
        broadcast use {ax_keq_enum, ax_keq_name, ax_keq_strp, ax_keq_str};
        assert(!keq(s[i].0, s[j].0));
    }
    assert(l.subrange(0, 0) =~= Seq::empty());
    lemma_pairs_read(d, e, st, "EnumProperty"@, vt@, l, pos, mid, 0, Seq::empty());
    lemma_at_u32(d, p, 0); lemma_at_u32(d, p + 4, n as u32);
    lemma_new_enum_props(vt, m);
    ax_mkstr("EnumProperty"@);
}
pub open spec fn ups_name_props(s: Seq<(String, Property)>) -> Seq<(Property, Property)> { Seq::new(s.len(), |i: int| (Property::NameProperty(key_name(s[i].0)), s[i].1)) }
#[verifier::spinoff_prover]
pub proof fn lemma_new_name_props(vt: String, m: HashableIndexMap<String, Property>)
    requires im_nodup(ups_name_props(m.0@)), !own_form(vt@), vt@ != "StrProperty"@ || "NameProperty"@ != "StrProperty"@
    ensures map_new(mkstr("NameProperty"@), vt, 0, HashableIndexMap(mkim(ups_name_props(m.0@)))) == (MapProperty::NameProperty { value_type: vt, name_props: m })
{
    let s = m.0@;
    let n = s.len() as int;
    let l = ups_name_props(s);
    ax_im_ext(m.0);
    assert forall|i: int| 0 <= i < n implies fm_name_props()(#[trigger] l[i]) == Some(s[i]) by {}
    lemma_collm_lift(s, l, n, fm_name_props());
    assert(s.subrange(0, n) =~= s);
    lemma_kinds_apart();
    ax_mkim(l); ax_mkstr("NameProperty"@);
}
pub proof fn lemma_rt_kp_name(d: Seq<u8>, p: int, m: IndexMap<String, Property>, i: int, vt: Seq<char>, e: Env, st: Seq<String>)
    requires at(d, p, enc_kprops(m, m@.len() as int, e.cv)), wok_kprops(m, m@.len() as int, e.cv), rt_kprops(m, m@.len() as int, vt, e, st), small(d), 0 <= i < m@.len()
    ensures ({
        let a = p + enc_kprops(m, i, e.cv).len(); let b = a + e_string(m@[i].0@).len(); let c = p + enc_kprops(m, i + 1, e.cv).len();
        p_prop(d, a, e, st.push(mkstr("Key"@)), "NameProperty"@, false, None) == Ok::<(Property, int), E>((Property::NameProperty(key_name(m@[i].0)), b))
            && p_prop(d, b, e, st.push(mkstr("Value"@)), vt, false, None) == Ok::<(Property, int), E>((m@[i].1, c)) && a <= b <= c <= d.len()
    })
    decreases m, 0int
{
    broadcast use ax_im_dec;
    lemma_rt_kprops(m, m@.len() as int, vt, e, st, i);
    lemma_at_kprops(d, p, m, i, m@.len() as int, e.cv);
    let a = p + enc_kprops(m, i, e.cv).len();
    lemma_at_cat(d, a, e_string(m@[i].0@), enc_prop(m@[i].1, false, e.cv));
    lemma_pk_NameProperty(d, a, key_name(m@[i].0), false, e, st.push(mkstr("Key"@)), None);
    lemma_rt_prop(d, a + e_string(m@[i].0@).len(), m@[i].1, vt, false, e, st.push(mkstr("Value"@)), None);
}
#[verifier::spinoff_prover]
pub proof fn lemma_rt_map_name(d: Seq<u8>, p: int, vt: String, m: HashableIndexMap<String, Property>, e: Env, st: Seq<String>)
    requires at(d, p, enc_map(MapProperty::NameProperty { value_type: vt, name_props: m }, false, e.cv)), wok_map(MapProperty::NameProperty { value_type: vt, name_props: m }, true, e.cv), rt_map(MapProperty::NameProperty { value_type: vt, name_props: m }, e, st), small(d)
    ensures p_mapb(d, p, e, st, mkstr("NameProperty"@), vt) == Ok::<(MapProperty, int), E>((MapProperty::NameProperty { value_type: vt, name_props: m }, p + enc_map(MapProperty::NameProperty { value_type: vt, name_props: m }, false, e.cv).len()))
    decreases m, 2int
{
    hide(p_prop); hide(map_new);
    let s = m.0@;
    let n = s.len() as int;
    let b = enc_kprops(m.0, n, e.cv);
    lemma_e32_len(0); lemma_e32_len(n as u32);
    lemma_at_cat(d, p, e32(0) + e32(n as u32), b);
    lemma_at_cat(d, p, e32(0), e32(n as u32));
    lemma_kprops_size(m.0, n, e.cv);
    lemma_kinds_apart();
    let pos = |i: int| p + 8 + enc_kprops(m.0, i, e.cv).len();
    let mid = |i: int| p + 8 + enc_kprops(m.0, i, e.cv).len() + e_string(s[i].0@).len();
    let l = ups_name_props(s);
    let sk = st.push(mkstr("Key"@)); let sv = st.push(mkstr("Value"@));
    assert forall|i: int| 0 <= i < n implies p_prop(d, pos(i), e, sk, "NameProperty"@, false, None) == Ok::<(Property, int), E>(((#[trigger] l[i]).0, mid(i)))
            && p_prop(d, mid(i), e, sv, vt@, false, None) == Ok::<(Property, int), E>((l[i].1, pos(i + 1))) && pos(i) <= mid(i) <= pos(i + 1) <= d.len() by {
        lemma_rt_kp_name(d, p + 8, m.0, i, vt@, e, st);
    }
    ax_im_ext(m.0);
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies !keq((#[trigger] l[i]).0, (#[trigger] l[j]).0) by {
        broadcast use {ax_keq_enum, ax_keq_name, ax_keq_strp, ax_keq_str};
        assert(!keq(s[i].0, s[j].0));
    }
    assert(l.subrange(0, 0) =~= Seq::empty());
    lemma_pairs_read(d, e, st, "NameProperty"@, vt@, l, pos, mid, 0, Seq::empty());
    lemma_at_u32(d, p, 0); lemma_at_u32(d, p + 4, n as u32);
    lemma_new_name_props(vt, m);
    ax_mkstr("NameProperty"@);
}
pub open spec fn ups_str_props(s: Seq<(String, Property)>) -> Seq<(Property, Property)> { Seq::new(s.len(), |i: int| (Property::StrProperty(key_str(s[i].0)), s[i].1)) }
#[verifier::spinoff_prover]
pub proof fn lemma_new_str_props(vt: String, m: HashableIndexMap<String, Property>)
    requires im_nodup(ups_str_props(m.0@)), !own_form(vt@), vt@ != "StrProperty"@ || "StrProperty"@ != "StrProperty"@
    ensures map_new(mkstr("StrProperty"@), vt, 0, HashableIndexMap(mkim(ups_str_props(m.0@)))) == (MapProperty::StrProperty { value_type: vt, str_props: m })
{
    let s = m.0@;
    let n = s.len() as int;
    let l = ups_str_props(s);
    ax_im_ext(m.0);
    assert forall|i: int| 0 <= i < n implies fm_str_props()(#[trigger] l[i]) == Some(s[i]) by {}
    lemma_collm_lift(s, l, n, fm_str_props());
    assert(s.subrange(0, n) =~= s);
    lemma_kinds_apart();
    ax_mkim(l); ax_mkstr("StrProperty"@);
}
pub proof fn lemma_rt_kp_str(d: Seq<u8>, p: int, m: IndexMap<String, Property>, i: int, vt: Seq<char>, e: Env, st: Seq<String>)
    requires at(d, p, enc_kprops(m, m@.len() as int, e.cv)), wok_kprops(m, m@.len() as int, e.cv), rt_kprops(m, m@.len() as int, vt, e, st), small(d), 0 <= i < m@.len()
    ensures ({
        let a = p + enc_kprops(m, i, e.cv).len(); let b = a + e_string(m@[i].0@).len(); let c = p + enc_kprops(m, i + 1, e.cv).len();
        p_prop(d, a, e, st.push(mkstr("Key"@)), "StrProperty"@, false, None) == Ok::<(Property, int), E>((Property::StrProperty(key_str(m@[i].0)), b))
            && p_prop(d, b, e, st.push(mkstr("Value"@)), vt, false, None) == Ok::<(Property, int), E>((m@[i].1, c)) && a <= b <= c <= d.len()
    })
    decreases m, 0int
{
    broadcast use ax_im_dec;
    lemma_rt_kprops(m, m@.len() as int, vt, e, st, i);
    lemma_at_kprops(d, p, m, i, m@.len() as int, e.cv);
    let a = p + enc_kprops(m, i, e.cv).len();
    lemma_at_cat(d, a, e_string(m@[i].0@), enc_prop(m@[i].1, false, e.cv));
    lemma_pk_StrProperty(d, a, key_str(m@[i].0), false, e, st.push(mkstr("Key"@)), None);
    lemma_rt_prop(d, a + e_string(m@[i].0@).len(), m@[i].1, vt, false, e, st.push(mkstr("Value"@)), None);
}
#[verifier::spinoff_prover]
pub proof fn lemma_rt_map_str(d: Seq<u8>, p: int, vt: String, m: HashableIndexMap<String, Property>, e: Env, st: Seq<String>)
    requires at(d, p, enc_map(MapProperty::StrProperty { value_type: vt, str_props: m }, false, e.cv)), wok_map(MapProperty::StrProperty { value_type: vt, str_props: m }, true, e.cv), rt_map(MapProperty::StrProperty { value_type: vt, str_props: m }, e, st), small(d)
    ensures p_mapb(d, p, e, st, mkstr("StrProperty"@), vt) == Ok::<(MapProperty, int), E>((MapProperty::StrProperty { value_type: vt, str_props: m }, p + enc_map(MapProperty::StrProperty { value_type: vt, str_props: m }, false, e.cv).len()))
    decreases m, 2int
{
    hide(p_prop); hide(map_new);
    let s = m.0@;
    let n = s.len() as int;
    let b = enc_kprops(m.0, n, e.cv);
    lemma_e32_len(0); lemma_e32_len(n as u32);
    lemma_at_cat(d, p, e32(0) + e32(n as u32), b);
    lemma_at_cat(d, p, e32(0), e32(n as u32));
    lemma_kprops_size(m.0, n, e.cv);
    lemma_kinds_apart();
    let pos = |i: int| p + 8 + enc_kprops(m.0, i, e.cv).len();
    let mid = |i: int| p + 8 + enc_kprops(m.0, i, e.cv).len() + e_string(s[i].0@).len();
    let l = ups_str_props(s);
    let sk = st.push(mkstr("Key"@)); let sv = st.push(mkstr("Value"@));
    assert forall|i: int| 0 <= i < n implies p_prop(d, pos(i), e, sk, "StrProperty"@, false, None) == Ok::<(Property, int), E>(((#[trigger] l[i]).0, mid(i)))
            && p_prop(d, mid(i), e, sv, vt@, false, None) == Ok::<(Property, int), E>((l[i].1, pos(i + 1))) && pos(i) <= mid(i) <= pos(i + 1) <= d.len() by {
        lemma_rt_kp_str(d, p + 8, m.0, i, vt@, e, st);
    }
    ax_im_ext(m.0);
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies !keq((#[trigger] l[i]).0, (#[trigger] l[j]).0) by {
        broadcast use {ax_keq_enum, ax_keq_name, ax_keq_strp, ax_keq_str};
        assert(!keq(s[i].0, s[j].0));
    }
    assert(l.subrange(0, 0) =~= Seq::empty());
    lemma_pairs_read(d, e, st, "StrProperty"@, vt@, l, pos, mid, 0, Seq::empty());
    lemma_at_u32(d, p, 0); lemma_at_u32(d, p + 4, n as u32);
    lemma_new_str_props(vt, m);
    ax_mkstr("StrProperty"@);
}
pub proof fn lemma_rt_array(d: Seq<u8>, p: int, x: ArrayProperty, e: Env, st: Seq<String>)
    requires at(d, p, enc_array(x, false, e.cv)), wok_array(x, true, e.cv), rt_array(x, e, st), small(d)
    ensures p_arrayb(d, p, e, st, enc_array(x, false, e.cv).len() as u32, mkstr(arr_type(x))) == Ok::<(ArrayProperty, int), E>((x, p + enc_array(x, false, e.cv).len()))
    decreases x, 2int
{
    match x {
        ArrayProperty::Bools { bools } => { lemma_rt_arr_bools(d, p, bools, e, st); },
        ArrayProperty::Bytes { bytes } => { lemma_rt_arr_bytes(d, p, bytes, e, st); },
        ArrayProperty::Enums { enums } => { lemma_rt_arr_enums(d, p, enums, e, st); },
        ArrayProperty::Ints { ints } => { lemma_rt_arr_ints(d, p, ints, e, st); },
        ArrayProperty::Floats { floats } => { lemma_rt_arr_floats(d, p, floats, e, st); },
        ArrayProperty::Names { names } => { lemma_rt_arr_names(d, p, names, e, st); },
        ArrayProperty::Strings { strings } => { lemma_rt_arr_strings(d, p, strings, e, st); },
        ArrayProperty::Structs { field_name, type_name, guid, structs } => { lemma_rt_arr_structs(d, p, x, e, st); },
        ArrayProperty::Properties { property_type, properties } => {
            let n = properties@.len() as int;
            let b = enc_props(properties, n, e.cv);
            lemma_e32_len(n as u32);
            lemma_at_cat(d, p, e32(n as u32), b);
            lemma_at_u32(d, p, n as u32);
            lemma_rt_propsA(d, p + 4, properties, property_type@, e, st, arr_sl(n as u32, (4 + b.len()) as u32));
            ax_str_ext(property_type);
        },
    }
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_rt_arr_structs(d: Seq<u8>, p: int, x: ArrayProperty, e: Env, st: Seq<String>)
    requires at(d, p, enc_array(x, false, e.cv)), wok_array(x, true, e.cv), rt_array(x, e, st), small(d), x is Structs
    ensures p_arrayb(d, p, e, st, enc_array(x, false, e.cv).len() as u32, mkstr(arr_type(x))) == Ok::<(ArrayProperty, int), E>((x, p + enc_array(x, false, e.cv).len()))
    decreases x, 1int
{
    broadcast use {rt_base, ax_mkstr, ax_str_ext, ax_mkvec, ax_vec_ext, ax_vec_len};
    match x {
        ArrayProperty::Structs { field_name, type_name, guid, structs } => {
            let n = structs@.len() as int;
            let s = enc_svs(structs, n, e.cv);
            let h = e32(n as u32) + e_string(field_name@) + e_string("StructProperty"@) + e64(s.len() as u64) + e_string(type_name@) + guid.0@ + seq![0u8];
            lemma_at_cat(d, p, h, s);
            lemma_rt_svsA(d, p + h.len(), structs, e, st, type_name@);
            lemma_kinds();
            let l = svp(structs@);
            assert forall|i: int| 0 <= i < n implies fa_structs()(#[trigger] l[i]) == Some(structs@[i]) by {}
            lemma_coll_lift(structs@, l, n, fa_structs());
            assert(structs@.subrange(0, n) =~= structs@);
        },
        _ => {},
    }
}
pub proof fn lemma_rt_mapb(d: Seq<u8>, p: int, x: MapProperty, e: Env, st: Seq<String>)
    requires at(d, p, enc_map(x, false, e.cv)), wok_map(x, true, e.cv), rt_map(x, e, st), small(d)
    ensures p_mapb(d, p, e, st, mkstr(map_kt(x)), mkstr(map_vt(x))) == Ok::<(MapProperty, int), E>((x, p + enc_map(x, false, e.cv).len()))
    decreases x, 3int
{
    match x {
        MapProperty::EnumBool { enum_bools } => { lemma_rt_map_enum_bools(d, p, enum_bools, e, st); },
        MapProperty::EnumInt { enum_ints } => { lemma_rt_map_enum_ints(d, p, enum_ints, e, st); },
        MapProperty::NameBool { name_bools } => { lemma_rt_map_name_bools(d, p, name_bools, e, st); },
        MapProperty::NameInt { name_ints } => { lemma_rt_map_name_ints(d, p, name_ints, e, st); },
        MapProperty::StrBool { str_bools } => { lemma_rt_map_str_bools(d, p, str_bools, e, st); },
        MapProperty::StrInt { str_ints } => { lemma_rt_map_str_ints(d, p, str_ints, e, st); },
        MapProperty::StrStr { str_strs } => { lemma_rt_map_str_strs(d, p, str_strs, e, st); },
        MapProperty::EnumProperty { value_type, enum_props } => { ax_str_ext(value_type); lemma_rt_map_enum(d, p, value_type, enum_props, e, st); },
        MapProperty::NameProperty { value_type, name_props } => { ax_str_ext(value_type); lemma_rt_map_name(d, p, value_type, name_props, e, st); },
        MapProperty::StrProperty { value_type, str_props } => { ax_str_ext(value_type); lemma_rt_map_str(d, p, value_type, str_props, e, st); },
        MapProperty::Properties { key_type, value_type, allocation_flags, value } => {
            let n = value.0@.len() as int;
            let b = enc_pairs(value.0, n, e.cv);
            lemma_e32_len(allocation_flags); lemma_e32_len(n as u32);
            lemma_at_cat(d, p, e32(allocation_flags) + e32(n as u32), b);
            lemma_at_cat(d, p, e32(allocation_flags), e32(n as u32));
            lemma_at_u32(d, p, allocation_flags); lemma_at_u32(d, p + 4, n as u32);
            lemma_rt_pairsA(d, p + 8, value.0, key_type@, value_type@, e, st);
            ax_str_ext(key_type); ax_str_ext(value_type);
        },
    }
}
pub proof fn lemma_rt_setb(d: Seq<u8>, p: int, x: SetProperty, e: Env, st: Seq<String>)
    requires at(d, p, enc_set(x, false, e.cv)), wok_set(x, true, e.cv), rt_set(x, e, st), small(d)
    ensures p_setb(d, p, e, st, enc_set(x, false, e.cv).len() as u32, x.property_type) == Ok::<(SetProperty, int), E>((x, p + enc_set(x, false, e.cv).len()))
    decreases x, 3int
{
    let n = x.properties@.len() as int;
    let b = enc_props(x.properties, n, e.cv);
    lemma_e32_len(x.allocation_flags); lemma_e32_len(n as u32);
    lemma_at_cat(d, p, e32(x.allocation_flags) + e32(n as u32), b);
    lemma_at_cat(d, p, e32(x.allocation_flags), e32(n as u32));
    lemma_at_u32(d, p, x.allocation_flags); lemma_at_u32(d, p + 4, n as u32);
    lemma_rt_propsA(d, p + 8, x.properties, x.property_type@, e, st, Some(set_sl(n as u32, (8 + b.len()) as u32)));
}
#[verifier::spinoff_prover]
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_pk_StructProperty(d: Seq<u8>, p: int, v: StructProperty, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::StructProperty(v), true, e.cv)), wok_prop(Property::StructProperty(v), true, e.cv), rt_prop(Property::StructProperty(v), "StructProperty"@, true, e, st0, sl), small(d)
    ensures kind_at(d, p, "StructProperty"@, true), p_prop(d, past(p, "StructProperty"@, true), e, st0, "StructProperty"@, true, sl) == Ok::<(Property, int), E>((Property::StructProperty(v), p + enc_prop(Property::StructProperty(v), true, e.cv).len()))
    decreases v, 9int
{
    broadcast use {rt_base, ax_mkstr, ax_str_ext, lemma_string_size};
    lemma_kinds(); lemma_kinds_apart();
    let st = st0.push(mkstr("StructProperty"@));
    let b = enc_sv(v.value, e.cv);
    let m = e_string("StructProperty"@) + e32(b.len() as u32) + e32(0) + e_string(v.type_name@) + v.guid.0@ + seq![0u8];
    assert(at(d, p, m + b));
    lemma_rt_sv(d, p + m.len(), v.value, e, st, v.type_name@);
}
#[verifier::spinoff_prover]
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_pk_ArrayProperty(d: Seq<u8>, p: int, v: ArrayProperty, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::ArrayProperty(v), true, e.cv)), wok_prop(Property::ArrayProperty(v), true, e.cv), rt_prop(Property::ArrayProperty(v), "ArrayProperty"@, true, e, st0, sl), small(d)
    ensures kind_at(d, p, "ArrayProperty"@, true), p_prop(d, past(p, "ArrayProperty"@, true), e, st0, "ArrayProperty"@, true, sl) == Ok::<(Property, int), E>((Property::ArrayProperty(v), p + enc_prop(Property::ArrayProperty(v), true, e.cv).len()))
    decreases v, 9int
{
    broadcast use {rt_base, ax_mkstr, ax_str_ext, lemma_string_size};
    lemma_kinds(); lemma_kinds_apart();
    let st = st0.push(mkstr("ArrayProperty"@));
    let b = enc_array(v, false, e.cv);
    let m = e_string("ArrayProperty"@) + e32(b.len() as u32) + e32(0) + e_string(arr_type(v)) + seq![0u8];
    assert(at(d, p, m + b));
    lemma_rt_array(d, p + m.len(), v, e, st);
}
#[verifier::spinoff_prover]
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_pk_SetProperty(d: Seq<u8>, p: int, v: SetProperty, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::SetProperty(v), true, e.cv)), wok_prop(Property::SetProperty(v), true, e.cv), rt_prop(Property::SetProperty(v), "SetProperty"@, true, e, st0, sl), small(d)
    ensures kind_at(d, p, "SetProperty"@, true), p_prop(d, past(p, "SetProperty"@, true), e, st0, "SetProperty"@, true, sl) == Ok::<(Property, int), E>((Property::SetProperty(v), p + enc_prop(Property::SetProperty(v), true, e.cv).len()))
    decreases v, 9int
{
    broadcast use {rt_base, ax_mkstr, ax_str_ext, lemma_string_size};
    lemma_kinds(); lemma_kinds_apart();
    let st = st0.push(mkstr("SetProperty"@));
    let b = enc_set(v, false, e.cv);
    let m = e_string("SetProperty"@) + e32(b.len() as u32) + e32(0) + e_string(v.property_type@) + seq![0u8];
    assert(at(d, p, m + b));
    lemma_rt_setb(d, p + m.len(), v, e, st);
}
#[verifier::spinoff_prover]
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_pk_MapProperty(d: Seq<u8>, p: int, v: MapProperty, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(Property::MapProperty(v), true, e.cv)), wok_prop(Property::MapProperty(v), true, e.cv), rt_prop(Property::MapProperty(v), "MapProperty"@, true, e, st0, sl), small(d)
    ensures kind_at(d, p, "MapProperty"@, true), p_prop(d, past(p, "MapProperty"@, true), e, st0, "MapProperty"@, true, sl) == Ok::<(Property, int), E>((Property::MapProperty(v), p + enc_prop(Property::MapProperty(v), true, e.cv).len()))
    decreases v, 9int
{
    broadcast use {rt_base, ax_mkstr, ax_str_ext, lemma_string_size};
    lemma_kinds(); lemma_kinds_apart();
    let st = st0.push(mkstr("MapProperty"@));
    let b = enc_map(v, false, e.cv);
    let m = e_string("MapProperty"@) + e32(b.len() as u32) + e32(0) + e_string(map_kt(v)) + e_string(map_vt(v)) + seq![0u8];
    assert(at(d, p, m + b));
    lemma_rt_mapb(d, p + m.len(), v, e, st);
}
/// reading a written property gives it back
pub proof fn lemma_rt_prop(d: Seq<u8>, p: int, x: Property, ty: Seq<char>, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>)
    requires at(d, p, enc_prop(x, hdr, e.cv)), wok_prop(x, hdr, e.cv), rt_prop(x, ty, hdr, e, st0, sl), small(d)
    ensures kind_at(d, p, ty, hdr), p_prop(d, past(p, ty, hdr), e, st0, ty, hdr, sl) == Ok::<(Property, int), E>((x, p + enc_prop(x, hdr, e.cv).len()))
    decreases x, 1int
{
    match x {
        Property::Int8Property(v) => { lemma_pk_Int8Property(d, p, v, hdr, e, st0, sl); },
        Property::Int16Property(v) => { lemma_pk_Int16Property(d, p, v, hdr, e, st0, sl); },
        Property::UInt16Property(v) => { lemma_pk_UInt16Property(d, p, v, hdr, e, st0, sl); },
        Property::IntProperty(v) => { lemma_pk_IntProperty(d, p, v, hdr, e, st0, sl); },
        Property::UInt32Property(v) => { lemma_pk_UInt32Property(d, p, v, hdr, e, st0, sl); },
        Property::Int64Property(v) => { lemma_pk_Int64Property(d, p, v, hdr, e, st0, sl); },
        Property::UInt64Property(v) => { lemma_pk_UInt64Property(d, p, v, hdr, e, st0, sl); },
        Property::FloatProperty(v) => { lemma_pk_FloatProperty(d, p, v, hdr, e, st0, sl); },
        Property::DoubleProperty(v) => { lemma_pk_DoubleProperty(d, p, v, hdr, e, st0, sl); },
        Property::BoolProperty(v) => { lemma_pk_BoolProperty(d, p, v, hdr, e, st0, sl); },
        Property::ByteProperty(v) => { lemma_pk_ByteProperty(d, p, v, hdr, e, st0, sl); },
        Property::EnumProperty(v) => { lemma_pk_EnumProperty(d, p, v, hdr, e, st0, sl); },
        Property::StrProperty(v) => { lemma_pk_StrProperty(d, p, v, hdr, e, st0, sl); },
        Property::TextProperty(v) => { lemma_pk_TextProperty(d, p, v, hdr, e, st0, sl); },
        Property::NameProperty(v) => { lemma_pk_NameProperty(d, p, v, hdr, e, st0, sl); },
        Property::ObjectProperty(v) => { lemma_pk_ObjectProperty(d, p, v, hdr, e, st0, sl); },
        Property::DelegateProperty(v) => { lemma_pk_DelegateProperty(d, p, v, hdr, e, st0, sl); },
        Property::MulticastInlineDelegateProperty(v) => { lemma_pk_MulticastInlineDelegateProperty(d, p, v, hdr, e, st0, sl); },
        Property::MulticastSparseDelegateProperty(v) => { lemma_pk_MulticastSparseDelegateProperty(d, p, v, hdr, e, st0, sl); },
        Property::FieldPathProperty(v) => { lemma_pk_FieldPathProperty(d, p, v, hdr, e, st0, sl); },
        Property::UnknownProperty(v) => { lemma_pk_unknown(d, p, v, ty, hdr, e, st0, sl); },
        Property::StructPropertyValue(v) => {
            let st = st0.push(mkstr(ty));
            lemma_kinds_apart();
            lemma_rt_sv(d, p, v, e, st, e.h[join_spec(st, "."@)]@);
        },
        Property::StructProperty(v) => { lemma_pk_StructProperty(d, p, v, e, st0, sl); },
        Property::ArrayProperty(v) => { lemma_pk_ArrayProperty(d, p, v, e, st0, sl); },
        Property::SetProperty(v) => { lemma_pk_SetProperty(d, p, v, e, st0, sl); },
        Property::MapProperty(v) => { lemma_pk_MapProperty(d, p, v, e, st0, sl); },
    }
}
