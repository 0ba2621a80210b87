
pub proof fn lemma_le_dec_pad(x: Seq<u8>, y: Seq<u8>)
    requires le_dec(y) == 0
    ensures le_dec(x + y) == le_dec(x)
    decreases x.len()
{
    if x.len() > 0 {
        assert((x + y).drop_first() =~= x.drop_first() + y);
        lemma_le_dec_pad(x.drop_first(), y);
    } else { assert(x + y =~= y); }
}
/// a 64 bit size is a 32 bit size and a zero
pub broadcast proof fn lemma_e64_split(v: u64)
    requires v <= u32::MAX
    ensures #[trigger] e64(v) == e32(v as u32) + e32(0)
{
    lemma_pows(); lemma_e32_len(v as u32); lemma_e32_len(0); reveal(e32); reveal(e64);
    let s = e32(v as u32) + e32(0);
    lemma_le_dec_enc(v as nat, 4);
    lemma_le_dec_enc(0, 4);
    lemma_le_dec_pad(e32(v as u32), e32(0));
    lemma_le_enc_dec(s);
}
pub open spec fn small(d: Seq<u8>) -> bool { d.len() <= i32::MAX }
pub broadcast group rt_base {
    lemma_at_cat, lemma_at_u8, lemma_at_u16, lemma_at_u32, lemma_at_u64, lemma_i8_back, lemma_i16_back, lemma_i32_back, lemma_i64_back,
    lemma_at_guid, lemma_at_bool, lemma_at_b32, lemma_at_string, lemma_at_fstring, lemma_e16_len, lemma_e32_len, lemma_e64_len,
}
/// where the value of a property starts: after its kind, if that is stored
pub open spec fn past(p: int, k: Seq<char>, hdr: bool) -> int { if hdr { p + e_string(k).len() } else { p } }
/// the stored kind is read
pub open spec fn kind_at(d: Seq<u8>, p: int, k: Seq<char>, hdr: bool) -> bool { hdr ==> p_string(d, p) == Ok::<(String, int), E>((mkstr(k), past(p, k, hdr))) }
/// a size and a zero index are read as one 64 bit size
pub proof fn lemma_at_size(d: Seq<u8>, p: int, n: u32)
    requires at(d, p, e32(n) + e32(0))
    ensures p_u64(d, p) == Ok::<(u64, int), E>((n as u64, p + 8))
{ lemma_e64_split(n as u64); lemma_at_u64(d, p, n as u64); }
pub proof fn lemma_rt_i8(d: Seq<u8>, p: int, x: Int8Property, hdr: bool)
    requires at(d, p, enc_i8(x, hdr)), small(d)
    ensures p_i8p(d, past(p, "Int8Property"@, hdr), hdr) == Ok::<(Int8Property, int), E>((x, p + enc_i8(x, hdr).len())), kind_at(d, p, "Int8Property"@, hdr)
{
    broadcast use {ax_all, rt_base};
    lemma_kinds();
    if hdr {
        let b = enc_i8(x, false);
        let k = e_string("Int8Property"@);
        assert(b.len() == 1);
        assert(k + e32(b.len() as u32) + e32(0) + seq![0u8] + b =~= k + (e32(1) + e32(0)) + seq![0u8] + b);
        assert(at(d, p, k + (e32(1) + e32(0)) + seq![0u8] + b));
        lemma_at_size(d, p + k.len(), 1);
    }
}
pub proof fn lemma_rt_i16(d: Seq<u8>, p: int, x: Int16Property, hdr: bool)
    requires at(d, p, enc_i16(x, hdr)), small(d)
    ensures p_i16p(d, past(p, "Int16Property"@, hdr), hdr) == Ok::<(Int16Property, int), E>((x, p + enc_i16(x, hdr).len())), kind_at(d, p, "Int16Property"@, hdr)
{
    broadcast use {ax_all, rt_base};
    lemma_kinds();
    if hdr {
        let b = enc_i16(x, false);
        let k = e_string("Int16Property"@);
        assert(b.len() == 2);
        assert(k + e32(b.len() as u32) + e32(0) + seq![0u8] + b =~= k + (e32(2) + e32(0)) + seq![0u8] + b);
        assert(at(d, p, k + (e32(2) + e32(0)) + seq![0u8] + b));
        lemma_at_size(d, p + k.len(), 2);
    }
}
pub proof fn lemma_rt_u16(d: Seq<u8>, p: int, x: UInt16Property, hdr: bool)
    requires at(d, p, enc_u16(x, hdr)), small(d)
    ensures p_u16p(d, past(p, "UInt16Property"@, hdr), hdr) == Ok::<(UInt16Property, int), E>((x, p + enc_u16(x, hdr).len())), kind_at(d, p, "UInt16Property"@, hdr)
{
    broadcast use {ax_all, rt_base};
    lemma_kinds();
    if hdr {
        let b = enc_u16(x, false);
        let k = e_string("UInt16Property"@);
        assert(b.len() == 2);
        assert(k + e32(b.len() as u32) + e32(0) + seq![0u8] + b =~= k + (e32(2) + e32(0)) + seq![0u8] + b);
        assert(at(d, p, k + (e32(2) + e32(0)) + seq![0u8] + b));
        lemma_at_size(d, p + k.len(), 2);
    }
}
pub proof fn lemma_rt_i32(d: Seq<u8>, p: int, x: IntProperty, hdr: bool)
    requires at(d, p, enc_i32(x, hdr)), small(d)
    ensures p_i32p(d, past(p, "IntProperty"@, hdr), hdr) == Ok::<(IntProperty, int), E>((x, p + enc_i32(x, hdr).len())), kind_at(d, p, "IntProperty"@, hdr)
{
    broadcast use {ax_all, rt_base};
    lemma_kinds();
    if hdr {
        let b = enc_i32(x, false);
        let k = e_string("IntProperty"@);
        assert(b.len() == 4);
        assert(k + e32(b.len() as u32) + e32(0) + seq![0u8] + b =~= k + (e32(4) + e32(0)) + seq![0u8] + b);
        assert(at(d, p, k + (e32(4) + e32(0)) + seq![0u8] + b));
        lemma_at_size(d, p + k.len(), 4);
    }
}
pub proof fn lemma_rt_u32(d: Seq<u8>, p: int, x: UInt32Property, hdr: bool)
    requires at(d, p, enc_u32(x, hdr)), small(d)
    ensures p_u32p(d, past(p, "UInt32Property"@, hdr), hdr) == Ok::<(UInt32Property, int), E>((x, p + enc_u32(x, hdr).len())), kind_at(d, p, "UInt32Property"@, hdr)
{
    broadcast use {ax_all, rt_base};
    lemma_kinds();
    if hdr {
        let b = enc_u32(x, false);
        let k = e_string("UInt32Property"@);
        assert(b.len() == 4);
        assert(k + e32(b.len() as u32) + e32(0) + seq![0u8] + b =~= k + (e32(4) + e32(0)) + seq![0u8] + b);
        assert(at(d, p, k + (e32(4) + e32(0)) + seq![0u8] + b));
        lemma_at_size(d, p + k.len(), 4);
    }
}
pub proof fn lemma_rt_i64(d: Seq<u8>, p: int, x: Int64Property, hdr: bool)
    requires at(d, p, enc_i64(x, hdr)), small(d)
    ensures p_i64p(d, past(p, "Int64Property"@, hdr), hdr) == Ok::<(Int64Property, int), E>((x, p + enc_i64(x, hdr).len())), kind_at(d, p, "Int64Property"@, hdr)
{
    broadcast use {ax_all, rt_base};
    lemma_kinds();
    if hdr {
        let b = enc_i64(x, false);
        let k = e_string("Int64Property"@);
        assert(b.len() == 8);
        assert(k + e32(b.len() as u32) + e32(0) + seq![0u8] + b =~= k + (e32(8) + e32(0)) + seq![0u8] + b);
        assert(at(d, p, k + (e32(8) + e32(0)) + seq![0u8] + b));
        lemma_at_size(d, p + k.len(), 8);
    }
}
pub proof fn lemma_rt_u64(d: Seq<u8>, p: int, x: UInt64Property, hdr: bool)
    requires at(d, p, enc_u64(x, hdr)), small(d)
    ensures p_u64p(d, past(p, "UInt64Property"@, hdr), hdr) == Ok::<(UInt64Property, int), E>((x, p + enc_u64(x, hdr).len())), kind_at(d, p, "UInt64Property"@, hdr)
{
    broadcast use {ax_all, rt_base};
    lemma_kinds();
    if hdr {
        let b = enc_u64(x, false);
        let k = e_string("UInt64Property"@);
        assert(b.len() == 8);
        assert(k + e32(b.len() as u32) + e32(0) + seq![0u8] + b =~= k + (e32(8) + e32(0)) + seq![0u8] + b);
        assert(at(d, p, k + (e32(8) + e32(0)) + seq![0u8] + b));
        lemma_at_size(d, p + k.len(), 8);
    }
}
pub proof fn lemma_rt_f32(d: Seq<u8>, p: int, x: FloatProperty, hdr: bool)
    requires at(d, p, enc_f32(x, hdr)), small(d)
    ensures p_f32p(d, past(p, "FloatProperty"@, hdr), hdr) == Ok::<(FloatProperty, int), E>((x, p + enc_f32(x, hdr).len())), kind_at(d, p, "FloatProperty"@, hdr)
{
    broadcast use {ax_all, rt_base};
    lemma_kinds();
    if hdr {
        let b = enc_f32(x, false);
        let k = e_string("FloatProperty"@);
        assert(b.len() == 4);
        assert(k + e32(b.len() as u32) + e32(0) + seq![0u8] + b =~= k + (e32(4) + e32(0)) + seq![0u8] + b);
        assert(at(d, p, k + (e32(4) + e32(0)) + seq![0u8] + b));
        lemma_at_size(d, p + k.len(), 4);
    }
}
pub proof fn lemma_rt_f64(d: Seq<u8>, p: int, x: DoubleProperty, hdr: bool)
    requires at(d, p, enc_f64(x, hdr)), small(d)
    ensures p_f64p(d, past(p, "DoubleProperty"@, hdr), hdr) == Ok::<(DoubleProperty, int), E>((x, p + enc_f64(x, hdr).len())), kind_at(d, p, "DoubleProperty"@, hdr)
{
    broadcast use {ax_all, rt_base};
    lemma_kinds();
    if hdr {
        let b = enc_f64(x, false);
        let k = e_string("DoubleProperty"@);
        assert(b.len() == 8);
        assert(k + e32(b.len() as u32) + e32(0) + seq![0u8] + b =~= k + (e32(8) + e32(0)) + seq![0u8] + b);
        assert(at(d, p, k + (e32(8) + e32(0)) + seq![0u8] + b));
        lemma_at_size(d, p + k.len(), 8);
    }
}
pub proof fn lemma_rt_bool(d: Seq<u8>, p: int, x: BoolProperty, hdr: bool)
    requires at(d, p, enc_bool(x, hdr)), small(d)
    ensures p_boolp(d, past(p, "BoolProperty"@, hdr), hdr) == Ok::<(BoolProperty, int), E>((x, p + enc_bool(x, hdr).len())), kind_at(d, p, "BoolProperty"@, hdr)
{ broadcast use {ax_all, rt_base}; lemma_kinds(); }
/// the byte or name form follows from the size
pub open spec fn rt_byte(x: ByteProperty, hdr: bool, sl: Option<u32>) -> bool {
    if hdr { x.name is Some } else { x.name is None && match x.value {
        BytePropertyValue::Byte(_) => sl is None || sl->Some_0 <= 2,
        BytePropertyValue::Namespaced(_) => sl is Some && sl->Some_0 > 2,
    } }
}
pub proof fn lemma_rt_byte(d: Seq<u8>, p: int, x: ByteProperty, hdr: bool, sl: Option<u32>)
    requires at(d, p, enc_byte(x, hdr)), small(d), wok_byte(x, hdr), rt_byte(x, hdr, sl)
    ensures p_bytep(d, past(p, "ByteProperty"@, hdr), hdr, sl) == Ok::<(ByteProperty, int), E>((x, p + enc_byte(x, hdr).len())), kind_at(d, p, "ByteProperty"@, hdr)
{ broadcast use {ax_all, rt_base, lemma_e64_split}; lemma_kinds();
    if hdr { let b = eb_byte(x.value); assert(at(d, p, e_string("ByteProperty"@) + e64(b.len() as u64) + e_fstring(osv(x.name)) + seq![0u8] + b)); }
}
pub proof fn lemma_at_delegates(d: Seq<u8>, p: int, v: Seq<Delegate>, i: int, n: int)
    requires at(d, p, e_delegates(v, n)), 0 <= i < n <= v.len(), w_delegates(v, n)
    ensures at(d, p + e_delegates(v, i).len(), e_delegate(v[i])), e_delegates(v, i + 1).len() == e_delegates(v, i).len() + e_delegate(v[i]).len(), w_delegate(v[i])
    decreases n
{
    lemma_at_cat(d, p, e_delegates(v, n - 1), e_delegate(v[n - 1]));
    if i < n - 1 { lemma_at_delegates(d, p, v, i, n - 1); }
}
pub proof fn lemma_rt_delegates(d: Seq<u8>, p: int, v: Seq<Delegate>, i: int, acc: Seq<Delegate>)
    requires at(d, p, e_delegates(v, v.len() as int)), 0 <= i <= v.len(), w_delegates(v, v.len() as int), acc == v.subrange(0, i)
    ensures p_delegates(d, p + e_delegates(v, i).len(), v.len() - i, acc) == Ok::<(Vec<Delegate>, int), E>((mkvec(v), p + e_delegates(v, v.len() as int).len()))
    decreases v.len() - i
{
    broadcast use {ax_all, rt_base};
    if i < v.len() {
        lemma_at_delegates(d, p, v, i, v.len() as int);
        assert(acc.push(v[i]) =~= v.subrange(0, i + 1));
        lemma_rt_delegates(d, p, v, i + 1, acc.push(v[i]));
    } else { assert(acc =~= v); }
}
pub proof fn lemma_at_strings(d: Seq<u8>, p: int, v: Seq<String>, i: int, n: int)
    requires at(d, p, e_strings(v, n)), 0 <= i < n <= v.len(), w_strings(v, n)
    ensures at(d, p + e_strings(v, i).len(), e_string(v[i]@)), e_strings(v, i + 1).len() == e_strings(v, i).len() + e_string(v[i]@).len(), str_ok(v[i]@)
    decreases n
{
    lemma_at_cat(d, p, e_strings(v, n - 1), e_string(v[n - 1]@));
    if i < n - 1 { lemma_at_strings(d, p, v, i, n - 1); }
}
pub proof fn lemma_rt_strings(d: Seq<u8>, p: int, v: Seq<String>, i: int, acc: Seq<String>)
    requires at(d, p, e_strings(v, v.len() as int)), 0 <= i <= v.len(), w_strings(v, v.len() as int), acc == v.subrange(0, i)
    ensures p_strings(d, p + e_strings(v, i).len(), v.len() - i, acc) == Ok::<(Vec<String>, int), E>((mkvec(v), p + e_strings(v, v.len() as int).len()))
    decreases v.len() - i
{
    broadcast use {ax_all, rt_base};
    if i < v.len() {
        lemma_at_strings(d, p, v, i, v.len() as int);
        assert(acc.push(v[i]) =~= v.subrange(0, i + 1));
        lemma_rt_strings(d, p, v, i + 1, acc.push(v[i]));
    } else { assert(acc =~= v); }
}
pub proof fn lemma_rt_multi(d: Seq<u8>, p: int, x: MulticastScriptDelegate)
    requires at(d, p, e_multi(x)), w_multi(x), x.delegates@.len() <= u32::MAX
    ensures p_multi(d, p) == Ok::<(MulticastScriptDelegate, int), E>((x, p + e_multi(x).len()))
{
    broadcast use {ax_all, rt_base};
    let v = x.delegates@;
    lemma_at_cat(d, p, e32(v.len() as u32), e_delegates(v, v.len() as int));
    assert(v.subrange(0, 0) =~= Seq::empty());
    lemma_rt_delegates(d, p + 4, v, 0, Seq::empty());
}
pub proof fn lemma_rt_fieldpath(d: Seq<u8>, p: int, x: FieldPath)
    requires at(d, p, e_fpath(x)), w_fpath(x), x.path@.len() <= u32::MAX
    ensures p_fpath(d, p) == Ok::<(FieldPath, int), E>((x, p + e_fpath(x).len()))
{
    broadcast use {ax_all, rt_base};
    let v = x.path@;
    assert(at(d, p, e32(v.len() as u32) + e_strings(v, v.len() as int) + e_string(x.resolved_owner@)));
    assert(v.subrange(0, 0) =~= Seq::empty());
    lemma_rt_strings(d, p + 4, v, 0, Seq::empty());
}
pub proof fn lemma_rt_str(d: Seq<u8>, p: int, x: StrProperty, hdr: bool)
    requires at(d, p, enc_str(x, hdr)), small(d), fstr_ok(osv(x.value)), true
    ensures (if hdr { p_strh(d, past(p, "StrProperty"@, hdr)) } else { p_strb(d, past(p, "StrProperty"@, hdr)) }) == Ok::<(StrProperty, int), E>((x, p + enc_str(x, hdr).len())), kind_at(d, p, "StrProperty"@, hdr)
{
    broadcast use {ax_all, rt_base};
    lemma_kinds();
    let b = e_fstring(osv(x.value));
    let r = if hdr { p + (e_string("StrProperty"@) + e32(b.len() as u32) + e32(0) + seq![0u8]).len() } else { p };
    if hdr { assert(at(d, p, e_string("StrProperty"@) + e32(b.len() as u32) + e32(0) + seq![0u8] + b)); }
    
}
pub proof fn lemma_rt_name(d: Seq<u8>, p: int, x: NameProperty, hdr: bool)
    requires at(d, p, enc_name(x, hdr)), small(d), fstr_ok(osv(x.value)), (hdr || x.array_index == 0)
    ensures (if hdr { p_nameh(d, past(p, "NameProperty"@, hdr)) } else { p_nameb(d, past(p, "NameProperty"@, hdr), 0) }) == Ok::<(NameProperty, int), E>((x, p + enc_name(x, hdr).len())), kind_at(d, p, "NameProperty"@, hdr)
{
    broadcast use {ax_all, rt_base};
    lemma_kinds();
    let b = e_fstring(osv(x.value));
    let r = if hdr { p + (e_string("NameProperty"@) + e32(b.len() as u32) + e32(x.array_index) + seq![0u8]).len() } else { p };
    if hdr { assert(at(d, p, e_string("NameProperty"@) + e32(b.len() as u32) + e32(x.array_index) + seq![0u8] + b)); }
    
}
pub proof fn lemma_rt_object(d: Seq<u8>, p: int, x: ObjectProperty, hdr: bool)
    requires at(d, p, enc_object(x, hdr)), small(d), str_ok(x.value@), true
    ensures (if hdr { p_objecth(d, past(p, "ObjectProperty"@, hdr)) } else { p_objectb(d, past(p, "ObjectProperty"@, hdr)) }) == Ok::<(ObjectProperty, int), E>((x, p + enc_object(x, hdr).len())), kind_at(d, p, "ObjectProperty"@, hdr)
{
    broadcast use {ax_all, rt_base};
    lemma_kinds();
    let b = e_string(x.value@);
    let r = if hdr { p + (e_string("ObjectProperty"@) + e32(b.len() as u32) + e32(0) + seq![0u8]).len() } else { p };
    if hdr { assert(at(d, p, e_string("ObjectProperty"@) + e32(b.len() as u32) + e32(0) + seq![0u8] + b)); }
    
}
pub proof fn lemma_rt_enum(d: Seq<u8>, p: int, x: EnumProperty, hdr: bool)
    requires at(d, p, enc_enum(x, hdr)), small(d), wok_enum(x, hdr), (hdr <==> x.enum_type is Some)
    ensures (if hdr { p_enumh(d, past(p, "EnumProperty"@, hdr)) } else { p_enumb(d, past(p, "EnumProperty"@, hdr), None) }) == Ok::<(EnumProperty, int), E>((x, p + enc_enum(x, hdr).len())), kind_at(d, p, "EnumProperty"@, hdr)
{
    broadcast use {ax_all, rt_base};
    lemma_kinds();
    let b = e_string(x.value@);
    let r = if hdr { p + (e_string("EnumProperty"@) + e32(b.len() as u32) + e32(0) + e_fstring(osv(x.enum_type)) + seq![0u8]).len() } else { p };
    if hdr { assert(at(d, p, e_string("EnumProperty"@) + e32(b.len() as u32) + e32(0) + e_fstring(osv(x.enum_type)) + seq![0u8] + b)); }
    
}
pub proof fn lemma_rt_delegate(d: Seq<u8>, p: int, x: DelegateProperty, hdr: bool)
    requires at(d, p, enc_delegate(x, hdr)), small(d), w_delegate(x.value), true
    ensures (if hdr { p_delegateh(d, past(p, "DelegateProperty"@, hdr)) } else { p_delegateb(d, past(p, "DelegateProperty"@, hdr)) }) == Ok::<(DelegateProperty, int), E>((x, p + enc_delegate(x, hdr).len())), kind_at(d, p, "DelegateProperty"@, hdr)
{
    broadcast use {ax_all, rt_base};
    lemma_kinds();
    let b = e_delegate(x.value);
    let r = if hdr { p + (e_string("DelegateProperty"@) + e32(b.len() as u32) + e32(0) + seq![0u8]).len() } else { p };
    if hdr { assert(at(d, p, e_string("DelegateProperty"@) + e32(b.len() as u32) + e32(0) + seq![0u8] + b)); }
    
}
pub proof fn lemma_rt_inline(d: Seq<u8>, p: int, x: MulticastInlineDelegateProperty, hdr: bool)
    requires at(d, p, enc_inline(x, hdr)), small(d), w_multi(x.value), x.value.delegates@.len() <= u32::MAX
    ensures (if hdr { p_inlineh(d, past(p, "MulticastInlineDelegateProperty"@, hdr)) } else { p_inlineb(d, past(p, "MulticastInlineDelegateProperty"@, hdr)) }) == Ok::<(MulticastInlineDelegateProperty, int), E>((x, p + enc_inline(x, hdr).len())), kind_at(d, p, "MulticastInlineDelegateProperty"@, hdr)
{
    broadcast use {ax_all, rt_base};
    lemma_kinds();
    let b = e_multi(x.value);
    let r = if hdr { p + (e_string("MulticastInlineDelegateProperty"@) + e32(b.len() as u32) + e32(0) + seq![0u8]).len() } else { p };
    if hdr { assert(at(d, p, e_string("MulticastInlineDelegateProperty"@) + e32(b.len() as u32) + e32(0) + seq![0u8] + b)); }
    lemma_rt_multi(d, r, x.value);
}
pub proof fn lemma_rt_sparse(d: Seq<u8>, p: int, x: MulticastSparseDelegateProperty, hdr: bool)
    requires at(d, p, enc_sparse(x, hdr)), small(d), w_multi(x.value), x.value.delegates@.len() <= u32::MAX
    ensures (if hdr { p_sparseh(d, past(p, "MulticastSparseDelegateProperty"@, hdr)) } else { p_sparseb(d, past(p, "MulticastSparseDelegateProperty"@, hdr)) }) == Ok::<(MulticastSparseDelegateProperty, int), E>((x, p + enc_sparse(x, hdr).len())), kind_at(d, p, "MulticastSparseDelegateProperty"@, hdr)
{
    broadcast use {ax_all, rt_base};
    lemma_kinds();
    let b = e_multi(x.value);
    let r = if hdr { p + (e_string("MulticastSparseDelegateProperty"@) + e32(b.len() as u32) + e32(0) + seq![0u8]).len() } else { p };
    if hdr { assert(at(d, p, e_string("MulticastSparseDelegateProperty"@) + e32(b.len() as u32) + e32(0) + seq![0u8] + b)); }
    lemma_rt_multi(d, r, x.value);
}
pub proof fn lemma_rt_fpath(d: Seq<u8>, p: int, x: FieldPathProperty, hdr: bool)
    requires at(d, p, enc_fpath(x, hdr)), small(d), w_fpath(x.value), x.value.path@.len() <= u32::MAX
    ensures (if hdr { p_fpathh(d, past(p, "FieldPathProperty"@, hdr)) } else { p_fpathb(d, past(p, "FieldPathProperty"@, hdr)) }) == Ok::<(FieldPathProperty, int), E>((x, p + enc_fpath(x, hdr).len())), kind_at(d, p, "FieldPathProperty"@, hdr)
{
    broadcast use {ax_all, rt_base};
    lemma_kinds();
    let b = e_fpath(x.value);
    let r = if hdr { p + (e_string("FieldPathProperty"@) + e32(b.len() as u32) + e32(0) + seq![0u8]).len() } else { p };
    if hdr { assert(at(d, p, e_string("FieldPathProperty"@) + e32(b.len() as u32) + e32(0) + seq![0u8] + b)); }
    lemma_rt_fieldpath(d, r, x.value);
}
