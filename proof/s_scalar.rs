// ------------------------------------------------------------------ options
pub open spec fn cvo(o: &PropertyOptions) -> Seq<(Guid, u32)> { o.custom_versions.0@ }
pub open spec fn opt_same(a: &PropertyOptions, b: &PropertyOptions) -> bool {
    &&& *b.hints == *a.hints
    &&& b.properties_stack@ == a.properties_stack@
    &&& *b.custom_versions == *a.custom_versions
}

// ------------------------------------------------------------------ headers
/// kind, body length, array index, parts of the kind's own, zero byte, body
pub open spec fn e_hdr(kind: Seq<char>, body: Seq<u8>, idx: u32) -> Seq<u8> {
    e_string(kind) + e32(body.len() as u32) + e32(idx)
}
pub open spec fn e_hdr0(kind: Seq<char>, body: Seq<u8>, idx: u32) -> Seq<u8> { e_hdr(kind, body, idx) + seq![0u8] + body }
pub open spec fn e_hdr1(kind: Seq<char>, body: Seq<u8>, a: Seq<u8>) -> Seq<u8> { e_hdr(kind, body, 0) + a + seq![0u8] + body }
pub open spec fn e_hdr2(kind: Seq<char>, body: Seq<u8>, a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { e_hdr(kind, body, 0) + a + b + seq![0u8] + body }
pub open spec fn p_size(d: Seq<u8>, p: int, n: int) -> PR<()> {
    let (s, q) <- p_u64(d, p);
    guard s == n else E::ValSize(n, s as int, q);
    Ok(((), q))
}
pub open spec fn p_zero(d: Seq<u8>, p: int) -> PR<()> {
    let (t, q) <- p_u8(d, p);
    guard t == 0 else E::Term(t as int, p);
    Ok(((), q))
}
pub open spec fn p_szero(d: Seq<u8>, p: int, n: int) -> PR<()> {
    let (_, q) <- p_size(d, p, n);
    p_zero(d, q)
}
pub open spec fn p_idx0(d: Seq<u8>, p: int) -> PR<()> {
    let (i, q) <- p_u32(d, p);
    guard i == 0 else E::ArrIdx(i as int, p);
    Ok(((), q))
}
/// length, index 0
pub open spec fn p_len_idx(d: Seq<u8>, p: int) -> PR<u32> {
    let (n, q) <- p_u32(d, p);
    let (_, q) <- p_idx0(d, q);
    Ok((n, q))
}
pub open spec fn p_hdr0(d: Seq<u8>, p: int) -> PR<u32> {
    let (n, q) <- p_len_idx(d, p);
    let (_, q) <- p_zero(d, q);
    Ok((n, q))
}
pub open spec fn p_hdr1(d: Seq<u8>, p: int) -> PR<(u32, String)> {
    let (n, q) <- p_len_idx(d, p);
    let (a, q) <- p_string(d, q);
    let (_, q) <- p_zero(d, q);
    Ok(((n, a), q))
}
pub open spec fn p_hdr2(d: Seq<u8>, p: int) -> PR<(u32, String, String)> {
    let (n, q) <- p_len_idx(d, p);
    let (a, q) <- p_string(d, q);
    let (b, q) <- p_string(d, q);
    let (_, q) <- p_zero(d, q);
    Ok(((n, a, b), q))
}
/// the declared length must be the length read
pub open spec fn p_sized<V>(n: int, start: int, r: PR<V>) -> PR<V> {
    let (v, q) <- r;
    guard q - start == n else E::ValSize(n, q - start, start);
    Ok((v, q))
}

// ------------------------------------------------------------------ bool, byte
pub open spec fn enc_bool(x: BoolProperty, hdr: bool) -> Seq<u8> {
    if hdr { e_string("BoolProperty"@) + e64(0) + e_bool(x.value) + seq![0u8] } else { e_bool(x.value) }
}
pub open spec fn p_boolp(d: Seq<u8>, p: int, hdr: bool) -> PR<BoolProperty> {
    if hdr {
        let (_, q) <- p_size(d, p, 0);
        let (v, q) <- p_bool(d, q);
        let (_, q) <- p_zero(d, q);
        Ok((BoolProperty { value: v }, q))
    } else {
        let (v, q) <- p_bool(d, p);
        Ok((BoolProperty { value: v }, q))
    }
}
pub open spec fn eb_byte(v: BytePropertyValue) -> Seq<u8> {
    match v { BytePropertyValue::Byte(b) => seq![b], BytePropertyValue::Namespaced(s) => e_string(s@) }
}
pub open spec fn wb_byte(v: BytePropertyValue) -> bool {
    match v { BytePropertyValue::Byte(b) => true, BytePropertyValue::Namespaced(s) => str_ok(s@) }
}
pub open spec fn enc_byte(x: ByteProperty, hdr: bool) -> Seq<u8> {
    if hdr { e_string("ByteProperty"@) + e64(eb_byte(x.value).len() as u64) + e_fstring(osv(x.name)) + seq![0u8] + eb_byte(x.value) }
    else { eb_byte(x.value) }
}
pub open spec fn wok_byte(x: ByteProperty, hdr: bool) -> bool {
    wb_byte(x.value) && (hdr ==> fstr_ok(osv(x.name)))
}
pub open spec fn p_bytev(d: Seq<u8>, p: int, n: int) -> PR<BytePropertyValue> {
    if n <= 2 {
        let (b, q) <- p_u8(d, p);
        Ok((BytePropertyValue::Byte(b), q))
    } else {
        let (s, q) <- p_string(d, p);
        Ok((BytePropertyValue::Namespaced(s), q))
    }
}
pub open spec fn p_bytep(d: Seq<u8>, p: int, hdr: bool, sl: Option<u32>) -> PR<ByteProperty> {
    if hdr {
        let (n, q) <- p_len_idx(d, p);
        let (name, q) <- p_string(d, q);
        let (_, q) <- p_zero(d, q);
        let (v, q) <- p_sized(n as int, q, p_bytev(d, q, n as int));
        Ok((ByteProperty { name: Some(name), value: v }, q))
    } else {
        let (v, q) <- p_bytev(d, p, match sl { Some(n) => n as int, None => 1 });
        Ok((ByteProperty { name: None, value: v }, q))
    }
}

// ------------------------------------------------------------------ str, name, object, enum
pub open spec fn enc_str(x: StrProperty, hdr: bool) -> Seq<u8> {
    let b = e_fstring(osv(x.value));
    if hdr { e_hdr0("StrProperty"@, b, 0) } else { b }
}
pub open spec fn p_strb(d: Seq<u8>, p: int) -> PR<StrProperty> {
    let (v, q) <- p_fstring(d, p);
    Ok((StrProperty { value: v }, q))
}
pub open spec fn p_strh(d: Seq<u8>, p: int) -> PR<StrProperty> {
    let (n, q) <- p_hdr0(d, p);
    p_sized(n as int, q, p_strb(d, q))
}
pub open spec fn enc_name(x: NameProperty, hdr: bool) -> Seq<u8> {
    let b = e_fstring(osv(x.value));
    if hdr { e_hdr0("NameProperty"@, b, x.array_index) } else { b }
}
pub open spec fn p_nameb(d: Seq<u8>, p: int, idx: u32) -> PR<NameProperty> {
    let (v, q) <- p_fstring(d, p);
    Ok((NameProperty { array_index: idx, value: v }, q))
}
pub open spec fn p_nameh(d: Seq<u8>, p: int) -> PR<NameProperty> {
    let (n, q) <- p_u32(d, p);
    let (i, q) <- p_u32(d, q);
    let (_, q) <- p_zero(d, q);
    p_sized(n as int, q, p_nameb(d, q, i))
}
pub open spec fn enc_object(x: ObjectProperty, hdr: bool) -> Seq<u8> {
    let b = e_string(x.value@);
    if hdr { e_hdr0("ObjectProperty"@, b, 0) } else { b }
}
pub open spec fn p_objectb(d: Seq<u8>, p: int) -> PR<ObjectProperty> {
    let (v, q) <- p_string(d, p);
    Ok((ObjectProperty { value: v }, q))
}
pub open spec fn p_objecth(d: Seq<u8>, p: int) -> PR<ObjectProperty> {
    let (n, q) <- p_hdr0(d, p);
    p_sized(n as int, q, p_objectb(d, q))
}
pub open spec fn enc_enum(x: EnumProperty, hdr: bool) -> Seq<u8> {
    let b = e_string(x.value@);
    if hdr { e_hdr1("EnumProperty"@, b, e_fstring(osv(x.enum_type))) } else { b }
}
pub open spec fn wok_enum(x: EnumProperty, hdr: bool) -> bool { str_ok(x.value@) && (hdr ==> fstr_ok(osv(x.enum_type))) }
pub open spec fn p_enumb(d: Seq<u8>, p: int, t: Option<String>) -> PR<EnumProperty> {
    let (v, q) <- p_string(d, p);
    Ok((EnumProperty { enum_type: t, value: v }, q))
}
pub open spec fn p_enumh(d: Seq<u8>, p: int) -> PR<EnumProperty> {
    let ((n, t), q) <- p_hdr1(d, p);
    p_sized(n as int, q, p_enumb(d, q, Some(t)))
}

// ------------------------------------------------------------------ delegates, field paths
pub open spec fn e_delegate(x: Delegate) -> Seq<u8> { e_string(x.object@) + e_string(x.function_name@) }
pub open spec fn w_delegate(x: Delegate) -> bool { str_ok(x.object@) && str_ok(x.function_name@) }
pub open spec fn p_delegate(d: Seq<u8>, p: int) -> PR<Delegate> {
    let (a, q) <- p_string(d, p);
    let (b, q) <- p_string(d, q);
    Ok((Delegate { object: a, function_name: b }, q))
}
pub open spec fn e_delegates(v: Seq<Delegate>, n: int) -> Seq<u8> decreases n
{ if n <= 0 { Seq::empty() } else { e_delegates(v, n - 1) + e_delegate(v[n - 1]) } }
pub open spec fn w_delegates(v: Seq<Delegate>, n: int) -> bool decreases n
{ if n <= 0 { true } else { w_delegates(v, n - 1) && w_delegate(v[n - 1]) } }
pub open spec fn p_delegates(d: Seq<u8>, p: int, n: int, acc: Seq<Delegate>) -> PR<Vec<Delegate>> decreases n
{
    if n <= 0 { Ok((mkvec(acc), p)) } else {
        let (x, q) <- p_delegate(d, p);
        p_delegates(d, q, n - 1, acc.push(x))
    }
}
pub open spec fn e_multi(x: MulticastScriptDelegate) -> Seq<u8> {
    e32(x.delegates@.len() as u32) + e_delegates(x.delegates@, x.delegates@.len() as int)
}
pub open spec fn w_multi(x: MulticastScriptDelegate) -> bool { w_delegates(x.delegates@, x.delegates@.len() as int) }
pub open spec fn p_multi(d: Seq<u8>, p: int) -> PR<MulticastScriptDelegate> {
    let (n, q) <- p_u32(d, p);
    let (v, q) <- p_delegates(d, q, n as int, Seq::empty());
    Ok((MulticastScriptDelegate { delegates: v }, q))
}
pub proof fn lemma_delegates_step(x: Seq<u8>, v: Seq<Delegate>, i: int)
    requires 0 <= i < v.len()
    ensures x + e_delegates(v, i + 1) == (x + e_delegates(v, i)) + e_delegate(v[i])
{ assert(x + e_delegates(v, i + 1) =~= (x + e_delegates(v, i)) + e_delegate(v[i])); }
pub proof fn lemma_delegates_prefix(v: Seq<Delegate>, i: int, n: int)
    requires 0 <= i <= n <= v.len()
    ensures e_delegates(v, i).len() <= e_delegates(v, n).len(), w_delegates(v, n) ==> w_delegates(v, i)
    decreases n
{ if i < n { lemma_delegates_prefix(v, i, n - 1); } }

pub open spec fn enc_delegate(x: DelegateProperty, hdr: bool) -> Seq<u8> {
    let b = e_delegate(x.value);
    if hdr { e_hdr0("DelegateProperty"@, b, 0) } else { b }
}
pub open spec fn p_delegateb(d: Seq<u8>, p: int) -> PR<DelegateProperty> {
    let (v, q) <- p_delegate(d, p);
    Ok((DelegateProperty { value: v }, q))
}
pub open spec fn p_delegateh(d: Seq<u8>, p: int) -> PR<DelegateProperty> {
    let (n, q) <- p_hdr0(d, p);
    p_sized(n as int, q, p_delegateb(d, q))
}
pub open spec fn enc_inline(x: MulticastInlineDelegateProperty, hdr: bool) -> Seq<u8> {
    let b = e_multi(x.value);
    if hdr { e_hdr0("MulticastInlineDelegateProperty"@, b, 0) } else { b }
}
pub open spec fn p_inlineb(d: Seq<u8>, p: int) -> PR<MulticastInlineDelegateProperty> {
    let (v, q) <- p_multi(d, p);
    Ok((MulticastInlineDelegateProperty { value: v }, q))
}
pub open spec fn p_inlineh(d: Seq<u8>, p: int) -> PR<MulticastInlineDelegateProperty> {
    let (n, q) <- p_hdr0(d, p);
    p_sized(n as int, q, p_inlineb(d, q))
}
pub open spec fn enc_sparse(x: MulticastSparseDelegateProperty, hdr: bool) -> Seq<u8> {
    let b = e_multi(x.value);
    if hdr { e_hdr0("MulticastSparseDelegateProperty"@, b, 0) } else { b }
}
pub open spec fn p_sparseb(d: Seq<u8>, p: int) -> PR<MulticastSparseDelegateProperty> {
    let (v, q) <- p_multi(d, p);
    Ok((MulticastSparseDelegateProperty { value: v }, q))
}
pub open spec fn p_sparseh(d: Seq<u8>, p: int) -> PR<MulticastSparseDelegateProperty> {
    let (n, q) <- p_hdr0(d, p);
    p_sized(n as int, q, p_sparseb(d, q))
}
/// string lists
pub open spec fn e_strings(v: Seq<String>, n: int) -> Seq<u8> decreases n
{ if n <= 0 { Seq::empty() } else { e_strings(v, n - 1) + e_string(v[n - 1]@) } }
pub open spec fn w_strings(v: Seq<String>, n: int) -> bool decreases n
{ if n <= 0 { true } else { w_strings(v, n - 1) && str_ok(v[n - 1]@) } }
pub open spec fn p_strings(d: Seq<u8>, p: int, n: int, acc: Seq<String>) -> PR<Vec<String>> decreases n
{
    if n <= 0 { Ok((mkvec(acc), p)) } else {
        let (x, q) <- p_string(d, p);
        p_strings(d, q, n - 1, acc.push(x))
    }
}
pub proof fn lemma_strings_step(x: Seq<u8>, v: Seq<String>, i: int)
    requires 0 <= i < v.len()
    ensures x + e_strings(v, i + 1) == (x + e_strings(v, i)) + e_string(v[i]@)
{ assert(x + e_strings(v, i + 1) =~= (x + e_strings(v, i)) + e_string(v[i]@)); }
pub proof fn lemma_strings_prefix(v: Seq<String>, i: int, n: int)
    requires 0 <= i <= n <= v.len()
    ensures e_strings(v, i).len() <= e_strings(v, n).len(), w_strings(v, n) ==> w_strings(v, i)
    decreases n
{ if i < n { lemma_strings_prefix(v, i, n - 1); } }
pub open spec fn e_fpath(x: FieldPath) -> Seq<u8> {
    e32(x.path@.len() as u32) + e_strings(x.path@, x.path@.len() as int) + e_string(x.resolved_owner@)
}
pub open spec fn w_fpath(x: FieldPath) -> bool { w_strings(x.path@, x.path@.len() as int) && str_ok(x.resolved_owner@) }
pub open spec fn p_fpath(d: Seq<u8>, p: int) -> PR<FieldPath> {
    let (n, q) <- p_u32(d, p);
    let (v, q) <- p_strings(d, q, n as int, Seq::empty());
    let (o, q) <- p_string(d, q);
    Ok((FieldPath { path: v, resolved_owner: o }, q))
}
pub open spec fn enc_fpath(x: FieldPathProperty, hdr: bool) -> Seq<u8> {
    let b = e_fpath(x.value);
    if hdr { e_hdr0("FieldPathProperty"@, b, 0) } else { b }
}
pub open spec fn p_fpathb(d: Seq<u8>, p: int) -> PR<FieldPathProperty> {
    let (v, q) <- p_fpath(d, p);
    Ok((FieldPathProperty { value: v }, q))
}
pub open spec fn p_fpathh(d: Seq<u8>, p: int) -> PR<FieldPathProperty> {
    let (n, q) <- p_hdr0(d, p);
    p_sized(n as int, q, p_fpathb(d, q))
}

// ------------------------------------------------------------------ unknown kinds
pub open spec fn enc_unknown(x: UnknownProperty, hdr: bool) -> Seq<u8> {
    if hdr { e_hdr0(x.property_name@, x.raw@, 0) } else { x.raw@ }
}
pub open spec fn wok_unknown(x: UnknownProperty, hdr: bool) -> bool { hdr ==> str_ok(x.property_name@) }
pub open spec fn p_unknownl(d: Seq<u8>, p: int, name: Seq<char>, n: int) -> PR<UnknownProperty> {
    guard p + n <= d.len() else E::Io;
    Ok((UnknownProperty { property_name: mkstr(name), raw: mkvec(d.subrange(p, p + n)) }, p + n))
}
pub open spec fn p_unknownh(d: Seq<u8>, p: int, name: Seq<char>) -> PR<UnknownProperty> {
    let (n, q) <- p_hdr0(d, p);
    p_unknownl(d, q, name, n as int)
}
