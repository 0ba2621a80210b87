// ------------------------------------------------------------------ what reading can return
pub open spec fn is_kind(s: Seq<char>) -> bool {
    s == "Int8Property"@ || s == "ByteProperty"@ || s == "Int16Property"@ || s == "UInt16Property"@ || s == "IntProperty"@ || s == "UInt32Property"@ || s == "Int64Property"@ || s == "UInt64Property"@ || s == "FloatProperty"@ || s == "DoubleProperty"@ || s == "BoolProperty"@ || s == "EnumProperty"@ || s == "StrProperty"@ || s == "TextProperty"@ || s == "NameProperty"@ || s == "ObjectProperty"@ || s == "DelegateProperty"@ || s == "MulticastInlineDelegateProperty"@ || s == "MulticastSparseDelegateProperty"@ || s == "FieldPathProperty"@ || s == "StructProperty"@ || s == "ArrayProperty"@ || s == "SetProperty"@ || s == "MapProperty"@
}
pub open spec fn is_struct(s: Seq<char>) -> bool {
    s == "Vector"@ || s == "Vector2D"@ || s == "Rotator"@ || s == "Quat"@ || s == "DateTime"@ || s == "Timespan"@ || s == "LinearColor"@ || s == "IntPoint"@ || s == "Guid"@ || s == "GameplayTagContainer"@
}
pub open spec fn kind_of(x: Property) -> Seq<char> {
    match x {
        Property::Int8Property(v) => "Int8Property"@,
        Property::ByteProperty(v) => "ByteProperty"@,
        Property::Int16Property(v) => "Int16Property"@,
        Property::UInt16Property(v) => "UInt16Property"@,
        Property::IntProperty(v) => "IntProperty"@,
        Property::UInt32Property(v) => "UInt32Property"@,
        Property::Int64Property(v) => "Int64Property"@,
        Property::UInt64Property(v) => "UInt64Property"@,
        Property::FloatProperty(v) => "FloatProperty"@,
        Property::DoubleProperty(v) => "DoubleProperty"@,
        Property::BoolProperty(v) => "BoolProperty"@,
        Property::EnumProperty(v) => "EnumProperty"@,
        Property::StrProperty(v) => "StrProperty"@,
        Property::TextProperty(v) => "TextProperty"@,
        Property::NameProperty(v) => "NameProperty"@,
        Property::ObjectProperty(v) => "ObjectProperty"@,
        Property::DelegateProperty(v) => "DelegateProperty"@,
        Property::MulticastInlineDelegateProperty(v) => "MulticastInlineDelegateProperty"@,
        Property::MulticastSparseDelegateProperty(v) => "MulticastSparseDelegateProperty"@,
        Property::FieldPathProperty(v) => "FieldPathProperty"@,
        Property::StructProperty(v) => "StructProperty"@,
        Property::ArrayProperty(v) => "ArrayProperty"@,
        Property::SetProperty(v) => "SetProperty"@,
        Property::MapProperty(v) => "MapProperty"@,
        Property::UnknownProperty(v) => v.property_name@,
        Property::StructPropertyValue(v) => "StructProperty"@,
    }
}
/// `x` is a value of kind `ty` that reading can return at this place
pub open spec fn rt_prop(x: Property, ty: Seq<char>, hdr: bool, e: Env, st0: Seq<String>, sl: Option<u32>) -> bool decreases x
{
    let st = st0.push(mkstr(ty));
    ty == kind_of(x) && match x {
        Property::ByteProperty(v) => rt_byte(v, hdr, sl),
        Property::NameProperty(v) => hdr || v.array_index == 0,
        Property::EnumProperty(v) => hdr <==> v.enum_type is Some,
        Property::StructProperty(v) => hdr && rt_sv(v.value, e, st, v.type_name@),
        Property::StructPropertyValue(v) => !hdr && e.h.contains_key(join_spec(st, "."@)) && rt_sv(v, e, st, e.h[join_spec(st, "."@)]@),
        Property::ArrayProperty(v) => hdr && rt_array(v, e, st),
        Property::SetProperty(v) => hdr && rt_set(v, e, st),
        Property::MapProperty(v) => hdr && rt_map(v, e, st),
        Property::UnknownProperty(v) => !is_kind(ty) && (hdr || sl == Some(v.raw@.len() as u32) && 0 < v.raw@.len() <= u32::MAX),
        _ => true,
    }
}
pub open spec fn rt_sv(x: StructPropertyValue, e: Env, st: Seq<String>, tn: Seq<char>) -> bool decreases x
{
    match x {
        StructPropertyValue::Vector2F(v) => tn == "Vector2D"@,
        StructPropertyValue::Vector2D(v) => tn == "Vector2D"@,
        StructPropertyValue::VectorF(v) => tn == "Vector"@,
        StructPropertyValue::VectorD(v) => tn == "Vector"@,
        StructPropertyValue::RotatorF(v) => tn == "Rotator"@,
        StructPropertyValue::RotatorD(v) => tn == "Rotator"@,
        StructPropertyValue::QuatF(v) => tn == "Quat"@,
        StructPropertyValue::QuatD(v) => tn == "Quat"@,
        StructPropertyValue::LinearColor(v) => tn == "LinearColor"@,
        StructPropertyValue::DateTime(v) => tn == "DateTime"@,
        StructPropertyValue::Timespan(v) => tn == "Timespan"@,
        StructPropertyValue::IntPoint(v) => tn == "IntPoint"@,
        StructPropertyValue::Guid(v) => tn == "Guid"@,
        StructPropertyValue::GameplayTagContainer(v) => tn == "GameplayTagContainer"@,
        StructPropertyValue::CustomStruct(m) => !is_struct(tn) && rt_fields(m.0, m.0@.len() as int, e, st),
    }
}
pub open spec fn rt_array(x: ArrayProperty, e: Env, st: Seq<String>) -> bool decreases x
{
    match x {
        ArrayProperty::Structs { field_name, type_name, guid, structs } => rt_svs(structs, structs@.len() as int, e, st, type_name@),
        ArrayProperty::Properties { property_type, properties } => property_type@ != "StructProperty"@ && arr_new(property_type, None, properties) == Some(x)
            && rt_props(properties, properties@.len() as int, property_type@, e, st, arr_sl(properties@.len() as u32, (4 + enc_props(properties, properties@.len() as int, e.cv).len()) as u32)),
        _ => true,
    }
}
pub open spec fn rt_set(x: SetProperty, e: Env, st: Seq<String>) -> bool decreases x
{
    rt_props(x.properties, x.properties@.len() as int, x.property_type@, e, st,
        Some(set_sl(x.properties@.len() as u32, (8 + enc_props(x.properties, x.properties@.len() as int, e.cv).len()) as u32)))
}
/// the value kinds that have a form of their own
pub open spec fn own_form(vt: Seq<char>) -> bool { vt == "BoolProperty"@ || vt == "IntProperty"@ }
pub open spec fn rt_map(x: MapProperty, e: Env, st: Seq<String>) -> bool decreases x
{
    match x {
        MapProperty::EnumProperty { value_type, enum_props } => !own_form(value_type@) && rt_kprops(enum_props.0, enum_props.0@.len() as int, value_type@, e, st),
        MapProperty::NameProperty { value_type, name_props } => !own_form(value_type@) && rt_kprops(name_props.0, name_props.0@.len() as int, value_type@, e, st),
        MapProperty::StrProperty { value_type, str_props } => !own_form(value_type@) && value_type@ != "StrProperty"@ && rt_kprops(str_props.0, str_props.0@.len() as int, value_type@, e, st),
        MapProperty::Properties { key_type, value_type, allocation_flags, value } => map_new(key_type, value_type, allocation_flags, value) == x
            && rt_pairs(value.0, value.0@.len() as int, key_type@, value_type@, e, st),
        _ => true,
    }
}
pub open spec fn rt_props(v: Vec<Property>, n: int, ty: Seq<char>, e: Env, st: Seq<String>, sl: Option<u32>) -> bool decreases v, n via dec_rt_props
{ if 0 < n <= v@.len() { rt_props(v, n - 1, ty, e, st, sl) && rt_prop(v@[n - 1], ty, false, e, st, sl) } else { true } }
#[via_fn] proof fn dec_rt_props(v: Vec<Property>, n: int, ty: Seq<char>, e: Env, st: Seq<String>, sl: Option<u32>) { broadcast use {ax_vec_dec, ax_im_dec}; }
pub proof fn lemma_rt_props(v: Vec<Property>, n: int, ty: Seq<char>, e: Env, st: Seq<String>, sl: Option<u32>, i: int)
    requires 0 <= i < n <= v@.len(), rt_props(v, n, ty, e, st, sl)
    ensures rt_prop(v@[i], ty, false, e, st, sl)
    decreases n
{ if i < n - 1 { lemma_rt_props(v, n - 1, ty, e, st, sl, i); } }
pub open spec fn rt_svs(v: Vec<StructPropertyValue>, n: int, e: Env, st: Seq<String>, tn: Seq<char>) -> bool decreases v, n via dec_rt_svs
{ if 0 < n <= v@.len() { rt_svs(v, n - 1, e, st, tn) && rt_sv(v@[n - 1], e, st, tn) } else { true } }
#[via_fn] proof fn dec_rt_svs(v: Vec<StructPropertyValue>, n: int, e: Env, st: Seq<String>, tn: Seq<char>) { broadcast use {ax_vec_dec, ax_im_dec}; }
pub proof fn lemma_rt_svs(v: Vec<StructPropertyValue>, n: int, e: Env, st: Seq<String>, tn: Seq<char>, i: int)
    requires 0 <= i < n <= v@.len(), rt_svs(v, n, e, st, tn)
    ensures rt_sv(v@[i], e, st, tn)
    decreases n
{ if i < n - 1 { lemma_rt_svs(v, n - 1, e, st, tn, i); } }
pub open spec fn rt_pairs(v: IndexMap<Property, Property>, n: int, kt: Seq<char>, vt: Seq<char>, e: Env, st: Seq<String>) -> bool decreases v, n via dec_rt_pairs
{ if 0 < n <= v@.len() { rt_pairs(v, n - 1, kt, vt, e, st) && rt_prop(v@[n - 1].0, kt, false, e, st.push(mkstr("Key"@)), None) && rt_prop(v@[n - 1].1, vt, false, e, st.push(mkstr("Value"@)), None) } else { true } }
#[via_fn] proof fn dec_rt_pairs(v: IndexMap<Property, Property>, n: int, kt: Seq<char>, vt: Seq<char>, e: Env, st: Seq<String>) { broadcast use {ax_vec_dec, ax_im_dec}; }
pub proof fn lemma_rt_pairs(v: IndexMap<Property, Property>, n: int, kt: Seq<char>, vt: Seq<char>, e: Env, st: Seq<String>, i: int)
    requires 0 <= i < n <= v@.len(), rt_pairs(v, n, kt, vt, e, st)
    ensures rt_prop(v@[i].0, kt, false, e, st.push(mkstr("Key"@)), None) && rt_prop(v@[i].1, vt, false, e, st.push(mkstr("Value"@)), None)
    decreases n
{ if i < n - 1 { lemma_rt_pairs(v, n - 1, kt, vt, e, st, i); } }
pub open spec fn rt_kprops(v: IndexMap<String, Property>, n: int, vt: Seq<char>, e: Env, st: Seq<String>) -> bool decreases v, n via dec_rt_kprops
{ if 0 < n <= v@.len() { rt_kprops(v, n - 1, vt, e, st) && rt_prop(v@[n - 1].1, vt, false, e, st.push(mkstr("Value"@)), None) } else { true } }
#[via_fn] proof fn dec_rt_kprops(v: IndexMap<String, Property>, n: int, vt: Seq<char>, e: Env, st: Seq<String>) { broadcast use {ax_vec_dec, ax_im_dec}; }
pub proof fn lemma_rt_kprops(v: IndexMap<String, Property>, n: int, vt: Seq<char>, e: Env, st: Seq<String>, i: int)
    requires 0 <= i < n <= v@.len(), rt_kprops(v, n, vt, e, st)
    ensures rt_prop(v@[i].1, vt, false, e, st.push(mkstr("Value"@)), None)
    decreases n
{ if i < n - 1 { lemma_rt_kprops(v, n - 1, vt, e, st, i); } }
pub open spec fn rt_field(v: Vec<Property>, n: int, e: Env, st: Seq<String>) -> bool decreases v, n via dec_rt_field
{ if 0 < n <= v@.len() { rt_field(v, n - 1, e, st) && rt_prop(v@[n - 1], kind_of(v@[n - 1]), true, e, st, None) } else { true } }
#[via_fn] proof fn dec_rt_field(v: Vec<Property>, n: int, e: Env, st: Seq<String>) { broadcast use {ax_vec_dec, ax_im_dec}; }
pub proof fn lemma_rt_field(v: Vec<Property>, n: int, e: Env, st: Seq<String>, i: int)
    requires 0 <= i < n <= v@.len(), rt_field(v, n, e, st)
    ensures rt_prop(v@[i], kind_of(v@[i]), true, e, st, None)
    decreases n
{ if i < n - 1 { lemma_rt_field(v, n - 1, e, st, i); } }
pub open spec fn rt_fields(v: IndexMap<String, Vec<Property>>, n: int, e: Env, st: Seq<String>) -> bool decreases v, n via dec_rt_fields
{ if 0 < n <= v@.len() { rt_fields(v, n - 1, e, st) && v@[n - 1].0@ != "None"@ && v@[n - 1].1@.len() > 0 && rt_field(v@[n - 1].1, v@[n - 1].1@.len() as int, e, st.push(v@[n - 1].0)) } else { true } }
#[via_fn] proof fn dec_rt_fields(v: IndexMap<String, Vec<Property>>, n: int, e: Env, st: Seq<String>) { broadcast use {ax_vec_dec, ax_im_dec}; }
pub proof fn lemma_rt_fields(v: IndexMap<String, Vec<Property>>, n: int, e: Env, st: Seq<String>, i: int)
    requires 0 <= i < n <= v@.len(), rt_fields(v, n, e, st)
    ensures v@[i].0@ != "None"@ && v@[i].1@.len() > 0 && rt_field(v@[i].1, v@[i].1@.len() as int, e, st.push(v@[i].0))
    decreases n
{ if i < n - 1 { lemma_rt_fields(v, n - 1, e, st, i); } }
// ------------------------------------------------------------------ written lists, element by element
pub proof fn lemma_at_props(d: Seq<u8>, p: int, v: Vec<Property>, i: int, n: int, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_props(v, n, cv)), 0 <= i < n <= v@.len(), wok_props(v, n, cv)
    ensures at(d, p + enc_props(v, i, cv).len(), enc_prop(v@[i], false, cv)), enc_props(v, i + 1, cv) == enc_props(v, i, cv) + enc_prop(v@[i], false, cv),
        enc_props(v, i + 1, cv).len() == enc_props(v, i, cv).len() + enc_prop(v@[i], false, cv).len(), wok_prop(v@[i], false, cv)
    decreases n
{
    lemma_at_cat(d, p, enc_props(v, n - 1, cv), enc_prop(v@[n - 1], false, cv));
    if i < n - 1 { lemma_at_props(d, p, v, i, n - 1, cv); }
}
pub proof fn lemma_at_svs(d: Seq<u8>, p: int, v: Vec<StructPropertyValue>, i: int, n: int, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_svs(v, n, cv)), 0 <= i < n <= v@.len(), wok_svs(v, n, cv)
    ensures at(d, p + enc_svs(v, i, cv).len(), enc_sv(v@[i], cv)), enc_svs(v, i + 1, cv) == enc_svs(v, i, cv) + enc_sv(v@[i], cv),
        enc_svs(v, i + 1, cv).len() == enc_svs(v, i, cv).len() + enc_sv(v@[i], cv).len(), wok_sv(v@[i], cv)
    decreases n
{
    lemma_at_cat(d, p, enc_svs(v, n - 1, cv), enc_sv(v@[n - 1], cv));
    if i < n - 1 { lemma_at_svs(d, p, v, i, n - 1, cv); }
}
pub proof fn lemma_at_pairs(d: Seq<u8>, p: int, v: IndexMap<Property, Property>, i: int, n: int, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_pairs(v, n, cv)), 0 <= i < n <= v@.len(), wok_pairs(v, n, cv)
    ensures at(d, p + enc_pairs(v, i, cv).len(), (enc_prop(v@[i].0, false, cv) + enc_prop(v@[i].1, false, cv))), enc_pairs(v, i + 1, cv) == enc_pairs(v, i, cv) + (enc_prop(v@[i].0, false, cv) + enc_prop(v@[i].1, false, cv)),
        enc_pairs(v, i + 1, cv).len() == enc_pairs(v, i, cv).len() + (enc_prop(v@[i].0, false, cv) + enc_prop(v@[i].1, false, cv)).len(), wok_prop(v@[i].0, false, cv), wok_prop(v@[i].1, false, cv)
    decreases n
{
    lemma_at_cat(d, p, enc_pairs(v, n - 1, cv), (enc_prop(v@[n - 1].0, false, cv) + enc_prop(v@[n - 1].1, false, cv)));
    if i < n - 1 { lemma_at_pairs(d, p, v, i, n - 1, cv); }
}
pub proof fn lemma_at_kprops(d: Seq<u8>, p: int, v: IndexMap<String, Property>, i: int, n: int, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_kprops(v, n, cv)), 0 <= i < n <= v@.len(), wok_kprops(v, n, cv)
    ensures at(d, p + enc_kprops(v, i, cv).len(), (e_string(v@[i].0@) + enc_prop(v@[i].1, false, cv))), enc_kprops(v, i + 1, cv) == enc_kprops(v, i, cv) + (e_string(v@[i].0@) + enc_prop(v@[i].1, false, cv)),
        enc_kprops(v, i + 1, cv).len() == enc_kprops(v, i, cv).len() + (e_string(v@[i].0@) + enc_prop(v@[i].1, false, cv)).len(), str_ok(v@[i].0@), wok_prop(v@[i].1, false, cv)
    decreases n
{
    lemma_at_cat(d, p, enc_kprops(v, n - 1, cv), (e_string(v@[n - 1].0@) + enc_prop(v@[n - 1].1, false, cv)));
    if i < n - 1 { lemma_at_kprops(d, p, v, i, n - 1, cv); }
}
pub proof fn lemma_at_field(d: Seq<u8>, p: int, k: Seq<char>, v: Vec<Property>, i: int, n: int, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_field(k, v, n, cv)), 0 <= i < n <= v@.len(), wok_field(k, v, n, cv)
    ensures at(d, p + enc_field(k, v, i, cv).len(), (e_string(k) + enc_prop(v@[i], true, cv))), enc_field(k, v, i + 1, cv) == enc_field(k, v, i, cv) + (e_string(k) + enc_prop(v@[i], true, cv)),
        enc_field(k, v, i + 1, cv).len() == enc_field(k, v, i, cv).len() + (e_string(k) + enc_prop(v@[i], true, cv)).len(), str_ok(k), wok_prop(v@[i], true, cv)
    decreases n
{
    lemma_at_cat(d, p, enc_field(k, v, n - 1, cv), (e_string(k) + enc_prop(v@[n - 1], true, cv)));
    if i < n - 1 { lemma_at_field(d, p, k, v, i, n - 1, cv); }
}
pub proof fn lemma_at_fields(d: Seq<u8>, p: int, v: IndexMap<String, Vec<Property>>, i: int, n: int, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_fields(v, n, cv)), 0 <= i < n <= v@.len(), wok_fields(v, n, cv)
    ensures at(d, p + enc_fields(v, i, cv).len(), enc_field(v@[i].0@, v@[i].1, v@[i].1@.len() as int, cv)), enc_fields(v, i + 1, cv) == enc_fields(v, i, cv) + enc_field(v@[i].0@, v@[i].1, v@[i].1@.len() as int, cv),
        enc_fields(v, i + 1, cv).len() == enc_fields(v, i, cv).len() + enc_field(v@[i].0@, v@[i].1, v@[i].1@.len() as int, cv).len(), wok_field(v@[i].0@, v@[i].1, v@[i].1@.len() as int, cv)
    decreases n
{
    lemma_at_cat(d, p, enc_fields(v, n - 1, cv), enc_field(v@[n - 1].0@, v@[n - 1].1, v@[n - 1].1@.len() as int, cv));
    if i < n - 1 { lemma_at_fields(d, p, v, i, n - 1, cv); }
}
pub proof fn lemma_at_each<T>(d: Seq<u8>, p: int, v: Seq<T>, i: int, n: int, f: spec_fn(T) -> Seq<u8>, g: spec_fn(T) -> bool)
    requires at(d, p, e_each(v, n, f)), 0 <= i < n <= v.len(), w_each(v, n, g)
    ensures at(d, p + e_each(v, i, f).len(), f(v[i])), e_each(v, i + 1, f).len() == e_each(v, i, f).len() + f(v[i]).len(), g(v[i])
    decreases n
{
    lemma_at_cat(d, p, e_each(v, n - 1, f), f(v[n - 1]));
    if i < n - 1 { lemma_at_each(d, p, v, i, n - 1, f, g); }
}
pub proof fn lemma_each_size<T>(v: Seq<T>, n: int, f: spec_fn(T) -> Seq<u8>)
    requires 0 <= n <= v.len(), forall|x: T| (#[trigger] f(x)).len() >= 1
    ensures e_each(v, n, f).len() >= n
    decreases n
{ if n > 0 { lemma_each_size(v, n - 1, f); } }
pub broadcast proof fn lemma_string_size(s: Seq<char>) ensures (#[trigger] e_string(s)).len() >= 4 { broadcast use ax_all; reveal(e_string); }
pub broadcast proof fn lemma_fstring_size(s: Option<Seq<char>>) ensures (#[trigger] e_fstring(s)).len() >= 4 { broadcast use {ax_all, lemma_string_size}; }
pub proof fn lemma_sv_size(x: StructPropertyValue, cv: Seq<(Guid, u32)>) ensures enc_sv(x, cv).len() >= 1 { broadcast use {ax_all, lemma_string_size}; }
pub proof fn lemma_prop_size(x: Property, ty: Seq<char>, e: Env, st: Seq<String>, sl: Option<u32>)
    requires rt_prop(x, ty, false, e, st, sl)
    ensures enc_prop(x, false, e.cv).len() >= 1
{ broadcast use {ax_all, lemma_string_size, lemma_fstring_size}; match x { Property::StructPropertyValue(v) => { lemma_sv_size(v, e.cv); }, _ => {} } }
pub proof fn lemma_props_size(v: Vec<Property>, n: int, ty: Seq<char>, e: Env, st: Seq<String>, sl: Option<u32>)
    requires 0 <= n <= v@.len(), rt_props(v, n, ty, e, st, sl)
    ensures enc_props(v, n, e.cv).len() >= n
    decreases n
{ if n > 0 { lemma_props_size(v, n - 1, ty, e, st, sl); lemma_prop_size(v@[n - 1], ty, e, st, sl); } }
pub proof fn lemma_svs_size(v: Vec<StructPropertyValue>, n: int, cv: Seq<(Guid, u32)>)
    requires 0 <= n <= v@.len()
    ensures enc_svs(v, n, cv).len() >= n
    decreases n
{ if n > 0 { lemma_svs_size(v, n - 1, cv); lemma_sv_size(v@[n - 1], cv); } }
pub proof fn lemma_pairs_size(v: IndexMap<Property, Property>, n: int, kt: Seq<char>, vt: Seq<char>, e: Env, st: Seq<String>)
    requires 0 <= n <= v@.len(), rt_pairs(v, n, kt, vt, e, st)
    ensures enc_pairs(v, n, e.cv).len() >= n
    decreases n
{ if n > 0 { lemma_pairs_size(v, n - 1, kt, vt, e, st); lemma_prop_size(v@[n - 1].0, kt, e, st.push(mkstr("Key"@)), None); } }
pub proof fn lemma_kprops_size(v: IndexMap<String, Property>, n: int, cv: Seq<(Guid, u32)>)
    requires 0 <= n <= v@.len()
    ensures enc_kprops(v, n, cv).len() >= n
    decreases n
{ broadcast use {ax_all, lemma_string_size}; if n > 0 { lemma_kprops_size(v, n - 1, cv); } }
// ------------------------------------------------------------------ reading lists, given how each element is read
pub proof fn lemma_props_read(d: Seq<u8>, e: Env, st: Seq<String>, ty: Seq<char>, sl: Option<u32>, v: Seq<Property>, pos: spec_fn(int) -> int, i: int, acc: Seq<Property>)
    requires 0 <= i <= v.len(), acc == v.subrange(0, i),
        forall|k: int| 0 <= k < v.len() ==> p_prop(d, pos(k), e, st, ty, false, sl) == Ok::<(Property, int), E>((#[trigger] v[k], pos(k + 1))) && pos(k) <= pos(k + 1) <= d.len()
    ensures p_props(d, pos(i), e, st, ty, sl, v.len() - i, acc) == Ok::<(Vec<Property>, int), E>((mkvec(v), pos(v.len() as int)))
    decreases v.len() - i
{
    if i < v.len() {
        assert(acc.push(v[i]) =~= v.subrange(0, i + 1));
        lemma_props_read(d, e, st, ty, sl, v, pos, i + 1, acc.push(v[i]));
    } else { assert(acc =~= v); }
}
pub open spec fn svp(v: Seq<StructPropertyValue>) -> Seq<Property> { Seq::new(v.len(), |i: int| Property::StructPropertyValue(v[i])) }
pub proof fn lemma_svs_read(d: Seq<u8>, e: Env, st: Seq<String>, tn: Seq<char>, v: Seq<StructPropertyValue>, pos: spec_fn(int) -> int, i: int, acc: Seq<Property>)
    requires 0 <= i <= v.len(), acc == svp(v).subrange(0, i),
        forall|k: int| 0 <= k < v.len() ==> p_sv(d, pos(k), e, st, tn) == Ok::<(StructPropertyValue, int), E>((#[trigger] v[k], pos(k + 1))) && pos(k) <= pos(k + 1) <= d.len()
    ensures p_svs(d, pos(i), e, st, tn, v.len() - i, acc) == Ok::<(Vec<Property>, int), E>((mkvec(svp(v)), pos(v.len() as int)))
    decreases v.len() - i
{
    if i < v.len() {
        assert(acc.push(Property::StructPropertyValue(v[i])) =~= svp(v).subrange(0, i + 1));
        lemma_svs_read(d, e, st, tn, v, pos, i + 1, acc.push(Property::StructPropertyValue(v[i])));
    } else { assert(acc =~= svp(v)); }
}
pub proof fn lemma_pairs_read(d: Seq<u8>, e: Env, st: Seq<String>, kt: Seq<char>, vt: Seq<char>, v: Seq<(Property, Property)>, pos: spec_fn(int) -> int, mid: spec_fn(int) -> int, i: int, acc: Seq<(Property, Property)>)
    requires 0 <= i <= v.len(), acc == v.subrange(0, i), im_nodup(v),
        forall|k: int| 0 <= k < v.len() ==> p_prop(d, pos(k), e, st.push(mkstr("Key"@)), kt, false, None) == Ok::<(Property, int), E>(((#[trigger] v[k]).0, mid(k)))
            && p_prop(d, mid(k), e, st.push(mkstr("Value"@)), vt, false, None) == Ok::<(Property, int), E>((v[k].1, pos(k + 1))) && pos(k) <= mid(k) <= pos(k + 1) <= d.len()
    ensures p_pairs(d, pos(i), e, st, kt, vt, v.len() - i, acc) == Ok::<(IndexMap<Property, Property>, int), E>((mkim(v), pos(v.len() as int)))
    decreases v.len() - i
{
    if i < v.len() {
        lemma_im_next(v, i);
        lemma_pairs_read(d, e, st, kt, vt, v, pos, mid, i + 1, v.subrange(0, i + 1));
    } else { assert(acc =~= v); }
}
pub open spec fn fld_pos(p: int, m: IndexMap<String, Vec<Property>>, i: int, j: int, cv: Seq<(Guid, u32)>) -> int {
    p + enc_fields(m, i, cv).len() + enc_field(m@[i].0@, m@[i].1, j, cv).len()
}
pub open spec fn fld_ok(d: Seq<u8>, p: int, m: IndexMap<String, Vec<Property>>, e: Env, st: Seq<String>, i: int, j: int) -> bool {
    let k = m@[i].0; let x = m@[i].1@[j];
    let a = fld_pos(p, m, i, j, e.cv); let b = a + e_string(k@).len(); let c = b + e_string(kind_of(x)).len(); let z = fld_pos(p, m, i, j + 1, e.cv);
    &&& p_string(d, a) == Ok::<(String, int), E>((k, b))
    &&& p_string(d, b) == Ok::<(String, int), E>((mkstr(kind_of(x)), c))
    &&& p_prop(d, c, e, st.push(k), kind_of(x), true, None) == Ok::<(Property, int), E>((x, z))
    &&& a < c <= z <= d.len()
}
pub open spec fn fld_acc(m: Seq<(String, Vec<Property>)>, i: int, j: int) -> Seq<(String, Vec<Property>)> {
    if j == 0 { m.subrange(0, i) } else { m.subrange(0, i).push((m[i].0, mkvec(m[i].1@.subrange(0, j)))) }
}
pub proof fn lemma_fields_read(d: Seq<u8>, p: int, m: IndexMap<String, Vec<Property>>, e: Env, st: Seq<String>, i: int, j: int)
    requires 0 <= i < m@.len() ==> 0 <= j <= m@[i].1@.len(), 0 <= i <= m@.len(), i == m@.len() ==> j == 0,
        forall|a: int, b: int| 0 <= a < m@.len() && 0 <= b < m@[a].1@.len() ==> #[trigger] fld_ok(d, p, m, e, st, a, b),
        forall|a: int| 0 <= a < m@.len() ==> (#[trigger] m@[a]).0@ != "None"@ && m@[a].1@.len() > 0,
        p_string(d, p + enc_fields(m, m@.len() as int, e.cv).len()) == Ok::<(String, int), E>((mkstr("None"@), p + enc_fields(m, m@.len() as int, e.cv).len() + e_string("None"@).len())),
    ensures p_fields(d, if i < m@.len() { fld_pos(p, m, i, j, e.cv) } else { p + enc_fields(m, i, e.cv).len() }, e, st, fld_acc(m@, i, j))
        == Ok::<(IndexMap<String, Vec<Property>>, int), E>((m, p + enc_fields(m, m@.len() as int, e.cv).len() + e_string("None"@).len()))
    decreases m@.len() - i, (if i < m@.len() { m@[i].1@.len() - j } else { 0 })
{
    broadcast use {ax_mkstr, ax_mkvec, ax_vec_ext, ax_str_ext, ax_mkim, ax_im_ext, ax_keq_refl, ax_keq_str, ax_vec_len};
    if i < m@.len() {
        let k = m@[i].0; let v = m@[i].1@;
        if j < v.len() {
            assert(fld_ok(d, p, m, e, st, i, j));
            let acc = fld_acc(m@, i, j);
            lemma_im_fresh(m@, i, i);
            if j == 0 { assert(v.subrange(0, 1) =~= seq![v[0]]); }
            else {
                assert(acc.last().0 == k);
                assert(v.subrange(0, j).push(v[j]) =~= v.subrange(0, j + 1));
                assert(acc.update(i, (k, mkvec(v.subrange(0, j + 1)))) =~= fld_acc(m@, i, j + 1));
            }
            assert(im_push(acc, k, v[j]) == fld_acc(m@, i, j + 1));
            lemma_fields_read(d, p, m, e, st, i, j + 1);
        } else {
            assert(v.subrange(0, j) =~= v);
            assert(fld_acc(m@, i, j) =~= fld_acc(m@, i + 1, 0));
            lemma_fields_read(d, p, m, e, st, i + 1, 0);
        }
    } else { assert(m@.subrange(0, i) =~= m@); }
}
