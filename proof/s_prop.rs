// ------------------------------------------------------------------ lists
pub open spec fn e_each<T>(v: Seq<T>, n: int, f: spec_fn(T) -> Seq<u8>) -> Seq<u8> decreases n
{ if n <= 0 { Seq::empty() } else { e_each(v, n - 1, f) + f(v[n - 1]) } }
pub open spec fn w_each<T>(v: Seq<T>, n: int, f: spec_fn(T) -> bool) -> bool decreases n
{ if n <= 0 { true } else { w_each(v, n - 1, f) && f(v[n - 1]) } }
pub proof fn lemma_each_step<T>(x: Seq<u8>, v: Seq<T>, i: int, n: int, f: spec_fn(T) -> Seq<u8>, g: spec_fn(T) -> bool)
    requires 0 <= i < n
    ensures x + e_each(v, i + 1, f) == (x + e_each(v, i, f)) + f(v[i]),
        e_each(v, i + 1, f).len() <= e_each(v, n, f).len(), w_each(v, n, g) ==> w_each(v, i + 1, g), w_each(v, i + 1, g) == (w_each(v, i, g) && g(v[i]))
    decreases n
{
    assert(x + e_each(v, i + 1, f) =~= (x + e_each(v, i, f)) + f(v[i]));
    if i + 1 < n { lemma_each_step(x, v, i, n - 1, f, g); }
}
/// as above, for elements written in two parts
pub proof fn lemma_each_step2<T>(x: Seq<u8>, v: Seq<T>, i: int, n: int, f: spec_fn(T) -> Seq<u8>, g: spec_fn(T) -> bool, a: Seq<u8>, b: Seq<u8>)
    requires 0 <= i < n, f(v[i]) == a + b
    ensures x + e_each(v, i + 1, f) == (x + e_each(v, i, f)) + a + b,
        e_each(v, i + 1, f).len() <= e_each(v, n, f).len(), w_each(v, n, g) ==> w_each(v, i + 1, g), w_each(v, i + 1, g) == (w_each(v, i, g) && g(v[i]))
{
    lemma_each_step(x, v, i, n, f, g);
    assert((x + e_each(v, i, f)) + (a + b) =~= (x + e_each(v, i, f)) + a + b);
}
/// collecting what `f` accepts; None as soon as it rejects one
pub open spec fn coll<A, B>(s: Seq<A>, n: int, f: spec_fn(A) -> Option<B>) -> Option<Seq<B>> decreases n
{
    if n <= 0 { Some(Seq::empty()) } else {
        match coll(s, n - 1, f) { None => None, Some(acc) => match f(s[n - 1]) { None => None, Some(b) => Some(acc.push(b)) } }
    }
}
pub open spec fn collm<A, K, V>(s: Seq<A>, n: int, f: spec_fn(A) -> Option<(K, V)>) -> Option<Seq<(K, V)>> decreases n
{
    if n <= 0 { Some(Seq::empty()) } else {
        match collm(s, n - 1, f) { None => None, Some(acc) => match f(s[n - 1]) { None => None, Some(b) => Some(im_insert(acc, b.0, b.1)) } }
    }
}
pub open spec fn coll_inv<A, B, X>(s: Seq<A>, i: int, f: spec_fn(A) -> Option<B>, acc: Vec<B>, err: Option<X>) -> bool {
    0 <= i <= s.len() && match err { None => coll(s, i, f) == Some(acc@), Some(_) => coll(s, i, f) is None }
}
pub open spec fn collm_inv<A, K, V, X>(s: Seq<A>, i: int, f: spec_fn(A) -> Option<(K, V)>, acc: IndexMap<K, V>, err: Option<X>) -> bool {
    0 <= i <= s.len() && match err { None => collm(s, i, f) == Some(acc@), Some(_) => collm(s, i, f) is None }
}
pub proof fn lemma_coll_done<A, B, X>(s: Seq<A>, i: int, n: int, f: spec_fn(A) -> Option<B>, acc: Vec<B>, err: Option<X>)
    requires coll_inv(s, i, f, acc, err), err is None ==> i == n, i <= n <= s.len()
    ensures coll_inv(s, n, f, acc, err)
    decreases n
{ if i < n { lemma_coll_done(s, i, n - 1, f, acc, err); } }
pub proof fn lemma_collm_done<A, K, V, X>(s: Seq<A>, i: int, n: int, f: spec_fn(A) -> Option<(K, V)>, acc: IndexMap<K, V>, err: Option<X>)
    requires collm_inv(s, i, f, acc, err), err is None ==> i == n, i <= n <= s.len()
    ensures collm_inv(s, n, f, acc, err)
    decreases n
{ if i < n { lemma_collm_done(s, i, n - 1, f, acc, err); } }

// ------------------------------------------------------------------ elements of arrays of one kind
pub open spec fn fa_bools() -> spec_fn(Property) -> Option<bool> { |p: Property| match p { Property::BoolProperty(x) => Some(x.value), _ => None } }
pub open spec fn fe_bools() -> spec_fn(bool) -> Seq<u8> { |b: bool| e_bool(b) }
pub open spec fn fw_bools() -> spec_fn(bool) -> bool { |b: bool| true }
pub open spec fn fa_bytes() -> spec_fn(Property) -> Option<u8> { |p: Property| match p { Property::ByteProperty(x) => if x.name is None && x.value is Byte { Some(x.value->Byte_0) } else { None }, _ => None } }
pub open spec fn fe_bytes() -> spec_fn(u8) -> Seq<u8> { |b: u8| seq![b] }
pub open spec fn fw_bytes() -> spec_fn(u8) -> bool { |b: u8| true }
pub open spec fn fa_enums() -> spec_fn(Property) -> Option<String> { |p: Property| match p { Property::EnumProperty(x) => if x.enum_type is None { Some(x.value) } else { None }, _ => None } }
pub open spec fn fe_enums() -> spec_fn(String) -> Seq<u8> { |b: String| e_string(b@) }
pub open spec fn fw_enums() -> spec_fn(String) -> bool { |b: String| str_ok(b@) }
pub open spec fn fa_ints() -> spec_fn(Property) -> Option<i32> { |p: Property| match p { Property::IntProperty(x) => Some(x.value), _ => None } }
pub open spec fn fe_ints() -> spec_fn(i32) -> Seq<u8> { |b: i32| e32(b as u32) }
pub open spec fn fw_ints() -> spec_fn(i32) -> bool { |b: i32| true }
pub open spec fn fa_floats() -> spec_fn(Property) -> Option<OrderedFloat<f32>> { |p: Property| match p { Property::FloatProperty(x) => Some(x.value), _ => None } }
pub open spec fn fe_floats() -> spec_fn(OrderedFloat<f32>) -> Seq<u8> { |b: OrderedFloat<f32>| e32(f32_bits(b.0)) }
pub open spec fn fw_floats() -> spec_fn(OrderedFloat<f32>) -> bool { |b: OrderedFloat<f32>| true }
pub open spec fn fa_names() -> spec_fn(Property) -> Option<Option<String>> { |p: Property| match p { Property::NameProperty(x) => if x.array_index == 0 { Some(x.value) } else { None }, _ => None } }
pub open spec fn fe_names() -> spec_fn(Option<String>) -> Seq<u8> { |b: Option<String>| e_fstring(osv(b)) }
pub open spec fn fw_names() -> spec_fn(Option<String>) -> bool { |b: Option<String>| fstr_ok(osv(b)) }
pub open spec fn fa_strings() -> spec_fn(Property) -> Option<Option<String>> { |p: Property| match p { Property::StrProperty(x) => Some(x.value), _ => None } }
pub open spec fn fe_strings() -> spec_fn(Option<String>) -> Seq<u8> { |b: Option<String>| e_fstring(osv(b)) }
pub open spec fn fw_strings() -> spec_fn(Option<String>) -> bool { |b: Option<String>| fstr_ok(osv(b)) }
pub open spec fn fa_structs() -> spec_fn(Property) -> Option<StructPropertyValue> { |p: Property| match p { Property::StructPropertyValue(x) => Some(x), _ => None } }
pub open spec fn fm_enum_bools() -> spec_fn((Property, Property)) -> Option<(String, bool)> { |p: (Property, Property)| match p { (Property::EnumProperty(x), Property::BoolProperty(y)) => if x.enum_type is None { Some((x.value, y.value)) } else { None }, _ => None } }
pub open spec fn fm_enum_ints() -> spec_fn((Property, Property)) -> Option<(String, i32)> { |p: (Property, Property)| match p { (Property::EnumProperty(x), Property::IntProperty(y)) => if x.enum_type is None { Some((x.value, y.value)) } else { None }, _ => None } }
pub open spec fn fm_enum_props() -> spec_fn((Property, Property)) -> Option<(String, Property)> { |p: (Property, Property)| match p { (Property::EnumProperty(x), y) => if x.enum_type is None { Some((x.value, y)) } else { None }, _ => None } }
pub open spec fn fm_name_bools() -> spec_fn((Property, Property)) -> Option<(String, bool)> { |p: (Property, Property)| match p { (Property::NameProperty(x), Property::BoolProperty(y)) => if x.array_index == 0 && x.value is Some { Some((x.value->Some_0, y.value)) } else { None }, _ => None } }
pub open spec fn fm_name_ints() -> spec_fn((Property, Property)) -> Option<(String, i32)> { |p: (Property, Property)| match p { (Property::NameProperty(x), Property::IntProperty(y)) => if x.array_index == 0 && x.value is Some { Some((x.value->Some_0, y.value)) } else { None }, _ => None } }
pub open spec fn fm_name_props() -> spec_fn((Property, Property)) -> Option<(String, Property)> { |p: (Property, Property)| match p { (Property::NameProperty(x), y) => if x.array_index == 0 && x.value is Some { Some((x.value->Some_0, y)) } else { None }, _ => None } }
pub open spec fn fm_str_bools() -> spec_fn((Property, Property)) -> Option<(String, bool)> { |p: (Property, Property)| match p { (Property::StrProperty(x), Property::BoolProperty(y)) => if x.value is Some { Some((x.value->Some_0, y.value)) } else { None }, _ => None } }
pub open spec fn fm_str_ints() -> spec_fn((Property, Property)) -> Option<(String, i32)> { |p: (Property, Property)| match p { (Property::StrProperty(x), Property::IntProperty(y)) => if x.value is Some { Some((x.value->Some_0, y.value)) } else { None }, _ => None } }
pub open spec fn fm_str_strs() -> spec_fn((Property, Property)) -> Option<(String, Option<String>)> { |p: (Property, Property)| match p { (Property::StrProperty(x), Property::StrProperty(y)) => if x.value is Some { Some((x.value->Some_0, y.value)) } else { None }, _ => None } }
pub open spec fn fm_str_props() -> spec_fn((Property, Property)) -> Option<(String, Property)> { |p: (Property, Property)| match p { (Property::StrProperty(x), y) => if x.value is Some { Some((x.value->Some_0, y)) } else { None }, _ => None } }
pub open spec fn fe_sbool() -> spec_fn((String, bool)) -> Seq<u8> { |b: (String, bool)| e_string(b.0@) + e_bool(b.1) }
pub open spec fn fw_sbool() -> spec_fn((String, bool)) -> bool { |b: (String, bool)| str_ok(b.0@) && true }
pub open spec fn fe_sint() -> spec_fn((String, i32)) -> Seq<u8> { |b: (String, i32)| e_string(b.0@) + e32(b.1 as u32) }
pub open spec fn fw_sint() -> spec_fn((String, i32)) -> bool { |b: (String, i32)| str_ok(b.0@) && true }
pub open spec fn fe_sstr() -> spec_fn((String, Option<String>)) -> Seq<u8> { |b: (String, Option<String>)| e_string(b.0@) + e_fstring(osv(b.1)) }
pub open spec fn fw_sstr() -> spec_fn((String, Option<String>)) -> bool { |b: (String, Option<String>)| str_ok(b.0@) && fstr_ok(osv(b.1)) }
// ------------------------------------------------------------------ choosing the representation
pub open spec fn arr_new(t: String, si: Option<(String, String, Guid)>, v: Vec<Property>) -> Option<ArrayProperty> {
    let n = v@.len() as int;
    let other = Some(ArrayProperty::Properties { property_type: t, properties: v });
    match si {
        None => 
            if t@ == "BoolProperty"@ { match coll(v@, n, fa_bools()) { Some(s) => Some(ArrayProperty::Bools { bools: mkvec(s) }), None => other } } else
            if t@ == "ByteProperty"@ { match coll(v@, n, fa_bytes()) { Some(s) => Some(ArrayProperty::Bytes { bytes: mkvec(s) }), None => other } } else
            if t@ == "EnumProperty"@ { match coll(v@, n, fa_enums()) { Some(s) => Some(ArrayProperty::Enums { enums: mkvec(s) }), None => other } } else
            if t@ == "IntProperty"@ { match coll(v@, n, fa_ints()) { Some(s) => Some(ArrayProperty::Ints { ints: mkvec(s) }), None => other } } else
            if t@ == "FloatProperty"@ { match coll(v@, n, fa_floats()) { Some(s) => Some(ArrayProperty::Floats { floats: mkvec(s) }), None => other } } else
            if t@ == "NameProperty"@ { match coll(v@, n, fa_names()) { Some(s) => Some(ArrayProperty::Names { names: mkvec(s) }), None => other } } else
            if t@ == "StrProperty"@ { match coll(v@, n, fa_strings()) { Some(s) => Some(ArrayProperty::Strings { strings: mkvec(s) }), None => other } } else
            { other },
        Some((f, tn, g)) => if t@ == "StructProperty"@ {
            match coll(v@, n, fa_structs()) { Some(s) => Some(ArrayProperty::Structs { field_name: f, type_name: tn, guid: g, structs: mkvec(s) }), None => None }
        } else { None },
    }
}
pub open spec fn arr_type(x: ArrayProperty) -> Seq<char> {
    match x {
        ArrayProperty::Bools { bools } => "BoolProperty"@,
        ArrayProperty::Bytes { bytes } => "ByteProperty"@,
        ArrayProperty::Enums { enums } => "EnumProperty"@,
        ArrayProperty::Ints { ints } => "IntProperty"@,
        ArrayProperty::Floats { floats } => "FloatProperty"@,
        ArrayProperty::Names { names } => "NameProperty"@,
        ArrayProperty::Strings { strings } => "StrProperty"@,
        ArrayProperty::Structs { field_name, type_name, guid, structs } => "StructProperty"@,
        ArrayProperty::Properties { property_type, properties } => property_type@,
    }
}
pub open spec fn map_new(kt: String, vt: String, fl: u32, m: HashableIndexMap<Property, Property>) -> MapProperty {
    let n = m.0@.len() as int;
    let other = MapProperty::Properties { key_type: kt, value_type: vt, allocation_flags: fl, value: m };
    if fl != 0 { other } else
    if kt@ == "EnumProperty"@ && vt@ == "BoolProperty"@ { match collm(m.0@, n, fm_enum_bools()) { Some(s) => MapProperty::EnumBool { enum_bools: HashableIndexMap(mkim(s)) }, None => other } } else
    if kt@ == "EnumProperty"@ && vt@ == "IntProperty"@ { match collm(m.0@, n, fm_enum_ints()) { Some(s) => MapProperty::EnumInt { enum_ints: HashableIndexMap(mkim(s)) }, None => other } } else
    if kt@ == "EnumProperty"@ { match collm(m.0@, n, fm_enum_props()) { Some(s) => MapProperty::EnumProperty { value_type: vt, enum_props: HashableIndexMap(mkim(s)) }, None => other } } else
    if kt@ == "NameProperty"@ && vt@ == "BoolProperty"@ { match collm(m.0@, n, fm_name_bools()) { Some(s) => MapProperty::NameBool { name_bools: HashableIndexMap(mkim(s)) }, None => other } } else
    if kt@ == "NameProperty"@ && vt@ == "IntProperty"@ { match collm(m.0@, n, fm_name_ints()) { Some(s) => MapProperty::NameInt { name_ints: HashableIndexMap(mkim(s)) }, None => other } } else
    if kt@ == "NameProperty"@ { match collm(m.0@, n, fm_name_props()) { Some(s) => MapProperty::NameProperty { value_type: vt, name_props: HashableIndexMap(mkim(s)) }, None => other } } else
    if kt@ == "StrProperty"@ && vt@ == "BoolProperty"@ { match collm(m.0@, n, fm_str_bools()) { Some(s) => MapProperty::StrBool { str_bools: HashableIndexMap(mkim(s)) }, None => other } } else
    if kt@ == "StrProperty"@ && vt@ == "IntProperty"@ { match collm(m.0@, n, fm_str_ints()) { Some(s) => MapProperty::StrInt { str_ints: HashableIndexMap(mkim(s)) }, None => other } } else
    if kt@ == "StrProperty"@ && vt@ == "StrProperty"@ { match collm(m.0@, n, fm_str_strs()) { Some(s) => MapProperty::StrStr { str_strs: HashableIndexMap(mkim(s)) }, None => other } } else
    if kt@ == "StrProperty"@ { match collm(m.0@, n, fm_str_props()) { Some(s) => MapProperty::StrProperty { value_type: vt, str_props: HashableIndexMap(mkim(s)) }, None => other } } else
    { other }
}
pub open spec fn map_kt(x: MapProperty) -> Seq<char> {
    match x {
        MapProperty::EnumBool { .. } => "EnumProperty"@,
        MapProperty::EnumInt { .. } => "EnumProperty"@,
        MapProperty::EnumProperty { .. } => "EnumProperty"@,
        MapProperty::NameBool { .. } => "NameProperty"@,
        MapProperty::NameInt { .. } => "NameProperty"@,
        MapProperty::NameProperty { .. } => "NameProperty"@,
        MapProperty::StrBool { .. } => "StrProperty"@,
        MapProperty::StrInt { .. } => "StrProperty"@,
        MapProperty::StrStr { .. } => "StrProperty"@,
        MapProperty::StrProperty { .. } => "StrProperty"@,
        MapProperty::Properties { key_type, .. } => key_type@,
    }
}
pub open spec fn map_vt(x: MapProperty) -> Seq<char> {
    match x {
        MapProperty::EnumBool { .. } => "BoolProperty"@,
        MapProperty::EnumInt { .. } => "IntProperty"@,
        MapProperty::EnumProperty { value_type, .. } => value_type@,
        MapProperty::NameBool { .. } => "BoolProperty"@,
        MapProperty::NameInt { .. } => "IntProperty"@,
        MapProperty::NameProperty { value_type, .. } => value_type@,
        MapProperty::StrBool { .. } => "BoolProperty"@,
        MapProperty::StrInt { .. } => "IntProperty"@,
        MapProperty::StrStr { .. } => "StrProperty"@,
        MapProperty::StrProperty { value_type, .. } => value_type@,
        MapProperty::Properties { value_type, .. } => value_type@,
    }
}

// ------------------------------------------------------------------ writing
pub open spec fn enc_prop(x: Property, hdr: bool, cv: Seq<(Guid, u32)>) -> Seq<u8> decreases x
{
    match x {
        Property::ArrayProperty(v) => enc_array(v, hdr, cv),
        Property::BoolProperty(v) => enc_bool(v, hdr),
        Property::ByteProperty(v) => enc_byte(v, hdr),
        Property::DoubleProperty(v) => enc_f64(v, hdr),
        Property::EnumProperty(v) => enc_enum(v, hdr),
        Property::FloatProperty(v) => enc_f32(v, hdr),
        Property::Int16Property(v) => enc_i16(v, hdr),
        Property::Int64Property(v) => enc_i64(v, hdr),
        Property::Int8Property(v) => enc_i8(v, hdr),
        Property::IntProperty(v) => enc_i32(v, hdr),
        Property::MapProperty(v) => enc_map(v, hdr, cv),
        Property::NameProperty(v) => enc_name(v, hdr),
        Property::ObjectProperty(v) => enc_object(v, hdr),
        Property::DelegateProperty(v) => enc_delegate(v, hdr),
        Property::MulticastInlineDelegateProperty(v) => enc_inline(v, hdr),
        Property::MulticastSparseDelegateProperty(v) => enc_sparse(v, hdr),
        Property::FieldPathProperty(v) => enc_fpath(v, hdr),
        Property::SetProperty(v) => enc_set(v, hdr, cv),
        Property::StrProperty(v) => enc_str(v, hdr),
        Property::StructProperty(v) => enc_struct(v, hdr, cv),
        Property::TextProperty(v) => enc_textp(v, hdr, cv),
        Property::UInt16Property(v) => enc_u16(v, hdr),
        Property::UInt32Property(v) => enc_u32(v, hdr),
        Property::UInt64Property(v) => enc_u64(v, hdr),
        Property::UnknownProperty(v) => enc_unknown(v, hdr),
        Property::StructPropertyValue(v) => enc_sv(v, cv),
    }
}
pub open spec fn wok_prop(x: Property, hdr: bool, cv: Seq<(Guid, u32)>) -> bool decreases x
{
    match x {
        Property::ArrayProperty(v) => wok_array(v, hdr, cv),
        Property::BoolProperty(v) => true,
        Property::ByteProperty(v) => wok_byte(v, hdr),
        Property::DoubleProperty(v) => true,
        Property::EnumProperty(v) => wok_enum(v, hdr),
        Property::FloatProperty(v) => true,
        Property::Int16Property(v) => true,
        Property::Int64Property(v) => true,
        Property::Int8Property(v) => true,
        Property::IntProperty(v) => true,
        Property::MapProperty(v) => wok_map(v, hdr, cv),
        Property::NameProperty(v) => fstr_ok(osv(v.value)),
        Property::ObjectProperty(v) => str_ok(v.value@),
        Property::DelegateProperty(v) => w_delegate(v.value),
        Property::MulticastInlineDelegateProperty(v) => w_multi(v.value),
        Property::MulticastSparseDelegateProperty(v) => w_multi(v.value),
        Property::FieldPathProperty(v) => w_fpath(v.value),
        Property::SetProperty(v) => wok_set(v, hdr, cv),
        Property::StrProperty(v) => fstr_ok(osv(v.value)),
        Property::StructProperty(v) => wok_struct(v, hdr, cv),
        Property::TextProperty(v) => wok_text(v.value, cv),
        Property::UInt16Property(v) => true,
        Property::UInt32Property(v) => true,
        Property::UInt64Property(v) => true,
        Property::UnknownProperty(v) => wok_unknown(v, hdr),
        Property::StructPropertyValue(v) => !hdr && wok_sv(v, cv),
    }
}
pub open spec fn enc_array(x: ArrayProperty, hdr: bool, cv: Seq<(Guid, u32)>) -> Seq<u8> decreases x
{
    let b = match x {
        ArrayProperty::Bools { bools } => e32(bools@.len() as u32) + e_each(bools@, bools@.len() as int, fe_bools()),
        ArrayProperty::Bytes { bytes } => e32(bytes@.len() as u32) + e_each(bytes@, bytes@.len() as int, fe_bytes()),
        ArrayProperty::Enums { enums } => e32(enums@.len() as u32) + e_each(enums@, enums@.len() as int, fe_enums()),
        ArrayProperty::Ints { ints } => e32(ints@.len() as u32) + e_each(ints@, ints@.len() as int, fe_ints()),
        ArrayProperty::Floats { floats } => e32(floats@.len() as u32) + e_each(floats@, floats@.len() as int, fe_floats()),
        ArrayProperty::Names { names } => e32(names@.len() as u32) + e_each(names@, names@.len() as int, fe_names()),
        ArrayProperty::Strings { strings } => e32(strings@.len() as u32) + e_each(strings@, strings@.len() as int, fe_strings()),
        ArrayProperty::Structs { field_name, type_name, guid, structs } => {
            let s = enc_svs(structs, structs@.len() as int, cv);
            e32(structs@.len() as u32) + e_string(field_name@) + e_string("StructProperty"@) + e64(s.len() as u64) + e_string(type_name@) + guid.0@ + seq![0u8] + s
        },
        ArrayProperty::Properties { property_type, properties } => e32(properties@.len() as u32) + enc_props(properties, properties@.len() as int, cv),
    };
    if hdr { e_hdr1("ArrayProperty"@, b, e_string(arr_type(x))) } else { b }
}
pub open spec fn wok_array(x: ArrayProperty, hdr: bool, cv: Seq<(Guid, u32)>) -> bool decreases x
{
    &&& hdr ==> str_ok(arr_type(x))
    &&& match x {
        ArrayProperty::Bools { bools } => w_each(bools@, bools@.len() as int, fw_bools()),
        ArrayProperty::Bytes { bytes } => w_each(bytes@, bytes@.len() as int, fw_bytes()),
        ArrayProperty::Enums { enums } => w_each(enums@, enums@.len() as int, fw_enums()),
        ArrayProperty::Ints { ints } => w_each(ints@, ints@.len() as int, fw_ints()),
        ArrayProperty::Floats { floats } => w_each(floats@, floats@.len() as int, fw_floats()),
        ArrayProperty::Names { names } => w_each(names@, names@.len() as int, fw_names()),
        ArrayProperty::Strings { strings } => w_each(strings@, strings@.len() as int, fw_strings()),
        ArrayProperty::Structs { field_name, type_name, guid, structs } => str_ok(field_name@) && str_ok(type_name@) && wok_svs(structs, structs@.len() as int, cv),
        ArrayProperty::Properties { property_type, properties } => wok_props(properties, properties@.len() as int, cv),
    }
}
pub open spec fn enc_set(x: SetProperty, hdr: bool, cv: Seq<(Guid, u32)>) -> Seq<u8> decreases x
{
    let b = e32(x.allocation_flags) + e32(x.properties@.len() as u32) + enc_props(x.properties, x.properties@.len() as int, cv);
    if hdr { e_hdr1("SetProperty"@, b, e_string(x.property_type@)) } else { b }
}
pub open spec fn wok_set(x: SetProperty, hdr: bool, cv: Seq<(Guid, u32)>) -> bool decreases x
{ (hdr ==> str_ok(x.property_type@)) && wok_props(x.properties, x.properties@.len() as int, cv) }
pub open spec fn enc_map(x: MapProperty, hdr: bool, cv: Seq<(Guid, u32)>) -> Seq<u8> decreases x
{
    let b = match x {
        MapProperty::EnumBool { enum_bools } => e32(0) + e32(enum_bools.0@.len() as u32) + e_each(enum_bools.0@, enum_bools.0@.len() as int, fe_sbool()),
        MapProperty::EnumInt { enum_ints } => e32(0) + e32(enum_ints.0@.len() as u32) + e_each(enum_ints.0@, enum_ints.0@.len() as int, fe_sint()),
        MapProperty::EnumProperty { value_type, enum_props } => e32(0) + e32(enum_props.0@.len() as u32) + enc_kprops(enum_props.0, enum_props.0@.len() as int, cv),
        MapProperty::NameBool { name_bools } => e32(0) + e32(name_bools.0@.len() as u32) + e_each(name_bools.0@, name_bools.0@.len() as int, fe_sbool()),
        MapProperty::NameInt { name_ints } => e32(0) + e32(name_ints.0@.len() as u32) + e_each(name_ints.0@, name_ints.0@.len() as int, fe_sint()),
        MapProperty::NameProperty { value_type, name_props } => e32(0) + e32(name_props.0@.len() as u32) + enc_kprops(name_props.0, name_props.0@.len() as int, cv),
        MapProperty::StrBool { str_bools } => e32(0) + e32(str_bools.0@.len() as u32) + e_each(str_bools.0@, str_bools.0@.len() as int, fe_sbool()),
        MapProperty::StrInt { str_ints } => e32(0) + e32(str_ints.0@.len() as u32) + e_each(str_ints.0@, str_ints.0@.len() as int, fe_sint()),
        MapProperty::StrStr { str_strs } => e32(0) + e32(str_strs.0@.len() as u32) + e_each(str_strs.0@, str_strs.0@.len() as int, fe_sstr()),
        MapProperty::StrProperty { value_type, str_props } => e32(0) + e32(str_props.0@.len() as u32) + enc_kprops(str_props.0, str_props.0@.len() as int, cv),
        MapProperty::Properties { key_type, value_type, allocation_flags, value } =>
            e32(allocation_flags) + e32(value.0@.len() as u32) + enc_pairs(value.0, value.0@.len() as int, cv),
    };
    if hdr { e_hdr2("MapProperty"@, b, e_string(map_kt(x)), e_string(map_vt(x))) } else { b }
}
pub open spec fn wok_map(x: MapProperty, hdr: bool, cv: Seq<(Guid, u32)>) -> bool decreases x
{
    &&& hdr ==> str_ok(map_kt(x)) && str_ok(map_vt(x))
    &&& match x {
        MapProperty::EnumBool { enum_bools } => w_each(enum_bools.0@, enum_bools.0@.len() as int, fw_sbool()),
        MapProperty::EnumInt { enum_ints } => w_each(enum_ints.0@, enum_ints.0@.len() as int, fw_sint()),
        MapProperty::EnumProperty { value_type, enum_props } => wok_kprops(enum_props.0, enum_props.0@.len() as int, cv),
        MapProperty::NameBool { name_bools } => w_each(name_bools.0@, name_bools.0@.len() as int, fw_sbool()),
        MapProperty::NameInt { name_ints } => w_each(name_ints.0@, name_ints.0@.len() as int, fw_sint()),
        MapProperty::NameProperty { value_type, name_props } => wok_kprops(name_props.0, name_props.0@.len() as int, cv),
        MapProperty::StrBool { str_bools } => w_each(str_bools.0@, str_bools.0@.len() as int, fw_sbool()),
        MapProperty::StrInt { str_ints } => w_each(str_ints.0@, str_ints.0@.len() as int, fw_sint()),
        MapProperty::StrStr { str_strs } => w_each(str_strs.0@, str_strs.0@.len() as int, fw_sstr()),
        MapProperty::StrProperty { value_type, str_props } => wok_kprops(str_props.0, str_props.0@.len() as int, cv),
        MapProperty::Properties { key_type, value_type, allocation_flags, value } => wok_pairs(value.0, value.0@.len() as int, cv),
    }
}
pub open spec fn enc_struct(x: StructProperty, hdr: bool, cv: Seq<(Guid, u32)>) -> Seq<u8> decreases x
{
    let b = enc_sv(x.value, cv);
    if hdr { e_hdr2("StructProperty"@, b, e_string(x.type_name@), x.guid.0@) } else { b }
}
pub open spec fn wok_struct(x: StructProperty, hdr: bool, cv: Seq<(Guid, u32)>) -> bool decreases x
{ (hdr ==> str_ok(x.type_name@)) && wok_sv(x.value, cv) }
pub open spec fn enc_sv(x: StructPropertyValue, cv: Seq<(Guid, u32)>) -> Seq<u8> decreases x
{
    match x {
        StructPropertyValue::Vector2F(v) => e32(f32_bits(v.x.0)) + e32(f32_bits(v.y.0)),
        StructPropertyValue::Vector2D(v) => e64(f64_bits(v.x.0)) + e64(f64_bits(v.y.0)),
        StructPropertyValue::VectorF(v) => e32(f32_bits(v.x.0)) + e32(f32_bits(v.y.0)) + e32(f32_bits(v.z.0)),
        StructPropertyValue::VectorD(v) => e64(f64_bits(v.x.0)) + e64(f64_bits(v.y.0)) + e64(f64_bits(v.z.0)),
        StructPropertyValue::RotatorF(v) => e32(f32_bits(v.pitch.0)) + e32(f32_bits(v.yaw.0)) + e32(f32_bits(v.roll.0)),
        StructPropertyValue::RotatorD(v) => e64(f64_bits(v.pitch.0)) + e64(f64_bits(v.yaw.0)) + e64(f64_bits(v.roll.0)),
        StructPropertyValue::QuatF(v) => e32(f32_bits(v.x.0)) + e32(f32_bits(v.y.0)) + e32(f32_bits(v.z.0)) + e32(f32_bits(v.w.0)),
        StructPropertyValue::QuatD(v) => e64(f64_bits(v.x.0)) + e64(f64_bits(v.y.0)) + e64(f64_bits(v.z.0)) + e64(f64_bits(v.w.0)),
        StructPropertyValue::LinearColor(v) => e32(f32_bits(v.r.0)) + e32(f32_bits(v.g.0)) + e32(f32_bits(v.b.0)) + e32(f32_bits(v.a.0)),
        StructPropertyValue::DateTime(v) => e64(v.ticks),
        StructPropertyValue::Timespan(v) => e64(v.ticks),
        StructPropertyValue::IntPoint(v) => e32(v.x as u32) + e32(v.y as u32),
        StructPropertyValue::Guid(v) => v.0@,
        StructPropertyValue::GameplayTagContainer(v) => e32(v@.len() as i32 as u32) + e_strings(v@, v@.len() as int),
        StructPropertyValue::CustomStruct(m) => enc_fields(m.0, m.0@.len() as int, cv) + e_string("None"@),
    }
}
pub open spec fn wok_sv(x: StructPropertyValue, cv: Seq<(Guid, u32)>) -> bool decreases x
{
    match x {
        StructPropertyValue::Vector2F(v) => !lwc(cv),
        StructPropertyValue::Vector2D(v) => lwc(cv),
        StructPropertyValue::VectorF(v) => !lwc(cv),
        StructPropertyValue::VectorD(v) => lwc(cv),
        StructPropertyValue::RotatorF(v) => !lwc(cv),
        StructPropertyValue::RotatorD(v) => lwc(cv),
        StructPropertyValue::QuatF(v) => !lwc(cv),
        StructPropertyValue::QuatD(v) => lwc(cv),
        StructPropertyValue::GameplayTagContainer(v) => w_strings(v@, v@.len() as int),
        StructPropertyValue::CustomStruct(m) => wok_fields(m.0, m.0@.len() as int, cv),
        _ => true,
    }
}
pub open spec fn enc_props(v: Vec<Property>, n: int, cv: Seq<(Guid, u32)>) -> Seq<u8> decreases v, n via dec_enc_props
{ if 0 < n <= v@.len() { enc_props(v, n - 1, cv) + enc_prop(v@[n - 1], false, cv) } else { Seq::empty() } }
pub open spec fn wok_props(v: Vec<Property>, n: int, cv: Seq<(Guid, u32)>) -> bool decreases v, n via dec_wok_props
{ if 0 < n <= v@.len() { wok_props(v, n - 1, cv) && wok_prop(v@[n - 1], false, cv) } else { true } }
#[via_fn] proof fn dec_enc_props(v: Vec<Property>, n: int, cv: Seq<(Guid, u32)>) { broadcast use {ax_vec_dec, ax_im_dec}; }
#[via_fn] proof fn dec_wok_props(v: Vec<Property>, n: int, cv: Seq<(Guid, u32)>) { broadcast use {ax_vec_dec, ax_im_dec}; }
pub proof fn lemma_props_prefix(v: Vec<Property>, i: int, n: int, cv: Seq<(Guid, u32)>)
    requires 0 <= i <= n <= v@.len()
    ensures enc_props(v, i, cv).len() <= enc_props(v, n, cv).len(), wok_props(v, n, cv) ==> wok_props(v, i, cv)
    decreases n
{ if i < n { lemma_props_prefix(v, i, n - 1, cv); } }
pub proof fn lemma_props_step(x: Seq<u8>, v: Vec<Property>, i: int, cv: Seq<(Guid, u32)>)
    requires 0 <= i < v@.len()
    ensures x + enc_props(v, i + 1, cv) == (x + enc_props(v, i, cv)) + enc_prop(v@[i], false, cv)
{ assert(x + enc_props(v, i + 1, cv) =~= (x + enc_props(v, i, cv)) + enc_prop(v@[i], false, cv)); }
pub open spec fn enc_svs(v: Vec<StructPropertyValue>, n: int, cv: Seq<(Guid, u32)>) -> Seq<u8> decreases v, n via dec_enc_svs
{ if 0 < n <= v@.len() { enc_svs(v, n - 1, cv) + enc_sv(v@[n - 1], cv) } else { Seq::empty() } }
pub open spec fn wok_svs(v: Vec<StructPropertyValue>, n: int, cv: Seq<(Guid, u32)>) -> bool decreases v, n via dec_wok_svs
{ if 0 < n <= v@.len() { wok_svs(v, n - 1, cv) && wok_sv(v@[n - 1], cv) } else { true } }
#[via_fn] proof fn dec_enc_svs(v: Vec<StructPropertyValue>, n: int, cv: Seq<(Guid, u32)>) { broadcast use {ax_vec_dec, ax_im_dec}; }
#[via_fn] proof fn dec_wok_svs(v: Vec<StructPropertyValue>, n: int, cv: Seq<(Guid, u32)>) { broadcast use {ax_vec_dec, ax_im_dec}; }
pub proof fn lemma_svs_prefix(v: Vec<StructPropertyValue>, i: int, n: int, cv: Seq<(Guid, u32)>)
    requires 0 <= i <= n <= v@.len()
    ensures enc_svs(v, i, cv).len() <= enc_svs(v, n, cv).len(), wok_svs(v, n, cv) ==> wok_svs(v, i, cv)
    decreases n
{ if i < n { lemma_svs_prefix(v, i, n - 1, cv); } }
pub proof fn lemma_svs_step(x: Seq<u8>, v: Vec<StructPropertyValue>, i: int, cv: Seq<(Guid, u32)>)
    requires 0 <= i < v@.len()
    ensures x + enc_svs(v, i + 1, cv) == (x + enc_svs(v, i, cv)) + enc_sv(v@[i], cv)
{ assert(x + enc_svs(v, i + 1, cv) =~= (x + enc_svs(v, i, cv)) + enc_sv(v@[i], cv)); }
pub open spec fn enc_pairs(v: IndexMap<Property, Property>, n: int, cv: Seq<(Guid, u32)>) -> Seq<u8> decreases v, n via dec_enc_pairs
{ if 0 < n <= v@.len() { enc_pairs(v, n - 1, cv) + (enc_prop(v@[n - 1].0, false, cv) + enc_prop(v@[n - 1].1, false, cv)) } else { Seq::empty() } }
pub open spec fn wok_pairs(v: IndexMap<Property, Property>, n: int, cv: Seq<(Guid, u32)>) -> bool decreases v, n via dec_wok_pairs
{ if 0 < n <= v@.len() { wok_pairs(v, n - 1, cv) && wok_prop(v@[n - 1].0, false, cv) && wok_prop(v@[n - 1].1, false, cv) } else { true } }
#[via_fn] proof fn dec_enc_pairs(v: IndexMap<Property, Property>, n: int, cv: Seq<(Guid, u32)>) { broadcast use {ax_vec_dec, ax_im_dec}; }
#[via_fn] proof fn dec_wok_pairs(v: IndexMap<Property, Property>, n: int, cv: Seq<(Guid, u32)>) { broadcast use {ax_vec_dec, ax_im_dec}; }
pub proof fn lemma_pairs_prefix(v: IndexMap<Property, Property>, i: int, n: int, cv: Seq<(Guid, u32)>)
    requires 0 <= i <= n <= v@.len()
    ensures enc_pairs(v, i, cv).len() <= enc_pairs(v, n, cv).len(), wok_pairs(v, n, cv) ==> wok_pairs(v, i, cv)
    decreases n
{ if i < n { lemma_pairs_prefix(v, i, n - 1, cv); } }
pub proof fn lemma_pairs_step(x: Seq<u8>, v: IndexMap<Property, Property>, i: int, cv: Seq<(Guid, u32)>)
    requires 0 <= i < v@.len()
    ensures x + enc_pairs(v, i + 1, cv) == (x + enc_pairs(v, i, cv)) + enc_prop(v@[i].0, false, cv) + enc_prop(v@[i].1, false, cv)
{ assert(x + enc_pairs(v, i + 1, cv) =~= (x + enc_pairs(v, i, cv)) + enc_prop(v@[i].0, false, cv) + enc_prop(v@[i].1, false, cv)); }
pub open spec fn enc_kprops(v: IndexMap<String, Property>, n: int, cv: Seq<(Guid, u32)>) -> Seq<u8> decreases v, n via dec_enc_kprops
{ if 0 < n <= v@.len() { enc_kprops(v, n - 1, cv) + (e_string(v@[n - 1].0@) + enc_prop(v@[n - 1].1, false, cv)) } else { Seq::empty() } }
pub open spec fn wok_kprops(v: IndexMap<String, Property>, n: int, cv: Seq<(Guid, u32)>) -> bool decreases v, n via dec_wok_kprops
{ if 0 < n <= v@.len() { wok_kprops(v, n - 1, cv) && str_ok(v@[n - 1].0@) && wok_prop(v@[n - 1].1, false, cv) } else { true } }
#[via_fn] proof fn dec_enc_kprops(v: IndexMap<String, Property>, n: int, cv: Seq<(Guid, u32)>) { broadcast use {ax_vec_dec, ax_im_dec}; }
#[via_fn] proof fn dec_wok_kprops(v: IndexMap<String, Property>, n: int, cv: Seq<(Guid, u32)>) { broadcast use {ax_vec_dec, ax_im_dec}; }
pub proof fn lemma_kprops_prefix(v: IndexMap<String, Property>, i: int, n: int, cv: Seq<(Guid, u32)>)
    requires 0 <= i <= n <= v@.len()
    ensures enc_kprops(v, i, cv).len() <= enc_kprops(v, n, cv).len(), wok_kprops(v, n, cv) ==> wok_kprops(v, i, cv)
    decreases n
{ if i < n { lemma_kprops_prefix(v, i, n - 1, cv); } }
pub proof fn lemma_kprops_step(x: Seq<u8>, v: IndexMap<String, Property>, i: int, cv: Seq<(Guid, u32)>)
    requires 0 <= i < v@.len()
    ensures x + enc_kprops(v, i + 1, cv) == (x + enc_kprops(v, i, cv)) + e_string(v@[i].0@) + enc_prop(v@[i].1, false, cv)
{ assert(x + enc_kprops(v, i + 1, cv) =~= (x + enc_kprops(v, i, cv)) + e_string(v@[i].0@) + enc_prop(v@[i].1, false, cv)); }
pub open spec fn enc_field(k: Seq<char>, v: Vec<Property>, n: int, cv: Seq<(Guid, u32)>) -> Seq<u8> decreases v, n via dec_enc_field
{ if 0 < n <= v@.len() { enc_field(k, v, n - 1, cv) + (e_string(k) + enc_prop(v@[n - 1], true, cv)) } else { Seq::empty() } }
pub open spec fn wok_field(k: Seq<char>, v: Vec<Property>, n: int, cv: Seq<(Guid, u32)>) -> bool decreases v, n via dec_wok_field
{ if 0 < n <= v@.len() { wok_field(k, v, n - 1, cv) && str_ok(k) && wok_prop(v@[n - 1], true, cv) } else { true } }
#[via_fn] proof fn dec_enc_field(k: Seq<char>, v: Vec<Property>, n: int, cv: Seq<(Guid, u32)>) { broadcast use {ax_vec_dec, ax_im_dec}; }
#[via_fn] proof fn dec_wok_field(k: Seq<char>, v: Vec<Property>, n: int, cv: Seq<(Guid, u32)>) { broadcast use {ax_vec_dec, ax_im_dec}; }
pub proof fn lemma_field_prefix(k: Seq<char>, v: Vec<Property>, i: int, n: int, cv: Seq<(Guid, u32)>)
    requires 0 <= i <= n <= v@.len()
    ensures enc_field(k, v, i, cv).len() <= enc_field(k, v, n, cv).len(), wok_field(k, v, n, cv) ==> wok_field(k, v, i, cv)
    decreases n
{ if i < n { lemma_field_prefix(k, v, i, n - 1, cv); } }
pub proof fn lemma_field_step(x: Seq<u8>, k: Seq<char>, v: Vec<Property>, i: int, cv: Seq<(Guid, u32)>)
    requires 0 <= i < v@.len()
    ensures x + enc_field(k, v, i + 1, cv) == (x + enc_field(k, v, i, cv)) + e_string(k) + enc_prop(v@[i], true, cv)
{ assert(x + enc_field(k, v, i + 1, cv) =~= (x + enc_field(k, v, i, cv)) + e_string(k) + enc_prop(v@[i], true, cv)); }
pub open spec fn enc_fields(v: IndexMap<String, Vec<Property>>, n: int, cv: Seq<(Guid, u32)>) -> Seq<u8> decreases v, n via dec_enc_fields
{ if 0 < n <= v@.len() { enc_fields(v, n - 1, cv) + enc_field(v@[n - 1].0@, v@[n - 1].1, v@[n - 1].1@.len() as int, cv) } else { Seq::empty() } }
pub open spec fn wok_fields(v: IndexMap<String, Vec<Property>>, n: int, cv: Seq<(Guid, u32)>) -> bool decreases v, n via dec_wok_fields
{ if 0 < n <= v@.len() { wok_fields(v, n - 1, cv) && wok_field(v@[n - 1].0@, v@[n - 1].1, v@[n - 1].1@.len() as int, cv) } else { true } }
#[via_fn] proof fn dec_enc_fields(v: IndexMap<String, Vec<Property>>, n: int, cv: Seq<(Guid, u32)>) { broadcast use {ax_vec_dec, ax_im_dec}; }
#[via_fn] proof fn dec_wok_fields(v: IndexMap<String, Vec<Property>>, n: int, cv: Seq<(Guid, u32)>) { broadcast use {ax_vec_dec, ax_im_dec}; }
pub proof fn lemma_fields_prefix(v: IndexMap<String, Vec<Property>>, i: int, n: int, cv: Seq<(Guid, u32)>)
    requires 0 <= i <= n <= v@.len()
    ensures enc_fields(v, i, cv).len() <= enc_fields(v, n, cv).len(), wok_fields(v, n, cv) ==> wok_fields(v, i, cv)
    decreases n
{ if i < n { lemma_fields_prefix(v, i, n - 1, cv); } }
pub proof fn lemma_fields_step(x: Seq<u8>, v: IndexMap<String, Vec<Property>>, i: int, cv: Seq<(Guid, u32)>)
    requires 0 <= i < v@.len()
    ensures x + enc_fields(v, i + 1, cv) == (x + enc_fields(v, i, cv)) + enc_field(v@[i].0@, v@[i].1, v@[i].1@.len() as int, cv)
{ assert(x + enc_fields(v, i + 1, cv) =~= (x + enc_fields(v, i, cv)) + enc_field(v@[i].0@, v@[i].1, v@[i].1@.len() as int, cv)); }
// ------------------------------------------------------------------ reading
pub struct Env { pub h: Map<Seq<char>, String>, pub cv: Seq<(Guid, u32)> }
pub open spec fn env(o: &PropertyOptions) -> Env { Env { h: o.hints@, cv: cvo(o) } }
pub open spec fn stk(o: &PropertyOptions) -> Seq<String> { o.properties_stack@ }
pub broadcast proof fn lemma_push_pop<T>(s: Seq<T>, x: T) ensures #[trigger] s.push(x).drop_last() == s
{ assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn lemma_push_cut<T>(s: Seq<T>, x: T, n: int) requires n == s.len() ensures #[trigger] s.push(x).subrange(0, n) == s
{ assert(s.push(x).subrange(0, n) =~= s); }
pub open spec fn p_fold<V, W>(r: PR<V>, f: spec_fn(V) -> W) -> PR<W> { match r { Ok((v, q)) => Ok((f(v), q)), Err(e) => Err(e) } }

pub open spec fn p_vector(d: Seq<u8>, p: int, cv: Seq<(Guid, u32)>) -> PR<StructPropertyValue> {
    if lwc(cv) {
        let (a0, q) <- p_f64(d, p);
        let (a1, q) <- p_f64(d, q);
        let (a2, q) <- p_f64(d, q);
        Ok((StructPropertyValue::VectorD(VectorD { x: OrderedFloat(a0), y: OrderedFloat(a1), z: OrderedFloat(a2) }), q))
    } else {
        let (a0, q) <- p_f32(d, p);
        let (a1, q) <- p_f32(d, q);
        let (a2, q) <- p_f32(d, q);
        Ok((StructPropertyValue::VectorF(VectorF { x: OrderedFloat(a0), y: OrderedFloat(a1), z: OrderedFloat(a2) }), q))
    }
}
pub open spec fn p_vector2(d: Seq<u8>, p: int, cv: Seq<(Guid, u32)>) -> PR<StructPropertyValue> {
    if lwc(cv) {
        let (a0, q) <- p_f64(d, p);
        let (a1, q) <- p_f64(d, q);
        Ok((StructPropertyValue::Vector2D(Vector2D { x: OrderedFloat(a0), y: OrderedFloat(a1) }), q))
    } else {
        let (a0, q) <- p_f32(d, p);
        let (a1, q) <- p_f32(d, q);
        Ok((StructPropertyValue::Vector2F(Vector2F { x: OrderedFloat(a0), y: OrderedFloat(a1) }), q))
    }
}
pub open spec fn p_rotator(d: Seq<u8>, p: int, cv: Seq<(Guid, u32)>) -> PR<StructPropertyValue> {
    if lwc(cv) {
        let (a0, q) <- p_f64(d, p);
        let (a1, q) <- p_f64(d, q);
        let (a2, q) <- p_f64(d, q);
        Ok((StructPropertyValue::RotatorD(RotatorD { pitch: OrderedFloat(a0), yaw: OrderedFloat(a1), roll: OrderedFloat(a2) }), q))
    } else {
        let (a0, q) <- p_f32(d, p);
        let (a1, q) <- p_f32(d, q);
        let (a2, q) <- p_f32(d, q);
        Ok((StructPropertyValue::RotatorF(RotatorF { pitch: OrderedFloat(a0), yaw: OrderedFloat(a1), roll: OrderedFloat(a2) }), q))
    }
}
pub open spec fn p_quat(d: Seq<u8>, p: int, cv: Seq<(Guid, u32)>) -> PR<StructPropertyValue> {
    if lwc(cv) {
        let (a0, q) <- p_f64(d, p);
        let (a1, q) <- p_f64(d, q);
        let (a2, q) <- p_f64(d, q);
        let (a3, q) <- p_f64(d, q);
        Ok((StructPropertyValue::QuatD(QuatD { x: OrderedFloat(a0), y: OrderedFloat(a1), z: OrderedFloat(a2), w: OrderedFloat(a3) }), q))
    } else {
        let (a0, q) <- p_f32(d, p);
        let (a1, q) <- p_f32(d, q);
        let (a2, q) <- p_f32(d, q);
        let (a3, q) <- p_f32(d, q);
        Ok((StructPropertyValue::QuatF(QuatF { x: OrderedFloat(a0), y: OrderedFloat(a1), z: OrderedFloat(a2), w: OrderedFloat(a3) }), q))
    }
}
pub open spec fn p_datetime(d: Seq<u8>, p: int) -> PR<StructPropertyValue> {
    let (t, q) <- p_u64(d, p);
    Ok((StructPropertyValue::DateTime(DateTime { ticks: t }), q))
}
pub open spec fn p_timespan(d: Seq<u8>, p: int) -> PR<StructPropertyValue> {
    let (t, q) <- p_u64(d, p);
    Ok((StructPropertyValue::Timespan(Timespan { ticks: t }), q))
}
pub open spec fn p_color(d: Seq<u8>, p: int) -> PR<StructPropertyValue> {
    let (r, q) <- p_f32(d, p);
    let (g, q) <- p_f32(d, q);
    let (b, q) <- p_f32(d, q);
    let (a, q) <- p_f32(d, q);
    Ok((StructPropertyValue::LinearColor(LinearColor { r: OrderedFloat(r), g: OrderedFloat(g), b: OrderedFloat(b), a: OrderedFloat(a) }), q))
}
pub open spec fn p_point(d: Seq<u8>, p: int) -> PR<StructPropertyValue> {
    let (x, q) <- p_i32(d, p);
    let (y, q) <- p_i32(d, q);
    Ok((StructPropertyValue::IntPoint(IntPoint { x: x, y: y }), q))
}
pub open spec fn p_guidv(d: Seq<u8>, p: int) -> PR<StructPropertyValue> {
    let (g, q) <- p_guid(d, p);
    Ok((StructPropertyValue::Guid(g), q))
}
pub open spec fn p_tags(d: Seq<u8>, p: int) -> PR<StructPropertyValue> {
    let (n, q) <- p_i32(d, p);
    let (v, q) <- p_strings(d, q, n as int, Seq::empty());
    Ok((StructPropertyValue::GameplayTagContainer(v), q))
}
pub open spec fn p_sv(d: Seq<u8>, p: int, e: Env, st: Seq<String>, tn: Seq<char>) -> PR<StructPropertyValue>
    decreases d.len() - p, 3int, 0int
{
    if tn == "Vector"@ { p_vector(d, p, e.cv) }
    else if tn == "Vector2D"@ { p_vector2(d, p, e.cv) }
    else if tn == "Rotator"@ { p_rotator(d, p, e.cv) }
    else if tn == "Quat"@ { p_quat(d, p, e.cv) }
    else if tn == "DateTime"@ { p_datetime(d, p) }
    else if tn == "Timespan"@ { p_timespan(d, p) }
    else if tn == "LinearColor"@ { p_color(d, p) }
    else if tn == "IntPoint"@ { p_point(d, p) }
    else if tn == "Guid"@ { p_guidv(d, p) }
    else if tn == "GameplayTagContainer"@ { p_tags(d, p) }
    else {
        let (m, q) <- p_fields(d, p, e, st, Seq::empty());
        Ok((StructPropertyValue::CustomStruct(HashableIndexMap(m)), q))
    }
}
/// name, kind, value until the name "None"; values of one name are kept together
pub open spec fn p_fields(d: Seq<u8>, p: int, e: Env, st: Seq<String>, acc: Seq<(String, Vec<Property>)>) -> PR<IndexMap<String, Vec<Property>>>
    decreases d.len() - p, 2int, 0int
{
    let (k, q) <- p_string(d, p);
    if k@ == "None"@ { Ok((mkim(acc), q)) } else {
        let (t, q) <- p_string(d, q);
        guard p < q <= d.len() else E::Io;
        let (v, z) <- p_prop(d, q, e, st.push(k), t@, true, None);
        guard q <= z <= d.len() else E::Io;
        p_fields(d, z, e, st, im_push(acc, k, v))
    }
}
pub open spec fn p_structh(d: Seq<u8>, p: int, e: Env, st: Seq<String>) -> PR<StructProperty>
    decreases d.len() - p, 3int, 0int
{
    let (n, q) <- p_len_idx(d, p);
    let (tn, q) <- p_string(d, q);
    let (g, q) <- p_guid(d, q);
    let (_, q) <- p_zero(d, q);
    guard p < q <= d.len() else E::Io;
    let (v, q) <- p_sized(n as int, q, p_sv(d, q, e, st, tn@));
    Ok((StructProperty { guid: g, type_name: tn, value: v }, q))
}
pub open spec fn p_props(d: Seq<u8>, p: int, e: Env, st: Seq<String>, ty: Seq<char>, sl: Option<u32>, n: int, acc: Seq<Property>) -> PR<Vec<Property>>
    decreases d.len() - p, 5int, n
{
    if n <= 0 { Ok((mkvec(acc), p)) } else {
        let (v, q) <- p_prop(d, p, e, st, ty, false, sl);
        guard p <= q <= d.len() else E::Io;
        p_props(d, q, e, st, ty, sl, n - 1, acc.push(v))
    }
}
pub open spec fn p_svs(d: Seq<u8>, p: int, e: Env, st: Seq<String>, tn: Seq<char>, n: int, acc: Seq<Property>) -> PR<Vec<Property>>
    decreases d.len() - p, 5int, n
{
    if n <= 0 { Ok((mkvec(acc), p)) } else {
        let (v, q) <- p_sv(d, p, e, st, tn);
        guard p <= q <= d.len() else E::Io;
        p_svs(d, q, e, st, tn, n - 1, acc.push(Property::StructPropertyValue(v)))
    }
}
pub open spec fn p_pairs(d: Seq<u8>, p: int, e: Env, st: Seq<String>, kt: Seq<char>, vt: Seq<char>, n: int, acc: Seq<(Property, Property)>) -> PR<IndexMap<Property, Property>>
    decreases d.len() - p, 5int, n
{
    if n <= 0 { Ok((mkim(acc), p)) } else {
        let (k, q) <- p_prop(d, p, e, st.push(mkstr("Key"@)), kt, false, None);
        guard p <= q <= d.len() else E::Io;
        let (v, q) <- p_prop(d, q, e, st.push(mkstr("Value"@)), vt, false, None);
        guard p <= q <= d.len() else E::Io;
        p_pairs(d, q, e, st, kt, vt, n - 1, im_insert(acc, k, v))
    }
}
pub open spec fn arr_sl(c: u32, len: u32) -> Option<u32> { if c > 0 && len >= 4 { Some(((len - 4) / (c as int)) as u32) } else { None } }
pub open spec fn set_sl(c: u32, len: u32) -> u32 { ((if len >= 8 { len - 8 } else { 0 }) / (c as int)) as u32 }
pub open spec fn p_arrayb(d: Seq<u8>, p: int, e: Env, st: Seq<String>, len: u32, t: String) -> PR<ArrayProperty>
    decreases d.len() - p, 6int, 0int
{
    let (c, q) <- p_u32(d, p);
    if t@ == "StructProperty"@ {
        let (f, q) <- p_string(d, q);
        let (t2, q) <- p_string(d, q);
        guard t2@ == "StructProperty"@ else E::Prop(q);
        let (sz, q) <- p_u64(d, q);
        let (tn, q) <- p_string(d, q);
        let (g, q) <- p_guid(d, q);
        let (_, q) <- p_zero(d, q);
        guard p < q <= d.len() else E::Io;
        let (v, z) <- p_svs(d, q, e, st, tn@, c as int, Seq::empty());
        guard z - q == sz else E::Prop(z);
        match arr_new(t, Some((f, tn, g)), v) { Some(x) => Ok((x, z)), None => Err(E::Ser) }
    } else {
        let (v, q) <- p_props(d, q, e, st, t@, arr_sl(c, len), c as int, Seq::empty());
        match arr_new(t, None, v) { Some(x) => Ok((x, q)), None => Err(E::Ser) }
    }
}
pub open spec fn p_arrayh(d: Seq<u8>, p: int, e: Env, st: Seq<String>) -> PR<ArrayProperty>
    decreases d.len() - p, 3int, 0int
{
    let ((n, t), q) <- p_hdr1(d, p);
    guard p < q <= d.len() else E::Io;
    p_sized(n as int, q, p_arrayb(d, q, e, st, n, t))
}
pub open spec fn p_setb(d: Seq<u8>, p: int, e: Env, st: Seq<String>, len: u32, t: String) -> PR<SetProperty>
    decreases d.len() - p, 6int, 0int
{
    let (f, q) <- p_u32(d, p);
    let (c, q) <- p_u32(d, q);
    let (v, q) <- p_props(d, q, e, st, t@, Some(set_sl(c, len)), c as int, Seq::empty());
    Ok((SetProperty { property_type: t, allocation_flags: f, properties: v }, q))
}
pub open spec fn p_seth(d: Seq<u8>, p: int, e: Env, st: Seq<String>) -> PR<SetProperty>
    decreases d.len() - p, 3int, 0int
{
    let ((n, t), q) <- p_hdr1(d, p);
    guard p < q <= d.len() else E::Io;
    p_sized(n as int, q, p_setb(d, q, e, st, n, t))
}
pub open spec fn p_mapb(d: Seq<u8>, p: int, e: Env, st: Seq<String>, kt: String, vt: String) -> PR<MapProperty>
    decreases d.len() - p, 6int, 0int
{
    let (f, q) <- p_u32(d, p);
    let (c, q) <- p_u32(d, q);
    let (m, q) <- p_pairs(d, q, e, st, kt@, vt@, c as int, Seq::empty());
    Ok((map_new(kt, vt, f, HashableIndexMap(m)), q))
}
pub open spec fn p_maph(d: Seq<u8>, p: int, e: Env, st: Seq<String>) -> PR<MapProperty>
    decreases d.len() - p, 3int, 0int
{
    let ((n, kt, vt), q) <- p_hdr2(d, p);
    guard p < q <= d.len() else E::Io;
    p_sized(n as int, q, p_mapb(d, q, e, st, kt, vt))
}
pub open spec fn p_prop(d: Seq<u8>, p: int, e: Env, st0: Seq<String>, ty: Seq<char>, hdr: bool, sl: Option<u32>) -> PR<Property>
    decreases d.len() - p, 4int, 0int
{
    let st = st0.push(mkstr(ty));
    if ty == "Int8Property"@ { p_fold(p_i8p(d, p, hdr), |x: Int8Property| Property::Int8Property(x)) } else
    if ty == "ByteProperty"@ { p_fold(p_bytep(d, p, hdr, sl), |x: ByteProperty| Property::ByteProperty(x)) } else
    if ty == "Int16Property"@ { p_fold(p_i16p(d, p, hdr), |x: Int16Property| Property::Int16Property(x)) } else
    if ty == "UInt16Property"@ { p_fold(p_u16p(d, p, hdr), |x: UInt16Property| Property::UInt16Property(x)) } else
    if ty == "IntProperty"@ { p_fold(p_i32p(d, p, hdr), |x: IntProperty| Property::IntProperty(x)) } else
    if ty == "UInt32Property"@ { p_fold(p_u32p(d, p, hdr), |x: UInt32Property| Property::UInt32Property(x)) } else
    if ty == "Int64Property"@ { p_fold(p_i64p(d, p, hdr), |x: Int64Property| Property::Int64Property(x)) } else
    if ty == "UInt64Property"@ { p_fold(p_u64p(d, p, hdr), |x: UInt64Property| Property::UInt64Property(x)) } else
    if ty == "FloatProperty"@ { p_fold(p_f32p(d, p, hdr), |x: FloatProperty| Property::FloatProperty(x)) } else
    if ty == "DoubleProperty"@ { p_fold(p_f64p(d, p, hdr), |x: DoubleProperty| Property::DoubleProperty(x)) } else
    if ty == "BoolProperty"@ { p_fold(p_boolp(d, p, hdr), |x: BoolProperty| Property::BoolProperty(x)) } else
    if ty == "EnumProperty"@ { p_fold((if hdr { p_enumh(d, p) } else { p_enumb(d, p, None) }), |x: EnumProperty| Property::EnumProperty(x)) } else
    if ty == "StrProperty"@ { p_fold((if hdr { p_strh(d, p) } else { p_strb(d, p) }), |x: StrProperty| Property::StrProperty(x)) } else
    if ty == "TextProperty"@ { p_fold((if hdr { p_texth(d, p, e.cv) } else { p_textb(d, p, e.cv) }), |x: TextProperty| Property::TextProperty(x)) } else
    if ty == "NameProperty"@ { p_fold((if hdr { p_nameh(d, p) } else { p_nameb(d, p, 0) }), |x: NameProperty| Property::NameProperty(x)) } else
    if ty == "ObjectProperty"@ { p_fold((if hdr { p_objecth(d, p) } else { p_objectb(d, p) }), |x: ObjectProperty| Property::ObjectProperty(x)) } else
    if ty == "DelegateProperty"@ { p_fold((if hdr { p_delegateh(d, p) } else { p_delegateb(d, p) }), |x: DelegateProperty| Property::DelegateProperty(x)) } else
    if ty == "MulticastInlineDelegateProperty"@ { p_fold((if hdr { p_inlineh(d, p) } else { p_inlineb(d, p) }), |x: MulticastInlineDelegateProperty| Property::MulticastInlineDelegateProperty(x)) } else
    if ty == "MulticastSparseDelegateProperty"@ { p_fold((if hdr { p_sparseh(d, p) } else { p_sparseb(d, p) }), |x: MulticastSparseDelegateProperty| Property::MulticastSparseDelegateProperty(x)) } else
    if ty == "FieldPathProperty"@ { p_fold((if hdr { p_fpathh(d, p) } else { p_fpathb(d, p) }), |x: FieldPathProperty| Property::FieldPathProperty(x)) } else
    if ty == "StructProperty"@ {
        if hdr {
            let (x, q) <- p_structh(d, p, e, st);
            Ok((Property::StructProperty(x), q))
        } else if e.h.contains_key(join_spec(st, "."@)) {
            let (x, q) <- p_sv(d, p, e, st, e.h[join_spec(st, "."@)]@);
            Ok((Property::StructPropertyValue(x), q))
        } else { Err(E::Hint("StructProperty"@, join_spec(st, "."@), p)) }
    } else
    if ty == "ArrayProperty"@ {
        if hdr {
            let (x, q) <- p_arrayh(d, p, e, st);
            Ok((Property::ArrayProperty(x), q))
        } else { Err(E::Prop(p)) }
    } else
    if ty == "SetProperty"@ {
        if hdr {
            let (x, q) <- p_seth(d, p, e, st);
            Ok((Property::SetProperty(x), q))
        } else { Err(E::Prop(p)) }
    } else
    if ty == "MapProperty"@ {
        if hdr {
            let (x, q) <- p_maph(d, p, e, st);
            Ok((Property::MapProperty(x), q))
        } else { Err(E::Prop(p)) }
    } else
    if hdr { p_fold(p_unknownh(d, p, ty), |x: UnknownProperty| Property::UnknownProperty(x)) }
    else { match sl {
        Some(n) if n > 0 => p_fold(p_unknownl(d, p, ty, n as int), |x: UnknownProperty| Property::UnknownProperty(x)),
        _ => Err(E::Prop(p)),
    } }
}
// ------------------------------------------------------------------ names of structs
#[verifier::opaque]
pub open spec fn sid(s: Seq<char>) -> int { s.len() * 1000 + (s[0] as int) }
pub proof fn lemma_structs_apart()
    ensures sid("Vector"@) == 6086, sid("Vector2D"@) == 8086, sid("Rotator"@) == 7082, sid("Quat"@) == 4081, sid("DateTime"@) == 8068,
        sid("Timespan"@) == 8084, sid("LinearColor"@) == 11076, sid("IntPoint"@) == 8073, sid("Guid"@) == 4071, sid("GameplayTagContainer"@) == 20071
{
    reveal(sid);
    reveal_strlit("Vector"); reveal_strlit("Vector2D"); reveal_strlit("Rotator"); reveal_strlit("Quat"); reveal_strlit("DateTime");
    reveal_strlit("Timespan"); reveal_strlit("LinearColor"); reveal_strlit("IntPoint"); reveal_strlit("Guid"); reveal_strlit("GameplayTagContainer");
}
pub proof fn lemma_none_ok() ensures str_ok("None"@), "None"@.len() == 4 { reveal_strlit("None"); lemma_lit_ok("None"@); }
