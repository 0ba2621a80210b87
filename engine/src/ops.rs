// Included twice: once on top of the code in /repo, once on top of the
// reference copy.  Everything here is a function of the seed and the inputs.
use crate::common::*;
use g::cursor_ext::{ReadExt, WriteExt};
use g::custom_version::*;
use g::engine_version::FEngineVersion;
use g::error::{DeserializeError, Error, SerializeError};
use g::game_version::*;
use g::properties::array_property::ArrayProperty;
use g::properties::delegate_property::*;
use g::properties::enum_property::EnumProperty;
use g::properties::field_path_property::*;
use g::properties::int_property::*;
use g::properties::map_property::MapProperty;
use g::properties::name_property::NameProperty;
use g::properties::object_property::ObjectProperty;
use g::properties::set_property::SetProperty;
use g::properties::str_property::StrProperty;
use g::properties::struct_property::*;
use g::properties::struct_types::*;
use g::properties::text_property::*;
use g::properties::unknown_property::UnknownProperty;
use g::properties::*;
use g::types::Guid;
use g::types::map::HashableIndexMap;
use g::{GvasFile, GvasHeader};
use std::collections::HashMap;
use std::io::{Cursor, Seek};

fn lwc(e: &Env) -> bool {
    e.versions.iter().any(|(k, v)| *k == crate::guids().1 && *v >= 28)
}
fn ed(e: &Env) -> u32 {
    e.versions.iter().rev().find(|(k, _)| *k == crate::guids().0).map(|x| x.1).unwrap_or(0)
}
fn rs(e: &Env) -> u32 {
    e.versions.iter().rev().find(|(k, _)| *k == crate::guids().1).map(|x| x.1).unwrap_or(0)
}

pub const STRUCTS: &[&str] = &["Vector", "Vector2D", "Rotator", "Quat", "DateTime", "Timespan", "LinearColor", "IntPoint", "Guid", "GameplayTagContainer", "MyStruct"];

pub fn gen_struct(r: &mut Rng, e: &Env, ty: &str, depth: usize) -> StructPropertyValue {
    // now and then a width that does not fit the versions
    let wide = lwc(e) != r.chance(4);
    match ty {
        "Vector" if wide => VectorD::new(r.f64(), r.f64(), r.f64()).into(),
        "Vector" => VectorF::new(r.f32(), r.f32(), r.f32()).into(),
        "Vector2D" if wide => Vector2D::new(r.f64(), r.f64()).into(),
        "Vector2D" => Vector2F::new(r.f32(), r.f32()).into(),
        "Rotator" if wide => RotatorD::new(r.f64(), r.f64(), r.f64()).into(),
        "Rotator" => RotatorF::new(r.f32(), r.f32(), r.f32()).into(),
        "Quat" if wide => QuatD::new(r.f64(), r.f64(), r.f64(), r.f64()).into(),
        "Quat" => QuatF::new(r.f32(), r.f32(), r.f32(), r.f32()).into(),
        "DateTime" => DateTime::new(r.num() as u64).into(),
        "Timespan" => Timespan::new(r.num() as u64).into(),
        "LinearColor" => LinearColor::new(r.f32(), r.f32(), r.f32(), r.f32()).into(),
        "IntPoint" => IntPoint::new(r.num() as i32, r.num() as i32).into(),
        "Guid" => Guid(r.guid()).into(),
        "GameplayTagContainer" => {
            let n = r.len(5);
            StructPropertyValue::GameplayTagContainer((0..n).map(|_| r.string()).collect())
        }
        _ => {
            let mut m: HashableIndexMap<String, Vec<Property>> = HashableIndexMap::new();
            if r.1 == 1 && r.chance(60) {
                // many names, or one name many times over
                let n = r.len(0);
                let one = r.chance(50);
                for i in 0..n {
                    let k = if one { "p".to_string() } else { format!("p{i:x}") };
                    m.entry(k).or_default().push(IntProperty::new(i as i32).into());
                }
            }
            let n = if r.1 == 3 { 1 + r.below(2) } else { r.len(4).min(40) };
            for _ in 0..n {
                let k = r.name();
                let c = if r.chance(85) { 1 } else { 1 + r.below(3) };
                for _ in 0..c {
                    let p = gen_kid(r, e, depth, true);
                    m.entry(k.clone()).or_default().push(p);
                }
            }
            StructPropertyValue::CustomStruct(m)
        }
    }
}

/// a property to be stored inside another one
fn gen_kid(r: &mut Rng, e: &Env, depth: usize, header: bool) -> Property {
    let k = if r.1 == 3 && depth > 0 && r.chance(85) {
        *r.pick(&["MapProperty", "MapProperty", "SetProperty", "ArrayProperty", "StructProperty"])
    } else if depth == 0 { KINDS[r.below(LEAVES)] } else { KINDS[r.below(KINDS.len())] };
    gen_prop(r, e, k, depth.saturating_sub(1), header)
}

/// how many arguments a text has
fn few(r: &mut Rng) -> usize {
    let n = r.len(4);
    if r.1 == 2 { n } else { n.min(30) }
}
fn gen_arg(r: &mut Rng, e: &Env, depth: usize) -> FormatArgumentValue {
    let wide = (rs(e) >= 12) != r.chance(4);
    match r.below(if depth == 0 { 4 } else { 5 }) {
        0 if wide => FormatArgumentValue::Int64(r.num() as i64),
        0 => FormatArgumentValue::Int(r.num() as i32),
        1 if wide => FormatArgumentValue::UInt64(r.num() as u64),
        1 => FormatArgumentValue::UInt(r.num() as u32),
        2 => FormatArgumentValue::Float(r.f32().into()),
        3 => FormatArgumentValue::Double(r.f64().into()),
        _ => FormatArgumentValue::Text(gen_text(r, e, depth - 1)),
    }
}
fn gen_opts(r: &mut Rng) -> NumberFormattingOptions {
    NumberFormattingOptions {
        always_include_sign: r.chance(50),
        use_grouping: r.chance(50),
        rounding_mode: *r.pick(&[
            RoundingMode::HalfToEven, RoundingMode::HalfFromZero, RoundingMode::HalfToZero, RoundingMode::FromZero, RoundingMode::ToZero,
            RoundingMode::ToNegativeInfinity, RoundingMode::ToPositiveInfinity,
        ]),
        minimum_integral_digits: r.num() as i32,
        maximum_integral_digits: r.num() as i32,
        minimum_fractional_digits: r.num() as i32,
        maximum_fractional_digits: r.num() as i32,
    }
}
fn gen_style(r: &mut Rng) -> DateTimeStyle {
    *r.pick(&[DateTimeStyle::Default, DateTimeStyle::Short, DateTimeStyle::Medium, DateTimeStyle::Long, DateTimeStyle::Full])
}
pub fn gen_text(r: &mut Rng, e: &Env, depth: usize) -> FText {
    let flags = r.num() as u32;
    let k = if depth == 0 {
        *r.pick(&[0, 1, 2, 2, 9, 10, 11, 13, 6, 7, 8])
    } else if r.1 == 1 && r.chance(70) {
        // the ones with lists
        3 + r.below(3)
    } else {
        r.below(14)
    };
    let history = match k {
        0 => {
            if (ed(e) >= 32) != r.chance(4) {
                FTextHistory::None { culture_invariant_string: r.ostring() }
            } else {
                FTextHistory::Empty {}
            }
        }
        1 => {
            return FText::new_none(flags, if ed(e) >= 32 { Some(r.ostring()) } else { None });
        }
        2 => return FText::new_base(flags, r.ostring(), r.ostring(), r.ostring()),
        3 | 5 => {
            let n = few(r);
            let source_format = Box::new(gen_text(r, e, depth - 1));
            let mut arguments = HashableIndexMap::new();
            for i in 0..n {
                let k = if n > 100 { format!("{i:x}") } else { r.string() };
                arguments.insert(k, gen_arg(r, e, depth));
            }
            if k == 3 { FTextHistory::NamedFormat { source_format, arguments } } else { FTextHistory::ArgumentFormat { source_format, arguments } }
        }
        4 => {
            let n = few(r);
            let source_format = Box::new(gen_text(r, e, depth - 1));
            FTextHistory::OrderedFormat { source_format, arguments: (0..n).map(|_| gen_arg(r, e, depth)).collect() }
        }
        6 | 7 => {
            let source_value = Box::new(gen_arg(r, e, depth));
            let format_options = if r.chance(50) { Some(gen_opts(r)) } else { None };
            let target_culture = r.ostring();
            if k == 6 { FTextHistory::AsNumber { source_value, format_options, target_culture } } else { FTextHistory::AsPercent { source_value, format_options, target_culture } }
        }
        8 => FTextHistory::AsCurrency {
            currency_code: r.ostring(),
            source_value: Box::new(gen_arg(r, e, depth)),
            format_options: if r.chance(50) { Some(gen_opts(r)) } else { None },
            target_culture: r.ostring(),
        },
        9 => FTextHistory::AsDate { date_time: DateTime::new(r.num() as u64), date_style: gen_style(r), target_culture: r.string() },
        10 => FTextHistory::AsTime { source_date_time: DateTime::new(r.num() as u64), time_style: gen_style(r), time_zone: r.string(), target_culture: r.string() },
        11 => FTextHistory::AsDateTime {
            source_date_time: DateTime::new(r.num() as u64),
            date_style: gen_style(r),
            time_style: gen_style(r),
            time_zone: r.string(),
            target_culture: r.string(),
        },
        12 => FTextHistory::Transform { source_text: Box::new(gen_text(r, e, depth - 1)), transform_type: *r.pick(&[TransformType::ToLower, TransformType::ToUpper]) },
        _ => FTextHistory::StringTableEntry { table_id: r.string(), key: r.string() },
    };
    FText { flags, history }
}

fn unknown_name(r: &mut Rng) -> String {
    let d = &dict().strs;
    if !d.is_empty() && r.chance(30) {
        let s = r.pick(d).clone();
        if !KINDS.contains(&s.as_str()) {
            return s;
        }
    }
    r.pick(&["SoftObjectProperty", "WeakObjectProperty", "XProperty", "InterfaceProperty", "", "intproperty"]).to_string()
}

/// An element of kind `k` the way it is stored inside an array, set or map.
fn gen_elem(r: &mut Rng, e: &Env, k: &str, depth: usize) -> Property {
    match k {
        "StructProperty" => gen_struct(r, e, &e.hint_ty.clone(), depth).into(),
        // what a specialised collection cannot hold, now and then
        "EnumProperty" => EnumProperty::new(if r.chance(4) { Some(r.string()) } else { None }, r.string()).into(),
        "ByteProperty" => {
            if r.chance(3) {
                return ByteProperty::new_byte(Some(r.string()), r.num() as u8).into();
            }
            if r.chance(70) { ByteProperty::new_byte(None, r.num() as u8).into() } else { ByteProperty::new_namespaced(None, r.string()).into() }
        }
        "NameProperty" => NameProperty { array_index: if r.chance(4) { r.num() as u32 } else { 0 }, value: r.ostring() }.into(),
        _ => gen_prop(r, e, k, depth.saturating_sub(1), false),
    }
}

pub fn gen_prop(r: &mut Rng, e: &Env, k: &str, depth: usize, header: bool) -> Property {
    match k {
        "BoolProperty" => BoolProperty::new(r.chance(50)).into(),
        "ByteProperty" => {
            let name = if header != r.chance(5) { Some(r.string()) } else { None };
            match r.below(3) {
                0 => ByteProperty::new_byte(if header { name } else { None }, r.num() as u8).into(),
                1 => ByteProperty::new_namespaced(name, r.string()).into(),
                _ => ByteProperty::new(name, BytePropertyValue::Namespaced(r.string())).into(),
            }
        }
        "DoubleProperty" => DoubleProperty::new(r.f64()).into(),
        "EnumProperty" => EnumProperty::new(if header != r.chance(5) { Some(r.string()) } else { None }, r.string()).into(),
        "FloatProperty" => FloatProperty::new(r.f32()).into(),
        "Int16Property" => Int16Property::new(r.num() as i16).into(),
        "Int64Property" => Int64Property::new(r.num() as i64).into(),
        "Int8Property" => Int8Property::new(r.num() as i8).into(),
        "IntProperty" => IntProperty::new(r.num() as i32).into(),
        "NameProperty" => match r.below(4) {
            0 => NameProperty::from(r.string().as_str()).into(),
            1 => NameProperty::from(r.ostring()).into(),
            2 => NameProperty { array_index: r.num() as u32, value: r.ostring() }.into(),
            _ => NameProperty::from(r.string()).into(),
        },
        "ObjectProperty" => match r.below(2) {
            0 => ObjectProperty::from(r.string().as_str()).into(),
            _ => ObjectProperty::new(r.string()).into(),
        },
        "StrProperty" => match r.below(3) {
            0 => StrProperty::from(r.string().as_str()).into(),
            1 => StrProperty::from(r.string()).into(),
            _ => StrProperty::new(r.ostring()).into(),
        },
        "UInt16Property" => UInt16Property::new(r.num() as u16).into(),
        "UInt32Property" => UInt32Property::new(r.num() as u32).into(),
        "UInt64Property" => UInt64Property::new(r.num() as u64).into(),
        "DelegateProperty" => DelegateProperty::new(Delegate::new(r.string(), r.string())).into(),
        "MulticastInlineDelegateProperty" | "MulticastSparseDelegateProperty" => {
            let n = r.len(4);
            let v = MulticastScriptDelegate::new((0..n).map(|_| Delegate::new(r.string(), r.string())).collect());
            if k == "MulticastInlineDelegateProperty" { MulticastInlineDelegateProperty::new(v).into() } else { MulticastSparseDelegateProperty::new(v).into() }
        }
        "FieldPathProperty" => {
            let n = r.len(4);
            FieldPathProperty::new(FieldPath::new((0..n).map(|_| r.string()).collect(), r.string())).into()
        }
        "TextProperty" => {
            let d = if depth == 0 { r.below(2) } else { r.below(3) };
            TextProperty::new(gen_text(r, e, d)).into()
        }
        "StructProperty" => {
            let mut ty = if r.1 == 3 { "MyStruct" } else { *r.pick(STRUCTS) }.to_string();
            let v = gen_struct(r, e, &ty, depth);
            if ty == "MyStruct" && r.chance(50) {
                ty = r.string();
                if STRUCTS.contains(&ty.as_str()) {
                    ty.push('x');
                }
            }
            StructProperty::new(Guid(r.guid()), ty, v).into()
        }
        "ArrayProperty" => {
            let k = elem_kind(r, depth, false);
            let n = r.len(6);
            let n = if r.1 == 3 { n.clamp(1, 2) } else if depth > 0 { n.min(12) } else { n };
            if k == "StructProperty" {
                let ty = if r.1 == 3 && r.chance(80) { "MyStruct" } else { *r.pick(STRUCTS) }.to_string();
                let structs: Vec<_> = (0..n).map(|_| gen_struct(r, e, &ty, depth)).collect();
                let f = r.string();
                let gd = Guid(r.guid());
                return if r.chance(50) {
                    ArrayProperty::Structs { field_name: f, type_name: ty, guid: gd, structs }.into()
                } else {
                    match ArrayProperty::new(k.to_string(), Some((f, ty, gd)), structs.into_iter().map(Property::from).collect()) {
                        Ok(a) => a.into(),
                        Err(_) => UnknownProperty::new("array refused".into(), vec![]).into(),
                    }
                };
            }
            let uk = if k == "UnknownProperty" { unknown_name(r) } else { k.to_string() };
            // the size of an element of unknown kind follows from the array's length
            let ulen = r.below(6);
            let mut props: Vec<_> = (0..n)
                .map(|_| if k == "UnknownProperty" { UnknownProperty::new(uk.clone(), (0..ulen).map(|_| r.next() as u8).collect()).into() } else { gen_elem(r, e, k, depth) })
                .collect();
            if n > 0 && r.chance(6) {
                let i = r.below(n);
                props[i] = gen_kid(r, e, 0, false);
            }
            if r.chance(25) {
                ArrayProperty::Properties { property_type: uk, properties: props }.into()
            } else {
                match ArrayProperty::new(uk, None, props) {
                    Ok(a) => a.into(),
                    Err(_) => UnknownProperty::new("array refused".into(), vec![]).into(),
                }
            }
        }
        "SetProperty" => {
            let k = elem_kind(r, depth, true);
            let n = r.len(6);
            let n = if r.1 == 3 { n.clamp(1, 2) } else if depth > 0 { n.min(12) } else { n };
            let uk = if k == "UnknownProperty" { unknown_name(r) } else { k.to_string() };
            let ulen = r.below(6);
            let props: Vec<_> = (0..n)
                .map(|_| if k == "UnknownProperty" { UnknownProperty::new(uk.clone(), (0..ulen).map(|_| r.next() as u8).collect()).into() } else { gen_elem(r, e, k, depth) })
                .collect();
            let fl = if r.chance(70) { 0 } else { r.num() as u32 };
            SetProperty::new(uk, fl, props).into()
        }
        "MapProperty" => {
            let kk = if r.1 == 3 && r.chance(30) { "StructProperty" } else if r.chance(70) { *r.pick(&["EnumProperty", "NameProperty", "StrProperty"]) } else { elem_kind(r, depth, true) };
            let vk = if r.1 == 3 && r.chance(70) { "StructProperty" } else if r.chance(60) { *r.pick(&["BoolProperty", "IntProperty", "StrProperty", "StructProperty", "FloatProperty"]) } else { elem_kind(r, depth, true) };
            let (kk, vk) = (if kk == "UnknownProperty" { "IntProperty" } else { kk }, if vk == "UnknownProperty" { "BoolProperty" } else { vk });
            let n = r.len(6);
            let n = if r.1 == 3 { n.clamp(1, 2) } else if depth > 0 { n.min(12) } else { n };
            let fl = if r.chance(70) { 0 } else { r.num() as u32 };
            let mut m = HashableIndexMap::new();
            if r.1 == 2 && n > 100 {
                // that many different keys, and small values
                let mut b: Vec<Property> = (0..12).map(|_| gen_elem(r, e, vk, depth)).collect();
                b.sort_by_key(|x| format!("{x:?}").len());
                let mut room = 15_000_000usize;
                for i in 0..n {
                    let a = gen_elem(r, e, kk, depth);
                    room = room.saturating_sub(format!("{a:?}{:?}", b[i % 4]).len());
                    if room == 0 {
                        break;
                    }
                    let a = match a {
                        Property::StrProperty(_) => StrProperty::new(Some(format!("{i:x}"))).into(),
                        Property::NameProperty(x) => NameProperty { array_index: x.array_index, value: Some(format!("{i:x}")) }.into(),
                        Property::EnumProperty(x) => EnumProperty::new(x.enum_type, format!("{i:x}")).into(),
                        Property::IntProperty(_) => IntProperty::new(i as i32).into(),
                        a => a,
                    };
                    m.insert(a, b[i % 4].clone());
                }
            } else {
                for _ in 0..n {
                    let a = gen_elem(r, e, kk, depth);
                    let b = gen_elem(r, e, vk, depth);
                    m.insert(a, b);
                }
            }
            if n > 0 && r.chance(5) {
                m.insert(gen_kid(r, e, 0, false), gen_kid(r, e, 0, false));
            }
            if r.chance(25) {
                MapProperty::Properties { key_type: kk.into(), value_type: vk.into(), allocation_flags: fl, value: m }.into()
            } else {
                MapProperty::new(kk.into(), vk.into(), fl, m).into()
            }
        }
        _ => {
            let n = r.len(12);
            UnknownProperty::new(unknown_name(r), (0..n).map(|_| r.next() as u8).collect()).into()
        }
    }
}

fn elem_kind(r: &mut Rng, depth: usize, set: bool) -> &'static str {
    if r.chance(if r.1 == 3 { 75 } else { 18 }) {
        return "StructProperty";
    }
    let k = if depth == 0 { KINDS[r.below(LEAVES + 1)] } else { KINDS[r.below(KINDS.len())] };
    let _ = set;
    k
}

pub fn gen_header(r: &mut Rng, e: &Env) -> GvasHeader {
    let engine_version = FEngineVersion::new(r.num() as u16, r.num() as u16, r.num() as u16, r.num() as u32, r.string());
    let mut custom_versions = HashableIndexMap::new();
    for (k, v) in &e.versions {
        custom_versions.insert(Guid(*k), *v);
    }
    let package_file_version = if r.chance(85) { 0x205 + r.below(9) as u32 } else { *r.pick(&[0x204, 0x20e, 0, 0x300]) };
    let custom_version_format = if r.chance(95) { 3 } else { r.num() as u32 };
    let save_game_class_name = r.string();
    if r.chance(50) {
        GvasHeader::Version2 { package_file_version, engine_version, custom_version_format, custom_versions, save_game_class_name }
    } else {
        let package_file_version_ue5 = if r.chance(85) { 1000 + r.below(10) as u32 } else { *r.pick(&[999, 1010, 0, 1013]) };
        GvasHeader::Version3 { package_file_version, package_file_version_ue5, engine_version, custom_version_format, custom_versions, save_game_class_name }
    }
}

pub fn gen_file(r: &mut Rng, e: &Env, depth: usize, one: Option<&str>) -> GvasFile {
    let header = match gen_header(r, e) {
        GvasHeader::Version2 { engine_version, custom_versions, save_game_class_name, .. } => GvasHeader::Version2 {
            package_file_version: 0x205 + r.below(9) as u32,
            engine_version,
            custom_version_format: 3,
            custom_versions,
            save_game_class_name,
        },
        GvasHeader::Version3 { engine_version, custom_versions, save_game_class_name, .. } => GvasHeader::Version3 {
            package_file_version: 0x205 + r.below(9) as u32,
            package_file_version_ue5: 1000 + r.below(10) as u32,
            engine_version,
            custom_version_format: 3,
            custom_versions,
            save_game_class_name,
        },
    };
    let mut properties = HashableIndexMap::new();
    match one {
        Some(k) => {
            properties.insert(r.name(), gen_prop(r, e, k, depth, true));
        }
        None => {
            if r.1 == 1 && r.chance(30) {
                let n = r.len(0);
                for i in 0..n {
                    properties.insert(format!("p{i:x}"), IntProperty::new(i as i32).into());
                }
            }
            let n = r.len(5).min(30);
            for _ in 0..n {
                properties.insert(r.name(), gen_kid(r, e, depth, true));
            }
        }
    }
    let deserialized_game_version = match r.below(5) {
        0 => DeserializedGameVersion::Palworld(PalworldCompressionType::None),
        1 => DeserializedGameVersion::Palworld(PalworldCompressionType::Zlib),
        2 => DeserializedGameVersion::Palworld(PalworldCompressionType::ZlibTwice),
        _ => DeserializedGameVersion::Default,
    };
    GvasFile { deserialized_game_version, header, properties }
}

// ------------------------------------------------------------------ running
fn err(e: &Error) -> R {
    R::Err(format!("{e:?}{}", shows(e)).replace("gvas_golden::", "gvas::"))
}

/// Whether the error's text shows what the error carries, in that order.
fn shows(e: &Error) -> &'static str {
    let num = |v: i128| vec![v.to_string(), format!("{v:#x}"), format!("{v:#X}"), format!("{v:x}"), format!("{v:X}")];
    let txt = |v: &str| vec![v.to_string()];
    use DeserializeError as D;
    let want: Vec<Vec<String>> = match e {
        Error::Deserialize(d) => match d {
            D::InvalidHeader(m) => vec![txt(m)],
            D::InvalidValueSize(a, b, p) => vec![num(*a as i128), num(*b as i128), num(*p as i128)],
            D::InvalidString(n, p) => vec![num(*n as i128), num(*p as i128)],
            D::InvalidStringTerminator(n, p) => vec![num(*n as i128), num(*p as i128)],
            D::InvalidBoolean(n, p) => vec![num(*n as i128), num(*p as i128)],
            D::MissingHint(a, b, p) => vec![txt(a), txt(b), num(*p as i128)],
            D::MissingArgument(a, p) => vec![txt(a), num(*p as i128)],
            D::InvalidProperty(a, p) => vec![txt(a), num(*p as i128)],
            D::InvalidEnumValue(a, v, p) => vec![txt(a), num(*v as i128), num(*p as i128)],
            D::InvalidArrayIndex(v, p) => vec![num(*v as i128), num(*p as i128)],
            D::InvalidTerminator(v, p) => vec![num(*v as i128), num(*p as i128)],
            D::FromUtf16Error(_, p) => vec![num(*p as i128)],
            D::FromUtf8Error(_, p) => vec![num(*p as i128)],
        },
        Error::Serialize(SerializeError::InvalidValue(m)) => vec![txt(m)],
        Error::Serialize(SerializeError::StructMissingField(a, b)) => vec![txt(a), txt(b)],
        Error::Io(_) => vec![],
    };
    let text = e.to_string();
    let mut from = 0;
    for forms in want {
        // the first place after the last one where the value stands by itself
        let found = forms.iter().filter(|w| !w.is_empty()).flat_map(|w| {
            text[from..].match_indices(w.as_str()).map(|(i, _)| (from + i, from + i + w.len())).collect::<Vec<_>>()
        }).filter(|(i, j)| {
            let word = |c: char| c.is_alphanumeric() || c == '-';
            !text[..*i].chars().next_back().is_some_and(word) && !text[*j..].chars().next().is_some_and(char::is_alphanumeric)
        }).min();
        match found {
            Some((_, j)) => from = j,
            None if forms.iter().all(|w| w.is_empty()) => {}
            None => return " (not all of which its text shows)",
        }
    }
    ""
}

pub struct Opt {
    hints: HashMap<String, String>,
    stack: Vec<String>,
    versions: HashableIndexMap<Guid, u32>,
}
impl Opt {
    pub fn new(e: &Env) -> Self {
        let mut versions = HashableIndexMap::new();
        for (k, v) in &e.versions {
            versions.insert(Guid(*k), *v);
        }
        Opt { hints: e.hints.iter().cloned().collect(), stack: e.stack.clone(), versions }
    }
    pub fn get(&mut self) -> PropertyOptions<'_> {
        PropertyOptions { hints: &self.hints, properties_stack: &mut self.stack, custom_versions: &self.versions }
    }
}

fn write_obs(op: &'static str, e: &Env, sink: &mut Sink, f: impl FnOnce(&mut Sink, &mut PropertyOptions) -> Result<usize, Error>) -> Obs {
    let mut o = Opt::new(e);
    let res = catch(|| f(sink, &mut o.get()));
    let mut ob = match res {
        Ok(Ok(n)) => {
            let mut b = Obs::new(op, R::Ok(String::new()));
            b.n = Some(n as u64);
            if sink.out.len() as u64 != n as u64 {
                b.flag = "count";
            }
            b
        }
        Ok(Err(er)) => Obs::new(op, err(&er)),
        Err(p) => Obs::new(op, R::Panic(p)),
    };
    ob.bytes = std::mem::take(&mut sink.out);
    ob.stack = o.stack.join("\u{1}");
    ob
}

/// Writes in every way: plain, header or body, short writes, failing after some bytes.
pub fn write_all_ways(out: &mut Vec<Obs>, e: &Env, p: &Property, salt: u64) {
    let big = usize::MAX;
    let h = write_obs("write_header", e, &mut Sink::new(big, big, false), |s, o| p.write(s, true, o));
    let b = write_obs("write_body", e, &mut Sink::new(big, big, false), |s, o| p.write_body(s, o));
    let b2 = write_obs("write_noheader", e, &mut Sink::new(big, big, false), |s, o| p.write(s, false, o));
    let mut r = Rng::new(salt);
    for (name_s, name_f, full) in [("short_header", "fail_header", &h), ("short_body", "fail_body", &b)] {
        let hd = name_s == "short_header";
        let k = 1 + r.below(5);
        let i = r.chance(30);
        let mut s = write_obs(name_s, e, &mut Sink::new(k, big, i), |s, o| if hd { p.write(s, true, o) } else { p.write_body(s, o) });
        if matches!((&s.r, &full.r), (R::Ok(_), R::Ok(_))) && s.bytes != full.bytes || s.r.is_ok() != full.r.is_ok() {
            s.flag = "short";
        }
        out.push(s);
        if full.r.is_ok() && !full.bytes.is_empty() {
            let left = r.below(full.bytes.len());
            let mut s = write_obs(name_f, e, &mut Sink::new(big, left, false), |s, o| if hd { p.write(s, true, o) } else { p.write_body(s, o) });
            if !matches!(&s.r, R::Err(m) if refused(m)) {
                s.flag = "fail";
            }
            out.push(s);
            let mut k = Sink::new(big, r.below(full.bytes.len()), false);
            k.once = true;
            let name = if hd { "once_header" } else { "once_body" };
            let mut s = write_obs(name, e, &mut k, |s, o| if hd { p.write(s, true, o) } else { p.write_body(s, o) });
            if !matches!(&s.r, R::Err(m) if refused(m)) {
                s.flag = "fail";
            }
            out.push(s);
        }
    }
    out.push(h);
    out.push(b);
    out.push(b2);
}

trait IsOk {
    fn is_ok(&self) -> bool;
}
impl IsOk for R {
    fn is_ok(&self) -> bool {
        matches!(self, R::Ok(_))
    }
}

/// A stream that does not start at zero when it is handed out in pieces.
fn offset(bytes: &[u8], chop: usize) -> (Vec<u8>, u64) {
    if chop == usize::MAX {
        return (bytes.to_vec(), 0);
    }
    let mut v = vec![5, 0, 0, 0, 78, 111, 110];
    v.extend_from_slice(bytes);
    (v, 7)
}

/// Reads a property.
pub fn read_prop(op: &'static str, e: &Env, kind: &str, header: bool, sugg: Option<u32>, bytes: &[u8], chop: usize) -> (Obs, Option<Property>) {
    let mut o = Opt::new(e);
    let (room, off) = offset(bytes, chop);
    let mut src = Source { s: Cursor::new(&room), k: chop };
    src.s.set_position(off);
    let res = catch(|| Property::new(&mut src, kind, header, &mut o.get(), sugg));
    let pos = src.s.position().wrapping_sub(off);
    let (mut ob, v) = match res {
        Ok(Ok(p)) => (Obs::new(op, R::Ok(format!("{p:?}"))), Some(p)),
        Ok(Err(er)) => (Obs::new(op, err(&er)), None),
        Err(p) => (Obs::new(op, R::Panic(p)), None),
    };
    // where a failed read stops is not part of any promise
    ob.pos = if v.is_some() { pos } else { 0 };
    ob.stack = if v.is_some() { o.stack.join("\u{1}") } else { String::new() };
    (ob, v)
}

fn read_written_again(out: &mut Vec<Obs>, e: &Env, kind: &str, header: bool, sugg: Option<u32>, p: &Property) {
    let mut w = write_obs("again_write", e, &mut Sink::new(usize::MAX, usize::MAX, false), |s, o| if header { p.write(s, true, o) } else { p.write(s, false, o) });
    if !w.r.is_ok() {
        w.flag = "again";
        out.push(w);
        return;
    }
    let all = w.bytes.clone();
    let bytes = strip_kind(&all, header);
    out.push(w);
    let (mut ob, v) = read_prop("again_read", e, kind, header, sugg, bytes, usize::MAX);
    if v.as_ref() != Some(p) {
        ob.flag = "again";
    }
    out.push(ob);
}

/// The kind name in front of a written property is read by its container.
pub fn strip_kind(b: &[u8], header: bool) -> &[u8] {
    if !header || b.len() < 4 {
        return b;
    }
    let n = i32::from_le_bytes(b[..4].try_into().unwrap());
    let n = if n < 0 { (n as i64).unsigned_abs() as usize * 2 } else { n as usize };
    b.get(4 + n..).unwrap_or(&[])
}

/// The name a property is read back under.
pub fn kind_of(p: &Property) -> String {
    match p {
        Property::UnknownProperty(u) => format!("{u:?}")
            .split("property_name: ")
            .nth(1)
            .and_then(|t| crate::first_string(t))
            .unwrap_or_default(),
        _ => kind_name(p).to_string(),
    }
}
macro_rules! kinds {
    ($($k:ident)*) => {
        fn kind_name(p: &Property) -> &'static str {
            match p { $(Property::$k(_) => stringify!($k),)* }
        }
        fn conversions(p: &Property) -> String {
            let mut s = String::new();
            $(
                let t: Result<$k, _> = p.clone().try_into();
                match t { Ok(x) => { s.push('1'); s.push_str(if Property::$k(x) == *p { "=" } else { "!" }); } Err(_) => s.push('0') }
            )*
            let back = match p.clone() { $(Property::$k(x) => Property::from(x),)* };
            s.push_str(if back == *p { " same" } else { " DIFFERENT" });
            s
        }
    };
}
kinds!(ArrayProperty BoolProperty ByteProperty DoubleProperty EnumProperty FloatProperty Int16Property Int64Property Int8Property IntProperty
    MapProperty NameProperty ObjectProperty DelegateProperty MulticastInlineDelegateProperty MulticastSparseDelegateProperty FieldPathProperty
    SetProperty StrProperty StructProperty StructPropertyValue TextProperty UInt16Property UInt32Property UInt64Property UnknownProperty);

macro_rules! getters {
    ($p:ident, $s:ident, $($g:ident $m:ident)*) => { $(
        let before = $p.clone();
        match $p.$g() { Some(x) => { $s.push_str(stringify!($g)); $s.push_str(&format!("={x:?};")); } None => {} }
        let mut q = $p.clone();
        match q.$m() { Some(x) => { $s.push_str(stringify!($m)); $s.push_str(&format!("={x:?};")); } None => {} }
        if q != before { $s.push_str("CHANGED;"); }
    )* };
}
pub fn accessors(p: &Property) -> Obs {
    let r = catch(|| {
        let mut s = conversions(p);
        getters!(p, s, get_array get_array_mut get_enum get_enum_mut get_bool get_bool_mut get_byte get_byte_mut get_f64 get_f64_mut get_f32 get_f32_mut
            get_i16 get_i16_mut get_i64 get_i64_mut get_i8 get_i8_mut get_int get_int_mut get_u16 get_u16_mut get_u32 get_u32_mut get_u64 get_u64_mut
            get_map get_map_mut get_name get_name_mut get_object_ref get_object_ref_mut get_delegate get_delegate_mut
            get_multicast_inline_delegate get_multicast_inline_delegate_mut get_multicast_sparse_delegate get_multicast_sparse_delegate_mut
            get_field_path get_field_path_mut get_set get_set_mut get_str get_str_mut get_struct get_struct_mut get_text get_text_mut get_unknown get_unknown_mut);
        let v = match p {
            Property::StructProperty(s) => Some(&s.value),
            Property::StructPropertyValue(v) => Some(v),
            _ => None,
        };
        if let Some(v) = v {
            getters!(v, s, get_vector_f get_vector_f_mut get_vector_d get_vector_d_mut get_rotator_f get_rotator_f_mut get_rotator_d get_rotator_d_mut
                get_quat_f get_quat_f_mut get_quat_d get_quat_d_mut get_date_time get_date_time_mut get_int_point get_int_point_mut get_guid get_guid_mut
                get_custom_struct get_custom_struct_mut);
        }
        s
    });
    match r {
        Ok(s) => Obs::new("accessors", R::Ok(s)),
        Err(p) => Obs::new("accessors", R::Panic(p)),
    }
}

/// The same property with the entries of every map in the opposite order: equal, so it must hash alike.
fn turned(p: &Property) -> Property {
    let mut p = p.clone();
    match &mut p {
        Property::MapProperty(m) => match m {
            MapProperty::EnumBool { enum_bools: x } => x.reverse(),
            MapProperty::EnumInt { enum_ints: x } => x.reverse(),
            MapProperty::EnumProperty { enum_props: x, .. } => x.reverse(),
            MapProperty::NameBool { name_bools: x } => x.reverse(),
            MapProperty::NameInt { name_ints: x } => x.reverse(),
            MapProperty::NameProperty { name_props: x, .. } => x.reverse(),
            MapProperty::StrBool { str_bools: x } => x.reverse(),
            MapProperty::StrInt { str_ints: x } => x.reverse(),
            MapProperty::StrProperty { str_props: x, .. } => x.reverse(),
            MapProperty::StrStr { str_strs: x } => x.reverse(),
            MapProperty::Properties { value: x, .. } => x.reverse(),
        },
        Property::StructProperty(StructProperty { value: StructPropertyValue::CustomStruct(x), .. })
        | Property::StructPropertyValue(StructPropertyValue::CustomStruct(x)) => {
            x.reverse();
            for v in x.values_mut() {
                for q in v {
                    *q = turned(q);
                }
            }
        }
        _ => {}
    }
    p
}
/// Equal properties are interchangeable as keys.
pub fn hashes(p: &Property) -> Obs {
    use std::hash::{DefaultHasher, Hash, Hasher};
    let code = |x: &Property| {
        let mut h = DefaultHasher::new();
        x.hash(&mut h);
        h.finish()
    };
    let r = catch(|| {
        let q = turned(p);
        let mut m = HashableIndexMap::from([(p.clone(), 1), (q.clone(), 2), (p.clone(), 3)]);
        let n = m.len();
        let found = (m.get(p).copied(), m.get(&q).copied());
        let seen: Vec<i32> = (&m).into_iter().map(|x| *x.1).collect();
        for (_, v) in &mut m {
            *v += 1;
        }
        let then: Vec<i32> = m.values().copied().collect();
        let e: HashableIndexMap<i32, i32> = Default::default();
        format!("equal {} alike {} {n} {found:?} {seen:?} {then:?} {}", *p == q, code(p) == code(&q) && code(p) == code(&p.clone()), e.len())
    });
    match r {
        Ok(s) => Obs::new("hashes", R::Ok(s)),
        Err(p) => Obs::new("hashes", R::Panic(p)),
    }
}

/// Everything about one generated property.
pub fn value_case(seed: u64, e: &Env, kind: &str, depth: usize, header: bool) -> Vec<Obs> {
    let mut out = vec![];
    let mut r = Rng::new(seed);
    let p = match catch(|| if header { gen_prop(&mut r, e, kind, depth, true) } else { gen_elem(&mut r, e, kind, depth) }) {
        Ok(p) => p,
        Err(m) => return vec![Obs::new("build", R::Panic(m))],
    };
    out.push(Obs::new("build", R::Ok(format!("{p:?}"))));
    out.push(accessors(&p));
    out.push(hashes(&p));
    write_all_ways(&mut out, e, &p, seed);
    let k = kind_of(&p);
    let k = if k == "StructPropertyValue" { "StructProperty".to_string() } else { k };
    for (w, rd, hd) in [("write_header", "read_header", true), ("write_body", "read_body", false)] {
        let Some(b) = out.iter().find(|o| o.op == w && o.r.is_ok()).map(|o| o.bytes.clone()) else { continue };
        let b = strip_kind(&b, hd);
        let (mut ob, v) = read_prop(rd, e, &k, hd, Some(b.len() as u32), b, usize::MAX);
        if v.as_ref() != Some(&p) || ob.pos != b.len() as u64 {
            ob.flag = "roundtrip";
        }
        out.push(ob);
    }
    // declared size against the value
    if let (Some(h), Some(b)) = (out.iter().find(|o| o.op == "write_header" && o.r.is_ok()).cloned(), out.iter().find(|o| o.op == "write_body" && o.r.is_ok()).cloned()) {
        let t = strip_kind(&h.bytes, true);
        if t.len() >= 4 && k != "BoolProperty" {
            let d = u32::from_le_bytes(t[..4].try_into().unwrap());
            let mut ob = Obs::new("declared", R::Ok(format!("{d}")));
            if d as usize != b.bytes.len() || !h.bytes.ends_with(&b.bytes) {
                ob.flag = "declared";
            }
            out.push(ob);
        }
    }
    out
}

/// Reading given bytes as a property.
pub fn read_case(e: &Env, kind: &str, header: bool, sugg: Option<u32>, bytes: &[u8]) -> Vec<Obs> {
    let mut out = vec![];
    let (ob, v) = read_prop("read", e, kind, header, sugg, bytes, usize::MAX);
    let ok = ob.clone();
    out.push(ob);
    let (mut ob, v2) = read_prop("read_chopped", e, kind, header, sugg, bytes, 1 + bytes.len() % 3);
    if v != v2 || ob.r.is_ok() != ok.r.is_ok() || ob.pos != ok.pos {
        ob.flag = "chopped";
    }
    out.push(ob);
    if let Some(p) = v {
        read_written_again(&mut out, e, kind, header, sugg, &p);
    }
    out
}

fn gv(d: DeserializedGameVersion) -> GameVersion {
    match d {
        DeserializedGameVersion::Default => GameVersion::Default,
        DeserializedGameVersion::Palworld(_) => GameVersion::Palworld,
    }
}

fn write_file(op: &'static str, f: &GvasFile, k: usize, left: usize) -> Obs {
    let mut s = SeekSink { once: false, room: usize::MAX, nth: 0, s: Cursor::new(vec![]), k, left };
    if k != usize::MAX {
        // in the middle of something
        s.s = Cursor::new(vec![9; 16]);
        s.s.set_position(6);
    }
    let mut ob = match catch(|| f.write(&mut s)) {
        Ok(Ok(())) => Obs::new(op, R::Ok(String::new())),
        Ok(Err(er)) => Obs::new(op, err(&er)),
        Err(p) => Obs::new(op, R::Panic(p)),
    };
    if ob.r.is_ok() {
        ob.pos = s.s.position();
    }
    ob.bytes = s.s.into_inner();
    if k != usize::MAX {
        if ob.bytes[..6] != [9; 6] {
            ob.flag = "short";
        }
        ob.bytes.drain(..6);
    }
    ob
}

pub fn read_file(op: &'static str, v: GameVersion, hints: &[(String, String)], bytes: &[u8], chop: usize) -> (Obs, Option<GvasFile>) {
    let h: HashMap<String, String> = hints.iter().cloned().collect();
    let (room, off) = offset(bytes, chop);
    let mut src = Source { s: Cursor::new(&room), k: chop };
    src.s.set_position(off);
    let res = catch(|| if hints.is_empty() { GvasFile::read(&mut src, v) } else { GvasFile::read_with_hints(&mut src, v, &h) });
    match res {
        Ok(Ok(f)) => (Obs::new(op, R::Ok(format!("{f:?}"))), Some(f)),
        Ok(Err(er)) => (Obs::new(op, err(&er)), None),
        Err(p) => (Obs::new(op, R::Panic(p)), None),
    }
}

pub fn file_case(seed: u64, e: &Env, depth: usize, one: Option<&str>) -> Vec<Obs> {
    let mut out = vec![];
    let mut r = Rng::new(seed);
    let f = match catch(|| gen_file(&mut r, e, depth, one)) {
        Ok(p) => p,
        Err(m) => return vec![Obs::new("build", R::Panic(m))],
    };
    out.push(Obs::new("build", R::Ok(format!("{f:?}"))));
    let w = write_file("file_write", &f, usize::MAX, usize::MAX);
    let mut s = write_file("file_short", &f, 1 + r.below(5), usize::MAX);
    if s.r != w.r || w.r.is_ok() && s.bytes != w.bytes {
        s.flag = "short";
    }
    out.push(s);
    if w.r.is_ok() && !w.bytes.is_empty() {
        let mut s = write_file("file_fail", &f, usize::MAX, r.below(w.bytes.len()));
        if !matches!(&s.r, R::Err(m) if refused(m)) {
            s.flag = "fail";
        }
        out.push(s);
        for (op, once, left, room, nth) in [
            ("file_once", true, r.below(w.bytes.len()), usize::MAX, 0),
            ("file_room", false, usize::MAX, r.below(w.bytes.len()), 0),
            ("file_seek", false, usize::MAX, usize::MAX, 1 + r.below(4)),
        ] {
            let mut s = SeekSink { once, room, nth, s: Cursor::new(vec![]), k: usize::MAX, left };
            let mut ob = match catch(|| f.write(&mut s)) {
                Ok(Ok(())) => Obs::new(op, R::Ok(String::new())),
                Ok(Err(er)) => Obs::new(op, err(&er)),
                Err(p) => Obs::new(op, R::Panic(p)),
            };
            // fewer uses of seek than that, or a failure that was not passed on
            let failed = nth == 0 || s.nth > usize::MAX / 2 || s.nth == 0;
            if failed && !matches!(&ob.r, R::Err(m) if refused(m)) {
                ob.flag = "fail";
            }
            if nth > 0 && ob.flag.is_empty() {
                // how often the writer asks is its own business
                ob.r = R::Ok(String::new());
            }
            out.push(ob);
        }
        let (mut ob, v) = read_file("file_read", gv(f.deserialized_game_version), &e.hints, &w.bytes, usize::MAX);
        if v.as_ref() != Some(&f) {
            ob.flag = "roundtrip";
        }
        out.push(ob);
    }
    let mut w = w;
    w.n = Some(match f.deserialized_game_version {
        DeserializedGameVersion::Default => 0,
        DeserializedGameVersion::Palworld(_) => 1,
    });
    out.push(w);
    out
}

pub fn read_file_case(pal: bool, hints: &[(String, String)], bytes: &[u8]) -> Vec<Obs> {
    let v = if pal { GameVersion::Palworld } else { GameVersion::Default };
    let mut out = vec![];
    let (ob, f) = read_file("file_read", v, hints, bytes, usize::MAX);
    let r0 = ob.r.clone();
    out.push(ob);
    let (mut ob, _) = read_file("file_chopped", v, hints, bytes, 1 + bytes.len() % 4);
    if ob.r.is_ok() != r0.is_ok() || r0.is_ok() && ob.r != r0 {
        ob.flag = "chopped";
    }
    out.push(ob);
    if let Some(f) = f {
        let mut w = write_file("file_again_write", &f, usize::MAX, usize::MAX);
        if !w.r.is_ok() {
            w.flag = "again";
            out.push(w);
        } else {
            let (mut ob, g2) = read_file("file_again_read", gv(f.deserialized_game_version), hints, &w.bytes, usize::MAX);
            if g2.as_ref() != Some(&f) {
                ob.flag = "again";
            }
            out.push(w);
            out.push(ob);
        }
    }
    out
}

/// Where the header of an uncompressed file ends.
pub fn header_len(bytes: &[u8]) -> Option<usize> {
    let mut c = Cursor::new(bytes);
    GvasHeader::read(&mut c).ok().map(|_| c.position() as usize)
}

pub fn header_case(seed: u64, e: &Env) -> Vec<Obs> {
    let mut out = vec![];
    let mut r = Rng::new(seed);
    let mut h = gen_header(&mut r, e);
    let mut versions = Opt::new(e).versions.len();
    if seed >> 56 == BIG && r.chance(40) {
        r.1 = 1;
        let n = r.len(0);
        versions += n;
        let (GvasHeader::Version2 { custom_versions, .. } | GvasHeader::Version3 { custom_versions, .. }) = &mut h;
        for i in 0..n {
            let mut g = [0xEE; 16];
            g[..4].copy_from_slice(&(i as u32).to_le_bytes());
            custom_versions.insert(Guid(g), r.num() as u32);
        }
    }
    let big = usize::MAX;
    let w = write_obs("head_write", e, &mut Sink::new(big, big, false), |s, _| h.write(s));
    let mut s = write_obs("head_short", e, &mut Sink::new(1 + r.below(4), big, false), |s, _| h.write(s));
    if s.r != w.r || s.bytes != w.bytes {
        s.flag = "short";
    }
    out.push(s);
    if w.r.is_ok() {
        let left = r.below(w.bytes.len());
        let mut s = write_obs("head_fail", e, &mut Sink::new(big, left, false), |s, _| h.write(s));
        if !matches!(&s.r, R::Err(m) if refused(m)) {
            s.flag = "fail";
        }
        out.push(s);
    }
    let mut cv = Obs::new("head_versions", R::Ok(format!("{:?}", h.get_custom_versions())));
    if h.get_custom_versions().len() != versions {
        cv.flag = "versions";
    }
    out.push(cv);
    out.extend(read_header_case(&w.bytes));
    out.push(w);
    out
}
pub fn read_header_case(bytes: &[u8]) -> Vec<Obs> {
    let mut out = vec![];
    let mut src = Source { s: Cursor::new(bytes), k: usize::MAX };
    let res = catch(|| GvasHeader::read(&mut src));
    let pos = src.s.stream_position().unwrap_or(0);
    let ob = match res {
        Ok(Ok(h)) => {
            let mut o = Obs::new("head_read", R::Ok(format!("{h:?}")));
            o.pos = pos;
            let e = Env::default();
            let w = write_obs("head_rewrite", &e, &mut Sink::new(usize::MAX, usize::MAX, false), |s, _| h.write(s));
            out.push(w);
            o
        }
        Ok(Err(er)) => Obs::new("head_read", err(&er)),
        Err(p) => Obs::new("head_read", R::Panic(p)),
    };
    out.push(ob);
    out
}

/// Strings, booleans, GUIDs on their own.
pub fn prim_write_case(seed: u64) -> Vec<Obs> {
    let mut out = vec![];
    let mut r = Rng::new(seed);
    let e = Env::default();
    let big = usize::MAX;
    let s = r.string();
    let o = r.ostring();
    let k = 1 + r.below(4);
    let w = write_obs("write_string", &e, &mut Sink::new(big, big, false), |w, _| w.write_string(&s));
    let mut sh = write_obs("short_string", &e, &mut Sink::new(k, big, r.chance(30)), |w, _| w.write_string(&s));
    if sh.r != w.r || sh.bytes != w.bytes {
        sh.flag = "short";
    }
    out.push(sh);
    if w.r.is_ok() && !w.bytes.is_empty() {
        let mut f = write_obs("fail_string", &e, &mut Sink::new(big, r.below(w.bytes.len()), false), |w, _| w.write_string(&s));
        if !matches!(&f.r, R::Err(m) if refused(m)) {
            f.flag = "fail";
        }
        out.push(f);
        let mut c = Cursor::new(&w.bytes[..]);
        let back = catch(|| c.read_string());
        let mut ob = Obs::new("string_back", R::Ok(format!("{:?}", back.as_ref().map(|x| x.as_ref().ok()))));
        if !matches!(&back, Ok(Ok(b)) if *b == s) || c.position() != w.bytes.len() as u64 {
            ob.flag = "string";
        }
        out.push(ob);
    }
    out.push(w);
    let w = write_obs("write_fstring", &e, &mut Sink::new(big, big, false), |w, _| w.write_fstring(o.as_deref()));
    if w.r.is_ok() {
        let mut c = Cursor::new(&w.bytes[..]);
        let back = catch(|| c.read_fstring());
        let mut ob = Obs::new("fstring_back", R::Ok(format!("{:?}", back.as_ref().map(|x| x.as_ref().ok()))));
        if !matches!(&back, Ok(Ok(b)) if *b == o) || c.position() != w.bytes.len() as u64 {
            ob.flag = "string";
        }
        out.push(ob);
    }
    out.push(w);
    let gd = Guid(r.guid());
    let b = r.chance(50);
    let mode = *r.pick(&[RoundingMode::HalfToEven, RoundingMode::FromZero, RoundingMode::ToPositiveInfinity]);
    out.push(write_obs("write_guid", &e, &mut Sink::new(k, big, false), |w, _| w.write_guid(&gd).map(|_| 16)));
    out.push(write_obs("write_bool", &e, &mut Sink::new(k, big, false), |w, _| w.write_bool(b).map(|_| 1)));
    out.push(write_obs("write_b32", &e, &mut Sink::new(k, big, false), |w, _| w.write_b32(b).map(|_| 4)));
    out.push(write_obs("write_enum", &e, &mut Sink::new(k, big, false), |w, _| w.write_enum(mode).map(|_| 1)));
    for (nm, left) in [("fail_guid", 15), ("fail_bool", 0), ("fail_b32", 3), ("fail_enum", 0)] {
        let mut f = write_obs(nm, &e, &mut Sink::new(big, left, false), |w, _| match nm {
            "fail_guid" => w.write_guid(&gd).map(|_| 16),
            "fail_bool" => w.write_bool(b).map(|_| 1),
            "fail_b32" => w.write_b32(b).map(|_| 4),
            _ => w.write_enum(mode).map(|_| 1),
        });
        if !matches!(&f.r, R::Err(m) if refused(m)) {
            f.flag = "fail";
        }
        out.push(f);
    }
    out
}

pub fn prim_read_case(bytes: &[u8]) -> Vec<Obs> {
    let mut out = vec![];
    macro_rules! rd {
        ($op:expr, $m:ident, $t:ty) => {{
            for chop in [usize::MAX, 1 + bytes.len() % 3] {
                let mut src = Source { s: Cursor::new(bytes), k: chop };
                let res: Result<Result<$t, Error>, String> = catch(|| src.$m());
                let mut ob = match res {
                    Ok(Ok(v)) => {
                        let mut o = Obs::new($op, R::Ok(format!("{v:?}")));
                        o.pos = src.s.stream_position().unwrap_or(0);
                        o
                    }
                    Ok(Err(er)) => Obs::new($op, err(&er)),
                    Err(p) => Obs::new($op, R::Panic(p)),
                };
                ob.stack = String::new();
                out.push(ob);
            }
        }};
    }
    rd!("read_string", read_string, String);
    rd!("read_fstring", read_fstring, Option<String>);
    rd!("read_guid", read_guid, Guid);
    rd!("read_bool", read_bool, bool);
    rd!("read_b32", read_b32, bool);
    rd!("read_enum_rounding", read_enum, RoundingMode);
    rd!("read_enum_style", read_enum, DateTimeStyle);
    rd!("read_enum_transform", read_enum, TransformType);
    rd!("read_enum_history", read_enum, TextHistoryType);
    rd!("read_enum_pal", read_enum, PalworldCompressionType);
    out
}

pub fn guid_case(seed: u64) -> Vec<Obs> {
    let mut r = Rng::new(seed);
    let mut out = vec![];
    let gb = r.guid();
    let s = match r.below(8) {
        0 => r.string(),
        1 => {
            let mut h = hex(&gb).into_bytes();
            let i = r.below(32);
            h[i] = *r.pick(b"gGzZ +-/:@[`{}\x00_");
            String::from_utf8(h).unwrap()
        }
        2 => hex(&gb).to_uppercase(),
        3 => format!("{{{}}}", hex(&gb)),
        4 => {
            let mut h = hex(&gb);
            for _ in 0..r.below(5) {
                let i = r.below(h.len() + 1);
                if !h.is_char_boundary(i) {
                    continue;
                }
                h.insert(i, *r.pick(&['-', ' ', '{', '}', '0', 'é']));
            }
            h
        }
        5 => {
            let h = hex(&gb);
            h[..r.below(33)].to_string()
        }
        6 => r.pick(&["0", "", "{}", "{0}", "-", "00", "{", "}", "0-0", " 0 ", "\u{0}", "٠"]).to_string(),
        _ => {
            // 32 bytes that are not 32 characters
            let mut t = String::new();
            while t.len() < 32 {
                t.push(*r.pick(&['é', 'a', '0', '日', 'F']));
            }
            t
        }
    };
    let gd = Guid(gb);
    let res = catch(|| {
        let mut o = String::new();
        let mut flag = "";
        let w: [u32; 4] = gd.to_u32();
        let w2: [u32; 4] = gd.into();
        let n: u128 = gd.to_u128();
        let n2: u128 = gd.into();
        o.push_str(&format!("{w:?} {w2:?} {n} {n2} {:?} {} {gd}", gd.to_u8(), gd.is_zero()));
        if Guid::from_u32(w) != gd || Guid::from(w) != gd || Guid::from_u128(n) != gd || Guid::from(n) != gd || Guid::from_u8(gd.to_u8()) != gd || w != w2 || n != n2 {
            flag = "guid";
        }
        if gd.to_string().parse::<Guid>().ok() != Some(gd) || gd.to_string().to_lowercase().parse::<Guid>().ok() != Some(gd) {
            flag = "guid";
        }
        if gd.is_zero() != (gb == [0; 16]) {
            flag = "guid";
        }
        (o, flag)
    });
    out.push(match res {
        Ok((o, f)) => {
            let mut b = Obs::new("guid", R::Ok(o));
            b.flag = f;
            b
        }
        Err(p) => Obs::new("guid", R::Panic(p)),
    });
    let res = catch(|| s.parse::<Guid>().ok().map(|x| x.0));
    out.push(match res {
        Ok(Some(x)) => Obs::new("guid_parse", R::Ok(format!("{s:?} -> {x:?}"))),
        Ok(None) => Obs::new("guid_parse", R::Err(format!("{s:?}"))),
        Err(p) => Obs::new("guid_parse", R::Panic(format!("{s:?}: {p}"))),
    });
    out
}

/// Version table lookups.
pub fn version_case(seed: u64) -> Vec<Obs> {
    let mut r = Rng::new(seed);
    let e = crate::gen_env(&mut r);
    let mut o = Opt::new(&e);
    let o = o.get();
    use FEditorObjectVersion as E;
    use FUE5ReleaseStreamObjectVersion as U;
    let s = format!(
        "{} {} {} {} {} {}",
        o.get_custom_version::<E>().version,
        o.get_custom_version::<U>().version,
        o.supports_version(E::CultureInvariantTextSerializationKeyStability),
        o.supports_version(E::TextFormatArgumentDataIsVariant),
        o.supports_version(U::LargeWorldCoordinates),
        o.supports_version(U::TextFormatArgumentData64bitSupport)
    );
    vec![Obs::new("versions", R::Ok(s))]
}
