// ------------------------------------------------------------------ custom versions
pub open spec fn ver(cv: Seq<(Guid, u32)>, g: Guid) -> u32 { match im_get(cv, g) { Some(v) => v, None => 0 } }
/// large world coordinates: double components
pub open spec fn lwc(cv: Seq<(Guid, u32)>) -> bool { ver(cv, FUE5ReleaseStreamObjectVersion::guid_spec()) >= 28 }
/// 64 bit text format arguments
pub open spec fn arg64(cv: Seq<(Guid, u32)>) -> bool { ver(cv, FUE5ReleaseStreamObjectVersion::guid_spec()) >= 12 }
/// culture invariant strings in texts without history
pub open spec fn cinv(cv: Seq<(Guid, u32)>) -> bool { ver(cv, FEditorObjectVersion::guid_spec()) >= 32 }
pub broadcast proof fn lemma_add_empty(x: Seq<u8>) ensures #[trigger] (x + Seq::<u8>::empty()) == x
{ assert(x + Seq::<u8>::empty() =~= x); }
pub open spec fn e_en<T: VInto<i8>>(t: T) -> Seq<u8> { seq![u8_of(t.into_spec())] }

// ------------------------------------------------------------------ number formatting options
pub open spec fn e_nfo(x: NumberFormattingOptions) -> Seq<u8> {
    e_b32(x.always_include_sign) + e_b32(x.use_grouping) + e_en(x.rounding_mode) + e32(x.minimum_integral_digits as u32)
    + e32(x.maximum_integral_digits as u32) + e32(x.minimum_fractional_digits as u32) + e32(x.maximum_fractional_digits as u32)
}
pub open spec fn p_nfo(d: Seq<u8>, p: int) -> PR<NumberFormattingOptions> {
    let (a, q) <- p_b32(d, p);
    let (b, q) <- p_b32(d, q);
    let (m, q) <- p_enum::<RoundingMode>(d, q);
    let (w, q) <- p_i32(d, q);
    let (x, q) <- p_i32(d, q);
    let (y, q) <- p_i32(d, q);
    let (z, q) <- p_i32(d, q);
    Ok((NumberFormattingOptions { always_include_sign: a, use_grouping: b, rounding_mode: m, minimum_integral_digits: w,
        maximum_integral_digits: x, minimum_fractional_digits: y, maximum_fractional_digits: z }, q))
}
pub open spec fn e_onfo(x: Option<NumberFormattingOptions>) -> Seq<u8> { match x { Some(x) => e_nfo(x), None => Seq::empty() } }
pub open spec fn p_onfo(d: Seq<u8>, p: int) -> PR<Option<NumberFormattingOptions>> {
    let (b, q) <- p_b32(d, p);
    if b {
        let (x, q) <- p_nfo(d, q);
        Ok((Some(x), q))
    } else { Ok((None, q)) }
}

// ------------------------------------------------------------------ writing
pub open spec fn enc_text(t: FText, cv: Seq<(Guid, u32)>) -> Seq<u8> decreases t
{ e32(t.flags) + enc_hist(t.history, cv) }
pub open spec fn enc_hist(h: FTextHistory, cv: Seq<(Guid, u32)>) -> Seq<u8> decreases h
{
    match h {
        FTextHistory::Empty {} => e_en(TextHistoryType::None) + (if cinv(cv) { e_b32(false) } else { Seq::empty() }),
        FTextHistory::None { culture_invariant_string } => e_en(TextHistoryType::None) + e_b32(true) + e_fstring(osv(culture_invariant_string)),
        FTextHistory::Base { namespace, key, source_string } =>
            e_en(TextHistoryType::Base) + e_fstring(osv(namespace)) + e_fstring(osv(key)) + e_fstring(osv(source_string)),
        FTextHistory::NamedFormat { source_format, arguments } =>
            e_en(TextHistoryType::NamedFormat) + enc_text(*source_format, cv) + e32(arguments.0@.len() as i32 as u32) + enc_named(arguments.0, arguments.0@.len() as int, cv),
        FTextHistory::OrderedFormat { source_format, arguments } =>
            e_en(TextHistoryType::OrderedFormat) + enc_text(*source_format, cv) + e32(arguments@.len() as i32 as u32) + enc_args(arguments, arguments@.len() as int, cv),
        FTextHistory::ArgumentFormat { source_format, arguments } =>
            e_en(TextHistoryType::ArgumentFormat) + enc_text(*source_format, cv) + e32(arguments.0@.len() as i32 as u32) + enc_named(arguments.0, arguments.0@.len() as int, cv),
        FTextHistory::AsNumber { source_value, format_options, target_culture } =>
            e_en(TextHistoryType::AsNumber) + enc_arg(*source_value, cv) + e_b32(format_options is Some) + e_onfo(format_options) + e_fstring(osv(target_culture)),
        FTextHistory::AsPercent { source_value, format_options, target_culture } =>
            e_en(TextHistoryType::AsPercent) + enc_arg(*source_value, cv) + e_b32(format_options is Some) + e_onfo(format_options) + e_fstring(osv(target_culture)),
        FTextHistory::AsCurrency { currency_code, source_value, format_options, target_culture } =>
            e_en(TextHistoryType::AsCurrency) + e_fstring(osv(currency_code)) + enc_arg(*source_value, cv) + e_b32(format_options is Some)
            + e_onfo(format_options) + e_fstring(osv(target_culture)),
        FTextHistory::AsDate { date_time, date_style, target_culture } =>
            e_en(TextHistoryType::AsDate) + e64(date_time.ticks) + e_en(date_style) + e_string(target_culture@),
        FTextHistory::AsTime { source_date_time, time_style, time_zone, target_culture } =>
            e_en(TextHistoryType::AsTime) + e64(source_date_time.ticks) + e_en(time_style) + e_string(time_zone@) + e_string(target_culture@),
        FTextHistory::AsDateTime { source_date_time, date_style, time_style, time_zone, target_culture } =>
            e_en(TextHistoryType::AsDateTime) + e64(source_date_time.ticks) + e_en(date_style) + e_en(time_style) + e_string(time_zone@) + e_string(target_culture@),
        FTextHistory::Transform { source_text, transform_type } =>
            e_en(TextHistoryType::Transform) + enc_text(*source_text, cv) + e_en(transform_type),
        FTextHistory::StringTableEntry { table_id, key } =>
            e_en(TextHistoryType::StringTableEntry) + e_string(table_id@) + e_string(key@),
    }
}
pub open spec fn enc_arg(a: FormatArgumentValue, cv: Seq<(Guid, u32)>) -> Seq<u8> decreases a
{
    match a {
        FormatArgumentValue::Int(v) => e_en(FormatArgumentType::Int) + e32(v as u32),
        FormatArgumentValue::Int64(v) => e_en(FormatArgumentType::Int) + e64(v as u64),
        FormatArgumentValue::UInt(v) => e_en(FormatArgumentType::UInt) + e32(v),
        FormatArgumentValue::UInt64(v) => e_en(FormatArgumentType::UInt) + e64(v),
        FormatArgumentValue::Float(v) => e_en(FormatArgumentType::Float) + e32(f32_bits(v.0)),
        FormatArgumentValue::Double(v) => e_en(FormatArgumentType::Double) + e64(f64_bits(v.0)),
        FormatArgumentValue::Text(t) => e_en(FormatArgumentType::Text) + enc_text(t, cv),
    }
}
pub open spec fn enc_args(v: Vec<FormatArgumentValue>, n: int, cv: Seq<(Guid, u32)>) -> Seq<u8> decreases v, n via dec_enc_args
{ if 0 < n <= v@.len() { enc_args(v, n - 1, cv) + enc_arg(v@[n - 1], cv) } else { Seq::empty() } }
pub open spec fn enc_named(m: IndexMap<String, FormatArgumentValue>, n: int, cv: Seq<(Guid, u32)>) -> Seq<u8> decreases m, n via dec_enc_named
{ if 0 < n <= m@.len() { enc_named(m, n - 1, cv) + (e_string(m@[n - 1].0@) + enc_arg(m@[n - 1].1, cv)) } else { Seq::empty() } }
#[via_fn] proof fn dec_enc_args(v: Vec<FormatArgumentValue>, n: int, cv: Seq<(Guid, u32)>) { broadcast use {ax_vec_dec, ax_im_dec}; }
#[via_fn] proof fn dec_enc_named(m: IndexMap<String, FormatArgumentValue>, n: int, cv: Seq<(Guid, u32)>) { broadcast use {ax_vec_dec, ax_im_dec}; }

pub open spec fn wok_text(t: FText, cv: Seq<(Guid, u32)>) -> bool decreases t
{ wok_hist(t.history, cv) }
pub open spec fn wok_hist(h: FTextHistory, cv: Seq<(Guid, u32)>) -> bool decreases h
{
    match h {
        FTextHistory::Empty {} => true,
        FTextHistory::None { culture_invariant_string } => cinv(cv) && fstr_ok(osv(culture_invariant_string)),
        FTextHistory::Base { namespace, key, source_string } => fstr_ok(osv(namespace)) && fstr_ok(osv(key)) && fstr_ok(osv(source_string)),
        FTextHistory::NamedFormat { source_format, arguments } => wok_text(*source_format, cv) && wok_named(arguments.0, arguments.0@.len() as int, cv),
        FTextHistory::OrderedFormat { source_format, arguments } => wok_text(*source_format, cv) && wok_args(arguments, arguments@.len() as int, cv),
        FTextHistory::ArgumentFormat { source_format, arguments } => wok_text(*source_format, cv) && wok_named(arguments.0, arguments.0@.len() as int, cv),
        FTextHistory::AsNumber { source_value, format_options, target_culture } => wok_arg(*source_value, cv) && fstr_ok(osv(target_culture)),
        FTextHistory::AsPercent { source_value, format_options, target_culture } => wok_arg(*source_value, cv) && fstr_ok(osv(target_culture)),
        FTextHistory::AsCurrency { currency_code, source_value, format_options, target_culture } =>
            fstr_ok(osv(currency_code)) && wok_arg(*source_value, cv) && fstr_ok(osv(target_culture)),
        FTextHistory::AsDate { date_time, date_style, target_culture } => str_ok(target_culture@),
        FTextHistory::AsTime { source_date_time, time_style, time_zone, target_culture } => str_ok(time_zone@) && str_ok(target_culture@),
        FTextHistory::AsDateTime { source_date_time, date_style, time_style, time_zone, target_culture } => str_ok(time_zone@) && str_ok(target_culture@),
        FTextHistory::Transform { source_text, transform_type } => wok_text(*source_text, cv),
        FTextHistory::StringTableEntry { table_id, key } => str_ok(table_id@) && str_ok(key@),
    }
}
pub open spec fn wok_arg(a: FormatArgumentValue, cv: Seq<(Guid, u32)>) -> bool decreases a
{
    match a {
        FormatArgumentValue::Int(v) => !arg64(cv),
        FormatArgumentValue::UInt(v) => !arg64(cv),
        FormatArgumentValue::Int64(v) => arg64(cv),
        FormatArgumentValue::UInt64(v) => arg64(cv),
        FormatArgumentValue::Text(t) => wok_text(t, cv),
        _ => true,
    }
}
pub open spec fn wok_args(v: Vec<FormatArgumentValue>, n: int, cv: Seq<(Guid, u32)>) -> bool decreases v, n via dec_wok_args
{ if 0 < n <= v@.len() { wok_args(v, n - 1, cv) && wok_arg(v@[n - 1], cv) } else { true } }
pub open spec fn wok_named(m: IndexMap<String, FormatArgumentValue>, n: int, cv: Seq<(Guid, u32)>) -> bool decreases m, n via dec_wok_named
{ if 0 < n <= m@.len() { wok_named(m, n - 1, cv) && str_ok(m@[n - 1].0@) && wok_arg(m@[n - 1].1, cv) } else { true } }
#[via_fn] proof fn dec_wok_args(v: Vec<FormatArgumentValue>, n: int, cv: Seq<(Guid, u32)>) { broadcast use {ax_vec_dec, ax_im_dec}; }
#[via_fn] proof fn dec_wok_named(m: IndexMap<String, FormatArgumentValue>, n: int, cv: Seq<(Guid, u32)>) { broadcast use {ax_vec_dec, ax_im_dec}; }
pub proof fn lemma_args_prefix(v: Vec<FormatArgumentValue>, i: int, n: int, cv: Seq<(Guid, u32)>)
    requires 0 <= i <= n <= v@.len()
    ensures enc_args(v, i, cv).len() <= enc_args(v, n, cv).len(), wok_args(v, n, cv) ==> wok_args(v, i, cv)
    decreases n
{ if i < n { lemma_args_prefix(v, i, n - 1, cv); } }
pub proof fn lemma_args_step(x: Seq<u8>, v: Vec<FormatArgumentValue>, i: int, cv: Seq<(Guid, u32)>)
    requires 0 <= i < v@.len()
    ensures x + enc_args(v, i + 1, cv) == (x + enc_args(v, i, cv)) + enc_arg(v@[i], cv)
{ assert(x + enc_args(v, i + 1, cv) =~= (x + enc_args(v, i, cv)) + enc_arg(v@[i], cv)); }
pub proof fn lemma_named_prefix(v: IndexMap<String, FormatArgumentValue>, i: int, n: int, cv: Seq<(Guid, u32)>)
    requires 0 <= i <= n <= v@.len()
    ensures enc_named(v, i, cv).len() <= enc_named(v, n, cv).len(), wok_named(v, n, cv) ==> wok_named(v, i, cv)
    decreases n
{ if i < n { lemma_named_prefix(v, i, n - 1, cv); } }
pub proof fn lemma_named_step(x: Seq<u8>, v: IndexMap<String, FormatArgumentValue>, i: int, cv: Seq<(Guid, u32)>)
    requires 0 <= i < v@.len()
    ensures x + enc_named(v, i + 1, cv) == (x + enc_named(v, i, cv)) + e_string(v@[i].0@) + enc_arg(v@[i].1, cv)
{ assert(x + enc_named(v, i + 1, cv) =~= (x + enc_named(v, i, cv)) + e_string(v@[i].0@) + enc_arg(v@[i].1, cv)); }

// ------------------------------------------------------------------ reading
pub open spec fn p_text(d: Seq<u8>, p: int, cv: Seq<(Guid, u32)>) -> PR<FText> decreases d.len() - p, 0int, 0int
{
    let (f, q) <- p_u32(d, p);
    let (h, q) <- p_hist(d, q, cv);
    Ok((FText { flags: f, history: h }, q))
}
pub open spec fn p_hist(d: Seq<u8>, p: int, cv: Seq<(Guid, u32)>) -> PR<FTextHistory> decreases d.len() - p, 0int, 0int
{
    let (t, s) <- p_enum::<TextHistoryType>(d, p);
    match t {
        TextHistoryType::None => if cinv(cv) {
            let (b, q) <- p_b32(d, s);
            if b {
                let (x, q) <- p_fstring(d, q);
                Ok((FTextHistory::None { culture_invariant_string: x }, q))
            } else { Ok((FTextHistory::Empty {}, q)) }
        } else { Ok((FTextHistory::Empty {}, s)) },
        TextHistoryType::Base => {
            let (a, q) <- p_fstring(d, s);
            let (b, q) <- p_fstring(d, q);
            let (c, q) <- p_fstring(d, q);
            Ok((FTextHistory::Base { namespace: a, key: b, source_string: c }, q))
        },
        TextHistoryType::NamedFormat => {
            let (f, q) <- p_text(d, s, cv);
            let (n, q) <- p_i32(d, q);
            guard s <= q <= d.len() else E::Io;
            let (m, q) <- p_named(d, q, cv, n as int, Seq::empty());
            Ok((FTextHistory::NamedFormat { source_format: Box::new(f), arguments: HashableIndexMap(m) }, q))
        },
        TextHistoryType::OrderedFormat => {
            let (f, q) <- p_text(d, s, cv);
            let (n, q) <- p_i32(d, q);
            guard s <= q <= d.len() else E::Io;
            let (m, q) <- p_args(d, q, cv, n as int, Seq::empty());
            Ok((FTextHistory::OrderedFormat { source_format: Box::new(f), arguments: m }, q))
        },
        TextHistoryType::ArgumentFormat => {
            let (f, q) <- p_text(d, s, cv);
            let (n, q) <- p_i32(d, q);
            guard s <= q <= d.len() else E::Io;
            let (m, q) <- p_named(d, q, cv, n as int, Seq::empty());
            Ok((FTextHistory::ArgumentFormat { source_format: Box::new(f), arguments: HashableIndexMap(m) }, q))
        },
        TextHistoryType::AsNumber => {
            let (v, q) <- p_arg(d, s, cv);
            let (o, q) <- p_onfo(d, q);
            let (c, q) <- p_fstring(d, q);
            Ok((FTextHistory::AsNumber { source_value: Box::new(v), format_options: o, target_culture: c }, q))
        },
        TextHistoryType::AsPercent => {
            let (v, q) <- p_arg(d, s, cv);
            let (o, q) <- p_onfo(d, q);
            let (c, q) <- p_fstring(d, q);
            Ok((FTextHistory::AsPercent { source_value: Box::new(v), format_options: o, target_culture: c }, q))
        },
        TextHistoryType::AsCurrency => {
            let (k, q) <- p_fstring(d, s);
            guard s <= q <= d.len() else E::Io;
            let (v, q) <- p_arg(d, q, cv);
            let (o, q) <- p_onfo(d, q);
            let (c, q) <- p_fstring(d, q);
            Ok((FTextHistory::AsCurrency { currency_code: k, source_value: Box::new(v), format_options: o, target_culture: c }, q))
        },
        TextHistoryType::AsDate => {
            let (t, q) <- p_u64(d, s);
            let (a, q) <- p_enum::<DateTimeStyle>(d, q);
            let (c, q) <- p_string(d, q);
            Ok((FTextHistory::AsDate { date_time: DateTime { ticks: t }, date_style: a, target_culture: c }, q))
        },
        TextHistoryType::AsTime => {
            let (t, q) <- p_u64(d, s);
            let (a, q) <- p_enum::<DateTimeStyle>(d, q);
            let (z, q) <- p_string(d, q);
            let (c, q) <- p_string(d, q);
            Ok((FTextHistory::AsTime { source_date_time: DateTime { ticks: t }, time_style: a, time_zone: z, target_culture: c }, q))
        },
        TextHistoryType::AsDateTime => {
            let (t, q) <- p_u64(d, s);
            let (a, q) <- p_enum::<DateTimeStyle>(d, q);
            let (b, q) <- p_enum::<DateTimeStyle>(d, q);
            let (z, q) <- p_string(d, q);
            let (c, q) <- p_string(d, q);
            Ok((FTextHistory::AsDateTime { source_date_time: DateTime { ticks: t }, date_style: a, time_style: b, time_zone: z, target_culture: c }, q))
        },
        TextHistoryType::Transform => {
            let (f, q) <- p_text(d, s, cv);
            let (t, q) <- p_enum::<TransformType>(d, q);
            Ok((FTextHistory::Transform { source_text: Box::new(f), transform_type: t }, q))
        },
        TextHistoryType::StringTableEntry => {
            let (a, q) <- p_string(d, s);
            let (b, q) <- p_string(d, q);
            Ok((FTextHistory::StringTableEntry { table_id: a, key: b }, q))
        },
        _ => Err(E::Prop(s)),
    }
}
pub open spec fn p_arg(d: Seq<u8>, p: int, cv: Seq<(Guid, u32)>) -> PR<FormatArgumentValue> decreases d.len() - p, 0int, 0int
{
    let (t, s) <- p_enum::<FormatArgumentType>(d, p);
    match t {
        FormatArgumentType::Int => if arg64(cv) {
            let (v, q) <- p_i64(d, s);
            Ok((FormatArgumentValue::Int64(v), q))
        } else {
            let (v, q) <- p_i32(d, s);
            Ok((FormatArgumentValue::Int(v), q))
        },
        FormatArgumentType::UInt => if arg64(cv) {
            let (v, q) <- p_u64(d, s);
            Ok((FormatArgumentValue::UInt64(v), q))
        } else {
            let (v, q) <- p_u32(d, s);
            Ok((FormatArgumentValue::UInt(v), q))
        },
        FormatArgumentType::Float => {
            let (v, q) <- p_f32(d, s);
            Ok((FormatArgumentValue::Float(OrderedFloat(v)), q))
        },
        FormatArgumentType::Double => {
            let (v, q) <- p_f64(d, s);
            Ok((FormatArgumentValue::Double(OrderedFloat(v)), q))
        },
        FormatArgumentType::Text => {
            let (v, q) <- p_text(d, s, cv);
            Ok((FormatArgumentValue::Text(v), q))
        },
        FormatArgumentType::Gender => Err(E::Prop(s)),
    }
}
pub open spec fn p_args(d: Seq<u8>, p: int, cv: Seq<(Guid, u32)>, n: int, acc: Seq<FormatArgumentValue>) -> PR<Vec<FormatArgumentValue>>
    decreases d.len() - p, 1int, n
{
    if n <= 0 { Ok((mkvec(acc), p)) } else {
        let (v, q) <- p_arg(d, p, cv);
        guard p < q <= d.len() else E::Io;
        p_args(d, q, cv, n - 1, acc.push(v))
    }
}
pub open spec fn p_named(d: Seq<u8>, p: int, cv: Seq<(Guid, u32)>, n: int, acc: Seq<(String, FormatArgumentValue)>) -> PR<IndexMap<String, FormatArgumentValue>>
    decreases d.len() - p, 1int, n
{
    if n <= 0 { Ok((mkim(acc), p)) } else {
        let (k, q) <- p_string(d, p);
        guard p <= q <= d.len() else E::Io;
        let (v, q) <- p_arg(d, q, cv);
        guard p < q <= d.len() else E::Io;
        p_named(d, q, cv, n - 1, im_insert(acc, k, v))
    }
}
pub open spec fn enc_textp(x: TextProperty, hdr: bool, cv: Seq<(Guid, u32)>) -> Seq<u8> {
    let b = enc_text(x.value, cv);
    if hdr { e_hdr0("TextProperty"@, b, 0) } else { b }
}
pub open spec fn p_textb(d: Seq<u8>, p: int, cv: Seq<(Guid, u32)>) -> PR<TextProperty> {
    let (v, q) <- p_text(d, p, cv);
    Ok((TextProperty { value: v }, q))
}
pub open spec fn p_texth(d: Seq<u8>, p: int, cv: Seq<(Guid, u32)>) -> PR<TextProperty> {
    let (n, q) <- p_hdr0(d, p);
    p_sized(n as int, q, p_textb(d, q, cv))
}
