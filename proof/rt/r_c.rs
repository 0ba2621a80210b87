// ------------------------------------------------------------------ texts
pub proof fn lemma_en_back()
    ensures
        forall|t: RoundingMode| RoundingMode::of_i8(#[trigger] <RoundingMode as VInto<i8>>::into_spec(t)) == Some(t),
        forall|t: DateTimeStyle| DateTimeStyle::of_i8(#[trigger] <DateTimeStyle as VInto<i8>>::into_spec(t)) == Some(t),
        forall|t: TransformType| TransformType::of_i8(#[trigger] <TransformType as VInto<i8>>::into_spec(t)) == Some(t),
        forall|t: TextHistoryType| TextHistoryType::of_i8(#[trigger] <TextHistoryType as VInto<i8>>::into_spec(t)) == Some(t),
        forall|t: FormatArgumentType| FormatArgumentType::of_i8(#[trigger] <FormatArgumentType as VInto<i8>>::into_spec(t)) == Some(t),
        forall|t: PalworldCompressionType| PalworldCompressionType::of_i8(#[trigger] <PalworldCompressionType as VInto<i8>>::into_spec(t)) == Some(t),
{}
pub broadcast proof fn lemma_at_en<T: VEnum + VInto<i8>>(d: Seq<u8>, p: int, t: T)
    requires #[trigger] at(d, p, e_en(t)), T::of_i8(<T as VInto<i8>>::into_spec(t)) == Some(t)
    ensures p_enum::<T>(d, p) == Ok::<(T, int), E>((t, p + 1))
{ broadcast use {ax_all, rt_base}; }
pub proof fn lemma_at_join(d: Seq<u8>, p: int, x: Seq<u8>, y: Seq<u8>)
    requires at(d, p, x), at(d, p + x.len(), y)
    ensures at(d, p, x + y)
{
    assert(d.subrange(p, p + (x + y).len()) =~= d.subrange(p, p + x.len()) + d.subrange(p + x.len(), p + x.len() + y.len()));
}
pub proof fn lemma_rt_onfo(d: Seq<u8>, p: int, x: Option<NumberFormattingOptions>)
    requires at(d, p, e_b32(x is Some) + e_onfo(x))
    ensures p_onfo(d, p) == Ok::<(Option<NumberFormattingOptions>, int), E>((x, p + 4 + e_onfo(x).len()))
{ broadcast use {ax_all, rt_base, lemma_at_en}; lemma_en_back(); }
pub proof fn lemma_args_read(d: Seq<u8>, cv: Seq<(Guid, u32)>, v: Seq<FormatArgumentValue>, pos: spec_fn(int) -> int, i: int, acc: Seq<FormatArgumentValue>)
    requires 0 <= i <= v.len(), acc == v.subrange(0, i),
        forall|k: int| 0 <= k < v.len() ==> p_arg(d, pos(k), cv) == Ok::<(FormatArgumentValue, int), E>((#[trigger] v[k], pos(k + 1))) && pos(k) < pos(k + 1) <= d.len()
    ensures p_args(d, pos(i), cv, v.len() - i, acc) == Ok::<(Vec<FormatArgumentValue>, int), E>((mkvec(v), pos(v.len() as int)))
    decreases v.len() - i
{
    if i < v.len() {
        assert(acc.push(v[i]) =~= v.subrange(0, i + 1));
        lemma_args_read(d, cv, v, pos, i + 1, acc.push(v[i]));
    } else { assert(acc =~= v); }
}
pub proof fn lemma_im_fresh<K, V>(s: Seq<(K, V)>, i: int, n: int)
    requires im_nodup(s), 0 <= n <= i < s.len()
    ensures im_find(s.subrange(0, n), s[i].0) is None
    decreases n
{
    if n > 0 {
        assert(s.subrange(0, n).drop_last() =~= s.subrange(0, n - 1));
        assert(!keq(s[n - 1].0, s[i].0));
        lemma_im_fresh(s, i, n - 1);
    }
}
pub proof fn lemma_im_next<K, V>(s: Seq<(K, V)>, i: int)
    requires im_nodup(s), 0 <= i < s.len()
    ensures im_insert(s.subrange(0, i), s[i].0, s[i].1) == s.subrange(0, i + 1)
{ lemma_im_fresh(s, i, i); assert(s.subrange(0, i).push(s[i]) =~= s.subrange(0, i + 1)); }
pub proof fn lemma_named_read(d: Seq<u8>, cv: Seq<(Guid, u32)>, v: Seq<(String, FormatArgumentValue)>, pos: spec_fn(int) -> int, mid: spec_fn(int) -> int, i: int, acc: Seq<(String, FormatArgumentValue)>)
    requires 0 <= i <= v.len(), acc == v.subrange(0, i), im_nodup(v),
        forall|k: int| 0 <= k < v.len() ==> p_string(d, pos(k)) == Ok::<(String, int), E>(((#[trigger] v[k]).0, mid(k))) && p_arg(d, mid(k), cv) == Ok::<(FormatArgumentValue, int), E>((v[k].1, pos(k + 1)))
            && pos(k) <= mid(k) < pos(k + 1) <= d.len()
    ensures p_named(d, pos(i), cv, v.len() - i, acc) == Ok::<(IndexMap<String, FormatArgumentValue>, int), E>((mkim(v), pos(v.len() as int)))
    decreases v.len() - i
{
    if i < v.len() {
        lemma_im_next(v, i);
        lemma_named_read(d, cv, v, pos, mid, i + 1, v.subrange(0, i + 1));
    } else { assert(acc =~= v); }
}
pub proof fn lemma_at_args(d: Seq<u8>, p: int, v: Vec<FormatArgumentValue>, i: int, n: int, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_args(v, n, cv)), 0 <= i < n <= v@.len(), wok_args(v, n, cv)
    ensures at(d, p + enc_args(v, i, cv).len(), enc_arg(v@[i], cv)), enc_args(v, i + 1, cv).len() == enc_args(v, i, cv).len() + enc_arg(v@[i], cv).len(), wok_arg(v@[i], cv)
    decreases n
{
    lemma_at_cat(d, p, enc_args(v, n - 1, cv), enc_arg(v@[n - 1], cv));
    if i < n - 1 { lemma_at_args(d, p, v, i, n - 1, cv); }
}
pub proof fn lemma_args_size(v: Vec<FormatArgumentValue>, n: int, cv: Seq<(Guid, u32)>)
    requires 0 <= n <= v@.len()
    ensures enc_args(v, n, cv).len() >= n
    decreases n
{ broadcast use ax_all; if n > 0 { lemma_args_size(v, n - 1, cv); lemma_arg_size(v@[n - 1], cv); } }
pub proof fn lemma_arg_size(a: FormatArgumentValue, cv: Seq<(Guid, u32)>) ensures enc_arg(a, cv).len() >= 1 { broadcast use ax_all; }
pub proof fn lemma_at_named(d: Seq<u8>, p: int, v: IndexMap<String, FormatArgumentValue>, i: int, n: int, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_named(v, n, cv)), 0 <= i < n <= v@.len(), wok_named(v, n, cv)
    ensures at(d, p + enc_named(v, i, cv).len(), e_string(v@[i].0@) + enc_arg(v@[i].1, cv)), enc_named(v, i + 1, cv).len() == enc_named(v, i, cv).len() + e_string(v@[i].0@).len() + enc_arg(v@[i].1, cv).len(),
        str_ok(v@[i].0@), wok_arg(v@[i].1, cv)
    decreases n
{
    lemma_at_cat(d, p, enc_named(v, n - 1, cv), e_string(v@[n - 1].0@) + enc_arg(v@[n - 1].1, cv));
    if i < n - 1 { lemma_at_named(d, p, v, i, n - 1, cv); }
}
pub proof fn lemma_named_size(v: IndexMap<String, FormatArgumentValue>, n: int, cv: Seq<(Guid, u32)>)
    requires 0 <= n <= v@.len()
    ensures enc_named(v, n, cv).len() >= n
    decreases n
{ broadcast use ax_all; if n > 0 { lemma_named_size(v, n - 1, cv); lemma_arg_size(v@[n - 1].1, cv); } }

#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_rt_text(d: Seq<u8>, p: int, t: FText, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_text(t, cv)), wok_text(t, cv), small(d)
    ensures p_text(d, p, cv) == Ok::<(FText, int), E>((t, p + enc_text(t, cv).len()))
    decreases t, 0int
{
    broadcast use {ax_all, rt_base};
    lemma_rt_hist(d, p + 4, t.history, cv);
}
#[verifier::spinoff_prover]
pub proof fn lemma_rt_leaf(d: Seq<u8>, p: int, h: FTextHistory, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_hist(h, cv)), wok_hist(h, cv), small(d), h is Empty || h is None || h is Base || h is StringTableEntry
    ensures p_hist(d, p, cv) == Ok::<(FTextHistory, int), E>((h, p + enc_hist(h, cv).len()))
{ broadcast use {ax_all, rt_base, lemma_at_en}; lemma_en_back(); }
#[verifier::spinoff_prover]
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_rt_time(d: Seq<u8>, p: int, h: FTextHistory, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_hist(h, cv)), wok_hist(h, cv), small(d), h is AsDate || h is AsTime || h is AsDateTime
    ensures p_hist(d, p, cv) == Ok::<(FTextHistory, int), E>((h, p + enc_hist(h, cv).len()))
{ broadcast use {ax_all, rt_base, lemma_at_en}; lemma_en_back(); }
#[verifier::spinoff_prover]
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_rt_namedformat(d: Seq<u8>, p: int, h: FTextHistory, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_hist(h, cv)), wok_hist(h, cv), small(d), h is NamedFormat
    ensures p_hist(d, p, cv) == Ok::<(FTextHistory, int), E>((h, p + enc_hist(h, cv).len()))
    decreases h, 0int
{
    broadcast use {ax_all, rt_base, lemma_at_en};
    lemma_en_back();
    match h {
        FTextHistory::NamedFormat { source_format, arguments } => {
            lemma_rt_text(d, p + 1, *source_format, cv);
            lemma_rt_named(d, p + 1 + enc_text(*source_format, cv).len() + 4, arguments.0, cv);
        },
        _ => {},
    }
}
#[verifier::spinoff_prover]
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_rt_orderedformat(d: Seq<u8>, p: int, h: FTextHistory, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_hist(h, cv)), wok_hist(h, cv), small(d), h is OrderedFormat
    ensures p_hist(d, p, cv) == Ok::<(FTextHistory, int), E>((h, p + enc_hist(h, cv).len()))
    decreases h, 0int
{
    broadcast use {ax_all, rt_base, lemma_at_en};
    lemma_en_back();
    match h {
        FTextHistory::OrderedFormat { source_format, arguments } => {
            lemma_rt_text(d, p + 1, *source_format, cv);
            lemma_rt_args(d, p + 1 + enc_text(*source_format, cv).len() + 4, arguments, cv);
        },
        _ => {},
    }
}
#[verifier::spinoff_prover]
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_rt_argumentformat(d: Seq<u8>, p: int, h: FTextHistory, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_hist(h, cv)), wok_hist(h, cv), small(d), h is ArgumentFormat
    ensures p_hist(d, p, cv) == Ok::<(FTextHistory, int), E>((h, p + enc_hist(h, cv).len()))
    decreases h, 0int
{
    broadcast use {ax_all, rt_base, lemma_at_en};
    lemma_en_back();
    match h {
        FTextHistory::ArgumentFormat { source_format, arguments } => {
            lemma_rt_text(d, p + 1, *source_format, cv);
            lemma_rt_named(d, p + 1 + enc_text(*source_format, cv).len() + 4, arguments.0, cv);
        },
        _ => {},
    }
}
#[verifier::spinoff_prover]
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_rt_asnumber(d: Seq<u8>, p: int, h: FTextHistory, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_hist(h, cv)), wok_hist(h, cv), small(d), h is AsNumber
    ensures p_hist(d, p, cv) == Ok::<(FTextHistory, int), E>((h, p + enc_hist(h, cv).len()))
    decreases h, 0int
{
    broadcast use {ax_all, rt_base, lemma_at_en};
    lemma_en_back();
    match h {
        FTextHistory::AsNumber { source_value, format_options, target_culture } => {
            lemma_rt_arg(d, p + 1, *source_value, cv);
            lemma_at_join(d, p + 1 + enc_arg(*source_value, cv).len(), e_b32(format_options is Some), e_onfo(format_options));
            lemma_rt_onfo(d, p + 1 + enc_arg(*source_value, cv).len(), format_options);
        },
        _ => {},
    }
}
#[verifier::spinoff_prover]
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_rt_aspercent(d: Seq<u8>, p: int, h: FTextHistory, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_hist(h, cv)), wok_hist(h, cv), small(d), h is AsPercent
    ensures p_hist(d, p, cv) == Ok::<(FTextHistory, int), E>((h, p + enc_hist(h, cv).len()))
    decreases h, 0int
{
    broadcast use {ax_all, rt_base, lemma_at_en};
    lemma_en_back();
    match h {
        FTextHistory::AsPercent { source_value, format_options, target_culture } => {
            lemma_rt_arg(d, p + 1, *source_value, cv);
            lemma_at_join(d, p + 1 + enc_arg(*source_value, cv).len(), e_b32(format_options is Some), e_onfo(format_options));
            lemma_rt_onfo(d, p + 1 + enc_arg(*source_value, cv).len(), format_options);
        },
        _ => {},
    }
}
#[verifier::spinoff_prover]
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_rt_ascurrency(d: Seq<u8>, p: int, h: FTextHistory, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_hist(h, cv)), wok_hist(h, cv), small(d), h is AsCurrency
    ensures p_hist(d, p, cv) == Ok::<(FTextHistory, int), E>((h, p + enc_hist(h, cv).len()))
    decreases h, 0int
{
    broadcast use {ax_all, rt_base, lemma_at_en};
    lemma_en_back();
    match h {
        FTextHistory::AsCurrency { currency_code, source_value, format_options, target_culture } => {
            let c = e_fstring(osv(currency_code));
            lemma_rt_arg(d, p + 1 + c.len(), *source_value, cv);
            lemma_at_join(d, p + 1 + c.len() + enc_arg(*source_value, cv).len(), e_b32(format_options is Some), e_onfo(format_options));
            lemma_rt_onfo(d, p + 1 + c.len() + enc_arg(*source_value, cv).len(), format_options);
        },
        _ => {},
    }
}
#[verifier::spinoff_prover]
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_rt_transform(d: Seq<u8>, p: int, h: FTextHistory, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_hist(h, cv)), wok_hist(h, cv), small(d), h is Transform
    ensures p_hist(d, p, cv) == Ok::<(FTextHistory, int), E>((h, p + enc_hist(h, cv).len()))
    decreases h, 0int
{
    broadcast use {ax_all, rt_base, lemma_at_en};
    lemma_en_back();
    match h {
        FTextHistory::Transform { source_text, transform_type } => { lemma_rt_text(d, p + 1, *source_text, cv); },
        _ => {},
    }
}
pub proof fn lemma_rt_hist(d: Seq<u8>, p: int, h: FTextHistory, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_hist(h, cv)), wok_hist(h, cv), small(d)
    ensures p_hist(d, p, cv) == Ok::<(FTextHistory, int), E>((h, p + enc_hist(h, cv).len()))
    decreases h, 1int
{
    match h {
        FTextHistory::NamedFormat { .. } => { lemma_rt_namedformat(d, p, h, cv); },
        FTextHistory::OrderedFormat { .. } => { lemma_rt_orderedformat(d, p, h, cv); },
        FTextHistory::ArgumentFormat { .. } => { lemma_rt_argumentformat(d, p, h, cv); },
        FTextHistory::AsNumber { .. } => { lemma_rt_asnumber(d, p, h, cv); },
        FTextHistory::AsPercent { .. } => { lemma_rt_aspercent(d, p, h, cv); },
        FTextHistory::AsCurrency { .. } => { lemma_rt_ascurrency(d, p, h, cv); },
        FTextHistory::Transform { .. } => { lemma_rt_transform(d, p, h, cv); },
        FTextHistory::AsDate { .. } => { lemma_rt_time(d, p, h, cv); },
        FTextHistory::AsTime { .. } => { lemma_rt_time(d, p, h, cv); },
        FTextHistory::AsDateTime { .. } => { lemma_rt_time(d, p, h, cv); },
        _ => { lemma_rt_leaf(d, p, h, cv); },
    }
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_rt_arg(d: Seq<u8>, p: int, a: FormatArgumentValue, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_arg(a, cv)), wok_arg(a, cv), small(d)
    ensures p_arg(d, p, cv) == Ok::<(FormatArgumentValue, int), E>((a, p + enc_arg(a, cv).len())), enc_arg(a, cv).len() >= 1
    decreases a, 0int
{
    broadcast use {ax_all, rt_base, lemma_at_en};
    lemma_en_back();
    match a { FormatArgumentValue::Text(t) => { lemma_rt_text(d, p + 1, t, cv); }, _ => {} }
}
pub proof fn lemma_rt_args1(d: Seq<u8>, p: int, v: Vec<FormatArgumentValue>, k: int, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_args(v, v@.len() as int, cv)), wok_args(v, v@.len() as int, cv), small(d), 0 <= k < v@.len()
    ensures p_arg(d, p + enc_args(v, k, cv).len(), cv) == Ok::<(FormatArgumentValue, int), E>((v@[k], p + enc_args(v, k + 1, cv).len())),
        enc_args(v, k, cv).len() < enc_args(v, k + 1, cv).len() <= d.len() - p
    decreases v, 0int
{
    broadcast use ax_vec_dec;
    lemma_at_args(d, p, v, k, v@.len() as int, cv);
    lemma_rt_arg(d, p + enc_args(v, k, cv).len(), v@[k], cv);
}
pub proof fn lemma_rt_args(d: Seq<u8>, p: int, v: Vec<FormatArgumentValue>, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_args(v, v@.len() as int, cv)), wok_args(v, v@.len() as int, cv), small(d)
    ensures p_args(d, p, cv, v@.len() as int, Seq::empty()) == Ok::<(Vec<FormatArgumentValue>, int), E>((v, p + enc_args(v, v@.len() as int, cv).len())), v@.len() <= i32::MAX
    decreases v, 1int
{
    let pos = |k: int| p + enc_args(v, k, cv).len();
    assert forall|k: int| 0 <= k < v@.len() implies p_arg(d, pos(k), cv) == Ok::<(FormatArgumentValue, int), E>((#[trigger] v@[k], pos(k + 1))) && pos(k) < pos(k + 1) <= d.len() by {
        lemma_rt_args1(d, p, v, k, cv);
    }
    assert(v@.subrange(0, 0) =~= Seq::empty());
    lemma_args_read(d, cv, v@, pos, 0, Seq::empty());
    lemma_args_size(v, v@.len() as int, cv);
    ax_vec_ext(v);
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_rt_named1(d: Seq<u8>, p: int, v: IndexMap<String, FormatArgumentValue>, k: int, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_named(v, v@.len() as int, cv)), wok_named(v, v@.len() as int, cv), small(d), 0 <= k < v@.len()
    ensures ({
        let a = p + enc_named(v, k, cv).len(); let b = a + e_string(v@[k].0@).len(); let c = p + enc_named(v, k + 1, cv).len();
        p_string(d, a) == Ok::<(String, int), E>((v@[k].0, b)) && p_arg(d, b, cv) == Ok::<(FormatArgumentValue, int), E>((v@[k].1, c)) && a <= b < c <= d.len()
    })
    decreases v, 0int
{
    broadcast use {ax_im_dec, ax_str_ext, lemma_at_cat, lemma_at_string};
    lemma_at_named(d, p, v, k, v@.len() as int, cv);
    lemma_rt_arg(d, p + enc_named(v, k, cv).len() + e_string(v@[k].0@).len(), v@[k].1, cv);
}
pub proof fn lemma_rt_named(d: Seq<u8>, p: int, v: IndexMap<String, FormatArgumentValue>, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_named(v, v@.len() as int, cv)), wok_named(v, v@.len() as int, cv), small(d)
    ensures p_named(d, p, cv, v@.len() as int, Seq::empty()) == Ok::<(IndexMap<String, FormatArgumentValue>, int), E>((v, p + enc_named(v, v@.len() as int, cv).len())), v@.len() <= i32::MAX
    decreases v, 1int
{
    let pos = |k: int| p + enc_named(v, k, cv).len();
    let mid = |k: int| p + enc_named(v, k, cv).len() + e_string(v@[k].0@).len();
    assert forall|k: int| 0 <= k < v@.len() implies p_string(d, pos(k)) == Ok::<(String, int), E>(((#[trigger] v@[k]).0, mid(k))) && p_arg(d, mid(k), cv) == Ok::<(FormatArgumentValue, int), E>((v@[k].1, pos(k + 1)))
            && pos(k) <= mid(k) < pos(k + 1) <= d.len() by {
        lemma_rt_named1(d, p, v, k, cv);
    }
    assert(v@.subrange(0, 0) =~= Seq::empty());
    ax_im_ext(v);
    lemma_named_read(d, cv, v@, pos, mid, 0, Seq::empty());
    lemma_named_size(v, v@.len() as int, cv);
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_rt_textp(d: Seq<u8>, p: int, x: TextProperty, hdr: bool, cv: Seq<(Guid, u32)>)
    requires at(d, p, enc_textp(x, hdr, cv)), small(d), wok_text(x.value, cv)
    ensures (if hdr { p_texth(d, past(p, "TextProperty"@, hdr), cv) } else { p_textb(d, past(p, "TextProperty"@, hdr), cv) }) == Ok::<(TextProperty, int), E>((x, p + enc_textp(x, hdr, cv).len())), kind_at(d, p, "TextProperty"@, hdr)
{
    broadcast use {ax_all, rt_base};
    lemma_kinds();
    let b = enc_text(x.value, cv);
    let m = e_string("TextProperty"@) + e32(b.len() as u32) + e32(0) + seq![0u8];
    if hdr { assert(at(d, p, m + b)); }
    lemma_rt_text(d, if hdr { p + m.len() } else { p }, x.value, cv);
}
