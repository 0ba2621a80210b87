// ------------------------------------------------------------------ outcomes
/// Kind and position of a read error, without message texts.
pub enum E {
    Io, Hdr, ValSize(int, int, int), Str(int, int), StrTerm(int, int), Bool(int, int),
    Hint(Seq<char>, Seq<char>, int), Arg(int), Prop(int), EnumVal(int, int), ArrIdx(int, int),
    Term(int, int), U16(int), U8(int), Ser,
}
pub open spec fn ev(e: Error) -> E {
    match e {
        Error::Io(_) => E::Io,
        Error::Serialize(_) => E::Ser,
        Error::Deserialize(x) => match x {
            DeserializeError::InvalidHeader(_) => E::Hdr,
            DeserializeError::InvalidValueSize(a, b, c) => E::ValSize(a as int, b as int, c as int),
            DeserializeError::InvalidString(a, b) => E::Str(a as int, b as int),
            DeserializeError::InvalidStringTerminator(a, b) => E::StrTerm(a as int, b as int),
            DeserializeError::InvalidBoolean(a, b) => E::Bool(a as int, b as int),
            DeserializeError::MissingHint(a, b, c) => E::Hint(a.sv(), b.sv(), c as int),
            DeserializeError::MissingArgument(_, b) => E::Arg(b as int),
            DeserializeError::InvalidProperty(_, b) => E::Prop(b as int),
            DeserializeError::InvalidEnumValue(_, a, b) => E::EnumVal(a as int, b as int),
            DeserializeError::InvalidArrayIndex(a, b) => E::ArrIdx(a as int, b as int),
            DeserializeError::InvalidTerminator(a, b) => E::Term(a as int, b as int),
            DeserializeError::FromUtf16Error(_, b) => E::U16(b as int),
            DeserializeError::FromUtf8Error(_, b) => E::U8(b as int),
        },
    }
}
pub type PR<V> = Result<(V, int), E>;

// ------------------------------------------------------------------ writing
pub open spec fn anchor<W: ?Sized>(w: &W) -> bool { true }
pub broadcast proof fn lemma_wrote_comp<W: VStream + ?Sized>(a: &W, b: &W, c: &W, x: Seq<u8>, y: Seq<u8>)
    requires #[trigger] anchor(a), wr_ok(a), #[trigger] wrote(a, b, x), #[trigger] wrote(b, c, y)
    ensures wrote(a, c, x + y)
{
    assert(c.data() =~= overwrite(a.data(), a.pos(), x + y));
}
pub broadcast proof fn lemma_wrote_frame<W: VStream + ?Sized>(a: &W, b: &W, c: &W, x: Seq<u8>)
    requires #[trigger] anchor(a), wr_ok(a), #[trigger] wrote(a, b, x), #[trigger] wr_frame(b, c)
    ensures wr_frame(a, c)
{ }
pub broadcast proof fn lemma_overwrite_end(d: Seq<u8>, p: int, b: Seq<u8>)
    requires p == d.len()
    ensures #[trigger] overwrite(d, p, b) == d + b, d.len() == 0 ==> overwrite(d, p, b) == b
{
    assert(overwrite(d, p, b) =~= d + b);
    if d.len() == 0 { assert(d + b =~= b); }
}
pub proof fn lemma_wrote_nothing<W: VStream + ?Sized>(a: &W)
    requires wr_ok(a)
    ensures wrote(a, a, Seq::<u8>::empty())
{ assert(overwrite(a.data(), a.pos(), Seq::<u8>::empty()) =~= a.data()); }

// ------------------------------------------------------------------ scalars
pub open spec fn p_u8(d: Seq<u8>, p: int) -> PR<u8> { if p + 1 <= d.len() { Ok((d[p], p + 1)) } else { Err(E::Io) } }
pub open spec fn p_i8(d: Seq<u8>, p: int) -> PR<i8> { if p + 1 <= d.len() { Ok((i8_of(d[p]), p + 1)) } else { Err(E::Io) } }
pub open spec fn p_u16(d: Seq<u8>, p: int) -> PR<u16> { if p + 2 <= d.len() { Ok((u16_at(d, p), p + 2)) } else { Err(E::Io) } }
pub open spec fn p_i16(d: Seq<u8>, p: int) -> PR<i16> { if p + 2 <= d.len() { Ok((u16_at(d, p) as i16, p + 2)) } else { Err(E::Io) } }
pub open spec fn p_u32(d: Seq<u8>, p: int) -> PR<u32> { if p + 4 <= d.len() { Ok((u32_at(d, p), p + 4)) } else { Err(E::Io) } }
pub open spec fn p_i32(d: Seq<u8>, p: int) -> PR<i32> { if p + 4 <= d.len() { Ok((u32_at(d, p) as i32, p + 4)) } else { Err(E::Io) } }
pub open spec fn p_u64(d: Seq<u8>, p: int) -> PR<u64> { if p + 8 <= d.len() { Ok((u64_at(d, p), p + 8)) } else { Err(E::Io) } }
pub open spec fn p_i64(d: Seq<u8>, p: int) -> PR<i64> { if p + 8 <= d.len() { Ok((u64_at(d, p) as i64, p + 8)) } else { Err(E::Io) } }
pub open spec fn p_f32(d: Seq<u8>, p: int) -> PR<f32> { if p + 4 <= d.len() { Ok((f32_of(u32_at(d, p)), p + 4)) } else { Err(E::Io) } }
pub open spec fn p_f64(d: Seq<u8>, p: int) -> PR<f64> { if p + 8 <= d.len() { Ok((f64_of(u64_at(d, p)), p + 8)) } else { Err(E::Io) } }
pub open spec fn p_guid(d: Seq<u8>, p: int) -> PR<Guid> {
    if p + 16 <= d.len() { Ok((mkguid(d.subrange(p, p + 16)), p + 16)) } else { Err(E::Io) }
}
pub open spec fn p_bool(d: Seq<u8>, p: int) -> PR<bool> {
    let (b, q) <- p_u8(d, p);
    guard b == 0 || b == 1 else E::Bool(b as int, q);
    Ok((b == 1, q))
}
pub open spec fn p_b32(d: Seq<u8>, p: int) -> PR<bool> {
    let (b, q) <- p_u32(d, p);
    guard b == 0 || b == 1 else E::Bool(b as int, q);
    Ok((b == 1, q))
}
pub open spec fn p_enum<T: VEnum>(d: Seq<u8>, p: int) -> PR<T> {
    let (b, q) <- p_i8(d, p);
    match T::of_i8(b) { Some(x) => Ok((x, q)), None => Err(E::EnumVal(b as int, q)) }
}
pub open spec fn e_bool(b: bool) -> Seq<u8> { seq![if b { 1u8 } else { 0u8 }] }
pub open spec fn e_b32(b: bool) -> Seq<u8> { e32(if b { 1u32 } else { 0u32 }) }

// ------------------------------------------------------------------ strings
pub spec const STR_MAX: int = 131072;
#[verifier::opaque]
pub open spec fn p_fstring(d: Seq<u8>, p: int) -> PR<Option<String>> {
    let (n, q) <- p_i32(d, p);
    guard -STR_MAX <= n <= STR_MAX else E::Str(n as int, p);
    if n == 0 { Ok((None, q)) }
    else if n < 0 {
        let k = -n - 1;
        guard q + 2 * k <= d.len() else E::Io;
        let (t, q2) <- p_u16(d, q + 2 * k);
        guard t == 0 else E::StrTerm(t as int, q2);
        match dec16(words_at(d, q, k)) { Some(s) => Ok((Some(mkstr(s)), q2)), None => Err(E::U16(p)) }
    } else {
        let k = n - 1;
        guard q + k <= d.len() else E::Io;
        let (t, q2) <- p_u8(d, q + k);
        guard t == 0 else E::StrTerm(t as int, q2);
        match dec8(d.subrange(q, q + k)) { Some(s) => Ok((Some(mkstr(s)), q2)), None => Err(E::U8(p)) }
    }
}
#[verifier::opaque]
pub open spec fn p_string(d: Seq<u8>, p: int) -> PR<String> {
    let (s, q) <- p_fstring(d, p);
    match s { Some(s) => Ok((s, q)), None => Err(E::Str(0, p)) }
}
pub open spec fn e_words(w: Seq<u16>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { Seq::empty() } else { e_words(w, n - 1) + e16(w[n - 1]) } }
pub open spec fn is_ascii(s: Seq<char>) -> bool { vstd::utf8::is_ascii_chars(s) }
/// can be written
#[verifier::opaque]
pub open spec fn str_ok(s: Seq<char>) -> bool {
    if is_ascii(s) { vstd::utf8::encode_utf8(s).len() + 1 <= STR_MAX } else { enc16(s).len() + 1 <= STR_MAX }
}
#[verifier::opaque]
pub open spec fn e_string(s: Seq<char>) -> Seq<u8> {
    if is_ascii(s) {
        let b = vstd::utf8::encode_utf8(s);
        e32((b.len() + 1) as i32 as u32) + b + seq![0u8]
    } else {
        let w = enc16(s);
        e32((0 - (w.len() + 1)) as i32 as u32) + e_words(w, w.len() as int) + e16(0)
    }
}
pub open spec fn e_fstring(s: Option<Seq<char>>) -> Seq<u8> {
    match s { Some(s) => e_string(s), None => e32(0) }
}
pub open spec fn fstr_ok(s: Option<Seq<char>>) -> bool { match s { Some(s) => str_ok(s), None => true } }
pub open spec fn osv(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
pub proof fn lemma_words_step(x: Seq<u8>, w: Seq<u16>, i: int)
    requires 0 <= i < w.len()
    ensures x + e_words(w, i + 1) == (x + e_words(w, i)) + e16(w[i])
{ assert(x + e_words(w, i + 1) =~= (x + e_words(w, i)) + e16(w[i])); }
pub proof fn lemma_e_words_len(w: Seq<u16>, n: int)
    requires 0 <= n <= w.len()
    ensures e_words(w, n).len() == 2 * n
    decreases n
{ broadcast use {lemma_e16_len}; if n > 0 { lemma_e_words_len(w, n - 1); } }
pub broadcast proof fn lemma_arr1(a: [u8; 1]) ensures #[trigger] a@ == seq![a@[0]] { assert(a@ =~= seq![a@[0]]); }

// ------------------------------------------------------------------ little-endian forms
pub proof fn lemma_le_len(v: nat, n: nat) ensures le_enc(v, n).len() == n decreases n
{ if n > 0 { lemma_le_len(v / 256, (n - 1) as nat); } }
pub proof fn lemma_le_dec_enc(v: nat, n: nat)
    requires v < vstd::arithmetic::power::pow(256, n)
    ensures le_dec(le_enc(v, n)) == v
    decreases n
{
    vstd::arithmetic::power::lemma_pow0(256);
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_le_len(v, n);
        lemma_le_len(v / 256, m);
        assert(vstd::arithmetic::power::pow(256, n) == 256 * vstd::arithmetic::power::pow(256, m)) by { reveal(vstd::arithmetic::power::pow); }
        assert(v / 256 < vstd::arithmetic::power::pow(256, m)) by (nonlinear_arith)
            requires v < 256 * vstd::arithmetic::power::pow(256, m);
        lemma_le_dec_enc(v / 256, m);
        assert(le_enc(v, n).drop_first() =~= le_enc(v / 256, m));
    }
}
pub proof fn lemma_le_enc_dec(s: Seq<u8>)
    ensures le_enc(le_dec(s), s.len()) == s, le_dec(s) < vstd::arithmetic::power::pow(256, s.len())
    decreases s.len()
{
    vstd::arithmetic::power::lemma_pow0(256);
    if s.len() > 0 {
        let t = s.drop_first();
        lemma_le_enc_dec(t);
        let m = t.len();
        assert(vstd::arithmetic::power::pow(256, s.len()) == 256 * vstd::arithmetic::power::pow(256, m)) by { reveal(vstd::arithmetic::power::pow); }
        assert(le_dec(s) % 256 == s[0] as nat && le_dec(s) / 256 == le_dec(t)) by (nonlinear_arith)
            requires le_dec(s) == s[0] as nat + 256 * le_dec(t), 0 <= s[0] < 256;
        assert(le_enc(le_dec(s), s.len()) =~= s);
        assert(le_dec(s) < 256 * vstd::arithmetic::power::pow(256, m)) by (nonlinear_arith)
            requires le_dec(s) == s[0] as nat + 256 * le_dec(t), 0 <= s[0] < 256, le_dec(t) < vstd::arithmetic::power::pow(256, m);
    } else { assert(le_enc(le_dec(s), s.len()) =~= s); }
}
pub proof fn lemma_pows()
    ensures vstd::arithmetic::power::pow(256, 2) == 0x1_0000, vstd::arithmetic::power::pow(256, 4) == 0x1_0000_0000,
        vstd::arithmetic::power::pow(256, 8) == 0x1_0000_0000_0000_0000,
        vstd::arithmetic::power::pow(256, 16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000
{
    reveal(vstd::arithmetic::power::pow);
    assert(vstd::arithmetic::power::pow(256, 2) == 0x1_0000) by (compute);
    assert(vstd::arithmetic::power::pow(256, 4) == 0x1_0000_0000) by (compute);
    assert(vstd::arithmetic::power::pow(256, 8) == 0x1_0000_0000_0000_0000) by (compute);
    assert(vstd::arithmetic::power::pow(256, 16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000) by (compute);
}
pub broadcast proof fn lemma_e16_len(v: u16) ensures #[trigger] e16(v).len() == 2 { reveal(e16); lemma_le_len(v as nat, 2); }
/// what was written is what is read
pub broadcast proof fn lemma_u16_at(pre: Seq<u8>, v: u16, post: Seq<u8>)
    ensures u16_at(#[trigger] (pre + e16(v) + post), pre.len() as int) == v
{
    lemma_e16_len(v); lemma_pows();
    reveal(e16); reveal(u16_at);
    lemma_le_dec_enc(v as nat, 2);
    assert((pre + e16(v) + post).subrange(pre.len() as int, pre.len() as int + 2) =~= e16(v));
}
pub proof fn lemma_e16_at(d: Seq<u8>, p: int)
    requires 0 <= p, p + 2 <= d.len()
    ensures e16(u16_at(d, p)) == d.subrange(p, p + 2)
{
    lemma_pows();
    reveal(e16); reveal(u16_at);
    lemma_le_enc_dec(d.subrange(p, p + 2));
}
pub broadcast proof fn lemma_e32_len(v: u32) ensures #[trigger] e32(v).len() == 4 { reveal(e32); lemma_le_len(v as nat, 4); }
/// what was written is what is read
pub broadcast proof fn lemma_u32_at(pre: Seq<u8>, v: u32, post: Seq<u8>)
    ensures u32_at(#[trigger] (pre + e32(v) + post), pre.len() as int) == v
{
    lemma_e32_len(v); lemma_pows();
    reveal(e32); reveal(u32_at);
    lemma_le_dec_enc(v as nat, 4);
    assert((pre + e32(v) + post).subrange(pre.len() as int, pre.len() as int + 4) =~= e32(v));
}
pub proof fn lemma_e32_at(d: Seq<u8>, p: int)
    requires 0 <= p, p + 4 <= d.len()
    ensures e32(u32_at(d, p)) == d.subrange(p, p + 4)
{
    lemma_pows();
    reveal(e32); reveal(u32_at);
    lemma_le_enc_dec(d.subrange(p, p + 4));
}
pub broadcast proof fn lemma_e64_len(v: u64) ensures #[trigger] e64(v).len() == 8 { reveal(e64); lemma_le_len(v as nat, 8); }
/// what was written is what is read
pub broadcast proof fn lemma_u64_at(pre: Seq<u8>, v: u64, post: Seq<u8>)
    ensures u64_at(#[trigger] (pre + e64(v) + post), pre.len() as int) == v
{
    lemma_e64_len(v); lemma_pows();
    reveal(e64); reveal(u64_at);
    lemma_le_dec_enc(v as nat, 8);
    assert((pre + e64(v) + post).subrange(pre.len() as int, pre.len() as int + 8) =~= e64(v));
}
pub proof fn lemma_e64_at(d: Seq<u8>, p: int)
    requires 0 <= p, p + 8 <= d.len()
    ensures e64(u64_at(d, p)) == d.subrange(p, p + 8)
{
    lemma_pows();
    reveal(e64); reveal(u64_at);
    lemma_le_enc_dec(d.subrange(p, p + 8));
}
