// ------------------------------------------------------------------ a piece of a sequence
pub open spec fn at(d: Seq<u8>, p: int, x: Seq<u8>) -> bool { 0 <= p && p + x.len() <= d.len() && d.subrange(p, p + x.len()) == x }
pub broadcast proof fn lemma_at_cat(d: Seq<u8>, p: int, x: Seq<u8>, y: Seq<u8>)
    requires #[trigger] at(d, p, x + y)
    ensures at(d, p, x), at(d, p + x.len(), y)
{
    assert(d.subrange(p, p + x.len()) =~= (x + y).subrange(0, x.len() as int));
    assert((x + y).subrange(0, x.len() as int) =~= x);
    assert(d.subrange(p + x.len(), p + x.len() + y.len()) =~= (x + y).subrange(x.len() as int, (x + y).len() as int));
    assert((x + y).subrange(x.len() as int, (x + y).len() as int) =~= y);
}
pub broadcast proof fn lemma_at_u8(d: Seq<u8>, p: int, v: u8)
    requires #[trigger] at(d, p, seq![v])
    ensures p_u8(d, p) == Ok::<(u8, int), E>((v, p + 1)), p_i8(d, p) == Ok::<(i8, int), E>((v as i8, p + 1))
{ assert(d.subrange(p, p + 1)[0] == d[p]); assert(seq![v][0] == v); }
pub broadcast proof fn lemma_at_u16(d: Seq<u8>, p: int, v: u16)
    requires #[trigger] at(d, p, e16(v))
    ensures p_u16(d, p) == Ok::<(u16, int), E>((v, p + 2)), p_i16(d, p) == Ok::<(i16, int), E>((v as i16, p + 2))
{
    lemma_e16_len(v); lemma_pows(); reveal(e16); reveal(u16_at);
    lemma_le_dec_enc(v as nat, 2);
}
pub broadcast proof fn lemma_at_u32(d: Seq<u8>, p: int, v: u32)
    requires #[trigger] at(d, p, e32(v))
    ensures p_u32(d, p) == Ok::<(u32, int), E>((v, p + 4)), p_i32(d, p) == Ok::<(i32, int), E>((v as i32, p + 4)), p_f32(d, p) == Ok::<(f32, int), E>((f32_of(v), p + 4))
{
    lemma_e32_len(v); lemma_pows(); reveal(e32); reveal(u32_at);
    lemma_le_dec_enc(v as nat, 4);
}
pub broadcast proof fn lemma_at_u64(d: Seq<u8>, p: int, v: u64)
    requires #[trigger] at(d, p, e64(v))
    ensures p_u64(d, p) == Ok::<(u64, int), E>((v, p + 8)), p_i64(d, p) == Ok::<(i64, int), E>((v as i64, p + 8)), p_f64(d, p) == Ok::<(f64, int), E>((f64_of(v), p + 8))
{
    lemma_e64_len(v); lemma_pows(); reveal(e64); reveal(u64_at);
    lemma_le_dec_enc(v as nat, 8);
}
pub broadcast proof fn lemma_i8_back(v: i8) ensures (#[trigger] (v as u8)) as i8 == v { assert((v as u8) as i8 == v) by (bit_vector); }
pub broadcast proof fn lemma_i16_back(v: i16) ensures (#[trigger] (v as u16)) as i16 == v { assert((v as u16) as i16 == v) by (bit_vector); }
pub broadcast proof fn lemma_i32_back(v: i32) ensures (#[trigger] (v as u32)) as i32 == v { assert((v as u32) as i32 == v) by (bit_vector); }
pub broadcast proof fn lemma_i64_back(v: i64) ensures (#[trigger] (v as u64)) as i64 == v { assert((v as u64) as i64 == v) by (bit_vector); }
pub broadcast proof fn lemma_at_guid(d: Seq<u8>, p: int, g: Guid)
    requires #[trigger] at(d, p, g.0@)
    ensures p_guid(d, p) == Ok::<(Guid, int), E>((g, p + 16))
{ broadcast use ax_all; }
pub broadcast proof fn lemma_at_bool(d: Seq<u8>, p: int, v: bool)
    requires #[trigger] at(d, p, e_bool(v))
    ensures p_bool(d, p) == Ok::<(bool, int), E>((v, p + 1))
{ lemma_at_u8(d, p, if v { 1u8 } else { 0u8 }); }
pub broadcast proof fn lemma_at_b32(d: Seq<u8>, p: int, v: bool)
    requires #[trigger] at(d, p, e_b32(v))
    ensures p_b32(d, p) == Ok::<(bool, int), E>((v, p + 4))
{ lemma_at_u32(d, p, if v { 1u32 } else { 0u32 }); }
// ------------------------------------------------------------------ text encodings
pub proof fn lemma_enc16_char(c: char)
    ensures ({
        let w = enc16_char(c); let n = c as u32;
        &&& w.len() == 1 ==> !is_lo(w[0]) && !is_hi(w[0]) && w[0] as u32 as char == c
        &&& w.len() == 2 ==> is_lo(w[1]) && is_hi(w[0]) && (0x10000 + (w[0] - 0xD800) * 0x400 + (w[1] - 0xDC00)) as u32 as char == c
        &&& w.len() == 1 || w.len() == 2
    })
{
    let n = c as u32;
    assert(n < 0xD800 || 0xDFFF < n <= 0x10FFFF);
    if n >= 0x10000 {
        assert(0xD800 <= 0xD800 + (n - 0x10000) / 0x400 < 0xDC00) by (nonlinear_arith) requires 0x10000 <= n <= 0x10FFFF;
        assert(0x10000 + ((n - 0x10000) / 0x400) * 0x400 + (n - 0x10000) % 0x400 == n) by (nonlinear_arith) requires 0x10000 <= n <= 0x10FFFF;
    }
}
pub proof fn lemma_dec16(s: Seq<char>)
    ensures dec16(enc16(s)) == Some(s)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_dec16(t);
        lemma_enc16_char(s.last());
        let w = enc16(s); let x = enc16_char(s.last());
        assert(s =~= t.push(s.last()));
        if x.len() == 1 {
            assert(w.drop_last() =~= enc16(t));
        } else {
            assert(w.drop_last().drop_last() =~= enc16(t));
        }
    } else { assert(s =~= Seq::<char>::empty()); }
}
pub proof fn lemma_dec8(s: Seq<char>)
    ensures dec8(vstd::utf8::encode_utf8(s)) == Some(s)
{
    vstd::utf8::encode_utf8_valid_utf8(s);
    vstd::utf8::encode_utf8_decode_utf8(s);
}
pub proof fn lemma_at_words(d: Seq<u8>, p: int, w: Seq<u16>, n: int)
    requires at(d, p, e_words(w, n)), 0 <= n <= w.len()
    ensures words_at(d, p, n) == w.subrange(0, n)
    decreases n
{
    if n > 0 {
        lemma_e_words_len(w, n - 1);
        lemma_at_cat(d, p, e_words(w, n - 1), e16(w[n - 1]));
        lemma_at_words(d, p, w, n - 1);
        lemma_at_u16(d, p + 2 * (n - 1), w[n - 1]);
        assert forall|i: int| 0 <= i < n implies words_at(d, p, n)[i] == w[i] by {
            if i < n - 1 { assert(words_at(d, p, n)[i] == words_at(d, p, n - 1)[i]); assert(w.subrange(0, n - 1)[i] == w[i]); }
        }
        assert(words_at(d, p, n) =~= w.subrange(0, n));
    } else { assert(words_at(d, p, n) =~= w.subrange(0, n)); }
}
pub broadcast proof fn lemma_at_string(d: Seq<u8>, p: int, s: Seq<char>)
    requires #[trigger] at(d, p, e_string(s)), str_ok(s)
    ensures p_fstring(d, p) == Ok::<(Option<String>, int), E>((Some(mkstr(s)), p + e_string(s).len())), p_string(d, p) == Ok::<(String, int), E>((mkstr(s), p + e_string(s).len())),
        e_string(s).len() >= 5
{
    reveal(p_fstring); reveal(p_string); reveal(e_string); reveal(str_ok);
    broadcast use {lemma_e16_len, lemma_e32_len};
    if is_ascii(s) {
        let b = vstd::utf8::encode_utf8(s);
        lemma_at_cat(d, p, e32((b.len() + 1) as i32 as u32) + b, seq![0u8]);
        lemma_at_cat(d, p, e32((b.len() + 1) as i32 as u32), b);
        lemma_at_u32(d, p, (b.len() + 1) as i32 as u32);
        lemma_i32_back((b.len() + 1) as i32);
        lemma_at_u8(d, p + 4 + b.len(), 0);
        lemma_dec8(s);
    } else {
        let w = enc16(s); let n = w.len() as int;
        lemma_e_words_len(w, n);
        lemma_at_cat(d, p, e32((0 - (n + 1)) as i32 as u32) + e_words(w, n), e16(0));
        lemma_at_cat(d, p, e32((0 - (n + 1)) as i32 as u32), e_words(w, n));
        lemma_at_u32(d, p, (0 - (n + 1)) as i32 as u32);
        lemma_i32_back((0 - (n + 1)) as i32);
        lemma_at_u16(d, p + 4 + 2 * n, 0);
        lemma_at_words(d, p + 4, w, n);
        assert(w.subrange(0, n) =~= w);
        lemma_dec16(s);
    }
}
pub broadcast proof fn lemma_at_fstring(d: Seq<u8>, p: int, s: Option<String>)
    requires #[trigger] at(d, p, e_fstring(osv(s))), fstr_ok(osv(s))
    ensures p_fstring(d, p) == Ok::<(Option<String>, int), E>((s, p + e_fstring(osv(s)).len())), e_fstring(osv(s)).len() >= 4,
        s is Some ==> p_string(d, p) == Ok::<(String, int), E>((s->Some_0, p + e_fstring(osv(s)).len()))
{
    broadcast use ax_all;
    match s {
        Some(x) => { lemma_at_string(d, p, x@); },
        None => { reveal(p_fstring); lemma_at_u32(d, p, 0); },
    }
}
