// ------------------------------------------------------------------ what was read can be written: strings
pub proof fn lemma_dec16_len(w: Seq<u16>)
    requires dec16(w) is Some
    ensures enc16(dec16(w)->Some_0).len() == w.len()
    decreases w.len()
{
    if w.len() > 0 {
        let s = dec16(w)->Some_0;
        if is_lo(w.last()) {
            let n = (0x10000 + (w[w.len() - 2] - 0xD800) * 0x400 + (w.last() - 0xDC00)) as u32;
            assert(0x10000 <= 0x10000 + (w[w.len() - 2] - 0xD800) * 0x400 + (w.last() - 0xDC00) <= 0x10FFFF);
            lemma_dec16_len(w.drop_last().drop_last());
            let t = dec16(w.drop_last().drop_last())->Some_0;
            assert(s == t.push(n as char));
            assert(s.drop_last() =~= t);
            assert((n as char) as u32 == n);
        } else {
            let n = w.last() as u32;
            lemma_dec16_len(w.drop_last());
            let t = dec16(w.drop_last())->Some_0;
            assert(s == t.push(n as char));
            assert(s.drop_last() =~= t);
            assert((n as char) as u32 == n);
        }
    }
}
pub proof fn lemma_enc16_long(s: Seq<char>)
    ensures s.len() <= enc16(s).len()
    decreases s.len()
{ if s.len() > 0 { lemma_enc16_long(s.drop_last()); } }
pub proof fn lemma_enc8_char(c: char)
    ensures enc16_char(c).len() <= vstd::utf8::encode_utf8(seq![c]).len()
{
    assert(seq![c].drop_first() =~= Seq::<char>::empty());
    reveal_with_fuel(vstd::utf8::encode_utf8, 3);
}
/// no more UTF-16 units than UTF-8 bytes
pub proof fn lemma_enc8_long(s: Seq<char>)
    ensures enc16(s).len() <= vstd::utf8::encode_utf8(s).len()
    decreases s.len()
{
    if s.len() > 0 {
        lemma_enc8_long(s.drop_last());
        lemma_enc8_char(s.last());
        vstd::utf8::encode_utf8_concat(s.drop_last(), seq![s.last()]);
        assert(s =~= s.drop_last() + seq![s.last()]);
    }
}
pub broadcast proof fn lemma_read_fstring(d: Seq<u8>, p: int)
    requires 0 <= p
    ensures (#[trigger] p_fstring(d, p)) matches Ok((s, q)) ==> fstr_ok(osv(s)) && p + 4 <= q <= d.len()
{
    reveal(p_fstring); reveal(str_ok); broadcast use ax_all;
    if let Ok((Some(s), q)) = p_fstring(d, p) {
        let n = u32_at(d, p) as i32;
        if n < 0 {
            let w = words_at(d, p + 4, -n - 1);
            lemma_dec16_len(w);
            lemma_enc16_long(s@);
            if is_ascii(s@) { vstd::utf8::is_ascii_chars_encode_utf8(s@); }
        } else {
            let b = d.subrange(p + 4, p + 4 + n - 1);
            vstd::utf8::decode_utf8_encode_utf8(b);
            lemma_enc8_long(s@);
            assert(s@ == dec8(b)->Some_0);
            assert(vstd::utf8::encode_utf8(s@) == b);
            assert(b.len() == n - 1);
        }
    }
}
pub broadcast proof fn lemma_read_string(d: Seq<u8>, p: int)
    requires 0 <= p
    ensures (#[trigger] p_string(d, p)) matches Ok((s, q)) ==> str_ok(s@) && p + 4 <= q <= d.len()
{ reveal(p_string); broadcast use ax_all; lemma_read_fstring(d, p); }
