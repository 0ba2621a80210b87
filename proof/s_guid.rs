
// ------------------------------------------------------------------ guids
pub uninterp spec fn mkarr4(s: Seq<u32>) -> [u32; 4];
pub broadcast axiom fn ax_arr4(a: [u32; 4]) ensures mkarr4(#[trigger] a@) == a;
pub proof fn lemma_128(s: Seq<u8>, v: u128)
    ensures s.len() == 16 ==> e128(u128_of(s)) == s, u128_of(e128(v)) == v, e128(v).len() == 16
{
    reveal(e128); reveal(u128_of);
    lemma_pows();
    lemma_le_len(v as nat, 16);
    lemma_le_dec_enc(v as nat, 16);
    lemma_le_enc_dec(s);
}
pub proof fn lemma_le_dec_zeros(n: nat) ensures le_dec(zeros(n)) == 0 decreases n
{ if n > 0 { lemma_le_dec_zeros((n - 1) as nat); assert(zeros(n).drop_first() =~= zeros((n - 1) as nat)); } }
pub proof fn lemma_guid_zero(g: Guid)
    ensures g == zero_guid() <==> u128_of(g.0@) == 0
{
    broadcast use {ax_mkguid, ax_guid_ext};
    lemma_128(g.0@, 0);
    lemma_128(zeros(16), 0);
    lemma_le_dec_zeros(16);
    reveal(u128_of);
    assert(u128_of(zeros(16)) == 0);
    assert(g.0@.len() == 16);
}

// text form
pub open spec fn guid_text_after(o: Seq<char>, g: Guid) -> Seq<char> {
    let b = g.0@;
    if g == zero_guid() { o + seq!['0'] } else {
        o + hex2(b[0], true) + hex2(b[1], true) + hex2(b[2], true) + hex2(b[3], true) + seq!['-']
          + hex2(b[4], true) + hex2(b[5], true) + seq!['-'] + hex2(b[6], true) + hex2(b[7], true) + seq!['-']
          + hex2(b[8], true) + hex2(b[9], true) + seq!['-'] + hex2(b[10], true) + hex2(b[11], true)
          + hex2(b[12], true) + hex2(b[13], true) + hex2(b[14], true) + hex2(b[15], true)
    }
}
/// the text form of a GUID
pub open spec fn guid_text(g: Guid) -> Seq<char> { guid_text_after(Seq::empty(), g) }
pub open spec fn hexb(c: Seq<char>, i: int) -> int { hexv(c[2 * i]) * 16 + hexv(c[2 * i + 1]) }
pub open spec fn guid_clean(s: Seq<char>) -> Seq<char> {
    let a = trim_r(trim_l(repl(s, '-', Seq::empty())));
    let b = if a.len() > 0 && a[0] == '{' { a.drop_first() } else { a };
    if b.len() > 0 && b.last() == '}' { b.drop_last() } else { b }
}
pub open spec fn guid_parse(s: Seq<char>) -> Option<Guid> {
    let c = guid_clean(s);
    if c == seq!['0'] { Some(zero_guid()) }
    else if c.len() == 32 && all_hex(c) { Some(mkguid(Seq::new(16, |i: int| hexb(c, i) as u8))) }
    else { None }
}
pub broadcast proof fn lemma_hex_len(s: Seq<char>)
    requires all_hex(s)
    ensures (#[trigger] vstd::utf8::encode_utf8(s)).len() == s.len(), vstd::utf8::is_ascii_chars(s)
{
    assert(vstd::utf8::is_ascii_chars(s));
    vstd::utf8::is_ascii_chars_encode_utf8(s);
}
pub open spec fn hexcat(b: Seq<u8>, n: nat) -> Seq<char> decreases n {
    if n == 0 { Seq::empty() } else { hexcat(b, (n - 1) as nat) + hex2(b[n - 1], true) }
}
pub proof fn lemma_hexd(n: int)
    requires 0 <= n < 16
    ensures is_hex(hexd(n, true)), hexv(hexd(n, true)) == n, is_hex(hexd(n, false)), hexv(hexd(n, false)) == n
{ }
pub proof fn lemma_hexcat(b: Seq<u8>, n: nat)
    requires n <= b.len()
    ensures hexcat(b, n).len() == 2 * n, all_hex(hexcat(b, n)),
        forall|i: int| 0 <= i < n ==> #[trigger] hexb(hexcat(b, n), i) == b[i]
    decreases n
{
    if n > 0 {
        let h = hexcat(b, (n - 1) as nat);
        lemma_hexcat(b, (n - 1) as nat);
        let x = b[n - 1] as int;
        lemma_hexd(x / 16);
        lemma_hexd(x % 16);
        assert(hexcat(b, n) == h + hex2(b[n - 1], true));
        assert forall|i: int| 0 <= i < n implies #[trigger] hexb(hexcat(b, n), i) == b[i] by {
            if i < n - 1 { assert(hexb(h, i) == b[i]); }
        }
    }
}
pub proof fn lemma_repl_push(o: Seq<char>, c: char)
    ensures repl(o.push(c), '-', Seq::empty()) == repl(o, '-', Seq::empty()) + (if c == '-' { Seq::empty() } else { seq![c] })
{ assert(o.push(c).drop_last() =~= o); }
pub proof fn lemma_repl_hex(o: Seq<char>, b: Seq<u8>, k: int)
    requires 0 < k <= b.len(), repl(o, '-', Seq::empty()) == hexcat(b, (k - 1) as nat)
    ensures repl(o + hex2(b[k - 1], true), '-', Seq::empty()) == hexcat(b, k as nat),
        repl(o + hex2(b[k - 1], true) + seq!['-'], '-', Seq::empty()) == hexcat(b, k as nat)
{
    let x = b[k - 1] as int;
    let (p, q) = (hexd(x / 16, true), hexd(x % 16, true));
    lemma_hexd(x / 16);
    lemma_hexd(x % 16);
    lemma_repl_push(o, p);
    lemma_repl_push(o.push(p), q);
    lemma_repl_push(o.push(p).push(q), '-');
    assert(o + hex2(b[k - 1], true) =~= o.push(p).push(q));
    assert(o.push(p).push(q) + seq!['-'] =~= o.push(p).push(q).push('-'));
    assert(repl(o.push(p).push(q), '-', Seq::empty()) =~= hexcat(b, k as nat));
    assert(repl(o.push(p).push(q).push('-'), '-', Seq::empty()) =~= hexcat(b, k as nat));
}
pub proof fn lemma_clean_hex(s: Seq<char>, c: Seq<char>)
    requires repl(s, '-', Seq::empty()) == c, all_hex(c), c.len() > 0
    ensures guid_clean(s) == c
{
    broadcast use ax_is_ws;
    assert(is_hex(c[0]) && is_hex(c.last()));
    assert(trim_l(c) == c);
    assert(trim_r(c) == c);
}
/// the text form of the first n bytes
pub open spec fn guid_upto(b: Seq<u8>, n: nat) -> Seq<char> decreases n {
    if n == 0 { Seq::empty() }
    else if n == 4 || n == 6 || n == 8 || n == 10 { guid_upto(b, (n - 1) as nat) + hex2(b[n - 1], true) + seq!['-'] }
    else { guid_upto(b, (n - 1) as nat) + hex2(b[n - 1], true) }
}
/// what is left of it without its dashes
pub proof fn lemma_guid_upto(b: Seq<u8>, n: nat)
    requires n <= b.len()
    ensures repl(guid_upto(b, n), '-', Seq::empty()) == hexcat(b, n)
    decreases n
{
    hide(hex2);
    if n > 0 { lemma_guid_upto(b, (n - 1) as nat); lemma_repl_hex(guid_upto(b, (n - 1) as nat), b, n as int); }
}
#[verifier::spinoff_prover]
pub proof fn lemma_guid_digits(g: Guid)
    requires g != zero_guid()
    ensures repl(guid_text(g), '-', Seq::empty()) == hexcat(g.0@, 16)
{
    hide(hex2); hide(repl); hide(hexcat);
    let b = g.0@;
    assert(guid_upto(b, 0) == Seq::<char>::empty());
    assert(guid_upto(b, 1) == guid_upto(b, 0) + hex2(b[0], true));
    assert(guid_upto(b, 2) == guid_upto(b, 1) + hex2(b[1], true));
    assert(guid_upto(b, 3) == guid_upto(b, 2) + hex2(b[2], true));
    assert(guid_upto(b, 4) == guid_upto(b, 3) + hex2(b[3], true) + seq!['-']);
    assert(guid_upto(b, 5) == guid_upto(b, 4) + hex2(b[4], true));
    assert(guid_upto(b, 6) == guid_upto(b, 5) + hex2(b[5], true) + seq!['-']);
    assert(guid_upto(b, 7) == guid_upto(b, 6) + hex2(b[6], true));
    assert(guid_upto(b, 8) == guid_upto(b, 7) + hex2(b[7], true) + seq!['-']);
    assert(guid_upto(b, 9) == guid_upto(b, 8) + hex2(b[8], true));
    assert(guid_upto(b, 10) == guid_upto(b, 9) + hex2(b[9], true) + seq!['-']);
    assert(guid_upto(b, 11) == guid_upto(b, 10) + hex2(b[10], true));
    assert(guid_upto(b, 12) == guid_upto(b, 11) + hex2(b[11], true));
    assert(guid_upto(b, 13) == guid_upto(b, 12) + hex2(b[12], true));
    assert(guid_upto(b, 14) == guid_upto(b, 13) + hex2(b[13], true));
    assert(guid_upto(b, 15) == guid_upto(b, 14) + hex2(b[14], true));
    assert(guid_upto(b, 16) == guid_upto(b, 15) + hex2(b[15], true));
    assert(guid_text(g) == guid_upto(b, 16));
    lemma_guid_upto(b, 16);
}
pub proof fn lemma_hex_bytes(b: Seq<u8>, c: Seq<char>)
    requires b.len() == 16, c.len() == 32, forall|i: int| 0 <= i < 16 ==> #[trigger] hexb(c, i) == b[i]
    ensures Seq::new(16, |i: int| hexb(c, i) as u8) == b
{
    hide(hexb);
    assert(Seq::new(16, |i: int| hexb(c, i) as u8) =~= b);
}
/// reading a GUID's text form gives the GUID
#[verifier::spinoff_prover]
pub proof fn lemma_guid_text(g: Guid)
    ensures guid_parse(guid_text(g)) == Some(g)
{
    hide(guid_text); hide(hex2); hide(hexcat); hide(hexb); hide(guid_clean);
    broadcast use {ax_mkguid, ax_guid_ext};
    let b = g.0@;
    let e = Seq::<char>::empty();
    if g == zero_guid() {
        reveal(guid_text);
        lemma_repl_push(e, '0');
        assert(e.push('0') =~= guid_text(g));
        assert(e + seq!['0'] =~= seq!['0']);
        lemma_clean_hex(guid_text(g), seq!['0']);
    } else {
        let c = hexcat(b, 16);
        lemma_guid_digits(g);
        lemma_hexcat(b, 16);
        lemma_clean_hex(guid_text(g), c);
        lemma_hex_bytes(b, c);
    }
}
/// four words and back, a 128-bit integer and back
pub proof fn lemma_guid_words(b: Seq<u8>, w0: u32, w1: u32, w2: u32, w3: u32)
    ensures
        b.len() == 16 ==> e32(u32_at(b, 0)) + e32(u32_at(b, 4)) + e32(u32_at(b, 8)) + e32(u32_at(b, 12)) == b,
        ({ let s = e32(w0) + e32(w1) + e32(w2) + e32(w3);
           s.len() == 16 && u32_at(s, 0) == w0 && u32_at(s, 4) == w1 && u32_at(s, 8) == w2 && u32_at(s, 12) == w3 })
{
    if b.len() == 16 {
        lemma_e32_at(b, 0); lemma_e32_at(b, 4); lemma_e32_at(b, 8); lemma_e32_at(b, 12);
        assert(b.subrange(0, 4) + b.subrange(4, 8) + b.subrange(8, 12) + b.subrange(12, 16) =~= b);
    }
    let s = e32(w0) + e32(w1) + e32(w2) + e32(w3);
    let e = Seq::<u8>::empty();
    lemma_e32_len(w0); lemma_e32_len(w1); lemma_e32_len(w2); lemma_e32_len(w3);
    assert(s =~= e + e32(w0) + (e32(w1) + e32(w2) + e32(w3)));
    lemma_u32_at(e, w0, e32(w1) + e32(w2) + e32(w3));
    assert(s =~= e32(w0) + e32(w1) + (e32(w2) + e32(w3)));
    lemma_u32_at(e32(w0), w1, e32(w2) + e32(w3));
    assert(s =~= (e32(w0) + e32(w1)) + e32(w2) + e32(w3));
    lemma_u32_at(e32(w0) + e32(w1), w2, e32(w3));
    assert(s =~= (e32(w0) + e32(w1) + e32(w2)) + e32(w3) + e);
    lemma_u32_at(e32(w0) + e32(w1) + e32(w2), w3, e);
}
