// ------------------------------------------------------------------ a file that was read
pub open spec fn good_top(s: Seq<(String, Property)>, e: Env) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0@ != "None"@ && str_ok(s[i].0@) && good(s[i].1, kind_of(s[i].1), true, e, Seq::empty().push(s[i].0), None)
}
pub proof fn lemma_good_top(v: IndexMap<String, Property>, n: int, e: Env)
    requires 0 <= n <= v@.len(), good_top(v@, e)
    ensures wok_top(v, n, e.cv), small(enc_top(v, n, e.cv)) ==> rt_top(v, n, e)
    decreases n
{
    if n > 0 {
        lemma_good_top(v, n - 1, e);
        assert(v@[n - 1].0@ != "None"@);
        assert(enc_top(v, n, e.cv) == enc_top(v, n - 1, e.cv) + (e_string(v@[n - 1].0@) + enc_prop(v@[n - 1].1, true, e.cv)));
    }
}
pub proof fn lemma_top_insert(s: Seq<(String, Property)>, k: String, x: Property, e: Env)
    requires im_nodup(s), good_top(s, e), k@ != "None"@, str_ok(k@), good(x, kind_of(x), true, e, Seq::empty().push(k), None)
    ensures im_nodup(im_insert(s, k, x)), good_top(im_insert(s, k, x), e), im_insert(s, k, x).len() <= s.len() + 1
{
    broadcast use ax_keq_str;
    lemma_find(s, k);
    let r = im_insert(s, k, x);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).0@ != "None"@ && str_ok(r[i].0@) && good(r[i].1, kind_of(r[i].1), true, e, Seq::empty().push(r[i].0), None) by {
        if i < s.len() { assert(s[i].0@ != "None"@); }
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies !keq((#[trigger] r[i]).0, (#[trigger] r[j]).0) by {
        if j < s.len() { assert(!keq(s[i].0, s[j].0)); } else { assert(!keq(s[i].0, k)); }
    }
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn b_top(d: Seq<u8>, p: int, e: Env, acc: Seq<(String, Property)>)
    requires 0 <= p, d.len() < LIM, im_nodup(acc), good_top(acc, e), acc.len() <= p
    ensures p_top(d, p, e, acc) matches Ok((m, q)) ==> wok_top(m, m@.len() as int, e.cv) && (small(enc_top(m, m@.len() as int, e.cv)) ==> rt_top(m, m@.len() as int, e))
    decreases d.len() - p
{
    broadcast use {lemma_read_string, ax_mkstr, ax_mkim};
    if let Ok((k, q)) = p_string(d, p) {
        if k@ == "None"@ {
            let m = mkim(acc);
            lemma_good_top(m, m@.len() as int, e);
        } else if let Ok((t, q)) = p_string(d, q) {
            b_prop(d, q, e, Seq::empty().push(k), t@, true, None);
            if let Ok((x, z)) = p_prop(d, q, e, Seq::empty().push(k), t@, true, None) {
                if p < z <= d.len() {
                    lemma_top_insert(acc, k, x, e);
                    b_top(d, z, e, im_insert(acc, k, x));
                }
            }
        }
    }
}
pub proof fn b_cvs(d: Seq<u8>, p: int, n: int, acc: Seq<(Guid, u32)>)
    requires 0 <= p
    ensures p_cvs(d, p, n, acc) matches Ok((m, q)) ==> p <= q
    decreases n
{
    if n > 0 {
        if let Ok((x, q)) = p_cv(d, p) { b_cvs(d, q, n - 1, im_insert(acc, x.key, x.version)); }
    }
}
pub proof fn b_header2(d: Seq<u8>, p: int, pv: u32, u5: Option<u32>)
    requires 0 <= p, 0x205 <= pv <= 0x20D, u5 matches Some(u) ==> 1000 <= u <= 1009
    ensures p_header2(d, p, pv, u5) matches Ok((h, q)) ==> wok_header(h) && rt_header(h) && p <= q
{
    broadcast use {lemma_read_string, ax_mkstr};
    if let Ok((ev, q)) = p_engine(d, p) {
        if let Ok((cf, q)) = p_u32(d, q) {
            if let Ok((n, q)) = p_u32(d, q) { b_cvs(d, q, n as int, Seq::empty()); }
        }
    }
}
pub proof fn b_header(d: Seq<u8>)
    ensures p_header(d, 0) matches Ok((h, q)) ==> wok_header(h) && rt_header(h) && 0 <= q
{
    if let Ok((t, q)) = p_u32(d, 0) { if let Ok((v, q)) = p_u32(d, q) { if let Ok((pv, q)) = p_u32(d, q) {
        if 0x205 <= pv <= 0x20D {
            if v >= 3 { if let Ok((u, q)) = p_u32(d, q) { if 1000 <= u <= 1009 { b_header2(d, q, pv, Some(u)); } } } else { b_header2(d, q, pv, None); }
        }
    } } }
}
/// C19: whatever `read_with_hints` returns can be written and is in the form C01 speaks of
pub proof fn lemma_read_file(d: Seq<u8>, h: Map<Seq<char>, String>, f: GvasFile)
    requires p_body(d, h) == Ok::<(GvasHeader, IndexMap<String, Property>), E>((f.header, f.properties.0)), d.len() < LIM
    ensures wok_body(f), small(enc_body(f)) ==> rt_file(f, h)
{
    b_header(d);
    let q = p_header(d, 0)->Ok_0.1;
    b_top(d, q, Env { h, cv: hcv(f.header).0@ }, Seq::empty());
    let b = enc_top(f.properties.0, f.properties.0@.len() as int, hcv(f.header).0@);
    assert(enc_body(f).len() == enc_header(f.header).len() + b.len() + e_string("None"@).len() + e32(0).len());
}
/// the bytes a stream holds, read, written and read again
pub fn c19(from: &mut Cursor<Vec<u8>>, gv: GameVersion, hints: &HashMap<String, String>)
    requires rd_ok(old(from)), p_pay(old(from).data(), old(from).pos(), gv) matches Ok(x) ==> x.data.len() < LIM
{
    broadcast use ax_all;
    let ghost pay = p_pay(from.data(), from.pos(), gv);
    match GvasFile::read_with_hints(from, gv, hints) {
        Ok(f) => {
            proof { lemma_read_file(pay->Ok_0.data, hints@, f); }
            let mut w = Cursor::new(Vec::new());
            let ghost fits = file_room(f, &w);
            match f.write(&mut w) {
                Ok(_) => {
                    let ghost cut = w.data();
                    proof { assert(cut.subrange(0, w.pos()) =~= cut); }
                    let mut c = Cursor::new(w.inner);
                    let b = GvasFile::read_with_hints(&mut c, gv, hints);
                    proof {
                        if small(enc_body(f)) {
                            lemma_rt_file(f, hints@, cut);
                            assert(b is Ok && b->Ok_0 == f);
                        }
                    }
                },
                Err(_) => { assert(!fits); },
            }
        },
        Err(_) => {},
    }
}
/// what c19 starts from must not be contradictory
pub proof fn c19_must_fail(d: Seq<u8>, h: Map<Seq<char>, String>, f: GvasFile)
    requires p_body(d, h) == Ok::<(GvasHeader, IndexMap<String, Property>), E>((f.header, f.properties.0)), d.len() < LIM
{
    lemma_read_file(d, h, f);
    assert(false);
}
/// there are bytes that are accepted, with a property in them
pub proof fn c19_exists(h: Map<Seq<char>, String>) -> (d: Seq<u8>)
    ensures p_body(d, h) matches Ok((_, m)) && m@.len() == 1, d.len() < LIM
{
    let f = c01_exists(h, true);
    lemma_rt_body(f, h);
    enc_body(f)
}
