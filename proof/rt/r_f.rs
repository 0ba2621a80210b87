// ------------------------------------------------------------------ a whole file
/// versions a reader accepts
pub open spec fn rt_header(h: GvasHeader) -> bool {
    match h {
        GvasHeader::Version2 { package_file_version, engine_version, custom_version_format, custom_versions, save_game_class_name } =>
            0x205 <= package_file_version <= 0x20D && custom_version_format == 3,
        GvasHeader::Version3 { package_file_version, package_file_version_ue5, engine_version, custom_version_format, custom_versions, save_game_class_name } =>
            0x205 <= package_file_version <= 0x20D && 1000 <= package_file_version_ue5 <= 1009 && custom_version_format == 3,
    }
}
pub open spec fn rt_top(v: IndexMap<String, Property>, n: int, e: Env) -> bool decreases n
{ if 0 < n <= v@.len() { rt_top(v, n - 1, e) && v@[n - 1].0@ != "None"@ && rt_prop(v@[n - 1].1, kind_of(v@[n - 1].1), true, e, Seq::empty().push(v@[n - 1].0), None) } else { true } }
pub proof fn lemma_rt_engine(d: Seq<u8>, p: int, x: FEngineVersion)
    requires at(d, p, e_engine(x)), str_ok(x.branch@)
    ensures p_engine(d, p) == Ok::<(FEngineVersion, int), E>((x, p + e_engine(x).len()))
{ broadcast use {ax_all, rt_base}; }
pub proof fn lemma_at_cvs(d: Seq<u8>, p: int, m: Seq<(Guid, u32)>, i: int, n: int)
    requires at(d, p, e_cvs(m, n)), 0 <= i < n <= m.len()
    ensures at(d, p + e_cvs(m, i).len(), e_cv(m[i].0, m[i].1)), e_cvs(m, i + 1).len() == e_cvs(m, i).len() + e_cv(m[i].0, m[i].1).len()
    decreases n
{
    lemma_at_cat(d, p, e_cvs(m, n - 1), e_cv(m[n - 1].0, m[n - 1].1));
    if i < n - 1 { lemma_at_cvs(d, p, m, i, n - 1); }
}
pub proof fn lemma_cvs_size(m: Seq<(Guid, u32)>, n: int)
    requires 0 <= n <= m.len()
    ensures e_cvs(m, n).len() == 20 * n
    decreases n
{ broadcast use ax_all; if n > 0 { lemma_cvs_size(m, n - 1); } }
pub proof fn lemma_rt_cvs(d: Seq<u8>, p: int, m: IndexMap<Guid, u32>, i: int)
    requires at(d, p, e_cvs(m@, m@.len() as int)), 0 <= i <= m@.len()
    ensures p_cvs(d, p + e_cvs(m@, i).len(), m@.len() - i, m@.subrange(0, i)) == Ok::<(IndexMap<Guid, u32>, int), E>((m, p + e_cvs(m@, m@.len() as int).len()))
    decreases m@.len() - i
{
    broadcast use {ax_mkim, ax_im_ext};
    if i < m@.len() {
        lemma_at_cvs(d, p, m@, i, m@.len() as int);
        let q = p + e_cvs(m@, i).len();
        lemma_at_cat(d, q, m@[i].0.0@, e32(m@[i].1));
        lemma_at_guid(d, q, m@[i].0);
        lemma_at_u32(d, q + 16, m@[i].1);
        lemma_e32_len(m@[i].1);
        lemma_im_next(m@, i);
        lemma_rt_cvs(d, p, m, i + 1);
    } else { assert(m@.subrange(0, i) =~= m@); }
}
pub proof fn lemma_rt_header2(d: Seq<u8>, p: int, pv: u32, u5: Option<u32>, ev: FEngineVersion, m: IndexMap<Guid, u32>, c: String)
    requires at(d, p, e_engine(ev)), str_ok(ev.branch@), at(d, p + e_engine(ev).len(), e32(3)), at(d, p + e_engine(ev).len() + 4, e32(m@.len() as u32)),
        at(d, p + e_engine(ev).len() + 8, e_cvs(m@, m@.len() as int)), at(d, p + e_engine(ev).len() + 8 + e_cvs(m@, m@.len() as int).len(), e_string(c@)), str_ok(c@), small(d)
    ensures p_header2(d, p, pv, u5) == Ok::<(GvasHeader, int), E>((match u5 {
        None => GvasHeader::Version2 { package_file_version: pv, engine_version: ev, custom_version_format: 3, custom_versions: HashableIndexMap(m), save_game_class_name: c },
        Some(u) => GvasHeader::Version3 { package_file_version: pv, package_file_version_ue5: u, engine_version: ev, custom_version_format: 3, custom_versions: HashableIndexMap(m), save_game_class_name: c },
    }, p + e_engine(ev).len() + 8 + e_cvs(m@, m@.len() as int).len() + e_string(c@).len()))
{
    broadcast use {ax_mkstr, ax_str_ext};
    lemma_rt_engine(d, p, ev);
    let q = p + e_engine(ev).len();
    lemma_at_u32(d, q, 3);
    lemma_at_u32(d, q + 4, m@.len() as u32);
    lemma_rt_cvs(d, q + 8, m, 0);
    lemma_cvs_size(m@, 0);
    lemma_cvs_size(m@, m@.len() as int);
    assert(m@.subrange(0, 0) =~= Seq::empty());
    lemma_at_string(d, q + 8 + e_cvs(m@, m@.len() as int).len(), c@);
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_rt_header(d: Seq<u8>, h: GvasHeader)
    requires at(d, 0, enc_header(h)), wok_header(h), rt_header(h), small(d)
    ensures p_header(d, 0) == Ok::<(GvasHeader, int), E>((h, enc_header(h).len() as int))
{
    broadcast use {lemma_at_cat, lemma_e32_len};
    match h {
        GvasHeader::Version2 { package_file_version, engine_version, custom_version_format, custom_versions, save_game_class_name } => {
            lemma_at_u32(d, 0, GVAS);
            lemma_at_u32(d, 4, 2);
            lemma_at_u32(d, 8, package_file_version);
            lemma_rt_header2(d, 12, package_file_version, None, engine_version, custom_versions.0, save_game_class_name);
        },
        GvasHeader::Version3 { package_file_version, package_file_version_ue5, engine_version, custom_version_format, custom_versions, save_game_class_name } => {
            lemma_at_u32(d, 0, GVAS);
            lemma_at_u32(d, 4, 3);
            lemma_at_u32(d, 8, package_file_version);
            lemma_at_u32(d, 12, package_file_version_ue5);
            lemma_rt_header2(d, 16, package_file_version, Some(package_file_version_ue5), engine_version, custom_versions.0, save_game_class_name);
        },
    }
}
pub proof fn lemma_at_top(d: Seq<u8>, p: int, v: IndexMap<String, Property>, i: int, n: int, e: Env)
    requires at(d, p, enc_top(v, n, e.cv)), 0 <= i < n <= v@.len(), wok_top(v, n, e.cv), rt_top(v, n, e)
    ensures at(d, p + enc_top(v, i, e.cv).len(), e_string(v@[i].0@) + enc_prop(v@[i].1, true, e.cv)),
        enc_top(v, i + 1, e.cv).len() == enc_top(v, i, e.cv).len() + e_string(v@[i].0@).len() + enc_prop(v@[i].1, true, e.cv).len(),
        str_ok(v@[i].0@), wok_prop(v@[i].1, true, e.cv), v@[i].0@ != "None"@, rt_prop(v@[i].1, kind_of(v@[i].1), true, e, Seq::empty().push(v@[i].0), None)
    decreases n
{
    lemma_at_cat(d, p, enc_top(v, n - 1, e.cv), e_string(v@[n - 1].0@) + enc_prop(v@[n - 1].1, true, e.cv));
    if i < n - 1 { lemma_at_top(d, p, v, i, n - 1, e); }
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_rt_top(d: Seq<u8>, p: int, v: IndexMap<String, Property>, i: int, e: Env)
    requires at(d, p, enc_top(v, v@.len() as int, e.cv)), wok_top(v, v@.len() as int, e.cv), rt_top(v, v@.len() as int, e), small(d), 0 <= i <= v@.len(),
        at(d, p + enc_top(v, v@.len() as int, e.cv).len(), e_string("None"@))
    ensures p_top(d, p + enc_top(v, i, e.cv).len(), e, v@.subrange(0, i)) == Ok::<(IndexMap<String, Property>, int), E>((v, p + enc_top(v, v@.len() as int, e.cv).len() + e_string("None"@).len()))
    decreases v@.len() - i
{
    broadcast use {ax_mkim, ax_im_ext, ax_mkstr, ax_str_ext};
    let q = p + enc_top(v, i, e.cv).len();
    if i < v@.len() {
        lemma_at_top(d, p, v, i, v@.len() as int, e);
        let k = v@[i].0; let x = v@[i].1;
        lemma_at_cat(d, q, e_string(k@), enc_prop(x, true, e.cv));
        lemma_at_string(d, q, k@);
        let r = q + e_string(k@).len();
        lemma_rt_prop(d, r, x, kind_of(x), true, e, Seq::empty().push(k), None);
        lemma_im_next(v@, i);
        lemma_rt_top(d, p, v, i + 1, e);
    } else {
        lemma_none_ok();
        lemma_at_string(d, q, "None"@);
        assert(v@.subrange(0, i) =~= v@);
    }
}
pub open spec fn rt_file(f: GvasFile, h: Map<Seq<char>, String>) -> bool {
    rt_header(f.header) && rt_top(f.properties.0, f.properties.0@.len() as int, Env { h, cv: hcv(f.header).0@ })
}
pub proof fn lemma_rt_body(f: GvasFile, h: Map<Seq<char>, String>)
    requires wok_body(f), rt_file(f, h), small(enc_body(f))
    ensures p_body(enc_body(f), h) == Ok::<(GvasHeader, IndexMap<String, Property>), E>((f.header, f.properties.0))
{
    let d = enc_body(f); let m = f.properties.0; let e = Env { h, cv: hcv(f.header).0@ };
    assert(at(d, 0, d)) by { assert(d.subrange(0, d.len() as int) =~= d); }
    let a = enc_header(f.header); let b = enc_top(m, m@.len() as int, e.cv);
    lemma_at_cat(d, 0, a + b + e_string("None"@), e32(0));
    lemma_at_cat(d, 0, a + b, e_string("None"@));
    lemma_at_cat(d, 0, a, b);
    lemma_rt_header(d, f.header);
    lemma_rt_top(d, a.len() as int, m, 0, e);
    assert(m@.subrange(0, 0) =~= Seq::empty());
}
/// C01: what `write` produces, `read_with_hints` takes apart into the same file
pub proof fn lemma_rt_file(f: GvasFile, h: Map<Seq<char>, String>, cut: Seq<u8>)
    requires wok_body(f), rt_file(f, h), small(enc_body(f)), file_form(f, cut)
    ensures ({
        let gv = match f.deserialized_game_version { DeserializedGameVersion::Default => GameVersion::Default, DeserializedGameVersion::Palworld(c) => GameVersion::Palworld };
        let r = p_pay(cut, 0, gv);
        &&& r is Ok
        &&& r->Ok_0.gv == f.deserialized_game_version
        &&& r->Ok_0.sure
        &&& p_body(r->Ok_0.data, h) == Ok::<(GvasHeader, IndexMap<String, Property>), E>((f.header, f.properties.0))
    })
{
    let b = enc_body(f);
    lemma_rt_body(f, h);
    match f.deserialized_game_version {
        DeserializedGameVersion::Default => { assert(cut.subrange(0, cut.len() as int) =~= cut); },
        DeserializedGameVersion::Palworld(c) => {
            broadcast use {lemma_e32_len, ax_all};
            assert(at(cut, 0, e32(b.len() as u32)));
            lemma_at_u32(cut, 0, b.len() as u32);
            assert(at(cut, 4, e32((cut.len() - 8) as u32)));
            lemma_at_u32(cut, 4, (cut.len() - 8) as u32);
            let comp = cut.subrange(12, cut.len() as int);
            assert(comp.subrange(0, comp.len() as int) =~= comp);
            assert(b.subrange(0, b.len() as int) =~= b);
            if c is None { assert(cut.subrange(12, (12 + b.len()) as int) =~= comp); }
        },
    }
}
