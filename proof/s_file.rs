// ------------------------------------------------------------------ headers of files
pub spec const GVAS: u32 = 0x53415647;
pub open spec fn e_engine(x: FEngineVersion) -> Seq<u8> { e16(x.major) + e16(x.minor) + e16(x.patch) + e32(x.change_list) + e_string(x.branch@) }
pub open spec fn p_engine(d: Seq<u8>, p: int) -> PR<FEngineVersion> {
    let (a, q) <- p_u16(d, p);
    let (b, q) <- p_u16(d, q);
    let (c, q) <- p_u16(d, q);
    let (n, q) <- p_u32(d, q);
    let (s, q) <- p_string(d, q);
    Ok((FEngineVersion { major: a, minor: b, patch: c, change_list: n, branch: s }, q))
}
pub open spec fn e_cv(k: Guid, v: u32) -> Seq<u8> { k.0@ + e32(v) }
pub open spec fn p_cv(d: Seq<u8>, p: int) -> PR<FCustomVersion> {
    let (k, q) <- p_guid(d, p);
    let (v, q) <- p_u32(d, q);
    Ok((FCustomVersion { key: k, version: v }, q))
}
pub open spec fn e_cvs(m: Seq<(Guid, u32)>, n: int) -> Seq<u8> decreases n
{ if 0 < n <= m.len() { e_cvs(m, n - 1) + e_cv(m[n - 1].0, m[n - 1].1) } else { Seq::empty() } }
pub proof fn lemma_cvs_prefix(m: Seq<(Guid, u32)>, i: int, n: int)
    requires 0 <= i <= n <= m.len()
    ensures e_cvs(m, i).len() <= e_cvs(m, n).len()
    decreases n
{ if i < n { lemma_cvs_prefix(m, i, n - 1); } }
pub proof fn lemma_cvs_step(x: Seq<u8>, m: Seq<(Guid, u32)>, i: int)
    requires 0 <= i < m.len()
    ensures x + e_cvs(m, i + 1) == (x + e_cvs(m, i)) + e_cv(m[i].0, m[i].1)
{ assert(x + e_cvs(m, i + 1) =~= (x + e_cvs(m, i)) + e_cv(m[i].0, m[i].1)); }
pub open spec fn p_cvs(d: Seq<u8>, p: int, n: int, acc: Seq<(Guid, u32)>) -> PR<IndexMap<Guid, u32>>
    decreases n
{
    if n <= 0 { Ok((mkim(acc), p)) } else {
        let (x, q) <- p_cv(d, p);
        p_cvs(d, q, n - 1, im_insert(acc, x.key, x.version))
    }
}
pub open spec fn hcv(h: GvasHeader) -> HashableIndexMap<Guid, u32> {
    match h {
        GvasHeader::Version2 { package_file_version, engine_version, custom_version_format, custom_versions, save_game_class_name } => custom_versions,
        GvasHeader::Version3 { package_file_version, package_file_version_ue5, engine_version, custom_version_format, custom_versions, save_game_class_name } => custom_versions,
    }
}
pub open spec fn enc_header(h: GvasHeader) -> Seq<u8> {
    match h {
        GvasHeader::Version2 { package_file_version, engine_version, custom_version_format, custom_versions, save_game_class_name } =>
            e32(GVAS) + e32(2) + e32(package_file_version) + e_engine(engine_version) + e32(custom_version_format)
                + e32(custom_versions.0@.len() as u32) + e_cvs(custom_versions.0@, custom_versions.0@.len() as int) + e_string(save_game_class_name@),
        GvasHeader::Version3 { package_file_version, package_file_version_ue5, engine_version, custom_version_format, custom_versions, save_game_class_name } =>
            e32(GVAS) + e32(3) + e32(package_file_version) + e32(package_file_version_ue5) + e_engine(engine_version) + e32(custom_version_format)
                + e32(custom_versions.0@.len() as u32) + e_cvs(custom_versions.0@, custom_versions.0@.len() as int) + e_string(save_game_class_name@),
    }
}
pub open spec fn wok_header(h: GvasHeader) -> bool {
    match h {
        GvasHeader::Version2 { package_file_version, engine_version, custom_version_format, custom_versions, save_game_class_name } =>
            str_ok(engine_version.branch@) && str_ok(save_game_class_name@),
        GvasHeader::Version3 { package_file_version, package_file_version_ue5, engine_version, custom_version_format, custom_versions, save_game_class_name } =>
            str_ok(engine_version.branch@) && str_ok(save_game_class_name@),
    }
}
/// what follows the version numbers of the package
pub open spec fn p_header2(d: Seq<u8>, p: int, pv: u32, u5: Option<u32>) -> PR<GvasHeader> {
    let (ev, q) <- p_engine(d, p);
    let (cf, q) <- p_u32(d, q);
    guard cf == 3 else E::Hdr;
    let (n, q) <- p_u32(d, q);
    let (m, q) <- p_cvs(d, q, n as int, Seq::empty());
    let (c, q) <- p_string(d, q);
    Ok((match u5 {
        None => GvasHeader::Version2 { package_file_version: pv, engine_version: ev, custom_version_format: cf, custom_versions: HashableIndexMap(m), save_game_class_name: c },
        Some(u) => GvasHeader::Version3 { package_file_version: pv, package_file_version_ue5: u, engine_version: ev, custom_version_format: cf, custom_versions: HashableIndexMap(m), save_game_class_name: c },
    }, q))
}
pub open spec fn p_header(d: Seq<u8>, p: int) -> PR<GvasHeader> {
    let (t, q) <- p_u32(d, p);
    guard t == GVAS else E::Hdr;
    let (v, q) <- p_u32(d, q);
    guard 2 <= v <= 3 else E::Hdr;
    let (pv, q) <- p_u32(d, q);
    guard 0x205 <= pv <= 0x20D else E::Hdr;
    if v >= 3 {
        let (u, q) <- p_u32(d, q);
        guard 1000 <= u <= 1009 else E::Hdr;
        p_header2(d, q, pv, Some(u))
    } else { p_header2(d, q, pv, None) }
}
pub open spec fn eng(x: FEngineVersion) -> EngineVersion {
    if x.major == 4 && x.minor == 0 { EngineVersion::VER_UE4_0 } else if x.major == 4 && x.minor == 1 { EngineVersion::VER_UE4_1 } else if x.major == 4 && x.minor == 2 { EngineVersion::VER_UE4_2 } else if x.major == 4 && x.minor == 3 { EngineVersion::VER_UE4_3 } else if x.major == 4 && x.minor == 4 { EngineVersion::VER_UE4_4 } else if x.major == 4 && x.minor == 5 { EngineVersion::VER_UE4_5 } else if x.major == 4 && x.minor == 6 { EngineVersion::VER_UE4_6 } else if x.major == 4 && x.minor == 7 { EngineVersion::VER_UE4_7 } else if x.major == 4 && x.minor == 8 { EngineVersion::VER_UE4_8 } else if x.major == 4 && x.minor == 9 { EngineVersion::VER_UE4_9 } else if x.major == 4 && x.minor == 10 { EngineVersion::VER_UE4_10 } else if x.major == 4 && x.minor == 11 { EngineVersion::VER_UE4_11 } else if x.major == 4 && x.minor == 12 { EngineVersion::VER_UE4_12 } else if x.major == 4 && x.minor == 13 { EngineVersion::VER_UE4_13 } else if x.major == 4 && x.minor == 14 { EngineVersion::VER_UE4_14 } else if x.major == 4 && x.minor == 15 { EngineVersion::VER_UE4_15 } else if x.major == 4 && x.minor == 16 { EngineVersion::VER_UE4_16 } else if x.major == 4 && x.minor == 17 { EngineVersion::VER_UE4_17 } else if x.major == 4 && x.minor == 18 { EngineVersion::VER_UE4_18 } else if x.major == 4 && x.minor == 19 { EngineVersion::VER_UE4_19 } else if x.major == 4 && x.minor == 20 { EngineVersion::VER_UE4_20 } else if x.major == 4 && x.minor == 21 { EngineVersion::VER_UE4_21 } else if x.major == 4 && x.minor == 22 { EngineVersion::VER_UE4_22 } else if x.major == 4 && x.minor == 23 { EngineVersion::VER_UE4_23 } else if x.major == 4 && x.minor == 24 { EngineVersion::VER_UE4_24 } else if x.major == 4 && x.minor == 25 { EngineVersion::VER_UE4_25 } else if x.major == 4 && x.minor == 26 { EngineVersion::VER_UE4_26 } else if x.major == 4 && x.minor == 27 { EngineVersion::VER_UE4_27 } else if x.major == 5 && x.minor == 0 { EngineVersion::VER_UE5_0 } else if x.major == 5 && x.minor == 1 { EngineVersion::VER_UE5_1 } else if x.major == 5 && x.minor == 2 { EngineVersion::VER_UE5_2 } else { EngineVersion::UNKNOWN }
}

// ------------------------------------------------------------------ files
pub open spec fn enc_top(v: IndexMap<String, Property>, n: int, cv: Seq<(Guid, u32)>) -> Seq<u8> decreases n
{ if 0 < n <= v@.len() { enc_top(v, n - 1, cv) + (e_string(v@[n - 1].0@) + enc_prop(v@[n - 1].1, true, cv)) } else { Seq::empty() } }
pub open spec fn wok_top(v: IndexMap<String, Property>, n: int, cv: Seq<(Guid, u32)>) -> bool decreases n
{ if 0 < n <= v@.len() { wok_top(v, n - 1, cv) && str_ok(v@[n - 1].0@) && wok_prop(v@[n - 1].1, true, cv) } else { true } }
pub proof fn lemma_top_prefix(v: IndexMap<String, Property>, i: int, n: int, cv: Seq<(Guid, u32)>)
    requires 0 <= i <= n <= v@.len()
    ensures enc_top(v, i, cv).len() <= enc_top(v, n, cv).len(), wok_top(v, n, cv) ==> wok_top(v, i, cv)
    decreases n
{ if i < n { lemma_top_prefix(v, i, n - 1, cv); } }
pub proof fn lemma_top_step(x: Seq<u8>, v: IndexMap<String, Property>, i: int, cv: Seq<(Guid, u32)>)
    requires 0 <= i < v@.len()
    ensures x + enc_top(v, i + 1, cv) == (x + enc_top(v, i, cv)) + e_string(v@[i].0@) + enc_prop(v@[i].1, true, cv)
{ assert(x + enc_top(v, i + 1, cv) =~= (x + enc_top(v, i, cv)) + e_string(v@[i].0@) + enc_prop(v@[i].1, true, cv)); }
/// the file before any container is put around it
pub open spec fn enc_body(f: GvasFile) -> Seq<u8> {
    enc_header(f.header) + enc_top(f.properties.0, f.properties.0@.len() as int, hcv(f.header).0@) + e_string("None"@) + e32(0)
}
pub open spec fn wok_body(f: GvasFile) -> bool {
    wok_header(f.header) && wok_top(f.properties.0, f.properties.0@.len() as int, hcv(f.header).0@)
}
/// name, kind, value until the name "None"
pub open spec fn p_top(d: Seq<u8>, p: int, e: Env, acc: Seq<(String, Property)>) -> PR<IndexMap<String, Property>>
    decreases d.len() - p
{
    let (k, q) <- p_string(d, p);
    if k@ == "None"@ { Ok((mkim(acc), q)) } else {
        let (t, q) <- p_string(d, q);
        let (v, z) <- p_prop(d, q, e, Seq::empty().push(k), t@, true, None);
        guard p < z <= d.len() else E::Io;
        p_top(d, z, e, im_insert(acc, k, v))
    }
}
pub open spec fn p_body(d: Seq<u8>, h: Map<Seq<char>, String>) -> Result<(GvasHeader, IndexMap<String, Property>), E> {
    let (hd, q) <- p_header(d, 0);
    let (m, _) <- p_top(d, q, Env { h, cv: hcv(hd).0@ }, Seq::empty());
    Ok((hd, m))
}

// ------------------------------------------------------------------ containers
pub open spec fn plz() -> Seq<u8> { seq![0x50u8, 0x6Cu8, 0x5Au8] }
/// `sure`: decompression cannot fail for want of a well-formed end of the stream
pub struct Pay { pub data: Seq<u8>, pub gv: DeserializedGameVersion, pub sure: bool }
pub open spec fn p_pay(d: Seq<u8>, p: int, gv: GameVersion) -> Result<Pay, E> {
    match gv {
        GameVersion::Default => Ok(Pay { data: d.subrange(p, d.len() as int), gv: DeserializedGameVersion::Default, sure: true }),
        GameVersion::Palworld => {
            let (n, q) <- p_u32(d, p);
            let (_, q) <- p_u32(d, q);
            guard q + 3 <= d.len() else E::Io;
            guard d.subrange(q, q + 3) == plz() else E::Hdr;
            let (c, q) <- p_enum::<PalworldCompressionType>(d, q + 3);
            let rest = d.subrange(q, d.len() as int);
            match c {
                PalworldCompressionType::None => {
                    guard q + n <= d.len() else E::Io;
                    Ok(Pay { data: d.subrange(q, q + n), gv: DeserializedGameVersion::Palworld(c), sure: true })
                },
                PalworldCompressionType::Zlib => {
                    guard n <= zdata(rest).len() else E::Io;
                    Ok(Pay { data: zdata(rest).subrange(0, n as int), gv: DeserializedGameVersion::Palworld(c), sure: !zbad(rest) })
                },
                PalworldCompressionType::ZlibTwice => {
                    guard !zbad(zdata(rest)) else E::Io;
                    Ok(Pay { data: zdata(zdata(rest)), gv: DeserializedGameVersion::Palworld(c), sure: !zbad(rest) })
                },
            }
        },
    }
}
/// a Palworld container of `body`: lengths, magic, kind of compression, contents
pub open spec fn pal_form(c: PalworldCompressionType, body: Seq<u8>, cut: Seq<u8>) -> bool {
    &&& cut.len() >= 12
    &&& cut.subrange(0, 4) == e32(body.len() as u32)
    &&& cut.subrange(4, 8) == e32((cut.len() - 8) as u32)
    &&& cut.subrange(8, 11) == plz()
    &&& cut[11] == u8_of(c.into_spec())
    &&& pal_data(c, body, cut.subrange(12, cut.len() as int))
}
pub open spec fn pal_data(c: PalworldCompressionType, body: Seq<u8>, comp: Seq<u8>) -> bool {
    match c {
        PalworldCompressionType::None => comp == body,
        PalworldCompressionType::Zlib => zdata(comp) == body && !zbad(comp),
        PalworldCompressionType::ZlibTwice => zdata(zdata(comp)) == body && !zbad(comp) && !zbad(zdata(comp)),
    }
}
pub open spec fn file_form(f: GvasFile, cut: Seq<u8>) -> bool {
    match f.deserialized_game_version {
        DeserializedGameVersion::Default => cut == enc_body(f),
        DeserializedGameVersion::Palworld(c) => pal_form(c, enc_body(f), cut),
    }
}
pub open spec fn file_wrote<W: VStream + ?Sized>(f: GvasFile, a: &W, z: &W) -> bool {
    let cut = z.data().subrange(a.pos(), z.pos());
    wrote(a, z, cut) && file_form(f, cut)
}
pub open spec fn file_room<W: VStream + ?Sized>(f: GvasFile, a: &W) -> bool {
    let b = enc_body(f);
    b.len() < LIM && room(a, 12) && match f.deserialized_game_version {
        DeserializedGameVersion::Palworld(c) => match c {
            PalworldCompressionType::Zlib => forall|l: int| room(a, (12 + (#[trigger] deflate(l, b)).len()) as int),
            PalworldCompressionType::ZlibTwice => forall|l: int, k: int| room(a, (12 + (#[trigger] deflate(l, deflate(k, b))).len()) as int),
            _ => room(a, 12 + b.len() as int),
        },
        _ => room(a, b.len() as int),
    }
}
pub open spec fn patch4(x: Seq<u8>, y: Seq<u8>) -> Seq<u8> { x.subrange(0, 4) + y + x.subrange(8, x.len() as int) }
pub broadcast proof fn lemma_patch<W: VStream + ?Sized>(a: &W, b: &W, s: &W, t: &W, x: Seq<u8>, y: Seq<u8>)
    requires #[trigger] anchor(a), wr_ok(a), #[trigger] wrote(a, b, x), s.data() == b.data(), s.pos() == a.pos() + 4, #[trigger] wrote(s, t, y), y.len() == 4, x.len() >= 8
    ensures t.data() == overwrite(a.data(), a.pos(), patch4(x, y)), patch4(x, y).len() == x.len(), t.data().len() == b.data().len(),
        t.data().subrange(a.pos(), a.pos() + x.len()) == patch4(x, y)
{
    assert(t.data() =~= overwrite(a.data(), a.pos(), patch4(x, y)));
    assert(t.data().subrange(a.pos(), a.pos() + x.len()) =~= patch4(x, y));
}
pub broadcast proof fn lemma_wrote_same<W: VStream + ?Sized>(a: &W, b: &W, c: &W, x: Seq<u8>)
    requires #[trigger] anchor(a), #[trigger] wrote(a, b, x), #[trigger] st_same(b, c)
    ensures wrote(a, c, x)
{ }
pub broadcast proof fn lemma_cut<W: VStream + ?Sized>(a: &W, b: &W, x: Seq<u8>)
    requires #[trigger] anchor(a), wr_ok(a), #[trigger] wrote(a, b, x)
    ensures b.data().subrange(a.pos(), b.pos()) == x
{ assert(b.data().subrange(a.pos(), b.pos()) =~= x); }
pub broadcast proof fn lemma_pal(a: Seq<u8>, b: Seq<u8>, m: Seq<u8>, t: u8, c: Seq<u8>, y: Seq<u8>)
    requires a.len() == 4, b.len() == 4, m.len() == 3, y.len() == 4
    ensures ({
        let p = #[trigger] patch4(a + b + m + seq![t] + c, y);
        &&& p.len() == 12 + c.len()
        &&& p.subrange(0, 4) == a
        &&& p.subrange(4, 8) == y
        &&& p.subrange(8, 11) == m
        &&& p[11] == t
        &&& p.subrange(12, p.len() as int) == c
    })
{
    let p = patch4(a + b + m + seq![t] + c, y);
    assert(p.subrange(0, 4) =~= a);
    assert(p.subrange(4, 8) =~= y);
    assert(p.subrange(8, 11) =~= m);
    assert(p.subrange(12, p.len() as int) =~= c);
}
pub broadcast proof fn lemma_zlib(level: int, d: Seq<u8>)
    ensures zdata(#[trigger] deflate(level, d)) == d, !zbad(deflate(level, d))
{ broadcast use {ax_zlib}; assert(deflate(level, d) =~= deflate(level, d) + Seq::<u8>::empty()); }
