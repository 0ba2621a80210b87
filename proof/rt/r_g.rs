// ------------------------------------------------------------------ C01 on the contracts of the functions themselves
/// a file in the form C01 speaks of, written and read back
pub fn c01(f: &GvasFile, hints: &HashMap<String, String>)
    requires rt_file(*f, hints@), small(enc_body(*f))
{
    broadcast use ax_all;
    let mut w = Cursor::new(Vec::new());
    match f.write(&mut w) {
        Ok(_) => {
            let ghost cut = w.data();
            proof { assert(cut.subrange(0, w.pos()) =~= cut); lemma_rt_file(*f, hints@, cut); }
            let mut c = Cursor::new(w.inner);
            let gv = match &f.deserialized_game_version { DeserializedGameVersion::Default => GameVersion::Default, DeserializedGameVersion::Palworld(_) => GameVersion::Palworld };
            let b = GvasFile::read_with_hints(&mut c, gv, hints);
            assert(b is Ok && b->Ok_0 == *f);
        },
        Err(_) => {},
    }
}
/// the premises of c01 and what it uses must not be contradictory
pub proof fn c01_must_fail(f: GvasFile, h: Map<Seq<char>, String>, cut: Seq<u8>)
    requires wok_body(f), rt_file(f, h), small(enc_body(f)), file_form(f, cut)
{
    lemma_rt_file(f, h, cut);
    assert(false);
}
pub proof fn lemma_short(s: Seq<char>)
    requires is_ascii(s), s.len() < 1000
    ensures e_string(s).len() < 2000
{ reveal(e_string); broadcast use ax_all; lemma_e32_len((s.len() + 1) as i32 as u32); vstd::utf8::is_ascii_chars_encode_utf8(s); }
/// there are such files, with a property in them
pub proof fn c01_exists(h: Map<Seq<char>, String>, b: bool) -> (f: GvasFile)
    ensures rt_file(f, h), wok_body(f), small(enc_body(f)), f.properties.0@.len() == 1
{
    broadcast use ax_all;
    reveal_strlit("A"); reveal_strlit("None"); reveal_strlit("BoolProperty");
    lemma_lit_ok("A"@); lemma_lit_ok("BoolProperty"@); lemma_lit_ok("None"@);
    assert("A"@ != "None"@) by { assert("A"@.len() == 1); }
    let s = mkstr("A"@);
    let x = Property::BoolProperty(BoolProperty { value: b });
    let m = mkim(seq![(s, x)]);
    let cv: IndexMap<Guid, u32> = mkim(Seq::empty());
    let f = GvasFile {
        deserialized_game_version: DeserializedGameVersion::Default,
        header: GvasHeader::Version2 { package_file_version: 0x205, engine_version: FEngineVersion { major: 4, minor: 0, patch: 0, change_list: 0, branch: s }, custom_version_format: 3, custom_versions: HashableIndexMap(cv), save_game_class_name: s },
        properties: HashableIndexMap(m),
    };
    assert(m@ =~= seq![(s, x)]);
    reveal_with_fuel(rt_top, 2); reveal_with_fuel(wok_top, 2); reveal_with_fuel(enc_top, 2); reveal_with_fuel(e_cvs, 2);
    lemma_cvs_size(cv@, 0);
    lemma_short("A"@); lemma_short("None"@); lemma_short("BoolProperty"@);
    f
}
