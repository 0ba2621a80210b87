
// ------------------------------------------------------------------ what an error's text shows
pub open spec fn sh_i(v: int) -> Shown { Shown::Int(v) }
pub open spec fn sh_t(v: BoxStr) -> Shown { Shown::Text(v.sv()) }
/// every value the error carries, the position last
pub open spec fn shown_des(e: DeserializeError) -> Seq<Shown> {
    match e {
        DeserializeError::InvalidHeader(m) => seq![sh_t(m)],
        DeserializeError::InvalidValueSize(want, got, p) => seq![sh_i(want as int), sh_i(got as int), sh_i(p as int)],
        DeserializeError::InvalidString(n, p) => seq![sh_i(n as int), sh_i(p as int)],
        DeserializeError::InvalidStringTerminator(v, p) => seq![sh_i(v as int), sh_i(p as int)],
        DeserializeError::InvalidBoolean(v, p) => seq![sh_i(v as int), sh_i(p as int)],
        DeserializeError::MissingHint(s, path, p) => seq![sh_t(s), sh_t(path), sh_i(p as int)],
        DeserializeError::MissingArgument(s, p) => seq![sh_t(s), sh_i(p as int)],
        DeserializeError::InvalidProperty(s, p) => seq![sh_t(s), sh_i(p as int)],
        DeserializeError::InvalidEnumValue(s, v, p) => seq![sh_t(s), sh_i(v as int), sh_i(p as int)],
        DeserializeError::InvalidArrayIndex(v, p) => seq![sh_i(v as int), sh_i(p as int)],
        DeserializeError::InvalidTerminator(v, p) => seq![sh_i(v as int), sh_i(p as int)],
        DeserializeError::FromUtf16Error(_, p) => seq![sh_i(p as int)],
        DeserializeError::FromUtf8Error(_, p) => seq![sh_i(p as int)],
    }
}
pub open spec fn shown_ser(e: SerializeError) -> Seq<Shown> {
    match e {
        SerializeError::InvalidValue(m) => seq![sh_t(m)],
        SerializeError::StructMissingField(s, m) => seq![sh_t(s), sh_t(m)],
    }
}
