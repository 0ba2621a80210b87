// Items that name the crate's own types.
impl Default for Guid {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r == zero_guid() { unimplemented!() }
}
/// the value of a Guid is its sixteen bytes
pub uninterp spec fn mkguid(s: Seq<u8>) -> Guid;
pub broadcast axiom fn ax_mkguid(s: Seq<u8>) requires s.len() == 16 ensures (#[trigger] mkguid(s)).0@ == s;
pub broadcast axiom fn ax_guid_ext(g: Guid) ensures mkguid(#[trigger] g.0@) == g;
pub broadcast axiom fn ax_guid_ext2(a: [u8; 16]) ensures Guid(a) == mkguid(#[trigger] a@);
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
pub open spec fn zero_guid() -> Guid { mkguid(zeros(16)) }
pub trait CustomVersionTrait {
    spec fn guid_spec() -> Guid;
    fn v_guid() -> (r: Guid) ensures r == Self::guid_spec();
}
pub trait OrdExt {
    spec fn oe(&self) -> u32;
    fn between(&self, start: u32, end: u32) -> (r: bool) ensures r == (start <= self.oe() <= end);
}
/// the conversions thiserror derives
pub trait VIntoError : Sized {
    spec fn ie(self) -> Error;
    fn vie(self) -> (r: Error) ensures r == self.ie();
}
impl VIntoError for IoError { open spec fn ie(self) -> Error { Error::Io(self) } fn vie(self) -> Error { Error::Io(self) } }
impl VIntoError for DeserializeError { open spec fn ie(self) -> Error { Error::Deserialize(self) } fn vie(self) -> Error { Error::Deserialize(self) } }
impl VIntoError for SerializeError { open spec fn ie(self) -> Error { Error::Serialize(self) } fn vie(self) -> Error { Error::Serialize(self) } }
impl VIntoError for Error { open spec fn ie(self) -> Error { self } fn vie(self) -> Error { self } }
impl VInto<Error> for IoError { open spec fn into_spec(self) -> Error { Error::Io(self) } fn v_into(self) -> Error { Error::Io(self) } }
impl VInto<Error> for DeserializeError { open spec fn into_spec(self) -> Error { Error::Deserialize(self) } fn v_into(self) -> Error { Error::Deserialize(self) } }
impl VInto<Error> for SerializeError { open spec fn into_spec(self) -> Error { Error::Serialize(self) } fn v_into(self) -> Error { Error::Serialize(self) } }
pub fn v_into_error<T: VIntoError>(t: T) -> (r: Error) ensures r == t.ie() { t.vie() }
#[verifier::external_body]
pub fn v_u128_to_le_bytes(v: u128) -> (r: [u8; 16]) ensures r@ == e128(v) { unimplemented!() }
#[verifier::external_body]
pub fn v_u128_from_le_bytes(v: [u8; 16]) -> (r: u128) ensures r == u128_of(v@) { unimplemented!() }
pub fn v_same_error<T>(t: T) -> (r: T) ensures r == t { t }
/// `mem::transmute` between four words and sixteen bytes, on a little-endian machine
pub trait VTransmute<B> : Sized { spec fn tm(self, b: B) -> bool; fn v_tm(self) -> (r: B) ensures self.tm(r); }
impl VTransmute<[u8; 16]> for [u32; 4] {
    open spec fn tm(self, b: [u8; 16]) -> bool { b@ == e32(self[0]) + e32(self[1]) + e32(self[2]) + e32(self[3]) }
    #[verifier::external_body] fn v_tm(self) -> [u8; 16] { unimplemented!() }
}
impl VTransmute<[u32; 4]> for [u8; 16] {
    open spec fn tm(self, b: [u32; 4]) -> bool { b@ == seq![u32_at(self@, 0), u32_at(self@, 4), u32_at(self@, 8), u32_at(self@, 12)] }
    #[verifier::external_body] fn v_tm(self) -> [u32; 4] { unimplemented!() }
}
pub fn v_transmute<A: VTransmute<B>, B>(a: A) -> (r: B) ensures a.tm(r) { a.v_tm() }
/// `to_le` and `from_le` on a little-endian machine
pub fn v_le(v: u32) -> (r: u32) ensures r == v { v }
pub fn v_slice<T>(v: &Vec<T>) -> (r: &[T]) ensures r@ == v@ { v.as_slice() }
pub broadcast group ax_all {
    ax_f32_a, ax_f32_b, ax_f64_a, ax_f64_b, ax_mkstr, ax_str_ext, ax_mkvec, ax_vec_ext, ax_vec_len,
    ax_mkbox, ax_keq_refl, ax_keq_str, ax_keq_guid, ax_mkim, ax_im_ext, ax_mkguid, ax_guid_ext, ax_guid_ext2, ax_arr4,
    lemma_arr1, lemma_add_empty, lemma_push_pop, lemma_push_cut, lemma_wrote_comp, lemma_wrote_frame, lemma_overwrite_end, lemma_e16_len, lemma_e32_len, lemma_e64_len,
}
