// Models of everything the crate takes from std and from other crates.
// Every item marked external_body, every axiom and every uninterpreted
// function in this file is an assumption; the checker lists them in evidence.
global size_of usize == 8;

// ------------------------------------------------------------------ streams
/// Largest number of bytes any stream or buffer is assumed to hold.
pub spec const LIM: int = 0x1000_0000_0000_0000;

#[verifier::external_body]
pub struct IoError { _p: u8 }

/// A stream is a byte sequence and a position in it.
/// `infallible`: operations fail only at end of input, never for outside reasons.
pub trait VStream {
    spec fn data(&self) -> Seq<u8>;
    spec fn pos(&self) -> int;
    spec fn infallible(&self) -> bool;
}

/// precondition of every reader
pub open spec fn rd_ok<R: VStream + ?Sized>(r: &R) -> bool {
    &&& 0 <= r.pos() <= r.data().len()
    &&& r.data().len() < LIM
    &&& r.infallible()
}
/// what a reader leaves untouched
pub open spec fn rd_same<R: VStream + ?Sized>(a: &R, b: &R) -> bool {
    &&& b.data() == a.data()
    &&& b.infallible()
    &&& 0 <= b.pos() <= b.data().len()
}
/// precondition of every writer
pub open spec fn wr_ok<W: VStream + ?Sized>(w: &W) -> bool {
    &&& 0 <= w.pos() <= w.data().len()
    &&& w.data().len() < LIM
}
pub open spec fn at_end<W: VStream + ?Sized>(w: &W) -> bool {
    w.pos() == w.data().len()
}
pub open spec fn overwrite(d: Seq<u8>, p: int, b: Seq<u8>) -> Seq<u8> {
    if p + b.len() >= d.len() { d.subrange(0, p) + b } else { d.subrange(0, p) + b + d.subrange(p + b.len(), d.len() as int) }
}
/// effect of writing `b` at the position
pub open spec fn wrote<W: VStream + ?Sized>(a: &W, z: &W, b: Seq<u8>) -> bool {
    &&& z.data() == overwrite(a.data(), a.pos(), b)
    &&& z.pos() == a.pos() + b.len()
    &&& z.infallible() == a.infallible()
    &&& wr_ok(z)
}
pub open spec fn wr_frame<W: VStream + ?Sized>(a: &W, z: &W) -> bool {
    &&& wr_ok(z)
    &&& z.infallible() == a.infallible()
}
pub open spec fn room<W: VStream + ?Sized>(a: &W, n: int) -> bool {
    a.pos() + n < LIM
}

pub open spec fn st_same<W: VStream + ?Sized>(a: &W, z: &W) -> bool {
    z.data() == a.data() && z.pos() == a.pos() && z.infallible() == a.infallible()
}

pub trait VBuf {
    spec fn bb(&self) -> Seq<u8>;
}
impl VBuf for Vec<u8> { open spec fn bb(&self) -> Seq<u8> { self@ } }
impl VBuf for [u8] { open spec fn bb(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VBuf for [u8; N] { open spec fn bb(&self) -> Seq<u8> { self@ } }

pub trait Seek : VStream {
    fn stream_position(&mut self) -> (r: Result<u64, IoError>)
        requires wr_ok(old(self))
        ensures st_same(old(self), final(self)), final(self).data() == old(self).data(), final(self).pos() == old(self).pos(),
            final(self).infallible() == old(self).infallible(),
            r matches Ok(p) ==> p == old(self).pos(),
            old(self).infallible() ==> r is Ok;
    fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, IoError>)
        requires wr_ok(old(self)),
            to matches SeekFrom::Start(p) ==> p <= old(self).data().len(),
            to is Start
        ensures final(self).data() == old(self).data(),
            final(self).infallible() == old(self).infallible(),
            r is Ok ==> final(self).pos() == to->Start_0 && r->Ok_0 == to->Start_0,
            r is Err ==> wr_ok(final(self)),
            old(self).infallible() ==> r is Ok;
}
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }

pub trait Read : VStream {
    fn read_exact<B: VBuf + ?Sized>(&mut self, buf: &mut B) -> (r: Result<(), IoError>)
        requires rd_ok(old(self))
        ensures rd_same(old(self), final(self)),
            final(buf).bb().len() == old(buf).bb().len(),
            r is Ok <==> old(self).pos() + old(buf).bb().len() <= old(self).data().len(),
            r is Ok ==> final(self).pos() == old(self).pos() + old(buf).bb().len()
                && final(buf).bb() == old(self).data().subrange(old(self).pos(), final(self).pos());
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, IoError>)
        requires rd_ok(old(self))
        ensures rd_same(old(self), final(self)), r is Ok,
            final(self).pos() == old(self).data().len(),
            final(buf)@ == old(buf)@ + old(self).data().subrange(old(self).pos(), old(self).data().len() as int);
}
pub trait Write : VStream {
    fn write_all<B: VBuf + ?Sized>(&mut self, buf: &B) -> (r: Result<(), IoError>)
        requires wr_ok(old(self))
        ensures r is Ok ==> wrote(old(self), final(self), buf.bb()),
            r is Err ==> wr_frame(old(self), final(self)),
            old(self).infallible() && room(old(self), buf.bb().len() as int) ==> r is Ok;
    fn write<B: VBuf + ?Sized>(&mut self, buf: &B) -> (r: Result<usize, IoError>)
        requires wr_ok(old(self))
        ensures r matches Ok(n) ==> n <= buf.bb().len() && wrote(old(self), final(self), buf.bb().subrange(0, n as int)),
            r is Err ==> wr_frame(old(self), final(self));
    fn flush(&mut self) -> (r: Result<(), IoError>)
        requires wr_ok(old(self))
        ensures final(self).data() == old(self).data(), final(self).pos() == old(self).pos(),
            final(self).infallible() == old(self).infallible(),
            old(self).infallible() ==> r is Ok;
}

// byteorder
pub trait ByteOrder { spec fn le() -> bool; }
pub struct LittleEndian {}
pub struct BigEndian {}
impl ByteOrder for LittleEndian { open spec fn le() -> bool { true } }
impl ByteOrder for BigEndian { open spec fn le() -> bool { false } }

/// little-endian bytes of a number and back
pub open spec fn le_enc(v: nat, n: nat) -> Seq<u8>
    decreases n
{ if n == 0 { Seq::empty() } else { seq![(v % 256) as u8] + le_enc(v / 256, (n - 1) as nat) } }
pub open spec fn le_dec(s: Seq<u8>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { s[0] as nat + 256 * le_dec(s.drop_first()) } }
#[verifier::opaque] pub open spec fn u16_at(d: Seq<u8>, p: int) -> u16 { le_dec(d.subrange(p, p + 2)) as u16 }
#[verifier::opaque] pub open spec fn u32_at(d: Seq<u8>, p: int) -> u32 { le_dec(d.subrange(p, p + 4)) as u32 }
#[verifier::opaque] pub open spec fn u64_at(d: Seq<u8>, p: int) -> u64 { le_dec(d.subrange(p, p + 8)) as u64 }
#[verifier::opaque] pub open spec fn u128_of(d: Seq<u8>) -> u128 { le_dec(d) as u128 }
#[verifier::opaque] pub open spec fn e16(v: u16) -> Seq<u8> { le_enc(v as nat, 2) }
#[verifier::opaque] pub open spec fn e32(v: u32) -> Seq<u8> { le_enc(v as nat, 4) }
#[verifier::opaque] pub open spec fn e64(v: u64) -> Seq<u8> { le_enc(v as nat, 8) }
#[verifier::opaque] pub open spec fn e128(v: u128) -> Seq<u8> { le_enc(v as nat, 16) }
/// big-endian forms are only here so that a wrong byte order is not silently accepted
pub uninterp spec fn be_int(d: Seq<u8>) -> int;
pub uninterp spec fn be_bytes(v: int, n: int) -> Seq<u8>;

// IEEE bit patterns
pub uninterp spec fn f32_bits(f: f32) -> u32;
pub uninterp spec fn f32_of(b: u32) -> f32;
pub uninterp spec fn f64_bits(f: f64) -> u64;
pub uninterp spec fn f64_of(b: u64) -> f64;
pub broadcast axiom fn ax_f32_a(f: f32) ensures f32_of(#[trigger] f32_bits(f)) == f;
pub broadcast axiom fn ax_f32_b(b: u32) ensures f32_bits(#[trigger] f32_of(b)) == b;
pub broadcast axiom fn ax_f64_a(f: f64) ensures f64_of(#[trigger] f64_bits(f)) == f;
pub broadcast axiom fn ax_f64_b(b: u64) ensures f64_bits(#[trigger] f64_of(b)) == b;
/// 8-bit two's complement
pub open spec fn i8_of(b: u8) -> i8 { b as i8 }
pub open spec fn u8_of(b: i8) -> u8 { b as u8 }

pub trait ReadBytesExt : Read {
    fn read_u8(&mut self) -> (r: Result<u8, IoError>)
        requires rd_ok(old(self))
        ensures rd_same(old(self), final(self)),
            r is Ok <==> old(self).pos() + 1 <= old(self).data().len(),
            r matches Ok(v) ==> final(self).pos() == old(self).pos() + 1 && v == old(self).data()[old(self).pos()];
    fn read_i8(&mut self) -> (r: Result<i8, IoError>)
        requires rd_ok(old(self))
        ensures rd_same(old(self), final(self)),
            r is Ok <==> old(self).pos() + 1 <= old(self).data().len(),
            r matches Ok(v) ==> final(self).pos() == old(self).pos() + 1 && v == i8_of(old(self).data()[old(self).pos()]);
    fn read_u16_into<T: ByteOrder>(&mut self, dst: &mut Vec<u16>) -> (r: Result<(), IoError>)
        requires rd_ok(old(self))
        ensures rd_same(old(self), final(self)),
            final(dst)@.len() == old(dst)@.len(),
            r is Ok <==> old(self).pos() + 2 * old(dst)@.len() <= old(self).data().len(),
            r is Ok ==> final(self).pos() == old(self).pos() + 2 * old(dst)@.len()
                && (T::le() ==> final(dst)@ == words_at(old(self).data(), old(self).pos(), old(dst)@.len() as int));
    fn read_u16<T: ByteOrder>(&mut self) -> (r: Result<u16, IoError>)
        requires rd_ok(old(self))
        ensures rd_same(old(self), final(self)),
            r is Ok <==> old(self).pos() + 2 <= old(self).data().len(),
            r matches Ok(v) ==> final(self).pos() == old(self).pos() + 2 && (T::le() ==> v == u16_at(old(self).data(), old(self).pos()));
    fn read_u32<T: ByteOrder>(&mut self) -> (r: Result<u32, IoError>)
        requires rd_ok(old(self))
        ensures rd_same(old(self), final(self)),
            r is Ok <==> old(self).pos() + 4 <= old(self).data().len(),
            r matches Ok(v) ==> final(self).pos() == old(self).pos() + 4 && (T::le() ==> v == u32_at(old(self).data(), old(self).pos()));
    fn read_u64<T: ByteOrder>(&mut self) -> (r: Result<u64, IoError>)
        requires rd_ok(old(self))
        ensures rd_same(old(self), final(self)),
            r is Ok <==> old(self).pos() + 8 <= old(self).data().len(),
            r matches Ok(v) ==> final(self).pos() == old(self).pos() + 8 && (T::le() ==> v == u64_at(old(self).data(), old(self).pos()));
    fn read_i16<T: ByteOrder>(&mut self) -> (r: Result<i16, IoError>)
        requires rd_ok(old(self))
        ensures rd_same(old(self), final(self)),
            r is Ok <==> old(self).pos() + 2 <= old(self).data().len(),
            r matches Ok(v) ==> final(self).pos() == old(self).pos() + 2 && (T::le() ==> v == u16_at(old(self).data(), old(self).pos()) as i16);
    fn read_i32<T: ByteOrder>(&mut self) -> (r: Result<i32, IoError>)
        requires rd_ok(old(self))
        ensures rd_same(old(self), final(self)),
            r is Ok <==> old(self).pos() + 4 <= old(self).data().len(),
            r matches Ok(v) ==> final(self).pos() == old(self).pos() + 4 && (T::le() ==> v == u32_at(old(self).data(), old(self).pos()) as i32);
    fn read_i64<T: ByteOrder>(&mut self) -> (r: Result<i64, IoError>)
        requires rd_ok(old(self))
        ensures rd_same(old(self), final(self)),
            r is Ok <==> old(self).pos() + 8 <= old(self).data().len(),
            r matches Ok(v) ==> final(self).pos() == old(self).pos() + 8 && (T::le() ==> v == u64_at(old(self).data(), old(self).pos()) as i64);
    fn read_f32<T: ByteOrder>(&mut self) -> (r: Result<f32, IoError>)
        requires rd_ok(old(self))
        ensures rd_same(old(self), final(self)),
            r is Ok <==> old(self).pos() + 4 <= old(self).data().len(),
            r matches Ok(v) ==> final(self).pos() == old(self).pos() + 4 && (T::le() ==> v == f32_of(u32_at(old(self).data(), old(self).pos())));
    fn read_f64<T: ByteOrder>(&mut self) -> (r: Result<f64, IoError>)
        requires rd_ok(old(self))
        ensures rd_same(old(self), final(self)),
            r is Ok <==> old(self).pos() + 8 <= old(self).data().len(),
            r matches Ok(v) ==> final(self).pos() == old(self).pos() + 8 && (T::le() ==> v == f64_of(u64_at(old(self).data(), old(self).pos())));
}
pub trait WriteBytesExt : Write {
    fn write_u8(&mut self, v: u8) -> (r: Result<(), IoError>)
        requires wr_ok(old(self))
        ensures r is Ok ==> wrote(old(self), final(self), seq![v]),
            r is Err ==> wr_frame(old(self), final(self)),
            old(self).infallible() && room(old(self), 1) ==> r is Ok;
    fn write_i8(&mut self, v: i8) -> (r: Result<(), IoError>)
        requires wr_ok(old(self))
        ensures r is Ok ==> wrote(old(self), final(self), seq![u8_of(v)]),
            r is Err ==> wr_frame(old(self), final(self)),
            old(self).infallible() && room(old(self), 1) ==> r is Ok;
    fn write_u16<T: ByteOrder>(&mut self, v: u16) -> (r: Result<(), IoError>)
        requires wr_ok(old(self))
        ensures r is Ok ==> wrote(old(self), final(self), if T::le() { e16(v) } else { be_bytes(v as int, 2) }),
            r is Err ==> wr_frame(old(self), final(self)),
            old(self).infallible() && room(old(self), 2) ==> r is Ok;
    fn write_u32<T: ByteOrder>(&mut self, v: u32) -> (r: Result<(), IoError>)
        requires wr_ok(old(self))
        ensures r is Ok ==> wrote(old(self), final(self), if T::le() { e32(v) } else { be_bytes(v as int, 4) }),
            r is Err ==> wr_frame(old(self), final(self)),
            old(self).infallible() && room(old(self), 4) ==> r is Ok;
    fn write_u64<T: ByteOrder>(&mut self, v: u64) -> (r: Result<(), IoError>)
        requires wr_ok(old(self))
        ensures r is Ok ==> wrote(old(self), final(self), if T::le() { e64(v) } else { be_bytes(v as int, 8) }),
            r is Err ==> wr_frame(old(self), final(self)),
            old(self).infallible() && room(old(self), 8) ==> r is Ok;
    fn write_i16<T: ByteOrder>(&mut self, v: i16) -> (r: Result<(), IoError>)
        requires wr_ok(old(self))
        ensures r is Ok ==> wrote(old(self), final(self), if T::le() { e16(v as u16) } else { be_bytes(v as int, 2) }),
            r is Err ==> wr_frame(old(self), final(self)),
            old(self).infallible() && room(old(self), 2) ==> r is Ok;
    fn write_i32<T: ByteOrder>(&mut self, v: i32) -> (r: Result<(), IoError>)
        requires wr_ok(old(self))
        ensures r is Ok ==> wrote(old(self), final(self), if T::le() { e32(v as u32) } else { be_bytes(v as int, 4) }),
            r is Err ==> wr_frame(old(self), final(self)),
            old(self).infallible() && room(old(self), 4) ==> r is Ok;
    fn write_i64<T: ByteOrder>(&mut self, v: i64) -> (r: Result<(), IoError>)
        requires wr_ok(old(self))
        ensures r is Ok ==> wrote(old(self), final(self), if T::le() { e64(v as u64) } else { be_bytes(v as int, 8) }),
            r is Err ==> wr_frame(old(self), final(self)),
            old(self).infallible() && room(old(self), 8) ==> r is Ok;
    fn write_f32<T: ByteOrder>(&mut self, v: f32) -> (r: Result<(), IoError>)
        requires wr_ok(old(self))
        ensures r is Ok ==> wrote(old(self), final(self), if T::le() { e32(f32_bits(v)) } else { be_bytes(f32_bits(v) as int, 4) }),
            r is Err ==> wr_frame(old(self), final(self)),
            old(self).infallible() && room(old(self), 4) ==> r is Ok;
    fn write_f64<T: ByteOrder>(&mut self, v: f64) -> (r: Result<(), IoError>)
        requires wr_ok(old(self))
        ensures r is Ok ==> wrote(old(self), final(self), if T::le() { e64(f64_bits(v)) } else { be_bytes(f64_bits(v) as int, 8) }),
            r is Err ==> wr_frame(old(self), final(self)),
            old(self).infallible() && room(old(self), 8) ==> r is Ok;
}
impl<R: Read> ReadBytesExt for R {
    #[verifier::external_body] fn read_u8(&mut self) -> Result<u8, IoError> { unimplemented!() }
    #[verifier::external_body] fn read_i8(&mut self) -> Result<i8, IoError> { unimplemented!() }
    #[verifier::external_body] fn read_u16_into<T: ByteOrder>(&mut self, dst: &mut Vec<u16>) -> Result<(), IoError> { unimplemented!() }
    #[verifier::external_body] fn read_u16<T: ByteOrder>(&mut self) -> Result<u16, IoError> { unimplemented!() }
    #[verifier::external_body] fn read_u32<T: ByteOrder>(&mut self) -> Result<u32, IoError> { unimplemented!() }
    #[verifier::external_body] fn read_u64<T: ByteOrder>(&mut self) -> Result<u64, IoError> { unimplemented!() }
    #[verifier::external_body] fn read_i16<T: ByteOrder>(&mut self) -> Result<i16, IoError> { unimplemented!() }
    #[verifier::external_body] fn read_i32<T: ByteOrder>(&mut self) -> Result<i32, IoError> { unimplemented!() }
    #[verifier::external_body] fn read_i64<T: ByteOrder>(&mut self) -> Result<i64, IoError> { unimplemented!() }
    #[verifier::external_body] fn read_f32<T: ByteOrder>(&mut self) -> Result<f32, IoError> { unimplemented!() }
    #[verifier::external_body] fn read_f64<T: ByteOrder>(&mut self) -> Result<f64, IoError> { unimplemented!() }
}
impl<W: Write> WriteBytesExt for W {
    #[verifier::external_body] fn write_u8(&mut self, v: u8) -> Result<(), IoError> { unimplemented!() }
    #[verifier::external_body] fn write_i8(&mut self, v: i8) -> Result<(), IoError> { unimplemented!() }
    #[verifier::external_body] fn write_u16<T: ByteOrder>(&mut self, v: u16) -> Result<(), IoError> { unimplemented!() }
    #[verifier::external_body] fn write_u32<T: ByteOrder>(&mut self, v: u32) -> Result<(), IoError> { unimplemented!() }
    #[verifier::external_body] fn write_u64<T: ByteOrder>(&mut self, v: u64) -> Result<(), IoError> { unimplemented!() }
    #[verifier::external_body] fn write_i16<T: ByteOrder>(&mut self, v: i16) -> Result<(), IoError> { unimplemented!() }
    #[verifier::external_body] fn write_i32<T: ByteOrder>(&mut self, v: i32) -> Result<(), IoError> { unimplemented!() }
    #[verifier::external_body] fn write_i64<T: ByteOrder>(&mut self, v: i64) -> Result<(), IoError> { unimplemented!() }
    #[verifier::external_body] fn write_f32<T: ByteOrder>(&mut self, v: f32) -> Result<(), IoError> { unimplemented!() }
    #[verifier::external_body] fn write_f64<T: ByteOrder>(&mut self, v: f64) -> Result<(), IoError> { unimplemented!() }
}

/// `n` little-endian 16-bit words
pub open spec fn words_at(d: Seq<u8>, p: int, n: int) -> Seq<u16> {
    Seq::new(n as nat, |i: int| u16_at(d, p + 2 * i))
}

// std::io::Cursor<Vec<u8>>
pub struct Cursor<T> { pub inner: T, pub p: u64 }
impl VStream for Cursor<Vec<u8>> {
    open spec fn data(&self) -> Seq<u8> { self.inner@ }
    open spec fn pos(&self) -> int { self.p as int }
    open spec fn infallible(&self) -> bool { true }
}
impl Seek for Cursor<Vec<u8>> {
    #[verifier::external_body] fn stream_position(&mut self) -> Result<u64, IoError> { unimplemented!() }
    #[verifier::external_body] fn seek(&mut self, to: SeekFrom) -> Result<u64, IoError> { unimplemented!() }
}
impl Read for Cursor<Vec<u8>> {
    #[verifier::external_body] fn read_exact<B: VBuf + ?Sized>(&mut self, buf: &mut B) -> Result<(), IoError> { unimplemented!() }
    #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> Result<usize, IoError> { unimplemented!() }
}
impl Write for Cursor<Vec<u8>> {
    #[verifier::external_body] fn write_all<B: VBuf + ?Sized>(&mut self, buf: &B) -> Result<(), IoError> { unimplemented!() }
    #[verifier::external_body] fn write<B: VBuf + ?Sized>(&mut self, buf: &B) -> Result<usize, IoError> { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self) -> Result<(), IoError> { unimplemented!() }
}
impl Cursor<Vec<u8>> {
    pub fn new(v: Vec<u8>) -> (r: Self)
        ensures r.inner == v, r.p == 0
    { Cursor { inner: v, p: 0 } }
    pub fn get_ref(&self) -> (r: &Vec<u8>)
        ensures *r == self.inner
    { &self.inner }
    pub fn into_inner(self) -> (r: Vec<u8>)
        ensures r == self.inner
    { self.inner }
    pub fn position(&self) -> (r: u64)
        ensures r == self.p
    { self.p }
}

// ------------------------------------------------------------------ values
/// The value of a String is its characters, of a Vec its elements.
pub uninterp spec fn mkstr(s: Seq<char>) -> String;
pub broadcast axiom fn ax_mkstr(s: Seq<char>) ensures (#[trigger] mkstr(s))@ == s;
pub broadcast axiom fn ax_str_ext(s: String) ensures mkstr(#[trigger] s@) == s;
pub uninterp spec fn mkvec<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn ax_mkvec<T>(s: Seq<T>) requires s.len() < LIM ensures (#[trigger] mkvec(s))@ == s;
pub broadcast axiom fn ax_vec_ext<T>(s: Vec<T>) ensures mkvec(#[trigger] s@) == s;
/// no Vec is longer than the address space allows
pub broadcast axiom fn ax_vec_len<T>(s: Vec<T>) ensures #[trigger] s@.len() < LIM;

#[verifier::external_body]
pub struct BoxStr { _p: u8 }
impl BoxStr { pub uninterp spec fn sv(&self) -> Seq<char>; }

pub trait VInto<B> : Sized {
    spec fn into_spec(self) -> B;
    fn v_into(self) -> (r: B) ensures r == self.into_spec();
}
pub uninterp spec fn mkbox(s: Seq<char>) -> BoxStr;
pub broadcast axiom fn ax_mkbox(s: Seq<char>) ensures (#[trigger] mkbox(s)).sv() == s;
impl VInto<BoxStr> for &str {
    open spec fn into_spec(self) -> BoxStr { mkbox(self@) }
    #[verifier::external_body] fn v_into(self) -> BoxStr { unimplemented!() }
}
impl VInto<BoxStr> for String {
    open spec fn into_spec(self) -> BoxStr { mkbox(self@) }
    #[verifier::external_body] fn v_into(self) -> BoxStr { unimplemented!() }
}
impl<T> VInto<T> for T {
    open spec fn into_spec(self) -> T { self }
    fn v_into(self) -> T { self }
}
impl VInto<String> for &str {
    open spec fn into_spec(self) -> String { mkstr(self@) }
    #[verifier::external_body] fn v_into(self) -> String { unimplemented!() }
}
impl VInto<OrderedFloat<f32>> for f32 {
    open spec fn into_spec(self) -> OrderedFloat<f32> { OrderedFloat(self) }
    fn v_into(self) -> OrderedFloat<f32> { OrderedFloat(self) }
}
impl VInto<OrderedFloat<f64>> for f64 {
    open spec fn into_spec(self) -> OrderedFloat<f64> { OrderedFloat(self) }
    fn v_into(self) -> OrderedFloat<f64> { OrderedFloat(self) }
}
impl VInto<u16> for u8 {
    open spec fn into_spec(self) -> u16 { self as u16 }
    fn v_into(self) -> u16 { self as u16 }
}
impl VInto<u32> for u8 {
    open spec fn into_spec(self) -> u32 { self as u32 }
    fn v_into(self) -> u32 { self as u32 }
}
impl VInto<u64> for u8 {
    open spec fn into_spec(self) -> u64 { self as u64 }
    fn v_into(self) -> u64 { self as u64 }
}
impl VInto<i16> for u8 {
    open spec fn into_spec(self) -> i16 { self as i16 }
    fn v_into(self) -> i16 { self as i16 }
}
impl VInto<i32> for u8 {
    open spec fn into_spec(self) -> i32 { self as i32 }
    fn v_into(self) -> i32 { self as i32 }
}
impl VInto<i64> for u8 {
    open spec fn into_spec(self) -> i64 { self as i64 }
    fn v_into(self) -> i64 { self as i64 }
}
impl VInto<i16> for i8 {
    open spec fn into_spec(self) -> i16 { self as i16 }
    fn v_into(self) -> i16 { self as i16 }
}
impl VInto<i32> for i8 {
    open spec fn into_spec(self) -> i32 { self as i32 }
    fn v_into(self) -> i32 { self as i32 }
}
impl VInto<i64> for i8 {
    open spec fn into_spec(self) -> i64 { self as i64 }
    fn v_into(self) -> i64 { self as i64 }
}
impl VInto<u32> for u16 {
    open spec fn into_spec(self) -> u32 { self as u32 }
    fn v_into(self) -> u32 { self as u32 }
}
impl VInto<u64> for u16 {
    open spec fn into_spec(self) -> u64 { self as u64 }
    fn v_into(self) -> u64 { self as u64 }
}
impl VInto<i32> for u16 {
    open spec fn into_spec(self) -> i32 { self as i32 }
    fn v_into(self) -> i32 { self as i32 }
}
impl VInto<i64> for u16 {
    open spec fn into_spec(self) -> i64 { self as i64 }
    fn v_into(self) -> i64 { self as i64 }
}
impl VInto<i32> for i16 {
    open spec fn into_spec(self) -> i32 { self as i32 }
    fn v_into(self) -> i32 { self as i32 }
}
impl VInto<i64> for i16 {
    open spec fn into_spec(self) -> i64 { self as i64 }
    fn v_into(self) -> i64 { self as i64 }
}
impl VInto<u64> for u32 {
    open spec fn into_spec(self) -> u64 { self as u64 }
    fn v_into(self) -> u64 { self as u64 }
}
impl VInto<i64> for u32 {
    open spec fn into_spec(self) -> i64 { self as i64 }
    fn v_into(self) -> i64 { self as i64 }
}
impl VInto<i64> for i32 {
    open spec fn into_spec(self) -> i64 { self as i64 }
    fn v_into(self) -> i64 { self as i64 }
}
impl VInto<u8> for bool {
    open spec fn into_spec(self) -> u8 { if self { 1 } else { 0 } }
    fn v_into(self) -> u8 { if self { 1 } else { 0 } }
}
impl VInto<u16> for bool {
    open spec fn into_spec(self) -> u16 { if self { 1 } else { 0 } }
    fn v_into(self) -> u16 { if self { 1 } else { 0 } }
}
impl VInto<u32> for bool {
    open spec fn into_spec(self) -> u32 { if self { 1 } else { 0 } }
    fn v_into(self) -> u32 { if self { 1 } else { 0 } }
}
impl VInto<u64> for bool {
    open spec fn into_spec(self) -> u64 { if self { 1 } else { 0 } }
    fn v_into(self) -> u64 { if self { 1 } else { 0 } }
}
impl VInto<i8> for bool {
    open spec fn into_spec(self) -> i8 { if self { 1 } else { 0 } }
    fn v_into(self) -> i8 { if self { 1 } else { 0 } }
}
impl VInto<i16> for bool {
    open spec fn into_spec(self) -> i16 { if self { 1 } else { 0 } }
    fn v_into(self) -> i16 { if self { 1 } else { 0 } }
}
impl VInto<i32> for bool {
    open spec fn into_spec(self) -> i32 { if self { 1 } else { 0 } }
    fn v_into(self) -> i32 { if self { 1 } else { 0 } }
}
impl VInto<i64> for bool {
    open spec fn into_spec(self) -> i64 { if self { 1 } else { 0 } }
    fn v_into(self) -> i64 { if self { 1 } else { 0 } }
}
#[derive(Clone, Copy)]
pub struct OrderedFloat<T>(pub T);
impl<T> OrderedFloat<T> {
    pub fn from(v: T) -> (r: Self) ensures r == OrderedFloat(v) { OrderedFloat(v) }
    pub fn into_inner(self) -> (r: T) ensures r == self.0 { self.0 }
}

pub trait VStr {
    spec fn sv(&self) -> Seq<char>;
    fn v_to_string(&self) -> (r: String) ensures r == mkstr(self.sv());
    fn v_as_bytes(&self) -> (r: &[u8]) ensures r@ == vstd::utf8::encode_utf8(self.sv());
}
impl VStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_to_string(&self) -> String { unimplemented!() }
    #[verifier::external_body] fn v_as_bytes(&self) -> &[u8] { unimplemented!() }
}
impl VStr for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_to_string(&self) -> String { unimplemented!() }
    #[verifier::external_body] fn v_as_bytes(&self) -> &[u8] { unimplemented!() }
}
pub trait VAsStr {
    spec fn av(&self) -> Seq<char>;
    fn v_as_ref(&self) -> (r: &str) ensures r@ == self.av();
}
impl VAsStr for str {
    open spec fn av(&self) -> Seq<char> { self@ }
    fn v_as_ref(&self) -> &str { self }
}
impl VAsStr for String {
    open spec fn av(&self) -> Seq<char> { self@ }
    fn v_as_ref(&self) -> &str { self.as_str() }
}
impl<T: VAsStr + ?Sized> VAsStr for &T {
    open spec fn av(&self) -> Seq<char> { (**self).av() }
    fn v_as_ref(&self) -> &str { (**self).v_as_ref() }
}
pub trait VString {
    spec fn vs(&self) -> Seq<char>;
    fn v_as_str(&self) -> (r: &str) ensures r@ == self.vs();
    fn v_into_boxed_str(self) -> (r: BoxStr) where Self: Sized ensures r == mkbox(self.vs());
}
impl VString for String {
    open spec fn vs(&self) -> Seq<char> { self@ }
    fn v_as_str(&self) -> &str { self.as_str() }
    #[verifier::external_body] fn v_into_boxed_str(self) -> BoxStr { unimplemented!() }
}

/// Clone is assumed to produce an equal value.
pub trait VClone : Sized {
    fn v_clone(&self) -> (r: Self) ensures r == *self;
}
impl<T> VClone for T {
    #[verifier::external_body] fn v_clone(&self) -> T { unimplemented!() }
}
pub trait VCopied<T> { spec fn cp(self) -> Option<T>; fn v_copied(self) -> (r: Option<T>) ensures r == self.cp(); }
impl<T> VCopied<T> for Option<&T> {
    open spec fn cp(self) -> Option<T> { match self { Some(x) => Some(*x), None => None } }
    #[verifier::external_body] fn v_copied(self) -> Option<T> { unimplemented!() }
}
pub trait VAsDeref { spec fn ad(&self) -> Option<Seq<char>>; fn v_as_deref(&self) -> (r: Option<&str>) ensures
    match self.ad() { Some(s) => r is Some && r->Some_0@ == s, None => r is None }; }
impl VAsDeref for Option<String> {
    open spec fn ad(&self) -> Option<Seq<char>> { match *self { Some(s) => Some(s@), None => None } }
    fn v_as_deref(&self) -> Option<&str> { match self { Some(s) => Some(s.as_str()), None => None } }
}
pub trait VLen {
    spec fn ln(&self) -> nat;
    fn v_len(&self) -> (r: usize) ensures r == self.ln(), r < LIM;
}
impl<T> VLen for Vec<T> {
    open spec fn ln(&self) -> nat { self@.len() }
    #[verifier::external_body] fn v_len(&self) -> usize { unimplemented!() }
}
impl<T> VLen for [T] {
    open spec fn ln(&self) -> nat { self@.len() }
    #[verifier::external_body] fn v_len(&self) -> usize { unimplemented!() }
}
impl VLen for str {
    open spec fn ln(&self) -> nat { vstd::utf8::encode_utf8(self@).len() }
    #[verifier::external_body] fn v_len(&self) -> usize { unimplemented!() }
}
impl VLen for String {
    open spec fn ln(&self) -> nat { vstd::utf8::encode_utf8(self@).len() }
    #[verifier::external_body] fn v_len(&self) -> usize { unimplemented!() }
}
impl<K, V> VLen for IndexMap<K, V> {
    open spec fn ln(&self) -> nat { self@.len() }
    #[verifier::external_body] fn v_len(&self) -> usize { unimplemented!() }
}
impl<K, V> VLen for HashableIndexMap<K, V> {
    open spec fn ln(&self) -> nat { self.0@.len() }
    fn v_len(&self) -> usize { self.0.v_len() }
}

#[verifier::external_body]
pub fn v_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub trait VEq<R: ?Sized> { spec fn eqs(&self, o: &R) -> bool; fn veq(&self, o: &R) -> (r: bool) ensures r == self.eqs(o); }
impl VEq<&str> for String {
    open spec fn eqs(&self, o: &&str) -> bool { self@ == o@ }
    #[verifier::external_body] fn veq(&self, o: &&str) -> bool { unimplemented!() }
}
impl VEq<String> for &str {
    open spec fn eqs(&self, o: &String) -> bool { self@ == o@ }
    #[verifier::external_body] fn veq(&self, o: &String) -> bool { unimplemented!() }
}
impl VEq<&str> for &str {
    open spec fn eqs(&self, o: &&str) -> bool { self@ == o@ }
    #[verifier::external_body] fn veq(&self, o: &&str) -> bool { unimplemented!() }
}
impl VEq<str> for str {
    open spec fn eqs(&self, o: &str) -> bool { self@ == o@ }
    #[verifier::external_body] fn veq(&self, o: &str) -> bool { unimplemented!() }
}
impl<const N: usize> VEq<[u8; N]> for [u8; N] {
    open spec fn eqs(&self, o: &[u8; N]) -> bool { self@ == o@ }
    #[verifier::external_body] fn veq(&self, o: &[u8; N]) -> bool { unimplemented!() }
}
impl<A: VEq<B>, B> VEq<&B> for &A {
    open spec fn eqs(&self, o: &&B) -> bool { (**self).eqs(*o) }
    fn veq(&self, o: &&B) -> bool { (**self).veq(*o) }
}
pub fn v_eq<A: VEq<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == a.eqs(b) { a.veq(b) }
pub fn v_is_none<T>(a: &Option<T>) -> (r: bool) ensures r == (a is None) { a.is_none() }

#[verifier::external_body]
pub fn v_format() -> String { unimplemented!() }
#[verifier::external_body]
pub fn type_name<T>() -> (r: &'static str) { unimplemented!() }
#[verifier::external_body]
pub fn v_panic() -> !  requires false { unimplemented!() }
#[verifier::external_body]
pub fn v_from_elem<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    requires n < LIM
    ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }

pub open spec fn join_spec(s: Seq<String>, sep: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if s.len() == 1 { s[0]@ }
    else { join_spec(s.drop_last(), sep) + sep + s.last()@ }
}
pub trait VJoin { spec fn js(&self) -> Seq<String>; fn v_join(&self, sep: &str) -> (r: String) ensures r == mkstr(join_spec(self.js(), sep@)); }
impl VJoin for Vec<String> {
    open spec fn js(&self) -> Seq<String> { self@ }
    #[verifier::external_body] fn v_join(&self, sep: &str) -> String { unimplemented!() }
}

// text encodings
pub open spec fn enc16_char(c: char) -> Seq<u16> {
    let n = c as u32;
    if n < 0x10000 { seq![n as u16] }
    else { seq![(0xD800 + (n - 0x10000) / 0x400) as u16, (0xDC00 + (n - 0x10000) % 0x400) as u16] }
}
pub open spec fn enc16(s: Seq<char>) -> Seq<u16>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { enc16(s.drop_last()) + enc16_char(s.last()) } }
pub open spec fn is_hi(w: u16) -> bool { 0xD800 <= w < 0xDC00 }
pub open spec fn is_lo(w: u16) -> bool { 0xDC00 <= w < 0xE000 }
/// decoding of UTF-16 from the end; None when ill formed
pub open spec fn dec16(w: Seq<u16>) -> Option<Seq<char>>
    decreases w.len()
{
    if w.len() == 0 { Some(Seq::empty()) }
    else if is_lo(w.last()) {
        if w.len() >= 2 && is_hi(w[w.len() - 2]) {
            match dec16(w.drop_last().drop_last()) {
                Some(s) => Some(s.push((0x10000 + (w[w.len() - 2] - 0xD800) * 0x400 + (w.last() - 0xDC00)) as u32 as char)),
                None => None,
            }
        } else { None }
    } else if is_hi(w.last()) { None }
    else { match dec16(w.drop_last()) { Some(s) => Some(s.push(w.last() as u32 as char)), None => None } }
}
#[verifier::external_body]
pub fn v_encode_utf16(s: &str) -> (r: Vec<u16>) ensures r@ == enc16(s@) { unimplemented!() }
#[verifier::external_body]
pub struct FromUtf16Error { _p: u8 }
#[verifier::external_body]
pub struct FromUtf8Error { _p: u8 }
pub open spec fn dec8(b: Seq<u8>) -> Option<Seq<char>> {
    if vstd::utf8::valid_utf8(b) { Some(vstd::utf8::decode_utf8(b)) } else { None }
}
#[verifier::external_body]
pub fn v_from_utf16(w: &[u16]) -> (r: Result<String, FromUtf16Error>)
    ensures match dec16(w@) { Some(s) => r matches Ok(x) && x == mkstr(s), None => r is Err } { unimplemented!() }
#[verifier::external_body]
pub fn v_from_utf8(w: Vec<u8>) -> (r: Result<String, FromUtf8Error>)
    ensures match dec8(w@) { Some(s) => r matches Ok(x) && x == mkstr(s), None => r is Err } { unimplemented!() }

// num_enum
pub struct VTryErr {}
pub trait VEnum : Sized {
    spec fn of_i8(n: i8) -> Option<Self>;
    fn v_try_from(n: i8) -> (r: Result<Self, VTryErr>)
        ensures match Self::of_i8(n) { Some(x) => r == Ok::<Self, VTryErr>(x), None => r is Err };
}

// ------------------------------------------------------------------ maps
/// key equality (Eq of the key type)
pub uninterp spec fn keq<K>(a: K, b: K) -> bool;
pub broadcast axiom fn ax_keq_refl<K>(a: K) ensures #[trigger] keq(a, a);
pub broadcast axiom fn ax_keq_str(a: String, b: String) ensures #[trigger] keq(a, b) <==> a == b;
pub broadcast axiom fn ax_keq_guid(a: Guid, b: Guid) ensures #[trigger] keq(a, b) <==> a == b;

pub open spec fn im_find<K, V>(s: Seq<(K, V)>, k: K) -> Option<int>
    decreases s.len()
{
    if s.len() == 0 { None }
    else if keq(s.last().0, k) { Some(s.len() - 1) }
    else { im_find(s.drop_last(), k) }
}
pub open spec fn im_nodup<K, V>(s: Seq<(K, V)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> !keq((#[trigger] s[i]).0, (#[trigger] s[j]).0)
}
/// insertion keeps the position and the key of an equal key already present
pub open spec fn im_insert<K, V>(s: Seq<(K, V)>, k: K, v: V) -> Seq<(K, V)> {
    match im_find(s, k) { Some(i) => s.update(i, (s[i].0, v)), None => s.push((k, v)) }
}
/// one insertion after the other
pub open spec fn im_all<K, V>(a: Seq<(K, V)>) -> Seq<(K, V)>
    decreases a.len()
{
    if a.len() == 0 { Seq::empty() } else { im_insert(im_all(a.drop_last()), a.last().0, a.last().1) }
}
pub open spec fn im_get<K, V>(s: Seq<(K, V)>, k: K) -> Option<V> {
    match im_find(s, k) { Some(i) => Some(s[i].1), None => None }
}
pub open spec fn im_push<K, P>(s: Seq<(K, Vec<P>)>, k: K, p: P) -> Seq<(K, Vec<P>)> {
    match im_find(s, k) {
        Some(i) => s.update(i, (s[i].0, mkvec(s[i].1@.push(p)))),
        None => s.push((k, mkvec(seq![p]))),
    }
}

#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct IndexMap<K, V> { _p: Vec<(K, V)> }
impl<K, V> View for IndexMap<K, V> { type V = Seq<(K, V)>; uninterp spec fn view(&self) -> Seq<(K, V)>; }
pub uninterp spec fn mkim<K, V>(s: Seq<(K, V)>) -> IndexMap<K, V>;
pub broadcast axiom fn ax_mkim<K, V>(s: Seq<(K, V)>) requires im_nodup(s), s.len() < LIM ensures (#[trigger] mkim(s))@ == s;
pub broadcast axiom fn ax_im_ext<K, V>(m: IndexMap<K, V>) ensures mkim(#[trigger] m@) == m, im_nodup(m@), m@.len() < LIM;
pub broadcast axiom fn ax_im_dec<K, V>(m: IndexMap<K, V>, i: int)
    requires 0 <= i < m@.len()
    ensures decreases_to!(m => (#[trigger] m@[i]));
pub broadcast axiom fn ax_vec_dec<T>(m: Vec<T>, i: int)
    requires 0 <= i < m@.len()
    ensures decreases_to!(m => (#[trigger] m@[i]));
impl<K, V> IndexMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<(K, V)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<(K, V)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Seq::<(K, V)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn from_iter<const N: usize>(a: [(K, V); N]) -> (r: Self) ensures r@ == im_all(a@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == im_insert(old(self)@, k, v) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match im_get(self@, *k) { Some(v) => r is Some && *(r->Some_0) == v, None => r is None } { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == (im_find(self@, *k) is Some) { unimplemented!() }
}
impl<K, P> IndexMap<K, Vec<P>> {
    #[verifier::external_body] pub fn v_entry_push(&mut self, k: K, p: P)
        ensures final(self)@ == im_push(old(self)@, k, p) { unimplemented!() }
}
// Deref of HashableIndexMap to its only field
impl<K, V> HashableIndexMap<K, V> {
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self).0@ == im_insert(old(self).0@, k, v) { self.0.insert(k, v) }
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match im_get(self.0@, *k) { Some(v) => r is Some && *(r->Some_0) == v, None => r is None } { self.0.get(k) }
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == (im_find(self.0@, *k) is Some) { self.0.contains_key(k) }
}
impl<K, P> HashableIndexMap<K, Vec<P>> {
    pub fn v_entry_push(&mut self, k: K, p: P)
        ensures final(self).0@ == im_push(old(self).0@, k, p) { self.0.v_entry_push(k, p) }
}

// hashing: what a value feeds to a hasher, and what a hasher makes of what it was fed
pub trait Hasher { spec fn fed(&self) -> Seq<u64>; }
pub trait VHash {
    spec fn hcode(&self) -> Seq<u64>;
    fn v_hash<H: Hasher>(&self, state: &mut H) ensures final(state).fed() == old(state).fed() + self.hcode();
}
pub uninterp spec fn hcode_entry<K, V>(k: K, v: V) -> Seq<u64>;
pub uninterp spec fn hcode_usize(n: usize) -> Seq<u64>;
pub uninterp spec fn hcode_u64(n: u64) -> Seq<u64>;
pub uninterp spec fn hfin(fed: Seq<u64>) -> u64;
impl<'a, K, V> VHash for (&'a K, &'a V) {
    open spec fn hcode(&self) -> Seq<u64> { hcode_entry(*self.0, *self.1) }
    #[verifier::external_body] fn v_hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}
impl VHash for usize {
    open spec fn hcode(&self) -> Seq<u64> { hcode_usize(*self) }
    #[verifier::external_body] fn v_hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}
impl VHash for u64 {
    open spec fn hcode(&self) -> Seq<u64> { hcode_u64(*self) }
    #[verifier::external_body] fn v_hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}
#[verifier::external_body]
pub struct DefaultHasher { _p: u64 }
impl Hasher for DefaultHasher { uninterp spec fn fed(&self) -> Seq<u64>; }
impl DefaultHasher {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.fed() == Seq::<u64>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn finish(&self) -> (r: u64) ensures r == hfin(self.fed()) { unimplemented!() }
}

// hints
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { _p: Vec<(K, V)> }
impl<V> View for HashMap<String, V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<V> HashMap<String, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &String) -> (r: Option<&V>)
        ensures r is Some <==> self@.contains_key(k@), r is Some ==> *(r->Some_0) == self@[k@] { unimplemented!() }
}

// ------------------------------------------------------------------ loops
pub struct VRange<T> { pub cur: T, pub end: T }
pub fn v_range<T>(a: T, b: T) -> (r: VRange<T>) ensures r.cur == a, r.end == b { VRange { cur: a, end: b } }
pub trait VStep : Sized + Copy {
    spec fn vi(self) -> int;
    spec fn vmax() -> int;
    fn v_lt(self, o: Self) -> (r: bool) ensures r == (self.vi() < o.vi());
    fn v_inc(self) -> (r: Self) requires self.vi() < Self::vmax() ensures r.vi() == self.vi() + 1;
    proof fn lemma_max(self) ensures self.vi() <= Self::vmax();
}
impl<T: VStep> VRange<T> {
    pub fn v_has_next(&self) -> (r: bool) ensures r == (self.cur.vi() < self.end.vi()) { self.cur.v_lt(self.end) }
    pub fn v_next(&mut self) -> (r: T)
        requires old(self).cur.vi() < old(self).end.vi()
        ensures r == old(self).cur, final(self).cur.vi() == old(self).cur.vi() + 1, final(self).end == old(self).end
    { proof { self.end.lemma_max(); } let r = self.cur; self.cur = self.cur.v_inc(); r }
}
impl VStep for u8 {
    open spec fn vi(self) -> int { self as int }
    open spec fn vmax() -> int { u8::MAX as int }
    fn v_lt(self, o: Self) -> bool { self < o }
    fn v_inc(self) -> Self { self + 1 }
    proof fn lemma_max(self) { }
}
impl VStep for i8 {
    open spec fn vi(self) -> int { self as int }
    open spec fn vmax() -> int { i8::MAX as int }
    fn v_lt(self, o: Self) -> bool { self < o }
    fn v_inc(self) -> Self { self + 1 }
    proof fn lemma_max(self) { }
}
impl VStep for u16 {
    open spec fn vi(self) -> int { self as int }
    open spec fn vmax() -> int { u16::MAX as int }
    fn v_lt(self, o: Self) -> bool { self < o }
    fn v_inc(self) -> Self { self + 1 }
    proof fn lemma_max(self) { }
}
impl VStep for i16 {
    open spec fn vi(self) -> int { self as int }
    open spec fn vmax() -> int { i16::MAX as int }
    fn v_lt(self, o: Self) -> bool { self < o }
    fn v_inc(self) -> Self { self + 1 }
    proof fn lemma_max(self) { }
}
impl VStep for i64 {
    open spec fn vi(self) -> int { self as int }
    open spec fn vmax() -> int { i64::MAX as int }
    fn v_lt(self, o: Self) -> bool { self < o }
    fn v_inc(self) -> Self { self + 1 }
    proof fn lemma_max(self) { }
}
impl VStep for u32 {
    open spec fn vi(self) -> int { self as int }
    open spec fn vmax() -> int { u32::MAX as int }
    fn v_lt(self, o: Self) -> bool { self < o }
    fn v_inc(self) -> Self { self + 1 }
    proof fn lemma_max(self) { }
}
impl VStep for i32 {
    open spec fn vi(self) -> int { self as int }
    open spec fn vmax() -> int { i32::MAX as int }
    fn v_lt(self, o: Self) -> bool { self < o }
    fn v_inc(self) -> Self { self + 1 }
    proof fn lemma_max(self) { }
}
impl VStep for usize {
    open spec fn vi(self) -> int { self as int }
    open spec fn vmax() -> int { usize::MAX as int }
    fn v_lt(self, o: Self) -> bool { self < o }
    fn v_inc(self) -> Self { self + 1 }
    proof fn lemma_max(self) { }
}
impl VStep for u64 {
    open spec fn vi(self) -> int { self as int }
    open spec fn vmax() -> int { u64::MAX as int }
    fn v_lt(self, o: Self) -> bool { self < o }
    fn v_inc(self) -> Self { self + 1 }
    proof fn lemma_max(self) { }
}

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecRefIter<'a, T> { _p: &'a Vec<T> }
impl<'a, T> VecRefIter<'a, T> { pub uninterp spec fn src(&self) -> Seq<T>; pub uninterp spec fn ix(&self) -> int; }
impl<'a, T> VecRefIter<'a, T> {
    #[verifier::external_body] pub fn v_has_next(&self) -> (r: bool) ensures r == (self.ix() < self.src().len()) { unimplemented!() }
    #[verifier::external_body] pub fn v_next(&mut self) -> (r: &'a T)
        requires old(self).ix() < old(self).src().len()
        ensures final(self).src() == old(self).src(), final(self).ix() == old(self).ix() + 1,
            0 <= old(self).ix(), *r == old(self).src()[old(self).ix()] { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecIter<T> { _p: Vec<T> }
impl<T> VecIter<T> { pub uninterp spec fn src(&self) -> Seq<T>; pub uninterp spec fn ix(&self) -> int; }
impl<T> VecIter<T> {
    #[verifier::external_body] pub fn v_has_next(&self) -> (r: bool) ensures r == (self.ix() < self.src().len()) { unimplemented!() }
    #[verifier::external_body] pub fn v_next(&mut self) -> (r: T)
        requires old(self).ix() < old(self).src().len()
        ensures final(self).src() == old(self).src(), final(self).ix() == old(self).ix() + 1,
            0 <= old(self).ix(), r == old(self).src()[old(self).ix()] { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct MapRefIter<'a, K, V> { _p: &'a IndexMap<K, V> }
impl<'a, K, V> MapRefIter<'a, K, V> { pub uninterp spec fn src(&self) -> Seq<(K, V)>; pub uninterp spec fn ix(&self) -> int; }
impl<'a, K, V> MapRefIter<'a, K, V> {
    #[verifier::external_body] pub fn v_has_next(&self) -> (r: bool) ensures r == (self.ix() < self.src().len()) { unimplemented!() }
    #[verifier::external_body] pub fn v_next(&mut self) -> (r: (&'a K, &'a V))
        requires old(self).ix() < old(self).src().len()
        ensures final(self).src() == old(self).src(), final(self).ix() == old(self).ix() + 1,
            0 <= old(self).ix(), *r.0 == old(self).src()[old(self).ix()].0, *r.1 == old(self).src()[old(self).ix()].1 { unimplemented!() }
}
/// Iterator::take, skip and rev: the elements that are left, fewer of them, or the other way round
pub open spec fn rest<T>(s: Seq<T>, ix: int) -> Seq<T> { if 0 <= ix <= s.len() { s.subrange(ix, s.len() as int) } else { Seq::empty() } }
pub open spec fn taken<T>(s: Seq<T>, n: int) -> Seq<T> { if n < s.len() { s.subrange(0, n) } else { s } }
pub open spec fn skipped<T>(s: Seq<T>, n: int) -> Seq<T> { if n <= 0 { s } else if n < s.len() { s.subrange(n, s.len() as int) } else { Seq::empty() } }
impl<'a, T> VecRefIter<'a, T> {
    pub open spec fn left(&self) -> Seq<T> { if self.ix() == 0 { self.src() } else { rest(self.src(), self.ix()) } }
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: Self) ensures r.ix() == 0, r.src() == taken(self.left(), n as int) { unimplemented!() }
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: Self) ensures r.ix() == 0, r.src() == skipped(self.left(), n as int) { unimplemented!() }
    #[verifier::external_body] pub fn rev(self) -> (r: Self) ensures r.ix() == 0, r.src() == self.left().reverse() { unimplemented!() }
}
impl<T> VecIter<T> {
    pub open spec fn left(&self) -> Seq<T> { if self.ix() == 0 { self.src() } else { rest(self.src(), self.ix()) } }
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: Self) ensures r.ix() == 0, r.src() == taken(self.left(), n as int) { unimplemented!() }
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: Self) ensures r.ix() == 0, r.src() == skipped(self.left(), n as int) { unimplemented!() }
    #[verifier::external_body] pub fn rev(self) -> (r: Self) ensures r.ix() == 0, r.src() == self.left().reverse() { unimplemented!() }
}
impl<'a, K, V> MapRefIter<'a, K, V> {
    pub open spec fn left(&self) -> Seq<(K, V)> { if self.ix() == 0 { self.src() } else { rest(self.src(), self.ix()) } }
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: Self) ensures r.ix() == 0, r.src() == taken(self.left(), n as int) { unimplemented!() }
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: Self) ensures r.ix() == 0, r.src() == skipped(self.left(), n as int) { unimplemented!() }
    #[verifier::external_body] pub fn rev(self) -> (r: Self) ensures r.ix() == 0, r.src() == self.left().reverse() { unimplemented!() }
}
pub trait VIntoIter : Sized { type It; spec fn it_ok(self, it: Self::It) -> bool; fn v_into_iter(self) -> (r: Self::It) ensures self.it_ok(r); }
impl<'a, T> VIntoIter for &'a Vec<T> {
    type It = VecRefIter<'a, T>;
    open spec fn it_ok(self, it: VecRefIter<'a, T>) -> bool { it.src() == self@ && it.ix() == 0 }
    #[verifier::external_body] fn v_into_iter(self) -> VecRefIter<'a, T> { unimplemented!() }
}
impl<T> VIntoIter for Vec<T> {
    type It = VecIter<T>;
    open spec fn it_ok(self, it: VecIter<T>) -> bool { it.src() == self@ && it.ix() == 0 }
    #[verifier::external_body] fn v_into_iter(self) -> VecIter<T> { unimplemented!() }
}
impl<'a, K, V> VIntoIter for &'a IndexMap<K, V> {
    type It = MapRefIter<'a, K, V>;
    open spec fn it_ok(self, it: MapRefIter<'a, K, V>) -> bool { it.src() == self@ && it.ix() == 0 }
    #[verifier::external_body] fn v_into_iter(self) -> MapRefIter<'a, K, V> { unimplemented!() }
}
impl<'a, K, V> VIntoIter for &'a HashableIndexMap<K, V> {
    type It = MapRefIter<'a, K, V>;
    open spec fn it_ok(self, it: MapRefIter<'a, K, V>) -> bool { it.src() == self.0@ && it.ix() == 0 }
    #[verifier::external_body] fn v_into_iter(self) -> MapRefIter<'a, K, V> { unimplemented!() }
}
impl<'a, T> VIntoIter for VecRefIter<'a, T> {
    type It = Self;
    open spec fn it_ok(self, it: Self) -> bool { it == self }
    fn v_into_iter(self) -> Self { self }
}
impl<T> VIntoIter for VecIter<T> {
    type It = Self;
    open spec fn it_ok(self, it: Self) -> bool { it == self }
    fn v_into_iter(self) -> Self { self }
}
impl<'a, K, V> VIntoIter for MapRefIter<'a, K, V> {
    type It = Self;
    open spec fn it_ok(self, it: Self) -> bool { it == self }
    fn v_into_iter(self) -> Self { self }
}
impl<K, V> IndexMap<K, V> {
    #[verifier::external_body] pub fn v_iter(&self) -> (r: MapRefIter<'_, K, V>) ensures r.src() == self@, r.ix() == 0 { unimplemented!() }
}
impl<K, V> HashableIndexMap<K, V> {
    #[verifier::external_body] pub fn v_iter(&self) -> (r: MapRefIter<'_, K, V>) ensures r.src() == self.0@, r.ix() == 0 { unimplemented!() }
}
pub trait VIterV<T> { spec fn its(&self) -> Seq<T>; fn v_iter(&self) -> (r: VecRefIter<'_, T>) ensures r.src() == self.its(), r.ix() == 0; }
impl<T> VIterV<T> for Vec<T> {
    open spec fn its(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_iter(&self) -> VecRefIter<'_, T> { unimplemented!() }
}
/// Iterator::collect into Result<Vec<_>, _> or Result<IndexMap<_, _>, _>
pub trait VCollect<T> : Sized {
    spec fn start(self) -> bool;
    spec fn added(self, t: T, z: Self) -> bool;
    fn v_new() -> (r: Self) ensures r.start();
    fn v_add(&mut self, t: T) ensures (*old(self)).added(t, *final(self));
}
impl<T> VCollect<T> for Vec<T> {
    open spec fn start(self) -> bool { self@ == Seq::<T>::empty() }
    open spec fn added(self, t: T, z: Self) -> bool { z@ == self@.push(t) }
    fn v_new() -> Self { Vec::new() }
    fn v_add(&mut self, t: T) { self.push(t) }
}
impl<K, V> VCollect<(K, V)> for IndexMap<K, V> {
    open spec fn start(self) -> bool { self@ == Seq::<(K, V)>::empty() }
    open spec fn added(self, t: (K, V), z: Self) -> bool { z@ == im_insert(self@, t.0, t.1) }
    fn v_new() -> Self { IndexMap::new() }
    fn v_add(&mut self, t: (K, V)) { let _ = self.insert(t.0, t.1); }
}

// ------------------------------------------------------------------ zlib
/// Bytes that decompressing a zlib stream at the start of `d` yields before its end or an error.
pub uninterp spec fn zdata(d: Seq<u8>) -> Seq<u8>;
/// Decompression ends in an error instead of at the end of the zlib stream.
pub uninterp spec fn zbad(d: Seq<u8>) -> bool;
pub uninterp spec fn deflate(level: int, d: Seq<u8>) -> Seq<u8>;
/// zlib is lossless, whatever follows the stream
pub broadcast axiom fn ax_zlib(level: int, d: Seq<u8>, tail: Seq<u8>)
    ensures zdata(#[trigger] (deflate(level, d) + tail)) == d, !zbad(deflate(level, d) + tail);

pub struct Compression { pub level: u32 }
impl Compression {
    pub fn new(level: u32) -> (r: Self) ensures r.level == level { Compression { level } }
    /// flate2's default level
    pub fn default() -> (r: Self) ensures r.level == 6 { Compression { level: 6 } }
}
pub trait VZSrc {
    spec fn rest(&self) -> Seq<u8>;
    spec fn rest_bad(&self) -> bool;
}
impl<R: Read> VZSrc for &mut R {
    open spec fn rest(&self) -> Seq<u8> { (**self).data().subrange((**self).pos(), (**self).data().len() as int) }
    open spec fn rest_bad(&self) -> bool { false }
}
impl<S: VZSrc> VZSrc for ZlibDecoder<S> {
    open spec fn rest(&self) -> Seq<u8> { self.yields() }
    open spec fn rest_bad(&self) -> bool { self.fails() || self.src_fails() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(S)]
pub struct ZlibDecoder<S> { _p: S }
impl<S: VZSrc> ZlibDecoder<S> {
    pub uninterp spec fn yields(&self) -> Seq<u8>;
    pub uninterp spec fn fails(&self) -> bool;
    pub uninterp spec fn src_fails(&self) -> bool;
    #[verifier::external_body]
    pub fn new(s: S) -> (r: Self)
        ensures r.yields() == zdata(s.rest()), r.fails() == zbad(s.rest()), r.src_fails() == s.rest_bad()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact(&mut self, buf: &mut Vec<u8>) -> (r: Result<(), IoError>)
        ensures final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> old(buf)@.len() <= old(self).yields().len()
                && final(buf)@ == old(self).yields().subrange(0, old(buf)@.len() as int),
            !old(self).fails() && !old(self).src_fails() && old(buf)@.len() <= old(self).yields().len() ==> r is Ok
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, IoError>)
        ensures r is Ok ==> final(buf)@ == old(buf)@ + old(self).yields(),
            r is Ok ==> !old(self).fails(),
            !old(self).fails() && !old(self).src_fails() ==> r is Ok
    { unimplemented!() }
}
pub trait VByRef : Sized {
    fn v_by_ref(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self);
}
impl<T> VByRef for T { fn v_by_ref(&mut self) -> &mut T { self } }
/// where a compressor puts its output
pub trait VZSink : Sized {
    #[verifier::prophetic] spec fn got(a: Self, z: Self, b: Seq<u8>) -> bool;
    spec fn can(self, n: int) -> bool;
}
impl<'a, W: Write> VZSink for &'a mut W {
    #[verifier::prophetic] open spec fn got(a: Self, z: Self, b: Seq<u8>) -> bool {
        wrote(&*a, &*z, b) && *final(z) == *final(a)
    }
    open spec fn can(self, n: int) -> bool { wr_ok(&*self) && (*self).infallible() && room(&*self, n) }
}
pub struct ZlibEncoder<S> { pub sink: S, pub level: u32, pub pending: Ghost<Seq<u8>> }
impl<S: VZSink> VZSink for ZlibEncoder<S> {
    #[verifier::prophetic] open spec fn got(a: Self, z: Self, b: Seq<u8>) -> bool {
        z.pending@ == a.pending@ + b && z.sink == a.sink && z.level == a.level
    }
    open spec fn can(self, n: int) -> bool { true }
}
impl<S: VZSink> ZlibEncoder<S> {
    pub fn new(sink: S, c: Compression) -> (r: Self)
        ensures r.sink == sink, r.level == c.level, r.pending@ == Seq::<u8>::empty()
    { ZlibEncoder { sink, level: c.level, pending: Ghost(Seq::empty()) } }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &Vec<u8>) -> (r: Result<(), IoError>)
        ensures r is Ok ==> final(self).sink == old(self).sink && final(self).level == old(self).level
                && final(self).pending@ == old(self).pending@ + b@,
            old(self).sink.can(deflate(old(self).level as int, old(self).pending@ + b@).len() as int) ==> r is Ok
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self) -> (r: Result<S, IoError>)
        ensures r matches Ok(s) ==> S::got(self.sink, s, deflate(self.level as int, self.pending@)),
            self.sink.can(deflate(self.level as int, self.pending@).len() as int) ==> r is Ok
    { unimplemented!() }
}
pub trait VUnwrapOr<T> { spec fn uo(self) -> T; fn v_unwrap_or_default(self) -> (r: T) ensures r == self.uo(); }
impl VUnwrapOr<u64> for Result<u64, IoError> {
    open spec fn uo(self) -> u64 { match self { Ok(v) => v, Err(_) => 0 } }
    fn v_unwrap_or_default(self) -> u64 { match self { Ok(v) => v, Err(_) => 0 } }
}

// ------------------------------------------------------------------ text forms
pub struct FmtError;
pub enum Shown { Int(int), Text(Seq<char>) }
#[verifier::external_body]
pub struct Formatter<'a> { _p: &'a u8 }
impl<'a> Formatter<'a> {
    /// what has been written so far
    pub uninterp spec fn out(&self) -> Seq<char>;
    /// the values shown so far, without the words between them
    pub uninterp spec fn shown(&self) -> Seq<Shown>;
    /// whether what is behind it takes everything
    pub uninterp spec fn infallible(&self) -> bool;
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result<(), FmtError>)
        ensures r is Ok ==> final(self).out() == old(self).out() + s@,
            final(self).shown() == old(self).shown(),
            final(self).infallible() == old(self).infallible(), old(self).infallible() ==> r is Ok
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: Result<(), FmtError>)
        ensures r is Ok ==> final(self).out() == old(self).out().push(c),
            final(self).infallible() == old(self).infallible(), old(self).infallible() ==> r is Ok
    { unimplemented!() }
}
/// values that `{}`, `{:#x}` and the like can show
pub trait VShow { spec fn sh(&self) -> Shown; }
impl VShow for u8 { open spec fn sh(&self) -> Shown { Shown::Int(*self as int) } }
impl VShow for i8 { open spec fn sh(&self) -> Shown { Shown::Int(*self as int) } }
impl VShow for u16 { open spec fn sh(&self) -> Shown { Shown::Int(*self as int) } }
impl VShow for i32 { open spec fn sh(&self) -> Shown { Shown::Int(*self as int) } }
impl VShow for u32 { open spec fn sh(&self) -> Shown { Shown::Int(*self as int) } }
impl VShow for u64 { open spec fn sh(&self) -> Shown { Shown::Int(*self as int) } }
impl VShow for BoxStr { open spec fn sh(&self) -> Shown { Shown::Text(self.sv()) } }
impl<T: VShow + ?Sized> VShow for &T { open spec fn sh(&self) -> Shown { (**self).sh() } }
#[verifier::external_body]
pub fn v_show<T: VShow + ?Sized>(f: &mut Formatter<'_>, x: &T) -> (r: Result<(), FmtError>)
    ensures r is Ok ==> final(f).shown() == old(f).shown().push(x.sh()),
        final(f).infallible() == old(f).infallible(), old(f).infallible() ==> r is Ok
{ unimplemented!() }
impl IoError {
    #[verifier::external_body]
    pub fn v_fmt(&self, f: &mut Formatter<'_>) -> (r: Result<(), FmtError>)
        ensures final(f).infallible() == old(f).infallible(), old(f).infallible() ==> r is Ok
    { unimplemented!() }
}
pub open spec fn hexd(n: int, up: bool) -> char {
    if n < 10 { (48 + n) as u8 as char } else if up { (55 + n) as u8 as char } else { (87 + n) as u8 as char }
}
pub open spec fn hex2(b: u8, up: bool) -> Seq<char> { seq![hexd(b as int / 16, up), hexd(b as int % 16, up)] }
/// {:02X} and {:X} of a byte
pub open spec fn hexs(b: u8, w: usize, up: bool) -> Seq<char> { if w == 2 || b >= 16 { hex2(b, up) } else { seq![hexd(b as int, up)] } }
#[verifier::external_body]
pub fn v_write_hex(f: &mut Formatter<'_>, b: &u8, w: usize, up: bool) -> (r: Result<(), FmtError>)
    requires w == 0 || w == 2
    ensures r is Ok ==> final(f).out() == old(f).out() + hexs(*b, w, up),
        final(f).infallible() == old(f).infallible(), old(f).infallible() ==> r is Ok
{ unimplemented!() }

pub open spec fn repl(s: Seq<char>, c: char, w: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { repl(s.drop_last(), c, w) + (if s.last() == c { w } else { seq![s.last()] }) }
}
pub uninterp spec fn is_ws(c: char) -> bool;
/// white space is neither a printable ASCII character ..
pub broadcast axiom fn ax_is_ws(c: char) ensures 0x21 <= c as u32 <= 0x7e ==> !#[trigger] is_ws(c);
pub open spec fn trim_l(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && is_ws(s[0]) { trim_l(s.drop_first()) } else { s }
}
pub open spec fn trim_r(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && is_ws(s.last()) { trim_r(s.drop_last()) } else { s }
}
pub open spec fn is_hex(c: char) -> bool { '0' <= c <= '9' || 'a' <= c <= 'f' || 'A' <= c <= 'F' }
pub open spec fn hexv(c: char) -> int {
    if '0' <= c <= '9' { c as int - 48 } else if 'a' <= c <= 'f' { c as int - 87 } else { c as int - 55 }
}
pub open spec fn all_hex(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_hex(#[trigger] s[i]) }
pub trait VText {
    spec fn tx(&self) -> Seq<char>;
    fn v_replace(&self, c: char, w: &str) -> (r: String) ensures r@ == repl(self.tx(), c, w@);
    fn v_trim(&self) -> (r: &str) ensures r@ == trim_r(trim_l(self.tx()));
    fn v_strip_prefix(&self, c: char) -> (r: Option<&str>)
        ensures self.tx().len() > 0 && self.tx()[0] == c ==> r is Some && r->Some_0@ == self.tx().drop_first(),
            !(self.tx().len() > 0 && self.tx()[0] == c) ==> r is None;
    fn v_strip_suffix(&self, c: char) -> (r: Option<&str>)
        ensures self.tx().len() > 0 && self.tx().last() == c ==> r is Some && r->Some_0@ == self.tx().drop_last(),
            !(self.tx().len() > 0 && self.tx().last() == c) ==> r is None;
    fn v_hex(&self) -> (r: bool) ensures r == all_hex(self.tx());
    fn v_sub(&self, a: usize, b: usize) -> (r: &str)
        requires a <= b <= self.tx().len(), vstd::utf8::is_ascii_chars(self.tx())
        ensures r@ == self.tx().subrange(a as int, b as int);
}
impl VText for str {
    open spec fn tx(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_replace(&self, c: char, w: &str) -> String { unimplemented!() }
    #[verifier::external_body] fn v_trim(&self) -> &str { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix(&self, c: char) -> Option<&str> { unimplemented!() }
    #[verifier::external_body] fn v_strip_suffix(&self, c: char) -> Option<&str> { unimplemented!() }
    #[verifier::external_body] fn v_hex(&self) -> bool { unimplemented!() }
    #[verifier::external_body] fn v_sub(&self, a: usize, b: usize) -> &str { unimplemented!() }
}
impl VText for String {
    open spec fn tx(&self) -> Seq<char> { self@ }
    fn v_replace(&self, c: char, w: &str) -> String { self.as_str().v_replace(c, w) }
    fn v_trim(&self) -> &str { self.as_str().v_trim() }
    fn v_strip_prefix(&self, c: char) -> Option<&str> { self.as_str().v_strip_prefix(c) }
    fn v_strip_suffix(&self, c: char) -> Option<&str> { self.as_str().v_strip_suffix(c) }
    fn v_hex(&self) -> bool { self.as_str().v_hex() }
    fn v_sub(&self, a: usize, b: usize) -> &str { self.as_str().v_sub(a, b) }
}
impl<T: VText + ?Sized> VText for &T {
    open spec fn tx(&self) -> Seq<char> { (**self).tx() }
    fn v_replace(&self, c: char, w: &str) -> String { (**self).v_replace(c, w) }
    fn v_trim(&self) -> &str { (**self).v_trim() }
    fn v_strip_prefix(&self, c: char) -> Option<&str> { (**self).v_strip_prefix(c) }
    fn v_strip_suffix(&self, c: char) -> Option<&str> { (**self).v_strip_suffix(c) }
    fn v_hex(&self) -> bool { (**self).v_hex() }
    fn v_sub(&self, a: usize, b: usize) -> &str { (**self).v_sub(a, b) }
}
/// `S.bytes().all(|b| b.is_ascii_hexdigit())`: bytes of characters outside ASCII are above 0x7f
pub fn v_all_hex<T: VText + ?Sized>(s: &T) -> (r: bool) ensures r == all_hex(s.tx()) { s.v_hex() }
pub fn v_part<T: VText + ?Sized>(s: &T, a: usize, b: usize) -> (r: &str)
    requires a <= b <= s.tx().len(), vstd::utf8::is_ascii_chars(s.tx())
    ensures r@ == s.tx().subrange(a as int, b as int)
{ s.v_sub(a, b) }
#[verifier::external_body]
pub fn v_set<T, const N: usize>(a: &mut [T; N], i: usize, v: T)
    requires i < N
    ensures final(a)@ == old(a)@.update(i as int, v)
{ unimplemented!() }
pub struct ParseIntError;
#[verifier::external_body]
pub fn v_u8_from_str_radix(s: &str, radix: u32) -> (r: Result<u8, ParseIntError>)
    requires radix == 16
    ensures s@.len() == 2 && all_hex(s@) ==> r is Ok && r->Ok_0 == hexv(s@[0]) * 16 + hexv(s@[1])
{ unimplemented!() }
pub trait VDefault : Sized { spec fn df(self) -> bool; fn v_default() -> (r: Self) ensures r.df(); }
impl VDefault for [u8; 16] {
    open spec fn df(self) -> bool { forall|i: int| 0 <= i < 16 ==> #[trigger] self@[i] == 0 }
    fn v_default() -> [u8; 16] { [0u8; 16] }
}
