//! Shared by both halves: random numbers, results of single operations, streams.
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::sync::OnceLock;

#[derive(Default, Debug, Clone)]
pub struct Dict {
    pub strs: Vec<String>,
    pub nums: Vec<i128>,
    /// kinds and parts of the generator that have most to do with what changed
    pub kinds: Vec<String>,
    pub parts: Vec<usize>,
}
/// seeds with this top byte make one large thing
pub const BIG: u64 = 0xB1;
/// seeds with this top byte make collections of structs inside structs
pub const NEST: u64 = 0xB2;
/// numbers in the source under test that may be lengths few inputs reach
pub fn large() -> Vec<usize> {
    dict().nums.iter().filter(|n| (20..=200_000).contains(*n)).map(|n| *n as usize).collect()
}
pub static DICT: OnceLock<Dict> = OnceLock::new();
pub fn dict() -> &'static Dict {
    DICT.get_or_init(Dict::default)
}

/// The second field: 1 if the next length is to be a large one, 2 once it has been;
/// 3 if what is made is to need hints.  The third: how much more may be made.
#[derive(Clone)]
pub struct Rng(pub u64, pub u8, pub usize);
impl Rng {
    pub fn new(s: u64) -> Self {
        let how = match s >> 56 {
            BIG => 1,
            NEST => 3,
            _ => 0,
        };
        let mut r = Rng(s ^ 0x9E37_79B9_7F4A_7C15, how, 1500);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn num(&mut self) -> i128 {
        const I: &[i128] = &[
            0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 21, 28, 31, 32, 33, 63, 64, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512,
            1000, 1009, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 131071, 131072, 131073, 1 << 20, 1 << 24, i32::MAX as i128,
            1 << 31, u32::MAX as i128, 1 << 32, i64::MAX as i128, 1 << 63, u64::MAX as i128,
        ];
        let d = &dict().nums;
        if !d.is_empty() && self.chance(35) {
            return *self.pick(d) + [0, 0, 0, 1, -1][self.below(5)];
        }
        match self.below(5) {
            0 => self.next() as i64 as i128,
            1 => self.below(300) as i128,
            2 => -(*self.pick(I)),
            _ => *self.pick(I),
        }
    }
    /// a length that is affordable
    pub fn len(&mut self, max: usize) -> usize {
        let d = &dict().nums;
        if self.1 == 1 {
            self.1 = 2;
            let l = large();
            if !l.is_empty() && self.chance(70) {
                return *self.pick(&l) + [0, 1, 1, 2][self.below(4)] - 1;
            }
            return *self.pick(&[255, 256, 257, 4096, 32767, 32768, 65535, 65536, 65537, 70000]);
        }
        if !d.is_empty() && self.chance(25) {
            let n = *self.pick(d) + [0, 0, 0, 1, -1][self.below(5)];
            if n >= 0 && n as usize <= max.max(1000).min(self.2) && (n < 40 || self.chance(20)) {
                self.2 -= n as usize;
                return n as usize;
            }
        }
        let n = match self.below(12) {
            0 | 1 => 0,
            2..=4 => 1,
            5 | 6 => 2,
            7 | 8 => 3,
            9 => self.below(9),
            _ => self.below(max + 1),
        };
        let n = n.min(self.2 + 1);
        self.2 = self.2.saturating_sub(n);
        n
    }
    pub fn f32(&mut self) -> f32 {
        match self.below(6) {
            0 => f32::from_bits(self.next() as u32),
            1 => *self.pick(&[0.0, -0.0, 1.0, -1.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, f32::MAX]),
            2 => f32::from_bits(0x7f80_0001 | (self.next() as u32 & 0x803f_ffff)),
            3 => self.num() as f32,
            _ => (self.below(1000) as f32) / 8.0,
        }
    }
    pub fn f64(&mut self) -> f64 {
        match self.below(6) {
            0 => f64::from_bits(self.next()),
            1 => *self.pick(&[0.0, -0.0, 1.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::MAX, 0.1]),
            2 => f64::from_bits(0x7ff0_0000_0000_0001 | (self.next() & 0x8007_ffff_ffff_ffff)),
            3 => self.num() as f64,
            _ => (self.below(1000) as f64) / 10.0,
        }
    }
    pub fn string(&mut self) -> String {
        const W: &[&str] = &["a", "b", "Value", "Name", "x", "Health", "pos", "é", "日本", "😀", "\u{0}", "\u{ff}", "\u{7f}", "A::B", "EnumX::Y", "None", "Key", " ", ".", "\u{fffd}", "\u{d7ff}", "ß", "Ω"];
        let d = &dict().strs;
        if self.1 == 1 && self.chance(50) {
            let n = self.len(0);
            let c = *self.pick(&['a', 'a', 'é', '日']);
            return std::iter::repeat_n(c, n).collect();
        }
        if !d.is_empty() && self.chance(30) {
            return self.pick(d).clone();
        }
        match self.below(20) {
            0 | 1 => String::new(),
            2..=12 => {
                let n = 1 + self.below(3);
                (0..n).map(|_| *self.pick(W)).collect()
            }
            13 => {
                let n = self.len(40);
                (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()
            }
            14 => {
                let n = self.len(20);
                (0..n).map(|_| char::from_u32((self.next() % 0xd800) as u32).unwrap()).collect()
            }
            15 if self.1 == 0 && self.chance(6) => {
                let n = *self.pick(&[131070usize, 131071, 131072, 131073]);
                let c = *self.pick(&['a', 'é', '日']);
                std::iter::repeat_n(c, n).collect()
            }
            _ => {
                let n = 1 + self.below(10);
                (0..n).map(|_| (b'A' + self.below(50) as u8) as char).collect()
            }
        }
    }
    /// a string that may stand as a field name
    pub fn name(&mut self) -> String {
        const ODD: &[&str] = &[
            " a", "a ", " ", "\ta\n", "a b", "Abc", "abc", "ABC", "a.b", ".a", "a.", ".", "a::b", "a/b", "a[0]", "a_1", "_a", "none", "NONE", "None ", "Key", "Value",
            "StructProperty", "MapProperty", "é", "É", "日本", "e\u{301}", "\u{feff}a", "\u{a0}a", "ß", "SS", "ı", "İ", "\u{0}", "a\u{0}", "1", "0", "-1", "\"a\"", "a\\b",
        ];
        if self.1 == 3 && self.chance(70) {
            return match self.below(8) {
                0 => String::new(),
                1 => self.pick(ODD).repeat(2 + self.below(40)),
                _ => self.pick(ODD).to_string(),
            };
        }
        loop {
            let s = self.string();
            if s != "None" {
                return s;
            }
        }
    }
    pub fn ostring(&mut self) -> Option<String> {
        if self.chance(20) { None } else { Some(self.string()) }
    }
    pub fn guid(&mut self) -> [u8; 16] {
        match self.below(4) {
            0 => [0; 16],
            1 => std::array::from_fn(|i| i as u8 + 1),
            2 => {
                let mut g = [0; 16];
                g[self.below(16)] = self.next() as u8;
                g
            }
            _ => std::array::from_fn(|_| self.next() as u8),
        }
    }
}

/// The outcome of one operation.
#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Ok(String),
    Err(String),
    Panic(String),
}
#[derive(Clone, Debug)]
pub struct Obs {
    pub op: &'static str,
    pub r: R,
    /// bytes produced, if any
    pub bytes: Vec<u8>,
    /// reported count, if any
    pub n: Option<u64>,
    /// where the stream stood afterwards
    pub pos: u64,
    /// path stack afterwards
    pub stack: String,
    /// set when a self-contained expectation about this operation failed
    pub flag: &'static str,
}
impl Obs {
    pub fn new(op: &'static str, r: R) -> Self {
        Obs { op, r, bytes: vec![], n: None, pos: 0, stack: String::new(), flag: "" }
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

thread_local! {
    pub static CATCHING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = CATCHING.replace(true);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())
    });
    CATCHING.set(was);
    res
}

/// Accepts at most `k` bytes per call and fails once `left` bytes were taken: from then on, or that one time.
pub struct Sink {
    pub once: bool,
    pub out: Vec<u8>,
    pub k: usize,
    pub left: usize,
    pub interrupts: bool,
    pub calls: usize,
}
impl Sink {
    pub fn new(k: usize, left: usize, interrupts: bool) -> Self {
        Sink { once: false, out: vec![], k, left, interrupts, calls: 0 }
    }
}
/// What a sink says when it takes nothing more: an error of some kind, or that it took nothing.
fn refusal(at: usize) -> io::Result<usize> {
    use io::ErrorKind::*;
    let kinds = [Other, WriteZero, BrokenPipe, WouldBlock, UnexpectedEof, InvalidInput, TimedOut, PermissionDenied, StorageFull, InvalidData];
    match at % 12 {
        0 | 1 => Ok(0),
        n => Err(io::Error::new(kinds[n - 2], "sink full")),
    }
}
pub fn refused(m: &str) -> bool {
    ["sink full", "failed to write whole buffer", "write zero"].iter().any(|t| m.contains(t))
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupts && self.calls % 3 == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        if b.is_empty() {
            return Ok(0);
        }
        if self.left == 0 {
            if self.once {
                self.left = usize::MAX;
            }
            return refusal(self.out.len());
        }
        let n = b.len().min(self.k).min(self.left);
        self.left -= n;
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// The same for sinks that are also sought in.  `room` bounds the length, not what is written over; the `nth` use of seek fails.
pub struct SeekSink {
    pub once: bool,
    pub room: usize,
    pub nth: usize,
    pub s: io::Cursor<Vec<u8>>,
    pub k: usize,
    pub left: usize,
}
impl Write for SeekSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let room = self.room.saturating_sub(self.s.position() as usize);
        if self.left == 0 || room == 0 {
            if self.once {
                self.left = usize::MAX;
            }
            return refusal(self.s.position() as usize);
        }
        let n = b.len().min(self.k).min(self.left).min(room);
        self.left -= n;
        self.s.write(&b[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for SeekSink {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.nth = self.nth.wrapping_sub(1);
        if self.nth == 0 {
            return Err(io::Error::other("sink full"));
        }
        self.s.seek(p)
    }
}
thread_local! {
    /// Set when a stream was asked for nothing over and over: an array of
    /// elements without size whose count is huge (see known-findings.txt).
    pub static FLOOD: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// Hands out at most `k` bytes per call.
pub struct Source<'a> {
    pub s: io::Cursor<&'a [u8]>,
    pub k: usize,
}
impl Read for Source<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.k);
        self.s.read(&mut b[..n])
    }
    fn read_exact(&mut self, b: &mut [u8]) -> io::Result<()> {
        if b.is_empty() {
            FLOOD.set(FLOOD.get() + 1);
            if FLOOD.get() > 20_000 {
                return Err(io::Error::other("endless"));
            }
        }
        let mut i = 0;
        while i < b.len() {
            match self.read(&mut b[i..])? {
                0 => return Err(io::Error::from(io::ErrorKind::UnexpectedEof)),
                n => i += n,
            }
        }
        Ok(())
    }
}
impl Seek for Source<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.s.seek(p)
    }
}

pub const KINDS: &[&str] = &[
    "BoolProperty", "ByteProperty", "DoubleProperty", "EnumProperty", "FloatProperty", "Int16Property", "Int64Property", "Int8Property",
    "IntProperty", "NameProperty", "ObjectProperty", "StrProperty", "UInt16Property", "UInt32Property", "UInt64Property", "UnknownProperty",
    "DelegateProperty", "MulticastInlineDelegateProperty", "MulticastSparseDelegateProperty", "FieldPathProperty", "TextProperty",
    "StructProperty", "ArrayProperty", "SetProperty", "MapProperty",
];
/// kinds without properties inside
pub const LEAVES: usize = 20;

/// What surrounds a value: version table and hints.
#[derive(Clone, Debug, Default)]
pub struct Env {
    pub versions: Vec<([u8; 16], u32)>,
    pub hints: Vec<(String, String)>,
    pub stack: Vec<String>,
    /// type and whether untyped structs are built with that type
    pub hint_ty: String,
}
