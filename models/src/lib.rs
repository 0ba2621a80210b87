//! What the proof assumes about reading and writing numbers and about characters, for all values (Kani).
#![cfg(kani)]
use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
use std::io::Cursor;

/// little-endian digits, as the specification defines them
fn le(v: u64, n: usize) -> [u8; 8] {
    let (mut b, mut v, mut i) = ([0; 8], v, 0);
    while i < n {
        b[i] = (v % 256) as u8;
        v /= 256;
        i += 1;
    }
    b
}
/// a number written at position 1 of ten bytes: its digits there, nothing else touched, read back as
/// it was, and an error when a byte is missing
macro_rules! int {
    ($name:ident, $t:ty, $u:ty, $n:literal, $r:ident, $w:ident) => {
        #[kani::proof]
        #[kani::unwind(12)]
        fn $name() {
            let v: $t = kani::any();
            let before: u8 = kani::any();
            let mut out = [before; 10];
            let mut c = Cursor::new(&mut out[..]);
            c.set_position(1);
            assert!(c.$w::<LittleEndian>(v).is_ok());
            assert!(c.position() == 1 + $n);
            let b = le(v as $u as u64, $n);
            let mut i = 0;
            while i < 10 {
                assert!(out[i] == if i >= 1 && i < 1 + $n { b[i - 1] } else { before });
                i += 1;
            }
            let mut c = Cursor::new(&out[..]);
            c.set_position(1);
            assert!(matches!(c.$r::<LittleEndian>(), Ok(x) if x == v));
            assert!(c.position() == 1 + $n);
            let mut c = Cursor::new(&out[..$n]);
            c.set_position(1);
            let r = c.$r::<LittleEndian>();
            assert!(r.is_err());
            // Kani does not know how io::Error is dropped
            std::mem::forget(r);
        }
    };
}
int!(model_u16, u16, u16, 2, read_u16, write_u16);
int!(model_u32, u32, u32, 4, read_u32, write_u32);
int!(model_u64, u64, u64, 8, read_u64, write_u64);
int!(model_i16, i16, u16, 2, read_i16, write_i16);
int!(model_i32, i32, u32, 4, read_i32, write_i32);
int!(model_i64, i64, u64, 8, read_i64, write_i64);

/// every bit pattern survives reading and writing, also those of NaNs
#[kani::proof]
#[kani::unwind(10)]
fn model_f32() {
    let b: [u8; 4] = kani::any();
    let v = Cursor::new(&b[..]).read_f32::<LittleEndian>().unwrap();
    assert!(v.to_bits() == u32::from_le_bytes(b));
    let mut out = [0; 4];
    Cursor::new(&mut out[..]).write_f32::<LittleEndian>(v).unwrap();
    assert!(out == b);
}
#[kani::proof]
#[kani::unwind(10)]
fn model_f64() {
    let b: [u8; 8] = kani::any();
    let v = Cursor::new(&b[..]).read_f64::<LittleEndian>().unwrap();
    assert!(v.to_bits() == u64::from_le_bytes(b));
    let mut out = [0; 8];
    Cursor::new(&mut out[..]).write_f64::<LittleEndian>(v).unwrap();
    assert!(out == b);
}
/// enc16_char
#[kani::proof]
fn model_utf16() {
    let c: char = kani::any();
    let mut b = [0u16; 2];
    let w = c.encode_utf16(&mut b);
    let n = c as u32;
    if n < 0x10000 {
        assert!(w.len() == 1 && w[0] == n as u16);
    } else {
        assert!(w.len() == 2 && w[0] == (0xD800 + (n - 0x10000) / 0x400) as u16 && w[1] == (0xDC00 + (n - 0x10000) % 0x400) as u16);
    }
}
/// ax_is_ws
#[kani::proof]
fn model_space() {
    let c: char = kani::any();
    if ('\x21'..='\x7e').contains(&c) {
        assert!(!c.is_whitespace());
    }
}
/// e128 and u128_of
#[kani::proof]
#[kani::unwind(18)]
fn model_u128() {
    let v: u128 = kani::any();
    let b = v.to_le_bytes();
    let mut i = 0;
    while i < 16 {
        assert!(b[i] == (v >> (8 * i)) as u8);
        i += 1;
    }
    assert!(u128::from_le_bytes(b) == v);
}
