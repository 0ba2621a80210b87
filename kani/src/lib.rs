//! GUID conversions that contain unsafe code, proved for all values.
#![cfg(kani)]
use gvas::types::Guid;

fn bytes(w: [u32; 4]) -> [u8; 16] {
    let mut b = [0u8; 16];
    let mut i = 0;
    while i < 16 {
        b[i] = (w[i / 4] >> (8 * (i % 4))) as u8;
        i += 1;
    }
    b
}

#[kani::proof]
#[kani::unwind(17)]
fn from_u32() {
    let w: [u32; 4] = kani::any();
    assert!(Guid::from_u32(w).0 == bytes(w));
}

#[kani::proof]
#[kani::unwind(17)]
fn to_u32() {
    let b: [u8; 16] = kani::any();
    let w = Guid(b).to_u32();
    assert!(bytes(w) == b);
}
