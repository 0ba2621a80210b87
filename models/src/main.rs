//! What the proof assumes about the standard library, indexmap and flate2, compared with the real thing
//! on every input up to a stated size. One line per group: name, number of comparisons, bound.
use byteorder::{LittleEndian, ReadBytesExt};
use flate2::{Compression, read::ZlibDecoder, write::ZlibEncoder};
use indexmap::IndexMap;
use std::collections::HashMap;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

/// every sequence over `alphabet` of at most `n` elements
fn all<T: Clone>(alphabet: &[T], n: usize, f: &mut dyn FnMut(&[T])) {
    fn go<T: Clone>(alphabet: &[T], n: usize, cur: &mut Vec<T>, f: &mut dyn FnMut(&[T])) {
        f(cur);
        if n == 0 {
            return;
        }
        for a in alphabet {
            cur.push(a.clone());
            go(alphabet, n - 1, cur, f);
            cur.pop();
        }
    }
    go(alphabet, n, &mut vec![], f);
}

// ---------------------------------------------------------------- im_find, im_insert, im_push, im_all
fn find<V>(s: &[(String, V)], k: &str) -> Option<usize> {
    s.iter().rposition(|e| e.0 == k)
}
fn put(s: &mut Vec<(String, u8)>, k: &str, v: u8) {
    match find(s, k) {
        Some(i) => s[i].1 = v,
        None => s.push((k.into(), v)),
    }
}
fn maps() -> (u64, &'static str) {
    let mut n = 0;
    let ops: Vec<(&str, u8)> = ["", "a", "b", "A"].iter().flat_map(|k| [(*k, 0), (*k, 1)]).collect();
    all(&ops, 6, &mut |ops| {
        let (mut m, mut s) = (IndexMap::<String, u8>::with_capacity(ops.len() / 2), vec![]);
        let (mut g, mut t) = (IndexMap::<String, Vec<u8>>::new(), Vec::<(String, Vec<u8>)>::new());
        for (k, v) in ops {
            let was = find(&s, k).map(|i| s[i].1);
            assert_eq!(m.insert(k.to_string(), *v), was);
            put(&mut s, k, *v);
            g.entry(k.to_string()).or_default().push(*v);
            match find(&t, k) {
                Some(i) => t[i].1.push(*v),
                None => t.push((k.to_string(), vec![*v])),
            }
        }
        assert!(m.iter().map(|(k, v)| (k.clone(), *v)).eq(s.iter().cloned()));
        assert!((&m).into_iter().rev().map(|(k, v)| (k.clone(), *v)).eq(s.iter().rev().cloned()));
        assert!(m.iter().skip(1).take(2).map(|(k, v)| (k.clone(), *v)).eq(s.iter().skip(1).take(2).cloned()));
        assert!(g.iter().map(|(k, v)| (k.clone(), v.clone())).eq(t.iter().cloned()));
        assert!(m.len() == s.len() && g.len() == t.len());
        let c: IndexMap<String, u8> = ops.iter().map(|(k, v)| (k.to_string(), *v)).collect();
        assert!(c.iter().map(|(k, v)| (k.clone(), *v)).eq(s.iter().cloned()));
        for k in ["", "a", "b", "A", "c"] {
            let want = find(&s, k).map(|i| s[i].1);
            assert!(m.get(k).copied() == want && m.contains_key(k) == want.is_some());
        }
        n += 1;
    });
    (n, "every sequence of at most 6 insertions of 4 keys and 2 values")
}
fn hints() -> (u64, &'static str) {
    let mut n = 0;
    let keys = ["", "a", "a.b", "a.B", "a.b.c"];
    all(&[0usize, 1, 2, 3, 4], 4, &mut |ks| {
        let mut m = HashMap::<String, usize>::new();
        for (i, k) in ks.iter().enumerate() {
            m.insert(keys[*k].into(), i);
        }
        for (k, key) in keys.iter().enumerate() {
            assert!(m.get(*key).copied() == ks.iter().rposition(|x| *x == k));
        }
        let parts: Vec<String> = ks.iter().map(|k| keys[*k].to_string()).collect();
        let mut joined = String::new();
        for (i, p) in parts.iter().enumerate() {
            if i > 0 {
                joined.push('.');
            }
            joined.push_str(p);
        }
        assert!(parts.join(".") == joined);
        n += 1;
    });
    (n, "every choice of at most 4 of 5 keys; join of as many parts")
}

// ---------------------------------------------------------------- enc16, dec16, valid_utf8, decode_utf8
fn dec16(w: &[u16]) -> Option<Vec<u32>> {
    let Some((last, rest)) = w.split_last() else { return Some(vec![]) };
    let (hi, lo) = (0xD800..0xDC00u16, 0xDC00..0xE000u16);
    if lo.contains(last) {
        let (h, rest) = rest.split_last()?;
        if !hi.contains(h) {
            return None;
        }
        let mut s = dec16(rest)?;
        s.push(0x10000 + (*h as u32 - 0xD800) * 0x400 + (*last as u32 - 0xDC00));
        Some(s)
    } else if hi.contains(last) {
        None
    } else {
        let mut s = dec16(rest)?;
        s.push(*last as u32);
        Some(s)
    }
}
/// the scalar at the start of `b` and its length, by the table of well-formed byte sequences
fn scalar8(b: &[u8]) -> Option<(u32, usize)> {
    let c = |i: usize| b.get(i).filter(|x| (0x80..0xC0).contains(*x)).map(|x| (*x & 0x3F) as u32);
    let b0 = b[0] as u32;
    let (v, n, least) = match b0 {
        0..0x80 => (b0, 1, 0),
        0xC0..0xE0 => ((b0 & 0x1F) << 6 | c(1)?, 2, 0x80),
        0xE0..0xF0 => ((b0 & 0x0F) << 12 | c(1)? << 6 | c(2)?, 3, 0x800),
        0xF0..0xF8 => ((b0 & 0x07) << 18 | c(1)? << 12 | c(2)? << 6 | c(3)?, 4, 0x10000),
        _ => return None,
    };
    (v >= least && !(0xD800..0xE000).contains(&v) && v < 0x110000).then_some((v, n))
}
fn dec8(mut b: &[u8]) -> Option<Vec<u32>> {
    let mut s = vec![];
    while !b.is_empty() {
        let (v, n) = scalar8(b)?;
        s.push(v);
        b = &b[n..];
    }
    Some(s)
}
fn scalars(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}
fn strings() -> (u64, &'static str) {
    let mut n = 0;
    let words = [0, 0x41, 0xFF, 0x800, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDC01, 0xDFFF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF];
    all(&words, 5, &mut |w| {
        assert!(String::from_utf16(w).ok().map(|s| scalars(&s)) == dec16(w), "{w:x?}");
        n += 1;
    });
    let chars = ['\0', 'A', '\x7f', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}'];
    all(&chars, 5, &mut |cs| {
        let s: String = cs.iter().collect();
        let mut want = vec![];
        for c in cs {
            let v = *c as u32;
            if v < 0x10000 {
                want.push(v as u16);
            } else {
                want.extend([(0xD800 + (v - 0x10000) / 0x400) as u16, (0xDC00 + (v - 0x10000) % 0x400) as u16]);
            }
        }
        assert!(s.encode_utf16().collect::<Vec<_>>() == want);
        assert!(dec8(s.as_bytes()) == Some(scalars(&s)));
        assert!(s.is_ascii() == cs.iter().all(|c| (*c as u32) < 0x80));
        assert!(s.len() == s.as_bytes().len() && String::from_utf8(s.as_bytes().to_vec()).as_ref() == Ok(&s));
        assert!(*Box::<str>::from(s.clone()) == *s && s.clone().into_boxed_str() == s.as_str().into());
        n += 1;
    });
    let mut eight = |b: &[u8]| {
        assert!(String::from_utf8(b.to_vec()).ok().map(|s| scalars(&s)) == dec8(b), "{b:x?}");
        n += 1;
    };
    let bytes: Vec<u8> = (0..=255).collect();
    all(&bytes, 2, &mut eight);
    let bytes = [0, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xF8, 0xFF];
    all(&bytes, 4, &mut eight);
    for c in '\0'..=char::MAX {
        eight(c.to_string().as_bytes());
    }
    (n, "every sequence of at most 5 of 15 16-bit words and of 13 characters; every 2 bytes, every 4 of 23 bytes, every character")
}

// ---------------------------------------------------------------- Cursor
fn streams() -> (u64, &'static str) {
    let mut n = 0;
    for len in 0..6usize {
        for pos in 0..=len {
            let data: Vec<u8> = (1..=len as u8).collect();
            let at = || {
                let mut c = Cursor::new(data.clone());
                c.set_position(pos as u64);
                c
            };
            for k in 0..6usize {
                n += 1;
                // writing replaces what is there and goes on behind the end
                let b: Vec<u8> = (101..101 + k as u8).collect();
                let mut want = data[..pos].to_vec();
                want.extend(&b);
                want.extend(data.get(pos + k..).unwrap_or(&[]));
                for whole in [true, false] {
                    let mut c = at();
                    if whole {
                        c.write_all(&b).unwrap();
                    } else {
                        assert!(c.write(&b).unwrap() == k);
                        c.flush().unwrap();
                    }
                    assert!(c.position() as usize == pos + k && *c.get_ref() == want && c.into_inner() == want);
                }
                // reading
                let mut c = at();
                let mut buf = vec![0; k];
                assert!(c.read_exact(&mut buf).is_ok() == (pos + k <= len));
                assert!(*c.get_ref() == data && c.position() as usize <= len);
                if pos + k <= len {
                    assert!(buf == data[pos..pos + k] && c.position() as usize == pos + k);
                }
                let mut c = at();
                let mut words = vec![0u16; k];
                assert!(c.read_u16_into::<LittleEndian>(&mut words).is_ok() == (pos + 2 * k <= len));
                assert!(*c.get_ref() == data && c.position() as usize <= len && words.len() == k);
                if pos + 2 * k <= len {
                    assert!(c.position() as usize == pos + 2 * k);
                    for (i, w) in words.iter().enumerate() {
                        assert!(*w as usize == data[pos + 2 * i] as usize + 256 * data[pos + 2 * i + 1] as usize);
                    }
                }
                let mut c = at();
                let r = c.read_u8();
                assert!(r.is_ok() == (pos < len) && (pos >= len || (r.unwrap() == data[pos] && c.position() as usize == pos + 1)));
                let mut c = at();
                let mut buf = vec![7; k];
                assert!(c.read_to_end(&mut buf).unwrap() == len - pos);
                assert!(buf[..k].iter().all(|b| *b == 7) && buf[k..] == data[pos..] && c.position() as usize == len);
            }
            // seeking
            for d in -8..=8i64 {
                n += 1;
                for (to, base) in [(SeekFrom::Start(d.max(0) as u64), None), (SeekFrom::Current(d), Some(pos)), (SeekFrom::End(d), Some(len))] {
                    let want = base.map_or(d.max(0), |b| b as i64 + d);
                    let mut c = at();
                    match c.seek(to) {
                        Ok(p) => assert!(want >= 0 && p == want as u64 && c.stream_position().unwrap() == p),
                        Err(_) => assert!(want < 0 && c.stream_position().unwrap() == pos as u64),
                    }
                    assert!(*c.get_ref() == data);
                }
            }
        }
    }
    (n, "every position in at most 5 bytes, at most 5 bytes read or written, seeking by at most 8")
}

// ---------------------------------------------------------------- zlib
fn zlib() -> (u64, &'static str) {
    let mut n = 0;
    let mut one = |d: &[u8], level: u32| {
        let mut e = ZlibEncoder::new(Vec::new(), Compression::new(level));
        e.write_all(&d[..d.len() / 2]).unwrap();
        e.write_all(&d[d.len() / 2..]).unwrap();
        let z = e.finish().unwrap();
        // the compressed form depends on the level and the data only, not on how it was handed over
        let mut e = ZlibEncoder::new(Cursor::new(Vec::new()), Compression::new(level));
        e.write_all(d).unwrap();
        assert!(e.finish().unwrap().into_inner() == z);
        for tail in [&[][..], &[0], &[0x78, 0x9c, 1]] {
            let mut src = z.clone();
            src.extend(tail);
            let mut out = vec![9];
            assert!(ZlibDecoder::new(&src[..]).read_to_end(&mut out).unwrap() == d.len() && out[1..] == *d);
            let mut c = Cursor::new(src);
            let mut out = vec![0; d.len()];
            ZlibDecoder::new(&mut c).read_exact(&mut out).unwrap();
            assert!(out == d);
            c.set_position(0);
            assert!(ZlibDecoder::new(&mut c).read_exact(&mut vec![0; d.len() + 1]).is_err());
        }
        if z.len() < 64 {
            for cut in 0..z.len() {
                assert!(ZlibDecoder::new(&z[..cut]).read_to_end(&mut vec![]).is_err());
            }
        }
        n += 1;
    };
    for level in 0..10 {
        all(&[0u8, 1, 255], 5, &mut |d| one(d, level));
        for size in [100, 1000, 32768, 70000, 200_000] {
            one(&vec![7; size], level);
            let mut x = 1u32;
            let noise: Vec<u8> = (0..size)
                .map(|_| {
                    x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                    (x >> 24) as u8
                })
                .collect();
            one(&noise, level);
        }
    }
    assert!(Compression::default() == Compression::new(6));
    (n, "levels 0 to 9, every sequence of at most 5 of 3 bytes, uniform and irregular data of up to 200000 bytes")
}

// ---------------------------------------------------------------- repl, trim, strip, hex
fn text() -> (u64, &'static str) {
    let mut n = 0;
    let chars = ['-', '{', '}', ' ', '\t', '\u{a0}', '\u{3000}', 'g', 'A', 'f', '0', '9', 'é', '+'];
    all(&chars, 4, &mut |cs| {
        let s: String = cs.iter().collect();
        let mut repl = String::new();
        for c in cs {
            if *c == '-' { repl.push_str("xy") } else { repl.push(*c) }
        }
        assert!(s.replace('-', "xy") == repl && s.replace('-', "") == repl.replace("xy", ""));
        let (mut a, mut z) = (0, cs.len());
        while a < z && cs[a].is_whitespace() {
            a += 1;
        }
        while a < z && cs[z - 1].is_whitespace() {
            z -= 1;
        }
        assert!(s.trim() == cs[a..z].iter().collect::<String>());
        let rest = |c: &[char]| c.iter().collect::<String>();
        assert!(s.strip_prefix('{').map(str::to_string) == (cs.first() == Some(&'{')).then(|| rest(&cs[1..])));
        assert!(s.strip_suffix('}').map(str::to_string) == (cs.last() == Some(&'}')).then(|| rest(&cs[..cs.len() - 1])));
        let hex = |c: &char| ('0'..='9').contains(c) || ('a'..='f').contains(c) || ('A'..='F').contains(c);
        assert!(s.bytes().all(|b| b.is_ascii_hexdigit()) == cs.iter().all(hex));
        if s.is_ascii() {
            for i in 0..=cs.len() {
                for j in i..=cs.len() {
                    assert!(s[i..j] == rest(&cs[i..j]));
                }
            }
        }
        n += 1;
    });
    for b in 0..=255u8 {
        let d = |n: u8, up: bool| (if n < 10 { 48 + n } else if up { 55 + n } else { 87 + n }) as char;
        for (up, two, one) in [(true, format!("{b:02X}"), format!("{b:X}")), (false, format!("{b:02x}"), format!("{b:x}"))] {
            let hex2: String = [d(b / 16, up), d(b % 16, up)].iter().collect();
            assert!(two == hex2 && one == if b >= 16 { hex2.clone() } else { d(b, up).to_string() });
            assert!(u8::from_str_radix(&two, 16) == Ok(b));
        }
        n += 1;
    }
    for (b, c) in ('a'..='f').flat_map(|b| ('A'..='F').map(move |c| (b, c))) {
        assert!(u8::from_str_radix(&format!("{b}{c}"), 16) == Ok((b as u8 - 87) * 16 + (c as u8 - 55)));
        n += 1;
    }
    (n, "every text of at most 4 of 14 characters, every byte")
}

fn main() {
    let groups: [(&str, fn() -> (u64, &'static str)); 6] =
        [("maps", maps), ("hints", hints), ("strings", strings), ("streams", streams), ("zlib", zlib), ("text", text)];
    let wanted: Vec<String> = std::env::args().skip(1).collect();
    for (name, f) in groups {
        if wanted.is_empty() || wanted.iter().any(|w| w == name) {
            let (n, bound) = f();
            println!("{name}\t{n}\t{bound}");
        }
    }
}
