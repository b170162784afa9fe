//! JSON text helpers.
use std::fmt::Write;
/// Decimal text of every byte with a leading comma (cheap also under an interpreter).
struct Dec([[u8; 4]; 256], [u8; 256]);
const fn dec() -> Dec {
    let (mut t, mut l) = ([[b','; 4]; 256], [0u8; 256]);
    let mut i = 0;
    while i < 256 {
        let (a, b, c) = (b'0' + (i / 100) as u8, b'0' + (i / 10 % 10) as u8, b'0' + (i % 10) as u8);
        if i > 99 {
            t[i] = [b',', a, b, c];
            l[i] = 4;
        } else if i > 9 {
            t[i] = [b',', b, c, 0];
            l[i] = 3;
        } else {
            t[i] = [b',', c, 0, 0];
            l[i] = 2;
        }
        i += 1;
    }
    Dec(t, l)
}
static DEC: Dec = dec();
pub fn bytes(v: &[u8]) -> String {
    if v.is_empty() {
        return "[]".into();
    }
    let mut s: Vec<u8> = Vec::with_capacity(v.len() * 4 + 2);
    let mut i = 0;
    while i < v.len() {
        let b = v[i] as usize;
        s.extend_from_slice(&DEC.0[b][..DEC.1[b] as usize]);
        i += 1;
    }
    s[0] = b'[';
    s.push(b']');
    String::from_utf8(s).unwrap()
}
/// A 64-bit number as four 16-bit limbs, most significant first.
pub fn limbs(n: u64) -> String {
    format!("[{},{},{},{}]", n >> 48, (n >> 32) & 0xffff, (n >> 16) & 0xffff, n & 0xffff)
}
pub fn hex(v: &[u8]) -> String {
    let mut s = String::with_capacity(v.len() * 2);
    for b in v {
        write!(s, "{:02x}", b).unwrap();
    }
    s
}
/// A JSON string (escaped).
pub fn string(v: &str) -> String {
    let mut s = String::from("\"");
    for c in v.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    write!(s, "\\u{:04x}", u).unwrap();
                }
            }
            c => s.push(c),
        }
    }
    s.push('"');
    s
}
