//! Percent-decoding with the behaviour of urlencoding 2.1.
use std::borrow::Cow;
use std::string::FromUtf8Error;
fn hex(c: u8) -> Option<u8> {
    (c as char).to_digit(16).map(|d| d as u8)
}
pub fn decode(s: &str) -> Result<Cow<str>, FromUtf8Error> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let (Some(h), Some(l)) = (hex(b[i + 1]), hex(b[i + 2])) {
                o.push(h << 4 | l);
                i += 3;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    String::from_utf8(o).map(Cow::Owned)
}
pub fn encode(s: &str) -> Cow<str> {
    let mut o = String::new();
    for c in s.bytes() {
        if c.is_ascii_alphanumeric() || b"-._~".contains(&c) {
            o.push(c as char);
        } else {
            o.push_str(&format!("%{c:02X}"));
        }
    }
    Cow::Owned(o)
}
