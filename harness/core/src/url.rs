//! url encoding
use std::collections::BTreeMap;

use serde::{Deserialize, Serialize};
use vercre_core::urlencode::{from_str, to_string};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Mode {
    First,
    SecondOne,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Flat {
    pub a: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub b: Option<String>,
    pub mode: Mode,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Inner {
    pub x: String,
    pub k: i32,
    pub on: bool,
    pub list: Vec<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub opt: Option<String>,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Outer {
    pub inner: Inner,
    pub z: String,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Choice {
    Unit,
    New(String),
    Pair(String, i32),
    Rec { f: String },
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Shapes {
    pub list: Vec<String>,
    pub map: BTreeMap<String, String>,
    pub pair: (String, i32),
    pub choice: Choice,
    pub objs: Vec<Two>,
    pub z: String,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Two {
    pub p: String,
    pub q: String,
}

fn texty(s: &str) -> bool {
    !(s.starts_with('[') || s.starts_with('{'))
}

// ---- U01: round trip
#[cfg(feature = "u01")]
#[no_mangle]
pub extern "C" fn u01_flat() {
    let (a, b) = match sym::choose("focus", 3) {
        0 => (sym::ascii_upto("a", 0, sym::by_tier(3, 4)), None),
        1 => (sym::ascii("a", 1), Some(sym::ascii("b", 1))),
        _ => ("a".to_string(), Some(sym::ascii_upto("b", 0, 2))),
    };
    sym::assume(texty(&a));
    if let Some(b) = &b {
        sym::assume(texty(b));
    }
    let mode = if sym::flip("mode") { Mode::First } else { Mode::SecondOne };
    let v = Flat { a, b, mode };
    sym::phase("encode");
    let s = to_string(&v);
    sym::check(s.is_ok(), "flat values can be encoded");
    let s = s.unwrap();
    sym::phase("decode");
    let r = from_str::<Flat>(&s);
    sym::check(r.is_ok(), "encoded flat values can be decoded");
    sym::check(r.unwrap() == v, "decoding gives back the flat value");
    sym::cover("round trip");
}
#[cfg(feature = "u01")]
#[no_mangle]
pub extern "C" fn u01_nested() {
    let inner = Inner {
        x: sym::ascii_upto("x", 0, sym::by_tier(2, 3)),
        k: [0, 7, -15, i32::MAX][sym::choose("k", 4)],
        on: sym::flip("on"),
        list: vec![],
        opt: if sym::flip("has_opt") { Some(sym::ascii("opt", 1)) } else { None },
    };
    let v = Outer { inner, z: "end".into() };
    let s = to_string(&v).unwrap();
    let r = from_str::<Outer>(&s);
    sym::check(r.is_ok(), "encoded nested values can be decoded");
    sym::check(r.unwrap() == v, "decoding gives back the nested value");
    sym::cover("round trip");
}
#[cfg(feature = "u01")]
#[no_mangle]
pub extern "C" fn u01_list() {
    let n = sym::choose("n", 4);
    let inner = Inner { x: "x".into(), k: 1, on: true, list: (0..n).map(|_| sym::ascii("e", 1)).collect(), opt: None };
    let v = Outer { inner, z: "end".into() };
    let s = to_string(&v).unwrap();
    let r = from_str::<Outer>(&s);
    sym::check(r.is_ok(), "encoded lists can be decoded");
    sym::check(r.unwrap() == v, "decoding gives back the list");
    sym::cover("round trip");
}
#[cfg(feature = "u01")]
#[no_mangle]
pub extern "C" fn u01_shapes() {
    let t = sym::ascii("t", 1);
    let which = sym::choose("which", 6);
    let pick = |i: usize| if which == i { t.clone() } else { "w".to_string() };
    let mut map = BTreeMap::new();
    map.insert("m1".to_string(), pick(0));
    map.insert("m2".to_string(), "v".to_string());
    let choice = match sym::choose("choice", 4) {
        0 => Choice::Unit,
        1 => Choice::New(pick(1)),
        2 => Choice::Pair(pick(1), -3),
        _ => Choice::Rec { f: pick(1) },
    };
    let n = sym::choose("objs", 3);
    let v = Shapes {
        list: if sym::flip("list") { vec!["l".into(), pick(2)] } else { vec![] },
        map,
        pair: (pick(3), 12),
        choice,
        objs: (0..n).map(|_| Two { p: pick(4), q: "q".into() }).collect(),
        z: pick(5),
    };
    sym::assume(texty(&v.z));
    let s = to_string(&v).unwrap();
    let r = from_str::<Shapes>(&s);
    sym::check(r.is_ok(), "encoded compound values can be decoded");
    sym::check(r.unwrap() == v, "decoding gives back the compound value");
    sym::cover("round trip");
}
#[cfg(feature = "u01")]
#[no_mangle]
pub extern "C" fn u01_map() {
    let mut m = BTreeMap::new();
    m.insert("k1".to_string(), sym::ascii_upto("v", 0, 2));
    m.insert("k2".to_string(), sym::ascii("w", 1));
    sym::assume(m.values().all(|s| texty(s)));
    let s = to_string(&m).unwrap();
    let r = from_str::<BTreeMap<String, String>>(&s);
    sym::check(r.is_ok(), "encoded maps can be decoded");
    sym::check(r.unwrap() == m, "decoding gives back the map");
    sym::cover("round trip");
}
/// two-byte UTF-8 characters, next to an ASCII one
#[cfg(feature = "u01")]
#[no_mangle]
pub extern "C" fn u01_unicode() {
    let b = sym::bytes("u", 2);
    sym::assume((b[0] >= 0xC2) & (b[0] <= 0xDF) & (b[1] >= 0x80) & (b[1] <= 0xBF));
    let mut s = unsafe { String::from_utf8_unchecked(b) };
    s.push_str(["", "é", "字", "😀"][sym::choose("tail", 4)]);
    let nested = sym::flip("nested");
    let v = Outer {
        inner: Inner { x: if nested { s.clone() } else { "x".into() }, k: 0, on: false, list: vec![], opt: None },
        z: if nested { "z".into() } else { s },
    };
    let e = to_string(&v).unwrap();
    sym::check(e.is_ascii(), "the encoded form is ASCII");
    let r = from_str::<Outer>(&e);
    sym::check(r.is_ok(), "encoded non-ASCII text can be decoded");
    sym::check(r.unwrap() == v, "decoding gives back non-ASCII text");
    sym::cover("round trip");
}

/// any character of three or four bytes
#[cfg(any(feature = "u01", feature = "u03"))]
fn wide_char() -> String {
    let n = 3 + sym::choose("len", 2);
    let b = sym::bytes("u", n);
    // every character of that many bytes; some first bytes limit the second
    let (lo, hi) = if n == 3 {
        match sym::choose("lead", 4) {
            0 => { sym::assume(b[0] == 0xE0); (0xA0, 0xBF) }
            1 => { sym::assume((b[0] >= 0xE1) & (b[0] <= 0xEC)); (0x80, 0xBF) }
            2 => { sym::assume(b[0] == 0xED); (0x80, 0x9F) }
            _ => { sym::assume((b[0] >= 0xEE) & (b[0] <= 0xEF)); (0x80, 0xBF) }
        }
    } else {
        match sym::choose("lead", 3) {
            0 => { sym::assume(b[0] == 0xF0); (0x90, 0xBF) }
            1 => { sym::assume((b[0] >= 0xF1) & (b[0] <= 0xF3)); (0x80, 0xBF) }
            _ => { sym::assume(b[0] == 0xF4); (0x80, 0x8F) }
        }
    };
    sym::assume((b[1] >= lo) & (b[1] <= hi));
    for c in &b[2..] {
        sym::assume((*c >= 0x80) & (*c <= 0xBF));
    }
    unsafe { String::from_utf8_unchecked(b) }
}
/// three- and four-byte UTF-8 characters
#[cfg(feature = "u01")]
#[no_mangle]
pub extern "C" fn u01_wide_unicode() {
    let s = wide_char();
    let s = match sym::choose("place", 3) {
        0 => s,
        1 => format!("{s}x"),
        _ => format!("x{s}"),
    };
    let nested = sym::flip("nested");
    let v = Outer {
        inner: Inner { x: if nested { s.clone() } else { "x".into() }, k: 0, on: false, list: vec![], opt: None },
        z: if nested { "z".into() } else { s },
    };
    let e = to_string(&v).unwrap();
    sym::check(e.is_ascii(), "the encoded form is ASCII");
    let r = from_str::<Outer>(&e);
    sym::check(matches!(&r, Ok(r) if *r == v), "decoding gives back non-ASCII text");
    sym::cover("round trip");
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Numbers {
    s8: i8,
    u8_: u8,
    s16: i16,
    u16_: u16,
    s32: i32,
    u32_: u32,
    s64: i64,
    u64_: u64,
    f: f64,
    g: f32,
    c: char,
    none: Option<i32>,
    some: Option<bool>,
    unit: (),
    newtype: Newtype,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Newtype(i64);
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Numbered {
    n: Numbers,
    list: Vec<i64>,
    more: Vec<u64>,
    z: String,
}
/// numbers of every width within nested values, at their limits
#[cfg(feature = "u01")]
#[no_mangle]
pub extern "C" fn u01_numbers() {
    const I: [i64; 17] = [0, 1, -1, i64::MAX, i64::MIN, 127, -128, 128, 32767, -32768, 65535, 2147483647, -2147483648, 4294967295, 10, 99, -100];
    let i = I[sym::choose("i", I.len())];
    let u = i as u64;
    let j = sym::choose("j", 9);
    let f = [0.5, -2.25, 1e21, 3.0, 0.1, 1e-7, 1e300, 1e-300, 123456.789][j];
    let (s8, u8_) = if i == 0 { (sym::u8("s8") as i8, sym::u8("u8")) } else { (i as i8, u as u8) };
    let n = Numbers {
        s8,
        u8_,
        s16: i as i16,
        u16_: u as u16,
        s32: i as i32,
        u32_: u as u32,
        s64: i,
        u64_: u,
        f,
        g: [0.5f32, 0.1, -7.0, 1e-7, 16777216.0, 3.4e38, 0.333_333_34, 1.0e-38, 123.4567][j],
        c: ['c', '"', '\u{e9}'][j % 3],
        none: None,
        some: [None, Some(true), Some(false)][(j + 1) % 3],
        unit: (),
        newtype: Newtype(i),
    };
    let v = Numbered { n, list: vec![i, 5, -i.saturating_abs()], more: vec![u, u / 3], z: "end".into() };
    let s = to_string(&v).unwrap();
    let r = from_str::<Numbered>(&s);
    sym::check(r.is_ok(), "encoded numbers can be decoded");
    sym::check(r.unwrap() == v, "decoding gives back the numbers");
    sym::cover("round trip");
}
const LONG: [usize; 16] = [7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 300];
/// longer texts: any character after a run of plain or special ones
fn long_text() -> String {
    let n = LONG[sym::choose("len", LONG.len())];
    let mut s = ["a", "%", "\"", " &="][sym::choose("fill", 4)].repeat(n);
    s.truncate(n);
    s.push_str(&sym::ascii("t", 1));
    s.push('.');
    s
}
#[cfg(feature = "u01")]
#[no_mangle]
pub extern "C" fn u01_long() {
    let t = long_text();
    let v = match sym::choose("where", 3) {
        0 => Outer { inner: Inner { x: t, k: 0, on: false, list: vec![], opt: None }, z: "z".into() },
        1 => Outer { inner: Inner { x: "x".into(), k: 0, on: false, list: vec![t], opt: None }, z: "z".into() },
        _ => Outer { inner: Inner { x: "x".into(), k: 0, on: false, list: vec![], opt: None }, z: t },
    };
    let s = to_string(&v).unwrap();
    let r = from_str::<Outer>(&s);
    sym::check(matches!(&r, Ok(r) if *r == v), "decoding gives back longer texts");
    sym::cover("round trip");
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Tree {
    Leaf(String),
    Empty,
    Pair(Box<Tree>, Box<Tree>),
    Node { left: Box<Tree>, tag: String },
    List(Vec<Tree>),
    Map(BTreeMap<String, Tree>),
    Opt(Option<Box<Tree>>),
    Tuple((Box<Tree>, i32), bool),
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Forest {
    pub first: Tree,
    pub z: String,
}
/// every form of value inside every other, three deep
#[cfg(feature = "u01")]
#[no_mangle]
pub extern "C" fn u01_deep() {
    let t = sym::ascii("t", 1);
    let mut v = Tree::Leaf(t.clone());
    for _ in 0..3 {
        let other = Tree::Leaf("o".into());
        v = match sym::choose("form", 10) {
            0 => Tree::Leaf("l".into()),
            1 => Tree::Pair(v.into(), other.into()),
            2 => Tree::Pair(Tree::Empty.into(), v.into()),
            3 => Tree::Node { left: v.into(), tag: "x".into() },
            4 => Tree::List(vec![v]),
            5 => Tree::List(vec![other, v, Tree::Empty]),
            6 => Tree::Map([("k1".to_string(), v), ("k2".to_string(), other)].into_iter().collect()),
            7 => Tree::Opt(Some(v.into())),
            8 => Tree::List(vec![Tree::Opt(None), Tree::Map(BTreeMap::new()), Tree::List(vec![]), v]),
            _ => Tree::Tuple((v.into(), [3, -70000][sym::choose("int", 2)]), sym::flip("flag")),
        };
    }
    let v = Forest { first: v, z: "end".into() };
    // a nested text is JSON, and only lists and objects are recognised at the top level
    let s = to_string(&v).unwrap();
    let r = from_str::<Forest>(&s);
    sym::check(r.is_ok(), "encoded trees can be decoded");
    sym::check(r.unwrap() == v, "decoding gives back the tree");
    sym::cover("round trip");
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
#[serde(default)]
pub struct Sparse {
    #[serde(skip_serializing_if = "Option::is_none")]
    pub a: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub b: Option<Vec<String>>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub c: Option<Two>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub d: Option<BTreeMap<String, Vec<String>>>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub e: Option<Mode>,
}
/// any combination of optional fields, down to none; many items
#[cfg(feature = "u01")]
#[no_mangle]
pub extern "C" fn u01_sparse() {
    let t = sym::ascii("t", 1);
    let which = sym::choose("which", 3);
    let pick = |i: usize| if which == i { t.clone() } else { "w".to_string() };
    let n = [0, 1, 12][sym::choose("n", 3)];
    let v = Sparse {
        a: sym::flip("a").then(|| "t".to_string()),
        b: sym::flip("b").then(|| (0..n).map(|i| if i == n - 1 { pick(0) } else { i.to_string() }).collect()),
        c: sym::flip("c").then(|| Two { p: pick(1), q: "q".into() }),
        d: sym::flip("d").then(|| (0..n).map(|i| (format!("k{i}"), if i == 2 { vec![] } else { vec![pick(2); 2] })).collect()),
        e: sym::flip("e").then_some(Mode::SecondOne),
    };
    let s = to_string(&v).unwrap();
    let r = from_str::<Sparse>(&s);
    sym::check(matches!(&r, Ok(r) if *r == v), "decoding gives back the fields that were set, and no others");
    sym::cover("round trip");
}
/// names of parameters and members are arbitrary text as well
#[cfg(feature = "u01")]
#[no_mangle]
pub extern "C" fn u01_keys() {
    let k = sym::ascii_upto("k", 0, 2);
    if sym::flip("nested") {
        let mut inner = BTreeMap::new();
        inner.insert(k, "v".to_string());
        inner.insert("other key".to_string(), "w".to_string());
        let mut m = BTreeMap::new();
        m.insert("top".to_string(), inner);
        m.insert("next".to_string(), BTreeMap::new());
        let r = from_str::<BTreeMap<String, BTreeMap<String, String>>>(&to_string(&m).unwrap());
        sym::check(matches!(&r, Ok(r) if *r == m), "decoding gives back the members' names");
    } else {
        let mut m = BTreeMap::new();
        m.insert(k, "v".to_string());
        m.insert("other key".to_string(), "w".to_string());
        let r = from_str::<BTreeMap<String, String>>(&to_string(&m).unwrap());
        sym::check(matches!(&r, Ok(r) if *r == m), "decoding gives back the parameters' names");
    }
    sym::cover("round trip");
}

// ---- U02: the encoded form, judged by an independent decoder
fn unreserved(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'-' || c == b'.' || c == b'_' || c == b'~'
}
fn hexval(c: u8) -> Option<u8> {
    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'A'..=b'F' => Some(c - b'A' + 10),
        b'a'..=b'f' => Some(c - b'a' + 10),
        _ => None,
    }
}
fn unpercent(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            o.push(hexval(*b.get(i + 1)?)? * 16 + hexval(*b.get(i + 2)?)?);
            i += 3;
        } else if unreserved(b[i]) {
            o.push(b[i]);
            i += 1;
        } else {
            return None;
        }
    }
    String::from_utf8(o).ok()
}
/// the pairs of a query string, by the rules of RFC 3986 and HTML forms
fn pairs(s: &str) -> Option<Vec<(String, String)>> {
    let mut o = vec![];
    for p in s.split('&') {
        let (n, v) = p.split_once('=')?;
        if v.contains('=') {
            return None;
        }
        o.push((unpercent(n)?, unpercent(v)?));
    }
    Some(o)
}
#[cfg(feature = "u02")]
#[no_mangle]
pub extern "C" fn u02_flat() {
    let a = sym::ascii_upto("a", 0, sym::by_tier(4, 6));
    let v = Flat { a: a.clone(), b: Some("fixed".into()), mode: Mode::SecondOne };
    let s = to_string(&v).unwrap();
    let p = pairs(&s);
    sym::check(p.is_some(), "the output is a well-formed query of URL-safe characters");
    let want = vec![("a".to_string(), a), ("b".to_string(), "fixed".to_string()), ("mode".to_string(), "second_one".to_string())];
    sym::check(p.unwrap() == want, "exactly the encoded parameters are read back, text unchanged");
    sym::cover("encoded");
}
#[cfg(feature = "u02")]
#[no_mangle]
pub extern "C" fn u02_nested() {
    let x = sym::ascii_upto("x", 0, sym::by_tier(3, 4));
    let v = Outer { inner: Inner { x: x.clone(), k: -5, on: true, list: vec!["q".into()], opt: None }, z: "end".into() };
    let s = to_string(&v).unwrap();
    let p = pairs(&s);
    sym::check(p.is_some(), "the output is a well-formed query of URL-safe characters");
    let p = p.unwrap();
    sym::check(p.len() == 2 && p[0].0 == "inner" && p[1] == ("z".to_string(), "end".to_string()), "nested text adds no parameters");
    let js: Result<serde_json::Value, _> = serde_json::from_str(&p[0].1);
    sym::check(js.is_ok(), "a nested value is JSON");
    let want = serde_json::json!({"x": x, "k": -5, "on": true, "list": ["q"]});
    sym::check(js.unwrap() == want, "the JSON of a nested value has the value's content");
    sym::cover("encoded");
}

#[cfg(feature = "u02")]
#[no_mangle]
pub extern "C" fn u02_long() {
    let t = long_text();
    let nested = sym::flip("nested");
    if nested {
        let v = Outer { inner: Inner { x: t.clone(), k: -5, on: true, list: vec![], opt: None }, z: "end".into() };
        let p = pairs(&to_string(&v).unwrap());
        let js = serde_json::to_string(&v.inner).unwrap();
        sym::check(p == Some(vec![("inner".into(), js), ("z".into(), "end".into())]), "longer nested text stays within its parameter");
    } else {
        let v = Two { p: t.clone(), q: "fixed".into() };
        let p = pairs(&to_string(&v).unwrap());
        sym::check(p == Some(vec![("p".into(), t), ("q".into(), "fixed".into())]), "longer text stays within its parameter");
    }
    sym::cover("encoded");
}
/// text in every form of value, and as the name of a member
#[cfg(feature = "u02")]
#[no_mangle]
pub extern "C" fn u02_shapes() {
    let t = sym::ascii("t", 1);
    let which = sym::choose("which", 8);
    let pick = |i: usize| if which == i { t.clone() } else { "w".to_string() };
    let mut map = BTreeMap::new();
    map.insert(pick(0), pick(1));
    let choice = match which {
        2 => Choice::New(pick(2)),
        3 => Choice::Pair(pick(3), -3),
        4 => Choice::Rec { f: pick(4) },
        _ => Choice::Unit,
    };
    let v = Shapes { list: vec!["l".into(), pick(5)], map, pair: (pick(6), 12), choice, objs: vec![Two { p: pick(7), q: "q".into() }], z: "end".into() };
    let p = pairs(&to_string(&v).unwrap());
    sym::check(p.is_some(), "the output is a well-formed query of URL-safe characters");
    let p = p.unwrap();
    let names: Vec<&str> = p.iter().map(|p| p.0.as_str()).collect();
    sym::check(names == ["list", "map", "pair", "choice", "objs", "z"], "there is one parameter for each field, in order");
    let want = serde_json::to_value(&v).unwrap();
    let mut ok = p[5].1 == "end";
    for (n, t) in &p[..5] {
        ok &= if n == "choice" && which != 2 && which != 3 && which != 4 { t == "Unit" } else { matches!(serde_json::from_str::<serde_json::Value>(t), Ok(v) if v == want[n]) };
    }
    sym::check(ok, "each parameter has the content of its field");
    sym::cover("encoded");
}
/// non-ASCII text is written as its UTF-8 bytes
#[cfg(feature = "u02")]
#[no_mangle]
pub extern "C" fn u02_unicode() {
    let t = ["\u{e9}", "\u{5b57}", "\u{1f600}", "\u{7f}", "\u{80}", "\u{ff06}", "\u{2028}", "\u{feff}", "\u{10ffff}", "\u{d7ff}"][sym::choose("t", 10)];
    let t = format!("{t}{}", sym::ascii("next", 1));
    let v = Outer { inner: Inner { x: t.clone(), k: 1, on: true, list: vec![], opt: None }, z: t.clone() };
    let p = pairs(&to_string(&v).unwrap());
    sym::check(p.is_some(), "the output is a well-formed query of URL-safe characters");
    let p = p.unwrap();
    sym::check(p.len() == 2 && p[1] == ("z".to_string(), t.clone()), "non-ASCII text is written as its UTF-8 bytes");
    sym::check(matches!(serde_json::from_str::<Inner>(&p[0].1), Ok(i) if i.x == t), "nested non-ASCII text is kept");
    sym::cover("encoded");
}

#[derive(Serialize)]
pub struct Scalars {
    s8: i8,
    u8_: u8,
    s16: i16,
    u16_: u16,
    s32: i32,
    u32_: u32,
    s64: i64,
    u64_: u64,
    on: bool,
    c: char,
    w: Wrap,
    o: Option<i64>,
    f: f64,
}
#[derive(Serialize)]
pub struct Wrap(i64);
/// numbers, flags and characters are written as their JSON text
#[cfg(feature = "u02")]
#[no_mangle]
pub extern "C" fn u02_scalars() {
    let i = [0i64, 1, -1, i64::MAX, i64::MIN, 127, -128, 32767, -32768, 65535, 2147483647, -2147483648, 4294967295, 10, 99, -100][sym::choose("i", 16)];
    let u = i as u64;
    let (s8, u8_) = if sym::flip("probe") { (sym::u8("s8") as i8, sym::u8("u8")) } else { (i as i8, u as u8) };
    let on = sym::bool("on");
    let c = sym::ascii("c", 1);
    let f = [0.5, -2.25, 1e21, 3.0][sym::choose("f", 4)];
    let v = Scalars { s8, u8_, s16: i as i16, u16_: u as u16, s32: i as i32, u32_: u as u32, s64: i, u64_: u, on, c: c.as_bytes()[0] as char, w: Wrap(i), o: Some(i), f };
    let p = pairs(&to_string(&v).unwrap());
    sym::check(p.is_some(), "the output is a well-formed query of URL-safe characters");
    let p = p.unwrap();
    let want: Vec<(&str, String)> = vec![
        ("s8", s8.to_string()),
        ("u8_", u8_.to_string()),
        ("s16", (i as i16).to_string()),
        ("u16_", (u as u16).to_string()),
        ("s32", (i as i32).to_string()),
        ("u32_", (u as u32).to_string()),
        ("s64", i.to_string()),
        ("u64_", u.to_string()),
        ("on", if on { "true".into() } else { "false".to_string() }),
        ("c", c),
        ("w", i.to_string()),
        ("o", i.to_string()),
    ];
    sym::check(p.len() == 13 && p[12].0 == "f" && p[12].1.parse::<f64>() == Ok(f), "a number is written as its value");
    sym::check(p.iter().zip(&want).all(|(a, b)| a.0 == b.0 && a.1 == b.1), "numbers, flags and characters are written as their value");
    sym::cover("scalars");
}

// the remaining forms serde has: tuple, newtype and unit structs, bytes, tagged and untagged enums, flattened fields
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Pt(String, i32, String);
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Nt(String);
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct NtList(Vec<Nt>);
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Ut;
#[derive(Clone, Debug, PartialEq, Eq, Deserialize)]
pub struct Bytes(Vec<u8>);
impl Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(tag = "type")]
pub enum Tagged {
    One { one: String },
    Two(Two),
    Three,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(tag = "t", content = "c")]
pub enum Adjacent {
    One(String),
    Two(String, String),
    Three { f: Vec<String> },
    Four,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Untagged {
    Obj { a: String, b: Option<String> },
    Many(Vec<String>),
    Text(String),
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Units {
    a: Ut,
    b: (),
    c: Option<String>,
    d: char,
    e: Mode,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Forms {
    pt: Pt,
    nt: Nt,
    #[serde(rename = "nt-list")]
    ntl: NtList,
    units: Units,
    bytes: Bytes,
    tagged: Tagged,
    adjacent: Vec<Adjacent>,
    untagged: Untagged,
    wrapped: Option<Option<Nt>>,
    z: String,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Flattened {
    first: String,
    #[serde(flatten)]
    two: Two,
    list: Vec<String>,
    #[serde(flatten)]
    rest: BTreeMap<String, String>,
}
#[allow(dead_code)]
fn forms() -> Forms {
    let t = sym::ascii("t", 1);
    let at = sym::choose("at", 14);
    let pick = |i: usize| if at == i { t.clone() } else { "w".to_string() };
    sym::assume(at != 2 && at != 11 && at != 12 || texty(&t));
    Forms {
        pt: Pt(pick(0), 7, pick(1)),
        nt: Nt(pick(2)),
        ntl: NtList(vec![Nt("n".into()), Nt(pick(3))]),
        units: Units { a: Ut, b: (), c: None, d: if at == 4 { t.as_bytes()[0] as char } else { 'c' }, e: Mode::SecondOne },
        bytes: Bytes(if at == 5 { vec![t.as_bytes()[0], 255, 0] } else { vec![1] }),
        tagged: match at {
            6 => Tagged::One { one: pick(6) },
            7 => Tagged::Two(Two { p: pick(7), q: "q".into() }),
            _ => Tagged::Three,
        },
        adjacent: vec![Adjacent::Four, Adjacent::One(pick(8)), Adjacent::Two("a".into(), pick(9)), Adjacent::Three { f: vec![pick(10)] }],
        untagged: match at {
            13 => Untagged::Obj { a: t.clone(), b: None },
            0 => Untagged::Many(vec!["m".into(), "n".into()]),
            _ => Untagged::Text(pick(11)),
        },
        wrapped: Some(Some(Nt(pick(12)))),
        z: "end".into(),
    }
}
#[cfg(feature = "u01")]
#[no_mangle]
pub extern "C" fn u01_forms() {
    let v = forms();
    let s = to_string(&v).unwrap();
    let r = from_str::<Forms>(&s);
    sym::check(matches!(&r, Ok(r) if *r == v), "decoding gives back every form of value");
    sym::cover("round trip");
}
#[cfg(feature = "u01")]
#[no_mangle]
pub extern "C" fn u01_top() {
    let t = sym::ascii_upto("t", 0, 2);
    sym::assume(texty(&t));
    match sym::choose("form", 6) {
        0 => {
            let mut rest = BTreeMap::new();
            rest.insert("r1".to_string(), t);
            rest.insert("r2".to_string(), "w".to_string());
            let v = Flattened { first: "f".into(), two: Two { p: "p".into(), q: "q".into() }, list: vec!["l".into()], rest };
            let r = from_str::<Flattened>(&to_string(&v).unwrap());
            sym::check(matches!(&r, Ok(r) if *r == v), "decoding gives back flattened fields");
        }
        1 => {
            let v = Flattened { first: "f".into(), two: Two { p: t, q: "q".into() }, list: vec![], rest: BTreeMap::new() };
            let r = from_str::<Flattened>(&to_string(&v).unwrap());
            sym::check(matches!(&r, Ok(r) if *r == v), "decoding gives back flattened fields");
        }
        2 => {
            let v = Tagged::Two(Two { p: t, q: "q".into() });
            let r = from_str::<Tagged>(&to_string(&v).unwrap());
            sym::check(matches!(&r, Ok(r) if *r == v), "decoding gives back a tagged request");
        }
        3 => {
            let v = Choice::New(t);
            let r = from_str::<Choice>(&to_string(&v).unwrap());
            sym::check(matches!(&r, Ok(r) if *r == v), "decoding gives back a variant");
        }
        4 => {
            let v = Untagged::Obj { a: t, b: Some("b".into()) };
            let r = from_str::<Untagged>(&to_string(&v).unwrap());
            sym::check(matches!(&r, Ok(r) if *r == v), "decoding gives back an untagged request");
        }
        _ => {
            let v = Some(Box::new(Two { p: "p".into(), q: t }));
            let r = from_str::<Option<Box<Two>>>(&to_string(&v).unwrap());
            sym::check(matches!(&r, Ok(r) if *r == v), "decoding gives back a wrapped request");
        }
    }
    sym::cover("round trip");
}
#[cfg(feature = "u02")]
#[no_mangle]
pub extern "C" fn u02_forms() {
    let v = forms();
    let p = pairs(&to_string(&v).unwrap());
    sym::check(p.is_some(), "the output is a well-formed query of URL-safe characters");
    let p = p.unwrap();
    let names: Vec<&str> = p.iter().map(|p| p.0.as_str()).collect();
    sym::check(names == ["pt", "nt", "nt-list", "units", "bytes", "tagged", "adjacent", "untagged", "wrapped", "z"], "there is one parameter for each field, in order");
    let want = serde_json::to_value(&v).unwrap();
    let mut ok = true;
    for (n, t) in &p {
        ok &= match &want[n] {
            serde_json::Value::String(s) => s == t,
            w => matches!(serde_json::from_str::<serde_json::Value>(t), Ok(v) if v == *w),
        };
    }
    sym::check(ok, "each parameter has the content of its field");
    sym::cover("encoded");
}
/// maps and flattened fields at the top level
#[cfg(feature = "u02")]
#[no_mangle]
pub extern "C" fn u02_map() {
    let k = sym::ascii_upto("k", 0, 2);
    let t = sym::ascii_upto("t", 0, 1);
    let mut m = BTreeMap::new();
    m.insert(k.clone(), t.clone());
    if sym::flip("flattened") {
        let v = Flattened { first: "f".into(), two: Two { p: "p".into(), q: "q".into() }, list: vec![], rest: m };
        let p = pairs(&to_string(&v).unwrap());
        let want = [("first", "f"), ("p", "p"), ("q", "q"), ("list", "[]"), (k.as_str(), t.as_str())];
        sym::check(matches!(&p, Some(p) if p.iter().map(|p| (p.0.as_str(), p.1.as_str())).eq(want)), "flattened fields are parameters of their own");
    } else {
        m.insert("other".to_string(), "w".to_string());
        let want: Vec<(String, String)> = m.clone().into_iter().collect();
        sym::check(pairs(&to_string(&m).unwrap()) == Some(want), "the entries of a map are the parameters");
    }
    sym::cover("encoded");
}
/// many parameters, each with its own content, wherever it stands
#[cfg(feature = "u01")]
#[no_mangle]
pub extern "C" fn u01_many() {
    let t = sym::ascii("t", 1);
    sym::assume(texty(&t));
    let n = [33, 130, 300][sym::choose("n", 3)];
    let at = [0, 16, 31, 32, n / 2, n - 1][sym::choose("at", 6)];
    let mut m: BTreeMap<String, String> = (0..n).map(|i| (format!("k{i:03}"), format!("v{i}"))).collect();
    m.insert(format!("k{at:03}"), t);
    let s = to_string(&m).unwrap();
    let r = from_str::<BTreeMap<String, String>>(&s);
    sym::check(matches!(&r, Ok(r) if *r == m), "decoding gives back all of many parameters");
    sym::cover("round trip");
}
/// values nested deeply, and texts of some thousand characters
#[cfg(feature = "u01")]
#[no_mangle]
pub extern "C" fn u01_huge() {
    let t = sym::ascii("t", 1);
    if sym::flip("deep") {
        let mut v = Tree::Leaf(t);
        let list = sym::flip("list");
        for _ in 0..[4, 9, 17, 33][sym::choose("depth", 4)] {
            v = if list { Tree::List(vec![v]) } else { Tree::Node { left: v.into(), tag: "x".into() } };
        }
        let v = Forest { first: v, z: "end".into() };
        let r = from_str::<Forest>(&to_string(&v).unwrap());
        sym::check(matches!(&r, Ok(r) if *r == v), "decoding gives back deeply nested values");
    } else {
        let n = [513, 1025, 2049, 4097][sym::choose("len", 4)];
        let t = format!("{}{t}.", ["a", "\u{e9}"][sym::choose("fill", 2)].repeat(n));
        let v = if sym::flip("nested") {
            Outer { inner: Inner { x: t, k: 0, on: false, list: vec![], opt: None }, z: "z".into() }
        } else {
            Outer { inner: Inner { x: "x".into(), k: 0, on: false, list: vec![], opt: None }, z: t }
        };
        let r = from_str::<Outer>(&to_string(&v).unwrap());
        sym::check(matches!(&r, Ok(r) if *r == v), "decoding gives back texts of thousands of characters");
    }
    sym::cover("round trip");
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Chars {
    top: char,
    nested: (char, Vec<char>),
}
#[cfg(feature = "u01")]
fn a_char() -> char {
    match sym::choose("char", 12) {
        0 => sym::ascii("c", 1).as_bytes()[0] as char,
        i => ['\u{7f}', '\u{80}', '\u{e9}', '\u{7ff}', '\u{800}', '\u{5b57}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}', '\u{141}'][i - 1],
    }
}
#[cfg(feature = "u01")]
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
struct Named {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    st: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    uri: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    code: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    state: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    client_id: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    redirect_uri: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "pre-authorized_code")]
    pre: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "urn:ietf:params:oauth:x")]
    urn: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    presentation_definition_uri_supported_by_the_wallet: Option<String>,
}
/// texts, empty ones among them, under names of every length, others empty, absent or not
#[cfg(feature = "u01")]
#[no_mangle]
pub extern "C" fn u01_names() {
    let mut v = Named::default();
    let t = sym::ascii_upto("t", 0, 1);
    sym::assume(texty(&t));
    let all = [&mut v.st, &mut v.uri, &mut v.code, &mut v.state, &mut v.client_id, &mut v.redirect_uri, &mut v.pre, &mut v.urn, &mut v.presentation_definition_uri_supported_by_the_wallet];
    let at = sym::choose("at", all.len());
    let others = [None, Some(String::new()), Some("x".to_string())][sym::choose("others", 3)].clone();
    for (i, f) in all.into_iter().enumerate() {
        *f = if i == at { Some(t.clone()) } else { others.clone() };
    }
    let r = from_str::<Named>(&to_string(&v).unwrap());
    sym::check(matches!(&r, Ok(r) if *r == v), "decoding gives back each text under its name");
    sym::cover("round trip");
}
/// characters as such
#[cfg(feature = "u01")]
#[no_mangle]
pub extern "C" fn u01_chars() {
    let c = a_char();
    let top = sym::flip("top");
    sym::assume(!top || c != '[' && c != '{');
    let v = Chars { top: if top { c } else { 't' }, nested: (if top { 'n' } else { c }, vec!['a', if top { 'm' } else { c }]) };
    let r = from_str::<Chars>(&to_string(&v).unwrap());
    sym::check(matches!(&r, Ok(r) if *r == v), "decoding gives back a character");
    sym::cover("round trip");
}

// ---- U03: the decoder on foreign input
fn enc_all(s: &str, lower: bool) -> String {
    let d = if lower { b"0123456789abcdef" } else { b"0123456789ABCDEF" };
    let mut o = vec![];
    for b in s.bytes() {
        o.push(b'%');
        o.push(d[(b >> 4) as usize]);
        o.push(d[(b & 15) as usize]);
    }
    unsafe { String::from_utf8_unchecked(o) }
}
/// text with every character percent-encoded, as another implementation may send it
#[cfg(feature = "u03")]
#[no_mangle]
pub extern "C" fn u03_foreign() {
    let a = sym::ascii_upto("a", 0, 2);
    sym::assume(texty(&a));
    let q = format!("mode=first&a={}", enc_all(&a, sym::flip("lower")));
    let r = from_str::<Flat>(&q);
    sym::check(r.is_ok(), "percent-encoded text is accepted");
    sym::check(r.unwrap() == Flat { a, b: None, mode: Mode::First }, "percent-encoded text is decoded to itself");
    sym::cover("decoded");
}
/// any character of three or four bytes, percent-encoded, at the beginning, at the end, alone
#[cfg(feature = "u03")]
#[no_mangle]
pub extern "C" fn u03_foreign_wide() {
    let s = wide_char();
    let a = match sym::choose("place", 3) {
        0 => s,
        1 => format!("{s}x"),
        _ => format!("x{s}"),
    };
    let q = format!("mode=first&a={}", enc_all(&a, sym::flip("lower")));
    let r = from_str::<Flat>(&q);
    sym::check(matches!(r, Ok(r) if r == Flat { a, b: None, mode: Mode::First }), "percent-encoded text is decoded to itself");
    sym::cover("decoded");
}
/// nested text percent-encoded within its JSON
#[cfg(feature = "u03")]
#[no_mangle]
pub extern "C" fn u03_foreign_nested() {
    let x = sym::ascii_upto("x", 0, 2);
    let inner = Inner { x, k: 3, on: false, list: vec![], opt: None };
    let js = serde_json::to_string(&inner).unwrap();
    let q = format!("inner={}&z=1", enc_all(&js, false));
    let r = from_str::<Outer>(&q);
    sym::check(r.is_ok(), "percent-encoded JSON is accepted");
    sym::check(r.unwrap() == Outer { inner, z: "1".into() }, "percent-encoded JSON is decoded to its content");
    sym::cover("decoded");
}
/// any input: a value or an error, never a crash, and never text invented for a parameter
#[cfg(feature = "u03")]
#[no_mangle]
pub extern "C" fn u03_total() {
    let n = sym::choose("n", sym::by_tier(4, 5));
    let q = match sym::choose("shape", 3) {
        0 => sym::ascii("q", n),
        1 => format!("mode=first&{}", sym::ascii("q", n)),
        _ => format!("mode=first&a={}", sym::ascii("q", n)),
    };
    sym::phase("decode");
    if from_str::<Flat>(&q).is_ok() {
        sym::cover("accepted");
    } else {
        sym::cover("refused");
    }
    let _ = from_str::<Outer>(&q);
}
const PLAIN: [bool; 256] = {
    let mut t = [false; 256];
    let s = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~!$'()*+,;:@/?=";
    let mut i = 0;
    while i < s.len() {
        t[s[i] as usize] = true;
        i += 1;
    }
    t
};
/// characters with no role in a query stand for themselves
#[cfg(feature = "u03")]
#[no_mangle]
pub extern "C" fn u03_plain() {
    let t = sym::ascii_upto("q", 0, sym::by_tier(12, 20));
    sym::assume(t.bytes().fold(true, |a, c| a & PLAIN[c as usize]));
    let b = sym::flip("b");
    sym::phase("decode plain");
    let r = from_str::<Flat>(&if b { format!("a=x&mode=first&b={t}") } else { format!("mode=first&a={t}") });
    sym::check(matches!(&r, Ok(f) if if b { f.b.as_ref() == Some(&t) } else { f.a == t && f.b.is_none() }), "plain text is decoded to itself");
    sym::cover("plain");
}
/// a repeated parameter is refused, whatever the values and however its name is written
#[cfg(feature = "u03")]
#[no_mangle]
pub extern "C" fn u03_repeat() {
    let a = sym::ascii("a", 1);
    let b = sym::ascii("b", 1);
    let name = if sym::flip("escaped") { "%61" } else { "a" };
    let q = format!("mode=first&a={}&{name}={}", enc_all(&a, false), enc_all(&b, false));
    sym::check(from_str::<Flat>(&q).is_err(), "a repeated parameter is refused");
    sym::check(from_str::<BTreeMap<String, String>>(&q).is_err(), "a repeated parameter is refused whatever the target");
    sym::check(from_str::<Two>(&format!("p=x&{q}&q=y")).is_err(), "a repeated parameter is refused even if it is not used");
    let q = format!("{name}={}&p=x&q=y&a={}", enc_all(&a, false), enc_all(&b, false));
    sym::check(from_str::<Two>(&q).is_err(), "a repeated parameter is refused wherever it is repeated");
    sym::check(from_str::<BTreeMap<String, String>>(&q).is_err(), "a repeated parameter is refused wherever it is repeated, whatever the target");
    let q = format!("a={}&mode=first&mode=second_one", enc_all(&a, false));
    sym::check(from_str::<Flat>(&q).is_err(), "a repeated parameter is refused");
    sym::cover("repeated");
}
/// longer texts, and texts of several bytes per character, escaped by another implementation
#[cfg(feature = "u03")]
#[no_mangle]
pub extern "C" fn u03_foreign_long() {
    let t = match sym::choose("kind", 2) {
        0 => long_text(),
        _ => format!("{}{}", ["\u{e9}", "\u{5b57}", "\u{1f600}", "\u{80}", "\u{ff06}", "\u{10ffff}"][sym::choose("t", 6)], sym::ascii("next", 1)),
    };
    let q = format!("mode=first&a={}", enc_all(&t, sym::flip("lower")));
    let r = from_str::<Flat>(&q);
    sym::check(matches!(&r, Ok(r) if *r == Flat { a: t, b: None, mode: Mode::First }), "percent-encoded text is decoded to itself");
    sym::cover("decoded");
}
/// parameters in any order, with others in between
#[cfg(feature = "u03")]
#[no_mangle]
pub extern "C" fn u03_order() {
    let t = sym::ascii("t", 1);
    sym::assume(texty(&t));
    let parts = [format!("a={}", enc_all(&t, false)), "b=x".to_string(), "mode=first".to_string(), "other=1".to_string()];
    let i = sym::choose("rotate", 4);
    let mut q: Vec<String> = (0..4).map(|k| parts[(i + k) % 4].clone()).collect();
    if sym::flip("reverse") {
        q.reverse();
    }
    let r = from_str::<Flat>(&q.join("&"));
    sym::check(matches!(&r, Ok(r) if *r == Flat { a: t, b: Some("x".into()), mode: Mode::First }), "the order of parameters and unknown ones change nothing");
    sym::cover("decoded");
}
/// parameters named alike, and many of them, a repeated one among them or not
#[cfg(feature = "u03")]
#[no_mangle]
pub extern "C" fn u03_names() {
    let a = ["a", "ab", "", "\u{e9}", "a b"][sym::choose("a", 5)].to_string();
    let b = match sym::choose("b", 3) {
        0 => a.clone(),
        1 => sym::ascii_upto("b", 0, 2),
        _ => ["A", "aB", " a", "a ", "\u{c9}", "e\u{301}", "a  b"][sym::choose("near", 7)].to_string(),
    };
    let n = [0, 5, 40, 130][sym::choose("between", 4)];
    let before = sym::flip("before");
    let mut q = format!("{}{}=1", if before { "other=0&" } else { "" }, enc_all(&a, false));
    for i in 0..n {
        q += &format!("&other{i}=x");
    }
    q += &format!("&{}=2", enc_all(&b, sym::flip("lower")));
    let r = from_str::<BTreeMap<String, String>>(&q);
    if a == b {
        sym::check(r.is_err(), "a repeated parameter is refused however far apart");
        sym::cover("repeated");
    } else {
        sym::check(matches!(&r, Ok(r) if r.len() == n + 2 + usize::from(before) && r.get(&a).is_some_and(|v| v == "1") && r.get(&b).is_some_and(|v| v == "2")), "parameters whose names differ are all read");
        sym::cover("different");
    }
}
