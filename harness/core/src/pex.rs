//! presentation exchange
use std::collections::HashMap;

use serde_json::{json, Value};
use vercre_dif_exch::{
    ClaimFormat, Claims, Constraints, DescriptorMap, Field, Filter, FilterValue, InputDescriptor, PathNested, PresentationDefinition, PresentationSubmission,
};

struct C(Value);
impl Claims for C {
    fn to_json(&self) -> anyhow::Result<Value> {
        Ok(self.0.clone())
    }
}
fn filter(value: FilterValue) -> Option<Filter> {
    Some(Filter { type_: "string".into(), value })
}
fn field(paths: &[&str], filter: Option<Filter>) -> Field {
    Field { path: paths.iter().map(|p| p.to_string()).collect(), filter, ..Default::default() }
}
fn one(f: Field) -> Constraints {
    Constraints { fields: Some(vec![f]), limit_disclosure: None }
}
fn ok(c: &Constraints, v: Value) -> bool {
    c.satisfied(&C(v)).unwrap_or(false)
}

// ---- D01: every field counts
/// fields that match, fail or find nothing, required or optional, in any order
#[cfg(feature = "d01")]
#[no_mangle]
pub extern "C" fn d01_conjunction() {
    let n = sym::choose("n", sym::by_tier(5, 5));
    let mut fields = vec![];
    let mut vc = serde_json::Map::new();
    let mut want = true;
    for i in 0..n {
        let name = ["a", "b", "c", "d"][i];
        let path = ["$.a", "$.b", "$.c", "$.d"][i];
        let opt = [None, Some(false), Some(true)][sym::choose("opt", 3)];
        let present = sym::flip("present");
        let filtered = sym::flip("filtered");
        let k = sym::ascii("k", 1);
        let v = sym::ascii("v", 1);
        let valid = !filtered || k == v;
        if present {
            vc.insert(name.to_string(), json!(v));
        }
        want &= if present { valid } else { opt == Some(true) };
        let f = if filtered { filter(FilterValue::Const(k)) } else { None };
        fields.push(Field { optional: opt, ..field(&[path], f) });
    }
    let c = Constraints { fields: Some(fields), limit_disclosure: None };
    let got = ok(&c, Value::Object(vc));
    sym::check(got == want, "constraints hold exactly when every field does");
    sym::cover(if got { "satisfied" } else { "unsatisfied" });
}
/// what else a field says (id, name, purpose, ...) and fields over the same claim change nothing
#[cfg(feature = "d01")]
#[no_mangle]
pub extern "C" fn d01_annotated() {
    let note = |n: &str| if sym::flip(n) { Some(sym::ascii(n, 1)) } else { None };
    let v = [sym::ascii("v", 1), sym::ascii("v", 1)];
    let focus = sym::choose("focus", 5);
    let mut fields = vec![];
    let mut want = true;
    for i in 0..2 {
        let at = sym::choose("claim", 3); // 2: a claim that is not there
        let k = if sym::flip("filtered") { Some(sym::ascii("k", 1)) } else { None };
        let opt = [None, Some(true)][sym::choose("opt", 2)];
        want &= if at == 2 { opt == Some(true) } else { k.as_ref().map_or(true, |k| *k == v[at]) };
        let mut f = Field { optional: opt, ..field(&[["$.a", "$.b", "$.c"][at]], k.and_then(|k| filter(FilterValue::Const(k)))) };
        match focus {
            0 => f.id = note("id"),
            1 => f.name = note("name"),
            2 => f.purpose = note("purpose"),
            3 => f.predicate = [None, Some("required".to_string()), Some("preferred".to_string())][sym::choose("predicate", 3)].clone(),
            _ => f.intent_to_retain = [None, Some(false), Some(true)][sym::choose("retain", 3)],
        }
        let _ = i;
        fields.push(f);
    }
    let limit_disclosure = if focus == 4 && sym::flip("limit") { Some(["preferred", "required"][sym::choose("limits", 2)].to_string()) } else { None };
    let got = ok(&Constraints { fields: Some(fields), limit_disclosure }, json!({ "a": v[0], "b": v[1] }));
    sym::check(got == want, "constraints hold exactly when every field does, however the fields are annotated");
    sym::cover(if got { "satisfied" } else { "unsatisfied" });
}
/// many fields, the odd one out at any place; every kind of filter
#[cfg(feature = "d01")]
#[no_mangle]
pub extern "C" fn d01_many() {
    let n = 9;
    let at = sym::choose("at", n);
    let v = sym::ascii("v", 1);
    let name = |i: usize| format!("c{i}");
    let mut vc = serde_json::Map::new();
    let mut fields = vec![];
    let mut want = true;
    for i in 0..n {
        let path = format!("$.c{i}");
        if i != at {
            vc.insert(name(i), json!("x"));
            fields.push(field(&[&path], if i % 2 == 0 { filter(FilterValue::Const("x".into())) } else { None }));
            continue;
        }
        let optional = [None, Some(false), Some(true)][sym::choose("opt", 3)];
        let present = sym::flip("present");
        let (f, valid) = match sym::choose("kind", 6) {
            0 => (filter(FilterValue::Const("x".into())), v == "x"),
            1 => (filter(FilterValue::Pattern("^[x-z]$".into())), v.as_bytes()[0].is_ascii_lowercase() && v.as_bytes()[0] >= b'x'),
            2 => (filter(FilterValue::Format("date".into())), false),
            3 => (filter(FilterValue::Format("unheard-of".into())), false),
            4 => (filter(FilterValue::Pattern("(".into())), false),
            _ => (None, true),
        };
        if present {
            vc.insert(name(i), json!(v.clone()));
        }
        want = if present { valid } else { optional == Some(true) };
        fields.push(Field { optional, ..field(&[&path], f) });
    }
    let got = ok(&Constraints { fields: Some(fields), limit_disclosure: None }, Value::Object(vc));
    sym::check(got == want, "constraints hold exactly when every one of many fields does");
    sym::cover(if got { "satisfied" } else { "unsatisfied" });
}
/// a claim that is null, empty or false is present
#[cfg(feature = "d01")]
#[no_mangle]
pub extern "C" fn d01_presence() {
    let v = match sym::choose("v", 7) {
        0 => Value::Null,
        1 => json!(""),
        2 => json!(false),
        3 => json!([]),
        4 => json!({}),
        5 => json!(0),
        _ => json!(sym::ascii("t", 1)),
    };
    let optional = [None, Some(false), Some(true)][sym::choose("opt", 3)];
    sym::check(ok(&one(Field { optional, ..field(&["$.a"], None) }), json!({ "a": v })), "a claim of any value is present");
    let c = one(Field { optional, ..field(&["$.b"], None) });
    sym::check(ok(&c, json!({ "a": v })) == (optional == Some(true)), "a claim that is not there is only missing if required");
    let c = one(Field { optional, ..field(&["$.a"], filter(FilterValue::Const("no".into()))) });
    sym::check(!ok(&c, json!({ "a": v })), "a claim that is present has to pass the filter");
    sym::cover("presence");
}
/// no fields: nothing is required
#[cfg(feature = "d01")]
#[no_mangle]
pub extern "C" fn d01_no_fields() {
    let v = sym::ascii("v", 2);
    sym::check(ok(&Constraints::default(), json!({ "a": v.clone() })), "no constraints: satisfied");
    sym::check(ok(&Constraints { fields: Some(vec![]), limit_disclosure: None }, json!({ "a": v })), "no fields: satisfied");
    sym::cover("no fields");
}
/// claims that cannot be serialised satisfy nothing
#[cfg(feature = "d01")]
#[no_mangle]
pub extern "C" fn d01_no_claims() {
    struct Bad;
    impl Claims for Bad {
        fn to_json(&self) -> anyhow::Result<Value> {
            Err(anyhow::anyhow!("no"))
        }
    }
    let k = sym::ascii("k", 1);
    let f = if sym::flip("filtered") { filter(FilterValue::Const(k)) } else { None };
    let c = one(Field { optional: [None, Some(true)][sym::choose("opt", 2)], ..field(&["$.a"], f) });
    sym::check(!c.satisfied(&Bad).unwrap_or(false), "claims that cannot be read satisfy no constraint");
    sym::cover("no claims");
}
/// large definitions and claims
#[cfg(feature = "d01")]
#[no_mangle]
pub extern "C" fn d01_large() {
    let n = [17, 40][sym::choose("n", 2)];
    let at = [0, 7, 16, n / 2, n - 1][sym::choose("at", 5)];
    let v = sym::ascii("v", 1);
    let present = sym::flip("present");
    let optional = [None, Some(true)][sym::choose("opt", 2)];
    let mut vc = serde_json::Map::new();
    let mut fields = vec![];
    for i in 0..n {
        let path = format!("$.c{i}");
        if i != at {
            vc.insert(format!("c{i}"), json!("x"));
        } else if present {
            vc.insert(format!("c{i}"), json!(v.clone()));
        }
        fields.push(Field { optional: if i == at { optional } else { None }, ..field(&[&path], filter(FilterValue::Const("x".into()))) });
    }
    let want = if present { v == "x" } else { optional == Some(true) };
    let got = ok(&Constraints { fields: Some(fields), limit_disclosure: [None, Some("required".to_string()), Some("preferred".to_string())][sym::choose("limit", 3)].clone() }, Value::Object(vc));
    sym::check(got == want, "constraints hold exactly when every one of many fields does");
    sym::cover(if got { "satisfied" } else { "unsatisfied" });
}

// ---- D02: constants
#[cfg(feature = "d02")]
#[no_mangle]
pub extern "C" fn d02_string() {
    let k = sym::ascii_upto("k", 0, sym::by_tier(5, 8));
    let v = sym::ascii_upto("v", 0, sym::by_tier(5, 8));
    let eq = k == v;
    let got = ok(&one(field(&["$.a"], filter(FilterValue::Const(k)))), json!({ "a": v }));
    sym::check(got == eq, "a text claim matches a constant exactly when it is that text");
    sym::cover(if got { "match" } else { "no match" });
}
#[cfg(feature = "d02")]
#[no_mangle]
pub extern "C" fn d02_array() {
    let n = sym::choose("n", sym::by_tier(5, 6));
    let k = sym::ascii_upto("k", 0, 1);
    let mut want = false;
    let mut arr = vec![];
    for _ in 0..n {
        match sym::choose("elem", 3) {
            0 => {
                let v = sym::ascii("v", 1);
                want |= v == k;
                arr.push(json!(v));
            }
            1 => arr.push(json!([k.clone()])),
            _ => arr.push(Value::Null),
        }
    }
    let got = ok(&one(field(&["$.a"], filter(FilterValue::Const(k)))), json!({ "a": arr }));
    sym::check(got == want, "a list claim matches a constant exactly when one of its elements is that text");
    sym::cover(if got { "match" } else { "no match" });
}
#[cfg(feature = "d02")]
#[no_mangle]
pub extern "C" fn d02_number() {
    let k = sym::ascii_upto("k", 1, 3);
    let num = [0i64, 1, 10, -1, 99, 123][sym::choose("num", 6)];
    let want = k == num.to_string();
    let got = ok(&one(field(&["$.a"], filter(FilterValue::Const(k)))), json!({ "a": num }));
    sym::check(got == want, "a number claim matches a constant exactly when the constant is its decimal text");
    sym::cover(if got { "match" } else { "no match" });
}
#[cfg(feature = "d02")]
#[no_mangle]
pub extern "C" fn d02_bool() {
    let k = sym::ascii_upto("k", 0, 5);
    let b = sym::flip("b");
    let want = k == if b { "true" } else { "false" };
    let got = ok(&one(field(&["$.a"], filter(FilterValue::Const(k)))), json!({ "a": b }));
    sym::check(got == want, "a boolean claim matches a constant exactly when the constant is its text");
    sym::cover(if got { "match" } else { "no match" });
}
#[cfg(feature = "d02")]
#[no_mangle]
pub extern "C" fn d02_other() {
    let k = sym::ascii_upto("k", 0, 4);
    let v = match sym::choose("v", 3) {
        0 => Value::Null,
        1 => json!({ "a": k.clone() }),
        _ => json!({}),
    };
    let got = ok(&one(field(&["$.a"], filter(FilterValue::Const(k)))), json!({ "a": v }));
    sym::check(!got, "a missing value or an object never matches a constant");
    sym::cover("other");
}

const LONG: [usize; 12] = [7, 8, 15, 16, 31, 32, 63, 64, 65, 128, 255, 300];
/// longer texts that agree but for one character or the length
#[cfg(feature = "d02")]
#[no_mangle]
pub extern "C" fn d02_long() {
    let n = LONG[sym::choose("len", LONG.len())];
    let k = "Ab".repeat(n / 2 + 1);
    let at = [0, n / 2, n - 1][sym::choose("at", 3)];
    let mut v = k[..n].to_string();
    let k = k[..n].to_string();
    let want = match sym::choose("edit", 4) {
        0 => {
            let c = sym::ascii("c", 1);
            v.replace_range(at..at + 1, &c);
            c.as_bytes()[0] == k.as_bytes()[at]
        }
        1 => {
            v.push_str(&sym::ascii("c", 1));
            false
        }
        2 => {
            v.pop();
            false
        }
        _ => {
            v.insert_str(0, &sym::ascii("c", 1));
            false
        }
    };
    let listed = sym::flip("listed");
    let got = ok(&one(field(&["$.a"], filter(FilterValue::Const(k)))), if listed { json!({ "a": ["x", v] }) } else { json!({ "a": v }) });
    sym::check(got == want, "a longer text matches a constant exactly when it is that text");
    sym::cover(if got { "match" } else { "no match" });
}
/// texts that some comparisons confuse
#[cfg(feature = "d02")]
#[no_mangle]
pub extern "C" fn d02_unicode() {
    const T: [&str; 20] = [
        "\u{e9}", "e\u{301}", "\u{c9}", "e", "\u{212a}", "k", "K", "\u{df}", "ss", "\u{131}", "i", "I", "\u{130}", " k", "k ", "k\u{200b}", "\u{1f600}", "\"k\"", "k\0", "null",
    ];
    let i = sym::choose("k", T.len());
    let j = sym::choose("v", T.len());
    let listed = sym::flip("listed");
    let got = ok(&one(field(&["$.a"], filter(FilterValue::Const(T[i].into())))), if listed { json!({ "a": [T[j]] }) } else { json!({ "a": T[j] }) });
    sym::check(got == (i == j), "a text that merely resembles the constant does not match");
    sym::cover(if got { "match" } else { "no match" });
}
/// numbers of any size and form, and texts that nearly are theirs
#[cfg(feature = "d02")]
#[no_mangle]
pub extern "C" fn d02_number_forms() {
    let v = [json!(u64::MAX), json!(i64::MIN), json!(i64::MAX), json!(1.5), json!(-0.25), json!(1e21), json!(0), json!(-7), json!(100), json!(1.0)][sym::choose("num", 10)].clone();
    let text = v.to_string();
    let c = sym::ascii("c", 1);
    let (k, want) = match sym::choose("edit", 6) {
        0 => (text.clone(), true),
        1 => (format!("{text}{c}"), false),
        2 => (format!("{c}{text}"), false),
        3 => (format!("{text}.0"), false),
        4 => (format!("\"{text}\""), false),
        _ => {
            let mut k = text.clone();
            k.pop();
            (format!("{k}{c}"), text.ends_with(&c))
        }
    };
    let got = ok(&one(field(&["$.a"], filter(FilterValue::Const(k)))), json!({ "a": v }));
    sym::check(got == want, "a number claim matches a constant exactly when the constant is its JSON text");
    sym::cover(if got { "match" } else { "no match" });
}
/// longer lists, the element at any place
#[cfg(feature = "d02")]
#[no_mangle]
pub extern "C" fn d02_long_list() {
    let n = [1, 2, 5, 10, 20][sym::choose("n", 5)];
    let at = sym::choose("at", n);
    let k = sym::ascii("k", 1);
    let v = sym::ascii("v", 1);
    let want = k == v;
    let list: Vec<Value> = (0..n).map(|i| if i == at { json!(v.clone()) } else { json!(format!("other{i}")) }).collect();
    let got = ok(&one(field(&["$.a"], filter(FilterValue::Const(k)))), json!({ "a": list }));
    sym::check(got == want, "a list claim matches a constant exactly when one of its elements is that text");
    sym::cover(if got { "match" } else { "no match" });
}
/// lists within lists, elements of other kinds, and long lists
#[cfg(feature = "d02")]
#[no_mangle]
pub extern "C" fn d02_elements() {
    let k = sym::ascii("k", 1);
    let v = sym::ascii("v", 1);
    let same = k == v;
    let (claim, want) = match sym::choose("claim", 8) {
        0 => (json!([[v]]), false),
        1 => (json!([{ "a": v }]), false),
        2 => (json!([{ v: 1 }, null]), false),
        3 => (json!([["x"], v]), same),
        4 => (json!([null, 1, false, v]), same),
        5 => {
            let mut l: Vec<Value> = (0..100).map(|i| json!(format!("other{i}"))).collect();
            l[[0, 31, 32, 63, 64, 99][sym::choose("at", 6)]] = json!(v);
            (Value::Array(l), same)
        }
        6 => (json!([format!("{v}{v}"), format!("{v} ")]), false),
        _ => (json!([]), false),
    };
    let got = ok(&one(field(&["$.a"], filter(FilterValue::Const(k)))), json!({ "a": claim }));
    sym::check(got == want, "a list claim matches a constant exactly when one of its elements is that text");
    sym::cover(if got { "match" } else { "no match" });
}

// ---- D03: patterns
fn has(b: &[u8], f: impl Fn(&[u8]) -> bool) -> bool {
    (0..=b.len()).any(|i| f(&b[i..]))
}
/// oracle for the patterns below
fn oracle(i: usize, b: &[u8]) -> bool {
    let low = |c: u8| c.is_ascii_lowercase();
    match i {
        0 => has(b, |t| t.len() >= 2 && t[0] == b'a' && (b'b'..=b'd').contains(&t[1])),
        1 => b.first() == Some(&b'x'),
        2 => b.last() == Some(&b'y'),
        3 => b.len() == 2 && b.iter().all(u8::is_ascii_digit),
        4 => !b.is_empty() && b.iter().all(|c| low(*c)),
        5 => b == b"ab" || b == b"c",
        6 => b.is_empty(),
        _ => b.contains(&b'"'),
    }
}
const PATTERNS: [&str; 8] = ["a[b-d]+", "^x", "y$", "^[0-9]{2}$", "^[a-z]+$", "^(?:ab|c)$", "^$", "\""];
fn pattern(i: usize) {
    let v = sym::ascii_upto("v", 0, sym::by_tier(3, 5));
    let want = oracle(i, v.as_bytes());
    let got = ok(&one(field(&["$.a"], filter(FilterValue::Pattern(PATTERNS[i].into())))), json!({ "a": v }));
    sym::check(got == want, "a text claim matches a pattern exactly when its content does");
    sym::cover(if got { "match" } else { "no match" });
}
#[cfg(feature = "d03")]
#[no_mangle]
pub extern "C" fn d03_p0() {
    pattern(0)
}
#[cfg(feature = "d03")]
#[no_mangle]
pub extern "C" fn d03_p1() {
    pattern(1)
}
#[cfg(feature = "d03")]
#[no_mangle]
pub extern "C" fn d03_p2() {
    pattern(2)
}
#[cfg(feature = "d03")]
#[no_mangle]
pub extern "C" fn d03_p3() {
    pattern(3)
}
#[cfg(feature = "d03")]
#[no_mangle]
pub extern "C" fn d03_p4() {
    pattern(4)
}
#[cfg(feature = "d03")]
#[no_mangle]
pub extern "C" fn d03_p5() {
    pattern(5)
}
#[cfg(feature = "d03")]
#[no_mangle]
pub extern "C" fn d03_p6() {
    pattern(6)
}
#[cfg(feature = "d03")]
#[no_mangle]
pub extern "C" fn d03_p7() {
    pattern(7)
}
/// a list claim: some element has to match, as a text of its own
#[cfg(feature = "d03")]
#[no_mangle]
pub extern "C" fn d03_list() {
    let i = sym::choose("pattern", 8);
    let n = sym::choose("n", 3);
    let v: Vec<String> = (0..n).map(|k| if k == 0 { sym::ascii_upto("v", 0, 2) } else { sym::ascii("w", 1) }).collect();
    let want = v.iter().any(|v| oracle(i, v.as_bytes()));
    let got = ok(&one(field(&["$.a"], filter(FilterValue::Pattern(PATTERNS[i].into())))), json!({ "a": v }));
    sym::check(got == want, "a list claim matches a pattern exactly when an element does");
    sym::cover(if got { "match" } else { "no match" });
}
/// what lies between the elements of a list is not text to be matched
#[cfg(feature = "d03")]
#[no_mangle]
pub extern "C" fn d03_list_text() {
    let (p, want) = [(",", false), ("\"", false), ("\\[", false), ("]", false), ("xy", false), ("x.*y", false), ("^x$", true), ("^y$", true), ("x|,", true), ("^$", false), ("y$", true), ("^\\[", false)][sym::choose("p", 12)];
    let got = ok(&one(field(&["$.a"], filter(FilterValue::Pattern(p.into())))), json!({ "a": ["x", "y"] }));
    sym::check(got == want, "a list claim matches a pattern exactly when an element does");
    sym::cover(if got { "match" } else { "no match" });
}
/// longer texts, and characters of several bytes
#[cfg(feature = "d03")]
#[no_mangle]
pub extern "C" fn d03_long() {
    let n = LONG[sym::choose("len", LONG.len())];
    let c = sym::ascii("c", 1);
    let b = c.as_bytes()[0];
    let fill = "q".repeat(n);
    let (p, v, want) = match sym::choose("shape", 6) {
        0 => ("x$", format!("{fill}{c}"), b == b'x'),
        1 => ("^x", format!("{c}{fill}"), b == b'x'),
        2 => ("x", format!("{fill}{c}{fill}"), b == b'x'),
        3 => ("^q+$", format!("{fill}{c}{fill}"), b == b'q'),
        4 => ("^.{2}$", ["\u{e9}a", "\u{1f600}\u{5b57}", "\u{e9}", "abc"][n % 4].to_string(), n % 4 < 2),
        _ => ("^caf\u{e9}$", ["caf\u{e9}", "CAF\u{c9}", "cafe\u{301}", " caf\u{e9}"][n % 4].to_string(), n % 4 == 0),
    };
    let got = ok(&one(field(&["$.a"], filter(FilterValue::Pattern(p.into())))), json!({ "a": v }));
    sym::check(got == want, "a longer text matches a pattern exactly when its content does");
    sym::cover(if got { "match" } else { "no match" });
}
/// an invalid pattern matches nothing
#[cfg(feature = "d03")]
#[no_mangle]
pub extern "C" fn d03_invalid() {
    let v = sym::ascii_upto("v", 0, 2);
    let p = ["(", "[", "a{2", "*", "\\", "(?P<x"][sym::choose("p", 6)];
    let optional = [None, Some(false)][sym::choose("opt", 2)];
    // `a{2` is literal text for some engines; the claim below does not contain it either
    sym::assume(!v.contains('a'));
    let c = one(Field { optional, ..field(&["$.a"], filter(FilterValue::Pattern(p.into()))) });
    sym::check(!ok(&c, json!({ "a": v })), "an invalid pattern is never satisfied");
    sym::cover("invalid");
}
/// further syntax of patterns: each with texts of up to three characters
#[cfg(feature = "d03")]
#[no_mangle]
pub extern "C" fn d03_syntax() {
    let v = sym::ascii_upto("v", 0, sym::by_tier(2, 3));
    let b = v.as_bytes();
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let (p, want) = match sym::choose("p", 27) {
        20 => ("/a/", has(b, |t| t.starts_with(b"/a/"))),
        21 => ("'a'", has(b, |t| t.starts_with(b"'a'"))),
        22 => ("a*b", b.contains(&b'b')),
        23 => ("%", b.contains(&b'%')),
        24 => ("a?", true),
        0 => ("a b", has(b, |t| t.starts_with(b"a b"))),
        1 => (" ", b.contains(&b' ')),
        2 => ("^ ", b.first() == Some(&b' ')),
        3 => ("a ", has(b, |t| t.starts_with(b"a "))),
        4 => ("#", b.contains(&b'#')),
        5 => ("/", b.contains(&b'/')),
        6 => ("^/a/$", b == b"/a/"),
        7 => ("A", b.contains(&b'A')),
        8 => ("(?i)a", b.iter().any(|c| c.eq_ignore_ascii_case(&b'a'))),
        9 => ("[^a]", b.iter().any(|c| *c != b'a')),
        10 => ("\\.", b.contains(&b'.')),
        11 => ("\\d", b.iter().any(u8::is_ascii_digit)),
        12 => ("\\w", b.iter().any(|c| word(*c))),
        13 => ("^\\s$", b.len() == 1 && (b[0] == b' ' || (9..=13).contains(&b[0]))),
        14 => ("^a\\b", b.first() == Some(&b'a') && !b.get(1).is_some_and(|c| word(*c))),
        15 => ("\"", b.contains(&b'"')),
        16 => ("\\\\", b.contains(&b'\\')),
        17 => ("^(a(b)?)*$", { let mut i = 0; while i < b.len() && b[i] == b'a' { i += 1; if b.get(i) == Some(&b'b') { i += 1; } } i == b.len() }),
        18 => ("^a.b$", b.len() == 3 && b[0] == b'a' && b[1] != b'\n' && b[2] == b'b'),
        19 => ("\\141", false),
        25 => ("a\n", has(b, |t| t.starts_with(b"a\n"))),
        _ => ("^$", b.is_empty()),
    };
    let got = ok(&one(field(&["$.a"], filter(FilterValue::Pattern(p.into())))), json!({ "a": v }));
    sym::check(got == want, "a text matches a pattern exactly when its content does");
    sym::cover(if got { "match" } else { "no match" });
}
/// elements of a list that are numbers or flags
#[cfg(feature = "d03")]
#[no_mangle]
pub extern "C" fn d03_elements() {
    let t = sym::ascii_upto("t", 0, 1);
    let (p, num, flag, txt): (&str, bool, bool, bool) = match sym::choose("p", 6) {
        0 => ("^42$", true, false, false),
        1 => ("2", true, false, t == "2"),
        2 => ("^true$", false, true, false),
        3 => ("^-", false, false, t == "-"),
        4 => ("^$", false, false, t.is_empty()),
        _ => ("e", false, true, t == "e"),
    };
    let mut l = vec![];
    let mut want = false;
    for _ in 0..2 {
        match sym::choose("element", 4) {
            0 => {}
            1 => { l.push(json!(42)); want |= num }
            2 => { l.push(json!(true)); want |= flag }
            _ => { l.push(json!(t.clone())); want |= txt }
        }
    }
    let got = ok(&one(field(&["$.a"], filter(FilterValue::Pattern(p.into())))), json!({ "a": l }));
    sym::check(got == want, "a list matches exactly when an element of it does");
    sym::cover(if got { "match" } else { "no match" });
}
/// characters beyond ASCII, patterns that are large, and patterns that may match nothing at all
#[cfg(feature = "d03")]
#[no_mangle]
pub extern "C" fn d03_wide() {
    let c = sym::ascii("c", 1);
    let b = c.as_bytes()[0];
    let (p, v, want) = match sym::choose("p", 10) {
        0 => ("^\\w$", "\u{e9}".to_string(), true),
        1 => ("^\\d$", "\u{663}".to_string(), true),
        2 => ("^[^a]$", "\u{1f600}".to_string(), true),
        3 => ("^\u{c9}$", "\u{e9}".to_string(), false),
        4 => ("\u{e9}", format!("x{c}\u{e9}"), true),
        5 => ("^x.\u{e9}$", format!("x{c}\u{e9}"), b != b'\n'),
        6 => ("^(abc|abd|abe|abf|abg|abh|abi|abj|abk|abl|abm|abn|abo|abp|abq|abr)$", format!("ab{c}"), (b'c'..=b'r').contains(&b)),
        7 => ("^[a-z]{1,60}$", format!("{}{c}", "z".repeat(40)), b.is_ascii_lowercase()),
        8 => ("((((((((((((x))))))))))))", format!("q{c}"), b == b'x'),
        _ => ("x*", format!("q{c}"), true),
    };
    let got = ok(&one(field(&["$.a"], filter(FilterValue::Pattern(p.into())))), json!({ "a": if sym::flip("list") { json!([v]) } else { json!(v) } }));
    sym::check(got == want, "a text matches a pattern exactly when its content does");
    sym::cover(if got { "match" } else { "no match" });
}

// ---- D04: formats
fn digit(name: &str) -> u8 {
    let d = sym::u8(name);
    sym::assume(d < 10);
    d
}
fn leap(y: u32) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
fn days(y: u32, m: u8) -> u8 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => {
            if leap(y) {
                29
            } else {
                28
            }
        }
        _ => 0,
    }
}
fn fmt(f: &str, v: Value) -> bool {
    ok(&one(field(&["$.a"], filter(FilterValue::Format(f.into())))), json!({ "a": v }))
}
const YEARS: [u32; 6] = [2024, 2023, 1900, 2000, 1999, 2100];
/// MM-DD over all digits, for common, leap and century years
#[cfg(feature = "d04")]
#[no_mangle]
pub extern "C" fn d04_date() {
    calendar(false)
}
#[cfg(feature = "d04")]
#[no_mangle]
pub extern "C" fn d04_datetime() {
    calendar(true)
}
/// months and the tens of the day by case, the units of the day symbolic
fn calendar(time: bool) {
    let y = YEARS[sym::choose("year", sym::by_tier(6, 6))];
    let m = if sym::by_tier(1, 1) == 0 { [0, 1, 2, 4, 12, 13][sym::choose("month", 6)] } else { sym::choose("month", 20) as u8 };
    let t = [0, 1, 2, 3, 9][sym::choose("day tens", 5)] as u8;
    let u = digit("day");
    let mut s = format!("{y}-{m:02}-{t}").into_bytes();
    s.push(u + b'0');
    let s = unsafe { String::from_utf8_unchecked(s) };
    let dd = t * 10 + u;
    let want = (1..=12).contains(&m) && dd >= 1 && dd <= days(y, m);
    let got = if time { fmt("date-time", json!(format!("{s}T10:20:30Z"))) } else { fmt("date", json!(s)) };
    sym::check(got == want, "a YYYY-MM-DD date is accepted exactly when the day exists");
    sym::cover(if got { "valid" } else { "invalid" });
}
/// HH:MM:SS over all digits
#[cfg(feature = "d04")]
#[no_mangle]
pub extern "C" fn d04_time() {
    let d = [digit("h"), digit("h"), digit("m"), digit("m"), digit("s"), digit("s")];
    let c = |i: usize| d[i] + b'0';
    let mut s = b"2024-02-29T".to_vec();
    s.extend([c(0), c(1), b':', c(2), c(3), b':', c(4), c(5)]);
    s.extend_from_slice(["Z", "+01:30", "-05:00", ".25Z", ""][sym::choose("zone", 5)].as_bytes());
    let zoned = s.len() > 19;
    let s = unsafe { String::from_utf8_unchecked(s) };
    let n = |i: usize| d[i] * 10 + d[i + 1];
    sym::assume(n(4) != 60); // leap seconds: accepted or not, both are defensible
    let want = zoned && n(0) < 24 && n(2) < 60 && n(4) < 60;
    let got = fmt("date-time", json!(s));
    sym::check(got == want, "an RFC 3339 time is accepted exactly when it exists and has a zone");
    sym::cover(if got { "valid" } else { "invalid" });
}
/// RFC 3339 full-date and date-time, written from its grammar
fn full_date(b: &[u8]) -> bool {
    let n = |i: usize| u32::from(b[i] - b'0');
    b.len() == 10
        && [0, 1, 2, 3, 5, 6, 8, 9].iter().all(|i| b[*i].is_ascii_digit())
        && b[4] == b'-'
        && b[7] == b'-'
        && {
            let (y, m, d) = (n(0) * 1000 + n(1) * 100 + n(2) * 10 + n(3), n(5) * 10 + n(6), n(8) * 10 + n(9));
            d >= 1 && d <= u32::from(days(y, m as u8))
        }
}
fn date_time(b: &[u8]) -> bool {
    let two = |i: usize, max: u8| b[i].is_ascii_digit() && b[i + 1].is_ascii_digit() && (b[i] - b'0') * 10 + (b[i + 1] - b'0') <= max;
    if b.len() < 20 || !full_date(&b[..10]) || b[10] != b'T' || b[13] != b':' || b[16] != b':' || !two(11, 23) || !two(14, 59) || !two(17, 59) {
        return false;
    }
    let mut i = 19;
    if b[i] == b'.' {
        i += 1;
        let from = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i == from {
            return false;
        }
    }
    match b.get(i) {
        Some(b'Z') => i + 1 == b.len(),
        Some(b'+' | b'-') => b.len() == i + 6 && b[i + 3] == b':' && two(i + 1, 23) && two(i + 4, 59),
        _ => false,
    }
}
const DATES: [&str; 3] = ["2024-02-29", "1999-12-31", "0001-01-01"];
const TIMES: [&str; 3] = ["2024-02-29T10:20:30Z", "2023-12-31T23:59:59.250Z", "2000-01-01T00:00:00+05:30"];
/// every zone
#[cfg(feature = "d04")]
#[no_mangle]
pub extern "C" fn d04_zone() {
    let d = [digit("h"), digit("h"), digit("m"), digit("m")];
    let mut s = ["2024-02-29T10:20:30", "2024-12-31T23:59:59.5", "2000-01-01T00:00:00"][sym::choose("time", 3)].as_bytes().to_vec();
    s.push([b'+', b'-'][sym::choose("sign", 2)]);
    s.extend([d[0] + b'0', d[1] + b'0', b':', d[2] + b'0', d[3] + b'0']);
    let want = d[0] * 10 + d[1] < 24 && d[2] * 10 + d[3] < 60;
    let got = fmt("date-time", json!(unsafe { String::from_utf8_unchecked(s) }));
    sym::check(got == want, "a date-time is accepted exactly when its zone exists");
    sym::cover(if got { "valid" } else { "invalid" });
}
/// fractions of a second of any length, and what may stand in their place
#[cfg(feature = "d04")]
#[no_mangle]
pub extern "C" fn d04_fraction() {
    let n = [0, 1, 2, 5, 8, 9, 11, 29][sym::choose("digits", 8)];
    let c = sym::ascii("c", 1);
    let zone = ["Z", "+05:30", "-00:00", "+00:00", "-12:45"][sym::choose("zone", 5)];
    let s = format!("2024-02-29T10:20:30.{}{c}{zone}", "9".repeat(n));
    let b = s.as_bytes();
    sym::assume(c != "z"); // lower case is left to the application
    let want = date_time(b);
    let got = fmt("date-time", json!(s));
    sym::check(got == want, "a fraction of a second is digits, any number of them");
    sym::cover(if got { "valid" } else { "invalid" });
}
/// other notations for dates and times are no RFC 3339 ones, nor are claims that contain some
#[cfg(feature = "d04")]
#[no_mangle]
pub extern "C" fn d04_notation() {
    const OTHER: [&str; 24] = [
        "Thu, 29 Feb 2024 10:20:30 +0000", "Thu, 29 Feb 2024 10:20:30 GMT", "29 Feb 2024 10:20:30 -0000", "Thursday, 29-Feb-24 10:20:30 GMT", "Thu Feb 29 10:20:30 2024",
        "20240229", "20240229T102030Z", "2024-W09-4", "2024-060", "2024-02", "2024", "29.02.2024", "02/29/2024", "2024/02/29", "1709202030", "1709202030000",
        "+12024-02-29", "-0001-01-01", "2024-02-29T10:20Z", "2024-02-29T10Z", "2024-02-29T24:00:00Z", "2024-02-29T10:20:30,5Z", "2024-02-29T10:20:30+0530", "2024-02-29T10:20:30",
    ];
    let s = OTHER[sym::choose("notation", OTHER.len())];
    let s = if sym::flip("more") { format!("{s}{}", sym::ascii("c", 1)) } else { s.to_string() };
    sym::assume(!s.ends_with('z')); // lower case is left to the application
    let time = sym::flip("time");
    let f = if time { "date-time" } else { "date" };
    let good = if time { TIMES[0] } else { DATES[0] };
    let (claim, want) = match sym::choose("claim", 6) {
        0 => (json!(s), if time { date_time(s.as_bytes()) } else { full_date(s.as_bytes()) }),
        1 => (json!([good]), false),
        2 => (json!({ "a": good }), false),
        3 => (json!([1_709_202_030u64, 1_709_202_030_000u64, 20_240_229, 2024][sym::choose("number", 4)]), false),
        4 => (json!(if time { DATES[0] } else { TIMES[0] }), false),
        _ => (json!(good), true),
    };
    let got = fmt(f, claim);
    sym::check(got == want, "nothing but an RFC 3339 text is accepted");
    sym::cover(if got { "valid" } else { "invalid" });
}
/// any one character replaced by any other, inserted or removed
#[cfg(feature = "d04")]
#[no_mangle]
pub extern "C" fn d04_mutated() {
    let time = sym::flip("time");
    let mut s = if time { TIMES } else { DATES }[sym::choose("base", 3)].as_bytes().to_vec();
    let i = sym::choose("pos", s.len() + 1);
    let edit = sym::choose("edit", 3);
    sym::assume(i < s.len() || edit == 1);
    match edit {
        0 => s[i] = sym::ascii("c", 1).as_bytes()[0],
        1 => s.insert(i, sym::ascii("c", 1).as_bytes()[0]),
        _ => {
            s.remove(i);
        }
    }
    if time && s.len() > 18 {
        // RFC 3339 leaves these to the application: other separators, lower case, leap seconds
        sym::assume(!(s[10] == b' ' || s[10] == b't' || s.last() == Some(&b'z') || s[17] == b'6' && s[18] == b'0'));
    }
    let want = if time { date_time(&s) } else { full_date(&s) };
    let s = unsafe { String::from_utf8_unchecked(s) };
    sym::check(fmt(if time { "date-time" } else { "date" }, json!(s)) == want, "a text is accepted exactly when it is a date of the format");
    sym::cover(if want { "still valid" } else { "invalid" });
}
/// years by all their digits
#[cfg(feature = "d04")]
#[no_mangle]
pub extern "C" fn d04_year() {
    let time = sym::flip("time");
    let lo = sym::flip("low digits");
    let (p, q) = (digit("y"), digit("y"));
    let y = if lo { [19, 20][sym::choose("century", 2)] * 100 + u32::from(p) * 10 + u32::from(q) } else { u32::from(p) * 1000 + u32::from(q) * 100 };
    let mut s = if lo { if y >= 2000 { b"20".to_vec() } else { b"19".to_vec() } } else { vec![] };
    s.extend([p + b'0', q + b'0']);
    if !lo {
        s.extend(b"00");
    }
    let d = [28, 29, 30][sym::choose("day", 3)];
    s.extend(format!("-02-{d}").bytes());
    let s = unsafe { String::from_utf8_unchecked(s) };
    let got = if time { fmt("date-time", json!(format!("{s}T10:20:30Z"))) } else { fmt("date", json!(s)) };
    sym::check(got == (d == 28 || d == 29 && leap(y)), "the 29th of February exists exactly in leap years");
    sym::cover(if got { "valid" } else { "invalid" });
}
/// values that are not text, short texts, texts of the other format, unknown formats
#[cfg(feature = "d04")]
#[no_mangle]
pub extern "C" fn d04_other() {
    let time = sym::flip("time");
    let f = if time { "date-time" } else { "date" };
    let v = match sym::choose("v", 7) {
        0 => json!(20240229),
        1 => json!(true),
        2 => Value::Null,
        3 => json!({ "date": "2024-02-29" }),
        4 => json!(sym::ascii_upto("s", 0, sym::by_tier(4, 5))),
        5 => json!(if time { "2024-02-29" } else { "2024-02-29T10:20:30Z" }),
        _ => json!([]),
    };
    sym::check(!fmt(f, v), "a value that is not text of the format is refused");
    sym::cover("other");
}

// ---- D05: nothing crashes the matcher
#[cfg(feature = "d05")]
fn node(k: usize) -> Value {
    match k {
        0 => json!(sym::ascii_upto("s", 0, 2)),
        1 => json!(sym::bool("b")),
        2 => json!([0i64, -7, i64::MAX, i64::MIN][sym::choose("n", 4)]),
        3 => Value::Null,
        4 => json!({ "x": "y" }),
        5 => json!([]),
        6 => json!([1, "x", {"y": null}]),
        7 => json!([1.5e300, -0.0, 5e-324][sym::choose("n", 3)]),
        8 => json!(u64::MAX),
        9 => json!([[], [[]], {}, "", -1, 0.5, u64::MAX, false, ["\u{e9}"]]),
        10 => json!(wide()),
        11 => json!([wide()]),
        12 => json!({}),
        _ => json!({ wide(): [null, { "": wide() }] }),
    }
}
/// texts whose characters take several bytes, short and long
#[cfg(feature = "d05")]
fn wide() -> String {
    let c = ["\u{e9}", "\u{20ac}", "\u{1f600}"][sym::choose("char", 3)];
    match sym::choose("wide", 4) {
        0 => c.into(),
        1 => format!("{}{c}", sym::ascii("s", 1)),
        2 => c.repeat(40),
        _ => format!("2024-02-{}{}", c, c.repeat(8)),
    }
}
#[cfg(feature = "d05")]
#[no_mangle]
pub extern "C" fn d05_filters() {
    let v = node(sym::choose("node", 14));
    let f = match sym::choose("filter", 8) {
        0 => FilterValue::Const(sym::ascii_upto("k", 0, 2)),
        1 => FilterValue::Pattern(["a", "", "[", "^.$", "(", "\\", "\u{e9}+$"][sym::choose("p", 7)].into()),
        2 => FilterValue::Format("date".into()),
        3 => FilterValue::Format("date-time".into()),
        4 => FilterValue::Const(["\u{e9}", "\u{1f600}".repeat(40).as_str(), "18446744073709551616", "-1e999", "true", "null", "[", "{}"][sym::choose("k", 8)].into()),
        5 => FilterValue::Pattern(["\u{1f600}", "[\u{e9}-\u{20ac}]", "(?P<\u{e9}>", "\\\u{e9}"][sym::choose("p", 4)].into()),
        6 => FilterValue::Format(["\u{e9}", "dat\u{e9}", "date-\u{1f600}"][sym::choose("f", 3)].into()),
        _ => FilterValue::Format(sym::ascii_upto("f", 0, 3)),
    };
    let c = one(Field { optional: [None, Some(true)][sym::choose("opt", 2)], ..field(&["$.a"], filter(f)) });
    sym::phase("match");
    let _ = c.satisfied(&C(json!({ "a": v })));
    sym::cover("done");
}
/// paths with characters of several bytes, empty lists of paths and fields, members of every kind
#[cfg(feature = "d05")]
#[no_mangle]
pub extern "C" fn d05_wide() {
    let w = ["\u{e9}", "\u{20ac}", "\u{1f600}"][sym::choose("char", 3)];
    let c = sym::ascii("c", 1);
    let p = match sym::choose("path", 12) {
        0 => w.to_string(),
        1 => format!("$.{w}{c}"),
        2 => format!("$['{w}']{c}"),
        3 => format!("$..{w}"),
        4 => format!("$[?@.a == '{w}{c}']"),
        5 => format!("$[\"\\{w}\"]"),
        6 => format!("$[\"\\u{w}{c}\"]"),
        7 => format!("$[\"\\u00{w}\"]"),
        8 => format!("$[\"\\uD83D\\u{w}\"]"),
        9 => format!("{c}{w}"),
        10 => format!("$[?match(@.a, '{w}{c}')]"),
        _ => format!("$.{}", w.repeat(60)),
    };
    let f = if sym::flip("filtered") { filter(FilterValue::Const(w.into())) } else { None };
    let fs = match sym::choose("fields", 3) {
        0 => vec![field(&[&p], f)],
        1 => vec![field(&[], f.clone()), field(&[&p, "$.a", &p], f)],
        _ => vec![field(&["$.a", &p], f)],
    };
    let c = Constraints { fields: Some(fs), ..Constraints::default() };
    sym::phase("match");
    let _ = c.satisfied(&C(json!({ w: [w], "a": w })));
    sym::cover("done");
}
/// any path text
#[cfg(feature = "d05")]
#[no_mangle]
pub extern "C" fn d05_path() {
    let n = sym::by_tier(3, 4);
    let p = match sym::choose("shape", 4) {
        0 => sym::ascii_upto("p", 0, n),
        1 => format!("${}", sym::ascii_upto("p", 0, n)),
        2 => format!("$.{}", sym::ascii_upto("p", 0, n)),
        _ => format!("$[{}]", sym::ascii_upto("p", 0, n)),
    };
    let c = one(field(&[&p], None));
    sym::phase("match");
    let _ = c.satisfied(&C(json!({ "a": ["x"], "b": {"c": 1} })));
    sym::cover("done");
}
/// any pattern text
#[cfg(feature = "d05")]
#[no_mangle]
pub extern "C" fn d05_pattern() {
    let p = sym::ascii_upto("p", 0, sym::by_tier(2, 2));
    let c = one(field(&["$.a"], filter(FilterValue::Pattern(p))));
    sym::phase("match");
    let _ = c.satisfied(&C(json!({ "a": "ab" })));
    sym::cover("done");
}
/// paths of every syntactic form with any character in them, over claims of every kind
#[cfg(feature = "d05")]
#[no_mangle]
pub extern "C" fn d05_path_forms() {
    const P: [&str; 22] = [
        "$[{}:1]", "$[0:{}]", "$[::{}]", "$[-{}]", "$[99999999999999999999{}]", "$[-9223372036854775808{}]", "$['{}']", "$[\"\\{}\"]", "$..{}", "$[?@.a{}1]", "$[?@.a == '{}']", "$[?length(@.a) > {}]",
        "$[?match(@.a, '{}')]", "$[?search(@.a, '{}')]", "$[?count(@.*) == {}]", "$[?@[{}]]", "$[?!(@.a{}@.b)]", "$['a'{}'b']", "$.a{}b", "$[*]{}", "{}$.a", "$['\\u00{}0']",
    ];
    let i = sym::choose("form", P.len());
    let v = match sym::choose("claims", 6) {
        0 => json!({ "a": "ab", "b": { "c": [1, 2.5, null] }, "": 1 }),
        1 => json!([[{ "a": 3 }], { "a": "x", "b": "x" }, "s"]),
        2 => Value::Null,
        3 => json!("text"),
        4 => json!(7),
        _ => json!({}),
    };
    let p = P[i].replace("{}", &sym::ascii("c", 1));
    let f = if sym::flip("filtered") { filter(FilterValue::Const("ab".into())) } else { None };
    let c = one(field(&[&p], f));
    sym::phase("match");
    let _ = c.satisfied(&C(v));
    sym::cover("done");
}
/// escapes in paths, complete, cut off or malformed
#[cfg(feature = "d05")]
#[no_mangle]
pub extern "C" fn d05_path_escape() {
    let q = ["'", "\""][sym::choose("quote", 2)];
    let e = match sym::choose("escape", 6) {
        0 => format!("\\{}", sym::ascii_upto("c", 0, 2)),
        1 => format!("\\u{}", sym::ascii_upto("c", 0, sym::by_tier(2, 3))),
        2 => format!("\\uD{}", sym::ascii_upto("c", 0, sym::by_tier(2, 3))),
        3 => format!("\\u004{}", sym::ascii_upto("c", 0, 1)),
        4 => format!("\\uD83D\\{}", sym::ascii_upto("c", 0, 2)),
        _ => format!("\\uD83D\\uD{}", sym::ascii_upto("c", 0, 2)),
    };
    let open = ["$[", "$.a[?@.b == ", "$[?match(@.a, "][sym::choose("place", 3)];
    let pre = ["", "\\\\", "a\\\\\\\\", "\\n"][sym::choose("before", 4)];
    let p = format!("{open}{q}{pre}{e}{}", ["", q, &format!("{q}]")][sym::choose("close", 3)]);
    let c = one(field(&[&p], None));
    sym::phase("match");
    let _ = c.satisfied(&C(json!({ "a": ["x"], "b": { "c": 1 } })));
    sym::cover("done");
}
/// patterns of every syntactic form with any character in them, over claims of every kind
#[cfg(feature = "d05")]
#[no_mangle]
pub extern "C" fn d05_pattern_forms() {
    const P: [&str; 16] = [
        "(?{})", "[{}-a]", "[a-{}]", "\\{}", "x{{}}", "x{1,{}}", "[[:{}:]]", "(?P<{}>x)", "\\p{{}}", "\\x{{}1}", "(?{}:x)", "a{}{9999999999}", "({})*?", "[^{}&&a]", "\\u{}", "^{}$",
    ];
    let i = sym::choose("form", P.len());
    let p = P[i].replacen("{}", &sym::ascii("c", 1), 1);
    let v = match sym::choose("claim", 5) {
        0 => json!("ab\u{e9}\n"),
        1 => json!(["a", 1, null, ["b"]]),
        2 => Value::Null,
        3 => json!({ "a": [] }),
        _ => json!(-1.5),
    };
    let c = one(field(&["$.a"], filter(FilterValue::Pattern(p))));
    sym::phase("match");
    let _ = c.satisfied(&C(json!({ "a": v })));
    sym::cover("done");
}
/// dates: any text in their place, short or with characters of several bytes
#[cfg(feature = "d05")]
#[no_mangle]
pub extern "C" fn d05_dates() {
    const T: [&str; 12] = [
        "", "\u{e9}", "2024-02-2\u{e9}", "2024-02\u{2212}29", "2024-02-29T10:20:30\u{2212}05:00", "2024-02-29T10:20:3\u{1f600}", "99999999999999999999-01-01", "2024-02-29T10:20:30.99999999999999999999Z", "T", "--", "2024-02-29T10:20:30+", "\u{661}\u{662}24-01-01",
    ];
    let t = T[sym::choose("t", T.len())];
    let c = sym::ascii("c", 1);
    let t = match sym::choose("edit", 3) {
        0 => t.to_string(),
        1 => format!("{t}{c}"),
        _ => format!("{c}{t}"),
    };
    let f = ["date", "date-time", "time", "Date", ""][sym::choose("format", 5)];
    let c = one(field(&["$.a"], filter(FilterValue::Format(f.into()))));
    let v = if sym::flip("listed") { json!([t]) } else { json!(t) };
    sym::phase("match");
    let _ = c.satisfied(&C(json!({ "a": v })));
    sym::cover("done");
}
/// definitions arrive as JSON: members missing, of the wrong kind, unknown
#[cfg(feature = "d05")]
#[no_mangle]
pub extern "C" fn d05_definition() {
    const V: [&str; 14] = ["null", "1", "\"x\"", "[]", "{}", "[1]", "[null]", "[{}]", "true", "-1e400", "\"\\u{}\"", "[{\"path\":[]}]", "[{\"path\":[\"$\"],\"filter\":{}}]", "[{\"path\":[\"\"],\"filter\":{\"type\":\"x\",\"const\":\"\",\"pattern\":\"(\"}}]"];
    let v = V[sym::choose("value", V.len())].replace("{}", &sym::ascii("c", 1));
    let js = match sym::choose("where", 4) {
        0 => format!("{{\"id\":\"1\",\"input_descriptors\":{v}}}"),
        1 => format!("{{\"id\":\"1\",\"input_descriptors\":[{{\"id\":\"2\",\"constraints\":{v}}}]}}"),
        2 => format!("{{\"id\":\"1\",\"input_descriptors\":[{{\"id\":\"2\",\"constraints\":{{\"fields\":{v}}}}}],\"format\":{v}}}"),
        _ => v,
    };
    sym::phase("parse and match");
    match serde_json::from_str::<PresentationDefinition>(&js) {
        Ok(d) => {
            for i in &d.input_descriptors {
                let _ = i.constraints.satisfied(&C(json!({ "a": 1 })));
            }
            sym::cover("accepted");
        }
        Err(_) => sym::cover("refused"),
    }
}
/// presentation submissions arrive as text
#[cfg(feature = "d05")]
#[no_mangle]
pub extern "C" fn d05_submission() {
    let n = 3;
    let s = match sym::choose("shape", 8) {
        0 => sym::ascii_upto("s", 0, n),
        1 => format!("{{\"id\":\"1\",\"definition_id\":\"2\",\"descriptor_map\":{}", sym::ascii_upto("s", 0, n)),
        2 => format!("\u{e9}{}", sym::ascii_upto("s", 0, 1)),
        3 => format!("{{\"id\":\"\u{1f600}\",\"definition_id\":\"\u{e9}{}\",\"descriptor_map\":[{{}}]}}", sym::ascii_upto("s", 0, 1)),
        4 => "[".repeat(200),
        5 => format!("{{\"id\":\"1\",\"definition_id\":\"2\",\"descriptor_map\":[{{\"id\":\"\",\"path\":\"{0}\",\"format\":\"{0}\",\"path_nested\":{1}}}]}}", sym::ascii_upto("s", 0, 1), ["null", "{}", "{\"format\":\"\",\"path\":\"\"}", "[]"][sym::choose("nested", 4)]),
        6 => ["null", "{}", "[]", "\"\"", "%7B%7D", "eyJpZCI6IjEifQ", "[\"1\",\"2\",[]]", "[1,2,3]"][sym::choose("text", 8)].to_string(),
        _ => format!("{{\"id\":\"{}\",\"definition_id\":\"2\",\"descriptor_map\":[]}}", sym::ascii_upto("s", 0, sym::by_tier(4, 5))),
    };
    sym::phase("parse");
    let r: Result<PresentationSubmission, _> = s.parse();
    sym::cover(if r.is_ok() { "accepted" } else { "refused" });
}

// ---- D06: paths
/// the first path whose value passes wins, any one suffices
#[cfg(feature = "d06")]
#[no_mangle]
pub extern "C" fn d06_any_path() {
    let n = 1 + sym::choose("n", sym::by_tier(4, 4));
    let k = sym::ascii("k", 1);
    let filtered = sym::flip("filtered");
    let mut vc = serde_json::Map::new();
    let mut paths = vec![];
    let (mut any, mut found) = (false, false);
    for i in 0..n {
        paths.push(["$.a", "$.b", "$.c", "$.d"][i]);
        if sym::flip("present") {
            let v = sym::ascii("v", 1);
            any |= !filtered || v == k;
            found = true;
            vc.insert(["a", "b", "c", "d"][i].into(), json!(v));
        }
    }
    vc.insert("z".into(), json!(k.clone()));
    let f = if filtered { filter(FilterValue::Const(k)) } else { None };
    let optional = [None, Some(true)][sym::choose("opt", 2)];
    let want = any || (!found && optional == Some(true));
    let got = ok(&one(Field { optional, ..field(&paths, f) }), Value::Object(vc));
    sym::check(got == want, "a field holds exactly when one of its paths selects a valid value");
    sym::cover(if got { "match" } else { "no match" });
}
/// paths select the value they name, at any depth
#[cfg(feature = "d06")]
#[no_mangle]
pub extern "C" fn d06_select() {
    let v: Vec<String> = (0..7).map(|_| sym::ascii("v", 1)).collect();
    let k = sym::ascii("k", 1);
    let i = sym::choose("path", 10);
    let path = [
        "$.a.b", "$['a']['c']", "$.list[0].n", "$.list[1].n", "$['\\\\u']", "$['u\\u0041\\\\']", "$[\"\\uD83D\\ude00\\\"\"]", "$.a.missing", "$.list[2].n",
        "$['\\\\\\u']", // the escape of a character that is missing
    ][i];
    let want = i < 7 && v[i] == k;
    let vc = json!({"a": {"b": v[0].clone(), "c": v[1].clone()}, "list": [{"n": v[2].clone()}, {"n": v[3].clone()}], "b": k.clone(), "\\u": v[4].clone(), "uA\\": v[5].clone(), "\u{1f600}\"": v[6].clone()});
    let got = ok(&one(field(&[path], filter(FilterValue::Const(k)))), vc);
    sym::check(got == want, "a path selects the value it names and nothing else");
    sym::cover(if got { "match" } else { "no match" });
}

/// a path that selects several values, alone or beside another
#[cfg(feature = "d06")]
#[no_mangle]
pub extern "C" fn d06_several() {
    let n = sym::choose("n", 4);
    let v: Vec<String> = (0..n).map(|_| sym::ascii("v", 1)).collect();
    let k = sym::ascii("k", 1);
    let p = sym::choose("path", 8);
    let path = ["$.list[*].n", "$..n", "$.list[0:2].n", "$.list[-1].n", "$.flat[*]", "$['flat'][1:]", "$.list[0,2].n", "$.flat[?@ != 'z']"][p];
    let hit = |i: usize| match p {
        0 | 1 | 4 => true,
        2 => i < 2,
        3 => i + 1 == n,
        5 => i >= 1,
        6 => i == 0 || i == 2,
        _ => v[i] != "z",
    };
    let mut want = (0..n).any(|i| hit(i) && v[i] == k);
    let vc = json!({
        "list": v.iter().map(|v| json!({ "n": v })).collect::<Vec<_>>(),
        "flat": v.clone(),
        "other": k.clone(),
    });
    let mut paths = vec![path];
    match sym::choose("beside", 3) {
        0 => {}
        1 => paths.insert(0, "$.missing"),
        _ => {
            paths.push("$.other");
            want = true;
        }
    }
    let got = ok(&one(field(&paths, filter(FilterValue::Const(k)))), vc);
    sym::check(got == want, "a field holds exactly when a value one of its paths selects is valid");
    sym::cover(if got { "match" } else { "no match" });
}
/// values of other kinds among those a path selects
#[cfg(feature = "d06")]
#[no_mangle]
pub extern "C" fn d06_kinds() {
    let (k, v) = (sym::ascii("k", 1), sym::ascii("v", 1));
    // a constant of one character may equal a digit: the numbers here have two
    let junk = || match sym::choose("junk", 7) {
        0 => json!({}),
        1 => json!({ "n": "longer" }),
        2 => Value::Null,
        3 => json!([]),
        4 => json!(["longer"]),
        5 => json!(42),
        _ => json!(false),
    };
    let i = sym::choose("at", 3);
    let mut l = vec![junk(), junk()];
    l.insert(i, json!(v.clone()));
    let path = ["$.l[*]", "$.l[0,1,2]", "$.l[2,1,0]"][sym::choose("path", 3)];
    let got = ok(&one(field(&[path], filter(FilterValue::Const(k.clone())))), json!({ "l": l }));
    sym::check(got == (k == v), "values of other kinds beside it do not matter");
    sym::cover(if got { "match" } else { "no match" });
}
/// many alternatives, the right one at any place; the same value reached by several paths; deep paths
#[cfg(feature = "d06")]
#[no_mangle]
pub extern "C" fn d06_many() {
    let n = 8;
    let at = sym::choose("at", n);
    let k = sym::ascii("k", 1);
    let v = sym::ascii("v", 1);
    let want = v == k;
    let others = sym::choose("others", 3); // missing, present but wrong, wrong kind
    let mut vc = serde_json::Map::new();
    let mut paths = vec![];
    for i in 0..n {
        paths.push(format!("$.p{i}.q.r.s"));
        let value = if i == at {
            json!(v.clone())
        } else {
            match others {
                0 => continue,
                1 => json!("wrong"),
                _ => json!({ "not": "text" }),
            }
        };
        vc.insert(format!("p{i}"), json!({ "q": { "r": { "s": value } } }));
    }
    let paths: Vec<&str> = paths.iter().map(String::as_str).collect();
    let optional = [None, Some(true)][sym::choose("opt", 2)];
    let got = ok(&one(Field { optional, ..field(&paths, filter(FilterValue::Const(k))) }), Value::Object(vc));
    sym::check(got == want, "a field holds exactly when one of many paths selects a valid value");
    sym::cover(if got { "match" } else { "no match" });
}
/// a path that selects many values, and many paths
#[cfg(feature = "d06")]
#[no_mangle]
pub extern "C" fn d06_large() {
    let k = sym::ascii("k", 1);
    let v = sym::ascii("v", 1);
    let want = v == k;
    let n = [20, 70][sym::choose("n", 2)];
    let at = [0, 9, 16, n / 2, n - 1][sym::choose("at", 5)];
    let other = [json!("wrong"), json!(null), json!(["wrong"])][sym::choose("other", 3)].clone();
    let got = match sym::choose("form", 3) {
        0 => {
            let l: Vec<Value> = (0..n).map(|i| if i == at { json!(v.clone()) } else { other.clone() }).collect();
            ok(&one(field(&["$.l[*]"], filter(FilterValue::Const(k)))), json!({ "l": l }))
        }
        1 => {
            let l: Vec<Value> = (0..n).map(|i| json!({ "t": if i == at { json!(v.clone()) } else { other.clone() } })).collect();
            ok(&one(field(&["$..t"], filter(FilterValue::Const(k)))), json!({ "l": { "m": l } }))
        }
        _ => {
            let mut m = serde_json::Map::new();
            m.insert(format!("p{at}"), json!(v.clone()));
            let paths: Vec<String> = (0..n).map(|i| format!("$.p{i}")).collect();
            let paths: Vec<&str> = paths.iter().map(String::as_str).collect();
            ok(&one(field(&paths, filter(FilterValue::Const(k)))), Value::Object(m))
        }
    };
    sym::check(got == want, "a field holds exactly when one of many values selected is valid");
    sym::cover(if got { "match" } else { "no match" });
}
/// paths down deep documents, and names that need quotes
#[cfg(feature = "d06")]
#[no_mangle]
pub extern "C" fn d06_names() {
    let k = sym::ascii("k", 1);
    let v = sym::ascii("v", 1);
    let want = v == k;
    let n = [5, 12, 30][sym::choose("depth", 3)];
    let (path, vc) = match sym::choose("form", 6) {
        0 => (format!("${}", ".d".repeat(n)), (0..n).fold(json!(v), |x, _| json!({ "d": x, "e": "wrong" }))),
        1 => (format!("${}", "[0]".repeat(n)), (0..n).fold(json!(v), |x, _| json!([x, "wrong"]))),
        2 => ("$['credential subject']['@id']".to_string(), json!({ "credential subject": { "@id": v, "id": "wrong" } })),
        3 => ("$[\"a.b\"]".to_string(), json!({ "a.b": v, "a": { "b": "wrong" } })),
        4 => ("$['\\u00e9'].vc".to_string(), json!({ "\u{e9}": { "vc": v }, "e": { "vc": "wrong" } })),
        _ => ("$.l[-1]".to_string(), json!({ "l": ["wrong", "wrong", v] })),
    };
    let got = ok(&one(field(&[&path], filter(FilterValue::Const(k)))), vc);
    sym::check(got == want, "a path selects the value it names, at any depth");
    sym::cover(if got { "match" } else { "no match" });
}

// ---- D07: definitions and submissions survive JSON
fn opt_text(name: &str) -> Option<String> {
    if sym::flip(name) {
        Some(sym::ascii_upto(name, 0, 2))
    } else {
        None
    }
}
#[cfg(feature = "d07")]
#[no_mangle]
pub extern "C" fn d07_definition() {
    let t = || "t".to_string();
    // one member varies at a time; the optional ones are otherwise all absent or all present
    let which = sym::choose("which", 26);
    let all = sym::flip("all");
    let vary = |i: usize| if which == i { sym::ascii_upto("text", 0, sym::by_tier(2, 3)) } else { t() };
    let o = |i: usize| {
        if which == i {
            opt_text("opt")
        } else if all {
            Some(t())
        } else {
            None
        }
    };
    let ob = |i: usize| if which == i { [None, Some(true), Some(false)][sym::choose("b", 3)] } else if all { Some(false) } else { None };
    let value = match sym::choose("filter", 3) {
        0 => FilterValue::Const(vary(0)),
        1 => FilterValue::Pattern(vary(0)),
        _ => FilterValue::Format(vary(0)),
    };
    let f = Field {
        id: o(1),
        path: if which == 2 { vec![] } else { vec!["$.a".into(), vary(3)] },
        filter: if which == 4 { None } else { Some(Filter { type_: vary(5), value }) },
        predicate: o(6),
        purpose: o(7),
        name: o(8),
        optional: ob(9),
        intent_to_retain: ob(10),
    };
    let mut fm = HashMap::new();
    fm.insert("jwt_vc".to_string(), ClaimFormat { alg: Some(vec!["ES256K".into(), vary(11)]), proof_type: None });
    match which {
        20 => fm.clear(),
        21 => drop(fm.insert("ldp_vp".into(), ClaimFormat { alg: None, proof_type: Some(vec![]) })),
        22 => drop(fm.insert("ldp_vp".into(), ClaimFormat { alg: Some(vec![]), proof_type: Some(vec![t(), sym::ascii_upto("type", 0, 1)]) })),
        23 => drop(fm.insert(sym::ascii_upto("format", 0, 1), ClaimFormat { alg: None, proof_type: None })),
        _ => {}
    }
    let format = if which == 11 || (20..=23).contains(&which) || all { Some(fm) } else { None };
    let mut d = PresentationDefinition {
        id: vary(12),
        input_descriptors: vec![InputDescriptor {
            id: vary(13),
            name: o(14),
            purpose: o(15),
            format: format.clone(),
            constraints: Constraints { fields: if which == 16 { None } else { Some(vec![f]) }, limit_disclosure: o(17) },
        }],
        name: o(18),
        purpose: o(19),
        format,
    };
    if which == 24 {
        d.input_descriptors.clear();
    }
    if which == 25 {
        d.input_descriptors[0].constraints.fields = Some(vec![]);
    }
    let js = serde_json::to_string(&d).unwrap();
    let r: Result<PresentationDefinition, _> = serde_json::from_str(&js);
    sym::check(r.is_ok(), "a serialised definition can be read");
    sym::check(r.unwrap() == d, "a definition survives JSON");
    sym::cover("definition");
}
#[cfg(feature = "d07")]
#[no_mangle]
pub extern "C" fn d07_submission() {
    let n = sym::choose("n", 3);
    let which = sym::choose("which", 2 + 5 * n);
    let t = |i: usize, usual: &str| if which == i { sym::ascii_upto("text", 0, 2) } else { usual.to_string() };
    let s = PresentationSubmission {
        id: t(0, "i"),
        definition_id: t(1, "d"),
        descriptor_map: (0..n)
            .map(|i| DescriptorMap {
                id: t(2 + 5 * i, "1"),
                format: t(3 + 5 * i, "jwt_vp"),
                path: t(4 + 5 * i, "$"),
                path_nested: PathNested { format: t(5 + 5 * i, "jwt_vc"), path: t(6 + 5 * i, "$.vp") },
            })
            .collect(),
    };
    let js = serde_json::to_string(&s).unwrap();
    let r: Result<PresentationSubmission, _> = js.parse();
    sym::check(r.is_ok(), "a serialised submission can be read");
    sym::check(r.unwrap() == s, "a submission survives JSON");
    sym::cover("submission");
}
/// members have the names and values the specification gives them, absent ones are absent
#[cfg(feature = "d07")]
#[no_mangle]
pub extern "C" fn d07_names() {
    let t = sym::ascii("t", 1);
    let b = sym::flip("b");
    let (value, vname) = match sym::choose("filter", 3) {
        0 => (FilterValue::Const(t.clone()), "const"),
        1 => (FilterValue::Pattern(t.clone()), "pattern"),
        _ => (FilterValue::Format(t.clone()), "format"),
    };
    let mut fm = HashMap::new();
    fm.insert("jwt_vc".to_string(), ClaimFormat { alg: Some(vec!["ES256K".into()]), proof_type: None });
    let mut fm2 = HashMap::new();
    fm2.insert("ldp_vc".to_string(), ClaimFormat { alg: None, proof_type: Some(vec!["JsonWebSignature2020".into(), t.clone()]) });
    let full = PresentationDefinition {
        id: "d".into(),
        input_descriptors: vec![
            InputDescriptor {
                id: "i".into(),
                name: Some("in".into()),
                purpose: Some("ip".into()),
                format: Some(fm2),
                constraints: Constraints {
                    fields: Some(vec![Field {
                        id: Some("f".into()),
                        path: vec!["$.a".into(), "$.b".into()],
                        filter: Some(Filter { type_: "string".into(), value }),
                        predicate: Some("required".into()),
                        purpose: Some("fp".into()),
                        name: Some("fn".into()),
                        optional: Some(b),
                        intent_to_retain: Some(!b),
                    }]),
                    limit_disclosure: Some("preferred".into()),
                },
            },
            InputDescriptor { id: t.clone(), name: None, purpose: None, format: None, constraints: Constraints { fields: Some(vec![field(&["$.c"], None)]), limit_disclosure: None } },
            InputDescriptor { id: "3".into(), name: None, purpose: None, format: None, constraints: Constraints::default() },
        ],
        name: Some("dn".into()),
        purpose: Some("dp".into()),
        format: Some(fm),
    };
    let mut js = json!({
        "id": "d",
        "name": "dn",
        "purpose": "dp",
        "format": { "jwt_vc": { "alg": ["ES256K"] } },
        "input_descriptors": [
            {
                "id": "i",
                "name": "in",
                "purpose": "ip",
                "format": { "ldp_vc": { "proof_type": ["JsonWebSignature2020", t.clone()] } },
                "constraints": {
                    "fields": [{
                        "id": "f",
                        "path": ["$.a", "$.b"],
                        "filter": { "type": "string" },
                        "predicate": "required",
                        "purpose": "fp",
                        "name": "fn",
                        "optional": b,
                        "intent_to_retain": !b,
                    }],
                    "limit_disclosure": "preferred",
                },
            },
            { "id": t.clone(), "constraints": { "fields": [{ "path": ["$.c"] }] } },
            { "id": "3", "constraints": {} },
        ],
    });
    js["input_descriptors"][0]["constraints"]["fields"][0]["filter"][vname] = json!(t.clone());
    sym::check(serde_json::to_value(&full).unwrap() == js, "a definition is written with the names and values of the specification");
    let r = serde_json::from_value::<PresentationDefinition>(js);
    sym::check(matches!(&r, Ok(r) if *r == full), "a definition is read from the names and values of the specification");
    let bare = PresentationDefinition { id: t.clone(), ..Default::default() };
    let js = json!({ "id": t.clone(), "input_descriptors": [] });
    sym::check(serde_json::to_value(&bare).unwrap() == js, "members that are not set are not written");
    let r = serde_json::from_value::<PresentationDefinition>(js);
    sym::check(matches!(&r, Ok(r) if *r == bare), "members that are not there are not set");

    let sub = PresentationSubmission {
        id: "s".into(),
        definition_id: t.clone(),
        descriptor_map: vec![DescriptorMap { id: "m".into(), format: "jwt_vp".into(), path: "$".into(), path_nested: PathNested { format: t.clone(), path: "$.vp".into() } }],
    };
    let js = json!({
        "id": "s",
        "definition_id": t.clone(),
        "descriptor_map": [{ "id": "m", "format": "jwt_vp", "path": "$", "path_nested": { "format": t.clone(), "path": "$.vp" } }],
    });
    sym::check(serde_json::to_value(&sub).unwrap() == js, "a submission is written with the names and values of the specification");
    let r = js.to_string().parse::<PresentationSubmission>();
    sym::check(matches!(&r, Ok(r) if *r == sub), "a submission is read from the names and values of the specification");
    sym::cover("names");
}
/// several descriptors, fields and entries, in order; longer texts
#[cfg(feature = "d07")]
#[no_mangle]
pub extern "C" fn d07_many() {
    let n = [1, 2, 3, 8][sym::choose("n", 4)];
    let len = [1, 16, 64, 200][sym::choose("len", 4)];
    let t = format!("{}{}", "q".repeat(len), sym::ascii("t", 1));
    let text = |i: usize| if i + 1 == n { t.clone() } else { format!("i{i}") };
    let d = PresentationDefinition {
        id: "d".into(),
        input_descriptors: (0..n)
            .map(|i| InputDescriptor {
                id: text(i),
                name: None,
                purpose: Some(text(i)),
                format: None,
                constraints: Constraints { fields: Some((0..=i).map(|k| field(&["$.a", &text(k)], filter(FilterValue::Pattern(text(k))))).collect()), limit_disclosure: None },
            })
            .collect(),
        ..Default::default()
    };
    let r: Result<PresentationDefinition, _> = serde_json::from_str(&serde_json::to_string(&d).unwrap());
    sym::check(matches!(&r, Ok(r) if *r == d), "a definition with several descriptors survives JSON");
    let s = PresentationSubmission {
        id: t.clone(),
        definition_id: "d".into(),
        descriptor_map: (0..n)
            .map(|i| DescriptorMap { id: text(i), format: text(i), path: format!("$[{i}]"), path_nested: PathNested { format: "jwt_vc".into(), path: text(i) } })
            .collect(),
    };
    let r: Result<PresentationSubmission, _> = serde_json::to_string(&s).unwrap().parse();
    sym::check(matches!(&r, Ok(r) if *r == s), "a submission with several entries survives JSON");
    sym::cover("many");
}
