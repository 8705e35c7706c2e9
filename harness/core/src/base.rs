//! Kind and Quota
use serde_json::{json, Value};
use vercre_core::{Kind, Quota};

#[derive(Clone, Debug, Default, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Item {
    pub id: String,
}
fn item(name: &str) -> Item {
    Item { id: sym::ascii_upto(name, 0, 2) }
}

/// string-or-object: JSON in, value, JSON out
#[cfg(feature = "b01")]
#[no_mangle]
pub extern "C" fn b01_kind() {
    if sym::flip("object") {
        let it = item("i");
        let js = json!({"id": it.id.clone()});
        let k: Kind<Item> = serde_json::from_value(js.clone()).unwrap();
        sym::check(k == Kind::Object(it), "an object is read as an object");
        sym::check(k.is_object() && !k.is_string(), "kind predicates");
        sym::check(serde_json::to_value(&k).unwrap() == js, "an object is written as it was read");
        sym::cover("object");
    } else {
        let s = sym::ascii_upto("s", 0, 3);
        let js = Value::String(s.clone());
        let k: Kind<Item> = serde_json::from_value(js.clone()).unwrap();
        sym::check(k == Kind::String(s), "a string is read as a string");
        sym::check(k.is_string() && !k.is_object(), "kind predicates");
        sym::check(serde_json::to_value(&k).unwrap() == js, "a string is written as it was read");
        sym::cover("string");
    }
}

fn parts(q: &Quota<Item>) -> Vec<Item> {
    match q {
        Quota::One(x) => vec![x.clone()],
        Quota::Many(v) => v.clone(),
    }
}

/// one-or-many: JSON in, value, JSON out
#[cfg(feature = "b01")]
#[no_mangle]
pub extern "C" fn b01_quota() {
    let n = sym::choose("n", 4);
    let items: Vec<Item> = (0..n).map(|_| Item { id: sym::ascii("i", 1) }).collect();
    let single = n == 1 && sym::flip("single");
    let js = if single { json!({"id": items[0].id.clone()}) } else { Value::Array(items.iter().map(|i| json!({"id": i.id.clone()})).collect()) };
    let q: Quota<Item> = serde_json::from_value(js.clone()).unwrap();
    sym::check(parts(&q) == items, "items are read in order");
    sym::check(q.is_one() == single && q.is_many() != single, "quota predicates");
    sym::check(q.len() == n && q.is_empty() == (n == 0), "quota length");
    sym::check(serde_json::to_value(&q).unwrap() == js, "a quota is written as it was read");
    sym::cover("quota");
}

/// adding never loses, reorders or rewrites what is already there
#[cfg(feature = "b01")]
#[no_mangle]
pub extern "C" fn b01_quota_add() {
    let n = sym::choose("n", 4);
    let mut items: Vec<Item> = (0..n).map(|_| Item { id: sym::ascii("i", 1) }).collect();
    let mut q = if n == 1 && sym::flip("single") { Quota::One(items[0].clone()) } else { Quota::Many(items.clone()) };
    for _ in 0..sym::by_tier(3, 4) {
        let x = Item { id: sym::ascii("x", 1) };
        q.add(x.clone());
        items.push(x);
        sym::check(parts(&q) == items, "add appends the item and keeps the others");
        sym::check(q.len() == items.len() && !q.is_empty() && q.is_many(), "length after add");
    }
    sym::cover("added");
}

#[derive(Clone, Debug, Default, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Pair {
    pub n: u8,
    pub id: String,
}
/// one-or-many of string-or-object, as contexts and schemas are written
#[cfg(feature = "b01")]
#[no_mangle]
pub extern "C" fn b01_mixed() {
    let n = sym::choose("n", 4);
    let mut js = vec![];
    let mut want = vec![];
    for _ in 0..n {
        let t = sym::ascii("t", 1);
        if sym::flip("object") {
            js.push(json!({ "n": 1, "id": t.clone() }));
            want.push(Kind::Object(Pair { n: 1, id: t }));
        } else {
            js.push(json!(t.clone()));
            want.push(Kind::String(t));
        }
    }
    let single = n == 1 && sym::flip("single");
    let js = if single { js[0].clone() } else { Value::Array(js) };
    let q: Quota<Kind<Pair>> = serde_json::from_value(js.clone()).unwrap();
    sym::check(q.is_one() == single, "one item is read as one item");
    let got = match &q {
        Quota::One(k) => vec![k.clone()],
        Quota::Many(v) => v.clone(),
    };
    sym::check(got == want, "items are read in order, in their form");
    sym::check(serde_json::to_value(&q).unwrap() == js, "mixed items are written as they were read");
    sym::cover("mixed");
}
/// longer texts and collections, non-ASCII text
#[cfg(feature = "b01")]
#[no_mangle]
pub extern "C" fn b01_long() {
    let n = [5, 8, 16, 40, 130][sym::choose("n", 5)];
    let t = format!("{}{}", ["q", "\u{e9}", "\""][sym::choose("fill", 3)].repeat(n * 4), sym::ascii("t", 1));
    let k: Kind<Item> = serde_json::from_value(json!(t.clone())).unwrap();
    sym::check(k == Kind::String(t.clone()) && serde_json::to_value(&k).unwrap() == json!(t.clone()), "a longer string is kept");
    let k: Kind<Item> = serde_json::from_value(json!({ "id": t.clone() })).unwrap();
    sym::check(k == Kind::Object(Item { id: t.clone() }), "a longer object is kept");
    let mut items: Vec<Item> = (0..n).map(|i| Item { id: i.to_string() }).collect();
    let js = serde_json::to_value(&items).unwrap();
    let mut q: Quota<Item> = serde_json::from_value(js.clone()).unwrap();
    sym::check(serde_json::to_value(&q).unwrap() == js && q.len() == n, "a longer collection is kept");
    q.add(Item { id: t.clone() });
    q.add(items[0].clone());
    items.push(Item { id: t });
    items.push(items[0].clone());
    sym::check(parts(&q) == items, "add appends to a longer collection");
    sym::cover("long");
}
/// what a collection holds by default, and adding to one that was read
#[cfg(feature = "b01")]
#[no_mangle]
pub extern "C" fn b01_default() {
    let mut q = Quota::<Item>::default();
    sym::check(q.is_one() && q.len() == 1 && !q.is_empty(), "a default is one item");
    let x = item("x");
    q.add(x.clone());
    sym::check(parts(&q) == vec![Item::default(), x.clone()], "adding to a default keeps it");
    let mut q: Quota<Item> = serde_json::from_value(json!([])).unwrap();
    q.add(x.clone());
    sym::check(parts(&q) == vec![x.clone()], "adding to an empty collection");
    sym::check(serde_json::to_value(&q).unwrap() == json!([{ "id": x.id.clone() }]), "a collection of one item stays a collection");
    let mut q: Quota<Item> = serde_json::from_value(json!({ "id": x.id.clone() })).unwrap();
    q.add(x.clone());
    sym::check(serde_json::to_value(&q).unwrap() == json!([{ "id": x.id.clone() }, { "id": x.id.clone() }]), "equal items are all kept");
    sym::cover("default");
}
