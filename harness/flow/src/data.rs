//! What the parties exchange: errors, credentials and presentations as JSON, status lists, mobile documents.
use std::collections::BTreeMap;

use base64ct::{Base64UrlUnpadded, Encoding};
use serde_json::{json, Map, Value};
use vercre_openid::Error;

fn text(name: &str) -> String {
    sym::ascii_upto(name, 0, sym::by_tier(2, 3))
}

// ---- errors
const CODES: [&str; 20] = [
    "invalid_request", "invalid_client", "invalid_grant", "unauthorized_client", "unsupported_grant_type", "invalid_scope", "invalid_authorization_details",
    "access_denied", "unsupported_response_type", "server_error", "temporarily_unavailable", "invalid_credential_request", "unsupported_credential_type",
    "unsupported_credential_format", "invalid_encryption_parameters", "invalid_transaction_id", "vp_formats_not_supported",
    "invalid_presentation_definition_uri", "invalid_presentation_definition_reference", "wallet_unavailable",
];
fn error(i: usize, s: String) -> Error {
    match i {
        0 => Error::InvalidRequest(s),
        1 => Error::InvalidClient(s),
        2 => Error::InvalidGrant(s),
        3 => Error::UnauthorizedClient(s),
        4 => Error::UnsupportedGrantType(s),
        5 => Error::InvalidScope(s),
        6 => Error::InvalidAuthorizationDetails(s),
        7 => Error::AccessDenied(s),
        8 => Error::UnsupportedResponseType(s),
        9 => Error::ServerError(s),
        10 => Error::TemporarilyUnavailable(s),
        11 => Error::InvalidCredentialRequest(s),
        12 => Error::UnsupportedCredentialType(s),
        13 => Error::UnsupportedFormat(s),
        14 => Error::InvalidEncryptionParameters(s),
        15 => Error::InvalidTransactionId(s),
        16 => Error::VpFormatsNotSupported(s),
        17 => Error::InvalidPresentationDefinitionUri(s),
        18 => Error::InvalidPresentationDefinitionReference(s),
        _ => Error::WalletUnavailable(s),
    }
}
/// an error and the JSON the specifications give it
fn any_error() -> (Error, Value) {
    let k = sym::choose("kind", CODES.len() + 2);
    if k < CODES.len() {
        let s = if k == 0 { text("description") } else { sym::ascii_upto("description", 0, 1) };
        let j = json!({ "error": CODES[k], "error_description": s.clone() });
        (error(k, s), j)
    } else if k == CODES.len() {
        let (mut hint, mut c_nonce, mut t) = ("hint".to_string(), "nonce".to_string(), 300);
        match sym::choose("vary", 3) {
            0 => hint = text("hint"),
            1 => c_nonce = text("nonce"),
            _ => t = [0, 1, -1, i64::MAX, i64::MIN][sym::choose("seconds", 5)],
        }
        let j = json!({ "error": "invalid_proof", "error_description": hint.clone(), "c_nonce": c_nonce.clone(), "c_nonce_expires_in": t });
        (Error::InvalidProof { hint, c_nonce, c_nonce_expires_in: t }, j)
    } else {
        let t = [5, 0, 86_400, i64::MAX][sym::choose("interval", 4)];
        (Error::IssuancePending(t), json!({ "error": "issuance_pending", "interval": t }))
    }
}
/// every error as JSON
#[cfg(feature = "e01")]
#[no_mangle]
pub extern "C" fn e01_json() {
    let (e, want) = any_error();
    match sym::choose("how", 3) {
        0 => sym::check(e.to_json() == want, "an error as JSON is its code and what it says"),
        1 => sym::check(serde_json::to_value(&e).ok() == Some(want), "an error is serialised as its code and what it says"),
        _ => sym::check(serde_json::from_str::<Value>(&e.to_string()).ok() == Some(want), "an error as text is its code and what it says, as JSON"),
    }
    sym::cover("error");
}
/// every error as parameters of a redirect
#[cfg(feature = "e01")]
#[no_mangle]
pub extern "C" fn e01_query() {
    let (e, want) = any_error();
    let q = e.to_querystring();
    let mut got: BTreeMap<String, String> = BTreeMap::new();
    for p in q.split('&') {
        let Some((k, v)) = p.split_once('=') else {
            sym::check(false, "an error as a query is a list of parameters");
            return;
        };
        let v = percent_encoding::percent_decode_str(v).decode_utf8_lossy().into_owned();
        sym::check(got.insert(k.to_string(), v).is_none(), "a parameter is there once");
    }
    for k in ["error", "error_description"] {
        let w = want.get(k).and_then(Value::as_str).map(str::to_string);
        sym::check(got.get(k).cloned() == w, "an error as a query has its code and description");
    }
    sym::check(got.keys().all(|k| want.get(k).is_some()), "an error as a query has nothing else");
    sym::cover("query");
}

// ---- status lists
const ENTRIES: usize = 131_072;
const PURPOSES: [&str; 3] = ["revocation", "suspension", "message"];

fn status_list(purpose: &str, size: usize, log: &[Vec<(usize, u64, u64)>]) -> anyhow::Result<String> {
    let log: Vec<Value> = log
        .iter()
        .map(|e| {
            let status: Vec<Value> = e.iter().map(|(p, i, v)| json!({ "purpose": PURPOSES[*p], "list_index": i, "value": v })).collect();
            json!({ "credential_id": "c", "subject_id": "s", "status": status })
        })
        .collect();
    let config = serde_json::from_value(json!({ "purpose": purpose, "list": 0, "size": size })).unwrap();
    vercre_status::bitstring::bitstring(&config, &serde_json::from_value::<Vec<_>>(Value::Array(log)).unwrap())
}
/// two or three statuses at any positions near each other, each for any purpose
#[cfg(feature = "s01")]
#[no_mangle]
pub extern "C" fn s01_list() {
    let purpose = sym::choose("purpose", 3);
    let size = if purpose == 2 { [1, 2, 3, 4, 8][sym::choose("size", 5)] } else { 1 + sym::choose("size", 2) };
    let last = ENTRIES / size - 1;
    // a window of 16 bits at the start, in the middle, or at the end of the list
    let base = [0, 1000, last - 3][sym::choose("base", 3)];
    let n = 2;
    let mut log = vec![];
    let mut want = vec![false; 4 * size];
    let mut used = vec![];
    let same = sym::flip("same credential");
    for i in 0..n {
        let p = if i == 0 { purpose } else { sym::choose("other", 3) };
        let at = sym::choose("at", 4);
        let v = u64::from(sym::u8("value")) & ((1 << size) - 1);
        let v = if purpose == 2 { v } else { v & 1 };
        if p == purpose {
            // an index is given out once per purpose
            sym::assume(!used.contains(&at));
            used.push(at);
            for b in 0..size {
                want[at * size + b] = if purpose == 2 { v >> b & 1 == 1 } else { b == 0 && v != 0 };
            }
        }
        let s = (p, (base + at) as u64, v);
        if same && i > 0 {
            let e: &mut Vec<_> = log.last_mut().unwrap();
            e.push(s);
        } else {
            log.push(vec![s]);
        }
    }
    bitvec::model_window(base * size, 4 * size);
    let got = status_list(PURPOSES[purpose], size, &log);
    let want: String = want.iter().map(|b| if *b { '1' } else { '0' }).collect();
    sym::check(got.is_ok(), "statuses within the list are listed");
    sym::check(got.unwrap() == Base64UrlUnpadded::encode_string(want.as_bytes()), "the list has exactly the statuses of its purpose, each in its place");
    sym::cover(["revocation", "suspension", "message"][purpose]);
}
/// any index, most of them beyond the end of the list
#[cfg(feature = "s01")]
#[no_mangle]
pub extern "C" fn s01_range() {
    let purpose = sym::choose("purpose", 3);
    let size = [1, 2, 3, 8][sym::choose("size", 4)];
    let i = sym::u64("index");
    let value = if purpose == 2 { (1 << size) - 1 } else { 1 };
    bitvec::model_window(0, 8);
    let got = status_list(PURPOSES[purpose], size, &[vec![(purpose, i, value)]]);
    let fits = i <= (ENTRIES / size - 1) as u64;
    sym::check(got.is_ok() == fits, "a status is listed exactly if its index is within the list");
    sym::cover(if got.is_ok() { "listed" } else { "refused" });
}

/// the form of the list: multibase, base64url, compressed bits
#[cfg(feature = "s01")]
#[no_mangle]
pub extern "C" fn s01_encoding() {
    let at = sym::choose("at", 17);
    bitvec::model_window(0, 16);
    let got = status_list("revocation", 1, &[vec![(0, at as u64, 1)]]).unwrap();
    if at == 16 {
        sym::check(!got.is_empty(), "there is a list");
        return sym::cover("encoding");
    }
    let mut want = [0u8; 2];
    want[at / 8] = 0x80 >> (at % 8);
    sym::check(got == format!("u{}", Base64UrlUnpadded::encode_string(&want)), "the encoded list is the multibase form of the compressed bits");
}
/// every error of a status check as JSON
#[cfg(feature = "s01")]
#[no_mangle]
pub extern "C" fn s01_error() {
    use vercre_status::bitstring::Error;
    let d = text("detail");
    let k = sym::choose("kind", 4);
    let e = [Error::Retrieval, Error::Verification, Error::ListLength, Error::Range][k](d.clone());
    let (code, title) = [(-128, "status retrieval error"), (-129, "status verification error"), (-130, "status list length error"), (-67, "range error")][k];
    let want = json!({ "type": format!("https://www.w3.org/ns/credentials/status-list#{code}"), "code": code, "title": title, "detail": d });
    match sym::choose("how", 3) {
        0 => sym::check(e.to_json() == want, "an error as JSON is its code and what it says"),
        1 => sym::check(serde_json::to_value(&e).ok() == Some(want), "an error is serialised as its code and what it says"),
        _ => sym::check(serde_json::from_str::<Value>(&e.to_string()).ok() == Some(want), "an error as text is its code and what it says, as JSON"),
    }
    sym::cover("error");
}

// ---- credentials and presentations
/// members that are null are absent
fn strip(v: Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.into_iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k, strip(v))).collect()),
        Value::Array(a) => Value::Array(a.into_iter().map(strip).collect()),
        v => v,
    }
}
/// one or several of something
fn quota(one: Value, more: Value, name: &str) -> Value {
    match sym::choose(name, 3) {
        0 => one,
        1 => json!([one]),
        _ => json!([one, more]),
    }
}
fn proof(s: &str) -> Value {
    json!({ "type": "DataIntegrityProof", "id": "p", "cryptosuite": "eddsa-jcs-2022", "proofPurpose": "assertionMethod", "verificationMethod": s,
        "created": 1_700_000_000, "expires": 1_700_000_001, "domain": "d", "challenge": "c", "proofValue": "z1", "previousProof": ["a", "b"], "nonce": "n" })
}
/// the members of a credential beyond the required ones; `vary`: the one that is present in any form (the others are as
/// `all` says)
fn credential(vary: usize, all: bool) -> Value {
    let t = |i: usize| if vary == i { text("text") } else { "t".to_string() };
    let mut m = Map::new();
    let mut add = |i: usize, k: &str, v: &dyn Fn() -> Value| {
        if i == vary || all {
            m.insert(k.to_string(), v());
        }
    };
    let pick = |i: usize, v: Vec<Value>| if vary == i { v[sym::choose("form", v.len())].clone() } else { v[0].clone() };
    let one = |i: usize, a: Value, b: Value| if vary == i { quota(a, b, "quota") } else { a };
    add(0, "@context", &|| pick(0, vec![json!(["https://www.w3.org/2018/credentials/v1", t(0)]), json!(["c", { "@vocab": "x", "n": 1 }]), json!([])]));
    add(1, "id", &|| json!(t(1)));
    add(2, "type", &|| pick(2, vec![json!(["VerifiableCredential", t(2)]), json!(t(2)), json!([t(2)])]));
    add(3, "name", &|| pick(3, vec![json!(t(3)), json!({ "@value": t(3), "@language": "en" }), json!([{ "@value": t(3) }, { "@value": "x", "@language": t(3), "@direction": "rtl" }])]));
    add(4, "description", &|| pick(4, vec![json!(t(4)), json!({ "@value": t(4), "@direction": "ltr" })]));
    add(5, "issuer", &|| pick(5, vec![json!(t(5)), json!({ "id": t(5) }), json!({ "id": "i", "name": t(5), "image": { "id": "x" } })]));
    add(6, "credentialSubject", &|| {
        one(6, json!({ "id": t(6), "given_name": t(6), "address": { "city": t(6), "n": [1, 2, { "a": null }] }, "flag": true }), json!({ "email": "e" }))
    });
    add(7, "validFrom", &|| json!(1_700_000_000));
    add(8, "validUntil", &|| json!(1_800_000_000));
    add(9, "credentialStatus", &|| {
        let purpose = if vary == 9 { PURPOSES[sym::choose("purpose", 3)] } else { "revocation" };
        one(
            9,
            json!({ "id": "s", "type": "BitstringStatusListEntry", "statusPurpose": purpose, "statusListIndex": 7, "statusListCredential": "l" }),
            json!({ "type": "BitstringStatusListEntry", "statusPurpose": "message", "statusListIndex": 0, "statusListCredential": "l", "statusSize": 2,
                "statusMessage": [{ "status": "0x0", "message": "m" }], "statusReference": "r" }),
        )
    });
    add(10, "credentialSchema", &|| one(10, json!({ "id": t(10), "type": "JsonSchema" }), json!({ "id": "y", "type": t(10) })));
    add(11, "relatedResource", &|| one(11, json!({ "id": t(11), "mediaType": t(11), "digestSRI": t(11), "digestMultibase": ["a", "b"] }), json!({ "id": "r" })));
    add(12, "refreshService", &|| json!({ "url": t(12), "type": t(12), "refreshToken": t(12) }));
    add(13, "termsOfUse", &|| one(13, json!({ "type": t(13), "id": t(13), "prohibition": [{ "action": ["x"] }] }), json!({ "type": "y" })));
    add(14, "evidence", &|| one(14, json!({ "id": t(14), "type": ["A", "B"], "name": t(14), "description": t(14), "digestSRI": "x", "digestMultibase": "y", "verifier": t(14) }), json!({ "type": ["C"] })));
    add(15, "proof", &|| one(15, proof(&t(15)), proof("second")));
    Value::Object(m)
}
const REQUIRED: [(&str, &str); 4] = [("@context", "[\"c\"]"), ("type", "[\"A\",\"B\"]"), ("issuer", "\"i\""), ("credentialSubject", "{\"id\":\"s\"}")];

/// reading a credential and writing it again keeps every member
#[cfg(feature = "w01")]
#[no_mangle]
pub extern "C" fn w01_credential() {
    let mut j = credential(sym::choose("vary", 16), sym::flip("all"));
    for (k, v) in REQUIRED {
        if j.get(k).is_none() {
            j[k] = serde_json::from_str(v).unwrap();
        }
    }
    let vc: Result<vercre_w3c_vc::model::VerifiableCredential, _> = serde_json::from_value(j.clone());
    sym::check(vc.is_ok(), "a credential can be read");
    let vc = vc.unwrap();
    let back = serde_json::to_value(&vc);
    sym::check(back.is_ok(), "a credential that was read can be written");
    sym::check(strip(back.unwrap()) == strip(j), "a credential survives reading and writing");
    // as what the presentation exchange looks at
    let seen = vercre_dif_exch::Claims::to_json(&vc);
    sym::check(seen.ok() == serde_json::to_value(&vc).ok(), "a presentation definition is applied to the credential as written");
    sym::cover("credential");
}
/// and so does a presentation, as an object, as text, and as encoded text
#[cfg(feature = "w01")]
#[no_mangle]
pub extern "C" fn w01_presentation() {
    let vary = sym::choose("vary", 7);
    let all = sym::flip("all");
    let t = |i: usize| if vary == i { text("text") } else { "t".to_string() };
    let mut j = json!({ "@context": ["c", t(0)], "type": ["VerifiablePresentation", t(1)] });
    if vary == 2 || all {
        j["id"] = json!(t(2));
    }
    if vary == 3 || all {
        let vc = json!({ "@context": ["c"], "type": ["A", "B"], "issuer": "i", "credentialSubject": { "id": "s" } });
        j["verifiableCredential"] = match if vary == 3 { sym::choose("credentials", 4) } else { 0 } {
            0 => json!([t(3)]),
            1 => json!([vc]),
            2 => json!([t(3), vc, "u"]),
            _ => json!([]),
        };
    }
    if vary == 4 || all {
        j["holder"] = json!(t(4));
    }
    if vary == 5 || all {
        j["proof"] = if vary == 5 { quota(proof(&t(5)), proof("second"), "quota") } else { proof("p") };
    }
    let s = serde_json::to_string(&j).unwrap();
    let vp: Option<vercre_w3c_vc::model::VerifiablePresentation> = match sym::choose("how", 3) {
        0 => serde_json::from_value(j.clone()).ok(),
        1 => s.parse().ok(),
        _ => Base64UrlUnpadded::encode_string(s.as_bytes()).parse().ok(),
    };
    sym::check(vp.is_some(), "a presentation can be read");
    let back = serde_json::to_value(vp.unwrap());
    sym::check(back.is_ok(), "a presentation that was read can be written");
    sym::check(strip(back.unwrap()) == strip(j), "a presentation survives reading and writing");
    sym::cover("presentation");
}
/// what is no presentation is an error
#[cfg(feature = "w01")]
#[no_mangle]
pub extern "C" fn w01_text() {
    let s = sym::ascii_upto("text", 0, sym::by_tier(3, 4));
    let s = match sym::choose("prefix", 5) {
        0 => s,
        1 => format!("{{{s}"),
        2 => format!("{{\"@context\":[\"c\"],\"type\":[\"A\",\"B\"],{s}"),
        3 => format!("e30{s}"),
        _ => format!("é{s}"),
    };
    let r: anyhow::Result<vercre_w3c_vc::model::VerifiablePresentation> = s.parse();
    if let Ok(vp) = r {
        sym::check(serde_json::to_string(&vp).is_ok(), "what was read can be written");
        sym::cover("read");
    } else {
        sym::check(s != "{}", "an empty object can be read");
        sym::cover("refused");
    }
}
/// the language of a name
#[cfg(feature = "w01")]
#[no_mangle]
pub extern "C" fn w01_language() {
    use vercre_w3c_vc::model::types::{LangString, LangValue};
    let val = |v: &str, l: Option<String>| LangValue { value: v.to_string(), language: l, direction: None };
    let n = sym::choose("n", 4);
    let lang = |i: usize| if sym::flip("tagged") { Some(["en", "fr", "de"][(i + sym::choose("language", 2)) % 3].to_string()) } else { None };
    let ask = ["en", "fr", "de", ""][sym::choose("ask", 4)];
    let mut have: Vec<(Option<String>, String)> = vec![];
    let mut l = if n == 0 || sym::flip("plain") {
        have.push((None, "v0".into()));
        LangString::new_string("v0")
    } else {
        let k = lang(0);
        have.push((k.clone(), "v0".into()));
        LangString::new_object(val("v0", k))
    };
    let plain = n == 0 || n == 1 && have[0].0.is_none() && serde_json::to_value(&l).unwrap().is_string();
    for i in 1..n {
        let k = lang(i);
        have.push((k.clone(), format!("v{i}")));
        l.add(val(&format!("v{i}"), k));
    }
    let want = if plain { Some("v0".to_string()) } else { have.iter().find(|(k, _)| k.as_deref() == Some(ask)).map(|(_, v)| v.clone()) };
    sym::check(l.len() == have.len(), "every value that was added is there");
    sym::check(l.value(ask).ok() == want, "the value in a language is the first that was added for it");
    let back: LangString = serde_json::from_value(serde_json::to_value(&l).unwrap()).unwrap();
    sym::check(back == l, "values in several languages survive JSON");
    sym::cover("language");
}

// ---- mobile documents
/// what the document says, the digests say, and digest ids are unique whatever the random generator gives
#[cfg(feature = "m01")]
#[no_mangle]
pub extern "C" fn m01_digests() {
    use sha2::{Digest, Sha256};
    sha2::model_plain();
    let n = 1 + sym::choose("claims", 3);
    let spaces = 1 + sym::choose("spaces", 2);
    const DRAWS: [i32; 6] = [0, 7, -7, i32::MIN, i32::MAX, 1 << 30];
    rand::model_draws_i32((0..(n * spaces).min(3)).map(|_| DRAWS[sym::choose("draw", 6)]).collect());
    let value = [json!(""), json!("v"), json!({ "a": [1, "b"] }), json!(true)][if n * spaces < 4 { sym::choose("value", 4) } else { 1 }].clone();
    let mut data = Map::new();
    for sp in 0..spaces {
        let mut m = Map::new();
        for i in 0..n {
            m.insert(format!("claim{i}"), if i == 0 { value.clone() } else { json!({ "n": i, "sp": sp }) });
        }
        data.insert(format!("space{sp}"), Value::Object(m));
    }
    let r = crate::env::run(vercre_iso_mdl::to_credential(data.clone(), crate::env::Key(crate::env::ISSUER_KID)));
    sym::check(r.is_ok(), "a document is made");
    let doc = String::from_utf8(Base64UrlUnpadded::decode_vec(&r.unwrap()).unwrap()).unwrap();
    let texts = objects(&doc);
    let doc: Value = serde_json::from_str(&doc).unwrap();
    let mso = &doc["issuerAuth"];
    let payload = bytes(&mso["payload"]);
    let mso: Value = serde_json::from_slice(&payload).unwrap();
    for (sp, claims) in &data {
        let items = doc["nameSpaces"][sp].as_array().cloned().unwrap_or_default();
        let claims = claims.as_object().unwrap();
        sym::check(items.len() == claims.len(), "every claim is in the document, once");
        let digests = mso["valueDigests"][sp].as_object().cloned().unwrap_or_default();
        sym::check(digests.len() == claims.len(), "every claim has a digest of its own");
        for it in &items {
            let k = it["element_identifier"].as_str().unwrap();
            sym::check(claims.get(k) == Some(&it["element_value"]), "the document has the claims of the data set");
            let id = it["digest_id"].as_i64().unwrap();
            sym::check((0..1 << 31).contains(&id), "digest ids are numbers below 2^31");
            let written = texts.iter().find(|(_, v)| v == it).map(|(t, _)| t.clone()).unwrap();
            let d = Sha256::digest(written.as_bytes()).to_vec();
            let listed = digests.iter().find(|(k, _)| k.parse() == Ok(id)).map(|(_, v)| bytes(v));
            sym::check(listed == Some(d), "the digest of a claim is listed under its id");
        }
    }
    sym::cover("document");
}
fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().map_or(vec![], |a| a.iter().map(|b| b.as_u64().unwrap() as u8).collect())
}

/// the objects in a JSON text that has no braces in strings, as they are written
fn objects(s: &str) -> Vec<(String, Value)> {
    let (mut open, mut out) = (vec![], vec![]);
    for (i, b) in s.bytes().enumerate() {
        if b == b'{' {
            open.push(i);
        } else if b == b'}' {
            let t = &s[open.pop().unwrap()..=i];
            if t.contains("element_identifier") && open.len() < 3 {
                out.push((t.to_string(), serde_json::from_str(t).unwrap()));
            }
        }
    }
    out
}

// ---- status list credentials
#[cfg(feature = "s02")]
#[no_mangle]
pub extern "C" fn s02_credential() {
    let (mut issuer, mut list, mut base, mut bits) = ("http://iss".to_string(), 7_u64, "http://iss/status".to_string(), "H4sIAAAA".to_string());
    let purpose = sym::choose("purpose", 3);
    let mut ttl = None;
    match sym::choose("vary", 6) {
        0 => issuer = format!("i{}", text("issuer")),
        1 => list = [0, 1, 10, u64::MAX][sym::choose("list", 4)],
        2 => base = format!("{}{}", text("base"), ["", "/"][sym::choose("slash", 2)]),
        3 => bits = text("bits"),
        4 => ttl = Some(*[0, 1, 300_000, u64::MAX].get(sym::choose("ttl", 4)).unwrap()),
        _ => {}
    }
    crate::env::now(crate::env::T0);
    let config = serde_json::from_value(json!({ "purpose": PURPOSES[purpose], "list": list, "size": 1 })).unwrap();
    let r = crate::env::run(vercre_status::bitstring::credential(&issuer, &config, &base, &bits, ttl, crate::env::Key(crate::env::ISSUER_KID)));
    sym::check(r.is_ok(), "a status list credential is made");
    let s = vercre_infosec::jose::jws::model_get(&r.unwrap()).unwrap();
    let id = format!("{}/{list}", base.strip_suffix('/').unwrap_or(&base));
    sym::check(s.key == crate::env::key_of(crate::env::ISSUER_KID), "a status list is signed by its Issuer");
    let vc = &s.claims["vc"];
    sym::check(vc["id"] == json!(id) && s.claims["jti"] == json!(id), "a status list is named after where it is published");
    sym::check(vc["issuer"] == json!(issuer) && s.claims["iss"] == json!(issuer), "a status list names its Issuer");
    sym::check(vc["type"] == json!(["VerifiableCredential", "BitstringStatusListCredential"]), "a status list has the type of one");
    let sub = &vc["credentialSubject"];
    sym::check(sub["type"] == json!("BitstringStatusList") && sub["id"] == json!(format!("{id}#list")), "the subject is the list");
    sym::check(sub["encodedList"] == json!(bits), "the credential has the list it was given");
    sym::check(sub["statusPurpose"] == json!(PURPOSES[purpose]), "the credential says what the list is for");
    sym::check(sub["ttl"] == json!(ttl.unwrap_or(vercre_status::bitstring::DEFAULT_TTL)), "the credential says how long the list can be kept");
    sym::check(s.claims["iat"] == json!(crate::env::T0), "the credential says when it was made");
    sym::cover("list");
}

// ---- proofs
/// a credential that was signed is verified to be what was signed
#[cfg(feature = "w02")]
#[no_mangle]
pub extern "C" fn w02_credential() {
    use vercre_w3c_vc::proof::{create, verify, Payload, Verify, W3cFormat};
    let mut j = credential(sym::choose("vary", 16), false);
    for (k, v) in REQUIRED {
        if j.get(k).is_none() {
            j[k] = serde_json::from_str(v).unwrap();
        }
    }
    if sym::flip("no subjects") {
        j["credentialSubject"] = json!([]);
    }
    let vc: vercre_w3c_vc::model::VerifiableCredential = serde_json::from_value(j.clone()).unwrap();
    let issued_at = [0, crate::env::T0, i64::MAX][sym::choose("issued", 3)];
    let k = sym::choose("format", 3);
    let format = [W3cFormat::JwtVcJson, W3cFormat::JwtVcJsonLd, W3cFormat::DataIntegrityJsonLd].into_iter().nth(k).unwrap();
    let r = crate::env::run(create(format, Payload::Vc { vc: vc.clone(), issued_at }, crate::env::Key(crate::env::ISSUER_KID)));
    sym::check(r.is_ok() == (k < 2), "a credential is signed exactly in the formats of signed tokens");
    let Ok(token) = r else {
        sym::cover("refused");
        return;
    };
    let s = vercre_infosec::jose::jws::model_get(&token).unwrap();
    let c = &s.claims;
    let of = |v: &Value| v.as_str().map(str::to_string).or_else(|| v["id"].as_str().map(str::to_string)).unwrap_or_default();
    let sub = if j["credentialSubject"].is_array() { &j["credentialSubject"][0] } else { &j["credentialSubject"] };
    sym::check(c["iss"] == json!(of(&j["issuer"])), "the token names the issuer of the credential");
    sym::check(c["sub"] == json!(of(sub)), "the token names the subject of the credential");
    sym::check(c["jti"] == json!(of(&j["id"])), "the token names the credential");
    sym::check(c["iat"] == json!(issued_at), "the token says when the credential was issued");
    sym::check(c.get("exp") == j.get("validUntil"), "the token ends when the credential does");
    sym::check(s.header.typ == vercre_infosec::jose::jws::Type::Credential, "the token is marked as a credential");
    let token = forge(&token, s);
    let honest = token.1;
    let v = crate::env::run(verify(Verify::Vc(&vercre_core::Kind::String(token.0)), &crate::env::P));
    sym::check(v.is_ok() == honest, "a credential verifies exactly under its signer's key");
    if let Ok(p) = v {
        let Payload::Vc { vc: got, issued_at: at } = p else {
            sym::check(false, "a credential is verified as one");
            return;
        };
        sym::check(got == vc && at == issued_at, "what is verified is what was signed");
        sym::cover("verified");
    }
    let o = crate::env::run(verify(Verify::Vc(&vercre_core::Kind::Object(vc)), &crate::env::P));
    sym::check(o.is_err(), "a credential without a signature does not verify");
}
/// the token, or one that claims the same but is not what its header says; and whether it is genuine
fn forge(token: &str, mut s: vercre_infosec::jose::jws::Signed) -> (String, bool) {
    use vercre_infosec::jose::jws::{model_put, KeyType};
    let honest = match sym::choose("forged", 5) {
        0 => return (token.to_string(), true),
        // signed by someone else, under the name of the signer
        1 => {
            s.key = crate::env::key_of(crate::env::MALLORY_KID).to_string();
            false
        }
        // naming a key nobody has published
        2 => {
            s.header.key = KeyType::KeyId("did:web:iss#other".into());
            false
        }
        // naming a key of someone else
        3 => {
            s.header.key = KeyType::KeyId(crate::env::MALLORY_KID.into());
            false
        }
        _ => {
            s.header.key = KeyType::Jwk(vercre_infosec::jose::jwk::PublicKeyJwk { x: s.key.clone() });
            false
        }
    };
    (model_put(s), honest)
}
/// and so is a presentation
#[cfg(feature = "w02")]
#[no_mangle]
pub extern "C" fn w02_presentation() {
    use vercre_w3c_vc::proof::{create, verify, Payload, Verify, W3cFormat};
    crate::env::now(crate::env::T0);
    let mut j = json!({ "@context": ["c"], "type": ["VerifiablePresentation", "B"] });
    let t = text("text");
    match sym::choose("vary", 4) {
        0 => j["holder"] = json!(t),
        1 => j["id"] = json!(t),
        2 => j["verifiableCredential"] = json!([t, { "@context": ["c"], "type": ["A", "B"], "issuer": "i", "credentialSubject": { "id": "s" } }]),
        _ => {}
    }
    let vp: vercre_w3c_vc::model::VerifiablePresentation = serde_json::from_value(j.clone()).unwrap();
    let (client_id, nonce) = (text("client"), sym::ascii_upto("nonce", 0, 1));
    let r = crate::env::run(create(W3cFormat::JwtVcJson, Payload::Vp { vp: vp.clone(), client_id: client_id.clone(), nonce: nonce.clone() }, crate::env::Key(crate::env::HOLDER_KID)));
    sym::check(r.is_ok(), "a presentation is signed");
    let token = r.unwrap();
    let s = vercre_infosec::jose::jws::model_get(&token).unwrap();
    let c = &s.claims;
    sym::check(c["iss"] == j.get("holder").cloned().unwrap_or(json!("")), "the token names the holder");
    sym::check(c["jti"] == j.get("id").cloned().unwrap_or(json!("")), "the token names the presentation");
    sym::check(c["aud"] == json!(client_id) && c["nonce"] == json!(nonce), "the token is for the Verifier's request");
    sym::check(c["iat"] == json!(crate::env::T0), "the token says when it was made");
    sym::check(c["exp"].as_i64() > Some(crate::env::T0), "the token ends later");
    sym::check(s.header.typ == vercre_infosec::jose::jws::Type::Presentation, "the token is marked as a presentation");
    let (token, honest) = forge(&token, s);
    let v = crate::env::run(verify(Verify::Vp(&vercre_core::Kind::String(token)), &crate::env::P));
    sym::check(v.is_ok() == honest, "a presentation verifies exactly under its holder's key");
    if let Ok(Payload::Vp { vp: got, client_id: a, nonce: n }) = v {
        sym::check(got == vp && a == client_id && n == nonce, "what is verified is what was signed");
        sym::cover("verified");
    }
}
/// builders give what was put in, and refuse what lacks a required member
#[cfg(feature = "w02")]
#[no_mangle]
pub extern "C" fn w02_builders() {
    use vercre_core::{Kind, Quota};
    use vercre_w3c_vc::model::{CredentialSubject, VcBuilder, VpBuilder};
    let (nc, nt) = (sym::choose("contexts", 3), sym::choose("types", 3));
    let ctx: Vec<Value> = ["a", "b"][..nc].iter().map(|c| json!(c)).collect();
    let mut contexts = vec![json!("https://www.w3.org/2018/credentials/v1")];
    contexts.extend(ctx.clone());
    if sym::flip("presentation") {
        let mut b = VpBuilder::new();
        for c in &ctx {
            b = b.add_context(Kind::String(c.as_str().unwrap().into()));
        }
        let mut types = vec!["VerifiablePresentation"];
        for t in &["A", "B"][..nt] {
            b = b.add_type(*t);
            types.push(t);
        }
        let n = sym::choose("credentials", 3);
        let creds = [text("credential"), "d".to_string()];
        for c in &creds[..n] {
            b = b.add_credential(Kind::String(c.clone()));
        }
        let held = sym::flip("holder");
        if held {
            b = b.holder("h");
        }
        let r = b.build();
        sym::check(r.is_ok() == (nc > 0 && nt > 0), "a presentation is built exactly if it has a context and a type of its own");
        let Ok(vp) = r else { return sym::cover("refused") };
        let j = serde_json::to_value(&vp).unwrap();
        sym::check(j["@context"] == json!(contexts) && j["type"] == json!(types), "contexts and types are as added, in order");
        sym::check(j.get("verifiableCredential").cloned() == if n > 0 { Some(json!(creds[..n])) } else { None }, "credentials are as added, in order");
        sym::check(j.get("holder").cloned() == if held { Some(json!("h")) } else { None }, "the holder is as set");
        sym::check(j["id"].as_str().is_some_and(|i| !i.is_empty()), "a presentation has an id");
        sym::cover("presentation");
    } else {
        let mut b = VcBuilder::new();
        for c in &ctx {
            b = b.add_context(Kind::String(c.as_str().unwrap().into()));
        }
        let mut types = vec!["VerifiableCredential"];
        for t in &["A", "B"][..nt] {
            b = b.add_type(*t);
            types.push(t);
        }
        let iss = if sym::flip("issuer") { text("name") } else { "i".into() };
        b = b.issuer(iss.clone());
        let n = sym::choose("subjects", 4);
        let mut subs = vec![];
        for i in 0..n {
            let t = if i == 0 { text("subject") } else { format!("s{i}") };
            let s = if sym::flip("named") { json!({ "id": t }) } else { json!({ "name": t }) };
            b = b.add_subject(serde_json::from_value::<CredentialSubject>(s.clone()).unwrap());
            subs.push(s);
        }
        let id = sym::flip("id");
        if id {
            b = b.id("x");
        }
        let r = b.build();
        sym::check(r.is_ok() == (nc > 0 && nt > 0 && !iss.is_empty() && n > 0), "a credential is built exactly if it has a context and type of its own, an issuer and a subject");
        let Ok(vc) = r else { return sym::cover("refused") };
        let j = strip(serde_json::to_value(&vc).unwrap());
        sym::check(j["@context"] == json!(contexts) && j["type"] == json!(types), "contexts and types are as added, in order");
        sym::check(j["issuer"] == json!(iss), "the issuer is as set");
        sym::check(j["credentialSubject"] == if n == 1 { subs[0].clone() } else { json!(subs) }, "subjects are as added, in order");
        sym::check(j.get("id").cloned() == if id { Some(json!("x")) } else { None }, "the id is as set");
        sym::cover("credential");
    }
}
