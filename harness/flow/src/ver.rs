//! the Verifier's endpoints
use crate::env::*;
use serde_json::{json, Value};
use vercre_infosec::jose::jws::{model_get, model_put, Header, KeyType, Signed, Type};
use vercre_infosec::Algorithm;
use vercre_openid::verifier::*;

pub const VER: &str = "http://ver";

pub fn verifier() {
    let v: Verifier = serde_json::from_value(json!({"client_id": VER, "redirect_uris": ["http://ver/cb"], "vp_formats": {"jwt_vp_json": {"alg": ["EdDSA"]}}})).unwrap();
    with(|w| w.verifier = Some(v));
    now(T0);
}
pub fn descriptor(id: &str, ty: &str) -> Value {
    json!({"id": id, "constraints": {"fields": [{"path": ["$.type"], "filter": {"type": "string", "const": ty}}]}})
}
pub fn request(descs: Vec<Value>, cross: bool, client: &str) -> vercre_openid::Result<CreateRequestResponse> {
    let r: CreateRequestRequest = serde_json::from_value(json!({
        "client_id": client, "purpose": "why", "input_descriptors": descs, "device_flow": if cross { "CrossDevice" } else { "SameDevice" }
    }))
    .expect("a request parses");
    run(vercre_verifier::create_request(P, &r))
}
/// the request object the wallet sees
pub fn fetch(r: &CreateRequestResponse) -> Value {
    if let Some(o) = &r.request_object {
        return serde_json::to_value(o).unwrap();
    }
    let id = r.request_uri.as_ref().unwrap().rsplit('/').next().unwrap().to_string();
    let o = run(vercre_verifier::request_object(P, &RequestObjectRequest { client_id: VER.into(), id })).expect("the request can be fetched");
    let v = serde_json::to_value(&o).unwrap();
    model_get(v.as_str().expect("the request is a signed token")).unwrap().claims
}

/// what is asked for is what the wallet gets to see
#[cfg(feature = "v01")]
#[no_mangle]
pub extern "C" fn v01_request() {
    verifier();
    let cross = sym::flip("cross");
    let client = match sym::choose("client", 2) {
        0 => VER,
        _ => "http://who",
    };
    let n = sym::choose("descriptors", 3);
    let ds: Vec<Value> = (0..n).map(|i| descriptor(["one", "two"][i], ["EmpCredential", "DevCredential"][i])).collect();
    let res = request(ds.clone(), cross, client);
    let Ok(r) = res else {
        sym::check(n == 0 || client != VER, "an admissible request can be made");
        sym::check(with(|w| w.state.is_empty()), "a refused request leaves nothing behind");
        sym::cover("refused");
        return;
    };
    sym::check(n > 0 && client == VER, "a request is made only by a known Verifier for some credential");
    sym::check(r.request_object.is_some() != cross && r.request_uri.is_some() == cross, "the request is sent as asked");
    if let Some(u) = &r.request_uri {
        sym::check(u.starts_with("http://ver/request/"), "the request is fetched from the Verifier");
    }
    let o = fetch(&r);
    let d = &o["presentation_definition"];
    let mut got = vec![];
    for x in d["input_descriptors"].as_array().unwrap() {
        got.push(x.clone());
    }
    sym::check(got.len() == n, "the wallet is asked for what was asked for");
    for i in 0..n {
        sym::check(got[i]["id"] == ds[i]["id"] && got[i]["constraints"]["fields"][0]["filter"]["const"] == ds[i]["constraints"]["fields"][0]["filter"]["const"] && got[i]["constraints"]["fields"][0]["path"] == json!(["$.type"]), "the wallet is asked for what was asked for");
    }
    sym::check(o["response_type"] == json!("vp_token") && d["purpose"] == json!("why"), "the request says what it is for");
    sym::check(o["nonce"].as_str().is_some_and(|n| !n.is_empty()) && d["id"].as_str().is_some_and(|n| !n.is_empty()), "the request has a nonce and a definition id");
    let st = o["state"].as_str().expect("a state").to_string();
    sym::check(state_keys() == vec![st], "the state of the request is the key it is kept under");
    if cross {
        sym::check(o["response_mode"] == json!("direct_post") && o["response_uri"] == json!("http://ver/post"), "the response goes to the Verifier");
    } else {
        sym::check(o.get("response_uri").is_none(), "a same-device response is not posted");
    }
    // a second request shares nothing
    let o2 = fetch(&request(ds, cross, VER).expect("a second request"));
    sym::check(o2["nonce"] != o["nonce"] && o2["state"] != o["state"] && o2["presentation_definition"]["id"] != d["id"], "each request has its own nonce, state and definition id");
    sym::cover("requested");
}

/// who gets to fetch a request object
#[cfg(feature = "v01")]
#[no_mangle]
pub extern "C" fn v01_fetch() {
    verifier();
    let cross = sym::flip("cross");
    let r = request(vec![descriptor("one", "EmpCredential")], cross, VER).expect("a request");
    let st = state_keys()[0].clone();
    let t = sym::range("t", 0, 2000);
    now(T0 + t);
    let id = match sym::choose("id", 2) {
        0 => st.clone(),
        _ => sym::ascii("id", 3),
    };
    let known = id == st;
    let client = match sym::choose("client", 4) {
        0 => VER,
        1 => "http://who",
        2 => "",
        _ => "http://ver/post",
    };
    let before = with(|w| w.state.clone());
    match run(vercre_verifier::request_object(P, &RequestObjectRequest { client_id: client.into(), id })) {
        Ok(o) => {
            sym::check(known && client == VER && cross, "only the cross-device request of that Verifier is given");
            sym::check(t <= 300, "an expired request is not given");
            let v = serde_json::to_value(&o).unwrap();
            let s = model_get(v.as_str().unwrap()).unwrap();
            sym::check(s.key == key_of(VERIFIER_KID) && s.header.typ == Type::Request, "the request is signed by the Verifier");
            sym::check(s.claims["client_id"] == json!("http://ver/post"), "the request names the Verifier");
            sym::cover("given");
        }
        Err(_) => {
            sym::check(!(known && client == VER && cross && t < 300), "a request can be fetched");
            sym::cover("refused");
        }
    }
    sym::check(with(|w| w.state.clone()) == before, "fetching changes nothing");
    let _ = r;
}

// ---- responses
pub fn sign(kid: &str, key: &str, typ: Type, claims: Value) -> String {
    model_put(Signed { header: Header { alg: Algorithm::EdDSA, typ, key: KeyType::KeyId(kid.into()) }, claims, key: key.into() })
}
pub fn vc_json(ty: &str, subject: &str) -> Value {
    json!({
        "@context": ["https://www.w3.org/2018/credentials/v1", "http://iss/credentials/v1"], "id": format!("http://iss/credentials/{ty}"),
        "type": ["VerifiableCredential", ty], "issuer": ISS, "credentialSubject": {"id": subject, "a": "A1"}
    })
}
pub fn vc_jwt(vc: Value, kid: &str, key: &str) -> String {
    sign(kid, key, Type::Credential, json!({"sub": vc["credentialSubject"]["id"], "nbf": null, "iss": vc["issuer"], "iat": T0, "jti": vc["id"], "vc": vc}))
}
pub fn vp_json(vcs: &[Value]) -> Value {
    json!({
        "@context": ["https://www.w3.org/2018/credentials/v1", "https://www.w3.org/2018/credentials/examples/v1"], "id": "urn:vp1",
        "type": ["VerifiablePresentation", "P"], "verifiableCredential": vcs, "holder": HOLDER_DID
    })
}
pub fn vp_jwt(vp: Value, aud: &Value, nonce: &str, kid: &str, key: &str) -> String {
    sign(kid, key, Type::Presentation, json!({"iss": HOLDER_DID, "jti": "urn:vp1", "aud": aud, "nonce": nonce, "nbf": T0, "iat": T0, "exp": T0 + 3600, "vp": vp}))
}
pub fn mapping(id: &str, path: &str, format: &str) -> Value {
    json!({"id": id, "format": "jwt_vp_json", "path": "$", "path_nested": {"format": format, "path": path}})
}
fn respond(v: Value) -> vercre_openid::Result<ResponseResponse> {
    let r: ResponseRequest = serde_json::from_value(v).expect("a response parses");
    run(vercre_verifier::response(P, &r))
}

struct Plan {
    nonce: String,
    vp_kid: &'static str,
    vp_key: &'static str,
    vcs: Vec<Value>,
    maps: Vec<Value>,
    body: Value,
    extra_vp: Option<Value>,
    refuse: bool,
    /// the credential's validity, in seconds from the start
    until: Option<i64>,
    t: i64,
    array: bool,
    vp_typ_vc: bool,
}
const M: usize = 28;
const GROUP: [usize; M] = [0, 1, 1, 2, 2, 3, 4, 5, 5, 5, 6, 7, 8, 8, 9, 10, 11, 12, 13, 10, 8, 14, 3, 3, 9, 7, 11, 15];

/// exactly which responses are accepted
#[cfg(feature = "v02")]
#[no_mangle]
pub extern "C" fn v02_exact() {
    verifier();
    let mut d1 = descriptor("one", "EmpCredential");
    d1["format"] = json!({"jwt_vc": {"alg": ["EdDSA"]}, "jwt_vc_json": {"alg": ["EdDSA"]}});
    let r = request(vec![d1, descriptor("two", "DevCredential")], sym::flip("cross"), VER).expect("a request");
    let other = fetch(&request(vec![descriptor("one", "EmpCredential")], true, VER).expect("another request"));
    let o = fetch(&r);
    let a = sym::choose("first", M);
    let b = sym::choose("second", M);
    sym::assume(a <= b && (a == b || GROUP[a] != GROUP[b]));
    // several presentations in one response are combined with nothing else
    let multi = |d: usize| d == 22 || d == 23;
    sym::assume(a == b || !(multi(a) || multi(b)) || a == 0);
    let mut p = Plan {
        nonce: o["nonce"].as_str().unwrap().into(),
        vp_kid: HOLDER_KID,
        vp_key: "kh",
        vcs: vec![json!(null), json!(null)],
        maps: vec![mapping("one", "$.verifiableCredential[0]", "jwt_vc_json"), mapping("two", "$.verifiableCredential[1]", "jwt_vc_json")],
        body: json!({"state": o["state"]}),
        extra_vp: None,
        refuse: false,
        until: None,
        t: 0,
        array: false,
        vp_typ_vc: false,
    };
    let mut def_id = o["presentation_definition"]["id"].clone();
    let mut vc1 = vc_json("EmpCredential", HOLDER_DID);
    let mut vc2 = vc_json("DevCredential", HOLDER_DID);
    let (mut k1, mut k2) = ("ki", "ki");
    let mut aud = o["client_id"].clone();
    let mut unsigned = false;
    let mut drop_tok = false;
    let mut drop_subm = false;
    let mut empty = false;
    let devs = if a == b { vec![a] } else { vec![a, b] };
    for d in devs {
        let mut bad = true;
        match d {
            0 => bad = false,
            1 => p.nonce = "n-other".into(),
            2 => p.nonce = other["nonce"].as_str().unwrap().into(),
            3 => p.vp_key = "km",
            4 => p.vp_kid = "did:key:x#x",
            5 => drop_tok = true,
            6 => drop_subm = true,
            7 => {
                p.body.as_object_mut().unwrap().remove("state");
            }
            8 => p.body["state"] = json!("nosuchstate"),
            9 => p.body["state"] = other["state"].clone(),
            10 => def_id = other["presentation_definition"]["id"].clone(),
            11 => {
                p.maps.remove(1);
            }
            12 => p.maps[0]["path_nested"]["path"] = json!("$.verifiableCredential[7]"),
            13 => p.maps[0]["path_nested"]["path"] = json!("$.verifiableCredential[*]"),
            14 => p.maps[0]["path_nested"]["format"] = json!("ldp_vc"),
            15 => k1 = "km",
            16 => vc1["type"] = json!(["VerifiableCredential", "OddCredential"]),
            17 => {
                // the second credential's validity: before, at or after the time of the response
                let until = sym::range("until", -400, 400);
                p.until = Some(until);
                bad = false;
                vc2["validUntil"] = json!(T0 + until);
            }
            18 => k2 = "km",
            19 => unsigned = true,
            20 => p.maps[0]["path_nested"]["path"] = json!("$.verifiableCredential[1]"),
            21 => {
                bad = false;
                p.t = sym::range("t", 0, 1000);
                now(T0 + p.t);
            }
            22 => {
                // two presentations, one of another nonce
                p.array = true;
                p.extra_vp = Some(json!(vp_jwt(vp_json(&[]), &o["client_id"], "n-other", HOLDER_KID, "kh")));
            }
            23 => {
                // two presentations, both of this nonce
                bad = false;
                p.array = true;
                p.extra_vp = Some(json!(vp_jwt(vp_json(&[]), &o["client_id"], &p.nonce, HOLDER_KID, "kh")));
            }
            24 => {
                bad = false;
                p.maps[0]["path_nested"]["format"] = json!("jwt_vc");
            }
            25 => {
                bad = false;
                p.maps.insert(0, mapping("three", "$.verifiableCredential[7]", "jwt_vc_json"));
            }
            26 => {
                bad = false;
                vc1["credentialSubject"]["b"] = json!("B");
            }
            27 => aud = json!("http://who/post"),
            _ => unreachable!(),
        }
        p.refuse |= bad;
    }
    let _ = &mut empty;
    p.vcs[0] = if unsigned { vc1.clone() } else { json!(vc_jwt(vc1, ISSUER_KID, k1)) };
    p.vcs[1] = json!(vc_jwt(vc2, ISSUER_KID, k2));
    if p.array {
        for m in p.maps.iter_mut() {
            let s = m["path_nested"]["path"].as_str().unwrap().replacen("$", "$[0]", 1);
            m["path_nested"]["path"] = json!(s);
        }
    }
    let vp = vp_jwt(vp_json(&p.vcs), &aud, &p.nonce, p.vp_kid, p.vp_key);
    if !drop_tok {
        let mut toks = vec![json!(vp)];
        if let Some(e) = p.extra_vp.clone() {
            toks.push(e);
        }
        p.body["vp_token"] = json!(toks);
    }
    if !drop_subm {
        p.body["presentation_submission"] = json!({"id": "sub", "definition_id": def_id, "descriptor_map": p.maps});
    }
    let before = with(|w| w.state.clone());
    let until_bad = p.until.is_some_and(|u| u < p.t);
    let until_edge = p.until.is_some_and(|u| u == p.t);
    match respond(p.body.clone()) {
        Ok(_) => {
            sym::check(!p.refuse, "an inadmissible response is refused");
            sym::check(!until_bad, "an expired credential is refused");
            sym::check(p.t <= 300, "a response to an expired request is refused");
            let st = o["state"].as_str().unwrap().to_string();
            sym::check(!state_keys().contains(&st), "an answered request is forgotten");
            sym::check(respond(p.body.clone()).is_err(), "a response is accepted once");
            sym::cover("accepted");
        }
        Err(_) => {
            sym::check(p.refuse || until_bad || until_edge || p.t >= 300, "an admissible response is accepted");
            sym::check(with(|w| w.state.clone()) == before, "a refused response leaves the request open");
            sym::cover("refused");
        }
    }
    let _ = p.vp_typ_vc;
}

/// no presentation, no acceptance
#[cfg(feature = "v02")]
#[no_mangle]
pub extern "C" fn v02_empty() {
    verifier();
    let o = fetch(&request(vec![descriptor("one", "EmpCredential")], true, VER).expect("a request"));
    let maps = match sym::choose("maps", 3) {
        0 => json!([]),
        1 => json!([mapping("one", "$", "jwt_vc_json")]),
        _ => json!([mapping("one", "$[0]", "jwt_vc_json")]),
    };
    let toks = match sym::choose("tokens", 4) {
        0 => json!([]),
        1 => json!([vp_jwt(vp_json(&[]), &o["client_id"], o["nonce"].as_str().unwrap(), HOLDER_KID, "kh")]),
        // a credential where a presentation is due
        2 => json!([vc_jwt(vc_json("EmpCredential", HOLDER_DID), ISSUER_KID, "ki")]),
        // garbage
        _ => json!([sym::ascii("token", 4)]),
    };
    let res = respond(json!({"state": o["state"], "vp_token": toks, "presentation_submission": {"id": "sub", "definition_id": o["presentation_definition"]["id"], "descriptor_map": maps}}));
    sym::check(res.is_err(), "a response without the requested credential is refused");
    sym::cover("refused");
}

/// only the subject of a credential can present it
#[cfg(feature = "v02")]
#[no_mangle]
pub extern "C" fn v02_holder() {
    verifier();
    let o = fetch(&request(vec![descriptor("one", "EmpCredential")], true, VER).expect("a request"));
    let nonce = o["nonce"].as_str().unwrap();
    let thief = sym::flip("thief");
    let vc = json!(vc_jwt(vc_json("EmpCredential", HOLDER_DID), ISSUER_KID, "ki"));
    let (kid, key) = if thief { (MALLORY_KID, "km") } else { (HOLDER_KID, "kh") };
    let mut vp = vp_json(&[vc]);
    if thief {
        vp["holder"] = json!(MALLORY_DID);
    }
    let body = json!({"state": o["state"], "vp_token": [vp_jwt(vp, &o["client_id"], nonce, kid, key)], "presentation_submission": {"id": "sub", "definition_id": o["presentation_definition"]["id"], "descriptor_map": [mapping("one", "$.verifiableCredential[0]", "jwt_vc_json")]}});
    let ok = respond(body).is_ok();
    if thief {
        sym::check(!ok, "a credential presented by someone other than its subject is refused");
    } else {
        sym::check(ok, "a credential presented by its subject is accepted");
    }
    sym::cover(if ok { "accepted" } else { "refused" });
}
/// a presentation for another Verifier is not accepted
#[cfg(feature = "v02")]
#[no_mangle]
pub extern "C" fn v02_audience() {
    verifier();
    let o = fetch(&request(vec![descriptor("one", "EmpCredential")], true, VER).expect("a request"));
    let nonce = o["nonce"].as_str().unwrap();
    let vc = json!(vc_jwt(vc_json("EmpCredential", HOLDER_DID), ISSUER_KID, "ki"));
    let elsewhere = sym::flip("elsewhere");
    let aud = if elsewhere { "http://who/post" } else { "http://ver/post" };
    let tok = sign(HOLDER_KID, "kh", Type::Presentation, json!({"iss": HOLDER_DID, "jti": "urn:vp1", "aud": aud, "nonce": nonce, "nbf": T0, "iat": T0, "exp": T0 + 3600, "vp": vp_json(&[vc])}));
    let body = json!({"state": o["state"], "vp_token": [tok], "presentation_submission": {"id": "sub", "definition_id": o["presentation_definition"]["id"], "descriptor_map": [mapping("one", "$.verifiableCredential[0]", "jwt_vc_json")]}});
    let ok = respond(body).is_ok();
    sym::check(ok == !elsewhere, "a presentation made for another Verifier is refused");
    sym::cover(if ok { "accepted" } else { "refused" });
}
/// a presentation whose proof is embedded is accepted only if the proof is the holder's
#[cfg(feature = "v02")]
#[no_mangle]
pub extern "C" fn v02_embedded() {
    verifier();
    let o = fetch(&request(vec![descriptor("one", "EmpCredential")], true, VER).expect("a request"));
    let vc = json!(vc_jwt(vc_json("EmpCredential", HOLDER_DID), ISSUER_KID, "ki"));
    let mut vp = vp_json(&[vc]);
    let challenge = if sym::flip("challenge") { o["nonce"].clone() } else { json!("other") };
    vp["proof"] = json!({"type": "DataIntegrityProof", "challenge": challenge, "proofValue": "forged"});
    let body = json!({"state": o["state"], "vp_token": [vp], "presentation_submission": {"id": "sub", "definition_id": o["presentation_definition"]["id"], "descriptor_map": [mapping("one", "$.verifiableCredential[0]", "jwt_vc_json")]}});
    let ok = respond(body).is_ok();
    sym::check(!ok, "a presentation with a forged embedded proof is refused");
    sym::cover(if ok { "accepted" } else { "refused" });
}
/// the Verifier's metadata
#[cfg(feature = "v01")]
#[no_mangle]
pub extern "C" fn v01_metadata() {
    verifier();
    let known = sym::flip("known");
    let id = if known { VER.to_string() } else { sym::ascii("id", 3) };
    let m = run(vercre_verifier::metadata(P, &MetadataRequest { client_id: id }));
    sym::check(m.is_ok() == known, "metadata is given for the Verifier asked for, and only if there is one");
    if let Ok(m) = m {
        sym::check(m.client == with(|w| w.verifier.clone().unwrap()), "the metadata is the Verifier's own");
        sym::cover("metadata");
    }
}

/// whichever store operation fails, a request is answered at most once
#[cfg(feature = "v02")]
#[no_mangle]
pub extern "C" fn v02_faults() {
    verifier();
    let o = fetch(&request(vec![descriptor("one", "EmpCredential")], sym::flip("cross"), VER).expect("a request"));
    let vc = json!(vc_jwt(vc_json("EmpCredential", HOLDER_DID), ISSUER_KID, "ki"));
    let body = json!({
        "state": o["state"],
        "vp_token": [vp_jwt(vp_json(&[vc]), &o["client_id"], o["nonce"].as_str().unwrap(), HOLDER_KID, "kh")],
        "presentation_submission": {"id": "sub", "definition_id": o["presentation_definition"]["id"], "descriptor_map": [mapping("one", "$.verifiableCredential[0]", "jwt_vc_json")]}
    });
    faults(sym::choose("fault", 9), sym::flip("dies"));
    let mut n = 0;
    for i in 0..3 {
        n += respond(body.clone()).is_ok() as usize;
        recover();
        if i == 0 && n == 0 {
            sym::check(faulted(), "an admissible response is accepted if nothing fails");
        }
    }
    sym::check(n == 1, "a request is answered exactly once, failures notwithstanding");
    sym::cover("answered");
}
