//! Protocol messages on the wire: as JSON, and as query strings.
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Map, Value};
use vercre_core::urlencode;
use vercre_openid::{issuer, verifier};

fn text(name: &str) -> String {
    sym::ascii_upto(name, 0, 1)
}
fn pick<T: Clone>(name: &str, of: &[T]) -> T {
    of[sym::choose(name, of.len())].clone()
}
/// members that are null are absent
pub fn strip(v: Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.into_iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k, strip(v))).collect()),
        Value::Array(a) => Value::Array(a.into_iter().map(strip).collect()),
        v => v,
    }
}
/// a message is read, and written the way it was
fn json<T: Serialize + DeserializeOwned>(j: Value) -> T {
    let m: Result<T, _> = serde_json::from_value(j.clone());
    sym::check(m.is_ok(), "a message can be read");
    let m = m.unwrap();
    let back = serde_json::to_value(&m);
    sym::check(back.is_ok(), "a message that was read can be written");
    sym::check(strip(back.unwrap()) == strip(j.clone()), "a message survives reading and writing");
    let s: Result<T, _> = serde_json::from_str(&serde_json::to_string(&j).unwrap());
    sym::check(s.is_ok(), "a message can be read from text");
    sym::check(serde_json::to_value(s.unwrap()).ok() == serde_json::to_value(&m).ok(), "a message is the same read from text");
    sym::cover("message");
    m
}
/// the members of a message: required ones always, the others alone (the one that is varied) or all
struct Msg {
    m: Map<String, Value>,
    vary: usize,
    all: bool,
    n: usize,
}
impl Msg {
    fn new(n: usize) -> Self {
        Self { m: Map::new(), vary: sym::choose("vary", n), all: sym::flip("all"), n: 0 }
    }
    /// an optional member of any of these forms
    fn opt(&mut self, k: &str, v: &[fn(&str) -> Value]) -> &mut Self {
        let mine = self.vary == self.n;
        self.n += 1;
        if mine {
            self.m.insert(k.into(), v[sym::choose("form", v.len())](&text("text")));
        } else if self.all {
            self.m.insert(k.into(), v[0]("t"));
        }
        self
    }
    fn req(&mut self, k: &str, v: &[fn(&str) -> Value]) -> &mut Self {
        let all = std::mem::replace(&mut self.all, true);
        self.opt(k, v);
        self.all = all;
        self
    }
    /// members that come together: any of these forms
    fn one(&mut self, v: &[fn(&str) -> Value]) -> &mut Self {
        let mine = self.vary == self.n;
        self.n += 1;
        let o = if mine { v[sym::choose("form", v.len())](&text("text")) } else { v[0]("t") };
        let Value::Object(o) = o else { unreachable!() };
        self.m.extend(o);
        self
    }
    fn texts(&mut self, ks: &[&str]) -> &mut Self {
        for k in ks {
            self.opt(k, &[|t| json!(t)]);
        }
        self
    }
    fn done(&mut self) -> Value {
        Value::Object(std::mem::take(&mut self.m))
    }
}
const CLAIMS: [fn(&str) -> Value; 3] = [
    |t| json!({ "given_name": {}, "email": { "mandatory": true, "value_type": "string", "display": [{ "name": t, "locale": "en" }] } }),
    |t| json!({ "address": { "street": { t: {} , "b": { "mandatory": false } } } }),
    |_| json!({}),
];
const FORMATS: [fn(&str) -> Value; 6] = [
    |t| json!({ "format": "jwt_vc_json", "credential_definition": { "type": ["VerifiableCredential", t], "credentialSubject": CLAIMS[0](t) } }),
    |t| json!({ "format": "jwt_vc_json-ld", "credential_definition": { "@context": ["c", t], "type": [t] } }),
    |t| json!({ "format": "ldp_vc", "credential_definition": { "@context": [t], "type": ["A", "B"] } }),
    |t| json!({ "format": "mso_mdoc", "doctype": t, "claims": CLAIMS[1](t) }),
    |t| json!({ "format": "vc+sd-jwt", "vct": t, "claims": CLAIMS[0](t) }),
    |t| json!({ "format": "vc+sd-jwt", "vct": t }),
];
/// an authorization detail in each form
const DETAILS: [fn(&str) -> Value; 6] = [
    |t| json!({ "type": "openid_credential", "credential_configuration_id": t }),
    |t| json!({ "type": "openid_credential", "credential_configuration_id": "c", "credential_definition": { "credentialSubject": CLAIMS[0](t) } }),
    |t| json!({ "type": "openid_credential", "credential_configuration_id": "c", "claims": CLAIMS[1](t) }),
    |t| with(FORMATS[0](t), json!({ "type": "openid_credential" })),
    |t| with(FORMATS[3](t), json!({ "type": "openid_credential", "locations": [t, "l"] })),
    |t| with(FORMATS[5](t), json!({ "type": "openid_credential" })),
];
fn with(mut a: Value, b: Value) -> Value {
    for (k, v) in b.as_object().unwrap() {
        a[k] = v.clone();
    }
    a
}
fn offer() -> Value {
    let mut m = Msg::new(3);
    m.req("credential_issuer", &[|t| json!(format!("i{t}"))]);
    m.req("credential_configuration_ids", &[|t| json!([t]), |t| json!(["a", t]), |_| json!([])]);
    m.opt(
        "grants",
        &[
            |t| json!({ "urn:ietf:params:oauth:grant-type:pre-authorized_code": { "pre-authorized_code": t } }),
            |t| {
                json!({ "authorization_code": { "issuer_state": t, "authorization_server": "x" }, "urn:ietf:params:oauth:grant-type:pre-authorized_code":
                    { "pre-authorized_code": "p", "tx_code": { "input_mode": "numeric", "length": 6, "description": t }, "authorization_server": t } })
            },
            |t| json!({ "authorization_code": { "issuer_state": t } }),
            |_| json!({ "authorization_code": {} }),
        ],
    );
    m.done()
}
fn authorization() -> Value {
    let mut m = Msg::new(14);
    m.req("client_id", &[|t| json!(t)]).req("code_challenge", &[|t| json!(t)]).req("subject_id", &[|t| json!(t)]);
    m.req("response_type", &[|_| json!("code")]).req("code_challenge_method", &[|_| json!("S256")]);
    m.req("credential_issuer", &[|t| json!(format!("i{t}"))]);
    m.texts(&["redirect_uri", "state", "scope", "resource", "wallet_issuer", "user_hint", "issuer_state"]);
    m.opt("authorization_details", &[
        |t| json!([DETAILS[0](t)]), |t| json!([DETAILS[1](t)]), |t| json!([DETAILS[2](t)]), |t| json!([DETAILS[3](t), DETAILS[0]("z")]), |t| json!([DETAILS[4](t)]), |t| json!([DETAILS[5](t)]), |_| json!([]),
    ]);
    m.done()
}
const CLIENT: &str = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer";

/// offers, and how they are made
#[cfg(feature = "o01")]
#[no_mangle]
pub extern "C" fn o01_offer() {
    match sym::choose("message", 4) {
        0 => _ = json::<issuer::CredentialOffer>(offer()),
        1 => _ = json::<issuer::CredentialOfferResponse>(json!({ "credential_offer": offer() })),
        2 => {
            let j = if sym::flip("by reference") { json!({ "credential_offer_uri": text("uri") }) } else { json!({ "credential_offer": offer() }) };
            let j = if sym::flip("code") { with(j, json!({ "tx_code": text("code") })) } else { j };
            json::<issuer::CreateOfferResponse>(j);
        }
        _ => {
            let mut m = Msg::new(4);
            m.req("credential_issuer", &[|t| json!(format!("i{t}"))]);
            m.req("credential_configuration_ids", &[|t| json!([t])]);
            m.opt("subject_id", &[|t| json!(t)]);
            m.opt("grant_types", &[|_| json!(["authorization_code"]), |_| json!(["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"]), |_| json!([])]);
            json::<issuer::CreateOfferRequest>(with(m.done(), json!({ "tx_code_required": sym::flip("code"), "send_type": pick("send", &["ByVal", "ByRef"]) })));
        }
    }
}
/// authorization requests and their answers
#[cfg(feature = "o01")]
#[no_mangle]
pub extern "C" fn o01_authorization() {
    match sym::choose("message", 4) {
        0 => _ = json::<issuer::AuthorizationRequest>(authorization()),
        1 => _ = json::<issuer::AuthorizationRequest>(json!({ "request_uri": format!("u{}", text("uri")) })),
        2 => {
            let mut j = authorization();
            if sym::flip("assertion") {
                j = with(j, json!({ "client_assertion_type": CLIENT, "client_assertion": "a" }));
            }
            json::<issuer::PushedAuthorizationRequest>(j);
        }
        _ => {
            let j = json!({ "code": text("code"), "redirect_uri": "r" });
            json::<issuer::AuthorizationResponse>(if sym::flip("state") { with(j, json!({ "state": text("state") })) } else { j });
        }
    }
}
/// token requests and their answers
#[cfg(feature = "o01")]
#[no_mangle]
pub extern "C" fn o01_token() {
    if sym::flip("response") {
        let mut m = Msg::new(5);
        m.req("access_token", &[|t| json!(t)]).req("expires_in", &[|_| json!(900), |_| json!(0), |_| json!(i64::MAX)]);
        m.opt("c_nonce", &[|t| json!(t)]).opt("c_nonce_expires_in", &[|_| json!(300)]);
        m.opt("authorization_details", &[|t| json!([with(DETAILS[0](t), json!({ "credential_identifiers": [t, "b"] }))]), |t| json!([with(DETAILS[4](t), json!({ "credential_identifiers": [] })), with(DETAILS[1](t), json!({ "credential_identifiers": ["x"] }))])]);
        json::<issuer::TokenResponse>(with(m.done(), json!({ "token_type": "Bearer" })));
    } else {
        let mut m = Msg::new(5);
        m.req("credential_issuer", &[|t| json!(format!("i{t}"))]);
        m.one(&[
            |t| json!({ "grant_type": "authorization_code", "code": t, "redirect_uri": t, "code_verifier": "v" }),
            |t| json!({ "grant_type": "authorization_code", "code": t }),
            |t| json!({ "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": t, "tx_code": t }),
            |t| json!({ "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": t }),
        ]);
        m.opt("client_id", &[|t| json!(t)]);
        m.opt("authorization_details", &[|t| json!([DETAILS[0](t)]), |t| json!([DETAILS[3](t), DETAILS[2](t)]), |_| json!([])]);
        let assertion = m.vary == 4;
        let mut j = m.done();
        if assertion {
            j = with(j, json!({ "client_assertion_type": CLIENT, "client_assertion": text("assertion") }));
        }
        json::<issuer::TokenRequest>(j);
    }
}
/// credential requests and their answers
#[cfg(feature = "o01")]
#[no_mangle]
pub extern "C" fn o01_credential() {
    let vc = json!({ "@context": ["c"], "type": ["A", "B"], "issuer": "i", "credentialSubject": { "id": "s", "n": 1 } });
    match sym::choose("message", 6) {
        0 => {
            let mut m = Msg::new(5);
            m.req("credential_issuer", &[|t| json!(format!("i{t}"))]).req("access_token", &[|t| json!(format!("a{t}"))]);
            m.one(&[|t| json!({ "credential_identifier": t }), FORMATS[0], FORMATS[1], FORMATS[2], FORMATS[3], FORMATS[4], FORMATS[5]]);
            m.one(&[
                |_| json!({}),
                |t| json!({ "proof": { "proof_type": "jwt", "jwt": t } }),
                |t| json!({ "proofs": { "jwt": [t, "b"] } }),
                |_| json!({ "proofs": { "jwt": [] } }),
            ]);
            m.opt("credential_response_encryption", &[|t| json!({ "jwk": serde_json::to_value(vercre_infosec::jose::jwk::PublicKeyJwk::default()).unwrap(), "alg": t, "enc": t })]);
            json::<issuer::CredentialRequest>(m.done());
        }
        1 | 2 => {
            let t = text("text");
            let mut j = [json!({ "credential": t }), json!({ "credential": vc }), json!({ "credentials": [t, vc] }), json!({ "credentials": [] }), json!({ "transaction_id": t })][sym::choose("form", 5)].clone();
            if sym::flip("nonce") {
                j = with(j, json!({ "c_nonce": t, "c_nonce_expires_in": 300 }));
            }
            if sym::flip("notification") {
                j["notification_id"] = json!(t);
            }
            if sym::flip("deferred") {
                json::<issuer::DeferredCredentialResponse>(j);
            } else {
                json::<issuer::CredentialResponse>(j);
            }
        }
        3 => _ = json::<issuer::DeferredCredentialRequest>(json!({ "credential_issuer": "i", "access_token": format!("a{}", text("token")), "transaction_id": text("id") })),
        4 => _ = json::<issuer::ProofClaims>(json!({ "iss": text("iss"), "aud": "a", "iat": pick("iat", &[0, i64::MAX]), "nonce": text("nonce") })),
        _ => {
            let j = json!({ "credential_issuer": "i", "access_token": "a", "notification_id": text("id"), "event": pick("event", &["credential_accepted", "credential_failure", "credential_deleted"]) });
            json::<issuer::NotificationRequest>(if sym::flip("described") { with(j, json!({ "event_description": text("description") })) } else { j });
        }
    }
}
fn configuration() -> Value {
    let mut m = Msg::new(6);
    m.one(&FORMATS);
    m.opt("scope", &[|t| json!(t)]);
    m.opt("cryptographic_binding_methods_supported", &[|t| json!([t]), |_| json!([])]);
    m.opt("credential_signing_alg_values_supported", &[|t| json!(["EdDSA", t])]);
    m.opt("proof_types_supported", &[|t| json!({ "jwt": { "proof_signing_alg_values_supported": [t] } }), |_| json!({})]);
    m.opt("display", &[|t| json!([{ "name": t, "locale": "en", "logo": { "uri": t, "alt_text": t }, "description": t, "background_color": "#1", "background_image": { "uri": t }, "text_color": t }]), |t| json!([{ "name": t }, { "name": "b" }])]);
    m.done()
}
fn client() -> Value {
    let mut m = Msg::new(20);
    m.req("client_id", &[|t| json!(t)]);
    m.opt("client_id_issued_at", &[|_| json!(0), |_| json!(i64::MAX)]).opt("client_secret_expires_at", &[|_| json!(7)]);
    m.opt("redirect_uris", &[|t| json!([t]), |t| json!(["a", t])]);
    m.opt("token_endpoint_auth_method", &[|_| json!("none"), |_| json!("client_secret_jwt"), |_| json!("private_key_jwt")]);
    m.opt("grant_types", &[|_| json!(["authorization_code"]), |_| json!(["urn:ietf:params:oauth:grant-type:pre-authorized_code"])]);
    m.opt("response_types", &[|_| json!(["code"]), |_| json!(["vp_token", "id_token vp_token"])]);
    m.opt("require_pushed_authorization_requests", &[|_| json!(true), |_| json!(false)]);
    m.texts(&["client_secret", "client_name", "client_uri", "logo_uri", "scope", "tos_uri", "policy_uri", "jwks_uri", "jwks", "software_id", "software_version", "credential_offer_endpoint"]);
    m.done()
}
/// metadata of Issuers, Verifiers, wallets and authorization servers
#[cfg(feature = "o01")]
#[no_mangle]
pub extern "C" fn o01_metadata() {
    match sym::choose("message", 6) {
        0 => _ = json::<issuer::CredentialConfiguration>(configuration()),
        1 => {
            let mut m = Msg::new(8);
            m.req("credential_issuer", &[|t| json!(format!("i{t}"))]).req("credential_endpoint", &[|t| json!(t)]);
            m.opt("authorization_servers", &[|t| json!([t]), |_| json!([])]);
            m.texts(&["deferred_credential_endpoint", "notification_endpoint", "signed_metadata"]);
            m.opt("credential_response_encryption", &[|t| json!({ "alg_values_supported": [t], "enc_values_supported": [], "encryption_required": true })]);
            m.opt("batch_credential_issuance", &[|_| json!({ "batch_size": 3 })]);
            let c = json!({ "format": "jwt_vc_json", "credential_definition": { "type": ["A"] } });
            let j = with(m.done(), json!({ "credential_configurations_supported": pick("configurations", &[json!({}), json!({ "a": c }), json!({ "a": c, "b": c })]) }));
            if sym::flip("response") {
                json::<issuer::MetadataResponse>(j);
            } else {
                json::<issuer::Issuer>(j);
            }
        }
        2 => {
            let mut j = client();
            if sym::flip("wallet") {
                j["credential_offer_endpoint"] = json!("e");
                json::<issuer::Client>(j);
            } else {
                if sym::flip("formats") {
                    j["vp_formats"] = json!({ "jwt_vp_json": { "alg": ["EdDSA"], "proof_type": ["x"] } });
                }
                json::<verifier::Verifier>(j.clone());
                json::<verifier::MetadataResponse>(j);
            }
        }
        3 => {
            let mut j = client();
            j["credential_issuer"] = json!("i");
            j["access_token"] = json!("t");
            json::<issuer::RegistrationRequest>(j);
        }
        4 => {
            let mut m = Msg::new(15);
            m.req("issuer", &[|t| json!(t)]).req("authorization_endpoint", &[|t| json!(t)]).req("token_endpoint", &[|t| json!(t)]);
            m.req("response_types_supported", &[|_| json!(["code"]), |_| json!([])]);
            m.opt("scopes_supported", &[|t| json!([t])]).opt("response_modes_supported", &[|_| json!(["query", "jarm"])]);
            m.opt("grant_types_supported", &[|_| json!(["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"])]);
            m.opt("token_endpoint_auth_methods_supported", &[|_| json!(["none"])]).opt("token_endpoint_auth_signing_alg_values_supported", &[|_| json!(["EdDSA", "ES256K"])]);
            m.opt("code_challenge_methods_supported", &[|_| json!(["S256"])]).opt("require_pushed_authorization_requests", &[|_| json!(true)]);
            m.texts(&["jwks_uri", "registration_endpoint", "pushed_authorization_request_endpoint", "revocation_endpoint"]);
            json::<vercre_openid::oauth::OAuthServer>(m.done());
        }
        _ => {
            let j = client();
            let c: vercre_openid::oauth::OAuthClient = json(j.clone());
            let d: Result<vercre_openid::oauth::OAuthClient, _> = c.to_string().parse();
            sym::check(d.ok() == Some(c), "a client's metadata survives as text");
        }
    }
}
fn definition() -> Value {
    json!({ "id": "d", "input_descriptors": [{ "id": "a", "constraints": { "fields": [{ "path": ["$.type"], "filter": { "type": "string", "const": "x" } }] } }] })
}
fn request() -> Value {
    let mut m = Msg::new(10);
    m.req("client_id", &[|t| json!(t)]).req("nonce", &[|t| json!(t)]).req("response_type", &[|_| json!("vp_token"), |_| json!("vp_token id_token"), |_| json!("code")]);
    m.req("client_metadata", &[|t| json!({ "client_id": t, "redirect_uris": [t], "vp_formats": { "jwt_vp_json": { "alg": ["E"] } } }), |t| json!({ "client_id": t })]);
    m.req("presentation_definition", &[|_| definition(), |t| json!(format!("u{t}"))]);
    m.opt("client_id_scheme", &[|_| json!("redirect_uri"), |_| json!("did")]);
    m.texts(&["redirect_uri", "response_mode", "response_uri", "state"]);
    m.done()
}
/// presentation requests and the answers to them
#[cfg(feature = "o01")]
#[no_mangle]
pub extern "C" fn o01_presentation() {
    match sym::choose("message", 5) {
        0 => _ = json::<verifier::RequestObject>(request()),
        1 => {
            let j = if sym::flip("jwt") { json!(text("jwt")) } else { json!({ "request_object": request() }) };
            json::<verifier::RequestObjectResponse>(j);
        }
        2 => {
            let vp = json!({ "@context": ["c"], "type": ["A", "B"], "verifiableCredential": ["x"] });
            let sub = json!({ "id": "s", "definition_id": "d", "descriptor_map": [{ "id": "a", "path": "$", "format": "jwt_vp_json", "path_nested": { "format": "jwt_vc_json", "path": "$.verifiableCredential[0]" } }] });
            let mut j = json!({ "vp_token": pick("tokens", &[json!([]), json!([text("token")]), json!([vp]), json!(["t", vp])]), "presentation_submission": sub });
            if sym::flip("state") {
                j["state"] = json!(text("state"));
            }
            json::<verifier::ResponseRequest>(j);
        }
        3 => _ = json::<verifier::ResponseResponse>([json!({}), json!({ "redirect_uri": text("uri") }), json!({ "redirect_uri": "r", "response_code": text("code") })][sym::choose("form", 3)].clone()),
        _ => {
            let j = if sym::flip("by reference") { json!({ "request_uri": text("uri") }) } else { json!({ "request_object": request() }) };
            json::<verifier::CreateRequestResponse>(j);
        }
    }
}
/// the messages that are sent in URLs
#[cfg(feature = "o01")]
#[no_mangle]
pub extern "C" fn o01_query() {
    match sym::choose("message", 4) {
        0 => {
            let o: issuer::CredentialOffer = serde_json::from_value(offer()).unwrap();
            let q = o.to_querystring();
            sym::check(q.is_ok(), "an offer can be sent in a URL");
            let b: Result<issuer::CredentialOffer, _> = urlencode::from_str(&q.unwrap());
            sym::check(b.ok() == Some(o), "an offer survives in a URL");
        }
        1 => {
            let r: verifier::RequestObject = serde_json::from_value(request()).unwrap();
            let q = r.to_querystring();
            sym::check(q.is_ok(), "a presentation request can be sent in a URL");
            let b: Result<verifier::RequestObject, _> = urlencode::from_str(&q.unwrap());
            sym::check(b.ok() == Some(r), "a presentation request survives in a URL");
        }
        k => {
            let j = if k == 2 { authorization() } else { json!({ "request_uri": format!("u{}", text("uri")) }) };
            let r: issuer::AuthorizationRequest = serde_json::from_value(j.clone()).unwrap();
            let s = if sym::flip("json") { serde_json::to_string(&r).unwrap() } else { r.to_string() };
            let b: Result<issuer::AuthorizationRequest, _> = s.parse();
            sym::check(b.is_ok(), "an authorization request can be read from text");
            sym::check(serde_json::to_value(b.unwrap()).ok().map(strip) == Some(strip(j)), "an authorization request survives as text");
        }
    }
    sym::cover("query");
}
