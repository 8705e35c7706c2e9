//! the Issuer's endpoints: tokens
use crate::env::*;
use serde_json::{json, Value};
use vercre_infosec::jose::jwk::PublicKeyJwk;
use vercre_infosec::jose::jws::{model_get, model_put, Header, KeyType, Signed, Type};
use vercre_infosec::Algorithm;
use vercre_openid::issuer::*;

pub const PRE: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";

pub fn offer_req(subject: Option<&str>, configs: &[&str], grants: Option<&[&str]>, pin: bool, by_ref: bool) -> CreateOfferRequest {
    let mut v = json!({
        "credential_issuer": ISS, "credential_configuration_ids": configs, "tx_code_required": pin,
        "send_type": if by_ref { "ByRef" } else { "ByVal" }
    });
    if let Some(s) = subject {
        v["subject_id"] = json!(s);
    }
    if let Some(g) = grants {
        v["grant_types"] = json!(g);
    }
    serde_json::from_value(v).unwrap()
}
pub fn offer(subject: &str, configs: &[&str], pre: bool, code: bool, pin: bool, by_ref: bool) -> CreateOfferResponse {
    let mut grants = vec![];
    if pre {
        grants.push(PRE);
    }
    if code {
        grants.push("authorization_code");
    }
    run(vercre_issuer::create_offer(P, offer_req(Some(subject), configs, Some(&grants), pin, by_ref))).expect("an offer is created")
}
pub fn offer_obj(r: &CreateOfferResponse) -> &CredentialOffer {
    match &r.offer_type {
        OfferType::Object(o) => o,
        OfferType::Uri(_) => panic!("offer is not by value"),
    }
}
pub fn pre_code(o: &CredentialOffer) -> String {
    o.grants.as_ref().unwrap().pre_authorized_code.as_ref().unwrap().pre_authorized_code.clone()
}
/// token request of the pre-authorized grant, as on the wire
pub fn pre_req(code: &str, pin: Option<&str>, client: Option<&str>) -> Value {
    let mut v = json!({"credential_issuer": ISS, "grant_type": PRE, "pre-authorized_code": code});
    if let Some(p) = pin {
        v["tx_code"] = json!(p);
    }
    if let Some(c) = client {
        v["client_id"] = json!(c);
    }
    v
}
pub fn code_req(code: &str, redirect: Option<&str>, verifier: Option<&str>, client: Option<&str>) -> Value {
    let mut v = json!({"credential_issuer": ISS, "grant_type": "authorization_code", "code": code});
    if let Some(p) = redirect {
        v["redirect_uri"] = json!(p);
    }
    if let Some(p) = verifier {
        v["code_verifier"] = json!(p);
    }
    if let Some(c) = client {
        v["client_id"] = json!(c);
    }
    v
}
pub fn token(v: Value) -> vercre_openid::Result<TokenResponse> {
    let r: TokenRequest = serde_json::from_value(v).expect("a token request parses");
    run(vercre_issuer::token(P, r))
}
/// a token for `configs` of `subject`, by the pre-authorized grant
pub fn token_for(subject: &str, configs: &[&str]) -> TokenResponse {
    let r = offer(subject, configs, true, false, false, false);
    token(pre_req(&pre_code(offer_obj(&r)), None, Some(CLIENT))).expect("a token is given")
}

/// a key proof signed with `key` that names the verification method `kid`
pub fn proof(kid: Option<&str>, key: &str, typ: Type, nonce: Option<&str>) -> String {
    proof_for(ISS, kid, key, typ, nonce)
}
pub fn proof_for(aud: &str, kid: Option<&str>, key: &str, typ: Type, nonce: Option<&str>) -> String {
    let mut c = json!({"aud": aud, "iat": T0});
    if let Some(n) = nonce {
        c["nonce"] = json!(n);
    }
    let kt = match kid {
        Some(k) => KeyType::KeyId(k.to_string()),
        None => KeyType::Jwk(PublicKeyJwk { x: key.to_string() }),
    };
    model_put(Signed { header: Header { alg: Algorithm::EdDSA, typ, key: kt }, claims: c, key: key.to_string() })
}
pub fn good_proof(nonce: &str) -> String {
    proof(Some(HOLDER_KID), key_of(HOLDER_KID), Type::Proof, Some(nonce))
}
pub fn by_id(id: &str) -> Value {
    json!({"credential_identifier": id})
}
/// credential request, as on the wire
pub fn cred_req(access: &str, what: Value, jwt: Option<&str>) -> CredentialRequest {
    let mut v = what;
    v["credential_issuer"] = json!(ISS);
    v["access_token"] = json!(access);
    if let Some(j) = jwt {
        v["proof"] = json!({"proof_type": "jwt", "jwt": j});
    }
    serde_json::from_value(v).expect("a credential request parses")
}
pub fn credential(access: &str, what: Value, jwt: Option<&str>) -> vercre_openid::Result<CredentialResponse> {
    run(vercre_issuer::credential(P, cred_req(access, what, jwt)))
}
/// the signed credential of a response
pub fn issued(r: &CredentialResponse) -> Signed {
    let v = serde_json::to_value(r).unwrap();
    model_get(v["credential"].as_str().expect("one compact credential")).expect("a signed credential")
}
/// whether the token gives the credential `id`
pub fn obtainable(t: &TokenResponse, id: &str) -> bool {
    credential(&t.access_token, by_id(id), Some(&good_proof(t.c_nonce.as_ref().unwrap()))).is_ok()
}
/// the subject has two credentials of one configuration
pub fn two_of_a_kind() {
    with(|w| w.data.push(Data { subject: SUBJ, identifier: "annemp2", config: EMP, claims: json!({"a": "A2", "b": "B2"}), pending: false }));
}
pub fn ids(t: &TokenResponse) -> Vec<String> {
    let v = serde_json::to_value(t).unwrap();
    let mut out = vec![];
    for d in v["authorization_details"].as_array().cloned().unwrap_or_default() {
        for i in d["credential_identifiers"].as_array().unwrap() {
            out.push(i.as_str().unwrap().to_string());
        }
    }
    out
}

/// exactly which pre-authorized requests give a token
#[cfg(feature = "i01")]
#[no_mangle]
pub extern "C" fn i01_exact() {
    issuance(false);
    let pin = sym::flip("pin");
    let r = offer(SUBJ, &[EMP], true, false, pin, false);
    let anon = sym::flip("anonymous");
    let supported = sym::flip("supported");
    with(|w| {
        let s = w.server.as_mut().unwrap();
        s.pre_authorized_grant_anonymous_access_supported = anon;
        if !supported {
            s.oauth.grant_types_supported = Some(vec![GrantType::AuthorizationCode]);
        }
    });
    let real = pre_code(offer_obj(&r));
    let which = sym::choose("code", 2);
    let code = match which {
        0 => real.clone(),
        _ => "nosuchcode".to_string(),
    };
    let t = sym::range("t", 0, 4000);
    now(T0 + t);
    let given = match sym::choose("given", 3) {
        0 => None,
        1 => r.tx_code.clone(),
        _ => Some(sym::ascii_upto("entered", 5, 7)),
    };
    let right = given == r.tx_code;
    let client = match sym::choose("client", 4) {
        0 => Some(CLIENT),
        1 => Some("nobody"),
        2 => Some(""),
        _ => None,
    };
    let res = token(pre_req(&code, given.as_deref(), client));
    let named = client == Some(CLIENT);
    let unnamed_ok = anon && client.is_none();
    if let Ok(tok) = &res {
        sym::check(which == 0, "an unknown code gives no token");
        sym::check(t <= 300, "an expired pre-authorized code gives no token");
        sym::check(right, "a wrong, missing or superfluous PIN gives no token");
        sym::check(client != Some("nobody"), "an unknown client gets no token");
        sym::check(named || anon, "an anonymous client gets a token only where anonymous access is supported");
        sym::check(supported, "no token for a grant the server does not support");
        sym::check(tok.access_token.len() > 0 && tok.access_token != real && tok.c_nonce.as_ref().is_some_and(|n| !n.is_empty()), "a token comes with a fresh access token and nonce");
        sym::cover("token");
    } else {
        sym::check(!(which == 0 && t < 300 && right && (named || unnamed_ok) && supported), "a valid request gives a token");
        sym::check(state_keys().iter().all(|k| k == &real), "a refused request leaves no token behind");
        sym::cover("refused");
    }
}

/// a code gives at most one token, and any attempt with it spends it
#[cfg(feature = "i01")]
#[no_mangle]
pub extern "C" fn i01_once() {
    issuance(false);
    let pin = sym::flip("pin");
    let r = offer(SUBJ, &[EMP], true, false, pin, false);
    let code = pre_code(offer_obj(&r));
    let right = r.tx_code.clone();
    let n = sym::by_tier(2, 3);
    let mut tokens = vec![];
    let mut spent = false;
    let mut t = T0;
    for i in 0..n {
        t += sym::range(&format!("dt{i}"), 0, 400);
        now(t);
        let p = match sym::choose(&format!("pin{i}"), 3) {
            0 => None,
            1 => right.clone(),
            _ => Some("000000".to_string()),
        };
        let c = match sym::choose(&format!("client{i}"), 3) {
            0 => CLIENT,
            1 => CLIENT2,
            _ => "nobody",
        };
        let wrong_grant = sym::flip(&format!("grant{i}"));
        let req = if wrong_grant { code_req(&code, Some(REDIRECT), Some("v"), Some(c)) } else { pre_req(&code, p.as_deref(), Some(c)) };
        if let Ok(x) = token(req) {
            sym::check(!wrong_grant, "a pre-authorized code is no authorization code");
            sym::check(!spent, "an attempt with the code spends it, whether it succeeds or not");
            tokens.push(x.access_token);
        }
        spent = true;
    }
    sym::check(tokens.len() <= 1, "a pre-authorized code gives at most one token");
    if tokens.len() == 1 {
        sym::cover("one token");
    } else {
        sym::cover("no token");
    }
    sym::check(!state_keys().contains(&code), "a used code is forgotten");
}

/// a token is worth what was offered to that subject, or the part of it the request asks for
#[cfg(feature = "i01")]
#[no_mangle]
pub extern "C" fn i01_scope() {
    issuance(false);
    two_of_a_kind();
    let (subject, configs): (&str, &[&str]) = match sym::choose("offer", 4) {
        0 => (SUBJ, &[EMP]),
        1 => (SUBJ, &[DEV]),
        2 => (SUBJ, &[EMP, DEV]),
        _ => (SUBJ2, &[EMP]),
    };
    let r = offer(subject, configs, true, false, false, false);
    let code = pre_code(offer_obj(&r));
    let mut req = pre_req(&code, None, Some(CLIENT));
    let det = |c: &str| json!({"type": "openid_credential", "credential_configuration_id": c});
    let asked = sym::choose("asked", 7);
    let want: Option<Vec<&str>> = match asked {
        0 => None,
        1 => Some(vec![EMP]),
        2 => Some(vec![DEV]),
        3 => Some(vec![EMP, DEV]),
        4 => Some(vec!["nosuch"]),
        5 => Some(vec![EMP, "nosuch"]),
        _ => Some(vec![]),
    };
    if let Some(w) = &want {
        req["authorization_details"] = Value::Array(w.iter().map(|c| det(c)).collect());
    }
    let res = token(req);
    let inside = want.as_ref().map_or(true, |w| w.iter().all(|c| configs.contains(c)));
    if let Ok(tok) = &res {
        sym::check(inside, "asking for more than was offered gives no token");
        let granted = |c: &str| configs.contains(&c) && want.as_ref().map_or(true, |w| w.contains(&c));
        let expect: Vec<(&str, bool)> = vec![
            ("annemp", subject == SUBJ && granted(EMP)),
            ("annemp2", subject == SUBJ && granted(EMP)),
            ("anndev", subject == SUBJ && granted(DEV)),
            ("bobemp", subject == SUBJ2 && granted(EMP)),
        ];
        let listed = ids(tok);
        for (id, yes) in expect {
            sym::check(listed.iter().any(|i| i == id) == yes, "the token response lists what was granted");
        }
        let probe = ["annemp", "anndev", "bobemp", "annemp2"][sym::choose("probe", 4)];
        let yes = listed.iter().any(|i| i == probe);
        sym::check(obtainable(tok, probe) == yes, "the token is worth exactly the listed credentials");
        sym::cover(if yes { "obtained" } else { "not obtainable" });
    } else {
        sym::check(!inside || asked == 6, "asking for a part of the offer gives a token");
        sym::cover("refused");
    }
}

// ---- authorization requests
/// the verifier used with `challenge()`
pub const VERIFIER: &str = "vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv";
pub fn s256(v: &str) -> String {
    use base64ct::Encoding;
    use sha2::Digest;
    base64ct::Base64UrlUnpadded::encode_string(&sha2::Sha256::digest(v.as_bytes()))
}
pub fn auth_json(subject: &str, configs: &[&str]) -> Value {
    json!({
        "credential_issuer": ISS, "response_type": "code", "client_id": CLIENT, "redirect_uri": REDIRECT, "state": "st1",
        "code_challenge": s256(VERIFIER), "code_challenge_method": "S256", "subject_id": subject,
        "authorization_details": configs.iter().map(|c| json!({"type": "openid_credential", "credential_configuration_id": c})).collect::<Vec<_>>()
    })
}
pub fn authorize(v: Value) -> vercre_openid::Result<AuthorizationResponse> {
    let r: AuthorizationRequest = serde_json::from_value(v).expect("an authorization request parses");
    run(vercre_issuer::authorize(P, r))
}

/// exactly which authorization-code requests give a token
#[cfg(feature = "i02")]
#[no_mangle]
pub extern "C" fn i02_exact() {
    issuance(false);
    let a = authorize(auth_json(SUBJ, &[EMP])).expect("authorized");
    let supported = sym::flip("supported");
    if !supported {
        with(|w| w.server.as_mut().unwrap().oauth.grant_types_supported = Some(vec![GrantType::PreAuthorizedCode]));
    }
    let t = sym::range("t", 0, 4000);
    now(T0 + t);
    let which = sym::flip("code");
    let code = if which { a.code.clone() } else { "nosuchcode".to_string() };
    let client = match sym::choose("client", 4) {
        0 => Some(CLIENT),
        1 => Some(CLIENT2),
        2 => Some("nobody"),
        _ => None,
    };
    let redirect = match sym::choose("redirect", 4) {
        0 => Some(REDIRECT),
        1 => Some("http://w/cc"),
        2 => Some("http://w/cb/"),
        _ => None,
    };
    let verifier = match sym::choose("verifier", 3) {
        0 => Some(VERIFIER.to_string()),
        1 => Some(sym::ascii("other", 2)),
        _ => None,
    };
    let matches = verifier.as_ref().is_some_and(|v| s256(v) == s256(VERIFIER));
    let res = token(code_req(&code, redirect, verifier.as_deref(), client));
    if let Ok(tok) = &res {
        sym::check(which, "an unknown code gives no token");
        sym::check(t <= 300, "an expired authorization code gives no token");
        sym::check(client == Some(CLIENT), "only the client the code was given to gets a token");
        sym::check(redirect == Some(REDIRECT), "only the redirect URI of the authorization gets a token");
        sym::check(matches, "only a verifier whose S256 digest is the challenge gets a token");
        sym::check(supported, "no token for a grant the server does not support");
        sym::check(!tok.access_token.is_empty() && tok.access_token != a.code, "the access token is fresh");
        sym::cover("token");
    } else {
        sym::check(!(which && t < 300 && client == Some(CLIENT) && redirect == Some(REDIRECT) && matches && supported), "a valid request gives a token");
        sym::check(state_keys().iter().all(|k| k == &a.code), "a refused request leaves no token behind");
        sym::cover("refused");
    }
}

/// the challenge is the complete digest of the verifier, whatever else was sent as a challenge
#[cfg(feature = "i02")]
#[no_mangle]
pub extern "C" fn i02_challenge() {
    issuance(false);
    let d = s256(VERIFIER);
    let challenge = match sym::choose("challenge", 6) {
        0 => d.clone(),
        1 => format!("{d}{}", sym::ascii("after", 1)),
        2 => format!("{}{d}", sym::ascii("before", 1)),
        3 => format!("{}{}", &d[..42], if d.ends_with('A') { "B" } else { "A" }),
        4 => VERIFIER.to_string(),
        _ => format!("{d}{d}"),
    };
    let mut req = auth_json(SUBJ, &[EMP]);
    req["code_challenge"] = json!(challenge);
    let a = authorize(req).expect("authorized");
    let verifier = match sym::choose("verifier", 4) {
        0 => VERIFIER.to_string(),
        1 => d.clone(),
        2 => challenge.clone(),
        _ => String::new(),
    };
    let right = verifier == VERIFIER && challenge == d;
    // no other verifier has that digest
    sym::assume(right || s256(&verifier) != challenge);
    let r = token(code_req(&a.code, Some(REDIRECT), Some(&verifier), Some(CLIENT)));
    sym::check(r.is_ok() == right, "a token is given exactly to a verifier whose S256 digest is the challenge");
    sym::cover(if right { "token" } else { "refused" });
}

/// an authorization code gives at most one token, and any attempt with it spends it
#[cfg(feature = "i02")]
#[no_mangle]
pub extern "C" fn i02_once() {
    issuance(false);
    let a = authorize(auth_json(SUBJ, &[EMP])).expect("authorized");
    let n = sym::by_tier(2, 3);
    let mut tokens = 0;
    let mut t = T0;
    for i in 0..n {
        t += sym::range(&format!("dt{i}"), 0, 400);
        now(t);
        let client = [CLIENT, CLIENT2, "nobody"][sym::choose(&format!("client{i}"), 3)];
        let verifier = if sym::flip(&format!("verifier{i}")) { Some(VERIFIER) } else { None };
        let wrong_grant = sym::flip(&format!("grant{i}"));
        let req = if wrong_grant { pre_req(&a.code, None, Some(client)) } else { code_req(&a.code, Some(REDIRECT), verifier, Some(client)) };
        if token(req).is_ok() {
            sym::check(!wrong_grant, "an authorization code is no pre-authorized code");
            sym::check(i == 0, "an attempt with the code spends it, whether it succeeds or not");
            tokens += 1;
        }
    }
    sym::check(tokens <= 1, "an authorization code gives at most one token");
    sym::check(!state_keys().contains(&a.code), "a used code is forgotten");
    sym::cover(if tokens == 1 { "one token" } else { "no token" });
}

/// two authorizations side by side: each code is worth what its own request was authorized for
#[cfg(feature = "i02")]
#[no_mangle]
pub extern "C" fn i02_scope() {
    issuance(false);
    two_of_a_kind();
    let plan: [(&str, &[&str]); 4] = [(SUBJ, &[EMP]), (SUBJ, &[DEV]), (SUBJ, &[EMP, DEV]), (SUBJ2, &[EMP])];
    let p1 = plan[sym::choose("first", 4)];
    let p2 = plan[sym::choose("second", 4)];
    let a1 = authorize(auth_json(p1.0, p1.1)).expect("authorized");
    let mut r2 = auth_json(p2.0, p2.1);
    r2["client_id"] = json!(CLIENT2);
    let a2 = authorize(r2).expect("authorized");
    sym::check(a1.code != a2.code, "codes are distinct");
    let second = sym::flip("use");
    let (a, p, c) = if second { (&a2, p2, CLIENT2) } else { (&a1, p1, CLIENT) };
    let tok = token(code_req(&a.code, Some(REDIRECT), Some(VERIFIER), Some(c))).expect("a token is given");
    for (id, subject, config) in [("annemp", SUBJ, EMP), ("annemp2", SUBJ, EMP), ("anndev", SUBJ, DEV), ("bobemp", SUBJ2, EMP)] {
        let yes = p.0 == subject && p.1.contains(&config);
        sym::check(ids(&tok).iter().any(|i| i == id) == yes, "the token response lists what was granted");
    }
    let probe = ["annemp", "anndev", "bobemp", "annemp2"][sym::choose("probe", 4)];
    let yes = ids(&tok).iter().any(|i| i == probe);
    sym::check(obtainable(&tok, probe) == yes, "the token is worth exactly the listed credentials");
    sym::cover(if yes { "obtained" } else { "not obtainable" });
    let (b, d) = if second { (&a1, CLIENT) } else { (&a2, CLIENT2) };
    sym::check(token(code_req(&b.code, Some(REDIRECT), Some(VERIFIER), Some(d))).is_ok(), "using one code leaves the other usable");
}

/// whichever store operation fails, and whether or not the process dies with it, a code gives at most one token
#[cfg(feature = "i01")]
#[no_mangle]
pub extern "C" fn i01_faults() {
    issuance(false);
    let r = offer(SUBJ, &[EMP], true, false, false, false);
    let code = pre_code(offer_obj(&r));
    retried(|| token(pre_req(&code, None, Some(CLIENT))));
}
/// the same for authorization codes
#[cfg(feature = "i02")]
#[no_mangle]
pub extern "C" fn i02_faults() {
    issuance(false);
    let a = authorize(auth_json(SUBJ, &[EMP])).expect("authorized");
    retried(|| token(code_req(&a.code, Some(REDIRECT), Some(VERIFIER), Some(CLIENT))));
}
fn retried(f: impl Fn() -> vercre_openid::Result<TokenResponse>) {
    faults(sym::choose("fault", 9), sym::flip("dies"));
    let mut toks = vec![];
    for _ in 0..3 {
        if let Ok(t) = f() {
            toks.push(t);
        }
        recover();
    }
    sym::check(toks.len() <= 1, "a code gives at most one token");
    let live = state_keys().len();
    sym::check(live <= 1, "a code leaves at most one state behind");
    let failed = faulted();
    with(|w| w.fault = None);
    if let Some(t) = toks.first() {
        sym::check(obtainable(t, "annemp"), "a token that was given works");
        sym::cover("token");
    } else {
        sym::check(failed, "a token is given if nothing fails");
        sym::cover("no token");
    }
}
