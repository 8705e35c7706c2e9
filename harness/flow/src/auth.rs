//! the Issuer's authorization endpoints
use crate::env::*;
use crate::iss::*;
use serde_json::{json, Value};
use vercre_openid::issuer::*;

pub const N: usize = 45;
/// what each deviation changes: two of the same group are not combined
const GROUP: [usize; N] = [
    0, 1, 2, 3, 3, 4, 5, 5, 6, 7, 8, 9, 10, 10, 10, 10, 11, 11, 12, 11, 13, 13, 14, 15, 16, 16, 16, 16, 17, 11, 11, 11, 11, 11, 11, 14, 18, 18, 18, 18, 11, 11, 11, 18, 10,
];
fn det(v: Value) -> Value {
    let mut v = v;
    v["type"] = json!("openid_credential");
    json!([v])
}
fn server(f: impl FnOnce(&mut Server)) {
    with(|w| f(w.server.as_mut().unwrap()));
}
fn client(f: impl FnOnce(&mut Client)) {
    with(|w| f(&mut w.clients[0]));
}
pub struct Plan {
    pub req: Value,
    /// why it must be refused
    pub refuse: bool,
    /// the offer it refers to
    pub issuer_state: Option<String>,
    /// identifiers it gives
    pub gives: Vec<&'static str>,
    pub par_required: bool,
    pub subject: &'static str,
    pub t: i64,
    pub redirect: &'static str,
}
/// changes the request or the registered metadata in the `d`-th way
pub fn deviate(p: &mut Plan, d: usize) {
    let refuse = |p: &mut Plan| p.refuse = true;
    match d {
        0 => {}
        1 => {
            p.req["client_id"] = json!("nobody");
            refuse(p)
        }
        2 => {
            server(|s| s.oauth.require_pushed_authorization_requests = Some(true));
            p.par_required = true;
        }
        3 => {
            p.req["response_type"] = json!("vp_token");
            refuse(p)
        }
        4 => {
            p.req["response_type"] = json!("id_token vp_token");
            refuse(p)
        }
        5 => {
            client(|c| c.oauth.response_types = None);
            refuse(p)
        }
        6 => {
            client(|c| c.oauth.scope = Some("openid other".into()));
            refuse(p)
        }
        7 => {
            client(|c| c.oauth.scope = None);
            refuse(p)
        }
        8 => {
            server(|s| s.oauth.scopes_supported = None);
            refuse(p)
        }
        9 => {
            client(|c| c.oauth.grant_types = Some(vec![GrantType::PreAuthorizedCode]));
            refuse(p)
        }
        10 => {
            server(|s| s.oauth.grant_types_supported = Some(vec![GrantType::PreAuthorizedCode]));
            refuse(p)
        }
        11 => {
            p.req["subject_id"] = json!("");
            refuse(p)
        }
        12 => {
            p.req["issuer_state"] = json!("nosuchstate");
            refuse(p)
        }
        13 | 14 | 15 => {
            let o = offer(if d == 13 { SUBJ2 } else { SUBJ }, &[EMP], false, true, false, false);
            let s = offer_obj(&o).grants.as_ref().unwrap().authorization_code.as_ref().unwrap().issuer_state.clone().unwrap();
            p.req["issuer_state"] = json!(s);
            p.issuer_state = Some(s);
            if d == 13 {
                refuse(p)
            }
            if d == 14 {
                p.t = sym::range("t", 0, 1000);
                now(T0 + p.t);
            }
        }
        16 => {
            p.req.as_object_mut().unwrap().remove("authorization_details");
            refuse(p)
        }
        17 => {
            p.req["authorization_details"] = det(json!({"credential_configuration_id": "nosuch"}));
            refuse(p)
        }
        18 => {
            p.req["scope"] = json!("nosuchscope");
            refuse(p)
        }
        19 => {
            p.req.as_object_mut().unwrap().remove("authorization_details");
            p.req["scope"] = json!("devscope");
            p.gives = vec!["anndev"];
        }
        20 => {
            p.req.as_object_mut().unwrap().remove("redirect_uri");
            refuse(p)
        }
        21 => {
            p.req["redirect_uri"] = json!("http://w/cb2");
            refuse(p)
        }
        22 => {
            client(|c| c.oauth.redirect_uris = None);
            refuse(p)
        }
        23 => {
            server(|s| s.oauth.code_challenge_methods_supported = None);
            refuse(p)
        }
        24 => {
            p.req["code_challenge"] = json!("c".repeat(sym::choose("short", 43)));
            refuse(p)
        }
        25 => {
            p.req["code_challenge"] = json!("c".repeat(129 + sym::choose("long", 8)));
            refuse(p)
        }
        26 => p.req["code_challenge"] = json!("c".repeat(43)),
        27 => p.req["code_challenge"] = json!("c".repeat(128)),
        28 => {
            p.req["credential_issuer"] = json!(OTHER_ISS);
            refuse(p)
        }
        29 => {
            // another subject's credential
            with(|w| w.data.retain(|d| d.identifier != "anndev"));
            p.req["authorization_details"] = det(json!({"credential_configuration_id": DEV}));
            refuse(p)
        }
        30 => {
            p.req["authorization_details"] = det(json!({"credential_configuration_id": EMP, "credential_definition": {"credentialSubject": {"b": {}}}}));
            refuse(p)
        }
        31 => {
            p.req["authorization_details"] = det(json!({"credential_configuration_id": EMP, "credential_definition": {"credentialSubject": {"a": {}, "zz": {}}}}));
            refuse(p)
        }
        32 => p.req["authorization_details"] = det(json!({"credential_configuration_id": EMP, "credential_definition": {"credentialSubject": {"a": {}, "b": {}}}})),
        33 => {
            p.req["authorization_details"] = det(json!({"format": "jwt_vc_json", "credential_definition": {"type": ["VerifiableCredential", "DevCredential"]}}));
            p.gives = vec!["anndev"];
        }
        34 => {
            p.req["authorization_details"] = det(json!({"format": "jwt_vc_json", "credential_definition": {"type": ["VerifiableCredential", "OddCredential"]}}));
            refuse(p)
        }
        35 => {
            client(|c| c.oauth.redirect_uris = Some(vec!["http://w/a".into(), REDIRECT.into()]));
        }
        36 => {
            p.req["scope"] = json!("devscope");
            p.gives.push("anndev");
        }
        // each of several scopes counts, and a credential may be asked for in both ways
        37 | 38 | 39 => {
            p.req["scope"] = json!(["devscope nosuchscope", "nosuchscope devscope", "empscope nosuchscope"][d - 37]);
            refuse(p)
        }
        40 | 41 => {
            p.req.as_object_mut().unwrap().remove("authorization_details");
            p.req["scope"] = json!(["devscope empscope", "empscope  devscope"][d - 40]);
            p.gives = vec!["annemp", "anndev"];
        }
        42 => {
            let dev = det(json!({"credential_configuration_id": DEV}))[0].take();
            p.req["authorization_details"].as_array_mut().unwrap().push(dev);
            p.gives = vec!["annemp", "anndev"];
        }
        43 => p.req["scope"] = json!("empscope"),
        44 => {
            // an offer that was made to nobody in particular
            let r = run(vercre_issuer::create_offer(P, offer_req(None, &[EMP], Some(&["authorization_code"]), false, false))).expect("an offer is created");
            p.req["issuer_state"] = json!(offer_obj(&r).grants.as_ref().unwrap().authorization_code.as_ref().unwrap().issuer_state.clone().unwrap());
            refuse(p)
        }
        _ => unreachable!(),
    }
}
fn plan() -> Plan {
    issuance(false);
    let mut p = Plan {
        req: auth_json(SUBJ, &[EMP]),
        refuse: false,
        issuer_state: None,
        gives: vec!["annemp"],
        par_required: false,
        subject: SUBJ,
        t: 0,
        redirect: REDIRECT,
    };
    let a = sym::choose("first", N);
    let b = sym::choose("second", N);
    sym::assume(a <= b && (a == b || GROUP[a] != GROUP[b] || GROUP[a] == 0));
    // scopes are combined with the plain request only
    sym::assume(!(GROUP[a] == 11 && GROUP[b] == 18 || GROUP[b] == 11 && GROUP[a] == 18));
    // the second first: offers are made before the server is changed
    deviate(&mut p, b);
    if a != b {
        deviate(&mut p, a);
    }
    p
}
/// the code is worth what the request was authorized for
fn worth(p: &Plan, a: &AuthorizationResponse) {
    let tok = token(code_req(&a.code, Some(p.redirect), Some(VERIFIER), Some(CLIENT)));
    if let Ok(tok) = tok {
        for id in ["annemp", "anndev", "bobemp"] {
            sym::check(obtainable_fresh(&tok, id) == p.gives.contains(&id), "the code is worth what was authorized");
        }
        sym::cover("redeemed");
    }
}
/// whether the token gives the credential (using a fresh nonce per probe: the state is put back afterwards)
fn obtainable_fresh(t: &TokenResponse, id: &str) -> bool {
    let saved = with(|w| w.state.clone());
    let r = obtainable(t, id);
    with(|w| w.state = saved);
    r
}

/// exactly which authorization requests give a code
#[cfg(feature = "i03")]
#[no_mangle]
pub extern "C" fn i03_exact() {
    let p = plan();
    let before = with(|w| w.state.clone());
    let res = authorize(p.req.clone());
    let expired = p.t > 300;
    match &res {
        Ok(a) => {
            sym::check(!p.refuse, "an inadmissible authorization request gives no code");
            sym::check(!expired, "an expired offer gives no code");
            sym::check(!p.par_required, "where pushed requests are required, others give no code");
            sym::check(a.state.as_deref() == Some("st1") && a.redirect_uri == p.redirect, "the response goes to the registered redirect URI and echoes the state");
            let after = state_keys();
            sym::check(after.contains(&a.code), "the code is remembered");
            if let Some(s) = &p.issuer_state {
                sym::check(!after.contains(s), "an offer is used at most once");
            }
            sym::check(after.len() == before.len() + 1 - usize::from(p.issuer_state.is_some()), "one code, nothing else");
            worth(&p, a);
            sym::cover("code");
        }
        Err(_) => {
            sym::check(p.refuse || p.par_required || p.t >= 300, "an admissible authorization request gives a code");
            sym::check(with(|w| w.state.clone()) == before, "a refused request changes nothing");
            sym::cover("refused");
        }
    }
}

/// pushed requests: the same rules, then the reference stands for the request for ten minutes
#[cfg(feature = "i08")]
#[no_mangle]
pub extern "C" fn i08_par() {
    let p = plan();
    sym::assume(p.t == 0);
    let before = with(|w| w.state.clone());
    let req: PushedAuthorizationRequest = serde_json::from_value(p.req.clone()).expect("a pushed request parses");
    match run(vercre_issuer::par(P, req)) {
        Ok(r) => {
            // whom a credential is for is settled when the request is used
            sym::check(!p.refuse || p.req["authorization_details"][0]["credential_configuration_id"] == json!(DEV) || p.req["authorization_details"][0]["credential_configuration_id"] == json!("nosuch"), "an inadmissible request cannot be pushed");
            sym::check(r.expires_in == 600, "the reference lives ten minutes");
            let dt = sym::range("dt", 0, 2000);
            now(T0 + dt);
            let a = authorize(json!({"client_id": CLIENT, "request_uri": r.request_uri}));
            match &a {
                Ok(a) => {
                    sym::check(dt <= 600, "an expired reference gives no code");
                    sym::check(!p.refuse, "an inadmissible pushed request gives no code");
                    sym::check(p.issuer_state.is_none() || dt <= 300, "an expired offer gives no code");
                    sym::check(a.state.as_deref() == Some("st1") && a.redirect_uri == p.redirect, "the response goes to the registered redirect URI and echoes the state");
                    worth(&p, a);
                    sym::cover("code");
                }
                Err(_) => {
                    sym::check(p.refuse || dt >= 600 || (p.issuer_state.is_some() && dt >= 300), "a pushed request can be used");
                    sym::cover("refused later");
                }
            }
        }
        Err(_) => {
            sym::check(p.refuse, "an admissible request can be pushed");
            sym::check(with(|w| w.state.clone()) == before, "a refused request changes nothing");
            sym::cover("refused");
        }
    }
}

/// only references to pushed requests can be used as such
#[cfg(feature = "i08")]
#[no_mangle]
pub extern "C" fn i08_foreign() {
    issuance(false);
    let o = offer(SUBJ, &[EMP], true, false, false, false);
    let a = authorize(auth_json(SUBJ, &[EMP])).expect("authorized");
    let tok = token_for(SUBJ, &[EMP]);
    let key = match sym::choose("reference", 5) {
        0 => pre_code(offer_obj(&o)),
        1 => a.code.clone(),
        2 => tok.access_token.clone(),
        3 => "urn:ietf:params:oauth:request_uri:nosuch".to_string(),
        _ => sym::ascii("reference", 4),
    };
    let before = with(|w| w.state.clone());
    let r = authorize(json!({"client_id": CLIENT, "request_uri": key}));
    sym::check(r.is_err(), "only the reference of a pushed request gives a code");
    sym::check(with(|w| w.state.clone()) == before, "a refused request changes nothing");
    sym::cover("refused");
}

/// a request for particular claims is accepted exactly if each is supported and none of the mandatory ones is left out
#[cfg(feature = "i11")]
#[no_mangle]
pub extern "C" fn i11_claims() {
    issuance(false);
    let nested_mandatory = sym::flip("nested");
    with(|w| {
        let c = w.issuer.as_mut().unwrap().credential_configurations_supported.get_mut(EMP).unwrap();
        let mut x = json!({"value_type": "string"});
        if nested_mandatory {
            x["mandatory"] = json!(true);
        }
        *c = serde_json::from_value(json!({
            "format": "jwt_vc_json", "scope": "empscope",
            "credential_definition": {"type": ["VerifiableCredential", "EmpCredential"],
                "credentialSubject": {"a": {"mandatory": true}, "b": {"mandatory": false}, "c": {"value_type": "number"},
                    "s": {"x": x, "y": {"value_type": "string"}}}}
        }))
        .unwrap();
    });
    let mut cs = json!({});
    let mut bad = false;
    if sym::flip("a") {
        cs["a"] = json!({});
    } else {
        bad = true;
    }
    for k in ["b", "c"] {
        if sym::flip(k) {
            cs[k] = json!({});
        }
    }
    // an unsupported claim, or a supported one asked for as a set of claims
    match sym::choose("odd", 3) {
        0 => {}
        1 => {
            cs["z"] = json!({});
            bad = true;
        }
        _ => {
            cs["b"] = json!({"q": {}});
            bad = true;
        }
    }
    match sym::choose("s", 5) {
        0 => bad |= nested_mandatory,
        1 => cs["s"] = json!({"x": {}}),
        2 => cs["s"] = json!({"x": {}, "y": {}}),
        3 => {
            cs["s"] = json!({"y": {}});
            bad |= nested_mandatory;
        }
        _ => {
            cs["s"] = json!({"x": {}, "q": {}});
            bad = true;
        }
    }
    let mut r = auth_json(SUBJ, &[EMP]);
    let mut d = json!({"credential_definition": {"credentialSubject": cs.clone()}});
    if sym::flip("format") {
        d["format"] = json!("jwt_vc_json");
        d["credential_definition"]["type"] = json!(["VerifiableCredential", "EmpCredential"]);
    } else {
        d["credential_configuration_id"] = json!(EMP);
    }
    r["authorization_details"] = det(d);
    let res = authorize(r);
    let ok = res.is_ok();
    sym::check(ok == !bad, "requested claims are supported ones and include the mandatory ones");
    if let Ok(a) = res {
        let tok = token(code_req(&a.code, Some(REDIRECT), Some(VERIFIER), Some(CLIENT))).expect("a token");
        let c = credential(&tok.access_token, by_id("annemp"), Some(&good_proof(tok.c_nonce.as_ref().unwrap()))).expect("the credential");
        let subj = issued(&c).claims["vc"]["credentialSubject"].clone();
        for n in ["a", "b", "c"] {
            sym::check(subj.get(n).is_some() || cs.get(n).is_none(), "the credential has the claims that were authorized");
        }
        sym::cover("accepted");
        for n in ["a", "b", "c"] {
            sym::check(subj.get(n).is_none() || cs.get(n).is_some(), "the credential has no claims but those that were authorized");
        }
        return;
    }
    sym::cover("refused");
}
