//! the Issuer's credential endpoint
use crate::env::*;
use crate::iss::*;
use serde_json::{json, Value};
use vercre_infosec::jose::jws::{KeyType, Type};
use vercre_openid::issuer::*;
use vercre_openid::Error;

fn emp() -> Value {
    json!({"format": "jwt_vc_json", "credential_definition": {"type": ["VerifiableCredential", "EmpCredential"]}})
}
fn dev() -> Value {
    json!({"format": "jwt_vc_json", "credential_definition": {"type": ["VerifiableCredential", "DevCredential"]}})
}

/// which tokens give which credentials, and for how long
#[cfg(feature = "i04")]
#[no_mangle]
pub extern "C" fn i04_token() {
    issuance(false);
    let (subject, configs): (&str, &[&str]) = match sym::choose("granted", 4) {
        0 => (SUBJ, &[EMP]),
        1 => (SUBJ, &[DEV]),
        2 => (SUBJ, &[EMP, DEV]),
        _ => (SUBJ2, &[EMP]),
    };
    let tok = token_for(subject, configs);
    let nonce = tok.c_nonce.clone().unwrap();
    let o = offer(SUBJ, &[EMP], true, false, false, false);
    let a = authorize(auth_json(SUBJ, &[EMP])).expect("authorized");
    let which = sym::choose("token", 5);
    let access = match which {
        0 => tok.access_token.clone(),
        1 => pre_code(offer_obj(&o)),
        2 => a.code.clone(),
        3 => nonce.clone(),
        _ => sym::ascii("access", 3),
    };
    let t = sym::range("t", 0, 4000);
    now(T0 + t);
    let (what, gives): (Value, Option<(&str, &str)>) = match sym::choose("what", 7) {
        0 => (by_id("annemp"), Some((SUBJ, EMP))),
        1 => (by_id("anndev"), Some((SUBJ, DEV))),
        2 => (by_id("bobemp"), Some((SUBJ2, EMP))),
        3 => (by_id("nosuch"), None),
        4 => (emp(), Some((subject, EMP))),
        5 => (dev(), Some((subject, DEV))),
        _ => (json!({"format": "jwt_vc_json", "credential_definition": {"type": ["VerifiableCredential", "OddCredential"]}}), None),
    };
    let before = with(|w| w.state.clone());
    let res = credential(&access, what, Some(&good_proof(&nonce)));
    let granted = gives.is_some_and(|(s, c)| s == subject && configs.contains(&c));
    match &res {
        Ok(r) => {
            sym::check(which == 0, "only an access token gives a credential");
            sym::check(granted, "a token gives only the credentials it was granted for");
            sym::check(t <= tok.expires_in, "an expired access token gives no credential");
            sym::check(t <= tok.c_nonce_expires_in.unwrap(), "an expired nonce gives no credential");
            let vc = issued(r);
            let (s, c) = gives.unwrap();
            let expect = with(|w| w.data.iter().find(|d| d.subject == s && d.config == c).unwrap().claims.clone());
            let mut got = vc.claims["vc"]["credentialSubject"].clone();
            got.as_object_mut().unwrap().remove("id");
            sym::check(got == expect, "the credential carries that subject's data");
            sym::cover("credential");
        }
        Err(_) => {
            sym::check(!(which == 0 && granted && t < tok.expires_in && t < tok.c_nonce_expires_in.unwrap()), "a granted credential is given while token and nonce are alive");
            sym::check(with(|w| w.state.clone()) == before, "a refused request changes nothing");
            sym::cover("refused");
        }
    }
}

/// one key proof: its type, nonce, key reference and signature
struct Pf {
    jwt: String,
    good: bool,
    did: &'static str,
}
fn any_proof(tag: &str, nonce: &str) -> Pf {
    let typ = match sym::choose(&format!("typ{tag}"), 4) {
        0 => Type::Proof,
        1 => Type::Jwt,
        2 => Type::Presentation,
        _ => Type::Request,
    };
    let n = match sym::choose(&format!("nonce{tag}"), 6) {
        0 => Some(nonce.to_string()),
        1 => None,
        2 => Some(String::new()),
        3 => Some(format!("{nonce}{}", sym::ascii(&format!("n1{tag}"), 1))),
        4 => Some(format!("{}{nonce}", sym::ascii(&format!("n2{tag}"), 1))),
        _ => Some(sym::ascii(&format!("n{tag}"), nonce.len().min(2))),
    };
    let kid = match sym::choose(&format!("kid{tag}"), 4) {
        0 => Some(HOLDER_KID),
        1 => Some(MALLORY_KID),
        2 => Some("did:key:x#x"),
        _ => None,
    };
    let key = if sym::flip(&format!("key{tag}")) { "kh" } else { "km" };
    let aud = match sym::choose(&format!("aud{tag}"), 5) {
        0 => ISS.to_string(),
        1 => String::new(),
        2 => format!("{ISS}{}", sym::ascii(&format!("a1{tag}"), 1)),
        3 => format!("{}{ISS}", sym::ascii(&format!("a2{tag}"), 1)),
        _ => sym::ascii(&format!("a{tag}"), ISS.len()),
    };
    let signed = matches!((kid, key), (Some(HOLDER_KID), "kh") | (Some(MALLORY_KID), "km"));
    let good = typ == Type::Proof && n.as_deref() == Some(nonce) && signed && aud == ISS;
    Pf { jwt: proof_for(&aud, kid, key, typ, n.as_deref()), good, did: if kid == Some(MALLORY_KID) { MALLORY_DID } else { HOLDER_DID } }
}
fn holder_of(r: &CredentialResponse) -> String {
    issued(r).claims["vc"]["credentialSubject"]["id"].as_str().unwrap().to_string()
}

/// a credential is given only on a proof of key possession over the current nonce, and is bound to that key's DID
#[cfg(feature = "i04")]
#[no_mangle]
pub extern "C" fn i04_proof() {
    issuance(false);
    let tok = token_for(SUBJ, &[EMP]);
    let nonce = tok.c_nonce.clone().unwrap();
    let form = sym::choose("form", 3);
    let mut v = by_id("annemp");
    v["credential_issuer"] = json!(ISS);
    v["access_token"] = json!(tok.access_token);
    let pf = match form {
        0 => None,
        1 => {
            let p = any_proof("", &nonce);
            v["proof"] = json!({"proof_type": "jwt", "jwt": p.jwt});
            Some(p)
        }
        _ => {
            v["proof"] = json!({"proof_type": "jwt", "jwt": "jws.99"});
            None
        }
    };
    let req: CredentialRequest = serde_json::from_value(v).expect("a credential request parses");
    match run(vercre_issuer::credential(P, req)) {
        Ok(r) => {
            sym::check(pf.as_ref().is_some_and(|p| p.good), "a credential is given only on a valid proof over the current nonce");
            sym::check(holder_of(&r) == pf.unwrap().did, "the credential is bound to the DID that made the proof");
            let fresh = r.c_nonce.clone().unwrap();
            sym::check(fresh != nonce, "the nonce changes with each credential");
            sym::cover("credential");
        }
        Err(e) => {
            sym::check(!pf.as_ref().is_some_and(|p| p.good), "a valid proof gives the credential");
            let Error::InvalidProof { c_nonce, .. } = e else {
                sym::check(false, "a bad proof is answered with a new nonce");
                return;
            };
            sym::check(c_nonce != nonce, "a bad proof is answered with a new nonce");
            let saved = with(|w| w.state.clone());
            sym::check(!obtainable(&tok, "annemp"), "the old nonce is worthless once replaced");
            with(|w| w.state = saved);
            let tok2 = TokenResponse { c_nonce: Some(c_nonce), ..tok.clone() };
            sym::check(obtainable(&tok2, "annemp"), "the new nonce is usable");
            sym::cover("refused");
        }
    }
}

/// several proofs: every one must be valid, and there must be one
#[cfg(feature = "i04")]
#[no_mangle]
pub extern "C" fn i04_proofs() {
    issuance(false);
    let tok = token_for(SUBJ, &[EMP]);
    let nonce = tok.c_nonce.clone().unwrap();
    let n = sym::choose("proofs", 6);
    // of more than two (three) proofs at most one is bad
    let odd = (n >= sym::by_tier(3, 4)).then(|| sym::choose("odd", n));
    let one = |i: usize| {
        let kind = if odd.is_none_or(|o| o == i) { sym::choose(&format!("kind{i}"), 8) } else { 0 };
        let (kid, key, typ, no, good) = match kind {
            0 => (Some(HOLDER_KID), "kh", Type::Proof, Some(nonce.as_str()), true),
            1 => (Some(MALLORY_KID), "km", Type::Proof, Some(nonce.as_str()), true),
            2 => (Some(HOLDER_KID), "km", Type::Proof, Some(nonce.as_str()), false),
            3 => (Some(HOLDER_KID), "kh", Type::Jwt, Some(nonce.as_str()), false),
            4 => (Some(HOLDER_KID), "kh", Type::Proof, Some("other"), false),
            5 => (Some(HOLDER_KID), "kh", Type::Proof, None, false),
            6 => (None, "kh", Type::Proof, Some(nonce.as_str()), false),
            _ => {
                return Pf { jwt: proof_for("https://other", Some(HOLDER_KID), "kh", Type::Proof, Some(&nonce)), good: false, did: HOLDER_DID };
            }
        };
        Pf { jwt: proof(kid, key, typ, no), good, did: if kid == Some(MALLORY_KID) { MALLORY_DID } else { HOLDER_DID } }
    };
    let ps: Vec<Pf> = (0..n).map(one).collect();
    let mut v = by_id("annemp");
    v["credential_issuer"] = json!(ISS);
    v["access_token"] = json!(tok.access_token);
    v["proofs"] = json!({"jwt": ps.iter().map(|p| p.jwt.clone()).collect::<Vec<_>>()});
    let req: CredentialRequest = serde_json::from_value(v).expect("a credential request parses");
    match run(vercre_issuer::credential(P, req)) {
        Ok(r) => {
            sym::check(n > 0, "a credential is given only on a proof");
            sym::check(ps.iter().all(|p| p.good), "each proof must be valid");
            let h = holder_of(&r);
            sym::check(ps.iter().any(|p| p.did == h), "the credential is bound to a DID that made a proof");
            sym::cover("credential");
        }
        Err(_) => {
            sym::check(n == 0 || !ps.iter().all(|p| p.good), "valid proofs give the credential");
            sym::cover("refused");
        }
    }
}

/// the contents of the credential
#[cfg(feature = "i05")]
#[no_mangle]
pub extern "C" fn i05_contents() {
    issuance(false);
    let statuses = sym::flip("statuses");
    let display = sym::flip("display");
    with(|w| {
        w.statuses = statuses;
        if display {
            let c = w.issuer.as_mut().unwrap().credential_configurations_supported.get_mut(EMP).unwrap();
            c.display = Some(serde_json::from_value(json!([{"name": "Emp", "locale": "en"}, {"name": "Ang", "locale": "de", "description": "x"}])).unwrap());
        }
    });
    let t = sym::range("t", 0, 500);
    let tok = token_for(SUBJ, &[EMP, DEV]);
    now(T0 + t);
    let subset = sym::choose("claims", 6);
    let e = |cs: Value| {
        let mut v = emp();
        v["credential_definition"]["credentialSubject"] = cs;
        v
    };
    let (what, id, config, ty, want): (Value, &str, &str, &str, Vec<&str>) = match subset {
        0 => (by_id("annemp"), "annemp", EMP, "EmpCredential", vec!["a", "b", "c"]),
        1 => (by_id("anndev"), "anndev", DEV, "DevCredential", vec!["a", "d"]),
        2 => (emp(), "annemp", EMP, "EmpCredential", vec!["a", "b", "c"]),
        3 => (e(json!({"a": {}})), "annemp", EMP, "EmpCredential", vec!["a"]),
        4 => (e(json!({"a": {}, "c": {}})), "annemp", EMP, "EmpCredential", vec!["a", "c"]),
        _ => (e(json!({"a": {}, "d": {}})), "annemp", EMP, "EmpCredential", vec!["a"]),
    };
    let mallory = sym::flip("mallory");
    let (kid, did) = if mallory { (MALLORY_KID, MALLORY_DID) } else { (HOLDER_KID, HOLDER_DID) };
    let pf = proof(Some(kid), key_of(kid), Type::Proof, tok.c_nonce.as_deref());
    let r = credential(&tok.access_token, what, Some(&pf)).expect("the credential is given");
    let s = issued(&r);
    sym::check(s.key == key_of(ISSUER_KID) && s.header.key == KeyType::KeyId(ISSUER_KID.to_string()), "the credential is signed by the Issuer");
    let vc = &s.claims["vc"];
    sym::check(s.claims["iss"] == json!(ISS) && vc["issuer"] == json!(ISS), "the credential names its Issuer");
    sym::check(s.claims["sub"] == json!(did) && vc["credentialSubject"]["id"] == json!(did), "the credential is about the DID that made the proof");
    sym::check(s.claims["iat"] == json!(T0 + t), "the credential is dated when it is issued");
    let types = vc["type"].as_array().cloned().unwrap_or_default();
    sym::check(types.contains(&json!("VerifiableCredential")) && types.contains(&json!(ty)) && types.len() == 2, "the credential has the configured type");
    let all = with(|w| w.data.iter().find(|d| d.identifier == id).unwrap().claims.clone());
    let mut got = vc["credentialSubject"].as_object().unwrap().clone();
    got.remove("id");
    for (k, v) in all.as_object().unwrap() {
        let yes = want.contains(&k.as_str());
        sym::check(got.get(k) == if yes { Some(v) } else { None }, "the credential carries the data asked for, unchanged, and no other");
    }
    sym::check(got.len() == want.len(), "the credential carries the data asked for, unchanged, and no other");
    if statuses {
        sym::check(vc["credentialStatus"]["id"] == json!(format!("{SUBJ}/{id}")), "the credential carries its own status entry");
    } else {
        sym::check(vc.get("credentialStatus").is_none(), "no status is claimed where none is kept");
    }
    if display && config == EMP {
        let n = serde_json::to_string(&vc["name"]).unwrap();
        sym::check(n.contains("Emp") && n.contains("Ang"), "the credential carries the configured names");
    }
    sym::check(r.c_nonce.is_some() && r.notification_id.is_some(), "a credential comes with a new nonce and a notification id");
    sym::cover("issued");
}

/// histories over one token: a credential is given exactly on the latest nonce, while it is alive
#[cfg(feature = "i06")]
#[no_mangle]
pub extern "C" fn i06_nonces() {
    issuance(false);
    let tok = token_for(SUBJ, &[EMP, DEV]);
    let mut nonces = vec![tok.c_nonce.clone().unwrap()];
    let mut born = T0; // of the latest nonce
    let mut t = T0;
    let n = sym::by_tier(3, 4);
    let mut given = 0;
    for i in 0..n {
        t += sym::range(&format!("dt{i}"), 0, 700);
        now(t);
        let k = sym::choose(&format!("nonce{i}"), nonces.len());
        let honest = sym::flip(&format!("honest{i}"));
        let p = proof(Some(HOLDER_KID), if honest { "kh" } else { "km" }, Type::Proof, Some(&nonces[k]));
        let id = if i % 2 == 0 { "annemp" } else { "anndev" };
        let latest = k + 1 == nonces.len();
        match credential(&tok.access_token, by_id(id), Some(&p)) {
            Ok(r) => {
                sym::check(honest && latest, "a credential is given only on a valid proof over the latest nonce");
                sym::check(t - born <= 600, "a credential is given only while the nonce is alive");
                let c = r.c_nonce.unwrap();
                sym::check(!nonces.contains(&c), "nonces are not repeated");
                sym::check(r.c_nonce_expires_in.is_some_and(|x| x > 0 && x <= 600), "the new nonce has a lifetime");
                nonces.push(c);
                born = t;
                given += 1;
            }
            Err(Error::InvalidProof { c_nonce, .. }) => {
                sym::check(!(honest && latest), "a valid proof over the latest nonce gives the credential");
                sym::check(!nonces.contains(&c_nonce), "nonces are not repeated");
                nonces.push(c_nonce);
                born = t;
            }
            Err(_) => {
                sym::check(t - born >= 600, "a valid proof over the latest nonce gives the credential");
                sym::cover("expired");
                return;
            }
        }
    }
    sym::cover(["none given", "one given", "two given", "three given", "four given"][given]);
}

/// the value of what else an Issuer hands out: neither notification ids nor transaction ids nor nonces are tokens
#[cfg(feature = "i06")]
#[no_mangle]
pub extern "C" fn i06_handles() {
    issuance(true);
    let tok = token_for(SUBJ, &[EMP, DEV]);
    let n0 = tok.c_nonce.clone().unwrap();
    let d = credential(&tok.access_token, by_id("annemp"), Some(&good_proof(&n0))).expect("deferred");
    let txn = serde_json::to_value(&d).unwrap()["transaction_id"].as_str().unwrap().to_string();
    let r = credential(&tok.access_token, by_id("anndev"), Some(&good_proof(&n0))).expect("given");
    let n1 = r.c_nonce.clone().unwrap();
    let handle = match sym::choose("handle", 4) {
        0 => r.notification_id.clone().unwrap(),
        1 => txn,
        2 => n0,
        _ => n1.clone(),
    };
    let id = ["annemp", "anndev"][sym::choose("id", 2)];
    let before = with(|w| w.state.clone());
    sym::check(credential(&handle, by_id(id), Some(&good_proof(&n1))).is_err(), "only an access token gives a credential");
    sym::check(token(pre_req(&handle, None, Some(CLIENT))).is_err(), "only a code gives a token");
    let _ = before;
    sym::cover("refused");
}
