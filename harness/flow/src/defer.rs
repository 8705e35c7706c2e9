//! deferred issuance, offers, notifications, registration, metadata
use crate::env::*;
use crate::iss::*;
use serde_json::{json, Value};
use vercre_openid::issuer::*;
use vercre_openid::Error;

fn pending(yes: bool) {
    with(|w| w.data.iter_mut().find(|d| d.identifier == "annemp").unwrap().pending = yes);
}
fn txn_of(r: &CredentialResponse) -> Option<String> {
    serde_json::to_value(r).unwrap().get("transaction_id").map(|t| t.as_str().unwrap().to_string())
}
fn deferred(access: &str, txn: &str) -> vercre_openid::Result<DeferredCredentialResponse> {
    let r: DeferredCredentialRequest = serde_json::from_value(json!({"credential_issuer": ISS, "access_token": access, "transaction_id": txn})).unwrap();
    run(vercre_issuer::deferred(P, r))
}

/// a pending credential is given once, to the holder of the token, when it is ready
#[cfg(feature = "i07")]
#[no_mangle]
pub extern "C" fn i07_history() {
    issuance(true);
    let tok = token_for(SUBJ, &[EMP]);
    let other = token_for(SUBJ2, &[EMP]);
    let n = tok.c_nonce.clone().unwrap();
    let r = credential(&tok.access_token, by_id("annemp"), Some(&good_proof(&n))).expect("deferred");
    let txn = txn_of(&r).expect("a transaction id");
    sym::check(serde_json::to_value(&r).unwrap().get("credential").is_none(), "no credential is given while the data is pending");
    let steps = sym::by_tier(3, 4);
    let mut done = false;
    let mut t = T0;
    let mut ready = false;
    for i in 0..steps {
        t += sym::range(&format!("dt{i}"), 0, 400);
        now(t);
        if !ready && sym::flip(&format!("ready{i}")) {
            ready = true;
            pending(false);
        }
        if i == 1 && sym::flip("rotate") {
            // a refused request replaces the nonce
            let _ = credential(&tok.access_token, by_id("annemp"), None);
        }
        let who = sym::choose(&format!("who{i}"), 3);
        let access = match who {
            0 => tok.access_token.as_str(),
            1 => other.access_token.as_str(),
            _ => "nosuchtoken",
        };
        match deferred(access, &txn) {
            Ok(d) => {
                sym::check(who == 0, "a pending credential is given only on the token it was asked with");
                sym::check(ready, "no credential is given while the data is pending");
                sym::check(!done, "a transaction gives one credential");
                sym::check(t - T0 <= 900, "an expired transaction gives no credential");
                let c = issued(&d.credential_response);
                sym::check(c.claims["vc"]["credentialSubject"]["a"] == json!("A1") && c.claims["sub"] == json!(HOLDER_DID), "the credential is the one asked for");
                done = true;
            }
            Err(e) => {
                sym::check(!(who == 0 && ready && !done && t - T0 < 900), "a ready credential is given to the one who asked for it");
                if matches!(e, Error::IssuancePending(_)) {
                    sym::check(who == 0 && !ready && !done, "only a transaction that is pending is reported as such");
                    sym::cover("pending");
                } else {
                    sym::check(!(who == 0 && !ready && t - T0 < 900), "a pending transaction is reported as such");
                }
            }
        }
    }
    sym::cover(if done { "given" } else { "not given" });
}

/// how long a token and a transaction live: the token 15 minutes from when it got its latest nonce, the transaction 15 minutes
#[cfg(any(feature = "i07", feature = "i04"))]
fn lives() {
    issuance(true);
    let tok = token_for(SUBJ, &[EMP, DEV]);
    sym::check(tok.expires_in == 900, "the token says how long it lives");
    let n = tok.c_nonce.clone().unwrap();
    let t1 = sym::range("asked", 0, 599);
    now(T0 + t1);
    let r = credential(&tok.access_token, by_id("annemp"), Some(&good_proof(&n))).expect("deferred");
    let txn = txn_of(&r).expect("a transaction id");
    let mut last = 0;
    let mut t2 = t1;
    let used = sym::choose("used", 3);
    if used > 0 {
        t2 += sym::range("dt", 0, 599);
        sym::assume(t2 < 600);
        now(T0 + t2);
        let p = if used == 1 { good_proof(&n) } else { good_proof("other") };
        sym::check(credential(&tok.access_token, by_id("anndev"), Some(&p)).is_ok() == (used == 1), "another credential is given meanwhile");
        last = t2;
    }
    pending(false);
    let t3 = t2 + sym::range("dt3", 0, 2000);
    now(T0 + t3);
    match deferred(&tok.access_token, &txn) {
        Ok(_) => {
            sym::check(t3 <= t1 + 900, "an expired transaction gives no credential");
            sym::check(t3 <= last + 900, "an expired access token gives no credential");
            sym::cover("given");
        }
        Err(_) => {
            sym::check(t3 >= t1 + 900 || t3 >= last + 900, "a ready credential is given while transaction and token are alive");
            sym::cover("refused");
        }
    }
}
#[cfg(feature = "i07")]
#[no_mangle]
pub extern "C" fn i07_lives() {
    lives();
}
#[cfg(feature = "i04")]
#[no_mangle]
pub extern "C" fn i04_lives() {
    lives();
}

/// only transaction ids stand for pending credentials
#[cfg(feature = "i07")]
#[no_mangle]
pub extern "C" fn i07_foreign() {
    issuance(false);
    let tok = token_for(SUBJ, &[EMP]);
    let o = offer(SUBJ, &[EMP], true, false, false, false);
    let a = authorize(auth_json(SUBJ, &[EMP])).expect("authorized");
    let id = match sym::choose("txn", 4) {
        0 => tok.access_token.clone(),
        1 => pre_code(offer_obj(&o)),
        2 => a.code.clone(),
        _ => sym::ascii("txn", 3),
    };
    let before = with(|w| w.state.clone());
    sym::check(deferred(&tok.access_token, &id).is_err(), "only a transaction id gives a pending credential");
    sym::check(with(|w| w.state.clone()) == before, "a refused request changes nothing");
    sym::cover("refused");
}

// ---- offers
/// which offers can be made
#[cfg(feature = "i09")]
#[no_mangle]
pub extern "C" fn i09_create() {
    issuance(false);
    let subject = match sym::choose("subject", 3) {
        0 => Some(SUBJ),
        1 => Some("eve"),
        _ => None,
    };
    let configs: &[&str] = match sym::choose("configs", 5) {
        0 => &[EMP],
        1 => &[EMP, DEV],
        2 => &["nosuch"],
        3 => &[EMP, "nosuch"],
        _ => &[],
    };
    let g = sym::choose("grants", 5);
    let grants: Option<&[&str]> = match g {
        0 => Some(&[PRE]),
        1 => Some(&["authorization_code"]),
        2 => Some(&[PRE, "authorization_code"]),
        3 => Some(&[]),
        _ => None,
    };
    let pre = g == 0 || g == 2;
    let code = g == 1 || g == 2;
    let pin = sym::flip("pin");
    let by_ref = sym::flip("by_ref");
    let sup = sym::choose("supported", 3);
    with(|w| {
        let s = w.server.as_mut().unwrap();
        match sup {
            0 => {}
            1 => s.oauth.grant_types_supported = Some(vec![GrantType::PreAuthorizedCode]),
            _ => s.oauth.grant_types_supported = Some(vec![GrantType::AuthorizationCode]),
        }
    });
    let res = run(vercre_issuer::create_offer(P, offer_req(subject, configs, grants, pin, by_ref)));
    let known = !configs.is_empty() && !configs.contains(&"nosuch");
    let supported = (!pre || sup != 2) && (!code || sup != 1);
    match res {
        Ok(r) => {
            sym::check(known, "only supported credentials are offered");
            sym::check(supported, "only supported grants are offered");
            sym::check(!pre || subject == Some(SUBJ), "a pre-authorized offer is for a subject who may have the credentials");
            sym::check(r.tx_code.is_some() == (pin && pre), "a PIN accompanies a pre-authorized offer that requires one");
            let o = match &r.offer_type {
                OfferType::Object(o) => {
                    sym::check(!by_ref, "the offer is sent as asked");
                    o.clone()
                }
                OfferType::Uri(u) => {
                    sym::check(by_ref, "the offer is sent as asked");
                    let id = u.strip_prefix("http://iss/credential_offer/").expect("the offer's address is at the Issuer");
                    run(vercre_issuer::credential_offer(P, CredentialOfferRequest { credential_issuer: ISS.into(), id: id.into() })).expect("the offer can be fetched").credential_offer
                }
            };
            let j = serde_json::to_value(&o).unwrap();
            sym::check(j["credential_issuer"] == json!(ISS) && j["credential_configuration_ids"] == json!(configs), "the offer lists what was asked for");
            let pg = j["grants"][PRE].clone();
            let cg = j["grants"]["authorization_code"].clone();
            sym::check(pg.is_object() == pre && cg.is_object() == code, "the offer has the grants asked for");
            if pre {
                sym::check(pg["tx_code"].is_object() == pin, "the offer says whether a PIN is needed");
                sym::check(!serde_json::to_string(&j).unwrap().contains(r.tx_code.as_deref().unwrap_or("~")), "the PIN is not part of the offer");
            }
            sym::check(with(|w| w.state.len()) == usize::from(pre || code), "one state per offer");
            sym::cover("offer");
        }
        Err(_) => {
            sym::check(!(known && supported && (!pre || subject == Some(SUBJ))), "an admissible offer can be made");
            sym::check(with(|w| w.state.is_empty()), "a refused offer leaves nothing behind");
            sym::cover("refused");
        }
    }
}

/// an offer sent by reference can be fetched once, in time, from its Issuer
#[cfg(feature = "i09")]
#[no_mangle]
pub extern "C" fn i09_fetch() {
    issuance(false);
    let r1 = offer(SUBJ, &[EMP], true, false, false, true);
    let r2 = offer(SUBJ2, &[EMP], true, false, false, true);
    let id_of = |r: &CreateOfferResponse| match &r.offer_type {
        OfferType::Uri(u) => u.rsplit('/').next().unwrap().to_string(),
        OfferType::Object(_) => panic!("offer is not by reference"),
    };
    let code = state_keys()[0].clone();
    let (a, b) = (id_of(&r1), id_of(&r2));
    sym::check(a != b, "references are distinct");
    let mut taken = [false, false];
    let mut t = T0;
    for i in 0..sym::by_tier(2, 3) {
        t += sym::range(&format!("dt{i}"), 0, 400);
        now(t);
        let k = sym::choose(&format!("id{i}"), 4);
        let id = match k {
            0 => a.clone(),
            1 => b.clone(),
            2 => code.clone(),
            _ => sym::ascii(&format!("i{i}"), 2),
        };
        let at = if sym::flip(&format!("issuer{i}")) { ISS } else { OTHER_ISS };
        let res = run(vercre_issuer::credential_offer(P, CredentialOfferRequest { credential_issuer: at.into(), id }));
        match res {
            Ok(o) => {
                sym::check(k < 2, "only a reference gives an offer");
                sym::check(at == ISS, "an offer is fetched from the Issuer that made it");
                sym::check(t - T0 <= 300, "an expired offer cannot be fetched");
                sym::check(!taken[k], "an offer can be fetched once");
                let tok = token(pre_req(&pre_code(&o.credential_offer), None, Some(CLIENT)));
                if let Ok(tok) = tok {
                    sym::check(ids(&tok) == vec![["annemp", "bobemp"][k].to_string()], "the reference stands for the offer it was given for");
                }
                sym::cover("fetched");
            }
            Err(_) => {
                sym::check(!(k < 2 && at == ISS && t - T0 < 300 && !taken[k]), "an offer can be fetched");
                sym::cover("refused");
            }
        }
        if k < 2 {
            taken[k] = true;
        }
    }
}

// ---- notifications and registration
/// a notification is accepted once per issued credential, and for nothing else
#[cfg(feature = "i10")]
#[no_mangle]
pub extern "C" fn i10_notification() {
    issuance(true);
    let tok = token_for(SUBJ, &[EMP, DEV]);
    let n0 = tok.c_nonce.clone().unwrap();
    let d = credential(&tok.access_token, by_id("annemp"), Some(&good_proof(&n0))).expect("deferred");
    let txn = txn_of(&d).unwrap();
    let r = credential(&tok.access_token, by_id("anndev"), Some(&good_proof(&n0))).expect("given");
    let id = r.notification_id.clone().unwrap();
    let mut sent = false;
    for i in 0..2 {
        let which = sym::choose(&format!("id{i}"), 4);
        let nid = match which {
            0 => id.clone(),
            1 => txn.clone(),
            2 => tok.access_token.clone(),
            _ => sym::ascii(&format!("n{i}"), 2),
        };
        let event = ["credential_accepted", "credential_failure", "credential_deleted"][sym::choose(&format!("event{i}"), 3)];
        let v: Value = json!({"credential_issuer": ISS, "access_token": tok.access_token, "notification_id": nid, "event": event});
        let req: NotificationRequest = serde_json::from_value(v).expect("a notification parses");
        let res = run(vercre_issuer::notification(P, req));
        sym::check(res.is_ok() == (which == 0 && !sent), "a notification id is accepted once, nothing else is");
        if which == 0 {
            sent = true;
            sym::cover("sent");
        }
    }
    // nothing else is lost
    let n1 = r.c_nonce.clone().unwrap();
    sym::check(credential(&tok.access_token, by_id("anndev"), Some(&good_proof(&n1))).is_ok(), "notifications leave the token usable");
}

/// registration and metadata
#[cfg(feature = "i10")]
#[no_mangle]
pub extern "C" fn i10_register() {
    issuance(false);
    let tok = token_for(SUBJ, &[EMP]);
    let which = sym::choose("token", 3);
    let access = match which {
        0 => tok.access_token.clone(),
        1 => String::new(),
        _ => sym::ascii("token", 3),
    };
    let mut v = client_json("ignored");
    v["credential_issuer"] = json!(ISS);
    v["access_token"] = json!(access);
    let req: RegistrationRequest = serde_json::from_value(v).expect("a registration parses");
    let before = with(|w| w.clients.len());
    match run(vercre_issuer::register(P, req)) {
        Ok(r) => {
            sym::check(which == 0, "registration needs an access token");
            sym::check(r.client_metadata.oauth.client_id == "cl9", "the response is the registered client");
            sym::cover("registered");
        }
        Err(_) => {
            sym::check(which != 0, "an access token allows registration");
            sym::check(with(|w| w.clients.len()) == before, "a refused registration registers nothing");
            sym::cover("refused");
        }
    }
}
#[cfg(feature = "i10")]
#[no_mangle]
pub extern "C" fn i10_metadata() {
    issuance(false);
    let known = sym::flip("known");
    let id = if known { ISS.to_string() } else { sym::ascii("issuer", 3) };
    let m = run(vercre_issuer::metadata(P, MetadataRequest { credential_issuer: id.clone(), languages: None }));
    sym::check(m.is_ok() == known, "metadata is given for the Issuer asked for, and only if there is one");
    if let Ok(m) = m {
        sym::check(m.credential_issuer == with(|w| w.issuer.clone().unwrap()), "the metadata is the Issuer's own");
        let j = serde_json::to_value(&m).unwrap();
        sym::check(j["credential_issuer"] == json!(ISS) && j["credential_configurations_supported"][EMP]["format"] == json!("jwt_vc_json"), "the metadata has the standard form");
    }
    let s = run(vercre_issuer::oauth_server(P, OAuthServerRequest { credential_issuer: id, issuer: None }));
    sym::check(s.is_ok() == known, "server metadata is given for the server asked for, and only if there is one");
    if let Ok(s) = s {
        sym::check(s.authorization_server == with(|w| w.server.clone().unwrap()), "the metadata is the server's own");
        sym::cover("metadata");
    }
}

/// whichever store operation fails, a pending credential is given once and an offer is fetched at most once
#[cfg(feature = "i07")]
#[no_mangle]
pub extern "C" fn i07_faults() {
    issuance(true);
    let tok = token_for(SUBJ, &[EMP]);
    let n = tok.c_nonce.clone().unwrap();
    let txn = txn_of(&credential(&tok.access_token, by_id("annemp"), Some(&good_proof(&n))).expect("deferred")).expect("a transaction id");
    let early = sym::flip("early");
    if !early {
        pending(false);
    }
    faults(sym::choose("fault", 12), sym::flip("dies"));
    let mut given = 0;
    for i in 0..4 {
        if i == 1 {
            pending(false);
        }
        given += deferred(&tok.access_token, &txn).is_ok() as usize;
        recover();
    }
    sym::check(given == 1, "a pending credential is given exactly once, failures notwithstanding");
    sym::cover("given");
}
#[cfg(feature = "i09")]
#[no_mangle]
pub extern "C" fn i09_faults() {
    issuance(false);
    let r = offer(SUBJ, &[EMP], true, false, false, true);
    let OfferType::Uri(u) = &r.offer_type else { panic!("by reference") };
    let id = u.rsplit('/').next().unwrap().to_string();
    faults(sym::choose("fault", 6), sym::flip("dies"));
    let mut n = 0;
    for _ in 0..3 {
        n += run(vercre_issuer::credential_offer(P, CredentialOfferRequest { credential_issuer: ISS.into(), id: id.clone() })).is_ok() as usize;
        recover();
    }
    sym::check(n <= 1, "an offer is fetched at most once, failures notwithstanding");
    sym::cover(if n == 1 { "fetched" } else { "lost" });
}
