//! the wallet: issuance flows against the Issuer's endpoints, presentation flows against the Verifier's
use crate::env::*;
use crate::iss::*;
use chrono::{DateTime, Utc};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::sync::Mutex;
use vercre_did::{DidResolver, Document};
use vercre_dif_exch::Constraints;
use vercre_holder::issuance::*;
use vercre_holder::provider::{CredentialStorer, HolderProvider, Issuer as IssuerApi, Verifier as VerifierApi};
use vercre_holder::{Credential, Logo};
use vercre_infosec::jose::jws::{model_get, Signed, Type};
use vercre_infosec::{Algorithm, Signer};
use vercre_openid::issuer::*;
use vercre_openid::verifier::{CreateRequestResponse, RequestObjectRequest, RequestObjectResponse, ResponseRequest, ResponseResponse};

pub struct Wallet {
    pub state: Vec<(String, Value)>,
    pub saved: Vec<Value>,
    /// what the wallet sent, in order
    pub tokens: Vec<Value>,
    pub creds: Vec<Value>,
    pub notes: Vec<Value>,
    pub presented: Vec<(Option<String>, Value)>,
    /// save fails at the credential with this number
    pub fail_save: Option<usize>,
    pub fail_note: bool,
    /// the credential a dishonest Issuer gives instead of the right one
    pub swap: Option<Value>,
    /// the request object a dishonest party gives instead of the right one
    pub swap_request: Option<Value>,
}
pub static WALLET: Mutex<Wallet> = Mutex::new(Wallet {
    state: Vec::new(),
    saved: Vec::new(),
    tokens: Vec::new(),
    creds: Vec::new(),
    notes: Vec::new(),
    presented: Vec::new(),
    fail_save: None,
    fail_note: false,
    swap: None,
    swap_request: None,
});
pub fn wallet<R>(f: impl FnOnce(&mut Wallet) -> R) -> R {
    f(&mut WALLET.lock().unwrap())
}
#[derive(Clone, Debug)]
pub struct H;
impl HolderProvider for H {}
impl vercre_openid::provider::StateStore for H {
    async fn put(&self, key: &str, state: impl Serialize + Send, _e: DateTime<Utc>) -> anyhow::Result<()> {
        let v = serde_json::to_value(&state)?;
        wallet(|w| {
            w.state.retain(|s| s.0 != key);
            w.state.push((key.to_string(), v));
        });
        Ok(())
    }
    async fn get<T: DeserializeOwned>(&self, key: &str) -> anyhow::Result<T> {
        let v = wallet(|w| w.state.iter().find(|s| s.0 == key).map(|s| s.1.clone())).ok_or_else(|| anyhow::anyhow!("state not found"))?;
        Ok(serde_json::from_value(v)?)
    }
    async fn purge(&self, key: &str) -> anyhow::Result<()> {
        wallet(|w| w.state.retain(|s| s.0 != key));
        Ok(())
    }
}
impl DidResolver for H {
    async fn resolve(&self, url: &str) -> anyhow::Result<Document> {
        P.resolve(url).await
    }
}
impl Signer for H {
    async fn try_sign(&self, msg: &[u8]) -> anyhow::Result<Vec<u8>> {
        Key(HOLDER_KID).try_sign(msg).await
    }
    async fn public_key(&self) -> anyhow::Result<Vec<u8>> {
        Signer::public_key(&Key(HOLDER_KID)).await
    }
    fn algorithm(&self) -> Algorithm {
        Algorithm::EdDSA
    }
    fn verification_method(&self) -> String {
        HOLDER_KID.into()
    }
}
impl IssuerApi for H {
    async fn metadata(&self, req: MetadataRequest) -> anyhow::Result<MetadataResponse> {
        Ok(vercre_issuer::metadata(P, req).await?)
    }
    async fn oauth_server(&self, req: OAuthServerRequest) -> anyhow::Result<OAuthServerResponse> {
        Ok(vercre_issuer::oauth_server(P, req).await?)
    }
    async fn authorization(&self, req: AuthorizationRequest) -> anyhow::Result<AuthorizationResponse> {
        Ok(vercre_issuer::authorize(P, req).await?)
    }
    async fn token(&self, req: TokenRequest) -> anyhow::Result<TokenResponse> {
        wallet(|w| w.tokens.push(serde_json::to_value(&req).unwrap()));
        Ok(vercre_issuer::token(P, req).await?)
    }
    async fn credential(&self, req: CredentialRequest) -> anyhow::Result<CredentialResponse> {
        wallet(|w| w.creds.push(serde_json::to_value(&req).unwrap()));
        let r = vercre_issuer::credential(P, req).await?;
        Ok(match wallet(|w| w.swap.clone()) {
            Some(s) => {
                let mut v = serde_json::to_value(&r).unwrap();
                v["credential"] = s;
                serde_json::from_value(v)?
            }
            None => r,
        })
    }
    async fn deferred(&self, req: DeferredCredentialRequest) -> anyhow::Result<DeferredCredentialResponse> {
        Ok(vercre_issuer::deferred(P, req).await?)
    }
    async fn logo(&self, _u: &str) -> anyhow::Result<Logo> {
        Ok(Logo::default())
    }
    async fn notification(&self, req: NotificationRequest) -> anyhow::Result<NotificationResponse> {
        wallet(|w| w.notes.push(serde_json::to_value(&req).unwrap()));
        if wallet(|w| w.fail_note) {
            return Err(anyhow::anyhow!("unreachable"));
        }
        Ok(vercre_issuer::notification(P, req).await?)
    }
}
impl VerifierApi for H {
    async fn request_object(&self, req: &str) -> anyhow::Result<RequestObjectResponse> {
        if let Some(s) = wallet(|w| w.swap_request.clone()) {
            return Ok(serde_json::from_value(s)?);
        }
        let id = req.rsplit('/').next().unwrap().to_string();
        Ok(vercre_verifier::request_object(P, &RequestObjectRequest { client_id: "http://ver".into(), id }).await?)
    }
    async fn present(&self, uri: Option<&str>, p: &ResponseRequest) -> anyhow::Result<ResponseResponse> {
        wallet(|w| w.presented.push((uri.map(|u| u.to_string()), serde_json::to_value(p).unwrap())));
        Ok(vercre_verifier::response(P, p).await?)
    }
}
impl CredentialStorer for H {
    async fn save(&self, c: &Credential) -> anyhow::Result<()> {
        let v = serde_json::to_value(c)?;
        wallet(|w| {
            if w.fail_save == Some(w.saved.len()) {
                return Err(anyhow::anyhow!("store full"));
            }
            w.saved.push(v);
            Ok(())
        })
    }
    async fn load(&self, id: &str) -> anyhow::Result<Option<Credential>> {
        Ok(match wallet(|w| w.saved.iter().find(|s| s["id"] == json!(id)).cloned()) {
            Some(v) => Some(serde_json::from_value(v)?),
            None => None,
        })
    }
    async fn find(&self, filter: Option<Constraints>) -> anyhow::Result<Vec<Credential>> {
        let mut out = vec![];
        for v in wallet(|w| w.saved.clone()) {
            let c: Credential = serde_json::from_value(v)?;
            if match &filter {
                Some(f) => f.satisfied(&c.vc)?,
                None => true,
            } {
                out.push(c);
            }
        }
        Ok(out)
    }
    async fn remove(&self, id: &str) -> anyhow::Result<()> {
        wallet(|w| w.saved.retain(|s| s["id"] != json!(id)));
        Ok(())
    }
}

// ---- steps
fn take(o: &CredentialOffer) -> anyhow::Result<OfferResponse> {
    run(vercre_holder::issuance::offer(H, &OfferRequest { client_id: CLIENT.into(), subject_id: SUBJ.into(), offer: o.clone() }))
}
fn spec(id: &str, claims: Option<&[&str]>) -> AuthorizationSpec {
    let c = claims.map(|c| c.iter().map(|n| (n.to_string(), json!({}))).collect::<serde_json::Map<_, _>>());
    serde_json::from_value(json!({"credential_configuration_id": id, "claims": c})).unwrap()
}
fn do_accept(id: &str, a: Option<Vec<AuthorizationSpec>>) -> bool {
    run(accept(H, &AcceptRequest { issuance_id: id.into(), accept: a })).is_ok()
}
fn do_pin(id: &str, p: &str) -> bool {
    run(pin(H, &PinRequest { issuance_id: id.into(), pin: p.into() })).is_ok()
}
fn do_token(id: &str) -> bool {
    run(vercre_holder::issuance::token(H, id)).is_ok()
}
fn do_credentials(id: &str, ids: Option<Vec<String>>) -> anyhow::Result<CredentialsResponse> {
    run(credentials(H, &CredentialsRequest { issuance_id: id.into(), credential_identifiers: ids, format: None }))
}
fn do_save(id: &str) -> bool {
    run(save(H, &SaveRequest { issuance_id: id.into() })).is_ok()
}
fn do_cancel(id: &str) -> bool {
    run(cancel(H, &CancelRequest { issuance_id: id.into() })).is_ok()
}
fn saved() -> Vec<Value> {
    wallet(|w| w.saved.clone())
}
fn known(id: &str) -> bool {
    wallet(|w| w.state.iter().any(|s| s.0 == id))
}
/// the type beyond the general one
fn type_of(c: &Value) -> String {
    c["vc"]["type"].as_array().unwrap()[1].as_str().unwrap().to_string()
}

/// whatever order the wallet's steps are taken in, each is done exactly when it is its turn
#[cfg(feature = "h01")]
#[no_mangle]
pub extern "C" fn h01_steps() {
    issuance(false);
    let with_pin = sym::flip("pin");
    let pre = sym::flip("pre");
    let r = crate::iss::offer(SUBJ, &[EMP], pre, !pre, with_pin && pre, false);
    let o = take(offer_obj(&r)).expect("an offer is taken");
    let id = o.issuance_id.as_str();
    sym::check(o.issuer == ISS && o.offered.len() == 1 && o.offered.contains_key(EMP), "the holder is shown what is offered");
    #[derive(PartialEq, Clone, Copy, Debug)]
    enum At {
        Ready,
        Pin,
        Accepted,
        Token,
        Gone,
    }
    let mut at = At::Ready;
    let mut buffered = 0;
    let mut stored = 0;
    let right = r.tx_code.clone().unwrap_or_default();
    let mut entered_right = true;
    let steps = sym::by_tier(6, 7);
    let mut over = 0;
    for i in 0..steps {
        let before = wallet(|w| w.state.clone());
        let asked = wallet(|w| (w.tokens.len(), w.creds.len()));
        let op = sym::choose(&format!("op{i}"), 6);
        let (ok, want) = match op {
            0 => (do_accept(id, None), at == At::Ready),
            1 => {
                let good = sym::flip(&format!("good{i}"));
                let ok = do_pin(id, if good { &right } else { "no" });
                if ok {
                    entered_right = good;
                }
                (ok, at == At::Pin)
            }
            2 => (do_token(id), at == At::Accepted && pre && entered_right),
            3 => (do_credentials(id, None).is_ok(), at == At::Token),
            4 => (do_save(id), at != At::Gone),
            _ => (do_cancel(id), at != At::Gone),
        };
        sym::check(ok == want, "a step succeeds exactly when it is its turn");
        if !ok {
            sym::check(wallet(|w| w.state.clone()) == before, "a refused step changes nothing");
            if !(op == 2 && at == At::Accepted && pre) {
                sym::check(wallet(|w| (w.tokens.len(), w.creds.len())) == asked, "a step out of turn asks nothing of the Issuer");
            }
        } else {
            match op {
                0 => at = if with_pin && pre { At::Pin } else { At::Accepted },
                1 => at = At::Accepted,
                2 => at = At::Token,
                3 => buffered += 1,
                4 => {
                    stored += buffered;
                    at = At::Gone;
                }
                _ => at = At::Gone,
            }
        }
        sym::check(saved().len() == stored, "credentials are stored when the holder says so, and only then");
        sym::check(known(id) == (at != At::Gone), "a finished or cancelled flow is forgotten, any other is not");
        // a refused step changes nothing: follow two of them
        over += !ok as usize;
        if over == 2 {
            break;
        }
    }
    for c in saved() {
        sym::check(type_of(&c) == "EmpCredential" && c["vc"]["credentialSubject"]["a"] == json!("A1"), "what is stored is what was issued");
    }
    sym::cover(match (at, stored) {
        (At::Gone, 0) => "cancelled",
        (At::Gone, _) => "stored",
        (At::Token, _) => "token",
        (At::Accepted, _) => "accepted",
        (At::Pin, _) => "pin",
        (At::Ready, _) => "ready",
    });
}

/// the holder gets what was accepted of the offer and nothing else
#[cfg(feature = "h01")]
#[no_mangle]
pub extern "C" fn h01_accept() {
    issuance(false);
    let offered: &[&str] = match sym::choose("offered", 3) {
        0 => &[EMP],
        1 => &[EMP, DEV],
        _ => &[DEV],
    };
    let r = crate::iss::offer(SUBJ, offered, true, false, false, false);
    let o = take(offer_obj(&r)).expect("an offer is taken");
    let id = o.issuance_id.as_str();
    let pick = sym::choose("accepted", 6);
    let (specs, ids): (Option<Vec<AuthorizationSpec>>, Vec<&str>) = match pick {
        0 => (None, offered.to_vec()),
        1 => (Some(vec![spec(EMP, None)]), vec![EMP]),
        2 => (Some(vec![spec(DEV, None)]), vec![DEV]),
        3 => (Some(vec![spec(EMP, None), spec(DEV, None)]), vec![EMP, DEV]),
        4 => (Some(vec![spec("nosuch", None)]), vec!["nosuch"]),
        _ => (Some(vec![]), vec![]),
    };
    let before = wallet(|w| w.state.clone());
    let ok = do_accept(id, specs);
    sym::check(ok == (!ids.is_empty() && ids.iter().all(|i| offered.contains(i))), "what is offered can be accepted, and nothing else");
    if !ok {
        sym::check(wallet(|w| w.state.clone()) == before, "a refused step changes nothing");
        sym::cover("refused");
        return;
    }
    let auth = run(vercre_holder::issuance::token(H, id)).expect("a token is given").authorized.expect("authorized credentials");
    sym::check(auth.len() == ids.len() && ids.iter().all(|i| auth.contains_key(*i)), "the token is for what was accepted");
    let want: Option<Vec<String>> = match sym::choose("want", 3) {
        0 => None,
        1 => Some(vec!["annemp".into()]),
        _ => Some(vec![]),
    };
    let res = do_credentials(id, want.clone());
    sym::check(res.is_ok(), "the credentials accepted are given");
    sym::check(do_save(id), "they are saved");
    let mut got: Vec<String> = saved().iter().map(type_of).collect();
    got.sort();
    let mut exp = vec![];
    for (c, i, t) in [(DEV, "anndev", "DevCredential"), (EMP, "annemp", "EmpCredential")] {
        if ids.contains(&c) && want.as_ref().is_none_or(|w| w.iter().any(|x| x == i)) {
            exp.push(t.to_string());
        }
    }
    sym::check(got == exp, "the holder gets the credentials accepted and asked for, once each");
    let creds = wallet(|w| w.creds.clone());
    for c in &creds {
        let p = model_get(c["proof"]["jwt"].as_str().unwrap()).unwrap();
        sym::check(matches!(&p.header.typ, Type::Proof) && p.key == key_of(HOLDER_KID), "every request proves possession of the holder's key");
        sym::check(p.claims["aud"] == json!(ISS), "the proof is made for the Issuer");
    }
    if creds.len() == 2 {
        sym::cover("two");
    } else {
        sym::cover("fewer");
    }
}

/// claims the holder leaves out are not in the credential
#[cfg(feature = "h01")]
#[no_mangle]
pub extern "C" fn h01_claims() {
    issuance(false);
    let r = crate::iss::offer(SUBJ, &[EMP], true, false, false, false);
    let o = take(offer_obj(&r)).expect("an offer is taken");
    let id = o.issuance_id.as_str();
    let names: &[&str] = match sym::choose("claims", 4) {
        0 => &["a"],
        1 => &["a", "b"],
        2 => &["a", "b", "c"],
        _ => &["a", "zz"],
    };
    sym::check(do_accept(id, Some(vec![spec(EMP, Some(names))])), "an offered credential is accepted");
    let ok = do_token(id);
    sym::check(ok == !names.contains(&"zz"), "a claim that is not supported is refused by the Issuer");
    if !ok {
        sym::cover("refused");
        return;
    }
    do_credentials(id, None).expect("the credential is given");
    sym::check(do_save(id), "it is saved");
    let s = saved();
    let subj = &s[0]["vc"]["credentialSubject"];
    for n in ["a", "b", "c"] {
        sym::check(subj.get(n).is_some() || !names.contains(&n), "the credential has the claims accepted");
    }
    sym::cover("narrowed");
    for n in ["a", "b", "c"] {
        sym::check(subj.get(n).is_none() || names.contains(&n), "the credential has no claims but those accepted");
    }
}

/// only credentials the Issuer vouches for are kept
#[cfg(feature = "h01")]
#[no_mangle]
pub extern "C" fn h01_verified() {
    issuance(false);
    let r = crate::iss::offer(SUBJ, &[EMP], true, false, false, false);
    let o = take(offer_obj(&r)).expect("an offer is taken");
    let id = o.issuance_id.as_str();
    sym::check(do_accept(id, None) && do_token(id), "a token is given");
    let vc = crate::ver::vc_json("EmpCredential", HOLDER_DID);
    let kind = sym::choose("swap", 7);
    let swap = match kind {
        0 => None,
        1 => Some(json!(crate::ver::vc_jwt(vc.clone(), ISSUER_KID, "km"))),
        2 => Some(json!(crate::ver::vc_jwt(vc.clone(), "did:key:x#x", "kx"))),
        3 => Some(vc.clone()),
        4 => Some(json!("nonsense")),
        5 => Some(json!(crate::ver::vp_jwt(crate::ver::vp_json(&[]), &json!("x"), "n", ISSUER_KID, "ki"))),
        _ => Some(json!(crate::ver::vc_jwt(vc.clone(), ISSUER_KID, "ki"))),
    };
    wallet(|w| w.swap = swap);
    let ok = do_credentials(id, None).is_ok();
    sym::check(ok == (kind == 0 || kind == 6), "a credential is taken exactly if its proof verifies");
    do_save(id);
    sym::check(saved().len() == ok as usize, "only credentials taken are stored");
    if ok {
        let s = &saved()[0];
        let c = model_get(s["issued"].as_str().unwrap()).expect("the credential as issued");
        sym::check(c.claims["vc"]["credentialSubject"] == s["vc"]["credentialSubject"] && c.claims["vc"]["type"] == s["vc"]["type"], "the credential kept is the one issued");
        sym::check(s["issuer"] == json!(ISS) && s["id"] == c.claims["vc"]["id"], "it is kept under the Issuer's and its own name");
    }
    sym::cover(if ok { "kept" } else { "refused" });
}

/// a pending credential is asked for until given, and kept exactly once
#[cfg(feature = "h02")]
#[no_mangle]
pub extern "C" fn h02_deferred() {
    issuance(true);
    let r = crate::iss::offer(SUBJ, &[EMP, DEV], true, false, false, false);
    let o = take(offer_obj(&r)).expect("an offer is taken");
    let id = o.issuance_id.as_str();
    sym::check(do_accept(id, None) && do_token(id), "a token is given");
    let res = do_credentials(id, None).expect("the credentials are asked for");
    let d = res.deferred.clone().unwrap_or_default();
    sym::check(d.len() == 1 && d.values().all(|c| c == EMP), "a pending credential is reported under its transaction");
    let txn = d.keys().next().unwrap().clone();
    let mut ready = false;
    let mut emp = 0; // in the wallet's hands, unsaved
    let mut dev = 1;
    let mut outstanding = true;
    let mut exp: Vec<&str> = vec![];
    let mut gone = false;
    for i in 0..sym::by_tier(3, 4) {
        if !ready && sym::flip(&format!("ready{i}")) {
            ready = true;
            with(|w| w.data.iter_mut().for_each(|d| d.pending = false));
        }
        if sym::flip(&format!("save{i}")) {
            let ok = do_save(id);
            sym::check(ok == !gone, "a flow that is under way can be saved");
            if ok {
                if dev == 1 {
                    exp.push("DevCredential");
                }
                if emp == 1 {
                    exp.push("EmpCredential");
                }
                dev = 0;
                emp = 0;
                gone = !outstanding;
            }
        } else {
            let before = wallet(|w| w.state.clone());
            let q = run(deferred(H, &DeferredRequest { issuance_id: id.into(), transaction_id: txn.clone(), credential_configuration_id: EMP.into() }));
            sym::check(q.is_ok() == (!gone && outstanding && ready), "a pending credential is given when it is ready, once");
            match q {
                Ok(q) => {
                    sym::check(q.deferred.is_none(), "nothing is left pending");
                    outstanding = false;
                    emp = 1;
                }
                Err(_) => sym::check(wallet(|w| w.state.clone()) == before, "a pending credential stays pending"),
            }
        }
        let got: Vec<String> = saved().iter().map(type_of).collect();
        sym::check(got == exp, "each credential is stored once, when the holder says so");
        sym::check(known(id) == !gone, "a flow with something pending is kept");
    }
    sym::cover(if exp.len() == 2 { "both" } else if exp.len() == 1 { "one" } else { "none" });
}

/// the Issuer learns what became of the credential
#[cfg(feature = "h02")]
#[no_mangle]
pub extern "C" fn h02_notify() {
    issuance(false);
    let r = crate::iss::offer(SUBJ, &[EMP], true, false, false, false);
    let o = take(offer_obj(&r)).expect("an offer is taken");
    let id = o.issuance_id.as_str();
    sym::check(do_accept(id, None) && do_token(id), "a token is given");
    let early = sym::flip("early");
    if !early {
        do_credentials(id, None).expect("the credential is given");
    }
    let keep = sym::flip("keep");
    let full = sym::flip("full");
    let deaf = sym::flip("deaf");
    wallet(|w| {
        w.fail_save = if full { Some(0) } else { None };
        w.fail_note = deaf;
    });
    let ok = if keep { do_save(id) } else { do_cancel(id) };
    let notes = wallet(|w| w.notes.clone());
    if early {
        sym::check(notes.is_empty() && ok, "nothing is notified if nothing was issued");
        sym::cover("early");
        return;
    }
    sym::check(notes.len() == 1, "the Issuer is notified once");
    let want = if !keep {
        "credential_deleted"
    } else if full {
        "credential_failure"
    } else {
        "credential_accepted"
    };
    sym::check(notes[0]["event"] == json!(want), "the Issuer is told what happened");
    sym::check(ok == !(deaf || keep && full), "the step fails if storing or notifying does");
    sym::check(saved().len() == (keep && !full) as usize, "what is reported is what was done");
    sym::cover(want);
}

/// odd but well-formed Issuer metadata does not crash the wallet
#[cfg(feature = "h02")]
#[no_mangle]
pub extern "C" fn h02_metadata() {
    issuance(false);
    let display = sym::choose("display", 4);
    with(|w| {
        let mut v = serde_json::to_value(w.issuer.as_ref().unwrap()).unwrap();
        match display {
            0 => {}
            1 => v["credential_configurations_supported"][EMP]["display"] = json!([]),
            2 => v["credential_configurations_supported"][EMP]["display"] = json!([{"name": "x"}]),
            _ => v["credential_configurations_supported"][EMP]["display"] = json!([{"name": "x", "logo": {"uri": "http://l"}}]),
        }
        w.issuer = Some(serde_json::from_value(v).unwrap());
    });
    let r = crate::iss::offer(SUBJ, &[EMP], true, true, false, false);
    let mut off = offer_obj(&r).clone();
    let odd = sym::choose("offer", 5);
    match odd {
        1 => off.credential_configuration_ids = vec![],
        2 => off.credential_configuration_ids = vec!["nosuch".into()],
        3 => off.credential_issuer = "http://who".into(),
        4 => off.grants = None,
        _ => {}
    }
    let Ok(o) = take(&off) else {
        sym::check((1..4).contains(&odd), "a good offer is taken");
        sym::check(wallet(|w| w.state.is_empty()), "a refused offer leaves nothing behind");
        sym::cover("refused");
        return;
    };
    sym::check(odd == 0 || odd == 4, "an offer of nothing, of something unsupported or of an unknown Issuer is refused");
    let id = o.issuance_id.as_str();
    sym::check(do_accept(id, None), "the offer can be accepted");
    if odd == 4 {
        sym::check(!do_token(id), "no token without a pre-authorized code");
        sym::cover("no grants");
        return;
    }
    sym::check(do_token(id) && do_credentials(id, None).is_ok() && do_save(id), "the credential is given");
    let s = &saved()[0];
    sym::check(s.get("logo").is_some() == (display == 3), "a logo is kept if there is one");
    sym::cover("kept");
}

/// the authorization code flow, from an offer or on the wallet's own account
#[cfg(feature = "h03")]
#[no_mangle]
pub extern "C" fn h03_authorize() {
    issuance(false);
    let own = sym::flip("own");
    let narrow = sym::choose("narrow", 3);
    let detail = |c: &str| -> AuthorizationDetail { serde_json::from_value(json!({"type": "openid_credential", "credential_configuration_id": c})).unwrap() };
    let (init, details, exp): (Initiator, Option<Vec<AuthorizationDetail>>, Vec<&str>);
    let mut scoped = false;
    if own {
        let scope = match sym::choose("scope", 3) {
            0 => None,
            1 => Some("empscope".to_string()),
            _ => Some("nosuch".to_string()),
        };
        init = Initiator::Wallet { client_id: CLIENT.into(), issuer: ISS.into(), scope: scope.clone(), subject_id: SUBJ.into() };
        details = match narrow {
            0 => None,
            1 => Some(vec![detail(EMP)]),
            _ => Some(vec![detail(DEV), detail(EMP)]),
        };
        scoped = scope.is_some();
        exp = match (&scope, narrow) {
            (None, 1) => vec!["EmpCredential"],
            (None, 2) => vec!["DevCredential", "EmpCredential"],
            (Some(s), 0) if s == "empscope" => vec!["EmpCredential"],
            _ => vec![],
        };
    } else {
        let r = crate::iss::offer(SUBJ, &[EMP, DEV], sym::flip("both"), true, false, false);
        let o = take(offer_obj(&r)).expect("an offer is taken");
        let accepted = sym::flip("accepted");
        if accepted {
            sym::check(
                do_accept(
                    &o.issuance_id,
                    match narrow {
                        0 => None,
                        1 => Some(vec![spec(EMP, None)]),
                        _ => Some(vec![spec(DEV, None)]),
                    },
                ),
                "an offer is accepted",
            );
        }
        init = Initiator::Issuer { issuance_id: if sym::flip("known") { o.issuance_id.clone() } else { "nosuch".into() } };
        details = None;
        let known = matches!(&init, Initiator::Issuer { issuance_id } if *issuance_id == o.issuance_id);
        exp = match narrow {
            _ if !accepted || !known => vec![],
            0 => vec!["DevCredential", "EmpCredential"],
            1 => vec!["EmpCredential"],
            _ => vec!["DevCredential"],
        };
    }
    let before = wallet(|w| w.state.clone());
    let res = run(vercre_holder::issuance::authorize(H, &AuthorizeRequest { initiator: init, redirect_uri: Some(REDIRECT.into()), authorization_details: details }));
    sym::check(res.is_ok() == !exp.is_empty(), "authorization is obtained exactly for what was accepted, or what the wallet may ask for");
    let Ok(a) = res else {
        sym::check(wallet(|w| w.state.clone()) == before, "a refused step changes nothing");
        sym::cover("refused");
        return;
    };
    let id = a.issuance_id.as_str();
    let t = wallet(|w| w.tokens.clone());
    sym::check(t.len() == 1 && t[0]["client_id"] == json!(CLIENT) && t[0]["redirect_uri"] == json!(REDIRECT) && t[0]["code_verifier"].as_str().is_some_and(|v| v.len() >= 43), "the code is redeemed by the wallet with its own verifier");
    let ok = if scoped {
        let f: Format = serde_json::from_value(json!({"format": "jwt_vc_json", "credential_definition": issuer_json(true)["credential_configurations_supported"][EMP]["credential_definition"]})).unwrap();
        run(credentials(H, &CredentialsRequest { issuance_id: id.into(), credential_identifiers: None, format: Some(f) })).is_ok()
    } else {
        do_credentials(id, None).is_ok()
    };
    sym::check(ok && do_save(id), "the credentials are given and saved");
    let mut got: Vec<String> = saved().iter().map(type_of).collect();
    got.sort();
    sym::check(got == exp, "the holder gets what was authorized, once each");
    sym::cover(if own { "own account" } else { "offer" });
}

// ---- presentation
/// a wallet that holds these credentials
fn holding(configs: &[&str]) {
    issuance(false);
    crate::ver::verifier();
    if configs.is_empty() {
        return;
    }
    let r = crate::iss::offer(SUBJ, configs, true, false, false, false);
    let o = take(offer_obj(&r)).expect("an offer is taken");
    let id = o.issuance_id.as_str();
    sym::check(do_accept(id, None) && do_token(id) && do_credentials(id, None).is_ok() && do_save(id), "the wallet gets its credentials");
    with(|w| w.state.clear());
}
struct Asked {
    presentation_id: String,
    credentials: Vec<Credential>,
}
fn ask(r: &CreateRequestResponse) -> anyhow::Result<Asked> {
    let s = match (&r.request_object, &r.request_uri) {
        (Some(o), _) => o.to_querystring().expect("a query string"),
        (_, Some(u)) => u.clone(),
        _ => unreachable!(),
    };
    run(vercre_holder::presentation::request(H, &s)).map(|q| Asked { presentation_id: q.presentation_id, credentials: q.credentials })
}
fn do_agree(id: &str) -> bool {
    run(vercre_holder::presentation::authorize(H, id.to_string())).is_ok()
}
fn do_present(id: &str) -> bool {
    run(vercre_holder::presentation::present(H, id.to_string())).is_ok()
}
fn desc_const(id: &str, ty: &str) -> Value {
    crate::ver::descriptor(id, ty)
}

/// what is asked for is found, and is presented to who asked for it when the holder agrees
#[cfg(feature = "h04")]
#[no_mangle]
pub extern "C" fn h04_present() {
    let held: &[&str] = match sym::choose("held", 4) {
        0 => &[],
        1 => &[EMP],
        2 => &[DEV],
        _ => &[EMP, DEV],
    };
    holding(held);
    let cross = sym::flip("cross");
    let asked: &[&str] = match sym::choose("asked", 4) {
        0 => &["EmpCredential"],
        1 => &["DevCredential"],
        2 => &["EmpCredential", "DevCredential"],
        _ => &["DevCredential", "EmpCredential"],
    };
    let ds = asked.iter().enumerate().map(|(i, t)| desc_const(["one", "two"][i], t)).collect();
    let r = crate::ver::request(ds, cross, crate::ver::VER).expect("a request");
    let o = crate::ver::fetch(&r);
    let q = ask(&r).expect("a request is taken");
    let id = q.presentation_id.as_str();
    let has = |t: &str| held.contains(&if t == "EmpCredential" { EMP } else { DEV });
    let want: Vec<&str> = asked.iter().copied().filter(|t| has(t)).collect();
    let got: Vec<String> = q.credentials.iter().map(|c| type_of(&serde_json::to_value(c).unwrap())).collect();
    sym::check(got == want, "the holder is shown the credentials that match the request");
    let enough = want.len() == asked.len();
    let mut at = 0; // asked, agreed, presented
    for i in 0..4 {
        let before = wallet(|w| w.state.clone());
        let sent = wallet(|w| w.presented.len());
        if sym::flip(&format!("agree{i}")) {
            let ok = do_agree(id);
            sym::check(ok == (at == 0), "a request is agreed to once");
            if ok {
                at = 1;
            }
        } else {
            let ok = do_present(id);
            sym::check(ok == (at == 1 && enough), "credentials are presented once, when the holder has agreed and there are such");
            sym::check(at >= 1 || wallet(|w| w.presented.len()) == sent, "nothing is sent before the holder has agreed");
            if ok {
                at = 2;
                break;
            }
        }
        let _ = before;
    }
    let p = wallet(|w| w.presented.clone());
    sym::check((at == 2) == !p.is_empty(), "what is sent is what was agreed to");
    let Some((uri, p)) = p.last() else {
        sym::cover("not sent");
        return;
    };
    sym::check(uri.as_deref() == o["response_uri"].as_str(), "the response goes where the request says");
    sym::check(p["state"] == o["state"] && p["presentation_submission"]["definition_id"] == o["presentation_definition"]["id"], "the response names the request it answers");
    let toks = p["vp_token"].as_array().unwrap();
    sym::check(toks.len() == 1, "one presentation is sent");
    let s = model_get(toks[0].as_str().unwrap()).unwrap();
    sym::check(s.key == key_of(HOLDER_KID) && s.claims["vp"]["holder"] == json!(HOLDER_DID) && s.claims["iss"] == json!(HOLDER_DID), "the holder signs the presentation");
    sym::check(s.claims["nonce"] == o["nonce"] && s.claims["aud"] == o["client_id"], "the presentation is made for this request of this Verifier");
    let vcs = match &s.claims["vp"]["verifiableCredential"] {
        Value::Array(a) => a.clone(),
        v => vec![v.clone()],
    };
    sym::check(vcs.len() == asked.len(), "the credentials asked for are presented and no others");
    for (i, t) in asked.iter().enumerate() {
        let m = &p["presentation_submission"]["descriptor_map"][i];
        let path = m["path_nested"]["path"].as_str().unwrap();
        let ix: usize = path.trim_start_matches(|c: char| !c.is_ascii_digit()).trim_end_matches(']').parse().unwrap();
        let c = model_get(vcs[ix].as_str().unwrap()).unwrap();
        sym::check(m["id"] == json!(["one", "two"][i]) && c.claims["vc"]["type"][1] == json!(*t), "each thing asked for is answered with a credential that matches");
        sym::check(saved().iter().any(|k| k["issued"] == vcs[ix]), "credentials are presented as they were issued");
    }
    sym::cover(if asked.len() == 2 { "sent two" } else { "sent one" });
}

/// a request the Verifier does not vouch for is refused
#[cfg(feature = "h04")]
#[no_mangle]
pub extern "C" fn h04_forged() {
    holding(&[EMP]);
    let r = crate::ver::request(vec![desc_const("one", "EmpCredential")], true, crate::ver::VER).expect("a request");
    let o = crate::ver::fetch(&r);
    let kind = sym::choose("swap", 8);
    let jwt = |kid: &str, key: &str, c: &Value| json!(crate::ver::sign(kid, key, Type::Request, c.clone()));
    let good = match kind {
        0 => None,
        1 => Some(jwt(VERIFIER_KID, key_of(VERIFIER_KID), &o)),
        2 => Some(jwt(VERIFIER_KID, "km", &o)),
        3 => Some(jwt("did:key:x#x", "km", &o)),
        4 => Some(json!("nonsense")),
        5 => {
            let mut c = o.clone();
            c["presentation_definition"]["input_descriptors"] = json!([]);
            Some(jwt(VERIFIER_KID, key_of(VERIFIER_KID), &c))
        }
        6 => {
            let mut c = o.clone();
            c.as_object_mut().unwrap().remove("presentation_definition");
            c["presentation_definition_uri"] = json!("http://ver/pd");
            Some(jwt(VERIFIER_KID, key_of(VERIFIER_KID), &c))
        }
        _ => Some(jwt(VERIFIER_KID, key_of(VERIFIER_KID), &json!({"nonce": "n"}))),
    };
    wallet(|w| w.swap_request = good);
    let before = wallet(|w| w.state.clone());
    let q = ask(&r);
    sym::check(q.is_ok() == (kind <= 1), "a request is taken exactly if it is signed by a key that resolves, and complete");
    if q.is_err() {
        sym::check(wallet(|w| w.state.clone()) == before, "a refused request leaves nothing behind");
    }
    sym::cover(if q.is_ok() { "taken" } else { "refused" });
}

/// a request that does not fix a value can be answered too
#[cfg(feature = "h04")]
#[no_mangle]
pub extern "C" fn h04_filters() {
    holding(&[EMP]);
    let kind = sym::choose("field", 3);
    let field = match kind {
        0 => json!({"path": ["$.type"], "filter": {"type": "string", "const": "EmpCredential"}}),
        1 => json!({"path": ["$.credentialSubject.a"], "filter": {"type": "string", "pattern": "^A"}}),
        _ => json!({"path": ["$.credentialSubject.a"]}),
    };
    let r = crate::ver::request(vec![json!({"id": "one", "constraints": {"fields": [field]}})], sym::flip("cross"), crate::ver::VER).expect("a request");
    let q = ask(&r).expect("a request is taken");
    let id = q.presentation_id.as_str();
    sym::check(q.credentials.len() == 1 && do_agree(id), "the matching credential is found");
    sym::cover("agreed");
    let ok = do_present(id);
    if kind == 0 {
        sym::check(ok, "a credential that matches is presented and accepted");
    } else {
        sym::check(ok, "a credential asked for without a constant is presented and accepted");
    }
    sym::cover("sent");
}
