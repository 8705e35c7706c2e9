//! requests served at the same time: each store operation is a point at which the other request may proceed
use crate::env::*;
use crate::iss::*;
use crate::ver::{descriptor, fetch, mapping, request, vc_json, vc_jwt, verifier, vp_json, vp_jwt, VER};
use serde_json::{json, Value};
use std::future::Future;
use std::pin::Pin;
use vercre_openid::issuer::*;
use vercre_openid::verifier::{ResponseRequest, ResponseResponse};
use vercre_openid::Result;

/// what a request came to
enum Out {
    Offer(Result<CreateOfferResponse>),
    Token(Result<TokenResponse>),
    Credential(Result<CredentialResponse>),
    Code(Result<AuthorizationResponse>),
    Fetched(Result<CredentialOfferResponse>),
    Deferred(Result<DeferredCredentialResponse>),
    Response(Result<ResponseResponse>),
    Pushed(Result<PushedAuthorizationResponse>),
}
impl Out {
    fn ok(&self) -> bool {
        match self {
            Self::Offer(r) => r.is_ok(),
            Self::Token(r) => r.is_ok(),
            Self::Credential(r) => r.is_ok(),
            Self::Code(r) => r.is_ok(),
            Self::Fetched(r) => r.is_ok(),
            Self::Deferred(r) => r.is_ok(),
            Self::Response(r) => r.is_ok(),
            Self::Pushed(r) => r.is_ok(),
        }
    }
}
type Job = Pin<Box<dyn Future<Output = Out>>>;
/// serves two requests, with every order of their store operations
fn both(a: Job, b: Job) -> (Out, Out) {
    with(|w| w.turns = true);
    let (mut a, mut b) = (Turn::new(a), Turn::new(b));
    while !a.done() && !b.done() {
        if sym::flip("turn") {
            a.advance(1);
        } else {
            b.advance(1);
        }
    }
    let a = a.finish();
    let b = b.finish();
    with(|w| w.turns = false);
    (a, b)
}
fn job_token(v: Value) -> Job {
    let r: TokenRequest = serde_json::from_value(v).unwrap();
    Box::pin(async move { Out::Token(vercre_issuer::token(P, r).await) })
}
fn job_credential(r: CredentialRequest) -> Job {
    Box::pin(async move { Out::Credential(vercre_issuer::credential(P, r).await) })
}
fn job_fetch(id: &str) -> Job {
    let r = CredentialOfferRequest { credential_issuer: ISS.into(), id: id.into() };
    Box::pin(async move { Out::Fetched(vercre_issuer::credential_offer(P, r).await) })
}
fn job_deferred(access: &str, txn: &str) -> Job {
    let r: DeferredCredentialRequest = serde_json::from_value(json!({"credential_issuer": ISS, "access_token": access, "transaction_id": txn})).unwrap();
    Box::pin(async move { Out::Deferred(vercre_issuer::deferred(P, r).await) })
}
fn job_response(v: Value) -> Job {
    let r: ResponseRequest = serde_json::from_value(v).unwrap();
    Box::pin(async move { Out::Response(vercre_verifier::response(P, &r).await) })
}
fn reference(r: &CreateOfferResponse) -> String {
    match &r.offer_type {
        OfferType::Uri(u) => u.rsplit('/').next().unwrap().to_string(),
        OfferType::Object(_) => panic!("offer is not by reference"),
    }
}
fn txn_of(r: &CredentialResponse) -> String {
    serde_json::to_value(r).unwrap()["transaction_id"].as_str().unwrap().to_string()
}
fn answer(o: &Value, nonce: &str) -> Value {
    let vc = vc_jwt(vc_json("EmpCredential", HOLDER_DID), ISSUER_KID, "ki");
    let vp = vp_jwt(vp_json(&[json!(vc)]), &o["client_id"], nonce, HOLDER_KID, "kh");
    json!({"state": o["state"], "vp_token": [vp],
        "presentation_submission": {"id": "sub", "definition_id": o["presentation_definition"]["id"], "descriptor_map": [mapping("one", "$.verifiableCredential[0]", "jwt_vc_json")]}})
}

const KINDS: usize = 12;
/// a request of one kind by one of two subjects
struct Part {
    kind: usize,
    id: &'static str,
    claim: &'static str,
    tok: Option<TokenResponse>,
}
fn part(kind: usize, who: usize) -> (Part, Job) {
    let subject = [SUBJ, SUBJ2][who];
    let client = [CLIENT, CLIENT2][who];
    let mut p = Part { kind, id: ["annemp", "bobemp"][who], claim: ["A1", "A2"][who], tok: None };
    let job: Job = match kind {
        0 => {
            let r = offer_req(Some(subject), &[EMP], Some(&[PRE]), false, false);
            Box::pin(async move { Out::Offer(vercre_issuer::create_offer(P, r).await) })
        }
        1 | 2 => {
            let r = offer(subject, &[EMP], true, false, true, false);
            let pin = if kind == 1 { r.tx_code.clone().unwrap() } else { "wrong".to_string() };
            job_token(pre_req(&pre_code(offer_obj(&r)), Some(&pin), Some(client)))
        }
        3 | 4 => {
            let mut a = auth_json(subject, &[EMP]);
            a["client_id"] = json!(client);
            let c = authorize(a).expect("authorized").code;
            job_token(code_req(&c, Some(if kind == 3 { REDIRECT } else { "http://wrong" }), Some(VERIFIER), Some(client)))
        }
        5 | 6 => {
            let t = token_for(subject, &[EMP]);
            let n = if kind == 5 { t.c_nonce.clone().unwrap() } else { "stale".to_string() };
            let r = cred_req(&t.access_token, by_id(p.id), Some(&good_proof(&n)));
            p.tok = Some(t);
            job_credential(r)
        }
        9 | 10 => {
            let mut a = auth_json(subject, &[EMP]);
            a["client_id"] = json!(client);
            let r: PushedAuthorizationRequest = serde_json::from_value(a).unwrap();
            if kind == 9 {
                Box::pin(async move { Out::Pushed(vercre_issuer::par(P, r).await) })
            } else {
                let u = run(vercre_issuer::par(P, r)).expect("pushed").request_uri;
                let r: AuthorizationRequest = serde_json::from_value(json!({"client_id": client, "request_uri": u})).unwrap();
                Box::pin(async move { Out::Code(vercre_issuer::authorize(P, r).await) })
            }
        }
        11 => {
            let t = token_for(subject, &[EMP]);
            with(|w| w.data.iter_mut().for_each(|d| d.pending = true));
            let r = credential(&t.access_token, by_id(p.id), Some(&good_proof(t.c_nonce.as_ref().unwrap()))).expect("deferred");
            with(|w| w.data.iter_mut().for_each(|d| d.pending = false));
            job_deferred(&t.access_token, &txn_of(&r))
        }
        7 => {
            let mut a = auth_json(subject, &[EMP]);
            a["client_id"] = json!(client);
            let r: AuthorizationRequest = serde_json::from_value(a).unwrap();
            Box::pin(async move { Out::Code(vercre_issuer::authorize(P, r).await) })
        }
        _ => job_fetch(&reference(&offer(subject, &[EMP], true, false, false, true))),
    };
    (p, job)
}
impl Part {
    /// the request came to what it comes to alone
    fn judge(&self, o: Out, who: usize) {
        let client = [CLIENT, CLIENT2][who];
        let own = |t: &TokenResponse| {
            let n = t.c_nonce.clone().unwrap();
            ids(t) == vec![self.id.to_string()] && matches!(credential(&t.access_token, by_id(self.id), Some(&good_proof(&n))), Ok(c) if self.own(&c))
        };
        let ok = match (self.kind, o) {
            (0, Out::Offer(Ok(r))) => matches!(token(pre_req(&pre_code(offer_obj(&r)), None, Some(client))), Ok(t) if own(&t)),
            (1 | 3, Out::Token(Ok(t))) => own(&t),
            (2 | 4, Out::Token(Err(_))) => true,
            (5, Out::Credential(Ok(c))) => self.own(&c) && c.c_nonce.as_ref().is_some_and(|n| self.again(n)),
            (6, Out::Credential(Err(e))) => serde_json::to_value(&e).unwrap()["c_nonce"].as_str().is_some_and(|n| self.again(n)),
            (9, Out::Pushed(Ok(r))) => matches!(authorize(json!({"client_id": client, "request_uri": r.request_uri})), Ok(a) if matches!(token(code_req(&a.code, Some(REDIRECT), Some(VERIFIER), Some(client))), Ok(t) if own(&t))),
            (11, Out::Deferred(Ok(d))) => self.own(&d.credential_response),
            (7 | 10, Out::Code(Ok(a))) => matches!(token(code_req(&a.code, Some(REDIRECT), Some(VERIFIER), Some(client))), Ok(t) if own(&t)),
            (8, Out::Fetched(Ok(f))) => matches!(token(pre_req(&pre_code(&f.credential_offer), None, Some(client))), Ok(t) if own(&t)),
            _ => false,
        };
        sym::check(ok, "a request comes to what it comes to alone, whatever is served at the same time");
    }
    fn own(&self, c: &CredentialResponse) -> bool {
        issued(c).claims["vc"]["credentialSubject"]["a"] == json!(self.claim)
    }
    /// the nonce given out last works with the token
    fn again(&self, nonce: &str) -> bool {
        matches!(credential(&self.tok.as_ref().unwrap().access_token, by_id(self.id), Some(&good_proof(nonce))), Ok(c) if self.own(&c))
    }
}
#[cfg(feature = "c01")]
#[no_mangle]
pub extern "C" fn c01_issuer() {
    issuance(false);
    let (ka, kb) = (sym::choose("a", KINDS), sym::choose("b", KINDS));
    sym::assume(ka <= kb);
    let (pa, ja) = part(ka, 0);
    let (pb, jb) = part(kb, 1);
    let (a, b) = both(ja, jb);
    pa.judge(a, 0);
    pb.judge(b, 1);
    sym::cover("served");
}
#[cfg(feature = "c01")]
#[no_mangle]
pub extern "C" fn c01_verifier() {
    verifier();
    let o1 = fetch(&request(vec![descriptor("one", "EmpCredential")], true, VER).expect("a request"));
    let o2 = fetch(&request(vec![descriptor("one", "EmpCredential")], sym::flip("cross"), VER).expect("a request"));
    let n1 = o1["nonce"].as_str().unwrap().to_string();
    let n2 = o2["nonce"].as_str().unwrap().to_string();
    let (r1, r2) = (sym::flip("first right"), sym::flip("second right"));
    let (a, b) = both(job_response(answer(&o1, if r1 { &n1 } else { &n2 })), job_response(answer(&o2, if r2 { &n2 } else { &n1 })));
    sym::check(a.ok() == r1 && b.ok() == r2, "a presentation is judged by the request it answers, whatever is served at the same time");
    let left = state_keys();
    let open = |o: &Value| left.contains(&o["state"].as_str().unwrap().to_string());
    sym::check(open(&o1) != r1 && open(&o2) != r2, "the requests answered are closed, and no others");
    sym::cover("served");
}

// ---- the same thing twice, with a store that removes an entry for one caller only
fn one(a: &Out, b: &Out, what: &str) {
    let n = usize::from(a.ok()) + usize::from(b.ok());
    sym::check(n <= 1, what);
    sym::check(n >= 1, "one of two requests served at the same time succeeds");
    sym::cover("served");
}
#[cfg(feature = "c02")]
#[no_mangle]
pub extern "C" fn c02_codes() {
    issuance(false);
    with(|w| w.strict = true);
    let v = if sym::flip("authorization") {
        let c = authorize(auth_json(SUBJ, &[EMP])).expect("authorized").code;
        code_req(&c, Some(REDIRECT), Some(VERIFIER), Some(CLIENT))
    } else {
        let r = offer(SUBJ, &[EMP], true, false, true, false);
        pre_req(&pre_code(offer_obj(&r)), r.tx_code.as_deref(), Some(CLIENT))
    };
    let (a, b) = both(job_token(v.clone()), job_token(v));
    one(&a, &b, "of two requests at the same time with one code, one gets a token");
}
#[cfg(feature = "c02")]
#[no_mangle]
pub extern "C" fn c02_offers() {
    issuance(false);
    with(|w| w.strict = true);
    let id = reference(&offer(SUBJ, &[EMP], true, false, false, true));
    let (a, b) = both(job_fetch(&id), job_fetch(&id));
    one(&a, &b, "of two requests at the same time for one offer, one gets it");
}
#[cfg(feature = "c02")]
#[no_mangle]
pub extern "C" fn c02_deferred() {
    issuance(true);
    with(|w| w.strict = true);
    let t = token_for(SUBJ, &[EMP]);
    let r = credential(&t.access_token, by_id("annemp"), Some(&good_proof(t.c_nonce.as_ref().unwrap()))).expect("deferred");
    let txn = txn_of(&r);
    with(|w| w.data[0].pending = false);
    let (a, b) = both(job_deferred(&t.access_token, &txn), job_deferred(&t.access_token, &txn));
    one(&a, &b, "of two requests at the same time for one deferred credential, one gets it");
}
#[cfg(feature = "c02")]
#[no_mangle]
pub extern "C" fn c02_responses() {
    verifier();
    with(|w| w.strict = true);
    let o = fetch(&request(vec![descriptor("one", "EmpCredential")], true, VER).expect("a request"));
    let v = answer(&o, o["nonce"].as_str().unwrap());
    let (a, b) = both(job_response(v.clone()), job_response(v));
    one(&a, &b, "of two responses at the same time to one request, one is accepted");
}
#[cfg(feature = "c02")]
#[no_mangle]
pub extern "C" fn c02_nonces() {
    issuance(false);
    with(|w| w.strict = true);
    let t = token_for(SUBJ, &[EMP]);
    let r = cred_req(&t.access_token, by_id("annemp"), Some(&good_proof(t.c_nonce.as_ref().unwrap())));
    let (a, b) = both(job_credential(r.clone()), job_credential(r));
    one(&a, &b, "of two requests at the same time with one proof, one gets a credential");
}
