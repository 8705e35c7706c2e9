//! The environment of the protocol endpoints: a provider backed by tables the harness fills, and an executor.
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Map, Value};
use std::future::Future;
use std::pin::pin;
use std::sync::Mutex;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

use chrono::{DateTime, Utc};
use vercre_did::{DidResolver, Document, MethodType, VerificationMethod};
use vercre_infosec::jose::jwk::PublicKeyJwk;
use vercre_infosec::{Algorithm, Decryptor, Encryptor, SecOps, Signer};
use vercre_openid::issuer::{Client, Dataset, Issuer, Server};
use vercre_openid::verifier::{Verifier, Wallet};

pub const ISS: &str = "http://iss";
pub const OTHER_ISS: &str = "http://oth";
pub const CLIENT: &str = "cl1";
pub const CLIENT2: &str = "cl2";
pub const REDIRECT: &str = "http://w/cb";
pub const SUBJ: &str = "ann";
pub const SUBJ2: &str = "bob";
pub const T0: i64 = 1_700_000_000;

// ---- keys
pub const ISSUER_KID: &str = "did:web:iss#k";
pub const HOLDER_DID: &str = "did:key:h";
pub const HOLDER_KID: &str = "did:key:h#h";
pub const MALLORY_DID: &str = "did:key:m";
pub const MALLORY_KID: &str = "did:key:m#m";
pub const VERIFIER_KID: &str = "did:web:ver#k";
/// key each verification method publishes
pub const KEYS: [(&str, &str); 4] = [(ISSUER_KID, "ki"), (HOLDER_KID, "kh"), (MALLORY_KID, "km"), (VERIFIER_KID, "kv")];

pub fn key_of(kid: &str) -> &'static str {
    KEYS.iter().find(|k| k.0 == kid).unwrap().1
}

/// signs with the key published under `kid`
#[derive(Clone, Debug)]
pub struct Key(pub &'static str);
impl Signer for Key {
    async fn try_sign(&self, _msg: &[u8]) -> anyhow::Result<Vec<u8>> {
        Ok(key_of(self.0).as_bytes().to_vec())
    }
    async fn public_key(&self) -> anyhow::Result<Vec<u8>> {
        Ok(key_of(self.0).as_bytes().to_vec())
    }
    fn algorithm(&self) -> Algorithm {
        Algorithm::EdDSA
    }
    fn verification_method(&self) -> String {
        self.0.to_string()
    }
}
impl Encryptor for Key {
    async fn encrypt(&self, _p: &[u8], _k: &[u8]) -> anyhow::Result<Vec<u8>> {
        unreachable!()
    }
    fn public_key(&self) -> Vec<u8> {
        unreachable!()
    }
}
impl Decryptor for Key {
    async fn decrypt(&self, _p: &[u8], _k: &[u8]) -> anyhow::Result<Vec<u8>> {
        unreachable!()
    }
}

// ---- tables
pub struct Data {
    pub subject: &'static str,
    pub identifier: &'static str,
    pub config: &'static str,
    pub claims: Value,
    pub pending: bool,
}
pub struct World {
    pub state: Vec<(String, Value, i64)>,
    pub clients: Vec<Client>,
    pub server: Option<Server>,
    pub issuer: Option<Issuer>,
    pub data: Vec<Data>,
    pub verifier: Option<Verifier>,
    /// whether the Issuer keeps statuses
    pub statuses: bool,
    /// whether the store drops entries once their expiry has passed
    pub drops_expired: bool,
    /// the store operation that fails (counted from `faults`), and whether the process dies with it
    pub fault: Option<(usize, bool)>,
    pub ops: usize,
    /// whether a store operation gives others a turn first
    pub turns: bool,
    /// whether removing an entry that is not there fails
    pub strict: bool,
}
pub static WORLD: Mutex<World> = Mutex::new(World {
    state: Vec::new(),
    clients: Vec::new(),
    server: None,
    issuer: None,
    data: Vec::new(),
    verifier: None,
    statuses: false,
    drops_expired: false,
    fault: None,
    ops: 0,
    turns: false,
    strict: false,
});
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    f(&mut WORLD.lock().unwrap())
}
pub fn state_keys() -> Vec<String> {
    with(|w| w.state.iter().map(|s| s.0.clone()).collect())
}
pub fn now(t: i64) {
    chrono::model_set_now(t);
}

#[derive(Clone, Debug, Default)]
pub struct P;

/// from now on, the n-th store operation fails; if the process dies, so do all after it until `recover`
pub fn faults(n: usize, dies: bool) {
    with(|w| {
        w.fault = Some((n, dies));
        w.ops = 0;
    });
}
/// the process is restarted (a later fault is still to come)
pub fn recover() {
    with(|w| {
        if w.fault.is_some_and(|f| w.ops > f.0) {
            w.fault = None;
        }
    });
}
pub fn faulted() -> bool {
    with(|w| w.fault.map_or(true, |f| w.ops > f.0))
}
async fn op() -> anyhow::Result<()> {
    if with(|w| w.turns) {
        let mut given = false;
        std::future::poll_fn(|_| {
            if given {
                return Poll::Ready(());
            }
            given = true;
            Poll::Pending
        })
        .await;
    }
    with(|w| {
        let n = w.ops;
        w.ops += 1;
        match w.fault {
            Some((k, dies)) if n == k || dies && n > k => Err(anyhow::anyhow!("store unavailable")),
            _ => Ok(()),
        }
    })
}

fn put(key: &str, v: Value, expiry: i64) {
    with(|w| {
        w.state.retain(|s| s.0 != key);
        w.state.push((key.to_string(), v, expiry));
    });
}
fn get(key: &str) -> anyhow::Result<Value> {
    with(|w| {
        let s = w.state.iter().find(|s| s.0 == key).ok_or_else(|| anyhow::anyhow!("state not found"))?;
        if w.drops_expired && s.2 < chrono::model_now() {
            return Err(anyhow::anyhow!("state not found"));
        }
        Ok(s.1.clone())
    })
}
impl vercre_openid::provider::StateStore for P {
    async fn put(&self, key: &str, state: impl Serialize + Send, expiry: DateTime<Utc>) -> anyhow::Result<()> {
        op().await?;
        put(key, serde_json::to_value(&state)?, expiry.timestamp());
        Ok(())
    }
    async fn get<T: DeserializeOwned>(&self, key: &str) -> anyhow::Result<T> {
        op().await?;
        Ok(serde_json::from_value(get(key)?)?)
    }
    async fn purge(&self, key: &str) -> anyhow::Result<()> {
        op().await?;
        with(|w| {
            let n = w.state.len();
            w.state.retain(|s| s.0 != key);
            if w.strict && w.state.len() == n {
                return Err(anyhow::anyhow!("state not found"));
            }
            Ok(())
        })
    }
}
impl DidResolver for P {
    async fn resolve(&self, url: &str) -> anyhow::Result<Document> {
        let vm = KEYS
            .iter()
            .filter(|k| k.0.split('#').next() == Some(url))
            .map(|k| VerificationMethod {
                id: k.0.into(),
                controller: url.into(),
                method_type: MethodType::JsonWebKey { public_key_jwk: PublicKeyJwk { x: k.1.into() } },
            })
            .collect();
        Ok(Document { id: url.into(), verification_method: Some(vm) })
    }
}
impl SecOps for P {
    fn signer(&self, identifier: &str) -> anyhow::Result<impl Signer> {
        Ok(Key(if identifier == "http://ver" { VERIFIER_KID } else { ISSUER_KID }))
    }
    fn encryptor(&self, _i: &str) -> anyhow::Result<impl Encryptor> {
        Ok(Key(ISSUER_KID))
    }
    fn decryptor(&self, _i: &str) -> anyhow::Result<impl Decryptor> {
        Ok(Key(ISSUER_KID))
    }
}
impl vercre_openid::issuer::Provider for P {}
impl vercre_openid::issuer::Metadata for P {
    async fn client(&self, id: &str) -> anyhow::Result<Client> {
        with(|w| w.clients.iter().find(|c| c.oauth.client_id == id).cloned()).ok_or_else(|| anyhow::anyhow!("client not found"))
    }
    async fn issuer(&self, id: &str) -> anyhow::Result<Issuer> {
        with(|w| w.issuer.clone()).filter(|i| i.credential_issuer == id).ok_or_else(|| anyhow::anyhow!("issuer not found"))
    }
    async fn server(&self, id: &str, _i: Option<&str>) -> anyhow::Result<Server> {
        with(|w| w.server.clone()).filter(|s| s.oauth.issuer == id).ok_or_else(|| anyhow::anyhow!("server not found"))
    }
    async fn register(&self, c: &Client) -> anyhow::Result<Client> {
        let mut c = c.clone();
        c.oauth.client_id = "cl9".into();
        with(|w| w.clients.push(c.clone()));
        Ok(c)
    }
}
impl vercre_openid::issuer::Subject for P {
    async fn authorize(&self, subject: &str, config: &str) -> anyhow::Result<Vec<String>> {
        let v: Vec<String> = with(|w| w.data.iter().filter(|d| d.subject == subject && d.config == config).map(|d| d.identifier.to_string()).collect());
        if v.is_empty() {
            return Err(anyhow::anyhow!("no matching dataset for subject/credential"));
        }
        Ok(v)
    }
    async fn dataset(&self, subject: &str, identifier: &str) -> anyhow::Result<Dataset> {
        with(|w| {
            let d = w.data.iter().find(|d| d.subject == subject && d.identifier == identifier).ok_or_else(|| anyhow::anyhow!("no dataset"))?;
            Ok(Dataset { claims: d.claims.as_object().unwrap().clone(), pending: d.pending })
        })
    }
}
impl vercre_status::issuer::Status for P {
    /// where statuses are kept, each credential of each subject has its own entry
    async fn status(&self, subject: &str, identifier: &str) -> anyhow::Result<Option<vercre_core::Quota<vercre_w3c_vc::model::CredentialStatus>>> {
        if !with(|w| w.statuses) {
            return Ok(None);
        }
        let s = vercre_w3c_vc::model::CredentialStatus { id: Some(format!("{subject}/{identifier}")), ..Default::default() };
        Ok(Some(vercre_core::Quota::One(s)))
    }
}
impl vercre_openid::verifier::Provider for P {}
impl vercre_openid::verifier::Metadata for P {
    async fn verifier(&self, id: &str) -> anyhow::Result<Verifier> {
        if id != "http://ver" {
            return Err(anyhow::anyhow!("verifier not found"));
        }
        with(|w| w.verifier.clone()).ok_or_else(|| anyhow::anyhow!("verifier not found"))
    }
    async fn wallet(&self, _id: &str) -> anyhow::Result<Wallet> {
        Err(anyhow::anyhow!("no wallet"))
    }
    async fn register(&self, v: &Verifier) -> anyhow::Result<Verifier> {
        Ok(v.clone())
    }
}

// ---- executor
fn noop() -> RawWaker {
    fn clone(_: *const ()) -> RawWaker {
        noop()
    }
    fn nop(_: *const ()) {}
    static V: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    RawWaker::new(std::ptr::null(), &V)
}
pub fn run<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let w = unsafe { Waker::from_raw(noop()) };
    let mut cx = Context::from_waker(&w);
    match f.as_mut().poll(&mut cx) {
        Poll::Ready(r) => r,
        Poll::Pending => panic!("harness: an endpoint waits although every provider call is ready"),
    }
}
/// a request that is served a turn at a time
pub struct Turn<T> {
    job: std::pin::Pin<Box<dyn Future<Output = T>>>,
    out: Option<T>,
}
impl<T> Turn<T> {
    pub fn new(job: std::pin::Pin<Box<dyn Future<Output = T>>>) -> Self {
        Self { job, out: None }
    }
    pub fn advance(&mut self, turns: usize) {
        let w = unsafe { Waker::from_raw(noop()) };
        let mut cx = Context::from_waker(&w);
        for _ in 0..turns {
            if self.out.is_some() {
                return;
            }
            if let Poll::Ready(r) = self.job.as_mut().poll(&mut cx) {
                self.out = Some(r);
            }
        }
    }
    pub fn done(&self) -> bool {
        self.out.is_some()
    }
    pub fn finish(mut self) -> T {
        for _ in 0..100 {
            self.advance(1);
            if let Some(r) = self.out {
                return r;
            }
        }
        panic!("harness: a request does not end");
    }
}

// ---- fixtures
pub const EMP: &str = "emp";
pub const DEV: &str = "dev";
pub const MDL: &str = "mdl";

pub fn obj(v: Value) -> Map<String, Value> {
    v.as_object().unwrap().clone()
}
fn claim() -> Value {
    json!({"value_type": "string"})
}
pub fn issuer_json(proofs: bool) -> Value {
    let mut emp = json!({
        "format": "jwt_vc_json", "scope": "empscope",
        "credential_definition": {"type": ["VerifiableCredential", "EmpCredential"],
            "credentialSubject": {"a": {"mandatory": true, "value_type": "string"}, "b": claim(), "c": claim()}}
    });
    let mut dev = json!({
        "format": "jwt_vc_json", "scope": "devscope",
        "credential_definition": {"type": ["VerifiableCredential", "DevCredential"], "credentialSubject": {"a": claim(), "d": claim()}}
    });
    if proofs {
        let p = json!({"jwt": {"proof_signing_alg_values_supported": ["EdDSA"]}});
        emp["proof_types_supported"] = p.clone();
        dev["proof_types_supported"] = p;
    }
    json!({
        "credential_issuer": ISS, "credential_endpoint": "http://iss/credential",
        "credential_configurations_supported": {EMP: emp, DEV: dev}
    })
}
pub fn server_json() -> Value {
    json!({
        "issuer": ISS, "authorization_endpoint": "/auth", "token_endpoint": "/token", "scopes_supported": ["openid", "empscope"],
        "response_types_supported": ["code"], "response_modes_supported": ["query"],
        "grant_types_supported": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"],
        "code_challenge_methods_supported": ["S256"], "pre-authorized_grant_anonymous_access_supported": true
    })
}
pub fn client_json(id: &str) -> Value {
    json!({
        "client_id": id, "redirect_uris": [REDIRECT],
        "grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"],
        "response_types": ["code"], "scope": "openid empscope", "credential_offer_endpoint": "openid-credential-offer://"
    })
}
/// issuer, server, two clients, two subjects; `pending` concerns the first subject's employee dataset
pub fn issuance(pending: bool) {
    let issuer: Issuer = serde_json::from_value(issuer_json(true)).unwrap();
    let server: Server = serde_json::from_value(server_json()).unwrap();
    let c1: Client = serde_json::from_value(client_json(CLIENT)).unwrap();
    let mut c2 = c1.clone();
    c2.oauth.client_id = CLIENT2.into();
    with(|w| {
        w.issuer = Some(issuer);
        w.server = Some(server);
        w.clients = vec![c1, c2];
        w.data = vec![
            Data { subject: SUBJ, identifier: "annemp", config: EMP, claims: json!({"a": "A1", "b": "B1", "c": "C1"}), pending },
            Data { subject: SUBJ, identifier: "anndev", config: DEV, claims: json!({"a": "A1", "d": "D1"}), pending: false },
            Data { subject: SUBJ2, identifier: "bobemp", config: EMP, claims: json!({"a": "A2", "b": "B2"}), pending: false },
        ];
    });
    now(T0);
}
