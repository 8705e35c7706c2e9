//! Model of vercre-did: dereferencing a DID URL asks the provider for the document of the DID and returns the
//! verification method whose id is that URL.
use std::future::Future;
use serde::{Deserialize, Serialize};
use vercre_infosec::jose::jwk::PublicKeyJwk;

pub trait DidResolver: Send + Sync {
    fn resolve(&self, url: &str) -> impl Future<Output = anyhow::Result<Document>> + Send;
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Deserialize, Serialize)]
#[serde(rename_all = "camelCase", default)]
pub struct Document {
    pub id: String,
    pub verification_method: Option<Vec<VerificationMethod>>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Deserialize, Serialize)]
#[serde(rename_all = "camelCase", default)]
pub struct VerificationMethod {
    pub id: String,
    pub controller: String,
    pub method_type: MethodType,
}
#[derive(Clone, Debug, PartialEq, Eq, Deserialize, Serialize)]
pub enum MethodType {
    JsonWebKey { public_key_jwk: PublicKeyJwk },
    Other,
}
impl Default for MethodType {
    fn default() -> Self {
        Self::Other
    }
}
impl MethodType {
    pub fn jwk(&self) -> anyhow::Result<PublicKeyJwk> {
        match self {
            Self::JsonWebKey { public_key_jwk } => Ok(public_key_jwk.clone()),
            Self::Other => Err(anyhow::anyhow!("no key")),
        }
    }
}
#[derive(Clone, Debug, Default)]
pub struct Options;
#[derive(Clone, Debug)]
pub enum Resource {
    Document(Document),
    VerificationMethod(VerificationMethod),
}
#[derive(Clone, Debug, Default)]
pub struct Dereferenced {
    pub content_stream: Option<Resource>,
}
pub async fn dereference(did_url: &str, _opts: Option<Options>, resolver: &impl DidResolver) -> anyhow::Result<Dereferenced> {
    let did = did_url.split('#').next().unwrap_or_default();
    let doc = resolver.resolve(did).await?;
    let vm = doc.verification_method.unwrap_or_default().into_iter().find(|v| v.id == did_url);
    Ok(Dereferenced { content_stream: vm.map(Resource::VerificationMethod) })
}
