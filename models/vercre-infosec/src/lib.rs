//! Model of vercre-infosec with ideal signatures: a compact JWS is a reference to a record of what was signed, by
//! which key and with which header; it verifies exactly under that key.
use std::fmt::{self, Display};
use std::future::Future;
use serde::{Deserialize, Serialize};

pub trait SecOps: Send + Sync {
    fn signer(&self, identifier: &str) -> anyhow::Result<impl Signer>;
    fn encryptor(&self, identifier: &str) -> anyhow::Result<impl Encryptor>;
    fn decryptor(&self, identifier: &str) -> anyhow::Result<impl Decryptor>;
}
pub trait Signer: Send + Sync {
    fn sign(&self, msg: &[u8]) -> impl Future<Output = Vec<u8>> + Send {
        let v = self.try_sign(msg);
        async { v.await.expect("should sign") }
    }
    fn try_sign(&self, msg: &[u8]) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
    fn public_key(&self) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
    fn algorithm(&self) -> Algorithm;
    fn verification_method(&self) -> String;
}
pub trait Encryptor: Send + Sync {
    fn encrypt(&self, plaintext: &[u8], recipient_public_key: &[u8]) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
    fn public_key(&self) -> Vec<u8>;
}
pub trait Decryptor: Send + Sync {
    fn decrypt(&self, ciphertext: &[u8], sender_public_key: &[u8]) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Deserialize, Serialize)]
pub enum Algorithm {
    #[default]
    EdDSA,
    ES256K,
}
impl Display for Algorithm {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            Self::EdDSA => "EdDSA",
            Self::ES256K => "ES256K",
        })
    }
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Deserialize, Serialize)]
pub enum KeyType {
    #[default]
    Okp,
    Ec,
    Oct,
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Deserialize, Serialize)]
pub enum Curve {
    #[default]
    Ed25519,
    Es256K,
}
pub use jose::jwk::PublicKeyJwk;

pub mod jose {
    pub mod jwa {
        pub use crate::Algorithm;
    }
    pub mod jwk {
        use serde::{Deserialize, Serialize};
        #[derive(Clone, Debug, Default, PartialEq, Eq, Deserialize, Serialize)]
        pub struct PublicKeyJwk {
            pub x: String,
        }
    }
    pub mod jwt {
        pub use super::jws::{Header, Jwt};
    }
    pub mod jws {
        use super::jwk::PublicKeyJwk;
        use crate::{Algorithm, Signer};
        use serde::de::DeserializeOwned;
        use serde::{Deserialize, Serialize};
        use std::fmt::{self, Display};
        use std::future::Future;
        use std::sync::Mutex;

        #[derive(Clone, Debug, Default, PartialEq, Eq, Deserialize, Serialize)]
        pub enum Type {
            #[default]
            Credential,
            Presentation,
            Request,
            Proof,
            Jwt,
        }
        impl Display for Type {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(match self {
                    Self::Proof => "openid4vci-proof+jwt",
                    Self::Request => "oauth-authz-req+jwt",
                    _ => "jwt",
                })
            }
        }
        #[derive(Clone, Debug, PartialEq, Eq, Deserialize, Serialize)]
        pub enum KeyType {
            KeyId(String),
            Jwk(PublicKeyJwk),
        }
        impl Default for KeyType {
            fn default() -> Self {
                Self::KeyId(String::new())
            }
        }
        #[derive(Clone, Debug, Default, PartialEq, Eq, Deserialize, Serialize)]
        pub struct Header {
            pub alg: Algorithm,
            pub typ: Type,
            pub key: KeyType,
        }
        #[derive(Clone, Debug, Default, PartialEq, Eq, Deserialize, Serialize)]
        pub struct Jwt<T> {
            pub header: Header,
            pub claims: T,
        }
        /// what one compact JWS stands for
        #[derive(Clone, Debug)]
        pub struct Signed {
            pub header: Header,
            pub claims: serde_json::Value,
            /// public key it verifies under
            pub key: String,
        }
        static TABLE: Mutex<Vec<Signed>> = Mutex::new(Vec::new());
        pub fn model_put(s: Signed) -> String {
            let mut t = TABLE.lock().unwrap();
            t.push(s);
            format!("jws.{}", t.len() - 1)
        }
        pub fn model_get(token: &str) -> Option<Signed> {
            let n: usize = token.strip_prefix("jws.")?.parse().ok()?;
            TABLE.lock().unwrap().get(n).cloned()
        }
        pub async fn encode<T: Serialize + Send>(typ: Type, claims: &T, signer: impl Signer) -> anyhow::Result<String> {
            let claims = serde_json::to_value(claims)?;
            let key = String::from_utf8(signer.public_key().await?)?;
            let header = Header { alg: signer.algorithm(), typ, key: KeyType::KeyId(signer.verification_method()) };
            Ok(model_put(Signed { header, claims, key }))
        }
        pub async fn decode<F, Fut, T>(token: &str, pk_cb: F) -> anyhow::Result<Jwt<T>>
        where
            T: DeserializeOwned + Send,
            F: Fn(String) -> Fut + Send + Sync,
            Fut: Future<Output = anyhow::Result<PublicKeyJwk>> + Send,
        {
            let Some(s) = model_get(token) else {
                return Err(anyhow::anyhow!("invalid Compact JWS format"));
            };
            let KeyType::KeyId(kid) = s.header.key.clone() else {
                return Err(anyhow::anyhow!("'kid' is not set"));
            };
            let jwk = pk_cb(kid).await?;
            if jwk.x != s.key {
                return Err(anyhow::anyhow!("issue verifying signature"));
            }
            let claims = serde_json::from_value(s.claims)?;
            Ok(Jwt { header: s.header, claims })
        }
    }
}

pub mod cose {
    use crate::{Curve, KeyType};
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    #[derive(Clone, Debug, Default, PartialEq, Eq, Deserialize, Serialize)]
    pub struct CoseKey {
        pub kty: KeyType,
        pub crv: Curve,
        pub x: Vec<u8>,
        pub y: Option<Vec<u8>>,
    }
    /// CBOR item wrapped in a byte string with tag 24
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct Tag24<T>(pub T);
    impl<T> std::ops::Deref for Tag24<T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.0
        }
    }
    impl<T: Serialize> Tag24<T> {
        pub fn to_vec(&self) -> anyhow::Result<Vec<u8>> {
            cbor::to_vec(self)
        }
    }
    impl<T: Serialize> Serialize for Tag24<T> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_newtype_struct("Tag24", &self.0)
        }
    }
    impl<'de, T: Deserialize<'de>> Deserialize<'de> for Tag24<T> {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            T::deserialize(d).map(Self)
        }
    }
    pub mod cbor {
        //! an injective encoding: JSON text
        use serde::de::DeserializeOwned;
        use serde::Serialize;
        pub fn to_vec<T: Serialize>(v: &T) -> anyhow::Result<Vec<u8>> {
            Ok(serde_json::to_vec(v)?)
        }
        pub fn from_slice<T: DeserializeOwned>(b: &[u8]) -> anyhow::Result<T> {
            Ok(serde_json::from_slice(b)?)
        }
    }
}
