//! Model of the COSE_Sign1 structure.
use ciborium::Value;
use serde::{Deserialize, Serialize};
pub mod iana {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
    pub enum Algorithm {
        EdDSA,
        ES256,
        ES256K,
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Header {
    pub alg: Option<iana::Algorithm>,
    pub key_id: Vec<u8>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct CoseSign1 {
    pub protected: Header,
    pub unprotected: Header,
    pub payload: Option<Vec<u8>>,
    pub signature: Vec<u8>,
}
pub trait AsCborValue: Sized {
    fn to_cbor_value(self) -> Result<Value, serde_json::Error>;
    fn from_cbor_value(v: Value) -> Result<Self, serde_json::Error>;
}
impl AsCborValue for CoseSign1 {
    fn to_cbor_value(self) -> Result<Value, serde_json::Error> {
        serde_json::to_value(self)
    }
    fn from_cbor_value(v: Value) -> Result<Self, serde_json::Error> {
        serde_json::from_value(v)
    }
}
#[derive(Default)]
pub struct HeaderBuilder(Header);
impl HeaderBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn algorithm(mut self, a: iana::Algorithm) -> Self {
        self.0.alg = Some(a);
        self
    }
    pub fn key_id(mut self, k: Vec<u8>) -> Self {
        self.0.key_id = k;
        self
    }
    pub fn build(self) -> Header {
        self.0
    }
}
#[derive(Default)]
pub struct CoseSign1Builder(CoseSign1);
impl CoseSign1Builder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn protected(mut self, h: Header) -> Self {
        self.0.protected = h;
        self
    }
    pub fn unprotected(mut self, h: Header) -> Self {
        self.0.unprotected = h;
        self
    }
    pub fn payload(mut self, p: Vec<u8>) -> Self {
        self.0.payload = Some(p);
        self
    }
    pub fn signature(mut self, s: Vec<u8>) -> Self {
        self.0.signature = s;
        self
    }
    pub fn build(self) -> CoseSign1 {
        self.0
    }
}
