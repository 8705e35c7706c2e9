//! Harnesses over the protocol crates (vercre-openid, -w3c-vc, -status, -iso-mdl, -issuer, -verifier, -holder).
#![allow(unused_imports, dead_code)]
pub mod env;
pub mod data;
#[cfg(feature = "o01")]
pub mod wire;
#[cfg(feature = "iss")]
pub mod iss;
#[cfg(feature = "iss")]
pub mod auth;
#[cfg(feature = "iss")]
pub mod cred;
#[cfg(feature = "iss")]
pub mod defer;
#[cfg(feature = "ver")]
pub mod ver;
#[cfg(feature = "hold")]
pub mod hold;
#[cfg(any(feature = "c01", feature = "c02"))]
pub mod conc;
