//! Harnesses over vercre-core and vercre-dif-exch. One `extern "C"` function per decision problem; the mapping from
//! properties to entries is in /verif/checks.py.
pub mod base;
pub mod gen;
pub mod pex;
pub mod url;
