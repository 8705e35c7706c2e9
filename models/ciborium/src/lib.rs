//! Model: CBOR values are JSON values.
pub use serde_json::Value;
pub mod value {
    pub use serde_json::Value;
}
#[macro_export]
macro_rules! cbor {
    ($e:expr) => {
        $crate::to_value(&$e)
    };
}
pub fn to_value<T: serde::Serialize>(v: &T) -> Result<Value, serde_json::Error> {
    serde_json::to_value(v)
}
