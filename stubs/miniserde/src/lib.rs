//! A stand-in for miniserde, which is not available offline, on serde. (The derived code names
//! `serde`, so the manifest of the user lists it.)
pub use serde::{de, ser, Deserialize, Serialize};

#[derive(Debug, Clone, Copy)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("miniserde error")
    }
}
impl std::error::Error for Error {}

pub mod json {
    pub use serde_json::{Number, Value};

    pub fn from_str<T: serde::de::DeserializeOwned>(s: &str) -> Result<T, crate::Error> {
        serde_json::from_str(s).map_err(|_| crate::Error)
    }
    pub fn to_string<T: serde::Serialize + ?Sized>(x: &T) -> String {
        serde_json::to_string(x).expect("plain data")
    }
}
