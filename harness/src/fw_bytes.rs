//! Bytes in replay files: text when they are text, hexadecimal otherwise.
use serde::{Deserialize, Deserializer, Serializer};

pub fn to_text(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => format!("u:{}", s),
        Err(_) => format!("x:{}", b.iter().map(|b| format!("{:02x}", b)).collect::<String>()),
    }
}

pub fn from_text(s: &str) -> Result<Vec<u8>, String> {
    if let Some(s) = s.strip_prefix("u:") {
        return Ok(s.as_bytes().to_vec());
    }
    let s = s.strip_prefix("x:").ok_or("neither u: nor x:")?;
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(|e| e.to_string())).collect()
}

pub fn serialize<S: Serializer>(b: &Vec<u8>, s: S) -> Result<S::Ok, S::Error> {
    s.serialize_str(&to_text(b))
}

pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
    let s = String::deserialize(d)?;
    from_text(&s).map_err(serde::de::Error::custom)
}
