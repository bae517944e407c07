//! Stand-in: the JSON entry points cairo-m uses, over serde_json.
pub use serde_json::{from_slice, from_str, json, to_string, to_string_pretty, to_value, to_vec, Error, Map, Value};
