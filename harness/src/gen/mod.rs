pub mod big;
pub mod model;
pub mod soup;

use serde_json::Value;
use std::sync::OnceLock;

/// The inputs of the repository's fixture tests, as seeds for mutation.
pub fn corpus() -> &'static Vec<String> {
    static C: OnceLock<Vec<String>> = OnceLock::new();
    C.get_or_init(|| {
        let v: Value = serde_json::from_str(include_str!("../../corpus.json")).unwrap();
        v.as_array()
            .unwrap()
            .iter()
            .filter_map(|s| s.as_str().map(|s| s.to_string()))
            .collect()
    })
}
