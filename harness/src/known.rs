//! known_findings.jsonl: defects that are recorded instead of repaired. Each has an id that the
//! checks know; a check tolerates exactly the recorded wrong behaviour of a listed id and nothing
//! else, and says at the end of every run which of them are still there.
use serde_json::Value;
use std::sync::OnceLock;

pub struct Known {
    pub property: String,
    pub id: String,
    pub what: String,
}

pub fn all() -> &'static [Known] {
    static L: OnceLock<Vec<Known>> = OnceLock::new();
    L.get_or_init(|| {
        let mut out = Vec::new();
        if let Ok(t) = std::fs::read_to_string(crate::verif_dir().join("known_findings.jsonl")) {
            for l in t.lines() {
                if let Ok(v) = serde_json::from_str::<Value>(l) {
                    if v["status"] == "known" {
                        let g = |k: &str| v[k].as_str().unwrap_or("").to_string();
                        out.push(Known { property: g("property"), id: g("id"), what: g("what") });
                    }
                }
            }
        }
        out
    })
}

pub fn listed(property: &str, id: &str) -> bool {
    all().iter().any(|k| k.property == property && k.id == id)
}
