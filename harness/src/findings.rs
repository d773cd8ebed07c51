//! The committed list of known findings: `known_findings.txt`, one per line:
//! `finding: property=<id> sig=<exact signature> :: <description>` and `fixed: property=<id> <commit> <what failed>`

#[derive(Clone)]
pub struct Known { pub sig: String, pub text: String }

pub fn known(id: &str) -> Vec<Known> {
    let path = format!("{}/known_findings.txt", crate::root());
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut v = Vec::new();
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix(&format!("finding: property={} sig=", id)) {
            if let Some((sig, d)) = rest.split_once(" :: ") {
                v.push(Known { sig: sig.to_string(), text: d.to_string() });
            }
        }
    }
    v
}
