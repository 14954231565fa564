//! Bridges between the library's values and the model's.

use crate::model::*;
use phonenumber::country::{Id, Source};
use phonenumber::metadata::Database;
use phonenumber::{Mode, NationalNumber, PhoneNumber};
use serde_json::{json, Value};
use std::sync::OnceLock;

pub fn repo() -> String {
    std::env::var("VMON_REPO").unwrap_or_else(|_| "/repo".into())
}

pub fn xml_path() -> String {
    format!("{}/assets/PhoneNumberMetadata.xml", repo())
}

/// The shipped metadata, read by the oracle.
pub fn bundled() -> &'static Model {
    static M: OnceLock<Model> = OnceLock::new();
    M.get_or_init(|| Model::from_xml(&std::fs::read_to_string(xml_path()).unwrap()))
}

pub fn id(s: &str) -> Option<Id> {
    s.parse().ok()
}

/// Every region of the shipped metadata.
pub fn ids() -> &'static [(String, Id)] {
    static M: OnceLock<Vec<(String, Id)>> = OnceLock::new();
    M.get_or_init(|| {
        let mut v: Vec<(String, Id)> = bundled()
            .terrs
            .iter()
            .filter(|t| t.id != "001")
            .filter_map(|t| t.id.parse().ok().map(|i| (t.id.clone(), i)))
            .collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        v
    })
}

pub const MODES: [(&str, Mode); 4] = [
    ("E164", Mode::E164),
    ("International", Mode::International),
    ("National", Mode::National),
    ("Rfc3966", Mode::Rfc3966),
];

pub fn source(s: Source) -> &'static str {
    match s {
        Source::Plus => "Plus",
        Source::Idd => "Idd",
        Source::Number => "Number",
        Source::Default => "Default",
    }
}

/// What the library says a number is.
pub fn num(p: &PhoneNumber) -> Num {
    Num {
        code: p.code().value(),
        nsn: p.national().to_string(),
        ext: p.extension().map(|e| e.to_string()),
        carrier: p.carrier().map(|c| c.to_string()),
        source: source(p.code().source()),
    }
}

/// Any number at all, through its serialised form; `None` if the serialised
/// form is not as this expects.
pub fn build(code: u16, nsn: &str, ext: Option<&str>, carrier: Option<&str>) -> Option<PhoneNumber> {
    static TEMPLATE: OnceLock<Option<Value>> = OnceLock::new();
    let template = TEMPLATE
        .get_or_init(|| serde_json::to_value(phonenumber::parse(None, "+16502530000").ok()?).ok())
        .as_ref()?;
    let mut v = template.clone();
    let zeros = nsn.len() - nsn.trim_start_matches('0').len();
    let value = nsn[zeros..].parse::<u64>().ok()?;
    *v.get_mut("code")?.get_mut("value")? = json!(code);
    *v.get_mut("national")? = serde_json::to_value(NationalNumber::new(value, zeros as u8).ok()?).ok()?;
    *v.get_mut("extension")? = json!(ext);
    *v.get_mut("carrier")? = json!(carrier);
    let p: PhoneNumber = serde_json::from_value(v).ok()?;
    // Only usable if it is what was asked for.
    (p.code().value() == code && p.national().to_string() == nsn).then_some(p)
}

/// The same number with the calling code inferred in some way or other.
pub fn sourced(p: PhoneNumber, r: &mut crate::rng::Rng) -> PhoneNumber {
    let other = || {
        let mut v = serde_json::to_value(&p).ok()?;
        *v.get_mut("code")?.get_mut("source")? = json!(r.pick(&["plus", "idd", "number", "default"]));
        serde_json::from_value::<PhoneNumber>(v).ok().filter(|q| *q == p)
    };
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(other)).ok().flatten().unwrap_or(p)
}

/// Build a number, by its serialised form or else by parsing its E.164 text.
pub fn number(code: u16, nsn: &str) -> Option<PhoneNumber> {
    build(code, nsn, None, None).or_else(|| {
        let p = phonenumber::parse(None, format!("+{code}{nsn}")).ok()?;
        (p.code().value() == code && p.national().to_string() == nsn).then_some(p)
    })
}

pub fn kind(p: &PhoneNumber, db: Option<&Database>) -> String {
    match db {
        None => format!("{:?}", p.number_type()),
        Some(db) => format!("{:?}", p.number_type_with(db)),
    }
}

pub fn show(p: &Result<PhoneNumber, phonenumber::ParseError>) -> Value {
    match p {
        Ok(p) => json!(format!("{:?}", num(p))),
        Err(e) => json!(format!("error: {e}")),
    }
}
