//! What the libraries the validators are built on say about an input, and how
//! values of shared types are shown to the specification.
#![allow(unused)]
use std::net::*;

use validators::models::Host;

use crate::core::*;

pub fn ipv4_val(ip: &Ipv4Addr) -> Value {
    json!(ip.octets())
}
pub fn ipv6_val(ip: &Ipv6Addr) -> Value {
    json!(ip.segments())
}
pub fn ip_val(ip: &IpAddr) -> Value {
    match ip {
        IpAddr::V4(ip) => ipv4_val(ip),
        IpAddr::V6(ip) => ipv6_val(ip),
    }
}
pub fn host_val(h: &Host) -> (&'static str, Value) {
    match h {
        Host::IPv4(ip) => ("4", ipv4_val(ip)),
        Host::IPv6(ip) => ("6", ipv6_val(ip)),
        Host::Domain(d) => ("d", cps(d)),
    }
}
pub fn host_of_ip(ip: &IpAddr) -> (&'static str, Value) {
    match ip {
        IpAddr::V4(ip) => ("4", ipv4_val(ip)),
        IpAddr::V6(ip) => ("6", ipv6_val(ip)),
    }
}
pub fn host_of_name(d: &String) -> (&'static str, Value) {
    ("d", cps(d))
}
pub fn opt_text(t: &Option<String>) -> Value {
    match t {
        Some(t) => cps(t),
        None => json!([-1]),
    }
}

/// A text, and its IDNA form.
fn idna(s: &str) -> Value {
    let r = validators::idna::Config::default().use_std3_ascii_rules(true).verify_dns_length(true).check_hyphens(true).to_ascii(s);
    let a = match &r {
        Ok(a) => cps(a),
        Err(_) => json!([-1]),
    };
    json!([cps(s), a])
}
/// ASCII names without punycode labels are decided by the specification itself.
fn needs_idna(s: &str) -> bool {
    !s.is_ascii() || s.to_ascii_lowercase().contains("xn--")
}
fn idna_all(mut names: Vec<String>) -> Value {
    names.sort();
    names.dedup();
    let mut out: Vec<Value> = Vec::new();
    for n in names {
        if needs_idna(&n) {
            out.push(idna(&n));
        }
        // the mapped name may be asked for again
        if let Ok(a) = validators::idna::Config::default().use_std3_ascii_rules(true).verify_dns_length(true).check_hyphens(true).to_ascii(&n) {
            if a != n && needs_idna(&a) {
                out.push(idna(&a));
            }
        }
    }
    json!({ "idna": out })
}

pub fn net_oracle(i: &Input) -> Value {
    let s = i.text();
    let mut names = vec![s.clone()];
    if let Some(k) = s.rfind(':') {
        names.push(s[..k].to_string());
    }
    idna_all(names)
}
pub fn email_oracle(i: &Input) -> Value {
    let s = i.text();
    let mut names = Vec::new();
    for (k, c) in s.char_indices() {
        if c == '@' || c == ')' {
            let rest = &s[k + 1..];
            names.push(rest.split('(').next().unwrap().to_string());
        }
    }
    idna_all(names)
}

// ---------------------------------------------------------------- URLs
pub fn url_of(s: &str) -> Option<validators::url::Url> {
    validators::url::Url::parse(s).ok()
}
pub fn url_oracle(i: &Input) -> Value {
    match url_of(&i.text()) {
        None => json!({"ok": false, "scheme": [], "text": [], "kind": "n", "h": []}),
        Some(u) => {
            let (kind, h) = match u.host() {
                None => ("n", json!([])),
                Some(validators::url::Host::Domain(d)) => ("d", cps(d)),
                Some(validators::url::Host::Ipv4(ip)) => ("4", ipv4_val(&ip)),
                Some(validators::url::Host::Ipv6(ip)) => ("6", ipv6_val(&ip)),
            };
            json!({"ok": true, "scheme": cps(u.scheme()), "text": cps(u.as_str()), "kind": kind, "h": h})
        },
    }
}

// ---------------------------------------------------------------- floats
fn parts(b: u64) -> Value {
    json!([b >> 48, (b >> 32) & 0xffff, (b >> 16) & 0xffff, b & 0xffff])
}
/// A float, shown as its bits; every NaN is the same.
pub fn f64_val(f: f64) -> Value {
    if f.is_nan() { json!({"nan": true, "bits": [0, 0, 0, 0]}) } else { json!({"nan": false, "bits": parts(f.to_bits())}) }
}
fn float(f: f64, ser: Value) -> Value {
    let z = if f == 0.0 { 0.0f64 } else { f };
    let b = z.to_bits();
    let key = if b >> 63 == 1 { !b } else { b | 1 << 63 };
    let mut v = f64_val(f);
    v["key"] = parts(key);
    v["finite"] = f.is_finite().into();
    v["ser"] = ser;
    v
}
/// The float of each field type a text (of this kind) denotes.
pub fn number_oracle(i: &Input) -> Value {
    let s = i.text();
    let (a, b) = match i.kind.as_str() {
        "f32" => (s.parse::<f32>().ok(), s.parse::<f32>().ok().map(|f| f as f64)),
        "f64" => (s.parse::<f64>().ok().map(|f| f as f32), s.parse::<f64>().ok()),
        _ => (s.parse::<f32>().ok(), s.parse::<f64>().ok()),
    };
    let none = json!({"nan": false, "bits": [], "key": [], "finite": false, "ser": {"t": "", "c": []}});
    json!({
        "f32": a.map(|f| float(f as f64, ser_form(&f))).unwrap_or(none.clone()),
        "f64": b.map(|f| float(f, ser_form(&f))).unwrap_or(none),
    })
}

// ---------------------------------------------------------------- requirements
pub fn semver_req_oracle(i: &Input) -> Value {
    match validators::semver::VersionReq::parse(&i.text()) {
        Ok(r) => json!({"ok": true, "text": cps(&r.to_string())}),
        Err(_) => json!({"ok": false, "text": []}),
    }
}

// ---------------------------------------------------------------- sizes
/// What the byte-unit library reads: with b for bytes, with b for bits, as bits.
pub fn size_oracle(i: &Input) -> Value {
    use validators::byte_unit::*;
    fn show<T: serde::Serialize>(n: Option<u128>, t: Option<T>) -> Value {
        match (n, t) {
            (Some(n), Some(t)) => json!({"ok": true, "n": cps(&n.to_string()), "ser": ser_form(&t)}),
            _ => json!({"ok": false, "n": [], "ser": {"t": "", "c": []}}),
        }
    }
    let s = i.text();
    let (a, b, c) = if i.kind == "text" {
        (caught(|| Byte::parse_str(&s, true).ok()).flatten(), caught(|| Byte::parse_str(&s, false).ok()).flatten(), caught(|| Bit::parse_str(&s).ok()).flatten())
    } else {
        let n = s.parse::<u128>().ok();
        (n.and_then(Byte::from_u128), n.and_then(Byte::from_u128), n.and_then(Bit::from_u128))
    };
    json!({"any": show(a.map(|x| x.as_u128()), a), "exact": show(b.map(|x| x.as_u128()), b), "bit": show(c.map(|x| x.as_u128()), c)})
}

// ---------------------------------------------------------------- JSON
/// A document in the specification's form.
pub fn doc_val(v: &Value) -> Value {
    match v {
        Value::Null => json!(["z"]),
        Value::Bool(true) => json!(["t"]),
        Value::Bool(false) => json!(["f"]),
        Value::Number(n) => json!(["n", cps(&n.to_string())]),
        Value::String(s) => json!(["s", cps(s)]),
        Value::Array(a) => json!(["a", a.iter().map(doc_val).collect::<Vec<_>>()]),
        Value::Object(o) => json!(["o", o.iter().map(|(k, v)| json!([cps(k), doc_val(v)])).collect::<Vec<_>>()]),
    }
}
/// What the numerals of a text are to the number library.
pub fn json_oracle(i: &Input) -> Value {
    let s = i.text();
    let mut nums = Vec::new();
    let mut floats = Vec::new();
    let runs: Vec<&str> = s.split(|c: char| !matches!(c, '0'..='9' | '+' | '-' | '.' | 'e' | 'E')).filter(|t| !t.is_empty()).collect();
    let mut put = |t: &str, n: Option<serde_json::Number>| {
        nums.push(json!([cps(t), n.as_ref().map(|n| cps(&n.to_string())).unwrap_or(json!([-1]))]));
        if let Some(f) = n.as_ref().and_then(|n| n.as_f64()).and_then(serde_json::Number::from_f64) {
            floats.push(json!([cps(&n.unwrap().to_string()), cps(&f.to_string())]));
        }
    };
    if i.kind == "f64" {
        put(&s, s.parse::<f64>().ok().and_then(serde_json::Number::from_f64));
    } else if matches!(i.kind.as_str(), "text" | "doc") {
        for t in runs {
            put(t, serde_json::from_str::<serde_json::Number>(t).ok());
        }
    } else if let Ok(n) = s.parse::<i64>() {
        put(&n.to_string(), Some(n.into()));
    } else if let Ok(n) = s.parse::<u64>() {
        put(&n.to_string(), Some(n.into()));
    }
    json!({"nums": nums, "floats": floats})
}

// ---------------------------------------------------------------- phone numbers
use validators::phonenumber::{self, PhoneNumber, country::Id};
pub const COUNTRIES: [(&str, Id); 10] = [("US", Id::US), ("CA", Id::CA), ("GB", Id::GB), ("TW", Id::TW), ("JP", Id::JP), ("FR", Id::FR), ("IT", Id::IT), ("AU", Id::AU), ("KZ", Id::KZ), ("RU", Id::RU)];
pub fn phone_val(p: &PhoneNumber) -> Value {
    cps(&serde_json::to_string(p).unwrap())
}
pub fn phones_val(m: &std::collections::HashMap<Id, PhoneNumber>) -> Value {
    let mut v: Vec<(String, Value)> = m.iter().map(|(k, p)| (k.as_ref().to_string(), phone_val(p))).collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    json!(v)
}
/// What the phonenumber library reads, for no country and for each.
pub fn phone_oracle(i: &Input) -> Value {
    let s = i.text();
    let one = |c: Option<Id>| match caught(|| phonenumber::parse(c, &s).ok()).flatten() {
        None => json!({"ok": false, "valid": false, "id": "", "num": []}),
        Some(p) => json!({"ok": true, "valid": p.is_valid(), "id": p.country().id().map(|i| i.as_ref().to_string()).unwrap_or_default(), "num": phone_val(&p)}),
    };
    let mut m = Map::new();
    m.insert("none".into(), one(None));
    for (n, c) in COUNTRIES {
        m.insert(n.into(), one(Some(c)));
    }
    m.into()
}
