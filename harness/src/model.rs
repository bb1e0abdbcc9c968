//! Comparing what the code reports with the interface model.

use oracle::iface::Iface;
use oracle::tygen::MTy;
use scilla_parser::{Contract, Error, FieldList, Type};

pub fn matches(t: &Type, m: &MTy) -> bool {
    match (t, m) {
        (_, MTy::Any) => true,
        (Type::ByStr, MTy::ByStr) | (Type::ByStr20, MTy::ByStr20) => true,
        (Type::ByStrX(a), MTy::ByStrX(b)) => a == b,
        (Type::Map(a, b), MTy::Map(c, d)) | (Type::Pair(a, b), MTy::Pair(c, d)) => matches(a, c) && matches(b, d),
        (Type::Option(a), MTy::Option(b)) | (Type::List(a), MTy::List(b)) => matches(a, b),
        (Type::ByStr20With { type_name, fields }, MTy::Addr(k, f)) => type_name == k && list(fields, f).is_none(),
        (Type::Other(a), MTy::Other(b)) => a == b,
        (t, MTy::Prim(p)) => prim(t) == Some(p.as_str()),
        _ => false,
    }
}

fn prim(t: &Type) -> Option<&'static str> {
    Some(match t {
        Type::Int32 => "Int32",
        Type::Int64 => "Int64",
        Type::Int128 => "Int128",
        Type::Int256 => "Int256",
        Type::Uint32 => "Uint32",
        Type::Uint64 => "Uint64",
        Type::Uint128 => "Uint128",
        Type::Uint256 => "Uint256",
        Type::String => "String",
        Type::BNum => "BNum",
        Type::Bool => "Bool",
        _ => return None,
    })
}

fn list(got: &FieldList, want: &[(String, MTy)]) -> Option<String> {
    if got.len() != want.len() {
        let g: Vec<&String> = got.iter().map(|f| &f.name).collect();
        let w: Vec<&String> = want.iter().map(|f| &f.0).collect();
        return Some(format!("{} entries {:?} instead of {} {:?}", g.len(), g, w.len(), w));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g.name != w.0 {
            return Some(format!("entry {} is named {:?} instead of {:?}", i, g.name, w.0));
        }
        if !matches(&g.r#type, &w.1) {
            return Some(format!("entry {} ({}) has type {:?}, declared {:?}", i, g.name, g.r#type, w.1));
        }
    }
    None
}

/// First difference between a parse result and the declared interface.
pub fn iface_diff(got: &Contract, want: &Iface) -> Option<String> {
    if got.name != want.name {
        return Some(format!("contract name {:?} instead of {:?}", got.name, want.name));
    }
    if let Some(d) = list(&got.init_params, &want.params) {
        return Some(format!("deployment parameters: {}", d));
    }
    if let Some(d) = list(&got.fields, &want.fields) {
        return Some(format!("fields: {}", d));
    }
    if got.transitions.len() != want.transitions.len() {
        let g: Vec<&String> = got.transitions.iter().map(|t| &t.name).collect();
        let w: Vec<&String> = want.transitions.iter().map(|t| &t.0).collect();
        return Some(format!("{} transitions {:?} instead of {} {:?}", g.len(), g, w.len(), w));
    }
    for (i, (g, w)) in got.transitions.iter().zip(&want.transitions).enumerate() {
        if g.name != w.0 {
            return Some(format!("transition {} is named {:?} instead of {:?}", i, g.name, w.0));
        }
        if let Some(d) = list(&g.params, &w.1) {
            return Some(format!("transition {} ({}): {}", i, g.name, d));
        }
    }
    None
}

/// The error a text must give, if any: a parse error with a description.
pub fn is_parse_error(e: &Error) -> bool {
    matches!(e, Error::ParseError(s) if !s.trim().is_empty())
}

pub fn result_text(r: &Result<Contract, Error>) -> String {
    match r {
        Ok(c) => format!("Ok({:?})", c),
        Err(e) => format!("Err({:?})", e),
    }
}
