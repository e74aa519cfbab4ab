//! Expectations derived from the model of a generated document, in the form of multisets of strings.

use crate::gen::{Doc, Kind};
use crate::text::{json_range, range_key};
use serde_json::Value;
use std::collections::HashSet;

pub const UNDEFINED: &str = "Undefined variable";
pub const ELSEWHERE: &str = "Variable is defined in other file.";
pub const MISSING: &str = "Template not found";

/// What the diagnostics of variables have to be
pub fn variables(d: &Doc, others: &HashSet<String>, hide: bool) -> Vec<String> {
    if hide {
        return vec![];
    }
    let mut v = vec![];
    for r in &d.refs {
        if d.resolve(&r.name, r.span.0).is_some() {
            continue;
        }
        let elsewhere = !d.defines(&r.name) && others.contains(&r.name);
        let (message, severity) = if elsewhere { (ELSEWHERE, 3) } else { (UNDEFINED, 2) };
        v.push(format!(
            "{} {} {severity} jinja-lsp ({})",
            range_key(&d.text, r.span),
            message,
            r.name
        ));
    }
    v.sort();
    v
}

pub fn missing(d: &Doc, exists: impl Fn(&str) -> bool) -> Vec<String> {
    let mut v = vec![];
    for s in &d.templates {
        if s.name.is_empty() || !exists(&s.name) {
            v.push(format!("{} {MISSING} 2 jinja-lsp", range_key(&d.text, s.span)));
        }
    }
    v.sort();
    v
}

/// Published diagnostics in the form of the expectations
pub fn published(text: &str, diagnostics: &Value, missing: bool) -> Vec<String> {
    let mut v = vec![];
    for d in diagnostics.as_array().map(|a| a.as_slice()).unwrap_or_default() {
        let message = d["message"].as_str().unwrap_or("");
        if (message == MISSING) != missing {
            continue;
        }
        let mut s = format!(
            "{} {} {} {}",
            json_range(&d["range"]),
            message,
            d["severity"],
            d["source"].as_str().unwrap_or("?")
        );
        if !missing {
            s += &format!(" ({})", at(text, &d["range"]));
        }
        v.push(s);
    }
    v.sort();
    v
}

/// Text of a range of the server
pub fn at<'a>(text: &'a str, range: &Value) -> &'a str {
    let p = |v: &Value| crate::text::Pos {
        line: v["line"].as_u64().unwrap_or(0) as usize,
        ch: v["character"].as_u64().unwrap_or(0) as usize,
    };
    let a = crate::text::offset(text, p(&range["start"]));
    let b = crate::text::offset(text, p(&range["end"]));
    text.get(a..b).unwrap_or("?")
}

pub fn symbols(d: &Doc) -> Vec<String> {
    let mut v: Vec<String> = d
        .defs
        .iter()
        .map(|s| {
            let r = range_key(&d.text, s.span);
            format!("{} {r} {r} kind {}", s.name, s.kind.symbol())
        })
        .collect();
    v.sort();
    v
}

pub fn answered_symbols(answer: &Value) -> Vec<String> {
    let mut v: Vec<String> = answer
        .as_array()
        .map(|a| a.as_slice())
        .unwrap_or_default()
        .iter()
        .map(|s| {
            format!(
                "{} {} {} kind {}",
                s["name"].as_str().unwrap_or("?"),
                json_range(&s["range"]),
                json_range(&s["selectionRange"]),
                s["kind"]
            )
        })
        .collect();
    v.sort();
    v
}

/// Difference of two sorted multisets, None if they are equal
pub fn difference(expected: &[String], actual: &[String]) -> Option<String> {
    if expected == actual {
        return None;
    }
    let mut missing: Vec<&String> = vec![];
    let mut rest: Vec<&String> = actual.iter().collect();
    for e in expected {
        match rest.iter().position(|r| *r == e) {
            Some(i) => {
                rest.remove(i);
            }
            None => missing.push(e),
        }
    }
    Some(format!("expected but missing: {missing:?}; not expected: {rest:?}"))
}

/// Names of variables that other files see
pub fn exported(d: &Doc) -> impl Iterator<Item = &String> {
    d.defs.iter().filter(|d| d.kind != Kind::Block).map(|d| &d.name)
}
