//! Histories of edits that end in a given text.

use crate::tape::Tape;
use crate::text::{pos, Span};
use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub struct Edit {
    /// in the text before; None replaces the whole text
    pub span: Option<Span>,
    pub text: String,
}

pub const JUNK: [&str; 45] = [
    "\r", "x", " ", "\n", "\r\n", "\u{e9}", "\u{1f600}", "{{", "}}", "{%", "%}", "{#", "#}", "\"", "'", "{{ zz }}", "{% set q = 1 %}",
    "{% if x %}", "{% endif %}", "{% for a in b %}", "{% endfor %}", "{% raw %}", "{% endraw %}", "{% macro m(a, b=1) %}",
    "{% endmacro %}", "{% block b %}", "|", "is", ".", "(", ")", "[", "=", ",", "e\u{301}", "\u{65e5}\u{672c}", "{%- ", " -%}",
    "fn f() {", "}", "render_jinja(\"t0.html\")", "def f():\n", "\"\"\"", "#", "//",
];

/// Offset that a client can have: at a character, not inside of \r\n
pub fn boundary(text: &str, mut at: usize) -> usize {
    at = at.min(text.len());
    while !text.is_char_boundary(at) || (at > 0 && text.as_bytes()[at - 1] == b'\r' && text[at..].starts_with('\n')) {
        at -= 1;
    }
    at
}

fn span(t: &mut Tape, text: &str, max: usize) -> Span {
    let a = boundary(text, t.below(text.len() + 1));
    let n = if t.chance(10) { t.below(text.len() + 1) } else { t.range(1, max) };
    (a, boundary(text, a + n).max(a))
}

fn junk(t: &mut Tape, text: &str) -> String {
    match t.below(4) {
        0 => {
            let s = span(t, text, 30);
            text[s.0..s.1].to_string()
        }
        1 => (0..t.range(1, 4)).map(|_| *t.pick(&JUNK)).collect(),
        _ => t.pick(&JUNK).to_string(),
    }
}

/// First text and edits that lead to `target`
pub fn history(t: &mut Tape, target: &str, steps: usize) -> (String, Vec<Edit>) {
    let mut text = target.to_string();
    let mut back: Vec<Edit> = vec![];
    for _ in 0..steps {
        let (previous, kept) = (text.clone(), back.len());
        match t.weighted(&[4, 3, 4, 2, 1]) {
            // the user deletes junk
            0 => {
                let at = boundary(&text, t.below(text.len() + 1));
                let s = junk(t, &text);
                text.insert_str(at, &s);
                back.push(Edit {
                    span: Some((at, at + s.len())),
                    text: String::new(),
                });
            }
            // inserts a part
            1 => {
                let (a, b) = span(t, &text, 40);
                let removed = text[a..b].to_string();
                text.replace_range(a..b, "");
                back.push(Edit {
                    span: Some((a, a)),
                    text: removed,
                });
            }
            // replaces something
            2 => {
                let (a, b) = span(t, &text, 20);
                let s = junk(t, &text);
                let removed = text[a..b].to_string();
                text.replace_range(a..b, &s);
                back.push(Edit {
                    span: Some((a, a + s.len())),
                    text: removed,
                });
            }
            // types a part
            3 => {
                let (a, b) = span(t, &text, 25);
                let b = b.min(boundary(&text, a + 40).max(a));
                let removed = text[a..b].to_string();
                text.replace_range(a..b, "");
                let mut typed = vec![];
                let mut at = a;
                let mut chars = removed.chars().peekable();
                while let Some(c) = chars.next() {
                    let mut s = c.to_string();
                    if c == '\r' {
                        if let Some(c) = chars.next_if_eq(&'\n') {
                            s.push(c);
                        }
                    }
                    let n = s.len();
                    typed.push(Edit {
                        span: Some((at, at)),
                        text: s,
                    });
                    at += n;
                }
                typed.reverse();
                back.extend(typed);
            }
            _ => {
                let before = if t.chance(50) { junk(t, &text) } else { format!("{}{}", junk(t, &text), junk(t, &text)) };
                let whole = std::mem::replace(&mut text, before);
                let range = if t.chance(50) { None } else { Some((0, text.len())) };
                back.push(Edit { span: range, text: whole });
            }
        }
        // a new \r\n at the ends of an edit can't be edited like this
        let mut now = text.clone();
        let apart = back[kept..].iter().rev().all(|e| {
            let (a, b) = e.span.unwrap_or_default();
            let apart = boundary(&now, a) == a && boundary(&now, b) == b;
            if apart {
                apply(&mut now, e);
            }
            apart
        });
        if !apart {
            text = previous;
            back.truncate(kept);
        }
    }
    back.reverse();
    (text, back)
}

pub fn apply(text: &mut String, e: &Edit) {
    match e.span {
        Some((a, b)) => text.replace_range(a..b, &e.text),
        None => *text = e.text.clone(),
    }
}

/// contentChange of this edit
pub fn change(before: &str, e: &Edit, length: bool) -> Value {
    let mut v = json!({"text": e.text});
    if let Some((a, b)) = e.span {
        let (p, q) = (pos(before, a), pos(before, b));
        v["range"] = json!({"start": {"line": p.line, "character": p.ch}, "end": {"line": q.line, "character": q.ch}});
        if length {
            v["rangeLength"] = json!(before[a..b].encode_utf16().count());
        }
    }
    v
}
