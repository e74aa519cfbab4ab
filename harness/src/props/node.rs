//! C19: the Node addon answers like the server, per snippet and line.

use crate::back::{self, BackOpts};
use crate::ctx::{Ctx, Stats};
use crate::gen::{self, Doc, Gen, Kind, Opts};
use crate::lsp::{violation, Res, Server};
use crate::model;
use crate::node::Node;
use crate::tape::Tape;
use crate::text::{pos, Pos, Span};
use crate::Prop;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C19",
        quick: 2400,
        thorough: 50000,
        batch: 1,
        tape: 1800,
        threads: 8,
        shrink_s: 40,
        run: c19,
        rule: "A case is a history of calls of the addon (snippets of templates and of Python added, replaced and deleted for \
            several files, links saved and removed, calls with hostile arguments in between), followed by questions about \
            every snippet that there is or was; the answers are compared with those of a server that has opened the same texts. \
            Non-trivial if at least two snippets remain, something was deleted or replaced, and a question was answered \
            for a snippet that doesn't start at line 0 and column 0.",
        assumptions: &[
            "well-formed templates and Python files of the generators (other texts are only added by the hostile calls)",
            "files have no `..` in their names",
        ],
    }]
}

#[derive(Clone)]
enum Kept {
    Template(Doc),
    Python {
        text: String,
        /// `a.b` and its range
        attributes: Vec<(String, Span)>,
        vars: Vec<(String, Span)>,
        templates: Vec<(String, Span)>,
    },
}

struct Snippet {
    file: String,
    id: u32,
    line: u32,
    col: usize,
    kept: Kept,
}

impl Snippet {
    /// Text with the blanks before it
    fn text(&self) -> String {
        let text = match &self.kept {
            Kept::Template(d) => &d.text,
            Kept::Python { text, .. } => text,
        };
        " ".repeat(self.col) + text
    }
    fn ext(&self) -> &'static str {
        match self.kept {
            Kept::Template(_) => "jinja",
            Kept::Python { .. } => "py",
        }
    }
    fn uri(&self) -> String {
        uri(&self.file, self.id, self.ext())
    }
    fn describe(&self) -> String {
        format!("--- {} (line {}, column {})\n{}\n", self.uri(), self.line, self.col, self.text())
    }
}

fn uri(file: &str, id: u32, ext: &str) -> String {
    let mut s = String::new();
    for b in file.bytes() {
        if b == b' ' || b >= 0x80 || b == b'"' {
            s += &format!("%{b:02X}");
        } else {
            s.push(b as char);
        }
    }
    format!("file:///home/{s}.{id}.{ext}")
}

const FILES: [&str; 16] = [
    "nb", "nb2", "nb.1", "b", "my nb", "dir/nb", "temp", "template", "home", "jinja", "\u{e9}\u{1f600}", "a%20b", "untitled:Untitled-1",
    "file:///nb", "nb.1.jinja", "1",
];
const LINES: [u32; 8] = [0, 0, 1, 2, 7, 31, 500, 100_000];
const HOSTILE: [&str; 14] = ["", "?", "#", "%", "%zz", "a?b", "\u{0}", "\n", "\t ", "\\", "//", "[", "\u{202e}", ":"];

/// `paths` are those that snippets mention
fn links(t: &mut Tape, names: &[String], paths: &[String]) -> Vec<(String, String)> {
    let n = t.range(1, 4);
    let mut v: Vec<(String, String)> = vec![];
    for i in 0..n {
        let mut name = t.pick(names).clone();
        match t.below(9) {
            0 | 1 => {}
            6 => name = format!("x_{name}"),
            7 | 8 => {
                if !paths.is_empty() {
                    name = t.pick(paths).clone();
                }
            }
            2 => name += "_more",
            3 => {
                let n = t.range(1, name.len());
                name.truncate(n);
            }
            _ => {
                for _ in 0..t.range(1, 2) {
                    name = format!("{name}.{}", t.pick(&gen::FIELDS));
                }
            }
        }
        v.push((name, format!("link {i} \u{e9}")));
    }
    v
}

fn first(name: &str) -> &str {
    name.split('.').next().unwrap_or(name)
}

fn python(t: &mut Tape, names: &[String]) -> Kept {
    if t.chance(40) {
        let o = BackOpts {
            names,
            templates: &[],
            unicode: t.chance(20),
            crlf: false,
            size: 6,
        };
        let b = back::generate(t, &o, "python");
        return Kept::Python {
            text: b.text,
            attributes: vec![],
            vars: b.vars,
            templates: b.templates,
        };
    }
    let mut text = String::new();
    let mut attributes = vec![];
    for _ in 0..t.range(1, 5) {
        let mut name = t.pick(names).clone();
        for _ in 0..t.range(0, 2) {
            name = format!("{name}.{}", t.pick(&gen::FIELDS));
        }
        let (before, after, real) = *t.pick(&[
            ("v = ", "", true),
            ("print(", ", 1)", true),
            ("print(\"\u{1f600}\", ", ")", true),
            ("", " = 1", true),
            ("", "()", true),
            ("if ", ":\n    pass", true),
            ("v = [1, ", "]", true),
            ("# ", "", false),
            ("v = \"", "\"", false),
            ("v = \"\u{e9}\" + ", " + \"text\"", true),
        ]);
        text += before;
        let start = text.len();
        text += &name;
        if real && name.contains('.') {
            attributes.push((name, (start, text.len())));
        }
        text += after;
        text.push('\n');
    }
    Kept::Python {
        text,
        attributes,
        vars: vec![],
        templates: vec![],
    }
}

/// Chains of names in snippets
fn paths(state: &[Snippet]) -> Vec<String> {
    let mut v = vec![];
    for s in state {
        match &s.kept {
            Kept::Python { attributes, .. } => v.extend(attributes.iter().map(|a| a.0.clone())),
            Kept::Template(d) => v.extend(d.refs.iter().filter(|r| !r.fields.is_empty()).map(|r| {
                let fields: Vec<&str> = r.fields.iter().map(|f| f.0.as_str()).collect();
                format!("{}.{}", r.name, fields.join("."))
            })),
        }
    }
    v
}

fn moved(range: &Value, line: u32) -> Value {
    let p = |v: &Value| json!({"line": v["line"].as_u64().unwrap_or(0) + line as u64, "character": v["character"]});
    json!({"start": p(&range["start"]), "end": p(&range["end"])})
}

fn range(text: &str, s: Span, line: u32) -> Value {
    let p = |at| {
        let p = pos(text, at);
        json!({"line": p.line as u64 + line as u64, "character": p.ch})
    };
    json!({"start": p(s.0), "end": p(s.1)})
}

fn sorted(v: Vec<Value>) -> Vec<String> {
    let mut v: Vec<String> = v.iter().map(canonical).collect();
    v.sort();
    v
}

/// Objects with sorted keys
fn canonical(v: &Value) -> String {
    fn rebuild(v: &Value) -> Value {
        match v {
            Value::Array(a) => Value::Array(a.iter().map(rebuild).collect()),
            Value::Object(o) => {
                let keys: std::collections::BTreeMap<_, _> = o.iter().filter(|(_, v)| !v.is_null()).collect();
                Value::Object(keys.into_iter().map(|(k, v)| (k.clone(), rebuild(v))).collect())
            }
            v => v.clone(),
        }
    }
    rebuild(v).to_string()
}

fn list(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}

/// Links in the answer of `addOne`; names at definitions may be links or not
fn check_links(s: &Snippet, answer: &Value, hints: &[(String, String)]) -> Result<u64, String> {
    let text = s.text();
    let mut expected = vec![];
    let mut optional = vec![];
    let mut link = |to: &mut Vec<Value>, name: &str, path: &str, span: Span| {
        for h in hints.iter().filter(|h| h.0 == path) {
            let _ = h;
            let r = range(&text, (span.0 + s.col, span.1 + s.col), s.line);
            to.push(json!({"start": r["start"], "end": r["end"], "name": name, "identifierType": 11}));
        }
    };
    match &s.kept {
        Kept::Template(d) => {
            for r in &d.refs {
                let mut path = r.name.clone();
                for f in &r.fields {
                    path = format!("{path}.{}", f.0);
                }
                link(&mut expected, &r.name, &path, (r.span.0, r.chain_end()));
            }
            for x in &d.defs {
                link(&mut optional, &x.name, &x.name, x.span);
            }
        }
        Kept::Python { attributes, .. } => {
            for a in attributes {
                link(&mut expected, &a.0, &a.0, a.1);
            }
        }
    }
    let n = expected.len() as u64;
    let expected = sorted(expected);
    let optional = sorted(optional);
    let mut actual = sorted(list(answer));
    actual.retain(|a| expected.contains(a) || !optional.contains(a));
    if let (Kept::Python { vars, .. }, true) = (&s.kept, n == 0) {
        if !vars.is_empty() {
            // attributes of generated backend files aren't known
            return Ok(0);
        }
    }
    match model::difference(&expected, &actual) {
        Some(diff) => Err(format!("links: {diff}")),
        None => Ok(n),
    }
}

fn kind(k: Kind) -> u64 {
    match k {
        Kind::ForKey => 0,
        Kind::ForValue => 1,
        Kind::Set => 3,
        Kind::With => 4,
        Kind::Macro => 5,
        Kind::Param => 6,
        Kind::Block => 7,
    }
}

fn c19(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    let mut slot = ctx.node.borrow_mut();
    if !slot.as_ref().is_some_and(|n| n.alive()) {
        *slot = Some(Node::start(ctx)?);
    }
    let node = slot.as_mut().unwrap();
    for tape in tapes {
        one(ctx, node, &mut Tape::new(tape), stats)?;
    }
    Ok(())
}

fn hostile(t: &mut Tape, names: &[String]) -> Value {
    let number = |t: &mut Tape| *t.pick(&[0u32, 1, 2, 7, 100, 65535, 65536, 1 << 31, u32::MAX - 1, u32::MAX]);
    let file = match t.below(3) {
        0 => t.pick(&HOSTILE).to_string(),
        1 => format!("hostile{}", t.pick(&HOSTILE)),
        _ => "hostile".to_string(),
    };
    let p = json!({"line": number(t), "character": number(t)});
    match t.below(9) {
        0..=3 => {
            let mut text = String::new();
            for _ in 0..t.range(0, 6) {
                text += *t.pick(&[
                    "{{ ", " }}", "{% set x = ", " %}", "{% for ", "{# ", "#}", "x.y", " | ", "is ", "\"", "'", "\n", "\r", "\u{1f600}", "(",
                    ")", "{%", "\u{0}", "globals[\"x\"]", "a.b", "def f(:",
                ]);
                if t.chance(30) {
                    text += t.pick(names);
                }
            }
            let ext = *t.pick(&["jinja", "py", "html", "rs", "txt", "", "?", "j2", "jinja#"]);
            // lines that can't be moved so far
            json!(["addOne", number(t), file, text, number(t), ext, t.range(0, 40)])
        }
        4 => json!(["hover", number(t), file, number(t), p]),
        5 => json!(["complete", number(t), file, number(t), p]),
        6 => json!(["gotoDefinition", number(t), file, number(t), p]),
        7 => json!(["getVariables", format!("file:///home/{file}.1.jinja"), number(t)]),
        _ => json!(["deleteAll", file]),
    }
}

fn one(ctx: &Ctx, node: &mut Node, t: &mut Tape, stats: &mut Stats) -> Res<()> {
    let names = gen::names(t);
    let files: Vec<&str> = (0..t.range(1, 3)).map(|_| *t.pick(&FILES)).collect();
    let mut state: Vec<Snippet> = vec![];
    let mut gone: Vec<(String, u32, &'static str)> = vec![];
    let mut hints: Vec<(String, String)> = vec![];
    // links that were saved for a file
    let mut own: BTreeMap<String, Vec<(String, String)>> = BTreeMap::new();
    let mut story = String::new();
    let mut changes = 0;
    let mut link_count = 0;
    node.call(json!(["new"]))?;
    let steps = t.range(2, 9);
    for _ in 0..steps {
        let file = *t.pick(&files);
        match t.weighted(&[10, 2, 2, 1, 3]) {
            0 => {
                let id = t.below(4) as u32;
                let kept = if !state.is_empty() && t.chance(20) {
                    // once more, e.g. with other links
                    t.pick(&state).kept.clone()
                } else if t.chance(20) {
                    python(t, &names)
                } else {
                    let o = Opts {
                        names: names.clone(),
                        templates: if t.chance(20) { vec!["nowhere.html".into()] } else { vec![] },
                        imports: false,
                        unicode: t.chance(20),
                        crlf: t.chance(10),
                        blanks: t.chance(25),
                        size: t.range(2, 14),
                    };
                    let d = Gen::doc(t, o, &ctx.filter_names, &ctx.test_names);
                    if ctx.malformed(&d.text) {
                        stats.discard();
                        continue;
                    }
                    Kept::Template(d)
                };
                let line = *t.pick(&LINES);
                let col = match &kept {
                    Kept::Template(_) => *t.pick(&[0, 0, 1, 4, 33]),
                    _ => 0,
                };
                let s = Snippet {
                    file: file.into(),
                    id,
                    line,
                    col,
                    kept,
                };
                let text = s.text();
                story += &format!("add {}", s.describe());
                let mut call = json!(["addOne", id, file, &text[col..], line, s.ext()]);
                if col > 0 || t.chance(50) {
                    call.as_array_mut().unwrap().push(json!(col));
                }
                let answer = node.call(call)?;
                match check_links(&s, &answer, &hints) {
                    Ok(n) => link_count += n,
                    Err(e) => return violation(format!("{e}\nlinks: {hints:?}\n{story}")),
                }
                let uri = s.uri();
                let before = state.len();
                state.retain(|s| s.uri() != uri);
                changes += (state.len() < before) as usize;
                gone.retain(|g| (g.0.as_str(), g.1, g.2) != (&s.file, s.id, s.ext()));
                state.push(s);
            }
            1 => {
                let new = links(t, &names, &paths(&state));
                let actions: Vec<Value> = new.iter().map(|h| json!({"name": h.0, "description": h.1})).collect();
                if t.chance(30) && file != "temp" {
                    story += &format!("links of {file:?} {new:?}\n");
                    own.insert(file.into(), new);
                    node.call(json!(["saveLinkHint", actions, file]))?;
                } else {
                    story += &format!("links {new:?}\n");
                    hints = new;
                    node.call(json!(["saveLinkHint", actions]))?;
                }
            }
            2 => {
                story += &format!("delete {file:?}\n");
                node.call(json!(["deleteAll", file]))?;
                for s in &state {
                    if s.file == file {
                        gone.push((s.file.clone(), s.id, s.ext()));
                        changes += 1;
                    }
                }
                state.retain(|s| s.file != file);
            }
            3 => {
                if t.chance(30) && file != "temp" {
                    story += &format!("remove links of {file:?}\n");
                    own.remove(file);
                    node.call(json!(["removeTempLinkHint", file]))?;
                } else {
                    story += "remove links\n";
                    hints.clear();
                    node.call(json!(["removeTempLinkHint"]))?;
                }
            }
            _ => {
                let call = hostile(t, &["hostile_name".into()]);
                story += &format!("{call}\n");
                if let Err(e) = node.call(call) {
                    return match e {
                        crate::lsp::Fail::Violation(e) => violation(format!("{e}\n{story}")),
                        e => Err(e),
                    };
                }
                // what it defines is undone
                for h in HOSTILE {
                    node.call(json!(["deleteAll", h]))?;
                    node.call(json!(["deleteAll", format!("hostile{h}")]))?;
                }
                node.call(json!(["deleteAll", "hostile"]))?;
            }
        }
    }
    // the same texts in a server
    let project = ctx.project()?;
    let mut server: Server = ctx.server(&project.dir, Some(project.options("python")), "test")?;
    server.ready()?;
    let uris: Vec<String> = (0..state.len()).map(|i| project.uri(&format!("snippets/s{i}.{}", state[i].ext()))).collect();
    for (s, uri) in state.iter().zip(&uris) {
        server.open(uri, &s.text());
    }
    server.barrier()?;
    story += &format!("--- now: {:?}, links {hints:?} {own:?}\n", state.iter().map(Snippet::uri).collect::<Vec<_>>());
    for g in &gone {
        for line in (0..2).filter(|_| g.2 == "jinja") {
            for ch in [0, 3, 4] {
                let p = json!({"line": line, "character": ch});
                for method in ["hover", "complete", "gotoDefinition"] {
                    let answer = node.call(json!([method, g.1, g.0, 0, p]))?;
                    if !answer.is_null() {
                        return violation(format!("{method} at {p} of the deleted {}.{}: {answer}\n{story}", g.0, g.1));
                    }
                }
            }
        }
        let answer = node.call(json!(["getVariables", uri(&g.0, g.1, g.2), 0]))?;
        if !answer.is_null() {
            return violation(format!("variables of the deleted {}.{}: {answer}\n{story}", g.0, g.1));
        }
        stats.class("deleted snippets", 1);
    }
    let mut answered = false;
    for (i, s) in state.iter().enumerate() {
        let text = s.text();
        // snippets move with the text before them
        let line = if t.chance(30) { *t.pick(&LINES) } else { s.line };
        let answer = node.call(json!(["getVariables", s.uri(), line]))?;
        let at = |span: Span| range(&text, (span.0 + s.col, span.1 + s.col), line);
        let variable = |name: &str, span: Span, kind: u64| {
            let r = at(span);
            json!({"start": r["start"], "end": r["end"], "name": name, "identifierType": kind})
        };
        let expected: Vec<Value> = match &s.kept {
            Kept::Template(d) => d.defs.iter().map(|x| variable(&x.name, x.span, kind(x.kind))).collect(),
            Kept::Python { vars, templates, .. } => {
                let vars = vars.iter().map(|x| variable(&x.0, x.1, 8));
                vars.chain(templates.iter().map(|x| variable(&x.0, x.1, 10))).collect()
            }
        };
        if let Some(diff) = model::difference(&sorted(expected), &sorted(list(&answer))) {
            return violation(format!("variables of {} moved by {line}: {diff}\n{story}", s.uri()));
        }
        let symbols = server.symbols(&uris[i])?;
        if list(&symbols).len() != list(&answer).len() {
            return violation(format!("variables of {}: {answer}; symbols in the server: {symbols}\n{story}", s.uri()));
        }
        let Kept::Template(d) = &s.kept else {
            stats.class("Python snippets", 1);
            continue;
        };
        stats.class("template snippets", 1);
        let mut spans: Vec<Span> = vec![];
        spans.extend(d.refs.iter().map(|r| (r.span.0, r.chain_end())));
        spans.extend(d.refs.iter().map(|r| (r.span.0, r.chain_end())));
        spans.extend(d.filters.iter().chain(&d.tests).map(|w| (w.op.0, w.span.1)));
        spans.extend(d.blanks.iter().copied());
        spans.extend(d.defs.iter().map(|x| x.span));
        spans.extend(d.neutral.iter().map(|n| n.span));
        spans.extend(d.templates.iter().map(|s| s.span));
        if spans.is_empty() {
            continue;
        }
        let mut asked = vec![];
        for _ in 0..12 {
            let span = *t.pick(&spans);
            let mut at = span.0 + t.below(span.1 - span.0 + 1);
            while !d.text.is_char_boundary(at) {
                at -= 1;
            }
            let p = pos(&text, at + s.col);
            let method = *t.pick(&["hover", "hover", "completion", "definition"]);
            asked.push((at, p, method, server.ask(method, &uris[i], p)));
        }
        for (at, p, method, id) in asked {
            let theirs = server.answer(id)?;
            let ours = json!({"line": p.line as u64 + line as u64, "character": p.ch});
            let name = match method {
                "completion" => "complete",
                "definition" => "gotoDefinition",
                m => m,
            };
            let answer = node.call(json!([name, s.id, s.file, line, ours]))?;
            let fail = |expected: &str| {
                violation(format!(
                    "{name} at {}:{} of {} moved by {line}: {answer}, expected {expected} (server: {theirs})\n{story}",
                    p.line,
                    p.ch,
                    s.uri()
                ))
            };
            let Pos { .. } = p;
            // the variable at this position
            let r = d.refs.iter().find(|r| r.span.0 <= at && at <= r.chain_end());
            let r = r.map(|r| (&r.name, r.span)).or_else(|| {
                let x = d.defs.iter().find(|x| x.kind != Kind::Block && x.span.0 <= at && at <= x.span.1);
                x.map(|x| (&x.name, x.span))
            });
            let linked = r.map_or(vec![], |r| hints.iter().filter(|h| first(&h.0) == r.0).collect::<Vec<_>>());
            match method {
                "hover" => {
                    let value = theirs["contents"]["value"].as_str();
                    let word = d.filters.iter().chain(&d.tests).find(|w| w.span.0 <= at && at <= w.span.1);
                    let mentioned = r.is_some_and(|r| own.values().flatten().any(|h| first(&h.0) == r.0));
                    let expected = match (value, r, word) {
                        (None, Some(r), _) if mentioned && linked.is_empty() => Some(format!("Backend variable\n\n---\n**{}**", r.0)),
                        (Some(v), _, Some(_)) => Some(v.to_string()),
                        (Some(v), Some(r), _) if v != "Backend variable" || linked.is_empty() => Some(format!("{v}\n\n---\n**{}**", r.0)),
                        (None | Some("Backend variable"), Some(_), _) if !linked.is_empty() => Some(linked[0].1.clone()),
                        (Some(v), None, None) => {
                            let name = model::at(&text, &moved(&answer["range"], 0));
                            let _ = name;
                            Some(v.to_string())
                        }
                        _ => None,
                    };
                    let actual = answer["value"].as_str().map(str::to_string);
                    let same = match (&expected, &actual, r, word) {
                        (Some(e), Some(a), None, None) => a.starts_with(e.as_str()),
                        _ => expected == actual,
                    };
                    if !same {
                        return fail(&format!("{expected:?}"));
                    }
                    if actual.is_some() {
                        let span = r.map(|r| r.1).or(word.map(|w| w.span));
                        if let Some(span) = span {
                            let expected = range(&text, (span.0 + s.col, span.1 + s.col), line);
                            if canonical(&expected) != canonical(&answer["range"]) {
                                return fail(&format!("range {expected}"));
                            }
                        }
                        answered |= line > 0 && s.col > 0;
                        stats.class("hovers", 1);
                    }
                }
                "definition" => {
                    let expected: Vec<Value> = match &theirs {
                        Value::Object(l) => {
                            let own = if s.file.contains(':') { s.file.clone() } else { s.uri() };
                            vec![json!({"uri": own, "range": moved(&l["range"], line), "isBackend": false, "name": ""})]
                        }
                        _ => linked
                            .iter()
                            .map(|h| {
                                let start = json!({"line": line, "character": 0});
                                json!({"uri": format!("file:///temp-{}", h.0), "isBackend": true, "name": "",
                                    "range": {"start": start, "end": start}})
                            })
                            .collect(),
                    };
                    if let Some(diff) = model::difference(&sorted(expected), &sorted(list(&answer))) {
                        return fail(&diff);
                    }
                    if !list(&answer).is_empty() {
                        answered |= line > 0 && s.col > 0;
                        stats.class("definitions", 1);
                    }
                }
                _ => {
                    let items = list(&theirs);
                    // other kinds of completion aren't offered
                    let words = d.filters.iter().chain(&d.tests).map(|w| w.span);
                    let names = d.refs.iter().map(|r| (r.span.0, r.chain_end())).chain(d.defs.iter().map(|x| x.span));
                    let in_name = words.chain(names).any(|s| s.0 < at && at <= s.1);
                    let kind = match items.first() {
                        _ if d.templates.iter().any(|x| x.span.0 < at && at < x.span.1) => "other",
                        Some(x) if !x["textEdit"].is_null() || !x["additionalTextEdits"].is_null() => "begun",
                        Some(x) if !x["documentation"].is_null() => "documented",
                        _ if in_name => "begun",
                        _ if theirs.is_null() => "other",
                        _ if answer.is_null() && !d.blanks.iter().any(|s| s.0 <= at && at <= s.1) => continue,
                        _ => "names",
                    };
                    let expected: Vec<Value> = match kind {
                        "documented" if items.len() == ctx.filters.len() && items[0]["label"] == ctx.filters[0].0 => items
                            .iter()
                            .map(|x| {
                                json!({"completionType": 0, "label": x["label"], "kind": 1,
                                    "description": x["documentation"]["value"]})
                            })
                            .collect(),
                        "names" => items
                            .iter()
                            .map(|x| (x["label"].clone(), x["detail"].clone()))
                            .chain(hints.iter().chain(own.values().flatten()).map(|h| (json!(h.0), json!("Backend variable"))))
                            .map(|x| json!({"completionType": 1, "label": x.0, "kind": 0, "description": x.1}))
                            .collect(),
                        "begun" => {
                            let simple = d.refs.iter().find(|r| r.fields.is_empty() && r.span.0 < at && at <= r.span.1);
                            let of_file = if s.file == "temp" { Some(&hints) } else { own.get(&s.file) };
                            match (simple, of_file) {
                                (Some(r), Some(of_file)) if !theirs.is_null() && r.expr.is_some() => {
                                    let prefix = &d.text[r.span.0..at];
                                    let r = range(&text, (r.span.0 + s.col, r.span.1 + s.col), line);
                                    let all = of_file.iter().chain(&hints).filter(|h| h.0.contains(prefix));
                                    all.map(|h| {
                                        json!({"completionType": 1, "label": h.0, "kind": 0, "description": h.0, "newText": h.0,
                                            "insert": r, "replace": r})
                                    })
                                    .collect()
                                }
                                _ if of_file.is_none() && !answer.is_null() => return fail("nothing"),
                                _ => continue,
                            }
                        }
                        _ => {
                            if !answer.is_null() {
                                return fail("nothing");
                            }
                            continue;
                        }
                    };
                    if let Some(diff) = model::difference(&sorted(expected), &sorted(list(&answer))) {
                        return fail(&diff);
                    }
                    stats.class("completions", 1);
                }
            }
        }
    }
    stats.class("links", link_count);
    stats.class("replaced and deleted", changes as u64);
    stats.case(&story, state.len() >= 2 && changes > 0 && answered);
    Ok(())
}
