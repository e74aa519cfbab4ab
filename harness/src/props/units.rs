//! C18: positions are UTF-16 code units, whatever characters are before them.

use super::world::{Run, WORLD};
use crate::ctx::{Ctx, Stats};
use crate::gen::Class;
use crate::lsp::{violation, Res};
use crate::tape::Tape;
use crate::text::{self, pos, Span};
use crate::world::{Content, World, WorldOpts};
use crate::Prop;
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C18",
        quick: 1800,
        thorough: 40000,
        batch: 1,
        tape: 1800,
        threads: 8,
        shrink_s: 40,
        run: c18,
        rule: "A case is a workspace and a copy of it in which parts of the text, of comments and of strings of templates and \
            backend files were replaced by other characters; both get the same requests at corresponding positions (after \
            indexing, opening or typing the replacement). Non-trivial if characters whose lengths in UTF-8, UTF-16 and in \
            characters differ are before a definition and before a position that was asked for in the same line.",
        assumptions: &[
            "well-formed templates and backend files of the generators (see DESIGN.md)",
            "the replaced parts have no line ends, delimiters of Jinja, quotes and backslashes",
            "identifiers are ASCII (like in the grammar)",
        ],
    }]
}

const CHARS: [&str; 30] = [
    "a", "text", " ", "if x is y", "u | upper.z", "\u{e9}", "\u{df}\u{fc}", "\u{416}\u{438}", "\u{65e5}\u{672c}\u{8a9e}", "\u{20ac}",
    "\u{1f600}", "\u{1f600}\u{1f601}", "\u{10348}", "\u{10ffff}", "e\u{301}", "\u{1f468}\u{200d}\u{1f469}\u{200d}\u{1f467}",
    "\u{1f1e9}\u{1f1ea}", "\u{2028}", "\u{2029}", "\u{85}", "\u{b}", "\u{c}", "\t", "\u{feff}", "\u{fffd}", "\u{200f}\u{5d0}", "\u{a0}",
    "\u{7f}", "\u{ffff}", "\u{d7ff}\u{e000}",
];

/// What was replaced by what, in order
type Parts = Vec<(Span, String)>;

/// Moves an offset of the old text; None inside of a replaced part
fn moved(parts: &Parts, at: usize) -> Option<usize> {
    let mut by = 0isize;
    for (s, new) in parts {
        if at <= s.0 {
            break;
        }
        if at < s.1 {
            return None;
        }
        by += new.len() as isize - (s.1 - s.0) as isize;
    }
    Some((at as isize + by) as usize)
}

fn replaced(text: &str, parts: &Parts) -> String {
    let mut out = String::new();
    let mut at = 0;
    for (s, new) in parts {
        out += &text[at..s.0];
        out += new;
        at = s.1;
    }
    out + &text[at..]
}

/// Replaceable parts of a file
fn places(c: &Content) -> Vec<Span> {
    let mut all = vec![];
    match c {
        Content::Template(d) => {
            for n in &d.neutral {
                if !matches!(n.class, Class::Text | Class::Comment | Class::Str) {
                    continue;
                }
                let s = n.span;
                let mut start = s.0;
                for line in d.text[s.0..s.1].split_inclusive(['\n', '\r']) {
                    if line == "\n" && d.text[..start].ends_with('\r') {
                        start += 1;
                        continue;
                    }
                    let inner = line.trim_end_matches(['\n', '\r']);
                    // blanks at the ends keep delimiters apart
                    let margin = (n.class != Class::Str) as usize;
                    let (a, b) = (start + margin, (start + inner.len()).saturating_sub(margin));
                    let ends = a <= b && d.text.is_char_boundary(a) && d.text.is_char_boundary(b);
                    let apart = margin == 0 || (ends && &d.text[start..a] == " " && d.text[b..].starts_with(' '));
                    if ends && apart {
                        all.push((a, b));
                    }
                    start += line.len();
                }
            }
        }
        Content::Backend(b) => {
            for (i, s) in b.text.match_indices("text") {
                let end = i + s.len();
                let word = |c: char| c.is_alphanumeric() || c == '_';
                if !b.text[..i].ends_with(word) && !b.text[end..].starts_with(word) {
                    all.push((i, end));
                }
            }
        }
    }
    all.sort();
    all.dedup();
    // no overlaps
    let mut end = 0;
    all.retain(|s| {
        let ok = s.0 >= end;
        if ok {
            end = s.1;
        }
        ok
    });
    all
}

fn parts(t: &mut Tape, c: &Content) -> Parts {
    let mut v = vec![];
    for s in places(c) {
        if t.chance(35) {
            continue;
        }
        let n = t.range(0, 4);
        let new: String = (0..n).map(|_| *t.pick(&CHARS)).collect();
        v.push((s, new));
    }
    v
}

/// Answers with positions of the other text
struct Map<'a> {
    /// URI in both projects, old text, new text, parts
    files: Vec<(String, String, &'a str, &'a str, &'a Parts)>,
}

impl Map<'_> {
    fn position(&self, file: usize, v: &Value) -> Value {
        let (_, _, old, new, parts) = &self.files[file];
        let p = text::Pos {
            line: v["line"].as_u64().unwrap_or(0) as usize,
            ch: v["character"].as_u64().unwrap_or(0) as usize,
        };
        let at = text::offset(old, p);
        if pos(old, at) != p {
            return json!("not a position of the text");
        }
        match moved(parts, at) {
            Some(at) => {
                let p = pos(new, at);
                json!({"line": p.line, "character": p.ch})
            }
            None => json!("inside of text"),
        }
    }
    fn answer(&self, file: usize, v: &Value) -> Value {
        match v {
            Value::Array(a) => {
                Value::Array(a.iter().map(|v| self.answer(file, v)).collect())
            }
            Value::Object(o) if o.contains_key("line") && o.contains_key("character") => self.position(file, v),
            Value::Object(o) => {
                let mut file = file;
                let mut new = serde_json::Map::new();
                if let Some(uri) = o.get("uri").and_then(|u| u.as_str()) {
                    if let Some(i) = self.files.iter().position(|f| f.0 == uri) {
                        file = i;
                    }
                }
                for (k, v) in o {
                    let v = match v.as_str().and_then(|u| self.files.iter().find(|f| f.0 == u)) {
                        Some(f) => json!(f.1),
                        None => self.answer(file, v),
                    };
                    new.insert(k.clone(), v);
                }
                Value::Object(new)
            }
            v => v.clone(),
        }
    }
}

fn sorted(v: &Value) -> Value {
    match v {
        Value::Array(a) => {
            let mut a: Vec<Value> = a.iter().map(sorted).collect();
            a.sort_by_key(|v| v.to_string());
            Value::Array(a)
        }
        Value::Object(o) => {
            let keys: std::collections::BTreeMap<_, _> = o.iter().collect();
            Value::Object(keys.into_iter().map(|(k, v)| (k.clone(), sorted(v))).collect())
        }
        v => v.clone(),
    }
}

/// Do characters with other lengths precede this offset in its line?
fn wide_before(text: &str, at: usize) -> bool {
    let start = text[..at].rfind(['\n', '\r']).map_or(0, |i| i + 1);
    !text[start..at].is_ascii()
}

const METHODS: [&str; 4] = ["hover", "completion", "definition", "codeAction"];

fn c18(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    for tape in tapes {
        let mut t = Tape::new(tape);
        let client = if t.chance(30) { "Visual Studio Code" } else { "test" };
        let imports = t.chance(40);
        let opts = WorldOpts {
            max_templates: 3,
            size: 18,
            imports,
            ..WORLD
        };
        let Some(w) = World::generate(ctx, &mut t, opts, stats) else { continue };
        let all: Vec<Parts> = w.files.iter().map(|f| parts(&mut t, &f.content)).collect();
        let old: Vec<String> = w.files.iter().map(|f| f.text().to_string()).collect();
        let new: Vec<String> = old.iter().zip(&all).map(|(o, p)| replaced(o, p)).collect();
        if w.files.iter().zip(&new).any(|(f, n)| f.doc().is_some() && ctx.malformed(n)) {
            stats.discard();
            continue;
        }
        let w2 = World {
            files: w.files.clone(),
            names: w.names.clone(),
            pool: w.pool.clone(),
            root: w.root.clone(),
            extra: w.extra.clone(),
            ..w
        };
        // how the other text gets there
        let ways: Vec<usize> = (0..old.len()).map(|_| t.weighted(&[3, 2, 3])).collect();
        let p1 = ctx.project()?;
        let p2 = ctx.project()?;
        w.write(&p1)?;
        w.write(&p2)?;
        for i in 0..old.len() {
            if ways[i] == 0 {
                p2.write(&w.files[i].rel, &new[i])?;
            }
        }
        let server = ctx.server(&p1.dir, Some(p1.options(w.lang)), client)?;
        let mut a = Run { w, project: p1, server };
        let server = ctx.server(&p2.dir, Some(p2.options(a.w.lang)), client)?;
        let mut b = Run {
            w: w2,
            project: p2,
            server,
        };
        a.server.ready()?;
        b.server.ready()?;
        let files: Vec<_> = (0..old.len())
            .map(|i| {
                let rel = &a.w.files[i].rel;
                (a.project.uri(rel), b.project.uri(rel), old[i].as_str(), new[i].as_str(), &all[i])
            })
            .collect();
        let map = Map { files };
        let mut story = String::new();
        for i in 0..old.len() {
            story += &format!("--- {} ({})\n{}\n--- with other characters\n{}\n", a.w.files[i].rel, ["indexed", "opened", "typed"][ways[i]], old[i], new[i]);
            let (u1, u2) = (&map.files[i].0, &map.files[i].1);
            if ways[i] == 0 {
                continue;
            }
            a.server.open(u1, &old[i]);
            if ways[i] == 1 {
                b.server.open(u2, &new[i]);
            } else {
                b.server.open(u2, &old[i]);
                // from the start, so that characters are before later edits too
                let mut done = String::new();
                let mut at = 0;
                let mut changes = vec![];
                for (s, text) in &all[i] {
                    done += &old[i][at..s.0];
                    at = s.1;
                    let current = format!("{done}{}", &old[i][s.0..]);
                    let p = |at| {
                        let p = pos(&current, at);
                        json!({"line": p.line, "character": p.ch})
                    };
                    let (start, end) = (p(done.len()), p(done.len() + s.1 - s.0));
                    changes.push(json!({"range": {"start": start, "end": end}, "text": text}));
                    done += text;
                    if t.chance(40) {
                        let changes: Vec<Value> = std::mem::take(&mut changes);
                        b.server.notify(
                            "textDocument/didChange",
                            json!({"textDocument": {"uri": u2, "version": 1}, "contentChanges": changes}),
                        );
                    }
                }
                if !changes.is_empty() {
                    b.server.notify(
                        "textDocument/didChange",
                        json!({"textDocument": {"uri": u2, "version": 1}, "contentChanges": changes}),
                    );
                }
                a.server.save(u1);
                b.server.save(u2);
            }
        }
        a.server.barrier()?;
        b.server.barrier()?;
        let mut moved_definitions = false;
        for i in 0..old.len() {
            let (u1, u2) = (map.files[i].0.clone(), map.files[i].1.clone());
            let before = sorted(&map.answer(i, a.server.diagnostics(&u1).unwrap_or(&Value::Null)));
            let after = sorted(b.server.diagnostics(&u2).unwrap_or(&Value::Null));
            if before != after {
                return violation(format!("diagnostics of {}: {before} became {after}\n{story}", a.w.files[i].rel));
            }
            let before = sorted(&map.answer(i, &a.server.symbols(&u1)?));
            let after = sorted(&b.server.symbols(&u2)?);
            if before != after {
                return violation(format!("symbols of {}: {before} became {after}\n{story}", a.w.files[i].rel));
            }
            if let Some(d) = a.w.files[i].doc() {
                moved_definitions |= d.defs.iter().any(|x| moved(&all[i], x.span.0).is_some_and(|at| wide_before(&new[i], at)));
            }
        }
        let mut asked = vec![];
        let mut wide = 0;
        for _ in 0..40 {
            let i = t.below(old.len());
            let spans: Vec<Span> = match &a.w.files[i].content {
                Content::Template(d) => {
                    let refs = d.refs.iter().map(|r| (r.span.0, r.chain_end()));
                    let words = d.filters.iter().chain(&d.tests).map(|w| (w.op.0, w.span.1));
                    let blanks = d.blanks.iter().copied();
                    let templates = d.templates.iter().map(|s| s.span);
                    let neutral = d.neutral.iter().map(|n| n.span);
                    match t.below(5) {
                        0 => words.collect(),
                        1 => blanks.collect(),
                        2 => templates.collect(),
                        3 => neutral.collect(),
                        _ => refs.collect(),
                    }
                }
                Content::Backend(b) => {
                    let s = b.templates.iter().map(|s| s.1);
                    if t.chance(20) {
                        b.vars.iter().map(|s| s.1).collect()
                    } else {
                        s.collect()
                    }
                }
            };
            if spans.is_empty() {
                continue;
            }
            let s = *t.pick(&spans);
            let mut at = s.0 + t.below(s.1 - s.0 + 1);
            while !old[i].is_char_boundary(at) {
                at -= 1;
            }
            let Some(to) = moved(&all[i], at) else { continue };
            wide += wide_before(&new[i], to) as u64;
            // actions come back after the pause that follows a change
            let typed = ways[i] == 2;
            let method = METHODS[t.below(if typed { 3 } else { 4 })];
            let (pa, pb) = (pos(&old[i], at), pos(&new[i], to));
            let ask = |s: &mut crate::lsp::Server, uri: &str, p: text::Pos| {
                if method == "codeAction" {
                    let p = json!({"line": p.line, "character": p.ch});
                    s.send_request(
                        "textDocument/codeAction",
                        json!({"textDocument": {"uri": uri}, "range": {"start": p, "end": p}, "context": {"diagnostics": []}}),
                    )
                } else {
                    s.ask(method, uri, p)
                }
            };
            let ids = (ask(&mut a.server, &map.files[i].0, pa), ask(&mut b.server, &map.files[i].1, pb));
            asked.push((ids, i, method, pa, pb));
        }
        let roots = (a.project.uri("templates"), b.project.uri("templates"));
        for ((x, y), i, method, pa, pb) in asked {
            let before = map.answer(i, &a.server.answer(x)?);
            // files that are created
            let before: Value = serde_json::from_str(&before.to_string().replace(&roots.0, &roots.1)).unwrap();
            let before = sorted(&before);
            let after = sorted(&b.server.answer(y)?);
            if before != after {
                return violation(format!(
                    "{method} at {}:{} of {}, {}:{} with other characters: expected {before}, got {after}\n{story}",
                    pa.line, pa.ch, a.w.files[i].rel, pb.line, pb.ch
                ));
            }
            stats.class(method, 1);
        }
        stats.class("positions after other characters", wide);
        for (i, way) in ways.iter().enumerate() {
            stats.class(["indexed", "opened", "typed"][*way], 1);
            stats.class(if a.w.files[i].doc().is_some() { "templates" } else { "backend files" }, 1);
        }
        stats.class("replaced parts", all.iter().map(|p| p.len() as u64).sum());
        stats.case(&story, wide > 0 && moved_definitions);
    }
    Ok(())
}
