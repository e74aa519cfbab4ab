//! C03, C17: many messages and pauses.

use super::backend::expected_symbols;
use super::world::{compare_variables, definition, hover_text, locations, offset_in, start, Run, WORLD};
use crate::ctx::{Ctx, Stats};
use crate::edits::{self, Edit};
use crate::lsp::{violation, Res};
use crate::model;
use crate::tape::Tape;
use crate::text::{pos, range_key};
use crate::world::{Content, World, WorldOpts};
use crate::Prop;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C03",
            quick: 650,
            thorough: 20000,
            batch: 1,
            tape: 4000,
            threads: 8,
            shrink_s: 60,
            run: c03,
            rule: "A case is a workspace and a burst of up to 900 messages over all of its documents (edits, saves, closing and \
                reopening, resets, configurations, commands, requests) that are sent without waiting; non-trivial if it has at least \
                150 messages with edits of 2 documents, a reset or configuration, and requests that expect other answers than \
                before the edits.",
            assumptions: &["well-formed templates and backend files of the generators (see DESIGN.md) when requests are sent"],
        },
        Prop {
            id: "C17",
            quick: 700,
            thorough: 16000,
            batch: 1,
            tape: 2400,
            threads: 32,
            shrink_s: 60,
            run: c17,
            rule: "A case is 1-4 documents and an interleaving of their edits, saves, opens, resets and configurations with pauses of \
                0-300 ms between them; \
                non-trivial if 2 documents were edited within 200 ms and the final diagnostics of one of them aren't those of its \
                first text.",
            assumptions: &[
                "final texts are well-formed templates and backend files of the generators (see DESIGN.md)",
                "diagnostics never come if the server was idle for 8 s (no CPU time, nothing published)",
            ],
        },
    ]
}

/// The edit between two texts
pub fn difference(before: &str, after: &str) -> Edit {
    let mut a = before.bytes().zip(after.bytes()).take_while(|(x, y)| x == y).count();
    while edits::boundary(before, a) != a || edits::boundary(after, a) != a {
        a -= 1;
    }
    let most = (before.len() - a).min(after.len() - a);
    let mut n = before.bytes().rev().zip(after.bytes().rev()).take(most).take_while(|(x, y)| x == y).count();
    while edits::boundary(before, before.len() - n) != before.len() - n
        || edits::boundary(after, after.len() - n) != after.len() - n
    {
        n -= 1;
    }
    Edit {
        span: Some((a, before.len() - n)),
        text: after[a..after.len() - n].to_string(),
    }
}

struct Asked {
    id: i64,
    what: String,
    expected: Vec<String>,
    kind: usize,
}

fn another(ctx: &Ctx, t: &mut Tape, w: &World, i: usize, stats: &mut Stats) -> Option<Content> {
    Some(match &w.files[i].content {
        Content::Template(_) => Content::Template(w.template(ctx, t, 8, stats)?),
        Content::Backend(_) => Content::Backend(w.backend(t)),
    })
}

fn notify_changes(r: &mut Run, uri: &str, changes: Vec<Value>) {
    r.server.notify(
        "textDocument/didChange",
        json!({"textDocument": {"uri": uri, "version": 5}, "contentChanges": changes}),
    );
}

fn c03(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    for tape in tapes {
        let mut t = Tape::new(tape);
        let opts = WorldOpts { size: 9, ..WORLD };
        let Some(w) = World::generate(ctx, &mut t, opts, stats) else { continue };
        let mut r = start(ctx, w, "test", false)?;
        if t.chance(50) {
            r.server.ready()?;
        }
        let n = r.w.files.len();
        let uris: Vec<String> = r.w.files.iter().map(|f| r.project.uri(&f.rel)).collect();
        let mut variants: Vec<Vec<Content>> = r.w.files.iter().map(|f| vec![f.content.clone()]).collect();
        for v in variants.iter_mut().enumerate() {
            for _ in 0..t.range(1, 2) {
                v.1.extend(another(ctx, &mut t, &r.w, v.0, stats));
            }
        }
        for i in 0..n {
            r.server.open(&uris[i], r.w.files[i].text());
        }
        let before = r.w.describe();
        let mut story = String::new();
        let mut hide = false;
        let mut asked: Vec<Asked> = vec![];
        let mut commands = vec![];
        let (mut messages, mut resets) = (n, 0);
        let mut edited = HashSet::new();
        let mut seen = HashSet::new();
        let mut differs = 0;
        let limit = t.range(20, 900);
        while messages < limit && !t.exhausted() {
            let i = t.below(n);
            let uri = uris[i].clone();
            match t.weighted(&[8, 8, 2, 1, 1, 1, 3, 1]) {
                0 => {
                    // requests, several times
                    let (what, expected, kind, method, at): (String, Vec<String>, usize, &str, usize) =
                        match (&r.w.files[i].content, t.below(3)) {
                            (Content::Backend(b), _) => ("symbols".into(), expected_symbols(b), 0, "documentSymbol", 0),
                            (Content::Template(d), 0) => ("symbols".into(), model::symbols(d), 0, "documentSymbol", 0),
                            (Content::Template(d), k) => {
                                if d.refs.is_empty() {
                                    continue;
                                }
                                let d = d.clone();
                                let x = t.pick(&d.refs).clone();
                                let at = offset_in(&mut t, x.span, false);
                                if k == 1 {
                                    let e = definition(&r, i, &x.name, at).0;
                                    (format!("definition of {}", x.name), e, 1, "definition", at)
                                } else {
                                    let e = if let Some(def) = d.resolve(&x.name, x.span.0) {
                                        vec![def.kind.detail().to_string()]
                                    } else if r.w.others(i).iter().any(|n| n.split('.').next() == Some(&x.name)) {
                                        vec!["Backend variable".to_string()]
                                    } else {
                                        vec![]
                                    };
                                    (format!("hover over {}", x.name), e, 2, "hover", at)
                                }
                            }
                        };
                    let p = pos(r.w.files[i].text(), at);
                    let what = format!("{what} at {}:{} of {uri}", p.line, p.ch);
                    let times = if t.chance(30) { t.range(1, 60) } else { t.range(1, 4) };
                    story += &format!("{times} x {what}\n");
                    seen.insert(format!("{what} {expected:?}"));
                    differs += edited.len();
                    for _ in 0..times {
                        let id = if method == "documentSymbol" {
                            r.server.send_request(
                                "textDocument/documentSymbol",
                                json!({"textDocument": {"uri": uri}}),
                            )
                        } else {
                            r.server.ask(method, &uri, p)
                        };
                        asked.push(Asked {
                            id,
                            what: what.clone(),
                            expected: expected.clone(),
                            kind,
                        });
                        messages += 1;
                    }
                }
                1 => {
                    // another text
                    let c = t.pick(&variants[i]).clone();
                    let from = r.w.files[i].text().to_string();
                    r.w.files[i].content = c;
                    let to = r.w.files[i].text().to_string();
                    let e = if t.chance(60) { difference(&from, &to) } else { Edit { span: None, text: to } };
                    notify_changes(&mut r, &uri, vec![edits::change(&from, &e, false)]);
                    story += &format!("{uri}: {:?} {:?}\n", e.span, e.text);
                    edited.insert(i);
                    messages += 1;
                }
                2 => {
                    for _ in 0..t.range(1, 5) {
                        r.server.save(&uri);
                        messages += 1;
                    }
                    story += &format!("save {uri}\n");
                }
                3 => {
                    for _ in 0..t.range(1, 3) {
                        let id = r.server.send_request(
                            "workspace/executeCommand",
                            json!({"command": "reset_variables", "arguments": []}),
                        );
                        commands.push(id);
                        messages += 1;
                        resets += 1;
                    }
                    story += "reset_variables\n";
                }
                4 => {
                    let mut c = r.project.options(r.w.lang);
                    hide = t.chance(30);
                    c["hide_undefined"] = json!(hide);
                    r.server.notify("workspace/didChangeConfiguration", json!({"settings": c}));
                    story += &format!("configuration {c}\n");
                    messages += 1;
                    resets += 1;
                }
                5 => {
                    // a document is opened again
                    r.server.close(&uri);
                    let text = r.w.files[i].text().to_string();
                    r.server.open(&uri, &text);
                    story += &format!("reopen {uri}\n");
                    messages += 2;
                }
                6 => {
                    // arbitrary texts in between, without requests
                    let c = t.pick(&variants[i]).clone();
                    let steps = t.range(1, 6);
                    let from = r.w.files[i].text().to_string();
                    r.w.files[i].content = c;
                    let (mut text, list) = edits::history(&mut t, r.w.files[i].text(), steps);
                    let e = difference(&from, &text);
                    notify_changes(&mut r, &uri, vec![edits::change(&from, &e, false)]);
                    story += &format!("{uri}: {:?} {:?}\n", e.span, e.text);
                    for e in list {
                        let change = edits::change(&text, &e, true);
                        edits::apply(&mut text, &e);
                        story += &format!("{uri}: {:?} {:?}\n", e.span, e.text);
                        notify_changes(&mut r, &uri, vec![change]);
                        messages += 1;
                    }
                    edited.insert(i);
                }
                _ => {
                    let command = *t.pick(&["warn", "unknown"]);
                    let id = r.server.send_request("workspace/executeCommand", json!({"command": command, "arguments": []}));
                    commands.push(id);
                    story += &format!("{command}\n");
                    messages += 1;
                }
            }
        }
        let text = || format!("{before}=== messages\n{story}");
        let count = asked.len();
        for id in commands {
            r.server.response(id, "a command")?;
        }
        for a in asked {
            let answer = r.server.response(a.id, &a.what)?;
            if !answer["error"].is_null() {
                return violation(format!("{}: {answer}\n{}", a.what, text()));
            }
            let answer = &answer["result"];
            let actual = match a.kind {
                0 => model::answered_symbols(answer),
                1 => locations(answer),
                _ => hover_text(answer).into_iter().collect(),
            };
            if let Some(diff) = model::difference(&a.expected, &actual) {
                return violation(format!("{} (request {}): {diff}\n{}", a.what, a.id, text()));
            }
        }
        for u in &uris {
            r.server.save(u);
        }
        r.server.barrier()?;
        if let Some(id) = r.server.duplicates.first() {
            return violation(format!("request {id} has more than one response\n{}", text()));
        }
        for i in 0..n {
            compare_variables(&r, i, hide).map_err(|e| match e {
                crate::lsp::Fail::Violation(m) => crate::lsp::Fail::Violation(format!("{m}\n{}", text())),
                e => e,
            })?;
        }
        stats.class("messages", messages as u64);
        stats.class("requests", count as u64);
        stats.class("resets and configurations", resets as u64);
        stats.class("different answers", seen.len() as u64);
        stats.case(&text(), messages >= 150 && edited.len() > 1 && resets > 0 && seen.len() > 5 && differs > 0);
    }
    Ok(())
}

struct Typed {
    text: String,
    edits: std::collections::VecDeque<Edit>,
    opened: bool,
    changed: Option<Instant>,
}

fn c17(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    for tape in tapes {
        let mut t = Tape::new(tape);
        let names = crate::gen::names(&mut t);
        let lang = if t.chance(35) { "python" } else { "rust" };
        let n = t.range(1, 4);
        let mut w = World {
            files: vec![],
            lang,
            names: vec![],
            pool: vec!["t0.html".into(), "missing.html".into()],
            imports: false,
            root: "templates".into(),
            spelling: 0,
            extra: vec![],
        };
        // the server gets more to do than it can within the pause after an edit
        let mut flood = t.chance(8);
        let mut first = vec![];
        let mut docs = vec![];
        for i in 0..n {
            // no name is defined in another document
            w.names = names.iter().map(|s| format!("{s}_{i}")).collect();
            let backend = i > 0 && t.chance(25);
            let (rel, content, start) = if backend {
                let e = crate::world::ext(lang);
                let c = Content::Backend(w.backend(&mut t));
                (format!("src/b{i}.{e}"), Some(c), Some(Content::Backend(w.backend(&mut t))))
            } else {
                (
                    format!("templates/t{i}.html"),
                    w.template(ctx, &mut t, 12, stats).map(Content::Template),
                    w.template(ctx, &mut t, 8, stats).map(Content::Template),
                )
            };
            let (Some(c), Some(s)) = (content, start) else { continue };
            w.files.push(crate::world::File { rel, content: s });
            docs.push(c);
        }
        if w.files.is_empty() || w.files[0].rel != "templates/t0.html" {
            continue;
        }
        let n = w.files.len();
        let mut typed = vec![];
        for i in 0..n {
            first.push(expected(&w.files[i].content));
            let steps = t.range(0, 5);
            let (text, list) = edits::history(&mut t, match &docs[i] {
                Content::Template(d) => &d.text,
                Content::Backend(b) => &b.text,
            }, steps);
            // the document has the first text
            let from = w.files[i].text().to_string();
            let mut list: std::collections::VecDeque<Edit> = list.into();
            list.push_front(difference(&from, &text));
            typed.push(Typed {
                text: from,
                edits: list,
                opened: false,
                changed: None,
            });
        }
        let mut r = start(ctx, w, "test", false)?;
        r.server.ready()?;
        let before = r.w.describe();
        let uris: Vec<String> = r.w.files.iter().map(|f| r.project.uri(&f.rel)).collect();
        let mut story = String::new();
        let mut close = false;
        loop {
            let left: Vec<usize> = (0..n).filter(|i| !typed[*i].edits.is_empty()).collect();
            if left.is_empty() {
                break;
            }
            let i = *t.pick(&left);
            let d = &mut typed[i];
            let uri = &uris[i];
            if !d.opened {
                d.opened = true;
                r.server.open(uri, &d.text);
                story += &format!("open {uri}\n");
            }
            match t.weighted(&[20, 4, 2, 1]) {
                0 => {
                    let mut changes = vec![];
                    let k = if t.exhausted() { 9 } else { t.range(1, 3) };
                    for _ in 0..k {
                        let Some(e) = d.edits.pop_front() else { break };
                        story += &format!("{uri}: {:?} {:?}\n", e.span, e.text);
                        changes.push(edits::change(&d.text, &e, false));
                        edits::apply(&mut d.text, &e);
                    }
                    d.changed = Some(Instant::now());
                    r.server.notify(
                        "textDocument/didChange",
                        json!({"textDocument": {"uri": uri, "version": 5}, "contentChanges": changes}),
                    );
                    close |= typed.iter().filter(|d| d.changed.is_some_and(|c| c.elapsed().as_millis() < 200)).count() > 1;
                }
                1 => {
                    r.server.save(uri);
                    story += &format!("save {uri}\n");
                }
                3 if t.chance(50) => {
                    let p = json!({"command": "reset_variables", "arguments": []});
                    r.server.send_request("workspace/executeCommand", p);
                    story += "reset\n";
                }
                3 => {
                    let settings = r.project.options(lang);
                    r.server.notify("workspace/didChangeConfiguration", json!({"settings": settings}));
                    story += "configuration\n";
                }
                _ => {
                    r.server.close(uri);
                    r.server.open(uri, &d.text);
                    story += &format!("reopen {uri}\n");
                }
            }
            if flood && typed.iter().any(|d| d.changed.is_some()) && t.chance(60) {
                flood = false;
                let uri = r.project.uri("templates/big.html");
                r.server.open(&uri, &"<p>{{ 1 + 2 }} text</p>\n".repeat(3500));
                let p = json!({"line": 1, "character": 0});
                for _ in 0..110 {
                    r.server.notify(
                        "textDocument/didChange",
                        json!({"textDocument": {"uri": uri, "version": 5},
                            "contentChanges": [{"range": {"start": p, "end": p}, "text": "x"}]}),
                    );
                }
                story += "110 changes of a large document\n";
                stats.class("backlogs of changes", 1);
            }
            let pause = *t.pick(&[0, 0, 0, 0, 0, 3, 20, 80, 180, 195, 205, 220, 300]);
            if pause > 0 {
                story += &format!("{pause} ms\n");
                std::thread::sleep(Duration::from_millis(pause));
            }
        }
        for (f, c) in r.w.files.iter_mut().zip(&docs) {
            f.content = c.clone();
        }
        let text = || format!("{before}=== messages\n{story}=== final texts\n{}", r.w.describe());
        let mut last = r.server.activity();
        let mut active = Instant::now();
        let started = Instant::now();
        let wanted: Vec<Vec<String>> = docs.iter().map(expected).collect();
        let mut since: Option<Instant> = None;
        loop {
            r.server.drain(Duration::from_millis(100));
            let mut wrong = None;
            for i in 0..n {
                if typed[i].changed.is_none() {
                    continue;
                }
                let actual = r.server.diagnostics(&uris[i]).map(|v| {
                    let text = r.w.files[i].text();
                    let mut d = model::published(text, v, false);
                    d.extend(model::published(text, v, true));
                    d.sort();
                    d
                });
                match actual {
                    None => wrong = Some(format!("no diagnostics of {}", uris[i])),
                    Some(a) => {
                        if let Some(d) = model::difference(&wanted[i], &a) {
                            wrong = Some(format!("last diagnostics of {}: {d}", uris[i]));
                        }
                    }
                }
            }
            match wrong {
                None => {
                    let s = *since.get_or_insert_with(Instant::now);
                    if s.elapsed() > Duration::from_millis(450) {
                        break;
                    }
                }
                Some(m) => {
                    since = None;
                    let now = r.server.activity();
                    if now != last {
                        last = now;
                        active = Instant::now();
                    }
                    // nothing more will come
                    if active.elapsed() > Duration::from_secs(8) || started.elapsed() > Duration::from_secs(90) {
                        return violation(format!("{m}\n{}", text()));
                    }
                }
            }
        }
        // it still answers
        r.server.barrier()?;
        let changes = (0..n).any(|i| wanted[i] != first[i]);
        stats.class("documents", n as u64);
        stats.flag("edits of several documents within 200 ms", close);
        stats.case(&text(), close && changes);
    }
    Ok(())
}

/// Diagnostics of a document that doesn't depend on others
fn expected(c: &Content) -> Vec<String> {
    let exists = |n: &str| n != "missing.html" && n == "t0.html";
    let mut v = match c {
        Content::Template(d) => {
            let mut v = model::variables(d, &HashSet::new(), false);
            v.extend(model::missing(d, exists));
            v
        }
        Content::Backend(b) => b
            .templates
            .iter()
            .filter(|s| !exists(&s.0))
            .map(|s| format!("{} {} 2 jinja-lsp", range_key(&b.text, s.1), model::MISSING))
            .collect(),
    };
    v.sort();
    v
}
