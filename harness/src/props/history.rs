//! C01, C16, C20: histories against a server with another history.

use super::world::WORLD;
use crate::ctx::{Ctx, Project, Stats};
use crate::edits::{self, Edit};
use crate::gen::Class;
use crate::lsp::{violation, Res, Server};
use crate::tape::Tape;
use crate::text::{pos, Pos};
use crate::world::{ext, Content, File, World, WorldOpts};
use crate::Prop;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet, VecDeque};

const DOMAIN: &[&str] = &[
    "final texts are those of the generators (see DESIGN.md), other texts are arbitrary",
    "answers of the other server are trusted here; other properties decide them",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            quick: 1500,
            thorough: 30000,
            batch: 1,
            tape: 2600,
            threads: 8,
            shrink_s: 60,
            run: c01,
            rule: "A case is a workspace and a history of 1-3 documents (opens, notifications with 1-6 edits of any size at any \
                position, typing, saves, closing and reopening, requests) that ends in generated texts; non-trivial if the history has \
                at least 5 edits, a malformed text in between, and characters outside of ASCII or a document with CRLF.",
            assumptions: DOMAIN,
        },
        Prop {
            id: "C16",
            quick: 900,
            thorough: 30000,
            batch: 1,
            tape: 2600,
            threads: 8,
            shrink_s: 60,
            run: c16,
            rule: "A case is a workspace, a history of its documents, changes of files on disk (other text, new, deleted files) and \
                1-3 resets or changes of the configuration; non-trivial if a document is open with other text than its file, a \
                closed one changed on disk, and the configuration changed or was reset twice.",
            assumptions: DOMAIN,
        },
        Prop {
            id: "C20",
            quick: 1500,
            thorough: 30000,
            batch: 1,
            tape: 2600,
            threads: 8,
            shrink_s: 60,
            run: c20,
            rule: "A case is a workspace and a history, played on two servers, one of which also gets 30-200 requests in between; \
                non-trivial if at least 40 requests of all 5 methods were sent, also between edits.",
            assumptions: DOMAIN,
        },
    ]
}

const METHODS: [&str; 5] = ["hover", "completion", "definition", "codeAction", "documentSymbol"];

#[derive(Clone, Debug)]
struct Probe {
    method: &'static str,
    uri: String,
    p: Pos,
    trigger: Option<&'static str>,
}

impl Probe {
    fn params(&self) -> Value {
        let q = json!({"line": self.p.line, "character": self.p.ch});
        let mut v = json!({"textDocument": {"uri": self.uri}});
        match self.method {
            "documentSymbol" => {}
            "codeAction" => {
                v["range"] = json!({"start": q, "end": q});
                v["context"] = json!({"diagnostics": []});
            }
            _ => v["position"] = q,
        }
        if self.method == "completion" {
            v["context"] = match self.trigger {
                Some(c) => json!({"triggerKind": 2, "triggerCharacter": c}),
                None => json!({"triggerKind": 1}),
            };
        }
        v
    }
    fn send(&self, s: &mut Server) -> i64 {
        s.send_request(&format!("textDocument/{}", self.method), self.params())
    }
    fn describe(&self) -> String {
        format!("{} at {}:{} of {}", self.method, self.p.line, self.p.ch, self.uri)
    }
}

/// A message to the server
#[derive(Clone)]
enum Msg {
    Notify(&'static str, Value),
    Ask(Probe),
}

/// Order of lists doesn't matter
fn sorted(v: &Value) -> Value {
    match v {
        Value::Array(a) => {
            let mut a: Vec<Value> = a.iter().map(sorted).collect();
            a.sort_by_cached_key(|v| v.to_string());
            Value::Array(a)
        }
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), sorted(v))).collect()),
        v => v.clone(),
    }
}

fn random_probe(t: &mut Tape, uri: &str, text: &str) -> Probe {
    let at = edits::boundary(text, t.below(text.len() + 1));
    probe(t, uri, text, at)
}

fn probe(t: &mut Tape, uri: &str, text: &str, at: usize) -> Probe {
    let method = METHODS[t.weighted(&[4, 4, 4, 2, 1])];
    let p = pos(text, edits::boundary(text, at));
    let trigger = if t.chance(30) { Some(*t.pick(&[" ", "%", "{", "\"", "-"])) } else { None };
    Probe {
        method,
        uri: uri.into(),
        p,
        trigger,
    }
}

/// Requests for interesting positions of these files
fn probes(t: &mut Tape, project: &Project, files: &[File], n: usize) -> Vec<Probe> {
    let mut v = vec![];
    for f in files {
        let uri = project.uri(&f.rel);
        v.push(Probe {
            method: "documentSymbol",
            uri: uri.clone(),
            p: Pos { line: 0, ch: 0 },
            trigger: None,
        });
        let mut spans = vec![];
        match &f.content {
            Content::Template(d) => {
                spans.extend(d.refs.iter().map(|r| r.span));
                spans.extend(d.defs.iter().map(|r| r.span));
                spans.extend(d.templates.iter().map(|r| r.span));
                spans.extend(d.filters.iter().map(|r| r.span));
                spans.extend(d.tests.iter().map(|r| r.span));
                spans.extend(&d.blanks);
                spans.extend(d.neutral.iter().filter(|n| n.class != Class::Text).map(|n| n.span));
            }
            Content::Backend(b) => {
                spans.extend(b.vars.iter().map(|v| v.1));
                spans.extend(b.templates.iter().map(|v| v.1));
                spans.extend(&b.templates.iter().map(|v| v.1).collect::<Vec<_>>());
            }
        }
        for _ in 0..n {
            let at = if spans.is_empty() || t.chance(15) {
                t.below(f.text().len() + 1)
            } else {
                let s = *t.pick(&spans);
                t.range(s.0, s.1)
            };
            v.push(probe(t, &uri, f.text(), at));
        }
    }
    v
}

fn snapshot(s: &mut Server, probes: &[Probe]) -> Res<Vec<Value>> {
    let ids: Vec<i64> = probes.iter().map(|p| p.send(s)).collect();
    let mut v = vec![];
    for id in ids {
        v.push(sorted(&s.answer(id)?));
    }
    Ok(v)
}

/// Quick fixes disappear while diagnostics are published, also those after edits
fn settle(s: &mut Server, probes: &[Probe], expected: &[Value], actual: &mut [Value]) -> Res<()> {
    for _ in 0..8 {
        let late: Vec<usize> =
            (0..probes.len()).filter(|i| probes[*i].method == "codeAction" && expected[*i] != actual[*i]).collect();
        if late.is_empty() {
            break;
        }
        s.drain(std::time::Duration::from_millis(500));
        s.barrier()?;
        for i in late {
            let id = probes[i].send(s);
            actual[i] = sorted(&s.answer(id)?);
        }
    }
    Ok(())
}

fn compare(probes: &[Probe], expected: &[Value], actual: &[Value], who: &str, story: &dyn Fn() -> String) -> Res<()> {
    for ((p, e), a) in probes.iter().zip(expected).zip(actual) {
        if e != a {
            return violation(format!("{}: {who} {e}, but {a}\n{}", p.describe(), story()));
        }
    }
    Ok(())
}

/// Diagnostics of these files, after all of them were saved
fn saved(s: &mut Server, uris: &[String]) -> Res<Vec<Value>> {
    for u in uris {
        s.save(u);
    }
    s.barrier()?;
    Ok(uris.iter().map(|u| s.diagnostics(u).map_or(Value::Null, sorted)).collect())
}

fn show(msgs: &[Msg]) -> String {
    let mut s = String::new();
    for m in msgs {
        match m {
            Msg::Notify(method, p) => s += &format!("{method} {p}\n"),
            Msg::Ask(p) => s += &format!("{}\n", p.describe()),
        }
    }
    s
}

struct Track {
    file: usize,
    uri: String,
    text: String,
    edits: VecDeque<Edit>,
    open: bool,
    version: i64,
}

struct History {
    msgs: Vec<Msg>,
    edits: usize,
    malformed: usize,
    unicode: bool,
    /// files that have been opened
    opened: Vec<usize>,
}

fn open_msg(uri: &str, version: i64, text: &str) -> Msg {
    Msg::Notify(
        "textDocument/didOpen",
        json!({"textDocument": {"uri": uri, "languageId": "jinja", "version": version, "text": text}}),
    )
}

/// History of some files of the workspace, at the end of which they are open and have new texts
fn history(ctx: &Ctx, t: &mut Tape, w: &mut World, project: &Project, stats: &mut Stats, asks: usize) -> History {
    let mut h = History {
        msgs: vec![],
        edits: 0,
        malformed: 0,
        unicode: false,
        opened: vec![],
    };
    // documents without file
    let untitled = w.files.iter().any(|f| f.rel.contains("untitled"));
    if !untitled && t.chance(30) {
        if let Some(d) = w.template(ctx, t, 14, stats) {
            w.files.push(File {
                rel: "templates/untitled.html".into(),
                content: Content::Template(d),
            });
        }
    }
    let mut tracks: Vec<Track> = vec![];
    let n = t.range(1, 3).min(w.files.len());
    let mut order: Vec<usize> = (0..w.files.len()).collect();
    t.shuffle(&mut order);
    for &i in &order[..n] {
        let content = match &w.files[i].content {
            Content::Template(_) => w.template(ctx, t, 16, stats).map(Content::Template),
            Content::Backend(_) => Some(Content::Backend(w.backend(t))),
        };
        if let Some(c) = content {
            w.files[i].content = c;
        }
        let steps = t.range(0, 12);
        let (text, edits) = edits::history(t, w.files[i].text(), steps);
        h.edits += edits.len();
        h.unicode |= edits.iter().any(|e| !e.text.is_ascii() || e.text.contains('\r')) || !text.is_ascii();
        h.opened.push(i);
        tracks.push(Track {
            file: i,
            uri: project.uri(&w.files[i].rel),
            text,
            edits: edits.into(),
            open: false,
            version: t.below(3) as i64,
        });
    }
    for _ in 0..400 {
        let left: Vec<usize> = (0..tracks.len()).filter(|i| !tracks[*i].edits.is_empty() || !tracks[*i].open).collect();
        if left.is_empty() {
            break;
        }
        let k = left[t.below(left.len())];
        let is_template = w.files[tracks[k].file].doc().is_some();
        let tr = &mut tracks[k];
        let td = json!({"uri": tr.uri});
        if asks > 0 && t.chance(asks) {
            for _ in 0..t.range(1, 12) {
                let p = random_probe(t, &tr.uri, &tr.text);
                for _ in 0..t.range(1, 2) {
                    h.msgs.push(Msg::Ask(p.clone()));
                }
            }
        }
        if !tr.open {
            tr.open = true;
            h.msgs.push(open_msg(&tr.uri, tr.version, &tr.text));
            if tr.edits.is_empty() {
                continue;
            }
        }
        match t.weighted(&[10, 2, 2]) {
            0 => {
                let mut changes = vec![];
                for _ in 0..t.range(1, 6) {
                    let Some(e) = tr.edits.pop_front() else { break };
                    changes.push(edits::change(&tr.text, &e, t.chance(30)));
                    edits::apply(&mut tr.text, &e);
                    if is_template && ctx.malformed(&tr.text) {
                        h.malformed += 1;
                    }
                }
                tr.version += 1;
                h.msgs.push(Msg::Notify(
                    "textDocument/didChange",
                    json!({"textDocument": {"uri": tr.uri, "version": tr.version}, "contentChanges": changes}),
                ));
            }
            1 => h.msgs.push(Msg::Notify("textDocument/didSave", json!({"textDocument": td}))),
            _ => {
                if t.chance(50) {
                    h.msgs.push(Msg::Notify("textDocument/didSave", json!({"textDocument": td})));
                }
                h.msgs.push(Msg::Notify("textDocument/didClose", json!({"textDocument": td})));
                tr.open = false;
                if t.chance(30) {
                    // somebody else edited the file meanwhile, until then
                    let at = edits::boundary(&tr.text, t.below(tr.text.len() + 1));
                    let s = *t.pick(&edits::JUNK);
                    tr.text.insert_str(at, s);
                    tr.edits.push_front(Edit {
                        span: Some((at, at + s.len())),
                        text: String::new(),
                    });
                }
            }
        }
    }
    // the rest of the tape was too short
    for tr in &mut tracks {
        if !tr.open {
            h.msgs.push(open_msg(&tr.uri, 9, &tr.text));
        }
        while let Some(e) = tr.edits.pop_front() {
            let c = edits::change(&tr.text, &e, false);
            edits::apply(&mut tr.text, &e);
            h.msgs.push(Msg::Notify(
                "textDocument/didChange",
                json!({"textDocument": {"uri": tr.uri, "version": 99}, "contentChanges": [c]}),
            ));
        }
        assert_eq!(tr.text, w.files[tr.file].text());
    }
    h
}

fn play(s: &mut Server, msgs: &[Msg], asks: bool) -> Vec<(Probe, i64)> {
    let mut ids = vec![];
    for m in msgs {
        match m {
            Msg::Notify(method, p) => s.notify(method, p.clone()),
            Msg::Ask(p) if asks => ids.push((p.clone(), p.send(s))),
            _ => {}
        }
    }
    ids
}

const SMALL: WorldOpts = WorldOpts {
    max_templates: 3,
    max_backend: 2,
    size: 12,
    ..WORLD
};

fn c01(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    for tape in tapes {
        let mut t = Tape::new(tape);
        let asks = if t.chance(40) { 20 } else { 0 };
        let Some(mut w) = World::generate(ctx, &mut t, SMALL, stats) else { continue };
        let project = ctx.project()?;
        w.write(&project)?;
        let o = project.options(w.lang);
        let before = w.describe();
        let h = history(ctx, &mut t, &mut w, &project, stats, asks);
        let n = t.range(4, 14);
        let probes = probes(&mut t, &project, &w.files, n);
        let uris: Vec<String> = w.files.iter().map(|f| project.uri(&f.rel)).collect();
        let mut a = ctx.server(&project.dir, Some(o.clone()), "test")?;
        let sync = &a.capabilities["textDocumentSync"];
        if sync["openClose"] != true || sync["change"] != 2 || !(sync["save"] == true || sync["save"].is_object()) {
            return violation(format!("the server announces {sync}"));
        }
        a.ready()?;
        let ids = play(&mut a, &h.msgs, true);
        for (_, id) in ids {
            a.answer(id)?;
        }
        let mut b = ctx.server(&project.dir, Some(o), "test")?;
        b.ready()?;
        for i in &h.opened {
            b.open(&uris[*i], w.files[*i].text());
        }
        let text = || format!("{before}=== history\n{}", show(&h.msgs));
        // quick fixes come with diagnostics
        let now: Vec<Probe> = probes.iter().filter(|p| p.method != "codeAction").cloned().collect();
        let actual = snapshot(&mut a, &now)?;
        let expected = snapshot(&mut b, &now)?;
        compare(&now, &expected, &actual, "a fresh server answers", &text)?;
        let actual = saved(&mut a, &uris)?;
        let expected = saved(&mut b, &uris)?;
        for (i, u) in uris.iter().enumerate() {
            if actual[i] != expected[i] {
                return violation(format!(
                    "diagnostics of {u}: a fresh server publishes {}, but {}\n{}",
                    expected[i],
                    actual[i],
                    text()
                ));
            }
        }
        let mut actual = snapshot(&mut a, &probes)?;
        let mut expected = snapshot(&mut b, &probes)?;
        settle(&mut a, &probes, &expected, &mut actual)?;
        settle(&mut b, &probes, &actual, &mut expected)?;
        compare(&probes, &expected, &actual, "a fresh server answers", &text)?;
        stats.class("edits", h.edits as u64);
        stats.class("malformed texts", h.malformed as u64);
        stats.class("messages", h.msgs.len() as u64);
        stats.class("probes", probes.len() as u64);
        stats.class("answers that aren't empty", expected.iter().filter(|e| !e.is_null()).count() as u64);
        stats.case(&text(), h.edits >= 5 && h.malformed > 0 && h.unicode);
    }
    Ok(())
}

fn c20(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    for tape in tapes {
        let mut t = Tape::new(tape);
        let Some(mut w) = World::generate(ctx, &mut t, SMALL, stats) else { continue };
        let project = ctx.project()?;
        w.write(&project)?;
        let o = project.options(w.lang);
        let before = w.describe();
        let files = w.files.clone();
        let n = t.range(4, 16);
        let mut early = probes(&mut t, &project, &files, n);
        let again = early.clone();
        early.extend(again);
        t.shuffle(&mut early);
        let h = history(ctx, &mut t, &mut w, &project, stats, 45);
        let n = t.range(4, 12);
        let late = probes(&mut t, &project, &w.files, n);
        let uris: Vec<String> = w.files.iter().map(|f| project.uri(&f.rel)).collect();
        let mut a = ctx.server(&project.dir, Some(o.clone()), "test")?;
        a.ready()?;
        let mut b = ctx.server(&project.dir, Some(o), "test")?;
        b.ready()?;
        // requests only
        let published = a.published.len();
        let first = snapshot(&mut a, &early)?;
        let mut answers: BTreeMap<String, &Value> = BTreeMap::new();
        for (p, v) in early.iter().zip(&first) {
            let key = format!("{} {}", p.describe(), p.params());
            if let Some(o) = answers.insert(key, v) {
                if o != v {
                    return violation(format!("{}: first {o}, then {v}\n{before}", p.describe()));
                }
            }
        }
        let mut other = early.clone();
        other.reverse();
        let mut second = snapshot(&mut a, &other)?;
        second.reverse();
        compare(&early, &first, &second, "first the answer is", &|| before.clone())?;
        a.barrier()?;
        if a.published.len() != published {
            return violation(format!("requests published {:?}\n{before}", &a.published[published..]));
        }
        // requests between edits
        let ids = play(&mut a, &h.msgs, true);
        play(&mut b, &h.msgs, false);
        let mut sent: HashSet<&str> = early.iter().map(|p| p.method).collect();
        let count = ids.len();
        // pairs of equal requests follow each other
        let mut last: Option<(Probe, Value)> = None;
        let text = || format!("{before}=== history\n{}", show(&h.msgs));
        let mut asked = h.msgs.iter();
        for (p, id) in ids {
            let v = sorted(&a.answer(id)?);
            // was there a notification since the last request?
            let mut changed = false;
            for m in asked.by_ref() {
                match m {
                    Msg::Notify(..) => changed = true,
                    Msg::Ask(_) => break,
                }
            }
            if let Some((q, o)) = &last {
                let same = q.describe() == p.describe() && q.params() == p.params();
                if same && !changed && p.method != "codeAction" && *o != v {
                    return violation(format!("{}: first {o}, then {v}\n{}", p.describe(), text()));
                }
            }
            sent.insert(p.method);
            last = Some((p, v));
        }
        let now: Vec<Probe> = late.iter().filter(|p| p.method != "codeAction").cloned().collect();
        let actual = snapshot(&mut a, &now)?;
        let expected = snapshot(&mut b, &now)?;
        compare(&now, &expected, &actual, "without the requests the server answers", &text)?;
        let actual = saved(&mut a, &uris)?;
        let expected = saved(&mut b, &uris)?;
        for (i, u) in uris.iter().enumerate() {
            if actual[i] != expected[i] {
                return violation(format!(
                    "diagnostics of {u}: without the requests the server publishes {}, but {}\n{}",
                    expected[i],
                    actual[i],
                    text()
                ));
            }
        }
        let mut actual = snapshot(&mut a, &late)?;
        let mut expected = snapshot(&mut b, &late)?;
        settle(&mut a, &late, &expected, &mut actual)?;
        settle(&mut b, &late, &actual, &mut expected)?;
        compare(&late, &expected, &actual, "without the requests the server answers", &text)?;
        // what was answered before something else changed
        let defined: String = w.names.iter().map(|n| format!("{{% set {n} = 1 %}}")).collect();
        let mut opened: HashSet<usize> = h.opened.iter().copied().collect();
        let mut prefixed: HashSet<usize> = HashSet::new();
        let mut events = String::new();
        let mut new_answers = 0;
        let templates: Vec<usize> = (0..w.files.len()).filter(|i| w.files[*i].doc().is_some()).collect();
        for _ in 0..t.range(4, 10) {
            let p = t.pick(&now).clone();
            let id = p.send(&mut a);
            let old = sorted(&a.answer(id)?);
            let own = uris.iter().position(|u| *u == p.uri).unwrap_or(0);
            let i = if t.chance(75) { *t.pick(&templates) } else { own };
            let mut msgs = vec![];
            match t.weighted(&[8, 3, 2, 2]) {
                0 | 1 if w.files[i].doc().is_none() => {}
                0 => {
                    if opened.insert(i) {
                        msgs.push(open_msg(&uris[i], 3, w.files[i].text()));
                    }
                    let (end, text) = if prefixed.remove(&i) {
                        (defined.chars().map(char::len_utf16).sum(), "")
                    } else {
                        prefixed.insert(i);
                        (0, defined.as_str())
                    };
                    let range = json!({"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": end}});
                    msgs.push(Msg::Notify(
                        "textDocument/didChange",
                        json!({"textDocument": {"uri": uris[i], "version": 200}, "contentChanges": [{"range": range, "text": text}]}),
                    ));
                }
                1 => {
                    if !opened.insert(i) {
                        msgs.push(Msg::Notify("textDocument/didClose", json!({"textDocument": {"uri": uris[i]}})));
                    }
                    let text = if prefixed.remove(&i) {
                        w.files[i].text().to_string()
                    } else {
                        prefixed.insert(i);
                        format!("{defined}{}", w.files[i].text())
                    };
                    msgs.push(open_msg(&uris[i], 300, &text));
                }
                2 => {
                    let rel = "templates/missing.html";
                    events += "missing.html is created or removed\n";
                    if project.dir.join(rel).exists() {
                        project.remove(rel);
                    } else {
                        project.write(rel, "")?;
                    }
                    msgs.push(Msg::Notify("textDocument/didSave", json!({"textDocument": {"uri": uris[own]}})));
                }
                _ => {
                    events += "reset_variables\n";
                    for s in [&mut a, &mut b] {
                        s.request("workspace/executeCommand", json!({"command": "reset_variables", "arguments": []}))?;
                    }
                }
            }
            events += &format!("{}\n{}", p.describe(), show(&msgs));
            play(&mut a, &msgs, false);
            play(&mut b, &msgs, false);
            let id = p.send(&mut a);
            let actual = sorted(&a.answer(id)?);
            let id = p.send(&mut b);
            let expected = sorted(&b.answer(id)?);
            new_answers += u64::from(actual != old);
            if actual != expected {
                return violation(format!(
                    "{}: without the request before the server answers {expected}, but {actual}\n{}=== then\n{events}",
                    p.describe(),
                    text()
                ));
            }
        }
        stats.class("other answers to the same request after other messages", new_answers);
        stats.class("requests", (count + 2 * early.len()) as u64);
        stats.class("edits", h.edits as u64);
        stats.class("answers that aren't empty", first.iter().filter(|e| !e.is_null()).count() as u64);
        stats.case(&text(), count + 2 * early.len() >= 40 && sent.len() == 5 && count > 0 && h.edits > 0);
    }
    Ok(())
}

fn c16(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    for tape in tapes {
        let mut t = Tape::new(tape);
        let from_file = t.chance(25);
        let client = if t.chance(20) { "Visual Studio Code" } else { "test" };
        let Some(mut w) = World::generate(ctx, &mut t, SMALL, stats) else { continue };
        let project = ctx.project()?;
        for d in ["alt", "alt_src"] {
            std::fs::create_dir_all(project.dir.join(d)).unwrap();
        }
        // some files in directories that aren't configured yet
        for f in &mut w.files {
            if t.chance(25) {
                f.rel = f.rel.replacen("templates/", "alt/", 1).replacen("src/", "alt_src/", 1);
            }
        }
        w.write(&project)?;
        let mut config = project.options(w.lang);
        let init = if from_file {
            let text = format!(
                "[jinja-lsp]\ntemplates = \"./templates\"\nbackend = [\"./src\"]\nlang = \"{}\"\n",
                w.lang
            );
            project.write("jinja-lsp.toml", &text)?;
            None
        } else {
            Some(config.clone())
        };
        let before = w.describe();
        let mut story = String::new();
        let mut a = ctx.server(&project.dir, init, client)?;
        a.ready()?;
        let rounds = t.range(1, 3);
        let mut open: HashSet<usize> = HashSet::new();
        let (mut differs, mut on_disk, mut reconfigured) = (0, 0, 0);
        // names are never used again
        let mut added = 0;
        for _ in 0..rounds {
            let h = history(ctx, &mut t, &mut w, &project, stats, 0);
            play(&mut a, &h.msgs, true);
            story += &show(&h.msgs);
            open.extend(&h.opened);
            // texts of closed documents are those of their files
            for i in 0..w.files.len() {
                let uri = project.uri(&w.files[i].rel);
                if open.contains(&i) && t.chance(35) {
                    if t.chance(40) {
                        // not saved
                        let s = *t.pick(&edits::JUNK);
                        let c = json!({"range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}, "text": s});
                        a.notify(
                            "textDocument/didChange",
                            json!({"textDocument": {"uri": uri, "version": 100}, "contentChanges": [c]}),
                        );
                        story += &format!("{uri}: {s:?} at the beginning\n");
                    }
                    a.close(&uri);
                    story += &format!("close {uri}\n");
                    open.remove(&i);
                }
            }
            // files change
            let mut removed = vec![];
            for i in 0..w.files.len() {
                let rel = w.files[i].rel.clone();
                let closed = !open.contains(&i);
                match t.weighted(&[3, 2, 1]) {
                    0 if closed => {
                        project.write(&rel, w.files[i].text())?;
                        story += &format!("file {rel} {:?}\n", w.files[i].text());
                    }
                    0 => {}
                    1 => {
                        let c = match &w.files[i].content {
                            Content::Template(_) => w.template(ctx, &mut t, 8, stats).map(Content::Template),
                            Content::Backend(_) => Some(Content::Backend(w.backend(&mut t))),
                        };
                        let Some(c) = c else { continue };
                        let f = File {
                            rel: rel.clone(),
                            content: c,
                        };
                        project.write(&rel, f.text())?;
                        story += &format!("file {rel} {:?}\n", f.text());
                        if closed {
                            w.files[i] = f;
                            on_disk += 1;
                        } else {
                            differs += 1;
                        }
                    }
                    _ => {
                        project.remove(&rel);
                        story += &format!("removed {rel}\n");
                        if closed {
                            removed.push(i);
                        } else {
                            differs += 1;
                        }
                    }
                }
            }
            if t.chance(40) {
                if let Some(d) = w.template(ctx, &mut t, 8, stats) {
                    added += 1;
                    let rel = format!("templates/new{added}.jinja");
                    project.write(&rel, &d.text)?;
                    story += &format!("file {rel} {:?}\n", d.text);
                    w.files.push(File {
                        rel,
                        content: Content::Template(d),
                    });
                }
            }
            if t.chance(20) {
                let b = w.backend(&mut t);
                added += 1;
                let rel = format!("src/new{added}.{}", ext(w.lang));
                project.write(&rel, &b.text)?;
                story += &format!("file {rel} {:?}\n", b.text);
                w.files.push(File {
                    rel,
                    content: Content::Backend(b),
                });
            }
            let since = a.published.len();
            match t.weighted(&[4, 5, 2]) {
                0 => {
                    story += "reset_variables\n";
                    let args: Value = if t.chance(50) { json!([]) } else { json!([{"x": 1}]) };
                    a.request("workspace/executeCommand", json!({"command": "reset_variables", "arguments": args}))?;
                }
                1 => {
                    let mut c = json!({
                        "templates": t.pick(&["./templates", "./alt", "templates", "./"]),
                        "backend": t.pick(&[vec!["./src"], vec!["./src", "./alt_src"], vec!["./alt_src"], vec![], vec!["."]]),
                        "lang": if t.chance(20) { if w.lang == "rust" { "python" } else { "rust" } } else { w.lang },
                    });
                    if t.chance(40) {
                        c["hide_undefined"] = json!(t.chance(60));
                    }
                    story += &format!("configuration {c}\n");
                    a.notify("workspace/didChangeConfiguration", json!({"settings": c}));
                    config = c;
                    reconfigured += 1;
                }
                _ => {
                    let c = t.pick(&[json!(null), json!({}), json!({"templates": "./alt"}), json!([])]).clone();
                    story += &format!("unusable configuration {c}\n");
                    a.notify("workspace/didChangeConfiguration", json!({"settings": c}));
                }
            }
            let text = || format!("{before}=== history\n{story}");
            a.barrier()?;
            let mut b = ctx.server(&project.dir, Some(config.clone()), client)?;
            b.ready()?;
            let mut order: Vec<usize> = open.iter().copied().collect();
            order.sort();
            for i in &order {
                b.open(&project.uri(&w.files[*i].rel), w.files[*i].text());
            }
            let uris: Vec<String> = w.files.iter().map(|f| project.uri(&f.rel)).collect();
            let expected_diagnostics = saved(&mut b, &uris)?;
            // diagnostics again, without any save
            let templates = std::fs::canonicalize(project.dir.join(config["templates"].as_str().unwrap())).unwrap();
            let templates = crate::text::encode_path(templates.to_str().unwrap()) + "/";
            for (i, uri) in uris.iter().enumerate() {
                let known = open.contains(&i) || (uri.starts_with(&templates) && project.dir.join(&w.files[i].rel).exists());
                if w.files[i].doc().is_none() || !known {
                    continue;
                }
                let Some(last) = a.published[since..].iter().rev().find(|p| p.0 == *uri) else {
                    return violation(format!("diagnostics of {uri} aren't published again\n{}", text()));
                };
                if sorted(&last.1) != expected_diagnostics[i] {
                    return violation(format!(
                        "diagnostics of {uri}: a fresh server publishes {}, but {}\n{}",
                        expected_diagnostics[i],
                        last.1,
                        text()
                    ));
                }
            }
            let n = t.range(2, 8);
            let probes = probes(&mut t, &project, &w.files, n);
            let now: Vec<Probe> = probes.iter().filter(|p| p.method != "codeAction").cloned().collect();
            let actual = snapshot(&mut a, &now)?;
            let expected = snapshot(&mut b, &now)?;
            compare(&now, &expected, &actual, "a fresh server answers", &text)?;
            let actual = saved(&mut a, &uris)?;
            let expected = expected_diagnostics;
            for (i, u) in uris.iter().enumerate() {
                // a document that isn't known any more
                if expected[i].is_null() {
                    continue;
                }
                if actual[i] != expected[i] {
                    return violation(format!(
                        "diagnostics of {u}: a fresh server publishes {}, but {}\n{}",
                        expected[i],
                        actual[i],
                        text()
                    ));
                }
            }
            let mut actual = snapshot(&mut a, &probes)?;
            let mut expected = snapshot(&mut b, &probes)?;
            settle(&mut a, &probes, &expected, &mut actual)?;
            settle(&mut b, &probes, &actual, &mut expected)?;
            compare(&probes, &expected, &actual, "a fresh server answers", &text)?;
            stats.class("probes", probes.len() as u64);
            // documents of removed files don't exist any more
            removed.reverse();
            for i in removed {
                w.files.remove(i);
                open = open.iter().map(|o| if *o > i { o - 1 } else { *o }).collect();
            }
        }
        stats.class("open documents that differ from files", differs);
        stats.class("closed documents with other files", on_disk);
        stats.class("changes of the configuration", reconfigured);
        stats.class("rounds", rounds as u64);
        let text = format!("{before}=== history\n{story}");
        stats.case(&text, differs > 0 && on_disk > 0 && (reconfigured > 0 || rounds > 1));
    }
    Ok(())
}
