//! C06, C09, C12, C13: names of templates in documents and files below the directory of templates.

use super::world::{accept, floor, offset_in, start, Run, WORLD};
use crate::ctx::{Ctx, Stats};
use crate::gen::Class;
use crate::lsp::{violation, Res};
use crate::model;
use crate::tape::Tape;
use crate::text::{pos, range_key, Span};
use crate::world::{Content, World, WorldOpts};
use crate::Prop;
use serde_json::Value;
use std::collections::HashSet;
use std::time::{Duration, Instant};

const DOMAIN: &[&str] = &["well-formed templates and backend files of the generators (see DESIGN.md); names without `..`"];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            quick: 3000,
            thorough: 60000,
            batch: 1,
            tape: 1600,
            threads: 8,
            shrink_s: 40,
            run: c06,
            rule: "A case is a workspace whose documents name existing, missing and empty templates and directories, checked after \
                indexing and after 0-6 steps that create or delete files or change documents; non-trivial if an existing, a \
                missing name and a step that changed the files occurred.",
            assumptions: DOMAIN,
        },
        Prop {
            id: "C09",
            quick: 4000,
            thorough: 60000,
            batch: 1,
            tape: 1400,
            threads: 8,
            shrink_s: 40,
            run: c09,
            rule: "A case is a workspace and up to 60 positions in template strings and other strings of its files; non-trivial \
                if an existing and a missing template and another string were asked for.",
            assumptions: DOMAIN,
        },
        Prop {
            id: "C12",
            quick: 4000,
            thorough: 60000,
            batch: 1,
            tape: 1400,
            threads: 8,
            shrink_s: 40,
            run: c12,
            rule: "A case is a workspace, one of two clients and up to 40 positions in template strings; non-trivial if some \
                answer offers a template and leaves out another one.",
            assumptions: DOMAIN,
        },
        Prop {
            id: "C13",
            quick: 4000,
            thorough: 60000,
            batch: 1,
            tape: 1400,
            threads: 8,
            shrink_s: 40,
            run: c13,
            rule: "A case is a workspace, up to 40 positions in its files at which actions are asked for, and the creation of some \
                missing template; non-trivial if an action for a missing template, one for an expression and a position without \
                actions occurred.",
            assumptions: DOMAIN,
        },
    ]
}

const OPTS: WorldOpts = WorldOpts {
    imports: true,
    ..WORLD
};

/// Names relative to the directory of templates, in every spelling
fn spelling(t: &mut Tape, w: &mut World) {
    if t.chance(30) {
        let n = w.pool[0].clone();
        w.pool.push(format!("/{n}"));
        w.pool.push(format!("./{n}"));
        w.pool.push(format!("sub//{n}"));
    }
    if t.chance(30) {
        // almost the name of a file
        let n = w.pool[0].clone();
        for other in [format!("{n} "), format!(" {n}"), n.to_uppercase(), n.replace('t', "T"), n[1..].to_string(), format!("{n}x")] {
            w.pool.push(other);
        }
    }
}

fn canonical(name: &str) -> String {
    let parts: Vec<&str> = name.split('/').filter(|p| !p.is_empty() && *p != ".").collect();
    parts.join("/")
}

struct Files {
    existing: HashSet<String>,
    /// those that aren't backend files
    templates: HashSet<String>,
}

impl Files {
    fn new(w: &World) -> Files {
        let below = |only: bool| {
            w.files
                .iter()
                .filter(|f| !only || f.doc().is_some())
                .filter_map(|f| f.rel.strip_prefix("templates/"))
                .map(|s| s.to_string())
                .collect()
        };
        Files {
            existing: below(false),
            templates: below(true),
        }
    }
    fn has(&self, name: &str) -> bool {
        // `a.html/` isn't a file
        !name.ends_with('/') && self.existing.contains(&canonical(name))
    }
}

/// Strings of this file that name templates
fn strings(w: &World, i: usize) -> Vec<(String, Span)> {
    match &w.files[i].content {
        Content::Template(d) => d.templates.iter().map(|s| (s.name.clone(), s.span)).collect(),
        Content::Backend(b) => b.templates.clone(),
    }
}

fn compare_missing(r: &Run, files: &Files, i: usize) -> Res<(usize, usize)> {
    let f = &r.w.files[i];
    let text = f.text();
    let all = strings(&r.w, i);
    let mut expected: Vec<String> = all
        .iter()
        .filter(|s| !files.has(&s.0))
        .map(|s| format!("{} {} 2 jinja-lsp", range_key(text, s.1), model::MISSING))
        .collect();
    expected.sort();
    let uri = r.project.uri(&f.rel);
    let Some(diags) = r.server.diagnostics(&uri) else {
        return violation(format!("no diagnostics were published for {} of:\n{}", f.rel, r.w.describe()));
    };
    let actual = model::published(text, diags, true);
    if let Some(diff) = model::difference(&expected, &actual) {
        return violation(format!(
            "{}: {diff}\nexisting: {:?}\n{}",
            f.rel,
            files.existing,
            r.w.describe()
        ));
    }
    Ok((expected.len(), all.len() - expected.len()))
}

fn world(ctx: &Ctx, t: &mut Tape, stats: &mut Stats, opts: WorldOpts) -> Option<World> {
    let mut w = World::generate_with(ctx, t, opts, stats, spelling)?;
    w.imports = opts.imports;
    Some(w)
}

fn c06(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    for tape in tapes {
        let mut t = Tape::new(tape);
        let hide = t.chance(15);
        let steps = t.range(0, 6);
        let Some(w) = world(ctx, &mut t, stats, OPTS) else { continue };
        let mut files = Files::new(&w);
        let mut r = start(ctx, w, "test", hide)?;
        r.project.write("templates/sub/keep.txt", "")?;
        r.server.ready()?;
        let (mut missing, mut existing, mut changed) = (0, 0, 0);
        let mut story = r.w.describe();
        for i in 0..r.w.files.len() {
            let uri = r.project.uri(&r.w.files[i].rel);
            let text = r.w.files[i].text().to_string();
            if r.w.files[i].doc().is_none() {
                r.server.open(&uri, &text);
            }
        }
        r.server.barrier()?;
        for i in 0..r.w.files.len() {
            let n = compare_missing(&r, &files, i)?;
            missing += n.0;
            existing += n.1;
        }
        for _ in 0..steps {
            // files come and go ...
            if t.chance(70) {
                let n = t.pick(&["gone.html", "sub/none.jinja", "missing.html"]).to_string();
                let rel = format!("templates/{n}");
                story += &format!("--- toggles {rel}\n");
                if files.existing.remove(&n) {
                    r.project.remove(&rel);
                } else {
                    r.project.write(&rel, "")?;
                    files.existing.insert(n);
                }
                changed += 1;
            }
            // ... and documents are saved, opened or changed
            let i = t.below(r.w.files.len());
            let uri = r.project.uri(&r.w.files[i].rel);
            if t.chance(50) {
                let content = match &r.w.files[i].content {
                    Content::Template(_) => match r.w.template(ctx, &mut t, 10, stats) {
                        Some(d) => Content::Template(d),
                        None => continue,
                    },
                    Content::Backend(_) => Content::Backend(r.w.backend(&mut t)),
                };
                r.w.files[i].content = content;
                let text = r.w.files[i].text().to_string();
                story += &format!("--- then {}\n{text}\n", r.w.files[i].rel);
                if t.chance(50) {
                    r.server.open(&uri, "");
                    r.server.change_all(&uri, &text);
                    r.server.save(&uri);
                } else {
                    r.server.open(&uri, &text);
                }
            } else {
                r.server.save(&uri);
            }
            r.server.barrier()?;
            let n = compare_missing(&r, &files, i)?;
            missing += n.0;
            existing += n.1;
        }
        stats.class("missing templates", missing as u64);
        stats.class("existing templates", existing as u64);
        stats.class("changes of files", changed);
        stats.class("hide_undefined", hide as u64);
        stats.class(r.w.lang, 1);
        stats.case(&story, missing > 0 && existing > 0 && changed > 0);
    }
    Ok(())
}

/// URI and range of an answer of go to definition
fn target(answer: &Value) -> Option<String> {
    let one = match answer {
        Value::Null => return None,
        Value::Array(a) if a.is_empty() => return None,
        Value::Array(a) if a.len() > 1 => return Some(answer.to_string()),
        Value::Array(a) => &a[0],
        v => v,
    };
    Some(format!(
        "{} {}",
        one["uri"].as_str().unwrap_or("?"),
        crate::text::json_range(&one["range"])
    ))
}

fn c09(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    for tape in tapes {
        let mut t = Tape::new(tape);
        let Some(w) = world(ctx, &mut t, stats, OPTS) else { continue };
        let mut files = Files::new(&w);
        let mut r = start(ctx, w, "test", false)?;
        r.project.write("templates/sub/keep.txt", "")?;
        r.server.ready()?;
        // it wasn't there when the workspace was indexed
        if t.chance(40) {
            r.project.write("templates/gone.html", "")?;
            files.existing.insert("gone.html".into());
        }
        let (mut existing, mut missing, mut other) = (0, 0, 0);
        let mut asked = vec![];
        for _ in 0..60 {
            let i = t.below(r.w.files.len());
            let uri = r.project.uri(&r.w.files[i].rel);
            let text = r.w.files[i].text().to_string();
            let all = strings(&r.w, i);
            let (at, expected) = if t.chance(75) {
                if all.is_empty() {
                    continue;
                }
                let s = t.pick(&all);
                let at = offset_in(&mut t, s.1, true);
                if files.has(&s.0) {
                    existing += 1;
                    let rel = format!("templates/{}", canonical(&s.0));
                    (at, Some(format!("{} 0:0-0:0", r.project.uri(&rel))))
                } else {
                    missing += 1;
                    (at, None)
                }
            } else {
                let spans: Vec<Span> = match &r.w.files[i].content {
                    Content::Template(d) => {
                        let strings = d.neutral.iter().filter(|n| n.class == Class::Str && n.span.0 < n.span.1);
                        strings.map(|n| n.span).collect()
                    }
                    Content::Backend(b) => b.noise.clone(),
                };
                if spans.is_empty() {
                    continue;
                }
                let s = *t.pick(&spans);
                other += 1;
                let mut at = offset_in(&mut t, s, false);
                while !text.is_char_boundary(at) {
                    at -= 1;
                }
                (at, None)
            };
            let p = pos(&text, at);
            let id = r.server.ask("definition", &uri, p);
            asked.push((id, i, p, expected));
        }
        for (id, i, p, expected) in asked {
            let answer = r.server.answer(id)?;
            if target(&answer) != expected {
                return violation(format!(
                    "definition at {}:{} of {}: expected {expected:?}, got {answer}\nexisting: {:?}\n{}",
                    p.line,
                    p.ch,
                    r.w.files[i].rel,
                    files.existing,
                    r.w.describe()
                ));
            }
            stats.class("positions", 1);
        }
        stats.class("existing templates", existing);
        stats.class("missing templates", missing);
        stats.class("other strings", other);
        stats.case(&r.w.describe(), existing > 0 && missing > 0 && other > 0);
    }
    Ok(())
}

fn c12(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    for tape in tapes {
        let mut t = Tape::new(tape);
        let client = if t.chance(40) { "Visual Studio Code" } else { "test" };
        let more = t.weighted(&[80, 14, 6]);
        let more = [0, t.range(1, 2), t.range(60, 160)][more];
        let malformed = t.chance(50);
        let Some(mut w) = world(ctx, &mut t, stats, WorldOpts { max_templates: 7, size: 12, ..OPTS }) else {
            continue;
        };
        for i in 0..more {
            let text = if malformed { *t.pick(&MALFORMED) } else { "" };
            w.extra.push((format!("templates/{}more{i}.html", t.pick(&["", "sub/", "extra/"])), text.into()));
        }
        let mut files = Files::new(&w);
        let extra = w.extra.iter().filter_map(|e| e.0.strip_prefix("templates/"));
        files.templates.extend(extra.map(String::from));
        let mut r = start(ctx, w, client, false)?;
        r.server.ready()?;
        let (mut offered, mut hidden) = (0, 0);
        let mut asked = vec![];
        for _ in 0..40 {
            let i = t.below(r.w.files.len());
            let uri = r.project.uri(&r.w.files[i].rel);
            let text = r.w.files[i].text().to_string();
            let all = strings(&r.w, i);
            if all.is_empty() {
                continue;
            }
            let s = t.pick(&all).clone();
            let k = t.range(0, s.0.len());
            let at = s.1 .0 + 1 + k;
            let p = pos(&text, at);
            let id = r.server.ask("completion", &uri, p);
            asked.push((id, i, p, at, s, k, text));
        }
        for (id, i, p, at, s, k, text) in asked {
            let answer = r.server.answer(id)?;
            let fail = |m: String| {
                violation(format!(
                    "completion at {}:{} of {}: {m}\n{}",
                    p.line,
                    p.ch,
                    r.w.files[i].rel,
                    r.w.describe()
                ))
            };
            let typed = &s.0[..k];
            let mut expected: Vec<String> = files.templates.iter().filter(|n| n.contains(typed)).cloned().collect();
            expected.sort();
            let mut labels = vec![];
            for item in answer.as_array().map(|a| a.as_slice()).unwrap_or_default() {
                let label = item["label"].as_str().unwrap_or("?").to_string();
                let mut should = text.clone();
                should.replace_range(s.1 .0..s.1 .1, &format!("\"{label}\""));
                match accept(&text, at, item) {
                    Err(e) => return fail(format!("{e}: {item}")),
                    Ok(got) if got != should => {
                        return fail(format!("accepting {item} gives:\n{got}\ninstead of:\n{should}\n"))
                    }
                    _ => {}
                }
                if !r.project.templates.join(&label).is_file() || item["kind"] != 17 {
                    return fail(format!("{item} isn't a template"));
                }
                labels.push(label);
            }
            labels.sort();
            if let Some(diff) = model::difference(&expected, &labels) {
                return fail(format!("typed {typed:?}: {diff}"));
            }
            offered += labels.len() as u64;
            hidden += (files.templates.len() - labels.len()) as u64;
            stats.class("positions", 1);
        }
        stats.class(client, 1);
        stats.class("offered", offered);
        stats.class("hidden", hidden);
        stats.flag("more than 60 templates", more > 2);
        stats.flag("malformed templates", more > 0 && malformed);
        stats.case(&r.w.describe(), offered > 0 && hidden > 0);
    }
    Ok(())
}

/// Templates with errors are files too
const MALFORMED: [&str; 4] = ["{{ {% if %", "{% if x %", "{{ a | }}", "{% endfor %} {{ b {{ c"];

const CREATE: &str = "Generate new template";

fn titles(answer: &Value) -> Vec<String> {
    let mut v: Vec<String> = answer
        .as_array()
        .map(|a| a.as_slice())
        .unwrap_or_default()
        .iter()
        .map(|a| a["title"].as_str().unwrap_or("?").to_string())
        .collect();
    v.sort();
    v
}

fn c13(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    for tape in tapes {
        let mut t = Tape::new(tape);
        let Some(mut w) = world(ctx, &mut t, stats, OPTS) else { continue };
        let mut files = Files::new(&w);
        // creating below a file or with the name of a directory is impossible
        let bad = |n: &str| n.ends_with("/x.html") || canonical(n) == "sub" || canonical(n).is_empty();
        w.pool.retain(|n| !bad(n));
        let mut r = start(ctx, w, "test", false)?;
        for i in 0..r.w.files.len() {
            let uri = r.project.uri(&r.w.files[i].rel);
            let text = r.w.files[i].text().to_string();
            if r.w.files[i].doc().is_none() || t.chance(30) {
                r.server.open(&uri, &text);
            }
        }
        r.server.ready()?;
        let (mut create, mut reset, mut nothing) = (0, 0, 0);
        let mut asked = vec![];
        for _ in 0..40 {
            let i = t.below(r.w.files.len());
            let uri = r.project.uri(&r.w.files[i].rel);
            let text = r.w.files[i].text().to_string();
            let all = strings(&r.w, i);
            let (at, expected): (usize, Option<Vec<&str>>) = match t.weighted(&[4, 3, 3]) {
                0 => {
                    if all.is_empty() {
                        continue;
                    }
                    let s = t.pick(&all).clone();
                    if bad(&s.0) {
                        continue;
                    }
                    let at = offset_in(&mut t, s.1, true);
                    if files.has(&s.0) {
                        // the end of a string can be the beginning of the next one
                        nothing += 1;
                        (at, Some(vec![]))
                    } else {
                        create += 1;
                        (at, Some(vec![CREATE]))
                    }
                }
                1 => {
                    let Some(d) = r.w.files[i].doc() else { continue };
                    let mut spans: Vec<Span> = d.blanks.iter().map(|b| (b.0, b.1 + 1)).collect();
                    for x in d.refs.iter().filter(|x| x.expr.is_some()) {
                        spans.push((x.span.0 + 1, x.span.1 + 1));
                    }
                    if spans.is_empty() {
                        continue;
                    }
                    let span = *t.pick(&spans);
                    reset += 1;
                    (
                        offset_in(&mut t, span, false),
                        Some(vec!["Reset variables", "Warn about unused"]),
                    )
                }
                _ => {
                    let spans: Vec<Span> = match &r.w.files[i].content {
                        Content::Template(d) => {
                            let mut v: Vec<Span> = d
                                .neutral
                                .iter()
                                .filter(|n| n.expr.is_none() && n.span.0 < n.span.1)
                                .map(|n| n.span)
                                .collect();
                            v.extend(d.refs.iter().filter(|x| x.expr.is_none()).map(|x| x.span));
                            v.extend(d.defs.iter().map(|x| x.span));
                            v
                        }
                        Content::Backend(b) => b.noise.clone(),
                    };
                    if spans.is_empty() {
                        continue;
                    }
                    let span = *t.pick(&spans);
                    let at = offset_in(&mut t, span, false);
                    let at = match r.w.files[i].doc() {
                        Some(d) => floor(d, at),
                        None => span.0,
                    };
                    nothing += 1;
                    (at, Some(vec![]))
                }
            };
            let p = pos(&text, at);
            let q = serde_json::json!({"line": p.line, "character": p.ch});
            // the beginning of the range decides
            let end = match t.weighted(&[3, 1]) {
                0 => at,
                _ => (at..=at + t.below(text.len() - at + 1)).rev().find(|i| text.is_char_boundary(*i)).unwrap_or(at),
            };
            let e = pos(&text, end);
            let id = r.server.send_request(
                "textDocument/codeAction",
                serde_json::json!({"textDocument": {"uri": uri},
                    "range": {"start": q, "end": {"line": e.line, "character": e.ch}},
                    "context": {"diagnostics": []}}),
            );
            asked.push((id, i, p, at, expected));
        }
        let mut creations = vec![];
        for (id, i, p, at, expected) in asked {
            let answer = r.server.answer(id)?;
            let actual = titles(&answer);
            if expected.as_ref().is_some_and(|e| *e != actual) {
                return violation(format!(
                    "actions at {}:{} of {}: expected {expected:?}, got {answer}\n{}",
                    p.line,
                    p.ch,
                    r.w.files[i].rel,
                    r.w.describe()
                ));
            }
            if actual == [CREATE] {
                creations.push((i, at, p, answer[0].clone()));
            }
            stats.class("positions", 1);
        }
        // what the client does with the action
        if !creations.is_empty() {
            let (i, at, p, action) = t.pick(&creations).clone();
            let all = strings(&r.w, i);
            let s = all.iter().find(|s| s.1 .0 <= at && at <= s.1 .1).unwrap();
            let rel = format!("templates/{}", canonical(&s.0));
            let ops = &action["edit"]["documentChanges"];
            let op = &ops[0];
            let ok = ops.as_array().is_some_and(|a| a.len() == 1)
                && op["kind"] == "create"
                && op["uri"] == r.project.uri(&rel)
                && op["options"]["overwrite"] != Value::Bool(true);
            if !ok {
                return violation(format!("{action} doesn't create {rel}\n{}", r.w.describe()));
            }
            let uri = r.project.uri(&r.w.files[i].rel);
            // the server looks again by itself, 1.4 seconds after it offered the action
            let unsaved = t.chance(6);
            let asked = Instant::now();
            if unsaved {
                r.server.code_actions(&uri, p)?;
                std::thread::sleep(Duration::from_millis(*t.pick(&[0, 40, 200, 600])));
            }
            r.project.write(&rel, "")?;
            files.existing.insert(canonical(&s.0));
            if unsaved && asked.elapsed() < Duration::from_millis(1000) {
                let report = format!("{} ", range_key(r.w.files[i].text(), s.1));
                let text = r.w.files[i].text().to_string();
                r.server.wait("the report of a created template to disappear", |server| {
                    server.diagnostics(&uri).is_some_and(|d| {
                        !model::published(&text, d, true).iter().any(|d| d.starts_with(&report))
                    })
                })?;
                stats.class("created templates without a save", 1);
            } else {
                r.server.save(&uri);
            }
            r.server.barrier()?;
            compare_missing(&r, &files, i)?;
            let answer = r.server.code_actions(&uri, p)?;
            if !titles(&answer).is_empty() {
                return violation(format!("the template {rel} exists, but {answer}\n{}", r.w.describe()));
            }
            stats.class("created templates", 1);
        }
        stats.class("actions for missing templates", create);
        stats.class("actions in expressions", reset);
        stats.class("positions without actions", nothing);
        stats.case(&r.w.describe(), create > 0 && reset > 0 && nothing > 0);
    }
    Ok(())
}
