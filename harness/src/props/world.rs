//! C05, C08, C22, C10: answers and diagnostics in generated workspaces.

use crate::ctx::{Ctx, Project, Stats};
use crate::gen::{Class, Doc, Kind};
use crate::lsp::{violation, Res, Server};
use crate::model;
use crate::tape::Tape;
use crate::text::{self, json_range, pos, range_key};
use crate::world::{Content, World, WorldOpts};
use crate::Prop;
use serde_json::{json, Value};
use std::collections::HashSet;

const DOMAIN: &[&str] = &["well-formed templates and backend files of the generators (see DESIGN.md)"];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            quick: 3000,
            thorough: 60000,
            batch: 1,
            tape: 1600,
            threads: 8,
            shrink_s: 40,
            run: c05,
            rule: "A case is a workspace of 1-4 templates and 0-2 backend files with a shared pool of names, hide_undefined or \
                not, checked after indexing and after each of 0-6 open/change/save steps; non-trivial if some reference \
                is defined in another file only and another one is undefined (or hide_undefined hides at least 2).",
            assumptions: DOMAIN,
        },
        Prop {
            id: "C08",
            quick: 4000,
            thorough: 60000,
            batch: 1,
            tape: 1400,
            threads: 8,
            shrink_s: 40,
            run: c08,
            rule: "A case is a workspace and up to 60 positions in identifiers (references, attributes, definitions, block names) \
                of its templates; non-trivial if some position has a definition in its file that shadows or is shadowed by \
                another one and some other position leads to another file.",
            assumptions: DOMAIN,
        },
        Prop {
            id: "C22",
            quick: 3500,
            thorough: 60000,
            batch: 1,
            tape: 1400,
            threads: 8,
            shrink_s: 40,
            run: c22,
            rule: "A case is a workspace and up to 60 positions in references and neutral tokens of its templates; \
                non-trivial if at least 2 kinds of variables, one variable of another file and one neutral token were hovered.",
            assumptions: DOMAIN,
        },
        Prop {
            id: "C10",
            quick: 4000,
            thorough: 60000,
            batch: 1,
            tape: 1400,
            threads: 8,
            shrink_s: 40,
            run: c10,
            rule: "A case is a workspace, one of two clients and up to 40 blank or identifier positions in expressions; \
                non-trivial if some answer offers a variable of the template and hides another one that is out of reach.",
            assumptions: DOMAIN,
        },
    ]
}

pub const WORLD: WorldOpts = WorldOpts {
    max_templates: 4,
    max_backend: 2,
    size: 22,
    templates: true,
    imports: false,
    odd: false,
};

pub struct Run {
    pub w: World,
    pub project: Project,
    pub server: Server,
}

pub fn start(ctx: &Ctx, w: World, client: &str, hide: bool) -> Res<Run> {
    let project = ctx.project()?;
    w.write(&project)?;
    let mut o = project.options(w.lang);
    o["templates"] = project.spell("templates", w.spelling)?.into();
    o["backend"] = json!([project.spell("src", w.spelling)?]);
    if hide {
        o["hide_undefined"] = Value::Bool(true);
    }
    let server = ctx.server(&project.dir, Some(o), client)?;
    Ok(Run { w, project, server })
}

pub fn compare_variables(r: &Run, i: usize, hide: bool) -> Res<Option<Vec<String>>> {
    let f = &r.w.files[i];
    let Some(d) = f.doc() else { return Ok(None) };
    let uri = r.project.uri(&f.rel);
    let Some(diags) = r.server.diagnostics(&uri) else {
        return violation(format!("no diagnostics were published for {} of:\n{}", f.rel, r.w.describe()));
    };
    let actual = model::published(&d.text, diags, false);
    let expected = model::variables(d, &r.w.others(i), hide);
    if let Some(diff) = model::difference(&expected, &actual) {
        return violation(format!("{}: {diff}\n{}", f.rel, r.w.describe()));
    }
    let actual = model::published(&d.text, diags, true);
    let expected_missing = model::missing(d, |n| r.w.has(n));
    if let Some(diff) = model::difference(&expected_missing, &actual) {
        return violation(format!("{}: {diff}\n{}", f.rel, r.w.describe()));
    }
    Ok(Some(expected))
}

fn c05(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    for tape in tapes {
        let mut t = Tape::new(tape);
        let hide = t.chance(25);
        let steps = t.range(0, 6);
        let Some(w) = World::generate(ctx, &mut t, WORLD, stats) else { continue };
        let mut r = start(ctx, w, "test", hide)?;
        r.server.ready()?;
        let (mut elsewhere, mut undefined, mut hidden) = (0, 0, 0);
        let mut story = r.w.describe();
        for i in 0..r.w.files.len() {
            if let Some(e) = compare_variables(&r, i, hide)? {
                elsewhere += e.iter().filter(|s| s.contains(model::ELSEWHERE)).count();
                undefined += e.iter().filter(|s| s.contains(model::UNDEFINED)).count();
            }
            if hide {
                if let Some(d) = r.w.files[i].doc() {
                    hidden += model::variables(d, &r.w.others(i), false).len();
                }
            }
        }
        for _ in 0..steps {
            // another text for one of the files ...
            let i = t.below(r.w.files.len());
            let content = match &r.w.files[i].content {
                Content::Template(_) => match r.w.template(ctx, &mut t, 10, stats) {
                    Some(d) => Content::Template(d),
                    None => continue,
                },
                Content::Backend(_) => Content::Backend(r.w.backend(&mut t)),
            };
            r.w.files[i].content = content;
            let uri = r.project.uri(&r.w.files[i].rel);
            let text = r.w.files[i].text().to_string();
            story += &format!("--- then {}\n{text}\n", r.w.files[i].rel);
            match t.below(2) {
                0 => r.server.open(&uri, &text),
                _ => {
                    r.server.open(&uri, "");
                    r.server.change_all(&uri, &text);
                    r.server.save(&uri);
                }
            }
            // ... changes what is defined elsewhere for the other ones
            for i in 0..r.w.files.len() {
                let uri = r.project.uri(&r.w.files[i].rel);
                r.server.save(&uri);
            }
            r.server.barrier()?;
            for i in 0..r.w.files.len() {
                if let Some(e) = compare_variables(&r, i, hide)? {
                    elsewhere += e.iter().filter(|s| s.contains(model::ELSEWHERE)).count();
                    undefined += e.iter().filter(|s| s.contains(model::UNDEFINED)).count();
                }
            }
        }
        stats.class("hide_undefined", hide as u64);
        stats.class("steps", steps as u64);
        stats.class("references defined elsewhere", elsewhere as u64);
        stats.class("undefined references", undefined as u64);
        stats.class(r.w.lang, 1);
        stats.case(&story, elsewhere > 0 && undefined > 0 || hidden > 1);
    }
    Ok(())
}

/// Some of the offsets in a token: first, last, end, middle
pub fn offset_in(t: &mut Tape, span: text::Span, end: bool) -> usize {
    let n = span.1 - span.0;
    span.0 + t.below(n + end as usize)
}

pub fn location(uri: &str, key: &str) -> String {
    format!("{uri} {key}")
}

pub fn locations(answer: &Value) -> Vec<String> {
    let one = |v: &Value| location(v["uri"].as_str().unwrap_or("?"), &json_range(&v["range"]));
    let mut v: Vec<String> = match answer {
        Value::Array(a) => a.iter().map(one).collect(),
        Value::Null => vec![],
        v => vec![one(v)],
    };
    v.sort();
    v
}

/// What go to definition has to answer for this variable at this offset
pub fn definition(r: &Run, index: usize, name: &str, at: usize) -> (Vec<String>, bool) {
    let f = &r.w.files[index];
    let d = f.doc().unwrap();
    if let Some(def) = d.resolve(name, at) {
        return (vec![location(&r.project.uri(&f.rel), &range_key(&d.text, def.span))], true);
    }
    let mut v = vec![];
    for (i, f) in r.w.files.iter().enumerate() {
        if i == index {
            continue;
        }
        for (n, span) in f.exports() {
            if n.split('.').next() == Some(name) {
                v.push(location(&r.project.uri(&f.rel), &range_key(f.text(), span)));
            }
        }
    }
    v.sort();
    (v, false)
}

fn c08(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    for tape in tapes {
        let mut t = Tape::new(tape);
        let Some(w) = World::generate(ctx, &mut t, WORLD, stats) else { continue };
        let mut r = start(ctx, w, "test", false)?;
        r.server.ready()?;
        let (mut shadow, mut cross) = (0, 0);
        let mut asked = vec![];
        for _ in 0..60 {
            let index = t.below(r.w.files.len());
            let Some(d) = r.w.files[index].doc().cloned() else { continue };
            let uri = r.project.uri(&r.w.files[index].rel);
            let what = t.weighted(&[6, 2, 2, 1, 1]);
            let (name, at, expected) = match what {
                3 => {
                    let words: Vec<_> = d.filters.iter().chain(&d.tests).cloned().collect();
                    if words.is_empty() {
                        continue;
                    }
                    let x = t.pick(&words).clone();
                    let at = offset_in(&mut t, x.span, false);
                    (x.name.clone(), at, (vec![], false))
                }
                4 => {
                    if d.neutral.is_empty() {
                        continue;
                    }
                    let x = t.pick(&d.neutral).clone();
                    if x.class == Class::Operator || x.span.0 == x.span.1 {
                        continue;
                    }
                    let at = offset_in(&mut t, x.span, false);
                    (format!("{:?}", x.class), floor(&d, at), (vec![], false))
                }
                0 | 1 => {
                    if d.refs.is_empty() {
                        continue;
                    }
                    let x = t.pick(&d.refs).clone();
                    let span = if what == 1 && !x.fields.is_empty() {
                        t.pick(&x.fields).1
                    } else {
                        x.span
                    };
                    let at = offset_in(&mut t, span, true);
                    (x.name.clone(), at, definition(&r, index, &x.name, at))
                }
                _ => {
                    if d.defs.is_empty() {
                        continue;
                    }
                    let x = t.pick(&d.defs).clone();
                    let at = offset_in(&mut t, x.span, true);
                    (x.name.clone(), at, (vec![location(&uri, &range_key(&d.text, x.span))], true))
                }
            };
            let p = pos(&d.text, at);
            let id = r.server.ask("definition", &uri, p);
            asked.push((id, index, d, p, name, expected));
        }
        for (id, index, d, p, name, expected) in asked {
            let answer = r.server.answer(id)?;
            let actual = locations(&answer);
            if let Some(diff) = model::difference(&expected.0, &actual) {
                return violation(format!(
                    "definition of {name} at {}:{} of {}: {diff}\n{}",
                    p.line,
                    p.ch,
                    r.w.files[index].rel,
                    r.w.describe()
                ));
            }
            stats.class("positions", 1);
            if expected.1 {
                if d.defs.iter().filter(|o| o.name == name).count() > 1 {
                    shadow += 1;
                }
            } else if !expected.0.is_empty() {
                cross += 1;
            } else {
                stats.class("positions without definition", 1);
            }
        }
        stats.class("positions with several definitions in the file", shadow);
        stats.class("positions defined in other files", cross);
        stats.case(&r.w.describe(), shadow > 0 && cross > 0);
    }
    Ok(())
}

pub fn hover_text(answer: &Value) -> Option<String> {
    answer["contents"]["value"].as_str().map(|s| s.to_string())
}

fn c22(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    for tape in tapes {
        let mut t = Tape::new(tape);
        let Some(w) = World::generate(ctx, &mut t, WORLD, stats) else { continue };
        let mut r = start(ctx, w, "test", false)?;
        r.server.ready()?;
        let (mut kinds, mut cross, mut neutral) = (HashSet::new(), 0, 0);
        let mut asked = vec![];
        for _ in 0..60 {
            let index = t.below(r.w.files.len());
            let Some(d) = r.w.files[index].doc().cloned() else { continue };
            let uri = r.project.uri(&r.w.files[index].rel);
            let (at, expected, what) = if !t.chance(35) {
                if d.refs.is_empty() {
                    continue;
                }
                let x = t.pick(&d.refs).clone();
                let at = offset_in(&mut t, x.span, false);
                let expected = if let Some(def) = d.resolve(&x.name, x.span.0) {
                    kinds.insert(def.kind);
                    Some(def.kind.detail().to_string())
                } else if r.w.others(index).iter().any(|n| n.split('.').next() == Some(&x.name)) {
                    cross += 1;
                    Some("Backend variable".to_string())
                } else {
                    stats.class("references without definition", 1);
                    None
                };
                (at, expected, x.name)
            } else if t.chance(15) {
                let blocks: Vec<_> = d.defs.iter().filter(|x| x.kind == Kind::Block).collect();
                if blocks.is_empty() {
                    continue;
                }
                let span = t.pick(&blocks).span;
                neutral += 1;
                (offset_in(&mut t, span, false), None, "name of a block".to_string())
            } else {
                if d.neutral.is_empty() {
                    continue;
                }
                let x = t.pick(&d.neutral).clone();
                if x.class == Class::Operator || x.span.0 == x.span.1 {
                    continue;
                }
                neutral += 1;
                let at = offset_in(&mut t, x.span, false);
                (floor(&d, at), None, format!("{:?}", x.class))
            };
            let p = pos(&d.text, at);
            let id = r.server.ask("hover", &uri, p);
            asked.push((id, index, p, what, expected));
        }
        for (id, index, p, what, expected) in asked {
            let answer = r.server.answer(id)?;
            let actual = hover_text(&answer);
            if actual != expected {
                return violation(format!(
                    "hover over {what} at {}:{} of {}: expected {expected:?}, got {answer}\n{}",
                    p.line,
                    p.ch,
                    r.w.files[index].rel,
                    r.w.describe()
                ));
            }
            stats.class("positions", 1);
            if let Some(e) = expected {
                stats.class(&e, 1);
            }
        }
        stats.class("neutral tokens", neutral);
        stats.case(&r.w.describe(), kinds.len() > 1 && cross > 0 && neutral > 0);
    }
    Ok(())
}

/// Beginning of the character at this offset
pub fn floor(d: &Doc, mut at: usize) -> usize {
    while !d.text.is_char_boundary(at) {
        at -= 1;
    }
    at
}

/// The text after this item was accepted at this offset
pub fn accept(source: &str, at: usize, item: &Value) -> Result<String, String> {
    let p = |v: &Value| {
        text::offset(
            source,
            text::Pos {
                line: v["line"].as_u64().unwrap_or(0) as usize,
                ch: v["character"].as_u64().unwrap_or(0) as usize,
            },
        )
    };
    let mut edits: Vec<(usize, usize, String)> = vec![];
    let new_text = |e: &Value| e["newText"].as_str().unwrap_or("").to_string();
    let e = &item["textEdit"];
    if e.is_null() {
        let s = item["insertText"].as_str().or(item["label"].as_str()).unwrap_or("");
        edits.push((at, at, s.to_string()));
    } else if !e["replace"].is_null() {
        if e["insert"] != e["replace"] {
            return Err("insert and replace differ".into());
        }
        edits.push((p(&e["replace"]["start"]), p(&e["replace"]["end"]), new_text(e)));
    } else {
        edits.push((p(&e["range"]["start"]), p(&e["range"]["end"]), new_text(e)));
    }
    if let Some(more) = item["additionalTextEdits"].as_array() {
        for e in more {
            edits.push((p(&e["range"]["start"]), p(&e["range"]["end"]), new_text(e)));
        }
    }
    edits.retain(|e| e.0 != e.1 || !e.2.is_empty());
    edits.sort();
    let mut s = source.to_string();
    for e in edits.iter().rev() {
        s.replace_range(e.0..e.1, &e.2);
    }
    Ok(s)
}

fn c10(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    for tape in tapes {
        let mut t = Tape::new(tape);
        let client = if t.chance(40) { "Visual Studio Code" } else { "test" };
        let Some(w) = World::generate(ctx, &mut t, WORLD, stats) else { continue };
        let mut r = start(ctx, w, client, false)?;
        r.server.ready()?;
        let (mut offered, mut hidden) = (0, 0);
        let mut asked = vec![];
        for _ in 0..40 {
            let index = t.below(r.w.files.len());
            let Some(d) = r.w.files[index].doc().cloned() else { continue };
            let uri = r.project.uri(&r.w.files[index].rel);
            let blank = t.chance(40);
            let (at, typed, chain, root) = if blank {
                if d.blanks.is_empty() {
                    continue;
                }
                let b = *t.pick(&d.blanks);
                (offset_in(&mut t, b, true), String::new(), None, 0)
            } else {
                let refs: Vec<_> = d.refs.iter().filter(|r| r.expr.is_some()).collect();
                if refs.is_empty() {
                    continue;
                }
                let x = *t.pick(&refs);
                let at = x.span.0 + t.range(1, x.name.len());
                (at, d.text[x.span.0..at].to_string(), Some((x.span.0, x.chain_end())), x.name.len())
            };
            let p = pos(&d.text, at);
            let id = r.server.ask("completion", &uri, p);
            asked.push((id, index, d, p, at, typed, chain, root, blank));
        }
        for (id, index, d, p, at, typed, chain, root, blank) in asked {
            let answer = r.server.answer(id)?;
            let fail = |m: String| {
                violation(format!(
                    "completion at {}:{} of {}: {m}\n{}",
                    p.line,
                    p.ch,
                    r.w.files[index].rel,
                    r.w.describe()
                ))
            };
            let Some(items) = answer.as_array() else {
                return fail(format!("no items but {answer}"));
            };
            let visible: Vec<_> = d
                .defs
                .iter()
                .filter(|x| x.kind != crate::gen::Kind::Block && x.span.1 <= at && at <= x.end)
                .filter(|x| x.name.starts_with(&typed))
                .collect();
            let mut expected: Vec<String> = visible.iter().map(|x| x.name.clone()).collect();
            expected.sort();
            expected.dedup();
            offered += expected.len() as u64;
            let all: HashSet<&String> = d.defs.iter().map(|x| &x.name).collect();
            hidden += all.len() as u64 - expected.len() as u64;
            let mut own = vec![];
            let mut backend = vec![];
            for item in items {
                let label = item["label"].as_str().unwrap_or("?").to_string();
                if item["detail"] == "Backend variable" {
                    if item["kind"] != 6 {
                        return fail(format!("kind of {item}"));
                    }
                    backend.push(label);
                    continue;
                }
                let kind = visible.iter().any(|x| {
                    x.name == label && item["detail"] == x.kind.detail() && item["kind"] == x.kind.completion()
                });
                if !kind {
                    return fail(format!("{item} isn't a visible variable ({expected:?})"));
                }
                let (a, b) = chain.unwrap_or((at, at));
                let mut should = d.text.clone();
                should.replace_range(a..b, &label);
                // attributes are replaced or kept
                let mut kept = d.text.clone();
                kept.replace_range(a..a + root, &label);
                match accept(&d.text, at, item) {
                    Err(e) => return fail(format!("{e}: {item}")),
                    Ok(s) if s != should && s != kept => {
                        return fail(format!("accepting {item} gives:\n{s}\ninstead of:\n{should}\n"))
                    }
                    _ => {}
                }
                own.push(label);
            }
            own.sort();
            if let Some(diff) = model::difference(&expected, &own) {
                return fail(diff);
            }
            backend.sort();
            let mut all_backend = vec![];
            for (n, count) in r.w.backend_variables() {
                for _ in 0..count {
                    all_backend.push(n.clone());
                }
            }
            all_backend.sort();
            backend.dedup();
            all_backend.dedup();
            if let Some(diff) = model::difference(&all_backend, &backend) {
                return fail(format!("backend variables: {diff}"));
            }
            stats.class(if blank { "blank positions" } else { "identifier positions" }, 1);
        }
        stats.class(client, 1);
        stats.class("offered", offered);
        stats.class("hidden", hidden);
        stats.case(&r.w.describe(), offered > 0 && hidden > 0);
    }
    Ok(())
}
