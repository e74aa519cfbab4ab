//! C11, C23: built-in filters and tests, snippets of statements.

use super::world::{floor, offset_in, start, Run, WORLD};
use crate::ctx::{Ctx, Stats};
use crate::gen::{Class, Doc};
use crate::lsp::{violation, Res};
use crate::tape::Tape;
use crate::text::{self, pos};
use crate::world::{World, WorldOpts};
use crate::Prop;
use serde_json::{json, Value};

const DOMAIN: &[&str] = &[
    "well-formed templates of the generator (see DESIGN.md)",
    "harness/data/builtin.json is a snapshot of the names and the documentation of built-in filters and tests",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            quick: 2500,
            thorough: 60000,
            batch: 1,
            tape: 1400,
            threads: 8,
            shrink_s: 40,
            run: c11,
            rule: "A case is a workspace and up to 60 positions: names of filters and tests (hover), after pipes and `is` \
                (completion), variables and neutral tokens (nothing of it); non-trivial if a filter, a test, a completion and \
                a variable with the name of a filter or test occurred.",
            assumptions: DOMAIN,
        },
        Prop {
            id: "C23",
            quick: 4000,
            thorough: 60000,
            batch: 1,
            tape: 1200,
            threads: 8,
            shrink_s: 40,
            run: c23,
            rule: "A case is a workspace, one of two clients, up to 8 statements that are begun between two constructs of a \
                template and up to 20 positions in finished statements and neutral text; non-trivial if at least 2 begun \
                statements with a construct behind and before them and 2 neutral positions occurred.",
            assumptions: DOMAIN,
        },
    ]
}

/// Is this answer a list of built-in names? Checks the whole of it.
fn builtin_items(answer: &Value, list: &[(String, String)]) -> Result<(), String> {
    let Some(items) = answer.as_array() else {
        return Err(format!("no items but {answer}"));
    };
    let mut labels: Vec<&str> = items.iter().map(|i| i["label"].as_str().unwrap_or("?")).collect();
    labels.sort();
    let mut expected: Vec<&str> = list.iter().map(|f| f.0.as_str()).collect();
    expected.sort();
    if labels != expected {
        return Err(format!("expected {expected:?}, got {labels:?}"));
    }
    for (name, doc) in list {
        let item = items.iter().find(|i| i["label"] == *name).unwrap();
        if item["documentation"]["value"] != *doc {
            return Err(format!("documentation of {name}: {}", item["documentation"]));
        }
    }
    Ok(())
}

enum Expect {
    Hover(Option<String>),
    /// anything but a documentation
    NoDoc,
    Filters,
    Tests,
    /// no list of filters or tests
    NoList,
}

/// The document with a statement or expression that waits for a name, at a gap
fn unfinished(t: &mut Tape, d: &Doc, names: &[String]) -> (String, usize, bool) {
    let gap = if d.gaps.is_empty() { d.text.len() } else { *t.pick(&d.gaps) };
    let name = t.pick(names).clone();
    let value = match t.below(5) {
        0 => name,
        1 => format!("{name}.id"),
        2 => format!("{name}(1)"),
        3 => format!("{name}[0]"),
        _ => format!("({name})"),
    };
    let test = t.chance(50);
    let (before, after) = match (test, t.below(3)) {
        (false, 0) => (format!("{{{{ {value} | "), " }}".to_string()),
        (false, 1) => (format!("{{{{{value}|"), "}}".to_string()),
        (false, _) => (format!("{{{{ {value} | upper | "), " }}".to_string()),
        (true, 0) => (format!("{{% if {value} is "), " %}{% endif %}".to_string()),
        (true, 1) => (format!("{{% if {value} is not "), " %}{% endif %}".to_string()),
        (true, _) => (
            format!("{{% if 1 %}}{{% elif {value} is "),
            "  %}{% endif %}".to_string(),
        ),
    };
    let mut s = d.text.clone();
    s.insert_str(gap, &format!("{before}{after}"));
    (s, gap + before.len(), test)
}

/// Variables with names of filters and tests
fn homonyms(t: &mut Tape, w: &mut World) {
    for _ in 0..t.range(0, 2) {
        let name = *t.pick(&["upper", "length", "default", "defined", "string", "first", "escape", "eq", "mapping"]);
        w.names.push(name.to_string());
    }
}

fn c11(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    for tape in tapes {
        let mut t = Tape::new(tape);
        let Some(w) = World::generate_with(ctx, &mut t, WORLD, stats, homonyms) else { continue };
        let mut r = start(ctx, w, "test", false)?;
        r.server.ready()?;
        let doc_of = |list: &[(String, String)], name: &str| list.iter().find(|f| f.0 == name).map(|f| f.1.clone());
        let builtin = |name: &str| doc_of(&ctx.filters, name).or(doc_of(&ctx.tests, name)).is_some();
        let (mut filters, mut tests, mut lists, mut homonyms) = (0, 0, 0, 0);
        let mut asked = vec![];
        for _ in 0..60 {
            let index = t.below(r.w.files.len());
            let Some(d) = r.w.files[index].doc().cloned() else { continue };
            let uri = r.project.uri(&r.w.files[index].rel);
            let what = t.weighted(&[4, 4, 3, 3, 3, 2]);
            let (method, at, expect) = match what {
                0 => {
                    if d.filters.is_empty() {
                        continue;
                    }
                    let x = t.pick(&d.filters).clone();
                    filters += 1;
                    let at = offset_in(&mut t, x.span, false);
                    ("hover", at, Expect::Hover(doc_of(&ctx.filters, &x.name)))
                }
                1 => {
                    if d.tests.is_empty() {
                        continue;
                    }
                    let x = t.pick(&d.tests).clone();
                    tests += 1;
                    let at = offset_in(&mut t, x.span, false);
                    ("hover", at, Expect::Hover(doc_of(&ctx.tests, &x.name)))
                }
                2 => {
                    // after a pipe, up to the name of the filter
                    let v: Vec<_> = d.filters.iter().filter(|x| x.op.0 < x.op.1).collect();
                    if v.is_empty() {
                        continue;
                    }
                    let x = *t.pick(&v);
                    lists += 1;
                    ("completion", offset_in(&mut t, (x.op.0 + 1, x.op.1), true), Expect::Filters)
                }
                3 => {
                    if d.refs.is_empty() {
                        continue;
                    }
                    let x = t.pick(&d.refs).clone();
                    homonyms += builtin(&x.name) as u64;
                    ("hover", offset_in(&mut t, x.span, false), Expect::NoDoc)
                }
                4 => {
                    if d.neutral.is_empty() {
                        continue;
                    }
                    let x = t.pick(&d.neutral).clone();
                    if x.span.0 == x.span.1 || matches!(x.class, Class::Operator | Class::Keyword) {
                        continue;
                    }
                    let at = offset_in(&mut t, x.span, false);
                    ("hover", floor(&d, at), Expect::NoDoc)
                }
                _ => {
                    let v: Vec<_> = d
                        .neutral
                        .iter()
                        .filter(|x| matches!(x.class, Class::Text | Class::Comment | Class::Str | Class::BlockName))
                        .filter(|x| x.span.1 > x.span.0 + 1)
                        .collect();
                    if v.is_empty() {
                        continue;
                    }
                    let x = *t.pick(&v);
                    let at = offset_in(&mut t, (x.span.0 + 1, x.span.1), false);
                    ("completion", floor(&d, at), Expect::NoList)
                }
            };
            let p = pos(&d.text, at);
            let id = r.server.ask(method, &uri, p);
            asked.push((id, method, index, p, expect, None));
        }
        // the same in documents that are being written
        let mut story = r.w.describe();
        for _ in 0..t.range(0, 6) {
            let index = t.below(r.w.files.len());
            let Some(d) = r.w.files[index].doc().cloned() else { continue };
            let names = r.w.names.clone();
            let (text, at, test) = unfinished(&mut t, &d, &names);
            let uri = r.project.uri(&r.w.files[index].rel);
            r.server.open(&uri, &text);
            let p = pos(&text, at);
            let id = r.server.ask("completion", &uri, p);
            lists += 1;
            stats.class("unfinished statements", test as u64);
            stats.class("unfinished expressions", !test as u64);
            story += &format!("--- then at {}:{}\n{text}\n", p.line, p.ch);
            asked.push((
                id,
                "completion",
                index,
                p,
                if test { Expect::Tests } else { Expect::Filters },
                Some(text),
            ));
        }
        for (id, method, index, p, expect, text) in asked {
            let answer = r.server.answer(id)?;
            let hover = answer["contents"]["value"].as_str();
            let list = |l: &[(String, String)]| builtin_items(&answer, l).is_ok();
            let problem = match &expect {
                Expect::Hover(e) => {
                    (hover != e.as_deref()).then(|| format!("expected {e:?}, got {answer}"))
                }
                Expect::NoDoc => {
                    let all = ctx.filters.iter().chain(&ctx.tests);
                    let mut docs = all.filter(|f| hover == Some(f.1.as_str()));
                    docs.next().map(|f| format!("the documentation of {} is shown", f.0))
                }
                Expect::Filters => builtin_items(&answer, &ctx.filters).err(),
                Expect::Tests => builtin_items(&answer, &ctx.tests).err(),
                Expect::NoList => {
                    (list(&ctx.filters) || list(&ctx.tests)).then(|| "a list of filters or tests".to_string())
                }
            };
            if let Some(m) = problem {
                return violation(format!(
                    "{method} at {}:{} of {}: {m}\n{}",
                    p.line,
                    p.ch,
                    r.w.files[index].rel,
                    text.unwrap_or_else(|| r.w.describe())
                ));
            }
            stats.class("positions", 1);
        }
        stats.class("names of filters", filters);
        stats.class("names of tests", tests);
        stats.class("completions", lists);
        stats.class("variables with the name of a filter or test", homonyms);
        stats.case(&story, filters > 0 && tests > 0 && lists > 0 && homonyms > 0);
    }
    Ok(())
}

const SNIPPETS: [&str; 11] = [
    "extends", "for1", "for2", "from", "if1", "if2", "import", "include", "set1", "set2", "with",
];

fn is_snippet(i: &Value) -> bool {
    i["kind"] == 15
}

/// `${1:name}` is the name, `$1` an empty place
fn expand(snippet: &str) -> String {
    let mut out = String::new();
    let mut rest = snippet;
    while let Some(i) = rest.find('$') {
        out += &rest[..i];
        rest = &rest[i + 1..];
        if let Some(r) = rest.strip_prefix('{') {
            let end = r.find('}').unwrap_or(r.len());
            let place = &r[..end];
            out += place.split_once(':').map_or("x", |p| p.1);
            rest = r.get(end + 1..).unwrap_or("");
        } else {
            rest = rest.trim_start_matches(|c: char| c.is_ascii_digit());
            out.push('x');
        }
    }
    out + rest
}

/// The statements of this text are whole and closed
fn whole(text: &str, keyword: &str) -> Result<(), String> {
    let mut open: Vec<&str> = vec![];
    let mut rest = text;
    let mut first = true;
    while let Some(i) = rest.find("{%") {
        let body = &rest[i + 2..];
        let end = body.find("%}").ok_or("a statement isn't closed")?;
        let statement = body[..end].trim_matches(['-', '+', ' ', '\t']);
        if statement.contains("{%") {
            return Err("a statement isn't closed".into());
        }
        let word = statement.split_whitespace().next().unwrap_or("");
        if first && word != keyword {
            return Err(format!("{word} isn't {keyword}"));
        }
        first = false;
        match word {
            "for" | "with" | "if" | "macro" | "block" | "filter" | "autoescape" | "call" => open.push(word),
            "set" if !statement.contains('=') => open.push(word),
            "elif" | "else" | "set" | "include" | "import" | "from" | "extends" => {}
            _ => match word.strip_prefix("end") {
                Some(w) if open.last() == Some(&w) => {
                    open.pop();
                }
                _ => return Err(format!("unexpected {word:?}")),
            },
        }
        rest = &body[end + 2..];
    }
    match open.last() {
        Some(o) => Err(format!("no end of {o}")),
        None => Ok(()),
    }
}

fn check_snippets(ctx: &Ctx, r: &Run, answer: &Value, text: &str, at: usize, vscode: bool) -> Result<(), String> {
    let Some(items) = answer.as_array() else {
        return Err(format!("no items but {answer}"));
    };
    let mut labels: Vec<&str> = items.iter().map(|i| i["label"].as_str().unwrap_or("?")).collect();
    labels.sort();
    // additions to the list are fine
    if let Some(missing) = SNIPPETS.iter().find(|s| !labels.contains(s)) {
        return Err(format!("{missing} is missing in {labels:?}"));
    }
    let _ = r;
    for i in items {
        if !is_snippet(i) {
            return Err(format!("{i} is no snippet"));
        }
        if vscode {
            continue;
        }
        let e = &i["textEdit"];
        let range = if e["insert"].is_null() { &e["range"] } else { &e["insert"] };
        let begin = text::offset(
            text,
            text::Pos {
                line: range["start"]["line"].as_u64().unwrap_or(0) as usize,
                ch: range["start"]["character"].as_u64().unwrap_or(0) as usize,
            },
        );
        if begin != at || !e["newText"].as_str().is_some_and(|s| s.contains("%}")) {
            return Err(format!("{i} isn't inserted at the position"));
        }
        let label = i["label"].as_str().unwrap_or("?");
        if SNIPPETS.contains(&label) {
            let text = format!("{{%{}", expand(e["newText"].as_str().unwrap_or("")));
            whole(&text, label.trim_end_matches(|c: char| c.is_ascii_digit())).map_err(|e| format!("{i}: {e}"))?;
            if ctx.malformed(&text) {
                return Err(format!("{i} is malformed"));
            }
        }
    }
    Ok(())
}

fn c23(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    for tape in tapes {
        let mut t = Tape::new(tape);
        let vscode = t.chance(40);
        let client = if vscode { "Visual Studio Code" } else { "test" };
        let opts = WorldOpts {
            max_templates: 2,
            max_backend: 1,
            imports: t.chance(50),
            ..WORLD
        };
        let Some(w) = World::generate(ctx, &mut t, opts, stats) else { continue };
        let mut r = start(ctx, w, client, false)?;
        r.server.ready()?;
        let mut asked = vec![];
        let mut neutral = 0;
        for _ in 0..20 {
            let index = t.below(r.w.files.len());
            let Some(d) = r.w.files[index].doc().cloned() else { continue };
            let uri = r.project.uri(&r.w.files[index].rel);
            let spans: Vec<text::Span> = match t.below(3) {
                0 => d.stmts.iter().map(|s| (s.0 + 2, s.1)).collect(),
                1 => d.exprs.iter().map(|s| (s.0 + 2, s.1)).collect(),
                _ => d.neutral.iter().filter(|n| n.span.0 < n.span.1).map(|n| n.span).collect(),
            };
            if spans.is_empty() {
                continue;
            }
            let span = *t.pick(&spans);
            let at = offset_in(&mut t, span, false);
            let at = floor(&d, at);
            let p = pos(&d.text, at);
            let id = r.server.ask("completion", &uri, p);
            neutral += 1;
            asked.push((id, index, p, at, None));
        }
        let (mut begun, mut inside) = (0, 0);
        let mut story = r.w.describe();
        for _ in 0..t.range(0, 8) {
            let index = t.below(r.w.files.len());
            let Some(d) = r.w.files[index].doc().cloned() else { continue };
            let gap = match t.below(4) {
                0 => d.text.len(),
                _ if d.gaps.is_empty() => 0,
                _ => *t.pick(&d.gaps),
            };
            // text can't be the keyword of the statement
            let after = d.text[gap..].trim_start();
            let word = |end: &str| end.trim_start().starts_with(|c: char| c.is_alphanumeric() || c == '_');
            let begin = *t.pick(&["{% ", "{%- ", "{%  "]);
            let end = *t.pick(&["", "\n", " text", "\n<p>\n"]);
            if word(if end.trim().is_empty() { after } else { end }) && end != " text" {
                stats.discard();
                continue;
            }
            let mut text = d.text.clone();
            text.insert_str(gap, &format!("{begin}{end}"));
            let uri = r.project.uri(&r.w.files[index].rel);
            if t.chance(50) {
                r.server.open(&uri, &text);
            } else {
                // typed
                r.server.open(&uri, &d.text);
                let p = pos(&d.text, gap);
                let p = json!({"line": p.line, "character": p.ch});
                r.server.notify(
                    "textDocument/didChange",
                    json!({"textDocument": {"uri": uri, "version": 1},
                        "contentChanges": [{"range": {"start": p, "end": p}, "text": format!("{begin}{end}")}]}),
                );
            }
            let at = gap + begin.len();
            let p = pos(&text, at);
            let id = r.server.ask("completion", &uri, p);
            begun += 1;
            inside += (gap > 0 && gap < d.text.len()) as u64;
            story += &format!("--- then at {}:{}\n{text}\n", p.line, p.ch);
            asked.push((id, index, p, at, Some(text)));
            // it is finished again
            r.server.open(&uri, &d.text);
        }
        for (id, index, p, at, text) in asked {
            let answer = r.server.answer(id)?;
            let problem = match &text {
                Some(text) => check_snippets(ctx, &r, &answer, text, at, vscode).err(),
                None => answer
                    .as_array()
                    .is_some_and(|a| a.iter().any(is_snippet))
                    .then(|| "snippets are offered".to_string()),
            };
            if let Some(m) = problem {
                return violation(format!(
                    "completion at {}:{} of {}: {m}\n{}",
                    p.line,
                    p.ch,
                    r.w.files[index].rel,
                    text.unwrap_or_else(|| r.w.describe())
                ));
            }
            stats.class("positions", 1);
        }
        stats.class("begun statements", begun);
        stats.class("begun statements between constructs", inside);
        stats.class("other positions", neutral);
        stats.class(client, 1);
        stats.case(&story, inside > 1 && neutral > 1);
    }
    Ok(())
}
