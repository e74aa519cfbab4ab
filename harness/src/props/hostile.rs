//! C02: arbitrary texts, edits, positions and URIs.

use super::world::{Run, WORLD};
use crate::ctx::{Ctx, Stats};
use crate::edits;
use crate::lsp::{violation, Res};
use crate::model;
use crate::tape::Tape;
use crate::world::{World, WorldOpts};
use crate::Prop;
use serde_json::{json, Value};
use std::collections::HashSet;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C02",
        quick: 1700,
        thorough: 60000,
        batch: 1,
        tape: 2600,
        threads: 8,
        shrink_s: 60,
        run: c02,
        rule: "A case is 5-60 messages with arbitrary texts (mutated templates and backend files, sequences of tokens, arbitrary \
            characters, long repetitions), edit ranges, positions, URIs, commands and settings, and then a well-formed document; non-trivial \
            if malformed text was opened or typed, some range or position was outside of its text and some URI was unknown.",
        assumptions: &["messages are well-formed LSP", "texts of up to 60 KB", "40 s of CPU time without an answer count as none"],
    }]
}

const TOKENS: &[&str] = &[
    "{{", "}}", "{%", "%}", "{#", "#}", "{{-", "-}}", "{%-", "-%}", "{%+", "+%}", "if", "elif", "else", "endif", "for", "in",
    "endfor", "set", "endset", "block", "endblock", "macro", "endmacro", "call", "endcall", "filter", "endfilter", "raw", "endraw",
    "with", "endwith", "autoescape", "endautoescape", "include", "extends", "import", "from", "as", "do", "trans", "endtrans",
    "pluralize", "ignore missing", "with context", "is", "not", "and", "or", "none", "true", "false", "loop", "super()", "(", ")",
    "[", "]", "{", "}", ",", ":", "=", "==", "~", "|", "||", ".", "..", "+", "-", "*", "**", "/", "//", "%", "!", "!=", "<", ">",
    "\"", "'", "\"a.html\"", "'b'", "\"\"", "\\", "\"\\\"", "1", "1.5", "0x1", "a", "b", "name", "x.y", "\u{fc}", "\u{1f600}",
    "\n", "\r\n", "\r", "\t", " ", "  ", "#", "##", "fn f() {", "jinja.add_global(\"x\", 1);", "context!(a, b => c)",
    "render_jinja(\"a.html\"", "def f(a):\n", "    render(\"t.html\", a=b)", "get_template(", "\"\"\"", "r#\"", "$x", "@", ";",
    "upper", "defined",
];

const CHARS: [char; 40] = [
    '\0', '\u{1}', '\u{7f}', '\u{85}', '\u{a0}', '\u{ad}', '\u{300}', '\u{feff}', '\u{200b}', '\u{200d}', '\u{2028}', '\u{2029}',
    '\u{fffd}', '\u{ffff}', '\u{10ffff}', '\u{1f468}', '\u{1f3fd}', '\u{e000}', '\u{d7ff}', '\u{3000}', '\u{ff5b}', '\u{ff5d}', '{',
    '}', '%', '#', '"', '\'', '\\', '\n', '\r', '\t', ' ', 'a', '0', '_', '|', '.', '\u{c}', '\u{b}',
];

fn text(ctx: &Ctx, t: &mut Tape, w: &World, stats: &mut Stats) -> String {
    match t.weighted(&[4, 3, 2, 1, 2, 2]) {
        0 | 4 => {
            // something well-formed and edits
            let base = if t.chance(70) {
                w.template(ctx, t, 10, stats).map(|d| d.text).unwrap_or_default()
            } else {
                w.backend(t).text
            };
            let steps = t.range(1, 6);
            edits::history(t, &base, steps).0
        }
        1 => {
            let n = t.range(0, 40);
            let sep = *t.pick(&["", " ", " ", "\n"]);
            (0..n).map(|_| *t.pick(TOKENS)).collect::<Vec<_>>().join(sep)
        }
        2 => {
            let n = t.range(0, 60);
            (0..n)
                .map(|_| {
                    if t.chance(50) {
                        *t.pick(&CHARS)
                    } else {
                        char::from_u32(t.below(0x11_0000) as u32).unwrap_or('?')
                    }
                })
                .collect()
        }
        3 => {
            // long or deeply nested
            let k = t.range(1, 4);
            let unit: String = (0..k).map(|_| *t.pick(TOKENS)).collect::<Vec<_>>().join(" ");
            let unit = format!("{unit}{}", t.pick(&["", " ", "\n"]));
            let most = *t.pick(&[50, 400, 3000]);
            let n = t.range(2, most).min(60_000 / unit.len().max(1));
            unit.repeat(n)
        }
        _ => {
            // a statement that is cut
            let base = w.template(ctx, t, 6, stats).map(|d| d.text).unwrap_or_default();
            let at = edits::boundary(&base, t.below(base.len() + 1));
            if t.chance(50) {
                base[..at].to_string()
            } else {
                base[at..].to_string()
            }
        }
    }
}

/// Position that may be outside of the text
fn position(t: &mut Tape, text: &str, outside: &mut bool) -> Value {
    if t.chance(65) {
        let at = edits::boundary(text, t.below(text.len() + 1));
        let p = crate::text::pos(text, at);
        return json!({"line": p.line, "character": p.ch});
    }
    *outside = true;
    let lines = text.matches('\n').count();
    let line = match t.below(5) {
        0 => t.below(lines + 1),
        1 => lines + 1,
        2 => lines + t.below(50),
        3 => u32::MAX as usize,
        _ => 0,
    };
    let ch = match t.below(4) {
        0 => t.below(200),
        1 => u32::MAX as usize,
        2 => text.len(),
        _ => i32::MAX as usize,
    };
    json!({"line": line, "character": ch})
}

fn range(t: &mut Tape, text: &str, outside: &mut bool) -> Value {
    json!({"start": position(t, text, outside), "end": position(t, text, outside)})
}

fn c02(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    for tape in tapes {
        let mut t = Tape::new(tape);
        let client = if t.chance(20) { "Visual Studio Code" } else { "test" };
        let opts = WorldOpts {
            max_templates: 1,
            max_backend: 1,
            size: 10,
            imports: true,
            ..WORLD
        };
        let Some(w) = World::generate(ctx, &mut t, opts, stats) else { continue };
        let project = ctx.project()?;
        w.write(&project)?;
        let mut story = w.describe();
        // files on disk
        for i in 0..t.weighted(&[3, 2, 1]) {
            let ext = *t.pick(&["html", "jinja", "j2", "rs", "py"]);
            let s = text(ctx, &mut t, &w, stats);
            let rel = format!("{}/disk{i}.{ext}", t.pick(&["templates", "src"]));
            story += &format!("file {rel}: {s:?}\n");
            project.write(&rel, &s)?;
        }
        if t.chance(15) {
            story += "directory templates/dir.html, invalid UTF-8 in templates/bytes.html, src/bytes.rs\n";
            let _ = std::fs::create_dir_all(project.dir.join("templates/dir.html"));
            for f in ["templates/bytes.html", "src/bytes.rs", "src/bytes.py"] {
                let _ = std::fs::write(project.dir.join(f), b"{{ a }}\xff\xfe\x00\n{% set b = 1 %}");
            }
        }
        let config = project.options(w.lang);
        let server = ctx.server(&project.dir, Some(config.clone()), client)?;
        let mut r = Run { w, project, server };
        let root = r.project.dir.to_str().unwrap().to_string();
        let mut uris: Vec<String> = vec![];
        for name in [
            "templates/a.html", "templates/b.jinja", "templates/c.j2", "src/d.rs", "src/e.py", "templates/f.txt", "templates/g",
            "templates/.html", "templates/disk0.html", "templates/A.HTML", "templates/%ff.html", "src/x y.rs",
        ] {
            uris.push(format!("{}/{name}", crate::text::encode_path(&root)));
        }
        for u in [
            "untitled:Untitled-1", "untitled:x.html", "http://example.com/a.html", "file:///", "file:///%FF.html", "file://host/a.html",
            "inmemory://model/1.jinja", "file:///nowhere/%2e%2e/a.rs", "data:text/html,a.html", "git:/a.html?%7B%22path%22%3A1%7D", "file:///a.html#x",
            "file:///a.py?x",
        ] {
            uris.push(u.into());
        }
        let mut texts: Vec<String> = vec![String::new(); uris.len()];
        let mut open: Vec<bool> = vec![false; uris.len()];
        let (mut outside, mut unknown, mut malformed) = (false, 0, false);
        let mut ids = vec![];
        for _ in 0..t.range(5, 60) {
            let i = if t.chance(80) { t.weighted(&[6, 3, 2, 4, 4]) } else { t.below(uris.len()) };
            let uri = uris[i].clone();
            let td = json!({"uri": uri});
            match t.weighted(&[5, 5, 12, 1, 1, 1, 1, 1]) {
                0 => {
                    let s = text(ctx, &mut t, &r.w, stats);
                    malformed |= ctx.malformed(&s);
                    story += &format!("open {uri}: {s:?}\n");
                    r.server.open(&uri, &s);
                    texts[i] = s;
                    open[i] = true;
                }
                1 => {
                    let mut changes = vec![];
                    for _ in 0..t.weighted(&[1, 6, 2, 1]) {
                        let s = match t.below(3) {
                            0 => String::new(),
                            1 => t.pick(&edits::JUNK).to_string(),
                            _ => text(ctx, &mut t, &r.w, stats),
                        };
                        let mut c = json!({"text": s});
                        if t.chance(85) {
                            c["range"] = range(&mut t, &texts[i], &mut outside);
                            if t.chance(20) {
                                c["rangeLength"] = json!(t.below(1000));
                            }
                        } else {
                            malformed |= ctx.malformed(&s);
                            texts[i] = s;
                        }
                        changes.push(c);
                    }
                    unknown += !open[i] as usize;
                    story += &format!("change {uri}: {}\n", Value::from(changes.clone()));
                    r.server.notify(
                        "textDocument/didChange",
                        json!({"textDocument": {"uri": uri, "version": 3}, "contentChanges": changes}),
                    );
                }
                2 => {
                    for _ in 0..t.range(1, 6) {
                        unknown += !open[i] as usize;
                        let method = *t.pick(&["hover", "completion", "definition", "codeAction", "documentSymbol"]);
                        let mut p = json!({"textDocument": td});
                        match method {
                            "documentSymbol" => {}
                            "codeAction" => {
                                p["range"] = range(&mut t, &texts[i], &mut outside);
                                p["context"] = json!({"diagnostics": []});
                            }
                            _ => p["position"] = position(&mut t, &texts[i], &mut outside),
                        }
                        if method == "completion" {
                            match t.below(4) {
                                0 => {}
                                1 => p["context"] = json!({"triggerKind": 3}),
                                2 => p["context"] = json!({"triggerKind": 2, "triggerCharacter": t.pick(&[" ", "{", "%", "\"", "-", "x"])}),
                                _ => p["context"] = json!({"triggerKind": 1}),
                            }
                        }
                        let id = r.server.send_request(&format!("textDocument/{method}"), p.clone());
                        story += &format!("{method} {p}\n");
                        ids.push((id, format!("{method} {p}")));
                    }
                }
                3 => {
                    story += &format!("save {uri}\n");
                    let mut p = json!({"textDocument": td});
                    if t.chance(30) {
                        p["text"] = json!(texts[i]);
                    }
                    r.server.notify("textDocument/didSave", p);
                }
                4 => {
                    story += &format!("close {uri}\n");
                    r.server.close(&uri);
                    open[i] = false;
                }
                5 => {
                    let command = *t.pick(&["reset_variables", "warn", "", "nothing"]);
                    let args = t.pick(&[json!([]), json!([null]), json!([{"a": [1]}]), json!(["x", 1])]).clone();
                    story += &format!("{command} {args}\n");
                    let id = r.server.send_request("workspace/executeCommand", json!({"command": command, "arguments": args}));
                    ids.push((id, command.into()));
                }
                6 => {
                    let mut c = config.clone();
                    let settings = match t.below(9) {
                        0 => json!(null),
                        1 => json!("x"),
                        2 => json!([1, 2]),
                        3 => json!({"jinja-lsp": config}),
                        4 => {
                            c["templates"] = json!("");
                            c
                        }
                        5 => {
                            c["templates"] = json!("./nowhere");
                            c
                        }
                        6 => {
                            c["lang"] = json!(t.pick(&["go", "", "python", "rust", "Rust"]));
                            c
                        }
                        7 => {
                            c["backend"] = json!([]);
                            c["hide_undefined"] = json!(true);
                            c
                        }
                        _ => {
                            // a file
                            c["templates"] = json!("./templates/t0.html");
                            c
                        }
                    };
                    story += &format!("settings {settings}\n");
                    r.server.notify("workspace/didChangeConfiguration", json!({"settings": settings}));
                }
                _ => {
                    story += &format!("willSave {uri}\n");
                    r.server.notify("textDocument/willSave", json!({"textDocument": td, "reason": 1}));
                }
            }
        }
        let fail = |m: String| violation(format!("{m}\n{story}"));
        let wrap = |e: crate::lsp::Fail| match e {
            crate::lsp::Fail::Violation(m) => crate::lsp::Fail::Violation(format!("{m}\n{story}")),
            e => e,
        };
        let count = ids.len();
        for (id, what) in ids {
            r.server.response(id, &what).map_err(wrap)?;
        }
        // another document still works
        let names = r.w.names.iter().map(|n| format!("{n}_good")).collect();
        let w = World {
            files: vec![],
            lang: r.w.lang,
            names,
            pool: vec!["missing.html".into()],
            imports: false,
            root: "templates".into(),
            spelling: 0,
            extra: vec![],
        };
        let Some(d) = w.template(ctx, &mut t, 10, stats) else { continue };
        r.server.notify("workspace/didChangeConfiguration", json!({"settings": config}));
        let uri = r.project.uri("templates/good.html");
        r.server.open(&uri, &d.text);
        r.server.barrier().map_err(wrap)?;
        let symbols = r.server.symbols(&uri).map_err(wrap)?;
        if let Some(diff) = model::difference(&model::symbols(&d), &model::answered_symbols(&symbols)) {
            return fail(format!("symbols of a good document: {diff}\n{}", d.text));
        }
        let Some(diags) = r.server.diagnostics(&uri) else {
            return fail(format!("no diagnostics of a good document\n{}", d.text));
        };
        let expected = model::variables(&d, &HashSet::new(), false);
        if let Some(diff) = model::difference(&expected, &model::published(&d.text, diags, false)) {
            return fail(format!("diagnostics of a good document: {diff}\n{}", d.text));
        }
        let expected = model::missing(&d, |_| false);
        if let Some(diff) = model::difference(&expected, &model::published(&d.text, diags, true)) {
            return fail(format!("diagnostics of a good document: {diff}\n{}", d.text));
        }
        let p = r.server.panics();
        if let Some(p) = p {
            return fail(format!("a part of the server panicked: {p}"));
        }
        stats.class("requests", count as u64);
        stats.class("of unknown documents", unknown as u64);
        stats.flag("malformed text", malformed);
        stats.flag("outside of the text", outside);
        stats.case(&story, malformed && outside && unknown > 0);
    }
    Ok(())
}
