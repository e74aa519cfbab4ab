//! C21: names of files and URIs.

use super::backend::expected_symbols;
use super::world::{floor, offset_in, Run, WORLD};
use crate::ctx::{Ctx, Stats};
use crate::gen::Kind;
use crate::lsp::{violation, Res};
use crate::model;
use crate::tape::Tape;
use crate::text::{decode_uri, json_range, pos, range_key};
use crate::world::{Content, World, WorldOpts, ODD};
use crate::Prop;
use serde_json::Value;
use std::collections::HashMap;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C21",
        quick: 2500,
        thorough: 60000,
        batch: 1,
        tape: 1600,
        threads: 8,
        shrink_s: 40,
        run: c21,
        rule: "A case is a workspace whose directories and files have unusual names, and 1-5 steps of a client with its own encoding \
            of URIs (open, change, save, requests, other files that refer to the file); non-trivial if a path has characters that \
            are encoded in URIs, the client encodes other characters than the server, and a definition or diagnostic of another \
            file depended on it.",
        assumptions: &[
            "well-formed templates and backend files of the generators (see DESIGN.md), no symbolic links",
            "names of files are UTF-8, those of templates without quotes, backslashes and line ends",
        ],
    }]
}

/// How a client writes URIs: characters that it doesn't encode, digits of encoded ones
#[derive(Clone)]
struct Client {
    plain: &'static str,
    lower: bool,
}

impl Client {
    fn uri(&self, path: &str) -> String {
        let mut out = String::from("file://");
        for b in path.bytes() {
            if b.is_ascii_alphanumeric() || b"/-_.".contains(&b) || self.plain.as_bytes().contains(&b) {
                out.push(b as char);
            } else if self.lower {
                out.push_str(&format!("%{b:02x}"));
            } else {
                out.push_str(&format!("%{b:02X}"));
            }
        }
        out
    }
}

/// The encoders of clients
const PLAIN: [&str; 4] = ["~!$&'()*+,;=:@", "~", "~!'()*", "~!$&'()*+,;=:@[]^|`{}"];

fn place(uri: &str, range: &Value) -> String {
    let path = decode_uri(uri).unwrap_or_else(|| format!("not a file URI: {uri}"));
    format!("{path} {}", json_range(range))
}

fn places(answer: &Value) -> Vec<String> {
    let one = |v: &Value| place(v["uri"].as_str().unwrap_or("?"), &v["range"]);
    let mut v: Vec<String> = match answer {
        Value::Array(a) => a.iter().map(one).collect(),
        Value::Null => vec![],
        v => vec![one(v)],
    };
    v.sort();
    v
}

fn check(r: &mut Run, t: &mut Tape, client: &Client, stats: &mut Stats) -> Res<u64> {
    let root = r.project.dir.to_str().unwrap().to_string();
    let mut led = 0;
    // the last diagnostics of each path
    let mut last: HashMap<String, Value> = HashMap::new();
    for (uri, d) in &r.server.published {
        match decode_uri(uri) {
            Some(p) => last.insert(p, d.clone()),
            None => return violation(format!("{uri} isn't the URI of a file")),
        };
    }
    for i in 0..r.w.files.len() {
        let f = &r.w.files[i];
        let path = format!("{root}/{}", f.rel);
        let fail = |m: String| violation(format!("{path}: {m}\n{}", r.w.describe()));
        if let Content::Template(d) = &f.content {
            let Some(diags) = last.get(&path) else {
                return fail(format!("no diagnostics, but of {:?}", last.keys()));
            };
            let others = r.w.others(i);
            let expected = model::variables(d, &others, false);
            led += expected.iter().filter(|e| e.contains(model::ELSEWHERE)).count() as u64;
            if let Some(diff) = model::difference(&expected, &model::published(&d.text, diags, false)) {
                return fail(diff);
            }
            let expected = model::missing(d, |n| r.w.has(n));
            if let Some(diff) = model::difference(&expected, &model::published(&d.text, diags, true)) {
                return fail(diff);
            }
        }
    }
    let mut asked = vec![];
    for i in 0..r.w.files.len() {
        let uri = client.uri(&format!("{root}/{}", r.w.files[i].rel));
        let expected = match &r.w.files[i].content {
            Content::Template(d) => model::symbols(d),
            Content::Backend(b) => expected_symbols(b),
        };
        let id = r.server.send_request(
            "textDocument/documentSymbol",
            serde_json::json!({"textDocument": {"uri": uri}}),
        );
        asked.push((id, i, "symbols".to_string(), expected));
        let Some(d) = r.w.files[i].doc().cloned() else { continue };
        for _ in 0..5 {
            if t.chance(50) && !d.templates.is_empty() {
                let s = t.pick(&d.templates).clone();
                let at = floor(&d, offset_in(t, s.span, true));
                let expected = if !r.w.has(&s.name) {
                    vec![]
                } else {
                    vec![format!("{root}/templates/{} 0:0-0:0", s.name)]
                };
                let id = r.server.ask("definition", &uri, pos(&d.text, at));
                asked.push((id, i, format!("definition of {:?}", s.name), expected));
                let id = r.server.ask("completion", &uri, pos(&d.text, s.span.0 + 1));
                let mut all: Vec<String> = r.w.pool.iter().filter(|n| r.w.has(n)).cloned().collect();
                all.sort();
                asked.push((id, i, "completion".to_string(), all));
            } else if !d.refs.is_empty() {
                let x = t.pick(&d.refs).clone();
                let at = offset_in(t, x.span, true);
                let mut expected = vec![];
                match d.resolve(&x.name, at) {
                    Some(def) => {
                        expected.push(format!("{root}/{} {}", r.w.files[i].rel, range_key(&d.text, def.span)));
                    }
                    None => {
                        for (j, f) in r.w.files.iter().enumerate() {
                            for (n, span) in f.exports() {
                                if j != i && n == x.name {
                                    led += 1;
                                    expected.push(format!("{root}/{} {}", f.rel, range_key(f.text(), span)));
                                }
                            }
                        }
                    }
                }
                expected.sort();
                let id = r.server.ask("definition", &uri, pos(&d.text, at));
                asked.push((id, i, format!("definition of {}", x.name), expected));
            }
        }
    }
    for (id, i, what, expected) in asked {
        let answer = r.server.answer(id)?;
        let actual = match what.as_str() {
            "symbols" => model::answered_symbols(&answer),
            "completion" => {
                let items = answer.as_array().map(|a| a.as_slice()).unwrap_or_default();
                let mut v: Vec<String> = items.iter().map(|i| i["label"].as_str().unwrap_or("?").into()).collect();
                v.sort();
                v
            }
            _ => places(&answer),
        };
        if let Some(diff) = model::difference(&expected, &actual) {
            return violation(format!("{what} in {root}/{}: {diff}\n{}", r.w.files[i].rel, r.w.describe()));
        }
        stats.class(if what.starts_with("def") { "definitions" } else { &what }, 1);
    }
    Ok(led)
}

fn c21(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    for tape in tapes {
        let mut t = Tape::new(tape);
        let dir = if t.chance(40) { *t.pick(&ODD) } else { "" };
        let client = Client {
            plain: PLAIN[t.below(4)],
            lower: t.chance(30),
        };
        let steps = t.range(1, 5);
        let opts = WorldOpts {
            max_templates: 3,
            size: 12,
            odd: true,
            ..WORLD
        };
        let Some(w) = World::generate(ctx, &mut t, opts, stats) else { continue };
        let project = ctx.project_in(dir)?;
        w.write(&project)?;
        let o = project.options(w.lang);
        let server = ctx.server(&project.dir, Some(o), "test")?;
        let mut r = Run { w, project, server };
        r.server.ready()?;
        let root = r.project.dir.to_str().unwrap().to_string();
        let mut story = format!("in {dir:?}\n{}", r.w.describe());
        let (mut own, mut encoded) = (false, false);
        for f in &r.w.files {
            let path = format!("{root}/{}", f.rel);
            own |= client.uri(&path) != r.project.uri(&f.rel);
            encoded |= client.uri(&path).contains('%');
        }
        let mut led = check(&mut r, &mut t, &client, stats)?;
        for _ in 0..steps {
            let i = t.below(r.w.files.len());
            let uri = client.uri(&format!("{root}/{}", r.w.files[i].rel));
            let content = match &r.w.files[i].content {
                Content::Template(_) => match r.w.template(ctx, &mut t, 8, stats) {
                    Some(d) => Content::Template(d),
                    None => continue,
                },
                Content::Backend(_) => Content::Backend(r.w.backend(&mut t)),
            };
            let before = r.w.files[i].text().to_string();
            r.w.files[i].content = content;
            let text = r.w.files[i].text().to_string();
            story += &format!("--- then {uri}\n{text}\n");
            match t.below(3) {
                0 => r.server.open(&uri, &text),
                1 => {
                    r.server.open(&uri, &before);
                    r.server.change_all(&uri, &text);
                    r.server.save(&uri);
                }
                _ => {
                    r.server.open(&uri, "");
                    r.server.change_all(&uri, &text);
                    r.server.save(&uri);
                    r.server.close(&uri);
                    // the client opens it again
                    r.server.open(&uri, &text);
                }
            }
            for f in &r.w.files {
                r.server.save(&client.uri(&format!("{root}/{}", f.rel)));
            }
            r.server.barrier()?;
            led += check(&mut r, &mut t, &client, stats)?;
        }
        stats.class("steps", steps as u64);
        stats.flag("client with other URIs", own);
        stats.flag("encoded characters", encoded);
        stats.class("definitions in other files", led);
        let blocks = r.w.files.iter().filter_map(|f| f.doc()).flat_map(|d| &d.defs);
        stats.class("blocks", blocks.filter(|d| d.kind == Kind::Block).count() as u64);
        stats.case(&story, own && encoded && led > 0);
    }
    Ok(())
}
