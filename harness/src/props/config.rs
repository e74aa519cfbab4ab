//! C15: directories and sources of the configuration.

use super::backend::expected_symbols;
use super::world::{compare_variables, Run, WORLD};
use crate::ctx::{Ctx, Stats};
use crate::lsp::{violation, Res};
use crate::model;
use crate::tape::Tape;
use crate::text::pos;
use crate::world::{ext, Content, File, World, WorldOpts};
use crate::Prop;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::collections::HashMap;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C15",
        quick: 4000,
        thorough: 60000,
        batch: 1,
        tape: 1400,
        threads: 8,
        shrink_s: 40,
        run: c15,
        rule: "A case is a layout of directories (nested, overlapping, with files of other types and files outside of them) and a \
            source of the configuration (initialization options or one of three files, with unusable sources before and other \
            values after it, or no usable configuration); non-trivial if the configuration has another source than the \
            initialization options or the directories overlap, and at least 2 files are indexed.",
        assumptions: &["well-formed templates and backend files of the generators (see DESIGN.md), no symbolic links"],
    }]
}

const CONFIGS: [&str; 3] = ["pyproject.toml", "Cargo.toml", "jinja-lsp.toml"];

struct Config {
    templates: String,
    backend: Vec<String>,
    lang: String,
    hide: Option<bool>,
}

impl Config {
    fn json(&self) -> Value {
        let mut v = json!({"templates": self.templates, "backend": self.backend, "lang": self.lang});
        if let Some(h) = self.hide {
            v["hide_undefined"] = json!(h);
        }
        v
    }
    fn toml(&self) -> String {
        let mut s = format!(
            "[jinja-lsp]\ntemplates = \"{}\"\nbackend = {}\nlang = \"{}\"\n",
            self.templates,
            json!(self.backend),
            self.lang
        );
        if let Some(h) = self.hide {
            s += &format!("hide_undefined = {h}\n");
        }
        s
    }
}

/// A file that isn't a usable configuration
fn unusable(t: &mut Tape, config: &Config) -> Option<String> {
    match t.below(6) {
        0 => None,
        1 => Some(String::new()),
        2 => Some("[project]\nname = \"x\"\n[tool.jinja-lsp]\ntemplates = \"other\"\n".into()),
        3 => Some("[jinja-lsp\ntemplates =".into()),
        4 => Some("[jinja-lsp]\ntemplates = \"./other\"\nbackend = []\n".into()),
        _ => Some(config.toml().replace("backend = [", "backend = [1, ")),
    }
}

fn c15(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    for tape in tapes {
        let mut t = Tape::new(tape);
        let source = t.weighted(&[3, 3, 3, 3, 1, 1, 1]);
        let opts = WorldOpts {
            max_templates: 4,
            max_backend: 3,
            size: 10,
            ..WORLD
        };
        let Some(mut w) = World::generate(ctx, &mut t, opts, stats) else { continue };
        let project = ctx.project()?;
        let templates = *t.pick(&["templates", "web/views", "app", "src"]);
        let mut backend: Vec<&str> = vec![*t.pick(&["src", "lib/web", "app", "app/back"])];
        let mut overlap = backend[0].starts_with(templates);
        while t.chance(40) && backend.len() < 4 {
            let b = *t.pick(&["src/sub", "src", "lib", "app"]);
            overlap |= b.starts_with(templates) || backend.iter().any(|o| b.starts_with(o) || o.starts_with(b));
            backend.push(b);
        }
        for d in backend.iter().chain([&templates, &"other"]) {
            std::fs::create_dir_all(project.dir.join(d)).unwrap();
        }
        w.root = templates.to_string();
        for f in &mut w.files {
            if let Some(rest) = f.rel.strip_prefix("templates/") {
                f.rel = format!("{templates}/{rest}");
            } else {
                let name = f.rel.trim_start_matches("src/").to_string();
                let deep = *t.pick(&["", "x/", "x/y.d/z/", "1/2/3/4/5/6/7/8/9/10/11/12/"]);
                // also among the templates
                let dir = if t.chance(20) { templates } else { *t.pick(&backend) };
                f.rel = format!("{dir}/{deep}{name}");
            }
        }
        // moved files can have the same path
        let mut paths = HashSet::new();
        w.files.retain(|f| paths.insert(f.rel.clone()));
        // templates below directories of the backend
        if t.chance(30) {
            if let Some(d) = w.template(ctx, &mut t, 6, stats) {
                let rel = format!("{}/extra/page.j2", t.pick(&backend));
                w.files.push(File {
                    rel,
                    content: Content::Template(d),
                });
            }
        }
        w.write(&project)?;
        // files that don't belong to it define everything
        let all: String = w.names.iter().map(|n| format!("{{% set {n} = nobody %}}")).collect();
        let other: String = w.names.iter().map(|n| format!("fn f() {{ jinja.add_global(\"{n}\", 1); }}\n")).collect();
        let python: String = w.names.iter().map(|n| format!("render({n}=1)\n")).collect();
        let e = ext(w.lang);
        let code = if e == "py" { &python } else { &other };
        for (rel, text) in [
            ("outside.html".to_string(), &all),
            (format!("other/outside.{e}"), code),
            ("other/outside.jinja".into(), &all),
            (format!("{templates}/notes.txt"), &all),
            (format!("{templates}/page.htm"), &all),
            (format!("{templates}/page.html.bak"), &all),
            (format!("{templates}/html"), &all),
            (format!("{templates}/page.HTML"), &all),
            (format!("{templates}/page.jinja2"), &all),
            (format!("{templates}/page.html/page.md"), &all),
            (format!("{}/code.{}", backend[0], e.to_uppercase()), code),
            (format!("{}/code.{e}~", backend[0]), code),
            (format!("{}/code.js", backend[0]), code),
        ] {
            if t.chance(40) {
                project.write(&rel, text)?;
            }
        }
        let broken = t.chance(20);
        if broken {
            project.write(&format!("{templates}/broken.html"), "{{ nobody {% \n")?;
        }
        // files that can't be read
        for rel in [format!("{templates}/latin.html"), format!("{}/latin.{e}", backend[0])] {
            if t.chance(15) {
                let mut bytes = if rel.ends_with(e) { code } else { &all }.clone().into_bytes();
                bytes.extend([b'\n', 0xe9, b'\n']);
                std::fs::write(project.dir.join(rel), bytes).unwrap();
            }
        }
        if t.chance(15) {
            for dir in [templates, backend[0]] {
                let _ = std::os::unix::fs::symlink("nobody@nowhere.1", project.dir.join(format!("{dir}/.#page.html")));
            }
        }
        let config = Config {
            templates: project.spell(templates, t.below(6))?,
            backend: backend.iter().map(|b| project.spell(b, t.below(6))).collect::<Res<_>>()?,
            lang: w.lang.to_string(),
            hide: [None, Some(false), Some(true)][t.weighted(&[4, 1, 1])],
        };
        let hide = config.hide == Some(true);
        let decoy = Config {
            templates: "./other".into(),
            backend: vec!["./other".into()],
            lang: if w.lang == "rust" { "python" } else { "rust" }.into(),
            hide: Some(!hide),
        };
        let mut init = None;
        let mut usable = true;
        let mut reported: Vec<&str> = vec![];
        if source > 0 && source < 5 {
            init = match t.below(4) {
                0 => None,
                1 => Some(json!({})),
                2 => Some(json!({"templates": "./other", "backend": ["./other"]})),
                _ => Some(json!({"templates": 1, "backend": ["./other"], "lang": "rust"})),
            };
        }
        match source {
            0 => {
                init = Some(config.json());
                for c in CONFIGS {
                    if t.chance(40) {
                        project.write(c, &decoy.toml())?;
                    }
                }
            }
            1..=3 => {
                for (i, c) in CONFIGS.iter().enumerate() {
                    if i + 1 < source {
                        if let Some(s) = unusable(&mut t, &decoy) {
                            project.write(c, &s)?;
                        }
                    } else if i + 1 == source {
                        let before = *t.pick(&["", "[package]\nname = \"x\"\n\n", "# text\n"]);
                        let after = *t.pick(&["", "\n[tool.black]\nline-length = 88\n"]);
                        project.write(c, &format!("{before}{}{after}", config.toml()))?;
                    } else if t.chance(50) {
                        project.write(c, &decoy.toml())?;
                    }
                }
            }
            4 => {
                for c in CONFIGS {
                    if let Some(s) = unusable(&mut t, &decoy) {
                        project.write(c, &s)?;
                    }
                }
                usable = false;
                reported = vec!["Config doesn't exist."];
            }
            5 => {
                let mut c = config.json();
                c["lang"] = json!("go");
                init = Some(c);
                usable = false;
                reported = vec!["Backend language not supported"];
            }
            _ => {
                let mut c = config.json();
                if t.chance(50) {
                    c["templates"] = json!("./nowhere");
                } else {
                    c["backend"] = json!([config.backend[0], "./nowhere"]);
                }
                init = Some(c);
                usable = false;
                reported = vec!["nowhere"];
            }
        }
        let from = ["options", CONFIGS[0], CONFIGS[1], CONFIGS[2], "nothing", "unknown language", "missing directory"][source];
        let story = format!(
            "configuration from {from}: {} {init:?}\n{}",
            config.json(),
            w.describe()
        );
        let server = ctx.server(&project.dir, init, "test")?;
        let mut r = Run { w, project, server };
        r.server.ready()?;
        stats.class(from, 1);
        stats.flag("overlapping directories", overlap);
        for s in &reported {
            if !r.server.logs.iter().any(|l| l.contains(s)) {
                return violation(format!("{s:?} isn't in the log {:?}\n{story}", r.server.logs));
            }
        }
        if !usable {
            if let Some(p) = r.server.published.first() {
                return violation(format!("{} is indexed without configuration\n{story}", p.0));
            }
            // documents still work
            let uri = r.project.uri("opened.html");
            r.server.open(&uri, "{% set x = 1 %}");
            let answer = r.server.symbols(&uri)?;
            if answer.as_array().map(|a| a.len()) != Some(1) {
                return violation(format!("symbols without configuration: {answer}\n{story}"));
            }
            stats.case(&story, true);
            continue;
        }
        let bad = ["Config doesn't exist.", "Template directory not found", "Backend language not supported"];
        if let Some(l) = r.server.logs.iter().find(|l| bad.contains(&l.as_str())) {
            return violation(format!("{l:?} is reported\n{story}"));
        }
        // diagnostics of each template, once, and of nothing else
        let mut counts: HashMap<String, usize> = HashMap::new();
        for (uri, _) in &r.server.published {
            *counts.entry(uri.clone()).or_default() += 1;
        }
        counts.remove(&r.project.uri(&format!("{templates}/broken.html")));
        let mut templates_of_dir = vec![];
        for f in &r.w.files {
            if f.doc().is_none() {
                continue;
            }
            if let Some(name) = f.rel.strip_prefix(&format!("{templates}/")) {
                templates_of_dir.push(name.to_string());
            }
            match counts.remove(&r.project.uri(&f.rel)) {
                Some(1) => {}
                n => {
                    let n = n.unwrap_or(0);
                    return violation(format!("diagnostics of {} are published {n} times\n{story}", f.rel));
                }
            }
        }
        if let Some(uri) = counts.keys().next() {
            return violation(format!("diagnostics of {uri} are published\n{story}"));
        }
        for i in 0..r.w.files.len() {
            compare_variables(&r, i, hide).map_err(|e| match e {
                crate::lsp::Fail::Violation(m) => crate::lsp::Fail::Violation(format!("{m}\n{story}")),
                e => e,
            })?;
            let uri = r.project.uri(&r.w.files[i].rel);
            let answer = r.server.symbols(&uri)?;
            let actual = model::answered_symbols(&answer);
            let expected = match &r.w.files[i].content {
                Content::Template(d) => model::symbols(d),
                Content::Backend(b) => expected_symbols(b),
            };
            if let Some(diff) = model::difference(&expected, &actual) {
                return violation(format!("symbols of {}: {diff}\n{story}", r.w.files[i].rel));
            }
        }
        // one more template sees each file once
        let uri = r.project.uri(&format!("{templates}/opened.html"));
        let text: String = r.w.names.iter().map(|n| format!("{{{{ {n} }}}}\n")).collect();
        let text = format!("{text}{{{{  }}}}{{% include \"\" %}}");
        r.server.open(&uri, &text);
        let mut asked = vec![];
        for (line, name) in r.w.names.clone().iter().enumerate() {
            let p = crate::text::Pos { line, ch: 3 };
            asked.push((name.clone(), r.server.ask("definition", &uri, p)));
        }
        for (name, id) in asked {
            let mut expected = vec![];
            for f in &r.w.files {
                for (n, span) in f.exports() {
                    if n == name {
                        let key = crate::text::range_key(f.text(), span);
                        expected.push(super::world::location(&r.project.uri(&f.rel), &key));
                    }
                }
            }
            expected.sort();
            let answer = r.server.answer(id)?;
            if let Some(diff) = model::difference(&expected, &super::world::locations(&answer)) {
                return violation(format!("definition of {name} in a new template: {diff}\n{story}"));
            }
        }
        let at = text.rfind("\"\"").unwrap() + 1;
        let answer = r.server.at("completion", &uri, pos(&text, at))?;
        let items = answer.as_array().map(|a| a.as_slice()).unwrap_or_default();
        let mut labels: Vec<String> = items.iter().map(|i| i["label"].as_str().unwrap_or("?").into()).collect();
        labels.sort();
        templates_of_dir.push("opened.html".into());
        if broken {
            templates_of_dir.push("broken.html".into());
        }
        templates_of_dir.sort();
        if let Some(diff) = model::difference(&templates_of_dir, &labels) {
            return violation(format!("templates in completion: {diff}\n{story}"));
        }
        stats.flag("hide_undefined", hide);
        stats.class(r.w.lang, 1);
        stats.case(&story, r.w.files.len() > 1 && (source > 0 || overlap));
    }
    Ok(())
}
