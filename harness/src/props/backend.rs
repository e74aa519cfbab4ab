//! C14: variables of backend files.

use super::world::{compare_variables, definition, hover_text, locations, offset_in, start, Run, WORLD};
use crate::ctx::{Ctx, Stats};
use crate::lsp::{violation, Res};
use crate::model;
use crate::tape::Tape;
use crate::text::{pos, range_key};
use crate::world::{Content, World, WorldOpts};
use crate::Prop;
use std::collections::HashSet;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C14",
        quick: 3500,
        thorough: 60000,
        batch: 1,
        tape: 1600,
        threads: 8,
        shrink_s: 40,
        run: c14,
        rule: "A case is a workspace with up to 4 Rust or Python files, checked after indexing and after each of 0-4 \
            steps that change backend files: symbols of all backend files, diagnostics, completion, definitions and hovers in \
            templates; non-trivial if at least 3 variables were found and a template's reference led to one of them.",
        assumptions: &["Rust and Python files of the generator (see DESIGN.md)"],
    }]
}

/// Symbols of a backend file
pub fn expected_symbols(b: &crate::back::Back) -> Vec<String> {
    let mut v: Vec<String> = b
        .vars
        .iter()
        .map(|v| (v, 13))
        .chain(b.templates.iter().map(|v| (v, 1)))
        .map(|((name, span), kind)| {
            let r = range_key(&b.text, *span);
            format!("{name} {r} {r} kind {kind}")
        })
        .collect();
    v.sort();
    v
}

fn check(r: &mut Run, t: &mut Tape, stats: &mut Stats) -> Res<(usize, usize)> {
    let (mut variables, mut led) = (0, 0);
    // symbols of the backend files
    for i in 0..r.w.files.len() {
        let Content::Backend(b) = r.w.files[i].content.clone() else { continue };
        let uri = r.project.uri(&r.w.files[i].rel);
        let answer = r.server.symbols(&uri)?;
        let actual = model::answered_symbols(&answer);
        let expected = expected_symbols(&b);
        if let Some(diff) = model::difference(&expected, &actual) {
            return violation(format!("symbols of {}: {diff}\n{}", r.w.files[i].rel, r.w.describe()));
        }
        variables += b.vars.len();
        // nothing is in the other strings and names
        let mut asked = vec![];
        for _ in 0..4 {
            if b.noise.is_empty() {
                break;
            }
            let at = t.pick(&b.noise).0 + 1;
            for method in ["definition", "hover", "completion"] {
                let p = pos(&b.text, at);
                asked.push((method, p, r.server.ask(method, &uri, p)));
            }
        }
        for (method, p, id) in asked {
            let answer = r.server.answer(id)?;
            if !(answer.is_null() || answer.as_array().is_some_and(|a| a.is_empty())) {
                return violation(format!(
                    "{method} at {}:{} of {}: {answer}\n{}",
                    p.line,
                    p.ch,
                    r.w.files[i].rel,
                    r.w.describe()
                ));
            }
        }
    }
    let names: HashSet<String> = r.w.backend_variables().into_keys().collect();
    let mut asked = vec![];
    for i in 0..r.w.files.len() {
        compare_variables(r, i, false)?;
        let Some(d) = r.w.files[i].doc().cloned() else { continue };
        let uri = r.project.uri(&r.w.files[i].rel);
        for _ in 0..6 {
            if let (true, Some(b)) = (t.chance(40), d.blanks.first()) {
                let p = pos(&d.text, b.0);
                asked.push((r.server.ask("completion", &uri, p), "completion", i, p, vec![], None));
                continue;
            }
            let refs: Vec<_> = d.refs.iter().filter(|x| names.contains(&x.name)).collect();
            if refs.is_empty() {
                continue;
            }
            let x = *t.pick(&refs);
            let at = offset_in(t, x.span, false);
            let p = pos(&d.text, at);
            let (to, own) = definition(r, i, &x.name, at);
            led += !own as usize;
            asked.push((r.server.ask("definition", &uri, p), "definition", i, p, to, None));
            if d.resolve(&x.name, x.span.0).is_none() {
                let e = Some("Backend variable".to_string());
                asked.push((r.server.ask("hover", &uri, p), "hover", i, p, vec![], e));
            }
        }
    }
    for (id, method, i, p, to, hover) in asked {
        let answer = r.server.answer(id)?;
        let problem = match method {
            "definition" => model::difference(&to, &locations(&answer)),
            "hover" => (hover_text(&answer) != hover).then(|| format!("expected {hover:?}, got {answer}")),
            _ => {
                let items = answer.as_array().map(|a| a.as_slice()).unwrap_or_default();
                let own = items.iter().filter(|i| i["detail"] == "Backend variable");
                let mut v: Vec<String> = own.map(|i| i["label"].as_str().unwrap_or("?").to_string()).collect();
                v.sort();
                v.dedup();
                let mut e: Vec<String> = names.iter().cloned().collect();
                e.sort();
                model::difference(&e, &v)
            }
        };
        if let Some(m) = problem {
            return violation(format!(
                "{method} at {}:{} of {}: {m}\n{}",
                p.line,
                p.ch,
                r.w.files[i].rel,
                r.w.describe()
            ));
        }
        stats.class(method, 1);
    }
    Ok((variables, led))
}

fn c14(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    for tape in tapes {
        let mut t = Tape::new(tape);
        let steps = t.range(0, 4);
        let opts = WorldOpts {
            max_templates: 2,
            max_backend: 4,
            size: 14,
            ..WORLD
        };
        let Some(w) = World::generate(ctx, &mut t, opts, stats) else { continue };
        let mut r = start(ctx, w, "test", false)?;
        r.server.ready()?;
        let mut story = r.w.describe();
        let (mut variables, mut led) = check(&mut r, &mut t, stats)?;
        for _ in 0..steps {
            let backend: Vec<usize> = (0..r.w.files.len()).filter(|i| r.w.files[*i].doc().is_none()).collect();
            if backend.is_empty() {
                break;
            }
            let i = *t.pick(&backend);
            let b = r.w.backend(&mut t);
            let uri = r.project.uri(&r.w.files[i].rel);
            if t.chance(50) {
                r.server.open(&uri, &b.text);
            } else {
                r.server.open(&uri, r.w.files[i].text());
                r.server.change_all(&uri, &b.text);
                r.server.save(&uri);
            }
            story += &format!("--- then {}\n{}\n", r.w.files[i].rel, b.text);
            r.w.files[i].content = Content::Backend(b);
            for i in 0..r.w.files.len() {
                let uri = r.project.uri(&r.w.files[i].rel);
                r.server.save(&uri);
            }
            r.server.barrier()?;
            let n = check(&mut r, &mut t, stats)?;
            variables += n.0;
            led += n.1;
        }
        stats.class("variables", variables as u64);
        stats.class(r.w.lang, 1);
        stats.case(&story, variables > 2 && led > 0);
    }
    Ok(())
}
