//! C04, C07: one template at a time, many templates per server.

use crate::back::{self, BackOpts};
use crate::ctx::{Ctx, Project, Stats};
use crate::gen::{self, Doc, Gen, Opts};
use crate::lsp::{violation, Res, Server};
use crate::model;
use crate::tape::Tape;
use crate::text::Span;
use crate::Prop;
use std::collections::HashSet;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            quick: 2400,
            thorough: 36000,
            batch: 24,
            tape: 420,
            threads: 8,
            shrink_s: 40,
            run: c04,
            rule: "A case is one template generated from the grammar of statements and expressions (nesting up to 6, \
                shadowing names from a pool of 1-6), opened, changed or saved in the server; it is non-trivial if it has a \
                scope, at least 2 definitions, and both a resolved and an undefined reference.",
            assumptions: &["templates without syntax errors for the tree-sitter grammar; import/from names, call parameters, \
                contents of raw blocks and keyword arguments in macro defaults are not generated"],
        },
        Prop {
            id: "C07",
            quick: 2400,
            thorough: 36000,
            batch: 24,
            tape: 420,
            threads: 8,
            shrink_s: 40,
            run: c07,
            rule: "A case is one generated template or backend file whose document symbols are compared with the definitions \
                of the generator; it is non-trivial if it has at least 3 definitions of at least 2 kinds.",
            assumptions: &["templates without syntax errors for the tree-sitter grammar"],
        },
    ]
}

pub struct Local {
    pub project: Project,
    pub server: Server,
    pub uri: String,
}

pub fn local(ctx: &Ctx, client: &str) -> Res<Local> {
    let project = ctx.project()?;
    project.write("templates/base.html", "")?;
    let server = ctx.server(&project.dir, Some(project.options("rust")), client)?;
    let uri = project.uri("templates/doc.jinja");
    Ok(Local { project, server, uri })
}

pub fn options(t: &mut Tape, templates: bool) -> Opts {
    let unicode = t.chance(20);
    Opts {
        names: gen::names(t),
        templates: if templates && t.chance(40) {
            vec!["base.html".into(), "missing.html".into()]
        } else {
            vec![]
        },
        imports: false,
        unicode,
        crlf: t.chance(15),
        blanks: t.chance(25),
        size: t.range(3, 30),
    }
}

/// Next well-formed document of the tape, None if it isn't well-formed
pub fn document(ctx: &Ctx, t: &mut Tape, opts: Opts, stats: &mut Stats) -> Option<Doc> {
    let d = Gen::doc(t, opts, &ctx.filter_names, &ctx.test_names);
    if ctx.malformed(&d.text) {
        stats.discard();
        return None;
    }
    Some(d)
}

fn overlaps(a: Span, b: Span) -> bool {
    a.0 < b.1 && b.0 < a.1
}

pub fn classify(d: &Doc, stats: &mut Stats) {
    stats.class("definitions", d.defs.len() as u64);
    stats.class("references", d.refs.len() as u64);
    stats.class("filters", d.filters.len() as u64);
    stats.class("tests", d.tests.len() as u64);
    stats.class("scopes", d.scopes as u64);
    stats.flag("nesting >= 3", d.max_depth >= 4);
    stats.flag("non-ASCII", !d.text.is_ascii());
    stats.flag("CRLF", d.text.contains("\r\n"));
    for def in &d.defs {
        stats.class(def.kind.detail(), 1);
        if d.defs.iter().any(|o| o.name == def.name && o.span.0 < def.span.0 && def.span.0 < o.end) {
            stats.class("shadowing definitions", 1);
        }
    }
    debug_assert!(d.refs.iter().all(|r| d.refs.iter().filter(|o| overlaps(o.span, r.span)).count() == 1));
}

fn c04(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    let mut l = local(ctx, "test")?;
    l.server.ready()?;
    for tape in tapes {
        let mut t = Tape::new(tape);
        let how = t.below(3);
        let opts = options(&mut t, true);
        let Some(d) = document(ctx, &mut t, opts, stats) else { continue };
        match how {
            0 | 1 => l.server.open(&l.uri, &d.text),
            _ => {
                l.server.open(&l.uri, "{{ old }}");
                l.server.change_all(&l.uri, &d.text);
                l.server.save(&l.uri);
            }
        }
        l.server.barrier()?;
        let Some(diags) = l.server.diagnostics(&l.uri) else {
            return violation(format!("no diagnostics were published for:\n{}", d.text));
        };
        let actual = model::published(&d.text, diags, false);
        let expected = model::variables(&d, &HashSet::new(), false);
        if let Some(diff) = model::difference(&expected, &actual) {
            return violation(format!("{diff}\ntemplate:\n{}", d.text));
        }
        classify(&d, stats);
        let undefined = expected.len();
        stats.class("undefined references", undefined as u64);
        let out_of_scope = d
            .refs
            .iter()
            .filter(|r| d.defines(&r.name) && d.resolve(&r.name, r.span.0).is_none())
            .count();
        stats.class("references to definitions out of reach", out_of_scope as u64);
        stats.case(
            &d.text,
            d.scopes > 0 && d.defs.len() >= 2 && undefined > 0 && undefined < d.refs.len(),
        );
    }
    Ok(())
}

fn c07(ctx: &Ctx, tapes: &[Vec<u32>], stats: &mut Stats) -> Res<()> {
    let mut l = local(ctx, "test")?;
    l.server.ready()?;
    for tape in tapes {
        let mut t = Tape::new(tape);
        let changed = t.chance(30);
        if t.chance(20) {
            backend_symbols(&mut l, &mut t, stats)?;
            continue;
        }
        let opts = options(&mut t, true);
        let Some(d) = document(ctx, &mut t, opts, stats) else { continue };
        if changed {
            l.server.open(&l.uri, "{% set old = 1 %}");
            l.server.change_all(&l.uri, &d.text);
            l.server.save(&l.uri);
        } else {
            l.server.open(&l.uri, &d.text);
        }
        let answer = l.server.symbols(&l.uri)?;
        let actual = model::answered_symbols(&answer);
        let expected = model::symbols(&d);
        if let Some(diff) = model::difference(&expected, &actual) {
            return violation(format!("{diff}\ntemplate:\n{}", d.text));
        }
        classify(&d, stats);
        let kinds: HashSet<_> = d.defs.iter().map(|d| d.kind).collect();
        stats.case(&d.text, d.defs.len() >= 3 && kinds.len() >= 2);
    }
    Ok(())
}

/// Symbols of a backend file are its variables and templates
fn backend_symbols(l: &mut Local, t: &mut Tape, stats: &mut Stats) -> Res<()> {
    let mut names = gen::names(t);
    names.retain(|n| back::is_identifier(n));
    names.push("ctx".into());
    let o = BackOpts {
        names: &names,
        templates: &["base.html".into(), "missing.html".into()],
        unicode: t.chance(25),
        crlf: t.chance(15),
        size: 4,
    };
    let b = back::generate(t, &o, "rust");
    let uri = l.project.uri("src/main.rs");
    l.server.open(&uri, &b.text);
    let answer = l.server.symbols(&uri)?;
    let actual = model::answered_symbols(&answer);
    let expected = super::backend::expected_symbols(&b);
    if let Some(diff) = model::difference(&expected, &actual) {
        return violation(format!("{diff}\nbackend file:\n{}", b.text));
    }
    stats.class("backend files", 1);
    stats.case(&b.text, expected.len() > 2);
    Ok(())
}
