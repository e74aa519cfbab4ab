//! Generated workspaces: several templates and backend files that share a pool of names.

use crate::back::{self, Back, BackOpts};
use crate::ctx::{Ctx, Project, Stats};
use crate::gen::{self, Doc, Gen, Opts};
use crate::lsp::Res;
use crate::tape::Tape;
use std::collections::{HashMap, HashSet};

#[derive(Clone)]
pub enum Content {
    Template(Doc),
    Backend(Back),
}

#[derive(Clone)]
pub struct File {
    /// path below the project
    pub rel: String,
    pub content: Content,
}

impl File {
    pub fn text(&self) -> &str {
        match &self.content {
            Content::Template(d) => &d.text,
            Content::Backend(b) => &b.text,
        }
    }
    pub fn doc(&self) -> Option<&Doc> {
        match &self.content {
            Content::Template(d) => Some(d),
            _ => None,
        }
    }
    /// variables that other files see: name, range
    pub fn exports(&self) -> Vec<(String, crate::text::Span)> {
        match &self.content {
            Content::Template(d) => d
                .defs
                .iter()
                .filter(|d| d.kind != gen::Kind::Block)
                .map(|d| (d.name.clone(), d.span))
                .collect(),
            Content::Backend(b) => b.vars.clone(),
        }
    }
}

pub struct World {
    pub files: Vec<File>,
    pub lang: &'static str,
    pub names: Vec<String>,
    pub pool: Vec<String>,
    /// chance of templates in documents
    pub imports: bool,
    /// directory of the templates
    pub root: String,
    /// how directories are written in the configuration
    pub spelling: usize,
    /// files without model: path below the project, text
    pub extra: Vec<(String, String)>,
}

#[derive(Clone, Copy)]
pub struct WorldOpts {
    pub max_templates: usize,
    pub max_backend: usize,
    pub size: usize,
    pub templates: bool,
    /// more statements with templates, also import and from
    pub imports: bool,
    /// names of files with unusual characters
    pub odd: bool,
}

/// Characters of names of files, most of them are encoded in URIs
pub const ODD: [&str; 29] = [
    "a b", "\u{fc}", "100%", "x#y", "q?z", "plus+", "[id]", "\u{65e5}\u{672c}", "a&b", "semi;", "a=b", "~", "at@x", "a,b",
    "%41", "(1)", "\u{1f600}", "{x}", "^", "|", "`", "$", "!", "*", "a:b", "<x>", "e\u{301}", "%", "..x",
];

/// Names that can't be written in template strings
pub const QUOTED: [&str; 6] = ["it's", "a\"b", "tab\tx", "line\nx", "a\\b", "\u{7f}"];

pub fn ext(lang: &str) -> &'static str {
    if lang == "python" {
        "py"
    } else {
        "rs"
    }
}

impl World {
    pub fn generate(ctx: &Ctx, t: &mut Tape, o: WorldOpts, stats: &mut Stats) -> Option<World> {
        World::generate_with(ctx, t, o, stats, |_, _| {})
    }

    /// `more` can change the names of the pool
    pub fn generate_with(
        ctx: &Ctx,
        t: &mut Tape,
        o: WorldOpts,
        stats: &mut Stats,
        more: fn(&mut Tape, &mut World),
    ) -> Option<World> {
        let lang = if t.chance(35) { "python" } else { "rust" };
        let names = gen::names(t);
        let mut n = t.range(1, o.max_templates);
        let mut m = t.range(0, o.max_backend);
        let mut size = o.size;
        if o.max_templates > 1 && t.chance(2) {
            // many small files
            n = t.range(8, 20);
            m = t.range(0, 8);
            size = 4;
            if t.chance(20) {
                // and lots of files
                n = t.range(110, 140);
                size = 2;
            }
        }
        let mut pool = vec![];
        let mut rels = vec![];
        for i in 0..n {
            let mut dir = ["", "sub/", "sub/deep/", "a/b/c/d/e/f/g/h/i/j/k/l/", ".hidden/"][t.weighted(&[12, 6, 2, 1, 1])];
            if t.chance(6) {
                dir = *t.pick(&["target/", "node_modules/x/", "venv/", "__pycache__/", ".git/", "static/", "Sub/", "templates/"]);
            }
            let start = if t.chance(8) { *t.pick(&["_t", ".t", "T", "src"]) } else { "t" };
            let e = ["html", "jinja", "j2"][t.below(3)];
            let odd = if o.odd && t.chance(70) { *t.pick(&ODD) } else { "" };
            let sub = if o.odd && t.chance(30) { format!("{}/", t.pick(&ODD)) } else { String::new() };
            // same names in other directories, with other extensions, or several dots
            let base = if t.chance(25) { t.below(i + 1) } else { i };
            let dots = if t.chance(8) { *t.pick(&[".v1", ".html", ".tar.gz", ".py"]) } else { "" };
            let mut name = format!("{dir}{sub}{start}{base}{odd}{dots}.{e}");
            // indexed but not found by that name
            let root = if t.chance(6) { "src" } else { "templates" };
            if rels.contains(&format!("{root}/{name}")) {
                name = format!("{dir}{sub}t{i}{odd}{dots}.{e}");
            }
            if rels.contains(&format!("{root}/{name}")) {
                name = format!("unique{i}/{name}");
            }
            pool.push(name.clone());
            rels.push(format!("{root}/{name}"));
        }
        let mut w = World {
            files: vec![],
            lang,
            names,
            pool,
            imports: o.imports,
            root: "templates".into(),
            extra: vec![],
            spelling: if t.chance(30) { t.range(1, 5) } else { 0 },
        };
        if o.templates {
            w.pool.push("missing.html".into());
            if o.imports {
                for s in ["", "sub", "sub/none.jinja", "gone.html"] {
                    w.pool.push(s.into());
                }
                let inside = format!("{}/x.html", w.pool[0]);
                w.pool.push(inside);
            }
        } else {
            w.pool.clear();
        }
        more(t, &mut w);
        for rel in rels {
            let doc = w.template(ctx, t, size, stats)?;
            w.files.push(File {
                rel,
                content: Content::Template(doc),
            });
        }
        for i in 0..m {
            let b = w.backend(t);
            w.files.push(File {
                rel: if t.chance(12) {
                    format!("templates/{}b{i}.{}", t.pick(&["", "sub/"]), ext(lang))
                } else if o.odd {
                    let odd = if t.chance(30) { t.pick(&QUOTED) } else { t.pick(&ODD) };
                    format!("src/{}/b{i}{odd}.{}", t.pick(&ODD), ext(lang))
                } else {
                    format!("src/b{i}.{}", ext(lang))
                },
                content: Content::Backend(b),
            });
        }
        Some(w)
    }

    /// Most names of the pool, so that files share some of them but not all
    fn some_names(&self, t: &mut Tape) -> Vec<String> {
        let mut v: Vec<String> = self.names.iter().filter(|_| !t.chance(30)).cloned().collect();
        if v.is_empty() {
            v.push(self.names[0].clone());
        }
        v
    }

    pub fn template(&self, ctx: &Ctx, t: &mut Tape, size: usize, stats: &mut Stats) -> Option<Doc> {
        if t.chance(3) {
            let text = t.pick(&["", "\n", " \t", "\r\n\r\n", "<p>"]).to_string();
            return Some(Doc {
                gaps: vec![0, text.len()],
                text,
                ..Doc::default()
            });
        }
        let opts = Opts {
            names: self.some_names(t),
            templates: if t.chance(if self.imports { 90 } else { 40 }) { self.pool.clone() } else { vec![] },
            imports: self.imports,
            unicode: t.chance(20),
            crlf: t.chance(15),
            blanks: t.chance(30),
            size: t.range(2, size),
        };
        let d = Gen::doc(t, opts, &ctx.filter_names, &ctx.test_names);
        if ctx.malformed(&d.text) {
            stats.discard();
            return None;
        }
        Some(d)
    }

    pub fn backend(&self, t: &mut Tape) -> Back {
        if t.chance(3) {
            return Back::default();
        }
        let mut names = self.some_names(t);
        names.retain(|n| back::is_identifier(n));
        names.push("ctx".into());
        let o = BackOpts {
            names: &names,
            templates: &self.pool,
            unicode: t.chance(25),
            crlf: t.chance(15),
            size: 3,
        };
        back::generate(t, &o, self.lang)
    }

    pub fn write(&self, project: &Project) -> Res<()> {
        for f in &self.files {
            project.write(&f.rel, f.text())?;
        }
        for (rel, text) in &self.extra {
            project.write(rel, text)?;
        }
        Ok(())
    }

    /// Names that files other than this one define
    pub fn others(&self, index: usize) -> HashSet<String> {
        let mut set = HashSet::new();
        for (i, f) in self.files.iter().enumerate() {
            if i != index {
                set.extend(f.exports().into_iter().map(|e| e.0));
            }
        }
        set
    }

    pub fn backend_variables(&self) -> HashMap<String, usize> {
        let mut map = HashMap::new();
        for f in &self.files {
            if let Content::Backend(b) = &f.content {
                for v in &b.vars {
                    *map.entry(v.0.clone()).or_default() += 1;
                }
            }
        }
        map
    }

    /// Is there a template of exactly this name?
    pub fn has(&self, name: &str) -> bool {
        let rel = format!("{}/{name}", self.root);
        self.files.iter().any(|f| f.rel == rel)
    }

    pub fn describe(&self) -> String {
        let mut s = String::new();
        for f in &self.files {
            s += &format!("--- {}\n{}\n", f.rel, f.text());
        }
        for (rel, text) in self.extra.iter().take(5) {
            s += &format!("--- {rel}\n{text}\n");
        }
        if self.extra.len() > 5 {
            s += &format!("--- and {} more files\n", self.extra.len() - 5);
        }
        s
    }
}
