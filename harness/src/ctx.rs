//! What a case needs: binaries, scratch directories, servers, counters.

use crate::lsp::{Fail, Res, Server, StartOptions};
use serde_json::Value;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};

pub struct Ctx {
    pub bin: PathBuf,
    pub addon: PathBuf,
    pub dir: PathBuf,
    n: Cell<usize>,
    pub filters: Vec<(String, String)>,
    pub tests: Vec<(String, String)>,
    pub filter_names: Vec<String>,
    /// without names that are keywords of statements
    pub test_names: Vec<String>,
    parser: RefCell<tree_sitter::Parser>,
    pub transcript: RefCell<Vec<Value>>,
    pub node: RefCell<Option<crate::node::Node>>,
}

/// Scratch project with directories of templates and of the backend
pub struct Project {
    /// removed in the end
    root: PathBuf,
    pub dir: PathBuf,
    pub templates: PathBuf,
    pub src: PathBuf,
}

impl Drop for Project {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
}

impl Project {
    pub fn uri(&self, rel: &str) -> String {
        crate::text::encode_path(self.dir.join(rel).to_str().unwrap())
    }
    pub fn write(&self, rel: &str, text: &str) -> Res<()> {
        let path = self.dir.join(rel);
        assert!(path.starts_with(&self.dir));
        if let Some(p) = path.parent() {
            std::fs::create_dir_all(p).map_err(|e| Fail::Infra(format!("{p:?}: {e}")))?;
        }
        std::fs::write(&path, text).map_err(|e| Fail::Infra(format!("{path:?}: {e}")))
    }
    pub fn remove(&self, rel: &str) {
        let _ = std::fs::remove_file(self.dir.join(rel));
    }
    /// Spelling of a directory of the project in the configuration
    pub fn spell(&self, dir: &str, spelling: usize) -> Res<String> {
        Ok(match spelling {
            0 => format!("./{dir}"),
            1 => dir.to_string(),
            2 => format!("./{dir}/"),
            3 => self.dir.join(dir).to_str().unwrap().to_string(),
            4 => {
                std::fs::create_dir_all(self.dir.join("other")).map_err(|e| Fail::Infra(format!("other: {e}")))?;
                format!("other/../{dir}")
            }
            _ => {
                let link = format!("link-to-{}", dir.replace('/', "-"));
                if !self.dir.join(&link).exists() {
                    std::os::unix::fs::symlink(self.dir.join(dir), self.dir.join(&link))
                        .map_err(|e| Fail::Infra(format!("{link}: {e}")))?;
                }
                link
            }
        })
    }
    pub fn options(&self, lang: &str) -> Value {
        serde_json::json!({"templates": "./templates", "backend": ["./src"], "lang": lang})
    }
}

impl Ctx {
    pub fn new(dir: PathBuf, repo: &Path) -> Ctx {
        let data: Value = serde_json::from_str(include_str!("../data/builtin.json")).unwrap();
        let list = |k: &str| -> Vec<(String, String)> {
            data[k]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| (x[0].as_str().unwrap().to_string(), x[1].as_str().unwrap().to_string()))
                .collect()
        };
        let filters = list("filters");
        let tests = list("tests");
        let mut parser = tree_sitter::Parser::new();
        parser.set_language(&tree_sitter_jinja2::LANGUAGE.into()).unwrap();
        std::fs::create_dir_all(&dir).unwrap();
        Ctx {
            bin: repo.join("target/debug/jinja-lsp"),
            addon: repo.join("target/debug/libjinja_lsp_nodejs.so"),
            dir,
            n: Cell::new(0),
            filter_names: filters.iter().map(|f| f.0.clone()).filter(|f| f != "filter").collect(),
            test_names: tests
                .iter()
                .map(|f| f.0.clone())
                .filter(|f| f != "filter" && f != "in")
                .collect(),
            filters,
            tests,
            parser: RefCell::new(parser),
            transcript: RefCell::new(vec![]),
            node: RefCell::new(None),
        }
    }

    fn next(&self) -> usize {
        self.n.set(self.n.get() + 1);
        self.n.get()
    }

    pub fn project(&self) -> Res<Project> {
        self.project_in("")
    }

    /// Project in a directory with this name
    pub fn project_in(&self, name: &str) -> Res<Project> {
        let root = self.dir.join(format!("p{}", self.next()));
        let dir = if name.is_empty() { root.clone() } else { root.join(name) };
        let templates = dir.join("templates");
        let src = dir.join("src");
        for d in [&templates, &src] {
            std::fs::create_dir_all(d).map_err(|e| Fail::Infra(format!("{d:?}: {e}")))?;
        }
        Ok(Project { root, dir, templates, src })
    }

    pub fn server(&self, cwd: &Path, init: Option<Value>, client: &str) -> Res<Server> {
        let stderr = self.dir.join(format!("stderr{}", self.next()));
        Server::start(StartOptions {
            bin: &self.bin,
            cwd,
            stderr,
            init,
            client,
        })
    }

    /// Does the template have syntax errors?
    pub fn malformed(&self, text: &str) -> bool {
        let tree = self.parser.borrow_mut().parse(text, None).unwrap();
        tree.root_node().has_error()
    }
}

#[derive(Default)]
pub struct Stats {
    pub recording: bool,
    pub evaluations: u64,
    pub discarded: u64,
    pub classes: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn discard(&mut self) {
        if self.recording {
            self.discarded += 1;
        }
    }

    pub fn class(&mut self, name: &str, n: u64) {
        if self.recording && n > 0 {
            *self.classes.entry(name.to_string()).or_default() += n;
        }
    }

    pub fn flag(&mut self, name: &str, yes: bool) {
        self.class(name, yes as u64);
    }

    /// One evaluated case; `text` identifies it
    pub fn case(&mut self, text: &str, nontrivial: bool) {
        if !self.recording {
            return;
        }
        self.evaluations += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            text.hash(&mut h);
            if self.distinct.insert(h.finish()) && self.samples.len() < 3 && self.distinct.len() % 7 == 1 {
                self.samples.push(text.chars().take(1500).collect());
            }
        }
    }

    pub fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.discarded += o.discarded;
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        self.distinct.extend(o.distinct);
        self.samples.extend(o.samples);
    }
}
