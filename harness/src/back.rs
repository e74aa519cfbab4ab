//! Generator of backend files (Rust, Python) with the model of their variables and templates.

use crate::tape::Tape;
use crate::text::Span;

#[derive(Clone, Debug, Default)]
pub struct Back {
    pub text: String,
    /// name and range
    pub vars: Vec<(String, Span)>,
    /// name and range with quotes
    pub templates: Vec<(String, Span)>,
    /// strings and identifiers that are nothing
    pub noise: Vec<Span>,
}

pub struct BackOpts<'a> {
    pub names: &'a [String],
    pub templates: &'a [String],
    pub unicode: bool,
    pub crlf: bool,
    pub size: usize,
}

/// Keywords and types of Rust aren't identifiers for its grammar
pub fn is_identifier(name: &str) -> bool {
    const OTHERS: [&str; 18] = [
        "default", "union", "bool", "char", "str", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64",
        "i128", "isize", "f64",
    ];
    !OTHERS.contains(&name) && name != "f32"
}

struct G<'a, 't> {
    t: &'a mut Tape<'t>,
    o: &'a BackOpts<'a>,
    b: Back,
    wide: bool,
}

pub fn generate(t: &mut Tape, o: &BackOpts, lang: &str) -> Back {
    let mut g = G {
        t,
        o,
        b: Back::default(),
        wide: false,
    };
    // far away lines and columns
    g.wide = g.t.chance(4);
    if g.t.chance(4) {
        let n = g.t.range(200, 600);
        g.put(&"\n".repeat(n));
    }
    if lang == "python" {
        g.python();
    } else {
        g.rust();
    }
    if g.t.chance(1) {
        g.bulk(lang == "python");
    }
    if o.crlf {
        // offsets move by the number of lines before
        let text = std::mem::take(&mut g.b.text);
        let moved = |s: Span| {
            let f = |x: usize| x + text[..x].matches('\n').count();
            (f(s.0), f(s.1))
        };
        for v in g.b.vars.iter_mut().chain(g.b.templates.iter_mut()) {
            v.1 = moved(v.1);
        }
        for v in &mut g.b.noise {
            *v = moved(*v);
        }
        g.b.text = text.replace('\n', "\r\n");
    }
    g.b
}

impl G<'_, '_> {
    fn put(&mut self, s: &str) -> Span {
        let a = self.b.text.len();
        self.b.text.push_str(s);
        (a, self.b.text.len())
    }
    fn name(&mut self) -> String {
        self.t.pick(self.o.names).clone()
    }
    /// Lots of variables
    fn bulk(&mut self, python: bool) {
        let n = self.t.range(110, 300);
        self.put(if python { "\nrender(\n" } else { "\nfn bulk() {\n    context! {\n" });
        for i in 0..n {
            let name = format!("bulk{i}");
            let span = self.put(&name);
            self.b.vars.push((name, span));
            self.put(if python { "=1,\n" } else { " => 1,\n" });
        }
        self.put(if python { ")\n" } else { "    };\n}\n" });
    }
    fn var(&mut self) {
        let n = self.name();
        let span = self.put(&n);
        self.b.vars.push((n, span));
    }
    fn noise(&mut self, s: &str) {
        let span = self.put(s);
        self.b.noise.push(span);
    }
    fn quoted(&mut self, python: bool) -> (String, Span, &'static str) {
        let name = if self.o.templates.is_empty() {
            "page.html".to_string()
        } else {
            self.t.pick(self.o.templates).clone()
        };
        let q = if python && self.t.chance(40) { "'" } else { "\"" };
        let span = self.put(&format!("{q}{name}{q}"));
        (name, span, q)
    }
    fn template(&mut self, python: bool) {
        let (name, span, _) = self.quoted(python);
        self.b.templates.push((name, span));
    }
    fn unicode(&mut self) -> String {
        if self.wide && self.t.chance(50) {
            let n = self.t.range(200, 600);
            return "t".repeat(n);
        }
        if self.o.unicode && self.t.chance(50) {
            self.t.pick(&crate::gen::UNICODE[..6]).to_string()
        } else {
            "text".into()
        }
    }

    fn rust(&mut self) {
        let n = self.t.range(1, self.o.size.max(1));
        for i in 0..n {
            match self.t.below(6) {
                0 => {
                    let u = self.unicode();
                    let x = self.name();
                    self.put(&format!("// {u} context!{{ {x} => 1 }} get_template(\"nowhere.html\")\n"));
                }
                1 => {
                    self.put("use std::collections::HashMap;\n");
                }
                2 => {
                    let x = self.name();
                    self.put(&format!("/* jinja.add_global(\"{x}\", 1);\n context!({x}) */\n"));
                }
                3 => {
                    let x = self.name();
                    self.put(&format!("const S{i}: &str = r#\"get_template(\"nowhere.html\") {x}!({x})\"#;\n"));
                }
                _ => {}
            }
            let outer = match self.t.below(6) {
                0 => format!("mod m{i} {{\n"),
                1 => format!("impl Handler{i} {{\n"),
                _ => String::new(),
            };
            self.put(&outer);
            if self.t.chance(15) {
                self.put("#[get(\"/nowhere.html\")]\n");
            }
            let a = if self.t.chance(20) { "pub async " } else { "" };
            let r = if self.t.chance(20) { " -> Result<Html<String>, Error>" } else { "" };
            self.put(&format!("{a}fn handler{i}(jinja: Jinja){r} {{\n"));
            let k = self.t.range(1, 4);
            for _ in 0..k {
                self.put("    ");
                if self.wide && self.t.chance(30) {
                    let n = self.t.range(50, 150);
                    self.put(&format!("/*{}*/ ", " far".repeat(n)));
                }
                self.rust_statement(2);
                self.put("\n");
            }
            self.put("}\n");
            if !outer.is_empty() {
                self.put("}\n");
            }
        }
    }

    fn rust_macro(&mut self) {
        self.put("context!");
        let (a, b) = [("{", "}"), ("(", ")"), ("[", "]")][self.t.below(3)];
        self.put(a);
        self.put(" ");
        let n = self.t.range(0, 3);
        for i in 0..n {
            if i > 0 {
                let sep = *self.t.pick(&[", ", ",\n        ", ", /* text */ "]);
                self.put(sep);
            }
            self.var();
            match self.t.below(7) {
                0 => {}
                4 => {
                    self.put(" => &");
                    self.var();
                    self.put(".");
                    self.var();
                    self.put("[0]");
                }
                5 => {
                    self.put(" => ");
                    self.var();
                    self.put("(\"nowhere.html\", ");
                    self.var();
                    self.put(")");
                }
                6 => {
                    self.put(" => vec2![");
                    let end = self.b.text.len();
                    self.b.vars.push(("vec2".into(), (end - 6, end - 2)));
                    self.var();
                    self.put(", 1]");
                }
                1 => {
                    self.put(" => 1");
                }
                2 => {
                    let u = self.unicode();
                    self.put(&format!(" => \"{u}\""));
                }
                _ => {
                    self.put(" => ");
                    self.var();
                }
            }
        }
        self.put(" ");
        self.put(b);
    }

    fn rust_statement(&mut self, depth: usize) {
        let n = if depth == 0 { 9 } else { 12 };
        match self.t.below(n) {
            0 => {
                self.put("let c = ");
                self.rust_macro();
                self.put(";");
            }
            1 => {
                let f = *self.t.pick(&["add_global", "add_filter", "add_function"]);
                self.put(&format!("jinja.{f}("));
                let n = self.name();
                let span = self.put(&format!("\"{n}\""));
                self.b.vars.push((n, span));
                self.put(", ");
                self.noise("value");
                self.put(");");
            }
            2 => {
                self.put("let t = jinja.get_template(");
                self.template(false);
                self.put(").unwrap();");
            }
            3 => {
                let u = self.unicode();
                self.put(&format!("let s = \"{u}\"; render_jinja("));
                self.template(false);
                self.put(", ");
                self.rust_macro();
                self.put(");");
            }
            4 => {
                let u = self.unicode();
                let n = self.name();
                self.put(&format!("let {n} = \"{u}\"; let y = other("));
                let (_, span, _) = self.quoted(false);
                self.b.noise.push(span);
                self.put(");");
            }
            5 => {
                let n = self.name();
                self.put("map.insert(");
                self.noise(&format!("\"{n}\""));
                self.put(", 1);");
            }
            6 => {
                let n = self.name();
                self.put("minijinja.add_global(");
                self.noise(&format!("\"{n}\""));
                self.put(", 1);");
            }
            7 => {
                self.put("println!(\"{}\", ");
                self.var();
                self.put(");");
            }
            9 => {
                let n = self.name();
                self.put("if let Some(");
                self.noise(&n);
                self.put(") = x {\n        ");
                self.rust_statement(depth - 1);
                self.put("\n    }");
            }
            10 => {
                let n = self.name();
                self.put("jinja.add_function(\n        ");
                let span = self.put(&format!("\"{n}\""));
                self.b.vars.push((n, span));
                self.put(",\n        |a: &str| { ");
                self.rust_statement(depth - 1);
                self.put(" },\n    );");
            }
            11 => {
                self.put("env.render_jinja(&state, ");
                self.template(false);
                self.put(", { ");
                self.rust_statement(depth - 1);
                self.put(" })?;");
            }
            _ => {
                let n = self.name();
                self.put("let _ = ");
                self.noise(&n);
                self.put(".len() + 1;");
            }
        }
    }

    fn python(&mut self) {
        let n = self.t.range(1, self.o.size.max(1));
        for i in 0..n {
            match self.t.below(5) {
                0 => {
                    let u = self.unicode();
                    let x = self.name();
                    self.put(&format!("# {u} render_template('nowhere.html', {x}=1)\n"));
                }
                1 => {
                    self.put("import os\n");
                }
                2 => {
                    let x = self.name();
                    self.put(&format!("\"\"\"render({x}=1)\nget_template('nowhere.html')\n\"\"\"\n"));
                }
                _ => {}
            }
            let class = self.t.chance(20);
            let mut indent = String::new();
            if class {
                self.put(&format!("class Handler{i}(Base):\n"));
                indent += "    ";
            }
            if self.t.chance(20) {
                self.put(&format!("{indent}@app.route('/nowhere.html', strict=True)\n"));
            }
            let a = if self.t.chance(20) { "async " } else { "" };
            let x = self.name();
            self.put(&format!("{indent}{a}def handler{i}("));
            self.noise(&x);
            self.put("=1):\n");
            indent += "    ";
            let k = self.t.range(1, 4);
            for _ in 0..k {
                self.put(&indent);
                if self.t.chance(15) {
                    self.put(&format!("if x:\n{indent}    "));
                }
                self.python_statement();
                self.put("\n");
            }
        }
    }

    fn kwargs(&mut self, mut first: bool, depth: usize) {
        let n = self.t.range(0, 3);
        for _ in 0..n {
            if !first {
                let sep = *self.t.pick(&[", ", ",\n        ", ", # text\n  "]);
                self.put(sep);
            }
            first = false;
            self.var();
            let eq = *self.t.pick(&["=", " = "]);
            self.put(eq);
            match self.t.below(5) {
                0 if depth > 0 => {
                    self.put("render(");
                    self.kwargs(true, depth - 1);
                    self.put(")");
                }
                1 => {
                    let n = self.name();
                    self.put("dict(");
                    self.noise(&n);
                    self.put("=1)");
                }
                2 => {
                    let n = self.name();
                    self.put("'");
                    self.noise(&n);
                    self.put("'");
                }
                _ => {
                    let v = self.name();
                    self.noise(&v);
                }
            }
        }
    }

    fn python_statement(&mut self) {
        match self.t.below(10) {
            0 | 1 => {
                let f = *self.t.pick(&[
                    "render_template(",
                    "render(",
                    "template.render(",
                    "app.render_template(",
                    "await self.env.render(",
                    "pages[0].render(",
                ]);
                let u = self.unicode();
                self.put(&format!("s = '{u}'; x = {f}"));
                let mut first = true;
                if self.t.chance(60) {
                    first = false;
                    let (_, span, _) = self.quoted(true);
                    self.b.noise.push(span);
                }
                self.kwargs(first, 1);
                self.put(")");
            }
            8 => {
                self.put("return env.get_template(");
                self.template(true);
                self.put(").render(");
                self.kwargs(true, 1);
                self.put(")");
            }
            9 => {
                let f = *self.t.pick(&["globals", "filters"]);
                self.put(&format!("app.jinja_env.{f}['"));
                self.var();
                self.put("'] = lambda a=1: a");
            }
            2 => {
                let f = *self.t.pick(&["globals", "filters"]);
                let q = *self.t.pick(&["\"", "'"]);
                self.put(&format!("jinja_env.{f}[{q}"));
                self.var();
                self.put(&format!("{q}] = "));
                let n = self.name();
                self.noise(&n);
            }
            3 => {
                self.put("t = env.get_template(");
                self.template(true);
                self.put(")");
            }
            4 => {
                let u = self.unicode();
                self.put(&format!("s = '{u}'; y = render_jinja("));
                self.template(true);
                self.put(")");
            }
            5 => {
                let n = self.name();
                self.put("dict(");
                self.noise(&n);
                self.put("=1)");
            }
            6 => {
                let n = self.name();
                self.put("other_env.globals[");
                self.noise(&format!("\"{n}\""));
                self.put("] = 1");
            }
            _ => {
                let n = self.name();
                self.put(&format!("{n} = other("));
                let (_, span, _) = self.quoted(true);
                self.b.noise.push(span);
                self.put(")");
            }
        }
    }
}
