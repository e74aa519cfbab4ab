//! Generator of well-formed templates, together with the model of what they define and use.
//! The model is written down while the text is produced, it never reads the text back.

use crate::tape::Tape;
use crate::text::Span;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Kind {
    ForKey,
    ForValue,
    Set,
    With,
    Macro,
    Param,
    Block,
}

impl Kind {
    pub fn detail(self) -> &'static str {
        match self {
            Kind::ForKey => "For loop key",
            Kind::ForValue => "For loop value",
            Kind::Set => "Set variable",
            Kind::With => "With variable",
            Kind::Macro => "Macro",
            Kind::Param => "Macro parameter",
            Kind::Block => "Template block",
        }
    }
    pub fn symbol(self) -> i64 {
        match self {
            Kind::Macro => 12,
            Kind::Param => 8,
            Kind::Block => 2,
            _ => 13,
        }
    }
    pub fn completion(self) -> i64 {
        match self {
            Kind::Macro => 3,
            Kind::Param => 5,
            Kind::Block => 9,
            _ => 6,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Def {
    pub name: String,
    pub span: Span,
    pub kind: Kind,
    scope: usize,
    /// end of its scope
    pub end: usize,
}

#[derive(Clone, Debug)]
pub struct Ref {
    pub name: String,
    pub span: Span,
    pub fields: Vec<(String, Span)>,
    /// index of the {{ }} it is in
    pub expr: Option<usize>,
}

impl Ref {
    pub fn chain_end(&self) -> usize {
        self.fields.last().map_or(self.span.1, |f| f.1 .1)
    }
}

/// Name of a filter or a test
#[derive(Clone, Debug)]
pub struct Word {
    pub name: String,
    pub span: Span,
    /// `|` with blanks after it, `is` for tests
    pub op: Span,
    pub expr: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct TemplateString {
    pub name: String,
    /// with quotes
    pub span: Span,
    pub keyword: &'static str,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Class {
    Text,
    Comment,
    Str,
    Number,
    Constant,
    /// loop, super, url_for, module
    Special,
    KwName,
    /// attribute of something that isn't a variable
    Attr,
    Keyword,
    BlockName,
    Operator,
}

#[derive(Clone, Debug)]
pub struct Neutral {
    pub span: Span,
    pub class: Class,
    pub expr: Option<usize>,
}

#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub text: String,
    pub defs: Vec<Def>,
    pub refs: Vec<Ref>,
    pub filters: Vec<Word>,
    pub tests: Vec<Word>,
    pub templates: Vec<TemplateString>,
    pub neutral: Vec<Neutral>,
    /// every {{ }}
    pub exprs: Vec<Span>,
    /// every {% %}
    pub stmts: Vec<Span>,
    /// blank parts of {{ }} without anything else: offsets after {{ and before }}
    pub blanks: Vec<Span>,
    /// offsets where a construct of the template can be inserted
    pub gaps: Vec<usize>,
    pub max_depth: usize,
    pub scopes: usize,
}

impl Doc {
    pub fn defines(&self, name: &str) -> bool {
        self.defs.iter().any(|d| d.kind != Kind::Block && d.name == name)
    }

    /// Last definition of a variable with this name that reaches this offset
    pub fn resolve(&self, name: &str, at: usize) -> Option<&Def> {
        self.defs
            .iter()
            .filter(|d| d.kind != Kind::Block && d.name == name && d.span.0 <= at && at < d.end)
            .max_by_key(|d| d.span.0)
    }
}

#[derive(Clone)]
pub struct Opts {
    pub names: Vec<String>,
    /// names for template strings; empty: no such statements
    pub templates: Vec<String>,
    /// import and from too (their names count as undefined)
    pub imports: bool,
    pub unicode: bool,
    pub crlf: bool,
    pub blanks: bool,
    pub size: usize,
}

pub const NAMES: [&str; 38] = [
    "item", "user", "x", "items", "user_name", "i", "name", "value", "data", "it", "x1", "first", "default", "upper",
    "length", "format", "settings", "within", "blocks", "iffy", "inner", "isolated", "android", "order", "looper",
    "trueish", "superb", "notes", "nonesuch", "macro_name", "endpoint", "defined", "string", "e", "_private", "Item",
    "USER", "for_each",
];

pub const FIELDS: [&str; 12] = [
    "name", "id", "value", "item", "user", "x", "first", "index", "items", "loop", "upper", "is_active",
];

pub const UNICODE: [&str; 12] = [
    "\u{e9}", "\u{1f600}", "\u{438}\u{43c}\u{44f}", "e\u{301}", "\u{4f60}\u{597d}", "\u{10348}", "\u{20ac}", "\u{a0}",
    "\u{1f468}\u{200d}\u{1f469}", "\u{2028}", "\u{fe0f}", "\u{7f}",
];

/// Chooses names for one document
pub fn names(t: &mut Tape) -> Vec<String> {
    // the grammar has ASCII names only
    let n = t.range(1, 6);
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        let name = match t.weighted(&[7, 2, 1]) {
            0 => t.pick(&NAMES).to_string(),
            1 => invented(t),
            // nearly another name of the document
            _ if v.is_empty() => invented(t),
            _ => {
                let other = t.pick(&v).clone();
                match t.below(5) {
                    0 => format!("{other}_"),
                    1 => format!("_{other}"),
                    2 => format!("{other}{}", t.below(100)),
                    3 => other[..t.range(1, other.len())].to_string(),
                    _ => other.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                }
            }
        };
        v.push(if RESERVED.contains(&name.as_str()) { format!("{name}1") } else { name });
    }
    v
}

/// Words of Jinja, Python and Rust that aren't names
const RESERVED: [&str; 95] = [
    "and", "or", "in", "if", "else", "elif", "not", "is", "as", "for", "set", "with", "macro", "block", "call", "filter",
    "trans", "raw", "autoescape", "extends", "include", "import", "from", "do", "debug", "true", "false", "True", "False",
    "none", "None", "loop", "super", "url_for", "module", "recursive", "ignore", "missing", "without", "context",
    "required", "scoped", "pluralize", "def", "class", "return", "lambda", "pass", "break", "continue", "del", "try",
    "except", "raise", "yield", "while", "global", "nonlocal", "assert", "async", "await", "finally", "fn", "let", "mut",
    "pub", "mod", "use", "impl", "struct", "enum", "match", "where", "type", "const", "static", "ref", "self", "Self",
    "crate", "dyn", "move", "trait", "_", "endfor", "endif", "endset", "endwith", "endmacro", "endblock", "endcall",
    "endfilter", "endtrans", "endraw", "endautoescape",
];

fn invented(t: &mut Tape) -> String {
    const PARTS: [&str; 40] = [
        "a", "b", "k", "z", "A", "Z", "_", "__", "0", "1", "9", "42", "is", "in", "not", "if", "for", "end", "set", "or",
        "and", "endif", "elif", "else", "with", "block", "raw", "none", "true", "loop", "super", "self", "range",
        "namespace", "dict", "item", "user", "very_long_name_of_some_variable", "camelCase", "x",
    ];
    let mut name = String::new();
    for _ in 0..t.range(1, 3) {
        name.push_str(*t.pick(&PARTS));
    }
    if t.chance(5) {
        name.push_str(&"of_some_".repeat(t.range(3, 40)));
        name.push('x');
    }
    if name.starts_with(|c: char| c.is_ascii_digit()) {
        name.insert(0, 'n');
    }
    if name.chars().all(|c| c == '_') {
        name.push('u');
    }
    name
}

pub struct Gen<'a, 't> {
    t: &'a mut Tape<'t>,
    o: Opts,
    d: Doc,
    scopes: Vec<usize>,
    ends: Vec<usize>,
    depth: usize,
    budget: usize,
    expr: Option<usize>,
    kwargs: bool,
    no_in: bool,
    block_names: usize,
    filters: &'a [String],
    tests: &'a [String],
    scale: Scale,
    returns: Returns,
}

/// Carriage returns of a document
#[derive(Clone, Copy, PartialEq)]
enum Returns {
    None,
    /// lines end with \r without \n
    Only,
    Some,
}

/// What is unusually large in a document
#[derive(Clone, Copy, PartialEq)]
enum Scale {
    Usual,
    Rows,
    Columns,
    Depth,
    Elements,
    Lists,
    /// more rows or columns than fit in 16 bits
    Extreme,
    /// more than 100 definitions, references or templates
    Bulk,
}

const TEXTS: [&str; 16] = [
    "text", "<p>", " ", "</p>", "item user x", "<a href=\"x\">", "{ color: red }", "a, b", "# title", "100 % of", "}", "{ }",
    "if for set", "upper|lower", "\t", "it's",
];

pub fn filter_names(list: &[(String, String)]) -> Vec<String> {
    list.iter().map(|f| f.0.clone()).collect()
}

impl<'a, 't> Gen<'a, 't> {
    pub fn doc(t: &'a mut Tape<'t>, o: Opts, filters: &'a [String], tests: &'a [String]) -> Doc {
        let budget = o.size;
        let mut g = Gen {
            t,
            o,
            d: Doc::default(),
            scopes: vec![],
            ends: vec![],
            depth: 0,
            budget,
            expr: None,
            kwargs: true,
            no_in: false,
            block_names: 0,
            filters,
            tests,
            scale: Scale::Usual,
            returns: Returns::None,
        };
        if g.t.chance(5) {
            g.returns = if g.t.chance(50) { Returns::Only } else { Returns::Some };
        }
        g.scale = match g.t.weighted(&[855, 30, 30, 30, 20, 27, 3, 5]) {
            0 => Scale::Usual,
            1 => Scale::Rows,
            2 => Scale::Columns,
            3 => Scale::Depth,
            4 => Scale::Elements,
            5 => Scale::Lists,
            6 => Scale::Extreme,
            _ => Scale::Bulk,
        };
        match g.scale {
            Scale::Depth => g.budget *= 2,
            Scale::Elements => g.budget += 60,
            Scale::Rows | Scale::Columns | Scale::Extreme => g.far(),
            Scale::Bulk => g.bulk(),
            _ => {}
        }
        g.body(true);
        if g.o.crlf && g.returns == Returns::None {
            // every \n was produced as \r\n
            debug_assert!(!g.d.text.replace("\r\n", "").contains('\n'));
        }
        let len = g.d.text.len();
        for def in &mut g.d.defs {
            def.end = if def.scope == usize::MAX { len } else { g.ends[def.scope] };
        }
        g.d.scopes = g.ends.len();
        g.d
    }

    fn at(&self) -> usize {
        self.d.text.len()
    }

    fn put(&mut self, s: &str) -> Span {
        let a = self.at();
        self.d.text.push_str(s);
        (a, self.at())
    }

    fn nl(&mut self) {
        let s = self.eol();
        self.put(s);
    }

    fn eol(&mut self) -> &'static str {
        let usual = if self.o.crlf { "\r\n" } else { "\n" };
        let s = match self.returns {
            Returns::None => usual,
            Returns::Only => "\r",
            Returns::Some => *self.t.pick(&[usual, "\r"]),
        };
        // this would be the end of one line
        if s == "\n" && self.d.text.ends_with('\r') {
            "\r"
        } else {
            s
        }
    }

    fn neutral(&mut self, s: &str, class: Class) -> Span {
        let span = self.put(s);
        let expr = self.expr;
        self.d.neutral.push(Neutral { span, class, expr });
        span
    }

    /// Number of items, by weights
    fn many(&mut self, weights: &[usize]) -> usize {
        if self.scale == Scale::Lists && self.t.chance(25) {
            self.t.range(4, 12)
        } else {
            self.t.weighted(weights)
        }
    }

    /// Blanks that are necessary
    fn sp(&mut self) {
        match self.t.weighted(&[12, 1, 1, 1]) {
            0 => {
                self.put(" ");
            }
            1 => {
                self.put("  ");
            }
            2 => {
                self.nl();
                self.put("  ");
            }
            _ => {
                self.put("\t");
            }
        }
    }

    /// Blanks that are optional
    fn osp(&mut self) {
        if self.t.chance(25) {
            self.sp();
        }
    }

    /// Usual blanks around operators
    fn bsp(&mut self) {
        if !self.t.chance(15) {
            self.sp();
        }
    }

    fn name(&mut self) -> String {
        let names = &self.o.names;
        names[self.t.below(names.len())].clone()
    }

    fn define(&mut self, name: &str, kind: Kind, scope: usize) -> Span {
        let span = self.put(name);
        self.d.defs.push(Def {
            name: name.to_string(),
            span,
            kind,
            scope,
            end: 0,
        });
        span
    }

    fn scope(&self) -> usize {
        self.scopes.last().copied().unwrap_or(usize::MAX)
    }

    fn open_scope(&mut self) -> usize {
        self.ends.push(0);
        let id = self.ends.len() - 1;
        self.scopes.push(id);
        id
    }

    /// The scope ends where the next statement begins
    fn close_scope(&mut self) {
        let id = self.scopes.pop().unwrap();
        self.ends[id] = self.at();
    }

    fn keyword(&mut self, k: &str) {
        self.neutral(k, Class::Keyword);
    }

    fn begin(&mut self, k: &str) -> usize {
        let start = self.at();
        self.put("{%");
        match self.t.weighted(&[10, 1, 1]) {
            1 => {
                self.put("-");
            }
            2 => {
                self.put("+");
            }
            _ => {}
        }
        if !self.t.chance(8) {
            self.sp();
        }
        self.keyword(k);
        start
    }

    fn end(&mut self, start: usize) {
        match self.t.weighted(&[10, 1, 1]) {
            0 => self.bsp(),
            1 => {
                self.sp();
                self.put("-");
            }
            _ => {
                self.sp();
                self.put("+");
            }
        }
        self.put("%}");
        let end = self.at();
        self.d.stmts.push((start, end));
    }

    fn simple(&mut self, k: &str) {
        let s = self.begin(k);
        self.end(s);
    }

    fn word(&mut self) -> String {
        if self.o.unicode && self.t.chance(30) {
            self.t.pick(&UNICODE).to_string()
        } else {
            let n = self.name();
            n.to_string()
        }
    }

    /// Text that moves what follows far away
    fn far(&mut self) {
        let start = self.at();
        let mut n = self.t.range(200, 600);
        if self.scale == Scale::Extreme {
            n += 65_400;
        }
        let rows = self.scale == Scale::Rows || self.scale == Scale::Extreme && self.t.chance(50);
        if rows {
            let s = self.eol();
            self.put(&s.repeat(n));
        } else {
            let w = self.word();
            self.put(&format!("{w} ").repeat(n / (w.chars().count() + 1)));
        }
        let end = self.at();
        self.d.neutral.push(Neutral {
            span: (start, end),
            class: Class::Text,
            expr: None,
        });
    }

    /// Lots of definitions, references or templates
    fn bulk(&mut self) {
        let n = self.t.range(110, 300);
        let what = self.t.below(if self.o.templates.is_empty() { 3 } else { 4 });
        let lines = self.t.chance(70);
        for i in 0..n {
            let start = self.at();
            match if what == 2 { i % 2 } else { what } {
                0 => {
                    self.put("{% set ");
                    let scope = self.scope();
                    self.define(&format!("bulk{i}"), Kind::Set, scope);
                    self.put(" = 1 %}");
                }
                1 => {
                    self.put("{{ ");
                    let name = match self.t.below(2) {
                        0 => self.o.names[i % self.o.names.len()].clone(),
                        _ => format!("bulk{i}"),
                    };
                    let span = self.put(&name);
                    let id = self.d.exprs.len();
                    self.d.refs.push(Ref { name, span, fields: vec![], expr: Some(id) });
                    self.put(" }}");
                    self.d.exprs.push((start, self.d.text.len()));
                }
                _ => {
                    self.put("{% include ");
                    let name = match i % 2 {
                        0 => self.o.templates[i % self.o.templates.len()].clone(),
                        _ => format!("bulk/{i}.html"),
                    };
                    let q = if name.contains('"') { "'" } else { "\"" };
                    let span = self.put(&format!("{q}{name}{q}"));
                    self.d.templates.push(TemplateString {
                        name,
                        span,
                        keyword: "include",
                    });
                    self.put(" %}");
                }
            }
            if self.d.text.ends_with("%}") {
                self.d.stmts.push((start, self.d.text.len()));
            }
            if lines {
                self.nl();
            }
        }
    }

    fn text(&mut self) {
        if matches!(self.scale, Scale::Rows | Scale::Columns) && self.t.chance(15) {
            return self.far();
        }
        let n = self.t.range(1, 3);
        let start = self.at();
        for _ in 0..n {
            match self.t.weighted(&[5, 3, 2]) {
                0 => {
                    let s = *self.t.pick(&TEXTS);
                    // `{` and `#` next to delimiters would be something else
                    self.put(" ");
                    self.put(s);
                    self.put(" ");
                }
                1 => {
                    let w = self.word();
                    self.put(&w);
                }
                _ => self.nl(),
            }
        }
        let end = self.at();
        self.d.neutral.push(Neutral {
            span: (start, end),
            class: Class::Text,
            expr: None,
        });
    }

    fn comment(&mut self) {
        self.put("{#");
        if self.t.chance(10) {
            self.put("-");
        }
        let start = self.at();
        self.put(" ");
        match self.t.below(6) {
            0 => {
                let n = self.word();
                self.put(&n);
            }
            1 => {
                let n = self.name();
                self.put(&format!("{{{{ {n} }}}}"));
            }
            2 => {
                let n = self.name();
                self.put(&format!("{{% set {n} = 1 %}}"));
            }
            3 => {
                self.put("{% for a in ");
                let n = self.word();
                self.put(&n);
            }
            4 => {
                self.nl();
                self.put("{% endfor %} {% include \"nowhere.html\" %}");
                self.nl();
            }
            _ => {
                self.put("TODO: ");
                let n = self.word();
                self.put(&n);
            }
        }
        self.put(" ");
        let end = self.at();
        if self.t.chance(10) {
            self.put("-");
        }
        self.put("#}");
        self.d.neutral.push(Neutral {
            span: (start, end),
            class: Class::Comment,
            expr: None,
        });
    }

    fn body(&mut self, top: bool) {
        let n = match self.scale {
            Scale::Elements if top => self.t.range(20, 60),
            Scale::Depth => self.t.range(1, 3),
            _ if top => self.t.range(1, 8),
            _ => self.t.range(0, 3),
        };
        self.depth += 1;
        self.d.max_depth = self.d.max_depth.max(self.depth);
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            self.element();
            if self.t.chance(20) {
                self.nl();
            }
        }
        self.depth -= 1;
    }

    fn element(&mut self) {
        let gap = self.at();
        self.d.gaps.push(gap);
        let deep = match self.scale {
            Scale::Depth if self.depth > 24 => 0,
            Scale::Depth => 6,
            _ if self.depth > 5 => 0,
            _ => 1,
        };
        let templates = if self.o.templates.is_empty() { 0 } else { 3 };
        let blanks = if self.o.blanks { 5 } else { 0 };
        match self.t.weighted(&[
            8,
            24,
            3,
            9,
            3 * deep,
            7 * deep,
            8 * deep,
            6 * deep,
            6 * deep,
            5 * deep,
            2 * deep,
            2 * deep,
            1,
            2 * deep,
            templates,
            2,
            1,
            blanks,
        ]) {
            0 => self.text(),
            1 => self.output(),
            2 => self.comment(),
            3 => self.set(),
            4 => self.set_block(),
            5 => self.if_(),
            6 => self.for_(),
            7 => self.with(),
            8 => self.macro_(),
            9 => self.block(),
            10 => self.filter(),
            11 => self.autoescape(),
            12 => self.raw(),
            13 => self.call(),
            14 => self.template(),
            15 => {
                let s = self.begin("do");
                self.sp();
                self.postfix(2);
                self.end(s);
            }
            16 => {
                self.simple("trans");
                self.text();
                if self.t.chance(50) {
                    self.output();
                }
                self.simple("endtrans");
            }
            _ => self.blank(),
        }
    }

    fn output(&mut self) {
        let start = self.at();
        self.put("{{");
        let id = self.d.exprs.len();
        self.d.exprs.push((start, 0));
        self.expr = Some(id);
        let control = self.t.chance(8);
        if control {
            self.put("-");
        }
        if control || !self.t.chance(15) {
            self.sp();
        }
        self.expression(3);
        if self.t.chance(8) {
            self.sp();
            self.put("-");
        } else if self.d.text.ends_with('}') {
            self.sp();
        } else {
            self.bsp();
        }
        self.expr = None;
        self.put("}}");
        let end = self.at();
        self.d.exprs[id].1 = end;
    }

    fn blank(&mut self) {
        let start = self.at();
        self.put("{{");
        let a = self.at();
        match self.t.below(3) {
            0 => self.put(" "),
            1 => self.put("  "),
            _ => self.put("   "),
        };
        let b = self.at();
        self.put("}}");
        let end = self.at();
        self.d.exprs.push((start, end));
        self.d.blanks.push((a, b));
    }

    fn set(&mut self) {
        let s = self.begin("set");
        self.sp();
        let n = self.many(&[0, 80, 14, 6]);
        let scope = self.scope();
        let tuple = n > 1 && self.t.chance(30);
        if tuple {
            self.put("(");
        }
        for i in 0..n {
            if i > 0 {
                self.put(",");
                self.bsp();
            }
            let name = self.name();
            self.define(&name, Kind::Set, scope);
        }
        if tuple {
            self.put(")");
        }
        self.bsp();
        self.put("=");
        self.bsp();
        for i in 0..n {
            if i > 0 {
                self.put(", ");
            }
            self.expression(3);
        }
        self.end(s);
    }

    fn set_block(&mut self) {
        let s = self.begin("set");
        self.sp();
        let name = self.name();
        let scope = self.scope();
        self.define(&name, Kind::Set, scope);
        if self.t.chance(20) {
            self.filter_tail();
        }
        self.end(s);
        self.body(false);
        self.simple("endset");
    }

    fn if_(&mut self) {
        let s = self.begin("if");
        self.sp();
        self.expression(3);
        self.end(s);
        self.open_scope();
        self.body(false);
        let n = self.t.weighted(&[6, 3, 1]);
        for _ in 0..n {
            self.close_scope();
            let s = self.begin("elif");
            self.sp();
            self.expression(3);
            self.end(s);
            self.open_scope();
            self.body(false);
        }
        if self.t.chance(40) {
            self.close_scope();
            self.simple("else");
            self.open_scope();
            self.body(false);
        }
        self.close_scope();
        self.simple("endif");
    }

    fn for_(&mut self) {
        let s = self.begin("for");
        self.sp();
        let id = self.open_scope();
        let name = self.name();
        match self.t.weighted(&[6, 3, 1, 1, 1]) {
            0 => {
                self.define(&name, Kind::ForKey, id);
            }
            4 => {
                self.define(&name, Kind::ForKey, id);
                let n = if self.t.chance(20) { self.t.range(3, 11) } else { self.many(&[0, 0, 1]) };
                for _ in 0..n {
                    self.put(",");
                    self.bsp();
                    let name = self.name();
                    self.define(&name, Kind::ForValue, id);
                }
            }
            1 => {
                self.define(&name, Kind::ForKey, id);
                self.put(",");
                self.bsp();
                let name = self.name();
                self.define(&name, Kind::ForValue, id);
            }
            2 => {
                self.define(&name, Kind::ForKey, id);
                self.put(", (");
                let name = self.name();
                self.define(&name, Kind::ForValue, id);
                self.put(",");
                self.bsp();
                let name = self.name();
                self.define(&name, Kind::ForValue, id);
                self.put(")");
            }
            _ => {
                self.put("(");
                self.define(&name, Kind::ForKey, id);
                self.put(", ");
                let name = self.name();
                self.define(&name, Kind::ForValue, id);
                self.put(")");
            }
        }
        self.sp();
        self.keyword("in");
        self.sp();
        self.no_in = true;
        self.postfix(2);
        if self.t.chance(20) {
            self.sp();
            self.keyword("if");
            self.sp();
            self.expression(2);
        }
        self.no_in = false;
        self.end(s);
        self.body(false);
        if self.t.chance(25) {
            self.close_scope();
            self.simple("else");
            self.open_scope();
            self.body(false);
        }
        self.close_scope();
        self.simple("endfor");
    }

    fn with(&mut self) {
        let s = self.begin("with");
        let id = self.open_scope();
        let n = self.many(&[1, 8, 4, 1]);
        for i in 0..n {
            if i > 0 {
                self.put(",");
                self.bsp();
            } else {
                self.sp();
            }
            let name = self.name();
            self.define(&name, Kind::With, id);
            self.bsp();
            self.put("=");
            self.bsp();
            self.expression(3);
        }
        self.end(s);
        self.body(false);
        self.close_scope();
        self.simple("endwith");
    }

    fn macro_(&mut self) {
        let s = self.begin("macro");
        self.sp();
        let outer = self.scope();
        let name = self.name();
        self.define(&name, Kind::Macro, outer);
        let id = self.open_scope();
        if self.t.chance(5) {
            self.sp();
        }
        self.put("(");
        let n = self.many(&[2, 4, 3, 1]);
        let mut default = false;
        for i in 0..n {
            if i > 0 {
                self.put(",");
                self.bsp();
            } else {
                self.osp();
            }
            let name = self.name();
            self.define(&name, Kind::Param, id);
            default = default || self.t.chance(35);
            if default {
                let blank = self.t.chance(30);
                if blank {
                    self.put(" ");
                }
                self.put("=");
                if blank {
                    self.put(" ");
                }
                self.kwargs = false;
                self.postfix(2);
                self.kwargs = true;
            }
        }
        self.osp();
        self.put(")");
        self.end(s);
        self.body(false);
        self.close_scope();
        let s = self.begin("endmacro");
        self.end(s);
    }

    fn block(&mut self) {
        let s = self.begin("block");
        self.sp();
        let id = self.open_scope();
        let name = if self.t.chance(35) {
            self.name()
        } else {
            self.block_names += 1;
            format!("content{}", self.block_names)
        };
        self.define(&name, Kind::Block, id);
        if self.t.chance(15) {
            self.sp();
            self.neutral("scoped", Class::BlockName);
        }
        if self.t.chance(10) {
            self.sp();
            self.neutral("required", Class::BlockName);
        }
        self.end(s);
        self.body(false);
        self.close_scope();
        let s = self.begin("endblock");
        if self.t.chance(30) {
            self.sp();
            self.neutral(&name, Class::BlockName);
        }
        self.end(s);
    }

    fn filter_word(&mut self, op: Span) {
        let name = if self.t.chance(90) {
            self.t.pick(self.filters).clone()
        } else if self.t.chance(50) {
            // custom filter
            self.name()
        } else {
            // that has the name of a test
            let n = self.tests.len();
            let name = self.tests[self.t.below(n)].clone();
            if matches!(name.as_str(), "true" | "false" | "none") {
                self.name()
            } else {
                name
            }
        };
        let span = self.put(&name);
        let expr = self.expr;
        self.d.filters.push(Word { name, span, op, expr });
        if self.t.chance(25) {
            self.args();
        }
    }

    fn filter(&mut self) {
        let s = self.begin("filter");
        self.sp();
        let at = self.at();
        self.filter_word((at, at));
        if self.t.chance(25) {
            self.filter_tail();
        }
        self.end(s);
        self.open_scope();
        self.body(false);
        self.close_scope();
        self.simple("endfilter");
    }

    fn autoescape(&mut self) {
        let s = self.begin("autoescape");
        self.sp();
        match self.t.below(3) {
            0 => {
                self.neutral("true", Class::Constant);
            }
            1 => {
                self.neutral("false", Class::Constant);
            }
            _ => self.reference(),
        }
        self.end(s);
        self.open_scope();
        self.body(false);
        self.close_scope();
        self.simple("endautoescape");
    }

    fn raw(&mut self) {
        self.simple("raw");
        self.text();
        self.simple("endraw");
    }

    fn call(&mut self) {
        let s = self.begin("call");
        self.sp();
        self.reference();
        self.args();
        self.end(s);
        self.body(false);
        self.simple("endcall");
    }

    fn template(&mut self) {
        let all = ["include", "extends", "import", "from"];
        let n = if self.o.imports { 4 } else { 2 };
        let k = *self.t.pick(&all[..n]);
        let s = self.begin(k);
        self.sp();
        if matches!(k, "include" | "extends") && self.t.chance(15) {
            // the environment knows the name of the template
            self.reference();
            return self.end(s);
        }
        let list = k == "include" && self.t.chance(20);
        if list {
            self.put("[");
        }
        let n = if list { self.t.range(1, 3) } else { 1 };
        for i in 0..n {
            if i > 0 {
                self.put(",");
                self.bsp();
            }
            let name = self.o.templates[self.t.below(self.o.templates.len())].clone();
            let q = if self.t.chance(30) || name.contains('"') { "'" } else { "\"" };
            let span = self.put(&format!("{q}{name}{q}"));
            self.d.templates.push(TemplateString { name, span, keyword: k });
        }
        if list {
            self.put("]");
        }
        if k == "import" {
            self.sp();
            self.put("as");
            self.sp();
            let name = self.name();
            self.put(&name);
        } else if k == "from" {
            self.sp();
            self.keyword("import");
            self.sp();
            let n = self.t.range(1, 3);
            for i in 0..n {
                if i > 0 {
                    self.put(", ");
                }
                let name = self.name();
                self.put(&name);
                if self.t.chance(30) {
                    self.put(" as alias");
                }
            }
        }
        self.end(s);
    }

    // Expressions

    fn reference(&mut self) {
        let name = self.name();
        let span = self.put(&name);
        let expr = self.expr;
        let mut fields = vec![];
        let n = self.many(&[7, 2, 1]);
        for _ in 0..n {
            self.put(".");
            let f = self.field();
            let span = self.put(&f);
            fields.push((f, span));
        }
        self.d.refs.push(Ref { name, span, fields, expr });
    }

    /// Attributes may have names of variables
    fn field(&mut self) -> String {
        if self.t.chance(20) {
            self.name()
        } else {
            self.t.pick(&FIELDS).to_string()
        }
    }

    fn string(&mut self) {
        let q = if self.t.chance(40) { "'" } else { "\"" };
        self.put(q);
        let start = self.at();
        match self.t.below(6) {
            0 => {}
            1 => {
                let n = self.name();
                self.put(&n);
            }
            2 => {
                let n = self.name();
                self.put(&format!("{{{{ {n} }}}}"));
            }
            3 => {
                let a = self.word();
                let b = self.word();
                self.put(&format!("{a} | {b}.html"));
            }
            4 => {
                self.put("{% set x = 1 %}");
            }
            _ => {
                let a = self.word();
                self.put(&a);
                self.put(" is ");
            }
        }
        let end = self.at();
        self.put(q);
        let expr = self.expr;
        self.d.neutral.push(Neutral {
            span: (start, end),
            class: Class::Str,
            expr,
        });
    }

    fn number(&mut self) {
        let n = *self.t.pick(&["1", "0", "42", "1.5", "100"]);
        self.neutral(n, Class::Number);
    }

    fn constant(&mut self) {
        let n = *self.t.pick(&["true", "false", "none", "True", "False", "None"]);
        self.neutral(n, Class::Constant);
    }

    /// Names that the environment provides
    fn special(&mut self) {
        match self.t.below(4) {
            0 => {
                self.neutral("loop", Class::Special);
                self.put(".");
                let f = *self.t.pick(&["index", "first", "last", "x"]);
                self.neutral(f, Class::Attr);
            }
            1 => {
                self.neutral("super", Class::Special);
                self.put("()");
            }
            2 => {
                self.neutral("url_for", Class::Special);
                self.put("(");
                self.string();
                if self.kwargs {
                    self.put(", ");
                    let n = self.name();
                    self.kw(&n);
                }
                self.put(")");
            }
            _ => {
                self.neutral("loop", Class::Special);
                self.put(".cycle(");
                let end = self.at() - 1;
                self.d.neutral.push(Neutral {
                    span: (end - 5, end),
                    class: Class::Attr,
                    expr: self.expr,
                });
                self.string();
                self.put(", ");
                self.reference();
                self.put(")");
            }
        }
    }

    fn kw(&mut self, name: &str) {
        self.neutral(name, Class::KwName);
        let blank = self.t.chance(20);
        if blank {
            self.put(" ");
        }
        self.put("=");
        if blank {
            self.put(" ");
        }
        self.postfix(1);
    }

    fn args(&mut self) {
        self.put("(");
        self.osp();
        let n = self.many(&[3, 4, 2, 1]);
        let mut kw = false;
        for i in 0..n {
            if i > 0 {
                self.put(",");
                self.bsp();
            }
            kw = kw || self.kwargs && self.t.chance(30);
            if kw {
                let n = self.name();
                self.kw(&n);
            } else {
                self.expression(1);
            }
        }
        self.osp();
        self.put(")");
    }

    fn primary(&mut self, depth: usize) {
        let d = if depth == 0 { 0 } else { 1 };
        match self.t.weighted(&[12, 3, 2, 1, 2, 2 * d, 2 * d, 2 * d, d, d]) {
            0 => self.reference(),
            1 => self.string(),
            2 => self.number(),
            3 => self.constant(),
            4 => self.special(),
            5 => {
                // call
                self.reference();
                self.args();
                self.trailer(depth);
            }
            6 => {
                // subscript
                self.reference();
                self.subscript(depth);
                self.trailer(depth);
            }
            7 => {
                self.put("(");
                self.osp();
                self.expression(depth - 1);
                self.osp();
                self.put(")");
            }
            8 => {
                // list
                self.put("[");
                let n = self.t.range(0, 3);
                for i in 0..n {
                    if i > 0 {
                        self.put(",");
                        self.bsp();
                    }
                    self.expression(depth - 1);
                }
                self.put("]");
            }
            _ => {
                // dict
                self.put("{");
                self.osp();
                let n = self.t.range(1, 2);
                for i in 0..n {
                    if i > 0 {
                        self.put(", ");
                    }
                    if self.t.chance(70) {
                        self.string();
                    } else {
                        self.reference();
                    }
                    self.put(":");
                    self.bsp();
                    self.postfix(0);
                }
                self.put(" }");
            }
        }
    }

    fn subscript(&mut self, depth: usize) {
        self.put("[");
        self.osp();
        match self.t.below(7) {
            0 => self.string(),
            1 => self.number(),
            2 => {
                self.number();
                self.put(":");
                self.number();
            }
            3 => {
                self.put(":");
                self.reference();
            }
            4 => {
                self.reference();
                self.put(":");
                if self.t.chance(50) {
                    self.reference();
                    self.put(":");
                }
            }
            _ => self.expression(depth.saturating_sub(1)),
        }
        self.osp();
        self.put("]");
    }

    /// What follows a call or a subscript: its attributes belong to no variable
    fn trailer(&mut self, depth: usize) {
        let n = self.t.weighted(&[6, 2, 1]);
        for _ in 0..n {
            match self.t.below(4) {
                0 | 1 => {
                    self.put(".");
                    let f = self.field();
                    self.neutral(&f, Class::Attr);
                }
                2 => self.subscript(depth.saturating_sub(1)),
                _ if depth > 0 => self.args(),
                _ => {}
            }
        }
    }

    fn filter_tail(&mut self) {
        self.bsp();
        let a = self.at();
        self.put("|");
        self.bsp();
        let b = self.at();
        self.filter_word((a, b));
    }

    fn postfix(&mut self, depth: usize) {
        self.primary(depth);
        let n = self.many(&[10, 4, 1]);
        for _ in 0..n {
            self.filter_tail();
        }
    }

    fn test(&mut self) {
        self.sp();
        let op = self.put("is");
        let expr = self.expr;
        self.d.neutral.push(Neutral {
            span: op,
            class: Class::Keyword,
            expr,
        });
        self.sp();
        if self.t.chance(20) {
            self.keyword("not");
            self.sp();
        }
        let n = self.tests.len();
        let name = match self.t.weighted(&[90, 5, 5]) {
            0 => self.tests[self.t.below(n)].clone(),
            1 => self.t.pick(self.filters).clone(),
            _ => self.name(),
        };
        let span = self.put(&name);
        self.d.tests.push(Word { name, span, op, expr });
        match self.t.weighted(&[6, 1, 1]) {
            0 => {}
            1 => {
                self.put("(");
                self.number();
                self.put(")");
            }
            _ => {
                self.put("(");
                self.reference();
                self.put(")");
            }
        }
    }

    pub fn expression(&mut self, depth: usize) {
        if depth == 0 {
            return self.primary(0);
        }
        match self.t.weighted(&[14, 4, 2, 1, 2, 3]) {
            0 => self.postfix(depth),
            1 => {
                self.postfix(depth - 1);
                self.bsp();
                let n = self.many(&[0, 8, 2, 1]);
                for _ in 0..n {
                    let op = *self.t.pick(&["+", "-", "*", "/", "//", "**", "~", "==", "!=", "<", "<=", ">", ">="]);
                    self.neutral(op, Class::Operator);
                    self.bsp();
                    self.postfix(depth - 1);
                }
            }
            2 => {
                self.postfix(depth - 1);
                self.sp();
                let max = if self.no_in { 2 } else { 3 };
                let op = ["and", "or", "in"][self.t.below(max)];
                if op == "in" && self.t.chance(30) {
                    self.keyword("not");
                    self.sp();
                }
                self.keyword(op);
                self.sp();
                self.postfix(depth - 1);
            }
            3 if self.t.chance(30) => {
                // a sign
                self.put("(");
                self.neutral("-", Class::Operator);
                self.reference();
                self.put(")");
            }
            3 => {
                self.keyword("not");
                self.sp();
                self.postfix(depth - 1);
            }
            4 => {
                // conditional expression; in `for` it would be the condition of the loop
                if self.no_in {
                    return self.postfix(depth - 1);
                }
                self.postfix(depth - 1);
                self.sp();
                self.keyword("if");
                self.sp();
                self.postfix(depth - 1);
                if self.t.chance(70) {
                    self.sp();
                    self.keyword("else");
                    self.sp();
                    self.postfix(depth - 1);
                }
            }
            _ => {
                self.postfix(depth - 1);
                self.test();
            }
        }
    }
}
