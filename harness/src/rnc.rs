//! Printer for the compact syntax. With an exhausted tape it prints one plain canonical form; the
//! tape selects lexical variations that the specification defines to be equivalent.

use crate::ast::*;
use crate::dt::Dt;
use crate::tape::Tape;

#[derive(Clone, Copy, Debug)]
pub struct Vary {
    /// white space and comments
    pub space: bool,
    pub annotations: bool,
    pub parens: bool,
    /// quoting, concatenation and escapes of literals
    pub literals: bool,
    /// backslash-quoted identifiers
    pub quote_ids: bool,
    /// choice of prefixes, default namespace and datatype prefixes, order of declarations
    pub decls: bool,
    /// file level: `grammar { }` around the content
    pub wrap: bool,
}
pub const PLAIN: Vary = Vary {
    space: false,
    annotations: false,
    parens: false,
    literals: false,
    quote_ids: false,
    decls: false,
    wrap: false,
};
pub const ALL: Vary = Vary {
    space: true,
    annotations: true,
    parens: true,
    literals: true,
    quote_ids: true,
    decls: true,
    wrap: true,
};
pub const DECLS: Vary = Vary {
    decls: true,
    ..PLAIN
};

pub const KEYWORDS: &[&str] = &[
    "attribute", "default", "datatypes", "div", "element", "empty", "external", "grammar", "include",
    "inherit", "list", "mixed", "namespace", "notAllowed", "parent", "start", "string", "text", "token",
];

pub struct Pr<'a, 'b> {
    t: &'a mut Tape<'b>,
    v: Vary,
    out: String,
    /// (prefix, uri)
    ns: Vec<(String, String)>,
    /// uri of unprefixed element names
    default: String,
    has_default: bool,
    xsd: Vec<String>,
    depth: usize,
    /// path of the file being printed, and the namespace each other file is made to inherit
    file: String,
    inherit: Inherit,
    /// the default namespace has to be declared, as the file may be included from anywhere
    explicit: bool,
}

/// file (path without extension) -> namespace it inherits from every file that includes it
pub type Inherit = std::collections::BTreeMap<String, String>;

pub fn body(b: &Body, t: &mut Tape, v: Vary) -> String {
    body_of(b, t, v, "main", &Inherit::new(), true)
}
fn body_of(b: &Body, t: &mut Tape, v: Vary, file: &str, inherit: &Inherit, main: bool) -> String {
    let mut p = Pr {
        file: file.to_string(),
        inherit: inherit.clone(),
        explicit: !main && (v.decls || !inherit.is_empty()),
        t,
        v,
        out: String::new(),
        ns: vec![],
        default: String::new(),
        has_default: false,
        xsd: vec!["xsd".into()],
        depth: 0,
    };
    p.file(b);
    p.out
}

pub fn plain(b: &Body) -> String {
    let mut t = Tape::new(&[]);
    body(b, &mut t, PLAIN)
}

/// all files of a schema: (path with extension, text)
pub fn files(s: &Sch, t: &mut Tape, v: Vary) -> Vec<(String, String)> {
    files_inherit(s, t, v, &Inherit::new())
}
pub fn files_inherit(s: &Sch, t: &mut Tape, v: Vary, inherit: &Inherit) -> Vec<(String, String)> {
    s.files
        .iter()
        .enumerate()
        .map(|(i, f)| (file_name(&f.name, "rnc"), body_of(&f.body, t, v, &f.name, inherit, i == 0)))
        .collect()
}

pub fn uris_of(b: &Body) -> Vec<String> {
    let mut u = vec![];
    walk_body(b, &mut |p| match p {
        P::Elem(nc, _) | P::Attr(nc, _) => nc.uris(&mut u),
        _ => {}
    });
    u.sort();
    u.dedup();
    u
}

/// does any attribute class need a prefix for "no namespace" (x:* with no namespace)?
fn needs_empty_prefix(nc: &Nc, attr: bool, default_nonempty: bool) -> bool {
    match nc {
        Nc::Name(n, _) => n.is_empty() && !attr && default_nonempty,
        Nc::Ns(n, e) => n.is_empty() || e.as_ref().is_some_and(|e| needs_empty_prefix(e, attr, default_nonempty)),
        Nc::Any(e) => e.as_ref().is_some_and(|e| needs_empty_prefix(e, attr, default_nonempty)),
        Nc::Choice(a, b) => needs_empty_prefix(a, attr, default_nonempty) || needs_empty_prefix(b, attr, default_nonempty),
    }
}

impl Pr<'_, '_> {
    fn yes(&mut self, on: bool, n: usize, d: usize) -> bool {
        on && self.t.chance(n, d)
    }
    fn w(&mut self, s: &str) {
        self.out.push_str(s)
    }
    /// mandatory white space
    fn sp(&mut self) {
        let s = self.space();
        self.w(s)
    }
    fn space(&mut self) -> &'static str {
        if self.yes(self.v.space, 1, 8) {
            *self.t.pick(&["\n", "\t", "  ", " # c { } \" '\n", "\r\n", "#\n", "\n\n# x\n # y\n "])
        } else {
            " "
        }
    }
    /// optional white space around the sign of concatenation
    fn cat_space(&mut self) -> &'static str {
        if self.t.chance(1, 3) {
            ""
        } else if self.yes(self.v.space, 1, 3) {
            *self.t.pick(&[" # c ' \" ~ \n", "#\n", "\n\t", "# x\n # y\n"])
        } else {
            self.space()
        }
    }
    /// optional white space
    fn op(&mut self) {
        if self.yes(self.v.space, 1, 4) {
            if self.t.chance(1, 2) {
                // nothing at all
            } else {
                self.sp()
            }
        } else {
            self.w(" ")
        }
    }
    /// optional white space, none in the canonical form
    fn no(&mut self) {
        if self.yes(self.v.space, 1, 12) {
            self.sp()
        }
    }
    fn nl(&mut self) {
        self.w("\n");
        for _ in 0..self.depth {
            self.w("  ");
        }
        if self.yes(self.v.space, 1, 12) {
            self.w("# comment\n");
        }
    }
    fn file(&mut self, b: &Body) {
        let mut uris = uris_of(b);
        let mut decls: Vec<String> = vec![];
        let inherited = self.inherit.get(&self.file).cloned();
        walk_paths(b, &mut |path| {
            if let Some(u) = self.inherit.get(&join_path(&self.file, path)) {
                if !uris.contains(u) {
                    uris.push(u.clone());
                }
            }
        });
        if inherited.is_some() && !self.yes(self.v.decls, 1, 3) {
            // the default namespace is not declared here
            self.default = inherited.clone().unwrap();
        } else if inherited.is_some() || self.explicit || self.yes(self.v.decls, 1, 2) {
            let mut cand = uris.clone();
            cand.retain(|u| u != XML_NS);
            if !cand.is_empty() {
                self.default = self.t.pick(&cand).clone();
                self.has_default = true;
            }
            if self.explicit || inherited.is_some() {
                self.has_default = true;
            }
        }
        // the first file inherits no namespace
        let outer = inherited.or((self.file == "main").then(String::new));
        let mut need_empty = self.inherit.values().any(|u| u.is_empty());
        let dn = !self.default.is_empty();
        walk_body(b, &mut |p| match p {
            P::Elem(nc, _) => need_empty |= needs_empty_prefix(nc, false, dn),
            P::Attr(nc, _) => need_empty |= needs_empty_prefix(nc, true, dn),
            _ => {}
        });
        const PFX: &[&str] = &["p", "q", "element", "_x", "a-b", "é", "string1", "start", "P", "Q", "A-b", "É"];
        let mut k = 0;
        let mut named_default = false;
        for u in &uris {
            if u == XML_NS {
                self.ns.push(("xml".into(), u.clone()));
                continue;
            }
            if u.is_empty() && !need_empty {
                continue;
            }
            k += 1;
            let mut p = if self.yes(self.v.decls, 1, 2) { self.t.pick(PFX).to_string() } else { format!("p{k}") };
            if self.ns.iter().any(|(q, _)| *q == p) {
                p = format!("p{k}");
            }
            if self.has_default && *u == self.default && self.t.chance(1, 2) {
                named_default = true;
                let l = self.uri_text(u, &outer);
                decls.push(format!("default namespace {p} = {l}"));
            } else {
                let l = self.uri_text(u, &outer);
                decls.push(format!("namespace {p} = {l}"));
            }
            self.ns.push((p, u.clone()));
        }
        if self.has_default && !named_default {
            let u = self.default.clone();
            let l = self.uri_text(&u, &outer);
            decls.push(format!("default namespace = {l}"));
        }
        if self.yes(self.v.decls, 1, 3) {
            let p = *self.t.pick(&["d", "xs", "datatypes", "p1", "D", "XS"]);
            let l = self.lit_text(XSD_LIB);
            decls.push(format!("datatypes {p} = {l}"));
            self.xsd.push(p.to_string());
        }
        if self.yes(self.v.decls, 1, 8) {
            decls.push("namespace unused = \"urn:unused\"".into());
        }
        // prefixes which other files may use with another meaning
        if self.yes(self.v.decls, 1, 6) {
            let p = *self.t.pick(PFX);
            if !self.ns.iter().any(|(q, _)| q == p) && !decls.iter().any(|d| d.starts_with(&format!("default namespace {p} "))) {
                decls.push(format!("namespace {p} = \"urn:other\""));
            }
        }
        if self.yes(self.v.decls, 1, 6) {
            let p = *self.t.pick(&["d", "xs", "datatypes", "p1", "D", "XS"]);
            if !self.xsd.iter().any(|q| q == p) {
                decls.push(format!("datatypes {p} = \"http://relaxng.org/ns/compatibility/datatypes/1.0\""));
            }
        }
        if self.v.decls && decls.len() > 1 {
            self.t.shuffle(&mut decls);
        }
        if self.yes(self.v.space, 1, 4) {
            self.sp();
        }
        for d in decls {
            self.w(&d);
            self.w("\n");
            if self.yes(self.v.space, 1, 8) {
                self.sp();
            }
        }
        match b {
            Body::Pat(p) => self.pat(p, 0),
            Body::Gram(items) => {
                if self.yes(self.v.wrap, 1, 3) {
                    self.pat(&P::Grammar(items.clone()), 0)
                } else {
                    self.items(items)
                }
            }
        }
        let k = if self.v.space { self.t.below(4) } else { 0 };
        match k {
            0 => self.w("\n"),
            1 => {}
            2 => self.w("\n# end\n"),
            _ => self.w(" # end"),
        }
    }
    fn items(&mut self, items: &[Item]) {
        for (i, it) in items.iter().enumerate() {
            if i > 0 {
                self.nl();
            }
            self.item(it);
        }
    }
    fn doc(&mut self) {
        if self.yes(self.v.annotations, 1, 10) {
            self.w("## documentation \"text\" {\n## more\n");
        }
        if self.yes(self.v.annotations, 1, 12) {
            self.annotation();
            self.sp();
        }
    }
    fn item(&mut self, it: &Item) {
        if self.yes(self.v.annotations, 1, 12) {
            // grammar-level annotation element
            self.w("q:note [ x = \"1\" \"text\" y:b [ ] ]");
            self.nl();
        }
        self.doc();
        match it {
            Item::Def(n, op, p) => {
                if n == "start" {
                    self.w("start");
                } else {
                    self.ident(n);
                }
                self.op();
                self.w(match op {
                    Op::Assign => "=",
                    Op::Choice => "|=",
                    Op::Inter => "&=",
                });
                self.op();
                self.depth += 1;
                self.pat(p, 0);
                self.depth -= 1;
            }
            Item::Div(v) => {
                self.w("div");
                self.block(v);
            }
            Item::Include(path, over) => {
                self.w("include");
                self.sp();
                self.lit(&file_name(path, "rnc"));
                self.inherit(path);
                if let Some(v) = over {
                    self.block(v);
                }
            }
        }
    }
    /// the literal of a namespace, or `inherit` if that is the same
    fn uri_text(&mut self, u: &str, outer: &Option<String>) -> String {
        if outer.as_deref() == Some(u) && self.yes(self.v.decls, 1, 2) {
            return "inherit".into();
        }
        self.lit_text(u)
    }
    fn inherit(&mut self, path: &str) {
        if let Some(u) = self.inherit.get(&join_path(&self.file, path)).cloned() {
            // the default namespace is inherited where nothing else is said
            if u == self.default && self.yes(self.v.decls, 1, 2) {
                return;
            }
            let p = self.prefix_of(&u);
            self.sp();
            self.w("inherit");
            self.op();
            self.w("=");
            self.op();
            self.w(&p);
        }
    }
    fn block(&mut self, v: &[Item]) {
        self.op();
        self.w("{");
        self.depth += 1;
        self.nl();
        self.items(v);
        self.depth -= 1;
        self.nl();
        self.w("}");
    }
    fn ident(&mut self, n: &str) {
        if KEYWORDS.contains(&n) || self.yes(self.v.quote_ids, 1, 6) {
            self.w("\\");
        }
        self.w(n);
    }
    fn annotation(&mut self) {
        let s = *self.t.pick(&[
            "[ a = \"1\" ]",
            "[]",
            "[ x:a = '1' b = \"2\" ~ \"3\" ]",
            "[ doc [ \"text\" ] ]",
            "[ a = \"1\" x:note [ k = \"v\" \"t\" b [ ] \"u\" ~ 'w' ] z [] ]",
        ]);
        self.w(s);
    }
    /// level: 0 any pattern, 1 operand of a connector, 2 operand of a postfix operator or except
    fn pat(&mut self, p: &P, level: usize) {
        let composite = match p {
            P::Group(v) | P::Inter(v) | P::Choice(v) => v.len() > 1,
            P::Data(_, Some(_)) => true,
            _ => false,
        };
        let postfix = matches!(p, P::Opt(_) | P::Star(_) | P::Plus(_));
        let need = (composite && level >= 1) || (postfix && level >= 2);
        let extra = self.yes(self.v.parens, 1, 8);
        if need || extra {
            self.w("(");
            self.no();
            self.pat(p, 0);
            self.no();
            self.w(")");
            return;
        }
        // an annotation binds to the first primary; it never changes the meaning
        // (at most one per primary, and the first operand of a connector prints its own)
        let first_inside = matches!(p, P::Group(_) | P::Inter(_) | P::Choice(_)) || postfix;
        if !first_inside && self.yes(self.v.annotations, 1, 14) {
            self.annotation();
            self.sp();
        }
        match p {
            P::Empty => self.w("empty"),
            P::Text => self.w("text"),
            P::NotAllowed => self.w("notAllowed"),
            P::Elem(nc, b) => {
                self.w("element");
                self.sp();
                self.nc(nc, false, 0);
                self.braces(b);
            }
            P::Attr(nc, b) => {
                self.w("attribute");
                self.sp();
                self.nc(nc, true, 0);
                self.braces(b);
            }
            P::Group(v) | P::Inter(v) | P::Choice(v) => {
                let c = match p {
                    P::Group(_) => ",",
                    P::Inter(_) => "&",
                    _ => "|",
                };
                if v.is_empty() {
                    panic!("empty connector");
                }
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        if c == "," { self.no() } else { self.op() }
                        self.w(c);
                        self.op();
                    }
                    self.pat(x, if v.len() > 1 { 1 } else { 0 });
                }
            }
            P::Opt(b) => self.post(b, "?"),
            P::Star(b) => self.post(b, "*"),
            P::Plus(b) => self.post(b, "+"),
            P::Mixed(b) => {
                self.w("mixed");
                self.braces(b);
            }
            P::List(b) => {
                self.w("list");
                self.braces(b);
            }
            P::Data(d, ex) => {
                self.dtname(d);
                if !d.params.is_empty() {
                    self.op();
                    self.w("{");
                    for (n, v) in &d.params {
                        self.sp();
                        if self.yes(self.v.annotations, 1, 14) {
                            self.annotation();
                            self.sp();
                        }
                        self.w(n);
                        self.op();
                        self.w("=");
                        self.op();
                        self.lit(&v.print());
                    }
                    self.op();
                    self.w("}");
                }
                if let Some(e) = ex {
                    // "-" is a name character
                    if d.params.is_empty() { self.sp() } else { self.op() }
                    self.w("-");
                    self.op();
                    self.pat(e, 2);
                }
            }
            P::Value(d, s) => {
                if let Some(d) = d {
                    self.dtname(d);
                    self.op();
                }
                self.lit(s);
            }
            P::Ref(n) => self.ident(n),
            P::Parent(n) => {
                self.w("parent");
                self.sp();
                self.ident(n);
            }
            P::Grammar(items) => {
                self.w("grammar");
                self.block(items);
            }
            P::External(path) => {
                self.w("external");
                self.sp();
                self.lit(&file_name(path, "rnc"));
                self.inherit(path);
            }
        }
        if !postfix && !composite && self.yes(self.v.annotations, 1, 20) {
            self.w(" >> f:note [ a = \"1\" ]");
        }
    }
    fn post(&mut self, b: &P, op: &str) {
        self.pat(b, 2);
        self.no();
        self.w(op);
    }
    fn braces(&mut self, b: &P) {
        self.op();
        self.w("{");
        self.op();
        self.pat(b, 0);
        self.op();
        self.w("}");
    }
    fn dtname(&mut self, d: &Dt) {
        if d.xsd {
            let x = self.xsd.clone();
            let p = if x.len() > 1 { self.t.pick(&x).clone() } else { x[0].clone() };
            self.w(&format!("{p}:{}", d.name));
        } else {
            self.w(d.name);
        }
    }
    fn prefix_of(&self, u: &str) -> String {
        self.ns.iter().find(|(_, x)| x == u).map(|(p, _)| p.clone()).unwrap_or_else(|| panic!("no prefix for {u:?}"))
    }
    fn nc(&mut self, nc: &Nc, attr: bool, level: usize) {
        let composite = match nc {
            Nc::Choice(..) => true,
            Nc::Ns(_, e) | Nc::Any(e) => e.is_some(),
            _ => false,
        };
        if (composite && level >= 1) || self.yes(self.v.parens, 1, 8) {
            self.w("(");
            self.no();
            self.nc(nc, attr, 0);
            self.no();
            self.w(")");
            return;
        }
        if !matches!(nc, Nc::Choice(..)) && self.yes(self.v.annotations, 1, 20) {
            self.annotation();
            self.sp();
        }
        match nc {
            Nc::Name(u, l) => {
                let unprefixed = if attr { u.is_empty() } else { *u == self.default };
                let prefixed_ok = self.ns.iter().any(|(_, x)| x == u);
                if unprefixed && !(prefixed_ok && self.yes(self.v.decls, 1, 3)) {
                    if self.yes(self.v.quote_ids, 1, 8) {
                        self.w("\\");
                    }
                    self.w(l);
                } else {
                    let p = self.prefix_of(u);
                    self.w(&format!("{p}:{l}"));
                }
            }
            Nc::Ns(u, e) => {
                let p = self.prefix_of(u);
                self.w(&format!("{p}:*"));
                if let Some(e) = e {
                    self.op();
                    self.w("-");
                    self.op();
                    self.nc(e, attr, 1);
                }
            }
            Nc::Any(e) => {
                self.w("*");
                if let Some(e) = e {
                    self.op();
                    self.w("-");
                    self.op();
                    self.nc(e, attr, 1);
                }
            }
            Nc::Choice(a, b) => {
                // choice associates either way
                self.nc(a, attr, if matches!(**a, Nc::Choice(..)) { 0 } else { 1 });
                self.op();
                self.w("|");
                self.op();
                self.nc(b, attr, 1);
            }
        }
        if !composite && self.yes(self.v.annotations, 1, 20) {
            self.w(" >> f:note []");
        }
    }
    fn lit(&mut self, s: &str) {
        let l = self.lit_text(s);
        self.w(&l);
    }
    pub fn lit_text(&mut self, s: &str) -> String {
        if self.yes(self.v.literals, 1, 6) {
            // concatenation
            let chars: Vec<char> = s.chars().collect();
            let n = self.t.below(chars.len() + 1);
            let a: String = chars[..n].iter().collect();
            let b: String = chars[n..].iter().collect();
            let a = self.segment(&a);
            let (x, y) = (self.cat_space(), self.cat_space());
            // (possibly in more than two parts)
            let b = if self.t.chance(1, 3) { self.lit_text(&b) } else { self.segment(&b) };
            return format!("{a}{x}~{y}{b}");
        }
        self.segment(s)
    }
    fn segment(&mut self, s: &str) -> String {
        let has_nl = s.contains(['\n', '\r']);
        let mut forms: Vec<String> = vec![];
        let escaped = s.replace("\\x", "\\x{5c}x");
        if escaped != s {
            // a backslash before x would start an escape
        }
        let s = &escaped[..];
        if !has_nl && !s.contains('"') {
            forms.push(format!("\"{s}\""));
        }
        if !has_nl && !s.contains('\'') {
            forms.push(format!("'{s}'"));
        }
        if !s.contains("\"\"\"") && !s.ends_with('"') {
            forms.push(format!("\"\"\"{s}\"\"\""));
        }
        if !s.contains("'''") && !s.ends_with('\'') {
            forms.push(format!("'''{s}'''"));
        }
        if forms.is_empty() {
            // split off the last character
            let mut it = s.chars();
            let last = it.next_back().unwrap();
            let head: String = it.collect();
            let a = self.segment(&head);
            let b = self.segment(&last.to_string());
            return format!("{a} ~ {b}");
        }
        if self.yes(self.v.literals, 1, 2) {
            let k = self.t.below(forms.len());
            let mut f = forms.swap_remove(k);
            if self.t.chance(1, 6) {
                // an escape of one plain character
                if let Some(c) = s.chars().find(|c| c.is_alphanumeric()) {
                    if !s.contains("\\") {
                        f = f.replacen(c, &format!("\\x{{{:x}}}", c as u32), 1);
                    }
                }
            }
            f
        } else {
            forms.swap_remove(0)
        }
    }
}
