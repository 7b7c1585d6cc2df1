//! Printer for the XML syntax (canonical form with an exhausted tape: every name with an explicit
//! ns attribute, every datatype with an explicit library).

use crate::ast::*;
use crate::dt::Dt;
use crate::tape::Tape;

pub const RNG_NS: &str = "http://relaxng.org/ns/structure/1.0";

#[derive(Clone, Copy, Debug)]
pub struct Vary {
    pub space: bool,
    /// comments, processing instructions, foreign elements and attributes
    pub foreign: bool,
    pub prefix: bool,
    pub div: bool,
    /// implicit groups and choices
    pub implicit: bool,
    /// position of ns and datatypeLibrary
    pub inherit: bool,
    /// name attribute or child, QNames
    pub names: bool,
    /// shorthand patterns expanded
    pub expand: bool,
}
pub const PLAIN: Vary = Vary {
    space: false,
    foreign: false,
    prefix: false,
    div: false,
    implicit: false,
    inherit: false,
    names: false,
    expand: false,
};
pub const ALL: Vary = Vary {
    space: true,
    foreign: true,
    prefix: true,
    div: true,
    implicit: true,
    inherit: true,
    names: true,
    expand: true,
};

pub struct Pr<'a, 'b> {
    t: &'a mut Tape<'b>,
    v: Vary,
    out: String,
    pfx: String,
    depth: usize,
    /// inherited ns and datatypeLibrary
    ns: Vec<String>,
    lib: Vec<String>,
    /// declared on the root: (prefix, uri)
    decl: Vec<(String, String)>,
    root: bool,
    file: String,
    inherit: crate::rnc::Inherit,
}

pub fn body(b: &Body, t: &mut Tape, v: Vary) -> String {
    body_of(b, t, v, "main", &crate::rnc::Inherit::new(), true)
}
fn body_of(b: &Body, t: &mut Tape, v: Vary, file: &str, inherit: &crate::rnc::Inherit, main: bool) -> String {
    // an included file must not depend on the namespace it inherits, unless that is known
    let ns = match inherit.get(file) {
        Some(u) => u.clone(),
        None if main => String::new(),
        None => "\u{0}".to_string(),
    };
    let pfx = if v.prefix && t.chance(1, 3) { t.pick(&["r", "rng", "x"]).to_string() } else { String::new() };
    let mut p = Pr {
        t,
        v,
        out: String::new(),
        pfx,
        depth: 0,
        ns: vec![ns],
        file: file.to_string(),
        inherit: inherit.clone(),
        lib: vec![String::new()],
        decl: vec![],
        root: true,
    };
    if p.yes(v.space, 1, 4) {
        p.out.push_str("<?xml version=\"1.0\"?>\n");
    }
    if p.yes(v.foreign, 1, 6) {
        p.out.push_str("<!-- schema -->\n");
    }
    if v.names {
        for (i, u) in crate::rnc::uris_of(b).into_iter().enumerate() {
            if !u.is_empty() && u != XML_NS {
                p.decl.push((format!("u{i}"), u));
            }
        }
    }
    match b {
        Body::Pat(x) => p.pat(x),
        Body::Gram(items) => p.pat_inner(&P::Grammar(items.clone())),
    }
    p.out.push('\n');
    p.out
}
pub fn plain(b: &Body) -> String {
    let mut t = Tape::new(&[]);
    body(b, &mut t, PLAIN)
}
pub fn files(s: &Sch, t: &mut Tape, v: Vary) -> Vec<(String, String)> {
    files_inherit(s, t, v, &crate::rnc::Inherit::new())
}
pub fn files_inherit(s: &Sch, t: &mut Tape, v: Vary, inherit: &crate::rnc::Inherit) -> Vec<(String, String)> {
    s.files
        .iter()
        .enumerate()
        .map(|(i, f)| (file_name(&f.name, "rng"), body_of(&f.body, t, v, &f.name, inherit, i == 0)))
        .collect()
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '"' => o.push_str("&quot;"),
            '\r' => o.push_str("&#13;"),
            c => o.push(c),
        }
    }
    o
}
fn esc_attr(s: &str) -> String {
    esc(s).replace('\n', "&#10;").replace('\t', "&#9;")
}

type Attrs = Vec<(String, String)>;

impl Pr<'_, '_> {
    fn yes(&mut self, on: bool, n: usize, d: usize) -> bool {
        on && self.t.chance(n, d)
    }
    fn nl(&mut self) {
        self.out.push('\n');
        for _ in 0..self.depth {
            self.out.push_str("  ");
        }
        // any number of foreign elements, comments and instructions
        let mut n = 0;
        while self.yes(self.v.foreign, 1, if n == 0 { 10 } else { 2 }) && n < 4 {
            n += 1;
            let s = *self.t.pick(&[
                "<!-- c -->",
                "<?pi x?>",
                "<f:x xmlns:f=\"urn:foreign\" a=\"1\">text <f:y/></f:x>",
                "<doc xmlns=\"urn:foreign\"><element name=\"zz\"/></doc>",
                "<a:documentation xmlns:a=\"http://relaxng.org/ns/compatibility/annotations/1.0\">d</a:documentation>",
            ]);
            self.out.push_str(s);
            if !self.yes(self.v.space, 1, 3) {
                self.out.push('\n');
            }
        }
    }
    fn q(&self, n: &str) -> String {
        if self.pfx.is_empty() { n.to_string() } else { format!("{}:{n}", self.pfx) }
    }
    fn open_tag(&mut self, name: &str, attrs: &Attrs, close: bool) {
        let mut all = attrs.clone();
        if self.root {
            self.root = false;
            let n = if self.pfx.is_empty() { "xmlns".to_string() } else { format!("xmlns:{}", self.pfx) };
            all.push((n, RNG_NS.into()));
            for (p, u) in self.decl.clone() {
                all.push((format!("xmlns:{p}"), u));
            }
        }
        // inherited attributes set here take effect for this element and its descendants
        if self.yes(self.v.inherit, 1, 6) && !all.iter().any(|(n, _)| n == "ns") {
            let u = self.t.pick(crate::schemagen::URIS).to_string();
            *self.ns.last_mut().unwrap() = u.clone();
            all.push(("ns".into(), u));
        }
        // a datatype whose library is inherited must not get another one
        let typed = all.iter().any(|(n, _)| n == "type");
        if self.yes(self.v.inherit, 1, 6) && !typed && !all.iter().any(|(n, _)| n == "datatypeLibrary") {
            let u = self.t.pick(&["", XSD_LIB]).to_string();
            *self.lib.last_mut().unwrap() = u.clone();
            all.push(("datatypeLibrary".into(), u));
        }
        if self.yes(self.v.foreign, 1, 12) {
            all.push(("xmlns:fo".into(), "urn:foreign".into()));
            all.push(("fo:bar".into(), "1 & 2".into()));
        }
        if self.yes(self.v.space, 1, 4) && all.len() > 1 {
            self.t.shuffle(&mut all);
        }
        let mut s = format!("<{}", self.q(name));
        for (n, v) in &all {
            let v = if (n == "name" || n == "type" || n == "combine") && self.yes(self.v.space, 1, 10) {
                format!(" {v}\n")
            } else {
                v.clone()
            };
            let sep = if self.yes(self.v.space, 1, 12) { "\n   " } else { " " };
            s.push_str(&format!("{sep}{n}=\"{}\"", esc_attr(&v).replace("&#10;", "\n")));
        }
        if close {
            if self.yes(self.v.space, 1, 4) {
                s.push_str(&format!("></{}>", self.q(name)));
            } else {
                s.push_str("/>");
            }
        } else {
            s.push('>');
        }
        self.out.push_str(&s);
    }
    /// runs f inside the element
    fn el(&mut self, name: &str, attrs: Attrs, f: &mut dyn FnMut(&mut Self)) {
        self.push_scope(&attrs);
        self.open_tag(name, &attrs, false);
        self.depth += 1;
        f(self);
        self.depth -= 1;
        self.nl();
        let c = format!("</{}>", self.q(name));
        self.out.push_str(&c);
        self.pop_scope();
    }
    fn push_scope(&mut self, attrs: &Attrs) {
        let mut ns = self.ns.last().unwrap().clone();
        let mut lib = self.lib.last().unwrap().clone();
        for (n, v) in attrs {
            if n == "ns" {
                ns = v.clone();
            }
            if n == "datatypeLibrary" {
                lib = v.clone();
            }
        }
        self.ns.push(ns);
        self.lib.push(lib);
    }
    fn pop_scope(&mut self) {
        self.ns.pop();
        self.lib.pop();
    }
    fn leaf(&mut self, name: &str, attrs: Attrs) {
        self.push_scope(&attrs);
        self.open_tag(name, &attrs, true);
        self.pop_scope();
    }
    fn text_el(&mut self, name: &str, attrs: Attrs, text: &str) {
        self.push_scope(&attrs);
        self.open_tag(name, &attrs, false);
        if self.yes(self.v.foreign, 1, 12) {
            self.out.push_str("<!-- c -->");
        }
        if self.yes(self.v.space, 1, 8) && !text.contains("]]>") && !text.contains('\r') {
            let s = format!("<![CDATA[{text}]]>");
            self.out.push_str(&s);
        } else {
            let s = esc(text);
            self.out.push_str(&s);
        }
        let c = format!("</{}>", self.q(name));
        self.out.push_str(&c);
        self.pop_scope();
    }
    fn a(n: &str, v: &str) -> (String, String) {
        (n.to_string(), v.to_string())
    }
    fn items(&mut self, items: &[Item]) {
        for it in items {
            self.nl();
            if self.yes(self.v.div, 1, 8) {
                self.el("div", vec![], &mut |s| {
                    s.nl();
                    s.item(it)
                });
            } else {
                self.item(it);
            }
        }
    }
    fn item(&mut self, it: &Item) {
        match it {
            Item::Def(n, op, p) => {
                let mut attrs = vec![];
                let el = if n == "start" {
                    "start"
                } else {
                    attrs.push(Self::a("name", n));
                    "define"
                };
                match op {
                    Op::Assign => {}
                    Op::Choice => attrs.push(Self::a("combine", "choice")),
                    Op::Inter => attrs.push(Self::a("combine", "interleave")),
                }
                let group_ok = n != "start";
                self.el(el, attrs, &mut |s| s.kids(p, group_ok));
            }
            Item::Div(v) => self.el("div", vec![], &mut |s| s.items(v)),
            Item::Include(path, over) => {
                let mut attrs = vec![Self::a("href", &file_name(path, "rng"))];
                let keep = self.v.inherit;
                self.file_ns(&mut attrs, path);
                match over {
                    None => self.leaf("include", attrs),
                    Some(v) => {
                        self.push_scope(&attrs);
                        self.open_tag("include", &attrs, false);
                        self.v.inherit = keep;
                        self.depth += 1;
                        self.items(v);
                        self.depth -= 1;
                        self.nl();
                        let c = format!("</{}>", self.q("include"));
                        self.out.push_str(&c);
                        self.pop_scope();
                    }
                }
                self.v.inherit = keep;
            }
        }
    }
    /// The namespace for a file to inherit: given with the reference, or that of an element around it (and then
    /// no other namespace may be added to the reference).
    fn file_ns(&mut self, attrs: &mut Attrs, path: &str) {
        if let Some(u) = self.inherit.get(&join_path(&self.file, path)).cloned() {
            if *self.ns.last().unwrap() == u && self.yes(self.v.inherit, 2, 3) {
                self.v.inherit = false;
            } else {
                attrs.push(Self::a("ns", &u));
            }
        }
    }
    /// content of an element whose several children form a group
    fn kids(&mut self, p: &P, group_ok: bool) {
        if let P::Group(v) = p {
            if v.len() > 1 && group_ok && self.yes(self.v.implicit, 2, 3) {
                for x in v {
                    self.nl();
                    self.pat(x);
                }
                return;
            }
        }
        self.nl();
        self.pat(p);
    }
    fn pat(&mut self, p: &P) {
        if self.yes(self.v.implicit, 1, 12) {
            // a connector with a single child means that child
            let n = *self.t.pick(&["group", "choice", "interleave"]);
            self.el(n, vec![], &mut |s| {
                s.nl();
                s.pat_inner(p)
            });
        } else {
            self.pat_inner(p)
        }
    }
    fn pat_inner(&mut self, p: &P) {
        match p {
            P::Empty => self.leaf("empty", vec![]),
            P::Text => self.leaf("text", vec![]),
            P::NotAllowed => self.leaf("notAllowed", vec![]),
            P::Elem(nc, b) => self.named("element", nc, b),
            P::Attr(nc, b) => self.named("attribute", nc, b),
            P::Group(v) | P::Inter(v) | P::Choice(v) => {
                let n = match p {
                    P::Group(_) => "group",
                    P::Inter(_) => "interleave",
                    _ => "choice",
                };
                self.el(n, vec![], &mut |s| {
                    for x in v {
                        s.nl();
                        s.pat(x);
                    }
                })
            }
            P::Opt(b) => {
                if self.yes(self.v.expand, 1, 4) {
                    self.el("choice", vec![], &mut |s| {
                        s.kids(b, false);
                        s.nl();
                        s.leaf("empty", vec![]);
                    })
                } else {
                    self.el("optional", vec![], &mut |s| s.kids(b, true))
                }
            }
            P::Star(b) => {
                if self.yes(self.v.expand, 1, 4) {
                    let wrap = *self.t.pick(&["optional", "choice"]);
                    self.el(wrap, vec![], &mut |s| {
                        s.nl();
                        s.el("oneOrMore", vec![], &mut |s| s.kids(b, true));
                        if wrap == "choice" {
                            s.nl();
                            s.leaf("empty", vec![]);
                        }
                    })
                } else {
                    self.el("zeroOrMore", vec![], &mut |s| s.kids(b, true))
                }
            }
            P::Plus(b) => self.el("oneOrMore", vec![], &mut |s| s.kids(b, true)),
            P::Mixed(b) => {
                if self.yes(self.v.expand, 1, 4) {
                    self.el("interleave", vec![], &mut |s| {
                        s.nl();
                        s.leaf("text", vec![]);
                        s.kids(b, false);
                    })
                } else {
                    self.el("mixed", vec![], &mut |s| s.kids(b, true))
                }
            }
            P::List(b) => self.el("list", vec![], &mut |s| s.kids(b, true)),
            P::Data(d, ex) => {
                let attrs = self.dt_attrs(d);
                if d.params.is_empty() && ex.is_none() {
                    self.leaf("data", attrs);
                    return;
                }
                self.el("data", attrs, &mut |s| {
                    for (n, v) in &d.params {
                        s.nl();
                        s.text_el("param", vec![Self::a("name", n)], &v.print());
                    }
                    if let Some(e) = ex {
                        s.nl();
                        s.el("except", vec![], &mut |s| match &**e {
                            P::Choice(v) if v.len() > 1 && s.yes(s.v.implicit, 1, 2) => {
                                for x in v {
                                    s.nl();
                                    s.pat(x);
                                }
                            }
                            e => {
                                s.nl();
                                s.pat(e)
                            }
                        });
                    }
                })
            }
            P::Value(d, s) => {
                let attrs = match d {
                    Some(d) => self.dt_attrs(d),
                    None => vec![],
                };
                self.text_el("value", attrs, s);
            }
            P::Ref(n) => self.leaf("ref", vec![Self::a("name", n)]),
            P::Parent(n) => self.leaf("parentRef", vec![Self::a("name", n)]),
            P::Grammar(items) => self.el("grammar", vec![], &mut |s| s.items(items)),
            P::External(path) => {
                let mut attrs = vec![Self::a("href", &file_name(path, "rng"))];
                let keep = self.v.inherit;
                self.file_ns(&mut attrs, path);
                self.leaf("externalRef", attrs);
                self.v.inherit = keep;
            }
        }
    }
    fn dt_attrs(&mut self, d: &Dt) -> Attrs {
        let lib = if d.xsd { XSD_LIB } else { "" };
        let mut attrs = vec![Self::a("type", d.name)];
        if !(*self.lib.last().unwrap() == lib && self.yes(self.v.inherit, 1, 2)) {
            attrs.push(Self::a("datatypeLibrary", lib));
        }
        attrs
    }
    fn named(&mut self, el: &str, nc: &Nc, b: &P) {
        let attr = el == "attribute";
        let omit_text = attr && *b == P::Text && self.yes(self.v.implicit, 1, 2);
        if let Nc::Name(u, l) = nc {
            let k = if self.v.names { self.t.below(4) } else { 0 };
            let qn = self.decl.iter().find(|(_, x)| x == u).map(|(p, _)| p.clone());
            let inherited = self.ns.last().unwrap() == u;
            let attrs = match k {
                1 if qn.is_some() => Some(vec![Self::a("name", &format!("{}:{l}", qn.unwrap()))]),
                1 if u == XML_NS => Some(vec![Self::a("name", &format!("xml:{l}"))]),
                2 if (attr && u.is_empty()) || (!attr && inherited) => Some(vec![Self::a("name", l)]),
                3 => None,
                _ => Some(vec![Self::a("name", l), Self::a("ns", u)]),
            };
            if let Some(attrs) = attrs {
                // an inherited-attribute variation must not add ns to a name without one
                let keep = self.v.inherit;
                let has_ns = attrs.iter().any(|(n, _)| n == "ns");
                if !has_ns {
                    self.v.inherit = false;
                }
                self.push_scope(&attrs);
                self.open_tag(el, &attrs, omit_text);
                self.v.inherit = keep;
                if !omit_text {
                    self.depth += 1;
                    self.kids(b, !attr);
                    self.depth -= 1;
                    self.nl();
                    let c = format!("</{}>", self.q(el));
                    self.out.push_str(&c);
                }
                self.pop_scope();
                return;
            }
        }
        self.el(el, vec![], &mut |s| {
            s.nl();
            s.nc(nc);
            if !omit_text {
                s.kids(b, !attr);
            }
        });
    }
    fn nc(&mut self, nc: &Nc) {
        match nc {
            Nc::Name(u, l) => {
                let qn = self.decl.iter().find(|(_, x)| x == u).map(|(p, _)| p.clone());
                let k = if self.v.names { self.t.below(3) } else { 0 };
                let keep = self.v.inherit;
                match k {
                    1 if qn.is_some() => {
                        self.text_el("name", vec![], &format!("{}:{l}", qn.unwrap()));
                    }
                    2 if self.ns.last().unwrap() == u => {
                        self.v.inherit = false;
                        let l = if self.yes(self.v.space, 1, 4) { format!(" {l}\n") } else { l.clone() };
                        self.text_el("name", vec![], &l);
                        self.v.inherit = keep;
                    }
                    _ => self.text_el("name", vec![Self::a("ns", u)], l),
                }
            }
            Nc::Ns(u, e) => {
                let mut attrs = vec![];
                let inherit = *self.ns.last().unwrap() == *u && self.yes(self.v.inherit, 1, 2);
                if !inherit {
                    attrs.push(Self::a("ns", u));
                }
                let keep = self.v.inherit;
                if inherit {
                    self.v.inherit = false;
                }
                self.push_scope(&attrs);
                self.open_tag("nsName", &attrs, e.is_none());
                self.v.inherit = keep;
                if let Some(e) = e {
                    self.nc_except(e);
                    let c = format!("</{}>", self.q("nsName"));
                    self.out.push_str(&c);
                }
                self.pop_scope();
            }
            Nc::Any(e) => match e {
                None => self.leaf("anyName", vec![]),
                Some(e) => self.el("anyName", vec![], &mut |s| s.nc_except(e)),
            },
            Nc::Choice(a, b) => self.el("choice", vec![], &mut |s| {
                s.nl();
                s.nc(a);
                s.nl();
                s.nc(b);
            }),
        }
    }
    fn nc_except(&mut self, e: &Nc) {
        self.nl();
        self.el("except", vec![], &mut |s| {
            if let Nc::Choice(a, b) = e {
                if s.yes(s.v.implicit, 1, 2) {
                    s.nl();
                    s.nc(a);
                    s.nl();
                    s.nc(b);
                    return;
                }
            }
            s.nl();
            s.nc(e);
        });
    }
}
