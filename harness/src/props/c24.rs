//! C24: the XML syntax parser accepts what RELAX NG's own grammar allows, and returns it.
//!
//! A tree of elements is generated production by production, edited, and judged by a reader of the
//! grammar of the full syntax (section 3 of the specification) which also lists what the syntax
//! tree has to state, in order and with positions.

use crate::dt;
use crate::rng::RNG_NS;
use crate::runner::{CaseResult, Cx, InLibrary, Prop};
use crate::tape::Tape;
use relaxng_syntax::types::*;
use relaxng_syntax::xml;
use std::ops::Range;

pub const PROP: Prop = Prop {
    id: "C24",
    tape_len: 900,
    quick: 600000,
    thorough: 15000000,
    run,
    fixed,
    rule: "distinct texts of at least 6 RELAX NG elements, of which the grammar decides whether they are schemas",
    assumptions: &[
        "names from a list of valid and a list of invalid ones; library URIs are absolute, empty, relative or have a fragment",
        "`anyName` and `nsName` within exceptions are not judged (a restriction of section 4.16, see C06)",
        "references to files are relative or absolute paths, `xml:base` as well",
        "the places of literals with CDATA sections are only compared with those of their elements",
    ],
    known: &[],
    shrink_iters: 4000,
};

#[derive(Clone, Debug)]
enum N {
    E(El),
    T(String),
    /// text in a CDATA section
    D(String),
    C(String),
    I(String),
}

#[derive(Clone, Debug, Default)]
struct El {
    pfx: String,
    name: String,
    /// qualified name and value, also declarations
    attrs: Vec<(String, String)>,
    kids: Vec<N>,
    // places, after printing
    range: Range<usize>,
    tag: Range<usize>,
    content: Range<usize>,
    vals: Vec<Range<usize>>,
}

const PATTERNS: &[&str] = &[
    "element", "attribute", "group", "interleave", "choice", "optional", "zeroOrMore", "oneOrMore", "list", "mixed", "ref", "parentRef", "empty", "text", "value", "data", "notAllowed",
    "externalRef", "grammar",
];
const OTHERS: &[&str] = &["param", "except", "start", "define", "div", "include", "name", "anyName", "nsName", "foo", "Element", "attributes"];
const GOOD: &[&str] = &["a", "b", "foo", "Zed", "zoo", "A", "_", "_x", "é", "a-b", "a.1", "名", "z0", "x\u{b7}", "start", "xml", "element", "\u{10000}b", "a\u{301}"];
const BAD: &[&str] = &["", " ", "1a", "-a", ".a", "a b", "a$", "\\start", ":a", "a:", "a:b:c", "×", "÷a", "a;", "a/b", "a\u{2014}", "@", "[", "a`", "a{", "{", "a^", "·", "\u{a0}a", "a\u{3000}", "\u{2003}"];
const LIBS: &[&str] = &["http://www.w3.org/2001/XMLSchema-datatypes", "", "urn:lib", "http://relaxng.org/ns/compatibility/datatypes/1.0"];
const BAD_LIBS: &[&str] = &["foo", "http://www.w3.org/2001/XMLSchema-datatypes#int", "/lib", "#", "urn:lib#"];
const URIS: &[&str] = &["urn:q", "", "urn:é", "http://x.org/?a&b", "urn:q"];
const ATTRS: &[&str] = &["name", "type", "combine", "href", "ns", "datatypeLibrary", "foo", "f:foo", "r:name", "xml:base", "xml:lang", "Name", "f:name"];
const HREFS: &[&str] = &["a.rng", "sub/b.rng", "/abs/c.rng", "d", "sub/deep/e.rng"];
const BASES: &[&str] = &["sub/", "sub/x.rng", "/base/", "/base/y.rng", "z.rng", "p/q/"];
const BLANK: &[&str] = &["", " ", "\n", "\t ", "\n  "];

struct G<'a, 'b> {
    t: &'a mut Tape<'b>,
    pfx: String,
    budget: i32,
}

fn is_common(name: &str) -> bool {
    name == "ns" || name == "datatypeLibrary"
}

impl G<'_, '_> {
    fn el(&mut self, name: &str) -> El {
        self.budget -= 1;
        let mut e = El { pfx: self.pfx.clone(), name: name.to_string(), ..El::default() };
        if self.t.chance(1, 10) {
            let v = self.t.pick(URIS).to_string();
            e.attrs.push(("ns".into(), v));
        }
        if self.t.chance(1, 10) {
            let v = self.t.pick(LIBS).to_string();
            e.attrs.push(("datatypeLibrary".into(), v));
        }
        if self.t.chance(1, 14) {
            let v = self.t.pick(BASES).to_string();
            e.attrs.push(("xml:base".into(), v));
        }
        if self.t.chance(1, 14) {
            let n = *self.t.pick(&["f:a", "f:name", "f:ns", "xml:lang", "q:combine"]);
            e.attrs.push((n.into(), self.t.pick(&["", "x", "a b"]).to_string()));
        }
        if self.t.chance(1, 25) {
            let n = *self.t.pick(&["q", "f", "w", "v"]);
            e.attrs.push((format!("xmlns:{n}"), format!("urn:{}", self.t.pick(&["1", "2"]))));
        }
        e
    }
    fn pad(&mut self, s: &str) -> String {
        if self.t.chance(1, 8) { format!("{}{s}{}", self.t.pick(BLANK), self.t.pick(BLANK)) } else { s.to_string() }
    }
    fn good(&mut self) -> String {
        good(self.t)
    }
    fn ncname(&mut self) -> String {
        let n = self.good();
        self.pad(&n)
    }
    fn qname(&mut self) -> String {
        let n = self.good();
        let n = if self.t.chance(1, 5) { format!("{}:{n}", self.t.pick(&["q", "f", "xml", "q"])) } else { n };
        self.pad(&n)
    }
    fn put(&mut self, e: &mut El, n: &str, v: String) {
        let i = self.t.below(e.attrs.len() + 1);
        e.attrs.insert(i, (n.into(), v));
    }
    /// foreign elements, comments and white space around
    fn fill(&mut self, e: &mut El, kids: Vec<El>) {
        for k in kids {
            self.noise(e);
            e.kids.push(N::E(k));
        }
        self.noise(e);
    }
    fn noise(&mut self, e: &mut El) {
        while self.t.chance(1, 6) {
            match self.t.below(6) {
                0 => e.kids.push(N::C(self.t.pick(&["", "x", "<a>", "é"]).to_string())),
                1 => e.kids.push(N::I("p a=\"b\"".into())),
                2 => {
                    let f = self.foreign();
                    e.kids.push(N::E(f));
                }
                _ => e.kids.push(N::T(self.t.pick(BLANK).to_string())),
            }
        }
    }
    fn foreign(&mut self) -> El {
        let mut f = El::default();
        let own = if self.t.chance(1, 3) { "" } else { "f" };
        f.pfx = own.into();
        f.name = self.t.pick(&["a", "name", "except", "choice", "documentation"]).to_string();
        if own.is_empty() {
            f.attrs.push(("xmlns".into(), self.t.pick(&["", "urn:other"]).to_string()));
        }
        if self.t.chance(1, 3) {
            f.attrs.push(("ns".into(), "x".into()));
        }
        if self.t.chance(1, 2) {
            f.kids.push(N::T("some text".into()));
        }
        if self.t.chance(1, 4) {
            f.kids.push(N::E(El { pfx: self.pfx.clone(), name: self.t.pick(&["text", "foo", "start"]).to_string(), ..El::default() }));
        }
        f
    }
    fn patterns(&mut self, most: usize) -> Vec<El> {
        let mut n = 1;
        while n < most && self.t.chance(1, 3) {
            n += 1;
        }
        (0..n).map(|_| self.pattern()).collect()
    }
    fn pattern(&mut self) -> El {
        let small = self.budget < 1;
        let name = match self.t.weighted(&if small { [0, 0, 0, 3, 2, 2, 0] } else { [5, 3, 8, 4, 3, 4, 1] }) {
            0 => "element",
            1 => "attribute",
            2 => *self.t.pick(&["group", "interleave", "choice", "optional", "zeroOrMore", "oneOrMore", "list", "mixed"]),
            3 => *self.t.pick(&["empty", "text", "notAllowed"]),
            4 => *self.t.pick(&["ref", "parentRef", "externalRef"]),
            5 => *self.t.pick(&["value", "data"]),
            _ => "grammar",
        };
        self.named(name)
    }
    fn named(&mut self, name: &str) -> El {
        let mut e = self.el(name);
        match name {
            "element" | "attribute" => {
                let mut kids = vec![];
                if self.t.chance(2, 3) {
                    let n = self.qname();
                    self.put(&mut e, "name", n);
                } else {
                    kids.push(self.name_class(2));
                }
                if name == "element" {
                    kids.extend(self.patterns(4));
                } else if self.t.chance(1, 2) {
                    kids.push(self.pattern());
                }
                self.fill(&mut e, kids);
            }
            "ref" | "parentRef" => {
                let n = self.ncname();
                self.put(&mut e, "name", n);
                self.fill(&mut e, vec![]);
            }
            "externalRef" => {
                let n = self.t.pick(HREFS).to_string();
                self.put(&mut e, "href", n);
                self.fill(&mut e, vec![]);
            }
            "empty" | "text" | "notAllowed" => self.fill(&mut e, vec![]),
            "value" => {
                if self.t.chance(1, 2) {
                    let n = self.ncname();
                    self.put(&mut e, "type", n);
                }
                self.string(&mut e);
            }
            "data" => {
                let n = if self.t.chance(1, 2) { self.t.pick(&["token", "string", "int", " token "]).to_string() } else { self.ncname() };
                self.put(&mut e, "type", n);
                let mut kids = vec![];
                while self.t.chance(1, 3) {
                    let mut p = self.el("param");
                    let n = self.ncname();
                    self.put(&mut p, "name", n);
                    self.string(&mut p);
                    kids.push(p);
                }
                if self.t.chance(1, 4) {
                    let mut x = self.el("except");
                    let k = self.patterns(3);
                    self.fill(&mut x, k);
                    kids.push(x);
                }
                self.fill(&mut e, kids);
            }
            "grammar" => {
                let kids = self.content(true);
                self.fill(&mut e, kids);
            }
            _ => {
                let kids = self.patterns(4);
                self.fill(&mut e, kids);
            }
        }
        e
    }
    fn string(&mut self, e: &mut El) {
        let n = self.t.weighted(&[1, 6, 1, 1]);
        for _ in 0..n {
            let s = self.t.pick(&["x", " two words ", "5", "a<b&c", "é", "\n", "]]", "'\""]).to_string();
            e.kids.push(if self.t.chance(1, 6) { N::D(s) } else { N::T(s) });
            if self.t.chance(1, 8) {
                e.kids.push(if self.t.chance(1, 2) { N::C("c".into()) } else { N::I("p".into()) });
            }
        }
    }
    fn combine(&mut self, e: &mut El) {
        if self.t.chance(1, 3) {
            let v = self.t.pick(&["choice", "interleave", "choice", " interleave "]).to_string();
            self.put(e, "combine", v);
        }
    }
    fn content(&mut self, includes: bool) -> Vec<El> {
        let mut v = vec![];
        while v.len() < 5 && self.t.chance(2, 3) {
            let e = match self.t.weighted(&if includes { [3, 4, 1, 2] } else { [3, 4, 1, 0] }) {
                0 => {
                    let mut e = self.el("start");
                    self.combine(&mut e);
                    let k = vec![self.pattern()];
                    self.fill(&mut e, k);
                    e
                }
                1 => {
                    let mut e = self.el("define");
                    let n = self.ncname();
                    self.put(&mut e, "name", n);
                    self.combine(&mut e);
                    let k = self.patterns(3);
                    self.fill(&mut e, k);
                    e
                }
                2 => {
                    let mut e = self.el("div");
                    let k = if self.budget < 1 { vec![] } else { self.content(includes) };
                    self.fill(&mut e, k);
                    e
                }
                _ => {
                    let mut e = self.el("include");
                    let n = self.t.pick(HREFS).to_string();
                    self.put(&mut e, "href", n);
                    let k = if self.budget < 1 { vec![] } else { self.content(false) };
                    self.fill(&mut e, k);
                    e
                }
            };
            v.push(e);
        }
        v
    }
    fn name_class(&mut self, depth: usize) -> El {
        match self.t.weighted(&if depth == 0 { [4, 1, 1, 0] } else { [4, 3, 3, 3] }) {
            0 => {
                let mut e = self.el("name");
                let n = self.qname();
                if self.t.chance(1, 8) {
                    let mut k = 1;
                    while !n.is_char_boundary(k) {
                        k += 1;
                    }
                    let k = k.min(n.len());
                    e.kids.push(N::T(n[..k].into()));
                    e.kids.push(N::C("c".into()));
                    e.kids.push(N::T(n[k..].into()));
                } else if self.t.chance(1, 12) {
                    e.kids.push(N::D(n));
                } else {
                    e.kids.push(N::T(n));
                }
                e
            }
            k @ (1 | 2) => {
                let mut e = self.el(if k == 1 { "anyName" } else { "nsName" });
                let mut kids = vec![];
                if self.t.chance(1, 2) {
                    let mut x = self.el("except");
                    let mut v = vec![];
                    while v.is_empty() || self.t.chance(1, 3) {
                        v.push(if self.t.chance(1, 4) && depth > 0 {
                            let mut c = self.el("choice");
                            let inner = vec![self.plain_name(), self.plain_name()];
                            self.fill(&mut c, inner);
                            c
                        } else {
                            self.plain_name()
                        });
                    }
                    self.fill(&mut x, v);
                    kids.push(x);
                }
                self.fill(&mut e, kids);
                e
            }
            _ => {
                let mut e = self.el("choice");
                let mut v = vec![self.name_class(depth - 1)];
                while self.t.chance(1, 2) {
                    v.push(self.name_class(depth - 1));
                }
                self.fill(&mut e, v);
                e
            }
        }
    }
    fn plain_name(&mut self) -> El {
        let mut e = self.el("name");
        let n = self.qname();
        e.kids.push(N::T(n));
        e
    }
}

// ------------------------------------------------------------------------------------ edits

fn count(e: &El) -> usize {
    1 + e.kids.iter().map(|k| if let N::E(k) = k { count(k) } else { 0 }).sum::<usize>()
}
fn nth<'a>(e: &'a mut El, n: &mut usize) -> Option<&'a mut El> {
    if *n == 0 {
        return Some(e);
    }
    *n -= 1;
    for k in &mut e.kids {
        if let N::E(k) = k {
            let c = count(k);
            if *n < c {
                return nth(k, n);
            }
            *n -= c;
        }
    }
    None
}

fn edit(t: &mut Tape, root: &mut El) -> &'static str {
    let pfx = root.pfx.clone();
    let total = count(root);
    let mut n = t.below(total);
    let copy = {
        let mut m = t.below(total);
        nth(root, &mut m).unwrap().clone()
    };
    let e = nth(root, &mut n).unwrap();
    let at = t.below(e.kids.len() + 1);
    match t.below(16) {
        0 | 1 => {
            if e.kids.is_empty() {
                return edit_attr(t, e);
            }
            e.kids.remove(at % e.kids.len());
            "node removed"
        }
        2 => {
            if e.kids.is_empty() {
                return edit_attr(t, e);
            }
            let k = at % e.kids.len();
            let c = e.kids[k].clone();
            e.kids.insert(k, c);
            "node repeated"
        }
        3 => {
            if e.kids.len() < 2 {
                return edit_attr(t, e);
            }
            let k = at % (e.kids.len() - 1);
            e.kids.swap(k, k + 1);
            "nodes exchanged"
        }
        4 => {
            if count(&copy) + total > 400 {
                return edit_attr(t, e);
            }
            e.kids.insert(at, N::E(copy));
            "element copied"
        }
        5 | 6 => {
            e.name = if t.chance(2, 3) { t.pick(PATTERNS) } else { t.pick(OTHERS) }.to_string();
            "element renamed"
        }
        7 | 8 => {
            let mut g = G { t, pfx, budget: 3 };
            let new = match g.t.below(4) {
                0 | 1 => g.pattern(),
                2 => g.name_class(1),
                _ => {
                    let n = *g.t.pick(OTHERS);
                    let mut x = g.el(n);
                    if n == "param" || n == "define" {
                        x.attrs.push(("name".into(), "a".into()));
                    }
                    if g.t.chance(1, 2) {
                        let k = g.pattern();
                        x.kids.push(N::E(k));
                    }
                    x
                }
            };
            e.kids.insert(at, N::E(new));
            "element inserted"
        }
        9 => {
            let s = t.pick(&["x", " ", "-", "\u{a0}", "text text", "5", "\u{3000}"]).to_string();
            e.kids.insert(at, if t.chance(1, 4) { N::D(s) } else { N::T(s) });
            "text inserted"
        }
        10 => {
            let mut g = G { t, pfx, budget: 3 };
            let f = g.foreign();
            e.kids.insert(at, N::E(f));
            "foreign element inserted"
        }
        11 => {
            let name = *t.pick(&["group", "div", "choice", "except", "grammar"]);
            let kids = std::mem::take(&mut e.kids);
            e.kids.push(N::E(El { pfx, name: name.into(), kids, ..El::default() }));
            "children wrapped"
        }
        12 => {
            let Some(k) = e.kids.iter().position(|k| matches!(k, N::E(_))) else { return edit_attr(t, e) };
            let N::E(c) = e.kids.remove(k) else { unreachable!() };
            for (i, x) in c.kids.into_iter().enumerate() {
                e.kids.insert(k + i, x);
            }
            "element replaced by its children"
        }
        _ => edit_attr(t, e),
    }
}

fn good(t: &mut Tape) -> String {
    match t.below(32) {
        0 | 1 => dt::edge_name(t, true),
        2 => t.pick(&["xmlns", "xml", "XMLNS", "xmlns.a"]).to_string(),
        _ => t.pick(GOOD).to_string(),
    }
}
fn bad_name(t: &mut Tape) -> String {
    if t.chance(1, 8) { dt::edge_name(t, false) } else { t.pick(BAD).to_string() }
}

fn edit_attr(t: &mut Tape, e: &mut El) -> &'static str {
    if ["name", "value", "param"].contains(&&e.name[..]) && t.chance(1, 4) {
        let s = if t.chance(1, 3) { good(t) } else { bad_name(t) };
        e.kids = vec![N::T(s)];
        return "text replaced";
    }
    let some = e.attrs.iter().enumerate().filter(|(_, (n, _))| !n.starts_with("xmlns")).map(|(i, _)| i).collect::<Vec<_>>();
    if !some.is_empty() && t.chance(1, 2) {
        let i = *t.pick(&some);
        if t.chance(1, 4) {
            e.attrs.remove(i);
            return "attribute removed";
        }
        let v = value_for(t, &e.attrs[i].0);
        e.attrs[i].1 = v;
        return "attribute value replaced";
    }
    let n = *t.pick(ATTRS);
    if e.attrs.iter().any(|a| a.0 == n) {
        return "nothing";
    }
    let v = value_for(t, n);
    e.attrs.push((n.into(), v));
    "attribute added"
}

fn value_for(t: &mut Tape, name: &str) -> String {
    match name {
        "ns" => t.pick(URIS),
        "datatypeLibrary" => if t.chance(1, 2) { t.pick(BAD_LIBS) } else { t.pick(LIBS) },
        "href" => t.pick(HREFS),
        "xml:base" => t.pick(BASES),
        "combine" => t.pick(&["choice", "interleave", "", "group", "Choice", "choice interleave", "choice,"]),
        "name" if t.chance(1, 4) => t.pick(&["q:a", "u:a", "f:é", "q:1", "q :a", "q: a", ":", "xmlns:a", "r:a", "q:a:b", "Q:a"]),
        _ if t.chance(1, 2) => return bad_name(t),
        _ => return good(t),
    }
    .to_string()
}

// ------------------------------------------------------------------------------------ printing

fn print(e: &mut El, out: &mut String, t: &mut Tape) {
    let start = out.len();
    out.push('<');
    let q = if e.pfx.is_empty() { e.name.clone() } else { format!("{}:{}", e.pfx, e.name) };
    e.tag = out.len()..out.len() + q.len();
    out.push_str(&q);
    e.vals.clear();
    for (n, v) in &e.attrs {
        out.push_str(if t.chance(1, 12) { "\n  " } else { " " });
        out.push_str(n);
        out.push_str(if t.chance(1, 12) { " = " } else { "=" });
        let quote = if t.chance(1, 3) { '\'' } else { '"' };
        out.push(quote);
        let a = out.len();
        for c in v.chars() {
            match c {
                '<' => out.push_str("&lt;"),
                '&' => out.push_str("&amp;"),
                '"' if quote == '"' => out.push_str("&quot;"),
                '\'' if quote == '\'' => out.push_str("&apos;"),
                // white space would become spaces, which is as good around names
                c if t.chance(1, 40) => out.push_str(&format!("&#{};", c as u32)),
                c => out.push(c),
            }
        }
        e.vals.push(a..out.len());
        out.push(quote);
    }
    if t.chance(1, 15) {
        out.push(' ');
    }
    if e.kids.is_empty() && !t.chance(1, 4) {
        out.push_str("/>");
        e.range = start..out.len();
        e.content = e.range.clone();
        return;
    }
    out.push('>');
    let a = out.len();
    for k in &mut e.kids {
        match k {
            N::E(k) => print(k, out, t),
            N::T(s) => {
                for c in s.chars() {
                    match c {
                        '<' => out.push_str("&lt;"),
                        '&' => out.push_str("&amp;"),
                        '>' => out.push_str("&gt;"),
                        ']' => out.push_str("&#93;"),
                        c if t.chance(1, 40) => out.push_str(&format!("&#x{:x};", c as u32)),
                        c => out.push(c),
                    }
                }
            }
            N::D(s) => {
                out.push_str("<![CDATA[");
                out.push_str(s);
                out.push_str("]]>");
            }
            N::C(s) => {
                out.push_str("<!--");
                out.push_str(s);
                out.push_str("-->");
            }
            N::I(s) => {
                out.push_str("<?");
                out.push_str(s);
                out.push_str("?>");
            }
        }
    }
    e.content = a..out.len();
    out.push_str("</");
    out.push_str(&q);
    out.push('>');
    e.range = start..out.len();
    // without any node inside, the content is the element
    if e.content.is_empty() {
        e.content = e.range.clone();
    }
}

// ------------------------------------------------------------------------------------ the grammar

#[derive(Clone, Debug, PartialEq)]
struct Ev {
    what: &'static str,
    val: String,
    span: Option<Range<usize>>,
}
enum No {
    /// not a schema
    Bad(String),
    /// not decided by the grammar
    Unsure,
}
type Yes<T> = Result<T, No>;

fn bad<T>(s: impl Into<String>) -> Yes<T> {
    Err(No::Bad(s.into()))
}

#[derive(Clone, Default)]
struct Scope {
    decl: Vec<(String, String)>,
    ns: Option<(String, Range<usize>)>,
    lib: Option<(String, Range<usize>)>,
    base: Vec<String>,
}

struct Reader {
    ev: Vec<Ev>,
}

impl Scope {
    fn enter(&self, e: &El) -> Yes<Scope> {
        let mut s = self.clone();
        for (n, v) in &e.attrs {
            if n == "xmlns" {
                s.decl.push((String::new(), v.clone()));
            } else if let Some(p) = n.strip_prefix("xmlns:") {
                s.decl.push((p.into(), v.clone()));
            }
        }
        for (i, (n, v)) in e.attrs.iter().enumerate() {
            if let Some((p, _)) = n.split_once(':') {
                if p != "xmlns" && s.lookup(p).is_none() {
                    return bad("undeclared prefix of an attribute");
                }
            }
            // two spellings of a name
            if e.attrs[..i].iter().any(|(m, _)| m == n || s.same(m, n)) {
                return bad("duplicate attribute");
            }
            match &n[..] {
                "ns" => s.ns = Some((v.clone(), e.vals[i].clone())),
                "datatypeLibrary" => s.lib = Some((v.clone(), e.vals[i].clone())),
                "xml:base" => s.base.push(v.clone()),
                _ => {}
            }
        }
        if !e.pfx.is_empty() && s.lookup(&e.pfx).is_none() {
            return bad("undeclared prefix of an element");
        }
        Ok(s)
    }
    fn same(&self, a: &str, b: &str) -> bool {
        let f = |n: &str| n.split_once(':').filter(|(p, _)| *p != "xmlns").and_then(|(p, l)| Some((self.lookup(p)?, l.to_string())));
        f(a).is_some() && f(a) == f(b)
    }
    fn lookup(&self, p: &str) -> Option<String> {
        if p == "xml" {
            return Some("http://www.w3.org/XML/1998/namespace".into());
        }
        self.decl.iter().rev().find(|d| d.0 == p).map(|d| d.1.clone())
    }
    fn is_rng(&self, e: &El) -> bool {
        self.lookup(&e.pfx).as_deref() == Some(RNG_NS)
    }
    fn resolve(&self, href: &str) -> String {
        let mut r = String::new();
        for b in self.base.iter().map(|b| &b[..]).chain([href]) {
            r = match r.rfind('/') {
                _ if b.starts_with('/') => b.to_string(),
                Some(k) => format!("{}{b}", &r[..k + 1]),
                None => b.to_string(),
            };
        }
        r
    }
}

impl Reader {
    fn put(&mut self, what: &'static str, val: impl Into<String>, span: Option<Range<usize>>) {
        self.ev.push(Ev { what, val: val.into(), span });
    }
    /// well-formed, below elements of other namespaces
    fn well_formed(&self, e: &El, s: &Scope) -> Yes<()> {
        for k in &e.kids {
            if let N::E(k) = k {
                self.well_formed(k, &s.enter(k)?)?;
            }
        }
        Ok(())
    }
    /// the attributes; the RELAX NG children; no text
    fn kids<'e>(&self, e: &'e El, s: &Scope, attrs: &[&str]) -> Yes<Vec<&'e El>> {
        self.attrs(e, s, attrs)?;
        let mut v = vec![];
        for k in &e.kids {
            match k {
                N::E(k) => {
                    let inner = s.enter(k)?;
                    if inner.is_rng(k) {
                        v.push(k);
                    } else {
                        self.well_formed(k, &inner)?;
                    }
                }
                N::T(x) | N::D(x) => {
                    if !x.chars().all(|c| " \t\r\n".contains(c)) {
                        return bad(format!("text in {}", e.name));
                    }
                }
                _ => {}
            }
        }
        Ok(v)
    }
    fn attrs(&self, e: &El, s: &Scope, attrs: &[&str]) -> Yes<()> {
        for (n, v) in &e.attrs {
            match n.split_once(':') {
                Some(("xmlns", _)) => {}
                Some((p, _)) => {
                    if s.lookup(p).as_deref() == Some(RNG_NS) {
                        return bad(format!("attribute {n} in the namespace of RELAX NG"));
                    }
                }
                None if n == "xmlns" || attrs.contains(&&n[..]) => {}
                None if is_common(n) => {
                    if n == "datatypeLibrary" && !v.is_empty() && (v.contains('#') || !v.contains(':')) {
                        return bad("datatypeLibrary");
                    }
                }
                None => return bad(format!("attribute {n} of {}", e.name)),
            }
        }
        Ok(())
    }
    /// trimmed value and place
    fn attr(&self, e: &El, n: &str) -> Option<(String, Range<usize>)> {
        let i = e.attrs.iter().position(|a| a.0 == n)?;
        Some((e.attrs[i].1.trim_matches([' ', '\t', '\r', '\n']).to_string(), e.vals[i].clone()))
    }
    fn need(&self, e: &El, n: &str) -> Yes<(String, Range<usize>)> {
        self.attr(e, n).map_or_else(|| bad(format!("{} without {n}", e.name)), Ok)
    }
    fn nc(&self, v: (String, Range<usize>)) -> Yes<(String, Range<usize>)> {
        if dt::ncname(&v.0) { Ok(v) } else { bad(format!("name {:?}", v.0)) }
    }
    /// the text of an element which has nothing else
    fn text(&self, e: &El, s: &Scope, attrs: &[&str]) -> Yes<(String, Option<Range<usize>>)> {
        self.attrs(e, s, attrs)?;
        let mut r = String::new();
        let mut exact = true;
        for k in &e.kids {
            match k {
                N::E(k) => {
                    self.well_formed(k, &s.enter(k)?)?;
                    return bad(format!("element in {}", e.name));
                }
                N::T(x) => r.push_str(x),
                N::D(x) => {
                    r.push_str(x);
                    exact = false;
                }
                _ => {}
            }
        }
        // empty text is no node
        if e.kids.iter().any(|k| matches!(k, N::T(x) if x.is_empty())) {
            exact = false;
        }
        Ok((r, exact.then(|| e.content.clone())))
    }

    fn pattern(&mut self, e: &El, s: &Scope) -> Yes<()> {
        let s = &s.enter(e)?;
        match &e.name[..] {
            "element" => {
                let kids = self.kids(e, s, &["name"])?;
                self.put("element", "", Some(e.tag.clone()));
                let rest = self.named(e, s, kids, false)?;
                self.seq(&rest, s, "element")?;
            }
            "attribute" => {
                let kids = self.kids(e, s, &["name"])?;
                self.put("attribute", "", Some(e.tag.clone()));
                let rest = self.named(e, s, kids, true)?;
                match rest[..] {
                    [] => self.put("text", "", None),
                    [p] => self.pattern(p, s)?,
                    _ => return bad("attribute with two patterns"),
                }
            }
            "group" => {
                let kids = self.kids(e, s, &[])?;
                self.put("group", "", None);
                if kids.is_empty() {
                    return bad("empty group");
                }
                for k in kids {
                    self.pattern(k, s)?;
                }
                self.put("end", "", None);
            }
            n @ ("interleave" | "choice") => {
                let kids = self.kids(e, s, &[])?;
                let kids: Vec<_> = kids.into_iter().collect();
                self.many(&kids, s, if n == "choice" { "choice" } else { "interleave" })?;
            }
            n @ ("optional" | "zeroOrMore" | "oneOrMore" | "list" | "mixed") => {
                let kids = self.kids(e, s, &[])?;
                self.put(PATTERNS.iter().find(|p| **p == n).unwrap(), "", None);
                self.seq(&kids, s, n)?;
            }
            n @ ("ref" | "parentRef") => {
                if !self.kids(e, s, &["name"])?.is_empty() {
                    return bad("content of ref");
                }
                let (v, at) = self.nc(self.need(e, "name")?)?;
                self.put(if n == "ref" { "ref" } else { "parentRef" }, definition(v), Some(at));
            }
            n @ ("empty" | "text" | "notAllowed") => {
                if !self.kids(e, s, &[])?.is_empty() {
                    return bad(format!("content of {n}"));
                }
                self.put(PATTERNS.iter().find(|p| **p == n).unwrap(), "", None);
            }
            "value" => {
                let (v, at) = self.text(e, s, &["type"])?;
                self.put("value", "", None);
                if let Some(ty) = self.attr(e, "type") {
                    self.datatype(self.nc(ty)?, s);
                }
                self.put("literal", v, at);
            }
            "data" => {
                let kids = self.kids(e, s, &["type"])?;
                self.put("data", "", None);
                self.datatype(self.nc(self.need(e, "type")?)?, s);
                let mut except = false;
                for k in kids {
                    let s = &s.enter(k)?;
                    match &k.name[..] {
                        "param" if !except => {
                            let (v, at) = self.text(k, s, &["name"])?;
                            let n = self.nc(self.need(k, "name")?)?;
                            self.put("param", "", Some(k.range.clone()));
                            self.put("name", n.0, Some(n.1));
                            self.put("literal", v, at);
                        }
                        "except" if !except => {
                            except = true;
                            let kids = self.kids(k, s, &[])?;
                            self.put("except", "", None);
                            self.many(&kids, s, "choice")?;
                        }
                        n => return bad(format!("{n} in data")),
                    }
                }
                self.put("end", "", None);
            }
            "externalRef" => {
                if !self.kids(e, s, &["href"])?.is_empty() {
                    return bad("content of externalRef");
                }
                let i = e.attrs.iter().position(|a| a.0 == "href");
                let Some(i) = i else { return bad("externalRef without href") };
                self.put("externalRef", s.resolve(&e.attrs[i].1), Some(e.vals[i].clone()));
                self.inherit(s);
            }
            "grammar" => self.grammar(e, s)?,
            n => return bad(format!("{n} instead of a pattern")),
        }
        Ok(())
    }
    fn grammar(&mut self, e: &El, s: &Scope) -> Yes<()> {
        let kids = self.kids(e, s, &[])?;
        self.put("grammar", "", Some(e.range.clone()));
        self.content(&kids, s, true)
    }
    fn inherit(&mut self, s: &Scope) {
        if let Some((v, at)) = &s.ns {
            self.put("inherit", v.clone(), Some(at.clone()));
        }
    }
    fn datatype(&mut self, (v, at): (String, Range<usize>), s: &Scope) {
        match &s.lib {
            Some((l, lat)) if !l.is_empty() => {
                self.put("library", l.clone(), Some(lat.clone()));
                self.put("type", v, Some(at));
            }
            _ => {
                self.put("library", "", None);
                self.put("type", v, None);
            }
        }
    }
    fn seq(&mut self, kids: &[&El], s: &Scope, of: &str) -> Yes<()> {
        match kids {
            [] => return bad(format!("{of} without content")),
            [k] => self.pattern(k, s)?,
            _ => {
                self.put("sequence", "", None);
                for k in kids {
                    self.pattern(k, s)?;
                }
                self.put("end", "", None);
            }
        }
        Ok(())
    }
    /// children of a choice or an interleave; nested ones of the same kind are one
    fn many(&mut self, kids: &[&El], s: &Scope, kind: &'static str) -> Yes<()> {
        match kids {
            [] => bad(format!("{kind} without content")),
            [k] => self.pattern(k, s),
            _ => {
                self.put(kind, "", None);
                for k in kids {
                    self.operand(k, s, kind)?;
                }
                self.put("end", "", None);
                Ok(())
            }
        }
    }
    fn operand(&mut self, k: &El, s: &Scope, kind: &'static str) -> Yes<()> {
        // a choice of one pattern is that pattern
        if k.name == "choice" || k.name == "interleave" {
            let inner = s.enter(k)?;
            let kids = self.kids(k, &inner, &[])?;
            if kids.len() == 1 || (k.name == kind && !kids.is_empty()) {
                for x in kids {
                    self.operand(x, &inner, kind)?;
                }
                return Ok(());
            }
        }
        self.pattern(k, s)
    }
    fn named<'e>(&mut self, e: &El, s: &Scope, kids: Vec<&'e El>, attribute: bool) -> Yes<Vec<&'e El>> {
        if let Some((v, at)) = self.attr(e, "name") {
            let own = match attribute {
                false => s.ns.clone().map(|(v, at)| (v, Some(at))),
                // not inherited
                true => Some(e.attrs.iter().position(|a| a.0 == "ns").map_or((String::new(), None), |i| (e.attrs[i].1.clone(), Some(e.vals[i].clone())))),
            };
            if attribute && own.as_ref().is_some_and(|o| (v.trim() == "xmlns" && o.0.trim().is_empty()) || o.0 == "http://www.w3.org/2000/xmlns") {
                return Err(No::Unsure);
            }
            self.qname(v, Some(at), s, own)?;
            Ok(kids)
        } else {
            let Some(first) = kids.first() else { return bad("no name") };
            self.name_class(first, s, false)?;
            Ok(kids[1..].to_vec())
        }
    }
    fn qname(&mut self, v: String, at: Option<Range<usize>>, s: &Scope, ns: Option<(String, Option<Range<usize>>)>) -> Yes<()> {
        match v.split_once(':') {
            Some((p, l)) => {
                if !dt::ncname(p) || !dt::ncname(l) {
                    return bad(format!("name {v:?}"));
                }
                let Some(u) = s.lookup(p) else { return bad(format!("prefix of {v:?}")) };
                self.put("ns", u, at.clone());
                self.put("name", l, at);
            }
            None => {
                if !dt::ncname(&v) {
                    return bad(format!("name {v:?}"));
                }
                match ns {
                    Some((u, at)) => self.put("ns", u, at),
                    None => self.put("ns", "(inherited)", None),
                }
                self.put("name", v, at);
            }
        }
        Ok(())
    }
    fn name_class(&mut self, e: &El, s: &Scope, excepted: bool) -> Yes<()> {
        let s = &s.enter(e)?;
        match &e.name[..] {
            "name" => {
                let (v, at) = self.text(e, s, &[])?;
                let v = v.trim_matches([' ', '\t', '\r', '\n']).to_string();
                self.qname(v, at, s, s.ns.clone().map(|(v, at)| (v, Some(at))))
            }
            n @ ("anyName" | "nsName") => {
                if excepted {
                    return Err(No::Unsure);
                }
                let kids = self.kids(e, s, &[])?;
                if n == "anyName" {
                    self.put("anyName", "", None);
                } else {
                    match &s.ns {
                        Some((u, at)) => self.put("nsName", u.clone(), Some(at.clone())),
                        None => self.put("nsName", "(inherited)", None),
                    }
                }
                match kids[..] {
                    [] => {}
                    [x] if x.name == "except" => {
                        let s = &s.enter(x)?;
                        let kids = self.kids(x, s, &[])?;
                        self.put("except", "", None);
                        self.names(&kids, s, true)?;
                    }
                    _ => return bad(format!("content of {n}")),
                }
                self.put("end", "", None);
                Ok(())
            }
            "choice" => {
                let kids = self.kids(e, s, &[])?;
                self.names(&kids, s, excepted)
            }
            n => bad(format!("{n} instead of a name class")),
        }
    }
    fn names(&mut self, kids: &[&El], s: &Scope, excepted: bool) -> Yes<()> {
        match kids {
            [] => bad("no names"),
            [k] => self.name_class(k, s, excepted),
            _ => {
                self.put("names", "", None);
                for k in kids {
                    self.name_operand(k, s, excepted)?;
                }
                self.put("end", "", None);
                Ok(())
            }
        }
    }
    fn name_operand(&mut self, k: &El, s: &Scope, excepted: bool) -> Yes<()> {
        if k.name == "choice" {
            let inner = s.enter(k)?;
            let kids = self.kids(k, &inner, &[])?;
            if kids.is_empty() {
                return bad("empty choice of names");
            }
            for x in kids {
                self.name_operand(x, &inner, excepted)?;
            }
            return Ok(());
        }
        self.name_class(k, s, excepted)
    }
    fn content(&mut self, kids: &[&El], s: &Scope, includes: bool) -> Yes<()> {
        for e in kids {
            let s = &s.enter(e)?;
            match &e.name[..] {
                n @ ("start" | "define") => {
                    let inner = self.kids(e, s, if n == "start" { &["combine"] } else { &["name", "combine"] })?;
                    self.put("define", "", Some(e.range.clone()));
                    if n == "start" {
                        self.put("name", "start", Some(e.tag.clone()));
                    } else {
                        let (v, at) = self.nc(self.need(e, "name")?)?;
                        self.put("name", definition(v), Some(at));
                    }
                    match self.attr(e, "combine").map(|v| v.0) {
                        None => self.put("assign", "", None),
                        Some(v) if v == "choice" || v == "interleave" => self.put("combine", v, None),
                        _ => return bad("combine"),
                    }
                    if n == "start" && inner.len() > 1 {
                        return bad("start with two patterns");
                    }
                    self.seq(&inner, s, n)?;
                }
                "div" => {
                    let inner = self.kids(e, s, &[])?;
                    self.put("div", "", None);
                    self.content(&inner, s, includes)?;
                }
                "include" if includes => {
                    let inner = self.kids(e, s, &["href"])?;
                    let Some(i) = e.attrs.iter().position(|a| a.0 == "href") else { return bad("include without href") };
                    self.put("include", s.resolve(&e.attrs[i].1), Some(e.vals[i].clone()));
                    self.inherit(s);
                    self.content(&inner, s, false)?;
                }
                n => return bad(format!("{n} in a grammar")),
            }
        }
        self.put("end", "", None);
        Ok(())
    }
    fn root(&mut self, e: &El) -> Yes<()> {
        let s = Scope::default();
        let inner = s.enter(e)?;
        if !inner.is_rng(e) {
            return bad("root");
        }
        self.pattern(e, &s)
    }
}

/// "start" is the name of the start of a grammar, and may be that of a definition
fn definition(v: String) -> String {
    if v == "start" { "\\start".into() } else { v }
}

// ------------------------------------------------------------------------------------ the tree

#[derive(Default)]
struct Tree {
    ev: Vec<Ev>,
}
impl Tree {
    fn put(&mut self, what: &'static str, val: impl Into<String>, span: Option<Range<usize>>) {
        self.ev.push(Ev { what, val: val.into(), span });
    }
    fn chain<'p>(p: &'p Pattern, kind: &str, out: &mut Vec<&'p Pattern>) {
        match (p, kind) {
            (Pattern::ChoicePair(a, b), "choice") | (Pattern::InterleavePair(a, b), "interleave") => {
                Self::chain(a, kind, out);
                Self::chain(b, kind, out);
            }
            // an operand which is a sequence cannot be written without <group>
            (Pattern::ListPair(a, b), "sequence") => {
                Self::chain(a, kind, out);
                out.push(b);
            }
            _ => out.push(p),
        }
    }
    fn group(&mut self, p: &Pattern, kind: &'static str) {
        let mut v = vec![];
        Self::chain(p, kind, &mut v);
        self.put(kind, "", None);
        for p in v {
            self.pattern(p);
        }
        self.put("end", "", None);
    }
    fn pattern(&mut self, p: &Pattern) {
        match p {
            Pattern::Element(e) => {
                self.put("element", "", Some(e.span.clone()));
                self.name_class(&e.name_class);
                self.pattern(&e.pattern);
            }
            Pattern::Attribute(e) => {
                self.put("attribute", "", Some(e.span.clone()));
                self.name_class(&e.name_class);
                self.pattern(&e.pattern);
            }
            Pattern::List(l) => {
                self.put("list", "", None);
                self.pattern(&l.0);
            }
            Pattern::Mixed(l) => {
                self.put("mixed", "", None);
                self.pattern(&l.0);
            }
            Pattern::Identifier(i) => self.put("ref", i.1.clone(), Some(i.0.clone())),
            Pattern::Parent(i) => self.put("parentRef", i.1.clone(), Some(i.0.clone())),
            Pattern::Empty => self.put("empty", "", None),
            Pattern::Text => self.put("text", "", None),
            Pattern::NotAllowed => self.put("notAllowed", "", None),
            Pattern::External(e) => {
                self.put("externalRef", e.0.as_string_value(), Some(e.0.0.clone()));
                self.inherit(&e.1);
            }
            Pattern::Grammar(g) => {
                self.put("grammar", "", Some(g.span.clone()));
                self.content(&g.content);
            }
            Pattern::Group(inner) => {
                let mut v = vec![];
                Self::chain(inner, "sequence", &mut v);
                self.put("group", "", None);
                for p in v {
                    self.pattern(p);
                }
                self.put("end", "", None);
            }
            Pattern::ListPair(..) => self.group(p, "sequence"),
            Pattern::InterleavePair(..) => self.group(p, "interleave"),
            Pattern::ChoicePair(..) => self.group(p, "choice"),
            Pattern::Optional(p) => {
                self.put("optional", "", None);
                self.pattern(p);
            }
            Pattern::ZeroOrMore(p) => {
                self.put("zeroOrMore", "", None);
                self.pattern(p);
            }
            Pattern::OneOrMore(p) => {
                self.put("oneOrMore", "", None);
                self.pattern(p);
            }
            Pattern::DatatypeValue(v) => {
                self.put("value", "", None);
                if let Some(n) = &v.0 {
                    self.datatype(n);
                }
                self.put("literal", v.1.as_string_value(), Some(v.1.0.clone()));
            }
            Pattern::DatatypeName(d) => {
                self.put("data", "", None);
                self.datatype(&d.0);
                for p in d.1.iter().flatten() {
                    self.put("param", "", Some(p.0.clone()));
                    self.put("name", p.2.to_string(), Some(p.2.span()));
                    self.put("literal", p.3.as_string_value(), Some(p.3.0.clone()));
                }
                if let Some(x) = &d.2 {
                    self.put("except", "", None);
                    self.pattern(x);
                }
                self.put("end", "", None);
            }
        }
    }
    fn datatype(&mut self, n: &DatatypeName) {
        match n {
            DatatypeName::String | DatatypeName::Token => {
                self.put("library", "", None);
                self.put("type", if let DatatypeName::String = n { "string" } else { "token" }, None);
            }
            DatatypeName::NamespacedName(n) => {
                self.put("library", n.namespace_uri.as_string_value(), Some(n.namespace_uri.0.clone()));
                self.put("type", n.localname.1.clone(), Some(n.localname.0.clone()));
            }
            n => self.put("unexpected", format!("{n:?}"), None),
        }
    }
    fn inherit(&mut self, i: &Option<Inherit>) {
        match i {
            None => {}
            Some(Inherit::NamespaceUri(l)) => self.put("inherit", l.as_string_value(), Some(l.0.clone())),
            Some(i) => self.put("unexpected", format!("{i:?}"), None),
        }
    }
    fn ns(&mut self, what: &'static str, l: &Literal) {
        let v = if l.1.is_empty() { "(inherited)".to_string() } else { l.as_string_value() };
        self.put(what, v, Some(l.0.clone()));
    }
    fn name_class(&mut self, n: &NameClass) {
        match n {
            NameClass::Name(Name::NamespacedName(n)) => {
                self.ns("ns", &n.namespace_uri);
                self.put("name", n.localname.1.clone(), Some(n.localname.0.clone()));
            }
            NameClass::NsName(NsName { name: NamespaceOrPrefix::NamespaceUri(u), except }) => {
                self.ns("nsName", u);
                self.except(except);
            }
            NameClass::AnyName(a) => {
                self.put("anyName", "", None);
                self.except(&a.0);
            }
            NameClass::Alt(_) => {
                fn chain<'n>(n: &'n NameClass, out: &mut Vec<&'n NameClass>) {
                    match n {
                        NameClass::Alt(a) => {
                            chain(&a.0, out);
                            chain(&a.1, out);
                        }
                        _ => out.push(n),
                    }
                }
                let mut v = vec![];
                chain(n, &mut v);
                self.put("names", "", None);
                for n in v {
                    self.name_class(n);
                }
                self.put("end", "", None);
            }
            n => self.put("unexpected", format!("{n:?}"), None),
        }
    }
    fn except(&mut self, x: &Option<Box<NameClass>>) {
        if let Some(x) = x {
            self.put("except", "", None);
            self.name_class(x);
        }
        self.put("end", "", None);
    }
    fn define(&mut self, d: &Define) {
        self.put("define", "", Some(d.0.clone()));
        self.put("name", d.1.1.clone(), Some(d.1.0.clone()));
        match d.2 {
            AssignMethod::Assign => self.put("assign", "", None),
            AssignMethod::Choice => self.put("combine", "choice", None),
            AssignMethod::Interleave => self.put("combine", "interleave", None),
        }
        self.pattern(&d.3);
    }
    fn content(&mut self, c: &[GrammarContent]) {
        for c in c {
            match c {
                GrammarContent::Define(d) => self.define(d),
                GrammarContent::Div(c) => {
                    self.put("div", "", None);
                    self.content(c);
                }
                GrammarContent::Include(i) => {
                    self.put("include", i.0.as_string_value(), Some(i.0.0.clone()));
                    self.inherit(&i.1);
                    self.include(i.2.as_deref().unwrap_or(&[]));
                }
                GrammarContent::Annotation(_) => {}
            }
        }
        self.put("end", "", None);
    }
    fn include(&mut self, c: &[IncludeContent]) {
        for c in c {
            match c {
                IncludeContent::Define(d) => self.define(d),
                IncludeContent::Div(c) => {
                    self.put("div", "", None);
                    self.include(c);
                }
                IncludeContent::Annotation(_) => {}
            }
        }
        self.put("end", "", None);
    }
}

// ------------------------------------------------------------------------------------ the check

fn judge(cx: &mut Cx, root: &El, text: &str) -> CaseResult {
    let mut r = Reader { ev: vec![] };
    let want = r.root(root);
    let got = {
        let _in = InLibrary::enter();
        xml::parse(text)
    };
    cx.eval();
    match want {
        Err(No::Unsure) => cx.class("not judged"),
        Err(No::Bad(why)) => {
            cx.class("not a schema");
            if got.is_ok() {
                return Err(format!("this is not a schema ({why}), but the parser accepts it"));
            }
        }
        Ok(()) => {
            cx.class("schema");
            let got = got.map_err(|e| format!("the parser does not accept this schema: {e:?}"))?;
            let mut t = Tree::default();
            match &got.pattern_or_grammar {
                PatternOrGrammar::Pattern(p) => t.pattern(p),
                PatternOrGrammar::Grammar(g) => {
                    t.put("grammar", "", Some(g.span.clone()));
                    t.content(&g.content);
                }
            }
            if !got.decls.is_empty() {
                return Err(format!("declarations out of nowhere: {:?}", got.decls));
            }
            for i in 0..r.ev.len().max(t.ev.len()) {
                let (w, g) = (r.ev.get(i), t.ev.get(i));
                let same = match (w, g) {
                    (Some(w), Some(g)) => w.what == g.what && w.val == g.val && (w.span.is_none() || w.span == g.span),
                    _ => false,
                };
                if !same {
                    return Err(format!("item {i} of the tree should be {w:?}, but it is {g:?}"));
                }
            }
        }
    }
    Ok(())
}

fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let pfx = if t.chance(1, 4) { "r" } else { "" };
    let budget = t.range(2, 24) as i32;
    let mut g = G { t, pfx: pfx.into(), budget };
    let mut root = match g.t.below(4) {
        0 => g.named("element"),
        1 => g.pattern(),
        _ => g.named("grammar"),
    };
    for (n, u) in [("xmlns:q", "urn:q"), ("xmlns:f", "urn:f"), ("xmlns:r", RNG_NS)] {
        if !root.attrs.iter().any(|a| a.0 == n) {
            root.attrs.push((n.into(), u.into()));
        }
    }
    if pfx.is_empty() {
        root.attrs.push(("xmlns".into(), RNG_NS.into()));
    }
    let mut edits = vec![];
    for _ in 0..4 {
        let mut out = String::new();
        if t.chance(1, 8) {
            out.push_str("<?xml version='1.0'?>\n");
        }
        if t.chance(1, 8) {
            out.push_str("<!-- é -->\n");
        }
        print(&mut root, &mut out, t);
        cx.note(format!("{edits:?}\n{out}"));
        judge(cx, &root, &out)?;
        if count(&root) >= 6 {
            cx.nontrivial(&out);
        }
        let before = out;
        let mut tries = 0;
        loop {
            let what = edit(t, &mut root);
            let mut out = String::new();
            print(&mut root, &mut out, &mut Tape::new(&[]));
            tries += 1;
            if out != before || tries > 3 {
                edits.push(what);
                cx.class(what);
                break;
            }
        }
    }
    Ok(())
}

fn fixed(cx: &mut Cx) -> CaseResult {
    const OPEN: &str = "xmlns='http://relaxng.org/ns/structure/1.0' xmlns:q='urn:q' xmlns:f='urn:f' xmlns:r='http://relaxng.org/ns/structure/1.0'";
    let mut bad: Vec<String> = vec![
        // text where elements are
        "<element name='a'>x<text/></element>".into(),
        "<element name='a'><group>\u{a0}<text/></group></element>".into(),
        "<element name='a'><text>x</text></element>".into(),
        "<element name='a'><empty><![CDATA[x]]></empty></element>".into(),
        "<element name='a'><ref name='b'>x</ref></element>".into(),
        "<grammar>x<start><text/></start></grammar>".into(),
        "<grammar><start><text/></start>x</grammar>".into(),
        "<grammar><start><text/>x</start></grammar>".into(),
        "<grammar><div>x</div></grammar>".into(),
        "<grammar><include href='a'>x</include></grammar>".into(),
        "<element><anyName>x</anyName><empty/></element>".into(),
        "<element><anyName><except>x<name>a</name></except></anyName><empty/></element>".into(),
        "<element><choice>x<name>a</name></choice><empty/></element>".into(),
        "<data type='token'>x</data>".into(),
        "<data type='token'><except>x<value>a</value></except></data>".into(),
        // names
        "<element name='q :a'><empty/></element>".into(),
        "<element name='q: a'><empty/></element>".into(),
        "<element><name>q: a</name><empty/></element>".into(),
        "<element><name>q :a</name><empty/></element>".into(),
        "<element name='\u{a0}a'><empty/></element>".into(),
        "<element><name>a\u{3000}</name><empty/></element>".into(),
        "<ref name='a\u{2003}'/>".into(),
        "<data type='\u{a0}token'/>".into(),
        "<grammar><define name='a' combine='choice\u{a0}'><empty/></define></grammar>".into(),
        // attributes which are namespace declarations
        "<attribute name='xmlns'/>".into(),
        "<attribute ns='' name='xmlns'/>".into(),
        "<element name='a'><attribute name=' xmlns '><text/></attribute></element>".into(),
        "<attribute ns='http://www.w3.org/2000/xmlns' name='a'/>".into(),
        "<element name='a'><attribute ns='http://www.w3.org/2000/xmlns' name='a'><text/></attribute></element>".into(),
        // content
        "<externalRef href='a'><empty/></externalRef>".into(),
    ];
    let holders = [
        ("group", "<text/>"), ("interleave", "<text/>"), ("choice", "<text/>"), ("optional", "<text/>"), ("zeroOrMore", "<text/>"), ("oneOrMore", "<text/>"), ("list", "<text/>"), ("mixed", "<text/>"), ("empty", ""), ("text", ""), ("notAllowed", ""),
        ("grammar", ""), ("element name='a'", "<text/>"), ("attribute name='a'", "<text/>"), ("ref name='a'", ""), ("parentRef name='a'", ""), ("externalRef href='a'", ""), ("value", "x"), ("data type='token'", ""),
    ];
    for (n, c) in holders {
        let end = n.split(' ').next().unwrap();
        for a in ["foo='x'", "r:name='x'", "r:ns='x'", "type='x'", "name='x'", "href='x'", "combine='choice'", "datatypeLibrary='x'", "datatypeLibrary='urn:x#y'"] {
            if n.contains(&a[..a.len() - 3]) || (n == "value" && a.starts_with("type")) {
                continue;
            }
            bad.push(format!("<{n} {a}>{c}</{end}>"));
        }
    }
    for (pre, n, post) in [
        ("<grammar>", "start", "<text/></start></grammar>"),
        ("<grammar>", "define name='x'", "<text/></define></grammar>"),
        ("<grammar>", "div", "</div></grammar>"),
        ("<grammar>", "include href='x'", "</include></grammar>"),
        ("<grammar><include href='x'>", "div", "</div></include></grammar>"),
        ("<element>", "name", "a</name><text/></element>"),
        ("<element>", "anyName", "</anyName><text/></element>"),
        ("<element>", "nsName", "</nsName><text/></element>"),
        ("<element>", "choice", "<name>a</name></choice><text/></element>"),
        ("<element><anyName>", "except", "<name>a</name></except></anyName><text/></element>"),
        ("<data type='token'>", "except", "<value>a</value></except></data>"),
        ("<data type='token'>", "param name='x'", "a</param></data>"),
    ] {
        for a in ["foo='x'", "r:foo='x'", "type='x'", "datatypeLibrary='x'"] {
            bad.push(format!("{pre}<{n} {a}>{post}"));
        }
    }
    let good = [
        // attributes of other vocabularies are not those of RELAX NG
        ("<element name='a' f:ns='urn:x'><empty/></element>", "NamespacedName"),
        ("<element f:name='x'><name>a</name><empty/></element>", "NamespacedName"),
        ("<element f:name='x' name='a'><empty/></element>", "NamespacedName"),
        ("<attribute f:ns='urn:x' name='a'/>", "NamespacedName"),
        ("<attribute f:name='x'><anyName/></attribute>", "AnyName"),
        ("<value f:type='x'>a</value>", "DatatypeValue"),
        ("<data f:type='x' type='token'/>", "Token"),
        ("<ref f:name='x' name='a'/>", "Identifier"),
        ("<grammar><start f:combine='x'><text/></start></grammar>", "Assign"),
        ("<grammar><define f:name='b' name='a' f:combine='x'><text/></define></grammar>", "Assign"),
        ("<grammar><include f:href='x' href='a'/></grammar>", "Include"),
        ("<externalRef f:href='x' href='a'/>", "External"),
        ("<element name=' q:a '><text/></element>", "NamespacedName"),
        ("<element><name>\n q:a\t</name><text/></element>", "NamespacedName"),
    ];
    let doc = |s: &str| {
        let k = s[1..].find(|c: char| !c.is_ascii_alphabetic()).unwrap() + 1;
        format!("{} {OPEN}{}", &s[..k], &s[k..])
    };
    for b in &bad {
        let d = doc(b);
        cx.eval();
        cx.note(d.clone());
        if xml::parse(&d).is_ok() {
            return Err(format!("this is not a schema, but the parser accepts it: {d}"));
        }
    }
    for (g, want) in good {
        let d = doc(g);
        cx.eval();
        cx.note(d.clone());
        match xml::parse(&d) {
            Ok(s) => {
                let tree = format!("{s:?}");
                if !tree.contains(want) || tree.contains("\"x\"") || tree.contains("urn:x") {
                    return Err(format!("the tree has something of another vocabulary: {tree}\n{d}"));
                }
            }
            Err(e) => return Err(format!("the parser does not accept this schema: {e:?}\n{d}")),
        }
    }
    Ok(())
}
